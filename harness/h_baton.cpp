// C07: a baton wakes its waiter exactly once and never loses a signal.
#include "kworld.h"
#include <kio/sync/baton.h>
using namespace kio::sync;
enum { P = 3 };
static int mode, notifiers, twice, wtid = -1; static uint64_t base, nanos; static uint64_t payload[P]; static std::atomic<int> rang[P]; static int began, told, wokeRounds, finished; static AsyncBaton* B; static int nt[P]; static int firedAfter = -1, timersFired; static bool sync_; static int heldFd = 900; static int held, heldLeft;
extern "C" bool kur_ready(const io_uring_sqe* s) { return s->opcode == IORING_OP_TIMEOUT || finished; }
extern "C" void kur_submitted(const io_uring_sqe* s) { if (s->opcode == IORING_OP_TIMEOUT) { auto* t = (const __kernel_timespec*)s->addr; kse_assert(t->tv_sec == 2 && (uint64_t)t->tv_nsec == nanos, "the timer runs for the requested time"); } }
extern "C" int kur_result(const io_uring_sqe* s) { if (s->opcode != IORING_OP_TIMEOUT) return 4; timersFired++; firedAfter = told; return -ETIME; }
__attribute__((no_sanitize("thread"), noinline)) static void inc(int& x) { x++; }
static void notifier(void* a) { int p = (int)(size_t)a; payload[p] = base + (uint64_t)p; rang[p].store(1, std::memory_order_relaxed); inc(began); for (int k = 0; k < twice; k++) B->notify(); inc(told); }
static void spawn() { for (int p = 0; p < notifiers; p++) nt[p] = ks_spawn(notifier, (void*)(size_t)p, "notifier"); }
__attribute__((no_sanitize("thread"))) static void joinAll() { if (!kse_param("crowd", 0)) for (int p = 0; p < notifiers; p++) ks_join(nt[p]); }
static void woken() {
  wokeRounds++; kse_assert(ks_self() == wtid, "the waiter continues on its worker");
  if (notifiers == 1) kse_assert(payload[0] == base, "what was written before the notification is visible");
  else { bool any = false; for (int p = 0; p < notifiers; p++) if (rang[p].load(std::memory_order_relaxed)) any = true; kse_assert(any, "the waiter continues only when notified"); } }
static DetachedTask busy(Worker& w) { static char b[4]; held++; try { (void)co_await w.async_read(heldFd, std::span<char>(b, 4)); } catch (const std::exception&) {} held--; }
// the baton lives in the waiter: it is gone as soon as the waiter continues
static DetachedTask owner(Worker& w) { wtid = ks_self(); AsyncBaton b(w); B = &b; if (notifiers) spawn(); bool r = true; if (mode == 1) r = co_await b.wait_for(std::chrono::nanoseconds(2000000000 + nanos)); if (mode == 0 || !r) { if (!r) kse_reach("timed out, then waited"); co_await b.wait(); } woken(); if (mode) { if (r) kse_reach("notified in time"); } finished = 1; nDone++; }
// the baton outlives its waiters
static DetachedTask waiter(Worker& w, AsyncBaton& b) {
  wtid = ks_self(); if (mode == 1) { if (!sync_) for (int k = 0; k < heldLeft; k++) busy(w).detach(); bool r = co_await b.wait_for(std::chrono::nanoseconds(2000000000 + nanos));
    kse_assert(ks_self() == wtid, "the waiter continues on its worker"); if (r) { kse_assert(began > 0, "a wait reports a notification only if there was one"); kse_reach("notified in time"); }
    else { kse_assert(firedAfter <= 0, "a wait never times out on a baton notified before the timer ended"); kse_assert(timersFired || heldLeft, "a wait times out only when its timer ended"); kse_reach("timed out"); if (notifiers) { co_await b.wait(); kse_reach("timed out, then waited"); } else { finished = 1; nDone++; co_return; } } }
  else co_await b.wait();
  woken(); finished = 1; nDone++; }
struct Yield { Worker& w; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { internal::WorkerAccess::post(w, h); } void await_resume() {} };
static int others; static DetachedTask other(Worker& w) { co_await Yield{w}; others++; }
static DetachedTask again(Worker& w, AsyncBaton& b) { co_await SwitchToWorker(w); kse_assert(b.ready(), "a notified baton is ready"); b.reset(); kse_assert(!b.ready(), "a reset baton is not ready"); finished = 0; sync_ = false; for (int p = 0; p < notifiers; p++) { payload[p] = 0; rang[p].store(0, std::memory_order_relaxed); } base += 7; began = told = 0; firedAfter = -1; timersFired = 0; spawn(); waiter(w, b).detach(); }
static bool quietNow(void*) { return kur_inflight() == 0 && held == 0 && kur_idle(); }
__attribute__((no_sanitize("thread"))) static bool countsAre(int done, int woke) { return nDone == done && wokeRounds == woke; }
void harness() {
  mode = (int)kse_param("mode", 0); notifiers = (int)kse_choose((uint64_t)kse_param("nf", 1), (uint64_t)kse_param("nl", 2), "notifiers"); twice = (int)kse_param("twice", 1); int weak = (int)kse_param("weak", 0); int own = (int)kse_param("own", 0), early = kse_param("early", 0) && notifiers, reset = (int)kse_param("reset", 0); heldLeft = (int)kse_param("held", 0); base = kse_u64("data"); nanos = kse_range(0, 999999999, "nanos"); users = 1; kur = {1, 2};
  WorkerConfig c = smallConfig(); c.uring_queue_depth = (size_t)kse_param("depth", 8); c.default_op_slots = (size_t)kse_param("slots", 8); c.max_op_slots = (size_t)kse_param("maxslots", 64); uint64_t seq = kse_alloc_seq(); bool never = notifiers == 0 && mode == 0;
  { std::optional<AsyncBaton> b; Worker w(3, c, std::function<void(Worker&)>([&](Worker& w) { if (own) { owner(w).detach(); return; } if (!early && !kse_param("crowd", 0)) spawn(); int before = wokeRounds; waiter(w, *b).detach(); if (int n = (int)kse_param("crowd", 0)) { for (int k = 0; k < n; k++) other(w).detach(); notifier(nullptr); kse_reach("crowded"); return; } if (early) kse_assert(wokeRounds == before + 1, "a notified baton does not suspend its waiter"); })); W = &w; if (!own) { b.emplace(w); B = &*b; } if (weak && B) ks_watch(B, sizeof *B, "baton");
    if (early) { sync_ = true; ks_config(0, weak, 0, 0); spawn(); joinAll(); kse_reach("notified first"); }
    ks_config((int)kse_param("pre", 2), weak, (int)kse_param("stale", 0), 0); int t = ks_spawn(wthread, nullptr, "worker");
    if (never) { w.wait_ready(); kse_reach("never notified"); }
    else { ks_wait(allDone, nullptr, "a notified waiter continues"); joinAll();
      if (reset) { users = 2; again(w, *b).detach(); ks_wait(allDone, nullptr, "a notified waiter continues, after a reset as before it"); joinAll(); kse_reach("used again"); }
      ks_wait(quietNow, nullptr, "timers end"); kse_assert(countsAre(users, notifiers ? users : 0), "the waiter continues once"); }
    (void)w.request_stop(); w.wait_shutdown(); ks_join(t); kse_assert(countsAre(never ? 0 : users, notifiers ? users : 0), "the waiter continues once"); }
  kse_assert(never || kse_heap_since(seq) == 0, "no memory leaks"); kse_reach("end"); }
