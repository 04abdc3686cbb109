// C08: an event wakes every waiter exactly once and never loses a notification.
#include "kworld.h"
#include <kio/sync/event.h>
using namespace kio::sync;
enum { N = 8 };
static AsyncEvent* E; static int waiters, notifiers, wtid = -1, afterReset; static uint64_t base, payload; static std::atomic<int> rang; static int woke[N], tids[N]; static bool wasSet[N];
extern "C" bool kur_ready(const io_uring_sqe*) { return false; }
extern "C" int kur_result(const io_uring_sqe*) { return 0; }
__attribute__((no_sanitize("thread"), noinline)) static void inc(int& x) { x++; }
static void ring(void*) { payload = base * 2 + 1; rang.store(1, std::memory_order_relaxed); E->notify(); }
static DetachedTask waiter(int i, bool here) {   // `here`: on a thread of its own
  bool set = E->is_set(); int self = ks_self(); co_await E->wait(); inc(woke[i]); kse_assert(ks_self() == wtid || (here && ks_self() == self), "a waiter continues on the event's worker"); if (!here && set) kse_reach("already set"); if (set) kse_assert(ks_self() == self, "waiting on an event already set does not suspend");
  kse_assert(rang.load(std::memory_order_relaxed) == 1, "no waiter continues before the event is set"); if (notifiers == 1) kse_assert((payload >> 1) == base && (payload & 1), "what was written before the notification is visible"); inc(nDone); }
static void own(void* a) { waiter((int)(size_t)a, true).detach(); }
static DetachedTask hop(int i) { co_await SwitchToWorker(*W); waiter(i, false).detach(); }
__attribute__((no_sanitize("thread"))) static bool once(int n) { for (int i = 0; i < n; i++) if (woke[i] != 1) return false; for (int i = n; i < N; i++) if (woke[i]) return false; return true; }
__attribute__((no_sanitize("thread"))) static bool asleep(void*) { return kur_idle(); }
void harness() {
  waiters = (int)kse_param("waiters", 2); notifiers = (int)kse_choose((uint64_t)kse_param("nf", 1), (uint64_t)kse_param("nl", 1), "notifiers"); int weak = (int)kse_param("weak", 0), threads = (int)kse_param("threads", 0), reset = (int)kse_param("reset", 0); base = kse_u64("data"); kse_assume(base >> 63 == 0); users = waiters; kur = {1, 1}; uint64_t seq = kse_alloc_seq(); bool never = notifiers == 0; int ns[N];
  WorkerConfig c = smallConfig(); c.task_queue_capacity = (size_t)kse_param("cap", 4);
  { std::optional<AsyncEvent> e; Worker w(3, c, std::function<void(Worker&)>([](Worker&) { wtid = ks_self(); for (int i = (int)kse_param("threads", 0); i < waiters; i++) waiter(i, false).detach(); })); W = &w; e.emplace(w); E = &*e; if (weak) ks_watch(E, sizeof *E, "event");
    ks_config((int)kse_param("pre", 2), weak, (int)kse_param("stale", 0), (int)kse_param("spurious", 0)); if (kse_param("late", 0)) ks_quiet(true); int t = ks_spawn(wthread, nullptr, "worker"); if (threads || kse_param("late", 0)) w.wait_ready(); if (kse_param("late", 0)) ks_quiet(false);
    for (int i = 0; i < threads; i++) tids[i] = ks_spawn(own, (void*)(size_t)i, "waiter"); for (int p = 0; p < notifiers; p++) ns[p] = ks_spawn(ring, nullptr, "notifier");
    for (int i = 0; i < threads; i++) ks_join(tids[i]);
    if (never) { w.wait_ready(); ks_wait(asleep, nullptr, "the worker sleeps"); kse_assert(once(0), "an event that is not set wakes nobody"); kse_assert(!e->is_set(), "not set"); kse_reach("never set"); }
    else { ks_wait(allDone, nullptr, "every waiter on a set event continues"); for (int p = 0; p < notifiers; p++) ks_join(ns[p]); kse_assert(once(waiters), "every waiter continues once"); kse_assert(e->is_set(), "the event stays set"); kse_reach("all woken");
      if (reset) { rang.store(0); e->reset(); kse_assert(!e->is_set(), "a reset event is not set"); hop(waiters).detach(); ks_wait(asleep, nullptr, "the worker sleeps"); kse_assert(once(waiters), "a reset makes later waits suspend"); users++; int r = ks_spawn(ring, nullptr, "notifier"); if (reset > 1) { users++; hop(waiters + 1).detach(); } ks_wait(allDone, nullptr, "every waiter continues after a reset too"); ks_join(r); kse_assert(once(users), "every waiter continues once"); kse_reach("used again"); } }
    (void)w.request_stop(); w.wait_shutdown(); ks_join(t); kse_assert(once(never ? 0 : users), "every waiter continues once"); }
  kse_assert(never || kse_heap_since(seq) == 0, "no memory leaks"); kse_reach("end"); }
