// C29: a coroutine handed to a running worker runs on it exactly once, in order.
#include "kworld.h"
enum { P = 3, K = 300 };
static int posters, per, ran[P][K], nextOf[P], self, reads; static uint64_t data[P][K], base; static bool seen[P][K];
extern "C" bool kur_ready(const io_uring_sqe* s) { return s->fd != 899; }
static DetachedTask stuck(Worker& w) { static char b[4]; (void)co_await w.async_read(899, std::span<char>(b, 4)); kse_fail("an operation that never completes resumed its coroutine"); }
static bool leaks; static int res_[P]; extern "C" int kur_result(const io_uring_sqe* s) { int r = (int)kse_u32("res"); kse_assume((r >= 0) | ((r <= -2200) & (r >= -4095))); return res_[s->fd - 900] = r; }
struct Repost { Worker& w; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { internal::WorkerAccess::post(w, h); } void await_resume() {} };
static DetachedTask hop(Worker& w, int p, int k) {
  data[p][k] = base ^ (uint64_t)(p * 1000 + k); co_await SwitchToWorker(w);
  kse_assert(w.is_on_worker_thread(), "the coroutine continues on the worker"); kse_assert((data[p][k] ^ base) == (uint64_t)(p * 1000 + k), "what the thread wrote before is visible"); kse_assert(!ran[p][k]++, "a coroutine is resumed once"); kse_assert(nextOf[p] == k, "coroutines of one thread run in the order they were handed over"); nextOf[p]++;
  if (reads && k == 0) { static char b[4]; auto r = co_await w.async_read(900 + p, std::span<char>(b, 4)); kse_assert(r ? *r == res_[p] : r.error().value == -res_[p], "its operation completes with its result"); kse_assert(r.has_value() == (res_[p] >= 0), "its operation completes with its result"); kse_assert(w.is_on_worker_thread(), "still on the worker"); }
  if (self && k == 0) { co_await Repost{w}; kse_assert(w.is_on_worker_thread(), "a coroutine that hands itself over continues on the worker"); kse_assert(ran[p][k] == 1, "resumed once"); co_await SwitchToWorker(w); kse_assert(w.is_on_worker_thread(), "still on the worker"); kse_reach("handed itself over"); }
  nDone++; }
static void poster(void* a) { int p = (int)(size_t)a; for (int k = 0; k < per; k++) hop(*W, p, k).detach(); }
void harness() {
  posters = (int)kse_param("posters", 2); per = (int)kse_param("per", 2); self = (int)kse_param("self", 0); reads = (int)kse_param("reads", 0); int weak = (int)kse_param("weak", 0), early = (int)kse_choose((uint64_t)kse_param("early", 0), 1, "before start"); base = kse_u64("data"); users = posters * per; kur = {1, 2};
  WorkerConfig c = smallConfig(); c.task_queue_capacity = (size_t)kse_param("cap", 4); uint64_t seq = kse_alloc_seq(); ks_config((int)kse_param("pre", 2), weak, (int)kse_param("stale", 0), 0);
  { bool pend = kse_param("stuck", 0) && kse_choose(0, 1, "stuck"); leaks = pend; Worker w(3, c, pend ? std::function<void(Worker&)>([](Worker& w) { stuck(w).detach(); }) : std::function<void(Worker&)>()); W = &w; int t = 0; int ps[P]; auto start = [&] { t = ks_spawn(wthread, nullptr, "worker"); };
    if (!early) { ks_quiet(true); start(); w.wait_ready(); ks_quiet(false); }   // the start itself is C26's concern
    for (int p = 0; p < posters; p++) ps[p] = ks_spawn(poster, (void*)(size_t)p, "poster");
    if (early) { for (int p = 0; p < posters; p++) ks_join(ps[p]); kse_reach("queued before the start"); start(); w.wait_ready(); }
    ks_wait(allDone, nullptr, "every coroutine handed over runs"); kse_reach("all ran"); (void)w.request_stop(); w.wait_shutdown(); ks_join(t); for (int p = 0; p < posters; p++) if (!early) ks_join(ps[p]);
    for (int p = 0; p < posters; p++) for (int k = 0; k < per; k++) kse_assert(ran[p][k] == 1, "each ran once"); }
  kse_assert(leaks || kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_reach("end"); }
