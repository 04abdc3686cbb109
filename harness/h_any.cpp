// C09: waiting for any of several tasks reports the first to finish, once.
#include "kworld.h"
#include <kio/sync/when_any.h>
using namespace kio::sync;
enum { N = 3, Now, Posted, Io, Throws, LateThrows, KINDS };
static int kinds[N], order[N], nEnded, result = -1, resumed, wtid; static uint64_t data[N], base;
struct Probe { int i; uint64_t* v; Probe(int i) : i(i), v(new uint64_t(base + (uint64_t)i)) {} ~Probe() { kse_assert(*v == base + (uint64_t)i, "a task's data stays intact until it ends"); delete v; } };
extern "C" int kur_result(const io_uring_sqe* s) { return s->fd; }
struct Ended { int i; ~Ended() { order[nEnded++] = i; } };
struct Handed { std::coroutine_handle<>* out; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { *out = h; } void await_resume() {} };
static std::coroutine_handle<> parked[N];
__attribute__((no_sanitize("thread"))) static bool isParked(void* a) { return (bool)parked[(size_t)a]; }
static void poster(void* a) { size_t i = (size_t)a; ks_wait(isParked, a, "the task is parked"); data[i] = base ^ i; internal::WorkerAccess::post(*W, parked[i]); }
template <class T> static Task<T> task(Worker& w, int i) {
  Probe p(i); Ended e{i};
  switch (kinds[i]) { case Throws: throw std::runtime_error("task"); case Posted: case LateThrows: co_await Handed{&parked[i]}; kse_assert(data[i] == (base ^ (uint64_t)i), "what was written before is visible"); if (kinds[i] == LateThrows) throw std::runtime_error("task"); break;
    case Io: { static char b[4]; auto r = co_await w.async_read(900 + i, std::span<char>(b, 4)); kse_assert(r && *r == 900 + i, "the task's own result"); break; } }
  if constexpr (!std::is_void_v<T>) co_return std::string("a result that needs memory of its own"); }
static DetachedTask user(Worker& w, int n, bool later) {
  size_t r; wtid = ks_self();
  if (n == 1) { auto t = when_any(w, task<std::string>(w, 0)); r = co_await t; }
  else if (later) { auto t = n == 2 ? when_any(w, task<void>(w, 0), task<std::string>(w, 1)) : when_any(w, task<void>(w, 0), task<std::string>(w, 1), task<void>(w, 2)); kse_assert(nEnded == 0, "nothing runs before it is awaited"); r = co_await t; }
  else if (n == 2) r = co_await when_any(w, task<void>(w, 0), task<std::string>(w, 1)); else r = co_await when_any(w, task<void>(w, 0), task<std::string>(w, 1), task<void>(w, 2));
  kse_assert(++resumed == 1, "the waiter continues once"); kse_assert(nEnded > 0, "the waiter continues when a task has finished"); kse_assert(r == (size_t)order[0], "the first task to finish is reported"); kse_assert(ks_self() == wtid, "on its worker"); if (nEnded == 1) kse_reach("first of several"); kse_reach("won"); }
__attribute__((no_sanitize("thread"))) static bool over(void*) { return nEnded == users && resumed && kur_idle(); }
void harness() {
  int n = (int)kse_choose((uint64_t)kse_param("nf", 1), (uint64_t)kse_param("nl", 3), "tasks"); bool later = n > 1 && kse_choose(0, 1, "later"); for (int i = 0; i < n; i++) kinds[i] = (int)kse_choose(Now, KINDS - 1, "kind"); base = kse_u64("data"); users = n; kur = {1, 2}; uint64_t seq = kse_alloc_seq(); int weak = (int)kse_param("weak", 0);
  { WorkerConfig c = smallConfig(); Worker w(3, c, std::function<void(Worker&)>([=](Worker& w) { user(w, n, later).detach(); })); W = &w; ks_config((int)kse_param("pre", 1), weak, (int)kse_param("stale", 0), 0); int t = ks_spawn(wthread, nullptr, "worker"); int ps[N]; int np = 0; for (int i = 0; i < n; i++) if (kinds[i] == Posted || kinds[i] == LateThrows) ps[np++] = ks_spawn(poster, (void*)(size_t)i, "poster");
    ks_wait(over, nullptr, "the waiter continues and every task ends"); for (int i = 0; i < np; i++) ks_join(ps[i]); (void)w.request_stop(); w.wait_shutdown(); ks_join(t); kse_assert(resumed == 1 && nEnded == n, "the waiter continues once, every task ends once"); }
  kse_assert(kse_heap_since(seq) == 0, "nothing is freed twice or never"); kse_reach("end"); }
