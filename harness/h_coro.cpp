// C06: Task, DetachedTask and SyncWait.
#include "kse.h"
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include <kio/core/coro.h>
#include <kio/sync/sync_wait.h>
using namespace kio;
static int live, made, started[8], finished[8]; static int seqNo;
struct Tracker { int id; Tracker(int i) : id(i) { live++; made++; } Tracker(const Tracker&) = delete; Tracker(Tracker&& o) : id(o.id) { live++; made++; o.id = -1; } Tracker& operator=(Tracker&& o) { id = o.id; o.id = -1; return *this; } ~Tracker() { live--; } };
struct Value { std::unique_ptr<uint32_t> p; Tracker t; Value(uint32_t v) : p(std::make_unique<uint32_t>(v)), t(7) {} Value(Value&&) = default; Value& operator=(Value&&) = default; };
struct Boom { uint32_t v; Tracker t; Boom(uint32_t x) : v(x), t(9) {} Boom(const Boom& o) : v(o.v), t(9) {} };
// a place where a coroutine is parked until the harness resumes it
static std::coroutine_handle<> parked; static int parks;
struct Park { bool ready; bool await_ready() noexcept { return ready; } void await_suspend(std::coroutine_handle<> h) noexcept { kse_assert(!parked, "one coroutine parked at a time"); parked = h; parks++; } void await_resume() noexcept {} };
static void unpark() { auto h = parked; parked = {}; h.resume(); }
struct Cfg { bool pre, post, thr, thrBefore, catches, mv; uint32_t val; };
static Cfg cfg[8]; static int levels; static int orderBad;
static void readCfg(int i) { cfg[i].pre = kse_choose(0, 1, "pre"); cfg[i].post = kse_choose(0, 1, "post"); cfg[i].thr = kse_choose(0, 1, "thr"); cfg[i].catches = i + 1 < levels ? kse_choose(0, 1, "catches") : 0; cfg[i].thrBefore = i + 1 < levels && cfg[i].thr ? kse_choose(0, 1, "before") : 0; cfg[i].mv = kse_choose(0, 1, "mv"); cfg[i].val = kse_u32("val"); }
template <class T> static Task<T> level(int i, Tracker arg);
template <class T> static Task<T> level(int i, Tracker arg) {
  Tracker local(i); started[i]++; kse_assert(arg.id == 100 + i, "parameters reach the coroutine");
  if (cfg[i].pre) co_await Park{false};
  uint32_t acc = cfg[i].val; if (cfg[i].thrBefore) { finished[i]++; throw Boom(acc); }
  if (i + 1 < levels) {
    Task<T> t = level<T>(i + 1, Tracker(101 + i)); kse_assert(started[i + 1] == 0, "a task does not run before it is awaited"); 
    bool got = false; uint32_t sub = 0;
    try { if (cfg[i].mv) { Task<T> u(std::move(t)); if constexpr (std::is_void_v<T>) co_await u; else { T v = co_await std::move(u); sub = *v.p; } } else if constexpr (std::is_void_v<T>) co_await t; else { T v = co_await t; sub = *v.p; } got = true; kse_assert(finished[i + 1] == 1, "an awaiter continues only after the task has finished"); }
    catch (const Boom& b) { kse_assert(finished[i + 1] == 1, "an awaiter continues only after the task has finished"); if (!cfg[i].catches) { finished[i]++; throw; } sub = b.v + 1; }
    acc ^= sub; }
  if (cfg[i].post) co_await Park{false};
  finished[i]++; if (cfg[i].thr) throw Boom(acc);
  if constexpr (!std::is_void_v<T>) co_return Value(acc); else co_return; }
// what must come out
struct Out { bool thrown; uint32_t v; };
template <bool V> static Out expect(int i) { uint32_t acc = cfg[i].val; if (cfg[i].thrBefore) return {true, acc}; if (i + 1 < levels) { Out o = expect<V>(i + 1); if (o.thrown) { if (!cfg[i].catches) return o; acc ^= o.v + 1; } else acc ^= V ? 0 : o.v; } return {cfg[i].thr, acc}; }
static std::optional<Out> final_; static int finals;
template <class T> static DetachedTask drive(Tracker a) { Tracker l(50); try { Task<T> t = level<T>(0, Tracker(100)); kse_assert(started[0] == 0, "a task does not run before it is awaited"); if constexpr (std::is_void_v<T>) { co_await t; final_ = Out{false, 0}; } else { T v = co_await t; final_ = Out{false, *v.p}; } } catch (const Boom& b) { final_ = Out{true, b.v}; } finals++; kse_assert(a.id == 99, "a detached task keeps its parameters"); }
static void check(const Out& got, const Out& want, bool isVoid) { kse_assert(got.thrown == want.thrown, "the outcome is a value exactly when the task returns"); if (got.thrown || !isVoid) kse_assert(got.v == want.v, "the value or exception is exactly the task's"); kse_reach(got.thrown ? "exception" : "value"); }
template <class T> static void chain() {
  levels = (int)kse_choose(1, kse_param("levels", 2), "levels"); for (int i = 0; i < levels; i++) readCfg(i); uint64_t seq = kse_alloc_seq(); bool sync = kse_choose(0, 1, "sync");
  if (sync) { Out got; try { Task<T> t = level<T>(0, Tracker(100)); kse_assert(started[0] == 0, "a task does not run before it is awaited"); if constexpr (std::is_void_v<T>) { SyncWait(std::move(t)); got = {false, 0}; } else { Value v = SyncWait(std::move(t)); got = {false, *v.p}; } } catch (const Boom& b) { got = {true, b.v}; } check(got, expect<std::is_void_v<T>>(0), std::is_void_v<T>); kse_reach("SyncWait"); }
  else { drive<T>(Tracker(99)).detach(); for (int k = 0; parked && k < 20; k++) unpark(); kse_assert(final_.has_value() && finals == 1, "a detached task runs to completion, once"); check(*final_, expect<std::is_void_v<T>>(0), std::is_void_v<T>); }
  for (int i = 0; i < levels; i++) kse_assert(started[i] <= 1 && finished[i] <= 1 && started[i] >= finished[i], "every coroutine body runs at most once"); kse_assert(!parked, "nothing is left suspended");
  final_.reset(); kse_assert(live == 0, "every local, parameter, value and exception is destroyed exactly once"); kse_assert(kse_heap_since(seq) == 0, "every coroutine frame is freed"); kse_reach("chain end"); }
extern "C" void kse_latch_block(const void*) { kse_assert((bool)parked, "a synchronous wait can always make progress"); unpark(); }
// moving, replacing and dropping tasks in every state
static Task<Value> leaf(int id, Tracker) { Tracker l(id); started[id]++; co_await Park{false}; finished[id]++; co_return Value(1000 + id); }
static Task<void> vleaf(int id, Tracker) { Tracker l(id); started[id]++; co_await Park{false}; finished[id]++; co_return; }
static Task<void> user(Task<Value>& t, uint32_t& got) { Tracker l(20); Value v = co_await t; got = *v.p; }
static void ownership() { uint64_t seq = kse_alloc_seq();
  { Task<Value> a = leaf(0, Tracker(1)), b = leaf(1, Tracker(2)); Task<void> c = vleaf(2, Tracker(3)), d = vleaf(3, Tracker(4)); int own[4] = {0, 1, 2, 3}; (void)own; int frames = 4; int at[2] = {0, 1};
    for (int k = 0; k < (int)kse_param("ops", 2); k++) switch (kse_choose(0, 5, "op")) {
      case 0: if (at[0] >= 0) frames--; a = std::move(b); at[0] = at[1]; at[1] = -1; break;
      case 1: { Task<Value> t(std::move(a)); if (at[0] >= 0) frames--; at[0] = -1; break; }   // dropped unawaited
      case 2: { Task<Value> t(std::move(a)); a = std::move(t); break; }
      case 3: { Task<Value>* p = &a; a = std::move(*p); break; }
      case 4: if (c.h_) frames--; c = std::move(d); break;
      case 5: { Task<void> t(std::move(c)); if (t.h_) frames--; break; } }
    kse_assert(live == frames, "exactly the tasks still owned are alive"); for (int i = 0; i < 4; i++) kse_assert(started[i] == 0, "moving tasks never runs them");
    if (at[0] >= 0) { uint32_t got = 0; int id = at[0]; Task<void> u = user(a, got); kse_assert(started[id] == 0 && live == frames, "a task does not run before it is awaited");
      struct Run { static DetachedTask go(Task<void>& t, int& done) { co_await t; done++; } }; int done = 0; switch (kse_choose(0, 2, "end")) {
        case 0: { Run::go(u, done).detach(); kse_assert(started[id] == 1 && parked && !done, "awaiting runs the task up to its suspension"); unpark(); kse_assert(done == 1 && got == 1000u + id, "the awaiter gets the value"); kse_assert(a.await_ready() && u.await_ready(), "a finished task is ready"); kse_reach("awaited"); break; }
        case 1: { DetachedTask dt = Run::go(u, done); kse_assert(parked && !done, "suspended"); parked = {}; kse_reach("dropped while suspended"); break; }   // dt destroyed here with everything suspended
        case 2: kse_reach("dropped"); break; } } }
  kse_assert(live == 0, "every local, parameter, value and exception is destroyed exactly once"); kse_assert(kse_heap_since(seq) == 0, "every coroutine frame is freed exactly once"); }
static DetachedTask det(Tracker t, bool park, bool thr, bool odd) { Tracker l(1); started[0]++; if (park) co_await Park{false}; finished[0]++; if (thr) { if (odd) throw Boom(1); throw std::runtime_error("x"); } }
static void detached() { uint64_t seq = kse_alloc_seq(); bool park = kse_choose(0, 1, "park"), thr = kse_choose(0, 1, "thr"), odd = kse_choose(0, 1, "odd"), mv = kse_choose(0, 1, "mv"), drop = kse_choose(0, 1, "drop"), late = kse_choose(0, 1, "late"); bool done = false;
  { DetachedTask d = det(Tracker(5), park, thr, odd); kse_assert(started[0] == 1, "a detached task starts at once"); if (park && late) { unpark(); kse_assert(finished[0] == 1, "resumed"); } if (mv) { DetachedTask e(std::move(d)); if (!drop) std::move(e).detach(); } else if (!drop) std::move(d).detach(); }
  if (drop) { parked = {}; kse_reach(park && !late ? "dropped suspended" : "dropped finished"); } else { if (park && !late) unpark(); kse_assert(finished[0] == 1, "a detached task runs to completion"); kse_reach("detached"); }
  kse_assert(live == 0, "every local and parameter is destroyed exactly once"); kse_assert(kse_heap_since(seq) == 0, "every coroutine frame is freed exactly once"); }
// a coroutine's outcome does not depend on the types of its parameters
static Task<uint32_t> same(uint32_t v, std::coroutine_handle<>, bool thr) { co_await Park{false}; if (thr) throw Boom(v); co_return v + 1; }
static Task<void> keep(std::exception_ptr e, std::coroutine_handle<>) { co_await Park{false}; kse_assert((bool)e, "parameters reach the coroutine"); finished[1]++; }
static Task<std::unique_ptr<uint32_t>> own(std::unique_ptr<uint32_t> p) { co_await Park{false}; kse_assert((bool)p, "parameters reach the coroutine"); co_return std::move(p); }
static DetachedTask flag(bool b, bool park, int& done) { if (park) co_await Park{false}; done += b ? 2 : 1; }
static void parameters() { uint64_t seq = kse_alloc_seq(); bool b = kse_choose(0, 1, "flag"), park = kse_choose(0, 1, "park"), thr = kse_choose(0, 1, "thr"); uint32_t v = kse_u32("val"); int done = 0;
  flag(b, park, done).detach(); if (park) unpark(); kse_assert(done == (b ? 2 : 1), "a detached task runs to completion");
  { DetachedTask d = flag(b, park, done); if (park) parked = {}; }
  { Out o; try { o = {false, SyncWait(same(v, std::noop_coroutine(), thr))}; } catch (const Boom& x) { o = {true, x.v}; } kse_assert(o.thrown == thr && o.v == (thr ? v : v + 1), "the outcome is the task's own"); }
  { bool thrown = false; try { SyncWait(keep(std::make_exception_ptr(7), std::noop_coroutine())); } catch (...) { thrown = true; } kse_assert(!thrown && finished[1] == 1, "a task that returns delivers no exception"); }
  { auto p = SyncWait(own(std::make_unique<uint32_t>(v))); kse_assert(p && *p == v, "the value is the task's own"); }
  kse_assert(live == 0, "everything is destroyed once"); kse_assert(kse_heap_since(seq) == 0, "every coroutine frame is freed exactly once"); kse_reach("parameters"); }
void harness() { switch (kse_param("mode", 0)) { case 0: chain<Value>(); break; case 1: chain<void>(); break; case 2: ownership(); break; case 3: detached(); break; case 4: parameters(); break; } }
