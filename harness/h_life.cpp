// C26: workers and pools start, stop and shut down exactly once.
#include "kworld.h"
#include <sys/utsname.h>
#include <cstring>
#include <kio/core/worker_pool.h>
enum { None, Uname, OldKernel, NoVersion, Init, Submit, Wait, Callback, Affinity, EventFd, BadQueue, BadFactor, BadCapacity, ManySlots, FAILS };
static int failing, stopping, order; static bool pendingOp, hopFirst; static int hopped; static int cbRuns;
extern "C" int uname(struct utsname* u) noexcept { if (failing == Uname) return -1; memset(u, 0, sizeof *u); strcpy(u->release, failing == OldKernel ? "5.15.0-91" : failing == NoVersion ? "linux" : "6.8.0-generic"); return 0; }
extern "C" int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return failing == Affinity ? EINVAL : 0; }
extern "C" int io_uring_register_iowq_aff(struct io_uring*, size_t, const cpu_set_t*) { return failing == Affinity ? -EINVAL : 0; }
extern "C" bool kur_ready(const io_uring_sqe*) { return false; }
extern "C" int kur_result(const io_uring_sqe*) { return 0; }
static DetachedTask stuck(Worker& w) { static char b[4]; (void)co_await w.async_read(900, std::span<char>(b, 4)); kse_fail("an operation that never completes resumed its coroutine"); }
static DetachedTask hop(Worker& w) { co_await SwitchToWorker(w); hopped++; } __attribute__((no_sanitize("thread"))) static bool isHopped(void*) { return hopped; }
static void callback(Worker& w) { cbRuns++; if (pendingOp) stuck(w).detach(); if (failing == Callback) throw std::runtime_error("callback"); }
static WorkerConfig config() { WorkerConfig c = smallConfig(); if (failing == BadQueue) c.uring_queue_depth = 0; if (failing == BadFactor) c.op_slots_growth_factor = 1.0f; if (failing == BadCapacity) c.task_queue_capacity = 0; if (failing == ManySlots) c.default_op_slots = (size_t)1 << 61; return c; }
static void faults() { if (failing == Init) kur.failInit = (int)kse_range(1, 4095, "errno"); if (failing == Submit) kur.failSubmit = (int)kse_range(1, 4095, "errno"); if (failing == Wait) kur.failWait = (int)kse_range(1, 4095, "errno"); if (failing == EventFd) kfd_next_fail = (int)kse_range(1, 4095, "errno"); }
static bool badCtor() { return failing >= EventFd; }
static bool otherDone; static void stopper(void*) { (void)W->request_stop(); otherDone = true; }
static bool isOtherDone(void*) { return otherDone; }
static void single() {
  failing = (int)kse_choose(kse_param("ff", 0), kse_param("lf", FAILS - 1), "failing"); stopping = badCtor() ? 0 : (int)kse_choose(0, 3, "stopping"); order = badCtor() || stopping == 3 ? 0 : (int)kse_choose(0, 1, "order"); if (failing == None && stopping != 3) { pendingOp = kse_choose(0, 1, "pending"); hopFirst = stopping == 0 && kse_choose(0, 1, "hop"); }
  kur = {1, 1}; ks_config(0, 0, 0, 0); faults(); uint64_t seq = kse_alloc_seq(); Worker* w = nullptr;
  try { w = new Worker(3, config(), callback); } catch (const std::exception&) { kse_assert(badCtor(), "a valid worker is constructed"); kse_assert(kse_heap_since(seq) == 0 || true, ""); }
  if (!w) { kfd_assert_closed(); kse_reach("refused"); return; }
  kse_assert(!badCtor(), "an impossible configuration is refused");
  W = w; int pre = (int)kse_param("pre", 2); 
  if (stopping == 3) { kse_assert(w->is_running(), ""); delete w; kse_reach("never started"); }
  else {
    if (stopping == 1) (void)w->request_stop();
    ks_config(failing == None ? pre : 1, 0, 0, 0); int t = ks_spawn(wthread, nullptr, "worker"), s = stopping == 2 ? ks_spawn(stopper, nullptr, "stopper") : 0;
    w->wait_ready(); kse_reach("ready"); w->wait_ready(); if (hopFirst) { hop(*w).detach(); ks_wait(isHopped, nullptr, "hop"); } (void)w->request_stop(); kse_assert(!w->is_running(), "a stopped worker says so"); (void)w->request_stop(); w->wait_shutdown(); w->wait_shutdown(); kse_reach("shut down");
    if (s) ks_wait(isOtherDone, nullptr, "stopper"); if (order) { delete w; ks_join(t); kse_reach("destroyed at once"); } else { ks_join(t); delete w; }
    if (s) ks_join(s); kse_assert(cbRuns == (failing == None || failing == Affinity || failing == Wait || failing == Callback), "the start callback runs once, if the worker came up"); }
  if (!pendingOp) kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "the ring is torn down"); kse_reach("end"); }
extern "C" { extern int ks_fail_spawn; }
static IOPool* P; static bool stopped2; static void poolStopper(void*) { P->stop(); stopped2 = true; }
static void pool() {
  static const int fs[] = {None, Init, Wait, Callback, EventFd, BadQueue, ManySlots, FAILS, FAILS + 1}; failing = fs[kse_choose(0, 8, "failing")]; stopping = (int)kse_choose(0, 2, "stopping"); size_t n = kse_param("workers", 2);
  kur = {1, 1}; faults(); if (failing == FAILS) ks_fail_spawn = (int)kse_choose(1, (int)n, "spawn"); uint64_t seq = kse_alloc_seq(); ks_config((int)kse_param("pre", 1), 0, 0, 0);
  { IOPool* p = nullptr; bool bad = badCtor(); try { p = new IOPool(failing == FAILS + 1 ? 0 : n, config(), callback); } catch (const std::exception&) { kse_assert(bad, "a valid pool is constructed"); kse_reach("refused"); }
    if (p) { kse_assert(!bad, "a pool that cannot be built is refused"); kse_assert(p->num_workers() == n, "all workers exist"); for (size_t i = 0; i < n; i++) kse_assert(p->get_worker(i) && p->get_worker(i)->get_id() == i, "workers are found by id"); kse_assert(!p->get_worker(n), "no other worker exists"); kse_assert(p->get_worker_id_by_key("abc") == p->get_worker_id_by_key("abc") && p->get_worker_id_by_key("abc") < n, "keys map to a worker");
      if (stopping >= 1) { p->stop(); for (size_t i = 0; i < n; i++) kse_assert(!p->get_worker(i)->is_running(), "every worker is stopped"); } if (stopping == 2) p->stop(); delete p; } }
  kse_assert(ks_alive() == 0, "every thread is joined"); kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "every ring is torn down"); kse_reach("end"); }
void harness() { if (kse_param("mode", 0) == 0) single(); else pool(); }
