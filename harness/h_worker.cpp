// C10: every completion resumes the coroutine that issued the operation.
#include "kse.h"
#include "../model/kuring.h"
#include <memory>
#include <optional>
#include <stdexcept>
#include <sys/uio.h>
#include <sys/socket.h>
#include <kio/core/worker.h>
using namespace kio; using namespace kio::io;
enum { U = 4, M = 4 };
static int users, rounds, nDone, mode;
struct OpRec { int kind; bool submitted, completed; int res; };
static OpRec rec[U][M];
static int fdOf(int i, int m) { return 1000 + i * 16 + m; }
static OpRec& recOf(int fd) { kse_assert(fd >= 1000 && fd < 1000 + 16 * U && (fd & 15) < M + 1000 % 16 + 16, "the kernel sees a descriptor the caller gave"); int k = fd - 1000; kse_assert((k & 15) < M, "the kernel sees a descriptor the caller gave"); return rec[k >> 4][k & 15]; }
extern "C" void kur_submitted(const io_uring_sqe* s) { OpRec& r = recOf(s->fd); kse_assert(!r.submitted, "an operation is submitted once"); r.submitted = true; }
extern "C" int kur_result(const io_uring_sqe* s) { OpRec& r = recOf(s->fd); kse_assert(r.submitted && !r.completed, "an operation completes once"); r.completed = true; static int errs = (int)kse_param("errs", 1);
  if (kse_param("anyres", 0)) r.res = (int)kse_u32("res"); else if (errs > 0 && kse_choose(0, 1, "fails")) { errs--; r.res = -(int)kse_range(2200, 4095, "errno"); } else r.res = (int)kse_range(0, 0x7fffffff, "res"); return r.res; }
template <class T> static void judge(const OpRec& r, const Result<T>& v, bool& dead) {
  if (!r.submitted) { kse_assert(!v.has_value(), "an operation that was never submitted does not succeed"); kse_reach("refused"); dead = true; return; }
  kse_assert(r.completed, "a coroutine continues only after its operation completed");
  if (r.res >= 0) { kse_assert(v.has_value(), "a successful completion is reported as success"); if constexpr (!std::is_void_v<T>) kse_assert((int64_t)*v == r.res, "a coroutine receives the result of its own operation"); kse_reach("success"); }
  else { kse_assert(!v.has_value() && (uint32_t)v.error().value == 0u - (uint32_t)r.res, "a failed completion is reported with its own error"); kse_reach("error"); } }
static char buf[8];
static Task<void> one(Worker& w, int i, int m) { OpRec& r = rec[i][m]; bool dead = false; int fd = fdOf(i, m);
  try { switch (r.kind) { case 0: judge(r, co_await w.async_poll(fd, 1), dead); break; case 1: judge(r, co_await w.async_read(fd, std::span<char>(buf, 4)), dead); break; default: judge(r, co_await w.async_fsync(fd), dead); break; } }
  catch (const std::exception&) { kse_assert(!r.submitted, "an operation that cannot start is not submitted"); kse_reach("exhausted"); } }
static DetachedTask user(Worker& w, int i) { for (int m = 0; m < rounds; m++) co_await one(w, i, m); nDone++; }
static Worker* W; static uint64_t activeAtEnd;
static bool allDone(void*) { return nDone == users; }
static void thread(void*) { W->loop_forever(); }
static void ops() {
  users = (int)kse_param("users", 3); rounds = (int)kse_param("rounds", 2); kur = {(int)kse_param("any", 1), (int)kse_param("batch", 3)}; ks_config((int)kse_param("pre", 0), 0, 0, 0);
  WorkerConfig c; c.uring_queue_depth = kse_param("depth", 8); c.default_op_slots = kse_param("slots", 8); c.max_op_slots = kse_param("maxslots", 64); c.task_queue_capacity = 4; if (kse_param("g2", 0)) c.op_slots_growth_factor = 2.0f;
  int kinds = (int)kse_param("kinds", 1); for (int i = 0; i < users; i++) for (int m = 0; m < rounds; m++) rec[i][m].kind = (i + m) % kinds;
  uint64_t seq = kse_alloc_seq();
  { Worker w(0, c, [](Worker& w) { for (int i = 0; i < users; i++) user(w, i).detach(); }); W = &w; int t = ks_spawn(thread, nullptr, "worker"); w.wait_ready(); ks_wait(allDone, nullptr, "all operations"); kse_assert(kur_inflight() == 0, "nothing is left in flight"); kse_assert(w.get_stats().active_coroutines == 0, "every operation slot is free again"); (void)w.request_stop(); w.wait_shutdown(); ks_join(t);
    for (int i = 0; i < users; i++) for (int m = 0; m < rounds; m++) kse_assert(rec[i][m].submitted == rec[i][m].completed, "every submitted operation completed"); }
  kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "the ring is torn down"); kse_reach("end"); }
void harness() { ops(); }
