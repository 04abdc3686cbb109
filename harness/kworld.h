// A worker running in its own fiber over the modelled kernel.
#pragma once
#include "kse.h"
#include "../model/kuring.h"
#include <memory>
#include <optional>
#include <stdexcept>
#include <functional>
#include <kio/core/worker.h>
using namespace kio; using namespace kio::io;
static Worker* W; static int nDone, users;
__attribute__((no_sanitize("thread"))) static bool allDone(void*) { return nDone == users; }
static void wthread(void*) { W->loop_forever(); }
static WorkerConfig smallConfig() { WorkerConfig c; c.uring_queue_depth = 8; c.default_op_slots = 8; c.max_op_slots = 64; c.task_queue_capacity = 4; return c; }
// runs `start` on a worker, waits until `users` coroutines have finished, then `check`, then stops everything
template <class F, class G> static void runWorker(const WorkerConfig& c, F start, G check) {
  uint64_t seq = kse_alloc_seq(); uint64_t seq2 = 0;
  { Worker w(3, c, std::function<void(Worker&)>(start)); W = &w; int t = ks_spawn(wthread, nullptr, "worker"); w.wait_ready(); ks_wait(allDone, nullptr, "all operations"); kse_assert(kur_inflight() == 0, "nothing is left in flight"); check(w); (void)w.request_stop(); w.wait_shutdown(); ks_join(t); }
  (void)seq2; kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "the ring is torn down"); kse_reach("end"); }
