from seedlib import seed
import os
T=os.path.dirname(os.path.abspath(__file__))
FILES={"fake_ring.h":open(T+"/fake_ring.h").read(),"liburing.h":open(T+"/fake_liburing.h").read()}
W='kio/core/worker.cpp'; WH='kio/core/worker.h'
from seeds_c import H
def s(id,prop,edits,demo,needs,breaks,srcs=(W,),**kw): seed(id,prop,edits,H+demo,list(srcs),needs,breaks,files=FILES,flags="-D__GCC_DESTRUCTIVE_SIZE=64 -D__GCC_CONSTRUCTIVE_SIZE=64",**kw)
s("post-skip-wake","C29",[(W,"        // Signal the worker to wake up\n        constexpr uint64_t val = 1;","        // The worker looks at its queue again by itself as long as it has operations in flight\n        if (free_op_ids.size() != op_data_pool_.size()) return;\n\n        // Signal the worker to wake up\n        constexpr uint64_t val = 1;")],
'''
static std::atomic<int> n; static Worker* W; static DetachedTask busy(Worker& w) { static char b[8]; (void)co_await w.async_read(100, std::span<char>(b, 8)); for (;;) (void)co_await w.async_read(100, std::span<char>(b, 8)); }
static DetachedTask hop(Worker& w) { co_await SwitchToWorker(w); n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe& s) { return 8; }; fk_taken = [](const io_uring_sqe& s) { static bool once; if (!once) { once = true; } };
  static bool hold = true; static std::vector<io_uring_sqe> held; fk_taken = [](const io_uring_sqe&) { if (hold) { held.push_back(fk_fl.back()); fk_fl.pop_back(); } };  // the read never completes
  Worker w(0, cfg(), [](Worker& w) { W = &w; busy(w).detach(); }); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); usleep(100000); hop(w).detach(); for (int i = 0; i < 1000 && !n; i++) usleep(1000); check(n == 1, "a coroutine handed over runs although an unrelated operation is pending"); fflush(stdout); _exit(bad); }
''',"a coroutine handed over while the worker sleeps with an operation in flight that does not complete","the worker is not woken: the coroutine is left in the queue")
s("drain-bounded","C29",[(W,"                while (task_queue_.try_pop(h))\n                {\n                    h.resume();\n                }","                // bounded, so that a busy queue cannot starve I/O completions\n                for (size_t budget = config_.uring_submit_batch_size; budget > 0 && task_queue_.try_pop(h); --budget)\n                {\n                    h.resume();\n                }")],
'''
static std::atomic<int> n; static DetachedTask hop(Worker& w) { co_await SwitchToWorker(w); n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe& s) { return 8; }; Worker w(0, cfg()); for (int i = 0; i < 500; i++) hop(w).detach(); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); for (int i = 0; i < 500 && n < 500; i++) usleep(1000); check(n == 500, "every coroutine handed over runs"); fflush(stdout); _exit(bad); }
''',"a burst of more than 128 coroutines handed over before the worker wakes","the rest of the burst waits for an unrelated wake-up")
s("stop-wake-order","C26",[(W,"        const auto stop = stop_source_.request_stop();\n        // submit a wakeup write to wake up the io uring ring\n        wakeup_write();\n        return stop;","        // submit a wakeup write to wake up the io uring ring\n        wakeup_write();\n        return stop_source_.request_stop();")],
'''
#include <dlfcn.h>
static std::atomic<bool> slow;
extern "C" ssize_t write(int fd, const void* p, size_t n) { static auto real = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); ssize_t r = real(fd, p, n); if (slow) usleep(200000); return r; }  // the stopping thread is descheduled right after waking the worker
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe& s) { return 8; }; Worker w(0, cfg()); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); usleep(50000); slow = true; (void)w.request_stop(); slow = false; std::atomic<bool> down{false}; std::thread t2([&] { w.wait_shutdown(); down = true; }); for (int i = 0; i < 2000 && !down; i++) usleep(1000); check(down, "the worker shuts down after a stop request without further events"); fflush(stdout); _exit(bad); }
''',"the worker wakes up and goes back to sleep between the wake-up and the stop flag","the stop request is missed and the shutdown never completes",libs="-ldl")
s("stop-token-late","C26",[(W,"                if (!stop_token_.stop_requested())\n                {\n                    submit_wakeup_read();\n                }","                if (!stop_token_.stop_requested() && free_op_ids.size() == op_data_pool_.size())\n                {\n                    submit_wakeup_read();\n                }\n                else if (!stop_token_.stop_requested())\n                {\n                    ALOG_TRACE(\"Worker {}: completions pending, wakeup read armed later\", id_);\n                }")],
'''
static std::atomic<int> n; static DetachedTask busy(Worker& w) { static char b[8]; (void)co_await w.async_read(100, std::span<char>(b, 8)); } static DetachedTask hop(Worker& w) { co_await SwitchToWorker(w); n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); static std::vector<io_uring_sqe> held; fk_taken = [](const io_uring_sqe&) { held.push_back(fk_fl.back()); fk_fl.pop_back(); };
  Worker w(0, cfg(), [](Worker& w) { busy(w).detach(); }); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); usleep(50000); hop(w).detach(); usleep(100000); (void)w.request_stop(); std::atomic<bool> down{false}; std::thread t2([&] { w.wait_shutdown(); down = true; }); for (int i = 0; i < 2000 && !down; i++) usleep(1000); check(down, "the worker shuts down after a stop request although an operation is pending"); fflush(stdout); _exit(bad); }
''',"a wake-up while an operation that does not complete is in flight, then a stop request","the wake-up read is not re-armed and the worker never notices the stop")
s("pool-stop-missed","C26",[('kio/core/worker_pool.cpp',"        // TODO: do we need to do that ?\n        worker_threads_.clear();","        // the threads have announced their shutdown\n        for (auto &t: worker_threads_) t.detach();\n        worker_threads_.clear();")],
'''
#include <kio/core/worker_pool.h>
static thread_local struct Slow { ~Slow() { usleep(300000); finished = 1; } bool on = false; static std::atomic<int> finished; } slow; std::atomic<int> Slow::finished;
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe& s) { return 8; }; { IOPool p(1, cfg(), [](Worker&) { slow.on = true; }); usleep(50000); p.stop(); } check(Slow::finished == 1, "no thread of a pool outlives it"); fflush(stdout); _exit(bad); }
''',"a pool destroyed while a worker thread is still running its last instructions","the thread outlives the pool and its workers",srcs=(W,'kio/core/worker_pool.cpp'))
