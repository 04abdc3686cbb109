from seeds_d import s, W
B='kio/sync/baton.h'; EV='kio/sync/event.h'; A='kio/sync/when_any.h'
s("event-next-late","C08",[(EV,"                // read next with acquire to observe what the waiter published\n                auto* next = curr->next.load(std::memory_order_acquire);\n\n",""),(EV,"                curr = next;\n","                // acquire, to observe what the waiter published\n                curr = curr->next.load(std::memory_order_acquire);\n")],
'''
#include <kio/sync/event.h>
#include <dlfcn.h>
static std::atomic<bool> slow; static std::atomic<int> n;
extern "C" ssize_t write(int fd, const void* p, size_t k) { static auto real = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); ssize_t r = real(fd, p, k); if (slow) usleep(100000); return r; }  // the notifying thread is descheduled right after waking a waiter
static DetachedTask waiter(sync::AsyncEvent& e) { co_await e.wait(); n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe&) { return 8; }; sync::AsyncEvent* e = nullptr; { Worker w(0, cfg(), [&](Worker& w) { e = new sync::AsyncEvent(w); for (int i = 0; i < 3; i++) waiter(*e).detach(); }); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); usleep(20000); slow = true; e->notify(); slow = false; for (int i = 0; i < 1000 && n < 3; i++) usleep(1000); check(n == 3, "every waiter continues"); (void)w.request_stop(); w.wait_shutdown(); t.join(); } fflush(stdout); _exit(bad); }
''',"the waiter just woken finishes before the notifying thread reads its link to the next waiter","the list of waiters is followed through a freed frame",libs="-ldl")
s("event-link-once","C08",[(EV,"                    // link to current head (relaxed is fine; visibility is established by CAS below)\n                    next.store(static_cast<Awaiter*>(old_head), std::memory_order_relaxed);\n\n",""),(EV,"                void* old_head = event.state_.load(std::memory_order_acquire);\n\n                while (true)","                void* old_head = event.state_.load(std::memory_order_acquire);\n\n                // link to current head (relaxed is fine; visibility is established by CAS below)\n                if (old_head != &AsyncEvent::SET_SENTINEL) next.store(static_cast<Awaiter*>(old_head), std::memory_order_relaxed);\n\n                while (true)")],
'''
#include <kio/sync/event.h>
static std::atomic<int> n, go; static DetachedTask waiter(sync::AsyncEvent& e) { co_await e.wait(); n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe&) { return 8; }; auto c = cfg(); c.task_queue_capacity = 4096; Worker w(0, c); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); enum { T = 4, K = 64, R = 300 };
  for (int r = 0; r < R && !bad; r++) { auto* e = new sync::AsyncEvent(w); n = go = 0; std::vector<std::thread> ts; for (int i = 0; i < T; i++) ts.emplace_back([&] { go++; while (go < T) ; for (int k = 0; k < K; k++) waiter(*e).detach(); }); for (auto& x : ts) x.join(); e->notify(); for (int i = 0; i < 2000 && n < T * K; i++) usleep(1000); check(n == T * K, "every waiter continues"); }
  fflush(stdout); _exit(bad); }
''',"two coroutines start waiting at the same moment on different threads","a waiter is linked to an outdated head and the ones in between are never woken",san="-O2")
s("baton-handle-late","C07",[(B,"                    baton_.waiter_.store(h, std::memory_order_relaxed);\n\n                    std::atomic_thread_fence(std::memory_order_release);\n\n",""),(B,"                    {\n                        return true;\n                    }\n\n                    // CAS failed. Since we are","                    {\n                        // only published once we are sure to suspend\n                        baton_.waiter_.store(h, std::memory_order_release);\n                        return true;\n                    }\n\n                    // CAS failed. Since we are")],
'''
#include <kio/sync/baton.h>
static std::atomic<int> n; static std::atomic<sync::AsyncBaton*> B; static DetachedTask waiter(Worker& w, sync::AsyncBaton& b) { co_await SwitchToWorker(w); B = &b; for (volatile int k = 0; k < (n % 97); k++) ; co_await b.wait(); n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe&) { return 8; }; Worker w(0, cfg()); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
  for (int r = 0; r < 300000 && !bad; r++) { auto* b = new sync::AsyncBaton(w); int was = n; B = nullptr; waiter(w, *b).detach(); while (!B) ; for (volatile int k = 0; k < r % 61; k++) ; b->notify(); for (long i = 0; i < 2000000000 && n == was; i++) if (i > 100000) { usleep(1000); if (i > 102000) break; } check(n == was + 1, "a notified waiter continues"); }
  fflush(stdout); _exit(bad); }
''',"a notification between the moment the baton becomes waiting and the next instruction of the waiter","the notifier finds no coroutine to schedule and the signal is lost",san="-O2")
s("baton-stale-fast-path","C07",[(B,"            // Exchange returns the *previous* value.","            // A baton that is already set, or that nobody waits on, needs no full barrier\n            if (uint8_t expected = NOT_SET; waiter_.load(std::memory_order_relaxed) == nullptr && state_.compare_exchange_strong(expected, SET, std::memory_order_relaxed)) return;\n\n            // Exchange returns the *previous* value.")],
'''
#include <kio/sync/baton.h>
// on x86 the missing ordering cannot be seen when running: the thread sanitizer reports it
static std::atomic<int> n; static int payload[64]; static DetachedTask waiter(Worker& w, sync::AsyncBaton& b, int i) { co_await SwitchToWorker(w); usleep(2000); co_await b.wait(); if (payload[i] != i + 1) bad = 1; n++; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe&) { return 8; }; Worker w(0, cfg()); std::thread t([&] { w.loop_forever(); }); w.wait_ready();
  for (int i = 0; i < 30; i++) { auto* b = new sync::AsyncBaton(w); int was = n; waiter(w, *b, i).detach(); payload[i] = i + 1; b->notify(); for (int k = 0; k < 2000 && n == was; k++) usleep(1000); check(n == was + 1, "the waiter continues"); }
  fflush(stdout); _exit(bad); }
''',"a notification before the wait, on a machine (or compiler) that reorders stores","what was written before the notification need not be visible to the waiter",san="-fsanitize=thread")
s("any-last-wins","C09",[(A,"                size_t expected = N;\n                return winner.compare_exchange_strong(expected, index, std::memory_order_acq_rel, std::memory_order_acquire);","                return winner.exchange(index, std::memory_order_acq_rel) == N;")],
'''
#include <kio/sync/when_any.h>
static std::atomic<int> done; static size_t got = 99; static Task<void> rd(Worker& w, int fd) { static char b[8]; (void)co_await w.async_read(fd, std::span<char>(b, 8)); }
static DetachedTask user(Worker& w) { got = co_await sync::when_any(w, rd(w, 100), rd(w, 101)); done = 1; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe&) { return 8; }; fk_batch = 2; Worker w(0, cfg(), [](Worker& w) { user(w).detach(); }); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); for (int i = 0; i < 1000 && !done; i++) usleep(1000); check(done && got == 0, "the first task to finish is reported"); (void)w.request_stop(); w.wait_shutdown(); t.join(); fflush(stdout); _exit(bad); }
''',"a second task finishing after the first one but before the waiter continues","the last task to finish is reported instead of the first")
