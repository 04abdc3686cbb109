from seedlib import seed
H='#include <cstdio>\n#include <cstring>\n#include <string>\n#include <memory>\n#include <cstdint>\n#include <thread>\n'
Q='kio/sync/mpsc_queue.h'
seed("queue-relaxed-recycle","C05",[(Q,"cell->sequence.store(pos + mask_ + 1, std::memory_order_release);","cell->sequence.store(pos + mask_ + 1, std::memory_order_relaxed);")],
H+'''#include <kio/sync/mpsc_queue.h>
int main() { kio::MPSCQueue<std::unique_ptr<int>> q(2); std::thread t([&] { for (int i = 0; i < 3000; i++) while (!q.try_push(std::make_unique<int>(i))) std::this_thread::yield(); }); for (int i = 0; i < 3000;) { std::unique_ptr<int> p; if (q.try_pop(p)) { if (*p != i) return 1; i++; } else std::this_thread::yield(); } t.join(); }
''',[],"a producer reusing a slot the consumer just released (ring wrap), weak memory ordering","the producer may overwrite the slot before the consumer has moved the item out: data race",san="-fsanitize=thread")
seed("queue-early-release","C05",[(Q,"            // Destroy the in-place object now that we've moved it out\n            cell->destroy_in_place();\n\n            // Mark the slot as available for producers again:\n            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);","            // Mark the slot as available for producers again:\n            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);\n\n            // Destroy the in-place object now that we've moved it out\n            cell->destroy_in_place();")],
H+'''#include <kio/sync/mpsc_queue.h>
int main() { kio::MPSCQueue<std::unique_ptr<int>> q(2); std::thread t([&] { for (int i = 0; i < 3000; i++) while (!q.try_push(std::make_unique<int>(i))) std::this_thread::yield(); }); for (int i = 0; i < 3000;) { std::unique_ptr<int> p; if (q.try_pop(p)) { if (!p || *p != i) return 1; i++; } else std::this_thread::yield(); } t.join(); }
''',[],"a producer claiming the slot between its release and the destruction of the old item","the consumer destroys the item a producer has just stored",san="-fsanitize=thread")
seed("queue-drain-wrap","C05",[(Q,"for (size_t i = head; i < tail; ++i)","for (size_t i = head; i < tail && (i & mask_) >= (head & mask_); ++i)")],
H+'''#include <kio/sync/mpsc_queue.h>
static int live; struct N { explicit N(int) { live++; } N(N&&) { live++; } N& operator=(N&&) { return *this; } ~N() { live--; } };
int main() { { kio::MPSCQueue<N> q(4); N o(0); for (int i = 0; i < 4; i++) q.try_push(N(i)); for (int i = 0; i < 3; i++) q.try_pop(o); for (int i = 0; i < 3; i++) q.try_push(N(i)); } if (live) { printf("%d items leaked\\n", live); return 1; } }
''',[],"a queue of a type without default constructor destroyed while its items wrap around the ring","items left in the queue are not all destroyed")
