// C28: the exported worker metrics are the counts of the operations done.
#include "kworld.h"
#include <kio/core/metrics_collector.h>
#include <cstring>
static int release_, hang; static uint64_t rd, wr; static bool idle; static double want[10];
static const char* NAMES[] = {"kio_worker_bytes_read_total", "kio_worker_bytes_written_total", "kio_worker_read_ops_total", "kio_worker_write_ops_total", "kio_worker_connections_accepted_total", "kio_worker_connect_ops_total", "kio_worker_open_ops_total", "kio_worker_coroutine_pool_resizes_total", "kio_worker_active_coroutines", "kio_worker_io_errors_total"};
extern "C" bool kur_ready(const io_uring_sqe* s) { return s->fd != 99 || release_; }
extern "C" int kur_result(const io_uring_sqe* s) {
  if (s->fd == 98) return -(int)kse_range(2200, 4095, "errno"); if (s->fd == 99) return 0; int n = (int)s->len;
  switch (s->opcode) { case IORING_OP_READ: { int r = (int)kse_range(1, n, "read"); rd += r; return r; } case IORING_OP_WRITE: { int r = (int)kse_range(1, n, "written"); wr += r; return r; } case IORING_OP_ACCEPT: case IORING_OP_OPENAT: return 50; default: return 0; } }
static DetachedTask hanging(Worker& w) { static char b[4]; (void)co_await w.async_poll(99, 1); nDone++; }
static DetachedTask user(Worker& w) {
  static char b[4]; std::span<char> big((char*)b, (size_t)0x7fff0000); std::span<const char> cbig((const char*)b, (size_t)0x7fff0000); sockaddr_storage ss{}; socklen_t sl = sizeof ss;
  for (int i = 0; i < 3; i++) kse_assert((co_await w.async_read(5, big)).has_value(), "read"); for (int i = 0; i < 2; i++) kse_assert((co_await w.async_write(5, cbig)).has_value(), "write");
  for (int i = 0; i < 4; i++) (void)co_await w.async_accept(5, (sockaddr*)&ss, &sl); for (int i = 0; i < 5; i++) (void)co_await w.async_connect(5, (sockaddr*)&ss, sl);
  for (int i = 0; i < 6; i++) (void)co_await w.async_openat(std::filesystem::path("/x"), 0, 0); for (int i = 0; i < 7; i++) (void)co_await w.async_poll(98, 1);
  nDone++; }
static bool userDone(void*) { return nDone == 1; }
static void judge(const MetricSnapshot& s, uint64_t id, int times) {
  char ids[8]; int k = 0; if (id >= 10) ids[k++] = '0' + id / 10; ids[k++] = '0' + id % 10; ids[k] = 0; int seen = 0;
  for (auto& f : s.GetFamilies()) { int i = 0; while (i < 10 && f.name != NAMES[i]) i++; kse_assert(i < 10, "an exported family is one of the documented ones"); seen |= 1 << i; kse_assert(f.type == (i == 8 ? MetricType::Gauge : MetricType::Counter), "totals are counters, the current load is a gauge");
    kse_assert((int)f.samples.size() == times, "one sample per worker"); auto& x = f.samples[times - 1]; kse_assert(x.labels.size() == 1 && x.labels.count("worker_id") == 1 && x.labels.at("worker_id") == ids, "the sample names its worker"); uint64_t a, b; memcpy(&a, &x.value, 8); memcpy(&b, &want[i], 8); kse_assert(a == b, "the exported value is the worker's count"); }
  kse_assert(seen == 1023, "every count is exported"); }
void harness() {
  hang = (int)kse_choose(0, 3, "hanging"); ks_config((int)kse_param("pre", 0), 0, 0, 0); kur = {0, 4}; users = 1 + hang; uint64_t seq = kse_alloc_seq(); int id = (int)kse_param("id", 3);
  { WorkerConfig c = smallConfig(); c.default_op_slots = 1; c.max_op_slots = 8; Worker w(id, c, [](Worker& w) { for (int i = 0; i < hang; i++) hanging(w).detach(); user(w).detach(); }); W = &w; int t = ks_spawn(wthread, nullptr, "worker"); w.wait_ready(); ks_wait(userDone, nullptr, "the operations");
    MetricSnapshot s; io::WorkerMetricsCollector col(w);
    want[0] = (double)rd; want[1] = (double)wr; want[2] = 3; want[3] = 2; want[4] = 4; want[5] = 5; want[6] = 6; want[8] = hang; want[9] = 7; want[7] = 0;
    want[7] = (double)w.get_stats().coroutines_pool_resize_total; kse_assert(hang == 0 || want[7] > 0, "the slot pool grew when it had to"); col.Collect(s);
    judge(s, id, 1); MetricSnapshot s2; col.Collect(s2); judge(s2, id, 1); kse_reach("exported"); release_ = 1; ks_wait(allDone, nullptr, "everything"); (void)w.request_stop(); w.wait_shutdown(); ks_join(t); }
  kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "the ring is torn down"); kse_reach("end"); }
