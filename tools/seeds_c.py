from seedlib import seed
import os
T=os.path.dirname(os.path.abspath(__file__))
FILES={"fake_ring.h":open(T+"/fake_ring.h").read(),"liburing.h":open(T+"/fake_liburing.h").read()}
W='kio/core/worker.cpp'
H='''#include "fake_ring.h"
#include <cassert>
#include <thread>
#include <string>
#include <kio/core/worker.h>
#include <kio/core/async_logger.h>
using namespace kio; using namespace kio::io;
static int bad; static void check(bool c, const char* m) { if (!c) { printf("WRONG: %s\\n", m); bad = 1; } }
static WorkerConfig cfg() { WorkerConfig c; c.uring_queue_depth = 16; c.default_op_slots = 8; return c; }
static void run(const WorkerConfig& c, std::function<void(Worker&)> start, std::function<bool()> done) { kio::alog::configure(64, kio::LogLevel::Disabled); Worker w(0, c, start); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); for (int i = 0; i < 3000 && !done(); i++) usleep(1000); check(done(), "everything finished"); (void)w.request_stop(); w.wait_shutdown(); t.join(); }
'''
def s(id,prop,edits,demo,needs,breaks,**kw): seed(id,prop,edits,H+demo,[W],needs,breaks,files=FILES,flags="-D__GCC_DESTRUCTIVE_SIZE=64 -D__GCC_CONSTRUCTIVE_SIZE=64",**kw)
s("worker-slot-dup","C10",[(W,"        for (size_t i = cur_size; i < new_size; ++i)\n        {\n            free_op_ids.push_back(i);\n        }","        // refill from the top so that the most recently used slots stay warm\n        for (size_t i = new_size; i-- > cur_size - 1;)\n        {\n            free_op_ids.push_back(i);\n        }")],
'''
static std::atomic<int> n; static DetachedTask user(Worker& w, int i) { static char b[8]; auto r = co_await w.async_read(100 + i, std::span<char>(b, 8)); check(r && *r == 500 + i, "each reader gets its own result"); n++; }
int main() { fk_act = [](const io_uring_sqe& s) { return s.fd + 400; }; WorkerConfig c = cfg(); c.default_op_slots = 2; c.op_slots_growth_factor = 2.0f; run(c, [](Worker& w) { for (int i = 0; i < 4; i++) user(w, i).detach(); }, [] { return n >= 4; }); return bad; }
''',"more concurrent operations than the initial number of slots, so the pool grows while its last slot is in flight","the grown pool hands out a slot that is still in flight: two operations share it")
s("worker-batch-stop","C29",[(W,"        io_uring_cq_advance(&ring_, count);\n    }","        io_uring_cq_advance(&ring_, count);\n    }"),(W,"                if (!stop_token_.stop_requested())\n                {\n                    submit_wakeup_read();\n                }","                if (!stop_token_.stop_requested() && free_op_ids.size() < op_data_pool_.size())\n                {\n                    submit_wakeup_read();\n                }\n                else if (!stop_token_.stop_requested())\n                {\n                    // nothing in flight: arm and submit right away\n                    submit_wakeup_read();\n                    io_uring_submit(&ring_);\n                    io_uring_cq_advance(&ring_, 1);\n                }")],
'''
static std::atomic<int> n; static Worker* W; static DetachedTask hop(Worker& w) { co_await SwitchToWorker(w); n++; } static DetachedTask user(Worker& w) { co_await SwitchToWorker(w); static char b[8]; for (int i = 0; i < 3; i++) { auto r = co_await w.async_read(100 + i, std::span<char>(b, 8)); check(r && *r == 500 + i, "each reader gets its own result"); } n++; }
int main() { fk_act = [](const io_uring_sqe& s) { return s.fd + 400; }; run(cfg(), [](Worker& w) { W = &w; }, [] { static bool once = (usleep(50000), hop(*W).detach(), usleep(50000), user(*W).detach(), true); return once && n == 2; }); return bad; }
''',"a wake-up completion arriving while no operation is in flight, then further completions","the completion queue is advanced twice for one entry and a later completion is lost")
s("worker-read-len","C10",[(W,"        auto prep = [](io_uring_sqe *sqe, const int fd, const iovec *iov_, const int iovcnt_, const uint64_t off) { io_uring_prep_readv(sqe, fd, iov_, iovcnt_, off); };","        auto prep = [](io_uring_sqe *sqe, const int fd, const iovec *iov_, const int iovcnt_, const int64_t off) { io_uring_prep_readv(sqe, fd, iov_, iovcnt_, static_cast<uint64_t>(std::min<int64_t>(off, INT32_MAX))); };")],
'''
#include <sys/uio.h>
static std::atomic<int> n; static uint64_t seen; static DetachedTask user(Worker& w) { static char b[8]; static iovec v{b, 8}; auto r = co_await w.async_readv(100, &v, 1, 5ull << 30); check(r && *r == 8, "read"); n++; }
int main() { fk_act = [](const io_uring_sqe& s) { seen = s.off; return 8; }; run(cfg(), [](Worker& w) { user(w).detach(); }, [] { return n >= 1; }); check(seen == 5ull << 30, "the vector is read at the requested offset"); return bad; }
''',"a vectored read at an offset beyond 2 GiB","the read is done at another offset")
s("exact-third-piece","C11",[(W,"            std::span<const char> remaining_buf = buf.subspan(total_bytes_written);\n\n            const int bytes_written = KIO_TRY(co_await this->async_write(client_fd, remaining_buf));\n","            const int bytes_written = KIO_TRY(co_await this->async_write(client_fd, buf));\n"),(W,"        size_t total_bytes_written = 0;\n        const size_t total_to_write = buf.size();\n\n        while (total_bytes_written < total_to_write)\n        {\n            std::span<const char> remaining_buf = buf.subspan(total_bytes_written);\n\n            const int bytes_written","        size_t total_bytes_written = 0;\n        const size_t total_to_write = buf.size();\n\n        while (total_bytes_written < total_to_write)\n        {\n            const int bytes_written") if False else (W,"                co_return std::unexpected(Error{ErrorCategory::File, kIoEof});\n            }\n\n            total_bytes_written += static_cast<size_t>(bytes_written);\n        }\n\n        co_return {};\n    }\n\n    Task<Result<void>> Worker::async_write_exact_at","                co_return std::unexpected(Error{ErrorCategory::File, kIoEof});\n            }\n\n            total_bytes_written += static_cast<size_t>(bytes_written);\n            buf = buf.subspan(total_bytes_written < total_to_write ? std::min(total_bytes_written, buf.size()) : buf.size());\n        }\n\n        co_return {};\n    }\n\n    Task<Result<void>> Worker::async_write_exact_at")],
'''
static std::atomic<int> n; static std::string out; static DetachedTask user(Worker& w) { static const char d[] = "abcdefgh"; auto r = co_await w.async_write_exact(100, std::span<const char>(d, 8)); check(!r || out == "abcdefgh", "all bytes are written in order"); check((bool)r, "the write succeeds"); n++; }
int main() { static int k; fk_act = [](const io_uring_sqe& s) { if (!s.len) return 0; int m = k++ < 2 ? 2 : (int)s.len; out.append((char*)s.addr, (size_t)m); return m; }; run(cfg(), [](Worker& w) { user(w).detach(); }, [] { return n >= 1; }); return bad; }
''',"two or more consecutive short writes (three pieces)","after the second short write the data is taken from the wrong place")
s("sendfile-short-fill","C11",[(W,"        current_offset += res_in;\n","        current_offset += static_cast<off_t>(to_splice);\n")],
'''
static std::atomic<int> n; static long next = 100, inpipe, sent; static DetachedTask user(Worker& w) { auto r = co_await w.async_sendfile(501, 500, 100, 1000); check((bool)r, "sent"); n++; }
int main() { static int k; fk_act = [](const io_uring_sqe& s) { if (s.splice_fd_in == 500) { check((long)s.splice_off_in == next, "the file is read at consecutive offsets"); int m = k++ == 0 ? 300 : (int)s.len; next += m; inpipe = m; return m; } int m = (int)inpipe; sent += m; inpipe = 0; return m; }; run(cfg(), [](Worker& w) { user(w).detach(); }, [] { return n >= 1; }); check(sent == 1000, "every byte is sent"); return bad; }
''',"a short splice from the file","bytes of the file are skipped")
s("sendfile-drain-cut","C11",[(W,"            if (res_out == 0) co_return std::unexpected(Error{ErrorCategory::Network, EPIPE});","            if (res_out == 0) break;  // the peer takes no more")],
'''
static std::atomic<int> n; static long sent; static DetachedTask user(Worker& w) { auto r = co_await w.async_sendfile(501, 500, 0, 1000); check(!r || sent == 1000, "success means everything was sent"); n++; }
int main() { static int k; static long inpipe; fk_act = [](const io_uring_sqe& s) { if (s.splice_fd_in == 500) { inpipe = s.len; return (int)s.len; } int m = k == 0 ? 400 : 0; k++; sent += m; inpipe -= m; return m; }; run(cfg(), [](Worker& w) { user(w).detach(); }, [] { return n >= 1; }); return bad; }
''',"the destination accepts no more bytes in the middle of a chunk","the transfer is reported as complete although bytes were lost")
s("stats-readv-error","C28",[(W,"        auto prep = [](io_uring_sqe *sqe, const int fd, const iovec *iov_, const int iovcnt_, const uint64_t off) { io_uring_prep_writev(sqe, fd, iov_, iovcnt_, off); };\n        int ret = co_await make_uring_awaitable(*this, prep, client_fd, iov, iovcnt, offset);\n","        auto prep = [](io_uring_sqe *sqe, const int fd, const iovec *iov_, const int iovcnt_, const uint64_t off) { io_uring_prep_writev(sqe, fd, iov_, iovcnt_, off); };\n        int ret = co_await make_uring_awaitable(*this, prep, client_fd, iov, iovcnt, offset);\n        stats_.write_ops_total += ret != 0;\n        if (ret > 0) stats_.write_ops_total--;\n")],
'''
#include <sys/uio.h>
static std::atomic<int> n; static WorkerStats got; static DetachedTask user(Worker& w) { static char b[8]; static iovec v{b, 8}; auto r = co_await w.async_writev(100, &v, 1, 0); check(!r, "fails"); got = w.get_stats(); n++; }
int main() { fk_act = [](const io_uring_sqe& s) { return -EIO; }; run(cfg(), [](Worker& w) { user(w).detach(); }, [] { return n >= 1; }); check(got.write_ops_total == 0 && got.bytes_written_total == 0, "a failed write is not counted as a write"); return bad; }
''',"a vectored write that fails","the failed operation is counted as a completed write")
s("stats-sendfile-over","C28",[(W,"        stats_.bytes_written_total += res_in;","        stats_.bytes_written_total += to_splice;")],
'''
static std::atomic<int> n; static WorkerStats got; static DetachedTask user(Worker& w) { auto r = co_await w.async_sendfile(501, 500, 0, 1000); check((bool)r, "sent"); got = w.get_stats(); n++; }
int main() { static int k; static long inpipe; fk_act = [](const io_uring_sqe& s) { if (s.splice_fd_in == 500) { int m = k++ == 0 ? 300 : (int)s.len; inpipe = m; return m; } int m = (int)inpipe; inpipe = 0; return m; }; run(cfg(), [](Worker& w) { user(w).detach(); }, [] { return n >= 1; }); check(got.bytes_written_total == 1000, "the bytes sent are counted"); return bad; }
''',"a short splice while sending a file","more bytes are counted as written than were moved")
