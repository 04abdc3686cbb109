// C10, C28: every operation asks the kernel for exactly what the caller asked, reports its result and is counted once.
#include "kworld.h"
#include <sys/uio.h>
#include <sys/socket.h>
#include <fcntl.h>
enum { Accept, Read, ReadAt, Readv, Open, Write, WriteAt, Writev, Connect, Fallocate, Close, Sleep, Fsync, Fdatasync, Unlink, Truncate, Poll, Sendmsg, AcceptPeer, KINDS };
static int kind; static int fd_, i1, i2; static uint64_t u1, u2; static char buf[4]; static iovec iov[2]; static msghdr msg; static sockaddr_storage ss; static net::SocketAddress peer; static net::Socket listener; static socklen_t sl; static bool submitted; static int res; static const char* PATH = "/data/x"; static uint64_t secs, nanos;
static bool rw() { return kind == Read || kind == ReadAt || kind == Write || kind == WriteAt; }
extern "C" void kur_submitted(const io_uring_sqe* s) {
  kse_assert(!submitted, "an operation is submitted once"); submitted = true; const io_uring_sqe& e = *s; kse_assert(e.flags == 0 && e.ioprio == 0, "no special treatment is requested");
  if (kind != Sleep && kind != Open && kind != Unlink) kse_assert(e.fd == fd_, "the operation is on the caller's descriptor");
  auto op = [&](int o) { kse_assert(e.opcode == o, "the requested operation is the one submitted"); };
  switch (kind) {
    case Accept: op(IORING_OP_ACCEPT); kse_assert(e.addr == (uint64_t)&ss && e.off == (uint64_t)&sl && e.accept_flags == 0 && e.len == 0, "accept gets the caller's address"); break;
    case AcceptPeer: op(IORING_OP_ACCEPT); kse_assert(e.addr == (uint64_t)&peer.addr && e.off == (uint64_t)&peer.addrlen && e.accept_flags == 0 && e.len == 0, "accept gets the caller's address"); kse_assert(peer.addrlen == sizeof(peer.addr), "accept has room for any address"); break;
    case Read: case ReadAt: case Write: case WriteAt: op(kind == Read || kind == ReadAt ? IORING_OP_READ : IORING_OP_WRITE); kse_assert(e.addr == u2, "the transfer uses the caller's buffer"); kse_assert(e.len <= u1 && (e.len > 0 || u1 == 0), "never more than the caller's buffer, never nothing"); kse_assert(u1 > 0x7ffff000 || e.len == u1, "the whole buffer is offered"); kse_assert(e.off == (kind == Read || kind == Write ? ~0ull : (uint64_t)secs), "the transfer is at the caller's offset"); kse_assert(e.rw_flags == 0, "no flags"); break;
    case Readv: case Writev: op(kind == Readv ? IORING_OP_READV : IORING_OP_WRITEV); kse_assert(e.addr == (uint64_t)iov && e.len == 2 && e.off == secs && e.rw_flags == 0, "the vector is the caller's"); break;
    case Open: op(IORING_OP_OPENAT); kse_assert(e.fd == AT_FDCWD && e.open_flags == (uint32_t)i1 && e.len == (uint32_t)i2, "the file is opened as requested"); kse_assert(std::string_view((const char*)e.addr) == PATH, "the path is the caller's"); break;
    case Connect: op(IORING_OP_CONNECT); kse_assert(e.addr == (uint64_t)&ss && e.off == (uint32_t)i1, "the connection goes to the caller's address"); break;
    case Fallocate: op(IORING_OP_FALLOCATE); kse_assert(e.off == 0 && e.addr == u1 && e.len == (uint32_t)i1, "the requested space is allocated"); break;
    case Close: op(IORING_OP_CLOSE); kse_assert(e.file_index == 0, "a plain descriptor"); break;
    case Sleep: { op(IORING_OP_TIMEOUT); auto* t = (const __kernel_timespec*)e.addr; kse_assert(e.len == 1 && e.off == 0 && e.timeout_flags == 0, "a relative timer"); kse_assert((uint64_t)t->tv_sec == secs && (uint64_t)t->tv_nsec == nanos, "the timer runs for the requested time"); break; }
    case Fsync: op(IORING_OP_FSYNC); kse_assert(e.fsync_flags == 0 && e.off == 0 && e.len == 0, "data and metadata of the whole file"); break;
    case Fdatasync: op(IORING_OP_FSYNC); kse_assert(e.fsync_flags == IORING_FSYNC_DATASYNC && e.off == 0 && e.len == 0, "data of the whole file"); break;
    case Unlink: op(IORING_OP_UNLINKAT); kse_assert(e.fd == fd_ && e.unlink_flags == (uint32_t)i1, "the name is removed as requested"); kse_assert(std::string_view((const char*)e.addr) == PATH, "the path is the caller's"); break;
    case Truncate: op(55); kse_assert(e.off == u1, "the file is cut to the requested length"); break;
    case Poll: op(IORING_OP_POLL_ADD); kse_assert(e.poll32_events == (uint32_t)i1 && e.len == 0, "the requested events are polled"); break;
    case Sendmsg: op(IORING_OP_SENDMSG); kse_assert(e.addr == (uint64_t)&msg && e.len == 1 && e.msg_flags == (uint32_t)i1, "the message is the caller's"); break; } }
extern "C" int kur_result(const io_uring_sqe* s) {
  switch (kse_choose(0, 2, "outcome")) { case 0: res = -(int)kse_range(1, 4095, "errno"); if (kind == Sleep && kse_choose(0, 1, "expired")) res = -ETIME; else if (kind != Sleep) kse_assume(res != -ETIME); break; case 1: res = 0; break; default: res = (int)kse_range(1, 0x7fffffff, "res"); if (rw()) kse_assume((uint32_t)res <= s->len); } return res; }
template <class T> static void judge(const Result<T>& v) {
  kse_assert(submitted, "the operation reached the kernel");
  if (res >= 0 || (kind == Sleep && res == -ETIME)) { kse_assert(v.has_value(), "success is reported as success"); if constexpr (!std::is_void_v<T>) kse_assert((int64_t)*v == res, "the result is the kernel's"); kse_reach("success"); }
  else { kse_assert(!v.has_value() && (uint32_t)v.error().value == 0u - (uint32_t)res, "failure is reported with the kernel's error"); kse_reach("failure"); } }
static DetachedTask user(Worker& w) {
  std::span<char> b((char*)u2, u1); std::span<const char> cb((const char*)u2, u1);
  switch (kind) {
    case Accept: judge(co_await w.async_accept(fd_, (sockaddr*)&ss, &sl)); break; case AcceptPeer: judge(co_await w.async_accept(listener, peer)); break; case Read: judge(co_await w.async_read(fd_, b)); break; case ReadAt: judge(co_await w.async_read_at(fd_, b, secs)); break;
    case Readv: judge(co_await w.async_readv(fd_, iov, 2, secs)); break; case Open: judge(co_await w.async_openat(std::filesystem::path(PATH), i1, (mode_t)i2)); break;
    case Write: judge(co_await w.async_write(fd_, cb)); break; case WriteAt: judge(co_await w.async_write_at(fd_, cb, secs)); break; case Writev: judge(co_await w.async_writev(fd_, iov, 2, secs)); break;
    case Connect: judge(co_await w.async_connect(fd_, (sockaddr*)&ss, (socklen_t)i1)); break; case Fallocate: judge(co_await w.async_fallocate(fd_, i1, (off_t)u1)); break; case Close: judge(co_await w.async_close(fd_)); break;
    case Sleep: judge(co_await w.async_sleep(std::chrono::nanoseconds(secs * 1000000000ull + nanos))); break; case Fsync: judge(co_await w.async_fsync(fd_)); break; case Fdatasync: judge(co_await w.async_fdatasync(fd_)); break;
    case Unlink: judge(co_await w.async_unlink_at(fd_, std::filesystem::path(PATH), i1)); break; case Truncate: judge(co_await w.async_ftruncate(fd_, (off_t)u1)); break; case Poll: judge(co_await w.async_poll(fd_, i1)); break; case Sendmsg: judge(co_await w.async_sendmsg(fd_, &msg, i1)); break; }
  nDone++; }
static bool stats;
void harness() {
  kind = (int)kse_choose(0, KINDS - 1, "kind"); stats = kse_param("stats", 0); fd_ = (int)kse_u32("fd"); if (kind == Read || kind == Readv || kind == ReadAt) kse_assume((uint32_t)fd_ - 40 >= 48); i1 = (int)kse_u32("i1"); i2 = (int)kse_u32("i2"); u1 = kse_u64("u1"); u2 = kse_u64("u2"); secs = kse_u64("off"); if (rw()) { kse_assume(u1 < (1ull << 62)); }
  if (kind == Sleep) { static const uint64_t ks[] = {0, 1, 59, 86400, 4000000000ull}; secs = ks[kse_choose(0, 4, "secs")]; nanos = kse_range(0, 999999999, "nanos"); }
  if (kind == AcceptPeer) { listener = net::Socket(fd_ = 77); peer.addrlen = (socklen_t)kse_choose(0, 1, "left") * 16; }
  users = 1; kur = {1, 1}; ks_config(0, 0, 0, 0); iov[0].iov_base = buf; iov[0].iov_len = 4; iov[1] = iov[0];
  runWorker(smallConfig(), [](Worker& w) { user(w).detach(); }, [](Worker& w) {
    if (kind == AcceptPeer) (void)listener.release(); if (!stats) return; const WorkerStats& s = w.get_stats(); bool ok = res >= 0; uint64_t n = ok ? (uint64_t)res : 0; bool rd = kind == Read || kind == ReadAt || kind == Readv, wr = kind == Write || kind == WriteAt || kind == Writev || kind == Sendmsg;
    kse_assert(s.bytes_read_total == (rd ? n : 0), "bytes read are counted"); kse_assert(s.bytes_written_total == (wr ? n : 0), "bytes written are counted"); kse_assert(s.read_ops_total == (uint64_t)(rd && ok), "read operations are counted"); kse_assert(s.write_ops_total == (uint64_t)(wr && ok), "write operations are counted");
    kse_assert(s.connections_accepted_total == (uint64_t)((kind == Accept || kind == AcceptPeer) && ok), "accepted connections are counted"); kse_assert(s.open_ops_total == (uint64_t)(kind == Open && ok), "opened files are counted"); kse_assert(s.connect_ops_total == (uint64_t)(kind == Connect && ok), "connections are counted");
    kse_assert(s.io_errors_total == (uint64_t)(!ok && !(kind == Sleep && res == -ETIME)), "failed operations are counted as errors"); kse_assert(s.active_coroutines == 0, "no operation is counted as active"); kse_reach("counted"); }); }
