// C11: exact transfers.
#include "kworld.h"
enum { ReadX, ReadXAt, WriteX, WriteXAt, SendFile };
static int mode, big, calls, maxCalls; static int fd_ = 1000, out_ = 1001; static uint64_t len_, off_, base_, moved; static int failed; static bool eof, ok;
static unsigned char src[8], sink[8]; static char buf[8];
static int pr, pw; static uint64_t inPipe, sent; static int fills, drains, pipeErr;
static bool reading() { return mode == ReadX || mode == ReadXAt; }
static int amount(uint64_t most) { // what the kernel chooses to move
  calls++; switch (kse_choose(calls > maxCalls ? 1 : 0, 2, "outcome")) { case 0: { uint64_t v = kse_u64("moved"); kse_assume(v - 1 < most); kse_assume(v < 0x80000000); return (int)v; } case 1: failed = (int)kse_range(2200, 4095, "errno"); return -failed; default: eof = true; return 0; } }
extern "C" int kur_result(const io_uring_sqe* s) {
  kse_assert(!failed && !eof, "nothing is requested after an error or end of file");
  if (mode != SendFile) {
    kse_assert(s->opcode == (reading() ? IORING_OP_READ : IORING_OP_WRITE) && s->fd == fd_, "the caller's descriptor is read or written"); kse_assert(s->addr == base_ + moved, "the transfer continues where the last one ended"); kse_assert(s->len > 0 && s->len <= len_ - moved, "a request stays within the caller's buffer");
    if (mode == ReadXAt || mode == WriteXAt) kse_assert(s->off == off_ + moved, "offsets are consecutive"); else kse_assert(s->off == ~0ull, "streams are used at their current position");
    int r = amount(s->len); if (r > 0) { if (!big) { int n = (int)kse_concrete(r); for (int i = 0; i < n; i++) if (reading()) ((char*)s->addr)[i] = (char)src[moved + i]; else sink[moved + i] = ((unsigned char*)s->addr)[i]; } moved += (uint64_t)r; } return r; }
  kse_assert(s->opcode == IORING_OP_SPLICE, "a file is sent by splicing");
  if (s->splice_fd_in == fd_) { kse_assert(kfd_tag_of(s->fd) == 3, "file data goes into the pipe"); kse_assert((int64_t)s->splice_off_in == (int64_t)(off_ + sent) && s->off == ~0ull, "offsets are consecutive"); kse_assert(inPipe == 0, "the pipe is drained before it is filled again"); kse_assert(s->len > 0 && s->len <= len_ - sent, "no more than requested is taken"); int r = amount(s->len); if (r > 0) { inPipe = (uint64_t)r; fills++; } return r; }
  kse_assert(kfd_tag_of(s->splice_fd_in) == 2 && s->fd == out_, "pipe data goes to the destination"); kse_assert(s->splice_off_in == ~0ull && s->off == ~0ull, "pipes have no offset"); kse_assert(inPipe > 0 && s->len > 0, "the pipe is only drained while it holds data"); int r = amount(s->len < inPipe ? s->len : inPipe); if (r > 0) { inPipe -= (uint64_t)r; sent += (uint64_t)r; drains++; } return r; }
template <class R> static void judge(const R& r) {
  uint64_t m = mode == SendFile ? sent : moved;
  if (r.has_value()) { ok = true; kse_assert(!failed && !eof && !pipeErr, "an error or end of file is not reported as success"); kse_assert(m == len_ && inPipe == 0, "success means exactly the requested bytes were moved"); if (!big && mode != SendFile) for (uint64_t i = 0; i < len_; i++) kse_assert(reading() ? (unsigned char)buf[i] == src[i] : sink[i] == (unsigned char)buf[i], "bytes arrive in order"); kse_reach("complete"); if (calls > 1) kse_reach("in pieces"); }
  else { kse_assert(failed || eof || pipeErr, "a transfer fails only if the kernel reported an error or end of file"); if (failed) kse_assert(r.error().value == failed, "the kernel's error is reported"); if (pipeErr) kse_assert(r.error().value == pipeErr, "the kernel's error is reported"); kse_reach(failed ? "error" : pipeErr ? "no pipe" : "end of file"); } 
  if (!big && mode != SendFile) for (uint64_t i = reading() ? m : 0; i < 8; i++) kse_assert((unsigned char)buf[i] == (i < 8 ? (reading() ? 0xA5 : src[i]) : 0), "memory outside the transferred bytes is untouched"); }
static DetachedTask user(Worker& w) {
  std::span<char> b((char*)base_, len_); std::span<const char> cb((const char*)base_, len_);
  switch (mode) { case ReadX: judge(co_await w.async_read_exact(fd_, b)); break; case ReadXAt: judge(co_await w.async_read_exact_at(fd_, b, off_)); break; case WriteX: judge(co_await w.async_write_exact(fd_, cb)); break; case WriteXAt: judge(co_await w.async_write_exact_at(fd_, cb, off_)); break; case SendFile: judge(co_await w.async_sendfile(out_, fd_, (off_t)off_, len_)); break; }
  nDone++; }
void harness() {
  mode = (int)kse_choose(kse_param("first", 0), kse_param("last", 3), "mode"); big = (int)kse_param("big", 0); maxCalls = (int)kse_param("calls", 4); kse_sym(src, 8, "data"); off_ = kse_u64("offset"); users = 1; kur = {1, 1}; ks_config(0, 0, 0, 0);
  if (mode == SendFile) { len_ = kse_u64("count"); kse_assume(len_ < (1ull << 62)); kse_assume(off_ < (1ull << 61)); base_ = 0; if (kse_choose(0, 1, "pipe fails")) { pipeErr = (int)kse_range(2200, 4095, "errno"); } }
  else if (big) { len_ = kse_u64("len"); kse_assume(len_ < (1ull << 62)); base_ = kse_u64("base"); }
  else { len_ = kse_choose(0, kse_param("max", 4), "len"); base_ = (uint64_t)buf; for (int i = 0; i < 8; i++) buf[i] = reading() ? (char)0xA5 : (char)src[i]; }
  runWorker(smallConfig(), [](Worker& w) { if (pipeErr) kfd_next_fail = pipeErr; user(w).detach(); kfd_next_fail = 0; }, [](Worker& w) { kse_assert(kur_live_fds() == 2, "every temporary descriptor is closed");
    if (!kse_param("stats", 0)) return; const WorkerStats& t = w.get_stats(); bool rd = reading(), whole = mode == SendFile; uint64_t n = (uint64_t)(calls - (failed ? 1 : 0));
    if (!whole) { kse_assert(t.bytes_read_total == (rd ? moved : 0) && t.bytes_written_total == (rd ? 0 : moved), "bytes moved are counted"); kse_assert(t.read_ops_total == (rd ? n : 0) && t.write_ops_total == (rd ? 0 : n), "completed operations are counted"); }
    else if (ok) kse_assert(t.bytes_written_total == len_ && t.write_ops_total == 1 && t.bytes_read_total == 0 && t.read_ops_total == 0, "a file sent is counted once, with its bytes"); else kse_assert(t.write_ops_total == 0 && t.bytes_written_total <= sent, "a failed transfer is not counted as done");
    kse_assert(t.io_errors_total == (uint64_t)(failed != 0), "failed operations are counted as errors"); kse_reach("counted"); }); }
