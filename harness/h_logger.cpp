// C13: every enabled record is written once, whole, in its thread's order, and before the logger is gone.
#include "../rt/ksched.h"
#include <cstring>
#include <streambuf>
#include <ostream>
#include <iostream>
#include <kio/core/async_logger.h>
using namespace kio;
// ---- the kernel: one eventfd, the clock, thread ids
static struct { bool open, semaphore, nonblock; uint64_t count; void* sync; } ev; enum { EVFD = 60 };
static int evFail, eintr; static bool drops; static int dropped, sleeps;
__attribute__((no_sanitize("thread"))) static bool evReady(void*) { return ev.count > 0; }
__attribute__((no_sanitize("thread"))) static int evOpen(int fl) { if (evFail) { errno = EMFILE; return -1; } kse_assert(!ev.open, "one eventfd"); ev.open = true; ev.semaphore = fl & EFD_SEMAPHORE; ev.nonblock = fl & EFD_NONBLOCK; ev.count = 0; return EVFD; }
__attribute__((no_sanitize("thread"))) static ssize_t evWrite(int n, const void* p, size_t len) { kse_assert(n == EVFD && ev.open && len == 8, "write() goes to the open eventfd"); ks_sync_out(&ev.sync); ev.count += *(const uint64_t*)p; return 8; }
__attribute__((no_sanitize("thread"))) static ssize_t evRead(int n, void* p, size_t len) { kse_assert(n == EVFD && ev.open && len == 8, "read() of the open eventfd");
  if (eintr && kse_choose(0, 1, "EINTR")) { eintr--; errno = EINTR; return -1; }
  if (!ev.count && ev.nonblock) { errno = EAGAIN; return -1; } ks_wait(evReady, nullptr, "the logger's eventfd"); ks_sync_in(&ev.sync); uint64_t k = ev.semaphore ? 1 : ev.count; ev.count -= k; *(uint64_t*)p = k; return 8; }
extern "C" {
int eventfd(unsigned init, int fl) { int r = evOpen(fl); return r; }
ssize_t write(int n, const void* p, size_t len) { ks_point(); ssize_t r = evWrite(n, p, len); ks_point(); return r; }
ssize_t read(int n, void* p, size_t len) { ks_point(); return evRead(n, p, len); }
int close(int n) { kse_assert(n == EVFD && ev.open, "close() of the open eventfd"); ev.open = false; return 0; }
int isatty(int) noexcept { return 0; }
long syscall(long, ...) noexcept { return 1000 + ks_self(); }
int nanosleep(const timespec*, timespec*) { if (++sleeps > 6) kse_stop(); ks_yield(); return 0; }
int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { if (++sleeps > 6) kse_stop(); ks_yield(); return 0; }
}
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(1732060000123456789ll)); }
// ---- the output
enum { MAXO = 4096 }; static char out_[MAXO]; static int on; static int lines;
struct Sink final : std::streambuf {
  __attribute__((no_sanitize("thread"))) std::streamsize xsputn(const char* p, std::streamsize n) override { kse_assert(on + n <= MAXO, "the output has the expected size"); memcpy(out_ + on, p, (size_t)n); on += (int)n; return n; }
  int overflow(int c) override { char x = (char)c; xsputn(&x, 1); return c; } };
struct ErrSink final : std::streambuf { std::streamsize xsputn(const char*, std::streamsize n) override { return n; } int overflow(int c) override { return c; } };
// ---- what was logged
enum { MAXREC = 12, MAXM = 320 }; static unsigned value_[MAXREC];
struct Rec { int thread; LogLevel level; unsigned line; int n; char m[MAXM]; bool mayDrop; int outstanding; }; static Rec R[MAXREC]; static int nrec;
static Logger* L; static const char* base_; static int cap; static int accepted;
__attribute__((no_sanitize("thread"))) static Rec& rec(LogLevel lv, unsigned line, const char* m, int n) { kse_assert(nrec < MAXREC && n <= MAXM, "harness sizes"); Rec& r = R[nrec++]; r.thread = ks_self(); r.level = lv; r.line = line; r.n = n; memcpy(r.m, m, n); return r; }
#define SAY(lv, ...) do { switch (lv) { case LogLevel::Trace: line_ = __LINE__; LOGT(*L, __VA_ARGS__); break; case LogLevel::Debug: line_ = __LINE__; LOGD(*L, __VA_ARGS__); break; case LogLevel::Info: line_ = __LINE__; LOGI(*L, __VA_ARGS__); break; case LogLevel::Warn: line_ = __LINE__; LOGW(*L, __VA_ARGS__); break; default: line_ = __LINE__; LOGE(*L, __VA_ARGS__); } } while (0)
static bool at(int p, const char* s, int n) { if (p + n > on) return false; for (int i = 0; i < n; i++) if (out_[p + i] != s[i]) return false; return true; }
static int num(unsigned v, char* b) { char t[12]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) b[i] = t[n - 1 - i]; return n; }
// takes one record off the output at p; returns its index
static int takeRecord(int& p, const bool* seen) {
  int q = p; char loc[64]; const char* f = "h_logger.cpp:"; int fl = (int)strlen(f);
  while (q < on && out_[q] != '\n' && !at(q, f, fl)) q++; kse_assert(q < on && at(q, f, fl), "a line names the source file"); (void)loc;
  for (int i = 0; i < nrec; i++) { if (seen[i]) continue; bool earlier = false; for (int j = 0; j < i; j++) if (!seen[j] && R[j].thread == R[i].thread && !R[j].mayDrop) earlier = true; if (earlier) continue;
    char b[16]; int n = num(R[i].line, b); if (!at(q + fl, b, n) || !at(q + fl + n, " - ", 3)) continue;
    char tb[24] = "[tid:"; int tn = 5 + num(1000 + (unsigned)R[i].thread, tb + 5); tb[tn++] = ']'; bool tid = false; for (int k = p; k < q; k++) if (at(k, tb, tn)) tid = true; if (!tid) continue;
    static const char* names[] = {"", "TRACE", "DEBUG", "INFO", "WARN", "ERROR"}; const char* nm = names[(int)R[i].level]; bool lvl = false; for (int k = p; k < q; k++) if (at(k, nm, (int)strlen(nm))) lvl = true; if (!lvl) continue;
    int m = q + fl + n + 3; if (m + R[i].n >= on) continue; if (R[i].n && memcmp(out_ + m, R[i].m, R[i].n)) continue; if (out_[m + R[i].n] != '\n') continue;
    p = m + R[i].n + 1; return i; }
  kse_fail("a line on the output is no record that is due"); }
static void judge() { if (kse_param("show", 0)) kse_printn(out_, on);
  bool seen[MAXREC] = {}; int p = 0, got = 0; while (p < on) { int i = takeRecord(p, seen); seen[i] = true; got++; }
  for (int i = 0; i < nrec; i++) { kse_assert(seen[i] || R[i].mayDrop, "every enabled record is on the output"); if (!seen[i]) kse_reach("dropped"); } if (got) kse_reach("written"); if (got > 1) kse_reach("several"); }
static void teardown(uint64_t seq) { kse_assert(!ev.open, "the eventfd is closed"); kse_assert(ks_alive() == 0, "the consumer thread is joined"); (void)seq; judge(); kse_reach("end"); }
// mode 0: texts of every length around the inline limit, any content
static void texts() {
  static const int lens[] = {0, 1, 2, 255, 256, 257, 300}; int k = (int)kse_param("several", 1), wait = (int)kse_param("wait", 0); Sink s; std::ostream o(&s); uint64_t seq = kse_alloc_seq();
  { Logger l(wait ? 1 : 8, LogLevel::Info, o); L = &l; for (int i = 0; i < k; i++) { int n = lens[kse_choose(0, 6, "length")]; static char t[2][MAXM]; char* m = t[i & 1]; memset(m, 'a' + i, MAXM); int h = n < 3 ? n : 3; for (int j = 0; j < h; j++) m[j] = (char)kse_u8("byte"); if (n > 6) for (int j = n - 3; j < n; j++) m[j] = (char)kse_u8("byte");
      unsigned line_; LOGI(l, "{}", std::string_view(m, (size_t)n)); line_ = __LINE__; rec(LogLevel::Info, line_, m, n); if (wait) { static int was; was = on; struct G { static bool grown(void*) { return on > was && out_[on - 1] == '\n'; } }; ks_wait(G::grown, nullptr, "the output"); } kse_reach(n <= 256 ? "short" : "long"); } }
  teardown(seq); }
// mode 1: levels
static void levels() {
  Sink s; std::ostream o(&s); uint64_t seq = kse_alloc_seq(); auto lv = [](const char* n) { uint8_t v = (uint8_t)kse_range(0, 5, n); return (LogLevel)v; };
  LogLevel active = lv("level"); { Logger l(8, active, o); L = &l; for (int i = 0; i < 2; i++) { if (i && kse_choose(0, 1, "change")) { active = lv("new level"); l.set_level(active); }
      LogLevel m = (LogLevel)kse_choose(1, 5, "message level"); unsigned line_ = 0; SAY(m, "n{}", i); char t[2] = {'n', (char)('0' + i)}; bool on = active != LogLevel::Disabled && (int)m >= (int)active; kse_assert(l.should_log(m) == on, "should_log agrees with the level"); if (on) rec(m, line_, t, 2); else kse_reach("filtered"); } }
  teardown(seq); }
// mode 2: several threads, flushes, a queue of any room
static int per; static unsigned lineOf;
__attribute__((noinline, no_sanitize("thread"))) static int writtenLines() { int n = 0; for (int i = 0; i < on; i++) n += out_[i] == '\n'; return n; }
__attribute__((noinline, no_sanitize("thread"))) static Rec& before(int i) { unsigned v = (unsigned)kse_range(10, 99, "value"); char m[5] = {'r', (char)('a' + ks_self()), (char)('0' + i), (char)('0' + v / 10), (char)('0' + v % 10)}; value_[nrec] = v; Rec& r = rec(LogLevel::Warn, 0, m, 5); r.outstanding = writtenLines(); return r; }
// a record may be dropped only if the queue can have been full: this many others were on their way
__attribute__((noinline, no_sanitize("thread"))) static void after(Rec& r) { r.mayDrop = nrec - 1 - r.outstanding >= cap; }
static void producer(void*) { for (int i = 0; i < per; i++) { ks_quiet(true); Rec& r = before(i); char m[3]; memcpy(m, r.m, 3); unsigned v = value_[&r - R]; r.line = __LINE__; ks_quiet(false); LOGW(*L, "{}{}", std::string_view(m, 3), v); ks_quiet(true); after(r); ks_quiet(false); } }
static void flusher(void*) { for (int i = 0; i < (int)kse_param("flushes", 1); i++) L->flush(); }
static void threads() {
  per = (int)kse_param("per", 2); cap = (int)kse_param("cap", 4); int prod = (int)kse_param("producers", 2), fl = (int)kse_param("flushers", 0); evFail = (int)kse_param("nofd", 0); eintr = (int)kse_param("eintr", 0);
  Sink s; std::ostream o(&s); uint64_t seq = kse_alloc_seq();
  { Logger l((size_t)cap, LogLevel::Info, o); L = &l; int t[4]; int n = 0; for (int i = 0; i < prod; i++) t[n++] = ks_spawn(producer, nullptr, "producer"); for (int i = 0; i < fl; i++) t[n++] = ks_spawn(flusher, nullptr, "flusher"); for (int i = 0; i < n; i++) ks_join(t[i]); }
  teardown(seq); }
void harness() { static ErrSink es; std::streambuf* old = std::cerr.rdbuf(&es); struct Back { std::streambuf* b; ~Back() { std::cerr.rdbuf(b); } } back{old}; ks_config((int)kse_param("pre", 0), (int)kse_param("weak", 0), (int)kse_param("stale", 0), 0); switch (kse_param("mode", 0)) { case 0: texts(); break; case 1: levels(); break; default: threads(); } }
