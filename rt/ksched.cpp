#include "ksched.h"
#include <thread>
#include <system_error>
#include <mutex>
#include <condition_variable>
#include <cstring>
#include <cerrno>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
enum { NT = 8, NL = 96, NM = 40 };
extern "C" __attribute__((weak)) void ks_native_access(const void* p, size_t n) { (void)p; (void)n; } // the native replay checks validity here
struct View { u32 vc[NT]; u8 at[NL]; };
struct Thr { bool used, done; int fib; void (*fn)(void*); void* arg; const char* name; bool (*ready)(void*); void* rarg; const char* what; bool noPre; View cur, acq, rel; };
static Thr T[NT]; static int nT = 1, me; static bool inited, weakOn; static int preLeft, staleLeft, spurLeft, quiet; static int nPre;
int (*ks_on_deadlock)(void); extern "C" { int ks_fail_spawn; int ks_fixed; }
static void init() { if (inited) return; inited = true; T[0].used = true; T[0].name = "main"; T[0].cur.vc[0] = 1; }
// ---- views
struct Msg { u64 v; int by; u32 clk; View* view; };
struct Loc { u64 a; u8 n; u8 nm; Msg m[NM]; };
static Loc L[NL]; static int nL; static View pool[NL * 12]; static int nPool;
static void join(View& d, const View& s) { for (int i = 0; i < nT; i++) if (d.vc[i] < s.vc[i]) d.vc[i] = s.vc[i]; for (int i = 0; i < nL; i++) if (d.at[i] < s.at[i]) d.at[i] = s.at[i]; }
static View* newView(const View& v) { if (nPool >= (int)(sizeof pool / sizeof *pool)) kse_bound("too many atomic stores"); pool[nPool] = v; return &pool[nPool++]; }
static void tick() { T[me].cur.vc[me]++; }
// ---- scheduling
static bool enabled(int t) { return T[t].used && !T[t].done && (!T[t].ready || T[t].ready(T[t].rarg)); }
static void go(int t) { if (t == me) return; me = t; kse_fiber_switch(T[t].fib); }
static void pick(bool allowSelf) { // give up the processor
  for (;;) { int c[NT], n = 0; for (int t = 0; t < nT; t++) if ((t != me || allowSelf) && enabled(t)) c[n++] = t; if (!n) { if (!allowSelf) return; if (ks_on_deadlock && ks_on_deadlock()) continue; kse_fail("no thread can run: a wait never returns"); } int t = c[0]; if (ks_fixed) { for (int i = n; i-- > 0;) if (c[i] > me) t = c[i]; } else if (n > 1) t = c[kse_choose(0, n - 1, "thread")]; go(t); return; } }
void ks_quiet(bool q) { quiet += q ? 1 : -1; if (quiet < 0) kse_unsupported("ks_quiet"); }
void ks_point() { if (quiet || preLeft <= 0 || nT < 2) return; int c[NT], n = 0; for (int t = 0; t < nT; t++) if (t != me && enabled(t)) c[n++] = t; if (!n) return; u64 k = kse_choose(0, n, "preempt"); if (k) { preLeft--; nPre++; go(c[k - 1]); } }
void ks_yield() { pick(false); }
int ks_self() { return me; }
static void body(void* p) { int t = (int)(size_t)p; T[t].fn(T[t].arg); T[t].done = true; tick(); pick(true); kse_fail("a finished thread was resumed"); }
int ks_spawn(void (*fn)(void*), void* arg, const char* name) { init(); if (nT >= NT) kse_bound("more than 8 threads"); int t = nT++; T[t] = Thr{}; T[t].used = true; T[t].fn = fn; T[t].arg = arg; T[t].name = name; T[t].cur = T[me].cur; T[t].cur.vc[t] = 1; tick(); T[t].fib = kse_fiber_new(body, (void*)(size_t)t); return t; }
bool ks_done(int t) { return T[t].done; }
void ks_wait(bool (*ready)(void*), void* arg, const char* what) { init(); if (ready(arg)) return; T[me].ready = ready; T[me].rarg = arg; T[me].what = what; int self = me; pick(true); (void)self; T[me].ready = nullptr; }
static bool isDone(void* p) { return T[(size_t)p].done; }
void ks_join(int t) { ks_wait(isDone, (void*)(size_t)t, "join"); join(T[me].cur, T[t].cur); }
int ks_alive() { int n = 0; for (int t = 1; t < nT; t++) n += T[t].used && !T[t].done; return n; }
void ks_run() { for (int t = 1; t < nT; t++) if (t != me) ks_join(t); }
void ks_config(int p, int w, int s, int sp) { init(); preLeft = p; weakOn = w; staleLeft = s; spurLeft = sp; }
static struct { u64 a, n; } W[16]; static int nW;
void ks_watch(const void* p, size_t n, const char*) { if (nW < 16) W[nW++] = {(u64)p, n}; }
static bool watched(u64 a) { if (!nW) return true; for (int i = 0; i < nW; i++) if (a - W[i].a < W[i].n) return true; return false; }
void ks_sync_out(void** s) { if (!weakOn) return; tick(); if (!*s) *s = newView(T[me].cur); else join(*(View*)*s, T[me].cur); tick(); }
void ks_sync_in(void** s) { if (weakOn && *s) join(T[me].cur, *(View*)*s); }
// ---- races on plain accesses: last write and last reads of every byte, as epochs
extern "C" bool kse_thread_local(const void*);
struct Cell { u64 g; u8 wby[8]; u32 wclk[8]; u32 rclk[8][NT]; };
enum { NC = 4096 }; static Cell* C[NC]; static Cell cpool[2048]; static int nC;
static Cell* cell(u64 g) { u32 h = (u32)(g * 0x9E3779B97F4A7C15ull >> 52); while (C[h] && C[h]->g != g) h = (h + 1) % NC; if (!C[h]) { if (nC == 2048) kse_bound("too many tracked words"); C[h] = &cpool[nC++]; C[h]->g = g; } return C[h]; }
static void plain(u64 a, u64 n, bool wr) {
  ks_native_access((void*)a, n);
  if (!weakOn || nT < 2 || quiet || kse_thread_local((void*)a)) return; View& v = T[me].cur;
  while (n) { Cell* c = cell(a >> 3); for (; n; ) { int b = a & 7;
      if (c->wclk[b] && c->wby[b] != me && v.vc[c->wby[b]] < c->wclk[b]) kse_fail(wr ? "data race: write not ordered after another thread's write" : "data race: read not ordered after another thread's write");
      if (wr) { for (int t = 0; t < nT; t++) if (t != me && c->rclk[b][t] && v.vc[t] < c->rclk[b][t]) kse_fail("data race: write not ordered after another thread's read"); c->wby[b] = (u8)me; c->wclk[b] = v.vc[me]; } else c->rclk[b][me] = v.vc[me];
      a++; n--; if (!(a & 7)) break; } } }
// memory given back: accesses by others must be ordered before, and the words start afresh
extern "C" void ks_free_hook(void* p, size_t n) { if (!weakOn || quiet || !n) return; plain((u64)p, n, true); for (u64 g = (u64)p >> 3; g <= ((u64)p + n - 1) >> 3; g++) { Cell* c = cell(g); u64 k = c->g; memset(c, 0, sizeof *c); c->g = k; } for (int i = 0; i < nL; i++) if (L[i].a - (u64)p < n) L[i].nm = 0; }
// ---- atomics
static u64 rd(u64 a, int n) { ks_native_access((void*)a, (size_t)n); switch (n) { case 1: return *(volatile u8*)a; case 2: return *(volatile uint16_t*)a; case 4: return *(volatile u32*)a; default: return *(volatile u64*)a; } }
static void wr(u64 a, int n, u64 v) { ks_native_access((void*)a, (size_t)n); switch (n) { case 1: *(volatile u8*)a = (u8)v; break; case 2: *(volatile uint16_t*)a = (uint16_t)v; break; case 4: *(volatile u32*)a = (u32)v; break; default: *(volatile u64*)a = v; } }
static int find(u64 a, int n) { for (int i = 0; i < nL; i++) if (L[i].a == a) { if (L[i].n != n) { L[i].n = (u8)n; L[i].nm = 0; } if (L[i].nm && L[i].m[L[i].nm - 1].v != rd(a, n)) L[i].nm = 0; if (!L[i].nm) { L[i].nm = 1; L[i].m[0] = {rd(a, n), -1, 0, nullptr}; for (int t = 0; t < nT; t++) T[t].cur.at[i] = T[t].acq.at[i] = T[t].rel.at[i] = 0; } return i; }
  if (nL == NL) kse_bound("too many atomic objects"); Loc& l = L[nL]; l.a = a; l.n = (u8)n; l.nm = 1; l.m[0] = {rd(a, n), -1, 0, nullptr}; return nL++; }
enum { Relaxed, Consume, Acquire, Release, AcqRel, SeqCst };
static View scView;
static bool isAcq(int o) { return o == Acquire || o == Consume || o == AcqRel || o == SeqCst; } static bool isRel(int o) { return o == Release || o == AcqRel || o == SeqCst; }
static void readMsg(int l, int i, int o) { Thr& t = T[me]; if (t.cur.at[l] < i) t.cur.at[l] = (u8)i; Msg& m = L[l].m[i]; if (m.view) { join(t.acq, *m.view); if (isAcq(o)) join(t.cur, *m.view); } }
static void writeMsg(int l, u64 v, int o, View* carried) { Thr& t = T[me]; Loc& c = L[l]; if (c.nm == NM) kse_bound("too many stores to one atomic object"); int i = c.nm++; tick(); t.cur.at[l] = (u8)i; View w; if (isRel(o)) w = t.cur; else { w = t.rel; w.at[l] = (u8)i; } if (carried) join(w, *carried); c.m[i] = {v, me, t.cur.vc[me], newView(w)}; wr(c.a, c.n, v); tick(); }
// an unwatched atomic is treated as strongly ordered by its annotation, always reading the latest value
static void racesAtomic(u64 a, int n, bool w) { // an atomic access conflicts with unordered plain writes (and plain reads, for stores)
  View& v = T[me].cur; Cell* c = cell(a >> 3); for (int k = 0; k < n; k++) { int b = (a + k) & 7; if (c->wclk[b] && c->wby[b] != me && v.vc[c->wby[b]] < c->wclk[b]) kse_fail("data race: atomic access not ordered after another thread's plain write"); if (w) for (int t = 0; t < nT; t++) if (t != me && c->rclk[b][t] && v.vc[t] < c->rclk[b][t]) kse_fail("data race: atomic store not ordered after another thread's plain read"); } }
static bool on() { return weakOn && nT > 1; }
static u64 aLoad(u64 a, int n, int o) {
  bool w = watched(a); if (w) ks_point(); if (!on()) return rd(a, n); racesAtomic(a, n, false); int l = find(a, n); Thr& t = T[me]; if (o == SeqCst) join(t.cur, scView);
  int lo = t.cur.at[l], hi = L[l].nm - 1, i = hi; if (w && staleLeft > 0 && lo < hi && !quiet) { i = hi - (int)kse_choose(0, hi - lo, "stale"); if (i != hi) staleLeft--; } u64 v = L[l].m[i].v; readMsg(l, i, o); return v; }
static void aStore(u64 a, int n, u64 v, int o) { bool w = watched(a); if (w) ks_point(); if (!on()) { wr(a, n, v); return; } racesAtomic(a, n, true); int l = find(a, n); writeMsg(l, v, o, nullptr); if (o == SeqCst) join(scView, T[me].cur); }
static u64 mask(u64 v, int n) { return n == 8 ? v : v & ((1ull << (8 * n)) - 1); }
template <class F> static u64 aRmw(u64 a, int n, int o, F f) { bool w = watched(a); if (w) ks_point(); if (!on()) { u64 old = rd(a, n); wr(a, n, mask(f(old), n)); return old; } racesAtomic(a, n, true); int l = find(a, n); if (o == SeqCst) join(T[me].cur, scView); int i = L[l].nm - 1; u64 old = L[l].m[i].v; readMsg(l, i, o); writeMsg(l, mask(f(old), n), o, L[l].m[i].view); if (o == SeqCst) join(scView, T[me].cur); return old; }
static bool aCas(u64 a, int n, u64* exp, u64 des, int so, int fo, bool weak) {
  bool w = watched(a); if (w) ks_point(); u64 e = mask(*exp, n); if (!on()) { u64 old = rd(a, n); if (old == e) { if (weak && w && spurLeft > 0 && nT > 1 && !quiet && kse_choose(0, 1, "spurious")) { spurLeft--; *exp = old; return false; } wr(a, n, mask(des, n)); return true; } *exp = old; return false; }
  racesAtomic(a, n, true); int l = find(a, n); Thr& t = T[me]; if (so == SeqCst) join(t.cur, scView); int hi = L[l].nm - 1, lo = t.cur.at[l];
  // fail on an older value?
  if (w && staleLeft > 0 && lo < hi && !quiet) { u64 k = kse_choose(0, hi - lo, "stale cas"); if (k) { int i = hi - (int)k; if (L[l].m[i].v == e) { if (!weak) kse_assume(false); } staleLeft--; *exp = L[l].m[i].v; readMsg(l, i, fo); return false; } }
  u64 old = L[l].m[hi].v; if (old != e) { *exp = old; readMsg(l, hi, fo); return false; } if (weak && w && spurLeft > 0 && !quiet && kse_choose(0, 1, "spurious")) { spurLeft--; *exp = old; readMsg(l, hi, fo); return false; }
  readMsg(l, hi, so); writeMsg(l, mask(des, n), so, L[l].m[hi].view); if (so == SeqCst) join(scView, t.cur); return true; }
extern "C" {
void __tsan_init() {}
#define ATOMICS(B, TY, N) \
TY __tsan_atomic##B##_load(const volatile TY* a, int o) { return (TY)aLoad((u64)a, N, o); } \
void __tsan_atomic##B##_store(volatile TY* a, TY v, int o) { aStore((u64)a, N, (u64)v, o); } \
TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64) { return (u64)v; }); } \
TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64 x) { return x + (u64)v; }); } \
TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64 x) { return x - (u64)v; }); } \
TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64 x) { return x & (u64)v; }); } \
TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64 x) { return x | (u64)v; }); } \
TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64 x) { return x ^ (u64)v; }); } \
TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int o) { return (TY)aRmw((u64)a, N, o, [=](u64 x) { return ~(x & (u64)v); }); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int so, int fo) { u64 e = (u64)*c; bool r = aCas((u64)a, N, &e, (u64)v, so, fo, false); if (!r) *c = (TY)e; return r; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int so, int fo) { u64 e = (u64)*c; bool r = aCas((u64)a, N, &e, (u64)v, so, fo, true); if (!r) *c = (TY)e; return r; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY c, TY v, int so, int fo) { u64 e = (u64)c; aCas((u64)a, N, &e, (u64)v, so, fo, false); return (TY)e; }
ATOMICS(8, uint8_t, 1) ATOMICS(16, uint16_t, 2) ATOMICS(32, uint32_t, 4) ATOMICS(64, uint64_t, 8)
void __tsan_atomic_thread_fence(int o) { if (!on()) return; Thr& t = T[me]; if (isAcq(o)) join(t.cur, t.acq); if (o == SeqCst) { join(t.cur, scView); join(scView, t.cur); } if (isRel(o)) { t.rel = t.cur; tick(); } }
void __tsan_atomic_signal_fence(int) {}
#define PL(N) void __tsan_read##N(void* p) { plain((u64)p, N, false); } void __tsan_write##N(void* p) { plain((u64)p, N, true); } void __tsan_unaligned_read##N(void* p) { plain((u64)p, N, false); } void __tsan_unaligned_write##N(void* p) { plain((u64)p, N, true); } void __tsan_read_write##N(void* p) { plain((u64)p, N, true); } void __tsan_unaligned_read_write##N(void* p) { plain((u64)p, N, true); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void __tsan_read_range(void* p, size_t n) { plain((u64)p, n, false); } void __tsan_write_range(void* p, size_t n) { plain((u64)p, n, true); }
void __tsan_vptr_read(void** p) { plain((u64)p, 8, false); } void __tsan_vptr_update(void** p, void*) { plain((u64)p, 8, true); }
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain((u64)s, n, false); plain((u64)d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain((u64)s, n, false); plain((u64)d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain((u64)d, n, true); return memset(d, c, n); }
// ---- pthread and friends
static char tids[NT];
#ifdef KSE_SYMBOLIC
pthread_t pthread_self(void) noexcept { return (pthread_t)&tids[me]; }
#else
pthread_t pthread_self(void) noexcept { return me ? (pthread_t)&tids[me] : (pthread_t)__builtin_thread_pointer(); }
#endif
struct MutexM { int locked; int owner; };   // laid over pthread_mutex_t
struct MSync { const void* m; void* view; }; static MSync ms[32];
static void** msync(const void* m) { for (auto& s : ms) { if (s.m == m) return &s.view; if (!s.m) { s.m = m; return &s.view; } } kse_bound("too many mutexes"); }
#ifdef KSE_SYMBOLIC
#define FOREIGN false
#else
extern "C" char __executable_start, etext; // the unwinder and the C library have locks of their own
#define FOREIGN ((char*)__builtin_return_address(0) < &__executable_start || (char*)__builtin_return_address(0) >= &etext)
#endif
static bool mfree(void* m) { return !((MutexM*)m)->locked; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (FOREIGN) return 0; ks_point(); MutexM* x = (MutexM*)m; if (x->locked && x->owner == me) kse_fail("a mutex is locked twice by one thread"); ks_wait(mfree, m, "mutex"); x->locked = 1; x->owner = me; ks_sync_in(msync(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (FOREIGN) return 0; ks_point(); MutexM* x = (MutexM*)m; if (x->locked) return EBUSY; x->locked = 1; x->owner = me; ks_sync_in(msync(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (FOREIGN) return 0; MutexM* x = (MutexM*)m; if (!x->locked || x->owner != me) kse_fail("a mutex is unlocked by a thread that does not hold it"); ks_sync_out(msync(m)); x->locked = 0; ks_point(); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int sched_yield() noexcept { ks_yield(); return 0; }
}
struct ThrState { virtual ~ThrState(); virtual void run() = 0; };  // the layout of std::thread::_State
static void runThread(void* p) { auto* s = (ThrState*)p; s->run(); delete s; }
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) { if (ks_fail_spawn && --ks_fail_spawn == 0) throw system_error(error_code(EAGAIN, generic_category())); int t = ks_spawn(runThread, s.release(), "thread"); _M_id._M_thread = (pthread_t)&tids[t]; }
void thread::join() { if (_M_id == id()) kse_fail("join of a thread that is not joinable"); int t = (int)((char*)_M_id._M_thread - tids); ks_join(t); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
// a condition variable: waiters are numbered; spurious wakeups are not modelled
struct CvW { const void* cv; bool woken; }; static CvW cvw[NT];
static bool cvReady(void* p) { return ((CvW*)p)->woken; }
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex>& l) { CvW& w = cvw[ks_self()]; w = {this, false}; l.unlock(); ks_wait(cvReady, &w, "condition variable"); w.cv = nullptr; l.lock(); }
void condition_variable::notify_one() noexcept { ks_point(); int c[NT], n = 0; for (int t = 0; t < NT; t++) if (cvw[t].cv == this && !cvw[t].woken) c[n++] = t; if (n) cvw[c[n == 1 ? 0 : kse_choose(0, n - 1, "notified")]].woken = true; }
void condition_variable::notify_all() noexcept { ks_point(); for (auto& w : cvw) if (w.cv == this) w.woken = true; }
}
