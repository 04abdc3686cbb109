// Native replay of a witness tape: the same harness, the real compiler.
#include "kse.h"
#include <sys/single_threaded.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <malloc.h>
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>
#if defined(__has_feature) && __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#else
#define __sanitizer_start_switch_fiber(a, b, c)
#define __sanitizer_finish_switch_fiber(a, b, c)
#endif
struct Ent { std::string name; unsigned w; uint64_t v; };
static std::vector<Ent> tape; static size_t pos; 
// heap bookkeeping: same limit and counters as the engine's model
#include <new>
#if defined(__has_feature) && __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#else
#define __asan_region_is_poisoned(p, n) nullptr
#endif
extern "C" __attribute__((weak)) void ks_free_hook(void*, size_t);
struct HE { void* p; uint64_t seq; size_t n; };
static HE heapTab[1 << 16]; static uint64_t heapSeq; static bool heapTrack;
static size_t hslot(void* p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; while (heapTab[h].p && heapTab[h].p != p) h = (h + 1) & 0xffff; return h; }
#if !(defined(__has_feature) && __has_feature(address_sanitizer))
// without ASan (thread jobs): memory comes from an arena that is never reused, with one validity byte per byte
static const size_t AR = 1u << 28; static char* ar; static char* shadow; static size_t arUsed;
static void* arNew(size_t n, size_t al) { if (!heapTrack) return nullptr; if (!ar) { ar = (char*)mmap(nullptr, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shadow = (char*)mmap(nullptr, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } size_t at = (arUsed + 48 + al - 1) / al * al; if (at + n + 64 > AR) return nullptr; arUsed = at + n; memset(shadow + at, 1, n); memset(ar + at, 0xbe, n); *(size_t*)(ar + at - 8 - (at & 7)) = n; return ar + at; }
static bool inAr(const void* p) { return ar && (size_t)((char*)p - ar) < AR; }
static size_t arSize(void* p) { size_t at = (char*)p - ar; return *(size_t*)(ar + at - 8 - (at & 7)); }
static bool arDel(void* p) { if (!inAr(p)) return false; size_t at = (char*)p - ar, n = arSize(p); if (n && !shadow[at]) { printf("KSE-VIOLATION double free\n"); fflush(stdout); _exit(77); } memset(shadow + at, 0, n); memset(ar + at, 0xdd, n); return true; }
extern "C" void ks_native_access(const void* p, size_t n) { if (!inAr(p)) return; size_t at = (char*)p - ar; for (size_t i = 0; i < n; i++) if (!shadow[at + i]) { printf("KSE-VIOLATION access to invalid memory\n"); fflush(stdout); _exit(77); } }
static size_t hsize(void* p) { return inAr(p) ? arSize(p) : malloc_usable_size(p); }
#else
static void* arNew(size_t, size_t) { return nullptr; } static bool arDel(void*) { return false; } static size_t hsize(void* p) { return malloc_usable_size(p); }
#endif
static void* hnew(size_t n, size_t al) {
  if (n > (16u << 20)) throw std::bad_alloc(); void* p = arNew(n, al); if (!p) p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  heapSeq++; if (heapTrack) { size_t h = hslot(p); heapTab[h] = {p, heapSeq, n}; } return p; }
static void hdel(void* p) { if (!p) return; if (ks_free_hook) ks_free_hook(p, hsize(p)); if (heapTrack) { size_t h = hslot(p); if (heapTab[h].p) heapTab[h].seq = 0; } if (!arDel(p)) free(p); }
void* operator new(size_t n) { return hnew(n, 16); } void* operator new[](size_t n) { return hnew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return hnew(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return hnew(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return hnew(n, 16); } catch (...) { return nullptr; } } void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return hnew(n, 16); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { hdel(p); } void operator delete[](void* p) noexcept { hdel(p); } void operator delete(void* p, size_t) noexcept { hdel(p); } void operator delete[](void* p, size_t) noexcept { hdel(p); }
void operator delete(void* p, std::align_val_t) noexcept { hdel(p); } void operator delete[](void* p, std::align_val_t) noexcept { hdel(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { hdel(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { hdel(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { hdel(p); }
static std::vector<uint64_t> outs; static std::map<std::string, int64_t> prm;
static void mismatch(const char* what) { printf("REPLAY-MISMATCH %s at %zu\n", what, pos); fflush(stdout); _exit(5); }
static uint64_t next_(const char* name);
static uint64_t next(const char* name) { bool t = heapTrack; heapTrack = false; uint64_t r = next_(name); heapTrack = t; return r; }
static uint64_t next_(const char* name) {
  if (pos >= tape.size()) { printf("REPLAY-END\n"); fflush(stdout); _exit(6); }
  Ent& e = tape[pos]; std::string b = e.name.substr(0, e.name.rfind('#') == std::string::npos ? e.name.size() : e.name.rfind('#')); std::string nm(name); for (auto& ch : nm) if (ch == 32) ch = 95; if (b != nm) mismatch(name); pos++; return e.v; }
extern "C" {
void kse_sym(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(name); }
uint64_t kse_parse_double(const char* p, size_t n) { std::string t(p, n); char* e; double d = strtod(t.c_str(), &e); if (!n || *e || t.size() != strlen(t.c_str()) || isspace((unsigned char)t[0])) return ~0ull; uint64_t v; memcpy(&v, &d, 8); return v; }
uint64_t kse_u64(const char* n) { return next(n); }
uint32_t kse_u32(const char* n) { return (uint32_t)next(n); }
uint8_t kse_u8(const char* n) { return (uint8_t)next(n); }
bool kse_bool(const char* n) { return next(n) & 1; }
uint64_t kse_range(uint64_t, uint64_t, const char* n) { return next(n); }
uint64_t kse_choose(uint64_t, uint64_t, const char* n) { return next(n); }
void kse_assume(bool c) { if (!c) mismatch("assume"); }
void kse_assert(bool c, const char* m) { if (!c) { printf("KSE-VIOLATION %s\n", m); fflush(stdout); _exit(77); } }
void kse_fail(const char* m) { printf("KSE-VIOLATION %s\n", m); fflush(stdout); _exit(77); }
static void fin() { printf("KSE-OUT"); for (auto o : outs) printf(" %llu", (unsigned long long)o); printf("\nKSE-OK\n"); fflush(stdout); _exit(0); }
void kse_stop() { fin(); __builtin_unreachable(); }
void kse_bound(const char*) { fin(); __builtin_unreachable(); }
void kse_unsupported(const char*) { mismatch("unsupported"); __builtin_unreachable(); }
void kse_reach(const char*) {}
void kse_out(uint64_t v) { bool t = heapTrack; heapTrack = false; outs.push_back(v); heapTrack = t; }
int64_t kse_param(const char* n, int64_t d) { auto i = prm.find(n); return i == prm.end() ? d : i->second; }
uint64_t kse_concrete(uint64_t v) { return v; }
bool kse_fork(bool c) { return c; }
void kse_print(const char* w, uint64_t v) { fprintf(stderr, "%s %llu\n", w, (unsigned long long)v); }
void kse_printn(const char* p, size_t n) { fwrite(p, 1, n, stderr); fputc('\n', stderr); }
uint64_t kse_heap_count() { return 0; }
uint64_t kse_alloc_seq() { return heapSeq; }
uint64_t kse_heap_since(uint64_t s) { uint64_t c = 0; for (auto& e : heapTab) if (e.p && e.seq > s) c++; return c; }
bool kse_valid(const void* p, size_t n) { return !n || !__asan_region_is_poisoned((void*)p, n); }
uint64_t kse_obj_size(const void*) { return 0; }
struct Fib { ucontext_t c; void (*f)(void*); void* a; void* stk; void* fake; char eh[16]; };
static Fib fibs[64]; static int nfib = 1, curFib; struct EhG { void* a; unsigned b; }; extern "C" EhG* __cxa_get_globals();
static const void* mainBot; static size_t mainSz;
// each fiber stands for a thread: thread-local variables of the program are swapped on every switch
#if !__has_feature(address_sanitizer)
#include <link.h>
static char* tlsAt; static size_t tlsN, tlsInit; static const void* tlsImg; static char* tlsCopy[64];
static int tlsFind(dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tlsAt = (char*)i->dlpi_tls_data; tlsN = i->dlpi_phdr[k].p_memsz; tlsInit = i->dlpi_phdr[k].p_filesz; tlsImg = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); } return 1; }
static void tlsSwap(int from, int to) { static bool once; if (!once) { once = true; dl_iterate_phdr(tlsFind, nullptr); } if (!tlsAt || !tlsN) return; if (!tlsCopy[from]) tlsCopy[from] = (char*)mmap(nullptr, tlsN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(tlsCopy[from], tlsAt, tlsN);
  if (tlsCopy[to]) memcpy(tlsAt, tlsCopy[to], tlsN); else { memset(tlsAt, 0, tlsN); memcpy(tlsAt, tlsImg, tlsInit); } }
bool kse_thread_local(const void* p) { return tlsAt && (char*)p >= tlsAt && (char*)p < tlsAt + tlsN; }
#else
bool kse_thread_local(const void*) { return false; }
static void tlsSwap(int, int) {}
#endif
static void fibEntry(int id) { __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr); fibs[id].f(fibs[id].a); mismatch("fiber returned"); }
int kse_fiber_new(void (*f)(void*), void* a) { int id = nfib++; Fib& b = fibs[id]; getcontext(&b.c); size_t n = 1 << 20; b.stk = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); b.c.uc_stack.ss_sp = b.stk; b.c.uc_stack.ss_size = n; b.c.uc_link = nullptr; b.f = f; b.a = a; makecontext(&b.c, (void (*)())fibEntry, 1, id); return id; }
void kse_fiber_switch(int id) { if (id == curFib) return; int me = curFib; curFib = id; EhG* g = __cxa_get_globals(); memcpy(fibs[me].eh, g, 16); memcpy(g, fibs[id].eh, 16); tlsSwap(me, id);
  if (!mainBot) { pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* p; pthread_attr_getstack(&at, &p, &mainSz); mainBot = p; pthread_attr_destroy(&at); }
  __sanitizer_start_switch_fiber(&fibs[me].fake, id ? fibs[id].stk : mainBot, id ? (1 << 20) : mainSz); swapcontext(&fibs[me].c, &fibs[id].c); __sanitizer_finish_switch_fiber(fibs[me].fake, nullptr, nullptr); }
int kse_fiber_self() { return curFib; }
}
static int runOne(const char* fn, int argc, char** argv) {
  FILE* f = fopen(fn, "r"); if (!f) return 9; char nm[512]; unsigned w; unsigned long long v; tape.clear(); pos = 0; outs.clear();
  while (fscanf(f, "%511s %u %llu", nm, &w, &v) == 3) { if (!strcmp(nm, "param")) continue; if (nm[0] == '@') { prm[nm + 1] = (int64_t)v; continue; } tape.push_back({nm, w, v}); }
  fclose(f); std::set_terminate([] { printf("KSE-VIOLATION std::terminate\n"); fflush(stdout); _exit(78); });
  heapTrack = true; harness(); fin(); return 0;
}
// usage: replay TAPE...   one child process per tape
int main(int argc, char** argv) { __libc_single_threaded = 0; // as in a program with threads

  if (argc == 2) return runOne(argv[1], argc, argv);
  for (int i = 1; i < argc; i++) { printf("TAPE %s\n", argv[i]); fflush(stdout); pid_t p = fork(); if (!p) { alarm(20); _exit(runOne(argv[i], argc, argv)); } int st; waitpid(p, &st, 0); printf("EXIT %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); fflush(stdout); }
}
