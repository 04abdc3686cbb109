#include "kuring.h"
#include <cstring>
#include <cerrno>
#include <cstdlib>
#include <new>
#include <stdlib.h>
#include <sys/eventfd.h>
#include <sys/utsname.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
extern "C" {
KurCfg kur; int kfd_next_fail;
__attribute__((weak)) bool kur_ready(const io_uring_sqe*) { return true; }
__attribute__((weak)) void kur_submitted(const io_uring_sqe*) {}
// ---- descriptors
enum { B = 40, N = 48 };
struct Fd { bool open, ev; int tag; uint64_t count; void* sync; }; static Fd F[N];
int kfd_make(int tag) { for (int i = 0; i < N; i++) if (!F[i].open) { F[i] = Fd{}; F[i].open = true; F[i].tag = tag; return B + i; } kse_bound("too many descriptors"); }
static Fd* fd(int n) { return n >= B && n < B + N && F[n - B].open ? &F[n - B] : nullptr; }
int kfd_tag_of(int n) { Fd* f = fd(n); return f ? f->tag : -1; }
int kur_live_fds() { int n = 0; for (auto& f : F) n += f.open; return n; }
void kfd_assert_closed() { for (auto& f : F) kse_assert(!f.open, "every descriptor is closed"); }
int close(int n) { ks_point(); Fd* f = fd(n); kse_assert(f, "close() of a descriptor that is not open or not the library's"); f->open = false; return 0; }
int eventfd(unsigned init, int) { if (kfd_next_fail) { errno = kfd_next_fail; kfd_next_fail = 0; return -1; } int n = kfd_make(1); fd(n)->ev = true; fd(n)->count = init; return n; }
ssize_t write(int n, const void* p, size_t len) { ks_point(); Fd* f = fd(n); kse_assert(f && f->ev && len == 8, "write() goes to an open eventfd"); ks_sync_out(&f->sync); f->count += *(const uint64_t*)p; ks_point(); return 8; }
int pipe(int* p) { if (kfd_next_fail) { errno = kfd_next_fail; kfd_next_fail = 0; return -1; } p[0] = kfd_make(2); p[1] = kfd_make(3); return 0; }
int fcntl(int n, int, ...) { kse_assert(fd(n), "fcntl() on an open descriptor"); return 0; }
__attribute__((weak)) int uname(struct utsname* u) noexcept { memset(u, 0, sizeof *u); strcpy(u->release, "6.8.0"); return 0; }
__attribute__((weak)) int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return 0; }
__attribute__((weak)) int io_uring_register_iowq_aff(struct io_uring*, size_t, const cpu_set_t*) { return 0; }
// ---- rings
enum { MAXQ = 64, MAXR = 4, MAXF = 64 };
struct Ring { io_uring* u; unsigned n, sqHead, sqTail, sqFlags, sqDropped, cqHead, cqTail, cqFlags, cqOver, cqMask; io_uring_sqe sqe[MAXQ]; io_uring_cqe cqe[MAXQ * 2]; io_uring_sqe fl[MAXF]; bool waiting; int nf; };
static Ring* R[MAXR]; static int owner[MAXR];
static Ring* ring(io_uring* u) { for (auto* r : R) if (r && r->u == u && u->ring_fd >= 0) return r; kse_fail("an io_uring call on a ring that is not set up"); }
int io_uring_queue_init_params(unsigned entries, struct io_uring* u, struct io_uring_params* p) {
  memset(u, 0, sizeof *u); if (kur.failInit) { int e = kur.failInit; kur.failInit = 0; return -e; } unsigned n = 1; while (n < entries) n <<= 1; if (n > MAXQ) kse_bound("ring with more than 64 entries");
  Ring* r = (Ring*)::operator new(sizeof(Ring)); memset(r, 0, sizeof *r); int k = 0; while (k < MAXR && R[k]) k++; if (k == MAXR) kse_bound("more than 4 rings"); R[k] = r; r->u = u; r->n = n; r->cqMask = 2 * n - 1; owner[k] = ks_self();
  for (unsigned i = 0; i < n; i++) r->sqe[i].opcode = 0xEE;
  u->sq.khead = &r->sqHead; u->sq.ktail = &r->sqTail; u->sq.kflags = &r->sqFlags; u->sq.kdropped = &r->sqDropped; u->sq.sqes = r->sqe; u->sq.ring_mask = n - 1; u->sq.ring_entries = n; u->sq.kring_mask = &u->sq.ring_mask; u->sq.kring_entries = &u->sq.ring_entries;
  u->cq.khead = &r->cqHead; u->cq.ktail = &r->cqTail; u->cq.kflags = &r->cqFlags; u->cq.koverflow = &r->cqOver; u->cq.cqes = r->cqe; u->cq.ring_mask = r->cqMask; u->cq.ring_entries = 2 * n; u->cq.kring_mask = &u->cq.ring_mask; u->cq.kring_entries = &u->cq.ring_entries;
  u->flags = p->flags; u->features = p->features = 0; u->ring_fd = u->enter_ring_fd = kfd_make(9); return 0; }
void io_uring_queue_exit(struct io_uring* u) { Ring* r = ring(u); Fd* f = fd(u->ring_fd); kse_assert(f && f->tag == 9, "the ring's descriptor is open when the ring is torn down"); f->open = false; for (auto& x : R) if (x == r) x = nullptr; ::operator delete(r); }
int kur_rings() { int n = 0; for (auto* r : R) n += r != nullptr; return n; }
static bool isWake(const io_uring_sqe* s) { Fd* f = s->opcode == IORING_OP_READ ? fd(s->fd) : nullptr; return f && f->ev; }
int kur_inflight() { int c = 0; for (auto* r : R) if (r) for (int i = 0; i < r->nf; i++) c += !isWake(&r->fl[i]); return c; }
static bool ready(const io_uring_sqe* s) { if (isWake(s)) return fd(s->fd)->count > 0; return kur_ready(s); }
static bool anyReady(void* p);
bool kur_idle() { for (auto* r : R) if (r && (!r->waiting || anyReady(r))) return false; return true; }
static bool anyReady(void* p) { Ring* r = (Ring*)p; for (int i = 0; i < r->nf; i++) if (ready(&r->fl[i])) return true; return r->cqHead != r->cqTail; }
// the kernel reads pathnames, time specifications, vectors and message headers while taking the request
static uint64_t touched; static void look(uint64_t a, size_t n) { for (size_t i = 0; i < n; i++) touched += *(volatile unsigned char*)(a + i); }
static void taken(const io_uring_sqe* s) {
  if (isWake(s)) return; switch (s->opcode) { case IORING_OP_TIMEOUT: look(s->addr, 16); break; case IORING_OP_OPENAT: case IORING_OP_UNLINKAT: { for (const char* p = (const char*)s->addr; *(volatile const char*)p; p++) ; break; } case IORING_OP_READV: case IORING_OP_WRITEV: look(s->addr, (size_t)s->len * 16); break; case IORING_OP_SENDMSG: look(s->addr, 56); break; case IORING_OP_CONNECT: look(s->addr, (size_t)(s->off < 16 ? s->off : 16)); break; }
  kur_submitted(s); }
int io_uring_submit(struct io_uring* u) {
  Ring* r = ring(u); for (int k = 0; k < MAXR; k++) if (R[k] == r) kse_assert(owner[k] == ks_self(), "only the worker's own thread submits to its ring");
  if (kur.failSubmit) { int e = kur.failSubmit; kur.failSubmit = 0; return -e; }
  int n = 0; for (; r->sqHead != u->sq.sqe_tail; r->sqHead++, n++) { io_uring_sqe* s = &r->sqe[r->sqHead & (r->n - 1)];
    kse_assert(s->opcode != 0xEE, "every submitted entry was filled in for an operation"); if (r->nf == MAXF) kse_bound("too many operations in flight");
    for (int i = 0; i < r->nf; i++) kse_assert(r->fl[i].user_data != s->user_data, "no two operations in flight carry the same identifier");
    r->fl[r->nf++] = *s; memset((void*)s, 0xEE, sizeof *s); taken(&r->fl[r->nf - 1]); }
  r->sqTail = u->sq.sqe_head = r->sqHead; return n; }
static void complete(Ring* r, int i) { io_uring_sqe s = r->fl[i]; for (int k = i; k + 1 < r->nf; k++) r->fl[k] = r->fl[k + 1]; r->nf--; int res; if (isWake(&s)) { Fd* f = fd(s.fd); kse_assert(s.len == 8, "an eventfd is read as one counter"); ks_sync_in(&f->sync); *(uint64_t*)s.addr = f->count; f->count = 0; res = 8; } else res = kur_result(&s);
  io_uring_cqe* c = &r->cqe[r->cqTail & r->cqMask]; if (r->cqTail - r->cqHead > r->cqMask) kse_bound("completion queue overflow"); memset((void*)c, 0, sizeof *c); c->user_data = s.user_data; c->res = res; r->cqTail++; }
int io_uring_submit_and_wait(struct io_uring* u, unsigned want) {
  Ring* r = ring(u); int n = io_uring_submit(u); if (n < 0) return n; if (kur.failWait) { int e = kur.failWait; kur.failWait = 0; return -e; } if (!want) return n;
  ks_point(); r->waiting = true; ks_wait(anyReady, r, "io_uring wait"); r->waiting = false; 
  for (int k = 0; k < (kur.maxBatch ? kur.maxBatch : 1); k++) { int c[MAXF], m = 0; for (int i = 0; i < r->nf; i++) if (ready(&r->fl[i])) { c[m++] = i; if (!kur.anyOrder) break; } if (!m) break; bool first = r->cqHead == r->cqTail; uint64_t pick = m == 1 && first ? 0 : kse_choose(0, first ? m - 1 : m, "completion"); if ((int)pick == m) break; complete(r, c[pick]); }
  return n; }
#ifdef KSE_SYMBOLIC
long strtol(const char* s, char** e, int base) noexcept { while (*s == ' ') s++; bool neg = false; const char* q = s; if (*q == '-' || *q == '+') neg = *q++ == '-'; long v = 0; const char* d = q; while (*q >= '0' && *q <= '9' && q - d < 18) v = v * 10 + (*q++ - '0'); (void)base; if (e) *e = (char*)(q == d ? s : q); return neg ? -v : v; }
#endif
}
