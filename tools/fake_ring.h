// Stand-in for the kernel side of io_uring in demonstrations: one ring, operations decided by a callback.
#pragma once
#include <liburing.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <functional>
#include <mutex>
#include <vector>
#include <poll.h>
#include <unistd.h>
#include <sys/stat.h>
static std::function<int(const io_uring_sqe&)> fk_act;                                                  // result of an operation (called when it completes)
static std::function<size_t(const std::vector<io_uring_sqe>&)> fk_pick = [](const auto&) { return (size_t)0; };  // which operation completes next
static std::function<void(const io_uring_sqe&)> fk_taken = [](const io_uring_sqe&) {};
static int fk_init_error, fk_batch = 1; static bool fk_ring_live; static io_uring* fk_u; static io_uring_sqe* fk_sqe; static io_uring_cqe* fk_cqe; static unsigned fk_n, fk_w[8]; static std::vector<io_uring_sqe> fk_fl, fk_wake;
static bool fk_is_eventfd(int fd) { char p[64], b[64] = {}; snprintf(p, sizeof p, "/proc/self/fd/%d", fd); if (readlink(p, b, sizeof b - 1) < 0) return false; return strstr(b, "eventfd"); }
extern "C" {
int io_uring_queue_init_params(unsigned n, io_uring* u, io_uring_params* p) { memset(u, 0, sizeof *u); if (fk_init_error) return -fk_init_error; unsigned m = 1; while (m < n) m <<= 1; n = m; fk_n = n; fk_u = u; fk_sqe = (io_uring_sqe*)calloc(n, sizeof *fk_sqe); fk_cqe = (io_uring_cqe*)calloc(2 * n, sizeof *fk_cqe); memset(fk_w, 0, sizeof fk_w);
  u->sq.khead = &fk_w[0]; u->sq.ktail = &fk_w[1]; u->sq.kflags = &fk_w[2]; u->sq.kdropped = &fk_w[3]; u->sq.sqes = fk_sqe; u->sq.ring_mask = n - 1; u->sq.ring_entries = n; u->sq.kring_mask = &u->sq.ring_mask; u->sq.kring_entries = &u->sq.ring_entries;
  u->cq.khead = &fk_w[4]; u->cq.ktail = &fk_w[5]; u->cq.kflags = &fk_w[6]; u->cq.koverflow = &fk_w[7]; u->cq.cqes = fk_cqe; u->cq.ring_mask = 2 * n - 1; u->cq.ring_entries = 2 * n; u->cq.kring_mask = &u->cq.ring_mask; u->cq.kring_entries = &u->cq.ring_entries; u->flags = p->flags; u->ring_fd = 1000; fk_ring_live = true; return 0; }
void io_uring_queue_exit(io_uring*) { if (!fk_ring_live) { printf("ring torn down twice or never set up\n"); _exit(3); } fk_ring_live = false; free(fk_sqe); free(fk_cqe); }
int io_uring_register_iowq_aff(io_uring*, size_t, const cpu_set_t*) { return 0; }
int io_uring_submit(io_uring* u) { int k = 0; for (; fk_w[0] != u->sq.sqe_tail; fk_w[0]++, k++) { io_uring_sqe s = fk_sqe[fk_w[0] & (fk_n - 1)]; if (s.opcode == IORING_OP_READ && fk_is_eventfd(s.fd)) fk_wake.push_back(s); else { fk_fl.push_back(s); fk_taken(s); } } u->sq.sqe_head = fk_w[1] = fk_w[0]; return k; }
static void fk_post(const io_uring_sqe& s, int res) { io_uring_cqe* c = &fk_cqe[fk_w[5] & (2 * fk_n - 1)]; c->user_data = s.user_data; c->res = res; c->flags = 0; __atomic_store_n(&fk_w[5], fk_w[5] + 1, __ATOMIC_RELEASE); }
int io_uring_submit_and_wait(io_uring* u, unsigned want) { int n = io_uring_submit(u); int done = 0; if (!want) return n;
  while (!done) { if (!fk_fl.empty()) { for (int b = 0; b < fk_batch && !fk_fl.empty(); b++) { size_t i = fk_pick(fk_fl); io_uring_sqe s = fk_fl[i]; fk_fl.erase(fk_fl.begin() + (long)i); fk_post(s, fk_act(s)); done++; } }
    if (!fk_wake.empty()) { pollfd p{fk_wake[0].fd, POLLIN, 0}; if (poll(&p, 1, done ? 0 : -1) > 0) { io_uring_sqe s = fk_wake[0]; fk_wake.erase(fk_wake.begin()); int r = (int)::read(s.fd, (void*)s.addr, s.len); fk_post(s, r); done++; } } else if (!done) { printf("the worker sleeps with nothing to wake it\n"); _exit(4); } }
  return n; }
}
