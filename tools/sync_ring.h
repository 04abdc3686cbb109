// Stand-in for the kernel side of io_uring in demonstrations: any number of rings, operations carried out with the
// ordinary system calls when they complete; hooks choose results, the order of completions and what a power failure loses.
#pragma once
#include <liburing.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <climits>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <filesystem>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include <poll.h>
#include <unistd.h>
#include <sys/stat.h>
struct FkRing { unsigned n = 0, w[8] = {}; std::vector<io_uring_sqe> sqe, fl, wake; std::vector<io_uring_cqe> cqe; };
static std::recursive_mutex fk_m; static std::map<io_uring*, FkRing*> fk_rings;
static std::function<int(const io_uring_sqe&)> fk_hook = [](const io_uring_sqe&) { return INT_MIN; };                // a result other than INT_MIN replaces the operation
static std::function<size_t(const std::vector<io_uring_sqe>&)> fk_pick = [](const auto&) { return (size_t)0; };     // which operation of a ring completes next
static std::map<std::string, std::string> fk_synced;                                                               // what a power failure leaves of each file
static std::string fk_path(int fd) { char p[64], b[4096] = {}; snprintf(p, sizeof p, "/proc/self/fd/%d", fd); if (readlink(p, b, sizeof b - 1) < 0) return ""; return b; }
static std::string fk_content(const std::string& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
static int fk_e(long r) { return r < 0 ? -errno : (int)r; }
static int fk_do(const io_uring_sqe& s) {
  int h = fk_hook(s); if (h != INT_MIN) return h;
  switch (s.opcode) {
    case IORING_OP_OPENAT: return fk_e(openat(s.fd, (const char*)s.addr, (int)s.open_flags | O_CLOEXEC, (mode_t)s.len));
    case IORING_OP_CLOSE: return fk_e(close(s.fd));
    case IORING_OP_READ: return fk_e(s.off == ~0ull ? read(s.fd, (void*)s.addr, s.len) : pread(s.fd, (void*)s.addr, s.len, (off_t)s.off));
    case IORING_OP_WRITE: return fk_e(s.off == ~0ull ? write(s.fd, (void*)s.addr, s.len) : pwrite(s.fd, (void*)s.addr, s.len, (off_t)s.off));
    case IORING_OP_FSYNC: { std::lock_guard l(fk_m); fk_synced[fk_path(s.fd)] = fk_content(fk_path(s.fd)); return 0; }
    case IORING_OP_FALLOCATE: return fk_e(fallocate(s.fd, (int)s.len, (off_t)s.off, (off_t)s.addr));
    case IORING_OP_UNLINKAT: return fk_e(unlinkat(s.fd, (const char*)s.addr, (int)s.unlink_flags));
    case 55: return fk_e(ftruncate(s.fd, (off_t)s.off));
    default: printf("operation %d is not modelled\n", s.opcode); _exit(5); } }
// the power fails: every file below the directory goes back to what was synced of it (its size is metadata and stays)
static void fk_power_failure(const std::string& dir, const std::string& saved) { namespace fs = std::filesystem; fs::remove_all(saved); fs::copy(dir, saved, fs::copy_options::recursive);
  for (auto& e : fs::recursive_directory_iterator(saved)) if (e.is_regular_file()) { auto orig = fs::canonical(dir).string() + e.path().string().substr(saved.size()); auto i = fk_synced.find(orig); std::string c = i == fk_synced.end() ? "" : i->second; c.resize(e.file_size()); std::ofstream(e.path(), std::ios::binary | std::ios::trunc) << c; } }
extern "C" {
int io_uring_queue_init_params(unsigned n, io_uring* u, io_uring_params* p) { memset(u, 0, sizeof *u); unsigned m = 1; while (m < n) m <<= 1; n = m; auto* r = new FkRing; r->n = n; r->sqe.resize(n); r->cqe.resize(2 * n);
  u->sq.khead = &r->w[0]; u->sq.ktail = &r->w[1]; u->sq.kflags = &r->w[2]; u->sq.kdropped = &r->w[3]; u->sq.sqes = r->sqe.data(); u->sq.ring_mask = n - 1; u->sq.ring_entries = n; u->sq.kring_mask = &u->sq.ring_mask; u->sq.kring_entries = &u->sq.ring_entries;
  u->cq.khead = &r->w[4]; u->cq.ktail = &r->w[5]; u->cq.kflags = &r->w[6]; u->cq.koverflow = &r->w[7]; u->cq.cqes = r->cqe.data(); u->cq.ring_mask = 2 * n - 1; u->cq.ring_entries = 2 * n; u->cq.kring_mask = &u->cq.ring_mask; u->cq.kring_entries = &u->cq.ring_entries; u->flags = p->flags; u->ring_fd = 1000;
  std::lock_guard l(fk_m); fk_rings[u] = r; return 0; }
void io_uring_queue_exit(io_uring* u) { std::lock_guard l(fk_m); auto i = fk_rings.find(u); if (i == fk_rings.end()) { printf("ring torn down twice or never set up\n"); _exit(3); } delete i->second; fk_rings.erase(i); }
int io_uring_register_iowq_aff(io_uring*, size_t, const cpu_set_t*) { return 0; }
static FkRing* fk_of(io_uring* u) { std::lock_guard l(fk_m); return fk_rings.at(u); }
int io_uring_submit(io_uring* u) { auto* r = fk_of(u); int k = 0; for (; r->w[0] != u->sq.sqe_tail; r->w[0]++, k++) { io_uring_sqe s = r->sqe[r->w[0] & (r->n - 1)]; if (s.opcode == IORING_OP_READ && fk_path(s.fd).find("eventfd") != std::string::npos) r->wake.push_back(s); else r->fl.push_back(s); } u->sq.sqe_head = r->w[1] = r->w[0]; return k; }
static void fk_post(FkRing* r, const io_uring_sqe& s, int res) { io_uring_cqe* c = &r->cqe[r->w[5] & (2 * r->n - 1)]; c->user_data = s.user_data; c->res = res; c->flags = 0; __atomic_store_n(&r->w[5], r->w[5] + 1, __ATOMIC_RELEASE); }
int io_uring_submit_and_wait(io_uring* u, unsigned want) { int n = io_uring_submit(u), done = 0; auto* r = fk_of(u); if (!want) return n;
  while (!done) { if (!r->fl.empty()) { size_t i = fk_pick(r->fl); io_uring_sqe s = r->fl[i]; r->fl.erase(r->fl.begin() + (long)i); fk_post(r, s, fk_do(s)); done++; }
    if (!r->wake.empty()) { pollfd p{r->wake[0].fd, POLLIN, 0}; if (poll(&p, 1, done ? 0 : -1) > 0) { io_uring_sqe s = r->wake[0]; r->wake.erase(r->wake.begin()); int q = (int)::read(s.fd, (void*)s.addr, s.len); fk_post(r, s, q); done++; } } else if (!done) { printf("the worker sleeps with nothing to wake it\n"); _exit(4); } }
  return n; }
}
