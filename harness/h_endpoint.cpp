// C15: the metrics endpoint answers well-formed requests and survives any other.
#include "kworld.h"
#include <cstring>
#include <arpa/inet.h>
#include <netdb.h>
#include <kio/metrics/server.h>
#include <kio/metrics/registry.h>
extern "C" int inet_pton(int af, const char* s, void* d) noexcept { if (af != AF_INET || strcmp(s, "127.0.0.1")) return 0; memset(d, 1, 4); return 1; }
extern "C" const char* inet_ntop(int, const void*, char*, socklen_t) noexcept { kse_unsupported("inet_ntop"); }
extern "C" int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**) { return EAI_NONAME; } extern "C" void freeaddrinfo(addrinfo*) noexcept {}
extern "C" int socket(int, int, int) noexcept { return kfd_make(50); } extern "C" int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
extern "C" int bind(int, const sockaddr*, socklen_t) noexcept { return 0; } extern "C" int listen(int, int) noexcept { return 0; }
enum { MAXQ = 8200, MAXR = 6144 };
struct Client { int fd = -1; unsigned char q[MAXQ]; int n = 0, cuts[3] = {}, ncut = 0, at = 0, fin = 0; bool accepted = false, failWrite = false; char r[MAXR]; int rn = 0; bool werr = false; int closedAt = 0; };
static Client C_[2]; static int clients, acceptFails, mode, open_; static uint64_t total; static size_t step_; static unsigned char fill; static bool big, throws; static int reads;
static Client* of(int fd) { for (int i = 0; i < clients; i++) if (C_[i].accepted && kfd_tag_of(fd) == 100 + i) return &C_[i]; return nullptr; }
__attribute__((no_sanitize("thread"))) static bool closed(Client& c) { return c.accepted && c.closedAt; }
__attribute__((no_sanitize("thread"))) static bool served(void*) { for (int i = 0; i < clients; i++) if (!C_[i].accepted || kfd_tag_of(C_[i].fd) == 100 + i) return false; return true; }
extern "C" bool kur_ready(const io_uring_sqe* s) { if (s->opcode == IORING_OP_ACCEPT) { if (acceptFails) return true; for (int i = 0; i < clients; i++) if (!C_[i].accepted) return true; return false; } Client* c = of(s->fd); return !(open_ && s->opcode == IORING_OP_READ && c && c->at >= c->n); }
extern "C" int kur_result(const io_uring_sqe* s) {
  if (s->opcode == IORING_OP_ACCEPT) { kse_assert(kfd_tag_of(s->fd) == 50, "connections are accepted on the listening socket"); if (acceptFails) { acceptFails--; return -(int)kse_range(2200, 4095, "errno"); } for (int i = 0; i < clients; i++) if (!C_[i].accepted) { C_[i].accepted = true; return C_[i].fd = kfd_make(100 + i); } }
  Client* c = of(s->fd); kse_assert(c && kfd_tag_of(s->fd) >= 100, "operations go to open connections"); 
  if (s->opcode == IORING_OP_READ) {
    kse_assert(kse_valid((void*)s->addr, s->len), "the whole offered buffer is valid"); kse_assert(s->len > 0, "there is room to read into"); kse_assert(c->rn == 0, "nothing is read after the answer");
    if (big) { kse_assert(s->len <= 65536, "the buffer is bounded"); size_t k = step_ ? (step_ < s->len ? step_ : s->len) : s->len; memset((void*)s->addr, fill, k); total += k; kse_assert(total <= 65536, "what is buffered for one request is bounded"); return (int)k; }
    if (c->at >= c->n) return c->fin == 1 ? -(int)kse_range(2200, 4095, "errno") : 0;
    int end = step_ && c->at + (int)step_ < c->n ? c->at + (int)step_ : c->n; for (int i = 0; i < c->ncut; i++) if (c->cuts[i] > c->at) { end = c->cuts[i]; break; } int k = end - c->at; if (k > (int)s->len) k = (int)s->len; memcpy((void*)s->addr, c->q + c->at, k); c->at += k; reads++; return k; }
  kse_assert(s->opcode == IORING_OP_WRITE && kse_valid((void*)s->addr, s->len), "answers come from valid memory"); if (c->failWrite && kse_choose(0, 1, "write error")) { c->werr = true; return -(int)kse_range(2200, 4095, "errno"); }
  int k = (int)s->len; if (c->failWrite && k > 1 && kse_choose(0, 1, "short write")) k = 1; kse_assert(c->rn + k <= MAXR, "the answer has the expected size"); memcpy(c->r + c->rn, (void*)s->addr, k); c->rn += k; return k; }
struct Src final : IMetricsCollector { void Collect(MetricSnapshot& s) override { if (throws) throw std::runtime_error("collector"); auto& a = s.BuildFamily("kio_a_total", "A", MetricType::Counter); a.Add({{"id", "7"}}, 3); } };
static int findEnd(Client& c) { for (int i = 0; i + 4 <= c.at; i++) if (c.q[i] == '\r' && c.q[i + 1] == '\n' && c.q[i + 2] == '\r' && c.q[i + 3] == '\n') return i; return -1; }
static void judge(Client& c, const std::string& page) {
  int e = findEnd(c); if (e < 0) { kse_assert(c.rn == 0, "an incomplete request is not answered"); kse_reach("incomplete"); return; }
  if (c.werr) { kse_reach("answer cut"); return; }
  int l = 0; while (!(c.q[l] == '\r' && c.q[l + 1] == '\n')) l++; int s1 = 0; while (s1 < l && c.q[s1] != ' ') s1++; int s2 = s1 + 1; while (s2 < l && c.q[s2] != ' ') s2++;
  bool get = false, met = false, health = false; if (s1 < l && s2 < l) { get = s1 == 3 && c.q[0] == 'G' && c.q[1] == 'E' && c.q[2] == 'T'; auto is = [&](const char* w) { int n = (int)strlen(w); if (s2 - s1 - 1 != n) return false; for (int i = 0; i < n; i++) if (c.q[s1 + 1 + i] != (unsigned char)w[i]) return false; return true; }; met = get && is("/metrics"); health = get && (is("/") || is("/health")); }
  kse_assert(c.rn > 16 && !memcmp(c.r, "HTTP/1.1 ", 9), "a complete request is answered"); int st = 0; for (int i = 9; i < 12; i++) { kse_assert((unsigned)(c.r[i] - '0') < 10, "a status code"); st = st * 10 + (c.r[i] - '0'); } kse_assert(c.r[12] == ' ', "a reason follows");
  int h = 0; while (h + 4 <= c.rn && memcmp(c.r + h, "\r\n\r\n", 4)) h++; kse_assert(h + 4 <= c.rn, "the answer's headers end"); int cl = -1; for (int i = 0; i < h; i++) if (!memcmp(c.r + i, "\r\nContent-Length: ", 18)) { kse_assert(cl < 0, "one length"); cl = 0; i += 18; while (c.r[i] != '\r') { kse_assert((unsigned)(c.r[i] - '0') < 10, "a length"); cl = cl * 10 + (c.r[i++] - '0'); } i--; }
  kse_assert(cl == c.rn - h - 4, "the body has exactly the announced length");
  if (met && !throws) { kse_assert(st == 200, "a request for the metrics is served"); kse_assert((size_t)cl == page.size() && !memcmp(c.r + h + 4, page.data(), page.size()), "the body is the metrics page"); kse_reach("metrics"); }
  else if (health) { kse_assert(st == 200, "the health page is served"); kse_reach("health"); } else { kse_assert(st >= 400 && st < 600, "anything else is refused with an error status"); kse_reach("refused"); } }
static const char* T[] = {"GET /metrics HTTP/1.1\r\nHost: h\r\n\r\n", "GET / H\r\n\r\n", "GET /health H\r\n\r\n", "POST /metrics H\r\n\r\n", "GET /metrics\r\n\r\n", "GET\r\n\r\n", "\r\n\r\n", "GET /metric H\r\n\r\n", "GET  /metrics H\r\n\r\n", "GET /metricsx H\r\n\r\nGET /metrics H\r\n\r\n", "A: b\r\n\r", "GET /metrics H\r\n\r\n"};
static void request(Client& c) {
  if (mode == 7) { static const int len[] = {1023, 1024, 1025, 2047, 2048, 4096, 8190, 8191, 8192}; static const size_t st[] = {0, 700, 1024}; const char* t = kse_choose(0, 1, "path") ? "GET /metrics H\r\nX: " : "GET /health H\r\nX: "; c.n = len[kse_choose(0, 8, "length")]; step_ = st[kse_choose(0, 2, "step")]; memset(c.q, 'x', c.n); memcpy(c.q, t, strlen(t)); memcpy(c.q + c.n - 4, "\r\n\r\n", 4); c.q[c.n - 5] = kse_u8("byte"); if (kse_choose(0, 1, "cut")) { c.cuts[0] = c.n - (int)kse_choose(1, 4, "place"); c.ncut = 1; } c.fin = 0; return; }
  if (mode == 1) { int n = (int)kse_choose(0, kse_param("sym", 3), "symbolic bytes"); for (int i = 0; i < n; i++) c.q[c.n++] = kse_u8("byte"); for (char x : {'\r', '\n', '\r', '\n'}) c.q[c.n++] = x; c.fin = 0; return; }
  int t = (int)kse_choose(0, mode == 2 || clients > 1 ? 0 : 11, "template"); if (mode == 2) t = 11; c.n = (int)strlen(T[t]); memcpy(c.q, T[t], c.n);
  if (mode == 2) { int p = (int)kse_choose(0, c.n - 1, "hole"); int w = (int)kse_param("holes", 1); for (int i = p; i < p + w && i < c.n; i++) c.q[i] = kse_u8("byte"); if (kse_choose(0, 1, "cut")) { c.cuts[0] = p + 1; c.ncut = 1; } c.fin = 0; return; }
  if (clients > 1) { static const int few[] = {0, 3, 9, 10}; t = few[kse_choose(0, 3, "which")]; c.n = (int)strlen(T[t]); memcpy(c.q, T[t], c.n); c.fin = 0; return; } int m = (int)kse_param("cuts", 1); for (int i = 0; i < m; i++) { int lo = i ? c.cuts[i - 1] : 0; c.cuts[c.ncut++] = (int)kse_choose(lo, c.n, "cut"); } c.fin = (int)kse_choose(0, 1, "end"); if (kse_choose(0, 1, "closes early")) c.n = c.cuts[0]; }
static void life();
void harness() {
  mode = (int)kse_param("mode", 0); if (mode == 5) { life(); return; } if (mode == 6) { open_ = 1; }
  clients = (int)kse_param("clients", 1); big = mode == 3; throws = mode == 0 && clients == 1 && kse_choose(0, 1, "collector throws"); acceptFails = mode == 0 && clients == 1 ? (int)kse_choose(0, 1, "accept error") : 0; MetricsRegistry<>::Instance().Register(std::make_shared<Src>()); std::string page; if (!throws) page = MetricsRegistry<>::Instance().Scrape();
  for (int i = 0; i < clients; i++) { if (big) { static const size_t st[] = {0, 700, 1023, 4096}; step_ = st[kse_choose(0, 3, "step")]; fill = kse_u8("fill"); kse_assume(fill != '\r'); } else if (mode == 6) { C_[i].n = (int)kse_choose(0, 1, "sent"); C_[i].q[0] = 'G'; } else request(C_[i]); C_[i].failWrite = mode == 4; }
  kur = {clients > 1, 2}; ks_config((int)kse_param("pre", 0), 0, 0, 0);
  { MetricsServer s("127.0.0.1", 9090, smallConfig()); s.start(); s.start(); if (open_) { struct H { static bool waiting(void*) { return C_[0].accepted && C_[0].at >= C_[0].n && kur_inflight() == 2; } }; ks_wait(H::waiting, nullptr, "the client"); } else ks_wait(served, nullptr, "the clients"); s.stop(); if (kse_choose(0, 1, "stopped twice")) s.stop(); }
  if (open_) { kfd_assert_closed(); kse_reach("end"); return; }
  kse_assert(ks_alive() == 0, "every thread is joined"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "the ring is torn down"); if (big) { kse_assert(C_[0].rn == 0 || C_[0].rn > 12, ""); kse_reach("too large"); } else for (int i = 0; i < clients; i++) judge(C_[i], page); kse_reach("end"); }
// start, stop and destruction in every order
static void life() {
  ks_config((int)kse_param("pre", 1), 0, 0, 0); kur = {0, 1}; clients = 0; int k = (int)kse_choose(0, 4, "history");
  { MetricsServer s("127.0.0.1", 9090, smallConfig()); if (k == 1) s.stop(); if (k >= 2) s.start(); if (k == 3) { s.stop(); s.stop(); } if (k == 4) { s.start(); s.stop(); } }
  kse_assert(ks_alive() == 0, "every thread is joined"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "the ring is torn down"); kse_reach(k < 2 ? "never started" : "stopped"); kse_reach("end"); }
