// C16/C17: address handling and descriptor ownership of the network helpers, against a modelled C library.
#include "kse.h"
#include <netdb.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <kio/net/net.h>
#include <kio/net/socket.h>
#include <bitcask/include/file_handle.h>
#define KSE_FDS_IMPL
#include "fds.h"
using namespace kio; using namespace kio::net;
// ---- model of the C library.  Address texts are 'v4:' / 'v6:' followed by one letter pair per byte: any bijection
// between address texts and addresses stands for the real one.
static int ptonErr;
extern "C" int inet_pton(int af, const char* src, void* dst) noexcept {
  const char* tag = af == AF_INET ? "v4:" : af == AF_INET6 ? "v6:" : nullptr; if (!tag) { errno = EAFNOSUPPORT; return -1; } size_t n = af == AF_INET ? 4 : 16; if (strncmp(src, tag, 3)) return 0; src += 3; unsigned char b[16];
  for (size_t i = 0; i < n; i++) { unsigned h = (unsigned char)src[2 * i]; if (h < 'a' || h > 'p') return 0; unsigned l = (unsigned char)src[2 * i + 1]; if (l < 'a' || l > 'p') return 0; b[i] = (unsigned char)((h - 'a') << 4 | (l - 'a')); } if (src[2 * n]) return 0; memcpy(dst, b, n); return 1; }
extern "C" const char* inet_ntop(int af, const void* src, char* dst, socklen_t size) noexcept {
  if (af != AF_INET && af != AF_INET6) { errno = EAFNOSUPPORT; return nullptr; } size_t n = af == AF_INET ? 4 : 16; if (size < 2 * n + 4) { errno = ENOSPC; return nullptr; } auto* p = (const unsigned char*)src; memcpy(dst, af == AF_INET ? "v4:" : "v6:", 3); for (size_t i = 0; i < n; i++) { dst[3 + 2 * i] = (char)('a' + (p[i] >> 4)); dst[4 + 2 * i] = (char)('a' + (p[i] & 15)); } dst[3 + 2 * n] = 0; return dst; }
static int liveInfo; static sockaddr_storage dnsAddr; static int dnsFam; static char dnsHost[16], dnsService[16]; static bool dnsHasService;
extern "C" int getaddrinfo(const char* h, const char* s, const addrinfo*, addrinfo** out) {
  strncpy(dnsHost, h, 15); dnsHasService = s; if (s) strncpy(dnsService, s, 15); if (kse_bool("dnsfail")) return EAI_NONAME;
  addrinfo* a = new addrinfo{}; dnsFam = kse_bool("dns6") ? AF_INET6 : AF_INET; memset(&dnsAddr, 0, sizeof dnsAddr); dnsAddr.ss_family = dnsFam; kse_sym(dnsFam == AF_INET ? (void*)&((sockaddr_in*)&dnsAddr)->sin_addr : (void*)&((sockaddr_in6*)&dnsAddr)->sin6_addr, dnsFam == AF_INET ? 4 : 16, "dnsaddr");
  unsigned port = 0; if (s) for (const char* q = s; *q; q++) port = port * 10 + (*q - '0'); (dnsFam == AF_INET ? ((sockaddr_in*)&dnsAddr)->sin_port : ((sockaddr_in6*)&dnsAddr)->sin6_port) = htons((uint16_t)port);
  a->ai_family = dnsFam; a->ai_addrlen = dnsFam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); a->ai_addr = (sockaddr*)new char[a->ai_addrlen]; memcpy(a->ai_addr, &dnsAddr, a->ai_addrlen); liveInfo++; *out = a; return 0; }
extern "C" void freeaddrinfo(addrinfo* a) noexcept { kse_assert(a && liveInfo > 0, "resolver result freed once"); liveInfo--; delete[] (char*)a->ai_addr; delete a; }
static int failErr; static int sysFail(const char* n) { if (kse_bool(n)) { failErr = (int)kse_range(1, 133, "errno"); errno = failErr; return 1; } return 0; }
static bool isListening; static const sockaddr* boundTo; static sockaddr_storage boundAddr; static socklen_t boundLen; static int backlogGot;
extern "C" int socket(int fam, int type, int) noexcept { if (sysFail("socket fails")) return -1; return kfd_open(fam << 8 | (type & 15)); }
extern "C" int setsockopt(int fd, int, int, const void*, socklen_t) noexcept { kfd_use(fd, "setsockopt"); return sysFail("setsockopt fails") ? -1 : 0; }
extern "C" int bind(int fd, const sockaddr* a, socklen_t n) noexcept { kfd_use(fd, "bind"); if (sysFail("bind fails")) return -1; memcpy(&boundAddr, a, n); boundLen = n; return 0; }
extern "C" int listen(int fd, int b) noexcept { kfd_use(fd, "listen"); if (sysFail("listen fails")) return -1; isListening = true; backlogGot = b; return 0; }
extern "C" int fcntl(int fd, int cmd, ...) { kfd_use(fd, "fcntl"); return sysFail("fcntl fails") ? -1 : 0; }
extern "C" int fcntl64(int fd, int cmd, ...) { kfd_use(fd, "fcntl"); return sysFail("fcntl fails") ? -1 : 0; }

static void roundTrip() {
  bool six = kse_bool("six"); unsigned char raw[16]; size_t n = six ? 16 : 4; kse_sym(raw, n, "addr"); uint16_t port = (uint16_t)kse_u32("port"); char text[64]; inet_ntop(six ? AF_INET6 : AF_INET, raw, text, sizeof text); std::string host(text);
  auto r = resolve_address(host, port); kse_assert(r.has_value(), "every address text is accepted"); int fam = six ? AF_INET6 : AF_INET;
  kse_assert(r->family == fam && r->addr.ss_family == fam, "the family is the one the text denotes"); kse_assert(r->addrlen == (six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "the address length is that of the family");
  if (six) { auto* a = (sockaddr_in6*)&r->addr; kse_assert(!memcmp(&a->sin6_addr, raw, 16) && a->sin6_port == htons(port) && a->sin6_scope_id == 0 && a->sin6_flowinfo == 0, "the address is the one written"); kse_reach("v6"); } else { auto* a = (sockaddr_in*)&r->addr; kse_assert(!memcmp(&a->sin_addr, raw, 4) && a->sin_port == htons(port), "the address is the one written"); for (unsigned char c : a->sin_zero) kse_assert(c == 0, "padding is zero"); kse_reach("v4"); }
  SocketAddress s = *r; kse_assert(s.populate_from_storage(), "an address can be read back"); kse_assert(s.ip == host && s.port == port && s.family == fam, "text and port read back equal what was written");
  kse_assert(s.as_sockaddr()->sa_family == fam && s.as_sockaddr_mut() == (sockaddr*)&s.addr, "the generic view denotes the same address"); }
static void rawRead() { // arbitrary storage contents
  SocketAddress s; kse_sym(&s.addr, 28, "storage"); s.addrlen = (socklen_t)kse_u32("len"); s.ip = "old"; s.port = 7; sa_family_t fam = s.addr.ss_family; bool ok = s.populate_from_storage();
  if (s.addrlen == 0) { kse_assert(!ok, "an empty address is refused"); kse_reach("empty"); return; } kse_assert(ok == (fam == AF_INET || fam == AF_INET6), "exactly the IP families are accepted");
  if (ok) { char t[64]; if (fam == AF_INET) { auto* a = (sockaddr_in*)&s.addr; inet_ntop(AF_INET, &a->sin_addr, t, 64); kse_assert(s.port == ntohs(a->sin_port), "port"); } else { auto* a = (sockaddr_in6*)&s.addr; inet_ntop(AF_INET6, &a->sin6_addr, t, 64); kse_assert(s.port == ntohs(a->sin6_port), "port"); } kse_assert(s.ip == t && s.family == fam, "text, port and family are those of the structure"); kse_reach("read"); } else kse_reach("unknown family"); }
static void dns() { // texts that are not addresses
  static const char* const hosts[] = {"", "host", "v4:abab", "v6:aa", "v4:ababababa", "v4:abababaz", "x"}; const char* h = hosts[kse_choose(0, 6, "host")]; uint16_t port = (uint16_t)kse_concrete(kse_range(0, 3, "portk")); static const uint16_t ports[] = {0, 80, 8080, 65535}; port = ports[port];
  auto r = resolve_address(h, port); kse_assert(liveInfo == 0, "the resolver's result is freed"); kse_assert(!strncmp(dnsHost, h, 15), "the resolver is asked for the given name");
  if (!r) { kse_assert(!r.error().is_success() && r.error().value != 0, "a text that is no address is refused with an error"); kse_reach("refused"); } else { kse_assert(r->family == dnsFam && r->addrlen == (dnsFam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) && !memcmp(&r->addr, &dnsAddr, r->addrlen), "a resolved name yields the resolver's address"); SocketAddress s = *r; kse_assert(s.populate_from_storage() && s.port == port, "with the requested port"); kse_reach("resolved"); } }
static void server() { // descriptor ownership of the server helper, with every system call failing or not
  uint16_t port = (uint16_t)kse_u32("port"); int backlog = (int)kse_u32("backlog"); bool bad = kse_bool("badname"); failErr = 0;
  auto r = create_tcp_server_socket(bad ? "no" : "v4:aaaaaaab", port, backlog);
  if (r) { kse_assert(kfd_live() == 1 && kfd_isOpen(*r), "success hands over exactly one open descriptor"); kse_assert(isListening && backlogGot == backlog && boundLen != 0, "the socket is listening"); kse_reach("listening"); ::close(*r); }
  else { kse_assert(kfd_live() == 0, "a helper that fails leaves no descriptor open"); kse_assert(!r.error().is_success(), "a failure is not a success"); if (failErr) kse_assert(r.error() == Error::from_errno(failErr), "the failing call's error is reported"); kse_reach(failErr ? "failed" : "bad name"); }
  kse_assert(liveInfo == 0, "the resolver's result is freed"); kfd_end(); }
static void tcpfd() { failErr = 0; int fam = kse_bool("six") ? AF_INET6 : AF_INET; auto r = create_tcp_fd(fam); if (!r) { kse_assert(r.error() == Error::from_errno(failErr) && failErr && kfd_live() == 0, "the failing call's error is reported"); kse_reach("failed"); return; } kse_assert(kfd_isOpen(*r) && kfd_tag(*r) == (fam << 8 | SOCK_STREAM), "the descriptor is a stream socket of the family"); auto o = set_tcp_fd_options(*r); failErr = 0; auto q = set_fd_server_options(*r); kse_assert(q.has_value() == (failErr == 0) && (q || q.error() == Error::from_errno(failErr)), "option errors are reported"); kse_assert(kfd_live() == 1, "option helpers do not own the descriptor"); ::close(*r); kfd_end(); kse_reach("made"); }
template <class H> static int relse(H& h) { return h.release(); }
template <class H> static void raii() { // any sequence of moves, assignments, releases on three owners
  { int next = 0; H a(kse_bool("a") ? kfd_open(1) : -1), b(kse_bool("b") ? kfd_open(2) : -1); H c(-1); int own[3] = {a.get(), b.get(), -1}; H* h[3] = {&a, &b, &c}; int ops = (int)kse_param("ops", 3); int released[8]; int nr = 0;
    for (int k = 0; k < ops; k++) { int i = (int)kse_choose(0, 2, "i"), j = (int)kse_choose(0, 2, "j"); switch (kse_choose(0, 4, "op")) {
        case 0: *h[i] = std::move(*h[j]); if (i != j) { own[i] = own[j]; own[j] = -1; } break;
        case 1: { H t(std::move(*h[j])); kse_assert(t.get() == own[j], "a move hands over the descriptor"); if (kse_bool("back")) { *h[i] = std::move(t); int v = own[j]; own[j] = -1; own[i] = v; } else own[j] = -1; break; }
        case 2: { int f = h[i]->release(); kse_assert(f == own[i], "release hands over the descriptor"); own[i] = -1; if (f >= 0) released[nr++] = f; break; }
        case 3: if constexpr (requires { h[i]->reset(3); }) { int f = kse_bool("empty") ? -1 : kfd_open(9); h[i]->reset(f); own[i] = f; } else { int f = kfd_open(9); *h[i] = H(f); own[i] = f; } break;
        case 4: { H t(kfd_open(7)); if (kse_bool("swap")) { std::swap(t, *h[i]); int f = h[i]->get(); kse_assert(t.get() == own[i], "swap"); own[i] = f; } break; } }
      int live = nr; for (int q = 0; q < 3; q++) { kse_assert(h[q]->get() == own[q] && h[q]->is_valid() == (own[q] >= 0), "each owner holds exactly its descriptor"); if (own[q] >= 0) { kse_assert(kfd_isOpen(own[q]), "an owned descriptor stays open"); live++; } } kse_assert(kfd_live() == live, "exactly the owned descriptors are open"); }
    for (int q = 0; q < nr; q++) { kse_assert(kfd_isOpen(released[q]), "a released descriptor stays open"); ::close(released[q]); } (void)next; }
  kse_assert(kfd_live() == 0, "every descriptor is closed with its last owner"); kfd_end(); kse_reach("raii"); }
void harness() { switch (kse_param("mode", 0)) { case 0: roundTrip(); break; case 1: rawRead(); break; case 2: dns(); break; case 3: server(); break; case 4: tcpfd(); break; case 5: raii<Socket>(); break; case 6: raii<bitcask::FileHandle>(); break;
  case 7: { int f = kse_bool("valid") ? kfd_open(1) : -1; { FDGuard g(f); kse_assert(g.get() == f, "holds"); if (kse_bool("move")) { FDGuard t(std::move(g)); kse_assert(t.get() == f && g.get() == -1, "moved"); } } kse_assert(kfd_live() == 0, "closed once"); kfd_end(); kse_reach("guard"); break; } } }
