// C18: the TLS stream, listener, connector and context over a modelled OpenSSL: every outcome of every library call.
#include "kworld.h"
#include <cstring>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <poll.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <kio/tls/stream.h>
#include <kio/tls/listener.h>
#include <kio/tls/context.h>
using namespace kio::tls; using namespace kio::net;
enum { SOCK = 70 };
// ---- the TLS library
struct bio_st { int dummy; };
struct ssl_st { int fd = -1; bool connecting = false, accepting = false, hs = false, fatal = false, tx = false, rx = false, sentClose = false; int ret = 0, err = 0, pend = 0, hsCalls = 0, shCalls = 0, want = 0; bool sni = false, host = false, hostFailed = false; bio_st w, r; };
struct ssl_ctx_st { int refs = 1; bool minv = false, ktls = false, cert = false, key = false, matched = false, ca = false, verify = false, list = false, suites = false; int vmode = -1; long minWant = 0; };
static int liveSsl, liveCtx, mode, maxCalls, maxShut, plain; static ssl_st* last; static bool ctxSet, stopped, libFailed, pollFailed, shErr, shOne; static int forcedFail; static TlsRole role; static const char* hostWant; static unsigned char pendData[4];
static int live(const ssl_st* s) { kse_assert(s && kfd_tag_of(s->fd) == SOCK, "the TLS library works on a descriptor that is open and the stream's"); return 0; }
static int sys() { return (int)kse_range(2200, 4095, "errno"); }
extern "C" {
SSL* SSL_new(SSL_CTX* c) { kse_assert(c && c->refs > 0, "a live context"); if (mode == 1 && kse_choose(0, 1, "SSL_new fails")) { libFailed = true; return nullptr; } last = new ssl_st; liveSsl++; return last; }
void SSL_free(SSL* s) { if (!s) return; liveSsl--; kse_assert(liveSsl >= 0, "each TLS object is released once"); if (last == s) last = nullptr; delete s; }
int SSL_set_fd(SSL* s, int fd) { kse_assert(kfd_tag_of(fd) == SOCK, "an open socket"); if (mode == 1 && kse_choose(0, 1, "SSL_set_fd fails")) { libFailed = true; return 0; } s->fd = fd; return 1; }
long SSL_ctrl(SSL* s, int cmd, long l, void* p) { if (cmd == SSL_CTRL_SET_TLSEXT_HOSTNAME) { kse_assert(hostWant && !strcmp((const char*)p, hostWant), "the host name asked for is the caller's"); if (kse_choose(0, 1, "host name refused")) { libFailed = s->hostFailed = true; return 0; } s->sni = true; return 1; } return 1; }
uint64_t SSL_set_options(SSL*, uint64_t o) { return o; }
int SSL_set1_host(SSL* s, const char* h) { kse_assert(hostWant && !strcmp(h, hostWant), "the host name verified is the caller's"); if (kse_choose(0, 1, "host name refused")) { libFailed = s->hostFailed = true; return 0; } s->host = true; return 1; }
static int step(SSL* s) {
  live(s); kse_assert(!s->fatal, "the library is not used after a fatal error"); if (s->hs) { s->ret = 1; s->err = SSL_ERROR_NONE; return 1; }
  int k = ++s->hsCalls >= maxCalls ? 5 + 0 : 6; kse_assert(s->hsCalls <= maxCalls, "bounded"); int c = plain ? 0 : (int)kse_choose(0, k - 1 + (s->hsCalls >= maxCalls ? 0 : 1), "handshake"); errno = 0; s->want = 0;
  switch (c) { case 0: s->hs = true; s->tx = kse_choose(0, 1, "offload of sending"); s->rx = kse_choose(0, 1, "offload of receiving"); if (s->tx && s->rx) s->pend = (int)kse_choose(0, kse_param("pend", 0), "bytes already decrypted"); s->ret = 1; s->err = SSL_ERROR_NONE; return 1;
    case 1: s->err = SSL_ERROR_ZERO_RETURN; break; case 2: s->err = SSL_ERROR_SYSCALL; errno = kse_choose(0, 1, "errno given") ? sys() : 0; break; case 3: s->err = SSL_ERROR_SSL; break; case 4: s->err = SSL_ERROR_WANT_X509_LOOKUP; break; case 5: s->err = SSL_ERROR_WANT_READ; s->want = POLLIN; break; default: s->err = SSL_ERROR_WANT_WRITE; s->want = POLLOUT; break; }
  if (!s->want) { libFailed = true; s->fatal = true; } return s->ret = c == 1 || c == 2 ? (int)kse_choose(0, 1, "ret") - 1 : -1; }
int SSL_connect(SSL* s) { kse_assert(role == TlsRole::Client, "a client connects"); if (hostWant && !s->hostFailed) kse_assert(s->sni && s->host, "the peer's name is verified from the first message on"); return step(s); }
int SSL_accept(SSL* s) { kse_assert(role == TlsRole::Server, "a server accepts"); return step(s); }
int SSL_do_handshake(SSL* s) { return step(s); }
int SSL_get_error(const SSL* s, int ret) { kse_assert(ret == s->ret, "the error asked for is that of the last call"); return s->err; }
int SSL_shutdown(SSL* s) {
  live(s); kse_assert(s->hs, "no shutdown inside the handshake"); kse_assert(!s->fatal, "the library is not used after a fatal error"); errno = 0; s->sentClose = true; s->want = 0; s->shCalls++; kse_assert(s->shCalls <= 64, "a shutdown ends although the peer does not answer");
  int c = s->shCalls > maxShut ? 1 : (int)kse_choose(0, 6, "shutdown"); s->ret = -1; switch (c) { case 0: shOne = true; s->err = 0; return s->ret = 1; case 1: s->err = SSL_ERROR_SYSCALL; s->want = POLLIN; return s->ret = 0; case 2: s->err = SSL_ERROR_WANT_READ; s->want = POLLIN; break; case 3: s->err = SSL_ERROR_WANT_WRITE; s->want = POLLOUT; break; case 4: s->err = SSL_ERROR_ZERO_RETURN; break; case 5: s->err = SSL_ERROR_SYSCALL; s->fatal = true; break; default: s->err = SSL_ERROR_SSL; s->fatal = shErr = true; } return -1; }
void SSL_set_shutdown(SSL*, int) {} int SSL_get_shutdown(const SSL*) { return 0; } void SSL_set_quiet_shutdown(SSL*, int) {}
int SSL_pending(const SSL* s) { kse_assert(s != nullptr, "a TLS object"); return s->hs ? s->pend : 0; } int SSL_has_pending(const SSL* s) { return s->hs && s->pend > 0; } int SSL_is_init_finished(const SSL* s) { return s->hs; }
int SSL_read(SSL* s, void* p, int n) { live(s); kse_assert(s->hs && s->tx && s->rx, "no application data before a completed, offloaded handshake"); kse_assert(s->pend > 0, "the library is read only while it holds data"); if (n <= 0) { s->ret = -1; s->err = SSL_ERROR_SSL; return -1; } int k = n < s->pend ? n : s->pend; memcpy(p, pendData, k); s->pend -= k; return s->ret = k; }
int SSL_write(SSL* s, const void*, int n) { live(s); kse_assert(s->hs && s->tx && s->rx, "no application data before a completed, offloaded handshake"); return n; }
const char* SSL_get_version(const SSL*) { return "TLSv1.3"; } const SSL_CIPHER* SSL_get_current_cipher(const SSL*) { return nullptr; } const char* SSL_CIPHER_get_name(const SSL_CIPHER*) { return "(NONE)"; } long SSL_get_verify_result(const SSL*) { return X509_V_OK; }
BIO* SSL_get_wbio(const SSL* s) { return const_cast<BIO*>(&s->w); } BIO* SSL_get_rbio(const SSL* s) { return const_cast<BIO*>(&s->r); }
long BIO_ctrl(BIO* b, int cmd, long, void*) { if (last && b == &last->w && cmd == BIO_CTRL_GET_KTLS_SEND) return last->tx; if (last && b == &last->r && cmd == BIO_CTRL_GET_KTLS_RECV) return last->rx; return last && last->hs && last->tx && last->rx ? 0 : (long)kse_choose(0, 1, "unrelated control"); }
unsigned long ERR_get_error(void) { return 0; } unsigned long ERR_peek_error(void) { return 0; } void ERR_clear_error(void) {} void ERR_error_string_n(unsigned long, char* b, size_t n) { if (n) *b = 0; }
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; } const char* OpenSSL_version(int) { return "OpenSSL"; } const SSL_METHOD* TLS_server_method(void) { return (const SSL_METHOD*)1; } const SSL_METHOD* TLS_client_method(void) { return (const SSL_METHOD*)2; }
// ---- contexts
static bool cf(const char* what) { if (mode != 2 || forcedFail) return false; if (kse_choose(0, 1, what)) { forcedFail = 1; return true; } return false; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD* m) { kse_assert(m == (const SSL_METHOD*)(role == TlsRole::Server ? 1 : 2), "the context is for the role asked for"); if (cf("no context")) return nullptr; liveCtx++; return new ssl_ctx_st; }
void SSL_CTX_free(SSL_CTX* c) { if (!c) return; liveCtx--; kse_assert(liveCtx >= 0, "each context is released once"); delete c; }
long SSL_CTX_ctrl(SSL_CTX* c, int cmd, long v, void*) { if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) { if (cf("version refused")) return 0; c->minv = true; c->minWant = v; return 1; } return 1; }
uint64_t SSL_CTX_set_options(SSL_CTX* c, uint64_t o) { if (o & SSL_OP_ENABLE_KTLS) c->ktls = true; return o; } int SSL_CTX_set_num_tickets(SSL_CTX*, size_t) { return 1; }
int SSL_CTX_use_certificate_chain_file(SSL_CTX* c, const char* f) { kse_assert(!strcmp(f, "/cert"), "the caller's certificate"); if (cf("certificate refused")) return (int)kse_choose(0, 1, "code") - 1; c->cert = true; return 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* f, int) { kse_assert(!strcmp(f, "/key"), "the caller's key"); if (cf("key refused")) return 0; c->key = true; return 1; } int SSL_CTX_check_private_key(const SSL_CTX* c) { if (cf("key does not match")) return 0; const_cast<SSL_CTX*>(c)->matched = true; return 1; }
int SSL_CTX_load_verify_locations(SSL_CTX* c, const char* f, const char* d) { kse_assert(f || d, "something to trust"); if (cf("trust refused")) return 0; c->ca = true; return 1; } int SSL_CTX_set_default_verify_paths(SSL_CTX*) { return mode == 2 ? (int)kse_choose(0, 1, "system store") : 1; }
void SSL_CTX_set_verify(SSL_CTX* c, int m, SSL_verify_cb) { c->verify = true; c->vmode = m; } int SSL_CTX_set_cipher_list(SSL_CTX* c, const char* s) { kse_assert(!strcmp(s, "A"), "the caller's ciphers"); if (cf("ciphers refused")) return 0; c->list = true; return 1; } int SSL_CTX_set_ciphersuites(SSL_CTX* c, const char* s) { kse_assert(!strcmp(s, "B"), "the caller's suites"); if (cf("suites refused")) return 0; c->suites = true; return 1; } int SSL_CTX_set_alpn_protos(SSL_CTX*, const unsigned char* p, unsigned n) { kse_assert(kse_valid(p, n), "protocol names"); return 0; }
// ---- the C library
int inet_pton(int af, const char* s, void* d) noexcept { if (af != AF_INET || strcmp(s, "127.0.0.1")) return 0; memset(d, 1, 4); return 1; }
const char* inet_ntop(int af, const void* src, char* dst, socklen_t) noexcept { size_t n = af == AF_INET ? 4 : 16; auto* p = (const unsigned char*)src; for (size_t i = 0; i < n; i++) { dst[2 * i] = (char)('a' + (p[i] >> 4)); dst[2 * i + 1] = (char)('a' + (p[i] & 15)); } dst[2 * n] = 0; return dst; }
int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**) { return EAI_NONAME; } void freeaddrinfo(addrinfo*) noexcept {}
int socket(int, int, int) noexcept { if (mode == 1 && kse_choose(0, 1, "socket fails")) { libFailed = true; errno = sys(); return -1; } return kfd_make(SOCK); } int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; } int bind(int, const sockaddr*, socklen_t) noexcept { return 0; } int listen(int, int) noexcept { return 0; }
}
static bool ready(const ssl_st* s) { return s && s->hs && s->tx && s->rx; }
// ---- a stop request from another thread
static bool stopAsked, stopMade, over, closing; static bool asked(void*) { return stopAsked || over; } static bool made(void*) { return stopMade; }
static void stopper(void*) { ks_wait(asked, nullptr, "nothing to stop"); if (stopAsked) { (void)W->request_stop(); stopMade = true; } }
static void halt() { stopped = stopAsked = true; ks_wait(made, nullptr, "the stop request"); }
// ---- the kernel
static unsigned char got[4]; static int clientFd = -1, lfd = -1; static unsigned char peerAddr[4]; static uint16_t peerPort; static bool peer6; static int ioCount; static int fdOf;
extern "C" int kur_result(const io_uring_sqe* s) {
  switch (s->opcode) {
    case IORING_OP_POLL_ADD: kse_assert(last && s->fd == last->fd && last->want && s->poll32_events == (uint32_t)last->want, "a poll waits for what the library asked for"); if (last->shCalls > maxShut) return last->want; switch (kse_choose(0, kse_param("stop", 1) && !closing && !stopped ? 2 : 1, "poll")) { case 0: return last->want; case 1: pollFailed = true; return -sys(); default: halt(); return last->want; }
    case IORING_OP_CLOSE: close(s->fd); return 0;
    case IORING_OP_ACCEPT: { if (kse_choose(0, 1, "accept fails")) { pollFailed = true; return -sys(); } peer6 = kse_choose(0, 1, "family"); auto* a = (sockaddr_storage*)s->addr; memset(a, 0, sizeof(sockaddr_in6)); a->ss_family = peer6 ? AF_INET6 : AF_INET; if (peer6) { memcpy(&((sockaddr_in6*)a)->sin6_addr, peerAddr, 4); ((sockaddr_in6*)a)->sin6_port = htons(peerPort); } else { memcpy(&((sockaddr_in*)a)->sin_addr, peerAddr, 4); ((sockaddr_in*)a)->sin_port = htons(peerPort); } *(socklen_t*)s->off = peer6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); return clientFd = kfd_make(SOCK); }
    case IORING_OP_CONNECT: clientFd = s->fd; if (kse_choose(0, 1, "connect fails")) { pollFailed = true; return -sys(); } return 0; }
  bool data = s->opcode == IORING_OP_READ || s->opcode == IORING_OP_WRITE || s->opcode == IORING_OP_SPLICE || s->opcode == IORING_OP_SENDMSG || s->opcode == IORING_OP_READV || s->opcode == IORING_OP_WRITEV; kse_assert(data, "an operation of the stream"); ioCount++;
  kse_assert(ready(last), "no application data before a completed, offloaded handshake"); if (s->opcode == IORING_OP_SPLICE) return -EPIPE; kse_assert(s->fd == fdOf, "data moves on the stream's own descriptor");
  if (kse_choose(0, 1, "fails")) return -sys(); if (s->opcode == IORING_OP_READ) { kse_assert(last->pend == 0, "bytes already decrypted come first"); kse_assert(s->len > 0, "room"); *(unsigned char*)s->addr = got[0]; return 1; } return (int)s->len; }
static char buf[4]; static TlsContext* ctx_;
template <class S> static Task<void> app(S& s, bool before) {
  int k = (int)kse_choose(0, 4, "application"); int ioBefore = ioCount; buf[0] = buf[1] = 'x'; bool ok = false; int n = 0; bool err = false;
  switch (k) { case 0: co_return; case 1: { int had = ready(last) ? last->pend : 0; auto r = co_await s.async_read(std::span<char>(buf, 2)); ok = r.has_value(); if (ok) { n = *r; if (had) { kse_assert(n == (had < 2 ? had : 2) && ioCount == ioBefore, "bytes already decrypted are delivered"); for (int i = 0; i < n; i++) kse_assert((unsigned char)buf[i] == pendData[i], "as they are"); kse_reach("already decrypted"); } else kse_assert(n == 1 && (unsigned char)buf[0] == got[0], "the kernel's bytes are delivered"); } break; }
    case 2: { auto r = co_await s.async_write(std::span<const char>(buf, 2)); ok = r.has_value(); break; } case 3: { auto r = co_await s.async_write_exact(std::span<const char>(buf, 2)); ok = r.has_value(); break; } default: { auto r = co_await s.async_sendfile(1000, 0, 5); ok = r.has_value(); kse_assert(!ok, "a broken pipe is reported"); err = true; } }
  if (!ready(last)) { kse_assert(!ok && ioCount == ioBefore, "application data is refused before a completed, offloaded handshake"); kse_reach("refused"); } else { kse_assert(ioCount > ioBefore || ok, "application data is accepted once the handshake is complete"); kse_reach("data"); } }
static Task<void> hand(TlsStream& s) {
  auto r = co_await s.async_handshake(hostWant ? hostWant : ""); bool ok = ready(last) && !(last->hostFailed);
  kse_assert(!r || ok, "a handshake succeeds only if the library completed it and both directions are offloaded"); kse_assert(r || !ok, "a completed, offloaded handshake is reported as one");
  kse_assert(s.is_ktls_active() == ok, "offload is reported as it is"); kse_assert(!s.is_handshake_done() || last->hs, "a handshake is done when the library says so"); kse_reach(ok ? "handshake" : libFailed ? "handshake failed" : stopped ? "stopped" : pollFailed ? "poll failed" : "no offload"); }
static Task<void> leave(TlsStream& s) {
  int k = kse_param("leave", 1) ? (int)kse_choose(0, stopped ? 1 : 4, "leaving") : 0; shErr = shOne = false; if (k == 0) co_return; // dropped
  if (k == 1 || k == 2) { int calls = last->shCalls; auto r = co_await s.async_shutdown(); if (shErr) kse_assert(!r, "a failed shutdown is reported"); if (shOne) kse_assert(r.has_value(), "a complete shutdown is reported as one"); if (last->shCalls > calls) kse_reach("shut down"); if (last->fatal) co_return; }
  if (k >= 2) { if (stopped) co_return; int fd = s.fd(); closing = true; auto r = co_await s.async_close(); if (stopped) co_return; kse_assert(r.has_value() && s.fd() < 0 && kfd_tag_of(fd) < 0, "closing closes the descriptor"); kse_reach("closed"); if (k == 4) { bool f = last->fatal; if (!f) { (void)co_await s.async_shutdown(); (void)co_await s.async_close(); } } } }
static DetachedTask stream(Worker& w) {
  int fd = kfd_make(SOCK); fdOf = fd; bool use = kse_param("use", 1), before = use && kse_choose(0, 1, "used before"), twice = kse_param("twice", 0) && kse_choose(0, 1, "asked twice"), moved = use && kse_choose(0, 1, "moved");
  if (kse_param("stop", 1) && kse_choose(0, 1, "stopped before")) { halt(); }
  { TlsStream s(w, Socket(fd), *ctx_, role); if (before) { co_await app(s, true); (void)co_await s.async_shutdown(); }
    co_await hand(s); if (twice && !last->fatal && !last->hostFailed && !stopped && !pollFailed) co_await hand(s);
    if (moved) { SocketAddress a; a.ip = "p"; a.port = 9; s.set_peer_addr(std::move(a)); bool k = s.is_ktls_active(), d = s.is_handshake_done(); TlsStream t(std::move(s)); kse_assert(t.is_ktls_active() == k && t.is_handshake_done() == d && t.fd() == fd && s.fd() < 0, "a moved stream is the stream"); kse_assert(t.peer_ip() == "p" && t.peer_port() == 9, "a moved stream keeps its peer's address"); kse_assert(!s.is_ktls_active(), "a moved-from stream is none"); if (use && !stopped) co_await app(t, false); if (!last->fatal) co_await leave(t); }
    else { if (use && !stopped) co_await app(s, false); if (!last->fatal) co_await leave(s); } }
  kse_assert(liveSsl == 0, "the TLS object is released"); nDone++; }
static DetachedTask listener(Worker& w) {
  try {
    if (role == TlsRole::Server) { ListenerConfig c; c.bind_address = "127.0.0.1"; auto l = TlsListener::bind(w, c, *ctx_); if (!l) kse_reach("not listening"); else { auto r = co_await l->accept(); if (r) { kse_assert(ready(last) && r->fd() == clientFd && r->is_ktls_active(), "only a completed, offloaded handshake yields a stream"); char t[40]; unsigned char a[16] = {}; memcpy(a, peerAddr, 4); inet_ntop(peer6 ? AF_INET6 : AF_INET, a, t, 40); kse_assert(r->peer_ip() == t && r->peer_port() == peerPort, "an accepted stream carries its peer's address"); kse_reach("accepted"); } else { kse_assert(libFailed || pollFailed || stopped || !ready(last), "a handshake fails for a reason"); kse_assert(clientFd < 0 || kfd_tag_of(clientFd) < 0, "a connection that failed is closed"); kse_reach("not accepted"); } } }
    else { TlsConnector c(w, *ctx_); auto r = co_await c.connect("127.0.0.1", 443); if (r) { kse_assert(ready(last) && r->fd() == clientFd && r->is_ktls_active() && last->host, "only a completed, offloaded handshake with the peer verified yields a stream"); kse_reach("connected"); } else { kse_assert(clientFd < 0 || kfd_tag_of(clientFd) < 0, "a connection that failed is closed"); kse_reach("not connected"); } }
  } catch (const std::runtime_error&) { kse_assert(libFailed, "an exception has a reason"); kse_assert(clientFd < 0 || kfd_tag_of(clientFd) < 0, "a connection that failed is closed"); kse_reach("exception"); }
  kse_assert(liveSsl == 0, "the TLS object is released"); nDone++; }
static void context() {
  TlsConfig c; bool cert = kse_choose(0, 1, "certificate"), key = kse_choose(0, 1, "key"); int ca = (int)kse_choose(0, 2, "trust"), ci = (int)kse_choose(0, 3, "ciphers"); if (cert) c.cert_path = "/cert"; if (key) c.key_path = "/key"; if (ca == 1) c.ca_cert_path = "/ca"; if (ca == 2) c.ca_dir_path = "/cadir"; if (ci & 1) c.cipher_suites = "A"; if (ci & 2) c.ciphersuites_tls13 = "B"; c.min_version = kse_choose(0, 1, "version") ? TlsVersion::TLS_1_3 : TlsVersion::TLS_1_2; c.verify_mode = (int)kse_range(0, 7, "verify"); if (kse_choose(0, 1, "alpn")) c.alpn_protocols = {"h2", "http/1.1"}; uint64_t seq = kse_alloc_seq();
  { auto r = role == TlsRole::Server ? TlsContext::make_server(c) : TlsContext::make_client(c); if (r) { ssl_ctx_st* x = r->get(); kse_assert(!forcedFail && x, "a context is handed out only if every setting was accepted"); kse_assert(x->minv && x->minWant == (c.min_version == TlsVersion::TLS_1_3 ? TLS1_3_VERSION : TLS1_2_VERSION), "the least version is the one asked for"); kse_assert(x->verify && x->vmode == c.verify_mode, "the peer is verified as asked"); kse_assert(x->ktls, "offload is asked for"); kse_assert(x->cert == cert && x->key == key && (!key || x->matched), "certificate and key are loaded and belong together"); kse_assert(role == TlsRole::Client || (cert && key), "a server has a certificate and a key"); kse_assert(x->ca == (ca > 0) && x->list == (bool)(ci & 1) && x->suites == (bool)(ci & 2), "trust and ciphers are set as asked"); kse_assert(liveCtx == 1, "one context"); TlsContext m(std::move(*r)); kse_assert(m.get() == x && !r->get(), "a moved context is the context"); if (kse_choose(0, 1, "moved back")) { *r = std::move(m); kse_assert(r->get() == x && !m.get(), "a moved context is the context"); } kse_reach("context"); } else { kse_assert(forcedFail || (role == TlsRole::Server && !(cert && key)), "a context is refused for a reason"); kse_assert(liveCtx == 0, "a context that is refused is released"); kse_reach("refused"); } }
  kse_assert(liveCtx == 0, "each context is released once"); kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kse_reach("end"); }
void harness() {
  mode = (int)kse_param("mode", 0); maxCalls = (int)kse_param("calls", 2); maxShut = (int)kse_param("shut", 2); plain = (int)kse_param("plain", 0); role = kse_choose(0, 1, "role") ? TlsRole::Server : TlsRole::Client; if (mode == 2) { context(); return; }
  users = 1; kur = {1, 1}; ks_config(0, 0, 0, 0); kse_sym(pendData, 4, "decrypted"); kse_sym(got, 4, "data"); kse_sym(peerAddr, 4, "peer"); peerPort = (uint16_t)kse_u32("port"); if (role == TlsRole::Client && mode == 1) hostWant = "127.0.0.1"; else if (role == TlsRole::Client && kse_choose(0, 1, "host name")) hostWant = "h.org";
  uint64_t seq = kse_alloc_seq(); { TlsConfig c; c.cert_path = "/cert"; c.key_path = "/key"; auto r = role == TlsRole::Server ? TlsContext::make_server(c) : TlsContext::make_client(c); kse_assert(r.has_value(), "a context"); ctx_ = &*r;
    int t = kse_param("stop", 1) ? ks_spawn(stopper, nullptr, "stopper") : -1; runWorker(smallConfig(), [](Worker& w) { if (mode == 0) stream(w).detach(); else listener(w).detach(); }, [](Worker&) { over = true; }); if (t >= 0) ks_join(t); }
  kse_assert(liveCtx == 0, "the context is released"); kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); }
