# planted bugs for C18 (TLS)
from seedlib import seed
import sys, os
T=os.path.dirname(os.path.abspath(__file__))
from seeds_d import FILES
ONLY=set(sys.argv[1:]); FL="-D__GCC_DESTRUCTIVE_SIZE=64 -D__GCC_CONSTRUCTIVE_SIZE=64"
FS=dict(FILES); FS["fake_ssl.h"]=open(T+"/fake_ssl.h").read()
S='kio/tls/stream.cpp'; C='kio/tls/context.cpp'; LI='kio/tls/listener.cpp'
SRC=(S,C,LI,'kio/core/worker.cpp','kio/net/net.cpp')
from seeds_c import H as HC
H=HC+'''
#include "fake_ssl.h"
#include <kio/tls/stream.h>
#include <kio/tls/listener.h>
using namespace kio::tls; static TlsConfig tc() { TlsConfig c; c.cert_path = "c"; c.key_path = "k"; return c; }
static kio::Task<void> scenario(Worker& w); static std::atomic<bool> over; static kio::DetachedTask drive(Worker& w) { co_await scenario(w); over = true; }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_act = [](const io_uring_sqe& s) -> int { return s.opcode == IORING_OP_READ ? (*(char*)s.addr = 'k', 1) : s.opcode == IORING_OP_WRITE ? (int)s.len : 0; };
  Worker w(0, cfg(), [](Worker& w) { drive(w).detach(); }); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); for (int i = 0; i < 5000 && !over; i++) usleep(1000); check(over, "everything finished"); fflush(stdout); _exit(bad); }
'''
def s(id,edits,demo,needs,breaks):
    if not ONLY or id in ONLY: seed(id,"C18",edits,H+demo,SRC,needs,breaks,flags=FL,files=FS,par=True)
s("tls-send-offload",[(S,"        if (tx && rx)\n        {\n            ktls_active_ = true;","        // Without RX offload the library decrypts for us\n        if (tx)\n        {\n            ktls_active_ = true;")],
'''
static kio::Task<void> scenario(Worker& w) { auto ctx = TlsContext::make_client(tc()); fs_rx = false; TlsStream s(w, net::Socket(dup(2)), *ctx, TlsRole::Client); auto r = co_await s.async_handshake("h"); check(!r.has_value(), "a handshake without offload of receiving fails"); char b[4]; auto n = co_await s.async_read(b); check(!n.has_value(), "undecrypted bytes are not delivered as data"); }
''',"a peer, cipher or kernel for which only sending can be offloaded","the handshake succeeds and reads deliver undecrypted records")
s("tls-shutdown-error",[(S,"                case SSL_ERROR_SYSCALL:\n                    // Peer closed, fine.","                case SSL_ERROR_SYSCALL:\n                case SSL_ERROR_SSL:\n                    // Peer closed, fine.")],
'''
static kio::Task<void> scenario(Worker& w) { auto ctx = TlsContext::make_client(tc()); fs_shut = [] { return SSL_ERROR_SSL; }; TlsStream s(w, net::Socket(dup(2)), *ctx, TlsRole::Client); auto r = co_await s.async_handshake("h"); check(r.has_value(), "handshake"); auto q = co_await s.async_shutdown(); check(!q.has_value(), "a shutdown that the library reports as failed is reported as failed"); }
''',"a protocol error while the connection is shut down","the shutdown is reported as clean although the peer's end was not authenticated")
s("tls-pending-order",[(S,"        if (ssl_ && SSL_pending(ssl_) > 0)","        if (ssl_ && SSL_pending(ssl_) >= static_cast<int>(buf.size()))")],
'''
static kio::Task<void> scenario(Worker& w) { auto ctx = TlsContext::make_server(tc()); fs_pend = "ab"; TlsStream s(w, net::Socket(dup(2)), *ctx, TlsRole::Server); auto r = co_await s.async_handshake(); check(r.has_value(), "handshake"); char b[4]; auto n = co_await s.async_read(b); check(n.has_value() && *n == 2 && b[0] == 'a', "bytes that are already decrypted are delivered first"); }
''',"a few bytes already decrypted by the library when the handshake ends, and a larger buffer","the bytes are skipped, later ones overtake them")
s("tls-client-key",[(C,"            if (SSL_CTX_check_private_key(ctx) != 1)","            if (role == TlsRole::Server && SSL_CTX_check_private_key(ctx) != 1)")],
'''
static kio::Task<void> scenario(Worker& w) { fs_key_matches = false; auto c = TlsContext::make_client(tc()); check(!c.has_value(), "a key that does not belong to the certificate is refused"); auto v = TlsContext::make_server(tc()); check(!v.has_value(), "so it is for a server"); co_return; }
''',"a client with a certificate and the key of another","the context is handed out")
s("tls-trust-leak",[(C,"                ALOG_ERROR(\"Failed to load CA certificates: {}\", detail::get_openssl_error());\n                SSL_CTX_free(ctx);\n                return std::unexpected(Error{ErrorCategory::Tls, kTlsCertificateLoadFailed});","                // The verification below then fails for every peer\n                ALOG_ERROR(\"Failed to load CA certificates: {}\", detail::get_openssl_error());")],
'''
static kio::Task<void> scenario(Worker& w) { fs_trust = false; auto c = tc(); c.ca_cert_path = "missing"; c.verify_mode = SSL_VERIFY_NONE; auto r = TlsContext::make_server(c); check(!r.has_value(), "a context without the trust asked for is refused"); co_return; }
''',"a file of trusted certificates that cannot be loaded","the context is handed out without them")
