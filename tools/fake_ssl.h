// A stand-in for OpenSSL whose calls do what the demonstration says.
#pragma once
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <functional>
#include <string>
#include <cstring>
struct bio_st { int k; };
struct ssl_st { int fd = -1, err = 0; bool hs = false; std::string pend; bio_st w{1}, r{2}; };
struct ssl_ctx_st { int k = 0; };
inline bool fs_trust = true, fs_tx = true, fs_rx = true, fs_key_matches = true; inline std::string fs_pend; inline int fs_live_ctx, fs_live_ssl; inline std::function<int()> fs_shut = [] { return 0; };   // 0: complete, else the error
extern "C" {
inline SSL* fs_new() { fs_live_ssl++; return new ssl_st; }
SSL* SSL_new(SSL_CTX*) { return fs_new(); } void SSL_free(SSL* s) { if (s) fs_live_ssl--; delete s; } int SSL_set_fd(SSL* s, int fd) { s->fd = fd; return 1; } long SSL_ctrl(SSL*, int, long, void*) { return 1; } int SSL_set1_host(SSL*, const char*) { return 1; }
static int fs_step(SSL* s) { s->hs = true; s->pend = fs_pend; return 1; } int SSL_connect(SSL* s) { return fs_step(s); } int SSL_accept(SSL* s) { return fs_step(s); } int SSL_get_error(const SSL* s, int) { return s->err; }
int SSL_shutdown(SSL* s) { s->err = fs_shut(); return s->err ? -1 : 1; } void SSL_set_shutdown(SSL*, int) {} int SSL_pending(const SSL* s) { return (int)s->pend.size(); }
int SSL_read(SSL* s, void* p, int n) { size_t k = std::min<size_t>((size_t)n, s->pend.size()); memcpy(p, s->pend.data(), k); s->pend.erase(0, k); return (int)k; }
const char* SSL_get_version(const SSL*) { return "TLSv1.3"; } const SSL_CIPHER* SSL_get_current_cipher(const SSL*) { return nullptr; } const char* SSL_CIPHER_get_name(const SSL_CIPHER*) { return ""; } BIO* SSL_get_wbio(const SSL* s) { return (BIO*)&s->w; } BIO* SSL_get_rbio(const SSL* s) { return (BIO*)&s->r; }
long BIO_ctrl(BIO* b, int cmd, long, void*) { return cmd == BIO_CTRL_GET_KTLS_SEND && b->k == 1 ? fs_tx : cmd == BIO_CTRL_GET_KTLS_RECV && b->k == 2 ? fs_rx : 0; }
unsigned long ERR_get_error(void) { return 0; } void ERR_error_string_n(unsigned long, char*, size_t) {} int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; } const char* OpenSSL_version(int) { return ""; } const SSL_METHOD* TLS_server_method(void) { return nullptr; } const SSL_METHOD* TLS_client_method(void) { return nullptr; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { fs_live_ctx++; return new ssl_ctx_st; } void SSL_CTX_free(SSL_CTX* c) { if (c) fs_live_ctx--; delete c; } long SSL_CTX_ctrl(SSL_CTX*, int, long, void*) { return 1; } uint64_t SSL_CTX_set_options(SSL_CTX*, uint64_t o) { return o; } int SSL_CTX_set_num_tickets(SSL_CTX*, size_t) { return 1; }
int SSL_CTX_use_certificate_chain_file(SSL_CTX*, const char*) { return 1; } int SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char*, int) { return 1; } int SSL_CTX_check_private_key(const SSL_CTX*) { return fs_key_matches; } int SSL_CTX_load_verify_locations(SSL_CTX*, const char*, const char*) { return fs_trust; } int SSL_CTX_set_default_verify_paths(SSL_CTX*) { return 1; } void SSL_CTX_set_verify(SSL_CTX*, int, SSL_verify_cb) {}
int SSL_CTX_set_cipher_list(SSL_CTX*, const char*) { return 1; } int SSL_CTX_set_ciphersuites(SSL_CTX*, const char*) { return 1; } int SSL_CTX_set_alpn_protos(SSL_CTX*, const unsigned char*, unsigned) { return 0; }
}
