from seedlib import seed
H='#include <cstdio>\n#include <cstring>\n#include <string>\n#include <memory>\n#include <cstdint>\n'
seed("resp-int-overflow","C01",[("kio/resp/parser.cpp","        int64_t val;\n        auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), val);\n        if (ec == std::errc() && ptr == s.data() + s.size()) return val;","        int64_t val = 0;\n        auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), val);\n        if (ec != std::errc::invalid_argument && ptr == s.data() + s.size()) return val;")],
H+'''#include <kio/resp/parser.h>
using namespace kio::resp;
int main() { for (const char* t : {":9223372036854775808\\r\\n", ":-9223372036854775809\\r\\n", "*99999999999999999999\\r\\n", "$92233720368547758070\\r\\n\\r\\n"}) { ParserConfig c; Parser p(c); p.buffer().extend_from_slice({t, strlen(t)}); if (p.next_frame()) { printf("accepted %s", t); return 1; } }
 ParserConfig c; Parser p(c); p.buffer().extend_from_slice({":12\\r\\n", 5}); if (!p.next_frame()) { puts("refused a good one"); return 1; } }
''',["kio/resp/parser.cpp"],"a decimal number that does not fit 64 bits","numbers outside the 64-bit range are accepted as 0",flags='-I"$R/kio"')
seed("resp-attr-depth","C03",[("kio/resp/parser.cpp","const auto child = parse_frame_internal(data.subspan(offset), depth + 1);","const auto child = parse_frame_internal(data.subspan(offset), type == FrameType::Push ? depth : depth + 1);")],
H+'''#include <kio/resp/parser.h>
using namespace kio::resp;
int main() { for (char t : {'*', '~', '>'}) { std::string s; for (int i = 0; i < 5; i++) s += std::string(1, t) + "1\\r\\n"; s += ":1\\r\\n"; ParserConfig c; c.max_aggregate_depth = 3; Parser p(c); p.buffer().extend_from_slice({s.data(), s.size()}); auto f = p.next_frame(); if (f || f.error() != ParseError::MaxDepthReached) { printf("depth limit not enforced for %c\\n", t); return 1; } } }
''',["kio/resp/parser.cpp"],"push frames nested deeper than the limit","nesting through push frames escapes the depth limit",flags='-I"$R/kio"')
seed("resp-verbatim-cut","C02",[("kio/resp/parser.cpp","        if (frame.size < header_len + 2) return {};","        if (frame.size <= header_len + 2) return {};"),("kio/resp/parser.cpp","        if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);","        if (data.size() + (type == FrameType::VerbatimString ? 2 : 0) < total) return std::unexpected(ParseError::NeedMoreData);")],
H+'''#include <kio/resp/parser.h>
using namespace kio::resp;
int main() { std::string s = "=3\\r\\nabc\\r\\n:1\\r\\n"; for (size_t k = 0; k < 9; k++) { std::unique_ptr<char[]> b(new char[k]); memcpy(b.get(), s.data(), k); ParserConfig c; c.initial_buffer = k; Parser p(c); p.buffer().extend_from_slice({b.get(), k}); auto f = p.next_frame(); if (f || f.error() != ParseError::NeedMoreData) { printf("prefix of %zu bytes: not asked for more\\n", k); return 1; } } }
''',["kio/resp/parser.cpp"],"a verbatim string whose terminator has not arrived yet","reads past the received bytes and misjudges the frame when the stream is cut before the terminator",flags='-I"$R/kio"')
seed("bytes-grow","C04",[("kio/core/bytes_mut.h","std::max(available_total * 2, data_len + additional)","std::max(available_total * 2, additional)")],
H+'''#include <kio/core/bytes_mut.h>
int main() { kio::BytesMut b(16); std::string a(12, 'a'), c(30, 'c'); b.extend_from_slice({a.data(), a.size()}); b.reserve(30); if (b.writable() < 30) { puts("reserve left too little"); return 1; } b.extend_from_slice({c.data(), c.size()}); auto r = b.readable_span(); if (std::string(r.data(), r.size()) != a + c) return 1; }
''',[],"a buffer with unread bytes that must grow to more than twice its capacity","reserve leaves less space than requested, so an append writes past the buffer")
seed("bytes-compact-overlap","C04",[("kio/core/bytes_mut.h","std::memmove(buffer_.data(), buffer_.data() + read_pos_, remaining_bytes);","for (size_t i = remaining_bytes; i-- > 0;) buffer_[i] = buffer_[read_pos_ + i];")],
H+'''#include <kio/core/bytes_mut.h>
int main() { kio::BytesMut b(64); std::string a; for (int i = 0; i < 40; i++) a += char('A' + i % 26); b.extend_from_slice({a.data(), a.size()}); b.advance(7); b.compact(); auto r = b.readable_span(); if (std::string(r.data(), r.size()) != a.substr(7)) { puts("compact corrupted data"); return 1; } }
''',[],"compacting when the unread bytes overlap their new place","compaction scrambles the unread bytes when the ranges overlap")
seed("task-assign-leak","C06",[("kio/core/coro.h","                if (h_) h_.destroy();\n                h_ = other.h_;\n                other.h_ = nullptr;\n            }\n            return *this;\n        }\n\n        ~Task()\n        {\n            if (h_)\n            {\n                h_.destroy();\n            }\n        }\n\n\n        struct promise_type\n        {\n            std::variant<std::monostate, T","                if (h_ && h_.done()) h_.destroy();\n                h_ = other.h_;\n                other.h_ = nullptr;\n            }\n            return *this;\n        }\n\n        ~Task()\n        {\n            if (h_)\n            {\n                h_.destroy();\n            }\n        }\n\n\n        struct promise_type\n        {\n            std::variant<std::monostate, T")],
H+'''#include <kio/core/coro.h>
static int live; struct L { L() { live++; } L(L&&) { live++; } ~L() { live--; } };
kio::Task<int> t(L) { co_return 1; }
int main() { { auto a = t(L{}), b = t(L{}); a = std::move(b); } if (live) { printf("%d parameters leaked\\n", live); return 1; } }
''',[],"assigning over a task that was never awaited","the replaced task's frame and parameters leak",flags='-include "$D/nolog.h"',libs="",files={"nolog.h":open("/verif/shim/log/nolog.h").read()})
seed("errno-range","C12",[("kio/core/errors.h","if (err >= 1000 && err < 2000) return Uring;","if (err > 1000 && err < 2000) return Uring;"),("kio/core/errors.h","        static Error from_errno(int err) { return {CategoryFromErrno(err), err}; }","        static Error from_errno(int err)\n        {\n            if (err == EALREADY) err = EINPROGRESS;\n            return {CategoryFromErrno(err), err};\n        }")],
H+'''#include <kio/core/errors.h>
int main() { if (kio::Error::from_errno(1000).category != kio::ErrorCategory::Uring) { puts("1000"); return 1; } for (int e = 0; e < 4100; e++) if (kio::Error::from_errno(e).value != e) { printf("%d changed\\n", e); return 1; } }
''',[],"errno EALREADY, or the first custom io_uring code","the error number is replaced, or the code is put into the wrong category")
seed("net-v6-port","C17",[("kio/net/net.cpp","            result.family = AF_INET6;\n            addr6->sin6_family = AF_INET6;\n            addr6->sin6_port = htons(port);","            result.family = AF_INET6;\n            addr6->sin6_family = AF_INET6;\n            addr6->sin6_port = (port & 0xff00) ? htons(port) : port;")],
H+'''#include <kio/net/net.h>
#include <arpa/inet.h>
int main() { for (int p : {80, 8080, 65535, 1}) for (const char* h : {"::1", "127.0.0.1"}) { auto r = kio::net::resolve_address(h, p); if (!r) return 1; auto s = *r; if (!s.populate_from_storage() || s.port != p || s.ip != h) { printf("%s %d read back as %s %d\\n", h, p, s.ip.c_str(), s.port); return 1; } } }
''',["kio/net/net.cpp"],"an IPv6 address with a port below 256","the port is stored in the wrong byte order",flags='-include "$D/nolog.h"',files={"nolog.h":open("/verif/shim/log/nolog.h").read()})
seed("net-listen-leak","C16",[("kio/net/net.cpp","        if (auto res = listen_on_sock(*server_fd, *socket_addr, backlog); !res)\n        {\n            ::close(*server_fd);","        if (auto res = listen_on_sock(*server_fd, *socket_addr, backlog); !res)\n        {\n            if (res.error().category != ErrorCategory::File) ::close(*server_fd);")],
H+'''#include <kio/net/net.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <errno.h>
extern "C" int bind(int, const sockaddr*, socklen_t) noexcept { errno = EACCES; return -1; }
int main() { for (int i = 0; i < 2; i++) { auto r = kio::net::create_tcp_server_socket("127.0.0.1", 0, 5); if (r) return 1; } int n = 0; for (int i = 3; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; int base = n; for (int i = 0; i < 5; i++) (void)kio::net::create_tcp_server_socket("127.0.0.1", 0, 5); n = 0; for (int i = 3; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; if (n != base) { printf("%d descriptors leaked\\n", n - base); return 1; } }
''',["kio/net/net.cpp"],"bind or listen refused with EACCES","the socket stays open when the helper fails",flags='-include "$D/nolog.h"',files={"nolog.h":open("/verif/shim/log/nolog.h").read()})
seed("fileid-skew","C20",[("bitcask/include/file_id.h","            if (now > last_timestamp_)\n","            if (now > last_timestamp_ || now + 3600 < last_timestamp_)\n")],
H+'''#include <chrono>
static long fake = 1700000000;
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(seconds(fake)); } } }
#include <bitcask/include/file_id.h>
int main() { bitcask::FileIdGenerator g(3); unsigned long last = 0; for (long t : {0L, 0L, -5L, 10L, -7200L, 20L, 20L}) { fake = 1700000000 + t; auto id = g.next(); if (id <= last) { puts("identifier went back"); return 1; } last = id; } }
''',[],"the clock jumping back by more than an hour","identifiers repeat or decrease after a large backward clock jump",flags='-include "$D/nolog.h"',files={"nolog.h":open("/verif/shim/log/nolog.h").read()})
