from seedlib import seed
import sys
from seeds_c import H
from seeds_d import FILES
ONLY=set(sys.argv[1:]); FL="-D__GCC_DESTRUCTIVE_SIZE=64 -D__GCC_CONSTRUCTIVE_SIZE=64"
L='kio/core/async_logger.h'; U='kio/metrics/utils.h'; SV='kio/metrics/server.cpp'; SZ='kio/metrics/serializer.cpp'
def g(id,*a,**k):
    if not ONLY or id in ONLY: seed(id,*a,**k)
LH='''
#include <kio/core/async_logger.h>
#include <sstream>
#include <cstdio>
using namespace kio; static int bad; static void check(bool c, const char* m) { if (!c) { printf("WRONG: %s\\n", m); bad = 1; } }
'''
g("log-exact-fit","C13",[(L,"std::format_to_n(stack_buf.data(), stack_buf.size(), fmt, std::forward<Args>(args)...)","std::format_to_n(stack_buf.data(), stack_buf.size() - 1, fmt, std::forward<Args>(args)...)")],
LH+'''
int main() { for (int n = 250; n < 262; n++) { std::ostringstream o; std::string m((size_t)n, 'x'); { Logger l(64, LogLevel::Info, o); LOGI(l, "{}", m); } check(o.str().find(m) != std::string::npos, "a record is written whole"); } return bad; }
''',(),"a message of exactly 256 characters","its last character is lost")
g("log-nul","C13",[(L,"            std::memcpy(buffer.data(), data.data(), data.size());\n            msg = std::span<const char>(buffer.data(), data.size());","            const auto end = std::copy_if(data.begin(), data.end(), buffer.begin(), [](const char c) { return c != '\\0'; });\n            msg = std::span<const char>(buffer.data(), static_cast<size_t>(end - buffer.begin()));")],
LH+'''
int main() { std::ostringstream o; std::string m("before\\0after", 12); { Logger l(64, LogLevel::Info, o); LOGI(l, "{}", m); } check(o.str().find(m) != std::string::npos, "a record is written whole"); return bad; }
''',(),"a message that contains a NUL byte","bytes of the message are left out")
g("label-backslash","C14",[(U,"            if (c == '\\\\' || c == '\"' || c == '\\n') {\n                needs_escape = true;","            if (c == '\"' || c == '\\n') {\n                needs_escape = true;")],
'''
#include <kio/metrics/serializer.h>
#include <cstdio>
using namespace kio; int main() { MetricSnapshot s; auto& f = s.BuildFamily("m", "help", MetricType::Counter); f.Add({{"path", "C:\\\\"}}, 1); PrometheusTextSerializer t; auto p = t.Serialize(s); bool ok = p.find("m{path=\\"C:\\\\\\\\\\"} 1\\n") != std::string::npos; if (!ok) printf("WRONG: %s", p.c_str()); return !ok; }
''',(SZ,),"a label value with a backslash and nothing else to escape","the closing quote is escaped and the line cannot be parsed",flags=FL)
g("http-resume-scan","C15",[(SV,"            static HttpRequest parse(std::span<const char> data)\n","            static HttpRequest parse(std::span<const char> data, const size_t scanned = 0)\n"),(SV,"view.find(\"\\r\\n\\r\\n\");","view.find(\"\\r\\n\\r\\n\", scanned);  // what was there before has been searched already"),(SV,"            // Update buffer cursor\n            buffer.commit_write(read_res.value());\n","            // Update buffer cursor\n            const size_t scanned = buffer.remaining();\n            buffer.commit_write(read_res.value());\n"),(SV,"HttpRequest::parse(buffer.readable_span());","HttpRequest::parse(buffer.readable_span(), scanned);")],
H+'''
#include <kio/metrics/server.h>
#include <kio/metrics/registry.h>
static const char* pieces[] = {"GET /metrics HTTP/1.1\\r\\nHost: x\\r\\n", "\\r\\n"}; static int at; static std::string out;
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); fk_taken = [](const io_uring_sqe& s) { static bool one; if (s.opcode == IORING_OP_ACCEPT) { if (one) fk_fl.pop_back(); one = true; } };
  fk_act = [](const io_uring_sqe& s) -> int { if (s.opcode == IORING_OP_ACCEPT) return dup(2); if (s.opcode == IORING_OP_WRITE) { out.append((const char*)s.addr, s.len); return (int)s.len; } if (s.opcode == IORING_OP_READ) { if (at >= 2) return 0; int n = (int)strlen(pieces[at]); memcpy((void*)s.addr, pieces[at++], (size_t)n); return n; } return -EINVAL; };
  MetricsServer m("127.0.0.1", 0, cfg()); m.start(); for (int i = 0; i < 1000 && out.empty(); i++) usleep(1000); check(out.starts_with("HTTP/1.1 200 "), "a complete request is answered, in whatever pieces it comes"); fflush(stdout); _exit(bad); }
''',(SV,SZ,'kio/core/worker.cpp','kio/net/net.cpp'),"a request whose blank line is split between two reads","the end of the request is never found and the client gets no answer",flags=FL,files=FILES,par=True)
g("http-limit-first","C15",[(SV,"            // Try Parse\n","            // Refuse large requests before looking at them\n            if (buffer.remaining() >= kMaxRequestSize)\n            {\n                ALOG_WARN(\"Metrics request too large, closing connection\");\n                break;\n            }\n\n            // Try Parse\n"),(SV,"            // If the buffer gets too big without finding a delimiter, kill the connection\n            if (buffer.remaining() > kMaxRequestSize)\n            {\n                ALOG_WARN(\"Metrics request too large, closing connection\");\n                break;\n            }\n","")],
H+'''
#include <kio/metrics/server.h>
#include <kio/metrics/registry.h>
static std::string req = "GET /health HTTP/1.1\\r\\nX: "; static size_t at; static std::string out;
int main() { req += std::string(8192 - 4 - req.size(), 'x') + "\\r\\n\\r\\n"; kio::alog::configure(64, kio::LogLevel::Disabled); fk_taken = [](const io_uring_sqe& s) { static bool one; if (s.opcode == IORING_OP_ACCEPT) { if (one) fk_fl.pop_back(); one = true; } };
  fk_act = [](const io_uring_sqe& s) -> int { if (s.opcode == IORING_OP_ACCEPT) return dup(2); if (s.opcode == IORING_OP_WRITE) { out.append((const char*)s.addr, s.len); return (int)s.len; } if (s.opcode == IORING_OP_READ) { size_t n = std::min<size_t>(s.len, req.size() - at); memcpy((void*)s.addr, req.data() + at, n); at += n; return (int)n; } return -EINVAL; };
  MetricsServer m("127.0.0.1", 0, cfg()); m.start(); for (int i = 0; i < 1000 && out.empty(); i++) usleep(1000); check(out.starts_with("HTTP/1.1 200 "), "a complete request within the limit is answered"); fflush(stdout); _exit(bad); }
''',(SV,SZ,'kio/core/worker.cpp','kio/net/net.cpp'),"a request of exactly the largest size allowed","a complete request gets no answer",flags=FL,files=FILES,par=True)
