// C01/C02/C03: the RESP parser against an independent reference recogniser.
#include "kse.h"
#include <optional>
#include <kio/resp/parser.h>
#include <cstring>
#include <string>
using namespace kio::resp;
typedef const unsigned char* P;
// ---- reference recogniser.  What a frame is, per the RESP3 grammar, with the places where dialects differ marked MAY.
enum K { ACC, MAY, PRE, BAD, OPEN };   // must accept; may accept; must ask for more; must refuse; must not accept
struct R { K k; size_t end; size_t count; };
static bool dig(unsigned char c) { return c >= '0' && c <= '9'; }
// line integer: returns ACC/MAY/BAD, and whether a strict prefix of an integer
static K refInt(P s, size_t n, __int128& v) {
  v = 0; size_t i = 0; bool neg = false, plus = false; if (n && s[0] == '-') { neg = true; i = 1; } else if (n && s[0] == '+') { plus = true; i = 1; }
  if (i >= n) return BAD; for (; i < n; i++) { if (!dig(s[i])) return BAD; v = v * 10 + (s[i] - '0'); if (v > ((__int128)1 << 70)) return BAD; }
  if (neg) v = -v; if (v > INT64_MAX || v < INT64_MIN) return BAD; return plus ? MAY : ACC; }
static bool intPrefix(P s, size_t n) { if (n && s[n - 1] == '\r') n--; size_t i = (n && s[0] == '-'); if (n - i > 18) return false; for (; i < n; i++) if (!dig(s[i])) return false; return true; }
static K refBool(P s, size_t n) { return n == 1 && (s[0] == 't' || s[0] == 'f') ? ACC : BAD; }
static K refBig(P s, size_t n) { size_t i = n && (s[0] == '-' || s[0] == '+'); if (i >= n) return BAD; for (; i < n; i++) if (!dig(s[i])) return BAD; return ACC; }
static bool is(P s, size_t n, const char* t) { size_t m = strlen(t); if (n != m) return false; for (size_t i = 0; i < n; i++) if (s[i] != (unsigned char)t[i]) return false; return true; }
static K refDouble(P s, size_t n) {
  if (is(s, n, "inf") || is(s, n, "-inf") || is(s, n, "nan")) return ACC;
  bool may = false; size_t i = 0; if (n && (s[0] == '-' || s[0] == '+')) { may = s[0] == '+'; i = 1; }
  auto lo = [&](size_t j) { return (unsigned char)(s[j] | 32); };
  if (i < n && lo(i) == 'i') return MAY; if (i < n && lo(i) == 'n') return MAY;   // other spellings of infinity / not-a-number
  size_t d0 = 0, d1 = 0; while (i < n && dig(s[i])) i++, d0++; bool dot = i < n && s[i] == '.'; if (dot) { i++; while (i < n && dig(s[i])) i++, d1++; }
  if (d0 + d1 == 0) return BAD; if (!d0 || (dot && !d1)) may = true;
  if (i < n && lo(i) == 'e') { i++; if (i < n && (s[i] == '-' || s[i] == '+')) i++; size_t e = 0; while (i < n && dig(s[i])) i++, e++; if (!e) return BAD; if (e > 2) may = true; }
  if (i != n) return BAD; return may ? MAY : ACC; }
static R ref(P s, size_t n, size_t depth, size_t maxDepth, size_t maxSize) {
  if (depth > maxDepth) return {BAD, 0, 0}; if (n == 0) return {PRE, 0, 0};
  unsigned char t = s[0]; size_t i = 1; while (i < n && !(s[i] == '\n' && s[i - 1] == '\r' && i >= 2)) i++;
  bool simple = t == '+' || t == '-' || t == '_', agg = t == '*' || t == '%' || t == '~' || t == '>' || t == '|', bulk = t == '$' || t == '!' || t == '=', integer = t == ':', other = t == '#' || t == ',' || t == '(';
  bool known = simple || agg || bulk || integer || other;
  if (i >= n) { // the line is not complete
    if (!known) return {OPEN, 0, 0}; P q = s + 1; size_t m = n - 1; bool ok;
    if (t == '+' || t == '-') ok = true; else if (t == '_') ok = m == 0 || (m == 1 && q[0] == '\r'); else if (integer || agg || bulk) ok = intPrefix(q, m); else if (t == '(') ok = m == 0 || intPrefix(q, m); else ok = m == 0 || (m == 1 && (t == ',' ? dig(q[0]) : q[0] == 't' || q[0] == 'f'));
    return {ok ? PRE : OPEN, 0, 0}; }
  P q = s + 1; size_t m = i - 2, end = i + 1;   // payload of the line, end of the line
  if (!known) return {BAD, 0, 0};
  if (simple) { bool bare = false; for (size_t j = 0; j < m; j++) if (q[j] == '\r' || q[j] == '\n') bare = true; return {bare || (t == '_' && m) ? MAY : ACC, end, 0}; }
  if (t == '#') return {refBool(q, m), end, 0}; if (t == ',') return {refDouble(q, m), end, 0}; if (t == '(') return {refBig(q, m), end, 0};
  __int128 v; K k = refInt(q, m, v); if (k == BAD) return {BAD, 0, 0}; if (integer) return {k, end, 0};
  if (bulk) { if (v == -1) return {t == '$' ? k : MAY, end, 0}; if (v < 0) return {BAD, 0, 0}; if (v > (__int128)maxSize) return {BAD, 0, 0};
    size_t len = (size_t)v; if (len > n - end || n - end - len < 2) { bool wrong = len <= n - end && n - end - len == 1 && s[end + len] != '\r'; return {wrong || k == MAY ? OPEN : PRE, 0, 0}; }
    if (s[end + len] != '\r' || s[end + len + 1] != '\n') return {BAD, 0, 0}; return {k, end + len + 2, 0}; }
  if (v < 0) return {BAD, 0, 0}; if (v == 0 && q[0] == '-') k = MAY;
  size_t cnt = (size_t)v; __int128 kids = (t == '%' || t == '|') ? v * 2 : v; size_t off = end;
  for (__int128 c = 0; c < kids; c++) { R r = ref(s + off, n - off, depth + 1, maxDepth, maxSize); if (r.k == MAY) k = MAY; else if (r.k == PRE) return {k == MAY ? OPEN : PRE, 0, 0}; else if (r.k != ACC) return r; off += r.end; }
  return {k, off, cnt}; }
// ----
static void judge(const std::expected<FrameHeader, ParseError>& got, P s, size_t n, const R& r) {
  if (got) {
    kse_assert(r.k == ACC || r.k == MAY, "a frame is reported only for a well-formed frame");
    kse_assert(got->size == r.end, "reported size is the frame's size"); kse_assert((unsigned char)got->type == s[0], "reported type is the frame's type"); kse_assert(got->data == (const char*)s, "frame starts at the first buffered byte"); kse_assert(got->element_count == r.count, "reported element count"); kse_reach("accepted");
  } else {
    kse_assert(r.k != ACC, "a well-formed frame within the limits is reported"); kse_assert(r.k != PRE || got.error() == ParseError::NeedMoreData, "a strict prefix of a frame asks for more data"); kse_assert(r.k != BAD || got.error() != ParseError::NeedMoreData, "a malformed frame is refused"); if (got.error() == ParseError::NeedMoreData) kse_reach("need more"); else kse_reach("refused"); }
}
// children and payloads of an accepted frame
static void walk(Parser& p, const FrameHeader& f, P s, size_t maxDepth, size_t maxSize, int fuel) {
  unsigned char t = s[0]; size_t i = 1; while (!(s[i] == '\n' && s[i - 1] == '\r' && i >= 2)) i++; size_t hdr = i + 1;
  bool agg = t == '*' || t == '%' || t == '~' || t == '>' || t == '|', bulk = t == '$' || t == '!' || t == '=';
  if (bulk) { auto v = get_bulk_payload(f); if (f.size == hdr) kse_assert(v.empty(), "null bulk has no payload"); else kse_assert(v.data() == (const char*)s + hdr && v.size() == f.size - hdr - 2, "bulk payload accessor returns exactly the payload"); kse_reach("bulk payload"); }
  else if (!agg) { auto v = get_simple_payload(f); kse_assert(v.data() == (const char*)s + 1 && v.size() == hdr - 3, "line payload accessor returns exactly the payload"); kse_reach("line payload"); }
  if (!agg) return;
  FrameIterator it(f, p); size_t kids = (t == '%' || t == '|') ? f.element_count * 2 : f.element_count, off = hdr;
  for (size_t c = 0; c < kids; c++) {
    kse_assert(it.has_next() && it.remaining() == kids - c, "iterator counts the children left"); auto ch = it.next(); R r = ref(s + off, f.size - off, 0, maxDepth, maxSize);
    kse_assert(ch.has_value(), "iterator yields every announced child"); kse_assert(ch->data == (const char*)s + off && ch->size == r.end && (unsigned char)ch->type == s[off] && ch->element_count == r.count, "children tile the aggregate in order");
    kse_reach("child"); if (fuel > 0) walk(p, *ch, s + off, maxDepth, maxSize, fuel - 1); off += ch->size; }
  kse_assert(off == f.size, "children cover the aggregate exactly"); kse_assert(!it.has_next(), "iterator ends after the last child"); auto e = it.next(); kse_assert(!e && e.error() == ParseError::EoIter, "iterator reports its end"); kse_reach("aggregate"); }
// skeletons: '?' is an arbitrary byte, other characters stand for themselves ('R','N' = CR, LF)
static const char* const skel[] = {
  "?????",                      // 0: anything
  ":??????RN", ",??????RN", "(????RN", "#?RN", "_??RN", "+????RN",   // 1..6 lines
  "$?RN????", "!??RN?????", "=?RN?????", "$??RN??????",               // 7..10 bulk
  "*?RN:?RN:?RN?", "%?RN#tRN:?RN???", "~?RN?RN?RN", ">?RN$?RN??RN", "|?RN+RN+?RN??", // 11..15 aggregates
  "*1RN*?RN*?RN:1RN", "*2RN$1RN????RN?", "%1RN*1RN:?RN$?RN??RN", "*?RN*?RN*0RN*?RN", // 16..19 nested
  "*???RN?RN", "????????", "*1RN*1RN*1RN*?RN:?RN", ":-922337203685477580?RN", ":922337203685477580??RN", "$9223372036854775???RN", "%922337203685477580?RN:1RN", "$1844674407370955161?RN", // 20..27
  "*3RN????????????", "?????????", "*2RN??????????", "%1RN????????????", // 28..31 deep (thorough)
};
static size_t fill(char* b, const char* sk) { size_t n = strlen(sk); for (size_t i = 0; i < n; i++) { if (sk[i] == '?') kse_sym(b + i, 1, "b"); else b[i] = sk[i] == 'R' ? '\r' : sk[i] == 'N' ? '\n' : sk[i]; } return n; }
// deep nesting against any depth limit, and wide aggregates
static void shape() {
  ParserConfig cfg; std::string t; static const char ty[] = "*%~>|"; size_t md = 32;
  if (kse_param("shape", 0) == 1) { md = kse_range(0, 60, "maxdepth"); size_t nest = kse_choose(0, 45, "nest"), br = kse_choose(0, 4, "type"); for (size_t i = 0; i < nest; i++) { t += ty[br]; t += "1\r\n"; if (br == 1 || br == 4) t += "_\r\n"; } t += kse_bool("empty") ? "*0\r\n" : ":7\r\n"; }
  else { static const size_t cnts[] = {0, 1, 9, 10, 11, 31, 32, 33, 99, 100, 127, 128, 129, 255, 256, 257, 300}; size_t c = cnts[kse_choose(0, 16, "ci")], br = kse_choose(0, 4, "type"); t += ty[br]; char d[8]; int k = 0; size_t v = c; do d[k++] = '0' + v % 10; while (v /= 10); while (k) t += d[--k]; t += "\r\n"; size_t kids = (br == 1 || br == 4) ? 2 * c : c; kids -= kse_choose(0, 1, "short") && kids ? 1 : 0; for (size_t i = 0; i < kids; i++) { if (i % 7 == 3) t += "$1\r\nx\r\n"; else t += "_\r\n"; } }
  cfg.max_aggregate_depth = md; cfg.initial_buffer = t.size(); Parser p(cfg); p.buffer().extend_from_slice({t.data(), t.size()}); P s = (P)p.buffer().readable_span().data(); auto f = p.next_frame(); judge(f, s, t.size(), ref(s, t.size(), 0, md, cfg.max_size)); if (f) walk(p, *f, s, md, cfg.max_size, 50); kse_out(f ? f->size : 0); }
void harness() {
  if (kse_param("shape", 0)) return shape();
  const char* sk = skel[kse_param("skel", 0)]; int mode = (int)kse_param("mode", 1); ParserConfig cfg; cfg.initial_buffer = 4;
  cfg.max_aggregate_depth = mode == 3 ? kse_range(0, 3, "maxdepth") : 32; cfg.max_size = mode == 3 ? kse_u64("maxsize") : 512ull << 20;
  char bytes[64]; size_t n = fill(bytes, sk);
  if (mode == 1 || mode == 3) {
    size_t len = kse_param("cut", 0) ? kse_choose(0, n, "len") : n; cfg.initial_buffer = len; Parser p(cfg); // the buffer is exactly as long as the bytes: any read past them is caught
    p.buffer().extend_from_slice({bytes, len});
    auto f = p.next_frame(); P s = (P)p.buffer().readable_span().data(); R r = ref(s, len, 0, cfg.max_aggregate_depth, cfg.max_size); judge(f, s, len, r);
    kse_assert(p.buffer().remaining() == len, "looking for a frame consumes nothing");
    if (f && mode == 3) walk(p, *f, s, cfg.max_aggregate_depth, cfg.max_size, 3);
    if (f) { kse_out(f->size); kse_out((uint64_t)f->type); kse_out(f->element_count); p.consume(*f); kse_assert(p.buffer().remaining() == len - r.end, "consuming a frame removes exactly its bytes"); } else kse_out(1000 + (int)f.error());
  } else { // mode 2: the same stream in one piece, and cut into pieces
    Parser whole(cfg); whole.buffer().extend_from_slice({bytes, n});
    struct F { size_t size, type, count, at; }; F a[8]; int na = 0; size_t at = 0; int err = 0;
    while (na < 8) { auto f = whole.next_frame(); if (!f) { err = (int)f.error(); break; } a[na++] = {f->size, (size_t)f->type, f->element_count, at}; at += f->size; whole.consume(*f); }
    size_t c1 = kse_choose(0, n, "cut1"), c2 = kse_choose(0, n, "cut2"); if (c2 < c1) kse_stop();
    Parser q(cfg); size_t pos = 0, done = 0; int k = 0; bool refused = false; size_t ends[3] = {c1, c2, n};
    for (int piece = 0; piece < 3 && !refused; piece++) {
      if (kse_param("direct", 0)) { q.buffer().reserve(ends[piece] - pos); auto w = q.buffer().writable_span(); for (size_t i = pos; i < ends[piece]; i++) w[i - pos] = bytes[i]; q.buffer().commit_write(ends[piece] - pos); } else q.buffer().extend_from_slice({bytes + pos, ends[piece] - pos});
      pos = ends[piece];
      for (;;) { auto f = q.next_frame();
        if (!f) { if (f.error() != ParseError::NeedMoreData) { kse_assert(k == na && err != (int)ParseError::NeedMoreData, "a stream refused in pieces is refused in one piece, at the same place"); refused = true; } break; }
        kse_assert(k < na, "no frame is reported early or twice"); kse_assert(f->size == a[k].size && (size_t)f->type == a[k].type && f->element_count == a[k].count && done == a[k].at, "the same frames come out however the stream is cut"); 
        for (size_t i = 0; i < f->size; i++) kse_assert(f->data[i] == bytes[done + i], "frame bytes are the stream's bytes"); kse_assert(done + f->size <= pos, "a frame is not reported before it has arrived"); done += f->size; q.consume(*f); k++; kse_reach("frame"); if (k > 8) kse_stop(); if (k == 8) { refused = true; break; } }
      kse_assert(q.buffer().remaining() == pos - done, "no byte is lost"); }
    if (!refused) { kse_assert(k == na, "every frame of the stream comes out"); auto f = q.next_frame(); kse_assert(!f && (int)f.error() == err, "after the last piece the outcome equals the outcome in one piece"); } kse_reach("stream end"); kse_out(na); kse_out(err); }
}
