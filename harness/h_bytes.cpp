// C04: BytesMut as a byte queue.  Arbitrary bounded operation sequences.
#include "kse.h"
#include <kio/core/bytes_mut.h>
using kio::BytesMut;
// reference: the live bytes, in order
static char ref[64]; static size_t refn;
static void checkSame(const BytesMut& b) {
  kse_assert(b.remaining() == refn, "remaining() equals the number of live bytes");
  kse_assert(b.is_empty() == (refn == 0), "is_empty() agrees");
  auto s = b.readable_span(); kse_assert(s.size() == refn, "readable_span() covers the live bytes");
  for (size_t i = 0; i < refn; i++) kse_assert(s[i] == ref[i], "live bytes are intact and in order");
}
// an arbitrary state (capacity, consumed prefix, live bytes), one growing append, then an arbitrary consume
static void prestate(size_t scale) {
  static const size_t caps[] = {0, 1, 8, 16, 20};
  size_t cap = caps[kse_choose(0, 4, "capi")] * scale, k = kse_choose(0, 9, "fill") * scale * 2, j = kse_choose(0, 9, "used") * scale * 2; if (k > cap || j > k) kse_stop();
  // the bytes follow a pattern with a symbolic phase: byte i of the stream is phase + i*7
  uint8_t phase = kse_u8("phase"); auto at = [&](size_t i) { return (char)(uint8_t)(phase + i * 7 + (i >> 8)); };
  BytesMut b(cap); size_t pos = 0, cons = 0; 
  auto put = [&](size_t n) { auto w = b.writable_span(); kse_assert(w.size() >= n, "writable space available"); for (size_t i = 0; i < n; i++) w[i] = at(pos + i); b.commit_write(n); pos += n; };
  auto check = [&]() { auto s = b.readable_span(); kse_assert(s.size() == pos - cons && b.remaining() == pos - cons, "remaining bytes"); if (pos > cons) { size_t lo = 0, n = pos - cons; size_t step = n > 64 ? n / 16 : 1; for (size_t i = lo; i < n; i += step) kse_assert(s[i] == at(cons + i), "live bytes are intact and in order"); kse_assert(s[n - 1] == at(pos - 1), "live bytes are intact and in order"); } };
  b.reserve(k); put(k); check(); b.advance(j); cons += j; check();
  size_t n = kse_choose(0, 7, "grow") * scale * 4 + kse_choose(0, 1, "odd"); if (kse_bool("viaExtend")) { std::vector<char> v(n); for (size_t i = 0; i < n; i++) v[i] = at(pos + i); b.extend_from_slice(v); pos += n; kse_reach("extend"); } else { b.reserve(n); kse_assert(b.writable() >= n, "reserve(n) leaves at least n writable bytes"); check(); put(n); kse_reach("grow"); }
  check(); if (b.should_compact()) { b.compact(); check(); } size_t m = kse_u64("adv"); size_t live = pos - cons; bool th = false; try { b.advance(m); } catch (const std::out_of_range&) { th = true; } kse_assert(th == (m > live), "advance() refuses exactly what exceeds the live bytes"); if (!th) { kse_assert(b.remaining() == live - m, "advance() consumes exactly n"); } else check(); kse_out(b.remaining() & 0); kse_reach("pre end"); }
void harness() {
  if (size_t sc = (size_t)kse_param("prestate", 0)) return prestate(sc);
  const int ops = (int)kse_param("ops", 3); const size_t maxLen = (size_t)kse_param("maxlen", 3); const size_t cap0 = (size_t)kse_param("cap", 4);
  size_t cap = kse_choose(0, cap0, "cap"); BytesMut b(cap); refn = 0;
  checkSame(b);
  for (int k = 0; k < ops; k++) {
    uint64_t op = kse_choose(0, 6, "op"); size_t before = b.remaining(), wBefore = b.writable();
    switch (op) {
      case 0: { // append
        size_t n = kse_choose(0, maxLen, "n"); char buf[16]; kse_sym(buf, n, "data"); b.extend_from_slice({buf, n}); for (size_t i = 0; i < n; i++) ref[refn++] = buf[i]; kse_reach("append"); break; }
      case 1: { // reserve, write into the span, commit
        size_t n = kse_choose(0, maxLen, "n"); b.reserve(n); kse_assert(b.writable() >= n && b.writable_span().size() >= n, "reserve(n) leaves at least n writable bytes"); auto w = b.writable_span(); kse_assert(w.empty() || kse_valid(w.data(), w.size()), "writable span is inside the allocation"); char buf[16]; kse_sym(buf, n, "data"); for (size_t i = 0; i < n; i++) { w[i] = buf[i]; } checkSame(b); b.commit_write(n); for (size_t i = 0; i < n; i++) ref[refn++] = buf[i]; kse_reach("reserve+commit"); break; }
      case 2: { // advance by any size
        size_t n = kse_u64("any"); bool thrown = false; try { b.advance(n); } catch (const std::out_of_range&) { thrown = true; }
        kse_assert(thrown == (n > before), "advance() refuses exactly what exceeds the live bytes"); if (!thrown) { n = kse_concrete(n); for (size_t i = n; i < refn; i++) ref[i - n] = ref[i]; refn -= n; kse_reach("advance"); } else kse_reach("advance refused"); break; }
      case 3: { // peek any size
        size_t n = kse_u64("any"); bool thrown = false; try { auto s = b.peek(n); kse_assert(s.size() == n, "peek() size"); n = kse_concrete(n); for (size_t i = 0; i < n; i++) kse_assert(s[i] == ref[i], "peek() shows the live bytes"); } catch (const std::out_of_range&) { thrown = true; }
        kse_assert(thrown == (n > before), "peek() refuses exactly what exceeds the live bytes"); break; }
      case 4: { // commit any size into the writable space as it is
        size_t n = kse_u64("any"); auto w = b.writable_span(); kse_assert(w.size() == wBefore, "writable_span() size equals writable()"); bool thrown = false; char buf[16]; 
        if (n <= wBefore) { n = kse_concrete(n); if (n > 16 || refn + n > sizeof ref) kse_stop(); kse_sym(buf, n, "data"); for (size_t i = 0; i < n; i++) w[i] = buf[i]; }
        try { b.commit_write(n); } catch (const std::out_of_range&) { thrown = true; }
        kse_assert(thrown == (n > wBefore), "commit_write() refuses exactly what exceeds the writable space"); if (!thrown) { for (size_t i = 0; i < n; i++) ref[refn++] = buf[i]; kse_reach("commit"); } else kse_reach("commit refused"); break; }
      case 5: if (kse_bool("clear")) { b.clear(); refn = 0; kse_reach("clear"); } else { (void)b.should_compact(); b.compact(); kse_reach("compact"); } break;
      case 6: { // reserve any size
        size_t n = kse_u64("any"); bool refused = false; 
        if (n <= (1u << 25)) { if (n > maxLen + 2) n = 1u << 20; else n = kse_concrete(n); }
        try { b.reserve(n); } catch (const std::length_error&) { refused = true; } catch (const std::bad_alloc&) { refused = true; }
        if (!refused) { kse_assert(b.writable() >= n, "reserve(n) leaves at least n writable bytes"); kse_reach("reserve any"); if (n >= (1u << 20)) { checkSame(b); kse_stop(); } } else { kse_reach("reserve refused"); } break; }
    }
    checkSame(b);
  }
  kse_reach("end");
}
