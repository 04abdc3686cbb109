// C19: entries decode to what was encoded; damaged ones are refused.
#include "kse.h"
#include <cstring>
#include <chrono>
#include <crc32c/crc32c.h>
#include <bitcask/include/entry.h>
using namespace bitcask;
static uint64_t clockNs; std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration((int64_t)clockNs)); }
static std::string str(int n, int symbolic) { std::string s((size_t)n, 'k'); for (int i = 0; i < n && i < symbolic; i++) s[i] = (char)kse_u8("key"); return s; }
static std::vector<char> vec(int n, int symbolic) { std::vector<char> s((size_t)n, 'v'); for (int i = 0; i < n && i < symbolic; i++) s[n - 1 - i] = (char)kse_u8("value"); return s; }
static DataEntry make(int kmax, int vmax, int symbolic = 99) { DataEntry e; e.timestamp_ns = kse_u64("timestamp"); e.flag = kse_u8("flag"); e.key = str((int)kse_choose(0, kmax, "key length"), symbolic); e.value = vec((int)kse_choose(0, vmax, "value length"), symbolic); return e; }
static bool same(const DataEntry& a, const DataEntry& b) { if (a.key.size() != b.key.size() || a.value.size() != b.value.size()) return false; uint64_t d = (a.timestamp_ns ^ b.timestamp_ns) | (uint64_t)(a.flag ^ b.flag); for (size_t i = 0; i < a.key.size(); i++) d |= (unsigned char)(a.key[i] ^ b.key[i]); for (size_t i = 0; i < a.value.size(); i++) d |= (unsigned char)(a.value[i] ^ b.value[i]); return d == 0; }
static void back(const DataEntry& e, const std::vector<char>& b, const char* at, size_t room) {
  auto r = DataEntry::deserialize(std::span<const char>(at, room)); kse_assert(r.has_value(), "an encoded entry decodes"); kse_assert(r->second == b.size(), "the decoded size is the encoded size"); kse_assert(same(r->first, e), "key, value, timestamp and kind come back"); kse_assert(r->first.is_tombstone() == ((e.flag & kFlagTombstone) != 0), "the kind comes back"); }
void harness() {
  int mode = (int)kse_param("mode", 0);
  if (mode == 0) {   // round trip, alone or followed by anything
    DataEntry e = make((int)kse_param("key", 2), (int)kse_param("value", 3)); auto b = e.serialize(); kse_assert(b.size() > kEntryFixedHeaderSize, "an entry has a payload"); int more = (int)kse_choose(0, 2, "followed by"); char* p = new char[b.size() + more]; memcpy(p, b.data(), b.size()); for (int i = 0; i < more; i++) p[b.size() + i] = (char)kse_u8("next"); back(e, b, p, b.size() + more); delete[] p; kse_reach("round trip");
    clockNs = kse_range(0, 1ull << 62, "clock"); DataEntry n(std::string(e.key), std::vector<char>(e.value), e.flag); kse_assert(n.timestamp_ns == clockNs && n.flag == e.flag && n.key == e.key && n.value == e.value, "an entry made for a key holds it"); }
  else if (mode == 1) { // sizes around the widths of the length prefix
    static const int ns[] = {0, 1, 254, 255, 256, 257, 300}; DataEntry e; e.timestamp_ns = kse_u64("timestamp"); e.key = str(ns[kse_choose(0, 6, "key length")], 1); e.value = vec(ns[kse_choose(0, 6, "value length")], 1); auto b = e.serialize(); back(e, b, b.data(), b.size()); kse_reach("sizes"); }
  else if (mode == 2) { // several entries in a row
    DataEntry e[3]; std::vector<char> all; size_t len[3]; for (int i = 0; i < 3; i++) { e[i] = make(1, 1); auto b = e[i].serialize(); len[i] = b.size(); all.insert(all.end(), b.begin(), b.end()); } size_t at = 0; for (int i = 0; i < 3; i++) { auto r = DataEntry::deserialize(std::span<const char>(all).subspan(at)); kse_assert(r.has_value() && same(r->first, e[i]) && r->second == len[i], "entries decode one after the other"); at += r->second; } kse_reach("row"); }
  else if (mode == 3) { // every proper prefix
    DataEntry e = make(1, 2); auto b = e.serialize(); size_t n = (size_t)kse_choose(0, 64, "length"); if (n >= b.size()) kse_stop(); char* p = new char[n]; memcpy(p, b.data(), n); auto r = DataEntry::deserialize(std::span<const char>(p, n)); kse_assert(!r.has_value(), "a truncated entry is refused"); delete[] p; kse_reach("truncated"); }
  else if (mode == 4) { // up to four neighbouring bytes of the checksum or the payload changed
    DataEntry e = make(1, 2); auto b = e.serialize(); size_t w = (size_t)kse_param("burst", 1); size_t at = (size_t)kse_choose(0, 64, "position"); if (at + w > b.size() || (at + w > 4 && at < 12)) kse_stop(); uint32_t d = 0; for (size_t i = 0; i < w; i++) { uint8_t x = kse_u8("damage"); d |= x; b[at + i] = (char)(b[at + i] ^ x); } kse_assume(d != 0); auto r = DataEntry::deserialize(std::span<const char>(b)); kse_assert(!r.has_value(), "a damaged entry is refused"); kse_reach(at < 4 ? "checksum damaged" : "payload damaged"); }
  else if (mode == 5) { // any bytes at all
    size_t n = (size_t)kse_choose(0, kse_param("bytes", 24), "length"); char* p = new char[n]; if (n) kse_sym(p, n, "bytes"); if (n > 12) { uint32_t c = kse_u32("checksum"); memcpy(p, &c, 4); } auto r = DataEntry::deserialize(std::span<const char>(p, n)); if (!r.has_value()) { kse_reach("refused"); delete[] p; return; }
    uint64_t s = 0; uint32_t c = 0; kse_assert(n > 12, "an entry has a header"); memcpy(&c, p, 4); memcpy(&s, p + 4, 8); kse_assert(s <= n - 12, "the announced size is there"); s = kse_concrete(s); kse_assert(crc32c::Crc32c(p + 12, s) == c, "the checksum is right"); kse_assert(r->second <= 12 + s, "no more is consumed than announced"); kse_reach("accepted"); delete[] p; }
  else { // hints
    HintEntry h(kse_u64("timestamp"), kse_u64("position"), kse_u32("size"), str((int)kse_choose(0, 3, "key length"), 9)); auto b = h.serialize(); auto r = HintEntry::deserialize(std::span<const char>(b)); kse_assert(r.has_value(), "an encoded hint decodes"); kse_assert(r->timestamp_ns == h.timestamp_ns && r->entry_pos == h.entry_pos && r->total_sz == h.total_sz && r->key == h.key, "a hint comes back");
    size_t n = (size_t)kse_choose(0, 40, "length"); if (n < b.size()) { char* p = new char[n]; memcpy(p, b.data(), n); kse_assert(!HintEntry::deserialize(std::span<const char>(p, n)).has_value(), "a truncated hint is refused"); delete[] p; } else if (n == 40) { size_t k = (size_t)kse_choose(0, 30, "any"); char* p = new char[k]; if (k) kse_sym(p, k, "bytes"); auto q = HintEntry::deserialize(std::span<const char>(p, k)); if (q.has_value()) { kse_assert(q->key.size() <= k, "nothing but the buffer is read"); kse_reach("hint accepted"); } else kse_reach("hint refused"); delete[] p; } kse_reach("hint"); }
}
