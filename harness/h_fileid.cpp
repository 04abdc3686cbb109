// C20: file identifiers.
#include "kse.h"
#include <chrono>
#include <bitcask/include/file_id.h>
using namespace bitcask;
static uint64_t clockSec; static bool symbolicClock; static uint64_t lo, hi; static int calls;
static uint64_t rng(const char* n, uint64_t a, uint64_t b) { uint64_t v = kse_u32(n); kse_assume(v >= a && v <= b); return v; }
// the clock: any time from the epoch to 2106, moving in any direction
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { calls++; uint64_t s = symbolicClock ? rng("clock", lo, hi) : clockSec; return time_point(std::chrono::nanoseconds((int64_t)(s * 1000000000ull))); }
void harness() {
  if (kse_param("mode", 0) == 0) {
    uint16_t p = (uint16_t)kse_u32("p"), q = (uint16_t)kse_u32("q"); uint32_t t = kse_u32("t"); FileID f{p, t, q}; uint64_t id = f.encode(); FileID g = FileID::decode(id); kse_assert(g.partition == p && g.timestamp_sec == t && g.sequence == q, "an identifier decodes to what it was built from");
    uint64_t any = kse_u64("id"); kse_assert(FileID::decode(any).encode() == any, "every identifier re-encodes to itself");
    FileID h = FileID::decode(any); bool lt = h.timestamp_sec < t || (h.timestamp_sec == t && h.sequence < q); kse_assert(file_id_compare_by_time(any, id) == lt, "identifiers order by time, then sequence"); if (h.partition == p) kse_assert((any < id) == lt, "numeric order within a partition is the order of creation"); kse_reach("codec"); return; }
  uint16_t p = (uint16_t)kse_u32("p"); FileIdGenerator gen(p); lo = 1; hi = 0xfffffff0ull;
  static const int warm[] = {0, 1, 2, 65534, 65535, 65536, 65537, 131071, 131073};
  int w = warm[kse_choose(0, kse_param("warm", 8), "warm")]; clockSec = rng("t0", lo, hi - 4); uint64_t prev = 0; symbolicClock = false; kse_concrete(0);
  for (int i = 0; i < w; i++) { uint64_t id = gen.next(); if (i == 0 || i + 2 >= w || (i & 0xfff) == 0xfff) kse_assert(i == 0 || id > prev, "each identifier is greater than every earlier one"); prev = id; }
  symbolicClock = true; int more = (int)kse_param("more", 4);
  for (int i = 0; i < more; i++) { uint64_t id = gen.next(); kse_assert((w == 0 && i == 0) || id > prev, "each identifier is greater than every earlier one"); FileID f = FileID::decode(id); kse_assert(f.partition == p, "an identifier carries its partition"); prev = id; }
  kse_reach("generated");
}
