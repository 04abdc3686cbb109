// Stands in for the CRC32C library, which is not installed here: the same checksum, computed as
// the sum of the columns the set bits select, which keeps it a linear term for the solver.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
extern "C" uint64_t kse_concrete(uint64_t v);   // split on the value
namespace crc32c {
namespace vk_detail { inline uint32_t step(uint32_t c, int n) { while (n-- > 0) c = (c >> 1) ^ (0x82F63B78u & (0u - (c & 1))); return c; } }
__attribute__((noinline)) inline uint32_t Extend(uint32_t crc, const uint8_t* p, size_t n) {
  n = (size_t)kse_concrete(n);
  uint32_t col[8], sum = 0, init = ~crc;
  for (int k = 0; k < 8; k++) col[k] = vk_detail::step(1u << k, 8);
  for (size_t i = n; i-- > 0;) { uint8_t x = p[i]; for (int k = 0; k < 8; k++) { sum ^= (0u - (uint32_t)((x >> k) & 1)) & col[k]; col[k] = vk_detail::step(col[k], 8); } init = vk_detail::step(init, 8); }
  return ~(sum ^ init);
}
inline uint32_t Crc32c(const uint8_t* p, size_t n) { return Extend(0, p, n); }
inline uint32_t Crc32c(const char* p, size_t n) { return Extend(0, (const uint8_t*)p, n); }
inline uint32_t Crc32c(std::string_view s) { return Crc32c(s.data(), s.size()); }
}
