// Stands in for yaLanTingLibs' struct_pack, which is not installed here: the parts of its interface that
// the storage engine uses, with its format (type hash, size width, fields in order, length-prefixed strings).
#pragma once
#include <algorithm>
#include <charconv>
#include <cstdint>
#include <cstring>
#include <expected>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <vector>
namespace struct_pack {
enum class errc { ok, no_buffer_space, invalid_buffer, hash_conflict };
struct err_code { errc ec{}; constexpr operator bool() const { return ec != errc::ok; } std::string_view message() const { return ec == errc::ok ? "ok" : "invalid buffer"; } constexpr auto val() const { return (int)ec; } friend bool operator==(const err_code& a, const err_code& b) { return a.ec == b.ec; } };
namespace detail {
constexpr uint32_t fnv(const char* s) { uint32_t h = 2166136261u; for (; *s; s++) h = (h ^ (unsigned char)*s) * 16777619u; return h; }
template <class F> concept Container = requires(F& f) { f.resize(1); f.data(); f.size(); };
template <class F> size_t maxLen(const F& f) { if constexpr (Container<F>) return f.size(); else return 0; }
template <class F> size_t bytesOf(const F& f, size_t w) { if constexpr (Container<F>) return w + f.size(); else { static_assert(std::is_arithmetic_v<F> || std::is_enum_v<F>); return sizeof(F); } }
inline size_t widthOf(size_t m) { return m < 256 ? 1 : m < 65536 ? 2 : m <= 0xffffffffull ? 4 : 8; }
template <class F> void put(char*& p, const F& f, size_t w) { if constexpr (Container<F>) { uint64_t n = f.size(); memcpy(p, &n, w); p += w; if (n) memcpy(p, f.data(), n); p += n; } else { memcpy(p, &f, sizeof(F)); p += sizeof(F); } }
template <class F> bool get(const char*& p, const char* e, F& f, size_t w) {
  if constexpr (Container<F>) { if ((size_t)(e - p) < w) return false; uint64_t n = 0; memcpy(&n, p, w); p += w; if (n > (size_t)(e - p)) return false; f.resize(n); if (n) memcpy(f.data(), p, n); p += n; return true; }
  else { if ((size_t)(e - p) < sizeof(F)) return false; memcpy(&f, p, sizeof(F)); p += sizeof(F); return true; } }
template <class T> size_t width(const T& t) { return std::apply([](const auto&... f) { size_t m = 0; ((m = maxLen(f) > m ? maxLen(f) : m), ...); return widthOf(m); }, ylt_refl_members(const_cast<T&>(t))); }
template <class T> size_t size(const T& t, size_t w) { return std::apply([&](const auto&... f) { return 4 + (w > 1) + (bytesOf(f, w) + ... + 0); }, ylt_refl_members(const_cast<T&>(t))); }
template <class T> void write(const T& t, char* p, size_t w) { uint32_t h = (ylt_refl_hash((T*)nullptr) & ~1u) | (w > 1); memcpy(p, &h, 4); p += 4; if (w > 1) *p++ = (char)((w == 2 ? 1 : w == 4 ? 2 : 3) << 3); std::apply([&](const auto&... f) { (put(p, f, w), ...); }, ylt_refl_members(const_cast<T&>(t))); }
template <class T> err_code read(T& t, const char* b, size_t n, size_t& used) {
  const char *p = b, *e = b + n; if (n < 4) return {errc::no_buffer_space}; uint32_t h; memcpy(&h, p, 4); p += 4; if ((h & ~1u) != (ylt_refl_hash((T*)nullptr) & ~1u)) return {errc::hash_conflict}; size_t w = 1;
  if (h & 1) { if (p == e) return {errc::no_buffer_space}; unsigned char m = (unsigned char)*p++; if (m == 8) w = 2; else if (m == 16) w = 4; else if (m == 24) w = 8; else return {errc::invalid_buffer}; }
  bool ok = std::apply([&](auto&... f) { return (get(p, e, f, w) && ...); }, ylt_refl_members(t)); if (!ok) return {errc::no_buffer_space}; used = (size_t)(p - b); return {}; }
}
struct serialize_buffer_size { size_t n; operator size_t() const { return n; } size_t size() const { return n; } };
template <class T> serialize_buffer_size get_needed_size(const T& t) { return {detail::size(t, detail::width(t))}; }
template <class B = std::vector<char>, class T> B serialize(const T& t) { size_t w = detail::width(t); B b; b.resize(detail::size(t, w)); detail::write(t, (char*)b.data(), w); return b; }
template <class B, class T> void serialize_to(B& b, const T& t) { size_t w = detail::width(t), n = detail::size(t, w), o = b.size(); b.resize(o + n); detail::write(t, (char*)b.data() + o, w); }
template <class T> std::expected<T, err_code> deserialize(const char* p, size_t n) { T t{}; size_t u = 0; if (auto e = detail::read(t, p, n, u)) return std::unexpected(e); return t; }
template <class T, class V> std::expected<T, err_code> deserialize(const V& v) { return deserialize<T>((const char*)v.data(), (size_t)v.size()); }
template <class T, class V> std::expected<T, err_code> deserialize(const V& v, size_t& used) { T t{}; used = 0; if (auto e = detail::read(t, (const char*)v.data(), v.size(), used)) return std::unexpected(e); return t; }
template <class T, class V> err_code deserialize_to(T& t, const V& v) { size_t u; return detail::read(t, (const char*)v.data(), v.size(), u); }
template <class T, class V> err_code deserialize_to(T& t, const V& v, size_t& used) { used = 0; return detail::read(t, (const char*)v.data(), v.size(), used); }
template <class T, class V> std::expected<T, err_code> deserialize_with_offset(const V& v, size_t& off) { T t{}; size_t u = 0; if (auto e = detail::read(t, (const char*)v.data() + off, v.size() - off, u)) return std::unexpected(e); off += u; return t; }
}
#define KSE_RF1(a) t.a
#define KSE_RF2(a, b) t.a, t.b
#define KSE_RF3(a, b, c) t.a, t.b, t.c
#define KSE_RF4(a, b, c, d) t.a, t.b, t.c, t.d
#define KSE_RF5(a, b, c, d, e) t.a, t.b, t.c, t.d, t.e
#define KSE_RF6(a, b, c, d, e, f) t.a, t.b, t.c, t.d, t.e, t.f
#define KSE_RFN(a, b, c, d, e, f, n, ...) n
#define YLT_REFL(T, ...) inline auto ylt_refl_members(T& t) { return std::tie(KSE_RFN(__VA_ARGS__, KSE_RF6, KSE_RF5, KSE_RF4, KSE_RF3, KSE_RF2, KSE_RF1)(__VA_ARGS__)); } constexpr uint32_t ylt_refl_hash(T*) { return struct_pack::detail::fnv(#T "/" #__VA_ARGS__); }
