// Bodies, for the symbolic engine only, of the locale and stream parts of the C++ library that live
// in libstdc++.so.  Only the classic locale exists.  Numbers print exactly when their value is
// concrete; a symbolic number prints as a tag and the nibbles of its bits (kse_parse_double reads it).
#include "kse.h"
#include <locale>
#include <ostream>
#include <sstream>
#include <syncstream>
#include <charconv>
#include <cstring>
extern "C" { uint64_t kse_ftoa(uint64_t bits, int w, int style, int prec, char* buf); bool kse_is_symbolic(uint64_t); uint64_t kse_strtod(const char* p, size_t n); size_t strlen(const char*);
bool kse_is_tagged(char c) { return c == '@' || c == '#' || c == '~'; }
uint64_t kse_parse_double(const char* p, size_t n) {   // bits of the double the text denotes; ~0 if it is not one
  if (n == 17 && kse_is_tagged(p[0])) { uint64_t v = 0; for (int i = 1; i < 17; i++) v = v << 4 | (uint64_t)((unsigned char)p[i] - 'a'); if (p[0] == '@') return v; double d = p[0] == '#' ? (double)(int64_t)v : (double)v; memcpy(&v, &d, 8); return v; }
  return kse_strtod(p, n); } }
static size_t nibbles(char tag, uint64_t v, char* b) { b[0] = tag; for (int i = 0; i < 16; i++) b[1 + i] = 'a' + (char)(v >> (60 - 4 * i) & 15); return 17; }
// style: 0 shortest, 'g', 'f', 'e', 'a' with a precision
static size_t ftoa(double d, int style, int prec, char* b) {
  uint64_t v; memcpy(&v, &d, 8); if (!kse_is_symbolic(v)) return kse_ftoa(v, 64, style, prec, b);
  if (style && style != 'a' && prec < 17) v &= ~0xffffffffull; return nibbles('@', v, b); }
static size_t ftoa(float f, int style, int prec, char* b) { uint32_t v; memcpy(&v, &f, 4); if (!kse_is_symbolic(v)) return kse_ftoa(v, 32, style, prec, b); return ftoa((double)f, style, prec < 9 ? prec : 17, b); }
template <class T> static std::to_chars_result tc(char* f, char* l, T v, int style, int prec) { char b[512]; size_t n = ftoa(v, style, prec, b); if (n > (size_t)(l - f)) return {l, std::errc::value_too_large}; memcpy(f, b, n); return {f + n, std::errc{}}; }
static int styleOf(std::chars_format f) { return f == std::chars_format::scientific ? 'e' : f == std::chars_format::fixed ? 'f' : f == std::chars_format::hex ? 'a' : 'g'; }
namespace std {
to_chars_result to_chars(char* f, char* l, double v) noexcept { return tc(f, l, v, 0, 0); }
to_chars_result to_chars(char* f, char* l, float v) noexcept { return tc(f, l, v, 0, 0); }
to_chars_result to_chars(char* f, char* l, double v, chars_format m) noexcept { return tc(f, l, v, m == chars_format::general ? 0 : styleOf(m) | 256, 0); }
to_chars_result to_chars(char* f, char* l, double v, chars_format m, int p) noexcept { return tc(f, l, v, styleOf(m), p); }
to_chars_result to_chars(char* f, char* l, float v, chars_format m, int p) noexcept { return tc(f, l, v, styleOf(m), p); }
// ---- locale
locale::facet::~facet() {}
size_t locale::id::_M_id() const throw() { return this == (const id*)&std::ctype<char>::id ? 1 : this == &numpunct<char>::id ? 2 : 0; }
locale::id ctype<char>::id; const size_t ctype<char>::table_size;
static const ctype_base::mask zeroTab[256] = {};
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r), _M_c_locale_ctype(), _M_del(false), _M_toupper(), _M_tolower(), _M_table(t ? t : zeroTab), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; } const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b < e; b++) *b = do_toupper(*b); return e; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; } const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b < e; b++) *b = do_tolower(*b); return e; }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 2; } void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 2; }
namespace { struct Punct final : numpunct<char> { Punct() : numpunct<char>((__cache_type*)nullptr, 1) {} char do_decimal_point() const override { return '.'; } char do_thousands_sep() const override { return ','; } string do_grouping() const override { return ""; } string do_truename() const override { return "true"; } string do_falsename() const override { return "false"; } }; }
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {} template <> numpunct<char>::~numpunct() {}
struct KseLoc { const locale::facet* fs[3]; locale::_Impl* impl; alignas(16) char ct[sizeof(ctype<char>)]; alignas(16) char np[sizeof(Punct)]; alignas(16) char im[sizeof(locale::_Impl)]; bool ok; };
static KseLoc kl;
static locale::_Impl* classicImpl() { if (!kl.ok) { kl.ok = true; kl.fs[0] = nullptr; kl.fs[1] = ::new (kl.ct) ctype<char>(nullptr, false, 1); kl.fs[2] = ::new (kl.np) Punct(); kl.impl = (locale::_Impl*)kl.im; kl.impl->_M_facets = kl.fs; kl.impl->_M_facets_size = 3; } return kl.impl; }
locale::locale() throw() : _M_impl(classicImpl()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const locale& locale::classic() { static char b[sizeof(locale)]; static locale* l = ::new (b) locale(); return *l; }
string locale::name() const { return "C"; }
void __throw_ios_failure(const char*) { kse_unsupported("ios_base::failure"); } void __throw_ios_failure(const char*, int) { kse_unsupported("ios_base::failure"); }
// ---- ios_base
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_move(ios_base& r) throw() { _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state; _M_ios_locale = r._M_ios_locale; }
void ios_base::_M_swap(ios_base& r) throw() { ios_base* a = this; swap(a->_M_precision, r._M_precision); swap(a->_M_width, r._M_width); swap(a->_M_flags, r._M_flags); swap(a->_M_streambuf_state, r._M_streambuf_state); }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
ios_base::Init::Init() {} ios_base::Init::~Init() {}
static ostream& kput(ostream& o, const char* b, size_t n) { return __ostream_insert(o, b, (streamsize)n); }
#define INS(m, T) ostream& kse_ins_##m(ostream& o, T v) __asm__("_ZNSo9_M_insertI" #m "EERSoT_"); ostream& kse_ins_##m(ostream& o, T v)
INS(d, double) { char b[512]; auto fl = o.flags() & ios_base::floatfield; int st = fl == ios_base::fixed ? 'f' : fl == ios_base::scientific ? 'e' : fl == 0 ? 'g' : 'a'; int p = (int)o.precision(); return kput(o, b, ftoa(v, st, st == 'g' && p == 0 ? 1 : p, b)); }
INS(e, long double) { return kse_ins_d(o, (double)v); }
static ostream& putU(ostream& o, uint64_t v, bool sgn) {
  char b[32]; if (kse_is_symbolic(v)) return kput(o, b, nibbles(sgn ? '#' : '~', v, b));
  if ((o.flags() & ios_base::basefield) != ios_base::dec) kse_unsupported("stream number base"); bool neg = sgn && (int64_t)v < 0; if (neg) v = 0 - v; char* e = b + 32; char* p = e; do { *--p = '0' + v % 10; v /= 10; } while (v); if (neg) *--p = '-'; return kput(o, p, e - p); }
INS(l, long) { return putU(o, (uint64_t)v, true); } INS(x, long long) { return putU(o, (uint64_t)v, true); } INS(m, unsigned long) { return putU(o, v, false); } INS(y, unsigned long long) { return putU(o, v, false); } INS(b, bool) { return putU(o, v, false); } INS(PKv, const void*) { kse_unsupported("pointer printed"); }
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_stringbuf<char>; template class basic_ostringstream<char>;
template ostream& endl(ostream&); template ostream& flush(ostream&); template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, const char*); template ostream& __ostream_insert(ostream&, const char*, streamsize);
template bool has_facet<ctype<char>>(const locale&); template const ctype<char>& use_facet<ctype<char>>(const locale&); template const numpunct<char>& use_facet<numpunct<char>>(const locale&); template bool has_facet<numpunct<char>>(const locale&);
template class numpunct<char>; template class __ctype_abstract_base<char>;
template <> streamsize __copy_streambufs_eof(basic_streambuf<char>*, basic_streambuf<char>*, bool&) { kse_unsupported("stream copied to a stream"); }
template bool has_facet<num_put<char>>(const locale&); template bool has_facet<num_get<char>>(const locale&); template const num_put<char>& use_facet<num_put<char>>(const locale&); template const num_get<char>& use_facet<num_get<char>>(const locale&);
}
// std::cout, std::cerr: no buffer until the program gives them one
namespace { struct KseStd { KseStd(); }; static KseStd kseStd; }
#include <new>
namespace std { extern ostream cout, cerr, clog; }
KseStd::KseStd() { ::new (&std::cout) std::ostream(nullptr); ::new (&std::cerr) std::ostream(nullptr); ::new (&std::clog) std::ostream(nullptr); }
