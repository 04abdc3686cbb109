// Bodies, for the symbolic engine only, of the out-of-line parts of the C and
// C++ runtime libraries that the code under test uses.
#include "kse.h"
#include <new>
#include <cstring>
#include <cerrno>
#include <string>
#include <stdexcept>
#include <system_error>
#include <exception>
#include <typeinfo>
#include <list>
#include <functional>
#include <unordered_map>
#include <map>
#include <memory_resource>
#include <format>
#include <optional>
#include <variant>
#include <expected>
#include <coroutine>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <future>
#include <filesystem>
extern "C" {
void* kse_malloc(size_t n, int kind, size_t align); void kse_free(void* p, int kind); [[noreturn]] void kse_unwind(void* exc, const void* ti);
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t);
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { auto *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { auto *x = (const unsigned char*)a, *y = (const unsigned char*)b; unsigned d = 0; for (size_t i = 0; i < n; i++) d |= (unsigned)(x[i] ^ y[i]); return d ? 1 : 0; }
void* kse_memchr(const void* a, int c, size_t n) __asm__("memchr"); void* kse_memchr(const void* a, int c, size_t n) { auto* x = (const unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return nullptr; }
int strcmp(const char* a, const char* b) { for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
const char* kse_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
char* strchr_(const char* s, int c) __asm__("strchr"); char* strchr_(const char* s, int c) { return (char*)kse_strchr(s, c); }
#define KW(ret, name, args) ret kse_w_##name args __asm__(#name); __attribute__((weak)) ret kse_w_##name args
// the "C" locale
KW(int, isdigit, (int c)) { return (unsigned)(c - '0') < 10; } KW(int, isupper, (int c)) { return (unsigned)(c - 'A') < 26; } KW(int, islower, (int c)) { return (unsigned)(c - 'a') < 26; } KW(int, isalpha, (int c)) { return ((unsigned)(c - 'A') < 26) | ((unsigned)(c - 'a') < 26); } KW(int, isalnum, (int c)) { return ((unsigned)(c - 'A') < 26) | ((unsigned)(c - 'a') < 26) | ((unsigned)(c - '0') < 10); }
KW(int, isspace, (int c)) { return (c == ' ') | ((unsigned)(c - 9) < 5); } KW(int, isblank, (int c)) { return (c == ' ') | (c == 9); } KW(int, isxdigit, (int c)) { return ((unsigned)(c - '0') < 10) | ((unsigned)((c | 32) - 'a') < 6); } KW(int, isprint, (int c)) { return (unsigned)(c - 32) < 95; } KW(int, isgraph, (int c)) { return (unsigned)(c - 33) < 94; } KW(int, iscntrl, (int c)) { return ((unsigned)c < 32) | (c == 127); } KW(int, ispunct, (int c)) { return (unsigned)(c - 33) < 94 && !(((unsigned)(c - 'A') < 26) | ((unsigned)(c - 'a') < 26) | ((unsigned)(c - '0') < 10)); }
KW(int, tolower, (int c)) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; } KW(int, toupper, (int c)) { return (unsigned)(c - 'a') < 26 ? c - 32 : c; }
KW(char*, strrchr, (const char* s, int c)) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } } KW(void*, memrchr, (const void* a, int c, size_t n)) { auto* x = (const unsigned char*)a; while (n) if (x[--n] == (unsigned char)c) return (void*)(x + n); return nullptr; } KW(void*, rawmemchr, (const void* a, int c)) { auto* x = (const unsigned char*)a; while (*x != (unsigned char)c) x++; return (void*)x; }
KW(char*, strstr, (const char* h, const char* n)) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } } KW(void*, memmem, (const void* a, size_t n, const void* b, size_t m)) { auto *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t k = 0; m <= n && k <= n - m; k++) { size_t i = 0; while (i < m && x[k + i] == y[i]) i++; if (i == m) return (void*)(x + k); } return nullptr; }
KW(char*, strcat, (char* d, const char* s)) { memcpy(d + strlen(d), s, strlen(s) + 1); return d; } KW(size_t, strcspn, (const char* s, const char* r)) { size_t n = 0; for (; s[n]; n++) for (const char* q = r; *q; q++) if (*q == s[n]) return n; return n; } KW(size_t, strspn, (const char* s, const char* r)) { size_t n = 0; for (; s[n]; n++) { const char* q = r; while (*q && *q != s[n]) q++; if (!*q) return n; } return n; }
KW(int, strcasecmp, (const char* a, const char* b)) { for (size_t i = 0;; i++) { int x = kse_w_tolower((unsigned char)a[i]), y = kse_w_tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } } KW(int, strncasecmp, (const char* a, const char* b, size_t n)) { for (size_t i = 0; i < n; i++) { int x = kse_w_tolower((unsigned char)a[i]), y = kse_w_tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
static int kse_errno; int* __errno_location() { return &kse_errno; }
const char* kse_strerror_text = "strerror";
char* strerror(int) { return (char*)kse_strerror_text; }
}
void* operator new(size_t n) { void* p = kse_malloc(n, 2, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = kse_malloc(n, 3, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return kse_malloc(n, 2, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return kse_malloc(n, 3, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = kse_malloc(n, 2, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = kse_malloc(n, 3, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
// ksched.cpp replaces this hook
extern "C" __attribute__((weak, noinline)) void ks_free_hook(void*, size_t) {} extern "C" size_t kse_obj_size(const void*);
static void del(void* p, int kind) { if (p) ks_free_hook(p, kse_obj_size(p)); kse_free(p, kind); }
void operator delete(void* p) noexcept { del(p, 2); }
void operator delete[](void* p) noexcept { del(p, 3); }
void operator delete(void* p, size_t) noexcept { del(p, 2); }
void operator delete[](void* p, size_t) noexcept { del(p, 3); }
void operator delete(void* p, std::align_val_t) noexcept { del(p, 2); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p, 2); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p, 3); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p, 3); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p, 2); }

// ---- exceptions
namespace { struct Hdr { Hdr* primary; const std::type_info* ti; void (*dtor)(void*); long refs; int handlers; int pad; Hdr* next; long pad2; }; }
extern "C" int kse_fiber_self(); static Hdr* caught_[64]; static int uncaught_[64];   // one set per fiber
#define caught caught_[kse_fiber_self()]
#define uncaught uncaught_[kse_fiber_self()]
static Hdr* H(void* obj) { return (Hdr*)obj - 1; }
static void derefPrimary(Hdr* h) { if (--h->refs == 0) { if (h->dtor) h->dtor(h + 1); kse_free(h, 4); } }
static void freeExc(Hdr* h) { if (h->primary == h) derefPrimary(h); else { Hdr* p = h->primary; kse_free(h, 4); derefPrimary(p); } }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Hdr* h = (Hdr*)kse_malloc(n + sizeof(Hdr), 4, 16); memset(h, 0, sizeof *h); h->primary = h; return h + 1; }
void __cxa_free_exception(void* p) noexcept { kse_free(H(p), 4); }
void* kse_cxa_ipe(void* obj, std::type_info* ti, void (*d)(void*)) noexcept __asm__("__cxa_init_primary_exception"); void* kse_cxa_ipe(void* obj, std::type_info* ti, void (*d)(void*)) noexcept { Hdr* h = H(obj); h->ti = ti; h->dtor = d; h->refs = 0; return h; }
void kse_cxa_throw(void* obj, std::type_info* ti, void (*d)(void*)) __asm__("__cxa_throw");
void kse_cxa_throw(void* obj, std::type_info* ti, void (*d)(void*)) { Hdr* h = H(obj); h->ti = ti; h->dtor = d; h->refs = 1; uncaught++; kse_unwind(obj, ti); }
void* __cxa_get_exception_ptr(void* e) noexcept { return H(e)->primary + 1; }
void* __cxa_begin_catch(void* e) noexcept { Hdr* h = H(e); int c = h->handlers; if (c < 0) c = -c; h->handlers = c + 1; uncaught--; if (caught != h) { h->next = caught; caught = h; } return h->primary + 1; }
void __cxa_end_catch() { Hdr* h = caught; if (!h) return; int c = h->handlers; if (c < 0) { if (++c == 0) caught = h->next; h->handlers = c; } else { if (--c == 0) { caught = h->next; h->handlers = 0; freeExc(h); return; } h->handlers = c; } }
void kse_cxa_rethrow() __asm__("__cxa_rethrow");
void kse_cxa_rethrow() { Hdr* h = caught; if (!h) std::terminate(); uncaught++; h->handlers = -h->handlers; kse_unwind(h + 1, h->primary->ti); }
std::type_info* __cxa_current_exception_type() noexcept { return caught ? (std::type_info*)caught->primary->ti : nullptr; }
[[noreturn]] void __cxa_bad_cast() { throw std::bad_cast(); }
[[noreturn]] void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
[[noreturn]] void __cxa_call_unexpected(void*) { std::terminate(); }
}
namespace std {
int uncaught_exceptions() noexcept { return uncaught; }
bool uncaught_exception() noexcept { return uncaught > 0; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) H(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { derefPrimary(H(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return H(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept { if (!caught) return exception_ptr(); struct A { void* p; } a{caught->primary + 1}; H(a.p)->refs++; exception_ptr e; *(void**)&e = a.p; return e; }
void rethrow_exception(exception_ptr ep) { void* o = *(void**)&ep; if (!o) terminate(); H(o)->refs++; Hdr* d = (Hdr*)kse_malloc(sizeof(Hdr), 4, 16); memset(d, 0, sizeof *d); d->primary = H(o); d->ti = H(o)->ti; uncaught++; ep = nullptr; kse_unwind(d + 1, d->ti); }

type_info::~type_info() {}
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

// ---- standard exception classes
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
struct KseStr { size_t n; long refs; char* c() { return (char*)(this + 1); } };
static const char* mkstr(const char* s, size_t n) { KseStr* k = (KseStr*)kse_malloc(sizeof(KseStr) + n + 1, 4, 16); k->n = n; k->refs = 1; memcpy(k->c(), s, n); k->c()[n] = 0; return k->c(); }
static void relstr(const char* p) { if (!p) return; KseStr* k = (KseStr*)p - 1; if (--k->refs == 0) kse_free(k, 4); }
static const char* addstr(const char* p) { if (p) ((KseStr*)p - 1)->refs++; return p; }
static const char*& strOf(const __cow_string& s) { return *(const char**)&s; }
__cow_string::__cow_string() { strOf(*this) = mkstr("", 0); }
__cow_string::__cow_string(const std::string& s) { strOf(*this) = mkstr(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { strOf(*this) = mkstr(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { strOf(*this) = addstr(strOf(o)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* p = addstr(strOf(o)); relstr(strOf(*this)); strOf(*this) = p; return *this; }
__cow_string::~__cow_string() { relstr(strOf(*this)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { strOf(*this) = strOf(o); strOf(o) = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { relstr(strOf(*this)); strOf(*this) = strOf(o); strOf(o) = nullptr; return *this; }
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {} logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const logic_error&) noexcept = default; logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return strOf(_M_msg); }
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {} runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const runtime_error&) noexcept = default; runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return strOf(_M_msg); }
runtime_error::runtime_error(runtime_error&&) noexcept = default; runtime_error& runtime_error::operator=(runtime_error&&) noexcept = default; runtime_error& runtime_error::operator=(const runtime_error&) noexcept = default;
logic_error::logic_error(logic_error&&) noexcept = default; logic_error& logic_error::operator=(logic_error&&) noexcept = default; logic_error& logic_error::operator=(const logic_error&) noexcept = default;
#define LE(T, B) T::T(const char* s) : B(s) {} T::T(const string& s) : B(s) {} T::~T() noexcept {}
LE(out_of_range, logic_error) LE(length_error, logic_error) LE(invalid_argument, logic_error) LE(domain_error, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)
void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
// ---- error_code
namespace {
struct GenCat final : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "generic error"; } };
struct SysCat final : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "system error"; } };
template <class T> T& immortal() { alignas(T) static char buf[sizeof(T)]; static T* p = ::new (buf) T; return *p; }
}
inline namespace _V2 {
error_category::~error_category() {} 
__cow_string error_category::_M_message(int i) const { return __cow_string(message(i)); }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
const error_category& generic_category() noexcept { return immortal<GenCat>(); }
const error_category& system_category() noexcept { return immortal<SysCat>(); }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
// ---- containers
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {  // same algorithm as libstdc++ (64-bit murmur)
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* const buf = (const char*)p; const size_t la = n & ~(size_t)7; const char* const end = buf + la; size_t h = seed ^ (n * mul);
  auto sm = [](size_t v) { return v ^ (v >> 47); };
  for (const char* q = buf; q != end; q += 8) { size_t d; memcpy(&d, q, 8); d = sm(d * mul) * mul; h ^= d; h *= mul; }
  if (n & 7) { size_t d = 0; for (size_t i = (n & 7); i-- > 0;) d = (d << 8) + (unsigned char)end[i]; h ^= d; h *= mul; }
  h = sm(h) * mul; return sm(h); }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { auto t = x; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = t._M_next; y._M_prev = t._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753}; for (size_t p : pr) if (p >= n) { _M_next_resize = (size_t)((double)p * _M_max_load_factor); return p; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > _M_next_resize) { size_t want = elt + ins; if (want < 11 && bkt <= 1) want = 11; if (want >= bkt) { size_t g = bkt * 2 > want + 1 ? bkt * 2 : want + 1; return {true, _M_next_bkt(g)}; } _M_next_resize = (size_t)((double)bkt * _M_max_load_factor); return {false, 0}; } return {false, 0}; }
}
// red-black tree: kept as a plain (unbalanced) search tree with the same header invariants
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() { x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; h._M_color = _S_red; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto mn = [](_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }; auto mx = [](_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; };
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left); else { auto* y = mn(z->_M_right); if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = mn(h._M_parent); h._M_right = mx(h._M_parent); } return z; }
}
// ---- pmr
namespace std::pmr {
memory_resource::~memory_resource() {}
namespace { struct NewDel final : memory_resource { void* do_allocate(size_t n, size_t) override { return ::operator new(n); } void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); } bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } }; }
memory_resource* new_delete_resource() noexcept { alignas(NewDel) static char buf[sizeof(NewDel)]; static NewDel* p = ::new (buf) NewDel; return p; }
memory_resource* get_default_resource() noexcept { return new_delete_resource(); }
// a pool that keeps its blocks in a ring, so that what is left is freed with it
struct __pool_resource::_BigBlock { void* p; }; struct __pool_resource::_Pool { _Pool *next, *prev; };
__pool_resource::__pool_resource(const pool_options& o, memory_resource* up) : _M_opts(o), _M_unpooled(up), _M_npools(0) {} __pool_resource::~__pool_resource() {}
unsynchronized_pool_resource::unsynchronized_pool_resource(const pool_options& o, memory_resource* up) : _M_impl(o, up) {}
void unsynchronized_pool_resource::release() { while (_M_pools) { _Pool* p = _M_pools; _M_pools = p->next; ::operator delete(p); } }
unsynchronized_pool_resource::~unsynchronized_pool_resource() { release(); }
void* unsynchronized_pool_resource::do_allocate(size_t n, size_t) { _Pool* p = (_Pool*)::operator new(n + sizeof(_Pool)); p->prev = nullptr; p->next = _M_pools; if (_M_pools) _M_pools->prev = p; _M_pools = p; return p + 1; }
void unsynchronized_pool_resource::do_deallocate(void* q, size_t, size_t) { _Pool* p = (_Pool*)q - 1; if (p->prev) p->prev->next = p->next; else _M_pools = p->next; if (p->next) p->next->prev = p->prev; ::operator delete(p); }
}

// ---- std::from_chars for double: exact grammar; the value itself is not modelled (0.0)
#include <charconv>
static bool kse_dig(char c) { return c >= '0' && c <= '9'; }
std::from_chars_result std::from_chars(const char* first, const char* last, double& v, std::chars_format) noexcept {
  const char* p = first; if (p < last && *p == '-') p++;
  auto ci = [&](const char* w) { const char* q = p; for (; *w; w++, q++) if (q >= last || (*q | 32) != *w) return (const char*)nullptr; return q; };
  if (const char* q = ci("inf")) { p = q; if (const char* r = ci("inity")) q = r; v = 0; return {q, std::errc{}}; }
  if (const char* q = ci("nan")) { if (q < last && *q == '(') { const char* r = q + 1; while (r < last && (kse_dig(*r) || (*r >= 'a' && *r <= 'z') || (*r >= 'A' && *r <= 'Z') || *r == '_')) r++; if (r < last && *r == ')') q = r + 1; } v = 0; return {q, std::errc{}}; }
  const char* s = p; unsigned d = 0; while (p < last && kse_dig(*p)) p++, d++; if (p < last && *p == '.') { const char* q = p + 1; unsigned f = 0; while (q < last && kse_dig(*q)) q++, f++; if (d + f) p = q; d += f; }
  if (!d) return {first, std::errc::invalid_argument}; (void)s;
  if (p < last && (*p | 32) == 'e') { const char* q = p + 1; if (q < last && (*q == '-' || *q == '+')) q++; unsigned e = 0; while (q < last && kse_dig(*q)) q++, e++; if (e) p = q; if (e > 2) kse_bound("double with an exponent of more than two digits"); }
  v = 0; return {p, std::errc{}}; }
