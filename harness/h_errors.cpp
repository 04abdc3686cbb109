// C12: error values, categories and descriptions; KIO_TRY propagation.
#include "kse.h"
#include <cerrno>
#include <string>
#include <sys/types.h>
#include <kio/core/errors.h>
#include <kio/core/coro.h>
using namespace kio;
// the documented classification of system error numbers
static ErrorCategory doc(int e) {
  using enum ErrorCategory;
  static const int net[] = {EAGAIN, ECONNABORTED, ECONNRESET, ECONNREFUSED, EPIPE, EFAULT, EINVAL, ENETDOWN, ENETUNREACH, ENETRESET, EINPROGRESS, EISCONN, ENOTCONN, ENOTSOCK, EDESTADDRREQ, EMSGSIZE, EPROTONOSUPPORT, EADDRINUSE, EADDRNOTAVAIL, ETIMEDOUT, EHOSTUNREACH, EHOSTDOWN};
  static const int file[] = {ENOENT, EACCES, EEXIST, EISDIR, ENOTDIR, ENAMETOOLONG, EROFS, EBADF, EIO, ENOSPC, ESPIPE, EFBIG, ENOTEMPTY, EXDEV};
  static const int res[] = {ENOMEM, EMFILE, ENFILE, EDEADLK, ENOLCK, ENOSYS, ECANCELED, EOWNERDEAD, ENOTRECOVERABLE}; static const int dev[] = {ENODEV, ENXIO, EBUSY};
  if (e == 0) return Success; if (e >= 1000 && e <= 1999) return Uring; if (e >= 2000 && e <= 2999) return Serialization; if (e >= 3000 && e <= 3999) return Application; if (e >= 4000 && e <= 4999) return Tls;
  for (int x : net) if (e == x) return Network; for (int x : file) if (e == x) return File; for (int x : res) if (e == x) return SystemResource; for (int x : dev) if (e == x) return Device; return Unknown; }
static const int codes[] = {kIouringSqFull, kIouringCqFull, kIouringSqeTooEarly, kIouringCancelled, kIoDeserialization, kIoDataCorrupted, kIoEof, kIoNeedMoreData, kAppEmptyBuffer, kAppUnknown, kAppInvalidArg, kTlsHandshakeFailed, kTlsContextCreationFailed, kTlsKtlsEnableFailed, kTlsCertificateLoadFailed, kTlsPrivateKeyLoadFailed, kTlsVerificationFailed, kTlsNotConnected, kTlsAlreadyConnected, kTlsUnsupportedCipher, kTlsWantRead, kTlsWantWrite, kTlsShutdownFailed};
static Task<Result<int>> leaf(bool ok, int v) { if (ok) co_return v; co_return std::unexpected(Error::from_errno(v)); }
static Task<Result<void>> leafv(bool ok, int v) { if (ok) co_return Result<void>{}; co_return std::unexpected(Error::from_errno(v)); }
static int step;
static Task<Result<long>> mid(bool ok, bool okv, int v, int w) { step = 1; const int x = KIO_TRY(co_await leaf(ok, v)); step = 2; KIO_TRY(co_await leafv(okv, w)); step = 3; co_return (long)x; }
static Task<Result<long>> top(bool ok, bool okv, int v, int w) { long r = KIO_TRY(co_await mid(ok, okv, v, w)); co_return r; }
static std::optional<Result<long>> final_;
static DetachedTask drive(bool ok, bool okv, int v, int w) { final_ = co_await top(ok, okv, v, w); }
void harness() {
  int mode = (int)kse_param("mode", 0);
  if (mode == 0) { int e = (int)kse_u32("errno"); Error x = Error::from_errno(e); kse_assert(x.value == e, "the error carries the original number"); kse_assert(x.is_success() == (e == 0), "only 0 is success"); kse_assert((x.category == ErrorCategory::Success) == (e == 0), "only 0 has the Success category"); kse_assert(x.category == doc(e), "the category is the documented one"); Error y = Error::from_errno(e); kse_assert(x == y, "equal inputs give equal errors"); int f = (int)kse_u32("other"); kse_assert((Error::from_errno(f) == x) == (e == f), "errors are equal exactly when their numbers are"); kse_reach("errno"); }
  else if (mode == 1) { int e; uint64_t k = kse_choose(0, 200 + 22, "which"); if (k < 140) e = (int)k; else if (k < 200) e = (int)(k * 83) - 12000; else e = codes[k - 200]; std::string s = ErrorValueToString(e); kse_assert(!s.empty(), "every number has a description"); if (k >= 200) { kse_assert(s != "Unknown code", "every named code has its own description"); for (int c : codes) if (c != e) kse_assert(ErrorValueToString(c) != s, "descriptions of different named codes differ"); } kse_reach("described"); }
  else if (mode == 2) { for (int c = 0; c < 10; c++) { auto v = CategoryToString((ErrorCategory)c); kse_assert(!v.empty(), "every category has a name"); for (int d = 0; d < c; d++) kse_assert(CategoryToString((ErrorCategory)d) != v, "category names differ"); }
    int e = codes[kse_choose(0, 22, "which")]; Error x = Error::from_errno(e); std::string s = std::format("{}", x); std::string num = std::to_string(e); kse_assert(s.find(num) != std::string::npos && s.find(CategoryToString(x.category)) == 0 && s.find(ErrorValueToString(e)) != std::string::npos, "the formatted error names the category, the description and the number"); kse_reach("formatted"); }
  else { bool ok = kse_bool("ok"), okv = kse_bool("okv"); int v = (int)kse_u32("v"), w = (int)kse_u32("w"); final_.reset(); step = 0; drive(ok, okv, v, w).detach(); kse_assert(final_.has_value(), "the task finished"); auto& r = *final_;
    if (ok && okv) { kse_assert(r.has_value() && *r == v && step == 3, "a value passes through KIO_TRY"); kse_reach("value"); } else { int want = ok ? w : v; kse_assert(!r.has_value() && r.error() == Error::from_errno(want) && r.error().value == want && step == (ok ? 2 : 1), "an error passes through KIO_TRY unchanged and skips the rest"); kse_reach("error"); } }
}
