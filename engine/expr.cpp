#include "expr.h"
#include <cmath>
ExprPool XP;
bool gHaveFP = false;
static double fpv(u128 v, unsigned w) { if (w == 64) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; } u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static u128 fpb(double d, unsigned w) { if (w == 64) { u64 x; memcpy(&x, &d, 8); return x; } float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
static u128 foldConv(EK k, unsigned aw, unsigned w, u128 a) {
  switch (k) {
    case EK::U2F: return w == 64 ? fpb((double)a, 64) : fpb((float)a, 32);
    case EK::S2F: return w == 64 ? fpb((double)sx(a, aw), 64) : fpb((float)sx(a, aw), 32);
    case EK::F2F: return fpb(fpv(a, aw), w);
    // out-of-range conversions are undefined in C++; the hardware's answer
    case EK::F2S: { double d = fpv(a, aw); i64 r = d >= -9223372036854775808.0 && d < 9223372036854775808.0 ? (i64)d : (i64)1 << 63; return (u128)(u64)r & maskW(w); }
    case EK::F2U: { double d = fpv(a, aw); u64 r = d > -1 && d < 18446744073709551616.0 ? (u64)d : (u64)1 << 63; return (u128)r & maskW(w); }
    default: abort(); } }
E mkFConv(EK k, E a, unsigned w) { if (isC(a)) return C(foldConv(k, a->w, w, a->val), w); gHaveFP = true; return XP.raw(k, w, a, nullptr, nullptr, 0); }

u128 foldBin(EK k, unsigned w, u128 a, u128 b) {
  u128 m = maskW(w);
  switch (k) {
    case EK::Add: return (a + b) & m; case EK::Sub: return (a - b) & m; case EK::Mul: return (a * b) & m;
    case EK::UDiv: return b ? a / b : m; case EK::URem: return b ? a % b : a;
    case EK::SDiv: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case EK::SRem: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case EK::And: return a & b; case EK::Or: return a | b; case EK::Xor: return a ^ b;
    case EK::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case EK::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case EK::AShr: { i128 x = sx(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : x >> (unsigned)b) & m; }
    case EK::Eq: return a == b; case EK::Ult: return a < b; case EK::Ule: return a <= b;
    case EK::Slt: return sx(a, w) < sx(b, w); case EK::Sle: return sx(a, w) <= sx(b, w);
    case EK::FEq: return fpv(a, w) == fpv(b, w); case EK::FLt: return fpv(a, w) < fpv(b, w); case EK::FLe: return fpv(a, w) <= fpv(b, w);
    case EK::FAdd: return fpb(fpv(a, w) + fpv(b, w), w); case EK::FSub: return fpb(fpv(a, w) - fpv(b, w), w); case EK::FMul: return fpb(fpv(a, w) * fpv(b, w), w); case EK::FDiv: return fpb(fpv(a, w) / fpv(b, w), w);
    default: abort();
  }
}
static bool isCmp(EK k) { return k >= EK::Eq && k <= EK::FLe; }

E mkNot(E a) {
  if (isC(a)) return C(!a->val, 1);
  if (a->k == EK::Xor && isC(a->b, 1)) return a->a;
  return XP.raw(EK::Xor, 1, a, C(1, 1), nullptr, 0);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case EK::Const: return C(a->val >> lo, w);
    case EK::Extract: return mkExtract(a->a, lo + (unsigned)a->val, w);
    case EK::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case EK::ZExt:
      if (lo >= a->a->w) return C(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case EK::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSExt(a->a, w);
      break;
    case EK::Ite:
      if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case EK::And: case EK::Or: case EK::Xor:
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case EK::Add: case EK::Sub: case EK::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return XP.raw(EK::Extract, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return C((hi->val << lo->w) | lo->val, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->k == EK::Extract && lo->k == EK::Extract && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, (unsigned)lo->val, w);
  if (hi->k == EK::Extract && hi->a == lo && (unsigned)hi->val == lo->w) return mkExtract(hi->a, 0, w);
  // (concat x (concat y z)) with x,y mergeable
  if (lo->k == EK::Concat) {
    E y = lo->a;
    if (hi->k == EK::Extract && y->k == EK::Extract && hi->a == y->a && hi->val == y->val + y->w) return mkConcat(mkExtract(hi->a, (unsigned)y->val, hi->w + y->w), lo->b);
    if (isC(hi) && isC(y)) return mkConcat(mkConcat(hi, y), lo->b);
  }
  if (hi->k == EK::ZExt && 0) return nullptr;
  if (lo->k == EK::ZExt && hi->k == EK::Extract && hi->a == lo && 0) return nullptr;
  // sign-extension pieces: SExt(x) split in bytes comes back through Extract merging above
  if (hi->k == EK::Ite && lo->k == EK::Ite && hi->a == lo->a && (isC(hi->b) || isC(hi->c)) && (isC(lo->b) || isC(lo->c)))
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return XP.raw(EK::Concat, w, hi, lo, nullptr, 0);
}

E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return C(a->val, w);
  if (a->k == EK::ZExt) return mkZExt(a->a, w);
  if (a->k == EK::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, C(a->b->val, w), C(a->c->val, w));
  return XP.raw(EK::ZExt, w, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return C((u128)sx(a->val, a->w), w);
  if (a->k == EK::SExt) return mkSExt(a->a, w);
  if (a->k == EK::ZExt) return mkZExt(a->a, w);
  if (a->k == EK::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return XP.raw(EK::SExt, w, a, nullptr, nullptr, 0);
}
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (t->w == 1) {
    if (isC(t, 1) && isC(f, 0)) return c;
    if (isC(t, 0) && isC(f, 1)) return mkNot(c);
    if (isC(t, 1)) return mkOr(c, f);
    if (isC(t, 0)) return mkAnd(mkNot(c), f);
    if (isC(f, 0)) return mkAnd(c, t);
    if (isC(f, 1)) return mkOr(mkNot(c), t);
  }
  if (c->k == EK::Xor && c->w == 1 && isC(c->b, 1)) return mkIte(c->a, f, t);
  if (c->k == EK::Xor && c->w == 1 && isC(f, 0) && isC(t)) return mkBin(EK::Xor, mkIte(c->a, t, f), mkIte(c->b, t, f));   // a linear term stays a sum
  if (t->k == EK::Ite && t->a == c) t = t->b;
  if (f->k == EK::Ite && f->a == c) f = f->c;
  if (t == f) return t;
  return XP.raw(EK::Ite, t->w, c, t, f, 0);
}

static bool comm(EK k) { return k == EK::Add || k == EK::Mul || k == EK::And || k == EK::Or || k == EK::Xor || k == EK::Eq; }

// an upper bound of a value, from its outermost operations
static u64 upper(E e) { if (e->w > 64) return ~0ull; switch (e->k) { case EK::Const: return e->val; case EK::ZExt: return upper(e->a); case EK::URem: if (isC(e->b) && e->b->val) return e->b->val - 1; break; case EK::And: if (isC(e->b)) return e->b->val; if (isC(e->a)) return e->a->val; break; case EK::LShr: if (isC(e->b) && e->b->val < e->w) return upper(e->a) >> e->b->val; break; default: break; } return e->w >= 64 ? ~0ull : (1ull << e->w) - 1; }
E mkBin(EK k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "kse: width mismatch %u %u op %d\n", a->w, b->w, (int)k); abort(); }
  unsigned rw = isCmp(k) ? 1 : w;
  if (isC(a) && isC(b)) return C(foldBin(k, w, a->val, b->val), rw);
  if (comm(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u128 m = maskW(w);
  if (k >= EK::FEq) gHaveFP = true;
  switch (k) {
    case EK::Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == EK::Add && isC(a->b)) return mkBin(EK::Add, a->a, C(a->b->val + b->val, w));
      break;
    case EK::Sub:
      if (a == b) return C(0, w);
      if (isC(b)) return mkBin(EK::Add, a, C(-b->val, w));
      // (x + c1) - x
      if (a->k == EK::Add && a->a == b) return a->b;
      if (a->k == EK::Add && a->b == b) return a->a;
      if (a->k == EK::Add && isC(a->b) && b->k == EK::Add && isC(b->b) && a->a == b->a) return C(a->b->val - b->b->val, w);
      if (b->k == EK::Add && b->a == a && isC(b->b)) return C(-b->b->val, w);
      break;
    case EK::Mul:
      if (isC(b, 0)) return b; if (isC(b, 1)) return a;
      if (isC(b) && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(EK::Shl, a, C(s, w)); }
      break;
    case EK::SDiv: if (isC(b, 1)) return a; if (isC(b) && b->val && a->k == EK::Mul && isC(a->b) && a->b->val == b->val && a->a->k == EK::ZExt) { unsigned cb = 0; while ((b->val >> cb) != 0) cb++; if (a->a->a->w + cb < w) return a->a; } break;
    case EK::UDiv: if (isC(b, 1)) return a; if (isC(b) && b->val && a->k == EK::Mul && isC(a->b) && a->b->val == b->val && a->a->k == EK::ZExt) { unsigned cb = 0; while ((b->val >> cb) != 0) cb++; if (a->a->a->w + cb <= w) return a->a; } if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(EK::LShr, a, C(s, w)); } break;
    case EK::URem: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(EK::And, a, C(b->val - 1, w)); break;
    case EK::And:
      if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
      if (isC(b) && a->k == EK::And && isC(a->b)) return mkBin(EK::And, a->a, C(a->b->val & b->val, w));
      if (w == 1 && ((a->k == EK::Xor && isC(a->b, 1) && a->a == b) || (b->k == EK::Xor && isC(b->b, 1) && b->a == a))) return C(0, 1);
      if (isC(b) && a->k == EK::SExt && a->a->w == 1) return mkIte(a->a, b, C(0, w));
      if (isC(b) && w > 1) {  // low mask
        u128 v = b->val; if ((v & (v + 1)) == 0) { unsigned n = 0; while (n < w && ((v >> n) & 1)) n++; if (n < w) return mkZExt(mkExtract(a, 0, n), w); }
      }
      break;
    case EK::Or:
      if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a;
      if (w == 1 && ((a->k == EK::Xor && isC(a->b, 1) && a->a == b) || (b->k == EK::Xor && isC(b->b, 1) && b->a == a))) return C(1, 1);
      break;
    case EK::Xor:
      if (isC(b, 0)) return a; if (a == b) return C(0, w);
      if (isC(b) && a->k == EK::Xor && isC(a->b)) return mkBin(EK::Xor, a->a, C(a->b->val ^ b->val, w));
      break;
    case EK::Shl:
      if (isC(b, 0)) return a; if (isC(b) && b->val >= w) return C(0, w); if (isC(a, 0)) return a;
      if (isC(b) && !isC(a)) { unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), C(0, s)); }
      break;
    case EK::LShr:
      if (isC(b, 0)) return a; if (isC(b) && b->val >= w) return C(0, w); if (isC(a, 0)) return a;
      if (isC(b)) { unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case EK::AShr: if (isC(b, 0)) return a;
      if (isC(b)) { unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case EK::Eq:
      if (a == b) return C(1, 1);
      if (w > 1 && a->k == EK::Xor && b->k == EK::Xor) {   // two sums: what they share cancels
        std::vector<E> l; std::vector<E> st{a, b}; while (!st.empty() && l.size() < 4096) { E x = st.back(); st.pop_back(); if (x->k == EK::Xor) { st.push_back(x->a); st.push_back(x->b); } else l.push_back(x); }
        if (l.size() < 4096) { std::sort(l.begin(), l.end(), [](E x, E y) { return x->id < y->id; }); std::vector<E> keep; u128 c = 0; for (size_t i = 0; i < l.size();) { size_t j = i; while (j < l.size() && l[j] == l[i]) j++; if ((j - i) & 1) { if (isC(l[i])) c ^= l[i]->val; else keep.push_back(l[i]); } i = j; }
          if (keep.size() < l.size()) { E x = nullptr; for (E e : keep) x = x ? mkBin(EK::Xor, x, e) : e; if (!x) return C(c == 0, 1); return mkEq(x, C(c, w)); } }
      }
      if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
      if (isC(b) && a->k == EK::And && isC(a->b) && a->b->val && !(a->b->val & (a->b->val - 1)) && (b->val == 0 || b->val == a->b->val)) { unsigned n = 0; while (!((a->b->val >> n) & 1)) n++; E bit = mkExtract(a->a, n, 1); return b->val ? bit : mkNot(bit); }
      if (isC(b)) {
        if (a->k == EK::ZExt) { if (b->val >> a->a->w) return C(0, 1); return mkEq(a->a, C(b->val, a->a->w)); }
        if (a->k == EK::SExt) { u128 t = b->val & maskW(a->a->w); if (((u128)sx(t, a->a->w) & m) != b->val) return C(0, 1); return mkEq(a->a, C(t, a->a->w)); }
        if (a->k == EK::Add && isC(a->b)) return mkEq(a->a, C(b->val - a->b->val, w));
        if (a->k == EK::Xor && isC(a->b)) return mkEq(a->a, C(b->val ^ a->b->val, w));
        if (a->k == EK::Concat) { unsigned lw = a->b->w; return mkAnd(mkEq(a->a, C(b->val >> lw, w - lw)), mkEq(a->b, C(b->val, lw))); }
        if (a->k == EK::Ite) {
          bool tc = isC(a->b), fc = isC(a->c);
          if (tc && fc) { bool te = a->b->val == b->val, fe = a->c->val == b->val; if (te && fe) return C(1, 1); if (te) return a->a; if (fe) return mkNot(a->a); return C(0, 1); }
          if (tc && a->b->val != b->val) return mkAnd(mkNot(a->a), mkEq(a->c, b));
          if (fc && a->c->val != b->val) return mkAnd(a->a, mkEq(a->b, b));
        }
      }
      if (a->k == EK::ZExt && b->k == EK::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == EK::SExt && b->k == EK::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      break;
    case EK::Ult:
      if (a->w <= 64 && isC(b) && upper(a) < b->val) return C(1, 1);
      if (a == b || isC(b, 0)) return C(0, 1);
      if (isC(a, m)) return C(0, 1);
      if (isC(b, 1)) return mkEq(a, C(0, w));
      if (isC(a, 0)) return mkNot(mkEq(b, a));
      if (a->k == EK::ZExt && isC(b)) { if (b->val >> a->a->w) return C(1, 1); return mkBin(EK::Ult, a->a, C(b->val, a->a->w)); }
      if (b->k == EK::ZExt && isC(a)) { if (a->val >> b->a->w) return C(0, 1); return mkBin(EK::Ult, C(a->val, b->a->w), b->a); }
      if (a->k == EK::ZExt && b->k == EK::ZExt && a->a->w == b->a->w) return mkBin(EK::Ult, a->a, b->a);
      break;
    case EK::Ule: return mkNot(mkBin(EK::Ult, b, a));
    case EK::Slt:
      if (a == b) return C(0, 1);
      if (a->k == EK::ZExt && isC(b)) { if (sx(b->val, w) < 0) return C(0, 1); return mkBin(EK::Ult, a, b); }
      if (b->k == EK::ZExt && isC(a)) { if (sx(a->val, w) < 0) return C(1, 1); return mkBin(EK::Ult, a, b); }
      if (a->k == EK::SExt && b->k == EK::SExt && a->a->w == b->a->w) return mkBin(EK::Slt, a->a, b->a);
      if (a->k == EK::SExt && isC(b)) { unsigned iw = a->a->w; i128 v = sx(b->val, w); i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1; if (v > hi) return C(1, 1); if (v <= lo) return C(0, 1); return mkBin(EK::Slt, a->a, C((u128)v, iw)); }
      if (b->k == EK::SExt && isC(a)) { unsigned iw = b->a->w; i128 v = sx(a->val, w); i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1; if (v >= hi) return C(0, 1); if (v < lo) return C(1, 1); return mkBin(EK::Slt, C((u128)v, iw), b->a); }
      break;
    case EK::Sle: return mkNot(mkBin(EK::Slt, b, a));
    default: break;
  }
  return XP.raw(k, rw, a, b, nullptr, 0);
}

static u32 gEpoch = 1;
void evalNewEpoch() { gEpoch++; }
static u128 ev(E e, const ModelVec& m) {
  if (e->k == EK::Const) return e->val;
  if (e->evEpoch == gEpoch) return e->evVal;
  u128 r = 0;
  switch (e->k) {
    case EK::Var: r = (size_t)e->val < m.size() ? m[(size_t)e->val] : 0; r &= maskW(e->w); break;
    case EK::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case EK::Extract: r = (ev(e->a, m) >> (unsigned)e->val) & maskW(e->w); break;
    case EK::ZExt: r = ev(e->a, m); break;
    case EK::SExt: r = (u128)sx(ev(e->a, m), e->a->w) & maskW(e->w); break;
    case EK::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case EK::U2F: case EK::S2F: case EK::F2U: case EK::F2S: case EK::F2F: r = foldConv(e->k, e->a->w, e->w, ev(e->a, m)); break;
    default: r = foldBin(e->k, e->a->w, ev(e->a, m), ev(e->b, m));
  }
  e->evEpoch = gEpoch; e->evVal = r; return r;
}
static const ModelVec* gLastModel = nullptr;
u128 evalE(E e, const ModelVec& m) { if (gLastModel != &m) { gLastModel = &m; gEpoch++; } else gEpoch++; return ev(e, m); }

std::string strE(E e, int d) {
  char buf[64];
  if (isC(e)) { snprintf(buf, 64, "%llu", (unsigned long long)e->val); return buf; }
  if (e->k == EK::Var) return XP.varInfos[(size_t)e->val].name;
  if (d == 0) return "...";
  static const char* n[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","++","ext","zx","sx","ite","==","<u","<=u","<s","<=s","==f","<f","<=f","+f","-f","*f","/f","u2f","s2f","f2u","f2s","f2f"};
  std::string s = "("; s += n[(int)e->k];
  if (e->k == EK::Extract) { snprintf(buf, 64, "[%u+:%u]", (unsigned)e->val, e->w); s += buf; }
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + strE(c, d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- z3
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "kse: z3 error: %s\n", Z3_get_error_msg(c, e)); _Exit(4); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, z3err);
}
Z3_ast Solver::tr(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  // iterative descent for deep expressions is not needed at the sizes used here
  auto b2v = [&](Z3_ast p) { return Z3_mk_ite(ctx, p, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); };
  switch (e->k) {
    case EK::Const:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->val, bv(e->w));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->val >> 64), bv(e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->val, bv(64)));
      break;
    case EK::Var: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(e->w)); break; }
    case EK::Add: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case EK::Sub: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case EK::Mul: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case EK::UDiv: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case EK::SDiv: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case EK::URem: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case EK::SRem: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case EK::And: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case EK::Or: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case EK::Xor: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case EK::Shl: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case EK::LShr: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case EK::AShr: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case EK::Concat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case EK::Extract: r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, tr(e->a)); break;
    case EK::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case EK::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case EK::Ite: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, tr(e->a), Z3_mk_unsigned_int64(ctx, 1, bv(1))), tr(e->b), tr(e->c)); break;
    case EK::Eq: r = b2v(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
    case EK::Ult: r = b2v(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case EK::Ule: r = b2v(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
    case EK::Slt: r = b2v(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case EK::Sle: r = b2v(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    default: {
      auto so = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); };
      auto F = [&](E x) { return Z3_mk_fpa_to_fp_bv(ctx, tr(x), so(x->w)); }; Z3_ast rm = Z3_mk_fpa_rne(ctx), rz = Z3_mk_fpa_rtz(ctx);
      switch (e->k) {
        case EK::FEq: r = b2v(Z3_mk_fpa_eq(ctx, F(e->a), F(e->b))); break; case EK::FLt: r = b2v(Z3_mk_fpa_lt(ctx, F(e->a), F(e->b))); break; case EK::FLe: r = b2v(Z3_mk_fpa_leq(ctx, F(e->a), F(e->b))); break;
        case EK::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, F(e->a), F(e->b))); break; case EK::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, F(e->a), F(e->b))); break;
        case EK::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, F(e->a), F(e->b))); break; case EK::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, F(e->a), F(e->b))); break;
        case EK::U2F: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, tr(e->a), so(e->w))); break; case EK::S2F: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, tr(e->a), so(e->w))); break;
        case EK::F2U: r = Z3_mk_fpa_to_ubv(ctx, rz, F(e->a), e->w); break; case EK::F2S: r = Z3_mk_fpa_to_sbv(ctx, rz, F(e->a), e->w); break; case EK::F2F: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm, F(e->a), so(e->w))); break;
        default: abort(); } break; }
  }
  Z3_inc_ref(ctx, r); e->z = r; return r;
}

int Solver::z3check(const std::vector<E>& cs, std::vector<std::pair<u32, u64>>& model, const VarSet* vs) {
  auto t0 = std::chrono::steady_clock::now();
  static bool fpSolver = false; if (gHaveFP && !fpSolver && s) { Z3_solver_dec_ref(ctx, s); s = nullptr; }
  if (!s) {
    fpSolver = gHaveFP; s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, gHaveFP ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  }
  z3calls++;
  Z3_solver_reset(ctx, s);
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, bv(1));
  for (E c : cs) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(c), one));
  Z3_lbool r = Z3_solver_check(ctx, s);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (u32 v : vs->v) {
      char nm[32]; snprintf(nm, 32, "v%u", v);
      Z3_ast cst = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(XP.varInfos[v].w)), out = nullptr; u64 val = 0;
      if (Z3_model_eval(ctx, m, cst, 1, &out) && out) { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, out, &x)) val = x; }
      model.push_back({v, val});
    }
    Z3_model_dec_ref(ctx, m); sat++;
  } else if (res == 0) unsat++; else unknown++;
  if (r == Z3_L_UNDEF && getenv("KSE_SLOW")) { fprintf(stderr, "== slow\n"); for (E c : cs) fprintf(stderr, "%s\n", strE(c, atoi(getenv("KSE_SLOW"))).c_str()); }
  z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return res;
}

int Solver::check(const std::vector<E>& pc, E cond, const Model& base, Model* out) {
  queries++;
  if (isC(cond)) { if (!cond->val) return 0; if (out) *out = base; return 1; }
  // slice
  std::vector<E> slice{cond}; const VarSet* vs = cond->vars; std::vector<bool> used(pc.size(), false); bool ch = true;
  std::vector<bool> inV;
  auto addV = [&](const VarSet* s) { for (u32 x : s->v) { if (x >= inV.size()) inV.resize(x + 1, false); inV[x] = true; } };
  addV(vs);
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      bool hit = false; for (u32 x : pc[i]->vars->v) if (x < inV.size() && inV[x]) { hit = true; break; }
      if (hit) { used[i] = true; slice.push_back(pc[i]); addV(pc[i]->vars); ch = true; }
    }
  }
  std::vector<u32> vv; for (size_t i = 0; i < inV.size(); i++) if (inV[i]) vv.push_back((u32)i);
  std::vector<u32> ids; for (E e : slice) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  u64 h = 1469598103934665603ULL; for (u32 x : ids) h = ExprPool::mix(h, x);
  auto it = cache.find(h); CacheEnt* ce;
  if (it != cache.end()) { cacheHits++; ce = &it->second; }
  else {
    // a constraint that only says what a variable seen nowhere else is (or is not) can always be met: it is
    // set aside and the variable computed from the rest
    struct Def { u32 v; E eq; bool neg; }; std::vector<Def> defs; std::vector<E> rest = slice; std::sort(rest.begin(), rest.end(), [](E x, E y) { return x->id < y->id; }); rest.erase(std::unique(rest.begin(), rest.end()), rest.end());
    for (bool again = true; again && rest.size() < 400;) {
      again = false; std::vector<u32> cnt(inV.size(), 0); for (E e : rest) for (u32 x : e->vars->v) cnt[x]++;
      for (size_t i = 0; i < rest.size() && !again; i++) {
        E c = rest[i]; bool neg = false; if (c->k == EK::Xor && c->w == 1 && isC(c->b, 1)) { neg = true; c = c->a; } if (c->k != EK::Eq) continue;
        std::vector<E> l, st{c->a, c->b}; while (!st.empty() && l.size() < 2000) { E x = st.back(); st.pop_back(); if (x->k == EK::Xor) { st.push_back(x->a); st.push_back(x->b); } else l.push_back(x); } if (!st.empty()) continue;
        for (E x : l) if (x->k == EK::Var && cnt[(u32)x->val] == 1) { u32 v = (u32)x->val; size_t uses = 0; for (E y : l) if (y->vars) uses += std::binary_search(y->vars->v.begin(), y->vars->v.end(), v); if (uses != 1) continue; defs.push_back({v, c, neg}); rest.erase(rest.begin() + i); again = true; break; }
      }
    }
    std::vector<u32> rv; for (u32 x : vv) { bool d = false; for (auto& q : defs) if (q.v == x) d = true; if (!d) rv.push_back(x); }
    CacheEnt n; VarSet tmp{rv}; if (rest.empty()) { n.r = 1; for (u32 x : rv) n.model.push_back({x, base && x < base->size() ? (*base)[x] : 0}); } else n.r = z3check(rest, n.model, &tmp);
    if (n.r == 1 && !defs.empty()) {
      ModelVec mv; for (auto& q : n.model) { if (q.first >= mv.size()) mv.resize(q.first + 1, 0); mv[q.first] = q.second; }
      for (size_t i = defs.size(); i-- > 0;) { Def& d = defs[i]; if (d.v >= mv.size()) mv.resize(d.v + 1, 0); mv[d.v] = 0; u128 x = evalE(d.eq->a, mv) ^ evalE(d.eq->b, mv); if (d.neg) x = ~x & maskW(d.eq->a->w); mv[d.v] = (u64)x; n.model.push_back({d.v, (u64)x}); }
    }
    ce = &(cache[h] = std::move(n));
  }
  if (ce->r == 1 && out) {
    auto mv = std::make_shared<ModelVec>(base ? *base : ModelVec());
    for (auto& p : ce->model) { if (p.first >= mv->size()) mv->resize(p.first + 1, 0); (*mv)[p.first] = p.second; }
    *out = mv;
  }
  return ce->r;
}
