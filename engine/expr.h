// Hash-consed bit-vector expressions, a local simplifier, evaluation under a
// model, and the z3 back end (constraint slicing, model reuse, query cache).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum class EK : u8 { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle, FEq, FLt, FLe, FAdd, FSub, FMul, FDiv, U2F, S2F, F2U, F2S, F2F };

struct VarSet { std::vector<u32> v; };

struct Expr {
  EK k; u16 w; u32 id;
  const Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u128 val = 0;  // Const value, Var index, Extract low bit
  const VarSet* vars = nullptr;
  mutable Z3_ast z = nullptr;
  mutable u32 evEpoch = 0; mutable u128 evVal = 0;
};
typedef const Expr* E;

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskW(w); return (i128)((v ^ m)) - (i128)m; }

struct VarInfo { std::string name; unsigned w; };

struct ExprPool {
  struct Key { EK k; u16 w; E a, b, c; u128 val; };
  std::vector<Expr*> table; size_t count = 0; u32 nextId = 1;
  std::vector<VarInfo> varInfos;
  std::unordered_map<u64, std::vector<const VarSet*>> vsIntern;
  ExprPool() { table.assign(1 << 16, nullptr); }
  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
  static u64 hash(EK k, u16 w, E a, E b, E c, u128 val) {
    u64 h = mix((u64)k * 131 + w, (u64)val); h = mix(h, (u64)(val >> 64));
    h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0); return h ^ (h >> 29);
  }
  const VarSet* internVS(std::vector<u32>&& v) {
    u64 h = v.size(); for (u32 x : v) h = mix(h, x);
    auto& bucket = vsIntern[h];
    for (auto* s : bucket) if (s->v == v) return s;
    auto* s = new VarSet{std::move(v)}; bucket.push_back(s); return s;
  }
  const VarSet* unionVS(const VarSet* x, const VarSet* y) {
    if (!x || x->v.empty()) return y; if (!y || y->v.empty()) return x; if (x == y) return x;
    std::vector<u32> r; r.reserve(x->v.size() + y->v.size());
    std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    if (r.size() == x->v.size()) return x; if (r.size() == y->v.size()) return y;
    return internVS(std::move(r));
  }
  E raw(EK k, u16 w, E a, E b, E c, u128 val) {
    u64 h = hash(k, w, a, b, c, val); size_t m = table.size() - 1, i = h & m;
    while (Expr* e = table[i]) { if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val) return e; i = (i + 1) & m; }
    Expr* e = new Expr; e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->id = nextId++;
    if (k == EK::Var) e->vars = internVS({(u32)val});
    else { const VarSet* s = nullptr; if (a) s = a->vars; if (b) s = unionVS(s, b->vars); if (c) s = unionVS(s, c->vars); e->vars = s; }
    table[i] = e;
    if (++count * 2 > table.size()) rehash();
    return e;
  }
  void rehash() {
    std::vector<Expr*> old = std::move(table); table.assign(old.size() * 2, nullptr); size_t m = table.size() - 1;
    for (Expr* e : old) if (e) { size_t i = hash(e->k, e->w, e->a, e->b, e->c, e->val) & m; while (table[i]) i = (i + 1) & m; table[i] = e; }
  }
  E cst(u128 v, unsigned w) { return raw(EK::Const, w, nullptr, nullptr, nullptr, v & maskW(w)); }
  E var(const std::string& name, unsigned w) { u32 i = varInfos.size(); varInfos.push_back({name, w}); return raw(EK::Var, w, nullptr, nullptr, nullptr, i); }
};
extern ExprPool XP;

static inline bool isC(E e) { return e->k == EK::Const; }
static inline bool isC(E e, u128 v) { return e->k == EK::Const && e->val == v; }
static inline E C(u128 v, unsigned w) { return XP.cst(v, w); }

u128 foldBin(EK k, unsigned w, u128 a, u128 b);  // w: operand width
E mkBin(EK k, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkFConv(EK k, E a, unsigned w);  // numeric conversions; floating-point values are their bit patterns
extern bool gHaveFP;
E mkNot(E a);  // width 1
static inline E mkEq(E a, E b) { return mkBin(EK::Eq, a, b); }
static inline E mkAnd(E a, E b) { return mkBin(EK::And, a, b); }
static inline E mkOr(E a, E b) { return mkBin(EK::Or, a, b); }

typedef std::vector<u64> ModelVec;              // var index -> value (missing = 0)
typedef std::shared_ptr<const ModelVec> Model;  // vars wider than 64 are never created
u128 evalE(E e, const ModelVec& m);
void evalNewEpoch();
std::string strE(E e, int depth = 6);

struct Solver {
  Z3_context ctx; Z3_solver s = nullptr;
  u64 queries = 0, cacheHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, assertQueries = 0; double z3time = 0;
  unsigned timeoutMs = 120000;
  struct CacheEnt { int r; std::vector<std::pair<u32, u64>> model; };
  std::unordered_map<u64, CacheEnt> cache;
  Solver();
  Z3_ast tr(E e);
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  // Is pc && cond satisfiable?  1 sat (model filled: base overridden), 0 unsat, -1 unknown.
  int check(const std::vector<E>& pc, E cond, const Model& base, Model* out);
  int z3check(const std::vector<E>& cs, std::vector<std::pair<u32, u64>>& model, const VarSet* vs);
};
