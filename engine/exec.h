#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>

using llvm::Function; using llvm::Instruction; using llvm::BasicBlock; using llvm::Constant; using llvm::Type;

struct Val {
  E e = nullptr; u64 c = 0; u32 w = 0; const std::vector<Val>* agg = nullptr;
  Val() {}
  Val(u64 v, u32 width) : c(width >= 64 ? v : v & ((1ULL << width) - 1)), w(width) {}
  static Val ex(E x) { Val v; v.w = x->w; if (isC(x) && x->w <= 64) { v.c = (u64)x->val; } else v.e = x; return v; }
  static Val ag(std::vector<Val>&& a) { Val v; v.agg = new std::vector<Val>(std::move(a)); return v; }
  bool con() const { return !e && !agg; }
  E expr() const { return e ? e : C(c, w); }
  i64 sc() const { return (i64)sx(c, w); }
};

enum { OK_HEAP = 1, OK_STACK, OK_GLOBAL, OK_CONST };
enum { AK_MALLOC = 1, AK_NEW, AK_NEWARR, AK_EXC };
struct Obj {
  u64 addr, size; int rc = 0; u8 kind; u8 ak = 0; bool ro = false; bool shared = false; u32 seq = 0;
  const char* site = "";
  u8* d; E* s = nullptr;
  Obj(u64 a, u64 n, u8 k) : addr(a), size(n), kind(k) { d = (u8*)malloc(n ? n : 1); memset(d, 0xAA, n ? n : 1); }
  Obj(const Obj& o) : addr(o.addr), size(o.size), kind(o.kind), ak(o.ak), ro(o.ro), shared(o.shared), seq(o.seq), site(o.site) {
    d = (u8*)malloc(size ? size : 1); memcpy(d, o.d, size); if (o.s) { s = (E*)malloc(sizeof(E) * (size ? size : 1)); memcpy(s, o.s, sizeof(E) * size); }
  }
  ~Obj() { free(d); free(s); }
};
struct ORef {
  Obj* p = nullptr; ORef() {} explicit ORef(Obj* o) : p(o) { if (p) p->rc++; } ORef(const ORef& o) : p(o.p) { if (p) p->rc++; }
  ORef(ORef&& o) noexcept : p(o.p) { o.p = nullptr; } ORef& operator=(ORef o) { std::swap(p, o.p); return *this; }
  ~ORef() { if (p && --p->rc == 0) delete p; }
};

struct Opnd { bool k; u32 reg; Val cv; };
struct DI {
  unsigned opc; const Instruction* I; int dst = -1; u32 w = 0; u8 kind = 0; u64 sz = 0; const Type* ty = nullptr;
  std::vector<Opnd> ops; u32 t0 = 0, t1 = 0; unsigned pred = 0; i64 off = 0; std::vector<std::pair<u32, i64>> gep;  // (op idx, scale)
  std::vector<std::pair<u32, Opnd>> phi; std::vector<std::pair<u64, u32>> cases; const Function* callee = nullptr; int builtin = -1; unsigned intr = 0;
};
struct DF { const Function* F; std::vector<DI> code; std::vector<u32> bbStart; u32 nregs = 0, nargs = 0; bool inRepo = false; std::string name, file; u64 calls = 0; };

struct Frame { int rc = 0; DF* f; u32 pc = 0, bb = 0, prevbb = 0; std::vector<Val> regs; std::vector<u64> allocas; std::vector<u64> stackMarks; };
struct FRef {
  Frame* p = nullptr; FRef() {} explicit FRef(Frame* o) : p(o) { if (p) p->rc++; } FRef(const FRef& o) : p(o.p) { if (p) p->rc++; }
  FRef(FRef&& o) noexcept : p(o.p) { o.p = nullptr; } FRef& operator=(FRef o) { std::swap(p, o.p); return *this; }
  ~FRef() { if (p && --p->rc == 0) delete p; }
};

struct TapeEnt { std::string name; u32 w; E e; u64 c; };
struct OutEnt { E e; u64 c; u32 w; };

struct State {
  u32 id = 0; std::vector<FRef> stack; std::vector<ORef> mem; u64 next = 0x1000000000ULL; u32 allocSeq = 0;
  std::vector<E> pc; Model model; std::vector<TapeEnt> tape; std::vector<OutEnt> out; std::map<u64, u64> excTi; std::map<std::string, u32> nameCnt;
  u64 steps = 0; u32 forks = 0; bool dead = false; std::vector<std::string> notes; std::set<std::string> reached; std::vector<std::pair<u64, Val>> kv;
  std::shared_ptr<void> ext;  // memory-model mode data
  bool quiet = false;
  std::vector<std::tuple<u32, u64, u64>> tls;   // fiber, thread-local global, its copy
  std::vector<std::vector<FRef>> fibers; u32 cur = 0;   // suspended stacks; fibers[cur] is unused while running
};
