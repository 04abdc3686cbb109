// Symbolic interpreter for LLVM IR (see DESIGN.md, "The engine").
#include "exec.h"
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <charconv>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <atomic>
#include <cmath>
#include <iostream>
using namespace llvm;

static std::unique_ptr<Module> M; static const DataLayout* DL; static Solver* SV;
static std::map<std::string, i64> params; static std::string repoPrefix = "/repo/";
static u64 maxSteps = 20000000, maxPaths = 1000000000; static double maxSeconds = 1e9; static int verbose = 0; static size_t maxViol = 1; static int keepTapes = 40;
static std::string outFile; static double t0abs;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Violation { std::string msg, kind, stack; std::vector<std::pair<std::string, std::pair<u32, u64>>> tape; std::vector<u64> out; };
struct Results {
  u64 paths = 0, killed = 0, instrs = 0, forks = 0, states = 0, assertsChecked = 0, assertsSym = 0; std::map<std::string, u64> reach, incomplete, asserts; std::vector<Violation> viol; std::vector<Violation> tapes; std::set<std::string> funcs;
} R;

// ------------------------------------------------------------- globals
static std::unordered_map<const GlobalValue*, u64> gaddr; static std::unordered_map<u64, const Function*> fnAt; static std::vector<ORef> constObjs; static std::unordered_map<const Function*, DF*> dfs;
static std::vector<ORef> initMem;
static std::map<u64, std::string> freedLog;
struct PathEnd {}; // thrown to stop the current path
struct Restart {}; // thrown to re-execute the current instruction (never crosses side effects)

static State* S; static std::vector<State*> work; static u32 nextStateId = 1;

[[noreturn]] static void fatal(const std::string& m) { std::cerr << "kse: fatal: " << m << "\n"; fflush(stdout); _exit(4); }
static std::string locStr(const Instruction* I) {
  std::string r; if (!I) return r; r = demangle(I->getFunction()->getName().str()); if (r.size() > 160) r = r.substr(0, 157) + "...";
  if (auto& dl = I->getDebugLoc()) { const DILocation* d = dl.get(); r += " at " + (d->getFilename().str()) + ":" + std::to_string(d->getLine());
    while ((d = d->getInlinedAt())) r += " <- " + d->getFilename().str().substr(d->getFilename().str().rfind('/') + 1) + ":" + std::to_string(d->getLine()); }
  return r;
}
static std::string stackStr() { std::string r; for (size_t i = S->stack.size(); i-- > 0;) { Frame* f = S->stack[i].p; r += "  " + locStr(f->f->code[f->pc].I) + "\n"; } return r; }

static u128 evalCur(E e) { static ModelVec empty; return evalE(e, S->model ? *S->model : empty); }
static void fillTape(Violation& v, const ModelVec& m) {
  for (auto& t : S->tape) v.tape.push_back({t.name, {t.w, t.e ? (u64)evalE(t.e, m) : t.c}});
  for (auto& o : S->out) v.out.push_back(o.e ? (u64)evalE(o.e, m) : o.c);
}
static void report(const std::string& kind, const std::string& msg, const Model& m) {
  for (auto& v : R.viol) if (v.msg == msg && v.kind == kind) return;
  Violation v; v.kind = kind; v.msg = msg; v.stack = stackStr(); static ModelVec empty; fillTape(v, m ? *m : empty);
  if (verbose) std::cerr << "kse: " << kind << ": " << msg << "\n" << v.stack;
  R.viol.push_back(v);
}
[[noreturn]] static void killPath() { throw PathEnd(); }
[[noreturn]] static void violate(const std::string& kind, const std::string& msg) { if (!S->quiet) report(kind, msg, S->model); else R.killed++; R.reach["<violating path>"]++; killPath(); }
[[noreturn]] static void incomplete(const std::string& why) { R.incomplete[why + " @ " + (S->stack.empty() ? "" : locStr(S->stack.back().p->f->code[S->stack.back().p->pc].I))]++; killPath(); }

static Frame* top() { FRef& r = S->stack.back(); if (r.p->rc > 1) { Frame* n = new Frame(*r.p); n->rc = 0; r = FRef(n); } return r.p; }
static State* cloneState() { State* n = new State(*S); n->id = nextStateId++; R.states++; R.forks++; S->forks++; n->forks = S->forks; return n; }

// add constraint known feasible with current model satisfying it
static void addPC(E c) { if (isC(c)) return; S->pc.push_back(c); }

static int checkSat(E cond, Model* out) {
  int r = SV->check(S->pc, cond, S->model, out);
  if (r < 0) incomplete("solver gave no answer");
  return r;
}
// Decide a symbolic branch: returns the side the current state takes; the other side, if feasible, is queued (it re-executes the current instruction).
static bool branchOn(E cond) {
  if (isC(cond)) return cond->val != 0;
  bool side = evalCur(cond) != 0; E taken = side ? cond : mkNot(cond), other = mkNot(taken);
  Model om; int r = checkSat(other, &om);
  if (r == 1) { State* n = cloneState(); n->pc.push_back(other); n->model = om; work.push_back(n); addPC(taken); }
  return side;
}
static u64 concretize(const Val& v) {
  if (v.con()) return v.c; if (v.agg) fatal("concretize aggregate");
  u64 x = (u64)evalCur(v.e); E eq = mkEq(v.e, C(x, v.w)); branchOn(eq); return x;
}

// ------------------------------------------------------------- memory
static ORef* findIn(std::vector<ORef>& v, u64 a) {
  size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p->addr <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; ORef* r = &v[lo - 1]; if (a < r->p->addr + r->p->size || (r->p->size == 0 && a == r->p->addr)) return r; 
  return nullptr;
}
static ORef* findObj(u64 a) { if (ORef* r = findIn(S->mem, a)) return r; return findIn(constObjs, a); }
static Obj* wr(ORef* r) { if (r->p->rc > 1) { Obj* n = new Obj(*r->p); n->rc = 0; *r = ORef(n); } return r->p; }
static void ensureSym(Obj* o) { if (!o->s) { o->s = (E*)calloc(o->size ? o->size : 1, sizeof(E)); } }
static u64 allocObj(u64 size, u64 align, u8 kind, u8 ak) {
  if (align < 16) align = 16; u64 a = (S->next + align - 1) / align * align; S->next = a + size + 32;
  Obj* o = new Obj(a, size, kind); o->ak = ak; o->seq = S->allocSeq++; S->mem.push_back(ORef(o)); return a;
}
static std::map<u64, Obj*> tlsImage;   // initial contents of thread-local globals
// a fiber is a thread: each has its own copy, the first one uses the global itself
static u64 tlsAddress(u64 g) {
  if (!S->cur) return g; for (auto& t : S->tls) if (std::get<0>(t) == S->cur && std::get<1>(t) == g) return std::get<2>(t);
  auto it = tlsImage.find(g); if (it == tlsImage.end()) return g; Obj* im = it->second; u64 a = allocObj(im->size, 16, OK_GLOBAL, 0); Obj* o = S->mem.back().p; memcpy(o->d, im->d, im->size); o->site = im->site; S->tls.push_back({S->cur, g, a}); return a;
}
static std::string ptrDesc(u64 a) {
  char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)a); std::string r = b;
  if (a < 4096) return r + " (null dereference)";
  auto it = freedLog.upper_bound(a); if (it != freedLog.begin()) { --it; u64 sz = std::stoull(it->second); if (a < it->first + sz + 32) return r + (a < it->first + sz ? " (inside a freed object)" : " (past the end of a freed object)"); }
  for (auto& o : S->mem) if (a >= o.p->addr && a < o.p->addr + o.p->size + 32) return r + " (out of bounds of a " + std::to_string(o.p->size) + "-byte " + (o.p->kind == OK_HEAP ? "heap" : o.p->kind == OK_STACK ? "stack" : "global") + " object, offset " + std::to_string(a - o.p->addr) + ")";
  return r + " (wild)";
}
static Obj* accessObj(u64 a, u64 n, bool write, bool forW, ORef** out = nullptr) {
  ORef* r = findObj(a);
  if (!r || a + n > r->p->addr + r->p->size) violate("memory", std::string("invalid ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + ptrDesc(a));
  if (write && r->p->ro) violate("memory", "write to read-only memory at " + ptrDesc(a));
  if (out) *out = r; return (write || forW) ? wr(r) : r->p;
}
static Val readBytes(Obj* o, u64 off, u64 nbytes, u32 w) {
  bool sym = false; if (o->s) for (u64 i = 0; i < nbytes; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym && w <= 64) { u64 v = 0; memcpy(&v, o->d + off, nbytes); return Val(v, w); }
  E r = nullptr; for (u64 i = 0; i < nbytes; i++) { E b = (o->s && o->s[off + i]) ? o->s[off + i] : C(o->d[off + i], 8); r = r ? mkConcat(b, r) : b; }
  if (r->k == EK::Extract && r->a->k == EK::Xor) r = mkExtract(r->a, (unsigned)r->val, r->w);
  if (r->w > w) r = mkExtract(r, 0, w); return Val::ex(r);
}
static void writeBytes(Obj* o, u64 off, u64 nbytes, const Val& v) {
  if (v.con()) { u64 x = v.c; memcpy(o->d + off, &x, nbytes); if (o->s) memset(o->s + off, 0, nbytes * sizeof(E)); return; }
  E e = v.e; if (e->w < nbytes * 8) e = mkZExt(e, nbytes * 8);
  ensureSym(o);
  bool whole = nbytes > 1 && e->k == EK::Xor && e->w == nbytes * 8;   // kept in one piece: reading it back gives the same term
  for (u64 i = 0; i < nbytes; i++) { E b = whole ? XP.raw(EK::Extract, 8, e, nullptr, nullptr, i * 8) : mkExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = (u8)b->val; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
// hooks for the memory-model mode
struct MMHooks { virtual ~MMHooks() {} virtual bool load(const Val& a, u64 n, u32 w, int order, Val& out) = 0; virtual bool store(const Val& a, u64 n, const Val& v, int order) = 0; virtual bool rmw(const Val&, u64, u32, int, const Val&, int, Val&) = 0; virtual bool cas(const Val&, u64, u32, const Val&, const Val&, int, int, bool, Val&, Val&) = 0; virtual void fence(int) = 0; };
static MMHooks* MM = nullptr;

// Resolve a possibly symbolic address: on return either concrete address, or symbolic within *obj.
static bool resolve(const Val& av, u64 n, bool write, u64& a) {
  if (av.con()) { a = av.c; return true; }
  a = (u64)evalCur(av.e); ORef* r = findObj(a);
  if (!r || a + n > r->p->addr + r->p->size) violate("memory", std::string("invalid symbolic ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + ptrDesc(a));
  E inb = mkBin(EK::Ule, mkBin(EK::Sub, av.e, C(r->p->addr, 64)), C(r->p->size - n, 64));
  branchOn(inb);
  return false;
}
static std::vector<u64> enumVals(E e, size_t limit, bool& complete) {
  std::vector<u64> vals; std::vector<E> save = S->pc; Model m = S->model; complete = false;
  E cur = C(1, 1);
  for (;;) {
    u64 v = (u64)evalE(e, *m); vals.push_back(v); if (vals.size() > limit) break;
    cur = mkAnd(cur, mkNot(mkEq(e, C(v, e->w)))); Model nm; int r = SV->check(S->pc, cur, S->model, &nm); if (r < 0) incomplete("solver gave no answer"); if (!r) { complete = true; break; } m = nm;
  }
  return vals;
}
static Val loadInt(const Val& av, u64 nbytes, u32 w) {
  u64 a; if (resolve(av, nbytes, false, a)) { Obj* o = accessObj(a, nbytes, false, false); return readBytes(o, a - o->addr, nbytes, w); }
  ORef* r = findObj(a); bool complete; auto vals = enumVals(av.e, 300, complete);
  if (!complete) { a = concretize(av); Obj* o = accessObj(a, nbytes, false, false); return readBytes(o, a - o->addr, nbytes, w); }
  std::sort(vals.begin(), vals.end()); E res = nullptr;
  for (size_t i = 0; i < vals.size(); i++) { E v = readBytes(r->p, vals[i] - r->p->addr, nbytes, w).expr(); res = res ? mkIte(mkEq(av.e, C(vals[i], 64)), v, res) : v; }
  return Val::ex(res);
}
static void storeInt(const Val& av, u64 nbytes, const Val& v) {
  u64 a; if (!resolve(av, nbytes, true, a)) a = concretize(av);
  Obj* o = accessObj(a, nbytes, true, true); writeBytes(o, a - o->addr, nbytes, v);
}
static u64 tySize(const Type* t) { return DL->getTypeStoreSize(const_cast<Type*>(t)); }
static Val addV(const Val& a, u64 off) { if (!off) return a; if (a.con()) return Val(a.c + off, 64); return Val::ex(mkBin(EK::Add, a.e, C(off, 64))); }
static Val loadTy(const Val& av, const Type* t, int order = -1) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(const_cast<StructType*>(st)); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(addV(av, sl->getElementOffset(i)), st->getElementType(i))); return Val::ag(std::move(v)); }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(addV(av, i * es), at->getElementType())); return Val::ag(std::move(v)); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 eb = DL->getTypeSizeInBits(vt->getElementType()); if (eb % 8) { Val whole = loadInt(av, tySize(t), DL->getTypeSizeInBits(const_cast<Type*>(t))); std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(Val::ex(mkExtract(whole.expr(), i * eb, eb))); return Val::ag(std::move(v)); }
    std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(addV(av, i * eb / 8), vt->getElementType())); return Val::ag(std::move(v)); }
  u32 w = DL->getTypeSizeInBits(const_cast<Type*>(t)); u64 n = tySize(t); Val r;
  if (MM && MM->load(av, n, w, order, r)) return r;
  return loadInt(av, n, w);
}
static void storeTy(const Val& av, const Type* t, const Val& v, int order = -1) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(const_cast<StructType*>(st)); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(addV(av, sl->getElementOffset(i)), st->getElementType(i), (*v.agg)[i]); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeTy(addV(av, i * es), at->getElementType(), (*v.agg)[i]); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 eb = DL->getTypeSizeInBits(vt->getElementType()); if (eb % 8) { E r = nullptr; for (unsigned i = 0; i < vt->getNumElements(); i++) { E x = (*v.agg)[i].expr(); r = r ? mkConcat(x, r) : x; } storeInt(av, tySize(t), Val::ex(r)); return; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(addV(av, i * eb / 8), vt->getElementType(), (*v.agg)[i]); return; }
  u64 n = tySize(t);
  if (MM && MM->store(av, n, v, order)) return;
  storeInt(av, n, v);
}

// ------------------------------------------------------------- constants
static Val zeroOf(const Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : st->elements()) v.push_back(zeroOf(e)); return Val::ag(std::move(v)); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType())); return Val::ag(std::move(v)); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType())); return Val::ag(std::move(v)); }
  u32 w = DL->getTypeSizeInBits(const_cast<Type*>(t)); if (w > 64) return Val::ex(C(0, w)); return Val(0, w);
}
static Val constVal(const Constant* c);
static Val binop(unsigned opc, const Val& a, const Val& b);
static Val castop(unsigned opc, const Val& a, u32 w);
static Val icmp(unsigned pred, const Val& a, const Val& b);
static Val constVal(const Constant* c) {
  const Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue(), ci->getBitWidth()); const APInt& ap = ci->getValue(); if (ci->getBitWidth() > 128) fatal("int > 128 bits"); u128 v = ap.getRawData()[0] | ((u128)ap.getRawData()[1] << 64); return Val::ex(C(v, ci->getBitWidth())); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt ap = cf->getValueAPF().bitcastToAPInt(); if (ap.getBitWidth() <= 64) return Val(ap.getZExtValue(), ap.getBitWidth()); u128 v = ap.getRawData()[0] | ((u128)ap.getRawData()[1] << 64); return Val::ex(C(v, ap.getBitWidth())); }
  if (isa<ConstantPointerNull>(c)) return Val(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* gv = dyn_cast<GlobalValue>(c)) { if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()); auto it = gaddr.find(gv); if (it == gaddr.end()) fatal("no address for " + gv->getName().str()); return Val(it->second, 64); }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(ca->getOperand(i)))); return Val::ag(std::move(v)); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return Val::ag(std::move(v)); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) fatal("constant gep"); return Val(constVal(cast<Constant>(g->getPointerOperand())).c + off.getZExtValue(), 64); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: return castop(ce->getOpcode(), constVal(ce->getOperand(0)), DL->getTypeSizeInBits(ce->getType()));
      case Instruction::ICmp: return icmp(ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      default: if (Instruction::isBinaryOp(ce->getOpcode())) return binop(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("constant: " + os.str());
}
static void initMemory(Obj* o, u64 off, const Constant* c) {
  const Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { memset(o->d + off, 0, DL->getTypeAllocSize(const_cast<Type*>(t))); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMemory(o, off + sl->getElementOffset(i), cast<Constant>(cs->getOperand(i))); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMemory(o, off + i * es, cast<Constant>(ca->getOperand(i))); return; }
  if (auto* cv = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) initMemory(o, off + i * es, cast<Constant>(cv->getOperand(i))); return; }
  writeBytes(o, off, tySize(t), constVal(c));
}

// ------------------------------------------------------------- scalar ops
static EK ekOf(unsigned opc) {
  switch (opc) { case Instruction::Add: return EK::Add; case Instruction::Sub: return EK::Sub; case Instruction::Mul: return EK::Mul; case Instruction::UDiv: return EK::UDiv; case Instruction::SDiv: return EK::SDiv; case Instruction::URem: return EK::URem; case Instruction::SRem: return EK::SRem; case Instruction::And: return EK::And; case Instruction::Or: return EK::Or; case Instruction::Xor: return EK::Xor; case Instruction::Shl: return EK::Shl; case Instruction::LShr: return EK::LShr; case Instruction::AShr: return EK::AShr; }
  fatal("binop");
}
static double asD(const Val& v) { double d; u64 c = v.c; memcpy(&d, &c, 8); return d; }
static float asF(const Val& v) { float d; u32 c = (u32)v.c; memcpy(&d, &c, 4); return d; }
static Val fromD(double d) { u64 c; memcpy(&c, &d, 8); return Val(c, 64); }
static Val fromF(float d) { u32 c; memcpy(&c, &d, 4); return Val(c, 32); }
static Val binop(unsigned opc, const Val& a, const Val& b) {
  if (a.agg) { std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binop(opc, (*a.agg)[i], (*b.agg)[i])); return Val::ag(std::move(r)); }
  if (opc >= Instruction::FAdd && (opc == Instruction::FAdd || opc == Instruction::FSub || opc == Instruction::FMul || opc == Instruction::FDiv || opc == Instruction::FRem)) {
    if ((!a.con() || !b.con()) && opc != Instruction::FRem && (a.w == 64 || a.w == 32)) return Val::ex(mkBin(opc == Instruction::FAdd ? EK::FAdd : opc == Instruction::FSub ? EK::FSub : opc == Instruction::FMul ? EK::FMul : EK::FDiv, a.expr(), b.expr()));
    if (!a.con() || !b.con()) incomplete("symbolic floating point");
    if (a.w == 64) { double x = asD(a), y = asD(b); return fromD(opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : opc == Instruction::FDiv ? x / y : fmod(x, y)); }
    if (a.w == 32) { float x = asF(a), y = asF(b); return fromF(opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : opc == Instruction::FDiv ? x / y : fmodf(x, y)); }
    incomplete("fp width");
  }
  if (a.con() && b.con()) {
    u64 x = a.c, y = b.c; u32 w = a.w;
    switch (opc) {
      case Instruction::Add: return Val(x + y, w); case Instruction::Sub: return Val(x - y, w); case Instruction::Mul: return Val(x * y, w);
      case Instruction::And: return Val(x & y, w); case Instruction::Or: return Val(x | y, w); case Instruction::Xor: return Val(x ^ y, w);
      case Instruction::Shl: return Val(y >= w ? 0 : x << y, w); case Instruction::LShr: return Val(y >= w ? 0 : x >> y, w);
      default: break;
    }
    if ((opc == Instruction::UDiv || opc == Instruction::URem || opc == Instruction::SDiv || opc == Instruction::SRem) && y == 0) violate("arithmetic", "division by zero");
    return Val((u64)foldBin(ekOf(opc), w, x, y), w);
  }
  E x = a.expr(), y = b.expr();
  if (opc == Instruction::UDiv || opc == Instruction::URem || opc == Instruction::SDiv || opc == Instruction::SRem) { if (branchOn(mkEq(y, C(0, y->w)))) violate("arithmetic", "division by zero"); }
  return Val::ex(mkBin(ekOf(opc), x, y));
}
static Val castop(unsigned opc, const Val& a, u32 w) {
  if (a.agg) { std::vector<Val> r; u32 ew = w / a.agg->size(); for (auto& x : *a.agg) r.push_back(castop(opc, x, ew)); return Val::ag(std::move(r)); }
  switch (opc) {
    case Instruction::Trunc: if (a.con()) return Val(a.c, w); return Val::ex(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (a.con() && w <= 64) return Val(a.c, w); return Val::ex(mkZExt(a.expr(), w));
    case Instruction::SExt: if (a.con() && w <= 64) return Val((u64)a.sc(), w); return Val::ex(mkSExt(a.expr(), w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.w == w) return a; if (w < a.w) return castop(Instruction::Trunc, a, w); return castop(Instruction::ZExt, a, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    default: break;
  }
  if (!a.con()) {
    u32 fw = opc == Instruction::UIToFP || opc == Instruction::SIToFP ? w : a.w; if ((fw != 64 && fw != 32) || a.w > 64 || w > 64) incomplete("symbolic floating point cast");
    switch (opc) { case Instruction::FPTrunc: case Instruction::FPExt: return Val::ex(mkFConv(EK::F2F, a.e, w)); case Instruction::UIToFP: return Val::ex(mkFConv(EK::U2F, a.e, w)); case Instruction::SIToFP: return Val::ex(mkFConv(EK::S2F, a.e, w)); case Instruction::FPToUI: return Val::ex(mkFConv(EK::F2U, a.e, w)); case Instruction::FPToSI: return Val::ex(mkFConv(EK::F2S, a.e, w)); }
    incomplete("symbolic floating point cast"); }
  switch (opc) {
    case Instruction::FPTrunc: return fromF((float)asD(a));
    case Instruction::FPExt: if (w == 64 && a.w == 32) return fromD(asF(a)); break;
    case Instruction::UIToFP: return w == 64 ? fromD((double)a.c) : fromF((float)a.c);
    case Instruction::SIToFP: return w == 64 ? fromD((double)a.sc()) : fromF((float)a.sc());
    case Instruction::FPToUI: { double d = a.w == 64 ? asD(a) : asF(a); return Val(d >= 9.2233720368547758e18 ? (u64)d : (u64)(i64)d, w); }
    case Instruction::FPToSI: { double d = a.w == 64 ? asD(a) : asF(a); return Val((u64)(i64)d, w); }
  }
  incomplete("cast");
}
static Val icmp(unsigned p, const Val& a, const Val& b) {
  if (a.agg) { std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); return Val::ag(std::move(r)); }
  if (a.con() && b.con()) {
    u64 x = a.c, y = b.c; i64 sa = a.sc(), sb = b.sc(); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; }
    return Val(r, 1);
  }
  E x = a.expr(), y = b.expr();
  switch (p) { case CmpInst::ICMP_EQ: return Val::ex(mkEq(x, y)); case CmpInst::ICMP_NE: return Val::ex(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return Val::ex(mkBin(EK::Ult, y, x)); case CmpInst::ICMP_UGE: return Val::ex(mkBin(EK::Ule, y, x)); case CmpInst::ICMP_ULT: return Val::ex(mkBin(EK::Ult, x, y)); case CmpInst::ICMP_ULE: return Val::ex(mkBin(EK::Ule, x, y)); case CmpInst::ICMP_SGT: return Val::ex(mkBin(EK::Slt, y, x)); case CmpInst::ICMP_SGE: return Val::ex(mkBin(EK::Sle, y, x)); case CmpInst::ICMP_SLT: return Val::ex(mkBin(EK::Slt, x, y)); case CmpInst::ICMP_SLE: return Val::ex(mkBin(EK::Sle, x, y)); }
  fatal("icmp");
}
static Val fcmp(unsigned p, const Val& a, const Val& b) {
  if (!a.con() || !b.con()) {
    if (a.w != 64 && a.w != 32) incomplete("symbolic floating point compare");
    E x = a.expr(), y = b.expr(), un = mkNot(mkAnd(mkBin(EK::FEq, x, x), mkBin(EK::FEq, y, y))), r = nullptr;
    switch (p & 7) { case 0: r = C(0, 1); break; case 1: r = mkBin(EK::FEq, x, y); break; case 2: r = mkBin(EK::FLt, y, x); break; case 3: r = mkBin(EK::FLe, y, x); break; case 4: r = mkBin(EK::FLt, x, y); break; case 5: r = mkBin(EK::FLe, x, y); break; case 6: r = mkOr(mkBin(EK::FLt, x, y), mkBin(EK::FLt, y, x)); break; default: r = mkNot(un); }
    return Val::ex(p >= 8 ? mkOr(r, un) : r); }
  double x = a.w == 64 ? asD(a) : asF(a), y = b.w == 64 ? asD(b) : asF(b); bool un = std::isnan(x) || std::isnan(y); bool r = false;
  switch (p) { case CmpInst::FCMP_FALSE: r = 0; break; case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = 1; break; }
  return Val(r, 1);
}

// ------------------------------------------------------------- decoding
typedef void (*Builtin)(DI& d, std::vector<Val>& a, Val& ret);
static std::vector<Builtin> builtins; static std::unordered_map<std::string, int> builtinIdx;
static void regB(const char* n, Builtin b) { builtinIdx[n] = builtins.size(); builtins.push_back(b); }

static DF* decode(const Function* F) {
  auto it = dfs.find(F); if (it != dfs.end()) return it->second;
  DF* df = new DF; df->F = F; dfs[F] = df; df->name = F->getName().str();
  if (auto* sp = F->getSubprogram()) { df->file = sp->getFilename().str(); if (!df->file.empty() && df->file[0] != '/') df->file = sp->getDirectory().str() + "/" + df->file; if (df->file.rfind(repoPrefix, 0) == 0) df->inRepo = true; }
  std::unordered_map<const Value*, u32> num; u32 n = 0; for (auto& a : F->args()) num[&a] = n++; df->nargs = n;
  std::unordered_map<const BasicBlock*, u32> bbn; u32 bi = 0;
  for (auto& B : *F) { bbn[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) num[&I] = n++; }
  df->nregs = n;
  auto mkop = [&](const Value* v) -> Opnd { Opnd o; if (auto* c = dyn_cast<Constant>(v)) { o.k = true; o.reg = 0; o.cv = constVal(c); } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { o.k = true; o.reg = 0; o.cv = Val(0, 64); } else { o.k = false; auto f = num.find(v); if (f == num.end()) fatal("operand"); o.reg = f->second; } return o; };
  for (auto& B : *F) {
    df->bbStart.push_back(df->code.size());
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) { if (I.getType()->isVoidTy()) continue; } }
      DI d; d.opc = I.getOpcode(); d.I = &I; if (!I.getType()->isVoidTy()) { d.dst = num[&I]; if (I.getType()->isSized() && I.getType()->isSingleValueType()) d.w = DL->getTypeSizeInBits(I.getType()); }
      d.ty = I.getType();
      if (auto* p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) d.phi.push_back({bbn[p->getIncomingBlock(i)], mkop(p->getIncomingValue(i))}); }
      else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { d.kind = 1; d.ops.push_back(mkop(br->getCondition())); d.t0 = bbn[br->getSuccessor(0)]; d.t1 = bbn[br->getSuccessor(1)]; } else d.t0 = bbn[br->getSuccessor(0)]; }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { d.ops.push_back(mkop(sw->getCondition())); d.t0 = bbn[sw->getDefaultDest()]; for (auto& c : sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbn[c.getCaseSuccessor()]}); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(mkop(g->getPointerOperand())); if (I.getType()->isVectorTy()) fatal("vector gep");
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value* idx = gti.getOperand(); if (StructType* st = gti.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          i64 sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) d.off += ci->getSExtValue() * sc; else { d.gep.push_back({(u32)d.ops.size(), sc}); d.ops.push_back(mkop(idx)); } }
      }
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) d.ops.push_back(mkop(a.get()));
        const Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        d.callee = dyn_cast<Function>(cv);
        if (!d.callee) { d.kind = isa<InlineAsm>(cv) ? 2 : 1; d.ops.push_back(mkop(cb->getCalledOperand())); }
        else { d.intr = d.callee->getIntrinsicID(); auto bt = builtinIdx.find(d.callee->getName().str()); if (bt != builtinIdx.end() && (d.callee->isDeclaration() || true)) d.builtin = bt->second; }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.t0 = bbn[iv->getNormalDest()]; d.t1 = bbn[iv->getUnwindDest()]; }
      }
      else { for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(mkop(o.get())); }
      if (auto* ic = dyn_cast<CmpInst>(&I)) d.pred = ic->getPredicate();
      if (auto* al = dyn_cast<AllocaInst>(&I)) { d.sz = DL->getTypeAllocSize(al->getAllocatedType()); }
      df->code.push_back(std::move(d));
    }
  }
  return df;
}

// ------------------------------------------------------------- control
static void gotoBB(Frame* f, u32 bb) {
  f->prevbb = f->bb; f->bb = bb; u32 p = f->f->bbStart[bb]; auto& code = f->f->code;
  if (code[p].opc == Instruction::PHI) {
    static std::vector<std::pair<int, Val>> tmp; tmp.clear();
    while (code[p].opc == Instruction::PHI) { bool ok = false; for (auto& x : code[p].phi) if (x.first == f->prevbb) { tmp.push_back({code[p].dst, x.second.k ? x.second.cv : f->regs[x.second.reg]}); ok = true; break; } if (!ok) fatal("phi"); p++; }
    for (auto& t : tmp) f->regs[t.first] = t.second;
  }
  f->pc = p;
}
static void removeObj(u64 a, bool logFree) {
  auto& v = S->mem; size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p->addr <= a) lo = m + 1; else hi = m; }
  if (!lo || v[lo - 1].p->addr != a) fatal("removeObj"); if (logFree) freedLog[a] = std::to_string(v[lo - 1].p->size); v.erase(v.begin() + (lo - 1));
}
static void popFrame() { Frame* f = S->stack.back().p; for (size_t i = f->allocas.size(); i-- > 0;) removeObj(f->allocas[i], false); S->stack.pop_back(); }
static void pushFrame(const Function* F, const std::vector<Val>& args) {
  DF* df = decode(F); if (df->inRepo || verbose > 2) { if (!df->calls++) { if (df->inRepo) R.funcs.insert(df->name); } }
  Frame* f = new Frame; f->f = df; f->regs.resize(df->nregs); if (args.size() < df->nargs) fatal("arg count calling " + df->name);
  for (u32 i = 0; i < df->nargs; i++) f->regs[i] = args[i];
  S->stack.push_back(FRef(f)); if (S->stack.size() > 3000) violate("stack", "call depth exceeds 3000 frames (unbounded recursion)");
  u32 i = 0; for (auto& a : F->args()) { if (a.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(a.getParamByValType()); u64 na = allocObj(sz, std::max<u64>(16, a.getParamAlign().valueOrOne().value()), OK_STACK, 0); f->allocas.push_back(na); u64 src = concretize(args[i]); Obj* so = accessObj(src, sz, false, false); Obj* dobj = accessObj(na, sz, true, true); so = accessObj(src, sz, false, false); memcpy(dobj->d, so->d + (src - so->addr), sz); if (so->s) { ensureSym(dobj); memcpy(dobj->s, so->s + (src - so->addr), sz * sizeof(E)); } f->regs[i] = Val(na, 64); } i++; }
  f->bb = 0; f->prevbb = 0; f->pc = df->bbStart[0];
}
static void returnTo(const Val& v) { // top frame is at the call instruction
  Frame* f = top(); DI& d = f->f->code[f->pc]; if (d.dst >= 0) f->regs[d.dst] = v;
  if (d.opc == Instruction::Invoke) gotoBB(f, d.t0); else f->pc++;
}
// type info matching
static std::string tiName(u64 ti, std::vector<u64>* bases) {
  ORef* r = findObj(ti); if (!r) return "?"; u64 np = 0; memcpy(&np, r->p->d + 8, 8); ORef* nr = findObj(np); std::string nm = nr ? (const char*)nr->p->d : "?";
  if (bases) { u64 vt; memcpy(&vt, r->p->d, 8); ORef* vr = findObj(vt - 16); const char* site = vr ? vr->p->site : "";
    if (strstr(site, "si_class_type_info")) { u64 b; memcpy(&b, r->p->d + 16, 8); bases->push_back(b); }
    else if (strstr(site, "vmi_class_type_info")) { u32 n; memcpy(&n, r->p->d + 20, 4); for (u32 i = 0; i < n; i++) { u64 b; memcpy(&b, r->p->d + 24 + 16 * i, 8); bases->push_back(b); } } }
  return nm;
}
static bool tiMatch(u64 thrown, u64 want) { if (thrown == want) return true; std::vector<u64> b; std::string n = tiName(thrown, &b); if (n == tiName(want, nullptr)) return true; for (u64 x : b) if (tiMatch(x, want)) return true; return false; }
static std::map<u64, u32> tiIds; static u32 tiId(u64 ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; std::string n = tiName(ti, nullptr); u32 id = 1000; for (char c : n) id = id * 31 + (u8)c; id &= 0x7fffffff; tiIds[ti] = id; return id; }

static void unwind(u64 exc) { // unwinds from the top frame (which is at a call)
  u64 ti = S->excTi[exc]; bool first = true;
  while (!S->stack.empty()) {
    Frame* f = top(); DI& d = f->f->code[f->pc];
    if (!first || true) if (d.opc == Instruction::Invoke) {
      const auto* lp = cast<InvokeInst>(d.I)->getLandingPadInst(); int sel = -1; 
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) { u64 t = constVal(lp->getClause(i)).c; if (t == 0) { sel = 1; break; } if (tiMatch(ti, t)) { sel = tiId(t); break; } }
        else { // filter: exception specification; matches if the type is not listed
          auto* arr = dyn_cast<ConstantArray>(lp->getClause(i)); bool in = false; if (arr) for (auto& o : arr->operands()) if (tiMatch(ti, constVal(cast<Constant>(o.get())).c)) in = true; if (!in) { sel = -2; break; } }
      }
      if (sel == -1 && lp->isCleanup()) sel = 0;
      if (sel != -1) { gotoBB(f, d.t1); S->kv.clear(); 
        // evaluate the landingpad now
        DI& l = f->f->code[f->pc]; if (l.opc != Instruction::LandingPad) fatal("no landingpad"); f->regs[l.dst] = Val::ag({Val(exc, 64), Val((u64)(u32)sel, 32)}); f->pc++; return; }
    }
    if (f->f->F->doesNotThrow() && !first) violate("exception", "exception " + tiName(ti, nullptr) + " leaves a function that must not throw (std::terminate)");
    if (S->stack.size() == 1) break;
    popFrame(); first = false;
  }
  violate("exception", "uncaught exception of type " + demangle("_ZTI" + tiName(ti, nullptr)));
}

static void doCall(DI& d, const Function* F, std::vector<Val>& args) {
  if (F->isDeclaration()) { incomplete("unmodelled external function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]"); }
  bool must = false; if (auto* ci = dyn_cast<CallInst>(d.I)) must = ci->isMustTailCall();
  if (must && S->stack.size() > 1) { popFrame(); }
  pushFrame(F, args);
}
#include "builtins.inc"
static void mmCopy(u64 dst, u64 src, u64 n) { copyBytes(dst, src, n); }

static void step() {
  Frame* f = top(); DI& d = f->f->code[f->pc]; 
  auto op = [&](unsigned i) -> const Val& { Opnd& o = d.ops[i]; return o.k ? o.cv : f->regs[o.reg]; };
  R.instrs++; if (++S->steps > maxSteps) incomplete("step bound");
  switch (d.opc) {
    case Instruction::Ret: {
      Val v; if (!d.ops.empty()) v = op(0); popFrame(); if (S->stack.empty()) throw PathEnd();
      returnTo(v); return; }
    case Instruction::Br:
      if (d.kind) { const Val& c = op(0); bool t; if (c.con()) t = c.c; else t = branchOn(c.e); f = top(); gotoBB(f, t ? d.t0 : d.t1); } else gotoBB(f, d.t0);
      return;
    case Instruction::Switch: {
      Val c = op(0); if (c.con()) { u32 t = d.t0; for (auto& k : d.cases) if (k.first == c.c) { t = k.second; break; } gotoBB(f, t); return; }
      // group cases by destination
      for (auto& k : d.cases) { if (branchOn(mkEq(c.e, C(k.first, c.w)))) { gotoBB(top(), k.second); return; } }
      gotoBB(top(), d.t0); return; }
    case Instruction::Unreachable: violate("unreachable", "unreachable code reached (undefined behaviour)");
    case Instruction::Alloca: {
      u64 n = d.sz; const Val& cnt = op(0); u64 k = concretize(cnt); f = top(); n *= k; u64 a = allocObj(n, cast<AllocaInst>(d.I)->getAlign().value(), OK_STACK, 0); f->allocas.push_back(a); f->regs[d.dst] = Val(a, 64); break; }
    case Instruction::Load: { auto* li = cast<LoadInst>(d.I); Val v = loadTy(op(0), d.ty, li->isAtomic() ? (int)li->getOrdering() : -1); top()->regs[d.dst] = v; break; }
    case Instruction::Store: { auto* si = cast<StoreInst>(d.I); storeTy(op(1), si->getValueOperand()->getType(), op(0), si->isAtomic() ? (int)si->getOrdering() : -1); break; }
    case Instruction::GetElementPtr: {
      const Val& b = op(0); bool con = b.con(); for (auto& g : d.gep) if (!op(g.first).con()) con = false;
      if (con) { u64 a = b.c + d.off; for (auto& g : d.gep) a += (u64)(op(g.first).sc() * g.second); f->regs[d.dst] = Val(a, 64); }
      else { E a = mkBin(EK::Add, b.expr(), C((u64)d.off, 64)); for (auto& g : d.gep) { const Val& i = op(g.first); E x = i.w < 64 ? mkSExt(i.expr(), 64) : i.expr(); a = mkBin(EK::Add, a, mkBin(EK::Mul, x, C((u64)g.second, 64))); } f->regs[d.dst] = Val::ex(a); }
      break; }
    case Instruction::ICmp: f->regs[d.dst] = icmp(d.pred, op(0), op(1)); break;
    case Instruction::FCmp: f->regs[d.dst] = fcmp(d.pred, op(0), op(1)); break;
    case Instruction::Select: {
      Val c = op(0); if (c.agg) { std::vector<Val> r; for (size_t i = 0; i < c.agg->size(); i++) { auto& ci = (*c.agg)[i]; r.push_back(ci.con() ? (ci.c ? (*op(1).agg)[i] : (*op(2).agg)[i]) : Val::ex(mkIte(ci.e, (*op(1).agg)[i].expr(), (*op(2).agg)[i].expr()))); } f->regs[d.dst] = Val::ag(std::move(r)); break; }
      if (c.con()) { f->regs[d.dst] = c.c ? op(1) : op(2); break; }
      if (op(1).agg || d.ty->isPointerTy()) { bool t = branchOn(c.e); f = top(); Val r = t ? op(1) : op(2); f->regs[d.dst] = r; break; }
      f->regs[d.dst] = Val::ex(mkIte(c.e, op(1).expr(), op(2).expr())); break; }
    case Instruction::Freeze: f->regs[d.dst] = op(0); break;
    case Instruction::FNeg: { const Val& a = op(0); if (!a.con()) { f->regs[d.dst] = Val::ex(mkBin(EK::Xor, a.e, C((u128)1 << (a.w - 1), a.w))); break; } f->regs[d.dst] = Val(a.c ^ (1ULL << (a.w - 1)), a.w); break; }
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(d.I); Val v = op(0); for (unsigned i : ev->indices()) { Val n = (*v.agg)[i]; v = n; } f->regs[d.dst] = v; break; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(d.I); std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& a, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return op(1); std::vector<Val> c = *a.agg; c[ix[0]] = ins(c[ix[0]], ix.slice(1)); return Val::ag(std::move(c)); }; Val r = ins(op(0), iv->getIndices()); f->regs[d.dst] = r; break; }
    case Instruction::ExtractElement: { u64 i = concretize(op(1)); f = top(); Val v = (*op(0).agg)[i]; f->regs[d.dst] = v; break; }
    case Instruction::InsertElement: { u64 i = concretize(op(2)); f = top(); std::vector<Val> c = *op(0).agg; c[i] = op(1); f->regs[d.dst] = Val::ag(std::move(c)); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(d.I); const auto &a = *op(0).agg, &b = *op(1).agg; std::vector<Val> r; for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? a[0] : (size_t)m < a.size() ? a[m] : b[m - a.size()]); f->regs[d.dst] = Val::ag(std::move(r)); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
      f->regs[d.dst] = castop(d.opc, op(0), d.w); break;
    case Instruction::BitCast: {
      const Val& a = op(0); auto* vt = dyn_cast<FixedVectorType>(d.ty);
      if (!a.agg && !vt) { f->regs[d.dst] = a; break; }
      E whole; if (a.agg) { whole = nullptr; for (auto& x : *a.agg) whole = whole ? mkConcat(x.expr(), whole) : x.expr(); } else whole = a.expr();
      if (vt) { u32 ew = DL->getTypeSizeInBits(vt->getElementType()); std::vector<Val> r; for (u32 i = 0; i < vt->getNumElements(); i++) r.push_back(Val::ex(mkExtract(whole, i * ew, ew))); f->regs[d.dst] = Val::ag(std::move(r)); } else f->regs[d.dst] = Val::ex(whole);
      break; }
    case Instruction::Fence: if (MM) MM->fence((int)cast<FenceInst>(d.I)->getOrdering()); break;
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(d.I); u64 n = tySize(cx->getCompareOperand()->getType()); u32 w = DL->getTypeSizeInBits(cx->getCompareOperand()->getType()); Val p = op(0), c = op(1), nw = op(2), old, ok;
      if (MM && MM->cas(p, n, w, c, nw, (int)cx->getSuccessOrdering(), (int)cx->getFailureOrdering(), cx->isWeak(), old, ok)) { f = top(); f->regs[d.dst] = Val::ag({old, ok}); break; }
      old = loadInt(p, n, w); Val eq = icmp(CmpInst::ICMP_EQ, old, c); bool t = eq.con() ? eq.c : branchOn(eq.e); f = top();
      if (t) storeInt(p, n, nw); f = top(); f->regs[d.dst] = Val::ag({old, Val(t, 1)}); break; }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(d.I); u64 n = tySize(rm->getValOperand()->getType()); u32 w = DL->getTypeSizeInBits(rm->getValOperand()->getType()); Val p = op(0), v = op(1), old;
      if (MM && MM->rmw(p, n, w, (int)rm->getOperation(), v, (int)rm->getOrdering(), old)) { top()->regs[d.dst] = old; break; }
      old = loadInt(p, n, w); Val nv = rmwApply(rm->getOperation(), old, v); storeInt(p, n, nv); top()->regs[d.dst] = old; break; }
    case Instruction::Resume: { u64 exc = (*op(0).agg)[0].c; if (S->stack.size() <= 1) violate("exception", "uncaught exception of type " + tiName(S->excTi[exc], nullptr)); popFrame(); unwind(exc); return; }
    case Instruction::LandingPad: fatal("stray landingpad");
    case Instruction::Call: case Instruction::Invoke: execCall(d); return;
    default:
      if (Instruction::isBinaryOp(d.opc)) { Val r = binop(d.opc, op(0), op(1)); top()->regs[d.dst] = r; break; }
      fatal(std::string("instruction ") + d.I->getOpcodeName());
  }
  top()->pc++;
}

// ------------------------------------------------------------- exploration
struct Shared { std::atomic<int> slots; std::atomic<int> stop; std::atomic<u64> paths; }; static Shared* SH; static std::vector<pid_t> kids; static bool isChild = false; static std::string myOut;

static void endPath() {
  R.paths++; SH->paths++;
  for (auto& r : S->reached) R.reach[r]++;
  if ((int)R.tapes.size() < keepTapes || (R.paths & (R.paths - 1)) == 0) { Violation v; v.kind = "path"; static ModelVec empty; fillTape(v, S->model ? *S->model : empty); if ((int)R.tapes.size() < keepTapes) R.tapes.push_back(v); else R.tapes[(R.paths * 7919) % keepTapes] = v; }
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void dumpViol(std::ostream& o, const Violation& v) {
  o << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"tape\":["; bool f = true;
  for (auto& t : v.tape) { o << (f ? "" : ",") << "[\"" << jesc(t.first) << "\"," << t.second.first << "," << t.second.second << "]"; f = false; } o << "],\"out\":["; f = true; for (u64 x : v.out) { o << (f ? "" : ",") << x; f = false; } o << "]}";
}
static void writeResults(const std::string& fn, double wall) {
  std::ofstream o(fn); auto mp = [&](const char* n, std::map<std::string, u64>& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& x : m) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } o << "}"; };
  o << "{\"paths\":" << R.paths << ",\"killed\":" << R.killed << ",\"instrs\":" << R.instrs << ",\"forks\":" << R.forks << ",\"asserts_checked\":" << R.assertsChecked << ",\"asserts_symbolic\":" << R.assertsSym << ",\"queries\":" << SV->queries << ",\"cache_hits\":" << SV->cacheHits << ",\"z3_calls\":" << SV->z3calls << ",\"sat\":" << SV->sat << ",\"unsat\":" << SV->unsat << ",\"unknown\":" << SV->unknown << ",\"solver_s\":" << SV->z3time << ",\"wall_s\":" << wall;
  mp("reach", R.reach); mp("incomplete", R.incomplete); mp("asserts", R.asserts);
  o << ",\"funcs\":["; bool f = true; for (auto& x : R.funcs) { o << (f ? "" : ",") << "\"" << jesc(demangle(x)) << "\""; f = false; } o << "]";
  o << ",\"violations\":["; f = true; for (auto& v : R.viol) { if (!f) o << ","; dumpViol(o, v); f = false; } o << "],\"tapes\":["; f = true; for (auto& v : R.tapes) { if (!f) o << ","; dumpViol(o, v); f = false; } o << "]}\n";
}
static void maybeSplit() {
  if (work.size() < 1) return; int s = SH->slots.load(); if (s <= 0) return; if (!SH->slots.compare_exchange_strong(s, s - 1)) return;
  // oldest state goes to a child process
  char b[64]; static int kidN = 0; snprintf(b, 64, ".%d.%d", (int)getpid(), kidN++); std::string fn = outFile + b; fflush(stdout); fflush(stderr);
  pid_t p = fork(); if (p < 0) { SH->slots++; return; }
  if (p == 0) { isChild = true; State* keep = work[0]; work.clear(); work.push_back(keep); delete S; S = nullptr; kids.clear(); R = Results(); SV->queries = SV->cacheHits = SV->z3calls = SV->sat = SV->unsat = SV->unknown = 0; SV->z3time = 0; myOut = fn; throw Restart(); }
  kids.push_back(p); delete work[0]; work.erase(work.begin()); std::ofstream lst(outFile + ".kids", std::ios::app); lst << fn << "\n";
}
static void runAll() {
  double lastSplit = nowS();
  while (!work.empty()) {
    S = work.back(); work.pop_back();
    try {
      try { for (u64 i = 0;; i++) { step(); if ((i & 1023) == 0) { double t = nowS(); if (t - t0abs > maxSeconds) { SH->stop = 1; incomplete("time bound"); } if (SH->stop.load()) { killPath(); } if (t - lastSplit > 0.05) { lastSplit = t; maybeSplit(); } } } }
      catch (PathEnd&) { if (S->stack.empty()) endPath(); else R.killed++; }
      delete S; S = nullptr; if (R.viol.size() >= maxViol) SH->stop = 1; if (SH->paths.load() > maxPaths) { SH->stop = 1; R.incomplete["path bound"]++; }
      if (nowS() - t0abs > maxSeconds && !SH->stop.load()) { SH->stop = 1; R.incomplete["time bound"]++; } if (SH->stop.load()) { for (auto* w : work) delete w; work.clear(); }
    } catch (Restart&) { lastSplit = nowS(); }
  }
}

int main(int argc, char** argv) {
  std::string file, fn = "harness"; int jobs = 1; t0abs = nowS(); bool listExt = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") outFile = nx(); else if (a == "-f") fn = nx(); else if (a == "-j") jobs = stoi(nx()); else if (a == "-p") { auto s = nx(); auto e = s.find('='); params[s.substr(0, e)] = stoll(s.substr(e + 1)); } else if (a == "-v") verbose++; else if (a == "--max-steps") maxSteps = stoull(nx()); else if (a == "--max-seconds") maxSeconds = stod(nx()); else if (a == "--max-viol") maxViol = stoul(nx()); else if (a == "--tapes") keepTapes = stoi(nx()); else if (a == "--repo") repoPrefix = nx(); else if (a == "--solver-timeout") { extern unsigned gSolverTimeout; gSolverTimeout = stoul(nx()) * 1000; } else if (a == "--ext") listExt = true; else file = a; }
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("kse", errs()); return 4; } DL = &M->getDataLayout();
  SV = new Solver; { extern unsigned gSolverTimeout; SV->timeoutMs = gSolverTimeout; }
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->slots = jobs - 1; SH->stop = 0; SH->paths = 0;
  initBuiltins();
  // every use of a thread-local global goes through the intrinsic
  for (auto& G : M->globals()) if (G.isThreadLocal()) {
    convertUsersOfConstantsToInstructions({&G}); std::vector<Use*> us; for (auto& u : G.uses()) us.push_back(&u);
    for (Use* u : us) { auto* I = dyn_cast<Instruction>(u->getUser()); if (!I) continue; if (auto* ii = dyn_cast<IntrinsicInst>(I)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue; Instruction* at = I; if (auto* ph = dyn_cast<PHINode>(I)) at = ph->getIncomingBlock(*u)->getTerminator(); IRBuilder<> b(at); u->set(b.CreateThreadLocalAddress(&G)); }
  }
  // addresses
  u64 fa = 0x400000; for (auto& F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
  State* st = new State; st->model = std::make_shared<ModelVec>(); S = st; u64 ga = 0x10000000; std::vector<std::pair<const GlobalVariable*, Obj*>> inits;
  std::vector<ORef> muts;
  for (auto& G : M->globals()) {
    u64 al = std::max<u64>(16, G.getAlign().valueOrOne().value()); ga = (ga + al - 1) / al * al; u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; bool ext = !G.hasInitializer(); if (ext && sz < 256) sz = 256;
    gaddr[&G] = ga; Obj* o = new Obj(ga, sz, G.isConstant() ? OK_CONST : OK_GLOBAL); memset(o->d, 0, sz); o->site = strdup(G.getName().str().c_str()); ga += sz + 32; if (!ext) inits.push_back({&G, o});
    if (G.isConstant() && !ext) { o->ro = true; constObjs.push_back(ORef(o)); } else st->mem.push_back(ORef(o)); }
  for (auto& A : M->aliases()) { (void)A; }
  for (auto& p : inits) initMemory(p.second, 0, p.first->getInitializer());
  for (auto& p : inits) if (p.first->isThreadLocal()) tlsImage[p.second->addr] = new Obj(*p.second);
  if (listExt) { for (auto& F : *M) if (F.isDeclaration() && !F.isIntrinsic() && !builtinIdx.count(F.getName().str())) std::cout << F.getName().str() << "  " << demangle(F.getName().str()) << "\n"; std::cout.flush(); _exit(0); }
  // constructors, then the harness
  std::vector<std::pair<u64, const Function*>> ctors; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : arr->operands()) { auto* cs = cast<ConstantStruct>(o.get()); if (auto* F = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* H = M->getFunction(fn); if (!H || H->isDeclaration()) fatal("no harness function " + fn);
  try {
    for (auto& c : ctors) { pushFrame(c.second, {}); size_t base = 0; (void)base; for (;;) { if (S->stack.size() == 1 && S->stack.back().p->f->code[S->stack.back().p->pc].opc == Instruction::Ret) { popFrame(); break; } step(); } }
  } catch (PathEnd&) { for (auto& x : R.incomplete) std::cerr << x.first << "\n"; fatal("a global constructor could not be executed"); }
  if (!work.empty()) fatal("symbolic branch in a constructor");
  S->steps = 0; R.instrs = 0; initMem = st->mem; pushFrame(H, {}); work.push_back(st); R.states = 1; S = nullptr;
  if (!outFile.empty()) unlink((outFile + ".kids").c_str());
  runAll();
  for (pid_t p : kids) { int stt; waitpid(p, &stt, 0); if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) R.incomplete["a worker process failed"]++; }
  double wall = nowS() - t0abs;
  if (isChild) { writeResults(myOut, wall); SH->slots++; fflush(stdout); _exit(0); }
  if (!outFile.empty()) writeResults(outFile, wall);
  else { std::cout << "paths " << R.paths << " killed " << R.killed << " instrs " << R.instrs << " forks " << R.forks << " queries " << SV->queries << " z3 " << SV->z3calls << " hits " << SV->cacheHits << " z3time " << SV->z3time << " wall " << wall << "\n"; for (auto& x : R.reach) std::cout << "reach " << x.first << " " << x.second << "\n"; for (auto& x : R.incomplete) std::cout << "INCOMPLETE " << x.first << " x" << x.second << "\n"; for (auto& v : R.viol) { std::cout << "VIOL " << v.kind << ": " << v.msg << "\n" << v.stack; for (auto& t : v.tape) std::cout << "   " << t.first << " = " << t.second.second << "\n"; } }
  std::cout.flush(); _exit(R.viol.empty() ? (R.incomplete.empty() ? 0 : 2) : 1);
}
unsigned gSolverTimeout = 120000;
