// Built-in functions: the harness interface, memory primitives, intrinsics.
static Val rmwApply(unsigned o, const Val& a, const Val& b) {
  switch (o) {
    case AtomicRMWInst::Xchg: return b; case AtomicRMWInst::Add: return binop(Instruction::Add, a, b); case AtomicRMWInst::Sub: return binop(Instruction::Sub, a, b);
    case AtomicRMWInst::And: return binop(Instruction::And, a, b); case AtomicRMWInst::Or: return binop(Instruction::Or, a, b); case AtomicRMWInst::Xor: return binop(Instruction::Xor, a, b);
    case AtomicRMWInst::Max: { Val c = icmp(CmpInst::ICMP_SGT, a, b); return Val::ex(mkIte(c.expr(), a.expr(), b.expr())); } case AtomicRMWInst::Min: { Val c = icmp(CmpInst::ICMP_SLT, a, b); return Val::ex(mkIte(c.expr(), a.expr(), b.expr())); }
    case AtomicRMWInst::UMax: { Val c = icmp(CmpInst::ICMP_UGT, a, b); return Val::ex(mkIte(c.expr(), a.expr(), b.expr())); } case AtomicRMWInst::UMin: { Val c = icmp(CmpInst::ICMP_ULT, a, b); return Val::ex(mkIte(c.expr(), a.expr(), b.expr())); }
    case AtomicRMWInst::Nand: return binop(Instruction::Xor, binop(Instruction::And, a, b), Val(~0ULL, a.w));
  }
  incomplete("atomicrmw operation");
}
static std::string cstr(u64 a) { std::string r; for (;;) { ORef* o = findObj(a); if (!o) return r + "<bad string>"; Obj* p = o->p; u64 off = a - p->addr; if (p->s && p->s[off]) return r + "<sym>"; char c = (char)p->d[off]; if (!c) return r; r += c; a++; if (r.size() > 4000) return r; } }
static void copyBytes(u64 dst, u64 src, u64 n) {
  if (!n) return; ORef *dr, *sr; accessObj(src, n, false, false, &sr); std::vector<u8> tmp(n); std::vector<E> ts; { Obj* so = sr->p; u64 off = src - so->addr; memcpy(tmp.data(), so->d + off, n); if (so->s) { bool any = false; for (u64 i = 0; i < n; i++) if (so->s[off + i]) { any = true; break; } if (any) ts.assign(so->s + off, so->s + off + n); } }
  Obj* dobj = accessObj(dst, n, true, true, &dr); u64 off = dst - dobj->addr; memcpy(dobj->d + off, tmp.data(), n); if (!ts.empty()) { ensureSym(dobj); memcpy(dobj->s + off, ts.data(), n * sizeof(E)); } else if (dobj->s) memset(dobj->s + off, 0, n * sizeof(E));
}
static void mmCopy(u64 dst, u64 src, u64 n);
static void doMemcpy(const Val& d, const Val& s, const Val& n, bool noOverlap) {
  u64 cn = concretize(n); if (!cn) return; u64 cd = concretize(d), cs = concretize(s);
  if (noOverlap && cd != cs && cd < cs + cn && cs < cd + cn) violate("memory", "memcpy with overlapping operands");
  if (MM) { mmCopy(cd, cs, cn); return; }
  copyBytes(cd, cs, cn);
}
static Val byteAt(u64 a) { Obj* o = accessObj(a, 1, false, false); return readBytes(o, a - o->addr, 1, 8); }
static void doMemset(const Val& d, const Val& v, const Val& n) {
  u64 cn = concretize(n); if (!cn) return; u64 cd = concretize(d);
  if (MM && MM->store(Val(cd, 64), 0, v, -2)) { for (u64 i = 0; i < cn;) { u64 k = (cn - i >= 8 && (cd + i) % 8 == 0) ? 8 : 1; u64 x = v.con() ? (v.c & 255) : 0; if (!v.con()) incomplete("symbolic memset in threads"); if (k == 8) x *= 0x0101010101010101ULL; Val t(x, k * 8); if (!MM->store(Val(cd + i, 64), k, t, -1)) storeInt(Val(cd + i, 64), k, t); i += k; } return; }
  Obj* o = accessObj(cd, cn, true, true); u64 off = cd - o->addr;
  Val b = castop(Instruction::Trunc, v.w > 8 ? v : Val(v), 8); if (v.w == 8) b = v;
  if (b.con()) { memset(o->d + off, (int)b.c, cn); if (o->s) memset(o->s + off, 0, cn * sizeof(E)); } else { ensureSym(o); for (u64 i = 0; i < cn; i++) o->s[off + i] = b.e; }
}
static E freshVar(const std::string& name, u32 w, bool onTape) {
  u32& k = S->nameCnt[name]; std::string nm = name + (k ? "#" + std::to_string(k) : ""); k++;
  // variables are shared between sibling paths by name and width, which keeps caches effective
  static std::map<std::pair<std::string, u32>, E> known; E& e = known[{nm, w}]; if (!e) e = XP.var(nm, w);
  if (onTape) S->tape.push_back({nm, w, e, 0}); return e;
}
static void doAssert(const Val& c, const std::string& msg) {
  R.assertsChecked++; R.asserts[msg]++;
  if (c.con()) { if (!(c.c & 1)) violate("assertion", msg); return; }
  R.assertsSym++; SV->assertQueries++;
  E cond = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, C(0, c.e->w)));
  Model m; int r = checkSat(mkNot(cond), &m);
  if (r == 1) { if (!S->quiet) report("assertion", msg, m); else R.killed++; Model m2; if (checkSat(cond, &m2) != 1) { R.reach["<violating path>"]++; killPath(); } S->model = m2; }
  addPC(cond);
}
static i64 paramOr(const std::string& n, i64 d) { auto it = params.find(n); return it == params.end() ? d : it->second; }

static void throwStd(const char* fn) { (void)fn; }
// frees
static void doFree(const Val& p, int how, const char* nm) {
  u64 a = concretize(p); if (!a) return; ORef* r = findObj(a);
  if (!r || r->p->addr != a || r->p->kind != OK_HEAP) violate("memory", std::string(nm) + " of an invalid pointer (double free or not allocated): " + ptrDesc(a));
  if (how && r->p->ak != how) violate("memory", std::string(nm) + " does not match the allocation function");
  if (MM && MM->store(Val(a, 64), 0, Val(0, 8), -3)) return;
  removeObj(a, true);
}
static void initBuiltins() {
  // --- harness interface
  regB("kse_sym", [](DI&, std::vector<Val>& a, Val&) { u64 n = concretize(a[1]), p = concretize(a[0]); std::string nm = cstr(concretize(a[2])); Obj* o = accessObj(p, n, true, true); ensureSym(o); for (u64 i = 0; i < n; i++) o->s[p - o->addr + i] = freshVar(nm, 8, true); });
  regB("kse_u64", [](DI&, std::vector<Val>& a, Val& r) { r = Val::ex(freshVar(cstr(a[0].c), 64, true)); });
  regB("kse_u32", [](DI&, std::vector<Val>& a, Val& r) { r = Val::ex(freshVar(cstr(a[0].c), 32, true)); });
  regB("kse_u8", [](DI&, std::vector<Val>& a, Val& r) { r = Val::ex(freshVar(cstr(a[0].c), 8, true)); });
  regB("kse_bool", [](DI&, std::vector<Val>& a, Val& r) { r = Val::ex(freshVar(cstr(a[0].c), 1, true)); });
  // range [lo,hi], symbolic
  regB("kse_range", [](DI&, std::vector<Val>& a, Val& r) { u64 lo = concretize(a[0]), hi = concretize(a[1]); if (lo == hi) { S->tape.push_back({cstr(a[2].c), 64, nullptr, lo}); r = Val(lo, 64); return; } if (lo > hi) { killPath(); } E e = freshVar(cstr(a[2].c), 64, true); E c = mkAnd(mkBin(EK::Ule, C(lo, 64), e), mkBin(EK::Ule, e, C(hi, 64))); Model m; if (checkSat(c, &m) != 1) killPath(); S->model = m; addPC(c); r = Val::ex(e); });
  // choose [lo,hi] concretely (one path per value, feasibility decided by the solver where constrained)
  regB("kse_choose", [](DI&, std::vector<Val>& a, Val& r) { u64 lo = concretize(a[0]), hi = concretize(a[1]); if (lo > hi) killPath(); std::string nm = cstr(a[2].c); 
    // each alternative continues after this call
    Frame* f = top(); DI& d = f->f->code[f->pc];
    for (u64 v = hi; v > lo; v--) { State* n = cloneState(); n->tape.push_back({nm, 64, nullptr, v}); State* cur = S; S = n; Frame* nf = top(); if (d.dst >= 0) nf->regs[d.dst] = Val(v, 64); if (d.opc == Instruction::Invoke) gotoBB(nf, d.t0); else nf->pc++; S = cur; work.push_back(n); }
    S->tape.push_back({nm, 64, nullptr, lo}); r = Val(lo, 64); });
  regB("kse_assume", [](DI&, std::vector<Val>& a, Val&) { if (a[0].con()) { if (!(a[0].c & 1)) { R.reach["<assume cut>"]++; killPath(); } return; } E c = a[0].e; if (c->w != 1) c = mkNot(mkEq(c, C(0, c->w))); if (evalCur(c)) { addPC(c); return; } Model m; if (checkSat(c, &m) != 1) { R.reach["<assume cut>"]++; killPath(); } S->model = m; addPC(c); });
  regB("kse_assert", [](DI&, std::vector<Val>& a, Val&) { doAssert(a[0], cstr(concretize(a[1]))); });
  regB("kse_fail", [](DI&, std::vector<Val>& a, Val&) { violate("assertion", cstr(concretize(a[0]))); });
  regB("kse_stop", [](DI&, std::vector<Val>&, Val&) { S->stack.clear(); throw PathEnd(); });
  regB("kse_bound", [](DI&, std::vector<Val>& a, Val&) { R.reach["<bound> " + cstr(concretize(a[0]))]++; killPath(); });
  regB("kse_unsupported", [](DI&, std::vector<Val>& a, Val&) { incomplete("unsupported: " + cstr(concretize(a[0]))); });
  regB("kse_reach", [](DI&, std::vector<Val>& a, Val&) { S->reached.insert(cstr(concretize(a[0]))); });
  regB("kse_out", [](DI&, std::vector<Val>& a, Val&) { S->out.push_back({a[0].e, a[0].c, 64}); });
  regB("kse_param", [](DI&, std::vector<Val>& a, Val& r) { r = Val((u64)paramOr(cstr(concretize(a[0])), (i64)a[1].c), 64); });
  regB("kse_concrete", [](DI&, std::vector<Val>& a, Val& r) { r = Val(concretize(a[0]), 64); });
  regB("kse_fork", [](DI&, std::vector<Val>& a, Val& r) { E c = a[0].con() ? nullptr : a[0].e; if (!c) { r = Val(a[0].c & 1, 1); return; } if (c->w != 1) c = mkNot(mkEq(c, C(0, c->w))); r = Val(branchOn(c), 1); });
  regB("kse_thread_local", [](DI&, std::vector<Val>&, Val& r) { r = Val(0, 1); });   // copies of thread-locals have addresses of their own
  regB("kse_is_symbolic", [](DI&, std::vector<Val>& a, Val& r) { r = Val(!a[0].con(), 1); });
  regB("kse_print", [](DI&, std::vector<Val>& a, Val&) { std::cerr << "kse_print: " << cstr(concretize(a[0])) << " " << (a[1].con() ? std::to_string(a[1].c) : strE(a[1].e)) << "\n"; });
  regB("kse_printn", [](DI&, std::vector<Val>& a, Val&) { u64 p = concretize(a[0]), n = concretize(a[1]); std::cerr << "kse_print: "; for (u64 i = 0; i < n; i++) { Val b = byteAt(p + i); if (b.con()) std::cerr << (char)b.c; else std::cerr << "?"; } std::cerr << "\n"; });
  regB("kse_ftoa", [](DI&, std::vector<Val>& a, Val& r) {
    u64 v = concretize(a[0]), w = concretize(a[1]), st = concretize(a[2]); int prec = (int)concretize(a[3]); u64 dst = concretize(a[4]); double d = w == 64 ? asD(Val(v, 64)) : asF(Val(v, 32)); char b[512]; size_t n;
    if (st == 0) { auto t = w == 64 ? std::to_chars(b, b + 512, d) : std::to_chars(b, b + 512, (float)d); n = t.ptr - b; }
    else if (st & 256) { int k = st & 255; auto t = std::to_chars(b, b + 512, d, k == 'e' ? std::chars_format::scientific : k == 'f' ? std::chars_format::fixed : std::chars_format::hex); n = t.ptr - b; }
    else { char fm[8] = "%.*g"; fm[3] = (char)st; n = snprintf(b, 512, fm, prec, d); if (n > 511) n = 511; }
    Obj* o = accessObj(dst, n, true, true); memcpy(o->d + (dst - o->addr), b, n); if (o->s) memset(o->s + (dst - o->addr), 0, n * sizeof(E)); r = Val(n, 64); });
  regB("kse_strtod", [](DI&, std::vector<Val>& a, Val& r) { u64 p = concretize(a[0]), n = concretize(a[1]); std::string t; for (u64 i = 0; i < n; i++) t += (char)concretize(byteAt(p + i)); char* e; double d = strtod(t.c_str(), &e); if (!n || *e || isspace((unsigned char)t[0])) { r = Val(~0ull, 64); return; } u64 x; memcpy(&x, &d, 8); r = Val(x, 64); });
  regB("kse_heap_count", [](DI&, std::vector<Val>&, Val& r) { u64 n = 0; for (auto& o : S->mem) if (o.p->kind == OK_HEAP) n++; r = Val(n, 64); });
  regB("kse_alloc_seq", [](DI&, std::vector<Val>&, Val& r) { r = Val(S->allocSeq, 64); });
  regB("kse_heap_since", [](DI&, std::vector<Val>& a, Val& r) { u64 n = 0; for (auto& o : S->mem) if (o.p->kind == OK_HEAP && o.p->seq >= a[0].c) n++; r = Val(n, 64); });
  regB("kse_valid", [](DI&, std::vector<Val>& a, Val& r) { u64 p = concretize(a[0]), n = concretize(a[1]); ORef* o = findObj(p); r = Val(o && p + n <= o->p->addr + o->p->size, 1); });
  regB("kse_obj_size", [](DI&, std::vector<Val>& a, Val& r) { u64 p = concretize(a[0]); ORef* o = findObj(p); r = Val(o ? o->p->addr + o->p->size - p : 0, 64); });
  regB("kse_unwind", [](DI&, std::vector<Val>& a, Val&) { u64 exc = concretize(a[0]); S->excTi[exc] = concretize(a[1]); popFrame(); unwind(exc); throw 1; });
  // --- allocation
  regB("kse_malloc", [](DI&, std::vector<Val>& a, Val& r) { E n = a[0].expr(); bool big = branchOn(mkBin(EK::Ult, C(1ULL << 24, 64), n)); if (big) { r = Val(0, 64); return; } u64 c = concretize(a[0]); u64 al = a.size() > 2 ? concretize(a[2]) : 16; r = Val(allocObj(c, al, OK_HEAP, (u8)concretize(a[1])), 64); });
  regB("kse_free", [](DI&, std::vector<Val>& a, Val&) { int how = (int)concretize(a[1]); doFree(a[0], how, how == AK_NEW ? "operator delete" : how == AK_NEWARR ? "operator delete[]" : "free"); });
  regB("malloc", [](DI&, std::vector<Val>& a, Val& r) { E n = a[0].expr(); if (branchOn(mkBin(EK::Ult, C(1ULL << 24, 64), n))) { r = Val(0, 64); return; } r = Val(allocObj(concretize(a[0]), 16, OK_HEAP, AK_MALLOC), 64); });
  regB("calloc", [](DI&, std::vector<Val>& a, Val& r) { u64 n = concretize(a[0]) * concretize(a[1]); u64 p = allocObj(n, 16, OK_HEAP, AK_MALLOC); memset(findObj(p)->p->d, 0, n); r = Val(p, 64); });
  regB("free", [](DI&, std::vector<Val>& a, Val&) { doFree(a[0], AK_MALLOC, "free"); });
  // --- memory functions
  regB("memcpy", [](DI&, std::vector<Val>& a, Val& r) { doMemcpy(a[0], a[1], a[2], true); r = a[0]; });
  regB("memmove", [](DI&, std::vector<Val>& a, Val& r) { doMemcpy(a[0], a[1], a[2], false); r = a[0]; });
  regB("memset", [](DI&, std::vector<Val>& a, Val& r) { doMemset(a[0], a[1].w > 8 ? castop(Instruction::Trunc, a[1], 8) : a[1], a[2]); r = a[0]; });
  // C++ runtime leftovers
  regB("__cxa_pure_virtual", [](DI&, std::vector<Val>&, Val&) { violate("call", "pure virtual call"); });
  regB("abort", [](DI&, std::vector<Val>&, Val&) { violate("abort", "abort() called"); });
  regB("_ZSt9terminatev", [](DI&, std::vector<Val>&, Val&) { violate("abort", "std::terminate called"); });
  regB("__assert_fail", [](DI&, std::vector<Val>& a, Val&) { violate("assertion", "assert failed in the code: " + cstr(concretize(a[0]))); });
  regB("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](DI&, std::vector<Val>& a, Val&) { violate("assertion", "libstdc++ assertion: " + cstr(concretize(a[3]))); });
  regB("__cxa_atexit", [](DI&, std::vector<Val>&, Val& r) { r = Val(0, 32); });
  regB("__cxa_thread_atexit", [](DI&, std::vector<Val>&, Val& r) { r = Val(0, 32); });
  regB("__cxa_guard_acquire", [](DI&, std::vector<Val>& a, Val& r) { u64 p = concretize(a[0]); Obj* o = accessObj(p, 1, false, false); r = Val(o->d[p - o->addr] ? 0 : 1, 32); });
  regB("__cxa_guard_release", [](DI&, std::vector<Val>& a, Val&) { u64 p = concretize(a[0]); Obj* o = accessObj(p, 1, true, true); o->d[p - o->addr] = 1; });
  regB("__cxa_guard_abort", [](DI&, std::vector<Val>&, Val&) {});
  // fibers: several stacks in one state, switched explicitly by the harness's scheduler
  regB("kse_fiber_new", [](DI&, std::vector<Val>& a, Val& r) { u64 fn = concretize(a[0]), arg = concretize(a[1]); auto it = fnAt.find(fn); if (it == fnAt.end()) violate("call", "fiber with an invalid function"); if (S->fibers.empty()) S->fibers.emplace_back(); S->fibers.emplace_back(); r = Val(S->fibers.size() - 1, 32);
    std::vector<FRef> mine; mine.swap(S->stack); try { pushFrame(it->second, {Val(arg, 64)}); } catch (...) { S->stack.swap(mine); throw; } S->fibers.back().swap(S->stack); S->stack.swap(mine); });
  regB("kse_fiber_switch", [](DI&, std::vector<Val>& a, Val&) { u64 id = concretize(a[0]); if (id == S->cur) return; if (id >= S->fibers.size() || S->fibers[id].empty()) violate("call", "switch to an invalid fiber"); returnTo(Val()); S->fibers[S->cur].swap(S->stack); S->cur = (u32)id; S->stack.swap(S->fibers[id]); throw 1; });
  regB("kse_fiber_self", [](DI&, std::vector<Val>&, Val& r) { r = Val(S->cur, 32); });
}
static Val satOp(bool add, bool sgn, const Val& a, const Val& b) {
  E x = a.expr(), y = b.expr(); u32 w = a.w;
  if (!sgn) { if (add) { E s = mkBin(EK::Add, x, y); return Val::ex(mkIte(mkBin(EK::Ult, s, x), C(maskW(w), w), s)); } return Val::ex(mkIte(mkBin(EK::Ult, x, y), C(0, w), mkBin(EK::Sub, x, y))); }
  incomplete("signed saturating op");
}
static bool doIntrinsic(DI& d, std::vector<Val>& a, Val& r) {
  switch (d.intr) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: doMemcpy(a[0], a[1], a[2], true); return true;
    case Intrinsic::memmove: doMemcpy(a[0], a[1], a[2], false); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(a[0], a[1], a[2]); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: r = Val(0, 64); return true; case Intrinsic::invariant_end: return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; return true;
    case Intrinsic::threadlocal_address: r = Val(tlsAddress(a[0].c), 64); return true;
    case Intrinsic::ptrmask: r = binop(Instruction::And, a[0], a[1]); return true;
    case Intrinsic::stacksave: r = Val(0, 64); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate("abort", "trap");
    case Intrinsic::objectsize: r = Val(a[1].c ? 0 : ~0ULL, d.w); return true;
    case Intrinsic::is_constant: r = Val(0, 1); return true;
    case Intrinsic::eh_typeid_for: r = Val(tiId(concretize(a[0])), 32); return true;
    case Intrinsic::umax: r = Val::ex(mkIte(icmp(CmpInst::ICMP_UGT, a[0], a[1]).expr(), a[0].expr(), a[1].expr())); return true;
    case Intrinsic::umin: r = Val::ex(mkIte(icmp(CmpInst::ICMP_ULT, a[0], a[1]).expr(), a[0].expr(), a[1].expr())); return true;
    case Intrinsic::smax: r = Val::ex(mkIte(icmp(CmpInst::ICMP_SGT, a[0], a[1]).expr(), a[0].expr(), a[1].expr())); return true;
    case Intrinsic::smin: r = Val::ex(mkIte(icmp(CmpInst::ICMP_SLT, a[0], a[1]).expr(), a[0].expr(), a[1].expr())); return true;
    case Intrinsic::abs: { E x = a[0].expr(); r = Val::ex(mkIte(mkBin(EK::Slt, x, C(0, x->w)), mkBin(EK::Sub, C(0, x->w), x), x)); return true; }
    case Intrinsic::uadd_sat: r = satOp(true, false, a[0], a[1]); return true; case Intrinsic::usub_sat: r = satOp(false, false, a[0], a[1]); return true;
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: r = satOp(d.intr == Intrinsic::sadd_sat, true, a[0], a[1]); return true;
    case Intrinsic::uadd_with_overflow: { E x = a[0].expr(), y = a[1].expr(), s = mkBin(EK::Add, x, y); r = Val::ag({Val::ex(s), Val::ex(mkBin(EK::Ult, s, x))}); return true; }
    case Intrinsic::usub_with_overflow: { E x = a[0].expr(), y = a[1].expr(); r = Val::ag({Val::ex(mkBin(EK::Sub, x, y)), Val::ex(mkBin(EK::Ult, x, y))}); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { E x = a[0].expr(), y = a[1].expr(); u32 w = x->w; EK k = d.intr == Intrinsic::sadd_with_overflow ? EK::Add : EK::Sub; E s = mkBin(k, mkSExt(x, w + 1), mkSExt(y, w + 1)), t = mkBin(k, x, y); r = Val::ag({Val::ex(t), Val::ex(mkNot(mkEq(s, mkSExt(t, w + 1))))}); return true; }
    case Intrinsic::umul_with_overflow: { E x = a[0].expr(), y = a[1].expr(); u32 w = x->w; E p = mkBin(EK::Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)), t = mkBin(EK::Mul, x, y); r = Val::ag({Val::ex(t), Val::ex(mkNot(mkEq(p, mkZExt(t, 2 * w))))}); return true; }
    case Intrinsic::smul_with_overflow: { E x = a[0].expr(), y = a[1].expr(); u32 w = x->w; E p = mkBin(EK::Mul, mkSExt(x, 2 * w), mkSExt(y, 2 * w)), t = mkBin(EK::Mul, x, y); r = Val::ag({Val::ex(t), Val::ex(mkNot(mkEq(p, mkSExt(t, 2 * w))))}); return true; }
    case Intrinsic::bswap: { E x = a[0].expr(), q = nullptr; for (u32 i = 0; i < x->w; i += 8) { E b = mkExtract(x, i, 8); q = q ? mkConcat(q, b) : b; } r = Val::ex(q); return true; }
    case Intrinsic::ctpop: { E x = a[0].expr(), q = C(0, x->w); for (u32 i = 0; i < x->w; i++) q = mkBin(EK::Add, q, mkZExt(mkExtract(x, i, 1), x->w)); r = Val::ex(q); return true; }
    case Intrinsic::cttz: { E x = a[0].expr(), q = C(x->w, x->w); for (int i = (int)x->w - 1; i >= 0; i--) q = mkIte(mkExtract(x, i, 1), C(i, x->w), q); r = Val::ex(q); return true; }
    case Intrinsic::ctlz: { E x = a[0].expr(), q = C(x->w, x->w); for (u32 i = 0; i < x->w; i++) q = mkIte(mkExtract(x, i, 1), C(x->w - 1 - i, x->w), q); r = Val::ex(q); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u32 w = a[0].w; E c = mkZExt(mkBin(EK::URem, a[2].expr(), C(w, w)), 2 * w), x = mkConcat(a[0].expr(), a[1].expr()); if (d.intr == Intrinsic::fshl) r = Val::ex(mkExtract(mkBin(EK::Shl, x, c), w, w)); else r = Val::ex(mkExtract(mkBin(EK::LShr, x, c), 0, w)); return true; }
    case Intrinsic::fabs: if (!a[0].con()) incomplete("symbolic fp"); r = Val(a[0].c & ~(1ULL << (a[0].w - 1)), a[0].w); return true;
    case Intrinsic::floor: if (!a[0].con()) incomplete("symbolic fp"); r = a[0].w == 64 ? fromD(floor(asD(a[0]))) : fromF(floorf(asF(a[0]))); return true;
    case Intrinsic::ceil: if (!a[0].con()) incomplete("symbolic fp"); r = a[0].w == 64 ? fromD(ceil(asD(a[0]))) : fromF(ceilf(asF(a[0]))); return true;
    case Intrinsic::fmuladd: if (!a[0].con() || !a[1].con() || !a[2].con()) incomplete("symbolic fp"); r = a[0].w == 64 ? fromD(asD(a[0]) * asD(a[1]) + asD(a[2])) : fromF(asF(a[0]) * asF(a[1]) + asF(a[2])); return true;
    case Intrinsic::load_relative: { u64 p = a[0].c + a[1].sc(); Obj* o = accessObj(p, 4, false, false); i64 off = readBytes(o, p - o->addr, 4, 32).sc(); r = Val(a[0].c + off, 64); return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { Val q = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); i++) q = binop(d.intr == Intrinsic::vector_reduce_add ? Instruction::Add : d.intr == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And, q, (*a[0].agg)[i]); r = q; return true; }
    default: incomplete("unmodelled intrinsic " + d.callee->getName().str());
  }
}
static void execCall(DI& d) {
  Frame* f = S->stack.back().p; std::vector<Val> args; size_t n = d.ops.size(); 
  for (auto& o : d.ops) args.push_back(o.k ? o.cv : f->regs[o.reg]);
  const Function* F = d.callee;
  if (!F) {
    if (d.kind == 2) { auto* ia = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); std::string s = ia->getAsmString(); if (s.empty() || s.find("pause") != std::string::npos || s.find("rep; nop") != std::string::npos) { top(); if (d.dst >= 0 && n > 1) { Val r = args[0]; returnTo(r); } else returnTo(d.dst >= 0 ? zeroOf(d.ty) : Val()); return; } incomplete("inline asm"); }
    u64 a = concretize(args.back()); args.pop_back(); auto it = fnAt.find(a);
    if (it == fnAt.end()) violate("call", "indirect call to an invalid address " + ptrDesc(a));
    F = it->second; auto bt = builtinIdx.find(F->getName().str()); if (bt != builtinIdx.end()) { Val r; builtins[bt->second](d, args, r); returnTo(r); return; }
    doCall(d, F, args); return;
  }
  if (d.intr) { Val r; doIntrinsic(d, args, r); returnTo(r); return; }
  if (d.builtin >= 0) {
    Val r; try { builtins[d.builtin](d, args, r); } catch (int) { return; }
    if (r.w == 0 && !r.agg && d.dst >= 0) r = zeroOf(d.ty);
    returnTo(r); return; }
  doCall(d, F, args);
}
