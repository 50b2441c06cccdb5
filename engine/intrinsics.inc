// ---------------------------------------------------------------- rational normal form
typedef std::map<unsigned, std::pair<Ex, int>> Den;   // factor id -> (factor, multiplicity)
struct RatV { Ex n; Den d; };
static std::unordered_map<unsigned, RatV> ratCache;
static double ratBudget = 0;
static std::unordered_map<unsigned, double> monoCache;
static double monoCount(const z3::expr &e) {  // crude upper bound on monomials after expansion
  unsigned id = Z3_get_ast_id(*C, e); auto it = monoCache.find(id); if (it != monoCache.end()) return it->second;
  double r = 1;
  if (e.is_app()) switch (e.decl().decl_kind()) {
    case Z3_OP_ADD: case Z3_OP_SUB: r = 0; for (unsigned i = 0; i < e.num_args(); i++) r += monoCount(e.arg(i)); break;
    case Z3_OP_MUL: for (unsigned i = 0; i < e.num_args(); i++) r *= monoCount(e.arg(i)); break;
    case Z3_OP_UMINUS: r = monoCount(e.arg(0)); break;
    case Z3_OP_POWER: { int64_t k = 2; e.arg(1).is_numeral_i64(k); r = std::pow(monoCount(e.arg(0)), (double)k); break; }
    default: r = 1;
  }
  keepAlive.push_back(Ex(e));
  return monoCache[id] = r;
}
static z3::expr somS(const z3::expr &e) { z3::params p(*C); p.set("som", true); p.set("som_blowup", 10000000u); return z3::expr(e).simplify(p); }
static bool isOneE(const z3::expr &e) { return e.is_numeral() && e.get_decimal_string(2) == "1"; }
static bool mulBy(z3::expr &n, const Den &f, const Den &minus) {  // n *= product of factors in f beyond those in minus
  for (auto &p : f) { int k = p.second.second; auto it = minus.find(p.first); if (it != minus.end()) k -= it->second.second; for (int i = 0; i < k; i++) { if (monoCount(n) * monoCount(p.second.first.e()) > 400000) return false; n = somS(n * p.second.first.e()); } }
  return true;
}
static bool ratForm(const z3::expr &e, RatV &out) {
  unsigned id = Z3_get_ast_id(*C, e);
  auto it = ratCache.find(id); if (it != ratCache.end()) { out = it->second; return true; }
  RatV r;
  if (!e.is_app() || e.num_args() == 0) { r.n = Ex(e); }
  else {
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_ADD || k == Z3_OP_SUB) {
      std::vector<RatV> v; Den L;
      for (unsigned i = 0; i < e.num_args(); i++) { RatV t; if (!ratForm(e.arg(i), t)) return false; for (auto &p : t.d) { auto &q = L[p.first]; q.first = p.second.first; q.second = std::max(q.second, p.second.second); } v.push_back(t); }
      z3::expr s = C->real_val(0);
      for (unsigned i = 0; i < v.size(); i++) { z3::expr n = v[i].n.e(); if (!mulBy(n, L, v[i].d)) return false; s = i == 0 ? n : k == Z3_OP_ADD ? s + n : s - n; }
      if (monoCount(s) > 400000) return false;
      r.n = Ex(somS(s)); r.d = L;
    } else if (k == Z3_OP_MUL) {
      z3::expr n = C->real_val(1);
      for (unsigned i = 0; i < e.num_args(); i++) { RatV t; if (!ratForm(e.arg(i), t)) return false; if (monoCount(n) * monoCount(t.n.e()) > 400000) return false; n = i == 0 ? t.n.e() : somS(n * t.n.e());
        for (auto &p : t.d) { auto &q = r.d[p.first]; q.first = p.second.first; q.second += p.second.second; } }
      // cancel a factor that equals the numerator
      auto f = r.d.find(Z3_get_ast_id(*C, n)); if (f != r.d.end()) { if (--f->second.second == 0) r.d.erase(f); n = C->real_val(1); }
      r.n = Ex(n);
    } else if (k == Z3_OP_DIV) {
      RatV a, b; if (!ratForm(e.arg(0), a) || !ratForm(e.arg(1), b)) return false;
      z3::expr n = a.n.e(); if (!mulBy(n, b.d, a.d)) return false;
      r.d = a.d;
      for (auto &p : b.d) { auto f = r.d.find(p.first); if (f != r.d.end()) { f->second.second -= p.second.second; if (f->second.second <= 0) r.d.erase(f); } }
      z3::expr bn = b.n.e();
      if (bn.is_numeral()) { n = somS(n / bn); }
      else if (Z3_get_ast_id(*C, n) == Z3_get_ast_id(*C, bn)) n = C->real_val(1);
      else { unsigned bi = Z3_get_ast_id(*C, bn); keepAlive.push_back(Ex(bn)); auto &q = r.d[bi]; q.first = Ex(bn); q.second += 1; }
      r.n = Ex(n);
    } else if (k == Z3_OP_UMINUS) { RatV a; if (!ratForm(e.arg(0), a)) return false; r = a; r.n = Ex(somS(-a.n.e())); }
    else r.n = Ex(e);
  }
  keepAlive.push_back(Ex(e)); ratCache[id] = r; out = r;
  return true;
}
// is the real equality x == y an identity of rational functions (denominators are non zero on the path)?
static bool ratIdentity(const z3::expr &x, const z3::expr &y) {
  RatV a, b; if (!ratForm(x, a) || !ratForm(y, b)) return false;
  Den L = a.d; for (auto &p : b.d) { auto &q = L[p.first]; q.first = p.second.first; q.second = std::max(q.second, p.second.second); }
  z3::expr n1 = a.n.e(), n2 = b.n.e(); if (!mulBy(n1, L, a.d) || !mulBy(n2, L, b.d)) return false;
  z3::expr r = somS(n1 - n2);
  return r.is_numeral() && r.get_decimal_string(3) == "0";
}
static bool trivByNormalForm(const z3::expr &c) {
  if (c.is_true()) return true;
  if (c.is_and()) { for (unsigned i = 0; i < c.num_args(); i++) if (!trivByNormalForm(c.arg(i))) return false; return true; }
  if (c.is_eq() && c.arg(0).get_sort().is_real()) return ratIdentity(c.arg(0), c.arg(1));
  return false;
}
// ---------------------------------------------------------------- inputs
static void addInput(const std::string &nm, char kind, const z3::expr &e, const z3::expr &seed) {
  unsigned id = varsOf(e)[0]; S->model[id] = Ex(seed);
  S->inputs.push_back({nm, kind, Ex(e)});
}
static int inputSerial(const std::string &nm) { int n = 0; for (auto &i : S->inputs) if (i.kind != 'u') n++; return n; }
static z3::expr realEqExpr(const Val &a, const Val &b, bool &handled, bool &res) {
  handled = true; res = false;
  bool ca = a.k == KFp || a.k == KUndef, cb = b.k == KFp || b.k == KUndef;
  if (ca && cb) { if (std::isnan(a.d) || std::isnan(b.d)) res = std::isnan(a.d) && std::isnan(b.d); else { res = a.d == b.d; if (!res && std::isfinite(a.d) && std::isfinite(b.d)) res = std::fabs(a.d - b.d) <= 1e-9 * (1 + std::fabs(a.d) + std::fabs(b.d)); } return C->bool_val(res); }
  if (a.k == KSymF || b.k == KSymF) { handled = false; z3::expr x = asFpa(a), y = asFpa(b); return z3::expr(*C, Z3_mk_fpa_eq(*C, x, y)) || (z3::expr(*C, Z3_mk_fpa_is_nan(*C, x)) && z3::expr(*C, Z3_mk_fpa_is_nan(*C, y))); }
  if ((ca && !std::isfinite(a.d)) || (cb && !std::isfinite(b.d))) { res = false; return C->bool_val(false); }
  handled = false;
  return asReal(a) == asReal(b);
}
static double (*hostFn(const std::string &n))(double) {
  static std::map<std::string, double (*)(double)> m = {{"log2", ::log2}, {"log10", ::log10}, {"exp2", ::exp2}, {"log1p", ::log1p}, {"expm1", ::expm1}, {"sin", ::sin}, {"cos", ::cos}, {"tan", ::tan}, {"atan", ::atan}, {"erf", ::erf}, {"erfc", ::erfc}, {"tgamma", ::tgamma}, {"lgamma", ::lgamma}, {"sinh", ::sinh}, {"cosh", ::cosh}, {"tanh", ::tanh}, {"asin", ::asin}, {"acos", ::acos}, {"cbrt", ::cbrt}};
  auto it = m.find(n); return it == m.end() ? nullptr : it->second;
}
static void doAssume(const z3::expr &c0) {
  z3::expr c = normC(normC(c0).simplify());
  if (c.is_true()) return;
  if (c.is_false()) throw PathEnd();
  int ev = evalUnder(*S, c);
  if (ev != 1) {
    std::unordered_map<unsigned, Ex> m;
    int r = checkSat(*S, c, &m);
    if (r == 0) throw PathEnd();
    if (r == 1) mergeModel(*S, m); else S->modelOk = false;
  }
  addPc(*S, c);
}
static void doAssert(const Val &cv, const std::string &msg) {
  nAsserts++; assertSeen[msg]++;
  if (cv.k == KInt || cv.k == KUndef) { if (cv.i & 1) return; recordViolation("assert", msg, nullptr); throw PathEnd(); }
  nAssertSym++;
  z3::expr c = normC(asBool(cv)).simplify(); c = normC(c).simplify();
  if (c.is_true()) { nTriv++; assertProved[msg]++; return; }
  if (trivByNormalForm(asBool(cv)) || trivByNormalForm(c)) { nTriv++; assertProved[msg]++; return; }
  if (c.is_false()) { recordViolation("assert", msg, nullptr); throw PathEnd(); }
  z3::expr nc = (!c).simplify();
  for (auto &p : S->pc) if (p.a == (Z3_ast)c) { assertProved[msg]++; return; }
  std::unordered_map<unsigned, Ex> m;
  int r = checkSat(*S, nc, &m);
  if (r == 0) { assertProved[msg]++; addPc(*S, c); return; }
  if (r < 0) { inconcl["assertion undecided (solver unknown): " + msg]++; doAssume(c); return; }
  recordViolation("assert", msg, &nc);
  doAssume(c);
}
static u64 allocHeap(u64 n, const char *nm) {
  Obj *o = S->mem.alloc(n, OHeap, std::string(nm) + "(" + std::to_string(n) + ")");
  return o ? Memory::addr(o->id) : 0;
}
static void freeHeap(u64 a) {
  if (!a) return;
  Obj *o = S->mem.get(a >> ASH);
  if (!o || (a & ((1ull << ASH) - 1)) || o->kind != OHeap) throw Violation{"memory", "free/delete of a pointer that is not a heap allocation"};
  if (o->freed) throw Violation{"memory", "double free of " + o->name};
  o = S->mem.wr(a >> ASH); o->freed = true; o->bytes.clear(); o->bytes.shrink_to_fit(); o->init.clear(); o->ov.clear();
}
static Val iteInt(const z3::expr &c, const Val &a, const Val &b, unsigned w) { return mkI(z3::ite(c, asBV(a), asBV(b)), w); }
static Val fabsVal(const Val &a, unsigned w) {
  if (a.k == KFp || a.k == KUndef) return VD(std::fabs(a.d), w);
  if (a.k == KSymF) return mkF(z3::expr(*C, Z3_mk_fpa_abs(*C, a.x.e())));
  if (decide(a.x.e() >= 0)) return a;
  return mkR(-a.x.e());
}
static bool doSpecial(int sp, Inst &x, const Function *F, std::vector<Val> &args, Val &r, bool inv) {
  unsigned w = x.ty.t == Ty::I || x.ty.t == Ty::F ? x.ty.w : 0;
  auto callRt = [&](const char *nm, std::vector<Val> a) -> bool {
    Function *f = M->getFunction(nm); if (!f || f->isDeclaration()) throw Unsupported{std::string("runtime function missing ") + nm};
    enter(getFn(f), a, x.dst, inv, x.bb0, x.bb1); return false; };
  switch (sp) {
  case sp_nop: r = VI(0, 64); return true;
  case sp_ret0: r = VI(0, w ? w : 64); return true;
  case sp_ret1: r = VI(1, w ? w : 64); return true;
  case sp_ret_arg0: r = args[0]; return true;
  // ---- harness interface
  case sp_sx_int: case sp_sx_i64: {
    std::string nm = readStr(concretize(args[0])); i64 lo = sextw(concretize(args[1]), args[1].w), hi = sextw(concretize(args[2]), args[2].w);
    unsigned ww = sp == sp_sx_int ? 32 : 64;
    if (lo > hi) throw PathEnd();
    int n = inputSerial(nm);
    z3::expr v = C->bv_const(("i" + std::to_string(n) + "_" + nm).c_str(), ww);
    addInput(nm, 'i', v, C->bv_val((int64_t)lo, ww));
    if (lo == hi) { S->pc.push_back(Ex(v == C->bv_val((int64_t)lo, ww))); varsOf(S->pc.back().e()); r = VI((u64)lo, ww); return true; }
    i64 mn = ww == 32 ? INT32_MIN : INT64_MIN, mx = ww == 32 ? INT32_MAX : INT64_MAX;
    if (lo != mn) addPc(*S, v >= C->bv_val((int64_t)lo, ww));
    if (hi != mx) addPc(*S, v <= C->bv_val((int64_t)hi, ww));
    r.k = KSymI; r.w = ww; r.x = Ex(v); return true;
  }
  case sp_sx_choose: {  // concretized integer in [lo,hi]
    std::string nm = readStr(concretize(args[0])); i64 lo = sextw(concretize(args[1]), 32), hi = sextw(concretize(args[2]), 32);
    if (lo > hi) throw PathEnd();
    int n = inputSerial(nm);
    z3::expr v = C->bv_const(("i" + std::to_string(n) + "_" + nm).c_str(), 32);
    // one path per value
    for (i64 k = hi; k > lo; k--) {
      auto nst = std::make_shared<State>(*S); nForks++;
      nst->model[varsOf(v)[0]] = Ex(C->bv_val((int64_t)k, 32)); nst->inputs.push_back({nm, 'i', Ex(v)}); nst->pc.push_back(Ex(v == C->bv_val((int64_t)k, 32))); varsOf(nst->pc.back().e());
      Frame &f = nst->st.back(); if (x.dst >= 0) f.regs[x.dst] = VI((u64)k, 32);
      if (inv) { auto *of = Fr; auto *os = S; S = nst.get(); Fr = &nst->st.back(); jump(x.bb0); S = os; Fr = of; }
      work.push_back(nst);
    }
    addInput(nm, 'i', v, C->bv_val((int64_t)lo, 32)); S->pc.push_back(Ex(v == C->bv_val((int64_t)lo, 32))); varsOf(S->pc.back().e());
    r = VI((u64)lo, 32); return true;
  }
  case sp_sx_bool: {
    std::string nm = readStr(concretize(args[0])); int n = inputSerial(nm);
    z3::expr v = C->bool_const(("b" + std::to_string(n) + "_" + nm).c_str()); addInput(nm, 'b', v, C->bool_val(false));
    r.k = KSymB; r.w = 1; r.x = Ex(v); return true;
  }
  case sp_sx_real: {
    std::string nm = readStr(concretize(args[0])); int n = inputSerial(nm);
    z3::expr v = C->real_const(("r" + std::to_string(n) + "_" + nm).c_str());
    static const int seeds[] = {3, 1, 4, 7, 5, 9, 2, 6, 11, 8, 13, 10, 17, 12, 19, 15};
    addInput(nm, 'r', v, C->real_val(seeds[n % 16] + 20 * (n / 16)));
    r.k = KSymR; r.w = 64; r.x = Ex(v); return true;
  }
  case sp_sx_f64: {
    std::string nm = readStr(concretize(args[0])); int n = inputSerial(nm);
    z3::expr v = C->constant(("f" + std::to_string(n) + "_" + nm).c_str(), C->fpa_sort<64>()); addInput(nm, 'f', v, C->fpa_val(1.0));
    r.k = KSymF; r.w = 64; r.x = Ex(v); return true;
  }
  case sp_sx_assume: {
    const Val &c = args[0];
    if (c.k == KInt || c.k == KUndef) { if (!(c.i & 1)) throw PathEnd(); return true; }
    doAssume(asBool(c)); return true;
  }
  case sp_sx_assert: doAssert(args[0], readStr(concretize(args[1]))); return true;
  case sp_sx_reach: reached[readStr(concretize(args[0]))]++; return true;
  case sp_sx_conc: { u64 c = concretize(args[0]); r = VI(c, w); return true; }
  case sp_sx_dconc: { r = args[0]; return true; }
  case sp_sx_eq: { bool h, res; z3::expr e = realEqExpr(args[0], args[1], h, res); if (h) { r = VI(res, 1); return true; }
    r.k = KSymB; r.w = 1; r.x = Ex(e); if (e.is_true()) r = VI(1, 1); else if (trivByNormalForm(e)) { nTriv++; nAssertSym++; r = VI(1, 1); } return true; }
  case sp_sx_ident: { const Val &a = args[0], &b = args[1]; bool ca = a.k == KFp, cb = b.k == KFp; if ((ca && !std::isfinite(a.d)) || (cb && !std::isfinite(b.d))) { r = VI(ca && cb && (a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))), 1); return true; }
    z3::expr c = normC(asReal(a) == asReal(b)).simplify(); r = VI(c.is_true() || (!c.is_false() && ratIdentity(asReal(a), asReal(b))), 1); return true; }
  case sp_sx_issym: r = VI(args[0].k != KFp && args[0].k != KInt, 1); return true;
  case sp_sx_note: S->trace.push_back(readStr(concretize(args[0]))); return true;
  case sp_sx_unsupported: throw Unsupported{readStr(concretize(args[0]))};
  case sp_sx_fmt: {
    u64 buf = concretize(args[1]); int n = (int)concretize(args[2]), prec = (int)concretize(args[3]); bool fx = concretize(args[4]);
    char b[512];
    if (args[0].k == KFp) snprintf(b, sizeof b, fx ? "%.*f" : "%.*g", prec, args[0].d);
    else { int id = -1; for (size_t i = 0; i < S->tokens.size(); i++) if (S->tokens[i].k == args[0].k && S->tokens[i].x.a == args[0].x.a) id = (int)i;
      if (id < 0) { S->tokens.push_back(args[0]); id = (int)S->tokens.size() - 1; } snprintf(b, sizeof b, "#R%d", id); }
    Ty t; t.t = Ty::I; t.w = 8; t.size = 1; int L = strlen(b); if (L >= n) L = n - 1;
    for (int i = 0; i <= L; i++) storeTy(buf + i, t, VI(i == L ? 0 : (unsigned char)b[i], 8));
    return true;
  }
  case sp_sx_fmti: {
    u64 buf = concretize(args[1]); int n = (int)concretize(args[2]); char b[64];
    if (args[0].k == KInt) snprintf(b, sizeof b, "%lld", (long long)args[0].i);
    else {
      int id = -1; z3::expr me = asBV(args[0]).simplify();
      for (size_t i = 0; i < S->tokens.size() && id < 0; i++) if (S->tokens[i].k == KSymI && S->tokens[i].w == args[0].w && z3::eq(asBV(S->tokens[i]).simplify(), me)) id = (int)i;
      for (size_t i = 0; i < S->tokens.size() && id < 0; i++) if (S->tokens[i].k == KSymI && S->tokens[i].w == args[0].w && decide(asBV(S->tokens[i]) == me)) id = (int)i;
      if (id < 0) { S->tokens.push_back(args[0]); id = (int)S->tokens.size() - 1; }
      snprintf(b, sizeof b, "#I%d~", id); }
    Ty t; t.t = Ty::I; t.w = 8; t.size = 1; int L = strlen(b); if (L >= n) L = n - 1;
    for (int i = 0; i <= L; i++) storeTy(buf + i, t, VI(i == L ? 0 : (unsigned char)b[i], 8));
    return true;
  }
  case sp_sx_tok: {  // (p, &len, &value): 1 if p points at an integer token
    u64 p = concretize(args[0]), lp = concretize(args[1]), vp = concretize(args[2]); Ty t; t.t = Ty::I; t.w = 8; t.size = 1; Ty t8; t8.t = Ty::I; t8.w = 64; t8.size = 8;
    r = VI(0, 32); Val c = loadTy(p, t); if (c.k != KInt || c.i != '#') return true;
    c = loadTy(p + 1, t); if (c.k != KInt || c.i != 'I') return true;
    u64 k = 2; unsigned id = 0; bool any = false;
    for (;; k++) { c = loadTy(p + k, t); if (c.k != KInt) return true; if (c.i < '0' || c.i > '9') break; id = id * 10 + (c.i - '0'); any = true; }
    if (!any || c.i != '~' || id >= S->tokens.size()) return true;
    storeTy(lp, t8, VI(k + 1, 64)); storeTy(vp, t8, S->tokens[id]); r = VI(1, 32); return true;
  }
  case sp_curexc: { Ty pt; pt.t = Ty::I; pt.w = 64; pt.size = 8; storeTy(concretize(args[0]), pt, VP(S->rnd.empty() ? 0 : S->rnd.back())); return true; }
  case sp_rethrowptr: { Ty pt; pt.t = Ty::I; pt.w = 64; pt.size = 8; u64 e = concretize(loadTy(concretize(args[0]), pt)); if (!e) throw Violation{"exception", "rethrow_exception of a null pointer"}; unwindTo(e, S->excTi[e]); return false; }
  case sp_strtod: {
    u64 p = concretize(args[0]), ep = concretize(args[1]); std::string s; Ty t; t.t = Ty::I; t.w = 8; t.size = 1;
    for (int i = 0; i < 400; i++) { u64 c = concretize(loadTy(p + i, t)); if (!c) break; s += (char)c; }
    size_t q = 0; while (q < s.size() && isspace((unsigned char)s[q])) q++;
    size_t used;
    if (s.compare(q, 2, "#R") == 0) { size_t k = q + 2; unsigned id = 0; while (k < s.size() && isdigit((unsigned char)s[k])) id = id * 10 + (s[k++] - '0'); if (id >= S->tokens.size()) throw Unsupported{"bad double token"}; r = S->tokens[id]; used = k; }
    else { char *e; const char *cs = s.c_str(); r = VD(strtod(cs, &e)); used = e - cs; }
    if (ep) { Ty pt; pt.t = Ty::I; pt.w = 64; pt.size = 8; storeTy(ep, pt, VP(p + used)); }
    return true;
  }
  // ---- heap
  case sp_malloc: case sp_aligned_alloc: { u64 n = concretize(args[sp == sp_aligned_alloc ? 1 : 0]); r = VP(allocHeap(n, "malloc")); return true; }
  case sp_new: { u64 n = concretize(args[0]); u64 a = allocHeap(n, "new"); if (!a) { if (F->getName().contains("nothrow")) { r = VP(0); return true; } return callRt("sx_rt_bad_alloc", {}); } r = VP(a); return true; }
  case sp_calloc: { u64 n = concretize(args[0]) * concretize(args[1]); u64 a = allocHeap(n, "calloc"); if (a) std::fill(S->mem.wr(a >> ASH)->init.begin(), S->mem.wr(a >> ASH)->init.end(), 1); r = VP(a); return true; }
  case sp_realloc: { u64 p = concretize(args[0]), n = concretize(args[1]); u64 a = allocHeap(n, "realloc"); if (p) { u64 os = S->mem.get(p >> ASH)->size; memCopy(a, p, std::min(os, n)); freeHeap(p); } r = VP(a); return true; }
  case sp_free: case sp_delete: freeHeap(concretize(args[0])); return true;
  case sp_memcpy: { u64 n = concretize(args[2]); u64 d = addrOf(args[0], n, true), s = addrOf(args[1], n, false); if (n > (1ull << ASH)) throw Violation{"memory", "memcpy/memmove with absurd length"}; memCopy(d, s, n); r = VP(d); return true; }
  case sp_memset: {
    u64 n = concretize(args[2]); u64 d = addrOf(args[0], n, true); r = VP(d); if (!n) return true;
    u64 off; uint32_t id = resolve(d, n, true, off); Obj *o = S->mem.wr(id);
    Val b = args[1]; if (b.k == KInt) { clearOv(o, off, n); memset(&o->bytes[off], (int)(b.i & 255), n); memset(&o->init[off], 1, n); }
    else { Val bb = b.w == 8 ? b : mkI(asBV(b).extract(7, 0), 8); for (u64 k = 0; k < n; k++) storeScalar(o, off + k, 1, bb); }
    return true;
  }
  // ---- integer intrinsics
  case sp_smax: case sp_smin: case sp_umax: case sp_umin: {
    const Val &a = args[0], &b = args[1];
    if (a.k == KInt && b.k == KInt) { i64 sa = sextw(a.i, w), sb = sextw(b.i, w); u64 v = sp == sp_smax ? (u64)std::max(sa, sb) : sp == sp_smin ? (u64)std::min(sa, sb) : sp == sp_umax ? std::max(a.i, b.i) : std::min(a.i, b.i); r = VI(v, w); return true; }
    z3::expr p = asBV(a), q = asBV(b); z3::expr c = sp == sp_smax ? p > q : sp == sp_smin ? p < q : sp == sp_umax ? z3::ugt(p, q) : z3::ult(p, q);
    r = mkI(z3::ite(c, p, q), w); return true;
  }
  case sp_abs: { const Val &a = args[0]; if (a.k == KInt) { i64 s = sextw(a.i, w); r = VI(s < 0 ? -a.i : a.i, w); return true; } z3::expr p = asBV(a); r = mkI(z3::ite(p < C->bv_val(0, w), -p, p), w); return true; }
  case sp_ctlz: { u64 a = concretize(args[0]); unsigned n = 0; for (int i = w - 1; i >= 0 && !((a >> i) & 1); i--) n++; r = VI(n, w); return true; }
  case sp_cttz: { u64 a = concretize(args[0]); unsigned n = 0; while (n < w && !((a >> n) & 1)) n++; r = VI(n, w); return true; }
  case sp_ctpop: { u64 a = concretize(args[0]); r = VI(__builtin_popcountll(a), w); return true; }
  case sp_bswap: { u64 a = concretize(args[0]); u64 o = 0; for (unsigned i = 0; i < w / 8; i++) o |= ((a >> (8 * i)) & 255) << (w - 8 - 8 * i); r = VI(o, w); return true; }
  case sp_fshl: case sp_fshr: {
    u64 a = concretize(args[0]), b = concretize(args[1]), c = concretize(args[2]) % w;
    if (sp == sp_fshl) r = VI(c ? (a << c) | (b >> (w - c)) : a, w); else r = VI(c ? (a << (w - c)) | (b >> c) : b, w); return true; }
  case sp_usubsat: { const Val &a = args[0], &b = args[1]; if (a.k == KInt && b.k == KInt) { r = VI(a.i > b.i ? a.i - b.i : 0, w); return true; } r = mkI(z3::ite(z3::ugt(asBV(a), asBV(b)), asBV(a) - asBV(b), C->bv_val(0, w)), w); return true; }
  case sp_uaddsat: { u64 a = concretize(args[0]), b = concretize(args[1]); u64 s = maskw(a + b, w); r = VI(s < a ? ~0ull : s, w); return true; }
  case sp_uaddo: case sp_saddo: case sp_usubo: case sp_ssubo: case sp_umulo: case sp_smulo: {
    unsigned vw = x.opty[0].w; z3::expr a = asBV(args[0]), b = asBV(args[1]); z3::expr res(*C), ov(*C);
    bool sg = sp == sp_saddo || sp == sp_ssubo || sp == sp_smulo;
    unsigned ew = sp == sp_umulo || sp == sp_smulo ? vw : 1;
    z3::expr ea = sg ? z3::sext(a, ew) : z3::zext(a, ew), eb = sg ? z3::sext(b, ew) : z3::zext(b, ew);
    z3::expr er(*C);
    if (sp == sp_uaddo || sp == sp_saddo) er = ea + eb; else if (sp == sp_usubo || sp == sp_ssubo) er = ea - eb; else er = ea * eb;
    res = er.extract(vw - 1, 0); ov = er != (sg ? z3::sext(res, ew) : z3::zext(res, ew));
    r = VAgg({mkI(res, vw), mkB(ov)}); return true;
  }
  // ---- floating point
  case sp_fabs: r = fabsVal(args[0], w); return true;
  case sp_sqrt: { const Val &a = args[0]; if (a.k == KFp || a.k == KUndef) { double q = std::sqrt(a.d); if (optExact && w == 64 && std::isfinite(q) && std::fma(q, q, -a.d) != 0) { r = realSqrt(dblToReal(a.d)); return true; } r = VD(q, w); return true; } if (a.k == KSymF) { r = mkF(z3::expr(*C, Z3_mk_fpa_sqrt(*C, C->fpa_rounding_mode(), a.x.e()))); return true; } r = realSqrt(a.x.e()); return true; }
  case sp_floor: case sp_ceil: case sp_trunc: case sp_round: case sp_lround: {
    const Val &a = args[0];
    if (a.k == KSymF) { z3::expr rm(*C, sp == sp_floor ? Z3_mk_fpa_rtn(*C) : sp == sp_ceil ? Z3_mk_fpa_rtp(*C) : sp == sp_trunc ? Z3_mk_fpa_rtz(*C) : Z3_mk_fpa_rna(*C)); r = mkF(z3::expr(*C, Z3_mk_fpa_round_to_integral(*C, rm, a.x.e()))); return true; }
    double d = realToIntegral(a, sp == sp_floor ? 1 : sp == sp_ceil ? 2 : sp == sp_trunc ? 0 : 3);
    if (sp == sp_lround) r = VI((u64)(i64)d, 64); else r = VD(d, w); return true;
  }
  case sp_rint: { if (args[0].k == KFp) { r = VD(std::nearbyint(args[0].d), w); return true; } throw Unsupported{"rint of symbolic"}; }
  case sp_copysign: { const Val &a = args[0], &b = args[1]; Val fa = fabsVal(a, w); bool neg; if (b.k == KFp) neg = std::signbit(b.d); else if (b.k == KSymR) neg = decide(b.x.e() < 0); else throw Unsupported{"copysign"}; if (!neg) r = fa; else r = fa.k == KFp ? VD(-fa.d, w) : mkR(-fa.x.e()); return true; }
  case sp_minnum: case sp_maxnum: {
    const Val &a = args[0], &b = args[1]; bool mn = sp == sp_minnum;
    if (a.k == KFp && b.k == KFp) { r = VD(mn ? std::fmin(a.d, b.d) : std::fmax(a.d, b.d), w); return true; }
    if (a.k == KFp && std::isnan(a.d)) { r = b; return true; }
    if (b.k == KFp && std::isnan(b.d)) { r = a; return true; }
    Val c = fcmp(CmpInst::FCMP_OLT, a, b); bool lt = c.k == KInt ? c.i : decide(asBool(c)); r = (lt == mn) ? a : b; return true;
  }
  case sp_fma: { Val p = binFp(Instruction::FMul, args[0], args[1], w); r = binFp(Instruction::FAdd, p, args[2], w); return true; }
  case sp_hypot: { Val p = binFp(Instruction::FAdd, binFp(Instruction::FMul, args[0], args[0], w), binFp(Instruction::FMul, args[1], args[1], w), w); if (p.k == KFp) r = VD(std::sqrt(p.d)); else r = realSqrt(asReal(p)); return true; }
  case sp_fmod: { const Val &a = args[0], &b = args[1]; if (a.k == KFp && b.k == KFp) { r = VD(std::fmod(a.d, b.d), w); return true; }
    Val q = binFp(Instruction::FDiv, a, b, 64); double t = realToIntegral(q, 0); r = binFp(Instruction::FSub, a, binFp(Instruction::FMul, b, VD(t), 64), 64); return true; }
  case sp_pow: case sp_powi: {
    const Val &a = args[0]; Val b = args[1]; if (sp == sp_powi) { b = VD((double)sextw(concretize(b), 32)); }
    if (b.k == KFp && b.d == std::floor(b.d) && std::fabs(b.d) <= 64) {
      int n = (int)b.d; if (a.k == KFp && !optExact) { r = VD(std::pow(a.d, n)); return true; }
      Val p = VD(1.0); for (int i = 0; i < std::abs(n); i++) p = binFp(Instruction::FMul, p, a, 64);
      if (n < 0) p = binFp(Instruction::FDiv, VD(1.0), p, 64); r = p; return true;
    }
    if (a.k == KFp && b.k == KFp) { r = VD(std::pow(a.d, b.d), w); return true; }
    if (b.k == KFp && a.k == KSymR && b.d * 2 == std::floor(b.d * 2) && std::fabs(b.d) < 20 && b.d != 0.5) {  // half integer power
      Val q; { Val t = realSqrt(a.x.e()); q = t; } if (q.k == KFp && std::isnan(q.d)) { r = q; return true; }
      int n = (int)std::floor(std::fabs(b.d)); Val p = q; for (int i = 0; i < n; i++) p = binFp(Instruction::FMul, p, a, 64);
      if (b.d < 0) p = binFp(Instruction::FDiv, VD(1.0), p, 64); r = p; return true;
    }
    if (b.k == KFp && b.d == 0.5) { r = realSqrt(asReal(a)); return true; }
    if (a.k == KSymR || b.k == KSymR) { z3::sort rs = C->real_sort(); z3::func_decl f = C->function("pow", rs, rs, rs); r = mkR(f(asReal(a), asReal(b))); return true; }
    throw Unsupported{"pow"};
  }
  case sp_exp: r = monoUF("exp", args[0], [](double d) { return std::exp(d); }); return true;
  case sp_log: r = monoUF("log", args[0], [](double d) { return std::log(d); }); return true;
  case sp_uf1: {
    std::string n = F->getName().str(); if (n.rfind("llvm.", 0) == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); }
    auto h = hostFn(n); const Val &a = args[0];
    if (a.k == KFp) { r = VD(h ? h(a.d) : NAN, w); return true; }
    if (n == "erfc") { Val e = monoUF("erf", a, ::erf); return r = binFp(Instruction::FSub, VD(1.0), e, 64), true; }
    static const std::set<std::string> mono = {"log2", "log10", "exp2", "log1p", "expm1", "atan", "erf", "tanh", "sinh", "asin", "cbrt"};
    if (mono.count(n)) { r = monoUF(n, a, h); return true; }
    z3::sort rs = C->real_sort(); z3::func_decl f = C->function(n.c_str(), rs, rs); r = mkR(f(asReal(a))); return true;
  }
  case sp_isfpclass: {
    const Val &a = args[0]; unsigned m = (unsigned)concretize(args[1]);
    if (a.k == KSymR) { unsigned f = m & 0x1f8; if (f == 0 || f == 0x1f8) { r = VI(f != 0, 1); return true; } throw Unsupported{"is.fpclass"}; }
    if (a.k == KSymF) { z3::expr e = a.x.e(), res = C->bool_val(false); z3::expr nan(*C, Z3_mk_fpa_is_nan(*C, e)), inf(*C, Z3_mk_fpa_is_infinite(*C, e)), neg(*C, Z3_mk_fpa_is_negative(*C, e));
      if (m & 3) res = res || nan; if (m & 4) res = res || (inf && neg); if (m & 0x200) res = res || (inf && !neg); unsigned f = m & 0x1f8; if (f == 0x1f8) res = res || !(nan || inf); else if (f) throw Unsupported{"is.fpclass"}; r = mkB(res); return true; }
    unsigned c = std::isnan(a.d) ? 3 : std::isinf(a.d) ? (a.d < 0 ? 4 : 0x200) : a.d == 0 ? (std::signbit(a.d) ? 0x20 : 0x40) : std::fabs(a.d) < 2.2250738585072014e-308 ? (a.d < 0 ? 0x10 : 0x80) : (a.d < 0 ? 8 : 0x100);
    r = VI((m & c) != 0, 1); return true;
  }
  case sp_objsize: r = VI(~0ull, w); return true;
  case sp_isconst: r = VI(0, 1); return true;
  case sp_trap: throw Violation{"ub", "trap"};
  // ---- exceptions and C++ ABI
  case sp_typeid: r = VI((u64)tiId(concretize(args[0])), 32); return true;
  case sp_cxa_alloc: r = VP(allocHeap(concretize(args[0]), "exception")); return true;
  case sp_cxa_throw: { u64 e = concretize(args[0]), ti = concretize(args[1]); S->excTi[e] = ti; unwindTo(e, ti); return false; }
  case sp_cxa_begin: { u64 e = concretize(args[0]); S->rnd.push_back(e); r = VP(adjustedFor(e)); return true; }
  case sp_cxa_getptr: r = VP(adjustedFor(concretize(args[0]))); return true;
  case sp_cxa_end: if (!S->rnd.empty()) S->rnd.pop_back(); return true;
  case sp_cxa_rethrow: { if (S->rnd.empty()) throw Violation{"exception", "rethrow without exception"}; u64 e = S->rnd.back(); unwindTo(e, S->excTi[e]); return false; }
  case sp_term: throw Violation{"abort", "std::terminate / abort called (" + F->getName().str() + ")"};
  case sp_exit: throw PathEnd();
  case sp_guard_acq: { Ty t; t.t = Ty::I; t.w = 8; t.size = 1; Val v = loadTy(concretize(args[0]), t); r = VI(v.i ? 0 : 1, 32); return true; }
  case sp_guard_rel: { Ty t; t.t = Ty::I; t.w = 8; t.size = 1; storeTy(concretize(args[0]), t, VI(1, 8)); return true; }
  case sp_pure: throw Violation{"ub", "pure virtual call"};
  case sp_dyncast: {
    u64 p = concretize(args[0]), dst = concretize(args[2]); Ty t; t.t = Ty::I; t.w = 64; t.size = 8; static Type *pt = PointerType::get(LC, 0); t.ty = pt;
    u64 vt = concretize(loadTy(p, t)); u64 top = concretize(loadTy(vt - 16, t)), ti = concretize(loadTy(vt - 8, t)); i64 off;
    if (ti == dst || tiBase(ti, dst, off)) { if (ti == dst) off = 0; r = VP(p + top + off); } else r = VP(0);
    return true;
  }
  case sp_errno: { GlobalVariable *g = M->getGlobalVariable("sx_errno", true); if (!g) throw Unsupported{"errno"}; r = VP(gaddr[g]); return true; }
  }
  throw Unsupported{"special " + F->getName().str()};
}
