// ---------------------------------------------------------------- canonical rational functions over Q
// A real term is read as a quotient n/d of polynomials over its atoms (variables, applications, conditionals);
// common factors are cancelled (denominators are non zero on the path, because every division forks on zero).
// Powers of a square-root variable v (v*v = e on the path) are reduced with its definition.
typedef std::vector<std::pair<unsigned, unsigned>> Mono;  // (atom, exponent), sorted by atom
struct MonoGt { bool operator()(const Mono &a, const Mono &b) const {  // lexicographic, admissible
  size_t i = 0; for (;; i++) { if (i == a.size()) return false; if (i == b.size()) return true; if (a[i].first != b[i].first) return a[i].first < b[i].first; if (a[i].second != b[i].second) return a[i].second > b[i].second; } } };
typedef std::map<Mono, mpq_class, MonoGt> Poly;
struct RatTooBig {};
static const size_t RATCAP = 2500;
static std::vector<Ex> ratAtoms; static std::unordered_map<unsigned, unsigned> ratAtomOf;
struct RatN { Poly n, d; bool div = false; };   // div: the term contains a division or a reduced root
typedef std::shared_ptr<RatN> RatP;
static std::unordered_map<unsigned, RatP> ratMemo;
static std::unordered_map<unsigned, RatP> sqrtDef;  // atom -> radicand
static bool isConstP(const Poly &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static Poly constP(const mpq_class &c) { Poly p; if (c != 0) p[Mono()] = c; return p; }
static Mono mulM(const Mono &a, const Mono &b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
static bool divM(const Mono &a, const Mono &b, Mono &r) { r.clear(); size_t i = 0; for (auto &q : b) { while (i < a.size() && a[i].first < q.first) r.push_back(a[i++]); if (i == a.size() || a[i].first != q.first || a[i].second < q.second) return false; if (a[i].second > q.second) r.push_back({q.first, a[i].second - q.second}); i++; } while (i < a.size()) r.push_back(a[i++]); return true; }
static void addMul(Poly &p, const Poly &q, const Mono &m, const mpq_class &c) { for (auto &t : q) { auto &x = p[mulM(t.first, m)]; x += t.second * c; } for (auto it = p.begin(); it != p.end();) if (it->second == 0) it = p.erase(it); else ++it; if (p.size() > RATCAP) throw RatTooBig(); }
static Poly addP(const Poly &a, const Poly &b, int s = 1) { Poly r = a; addMul(r, b, Mono(), s); return r; }
static Poly mulP(const Poly &a, const Poly &b) { if (a.size() * b.size() > 40 * RATCAP) throw RatTooBig(); Poly r; if (a.size() > b.size()) { for (auto &t : b) for (auto &u : a) r[mulM(t.first, u.first)] += t.second * u.second; } else for (auto &t : a) for (auto &u : b) r[mulM(t.first, u.first)] += t.second * u.second; for (auto it = r.begin(); it != r.end();) if (it->second == 0) it = r.erase(it); else ++it; if (r.size() > RATCAP) throw RatTooBig(); return r; }
static bool exactDiv(const Poly &a, const Poly &b, Poly &q) {  // q = a / b when it is a polynomial
  q.clear(); Poly r = a; Mono m; const Mono &lb = b.begin()->first; const mpq_class &cb = b.begin()->second;
  while (!r.empty()) { if (!divM(r.begin()->first, lb, m)) return false; mpq_class c = r.begin()->second / cb; q[m] = c; addMul(r, b, m, -c); if (q.size() > RATCAP) return false; }
  return true; }
static void monicP(Poly &p) { if (p.empty()) return; mpq_class c = p.begin()->second; if (c == 1) return; for (auto &t : p) t.second /= c; }
static unsigned mainVar(const Poly &p) { unsigned v = ~0u; for (auto &t : p) if (!t.first.empty()) v = std::min(v, t.first[0].first); return v; }
static std::map<unsigned, Poly> coefs(const Poly &p, unsigned v) { std::map<unsigned, Poly> r; for (auto &t : p) { Mono m; unsigned e = 0; for (auto &q : t.first) if (q.first == v) e = q.second; else m.push_back(q); r[e][m] = t.second; } return r; }
static int gcdFuel = 0;
static Poly gcdP(const Poly &a, const Poly &b);
static Poly contentP(const Poly &p, unsigned v) { Poly g; for (auto &c : coefs(p, v)) { g = g.empty() ? c.second : gcdP(g, c.second); if (isConstP(g)) break; } if (isConstP(g)) return constP(1); monicP(g); return g; }
static Poly gcdP(const Poly &a, const Poly &b) {
  if (a.empty()) { Poly r = b; monicP(r); return r; } if (b.empty()) { Poly r = a; monicP(r); return r; }
  if (isConstP(a) || isConstP(b)) return constP(1);
  if (--gcdFuel < 0) throw RatTooBig();
  unsigned v = mainVar(a), w = mainVar(b);
  if (v != w) { unsigned u = std::min(v, w); return v == u ? gcdP(contentP(a, u), b) : gcdP(a, contentP(b, u)); }
  Poly ca = contentP(a, v), cb = contentP(b, v), x, y; if (!exactDiv(a, ca, x) || !exactDiv(b, cb, y)) throw RatTooBig();
  Poly g = gcdP(ca, cb); monicP(x); monicP(y);
  auto deg = [&](const Poly &p) { unsigned d = 0; for (auto &t : p) for (auto &q : t.first) if (q.first == v) d = std::max(d, q.second); return d; };
  if (deg(x) < deg(y)) std::swap(x, y);
  while (!y.empty()) {
    unsigned dy = deg(y); if (dy == 0) { x = constP(1); break; }
    auto cy = coefs(y, v); const Poly &lc = cy[dy]; Poly r = x;
    for (unsigned dr; !r.empty() && (dr = deg(r)) >= dy;) { if (--gcdFuel < 0) throw RatTooBig(); auto cr = coefs(r, v); Mono m; if (dr > dy) m.push_back({v, dr - dy}); Poly sh; addMul(sh, y, m, 1); if (isConstP(lc)) { r = addP(r, mulP(cr[dr], sh), -1); if (lc.begin()->second != 1) { Poly t = mulP(cr[dr], sh); r = addP(r, t, 1); mpq_class k = 1 / lc.begin()->second; for (auto &q : t) q.second *= k; r = addP(r, t, -1); } } else r = addP(mulP(r, lc), mulP(cr[dr], sh), -1); }
    x = y; if (!r.empty()) { Poly c = contentP(r, v), q; if (!exactDiv(r, c, q)) throw RatTooBig(); r = q; monicP(r); if (r.size() > 400) throw RatTooBig(); }
    y = r; }
  if (!isConstP(x)) { Poly c = contentP(x, v), q; if (exactDiv(x, c, q)) x = q; monicP(x); }
  return mulP(g, x); }
static std::vector<Poly> knownFactors;   // divisors seen so far: cheap candidates for common factors
static void addFactor(Poly p) { if (isConstP(p) || p.size() > 60 || knownFactors.size() >= 80) return; monicP(p); for (auto &q : knownFactors) if (q == p) return; knownFactors.push_back(p); }
static void reduceRat(RatN &r) {
  if (r.n.empty()) { r.d = constP(1); return; }
  if (!isConstP(r.d)) {
    Poly q; 
    if (exactDiv(r.n, r.d, q)) { r.n = q; r.d = constP(1); return; }
    for (auto &f : knownFactors) { Poly a, b; while (!isConstP(r.d) && f.size() <= r.n.size() * 4 && exactDiv(r.d, f, b) && exactDiv(r.n, f, a)) { r.n = a; r.d = b; } }
    if (!isConstP(r.d)) try { gcdFuel = 400; if (r.n.size() * r.d.size() <= 20000) { Poly g = gcdP(r.n, r.d); if (!isConstP(g)) { Poly a, b; if (exactDiv(r.n, g, a) && exactDiv(r.d, g, b)) { r.n = a; r.d = b; } } } } catch (RatTooBig &) {}
  }
  mpq_class c = r.d.begin()->second; if (c != 1) { for (auto &t : r.n) t.second /= c; for (auto &t : r.d) t.second /= c; } }
static RatN mulR(const RatN &a, const RatN &b) { RatN r; r.div = a.div || b.div; r.n = mulP(a.n, b.n); r.d = mulP(a.d, b.d); return r; }
static RatN addR(const RatN &a, const RatN &b, int s) { RatN r; r.div = a.div || b.div; if (a.d == b.d) { r.n = addP(a.n, b.n, s); r.d = a.d; return r; } Poly q; if (exactDiv(a.d, b.d, q)) { r.n = addP(a.n, mulP(b.n, q), s); r.d = a.d; return r; } if (exactDiv(b.d, a.d, q)) { r.n = addP(mulP(a.n, q), b.n, s); r.d = b.d; return r; } Poly g; if (a.d.size() * b.d.size() <= 2000) try { gcdFuel = 60; g = gcdP(a.d, b.d); } catch (RatTooBig &) { g.clear(); }
  if (!isConstP(g)) { Poly qa, qb; if (exactDiv(a.d, g, qa) && exactDiv(b.d, g, qb)) { r.n = addP(mulP(a.n, qb), mulP(b.n, qa), s); r.d = mulP(a.d, qb); return r; } }
  r.n = addP(mulP(a.n, b.d), mulP(b.n, a.d), s); r.d = mulP(a.d, b.d); return r; }
// replace v^k (k >= 2) of root variables by their radicands
static RatN rootsR(const RatN &a) {
  if (sqrtDef.empty()) return a;
  for (int part = 0; part < 2; part++) for (auto &t : part ? a.d : a.n) for (auto &q : t.first) if (q.second >= 2 && sqrtDef.count(q.first)) {
    auto sub = [&](const Poly &p) { RatN r; r.div = true; r.d = constP(1); for (auto &u : p) { RatN m; m.d = constP(1); m.n = constP(u.second); for (auto &z : u.first) { auto f = sqrtDef.find(z.first); unsigned k = f == sqrtDef.end() ? 0 : z.second / 2, rest = z.second - 2 * k; if (rest) { RatN v; v.n[Mono{{z.first, rest}}] = 1; v.d = constP(1); m = mulR(m, v); } for (unsigned i = 0; i < k; i++) m = mulR(m, *f->second); } r = addR(r, m, 1); } r.div = true; reduceRat(r); return r; };
    RatN n = sub(a.n), d = sub(a.d); RatN r; r.div = true; r.n = mulP(n.n, d.d); r.d = mulP(n.d, d.n); if (r.d.empty()) throw RatTooBig(); reduceRat(r); return rootsR(r); }
  // a root that divides the denominator is moved to the numerator
  if (!a.d.empty()) for (auto &q : a.d.begin()->first) if (sqrtDef.count(q.first)) { bool all = true; for (auto &t : a.d) { bool h = false; for (auto &z : t.first) h |= z.first == q.first; all &= h; } if (all) { Poly v; v[Mono{{q.first, 1}}] = 1; RatN r = a; r.div = true; r.n = mulP(r.n, v); r.d = mulP(r.d, v); return rootsR(r); } }
  return a; }
static z3::expr normR(const z3::expr &e); static z3::expr normC(const z3::expr &e);
static mpq_class numQ(const z3::expr &e) { return mpq_class(std::string(Z3_get_numeral_string(*C, e))); }
static RatP toRat(const z3::expr &e) {   // throws RatTooBig
  unsigned id = Z3_get_ast_id(*C, e); auto it = ratMemo.find(id); if (it != ratMemo.end()) { if (!it->second) throw RatTooBig(); return it->second; }
  keepAlive.push_back(Ex(e)); ratMemo[id] = nullptr;
  auto r = std::make_shared<RatN>(); r->d = constP(1);
  auto k = e.is_app() ? e.decl().decl_kind() : Z3_OP_UNINTERPRETED;
  if (e.is_numeral()) { mpq_class q = numQ(e); q.canonicalize(); r->n = constP(q); }
  else if (k == Z3_OP_ADD || k == Z3_OP_SUB) { for (unsigned i = 0; i < e.num_args(); i++) { RatP t = toRat(e.arg(i)); if (i == 0) *r = *t; else *r = addR(*r, *t, k == Z3_OP_ADD ? 1 : -1); } if (r->div) { reduceRat(*r); *r = rootsR(*r); } }
  else if (k == Z3_OP_MUL) { for (unsigned i = 0; i < e.num_args(); i++) { RatP t = toRat(e.arg(i)); if (i == 0) *r = *t; else *r = mulR(*r, *t); } *r = rootsR(*r); if (r->div) reduceRat(*r); }
  else if (k == Z3_OP_UMINUS) { *r = *toRat(e.arg(0)); for (auto &t : r->n) t.second = -t.second; }
  else if (k == Z3_OP_POWER && e.arg(1).is_numeral()) { int64_t n = -1; if (!e.arg(1).is_numeral_i64(n) || n < 0 || n > 20) throw RatTooBig(); RatP t = toRat(e.arg(0)); r->n = constP(1); for (int i = 0; i < n; i++) *r = mulR(*r, *t); *r = rootsR(*r); if (r->div) reduceRat(*r); }
  else if (k == Z3_OP_DIV) { RatP a = toRat(e.arg(0)), b = toRat(e.arg(1)); if (b->n.empty()) throw RatTooBig(); RatN inv; inv.n = b->d; inv.d = b->n; addFactor(b->n); *r = mulR(*a, inv); r->div = true; reduceRat(*r); *r = rootsR(*r); if (isConstP(b->n) && !a->div && !b->div) r->div = false; }
  else { z3::expr at = e; bool dv = false;
    if (k == Z3_OP_ITE) { at = z3::ite(normC(e.arg(0)), normR(e.arg(1)), normR(e.arg(2))); dv = !z3::eq(at, e); }
    unsigned ai = Z3_get_ast_id(*C, at); auto f = ratAtomOf.find(ai); unsigned x; if (f != ratAtomOf.end()) x = f->second; else { x = ratAtoms.size(); ratAtoms.push_back(Ex(at)); ratAtomOf[ai] = x; }
    r->n[Mono{{x, 1}}] = 1; r->div = dv; }
  ratMemo[id] = r; return r; }
static z3::expr fromP(const Poly &p) {
  if (p.empty()) return C->real_val(0);
  z3::expr_vector s(*C);
  for (auto &t : p) { z3::expr_vector f(*C); if (t.second != 1 || t.first.empty()) f.push_back(C->real_val(t.second.get_str().c_str())); for (auto &q : t.first) for (unsigned i = 0; i < q.second; i++) f.push_back(ratAtoms[q.first].e()); 
    if (f.size() == 1) s.push_back(f[0]); else { std::vector<Z3_ast> v; for (unsigned i = 0; i < f.size(); i++) v.push_back(f[i]); s.push_back(z3::expr(*C, Z3_mk_mul(*C, v.size(), v.data()))); } }
  if (s.size() == 1) return s[0];
  std::vector<Z3_ast> v; for (unsigned i = 0; i < s.size(); i++) v.push_back(s[i]); return z3::expr(*C, Z3_mk_add(*C, v.size(), v.data())); }
static RatP tryRat(const z3::expr &e) { if (!optRat) return nullptr; try { return toRat(e); } catch (RatTooBig &) { return nullptr; } }
static bool hasDiv(const z3::expr &e) { RatP r = tryRat(e); return r && r->div; }
static std::unordered_map<unsigned, Ex> normMemo;
static void ratCheck(const z3::expr &a, const z3::expr &b) {
  static const bool on = getenv("SX_RATCHECK") != nullptr; if (!on || z3::eq(a, b)) return;
  std::set<unsigned> vs; for (unsigned v : varsOf(a)) vs.insert(v); for (unsigned v : varsOf(b)) vs.insert(v);
  for (int t = 0; t < 3; t++) { z3::expr_vector f(*C), to(*C); for (unsigned v : vs) { if (v & 0x80000000u) return; z3::expr x = varById[v].e(); if (!x.is_real() || x.to_string().rfind("sqrt_", 0) == 0) return; f.push_back(x); to.push_back(C->real_val(rand() % 41 - 20, 1 + rand() % 7)); }
    z3::expr x = z3::expr(a).substitute(f, to).simplify(), y = z3::expr(b).substitute(f, to).simplify(); if (!z3::eq(x, y)) { std::cerr << "RATCHECK\n" << a << "\n==>\n" << b << "\nat " << to << ": " << x << " vs " << y << "\n"; return; } } }
// canonical form of a term that contains a division; other terms are returned as they are
static z3::expr normR(const z3::expr &e) {
  unsigned id = Z3_get_ast_id(*C, e); auto it = normMemo.find(id); if (it != normMemo.end()) return it->second.e();
  RatP r = tryRat(e); z3::expr out = e;
  if (r && r->div && r->n.size() + r->d.size() <= 400) { out = fromP(r->n); if (!isConstP(r->d)) out = out / fromP(r->d);
    unsigned oi = Z3_get_ast_id(*C, out); keepAlive.push_back(Ex(out)); normMemo[oi] = Ex(out); if (!ratMemo.count(oi)) ratMemo[oi] = r; }
  ratCheck(e, out); keepAlive.push_back(Ex(e)); normMemo[id] = Ex(out); return out; }
// a condition, with every comparison of terms that contain divisions cleared of denominators
static z3::expr normC(const z3::expr &e) {
  if (!optRat || !e.is_app()) return e;
  unsigned id = Z3_get_ast_id(*C, e); auto it = normMemo.find(id); if (it != normMemo.end()) return it->second.e();
  z3::expr out = e; auto k = e.decl().decl_kind();
  if (k == Z3_OP_AND || k == Z3_OP_OR || k == Z3_OP_NOT || k == Z3_OP_IMPLIES || (k == Z3_OP_EQ && e.arg(0).is_bool()) || k == Z3_OP_XOR || (k == Z3_OP_ITE && e.is_bool())) {
    bool ch = false; z3::expr_vector a(*C); for (unsigned i = 0; i < e.num_args(); i++) { z3::expr x = normC(e.arg(i)); ch |= !z3::eq(x, e.arg(i)); a.push_back(x); }
    if (ch) out = e.decl()(a).simplify();
  } else if ((k == Z3_OP_EQ || k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT) && e.arg(0).is_real()) {
    RatP a = tryRat(e.arg(0)), b = tryRat(e.arg(1));
    if (a && b && (a->div || b->div)) try {
      RatN d = addR(*a, *b, -1); reduceRat(d); d = rootsR(d);
      z3::expr z = C->real_val(0), x(*C);
      if (k == Z3_OP_EQ) { out = fromP(d.n) == z; }
      else { x = fromP(d.n); if (!isConstP(d.d)) x = x * fromP(d.d); out = k == Z3_OP_LE ? x <= z : k == Z3_OP_LT ? x < z : k == Z3_OP_GE ? x >= z : x > z; }
      out = out.simplify();
    } catch (RatTooBig &) { out = e; }
  }
  ratCheck(e, out); keepAlive.push_back(Ex(e)); keepAlive.push_back(Ex(out)); normMemo[id] = Ex(out); return out; }
