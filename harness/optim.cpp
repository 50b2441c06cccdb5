// O01-O03: optimizers and numerical derivatives on arbitrary objective functions
#include "common.h"
#include "functionx.h"
#include "lbfgsb.h"
#include "optimization.h"
#include <functional>
#include <memory>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<double> V;
static V vec(const Mx &m) { return V(m.Data, m.Data + m.length()); }
// an arbitrary function: every new argument gets an unconstrained value, an argument seen before its value
struct Fn {
  std::vector<V> args; V vals; int bad = -1, limit = 1000, calls = 0, nan = -1;   // bad: the point at which the objective fails
  int find(const V &x) const { for (size_t k = 0; k < args.size(); k++) { bool s = true; for (size_t i = 0; i < x.size(); i++) s = s && sx_ident(args[k][i], x[i]); if (s) return k; } return -1; }
  double at(const V &x) { int k = find(x); if (k < 0) { k = args.size(); args.push_back(x); vals.push_back(k == nan ? (double)NAN : sx_real("f")); } if (k == bad) throw std::runtime_error("objective"); return vals[k]; }
  double operator()(const Mx &m) { calls++; sx_assume(calls <= limit); return at(vec(m)); }
};
static double pen(const V &x, const double *lo, const double *up) { double p = 0; for (size_t i = 0; i < x.size(); i++) { if (lo && x[i] < lo[i]) p += (lo[i] - x[i]) * (lo[i] - x[i]); else if (up && x[i] > up[i]) p += (x[i] - up[i]) * (x[i] - up[i]); } return p; }
// ---- O01 Nelder-Mead
static void nm(int n, int K, bool lo, bool up, bool bad) {
  NelderMead m(n); m.MaxIteration = K; m.Tolerance = 0; std::unique_ptr<double[]> w(new double[m.WorkSize]), st(new double[m.StorageSize]), x(new double[n]), l(new double[n]), u(new double[n]);
  V s0; for (int i = 0; i < n; i++) { x[i] = sx_real("x"); s0.push_back(x[i]); if (lo) l[i] = sx_real("lo"); if (up) u[i] = sx_real("up"); if (lo && up) sx_assume(l[i] <= u[i]); }
  Mx X(x.get(), n, 1), L(l.get(), n, 1), U(u.get(), n, 1); Fn f; double mult = lo || up ? 10 : 0; if (bad) f.bad = sx_choose("bad", 0, n + 2);
  m.Minimize(std::ref(f), X, w.get(), st.get(), lo ? &L : nullptr, up ? &U : nullptr);
  V r = vec(m.Result); int k = f.find(r); sx_assert(k >= 0 && k != f.bad, "the solution is a point where the objective was evaluated"); if (k < 0) return;
  V start; for (int i = 0; i < n; i++) start.push_back(lo && s0[i] < l[i] ? l[i] : up && s0[i] > u[i] ? u[i] : s0[i]);
  if (!bad) { int j = f.find(start); sx_assert(j == 0, "the search starts at the given point, moved into the bounds"); for (int i = 0; i < n; i++) { V e = start; e[i] += 1.0; sx_assert(f.find(e) == i + 1, "the first simplex has a unit edge along each axis"); } }
  double best = f.vals[k] + mult * pen(r, l.get() && lo ? l.get() : nullptr, up ? u.get() : nullptr); sx_assert(sx_eq(m.Min, best), "the minimum is the penalised objective at the solution");
  for (size_t q = 0; q < f.args.size(); q++) if ((int)q != f.bad) sx_assert(best <= f.vals[q] + mult * pen(f.args[q], lo ? l.get() : nullptr, up ? u.get() : nullptr), "no evaluated point is better than the solution");
  sx_assert(m.Iter == K, "the search runs until the iteration limit");
}
SX_ENTRY(nm_free1) { nm(1, sx_choose("it", 0, 4), false, false, false); }
SX_ENTRY(nm_free2) { nm(2, sx_choose("it", 0, 2), false, false, false); }
SX_ENTRY(nm_lower) { nm(1, sx_choose("it", 0, 2), true, false, false); }
SX_ENTRY(nm_upper) { nm(1, sx_choose("it", 0, 2), false, true, false); }
SX_ENTRY(nm_both) { nm(1, sx_choose("it", 0, 2), true, true, false); }
SX_ENTRY(nm_throw) { nm(1, sx_choose("it", 0, 3), false, false, true); }
SX_ENTRY(nm_throw2) { nm(2, sx_choose("it", 0, 1), false, false, true); }
// the points of one iteration follow the rule of Nelder and Mead
static void nmstep(int n) {
  NelderMead m(n); m.MaxIteration = 1; m.Tolerance = 0; m.ParamReflection = sx_pos("refl"); m.ParamExpansion = sx_pos("exp"); m.ParamContraction = sx_pos("con"); m.ParamShrink = sx_pos("shrink"); std::unique_ptr<double[]> w(new double[m.WorkSize]), st(new double[m.StorageSize]), x(new double[n]);
  for (int i = 0; i < n; i++) x[i] = sx_real("x"); Mx X(x.get(), n, 1); Fn f; m.Minimize(std::ref(f), X, w.get(), st.get());
  std::vector<V> s(f.args.begin(), f.args.begin() + n + 1); V v(f.vals.begin(), f.vals.begin() + n + 1); int wi = 0, bi = 0; for (int i = 1; i <= n; i++) { if (v[i] > v[wi]) wi = i; if (v[i] < v[bi]) bi = i; }
  V c(n), r(n), e(n), o(n); for (int j = 0; j < n; j++) { c[j] = 0; for (int i = 0; i <= n; i++) if (i != wi) c[j] += s[i][j]; c[j] /= n; r[j] = c[j] + m.ParamReflection * (c[j] - s[wi][j]); e[j] = c[j] + m.ParamExpansion * (r[j] - c[j]); o[j] = c[j] + m.ParamContraction * (s[wi][j] - c[j]); }
  size_t k = n + 1; auto seen = [&](const V &p) { bool q = k < f.args.size(); for (int j = 0; q && j < n; j++) q = q && sx_eq(f.args[k][j], p[j]); k++; return q; };
  sx_assert(seen(r), "the worst point is reflected through the centroid of the others"); double fr = f.vals[n + 1]; bool mid = false; for (int i = 0; i <= n; i++) if (i != wi && fr < v[i]) mid = true;
  double fb = v[bi];
  if (fr < v[bi]) { sx_assert(seen(e), "a new best point is expanded"); double fe = f.vals[n + 2]; fb = fe < fr ? fe : fr; }
  else if (!mid) { sx_assert(seen(o), "a rejected reflection is contracted"); double fc = f.vals[n + 2]; if (fc < v[wi]) { if (fc < fb) fb = fc; }
    else for (int i = 0; i <= n; i++) if (i != bi) { V p(n); for (int j = 0; j < n; j++) p[j] = s[bi][j] + m.ParamShrink * (s[i][j] - s[bi][j]); sx_assert(seen(p), "the simplex shrinks towards the best point"); if (f.vals[k - 1] < fb) fb = f.vals[k - 1]; } }
  sx_assert(f.args.size() == k, "nothing else is evaluated"); sx_assert(sx_eq(m.Min, fb), "the solution is the best vertex");
}
SX_ENTRY(nm_rule1) { nmstep(1); } SX_ENTRY(nm_rule2) { nmstep(2); }
SX_ENTRY(nm_stop) {
  NelderMead m(1); m.MaxIteration = 2; m.Tolerance = sx_pos("tol"); double w[16], st[1], x[1]; x[0] = sx_real("x"); Mx X(x, 1, 1); Fn f; std::unique_ptr<double[]> wk(new double[m.WorkSize]); m.Minimize(std::ref(f), X, wk.get(), st);
  double d = f.vals[0] - f.vals[1]; if (d < 0) d = -d; if (d < m.Tolerance) { sx_assert(m.Iter == 0 && f.args.size() == 2, "the search stops when the simplex values are within the tolerance"); sx_assert(sx_eq(m.Diff, d), "difference of the best and the worst vertex"); } else sx_assert(m.Iter > 0 && f.args.size() > 2, "the search goes on outside the tolerance"); if (m.Iter < 2) sx_assert(m.Diff < m.Tolerance, "an early stop means convergence");
}
SX_ENTRY(nm_bad) {
  NelderMead m(2); double st[2], x[2], l[2], u[2]; std::unique_ptr<double[]> wk(new double[m.WorkSize]); for (int i = 0; i < 2; i++) { x[i] = sx_real("x"); l[i] = sx_real("lo"); u[i] = sx_real("up"); } int nan = sx_choose("nan", 0, 2); if (nan < 2) x[nan] = NAN; else sx_assume(l[0] > u[0] || l[1] > u[1]); Mx X(x, 2, 1), L(l, 2, 1), U(u, 2, 1); Fn f;
  sx_assert(throws([&] { m.Minimize(std::ref(f), X, wk.get(), st, &L, &U); }), "missing starting values and crossed bounds are rejected"); sx_assert(f.calls == 0, "nothing is evaluated for invalid arguments");
}
// ---- O01 one-dimensional search
static void nm1(bool lo, bool up, int K) {
  double x0 = sx_real("x0"), step = sx_pos("step"), l = NAN, u = NAN; if (lo) l = sx_real("lo"); if (up) u = sx_real("up"); if (lo && up) sx_assume(l <= u); Fn f; std::vector<double> ev; auto g = [&](const double &x) { ev.push_back(x); return f.at(V{x}); };
  auto res = NelderMead::Minimize1(g, x0, step, K, 0, l, u); double r = std::get<0>(res); sx_assert(std::get<1>(res) == K, "iterations");
  if (lo) sx_assert(r >= l, "the solution respects the lower bound"); if (up) sx_assert(r <= u, "the solution respects the upper bound");
  double s = lo && x0 < l ? l : up && x0 > u ? u : x0; double fs = 0; bool have = false; for (size_t q = 0; q < f.args.size() && !have; q++) if (f.args[q][0] == s) { have = true; fs = f.vals[q]; } sx_assert(have, "the search starts at the given point, moved into the bounds"); int k = f.find(V{r}); sx_assert(k >= 0, "the solution was evaluated"); sx_assert(f.vals[k] <= fs, "the solution is not worse than the start");
  for (size_t q = 0; q < f.args.size(); q++) { double a = f.args[q][0]; if ((lo && a < l) || (up && a > u)) continue; sx_assert(f.vals[k] <= f.vals[q], "no evaluated point inside the bounds is better"); }
}
SX_ENTRY(nm1_free) { nm1(false, false, sx_choose("it", 1, 3)); } SX_ENTRY(nm1_lower) { nm1(true, false, sx_choose("it", 1, 2)); } SX_ENTRY(nm1_upper) { nm1(false, true, sx_choose("it", 1, 2)); } SX_ENTRY(nm1_both) { nm1(true, true, sx_choose("it", 1, 2)); }
SX_ENTRY(nm1_stop) { double x0 = sx_real("x0"), step = sx_pos("step"), tol = sx_pos("tol"); Fn f; auto g = [&](const double &x) { return f.at(V{x}); }; auto res = NelderMead::Minimize1(g, x0, step, 3, tol); int it = std::get<1>(res); if (it < 3) sx_assert(step < tol * 8, "an early stop means a step below the tolerance"); if (step >= tol) sx_assert(it > 1, "the search does not stop with a step above the tolerance"); }
// ---- O02 Newton
struct NewtonFns { int n, nan = -1; Fn f; std::vector<V> ga, gv, ha, hv; bool sym; NewtonFns(int n_) : n(n_) {}
  static int find(const std::vector<V> &a, const V &x) { for (size_t k = 0; k < a.size(); k++) { bool s = true; for (size_t i = 0; i < x.size(); i++) s = s && sx_ident(a[k][i], x[i]); if (s) return k; } return -1; }
  void G(const Mx &x, Mx &g) { V a = vec(x); int k = find(ga, a); if (k < 0) { k = ga.size(); ga.push_back(a); V v; for (int i = 0; i < n; i++) v.push_back(k == nan ? (double)NAN : sx_real("g")); gv.push_back(v); } for (int i = 0; i < n; i++) g.Data[i] = gv[k][i]; }
  void H(const Mx &x, Mx &h) { V a = vec(x); int k = find(ha, a); if (k < 0) { k = ha.size(); ha.push_back(a); V v(n * n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) v[i + n * j] = v[j + n * i] = sx_real("h"); hv.push_back(v); } for (int i = 0; i < n * n; i++) h.Data[i] = hv[k][i]; } };
static void newton(int n, int K, bool line, int evals, bool two, int fnan = -1, int gnan = -1) {
  Newton m(n); m.IterationMax = K; m.TolFunction = 0; m.TolGradient = 0; m.UseLineSearch = line; NewtonFns F(n); F.f.limit = evals; F.f.nan = fnan; F.nan = gnan; std::unique_ptr<double[]> st(new double[m.StorageSize]), w(new double[m.WorkSize]), x(new double[n]), sg(new double[n]), sh(new double[n * n]); V x0; for (int i = 0; i < n; i++) { x[i] = sx_real("x"); x0.push_back(x[i]); } Mx X(x.get(), n, 1);
  auto g = [&](const Mx &a, Mx &b) { F.G(a, b); }; auto h = [&](const Mx &a, Mx &b) { F.H(a, b); }; bool th = throws([&] { if (two) m.Minimize2(std::ref(F.f), g, h, X, sg.get(), sh.get(), w.get()); else m.Minimize(std::ref(F.f), g, h, X, st.get(), w.get()); });
  // Hessians that are not positive definite are reported
  auto pd = [&](const V &q) { bool p = q[0] > 0; if (n > 1) p = p && q[0] * q[3] - q[1] * q[1] > 0; return p; }; if (th) { sx_assert(F.hv.size() > 0 && !pd(F.hv.back()), "the search fails only for a Hessian that is not positive definite"); return; } for (auto &q : F.hv) sx_assert(pd(q), "the direction is found for positive definite Hessians only");
  sx_assert(m.Iteration == K, "iterations"); V r = vec(X); int k = F.f.find(r); sx_assert(k >= 0, "the function is known at the solution"); sx_assert(sx_eq(m.FunctionValue, F.f.vals[k]), "the reported value is that of the solution"); int gk = NewtonFns::find(F.ga, r); sx_assert(gk >= 0, "the gradient is known at the solution"); if (gk >= 0) for (int i = 0; i < n; i++) sx_assert(sx_eq(m.Gradient.Data[i], F.gv[gk][i]), "the reported gradient is that of the solution");
  sx_assert(F.hv.size() == (size_t)K && (K == 0 || NewtonFns::find(F.ha, x0) == 0), "one Hessian per step, the first at the start");
  std::vector<V> pts = F.ha; pts.push_back(r); double prev = F.f.at(x0);
  for (int s = 0; s < K; s++) { int q = NewtonFns::find(F.ga, pts[s]); sx_assert(q >= 0, "the gradient is taken at the current point"); if (q < 0) return; V d(n), hd(n, 0); for (int i = 0; i < n; i++) d[i] = pts[s + 1][i] - pts[s][i]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) hd[i] += F.hv[s][i + n * j] * d[j];
    if (!line) { for (int i = 0; i < n; i++) sx_assert(sx_eq(hd[i], -F.gv[q][i]), "the step solves the Newton equations at the current point"); continue; }
    double gd = 0; for (int i = 0; i < n; i++) gd += F.gv[q][i] * d[i]; int e = F.f.find(pts[s + 1]); sx_assert(e >= 0, "the new point is evaluated"); if (n == 2) sx_assert(sx_eq(hd[0] * F.gv[q][1], hd[1] * F.gv[q][0]), "the step is along the Newton direction"); double cur = F.f.vals[e]; sx_assert(cur <= prev + 1e-4 * gd, "the step decreases the function sufficiently"); sx_assert(gd <= 0, "the step is downhill"); int qn = NewtonFns::find(F.ga, pts[s + 1]); double gdn = 0; if (qn >= 0) { for (int i = 0; i < n; i++) gdn += F.gv[qn][i] * d[i]; sx_assert(gdn >= 0.9 * gd, "the step satisfies the curvature condition"); } prev = cur; }
}
SX_ENTRY(nw_full1) { newton(1, sx_choose("it", 0, 3), false, 99, sx_choose("two", 0, 1)); } SX_ENTRY(nw_full2) { newton(2, sx_choose("it", 1, 2), false, 99, false); }
SX_ENTRY(nw_line1) { newton(1, 1, true, 5, sx_choose("two", 0, 1)); } SX_ENTRY(nw_line12) { newton(1, 2, true, 4, false); } SX_ENTRY(nw_line2) { newton(2, 1, true, 3, false); }
SX_ENTRY(nw_nan) { newton(1, 1, true, 4, false, sx_choose("value", 1, 2)); } SX_ENTRY(nw_nang) { newton(1, 1, true, 4, false, -1, sx_choose("gradient", 1, 2)); }
SX_ENTRY(nw_quad) { // one full step minimizes a quadratic function, and the search then stops
  double a = sx_pos("a"), b = sx_real("b"), c = sx_pos("c"), p = sx_real("p"), q = sx_real("q"); a += b * b / c; bool line = sx_choose("line", 0, 1); Newton m(2); m.TolFunction = 0; m.TolGradient = 1e-9; m.UseLineSearch = line; std::unique_ptr<double[]> st(new double[m.StorageSize]), w(new double[m.WorkSize]); double x[2] = {sx_real("x"), sx_real("y")}; Mx X(x, 2, 1);
  auto f = [&](const Mx &v) { double s = v.Data[0] - p, t = v.Data[1] - q; return (a * s * s + 2 * b * s * t + c * t * t) / 2; }; auto g = [&](const Mx &v, Mx &r) { double s = v.Data[0] - p, t = v.Data[1] - q; r.Data[0] = a * s + b * t; r.Data[1] = b * s + c * t; }; auto h = [&](const Mx &, Mx &r) { r.Data[0] = a; r.Data[1] = r.Data[2] = b; r.Data[3] = c; };
  double g0 = a * (x[0] - p) + b * (x[1] - q), g1 = b * (x[0] - p) + c * (x[1] - q); sx_assume(g0 > 1 || g1 > 1); m.Minimize(f, g, h, X, st.get(), w.get()); sx_assert(m.Iteration == 1, "a quadratic function needs one step"); sx_assert(sx_eq(x[0], p) && sx_eq(x[1], q), "the minimum of a quadratic function"); sx_assert(sx_eq(m.FunctionValue, 0), "value at the minimum"); sx_assert(sx_eq(m.gnorm, 0), "the gradient vanishes at the minimum");
}
SX_ENTRY(nw_stop) { // stopping rules
  Newton m(1); int rule = sx_choose("rule", 0, 1); double tol = sx_pos("tol"); m.TolGradient = rule == 0 ? tol : 0; m.TolFunction = rule == 1 ? tol : 0; m.IterationMax = 2; m.UseLineSearch = false; NewtonFns F(1); double st[2], w[3], x[1] = {sx_real("x")}; double s = x[0]; Mx X(x, 1, 1); auto g = [&](const Mx &a, Mx &b) { F.G(a, b); }; auto h = [&](const Mx &a, Mx &b) { F.H(a, b); }; if (throws([&] { m.Minimize(std::ref(F.f), g, h, X, st, w); })) return;
  auto ab = [](double v) { return v < 0 ? -v : v; };
  if (rule == 0) { for (int k = 0; k < m.Iteration; k++) sx_assert(ab(F.gv[k][0]) >= tol, "the search goes on while the gradient is not small"); if (m.Iteration < 2) { sx_assert(ab(m.Gradient.Data[0]) < tol, "an early stop means a small gradient"); sx_assert(sx_eq(m.gnorm, ab(m.Gradient.Data[0])), "norm of the gradient"); } if (m.Iteration == 0) sx_assert(sx_eq(x[0], s), "a stationary start is returned unchanged"); }
  else if (m.Iteration < 2) { int q = F.f.args.size(); sx_assert(q >= 2 && ab(F.f.vals[q - 1] - F.f.vals[q - 2]) < tol && sx_eq(m.vf_diff, ab(F.f.vals[q - 1] - F.f.vals[q - 2])), "an early stop means a small change of the function"); } 
}
SX_ENTRY(nw_size) { Newton m(1); double st[6], w[6], x[2] = {0, 0}; Mx X(x, 2, 1); auto f = [](const Mx &) { return 0.0; }; auto g = [](const Mx &, Mx &) {}; bool two = sx_choose("two", 0, 1); sx_assert(throws([&] { if (two) m.Minimize2(f, g, g, X, st, st, w); else m.Minimize(f, g, g, X, st, w); }), "more variables than declared are rejected"); }
// ---- O03 limited memory BFGS: the numerical routine may write all of its work space and returns any task and any point
static struct Lb { int n, m, calls = 0, evals = 0; double factr, pg; double *lo, *up; bool done = false; V x, g; double f; bool wait = false; int last; } B;
extern "C" int setulb(Ti *n, Ti *m, double *x, double *l, double *u, Ti *nbd, double *f, double *g, double *factr, double *pgtol, double *wa, Ti *iwa, Ti *task, Ti *iprint, Ti *csave, logical *lsave, Ti *isave, double *dsave) {
  sx_assert(!B.done, "the routine is not called again after it has finished"); sx_assert(*n == B.n && *m == B.m && sx_eq(*factr, B.factr) && sx_eq(*pgtol, B.pg), "sizes and tolerances are passed on");
  int len = (2 * *m + 5) * *n + 11 * *m * *m + 8 * *m; for (int i = 0; i < len; i += len - 1 > 0 ? len - 1 : 1) wa[i] = 1; for (int i = 0; i < 3 * *n; i++) iwa[i] = 1; for (int i = 0; i < 44; i++) isave[i] = 1; for (int i = 0; i < 29; i++) dsave[i] = 1; for (int i = 0; i < 4; i++) lsave[i] = 1;
  for (int i = 0; i < *n; i++) { bool hl = B.lo && std::isfinite(B.lo[i]), hu = B.up && std::isfinite(B.up[i]); sx_assert(nbd[i] == (hl ? (hu ? 2 : 1) : hu ? 3 : 0), "kind of the bound"); if (hl) sx_assert(sx_eq(l[i], B.lo[i]), "lower bound"); if (hu) sx_assert(sx_eq(u[i], B.up[i]), "upper bound"); }
  if (B.calls++ == 0) sx_assert(*task == 1, "the first call starts the search"); else { sx_assert(*task == B.last, "the task is kept between the calls"); for (int i = 0; i < *n; i++) sx_assert(sx_eq(x[i], B.x[i]), "the point is kept between the calls"); if (B.wait) { sx_assert(sx_eq(*f, B.f), "value of the function at the point"); for (int i = 0; i < *n; i++) sx_assert(sx_eq(g[i], B.g[i]), "gradient at the point"); } }
  int t = sx_choose("task", 0, 4); static const int T[] = {10, 12, 2, 21, 3}; *task = B.last = T[t]; B.wait = t < 2; B.done = t > 2; if (t < 2) for (int i = 0; i < *n; i++) x[i] = sx_real("point"); B.x.assign(x, x + *n); return 0; }
SX_ENTRY(lb_drive) {
  int n = sx_choose("n", 1, 2), mc = sx_choose("m", 1, 3), dn = sx_choose("extra", 0, 1), lim = sx_choose("limit", 0, 3), lo = sx_choose("lo", 0, 2), up = sx_choose("up", 0, 2), api = sx_choose("api", 0, 1); LimitedMemoryBFGSB o(n + dn, mc); o.Options.IterationMax = lim; o.Options.Factor = sx_pos("factr"); o.Options.ProjectedGradientTol = sx_pos("pg"); B.n = n; B.m = mc; B.factr = o.Options.Factor; B.pg = o.Options.ProjectedGradientTol;
  std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]), x(new double[n]), l(new double[n]), u(new double[n]); std::unique_ptr<int[]> wi(new int[o.WorkSizeI]); for (int i = 0; i < n; i++) { x[i] = sx_real("x"); l[i] = lo == 2 && i == 0 ? -INFINITY : sx_real("lo"); u[i] = up == 2 && i == n - 1 ? INFINITY : sx_real("up"); } V x0(x.get(), x.get() + n); B.lo = lo ? l.get() : nullptr; B.up = up ? u.get() : nullptr; Mx X(x.get(), n, 1), L(l.get(), n, 1), U(u.get(), n, 1);
  int fe = 0, ge = 0; auto f = [&](const Mx &v) { fe++; for (int i = 0; i < n; i++) sx_assert(sx_eq(v.Data[i], B.x[i]), "the function is evaluated at the requested point"); return B.f = sx_real("f"); }; auto g = [&](const Mx &v, Mx &r) { ge++; sx_assert(r.length() == n, "size of the gradient"); B.g.clear(); for (int i = 0; i < n; i++) { sx_assert(sx_eq(v.Data[i], B.x[i]), "the gradient is evaluated at the requested point"); B.g.push_back(r.Data[i] = sx_real("g")); } };
  if (api) o.Minimize0(f, g, X, st.get(), w.get(), wi.get(), lo ? &L : nullptr, up ? &U : nullptr); else o.Minimize(f, g, X, st.get(), w.get(), lo ? &L : nullptr, up ? &U : nullptr);
  sx_assert(B.calls <= lim && o.Iteration == B.calls, "number of calls"); sx_assert(B.done || B.calls == lim, "the search ends when the routine says so or at the limit"); if (lim) sx_assert(o.Task == B.last, "reason of the end"); sx_assert(o.Xstar == &X && fe == ge, "the solution is in the starting vector"); if (B.calls) for (int i = 0; i < n; i++) sx_assert(sx_eq(x[i], B.x[i]), "solution"); else for (int i = 0; i < n; i++) sx_assert(sx_eq(x[i], x0[i]), "no call, no change"); if (fe) sx_assert(sx_eq(o.FunctionValue, B.f), "value at the solution"); if (ge) for (int i = 0; i < n; i++) sx_assert(sx_eq(o.GradientVector.Data[i], B.g[i]), "gradient at the solution");
}
SX_ENTRY(lb_bad) { LimitedMemoryBFGSB o(1, 2); double x[2] = {0, 0}, st[2], w[400]; Mx X(x, 2, 1); auto f = [](const Mx &) { return 0.0; }; auto g = [](const Mx &, Mx &) {}; sx_assert(throws([&] { o.Minimize(f, g, X, st, w); }), "more variables than declared are rejected"); }
