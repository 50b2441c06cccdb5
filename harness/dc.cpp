// B01-B04: discrete choice models.  Newton's method (property O02) is environment: it evaluates the likelihood, the
// score and the Hessian anywhere, in any order, and ends at any point.
#include "common.h"
#include "discrete_choice.h"
#include <functional>
#include <memory>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<double> Vd;
typedef DiscreteChoiceModelType MT; typedef DiscreteChoiceDistType DT;
// ---- second order jets: value, gradient and Hessian
struct J { double v; Vd g, h; };
static J var(double v, int i, int k) { J r{v, Vd(k, 0.0), Vd(k * k, 0.0)}; if (i >= 0) r.g[i] = 1; return r; }
static J lift(const J &a, double f, double d1, double d2) { int k = a.g.size(); J r = var(f, -1, k); for (int i = 0; i < k; i++) { r.g[i] = d1 * a.g[i]; for (int j = 0; j < k; j++) r.h[i + k * j] = d1 * a.h[i + k * j] + d2 * a.g[i] * a.g[j]; } return r; }
static J lin(const J &a, double ca, const J &b, double cb) { J r = a; int k = a.g.size(); r.v = ca * a.v + cb * b.v; for (int i = 0; i < k; i++) r.g[i] = ca * a.g[i] + cb * b.g[i]; for (int i = 0; i < k * k; i++) r.h[i] = ca * a.h[i] + cb * b.h[i]; return r; }
static J jlog(const J &a) { return lift(a, std::log(a.v), 1 / a.v, -1 / (a.v * a.v)); }
static double cdf(DT d, double t) { return d == DT::kLogit ? 1 / (1 + std::exp(-t)) : dist_normal_cdf(t, 0, 1); }
static J jcdf(DT d, const J &a) { double F = cdf(d, a.v); if (d == DT::kLogit) return lift(a, F, F * (1 - F), F * (1 - F) * (1 - 2 * F)); double f = dist_normal_pdf(a.v, 0, 1); return lift(a, F, f, -a.v * f); }
// ---- environment
struct Data { int n, k0, M; bool w; std::vector<int> y; Vd x, ws; double X(int i, int j) const { return x[i + n * j]; } };
static struct Env { int calls = 0, ends = 1; int order = 0; bool asym = false; Vd x0, xf; double vf = 0; std::function<void(const Vd &, double, const Vd *, const Vd *)> check; std::function<void(const Vd &)> assume; } U;
Newton::Newton(Ti k) { mK = k; WorkSize = 3 * k; StorageSize = k + k * k; }
void Newton::Minimize2(const std::function<Tv(const Mx &)> &f, const std::function<void(const Mx &, Mx &)> &g, const std::function<void(const Mx &, Mx &)> &h, Mx &x0, Tv *sg, Tv *sh, Tv *work) {
  int n = x0.length(); sx_assert(n <= mK, "the optimiser has room for the parameters"); U.calls++; U.x0.assign(x0.Data, x0.Data + n); Gradient.SetData(sg, n, 1); Hessian.SetData(sh, n, n);
  for (int i = 0; i < 3 * n; i++) work[i] = 7.5 + i; Mx p(work, n, 1); int order = U.order; Vd q;
  for (int i = 0; i < n; i++) { p.Data[i] = U.asym ? 0.5 + 0.25 * i : sx_range("point", -4, 4); q.push_back(p.Data[i]); } if (U.assume) U.assume(q); double v = 0; Vd gg, hh;
  for (int s = 0; s < 3; s++) { int what = (s + order) % 3; if (what == 0) v = f(p); if (what == 1) { for (int i = 0; i < n; i++) Gradient.Data[i] = 3.5; g(p, Gradient); gg.assign(Gradient.Data, Gradient.Data + n); } if (what == 2) { for (int i = 0; i < n * n; i++) Hessian.Data[i] = 2.5; h(p, Hessian); hh.assign(Hessian.Data, Hessian.Data + n * n); } }
  for (int i = 0; i < n; i++) sx_assert(sx_eq(p.Data[i], q[i]), "the likelihood does not change its argument"); for (int i = n; i < 3 * n; i++) sx_assert(sx_eq(work[i], 7.5 + i), "the likelihood does not use the optimiser's memory"); if (U.check) U.check(q, v, &gg, &hh);
  U.xf.clear(); for (int i = 0; i < n; i++) { x0.Data[i] = U.check ? U.asym ? 0.25 + 0.5 * i : sx_real("final") : q[i]; U.xf.push_back(x0.Data[i]); } if (U.assume) U.assume(U.xf); FunctionValue = U.vf = f(x0); Iteration = 1; }
// ---- the model
static double prob(DT d, const Data &D, const Vd &b, double xb, int c) { auto mu = [&](int j) { return j == 0 ? 0.0 : b[D.k0 + j - 1]; }; if (D.M == 2) return c ? cdf(d, xb) : cdf(d, -xb); double up = c == D.M - 1 ? 1.0 : cdf(d, mu(c) - xb), lo = c == 0 ? 0.0 : cdf(d, mu(c - 1) - xb); return up - lo; }
static J loglik(DT d, const Data &D, const Vd &b) { int k = b.size(); J L = var(0, -1, k); for (int i = 0; i < D.n; i++) { J xb = var(0, -1, k); for (int j = 0; j < D.k0; j++) { xb.v += D.X(i, j) * b[j]; xb.g[j] = D.X(i, j); } auto mu = [&](int j) { return j == 0 ? var(0, -1, k) : var(b[D.k0 + j - 1], D.k0 + j - 1, k); }; J l; int c = D.y[i];
    if (D.M == 2 && d == DT::kLogit) { double e = std::exp(xb.v), p = e / (1 + e); J m = lift(xb, -std::log(1 + e), -p, -p * (1 - p)); l = c ? lin(xb, 1, m, 1) : m; }
    else if (D.M == 2) l = jlog(jcdf(d, lin(xb, c ? 1 : -1, xb, 0)));
    else { J one = var(1, -1, k), zero = var(0, -1, k), up = c == D.M - 1 ? one : jcdf(d, lin(mu(c), 1, xb, -1)), lo = c == 0 ? zero : jcdf(d, lin(mu(c - 1), 1, xb, -1)); l = jlog(lin(up, 1, lo, -1)); }
    L = lin(L, 1, l, D.w ? D.ws[i] : 1.0); } return L; }
struct S { Data D; Mx y, x, w; std::unique_ptr<double[]> yo, xo, wo; S(int n, int k0, int M, bool we, int sx, bool anyy, int sw = 9) { int shift = anyy ? 0 : sx_choose("shift", 0, M - 1); D.n = n; D.k0 = k0; D.M = M; D.w = we; yo.reset(new double[n]); xo.reset(new double[n * k0]); wo.reset(new double[n]);
    for (int i = 0; i < n; i++) { int c = anyy ? sx_choose("y", 0, M - 1) : (i + shift) % M; D.y.push_back(c); yo[i] = c; D.ws.push_back(we ? i < sw ? sx_range("w", 0.25, 8) : 0.5 + i : 1.0); wo[i] = D.ws[i]; } for (int i = 0; i < n * k0; i++) { D.x.push_back(i < sx ? sx_range("x", -4, 4) : i < n && k0 > 1 ? 1.0 : (i * 5 + 2) % 7 - 2.5); xo[i] = D.x[i]; } y.SetData(yo.get(), n, 1); x.SetData(xo.get(), n, k0); w.SetData(wo.get(), n, 1); }
  bool all() const { for (int c = 0; c < D.M; c++) { bool f = false; for (int v : D.y) f = f || v == c; if (!f) return false; } return true; }
  void same() { for (int i = 0; i < D.n; i++) sx_assert(sx_eq(yo[i], (double)D.y[i]) && sx_eq(wo[i], D.ws[i]), "data are not changed"); for (int i = 0; i < D.n * D.k0; i++) sx_assert(sx_eq(xo[i], D.x[i]), "data are not changed"); } };
struct B { std::unique_ptr<double[]> s, w; B(int ns, int nw) : s(new double[ns]), w(new double[nw ? nw : 1]) { for (int i = 0; i < ns; i++) s[i] = 0.75 - i; for (int i = 0; i < nw; i++) w[i] = 1.25 + i; } };
static void expect(const Data &D, DT d, const Vd &b, double *ll, Vd *g, Vd *h) { J L = loglik(d, D, b); *ll = L.v; *g = L.g; *h = L.h; }
static void within(const Data &D, DT d, const Vd &b) { if (D.M > 2) { for (int j = 1; j < D.M - 1; j++) sx_assume(b[D.k0 + j - 1] > (j == 1 ? 0.0 : b[D.k0 + j - 2])); for (int i = 0; i < D.n; i++) { double xb = 0; for (int j = 0; j < D.k0; j++) xb += D.X(i, j) * b[j]; sx_assume(prob(d, D, b, xb, D.y[i]) > 0); } } }
// likelihood, score and Hessian given to the optimiser
template <MT mt, DT dt> static void like(int n, int k0, int M, bool we, int sx, int sw = 9) { S s(n, k0, M, we, sx, M < 4, sw); DiscreteChoice<mt, dt> m(n, k0, M, false); B b(m.StorageSize, m.WorkSize); int k = k0 + M - 2; U = Env(); U.assume = [&](const Vd &p) { within(s.D, dt, p); };
  U.check = [&](const Vd &p, double v, const Vd *g, const Vd *h) { double L; Vd G, H; expect(s.D, dt, p, &L, &G, &H); sx_assert(sx_eq(v, -L), "the objective is minus the weighted log-likelihood"); for (int i = 0; i < k; i++) { sx_assert(sx_eq((*g)[i], -G[i]), "the gradient is that of the objective"); for (int j = 0; j < k; j++) sx_assert(sx_eq((*h)[i + k * j], -H[i + k * j]), "the Hessian is that of the objective"); } throw 7; };
  for (int c : s.D.y) U.order += c; int cnt = U.order % 2 ? M : -1; U.order = (U.order + n) % 3; int mx = 0; for (int c : s.D.y) mx = std::max(mx, c); if (mt == MT::kOrdered && cnt < 0 && mx < M - 1) return;
  bool t = false, stop = false; try { m.Calculate(s.y, s.x, we ? &s.w : nullptr, b.s.get(), b.w.get(), cnt, false); } catch (int) { stop = true; } catch (std::exception &) { t = true; }
  if (!s.all()) { sx_assert(t && !U.calls, "an outcome that never occurs is reported"); return; } sx_assert(stop && !t, "the model is estimated"); sx_assert(sx_eq(U.x0[0], 0.75), "given initial values are used"); s.same(); }
SX_ENTRY(dc_lik_logit) { like<MT::kBinary, DT::kLogit>(sx_choose("n", 1, 3), 1, 2, sx_choose("weight", 0, 1), 3); }
SX_ENTRY(dc_lik_logit2) { like<MT::kBinary, DT::kLogit>(2, 2, 2, sx_choose("weight", 0, 1), 4); }
SX_ENTRY(dc_lik_probit) { like<MT::kBinary, DT::kProbit>(sx_choose("n", 1, 3), 1, 2, sx_choose("weight", 0, 1), 3); }
SX_ENTRY(dc_lik_probit2) { like<MT::kBinary, DT::kProbit>(2, 2, 2, sx_choose("weight", 0, 1), 4); }
SX_ENTRY(dc_lik_ologit) { like<MT::kOrdered, DT::kLogit>(3, 1, 3, sx_choose("weight", 0, 1), 3); }
SX_ENTRY(dc_lik_ologit4) { like<MT::kOrdered, DT::kLogit>(4, 1, 4, false, 4); }
SX_ENTRY(dc_lik_oprobit) { like<MT::kOrdered, DT::kProbit>(3, 1, 3, sx_choose("weight", 0, 1), 3); }
SX_ENTRY(dc_lik_oprobit4) { like<MT::kOrdered, DT::kProbit>(4, 1, 4, false, 4); }
SX_ENTRY(dc_lik_ologit2) { like<MT::kOrdered, DT::kLogit>(3, 2, 3, true, 6); }
SX_ENTRY(dc_lik_oprobit2) { like<MT::kOrdered, DT::kProbit>(3, 2, 3, true, 6); }
// everything reported after the optimisation, and the probabilities of new observations
static double n1(const Vd &a, int k) { double m = 0; for (int j = 0; j < k; j++) { double t = 0; for (int i = 0; i < k; i++) t += std::abs(a[i + k * j]); if (t > m) m = t; } return m; }
template <MT mt, DT dt> static void result(int n, int k0, int M, bool we, int sx, int sw, bool asym, bool det) { S s(n, k0, M, we, sx, false, sw); DiscreteChoice<mt, dt> m(n, k0, M, det); B b(m.StorageSize, m.WorkSize); int k = k0 + M - 2; U = Env(); U.order = n % 3; U.asym = asym; U.assume = [&](const Vd &p) { within(s.D, dt, p); }; U.check = [](const Vd &, double, const Vd *, const Vd *) {}; if (!s.all()) return;
  bool t = throws([&] { m.Calculate(s.y, s.x, we ? &s.w : nullptr, b.s.get(), b.w.get(), M, false); }); sx_assert(!t && U.calls == 1, "the model is estimated"); s.same(); double L; Vd G, H; expect(s.D, dt, U.xf, &L, &G, &H);
  sx_assert(m.NumObs == n && m.NumChoices == M && m.NumCutoff == M - 1, "sizes"); for (int c = 0; c < M; c++) { double w = 0; for (int i = 0; i < n; i++) if (s.D.y[i] == c) w += s.D.ws[i]; sx_assert(sx_eq(m.Counts.Data[c], w), "total weights of the outcomes"); }
  sx_assert(m.Beta.length() == k && m.BetaVar.RowsCount == k && m.BetaVar.ColsCount == k && m.Counts.length() == M, "dimensions"); for (int i = 0; i < k; i++) sx_assert(sx_eq(m.Beta.Data[i], U.xf[i]), "the estimates are the optimiser's point");
  sx_assert(sx_eq(m.LogL, L), "log-likelihood"); sx_assert(sx_eq(m.Aic, 2.0 * k - 2 * L) && sx_eq(m.Sic, std::log((double)n) * k - 2 * L), "information criteria"); Vd Hn(k * k), V(k * k); for (int i = 0; i < k * k; i++) { Hn[i] = -H[i]; V[i] = m.BetaVar.Data[i]; }
  double dt0 = k == 1 ? H[0] : k == 2 ? H[0] * H[3] - H[1] * H[2] : 1; if (dt0 == 0) return; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double q = 0; for (int l = 0; l < k; l++) q += Hn[i + k * l] * V[l + k * j]; sx_assert(sx_eq(q, i == j ? 1.0 : 0.0), "the variance is the inverse of the Hessian at the estimates"); }
  if (dt == DT::kLogit) sx_assert(sx_eq(m.condition_number, k == 1 ? 1.0 : n1(Hn, k) * n1(V, k)), "condition number");
  if (det) for (int i = 0; i < k; i++) { double v = V[i + k * i]; if (!(v > 0)) continue; double sd = std::sqrt(v), z = U.xf[i] / sd; sx_assert(sx_eq(m.BetaStd.Data[i], sd), "standard errors"); sx_assert(sx_eq(m.BetaZ.Data[i], z), "z statistics"); sx_assert(sx_eq(m.BetaProb.Data[i], 2 * (1 - dist_normal_cdf(std::abs(z), 0, 1))), "probabilities of the z statistics"); } }
template <MT mt, DT dt> static void prob1(int k0, int M, int r) { Data D; D.n = r; D.k0 = k0; D.M = M; D.w = false; DiscreteChoice<mt, dt> m(3, k0, M, false); int k = k0 + M - 2; std::unique_ptr<double[]> bo(new double[k]); Vd be; for (int i = 0; i < k; i++) be.push_back(bo[i] = sx_range("coefficient", -4, 4)); for (int j = 1; j < M - 1; j++) sx_assume(be[k0 + j - 1] > (j == 1 ? 0.0 : be[k0 + j - 2])); m.Beta.SetData(bo.get(), k, 1); m.NumCutoff = M - 1; m.NumChoices = M; // an estimated model
  Vd xv; std::unique_ptr<double[]> xo(new double[r * k0]), ro(new double[r * M]), wo(new double[r + M - 2]); for (int i = 0; i < r * k0; i++) xv.push_back(xo[i] = sx_range("new", -4, 4)); Mx x(xo.get(), r, k0), R(ro.get(), r, M); m.GetProbabilities(x, R, wo.get());
  for (int i = 0; i < r; i++) { double xb = 0, sum = 0; for (int j = 0; j < k0; j++) xb += xv[i + r * j] * be[j]; for (int c = 0; c < M; c++) { double p = R.Get0(i, c); sx_assert(sx_eq(p, prob(dt, D, be, xb, c)), "probability of the outcome"); sum += p; } sx_assert(sx_eq(sum, 1.0), "probabilities sum to one"); for (int c = 0; c < M; c++) sx_assert(R.Get0(i, c) >= 0, "probabilities are not negative"); } for (int i = 0; i < r * k0; i++) sx_assert(sx_eq(xo[i], xv[i]), "data are not changed"); }
SX_ENTRY(dc_res_logit) { result<MT::kBinary, DT::kLogit>(sx_choose("n", 2, 3), 1, 2, sx_choose("weight", 0, 1), 3, 9, false, sx_choose("details", 0, 1)); }
SX_ENTRY(dc_res_probit) { result<MT::kBinary, DT::kProbit>(2, 1, 2, sx_choose("weight", 0, 1), 2, 9, false, sx_choose("details", 0, 1)); }
SX_ENTRY(dc_res_logit2) { result<MT::kBinary, DT::kLogit>(3, 2, 2, true, 0, 1, true, sx_choose("details", 0, 1)); }
SX_ENTRY(dc_res_ologit) { result<MT::kOrdered, DT::kLogit>(4, 1, 3, true, 0, 1, true, sx_choose("details", 0, 1)); }
SX_ENTRY(dc_prob_logit) { prob1<MT::kBinary, DT::kLogit>(sx_choose("k", 1, 2), 2, sx_choose("rows", 1, 2)); }
SX_ENTRY(dc_prob_probit) { prob1<MT::kBinary, DT::kProbit>(sx_choose("k", 1, 2), 2, sx_choose("rows", 1, 2)); }
SX_ENTRY(dc_prob_ologit) { prob1<MT::kOrdered, DT::kLogit>(sx_choose("k", 1, 2), sx_choose("choices", 3, 4), sx_choose("rows", 1, 2)); }
SX_ENTRY(dc_prob_oprobit) { prob1<MT::kOrdered, DT::kProbit>(sx_choose("k", 1, 2), sx_choose("choices", 3, 4), sx_choose("rows", 1, 2)); }
// arguments that do not fit together
SX_ENTRY(dc_bad) { int n = sx_choose("n", 1, 3), nx = sx_choose("nx", 1, 3), nw = sx_choose("nw", 0, 3), cap = sx_choose("capacity", 1, 3), kc = sx_choose("kc", 1, 2), k = sx_choose("k", 1, 2); DiscreteChoice<> m(cap, kc, 2, false); B b(m.StorageSize, m.WorkSize); std::unique_ptr<double[]> y(new double[n]), x(new double[nx * k]), w(new double[nw + 1]); for (int i = 0; i < n; i++) y[i] = i % 2; for (int i = 0; i < nx * k; i++) x[i] = i; for (int i = 0; i < nw; i++) w[i] = 1; Mx Y(y.get(), n, 1), X(x.get(), nx, k), W(w.get(), nw, 1); U = Env(); U.asym = true; U.check = [](const Vd &, double, const Vd *, const Vd *) { throw 7; }; bool ok = false; try { m.Calculate(Y, X, nw ? &W : nullptr, b.s.get(), b.w.get(), 2, false); } catch (int) { ok = true; } catch (std::exception &) {} if (n != nx || (nw && nw != n) || n < 2 || k > kc) sx_assert(!ok, "inconsistent arguments are rejected"); if (n == nx && (!nw || nw == n) && n >= 2 && k <= kc && n <= cap) sx_assert(ok, "consistent arguments are accepted");
  auto bad = [](int M, bool ord) { return throws([&] { if (ord) DiscreteChoice<MT::kOrdered, DT::kLogit> q(3, 1, M); else DiscreteChoice<MT::kBinary, DT::kLogit> q(3, 1, M); }); }; sx_assert(bad(2, true) && bad(0, true) && !bad(3, true) && bad(3, false) && bad(0, false) && !bad(2, false), "number of choices is checked"); }
