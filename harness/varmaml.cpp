// Maximum likelihood estimation.  The numerical optimiser (setulb) and the numerical derivatives (property P02) are
// environment: they evaluate the objective anywhere and return any point inside the bounds.
#include "lbfgsb.h"
#include "varma.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct V { int r, c; std::unique_ptr<double[]> o; std::vector<double> v; Mx m; V(int r_, int c_, const char *nm) : r(r_), c(c_), o(new double[r_ * c_ + 1]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_real(nm); } double operator()(int i, int j) const { return v[i + r * j]; } void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "data are not changed"); } };
struct B { std::unique_ptr<double[]> s, w; B(int ns, int nw) : s(new double[ns]), w(new double[nw ? nw : 1]) { for (int i = 0; i < ns; i++) s[i] = sx_real("old"); for (int i = 0; i < nw; i++) w[i] = sx_real("old"); } };
// ---- environment
static struct Env { bool within = false; int evals = 1, news = 0, back = 0, calls = 0, done = 0; std::vector<double> x0, lo, up; std::vector<std::vector<double>> x; std::vector<double> f; std::vector<double> grad, hess; bool second = false; std::vector<double> at; std::function<void(const std::vector<double> &, double)> check; } U;
Derivative::Derivative(Ti n, bool, bool second, Ti count) { mN = n; mCount = count; mDoSecondDerivative = second; WorkSize = n + 1; StorageSize1 = n; StorageSize2 = n * n; }
static void poke(const std::function<double(const Mx &)> &f, const Mx &x, int n, double *work) { std::vector<double> p(n); for (int i = 0; i < n; i++) work[i] = p[i] = 0.25 * (i + 1); work[n] = 0; Mx m(p.data(), n, 1); f(m); }
void Derivative::CalculateFirst(const std::function<Tv(const Matrix<Tv> &)> &f, const Matrix<Tv> &x, Tv *storage, Tv *work) { sx_assert(x.length() == mN, "size of the point"); poke(f, x, mN, work); U.grad.clear(); for (int i = 0; i < mN; i++) { storage[i] = sx_real("grad"); U.grad.push_back(storage[i]); } }
void Derivative::CalculateSecond(const std::function<Tv(const Matrix<Tv> &)> &f, const Matrix<Tv> &x, Tv *storage, Tv *work) { sx_assert(x.length() == mN && mDoSecondDerivative, "size of the point"); U.second = true; U.at.assign(x.Data, x.Data + mN); poke(f, x, mN, work); U.hess.assign(mN * mN, 0); for (int i = 0; i < mN; i++) for (int j = 0; j <= i; j++) U.hess[i + mN * j] = U.hess[j + mN * i] = sx_real("hess"); for (int i = 0; i < mN * mN; i++) storage[i] = U.hess[i]; }
static void fresh(int n, double *x, double *l, double *u, int *nbd) { for (int i = 0; i < n; i++) { bool sym = (int)U.x.size() == (U.back ? 0 : U.evals - 1); x[i] = sym || U.within ? sx_real("point") : -0.5 + 0.25 * i; if (!U.within) continue; if (nbd[i] == 1 || nbd[i] == 2) sx_assume(x[i] >= l[i]); if (nbd[i] == 2 || nbd[i] == 3) sx_assume(x[i] <= u[i]); } }
extern "C" int setulb(Ti *n, Ti *m, double *x, double *l, double *u, Ti *nbd, double *f, double *g, double *factr, double *pgtol, double *wa, Ti *iwa, Ti *task, Ti *iprint, Ti *csave, logical *lsave, Ti *isave, double *dsave) {
  wa[(2 * *m + 5) * *n + 11 * *m * *m + 8 * *m - 1] = 1; wa[0] = 2; iwa[3 * *n - 1] = 1; iwa[0] = 1; isave[43] = 1; dsave[28] = 1; lsave[3] = 1; U.calls++; sx_assert(!U.done, "the optimiser is not called again after it has finished");
  if (*task == 1) { U.x0.assign(x, x + *n); U.lo.assign(l, l + *n); U.up.assign(u, u + *n); for (int i = 0; i < *n; i++) { bool li = !sx_is_symbolic(l[i]) && std::isinf(l[i]), ui = !sx_is_symbolic(u[i]) && std::isinf(u[i]); sx_assert(nbd[i] == (li ? (ui ? 0 : 3) : ui ? 1 : 2), "kinds of the bounds"); } fresh(*n, x, l, u, nbd); *task = 10; return 0; }
  if (*task == 2) { fresh(*n, x, l, u, nbd); *task = 12; return 0; }
  U.x.push_back(std::vector<double>(x, x + *n)); U.f.push_back(*f); if (U.check) U.check(U.x.back(), *f); for (int i = 0; i < *n && i < (int)U.grad.size(); i++) sx_assert(sx_eq(g[i], U.grad[i]), "gradient given to the optimiser");
  if ((int)U.x.size() < U.evals) { if (U.news) *task = 2; else { fresh(*n, x, l, u, nbd); *task = 11; } return 0; }
  if (U.back) { for (int i = 0; i < *n; i++) x[i] = U.x[0][i]; *f = U.f[0]; } *task = 21; U.done = 1; return 0; }
// Student's t distribution: any function of the argument and the degrees of freedom
extern "C" { void kt_c(double *self, double p, double, double, double) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE116EEC1Edddd"); void kt_c(double *self, double p, double, double, double) { self[1] = p; } double kt_f(double *self, double x) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE116EE6GetCdfEd"); double kt_f(double *self, double x) { return std::erf(x) + self[1]; } void kt_d(void *) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE116EED1Ev"); void kt_d(void *) {} }
// ---- model
struct Spec { int g = 1, p = 0, d = 0, q = 0, x = 0, T = 3, se = 0; bool det = false, var = false, restr = false; };
struct M { Spec k; VarmaSizes z; Varma v; V y, x; std::unique_ptr<VarmaRestriction> rs; std::unique_ptr<double[]> rd; M(Spec k_) : k(k_), z(k.T + k.se + k.p + k.d, k.g, k.x, k.p, k.d, k.q), v(z, k.restr, k.det, k.var), y(k.g, z.ObsCount, "y"), x(k.x ? k.x : 1, z.ObsCount, "x") {}
  const Mx *exo() { return k.x ? &x.m : nullptr; } double dy(int i, int t) { return k.d ? y(i, t + 1) - y(i, t) : y(i, t); }
  // residuals for a coefficient matrix
  std::vector<double> resid(const std::vector<double> &pi) { int g = k.g; std::vector<double> e(g * k.T); for (int t = 0; t < k.T; t++) for (int i = 0; i < g; i++) { double u = dy(i, k.p + t); int c = 0; for (int l = 1; l <= k.p; l++) for (int j = 0; j < g; j++) u -= pi[i + g * c++] * dy(j, k.p + t - l); for (int j = 0; j < k.x; j++) u -= pi[i + g * c++] * x(j, k.p + k.d + t); for (int l = 1; l <= k.q; l++) for (int j = 0; j < g; j++, c++) if (t >= l) u -= pi[i + g * c] * e[j + g * (t - l)]; e[i + g * t] = u; } return e; }
  std::vector<double> cov(const std::vector<double> &e) { int g = k.g; std::vector<double> s(g * g, 0.0); for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) for (int t = 0; t < k.T; t++) s[i + g * j] += e[i + g * t] * e[j + g * t]; return s; } };
static double det(const std::vector<double> &a, int n) { return n == 1 ? a[0] : a[0] * a[3] - a[1] * a[2]; }
static const double LN2PI1 = 2.837877066409345483560659472811;
static void ml(Spec k, const std::vector<double> *Rv = nullptr, int nf = 0, int fix = 0) { M m(k); for (int i = 0; i < m.k.g * m.z.ObsCount && i < fix; i++) m.y.v[i] = m.y.o[i] = fix == 4 ? (i == 0 ? 0.0 : i == 1 ? 2.0 : i == 2 ? 1.0 : 3.0) : (i * 7 + 2) % 5 - 1.5 + i % 2; if (fix && k.x) for (int i = 0; i < m.z.ObsCount; i++) m.x.v[i] = m.x.o[i] = 1 + i % 2; B b(m.v.Result.StorageSize, m.v.Result.WorkSize); int g = k.g, T = k.T, f = m.z.NumParamsEq, n = g * f; std::vector<double> ro; std::unique_ptr<Mx> R; if (Rv) { ro = *Rv; R.reset(new Mx(ro.data(), n, nf)); } else nf = n; auto full = [&](const std::vector<double> &x) { if (!Rv) return x; std::vector<double> p(n, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < nf; j++) p[i] += (*Rv)[i + n * j] * x[j]; return p; };
  U = Env(); U.evals = sx_choose("evals", 1, 2); U.news = U.evals > 1 ? sx_choose("news", 0, 1) : 0; U.back = U.evals > 1 ? sx_choose("back", 0, 1) : 0; U.check = [&](const std::vector<double> &x, double fx) { auto S = m.cov(m.resid(full(x))); double D = det(S, g); sx_assume(D > 0); if (T <= f) return; bool ok = false; for (int c : {T - 1, T - f, T}) ok = ok | sx_eq(fx, T * std::log(D / (g == 1 ? c : c * c))); sx_assert(ok, "objective is the deviance of the residual covariance"); };
  bool t = throws([&] { m.v.EstimateMl(m.y.m, m.exo(), b.w.get(), b.s.get(), R.get(), nullptr, k.se, false, 2); }); if (t) { sx_reach("rejected"); double hd = !k.var || !U.second ? 1 : det(U.hess, nf); sx_assert(!U.done || hd == 0, "a finished optimisation gives an estimate"); return; } sx_reach("estimated"); auto &A = m.v.Result; m.y.same(); m.x.same(); bool iter = k.q > 0 || Rv; sx_assert(iter == (U.calls > 0), "only models without closed form are optimised"); std::vector<double> gm;
  if (iter) { gm = U.back ? U.x[0] : U.x.back(); sx_assert(A.gamma.length() == nf, "number of the estimates"); for (int i = 0; i < nf; i++) sx_assert(sx_eq(A.gamma.Data[i], gm[i]), "estimates are the optimiser's point"); } else gm.assign(A.gamma.Data, A.gamma.Data + n); auto pi = full(gm); auto e = m.resid(pi), S = m.cov(e); for (int i = 0; i < g * T; i++) sx_assert(sx_eq(A.resid.Data[i], e[i]), "residuals belong to the estimates"); for (int i = 0; i < g * g; i++) sx_assert(sx_eq(A.sigma2.Data[i] * T, S[i]), "covariance belongs to the estimates");
  sx_assert(A.coef.Data && A.coef.RowsCount == g && A.coef.ColsCount == f, "coefficient matrix is available"); for (int i = 0; i < n; i++) sx_assert(sx_eq(A.coef.Data[i], pi[i]), "coefficient matrix belongs to the estimates");
  if (iter && k.var) { sx_assert(U.second, "variances come from the second derivatives"); for (int i = 0; i < nf; i++) sx_assert(sx_eq(U.at[i], gm[i]), "second derivatives are those at the estimates"); for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) { double u = 0; for (int l = 0; l < nf; l++) u += U.hess[i + nf * l] * A.gammavar.Get0(l, j); sx_assert(sx_eq(u, i == j ? 2.0 : 0.0), "variance is twice the inverse of the second derivatives"); } }
  if (k.det) { double D = det(S, g) / (g == 1 ? T : T * T); sx_assume(D > 0); double ll = -(T * g * LN2PI1 + T * std::log(D)) / 2; sx_assert(sx_eq(A.LogLikelihood, ll), "log-likelihood"); if (!Rv) { sx_assert(sx_eq(A.Aic, 2.0 * n - 2 * ll), "Akaike criterion"); sx_assert(sx_eq(A.Sic, std::log((double)T) * n - 2 * ll), "Schwarz criterion"); } if (k.var && !Rv) for (int i = 0; i < n; i++) { double sd = std::sqrt(A.gammavar.Get0(i, i)); if (!(A.gammavar.Get0(i, i) > 0)) continue; sx_assert(sx_eq(A.coefstd.Data[i], sd), "standard errors"); sx_assert(sx_eq(A.coeft.Data[i], pi[i] / sd), "t statistics"); sx_assert(sx_eq(A.coefprob.Data[i], 2 * (1 - (std::erf(std::abs(pi[i] / sd)) + g * T))), "probabilities"); } } }
SX_ENTRY(ml_ma1) { Spec k; k.q = 1; k.T = sx_choose("T", 2, 3); k.d = sx_choose("d", 0, 1); k.se = sx_choose("end", 0, 1); k.det = sx_choose("details", 0, 1); k.var = sx_choose("variance", 0, 1); ml(k, nullptr, 0, k.T == 3 ? 9 : 0); }
SX_ENTRY(ml_ma2) { Spec k; k.q = 2; k.T = 3; k.det = sx_choose("details", 0, 1); k.var = sx_choose("variance", 0, 1); ml(k, nullptr, 0, 9); }
SX_ENTRY(ml_arma) { Spec k; k.q = 1; k.p = sx_choose("p", 0, 1); k.x = 1 - k.p; k.T = 3; ml(k, nullptr, 0, 9); }
SX_ENTRY(ml_var) { Spec k; k.g = sx_choose("eqs", 1, 2); k.p = 1; k.T = k.g == 2 ? 3 : sx_choose("T", 2, 3); k.det = sx_choose("details", 0, 1); k.var = 1; k.se = sx_choose("end", 0, 1); ml(k, nullptr, 0, k.g == 2 ? 7 : k.T - 1); }
SX_ENTRY(ml_final) { Spec k; k.g = 2; k.q = 1; k.T = 2; k.restr = true; k.det = sx_choose("details", 0, 1); std::vector<double> R{1, 0, 0, 1}; ml(k, &R, 1, 4); }
SX_ENTRY(ml_restr) { Spec k; k.p = 2; k.T = 2; k.restr = true; k.det = sx_choose("details", 0, 1); std::vector<double> R{0, 1}; ml(k, &R, 1, 3); }
// the start and the bounds come from the first regression
SX_ENTRY(ml_bounds) { Spec k; k.q = 1; k.x = 1; k.T = 3; M m(k), o(k); B b(m.v.Result.StorageSize, m.v.Result.WorkSize), c(m.v.Result.StorageSize, m.v.Result.WorkSize); for (int i = 0; i < 3; i++) { m.x.o[i] = m.x.v[i] = 1; m.y.o[i] = m.y.v[i] = i == 0 ? sx_choose("y", -1, 1) : i == 1 ? 2 : sx_real("last"); } double mul = sx_choose("mul", 1, 3); int nt = throws([&] { o.v.EstimateOls(m.y.m, &m.x.m, nullptr, nullptr, c.w.get(), c.s.get(), 0, false, nullptr); }); U = Env(); U.within = true; bool t = throws([&] { m.v.EstimateMl(m.y.m, &m.x.m, b.w.get(), b.s.get(), nullptr, nullptr, 0, false, mul); }); sx_assert(t || !nt, "regressors without full rank are rejected"); if (t || nt) return; for (int i = 0; i < 2; i++) { sx_assert(sx_eq(U.x0[i], o.v.Result.gamma.Data[i]), "the optimiser starts at the regression estimates"); double s = mul * std::sqrt(o.v.Result.gammavar.Get0(i, i)); sx_assert(sx_eq(U.lo[i], U.x0[i] - s) && sx_eq(U.up[i], U.x0[i] + s), "bounds are a multiple of the standard errors around the start"); } }
SX_ENTRY(ml_limit) { Spec k; k.q = 1; k.T = 2; LimitedMemoryBfgsbOptions op; op.IterationMax = sx_choose("limit", 1, 5); op.mMaxCorrections = sx_choose("m", 1, 6); VarmaSizes z(2, 1, 0, 0, 0, 1); Varma v(z, false, false, false, &op); B b(v.Result.StorageSize, v.Result.WorkSize); V y(1, 2, "y"); U = Env(); U.evals = 99; U.within = true; U.news = sx_choose("news", 0, 1); bool t = throws([&] { v.EstimateMl(y.m, nullptr, b.w.get(), b.s.get()); }); if (t) return; sx_assert(U.calls == op.IterationMax && v.Result.Optim.Iteration == op.IterationMax, "the limit of iterations is kept"); }
// a rolling sample continues from the previous estimates
SX_ENTRY(ml_again) { int restr = sx_choose("restricted", 0, 1); Spec k; k.g = 1 + restr; k.q = 1; k.T = 2; k.se = 1; k.restr = restr; k.var = sx_choose("variance", 0, 1); k.det = sx_choose("details", 0, 1); M m(k); for (int i = 0; i < k.g * 3; i++) m.y.v[i] = m.y.o[i] = k.g == 1 ? i + 1.0 : i == 0 ? 0.0 : i == 1 ? 2.0 : i == 2 ? 1.0 : 3.0; B b(m.v.Result.StorageSize, m.v.Result.WorkSize); std::vector<double> ro{1, 0, 0, 1}; Mx R(ro.data(), 4, 1); U = Env(); bool t = throws([&] { m.v.EstimateMl(m.y.m, nullptr, b.w.get(), b.s.get(), restr ? &R : nullptr, nullptr, 1); }); if (t) return; double x = U.x.back()[0], v = k.var ? 2 / U.hess[0] : INFINITY; if (k.var) sx_assume(U.hess[0] > 0); U = Env(); t = throws([&] { m.v.EstimateMl(m.y.m, nullptr, b.w.get(), b.s.get(), restr ? &R : nullptr, nullptr, 0, true); }); if (t && !U.calls) return; sx_assert(U.calls && sx_eq(U.x0[0], x), "starts at the previous estimates"); if (k.var) { double s = 2 * std::sqrt(v); sx_assert(sx_eq(U.lo[0], x - s) && sx_eq(U.up[0], x + s), "bounds use the previous variances"); } else sx_assert(std::isinf(U.lo[0]) && std::isinf(U.up[0]), "bounds use the previous variances"); }
