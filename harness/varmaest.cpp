#include "varma.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct V { int r, c; std::unique_ptr<double[]> o; std::vector<double> v; Mx m; V(int r_, int c_, const char *nm) : r(r_), c(c_), o(new double[r_ * c_ + 1]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_real(nm); } double operator()(int i, int j) const { return v[i + r * j]; } void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "data are not changed"); } };
static std::vector<int> dpoly(int d) { std::vector<int> e{1}; for (int k = 0; k < d; k++) { std::vector<int> f(e.size() + 1, 0); for (size_t i = 0; i < e.size(); i++) { f[i] += e[i]; f[i + 1] -= e[i]; } e = f; } return e; }
struct B { std::unique_ptr<double[]> s, w; B(int ns, int nw) : s(new double[ns]), w(new double[nw ? nw : 1]) { for (int i = 0; i < ns; i++) s[i] = sx_real("old"); for (int i = 0; i < nw; i++) w[i] = sx_real("old"); } };
struct Spec { int g = 1, p = 0, P = 0, s = 0, d = 0, q = 0, x = 0, T = 3, se = 0; };
// a model with its data; the design is compared with the definition
struct M { Spec k; VarmaSizes z; Varma v; V y, x; std::vector<double> d; int am; M(Spec k_, bool restr = false, bool det = false) : k(k_), z(k.T + k.se + std::max(k.p, k.P * k.s) + k.d, k.g, k.x, k.p, k.d, k.q, k.P, 0, 0, k.s), v(z, restr, det), y(k.g, z.ObsCount, "y"), x(k.x ? k.x : 1, z.ObsCount, "x"), am(z.ArMax) { auto e = dpoly(k.d); for (int t = k.d; t < z.ObsCount; t++) for (int i = 0; i < k.g; i++) { double u = 0; for (int l = 0; l <= k.d; l++) u += e[l] * y(i, t - l); d.push_back(u); } }
  const Mx *exo() { return k.x ? &x.m : nullptr; } double dy(int i, int t) { return d[i + k.g * t]; } // differenced
  double yy(int i, int t) { return dy(i, am + t); } double xx(int t, int c) { for (int l : z.ArLags) { if (c < k.g) return dy(c, am + t - l); c -= k.g; } return x(c, z.ArMax_d + t); }
  void design() { auto &R = v.Result; sx_assert(v.Sizes.T == k.T + k.se && v.SampleEnd == k.se, "number of observations"); sx_assert(R.y.RowsCount == k.g && R.y.ColsCount == k.T && R.Xt.RowsCount == k.T && R.Xt.ColsCount == z.NumParamsEq, "size of the regression"); for (int t = 0; t < k.T; t++) { for (int i = 0; i < k.g; i++) sx_assert(sx_eq(R.y.Get0(i, t), yy(i, t)), "dependent variables of the sample"); for (int c = 0; c < z.MaStart; c++) sx_assert(sx_eq(R.Xt.Get0(t, c), xx(t, c)), "lags and exogenous variables of the sample"); } y.same(); x.same(); } };
static double det(const std::vector<double> &a, int n) { return n == 1 ? a[0] : n == 2 ? a[0] * a[3] - a[1] * a[2] : a[0] * (a[4] * a[8] - a[5] * a[7]) - a[3] * (a[1] * a[8] - a[2] * a[7]) + a[6] * (a[1] * a[5] - a[2] * a[4]); }
static std::vector<double> cross(const std::vector<double> &X, int T, int f) { std::vector<double> c(f * f, 0.0); for (int i = 0; i < f; i++) for (int j = 0; j < f; j++) for (int t = 0; t < T; t++) c[i + f * j] += X[t + T * i] * X[t + T * j]; return c; }
// unrestricted least squares of y on X
static void normal(M &m, const std::vector<double> &X, int f) { auto &R = m.v.Result; int g = m.k.g, T = m.k.T; sx_assert(R.gamma.RowsCount == g && R.gamma.ColsCount == f && R.resid.RowsCount == g && R.resid.ColsCount == T, "size of the estimates"); for (int i = 0; i < g; i++) { for (int t = 0; t < T; t++) { double u = m.yy(i, t); for (int c = 0; c < f; c++) u -= R.gamma.Get0(i, c) * X[t + T * c]; sx_assert(sx_eq(R.resid.Get0(i, t), u), "residuals"); } for (int c = 0; c < f; c++) { double u = 0; for (int t = 0; t < T; t++) { u += R.resid.Get0(i, t) * X[t + T * c]; } sx_assert(sx_eq(u, 0), "residuals are orthogonal to the regressors"); } }
  for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) { double u = 0; for (int t = 0; t < T; t++) u += R.resid.Get0(i, t) * R.resid.Get0(j, t); sx_assert(sx_eq(R.sigma2.Get0(i, j) * T, u), "covariance of the residuals"); }
  auto S = cross(X, T, f); sx_assert(R.gammavar.RowsCount == g * f && R.gammavar.ColsCount == g * f, "size of the variance"); for (int i = 0; i < g; i++) for (int k = 0; k < g; k++) for (int c = 0; c < f; c++) for (int e = 0; e < f; e++) { double u = 0; for (int b = 0; b < f; b++) u += S[c + f * b] * R.gammavar.Get0(i + g * b, k + g * e); sx_assert(sx_eq(u, c == e ? R.sigma2.Get0(i, k) : 0.0), "variance of the coefficients"); } }
static void unres(Spec k) { M m(k); B b(m.v.Result.StorageSize, m.v.Result.WorkSize); int T = k.T, f = m.z.MaStart; std::vector<double> X(T * f); for (int t = 0; t < T; t++) for (int c = 0; c < f; c++) X[t + T * c] = m.xx(t, c); auto S = cross(X, T, f); double D = det(S, f); bool t = throws([&] { m.v.EstimateOls(m.y.m, m.exo(), nullptr, nullptr, b.w.get(), b.s.get(), k.se, false, nullptr); }); sx_assert(t == (T < f || D == 0), "exactly regressors without full rank are rejected"); if (t) return; m.design(); normal(m, X, f); }
SX_ENTRY(vo_design) { Spec k; k.g = sx_choose("eqs", 1, 2); k.p = sx_choose("p", 0, 2); k.P = sx_choose("P", 0, 1); k.s = k.P ? 3 : 0; k.d = sx_choose("d", 0, 1); k.x = sx_choose("exo", 0, 2); k.q = sx_choose("q", 0, 1); k.T = sx_choose("T", 1, 3); k.se = sx_choose("end", 0, 1); if (!k.p && !k.q && !k.P) return; M m(k); B b(m.v.Result.StorageSize, m.v.Result.WorkSize); for (int rep = 0; rep < 2; rep++) { m.v.EstimateOls(m.y.m, m.exo(), nullptr, nullptr, b.w.get(), b.s.get(), k.se, true, nullptr); if (m.z.HasArExo) m.design(); for (int t = 0; t < k.T; t++) { for (int i = 0; i < k.g; i++) sx_assert(sx_eq(m.v.Result.y.Get0(i, t), m.yy(i, t)), "dependent variables of the sample"); for (int c = m.z.MaStart; c < m.z.NumParamsEq; c++) sx_assert(sx_eq(m.v.Result.Xt.Get0(t, c), 0), "past errors start at zero"); } for (int i = 0; i < k.g * m.z.NumParamsEq; i++) sx_assert(true, ""); } }
SX_ENTRY(vo_ols1) { Spec k; k.g = sx_choose("eqs", 1, 2); k.d = sx_choose("d", 0, 1); k.p = 1; k.T = sx_choose("T", 1, 2); k.se = sx_choose("end", 0, 1); unres(k); }
SX_ENTRY(vo_ols2) { Spec k; k.p = sx_choose("p", 1, 2); k.x = 2 - k.p; k.T = sx_choose("T", 1, 3); k.se = sx_choose("end", 0, 1); unres(k); }
SX_ENTRY(vo_bad) { Spec k; k.p = 1; k.T = 1; VarmaSizes z(3, 1, 0, 1, 0, 0); Varma v(z); B b(v.Result.StorageSize, v.Result.WorkSize); int n = sx_choose("n", 2, 3), se = sx_choose("end", 0, 4); V y(1, n, "y"); sx_assume(y(0, 0) * y(0, 0) > 0); bool t = throws([&] { v.EstimateOls(y.m, nullptr, nullptr, nullptr, b.w.get(), b.s.get(), se, false, nullptr); }); sx_assert(t == (n - 1 - se < 1), "a sample without observations is rejected"); }
SX_ENTRY(vo_cond) { Spec k; k.p = 1; k.x = 1; k.T = 2; M m(k); B b(m.v.Result.StorageSize, m.v.Result.WorkSize); for (int i = 0; i < 3; i++) m.x.v[i] = m.x.o[i] = 1; m.y.v[1] = m.y.o[1] = sx_choose("lag", -2, 2); m.d[1] = m.y.v[1]; double c = sx_pos("max"); auto S = std::vector<double>(4); std::vector<double> X(4); for (int t = 0; t < 2; t++) for (int j = 0; j < 2; j++) X[t + 2 * j] = m.xx(t, j); S = cross(X, 2, 2); double D = det(S, 2); sx_assume(D != 0); double n1 = std::max(std::abs(S[0]) + std::abs(S[1]), std::abs(S[2]) + std::abs(S[3])), n2 = std::max(std::abs(S[3] / D) + std::abs(S[1] / D), std::abs(S[2] / D) + std::abs(S[0] / D)); bool t = throws([&] { m.v.EstimateOls(m.y.m, m.exo(), nullptr, nullptr, b.w.get(), b.s.get(), 0, false, nullptr, c); }); sx_assert(t == (n1 * n2 > c), "ill-conditioned regressors are rejected"); if (!t) sx_assert(sx_eq(m.v.Result.cn, n1 * n2), "condition number"); }
SX_ENTRY(vo_ma) { Spec k; k.q = sx_choose("q", 1, 2); k.x = k.q == 1 ? sx_choose("exo", 0, 1) : 0; k.T = sx_choose("T", 2, 3); M m(k); B b(m.v.Result.StorageSize, m.v.Result.WorkSize); V e(1, k.T, "e"); int T = k.T, f = m.z.NumParamsEq; std::vector<double> X(T * f); for (int t = 0; t < T; t++) { for (int c = 0; c < m.z.MaStart; c++) X[t + T * c] = m.xx(t, c); for (int l = 1; l <= k.q; l++) X[t + T * (m.z.MaStart + l - 1)] = t < l ? 0.0 : e(0, t - l); } auto S = cross(X, T, f); double D = det(S, f); bool t = throws([&] { m.v.EstimateOls(m.y.m, m.exo(), nullptr, nullptr, b.w.get(), b.s.get(), 0, false, &e.m); }); sx_assert(t == (T < f || D == 0), "exactly regressors without full rank are rejected"); e.same(); if (t) return; m.design(); for (int i = 0; i < T * f; i++) sx_assert(sx_eq(m.v.Result.Xt.Data[i], X[i]), "past errors are regressors"); normal(m, X, f); }
SX_ENTRY(vo_two) { Spec k; k.q = 1; k.x = 1; k.T = 3; M m(k); B b(m.v.Result.StorageSize, m.v.Result.WorkSize); for (int i = 0; i < 3; i++) m.x.o[i] = m.x.v[i] = 1; double mean = (m.yy(0, 0) + m.yy(0, 1) + m.yy(0, 2)) / 3; double e0 = m.yy(0, 0) - mean, e1 = m.yy(0, 1) - mean; std::vector<double> X{1, 1, 1, 0, e0, e1}; auto S = cross(X, 3, 2); double D = det(S, 2); bool t = throws([&] { m.v.EstimateOls(m.y.m, m.exo(), nullptr, nullptr, b.w.get(), b.s.get(), 0, false, nullptr); }); sx_assert(t == (D == 0), "exactly regressors without full rank are rejected"); if (t) return; m.design(); for (int i = 0; i < 6; i++) sx_assert(sx_eq(m.v.Result.Xt.Data[i], X[i]), "past errors are those of the first regression"); normal(m, X, 2); }
static void restr(Spec k, int n, const std::vector<double> &Rv) { M m(k, true); B b(m.v.Result.StorageSize, m.v.Result.WorkSize); int T = k.T, g = k.g, f = m.z.NumParamsEq, q = g * f; std::vector<double> ro(Rv); Mx R(ro.data(), q, n); bool hr = sx_choose("r", 0, 1); V r(q, 1, "r"); std::vector<double> Z(g * T * n, 0.0), u0(g * T); for (int t = 0; t < T; t++) for (int i = 0; i < g; i++) { u0[i + g * t] = m.yy(i, t); for (int c = 0; c < f; c++) { if (hr) u0[i + g * t] -= m.xx(t, c) * r(i + g * c, 0); for (int j = 0; j < n; j++) Z[i + g * t + g * T * j] += m.xx(t, c) * Rv[i + g * c + q * j]; } } auto S = cross(Z, g * T, n); double D = det(S, n); bool t = throws([&] { m.v.EstimateOls(m.y.m, m.exo(), &R, hr ? &r.m : nullptr, b.w.get(), b.s.get(), k.se, false, nullptr); }); std::vector<double> X(T * f); for (int t = 0; t < T; t++) for (int c = 0; c < f; c++) X[t + T * c] = m.xx(t, c); auto S1 = cross(X, T, f); double D1 = det(S1, f); sx_assert(t == (D == 0 || D1 == 0), "exactly restricted regressors without full rank are rejected"); if (t) return; m.design(); auto &A = m.v.Result; sx_assert(A.gamma.length() == n && A.gammavar.RowsCount == n && A.gammavar.ColsCount == n, "size of the estimates"); for (int i = 0; i < g * T; i++) { double u = u0[i]; for (int j = 0; j < n; j++) u -= Z[i + g * T * j] * A.gamma.Data[j]; sx_assert(sx_eq(A.resid.Data[i], u), "residuals of the restricted model"); } for (int j = 0; j < n; j++) { double u = 0; for (int i = 0; i < g * T; i++) u += Z[i + g * T * j] * A.resid.Data[i]; sx_assert(sx_eq(u, 0), "residuals are orthogonal to the restricted regressors"); } sx_assert(A.resid.RowsCount == g && A.resid.ColsCount == T, "size of the residuals"); for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) { double u = 0; for (int t = 0; t < T; t++) u += A.resid.Data[i + g * t] * A.resid.Data[j + g * t]; sx_assert(sx_eq(A.sigma2.Get0(i, j) * T, u), "covariance of the residuals"); } r.same(); }
SX_ENTRY(vo_restr1) { Spec k; k.p = sx_choose("p", 1, 2); k.x = 2 - k.p; k.T = 3; int w = sx_choose("which", 0, 2); restr(k, 1, w == 0 ? std::vector<double>{1, 0} : w == 1 ? std::vector<double>{0, 1} : std::vector<double>{1, 2}); }
SX_ENTRY(vo_restr2) { Spec k; k.g = 2; k.p = 1; k.T = sx_choose("T", 1, 2); k.se = sx_choose("end", 0, 1); int w = sx_choose("which", 0, 1); restr(k, 1, w ? std::vector<double>{1, 0, 0, 1} : std::vector<double>{0, 1, 0, 0}); }
