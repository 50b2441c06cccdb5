// Seemingly unrelated regressions: estimation, significance search, projections.
// Student-t and F distributions are environment (any function of the statistic and the degrees of freedom).
#include "sur.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct V { int r, c; std::unique_ptr<double[]> o; std::vector<double> v; Mx m; V(int r_, int c_, const char *nm) : r(r_), c(c_), o(new double[r_ * c_ + 1]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_real(nm); } void set(const std::vector<double> &u) { for (int i = 0; i < r * c; i++) o[i] = v[i] = u[i]; } double operator()(int i, int j) const { return v[i + r * j]; } void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "data are not changed"); } };
struct B { std::unique_ptr<double[]> s, w; B(int ns, int nw) : s(new double[ns ? ns : 1]), w(new double[nw ? nw : 1]) { for (int i = 0; i < ns; i++) s[i] = sx_real("old"); for (int i = 0; i < nw; i++) w[i] = sx_real("old"); } };
// a distribution function has any value at any argument; calls are recorded in order
struct Fn { std::vector<double> x, v; double a, b; size_t used = 0; double at(double t) { double u = sx_real("cdf"); for (size_t i = 0; i < x.size(); i++) if (sx_ident(x[i], t)) { u = v[i]; break; } x.push_back(t); v.push_back(u); return u; } };
static Fn T, F;
extern "C" { void kt_c(double *, double p, double, double, double) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE116EEC1Edddd"); void kt_c(double *, double p, double, double, double) { T.a = p; } double kt_f(double *, double x) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE116EE6GetCdfEd"); double kt_f(double *, double x) { return T.at(x); } void kt_d(void *) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE116EED1Ev"); void kt_d(void *) {}
 void kf_c(double *, double p, double q, double, double) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE102EEC1Edddd"); void kf_c(double *, double p, double q, double, double) { F.a = p; F.b = q; } double kf_f(double *, double x) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE102EE6GetCdfEd"); double kf_f(double *, double x) { return 0.5; } void kf_d(void *) __asm__("_ZN3ldt12DistributionILNS_16DistributionTypeE102EED1Ev"); void kf_d(void *) {} }
static double cdf(double t, int N) { sx_assert(T.a == N, "degrees of freedom"); sx_assert(T.used < T.x.size() && sx_eq(T.x[T.used], t), "argument of the distribution"); return T.v[T.used++]; }
static double det(const std::vector<double> &a, int n) { return n == 1 ? a[0] : n == 2 ? a[0] * a[3] - a[1] * a[2] : a[0] * (a[4] * a[8] - a[5] * a[7]) - a[3] * (a[1] * a[8] - a[2] * a[7]) + a[6] * (a[1] * a[5] - a[2] * a[4]); }
static std::vector<double> cross(const std::vector<double> &X, int T, int f) { std::vector<double> c(f * f, 0.0); for (int i = 0; i < f; i++) for (int j = 0; j < f; j++) for (int t = 0; t < T; t++) c[i + f * j] += X[t + T * i] * X[t + T * j]; return c; }
static std::vector<double> adj2(const std::vector<double> &a, int n) { if (n == 1) return {1}; return {a[3], -a[1], -a[2], a[0]}; }
// least squares of every column of y
struct Ols { int N, m, k; std::vector<double> S, b, e, W; double D; Ols(const V &y, const V &x) : N(y.r), m(y.c), k(x.c), S(cross(x.v, N, k)), b(k * m, 0.0), e(N * m), D(det(S, k)) { if (D == 0) return; auto A = adj2(S, k); for (int j = 0; j < m; j++) for (int i = 0; i < k; i++) for (int l = 0; l < k; l++) for (int t = 0; t < N; t++) b[i + k * j] += A[i + k * l] * x(t, l) * y(t, j) / D; for (int j = 0; j < m; j++) for (int t = 0; t < N; t++) { e[t + N * j] = y(t, j); for (int i = 0; i < k; i++) e[t + N * j] -= x(t, i) * b[i + k * j]; } W = cross(e, N, m); for (auto &w : W) w /= N; } };
static const double LN2PI = 1.837877066409345483560659472811;
// everything that follows from the coefficients (k x m) and the variance of the km coefficients; each result is
// compared with its definition in terms of results that are already established
static void rest(Sur &s, const V &y, const V &x, bool det_, const std::function<double(int)> &var) {
  int N = y.r, m = y.c, k = x.c; sx_assert(s.beta.RowsCount == k && s.beta.ColsCount == m && s.yhat.RowsCount == N && s.yhat.ColsCount == m && s.resid.RowsCount == N && s.resid.ColsCount == m && s.resid_var.RowsCount == m && s.resid_var.ColsCount == m, "sizes of the results"); double se = 0, sy = 0;
  for (int j = 0; j < m; j++) { double mean = 0; for (int t = 0; t < N; t++) mean += y(t, j); mean /= N; for (int t = 0; t < N; t++) { double f = 0, e = s.resid.Get0(t, j); for (int i = 0; i < k; i++) f += x(t, i) * s.beta.Get0(i, j); sx_assert(sx_eq(s.yhat.Get0(t, j), f), "fitted values"); sx_assert(sx_eq(e, y(t, j) - f), "residuals"); se += e * e; sy += (y(t, j) - mean) * (y(t, j) - mean); } }
  for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) { double w = 0; for (int t = 0; t < N; t++) w += s.resid.Get0(t, a) * s.resid.Get0(t, b); sx_assert(sx_eq(s.resid_var.Get0(a, b), w / N), "covariance of the residuals"); } const double *W = s.resid_var.Data; double D = m == 1 ? W[0] : W[0] * W[3] - W[1] * W[2]; sx_assume(D > 0); double ll = -0.5 * N * (m * LN2PI + std::log(D)) - 0.5 * m * N; sx_assert(sx_eq(s.logLikelihood, ll), "log-likelihood"); y.same(); x.same(); if (!det_) return; ll = s.logLikelihood;
  sx_assume(sy > 0); sx_assert(sx_eq(s.r2, 1 - se / sy), "coefficient of determination"); sx_assert(sx_eq(s.Aic, 2.0 * k * m - 2 * ll), "Akaike criterion"); sx_assert(sx_eq(s.Sic, std::log((double)N) * k * m - 2 * ll), "Schwarz criterion"); sx_assert(sx_eq(s.Hqic, std::log(std::log((double)N)) * 2 * k * m - 2 * ll), "Hannan-Quinn criterion");
  for (int i = 0; i < k * m; i++) { double v = var(i); if (sx_ident(v, 0)) { sx_assert(sx_eq(s.e_beta_std.Data[i], 0) && isnan_(s.e_beta_prob.Data[i]), "a restricted coefficient has no variance"); continue; } sx_assume(v > 0); double sd = s.e_beta_std.Data[i], t = s.e_beta_t.Data[i]; sx_assert(sx_eq(sd, std::sqrt(v)), "standard errors"); sx_assert(sx_eq(t, s.beta.Data[i] / sd), "t statistics"); sx_assert(sx_eq(s.e_beta_prob.Data[i], 2 * (1 - cdf(std::abs(t), N))), "probabilities"); } }
static void unres(Sur &s, const V &y, const V &x, const Ols &o, bool d) { int N = o.N, m = o.m, k = o.k;  sx_assert(s.gamma.length() == k * m, "number of the estimates"); for (int i = 0; i < k * m; i++) sx_assert(sx_eq(s.gamma.Data[i], o.b[i]), "estimates"); for (int i = 0; i < k * m; i++) sx_assert(sx_eq(s.beta.Data[i], s.gamma.Data[i]), "coefficients"); rest(s, y, x, d, [&](int i) { return s.gamma_var.Get0(i, i); }); sx_assert(s.gamma_var.RowsCount == k * m && s.gamma_var.ColsCount == k * m, "size of the variance"); for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double u = 0; for (int l = 0; l < k; l++) u += o.S[i + k * l] * s.gamma_var.Get0(a * k + l, b * k + j); sx_assert(sx_eq(u, i == j ? s.resid_var.Get0(a, b) : 0.0), "variance of the estimates"); } }
static void nums(V &x, V &y, int keep) { int N = x.r, k = x.c; std::vector<double> u(N * k); for (int i = 0; i < N * k; i++) u[i] = i < N ? 1 + (k == 1) * (i % 2) : (i % N) * (i % N) - 1; x.set(u); for (int i = 0; i < N * y.c; i++) if (i / N < y.c - (keep < 0) && i != keep) y.o[i] = y.v[i] = (i * 5 + i / N) % 4; }
// what: 0 all of the first column of y is symbolic, 1 one cell of y, 2 one cell of x
static void un(int N, int m, int k, int what) { bool d = sx_choose("details", 0, 1); V y(N, m, "y"), x(N, k, "x"); if (what == 0) nums(x, y, -1); else if (what == 1) nums(x, y, sx_choose("cell", 0, N * m - 1)); else { int c = sx_choose("cell", 0, N * k - 1); double u = x.v[c]; nums(x, y, -2); for (int i = 0; i < N; i++) y.o[i + N * (m - 1)] = y.v[i + N * (m - 1)] = 2 + i * i % 3; x.o[c] = x.v[c] = u; } Sur s(N, m, k, false, d); B b(s.StorageSize, s.WorkSize); Ols o(y, x); bool t = throws([&] { s.Calculate(y.m, x.m, b.s.get(), b.w.get()); }); if (o.D == 0) { sx_assert(t, "singular regressors are rejected"); return; } if (t) sx_assert(!(det(o.W, m) > 0), "regular data are estimated"); else unres(s, y, x, o, d); if (!t && k == 1) sx_assert(sx_eq(s.condition_number, 1), "condition number"); }
SX_ENTRY(su_un1) { un(sx_choose("N", 1, 3), 1, 1, 0); }
SX_ENTRY(su_un2) { un(3, 1, 2, 0); }
SX_ENTRY(su_un3) { un(3, 2, 1, 1); }
SX_ENTRY(su_un4) { un(4, 2, 2, 1); }
SX_ENTRY(su_un5) { un(sx_choose("N", 2, 3), 1, sx_choose("k", 1, 2), 2); }
SX_ENTRY(su_cond) { V y(3, 1, "y"), x(3, 2, "x"); int a = sx_choose("a", -2, 2); x.set({1, 1, 1, 0, (double)a, sx_real("x")}); Sur s(3, 1, 2, false, false); B b(s.StorageSize, s.WorkSize); auto S = cross(x.v, 3, 2); double D = det(S, 2); if (D == 0) return; double n1 = std::max(std::abs(S[0]) + std::abs(S[1]), std::abs(S[2]) + std::abs(S[3])), n2 = std::max(std::abs(S[3] / D) + std::abs(S[1] / D), std::abs(S[2] / D) + std::abs(S[0] / D)); bool t = throws([&] { s.Calculate(y.m, x.m, b.s.get(), b.w.get()); }); if (!t) sx_assert(sx_eq(s.condition_number, n1 * n2), "condition number"); }
// feasible generalised least squares of the restricted model, from the covariance W of the unrestricted one
static void restr(Sur &s, const V &y, const V &x, const std::vector<double> &R, int q, const std::vector<double> &W, bool d) { int N = y.r, m = y.c, k = x.c, km = k * m; auto I = adj2(W, m); double DW = det(W, m); std::vector<double> Z(N * m * q, 0.0), P(N * m * q, 0.0); for (int c = 0; c < q; c++) for (int j = 0; j < m; j++) for (int t = 0; t < N; t++) for (int i = 0; i < k; i++) Z[t + N * j + N * m * c] += x(t, i) * R[j * k + i + km * c]; for (int c = 0; c < q; c++) for (int j = 0; j < m; j++) for (int l = 0; l < m; l++) for (int t = 0; t < N; t++) P[t + N * j + N * m * c] += I[j + m * l] * Z[t + N * l + N * m * c]; std::vector<double> A(q * q, 0.0), h(q, 0.0); for (int i = 0; i < q; i++) for (int t = 0; t < N * m; t++) { h[i] += P[t + N * m * i] * y.v[t]; for (int j = 0; j < q; j++) A[i + q * j] += P[t + N * m * i] * Z[t + N * m * j]; }
  // A = DW R'[S^-1 o X'X]R, h = DW R'[S^-1 o x']vec(y)
  sx_assert(s.gamma.length() == q && s.gamma_var.RowsCount == q && s.gamma_var.ColsCount == q, "number of the estimates"); for (int i = 0; i < q; i++) { double u = 0; for (int j = 0; j < q; j++) u += A[i + q * j] * s.gamma.Data[j]; sx_assert(sx_eq(u, h[i]), "estimates"); for (int l = 0; l < q; l++) { double v = 0; for (int j = 0; j < q; j++) v += A[i + q * j] * s.gamma_var.Get0(j, l); sx_assert(sx_eq(v, i == l ? DW : 0.0), "variance of the estimates"); } }
  for (int i = 0; i < km; i++) { double v = 0; for (int j = 0; j < q; j++) v += R[i + km * j] * s.gamma.Data[j]; sx_assert(sx_eq(s.beta.Data[i], v), "coefficients"); }
  rest(s, y, x, d, [&](int r) { double v = 0; bool z = true; for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) if (R[r + km * i] != 0 && R[r + km * j] != 0) { z = false; v += R[r + km * i] * s.gamma_var.Get0(i, j) * R[r + km * j]; } return z ? 0.0 : v; }); if (q == 1) sx_assert(sx_eq(s.condition_number, 1), "condition number"); else if (m == 1) { auto n1 = [&](std::function<double(int, int)> a) { double b = 0; for (int j = 0; j < q; j++) { double u = 0; for (int i = 0; i < q; i++) u += std::abs(a(i, j)); if (u > b) b = u; } return b; }; sx_assert(sx_eq(s.condition_number * DW, n1([&](int i, int j) { return A[i + q * j]; }) * n1([&](int i, int j) { return s.gamma_var.Get0(i, j); })), "condition number"); } }
static void res(int N, int m, int k, int q, const std::vector<double> &Rv) { bool d = sx_choose("details", 0, 1); V y(N, m, "y"), x(N, k, "x"); nums(x, y, sx_choose("cell", 0, N * m - 1)); std::vector<double> ro(Rv); Mx R(ro.data(), m * k, q); Sur s(N, m, k, true, d); B b(s.StorageSize, s.WorkSize); Ols o(y, x); bool t = throws([&] { s.Calculate(y.m, x.m, b.s.get(), b.w.get(), &R); }); if (!(det(o.W, m) > 0)) { sx_assert(t, "a singular covariance is rejected"); return; } if (t) { sx_assert(false, "a regular restricted model is estimated"); return; } for (int i = 0; i < m * k * q; i++) sx_assert(ro[i] == Rv[i], "restrictions are not changed"); restr(s, y, x, Rv, q, o.W, d); }
SX_ENTRY(su_res1) { int w = sx_choose("which", 0, 3); res(3, 1, 2, 1, w == 0 ? std::vector<double>{1, 0} : w == 1 ? std::vector<double>{0, 1} : w == 2 ? std::vector<double>{1, 2} : std::vector<double>{1, -1}); }
SX_ENTRY(su_res2) { res(3, 1, 2, 2, sx_choose("swap", 0, 1) ? std::vector<double>{0, 1, 1, 0} : std::vector<double>{1, 0, 0, 1}); }
SX_ENTRY(su_res3) { int w = sx_choose("which", 0, 2); res(3, 2, 1, 1, w == 0 ? std::vector<double>{1, 0} : w == 1 ? std::vector<double>{0, 1} : std::vector<double>{1, 1}); }
SX_ENTRY(su_res4) { int w = sx_choose("which", 0, 2); res(4, 2, 2, 1, w == 0 ? std::vector<double>{1, 0, 0, 1} : w == 1 ? std::vector<double>{0, 0, 1, 0} : std::vector<double>{1, 2, -1, 0}); }
// symbolic restrictions of given data
SX_ENTRY(su_res5) { int w = sx_choose("which", 0, 2); double r = sx_real("r"); int q = w < 2 ? 2 : 3; std::vector<double> Rv = w == 0 ? std::vector<double>{1, 0, r, 0, 0, 0, 0, 1} : w == 1 ? std::vector<double>{0, 1, 0, 0, 0, r, 1, 0} : std::vector<double>{1, 0, 0, r, 0, 1, 0, 0, 0, 0, 1, 0}; bool d = sx_choose("details", 0, 1); V y(4, 2, "y"), x(4, 2, "x"); nums(x, y, -1); for (int i = 0; i < 8; i++) y.o[i] = y.v[i] = (i * i * 3 + i + 1) % 7; std::vector<double> ro(Rv); Mx R(ro.data(), 4, q); Sur s(4, 2, 2, true, d); B b(s.StorageSize, s.WorkSize); Ols o(y, x); s.Calculate(y.m, x.m, b.s.get(), b.w.get(), &R); restr(s, y, x, Rv, q, o.W, d); }
// significance search: the coefficients that are significant in one step are the ones estimated in the next
SX_ENTRY(su_search) { int k = 2, N = 3, it = sx_choose("iter", 1, 3); V y(N, 1, "y"), x(N, k, "x"); x.set({1, 1, 1, 0, 1, 2}); y.o[0] = y.v[0] = 0; y.o[1] = y.v[1] = sx_choose("y1", 0, 3); double pr = sx_real("prob"); sx_assume(pr != 0); V R(k, k, "R"); Sur s(N, 1, k, true, true, it); B b(s.StorageSize, s.WorkSize); Ols o(y, x); if (!(o.W[0] > 0)) return; bool t = throws([&] { s.Calculate(y.m, x.m, b.s.get(), b.w.get(), &R.m, pr); });
  std::vector<int> in{0, 1}; std::vector<double> be(o.b); double w = o.W[0]; std::vector<double> Rv; auto G = [&](int i) { return in.size() == 2 ? adj2(o.S, 2)[3 * i] / o.D : 1 / o.S[3 * i]; }; int n = 0; for (; n < it; n++) { std::vector<int> q; for (int i : in) { double tt = std::abs(be[i] / std::sqrt(w * G(i))); if (2 * (1 - cdf(tt, N)) <= pr) q.push_back(i); } if (q.size() == in.size()) { T.used -= in.size(); break; } if (q.empty()) { sx_assert(t, "no significant coefficient"); return; } in = q; int i = in[0]; double g = 0; for (int r = 0; r < N; r++) g += x(r, i) * y(r, 0); g /= o.S[3 * i]; be = {0, 0}; be[i] = g; }
  if (t) { sx_assert(false, "a significant coefficient is kept"); return; } sx_assert(s.mSigSearchIter == n, "number of the steps"); if (in.size() == 2) { unres(s, y, x, o, true); sx_assert(R.m.RowsCount == 2 && R.m.ColsCount == 2, "nothing is restricted"); for (int i = 0; i < 4; i++) sx_assert(sx_eq(R.m.Data[i], i % 3 == 0), "nothing is restricted"); return; } sx_assert(R.m.RowsCount == 2 && R.m.ColsCount == 1, "one coefficient is left"); for (int i = 0; i < 2; i++) sx_assert(sx_eq(R.m.Data[i], i == in[0]), "the insignificant coefficient is restricted"); restr(s, y, x, in[0] ? std::vector<double>{0, 1} : std::vector<double>{1, 0}, 1, o.W, true); }
SX_ENTRY(su_bad) { int N = sx_choose("N", 0, 4), m = sx_choose("m", 0, 2), k = sx_choose("k", 0, 2), w = sx_choose("what", 0, 6); if (!!w != (N == 3 && m == 1 && k == 2)) return; if (!w && N >= 1 && m >= 1 && k >= 1 && !(N > 3 && k == 2)) return; V y(N, m, "y"), x(w == 1 ? 4 : N, k, "x"); if (N == 3 && m == 1 && k == 2 && w != 1) x.set({1, 1, 1, 0, 1, 2}); Sur s(3, 1, 2, w >= 2, true, w >= 4 ? 2 : 0); B b(s.StorageSize, s.WorkSize); V R(w == 3 ? 3 : 2, w == 5 ? 1 : 2, "R"); bool t = throws([&] { s.Calculate(y.m, x.m, b.s.get(), b.w.get(), w < 3 || w == 4 ? nullptr : &R.m, w == 6 ? 0 : 0.05); }); if (w) sx_assert(t, "invalid restrictions and data are rejected"); else if (N < 1 || m < 1 || k < 1) sx_assert(t, "empty data are rejected"); else if (N > 3 && m >= 1 && k >= 2) sx_assert(t, "data larger than reserved are rejected"); }
// ---- projections
static void proj(int m, int k, int n, bool rs, int q) { bool var = sx_choose("variance", 0, 1); int km = k * m; V y(1, m, "y"), be(k, m, "beta"), gv(q, q, "gv"), rv(m, m, "S"), x(n, k, "x"), R(km, q, "R"); for (int i = 0; i < q; i++) for (int j = 0; j < i; j++) gv.o[i + q * j] = gv.v[i + q * j] = gv(j, i); for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) rv.o[i + m * j] = rv.v[i + m * j] = rv(j, i); Sur s; s.mIsRestricted = rs; s.pY = &y.m; s.beta = be.m; s.gamma_var = gv.m; s.resid_var = rv.m; s.pR = rs ? &R.m : nullptr; int dn = sx_choose("more", 0, 1); SurProjection p(n + dn, m, k, rs, var); B b(p.StorageSize, p.WorkSize); p.Calculate(s, x.m, b.s.get(), b.w.get()); x.same(); be.same(); gv.same(); rv.same(); R.same(); sx_assert(p.Means.RowsCount == n && p.Means.ColsCount == m, "size of the projections");
  for (int t = 0; t < n; t++) for (int j = 0; j < m; j++) { double u = 0; for (int i = 0; i < k; i++) u += x(t, i) * be(i, j); sx_assert(sx_eq(p.Means.Get0(t, j), u), "projection"); if (!var) continue; std::vector<double> z(q * m, 0.0); for (int l = 0; l < m; l++) for (int c = 0; c < q; c++) for (int i = 0; i < k; i++) z[c + q * l] += x(t, i) * (rs ? R(l * k + i, c) : c == l * k + i); for (int l = 0; l < m; l++) { double v = rv(j, l); for (int c = 0; c < q; c++) for (int e = 0; e < q; e++) v += z[c + q * j] * gv(c, e) * z[e + q * l]; if (l == j) sx_assert(sx_eq(p.Variances.Get0(t, j), v), "variance of a projection"); if (t == n - 1) sx_assert(sx_eq(p.Covariance.Get0(j, l), v), "covariance of the last projection"); } } }
SX_ENTRY(su_proj_un) { int m = sx_choose("m", 1, 2), k = sx_choose("k", 1, 2); proj(m, k, sx_choose("n", 0, 2), false, m * k); }
SX_ENTRY(su_proj_r) { int m = sx_choose("m", 1, 2), k = sx_choose("k", 1, 2); proj(m, k, sx_choose("n", 1, 2), true, sx_choose("q", 1, m * k > 2 ? 2 : m * k)); }
SX_ENTRY(su_proj_bad) { int w = sx_choose("what", 0, 2); V y(1, 1, "y"), be(2, 1, "beta"), gv(2, 2, "gv"), rv(1, 1, "S"), x(w == 0 ? 3 : 1, w == 1 ? 1 : w == 2 ? 3 : 2, "x"); Sur s; s.pY = &y.m; s.beta = be.m; s.gamma_var = gv.m; s.resid_var = rv.m; SurProjection p(2, 1, w == 2 ? 3 : 2, false, sx_choose("variance", 0, 1)); B b(p.StorageSize, p.WorkSize); sx_assert(throws([&] { p.Calculate(s, x.m, b.s.get(), b.w.get()); }), "exogenous data of another size are rejected"); }
// ---- extended: missing values, checks and projections
SX_ENTRY(su_ext) { int N = 4, k = 1, mask = std::vector<int>{0, 1, 4, 8, 6}[sx_choose("mask", 0, 4)], col = sx_choose("col", 0, 1), np = sx_choose("new", 0, 1), cn = sx_choose("nan", 0, 1), ch = sx_choose("check", 0, 5), det_ = 1; if (mask && !cn) return; if (mask > 1 && ch > 2) return; int n = 0; for (int i = 0; i < N; i++) n += !((mask >> i) & 1); if (n != 2 && n != 3 && mask) return; if (!mask && (col || !cn)) N = n = 3; V d(N, 2, "d"); { int cell = sx_choose("cell", 0, 1) * (N + 1); for (int i = 0; i < 2 * N; i++) if (i != cell) d.o[i] = d.v[i] = i < N ? (i * 5 + 1) % 4 : i - N - 1; } for (int i = 0; i < N; i++) if ((mask >> i) & 1) d.o[i + N * col] = d.v[i + N * col] = NAN; V y(n, 1, "u"), x(n, 1, "u"), nx(1, 1, "new"); int q = 0; for (int i = 0; i < N; i++) if (!((mask >> i) & 1)) { y.o[q] = y.v[q] = d(i, 0); x.o[q] = x.v[q] = d(i, 1); q++; }
  SurExtended s(N, 1, k, false, cn, det_, np, 0, true, nullptr, nullptr); B b(s.StorageSize, s.WorkSize); Ols o(y, x); SearchModelChecks c; double th = sx_real("limit"); int mi = sx_choose("min", 0, 4); if (ch != 1 && ch != 2 && mi) return; c.mCheckCN_all = ch == 0; c.MaxConditionNumber = INFINITY; if (ch == 1) c.MinObsCount = mi; if (ch == 2) c.MinDof = mi; if (ch == 3) c.MaxAic = th; if (ch == 4) c.MaxSic = th; if (ch == 5) c.MinR2 = th; bool t = throws([&] { s.Calculate(d.m, 1, b.s.get(), b.w.get(), nullptr, 0, np ? &nx.m : nullptr, &c); }); d.same(); nx.same(); if (!t && !(o.W[0] > 0)) return; bool ex = o.D == 0 || (ch == 1 && mi > n) || (ch == 2 && mi > n - 1); if (ex) { sx_assert(t, "a model that violates a check is rejected"); return; } sx_assume(o.W[0] > 0); double ll = -0.5 * n * (LN2PI + std::log(o.W[0])) - 0.5 * n, sy = 0, me = 0; for (int i = 0; i < n; i++) me += y(i, 0) / n; for (int i = 0; i < n; i++) sy += (y(i, 0) - me) * (y(i, 0) - me); sx_assume(sy > 0); double r2 = 1 - o.W[0] * n / sy; bool v = ch == 3 ? 2 - 2 * ll > th : ch == 4 ? std::log((double)n) - 2 * ll > th : ch == 5 && r2 < th; sx_assert(t == v, "exactly a model that violates a check is rejected"); if (t) return;
  sx_assert(s.Y.RowsCount == n && s.X.RowsCount == n && s.Y.ColsCount == 1 && s.X.ColsCount == 1, "size of the used data"); for (int i = 0; i < n; i++) sx_assert(sx_eq(s.Y.Data[i], y(i, 0)) && sx_eq(s.X.Data[i], x(i, 0)), "observations with missing values are left out"); unres(s.Model, y, x, o, true); if (np) { sx_assert(sx_eq(s.Projections.Means.Get0(0, 0), nx(0, 0) * o.b[0]), "projection"); sx_assert(sx_eq(s.Projections.Variances.Get0(0, 0), o.W[0] + nx(0, 0) * nx(0, 0) * o.W[0] / o.S[0]), "variance of a projection"); } }
SX_ENTRY(su_ext_bad) { int w = sx_choose("what", 0, 4); V d(w == 0 ? 4 : 3, w == 1 ? 3 : 2, "d"), nx(w == 2 ? 2 : 1, w == 3 ? 2 : 1, "new"); if (w != 1 && w) for (int i = 0; i < 3; i++) d.o[3 + i] = d.v[3 + i] = 1 + i; SurExtended s(3, 1, 1, false, true, true, 1, 0, true, nullptr, nullptr); B b(s.StorageSize, s.WorkSize); sx_assert(throws([&] { s.Calculate(d.m, w == 4 ? 3 : 1, b.s.get(), b.w.get(), nullptr, 0, &nx.m, nullptr); }), "data of another size are rejected"); }
