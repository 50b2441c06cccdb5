// Forecasts of an estimated model; the estimates are given directly
#include "varma.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct V { int r, c; std::unique_ptr<double[]> o; std::vector<double> v; Mx m; V(int r_, int c_, const char *nm) : r(r_), c(c_), o(new double[r_ * c_ + 1]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_real(nm); } double operator()(int i, int j) const { return v[i + r * j]; } void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "data are not changed"); } };
static std::vector<int> dpoly(int d, int D, int s) { std::vector<int> e{1}; for (int k = 0; k < d + D; k++) { int g = k < d ? 1 : s; std::vector<int> f(e.size() + g, 0); for (size_t i = 0; i < e.size(); i++) { f[i] += e[i]; f[i + g] -= e[i]; } e = f; } return e; }
struct Spec { int g = 1, p = 0, P = 0, s = 0, d = 0, D = 0, q = 0, Q = 0, x = 0, n = 4, se = 0, H = 2, R = 2; bool var = true; };
// estimated model with arbitrary estimates
struct M { Spec k; VarmaSizes z; Varma v; std::unique_ptr<double[]> st; std::vector<double> pi, y, e, sg; int T; V lev; M(Spec k_) : k(k_), z(k.n, k.g, k.x, k.p, k.d, k.q, k.P, k.D, k.Q, k.s), v(z, false, true), st(new double[v.Result.StorageSize]), lev(k.g, k.n, "level") { T = z.T - k.se; if (T < 1) return; v.Sizes = z; v.SampleEnd = k.se; auto &A = v.Result; A.SetStorage(st.get(), z, k.se); auto fill = [](Mx &m, std::vector<double> &u, const char *nm) { for (int i = 0; i < m.length(); i++) { m.Data[i] = sx_real(nm); u.push_back(m.Data[i]); } }; fill(A.coef, pi, "pi"); auto dp = dpoly(k.d, k.D, k.s); for (int t = 0; t < T; t++) for (int i = 0; i < k.g; i++) { double u = 0; for (size_t l = 0; l < dp.size(); l++) u += dp[l] * lev(i, z.ArMax_d + t - (int)l); A.y.Set0(i, t, u); y.push_back(u); } fill(A.resid, e, "resid"); for (int i = 0; i < k.g; i++) for (int j = 0; j <= i; j++) { A.sigma2.Set0(i, j, sx_real("sigma")); A.sigma2.Set0(j, i, A.sigma2.Get0(i, j)); } for (int i = 0; i < k.g * k.g; i++) sg.push_back(A.sigma2.Data[i]); } };
typedef std::vector<double> Ve;
static Ve mul(const Ve &a, const Ve &b, int g) { Ve c(g * g, 0.0); for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) for (int l = 0; l < g; l++) c[i + g * j] += a[i + g * l] * b[l + g * j]; return c; }
static void fc(Spec k, bool isnew, int ask) { M m(k); int g = k.g, T = m.T, f = m.z.NumParamsEq, H = ask == -1 ? k.R : ask; if (T < 1) return; VarmaForecast o(m.z, k.R, k.var); std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]); for (int i = 0; i < o.StorageSize; i++) st[i] = sx_real("old"); V &lev = m.lev; int xc = isnew ? k.H : k.n - k.se + k.H; V x(k.x ? k.x : 1, xc ? xc : 1, "x"); auto dp = dpoly(k.d, k.D, k.s); int dd = (int)dp.size() - 1; bool fits = H <= k.R && (!k.x || k.H >= H), enough = T >= m.z.ArMax_d && T >= m.z.MaMax;
  bool t = throws([&] { o.Calculate(m.v, k.x ? &x.m : nullptr, dd ? &lev.m : nullptr, st.get(), w.get(), ask, isnew); }); if (!fits) { if (!isnew || H > k.R) sx_assert(t, "a horizon beyond the reserved one or the exogenous data is rejected"); return; } if (enough) sx_assert(!t, "a possible forecast is not rejected"); if (T < m.z.ArMax) sx_assert(t, "a sample shorter than the lags is rejected"); if (t) return; lev.same(); x.same(); int s0 = o.StartIndex; sx_assert(o.Forecast.RowsCount == g && o.Forecast.ColsCount == s0 + H && s0 == m.z.ArMax_d, "size of the forecasts");
  std::vector<Ve> d; for (int t2 = 0; t2 < T; t2++) d.push_back(Ve(m.y.begin() + g * t2, m.y.begin() + g * t2 + g)); std::vector<Ve> L; for (int t2 = 0; t2 < dd; t2++) { Ve u(g); for (int i = 0; i < g; i++) u[i] = lev(i, k.n - k.se - dd + t2); L.push_back(u); }
  for (int h = 0; h < H; h++) { Ve u(g, 0.0); for (int i = 0; i < g; i++) { int c = 0; for (int l : m.z.ArLags) for (int j = 0; j < g; j++, c++) u[i] += m.pi[i + g * c] * d.at(T + h - l)[j]; for (int j = 0; j < k.x; j++, c++) u[i] += m.pi[i + g * c] * x(j, isnew ? h : k.n - k.se + h); for (int l : m.z.MaLags) for (int j = 0; j < g; j++, c++) { int q = T + h - l; if (q >= 0 && q < T) u[i] += m.pi[i + g * c] * m.e[j + g * q]; } } d.push_back(u); Ve v(u); for (int i = 0; i < g; i++) for (int l = 1; l <= dd; l++) v[i] -= dp[l] * L[L.size() - l][i]; if (dd) L.push_back(v); for (int i = 0; i < g; i++) sx_assert(sx_eq(o.Forecast.Get0(i, s0 + h), v[i]), "forecast continues the series by its equation"); }
  if (k.var) { std::vector<Ve> A(m.z.ArMax + 1, Ve(g * g, 0.0)), Bm(m.z.MaMax + 1, Ve(g * g, 0.0)); for (int i = 0; i < g; i++) A[0][i + g * i] = Bm[0][i + g * i] = 1; int c = 0; for (int l : m.z.ArLags) for (int j = 0; j < g; j++, c++) for (int i = 0; i < g; i++) A[l][i + g * j] = -m.pi[i + g * c]; c += k.x; for (int l : m.z.MaLags) for (int j = 0; j < g; j++, c++) for (int i = 0; i < g; i++) Bm[l][i + g * j] = m.pi[i + g * c]; std::vector<Ve> AD(A.size() + dd, Ve(g * g, 0.0)), F; for (size_t a = 0; a < A.size(); a++) for (int b = 0; b <= dd; b++) for (int i = 0; i < g * g; i++) AD[a + b][i] += A[a][i] * dp[b]; Ve tot(g, 0.0); for (int h = 0; h < H; h++) { Ve u = h < (int)Bm.size() ? Bm[h] : Ve(g * g, 0.0); for (int l = 1; l <= h && l < (int)AD.size(); l++) { auto q = mul(AD[l], F[h - l], g); for (int i = 0; i < g * g; i++) u[i] -= q[i]; } F.push_back(u); for (int i = 0; i < g; i++) { for (int a = 0; a < g; a++) for (int b = 0; b < g; b++) tot[i] += u[i + g * a] * m.sg[a + g * b] * u[i + g * b]; sx_assert(sx_eq(o.Variance.Get0(i, s0 + h), tot[i]), "forecast variance cumulates the moving average representation"); } } for (int j = 0; j < s0; j++) for (int i = 0; i < g; i++) sx_assert(sx_eq(o.Variance.Get0(i, j), 0), "observed values have no variance"); } }
SX_ENTRY(vf_ar) { Spec k; k.p = sx_choose("p", 1, 2); k.x = sx_choose("exo", 0, 1); k.n = 6; k.se = sx_choose("end", 0, 1); k.H = k.R = 3; fc(k, sx_choose("new", 0, 1), -1); }
SX_ENTRY(vf_diff) { Spec k; k.p = 1; k.d = sx_choose("d", 1, 2); k.n = k.p + k.d + 3; k.se = sx_choose("end", 0, 1); k.H = k.R = 2; fc(k, sx_choose("new", 0, 1), -1); }
SX_ENTRY(vf_season) { Spec k; k.s = 2; k.P = sx_choose("P", 0, 1); k.D = sx_choose("D", 0, 1); k.q = sx_choose("q", 0, 1); if (!k.P && !k.q) return; k.n = 2 * k.P + 2 * k.D + sx_choose("n", 1, 4); k.H = k.R = 3; fc(k, sx_choose("new", 0, 1), -1); }
SX_ENTRY(vf_ma) { Spec k; k.q = sx_choose("q", 1, 3); k.p = sx_choose("p", 0, 1); k.x = sx_choose("exo", 0, 1); k.n = k.p + sx_choose("n", 1, 4); k.se = sx_choose("end", 0, 1); k.H = k.R = 3; fc(k, sx_choose("new", 0, 1), -1); }
SX_ENTRY(vf_multi) { Spec k; k.g = 2; k.p = sx_choose("p", 0, 1); k.q = sx_choose("q", 0, 1); if (!k.p && !k.q) return; k.d = sx_choose("d", 0, 1); k.x = sx_choose("exo", 0, 1); k.n = 4; k.H = k.R = 2; fc(k, sx_choose("new", 0, 1), -1); }
SX_ENTRY(vf_horizon) { Spec k; k.p = 1; k.x = sx_choose("exo", 0, 1); k.n = 4; k.R = sx_choose("reserve", 1, 3); k.H = sx_choose("data", 1, 3); k.var = sx_choose("variance", 0, 1); fc(k, false, sx_choose("ask", 1, 3)); }
SX_ENTRY(vf_short) { Spec k; k.p = sx_choose("p", 0, 1); k.P = sx_choose("P", 0, 1); k.Q = sx_choose("Q", 0, 1); k.s = 3; k.d = sx_choose("d", 0, 1); if (!k.p && !k.P && !k.Q) return; k.n = 3 * k.P + k.d + sx_choose("n", 1, 4); k.se = sx_choose("end", 0, 1); k.H = k.R = 2; fc(k, sx_choose("new", 0, 1), -1); }
