#include "varma.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct V { int r, c; std::unique_ptr<double[]> o; std::vector<double> v; Mx m; V(int r_, int c_, const char *nm) : r(r_), c(c_), o(new double[r_ * c_ + 1]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_real(nm); } double operator()(int i, int j) const { return v[i + r * j]; } void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "data are not changed"); } };
static std::vector<int> lags(int p, int P, int s) { std::vector<int> l; for (int i = 1; i <= std::max(p, P * s); i++) if (i <= p || (s && i % s == 0)) l.push_back(i); return l; }
static std::vector<int> dpoly(int d, int D, int s) { std::vector<int> e{1}; for (int k = 0; k < d + D; k++) { int g = k < d ? 1 : s; std::vector<int> f(e.size() + g, 0); for (size_t i = 0; i < e.size(); i++) { f[i] += e[i]; f[i + g] -= e[i]; } e = f; } return e; }
// ---- T01
SX_ENTRY(vs_lags) { int p = sx_choose("p", 0, 5), q = sx_choose("q", 0, 2), P = sx_choose("P", 0, 2), Q = sx_choose("Q", 0, 2), s = sx_choose("s", 0, 4); int n = sx_int("obs", 1, 1000), g = sx_int("eqs", 1, 5), x = sx_int("exo", 0, 5); int se = s < 2 ? 0 : s; bool bad = (!se && (P || Q)) || !(p || q || P || Q); std::unique_ptr<VarmaSizes> z; bool t = throws([&] { z.reset(new VarmaSizes(n, g, x, p, 0, q, P, 0, Q, s)); }); sx_assert(t == bad, "exactly impossible models are rejected"); if (t) return; auto a = lags(p, P, se), m = lags(q, Q, se); sx_assert(z->ArLags == a, "lags of the autoregressive part"); sx_assert(z->MaLags == m, "lags of the moving average part"); int la = (int)a.size(), lm = (int)m.size(), ma = la ? a.back() : 0, mm = lm ? m.back() : 0; sx_assert(z->ArLength == la && z->MaLength == lm && z->ArMax == ma && z->MaMax == mm, "number and maximum of the lags"); sx_assert(z->HasAr == (la > 0) && z->HasMa == (lm > 0) && !z->HasDiff && z->HasArExo == (la > 0 || x > 0), "parts of the model"); sx_assert(z->MaStart == la * g + x && z->NumParamsEq == la * g + x + lm * g && z->NumParams == g * (la * g + x + lm * g), "number of parameters"); sx_assert(z->T == n - ma && z->ArMax_d == ma && z->DiffDegree == 0, "number of observations"); }
SX_ENTRY(vs_diff) { int d = sx_choose("d", 0, 3), D = sx_choose("D", 0, 2), s = sx_choose("s", 0, 4), p = sx_choose("p", 1, 2), n = sx_int("obs", 1, 1000); std::unique_ptr<VarmaSizes> z; bool bad = s < 2 && D; bool t = throws([&] { z.reset(new VarmaSizes(n, 1, 0, p, d, 0, 0, D, 0, s)); }); sx_assert(t == bad, "exactly impossible models are rejected"); if (t) return; auto e = dpoly(d, D, s); for (int rep = 0; rep < 2; rep++) { sx_assert(z->DiffPoly == e, "polynomial of the differences"); sx_assert(z->DiffDegree == (int)e.size() - 1 && z->HasDiff == (e.size() > 1) && z->ArMax_d == p + (int)e.size() - 1 && z->T == n - p - (int)e.size() + 1, "observations lost by differencing"); z->Calculate(); } }
SX_ENTRY(vs_bad) { int v[6]; bool neg = false; for (int i = 0; i < 6; i++) { v[i] = sx_int("param", -2, i == 1 || i == 4 ? 1 : 1); neg = neg | (v[i] < 0); } bool t = throws([&] { VarmaSizes z(50, 1, 0, v[0], v[1], v[2], v[3], v[4], v[5], 4); }); sx_assert(t == (neg | ((v[0] == 0) & (v[2] == 0) & (v[3] == 0) & (v[5] == 0))), "exactly negative or empty parameters are rejected"); }
SX_ENTRY(vs_names) { int p = sx_choose("p", 0, 2), q = sx_choose("q", 0, 1), g = sx_choose("eqs", 1, 2), x = sx_choose("exo", 0, 2); if (!p && !q) return; VarmaSizes z(20, g, x, p, 0, q, 0, 0, 0, 0); std::vector<std::string> en{"a", "b"}, ex{"x", "y"}, r, e; en.resize(g); ex.resize(x); VarmaStorage::GetExpNames(z, en, ex, r); for (int l = 1; l <= p; l++) for (auto &n : en) e.push_back(n + "(-" + std::to_string(l) + ")"); for (auto &n : ex) e.push_back(n); for (int l = 1; l <= q; l++) for (auto &n : en) e.push_back(n + ": e(-" + std::to_string(l) + ")"); sx_assert(r == e, "names of the columns of the coefficient matrix"); sx_assert((int)r.size() == z.NumParamsEq, "a name for every coefficient"); }
SX_ENTRY(df_diff) { int d = sx_choose("d", 0, 2), D = sx_choose("D", 0, 1), s = sx_choose("s", 2, 3), g = sx_choose("eqs", 1, 2); if (!d && !D) return; auto e = dpoly(d, D, s); int h = (int)e.size() - 1, n = h + sx_choose("n", 1, 3); V y(g, n, "y"); std::unique_ptr<double[]> o(new double[g * (n - h)]); Mx m(o.get(), g, n - h); for (int i = 0; i < g * (n - h); i++) o[i] = sx_real("old"); Varma::Difference(e, y.m, m); for (int t = h; t < n; t++) for (int i = 0; i < g; i++) { double x = 0; for (int k = 0; k <= h; k++) x += e[k] * y(i, t - k); sx_assert(sx_eq(m.Get0(i, t - h), x), "differences"); } y.same();
  std::unique_ptr<double[]> u(new double[g * n]); Mx w(u.get(), g, n); for (int t = 0; t < n; t++) for (int i = 0; i < g; i++) w.Set0(i, t, t < h ? y(i, t) : m.Get0(i, t - h)); Varma::UnDiferences(e, w); for (int t = 0; t < n; t++) for (int i = 0; i < g; i++) sx_assert(sx_eq(w.Get0(i, t), y(i, t)), "the series is recovered from its differences and first values"); }
// ---- T02
static void arma(int g, int p, int q, int P, int d, int x, int cnt) { VarmaSizes z(50, g, x, p, d, q, P, 0, 0, P ? 3 : 0); V pi(g, z.NumParamsEq, "pi"); VarmaArma a(z, cnt); std::unique_ptr<double[]> s(new double[a.StorageSize]), w(new double[a.WorkSize ? a.WorkSize : 1]); auto L = z.ArLags, M = z.MaLags; for (int rep = 0; rep < 2; rep++) { a.Calculate(pi.m, s.get(), w.get()); std::vector<std::vector<double>> A(z.ArMax + 1, std::vector<double>(g * g, 0.0)), B(z.MaMax + 1, std::vector<double>(g * g, 0.0)); for (int i = 0; i < g; i++) A[0][i + g * i] = B[0][i + g * i] = 1; for (size_t k = 0; k < L.size(); k++) for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) A[L[k]][i + g * j] = -pi(i, (int)k * g + j); for (size_t k = 0; k < M.size(); k++) for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) B[M[k]][i + g * j] = pi(i, (int)L.size() * g + x + (int)k * g + j); sx_assert(a.Ar.GetDegree() == z.ArMax && a.Ma.GetDegree() == z.MaMax, "degree of the polynomials"); for (int k = 0; k <= z.ArMax; k++) for (int i = 0; i < g * g; i++) sx_assert(sx_eq(a.Ar.Coefficients[k]->Data[i], A[k][i]), "autoregressive polynomial"); for (int k = 0; k <= z.MaMax; k++) for (int i = 0; i < g * g; i++) sx_assert(sx_eq(a.Ma.Coefficients[k]->Data[i], B[k][i]), "moving average polynomial");
    auto dp = dpoly(d, 0, 0); std::vector<std::vector<double>> AD(A.size() + dp.size() - 1, std::vector<double>(g * g, 0.0)); for (size_t k = 0; k < A.size(); k++) for (size_t l = 0; l < dp.size(); l++) for (int i = 0; i < g * g; i++) AD[k + l][i] += A[k][i] * dp[l]; std::vector<std::vector<double>> F; for (int n = 0; n < cnt; n++) { std::vector<double> f(g * g, 0.0); if (n < (int)B.size()) f = B[n]; for (int k = 1; k <= n && k < (int)AD.size(); k++) for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) for (int l = 0; l < g; l++) f[i + g * j] -= AD[k][i + g * l] * F[n - k][l + g * j]; F.push_back(f); } for (int n = 0; n < cnt; n++) for (int i = 0; i < g * g; i++) sx_assert(sx_eq(a.MaInf.Coefficients.at(n)->Data[i], F[n][i]), "coefficients of the infinite moving average"); } pi.same(); }
SX_ENTRY(ar_uni) { int p = sx_choose("p", 0, 2), q = sx_choose("q", 0, 2); if (!p && !q) return; arma(1, p, q, 0, sx_choose("d", 0, 2), sx_choose("exo", 0, 1), sx_choose("count", 0, 4)); }
SX_ENTRY(ar_season) { int p = sx_choose("p", 0, 4), q = sx_choose("q", 0, 1); arma(1, p, q, 1, sx_choose("d", 0, 1), 0, sx_choose("count", 0, 4)); }
SX_ENTRY(ar_multi) { int p = sx_choose("p", 0, 2), q = sx_choose("q", 0, 1); if (!p && !q) return; arma(2, p, q, 0, sx_choose("d", 0, 1), sx_choose("exo", 0, 1), sx_choose("count", 0, 3)); }
SX_ENTRY(ar_size) { VarmaSizes z(50, 1, 0, 1, 0, 1); VarmaArma a(z, 2); std::unique_ptr<double[]> s(new double[a.StorageSize]), w(new double[a.WorkSize]); int c = sx_choose("cols", 1, 3); V pi(1, c, "pi"); sx_assert(throws([&] { a.Calculate(pi.m, s.get(), w.get()); }) == (c != 2), "coefficients of another model are rejected"); }
SX_ENTRY(re_final) { int g = sx_choose("eqs", 1, 3), p = sx_choose("p", 0, 2), q = sx_choose("q", 0, 2), x = sx_choose("exo", 0, 1); if (!p && !q) return; VarmaSizes z(50, g, x, p, 0, q); VarmaRestriction r(z, VarmaRestrictionType::kMaFinal); sx_assert(r.IsRestricted == (g > 1 && q > 0), "a restriction needs several equations and a moving average"); if (!r.IsRestricted) { r.Calculate(nullptr); return; } std::unique_ptr<double[]> s(new double[r.StorageSize]); for (int i = 0; i < r.StorageSize; i++) s[i] = sx_real("old"); r.Calculate(s.get()); int free_ = z.MaStart * g; sx_assert(r.R.RowsCount == z.NumParams && r.R.ColsCount == free_ + q, "size of the restriction matrix"); V ga(free_ + q, 1, "gamma"); std::vector<double> pi(z.NumParams, 0.0); for (int i = 0; i < z.NumParams; i++) for (int j = 0; j < free_ + q; j++) pi[i] += r.R.Get0(i, j) * ga.v[j]; for (int i = 0; i < free_; i++) sx_assert(sx_eq(pi[i], ga.v[i]), "other coefficients are free"); for (int k = 0; k < q; k++) for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) sx_assert(sx_eq(pi[free_ + k * g * g + i + g * j], i == j ? ga.v[free_ + k] : 0.0), "moving average matrices are multiples of the identity"); }
SX_ENTRY(re_general) { VarmaSizes z(50, sx_choose("eqs", 1, 2), 0, 1, 0, sx_choose("q", 0, 1)); int n = z.NumParams, res = sx_choose("reserve", 0, 2); int mask = sx_choose("which", 0, (1 << std::min(n, 4)) - 1); std::vector<int> idx; for (int i = 0; i < n && i < 4; i++) if ((mask >> i) & 1) idx.push_back(n - 1 - i); int k = (int)idx.size(); if (k >= n || res >= n) return; std::unique_ptr<VarmaRestriction> r; bool t = throws([&] { r.reset(new VarmaRestriction(z, VarmaRestrictionType::kGeneral, res)); }); sx_assert(t == (res <= 0), "a restriction is required"); if (t) return; std::unique_ptr<double[]> s(new double[r->StorageSize]); for (int i = 0; i < r->StorageSize; i++) s[i] = sx_real("old"); sx_assert(throws([&] { r->Calculate(s.get()); }), "indexes are required"); t = throws([&] { r->Calculate(s.get(), &idx); }); sx_assert(t == (k < res), "fewer restrictions than reserved are rejected"); if (t) return; sx_assert(r->R.RowsCount == n && r->R.ColsCount == n - k, "size of the restriction matrix"); int c = 0; for (int i = 0; i < n; i++) { bool rs = false; for (int y : idx) rs |= y == i; for (int j = 0; j < n - k; j++) sx_assert(r->R.Get0(i, j) == (!rs && j == c ? 1.0 : 0.0), "restricted coefficients are zero and others are free"); if (!rs) c++; } }
