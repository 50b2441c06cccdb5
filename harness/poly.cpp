#include "polynomial.h"
#include "functionx.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct V { int n; std::unique_ptr<double[]> o; std::vector<double> v; Mx m; V(int n_, const char *nm) : n(n_), o(new double[n_ ? n_ : 1]), v(n_), m(o.get(), n_, 1) { for (int i = 0; i < n; i++) v[i] = o[i] = sx_real(nm); } void same() const { for (int i = 0; i < n; i++) sx_assert(sx_eq(o[i], v[i]), "operands are not changed"); } };
static int lim(int full) { return sx_choose("limit", 0, 1) ? sx_choose("maxLength", 1, full) : INT_MAX; }
// ---- P01 polynomials
SX_ENTRY(po_data) { int n = sx_choose("n", 1, 4); bool tr = sx_choose("trim", 0, 1); V a(n, "a"); Polynomial<double> p; int d = n; if (tr) while (d > 0 && a.v[d - 1] == 0) d--; bool t = throws([&] { p.Data(a.m, tr); }); sx_assert(t == (d == 0), "a polynomial has a non-zero coefficient"); if (t) return; sx_assert(p.GetDegree() == d - 1, "degree of the last non-zero coefficient"); for (int i = 0; i < d; i++) sx_assert(sx_eq(p.Coefficients.Data[i], a.v[i]), "coefficients are kept"); double q = sx_real("q"); p.Data(q, a.o.get(), n); sx_assert(p.GetDegree() == n - 1, "degree of constant coefficients"); for (int i = 0; i < n; i++) sx_assert(sx_eq(p.Coefficients.Data[i], q), "constant coefficients"); }
SX_ENTRY(po_mul) { int n = sx_choose("n", 1, 4), m = sx_choose("m", 1, 3); V a(n, "a"), b(m, "b"); int mx = lim(n + m); Polynomial<double> p, q; p.Data(a.m, false); q.Data(b.m, false); PolynomialMultiply<double> k(n - 1, m - 1, mx); std::unique_ptr<double[]> s(new double[k.StorageSize]); for (int rep = 0; rep < 2; rep++) k.Calculate(p, q, s.get(), mx); int L = std::min(n + m - 1, mx); sx_assert(k.Result.GetDegree() == L - 1, "degree of a product"); for (int i = 0; i < L; i++) { double e = 0; for (int j = 0; j <= i; j++) if (j < n && i - j < m) e += a.v[j] * b.v[i - j]; sx_assert(sx_eq(k.Result.Coefficients.Data[i], e), "coefficients of a product"); } a.same(); b.same(); V c(n + 1, "c"); Polynomial<double> r; r.Data(c.m, false); bool t = throws([&] { k.Calculate(r, q, s.get(), mx); }); sx_assert(t == (n + m <= mx), "larger than reserved is rejected"); }
SX_ENTRY(po_pow) { int n = sx_choose("n", 1, 3), pw = sx_choose("power", 0, 3); V a(n, "a"); int full = pw * (n - 1) + 1, mx = lim(full + 1); Polynomial<double> p; p.Data(a.m, false); PolynomialPower<double> k(pw, n - 1, mx); std::unique_ptr<double[]> s(new double[k.StorageSize]), w(new double[k.WorkSize]); k.Calculate(p, pw, s.get(), w.get(), mx); std::vector<double> e{1}; for (int i = 0; i < pw; i++) { std::vector<double> f(e.size() + n - 1, 0.0); for (size_t x = 0; x < e.size(); x++) for (int y = 0; y < n; y++) f[x + y] += e[x] * a.v[y]; e = f; } int L = std::min(full, mx); sx_assert(k.Result.GetDegree() == L - 1, "degree of a power"); for (int i = 0; i < L; i++) sx_assert(sx_eq(k.Result.Coefficients.Data[i], e[i]), "coefficients of a power"); a.same(); if (pw && mx == INT_MAX) { V c(n + 1, "c"); Polynomial<double> r; r.Data(c.m, false); sx_assert(throws([&] { k.Calculate(r, pw, s.get(), w.get(), mx); }), "larger than reserved is rejected"); } }
SX_ENTRY(po_int) { int n = sx_choose("n", 1, 2), pw = sx_choose("power", 0, 3); int a[2], b[2]; for (int i = 0; i < n; i++) { a[i] = sx_int("a", -3, 3); } for (int i = 0; i < 2; i++) b[i] = sx_int("b", -3, 3); Matrix<int> A(a, n, 1), B(b, 2, 1); Polynomial<int> p, q; p.Data(A, false); q.Data(B, false); PolynomialMultiply<int> k(n - 1, 1); std::unique_ptr<int[]> s(new int[k.StorageSize]); k.Calculate(p, q, s.get()); sx_assert(s[0] == a[0] * b[0] && s[n] == a[n - 1] * b[1], "integer product"); if (n == 2) sx_assert(s[1] == a[0] * b[1] + a[1] * b[0], "integer product"); PolynomialPower<int> w(pw, n - 1); std::unique_ptr<int[]> s2(new int[w.StorageSize]), wk(new int[w.WorkSize]); w.Calculate(p, pw, s2.get(), wk.get()); int x = 1, y = 1, z = 0; for (int i = 0; i < pw; i++) { x *= a[0]; y *= a[n - 1]; z += s2[0] * 0; } sx_assert(s2[0] == x && s2[pw * (n - 1)] == y, "integer power"); }
struct PM { int d, m; std::unique_ptr<double[]> o; std::vector<double> v; PolynomialM p; PM(int deg, int m_, const char *nm, int zero = 0) : d(deg), m(m_), o(new double[(deg + 1) * m_ * m_]), v((deg + 1) * m_ * m_) { for (size_t i = 0; i < v.size(); i++) v[i] = o[i] = (int)i >= (int)v.size() - zero ? 0.0 : sx_real(nm); int u = p.Data(deg, m, o.get()); sx_assert(u == (deg + 1) * m * m && u == PolynomialM::GetStorageSize(deg, m), "storage of a matrix polynomial"); } double operator()(int k, int i, int j) const { return v[k * m * m + i + m * j]; } void same() const { for (size_t i = 0; i < v.size(); i++) sx_assert(sx_eq(o[i], v[i]), "operands are not changed"); } };
SX_ENTRY(pm_data) { int d = sx_choose("degree", 0, 2), m = sx_choose("m", 1, 2), z = sx_choose("zeros", 0, d + 1); bool tr = sx_choose("trim", 0, 1); PM a(d, m, "a", z * m * m); sx_assert(a.p.GetDegree() == d && a.p.GetSize() == m, "degree and size"); PolynomialM q; std::vector<Mx *> l = a.p.Coefficients; int e = d + 1; if (tr) for (; e > 0; e--) { bool nz = false; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) nz |= a(e - 1, i, j) != 0; if (nz) break; } for (int rep = 0; rep < 2; rep++) { bool t = throws([&] { q.Data(l, tr); }); sx_assert(t == (e == 0), "a polynomial has a non-zero coefficient"); if (t) return; sx_assert(q.GetDegree() == e - 1, "degree of the last non-zero coefficient"); for (int k = 0; k < e; k++) sx_assert(q.Coefficients[k] == l[k], "coefficients are kept"); }
  std::unique_ptr<double[]> o2(new double[2 * m * m]); for (int i = 0; i < 2 * m * m; i++) o2[i] = i; q.Data(1, m, o2.get()); sx_assert(q.GetDegree() == 1 && q.Coefficients[1]->Data == &o2[m * m], "new coefficients replace the old"); }
SX_ENTRY(pm_mul) { int d = sx_choose("d1", 0, 2), e = sx_choose("d2", 0, 1), m = sx_choose("m", 1, 2); int mx = lim(d + e + 2); PM a(d, m, "a"), b(e, m, "b"); PolynomialMMultiply k(m, d, e, mx); std::unique_ptr<double[]> s(new double[k.StorageSize]); for (int rep = 0; rep < 2; rep++) { k.Calculate(a.p, b.p, s.get(), mx); int L = std::min(d + e + 1, mx); sx_assert(k.Result.GetDegree() == L - 1, "degree of a product"); for (int q = 0; q < L; q++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double x = 0; for (int u = 0; u <= q; u++) if (u <= d && q - u <= e) for (int l = 0; l < m; l++) x += a(u, i, l) * b(q - u, l, j); sx_assert(sx_eq(k.Result.Coefficients[q]->Get0(i, j), x), "coefficients of a product"); } } a.same(); b.same(); PM c(d + 1, m, "c"); bool t = throws([&] { k.Calculate(c.p, b.p, s.get(), mx); }); sx_assert(t == (d + e + 1 < mx), "larger than reserved is rejected"); }
SX_ENTRY(pm_mulscalar) { int d = sx_choose("d1", 0, 2), n = sx_choose("n", 1, 3), m = sx_choose("m", 1, 2); int mx = lim(d + n + 1); PM a(d, m, "a"); V b(n, "b"); Polynomial<double> p; p.Data(b.m, false); PolynomialMMultiply k(m, d, n - 1, mx); std::unique_ptr<double[]> s(new double[k.StorageSize]); for (int rep = 0; rep < 2; rep++) { k.Calculate(a.p, p, s.get(), mx); int L = std::min(d + n, mx); sx_assert(k.Result.GetDegree() == L - 1, "degree of a product"); for (int q = 0; q < L; q++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double x = 0; for (int u = 0; u <= q; u++) if (u <= d && q - u < n) x += a(u, i, j) * b.v[q - u]; sx_assert(sx_eq(k.Result.Coefficients[q]->Get0(i, j), x), "coefficients of a product with a scalar polynomial"); } } a.same(); b.same(); }
static void pinv(int m, int d, int L) { PM a(d, m, "a"); PolynomialMInvert k(m, d, L); std::unique_ptr<double[]> s(new double[k.StorageSize]), w(new double[k.WorkSize]); double det = m == 1 ? a(0, 0, 0) : a(0, 0, 0) * a(0, 1, 1) - a(0, 0, 1) * a(0, 1, 0); bool sg = det == 0; for (int rep = 0; rep < 2; rep++) { bool t = throws([&] { k.Calculate(a.p, s.get(), w.get(), L); }); sx_assert(t == sg, "exactly a singular leading coefficient is rejected"); if (t) return; sx_assert(k.Result.GetDegree() == L - 1, "length of the inverse"); for (int q = 0; q < L; q++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double x = 0; for (int u = 0; u <= q && u <= d; u++) for (int l = 0; l < m; l++) x += a(u, i, l) * k.Result.Coefficients[q - u]->Get0(l, j); sx_assert(sx_eq(x, q == 0 && i == j), "product with the inverse is one up to the length"); } } a.same(); PM c(d + 1, m, "c"); sx_assert(throws([&] { k.Calculate(c.p, s.get(), w.get(), L); }), "larger than reserved is rejected"); }
SX_ENTRY(pm_inv1) { int d = sx_choose("d", 0, 3); pinv(1, d, sx_choose("len", 1, 4)); }
SX_ENTRY(pm_inv2) { int d = sx_choose("d", 0, 2); pinv(2, d, sx_choose("len", 1, 3)); }
// ---- P02 derivatives
static double fq(const double *x, int n, int deg, const double *c) { double r = c[0]; int k = 1; for (int i = 0; i < n; i++) r += c[k++] * x[i]; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) r += c[k++] * x[i] * x[j]; if (deg > 2) for (int i = 0; i < n; i++) r += c[k++] * x[i] * x[i] * x[i]; if (deg > 3) for (int i = 0; i < n; i++) r += c[k++] * x[i] * x[i] * x[i] * x[i]; return r; }
static double g1(const double *x, int n, int deg, const double *c, int a) { int k = 1 + n; double r = c[1 + a]; for (int i = 0; i < n; i++) for (int j = i; j < n; j++, k++) { if (i == a) r += c[k] * x[j]; if (j == a) r += c[k] * x[i]; } if (deg > 2) r += 3 * c[k + a] * x[a] * x[a]; k += n; if (deg > 3) r += 4 * c[k + a] * x[a] * x[a] * x[a]; return r; }
static double g2(const double *x, int n, int deg, const double *c, int a, int b) { int k = 1 + n; double r = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++, k++) r += (i == a && j == b ? c[k] : 0) + (i == b && j == a ? c[k] : 0); if (a == b && deg > 2) r += 6 * c[k + a] * x[a]; k += n; if (a == b && deg > 3) r += 12 * c[k + a] * x[a] * x[a]; return r; }
static bool nearly(double a, double b) { double d = a - b; return d <= 1e-15 && d >= -1e-15; }
static void der(int n, int deg, int cnt, bool second, bool nz) { int res = sx_choose("reserve", 0, 1); double c[20]; int nc = 1 + n + n * (n + 1) / 2 + (deg - 2) * n; for (int i = 0; i < nc; i++) c[i] = sx_real("c"); V x(n, "x"); Derivative d(n + res, !second, second, cnt); std::unique_ptr<double[]> s(new double[std::max(1, second ? d.StorageSize2 : d.StorageSize1)]), w(new double[d.WorkSize]); int calls = 0; std::function<double(const Mx &)> f = [&](const Mx &m) { calls++; sx_assert(m.RowsCount == n && m.ColsCount == 1, "the function gets points of the given shape"); return fq(m.Data, n, deg, c); };
  if (nz) for (int i = 0; i < n; i++) { double q = second ? g2(x.v.data(), n, deg, c, i, i) : g1(x.v.data(), n, deg, c, i); sx_assume(q > 0); if (deg == 3 && !second) sx_assume(c[nc - n + i] >= 0); if (deg == 4) sx_assume(c[nc - n + i] >= 0); sx_assume(q > 1e-3); } 
  if (second) { d.CalculateSecond(f, x.m, s.get(), w.get()); sx_assert(d.Result2.RowsCount == n && d.Result2.ColsCount == n, "size of the result"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sx_assert(nearly(d.Result2.Get0(i, j), g2(x.v.data(), n, deg, c, i, j)), "second derivatives"); sx_assert(throws([&] { d.CalculateFirst(f, x.m, s.get(), w.get()); }), "a derivative that was not requested is rejected"); } else { d.CalculateFirst(f, x.m, s.get(), w.get()); sx_assert(d.Result1.RowsCount == n && d.Result1.ColsCount == 1, "size of the result"); for (int i = 0; i < n; i++) sx_assert(nearly(d.Result1.Data[i], g1(x.v.data(), n, deg, c, i)), "first derivatives"); sx_assert(throws([&] { d.CalculateSecond(f, x.m, s.get(), w.get()); }), "a derivative that was not requested is rejected"); }
  x.same(); V y(n + res + 1, "y"); sx_assert(throws([&] { if (second) d.CalculateSecond(f, y.m, s.get(), w.get()); else d.CalculateFirst(f, y.m, s.get(), w.get()); }), "more dimensions than reserved are rejected"); }
SX_ENTRY(d1_quad) { der(sx_choose("n", 1, 2), 2, sx_choose("count", 1, 3), false, false); }
SX_ENTRY(d1_cubic) { der(1, 3, 3, false, true); }
SX_ENTRY(d2_quad) { der(sx_choose("n", 1, 2), 2, sx_choose("count", 1, 3), true, false); }
SX_ENTRY(d2_cubic) { der(1, 3, 2, true, true); }
SX_ENTRY(d2_quartic) { der(1, 4, 3, true, true); }
