#include "matrix.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct N { int r, c, mask; std::unique_ptr<double[]> o; double *d; Mx m;  // matrix with every pattern of missing values
  N(int r_, int c_, int mk, const char *n = "a") : r(r_), c(c_), mask(mk), o(new double[r_ * c_]), d(o.get()), m(d, r_, c_) { for (int i = 0; i < r * c; i++) d[i] = sx_nanor(n, mk, i); }
  bool na(int i, int j) const { return (mask >> (i + r * j)) & 1; }
  double operator()(int i, int j) const { return d[i + r * j]; } };
static int pick(const char *n, int cells) { return sx_choose(n, 0, (1 << cells) - 1); }
// ---- M05 missing values
SX_ENTRY(ms_range_col) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 2); N h(r, c, pick("mask", r * c)); bool any = false; int lo = 0, hi = r - 1; bool none = false;
  for (int j = 0; j < c; j++) { int f = -1, l = -1; bool miss = false, hm = true; for (int i = 0; i < r; i++) if (!h.na(i, j)) { if (f < 0) f = i; l = i; } for (int i = f; i <= l && f >= 0; i++) miss |= h.na(i, j);
    auto g = h.m.GetRangeColumn(hm, j); if (f < 0) { sx_assert(g.IsNotValid(), "an all-missing column has no range"); none = true; } else { sx_assert(g.StartIndex == f && g.EndIndex == l && hm == miss, "range of a column"); any |= miss; lo = std::max(lo, f); hi = std::min(hi, l); } }
  bool am = true; auto g = h.m.GetRange(am); if (none || lo > hi) sx_assert(g.IsNotValid(), "columns without a common range"); else sx_assert(g.StartIndex == lo && g.EndIndex == hi && am == any, "the common range is the intersection of the ranges");
}
SX_ENTRY(ms_range_row) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 4); N h(r, c, pick("mask", r * c));
  for (int i = 0; i < r; i++) { int f = -1, l = -1; bool miss = false, hm = true; for (int j = 0; j < c; j++) if (!h.na(i, j)) { if (f < 0) f = j; l = j; } for (int j = f; j <= l && f >= 0; j++) miss |= h.na(i, j);
    auto g = h.m.GetRangeRow(hm, i); if (f < 0) sx_assert(g.IsNotValid(), "an all-missing row has no range"); else sx_assert(g.StartIndex == f && g.EndIndex == l && hm == miss, "range of a row"); }
}
static void interp(bool row) {
  int n = sx_choose("n", 1, 5), mask = pick("mask", n), other = sx_choose("other", 0, 1); std::unique_ptr<double[]> o(new double[2 * n]); Mx m(o.get(), row ? 2 : n, row ? n : 2); std::vector<double> v, w;
  for (int i = 0; i < n; i++) { double x = sx_nanor("x", mask, i), y = sx_real("y"); v.push_back(x); w.push_back(y); row ? m.Set0(other, i, x), m.Set0(1 - other, i, y) : (m.Set0(i, other, x), m.Set0(i, 1 - other, y)); }
  int f = -1, l = -1, cnt = 0, count = -7; for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { if (f < 0) f = i; l = i; } for (int i = f; i <= l && f >= 0; i++) cnt += (mask >> i) & 1;
  auto g = row ? m.InterpolateRow(count, other) : m.InterpolateColumn(count, other); if (f < 0) { sx_assert(g.IsNotValid(), "nothing to interpolate"); } else { sx_assert(g.StartIndex == f && g.EndIndex == l, "interpolation range"); sx_assert(count == cnt, "number of interpolated values"); }
  for (int i = 0; i < n; i++) { double x = row ? m.Get0(other, i) : m.Get0(i, other), y = row ? m.Get0(1 - other, i) : m.Get0(i, 1 - other); sx_assert(sx_eq(y, w[i]), "interpolation touches one line only");
    if (!((mask >> i) & 1)) sx_assert(sx_eq(x, v[i]), "interpolation keeps the data"); else if (f < 0 || i < f || i > l) sx_assert(isnan_(x), "values outside the range stay missing");
    else { int p = i, q = i; while ((mask >> p) & 1) p--; while ((mask >> q) & 1) q++; sx_assert(sx_eq(x * (q - p), v[p] * (q - i) + v[q] * (i - p)), "missing values lie on the line between their neighbours"); } }
}
SX_ENTRY(ms_interp_row) { interp(true); }
SX_ENTRY(ms_interp_col) { interp(false); }
static double special(const char *n, int k) { return k == 0 ? sx_real(n) : k == 1 ? (double)NAN : k == 2 ? (double)INFINITY : -(double)INFINITY; }
SX_ENTRY(ms_nanrow) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 2); bool inf = sx_choose("inf", 0, 1), sub = sx_choose("sub", 0, 1), neg = sx_choose("neg", 0, 1); std::unique_ptr<double[]> o(new double[r * c]); Mx m(o.get(), r, c); std::vector<int> kind;
  for (int i = 0; i < r * c; i++) { int k = sx_choose("k", 0, 2); kind.push_back(k); o[i] = special("a", k == 2 && neg ? 3 : k); }
  std::vector<int> cols, rows; if (sub) { int q = sx_choose("col", 0, c - 1); cols.push_back(q); } else for (int j = 0; j < c; j++) cols.push_back(j);
  m.GetAnyNanRow(rows, inf, sub ? &cols : nullptr); std::vector<int> ref; for (int i = 0; i < r; i++) { bool bad = false; for (int j : cols) { int k = kind[i + r * j]; bad |= k == 1 || (inf && k == 2); } if (!bad) ref.push_back(i); }
  sx_assert(rows == ref, "rows without missing (or infinite) values");
}
SX_ENTRY(ms_remove_vec) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 2); bool inf = sx_choose("inf", 0, 1); std::unique_ptr<double[]> o(new double[r * c]), s(new double[r * c]); Mx m(o.get(), r, c); std::vector<double> keep, nonan; 
  for (int i = 0; i < r * c; i++) { int k = sx_choose("k", 0, 3); o[i] = special("a", k); if (k != 1) nonan.push_back(o[i]); if (k == 0 || (k > 1 && !inf)) keep.push_back(o[i]); }
  Mx q; sx_assert(Mx::RemoveNanVector(m, q) == (int)nonan.size(), "number of non-missing values"); std::unique_ptr<double[]> s2(new double[nonan.size()]); Mx q2(s2.get(), nonan.size(), 1); sx_assert(Mx::RemoveNanVector(m, q2) == (int)nonan.size(), "length of the result"); for (size_t i = 0; i < nonan.size(); i++) sx_assert(sx_eq(s2[i], nonan[i]), "non-missing values in order");
  m.RemoveNanVector_in(inf); sx_assert(m.length() == (int)keep.size() && (c > 1 ? m.RowsCount == 1 : m.ColsCount == 1), "missing values are removed in place"); for (size_t i = 0; i < keep.size(); i++) sx_assert(sx_eq(o[i], keep[i]), "remaining values keep their order");
}
SX_ENTRY(ms_remove_cols) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 3); bool inf = sx_choose("inf", 0, 1); bool neg = sx_choose("neg", 0, 1); std::unique_ptr<double[]> o(new double[r * c]); Mx m(o.get(), r, c); std::vector<double> keep; int kc = 0;
  for (int j = 0; j < c; j++) { bool bad = false; std::vector<double> col; for (int i = 0; i < r; i++) { int k = sx_choose("k", 0, 2); o[i + r * j] = special("a", k == 2 && neg ? 3 : k); bad |= k == 1 || (inf && k == 2); col.push_back(o[i + r * j]); } if (!bad) { kc++; keep.insert(keep.end(), col.begin(), col.end()); } }
  m.RemoveColumnsAnyNan_in(inf); sx_assert(m.RowsCount == r && m.ColsCount == kc, "columns with missing values are removed"); for (size_t i = 0; i < keep.size(); i++) sx_assert(sx_eq(o[i], keep[i]), "remaining columns keep their values and order");
}
SX_ENTRY(ms_remove_colsin) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 3), k = sx_choose("k", 0, 3); N h(r, c, 0); std::vector<double> o(h.d, h.d + r * c), keep; std::vector<int> cols; for (int i = 0; i < k; i++) cols.push_back(sx_conc(sx_int("col", 0, c - 1)));
  int kc = 0; for (int j = 0; j < c; j++) { bool rm = false; for (int x : cols) rm |= x == j; if (!rm) { kc++; for (int i = 0; i < r; i++) keep.push_back(o[i + r * j]); } }
  h.m.RemoveColumnsIn(cols); sx_assert(h.m.RowsCount == r && h.m.ColsCount == kc, "the given columns are removed"); for (size_t i = 0; i < keep.size(); i++) sx_assert(sx_eq(h.d[i], keep[i]), "the other columns keep their values and order");
}
// ---- M05 statistics
static void stat(const std::vector<double> &x, double &mean, double &var, bool sample) { int n = x.size(); double s = 0, q = 0; for (double v : x) s += v; mean = s / n; for (double v : x) q += (v - mean) * (v - mean); var = q / (sample ? n - 1 : n); }
SX_ENTRY(ms_meanvar) {
  int r = sx_choose("r", 2, 3), c = sx_choose("c", 1, 2), chk = sx_choose("check", 0, 1), sm = sx_choose("sample", 0, 1); N h(r, c, chk ? pick("mask", r * c) : 0); std::vector<double> v; for (int i = 0; i < r * c; i++) if (!((h.mask >> i) & 1)) v.push_back(h.d[i]); int n = v.size();
  if (n >= 1) { double me, va, m2 = -1; stat(v, me, va, sm); sx_assert(sx_eq(h.m.Mean(chk), me), "mean of the non-missing elements"); double gv = h.m.Variance(m2, sm, chk); sx_assert(sx_eq(m2, me), "mean reported with the variance"); if (n >= 2) sx_assert(sx_eq(gv, va), "variance of the non-missing elements"); }
  double ms[2], vs[2], m3[2], v3[2]; Mx sm_(ms, c, 1), sv_(vs, c, 1), s3(m3, c, 1), s4(v3, c, 1); h.m.ColumnsMeans(sm_, chk); h.m.ColumnsVariances(sv_, sm, chk); h.m.ColumnsMeansVariances(s3, s4, sm, chk);
  for (int j = 0; j < c; j++) { std::vector<double> w; for (int i = 0; i < r; i++) if (!h.na(i, j)) w.push_back(h(i, j)); int k = w.size(), cnt = -1; double me, va, gm = -1; if (!k) continue; stat(w, me, va, sm); double gv = h.m.VarianceColumn(j, gm, cnt, sm, chk);
    sx_assert(sx_eq(gm, me) && cnt == k && sx_eq(ms[j], me) && sx_eq(m3[j], me), "mean and count of a column"); if (k >= 2) sx_assert(sx_eq(gv, va) && sx_eq(vs[j], va) && sx_eq(v3[j], va), "variance of a column"); }
}
static void covcor(bool cor) {
  int r = sx_choose("r", 2, 3), chk = sx_choose("check", 0, 1), sm = sx_choose("sample", 0, 1), a = sx_choose("a", 0, 1), b = sx_choose("b", 0, 1); N h(r, 2, chk ? pick("mask", r * 2) : 0); std::vector<double> x, y; for (int i = 0; i < r; i++) if (!h.na(i, a) && !h.na(i, b)) { x.push_back(h(i, a)); y.push_back(h(i, b)); }
  int n = x.size(), cnt = -1; double m1 = -1, m2 = -1, g1 = -1, g2 = -1; if (n < 2) return; double mx, vx, my, vy, c = 0; stat(x, mx, vx, sm); stat(y, my, vy, sm); for (int i = 0; i < n; i++) c += (x[i] - mx) * (y[i] - my); c /= sm ? n - 1 : n;
  if (!cor) { double g = h.m.CovarianceColumn(a, b, m1, m2, cnt, sm, chk); sx_assert(sx_eq(g, c), "covariance over the complete pairs"); }
  else { sx_assume(vx > 0); sx_assume(vy > 0); double g = h.m.CorrelationColumn(a, b, m1, m2, g1, g2, cnt, sm, chk); sx_assert(sx_eq(g1, vx) && sx_eq(g2, vy), "variances over the complete pairs"); sx_assert(sx_eq(g * std::sqrt(vx) * std::sqrt(vy), c), "correlation over the complete pairs"); }
  sx_assert(sx_eq(m1, mx) && sx_eq(m2, my) && cnt == n, "means and count over the complete pairs");
}
SX_ENTRY(ms_cov) { covcor(false); }
SX_ENTRY(ms_cor) { covcor(true); }
SX_ENTRY(ms_covbad) { N h(2, 2, 0); int a = sx_int("a", -2, 3), b = sx_int("b", -2, 3), n; double x, y, u, v; bool bad = a < 0 || b < 0 || a > 1 || b > 1; bool t = throws([&] { h.m.CovarianceColumn(a, b, x, y, n, true, true); }), t2 = throws([&] { h.m.CorrelationColumn(a, b, x, y, u, v, n, true, false); }); sx_assert(t == bad && t2 == bad, "column indexes outside the matrix are rejected"); }
SX_ENTRY(ms_sums) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3), k = sx_choose("k", 0, 2), op = sx_choose("op", 0, 2); N h(r, c, 0); std::vector<int> idx; for (int i = 0; i < k; i++) idx.push_back(sx_choose("idx", 0, (op == 0 ? r : c) - 1)); int n = k ? k : op == 0 ? r : c;
  double s[4]; Mx st(s, n, 1), bad(s, n + 1, 1); sx_assert(throws([&] { auto i2 = idx; if (op == 0) h.m.RowsSum(bad, i2); else if (op == 1) h.m.ColumnsSum(bad, i2); else h.m.ColumnsMean(bad, i2); }), "storage of the wrong size is rejected");
  auto i2 = idx; if (op == 0) h.m.RowsSum(st, i2); else if (op == 1) h.m.ColumnsSum(st, i2); else h.m.ColumnsMean(st, i2);
  for (int q = 0; q < n; q++) { int i = k ? idx[q] : q; double x = 0; if (op == 0) for (int j = 0; j < c; j++) x += h(i, j); else for (int j = 0; j < r; j++) x += h(j, i); if (op == 2) x /= r; sx_assert(sx_eq(s[q], x), op == 0 ? "row sum" : op == 1 ? "column sum" : "column mean"); }
  double t = 0; for (int i = 0; i < r * c; i++) t += h.d[i]; sx_assert(sx_eq(h.m.Sum(), t), "sum of all elements");
}
SX_ENTRY(ms_colvar) {
  int r = sx_choose("r", 2, 3), c = sx_choose("c", 1, 3), k = sx_choose("k", 0, 2), sm = sx_choose("sample", 0, 1); N h(r, c, 0); std::vector<int> idx; for (int i = 0; i < k; i++) idx.push_back(sx_choose("idx", 0, c - 1)); int n = k ? k : c;
  double s[16]; Mx st(s, n, n), bad(s, n, n + 1); sx_assert(throws([&] { auto i2 = idx; h.m.ColumnsVariance(bad, i2, sm); }), "storage of the wrong size is rejected"); auto i2 = idx; h.m.ColumnsVariance(st, i2, sm);
  for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) { int a = k ? idx[p] : p, b = k ? idx[q] : q; double ma = 0, mb = 0, v = 0; for (int i = 0; i < r; i++) { ma += h(i, a); mb += h(i, b); } ma /= r; mb /= r; for (int i = 0; i < r; i++) v += (h(i, a) - ma) * (h(i, b) - mb); sx_assert(sx_eq(s[p + n * q] * (sm ? r - 1 : r), v), "covariance matrix of the columns"); }
}
SX_ENTRY(ms_standard) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), op = sx_choose("op", 0, 3), isv = sx_choose("var", 0, 1); N h(r, c, 0); std::vector<double> o(h.d, h.d + r * c); double mu[2], sd[2]; Mx M(mu, c, 1), S(sd, c, 1), W(mu, c + 1, 1); for (int j = 0; j < c; j++) { mu[j] = sx_real("mu"); sd[j] = sx_range("sd", 0, 9); }
  sx_assert(throws([&] { h.m.ColumnsStandard(&W, &S, isv); }) && throws([&] { h.m.ColumnsStandard(&M, &W, isv); }), "means or deviations of the wrong length are rejected"); for (int i = 0; i < r * c; i++) sx_assert(sx_eq(h.d[i], o[i]), "a rejected operation changes nothing");
  bool t = throws([&] { h.m.ColumnsStandard(op & 1 ? &M : nullptr, op & 2 ? &S : nullptr, isv); }); sx_assert(t == (op == 0), "something to standardize with is needed"); if (t) return;
  for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) { double x = op & 1 ? o[i + r * j] - mu[j] : o[i + r * j]; if (!(op & 2)) sx_assert(sx_eq(h(i, j), x), "centred by the mean"); else if (sd[j] == 0) sx_assert(isnan_(h(i, j)), "a constant column becomes missing"); else if (isv) sx_assert(sx_eq(h(i, j) * std::sqrt(sd[j]), x), "scaled by the root of the variance"); else sx_assert(sx_eq(h(i, j) * sd[j], x), "scaled by the deviation"); }
}
SX_ENTRY(ms_extreme) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); if (r * c > 6) return; N h(r, c, 0); int i = -1, j = -1; double M = h.m.Maximum(), m = h.m.Minimum(); bool hi = false, lo = false; 
  for (int k = 0; k < r * c; k++) { sx_assert(h.d[k] <= M && h.d[k] >= m, "extremes bound every element"); hi |= sx_eq(h.d[k], M); lo |= sx_eq(h.d[k], m); } sx_assert(hi && lo, "extremes are attained");
  double x = h.m.max(i, j); sx_assert(i >= 0 && i < r && j >= 0 && j < c && sx_eq(x, M) && sx_eq(h(i, j), M), "position of the maximum"); i = j = -1; x = h.m.min(i, j); sx_assert(i >= 0 && i < r && j >= 0 && j < c && sx_eq(x, m) && sx_eq(h(i, j), m), "position of the minimum");
}
SX_ENTRY(ms_extreme_line) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); N h(r, c, 0); int op = sx_choose("op", 0, 3), row = op < 2, k = sx_choose("line", 0, (row ? r : c) - 1), p = -1; 
  double x = op == 0 ? h.m.MaximumInRow(k, p) : op == 1 ? h.m.MinimumInRow(k, p) : op == 2 ? h.m.MaximumInColumn(k, p) : h.m.MinimumInColumn(k, p); int n = row ? c : r; auto at = [&](int q) { return row ? h(k, q) : h(q, k); };
  sx_assert(p >= 0 && p < n && sx_eq(at(p), x), "position of the extreme of a row or column"); for (int q = 0; q < n; q++) sx_assert(op % 2 == 0 ? at(q) <= x : at(q) >= x, "extreme of a row or column"); for (int q = 0; q < p; q++) sx_assert(!(at(q) == x), "the first extreme is reported");
}
SX_ENTRY(ms_int) {  // integer matrices
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2); int d[4]; Matrix<int> m(d, r, c); for (int i = 0; i < r * c; i++) d[i] = sx_int("d", -2000000000, 2000000000); int M = m.Maximum(), n = m.Minimum(); bool hi = false, lo = false; for (int i = 0; i < r * c; i++) { sx_assert(d[i] <= M && d[i] >= n, "extremes bound every integer element"); hi |= d[i] == M; lo |= d[i] == n; } sx_assert(hi && lo, "integer extremes are attained");
  int v = sx_int("v", -2, 2); std::vector<int> w; m.IndicesOfVector(v, w); bool any = false, all = true; size_t q = 0; for (int i = 0; i < r * c; i++) { bool e = d[i] == v; any |= e; all &= e; if (e) { sx_assert(q < w.size() && w[q] == i, "positions of an integer value"); q++; } } sx_assert(q == w.size(), "no other positions"); sx_assert(m.Any(v) == any && m.All(v) == all, "any and all for integers");
}
SX_ENTRY(ms_find) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), vn = sx_choose("nan", 0, 1); N h(r, c, pick("mask", r * c)); double v = vn ? NAN : sx_real("v"); std::vector<int> w; h.m.IndicesOfVector(v, w); bool any = false, all = true; size_t q = 0;
  for (int i = 0; i < r * c; i++) { bool mi = (h.mask >> i) & 1, e = vn ? mi : !mi && h.d[i] == v; any |= e; all &= e; if (e) { sx_assert(q < w.size() && w[q] == i, "positions of a value"); q++; } } sx_assert(q == w.size(), "no other positions");
  sx_assert(h.m.Any(v) == any, "any element equals the value"); sx_assert(h.m.All(v) == all, "all elements equal the value"); sx_assert(h.m.HasNaN() == (h.mask != 0), "a missing value is detected");
}
SX_ENTRY(ms_equals) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), ne = sx_choose("naneq", 0, 1); N a(r, c, pick("ma", r * c)), b(r, c, pick("mb", r * c), "b"); double eps = sx_range("eps", 0, 1), diff = -1; bool eq = true; for (int i = 0; i < r * c && eq; i++) { bool x = (a.mask >> i) & 1, y = (b.mask >> i) & 1; if (x || y) eq = x && y && ne; else eq = std::fabs(a.d[i] - b.d[i]) <= eps; }
  sx_assert(a.m.Equals(b.m, eps, true, ne) == eq, "equality element by element up to the tolerance"); sx_assert(a.m.Equals(b.m, diff, eps, true, ne) == eq, "equality with the difference"); sx_assert(a.m.Equals(a.m, eps, true, ne), "a matrix equals itself");
}
SX_ENTRY(ms_equals_size) { int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), r2 = sx_choose("r2", 1, 2), c2 = sx_choose("c2", 1, 2); N a(r, c, 0), b(r2, c2, 0); for (int i = 0; i < r * c && i < r2 * c2; i++) b.d[i] = a.d[i]; bool d = r != r2 || c != c2; sx_assert(throws([&] { a.m.Equals(b.m, 0, true); }) == d, "different sizes are reported"); sx_assert(a.m.Equals(b.m, 0, false) == !d, "different sizes are not equal"); }
SX_ENTRY(ms_equalsvalue) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), ne = sx_choose("naneq", 0, 1), ig = sx_choose("ignore", 0, 1), vn = sx_choose("vnan", 0, 1), col = sx_choose("col", 0, c - 1); N a(r, c, pick("ma", r * c)); double v = vn ? NAN : sx_real("v"), eps = sx_range("eps", 0, 1); bool all = true, cl = true;
  for (int i = 0; i < r * c; i++) { bool x = (a.mask >> i) & 1, e; if (ig && (x || vn)) e = true; else if (x || vn) e = x && vn && ne; else e = std::fabs(a.d[i] - v) <= eps; all &= e; if (i / r == col) cl &= e; }
  sx_assert(a.m.EqualsValue(v, eps, ne, ig) == all, "all elements equal a value"); sx_assert(a.m.EqualsValueColumn(col, v, eps, ne, ig) == cl, "all elements of a column equal a value");
}
SX_ENTRY(ms_symmetric) { int n = sx_choose("n", 1, 3); N a(n, n, 0); double eps = sx_range("eps", 0, 1); bool s = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) s &= std::fabs(a(i, j) - a(j, i)) <= eps; sx_assert(a.m.IsSymmetric(eps) == s, "symmetry up to the tolerance"); N b(n, n + 1, 0); sx_assert(throws([&] { b.m.IsSymmetric(eps); }), "only square matrices can be symmetric"); }
// ---- M06 sorting
SX_ENTRY(so_sort) {
  int r = sx_choose("r", 1, 4), c = sx_choose("c", 1, 2); bool asc = sx_choose("asc", 0, 1); if (r * c > 6) return; N a(r, c, 0); std::vector<double> o(a.d, a.d + r * c); double s[9]; Mx st(s, r, c), bad(s, c, r + 1); sx_assert(throws([&] { a.m.Sort(bad, asc); }), "storage of the wrong size is rejected"); a.m.Sort(st, asc);
  for (int j = 0; j < c; j++) { for (int i = 1; i < r; i++) sx_assert(asc ? s[i - 1 + r * j] <= s[i + r * j] : s[i - 1 + r * j] >= s[i + r * j], "every column is ordered");
    for (int i = 0; i < r; i++) { int n1 = 0, n2 = 0; for (int k = 0; k < r; k++) { n1 += a(k, j) == a(i, j) ? 1 : 0; n2 += s[k + r * j] == a(i, j) ? 1 : 0; } sx_assert(n1 == n2, "every column keeps its values"); } }
  for (int i = 0; i < r * c; i++) sx_assert(sx_eq(a.d[i], o[i]), "sorting does not change the source");
}
SX_ENTRY(so_indices) {
  int n = sx_choose("n", 1, 4); bool asc = sx_choose("asc", 0, 1); N a(n, 1, 0); std::vector<int> w = {9}; a.m.SortIndicesVector(w, asc); sx_assert((int)w.size() == n, "one index per element"); int seen = 0; for (int x : w) { sx_assert(x >= 0 && x < n, "indexes are positions"); seen |= 1 << x; } sx_assert(seen == (1 << n) - 1, "indexes are a permutation");
  for (int i = 1; i < n; i++) { double p = a.d[w[i - 1]], q = a.d[w[i]]; sx_assert(asc ? p <= q : p >= q, "indexes order the values"); sx_assert(!(p == q) || w[i - 1] < w[i], "equal values keep their order"); }
}
SX_ENTRY(so_byvec) {
  int op = sx_choose("op", 0, 2), r = sx_choose("r", 1, 3), c = op == 0 ? 1 : sx_choose("c", 1, 3), n = op == 2 ? c : r, k = sx_choose("k", 0, 4); N a(r, c, 0); std::vector<int> w; bool bad = k != n; for (int i = 0; i < k; i++) { int x = sx_int("w", -1, 3); bad |= x < 0 || x >= n; w.push_back(x); }
  std::unique_ptr<double[]> s(new double[r * c]); for (int i = 0; i < r * c; i++) s[i] = 0; Mx st(s.get(), r, c); bool t = throws([&] { if (op == 0) a.m.SortByVector(st, w); else if (op == 1) a.m.SortRowsBy(st, w); else a.m.SortColumnsBy(st, w); }); sx_assert(t == bad, "index lists of the wrong length or with positions outside are rejected"); if (bad) return;
  for (int i = 0; i < k; i++) { int q = sx_conc(w[i]); if (op == 2) for (int j = 0; j < r; j++) sx_assert(sx_eq(s[j + r * i], a(j, q)), "columns in the given order"); else for (int j = 0; j < c; j++) sx_assert(sx_eq(s[i + r * j], a(q, j)), "rows in the given order"); }
}
SX_ENTRY(so_size) { int op = sx_choose("op", 0, 2), r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), r2 = sx_choose("r2", 1, 2), c2 = sx_choose("c2", 1, 2); N a(r, c, 0), s(r2, c2, 0); std::vector<int> w; for (int i = 0; i < (op == 0 ? r * c : op == 1 ? r : c); i++) w.push_back(i); bool t = throws([&] { if (op == 0) a.m.SortByVector(s.m, w); else if (op == 1) a.m.SortRowsBy(s.m, w); else a.m.SortColumnsBy(s.m, w); }); sx_assert(t == (op == 0 ? r * c != r2 * c2 : r != r2 || c != c2), "storage of the wrong size is rejected"); }
