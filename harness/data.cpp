#include "matrix_utils.h"
#include "data_split.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct D { int r, c, mask; std::unique_ptr<double[]> o; std::vector<double> v; Mx m;
  D(int r_, int c_, int mk, const char *n = "a") : r(r_), c(c_), mask(mk), o(new double[r_ * c_]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_nanor(n, mk, i); }
  bool na(int i, int j) const { return (mask >> (i + r * j)) & 1; }
  double operator()(int i, int j) const { return v[i + r * j]; }
  void same(const char *msg) const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), msg); } };
static int pick(const char *n, int cells) { return sx_choose(n, 0, (1 << cells) - 1); }
static std::vector<int> ids(const char *n, int k, int hi) { std::vector<int> r; for (int i = 0; i < k; i++) r.push_back(sx_choose(n, 0, hi)); return r; }
// ---- D01
SX_ENTRY(ds_select) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3), k = sx_choose("k", 1, 2); bool hn = sx_choose("hasnan", 0, 1); D d(r, c, hn ? pick("mask", r * c) : 0); auto ix = ids("col", k, c - 1);
  Dataset<double> ds(r, k, hn, true); std::unique_ptr<double[]> st(new double[ds.StorageSize]); ds.Calculate(d.m, &ix, st.get()); std::vector<int> rows; for (int i = 0; i < r; i++) { bool ok = true; for (int j : ix) ok &= !d.na(i, j); if (ok) rows.push_back(i); }
  sx_assert(ds.Result.RowsCount == (int)rows.size() && ds.Result.ColsCount == k, "size of the selected data"); for (size_t i = 0; i < rows.size(); i++) for (int j = 0; j < k; j++) sx_assert(sx_eq(st[i + rows.size() * j], d(rows[i], ix[j])), "complete rows of the selected columns, in order"); d.same("the source is not changed");
}
SX_ENTRY(ds_all) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); bool hn = sx_choose("hasnan", 0, 1); D d(r, c, hn ? pick("mask", r * c) : 0); Dataset<double> ds(r, c, hn, false); std::unique_ptr<double[]> st(new double[ds.StorageSize]); ds.Calculate(d.m, nullptr, st.get());
  std::vector<int> rows; for (int i = 0; i < r; i++) { bool ok = true; for (int j = 0; j < c; j++) ok &= !d.na(i, j); if (ok) rows.push_back(i); } int n = rows.size(); sx_assert(ds.Result.RowsCount == n && ds.Result.ColsCount == c, "size of the complete data");
  for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) sx_assert(sx_eq(st[i + n * j], d(rows[i], j)), "complete rows, in order"); d.same("the source is not changed");
}
SX_ENTRY(ds_bad) { int r = sx_int("r", -2, 3), c = sx_int("c", -2, 3); sx_assert(throws([&] { Dataset<double> q(r, c, true, true); }) == (r <= 0 || c <= 0), "an empty dataset is rejected"); sx_assert(throws([&] { DatasetTs<true, double> q(r, c); }) == (r <= 0 || c <= 0), "an empty time series dataset is rejected"); sx_assert(throws([&] { DatasetTs<false, int> q(2, 2, true, true); }), "integers have no missing value"); sx_assert(throws([&] { MatrixStandardized<double> q(r, c); }) == (r <= 0 || c <= 0), "an empty matrix is rejected");
  D d(2, 2, 0); Dataset<double> ds(2, 2, sx_choose("hn", 0, 1), true); double st[4]; sx_assert(throws([&] { ds.Calculate(d.m, nullptr, st); }), "the columns to select are required"); std::vector<int> ix{0, sx_int("col", -2, 4)}; bool t = throws([&] { ds.Calculate(d.m, &ix, st); }); sx_assert(t == (ix[1] < 0 || ix[1] > 1), "columns outside the data are rejected"); }
// ---- D02
template <bool byRow> static void ts_data(DatasetTs<byRow, double> &t, D &d, bool hn) {
  int nv = byRow ? d.r : d.c, no = byRow ? d.c : d.r; bool allmissing = false; std::vector<int> f(nv, -1), l(nv, -1), miss; for (int i = 0; i < nv; i++) { for (int q = 0; q < no; q++) if (!(byRow ? d.na(i, q) : d.na(q, i))) { if (f[i] < 0) f[i] = q; l[i] = q; } if (f[i] < 0) allmissing = true; else for (int q = f[i]; q <= l[i]; q++) if (byRow ? d.na(i, q) : d.na(q, i)) { miss.push_back(i); break; } }
  bool th = throws([&] { t.Data(d.m); }); sx_assert(th == (hn && allmissing), "a variable without data is rejected"); if (th) return; if (!hn) { for (int i = 0; i < nv; i++) f[i] = 0, l[i] = no - 1; }
  else { sx_assert(t.HasMissingData == !miss.empty(), "missing data inside the range is reported"); sx_assert(t.WithMissingIndexes.size() == miss.size(), "number of variables with missing data"); for (size_t i = 0; i < miss.size(); i++) sx_assert(std::get<0>(t.WithMissingIndexes[i]) == miss[i], "variables with missing data"); sx_assert((int)t.Ranges.size() == nv, "one range per variable"); for (int i = 0; i < nv; i++) sx_assert(t.Ranges[i].StartIndex == f[i] && t.Ranges[i].EndIndex == l[i], "range of a variable"); }
  bool sel = sx_choose("sel", 0, 1); std::vector<int> ix; if (sel) ix = ids("var", sx_choose("k", 1, 2), nv - 1); else for (int i = 0; i < nv; i++) ix.push_back(i);
  // (select is a constructor argument: a second object sharing the data)
  DatasetTs<byRow, double> u(std::max(d.r, 2), std::max(d.c, 2), hn, sel); u.Data(d.m); std::unique_ptr<double[]> st(new double[u.StorageSize]); int lo = 0, hi = no - 1; for (int i : ix) lo = std::max(lo, f[i]), hi = std::min(hi, l[i]);
  bool st0 = sx_choose("storage", 0, 1); bool t2 = throws([&] { u.Update(&ix, st0 ? st.get() : nullptr); }); if (lo > hi) { sx_assert(t2 || u.Start > u.End, "variables without a common range are detected"); return; }
  sx_assert(!t2, "the common range exists"); sx_assert(u.Start == lo && u.End == hi, "start and end of the common range"); int n = hi - lo + 1, k = ix.size(); sx_assert(u.Result.RowsCount == (byRow ? k : n) && u.Result.ColsCount == (byRow ? n : k), "size of the data");
  if (st0) for (int i = 0; i < k; i++) for (int q = 0; q < n; q++) sx_assert(sx_eq(byRow ? st[i + k * q] : st[q + n * i], byRow ? d(ix[i], lo + q) : d(lo + q, ix[i])), "observations of the common range"); d.same("the source is not changed");
}
template <bool byRow> static void ts(bool hn) { int a = sx_choose("vars", 1, 2), b = sx_choose("obs", 1, 3); int r = byRow ? a : b, c = byRow ? b : a; D d(r, c, hn ? pick("mask", r * c) : 0); DatasetTs<byRow, double> t(2, 3, hn, false); ts_data<byRow>(t, d, hn); }
SX_ENTRY(ts_row) { ts<true>(true); }
SX_ENTRY(ts_col) { ts<false>(true); }
SX_ENTRY(ts_full) { if (sx_choose("byrow", 0, 1)) ts<true>(false); else ts<false>(false); }
template <bool byRow> static void again() { DatasetTs<byRow, double> t(2, 3, true, true); D a(2, 3, pick("first", 6)); throws([&] { t.Data(a.m); }); int r = byRow ? 1 : 3, c = byRow ? 3 : 1; D b(r, c, sx_choose("second", 0, 3)); ts_data<byRow>(t, b, true); }
SX_ENTRY(ts_again) { if (sx_choose("byrow", 0, 1)) again<true>(); else again<false>(); }
// ---- D03
static void stdz(bool nan) {
  int r = sx_choose("r", 2, 3), c = sx_choose("c", 1, 2); bool cen = sx_choose("center", 0, 1), sc = sx_choose("scale", 0, 1), rm = sx_choose("remove", 0, 1), sample = sx_choose("sample", 0, 1), om = sx_choose("omean", 0, 1), ov = sx_choose("ovar", 0, 1);
  int mask = nan ? pick("mask", r * c) : 0; D d(r, c, mask); MatrixStandardized<double> s(r, c, rm, cen, sc); s.Sample = sample; s.CheckNan = nan; std::unique_ptr<double[]> st(new double[s.StorageSize]); D M(c, 1, 0, "mean"), V(c, 1, 0, "var"); for (int j = 0; j < c; j++) sx_assume(V(j, 0) >= 0);
  std::vector<double> mean(c), var(c); for (int j = 0; j < c; j++) { int n = 0; double q = 0, m = 0; for (int i = 0; i < r; i++) if (!d.na(i, j)) n++, m += d(i, j); if (n < 2) return; m /= n; for (int i = 0; i < r; i++) if (!d.na(i, j)) q += (d(i, j) - m) * (d(i, j) - m); mean[j] = om ? M(j, 0) : m; var[j] = ov ? V(j, 0) : q / (sample ? n - 1 : n); }
  s.Calculate(d.m, st.get(), om ? &M.m : nullptr, ov ? &V.m : nullptr); d.same("the source is not changed");
  for (int j = 0; j < c; j++) { if (cen && !om) sx_assert(sx_eq(s.ColumnMeans.Data[j], mean[j]), "means used for centering"); if (sc && !ov) sx_assert(sx_eq(s.ColumnVars.Data[j], var[j]), "variances used for scaling"); }
  std::vector<int> keep, removed; for (int j = 0; j < c; j++) if (sc && rm && var[j] == 0) removed.push_back(j); else keep.push_back(j);
  if (sc && rm) sx_assert(s.RemovedZeroVar == removed, "indexes of the removed columns"); sx_assert(s.Result.RowsCount == r && s.Result.ColsCount == (int)keep.size(), "columns without variance are removed");
  for (size_t k = 0; k < keep.size(); k++) for (int i = 0; i < r; i++) { int j = keep[k]; double g = st[i + r * k]; if (d.na(i, j) || (sc && var[j] == 0)) sx_assert(isnan_(g), "missing stays missing; a column without variance has no standard form"); else sx_assert(sx_eq(sc ? g * std::sqrt(var[j]) : g, cen ? d(i, j) - mean[j] : d(i, j)), "centered and scaled value"); }
}
SX_ENTRY(std_plain) { stdz(false); }
SX_ENTRY(std_nan) { stdz(true); }
SX_ENTRY(std_size) { MatrixStandardized<double> s(2, 2, true, sx_choose("center", 0, 1), sx_choose("scale", 0, 1)); D d(3, 2, 0); double st[20]; sx_assert(throws([&] { s.Calculate(d.m, st); }), "data larger than the reserved size is rejected"); }
// ---- D04
static void partition(const D &d, const Mx &a, const Mx &b, int c, bool disc, int nc) {  // last column is a row id
  int r = d.r; sx_assert(a.RowsCount + b.RowsCount == r && a.ColsCount == c && b.ColsCount == c, "sizes of the samples"); std::vector<int> seen(r, 0), intrain(nc, 0), all(nc, 0);
  for (int q = 0; q < r; q++) { const Mx &m = q < a.RowsCount ? a : b; int i = q < a.RowsCount ? q : q - a.RowsCount; double id = m.Get0(i, c - 1); int w = -1; for (int x = 0; x < r; x++) if (id == d(x, c - 1)) w = x; sx_assert(w >= 0, "a row of the sample is a row of the data"); if (w < 0) return; seen[w]++; for (int j = 0; j < c; j++) sx_assert(sx_eq(m.Get0(i, j), d(w, j)), "rows are kept together"); if (disc) { int g = (int)d(w, 0); all[g]++; if (q < a.RowsCount) intrain[g]++; } }
  for (int x = 0; x < r; x++) sx_assert(seen[x] == 1, "every observation is in exactly one sample"); if (disc) for (int g = 0; g < nc; g++) sx_assert(intrain[g] >= 1, "every group is in the training sample");
}
static double ratio() { return sx_range("ratio", -1, 2); }
SX_ENTRY(split_plain) {
  int r = sx_choose("r", 1, 4), c = 2, fix = sx_choose("fix", -1, 5); D d(r, c, 0); for (int i = 0; i < r; i++) d.o[i + r] = d.v[i + r] = i; double q = ratio(); DataSplit s(r, c); std::unique_ptr<double[]> st(new double[s.StorageSize]); std::unique_ptr<int[]> w(new int[s.WorkSizeI]);
  int n0 = fix > 0 ? fix : (int)std::round(r * q); bool t = throws([&] { s.Calculate(d.m, st.get(), q, fix); }); sx_assert(t == (n0 <= 0 || n0 >= r), "training samples without or with all observations are rejected"); if (t) return;
  std::mt19937 eng; for (int rep = 0; rep < 2; rep++) { s.Shuffle(d.m, w.get(), eng); sx_assert(s.Sample0.RowsCount == n0, "size of the training sample"); partition(d, s.Sample0, s.Sample1, c, false, 1); if (r > 3) break; } d.same("the source is not changed");
}
static void disc(int r, int nc) {
  int c = 3, fix = sx_choose("fix", -1, 5); D d(r, c, 0); std::vector<int> cnt(nc, 0); bool empty = false; for (int i = 0; i < r; i++) { int g = sx_choose("group", 0, nc - 1); cnt[g]++; d.o[i] = d.v[i] = g; d.o[i + 2 * r] = d.v[i + 2 * r] = i; } for (int g : cnt) empty |= g == 0; double q = ratio();
  DataSplitDiscrete s(r, c, nc); std::unique_ptr<double[]> st(new double[s.StorageSize]); std::unique_ptr<int[]> w(new int[s.WorkSizeI]); int n0 = fix > 0 ? fix : (int)std::round(r * q);
  bool t = throws([&] { s.Calculate(d.m, st.get(), q, fix); }); if (empty) sx_assert(t, "an empty group is rejected"); if (t) { sx_assert(empty || n0 <= 0 || n0 >= r, "a valid split is accepted"); return; }
  std::mt19937 eng; bool t2 = throws([&] { s.Shuffle(d.m, w.get(), eng); }); if (!t2) { sx_assert(s.Sample0.RowsCount == n0, "size of the training sample"); partition(d, s.Sample0, s.Sample1, c, true, nc); } d.same("the source is not changed");
}
SX_ENTRY(split_disc2) { disc(sx_choose("r", 2, 3), 2); }
SX_ENTRY(split_disc3) { disc(3, 3); }
SX_ENTRY(split_disc4) { disc(4, 2); }
