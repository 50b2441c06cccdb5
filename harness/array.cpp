#include "array.h"
#include "common.h"
#include "running.h"
using namespace ldt;
// ---- A01
SX_ENTRY(range) {
  int n = sx_choose("n", 1, 6), mask = sx_choose("mask", 0, (1 << n) - 1);
  double d[6]; for (int i = 0; i < n; i++) d[i] = sx_nanor("d", mask, i);
  int first = -1, last = -1; bool miss = false;
  for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { if (first < 0) first = i; last = i; }
  for (int i = first; i <= last && first >= 0; i++) if ((mask >> i) & 1) miss = true;
  bool hm = true; IndexRange r = Array<double>::GetRange(d, n, hm), r2 = Array<double>::GetRange(d, n);
  if (first < 0) { sx_assert(r.IsNotValid() && r2.IsNotValid(), "all-missing array has no valid range"); }
  else {
    sx_assert(r.StartIndex == first && r.EndIndex == last, "range is the span of the non-missing data");
    sx_assert(r2.StartIndex == first && r2.EndIndex == last, "range (no missing search) is the span of the non-missing data");
    sx_assert(hm == miss, "hasMissing tells whether the span contains a missing value");
    sx_assert(r.Count() == last - first + 1, "count is the length of the span");
  }
}
SX_ENTRY(range_empty) {
  double d[1]; int n = 0; d[0] = sx_real("d"); bool hm = true;
  sx_assert(Array<double>::GetRange(d, n).IsNotValid(), "an empty array has no valid range");
  sx_assert(Array<double>::GetRange(d, n, hm).IsNotValid() && !hm, "an empty array has no valid range and no missing value");
}
SX_ENTRY(indexrange) {
  int s = sx_int("s", -1000, 1000), e = sx_int("e", -1000, 1000);
  IndexRange r(s, e);
  bool bad = s > e || s < 0 || e < 0;
  sx_assert(r.IsNotValid() == bad, "IndexRange is invalid exactly for reversed or negative bounds");
  if (!bad) sx_assert(r.StartIndex == s && r.EndIndex == e && r.Count() == e - s + 1, "IndexRange keeps its bounds");
}
SX_ENTRY(interpolate) {
  int n = sx_choose("n", 1, 6), mask = sx_choose("mask", 0, (1 << n) - 1);
  double d[6], o[6]; for (int i = 0; i < n; i++) o[i] = d[i] = sx_nanor("d", mask, i);
  int first = -1, last = -1, interior = 0;
  for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { if (first < 0) first = i; last = i; }
  for (int i = first; i <= last && first >= 0; i++) if ((mask >> i) & 1) interior++;
  int cnt = -1; IndexRange r = Array<double>::Interpolate(d, n, cnt);
  sx_assert(cnt == interior, "interpolation count is the number of interior missing values");
  if (first >= 0) sx_assert(r.StartIndex == first && r.EndIndex == last, "interpolation returns the span of the data");
  for (int i = 0; i < n; i++) {
    bool na = (mask >> i) & 1;
    if (!na) { sx_assert(sx_eq(d[i], o[i]), "interpolation keeps observed values"); continue; }
    if (first < 0 || i < first || i > last) { sx_assert(isnan_(d[i]), "interpolation does not extrapolate"); continue; }
    int l = i, q = i; while ((mask >> l) & 1) l--; while ((mask >> q) & 1) q++;
    sx_assert(!isnan_(d[i]), "interior missing value is filled");
    sx_assert(sx_eq(d[i] * (q - l), o[l] * (q - i) + o[q] * (i - l)), "filled value lies on the line between its neighbours");
  }
}
SX_ENTRY(partition) {
  int n = sx_choose("n", 0, 7), size = sx_choose("size", 1, 4); bool fe = sx_choose("fromEnd", 0, 1);
  std::vector<double> d; for (int i = 0; i < n; i++) d.push_back(sx_real("d"));
  std::vector<std::vector<double>> res; res.push_back({1.0});
  Array<double>::PartitionEqual(d, res, size, fe);
  size_t k = 0; bool same = true, sizes = true, nonempty = true;
  for (size_t p = 0; p < res.size(); p++) {
    if (res[p].empty()) nonempty = false;
    bool edge = fe ? p == 0 : p + 1 == res.size();
    if (!edge && (int)res[p].size() != size) sizes = false;
    if ((int)res[p].size() > size) sizes = false;
    for (double v : res[p]) { if (k < d.size()) sx_assert(sx_eq(v, d[k]), "partitions keep the data in order"); else same = false; k++; }
  }
  sx_assert(same && k == d.size(), "partitions cover the data exactly once");
  sx_assert(sizes, "only the edge partition may be shorter than size");
  sx_assert(nonempty, "no partition is empty");
  sx_assert((int)res.size() == (n + size - 1) / size, "number of partitions is ceil(n/size)");
}
// ---- A02
static const char *msgs[] = {"", ""};
template <bool W, bool S> static void moments() {
  int n = sx_choose("n", 1, 4), mask = S ? sx_choose("mask", 0, (1 << n) - 1) : 0;
  double d[4], w[4]; for (int i = 0; i < n; i++) { d[i] = sx_nanor("d", mask, i); w[i] = W ? sx_pos("w") : 1.0; }
  double sw = 0, sx = 0; int cnt = 0;
  for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { sw += w[i]; sx += w[i] * d[i]; cnt++; }
  double m = Array<double>::Mean<W, S>(d, n, w), v = Array<double>::Variance<W, S>(d, n, w);
  if (cnt == 0) { sx_assert(isnan_(m) && isnan_(v), "moments of no data are NaN"); return; }
  sx_assert(sx_eq(m * sw, sx), "mean is the weighted average");
  double ss = 0; for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) ss += w[i] * (d[i] - sx / sw) * (d[i] - sx / sw);
  sx_assert(sx_eq(v * sw, ss), "variance is the weighted mean squared deviation");
}
SX_ENTRY(mean_var) { moments<false, false>(); }
SX_ENTRY(mean_var_nan) { moments<false, true>(); }
SX_ENTRY(mean_var_w) { moments<true, false>(); }
SX_ENTRY(mean_var_w_nan) { moments<true, true>(); }
template <bool W, bool S> static void higher(int n) {
  int mask = S ? sx_choose("mask", 0, (1 << n) - 1) : 0;
  double d[4], w[4], sw = 0, mu = 0; int cnt = 0; for (int i = 0; i < n; i++) { d[i] = sx_nanor("d", mask, i); w[i] = W ? sx_pos("w") : 1.0; if (!((mask >> i) & 1)) { sw += w[i]; mu += w[i] * d[i]; cnt++; } }
  if (cnt < 2) return; mu /= sw;
  double m2 = 0, m3 = 0, m4 = 0; for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { double e = d[i] - mu; m2 += w[i] * e * e; m3 += w[i] * e * e * e; m4 += w[i] * e * e * e * e; }
  sx_assume(m2 > 0);
  double k = Array<double>::Kurtosis<W, S>(d, n, W ? w : nullptr), s = Array<double>::Skewness<W, S>(d, n, W ? w : nullptr);
  sx_assert(sx_eq((k + 3) * m2 * m2, sw * m4), "kurtosis is the standardised fourth moment minus 3");
  if (W) { sx_assert(sx_eq(s * std::pow(m2, 1.5), std::sqrt(sw) * m3), "skewness is the standardised third moment"); return; }
  sx_assert(sx_eq(s * s * m2 * m2 * m2, sw * m3 * m3), "skewness is the standardised third moment");
  if (m3 > 0) sx_assert(s > 0, "skewness has the sign of the third moment");
}
SX_ENTRY(higher_moments) { higher<false, false>(sx_choose("n", 2, 4)); }
SX_ENTRY(higher_moments_nan) { higher<false, true>(3); }
SX_ENTRY(higher_moments_w) { higher<true, false>(sx_choose("n", 2, 3)); }
SX_ENTRY(higher_moments_w_nan) { higher<true, true>(3); }
SX_ENTRY(minmax) {
  int n = sx_choose("n", 1, 4), mask = sx_choose("mask", 0, (1 << n) - 1); sx_assume(mask != (1 << n) - 1);
  double d[4]; for (int i = 0; i < n; i++) d[i] = sx_nanor("d", mask, i);
  double mn, mx, f, l; int imn = -5, imx = -5; double a, b;
  Array<double>::Min<true>(d, n, mn); Array<double>::Max<true>(d, n, mx);
  Array<double>::MinIndex<true>(d, n, a, imn); Array<double>::MaxIndex<true>(d, n, b, imx);
  Array<double>::First<true>(d, n, f); Array<double>::Last<true>(d, n, l);
  bool le = true, ge = true, inmn = false, inmx = false; int fi = -1, la = -1;
  for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { le &= mn <= d[i]; ge &= mx >= d[i]; inmn |= mn == d[i]; inmx |= mx == d[i]; if (fi < 0) fi = i; la = i; }
  sx_assert(le & inmn, "minimum is the least non-missing element");
  sx_assert(ge & inmx, "maximum is the greatest non-missing element");
  sx_assert(imn >= 0 && imn < n && sx_eq(a, mn) && sx_eq(d[imn], mn), "index of the minimum points at it");
  sx_assert(imx >= 0 && imx < n && sx_eq(b, mx) && sx_eq(d[imx], mx), "index of the maximum points at it");
  sx_assert(sx_eq(f, d[fi]) && sx_eq(l, d[la]), "first/last are the first/last non-missing elements");
}
SX_ENTRY(descriptive_dispatch) {
  int n = sx_choose("n", 1, 3); double d[3]; for (int i = 0; i < n; i++) d[i] = sx_real("d");
  double r, e;
  auto get = [&](const char *s) { double q = 0; Array<double>::GetDescriptive<false>(d, n, FromString_DescriptiveType(s), q); return q; };
  Array<double>::Min<false>(d, n, e); sx_assert(sx_eq(get("min"), e), "descriptive 'min'");
  Array<double>::Max<false>(d, n, e); sx_assert(sx_eq(get("max"), e), "descriptive 'max'");
  double s = 0, ss = 0; for (int i = 0; i < n; i++) s += d[i]; s /= n; for (int i = 0; i < n; i++) ss += (d[i] - s) * (d[i] - s);
  sx_assert(sx_eq(get("mean"), s), "descriptive 'mean'");
  sx_assert(sx_eq(get("ave"), s), "descriptive 'ave'");
  sx_assert(sx_eq(get("varpop") * n, ss), "descriptive 'varpop'");
  sx_assert(sx_eq(get("first"), d[0]) && sx_eq(get("last"), d[n - 1]), "descriptive 'first'/'last'");
  r = get("stdpop"); sx_assert(sx_eq(r * r * n, ss), "descriptive 'stdpop'");
  sx_assert(r >= 0, "standard deviation is not negative");
}
// ---- A03 running moments
template <Ti K, bool Wt> static void running() {
  int n = sx_choose("n", 1, K >= 3 ? 3 : 5), cut = sx_choose("cut", 0, 5); sx_assume(cut <= n);
  double d[5], w[5]; for (int i = 0; i < n; i++) { d[i] = sx_real("d"); w[i] = Wt ? sx_pos("w") : 1.0; }
  RunningMoments<K, true, Wt> all, a, b;
  for (int i = 0; i < n; i++) all.PushNew(d[i], w[i]);
  for (int i = 0; i < cut; i++) a.PushNew(d[i], w[i]);
  for (int i = cut; i < n; i++) b.PushNew(d[i], w[i]);
  a.Combine(b);
  sx_assert(a.Count == n && all.Count == n, "count is the number of pushed values");
  sx_assert(sx_eq(a.SumWeights, all.SumWeights), "combined sum of weights equals that of the concatenation");
  sx_assert(sx_eq(a.GetMean(), all.GetMean()), "combined mean equals the mean of the concatenation");
  if (K >= 2) sx_assert(sx_eq(a.GetVariance(), all.GetVariance()), "combined variance equals the variance of the concatenation");
  if (K >= 4) { double v = all.GetVariance(); if (v > 0) sx_assert(sx_eq(a.GetKurtosis(), all.GetKurtosis()), "combined kurtosis equals the kurtosis of the concatenation"); }
}
SX_ENTRY(running1) { running<1, true>(); }
SX_ENTRY(running2) { running<2, true>(); }
SX_ENTRY(running3) { running<3, false>(); }
SX_ENTRY(running4) { running<4, false>(); }
SX_ENTRY(running_direct) {  // pushes against the definition
  int n = sx_choose("n", 1, 4); double d[4], w[4]; RunningMoments<4, true, true> r;
  for (int i = 0; i < n; i++) { d[i] = sx_real("d"); w[i] = sx_pos("w"); r.PushNew(d[i], w[i]); }
  double sw = 0, s = 0; for (int i = 0; i < n; i++) { sw += w[i]; s += w[i] * d[i]; }
  sx_assert(sx_eq(r.SumWeights, sw), "sum of weights"); sx_assert(sx_eq(r.GetMean() * sw, s), "running mean is the weighted average");
  double ss = 0; for (int i = 0; i < n; i++) ss += w[i] * (d[i] - s / sw) * (d[i] - s / sw);
  sx_assert(sx_eq(r.GetVariance() * sw, ss), "running variance is the weighted variance");
}
SX_ENTRY(running_stats) {  // combining summary statistics (mean, var, skew, kurt, weight)
  int n = sx_choose("n", 1, 2);
  RunningMoments<2, true, true> a; double m[3], v[3], w[3];
  for (int i = 0; i < n; i++) { m[i] = sx_real("m"); v[i] = sx_real("v"); sx_assume(v[i] >= 0); w[i] = sx_pos("w"); a.Combine(m[i], v[i], 0, 0, w[i]); }
  double sw = 0, s = 0, q = 0; for (int i = 0; i < n; i++) { sw += w[i]; s += w[i] * m[i]; q += w[i] * (v[i] + m[i] * m[i]); }
  sx_assert(a.Count == n, "count of combined distributions");
  sx_assert(sx_eq(a.GetMean() * sw, s), "mixture mean is the weighted mean of means");
  sx_assert(sx_eq(a.GetVariance() * sw * sw, q * sw - s * s), "mixture variance is E[v + m^2] - mean^2");
}
SX_ENTRY(running_nan) {  // missing and zero-weight values never destroy the moments
  int n = sx_choose("n", 1, 3), mask = sx_choose("mask", 0, (1 << n) - 1), zero = sx_choose("zero", 0, (1 << n) - 1);
  RunningMoments<2, true, true> a; double sw = 0, s = 0, q = 0;
  for (int i = 0; i < n; i++) { double d = sx_nanor("d", mask, i), w = (zero >> i) & 1 ? 0.0 : sx_pos("w"); a.PushNew(d, w); if (!((mask >> i) & 1)) { sw += w; s += w * d; q += w * d * d; } }
  if (sw == 0) sx_assert(isnan_(a.GetMean()) && isnan_(a.GetVariance()), "no weight: mean is NaN");
  else { sx_assert(sx_eq(a.GetMean() * sw, s), "mean ignores missing and zero-weight values"); sx_assert(sx_eq(a.GetVariance() * sw * sw, q * sw - s * s), "variance ignores missing and zero-weight values"); }
}
