#include "statistics.h"
#include "correlation.h"
#include "scoring.h"
#include "functionx.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct D { int r, c, mask; std::unique_ptr<double[]> o; std::vector<double> v; Mx m;
  D(int r_, int c_, int mk = 0, const char *n = "a") : r(r_), c(c_), mask(mk), o(new double[r_ * c_]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_nanor(n, mk, i); }
  bool na(int i, int j = 0) const { return (mask >> (i + r * j)) & 1; }
  double operator()(int i, int j = 0) const { return v[i + r * j]; }
  void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "the data is not changed"); } };
static int pick(const char *n, int cells) { return sx_choose(n, 0, (1 << cells) - 1); }
// ---- S01 descriptive statistics
SX_ENTRY(de_minmax) { int n = sx_choose("n", 0, 4); D d(n, 1, pick("mask", n)); Descriptive e(&d.m); double lo = INFINITY, hi = -INFINITY; for (int i = 0; i < n; i++) if (!d.na(i)) { if (d(i) < lo) lo = d(i); if (d(i) > hi) hi = d(i); }
  double a = e.Minimum(), b = e.Maximum(); if (!n) sx_assert(isnan_(a) && isnan_(b) && isnan_(e.MinimumSorted()) && isnan_(e.MaximumSorted()), "no data, no extreme"); else { sx_assert(sx_eq(a, lo), "minimum of the non-missing values"); sx_assert(sx_eq(b, hi), "maximum of the non-missing values"); sx_assert(sx_eq(e.MinimumSorted(), d(0)) && sx_eq(e.MaximumSorted(), d(n - 1)), "extremes of sorted data"); } }
static void mom(const D &d, double &mean, double &m2, double &m3, double &m4) { int n = d.r; mean = m2 = m3 = m4 = 0; for (int i = 0; i < n; i++) mean += d(i); mean /= n; for (int i = 0; i < n; i++) { double x = d(i) - mean; m2 += x * x; m3 += x * x * x; m4 += x * x * x * x; } }
SX_ENTRY(de_meanvar) { int n = sx_choose("n", 0, 4); bool s = sx_choose("sample", 0, 1); D d(n, 1); Descriptive e(&d.m); auto t = e.MeanVariance(s); double me, m2, m3, m4; if (!n) { sx_assert(isnan_(std::get<0>(t)) && isnan_(std::get<1>(t)), "no data"); return; } mom(d, me, m2, m3, m4); sx_assert(sx_eq(std::get<0>(t), me), "mean"); if (n == 1) sx_assert(isnan_(std::get<1>(t)), "variance of one value"); else sx_assert(sx_eq(std::get<1>(t), m2 / (s ? n - 1 : n)), "variance"); 
  sx_assert(sx_eq(e.Sum(), me * n), "sum"); double ss = 0; for (int i = 0; i < n; i++) ss += d(i) * d(i); sx_assert(sx_eq(e.SumOfSquares(false), ss) && sx_eq(e.SumOfSquares(true), m2), "sum of squares"); d.same(); }
SX_ENTRY(de_moments) { int n = sx_choose("n", 0, 4); bool s = sx_choose("sample", 0, 1); D d(n, 1); Descriptive e(&d.m); double me, m2, m3, m4; if (n) { mom(d, me, m2, m3, m4); if (n > 2) sx_assume(m2 > 0); } auto t = e.MeanVarianceKurtosisSkewness(s); double a = std::get<0>(t), v = std::get<1>(t), sk = std::get<2>(t), ku = std::get<3>(t); if (!n) { sx_assert(isnan_(a) && isnan_(v) && isnan_(sk) && isnan_(ku), "no data"); return; }
  sx_assert(sx_eq(a, me), "mean"); if (n < 2) sx_assert(isnan_(v), "variance of one value"); else sx_assert(sx_eq(v, m2 / (s ? n - 1 : n)), "variance"); if (n < 3) sx_assert(isnan_(sk), "skewness of two values"); else { double q = std::sqrt(m2); if (s) sx_assert(sx_eq(sk * q * m2 * (n - 2), n * std::sqrt((double)(n - 1)) * m3), "sample skewness"); else sx_assert(sx_eq(sk * q * m2, std::sqrt((double)n) * m3), "population skewness"); }
  if (n < 4) sx_assert(isnan_(ku), "kurtosis of three values"); else { double g = n * m4 / (m2 * m2) - 3; sx_assert(sx_eq(ku, s ? (n - 1.0) / ((n - 2) * (n - 3)) * ((n + 1) * g + 6) : g), "excess kurtosis"); } }
SX_ENTRY(de_filter_ar) { int n = sx_choose("n", 1, 4), k = sx_choose("k", 1, 3); D d(n, 1), c(k, 1, 0, "coef"); std::unique_ptr<double[]> st(new double[n]); Mx s(st.get(), n, 1); Descriptive e(&d.m); bool t = throws([&] { e.FilterAr(&c.m, &s); }); sx_assert(t == (k > n), "more coefficients than data"); if (t) return;
  std::vector<double> y(n); for (int i = 0; i < n; i++) { y[i] = d(i); if (i >= k) for (int j = 0; j < k; j++) y[i] += c(j) * y[i - j - 1]; sx_assert(sx_eq(st[i], y[i]), "recursive filter"); } if (n > 1) { Mx sm(st.get(), n - 1, 1); sx_assert(throws([&] { e.FilterAr(&c.m, &sm); }), "storage too small"); } }
static std::vector<double> filterma(const D &d, const D &c, bool cen) { int n = d.r, k = c.r, o = cen ? k / 2 : 0; std::vector<double> y(n, NAN); for (int i = 0; i < n; i++) if (i + o < n && i + o - (k - 1) >= 0) { double s = 0; for (int j = 0; j < k; j++) s += c(j) * d(i + o - j); y[i] = s; } return y; }
SX_ENTRY(de_filter_ma) { int n = sx_choose("n", 1, 5), k = sx_choose("k", 1, 4); bool cen = sx_choose("centered", 0, 1); D d(n, 1), c(k, 1, 0, "coef"); std::unique_ptr<double[]> st(new double[n]); Mx s(st.get(), n, 1); Descriptive e(&d.m); e.FilterMa(c.m, cen, s); auto y = filterma(d, c, cen); for (int i = 0; i < n; i++) sx_assert(sx_eq(st[i], y[i]), "convolution filter"); if (n > 1) { Mx sm(st.get(), n - 1, 1); sx_assert(throws([&] { e.FilterMa(c.m, cen, sm); }), "storage too small"); } }
SX_ENTRY(de_seasonal) {
  int n = sx_choose("n", 4, 5), k = sx_choose("k", 1, 3), S = 2; bool mul = sx_choose("mult", 0, 1), res = sx_choose("resid", 0, 1), cen = sx_choose("centered", 0, 1); if (n == 4 && k == 3) k = 2; if (mul) n = 4, k = 1; D d(n, 1), c(k, 1, 0, "coef"); if (mul) { for (int i = 0; i < n; i++) sx_assume(d(i) > 0); sx_assume(c(0) > 0); }
  std::unique_ptr<double[]> b(new double[3 * n + S]); Mx tr(b.get(), n, 1), se(&b[n], n, 1), rs(&b[2 * n], n, 1), me(&b[3 * n], S, 1); Descriptive e(&d.m); e.SeasonalDecompositionMa(tr, se, rs, me, &c.m, S, mul, res, cen); auto y = filterma(d, c, cen); double m[2] = {0, 0}; int cnt[2] = {0, 0}; for (int i = 0; i < n; i++) { sx_assert(sx_eq(b[i], y[i]), "trend"); if (!isnan_(y[i])) { m[i % S] += mul ? d(i) / y[i] : d(i) - y[i]; cnt[i % S]++; } } if (!cnt[0] || !cnt[1]) return;
  m[0] /= cnt[0]; m[1] /= cnt[1]; double a = (m[0] + m[1]) / 2; for (int i = 0; i < n; i++) { double s = m[i % S]; if (mul) sx_assert(sx_eq(b[n + i] * a, s), "seasonal factors are centered"); else sx_assert(sx_eq(b[n + i], s - a), "seasonal component is centered"); sx_assert(sx_eq(b[3 * n + i % S], b[n + i]), "one value per season"); if (res) { double r = b[2 * n + i]; if (isnan_(y[i])) sx_assert(isnan_(r), "no residual without trend"); else if (mul) sx_assert(sx_eq(r * y[i] * b[n + i], d(i)), "components multiply to the data"); else sx_assert(sx_eq(r + y[i] + b[n + i], d(i)), "components sum to the data"); } } d.same();
}
SX_ENTRY(de_trend) { int n = sx_choose("n", 1, 4); D d(n, 1); double s[2]; Descriptive e(&d.m); bool t = throws([&] { e.RegressionTrend(s); }); sx_assert(t == (n == 1), "no trend through one value"); if (t) return; double r0 = 0, r1 = 0; for (int i = 0; i < n; i++) { double u = d(i) - s[0] - s[1] * (i + 1); r0 += u; r1 += u * (i + 1); } sx_assert(sx_eq(r0, 0) && sx_eq(r1, 0), "residuals of the trend are orthogonal to constant and time"); }
SX_ENTRY(de_quantile) { int n = sx_choose("n", 1, 4); D d(n, 1); for (int i = 1; i < n; i++) sx_assume(d(i - 1) <= d(i)); double tau = sx_range("tau", -0.5, 1.5); Descriptive e(&d.m); double q = e.QuantileSorted(tau), h = (n + 1.0 / 3.0) * tau + 1.0 / 3.0; sx_assert(q >= d(0) && q <= d(n - 1), "a quantile lies in the data"); if (tau <= 0) sx_assert(sx_eq(q, d(0)), "quantile 0"); else if (tau >= 1) sx_assert(sx_eq(q, d(n - 1)), "quantile 1"); else if (n > 1) { int k = 0; while (k + 1 <= h) k++; if (k < 1) sx_assert(sx_eq(q, d(0)), "lower tail"); else if (k >= n) sx_assert(sx_eq(q, d(n - 1)), "upper tail"); else sx_assert(sx_eq(q, d(k - 1) + (h - k) * (d(k) - d(k - 1))), "interpolated quantile"); } }
SX_ENTRY(rank) { int r = sx_choose("r", 1, 4), c = r < 4 ? sx_choose("c", 1, 2) : 1; bool asc = sx_choose("asc", 0, 1); D d(r, c); Rank k(r, c); std::unique_ptr<double[]> w(new double[k.WorkSize]), s(new double[k.StorageSize]); k.Calculate(d.m, w.get(), s.get(), asc); d.same(); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) { int x = 0; for (int q = 0; q < r; q++) x += asc ? d(q, j) < d(i, j) : d(q, j) > d(i, j); sx_assert(k.Result.Get0(i, j) == x, "rank is the number of values before it"); }
  D big(r + 1, c, 0, "b"); sx_assert(throws([&] { k.Calculate(big.m, w.get(), s.get(), asc); }), "data larger than reserved"); }
// ---- S01 correlations
static void stat2(const std::vector<double> &x, const std::vector<double> &y, double &vx, double &vy, double &c) { int n = x.size(); double mx = 0, my = 0; for (double v : x) mx += v; for (double v : y) my += v; mx /= n; my /= n; vx = vy = c = 0; for (int i = 0; i < n; i++) { vx += (x[i] - mx) * (x[i] - mx); vy += (y[i] - my) * (y[i] - my); c += (x[i] - mx) * (y[i] - my); } }
template <bool nan, CorrelationType T> static void pearson(int r, int c) {
  bool adj = sx_choose("adjust", 0, 1), low = sx_choose("lower", 0, 1); const bool cov = T == CorrelationType::kCovariance; D d(r, c, nan ? pick("mask", r * c) : 0); std::vector<double> R(c * c), N(c * c);
  for (int i = 0; i < c; i++) for (int j = i; j < c; j++) { std::vector<double> x, y; for (int q = 0; q < r; q++) if (!d.na(q, i) && !d.na(q, j)) x.push_back(d(q, i)), y.push_back(d(q, j)); int n = x.size(); double vx, vy, s; N[i + c * j] = n; if (n < 2) { if (i == j) return; R[i + c * j] = NAN; continue; } stat2(x, y, vx, vy, s); if (!cov) { sx_assume(vx > 0); sx_assume(vy > 0); } R[i + c * j] = cov ? s / (adj ? n - 1 : n) : i == j ? 1 : s / (std::sqrt(vx) * std::sqrt(vy)); }
  Correlation<nan, T, CorrelationMethod::kPearson> k(r, c); std::unique_ptr<double[]> w(new double[k.WorkSize]), st(new double[k.StorageSize]); k.Calculate(d.m, w.get(), st.get(), adj, low); d.same(); for (int i = 0; i < c; i++) for (int j = i; j < c; j++) { if (N[i + c * j] >= 2) sx_assert(sx_eq(k.Result.Get0(i, j), R[i + c * j]), cov ? "covariance over the complete pairs" : "correlation over the complete pairs"); if (low) sx_assert(sx_eq(k.Result.Get0(j, i), k.Result.Get0(i, j)), "the matrix is symmetric"); if (nan) sx_assert(k.ResultCounts.Get0(i, j) == N[i + c * j], "number of complete pairs"); }
  D big(r, c + 1, 0, "b"); sx_assert(throws([&] { k.Calculate(big.m, w.get(), st.get(), adj, low); }), "data larger than reserved");
}
SX_ENTRY(cor_cov) { pearson<false, CorrelationType::kCovariance>(sx_choose("r", 2, 3), sx_choose("c", 1, 3)); }
SX_ENTRY(cor_cor) { pearson<false, CorrelationType::kCorrelation>(sx_choose("r", 2, 3), 2); }
SX_ENTRY(cor_cov_nan) { pearson<true, CorrelationType::kCovariance>(3, 2); }
SX_ENTRY(cor_cor_nan) { pearson<true, CorrelationType::kCorrelation>(3, 2); }
template <bool nan, CorrelationType T> static void spearman(int r) {
  const int c = 2; bool adj = sx_choose("adjust", 0, 1); const bool cov = T == CorrelationType::kCovariance; D d(r, c, nan ? pick("mask", r * c) : 0); Correlation<nan, T, CorrelationMethod::kSpearman> k(r, c); std::unique_ptr<double[]> w(new double[k.WorkSize]), st(new double[k.StorageSize]); 
  for (int i = 0; i < c; i++) for (int j = i; j < c; j++) { int n = 0; for (int q = 0; q < r; q++) n += !d.na(q, i) && !d.na(q, j); if (n < 2) return; } k.Calculate(d.m, w.get(), st.get(), adj, true); d.same();
  for (int i = 0; i < c; i++) for (int j = i; j < c; j++) { std::vector<double> x, y; for (int q = 0; q < r; q++) if (!d.na(q, i) && !d.na(q, j)) { int a = 0, b = 0; for (int p = 0; p < r; p++) if (!d.na(p, i) && !d.na(p, j)) a += d(p, i) > d(q, i), b += d(p, j) > d(q, j); x.push_back(a); y.push_back(b); } int n = x.size(); double vx, vy, s; stat2(x, y, vx, vy, s); double g = k.Result.Get0(i, j); if (nan) sx_assert(k.ResultCounts.Get0(i, j) == n, "number of complete pairs"); sx_assert(sx_eq(k.Result.Get0(j, i), g), "the matrix is symmetric"); if (cov) sx_assert(sx_eq(g, s / (adj ? n - 1 : n)), "covariance of the ranks"); else if (vx > 0 && vy > 0) sx_assert(sx_eq(g, s / std::sqrt(vx * vy)), "correlation of the ranks"); }
}
SX_ENTRY(sp_cor) { spearman<false, CorrelationType::kCorrelation>(3); }
SX_ENTRY(sp_cov) { spearman<false, CorrelationType::kCovariance>(sx_choose("r", 2, 3)); }
SX_ENTRY(sp_cor_nan) { spearman<true, CorrelationType::kCorrelation>(3); }
SX_ENTRY(sp_cov_nan) { spearman<true, CorrelationType::kCovariance>(3); }
// ---- S02 scoring rules
static const ScoringType OUT[] = {ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kFrequencyCost, ScoringType::kAuc, ScoringType::kBrier};
static const GoodnessOfFitType IN[] = {GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kFrequencyCost, GoodnessOfFitType::kAuc, GoodnessOfFitType::kBrier};
SX_ENTRY(sc_out) { auto t = OUT[sx_choose("type", 0, 9)]; double a = sx_real("a"), b = sx_real("b"), mn = sx_real("min"); double wa = Scoring::ToWeight(t, a, mn), wb = Scoring::ToWeight(t, b, mn); bool up = Scoring::IsPositiveOriented(t); sx_assert(up == (t == ScoringType::kDirection || t == ScoringType::kSign || t == ScoringType::kAuc), "orientation"); sx_assert((up ? a < b : a > b) == (wa < wb), "a better score has a larger weight"); sx_assert(sx_eq(Scoring::FromWeight(t, wa, mn), a), "the weight determines the score"); }
SX_ENTRY(sc_in) { auto t = IN[sx_choose("type", 0, 4)]; double a = sx_real("a"), b = sx_real("b"), mn = sx_real("min"); double wa = GoodnessOfFit::ToWeight(t, a, mn), wb = GoodnessOfFit::ToWeight(t, b, mn); bool up = GoodnessOfFit::IsPositiveOriented(t); sx_assert(up == (t == GoodnessOfFitType::kAuc), "orientation"); sx_assert((up ? a < b : a > b) == (wa < wb), "a better fit has a larger weight"); sx_assert(sx_eq(GoodnessOfFit::FromWeight(t, wa, mn), a), "the weight determines the metric"); }
SX_ENTRY(sc_text) { for (auto t : OUT) { sx_assert(FromString_ScoringType(ToString(t)) == t, "the name of a scoring rule identifies it"); bool nv = t == ScoringType::kMae || t == ScoringType::kMape || t == ScoringType::kRmse || t == ScoringType::kRmspe; sx_assert(Scoring::RequiresVariance(t) == !nv, "point scores need no variance"); } for (auto t : IN) sx_assert(FromString_GoodnessOfFitType(ToString(t)) == t, "the name of a metric identifies it"); for (auto m : {CorrelationMethod::kPearson, CorrelationMethod::kSpearman}) { std::string s = ToString(m); for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; sx_assert(FromString_CorrelationMethod(s.c_str()) == m, "the name of a correlation method identifies it"); }
  char b[5] = {0}; int n = sx_choose("n", 0, 4); for (int i = 0; i < n; i++) { b[i] = (char)sx_int("ch", 1, 127); } bool t = throws([&] { FromString_ScoringType(b); }), u = throws([&] { FromString_GoodnessOfFitType(b); }); if (n < 3) sx_assert(t && u, "other names are rejected"); }
SX_ENTRY(sc_bad) { int k = sx_int("type", -3, 130); for (auto t : OUT) sx_assume(k != (int)t); auto s = (ScoringType)k; sx_assert(throws([&] { Scoring::ToWeight(s, 1, 0); }) && throws([&] { Scoring::FromWeight(s, 1, 0); }) && throws([&] { Scoring::IsPositiveOriented(s); }), "unknown rules are rejected"); for (auto t : IN) sx_assume(k != (int)t); auto g = (GoodnessOfFitType)k; sx_assert(throws([&] { GoodnessOfFit::ToWeight(g, 1, 0); }) && throws([&] { GoodnessOfFit::FromWeight(g, 1, 0); }) && throws([&] { GoodnessOfFit::IsPositiveOriented(g); }), "unknown metrics are rejected"); }
// ---- S03 AUC and ROC
template <bool W, bool C> static void roc(int n, bool pess) {
  D s(n, 1, 0, "score"), w(n, 1, 0, "weight"), x(n, 1, 0, "cost"), cm(2, 2, 0, "cm"); std::vector<double> y(n); int pos = pick("labels", n); if (pos == 0 || pos == (1 << n) - 1) return; for (int i = 0; i < n; i++) y[i] = (pos >> i) & 1; Mx my(y.data(), n, 1); RocOptions o; o.Epsilon = 0; o.Pessimistic = pess; o.NormalizePoints = sx_choose("normalize", 0, 1); bool xs = C && sx_choose("costs", 0, 1);
  std::vector<double> q(n, 1.0); if (W) for (int i = 0; i < n; i++) { sx_assume(w(i) > 0); q[i] = w(i); } if (C) { o.CostMatrix.SetData(cm.o.get(), 2, 2); if (xs) o.Costs.SetData(x.o.get(), n, 1); for (int i = 0; i < n; i++) { double u = xs ? x(i) : 1, b = cm(0, 0) * u - cm(0, 1), c = cm(1, 1) - cm(1, 0) * u; sx_assume(b > 0); sx_assume(c > 0); q[i] *= y[i] == 0 ? c : b; } }
  ROC<W, C> r(n); r.Calculate(my, s.m, W ? &w.m : nullptr, o); double P = 0, N = 0, A = 0; for (int i = 0; i < n; i++) (y[i] ? P : N) += q[i]; for (int i = 0; i < n; i++) if (y[i]) for (int j = 0; j < n; j++) if (!y[j]) { if (s(i) < s(j)) A += q[i] * q[j]; else if (s(i) == s(j) && !pess) A += q[i] * q[j] / 2; }
  sx_assert(sx_eq(r.Result * P * N, A), "AUC is the weight of the correctly ordered pairs (ties count half, or nothing if pessimistic)");
  double sx = o.NormalizePoints ? N : 1, sy = o.NormalizePoints ? P : 1, px = 0, py = 0; size_t k = r.Points.size(); sx_assert(k >= 2 && sx_eq(std::get<0>(r.Points[0]), 0) && sx_eq(std::get<1>(r.Points[0]), 0), "the curve starts at the origin"); sx_assert(sx_eq(std::get<0>(r.Points[k - 1]) * sx, N) && sx_eq(std::get<1>(r.Points[k - 1]) * sy, P), "the curve ends at the corner");
  for (auto &p : r.Points) { sx_assert(std::get<0>(p) >= px && std::get<1>(p) >= py, "the curve is monotone"); px = std::get<0>(p); py = std::get<1>(p); }
}
SX_ENTRY(roc_plain) { roc<false, false>(sx_choose("n", 2, 4), false); }
SX_ENTRY(roc_pess) { roc<false, false>(sx_choose("n", 2, 4), true); }
SX_ENTRY(roc_weight) { roc<true, false>(sx_choose("n", 2, 3), sx_choose("pess", 0, 1)); }
SX_ENTRY(roc_cost) { roc<false, true>(sx_choose("n", 2, 3), sx_choose("pess", 0, 1)); }
SX_ENTRY(roc_wcost) { roc<true, true>(2, sx_choose("pess", 0, 1)); }
SX_ENTRY(roc_partial) {  // against the curve of the complete calculation
  int n = sx_choose("n", 2, 3); D s(n, 1, 0, "score"); std::vector<double> y(n); int pos = pick("labels", n); if (pos == 0 || pos == (1 << n) - 1) return; for (int i = 0; i < n; i++) y[i] = (pos >> i) & 1; Mx my(y.data(), n, 1); RocOptions o; o.Epsilon = 0; double lo = o.LowerThreshold = sx_range("lower", -0.5, 1.5), hi = o.UpperThreshold = sx_range("upper", -0.5, 1.5); ROC<false, false> r(n), f(n); bool bad = lo > hi || lo < 0 || hi > 1; bool t = throws([&] { r.Calculate(my, s.m, nullptr, o); }); sx_assert(t == bad, "invalid bounds are rejected"); if (t) return; sx_assume(lo < hi); RocOptions p; p.Epsilon = 0; f.Calculate(my, s.m, nullptr, p);
  double A = 0; for (size_t i = 1; i < f.Points.size(); i++) { double x0 = std::get<0>(f.Points[i - 1]), y0 = std::get<1>(f.Points[i - 1]), x1 = std::get<0>(f.Points[i]), y1 = std::get<1>(f.Points[i]); double a = x0 < lo ? lo : x0, b = x1 > hi ? hi : x1; if (a < b) { double k = (y1 - y0) / (x1 - x0); A += (b - a) * (y0 + k * ((a + b) / 2 - x0)); } } sx_assert(sx_eq(r.Result * (hi - lo), A), "partial AUC is the mean height of the curve between the bounds");
}
SX_ENTRY(roc_bad) { D s(2, 1, 0, "score"), cm(2, 2, 0, "cm"); double yy[2] = {0, 1}; Mx y(yy, 2, 1), e(yy, 0, 1); RocOptions o; ROC<false, false> r; sx_assert(throws([&] { r.Calculate(e, e, nullptr, o); }), "no observation"); ROC<false, true> c; sx_assert(throws([&] { c.Calculate(y, s.m, nullptr, o); }), "a cost matrix is required"); o.CostMatrix.SetData(cm.o.get(), 2, 2); bool bad = cm(0, 0) < cm(0, 1) || cm(1, 1) < cm(1, 0); sx_assert(throws([&] { c.Calculate(y, s.m, nullptr, o); }) == bad, "negative benefits or costs are rejected"); }
template <bool V> static void auc() { int n = sx_choose("n", 0, 4); std::vector<std::tuple<double, double>> p; for (int i = 0; i < n; i++) p.push_back({sx_real("x"), sx_real("y")}); double b = sx_real("base"), A = 0; for (int i = 1; i < n; i++) { double x0 = std::get<0>(p[i - 1]), y0 = std::get<1>(p[i - 1]), x1 = std::get<0>(p[i]), y1 = std::get<1>(p[i]); A += V ? (y1 - y0) * ((x0 + x1) / 2 - b) : (x1 - x0) * ((y0 + y1) / 2 - b); } AucPoints<V> a(p, b); sx_assert(sx_eq(a.Result, A), "area between the curve and the base line (trapezoids)"); }
SX_ENTRY(auc_points) { if (sx_choose("vert", 0, 1)) auc<true>(); else auc<false>(); }
// ---- S04 frequency cost
template <bool W> static void fcost() {
  int n = sx_choose("n", 1, 2), nc = 2, k = sx_choose("tables", 1, 2), rows = sx_choose("rows", 2, 3); D sc(n, nc, 0, "score"), w(n, 1, 0, "weight"); std::vector<double> y(n); for (int i = 0; i < n; i++) { int l = sx_choose("label", -1, nc - 1); y[i] = l < 0 ? NAN : l; sx_assume(w(i) > 0); }
  std::vector<std::unique_ptr<D>> t; std::vector<Mx> costs; for (int q = 0; q < k; q++) { t.emplace_back(new D(rows, nc + 1, 0, "table")); for (int i = 0; i < rows; i++) { sx_assume((*t[q])(i, 0) >= 0 && (*t[q])(i, 0) <= 1); if (i) sx_assume((*t[q])(i - 1, 0) < (*t[q])(i, 0)); } FrequencyCost<W>::Check(t[q]->m, nc); costs.push_back(t[q]->m); } 
  bool over = false, any = false; std::vector<double> S(k, 0.0), C(k, 0.0); double avg = 0; for (int i = 0; i < n; i++) for (int q = 0; q < k; q++) { if (isnan_(y[i])) continue; any = true; double p = sc(i, (int)y[i]), wt = W ? w(i) : 1; int r = 0; while (r < rows && (*t[q])(r, 0) < p) r++; if (r == rows) { over = true; continue; } S[q] += wt * (*t[q])(r, 1 + (int)y[i]); C[q] += wt; }
  FrequencyCost<W> f(k); std::unique_ptr<double[]> st(new double[f.StorageSize]); Mx my(y.data(), n, 1); bool th = throws([&] { f.Calculate(costs, my, sc.m, W ? &w.m : nullptr, st.get()); }); if (over) { sx_assert(th, "a score above the last threshold is an error"); return; } sx_assert(!th, "scores within the thresholds are accepted");
  for (int q = 0; q < k; q++) { sx_assert(sx_eq(f.CostSums.Data[q], S[q]), "total cost of a table"); sx_assert(sx_eq(f.CostCounts.Data[q], C[q]), "total weight of a table"); if (any) avg += S[q] / C[q]; } if (any) sx_assert(sx_eq(f.AverageRatio * k, avg), "average cost over the tables");
}
SX_ENTRY(fc_plain) { fcost<false>(); }
SX_ENTRY(fc_weight) { fcost<true>(); }
SX_ENTRY(fc_check) { int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3), nc = sx_choose("choices", 1, 3); D t(r, c); bool bad = r <= 1 || c != nc + 1; for (int i = 0; i < r; i++) bad |= t(i, 0) < 0 || t(i, 0) > 1 || (i && t(i, 0) <= t(i - 1, 0)); sx_assert(throws([&] { FrequencyCost<true>::Check(t.m, nc); }) == bad && throws([&] { FrequencyCost<false>::Check(t.m, nc); }) == bad, "a cost table has two rows or more, a column per choice and increasing thresholds in [0,1]"); }
// ---- L01 least squares
static void ortho(const D &x, const D &y, const Mx &beta, const std::vector<double> *om, const char *msg) { int N = x.r, k = x.c, m = y.c; for (int e = 0; e < m; e++) { std::vector<double> u(N), v(N); for (int i = 0; i < N; i++) { u[i] = y(i, e); for (int j = 0; j < k; j++) u[i] -= x(i, j) * beta.Get0(j, e); } for (int i = 0; i < N; i++) { if (!om) v[i] = u[i]; else { v[i] = 0; for (int q = 0; q < N; q++) v[i] += (*om)[i + N * q] * u[q]; } } for (int j = 0; j < k; j++) { double s = 0; for (int i = 0; i < N; i++) s += x(i, j) * v[i]; sx_assert(sx_eq(s, 0), msg); } } }
static bool full(const D &x) { if (x.c == 1) { double s = 0; for (int i = 0; i < x.r; i++) s += x(i) * x(i); return s > 0; } double a = 0, b = 0, c = 0; for (int i = 0; i < x.r; i++) a += x(i, 0) * x(i, 0), b += x(i, 0) * x(i, 1), c += x(i, 1) * x(i, 1); return a * c - b * b > 0; }
static void rest(const D &x, const D &y, const Mx &beta, const Mx &res, const Mx &sig, bool rs, bool sg) { int N = x.r, k = x.c, m = y.c; if (rs || sg) { sx_assert(res.RowsCount == N && res.ColsCount == m, "residuals size"); for (int e = 0; e < m; e++) for (int i = 0; i < N; i++) { double u = y(i, e); for (int j = 0; j < k; j++) u -= x(i, j) * beta.Get0(j, e); sx_assert(sx_eq(res.Get0(i, e), u), "residuals"); } } if (sg) for (int e = 0; e < m; e++) for (int f = 0; f < m; f++) { double s = 0; for (int i = 0; i < N; i++) s += res.Get0(i, e) * res.Get0(i, f); sx_assert(sx_eq(sig.Get0(e, f), s), "cross products of the residuals"); } }
static void ols(int N, int k, int m) { bool rs = sx_choose("resid", 0, 1), sg = sx_choose("sigma", 0, 1); int extra = sx_choose("reserve", 0, 1); D x(N, k, 0, "x"), y(N, m, 0, "y"); Ols o(N + extra, m + extra, k, rs, sg); std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]); bool t = throws([&] { o.Calculate(y.m, x.m, st.get(), w.get()); }); sx_assert(t == (N < k || !full(x)), "full rank data with enough observations is accepted, within the reserved sizes"); if (t) return; sx_assert(o.Beta.RowsCount == k && o.Beta.ColsCount == m, "size of the coefficients"); ortho(x, y, o.Beta, nullptr, "residuals are orthogonal to the regressors"); rest(x, y, o.Beta, o.Resid, o.Sigma, rs, sg); x.same(); y.same(); }
SX_ENTRY(ols1) { ols(sx_choose("n", 1, 3), 1, sx_choose("m", 1, 2)); }
SX_ENTRY(ols2) { ols(sx_choose("n", 1, 3), 2, 1); }
SX_ENTRY(ols_size) { int N = sx_choose("n", 2, 3), m = sx_choose("m", 1, 2), k = sx_choose("k", 1, 2); Ols o(2, 1, 1, true, true); D x(N, k, 0, "x"), y(N, m, 0, "y"); std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]); bool big = N > 2 || m > 1 || k > 1; bool t = throws([&] { o.Calculate(y.m, x.m, st.get(), w.get()); }); if (big) sx_assert(t, "data larger than the reserved size is rejected"); D z(N + 1, k, 0, "z"); sx_assert(throws([&] { o.Calculate(y.m, z.m, st.get(), w.get()); }), "different numbers of observations are rejected"); }
static void gls(int N, int k, int m, bool inv) { bool rs = sx_choose("resid", 0, 1), sg = sx_choose("sigma", 0, 1); int extra = sx_choose("reserve", 0, 1); D x(N, k, 0, "x"), y(N, m, 0, "y"), om(N, N, 0, "omega"); 
  std::vector<double> iv(N * N); sx_assume(sx_eq(om(0, 1), om(1, 0))); double det = om(0, 0) * om(1, 1) - om(0, 1) * om(1, 0); sx_assume(om(0, 0) > 0); sx_assume(det > 0); if (inv) iv = om.v; else { iv[0] = om(1, 1) / det; iv[3] = om(0, 0) / det; iv[1] = -om(1, 0) / det; iv[2] = -om(0, 1) / det; }
  Gls o(N + extra, m + extra, k, rs, sg, inv); std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]); bool t = throws([&] { o.Calculate(y.m, x.m, om.m, st.get(), w.get()); }); sx_assert(t == (N < k || !full(x)), "full rank data with enough observations is accepted, within the reserved sizes"); if (t) return; ortho(x, y, o.Beta, &iv, "residuals are orthogonal to the regressors in the metric of the inverse variance"); rest(x, y, o.Beta, o.Resid, o.Sigma, rs, sg); x.same(); y.same(); }
SX_ENTRY(gls1) { gls(2, 1, sx_choose("m", 1, 2), sx_choose("inv", 0, 1)); }
SX_ENTRY(gls2) { gls(2, 2, 1, sx_choose("inv", 0, 1)); }
SX_ENTRY(gls_size) { bool inv = sx_choose("inv", 0, 1); Gls o(2, 1, 1, true, true, inv); D x(3, 1, 0, "x"), y(3, 1, 0, "y"), om(3, 3, 0, "omega"), z(2, 1, 0, "z"); std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]); sx_assert(throws([&] { o.Calculate(y.m, x.m, om.m, st.get(), w.get()); }), "data larger than the reserved size is rejected"); sx_assert(throws([&] { o.Calculate(y.m, z.m, om.m, st.get(), w.get()); }), "different numbers of observations are rejected"); }
SX_ENTRY(gls_sing) { int c = sx_choose("c", -1, 2), sw = sx_choose("swap", 0, 1); D x(2, 1, 0, "x"), y(2, 1, 0, "y"), om(2, 2, 0, "omega"); double a = om(0, 0); double v[3] = {a, a * c, a * c * c}; for (int i = 0; i < 4; i++) om.m.Data[i] = i == 0 ? v[sw ? 2 : 0] : i == 3 ? v[sw ? 0 : 2] : v[1]; Gls o(2, 1, 1, true, true, false); std::unique_ptr<double[]> st(new double[o.StorageSize]), w(new double[o.WorkSize]); sx_assert(throws([&] { o.Calculate(y.m, x.m, om.m, st.get(), w.get()); }), "a singular covariance is rejected"); }
