// X01: mixtures of distributions.  The components are arbitrary distributions (environment).
#include "distributions.h"
#include "common.h"
#include <random>
using namespace ldt;
static int sampled = -1;
struct Comp : public DistributionBase { int id = 0; bool disc = false; double m = 0, v = 0, s = 0, k = 0, lo = -INFINITY, hi = INFINITY, cdf = 0, pdf = 0, at = 0; bool table = false; double q[12];
  Tv GetParam1() override { return 0; } Tv GetParam2() override { return 0; } Tv GetParam3() override { return 0; } Tv GetParam4() override { return 0; }
  Tv GetMinimum() override { return lo; } Tv GetMaximum() override { return hi; } Tv GetMean() override { return m; } Tv GetVariance() override { return v; } Tv GetSandardDeviation() override { return std::sqrt(v); } Tv GetSkewness() override { return s; } Tv GetKurtosis() override { return k; } Tv GetMedian() override { return NAN; } Tv GetMode() override { return NAN; }
  Ti GetPmfSupportIncrement() override { return 1; } Ti GetPmfSupportSize(Tv a, Tv b) override { return (Ti)(std::fmin(b, hi) - std::fmax(a, lo)) + 1; } void GetPmfSupport(Tv *, Tv *, bool, Ti, bool, Tv) override {}
  Tv GetPdfOrPmf(Tv x) override { if (table) return x < lo || x > hi ? 0 : q[(int)x + 5]; sx_assert(x == at, "the density of a component is taken at the point"); return pdf; } Tv GetPdfOrPmfLog(Tv x) override { return std::log(GetPdfOrPmf(x)); }
  Tv GetCdf(Tv x) override { sx_assert(x == at, "the distribution function of a component is taken at the point"); return cdf; } Tv GetQuantile(Tv) override { return NAN; } void GetSample(Tv *st, Ti n, unsigned) override { for (int i = 0; i < n; i++) st[i] = id; } Tv GetSample1(std::mt19937 &) override { sampled = id; return 100 + id; } Tv GetDensityQuantile(Tv) override { return NAN; } Tv IsQuantile() override { return 0; } bool IsDiscrete() override { return disc; } };
struct M { std::vector<Comp> c; std::vector<Tv> w; std::vector<DistributionBase *> d; double W = 0; M(int n) { c.resize(n); for (int i = 0; i < n; i++) { c[i].id = i; w.push_back(sx_pos("weight")); W += w[i]; } for (auto &x : c) d.push_back(&x); } };
static void moments(M &a) { for (auto &c : a.c) { c.m = sx_real("mean"); c.v = sx_pos("variance"); c.s = sx_real("skewness"); c.k = sx_real("kurtosis"); } }
SX_ENTRY(mx_moments2) { M a(sx_choose("components", 1, 3)); moments(a); DistributionMixture X(a.w, a.d); double m, v, em = 0, e2 = 0; X.GetMoments(m, v); for (int i = 0; i < (int)a.c.size(); i++) { em += a.w[i] * a.c[i].m; e2 += a.w[i] * (a.c[i].v + a.c[i].m * a.c[i].m); } em /= a.W; e2 = e2 / a.W - em * em; sx_assert(sx_eq(m, em), "mean of a mixture"); sx_assert(sx_eq(v, e2), "variance of a mixture"); }
static void high(int n, bool normal) { M a(n); moments(a); DistributionMixture X(a.w, a.d); double m, v, s, k; if (normal) { for (auto &c : a.c) c.s = c.k = 0; X.GetMomentsNormal(m, v, s, k); } else X.GetMoments(m, v, s, k); double em = 0, e2 = 0, e3 = 0, e4 = 0; for (int i = 0; i < n; i++) { em += a.w[i] * a.c[i].m; e2 += a.w[i] * (a.c[i].v + a.c[i].m * a.c[i].m); } em /= a.W; e2 = e2 / a.W - em * em; sx_assert(sx_eq(m, em), "mean of a mixture"); sx_assert(sx_eq(v, e2), "variance of a mixture"); sx_assume(v > 0);
  for (int i = 0; i < n; i++) { auto &c = a.c[i]; double d = c.m - em, r = c.v * std::sqrt(c.v); e3 += a.w[i] * (d * d * d + 3 * d * c.v + c.s * r); e4 += a.w[i] * (d * d * d * d + 6 * d * d * c.v + 4 * d * c.s * r + (c.k + 3) * c.v * c.v); } sx_assert(sx_eq(s * v * std::sqrt(v), e3 / a.W), "skewness of a mixture"); sx_assert(sx_eq((k + 3) * v * v, e4 / a.W), "kurtosis of a mixture"); }
SX_ENTRY(mx_moments4) { high(sx_choose("components", 1, 2), false); }
SX_ENTRY(mx_normal) { high(sx_choose("components", 1, 2), true); }
SX_ENTRY(mx_function) { int n = sx_choose("components", 1, 3), kind = sx_choose("kind", 0, 2); M a(n); double x = sx_real("x"), f = 0, p = 0; for (int i = 0; i < n; i++) { auto &c = a.c[i]; c.disc = kind == 1 || (kind == 2 && i == n - 1); c.at = x; f += a.w[i] * (c.cdf = sx_range("cdf", 0, 1)); p += a.w[i] * (c.pdf = sx_pos("pdf")); } DistributionMixture X(a.w, a.d); bool both = kind == 2 && n > 1; sx_assert(X.pType == (both ? DistributionMixtureType::kBoth : a.c[0].disc ? DistributionMixtureType::kDiscrete : DistributionMixtureType::kContinuous), "type of a mixture"); sx_assert(sx_eq(X.GetCdf(x), f / a.W), "distribution function of a mixture"); double g = 0, l = 0; bool t = throws([&] { g = X.GetPdfOrPmf(x); l = X.GetPdfOrPmfLog(x); }); sx_assert(t == both, "there is no density of mixed types"); if (!t) { sx_assert(sx_eq(g, p / a.W), "density of a mixture"); sx_assert(sx_eq(l, std::log(g)), "log density of a mixture"); } }
SX_ENTRY(mx_range) { int n = sx_choose("components", 1, 3); M a(n); for (auto &c : a.c) { int k = sx_choose("bounds", 0, 2); c.lo = k == 1 ? -INFINITY : sx_real("minimum"); c.hi = k == 2 ? INFINITY : sx_real("maximum"); if (k == 0) sx_assume(c.lo <= c.hi); } DistributionMixture X(a.w, a.d); double lo = X.GetMinimum(), hi = X.GetMaximum(); bool l = false, h = false; for (auto &c : a.c) { sx_assert(lo <= c.lo && hi >= c.hi, "the range of a mixture covers its components"); l |= lo == c.lo; h |= hi == c.hi; } sx_assert(l && h, "the range of a mixture is the one of its components"); }
SX_ENTRY(mx_support) { int n = sx_choose("components", 1, 2); M a(n); int lo = 99, hi = -99; for (auto &c : a.c) { c.disc = c.table = true; int s = sx_choose("minimum", -4, 2), e = s + sx_choose("length", 0, 2); c.lo = s; c.hi = e; lo = std::min(lo, s); hi = std::max(hi, e); for (int i = 0; i < 12; i++) c.q[i] = sx_pos("pmf"); } DistributionMixture X(a.w, a.d); double mn = sx_choose("from", 0, 1) ? lo + 1 : NAN, mx = sx_choose("to", 0, 1) ? hi - 1 : NAN; int f = mn == mn ? lo + 1 : lo, t = mx == mx ? hi - 1 : hi; if (t < f) return; double m0 = mn, m1 = mx; int c = X.GetPmfSupportSize(m0, m1); sx_assert(c == t - f + 1, "size of the support of a mixture"); sx_assert(m0 == f && m1 == t, "range of the support of a mixture"); if (c != t - f + 1) return; int plot = sx_choose("plot", 0, 1), g = plot ? 3 : 1; double x[40], y[40]; X.GetPmfSupport(x, y, false, c * g, plot, mn, mx); for (int i = 0; i < c; i++) { double p = 0; for (int j = 0; j < n; j++) if (f + i >= a.c[j].lo && f + i <= a.c[j].hi) p += a.w[j] * a.c[j].q[f + i + 5]; for (int k = 0; k < g; k++) { sx_assert(x[i * g + k] == f + i, "points of the support of a mixture"); sx_assert(sx_eq(y[i * g + k], plot && k != 1 ? 0 : p / a.W), "probabilities of the support of a mixture"); } } }
SX_ENTRY(mx_sample) { int n = sx_choose("components", 1, 4); M a(n); bool d = sx_choose("discrete", 0, 1); for (auto &c : a.c) c.disc = d || c.id == 0; DistributionMixture X(a.w, a.d); double st[2]; std::sx_ndraws = 0; X.GetSample(st, 2, 5); sx_assert(std::sx_ndraws == 2, "one random number is drawn per value"); if (std::sx_ndraws != 2) return; for (int i = 0; i < 2; i++) { double u = std::sx_draws[i] - std::sx_draw_lo[i], r = std::sx_draw_hi[i] - std::sx_draw_lo[i], s = 0; int want = n - 1; for (int j = 0; j < n; j++) { s += a.w[j]; if (u * a.W < s * r) { want = j; break; } } sx_assert(st[i] == 100 + want, "a component is drawn with a probability in proportion to its weight"); } }
SX_ENTRY(mx_bad) { int n = sx_choose("components", 0, 3), k = sx_choose("weights", 0, 3); M a(n); a.w.clear(); bool bad = n != k || n == 0; for (int i = 0; i < k; i++) { double w = sx_real("weight"); a.w.push_back(w); if (w <= 0) bad = true; } sx_assert(throws([&] { DistributionMixture X(a.w, a.d); }) == bad, "exactly inconsistent weights are rejected"); if (bad) return; DistributionMixture X(a.w, a.d); double x[3], y[3]; for (auto &c : a.c) c.table = true; a.c[0].disc = sx_choose("discrete", 0, 1); for (auto &c : a.c) { c.disc = c.disc || a.c[0].disc; c.lo = 0; c.hi = 1; for (int i = 0; i < 12; i++) c.q[i] = 0.5; } DistributionMixture Y(a.w, a.d); int len = sx_choose("length", 0, 2); sx_assert(throws([&] { Y.GetPmfSupport(x, y, false, len, false, 0, 1); }) == (!a.c[0].disc || len == 0), "the support of continuous mixtures is rejected"); }
