// X03: standard distributions.  Special functions (incomplete beta and gamma, inverse error function) are environment.
#include "distributions.h"
#include "common.h"
using namespace ldt;
typedef DistributionType DT;
typedef DistributionProperty DP;
static struct Env { int mode = 0, last = -1; double a = 0, b = 0, p = 0, z = 0; int start = 0, calls = 0; } U;
static bool near(double a, double b) { double d = a - b; if (d < 0) d = -d; return d <= 1e-9; }
// mode 0: exact values for whole arguments; 1: an inverse returns an arbitrary value and the function gives its probability back; 2: arbitrary starting point
double sx_special(int f, double a, double b, double c) {
  U.calls++;
  if (U.mode == 2 && f == F_ERF_INV) { static const double v[] = {-1.6, -0.7, 0, 0.45, 1.7}; return v[U.start]; }
  if (f == F_IBETA && U.mode != 1) { int ia = (int)a, ib = (int)b, n = ia + ib - 1; sx_assert(ia == a && ib == b && ia > 0 && ib > 0, "arguments of the incomplete beta function are positive"); double s = 0, co = 1; for (int j = 0; j <= n; j++) { if (j >= ia) { double t = co; for (int i = 0; i < n; i++) t *= i < j ? c : 1 - c; s += t; } co = co * (n - j) / (j + 1); } return s; }
  if (f == F_GAMMA_P && U.mode != 1) { U.a = a; U.b = b; return U.z = sx_range("gamma", 0, 1); }
  if (f == F_ERF_INV || f == F_IBETA_INV || f == F_GAMMA_P_INV) { U.last = f; U.a = a; U.b = b; U.p = f == F_IBETA_INV ? c : f == F_GAMMA_P_INV ? b : a; double z = sx_real("inverse"); if (f == F_IBETA_INV) { sx_assume(z > 0); sx_assume(z < 1); } if (f == F_GAMMA_P_INV) sx_assume(z > 0); return U.z = z; }
  if (f == F_IBETA) { sx_assert(U.last == F_IBETA_INV && near(a, U.a) && near(b, U.b), "the quantile function uses the parameters of the distribution function"); sx_assert(near(c, U.z), "the distribution function inverts the quantile function"); return U.p; }
  if (f == F_GAMMA_P) { sx_assert(U.last == F_GAMMA_P_INV && near(a, U.a), "the quantile function uses the parameters of the distribution function"); sx_assert(near(b, U.z), "the distribution function inverts the quantile function"); return U.p; }
  if (f == F_BETA) return std::exp(std::lgamma(a) + std::lgamma(b) - std::lgamma(a + b));
  sx_unsupported("special function"); return NAN;
}
static const DT ALL[] = {DT::kNormal, DT::kLogNormal, DT::kUniformCon, DT::kChi2, DT::kT, DT::kExponential, DT::kF, DT::kGamma, DT::kBeta, DT::kUniformDis, DT::kBernoulli, DT::kPoisson, DT::kGeometric, DT::kBinomial};
static std::unique_ptr<DistributionBase> mk(DT t, double a, double b) { return DistributionBase::GetDistributionFromType(t, a, b, 0, 0); }
static double pr() { double p = sx_real("p"); sx_assume(p > 0); sx_assume(p < 1); return p; }
static const double V[] = {0.5, 1, 3};
static double val(const char *n) { return V[sx_choose(n, 0, 2)]; }
// parameters inside the valid range
static void par(DT t, double &a, double &b) { a = b = 0; switch (t) { case DT::kNormal: case DT::kLogNormal: a = sx_real("a"); b = sx_pos("b"); break; case DT::kUniformCon: a = sx_real("a"); b = sx_real("b"); sx_assume(b > a); break; case DT::kChi2: case DT::kT: case DT::kExponential: case DT::kPoisson: a = sx_pos("a"); break; case DT::kUniformDis: a = sx_choose("a", -3, 2); b = a + sx_choose("length", 1, 3); break; case DT::kBernoulli: case DT::kGeometric: a = pr(); break; case DT::kBinomial: a = pr(); b = sx_choose("trials", 1, 4); break; default: a = sx_pos("a"); b = val("b"); } }
SX_ENTRY(un_property) { U = Env(); DT t = ALL[sx_choose("type", 0, 13)]; double a, b; par(t, a, b); if (t == DT::kPoisson) { sx_assume(a <= 3); sx_assume(a >= 0.005); } if (t == DT::kGeometric) a = 0.25 * sx_choose("probability", 1, 3); auto d = mk(t, a, b); sx_assert(sx_eq(d->GetParam1(), a) && sx_eq(d->GetParam2(), b), "parameters"); double mn = d->GetProperty(DP::kMinimum), mx = d->GetProperty(DP::kMaximum); bool real = t == DT::kNormal || t == DT::kT, unit = t == DT::kBeta || t == DT::kBernoulli, uni = t == DT::kUniformCon || t == DT::kUniformDis; sx_assert(real ? mn == -INFINITY : uni ? mn == a : mn == 0, "smallest value"); sx_assert(uni || t == DT::kBinomial ? mx == b : unit ? mx == 1 : mx == INFINITY, "largest value"); double v = d->GetProperty(DP::kVariance), s = d->GetProperty(DP::kStandardError); if (v == v && v < INFINITY) { if (t == DT::kNormal) sx_assert(sx_eq(s * s, v) && s >= 0, "the standard deviation is the root of the variance"); else sx_assert(sx_eq(s, std::sqrt(v)), "the standard deviation is the root of the variance"); } sx_assert(sx_eq(d->GetProperty(DP::kMean), d->GetMean()) && sx_eq(v, d->GetVariance()) && sx_eq(d->GetProperty(DP::kSkewness), d->GetSkewness()) && sx_eq(d->GetProperty(DP::kKurtosis), d->GetKurtosis()) && sx_eq(d->GetProperty(DP::kMedian), d->GetMedian()) && sx_eq(d->GetProperty(DP::kMode), d->GetMode()), "properties by name"); double me = d->GetMedian(); if (!isnan_(me)) { sx_assert(me >= mn && me <= mx, "the median is in the range"); if (t == DT::kPoisson) sx_assert(me >= a - 0.72 && me <= a + 0.34, "approximate median"); if (t == DT::kChi2) sx_assert(me <= a && me >= a - 0.7, "approximate median"); } sx_assert(d->IsDiscrete() == (t == DT::kUniformDis || t == DT::kBernoulli || t == DT::kPoisson || t == DT::kGeometric || t == DT::kBinomial) && !d->IsQuantile(), "kind of the distribution"); }
// moments from the textbook raw or factorial moments
static void moments(DT t, double a, double b, double *M) { double f[5] = {1, 0, 0, 0, 0}; bool fac = false; M[0] = 1; for (int r = 1; r <= 4; r++) { double p = 1; for (int i = 0; i < r; i++) switch (t) { case DT::kChi2: p *= 2 * (a / 2 + i); break; case DT::kGamma: p *= b * (a + i); break; case DT::kExponential: p *= (1 + i) / a; break; case DT::kBeta: p *= (a + i) / (a + b + i); break; case DT::kF: p *= b / a * (a / 2 + i) / (b / 2 - 1 - i); break; case DT::kPoisson: p *= a; fac = true; break; case DT::kBinomial: p *= (b - i) * a; fac = true; break; case DT::kBernoulli: p *= (1 - i) * a; fac = true; break; case DT::kGeometric: p *= (1 + i) * (1 - a) / a; fac = true; break; default: break; } f[r] = p; M[r] = p; } if (fac) { M[2] = f[2] + f[1]; M[3] = f[3] + 3 * f[2] + f[1]; M[4] = f[4] + 6 * f[3] + 7 * f[2] + f[1]; } if (t == DT::kUniformCon) { double x = a, y = b; for (int r = 1; r <= 4; r++) { x *= a; y *= b; M[r] = (y - x) / ((r + 1) * (b - a)); } } if (t == DT::kUniformDis) { for (int r = 1; r <= 4; r++) { M[r] = 0; for (int i = (int)a; i <= (int)b; i++) { double p = 1; for (int j = 0; j < r; j++) p *= i; M[r] += p; } M[r] /= b - a + 1; } } if (t == DT::kT) { M[1] = M[3] = 0; M[2] = a / (a - 2); M[4] = 3 * a * a / ((a - 2) * (a - 4)); } }
static void check(DT t, double a, double b, int upto) { auto d = mk(t, a, b); double M[5]; moments(t, a, b, M); double m = d->GetMean(), v = d->GetVariance(), V = M[2] - M[1] * M[1]; auto eq = [](double x, double y) { double e = x - y, s = y < 0 ? -y : y; if (e < 0) e = -e; return e <= 1e-9 * (1 + s); }; sx_assert(eq(m, M[1]), "mean"); if (upto >= 2) sx_assert(eq(v, V), "variance"); if (upto >= 3) { double s = d->GetSkewness(), c = M[3] - 3 * M[1] * M[2] + 2 * M[1] * M[1] * M[1]; sx_assert(eq(s * s * V * V * V, c * c), "skewness"); sx_assert(c == 0 || eq(c, 0) || (s > 0) == (c > 0), "sign of the skewness"); } if (upto >= 4) { double k = d->GetKurtosis(), c = M[4] - 4 * M[1] * M[3] + 6 * M[1] * M[1] * M[2] - 3 * M[1] * M[1] * M[1] * M[1]; sx_assert(eq((k + 3) * V * V, c), "excess kurtosis"); } }
SX_ENTRY(un_moments) { static const DT T[] = {DT::kUniformCon, DT::kChi2, DT::kExponential, DT::kGamma, DT::kBeta, DT::kUniformDis, DT::kBernoulli, DT::kPoisson, DT::kGeometric, DT::kBinomial}; DT t = T[sx_choose("type", 0, 9)]; double a, b; if (t == DT::kUniformCon) { a = sx_choose("a", -2, 1); b = a + sx_range("length", 0.1, 10); } else if (t == DT::kUniformDis) par(t, a, b); else { a = sx_real("a"); b = 0; bool p = t == DT::kBernoulli || t == DT::kGeometric || t == DT::kBinomial; sx_assume(a >= 0.05); sx_assume(a <= (p ? 0.95 : 10)); if (t == DT::kGamma || t == DT::kBeta) b = val("b"); if (t == DT::kBinomial) b = sx_choose("trials", 1, 4); } check(t, a, b, 4); }
SX_ENTRY(un_tails) { bool f = sx_choose("f", 0, 1); double n = sx_range("df", 0.5, 20); double a = f ? val("numerator") : n, b = f ? n : 0; auto d = mk(f ? DT::kF : DT::kT, a, b); double m = d->GetMean(), v = d->GetVariance(), s = d->GetSkewness(), k = d->GetKurtosis(); sx_assert(isnan_(m) == (n <= (f ? 2 : 1)), "the mean exists for enough degrees of freedom"); sx_assert((v == v && v < INFINITY) == (n > (f ? 4 : 2)), "the variance exists for enough degrees of freedom"); sx_assert((s == s) == (n > (f ? 6 : 3)), "the skewness exists for enough degrees of freedom"); sx_assert((k == k && k < INFINITY) == (n > (f ? 8 : 4)), "the kurtosis exists for enough degrees of freedom"); int up = f ? (n > 8.01 ? 4 : n > 6.01 ? 3 : n > 4.01 ? 2 : n > 2.01 ? 1 : 0) : (n > 4.01 ? 4 : n > 3 ? 3 : n > 2.01 ? 2 : n > 1 ? 1 : 0); if (f ? up >= 1 : up >= 2) check(f ? DT::kF : DT::kT, a, b, up); }
SX_ENTRY(un_normal) { bool l = sx_choose("log", 0, 1); double a = sx_range("mean", -2, 2), b = sx_range("sd", 0.1, 2); auto d = mk(l ? DT::kLogNormal : DT::kNormal, a, b); if (!l) { sx_assert(d->GetMean() == a && sx_eq(d->GetVariance(), b * b) && d->GetSkewness() == 0 && d->GetKurtosis() == 0 && d->GetMedian() == a && d->GetMode() == a, "moments of a normal distribution"); double x = sx_real("x"), z = (x - a) / b; sx_assert(sx_eq(d->GetPdfOrPmfLog(x) - (-0.5 * z * z - std::log(b) - c_ln_sqrt2Pi), 0), "logarithm of a normal density"); } else { sx_assert(sx_eq(d->GetMean(), std::exp(a + b * b / 2)) && sx_eq(d->GetMedian(), std::exp(a)) && sx_eq(d->GetMode(), std::exp(a - b * b)), "moments of a log-normal distribution"); } }
// quantiles of continuous distributions invert the distribution functions
SX_ENTRY(un_inverse) { U = Env(); U.mode = 1; static const DT T[] = {DT::kChi2, DT::kGamma, DT::kBeta, DT::kF, DT::kT, DT::kUniformCon}; DT t = T[sx_choose("type", 0, 5)]; double a, b; par(t, a, b); if (t == DT::kT) { sx_assume(a != 1 && a != 2 && a != 4); } double p = pr(); if (p == 0.5) return; auto d = mk(t, a, b); double q = d->GetQuantile(p); sx_assert(q >= d->GetMinimum() && q <= d->GetMaximum(), "quantiles are possible values"); if (t == DT::kT) sx_assert((p < 0.5) == (q < 0), "sign of the quantile"); sx_assert(near(d->GetCdf(q), p), "the distribution function of a quantile is its probability"); }
SX_ENTRY(un_inverse2) { U = Env(); U.mode = 1; int k = sx_choose("type", 0, 3); double p = pr(); if (k <= 1) { double a = sx_real("a"), b = sx_pos("b"); auto d = mk(k ? DT::kLogNormal : DT::kNormal, a, b); double q = d->GetQuantile(p); sx_assert(U.calls == 1 && near(U.p, 2 * p - 1), "normal quantile of the probability"); double w = a + b * c_sqrt2 * U.z; sx_assert(sx_eq(q, k ? std::exp(w) : w), "quantile"); if (!k) { double z = (a - q) / (b * c_sqrt2); sx_assert(sx_eq(z + U.z, 0), "the distribution function inverts the quantile function"); sx_assert(sx_eq(d->GetCdf(q), 0.5 * erfc(z)), "normal distribution function"); } } else if (k == 2) { double a = sx_pos("a"), x = sx_pos("x"); auto d = mk(DT::kExponential, a, 0); sx_assert(sx_eq(d->GetQuantile(p) * a, -std::log(1 - p)) && sx_eq(d->GetCdf(x), 1 - std::exp(-a * x)) && sx_eq(d->GetPdfOrPmf(x), a * std::exp(-a * x)) && sx_eq(d->GetMedian() * a, std::log(2.0)) && d->GetMode() == 0, "exponential distribution"); double y = sx_choose("zero", 0, 1) ? 0 : x; sx_assert(sx_eq(d->GetPdfOrPmfLog(y), std::log(a) - a * y), "logarithm of an exponential density"); } else { auto d = mk(DT::kT, 2, 0); double q = d->GetQuantile(p), s = 2 * p - 1; sx_assert(near(q * q * (1 - s * s), 2 * s * s) && (p == 0.5 || (q > 0) == (p > 0.5)), "quantile of a t distribution with two degrees of freedom"); } }
SX_ENTRY(un_limits) { U = Env(); DT t = ALL[sx_choose("type", 0, 13)]; double a, b; par(t, a, b); auto d = mk(t, a, b); double p = sx_real("p"); sx_assume(p <= 0 || p >= 1); sx_assert(d->GetQuantile(p) == (p <= 0 ? d->GetMinimum() : d->GetMaximum()), "quantiles of impossible probabilities are the bounds"); double lo = d->GetMinimum(), hi = d->GetMaximum(); sx_assert(d->GetCdf(-INFINITY) == 0 && d->GetCdf(INFINITY) == 1, "limits of the distribution function"); double x = sx_real("x"); sx_assume(x < lo || x > hi); sx_assert(d->GetCdf(x) == (x < lo ? 0 : 1) && d->GetPdfOrPmf(x) == 0 && d->GetPdfOrPmfLog(x) == -INFINITY, "values outside the range"); }
// discrete distributions
static double pmf(DT t, double a, double b, int k) { double r = 1; if (t == DT::kUniformDis) return k < a || k > b ? 0 : 1 / (b - a + 1); if (t == DT::kBernoulli) { b = 1; t = DT::kBinomial; } if (t == DT::kGeometric) { for (int i = 0; i < k; i++) r *= 1 - a; return r * a; } int n = (int)b; if (k > n) return 0; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; for (int i = 0; i < n; i++) r *= i < k ? a : 1 - a; return r; }
static const DT DIS_[] = {DT::kUniformDis, DT::kBernoulli, DT::kGeometric, DT::kBinomial};
SX_ENTRY(un_discrete) { U = Env(); DT t = DIS_[sx_choose("type", 0, 3)]; double a, b; par(t, a, b); auto d = mk(t, a, b); int k = sx_choose("value", 0, 5) + (t == DT::kUniformDis ? (int)a : 0); if (k > d->GetMaximum()) return; double f = sx_choose("half", 0, 1) * 0.5, s = 0; for (int i = t == DT::kUniformDis ? (int)a : 0; i <= k; i++) s += pmf(t, a, b, i); sx_assert(near(d->GetPdfOrPmf(k), pmf(t, a, b, k)), "probability"); sx_assert(near(d->GetCdf(k + f), s), "the distribution function adds the probabilities of all smaller values"); if (t == DT::kBernoulli) sx_assert(sx_eq(d->GetPdfOrPmfLog(k), std::log(k ? a : 1 - a)), "logarithm of the probability"); }
SX_ENTRY(un_discrete_quantile) { U = Env(); U.mode = 2; U.start = sx_choose("start", 0, 4); DT t = DIS_[sx_choose("type", 0, 3)]; double a, b, c = 0; if (t == DT::kUniformDis) par(t, a, b); else { a = 0.25 * sx_choose("probability", 1, 3); b = t == DT::kBinomial ? sx_choose("trials", 1, 3) : t == DT::kBernoulli ? 1 : 0; } auto d = mk(t, a, b); double p = pr(); if (t == DT::kGeometric) sx_assume(p < 0.999); double q = d->GetQuantile(p); int lo = t == DT::kUniformDis ? (int)a : 0, iq = -99; for (int i = lo; i <= lo + 45 && i <= d->GetMaximum(); i++) if (q == i) { iq = i; break; } sx_assert(iq > -99, "quantiles are possible values"); if (iq == -99) return; double e = 0; for (int i = lo; i <= iq; i++) { e = c; c += pmf(t, a, b, i); } sx_assert(c >= p - 1e-12 && e < p + 1e-12, "a quantile is the smallest value with enough probability"); }
SX_ENTRY(un_poisson) { U = Env(); double a = sx_pos("a"); auto d = mk(DT::kPoisson, a, 0); int k = sx_choose("value", 0, 3); double f = sx_choose("half", 0, 1) * 0.5, r = d->GetCdf(k + f); sx_assert(U.calls == 1 && near(U.a, k + 1) && near(U.b, a) && sx_eq(r, 1 - U.z), "distribution function of a Poisson distribution"); }
SX_ENTRY(un_sure) { U = Env(); int n = sx_choose("trials", 1, 4), s = sx_choose("sure", 0, 1); auto g = mk(DT::kGeometric, s ? 1 : 0.5, 0), b = mk(DT::kBinomial, s, n), i = mk(DT::kBernoulli, s, 0); sx_assert(g->GetMedian() == 0, "median of a geometric distribution"); sx_assert(b->GetMode() == s * n && b->GetMean() == s * n && b->GetVariance() == 0 && b->GetCdf(n) == 1 && b->GetPdfOrPmf(s * n) == 1, "certain binomial distribution"); sx_assert(b->GetCdf(0) == 1 - s, "distribution function of a certain binomial distribution"); sx_assert(i->GetMode() == s && i->GetMedian() == s && i->GetCdf(0) == 1 - s, "certain Bernoulli distribution"); }
SX_ENTRY(un_mode) { int k = sx_choose("type", 0, 5); double a, b; if (k == 0) { a = sx_pos("a"); b = sx_pos("b"); double m = mk(DT::kBeta, a, b)->GetMode(); if (a > 1 && b > 1) sx_assert(near(m * (a + b - 2), a - 1), "mode"); else if (a > 1) sx_assert(m == 1, "mode at the upper bound"); else if (b > 1) sx_assert(m == 0, "mode at the lower bound"); else sx_assert(m >= 0 && m <= 1, "mode in the range"); } else if (k == 1) { a = sx_pos("a"); sx_assert(sx_eq(mk(DT::kChi2, a, 0)->GetMode(), a > 2 ? a - 2 : 0), "mode"); } else if (k == 2) { a = sx_pos("a"); b = sx_pos("b"); double m = mk(DT::kGamma, a, b)->GetMode(); if (a >= 1) sx_assert(sx_eq(m, (a - 1) * b), "mode"); } else if (k == 3) { a = sx_pos("a"); b = sx_pos("b"); double m = mk(DT::kF, a, b)->GetMode(); if (a > 2) sx_assert(near(m * a * (b + 2), (a - 2) * b), "mode"); } else if (k == 4) { a = pr(); double m = mk(DT::kBernoulli, a, 0)->GetMode(), e = mk(DT::kBernoulli, a, 0)->GetMedian(); if (a != 0.5) sx_assert(m == (a > 0.5 ? 1 : 0) && e == m, "mode and median"); } else { int n = sx_choose("trials", 1, 4); a = pr(); double m = mk(DT::kBinomial, a, n)->GetMode(), h = pmf(DT::kBinomial, a, n, 0); int im = -1; for (int i = 0; i <= n; i++) if (m == i) im = i; sx_assert(im >= 0, "the mode is a possible value"); if (im < 0) return; h = pmf(DT::kBinomial, a, n, im); for (int i = 0; i <= n; i++) sx_assert(pmf(DT::kBinomial, a, n, i) <= h + 1e-9, "the mode is the most probable value"); } }
SX_ENTRY(un_support) { U = Env(); DT t = DIS_[sx_choose("type", 0, 3)]; double a, b; par(t, a, b); auto d = mk(t, a, b); int mn = sx_choose("minimum", -1, 3) + (t == DT::kUniformDis ? (int)a : 0), mx = mn + sx_choose("size", 0, 3); if (t == DT::kBernoulli) { mn = 0; mx = 1; } if (t == DT::kGeometric && mn < 0) return; double lo = std::fmax(mn, d->GetMinimum()), hi = std::fmin(mx, d->GetMaximum()); if (hi < lo) return; int n = d->GetPmfSupportSize(mn, mx); sx_assert(n == (int)(hi - lo) + 1 && d->GetPmfSupportIncrement() == 1, "size of the support"); bool plot = sx_choose("plot", 0, 1); double x[16], v[16]; for (int i = 0; i < 16; i++) x[i] = v[i] = 77; d->GetPmfSupport(x, v, false, plot ? 3 * n : n, plot, lo); for (int i = 0; i < n; i++) { double e = pmf(t, a, b, (int)lo + i); if (plot) { for (int j = 0; j < 3; j++) sx_assert(x[3 * i + j] == lo + i, "points of the support"); sx_assert(v[3 * i] == 0 && near(v[3 * i + 1], e) && v[3 * i + 2] == 0, "probabilities of the support"); } else sx_assert(x[i] == lo + i && near(v[i], e), "probabilities of the support"); } sx_assert(throws([&] { d->GetPmfSupportSize(NAN, 1); }) && throws([&] { d->GetPmfSupport(x, v, false, 0, plot, 0); }), "missing limits and empty lists are rejected"); }
SX_ENTRY(un_bad) { int k = sx_choose("type", 0, 13); DT t = ALL[k]; double a = sx_real("a"), b = sx_real("b"); bool bad = false; switch (t) { case DT::kNormal: case DT::kLogNormal: bad = b < 0; break; case DT::kUniformCon: case DT::kUniformDis: bad = a > b; break; case DT::kChi2: case DT::kT: case DT::kExponential: bad = a <= 0; break; case DT::kF: case DT::kGamma: case DT::kBeta: bad = a <= 0 || b <= 0; break; case DT::kPoisson: bad = a < 0; break; case DT::kBernoulli: case DT::kGeometric: bad = a < 0 || a > 1; break; default: bad = a < 0 || a > 1 || b < 0; } sx_assert(throws([&] { mk(t, a, b); }) == bad, "exactly invalid parameters are rejected"); }
// logarithms for concrete parameters
SX_ENTRY(un_log) { U = Env(); static const DT T[] = {DT::kNormal, DT::kLogNormal, DT::kUniformCon, DT::kChi2, DT::kT, DT::kExponential, DT::kGamma, DT::kBeta, DT::kUniformDis, DT::kPoisson, DT::kGeometric, DT::kBinomial}; DT t = T[sx_choose("type", 0, 11)]; bool p = t == DT::kGeometric || t == DT::kBinomial, disc = p || t == DT::kUniformDis || t == DT::kPoisson; double a = (p ? 0.125 : 0.75) * sx_choose("a", 1, 4), b = t == DT::kUniformCon ? a + 3 : sx_choose("b", 1, 4); if (t == DT::kUniformDis) { a = sx_choose("lower", -2, 2); b += a; } auto d = mk(t, a, b); double x = disc ? sx_choose("x", 0, 3) : 0.2 * sx_choose("x", 1, 4); if (x < d->GetMinimum() || x > d->GetMaximum()) return; double l = d->GetPdfOrPmfLog(x), f = std::log(d->GetPdfOrPmf(x)), e = l - f; if (e < 0) e = -e; sx_assert(e <= 1e-7, "the logarithm of the density is that of the density"); }
// densities are the derivatives of the distribution functions, in closed form
SX_ENTRY(un_density) { U = Env(); if (sx_choose("f", 0, 1) == 0) { double a, b; par(DT::kUniformCon, a, b); auto d = mk(DT::kUniformCon, a, b); double x = sx_real("x"); sx_assume(x >= a && x <= b); sx_assert(near(d->GetPdfOrPmf(x) * (b - a), 1), "uniform density"); sx_assert(near(d->GetCdf(x) * (b - a), x - a), "uniform distribution function"); } else { double a = sx_choose("a", 1, 5), b = sx_choose("b", 1, 5), x = 0.4 * sx_choose("x", 1, 6); double r = mk(DT::kF, a, b)->GetPdfOrPmf(x), z = a * x / (a * x + b), w = mk(DT::kBeta, a / 2, b / 2)->GetPdfOrPmf(z) * a * b / ((a * x + b) * (a * x + b)), e = r - w; if (e < 0) e = -e; sx_assert(e < 1e-9, "an F density is that of a transformed beta variable"); } }
