// X02: distributions given by 103 quantiles
#include "distributions.h"
#include "common.h"
using namespace ldt;
static double P(int i) { return i == 0 ? 0.0001 : i == 1 ? 0.001 : i == 101 ? 0.999 : i == 102 ? 0.9999 : (i - 1) / 100.0; }
static double base(int i) { return i < 52 ? -10.0 * (52 - i) : 10.0 * (i - 52); }
static bool near(double a, double b, double s) { double d = a - b; if (d < 0) d = -d; return d <= 1e-9 * (s + 1); }
// increasing quantiles: arbitrary between i0 and i1, elsewhere fixed
static void make(double *q, int i0, int i1) { for (int i = 0; i < 103; i++) { q[i] = base(i); if (i >= i0 && i <= i1) { q[i] = sx_real("quantile"); sx_assume(q[i] > (i > 0 ? q[i - 1] : -5000)); sx_assume(q[i] < base(i1 + 1 > 102 ? 102 : i1 + 1) + (i1 >= 102 ? 5000 : 0)); } } }
static int at() { return sx_choose("interval", -1, 102); } // -1 and 102: the tails
static void ends(int k, int &a, int &b) { a = k < 0 ? 0 : k > 101 ? 101 : k; b = a + 1; }
SX_ENTRY(em_cdf) { int k = at(), a, b; ends(k, a, b); double q[103]; make(q, a, b); double x = sx_real("x"); if (k < 0) sx_assume(x <= q[0]); else if (k > 101) sx_assume(x >= q[102]); else { sx_assume(x >= q[k]); sx_assume(x <= q[k + 1]); } DistributionEmpirical103 D(q); double r = D.GetCDFApprox(x), w = (x - q[a]) * (P(b) - P(a)) + P(a) * (q[b] - q[a]), f = r * (q[b] - q[a]), sc = q[b] - q[a]; if (k < 0) { sx_assert(r >= 0 && r <= P(0) + 1e-12, "the distribution function does not exceed its first value to the left"); if (r > 0 && x > q[0] - 0.1 * sc) sx_assert(near(f, w, sc), "the distribution function is linear between the quantiles"); } else if (k > 101) { sx_assert(r <= 1 && r >= P(102) - 1e-12, "the distribution function does not fall below its last value to the right"); if (r < 1 && x < q[102] + 0.1 * sc) sx_assert(near(f, w, sc), "the distribution function is linear between the quantiles"); } else sx_assert(near(f, w, sc), "the distribution function is linear between the quantiles"); }
SX_ENTRY(em_quantile) { int k = at(), a, b; ends(k, a, b); double q[103]; make(q, a, b); double p = sx_real("p"); if (k < 0) { sx_assume(p > 0); sx_assume(p <= P(0)); } else if (k > 101) { sx_assume(p >= P(102)); sx_assume(p < 1); } else { sx_assume(p >= P(k)); sx_assume(p <= P(k + 1)); } DistributionEmpirical103 D(q); double r = D.GetQuantileApprox(p); sx_assert(near(r * (P(b) - P(a)), q[a] * (P(b) - P(a)) + (p - P(a)) * (q[b] - q[a]), q[b] - q[a]), "the quantile function is linear between the quantiles"); }
// probabilities as doubles: rounding must not select another interval
SX_ENTRY(em_points) { int i = sx_choose("percent", 1, 98), part = sx_choose("part", 0, 3); double q[103]; make(q, i + 1, i + 2); double f = part * 0.25, p = (i + f) / 100.0; DistributionEmpirical103 D(q); double r = D.GetQuantileApprox(p), w = q[i + 1] + f * (q[i + 2] - q[i + 1]), d = r - w; if (d < 0) d = -d; sx_assert(d <= 1e-6, "quantile at a probability in hundredths"); }
SX_ENTRY(em_limits) { double q[103]; make(q, 101, 102); DistributionEmpirical103 D(q); double p = sx_real("p"); sx_assume(p <= 0 || p >= 1); double r = D.GetQuantileApprox(p); sx_assert(r == (p <= 0 ? -INFINITY : INFINITY), "quantiles of impossible probabilities are infinite"); sx_assert(D.GetCDFApprox(INFINITY) == 1 && D.GetCDFApprox(-INFINITY) == 0, "limits of the distribution function"); }
// Combine: the minimiser is environment
static struct Env { int calls = 0, n = 0; bool w = false; std::vector<DistributionEmpirical103> *d = nullptr; double wt[3], q[3][103], last = 0, x[103], probe = 0; } U;
std::tuple<Tv, Ti> NelderMead::Minimize1(const std::function<Tv(const Tv &)> &f, Tv x0, Tv, int maxit, Tv tol, Tv lo, Tv hi) { int i = U.calls++; sx_assert(i < 103, "every quantile is found once"); if (i >= 103) throw std::runtime_error("too many"); sx_assert(maxit > 0 && tol > 0, "settings of the minimiser"); double s = U.last; if (i == 0) { s = U.q[0][0]; for (int j = 1; j < U.n; j++) if (U.q[j][0] < s) s = U.q[j][0]; } sx_assert(sx_eq(x0, s), "the search starts at the previous quantile"); sx_assert(sx_eq(lo, s) && hi != hi, "a quantile is not less than the previous one"); if (i % 17 == 0 || i == 1 || i > 100) { double want = 0; for (int j = 0; j < U.n; j++) want += (U.w ? U.wt[j] : 1.0 / U.n) * U.d->at(j).GetCDFApprox(U.probe); want -= P(i); if (want < 0) want = -want; sx_assert(sx_eq(f(U.probe), want), "the quantile minimises the distance between its probability and the weighted distribution function"); } double r = sx_real("minimum"); sx_assume(r >= s); U.last = U.x[i] = r; return std::tuple<Tv, Ti>(r, 1); }
SX_ENTRY(em_combine) { U = Env(); int n = sx_choose("distributions", 0, 3); U.n = n; U.w = sx_choose("weights", 0, 1); std::vector<DistributionEmpirical103> d; for (int j = 0; j < n; j++) { make(U.q[j], 0, 1); for (int i = 2; i < 103; i++) U.q[j][i] += j; d.push_back(DistributionEmpirical103(U.q[j])); U.wt[j] = sx_pos("weight"); } U.d = &d; U.probe = sx_choose("point", 0, 2) * 100 - 95; double res[103]; bool t = throws([&] { DistributionEmpirical103::Combine(d, U.w ? U.wt : nullptr, res); }); sx_assert(t == (n == 0), "an empty list is rejected"); if (t) return; if (n > 1) sx_assert(U.calls == 103, "every quantile is found once"); for (int i = 0; i < 103; i++) sx_assert(sx_eq(res[i], n == 1 ? U.q[0][i] : U.x[i]), "quantiles of the combination"); }
// midpoints of the intervals
SX_ENTRY(em_mid) { int k = sx_choose("interval", 0, 101); double q[103]; make(q, k, k + 1); sx_assume(q[k + 1] - q[k] >= 1); DistributionEmpirical103 D(q); double p = (P(k) + P(k + 1)) / 2, m = q[k] + (q[k + 1] - q[k]) / 2; double r = D.GetQuantileApprox(p) - m, f = D.GetCDFApprox(m) - p; sx_assert(r <= 1e-6 && r >= -1e-6, "quantile in the middle of an interval"); sx_assert(f <= 1e-9 && f >= -1e-9, "distribution function in the middle of an interval"); }
