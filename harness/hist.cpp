// X04: histograms
#include "distributions.h"
#include "statistics.h"
#include "common.h"
#include <algorithm>
using namespace ldt;
typedef Matrix<double> Mx;
// documented intervals: (-inf,a0), [a0,a1), ..., [a(n-2),a(n-1)], (a(n-1),inf)
static void counts(const std::vector<double> &d, const double *a, int n, int *c) { for (int i = 0; i <= n; i++) c[i] = 0; for (double x : d) { int p = 0; while (p < n && !(x < a[p] || (p == n - 1 && p > 0 && x == a[p]))) p++; c[p]++; } }
static std::vector<double> data(int n, double *o, int mask = 0) { std::vector<double> v; for (int i = 0; i < n; i++) { o[i] = sx_nanor("data", mask, i); if (o[i] == o[i]) v.push_back(o[i]); } return v; }
SX_ENTRY(hi_axis) { int L = sx_choose("length", 0, 3), n = sx_choose("edges", 2, 3); bool na = sx_choose("missing", 0, 1); double o[4], a[4]; int cnt[6], w[6]; auto v = data(L, o, na && L ? sx_choose("mask", 0, (1 << L) - 1) : 0); for (int i = 0; i < n; i++) { a[i] = sx_real("edge"); if (i) sx_assume(a[i] > a[i - 1]); cnt[i] = -7; } cnt[n] = -7; cnt[n + 1] = 99; Mx D(o, L, 1), A(a, n, 1); Matrix<Ti> C(cnt, n + 1, 1); double keep[4]; for (int i = 0; i < n; i++) keep[i] = a[i]; int r = 0; bool t = throws([&] { r = Histogram::ComputeV(&D, &A, &C, na); }); sx_assert(t == v.empty(), "exactly empty data are rejected"); if (t) return; sx_assert(r == (int)v.size(), "number of the observations"); counts(v, keep, n, w); for (int i = 0; i <= n; i++) sx_assert(cnt[i] == w[i], "every observation is counted in its interval"); for (int i = 0; i < n; i++) sx_assert(sx_eq(a[i], keep[i]), "the axis is not changed"); sx_assert(cnt[n + 1] == 99, "nothing is written behind the counts"); }
static void full(bool given, bool step) { int L = sx_choose("length", 1, 4), bins = sx_choose("bins", given || step ? 1 : -1, 3); double o[4], a[20]; int cnt[22], w[22]; auto v = data(L, o); for (double x : v) { sx_assume(x >= -1000); sx_assume(x <= 1000); } Mx D(o, L, 1); double lo = NAN, hi = NAN, st = NAN; if (given) { lo = sx_real("min"); hi = sx_real("max"); sx_assume(lo >= -1000); sx_assume(hi <= 1000); } if (step) { st = sx_range("step", 0.5, 2000); sx_assume(given); sx_assume(hi - lo <= 2 * st); } if (!given && bins > 0) bins = sx_choose("exact", 0, 1) ? bins : 0; int b = bins < 1 ? 0 : bins; if (step) b = 0; double mul = given ? 1.5 : 1.5; int size = 0; if (step) { } bool t = throws([&] { size = Histogram::Compute(true, &D, nullptr, nullptr, b, lo, hi, mul, false, st); }); if (given) { sx_assert(t == (hi <= lo), "exactly an empty range is rejected"); } else sx_assert(!t, "valid data"); if (t) return; sx_assert(size == b + 1 && b >= 1, "there is at least one interval"); if (size != b + 1 || b < 1 || b > 16) return; sx_assert(hi > lo, "the range is not empty"); std::sort(v.begin(), v.end()); for (int i = 0; i < L; i++) sx_assert(sx_eq(o[i], v[i]), "data are sorted"); if (bins > 0 && !step) sx_assert(b == bins, "the requested number of intervals"); Mx A(a, size, 1); Matrix<Ti> C(cnt, size + 1, 1); for (int i = 0; i <= size + 1; i++) cnt[i] = 99; double slo = lo, shi = hi; int r = Histogram::Compute(false, &D, &A, &C, b, lo, hi, mul, false, st); sx_assert(r == L, "number of the observations"); double s = step ? st : (hi - lo) / b; for (int i = 0; i < size; i++) { double e = a[i] - (slo + i * s); sx_assert(e <= 1e-9 && e >= -1e-9, "edges at equal distances"); } counts(v, a, size, w); int sum = 0; for (int i = 0; i <= size; i++) { sum += cnt[i]; sx_assert(cnt[i] == w[i], "every observation is counted in its interval"); } sx_assert(sum == L && cnt[size + 1] == 99, "every observation is counted once"); if (!given) sx_assert(slo <= v[0] || slo >= v[0], "range"); if (!given && L == 1) sx_assert(slo < v[0] && v[0] < shi, "range of a single value"); }
SX_ENTRY(hi_auto) { full(false, false); }
SX_ENTRY(hi_given) { full(true, false); }
SX_ENTRY(hi_step) { full(true, true); }
// rounding of the edges: the largest value stays in the last interval
SX_ENTRY(hi_round) { double o[2] = {0.1 * sx_choose("lower", -3, 3) * 7, 0}, a[12]; o[1] = o[0] + 0.1 * sx_choose("range", 1, 40); int cnt[14], b = sx_choose("bins", 1, 10); for (auto &c : cnt) c = 99; Mx D(o, 2, 1), A(a, b + 1, 1); Matrix<Ti> C(cnt, b + 2, 1); double lo = o[0], hi = o[1]; Histogram::Compute(false, &D, &A, &C, b, lo, hi, 1.5, false); sx_assert(cnt[0] == 0 && cnt[b + 1] == 0, "values of the range are not outside it"); }
