// Rolling out-of-sample evaluation.  Estimation and forecasting (properties T03-T05) are environment: a model may fail and gives any forecast.
#include "varma.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
struct Call { int se, h; bool cur; bool ok; std::vector<double> f, v; };
static struct Env { int mask = 0, am = 1, rows = 0, k = 0; bool lastok = false; std::vector<Call> calls; const Mx *data = nullptr; const Mx *exo = nullptr, *R = nullptr; double cn = 0, sm = 0; bool *cancel = nullptr; int cancelAt = -1; } U;
static void forecast(VarmaForecast &o, double *storage, int h) { auto &c = U.calls.back(); int g = U.rows, n = U.am + h; c.h = h; o.Forecast.SetData(storage, g, n); if (o.mDoVariance) o.Variance.SetData(storage + g * n, g, n); for (int i = 0; i < g * n; i++) { storage[i] = sx_real("forecast"); if (o.mDoVariance) { double v = sx_real("variance"); sx_assume(v > 0); storage[g * n + i] = v; } } c.f.assign(storage, storage + g * n); if (o.mDoVariance) c.v.assign(storage + g * n, storage + 2 * g * n); o.StartIndex = U.am; }
Varma::Varma(const VarmaSizes &z, bool, bool, bool, LimitedMemoryBfgsbOptions *) { Sizes = z; Result.StorageSize = 3; Result.WorkSize = 2; }
void Varma::EstimateMl(const Mx &data, const Mx *exo, Tv *work, Tv *storage, const Mx *R, const Mx *, Ti se, bool cur, Tv sm, Tv cn) { for (int i = 0; i < 3; i++) storage[i] = sx_real("junk"); work[1] = work[0] = 1; U.data = &data; U.exo = exo; U.R = R; U.sm = sm; U.cn = cn; Call c{se, 0, cur, true}; c.ok = !((U.mask >> U.k++) & 1); U.calls.push_back(c); if (U.cancel && (int)U.calls.size() - 1 == U.cancelAt) *U.cancel = true; if (!c.ok) { if (U.k % 2) throw LdtException(ErrorType::kLogic, "x", "failed"); throw "failed"; } SampleEnd = se; }
VarmaForecast::VarmaForecast(const VarmaSizes &z, Ti h, bool var, bool) { mHorizon = h; mDoVariance = var; StorageSize = z.EqsCount * (U.am + h) * (var ? 2 : 1); WorkSize = 4; }
void VarmaForecast::Calculate(const Varma &e, const Mx *exo, const Mx *undiff, Tv *storage, Tv *work, Ti h, bool isnew) { sx_assert(undiff == U.data && exo == U.exo && !isnew, "the forecast uses the data of the estimation"); sx_assert(h <= mHorizon, "horizon is reserved"); for (int i = 0; i < 4; i++) work[i] = 7; forecast(*this, storage, h); }
VarmaExtended::VarmaExtended(const VarmaSizes &z, VarmaRestrictionType r, bool nan, bool, bool, Ti h, PcaAnalysisOptions *y, PcaAnalysisOptions *x, LimitedMemoryBfgsbOptions *) { Sizes = z; mHorizon = h; mRestriction = r; mCheckNan = nan; pPcaOptionsY = y; pPcaOptionsX = x; StorageSize = z.EqsCount * (U.am + h) * 2 + z.ObsCount * (z.EqsCount + z.ExoCount); WorkSize = 3; Forecasts.mDoVariance = true; Forecasts.mHorizon = h; }
void VarmaExtended::Calculate(Mx &data, Tv *storage, Tv *work, bool cur, Ti h, Ti se, double cn, double sm) { work[2] = 1; U.data = &data; U.sm = sm; U.cn = cn; Call c{se, h, cur, true}; c.ok = !((U.mask >> U.k++) & 1); U.calls.push_back(c); if (!c.ok) { if (U.k % 2) throw LdtException(ErrorType::kLogic, "x", "failed"); throw "failed"; } sx_assert(h <= mHorizon, "horizon is reserved"); forecast(Forecasts, storage, h); }
static double score(ScoringType s, double a, double f, double v, double last) { double e = a - f; switch (s) { case ScoringType::kSign: return a == 0 || f == 0 ? 0.5 : ((a > 0) == (f > 0)) ? 1 : 0; case ScoringType::kDirection: return (a > last && f > last) || (a < last && f < last) || (a == last && f == last) ? 1 : 0; case ScoringType::kMae: return std::abs(e); case ScoringType::kMape: return a <= 0 ? NAN : std::abs(e) / a; case ScoringType::kRmse: return e * e; case ScoringType::kRmspe: return a <= 0 ? NAN : e * e / (a * a); default: return Scoring::GetScoreCrpsNormal(e, 0, std::sqrt(v)); } }
static double fin(ScoringType s, double sum, double n) { sum /= n; if (s == ScoringType::kRmse || s == ScoringType::kRmspe) sum = std::sqrt(sum); return s == ScoringType::kMape || s == ScoringType::kRmspe ? sum * 100 : sum; }
static const std::vector<std::vector<int>> HS{{1}, {2}, {1, 2}, {1, 3}};
struct Opt { int g = 1, T = 4, count = 2, hs = 0, mask = 0; std::vector<ScoringType> m; bool ext = false, prev = false, maxinv = false; double lam = NAN; bool haslam = false, details = false; };
static double bc(const Opt &o, double v) { if (o.haslam && !isnan_(o.lam)) Array<double>::BoxCoxInv0(v, o.lam); return v; }
static void sim(Opt o) { U = Env(); U.mask = o.mask; U.rows = o.g; auto hs = HS[o.hs]; int hM = hs.back(), hm = hs[0], g = o.g, T = o.T; VarmaSizes z(T, g, 0, 1, 0, 0); VarmaSimulation s(z, o.count, hs, o.m, nullptr, o.ext); s.KeepDetails = o.details; std::unique_ptr<double[]> st(new double[s.StorageSize]), w(new double[s.WorkSize]); for (int i = 0; i < s.StorageSize; i++) st[i] = sx_real("old"); for (int i = 0; i < s.WorkSize; i++) w[i] = sx_real("old"); std::vector<double> y(g * T), keep; for (auto &v : y) v = sx_real("y"); keep = y; Mx d(y.data(), o.ext ? T : g, o.ext ? g : T); auto Y = [&](int i, int t) { return o.ext ? keep[t + T * i] : keep[i + g * t]; }; std::vector<double> lams(g, o.lam); bool cancel = false; int maxinv = o.maxinv ? sx_choose("invalid", 0, 2) : 100;
  int planned = 0, fail = 0; std::vector<int> ses; for (int se = o.count; se >= hm; se--) { ses.push_back(se); fail += (o.mask >> planned++) & 1; } bool stops = hm > 1; if (o.maxinv && stops) return;
  bool t = throws([&] { if (o.ext) s.CalculateE(st.get(), w.get(), d, 123, 3, false, o.prev, o.haslam ? &lams : nullptr); else s.Calculate(st.get(), w.get(), d, cancel, nullptr, nullptr, nullptr, o.prev, 123, 3, false, maxinv, o.haslam ? &lams : nullptr); }); if (!o.ext) { sx_assert(t == (fail == planned || fail > maxinv), "exactly too many failures are rejected"); if (t) return; } else sx_assert(!t, "failures are counted");
  for (size_t i = 0; i < y.size(); i++) sx_assert(sx_eq(y[i], keep[i]), "data are not changed"); sx_assert((int)U.calls.size() == planned, "every sample of the evaluation is estimated once"); bool ok = false; for (int c = 0; c < planned; c++) { auto &q = U.calls[c]; sx_assert(q.se == ses[c] && q.cur == (o.prev && ok), "samples are cut one observation at a time"); ok |= q.ok; if (q.ok) sx_assert(q.h == std::min(q.se, hM), "forecasts stop at the end of the data"); } sx_assert(U.cn == 123 && U.sm == 3, "options are given to the estimation"); sx_assert(s.ValidCounts == planned - fail, "number of valid simulations"); if (o.ext) { int n = 0; for (auto &e : s.Errors) n += e.second; sx_assert(n == fail, "failures are counted"); if (fail == planned) { for (int i = 0; i < g; i++) sx_assert(isnan_(s.ResultAggs.Get0(0, i)), "no valid simulation gives no score"); return; } }
  int dn = 0; for (size_t m = 0; m < o.m.size(); m++) for (int i = 0; i < g; i++) { double sum = 0; int n = 0; for (auto &c : U.calls) if (c.ok) for (int h : hs) if (h <= c.h) { int tt = T - 1 - c.se, fi = i + g * (U.am - 1 + h); double a = bc(o, Y(i, tt + h)), f = bc(o, c.f[fi]); sum += score(o.m[m], a, f, c.v.empty() ? 0 : c.v[fi], bc(o, Y(i, tt))); n++; if (o.details) { bool found = false; for (auto &e : s.Details) if (std::get<0>(e) == c.se && std::get<1>(e) == (int)m && std::get<2>(e) == h && std::get<3>(e) == i) { found = true; sx_assert(sx_eq(std::get<4>(e), bc(o, Y(i, tt))) && sx_eq(std::get<5>(e), a) && sx_eq(std::get<6>(e), f) && sx_eq(std::get<7>(e), a - f), "details"); if (!c.v.empty() && o.m[0] == ScoringType::kCrps) sx_assert(sx_eq(std::get<8>(e), std::sqrt(c.v[fi])), "details: standard deviation"); } sx_assert(found, "every forecast is in the details"); dn++; } } sx_assert(sx_eq(s.ResultAggs.Get0((int)m, i), fin(o.m[m], sum, n)), "scores average over all forecasts"); } if (o.details) sx_assert((int)s.Details.size() == dn, "number of the details"); }
static Opt base(bool ext) { Opt o; o.ext = ext; o.hs = sx_choose("horizons", 0, 3); o.count = sx_choose("count", HS[o.hs][0], 3); o.T = 4 + (o.count == 3); o.mask = sx_choose("failures", 0, (1 << (o.count - HS[o.hs][0] + 1)) - 1); o.prev = sx_choose("previous", 0, 1); return o; }
SX_ENTRY(vs_mae) { Opt o = base(false); o.m = {ScoringType::kMae}; sim(o); }
SX_ENTRY(vs_rmse) { Opt o = base(false); o.m = {ScoringType::kRmse, ScoringType::kMae}; o.g = 2; o.prev = false; sim(o); }
SX_ENTRY(vs_percent) { Opt o; o.hs = sx_choose("horizons", 0, 2); o.count = 2; o.m = {sx_choose("metric", 0, 1) ? ScoringType::kRmspe : ScoringType::kMape}; sim(o); }
SX_ENTRY(vs_sign) { Opt o; o.hs = sx_choose("horizons", 0, 2); o.count = 2; o.m = {ScoringType::kSign}; sim(o); }
SX_ENTRY(vs_direction) { Opt o; o.hs = sx_choose("horizons", 0, 2); o.count = 2; o.m = {ScoringType::kDirection}; sim(o); }
SX_ENTRY(vs_crps) { Opt o; o.hs = sx_choose("horizons", 0, 2); o.count = 2; o.m = {ScoringType::kCrps}; o.ext = sx_choose("extended", 0, 1); o.details = o.ext; sim(o); }
SX_ENTRY(vs_boxcox) { Opt o; o.hs = 0; o.count = 2; int e = sx_choose("metric", 0, 2); o.m = {e == 0 ? ScoringType::kMae : e == 1 ? ScoringType::kDirection : ScoringType::kSign}; o.ext = sx_choose("extended", 0, 1); o.haslam = true; int l = sx_choose("lambda", 0, 2); o.lam = l == 0 ? NAN : l == 1 && e == 0 ? 0.0 : 1.0; sim(o); }
SX_ENTRY(vs_invalid) { Opt o = base(false); o.maxinv = true; o.prev = false; o.m = {ScoringType::kMae}; sim(o); }
SX_ENTRY(vs_extended) { Opt o = base(true); o.m = {ScoringType::kMae, ScoringType::kRmse}; o.details = sx_choose("details", 0, 1); sim(o); }
SX_ENTRY(vs_extended2) { Opt o = base(true); o.m = {ScoringType::kRmse}; o.g = 2; o.prev = false; sim(o); }
SX_ENTRY(vs_cancel) { U = Env(); std::vector<int> hs{1}; std::vector<ScoringType> ms{ScoringType::kMae}; VarmaSizes z(5, 1, 0, 1, 0, 0); VarmaSimulation s(z, 3, hs, ms); std::unique_ptr<double[]> st(new double[s.StorageSize]), w(new double[s.WorkSize]); bool cancel = false; U.rows = 1; U.cancel = &cancel; U.cancelAt = sx_choose("at", -1, 2); if (U.cancelAt < 0) cancel = true; std::vector<double> y{1, 2, 3, 4, 5}; Mx d(y.data(), 1, 5); s.Calculate(st.get(), w.get(), d, cancel); sx_assert((int)U.calls.size() == U.cancelAt + 1, "no model is estimated after a cancel request"); }
SX_ENTRY(vs_sizes) { int n = sx_choose("count", 0, 5), T = sx_choose("T", 2, 5); std::vector<int> hs{1}; std::vector<ScoringType> ms{ScoringType::kMae}; VarmaSizes z(T, 1, 0, 1, 0, 0); bool t = throws([&] { VarmaSimulation s(z, n, hs, ms); }); sx_assert(t == (n == 0 || n >= z.T), "exactly impossible numbers of simulations are rejected"); }
