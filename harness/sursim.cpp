// U03: out-of-sample evaluation of SUR models.  Estimation and projection (U01, U02) are environment.
#include "sur.h"
#include "array.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<double> Vd;
typedef std::vector<ScoringType> Vs;
struct Sim { std::vector<int> id; Vd mean, var; int what = 0; double cn = 0; };
static struct Env { int rows = 0, m = 1, k = 2, n0 = 0, calls = 0, cancelAt = -1; bool var = false, cap = true; double low = -9; int capN = 0, capM = 0, capK = 0, capTrain = 0; Ti iter = 0; bool restricted = false; double prob = 0; Mx *data = nullptr, *R = nullptr; bool *cancel = nullptr; std::vector<int> plan; std::vector<Sim> sims; } U;
SurExtended::SurExtended(Ti N, Ti m, Ti k, bool restricted, bool nan, bool details, Ti proj, Ti iter, bool var, PcaAnalysisOptions *a, PcaAnalysisOptions *b) { if (U.cap) sx_assert(N == U.capTrain && m == U.capM && k == U.capK && proj == U.capN - U.capTrain && restricted == U.restricted && !nan && !details && iter == U.iter && var == U.var && !a && !b, "sizes of the estimated models"); StorageSize = 3 + 2 * proj * m; WorkSize = 2; }
void SurExtended::Calculate(const Mx &d, Ti m, Tv *st, Tv *wk, Mx *R, Tv prob, const Mx *x, const SearchModelChecks *chk) { for (int i = 0; i < StorageSize; i++) st[i] = -1.5; for (int i = 0; i < WorkSize; i++) wk[i] = -2.5; int q = U.calls++; if (q == U.cancelAt) *U.cancel = true; sx_assert(m == U.m && R == U.R && sx_eq(prob, U.prob) && !chk && x, "options of the estimation"); int r = x->RowsCount; Sim s; sx_assert(d.RowsCount == U.n0 && d.RowsCount + r == U.rows && d.ColsCount == U.m + U.k && x->ColsCount == U.k, "sizes of the samples"); std::vector<int> seen(U.rows, 0); auto mark = [&](int id) { sx_assert(id >= 0 && id < U.rows && !seen[id], "every observation is used once"); seen[id] = 1; };
  for (int i = 0; i < d.RowsCount; i++) { int id = (int)d.Get0(i, U.m); mark(id); for (int j = 0; j < d.ColsCount; j++) sx_assert(sx_eq(d.Get0(i, j), U.data->Get0(id, j)), "the training sample has the data"); } for (int i = 0; i < r; i++) { int id = (int)x->Get0(i, 0); mark(id); s.id.push_back(id); for (int j = 0; j < U.k; j++) sx_assert(sx_eq(x->Get0(i, j), U.data->Get0(id, U.m + j)), "the test sample has the regressors"); }
  s.what = q < (int)U.plan.size() ? U.plan[q] : 0; s.cn = Model.condition_number = s.what == 2 ? sx_range("condition", 0, 100) : 1; Projections.Means.SetData(st, r, m); Projections.Variances.SetData(U.var ? &st[r * m] : nullptr, r, m); for (int i = 0; i < r * m; i++) { double v = s.what == 4 && i == r * m - 1 ? (double)NAN : sx_range("mean", U.low, 9); s.mean.push_back(v); st[i] = v; if (U.var) { double w = s.what == 3 && i == r * m - 1 ? (double)NAN : sx_pos("variance"); s.var.push_back(w); st[r * m + i] = w; } } if (s.what == 1) { U.sims.push_back(s); throw std::runtime_error("estimation"); } U.sims.push_back(s); }
struct O { int rows = 3, cap = 3, m = 1, fix = 0, sims = 1, maxinv = INT32_MAX, lambda = 0; double ratio = 0.4, cn = INFINITY; Vs out; bool keep = true; };
static void sim(O o) { int n = o.rows, m = o.m, k = 2; Vd d(n * (m + k)); for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) d[j * n + i] = sx_range("y", 1, 9); d[m * n + i] = i; d[(m + 1) * n + i] = sx_real("x"); } Vd cpy = d; Mx D(d.data(), n, m + k); Vd lam; if (o.lambda) for (int j = 0; j < m; j++) lam.push_back(o.lambda == 5 ? 1 : o.lambda == 1 ? 0 : o.lambda == 2 ? (double)NAN : o.lambda == 3 ? 0.5 : j ? 0 : 2);
  std::vector<int> plan = U.plan; U = Env(); U.plan = plan; for (auto e : o.out) U.var |= Scoring::RequiresVariance(e); auto N0 = [&](int r) { return o.fix > 0 ? o.fix : (int)std::round(r * o.ratio); }; U.capN = o.cap; U.capM = m; U.capK = k; U.capTrain = N0(o.cap); U.rows = n; U.m = m; U.k = k; U.n0 = N0(n); U.data = &D; if (o.lambda) U.low = 0; Vd rd(m * k * m * k); Mx R(rd.data(), m * k, m * k); U.restricted = sx_choose("restricted", 0, 1); if (U.restricted) { U.R = &R; U.iter = 2; U.prob = 0.1; }
  SurSimulation S(o.cap, m, k, o.ratio, o.fix, o.out, U.restricted, U.iter, nullptr, nullptr); S.KeepErrors = o.keep; std::unique_ptr<double[]> st(new double[S.StorageSize]), wk(new double[S.WorkSize]); for (int i = 0; i < S.StorageSize; i++) st[i] = 0.3; for (int i = 0; i < S.WorkSize; i++) wk[i] = 0.4; bool cancel = false; U.cancel = &cancel;
  bool t = throws([&] { S.Calculate(D, m, st.get(), wk.get(), U.R, cancel, o.sims, 3, U.prob, o.cn, o.maxinv, o.lambda ? &lam : nullptr); }); for (size_t i = 0; i < d.size(); i++) sx_assert(sx_eq(d[i], cpy[i]), "data are not changed"); if (U.n0 <= 0 || U.n0 >= n) { sx_assert(t && U.calls == 0, "a training sample without or with all observations is rejected"); return; }
  std::map<std::string, int> er; int inv = 0, val = 0, cnt = 0; for (auto &s : U.sims) { bool bad = true; if (s.what == 1) er["estimation"]++; else if (s.cn > o.cn) er["sur-simulation"]++; else if (s.what == 3 && U.var) er["v"]++; else if (s.what == 4) er["e"]++; else bad = false; if (bad) { s.what = -1; inv++; } else { val++; cnt += (int)s.id.size(); } } bool dir = false; for (auto e : o.out) dir |= e == ScoringType::kDirection; if (dir) { sx_assert(t == (val > 0) || inv > o.maxinv, "direction is not available"); return; }
  sx_assert(t == (inv > o.maxinv), "too many invalid simulations are rejected"); if (t) return; sx_assert(U.calls == o.sims && S.ValidIters == val && S.ValidCounts == cnt, "all simulations are made and valid ones are counted"); int ne = 0; for (auto &a : S.Errors) ne += a.second; sx_assert(ne == (o.keep ? inv : 0) && S.Errors.size() == (o.keep ? er.size() : 0), "failures are counted by their reason"); if (val == 0) return;
  sx_assert(S.Results.RowsCount == (int)o.out.size() && S.Results.ColsCount == m, "size of the result"); auto inv0 = [&](double v, int j) { if (o.lambda) Array<double>::BoxCoxInv0(v, lam[j]); return v; };
  for (int j = 0; j < m; j++) for (int q = 0; q < (int)o.out.size(); q++) { double sum = 0; for (auto &s : U.sims) if (s.what != -1) for (int i = 0; i < (int)s.id.size(); i++) { int p = j * (int)s.id.size() + i; double y = inv0(cpy[j * n + s.id[i]], j), f = inv0(s.mean[p], j), e = y - f; switch (o.out[q]) { case ScoringType::kSign: sum += y * f > 0 ? 1 : 0; break; case ScoringType::kMae: sum += std::abs(e); break; case ScoringType::kMape: sum += std::abs(e / y); break; case ScoringType::kRmse: sum += std::pow(e, 2.0); break; case ScoringType::kRmspe: sum += std::pow(e / y, 2.0); break; default: sum += Scoring::GetScoreCrpsNormal(e, 0, inv0(std::sqrt(s.var[p]), j)); break; } } sum /= cnt; auto w = o.out[q]; if (w == ScoringType::kRmse || w == ScoringType::kRmspe) sum = std::sqrt(sum); if (w == ScoringType::kMape || w == ScoringType::kRmspe) sum *= 100; sx_assert(sx_eq(S.Results.Get0(q, j), sum), "a metric is the average over the observations of the test samples"); } }
static Vs one[] = {{ScoringType::kMae}, {ScoringType::kSign}, {ScoringType::kRmse}, {ScoringType::kMape}, {ScoringType::kRmspe}, {ScoringType::kCrps}};
static void plan(int n) { U.plan.clear(); for (int i = 0; i < n; i++) U.plan.push_back(sx_choose("simulation", 0, 4)); }
SX_ENTRY(um_one) { O o; U.plan.clear(); o.out = one[sx_choose("metric", 0, 5)]; sim(o); }
SX_ENTRY(um_two) { O o; U.plan.clear(); o.m = 2; o.ratio = 0.7; o.out = one[sx_choose("metric", 0, 4)]; o.sims = 2; sim(o); }
SX_ENTRY(um_many) { O o; U.plan.clear(); o.m = 2; o.ratio = 0.7; switch (sx_choose("metrics", 0, 3)) { case 0: o.out = {ScoringType::kMae, ScoringType::kRmse}; break; case 1: o.out = {ScoringType::kCrps, ScoringType::kSign}; break; case 2: o.out = {ScoringType::kRmspe, ScoringType::kMae, ScoringType::kMape}; break; case 3: o.out = {ScoringType::kSign, ScoringType::kCrps}; break; } sim(o); }
SX_ENTRY(um_lambda) { O o; U.plan.clear(); o.rows = o.cap = 2; o.ratio = 0.5; o.m = sx_choose("m", 1, 2); o.lambda = sx_choose("lambda", 1, 5); int e = sx_choose("metric", 0, 2); if (e == 2 && (o.lambda == 1 || o.lambda == 4)) o.lambda = 5; o.out = one[e == 2 ? 1 : e * 5]; sim(o); }
SX_ENTRY(um_fail) { O o; o.rows = o.cap = 2; o.ratio = 0.5; o.sims = sx_choose("sims", 1, 2); plan(o.sims); o.maxinv = sx_choose("maximum", 0, 2); o.cn = 50; o.keep = o.maxinv != 1; o.out = one[sx_choose("metric", 0, 1) * 5]; sim(o); }
SX_ENTRY(um_fail3) { O o; o.rows = o.cap = 2; o.ratio = 0.5; o.sims = 3; U.plan = {0, 0, 0}; for (int i = 0; i < 3; i++) U.plan[i] = sx_choose("simulation", 0, 1); o.maxinv = sx_choose("maximum", 0, 2); o.out = {ScoringType::kRmse}; sim(o); }
SX_ENTRY(um_rows) { O o; U.plan.clear(); o.cap = 4; o.rows = sx_choose("rows", 2, 4); o.fix = sx_choose("fixed", 0, 3); int q = sx_choose("ratio", 0, 2); o.ratio = q == 0 ? 0.3 : q == 1 ? 0.5 : 0.75; o.out = {ScoringType::kMae}; if (o.rows > 3 && o.fix == 0 && q == 1) o.rows = 3; sim(o); }
SX_ENTRY(um_dir) { O o; o.rows = o.cap = 2; o.ratio = 0.5; o.sims = sx_choose("sims", 1, 2); U.plan.clear(); o.out = {ScoringType::kMae, ScoringType::kDirection}; sim(o); }
SX_ENTRY(um_iter) { Vd d = {1, 2, 0, 1}; Mx D(d.data(), 2, 2); U = Env(); U.cap = false; U.rows = 2; U.n0 = 1; U.k = 1; U.data = &D; int n = sx_choose("iterations", -1, 3); U.cancelAt = sx_choose("cancel", -1, 2); bool now = sx_choose("now", 0, 1), cancel = now; U.cancel = &cancel; Vs out = one[0]; SurSimulation S(2, 1, 1, 0.5, 0, out, false, 0, nullptr, nullptr); std::unique_ptr<double[]> st(new double[S.StorageSize]), wk(new double[S.WorkSize]); bool t = throws([&] { S.Calculate(D, 1, st.get(), wk.get(), nullptr, cancel, n, 3, 0); }); sx_assert(t == (!now && n <= 0), "at least one simulation is required"); if (!t) sx_assert(U.calls == (now ? 0 : U.cancelAt >= 0 && U.cancelAt < n ? U.cancelAt + 1 : n), "nothing is estimated after the cancellation"); }
