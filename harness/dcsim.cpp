// B04: out-of-sample evaluation of discrete choice models.  Estimation and prediction (B01-B03) are environment.
#include "common.h"
#include "discrete_choice.h"
#include <memory>
#include <set>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<double> Vd;
Newton::Newton(Ti) {}
struct Test { std::vector<int> id; Vd p; };
static struct Env { int fails = 0, calls = 0, rows = 0, off = 1, n0 = 0; std::vector<Test> tests; bool *cancel = nullptr; int cancelAt = -1; Mx *data = nullptr; } U;
struct Fake : DiscreteChoiceBase { void Calculate(const Mx &, const Mx &, const Mx *, Tv *, Tv *, Ti, bool) override {} void GetProbabilities(const Mx &, Mx &, Tv *) override {} void EstimatePriorBinary(const Mx &, const Mx &, const Mx *, Tv *) override {} void EstimatePriorOrdered(const Mx &, const Mx &, const Mx *, Tv *) override {} void EstimateBinary(const Mx &, const Mx &, const Mx *, Tv *, bool) override {} void EstimateOrdered(const Mx &, const Mx &, const Mx *, Tv *, bool) override {} };
static double buf[64];
DiscreteChoiceExtended::DiscreteChoiceExtended(DiscreteChoiceModelType, DiscreteChoiceDistType, Ti rows, Ti, bool, bool, Ti choices, bool, Ti, PcaAnalysisOptions *, std::vector<Mx> *, bool) { mNumChoices = choices; Model = std::make_unique<Fake>(); StorageSize = 3; WorkSize = 2; }
void DiscreteChoiceExtended::Calculate(const Mx &d, Tv *st, Tv *wk, bool, const Mx *x, RocOptions &) { for (int i = 0; i < 3; i++) st[i] = 5.5; for (int i = 0; i < 2; i++) wk[i] = 4.5; int k = U.calls++; if (k == U.cancelAt) *U.cancel = true; int r = x->RowsCount; Test t; sx_assert(d.RowsCount + r == U.rows && d.RowsCount == U.n0, "sizes of the samples"); std::vector<int> seen(U.rows, 0); auto mark = [&](int id) { sx_assert(id >= 0 && id < U.rows && !seen[id], "every observation is used once"); seen[id] = 1; };
  for (int i = 0; i < d.RowsCount; i++) { int id = (int)d.Get0(i, U.off + 1); mark(id); for (int j = 0; j < d.ColsCount; j++) sx_assert(sx_eq(d.Get0(i, j), U.data->Get0(id, j)), "the training sample has the data"); } for (int i = 0; i < r; i++) { int id = (int)x->Get0(i, 1); mark(id); t.id.push_back(id); for (int j = 0; j < x->ColsCount; j++) sx_assert(sx_eq(x->Get0(i, j), U.data->Get0(id, U.off + j)), "the test sample has the regressors"); }
  if ((U.fails >> k) & 1) throw std::runtime_error("estimation"); PredProbs.SetData(buf, r, 2); for (int i = 0; i < r; i++) { double p = sx_range("p", 0, 1); t.p.push_back(p); buf[i] = 1 - p; buf[r + i] = p; } U.tests.push_back(t); }
struct O { bool brier = false, auc = false, freq = false, weval = false; int costs = 0, sims = 2, fix = 0, rows = 4, cap = 4, fails = 0, maxinv = INT32_MAX; double ratio = 0.5; bool check = true; };
template <bool we> static void sim(O o) { int n = o.rows, off = we ? 2 : 1, c = off + 2; Vd d(n * c), cd(18); for (int i = 0; i < n; i++) { d[i] = i % 2; if (we) d[n + i] = sx_pos("w"); d[n * off + i] = 1; d[n * (off + 1) + i] = i; } Vd cpy = d; Mx D(d.data(), n, c); std::vector<Mx> cm; for (int q = 0; q < o.costs; q++) { cd[9 * q] = 0.5; cd[9 * q + 1] = 1; for (int i = 2; i < 6; i++) cd[9 * q + i] = sx_range("cost", 0, 5); cm.push_back(Mx(&cd[9 * q], 2, 3)); }
  typedef DiscreteChoiceSim<we, DiscreteChoiceModelType::kBinary, DiscreteChoiceDistType::kLogit> T; std::unique_ptr<T> mp; bool bad = throws([&] { mp.reset(new T(o.cap, c, 2, o.ratio, o.fix, o.costs, o.brier, o.auc, o.freq, nullptr, o.weval)); }); sx_assert(!bad, "a simulation with a goal is valid"); if (bad) return; T &m = *mp; m.Seed = 3; m.SimulationMax = o.sims; std::unique_ptr<double[]> st(new double[m.StorageSize]), wk(new double[m.WorkSize]); std::unique_ptr<int[]> wi(new int[m.WorkSizeI]); for (int i = 0; i < m.StorageSize; i++) st[i] = 0.3; for (int i = 0; i < m.WorkSize; i++) wk[i] = 0.4;
  U = Env(); U.fails = o.fails; U.rows = n; U.off = off; U.data = &D; U.n0 = o.fix ? o.fix : (int)std::round(n * o.ratio); bool cancel = false; RocOptions op; std::set<const char *> er; bool t = throws([&] { m.Calculate(D, o.costs ? &cm : nullptr, st.get(), wk.get(), wi.get(), cancel, op, o.check, sx_choose("errors", 0, 1) ? &er : nullptr, o.maxinv); }); int inv = 0; for (int k = 0; k < o.sims; k++) inv += (o.fails >> k) & 1; int val = o.sims - inv;
  for (int i = 0; i < n * c; i++) sx_assert(sx_eq(d[i], cpy[i]), "data are not changed"); if (val == 0 || inv > o.maxinv) { sx_assert(t, "too many failures are reported"); return; } sx_assert(!t && U.calls == o.sims && (int)U.tests.size() == val && m.ValidSimulationCount == val && m.SimulationCounter == o.sims && m.N1 == n - U.n0, "all simulations are made");
  auto W = [&](int id) { return we && o.weval ? cpy[n + id] : 1.0; }; if (o.brier) { double b = 0; for (auto &q : U.tests) { double s = 0, w = 0; for (size_t i = 0; i < q.id.size(); i++) { double e = cpy[q.id[i]] - q.p[i]; s += W(q.id[i]) * e * e; w += W(q.id[i]); } b += s / w; } sx_assert(sx_eq(m.BrierScore, b / val), "average Brier score of the test samples"); }
  if (o.costs) for (int k = 0; k < o.costs; k++) { double a = 0, w = 0; for (auto &q : U.tests) for (size_t i = 0; i < q.id.size(); i++) { int y = (int)cpy[q.id[i]]; double p = y ? q.p[i] : 1 - q.p[i]; a += W(q.id[i]) * cd[9 * k + 2 + 2 * y + (p > 0.5 ? 1 : 0)]; w += W(q.id[i]); } sx_assert(sx_eq(m.CostRatios.Data[k], a / w), "cost ratio of the test samples"); }
  if (o.auc) { double A = 0; for (auto &q : U.tests) { int r = q.id.size(); Vd y, w, p(2 * r); for (int i = 0; i < r; i++) { y.push_back(cpy[q.id[i]]); w.push_back(W(q.id[i])); p[i] = 1 - q.p[i]; p[r + i] = q.p[i]; } Mx Y(y.data(), r, 1), P(p.data(), r, 2), Wm(w.data(), r, 1); if (we && o.weval) { ROC<true, false> g(r); g.Calculate(Y, P, &Wm, op); A += g.Result; } else { ROC<false, false> g(r); g.Calculate(Y, P, nullptr, op); A += g.Result; } } sx_assert((A != A && m.Auc != m.Auc) || sx_eq(m.Auc, A / val), "average AUC of the test samples"); }
  if (o.freq) { Vd f(20, 0.0); for (auto &q : U.tests) for (size_t i = 0; i < q.id.size(); i++) { int y = (int)cpy[q.id[i]]; double p = y ? q.p[i] : 1 - q.p[i]; int j = (int)std::floor(p * 10); if (j == 10) j = 9; f[j + 10 * y] += we ? cpy[n + q.id[i]] : 1.0; } for (int i = 0; i < 20; i++) sx_assert(sx_eq(m.FrequencyTable.Data[i], f[i]), "frequencies of the probabilities of the actual outcomes"); } }
static void go(O o) { if (sx_choose("weight", 0, 1)) { o.weval = sx_choose("weval", 0, 1); sim<true>(o); } else sim<false>(o); }
SX_ENTRY(dm_brier) { O o; o.brier = true; o.costs = 1; o.sims = 1; go(o); }
SX_ENTRY(dm_brier_only) { O o; o.brier = true; o.sims = sx_choose("sims", 1, 2); go(o); }
SX_ENTRY(dm_cost) { O o; o.costs = sx_choose("tables", 1, 2); o.sims = 3 - o.costs; go(o); }
SX_ENTRY(dm_auc) { O o; o.auc = true; o.sims = 2; go(o); }
SX_ENTRY(dm_freq) { O o; o.freq = true; o.sims = 1; o.rows = o.cap = 3; o.ratio = 0.6; go(o); }
SX_ENTRY(dm_fails) { O o; o.brier = o.auc = true; o.costs = 1; o.sims = sx_choose("sims", 1, 3); o.fails = sx_choose("fails", 0, (1 << o.sims) - 1); o.maxinv = sx_choose("maximum", 0, 2); o.auc = false; o.rows = o.cap = 3; o.fix = 2; sim<false>(o); }
SX_ENTRY(dm_rows) { O o; o.brier = true; o.auc = true; o.sims = 1; o.rows = sx_choose("rows", 3, 5); o.cap = 5; o.fix = sx_choose("fixed", 0, 2); if (o.fix == 1) o.fix = 2; o.auc = false; o.costs = 1; o.check = sx_choose("check", 0, 1); sim<false>(o); }
SX_ENTRY(dm_cancel) { int n = 4; Vd d(n * 3); for (int i = 0; i < n; i++) { d[i] = i % 2; d[n + i] = 1; d[2 * n + i] = i; } Mx D(d.data(), n, 3); DiscreteChoiceSim<false> m(n, 3, 2, 0.5, 0, 0, true, true, false); m.Seed = 1; m.SimulationMax = 3; std::unique_ptr<double[]> st(new double[m.StorageSize + 1]), wk(new double[m.WorkSize]); std::unique_ptr<int[]> wi(new int[m.WorkSizeI]); U = Env(); U.rows = n; U.n0 = 2; U.data = &D; bool cancel = sx_choose("now", 0, 1); U.cancel = &cancel; U.cancelAt = sx_choose("at", 0, 2); bool now = cancel; RocOptions op; sx_assert(!throws([&] { m.Calculate(D, nullptr, st.get(), wk.get(), wi.get(), cancel, op); }), "a cancelled simulation stops"); sx_assert(U.calls == (now ? 0 : U.cancelAt + 1), "nothing is estimated after the cancellation"); }
SX_ENTRY(dm_bad) { double r = sx_choose("ratio", -1, 5) * 0.25; int fix = sx_choose("fixed", -1, 5), costs = sx_choose("tables", 0, 1), b = sx_choose("brier", 0, 1), a = sx_choose("auc", 0, 1), f = sx_choose("table", 0, 1); int n = sx_choose("n", 1, 4); bool t = throws([&] { DiscreteChoiceSim<false> m(n, 3, 2, r, fix, costs, b, a, f); }); int n0 = fix > 0 ? fix : (int)std::round(n * r); bool ok = (costs || b || a || f) && fix >= 0 && (fix > 0 || (r > 0 && r < 1)) && n0 > 0 && n0 < n; sx_assert(t == !ok, "invalid settings are rejected"); }
