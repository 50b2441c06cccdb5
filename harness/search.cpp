#include "searchers.h"
#include "distributions.h"
#include "common.h"
using namespace ldt;
typedef std::shared_ptr<EstimationKeep> EK;
struct Base { SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchMetricOptions met; SearchModelChecks chk; Base() { data.NumEndo = 0; data.NumExo = 0; data.HasWeight = false; data.HasIntercept = false; comb.NumFixPartitions = 0; comb.NumFixItems = 0; comb.NumTargets = 1; opt.ReportInterval = 0; items.LengthEvals = 1; items.LengthTargets = 1; met.Seed = 0; met.EvalIsPosOrientation = {false}; } };
// ---- R01 enumeration
struct Rec : public Searcher { std::vector<std::vector<int>> seen; int mode = 0, at = -1, cancel = -1; std::vector<std::string> msg; using Searcher::Searcher; 
  std::string EstimateOne(Tv *, Ti *) override { int k = (int)seen.size(); seen.push_back(CurrentIndices.Vec); if (k == cancel) pOptions->RequestCancel = true; if (k == at) { switch (mode) { case 1: return "A"; case 2: throw LdtException(ErrorType::kLogic, "A", "A"); case 3: throw std::string("A"); case 4: throw "A"; case 5: throw 7; } } return ""; } };
struct Part { std::vector<std::vector<int>> p; std::vector<int> all; Part(const int *sz, int n, int hi) { for (int i = 0; i < n; i++) { p.push_back({}); for (int j = 0; j < sz[i]; j++) { int v = sx_int("item", 0, hi); for (int o : all) sx_assume(o != v); all.push_back(v); p.back().push_back(v); } } } };
static void combos(const std::vector<std::vector<int>> &p, int size, int fix, std::vector<std::vector<int>> &out) { int n = (int)p.size(); for (int mask = 0; mask < (1 << n); mask++) { if (__builtin_popcount(mask) != size) continue; bool ok = true; for (int i = 0; i < fix; i++) if (!((mask >> i) & 1)) ok = false; if (!ok) continue; std::vector<std::vector<int>> cur{{}}; for (int i = 0; i < n; i++) if ((mask >> i) & 1) { std::vector<std::vector<int>> nx; for (auto &c : cur) for (int v : p[i]) { auto d = c; d.push_back(v); nx.push_back(d); } cur = nx; } for (auto &c : cur) out.push_back(c); } }
static bool sameset(const std::vector<int> &a, const std::vector<int> &b) { if (a.size() != b.size()) return false; bool all = true; for (int x : a) { bool in = false; for (int y : b) in = in | (x == y); all = all & in; } return all; }
static const int SZ[][4] = {{1, 0, 0, 0}, {2, 0, 0, 0}, {1, 1, 0, 0}, {2, 1, 0, 0}, {1, 2, 0, 0}, {2, 2, 0, 0}, {1, 1, 1, 0}, {2, 1, 1, 0}, {1, 2, 1, 0}, {1, 1, 2, 0}, {1, 1, 1, 1}, {3, 1, 0, 0}, {2, 2, 1, 0}, {1, 2, 1, 1}, {1, 1, 1, 2}};
static int np(const int *s) { int n = 0; while (n < 4 && s[n]) n++; return n; }
static void enumr(bool empty, int lo, int hi) { int q = sx_choose("shape", lo, hi), n = np(SZ[q]); int size = sx_choose("size", 1, n), fix = sx_choose("fixed", 0, size); Part P(SZ[q], n, 9); Base B; B.comb.Partitions = P.p; B.comb.NumFixPartitions = fix; B.items.LengthTargets = empty ? sx_choose("targets", 1, 3) : 1;
  Rec s(B.data, B.comb, B.opt, B.items, B.met, B.chk, size, empty); std::vector<std::vector<int>> e0, e; combos(P.p, size, fix, e0); for (auto &c : e0) { bool in = !empty; for (int v : c) in = in | (v < B.items.LengthTargets); if (in) e.push_back(c); }
  int cnt = s.GetCount(); sx_assert(cnt == (int)e.size(), "the announced number of models"); s.CheckStart(); std::string r = s.Start(nullptr, nullptr); sx_assert(r.empty() && s.States.empty(), "no failure is reported"); sx_assert(s.Counter == (int)e.size() && s.seen.size() == e.size(), "the number of estimated models"); 
  for (auto &c : e) { int hits = 0; for (auto &k : s.seen) hits += sameset(c, k) ? 1 : 0; sx_assert(hits == 1, "every model is estimated exactly once"); } if (empty) for (auto &k : s.seen) sx_assert(k.size() == (size_t)size && k[0] < B.items.LengthTargets, "a target is the first variable of a model"); sx_assert(throws([&] { s.CheckStart(); }), "a finished search is not reused"); sx_assert(s.GetCount() == cnt && s.GetCount(true) == cnt * size * size, "the effective number of models"); }
SX_ENTRY(se_enum) { enumr(false, 0, 14); }
SX_ENTRY(se_targets1) { enumr(true, 0, 6); }
SX_ENTRY(se_targets2) { enumr(true, 7, 10); }
SX_ENTRY(se_fail) { int size = sx_choose("size", 1, 2); int sz[3] = {2, 1, 1}; Part P(sz, 3, 9); Base B; B.comb.Partitions = P.p; Rec s(B.data, B.comb, B.opt, B.items, B.met, B.chk, size, false); int N = size == 1 ? 4 : 5; s.mode = sx_choose("how", 0, 5); s.at = sx_choose("at", 0, N - 1); std::string r = s.Start(nullptr, nullptr); sx_assert((int)s.seen.size() == N && s.Counter == N, "a failure does not stop the search"); if (s.mode == 0) sx_assert(s.States.empty(), "no failure"); else { sx_assert(s.States.size() == 1 && s.States.begin()->second == 1, "a failure is counted once"); const std::string &m = s.States.begin()->first; if (s.mode == 2) sx_assert(m.find("A") != std::string::npos, "the message of a failure"); else if (s.mode == 5) sx_assert(!m.empty(), "the message of a failure"); else sx_assert(m == "A", "the message of a failure"); } }
SX_ENTRY(se_states) { int sz[3] = {2, 1, 1}; Part P(sz, 3, 9); Base B; B.comb.Partitions = P.p; struct T : public Searcher { int k = 0; std::vector<int> w; using Searcher::Searcher; std::string EstimateOne(Tv *, Ti *) override { int c = w[k++]; return c == 0 ? "" : c == 1 ? "A" : "B"; } }; int cnt[3] = {0, 0, 0}; std::vector<Searcher *> L; T *t[2]; for (int i = 0; i < 2; i++) { t[i] = new T(B.data, B.comb, B.opt, B.items, B.met, B.chk, i + 1, false); for (int j = 0; j < (i ? 5 : 4); j++) { int v = i && j > 1 ? 0 : sx_choose("result", 0, 2); t[i]->w.push_back(v); cnt[v]++; } L.push_back(t[i]); } ModelSet M(L, B.data, B.comb, B.opt, B.items, B.met, B.chk); M.ShuffleSearchers = sx_choose("shuffle", 0, 1); M.Start(nullptr, nullptr); SearcherModelingInfo I; std::vector<SearcherSummary *> l0, l1, l2; M.CombineInfo(I, l0, l1, l2); sx_assert(I.ExpectedCount == 9 && I.SearchedCount == 9, "number of models of a set"); int a = I.FailsCount.count("A") ? I.FailsCount["A"] : 0, b = I.FailsCount.count("B") ? I.FailsCount["B"] : 0; sx_assert(a == cnt[1] && b == cnt[2] && I.FailsCount.size() == (size_t)((a > 0) + (b > 0)), "failures are counted by message"); sx_assert(l0.size() == 2 && l1.empty() && l2.empty(), "summaries of a set"); delete t[0]; delete t[1]; }
SX_ENTRY(se_cancel) { int size = sx_choose("size", 1, 2); int sz[3] = {2, 1, 1}; Part P(sz, 3, 9); Base B; B.comb.Partitions = P.p; Rec s(B.data, B.comb, B.opt, B.items, B.met, B.chk, size, false); int N = size == 1 ? 4 : 5; int k = sx_choose("cancel", -1, N - 1); if (k < 0) B.opt.RequestCancel = true; s.cancel = k; std::vector<Searcher *> L{&s}; ModelSet M(L, B.data, B.comb, B.opt, B.items, B.met, B.chk); M.Start(nullptr, nullptr); sx_assert((int)s.seen.size() == k + 1 && s.Counter == k + 1 && M.GetNumberOfEstimatedModels() == k + 1, "no model is estimated after a cancel request"); }
SX_ENTRY(se_bad) { int sz[2] = {2, 1}; Part P(sz, 2, 9); Base B; B.comb.Partitions = P.p; B.comb.NumFixPartitions = sx_choose("fixed", 0, 3); int size = sx_choose("size", 1, 3); B.items.LengthEvals = sx_choose("evals", 0, 2); B.items.LengthTargets = sx_choose("targets", 0, 1); B.items.KeepModelEvaluations = sx_choose("keep", 0, 1); B.items.Length1 = sx_choose("length1", 0, 1); bool bad = B.comb.NumFixPartitions > size || B.items.LengthEvals != 1 || B.items.LengthTargets == 0 || (!B.items.KeepModelEvaluations && !B.items.Length1); Rec *s = nullptr; bool t = throws([&] { s = new Rec(B.data, B.comb, B.opt, B.items, B.met, B.chk, size, false); }); sx_assert(t == bad, "exactly inconsistent options are rejected"); if (!t) { sx_assert(throws([&] { s->CheckStart(); }) == (size > 2), "more variables than partitions is rejected"); sx_assert(throws([&] { s->GetCount(); }) == (size > 2), "more variables than partitions is rejected"); delete s; } }
// ---- R02 summaries
struct Sums { Base B; std::vector<Searcher *> none; std::vector<SearcherSummary> s; std::vector<SearcherSummary *> l; std::unique_ptr<ModelSet> M; void make(bool pos, int n = 2) { s.reserve(n + 1); for (int i = 0; i < n; i++) s.emplace_back(0, 0, 0, &B.items, pos, &B.data); s.emplace_back(0, 1, 0, &B.items, pos, &B.data); for (auto &x : s) l.push_back(&x); M.reset(new ModelSet(none, B.data, B.comb, B.opt, B.items, B.met, B.chk)); } };
static void other(Sums &S, bool model) { EK e = std::make_shared<EstimationKeep>(sx_real("other"), 1.0, std::vector<int>(), std::vector<int>(), std::vector<int>(), sx_real("otherMean"), 1.0); S.s.back().Push(e, model); }
static void best(int n) { Sums S; bool pos = sx_choose("positive", 0, 1), model = n < 4 && sx_choose("model", 0, 1); int k = S.B.items.KeepBestCount = sx_choose("best", 0, 3); S.make(pos); std::vector<EK> a; for (int i = 0; i < n; i++) { double m = sx_real("metric"), w = sx_real("weight"); for (auto &e : a) { bool b = pos ? m > e->Metric : m < e->Metric, q = pos ? m < e->Metric : m > e->Metric; if (b) sx_assume(w >= e->Weight); if (q) sx_assume(w <= e->Weight); } EK e = std::make_shared<EstimationKeep>(m, w, std::vector<int>{i}); a.push_back(e); S.s[sx_choose("searcher", 0, 1)].Push(e, model); } other(S, model); std::vector<EK> r; S.M->CombineBests(0, 0, 0, S.l, r); sx_assert((int)r.size() == std::min(k, n), "number of the best models"); auto better = [&](EK &x, EK &y) { return pos ? x->Metric > y->Metric : x->Metric < y->Metric; }; for (size_t i = 0; i < r.size(); i++) { int at = -1; for (int j = 0; j < n; j++) if (r[i] == a[j]) at = j; sx_assert(at >= 0, "a best model is a model of the cell"); a[at].reset(); if (i) sx_assert(!better(r[i], r[i - 1]), "best models are ordered by the metric"); } if (k) for (auto &e : a) if (e) sx_assert(!better(e, r.back()), "no discarded model is better than a kept one"); if (!k) for (auto &s : S.s) sx_assert(s.Bests.empty(), "nothing is kept"); }
SX_ENTRY(su_best3) { best(sx_choose("n", 1, 3)); }
SX_ENTRY(su_best4) { best(4); }
SX_ENTRY(su_all) { Sums S; S.B.items.KeepAll = sx_choose("all", 0, 1); S.make(true); int n = sx_choose("n", 0, 3); std::vector<EK> a; for (int i = 0; i < n; i++) { EK e = std::make_shared<EstimationKeep>(sx_real("metric"), 1.0, std::vector<int>{i}); bool model = sx_choose("model", 0, 1); if (model) a.push_back(e); S.s[sx_choose("searcher", 0, 1)].Push(e, model); } other(S, true); std::vector<EK> r; S.M->CombineAll(0, 0, 0, S.l, r); sx_assert(r.size() == (S.B.items.KeepAll ? a.size() : 0), "number of all models"); if (S.B.items.KeepAll) for (auto &e : a) { int c = 0; for (auto &x : r) c += x == e; sx_assert(c == 1, "every model is kept once"); } std::vector<SearcherSummary *> no; double q1, q2; RunningMoments<4, true, true, Tv> r4; sx_assert(throws([&] { S.M->CombineAll(0, 0, 0, no, r); }) && throws([&] { S.M->CombineBests(0, 0, 0, no, r); }) && throws([&] { S.M->CombineExtremeBounds(0, 0, 0, no, q1, q2); }) && throws([&] { S.M->CombineMixture(0, 0, 0, no, r4); }), "an empty list of summaries is rejected"); }
SX_ENTRY(su_inclusion) { Sums S; S.B.items.KeepInclusionWeights = true; S.B.data.NumEndo = 2; S.B.data.NumExo = 1; S.make(true); int n = sx_choose("n", 0, 2); double sum[3] = {}, cnt[3] = {}; for (int i = 0; i < n; i++) { int mask = sx_choose("variables", 0, 7); double w = sx_choose("missing", 0, 1) ? (double)NAN : sx_real("weight"); std::vector<int> en, ex; for (int v = 0; v < 3; v++) if ((mask >> v) & 1) { (v < 2 ? en : ex).push_back(v); if (!isnan_(w)) { sum[v] += w; cnt[v]++; } } EK e = std::make_shared<EstimationKeep>(0, w, ex, std::vector<int>(), en); S.s[sx_choose("searcher", 0, 1)].Push(e, true); } other(S, true); for (int v = 0; v < 3; v++) { RunningMoments<1, true, false, Tv> r; S.M->CombineInclusionWeights(0, 0, v, S.l, r); sx_assert(r.Count == (int)cnt[v], "number of models that include a variable"); double m = r.GetMean(); if (cnt[v] == 0) sx_assert(isnan_(m), "a variable of no model has no weight"); else sx_assert(sx_eq(m * cnt[v], sum[v]), "average weight of the models that include a variable"); } }
static void extreme(int n) { Sums S; double k = S.B.items.ExtremeBoundsMultiplier = sx_pos("multiplier"); S.make(true); double lo = 0, hi = 0; for (int i = 0; i < n; i++) { double m = sx_range("mean", -1e100, 1e100), v = sx_range("variance", 0, 1e100); sx_assume(k < 1e100); EK e = std::make_shared<EstimationKeep>(0, 1.0, std::vector<int>(), std::vector<int>(), std::vector<int>(), m, v); S.s[sx_choose("searcher", 0, 1)].Push(e, false); double d = k * std::sqrt(v); if (!i || m - d < lo) lo = m - d; if (!i || m + d > hi) hi = m + d; } other(S, false); double a, b; S.M->CombineExtremeBounds(0, 0, 0, S.l, a, b); sx_assert(sx_eq(a, lo), "lower extreme bound"); sx_assert(sx_eq(b, hi), "upper extreme bound"); }
SX_ENTRY(su_extreme2) { extreme(sx_choose("n", 1, 2)); }
SX_ENTRY(su_extreme3) { extreme(3); }
static void mix(int n, bool var) { Sums S; S.B.items.KeepMixture = true; S.make(true); double sw = 0, sm = 0, q = 0; std::vector<double> m, v, w; for (int i = 0; i < n; i++) { m.push_back(sx_real("mean")); v.push_back(sx_range("variance", 0, 1e100)); w.push_back(sx_pos("weight")); EK e = std::make_shared<EstimationKeep>(0, w[i], std::vector<int>(), std::vector<int>(), std::vector<int>(), m[i], v[i]); S.s[sx_choose("searcher", 0, 1)].Push(e, false); sw += w[i]; sm += w[i] * m[i]; } other(S, false); RunningMoments<4, true, true, Tv> r; S.M->CombineMixture(0, 0, 0, S.l, r); sx_assert(r.Count == n && sx_eq(r.SumWeights, sw), "weights of a mixture"); double mu = r.GetMean(); sx_assert(sx_eq(mu * sw, sm), "mean of a mixture"); if (var) { for (int i = 0; i < n; i++) q += w[i] * (v[i] + (m[i] - sm / sw) * (m[i] - sm / sw)); sx_assert(sx_eq(r.GetVariance() * sw, q), "variance of a mixture"); } }
SX_ENTRY(su_mix2) { mix(sx_choose("n", 1, 2), true); }
SX_ENTRY(su_mix3) { mix(3, true); }
SX_ENTRY(su_cdf) { Sums S; int nc = sx_choose("points", 1, 2); for (int i = 0; i < nc; i++) S.B.items.CdfsAt.push_back(sx_real("at")); S.make(true); int n = sx_choose("n", 1, 3); double s[2] = {}, sw = 0; for (int i = 0; i < n; i++) { double m = sx_real("mean"), v = sx_pos("variance"), w = sx_pos("weight"); EK e = std::make_shared<EstimationKeep>(0, w, std::vector<int>(), std::vector<int>(), std::vector<int>(), m, v); S.s[sx_choose("searcher", 0, 1)].Push(e, false); sw += w; for (int c = 0; c < nc; c++) s[c] += w * Distribution<DistributionType::kNormal>(m, std::sqrt(v)).GetCdf(S.B.items.CdfsAt[c]); } other(S, false); for (int c = 0; c < nc; c++) { RunningMoments<1, true, true, Tv> r; S.M->CombineCdfAt(0, 0, 0, c, S.l, r); sx_assert(sx_eq(r.GetMean() * sw, s[c]), "combined probability"); sx_assert(sx_eq(r.SumWeights, sw) && r.Count == n, "weights of a combined probability"); } }
// ---- R02 regression searchers
struct Reg : public SearcherReg { double M[2][2], T[2][2], W[2][2]; bool nanM[2][2]; int calls = 0; std::vector<int> col, tp, in, cur; std::string msg; using SearcherReg::SearcherReg; std::string EstimateOneReg(Tv *, Ti *, VMatrix<Tv> &me, VMatrix<Tv> &m1, VMatrix<Tv> &v1, VMatrix<Ti> &ex) override { calls++; col = ColIndices; tp = TargetsPositions; in = InnerIndices; cur = CurrentIndices.Vec; sx_assert(me.Mat.RowsCount == 2 && me.Mat.ColsCount == (int)tp.size() && m1.Mat.ColsCount == me.Mat.ColsCount && v1.Mat.ColsCount == me.Mat.ColsCount && m1.Mat.RowsCount == pItems->Length1 && ex.Mat.length() == 1, "sizes of the results"); ex.Mat.Data[0] = 7; for (int t = 0; t < (int)tp.size(); t++) { for (int i = 0; i < 2; i++) me.Mat.Set(i, t, M[i][t]); for (int i = 0; i < pItems->Length1; i++) if (!isnan_(T[i][t])) { m1.Mat.Set(i, t, T[i][t]); v1.Mat.Set(i, t, W[i][t]); } } return msg; } };
static void reg(bool innerExo) { Base B; B.data.NumEndo = 2; B.data.NumExo = 2; bool hw = B.data.HasWeight = sx_choose("weight", 0, 1); int nt = B.items.LengthTargets = sx_choose("targets", 1, 2); B.items.LengthEvals = 2; B.items.KeepAll = true; B.items.Length1 = sx_choose("length1", 0, 2); B.items.KeepModelEvaluations = B.items.Length1 == 0 || sx_choose("keep", 0, 1); B.met.MetricsIn = {GoodnessOfFitType::kAuc}; B.met.MetricsOut = {ScoringType::kFrequencyCost}; if (sx_choose("min", 0, 1)) { B.met.MetricsIn = {GoodnessOfFitType::kAic}; B.met.MinMetricIn[GoodnessOfFitType::kAic] = {sx_real("min"), sx_real("min")}; } B.met.EvalIsPosOrientation = {true, false}; 
  int outer = sx_choose("outer", 0, 1), im = sx_choose("inner", 0, 2); int ob = innerExo ? 0 : 2, ib = innerExo ? 2 : 0; B.comb.Partitions = {{outer + ob}}; std::vector<int> inner; if (im != 1) inner.push_back(ib); if (im != 0) inner.push_back(ib + 1); std::vector<int> endo = innerExo ? std::vector<int>{outer} : inner, exo = innerExo ? inner : std::vector<int>{outer + 2}, tg; for (int e : endo) if (e < nt) tg.push_back(e); 
  std::unique_ptr<Reg> R; bool t = throws([&] { R.reset(new Reg(B.data, B.comb, B.opt, B.items, B.met, B.chk, 1, innerExo, inner, 1)); }); sx_assert(t == (!innerExo && tg.empty()), "a searcher without a target is rejected"); if (t) return; int mask = sx_choose("missing", 0, 3), fail = sx_choose("fail", 0, 1); if (fail) R->msg = "F"; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { R->M[i][j] = j == 0 ? sx_nanor("metric", mask, i) : sx_real("metric"); R->T[i][j] = i == 1 && j == 0 && mask == 1 ? (double)NAN : sx_real("mean"); R->W[i][j] = sx_real("var"); } 
  R->Start(nullptr, nullptr); if (tg.empty()) { sx_assert(R->calls == 0 && R->Counter == 0, "a model without a target is not estimated"); return; } sx_assert(R->calls == 1 && R->Counter == 1, "the model is estimated"); std::vector<int> ec = endo; if (hw) ec.push_back(2); for (int x : exo) ec.push_back(x + hw); sx_assert(R->col == ec, "columns of the model: endogenous, weight, exogenous"); sx_assert(R->tp == tg, "positions of the targets"); bool allnan = true; for (int i = 0; i < 2; i++) for (size_t j = 0; j < tg.size(); j++) allnan &= isnan_(R->M[i][j]); sx_assert((int)R->States.size() == (fail || allnan), "exactly a failed estimation or missing metrics are reported"); if (fail) sx_assert(R->States.count("F") == 1, "message of a failure");
  for (int i = 0; i < 2; i++) for (int g = 0; g < nt; g++) { auto &S0 = R->Summaries0[i][g]; int j = -1; for (size_t x = 0; x < tg.size(); x++) if (tg[x] == g) j = (int)x; bool have = j >= 0 && !fail && !isnan_(R->M[i][j]); sx_assert(S0.All.size() == (size_t)(have && B.items.KeepModelEvaluations), "a model is saved for its own targets"); double w = 0; if (have) w = i == 0 ? GoodnessOfFit::ToWeight(B.met.MetricsIn[0], R->M[i][j], B.met.MinMetricIn.empty() ? 0.0 : B.met.MinMetricIn.begin()->second[g]) : 1 - R->M[i][j]; if (!S0.All.empty()) { auto &e = *S0.All[0]; sx_assert(sx_eq(e.Metric, R->M[i][j]) && sx_eq(e.Weight, w), "metric and weight of the saved model"); sx_assert(e.Endogenous == endo && e.Exogenouses == exo && e.Extra == std::vector<int>{7}, "variables of the saved model"); } }
}
SX_ENTRY(su_reg_endo) { reg(false); }
SX_ENTRY(su_reg_exo) { reg(true); }
SX_ENTRY(su_reg_type1) { Base B; B.data.NumEndo = 2; B.data.NumExo = 1; B.items.LengthTargets = 2; B.items.LengthEvals = 2; B.items.KeepBestCount = 1; B.items.Length1 = 2; B.items.KeepModelEvaluations = false; B.met.MetricsIn = {GoodnessOfFitType::kAuc}; B.met.MetricsOut = {ScoringType::kSign}; B.met.EvalIsPosOrientation = {true, true}; B.comb.Partitions = {{2}}; int im = sx_choose("inner", 0, 2); std::vector<int> inner; if (im != 1) inner.push_back(0); if (im != 0) inner.push_back(1); Reg R(B.data, B.comb, B.opt, B.items, B.met, B.chk, 1, false, inner, 1); int mask = sx_choose("missing", 0, 15); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { R.M[i][j] = sx_nanor("metric", mask, i + 2 * j); R.T[i][j] = i == 1 && j == 0 ? (double)NAN : sx_real("mean"); R.W[i][j] = sx_real("var"); } R.Start(nullptr, nullptr);
  for (int i = 0; i < 2; i++) for (int g = 0; g < 2; g++) { int j = -1; for (size_t x = 0; x < inner.size(); x++) if (inner[x] == g) j = (int)x; for (int h = 0; h < 2; h++) { auto &S1 = R.Summaries1[i][g][h]; bool have = j >= 0 && !isnan_(R.M[i][j]) && !isnan_(R.T[h][j]); sx_assert(S1.Bests.size() == (size_t)have, "a coefficient is saved for its own target"); if (have) { auto &e = **S1.Bests.begin(); sx_assert(sx_eq(e.Mean, R.T[h][j]) && sx_eq(e.Variance, R.W[h][j]) && sx_eq(e.Metric, R.M[i][j]) && sx_eq(e.Weight, R.M[i][j]), "mean, variance, metric and weight of a saved coefficient"); } } } }
// ---- R02 options
SX_ENTRY(su_options) { Base B; auto &m = B.met; std::vector<GoodnessOfFitType> ai{GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kAuc, GoodnessOfFitType::kBrier, GoodnessOfFitType::kFrequencyCost}; std::vector<ScoringType> ao{ScoringType::kAuc, ScoringType::kBrier, ScoringType::kCrps, ScoringType::kDirection, ScoringType::kFrequencyCost, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kSign}; for (int rep = 0; rep < 2; rep++) { m.MetricsIn.clear(); m.MetricsOut.clear(); int ni = sx_choose("in", 0, 2), a = rep ? 1 : sx_choose("first", 0, 4), no = sx_choose("out", 0, 2), b = rep ? 3 : sx_choose("firstOut", 0, 9); for (int i = 0; i < ni; i++) m.MetricsIn.push_back(ai[(a + i) % 5]); for (int i = 0; i < no; i++) m.MetricsOut.push_back(ao[(b + 3 * i) % 10]); m.SimFixSize = 5; m.TrainRatio = 0.5; bool rnd = rep; m.Seed = 4; m.Update(rnd, false); sx_assert(m.EvalIsPosOrientation.size() == (size_t)(ni + no), "an orientation for every metric"); for (int i = 0; i < ni; i++) sx_assert(m.EvalIsPosOrientation[i] == (m.MetricsIn[i] == GoodnessOfFitType::kAuc), "orientation of in-sample metrics"); for (int i = 0; i < no; i++) { auto t = m.MetricsOut[i]; sx_assert(m.EvalIsPosOrientation[ni + i] == (t == ScoringType::kAuc || t == ScoringType::kDirection || t == ScoringType::kSign), "orientation of out-of-sample metrics"); } for (auto t : ai) { int e = -1; for (int i = 0; i < ni; i++) if (m.MetricsIn[i] == t) e = i; sx_assert(m.MetricInIndices.at(t) == e, "position of an in-sample metric"); } for (auto t : ao) { int e = -1; for (int i = 0; i < no; i++) if (m.MetricsOut[i] == t) e = i; sx_assert(m.MetricOutIndices.at(t) == e, "position of an out-of-sample metric"); } sx_assert(m.Seed == (rnd ? 4 : 0), "a seed is for random samples"); SearchItems it; int nt = sx_choose("targets", 0, 2); sx_assert(throws([&] { it.Update(m, nt, 2, 2); }) == (nt == 0), "a target is required"); if (nt) sx_assert(it.LengthEvals == ni + no && it.LengthTargets == nt, "lengths of the dimensions"); } }
SX_ENTRY(su_checks) { Base B; auto &m = B.met; int ni = sx_choose("in", 0, 1), no = sx_choose("out", 0, 1), nh = sx_choose("horizons", 0, 1); bool ts = sx_choose("timeSeries", 0, 1); if (ni) m.MetricsIn = {GoodnessOfFitType::kAic}; if (no) m.MetricsOut = {ScoringType::kMae}; for (int i = 0; i < nh; i++) m.Horizons.push_back(1); m.SimFixSize = sx_int("sim", 0, 4); m.TrainFixSize = sx_int("train", 0, 4); m.TrainRatio = sx_range("ratio", 0, 1); bool bad = (no && m.SimFixSize == 0) || (!ts && m.SimFixSize > 0 && m.TrainFixSize == 0 && m.TrainRatio == 0) || (ts && nh != no); bool t = throws([&] { m.Update(true, ts); }); sx_assert(t == bad, "exactly inconsistent metric options are rejected"); if (t) return; if (!ts) sx_assert(m.Horizons.empty(), "horizons are for time series"); auto &c = B.chk; c.Estimation = sx_choose("estimation", 0, 1); c.Prediction = sx_choose("prediction", 0, 1); c.MinObsCount = sx_int("minObs", 0, 3); c.MinDof = sx_int("minDof", 0, 3); c.MinOutSim = sx_int("minSim", 0, 5); int kind = sx_choose("bound", 0, 4); if (kind == 1) c.MaxAic = sx_real("b"); if (kind == 2) c.MaxSic = sx_real("b"); if (kind == 3) c.MinR2 = sx_real("b"); if (kind == 4) c.MaxConditionNumber = sx_real("b"); bool e0 = c.Estimation, p0 = c.Prediction; t = throws([&] { c.Update(m); }); sx_assert(t == (m.SimFixSize > 0 && c.MinOutSim > m.SimFixSize), "exactly too many valid simulations are rejected"); if (t) return; sx_assert(c.Prediction == (p0 && ts), "predictions are for time series"); sx_assert(c.mCheckCN == (no && kind == 4) , "condition number in simulations"); bool need = e0 || ni || c.MinObsCount > 0 || c.MinDof > 0 || kind == 1 || kind == 2 || kind == 3; sx_assert(c.Estimation == need, "the whole sample is estimated when a check needs it"); }
