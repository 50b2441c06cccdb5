// R03: searching discrete choice models.  Estimation and out-of-sample evaluation of one model (B01-B04) are environment.
#include "discrete_choice.h"
#include "common.h"
#include <memory>
#include <set>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<int> Vi;
typedef std::vector<double> Vd;
Newton::Newton(Ti) {}
struct One { int dist; Vi ex; Vi rows; double aic, sic, cn, b[5], v[5], ro[3]; Vd p; bool est = false, sim = false, prob = false; int what = 0; };
static struct Env { int rows = 4, miss = -1, nexo = 2, nch = 2, fail = -1, how = 0, cancelAt = -1, calls = 0; bool w = false; bool est = true; double minObs = 0, minDof = 0; SearchModelChecks *chk = nullptr; SearchOptions *opt = nullptr; SearchMetricOptions *met = nullptr; std::vector<Mx> *costs = nullptr; RocOptions *roc = nullptr; Newton *nw = nullptr; Vd y, wt; std::vector<One> L; std::vector<unsigned> seeds; One *now = nullptr; } U;
static int u = 0;
static double fresh(const char *n) { u++; return sx_range(n, 10.0 * u, 10.0 * u + 1); }
static int col(int v) { return v ? v + (U.w ? 1 : 0) : 0; } // column of a variable (0 is the dependent one)
static Vi complete(const Vi &ex) { Vi r; for (int i = 0; i < U.rows; i++) { bool ok = U.miss != i; if (U.w && U.miss == U.rows + i) ok = false; for (int v : ex) if (col(v) * U.rows + i == U.miss) ok = false; if (ok) r.push_back(i); } return r; }
static double cell(int v, int i) { return v == 0 ? U.y[i] : v == 1 ? 1.0 : 100 * v + i; }
static One *get(int dist, const Mx &y, const Mx *w, const Mx &x) { Vi ex; for (int j = 0; j < x.ColsCount; j++) ex.push_back(j == 0 ? 1 : (int)(x.Get0(0, j) / 100)); Vi r = complete(ex); sx_assert(x.RowsCount == (int)r.size() && y.length() == x.RowsCount && (w != nullptr) == U.w && (!w || w->length() == x.RowsCount), "exactly the complete observations of the model's variables are used"); for (int i = 0; i < (int)r.size(); i++) { sx_assert(y.Data[i] == U.y[r[i]], "the dependent variable of a model"); if (w) sx_assert(sx_eq(w->Data[i], U.wt[r[i]]), "the weights of a model"); for (int j = 0; j < x.ColsCount; j++) sx_assert(x.Get0(i, j) == cell(ex[j], r[i]), "a model gets its own regressors"); } for (auto &o : U.L) if (o.dist == dist && o.ex == ex) return &o; One o; o.dist = dist; o.ex = ex; o.rows = r; o.what = (int)U.L.size() == U.fail ? U.how : 0; U.L.push_back(o); return &U.L.back(); }
static void fill(double *st, int n, double *wk, int w) { for (int i = 0; i < n; i++) st[i] = -1.5; for (int i = 0; i < w; i++) wk[i] = -2.5; }
static void opts(const Newton &o) { sx_assert(o.IterationMax == U.nw->IterationMax && sx_eq(o.TolFunction, U.nw->TolFunction) && sx_eq(o.TolGradient, U.nw->TolGradient) && o.UseLineSearch == U.nw->UseLineSearch, "options of the optimiser"); }
template <DiscreteChoiceModelType m, DiscreteChoiceDistType d> DiscreteChoice<m, d>::DiscreteChoice(Ti n, Ti k, Ti ch, bool det) { sx_assert(n == U.rows && ch == U.nch && !det, "sizes of the estimated models"); int q = k + ch - 2; StorageSize = q + q * q + 2; WorkSize = 4 + k; }
template <DiscreteChoiceModelType m, DiscreteChoiceDistType d> void DiscreteChoice<m, d>::Calculate(const Mx &y, const Mx &x, const Mx *w, Tv *st, Tv *wk, Ti ch, bool) { fill(st, StorageSize, wk, WorkSize); opts(Optim); One *o = get((int)d, y, w, x); sx_assert(!o->est && ch == U.nch, "a model is estimated once"); o->est = true; int q = x.ColsCount + U.nch - 2; Beta.SetData(st, q, 1); BetaVar.SetData(&st[q], q, q); for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) st[q + i * q + j] = i == j ? sx_range("var", 0, 9) : sx_real("cov"); for (int i = 0; i < q; i++) { o->b[i] = st[i] = sx_real("beta"); o->v[i] = st[q + i * q + i]; } o->aic = Aic = fresh("aic"); o->sic = Sic = fresh("sic"); o->cn = condition_number = sx_real("condition"); if (U.calls++ == U.cancelAt) U.opt->RequestCancel = true; U.now = o; if (o->what == 1) throw std::runtime_error("E"); }
template <DiscreteChoiceModelType m, DiscreteChoiceDistType d> void DiscreteChoice<m, d>::GetProbabilities(const Mx &x, Mx &r, Tv *wk) { int n = x.RowsCount; for (int i = 0; i < n + U.nch - 2; i++) wk[i] = -3.5; One *o = U.now; sx_assert((int)o->rows.size() == n && (int)o->ex.size() == x.ColsCount && !o->prob, "probabilities of the model's observations"); for (int i = 0; i < n; i++) for (int j = 0; j < x.ColsCount; j++) sx_assert(x.Get0(i, j) == cell(o->ex[j], o->rows[i]), "probabilities of the model's observations"); sx_assert(r.RowsCount >= n && r.ColsCount == U.nch, "a probability for every observation and outcome"); o->prob = true; for (int i = 0; i < n; i++) { double p = sx_range("p", 0, 1); o->p.push_back(p); r.Set0(i, 0, 1 - p); r.Set0(i, 1, p); for (int j = 2; j < U.nch; j++) r.Set0(i, j, 0); } }
#define NOP(f, ...) template <DiscreteChoiceModelType m, DiscreteChoiceDistType d> void DiscreteChoice<m, d>::f(const Mx &, const Mx &, const Mx *, Tv *__VA_ARGS__) {}
NOP(EstimatePriorBinary) NOP(EstimatePriorOrdered) NOP(EstimateBinary, , bool) NOP(EstimateOrdered, , bool)
template <bool hw, DiscreteChoiceModelType m, DiscreteChoiceDistType d> DiscreteChoiceSim<hw, m, d>::DiscreteChoiceSim(Ti n, Ti c, Ti ch, Tv ratio, Ti fix, Ti nc, bool br, bool auc, bool freq, PcaAnalysisOptions *pca, bool we) { auto has = [](ScoringType t) { for (auto x : U.met->MetricsOut) if (x == t) return true; return false; }; sx_assert(n == U.rows && ch == U.nch && sx_eq(ratio, U.met->TrainRatio) && fix == U.met->TrainFixSize && br == has(ScoringType::kBrier) && auc == has(ScoringType::kAuc) && !freq && !pca && we == U.met->WeightedEval && nc == (int)U.costs->size() && hw == U.w, "options of the simulation"); (void)c; mCostMatrixCount = nc; StorageSize = nc + 3; WorkSize = 5; WorkSizeI = n + 1; }
template <bool hw, DiscreteChoiceModelType m, DiscreteChoiceDistType d> void DiscreteChoiceSim<hw, m, d>::Calculate(const Mx &D, const std::vector<Mx> *cm, Tv *st, Tv *wk, Ti *wi, bool &cancel, RocOptions &ro, bool check, std::set<const char *> *er, Ti maxinv) { fill(st, StorageSize, wk, WorkSize); for (int i = 0; i < WorkSizeI; i++) wi[i] = -7; opts(Optim); int n = D.RowsCount; Mx y(D.Data, n, 1), w(hw ? &D.Data[n] : nullptr, n, 1), x(&D.Data[n * (hw ? 2 : 1)], n, D.ColsCount - (hw ? 2 : 1)); One *o = get((int)d, y, hw ? &w : nullptr, x); sx_assert(!o->sim && o->est == U.est, "a model is simulated once"); o->sim = true; sx_assert(cm == U.costs && &cancel == &U.opt->RequestCancel && &ro == U.roc && check && er == nullptr && SimulationMax == U.met->SimFixSize, "arguments of the simulation"); sx_assert(maxinv == U.met->SimFixSize - U.chk->MinOutSim, "the limit on failing simulations"); U.seeds.push_back(Seed); CostRatios.SetData(st, mCostMatrixCount, 1); o->ro[0] = 0; if (mCostMatrixCount) { double f = fresh("cost"); for (int k = 0; k < mCostMatrixCount; k++) { double e = k ? sx_real("other") : f; sx_assume(e >= f && e <= f + 1); st[k] = e; o->ro[0] += e; } o->ro[0] /= mCostMatrixCount; } Auc = o->ro[1] = fresh("auc"); BrierScore = o->ro[2] = o->what == 3 ? (double)NAN : fresh("brier"); if (o->what == 2) throw std::runtime_error("S"); }
#define ID(m, d) template class ldt::DiscreteChoice<DiscreteChoiceModelType::m, DiscreteChoiceDistType::d>; template class ldt::DiscreteChoiceSim<true, DiscreteChoiceModelType::m, DiscreteChoiceDistType::d>; template class ldt::DiscreteChoiceSim<false, DiscreteChoiceModelType::m, DiscreteChoiceDistType::d>;
ID(kBinary, kLogit) ID(kBinary, kProbit) ID(kOrdered, kLogit) ID(kOrdered, kProbit)
typedef GoodnessOfFitType G;
typedef ScoringType S;
struct B { SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchMetricOptions met; SearchModelChecks chk; Newton nw; RocOptions roc; std::vector<Mx> costs; Vd d, cd; Mx D; bool bin = true, logit = true, probit = false; B(int nexo, bool w) { U = Env(); u = 0; U.nexo = nexo; U.w = w; data.NumEndo = 1; data.NumExo = nexo; data.HasWeight = w; data.HasIntercept = true; comb.NumFixPartitions = 1; comb.NumFixItems = 0; comb.NumTargets = 1; opt.ReportInterval = 0; items.KeepAll = true; items.KeepBestCount = 9; met.Seed = 0; met.TrainRatio = 0.5; met.SimFixSize = 0; for (int j = 0; j < nexo; j++) comb.Partitions.push_back({1 + j}); nw.IterationMax = 17; nw.TolFunction = 0.25; nw.TolGradient = 0.125; nw.UseLineSearch = true; U.chk = &chk; U.opt = &opt; U.met = &met; U.costs = &costs; U.roc = &roc; U.nw = &nw; }
  void cost(int n) { cd.assign(n * 2 * (U.nch + 1), 0); for (int k = 0; k < n; k++) { int o = k * 2 * (U.nch + 1); cd[o] = 0.5; cd[o + 1] = 1; for (int i = 2; i < 2 * (U.nch + 1); i++) cd[o + i] = sx_range("c", 1, 5); costs.push_back(Mx(&cd[o], 2, U.nch + 1)); } }
  void run() { int n = U.rows; for (int i = 0; i < n; i++) U.y.push_back(i % U.nch); for (int i = 0; i < n; i++) U.wt.push_back(U.w ? sx_pos("w") : 1); for (int v = 0; v <= U.nexo; v++) { for (int i = 0; i < n; i++) d.push_back(cell(v, i)); if (v == 0 && U.w) for (int i = 0; i < n; i++) d.push_back(U.wt[i]); } if (U.miss >= 0) d[U.miss] = NAN; D.SetData(d.data(), n, (int)d.size() / n); } };
static void go(B &b, bool coef) { b.items.Length1 = coef ? U.nexo + U.nch - 2 : 0; b.run(); std::unique_ptr<DiscreteChoiceModelsetBase> M(DiscreteChoiceModelsetBase::GetFromTypes(b.bin, U.w, b.data, b.comb, b.opt, b.items, b.met, b.chk, b.D, b.costs, b.logit, b.probit, b.nw, b.roc)); auto &ms = M->Modelset; ms.ShuffleSearchers = false; std::unique_ptr<double[]> wk(new double[ms.WorkSize]); std::unique_ptr<int[]> wi(new int[ms.WorkSizeI]); for (int i = 0; i < ms.WorkSize; i++) wk[i] = 0.7; M->Start(wk.get(), wi.get()); if (U.cancelAt >= 0) { sx_assert((int)U.L.size() == U.cancelAt + 1, "no model is estimated after a cancel request"); return; }
  int ni = (int)b.met.MetricsIn.size(), no = (int)b.met.MetricsOut.size(), want = 0, bad = 0; for (int dist = 0; dist < 2; dist++) { if (!(dist == (int)DiscreteChoiceDistType::kLogit ? b.logit : b.probit)) continue; for (int s : b.comb.Sizes) for (int mask = 1; mask < (1 << U.nexo); mask += 2) if (__builtin_popcount(mask) == s) { want++; Vi ex; for (int j = 0; j < U.nexo; j++) if ((mask >> j) & 1) ex.push_back(1 + j); int r = (int)complete(ex).size(), h = 0; for (auto &o : U.L) h += o.dist == dist && o.ex == ex; bool few = U.est && (r < U.minObs || (U.minDof > 0 && r - s - (U.nch - 2) < U.minDof)); sx_assert(h == (few ? 0 : 1), "exactly the models with enough observations are estimated"); bad += few; } }
  auto fails = [&](One &o) { if (o.what == 1 || o.what == 2) return true; if (!U.est) return false; return (b.chk.mCheckCN_all && o.cn > b.chk.MaxConditionNumber) || o.aic > b.chk.MaxAic || o.sic > b.chk.MaxSic; }; std::vector<bool> fl; for (auto &o : U.L) { fl.push_back(fails(o)); bad += fl.back(); if (!fl.back()) sx_assert(o.est == U.est && o.sim == (no > 0), "a model is estimated and simulated as requested"); }
  SearcherModelingInfo I; std::vector<SearcherSummary *> l0, l1, l2; ms.CombineInfo(I, l0, l1, l2); int nf = 0; for (auto &a : I.FailsCount) nf += a.second; sx_assert(I.ExpectedCount == want && I.SearchedCount == want && nf == bad, "models and failures are counted");
  auto same = [&](One &o, std::shared_ptr<EstimationKeep> &e) { return e->Exogenouses == o.ex && e->Endogenous == Vi{0} && e->Extra.size() == 1 && e->Extra[0] == o.dist; };
  for (int i = 0; i < ni + no; i++) { std::vector<std::shared_ptr<EstimationKeep>> r; ms.CombineAll(i, 0, 0, l0, r); size_t n = 0; for (size_t k = 0; k < U.L.size(); k++) { auto &o = U.L[k]; if (fl[k]) continue; double v = NAN, num = 0, den = 0; int R = (int)o.rows.size(); auto W = [&](int q) { return U.w && b.met.WeightedEval ? U.wt[o.rows[q]] : 1.0; }; if (i < ni && b.met.MetricsIn[i] != G::kAic && b.met.MetricsIn[i] != G::kSic) { sx_assert(o.prob, "in-sample metrics are calculated"); if (!o.prob) return; } if (i < ni) switch (b.met.MetricsIn[i]) { case G::kAic: v = o.aic; break; case G::kSic: v = o.sic; break;
        case G::kBrier: for (int q = 0; q < R; q++) { double e = U.y[o.rows[q]] - o.p[q]; num += W(q) * e * e; den += W(q); } v = num / den; break;
        case G::kFrequencyCost: for (auto &c : b.costs) { num = den = 0; for (int q = 0; q < R; q++) { int y = (int)U.y[o.rows[q]]; double p = y == 1 ? o.p[q] : y == 0 ? 1 - o.p[q] : 0; num += W(q) * c.Get0(p > 0.5 ? 1 : 0, y + 1); den += W(q); } v = (v != v ? 0 : v) + num / den / b.costs.size(); } break;
        case G::kAuc: { Vd y, w, p(2 * R); for (int q = 0; q < R; q++) { y.push_back(U.y[o.rows[q]]); w.push_back(W(q)); p[q] = 1 - o.p[q]; p[R + q] = o.p[q]; } Mx Y(y.data(), R, 1), P(p.data(), R, 2), Wm(w.data(), R, 1); if (U.w && b.met.WeightedEval) { ROC<true, false> g(R); g.Calculate(Y, P, &Wm, b.roc); v = g.Result; } else { ROC<false, false> g(R); g.Calculate(Y, P, nullptr, b.roc); v = g.Result; } break; } default: break; }
      else v = o.ro[b.met.MetricsOut[i - ni] == S::kFrequencyCost ? 0 : b.met.MetricsOut[i - ni] == S::kAuc ? 1 : 2];
      if (v != v) continue; n++; int hits = 0; for (auto &e : r) if (same(o, e)) { hits++; sx_assert(sx_eq(e->Metric, v), "a metric is stored in its own place"); } sx_assert(hits == 1, "every estimated model is stored once");
      if (coef) for (int x = 0; x < U.nexo; x++) { std::vector<std::shared_ptr<EstimationKeep>> cf; ms.CombineBests(i, 0, x, l1, cf); int p = -1; for (int q = 0; q < (int)o.ex.size(); q++) if (o.ex[q] == 1 + x) p = q; int h = 0; for (auto &e : cf) if (same(o, e)) { h++; if (p >= 0) { sx_assert(sx_eq(e->Mean, o.b[p]), "a coefficient is stored under its own variable"); sx_assert(sx_eq(e->Variance, o.v[p]), "variance of a stored coefficient"); sx_assert(sx_eq(e->Metric, v), "metric of a stored coefficient"); } } sx_assert(h == (p >= 0), "coefficients of the model's regressors are stored"); } }
    sx_assert(r.size() == n, "only estimated models are stored"); } }
static int missing(int nexo, bool w, bool all) { int c = 1 + nexo + w; int k = sx_choose("missing", -1, all ? 4 * c - 1 : c - 1); return all || k < 0 ? k : 4 * k + (k + 1) % 4; }
static void dist(B &b) { int k = sx_choose("distribution", 0, 2); b.logit = k != 1; b.probit = k != 0; }
SX_ENTRY(sd_data) { bool w = sx_choose("weights", 0, 1); B b(3, w); U.miss = missing(3, w, true); dist(b); b.comb.Sizes = {1, 2, 3}; b.met.MetricsIn = {G::kAic, G::kSic}; go(b, false); }
SX_ENTRY(sd_coef) { bool w = sx_choose("weights", 0, 1); B b(3, w); b.bin = sx_choose("binary", 0, 1); U.nch = b.bin ? 2 : sx_choose("choices", 3, 4); U.miss = missing(3, w, false); if (U.nch > 2) U.miss = U.miss >= 4 * (1 + w) ? U.miss : -1; dist(b); b.comb.Sizes = {2, 3}; b.met.MetricsIn = {sx_choose("metric", 0, 1) ? G::kAic : G::kSic}; b.chk.Estimation = true; go(b, true); }
SX_ENTRY(sd_brier) { bool w = sx_choose("weights", 0, 1); B b(2, w); U.rows = 3; b.met.WeightedEval = sx_choose("weighted", 0, 1); int k = sx_choose("missing", -1, 2 + w); U.miss = k < 0 ? -1 : 3 * k + 2 - k % 2; b.comb.Sizes = {1, 2}; int f = sx_choose("metrics", 0, 2); b.met.MetricsIn = f == 0 ? std::vector<G>{G::kBrier} : f == 1 ? std::vector<G>{G::kBrier, G::kAic} : std::vector<G>{G::kSic, G::kBrier}; go(b, false); }
SX_ENTRY(sd_auc) { bool w = sx_choose("weights", 0, 1); B b(2, w); U.rows = 3; b.met.WeightedEval = sx_choose("weighted", 0, 1); int k = sx_choose("missing", -1, 2 + w); U.miss = k < 0 ? -1 : 3 * k + 2; b.comb.Sizes = {2}; int f = sx_choose("metrics", 0, 1); b.met.MetricsIn = f == 0 ? std::vector<G>{G::kAuc} : std::vector<G>{G::kSic, G::kAuc}; go(b, false); }
SX_ENTRY(sd_cost) { bool w = sx_choose("weights", 0, 1); B b(2, w); U.rows = 3; b.met.WeightedEval = sx_choose("weighted", 0, 1); int k = sx_choose("missing", -1, 2 + w); U.miss = k < 0 ? -1 : 3 * k + 2; b.comb.Sizes = {2}; int f = sx_choose("metrics", 0, 1); b.met.MetricsIn = f == 0 ? std::vector<G>{G::kFrequencyCost} : std::vector<G>{G::kSic, G::kFrequencyCost}; b.cost(sx_choose("tables", 1, 2)); go(b, false); }
SX_ENTRY(sd_out) { bool w = sx_choose("weights", 0, 1); B b(2, w); U.miss = missing(2, w, false); b.comb.Sizes = {1, 2}; int f = sx_choose("metrics", 0, 6); S a[] = {S::kFrequencyCost, S::kAuc, S::kBrier}; for (int i = 0; i < 3; i++) if (((f + 1) >> i) & 1) b.met.MetricsOut.push_back(a[(i + 2) % 3]); U.est = sx_choose("estimation", 0, 1); if (U.est) b.met.MetricsIn = {G::kAic}; bool c = false; for (auto t : b.met.MetricsOut) c |= t == S::kFrequencyCost; if (c) b.cost(sx_choose("tables", 1, 2)); b.met.SimFixSize = sx_choose("simulations", 1, 3); b.chk.MinOutSim = b.met.SimFixSize > 1 ? sx_choose("minimum", 0, 2) : 0; b.met.WeightedEval = w; go(b, false); }
SX_ENTRY(sd_both) { B b(2, true); b.met.WeightedEval = true; U.rows = 3; U.miss = 11; b.comb.Sizes = {2}; b.met.MetricsIn = {G::kAuc, G::kFrequencyCost, G::kBrier, G::kAic}; b.met.MetricsOut = {S::kBrier, S::kFrequencyCost}; b.met.SimFixSize = 2; b.cost(1); dist(b); go(b, true); }
SX_ENTRY(sd_checks) { B b(2, false); int ch = sx_choose("choices", 2, 3); U.nch = ch; b.bin = ch == 2; U.miss = sx_choose("missing", 0, 1) ? 11 : -1; b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kAic}; switch (sx_choose("check", 0, 4)) { case 0: U.minObs = b.chk.MinObsCount = sx_choose("minObs", 1, 6); break; case 1: U.minDof = b.chk.MinDof = sx_choose("minDof", 1, 5); break; case 2: b.chk.MaxAic = sx_real("maxAic"); break; case 3: b.chk.MaxSic = sx_real("maxSic"); break; case 4: b.chk.MaxConditionNumber = sx_real("maxCn"); sx_assume(b.chk.MaxConditionNumber < 1e100); break; } go(b, false); }
SX_ENTRY(sd_fail) { B b(2, sx_choose("weights", 0, 1)); dist(b); b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kAic}; b.met.MetricsOut = {S::kBrier}; b.met.SimFixSize = 2; U.fail = sx_choose("which", 0, 3); U.how = sx_choose("how", 1, 3); go(b, false); }
SX_ENTRY(sd_cancel) { B b(3, false); b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kAic}; U.cancelAt = sx_choose("at", 0, 2); go(b, false); }
SX_ENTRY(sd_seed) { B b(2, false); b.comb.Sizes = {1, 2}; U.est = false; b.met.MetricsOut = {S::kBrier}; b.met.SimFixSize = 1; dist(b); int s = sx_choose("seed", 0, 2); b.met.Seed = s == 0 ? 0 : s == 1 ? 7 : -7; go(b, false); for (unsigned v : U.seeds) sx_assert(s == 0 ? v == 0 : s == 2 ? v == 7 : v >= 7, "seed of a simulation"); }
SX_ENTRY(sd_bad) { bool w = sx_choose("weights", 0, 1); B b(2, w); b.comb.Sizes = {1}; b.met.MetricsIn = {G::kAic}; int how = sx_choose("how", 0, 8); bool bad = false, nocost = false; int cut = -1; switch (how) { case 0: { int v = sx_int("index", -1, 4); b.comb.Partitions[1][0] = v; bad = v < 1 || v > 2; break; } case 1: { int s = sx_choose("size", -1, 1); b.comb.Sizes = {s}; bad = s <= 0; break; } case 2: b.comb.NumFixPartitions = 0; bad = true; break; case 3: b.items.Length1 = sx_choose("length", 0, 3); bad = b.items.Length1 == 1 || b.items.Length1 == 3; break; case 4: b.met.MetricsIn.clear(); bad = true; break; case 5: b.cost(1); bad = true; break; case 6: b.met.MetricsIn = {G::kFrequencyCost}; nocost = true; bad = true; break; case 7: { int o = sx_choose("out", 0, 1); if (o) { b.met.MetricsIn.clear(); b.met.MetricsOut = {S::kFrequencyCost}; b.met.SimFixSize = 1; } else b.met.MetricsIn = {G::kFrequencyCost}; b.cost(1); int q = sx_choose("cell", 0, 2); b.cd[q == 2 ? 1 : q] = sx_real("threshold"); double t0 = b.cd[0], t1 = b.cd[1]; bad = t0 < 0 || t0 > 1 || t1 < 0 || t1 > 1 || t1 <= t0; break; } case 8: cut = sx_choose("row", 0, 3); bad = true; break; } (void)nocost;
  b.run(); if (cut >= 0) b.d[4 * (w ? 2 : 1) + cut] = sx_choose("value", 0, 1) ? 0.0 : 2.0; sx_assert(throws([&] { std::unique_ptr<DiscreteChoiceModelsetBase> M(DiscreteChoiceModelsetBase::GetFromTypes(true, w, b.data, b.comb, b.opt, b.items, b.met, b.chk, b.D, b.costs, true, false, b.nw, b.roc)); }) == bad, "exactly inconsistent options are rejected"); }
