// R04: searching SUR models.  Estimation and out-of-sample evaluation of one model (U01-U03) are environment.
#include "sur.h"
#include "common.h"
#include <set>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<int> Vi;
struct One { Vi cols, en, ex; double aic, sic, b[4], s[4], r[8]; bool est = false, sim = false; int what = 0; };
static struct Env { int rows = 3, miss = -1, ncol = 0, fail = -1, how = 0, sim = 0, minSim = 0, cancelAt = -1, calls = 0; double cn = INFINITY, prob = 0; Ti iter = 0; bool est = true; int nt = 1; SearchModelChecks *chk = nullptr; SearchOptions *opt = nullptr; SearchMetricOptions *met = nullptr; SearchData *data = nullptr; std::vector<One> L; std::vector<unsigned> seeds; } U;
static int u = 0;
static double fresh(const char *n) { u++; return sx_range(n, 10.0 * u, 10.0 * u + 1); }
static Vi look(const Mx &d, int m) { Vi c; int n = 0; for (int j = 0; j < d.ColsCount; j++) { int id = d.RowsCount ? (int)(d.Get0(0, j) / 100) : -1; c.push_back(id); } std::vector<int> rows; for (int i = 0; i < U.rows; i++) { bool ok = true; for (int j : c) if (j * U.rows + i == U.miss) ok = false; if (ok) rows.push_back(i); } sx_assert(d.RowsCount == (int)rows.size(), "exactly the complete observations of the model's variables are used"); for (int j = 0; j < d.ColsCount; j++) for (int i = 0; i < d.RowsCount; i++) sx_assert(d.Get0(i, j) == 100 * c[j] + rows[i], "a model gets its own variables in their order"); (void)n; (void)m; return c; }
static One *get(const Vi &c, int m) { for (auto &o : U.L) if (o.cols == c) return &o; One o; o.cols = c; for (int j = 0; j < (int)c.size(); j++) (j < m ? o.en : o.ex).push_back(c[j]); o.what = (int)U.L.size() == U.fail ? U.how : 0; U.L.push_back(o); return &U.L.back(); }
static void fill(double *st, int n, double *wk, int w) { for (int i = 0; i < n; i++) st[i] = -1.5; for (int i = 0; i < w; i++) wk[i] = -2.5; }
SurExtended::SurExtended(Ti N, Ti m, Ti k, bool restricted, bool checkNan, bool details, Ti proj, Ti iter, bool, PcaAnalysisOptions *a, PcaAnalysisOptions *b) { sx_assert(N == U.rows && !checkNan && details && proj == 0 && iter == U.iter && restricted == (iter > 0) && !a && !b, "sizes of the estimated models"); StorageSize = m * k * 2 + 3; WorkSize = 5 + m; }
void SurExtended::Calculate(const Mx &d, Ti m, Tv *st, Tv *wk, Mx *R, Tv prob, const Mx *x, const SearchModelChecks *chk) { fill(st, StorageSize, wk, WorkSize); Vi c = look(d, m); One *o = get(c, m); sx_assert(!o->est, "a model is estimated once"); o->est = true; int k = (int)c.size() - m; sx_assert(x == nullptr && chk == U.chk && (R != nullptr) == (U.iter > 0) && sx_eq(prob, U.prob), "options of the estimation"); if (R) sx_assert(R->length() == m * k * m * k, "size of the restriction matrix"); o->aic = Model.Aic = fresh("aic"); o->sic = Model.Sic = fresh("sic"); Model.beta.SetData(st, k, m); Model.e_beta_std.SetData(&st[k * m], k, m); for (int i = 0; i < k * m; i++) { o->b[i] = st[i] = sx_real("beta"); o->s[i] = st[k * m + i] = sx_range("std", 0, 10); } if (U.calls++ == U.cancelAt) U.opt->RequestCancel = true; if (o->what == 1) throw std::runtime_error("E"); }
SurSimulation::SurSimulation(Ti N, Ti m, Ti k, Tv ratio, Ti fix, const std::vector<ScoringType> &out, bool restricted, Ti iter, PcaAnalysisOptions *a, PcaAnalysisOptions *b) { sx_assert(N == U.rows && sx_eq(ratio, U.met->TrainRatio) && fix == U.met->TrainFixSize && &out == &U.met->MetricsOut && iter == U.iter && restricted == (iter > 0) && !a && !b, "sizes of the simulated models"); pMetricsOut = &out; (void)k; StorageSize = m * (int)out.size(); WorkSize = 4 + m; }
void SurSimulation::Calculate(Mx &d, Ti m, Tv *st, Tv *wk, Mx *R, bool &cancel, Ti maxit, unsigned seed, Tv prob, Tv cn, Ti maxinv, const std::vector<Tv> *lam) { fill(st, StorageSize, wk, WorkSize); Vi c = look(d, m); One *o = get(c, m); sx_assert(!o->sim && o->est == U.est, "a model is simulated once"); o->sim = true; sx_assert((R != nullptr) == (U.iter > 0) && &cancel == &U.opt->RequestCancel && maxit == U.sim && maxinv == U.sim - U.minSim && sx_eq(prob, U.prob) && cn == U.cn, "options of the simulation"); U.seeds.push_back(seed); sx_assert((lam != nullptr) == !U.data->Lambdas.empty(), "Box-Cox parameters"); if (lam) for (int j = 0; j < m; j++) sx_assert((int)lam->size() > j && sx_eq(lam->at(j), U.data->Lambdas[c[j]]), "Box-Cox parameters belong to the model's variables"); Results.SetData(st, (int)U.met->MetricsOut.size(), m); int q = Results.RowsCount * m; for (int i = 0; i < q; i++) { bool skip = o->what == 3 && i / Results.RowsCount == 0; o->r[i] = st[i] = skip ? (double)NAN : fresh("score"); } if (o->what == 2) throw std::runtime_error("S"); }
struct B { SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchMetricOptions met; SearchModelChecks chk; std::vector<double> d; B(int nendo, int nexo, int nt) { U = Env(); u = 0; data.NumEndo = nendo; data.NumExo = nexo; data.HasWeight = false; data.HasIntercept = false; comb.NumFixPartitions = 0; comb.NumFixItems = 0; comb.NumTargets = nt; opt.ReportInterval = 0; items.LengthTargets = nt; items.LengthEndogenous = nendo; items.LengthExogenous = nexo; items.KeepAll = true; items.KeepBestCount = 9; met.Seed = 0; met.TrainRatio = 0.5; met.SimFixSize = 0; U.nt = nt; for (int j = 0; j < nexo; j++) comb.Partitions.push_back({nendo + j}); U.ncol = nendo + nexo; U.chk = &chk; U.opt = &opt; U.met = &met; U.data = &data; }
  void run() { for (int j = 0; j < U.ncol; j++) for (int i = 0; i < U.rows; i++) d.push_back(j * U.rows + i == U.miss ? (double)NAN : 100 * j + i); data.Data.SetData(d.data(), U.rows, U.ncol); } };
static std::vector<GoodnessOfFitType> IN[] = {{}, {GoodnessOfFitType::kAic}, {GoodnessOfFitType::kSic}, {GoodnessOfFitType::kAic, GoodnessOfFitType::kSic}, {GoodnessOfFitType::kSic, GoodnessOfFitType::kAic}};
static std::vector<ScoringType> OUT[] = {{}, {ScoringType::kMae}, {ScoringType::kCrps, ScoringType::kSign}, {ScoringType::kRmse, ScoringType::kMape}, {ScoringType::kRmspe}, {ScoringType::kSign, ScoringType::kMae, ScoringType::kRmspe}, {ScoringType::kMape, ScoringType::kCrps, ScoringType::kRmse}};
static void go(B &b, bool coef) { b.items.Length1 = coef ? b.data.NumExo : 0; b.run(); SurModelset S(b.data, b.comb, b.opt, b.items, b.met, b.chk, U.iter, U.prob); S.Modelset.ShuffleSearchers = false; std::unique_ptr<double[]> wk(new double[S.Modelset.WorkSize]); std::unique_ptr<int[]> wi(new int[S.Modelset.WorkSizeI]); for (int i = 0; i < S.Modelset.WorkSize; i++) wk[i] = 0.7; S.Modelset.Start(wk.get(), wi.get()); if (U.cancelAt >= 0) { sx_assert((int)U.L.size() == U.cancelAt + 1, "no model is estimated after a cancel request"); return; }
  std::set<Vi> want; for (auto &g : b.comb.InnerGroups) { bool tg = false; for (int e : g) tg |= e < b.items.LengthTargets; if (!tg) continue; for (int s : b.comb.Sizes) for (int mask = 0; mask < (1 << b.data.NumExo); mask++) if (__builtin_popcount(mask) == s && (b.comb.NumFixPartitions == 0 || (mask & 1))) { Vi v = g; for (int j = 0; j < b.data.NumExo; j++) if ((mask >> j) & 1) v.push_back(b.data.NumEndo + j); want.insert(v); } }
  SearcherModelingInfo I; std::vector<SearcherSummary *> l0, l1, l2; S.Modelset.CombineInfo(I, l0, l1, l2); sx_assert(I.ExpectedCount == (int)want.size() && I.SearchedCount == (int)want.size() && U.L.size() == want.size(), "every combination of a group with a target and regressors is one model"); for (auto &o : U.L) sx_assert(want.count(o.cols) == 1, "a model is a combination of a group and regressors"); int nf = 0; for (auto &a : I.FailsCount) nf += a.second; int bad = 0; for (auto &o : U.L) bad += o.what == 1 || o.what == 2; sx_assert(nf == bad, "failed models are counted");
  int ni = (int)b.met.MetricsIn.size(), no = (int)b.met.MetricsOut.size(); for (auto &o : U.L) if (o.what != 1) sx_assert(o.est == U.est && o.sim == (no > 0 && U.sim > 0), "a model is estimated and simulated as requested");
  auto same = [&](One &o, std::shared_ptr<EstimationKeep> &e) { return e->Endogenous == o.en && e->Exogenouses == o.ex; };
  for (int i = 0; i < ni + no; i++) for (int t = 0; t < b.items.LengthTargets; t++) { std::vector<std::shared_ptr<EstimationKeep>> r, q; S.Modelset.CombineAll(i, t, 0, l0, r); S.Modelset.CombineBests(i, t, 0, l0, q); size_t n = 0; for (auto &o : U.L) { int at = -1; for (int j = 0; j < (int)o.en.size(); j++) if (o.en[j] == t) at = j; if (at < 0 || o.what == 1 || o.what == 2) continue; double v = i < ni ? (b.met.MetricsIn[i] == GoodnessOfFitType::kAic ? o.aic : o.sic) : o.r[at * no + i - ni]; if (v != v) continue; double w = i < ni ? GoodnessOfFit::ToWeight(b.met.MetricsIn[i], v, 0) : Scoring::ToWeight(b.met.MetricsOut[i - ni], v, 0); n++; int hits = 0; for (auto &e : r) if (same(o, e)) { hits++; sx_assert(sx_eq(e->Metric, v), "a metric is stored under its own place and target"); sx_assert(sx_eq(e->Weight, w), "weight of a metric"); } sx_assert(hits == 1, "every estimated model is stored once for each of its targets");
        if (coef) for (int x = 0; x < b.data.NumExo; x++) { std::vector<std::shared_ptr<EstimationKeep>> cf; S.Modelset.CombineBests(i, t, x, l1, cf); int p = -1; for (int k = 0; k < (int)o.ex.size(); k++) if (o.ex[k] == b.data.NumEndo + x) p = k; int h = 0; for (auto &e : cf) if (same(o, e)) { h++; sx_assert(p >= 0, "a coefficient belongs to a regressor of the model"); if (p < 0) return; int k = at * (int)o.ex.size() + p; sx_assert(sx_eq(e->Mean, o.b[k]), "a coefficient is stored under its own variable and target"); sx_assert(sx_eq(e->Variance, o.s[k] * o.s[k]), "variance of a stored coefficient"); sx_assert(sx_eq(e->Metric, v), "metric of a stored coefficient"); } sx_assert(h == (p >= 0), "coefficients of the model's regressors are stored"); } }
      sx_assert(r.size() == n && q.size() == n, "only estimated models are stored"); } }
static void groups(B &b, int which) { switch (which) { case 0: b.comb.InnerGroups = {{0}}; break; case 1: b.comb.InnerGroups = {{0, 1}}; break; case 2: b.comb.InnerGroups = {{0}, {1, 2}}; break; case 3: b.comb.InnerGroups = {{0, 2}, {1}, {2}}; break; case 4: b.comb.InnerGroups = {{1}, {0, 1, 2}}; break; } }
SX_ENTRY(ss_in) { B b(3, 2, sx_choose("targets", 1, 3)); U.miss = sx_choose("missing", -1, 14); groups(b, sx_choose("groups", 0, 4)); if (b.items.LengthTargets == 1 && b.comb.InnerGroups[0][0] == 1) return; b.comb.Sizes = {1, 2}; b.met.MetricsIn = IN[sx_choose("metrics", 1, 4)]; go(b, false); }
SX_ENTRY(ss_out) { B b(3, 2, sx_choose("targets", 1, 3)); int k = sx_choose("missing", -1, 4); U.miss = k < 0 ? -1 : 3 * k + (k % 3); groups(b, sx_choose("groups", 0, 3)); b.comb.Sizes = {1}; b.met.MetricsOut = OUT[sx_choose("metricsOut", 1, 6)]; b.met.MetricsIn = IN[(int)b.met.MetricsOut.size() == 2 ? 1 : 0]; b.met.SimFixSize = U.sim = 1; U.est = !b.met.MetricsIn.empty(); go(b, false); }
SX_ENTRY(ss_opts) { B b(3, 1, 2); groups(b, sx_choose("groups", 0, 2)); b.comb.Sizes = {1}; b.met.MetricsIn = IN[sx_choose("metrics", 0, 2)]; b.met.MetricsOut = OUT[sx_choose("metricsOut", 0, 2)]; if (b.met.MetricsIn.empty() && b.met.MetricsOut.empty()) return; b.met.SimFixSize = U.sim = sx_choose("simulations", b.met.MetricsOut.empty() ? 0 : 1, 2); b.chk.MinOutSim = U.minSim = U.sim ? sx_choose("minimum", 0, 1) : 0; if (sx_choose("condition", 0, 1)) b.chk.MaxConditionNumber = U.cn = 50; int c = sx_choose("check", 0, 6); if (c == 1) b.chk.Estimation = true; if (c == 2) b.chk.MinObsCount = 2; if (c == 3) b.chk.MinDof = 1; if (c == 4) b.chk.MinR2 = 0.1; if (c == 5) b.chk.MaxAic = 9; if (c == 6) b.chk.MaxSic = 9; U.est = !b.met.MetricsIn.empty() || c > 0; if (U.cn < INFINITY && b.met.MetricsOut.empty()) U.est = true; b.met.TrainFixSize = U.sim ? sx_choose("train", 0, 1) : 0; go(b, false); }
SX_ENTRY(ss_coef) { B b(3, sx_choose("exogenous", 1, 3), 2); int k = sx_choose("missing", -1, 4); U.miss = k < 0 ? -1 : 3 * k; groups(b, sx_choose("groups", 0, 3)); b.comb.Sizes = {1, 2}; if (b.data.NumExo == 1) b.comb.Sizes = {1}; b.comb.NumFixPartitions = sx_choose("fixed", 0, 1); b.met.MetricsIn = IN[1]; if (sx_choose("out", 0, 1)) { b.met.MetricsOut = OUT[1]; b.met.SimFixSize = U.sim = 2; } b.chk.Estimation = true; go(b, true); }
SX_ENTRY(ss_fail) { B b(3, 2, 2); groups(b, 2); b.comb.Sizes = {1}; b.met.MetricsIn = IN[3]; b.met.MetricsOut = OUT[3]; b.met.SimFixSize = U.sim = 2; U.fail = sx_choose("which", 0, 3); U.how = sx_choose("how", 1, 3); go(b, false); }
SX_ENTRY(ss_cancel) { B b(3, 2, 2); groups(b, 2); b.comb.Sizes = {1}; b.met.MetricsIn = IN[3]; U.cancelAt = sx_choose("at", 0, 3); go(b, false); }
SX_ENTRY(ss_lambda) { B b(3, 1, 2); groups(b, sx_choose("groups", 0, 3)); b.comb.Sizes = {1}; for (int i = 0; i < 3; i++) b.data.Lambdas.push_back(sx_real("lambda")); U.est = false; b.met.MetricsOut = OUT[1]; b.met.SimFixSize = U.sim = 1; go(b, false); }
SX_ENTRY(ss_rows) { B b(2, 1, sx_choose("targets", 1, 2)); U.rows = sx_choose("rows", 6, 7); int k = sx_choose("missing", -1, 2); U.miss = k < 0 ? -1 : U.rows * k + k; groups(b, sx_choose("groups", 0, 1)); b.comb.Sizes = {1}; b.met.MetricsIn = IN[1]; b.met.MetricsOut = OUT[1]; b.met.SimFixSize = U.sim = 1; go(b, sx_choose("coef", 0, 1)); }
SX_ENTRY(ss_search) { B b(3, 2, 2); groups(b, sx_choose("groups", 0, 3)); b.comb.Sizes = {2}; U.iter = sx_choose("iterations", 1, 2); U.prob = 0.05; b.met.MetricsIn = IN[1]; if (sx_choose("out", 0, 1)) { b.met.MetricsOut = OUT[1]; b.met.SimFixSize = U.sim = 1; } go(b, sx_choose("coef", 0, 1)); }
SX_ENTRY(ss_seed) { B b(3, 2, 2); groups(b, 3); b.comb.Sizes = {1, 2}; U.est = false; b.met.MetricsOut = OUT[1]; b.met.SimFixSize = U.sim = 1; int s = sx_choose("seed", 0, 2); b.met.Seed = s == 0 ? 0 : s == 1 ? 7 : -7; go(b, false); for (unsigned v : U.seeds) sx_assert(s == 0 ? v == 0 : s == 2 ? v == 7 : v >= 7, "seed of a simulation"); }
SX_ENTRY(ss_bad) { B b(3, 2, 2); groups(b, 0); b.comb.Sizes = {1}; b.met.MetricsIn = IN[1]; int how = sx_choose("how", 0, 6); int v = sx_int("index", -1, 6); bool bad = false; if (how == 0) { b.comb.Partitions[1][0] = v; bad = v < 3 || v >= 5; } if (how == 1) { int s = sx_choose("size", -1, 1); b.comb.Sizes = {s}; bad = s <= 0; } if (how == 2) { b.comb.InnerGroups.push_back({}); bad = true; } if (how == 3) { b.items.Length1 = sx_choose("length", 0, 3); b.chk.Estimation = true; bad = b.items.Length1 == 1 || b.items.Length1 == 3; } if (how == 4) { b.items.LengthTargets = 0; bad = true; } if (how == 5) { b.met.MetricsIn.clear(); bad = true; } if (how == 6) { b.met.MetricsIn.clear(); b.met.MetricsOut = OUT[1]; b.met.SimFixSize = sx_choose("sim", 0, 1); b.items.Length1 = sx_choose("coef", 0, 1) * 2; bad = b.met.SimFixSize == 0 || b.items.Length1 > 0; }
  U.rows = 3; U.sim = b.met.SimFixSize; b.run(); sx_assert(throws([&] { SurModelset S(b.data, b.comb, b.opt, b.items, b.met, b.chk, 0, 0); }) == bad, "exactly inconsistent options are rejected"); }
