// R05: searching VARMA models.  Estimation, forecasting and out-of-sample evaluation of one model (T03-T06) are environment.
#include "varma.h"
#include "common.h"
#include <memory>
#include <set>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<int> Vi;
typedef std::vector<double> Vd;
typedef GoodnessOfFitType G;
typedef ScoringType S;
struct One { Vi par, en, ex; double aic, sic, f[9], v[9], r[9]; bool est = false, fore = false, sim = false; int what = 0, start = 0; };
static struct Env { int ne = 3, nx = 2, T = 5, H = 2, miss = -1, hor = 0, fail = -1, how = 0, cancelAt = -1, calls = 0; int lo[5], hi[5]; bool est = true, prev = false; double sm = 2; LimitedMemoryBfgsbOptions *op = nullptr; SearchModelChecks *chk = nullptr; SearchOptions *opt = nullptr; SearchMetricOptions *met = nullptr; SearchData *data = nullptr; std::vector<One> L; One *now = nullptr; } U;
static int u = 0;
static double fresh(const char *n) { u++; return sx_range(n, 10.0 * u, 10.0 * u + 1); }
static Vi par(const VarmaSizes &z) { return {z.ArP, z.ArD, z.ArQ, z.MaP, z.MaD, z.MaQ}; }
static bool range(const Vi &en, const Vi &ex, int &lo, int &hi) { lo = 0; hi = 99; for (int v : en) { lo = std::max(lo, U.lo[v]); hi = std::min(hi, U.hi[v]); } for (int v : ex) { lo = std::max(lo, U.lo[v]); hi = std::min(hi, U.hi[v]); } return hi >= lo; }
static One *get(const VarmaSizes &z, const Mx &y, const Mx *x) { Vi en, ex; for (int i = 0; i < y.RowsCount; i++) en.push_back((int)(y.Get0(i, 0) / 100)); if (x) for (int i = 0; i < x->RowsCount; i++) ex.push_back((int)(x->Get0(i, 0) / 100)); int lo, hi; range(en, ex, lo, hi); sx_assert(y.ColsCount == hi - lo + 1, "the common observations of the model's variables are used"); sx_assert(y.ColsCount <= z.ObsCount, "work arrays of a model are large enough for its observations"); sx_assert(y.RowsCount == z.EqsCount && (int)ex.size() == z.ExoCount, "sizes of a model"); for (int i = 0; i < y.RowsCount; i++) for (int j = 0; j < y.ColsCount; j++) sx_assert(y.Get0(i, j) == 100 * en[i] + lo + j, "a model gets its own variables"); if (x) { int n = U.T + U.H - lo; sx_assert(x->ColsCount == n, "exogenous data include the forecast period"); for (int i = 0; i < x->RowsCount; i++) for (int j = 0; j < n; j++) if (lo + j <= U.hi[ex[i]]) sx_assert(x->Get0(i, j) == 100 * ex[i] + lo + j, "a model gets its own exogenous variables"); }
  Vi p = par(z); for (auto &o : U.L) if (o.par == p && o.en == en && o.ex == ex) return &o; One o; o.par = p; o.en = en; o.ex = ex; o.what = (int)U.L.size() == U.fail ? U.how : 0; U.L.push_back(o); return &U.L.back(); }
static void fill(double *st, int n, double *wk, int w) { for (int i = 0; i < n; i++) st[i] = -1.5; for (int i = 0; i < w; i++) wk[i] = -2.5; }
static void restr(const Mx *R, const Mx *r, const VarmaSizes &z) { bool ma = z.ArQ > 0 || z.MaQ > 0; sx_assert((ma && z.EqsCount > 1 ? R != nullptr : ma || R == nullptr) && r == nullptr, "the moving average part is in its final form"); if (R) sx_assert(R->RowsCount == z.NumParams, "size of the restrictions"); }
Varma::Varma(const VarmaSizes &z, bool re, bool det, bool var, LimitedMemoryBfgsbOptions *o) { sx_assert(re && det && var && o == U.op, "options of the estimation"); Sizes = z; Result.StorageSize = 3 + z.EqsCount; Result.WorkSize = 2 + z.ExoCount; }
void Varma::EstimateMl(const Mx &y, const Mx *x, Tv *wk, Tv *st, const Mx *R, const Mx *r, Ti se, bool cur, Tv sm, Tv cn) { fill(st, Result.StorageSize, wk, Result.WorkSize); One *o = get(Sizes, y, x); sx_assert(!o->est, "a model is estimated once"); o->est = true; restr(R, r, Sizes); sx_assert(se == 0 && !cur && sx_eq(sm, U.sm) && cn == (U.chk->mCheckCN_all ? U.chk->MaxConditionNumber : INFINITY), "options of the estimation"); o->aic = Result.Aic = fresh("aic"); o->sic = Result.Sic = fresh("sic"); Result.y = y; U.now = o; if (U.calls++ == U.cancelAt) U.opt->RequestCancel = true; if (o->what == 1) throw std::runtime_error("E"); }
VarmaForecast::VarmaForecast(const VarmaSizes &z, Ti h, bool var, bool cu) { sx_assert(h == U.hor && var && !cu, "options of the forecasts"); mHorizon = h; mDoVariance = var; StartIndex = 1 + z.EqsCount % 2; StorageSize = 2 * z.EqsCount * (h + StartIndex) + 1; WorkSize = 3; }
void VarmaForecast::Calculate(const Varma &e, const Mx *x, const Mx *y, Tv *st, Tv *wk, Ti h, bool isnew) { fill(st, StorageSize, wk, WorkSize); One *o = get(e.Sizes, *y, x); sx_assert(o == U.now && o->est && !o->fore && h == U.hor && !isnew && e.Result.y.Data == y->Data, "forecasts belong to the estimated model"); o->fore = true; int g = y->RowsCount, n = h + StartIndex; Forecast.SetData(st, g, n); Variance.SetData(&st[g * n], g, n); for (int i = 0; i < g; i++) for (int j = 0; j < h; j++) { o->f[i + g * j] = o->what == 4 && i == g - 1 && j == h - 1 ? (double)NAN : sx_real("forecast"); o->v[i + g * j] = sx_range("variance", 0, 9); Forecast.Set0(i, StartIndex + j, o->f[i + g * j]); Variance.Set0(i, StartIndex + j, o->v[i + g * j]); } if (o->what == 2) throw std::runtime_error("F"); }
VarmaSimulation::VarmaSimulation(const VarmaSizes &z, Ti n, const Vi &hs, const std::vector<S> &m, LimitedMemoryBfgsbOptions *o, bool ext, VarmaRestrictionType, bool, PcaAnalysisOptions *a, PcaAnalysisOptions *b) { sx_assert(n == U.met->SimFixSize && &hs == &U.met->Horizons && &m == &U.met->MetricsOut && o == U.op && !ext && !a && !b, "options of the simulation"); pSizes = &z; mCount = n; Model.Sizes = z; StorageSize = z.EqsCount * (int)m.size() + 1; WorkSize = 4; }
void VarmaSimulation::Calculate(Tv *st, Tv *wk, Mx &y, bool &cancel, Mx *x, const Mx *R, const Mx *r, bool prev, Tv cn, Tv sm, bool cu, Ti maxinv, const Vd *lam) { fill(st, StorageSize, wk, WorkSize); One *o = get(Model.Sizes, y, x); sx_assert(!o->sim && o->est == U.est, "a model is simulated once"); o->sim = true; restr(R, r, Model.Sizes); sx_assert(&cancel == &U.opt->RequestCancel && prev == U.prev && cn == (U.chk->mCheckCN ? U.chk->MaxConditionNumber : INFINITY) && sx_eq(sm, U.sm) && !cu && maxinv == mCount - U.chk->MinOutSim, "arguments of the simulation"); sx_assert((lam != nullptr) == !U.data->Lambdas.empty(), "Box-Cox parameters"); if (lam) for (size_t j = 0; j < o->en.size(); j++) sx_assert(lam->size() > j && sx_eq(lam->at(j), U.data->Lambdas[o->en[j]]), "Box-Cox parameters belong to the model's variables"); int g = y.RowsCount, m = (int)U.met->MetricsOut.size(); ResultAggs.SetData(st, m, g); for (int i = 0; i < m * g; i++) o->r[i] = st[i] = fresh("score"); ValidCounts = o->what == 5 ? 0 : 2; if (o->what == 3) throw std::runtime_error("S"); }
struct B { SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchMetricOptions met; SearchModelChecks chk; LimitedMemoryBfgsbOptions op; Vd d, lo, hi; Mx D; DatasetTs<true> src; Vi mx{1, 0, 0, 0, 0, 0}; int season = 0; B(int ne, int nx, int nt) { U = Env(); u = 0; U.ne = ne; U.nx = nx; data.NumEndo = ne; data.NumExo = nx; data.HasWeight = false; data.HasIntercept = false; comb.NumFixPartitions = 0; comb.NumFixItems = 0; comb.NumTargets = nt; opt.ReportInterval = 0; items.LengthTargets = nt; items.LengthEndogenous = ne; items.LengthExogenous = nx; items.KeepAll = true; items.KeepBestCount = 9; met.Seed = 0; met.SimFixSize = 0; for (int j = 0; j < ne; j++) comb.Partitions.push_back({j}); for (int v = 0; v < ne + nx; v++) { U.lo[v] = 0; U.hi[v] = v < ne ? U.T - 1 : U.T + U.H - 1; } U.chk = &chk; U.opt = &opt; U.met = &met; U.data = &data; U.op = &op; }
  void run() { int n = U.ne + U.nx, c = U.T + U.H; d.assign(n * c, 0); for (int v = 0; v < n; v++) for (int t = 0; t < c; t++) d[v + n * t] = t < U.lo[v] || t > U.hi[v] ? (double)NAN : 100 * v + t; D.SetData(d.data(), n, c); src = DatasetTs<true>(n, c, true, true); src.Data(D); } 
  void bounds() { int h = U.hor, t = items.LengthTargets; for (int i = 0; i < h * t; i++) { double a = sx_real("lower"), b = sx_real("upper"); lo.push_back(a); hi.push_back(b); } chk.PredictionLower.SetData(lo.data(), h, t); chk.PredictionUpper.SetData(hi.data(), h, t); } };
static void go(B &b, bool keep, bool bnd = false) { b.items.Length1 = keep ? U.hor : 0; b.chk.Prediction = U.hor > 0; b.run(); VarmaModelset M(b.data, b.comb, b.opt, b.items, b.met, b.chk, b.src, b.mx, b.season, U.prev, &b.op, U.sm, U.hor); auto &ms = M.Modelset; ms.ShuffleSearchers = false; std::unique_ptr<double[]> wk(new double[ms.WorkSize]); for (int i = 0; i < ms.WorkSize; i++) wk[i] = 0.7; ms.Start(wk.get(), nullptr); if (U.cancelAt >= 0) { sx_assert((int)U.L.size() == U.cancelAt + 1, "no model is estimated after a cancel request"); return; }
  int ni = (int)b.met.MetricsIn.size(), no = (int)b.met.MetricsOut.size(), want = 0, bad = 0; std::vector<Vi> inner = b.comb.InnerGroups; if (inner.empty()) inner.push_back({}); int q[6]; for (q[0] = 0; q[0] <= b.mx[0]; q[0]++) for (q[1] = 0; q[1] <= b.mx[1]; q[1]++) for (q[2] = 0; q[2] <= b.mx[2]; q[2]++) for (q[3] = 0; q[3] <= b.mx[3]; q[3]++) for (q[4] = 0; q[4] <= b.mx[4]; q[4]++) for (q[5] = 0; q[5] <= b.mx[5]; q[5]++) { if (q[0] + q[2] + q[3] + q[5] == 0) continue; for (auto &ex : inner) for (int s : b.comb.Sizes) for (int mask = 1; mask < (1 << U.ne); mask++) { Vi en; for (int v = 0; v < U.ne; v++) if ((mask >> v) & 1) en.push_back(v); if ((int)en.size() != s || en[0] >= b.items.LengthTargets || (b.comb.NumFixPartitions && !(mask & 1))) continue; want++; int lo, hi, h = 0; bool ok = range(en, ex, lo, hi); if (ok && U.est && b.chk.MinObsCount > hi - lo + 1) ok = false; for (auto &o : U.L) h += o.par == Vi(q, q + 6) && o.en == en && o.ex == ex; sx_assert(h == ok, "exactly the models with enough observations are estimated"); bad += !ok; } }
  auto fails = [&](One &o) { if ((o.what == 1 && U.est) || (o.what == 2 && U.hor) || (o.what == 3 && no) || (o.what == 5 && no) || (o.what == 4 && U.hor)) return true; if (!U.est) return false; if (o.aic > b.chk.MaxAic || o.sic > b.chk.MaxSic) return true; if (bnd) for (int i = 0; i < (int)o.en.size(); i++) if (o.en[i] < b.items.LengthTargets) for (int h = 0; h < U.hor; h++) { double f = o.f[i + (int)o.en.size() * h]; if (f < b.lo[h + U.hor * o.en[i]] || f > b.hi[h + U.hor * o.en[i]]) return true; } return false; };
  std::vector<bool> fl; for (auto &o : U.L) { fl.push_back(fails(o)); bad += fl.back(); if (!fl.back()) sx_assert(o.est == U.est && o.fore == (U.hor > 0) && o.sim == (no > 0), "a model is estimated, forecast and simulated as requested"); }
  SearcherModelingInfo I; std::vector<SearcherSummary *> l0, l1, l2; ms.CombineInfo(I, l0, l1, l2); int nf = 0; for (auto &a : I.FailsCount) nf += a.second; sx_assert(I.ExpectedCount == want && I.SearchedCount == want, "every combination of orders, exogenous groups and variables with a target is one model"); sx_assert(nf == bad, "exactly the failing models are counted as failures");
  auto same = [&](One &o, std::shared_ptr<EstimationKeep> &e) { return e->Exogenouses == o.ex && e->Endogenous == o.en && e->Extra == o.par; };
  for (int i = 0; i < ni + no; i++) for (int t = 0; t < b.items.LengthTargets; t++) { std::vector<std::shared_ptr<EstimationKeep>> r; ms.CombineAll(i, t, 0, l0, r); size_t n = 0; for (size_t k = 0; k < U.L.size(); k++) { auto &o = U.L[k]; int at = -1; for (int j = 0; j < (int)o.en.size(); j++) if (o.en[j] == t) at = j; if (at < 0 || fl[k]) continue; n++; double v = i < ni ? (b.met.MetricsIn[i] == G::kAic ? o.aic : o.sic) : o.r[at * no + i - ni]; int hits = 0; for (auto &e : r) if (same(o, e)) { hits++; sx_assert(sx_eq(e->Metric, v), "a metric is stored under its own place and target"); } sx_assert(hits == 1, "every estimated model is stored once for each of its targets");
        if (keep) for (int h = 0; h < U.hor; h++) { std::vector<std::shared_ptr<EstimationKeep>> cf; ms.CombineBests(i, t, h, l1, cf); int c = 0; for (auto &e : cf) if (same(o, e)) { c++; int p = at + (int)o.en.size() * h; sx_assert(sx_eq(e->Mean, o.f[p]), "a forecast is stored under its own horizon and target"); sx_assert(sx_eq(e->Variance, o.v[p]), "variance of a stored forecast"); sx_assert(sx_eq(e->Metric, v), "metric of a stored forecast"); } sx_assert(c == 1, "forecasts of a model are stored"); } }
      sx_assert(r.size() == n, "only estimated models are stored"); } }
static void part(B &b, int k) { if (k == 1) b.comb.Partitions = {{2}, {0}, {1}}; if (k == 2) b.comb.Partitions = {{1}, {2}, {0}}; }
static void exo(B &b, int k) { int n = U.ne; if (k == 1) b.comb.InnerGroups = {{n}}; if (k == 2) b.comb.InnerGroups = {{n + 1}, {n, n + 1}}; if (k == 3) b.comb.InnerGroups = {{}, {n + 1}}; }
SX_ENTRY(sv_in) { B b(3, 2, sx_choose("targets", 1, 3)); part(b, sx_choose("partitions", 0, 2)); exo(b, sx_choose("exogenous", 0, 3)); b.comb.Sizes = {1, 2}; int m = sx_choose("metrics", 0, 2); b.met.MetricsIn = m == 0 ? std::vector<G>{G::kAic} : m == 1 ? std::vector<G>{G::kSic} : std::vector<G>{G::kSic, G::kAic}; go(b, false); }
SX_ENTRY(sv_range) { B b(3, 1, 2); exo(b, sx_choose("exogenous", 0, 1)); int v = sx_choose("variable", 0, 3), s = sx_choose("start", 0, 2), e = sx_choose("end", 0, 2); U.lo[v] = s; U.hi[v] -= e; int w = sx_choose("second", 0, 2); if (w != v) U.hi[w] -= 1; b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kAic}; b.chk.MinObsCount = sx_choose("minObs", 0, 4); go(b, false); }
SX_ENTRY(sv_disjoint) { B b(2, 0, 2); U.lo[0] = 3; U.hi[1] = 1; b.comb.Sizes = {sx_choose("size", 1, 2)}; b.met.MetricsIn = {G::kAic}; go(b, false); }
SX_ENTRY(sv_orders) { B b(2, 0, 2); b.comb.Sizes = {1}; for (int i = 0; i < 6; i++) b.mx[i] = i == 0 || i == 2 ? sx_choose("order", 0, 2) : sx_choose("order", 0, 1); U.T = 30; U.H = 0; U.hi[0] = U.hi[1] = 29; b.comb.Partitions = {{0, 1}}; int all = 1; for (int v : b.mx) all *= v + 1; if (all > 36) return; int mxs = b.mx[3] + b.mx[4] + b.mx[5]; b.season = mxs ? 4 : 0; if (b.mx[0] + b.mx[2] + b.mx[3] + b.mx[5] == 0) return; b.met.MetricsIn = {G::kAic}; go(b, false); }
SX_ENTRY(sv_out) { B b(3, 2, sx_choose("targets", 1, 2)); part(b, sx_choose("partitions", 0, 2)); exo(b, sx_choose("exogenous", 0, 2)); b.comb.Sizes = {1, 2}; int m = sx_choose("metrics", 0, 6); b.met.MetricsOut = m == 4 ? std::vector<S>{S::kSign, S::kDirection, S::kMape} : m == 5 ? std::vector<S>{S::kRmse, S::kMae, S::kCrps} : m == 6 ? std::vector<S>{S::kRmspe} : m == 0 ? std::vector<S>{S::kMae} : m == 1 ? std::vector<S>{S::kCrps, S::kSign} : m == 2 ? std::vector<S>{S::kDirection, S::kRmse} : std::vector<S>{S::kMape, S::kRmspe}; b.met.Horizons = {1, 2}; b.met.SimFixSize = 2; U.est = sx_choose("estimation", 0, 1); if (U.est) b.met.MetricsIn = {G::kSic}; go(b, false); }
SX_ENTRY(sv_opts) { B b(2, 0, 2); b.comb.Sizes = {2}; b.mx[2] = sx_choose("ma", 0, 1); b.met.MetricsOut = {S::kMae}; b.met.Horizons = {1}; b.met.SimFixSize = sx_choose("simulations", 1, 3); b.chk.MinOutSim = b.met.SimFixSize > 1 ? sx_choose("minimum", 0, 2) : 0; U.prev = sx_choose("previous", 0, 1); U.sm = 3; U.est = false; if (sx_choose("estimation", 0, 1)) { b.chk.Estimation = true; U.est = true; } if (sx_choose("condition", 0, 1)) b.chk.MaxConditionNumber = 50; go(b, false); }
SX_ENTRY(sv_forecast) { B b(3, sx_choose("exogenousVariables", 0, 1), sx_choose("targets", 1, 2)); part(b, sx_choose("partitions", 0, 2)); if (U.nx) exo(b, 1); U.hor = sx_choose("horizon", 1, 2); b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kAic}; b.chk.Estimation = true; if (sx_choose("out", 0, 1)) { b.met.MetricsOut = {S::kMae}; b.met.Horizons = {1}; b.met.SimFixSize = 1; } go(b, true); }
static void bound(int size, int nt, int hor, bool out) { B b(2, 0, nt); b.comb.Sizes = {size}; U.hor = hor; b.met.MetricsIn = {G::kAic}; b.chk.Estimation = true; if (out) { b.met.MetricsOut = {S::kMae}; b.met.Horizons = {sx_choose("horizons", 0, 1) + 1}; b.met.SimFixSize = 2; } b.bounds(); go(b, true, true); }
SX_ENTRY(sv_bounds) { bool out = sx_choose("out", 0, 1); bound(1, 1, 2, out); }
SX_ENTRY(sv_bounds2) { bool out = sx_choose("out", 0, 1); bound(2, sx_choose("targets", 1, 2), 1, out); }
SX_ENTRY(sv_checks) { B b(2, 0, 2); b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kSic}; if (sx_choose("which", 0, 1)) b.chk.MaxAic = sx_real("maxAic"); else b.chk.MaxSic = sx_real("maxSic"); go(b, false); }
SX_ENTRY(sv_lambda) { B b(3, 0, 2); b.comb.Sizes = {1, 2}; part(b, sx_choose("partitions", 0, 2)); for (int i = 0; i < 3; i++) b.data.Lambdas.push_back(sx_real("lambda")); U.est = false; b.met.MetricsOut = {S::kMae}; b.met.Horizons = {1}; b.met.SimFixSize = 1; go(b, false); }
SX_ENTRY(sv_fail) { B b(3, 0, 2); b.comb.Sizes = {1, 2}; U.hor = sx_choose("horizon", 0, 1); b.met.MetricsIn = {G::kAic}; if (sx_choose("out", 0, 1)) { b.met.MetricsOut = {S::kMae}; b.met.Horizons = {1}; b.met.SimFixSize = 1; } b.chk.Estimation = true; U.fail = sx_choose("model", 0, 4); U.how = sx_choose("how", 1, 5); go(b, U.hor > 0); }
SX_ENTRY(sv_cancel) { B b(3, 0, 2); b.comb.Sizes = {1, 2}; b.met.MetricsIn = {G::kAic}; U.cancelAt = sx_choose("at", 0, 4); go(b, false); }
SX_ENTRY(sv_bad) { B b(2, 1, 2); b.comb.Sizes = {1}; b.met.MetricsIn = {G::kAic}; int how = sx_choose("how", 0, 6); bool bad = false; switch (how) { case 0: { int v = sx_int("index", -1, 4); b.comb.Partitions[1][0] = v; bad = v < 0 || v > 1; break; } case 1: { int s = sx_choose("size", -1, 1); b.comb.Sizes = {s}; bad = s <= 0; break; } case 2: b.mx[sx_choose("order", 0, 5)] = -1; bad = true; break; case 3: b.mx.resize(sx_choose("orders", 4, 7)); bad = b.mx.size() != 6; break; case 4: b.items.Length1 = 1; U.hor = sx_choose("horizon", 0, 1); b.chk.Estimation = true; b.chk.Prediction = sx_choose("prediction", 0, 1); bad = !b.chk.Prediction || !U.hor; break; case 5: b.met.MetricsIn.clear(); bad = true; break; case 6: b.met.MetricsOut = {S::kMae}; b.met.SimFixSize = 1; bad = true; break; }
  b.run(); sx_assert(throws([&] { VarmaModelset M(b.data, b.comb, b.opt, b.items, b.met, b.chk, b.src, b.mx, 0, false, &b.op, 2, U.hor); }) == bad, "exactly inconsistent options are rejected"); }
