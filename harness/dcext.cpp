// B03: DiscreteChoiceExtended.  The model itself (B01, B02) is environment: it records its data and answers with any probabilities.
#include "common.h"
#include "discrete_choice.h"
#include <memory>
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<double> Vd;
Newton::Newton(Ti) {}
static struct Env { Vd y, w, x; int n = 0, k = 0, calls = 0, probs = 0, choices = 0, obs = 0, exo = 0; bool weighted = false, init = false, fail = false, det = false; std::vector<Vd> px; std::vector<Vd> pr; DiscreteChoiceModelType mt; DiscreteChoiceDistType dt; } U;
struct Fake : DiscreteChoiceBase { int M;
  void Calculate(const Mx &y, const Mx &x, const Mx *w, Tv *storage, Tv *work, Ti numChoices, bool ols) override { for (int i = 0; i < StorageSize; i++) storage[i] = 9.5; for (int i = 0; i < WorkSize; i++) work[i] = 8.5; U.calls++; U.n = y.length(); U.k = x.ColsCount; sx_assert(x.RowsCount == U.n && (!w || w->length() == U.n), "sizes of the data agree"); U.y.assign(y.Data, y.Data + U.n); U.x.assign(x.Data, x.Data + U.n * U.k); U.weighted = w; if (w) U.w.assign(w->Data, w->Data + U.n); U.choices = numChoices; U.init = ols; M = numChoices; if (U.fail) throw std::runtime_error("model"); }
  void GetProbabilities(const Mx &x, Mx &r, Tv *work) override { sx_assert(r.ColsCount == M, "room for all outcomes"); sx_assert(r.RowsCount == x.RowsCount, "one row for each observation"); for (int i = 0; i < x.RowsCount + M - 2; i++) work[i] = 6.5; U.px.push_back(Vd(x.Data, x.Data + x.length())); Vd p(x.RowsCount * M); for (int i = 0; i < x.RowsCount; i++) { double s = 0; for (int c = 1; c < M; c++) { p[i + x.RowsCount * c] = sx_range("p", 0, 1); s += p[i + x.RowsCount * c]; } p[i] = 1 - s; for (int c = 0; c < M; c++) r.Set0(i, c, p[i + x.RowsCount * c]); } U.pr.push_back(p); }
  void EstimatePriorBinary(const Mx &, const Mx &, const Mx *, Tv *) override {} void EstimatePriorOrdered(const Mx &, const Mx &, const Mx *, Tv *) override {} void EstimateBinary(const Mx &, const Mx &, const Mx *, Tv *, bool) override {} void EstimateOrdered(const Mx &, const Mx &, const Mx *, Tv *, bool) override {} };
std::unique_ptr<DiscreteChoiceBase> DiscreteChoiceBase::GetFromType(DiscreteChoiceModelType m, DiscreteChoiceDistType d, Ti n, Ti k, Ti M, bool det) { auto f = std::make_unique<Fake>(); f->M = M; f->StorageSize = 2; f->WorkSize = 3; f->mModelType = m; f->mDistType = d; U.obs = n; U.exo = k; U.mt = m; U.dt = d; U.det = det; return f; }
struct V { int r, c; std::unique_ptr<double[]> o; Vd v; Mx m; V(int r_, int c_) : r(r_), c(c_), o(new double[r_ * c_ + 1]), v(r_ * c_), m(o.get(), r_, c_) {} void set(int i, int j, double d) { o[i + r * j] = v[i + r * j] = d; } double operator()(int i, int j) const { return v[i + r * j]; } void same() { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]) || (v[i] != v[i] && o[i] != o[i]), "data are not changed"); } };
static void ext(int n, bool we, bool nan, int fc, bool det, int costs, int auc) { int off = we ? 2 : 1, c = off + 2, mask = nan ? sx_choose("nan", 0, (1 << n) - 1) : 0; V d(n, c); std::vector<int> keep; for (int i = 0; i < n; i++) { d.set(i, 0, (i * 2 + 1) % 3 % 2); if (we) d.set(i, 1, sx_pos("w")); d.set(i, off, 1); d.set(i, off + 1, sx_real("x")); if ((mask >> i) & 1) { int w = sx_choose("where", 0, c - 1); d.set(i, w, NAN); } else keep.push_back(i); } int h = keep.size();
  V f(fc ? fc : 1, 2); for (int i = 0; i < f.r * 2; i++) f.set(i % f.r, i / f.r, sx_real("f")); std::vector<Mx> cm; Vd cd(9 * 2); if (costs) { for (int q = 0; q < costs; q++) { double *p = &cd[9 * q]; p[0] = 0.5; p[1] = 1; for (int i = 2; i < 6; i++) p[i] = sx_range("cost", 0, 5); cm.push_back(Mx(p, 2, 3)); } } bool weval = we ? sx_choose("weval", 0, 1) : false; U = Env(); U.fail = sx_choose("fail", 0, 1); RocOptions op; op.Pessimistic = auc == 1;
  DiscreteChoiceExtended m(DiscreteChoiceModelType::kBinary, we ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, n, c, we, nan, 2, det, fc, nullptr, costs ? &cm : nullptr, weval); std::unique_ptr<double[]> st(new double[m.StorageSize]), wk(new double[m.WorkSize]); for (int i = 0; i < m.StorageSize; i++) st[i] = 0.3; for (int i = 0; i < m.WorkSize; i++) wk[i] = 0.4; bool ols = sx_choose("ols", 0, 1);
  if (h == 0) { if (throws([&] { m.Calculate(d.m, st.get(), wk.get(), ols, fc ? &f.m : nullptr, op); })) return; return; } bool t = throws([&] { m.Calculate(d.m, st.get(), wk.get(), ols, fc ? &f.m : nullptr, op); }); d.same(); f.same();
  sx_assert(U.calls == 1 && U.n == h && U.k == 2 && U.weighted == we && U.choices == 2 && U.init == ols && U.det == det && U.dt == (we ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit), "the model is estimated with the given options"); for (int i = 0; i < h; i++) { sx_assert(sx_eq(U.y[i], d(keep[i], 0)), "observations with missing values are left out"); if (we) sx_assert(sx_eq(U.w[i], d(keep[i], 1)), "weights belong to the observations"); for (int j = 0; j < 2; j++) sx_assert(sx_eq(U.x[i + h * j], d(keep[i], off + j)), "regressors belong to the observations"); }
  if (U.fail) { sx_assert(t, "a failing estimation is reported"); return; } sx_assert(!t, "a valid model is estimated"); size_t q = 0;
  if (fc) { for (int i = 0; i < 2 * fc; i++) sx_assert(sx_eq(U.px[q][i], f.v[i]), "predictions are for the given data"); sx_assert(m.PredProbs.RowsCount == fc && m.PredProbs.ColsCount == 2, "dimensions of the predictions"); for (int i = 0; i < fc * 2; i++) sx_assert(sx_eq(m.PredProbs.Data[i], U.pr[q][i]), "predicted probabilities"); q++; }
  if (!det) return; sx_assert(m.Projections.RowsCount == h && m.Projections.ColsCount == 2, "one projection for each observation used"); for (int i = 0; i < 2 * h; i++) sx_assert(sx_eq(U.px[q][i], U.x[i]), "projections are for the sample"); for (int i = 0; i < 2 * h; i++) sx_assert(sx_eq(m.Projections.Data[i], U.pr[q][i]), "projections");
  double s = 0, w = 0; for (int i = 0; i < h; i++) { double wi = weval ? U.w[i] : 1.0, e = U.y[i] - U.pr[q][h + i]; s += wi * e * e; w += wi; } sx_assert(sx_eq(m.BrierScore, s / w), "Brier score of the sample"); Vd ys = U.y, ws = U.w, ps = U.pr[q]; if (!weval) ws.assign(h, 1.0); Mx Y(ys.data(), h, 1), P(ps.data(), h, 2), W(ws.data(), h, 1);
  if (auc) { double A; if (weval) { ROC<true, false> r(h); r.Calculate(Y, P, &W, op); A = r.Result; } else { ROC<false, false> r(h); r.Calculate(Y, P, nullptr, op); A = r.Result; } sx_assert((A != A && m.Auc != m.Auc) || sx_eq(m.Auc, A), "AUC of the sample"); }
  if (costs) { double R = 0; for (int k = 0; k < costs; k++) { double a = 0; for (int i = 0; i < h; i++) { int yc = (int)ys[i]; double p = ps[i + h * yc]; a += ws[i] * cd[9 * k + 2 + 2 * yc + (p > 0.5 ? 1 : 0)]; } R += a / w; } sx_assert(sx_eq(m.CostRatioAvg, R / costs), "average cost ratio of the sample"); } }
SX_ENTRY(dx_plain) { ext(2, sx_choose("weight", 0, 1), false, sx_choose("forecasts", 0, 2), sx_choose("details", 0, 1), 0, 0); }
SX_ENTRY(dx_nan) { ext(3, sx_choose("weight", 0, 1), true, sx_choose("forecasts", 0, 1), sx_choose("details", 0, 1), 0, 0); }
SX_ENTRY(dx_cost) { ext(2, sx_choose("weight", 0, 1), sx_choose("check", 0, 1), 0, true, sx_choose("tables", 1, 2), 0); }
SX_ENTRY(dx_auc) { ext(3, sx_choose("weight", 0, 1), false, 0, true, 0, sx_choose("pessimistic", 1, 2)); }
SX_ENTRY(dx_size) { int n = sx_choose("n", 1, 3), c = sx_choose("c", 2, 4), N = sx_choose("N", 1, 3), C = sx_choose("C", 2, 4), F = sx_choose("F", 0, 2), f = sx_choose("f", 0, F); V d(n, c), x(f ? f : 1, c - 1); for (int i = 0; i < n * c; i++) d.set(i % n, i / n, 1 + i % 2); for (int i = 0; i < x.r * x.c; i++) x.set(i % x.r, i / x.r, i); U = Env(); DiscreteChoiceExtended m(DiscreteChoiceModelType::kBinary, DiscreteChoiceDistType::kLogit, N, C, false, true, 2, false, F, nullptr); std::unique_ptr<double[]> st(new double[m.StorageSize]), wk(new double[m.WorkSize]); RocOptions op; bool t = throws([&] { m.Calculate(d.m, st.get(), wk.get(), true, f ? &x.m : nullptr, op); }); if (n <= N && c <= C) sx_assert(!t, "data within the capacity are accepted"); }
