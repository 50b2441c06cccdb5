#include "clustering.h"
#include "common.h"
#include <algorithm>
using namespace ldt;
typedef Matrix<double> Mx;
struct D { int r, c, mask; std::unique_ptr<double[]> o; std::vector<double> v; Mx m;
  D(int r_, int c_, int mk = 0, const char *n = "a") : r(r_), c(c_), mask(mk), o(new double[r_ * c_]), v(r_ * c_), m(o.get(), r_, c_) { for (int i = 0; i < r * c; i++) v[i] = o[i] = sx_nanor(n, mk, i); }
  bool na(int i, int j = 0) const { return (mask >> (i + r * j)) & 1; }
  double operator()(int i, int j = 0) const { return v[i + r * j]; }
  void same() const { for (int i = 0; i < r * c; i++) sx_assert(sx_eq(o[i], v[i]), "the data is not changed"); } };
static int pick(const char *n, int cells) { return sx_choose(n, 0, (1 << cells) - 1); }
static double absd(double x) { return x < 0 ? -x : x; }
// ---- C01 distances
template <bool nan> static void plain(DistanceMethod t, int r, int c) {
  D d(r, c, nan ? pick("mask", r * c) : 0); auto p = DistanceBase::GetFromType(nan, t, CorrelationMethod::kPearson, r, c); std::unique_ptr<double[]> w(new double[p->WorkSize]), s(new double[p->StorageSize]); p->Calculate(d.m, s.get(), w.get()); d.same(); sx_assert(p->StorageSize == c * (c - 1) / 2, "one distance per pair");
  for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) { if (i == j) continue; double e = 0, q = 0, x = 0; int n = 0; for (int k = 0; k < r; k++) if (!d.na(k, i) && !d.na(k, j)) { double u = absd(d(k, i) - d(k, j)); e += u * u; q += u; if (!n || x < u) x = u; n++; } double g = p->Result.Get(i, j); if (!n) continue; sx_assert(g >= 0, "a distance is not negative"); if (t == DistanceMethod::kEuclidean) sx_assert(sx_eq(g * g, e), "Euclidean distance over the complete rows"); else if (t == DistanceMethod::kManhattan) sx_assert(sx_eq(g, q), "Manhattan distance over the complete rows"); else sx_assert(sx_eq(g, x), "maximum distance over the complete rows"); }
  D big(r, c + 1, 0, "b"); sx_assert(throws([&] { p->Calculate(big.m, s.get(), w.get()); }), "data larger than reserved");
}
SX_ENTRY(di_euclid) { plain<false>(DistanceMethod::kEuclidean, sx_choose("r", 1, 3), sx_choose("c", 1, 3)); }
SX_ENTRY(di_euclid_nan) { plain<true>(DistanceMethod::kEuclidean, 3, 2); }
SX_ENTRY(di_manhattan) { plain<false>(DistanceMethod::kManhattan, 2, sx_choose("c", 2, 3)); }
SX_ENTRY(di_manhattan_nan) { plain<true>(DistanceMethod::kManhattan, 2, 2); }
SX_ENTRY(di_max) { plain<false>(DistanceMethod::kMaximum, 2, sx_choose("c", 2, 3)); }
SX_ENTRY(di_max_nan) { plain<true>(DistanceMethod::kMaximum, 3, 2); }
template <bool nan, CorrelationMethod M> static void corr(int r, int c) {
  bool ab = sx_choose("abs", 0, 1); D d(r, c, nan ? pick("mask", r * c) : 0); 
  for (int i = 0; i < c; i++) for (int j = i; j < c; j++) { std::vector<double> x; double sx = 0, sy = 0, vx = 0, vy = 0; int n = 0; for (int k = 0; k < r; k++) if (!d.na(k, i) && !d.na(k, j)) { n++; sx += d(k, i); sy += d(k, j); } if (n < 2) return; if (M == CorrelationMethod::kSpearman) { for (int k = 0; k < r; k++) for (int l = 0; l < k; l++) { sx_assume(d.na(k, i) || d.na(l, i) || d(k, i) != d(l, i)); sx_assume(d.na(k, j) || d.na(l, j) || d(k, j) != d(l, j)); } continue; } sx /= n; sy /= n; for (int k = 0; k < r; k++) if (!d.na(k, i) && !d.na(k, j)) { vx += (d(k, i) - sx) * (d(k, i) - sx); vy += (d(k, j) - sy) * (d(k, j) - sy); } sx_assume(vx > 0); sx_assume(vy > 0); }
  auto p = DistanceBase::GetFromType(nan, ab ? DistanceMethod::kAbsCorrelation : DistanceMethod::kCorrelation, M, r, c); std::unique_ptr<double[]> w(new double[p->WorkSize]), s(new double[p->StorageSize]); p->Calculate(d.m, s.get(), w.get()); d.same();
  Correlation<nan, CorrelationType::kCorrelation, M> cor(r, c); std::unique_ptr<double[]> cw(new double[cor.WorkSize]), cs(new double[cor.StorageSize]); cor.Calculate(d.m, cw.get(), cs.get());
  for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) if (i != j) { double q = cor.Result.Get0(i, j), g = p->Result.Get(i, j), e = ab ? 1 - q * q : (1 - q) / 2; if (e < 0) continue; sx_assert(g >= 0, "a distance is not negative"); sx_assert(sx_eq(g * g, e), "distance of the correlation"); }
  D big(r, c + 1, 0, "b"); sx_assert(throws([&] { p->Calculate(big.m, s.get(), w.get()); }), "data larger than reserved");
}
SX_ENTRY(di_pearson) { corr<false, CorrelationMethod::kPearson>(sx_choose("r", 2, 3), 2); }
SX_ENTRY(di_pearson_nan) { corr<true, CorrelationMethod::kPearson>(3, 2); }
SX_ENTRY(di_spearman) { corr<false, CorrelationMethod::kSpearman>(3, sx_choose("c", 2, 3)); }
SX_ENTRY(di_spearman_nan) { corr<true, CorrelationMethod::kSpearman>(3, 2); }
SX_ENTRY(di_names) { for (auto t : {DistanceMethod::kEuclidean, DistanceMethod::kManhattan, DistanceMethod::kMaximum, DistanceMethod::kCorrelation, DistanceMethod::kAbsCorrelation}) { std::string s = ToString(t); for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; sx_assert(FromString_DistanceMethod(s.c_str()) == t, "the name of a distance identifies it"); } for (auto t : {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kWard}) { std::string s = ToString(t); for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; sx_assert(FromString_HClusterLinkage(s.c_str()) == t, "the name of a linkage identifies it"); }
  sx_assert(FromString_HClusterLinkage("uaverage") == HClusterLinkage::kAverageU && FromString_HClusterLinkage("waverage") == HClusterLinkage::kAverageW && FromString_HClusterLinkage("upgma") == HClusterLinkage::kAverageU && FromString_HClusterLinkage("wpgma") == HClusterLinkage::kAverageW, "names of the average linkages");
  char b[4] = {0}; int n = sx_choose("n", 0, 3); for (int i = 0; i < n; i++) b[i] = (char)sx_int("ch", 1, 127); if (n < 3) sx_assert(throws([&] { FromString_DistanceMethod(b); }) && throws([&] { FromString_HClusterLinkage(b); }), "other names are rejected");
  int k = sx_int("type", -2, 9); sx_assume(k < 0 || k > 4); sx_assert(throws([&] { DistanceBase::GetFromType(sx_choose("nan", 0, 1), (DistanceMethod)k, CorrelationMethod::kPearson, 2, 2); }), "unknown distances are rejected"); sx_assume(k != 6); sx_assert(throws([&] { HClusterBase::GetFromType((HClusterLinkage)k, 3); }), "unknown linkages are rejected"); }
// ---- C02 hierarchical clustering
struct Node { int set, a, b; double h; };
static int bits(int s) { int n = 0; for (; s; s >>= 1) n += s & 1; return n; }
struct Sym { int n; std::vector<double> s; std::unique_ptr<double[]> o; Sym(int n_) : n(n_), s(n_ * (n_ - 1) / 2), o(new double[n_ * (n_ - 1) / 2 + 1]) { for (size_t i = 0; i < s.size(); i++) { s[i] = o[i] = sx_real("d"); sx_assume(s[i] >= 0); } }
  double at(const MatrixSym<false> &m, int i, int j) const { return m.Get0(i, j); } };
static std::vector<Node> greedy(HClusterLinkage L, int n, const std::vector<std::vector<double>> &d0, bool strict) {  // merge the closest pair until one cluster is left
  std::vector<int> c; std::vector<std::vector<double>> d = d0; std::vector<Node> out; for (int i = 0; i < n; i++) c.push_back(1 << i);
  while (c.size() > 1) { size_t a = 0, b = 1; for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++) if (d[i][j] < d[a][b]) a = i, b = j; if (strict) for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++) if (i != a || j != b) sx_assume(d[a][b] < d[i][j]);
    out.push_back({c[a] | c[b], c[a], c[b], d[a][b]}); double h = d[a][b]; std::vector<double> nd; for (size_t k = 0; k < c.size(); k++) { double na = bits(c[a]), nb = bits(c[b]), nk = bits(c[k]), x = d[k][a], y = d[k][b], r = 0; if (k == a || k == b) { nd.push_back(0); continue; } switch (L) { case HClusterLinkage::kSingle: r = x < y ? x : y; break; case HClusterLinkage::kComplete: r = x < y ? y : x; break; case HClusterLinkage::kAverageU: r = (na * x + nb * y) / (na + nb); break; case HClusterLinkage::kAverageW: r = (x + y) / 2; break; default: r = ((na + nk) * x + (nb + nk) * y - nk * h) / (na + nb + nk); } nd.push_back(r); }
    for (size_t k = 0; k < c.size(); k++) d[k][a] = d[a][k] = nd[k]; c[a] |= c[b]; c.erase(c.begin() + b); d.erase(d.begin() + b); for (auto &r : d) r.erase(r.begin() + b); }
  return out;
}
static void hcl(HClusterLinkage L, int n, bool ties) {
  Sym s(n); MatrixSym<false> m(s.o.get(), n); std::vector<std::vector<double>> d(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) d[i][j] = m.Get0(i, j);
  std::vector<Node> ref; if (!ties) ref = greedy(L, n, d, true); auto c = HClusterBase::GetFromType(L, n); c->Calculate(m); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assert(sx_eq(m.Get0(i, j), d[i][j]), "the distances are not changed");
  sx_assert((int)c->Nodes.size() == 2 * n - 1, "one node per variable and merge"); std::vector<int> set(2 * n - 1), used(2 * n - 1, 0); for (int i = 0; i < 2 * n - 1; i++) { auto &x = *c->Nodes[i]; sx_assert(x.id == i, "ids are positions"); if (i < n) { set[i] = 1 << i; continue; } sx_assert(x.idLeft < i && x.idRight < i && x.idLeft >= 0 && x.idRight >= 0 && x.idLeft != x.idRight, "a merge joins earlier nodes"); used[x.idLeft]++; used[x.idRight]++; set[i] = set[x.idLeft] | set[x.idRight]; sx_assert(x.nodesWithin == bits(set[i]), "number of variables in a node"); }
  for (int i = 0; i < 2 * n - 2; i++) sx_assert(used[i] == 1, "every node is merged exactly once");
  for (int i = n; i < 2 * n - 1; i++) { auto &x = *c->Nodes[i]; for (int q : {x.idLeft, x.idRight}) if (q >= n) sx_assert(c->Nodes[q]->leftDistanceRight <= x.leftDistanceRight, "heights do not decrease toward the root"); }
  if (!ties) for (auto &r : ref) { bool f = false; for (int i = n; i < 2 * n - 1; i++) if (set[i] == r.set) { auto &x = *c->Nodes[i]; f = (set[x.idLeft] == r.a || set[x.idLeft] == r.b); sx_assert(sx_eq(x.leftDistanceRight, r.h), "height is the linkage distance of the merged clusters"); } sx_assert(f, "the closest clusters are merged"); }
  // groups
  for (int k = 1; k <= n; k++) { std::vector<std::unique_ptr<std::vector<int>>> g; for (int i = 0; i < k; i++) g.push_back(std::make_unique<std::vector<int>>()); c->Group(g); int all = 0; for (auto &v : g) { int q = 0; for (int x : *v) { sx_assert(x >= 0 && x < n && !((all | q) >> x & 1), "every variable is in one group"); q |= 1 << x; } bool nd = false; for (int i = 0; i < 2 * n - 1; i++) nd |= set[i] == q; sx_assert(q && nd, "a group is a node of the tree"); all |= q; } sx_assert(all == (1 << n) - 1, "every variable is in one group"); }
  // R format
  std::unique_ptr<int[]> mg(new int[2 * n]); std::unique_ptr<double[]> hh(new double[n]); Matrix<int> M(mg.get(), n - 1, 2); Mx H(hh.get(), n - 1); std::vector<int> ord; c->MergeR(M, H, ord); std::vector<int> rs(n, 0); sx_assert((int)ord.size() == n - 1, "order of the merges"); int oall = 0; for (int o : ord) oall |= 1 << o; sx_assert(oall == (1 << (n - 1)) - 1, "order is a permutation");
  for (int j = 0; j < n - 1; j++) { int q = 0; for (int t = 0; t < 2; t++) { int e = mg[j + (n - 1) * t]; sx_assert(e != 0 && e >= -n && e <= j, "a row refers to variables or earlier rows"); int y = e < 0 ? 1 << (-e - 1) : rs[e - 1]; sx_assert(!(q & y), "rows join disjoint clusters"); q |= y; } rs[j] = q; sx_assert(set[n + ord[j]] == q, "rows are the merges in their order"); sx_assert(sx_eq(hh[j], c->Nodes[n + ord[j]]->leftDistanceRight), "height of the row"); if (j) sx_assert(hh[j - 1] <= hh[j], "heights are sorted"); }
}
SX_ENTRY(hc_single3) { hcl(HClusterLinkage::kSingle, sx_choose("n", 2, 3), true); }
SX_ENTRY(hc_complete3) { hcl(HClusterLinkage::kComplete, sx_choose("n", 2, 3), true); }
SX_ENTRY(hc_uavg3) { hcl(HClusterLinkage::kAverageU, sx_choose("n", 2, 3), true); }
SX_ENTRY(hc_wavg3) { hcl(HClusterLinkage::kAverageW, sx_choose("n", 2, 3), true); }
SX_ENTRY(hc_ward3) { hcl(HClusterLinkage::kWard, sx_choose("n", 2, 3), true); }
SX_ENTRY(hc_single4) { hcl(HClusterLinkage::kSingle, 4, false); }
SX_ENTRY(hc_complete4) { hcl(HClusterLinkage::kComplete, 4, false); }
SX_ENTRY(hc_uavg4) { hcl(HClusterLinkage::kAverageU, 4, false); }
SX_ENTRY(hc_wavg4) { hcl(HClusterLinkage::kAverageW, 4, false); }
SX_ENTRY(hc_ward4) { hcl(HClusterLinkage::kWard, 4, false); }
SX_ENTRY(hc_bad) { int n = sx_choose("n", 2, 4), k = sx_choose("k", 2, 4), mask = k == 4 ? 8 : pick("mask", k * (k - 1) / 2); std::unique_ptr<double[]> o(new double[6]); for (int i = 0; i < k * (k - 1) / 2; i++) o[i] = (mask >> i) & 1 ? NAN : 1.0 + i; MatrixSym<false> m(o.get(), k); HCluster<HClusterLinkage::kSingle> c(n); sx_assert(throws([&] { c.Calculate(m); }) == (mask != 0 || n != k), "missing distances and other sizes are rejected"); }
// ---- C03 grouping data
template <HClusterLinkage L, DistanceMethod T> static void group(int r, int c) {
  const bool nan = T == DistanceMethod::kEuclidean; D d(r, c, 0); int k = sx_choose("k", 1, c); bool thr = sx_choose("thr", 0, 1); double th = thr ? sx_pos("threshold") : 0; D prev(r, c, 0, "p");
  Distance<true, T, CorrelationMethod::kPearson> di(r, c); std::unique_ptr<double[]> s(new double[di.StorageSize + 1]), w(new double[di.WorkSize + 1]); di.Calculate(d.m, s.get(), w.get());
  auto g = GroupDataBase::GetFromType(L, T, CorrelationMethod::kPearson, r, c); std::unique_ptr<double[]> gw(new double[g->WorkSize]); if (sx_choose("again", 0, 1)) { for (int i = 0; i < r * c; i++) prev.o[i] = i % 3 ? 1.0 : 2.0 + i; g->Calculate(prev.m, gw.get(), 1, 100.0); } g->Calculate(d.m, gw.get(), k, th); d.same(); sx_assert((int)g->Groups.size() == k, "number of groups"); sx_assert(!g->NaNDistanceFound, "no missing distance");
  int all = 0, rem = 0; for (size_t x : g->Removed) { sx_assert((int)x < c, "removed variables exist"); rem |= 1 << x; } for (auto &v : g->Groups) for (int x : *v) { sx_assert(x >= 0 && x < c && !(all >> x & 1), "every variable is in one group"); all |= 1 << x; } sx_assert((all & rem) == 0 && (all | rem) == (1 << c) - 1, "every variable is in one group or removed"); if (!thr) { sx_assert(!rem, "nothing is removed without threshold"); return; }
  for (auto &v : g->Groups) for (size_t i = 0; i < v->size(); i++) for (size_t j = i + 1; j < v->size(); j++) sx_assert(di.Result.Get0((*v)[i], (*v)[j]) >= th, "remaining variables of a group differ by the threshold");
  for (int x = 0; x < c; x++) if (rem >> x & 1) { bool near = false; for (int y = 0; y < x; y++) near |= di.Result.Get0(y, x) < th; sx_assert(near, "a removed variable is close to an earlier one"); }
}
SX_ENTRY(gd_uavg_euclid) { group<HClusterLinkage::kAverageU, DistanceMethod::kEuclidean>(1, 3); }
SX_ENTRY(gd_single_manh) { group<HClusterLinkage::kSingle, DistanceMethod::kManhattan>(1, 3); }
SX_ENTRY(gd_complete_max) { group<HClusterLinkage::kComplete, DistanceMethod::kMaximum>(1, 3); }
SX_ENTRY(gd_size) { auto g = GroupDataBase::GetFromType(HClusterLinkage::kAverageU, DistanceMethod::kEuclidean, CorrelationMethod::kPearson, 2, 2); std::unique_ptr<double[]> gw(new double[g->WorkSize]); D d(2, 3); sx_assert(throws([&] { g->Calculate(d.m, gw.get(), 1, 0); }), "data larger than reserved is rejected"); }
SX_ENTRY(gd_nan) { D d(2, 2, pick("mask", 4)); auto g = GroupDataBase::GetFromType(HClusterLinkage::kSingle, DistanceMethod::kCorrelation, CorrelationMethod::kPearson, 2, 2); std::unique_ptr<double[]> gw(new double[g->WorkSize]); g->Calculate(d.m, gw.get(), 2, 0); Distance<true, DistanceMethod::kCorrelation, CorrelationMethod::kPearson> di(2, 2); double ds[1]; std::unique_ptr<double[]> dw(new double[di.WorkSize]); di.Calculate(d.m, ds, dw.get()); sx_assert(g->NaNDistanceFound == isnan_(ds[0]), "a missing distance is reported"); sx_assert(g->Groups[0]->size() == 1 && g->Groups[1]->size() == 1, "two groups of one variable"); }
