#include "matrix.h"
#include "matrix_utils.h"
#include "common.h"
using namespace ldt;
typedef Matrix<double> Mx;
// heap matrix whose storage has exactly r*c elements, so that any access outside it is seen
struct H { std::unique_ptr<double[]> o; double *d; Mx m; int r, c;
  H(int r_, int c_, const char *n = "a", bool sym = true) : o(new double[r_ * c_]), d(o.get()), m(d, r_, c_), r(r_), c(c_) { for (int i = 0; i < r * c; i++) d[i] = sym ? sx_real(n) : 7.0 * i + 0.25; }
  double operator()(int i, int j) const { return d[i + r * j]; }
  std::vector<double> copy() const { return std::vector<double>(d, d + r * c); } };
static void same_except(const H &h, const std::vector<double> &o, int i, int j, const char *msg = "nothing else changes") { for (int b = 0; b < h.c; b++) for (int a = 0; a < h.r; a++) if (!(a == i && b == j)) sx_assert(sx_eq(h(a, b), o[a + h.r * b]), "nothing else changes"); }
static bool same(const H &h, const std::vector<double> &o) { bool k = true; for (size_t i = 0; i < o.size(); i++) k &= sx_eq(h.d[i], o[i]); return k; }
#define UNCHANGED(h, o) sx_assert(same(h, o), "a rejected operation changes nothing")
// ---- M01 element access
SX_ENTRY(mat_index) {
  int r = sx_choose("r", 0, 3), c = sx_choose("c", 0, 3); H h(r, c); int i = sx_int("i", -2, 4), j = sx_int("j", -2, 4); double v = 0, x = sx_real("x"); auto o = h.copy(); int op = sx_choose("op", 0, 3);
  bool bad = i < 0 || j < 0 || i >= r || j >= c; int ci = bad ? 0 : sx_conc(i), cj = bad ? 0 : sx_conc(j);
  if (op == 0) { sx_assert(throws([&] { v = h.m.Get(i, j); }) == bad, "reading an element throws exactly outside the matrix"); if (!bad) sx_assert(sx_eq(v, o[ci + r * cj]), "an element is stored by column"); sx_assert(same(h, o), "reading changes nothing"); return; }
  bool t = throws([&] { if (op == 1) h.m.Set(i, j, x); else if (op == 2) h.m.Set_Plus(i, j, x); else h.m.Set_Minus(i, j, x); });
  sx_assert(t == bad, "writing an element throws exactly outside the matrix"); if (bad) { UNCHANGED(h, o); return; }
  double w = o[ci + r * cj]; sx_assert(sx_eq(h(ci, cj), op == 1 ? x : op == 2 ? w + x : w - x), "the element is written"); same_except(h, o, ci, cj);
}
SX_ENTRY(mat_index1) {
  int r = sx_choose("r", 0, 3), c = sx_choose("c", 0, 2); H h(r, c); int i = sx_int("i", -2, 7); double v = 0, x = sx_real("x"); auto o = h.copy(); bool bad = i < 0 || i >= r * c, vb = c != 1 || i < 0 || i >= r; int op = sx_choose("op", 0, 3);
  if (op == 0) { sx_assert(throws([&] { v = h.m.Get(i); }) == bad, "reading by position throws exactly outside the data"); if (!bad) { int k = sx_conc(i); sx_assert(sx_eq(v, o[k]), "reading by position"); int a, b; h.m.TranslateIndex(k, a, b); sx_assert(a + r * b == k && a >= 0 && a < r && b >= 0 && b < c, "position to row and column"); } }
  if (op == 1) { sx_assert(throws([&] { h.m.Set(i, x); }) == bad, "writing by position throws exactly outside the data"); if (bad) UNCHANGED(h, o); else { int k = sx_conc(i); sx_assert(sx_eq(h.d[k], x), "writing by position"); same_except(h, o, k % r, k / r); } }
  if (op == 2) { sx_assert(throws([&] { v = h.m.GetVector(i); }) == vb, "reading a vector element throws exactly outside the vector"); if (!vb) sx_assert(sx_eq(v, o[sx_conc(i)]), "reading a vector element"); }
  if (op == 3) { sx_assert(throws([&] { h.m.SetVector(i, x); }) == vb, "writing a vector element throws exactly outside the vector"); if (vb) UNCHANGED(h, o); else { int k = sx_conc(i); sx_assert(sx_eq(h.d[k], x), "writing a vector element"); same_except(h, o, k, 0); } }
}
SX_ENTRY(mat_shape) {
  int r = sx_choose("r", 0, 3), c = sx_choose("c", 0, 3), a = sx_int("nr", 0, 9), b = sx_int("nc", 0, 9); H h(r, c); auto o = h.copy();
  sx_assert(h.m.length() == r * c && h.m.IsVector() == (c == 1) && h.m.IsEmpty() == (r * c == 0) && h.m.IsSquare() == (r == c), "shape predicates");
  int ca = sx_conc(a), cb = sx_conc(b); bool t = throws([&] { h.m.Restructure(ca, cb); }); sx_assert(t == (ca * cb != r * c), "restructuring keeps the number of elements"); sx_assert(h.m.RowsCount == (t ? r : ca) && h.m.ColsCount == (t ? c : cb), "restructuring sets the shape"); sx_assert(same(h, o), "restructuring keeps the data");
}
SX_ENTRY(mat_iter) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); H h(r, c); int k = 0; for (double *p = h.m.begin(); p != h.m.end(); ++p) sx_assert(p == h.d + k++, "iteration visits every element by column"); sx_assert(k == r * c, "iteration visits all elements");
  for (int j = 0; j < c; j++) { k = 0; for (double *p = h.m.ColBegin(j); p != h.m.ColEnd(j); ++p) sx_assert(p == &h.d[k++ + r * j], "column iteration"); sx_assert(k == r, "column iteration visits all rows"); }
  for (int i = 0; i < r; i++) { k = 0; auto e = h.m.RowEnd(i); for (auto p = h.m.RowBegin(i); p != e; ++p) sx_assert(&*p == &h.d[i + r * k++], "row iteration"); sx_assert(k == c, "row iteration visits all columns"); }
  sx_assert(sx_eq(h.m.First(), h.d[0]) && sx_eq(h.m.Last(), h.d[r * c - 1]), "first and last element");
}
SX_ENTRY(mat_setsub) {
  H t(3, 2, "t"), s(2, 3, "s"); int a = sx_int("row", -1, 3), b = sx_int("col", -1, 2), p = sx_int("srow", -1, 2), q = sx_int("scol", -1, 3), n = sx_int("rows", -1, 3), m = sx_int("cols", -1, 3); auto o = t.copy(), os = s.copy(); bool tr = sx_choose("transposed", 0, 1);
  bool bad = a < 0 || b < 0 || p < 0 || q < 0 || n < 0 || m < 0 || a + n > 3 || b + m > 2 || (tr ? q + n > 3 || p + m > 2 : p + n > 2 || q + m > 3);
  bool x = throws([&] { if (tr) t.m.SetSub_t(a, b, s.m, p, q, n, m); else t.m.SetSub(a, b, s.m, p, q, n, m); }); sx_assert(x == bad, "setting a sub-matrix throws exactly when it does not fit"); sx_assert(same(s, os), "the source is not changed"); if (bad) { UNCHANGED(t, o); return; }
  a = sx_conc(a); b = sx_conc(b); p = sx_conc(p); q = sx_conc(q); n = sx_conc(n); m = sx_conc(m);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { bool in = i >= a && i < a + n && j >= b && j < b + m; sx_assert(sx_eq(t(i, j), in ? (tr ? s(p + j - b, q + i - a) : s(p + i - a, q + j - b)) : o[i + 3 * j]), "exactly the sub-matrix is set"); }
}
SX_ENTRY(mat_getsub) {
  H s(3, 2, "s"); int a = sx_int("row", -1, 3), b = sx_int("col", -1, 2), n = sx_int("rows", -1, 3), m = sx_int("cols", -1, 3), p = sx_int("trow", -1, 2), q = sx_int("tcol", -1, 2); H t(2, 2, "t"); auto o = t.copy();
  bool bad = a < 0 || b < 0 || p < 0 || q < 0 || n < 0 || m < 0 || a + n > 3 || b + m > 2 || p + n != 2 || q + m != 2;
  bool x = throws([&] { s.m.GetSub(a, b, n, m, t.m, p, q); }); sx_assert(x == bad, "getting a sub-matrix throws exactly when it is outside or the storage does not fit"); if (bad) { UNCHANGED(t, o); return; }
  a = sx_conc(a); b = sx_conc(b); p = sx_conc(p); q = sx_conc(q);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sx_assert(sx_eq(t(i, j), i >= p && j >= q ? s(a + i - p, b + j - q) : o[i + 2 * j]), "exactly the sub-matrix is stored");
}
SX_ENTRY(mat_getsub_idx) {  // a range of rows (columns) and a list of columns (rows), possibly excluded
  bool byrow = sx_choose("byrow", 0, 1), ex = sx_choose("exclude", 0, 1); int R = 3, C = 2, N2 = byrow ? C : R, N1 = byrow ? R : C; H s(R, C, "s"); int f = sx_int("first", -1, 3), n = sx_int("count", 0, 3); int k = sx_choose("k", 0, 2); std::vector<Ti> ix; bool bi = false;
  for (int i = 0; i < k; i++) { int v = sx_int("idx", -1, 3); ix.push_back(v); bi = bi || v < 0 || v >= N2; }
  if (ex) for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) sx_assume(ix[i] != ix[j]);
  bool bad = f < 0 || f + n > N1 || bi; int other = ex ? N2 - k : k; if (other < 0) { sx_assert(throws([&] { H t(1, 1); s.m.GetSub(f, 1, ix, byrow, t.m, 0, 0, ex); }), "too many exclusions are rejected"); return; }
  int cn = sx_conc(n), tr = sx_choose("trow", 0, 1), tc = sx_choose("tcol", 0, 1), extra = sx_choose("extra", 0, 1); H t((byrow ? cn : other) + tr + extra, (byrow ? other : cn) + tc, "t"); auto o = t.copy();
  bool x = throws([&] { s.m.GetSub(f, cn, ix, byrow, t.m, tr, tc, ex); }); sx_assert(x == (bad || extra), "getting rows or columns throws exactly when an index or the storage is invalid"); if (x) { UNCHANGED(t, o); return; }
  std::vector<int> want; if (ex) { for (int i = 0; i < N2; i++) { bool e = false; for (auto v : ix) e |= v == i; if (!e) want.push_back(i); } } else for (auto v : ix) want.push_back(sx_conc(v)); f = sx_conc(f);
  for (int i = 0; i < t.r; i++) for (int j = 0; j < t.c; j++) { if (i < tr || j < tc) sx_assert(sx_eq(t(i, j), o[i + t.r * j]), "storage outside the sub-matrix is kept"); else sx_assert(sx_eq(t(i, j), byrow ? s(f + i - tr, want[j - tc]) : s(want[i - tr], f + j - tc)), "the selected rows and columns are stored in order"); }
}
SX_ENTRY(mat_getsub_idx2) {
  H s(3, 2, "s"); int k = sx_choose("k", 0, 2), l = sx_choose("l", 0, 2), extra = sx_choose("extra", 0, 1), tr = sx_choose("trow", 0, 1); std::vector<Ti> a, b; bool bad = false; for (int i = 0; i < k; i++) { a.push_back(sx_int("i", -1, 3)); bad = bad || a[i] < 0 || a[i] >= 3; } for (int i = 0; i < l; i++) { b.push_back(sx_int("j", -1, 2)); bad = bad || b[i] < 0 || b[i] >= 2; }
  H t(k + tr, l + extra, "t"); auto o = t.copy(); bool x = throws([&] { s.m.GetSub(a, b, t.m, tr, 0); }); sx_assert(x == (bad || extra), "getting rows and columns throws exactly when an index or the storage is invalid"); if (x) { UNCHANGED(t, o); return; }
  for (int i = 0; i < k; i++) for (int j = 0; j < l; j++) sx_assert(sx_eq(t(i + tr, j), s(sx_conc(a[i]), sx_conc(b[j]))), "the selected rows and columns are stored in order"); if (tr) for (int j = 0; j < l; j++) sx_assert(sx_eq(t(0, j), o[t.r * j]), "storage outside the sub-matrix is kept");
}
SX_ENTRY(mat_subvector) {
  int c = sx_choose("cols", 1, 2); H v(c == 1 ? 4 : 2, c, "v"), t(3, 1, "t"); int a = sx_int("start", -1, 4), b = sx_int("tstart", -1, 3), n = sx_int("count", -1, 4); auto o = t.copy(), ov = v.copy(); bool set = sx_choose("set", 0, 1);
  if (set) { bool bad = a < 0 || b < 0 || n < 0 || b + n > 3 || a + n > 4; bool x = throws([&] { t.m.SetSubVector(b, v.m, a, n); }); sx_assert(x == bad, "setting a sub-vector throws exactly when it does not fit"); if (x) { UNCHANGED(t, o); return; } }
  else { bool bad = c != 1 || a < 0 || b < 0 || n < 0 || a + n > 4 || b + n != 3; bool x = throws([&] { v.m.GetSubVector(a, n, t.m, b); }); sx_assert(x == bad, "getting a sub-vector throws exactly when it is outside or does not fit"); if (x) { UNCHANGED(t, o); return; } }
  a = sx_conc(a); b = sx_conc(b); n = sx_conc(n); for (int i = 0; i < 3; i++) sx_assert(sx_eq(t.d[i], i >= b && i < b + n ? v.d[a + i - b] : o[i]), "exactly the sub-vector is copied"); sx_assert(same(v, ov), "the source is not changed");
}
SX_ENTRY(mat_rows) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); H h(r, c); int op = sx_choose("op", 0, 7); int i = sx_int("i", -1, 3); double x = sx_real("x"); auto o = h.copy(); bool bad = i < 0 || i >= r, t;
  if (op < 3) { t = throws([&] { if (op == 0) h.m.SetRow(i, x); else if (op == 1) h.m.SetRow_plus(i, x); else h.m.SetRow_minus(i, x); }); sx_assert(t == bad, "row index is checked"); if (t) { UNCHANGED(h, o); return; } i = sx_conc(i);
    for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) { double w = o[a + r * b]; sx_assert(sx_eq(h(a, b), a != i ? w : op == 0 ? x : op == 1 ? w + x : w - x), "exactly the row is set"); } return; }
  if (op == 3) { int n = sx_choose("n", 1, 4); H s(n, 1, "s"); t = throws([&] { h.m.SetRow(i, s.m); }); sx_assert(t == (bad || n < c), "row index and source length are checked"); if (t) { UNCHANGED(h, o); return; } i = sx_conc(i); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), a == i ? s.d[b] : o[a + r * b]), "exactly the row is set"); return; }
  if (op == 4) { int sr = sx_choose("sr", 1, 2), sc = sx_choose("sc", 1, 3); H s(sr, sc, "s"); int k = sx_int("k", -1, 2); t = throws([&] { h.m.SetRowFromRow(i, s.m, k); }); sx_assert(t == (bad || k < 0 || k >= sr || sc < c), "row indexes and source size are checked"); if (t) { UNCHANGED(h, o); return; } i = sx_conc(i); k = sx_conc(k); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), a == i ? s(k, b) : o[a + r * b]), "exactly the row is set"); return; }
  if (op == 5) { int sr = sx_choose("sr", 1, 3), sc = sx_choose("sc", 1, 3); H s(sr, sc, "s"); t = throws([&] { h.m.SetRowFromDiag(i, s.m); }); sx_assert(t == (bad || sr != c || sc != c), "row index and source size are checked"); if (t) { UNCHANGED(h, o); return; } i = sx_conc(i); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), a == i ? s(b, b) : o[a + r * b]), "exactly the row is set"); return; }
  if (op == 6) { int n = sx_choose("n", 1, 2), b0 = sx_int("colstart", -1, 3), l = sx_int("len", 0, 3); H s(n, 1, "s"); t = throws([&] { h.m.SetSubRow(i, b0, s.m, l); }); sx_assert(t == (bad || b0 < 0 || b0 + l > c || l > n), "setting a part of a row throws exactly when it does not fit"); if (t) { UNCHANGED(h, o); return; } i = sx_conc(i); b0 = sx_conc(b0); l = sx_conc(l); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), a == i && b >= b0 && b < b0 + l ? s.d[b - b0] : o[a + r * b]), "exactly the part of the row is set"); return; }
  int n = sx_choose("n", 1, 4); H s(n, 1, "s"); auto os = s.copy(); t = throws([&] { h.m.GetRow(i, s.m); }); sx_assert(t == (bad || n != c), "row index and storage length are checked"); if (t) { UNCHANGED(s, os); return; } i = sx_conc(i); for (int b = 0; b < c; b++) sx_assert(sx_eq(s.d[b], o[i + r * b]), "a row is read");
}
SX_ENTRY(mat_cols) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); H h(r, c); int op = sx_choose("op", 0, 8); int j = sx_int("j", -1, 3); double x = sx_real("x"); auto o = h.copy(); bool bad = j < 0 || j >= c, t;
  if (op < 3) { t = throws([&] { if (op == 0) h.m.SetColumn(j, x); else if (op == 1) h.m.SetColumn_plus(j, x); else h.m.SetColumn_minus(j, x); }); sx_assert(t == bad, "column index is checked"); if (t) { UNCHANGED(h, o); return; } j = sx_conc(j);
    for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) { double w = o[a + r * b]; sx_assert(sx_eq(h(a, b), b != j ? w : op == 0 ? x : op == 1 ? w + x : w - x), "exactly the column is set"); } return; }
  if (op == 3) { int n = sx_choose("n", 1, 4); H s(n, 1, "s"); t = throws([&] { h.m.SetColumn(j, s.m); }); sx_assert(t == (bad || n < r), "column index and source length are checked"); if (t) { UNCHANGED(h, o); return; } j = sx_conc(j); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), b == j ? s.d[a] : o[a + r * b]), "exactly the column is set"); return; }
  if (op == 4 || op == 5) { int sr = sx_choose("sr", 1, 3), sc = sx_choose("sc", 1, 3); H s(sr, sc, "s"); int k = sx_int("k", -1, 3); t = throws([&] { if (op == 4) h.m.SetColumnFromRow(j, s.m, k); else h.m.SetColumnFromColumn(j, s.m, k); }); sx_assert(t == (bad || k < 0 || (op == 4 ? k >= sr || sc < r : k >= sc || sr < r)), "indexes and source size are checked"); if (t) { UNCHANGED(h, o); return; } j = sx_conc(j); k = sx_conc(k); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), b == j ? (op == 4 ? s(k, a) : s(a, k)) : o[a + r * b]), "exactly the column is set"); return; }
  if (op == 6) { int sr = sx_choose("sr", 1, 3), sc = sx_choose("sc", 1, 3); H s(sr, sc, "s"); t = throws([&] { h.m.SetColumnFromDiag(j, s.m); }); sx_assert(t == (bad || sr != r || sc != r), "column index and source size are checked"); if (t) { UNCHANGED(h, o); return; } j = sx_conc(j); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) sx_assert(sx_eq(h(a, b), b == j ? s(a, a) : o[a + r * b]), "exactly the column is set"); return; }
  if (op == 7) { int n = sx_choose("n", 1, 4); H s(n, 1, "s"); auto os = s.copy(); t = throws([&] { h.m.GetColumn(j, s.m); }); sx_assert(t == (bad || n != r), "column index and storage length are checked"); if (t) { UNCHANGED(s, os); return; } j = sx_conc(j); for (int a = 0; a < r; a++) sx_assert(sx_eq(s.d[a], o[a + r * j]), "a column is read"); return; }
  int n = sx_choose("n", 1, 3); H s(n, 1, "s"); auto os = s.copy(); t = throws([&] { h.m.GetDiag(s.m); }); sx_assert(t == (r != c || n < r), "only the diagonal of a square matrix can be read"); if (t) { UNCHANGED(s, os); return; } for (int a = 0; a < r; a++) sx_assert(sx_eq(s.d[a], h(a, a)), "the diagonal is read");
}
SX_ENTRY(mat_copy) {
  int r = sx_choose("r", 0, 3), c = sx_choose("c", 0, 2), q = sx_choose("q", 0, 3), w = sx_choose("w", 0, 2), op = sx_choose("op", 0, 3); H a(r, c, "a"), b(q, w, "b"); auto oa = a.copy(), ob = b.copy();
  bool t = throws([&] { if (op == 0) a.m.CopyTo(b.m); else if (op == 1) b.m.CopyFrom(a.m); else if (op == 2) a.m.CopyTo0(b.m); else b.m.CopyFrom0(a.m); });
  sx_assert(t == (op < 2 ? r != q || c != w : r * c != q * w), "copying checks the size"); sx_assert(same(a, oa), "the source is not changed"); if (t) UNCHANGED(b, ob); else sx_assert(same(b, oa), "the data is copied");
}
SX_ENTRY(mat_fill) {
  int r = sx_choose("r", 0, 3), c = sx_choose("c", 0, 3), op = sx_choose("op", 0, 5); H h(r, c); auto o = h.copy(); double x = sx_real("x"), y = sx_real("y"); bool t = throws([&] { switch (op) { case 0: h.m.SetValue(x); break; case 1: h.m.SetSequence(x, y); break; case 2: h.m.SetValueDiag(x); break; case 3: h.m.SetValueDiag(x, y); break; case 4: h.m.SetValueOffDiag(x); break; default: Mx::Diagonal(h.m, x, y); } });
  sx_assert(t == (op >= 2 && r != c), "diagonals are set for square matrices only"); if (t) { UNCHANGED(h, o); return; }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double w = o[i + r * j], e = op == 0 ? x : op == 1 ? x + (i + r * j) * y : op == 2 ? (i == j ? x : w) : op == 4 ? (i == j ? w : x) : (i == j ? x : y); sx_assert(sx_eq(h(i, j), e), "exactly the requested elements are set"); }
  if (op == 5) sx_assert(Mx::IsDiagonal(h.m, x, y, 0.0), "a matrix set to a diagonal is recognised as diagonal");
}
SX_ENTRY(mat_isdiag) { int r = sx_choose("r", 1, 3); H h(r, r); double x = sx_real("x"), y = sx_real("y"), e = sx_range("eps", 0, 10); bool w = true; for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { double d = h(i, j) - (i == j ? x : y); w &= (d <= e) & (d >= -e); } sx_assert(Mx::IsDiagonal(h.m, x, y, e) == w, "a matrix is diagonal exactly when its elements are within the tolerance"); }
SX_ENTRY(mat_apply) {
  int r = sx_choose("r", 0, 2), c = sx_choose("c", 0, 2), q = sx_choose("q", 0, 2), op = sx_choose("op", 0, 5); H a(r, c, "a"), b(q, c, "b"), s(r, c, "s"), s2(q, c, "s"); auto oa = a.copy(), ob = b.copy(); double k = sx_real("k");
  std::function<double(double)> f = [k](double v) { return k * v + 1; }; std::function<double(double, double)> g = [k](double v, double w) { return k * v - w; };
  if (op == 0) { a.m.Apply_in(f); for (int i = 0; i < r * c; i++) sx_assert(sx_eq(a.d[i], k * oa[i] + 1), "a function is applied to every element"); }
  if (op == 1) { bool t = throws([&] { a.m.Apply_in(b.m, g); }); sx_assert(t == (r * c != q * c), "lengths are checked"); if (t) UNCHANGED(a, oa); else for (int i = 0; i < r * c; i++) sx_assert(sx_eq(a.d[i], k * oa[i] - ob[i]), "a function is applied to every pair"); }
  if (op == 2) { bool t = throws([&] { a.m.Apply(f, s2.m); }); sx_assert(t == (r * c != q * c), "lengths are checked"); if (!t) for (int i = 0; i < r * c; i++) sx_assert(sx_eq(s2.d[i], k * oa[i] + 1), "a function is applied to every element"); sx_assert(same(a, oa), "the source is not changed"); }
  if (op == 3) { bool t = throws([&] { a.m.Apply(b.m, g, s.m); }); sx_assert(t == (r * c != q * c), "lengths are checked"); if (!t) for (int i = 0; i < r * c; i++) sx_assert(sx_eq(s.d[i], k * oa[i] - ob[i]), "a function is applied to every pair"); }
  if (op == 4 && r * c) { a.m.ApplyRow_in(r - 1, f); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sx_assert(sx_eq(a(i, j), i == r - 1 ? k * oa[i + r * j] + 1 : oa[i + r * j]), "a function is applied to exactly the row"); }
  if (op == 5 && r * c) { a.m.ApplyColumn_in(c - 1, f); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sx_assert(sx_eq(a(i, j), j == c - 1 ? k * oa[i + r * j] + 1 : oa[i + r * j]), "a function is applied to exactly the column"); }
}
SX_ENTRY(mat_triangular) {
  int m = sx_choose("m", 1, 4), up = sx_choose("up", 0, 2); bool diag = sx_choose("diag", 0, 1), byrow = sx_choose("byrow", 0, 1); int need = diag ? m * (m + 1) / 2 : m * (m - 1) / 2, k = need + sx_choose("extra", -1, 1); if (k < 0) return; H s(m, m, "s"), e(k, 1, "e"); auto o = s.copy();
  bool ni = (up == 2) == byrow; bool t = throws([&] { Mx::MakeTriangular(s.m, e.m, up == 2 ? -1 : up, diag, byrow); }); sx_assert(t == (k != need || ni), "the number of elements and the direction are checked"); if (t) { UNCHANGED(s, o); return; }
  int q = 0; for (int i = 0; i < m; i++) for (int j = diag ? i : i + 1; j < m; j++) { double v = e.d[q++]; sx_assert(sx_eq(up == 2 ? s(j, i) : s(i, j), v), "elements fill the triangle in order"); if (up == 0) sx_assert(sx_eq(s(j, i), v), "a symmetric matrix is filled on both sides"); else if (i != j) sx_assert(sx_eq(up == 2 ? s(i, j) : s(j, i), o[up == 2 ? i + m * j : j + m * i]), "the other triangle is kept"); }
}
// ---- M04
template <bool D> static void matsym() {
  int n = sx_choose("n", 1, 4), L = D ? n * (n + 1) / 2 : n * (n - 1) / 2; auto d = std::make_unique<double[]>(L); for (int i = 0; i < L; i++) d[i] = sx_real("d"); std::vector<double> o(d.get(), d.get() + L); MatrixSym<D> m(d.get(), n); sx_assert(m.length_array() == L, "length of the stored triangle");
  int i = sx_int("i", -1, 4), j = sx_int("j", -1, 4); double x = sx_real("x"), v = 0; bool bad = i < 0 || j < 0 || i >= n || j >= n || (!D && i == j);
  sx_assert(throws([&] { v = m.Get(i, j); }) == bad, "reading throws exactly outside the stored part"); bool t = throws([&] { m.Set(i, j, x); }); sx_assert(t == bad, "writing throws exactly outside the stored part");
  if (bad) { for (int k = 0; k < L; k++) sx_assert(sx_eq(d[k], o[k]), "a rejected operation changes nothing"); return; } i = sx_conc(i); j = sx_conc(j); int c = 0; for (int k = 0; k < L; k++) c += !sx_eq(d[k], o[k]);
  sx_assert(sx_eq(m.Get(i, j), x) && sx_eq(m.Get(j, i), x), "an element is shared by both triangles");
  int k = 0; for (int a = 0; a < n; a++) for (int b = D ? a : a + 1; b < n; b++) { bool hit = (a == i && b == j) || (a == j && b == i); sx_assert(sx_eq(m.Get(a, b), hit ? x : o[k]), "elements are stored row by row and writing changes exactly one pair"); if (hit) sx_assert(sx_eq(v, o[k]), "reading returns the stored element"); k++; }
}
SX_ENTRY(sym_diag) { matsym<true>(); } SX_ENTRY(sym_nodiag) { matsym<false>(); }
SX_ENTRY(sym_anyall) { int n = sx_choose("n", 1, 3), mask = sx_choose("mask", 0, 7), L = n * (n + 1) / 2; std::vector<double> d; for (int i = 0; i < L; i++) d.push_back(sx_nanor("d", mask, i)); MatrixSym<true> m(d.data(), n); double x = sx_choose("nan", 0, 1) ? NAN : sx_real("x"); bool an = false, al = true; for (double v : d) { bool e = isnan_(x) ? isnan_(v) : v == x; an |= e; al &= e; } sx_assert(m.Any(x) == an && m.All(x) == al, "any and all agree with the elements"); m.SetData(2.0, d.data(), n); sx_assert(m.All(2.0), "setting a default value sets all elements"); }
SX_ENTRY(vmat) {
  int n = sx_choose("n", 0, 4), m = sx_choose("m", -1, 3), c = sx_choose("c", 1, 2); std::vector<double> d; for (int i = 0; i < n; i++) d.push_back(sx_real("d")); bool bad = m == -1 ? n % c : m * c != n; VMatrix<double> *p = nullptr; bool t = throws([&] { p = new VMatrix<double>(d, m, c); }); sx_assert(t == bad, "the size of the vector must match the shape"); if (t) return;
  sx_assert(p->Mat.ColsCount == c && p->Mat.RowsCount * c == n, "shape of the matrix"); for (int i = 0; i < n; i++) { sx_assert(sx_eq(p->Mat.Data[i], d[i]) && &p->Mat.Data[i] == &p->Vec[i], "the matrix views the vector"); } delete p; VMatrix<double> z(2, c); z.Mat.SetValue(3.0); z.Sync(); sx_assert(z.Mat.Data == z.Vec.data() && z.Mat.length() == 2 * c && z.Vec[2 * c - 1] == 3.0, "the matrix views the vector");
}
// ---- M02 products
static double dot(int K, std::function<double(int)> f) { double s = 0; for (int k = 0; k < K; k++) s += f(k); return s; }
SX_ENTRY(la_elementwise) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), op = sx_choose("op", 0, 3), kind = sx_choose("kind", 0, 3); H a(r, c, "a"), b(r, c, "b"), s(r, c, "s"); auto oa = a.copy(), os = s.copy(); double x = sx_real("x"), be = sx_choose("b0", 0, 1) ? sx_real("beta") : 0; auto F = [&](double u, double v) { return op == 0 ? u + v : op == 1 ? u - v : op == 2 ? u * v : u / v; }; if (op == 3) { sx_assume(x != 0); for (int i = 0; i < r * c; i++) sx_assume(b.d[i] != 0); }
  auto &A = a.m; auto &B = b.m; auto &S = s.m;
  if (kind == 0) { if (op == 0) A.Add(x, S); else if (op == 1) A.Subtract(x, S); else if (op == 2) A.Multiply(x, S, be); else A.Divide(x, S); }
  if (kind == 1) { if (op == 0) A.Add(B, S); else if (op == 1) A.Subtract(B, S); else if (op == 2) A.Multiply(B, S, be); else A.Divide(B, S); }
  if (kind == 2) { if (op == 0) A.Add_in(x); else if (op == 1) A.Subtract_in(x); else if (op == 2) A.Multiply_in(x); else A.Divide_in(x); }
  if (kind == 3) { if (op == 0) A.Add_in(B); else if (op == 1) A.Subtract_in(B); else if (op == 2) A.Multiply_in(B); else A.Divide_in(B); }
  for (int i = 0; i < r * c; i++) { double w = F(oa[i], kind & 1 ? b.d[i] : x); if (kind < 2 && op == 2) w += be * os[i]; sx_assert(sx_eq(kind < 2 ? s.d[i] : a.d[i], w), "element-wise operation"); if (kind < 2) sx_assert(sx_eq(a.d[i], oa[i]), "operands are not changed"); }
}
SX_ENTRY(la_elem_size) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2), q = sx_choose("q", 1, 2), w = sx_choose("w", 1, 2), y = sx_choose("y", 1, 2), op = sx_choose("op", 0, 3); H a(r, c, "a", 0), b(q, w, "b", 0), s(y, c, "s", 0); bool bb = q != r || w != c, bs = y != r;
  sx_assert(throws([&] { if (op == 0) a.m.Add(b.m, s.m); else if (op == 1) a.m.Subtract(b.m, s.m); else if (op == 2) a.m.Multiply(b.m, s.m); else a.m.Divide(b.m, s.m); }) == (bb || bs), "element-wise operations check the sizes");
  sx_assert(throws([&] { if (op == 0) a.m.Add(1.5, s.m); else if (op == 1) a.m.Subtract(1.5, s.m); else if (op == 2) a.m.Multiply(1.5, s.m); else a.m.Divide(1.5, s.m); }) == bs, "element-wise operations check the sizes");
  sx_assert(throws([&] { if (op == 0) a.m.Add_in(b.m); else if (op == 1) a.m.Subtract_in(b.m); else if (op == 2) a.m.Multiply_in(b.m); else a.m.Divide_in(b.m); }) == bb, "element-wise operations check the sizes");
}
SX_ENTRY(la_power) { int r = sx_choose("r", 1, 3), k = sx_choose("k", 1, 3); H a(r, 1); auto o = a.copy(); a.m.Power_in(k); for (int i = 0; i < r; i++) sx_assert(sx_eq(a.d[i], k == 1 ? o[i] : k == 2 ? o[i] * o[i] : o[i] * o[i] * o[i]), "integer powers"); }
SX_ENTRY(la_dot) {  // the four products with alpha and beta
  int M = sx_choose("M", 1, 3), N = sx_choose("N", 1, 2), K = sx_choose("K", 1, 3), op = sx_choose("op", 0, 3), ab = sx_choose("ab", 0, 2); bool ta = op & 1, tb = op & 2; H a(ta ? K : M, ta ? M : K, "a"), b(tb ? N : K, tb ? K : N, "b"), s(M, N, "s"); auto os = s.copy(), oa = a.copy(), ob = b.copy(); double al = ab ? sx_real("alpha") : 1, be = ab == 2 ? sx_real("beta") : 0;
  auto call = [&] { if (op == 0) a.m.Dot(b.m, s.m, al, be); else if (op == 1) a.m.TrDot(b.m, s.m, al, be); else if (op == 2) a.m.DotTr(b.m, s.m, al, be); else a.m.TrDotTr(b.m, s.m, al, be); }; call();
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) sx_assert(sx_eq(s(i, j), al * dot(K, [&](int k) { return (ta ? a(k, i) : a(i, k)) * (tb ? b(j, k) : b(k, j)); }) + be * os[i + M * j]), "matrix product"); sx_assert(same(a, oa) && same(b, ob), "operands are not changed");
}
SX_ENTRY(la_dot_size) {
  int ar = sx_choose("ar", 1, 3), ac = sx_choose("ac", 1, 3), br = sx_choose("br", 1, 3), bc = sx_choose("bc", 1, 3), sr = sx_choose("sr", 1, 3), sc = sx_choose("sc", 1, 3), op = sx_choose("op", 0, 3); bool ta = op & 1, tb = op & 2; H a(ar, ac, "a", 0), b(br, bc, "b", 0), s(sr, sc, "s", 0);
  bool ok = (ta ? ar : ac) == (tb ? bc : br) && sr == (ta ? ac : ar) && sc == (tb ? br : bc); bool t = throws([&] { if (op == 0) a.m.Dot(b.m, s.m); else if (op == 1) a.m.TrDot(b.m, s.m); else if (op == 2) a.m.DotTr(b.m, s.m); else a.m.TrDotTr(b.m, s.m); }); sx_assert(t == !ok, "matrix products check the sizes");
}
SX_ENTRY(la_dotvec) {
  int M = sx_choose("M", 1, 3), N = sx_choose("N", 1, 3), tr = sx_choose("tr", 0, 1), ab = sx_choose("ab", 0, 1); H a(M, N, "a"), b(tr ? M : N, 1, "b"), s(tr ? N : M, 1, "s"); auto os = s.copy(); double al = ab ? sx_real("alpha") : 1, be = ab ? sx_real("beta") : 0; if (tr) a.m.tDotVector(b.m, s.m, al, be); else a.m.DotVector(b.m, s.m, al, be);
  for (int i = 0; i < s.r; i++) sx_assert(sx_eq(s.d[i], al * dot(b.r, [&](int k) { return (tr ? a(k, i) : a(i, k)) * b.d[k]; }) + be * os[i]), "matrix-vector product"); H v(M, 1, "v"), w(M, 1, "w"); sx_assert(sx_eq(v.m.VectorDotVector(w.m), dot(M, [&](int k) { return v.d[k] * w.d[k]; })), "inner product");
  H x(N == M ? N + 1 : N, 1, "x"); sx_assert(throws([&] { v.m.VectorDotVector(x.m); }), "inner product checks the size"); H y(s.r + 1, 1, "y"), z(b.r + 1, 1, "z"); sx_assert(throws([&] { tr ? a.m.tDotVector(b.m, y.m) : a.m.DotVector(b.m, y.m); }) && throws([&] { tr ? a.m.tDotVector(z.m, s.m) : a.m.DotVector(z.m, s.m); }), "matrix-vector product checks the sizes");
}
SX_ENTRY(la_gram) {
  int M = sx_choose("M", 1, 3), N = sx_choose("N", 1, 3), tr = sx_choose("tr", 0, 1), low = sx_choose("low", 0, 1), ab = sx_choose("ab", 0, 1), n = tr ? N : M; H a(M, N, "a"), s(n, n, "s"); auto os = s.copy(); double al = ab ? sx_real("alpha") : 1, be = ab ? sx_real("beta") : 0; if (tr) a.m.Dot_AtA(s.m, low, al, be); else a.m.Dot_AAt(s.m, low, al, be);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double w = al * dot(tr ? M : N, [&](int k) { return tr ? a(k, i) * a(k, j) : a(i, k) * a(j, k); }) + be * os[i + n * j]; sx_assert(sx_eq(s(i, j), w), "upper triangle of the cross product"); if (i != j) sx_assert(sx_eq(s(j, i), low ? w : os[j + n * i]), "the lower triangle is set exactly on request"); }
  H z(n + 1, n, "z", 0); sx_assert(throws([&] { tr ? a.m.Dot_AtA(z.m, low) : a.m.Dot_AAt(z.m, low); }), "cross products check the size");
}
SX_ENTRY(la_gram_nan) {
  int M = sx_choose("M", 1, 3), N = sx_choose("N", 1, 2), mask = sx_choose("mask", 0, (1 << (M * N)) - 1); H a(M, N, "a"), s(N, N, "s"), c(N, N, "c"); for (int i = 0; i < M * N; i++) if ((mask >> i) & 1) a.d[i] = NAN; a.m.Dot_AtA_nan(s.m, c.m, true);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double w = 0; int n = 0; for (int k = 0; k < M; k++) if (!isnan_(a(k, i)) && !isnan_(a(k, j))) { w += a(k, i) * a(k, j); n++; } sx_assert(sx_eq(s(i, j), w) && sx_eq(c(i, j), n), "cross product and count over the pairwise complete rows"); }
}
SX_ENTRY(la_sym) {
  int M = sx_choose("M", 1, 3), N = sx_choose("N", 1, 2), right = sx_choose("right", 0, 1), up = sx_choose("up", 0, 1), ab = sx_choose("ab", 0, 1); int n = M; H a(n, n, "a"), b(right ? N : n, right ? n : N, "b"), s(b.r, b.c, "s"); auto os = s.copy(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a.d[i + n * j] = a(j, i);
  double al = ab ? sx_real("alpha") : 1, be = ab ? sx_real("beta") : 0; auto A = a.copy(); if (right) b.m.DotSym(a.m, s.m, up, al, be); else a.m.SymDot(b.m, s.m, up, al, be);
  for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) sx_assert(sx_eq(s(i, j), al * dot(n, [&](int k) { return right ? b(i, k) * A[k + n * j] : A[i + n * k] * b(k, j); }) + be * os[i + s.r * j]), "product with a symmetric matrix");
  // the triangle that is not selected is not read
  if (!right) { H s2(b.r, b.c, "s2"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { if (up) a.d[i + n * j] = sx_real("junk"); else a.d[j + n * i] = sx_real("junk"); } a.m.SymDot(b.m, s2.m, up); for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) sx_assert(sx_eq(s2(i, j), dot(n, [&](int k) { return A[i + n * k] * b(k, j); })), "only the selected triangle is used"); }
}
SX_ENTRY(la_diag) {
  int M = sx_choose("M", 1, 3), N = sx_choose("N", 1, 3); H a(M, N, "a"), d(N, 1, "d"), e(M, 1, "e"), s(M, N, "s"); a.m.DotDiag(d.m, s.m); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) sx_assert(sx_eq(s(i, j), a(i, j) * d.d[j]), "product with a diagonal matrix on the right"); e.m.DiagDot(a.m, s.m); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) sx_assert(sx_eq(s(i, j), a(i, j) * e.d[i]), "product with a diagonal matrix on the left");
  H z(M, N + 1, "z", 0), y(M + 1, N, "y", 0); sx_assert(throws([&] { a.m.DotDiag(d.m, z.m); }) && throws([&] { a.m.DotDiag(d.m, y.m); }) && throws([&] { e.m.DiagDot(a.m, z.m); }) && throws([&] { z.m.DotDiag(d.m, z.m); }) && throws([&] { e.m.DiagDot(y.m, s.m); }), "products with diagonal matrices check the sizes");
}
SX_ENTRY(la_kron) {
  int m = sx_choose("m", 1, 2), n = sx_choose("n", 1, 3), p = sx_choose("p", 1, 2), q = sx_choose("q", 1, 2), op = sx_choose("op", 0, 3), h = sx_choose("h", 1, 3); H a(m, n, "a"), b(p, q, "b");
  int r = op == 0 ? m * p : op == 3 ? n * h : m * h, c = op == 0 ? n * q : op == 3 ? m * h : n * h; H s(r, c, "s"); if (op == 0) a.m.Kron(b.m, s.m); else if (op == 1) a.m.KronIden(h, s.m); else if (op == 2) a.m.IdenKron(h, s.m); else a.m.TrKronIden(h, s.m);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double w = op == 0 ? a(i / p, j / q) * b(i % p, j % q) : op == 1 ? (i % h == j % h ? a(i / h, j / h) : 0) : op == 2 ? (i / m == j / n ? a(i % m, j % n) : 0) : (i % h == j % h ? a(j / h, i / h) : 0); sx_assert(sx_eq(s(i, j), w), "Kronecker product"); }
  H z(r + 1, c, "z", 0); sx_assert(throws([&] { if (op == 0) a.m.Kron(b.m, z.m); else if (op == 1) a.m.KronIden(h, z.m); else if (op == 2) a.m.IdenKron(h, z.m); else a.m.TrKronIden(h, z.m); }), "Kronecker products check the size");
}
SX_ENTRY(la_transpose) {
  int r = sx_choose("r", 1, 4), c = sx_choose("c", 1, 4); H a(r, c, "a"), s(c, r, "s"); auto o = a.copy(); a.m.Transpose(s.m); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sx_assert(sx_eq(s(j, i), a(i, j)), "transpose"); sx_assert(same(a, o), "the source is not changed");
  if (r != c) sx_assert(throws([&] { a.m.Transpose(a.m); }), "transpose checks the size"); a.m.Transpose(); sx_assert(a.m.RowsCount == c && a.m.ColsCount == r, "shape of the transpose"); for (int i = 0; i < r * c; i++) sx_assert(sx_eq(a.d[i], s.d[i]), "in-place transpose equals the transpose");
}
SX_ENTRY(la_trace_norm) {
  int r = sx_choose("r", 1, 3), c = sx_choose("c", 1, 3); H a(r, c, "a"); double s = 0, tr = 0, mx = 0, q = 0, n1 = 0, ni = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { s += a(i, j); if (i == j) tr += a(i, j); q += a(i, j) * a(i, j); }
  sx_assert(sx_eq(a.m.Sum(), s), "sum of the elements"); if (r == c) sx_assert(sx_eq(a.m.Trace(), tr), "trace"); else sx_assert(throws([&] { a.m.Trace(); }), "trace needs a square matrix");
  double f = a.m.Norm('F'); sx_assert(f >= 0 && sx_eq(f * f, q), "Frobenius norm");
}
SX_ENTRY(la_norms) {
  int r = sx_choose("r", 1, 2), c = sx_choose("c", 1, 2); H a(r, c, "a"); double mx = 0, n1 = 0, ni = 0; for (int i = 0; i < r; i++) { double t = 0; for (int j = 0; j < c; j++) { double v = std::fabs(a(i, j)); mx = std::max(mx, v); t += v; } ni = std::max(ni, t); } for (int j = 0; j < c; j++) { double t = 0; for (int i = 0; i < r; i++) t += std::fabs(a(i, j)); n1 = std::max(n1, t); }
  sx_assert(sx_eq(a.m.Norm('M'), mx) && sx_eq(a.m.Norm('1'), n1) && sx_eq(a.m.Norm('I'), ni), "maximum, column-sum and row-sum norms");
}
// ---- M03
static double det(const H &a) { int n = a.r; if (n == 1) return a(0, 0); if (n == 2) return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)); }
static void iden(const H &a, const double *b, const char *msg) { int n = a.r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sx_assert(sx_eq(dot(n, [&](int k) { return a(i, k) * b[k + n * j]; }), i == j), "the product of a matrix and its inverse is the identity"); }
static void inv(int n) { H a(n, n, "a"), s(n, n, "s"); auto o = a.copy(); double d = det(a); int info = a.m.Inv(s.m); sx_assert((info == 0) == (d != 0), "inverting fails exactly for singular matrices"); sx_assert(same(a, o), "the source is not changed"); if (info == 0) iden(a, s.d, ""); }
SX_ENTRY(inv1) { inv(1); } SX_ENTRY(inv2) { inv(2); } SX_ENTRY(inv3) { inv(3); }
SX_ENTRY(inv2x2) { H a(2, 2, "a"), o(2, 2, "o", false); for (int i = 0; i < 4; i++) o.d[i] = a.d[i]; double d = det(a); int r = a.m.Inv2x2(); sx_assert((r == 0) == (d != 0), "inverting a 2x2 matrix fails exactly for singular matrices"); if (r == 0) iden(o, a.d, ""); }
static void dett(int n) { H a(n, n, "a"); double d = det(a), v = 0; bool t = throws([&] { v = a.m.Det(); }); sx_assert(t == sx_eq(d, 0), "singular matrices are rejected"); if (!t) sx_assert(sx_eq(v, d), "determinant"); }
SX_ENTRY(det1) { dett(1); } SX_ENTRY(det2) { dett(2); } SX_ENTRY(det3) { dett(3); }
SX_ENTRY(inv_shape) { H a(2, 3, "a", 0), b(3, 3, "b", 0), c(2, 2, "c", 0), v(2, 1, "v", 0); sx_assert(throws([&] { a.m.Inv(a.m); }) && throws([&] { b.m.Inv(c.m); }) && throws([&] { a.m.Det(); }) && throws([&] { a.m.Chol(c.m); }) && throws([&] { a.m.SolveTrian(v.m); }) && throws([&] { b.m.SolveTrian(v.m); }) && throws([&] { a.m.SolvePos(v.m); }) && throws([&] { b.m.SolvePos(v.m); }), "square matrices and matching sizes are required"); H q(2, 2, "q"), z(2, 2, "z"); q.d[1] = q.d[2] + sx_pos("asym"); sx_assert(throws([&] { q.m.Chol(z.m); }), "only symmetric matrices are factorized"); }
static H sympd(int n, bool pd) { H l(n, n, "l"); H a(n, n, "a"); if (pd) { for (int i = 0; i < n; i++) { sx_assume(l.d[i + n * i] > 0); for (int j = i + 1; j < n; j++) l.d[i + n * j] = 0; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.d[i + n * j] = dot(n, [&](int k) { return l(i, k) * l(j, k); }); } else for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a.d[i + n * j] = a(j, i); return a; }
static void chol(int n, bool pd) {
  int up = sx_choose("up", 0, 1); H a = sympd(n, pd), s(n, n, "s"); int info = a.m.Chol(s.m, up); if (pd) sx_assert(info == 0, "positive definite matrices are factorized"); else { bool p = a(0, 0) > 0; if (n > 1) p = p && a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) > 0; sx_assert((info == 0) == p, "factorizing succeeds exactly for positive definite matrices"); } if (info) return;
  for (int i = 0; i < n; i++) { sx_assert(s(i, i) > 0, "the factor has a positive diagonal"); for (int j = 0; j < n; j++) { if (up ? i > j : i < j) sx_assert(sx_eq(s(i, j), 0), "the factor is triangular"); sx_assert(sx_eq(dot(n, [&](int k) { return up ? s(k, i) * s(k, j) : s(i, k) * s(j, k); }), a(i, j)), "the product of the factor and its transpose is the matrix"); } }
}
SX_ENTRY(chol2) { chol(2, false); } SX_ENTRY(chol1) { chol(1, false); } SX_ENTRY(chol3) { chol(3, true); }
SX_ENTRY(det_pd) { int n = sx_choose("n", 1, 2); H a = sympd(n, n == 2), o(n, n, "o", false); if (n == 1) sx_assume(a.d[0] > 0); for (int i = 0; i < n * n; i++) o.d[i] = a.d[i]; double d = det(o); sx_assert(sx_eq(a.m.Det_pd0(), d), "determinant of a positive definite matrix"); }
static void nonpd(int n, int L) { H z = sympd(n, false); H w(n, n, "w", false); for (int k = 1; k <= L; k++) { H q(k, k, "q", false); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) q.d[i + k * j] = z(i, j); double d = det(q); sx_assume(k < L ? d > 0 : d <= 0); }
  for (int i = 0; i < n * n; i++) w.d[i] = z.d[i]; H s(n, n, "s"); sx_assert(z.m.Chol(s.m, false) != 0, "factorizing fails for matrices that are not positive definite"); sx_assert(isnan_(w.m.Det_pd0()), "matrices that are not positive definite have no determinant here"); }
SX_ENTRY(nonpd1) { nonpd(sx_choose("n", 2, 3), 1); } SX_ENTRY(nonpd2) { nonpd(sx_choose("n", 2, 3), 2); } SX_ENTRY(nonpd3) { nonpd(3, 3); }
SX_ENTRY(solve_tri) {
  int n = sx_choose("n", 1, 3), k = sx_choose("rhs", 1, 2), up = sx_choose("up", 0, 1), tr = sx_choose("tr", 0, 1), unit = sx_choose("unit", 0, 1); H a(n, n, "a"), b(n, k, "b"); auto ob = b.copy(), oa = a.copy(); bool sing = false; for (int i = 0; i < n; i++) sing |= a(i, i) == 0; int info = a.m.SolveTrian(b.m, up, tr, unit); sx_assert((info == 0) == (unit || !sing), "solving fails exactly for singular triangles"); sx_assert(same(a, oa), "the matrix is not changed"); if (info) return;
  auto T = [&](int i, int j) { if (tr) std::swap(i, j); return i == j ? (unit ? 1.0 : a(i, i)) : (up ? i < j : i > j) ? a(i, j) : 0.0; };
  for (int c = 0; c < k; c++) for (int i = 0; i < n; i++) sx_assert(sx_eq(dot(n, [&](int q) { return T(i, q) * b(q, c); }), ob[i + n * c]), "the solution satisfies the triangular system");
}
SX_ENTRY(solve_pos) {
  int n = sx_choose("n", 1, 2), k = sx_choose("rhs", 1, 2), up = sx_choose("up", 0, 1); H a = sympd(n, n == 2), b(n, k, "b"); auto ob = b.copy(), oa = a.copy(); if (n == 1) sx_assume(a.d[0] > 0); int info = a.m.SolvePos(b.m, up); sx_assert(info == 0, "positive definite systems are solved"); for (int c = 0; c < k; c++) for (int i = 0; i < n; i++) sx_assert(sx_eq(dot(n, [&](int q) { return oa[i + n * q] * b(q, c); }), ob[i + n * c]), "the solution satisfies the system");
}
SX_ENTRY(qr_memory) { int n = sx_choose("n", 1, 3), m = sx_choose("m", 1, 3); H a(m, n, "a"), q(m, m, "q"), r(n, n, "r"); bool t = false; try { a.m.QR(q.m, r.m); } catch (std::exception &) { t = true; } sx_assert(t, "the unimplemented QR reports an error"); }
