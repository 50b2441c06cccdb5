#include "variable.h"
#include "common.h"
using namespace ldt;
using boost::gregorian::date; using boost::gregorian::days;
typedef Variable<double> Var;
static const date D0(2000, 1, 1);
static std::unique_ptr<Frequency> anyfreq(int k) {
  date d(2004, 2, 25); auto w = FrequencyWeekBased::Daily(d);
  switch (k) {
  case 0: return FrequencyYearBased::Yearly(sx_int("y", 0, 3000)); case 1: return FrequencyYearBased::Quarterly(sx_int("y", 0, 3000), sx_int("q", 1, 4)); case 2: return FrequencyYearBased::Monthly(sx_int("y", 0, 3000), sx_int("m", 1, 12));
  case 3: return FrequencyYearBased::XTimesZYear(sx_int("y", 0, 3000), 5, sx_int("p", 1, 5), 2); case 4: return FrequencyWeekBased::Weekly(D0 + days(sx_int("d", 0, 3000))); case 5: return FrequencyWeekBased::MultiDaily(D0 + days(sx_int("d", 0, 3000)), 3);
  case 6: return FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange(DayOfWeek::kMon, DayOfWeek::kFri), true); case 7: return FrequencyDayBased::Hourly(*w, sx_int("h", 1, 24)); case 8: return FrequencyDayBased::XTimesADay(*w, 5, sx_int("h", 1, 5)); default: return std::make_unique<FrequencyCrossSection>(sx_int("p", -100, 100)); }
}
// ---- V01
SX_ENTRY(var_text) {  // text round trip
  Var v; v.StartFrequency = anyfreq(sx_choose("freq", 0, 9)); int n = sx_choose("n", 0, 3), nf = sx_choose("fields", 0, 2), mask = sx_choose("mask", 0, (1 << n) - 1);
  v.Name = "GDP x"; for (int i = 0; i < n; i++) v.Data.push_back(sx_nanor("d", mask, i));
  if (nf > 0) v.Fields.insert({"k1", "v;1"}); if (nf > 1) v.Fields.insert({"k2", ""});
  Var r; r.Fields.insert({"old", "1"}); r.Data.push_back(3); std::vector<std::string> l1; std::vector<date> l2;
  bool t = throws([&] { Var::Parse(v.ToString(), r, l1, l2); });
  sx_assert(!t, "the text of a variable can be parsed"); if (t) return;
  sx_assert(r.Name == v.Name, "parsing recovers the name"); sx_assert(r.Data.size() == v.Data.size(), "parsing recovers the number of observations");
  for (int i = 0; i < n; i++) sx_assert(sx_eq(r.Data[i], v.Data[i]), "parsing recovers the data");
  sx_assert(r.StartFrequency->IsEqualTo(*v.StartFrequency), "parsing recovers the start frequency"); sx_assert(r.Fields == v.Fields, "parsing recovers the fields");
  sx_assert(r.IsEqualTo(v), "the parsed variable is equal to the original"); sx_assert(r.ToString() == v.ToString(), "text of the parsed variable is the same");
}
SX_ENTRY(var_text_list) {
  std::vector<std::string> items{"A", "b c", "D"}, i2; std::vector<date> di{date(2000, 1, 1), date(2003, 4, 5)}, d2, dx; std::vector<std::string> sx;
  Var v, r; bool s = sx_choose("string", 0, 1); int k = sx_choose("i", 0, 1);
  if (s) v.StartFrequency = std::make_unique<FrequencyList<std::string>>(items[k], &items); else v.StartFrequency = std::make_unique<FrequencyList<date>>(di[k], &di);
  v.Data = {sx_real("a"), sx_real("b")}; v.Fields.insert({"k", "v"}); Var::Parse(v.ToString(), r, i2, d2);
  sx_assert(s ? i2 == items : d2 == di, "parsing recovers the list items"); sx_assert(r.IsEqualTo(v), "the parsed variable is equal to the original");
}
SX_ENTRY(var_equal) {  // IsEqualTo distinguishes every component
  int mask = sx_choose("mask", 0, 15); Var a, b; a.Data = {sx_nanor("a", mask, 0), sx_nanor("a", mask, 1)}; b.Data = {sx_nanor("b", mask, 2), sx_nanor("b", mask, 3)};
  int ya = sx_int("ya", 1990, 2000), yb = sx_int("yb", 1990, 2000); a.StartFrequency = FrequencyYearBased::Yearly(ya); b.StartFrequency = FrequencyYearBased::Yearly(yb);
  bool n = sx_choose("name", 0, 1), f = sx_choose("field", 0, 1); if (n) b.Name = "W"; if (f) b.Fields.insert({"a", "b"});
  bool same = true; for (int i = 0; i < 2; i++) { if (isnan_(a.Data[i]) != isnan_(b.Data[i])) same = false; else if (!isnan_(a.Data[i])) { double d = a.Data[i] - b.Data[i]; same &= (d <= 1e-10) & (d >= -1e-10); } }
  same &= ya == yb; same &= !n; same &= !f;
  sx_assert(a.IsEqualTo(b, 1e-10) == same, "variables are equal exactly when name, data, start and fields agree");
}
SX_ENTRY(var_trim) {
  int n = sx_choose("n", 1, 4), mask = sx_choose("mask", 0, (1 << n) - 1); Var v; v.StartFrequency = FrequencyYearBased::Quarterly(2000, 3); std::vector<double> o;
  for (int i = 0; i < n; i++) v.Data.push_back(sx_nanor("d", mask, i)); o = v.Data; int f = -1, l = -1; for (int i = 0; i < n; i++) if (!((mask >> i) & 1)) { if (f < 0) f = i; l = i; }
  auto end0 = v.GetEndFrequency(); FrequencyYearBased q0 = *FrequencyYearBased::Quarterly(2000, 3); sx_assert(end0->Minus(q0) == n, "the end frequency is one step after the last observation");
  auto r = v.Trim();
  if (f < 0) { sx_assert(r.IsNotValid() && (int)v.Data.size() == n, "trimming an empty variable reports an invalid range"); return; }
  sx_assert(r.StartIndex == f && r.EndIndex == l, "trimming reports the data span"); sx_assert((int)v.Data.size() == l - f + 1, "trimming removes exactly the leading and trailing missing values");
  for (int i = f; i <= l; i++) sx_assert(sx_eq(v.Data[i - f], o[i]), "trimming keeps the data");
  sx_assert(v.StartFrequency->Minus(q0) == f, "trimming moves the start frequency to the first observation");
  bool hm; auto r2 = v.GetRange(hm); sx_assert(r2.StartIndex == 0 && r2.EndIndex == l - f, "a trimmed variable spans its data");
}
SX_ENTRY(var_parse_bad) {  // malformed text is rejected with LdtException
  const char *T[] = {"", "a", "a\tq", "a\tq\t2000Q1", "a\tq\t2000Q1\t1;2", "a\tq\tx\t1;2\tk;v", "a\tq\t2000Q1\t1;z\tk;v", "a\tq\t2000Q1\t1;2\tnosep", "a\tNA\tNA\t1\t", "a\tq\t2000Q9\t1\t"}; int k = sx_choose("k", 0, 9);
  Var r; std::vector<std::string> l1; std::vector<date> l2; bool ok = false; try { Var::Parse(T[k], r, l1, l2); } catch (LdtException &) { ok = true; }
  sx_assert(ok, "malformed text of a variable is rejected with LdtException");
}
// ---- V02
static double agg(const std::vector<double> &v) { double s = 1000.0 * v.size(); for (size_t i = 0; i < v.size(); i++) if (!(v[i] != v[i])) s += (i + 1.0) * v[i]; return s; }
static const std::function<double(const std::vector<double> &)> AGG = agg;
static void fill(Var &v, int n) { for (int i = 0; i < n; i++) v.Data.push_back(sx_real("d")); v.Name = "src"; }
static void groups(const Var &v, const Var &r, const std::vector<int> &g) {  // g[i]: output index of observation i
  int m = g.empty() ? 0 : g.back() + 1; sx_assert((int)r.Data.size() == m, "one value per period that contains observations"); if ((int)r.Data.size() != m) return;
  for (int k = 0; k < m; k++) { std::vector<double> p; for (size_t i = 0; i < g.size(); i++) if (g[i] == k) p.push_back(v.Data[i]); sx_assert(sx_eq(r.Data[k], agg(p)), "each value aggregates exactly the observations of its period, in order"); }
  sx_assert(r.Name == v.Name, "conversion keeps the name");
}
SX_ENTRY(conv_multiday) {
  Var v, r; int n = sx_choose("n", 0, 7), k = sx_choose("k", 1, 4); bool fe = sx_choose("fromEnd", 0, 1); date d = D0 + days(sx_int("day", 0, 400)); v.StartFrequency = FrequencyWeekBased::Daily(d); fill(v, n); r.Data = {5.0};
  v.ConvertTo_MultiDaily(r, k, &AGG, fe); std::vector<int> g; int shift = fe ? (k - n % k) % k : 0; for (int i = 0; i < n; i++) g.push_back((i + shift) / k); groups(v, r, g);
  auto f = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); sx_assert(f.mDay == d && f.mMulti == k && f.mClass == (k == 1 ? FrequencyClass::kDaily : FrequencyClass::kMultiDaily), "multi-day variable starts at the first day");
}
SX_ENTRY(conv_weekly) {
  Var v, r; int n = sx_choose("n", 1, 16), first = sx_choose("first", 0, 6), off = sx_choose("off", 0, 6); date d = date(2000, 1, 2) + days(off); v.StartFrequency = FrequencyWeekBased::Daily(d); fill(v, n);
  v.ConvertTo_Weekly(r, (DayOfWeek)first, &AGG); int sh = (off - first + 7) % 7;
  int m = (n + sh + 6) / 7; sx_assert((int)r.Data.size() == m, "one value per week that contains observations");
  for (int k = 0; k < m && k < (int)r.Data.size(); k++) { std::vector<double> p; for (int i = 0; i < 7; i++) { int o = 7 * k + i; if (o < sh) p.push_back(NAN); else if (o - sh < n) p.push_back(v.Data[o - sh]); } sx_assert(sx_eq(r.Data[k], agg(p)), "each weekly value aggregates the days of its week in order"); }
  auto f = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); sx_assert(f.mClass == FrequencyClass::kWeekly && f.mDay == d - days(sh), "weekly variable starts at the first day of its first week"); sx_assert(r.Name == v.Name, "conversion keeps the name");
}
static const date WIN[] = {date(1999, 12, 25), date(2004, 2, 20), date(2001, 6, 25), date(2003, 8, 25), date(2003, 4, 12), date(2000, 12, 27)};
template <Ti x> static void monthly() {
  Var v, r; int n = sx_choose("n", 1, 9), w = sx_choose("win", 0, 5), o = sx_choose("off", 0, 9); date d = WIN[w] + days(o); v.StartFrequency = FrequencyWeekBased::Daily(d); fill(v, n);
  auto part = [](date q) { int m = q.month(), y = q.year(), dd = q.day(); int p = x == 24 ? 2 * (m - 1) + (dd > 15) : (m - 1) * x / 12; return y * 400 + p; };
  v.template ConvertTo_XxYear_month_based<x>(r, &AGG); std::vector<int> g; int c = -1, last = -1; for (int i = 0; i < n; i++) { int p = part(d + days(i)); if (p != last) c++; last = p; g.push_back(c); } groups(v, r, g);
  auto f = dynamic_cast<FrequencyYearBased &>(*r.StartFrequency); sx_assert(f.mYear == (int)d.year() && f.mPartitionCount == x && f.mPosition == part(d) % 400 + 1, "converted variable starts at the period of the first day");
}
SX_ENTRY(conv_m1) { monthly<1>(); } SX_ENTRY(conv_m2) { monthly<2>(); } SX_ENTRY(conv_m3) { monthly<3>(); } SX_ENTRY(conv_m4) { monthly<4>(); } SX_ENTRY(conv_m6) { monthly<6>(); } SX_ENTRY(conv_m12) { monthly<12>(); } SX_ENTRY(conv_m24) { monthly<24>(); }
SX_ENTRY(conv_xyear) {
  static const int X[] = {1, 2, 4, 12, 52}; int x = X[sx_choose("x", 0, 4)]; Var v, r; int n = sx_choose("n", 1, 9), w = sx_choose("win", 0, 5), o = sx_choose("off", 0, 9); date d = WIN[w] + days(o); v.StartFrequency = FrequencyWeekBased::Daily(d); fill(v, n);
  auto part = [&](date q) { int L = boost::gregorian::gregorian_calendar::is_leap_year(q.year()) ? 366 : 365; return (int)q.year() * 400 + ((int)q.day_of_year() - 1) * x / L; };
  v.ConvertTo_XxYear(r, x, &AGG); std::vector<int> g; int c = -1, last = -1; for (int i = 0; i < n; i++) { int p = part(d + days(i)); if (p != last) c++; last = p; g.push_back(c); } groups(v, r, g);
  auto f = dynamic_cast<FrequencyYearBased &>(*r.StartFrequency); sx_assert(f.mYear == (int)d.year() && f.mPartitionCount == x && f.mPosition == part(d) % 400 + 1, "converted variable starts at the period of the first day");
}
SX_ENTRY(conv_daily_list) {
  std::vector<date> it{D0 + days(3)}; int n = sx_choose("n", 1, 3), perm = sx_choose("perm", 0, 1); int g1 = sx_choose("g1", 1, 3), g2 = sx_choose("g2", 1, 3); it.push_back(it[0] + days(g1)); it.push_back(it[1] + days(g2)); it.resize(n); if (perm) std::reverse(it.begin(), it.end());
  Var v, r; v.StartFrequency = std::make_unique<FrequencyList<date>>(it[0], &it); fill(v, n); v.ConvertTo_Daily(r, nullptr); int len = n == 1 ? 1 : n == 2 ? g1 + 1 : g1 + g2 + 1;
  sx_assert((int)r.Data.size() == len, "daily variable spans the first to the last date");
  for (int i = 0; i < len && i < (int)r.Data.size(); i++) { int k = -1; for (int j = 0; j < n; j++) if (it[j] == D0 + days(3 + i)) k = j; if (k < 0) sx_assert(isnan_(r.Data[i]), "days that are not in the list are missing"); else sx_assert(sx_eq(r.Data[i], v.Data[k]), "each day carries the value of its date"); }
  auto f = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); sx_assert(f.mClass == FrequencyClass::kDaily && f.mDay == D0 + days(3), "daily variable starts at the earliest date");
}
static void diw(int lo, int hi) {
  int s = sx_choose("start", 0, 6), len = sx_choose("len", 1, 6), k = sx_choose("k", lo, hi), n = sx_choose("n", 1, 8); sx_assume(k < len); int e = (s + len - 1) % 7;
  date d = date(2000, 1, 2) + days((s + k) % 7); Var v, r; v.StartFrequency = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), true); fill(v, n); r.Data = {7.0};
  v.ConvertTo_Daily(r, nullptr); std::vector<int> at; int pos = 0, kk = k; for (int i = 0; i < n; i++) { at.push_back(pos); if (++kk == len) { kk = 0; pos += 7 - len + 1; } else pos++; }
  int j = 0; for (double x : r.Data) if (!isnan_(x)) { sx_assert(j < n && sx_eq(x, v.Data[j]), "observations keep their values and order"); j++; } sx_assert(j == n, "no observation is lost");
  auto f = dynamic_cast<FrequencyWeekBased &>(*r.StartFrequency); sx_assert(f.mClass == FrequencyClass::kDaily && f.mDay == d, "daily variable starts at the first day");
  bool same = (int)r.Data.size() == at[n - 1] + 1; for (int i = 0; i < n && same; i++) same = !isnan_(r.Data[at[i]]);
  sx_assert(same, lo ? "each observation stays on its day (data starting inside the week range)" : "each observation stays on its day");
}
SX_ENTRY(conv_daily_week) { diw(0, 0); }  // working days to days
SX_ENTRY(conv_daily_week_mid) { diw(1, 5); }
SX_ENTRY(conv_reject) {  // conversions that are not defined are rejected
  int k = sx_choose("freq", 0, 9); Var v, r; v.StartFrequency = anyfreq(k); v.Data = {1.0, 2.0};
  sx_assert(throws([&] { v.ConvertTo_MultiDaily(r, 2, &AGG); }) && throws([&] { v.ConvertTo_Weekly(r, DayOfWeek::kMon, &AGG); }) && throws([&] { v.ConvertTo_XxYear(r, 2, &AGG); }) && throws([&] { v.ConvertTo_XxYear_month_based<4>(r, &AGG); }), "only daily variables can be aggregated");
  if (k != 6) sx_assert(throws([&] { v.ConvertTo_Daily(r, &AGG); }), "only date lists and days in a week convert to daily");
  Var w; w.StartFrequency = FrequencyWeekBased::Daily(D0); w.Data = {1.0};
  sx_assert(throws([&] { w.ConvertTo_MultiDaily(r, 2, nullptr); }) && throws([&] { w.ConvertTo_Weekly(r, DayOfWeek::kMon, nullptr); }) && throws([&] { w.ConvertTo_XxYear(r, 2, nullptr); }) && throws([&] { w.ConvertTo_XxYear_month_based<4>(r, nullptr); }), "a missing aggregate function is rejected");
}
// ---- V03
template <class MK> static void bind(int nv, MK mk, int lo) {
  std::vector<Var> vs(nv); std::vector<Var *> ps; int st[3], len[3], mn = 1000, mx = -1000;
  for (int i = 0; i < nv; i++) { st[i] = sx_int("start", 0, 3); len[i] = sx_choose("len", lo, 2); vs[i].StartFrequency = mk(st[i]); fill(vs[i], len[i]); vs[i].Name = std::string("V") + (char)('a' + i); ps.push_back(&vs[i]); }
  for (int i = 0; i < nv; i++) { st[i] = sx_conc(st[i]); mn = std::min(mn, st[i]); mx = std::max(mx, st[i] + len[i]); }
  if (mx == mn) { sx_assert(throws([&] { Variables<double> q(ps); }), "no observation is rejected"); return; }
  Variables<double> q(ps); sx_assert(q.NumObs == mx - mn, "number of observations is the length of the union of the spans"); sx_assert((int)q.Names.size() == nv && (int)q.Data.size() == nv * (mx - mn), "one column per variable");
  auto f0 = mk(mn); sx_assert(q.StartFrequency->IsEqualTo(*f0), "the common start is the earliest start");
  for (int i = 0; i < nv; i++) { sx_assert(q.Names[i] == vs[i].Name, "names keep their order");
    for (int t = 0; t < q.NumObs; t++) { int k = mn + t - st[i]; double x = q.Data[i * q.NumObs + t]; if (k >= 0 && k < len[i]) sx_assert(sx_eq(x, vs[i].Data[k]), "each observation is aligned by its date"); else sx_assert(isnan_(x), "cells outside a variable's span are missing"); }
    bool hm = true; auto rg = q.GetRange(i, hm); if (len[i]) sx_assert(std::get<0>(rg) == st[i] - mn && std::get<1>(rg) == st[i] - mn + len[i] - 1 && !hm, "range of a column is the span of its variable"); }
}
SX_ENTRY(bind_quarterly2) { bind(2, [](int s) { auto f = FrequencyYearBased::Quarterly(2000, 3); f->Next(s); return f; }, 0); }
SX_ENTRY(bind_daily2) { bind(2, [](int s) { return FrequencyWeekBased::Daily(D0 + days(s)); }, 1); }
SX_ENTRY(bind_diw2) { bind(2, [](int s) { auto f = FrequencyWeekBased::DailyInWeek(date(2000, 1, 6), DayOfWeekRange(DayOfWeek::kMon, DayOfWeek::kFri), true); f->Next(s); return f; }, 1); }
SX_ENTRY(bind_cs3) { bind(3, [](int s) { return std::make_unique<FrequencyCrossSection>(s); }, 1); }
SX_ENTRY(bind_hourly2) { bind(2, [](int s) { auto w = FrequencyWeekBased::Daily(D0); auto f = FrequencyDayBased::Hourly(*w, 23); f->Next(s); return f; }, 1); }
SX_ENTRY(bind_range) {  // GetRange for every missing pattern of the columns
  Var a, b; int n = sx_choose("n", 1, 4), m = sx_choose("mask", 0, (1 << n) - 1); a.StartFrequency = FrequencyYearBased::Yearly(2000); b.StartFrequency = FrequencyYearBased::Yearly(2000); fill(a, n); for (int i = 0; i < n; i++) b.Data.push_back(sx_nanor("b", m, i));
  Variables<double> q({&a, &b}); bool hm = true; auto g = q.GetRange(1, hm); int f = -1, l = -1; bool miss = false; for (int i = 0; i < n; i++) if (!((m >> i) & 1)) { if (f < 0) f = i; l = i; } for (int i = f; i <= l && f >= 0; i++) miss |= (m >> i) & 1;
  if (f < 0) sx_assert(std::get<0>(g) > std::get<1>(g), "an all-missing column has no range"); else sx_assert(std::get<0>(g) == f && std::get<1>(g) == l && hm == miss, "range of a column is the span of its data");
}
SX_ENTRY(bind_mixed) {
  Var a, b; a.StartFrequency = FrequencyYearBased::Yearly(2000); b.StartFrequency = FrequencyYearBased::Quarterly(2000, 1); a.Data = {1.0}; b.Data = {2.0}; sx_assert(throws([&] { Variables<double> q({&a, &b}); }), "mixed frequencies are rejected"); sx_assert(throws([&] { Variables<double> q(std::vector<Var *>{}); }), "no variable is rejected");
}
