#include "frequency.h"
#include "variable.h"
#include "common.h"
using namespace ldt;
using boost::gregorian::date; using boost::gregorian::days;
typedef std::unique_ptr<Frequency> FP;
static int sgn(int x) { return (x > 0) - (x < 0); }
// everything Next / Minus / CompareTo promise, for one frequency and one number of steps
static void algebra(Frequency &f, int steps, bool split = true) {
  FP g = f.Clone(); sx_assert(g->IsEqualTo(f) && g->Minus(f) == 0, "a clone is equal to its original");
  g->Next(steps);
  int d = g->Minus(f), e = f.Minus(*g), c = g->CompareTo(f), c2 = f.CompareTo(*g);
  sx_assert(d == steps, "moving k steps makes the difference k");
  sx_assert(e == -steps, "difference is antisymmetric");
  sx_assert(sgn(c) == sgn(steps) && sgn(c2) == -sgn(steps), "comparison agrees with the sign of the steps moved");
  sx_assert(g->IsNewerThan(f) == (steps > 0) && g->IsOlderThan(f) == (steps < 0) && g->IsEqualTo(f) == (steps == 0) && g->IsEqualOrNewerThan(f) == (steps >= 0) && g->IsEqualOrOlderThan(f) == (steps <= 0), "newer/older/equal predicates agree with the steps moved");
  if (split) { g->Next(-steps); sx_assert(g->CompareTo(f) == 0 && g->Minus(f) == 0, "moving back returns to the start"); }
}
static void compose(Frequency &f, int a, int b) {
  FP g = f.Clone(), h = f.Clone(); g->Next(a); g->Next(b); h->Next(a + b);
  sx_assert(g->CompareTo(*h) == 0 && g->Minus(*h) == 0, "moving a then b equals moving a+b");
}
static FrequencyYearBased yb(int pc, int multi, int yr, const char *py = "year", const char *pp = "pos") {
  int pos = sx_int(pp, 1, pc), y = sx_int(py, -yr, yr);
  return FrequencyYearBased(y, pc, pos, multi);
}
static const int PCS[] = {1, 4, 12, 2, 7, 366};
SX_ENTRY(year_next) {
  int pc = PCS[sx_choose("pc", 0, 5)], multi = sx_choose("multi", 1, 3);
  FrequencyYearBased f = yb(pc, multi, 9999); int steps = sx_int("steps", -100000, 100000);
  FrequencyYearBased g = f; g.Next(steps);
  sx_assert(g.mPosition >= 1 && g.mPosition <= pc, "position stays within the year");
  sx_assert((g.mYear - f.mYear) * pc + (g.mPosition - f.mPosition) * multi == steps * multi, "year and position move by the number of steps");
  sx_assert(g.mClass == f.mClass && g.mPartitionCount == pc && g.mYearMulti == multi, "moving keeps the class");
}
SX_ENTRY(year_algebra) {
  int pc = PCS[sx_choose("pc", 0, 3)], multi = sx_choose("multi", 1, 2);
  FrequencyYearBased f = yb(pc, multi, 3000); algebra(f, sx_int("steps", -3000, 3000));
}
SX_ENTRY(year_compose) {
  int pc = PCS[sx_choose("pc", 0, 3)], multi = sx_choose("multi", 1, 2);
  FrequencyYearBased f = yb(pc, multi, 50); compose(f, sx_int("a", -15, 15), sx_int("b", -15, 15));
}
SX_ENTRY(year_anypc) {  // any number of partitions
  int pc = sx_int("pc", 1, 400); int pos = sx_int("pos", 1, 400), y = sx_int("year", 1, 3000); sx_assume(pos <= pc);
  FrequencyYearBased f(y, pc, pos, 1), g = f; int s = sx_int("steps", -400, 400); sx_assume(s <= pc); sx_assume(s >= -pc);
  g.Next(s);
  sx_assert(g.mPosition >= 1 && g.mPosition <= pc, "position stays within the year");
  int dy = g.mYear - y; sx_assert(dy >= -1 && dy <= 1, "at most one year for at most one year of steps");
  sx_assert((dy == 0 ? 0 : dy > 0 ? pc : -pc) + g.mPosition - pos == s, "year and position move by the number of steps");
  FrequencyClass c = pc == 1 ? FrequencyClass::kYearly : pc == 4 ? FrequencyClass::kQuarterly : pc == 12 ? FrequencyClass::kMonthly : FrequencyClass::kXTimesAYear;
  sx_assert(f.mClass == c, "class follows the number of partitions");
}
SX_ENTRY(year_ctor) {  // constructors reject exactly the invalid positions
  int pc = sx_int("pc", -5, 400), pos = sx_int("pos", -5, 400), y = sx_int("year", 1, 3000), mu = sx_int("multi", 1, 5);
  bool bad = pc <= 0 || pos <= 0 || pos > pc;
  sx_assert(throws([&] { FrequencyYearBased f(y, pc, pos, mu); }) == bad, "year-based constructor rejects exactly the invalid positions");
}
SX_ENTRY(year_factory) {
  int y = sx_int("year", 1, 3000), q = sx_int("q", 1, 4), m = sx_int("m", 1, 12), x = sx_int("x", 1, 5);
  auto a = FrequencyYearBased::Yearly(y), b = FrequencyYearBased::Quarterly(y, q), c = FrequencyYearBased::Monthly(y, m), d = FrequencyYearBased::XTimesAYear(y, 5, x), e = FrequencyYearBased::MultiYearly(y, 3), f = FrequencyYearBased::XTimesZYear(y, 5, x, 2);
  sx_assert(a->mClass == FrequencyClass::kYearly && a->mYear == y && a->mPartitionCount == 1 && a->mPosition == 1, "yearly");
  sx_assert(b->mClass == FrequencyClass::kQuarterly && b->mYear == y && b->mPartitionCount == 4 && b->mPosition == q, "quarterly");
  sx_assert(c->mClass == FrequencyClass::kMonthly && c->mYear == y && c->mPartitionCount == 12 && c->mPosition == m, "monthly");
  sx_assert(d->mClass == FrequencyClass::kXTimesAYear && d->mYear == y && d->mPartitionCount == 5 && d->mPosition == x, "x times a year");
  sx_assert(e->mClass == FrequencyClass::kMultiYear && e->mYear == y && e->mYearMulti == 3, "multi-year");
  sx_assert(f->mClass == FrequencyClass::kXTimesZYears && f->mYear == y && f->mPartitionCount == 5 && f->mPosition == x && f->mYearMulti == 2, "x times z years");
}
static const date D0(2000, 1, 1);  // a Saturday
static int off(const date &d) { return (int)(d - D0).days(); }
static date anyday(const char *n, int hi) { return D0 + days(sx_int(n, 0, hi)); }
SX_ENTRY(week_next) {
  date d = anyday("day", 3000); int kind = sx_choose("kind", 0, 3), multi = sx_choose("multi", 2, 3), steps = sx_int("steps", -100, 3000);
  auto f = kind == 0 ? FrequencyWeekBased::Weekly(d) : kind == 1 ? FrequencyWeekBased::MultiWeekly(d, multi) : kind == 2 ? FrequencyWeekBased::Daily(d) : FrequencyWeekBased::MultiDaily(d, multi);
  FrequencyClass cls[] = {FrequencyClass::kWeekly, FrequencyClass::kMultiWeekly, FrequencyClass::kDaily, FrequencyClass::kMultiDaily};
  sx_assert(f->mClass == cls[kind], "class of the week-based factory");
  sx_assert(f->mDay == d, "the day is kept");
  FrequencyWeekBased g = *f; g.Next(steps); int per[] = {7, 7 * multi, 1, multi};
  sx_assert(off(g.mDay) - off(d) == per[kind] * steps, "week-based steps move the day by whole periods");
}
SX_ENTRY(week_algebra) {
  date d = anyday("day", 3000); int kind = sx_choose("kind", 0, 3), multi = sx_choose("multi", 2, 3), steps = sx_int("steps", -100, 1000);
  auto f = kind == 0 ? FrequencyWeekBased::Weekly(d) : kind == 1 ? FrequencyWeekBased::MultiWeekly(d, multi) : kind == 2 ? FrequencyWeekBased::Daily(d) : FrequencyWeekBased::MultiDaily(d, multi);
  algebra(*f, steps);
}
SX_ENTRY(week_compose) {
  date d = anyday("day", 1000); int kind = sx_choose("kind", 0, 3), a = sx_int("a", -50, 100), b = sx_int("b", -50, 100);
  auto f = kind == 0 ? FrequencyWeekBased::Weekly(d) : kind == 1 ? FrequencyWeekBased::MultiWeekly(d, 2) : kind == 2 ? FrequencyWeekBased::Daily(d) : FrequencyWeekBased::MultiDaily(d, 3);
  compose(*f, a, b);
}
// weekday i (0=Sunday) lies in the cyclic range s..e
static bool inr(int s, int e, int i) { return (i - s + 7) % 7 <= (e - s + 7) % 7; }
SX_ENTRY(diw_algebra) {
  int s = sx_choose("start", 0, 6), e = sx_choose("end", 0, 6), dow = sx_choose("dow", 0, 6); sx_assume(inr(s, e, dow));
  date d = date(2000, 1, 2) + days(dow);  // 2000-01-02 is a Sunday
  auto f = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), true);
  sx_assert(f->mDay == d, "a day inside the range is kept");
  algebra(*f, sx_int("steps", -9, 9));
}
SX_ENTRY(diw_snap) {  // a day outside the range is moved to the nearest end of the range in the given direction
  int s = sx_choose("start", 0, 6), e = sx_choose("end", 0, 6), dow = sx_choose("dow", 0, 6); bool fw = sx_choose("forward", 0, 1);
  date d = date(2000, 1, 2) + days(dow); auto f = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), fw);
  int k = (int)(f->mDay - d).days();
  if (inr(s, e, dow)) sx_assert(k == 0, "a day inside the range is kept");
  else if (fw) sx_assert(k > 0 && (dow + k) % 7 == s && k < 7, "a day outside the range moves forward to the start of the range");
  else sx_assert(k < 0 && (dow + k + 7) % 7 == e && k > -7, "a day outside the range moves backward to the end of the range");
}
SX_ENTRY(diw_walk) {  // one step forward visits the next day in the range, and no other
  int s = sx_choose("start", 0, 6), e = sx_choose("end", 0, 6), dow = sx_choose("dow", 0, 6); sx_assume(inr(s, e, dow));
  date d = date(2000, 1, 2) + days(dow); auto f = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), true);
  int k = 1; while (!inr(s, e, (dow + k) % 7)) k++; FrequencyWeekBased g = *f; g.Next(1);
  sx_assert((g.mDay - d).days() == k, "next visits the next day within the range");
  k = 1; while (!inr(s, e, (dow - k + 14) % 7)) k++; g = *f; g.Next(-1);
  sx_assert((d - g.mDay).days() == k, "previous visits the previous day within the range");
}
SX_ENTRY(day_next) {
  int pc = sx_choose("kind", 0, 4); const int P[] = {24, 1440, 86400, 5, 1}; pc = P[pc];
  date d = anyday("day", 2000); auto w = FrequencyWeekBased::Daily(d); int pos = sx_int("pos", 1, pc), steps = sx_int("steps", -20000, 20000);
  FrequencyDayBased f(*w, pc, pos), g = f; g.Next(steps);
  sx_assert(g.mPosition >= 1 && g.mPosition <= pc, "position stays within the day");
  sx_assert((off(g.mDay.mDay) - off(d)) * pc + g.mPosition - pos == steps, "day and position move by the number of steps");
}
SX_ENTRY(day_algebra) {
  int k = sx_choose("kind", 0, 3); date d = anyday("day", 2000); auto w = sx_choose("wk", 0, 1) ? FrequencyWeekBased::MultiDaily(d, 2) : FrequencyWeekBased::Daily(d);
  const int P[] = {24, 1440, 86400, 5}; int pos = sx_int("pos", 1, P[k]);
  auto f = k == 0 ? FrequencyDayBased::Hourly(*w, pos) : k == 1 ? FrequencyDayBased::Minutely(*w, pos) : k == 2 ? FrequencyDayBased::Secondly(*w, pos) : FrequencyDayBased::XTimesADay(*w, 5, pos);
  FrequencyClass C[] = {FrequencyClass::kHourly, FrequencyClass::kMinutely, FrequencyClass::kSecondly, FrequencyClass::kXTimesADay};
  sx_assert(f->mClass == C[k] && f->mPartitionCount == P[k] && f->mPosition == pos, "class of the day-based factory");
  algebra(*f, sx_int("steps", -3000, 3000));
}
SX_ENTRY(day_diw) {  // hours of working days
  int dow = sx_choose("dow", 1, 5); date d = date(2000, 1, 2) + days(dow);
  auto w = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange(DayOfWeek::kMon, DayOfWeek::kFri), true);
  FrequencyDayBased f(*w, 4, sx_int("pos", 1, 4)); algebra(f, sx_int("steps", -25, 25));
}
SX_ENTRY(day_ctor) {
  auto w = FrequencyWeekBased::Daily(D0); int pc = sx_int("pc", -5, 100000), pos = sx_int("pos", -5, 100000);
  bool bad = pc <= 0 || pos <= 0 || pos > pc;
  sx_assert(throws([&] { FrequencyDayBased f(*w, pc, pos); }) == bad, "day-based constructor rejects exactly the invalid positions");
}
SX_ENTRY(cs_algebra) {
  FrequencyCrossSection f(sx_int("pos", -1000000, 1000000)); algebra(f, sx_int("steps", -1000000, 1000000));
  compose(f, sx_int("a", -1000, 1000), sx_int("b", -1000, 1000));
}
SX_ENTRY(list_algebra) {  // steps may leave the list at both ends
  std::vector<std::string> items{"A", "B", "C"}; int i = sx_choose("i", 0, 2);
  FrequencyList<std::string> f(items[i], &items); int a = sx_int("a", -5, 5), b = sx_int("b", -5, 5);
  f.Next(a); algebra(f, b);
}
SX_ENTRY(list_date) {
  std::vector<date> items{date(2000, 1, 1), date(2001, 3, 4), date(2004, 5, 6)}; int i = sx_choose("i", 0, 2);
  FrequencyList<date> f(items[i], &items); int a = sx_int("a", -4, 4), b = sx_int("b", -4, 4);
  FrequencyList<date> g = f; g.Next(a); int j = i + a;
  if (j >= 0 && j < 3) sx_assert(g.OutIndex == 0 && g.mValue == items[sx_conc(j)], "list steps select the item");
  else sx_assert(g.OutIndex != 0, "a position outside the list is marked");
  compose(f, a, b); g.Next(-a); sx_assert(g.Minus(f) == 0 && g.OutIndex == 0 && g.mValue == items[i], "moving back returns to the item");
}
SX_ENTRY(mismatch) {  // frequencies of different classes cannot be compared or subtracted
  auto mk = [](int k) -> FP { date d(2000, 3, 15); auto w = FrequencyWeekBased::Daily(d);
    switch (k) { case 0: return FrequencyYearBased::Yearly(2000); case 1: return FrequencyYearBased::Quarterly(2000, 1); case 2: return FrequencyYearBased::Monthly(2000, 1);
      case 3: return FrequencyYearBased::XTimesAYear(2000, 6, 1); case 4: return FrequencyYearBased::XTimesAYear(2000, 5, 1); case 5: return FrequencyYearBased::MultiYearly(2000, 2);
      case 6: return FrequencyYearBased::MultiYearly(2000, 3); case 7: return FrequencyYearBased::XTimesZYear(2000, 3, 1, 2); case 8: return FrequencyWeekBased::Weekly(d);
      case 9: return FrequencyWeekBased::MultiWeekly(d, 2); case 10: return FrequencyWeekBased::Daily(d); case 11: return FrequencyWeekBased::MultiDaily(d, 2);
      case 12: return FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange(DayOfWeek::kMon, DayOfWeek::kFri), true); case 13: return FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange(DayOfWeek::kMon, DayOfWeek::kThu), true);
      case 14: return FrequencyDayBased::Hourly(*w, 1); case 15: return FrequencyDayBased::Minutely(*w, 1); case 16: return FrequencyDayBased::XTimesADay(*w, 5, 1); case 17: return FrequencyDayBased::XTimesADay(*w, 6, 1); default: return std::make_unique<FrequencyCrossSection>(1); } };
  int a = sx_choose("a", 0, 18), b = sx_choose("b", 0, 18); FP f = mk(a), g = mk(b);
  sx_assert(throws([&] { f->CompareTo(*g); }) == (a != b), "comparing frequencies of different classes throws");
  sx_assert(throws([&] { f->Minus(*g); }) == (a != b), "subtracting frequencies of different classes throws");
}
// ---- F02 text
static void roundtrip(Frequency &f) {
  std::string s = f.ToString(), c = f.ToClassString(true); FrequencyClass fc; FP g = Frequency::Parse(s, c, fc);
  sx_assert(fc == f.mClass && g->mClass == f.mClass, "parsing recovers the frequency class");
  sx_assert(g->CompareTo(f) == 0 && g->Minus(f) == 0, "parsing the text of a frequency gives an equal frequency");
  sx_assert(g->ToString() == s && g->ToClassString(true) == c, "text of the parsed frequency is the same");
}
SX_ENTRY(txt_year) {
  int k = sx_choose("kind", 0, 5); FP f; int y = sx_int("year", 0, 9999);
  if (k == 0) f = FrequencyYearBased::Yearly(y); else if (k == 1) f = FrequencyYearBased::Quarterly(y, sx_int("q", 1, 4)); else if (k == 2) f = FrequencyYearBased::Monthly(y, sx_int("m", 1, 12));
  else if (k == 3) { int x = sx_int("x", 1, 400); f = FrequencyYearBased::XTimesAYear(y, x, sx_int("p", 1, 1)); } else if (k == 4) f = FrequencyYearBased::MultiYearly(y, sx_int("z", 1, 200)); else { int x = sx_int("x", 1, 100), p = sx_int("p", 1, 100); sx_assume(p <= x); f = FrequencyYearBased::XTimesZYear(y, x, p, sx_int("z", 1, 100)); }
  roundtrip(*f);
}
SX_ENTRY(txt_week) {
  int k = sx_choose("kind", 0, 4); FP f; date d = D0 + days(sx_int("d", 0, 100000));
  if (k == 0) f = FrequencyWeekBased::Weekly(d); else if (k == 1) f = FrequencyWeekBased::Daily(d); else if (k == 2) f = FrequencyWeekBased::MultiWeekly(d, sx_int("multi", 2, 300)); else if (k == 3) f = FrequencyWeekBased::MultiDaily(d, sx_int("multi", 2, 300));
  else { f = FrequencyWeekBased::DailyInWeek(date(2000, 1, 2 + sx_choose("dow", 0, 6)), DayOfWeekRange((DayOfWeek)sx_choose("s", 0, 6), (DayOfWeek)sx_choose("e", 0, 6)), true); }
  roundtrip(*f);
}
SX_ENTRY(txt_day) {
  int k = sx_choose("kind", 0, 3), wk = sx_choose("wk", 0, 2); date d(2000, 3, sx_choose("d", 6, 10)); FrequencyWeekBased w = wk == 0 ? *FrequencyWeekBased::Daily(d) : wk == 1 ? *FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange(), true) : *FrequencyWeekBased::MultiDaily(d, 3);
  FP f; if (k == 0) f = FrequencyDayBased::Hourly(w, sx_int("p", 1, 24)); else if (k == 1) f = FrequencyDayBased::Minutely(w, sx_int("p", 1, 1440)); else if (k == 2) f = FrequencyDayBased::Secondly(w, sx_int("p", 1, 86400)); else { int x = sx_int("x", 1, 200), p = sx_int("p", 1, 200); sx_assume(p <= x); f = FrequencyDayBased::XTimesADay(w, x, p); }
  roundtrip(*f);
}
SX_ENTRY(txt_cs) { FrequencyCrossSection f(sx_int("pos", -100000, 100000)); roundtrip(f); }
SX_ENTRY(txt_list) {
  std::vector<std::string> items{"A", "bc", "D e"}, it2; FrequencyList<std::string> f(items[sx_choose("i", 0, 2)], &items); f.Next(sx_int("k", -4, 4));
  FrequencyClass fc; auto g = FrequencyList<std::string>::ParseList(f.ToString(), f.ToClassString(true), fc, it2);
  sx_assert(fc == FrequencyClass::kListString && it2 == items && g->OutIndex == f.OutIndex && g->Minus(f) == 0 && g->CompareTo(f) == 0, "parsing a list frequency recovers its items and position");
  std::vector<date> di{date(2000, 1, 1), date(2001, 12, 4)}, d2; FrequencyList<date> h(di[sx_choose("j", 0, 1)], &di); h.Next(sx_int("k2", -2, 2));
  auto q = FrequencyList<date>::ParseList(h.ToString(), h.ToClassString(true), fc, d2);
  sx_assert(fc == FrequencyClass::kListDate && d2 == di && q->OutIndex == h.OutIndex && q->Minus(h) == 0, "parsing a date-list frequency recovers its items and position");
}
SX_ENTRY(txt_invalid) {  // a text whose position is outside the year/day is rejected, as the constructors reject it
  int k = sx_choose("kind", 0, 5), p = sx_int("p", -3, 2000); FrequencyClass fc; const char *C[] = {"q", "m", "y7", "x3z2", "ho|d", "da5|d"}; int P[] = {4, 12, 7, 3, 24, 5};
  std::string s = (k == 0 ? "2000Q" : k == 1 ? "2000M" : k < 4 ? "2000:" : "20000315:") + std::to_string(p); bool bad = p <= 0 || p > P[k];
  sx_assert(throws([&] { Frequency::Parse(s, C[k], fc); }) == bad, "text is rejected exactly when its position is outside the period");
}
SX_ENTRY(txt_robust) {  // any short text either parses or throws
  int n = sx_choose("n", 0, 3), cls = sx_choose("cls", 0, 11); const char *C[] = {"cs", "y", "q", "m", "z2", "y3", "x2z3", "w", "d2", "i:mon-fri", "ho|d", "da3|i:mon-fri"};
  std::string s; for (int i = 0; i < n; i++) s.push_back((char)sx_int("c", 0, 127)); FrequencyClass fc;
  bool t = false; FP f; try { f = Frequency::Parse(s, C[cls], fc); } catch (LdtException &) { t = true; }
  sx_assert(t || f != nullptr, "parsing arbitrary text returns a frequency or throws LdtException");
}
SX_ENTRY(txt_classes) {  // any short class text is classified or rejected with LdtException
  int n = sx_choose("n", 0, 3); std::string s; for (int i = 0; i < n; i++) s.push_back((char)sx_int("c", 1, 127)); bool t = false; FP f; FrequencyClass fc;
  try { f = Frequency::Parse("2000", s, fc); } catch (LdtException &) { t = true; }
  sx_assert(t || f != nullptr, "arbitrary class text is accepted or rejected with LdtException");
}
// ---- F03 day-of-week ranges
SX_ENTRY(dow_range) {
  int s = sx_int("start", 0, 6), e = sx_int("end", 0, 6), v = sx_int("v", 0, 6); DayOfWeekRange r((DayOfWeek)s, (DayOfWeek)e);
  int len = (e - s + 7) % 7 + 1; bool in = (v - s + 7) % 7 < len;
  sx_assert(r.GetLength() == len, "length of a day-of-week range");
  sx_assert(r.IsInRange((DayOfWeek)v) == in, "a day is in the range exactly when it lies between start and end cyclically");
  for (int fw = 0; fw < 2; fw++) { int st = 77; bool o = r.IsOutsideRange((DayOfWeek)v, fw, st); sx_assert(o == !in, "outside is the complement of inside");
    if (o) { int t = (v + st + 14) % 7; sx_assert(fw ? st > 0 && st < 7 && t == s : st < 0 && st > -7 && t == e, "steps lead to the range's nearest end in the given direction"); } }
}
SX_ENTRY(dow_distance) {
  int a = sx_int("a", 0, 6), b = sx_int("b", 0, 6);
  sx_assert(DayOfWeekRange::Distance((DayOfWeek)a, (DayOfWeek)b, true) == (b - a + 7) % 7, "forward distance");
  sx_assert(DayOfWeekRange::Distance((DayOfWeek)a, (DayOfWeek)b, false) == (a - b + 7) % 7, "backward distance");
  sx_assert((int)DayOfWeekRange::NextDayOfWeek((DayOfWeek)a) == (a + 1) % 7 && (int)DayOfWeekRange::PreviousDayOfWeek((DayOfWeek)a) == (a + 6) % 7, "next and previous day of week");
}
SX_ENTRY(dow_text) {
  int a = sx_choose("a", 0, 6), b = sx_choose("b", 0, 6); DayOfWeekRange r((DayOfWeek)a, (DayOfWeek)b), q = DayOfWeekRange::Parse(r.ToString());
  sx_assert((int)q.mStart == a && (int)q.mEnd == b, "a day-of-week range survives its text");
  sx_assert(FromString_DayOfWeek(ToString((DayOfWeek)a, true)) == (DayOfWeek)a, "a day of week survives its text");
}
