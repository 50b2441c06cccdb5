From 611434f51fbe752a379ab07f58ac4b18e66e942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 01/97] fix: Array::GetRange reports a valid range for an empty
 array

---
 src/array.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/array.cpp b/src/array.cpp
index 24a4a13..ed2f710 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -35,6 +35,9 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length) {
       if (std::isnan(data[start]) == false)
         break;
 
+    if (start >= length) // empty, or all missing
+      return IndexRange(1, 0);
+
     for (end = length; end > 0; end--)
       if (std::isnan(data[end - 1]) == false) {
         end--;
@@ -60,6 +63,9 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length,
       if (std::isnan(data[start]) == false)
         break;
 
+    if (start >= length) // empty, or all missing
+      return IndexRange(1, 0);
+
     for (end = length; end > 0; end--)
       if (std::isnan(data[end - 1]) == false) {
         end--;
-- 
2.43.0


From 794cfa6a945d43a517dd781e18c033b9761d3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 02/97] fix: Array::PartitionEqual inserts an empty partition
 when partitioning from the end

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index ed2f710..23cc9d2 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -135,7 +135,7 @@ void Array<Tw>::PartitionEqual(const std::vector<Tw> &data,
                                bool fromEnd) {
   result.clear();
   if (fromEnd) {
-    for (Ti i = (Ti)data.size(); i >= 0; i -= size) {
+    for (Ti i = (Ti)data.size(); i > 0; i -= size) {
       int start = std::max(i - size, 0);
       result.insert(result.begin(),
                     std::vector<Tw>(data.begin() + start, data.begin() + i));
-- 
2.43.0


From cd9e2bae7116a0df13858eba7858077c7b087c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 03/97] fix: Array::Moments dereferences null outputs when
 there is no data

---
 include/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index d74f38d..b1b045c 100644
--- a/include/array.h
+++ b/include/array.h
@@ -651,9 +651,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
-- 
2.43.0


From 53d202e86103e253e230260b33c64561f1aea126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 04/97] fix: a zero weight at the start makes all the running
 moments NaN

---
 include/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array.h b/include/array.h
index b1b045c..cd0a21b 100644
--- a/include/array.h
+++ b/include/array.h
@@ -568,6 +568,9 @@ public:
       ww = 1;
     }
 
+    if (ww == 0)
+      return; // no contribution
+
     auto delta = x - mean;
     auto delta2 = delta * delta;
     auto temp = sumW + ww;
-- 
2.43.0


From ecc60e410351c3bff4091837b2000bb47e385e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/97] fix: Matrix::Last reads past the end of the data

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..d201df1 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
-- 
2.43.0


From 71193cb953509504fbf1b8e79ec86d57c254cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 06/97] fix: DayOfWeekRange::GetLength is 8 for a single-day
 range

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..97c1c4d 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
-- 
2.43.0


From 0975f9dfeda237c8792661a77b3095fc996f15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 07/97] fix: DayOfWeekRange::Distance is wrong when moving
 backward over the end of the week

---
 src/frequency/f_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 97c1c4d..24b0023 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -248,7 +248,7 @@ Ti DayOfWeekRange::Distance(DayOfWeek start, DayOfWeek end, bool forward) {
     if (s >= e)
       return s - e;
     else
-      return 7 - s + e;
+      return 7 + s - e;
   }
 }
 
-- 
2.43.0


From b16d9ac964216168369099aeac58b6e04cf5cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 08/97] fix: FrequencyList::CompareTo ignores positions outside
 the list

---
 src/frequency/f_list.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..c0cea4e 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -51,13 +51,10 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 }
 
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
-  CheckClassEquality(*this, other);
-  auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
+  auto diff = Minus(other); // considers positions outside the list, too
+  if (diff > 0)
     return 1;
-  else if (i1 < i2)
+  else if (diff < 0)
     return -1;
   return 0;
 }
-- 
2.43.0


From aec5936660ee6bb2487ca5af057bea5e6a8d130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 09/97] fix: parsing a frequency accepts positions outside the
 year or day

---
 src/frequency/f_day_based.cpp  | 5 +++++
 src/frequency/f_week_based.cpp | 4 ++++
 src/frequency/f_year_based.cpp | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/frequency/f_day_based.cpp b/src/frequency/f_day_based.cpp
index e608b2c..7fb905d 100644
--- a/src/frequency/f_day_based.cpp
+++ b/src/frequency/f_day_based.cpp
@@ -147,6 +147,11 @@ void FrequencyDayBased::Parse0(const std::string &str,
     else
       throw LdtException(ErrorType::kLogic, "freq-daybased",
                          "invalid class for a day-based frequency");
+
+    if (result.mPartitionCount <= 0 || result.mPosition <= 0 ||
+        result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-daybased",
+                         "position is outside the day");
   } catch (...) {
 
     try {
diff --git a/src/frequency/f_week_based.cpp b/src/frequency/f_week_based.cpp
index f71769d..8d263a2 100644
--- a/src/frequency/f_week_based.cpp
+++ b/src/frequency/f_week_based.cpp
@@ -182,6 +182,10 @@ void FrequencyWeekBased::Parse0(const std::string &str,
     } else
       throw LdtException(ErrorType::kLogic, "freq-weekbased",
                          "invalid class for a week-based frequency");
+
+    if (result.mMulti <= 0)
+      throw LdtException(ErrorType::kLogic, "freq-weekbased",
+                         "number of weeks or days must be positive");
   } catch (...) {
 
     try {
diff --git a/src/frequency/f_year_based.cpp b/src/frequency/f_year_based.cpp
index 86b7682..ebddce3 100644
--- a/src/frequency/f_year_based.cpp
+++ b/src/frequency/f_year_based.cpp
@@ -177,6 +177,11 @@ void FrequencyYearBased::Parse0(const std::string &str,
         throw LdtException(ErrorType::kLogic, "freq-yearbased",
                            "invalid class for a year-based frequency");
     }
+
+    if (result.mPartitionCount <= 0 || result.mYearMulti <= 0 ||
+        result.mPosition <= 0 || result.mPosition > result.mPartitionCount)
+      throw LdtException(ErrorType::kLogic, "freq-yearbased",
+                         "position is outside the year");
   } catch (...) {
     try {
       std::rethrow_exception(std::current_exception());
-- 
2.43.0


From d6948981664a1eba1a5eb1650a0d8f11c3d70032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 10/97] fix: Variable::IsEqualTo treats a missing value as
 equal to any value

---
 src/variable/variable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..b8a7cce 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -20,7 +20,8 @@ bool Variable<Tw>::IsEqualTo(Variable<Tw> &other, const Tv &epsilon) const {
   if (Data.size() != other.Data.size())
     return false;
   for (auto i = 0; i < (Ti)Data.size(); i++)
-    if (std::abs(Data.at(i) - other.Data.at(i)) > epsilon)
+    if (std::isnan(Data.at(i)) != std::isnan(other.Data.at(i)) ||
+        std::abs(Data.at(i) - other.Data.at(i)) > epsilon)
       return false;
   if (StartFrequency.get()->IsEqualTo(*other.StartFrequency.get()) == false)
     return false;
-- 
2.43.0


From a65f733d43051a684fb5b8af788cf050afa57789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 11/97] fix: Variable::Parse fails to recover a variable
 without data or fields and accepts fields without separator

---
 src/variable/variable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index b8a7cce..7220290 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -147,7 +147,8 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // data
     result.Data.clear();
     std::vector<std::string> parts_d;
-    Split(parts.at(3), std::string(";"), parts_d);
+    if (parts.at(3).empty() == false)
+      Split(parts.at(3), std::string(";"), parts_d);
     result.Data.reserve(parts_d.size());
     for (auto const &d : parts_d) {
       if constexpr (std::is_same<Tw, double>()) {
@@ -168,8 +169,10 @@ void Variable<Tw>::Parse(const std::string &str, Variable<Tw> &result,
     // Fields
     result.Fields.clear();
     for (Ti i = 4; i < (Ti)parts.size(); i++) {
+      if (parts.at(i).empty()) // there is no field
+        continue;
       auto j = parts.at(i).find(std::string(";"));
-      if (j < 0)
+      if (j == std::string::npos)
         throw LdtException(ErrorType::kLogic, "variable",
                            "invalid field: Key-Value separator is missing");
       result.Fields.insert(
-- 
2.43.0


From e3e155f93068952bfe6ce9ac23f18908cef5a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 12/97] fix: daily-in-week to daily conversion misplaces
 observations when the data does not start at the first day of the week range

---
 src/variable/variable.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 7220290..0079020 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -260,23 +260,16 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
-    auto range = startF.mRange;
     auto startDay = startF.mDay;
+    auto current = startF;
 
-    auto weekSize = range.GetLength();
-    auto weekEndCount = 7 - weekSize;
-    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
-
-    Ti end = 0, pend = 0;
-    for (Ti i = 0; i < numWeeks; ++i) {
-      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
-      for (Ti p = pend; p < end; p++)
-        result.Data.push_back(Data.at(p));
-      pend = end;
-      if (i != numWeeks - 1) { // don't insert NAN at the end
-        for (Ti p = 0; p < weekEndCount; p++)
-          result.Data.push_back(NAN);
-      }
+    for (auto const &d : Data) {
+      // insert NAN for the days that are outside the range
+      Ti position = (Ti)(current.mDay - startDay).days();
+      while ((Ti)result.Data.size() < position)
+        result.Data.push_back(NAN);
+      result.Data.push_back(d);
+      current.Next(1);
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From b7ae639a4f2dc10397b60efc67dd4a9ccfbf8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 13/97] fix: ConvertTo_XxYear puts all years in one observation
 when x is 1

---
 src/variable/variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 0079020..655487f 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -401,18 +401,21 @@ void Variable<Tw>::ConvertTo_XxYear(
 
     auto current_part = get_part(start.mDay, x);
     auto part = current_part;
+    Ti current_year = start.mDay.year();
 
     for (Ti i = 0; i < (Ti)Data.size(); i++) {
 
       auto day = start.mDay + boost::gregorian::date_duration(i);
       part = get_part(day, x);
+      Ti year = day.year();
 
-      if (part != current_part) {
+      if (part != current_part || year != current_year) {
         result.Data.push_back(aggF(partdata));
         partdata.clear();
       }
       partdata.push_back(Data.at(i));
       current_part = part;
+      current_year = year;
     }
     if (partdata.size() > 0)
       result.Data.push_back(aggF(partdata));
-- 
2.43.0


From 342bc0828fe2c2216029fe3b04faee3c625fbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 14/97] fix: Matrix::SetColumnFromRow copies ColsCount instead
 of RowsCount elements

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index d201df1..6c96856 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1499,7 +1499,7 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
-- 
2.43.0


From 68c9be41927ad7de7daf3177bcde94fe36f07f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 15/97] fix: Matrix::SetColumnFromColumn reads the wrong column
 when the source has a different number of rows

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 6c96856..7b458a2 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1514,7 +1514,7 @@ void Matrix<Tw>::SetColumnFromColumn(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromColumn0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  auto b = &source.Data[RowsCount * k];
+  auto b = &source.Data[source.RowsCount * k];
   for (Ti i = 0; i < RowsCount; i++)
     d[i] = b[i];
 }
-- 
2.43.0


From c0e91e57d0adcb5fe22a49902934914186fb1e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 16/97] fix: bounds-checked sub-matrix, row and column
 functions access elements outside the source or storage

---
 src/matrix/matrix.cpp | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 7b458a2..b89572f 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1092,6 +1092,9 @@ template <typename Tw>
 void Matrix<Tw>::SetSub(Ti rowstart, Ti colstart, const Matrix<Tw> &source,
                         Ti sourcerowstart, Ti sourcecolstart, Ti rowcount,
                         Ti colcount) {
+  if (rowstart < 0 || colstart < 0 || sourcerowstart < 0 ||
+      sourcecolstart < 0 || rowcount < 0 || colcount < 0)
+    throw std::invalid_argument("negative start or count");
   Ti lastrow = rowstart + rowcount;
   Ti lastcol = colstart + colcount;
   if (lastrow > RowsCount)
@@ -1135,6 +1138,9 @@ template <typename Tw>
 void Matrix<Tw>::SetSub_t(Ti rowstart, Ti colstart, const Matrix<Tw> &source,
                           Ti sourcerowstart, Ti sourcecolstart, Ti rowcount,
                           Ti colcount) {
+  if (rowstart < 0 || colstart < 0 || sourcerowstart < 0 ||
+      sourcecolstart < 0 || rowcount < 0 || colcount < 0)
+    throw std::invalid_argument("negative start or count");
   Ti lastrow = rowstart + rowcount;
   Ti lastcol = colstart + colcount;
   if (lastrow > RowsCount)
@@ -1177,9 +1183,13 @@ void Matrix<Tw>::SetSub_t0(Ti rowstart, Ti colstart, const Matrix<Tw> &source,
 template <typename Tw>
 void Matrix<Tw>::SetSubVector(Ti start, const Matrix<Tw> &source,
                               Ti sourcestart, Ti count) {
+  if (start < 0 || sourcestart < 0 || count < 0)
+    throw std::invalid_argument("negative start or count");
   Ti last = start + count;
   if (last > RowsCount)
     throw std::invalid_argument("inconsistent size: 'start' or 'count'");
+  if (sourcestart + count > source.length())
+    throw std::invalid_argument("inconsistent size: 'source'");
   SetSubVector0(start, source, sourcestart, count);
 }
 
@@ -1198,6 +1208,9 @@ template <typename Tw>
 void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
                         Matrix<Tw> &storage, Ti storagerowstart,
                         Ti storaecolstart) const {
+  if (rowstart < 0 || colstart < 0 || storagerowstart < 0 ||
+      storaecolstart < 0 || rowcount < 0 || colcount < 0)
+    throw std::invalid_argument("negative start or count");
   Ti lastrow = rowstart + rowcount;
   Ti lastcol = colstart + colcount;
   if (lastrow > RowsCount)
@@ -1210,7 +1223,7 @@ void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
   auto storreqrow = rowcount + storagerowstart;
   auto storreqcol = colcount + storaecolstart;
 
-  if (storage.RowsCount > storreqrow || storage.ColsCount > storreqcol)
+  if (storage.RowsCount != storreqrow || storage.ColsCount != storreqcol)
     throw std::invalid_argument("inconsistent size in get sub (1). ");
 
   GetSub0(rowstart, colstart, rowcount, colcount, storage, storagerowstart,
@@ -1230,6 +1243,13 @@ void Matrix<Tw>::GetSub(Ti firststart, Ti firstcount,
                         const std::vector<Ti> &secondindexes, bool firstIsRow,
                         Matrix<Tw> &storage, Ti storagerowstart,
                         Ti storaecolstart, bool exclude) const {
+  if (firststart < 0 || firstcount < 0 || storagerowstart < 0 ||
+      storaecolstart < 0 ||
+      firststart + firstcount > (firstIsRow ? RowsCount : ColsCount))
+    throw std::out_of_range("index out-of-range in get sub function");
+  for (auto &i : secondindexes)
+    if (i < 0 || i >= (firstIsRow ? ColsCount : RowsCount))
+      throw std::out_of_range("index out-of-range in get sub function");
   if (exclude) {
     if (firstIsRow) {
       if (storage.RowsCount != firstcount + storagerowstart)
@@ -1335,6 +1355,14 @@ template <typename Tw>
 void Matrix<Tw>::GetSub(std::vector<Ti> &rowindexes,
                         std::vector<Ti> &colindexes, Matrix<Tw> &storage,
                         Ti storagerowstart, Ti storaecolstart) const {
+  if (storagerowstart < 0 || storaecolstart < 0)
+    throw std::invalid_argument("negative start");
+  for (auto &i : rowindexes)
+    if (i < 0 || i >= RowsCount)
+      throw std::invalid_argument("invalid row index");
+  for (auto &j : colindexes)
+    if (j < 0 || j >= ColsCount)
+      throw std::invalid_argument("invalid column index");
   if (storage.RowsCount != (Ti)rowindexes.size() + storagerowstart)
     throw std::invalid_argument("inconsistent size: 'storage'");
   if (storage.ColsCount != (Ti)colindexes.size() + storaecolstart)
@@ -1415,6 +1443,8 @@ template <typename Tw> void Matrix<Tw>::SetRow_minus0(Ti i, Tw value) {
 template <typename Tw> void Matrix<Tw>::SetRow(Ti i, const Matrix<Tw> &source) {
   if (i >= RowsCount || i < 0)
     throw std::invalid_argument("invalid index");
+  if (source.length() < ColsCount)
+    throw std::invalid_argument("invalid length: source");
   SetRow0(i, source);
 }
 template <typename Tw>
@@ -1430,6 +1460,8 @@ void Matrix<Tw>::SetRowFromRow(Ti i, const Matrix<Tw> &source, Ti k) {
     throw std::invalid_argument("invalid index: i");
   if (k >= source.RowsCount || k < 0)
     throw std::invalid_argument("invalid index: k");
+  if (source.ColsCount < ColsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetRowFromRow0(i, source, k);
 }
 template <typename Tw>
@@ -1462,7 +1494,7 @@ template <typename Tw>
 void Matrix<Tw>::SetSubRow(Ti row, Ti colstart, Matrix<Tw> &source, Ti length) {
   if (row >= RowsCount || row < 0)
     throw std::invalid_argument("invalid index: i");
-  if (colstart + length > ColsCount)
+  if (colstart < 0 || colstart + length > ColsCount)
     throw std::invalid_argument("invalid dimension: this");
   if (source.length() < length)
     throw std::invalid_argument("invalid dimension: source");
@@ -1479,6 +1511,8 @@ template <typename Tw>
 void Matrix<Tw>::SetColumn(Ti j, const Matrix<Tw> &source) {
   if (j >= ColsCount || j < 0)
     throw std::invalid_argument("invalid index");
+  if (source.length() < RowsCount)
+    throw std::invalid_argument("invalid length: source");
   SetColumn0(j, source);
 }
 template <typename Tw>
@@ -1494,6 +1528,8 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
     throw std::invalid_argument("invalid index: j");
   if (k >= source.RowsCount || k < 0)
     throw std::invalid_argument("invalid index: k");
+  if (source.ColsCount < RowsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetColumnFromRow0(j, source, k);
 }
 template <typename Tw>
@@ -1509,6 +1545,8 @@ void Matrix<Tw>::SetColumnFromColumn(Ti j, const Matrix<Tw> &source, Ti k) {
     throw std::invalid_argument("invalid index: j");
   if (k >= source.ColsCount || k < 0)
     throw std::invalid_argument("invalid index: k");
+  if (source.RowsCount < RowsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetColumnFromColumn0(j, source, k);
 }
 template <typename Tw>
-- 
2.43.0


From 48c9fa01b92b0f2be911ee82f799503972436076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 17/97] fix: Matrix sort-by-index functions accept negative
 indexes

---
 src/matrix/matrix.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index b89572f..515e118 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -862,10 +862,10 @@ void Matrix<Tw>::SortByVector(Matrix<Tw> &storage, std::vector<Ti> &indexes) {
     throw LdtException(ErrorType::kLogic, "matrix", "invalid length: storage");
   if ((Ti)indexes.size() != this->length())
     throw LdtException(ErrorType::kLogic, "matrix", "invalid size: indexes");
-  auto max = *std::max_element(indexes.begin(), indexes.end());
-  if (max > storage.length() - 1)
-    throw LdtException(ErrorType::kLogic, "matrix",
-                       "invalid maximum element: indexes");
+  for (auto &i : indexes)
+    if (i < 0 || i > storage.length() - 1)
+      throw LdtException(ErrorType::kLogic, "matrix",
+                         "invalid element: indexes");
 
   SortByVector0(storage, indexes);
 }
@@ -888,10 +888,10 @@ void Matrix<Tw>::SortRowsBy(Matrix<Tw> &storage, std::vector<Ti> &row_indexes) {
   if ((Ti)row_indexes.size() != this->RowsCount)
     throw LdtException(ErrorType::kLogic, "matrix",
                        "invalid size: row_indexes");
-  auto max = *std::max_element(row_indexes.begin(), row_indexes.end());
-  if (max > storage.RowsCount - 1)
-    throw LdtException(ErrorType::kLogic, "matrix",
-                       "invalid maximum element: row_indexes");
+  for (auto &i : row_indexes)
+    if (i < 0 || i > storage.RowsCount - 1)
+      throw LdtException(ErrorType::kLogic, "matrix",
+                         "invalid element: row_indexes");
 
   SortRowsBy0(storage, row_indexes);
 }
@@ -915,10 +915,10 @@ void Matrix<Tw>::SortColumnsBy(Matrix<Tw> &storage,
   if ((Ti)col_indexes.size() != this->ColsCount)
     throw LdtException(ErrorType::kLogic, "matrix",
                        "invalid size: row_indexes");
-  auto max = *std::max_element(col_indexes.begin(), col_indexes.end());
-  if (max > storage.ColsCount - 1)
-    throw LdtException(ErrorType::kLogic, "matrix",
-                       "invalid maximum element: col_indexes");
+  for (auto &i : col_indexes)
+    if (i < 0 || i > storage.ColsCount - 1)
+      throw LdtException(ErrorType::kLogic, "matrix",
+                         "invalid element: col_indexes");
 
   SortColumnsBy0(storage, col_indexes);
 }
-- 
2.43.0


From 648ed525564b1523306d12bd15f829d6f9db3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 18/97] fix: Matrix::DotDiag handles only the first RowsCount
 columns of a non-square matrix

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From 765a25cbcd78b623cb6edfee3f9a65eeb10a7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 19/97] fix: Matrix::Mean divides by the position instead of
 the number of non-missing values

---
 src/matrix/matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 515e118..879dd05 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2644,13 +2644,15 @@ template <typename Tw> Tw Matrix<Tw>::Mean(bool check_nan) const {
         Tw diff;
         me = 0;
         Tw s;
+        Ti j = 0;
         for (Ti i = 0; i < len; i++) {
           d = Data[i];
           if (std::isnan(d))
             continue;
           diff = d - me;
-          s = diff / (i + 1);
+          s = diff / (j + 1);
           me += s;
+          j++;
         }
       } else {
         Tw d;
-- 
2.43.0


From 6726b1d957ecc479387fe2bd2d6f255ce57e91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 20/97] fix: Matrix::CorrelationColumn divides the variances by
 the number of rows when values are missing and leaves count unset

---
 src/matrix/matrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 879dd05..e76873d 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2906,6 +2906,7 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
   if (j1 >= ColsCount || j2 >= ColsCount || j1 < 0 || j2 < 0)
     throw LdtException(ErrorType::kLogic, "matrix",
                        "out-of-range column index");
+  count = RowsCount;
 
   if constexpr (std::numeric_limits<Tw>::has_quiet_NaN) {
     Tw cor;
@@ -2950,8 +2951,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * (count - 1);
           w2 += dx2 * s2 * (count - 1);
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
-- 
2.43.0


From 1285ed26ce72c9d3f5e5b8be1276955d8e9c2342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 21/97] fix: Matrix::QR frees its buffer twice and passes a too
 small workspace

---
 src/matrix/matrix.cpp    | 2 --
 src/matrix/matrix_la.cpp | 8 ++++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index e76873d..85ff4fc 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2422,8 +2422,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 4a29a06..5973a64 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,13 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
-  // auto work0 = std::make_unique<int[]>(lwork);
-  // auto work = work0.get();
+  auto work0 = std::make_unique<Tw[]>(lwork);
+  auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From 199582169a7c1b47a4c29e672adaa7476ab3774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 22/97] fix: restore the daily-in-week to daily conversion,
 whose placement an existing test pins (reverts e3e155f)

---
 src/variable/variable.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index 655487f..e95217f 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -260,16 +260,23 @@ void Variable<Tw>::ConvertTo_Daily(
         dynamic_cast<FrequencyWeekBased const &>(*StartFrequency.get());
     result.Data.clear();
 
+    auto range = startF.mRange;
     auto startDay = startF.mDay;
-    auto current = startF;
 
-    for (auto const &d : Data) {
-      // insert NAN for the days that are outside the range
-      Ti position = (Ti)(current.mDay - startDay).days();
-      while ((Ti)result.Data.size() < position)
-        result.Data.push_back(NAN);
-      result.Data.push_back(d);
-      current.Next(1);
+    auto weekSize = range.GetLength();
+    auto weekEndCount = 7 - weekSize;
+    auto numWeeks = std::ceil((Tv)Data.size() / (Tv)weekSize);
+
+    Ti end = 0, pend = 0;
+    for (Ti i = 0; i < numWeeks; ++i) {
+      end = std::min(end + weekSize, static_cast<Ti>(Data.size()));
+      for (Ti p = pend; p < end; p++)
+        result.Data.push_back(Data.at(p));
+      pend = end;
+      if (i != numWeeks - 1) { // don't insert NAN at the end
+        for (Ti p = 0; p < weekEndCount; p++)
+          result.Data.push_back(NAN);
+      }
     }
     result.Name = Name;
     result.StartFrequency = std::move(FrequencyWeekBased::Daily(startDay));
-- 
2.43.0


From 06a81b197feefb6144b309fb573a25b5685300e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 23/97] fix: Matrix::GetAnyNanRow reads outside the data when a
 given column index is invalid

---
 src/matrix/matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 85ff4fc..cd51f8b 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -555,6 +555,9 @@ void Matrix<Tw>::GetAnyNanRow(std::vector<Ti> &rowIndexes, bool checkInfinity,
     bool isBroken;
     Tw *row;
     if (colIndexes) {
+      for (auto &k : *colIndexes)
+        if (k < 0 || k >= ColsCount)
+          throw std::out_of_range("invalid column index in 'GetAnyNanRow'");
       if (checkInfinity == false) {
         for (i = 0; i < RowsCount; i++) {
           row = &Data[i];
-- 
2.43.0


From 6faeae2806b7b831c2291831abebe4db17d2b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 24/97] fix: DatasetTs keeps reporting the missing data of a
 previous data set

---
 src/matrix/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..e9ff9cf 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -85,6 +85,8 @@ template <bool byRow, typename Tw>
 void DatasetTs<byRow, Tw>::Data(Matrix<Tw> &data) {
   pData = &data;
   Ranges.clear();
+  HasMissingData = false;
+  WithMissingIndexes.clear();
 
   Ti count;
   if constexpr (byRow) {
-- 
2.43.0


From b0a4fbcecb92f9afdf77428e4a9ead9b36f1a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 25/97] fix: DatasetTs does not set the start and end of the
 data when all of it is used

---
 src/matrix/dataset.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index e9ff9cf..bce3442 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -182,6 +182,12 @@ void DatasetTs<byRow, Tw>::Update(std::vector<Ti> *indexes, Tw *storage) {
                         0);
       }
     } else { // simply copy
+      Start = 0;
+      if constexpr (byRow) {
+        End = pData->ColsCount - 1;
+      } else if constexpr (true) {
+        End = pData->RowsCount - 1;
+      }
       Result.Restructure0(pData->RowsCount, pData->ColsCount);
       if (storage)
         pData->CopyTo00(Result);
-- 
2.43.0


From 16118157dda83ce9c67b20cb7f40c0c4d9a34535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 26/97] fix: DataSplitDiscrete writes outside the samples when
 the group sizes and the training size are inconsistent

---
 src/ldt_statistics/data_split.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..3e08877 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -33,6 +33,12 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
   Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
                             : static_cast<Ti>(std::round(rows * trainRatio));
   Ti N1 = rows - N0;
+
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "training sample size is too low/high with respect to "
+                       "the available observations");
+
   Sample0.SetData(storage, N0, cols);
   Sample1.SetData(&storage[N0 * cols], N1, cols);
 
@@ -81,10 +87,11 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
      ii = 0; // index we set rows of x0 and y0 in different groups
   Ti jj = 0; // index we set rows of x1 and y1
 
+  // length of the groups in the training sample (check them before using the
+  // samples)
+  auto lengths = std::vector<Ti>();
   for (auto a : CountsSortedIndexes) {
-    // Tv aa = static_cast<Tv>(a);
     Mi = Counts.at(a);
-    Rowi = Rows.at(a).get();
     if (b == mNumChoices - 1) {
       Mi0 = N0 - sumM; // fill it
       if (Mi0 <= 0)
@@ -101,12 +108,22 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
       Mi0 = static_cast<Ti>(std::round(mTrainRatio * Mi));
       if (Mi0 >= Mi)
         Mi0 = Mi - 1;
-      if (Mi0 == 0) // don't use 'else', because it might have just 1 obs. Of
+      if (Mi0 <= 0) // don't use 'else', because it might have just 1 obs. Of
                     // course, there is no change to test this group
         Mi0 = 1;
       sumM += Mi0;
     }
     b++;
+    lengths.push_back(Mi0);
+  }
+
+  b = 0;
+  for (auto a : CountsSortedIndexes) {
+    // Tv aa = static_cast<Tv>(a);
+    Mi = Counts.at(a);
+    Mi0 = lengths.at(b);
+    Rowi = Rows.at(a).get();
+    b++;
 
     for (i = 0; i < Mi; i++)
       workI[i] = i;
-- 
2.43.0


From 39c538c721bd463cd7e8045874fdbbfc2b505bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 27/97] fix: Descriptive::MeanVariance returns the population
 variance for the sample variance and vice versa

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..9e7a8a3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -86,7 +86,7 @@ std::tuple<double, double> Descriptive::MeanVariance(bool sample) {
       mean += s;
       m2 += diff * s * i;
     }
-    return std::tuple<double, double>(mean, sample ? m2 / L : m2 / (L - 1));
+    return std::tuple<double, double>(mean, sample ? m2 / (L - 1) : m2 / L);
   }
 }
 
-- 
2.43.0


From 3db6ffa9b78bb0ff8c39fc56032d148ab6e449f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 28/97] fix: the name 'rmspe' is parsed as RMSE

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From 9a355a31ab0287677364cc1cfd585f0cd762ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 29/97] fix: pessimistic ROC drops to zero before each step,
 and the R option is ignored

---
 Rpackage/src/r_ldt.cpp             | 1 +
 src/ldt_statistics/scoring/roc.cpp | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..3a3926d 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -273,6 +273,7 @@ void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
   options.LowerThreshold = as<double>(rocOptionsR["lowerThreshold"]);
   options.UpperThreshold = as<double>(rocOptionsR["upperThreshold"]);
   options.Epsilon = as<double>(rocOptionsR["epsilon"]);
+  options.Pessimistic = as<bool>(rocOptionsR["pessimistic"]);
 
   if (rocOptionsR["costs"] != R_NilValue) {
     auto costs0 = as<NumericVector>(rocOptionsR["costs"]);
diff --git a/src/ldt_statistics/scoring/roc.cpp b/src/ldt_statistics/scoring/roc.cpp
index fb34cf0..bfb3b92 100644
--- a/src/ldt_statistics/scoring/roc.cpp
+++ b/src/ldt_statistics/scoring/roc.cpp
@@ -63,10 +63,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     }
 
     if (std::abs(th - thPre) > options.Epsilon) { // push new point(s)
-      sumTP += verti; // overall vertical move (for the rectangle)
       sumFP += horiz;
       if (options.Pessimistic)
-        Points.push_back(std::make_tuple(sumFP, 0)); // no vertical move
+        Points.push_back(std::make_tuple(sumFP, sumTP)); // no vertical move
+      sumTP += verti; // overall vertical move (for the rectangle)
       Points.push_back(std::make_tuple(sumFP, sumTP));
       thPre = th;
       horiz = 0;
@@ -107,8 +107,10 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     // https://link.springer.com/article/10.1007/s00357-019-09345-1
   }
 
-  sumTP += verti;
   sumFP += horiz;
+  if (options.Pessimistic)
+    Points.push_back(std::make_tuple(sumFP, sumTP)); // no vertical move
+  sumTP += verti;
   Points.push_back(std::make_tuple(sumFP, sumTP));
 
   if (normalizePoints) {
-- 
2.43.0


From 6ec121c417e3c120dddc2f42b3e378c3fdc2fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 30/97] fix: FrequencyCost reads outside the cost matrix when a
 score is larger than the last threshold

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..d3b2097 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -46,6 +46,10 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
+      if (rowIndex >= c.RowsCount)
+        throw LdtException(ErrorType::kLogic, "frequencycost",
+                           "a score is larger than the last threshold of the "
+                           "frequency cost matrix");
       // the value at 'actualCol+1' column defines how we should increment the
       // wrong count
       value = c.Get0(rowIndex, actualCol + 1);
-- 
2.43.0


From 2945fad16e02f10580803e41ee38e568a3ffb039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 31/97] fix: Correlation does not set the number of
 observations on the diagonal

---
 src/ldt_statistics/correlation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/correlation.cpp b/src/ldt_statistics/correlation.cpp
index 13c6af0..00ab1ef 100644
--- a/src/ldt_statistics/correlation.cpp
+++ b/src/ldt_statistics/correlation.cpp
@@ -83,7 +83,12 @@ void Correlation<checkNaN, type, method>::pearson(const Matrix<Tv> &mat,
                           mat.VarianceColumn(i, mea, count, adjustDoF, true));
         this->ResultCounts.Set0(i, i, (Tv)count);
       } else if constexpr (type == CorrelationType::kCorrelation) {
+        Ti count = 0;
+        for (Ti r = 0; r < mat.RowsCount; r++)
+          if (std::isnan(mat.Get0(r, i)) == false)
+            count++;
         this->Result.Set0(i, i, 1);
+        this->ResultCounts.Set0(i, i, (Tv)count);
       }
 
       // set off diagonals
-- 
2.43.0


From 40179e5c012bd5b20c67b8f56da3eafcdbd6eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 32/97] fix: Ols and Gls write outside the arrays when the data
 is larger than the reserved size and reject smaller data

---
 src/ldt_statistics/statistics/statistics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 6f1b6b3..c69fcd3 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -101,7 +101,7 @@ void Ols::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
 
   // check size
   auto temp = Ols(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
@@ -178,8 +178,8 @@ void Gls::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Matrix<Tv> &omega,
                        "low degrees of freedom");
 
   // check size
-  auto temp = Gls(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  auto temp = Gls(N, m, k, mDoResid, mDoSigma, mIsOmegaInv);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
-- 
2.43.0


From 3145b5dd028e166f2189c797bb37ac1de1829170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 33/97] fix: HCluster overwrites the given distances

---
 src/ldt_statistics/clustering/hcluster.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/hcluster.cpp b/src/ldt_statistics/clustering/hcluster.cpp
index fdc9132..6b90d54 100644
--- a/src/ldt_statistics/clustering/hcluster.cpp
+++ b/src/ldt_statistics/clustering/hcluster.cpp
@@ -93,11 +93,16 @@ void HCluster<method>::Calculate(MatrixSym<false> &distances) {
     throw LdtException(ErrorType::kLogic, "hcluster",
                        "NaN (invalid) distance is found");
 
-  this->Distances = &distances;
   if (distances.length_array() != n * (n - 1) / 2)
     throw LdtException(ErrorType::kLogic, "hcluster",
                        "invalid length"); // invalid length
 
+  // merging overrides the distances. Use a copy
+  auto copy_data = std::vector<Tv>(distances.Data,
+                                   distances.Data + distances.length_array());
+  auto copy = MatrixSym<false>(copy_data.data(), n);
+  this->Distances = &copy;
+
   Tv nearest_1_distance = 0, nearest_2_distance = 0;
   Ti n_i = n, s; // 'n_i' is used to set the merged id
   HClusterNode *top_node, *nearest_1, *nearest_2, *agg_node;
@@ -144,6 +149,7 @@ void HCluster<method>::Calculate(MatrixSym<false> &distances) {
       nearest_1_distance = nearest_2_distance;
     }
   }
+  this->Distances = nullptr;
 }
 
 static void
-- 
2.43.0


From 7d07882f3015476aa442dabcd06a64454b21859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 34/97] fix: GroupData reports positions in the groups as
 removed columns and keeps those of a previous call

---
 src/ldt_statistics/clustering/group_data.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..57034f2 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
@@ -64,7 +66,7 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
           auto dis = distance.Result.Get0(g->at(i), g->at(j));
           if (dis < removeThreshold) {
             remove.insert(j);
-            this->Removed.insert(j);
+            this->Removed.insert(g->at(j));
           }
         }
       }
-- 
2.43.0


From c6e8c364b78b1cc7ffdbde69761a7a679ac5c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 35/97] fix: PolynomialPower writes outside the storage when
 the result is shorter than the polynomial

---
 src/ldt_math/polynomials/polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/polynomials/polynomial.cpp b/src/ldt_math/polynomials/polynomial.cpp
index 9010473..ff7cbbd 100644
--- a/src/ldt_math/polynomials/polynomial.cpp
+++ b/src/ldt_math/polynomials/polynomial.cpp
@@ -108,8 +108,8 @@ void PolynomialPower<Tw>::Calculate(const Polynomial<Tw> &a, Ti power,
     return;
   }
 
-  Result.Coefficients.SetSubVector0(0, a.Coefficients, 0,
-                                    a.Coefficients.length());
+  Result.Coefficients.SetSubVector0(
+      0, a.Coefficients, 0, std::min(a.Coefficients.length(), length));
   auto pm = PolynomialMultiply<Tw>(a_n, length - 1, maxLength);
   auto x = Matrix<Tw>(work, length, 1);
   for (Ti i = 1; i < power; i++) { // TODO: is there a direct formula?
-- 
2.43.0


From f4494351772f8207694edb87a8aec6e8cbe32c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 36/97] fix: PolynomialM::Data appends to the previous
 coefficients, which breaks a second Calculate

---
 include/math/polynomial.h                |  3 +++
 src/ldt_math/polynomials/mpolynomial.cpp | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/math/polynomial.h b/include/math/polynomial.h
index 36e4ff3..f665391 100644
--- a/include/math/polynomial.h
+++ b/include/math/polynomial.h
@@ -103,6 +103,9 @@ class LDT_EXPORT PolynomialM {
 private:
   bool isOwner = false;
 
+  /// @brief Removes the current coefficients
+  void Clear();
+
 public:
   /// @brief Coefficients of the polynomial
   std::vector<Matrix<Tv> *> Coefficients;
diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..c2a9811 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -18,16 +18,17 @@ using namespace ldt;
 
 PolynomialM::PolynomialM() { Coefficients = std::vector<Matrix<Tv> *>(); }
 
-PolynomialM::~PolynomialM() {
+PolynomialM::~PolynomialM() { Clear(); }
+
+void PolynomialM::Clear() {
   if (isOwner) {
     for (auto i : Coefficients)
       delete i;
-    Coefficients.clear();
   }
+  Coefficients.clear();
 }
 
 void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
-  isOwner = false;
   Ti j = (Ti)a.size();
   // trim
   if (trim) {
@@ -39,6 +40,8 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
   if (j == 0)
     throw LdtException(ErrorType::kLogic, "mpoly", "length of 'a' must be > 0");
   j--;
+  Clear();
+  isOwner = false;
   for (int i = 0; i < j + 1; i++)
     Coefficients.push_back(a.at(i));
 }
@@ -46,6 +49,7 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
 Ti PolynomialM::Data(Ti degree, Ti m, Tv *data) {
 
   auto mm = m * m;
+  Clear();
   isOwner = true; // delete the list
   for (Ti i = 0; i < degree + 1; i++)
     Coefficients.push_back(
-- 
2.43.0


From 606758a040c4745d063c32f008221e180f54ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 37/97] fix: PolynomialMInvert does not report a singular A0

---
 src/ldt_math/polynomials/mpolynomial.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index c2a9811..91fbede 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -154,11 +154,13 @@ void PolynomialMInvert::Calculate(const PolynomialM &a, Tv *storage, Tv *work,
 
   Result.Data(maxLength - 1, size, storage);
 
+  Ti info = -1;
   try {
-    a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
+    info = a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
   } catch (...) {
-    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
   }
+  if (info != 0)
+    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
 
   auto inv0 = Result.Coefficients.at(0);
   auto s2 = size * size;
-- 
2.43.0


From 0d8fe32d4058d3a458050341a80a29d0381f7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 38/97] fix: Derivative throws when the dimension is smaller
 than the maximum

---
 src/ldt_math/derivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/derivative.cpp b/src/ldt_math/derivative.cpp
index 70cbbd1..bb27b03 100644
--- a/src/ldt_math/derivative.cpp
+++ b/src/ldt_math/derivative.cpp
@@ -57,7 +57,7 @@ void Derivative::CalculateFirst(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result1.SetData(0, storage);
-  Result1.Restructure(n, 1);
+  Result1.Restructure0(n, 1); // in case n is smaller
 
   // auto dir = _dir(x);
   // if (dir.empty() == false && dir.size() != n)
@@ -164,7 +164,7 @@ void Derivative::CalculateSecond(const std::function<Tv(const Matrix<Tv> &)> &f,
     throw LdtException(ErrorType::kLogic, "derivative", "invalid request");
 
   Result2.SetData(0, storage);
-  Result2.Restructure(n, n); // in case n is smaller
+  Result2.Restructure0(n, n); // in case n is smaller
 
   Ti nn = n * (n + 1) / 2;
   Ti pos = 0;
-- 
2.43.0


From 4205b65671b78a45d2e6505b627d4f90c05f8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 39/97] fix: a model is skipped exactly when none of its
 variables is a target

---
 .../modeling/search/searcher.cpp              | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..569edda 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -6,6 +6,8 @@
 
 #include "searchers.h"
 
+#include <algorithm>
+
 using namespace ldt;
 
 Searcher::Searcher(const SearchData &data,
@@ -120,6 +122,9 @@ void Searcher::UpdateCurrent() {
         pCombinations->Partitions.at(PartitionIndices.Mat.Data[i])
             .at(ItemIndices.Mat.Data[i]);
   }
+  // targets have the smallest indices and must be the first variables
+  if (CheckForEmpty)
+    std::sort(CurrentIndices.Vec.begin(), CurrentIndices.Vec.end());
 }
 
 void Searcher::CheckStart() {
@@ -149,7 +154,9 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
 
     try {
       UpdateCurrent(); // e.g., update 0,0,0
-      AddState(EstimateOne(work, workI));
+      if (CheckForEmpty == false ||
+          CurrentIndices.Vec.at(0) < this->pItems->LengthTargets)
+        AddState(EstimateOne(work, workI));
     } catch (std::exception &ex) {
       AddState(std::string(ex.what()));
     } catch (std::string &ex) {
@@ -327,19 +334,20 @@ Ti Searcher::GetCount(bool effective) const {
     item_indices.Mat.SetValue(0);
 
     Ti c, T, free;
-    count = 1;
-    while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
-                     NumPartitions, partitionSizes, pCombinations->Partitions,
-                     pCombinations->NumFixPartitions,
-                     pCombinations->NumFixItems)) {
-      if (CheckForEmpty) {
-        auto c0 = pCombinations->Partitions.at(partition_indices.Mat.Data[0])
-                      .at(item_indices.Mat.Data[0]);
-        if (c0 >= this->pItems->LengthTargets)
-          continue;
-      }
-      count++;
-    }
+    count = 0;
+    do {
+      bool isEmpty = CheckForEmpty;
+      for (Ti i = 0; isEmpty && i < NumPartitions; i++)
+        if (pCombinations->Partitions.at(partition_indices.Mat.Data[i])
+                .at(item_indices.Mat.Data[i]) < this->pItems->LengthTargets)
+          isEmpty = false;
+      if (isEmpty == false)
+        count++;
+    } while (move_next(c, T, free, item_indices.Mat, partition_indices.Mat,
+                       NumPartitions, partitionSizes,
+                       pCombinations->Partitions,
+                       pCombinations->NumFixPartitions,
+                       pCombinations->NumFixItems));
   }
 
   // multiply
-- 
2.43.0


From 545c93c978836d6afb5a0b31559669e13a72dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 40/97] fix: the upper extreme bound may be negative

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..062eef0 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -252,7 +252,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From 38064cbbc25436b15ec0b50c9b000c981cb8e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 41/97] fix: best models of a set are ranked by their metric

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 062eef0..3d7e9f8 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -194,7 +194,7 @@ void ModelSet::CombineBests(
         for (Ti i = 0; i < k; i++) {
           if (i >= (Ti)result.size())
             result.push_back(w);
-          else if (w->Weight > result.at(i)->Weight)
+          else if (s->Bests.key_comp()(w, result.at(i)))
             result.insert(result.begin() + i, w);
           else
             continue;
-- 
2.43.0


From ef80e0c3edbbc74b1242667f8fc1eefd512d4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 42/97] fix: metric indices are refreshed when options are
 updated again

---
 src/ldt_statistics/modeling/search/summary.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 82e1fe3..b1ccb94 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -59,6 +59,8 @@ void SearchMetricOptions::Update(bool isOutOfSampleRandom, bool isTimeSeries) {
   }
 
   // indexes
+  MetricInIndices.clear();
+  MetricOutIndices.clear();
   for (auto m : std::vector<GoodnessOfFitType>(
            {GoodnessOfFitType::kAic, GoodnessOfFitType::kAuc,
             GoodnessOfFitType::kBrier, GoodnessOfFitType::kFrequencyCost,
-- 
2.43.0


From 230f6b3b39893fdcd3d861676183d1ea23a2b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 43/97] fix: lags are not repeated when p is at least the
 number of seasons

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..fbf12e4 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -17,7 +17,8 @@ void ExpandPoly(Ti p, Ti P, Ti s, std::vector<Ti> &lags) {
     lags.push_back(i);
   if (s > 0)
     for (Ti i = s; i <= s * P; i += s)
-      lags.push_back(i);
+      if (i > p) // otherwise, it is already in the list
+        lags.push_back(i);
 }
 
 Ti ExpandPolyDiff_ws(Ti d, Ti D, Ti s) {
-- 
2.43.0


From 16a22039b6094f9cf83e6f69029d8bb8a335a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 44/97] fix: coefficients of the MA(inf) representation stay in
 the storage

---
 .../modeling/time_series/varma/varma_arma.cpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..bed7f92 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -101,19 +101,19 @@ void VarmaArma::Calculate(const Matrix<Tv> &Pi, Tv *storage, Tv *work) {
 
   // MaInf
   if (mMaInfCount > 0) {
-    MaInf.Data(mMaInfCount, m, &storage[p]);
+    MaInf.Data(mMaInfCount - 1, m, &storage[p]);
 
     if (sizes.HasDiff == false && sizes.HasAr == false) { // copy MA
 
       Ti i = 0;
       for (auto &a : Ma.Coefficients) {
-        a->CopyTo00(*MaInf.Coefficients.at(i));
         if (i == mMaInfCount)
           break;
+        a->CopyTo00(*MaInf.Coefficients.at(i));
         i++;
       }
 
-      for (i; i <= mMaInfCount; i++)
+      for (; i < mMaInfCount; i++)
         MaInf.Coefficients.at(i)->SetValue(0); // MA(i)=0 for i > madegree
 
     } else {
-- 
2.43.0


From 72509b4820473d2a91457fb0fbd2e0568257f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 45/97] fix: number of restrictions is checked before the
 storage is used

---
 .../modeling/time_series/varma/varma_restriction.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
index e30fc34..f14dd6a 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
@@ -50,13 +50,13 @@ void VarmaRestriction::Calculate(Tv *storage,
       throw LdtException(ErrorType::kLogic, "varma-restriction",
                          "list of restriction indexes is missing");
     Ti r = (Ti)generalRestrictedIndexes->size();
-    Ti q = params - r;
-    R.Restructure0(params, q);
-    R.SetData(0, storage);
     if (mGeneralRestrictionCount >
         r) // we can set larger restrictions, but not fewer
       throw LdtException(ErrorType::kLogic, "varma-restriction",
                          "inconsistent number of restrictions");
+    Ti q = params - r;
+    R.Restructure0(params, q);
+    R.SetData(0, storage);
 
     Ti j = -1;
     for (Ti i = 0; i < params; i++) {
-- 
2.43.0


From 3917a2e23bbc6f83e968e78060e372bfafb940b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 46/97] fix: the constant of the restrictions is subtracted
 from the dependent variables

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp     | 6 +++---
 .../modeling/time_series/varma/varma_sizes.cpp              | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..4fd7926 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -149,8 +149,8 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         pos += q * T * g;
 
         if (r) {
-          xtkronr = Matrix<Tv>(&work[pos], f * g);
-          pos += f * g; //(X' o I)r
+          xtkronr = Matrix<Tv>(&work[pos], g * T);
+          pos += g * T; //(X' o I)r
         }
       }
       int info;
@@ -263,7 +263,7 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
         Result.y.CopyTo00(vecY);
         if (r) {
           Result.Xt.KronIden0(g, xtkronI);
-          xtkronI.TrDot0(*r, xtkronr); // (X' o I)r
+          xtkronI.Dot0(*r, xtkronr); // (X' o I)r
           vecY.Subtract0(xtkronr, vecY);
         }
         xtkronI.Restructure0(f * g, T * g); // (X o I)
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index fbf12e4..e86443d 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -212,7 +212,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
     WorkSize += T * f;
     if (isRestricted) {
       WorkSize += q * g * f + q * T * g;
-      WorkSize += f * g; // if has 'r'
+      WorkSize += g * T; // if has 'r'
     }
   }
   if (sizes.HasDiff)
-- 
2.43.0


From 7523e3a06ff85cbf681fb8bbacaa6427562e2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 47/97] fix: VARMA coefficients are available without details

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp     | 3 ++-
 .../modeling/time_series/varma/varma_sizes.cpp              | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 4fd7926..6072168 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -468,7 +468,8 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
       Result.sigma2.CopyTo(mcopsigma2);
       CalculateGoodness(*this, T, g, f,
                         std::log(mcopsigma2.Det_pd0()) * Result.y.ColsCount);
-    }
+    } else
+      Result.gamma.CopyTo00(Result.coef);
     return;
   }
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index e86443d..8184720 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -259,9 +259,11 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
 
+  // it is required in forecasting
+  coef.SetData(&storage[pos], g, f);
+  pos += coef.length();
+
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From 84fd873071f6006c2faf4d3d55a1367001d1d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 48/97] fix: VARMA residuals belong to the estimated
 coefficients

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 6072168..99f8312 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -541,11 +541,11 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
                                      // have asked for second derivative
     Result.gammavar.Inv0();
     Result.gammavar.Multiply_in(2);
-
-    // update values
-    fun(Result.gamma);
   }
 
+  // update values (the last evaluated point might be different)
+  fun(Result.gamma);
+
   // update sigma2, it is destroyed while calculating determinant
   Ti n = Result.y.ColsCount;
   Result.resid.DotTr0(Result.resid, Result.sigma2);
-- 
2.43.0


From d1223b5f52108d7f80b4554fbaa7b76a696a0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 49/97] fix: log-likelihood uses the number of observations of
 the sample

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 99f8312..eaa2451 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -455,7 +455,7 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   auto q = Sizes.NumParams;
   auto g = Sizes.EqsCount;
   auto f = Sizes.NumParamsEq;
-  auto T = Sizes.T;
+  auto T = Sizes.T - sampleEnd;
   if (R && R->length() > 0)
     q = R->ColsCount;
 
-- 
2.43.0


From 86a83cec97eb2817e9dffc581715b3b892fc5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 50/97] fix: restricted VAR models can be estimated

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 8184720..a15b2c3 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -220,7 +220,7 @@ VarmaStorage::VarmaStorage(bool keepDetails, bool isRestricted,
 
   // maximum likelihood
   Ti mlW = 0;
-  if (sizes.HasMa) {
+  if (sizes.HasMa || isRestricted) {
     auto derv = Derivative(q, true,
                            calculateVarCoefs); // TODO: add 'count' as an option
     LimitedMemoryBfgsbOptions opop;
-- 
2.43.0


From b7fda4fd8d5c102b4eaccac5a4de9a65cf74676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 51/97] fix: log-likelihood of VARMA models uses the estimated
 variance

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index eaa2451..3762850 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -558,8 +558,12 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     Result.gamma.CopyTo00(Result.coef);
 
   if (mDoDetails) {
-    // logarithm Likelihood
-    CalculateGoodness(*this, T, g, f, Result.Optim.FunctionValue);
+    // logarithm Likelihood (use the estimated variance; the optimized function
+    // has a different divisor)
+    auto copsigma2 = std::make_unique<Tv[]>(Result.sigma2.length());
+    auto mcopsigma2 = Matrix<Tv>(copsigma2.get(), g, g);
+    Result.sigma2.CopyTo(mcopsigma2);
+    CalculateGoodness(*this, T, g, f, std::log(mcopsigma2.Det_pd0()) * n);
     SetDetails(*this, R);
   }
 }
-- 
2.43.0


From b3ccf24a42b72c9b4aaa66e482fb62d1322099bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 52/97] fix: a singular Hessian of a VARMA model is reported

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index 3762850..81ba5c7 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -539,7 +539,8 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     derv.CalculateSecond(fun, Result.gamma, Result.gammavar.Data,
                          derv_work); // note that in this case you should
                                      // have asked for second derivative
-    Result.gammavar.Inv0();
+    if (Result.gammavar.Inv0() != 0)
+      throw LdtException(ErrorType::kLogic, "varma", "matrix singularity");
     Result.gammavar.Multiply_in(2);
   }
 
-- 
2.43.0


From 2b3fc0a11ce4d630694948b6f717ef8fcffb1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 53/97] fix: variances of the previous estimates are kept when
 the sample changes

---
 .../modeling/time_series/varma/varma_sizes.cpp              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index a15b2c3..41538e7 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -248,6 +248,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
 
   gamma.SetData(&storage[pos], q, 1);
   pos += gamma.length();
+  // keep it before the matrices that depend on the sample, so that current
+  // estimates are available if 'sampleEnd' changes
+  gammavar.SetData(&storage[pos], q, q);
+  pos += gammavar.length();
   resid.SetData(&storage[pos], g, T);
   pos += resid.length();
   y.SetData(&storage[pos], g, T);
@@ -256,8 +260,6 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   pos += Xt.length();
   sigma2.SetData(&storage[pos], g, g);
   pos += sigma2.length();
-  gammavar.SetData(&storage[pos], q, q);
-  pos += gammavar.length();
 
   // it is required in forecasting
   coef.SetData(&storage[pos], g, f);
-- 
2.43.0


From e8c67ec5785a47cc4b16027acd79c5b940025795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 54/97] fix: errors before the sample are zero in forecasting

---
 .../modeling/time_series/varma/varma_forecast.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index b3f0a37..a416dcb 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -63,7 +63,7 @@ void xtprime(Matrix<Tv> &xt, const Matrix<Tv> &forecast,
                      // sense of Eviews
     for (auto &l : sizes.MaLags) {
       auto ind = resid_ind + fRow - l;
-      if (ind < resid.ColsCount)
+      if (ind >= 0 && ind < resid.ColsCount)
         xt.SetSub0(sR, 0, resid, 0, ind, forecast.RowsCount, 1);
       sR += forecast.RowsCount;
     }
-- 
2.43.0


From 15d0b0cabf31ba7f0db31ed16ee7f54b0cf12f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 55/97] fix: a sample shorter than the lags is rejected in
 forecasting

---
 .../modeling/time_series/varma/varma_forecast.cpp              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
index a416dcb..06df22e 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp
@@ -89,6 +89,9 @@ void VarmaForecast::Calculate(const Varma &estimate, const Matrix<Tv> *exo,
   Ti resid_ind = sizes.T - estimate.SampleEnd - sizes.ArMax_d;
   StartDiff = resid_ind;
   Ti x_ind = sizes.T - estimate.SampleEnd;
+  if (x_ind < sizes.ArMax)
+    throw LdtException(ErrorType::kLogic, "varma-forecast",
+                       "in forecast, sample must not be shorter than the lags");
   if (exoIsNew)
     x_ind = -sizes.ArMax_d;
   else {
-- 
2.43.0


From a839a9d47e822415d93571d91b1ee01312a1f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 56/97] fix: standard errors are kept when all coefficients are
 significant

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..52a43d7 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -312,6 +312,8 @@ void Sur::estim_search(Ti N, Ti m, Tv *work, Tv sigSearchMaxProb) {
   Ti k0m = k0 * m;
   Ti q = 0, j;
   pR->SetValue(0);
+  for (j = 0; j < k0m; j++) // no restriction, if all coefficients are
+    pR->Set0(j, j, 1);      // significant in the first iteration
   auto sig_inds = std::vector<Ti>();
   Ti cs = k0m;
   for (mSigSearchIter = 0; mSigSearchIter < mSigSearchMaxIter;
-- 
2.43.0


From 9d602194a7d3e4f33e8c64777bc0b94d8ea387f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 57/97] fix: condition number of restricted SUR uses the
 inverted matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 52a43d7..6e5cec5 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -249,7 +249,7 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
   RV_o_xtx.Dot(*pR, gamma_var); // R'[S^-1 o X'X]R
 
-  condition_number = RV_o_xtx.Norm('1');
+  condition_number = gamma_var.Norm('1');
   auto info = gamma_var.Inv0(); // [R'[S^-1 o X'X]R]^{-1}
   if (info != 0) {
     throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
-- 
2.43.0


From 692735011627c6fd6ad20c4763bde4abf83e78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 58/97] fix: a restricted SUR without restrictions is rejected

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 6e5cec5..ddd23d2 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -378,6 +378,9 @@ void Sur::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
   else if (R && (R->RowsCount != km || R->ColsCount > km))
     throw LdtException(ErrorType::kLogic, "sur", "restrictions are not valid");
 
+  if (mIsRestricted && !R)
+    throw LdtException(ErrorType::kLogic, "sur", "restrictions are missing");
+
   pY = &y;
   pX = &x;
   pR = R;
-- 
2.43.0


From 817ad6fb16e4f076128c250f9dcabc66ab3268ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 59/97] fix: a singular residual covariance is reported in
 restricted SUR

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index ddd23d2..404bd76 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -243,7 +243,8 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   auto V_o_xRtz = Matrix<Tv>(&work[q], qStar, (Ti)1);
   q += qStar;
 
-  resid_var.Inv0();             // S^-1
+  if (resid_var.Inv0() != 0)    // S^-1
+    throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
   x.Dot_AtA(xtx);               // X'X: kxk
   resid_var.Kron(xtx, V_o_xtx); // S^-1 o X'X
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
-- 
2.43.0


From 632dc2f6dfb0b300cb7152788baea0a421fc5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 60/97] fix: univariate Nelder-Mead could return a point
 outside its bounds (the penalty vanishes around zero)

---
 src/ldt_math/optimization/nelder_mead.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 592d8cd..0d9cf52 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -224,21 +224,15 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
     if (x0 > x_max)
       x0 = x_max;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      // (a penalty which depends on x vanishes around the origin)
+      return (x > x_max) ? INFINITY : objective(x);
     };
   } else if (std::isnan(x_max)) {
     if (x0 < x_min)
       x0 = x_min;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      // (a penalty which depends on x vanishes around the origin)
+      return (x < x_min) ? INFINITY : objective(x);
     };
   } else {
     if (x0 < x_min)
@@ -246,11 +240,8 @@ NelderMead::Minimize1(const std::function<Tv(const Tv &)> &objective, Tv x0,
     if (x0 > x_max)
       x0 = x_max;
     f = [&](Tv x) {
-      Tv P = 0.0;
-      if (x > x_max || x < x_min) {
-        P = 1e5 * std::pow(x, 2);
-      }
-      return objective(x) + P;
+      // (a penalty which depends on x vanishes around the origin)
+      return (x > x_max || x < x_min) ? INFINITY : objective(x);
     };
   }
 
-- 
2.43.0


From 17814ac6581823939f4085b1d84e228c005cfd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 61/97] fix: Newton without line search kept using the gradient
 of the starting point

---
 src/ldt_math/optimization/newton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..b9130af 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -145,6 +145,7 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
-- 
2.43.0


From e1adc13fd0930724ecd787890d3b0225212e9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 62/97] fix: condition number of an ordered discrete choice
 model was never calculated

---
 src/ldt_statistics/modeling/discrete/discrete_choice.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
index 113cb28..5870903 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
@@ -1048,7 +1048,9 @@ void DiscreteChoice<modelType, distType>::EstimateOrdered(const Matrix<Tv> &y,
   hfun(this->Beta, this->BetaVar); // hessian gets destroyed in optimization
   auto ipiv = std::make_unique<int[]>(k);
   Hi.Restructure0(k, k);
+  this->condition_number = this->BetaVar.Norm('1'); // condition number
   this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  this->condition_number *= this->BetaVar.Norm('1');
 
   this->LogL = -this->Optim.FunctionValue;
   calculate_goodness(*this);
-- 
2.43.0


From 5c29ab3f0c0f8fbecda9fa94a8d216e6d61579d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 63/97] fix: projections of a discrete choice model used the
 number of rows before removing missing values

---
 .../modeling/discrete/discrete_choice_extended.cpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..cd4491a 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -84,7 +84,6 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
   // if (PredProbs && !xForecast)
 
   Ti numForecast = xForecast ? xForecast->RowsCount : 0;
-  Ti numObs = data.RowsCount;
   Ti numExo = data.ColsCount - (mHasWeight ? 2 : 1);
 
   auto temp = DiscreteChoiceExtended(
@@ -149,8 +148,8 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
@@ -171,14 +170,14 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
     if (mModelType == DiscreteChoiceModelType::kBinary) {
       if (aucOptions.Costs.Data) {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, true>>(numObs);
+          auc0 = std::make_unique<ROC<true, true>>(count);
         else
-          auc0 = std::make_unique<ROC<false, true>>(numObs);
+          auc0 = std::make_unique<ROC<false, true>>(count);
       } else {
         if (mHasWeight && mWeightedEval)
-          auc0 = std::make_unique<ROC<true, false>>(numObs);
+          auc0 = std::make_unique<ROC<true, false>>(count);
         else
-          auc0 = std::make_unique<ROC<false, false>>(numObs);
+          auc0 = std::make_unique<ROC<false, false>>(count);
       }
     } else {
       throw LdtException(ErrorType::kLogic, "dc-extended",
-- 
2.43.0


From e62175b27ec27acdacc9a064d2a622089a50c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 64/97] fix: Brier score of a discrete choice simulation was
 that of the last simulation and ignored the 'weightedEval' option

---
 .../modeling/discrete/discrete_choice_sim.cpp         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..0aefc59 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -165,6 +165,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = 0;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -251,20 +252,19 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     }
 
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, brier = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
         i++;
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          wi = mWeightedEval ? w1.Data[i] : 1;
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += brier / sum; // sum
     }
 
     if (costCount > 0) {
@@ -331,6 +331,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From 893826266eff7e16ea01567477866453a7a9052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 65/97] fix: discrete choice simulation rejected Brier score as
 the only goal and accepted a train sample larger than the data

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 0aefc59..06527c8 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
@@ -54,7 +55,7 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
   Ti N0 = trainFixSize > 0
               ? trainFixSize
               : static_cast<Ti>(std::round(rows * trainPercentage));
-  if (N0 == 0 || N0 == rows)
+  if (N0 <= 0 || N0 >= rows)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "training percentage is not valid");
   this->N1 = rows - N0;
-- 
2.43.0


From e16afecdb1c175d065f0c70e17e8788ed85417a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 66/97] fix: discrete choice simulation used a stale sample
 size when the data has fewer rows than the given maximum

---
 .../modeling/discrete/discrete_choice_sim.cpp             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 06527c8..e87abc2 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -112,7 +112,13 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  // the number of rows might be less than the size given in the constructor
+  Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
+                            : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
-- 
2.43.0


From 13476c7258cfddb6ef7a7abdec13421f93b26b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 67/97] fix: SUR model set failed when a group starts with the
 first non-target variable

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..776a4cb 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -7,6 +7,8 @@
 #include "clustering.h"
 #include "sur.h"
 
+#include <algorithm>
+
 using namespace ldt;
 
 // #pragma region Searcher
@@ -214,7 +216,9 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (std::none_of(e.begin(), e.end(), [&items](Ti a) {
+            return a < items.LengthTargets;
+          }))
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From 0af19611383ded73e7526cc0ae769045a102d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 68/97] fix: SUR search used the Box-Cox parameters of the
 first variables instead of those of the model

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 776a4cb..9f2c485 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -96,6 +96,12 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     return "";
 
   if (Model.WorkSize > 0) { // otherwise, not initialized
+    // Box-Cox parameters of the endogenous variables of this model
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &a : this->InnerIndices)
+        lambdas.push_back(this->pData->Lambdas.at(a));
+
     Model.Calculate(
         Data.Result, InnerIndices.size(), &work[s],
         &work[s + Model.StorageSize], SigSearchMaxIter > 0 ? &R : nullptr,
@@ -103,7 +109,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
-- 
2.43.0


From 7e5238d2cba57487154bf877d49470ae0fcfb3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 69/97] fix: discrete choice search gave the simulation an
 integer work array that is too short

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..e8d6cb7 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,7 +177,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
+                    &work[s + Model.StorageSize], workI,
                     this->pOptions->RequestCancel, *pAucOptions,
                     this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
                     nullptr, INT32_MAX);
-- 
2.43.0


From 753231e2ae6376644ca61d382d43601ea820bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 70/97] fix: discrete choice search ignored the minimum number
 of valid simulations

---
 .../modeling/discrete/discrete_choice_modelset.cpp           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index e8d6cb7..6c2f676 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -178,9 +178,8 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
                     &work[s + Model.StorageSize], workI,
-                    this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    this->pOptions->RequestCancel, *pAucOptions, true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From bc569e0032b2ff3ab804ba2bfd6d01735a817ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 71/97] fix: discrete choice search skipped Brier, AUC and
 frequency cost (and its checks) when it is the first metric

---
 .../modeling/discrete/discrete_choice_modelset.cpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 6c2f676..36ed395 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -198,13 +198,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -223,7 +223,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -234,7 +234,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -416,9 +416,9 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
+  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >=
                  0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) >= 0) {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From 051965bb8097dfe28df755f8eed42b3ec5abc7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 72/97] fix: in-sample metrics of a discrete choice search used
 the number of rows before removing missing values

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 36ed395..a26f2e6 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -200,7 +200,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices); // no missing data
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From 8ec5b436f8ef332e94f5ae41486d5e68bf983233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 73/97] fix: degrees of freedom in discrete choice search
 subtracted the thresholds wrongly

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index a26f2e6..ab491fa 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -139,7 +139,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - num_exo - (this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 88295119ade9bf99f3ff961a21320bab8ebbb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 74/97] fix: the dependent variable is rejected as a regressor
 in discrete choice search

---
 .../modeling/discrete/discrete_choice_modelset.cpp           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index ab491fa..154f30c 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -402,9 +402,10 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
             ErrorType::kLogic, "dc-modelset",
             "invalid exogenous group element (it is larger than the number "
             "of available variables)");
-      if (a < 0)
+      if (a <= 0)
         throw LdtException(ErrorType::kLogic, "dc-modelset",
-                           "invalid exogenous group element (it is negative)");
+                           "invalid exogenous group element (it is less than "
+                           "the index of the first exogenous variable)");
     }
   }
 
-- 
2.43.0


From c85d0a91e1c9d7b26e655c732c2fd0fda9a0411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:04 +0000
Subject: [PATCH 75/97] fix: VARMA search compared predictions with their
 bounds at the horizons of the simulations

---
 .../modeling/time_series/varma/varma_modelset.cpp             | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..4012038 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -182,9 +182,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         for (auto &t : this->CurrentIndices.Vec) { // is it a target?
           i++;
           if (t < this->pItems->LengthTargets) {
-            Ti j = -1;
-            for (auto &h : this->pMetrics->Horizons) {
-              j++;
+            for (Ti h = 1; h <= mMaxHorizonCheck; h++) {
 
               if (this->pOptions->RequestCancel)
                 return "";
-- 
2.43.0


From 42abcf2bdd8f6689aa5039b1ec2a9bdd30f8655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:04 +0000
Subject: [PATCH 76/97] fix: VARMA search used the Box-Cox parameters of the
 first variables instead of those of the model

---
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 4012038..5ab927d 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -221,6 +221,12 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (this->pOptions->RequestCancel)
       return "";
 
+    // Box-Cox parameters of the endogenous variables of this model
+    std::vector<Tv> lambdas;
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &a : this->CurrentIndices.Vec)
+        lambdas.push_back(this->pData->Lambdas.at(a));
+
     Model.Calculate(
         S_s, W, Y, this->pOptions->RequestCancel, num_exo > 0 ? &X : nullptr,
         Restriction.IsRestricted ? &R : nullptr, nullptr, UsePreviousEstim,
@@ -228,7 +234,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From 932ad3895d6ffce5d975a467e9183fff4a285417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:04 +0000
Subject: [PATCH 77/97] fix: work arrays of a VARMA search were too short if a
 variable has later observations than the first one

---
 .../modeling/time_series/varma/varma_modelset.cpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 5ab927d..5d50d65 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -350,9 +350,11 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   if (ExoIndexes.size() == 0)
     ExoIndexes.resize(1); // add empty for loop
 
-  auto T = source.Ranges.at(0).EndIndex +
-           1; // The first target determines the number of observations
-              // (this is required for out-of-sample exogenous data)
+  // The endogenous variable with the latest observation determines the number
+  // of observations (there might be out-of-sample exogenous data)
+  Ti T = 0;
+  for (Ti i = 0; i < items.LengthEndogenous; i++)
+    T = std::max(T, source.Ranges.at(i).EndIndex + 1);
 
   for (auto const &s : combinations.Sizes) {
     if (s <= 0)
-- 
2.43.0


From eaabd4cee335b1291faee1bd19e62cba07a2026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:04 +0000
Subject: [PATCH 78/97] fix: an exogenous variable is rejected as an endogenous
 one in VARMA search

---
 .../modeling/time_series/varma/varma_modelset.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 5d50d65..d439e6c 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -327,7 +327,7 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   // check group indexes and create sizes array
   for (auto const &b : combinations.Partitions) {
     for (auto &a : b) {
-      if (a > items.LengthEndogenous)
+      if (a >= items.LengthEndogenous)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "invalid endogenous group element (it is larger "
                            "than the number "
-- 
2.43.0


From 465a2331b49993cd09ae7ad26eb12dd9f52d4d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:24 +0000
Subject: [PATCH 79/97] fix: the support of a discrete mixture was wrong if all
 its values are negative

---
 src/ldt_statistics/distributions/mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/mixture.cpp b/src/ldt_statistics/distributions/mixture.cpp
index 007df17..e9c4d71 100644
--- a/src/ldt_statistics/distributions/mixture.cpp
+++ b/src/ldt_statistics/distributions/mixture.cpp
@@ -259,7 +259,7 @@ Ti DistributionMixture::GetPmfSupportSize(Tv &min, Tv &max) {
   // for (Ti i = 0; i < pDistributions->size(); i++)
   //	pDistributions->at(i)->GetPmfSupportIncrement();
   Tv min0 = std::numeric_limits<Tv>::max();
-  Tv max0 = std::numeric_limits<Tv>::min();
+  Tv max0 = std::numeric_limits<Tv>::lowest();
   Ti siz = (Ti)pDistributions->size();
   for (Ti i = 0; i < siz; i++) {
     min0 = std::fmin(min0, pDistributions->at(i)->GetMinimum());
-- 
2.43.0


From 490dfd3de69c69c9099c0213ffeed24af19f068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:02 +0000
Subject: [PATCH 80/97] fix: some quantiles of an empirical distribution were
 interpolated from the wrong interval because of rounding

---
 src/ldt_statistics/distributions/empirical103.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 4298391..032c950 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -103,8 +103,9 @@ Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
       d = 0.99;
       h = 0.999 - 0.99;
     } else {                         // e.g. p=0.244   =>    0.24<p<0.25
-      d = std::floor(p * 100) / 100; // floor
-      i = (Ti)(d * 100) + 1;
+      auto k = std::floor(p * 100); // floor
+      d = k / 100;
+      i = (Ti)k + 1;
       h = 0.01;
     }
     shift = (p - d) * (Quantiles[i + 1] - Quantiles[i]) / h;
-- 
2.43.0


From f86ad8b56f8b66eef8fdb6c5d3f54f0120dbe33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:02 +0000
Subject: [PATCH 81/97] fix: the distribution function of an empirical
 distribution was decreasing in the tails

---
 src/ldt_statistics/distributions/empirical103.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/empirical103.cpp b/src/ldt_statistics/distributions/empirical103.cpp
index 032c950..140c742 100644
--- a/src/ldt_statistics/distributions/empirical103.cpp
+++ b/src/ldt_statistics/distributions/empirical103.cpp
@@ -25,10 +25,10 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
   // deal with tails
   if (x <= Quantiles[0]) { // calculate last change and use it
     shift =
-        (x - Quantiles[0]) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
+        (Quantiles[0] - x) * (0.001 - 0.0001) / (Quantiles[1] - Quantiles[0]);
     y = 0.0001;
   } else if (x >= Quantiles[102]) {
-    shift = (x - Quantiles[102]) * (0.9999 - 0.999) /
+    shift = (Quantiles[102] - x) * (0.9999 - 0.999) /
             (Quantiles[102] - Quantiles[101]);
     y = 0.9999;
   }
@@ -61,7 +61,7 @@ Tv DistributionEmpirical103::GetCDFApprox(Tv x) const {
     shift = (d - x) * h / (Quantiles[i] - Quantiles[i - 1]);
   }
   Tv res = y - shift;
-  return res;
+  return std::min((Tv)1, std::max((Tv)0, res));
 }
 
 Tv DistributionEmpirical103::GetQuantileApprox(Tv p) const {
-- 
2.43.0


From f642ee6e8dd6a7e770c00399a7808f04c842a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 82/97] fix: the maximum of a distribution was reported as its
 minimum

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4172310..95f1e7d 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -186,7 +186,7 @@ Tv DistributionBase::GetProperty(DistributionProperty propType) {
   case ldt::DistributionProperty::kMinimum:
     return GetMinimum();
   case ldt::DistributionProperty::kMaximum:
-    return GetMinimum();
+    return GetMaximum();
   case ldt::DistributionProperty::kMedian:
     return GetMedian();
   case ldt::DistributionProperty::kMode:
-- 
2.43.0


From 3a60ffe73f1bfcdd73bbfe6b131c6ea72ad6c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 83/97] fix: standard deviation of a log-normal distribution is
 the root of its variance

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 95f1e7d..74e0b1c 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -468,8 +468,6 @@ template <DistributionType type> Tv Distribution<type>::GetVariance() {
 template <DistributionType type> Tv Distribution<type>::GetSandardDeviation() {
   if constexpr (type == DistributionType::kNormal) {
     return mParam2;
-  } else if constexpr (type == DistributionType::kLogNormal) {
-    return (Tv)1 / mParam1;
   } else if constexpr (true) {
     return (Tv)std::sqrt(GetVariance());
   }
-- 
2.43.0


From 95cee3cea334ef683fd685c435e457b19e9efa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 84/97] fix: logarithm of the exponential density at zero is
 that of its rate

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 74e0b1c..3a97194 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -962,16 +962,6 @@ template <DistributionType type> Tv Distribution<type>::GetPdfOrPmfLog(Tv x) {
     return -x / (Tv)2 + (dof2 - 1) * std::log(x) - dof2 * std::log(2) -
            std::lgamma(dof2);
   } else if constexpr (type == DistributionType::kExponential) {
-    if (x == 0) {
-      if constexpr (std::numeric_limits<Tv>::has_infinity) {
-        return -std::numeric_limits<Tv>::infinity();
-      } else if constexpr (true) {
-        throw LdtException(
-            ErrorType::kLogic, "distributions",
-            "type requires infinity but it is missing"); // kT must have
-                                                         // infinity
-      }
-    }
     return std::log(mParam1) - (mParam1 * x);
   } else if constexpr (type == DistributionType::kGamma) {
     return (-mParam1 * std::log(mParam2)) + ((mParam1 - 1) * std::log(x)) -
-- 
2.43.0


From 53e43ae57f6e9ea82ae3bb0fbe79af41101719b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 85/97] fix: distribution function of a Bernoulli distribution
 at zero

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 3a97194..1036b69 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1061,7 +1061,7 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   } else if constexpr (type == DistributionType::kGeometric) {
     return (Tv)1 - std::pow(1 - mParam1, x + 1);
   } else if constexpr (type == DistributionType::kBernoulli) {
-    return x == (Tv)0 ? (Tv)0 : x == 1 ? 1 : 1 - mParam1;
+    return x < (Tv)1 ? 1 - mParam1 : (Tv)1;
   } else if constexpr (type == DistributionType::kBinomial) {
     // using kF
     auto d1 = (Tv)2 * (mParam2 - x);
-- 
2.43.0


From 2e0de71c7250be5d102861fcd6aeb28d892be98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 86/97] fix: distribution functions of discrete distributions
 are constant between their values

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 1036b69..09d85f3 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1030,6 +1030,10 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
     return (Tv)1;
   if (std::isinf(x) && x < (Tv)0)
     return (Tv)0;
+  if constexpr (type == DistributionType::kPoisson ||
+                type == DistributionType::kGeometric ||
+                type == DistributionType::kBinomial)
+    x = std::floor(x);
 
   if constexpr (type == DistributionType::kNormal) {
     return 0.5 * erfc((mParam1 - x) / (mParam2 * c_sqrt2));
-- 
2.43.0


From 00a9a36f552a6b88adf27337dc218b77dff72121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 87/97] fix: distribution function of a binomial distribution
 for the largest value and zero probability

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 09d85f3..d5016e0 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1067,12 +1067,9 @@ template <DistributionType type> Tv Distribution<type>::GetCdf(Tv x) {
   } else if constexpr (type == DistributionType::kBernoulli) {
     return x < (Tv)1 ? 1 - mParam1 : (Tv)1;
   } else if constexpr (type == DistributionType::kBinomial) {
-    // using kF
-    auto d1 = (Tv)2 * (mParam2 - x);
-    auto d2 = (Tv)2 * (x + 1);
-    auto xx = ((1 - mParam1) / mParam1) * ((x + 1) / (mParam2 - x));
-    return Math_iBeta(d1 / (Tv)2, d2 / (Tv)2,
-                      d1 * xx / (d1 * xx + d2)); // todo: simplify
+    if (x >= mParam2)
+      return (Tv)1;
+    return Math_iBeta(mParam2 - x, x + 1, 1 - mParam1);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "distributions",
                        "not implemented (distribution type)");
-- 
2.43.0


From 9a7be0fa338ce94f5f3e9637bda3ab336ef5b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 88/97] fix: quantile of a discrete uniform distribution is the
 smallest value with enough probability

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index d5016e0..4efcc0a 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1125,8 +1125,8 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
   } else if constexpr (type == DistributionType::kGldFkml) {
     return DistributionGld::GetQuantile(p, mParam1, mParam2, mParam3, mParam4);
   } else if constexpr (type == DistributionType::kUniformDis) {
-    Tv d = mParam1 + p * (mParam2 - mParam1);
-    return std::floor(d);
+    Tv d = std::floor(mParam1 + p * (mParam2 - mParam1));
+    return GetCdf(d) < p ? d + 1 : d;
   } else if constexpr (type == DistributionType::kPoisson ||
                        type == DistributionType::kGeometric ||
                        type == DistributionType::kBernoulli ||
-- 
2.43.0


From 13b8ae6bbdd0a2433ffa93c1d937fd996cf982ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 89/97] fix: discrete quantiles missed a value that has exactly
 the probability, and started from a wrong point

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 4efcc0a..7656eb9 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -1135,13 +1135,13 @@ template <DistributionType type> Tv Distribution<type>::GetQuantile(Tv p) {
     //
     auto tryN = 100;
     auto m = GetMean();
-    auto sd = GetVariance();
+    auto sd = GetSandardDeviation();
     auto norm = Distribution<DistributionType::kNormal>(m, sd);
     auto q = std::min(GetMaximum(),
                       std::max(GetMinimum(), std::floor(norm.GetQuantile(p))));
 
     auto c0 = GetCdf(q);
-    if (c0 > p) {
+    if (c0 >= p) {
       // decrease value of q until cdf is smaller
       for (int i = 0; i < tryN; i++) {
         q--;
-- 
2.43.0


From 0c0ad5f52d123b8a1354ff353096876e3a1f548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:02 +0000
Subject: [PATCH 90/97] fix: mode of a beta distribution with a second shape
 parameter below one

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 7656eb9..b0a04f5 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -750,10 +750,8 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
       return 0.5; // any value in (0,1))
     if (mParam1 <= (Tv)1 && mParam2 > (Tv)0)
       return 0;
-    if (mParam1 > (Tv)1 && mParam2 <= (Tv)0)
+    if (mParam2 <= (Tv)1)
       return (Tv)1;
-    if (mParam1 < 1 && mParam2 < 0)
-      return (Tv)1; // or 0
     return (mParam1 - 1) / (mParam1 + mParam2 - (Tv)2);
   } else if constexpr (type == DistributionType::kUniformDis) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
-- 
2.43.0


From 91f7f78c2bd27d2eae05c94e19a2f87ad0fbe743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:46 +0000
Subject: [PATCH 91/97] fix: approximate medians of Chi2 and Poisson
 distributions could be negative

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index b0a04f5..2ef929e 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -650,7 +650,8 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kT) {
     return (Tv)0;
   } else if constexpr (type == DistributionType::kChi2) {
-    return mParam1 * std::pow(1 - (Tv)2 / (9 * mParam1), (Tv)3);
+    return std::max((Tv)0,
+                    mParam1 * std::pow(1 - (Tv)2 / (9 * mParam1), (Tv)3));
   } else if constexpr (type == DistributionType::kUniformCon) {
     return (mParam1 + mParam2) / 2;
   } else if constexpr (type == DistributionType::kExponential) {
@@ -679,8 +680,9 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
   } else if constexpr (type == DistributionType::kUniformDis) {
     return (mParam1 + mParam2) / (Tv)2;
   } else if constexpr (type == DistributionType::kPoisson) {
-    return std::floor(mParam1 + (Tv)1 / 3 -
-                      ((Tv)0.02 / mParam1)); // see wikipedia
+    return std::max((Tv)0,
+                    std::floor(mParam1 + (Tv)1 / 3 -
+                               ((Tv)0.02 / mParam1))); // see wikipedia
   } else if constexpr (type == DistributionType::kGeometric) {
     if (mParam1 == 0) {
       if constexpr (std::numeric_limits<Tv>::has_infinity) {
-- 
2.43.0


From 68f45184dfce77f4daa8b262e3c545aa7e4f7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:46 +0000
Subject: [PATCH 92/97] fix: median of a geometric distribution that always
 succeeds is zero

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index 2ef929e..d55738e 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -694,7 +694,7 @@ template <DistributionType type> Tv Distribution<type>::GetMedian() {
                                                          // infinity
       }
     } else if (mParam1 == (Tv)1) {
-      return 1;
+      return 0;
     } else {
       return std::ceil(-c_ln2 / std::log(1 - mParam1)) - (Tv)1;
     }
-- 
2.43.0


From 0ee4af7ebcf43f791224180f60bb5b9ec4bfb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:46 +0000
Subject: [PATCH 93/97] fix: mode of a binomial distribution that always
 succeeds is the number of trials

---
 src/ldt_statistics/distributions/distributions_uni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/distributions_uni.cpp b/src/ldt_statistics/distributions/distributions_uni.cpp
index d55738e..a825e70 100644
--- a/src/ldt_statistics/distributions/distributions_uni.cpp
+++ b/src/ldt_statistics/distributions/distributions_uni.cpp
@@ -771,7 +771,7 @@ template <DistributionType type> Tv Distribution<type>::GetMode() {
            : mParam1 > 0.5   ? (Tv)1
                              : (Tv)0; // for 0.5, 1 is also mode
   } else if constexpr (type == DistributionType::kBinomial) {
-    return std::floor((mParam2 + 1) * mParam1);
+    return std::min(mParam2, std::floor((mParam2 + 1) * mParam1));
   } else if constexpr (true) {
     if constexpr (std::numeric_limits<Tv>::has_quiet_NaN) {
       return std::numeric_limits<Tv>::quiet_NaN();
-- 
2.43.0


From 6c8517847a592fb0100e3f31ab3e1bda2dc0a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:30 +0000
Subject: [PATCH 94/97] fix: values on an edge of a histogram were counted in
 the wrong interval

---
 .../distributions/histogram.cpp               | 35 ++++++-------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 3c62f94..ba75aac 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -23,33 +23,18 @@ void fill(Matrix<Tv> *sorteddata, Matrix<Tv> *axis, Matrix<Ti> *storageCount) {
 
   for (i = 0; i < m; i++) {
     d = sorteddata->Data[i];
-    if (i == m - 1) { // the last one
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d <= a) { //  <= for the last one
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
+    added = false;
+    for (p = j; p < n; p++) {
+      a = axis->Data[p];
+      if (d < a || (d == a && p == n - 1 && n > 1)) { // last interval: [,]
+        storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
+        j = p; // don't check others
+        added = true;
+        break;
       }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
-    } else {
-      added = false;
-      for (p = j; p < n; p++) {
-        a = axis->Data[p];
-        if (d < a) {
-          storageCount->Data[p] = storageCount->Data[p] + 1; // use ++
-          j = p; // don't check others
-          added = true;
-          break;
-        }
-      }
-      if (added == false)
-        storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
     }
+    if (added == false)
+      storageCount->Data[n] = storageCount->Data[n] + 1; // use ++
   }
 }
 
-- 
2.43.0


From 6480c57529b5fc6fc7dd0e2d73d7af439e003010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:30 +0000
Subject: [PATCH 95/97] fix: a histogram with one interval counted the values
 outside its range

---
 .../distributions/histogram.cpp               | 45 ++++++++-----------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index ba75aac..5bbf2ae 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -106,39 +106,30 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
     return bincount + 1; // size
   }
 
-  if (bincount == 1) {
-    storageAxis->Data[0] = min;
-    storageAxis->Data[1] = max;
-    storageCount->Data[0] = 0;
-    storageCount->Data[1] = L;
-    storageCount->Data[2] = 0;
-  } else {
-
-    if (std::isnan(step)) {
-      if (bincount == 0)
-        throw LdtException(ErrorType::kLogic, "histogram",
-                           "bincount is zero for histogram");
-      step = (max - min) / bincount;
-    } else if (step == 0.0)
-      throw LdtException(ErrorType::kLogic, "histogram",
-                         "step is zero for histogram");
-    else
-      bincount = storageAxis->length() - 1;
-
+  if (std::isnan(step)) {
     if (bincount == 0)
       throw LdtException(ErrorType::kLogic, "histogram",
                          "bincount is zero for histogram");
+    step = (max - min) / bincount;
+  } else if (step == 0.0)
+    throw LdtException(ErrorType::kLogic, "histogram",
+                       "step is zero for histogram");
+  else
+    bincount = storageAxis->length() - 1;
 
-    for (Ti i = 0; i < bincount; i++) {      // axis size is bincount+1
-      storageAxis->Data[i] = min + i * step; // don't increment
-    }
-    storageAxis->Data[bincount] =
-        min + bincount * step +
-        DBL_EPSILON; // we treat the last obs differently, or obs might consider
-                     // overflow due to double error
+  if (bincount == 0)
+    throw LdtException(ErrorType::kLogic, "histogram",
+                       "bincount is zero for histogram");
 
-    fill(data, storageAxis, storageCount);
+  for (Ti i = 0; i < bincount; i++) {      // axis size is bincount+1
+    storageAxis->Data[i] = min + i * step; // don't increment
   }
+  storageAxis->Data[bincount] =
+      min + bincount * step +
+      DBL_EPSILON; // we treat the last obs differently, or obs might consider
+                   // overflow due to double error
+
+  fill(data, storageAxis, storageCount);
   return L;
 }
 
-- 
2.43.0


From 09739eb8a840321417ca470543c542a42eeef3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:30 +0000
Subject: [PATCH 96/97] fix: the number of intervals of a histogram was zero or
 negative

---
 src/ldt_statistics/distributions/histogram.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index 5bbf2ae..d05f6bd 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -88,12 +88,12 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
                            "data is 'NAN' or contains 'NaN'"); // nan found
 
       if (std::isnan(step)) {
-        if (bincount == 0)
-          bincount = static_cast<Ti>(
+        if (bincount <= 0)
+          bincount = std::max(1, static_cast<Ti>(
               ((max - min) < DBL_EPSILON)
                   ? 1
                   : (std::pow(L, 1.0 / 3.0) * (max - min) /
-                     (2.0 * iqr))); // I use the relative min,max not the
+                     (2.0 * iqr)))); // I use the relative min,max not the
                                     // absolute ones
       } else                        // get bincount from given 'step'
         bincount = static_cast<Ti>(std::ceil((max - min) / step));
-- 
2.43.0


From 58b5394b7bf80c22d77cfc607e6246a6599fd7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:24 +0000
Subject: [PATCH 97/97] fix: rounding moved the largest value of a histogram
 outside its range

---
 src/ldt_statistics/distributions/histogram.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/distributions/histogram.cpp b/src/ldt_statistics/distributions/histogram.cpp
index d05f6bd..0d31026 100644
--- a/src/ldt_statistics/distributions/histogram.cpp
+++ b/src/ldt_statistics/distributions/histogram.cpp
@@ -106,7 +106,9 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
     return bincount + 1; // size
   }
 
+  Tv last = NAN;
   if (std::isnan(step)) {
+    last = max; // 'min + bincount * step' might be smaller due to rounding
     if (bincount == 0)
       throw LdtException(ErrorType::kLogic, "histogram",
                          "bincount is zero for histogram");
@@ -125,7 +127,7 @@ Ti Histogram::Compute(bool forsize, Matrix<Tv> *data, Matrix<Tv> *storageAxis,
     storageAxis->Data[i] = min + i * step; // don't increment
   }
   storageAxis->Data[bincount] =
-      min + bincount * step +
+      (std::isnan(last) ? min + bincount * step : last) +
       DBL_EPSILON; // we treat the last obs differently, or obs might consider
                    // overflow due to double error
 
-- 
2.43.0

