From 6fb01e402174980fb33af3d85c3356e62d0d6bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:55 +0000
Subject: [PATCH 001/120] fix: century leap-day correction in date construction
 is a floor per century (dates from March 2034 were one day early)

---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 7574a15cb8ca76d30032448a122dfebe7fe57d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:55 +0000
Subject: [PATCH 002/120] fix: time of day read back from a date-time loses a
 second, minute or millisecond to rounding

---
 dal/time/datetime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..6313ae5 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // a whole second stored as a fraction can come out a rounding error short of it
+            const auto secs = std::min(static_cast<int>(86400 * frac + 1e-6), 86399);
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, secs / 60 % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
@@ -83,7 +85,7 @@ namespace Dal {
 
         long long MSec(const DateTime_& dt) {
             long long days = dt.Date() - Date::Minimum();
-            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000);
+            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000 + 1e-3);
         }
     } // namespace DateTime
 } // namespace Dal
-- 
2.43.0


From 9ec691d58ff8c0caa4add801c21c747af6333867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:37 +0000
Subject: [PATCH 003/120] fix: reading a date text that names no calendar date
 silently returned another date

---
 dal/time/dateutils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index 3fc408f..f7b84e2 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -12,6 +12,14 @@
 namespace {
     const std::regex US_FORMAT("([0-9]+)/([0-9]+)/([0-9]+)");
     const std::regex YMD_FORMAT("([0-9]+)-([0-9]+)-([0-9]+)");
+
+    Dal::Date_ CheckedDate(int yy, int mm, int dd) {
+        REQUIRE(yy >= 1900 && yy <= 2200 && mm >= 1 && mm <= 12 && dd >= 1 && dd <= 31, "Date out of range");
+        const Dal::Date_ ret_val(yy, mm, dd);
+        REQUIRE(ret_val.IsValid() && Dal::Date::Year(ret_val) == yy && Dal::Date::Month(ret_val) == mm && Dal::Date::Day(ret_val) == dd,
+                "No such date");
+        return ret_val;
+    }
 } // namespace
 
 namespace Dal {
@@ -27,13 +35,13 @@ namespace Dal {
             const int mm = String::ToInt(String_(match.str(1)));
             const int dd = String::ToInt(String_(match.str(2)));
             const int yy = String::ToInt(String_(match.str(3))) + (match.str(3).size() == 2 ? 2000 : 0);
-            return Date_(yy, mm, dd);
+            return CheckedDate(yy, mm, dd);
         }
         if (std::regex_match(src, match, YMD_FORMAT)) {
             const int yyyy = String::ToInt(String_(match.str(1)));
             const int mm = String::ToInt(String_(match.str(2)));
             const int dd = String::ToInt(String_(match.str(3)));
-            return Date_(yyyy, mm, dd);
+            return CheckedDate(yyyy, mm, dd);
         }
         THROW("Unrecognizable date source");
     }
-- 
2.43.0


From 1a65f8a96581a4b0128e40c1681599489a358265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:45 +0000
Subject: [PATCH 004/120] fix: quarterly IMM and CDS steps from a month outside
 the quarterly cycle returned a date in that month

---
 dal/time/dateincrement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateincrement.cpp b/dal/time/dateincrement.cpp
index 3b75d5d..6f585a1 100644
--- a/dal/time/dateincrement.cpp
+++ b/dal/time/dateincrement.cpp
@@ -59,7 +59,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= 20 : dd <= 20) {
+        if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % 3);
@@ -75,7 +75,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm)) {
+        if (mm % imm_months || (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm))) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % imm_months);
-- 
2.43.0


From a02a7208fb01d18a1cb561f25970f3e6bb347906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:45 +0000
Subject: [PATCH 005/120] fix: schedule generation never ended for a tenor that
 does not advance the date

---
 dal/time/schedules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/time/schedules.cpp b/dal/time/schedules.cpp
index 1f5040c..c425063 100644
--- a/dal/time/schedules.cpp
+++ b/dal/time/schedules.cpp
@@ -26,6 +26,7 @@ namespace Dal {
                 const Date_ pin_date = tenor->FwdFrom(ret_val[ip - 1]);
                 if (pin_date > maturity)
                     break;
+                REQUIRE(pin_date > ret_val.back(), "tenor does not advance the date");
                 ret_val.push_back(pin_date);
             }
             if (maturity != ret_val.back())
@@ -36,6 +37,7 @@ namespace Dal {
                 const Date_ pin_date = tenor->BackFrom(ret_val[ip - 1]);
                 if (pin_date < start)
                     break;
+                REQUIRE(pin_date < ret_val.back(), "tenor does not advance the date");
                 ret_val.push_back(pin_date);
             }
             if (start != ret_val.back())
-- 
2.43.0


From 4ebad583b96ada6ef23be70ab70f47cb9ba9a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:45 +0000
Subject: [PATCH 006/120] fix: ACT/365L with annual coupons never returned when
 the period held a February of 28 days, and missed one ending on 29 February

---
 dal/time/daybasis.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..7c1911a 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -27,10 +27,11 @@ namespace Dal {
             for (;;) {
                 if (mm > 2)
                     ++yy;
-                mm = 2;
-                if (Date_(yy, 3, 1) > to)
+                mm = 3;
+                const auto feb_days = Date::DaysInMonth(yy, 2);
+                if (Date_(yy, 2, feb_days) > to)
                     return 365.0;
-                if (Date::DaysInMonth(yy, 2) == 29)
+                if (feb_days == 29)
                     return 366.0;
             }
         }
-- 
2.43.0


From 95500ef58e0f6817a7f0ffe91a8f103da09ed377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:45 +0000
Subject: [PATCH 007/120] fix: 30/360 US counted day 31 of the start month as
 31

---
 dal/time/daybasis.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 7c1911a..757b4e6 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -58,8 +58,10 @@ namespace Dal {
                     d2 = 30;
                 d1 = 30;
             }
-            if (d1 > 30)
+            if (d1 >= 30) {
+                d1 = 30;
                 d2 = std::min(d1, d2);
+            }
             return (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) / 360.0;
         }
     } // namespace
-- 
2.43.0


From 21ad077674e1439aa0b5a90e2c5ebed99a564a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:06 +0000
Subject: [PATCH 008/120] fix: adding a holiday center raced with other
 additions and with lookups

---
 dal/time/holidaydata.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dal/time/holidaydata.cpp b/dal/time/holidaydata.cpp
index 61e697d..e4630f9 100644
--- a/dal/time/holidaydata.cpp
+++ b/dal/time/holidaydata.cpp
@@ -32,6 +32,8 @@ namespace Dal {
     namespace {
         HolidayData_& TheHolidayData() { RETURN_STATIC(HolidayData_); }
 
+        std::mutex& TheHolidayDataMutex() { RETURN_STATIC(std::mutex); }
+
         HolidayData_ CopyHolidayData() { return TheHolidayData(); }
 
         bool ContainsNoWeekends(const Vector_<Date_>& dates) {
@@ -50,6 +52,7 @@ namespace Dal {
     } // namespace
 
     void Holidays::AddCenter(const String_& city, const Vector_<Date_>& holidays, const Vector_<Date_>& workWeekends) {
+        std::lock_guard<std::mutex> l(TheHolidayDataMutex());
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
         REQUIRE(ContainsNoWeekends(holidays), "Holidays should not contain weekends");
         REQUIRE(ContainsOnlyWeekends(workWeekends), "Can only weekends in special working days");
@@ -62,20 +65,20 @@ namespace Dal {
         temp.centerIndex_[city] = static_cast<int>(temp.holidays_.size());
         temp.holidays_.push_back(Handle_(std::make_shared<const HolidayCenterData_>(city, holidays, workWeekends)));
 
-        static std::mutex mutex;
-        std::lock_guard<std::mutex> l(mutex);
         TheHolidayData().Swap(&temp);
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
     }
 
     int Holidays::CenterIndex(const String_& center) {
         NOTICE(center);
+        std::lock_guard<std::mutex> l(TheHolidayDataMutex());
         auto p = TheHolidayData().centerIndex_.find(center);
         REQUIRE(p != TheHolidayData().centerIndex_.end(), "Invalid holiday center");
         return p->second;
     }
 
     Handle_<HolidayCenterData_> Holidays::OfCenter(int center_index) {
+        std::lock_guard<std::mutex> l(TheHolidayDataMutex());
         REQUIRE(center_index >= 0 && center_index < TheHolidayData().holidays_.size(), "Invalid holiday center index");
         return TheHolidayData().holidays_[center_index];
     }
-- 
2.43.0


From 57ab13255cf451989be605d806c24188fb9181a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:30 +0000
Subject: [PATCH 009/120] fix: thread pool stop flag was read by workers while
 being written (data race)

---
 dal/concurrency/threadpool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/threadpool.hpp b/dal/concurrency/threadpool.hpp
index d783682..ffaa7a4 100644
--- a/dal/concurrency/threadpool.hpp
+++ b/dal/concurrency/threadpool.hpp
@@ -13,6 +13,7 @@
 #pragma once
 
 #include <dal/concurrency/concurrentqueue.hpp>
+#include <atomic>
 #include <future>
 #include <thread>
 
@@ -25,7 +26,7 @@ namespace Dal {
         ConcurrentQueue_<Task_> queue_;
         std::vector<std::thread> threads_;
         bool active_;
-        bool interrupt_;
+        std::atomic<bool> interrupt_;
         static thread_local size_t tlsNum_;
 
         void ThreadFunc(const size_t& num);
-- 
2.43.0


From 08063b1c47caed92e87766f3de81aa6fc83da4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:30 +0000
Subject: [PATCH 010/120] fix: clearing or re-enabling the task queue did not
 take its lock (data race)

---
 dal/concurrency/concurrentqueue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/concurrentqueue.hpp b/dal/concurrency/concurrentqueue.hpp
index 6d4351e..1813b59 100644
--- a/dal/concurrency/concurrentqueue.hpp
+++ b/dal/concurrency/concurrentqueue.hpp
@@ -69,10 +69,14 @@ namespace Dal {
             cv_.notify_all();
         }
 
-        void ResetInterrupt() { interrupt_ = false; }
+        void ResetInterrupt() {
+            std::lock_guard<std::mutex> lk(mutex_);
+            interrupt_ = false;
+        }
 
         void Clear() {
             std::queue<T_> empty;
+            std::lock_guard<std::mutex> lk(mutex_);
             std::swap(queue_, empty);
         }
     };
-- 
2.43.0


From f5a6c38fc5f4f0a59d10ed750b6e19da5492333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 011/120] fix: script parser read past the end of the text
 after a function name, a condition or an incomplete DCF

---
 dal/script/parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..19f8510 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -243,7 +243,7 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
+        while (cur != end && (*cur == ";" || *cur == ":")) {
             const char c = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -254,7 +254,7 @@ namespace Dal::Script {
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
         ++cur;
 
@@ -265,7 +265,6 @@ namespace Dal::Script {
             day_basis += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
@@ -275,7 +274,6 @@ namespace Dal::Script {
             start_date += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
@@ -292,7 +290,7 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
-- 
2.43.0


From 21b0f05eb4db2a2ade053511ea82f98cf6d6281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 012/120] fix: script parser silently dropped tokens left over
 inside parentheses

---
 dal/script/parser.cpp | 1 +
 dal/script/parser.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 19f8510..8197fea 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -283,6 +283,7 @@ namespace Dal::Script {
             end_date += *cur;
             ++cur;
         }
+        REQUIRE2(cur == closeIt, "too many arguments for `DCF`", ScriptError_);
 
         cur = ++closeIt;
         // TODO: we only implement normal day count fraction convention and leave `context` as empty
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..73fb141 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -49,6 +49,7 @@ namespace Dal::Script {
                 // Parse the parentheses condition/expression, including nested parentheses,
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
+                REQUIRE2(cur == closeIt, "unexpected token before closing )", ScriptError_);
 
                 // Advance cur after matching ")"
                 cur = ++closeIt;
-- 
2.43.0


From 7da5c8b7bf84d33c03f5afabce9dbd30fa4e8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 013/120] fix: assigning to a script constant overwrote an
 unrelated variable

---
 dal/script/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 8197fea..e540109 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -346,6 +346,8 @@ namespace Dal::Script {
     Statement_ Parser_::ParseStatement(TokIt_& cur, const TokIt_& end) {
         if (*cur == "IF")
             return ParseIf(cur, end);
+        REQUIRE2(constVariables_.find(*cur) == constVariables_.end(),
+                 String_("constant ") + *cur + " can't be assigned or paid", ScriptError_);
         auto lhs = ParseVar(cur);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
         if (*cur == "=")
-- 
2.43.0


From 1e4866b1993f4e0da0c029864fd3c74e566f21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 014/120] fix: script MIN and MAX ignored their third and later
 arguments

---
 dal/script/parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index e540109..0f0233a 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -112,6 +112,14 @@ namespace Dal::Script {
                 top->arguments_ = ParseFuncArg(cur, end);
                 if (top->arguments_.size() < minArg || top->arguments_.size() > maxArg)
                     THROW2(String_("Function ") + func + String_(": wrong number of arguments_"), ScriptError_);
+                //	MIN and MAX nodes are binary, more arguments are nested
+                if (top->arguments_.size() > 2) {
+                    auto args = std::move(top->arguments_);
+                    auto nested = std::move(args[0]);
+                    for (size_t i = 1; i < args.size(); ++i)
+                        nested = func == "MAX" ? MakeBaseBinary<NodeMax_>(nested, args[i]) : MakeBaseBinary<NodeMin_>(nested, args[i]);
+                    return nested;
+                }
             }
             //	Return
             return top;
-- 
2.43.0


From e6d7ac94d46f35694500d524b4206c45c1b886e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 015/120] fix: deeply nested script statements overran the
 fixed evaluation stacks

---
 dal/script/parser.cpp | 18 +++++++++++++++++-
 dal/script/parser.hpp | 12 ++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 0f0233a..96a7ef1 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -15,6 +15,17 @@ namespace {
             "IF", "END", "THEN", "ELSE", "DCF", "PAYS", "AND", "OR", "SPOT", "MAX", "MIN",
             "LOG", "SQRT", "EXP"
     };
+
+    // Places taken on the stacks of the evaluators, which have a fixed size
+    constexpr size_t MAX_STACK_DEPTH = 100;
+
+    size_t StackDepth(const Dal::Script::Node_& node) {
+        const bool isStatement = dynamic_cast<const Dal::Script::ActNode_*>(&node) != nullptr;
+        size_t depth = 1;
+        for (size_t i = 0; i < node.arguments_.size(); ++i)
+            depth = std::max(depth, (isStatement ? 1 : i) + StackDepth(*node.arguments_[i]));
+        return depth;
+    }
 }
 
 namespace Dal::Script {
@@ -54,6 +65,7 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseExprL4(TokIt_& cur, const TokIt_& end) {
+        Nested_ nested(nesting_);
         if (cur != end && ((*cur)[0] == '+' || (*cur)[0] == '-')) {
             char op = (*cur)[0];
             ++cur;
@@ -211,6 +223,7 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseCondL2(TokIt_& cur, const TokIt_& end) {
+        Nested_ nested(nesting_);
         auto lhs = ParseParentheses<&Parser_::ParseCond, &Parser_::ParseCondElem>(cur, end);
         while (cur != end && *cur == "AND") {
             ++cur;
@@ -352,6 +365,7 @@ namespace Dal::Script {
     }
 
     Statement_ Parser_::ParseStatement(TokIt_& cur, const TokIt_& end) {
+        Nested_ nested(nesting_);
         if (*cur == "IF")
             return ParseIf(cur, end);
         REQUIRE2(constVariables_.find(*cur) == constVariables_.end(),
@@ -376,8 +390,10 @@ namespace Dal::Script {
         Event_ e;
         auto tokens = Tokenize(event);
         Vector_<String_>::const_iterator it = tokens.begin();
-        while (it != tokens.end())
+        while (it != tokens.end()) {
             e.push_back(ParseStatement(it, tokens.end()));
+            REQUIRE2(StackDepth(*e.back()) <= MAX_STACK_DEPTH, "statement is nested too deeply", ScriptError_);
+        }
         return e;
     }
 } // namespace Dal::Script
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 73fb141..12a5729 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -15,6 +15,18 @@ namespace Dal::Script {
         using TokIt_ = Vector_<String_>::const_iterator;
         std::map<String_, double> constVariables_;
 
+        // Level of nested statements, conditions and expressions being parsed
+        static constexpr unsigned MAX_NESTING = 128;
+        unsigned nesting_ = 0;
+        struct Nested_ {
+            unsigned& level_;
+            explicit Nested_(unsigned& level) : level_(level) {
+                REQUIRE2(level_ < MAX_NESTING, "statement is nested too deeply", ScriptError_);
+                ++level_;
+            }
+            ~Nested_() { --level_; }
+        };
+
         // Helpers
 
         // Find matching closing char, for example matching ) for a (, skipping through nested pairs
-- 
2.43.0


From 110faa4569ae12f3d88abd311685b1ccf42fdfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 016/120] fix: every past payment of a script left a value on
 the evaluation stack, which overran it

---
 dal/script/visitor/pastevaluator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..67e6cad 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -22,8 +22,9 @@ namespace Dal::Script {
         using Base::dStack_;
 
         FORCE_INLINE void Visit(const NodePays_& node) {
-            //	Visit the RHS expression
+            //	Visit the RHS expression, the payment itself is in the past
             VisitNode(*node.arguments_[1]);
+            dStack_.Pop();
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From d4b9c7e39581a76c902addde1acd3f4cf28a8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 017/120] fix: script schedule specification read past its
 tokens, needed FIXING last and dereferenced a missing frequency

---
 dal/script/event/schedule.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dal/script/event/schedule.cpp b/dal/script/event/schedule.cpp
index 1317f63..9a1e1b5 100644
--- a/dal/script/event/schedule.cpp
+++ b/dal/script/event/schedule.cpp
@@ -24,16 +24,20 @@ namespace Dal {
             BizDayConvention_ bizRule("Unadjusted");
             bool fixAtEnd = true;
 
-            for (; i < tokens.size() - 2; ++i) {
+            const int nTokens = static_cast<int>(tokens.size());
+            for (; i < nTokens; ++i) {
+                REQUIRE2(i + 2 < nTokens, "incomplete schedule parameter", ScriptError_);
                 REQUIRE2(tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
 
                 if (tokens[i] == "START") {
+                    REQUIRE2(i + 7 <= nTokens, "incomplete schedule start date", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
                     startDate = Date::FromString(dt_str);
                     i += 6;
                 } else if (tokens[i] == "END") {
+                    REQUIRE2(i + 7 <= nTokens, "incomplete schedule end date", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
@@ -55,10 +59,12 @@ namespace Dal {
                         fixAtEnd = true;
                     else
                         THROW("unknown token for fixing");
+                    i += 2;
                 } else
                     THROW2("unknown token", ScriptError_);
             }
 
+            REQUIRE2(startDate.IsValid() && endDate.IsValid() && tenor, "schedule needs start, end and frequency", ScriptError_);
             Vector_<Date_> schedule = MakeSchedule(startDate,
                                                    Cell_(endDate),
                                                    holidays,
-- 
2.43.0


From 59c56611175c65783b78535c22e26216ecac434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:07 +0000
Subject: [PATCH 018/120] fix: compiled if/else popped a stack already reset by
 its nested call and then wrote before its start

---
 dal/script/visitor/compiler.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..b13409c 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -512,14 +512,13 @@ namespace Dal::Script {
                 bStack.Pop();
                 break;
             case IfElse:
-                if (!bStack.Top()) {
+                if (!bStack.TopAndPop()) {
                     i = nodeStream[++i];
                 } else {
-                    //  Cannot avoid nested call here
+                    //  Cannot avoid nested call here, it takes over the stacks
                     EvalCompiled(nodeStream, constStream, dataStream, scenario, state, i + 3, nodeStream[i + 1]);
                     i = nodeStream[i + 2];
                 }
-                bStack.Pop();
                 break;
             case Equal:
                 bStack.Push(dStack.TopAndPop() == 0);
-- 
2.43.0


From 7a26af3e65d46b9c3b094d872bf1e8041002c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:07 +0000
Subject: [PATCH 019/120] fix: smoothed evaluation of a negated condition read
 an empty stack instead of negating

---
 dal/script/visitor/fuzzy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..eff808c 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From b7edfdc0abedd777fc04f01a4c35b841670168a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:07 +0000
Subject: [PATCH 020/120] fix: domain analysis took every logarithm for
 positive and removed conditions on negative ones

---
 dal/script/visitor/domainproc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..7dafa89 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
-- 
2.43.0


From 42125c9de0f4838b9678693b3cd8bcbaea8c1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 021/120] fix: skipping a random generator to a path gave other
 numbers than generating up to it, so parallel simulations reused numbers

---
 dal/math/random/pseudorandom.cpp | 45 +++++++++++++++++++++++++-------
 dal/math/random/pseudorandom.hpp |  5 ++++
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..6a44bd8 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -13,6 +13,8 @@
 namespace Dal {
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        REQUIRE(devs->size() <= cache_.size(), "more deviates asked for than the dimension of the generator");
+        skipped_ = false;
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +38,27 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        if (skipped_) {
+            // normal deviates are not antithetic: each path takes its own numbers
+            SkipPoints(skippedTo_ * NDim());
+            anti_ = false;
+            skipped_ = false;
+        }
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
+
+    void PseudoRandom_::SkipTo(size_t n_paths) {
+        // uniform deviates come in antithetic pairs of paths
+        SkipPoints(n_paths / 2 * NDim());
+        anti_ = false;
+        if (n_paths & 1) {
+            Vector_<> first(NDim());
+            FillUniform(&first);
+        }
+        skipped_ = true;
+        skippedTo_ = n_paths;
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -66,10 +88,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
+                irl_ = 0;
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
                 // initialize IRN_
-                irn_[0] = seed;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -83,7 +110,11 @@ namespace Dal {
 
             [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
 
-            void SkipTo(size_t n_paths) override {}
+            void SkipPoints(size_t n_points) override {
+                Reset();
+                for (size_t i = 0; i < n_points; ++i)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
@@ -140,15 +171,9 @@ namespace Dal {
                 return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+            void SkipPoints(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..43bc0fb 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,9 +31,13 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        bool skipped_ = false;
+        size_t skippedTo_ = 0;
 
     protected:
         Vector_<> cache_;
+        // restart the sequence of uniforms after its first n_points numbers
+        virtual void SkipPoints(size_t n_points) = 0;
 
     public:
         explicit PseudoRandom_(size_t n_dim, bool precise = false) : cache_(n_dim), precise_(precise) {}
@@ -41,6 +45,7 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        void SkipTo(size_t n_paths) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From 63da58d10a0f48d6744dcac3b4a82b9bba7e6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 022/120] fix: a copied random generator lost the position and
 precision of the original

---
 dal/math/random/pseudorandom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index 6a44bd8..9028dd5 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -108,7 +108,7 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(*this); }
 
             void SkipPoints(size_t n_points) override {
                 Reset();
@@ -168,7 +168,7 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(*this);
             }
 
             void SkipPoints(size_t n_points) override {
-- 
2.43.0


From b07a5509b2e114a2d9c6b4f359678649af967d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 023/120] fix: signed overflow for the largest generator seed

---
 dal/math/random/pseudorandom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index 9028dd5..7848dd0 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -266,7 +266,7 @@ namespace Dal {
         if (type == RNGType_("IRN"))
             ret = new ShuffledIRN_<55, 31, 128>(seed, n_dim, precise);
         else if (type == RNGType_("MRG32"))
-            ret = new MRG32k32a_(seed, seed + 1, n_dim, precise);
+            ret = new MRG32k32a_(seed, static_cast<unsigned>(seed) + 1, n_dim, precise);
         else
             THROW("RNG type is not recognized");
         return ret;
-- 
2.43.0


From 07d3a16a2142aa27662c386f23a5f759cdd6a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 024/120] fix: compiled scripts reported no sensitivity to the
 constants of the script

---
 dal/script/node.hpp             | 2 +-
 dal/script/visitor/compiler.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..cea96ba 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -108,7 +108,7 @@ namespace Dal::Script {
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
+            // not folded at compilation: it may be differentiated
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index b13409c..d9f9d4c 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -476,6 +475,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
-- 
2.43.0


From e4a74a592351e1e08243bf1c7cb92c8fc3cafc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 025/120] fix: copies of simulation results read the
 sensitivities of the original, and unknown names a null pointer

---
 dal/script/simulation.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..95fd21b 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -20,16 +20,18 @@ namespace Dal::Script {
 
     struct SimResults_ {
         explicit SimResults_(const Vector_<String_>& names) : aggregated_(0.0), risks_(names.size(), 0.0), names_(names) {
-            for(auto i = 0; i < names.size(); ++i)
-                results_[names[i]] = &risks_[i];
+            for (size_t i = 0; i < names.size(); ++i)
+                results_[names[i]] = i;
         }
         double aggregated_;
         Vector_<> risks_;
         Vector_<String_> names_;
-        std::map<String_, const double*> results_;
+        std::map<String_, size_t> results_;
 
-        FORCE_INLINE double operator[](const String_& name) {
-            return *results_[name];
+        double operator[](const String_& name) const {
+            const auto found = results_.find(name);
+            REQUIRE(found != results_.end(), "no sensitivity to '" + name + "'");
+            return risks_[found->second];
         }
     };
 
-- 
2.43.0


From 84c36620e6b0d48c106965bd8ddc806eda5d2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 026/120] fix: an error raised on a simulated path was dropped
 and a wrong value returned

---
 dal/script/simulation.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 95fd21b..82af2e7 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -152,6 +152,9 @@ namespace Dal::Script {
 
         for (auto& future : futures)
             pool->ActiveWait(future);
+        // errors of the tasks, once none is running
+        for (auto& future : futures)
+            future.get();
 
         // aggregate all the results
         results.aggregated_ = Accumulate(simResults);
@@ -257,8 +260,11 @@ namespace Dal::Script {
 
         for (auto& future : futures)
             pool->ActiveWait(future);
-
         Number_::SetTape(*mainThreadPtr);
+        // errors of the tasks, once none is running
+        for (auto& future : futures)
+            future.get();
+
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         for (auto& res: simResults) {
             rtn.aggregated_ += res.aggregated_;
-- 
2.43.0


From 394032304aeb3102952c37050c98905fed76d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 027/120] fix: simulations running at the same time shared
 per-thread workspaces (data race), and left threads with a destroyed tape

---
 dal/math/aad/expr.hpp     |  5 +++
 dal/script/simulation.hpp | 64 ++++++++++++++++++++++-----------------
 2 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 1e43b56..6736b0e 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -478,6 +478,11 @@ namespace Dal::AAD {
             tape_ = &tape;
         }
 
+        static void SetTape(Tape_* tape) {
+            std::lock_guard<std::mutex> lock(mutex_);
+            tape_ = tape;
+        }
+
         FORCE_INLINE static Tape_* Tape() {
             return tape_;
         }
diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 82af2e7..b68dc20 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -54,6 +54,15 @@ namespace Dal::Script {
         Number_::Tape()->Mark();
     }
 
+    // the tape of this thread while in scope
+    class UseTape_ : noncopyable {
+        AAD::Tape_* saved_;
+
+    public:
+        explicit UseTape_(AAD::Tape_* tape) : saved_(Number_::Tape()) { Number_::SetTape(tape); }
+        ~UseTape_() { Number_::SetTape(saved_); }
+    };
+
     std::unique_ptr<Random_> CreateRNG(const String_& method, size_t n_dim, bool use_bb);
 
     template <class T_>
@@ -84,13 +93,16 @@ namespace Dal::Script {
 
         ThreadPool_* pool = ThreadPool_::GetInstance();
         const size_t nThreads = pool->NumThreads();
+        const int batch_size = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
+        // one workspace per task, not per thread: other simulations may use the same pool
+        const size_t nTasks = (n_paths + batch_size - 1) / batch_size;
 
-        Vector_<std::unique_ptr<Random_>> rngVector(nThreads);
+        Vector_<std::unique_ptr<Random_>> rngVector(nTasks);
         for (auto& random : rngVector)
             random = CreateRNG(rsg, mdl->SimDim(), use_bb);
 
-        Vector_<Vector_<>> gaussVectors(nThreads);
-        Vector_<Scenario_<>> paths(nThreads);
+        Vector_<Vector_<>> gaussVectors(nTasks);
+        Vector_<Scenario_<>> paths(nTasks);
 
         for (auto& vec : gaussVectors)
             vec.Resize(mdl->SimDim());
@@ -100,16 +112,14 @@ namespace Dal::Script {
             InitializePath(path);
         }
 
-        Vector_<Evaluator_<double>> evalVector(nThreads, product.BuildEvaluator<double>());
-        Vector_<EvalState_<double>> evalStateVector(nThreads, product.BuildEvalState<double>());
+        Vector_<Evaluator_<double>> evalVector(nTasks, product.BuildEvaluator<double>());
+        Vector_<EvalState_<double>> evalStateVector(nTasks, product.BuildEvalState<double>());
 
         SimResults_ results(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
 
         Vector_<TaskHandle_> futures;
-        const int batch_size = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
-        futures.reserve(n_paths / batch_size + 1);
-        Vector_<> simResults;
-        simResults.reserve(n_paths / batch_size + 1);
+        futures.reserve(nTasks);
+        Vector_<> simResults(nTasks, 0.0);
 
         int firstPath = 0;
         int pathsLeft = static_cast<int>(n_paths);
@@ -118,17 +128,14 @@ namespace Dal::Script {
 
         while (pathsLeft > 0) {
             auto pathsInTask = std::min(pathsLeft, batch_size);
-            simResults.emplace_back(0.0);
-            auto& simResult = simResults[loopIndex];
-            loopIndex += 1;
-            futures.push_back(pool->SpawnTask([&, firstPath, pathsInTask]() {
-                const size_t threadNum = ThreadPool_::ThreadNum();
-                Vector_<>& gaussVec = gaussVectors[threadNum];
-                Scenario_<>& path = paths[threadNum];
-                auto& random = rngVector[threadNum];
+            futures.push_back(pool->SpawnTask([&, firstPath, pathsInTask, loopIndex]() {
+                auto& simResult = simResults[loopIndex];
+                Vector_<>& gaussVec = gaussVectors[loopIndex];
+                Scenario_<>& path = paths[loopIndex];
+                auto& random = rngVector[loopIndex];
                 random->SkipTo(firstPath);
                 if (compiled) {
-                    EvalState_<double>& evalState = evalStateVector[threadNum];
+                    EvalState_<double>& evalState = evalStateVector[loopIndex];
                     for (size_t i = 0; i < pathsInTask; ++i) {
                         random->FillNormal(&gaussVec);
                         mdl->GeneratePath(gaussVec, &path);
@@ -136,7 +143,7 @@ namespace Dal::Script {
                         simResult += evalState.VarVals()[payoffIndex];
                     }
                 } else {
-                    Evaluator_<double>& eval = evalVector[threadNum];
+                    Evaluator_<double>& eval = evalVector[loopIndex];
                     for (size_t i = 0; i < pathsInTask; ++i) {
                         random->FillNormal(&gaussVec);
                         mdl->GeneratePath(gaussVec, &path);
@@ -148,6 +155,7 @@ namespace Dal::Script {
             }));
             pathsLeft -= pathsInTask;
             firstPath += pathsInTask;
+            loopIndex += 1;
         }
 
         for (auto& future : futures)
@@ -179,22 +187,22 @@ namespace Dal::Script {
 
         Vector_<TaskHandle_> futures;
         const int batchSize = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
+        // one workspace per task, not per thread: other simulations may use the same pool
+        const size_t nTasks = (n_paths + batchSize - 1) / batchSize;
 
         int firstPath = 0;
         int pathsLeft = static_cast<int>(n_paths);
         auto payoffIndex = product.PayOffIdx();
-        Vector_<AAD::Tape_> tapes(nThreads);
-        AAD::Tape_* mainThreadPtr = Number_::Tape();
+        size_t loopIndex = 0;
+        Vector_<AAD::Tape_> tapes(nTasks);
 
         SimResults_ values(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
-        Vector_<SimResults_> simResults(nThreads, values);
+        Vector_<SimResults_> simResults(nTasks, values);
 
         while (pathsLeft > 0) {
             auto pathsInTask = std::min(pathsLeft, batchSize);
-            futures.push_back(pool->SpawnTask([&, firstPath, pathsInTask]() {
-                const size_t threadNum = ThreadPool_::ThreadNum();
-                Number_::SetTape(tapes[threadNum]);
-                Number_::Tape()->Rewind();
+            futures.push_back(pool->SpawnTask([&, firstPath, pathsInTask, loopIndex]() {
+                UseTape_ tape(&tapes[loopIndex]);
                 std::unique_ptr<AAD::Model_<AAD::Number_>> model = mdl->Clone();
                 model->Allocate(product.TimeLine(), product.DefLine());
 
@@ -207,7 +215,7 @@ namespace Dal::Script {
                 random->SkipTo(firstPath);
 
                 double sumValue = 0.0;
-                auto& results = simResults(threadNum);
+                auto& results = simResults[loopIndex];
                 if (compiled) {
                     EvalState_<AAD::Number_> evalState = product.BuildEvalState<AAD::Number_>();
                     InitModel4ParallelAAD(product, *model, path, evalState);
@@ -256,11 +264,11 @@ namespace Dal::Script {
             }));
             pathsLeft -= pathsInTask;
             firstPath += pathsInTask;
+            loopIndex += 1;
         }
 
         for (auto& future : futures)
             pool->ActiveWait(future);
-        Number_::SetTape(*mainThreadPtr);
         // errors of the tasks, once none is running
         for (auto& future : futures)
             future.get();
-- 
2.43.0


From e50f785e1e5b9c652f9c7e8e11f2496874fbb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 028/120] fix: differentiating a payoff that does not depend on
 the path ran off the start of the tape

---
 dal/script/simulation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index b68dc20..ae23e03 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -225,7 +225,7 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.EvaluateCompiled(path, evalState);
-                        Number_ res = evalState.VarVals()[payoffIndex];
+                        Number_ res = evalState.VarVals()[payoffIndex] + 0.0; // recorded after the mark
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
@@ -246,7 +246,7 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.Evaluate(path, eval);
-                        Number_ res = eval.VarVals()[payoffIndex];
+                        Number_ res = eval.VarVals()[payoffIndex] + 0.0; // recorded after the mark
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
-- 
2.43.0


From 3f493780814384091bc98fa6a25e00f7bd627877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 029/120] fix: simulating a product without events or variables
 read outside its data

---
 dal/script/simulation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ae23e03..38fc06c 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -86,6 +86,8 @@ namespace Dal::Script {
                              bool compiled,
                              int max_nested_ifs,
                              double eps) {
+        REQUIRE(!product.TimeLine().empty(), "product has no event left to simulate");
+        REQUIRE(product.PayOffIdx() < product.VarNames().size(), "product has no payoff");
         std::unique_ptr<AAD::Model_<double>> mdl = CreateModel<double>(model_data);
 
         mdl->Allocate(product.TimeLine(), product.DefLine());
@@ -178,6 +180,8 @@ namespace Dal::Script {
                              bool compiled,
                              int max_nested_ifs,
                              double eps) {
+        REQUIRE(!product.TimeLine().empty(), "product has no event left to simulate");
+        REQUIRE(product.PayOffIdx() < product.VarNames().size(), "product has no payoff");
         std::unique_ptr<AAD::Model_<Number_>> mdl = CreateModel<Number_>(model_data);
         const auto nParams = mdl->Parameters().size();
         const auto nConstVars = product.ConstVarNames().size();
-- 
2.43.0


From a6d7f42bbda8ac0d1b2c513fc7f0f8d345201b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 030/120] fix: a moved script evaluator lost the initial values
 of its variables

---
 dal/script/visitor/evaluator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/evaluator.hpp b/dal/script/visitor/evaluator.hpp
index 5ba70b1..6f2a95e 100644
--- a/dal/script/visitor/evaluator.hpp
+++ b/dal/script/visitor/evaluator.hpp
@@ -59,7 +59,7 @@ namespace Dal::Script {
         }
 
         EvaluatorBase_(EvaluatorBase_&& rhs) noexcept
-            : variables_(std::move(rhs.variables_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
+            : variables_(std::move(rhs.variables_)), variablesInit_(std::move(rhs.variablesInit_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
         }
-- 
2.43.0


From f4f56afcd7cf12f36354c14aa51d1efe35609ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 031/120] fix: smoothed simulation with the default nesting
 depth asked for a huge amount of memory

---
 dal/script/event.cpp | 1 +
 dal/script/event.hpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/script/event.cpp b/dal/script/event.cpp
index b1ef00c..6286522 100644
--- a/dal/script/event.cpp
+++ b/dal/script/event.cpp
@@ -139,6 +139,7 @@ namespace Dal::Script {
         size_t maxNestedIfs = 0;
         if (fuzzy || !skip_domain) {
             maxNestedIfs = IFProcess();
+            maxNestedIfs_ = static_cast<int>(maxNestedIfs);
             DomainProcess(fuzzy);
             ConstCondProcess();
         }
diff --git a/dal/script/event.hpp b/dal/script/event.hpp
index 590c9dd..6c3eb1c 100644
--- a/dal/script/event.hpp
+++ b/dal/script/event.hpp
@@ -32,6 +32,7 @@ namespace Dal::Script {
     class ScriptProduct_ {
         String_ payoff_;
         size_t payoffIdx_;
+        int maxNestedIfs_ = 0;
 
         Vector_<Date_> pastEventDates_;
         Vector_<Event_> pastEvents_;
@@ -76,7 +77,7 @@ namespace Dal::Script {
         template <class T_> FuzzyEvaluator_<T_> BuildFuzzyEvaluator(int max_nested_ifs, double def_eps) const {
             return FuzzyEvaluator_<T_>(variableValues_,
                                        Apply([](double x) {return T_(x);}, consVariablesValues_),
-                                       max_nested_ifs,
+                                       std::max(max_nested_ifs, maxNestedIfs_),
                                        def_eps);
         }
 
-- 
2.43.0


From fdd8aa34842dca943b83bc7e410947ef83989e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 032/120] fix: reverse propagation dropped derivatives through
 adjoints below 2e-14

---
 dal/math/aad/node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/aad/node.hpp b/dal/math/aad/node.hpp
index 5abde05..60a5414 100644
--- a/dal/math/aad/node.hpp
+++ b/dal/math/aad/node.hpp
@@ -38,7 +38,7 @@ namespace Dal::AAD {
         double& Adjoint(size_t n) { return pAdjoints_[n]; }
 
         void PropagateOne() {
-            if (!n_ || fabs(adjoint_) <= Dal::EPSILON)
+            if (!n_ || adjoint_ == 0.0)
                 return;
 
             for (size_t i = 0; i < n_; ++i)
@@ -46,7 +46,7 @@ namespace Dal::AAD {
         }
 
         void PropagateAll() {
-            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return fabs(x) <= Dal::EPSILON; }))
+            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return x == 0.0; }))
                 return;
 
             for (size_t i = 0; i < n_; ++i) {
-- 
2.43.0


From b0706c48de4ca5bbef9e8c8f609ef16e8b5a4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:39 +0000
Subject: [PATCH 033/120] fix: derivative of a power at base zero was not a
 number

---
 dal/math/aad/expr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 6736b0e..a42d25f 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -75,9 +75,9 @@ namespace Dal::AAD {
     struct OPPow_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::pow(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r * v / l; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r == 0.0 ? 0.0 : r * std::pow(l, r - 1.0); }
 
-        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return std::log(l) * v; }
+        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return v == 0.0 ? 0.0 : std::log(l) * v; }
     };
 
     struct OPMax_ {
@@ -244,13 +244,13 @@ namespace Dal::AAD {
     struct OPPowDL_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(d, r); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return std::log(d) * v; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return v == 0.0 ? 0.0 : std::log(d) * v; }
     };
 
     struct OPPowDR_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(r, d); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return d * v / r; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return d == 0.0 ? 0.0 : d * std::pow(r, d - 1.0); }
     };
 
     struct OPMaxD_ {
-- 
2.43.0


From a6e5ba5e9dd0b4b576293e459a7125b024ec0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:58 +0000
Subject: [PATCH 034/120] fix: iterating over a tape that exactly fills its
 blocks ran past its end

---
 dal/math/aad/blocklist.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..867dcca 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -87,19 +87,20 @@ namespace Dal::AAD {
                 std::memset(&arr[0], val, BLOCK_SIZE_ * sizeof(T_));
         }
 
+        // a full block is left at once: the end is then always where iteration arrives
         template <typename... Args_> T_* EmplaceBack(Args_&&... args) {
-            if (nextSpace_ == lastSpace_)
-                NextBlock();
             T_* emplaced = new (&*nextSpace_) T_(std::forward<Args_>(args)...);
             ++nextSpace_;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
             return emplaced;
         }
 
         T_* EmplaceBack() {
-            if (nextSpace_ == lastSpace_)
-                NextBlock();
             auto old_next = nextSpace_;
             ++nextSpace_;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
             return &*old_next;
         }
 
@@ -108,6 +109,8 @@ namespace Dal::AAD {
                 NextBlock();
             auto old_next = nextSpace_;
             nextSpace_ += N_;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
             return &*old_next;
         }
 
@@ -116,6 +119,8 @@ namespace Dal::AAD {
                 NextBlock();
             auto old_next = nextSpace_;
             nextSpace_ += n;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
             return &*old_next;
         }
 
-- 
2.43.0


From 52e0d7119b83205908d5bcbde658788bc0cc8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:58 +0000
Subject: [PATCH 035/120] fix: the mark of a cleared or new tape pointed to no
 block

---
 dal/math/aad/blocklist.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 867dcca..f6fd2d3 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -62,11 +62,15 @@ namespace Dal::AAD {
             BlockPosition_(iterator curr_block, block_iter next_space): currBlock_(curr_block), nextSpace_(next_space) {}
         };
 
-        BlockList_() { NewBlock(); }
+        BlockList_() {
+            NewBlock();
+            SetMark();
+        }
 
         void Clear() {
             data_.clear();
             NewBlock();
+            SetMark();
         }
 
         void Rewind() {
-- 
2.43.0


From 725d13edcfbb0b76bdc5e50eeffa416e6e31521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 036/120] fix: the operator ^ was taken for a variable name

`x = ^` and `2 ^ ^ 3` were accepted as well-formed, reading a variable called `^`.
---
 dal/script/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 96a7ef1..6b9b584 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -149,7 +149,8 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVar(TokIt_& cur) {
-        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z', String_("Variable name ") + *cur + " is invalid", ScriptError_);
+        const char first = (*cur)[0];
+        REQUIRE2((first >= 'A' && first <= 'Z') || (first >= 'a' && first <= 'z') || first == '_', String_("Variable name ") + *cur + " is invalid", ScriptError_);
         REQUIRE2(RESERVED_KEY_WORDS.find(*cur) == RESERVED_KEY_WORDS.end(),
                  String_("Variable name ") + *cur + " is conflicted with an existing key word", ScriptError_);
         String_ name(*cur);
-- 
2.43.0


From faaac31d71a052f63bbca84801c893bf2c68bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 037/120] fix: a comma without an argument after it was
 accepted at the end of an argument list

---
 dal/script/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 6b9b584..72b5add 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -321,8 +321,10 @@ namespace Dal::Script {
         ++cur;
         while (cur != closeIt) {
             args.push_back(ParseExpr(cur, end));
-            if ((*cur)[0] == ',')
+            if ((*cur)[0] == ',') {
                 ++cur;
+                REQUIRE2(cur != closeIt, "missing function argument after `,`", ScriptError_);
+            }
             else if (cur != closeIt)
                 THROW2("Arguments must be separated by commas", ScriptError_);
         }
-- 
2.43.0


From 87dc2c132511f78f99eed8fe4b5f48b0b48d7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 038/120] fix: expressions with very many operands exhausted
 the call stack

A chain of operators makes a tree as high as the chain is long, walked
recursively by every visitor; it is now limited as nesting already is.
---
 dal/script/parser.cpp | 10 ++++++++++
 dal/script/parser.hpp |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 72b5add..08ab9f2 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -31,7 +31,9 @@ namespace {
 namespace Dal::Script {
     Expression_ Parser_::ParseExpr(TokIt_& cur, const TokIt_& end) {
         auto lhs = ParseExprL2(cur, end);
+        Chain_ chain;
         while (cur != end && ((*cur)[0] == '+' || (*cur)[0] == '-')) {
+            ++chain;
             char op = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -43,7 +45,9 @@ namespace Dal::Script {
 
     Expression_ Parser_::ParseExprL2(TokIt_& cur, const TokIt_& end) {
         auto lhs = ParseExprL3(cur, end);
+        Chain_ chain;
         while (cur != end && ((*cur)[0] == '*' || (*cur)[0] == '/')) {
+            ++chain;
             char op = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -55,7 +59,9 @@ namespace Dal::Script {
 
     Expression_ Parser_::ParseExprL3(TokIt_& cur, const TokIt_& end) {
         auto lhs = ParseExprL4(cur, end);
+        Chain_ chain;
         while (cur != end && (*cur)[0] == '^') {
+            ++chain;
             ++cur;
             REQUIRE(cur != end, "unexpected end of statement");
             auto rhs = ParseExprL4(cur, end);
@@ -214,7 +220,9 @@ namespace Dal::Script {
 
     Expression_ Parser_::ParseCond(TokIt_& cur, const TokIt_& end) {
         auto lhs = ParseCondL2(cur, end);
+        Chain_ chain;
         while (cur != end && *cur == "OR") {
+            ++chain;
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
             auto rhs = ParseCondL2(cur, end);
@@ -226,7 +234,9 @@ namespace Dal::Script {
     Expression_ Parser_::ParseCondL2(TokIt_& cur, const TokIt_& end) {
         Nested_ nested(nesting_);
         auto lhs = ParseParentheses<&Parser_::ParseCond, &Parser_::ParseCondElem>(cur, end);
+        Chain_ chain;
         while (cur != end && *cur == "AND") {
+            ++chain;
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
             auto rhs = ParseParentheses<&Parser_::ParseCond, &Parser_::ParseCondElem>(cur, end);
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 12a5729..0053d4e 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -27,6 +27,13 @@ namespace Dal::Script {
             ~Nested_() { --level_; }
         };
 
+        // Operands chained at one level, which make a tree as high as the chain is long
+        static constexpr unsigned MAX_CHAIN = 1000;
+        struct Chain_ {
+            unsigned length_ = 0;
+            void operator++() { REQUIRE2(++length_ <= MAX_CHAIN, "expression has too many operands", ScriptError_); }
+        };
+
         // Helpers
 
         // Find matching closing char, for example matching ) for a (, skipping through nested pairs
-- 
2.43.0


From 236a0942dfa91f90e8c7e498ff66654e5e7d7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 039/120] fix: a very long word in a script exhausted the call
 stack

The tokenizer's regular expression engine recurses for every character of
a word; the same tokens are now scanned by a loop.
---
 dal/script/parser.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 08ab9f2..db3c7a9 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -2,6 +2,8 @@
 // Created by wegam on 2022/4/4.
 //
 
+#include <cctype>
+#include <cstring>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/script/parser.hpp>
@@ -392,10 +394,22 @@ namespace Dal::Script {
     }
 
     Vector_<String_> Tokenize(const String_& str) {
-        static const std::regex r(R"([\w.]+|[/-]|,|;|:|[\(\)\+\*\^]|!=|>=|<=|[<>=])");
+        // words and numbers, operators and punctuation; anything else only separates
+        const auto isWord = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.'; };
         Vector_<String_> v;
-        for (std::regex_iterator<String_::const_iterator> it(str.begin(), str.end(), r), end; it != end; ++it)
-            v.push_back(String_((*it)[0]));
+        for (size_t i = 0, n = str.size(); i < n;) {
+            size_t next = i + 1;
+            if (isWord(str[i])) {
+                while (next < n && isWord(str[next]))
+                    ++next;
+                v.push_back(str.substr(i, next - i));
+            } else if (next < n && str[next] == '=' && (str[i] == '!' || str[i] == '<' || str[i] == '>')) {
+                ++next;
+                v.push_back(str.substr(i, 2));
+            } else if (str[i] != '\0' && std::strchr("/-,;:()+*^<>=", str[i]))
+                v.push_back(String_(1, str[i]));
+            i = next;
+        }
         return v;
     }
 
-- 
2.43.0


From 4cae8370777a6f57b51b42888d0543ffc9a8fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:21 +0000
Subject: [PATCH 040/120] fix: local volatility sensitivities missed the
 dependence of the volatility on the spot

Linear interpolation dropped the derivative to its argument, so that the
spot delta (and every earlier parameter) of a Dupire simulation with a
skew was wrong.
---
 dal/math/interp/interp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index f6f084f..1a284a8 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -36,10 +36,10 @@ namespace Dal {
         auto pge = LowerBound(x, static_cast<double>(x0));
         if (pge == x.end())
             return y.back();
-        if (pge == x.begin() || IsZero(x0 - *pge))
+        if (pge == x.begin() || (std::is_same_v<T_, double> && IsZero(x0 - *pge)))
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const auto gFrac = static_cast<double>((x0 - *plt) / (*pge - *plt));
+        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
         auto flt = y.begin() + (plt - x.begin());
         return *flt + gFrac * (*Next(flt) - *flt);
     }
-- 
2.43.0


From f324214b79dfb7082347a4b89706ad7faa44db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:37 +0000
Subject: [PATCH 041/120] fix: Black-Scholes model copied before allocation
 reads uninitialised members

---
 dal/model/blackscholes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/model/blackscholes.hpp b/dal/model/blackscholes.hpp
index 88db6e2..de42193 100644
--- a/dal/model/blackscholes.hpp
+++ b/dal/model/blackscholes.hpp
@@ -30,8 +30,8 @@ namespace Dal {
             T_ vol_;
 
             Vector_<> timeLine_;
-            bool todayOnTimeLine_;
-            const Vector_<SampleDef_>* defLine_;
+            bool todayOnTimeLine_ = false;
+            const Vector_<SampleDef_>* defLine_ = nullptr;
 
             Vector_<T_> stds_;
             Vector_<T_> drifts_;
-- 
2.43.0


From 81f0940cb6870477a26c9e72ee17a1d576b3d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:37 +0000
Subject: [PATCH 042/120] fix: Brownian bridge of dimension zero reads outside
 its vectors

---
 dal/math/random/brownianbridge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/random/brownianbridge.cpp b/dal/math/random/brownianbridge.cpp
index 71e0c6a..3e4796d 100644
--- a/dal/math/random/brownianbridge.cpp
+++ b/dal/math/random/brownianbridge.cpp
@@ -21,6 +21,8 @@ namespace Dal {
     }
 
     void BrownianBridge_::Initialize() {
+        if (ndim_ == 0)
+            return; // nothing to simulate
         sqrtdt_[0] = std::sqrt(t_[0]);
         for (int i = 1; i < ndim_; ++i)
             sqrtdt_[i] = std::sqrt(t_[i] - t_[i-1]);
@@ -64,6 +66,8 @@ namespace Dal {
 
     void BrownianBridge_::FillNormal(Vector_<> *deviates) {
         deviates->Resize(NDim());
+        if (ndim_ == 0)
+            return;
         rsg_->FillNormal(&innerDeviates_);
         (*deviates)[ndim_ - 1] = stdDev_[0] * innerDeviates_[0];
         for (int i = 1; i< ndim_; ++i) {
-- 
2.43.0


From 5c315d32a42a04bb12da6bbd206b4a09d3b74c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:37 +0000
Subject: [PATCH 043/120] fix: Dupire path of a sample without forwards reads
 past the end

---
 dal/model/dupire.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index df31e24..2fa17da 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -179,7 +179,8 @@ namespace Dal {
                 if (def.numeraire_)
                     scenario.numeraire_ = numeraires_[idx];
                 scenario.spot_ = spot;
-                std::fill(scenario.forwards_.front().begin(), scenario.forwards_.front().end(), spot);
+                if (!scenario.forwards_.empty())
+                    std::fill(scenario.forwards_.front().begin(), scenario.forwards_.front().end(), spot);
                 Copy(discounts_[idx], &scenario.discounts_);
             }
         };
-- 
2.43.0


From aa59173204dc4f8e045a57b7de472c5ab89ec2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:12 +0000
Subject: [PATCH 044/120] fix: adjoint simulation called from a thread without
 tape crashes

---
 dal/script/simulation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 38fc06c..22341b6 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -182,6 +182,9 @@ namespace Dal::Script {
                              double eps) {
         REQUIRE(!product.TimeLine().empty(), "product has no event left to simulate");
         REQUIRE(product.PayOffIdx() < product.VarNames().size(), "product has no payoff");
+        // the calling thread may have no tape of its own, and keeps nothing of the simulation on it
+        AAD::Tape_ callerTape;
+        UseTape_ useCallerTape(&callerTape);
         std::unique_ptr<AAD::Model_<Number_>> mdl = CreateModel<Number_>(model_data);
         const auto nParams = mdl->Parameters().size();
         const auto nConstVars = product.ConstVarNames().size();
-- 
2.43.0


From 5b8249b6d5af746b36991aa1b4d5222d816532eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:56 +0000
Subject: [PATCH 045/120] fix: local volatility calibration without any spot
 near the money reads outside the grid

---
 dal/model/dupire.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index 2fa17da..e6c8bb7 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -209,6 +209,8 @@ namespace Dal {
             while (ih >= 0 && spots[ih] > ivs.Spot() + 2.5 * std)
                 --ih;
 
+            REQUIRE(il <= ih, "no spot within 2.5 standard deviations of the current one");
+
             // Loop on spots
             for (int i = il; i <= ih; ++i) {
                 //  Dupire's formula
-- 
2.43.0


From 66413b0f19940abfa2d9626a14a949e425ed2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 046/120] fix: deleting a sparse matrix through its base class
 is undefined

---
 dal/math/matrix/sparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/math/matrix/sparse.hpp b/dal/math/matrix/sparse.hpp
index fb3d90a..d46f18d 100644
--- a/dal/math/matrix/sparse.hpp
+++ b/dal/math/matrix/sparse.hpp
@@ -16,6 +16,7 @@ namespace Dal::Sparse {
 
     class Square_ : noncopyable {
     public:
+        virtual ~Square_() = default;
         [[nodiscard]] virtual int Size() const = 0;
         virtual void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const = 0;
         virtual void MultiplyRight(const Vector_<>& x, Vector_<>* b) const = 0;
-- 
2.43.0


From 15162f9d8dabdb0cb6ffb2c265fd7b86b3c8eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 047/120] fix: banded Cholesky stores outside its band and
 reads outside the matrix

---
 dal/math/matrix/banded.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..96573c2 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -185,7 +185,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -197,7 +197,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
@@ -216,7 +216,7 @@ namespace Dal {
                             }
                         } else {
                             REQUIRE(residual > -SMALL, "Non-positive-definite matrix");
-                            val_.At(ii, ii) = std::sqrt(residual);
+                            val_.At(ii, ii) = std::sqrt(max(residual, 0.0));
                         }
                     }
                 }
@@ -283,7 +283,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
-- 
2.43.0


From 4a82d06f6ddaf9a47303628abdc95ca8f5ce616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 048/120] fix: tri-diagonal product onto its argument uses
 overwritten elements

---
 dal/math/matrix/banded.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 96573c2..3a4262c 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -16,6 +16,8 @@ namespace Dal {
         void TriMultiply(
             const Vector_<>& x, const Vector_<>& diag, const Vector_<>& above, const Vector_<>& below, Vector_<>* r) {
             REQUIRE(x.size() == diag.size(), "");
+            if (r == &x)
+                return TriMultiply(Vector_<>(x), diag, above, below, r);
             r->Resize(x.size());
             Transform(x, diag, std::multiplies<>(), r);
             auto pr = r->begin();
-- 
2.43.0


From 295a8292eee8d073d0c58dbd203a96fcd2a77582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 049/120] fix: product with a lower triangular matrix omits the
 diagonal; sizes unchecked

---
 dal/math/matrix/decompositionsmisc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index ff0880e..3cad8a6 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -35,11 +35,13 @@ namespace Dal {
             [[nodiscard]] int Size() const override { return vals_.size(); }
 
             void XMultiply_af(const Vector_<> &x, Vector_<> *b) const override {
+                b->Resize(x.size());
                 Transform(x, vals_, std::multiplies<>(), b);
             }
 
             void XSolve_af(const Vector_<> &b, Vector_<> *x) const override {
                 NOTE("Dividing by diagonal matrix");
+                x->Resize(b.size());
                 Transform(b, vals_, ProtectedDivide_(), x);
             }
 
@@ -64,13 +66,15 @@ namespace Dal {
 
             void XMultiplyLeft_af(const Vector_<> &x, Vector_<> *b) const override {
                 const int n = Size();
+                REQUIRE(x.size() == n, "Size should be compatible with x and the matrix");
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
-                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii, vals_.Row(ii).begin(), 0.0);
+                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii + 1, vals_.Row(ii).begin(), 0.0);
             }
 
             void XMultiplyRight_af(const Vector_<> &x, Vector_<> *b) const override {
                 const int n = Size();
+                REQUIRE(x.size() == n, "Size should be compatible with x and the matrix");
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
                     (*b)[ii] = std::inner_product(x.begin() + ii, x.end(), vals_.Col(ii).begin() + ii, 0.0);
@@ -80,6 +84,7 @@ namespace Dal {
                 ProtectedDivide_ DIVIDE;
                 NOTICE("Left-solve by lower triangular");
                 const int n = Size();
+                REQUIRE(b.size() == n, "Size should be compatible with b and the matrix");
                 x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     auto stop = x->begin() + ii;
@@ -92,6 +97,7 @@ namespace Dal {
                 ProtectedDivide_ DIVIDE;
                 NOTICE("Right-solve by lower triangular");
                 const int n = Size();
+                REQUIRE(b.size() == n, "Size should be compatible with b and the matrix");
                 x->Resize(n);
                 for (int ii = n - 1; ii >= 0; --ii) {
                     auto start = x->begin() + ii + 1;
-- 
2.43.0


From a8fe26471d446200dcec635f7c6543e109d5c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 050/120] fix: Cholesky solve writes outside a result of
 another size

---
 dal/math/matrix/cholesky.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..fb48e62 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -66,6 +66,7 @@ namespace Dal {
 
             void XMultiply_af(const Vector_<>& x, Vector_<>* b) const override {
                 const int n = Size();
+                REQUIRE(x.size() == n, "Size should be compatible with x and the matrix");
                 Vector_<> temp(n, 0.0);
                 // multiply by L^T
                 for (int ii = 0; ii < n; ++ii) {
@@ -83,6 +84,8 @@ namespace Dal {
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                REQUIRE(b.size() == n, "Size should be compatible with b and the matrix");
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
-- 
2.43.0


From fdfef150a92e203265abe90c1f5ed3d7ca56fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 051/120] fix: conjugate gradients divide zero by zero when
 started at the solution

---
 dal/math/matrix/bcg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/matrix/bcg.cpp b/dal/math/matrix/bcg.cpp
index 4fedb85..40afb21 100644
--- a/dal/math/matrix/bcg.cpp
+++ b/dal/math/matrix/bcg.cpp
@@ -60,6 +60,8 @@ namespace Dal {
         Vector_<> p(n);
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return;
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
@@ -97,6 +99,8 @@ namespace Dal {
 
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return;
         rr = r;
 
         double betaPrev;
-- 
2.43.0


From b5422fe744cb91723a2e48a0e413e1c426b200ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 052/120] fix: Stack_::TopAndPop returns the element above the
 top

---
 dal/math/stacks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 1dbc3d6..4a4627a 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -110,7 +110,7 @@ namespace Dal {
         FORCE_INLINE E_& operator[](const size_t i) { return data_[sp_ - 1 - i]; }
         FORCE_INLINE const E_& operator[](const size_t i) const { return data_[sp_ - 1 - i]; }
 
-        FORCE_INLINE E_ TopAndPop() { return std::move(data_[sp_--]); }
+        FORCE_INLINE E_ TopAndPop() { return std::move(data_[--sp_]); }
 
         FORCE_INLINE void Pop() { --sp_; }
         FORCE_INLINE void Pop(const size_t n) { sp_ -= n; }
-- 
2.43.0


From 838a52b502b486a8fcdec590f13537599da616cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 053/120] fix: pushing on a cleared or moved-from stack writes
 through a null pointer

---
 dal/math/stacks.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 4a4627a..e3ec2ad 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -93,6 +93,11 @@ namespace Dal {
         FORCE_INLINE const_iterator end() const { return std::reverse_iterator<const E_*>(data_); }
 
         template <typename T_> void Push(T_&& value) {
+            if (size_ == 0) {
+                delete[] data_;
+                size_ = DefaultSize > 0 ? static_cast<int>(DefaultSize) : 1;
+                data_ = new E_[size_];
+            }
             data_[sp_] = std::forward<T_>(value);
             ++sp_;
             if (sp_ >= size_) {
-- 
2.43.0


From df4e79193002f267461b91260e90bbfbc7a1c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 054/120] fix: resizing an array loses its first element and
 writes outside the new one

---
 dal/math/ndarray.cpp | 5 ++++-
 dal/math/ndarray.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dal/math/ndarray.cpp b/dal/math/ndarray.cpp
index 3f96a34..551bcef 100644
--- a/dal/math/ndarray.cpp
+++ b/dal/math/ndarray.cpp
@@ -23,7 +23,11 @@ namespace Dal::ArrayN {
         Vector_<int> mins = Apply(func, old_sizes, new_sizes);
         Vector_<int> loc(nd, 0);
         Vector_<pair<int, int>> ret_val;
+        for (const auto& m : mins)
+            if (m <= 0)
+                return ret_val; // nothing in common
         for (;;) {
+            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
             int depth;
             for (depth = 0; depth < nd; ++depth) {
                 if (++loc[depth] < mins[depth])
@@ -32,7 +36,6 @@ namespace Dal::ArrayN {
             }
             if (depth == nd)
                 return ret_val;
-            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
         }
         return ret_val;
     }
diff --git a/dal/math/ndarray.hpp b/dal/math/ndarray.hpp
index a6049c7..e68f3f4 100644
--- a/dal/math/ndarray.hpp
+++ b/dal/math/ndarray.hpp
@@ -52,9 +52,9 @@ namespace Dal {
         // Resize() requires computation of element mapping; take it out-of-line
         void Resize(const Vector_<int>& new_sizes) {
             const Vector_<pair<int, int>>& moves = ArrayN::Moves(sizes_, new_sizes);
-            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             sizes_ = new_sizes;
             strides_ = ArrayN::Strides(sizes_);
+            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             for (const auto& move : moves)
                 new_values[move.second] = vals_[move.first];
             vals_.Swap(&new_values);
-- 
2.43.0


From 831051fe95573a136f289bcceebc2b874de2540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 055/120] fix: a moved-from matrix has an uninitialised number
 of columns

---
 dal/math/matrix/matrixs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 0158b9b..cb2e217 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -54,7 +54,7 @@ namespace Dal {
             std::swap(hooks_, rhs.hooks_);
         }
 
-        Matrix_(Matrix_&& rhs) noexcept { swap(rhs); }
+        Matrix_(Matrix_&& rhs) noexcept : cols_(0) { swap(rhs); }
 
         Matrix_& operator=(Matrix_&& rhs) noexcept {
             if (this != &rhs) {
-- 
2.43.0


From aa54f15570eb6b24871312d78c0bfef7a0ce8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 056/120] fix: columns, swaps and element-wise functions of a
 matrix without rows read outside it

---
 dal/math/matrix/matrixs.hpp     |  6 +++---
 dal/math/matrix/matrixutils.hpp | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index cb2e217..ec06150 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -189,7 +189,7 @@ namespace Dal {
             [[nodiscard]] size_t size() const { return size_; }
             const E_& operator[](int row) const { return *(begin_.val_ + row * begin_.stride_); }
         };
-        ConstCol_ Col(int i_col) const { return ConstCol_(hooks_[0] + i_col, hooks_.size(), cols_); }
+        ConstCol_ Col(int i_col) const { return ConstCol_(const_cast<Vector_<E_>&>(vals_).begin() + i_col, hooks_.size(), cols_); }
 
         class Col_ : public ConstCol_ {
             using iterator = typename ConstCol_::iterator;
@@ -206,7 +206,7 @@ namespace Dal {
 
             using ConstCol_::size;
         };
-        Col_ Col(int i_col) { return Col_(hooks_[0] + i_col, hooks_.size(), cols_); }
+        Col_ Col(int i_col) { return Col_(vals_.begin() + i_col, hooks_.size(), cols_); }
 
         // POSTPONED -- sub-matrix
         void Swap(Matrix_<E_>* other) {
@@ -214,7 +214,7 @@ namespace Dal {
             vals_.Swap(&other->vals_);
             hooks_.Swap(&other->hooks_);
             std::swap(cols_, other->cols_);
-            REQUIRE(hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
+            REQUIRE(hooks_.empty() || hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
         }
 
         void Fill(const E_& val) { vals_.Fill(val); }
diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index e45f315..988b903 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -41,16 +41,16 @@ namespace Dal {
 
         // copy/transform all matrix elements; these functions all take advantage of the known layout of matrix!
         template <class E_> typename Matrix_<E_>::Row_::iterator BeginElements(Matrix_<E_>& m) {
-            return m.Row(0).begin();
+            return m.Rows() > 0 ? m.Row(0).begin() : decltype(m.Row(0).begin())();
         }
         template <class E_> typename Matrix_<E_>::ConstRow_::const_iterator BeginElements(const Matrix_<E_>& m) {
-            return m.Row(0).begin();
+            return m.Rows() > 0 ? m.Row(0).begin() : decltype(m.Row(0).begin())();
         }
         template <class E_> typename Matrix_<E_>::Row_::iterator EndElements(Matrix_<E_>& m) {
-            return m.Row(m.Empty() ? 0 : m.Rows() - 1).end();
+            return m.Rows() > 0 ? m.Row(m.Rows() - 1).end() : decltype(m.Row(0).end())();
         }
         template <class E_> typename Matrix_<E_>::ConstRow_::const_iterator EndElements(const Matrix_<E_>& m) {
-            return m.Row(m.Empty() ? 0 : m.Rows() - 1).end();
+            return m.Rows() > 0 ? m.Row(m.Rows() - 1).end() : decltype(m.Row(0).end())();
         }
 
         template <class E_, class Op_> void Transform(Matrix_<E_>* container, Op_ op) {
@@ -71,12 +71,12 @@ namespace Dal {
         void Transform(const Matrix_<E1_>& in1, const Matrix_<E2_>& in2, Op_ op, Matrix_<EO_>* out) {
             assert(in1.Rows() == out->Rows() && in1.Cols() == out->Cols());
             assert(in2.Rows() == out->Rows() && in2.Cols() == out->Cols());
-            std::transform(in1.Row(0).begin(), EndElements(in1), in2.Row(0).begin(), out->Row(0).begin(), op);
+            std::transform(BeginElements(in1), EndElements(in1), BeginElements(in2), BeginElements(*out), op);
         }
 
         template <class ES_, class ED_> void Copy(const Matrix_<ES_>& src, Matrix_<ED_>* dst) {
             assert(dst && src.Rows() == dst->Rows() && src.Cols() == dst->Cols());
-            std::copy(src.Row(0).begin(), EndElements(src), dst->Row(0).begin());
+            std::copy(BeginElements(src), EndElements(src), BeginElements(*dst));
         }
         template <class E_, class Op_> auto Apply(Op_ op, const Matrix_<E_>& src) -> Matrix_<decltype(op(src(0, 0)))> {
             Matrix_<decltype(op(src(0, 0)))> ret_val(src.Rows(), src.Cols());
-- 
2.43.0


From a79c2ec1bd580ffb05cfccafe6660ce4d4a10f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 057/120] fix: rows added to a matrix show its padding instead
 of zeros

---
 dal/math/matrix/matrixs.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index ec06150..9254ad4 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -225,6 +225,8 @@ namespace Dal {
             const auto old_rows = hooks_.size();
             if (cols == cols_ && rows * old_rows > 0) {
                 vals_.Resize((rows + 1) * cols);
+                if (rows > old_rows)
+                    std::fill(vals_.begin() + old_rows * cols, vals_.end(), E_());
                 hooks_.Resize(rows);
                 SetHook(hooks_[0] == vals_.begin() ? old_rows : 0);
             } else {
-- 
2.43.0


From f9e4e844c1f30eb68c1d5ff5c254d5b4ac5772b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 058/120] fix: matrices built from or extended by rows of other
 lengths

---
 dal/math/matrix/matrixutils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index 988b903..b6fee4d 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -23,12 +23,15 @@ namespace Dal {
 
         template <class E_> void Append(Matrix_<E_>* above, const Matrix_<E_>& below) {
             REQUIRE(above != nullptr, "above matrix is null");
+            if (above == &below)
+                return Append(above, Matrix_<E_>(below));
             const int offset = above->Rows();
             // efficient unless below is too wide
             above->Resize(offset + below.Rows(), max(above->Cols(), below.Cols()));
             for (int ir = 0; ir < below.Rows(); ++ir) {
                 auto t_row = above->Row(ir + offset);
-                Copy(below.Row(ir), &t_row);
+                const auto src = below.Row(ir);
+                std::copy(src.begin(), src.end(), t_row.begin());
             }
         }
 
@@ -94,7 +97,7 @@ namespace Dal {
                 ragged ? *MaxElement(Apply([](const Vector_<E_>& v) { return v.size(); }, vv)) : vv[0].size();
             Matrix_<E_> ret_val(by_cols ? size2 : vv.size(), by_cols ? vv.size() : size2);
             for (int ii = 0; ii < vv.size(); ++ii) {
-                REQUIRE(quiet || ragged || vv[ii].size() == size2, "Invalid array sizing");
+                REQUIRE(ragged || vv[ii].size() == size2 || (quiet && vv[ii].size() < size2), "Invalid array sizing");
                 if (by_cols)
                     copy(vv[ii].begin(), vv[ii].end(), ret_val.Col(ii).begin());
                 else
-- 
2.43.0


From c344ba34f0620ba7cfc018003193bf270bd645ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 059/120] fix: range of zero or one points divides by zero and
 writes outside

---
 dal/math/vectors.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/vectors.hpp b/dal/math/vectors.hpp
index 0201b3c..1ba8150 100644
--- a/dal/math/vectors.hpp
+++ b/dal/math/vectors.hpp
@@ -119,6 +119,10 @@ namespace Dal {
 
         template <class E_> Vector_<E_> XRange(E_ start, E_ finish, size_t points) {
             Vector_<E_> x(points);
+            if (points < 2) {
+                x.Fill(finish);
+                return x;
+            }
             E_ dx = (finish - start) / (points - 1);
             for (size_t i = 0; i < points - 1; ++i)
                 x[i] = start + i * dx;
-- 
2.43.0


From fd36c6bb778ca02b338b0784afb7737fabb1899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 060/120] fix: smoothing couples neighbours with the distance
 of another pair

---
 dal/math/smooth.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dal/math/smooth.cpp b/dal/math/smooth.cpp
index e651fe9..5a92757 100644
--- a/dal/math/smooth.cpp
+++ b/dal/math/smooth.cpp
@@ -15,8 +15,9 @@ namespace Dal {
         const int n = x.size();
         REQUIRE(y.size() == n && n > 1, "y values size should be same with x and size should bigger than 1");
         Vector_<> coupling(n);
-        for (int i = 1; i < n; ++i)
-            coupling[i] = lambda / std::max(x[i] - x[i-1], DX_MIN);
+        REQUIRE(weight.empty() || weight.size() == n, "weights size should be same with x");
+        for (int i = 0; i < n - 1; ++i)
+            coupling[i] = lambda / std::max(x[i + 1] - x[i], DX_MIN);
         coupling.back() = 0.0;
 
         Vector_<> beta(n), gamma(n);
-- 
2.43.0


From d4d4e327e542542c0137125e06908251eb9ab624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 061/120] fix: empty elements in a table format are read past
 their end

---
 dal/math/matrix/matrixutils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index c7029c4..17bfe83 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -201,6 +201,8 @@ namespace Dal {
 
         String_ Strip(const String_& src) // remove parentheses around the whole thing
         {
+            if (src.empty())
+                return src;
             auto ps = src.begin();
             for (int depth = 0; ps != src.end(); ++ps) {
                 if (*ps == '(')
@@ -228,6 +230,7 @@ namespace Dal {
         }
 
         Writer_* XNewWriter(const String_& format) {
+            REQUIRE(!format.empty(), "Empty element in format");
             // POSTPONED -- should ':' and ';' have the same precedence?
             if (auto vr = MultipleWriter(format, ':', []() { return new VerticalWriter_(true); }))
                 return vr;
-- 
2.43.0


From f550a6fb4c616c3c293c7f9f3ce74fb9342ea60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:32 +0000
Subject: [PATCH 062/120] fix: stacks of plain values can be copied

The copy constructor called copy() unqualified, which is found only for
element types declared in namespace std.
---
 dal/math/stacks.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index e3ec2ad..3ff837c 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iterator>
 
 namespace Dal {
@@ -41,7 +42,7 @@ namespace Dal {
             else
                 data_ = nullptr;
             if (sp_ > 0)
-                copy(rhs.data_, rhs.data_ + sp_, data_);
+                std::copy(rhs.data_, rhs.data_ + sp_, data_);
         }
 
         Stack_& operator=(const Stack_& rhs) {
-- 
2.43.0


From 67544c212ffca74580fb9bcaa234e0f1b83310ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 063/120] fix: appending matrices does not compile unless
 std::max is in scope

---
 dal/math/matrix/matrixutils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index b6fee4d..33f4476 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -27,7 +27,7 @@ namespace Dal {
                 return Append(above, Matrix_<E_>(below));
             const int offset = above->Rows();
             // efficient unless below is too wide
-            above->Resize(offset + below.Rows(), max(above->Cols(), below.Cols()));
+            above->Resize(offset + below.Rows(), std::max(above->Cols(), below.Cols()));
             for (int ir = 0; ir < below.Rows(); ++ir) {
                 auto t_row = above->Row(ir + offset);
                 const auto src = below.Row(ir);
-- 
2.43.0


From fb85769c04e7fb58cb6c304719d2d467b5d5dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 064/120] fix: report addresses are checked against each axis

An index beyond its axis silently named an element of the next slice and
a negative one read before the data; axes of the same name overwrote each
other.
---
 dal/risk/report.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index a169500..b243e89 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -59,6 +59,7 @@ namespace Dal {
         for (const auto& a : axes) {
             NOTICE(a.name_);
             const int which = static_cast<int>(axes_.size()); // number which preceded it
+            REQUIRE(!axes_.count(a.name_), "Axis name is not unique");
             REQUIRE(a.size_ > 0 || which == 0, "Zero size is not allowed");
             axes_[a.name_] = which;
             strides_ *= a.size_;
@@ -91,9 +92,19 @@ namespace Dal {
         return static_cast<int>(which > 0 ? strides_[which - 1] : vals_.size()) / strides_[which];
     }
 
+    namespace {
+        // the first axis is unbounded above; the others are limited by the stride of the preceding axis
+        int Offset(const Report::Address_& loc, const Vector_<int>& strides) {
+            REQUIRE(loc.locs_.size() == strides.size(), "Address does not match the report's axes");
+            for (int ii = 0; ii < static_cast<int>(strides.size()); ++ii)
+                REQUIRE(loc.locs_[ii] >= 0 && (ii == 0 || loc.locs_[ii] < strides[ii - 1] / strides[ii]),
+                        "Index is outside its axis of the report");
+            return InnerProduct(loc.locs_, strides);
+        }
+    } // namespace
+
     double& Report_::operator[](const Report::Address_& loc) {
-        assert(*MinElement(loc.locs_) >= 0);
-        const int which = InnerProduct(loc.locs_, strides_);
+        const int which = Offset(loc, strides_);
         if (which >= vals_.size()) {
             vals_.resize((loc.locs_[0] + 1) * strides_[0]); // make it big enough by extending the first axis only
             REQUIRE(which < vals_.size(), "Invalid index into report");
@@ -102,8 +113,7 @@ namespace Dal {
     }
 
     const double& Report_::operator[](const Report::Address_& loc) const {
-        assert(*MinElement(loc.locs_) >= 0);
-        const int which = InnerProduct(loc.locs_, strides_);
+        const int which = Offset(loc, strides_);
         REQUIRE(which < vals_.size(), "Invalid index into const report");
         return vals_[which];
     }
@@ -133,6 +143,7 @@ namespace Dal {
         const auto n_labels = labels_.size();
         NOTICE(static_cast<int>(n_labels));
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
+        REQUIRE(offset >= 0, "Header row must not be negative");
         if (offset >= values_.Rows())
             values_.Resize(offset + 1, static_cast<int>(labels_.size()));
         auto row = values_.Row(offset);
-- 
2.43.0


From bc10ed296b2b10b38fb1c409fa344c8a948a990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:55 +0000
Subject: [PATCH 065/120] fix: the note on a report's header outlived the value
 it refers to

A note keeps the address of its value until the end of the scope; here
the value was a temporary, read when the error message was composed.
---
 dal/risk/report.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index b243e89..15918b7 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -140,8 +140,8 @@ namespace Dal {
 
     void Report_::AddHeaderRow(const String_& axes, int offset, const Vector_<Cell_>& values) {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
-        const auto n_labels = labels_.size();
-        NOTICE(static_cast<int>(n_labels));
+        const int n_labels = static_cast<int>(labels_.size());
+        NOTICE(n_labels);
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
         REQUIRE(offset >= 0, "Header row must not be negative");
         if (offset >= values_.Rows())
-- 
2.43.0


From 1a518de00ee70ad7e29bea22da1a6788ba2643ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 066/120] fix: interpolators without points, or stored splines
 of mismatched sizes, are refused

They were accepted and read outside their data when queried.
---
 dal/math/interp/interp.cpp      | 2 ++
 dal/math/interp/interp2d.cpp    | 1 +
 dal/math/interp/interpcubic.cpp | 5 ++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dal/math/interp/interp.cpp b/dal/math/interp/interp.cpp
index 9387b6c..b410374 100644
--- a/dal/math/interp/interp.cpp
+++ b/dal/math/interp/interp.cpp
@@ -27,12 +27,14 @@ namespace {
 namespace Dal {
     Interp1Linear_::Interp1Linear_(const String_& name, const Vector_<>& x, const Vector_<>& f)
         : Interp1_(name), x_(x), f_(f) {
+        REQUIRE(!x_.empty(), "interpolation needs at least one point");
         REQUIRE(x_.size() == f_.size(), "x_ size must be equal to f_ size");
         REQUIRE(IsMonotonic(x_, std::less_equal<>()), "x_ array should be monotonic");
     }
 
     Interp1Linear_::Interp1Linear_(const String_& name, const std::map<double, double>& f)
         : Interp1_(name), x_(Keys(f)), f_(MapValues(f)) {
+        REQUIRE(!x_.empty(), "interpolation needs at least one point");
         REQUIRE(IsMonotonic(x_, std::less_equal<>()), "x_ array should be monotonic");
     }
 
diff --git a/dal/math/interp/interp2d.cpp b/dal/math/interp/interp2d.cpp
index 0fc6c1d..84fae81 100644
--- a/dal/math/interp/interp2d.cpp
+++ b/dal/math/interp/interp2d.cpp
@@ -27,6 +27,7 @@ namespace {
 namespace Dal {
     Interp2Linear_::Interp2Linear_(const String_& name, const Vector_<>& x, const Vector_<>& y, const Matrix_<>& f)
         : Interp2_(name), x_(x), y_(y), f_(f) {
+        REQUIRE(!x_.empty() && !y_.empty(), "interpolation needs at least one point in each direction");
         REQUIRE((x_.size() == f_.Rows()) && (y_.size() == f_.Cols()), "x_, y_ size must be equal to f_ size");
         REQUIRE(IsMonotonic(x_, std::less_equal<>()), "x_ array should be monotonic");
         REQUIRE(IsMonotonic(y_, std::less_equal<>()), "y_ array should be monotonic");
diff --git a/dal/math/interp/interpcubic.cpp b/dal/math/interp/interpcubic.cpp
index 0bf598a..b128da4 100644
--- a/dal/math/interp/interpcubic.cpp
+++ b/dal/math/interp/interpcubic.cpp
@@ -42,7 +42,10 @@ namespace Dal {
                     const Interp::Boundary_& rhs);
 
             Cubic1_(const String_& name, const Vector_<>& x, const Vector_<>& f, const Vector_<>& fpp)
-                : Interp1_(name), x_(x), f_(f), fpp_(fpp) {}
+                : Interp1_(name), x_(x), f_(f), fpp_(fpp) {
+                REQUIRE(x_.size() > 1 && IsMonotonic(x_), "x size should be greater than 1 and monotonic");
+                REQUIRE(x_.size() == f_.size() && x_.size() == fpp_.size(), "x, f and fpp size should be same");
+            }
 
             void Write(Archive::Store_& dst) const override;
         };
-- 
2.43.0


From 20f9f28c13867c69fbb0977d4a6763e0e314f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 067/120] fix: piecewise functions with unordered, missing or
 unmatched knots are refused

They were accepted and read outside their data, or gave meaningless
integrals.
---
 dal/curve/piecewiseconstant.hpp | 3 +++
 dal/curve/piecewiselinear.hpp   | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dal/curve/piecewiseconstant.hpp b/dal/curve/piecewiseconstant.hpp
index 132121b..48a3ebe 100644
--- a/dal/curve/piecewiseconstant.hpp
+++ b/dal/curve/piecewiseconstant.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <dal/math/vectors.hpp>
+#include <dal/utilities/algorithms.hpp>
 #include <dal/time/date.hpp>
 #include <dal/storage/storable.hpp>
 
@@ -22,6 +23,8 @@ namespace Dal {
 
         PiecewiseConstant_(const Vector_ <Date_> &knots, const Vector_<> &f_right, const String_ &name = String_())
                 : Storable_("PiecewiseConstant", name), knotDates_(knots), fRight_(f_right) {
+            REQUIRE(!knotDates_.empty() && IsMonotonic(knotDates_, std::less_equal<>()), "knot dates should be non-empty and ascending");
+            REQUIRE(knotDates_.size() == fRight_.size(), "each knot date should have a value");
             Update();
         }
 
diff --git a/dal/curve/piecewiselinear.hpp b/dal/curve/piecewiselinear.hpp
index bed591f..8a5262f 100644
--- a/dal/curve/piecewiselinear.hpp
+++ b/dal/curve/piecewiselinear.hpp
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <dal/math/vectors.hpp>
+#include <dal/time/date.hpp>
+#include <dal/utilities/algorithms.hpp>
 
 namespace Dal {
     class Date_;
@@ -22,7 +24,11 @@ namespace Dal {
         void Update() { sofar_ = Sofar(); }
 
         PiecewiseLinear_(const Vector_<Date_>& knots, const Vector_<>& f_left, const Vector_<>& f_right) : knotDates_(
-                knots), fLeft_(f_left), fRight_(f_right) { Update(); }
+                knots), fLeft_(f_left), fRight_(f_right) {
+            REQUIRE(!knotDates_.empty() && IsMonotonic(knotDates_, std::less_equal<>()), "knot dates should be non-empty and ascending");
+            REQUIRE(knotDates_.size() == fLeft_.size() && knotDates_.size() == fRight_.size(), "each knot date should have a left and a right value");
+            Update();
+        }
 
         [[nodiscard]] double IntegralTo(const Date_ &date) const;
         [[nodiscard]] double ValueAt(const Date_ &date, bool from_right = true) const;
-- 
2.43.0


From 994c3e58399f33334da659907afefc9161c2f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:33 +0000
Subject: [PATCH 068/120] fix: implied normal volatility, and implied
 volatility of large forwards

The normal formula returned intrinsic value unless forward and strike had
the same sign, its implied volatility started the search for log(vol) at
-1.5 times the forward, and both implied volatilities accepted an error of
log(vol) proportional to the forward.
---
 dal/math/distribution/black.cpp | 10 ++++++----
 dal/math/distribution/black.hpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 1dde9fb..6a27b37 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -16,7 +16,7 @@ namespace Dal {
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
             Brent_ task(guess > 0.0 ? log(guess) : -1.5);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
+            Converged_ done(TOL, TOL * max(1.0, price)); // the search is for log(vol)
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
                 if (done(task, BlackOpt(fwd, vol, strike, type) - price))
@@ -55,9 +55,11 @@ namespace Dal {
         double BachelierIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
-            REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? guess : -1.5 * fwd);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
+            REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BachelierIV");
+            // the search is for log(vol); as a default, start at a fraction of the forward, or of the moneyness when that is larger
+            const double scale = max(fabs(fwd), fabs(fwd - strike));
+            Brent_ task(guess > 0.0 ? log(guess) : (scale > 0.0 ? log(scale) : 0.0) - 1.5);
+            Converged_ done(TOL, TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
                 if (done(task, BachelierOpt(fwd, vol, strike, type) - price))
diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index af8dd3c..767641f 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -33,7 +33,7 @@ namespace Dal {
 
         template <class T_>
         T_ BachelierOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type)  {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol))
                 return type.Payout(fwd, strike);
             T_ diff = fwd - strike;
             T_ d = diff / vol;
-- 
2.43.0


From 5d5f23dd72e115a0f2cb079f7d8d682616e1b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:45 +0000
Subject: [PATCH 069/120] fix: Merton's series ended after ten jumps

With several expected jumps it lost most of the value (with twenty, a call
of strike nearly zero on a spot of 100 was worth 1.39).
---
 dal/math/analytics/vanilla.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dal/math/analytics/vanilla.hpp b/dal/math/analytics/vanilla.hpp
index 0f2a98e..3e232d0 100644
--- a/dal/math/analytics/vanilla.hpp
+++ b/dal/math/analytics/vanilla.hpp
@@ -32,17 +32,16 @@ namespace Dal::AAD {
         const T_ var = vol * vol;
         const T_ intensT = intens * mat;
 
-        unsigned fact = 1;
-        double iT = 1.0;
-        const size_t cut = 10;
+        // enough terms to exhaust the distribution of the number of jumps, also after reweighting by the jump size
+        const double meanJumps = static_cast<double>(intensT) * std::max(1.0, std::exp(static_cast<double>(mv2)));
+        const auto cut = static_cast<size_t>(10 + std::ceil(meanJumps + 10.0 * std::sqrt(meanJumps)));
+        T_ prob = Dal::exp(-intensT);
         T_ result = 0.0;
         for (size_t n = 0; n < cut; ++n) {
             const T_ s = spot * Dal::exp(n * mv2 - comp * mat);
             const T_ v = Dal::sqrt(var + n * varJmp / mat);
-            const T_ prob = Dal::exp(-intensT) * iT / fact;
             result += prob * BlackScholes<T_>(s, strike, v, mat);
-            fact *= n + 1;
-            iT *= intensT;
+            prob *= intensT / static_cast<double>(n + 1);
         }
         return result;
     }
-- 
2.43.0


From b9f0f9a6537e2a89b55cc56e32371153059ceaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:28 +0000
Subject: [PATCH 070/120] fix: the inverse normal distribution of 0 or 1 was
 not a number

---
 dal/math/specialfunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/specialfunctions.cpp b/dal/math/specialfunctions.cpp
index b7373c5..7d21e5d 100644
--- a/dal/math/specialfunctions.cpp
+++ b/dal/math/specialfunctions.cpp
@@ -39,7 +39,7 @@ namespace Dal {
 
     double InverseNCDF(double x, bool precise, bool polish) {
 
-        REQUIRE(x >= 0.0 && x <= 1.0, "x should be in bound [0, 1]");
+        REQUIRE(x > 0.0 && x < 1.0, "x should be in bound (0, 1)");
 
         static const double INV_NORM = 2.5066282746310002;
         static const double a1_ = -3.969683028665376e+01;
-- 
2.43.0


From a7daf6d6b57c2677fb5b3f628706a8054e9d79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:58 +0000
Subject: [PATCH 071/120] fix: implied volatility of options deep in the money

Rounding of the intrinsic part turned the search in the wrong direction,
and it gave up. The time value is matched instead.
---
 dal/math/distribution/black.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 6a27b37..ac458aa 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -14,12 +14,16 @@ namespace Dal {
         double BlackIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
-            REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
+            const double intrinsic = type.Payout(fwd, strike);
+            REQUIRE(price >= intrinsic, "value below intrinsic value in BlackIV");
+            // match the time value of the out-of-the-money option, which rounding does not perturb
+            const OptionType_ otm(fwd > strike ? OptionType_::Value_::PUT : OptionType_::Value_::CALL);
+            const double multiple = type.Switch() == OptionType_::Value_::STRADDLE ? 2.0 : 1.0;
             Brent_ task(guess > 0.0 ? log(guess) : -1.5);
             Converged_ done(TOL, TOL * max(1.0, price)); // the search is for log(vol)
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
-                if (done(task, BlackOpt(fwd, vol, strike, type) - price))
+                if (done(task, multiple * BlackOpt(fwd, vol, strike, otm) - (price - intrinsic)))
                     return vol;
             }
             THROW("exhausted iterations in BlackIV");
@@ -55,14 +59,17 @@ namespace Dal {
         double BachelierIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
-            REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BachelierIV");
+            const double intrinsic = type.Payout(fwd, strike);
+            REQUIRE(price >= intrinsic, "value below intrinsic value in BachelierIV");
+            const OptionType_ otm(fwd > strike ? OptionType_::Value_::PUT : OptionType_::Value_::CALL);
+            const double multiple = type.Switch() == OptionType_::Value_::STRADDLE ? 2.0 : 1.0;
             // the search is for log(vol); as a default, start at a fraction of the forward, or of the moneyness when that is larger
             const double scale = max(fabs(fwd), fabs(fwd - strike));
             Brent_ task(guess > 0.0 ? log(guess) : (scale > 0.0 ? log(scale) : 0.0) - 1.5);
             Converged_ done(TOL, TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
-                if (done(task, BachelierOpt(fwd, vol, strike, type) - price))
+                if (done(task, multiple * BachelierOpt(fwd, vol, strike, otm) - (price - intrinsic)))
                     return vol;
             }
             THROW("exhausted iterations in BachelierIV");
-- 
2.43.0


From 1916bcf35daefb08f8da9492bcb28bc0a591118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:14 +0000
Subject: [PATCH 072/120] fix: a point where an equation has no value passed as
 a solution

The largest and smallest elements skip those that are not numbers, unless
the first is one.
---
 dal/math/optimization/underdetermined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 9df22aa..844db4f 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -225,7 +225,7 @@ namespace Dal {
             for (int iBacktrack = 0; iBacktrack < controls.maxBacktrackTries_; ++iBacktrack) {
                 Transform(xOld, s, std::plus<>(), &xNew);
                 Vector_<> fNew = func.F(xNew);
-                if (*MaxElement(fNew) < 1.0 && *MinElement(fNew) > -1.0)
+                if (AllOf(fNew, [](double e) { return fabs(e) < 1.0; })) // false if any element is not a number
                     return xNew;
 
                 const double oldOld = InnerProduct(fOld, fOld);
-- 
2.43.0


From 34406872ab2c456e335d02bccdb033e5f9588704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:25 +0000
Subject: [PATCH 073/120] fix: the controls of the underdetermined search were
 never defined

underdetermined.cpp included the declaration of the generated settings
twice and their definition never, so nothing could construct them.
---
 dal/math/optimization/underdetermined.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 844db4f..30d9072 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -15,7 +15,7 @@
 #include <dal/utilities/numerics.hpp>
 
 namespace Dal {
-#include <dal/auto/MG_UnderdeterminedControls_object.hpp>
+#include <dal/auto/MG_UnderdeterminedControls_object.inc>
 
     namespace Underdetermined {
         void Function_::Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const {
-- 
2.43.0


From 8ad9ec497a36c62096b5b1d681d54ddd09fb161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:25 +0000
Subject: [PATCH 074/120] fix: an approximate fit failed once it had arrived

Where the search makes no further step, the secant update divided by
the square of the step, and the jacobian became not a number.
---
 dal/math/optimization/underdetermined.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 30d9072..ebdf1a5 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -276,10 +276,10 @@ namespace Dal {
                 ++ie; // we used up an evaluation too
             }
             Vector_<> s = ApproxQPStep(guess, xOld, fOld, *j, jWeight, w);
-            // const double sNorm = InnerProduct(s, s); POSTPONED -- stop early when step is very small
+            const double sNorm = InnerProduct(s, s); // POSTPONED -- stop early when step is very small
             Transform(xOld, s, std::plus<>(), &xNew);
             Vector_<> fNew = func.F(xNew);
-            if (ticker > controls.maxRestarts_) // we are not about to restart
+            if (ticker > controls.maxRestarts_ && sNorm > 0.0) // we are not about to restart, and learned something
                 j->SecantUpdate(s, Apply(std::minus<>(), fNew, fOld));
             xOld = xNew;
             fOld = fNew;
-- 
2.43.0


From 81295959e0b7bf543e7763128e220bb340ed0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:25 +0000
Subject: [PATCH 075/120] fix: root search on functions with very small or very
 large values

The sign of a product was used, which is lost when it underflows, and
the interpolation gave no number when its terms did: then bisect.
---
 dal/math/rootfind.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dal/math/rootfind.cpp b/dal/math/rootfind.cpp
index 25e90ae..c5d4409 100644
--- a/dal/math/rootfind.cpp
+++ b/dal/math/rootfind.cpp
@@ -8,6 +8,11 @@
 #include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
+    namespace {
+        // at least one is zero, or the signs differ; the product may underflow
+        bool OppositeSigns(double x, double y) { return (x <= 0.0 && y >= 0.0) || (x >= 0.0 && y <= 0.0); }
+    } // namespace
+
     BracketedBrent_::BracketedBrent_(const std::pair<double, double>& low,
                                      const std::pair<double, double>& high,
                                      double tol)
@@ -18,7 +23,7 @@ namespace Dal {
     void BracketedBrent_::Initialize(const std::pair<double, double>& low, const std::pair<double, double>& high) {
         a_ = low;
         b_ = high;
-        REQUIRE(a_.second * b_.second <= 0.0, "Interval is not bracketed");
+        REQUIRE(OppositeSigns(a_.second, b_.second), "Interval is not bracketed");
         if (std::fabs(a_.second) < std::fabs(b_.second))
             std::swap(a_, b_);
         c_ = a_;
@@ -36,7 +41,7 @@ namespace Dal {
         }
         double cDist = fabs(
             c_.first - (bisect_ ? b_.first : d_)); // d_ won't be used before it is set, because bisect_ is set at start
-        bisect_ = (s - b_.first) * (s - 0.75 * a_.first - 0.25 * b_.first) >= 0.0 || fabs(s - b_.first) > 0.5 * cDist ||
+        bisect_ = !std::isfinite(s) || (s - b_.first) * (s - 0.75 * a_.first - 0.25 * b_.first) >= 0.0 || fabs(s - b_.first) > 0.5 * cDist ||
                   cDist < tol_;
         if (bisect_)
             s = 0.5 * (a_.first + b_.first);
@@ -49,7 +54,7 @@ namespace Dal {
         const double s = d_;
         d_ = c_.first;
         c_ = b_;
-        if (f_s * a_.second > 0)
+        if (!OppositeSigns(f_s, a_.second))
             a_ = std::make_pair(s, f_s);
         else
             b_ = std::make_pair(s, f_s);
@@ -79,7 +84,7 @@ namespace Dal {
             engine_.PutY(y);
             break;
         case Phase_::HUNT:
-            if (y * knownPoint_.second <= 0.0) {
+            if (OppositeSigns(y, knownPoint_.second)) {
                 engine_.Initialize(knownPoint_, std::make_pair(trialX_, y));
                 phase_ = Phase_::BRACKETED;
             } else {
-- 
2.43.0


From 7cc48427b3910b08c847e3e2929454a578b5835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:44 +0000
Subject: [PATCH 076/120] fix: meshes of less than two points are refused

They wrote outside the empty mesh. Also, one interpolator was created
and never deleted per mesh.
---
 dal/math/pde/meshers/concentrating1dmesher.cpp | 2 +-
 dal/math/pde/meshers/uniform1dmesher.hpp       | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/math/pde/meshers/concentrating1dmesher.cpp b/dal/math/pde/meshers/concentrating1dmesher.cpp
index feb5994..b302017 100644
--- a/dal/math/pde/meshers/concentrating1dmesher.cpp
+++ b/dal/math/pde/meshers/concentrating1dmesher.cpp
@@ -15,6 +15,7 @@ namespace Dal {
         const auto cPoint = cPoints.first;
         const auto density = cPoints.second * (end - start);
 
+        REQUIRE(size > 1, "a mesh needs at least two points");
         REQUIRE(cPoint >= start && cPoint <= end, "cPoint must be between start and end");
         REQUIRE(density > 0.0, "density > 0 required");
 
@@ -37,7 +38,6 @@ namespace Dal {
             u.push_back(1.0);
             z.push_back(1.0);
 
-            Interp::NewLinear("intep", u, z);
             transform = std::shared_ptr<Interp1_>(Interp::NewLinear("intep", u, z));
         }
 
diff --git a/dal/math/pde/meshers/uniform1dmesher.hpp b/dal/math/pde/meshers/uniform1dmesher.hpp
index 481a5d2..9cd1f04 100644
--- a/dal/math/pde/meshers/uniform1dmesher.hpp
+++ b/dal/math/pde/meshers/uniform1dmesher.hpp
@@ -12,6 +12,7 @@ namespace Dal {
     public:
         Uniform1DMesher_(double start, double end, int size)
             :FDM1DMesher_(size) {
+            REQUIRE(size > 1, "a mesh needs at least two points");
             REQUIRE(end > start, "end must be large than start");
             const auto dx = (end - start) / (size - 1);
 
-- 
2.43.0


From 78f1393c5bdb690353a0aa2dae469551064d42fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:44 +0000
Subject: [PATCH 077/120] fix: roll-back of values or coefficients not matching
 the mesh

They were read and written past their end.
---
 dal/math/pde/fd1d.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/pde/fd1d.cpp b/dal/math/pde/fd1d.cpp
index 44ee30a..90c6310 100644
--- a/dal/math/pde/fd1d.cpp
+++ b/dal/math/pde/fd1d.cpp
@@ -35,6 +35,10 @@ namespace Dal::PDE {
     }
 
     void FD1D_::RollBwd(double dt, double theta, Vector_<>& res) {
+        REQUIRE(A_, "finite difference scheme is not initialized");
+        const auto n = static_cast<size_t>(A_->Size());
+        REQUIRE(res.size() == n && r_.size() == n && mu_.size() == n && var_.size() == n,
+                "values and coefficients must be given at every point of the mesh");
         if (theta != 1.0) {
             CalcAx(1.0, dt * (1.0 - theta));
             vs_ = res;
-- 
2.43.0


From 45f3aa08167c50cd3d720e723f530c4854936eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 078/120] fix: splitting lost an empty last part

Asked to keep empty parts, Split did not keep one after the last
separator, so that a dictionary entry without value ("key=") was written
but could not be read.
---
 dal/string/strings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ea2fcb8..71be6b9 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -25,6 +25,8 @@ namespace Dal::String {
             if (ret_val.back().empty() && !keep_empties)
                 ret_val.pop_back();
         }
+        if (keep_empties && !src.empty() && src.back() == sep)
+            ret_val.emplace_back(); // after the last separator
         return ret_val;
     }
 
-- 
2.43.0


From af4dce44cc7c3632d312dfe313e01c52237fd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:36 +0000
Subject: [PATCH 079/120] fix: text that only begins with an integer was read
 as one

ToInt ignored whatever followed the digits ("12:3x" gave three minutes),
where ToDouble refuses it.
---
 dal/string/strings.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index 71be6b9..0fa1cb3 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -39,7 +39,12 @@ namespace Dal::String {
         }
     }
 
-    int ToInt(const String_& src) { return std::stoi(src.c_str()); }
+    int ToInt(const String_& src) {
+        size_t idx;
+        const auto val = std::stoi(src.c_str(), &idx);
+        REQUIRE(idx == src.size(), "Not a valid integer string");
+        return val;
+    }
 
     double ToDouble(const String_& src) {
         size_t idx;
-- 
2.43.0


From d53e4953259a7dede74325b2d8b452475075581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 080/120] fix: numbers written as text lost digits

FromDouble wrote six decimals whatever the number, so that 1e-7 became
zero; it now writes as many digits as it takes to read the same number.
ToDouble refused the smallest (denormal) numbers.
---
 dal/string/strings.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index 0fa1cb3..6ae5c63 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -3,6 +3,9 @@
 //
 
 #include <bitset>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <sstream>
 #include <dal/platform/strict.hpp>
 #include <dal/string/strings.hpp>
@@ -47,13 +50,24 @@ namespace Dal::String {
     }
 
     double ToDouble(const String_& src) {
-        size_t idx;
-        const auto val = std::stod(src.c_str(), &idx);
-        REQUIRE(idx == src.size(), "Not a valid number string");
+        char* end;
+        errno = 0;
+        const double val = std::strtod(src.c_str(), &end);
+        REQUIRE(end != src.c_str() && end == src.c_str() + src.size(), "Not a valid number string");
+        REQUIRE(errno != ERANGE || std::fabs(val) < 1.0, "Number is too large");
         return val;
     }
 
-    String_ FromDouble(double src) { return String_(std::to_string(src)); }
+    String_ FromDouble(double src) {
+        std::string ret_val = std::to_string(src);
+        for (int precision = 15; precision <= 17 && std::strtod(ret_val.c_str(), nullptr) != src && src == src; ++precision) {
+            std::ostringstream oss; // six decimals are not enough
+            oss.precision(precision);
+            oss << src;
+            ret_val = oss.str();
+        }
+        return String_(ret_val);
+    }
 
     String_ FromInt(int src) { return String_(std::to_string(src)); }
     String_ FromBool(bool src) {
-- 
2.43.0


From 0cc30cdaad9d04febbd512c9362cc3cff36916e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 081/120] fix: names were compared outside a table for
 characters beyond ASCII

---
 dal/string/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index 6ae5c63..ebed176 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -109,7 +109,7 @@ namespace Dal::String {
         auto p = lhs.begin();
         auto q = rhs;
         while (true) {
-            while (p != lhs.end() && SKIP[*p])
+            while (p != lhs.end() && SKIP[static_cast<unsigned char>(*p)])
                 ++p;
             if (!*q || p == lhs.end())
                 return !*q && p == lhs.end();
-- 
2.43.0


From 38e079ad4114e6a414fe378a49b0fdf3fa84c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 082/120] fix: cells with numbers beyond the range of integers

Asking whether they are integers, or for their text, converted them to
an integer first, which has no defined result.
---
 dal/math/cell.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dal/math/cell.cpp b/dal/math/cell.cpp
index 83d4330..414d44c 100644
--- a/dal/math/cell.cpp
+++ b/dal/math/cell.cpp
@@ -11,10 +11,13 @@
 namespace Dal {
 
     namespace {
+        bool IsExactInt(double d) {
+            return d >= std::numeric_limits<int>::min() && d <= std::numeric_limits<int>::max() && d == static_cast<int>(d);
+        }
+
         struct ToString_ {
             String_ operator()(double d) const {
-                int ii = AsInt(d);
-                return ii == d ? String::FromInt(ii) : String::FromDouble(d);
+                return IsExactInt(d) ? String::FromInt(static_cast<int>(d)) : String::FromDouble(d);
             }
             String_ operator()(bool b) const { return b ? "TRUE" : "FALSE"; }
             String_ operator()(const String_& s) const { return s; }
@@ -32,19 +35,15 @@ namespace Dal {
 
         struct ToInt_ {
             int operator()(double d) const {
-                int ii = AsInt(d);
-                REQUIRE(ii == d, "Call contains non-integer number");
-                return ii;
+                REQUIRE(IsExactInt(d), "Call contains non-integer number");
+                return static_cast<int>(d);
             }
             int operator()(bool b) const { return b ? 1 : 0; }
             template <class E_> int operator()(E_) const { THROW("Cell must contain an integer value"); }
         };
 
         struct IsInt_ {
-            bool operator()(double d) const {
-                int ii = AsInt(d);
-                return ii == d;
-            }
+            bool operator()(double d) const { return IsExactInt(d); }
             template <class E_> bool operator()(E_) const { return false; }
         };
     } // namespace
-- 
2.43.0


From dea11270e218b5501bf09cddd88ef61adee64a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 083/120] fix: booleans of a dictionary were read back as
 strings

Dictionary::FromString recognised numbers and dates, but not the "true"
and "false" that ToString writes.
---
 dal/utilities/dictionary.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/dal/utilities/dictionary.cpp b/dal/utilities/dictionary.cpp
index 2408eef..c710238 100644
--- a/dal/utilities/dictionary.cpp
+++ b/dal/utilities/dictionary.cpp
@@ -58,17 +58,7 @@ namespace Dal {
             Vector_<String_> kv = String::Split(kev, '=', true);
             REQUIRE(kv.size() == 2, "Dictionary entry must have the form 'key=value'");
             REQUIRE(!kv.front().empty(), "Empty dictionary key");
-            const String_& vs = kv.back();
-            Cell_ value;
-            if (String::IsNumber(vs))
-                value = String::ToDouble(vs);
-            else if (Date::IsDateString(vs))
-                value = Date::FromString(vs);
-            else if (DateTime::IsDateTimeString(vs))
-                value = DateTime::FromString(vs);
-            else if (!vs.empty())
-                value = vs;
-            ret_val.Insert(kv.front(), value);
+            ret_val.Insert(kv.front(), Cell::ConvertString(kv.back()));
         }
         return ret_val;
     }
-- 
2.43.0


From e4e89fb3404d4dee47e1f96d87304d1c79e70697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:44 +0000
Subject: [PATCH 084/120] fix: archived integers and booleans could not be read
 back

---
 dal/storage/archive.hpp |  3 +++
 dal/storage/json.cpp    | 15 ++++++++++-----
 dal/storage/splat.cpp   |  2 ++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dal/storage/archive.hpp b/dal/storage/archive.hpp
index 95bfa6f..32b2fcd 100644
--- a/dal/storage/archive.hpp
+++ b/dal/storage/archive.hpp
@@ -28,6 +28,9 @@ namespace Dal::Archive {
         Store_& Element(int index); // just converts to String_ name and gets a child
 
         virtual Store_& operator=(double val) = 0;
+        virtual Store_& operator=(int val) = 0;
+        virtual Store_& operator=(bool val) = 0;
+        Store_& operator=(const char* val) { return operator=(String_(val)); } // hides ptr-to-bool conversion
         virtual Store_& operator=(const String_& val) = 0;
         virtual Store_& operator=(const Date_& val) = 0;
         virtual Store_& operator=(const DateTime_& val) = 0;
diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1d2379f..bc8487e 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -2,6 +2,7 @@
 // Created by wegam on 2023/1/21.
 //
 
+#include <climits>
 #include <fstream>
 #include <sstream>
 #include <regex>
@@ -93,11 +94,11 @@ namespace Dal {
                 return *this;
             }
 
-            XDocStore_& operator=(int val) {
-                dst_ << String::FromDouble(val);
+            XDocStore_& operator=(int val) override {
+                dst_ << String::FromInt(val);
                 return *this;
             }
-            XDocStore_& operator=(bool val) {
+            XDocStore_& operator=(bool val) override {
                 dst_ << String::FromBool(val);
                 return *this;
             }
@@ -186,8 +187,12 @@ namespace Dal {
             return doc.GetDouble();
         }
         int EInt(const element_t& doc) {
-            REQUIRE(doc.IsInt(), "Can't get an integer value");
-            return doc.GetInt();
+            if (doc.IsInt())
+                return doc.GetInt();
+            REQUIRE(doc.IsNumber(), "Can't get an integer value");
+            const double d = doc.GetDouble(); // integers used to be written with a decimal point
+            REQUIRE(d >= INT_MIN && d <= INT_MAX && d == static_cast<int>(d), "Can't get an integer value");
+            return static_cast<int>(d);
         }
         bool EBool(const element_t& doc) {
             REQUIRE(doc.IsBool(), "Can't get a boolean value");
diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index e6eedfc..438ec05 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -112,6 +112,8 @@ namespace Dal {
             }
 
             XSplat_& operator=(double d) override { SetScalar(d); return *this; }
+            XSplat_& operator=(int i) override { SetScalar(i); return *this; }
+            XSplat_& operator=(bool b) override { SetScalar(b); return *this; }
             XSplat_& operator=(const Date_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const DateTime_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const String_& s) override { SetScalar(s); return *this; }
-- 
2.43.0


From e810e5eb8a9c1536b9a6530fd4654e61977de2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:07 +0000
Subject: [PATCH 085/120] fix: archived strings with special characters could
 not be read back

---
 dal/storage/json.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index bc8487e..29d4c2f 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -36,9 +36,25 @@ namespace Dal {
         }
         // WRITE interface
         // given up on rapidjson, think it is simple enough to just stream out
-        // POSTPONED -- add a template parameter determining the checking strategy for funny characters inside strings
-        // this simple implementation just assumes there are none (fastest)
-        // could have one that wraps, one that errors
+
+        String_ Quoted(const String_& src) {
+            static const char HEX[] = "0123456789abcdef";
+            String_ ret_val("\"");
+            for (char c : src) {
+                const auto u = static_cast<unsigned char>(c);
+                if (c == '"' || c == '\\') {
+                    ret_val += '\\';
+                    ret_val += c;
+                } else if (u < 0x20) {
+                    ret_val += "\\u00";
+                    ret_val += HEX[u >> 4];
+                    ret_val += HEX[u & 15];
+                } else
+                    ret_val += c;
+            }
+            ret_val += '"';
+            return ret_val;
+        }
 
         struct XDocStore_ : Archive::Store_ {
             std::ostream& dst_;
@@ -57,7 +73,7 @@ namespace Dal {
             const char* Prep() { return empty_ ? "{\n" : ",\n"; }
             void StoreRefTag(const String_& tag) {
                 assert(empty_); // this should always be the first thing written
-                dst_ << Prep() << "\"" << TAG_LABEL << "\": \"" << tag << "\"";
+                dst_ << Prep() << "\"" << TAG_LABEL << "\": " << Quoted(tag);
                 empty_ = false;
             }
 
@@ -74,7 +90,7 @@ namespace Dal {
             }
             void SetType(const String_& type) override {
                 // assert(!empty_);	// should have a tag -- unless it is the toplevel!
-                dst_ << Prep() << "\"" << TYPE_LABEL << "\": \"" << type << "\"";
+                dst_ << Prep() << "\"" << TYPE_LABEL << "\": " << Quoted(type);
                 empty_ = false;
             }
             void Done() override { dst_ << '}'; }
@@ -82,7 +98,7 @@ namespace Dal {
                 std::shared_ptr<XDocStore_>& retval = children_[name];
                 if (!retval) {
                     // assume we are going to write the child immediately
-                    dst_ << Prep() << "\"" << name << "\": ";
+                    dst_ << Prep() << Quoted(name) << ": ";
                     retval.reset(new XDocStore_(dst_, sharedTags_, this, name));
                 }
                 return *retval;
@@ -102,7 +118,7 @@ namespace Dal {
                 dst_ << String::FromBool(val);
                 return *this;
             }
-            XDocStore_& operator=(const String_& val) override { dst_ << "\"" << val << "\""; return *this; }
+            XDocStore_& operator=(const String_& val) override { dst_ << Quoted(val); return *this; }
             XDocStore_& operator=(const Date_& val) override { return operator=(Date::ToString(val)); }
             XDocStore_& operator=(const DateTime_& val) override { return operator=(DateTime::ToString(val)); }
             XDocStore_& operator=(const Cell_& c) {
@@ -200,7 +216,7 @@ namespace Dal {
         }
         String_ EString(const element_t& doc) {
             REQUIRE(doc.IsString(), "Can't get a string value");
-            return String_(doc.GetString());
+            return String_(std::string(doc.GetString(), doc.GetStringLength()));
         }
         Date_ EDate(const element_t& doc) { // worrying about efficiency, so storing dates as Excel-compatible integers
             if (doc.IsInt())
@@ -228,7 +244,7 @@ namespace Dal {
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
             if (doc.IsString()) {
-                const std::string src = doc.GetString();
+                const std::string src(doc.GetString(), doc.GetStringLength());
                 if (std::regex_match(src, DATE_PATTERN))
                     return Cell_(Date::FromString(String_(src)));
                 else if (std::regex_match(src, DATE_TIME_PATTERN))
-- 
2.43.0


From f1d70a1e047b03ce4c07efc770c5bd8e180bfa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:07 +0000
Subject: [PATCH 086/120] fix: archived numbers lost digits and malformed text
 was read on

---
 dal/storage/json.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 29d4c2f..60d5bad 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <climits>
+#include <cmath>
 #include <fstream>
 #include <sstream>
 #include <regex>
@@ -24,6 +25,10 @@
 
 namespace Dal {
     namespace {
+        // full precision, or numbers do not come back as they were written
+        // iterative, or deeply nested text exhausts the stack
+        constexpr unsigned PARSE_FLAGS =
+            rapidjson::kParseFullPrecisionFlag | rapidjson::kParseNanAndInfFlag | rapidjson::kParseIterativeFlag;
         const char* TYPE_LABEL = "~type";
         const char* TAG_LABEL = "$tag";
         const char* COLS_LABEL = "cols";
@@ -106,7 +111,10 @@ namespace Dal {
 
             // store atoms
             XDocStore_& operator=(double val) override {
-                dst_ << String::FromDouble(val);
+                if (std::isfinite(val))
+                    dst_ << String::FromDouble(val);
+                else // as understood by the reader
+                    dst_ << (std::isnan(val) ? "NaN" : val > 0 ? "Infinity" : "-Infinity");
                 return *this;
             }
 
@@ -134,8 +142,10 @@ namespace Dal {
                     return operator=(Cell::ToDouble(c));
                 else if (Cell::IsInt(c))
                     return operator=(Cell::ToInt(c));
-                else if (Cell::IsEmpty(c))
-                    return operator=(String_());
+                else if (Cell::IsEmpty(c)) {
+                    dst_ << "null";
+                    return *this;
+                }
                 else
                     THROW("Internal error -- unhandled cell type");
             }
@@ -199,7 +209,7 @@ namespace Dal {
 
         // need checked access at every level -- support with "E" element-extractors
         double EDouble(const element_t& doc) {
-            REQUIRE(doc.IsDouble() || doc.IsInt(), "Can't get a numeric value");
+            REQUIRE(doc.IsNumber(), "Can't get a numeric value");
             return doc.GetDouble();
         }
         int EInt(const element_t& doc) {
@@ -239,7 +249,7 @@ namespace Dal {
         Cell_ ECell(const element_t& doc) {
             static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
             static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
-            if (doc.IsDouble())
+            if (doc.IsNumber())
                 return Cell_(doc.GetDouble());
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
@@ -332,7 +342,8 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        doc.Parse<PARSE_FLAGS>(src.c_str());
+        REQUIRE(!doc.HasParseError(), "Invalid JSON text");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -344,8 +355,9 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
+        doc.ParseStream<PARSE_FLAGS>(is);
         fclose(fp);
+        REQUIRE(!doc.HasParseError(), "Invalid JSON text in file '" + filename + "'");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
-- 
2.43.0


From 53f8fb017daa2a426157fe6ad4eb155cf958d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:32 +0000
Subject: [PATCH 087/120] fix: archived objects with missing parts were read
 from invalid memory

---
 dal/storage/json.cpp | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 60d5bad..866e398 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -31,6 +31,8 @@ namespace Dal {
             rapidjson::kParseFullPrecisionFlag | rapidjson::kParseNanAndInfFlag | rapidjson::kParseIterativeFlag;
         const char* TYPE_LABEL = "~type";
         const char* TAG_LABEL = "$tag";
+        const int MAX_EMPTY_SIZE = 1 << 20; // rows or columns of a matrix without any value
+        const char* ROWS_LABEL = "rows";
         const char* COLS_LABEL = "cols";
         const char* VALS_LABEL = "vals";
         using element_t = rapidjson::GenericValue<rapidjson::UTF8<>>;
@@ -198,9 +200,12 @@ namespace Dal {
             return ret_val;
         }
         // create matrix from vector of values
-        template <class E_> Matrix_<E_> AsMatrix(int cols, const Vector_<E_>& vals) {
-            REQUIRE(cols > 0 && !(vals.size() % cols), "Invalid number of matrix columns");
-            const int rows = vals.size() / cols;
+        template <class E_> Matrix_<E_> AsMatrix(int rows, int cols, const Vector_<E_>& vals) {
+            REQUIRE(cols >= 0 && (cols > 0 ? !(vals.size() % cols) : vals.empty()), "Invalid number of matrix columns");
+            if (cols > 0)
+                rows = vals.size() / cols;
+            REQUIRE(rows >= 0, "Invalid number of matrix rows");
+            REQUIRE(!vals.empty() || std::max(rows, cols) <= MAX_EMPTY_SIZE, "Matrix without values is too large");
             Matrix_<E_> ret_val(rows, cols);
             for (int ir = 0; ir < rows; ++ir)
                 std::copy(vals.begin() + ir * cols, vals.begin() + (ir + 1) * cols, ret_val.Row(ir).begin());
@@ -271,7 +276,9 @@ namespace Dal {
         struct XDocView_ : Archive::View_ {
             element_t& doc_; // may be shared
             mutable std::map<String_, Handle_<XDocView_>> children_;
+            mutable Handle_<Storable_> unshared_; // an object without a tag is known to nobody else
             XDocView_(element_t& doc) : doc_(doc) {}
+            bool HasMember(const char* name) const { return doc_.IsObject() && doc_.HasMember(name); }
 
             // shared-object part of Archive::View_ interface
             // we will do this by having a Tag() which is empty except for shared objects (same as Splat)
@@ -282,13 +289,14 @@ namespace Dal {
                 return String_();
             }
             String_ Tag() const {
-                if (doc_.HasMember(TAG_LABEL))
+                if (HasMember(TAG_LABEL))
                     return EString(doc_[TAG_LABEL]);
                 return String_();
             }
             Handle_<Storable_>& Known(Archive::Built_& built) const override // returns a reference within 'built'
             {
-                return built.known_[Tag()];
+                const String_ tag = Tag();
+                return tag.empty() ? unshared_ : built.known_[tag];
             }
 
             // direct storage of atoms
@@ -310,24 +318,26 @@ namespace Dal {
             // matrix storage is:
             //		the matrix has a child "cols" that gives the number of columns
             //		and a child "vals" that gives all the values, scanning each row in turn
-            Matrix_<> AsDoubleMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EDouble));
-            }
-            Matrix_<String_> AsStringMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EString));
-            }
-            Matrix_<Cell_> AsCellMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], ECell));
+            //      "rows" gives the number of rows, and is needed only when there are no columns
+            template <class E_> auto XMatrix(const E_& extract) const {
+                const int rows = HasMember(ROWS_LABEL) ? EInt(XChild(ROWS_LABEL)) : -1;
+                return AsMatrix(rows, EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), extract));
             }
+            Matrix_<> AsDoubleMatrix() const override { return XMatrix(EDouble); }
+            Matrix_<String_> AsStringMatrix() const override { return XMatrix(EString); }
+            Matrix_<Cell_> AsCellMatrix() const override { return XMatrix(ECell); }
 
             // object query interface
             String_ Type() const override {
-                if (doc_.HasMember(TYPE_LABEL))
+                if (HasMember(TYPE_LABEL))
                     return EString(doc_[TYPE_LABEL]);
                 return String_();
             }
-            element_t& XChild(const String_& name) const { return doc_[name.c_str()]; }
-            bool HasChild(const String_& name) const override { return doc_.HasMember(name.c_str()); }
+            element_t& XChild(const String_& name) const {
+                REQUIRE(HasMember(name.c_str()), "Child '" + name + "' not found");
+                return doc_[name.c_str()];
+            }
+            bool HasChild(const String_& name) const override { return HasMember(name.c_str()); }
             const View_& Child(const String_& name) const override {
                 Handle_<XDocView_>& ret_val = children_[name];
                 if (ret_val.IsEmpty())
-- 
2.43.0


From 1865a1081618e95fb3bdc512c3de86f69c87d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:49 +0000
Subject: [PATCH 088/120] fix: archived objects of the wrong type or nested
 without limit

---
 dal/storage/archive.cpp | 5 +++++
 dal/storage/archive.hpp | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/dal/storage/archive.cpp b/dal/storage/archive.cpp
index 5cf9b65..736050c 100644
--- a/dal/storage/archive.cpp
+++ b/dal/storage/archive.cpp
@@ -8,6 +8,8 @@
 
 
 namespace {
+    const int MAX_DEPTH = 1000; // each level uses the stack
+
     std::map<Dal::String_, const Dal::Archive::Reader_*>& TheBuilders() {
         RETURN_STATIC(std::map<Dal::String_, const Dal::Archive::Reader_*>);
     }
@@ -34,7 +36,10 @@ namespace Dal {
             auto pb = TheBuilders().equal_range(type);
             REQUIRE(pb.first != pb.second, "Type has no builder");
             REQUIRE(pb.first == --pb.second, "Builder is not unique");
+            REQUIRE(built.depth_ < MAX_DEPTH, "Objects are nested too deeply");
+            ++built.depth_;
             ret_val.reset(pb.first->second->Build(src, built));
+            --built.depth_;
         }
         return ret_val;
     }
diff --git a/dal/storage/archive.hpp b/dal/storage/archive.hpp
index 32b2fcd..9870638 100644
--- a/dal/storage/archive.hpp
+++ b/dal/storage/archive.hpp
@@ -50,6 +50,7 @@ namespace Dal::Archive {
     class Built_ {
     public:
         std::map<String_, Handle_<Storable_>> known_;
+        int depth_ = 0; // of the object being built, within others
     };
 
     class View_;
@@ -101,6 +102,7 @@ namespace Dal::Archive {
             Handle_<Storable_> object = Extract(src, share_);
             NOTICE2("Expected type", type_);
             Handle_<T_> ret_val = handle_cast<T_>(object);
+            REQUIRE(ret_val, "Object has wrong type");
             return ret_val;
         }
     };
-- 
2.43.0


From f2a46b66ad59da0199dd281e2c91c59c27da2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:15 +0000
Subject: [PATCH 089/120] fix: tables of objects with empty or single-column
 entries

---
 dal/storage/splat.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 438ec05..738bdd3 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -37,7 +37,7 @@ namespace Dal {
             explicit XSplat_(map<const Storable_*, String_>& shared_tags) : sharedTags_(shared_tags) {}
 
             int Rows() const {
-                REQUIRE(type_.empty() == children_.empty(), "children type status should be same");
+                REQUIRE(!type_.empty() || children_.empty(), "children type status should be same");
                 if (!val_.Empty()) {
                     REQUIRE(type_.empty(), "");
                     return val_.Rows();
@@ -45,7 +45,7 @@ namespace Dal {
                 int ret_val = 0;
                 for (const auto& c : children_)
                     ret_val += c.second->Rows();
-                return ret_val;
+                return max(1, ret_val); // even an entry without any value needs a line
             }
 
             int Cols() const {
@@ -53,7 +53,7 @@ namespace Dal {
                     return val_.Cols();
                 int ret_val = 0;
                 for (const auto& c : children_)
-                    ret_val += max(ret_val, c.second->Cols());
+                    ret_val = max(ret_val, c.second->Cols());
                 return 2 + ret_val;
             }
 
@@ -61,7 +61,7 @@ namespace Dal {
                 if (!val_.Empty()) {
                     for (int ir = 0; ir < val_.Rows(); ++ir)
                         copy(val_.Row(ir).begin(), val_.Row(ir).end(), dst.Row(ir + row_offset).begin() + col_offset);
-                } else {
+                } else if (!type_.empty()) {
                     dst(row_offset, col_offset) = tag_ + OBJECT_PREFACE + type_;
                     for (const auto& c : children_) {
                         dst(row_offset, 1 + col_offset) = c.first;
@@ -295,7 +295,7 @@ namespace Dal {
 
             pair<Matrix_<Cell_>::Row_::const_iterator, Matrix_<Cell_>::Row_::const_iterator> VectorRange() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a vector value from a multi-line entry");
-                int colStop = colStart_ + 1;
+                int colStop = colStart_;
                 while (colStop < data_.Cols() && !Cell::IsEmpty(data_(rowStart_, colStop)))
                     ++colStop;
                 return make_pair(data_.Row(rowStart_).begin() + colStart_, data_.Row(rowStart_).begin() + colStop);
@@ -312,19 +312,20 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;;) {
+                for (int ret_val = colStart_; ret_val < data_.Cols(); ++ret_val) {
                     for (int ir = rowStart_;; ++ir) {
                         if (ir == rowStop_)
                             return ret_val; // found an empty column
                         else if (!Cell::IsEmpty(data_(ir, ret_val)))
                             break; // column is not empty
                     }
-                    if (++ret_val == data_.Cols())
-                        return ret_val;
                 }
+                return data_.Cols();
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
                 Matrix_<VALUE_TYPE_OF(translate(data_(0, 0)))> ret_val;
+                if (col_stop == colStart_)
+                    return ret_val;
                 ret_val.Resize(rowStop_ - rowStart_, col_stop - colStart_);
                 for (int ir = rowStart_; ir < rowStop_; ++ir)
                     transform(data_.Row(ir).begin() + colStart_, data_.Row(ir).begin() + col_stop,
@@ -339,9 +340,11 @@ namespace Dal {
             Matrix_<Cell_> AsCellMatrix() const override { return TranslateMatrix(MatrixStop(), Identity_<Cell_>()); }
 
             Dictionary_ AsDictionary() const override {
-                REQUIRE(MatrixStop() == colStart_ + 2,
-                        "Can't extract dictionary because entry does not have two columns");
                 Dictionary_ ret_val;
+                const int colStop = MatrixStop();
+                if (colStop == colStart_)
+                    return ret_val;
+                REQUIRE(colStop == colStart_ + 2, "Can't extract dictionary because entry does not have two columns");
                 for (int ir = rowStart_; ir < rowStop_; ++ir)
                     ret_val.Insert(ExtractString(data_(ir, colStart_)), data_(ir, colStart_ + 1));
                 return ret_val;
-- 
2.43.0


From ae801ba93d242c39d31ead54d71628beaa3338f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:15 +0000
Subject: [PATCH 090/120] fix: tables too small for an object were read outside

---
 dal/storage/splat.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 738bdd3..5f42c82 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <climits>
 #include <map>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
@@ -159,9 +160,8 @@ namespace Dal {
 
         int ExtractInt(const Cell_& src) {
             const auto d = ExtractDouble(src);
-            int ret_val = static_cast<int>(d);
-            REQUIRE(ret_val == d, "Non-integer value not expected");
-            return ret_val;
+            REQUIRE(d >= INT_MIN && d <= INT_MAX && d == static_cast<int>(d), "Non-integer value not expected");
+            return static_cast<int>(d);
         }
 
         struct ExtractBool_ {
@@ -227,8 +227,13 @@ namespace Dal {
             XUnSplat_(const Matrix_<Cell_>& data, int row_start, int row_stop, int col_start, bool quiet)
                 : data_(data), rowStart_(row_start), rowStop_(row_stop), colStart_(col_start), quiet_(quiet) {}
 
+            const Cell_& First() const {
+                static const Cell_ EMPTY; // an entry may lie beyond the last column
+                return rowStart_ < data_.Rows() && colStart_ < data_.Cols() ? data_(rowStart_, colStart_) : EMPTY;
+            }
+
             String_ Type() const override {
-                const Cell_& c = data_(rowStart_, colStart_);
+                const Cell_& c = First();
                 if (auto p = std::get_if<String_>(&c.val_))
                     if (auto pt = p->find(OBJECT_PREFACE); pt != String_::npos)
                         return p->substr(pt + OBJECT_PREFACE.size());
@@ -236,7 +241,7 @@ namespace Dal {
             }
 
             String_ Tag() const {
-                const Cell_& c = data_(rowStart_, colStart_);
+                const Cell_& c = First();
                 if (auto p = std::get_if<String_>(&c.val_); p && p->substr(0, TAG_PREFACE.size()) == TAG_PREFACE)
                     return p->substr(0, p->find(OBJECT_PREFACE));
                 return {};
@@ -276,17 +281,12 @@ namespace Dal {
 
             const Cell_& GetScalar() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a scalar value from a multi-line entry");
-                REQUIRE(colStart_ == data_.Cols() - 1 || Cell::IsEmpty(data_(rowStart_, colStart_ + 1)),
+                REQUIRE(colStart_ >= data_.Cols() - 1 || Cell::IsEmpty(data_(rowStart_, colStart_ + 1)),
                         "Can't get a scalar value from a multi-row entry");
-                return data_(rowStart_, colStart_);
+                return First();
             }
 
-            int AsInt() const override {
-                auto temp = AsDouble();
-                int ret_val = Dal::AsInt(temp);
-                REQUIRE(ret_val == temp, "Can't get an integer from a non-integer entry");
-                return ret_val;
-            }
+            int AsInt() const override { return ExtractInt(GetScalar()); }
 
             double AsDouble() const override { return ExtractDouble(GetScalar()); }
             bool AsBool() const override { return ExtractBool(GetScalar()); }
@@ -350,7 +350,11 @@ namespace Dal {
                 return ret_val;
             }
 
-            Handle_<Storable_>& Known(Archive::Built_& built) const override { return built.known_[Tag()]; }
+            mutable Handle_<Storable_> unshared_; // an object without a tag is known to nobody else
+            Handle_<Storable_>& Known(Archive::Built_& built) const override {
+                const String_ tag = Tag();
+                return tag.empty() ? unshared_ : built.known_[tag];
+            }
         };
 
         Cell_ AsCell(const String_& content) {
-- 
2.43.0


From ebe2bd9a8fb0e3638f3c32d9a00d2f8233565a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:18 +0000
Subject: [PATCH 091/120] fix: long lines and failed operations on files were
 lost silently

---
 dal/storage/json.cpp   | 2 ++
 dal/utilities/file.cpp | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 866e398..1fd8519 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -378,6 +378,8 @@ namespace Dal {
         std::map<const Storable_*, String_> tags;
         XDocStore_ task(dst, tags, nullptr, String_());
         object.Write(task);
+        dst.close();
+        REQUIRE(dst.good(), "Can't write file '" + filename + "'");
     }
 
     String_ JSON::WriteString(const Storable_& object) {
diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 30b48ba..fdac0e3 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdio>
 #include <fstream>
+#include <string>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/utilities/file.hpp>
@@ -13,8 +14,9 @@
 namespace Dal::File {
     void Read(const String_& file_name, Vector_<String_>* dst) {
         std::ifstream src(file_name.c_str());
-        char buf[2048];
-        while (src.getline(buf, 2048))
+        REQUIRE(src.is_open(), "Can't open file '" + file_name + "'");
+        std::string buf;
+        while (std::getline(src, buf))
             dst->emplace_back(buf);
         src.close();
     }
@@ -22,8 +24,9 @@ namespace Dal::File {
     void Write(const String_& file_name, const Vector_<String_>& src) {
         std::ofstream dst(file_name.c_str());
         for (const auto& line : src)
-            dst << line << std::endl;
+            dst.write(line.data(), static_cast<std::streamsize>(line.size())) << std::endl;
         dst.close();
+        REQUIRE(dst.good(), "Can't write file '" + file_name + "'");
     }
 
     void Remove(const String_& file_name) {
-- 
2.43.0


From 21bcb178361ec9e56a72ac5e2c56d71effd1ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:18 +0000
Subject: [PATCH 092/120] fix: a cell of text in the format of a date made an
 archive unreadable

---
 dal/storage/json.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1fd8519..ede5e98 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -260,12 +260,15 @@ namespace Dal {
                 return Cell_(doc.GetBool());
             if (doc.IsString()) {
                 const std::string src(doc.GetString(), doc.GetStringLength());
-                if (std::regex_match(src, DATE_PATTERN))
-                    return Cell_(Date::FromString(String_(src)));
-                else if (std::regex_match(src, DATE_TIME_PATTERN))
-                    return Cell_(DateTime::FromString(String_(src)));
-                else
-                    return Cell_(String_(src));
+                try {
+                    if (std::regex_match(src, DATE_PATTERN))
+                        return Cell_(Date::FromString(String_(src)));
+                    else if (std::regex_match(src, DATE_TIME_PATTERN))
+                        return Cell_(DateTime::FromString(String_(src)));
+                } catch (const Exception_&) {
+                    // there is no such date
+                }
+                return Cell_(String_(src));
             }
             if (doc.IsNull())
                 return Cell_();
-- 
2.43.0


From 8d26c7009f88adb1ae5827b2a77def0416c00b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:18 +0000
Subject: [PATCH 093/120] fix: tables of objects in files lost the text and
 dates of their cells

---
 dal/storage/splat.cpp | 54 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 5f42c82..1921010 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -360,7 +360,7 @@ namespace Dal {
         Cell_ AsCell(const String_& content) {
             if (content.empty())
                 return Cell_();
-            else if (content.front() == '=' && content.back() == '=')
+            else if (content.size() > 1 && content.front() == '=' && content.back() == '=')
                 return Cell_(content.substr(1, content.size() - 2));
             else if (content == "TRUE")
                 return Cell_(true);
@@ -372,22 +372,52 @@ namespace Dal {
                 if (!*e)
                     return Cell_(ret_val);
             }
+            try {
+                if (Date::IsDateString(content))
+                    return Cell_(Date::FromString(content));
+                if (DateTime::IsDateTimeString(content))
+                    return Cell_(DateTime::FromString(content));
+            } catch (const Exception_&) {
+                // there is no such date
+            }
             return Cell_(content);
         }
 
+        // inverse of the above; text which would be taken for something else, or would break the line, is protected
+        String_ AsField(const Cell_& cell) {
+            if (!Cell::IsString(cell))
+                return Cell::CoerceToString(cell);
+            String_ content = Cell::ToString(cell);
+            if (!(AsCell(content) == cell))
+                content = "=" + content + "=";
+            if (content.find_first_of(",\"\r\n") == String_::npos)
+                return content;
+            String_ ret_val("\"");
+            for (char c : content)
+                ret_val += String_(c == '"' ? 2 : 1, c);
+            ret_val += '"';
+            return ret_val;
+        }
+
         Vector_<Cell_> SplitLine(const String_& line) {
             Vector_<Cell_> ret_val;
             auto start = line.begin();
             while (start != line.end()) {
                 auto stop = start;
                 bool quoted = false;
+                String_ content;
                 for (; stop != line.end(); ++stop) {
-                    if (stop == line.end() || (!quoted && *stop == ','))
+                    if (!quoted && *stop == ',')
                         break;
-                    else if (*stop == '"')
+                    else if (*stop != '"')
+                        content += *stop;
+                    else {
+                        if (!quoted && stop != start && *Previous(stop) == '"')
+                            content += '"'; // doubled
                         quoted = !quoted;
+                    }
                 }
-                ret_val.push_back(AsCell(String_(start, stop)));
+                ret_val.push_back(AsCell(content));
                 start = stop == line.end() ? line.end() : Next(stop);
             }
             return ret_val;
@@ -396,7 +426,17 @@ namespace Dal {
         Matrix_<Cell_> FileTable(const String_& file_name) {
             Vector_<String_> lines;
             File::Read(file_name, &lines);
-            Vector_<Vector_<Cell_>> data = Apply(AsFunctor(SplitLine), lines);
+            Vector_<String_> joined; // quoted text may run over several lines
+            bool open = false;
+            for (const auto& line : lines) {
+                if (open)
+                    joined.back() += "\n" + line;
+                else
+                    joined.push_back(line);
+                if (std::count(line.begin(), line.end(), '"') % 2 == 1)
+                    open = !open;
+            }
+            Vector_<Vector_<Cell_>> data = Apply(AsFunctor(SplitLine), joined);
             int cols = 0;
             for (const auto& d : data)
                 cols = max(cols, int(d.size()));
@@ -419,7 +459,9 @@ namespace Dal {
     void SplatFile(const String_& file_name, const Storable_& src) {
         Matrix_<Cell_> mat = Splat(src);
         NOTE("Save object to local file");
-        Vector_<String_> ret = Cell::ToStringLines(mat);
+        Vector_<String_> ret;
+        for (int ir = 0; ir < mat.Rows(); ++ir)
+            ret.push_back(String::Accumulate(Apply(AsFunctor(AsField), mat.Row(ir)), ",", false));
         File::Write(file_name, ret);
     }
 
-- 
2.43.0


From 103655cd8f788cff8a3fb2cb2b141ffa2bc16b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:07 +0000
Subject: [PATCH 094/120] fix: reports were read with fewer headers, names or
 values than sizes

---
 dal/risk/report.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index 15918b7..4927d8e 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -30,6 +30,14 @@ namespace Dal {
 
         Storable_* Report_v1::Reader_::Build() const {
             const auto n = sizes_.size();
+            REQUIRE(axis_names_.size() == n && header_labels_.size() == n && header_values_.size() == n,
+                    "Each axis of a report must have a name, a size and a header");
+            double n_vals = 1.0; // avoids overflow
+            for (auto s : sizes_) {
+                REQUIRE(s >= 0, "Negative size is not allowed");
+                n_vals *= s;
+            }
+            REQUIRE(n_vals == vals_.size(), "Report must have a value for each address");
             Vector_<Report::Axis_> axes(n);
             for (auto ii = 0; ii < n; ++ii) {
                 axes[ii].size_ = sizes_[ii];
@@ -41,6 +49,7 @@ namespace Dal {
             // write in header values through the public interface
             for (auto jj = 0; jj < n; ++jj) {
                 const auto& vals = header_values_[jj];
+                REQUIRE(vals.Rows() == 0 || vals.Cols() == header_labels_[jj].size(), "Header has wrong number of values");
                 Vector_<Cell_> temp(header_labels_[jj].size());
                 for (int kr = 0; kr < vals.Rows(); ++kr) {
                     Copy(vals.Row(kr), &temp);
-- 
2.43.0


From 3610437c79c9667ea166583a5676560a340ed7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:39 +0000
Subject: [PATCH 095/120] fix: archived generators with a seed or dimension out
 of range

---
 dal/math/random/pseudorandom.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 43bc0fb..5d3d90e 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <climits>
 #include <dal/storage/archive.hpp>
 #include <dal/math/random/base.hpp>
 #include <dal/math/vectors.hpp>
@@ -63,6 +64,8 @@ namespace Dal {
     public:
         PseudoRSG_(const String_& name, double seed, double ndim = 1, bool precise = false)
         : Storable_("PseudoRSG", name), seed_(seed), ndim_(ndim), precise_(precise) {
+            REQUIRE(seed >= INT_MIN && seed <= INT_MAX, "seed is out of range");
+            REQUIRE(ndim >= 0 && ndim <= INT_MAX, "dimension is out of range");
             rsg_.reset(New(RNGType_(name), static_cast<int>(seed), static_cast<size_t>(ndim), precise));
         }
         void Write(Archive::Store_& dst) const override;
-- 
2.43.0


From 0164ea74e1e605b802e4c43d5f5f4e08336f933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:58 +0000
Subject: [PATCH 096/120] fix: long digits in the place of a date exhausted the
 stack

---
 dal/time/dateutils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index f7b84e2..86d5547 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -10,8 +10,9 @@
 #include <dal/utilities/exceptions.hpp>
 
 namespace {
-    const std::regex US_FORMAT("([0-9]+)/([0-9]+)/([0-9]+)");
-    const std::regex YMD_FORMAT("([0-9]+)-([0-9]+)-([0-9]+)");
+    // limited, because matching uses the stack for each digit
+    const std::regex US_FORMAT("([0-9]{1,9})/([0-9]{1,9})/([0-9]{1,9})");
+    const std::regex YMD_FORMAT("([0-9]{1,9})-([0-9]{1,9})-([0-9]{1,9})");
 
     Dal::Date_ CheckedDate(int yy, int mm, int dd) {
         REQUIRE(yy >= 1900 && yy <= 2200 && mm >= 1 && mm <= 12 && dd >= 1 && dd <= 31, "Date out of range");
-- 
2.43.0


From a2ded769cf10175110506af140ced672b1be6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:10 +0000
Subject: [PATCH 097/120] fix: an object without any member could not be read
 from a file

---
 dal/storage/splat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 1921010..a1edff3 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -266,7 +266,8 @@ namespace Dal {
             bool HasChild(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
+                if (nameCol >= data_.Cols())
+                    return false;
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         return true;
-- 
2.43.0


From 7d7856b64c281dec3a1a7a9078c42eaccdeaa5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:45 +0000
Subject: [PATCH 098/120] fix: two classes had the same name, and their
 destructors were exchanged

---
 dal/storage/globals.cpp |  6 +++---
 dal/storage/globals.hpp | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 2d7401a..1219bcb 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -88,7 +88,7 @@ namespace Dal {
         const String_ FIX_PREFIX("FixingsFor:");
     } // namespace
 
-    FixHistory_ Global::Fixings_::History(const String_& index) {
+    Global::FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
         const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
         FixHistory_ retval;
@@ -104,10 +104,10 @@ namespace Dal {
         return retval;
     }
 
-    int XGLOBAL::StoreFixings(const String_& index, const FixHistory_& fixings, bool append) {
+    int XGLOBAL::StoreFixings(const String_& index, const Global::FixHistory_& fixings, bool append) {
         std::map<DateTime_, double> all;
         if (append) {
-            const FixHistory_& old = Global::Fixings_().History(index);
+            const Global::FixHistory_& old = Global::Fixings_().History(index);
             for (const auto& d_f : old.vals_)
                 all[d_f.first] = d_f.second;
         }
diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index ec73d27..e06561f 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -14,11 +14,12 @@ namespace Dal {
     class Date_;
     class DateTime_;
 
-    struct FixHistory_ {
-        Vector_<pair<DateTime_, double>> vals_;
-    };
-
     namespace Global {
+        // not to be confused with Dal::FixHistory_ (see fixings.hpp)
+        struct FixHistory_ {
+            Vector_<pair<DateTime_, double>> vals_;
+        };
+
         class Store_ : noncopyable {
         public:
             virtual ~Store_() = default;
@@ -84,7 +85,7 @@ namespace Dal {
 
         int StoreFixings // returns # stored
             (const String_& index_canonical_name,
-             const FixHistory_& fixings,
+             const Global::FixHistory_& fixings,
              bool append = true); // if false, old fixings will be removed
     }                             // namespace XGLOBAL
 } // namespace Dal
\ No newline at end of file
-- 
2.43.0


From 285a402d10de01896ca9481564f3c9688a061dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:45 +0000
Subject: [PATCH 099/120] fix: adding to the repository erased objects of other
 names, and was not atomic

---
 dal/storage/_repository.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 68f7598..26f65e4 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -28,36 +28,40 @@ namespace Dal {
         String_ BaseTag(const Storable_& s) { return TypeTag(s) + s.name_ + "~"; }
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
-        void EraseByStart(const String_& start) {
-            LOCK_OBJECTS;
-            auto pLow = TheObjects().lower_bound(start);
-            auto pHigh = pLow;
-            while (pHigh != TheObjects().end() && pHigh->first.substr(0, start.size()) == start)
-                ++pHigh;
-            TheObjects().erase(pLow, pHigh);
+        // caller must hold the lock; the tag of another object may have the same start, hence 'match'
+        template <class F_> void EraseByStart(const String_& start, F_ match) {
+            auto po = TheObjects().lower_bound(start);
+            while (po != TheObjects().end() && po->first.substr(0, start.size()) == start) {
+                if (match(*po->second))
+                    TheObjects().erase(po++);
+                else
+                    ++po;
+            }
         }
     } // namespace
 
     String_ ObjectAccess_::AddBase(const Handle_<Storable_>& s, const RepositoryErase_& erase) const {
+        REQUIRE(s, "Can't add a null object to the repository");
         const String_ untickered = BaseTag(*s);
+        const auto sameType = [&](const Storable_& other) { return other.type_ == s->type_; };
+        const auto sameName = [&](const Storable_& other) { return sameType(other) && other.name_ == s->name_; };
+        LOCK_OBJECTS; // others must not see the state between erasing and adding
         switch (erase.Switch()) {
         case RepositoryErase_::Value_::NAME_NONEMPTY:
             if (s->name_.empty())
                 break;
             // else fall through
         case RepositoryErase_::Value_::NAME:
-            EraseByStart(untickered); // squash anything with this name
+            EraseByStart(untickered, sameName); // squash anything with this name
             break;
         case RepositoryErase_::Value_::TYPE:
-            EraseByStart(TypeTag(*s)); // squash anything with this type
+            EraseByStart(TypeTag(*s), sameType); // squash anything with this type
             break;
         case RepositoryErase_::Value_::_NOT_SET:
         case RepositoryErase_::Value_::NONE:
         case RepositoryErase_::Value_::_N_VALUES:
             break;
         }
-        // call to LOCK_OBJECTS must be after EraseByStart, because that will also acquire the lock
-        LOCK_OBJECTS;
         const String_ retval = untickered + Uniquifier(*s);
         TheObjects().insert(make_pair(retval, s));
         return retval;
-- 
2.43.0


From ee163363b158f44801521796d234b38ba1502981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:45 +0000
Subject: [PATCH 100/120] fix: erasing a null object from the repository

---
 dal/storage/_repository.cpp | 2 ++
 public/src/repository.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 26f65e4..3ae7bf0 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -111,6 +111,8 @@ namespace Dal {
     void Repository_Erase(const Vector_<Handle_<Storable_>>& objects, int* num_erased) {
         LOCK_OBJECTS;
         *num_erased = 0;
+        for (const auto& obj : objects)
+            REQUIRE(obj, "Can't erase a null object");
         for (const auto& obj : objects)
             *num_erased += static_cast<int>(TheObjects().erase(BaseTag(*obj) + Uniquifier(*obj)));
     }
diff --git a/public/src/repository.cpp b/public/src/repository.cpp
index 6e89b6f..11f47dd 100644
--- a/public/src/repository.cpp
+++ b/public/src/repository.cpp
@@ -14,6 +14,8 @@ namespace Dal {
         auto repo = Environment::Find<ObjectAccess_>(_env);
         REQUIRE(repo, "no repo found");
 
+        for (const auto& obj : objects)
+            REQUIRE(obj, "Can't erase a null object");
         int num_erased = 0;
         for (const auto& obj : objects)
             if (repo->Erase(*obj))
-- 
2.43.0


From 816e0eb3cc81b8e064a600013b2a74c9dda7aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 101/120] fix: fixings had no store, and global values were
 read while being replaced

---
 dal/storage/_repository.cpp | 13 +++++++------
 dal/storage/globals.cpp     | 37 +++++++++++++++++++++++--------------
 dal/storage/globals.hpp     |  2 +-
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 3ae7bf0..0577c56 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -127,22 +127,23 @@ namespace Dal {
                 Handle_<Box_> storable(new Box_(GLOBAL_TAG + name, value));
                 (void)ObjectAccess_().Add(storable, RepositoryErase_("NAME"));
             }
-            const Matrix_<Cell_>& Get(const String_& name) override {
-                static const Matrix_<Cell_> EMPTY;
+            Matrix_<Cell_> Get(const String_& name) override {
                 Box_ dummy(GLOBAL_TAG + name, Matrix_<Cell_>());
                 String_ tagStart = BaseTag(dummy);
                 LOCK_OBJECTS;
                 auto po = TheObjects().lower_bound(tagStart);
-                if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
+                for (; po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart; ++po) {
+                    if (po->second->name_ != dummy.name_)
+                        continue; // the name of another object may have the same start
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
-                    REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
+                    REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
                 }
-                return EMPTY;
+                return {};
             }
         };
 
-        RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_))
+        RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_); Global::SetTheFixingsStore(new RepoStore_))
     } // namespace
 
     Handle_<Storable_> ObjectAccess_::Fetch(const String_& tag, bool quiet) const {
diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 1219bcb..6ea6f68 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -27,7 +27,7 @@ namespace Dal {
         // utility functions to store a date by name
         Date_ GetGlobalDate(const String_& which) {
             LOCK_STORES;
-            const Matrix_<Cell_>& stored = Global::TheDateStore().Get(which);
+            const Matrix_<Cell_> stored = Global::TheDateStore().Get(which);
             if (stored.Empty() || Cell::IsEmpty(stored(0, 0))) {
                 // no global date set; initialize to system date
                 Date_ retval = Date::Today();
@@ -58,10 +58,12 @@ namespace Dal {
     void Global::Dates_::SetEvaluationDate(const Date_& date) { XGLOBAL::SetEvaluationDate(date); }
 
     void XGLOBAL::SetAccountingDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(ACCOUNTING(), Matrix::M1x1(Cell_(when)));
     }
 
     void XGLOBAL::SetEvaluationDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(EVALUATION(), Matrix::M1x1(Cell_(when)));
     }
 
@@ -88,26 +90,33 @@ namespace Dal {
         const String_ FIX_PREFIX("FixingsFor:");
     } // namespace
 
+    namespace {
+        Global::FixHistory_ StoredHistory(const String_& index) { // caller must hold the lock
+            const Matrix_<Cell_> stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
+            Global::FixHistory_ retval;
+            if (stored.Empty())
+                return retval;
+            assert(stored.Cols() == 2);
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
+            const int n = stored.Rows();
+            retval.vals_.Resize(n);
+            for (int ii = 0; ii < n; ++ii)
+                retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
+            return retval;
+        }
+    } // namespace
+
     Global::FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
-        const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
-        FixHistory_ retval;
-        if (stored.Empty())
-            return retval;
-        assert(stored.Cols() == 2);
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
-        const int n = stored.Rows();
-        retval.vals_.Resize(n);
-        for (int ii = 0; ii < n; ++ii)
-            retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
-        return retval;
+        return StoredHistory(index);
     }
 
     int XGLOBAL::StoreFixings(const String_& index, const Global::FixHistory_& fixings, bool append) {
+        LOCK_STORES; // until the results are stored, or concurrent additions would be lost
         std::map<DateTime_, double> all;
         if (append) {
-            const Global::FixHistory_& old = Global::Fixings_().History(index);
+            const Global::FixHistory_& old = StoredHistory(index);
             for (const auto& d_f : old.vals_)
                 all[d_f.first] = d_f.second;
         }
diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index e06561f..acc35dc 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -24,7 +24,7 @@ namespace Dal {
         public:
             virtual ~Store_() = default;
             virtual void Set(const String_& name, const Matrix_<Cell_>& value) = 0;
-            virtual const Matrix_<Cell_>& Get(const String_& name) = 0;
+            virtual Matrix_<Cell_> Get(const String_& name) = 0; // a copy, as others may replace what is stored
         };
 
         Store_& TheDateStore();
-- 
2.43.0


From 9c898135a5560a123a733518990470fb7801df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 102/120] fix: a replaced override of a global date was never
 ended

---
 dal/storage/globals.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index acc35dc..cf7e012 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <dal/utilities/environment.hpp>
 
 namespace Dal {
@@ -54,19 +55,32 @@ namespace Dal {
             typedef void (*Setter_)(const T_&);
             T_ saved_;
             Setter_ setFunc_;
+            unsigned long order_; // of creation
+
+            static unsigned long NextOrder() {
+                static std::atomic<unsigned long> count(0);
+                return ++count;
+            }
 
             ScopedOverride_(const ScopedOverride_& rhs) = delete;
             ScopedOverride_& operator=(const ScopedOverride_& rhs) = delete;
 
         public:
             ScopedOverride_(ScopedOverride_&& rhs) noexcept
-                : saved_(rhs.saved_), setFunc_(rhs.setFunc_) {
+                : saved_(rhs.saved_), setFunc_(rhs.setFunc_), order_(rhs.order_) {
                 rhs.setFunc_ = nullptr;
             }
-            ScopedOverride_(Setter_ set_func, const T_& saved_val) : saved_(saved_val), setFunc_(set_func) {}
+            ScopedOverride_(Setter_ set_func, const T_& saved_val)
+                : saved_(saved_val), setFunc_(set_func), order_(NextOrder()) {}
             ScopedOverride_& operator=(ScopedOverride_&& rhs) noexcept {
-                if (this != &rhs) {
-                    saved_ = rhs.saved_;
+                if (this != &rhs && rhs.setFunc_) {
+                    const bool same = setFunc_ == rhs.setFunc_;
+                    if (setFunc_ && !same)
+                        setFunc_(saved_);
+                    if (!same || rhs.order_ < order_) { // of two overrides of the same thing, the first knows what to restore
+                        saved_ = rhs.saved_;
+                        order_ = rhs.order_;
+                    }
                     setFunc_ = rhs.setFunc_;
                     rhs.setFunc_ = nullptr;
                 }
-- 
2.43.0


From f0fb0d40f43ba63dcb0f372c8090a451b2c2ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 103/120] fix: an auditor without contents read outside them

---
 dal/storage/audit.cpp | 2 +-
 dal/storage/audit.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/storage/audit.cpp b/dal/storage/audit.cpp
index ae72ec9..a28caf8 100644
--- a/dal/storage/audit.cpp
+++ b/dal/storage/audit.cpp
@@ -33,7 +33,7 @@ namespace Dal {
     }
 
     Vector_<Handle_<Storable_>> AuditorImp_::Find(const String_& key) const {
-        static const auto SECOND = GetSecond(*mine_->contents_.begin());
+        static const GetSecond_<Bag_::map_t::value_type> SECOND;
         Vector_<Handle_<Storable_>> ret_val;
         if (mode_ == SHOWING) {
             auto range = mine_->contents_.equal_range(key);
diff --git a/dal/storage/audit.hpp b/dal/storage/audit.hpp
index a2e096e..8d5085c 100644
--- a/dal/storage/audit.hpp
+++ b/dal/storage/audit.hpp
@@ -25,7 +25,7 @@ namespace Dal {
             READING,
             READING_EXCLUSIVE, // avoid vast memory use
             SHOWING,
-        } mode_;
+        } mode_ = PASSIVE;
         AuditorImp_(): mine_(new Bag_("bag", Bag_::map_t())) {}
         void Notice(const String_& key, const Handle_<Storable_>& value) const override;
         [[nodiscard]] Vector_<Handle_<Storable_>> Find(const String_& key) const override;
-- 
2.43.0


From 858c1e00192d5ea611b4737b0ebd5f6d40c0ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 104/120] fix: asking quietly for a fixing without access to
 fixings

---
 dal/indice/index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/indice/index.cpp b/dal/indice/index.cpp
index 196eb40..6fca1d0 100644
--- a/dal/indice/index.cpp
+++ b/dal/indice/index.cpp
@@ -12,7 +12,7 @@ namespace Dal {
         static const std::map<DateTime_, double> EMPTY;
         auto hist = Environment::Find<FixingsAccess_>(_env);
         REQUIRE(hist || quiet, "no fixing access");
-        auto fixings = hist->Fetch(index_name);
+        auto fixings = hist ? hist->Fetch(index_name) : Handle_<Fixings_>();
         REQUIRE(fixings || quiet, "no fixings exist");
 
         auto vals = fixings ? fixings->vals_ : EMPTY;
-- 
2.43.0


From 7eff01d7599d88cbb5c8ffc4465dd3938a9988f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 105/120] fix: names of fx indices were not understood

---
 dal/indice/parser/init.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 14647fb..977b31a 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -8,6 +8,7 @@
 #include <dal/string/strings.hpp>
 #include <dal/indice/indexparse.hpp>
 #include <dal/indice/parser/equity.hpp>
+#include <dal/indice/parser/fx.hpp>
 
 namespace Dal {
 
@@ -16,6 +17,7 @@ namespace Dal {
     void IndexParsers_::Init() {
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
+            Index::RegisterParser("FX", Index::FxParser);
             init_ = true;
         }
     }
-- 
2.43.0


From f23766889373e362d6d7ce7fda7d05fca29b29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 106/120] fix: names that are not those of an index were taken
 for another or for none

---
 dal/indice/indexparse.cpp    | 2 +-
 dal/indice/parser/equity.cpp | 5 +++--
 dal/indice/parser/fx.cpp     | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/indice/indexparse.cpp b/dal/indice/indexparse.cpp
index 2b35294..c18e7c3 100644
--- a/dal/indice/indexparse.cpp
+++ b/dal/indice/indexparse.cpp
@@ -14,7 +14,7 @@
 namespace Dal {
     namespace {
         // stubbed out, sorry
-        Index_* ParseSuperShot(const String_&) { return nullptr; }
+        Index_* ParseSuperShot(const String_& name) { THROW("'" + name + "' is not the name of an index"); }
 
         std::map<String_, Index::parser_t>& TheIndexParsers() { RETURN_STATIC(std::map<String_, Index::parser_t>); }
 
diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index a085673..90bfff8 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -12,10 +12,11 @@ namespace Dal::Index {
     Index_* EquityParser(const String_& name) {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
+        REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop, "equity index pattern is not good");
 
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
-        auto tenor_start = name.find_first_of("@>", eq_stop + 1);
-        if (tenor_start == String_::npos)
+        const auto tenor_start = eq_stop + 1; // nothing else may follow
+        if (tenor_start == name.size())
             return new Equity_(eq_name, nullptr, nullptr);
         else if (name[tenor_start] == '@') {
             auto delivery_date = Date::FromString(name.substr(tenor_start + 1, name.length() - tenor_start - 1));
diff --git a/dal/indice/parser/fx.cpp b/dal/indice/parser/fx.cpp
index 3dbd85a..84a8265 100644
--- a/dal/indice/parser/fx.cpp
+++ b/dal/indice/parser/fx.cpp
@@ -12,7 +12,8 @@ namespace Dal::Index {
         auto fx_start = name.find_first_of("[");
         auto fx_stop = name.find_first_of("]");
         auto fx_sep = name.find_first_of("/");
-        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos, "fx index pattern is not good");
+        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos && fx_start < fx_sep && fx_sep < fx_stop
+                    && fx_stop + 1 == name.size(), "fx index pattern is not good");
 
         String_ fgn = name.substr(fx_start + 1, fx_sep - fx_start - 1);
         String_ dom = name.substr(fx_sep + 1, fx_stop - fx_sep - 1);
-- 
2.43.0


From 35f6a35e4bf5e1d443be3788117e519755fda24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:15 +0000
Subject: [PATCH 107/120] fix: a discount factor index forgot its collateral

---
 dal/indice/index/ir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/indice/index/ir.hpp b/dal/indice/index/ir.hpp
index a2c02b5..630a1d0 100644
--- a/dal/indice/index/ir.hpp
+++ b/dal/indice/index/ir.hpp
@@ -53,7 +53,7 @@ namespace Dal::Index {
             const Cell_& maturity,
             const Cell_* start = nullptr,
             const CollateralType_& coll = CollateralType_())
-            : ccy_(ccy), maturity_(maturity), start_(Dereference(start, Cell_())) {}
+            : ccy_(ccy), maturity_(maturity), collateral_(coll), start_(Dereference(start, Cell_())) {}
 
         [[nodiscard]] String_ Name() const override;
         [[nodiscard]] Date_ Maturity(const DateTime_& event_time) const;
-- 
2.43.0


From 54c11a363311dadf3076cd359c049efe79c84cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:27 +0000
Subject: [PATCH 108/120] fix: monitoring along a path of fixings missed
 fixings during the day

The monitoring times were accumulated, so that after some steps of a fraction of
a day they no longer met the times of the fixings exactly, and these were left
out of the result.
---
 dal/indice/indexpath.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dal/indice/indexpath.cpp b/dal/indice/indexpath.cpp
index b510da8..9ebf1d6 100644
--- a/dal/indice/indexpath.cpp
+++ b/dal/indice/indexpath.cpp
@@ -2,6 +2,7 @@
 // Created by wegam on 2023/6/4.
 //
 
+#include <cmath>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/indice/indexpath.hpp>
@@ -52,14 +53,17 @@ namespace Dal {
                                                 const std::pair<double, double>& range,
                                                 double monitoring_interval,
                                                 double ramp_sigma) const {
-        DateTime_ current = from;
+        REQUIRE(monitoring_interval > 0.0, "monitoring interval must be positive");
+        static const double TOL = 0.5 / 86400.0; // monitoring times may not be exactly representable
+        const double length = to - from;
         double prob = 1.0;
 
-        while (current < to) {
-            auto pfix = fixings_.find(current);
-            if (pfix != fixings_.end())
-                prob *= FixInRangeProb(current, range, ramp_sigma);
-            current += monitoring_interval;
+        for (int ii = 0; ii * monitoring_interval < length - TOL; ++ii) {
+            const double t = from.Frac() + ii * monitoring_interval - TOL;
+            const DateTime_ earliest(from.Date().AddDays(static_cast<int>(std::floor(t))), t - std::floor(t));
+            auto pfix = fixings_.lower_bound(earliest);
+            if (pfix != fixings_.end() && pfix->first - earliest <= 2.0 * TOL)
+                prob *= FixInRangeProb(pfix->first, range, ramp_sigma);
         }
         return prob;
     }
-- 
2.43.0


From 7ba7e6f604ff4fc5ce1a41dfade52dd12bc282f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:27 +0000
Subject: [PATCH 109/120] fix: index parsers were looked up while others were
 being registered

The lock which guards the registration was not taken by the look-up.
---
 dal/indice/indexparse.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dal/indice/indexparse.cpp b/dal/indice/indexparse.cpp
index c18e7c3..2a9b45b 100644
--- a/dal/indice/indexparse.cpp
+++ b/dal/indice/indexparse.cpp
@@ -18,14 +18,22 @@ namespace Dal {
 
         std::map<String_, Index::parser_t>& TheIndexParsers() { RETURN_STATIC(std::map<String_, Index::parser_t>); }
 
+        std::mutex TheParserMutex;
+#define LOCK_PARSERS std::lock_guard<std::mutex> l(TheParserMutex);
+
+        Index::parser_t FindParser(const String_& ac, const String_& name) {
+            LOCK_PARSERS;
+            auto pp = TheIndexParsers().find(ac);
+            REQUIRE(pp != TheIndexParsers().end(), "no parser for '" + name + "'");
+            return pp->second;
+        }
+
         Index_* ParseSingle(const String_& name) {
             auto stop = name.find_first_of(":[");
             if (stop == String_::npos)
                 return ParseSuperShot(name);
             const String_ ac = name.substr(0, stop);
-            auto pp = TheIndexParsers().find(ac);
-            REQUIRE(pp != TheIndexParsers().end(), "no parser for '" + name + "'");
-            return (*pp->second)(name);
+            return (*FindParser(ac, name))(name);
         }
 
         // stubbed out, sorry
@@ -38,9 +46,6 @@ namespace Dal {
         return ParseSingle(name);
     }
 
-    std::mutex TheParserMutex;
-#define LOCK_PARSERS std::lock_guard<std::mutex> l(TheParserMutex);
-
     void Index::RegisterParser(const String_& name, Index::parser_t func) {
         LOCK_PARSERS;
         TheIndexParsers().insert(std::make_pair(name, func));
-- 
2.43.0


From 3c36f2a83c7be5e1f03d43bdc655d7b0e08c78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:51 +0000
Subject: [PATCH 110/120] fix: names with text between the kind of an index and
 its bracket

"EQ:x[IBM]" was taken for "EQ[IBM]", and similarly for currency pairs.
---
 dal/indice/parser/equity.cpp | 3 ++-
 dal/indice/parser/fx.cpp     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index 90bfff8..ca5007c 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -12,7 +12,8 @@ namespace Dal::Index {
     Index_* EquityParser(const String_& name) {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
-        REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop, "equity index pattern is not good");
+        REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop
+                    && name.find_first_of(":") > eq_start, "equity index pattern is not good");
 
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
         const auto tenor_start = eq_stop + 1; // nothing else may follow
diff --git a/dal/indice/parser/fx.cpp b/dal/indice/parser/fx.cpp
index 84a8265..e5ece41 100644
--- a/dal/indice/parser/fx.cpp
+++ b/dal/indice/parser/fx.cpp
@@ -13,7 +13,7 @@ namespace Dal::Index {
         auto fx_stop = name.find_first_of("]");
         auto fx_sep = name.find_first_of("/");
         REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos && fx_start < fx_sep && fx_sep < fx_stop
-                    && fx_stop + 1 == name.size(), "fx index pattern is not good");
+                    && fx_stop + 1 == name.size() && name.find_first_of(":") > fx_start, "fx index pattern is not good");
 
         String_ fgn = name.substr(fx_start + 1, fx_sep - fx_start - 1);
         String_ dom = name.substr(fx_sep + 1, fx_stop - fx_sep - 1);
-- 
2.43.0


From 9bc2e2ea43d28b00596cd52008ac32072e421d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:43 +0000
Subject: [PATCH 111/120] fix: reading JSON numbers with many digits and a
 large exponent read outside a table

---
 dal/storage/json.cpp | 55 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index ede5e98..c7c19fc 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -25,10 +25,53 @@
 
 namespace Dal {
     namespace {
-        // full precision, or numbers do not come back as they were written
+        // numbers as strings, or they do not come back as they were written
         // iterative, or deeply nested text exhausts the stack
         constexpr unsigned PARSE_FLAGS =
-            rapidjson::kParseFullPrecisionFlag | rapidjson::kParseNanAndInfFlag | rapidjson::kParseIterativeFlag;
+            rapidjson::kParseNumbersAsStringsFlag | rapidjson::kParseNanAndInfFlag | rapidjson::kParseIterativeFlag;
+
+        // fills the document; numbers are converted here, because the full-precision conversion of rapidjson
+        // reads outside its table of powers when there are many digits in front of a large exponent
+        struct DocHandler_ {
+            rapidjson::Document& doc_;
+            explicit DocHandler_(rapidjson::Document& doc) : doc_(doc) {}
+            bool Null() { return doc_.Null(); }
+            bool Bool(bool b) { return doc_.Bool(b); }
+            bool Int(int i) { return doc_.Int(i); }
+            bool Uint(unsigned i) { return doc_.Uint(i); }
+            bool Int64(int64_t i) { return doc_.Int64(i); }
+            bool Uint64(uint64_t i) { return doc_.Uint64(i); }
+            bool Double(double d) { return doc_.Double(d); }
+            bool RawNumber(const char* str, rapidjson::SizeType length, bool) {
+                const std::string src(str, length);
+                const double d = std::strtod(src.c_str(), nullptr);
+                if (src.find_first_not_of("-0123456789") != std::string::npos)
+                    return (std::isfinite(d) || src.find_first_of("NI") != std::string::npos) && doc_.Double(d);
+                if (d == 0.0 && src[0] == '-')
+                    return doc_.Double(d);
+                if (d >= INT_MIN && d <= INT_MAX)
+                    return doc_.Int(static_cast<int>(d));
+                return std::isfinite(d) && doc_.Double(d);
+            }
+            bool String(const char* str, rapidjson::SizeType length, bool copy) { return doc_.String(str, length, copy); }
+            bool StartObject() { return doc_.StartObject(); }
+            bool Key(const char* str, rapidjson::SizeType length, bool copy) { return doc_.Key(str, length, copy); }
+            bool EndObject(rapidjson::SizeType n_members) { return doc_.EndObject(n_members); }
+            bool StartArray() { return doc_.StartArray(); }
+            bool EndArray(rapidjson::SizeType n_elements) { return doc_.EndArray(n_elements); }
+        };
+
+        // false if the text is not JSON
+        template <class S_> bool ParseDocument(S_& src, rapidjson::Document* doc) {
+            rapidjson::Reader reader;
+            auto fill = [&](rapidjson::Document& dst) {
+                DocHandler_ handler(dst);
+                return !reader.Parse<PARSE_FLAGS>(src, handler).IsError();
+            };
+            doc->Populate(fill);
+            return !reader.HasParseError();
+        }
+
         const char* TYPE_LABEL = "~type";
         const char* TAG_LABEL = "$tag";
         const int MAX_EMPTY_SIZE = 1 << 20; // rows or columns of a matrix without any value
@@ -355,8 +398,8 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<PARSE_FLAGS>(src.c_str());
-        REQUIRE(!doc.HasParseError(), "Invalid JSON text");
+        rapidjson::StringStream is(src.c_str());
+        REQUIRE(ParseDocument(is, &doc), "Invalid JSON text");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -368,9 +411,9 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<PARSE_FLAGS>(is);
+        const bool valid = ParseDocument(is, &doc);
         fclose(fp);
-        REQUIRE(!doc.HasParseError(), "Invalid JSON text in file '" + filename + "'");
+        REQUIRE(valid, "Invalid JSON text in file '" + filename + "'");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
-- 
2.43.0


From eaa4c344ec974e2d710ba473a96ed3bf5c3b39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:40 +0000
Subject: [PATCH 112/120] fix: the name after one with a long run of nines
 exhausted the stack

---
 dal/string/strings.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ebed176..7f270a8 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -121,26 +121,20 @@ namespace Dal::String {
     }
 
     String_ NextName(const String_& name) {
-        if (name.empty())
-            return String_("0");
         String_ ret_val(name);
-        switch (ret_val.back()) {
-        case '0':
-        case '1':
-        case '2':
-        case '3':
-        case '4':
-        case '5':
-        case '6':
-        case '7':
-        case '8':
-            ++ret_val.back();
-            return ret_val;
-        case '9':
+        size_t nines = 0; // all of them roll over to zero
+        while (!ret_val.empty() && ret_val.back() == '9') {
             ret_val.pop_back();
-            return String_(NextName(ret_val) + '0');
+            ++nines;
         }
-        return String_(ret_val + '1');
+        if (ret_val.empty())
+            ret_val.push_back('0');
+        else if (ret_val.back() >= '0' && ret_val.back() <= '8')
+            ++ret_val.back();
+        else
+            ret_val.push_back('1');
+        ret_val.append(nines, '0');
+        return ret_val;
     }
 
     String_ Uniquifier(const void* p) {
-- 
2.43.0


From 1f4ce8a36c2f6fc543abddaab938ffa232541ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:34 +0000
Subject: [PATCH 113/120] fix: a matrix in JSON whose number of rows
 contradicts its values was accepted

---
 dal/storage/json.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index c7c19fc..d946440 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -245,8 +245,11 @@ namespace Dal {
         // create matrix from vector of values
         template <class E_> Matrix_<E_> AsMatrix(int rows, int cols, const Vector_<E_>& vals) {
             REQUIRE(cols >= 0 && (cols > 0 ? !(vals.size() % cols) : vals.empty()), "Invalid number of matrix columns");
-            if (cols > 0)
-                rows = vals.size() / cols;
+            if (cols > 0) {
+                const int n_rows = static_cast<int>(vals.size()) / cols;
+                REQUIRE(rows < 0 || rows == n_rows, "Invalid number of matrix rows");
+                rows = n_rows;
+            }
             REQUIRE(rows >= 0, "Invalid number of matrix rows");
             REQUIRE(!vals.empty() || std::max(rows, cols) <= MAX_EMPTY_SIZE, "Matrix without values is too large");
             Matrix_<E_> ret_val(rows, cols);
-- 
2.43.0


From 77d7d5b0e000298c4e7eb7e1e66e6a0a5efe6595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:34 +0000
Subject: [PATCH 114/120] fix: deeply nested table formats exhausted the stack

---
 dal/math/matrix/matrixutils.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index 17bfe83..7f59b33 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -57,6 +57,8 @@ namespace Dal {
             }
         };
 
+        const int MAX_NESTING = 200; // of parentheses and suffixes in a format
+
         struct Writer_ : noncopyable {
             virtual ~Writer_() {}
             virtual int Rows(const Vector_<const Table_*>& args) const = 0;
@@ -199,8 +201,9 @@ namespace Dal {
             return ret_val;
         }
 
-        String_ Strip(const String_& src) // remove parentheses around the whole thing
+        String_ Strip(const String_& src, int level) // remove parentheses around the whole thing
         {
+            REQUIRE(level < MAX_NESTING, "Format is nested too deeply");
             if (src.empty())
                 return src;
             auto ps = src.begin();
@@ -213,42 +216,42 @@ namespace Dal {
                     break;
             }
             return (ps == src.end() - 1 && *ps == ')') // parentheses wrap the whole thing
-                       ? Strip(src.substr(1, src.size() - 2))
+                       ? Strip(src.substr(1, src.size() - 2), level + 1)
                        : src;
         }
 
-        Writer_* NewWriter(const String_& format);
-        template <class M_> Writer_* MultipleWriter(const String_& format, char separator, M_ make_multiple) {
+        Writer_* NewWriter(const String_& format, int level);
+        template <class M_> Writer_* MultipleWriter(const String_& format, char separator, int level, M_ make_multiple) {
             typedef typename std::remove_reference<decltype(*make_multiple())>::type multiple_t;
             Vector_<String_> subs = Split(format, separator);
             if (subs.size() <= 1)
                 return nullptr;
             std::unique_ptr<multiple_t> ret_val(make_multiple());
             for (const auto& s : subs)
-                ret_val->elements_.emplace_back(NewWriter(s));
+                ret_val->elements_.emplace_back(NewWriter(s, level + 1));
             return ret_val.release();
         }
 
-        Writer_* XNewWriter(const String_& format) {
+        Writer_* XNewWriter(const String_& format, int level) {
             REQUIRE(!format.empty(), "Empty element in format");
             // POSTPONED -- should ':' and ';' have the same precedence?
-            if (auto vr = MultipleWriter(format, ':', []() { return new VerticalWriter_(true); }))
+            if (auto vr = MultipleWriter(format, ':', level, []() { return new VerticalWriter_(true); }))
                 return vr;
-            if (auto vl = MultipleWriter(format, ';', []() { return new VerticalWriter_(false); }))
+            if (auto vl = MultipleWriter(format, ';', level, []() { return new VerticalWriter_(false); }))
                 return vl;
             // ok, no unparenthesized semicolons
-            if (auto hr = MultipleWriter(format, '.', []() { return new HorizontalWriter_(true); }))
+            if (auto hr = MultipleWriter(format, '.', level, []() { return new HorizontalWriter_(true); }))
                 return hr;
-            if (auto hl = MultipleWriter(format, ',', []() { return new HorizontalWriter_(false); }))
+            if (auto hl = MultipleWriter(format, ',', level, []() { return new HorizontalWriter_(false); }))
                 return hl;
 
             // no commas:  just one element
             if (toupper(format.back()) == 'T')
-                return new TransposedWriter_(NewWriter(format.substr(0, format.size() - 1)));
+                return new TransposedWriter_(NewWriter(format.substr(0, format.size() - 1), level + 1));
             else if (toupper(format.back()) == 'I')
-                return new InvertedWriter_(NewWriter(format.substr(0, format.size() - 1)));
+                return new InvertedWriter_(NewWriter(format.substr(0, format.size() - 1), level + 1));
             else if (format.back() == '*')
-                return new LinearWriter_(NewWriter(format.substr(0, format.size() - 1)));
+                return new LinearWriter_(NewWriter(format.substr(0, format.size() - 1), level + 1));
             else {
                 REQUIRE(format.size() == 1 && format.front() >= '0' && format.front() <= '9',
                         "Can't recognize format element -- expected argument index (format = '" + format + "')");
@@ -257,11 +260,11 @@ namespace Dal {
                            : new ArgWriter_(format.front() - '1'); // implements 1-offset count of args
             }
         }
-        Writer_* NewWriter(const String_& format) { return XNewWriter(Strip(format)); }
+        Writer_* NewWriter(const String_& format, int level) { return XNewWriter(Strip(format, level), level); }
     } // namespace
 
     Matrix_<Cell_> Matrix::Format(const Vector_<const Table_*>& args, const String_& format) {
-        scoped_ptr<Writer_> writer(NewWriter(format));
+        scoped_ptr<Writer_> writer(NewWriter(format, 0));
         Matrix_<Cell_> ret_val(writer->Rows(args), writer->Cols(args));
         REQUIRE(ret_val.Rows() * ret_val.Cols() > 0, "Nothing to output");
         writer->Write(WriterView_(&ret_val), args);
-- 
2.43.0


From d7e3d2c3e2b5f6488e831e16747d2048963b89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:35 +0000
Subject: [PATCH 115/120] fix: a constant comparison just below equality was
 compiled as satisfied

---
 dal/script/visitor/compiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index d9f9d4c..992d429 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -237,7 +237,7 @@ namespace Dal::Script {
             VisitCondition<Sup>(node, [](double x) { return x > 0.0; });
         }
         void Visit(const NodeSupEqual_& node) {
-            VisitCondition<SupEqual>(node, [](double x) { return x > -Dal::EPSILON; });
+            VisitCondition<SupEqual>(node, [](double x) { return x >= 0.0; });
         }
 
         //  And/Or/Not
-- 
2.43.0


From 41422ee194fb6952c0583fbaaa311a4f3b7c2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:16 +0000
Subject: [PATCH 116/120] fix: Black option value ignored volatility for small
 forwards and strikes

---
 dal/math/distribution/black.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index 767641f..77d8d67 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -12,7 +12,7 @@ namespace Dal {
     namespace Distribution {
         template <class T_>
         T_ BlackOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type) {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol) || !(fwd * strike > 0.0))
                 return type.Payout(fwd, strike);
             T_ dMinus = log(fwd / strike) / vol - 0.5 * vol;
             T_ dPlus = dMinus + vol;
-- 
2.43.0


From 450e856d2523e14d0b6fe89a8e409cb2f3b30852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 117/120] fix: copy of a non-const composite dropped its
 contents

---
 dal/utilities/composite.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/utilities/composite.hpp b/dal/utilities/composite.hpp
index 3a1155f..7ca32b7 100644
--- a/dal/utilities/composite.hpp
+++ b/dal/utilities/composite.hpp
@@ -48,6 +48,8 @@ namespace Dal {
             for (const auto& sc : src.contents_)
                 Append(sc ? sc->Clone() : 0);
         }
+        // otherwise the variadic constructor is the better match for a non-const source, and drops its contents
+        Composite_(Composite_<T_>& src) : Composite_(static_cast<const Composite_<T_>&>(src)) {}
         Composite_<T_>* Clone() const { return new Composite_<T_>(*this); }
         // Assignable if T_ is
         T_& operator=(const T_& rhs);
-- 
2.43.0


From b26ac08f1735d1f343d71872f1ecd2bff6993499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:32 +0000
Subject: [PATCH 118/120] fix: analysis of a script never ended when a variable
 could take many values

Conditional updates multiply the values a variable may have with every
event, as the analysis keeps each of them.
---
 dal/script/visitor/domain.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 932ed47..5a542ee 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -442,6 +442,8 @@ namespace Dal::Script {
     };
 
     class Domain_ {
+        // distinct values multiply with every operation: beyond this many, only their range is kept
+        static constexpr size_t MAX_INTERVALS = 256;
         std::set<Interval_> intervals_;
 
     public:
@@ -521,6 +523,11 @@ namespace Dal::Script {
                 // No intersection, just add the interval
                 if (it == ite) {
                     intervals_.insert(interval);
+                    if (intervals_.size() > MAX_INTERVALS) {
+                        const Interval_ range(intervals_.begin()->Left(), intervals_.rbegin()->Right());
+                        intervals_.clear();
+                        intervals_.insert(range);
+                    }
                     return;
                 }
 
-- 
2.43.0


From e8427fbb0c0119bacde8c151cbd7abadbbcf6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:39 +0000
Subject: [PATCH 119/120] fix: changing model data without renaming it read the
 missing name

---
 dal/model/blackscholes.cpp | 2 +-
 dal/model/dupire.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/model/blackscholes.cpp b/dal/model/blackscholes.cpp
index 81ef3cc..d914741 100644
--- a/dal/model/blackscholes.cpp
+++ b/dal/model/blackscholes.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     BSModelData_* BSModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<BSModelData_> temp(new BSModelData_(*new_name, spot_, vol_, rate_, div_));
+        std::unique_ptr<BSModelData_> temp(new BSModelData_(new_name ? *new_name : name_, spot_, vol_, rate_, div_));
         if (slide) {
             // TODO: finish the implementation
         }
diff --git a/dal/model/dupire.cpp b/dal/model/dupire.cpp
index cfdc6e1..b871cb2 100644
--- a/dal/model/dupire.cpp
+++ b/dal/model/dupire.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     DupireModelData_* DupireModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(*new_name, spot_, rate_, repo_, spots_, times_, vols_));
+        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(new_name ? *new_name : name_, spot_, rate_, repo_, spots_, times_, vols_));
         if (slide) {
             // TODO: finish the implementation
         }
-- 
2.43.0


From f747294cf080c2a8b12d770139ab996431bc7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:19 +0000
Subject: [PATCH 120/120] fix: local volatilities at close nodes shared a name,
 and their sensitivities were lost

---
 dal/model/dupire.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index e6c8bb7..63f8d19 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <set>
 #include <dal/platform/platform.hpp>
 #include <dal/math/operators.hpp>
 #include <dal/model/base.hpp>
@@ -68,14 +69,19 @@ namespace Dal {
                 parameterLabels_[0] = "spot";
                 parameterLabels_[1] = "rate";
                 parameterLabels_[2] = "repo";
-                size_t p = 2;
-                for (size_t i = 0; i < vols_.Rows(); ++i)
-                    for (size_t j = 0; j < vols_.Cols(); ++j) {
-                        std::ostringstream ost;
-                        ost << std::setprecision(2) << std::fixed;
-                        ost << "lvol " << spots_[i] << " " << times_[j];
-                        parameterLabels_[++p] = String_(ost.str());
-                    }
+                // two decimals, or as many as it takes to tell the parameters apart
+                for (int precision = 2; precision <= 17; ++precision) {
+                    size_t p = 2;
+                    for (size_t i = 0; i < vols_.Rows(); ++i)
+                        for (size_t j = 0; j < vols_.Cols(); ++j) {
+                            std::ostringstream ost;
+                            ost << std::setprecision(precision) << std::fixed;
+                            ost << "lvol " << spots_[i] << " " << times_[j];
+                            parameterLabels_[++p] = String_(ost.str());
+                        }
+                    if (std::set<String_>(parameterLabels_.begin(), parameterLabels_.end()).size() == parameterLabels_.size())
+                        break;
+                }
 
                 SetParameterPointers();
             }
-- 
2.43.0

