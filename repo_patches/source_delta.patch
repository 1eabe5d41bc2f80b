From fb512ee826264456eded464641ac5e46f1ff1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 01/20] fix: in-place day arithmetic on a date is range-checked
 like its by-value form

Date += n and Date -= n could leave 1900-01-01..2199-12-31 silently; the list
queries of Calendar no longer increment past the last date they report.
---
 src/datetime/calendar.rs | 12 ++++++++++--
 src/datetime/date.rs     |  8 ++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..b345074 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -116,10 +116,14 @@ impl Calendar {
         );
         let mut result = vec![];
         let mut d = from;
-        while d <= to {
+        loop {
             if self.is_holiday(&d) && (include_weekends || !self.is_weekend(d.weekday())) {
                 result.push(d);
             }
+            // stop before incrementing past Date::max_date()
+            if d == to {
+                break;
+            }
             d += 1;
         }
         result
@@ -135,10 +139,14 @@ impl Calendar {
         );
         let mut result = vec![];
         let mut d = from;
-        while d <= to {
+        loop {
             if self.is_business_day(&d) {
                 result.push(d);
             }
+            // stop before incrementing past Date::max_date()
+            if d == to {
+                break;
+            }
             d += 1;
         }
         result
diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..0504f15 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = Date::from_serial(self.serial_number + rhs);
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = Date::from_serial(self.serial_number - rhs);
     }
 }
 
-- 
2.43.0


From 10c989d717ef48cde338bf9064905894537289ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 02/20] fix: converting an integer to a Frequency accepts every
 frequency's own ordinal

---
 src/datetime/frequency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datetime/frequency.rs b/src/datetime/frequency.rs
index 591af31..03331e0 100644
--- a/src/datetime/frequency.rs
+++ b/src/datetime/frequency.rs
@@ -32,6 +32,8 @@ pub enum Frequency {
 impl From<Integer> for Frequency {
     fn from(n: Integer) -> Self {
         match n {
+            -1 => Self::NoFrequency,
+            0 => Self::Once,
             1 => Self::Annual,
             2 => Self::Semiannual,
             3 => Self::EveryFourthMonth,
@@ -42,6 +44,7 @@ impl From<Integer> for Frequency {
             26 => Self::Biweekly,
             52 => Self::Weekly,
             365 => Self::Daily,
+            999 => Self::OtherFrequency,
             other => panic!("Invalid frequency: {}", other),
         }
     }
-- 
2.43.0


From fc6b9edeba2d73aa6ae835f2e20070a5cc8c214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 03/20] fix: period comparison, equality and hash agree with
 the spans the periods denote

---
 src/datetime/period.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..a2e350e 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -38,14 +38,20 @@ impl Debug for Period {
 
 impl PartialEq for Period {
     fn eq(&self, other: &Self) -> bool {
-        !(self < other || other < self)
+        self.partial_cmp(other) == Some(std::cmp::Ordering::Equal)
     }
 }
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // periods that compare equal (e.g. 12M and 1Y) must have the same hash
+        let p = if self.length == 0 || matches!(self.unit, Days | Months) {
+            self.normalised()
+        } else {
+            *self
+        };
+        p.length.hash(state);
+        p.unit.hash(state);
     }
 }
 
@@ -61,7 +67,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
@@ -82,9 +88,16 @@ impl PartialOrd for Period {
         }
 
         // inexact comparisons (handled by converting to days and using limits)
-        let p1_lim = p1.days_min_max();
-        let p2_lim = p2.days_min_max();
-        p1_lim.partial_cmp(&p2_lim)
+        let (p1_a, p1_b) = p1.days_min_max();
+        let (p2_a, p2_b) = p2.days_min_max();
+        if p1_a.max(p1_b) < p2_a.min(p2_b) {
+            Some(std::cmp::Ordering::Less)
+        } else if p1_a.min(p1_b) > p2_a.max(p2_b) {
+            Some(std::cmp::Ordering::Greater)
+        } else {
+            // the order depends on the dates the periods are applied to
+            None
+        }
     }
 }
 
-- 
2.43.0


From ca4dd80a0e3e3e1ce8c1d3a735f903df9c0adcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 04/20] fix: the frequency of a period does not depend on the
 sign of its length

---
 src/datetime/period.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a2e350e..f541835 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -292,34 +292,35 @@ impl Period {
             }
             return NoFrequency;
         }
+        let length = self.length.abs();
         match self.unit {
             Days => {
-                if self.length == 1 {
+                if length == 1 {
                     Daily
                 } else {
                     OtherFrequency
                 }
             }
             Weeks => {
-                if self.length == 1 {
+                if length == 1 {
                     Weekly
-                } else if self.length == 2 {
+                } else if length == 2 {
                     Biweekly
-                } else if self.length == 4 {
+                } else if length == 4 {
                     EveryFourthWeek
                 } else {
                     OtherFrequency
                 }
             }
             Months => {
-                if 12 % self.length == 0 && self.length <= 12 {
-                    Frequency::from(12 / self.length)
+                if 12 % length == 0 && length <= 12 {
+                    Frequency::from(12 / length)
                 } else {
                     OtherFrequency
                 }
             }
             Years => {
-                if self.length == 1 {
+                if length == 1 {
                     Annual
                 } else {
                     OtherFrequency
-- 
2.43.0


From f7d16d5080473ea70cb06ebbe97c30ef8f50acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 05/20] fix: holidays added to or removed from a calendar are
 honoured by is_holiday

---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index b345074..e6ac9d1 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From 38312151fe73a7307aeb2c1c5e4249c40d9f39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 06/20] fix: weekends are not business days of the US
 settlement and Libor calendars

---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From 229c3861fa711197b66c647723362fe5d9218ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 07/20] fix: compute 30/360 day differences with signed days

---
 src/datetime/daycounters/thirty360.rs | 10 ++++++----
 src/datetime/daycounters/thirty365.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..0a65e4b 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,9 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1)
+            + 30 * (mm2 as Integer - mm1 as Integer)
+            + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +355,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From 7f61c19dde4827b8a1e87fb35ba08fb7ede1d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 08/20] fix: forward ex_coupon_date for shared cash flows

---
 src/cashflows/cashflow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..a1a7568 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,10 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
-- 
2.43.0


From 76f1f138685804c21893d4b1d5f9f6186036ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 09/20] fix: accrued amount is negative while trading ex-coupon

---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0


From 5c40f1076ce07e75fd3a15e86093041d660545cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 10/20] fix: fixed rate leg setters replace earlier notionals
 and rates

---
 src/cashflows/fixedrateleg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..35cb880 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(rate, daycounter, compounding, frequency)];
         self
     }
 
@@ -81,6 +78,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
+        self.coupon_rates.clear();
         for rate in rates {
             let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
             self.coupon_rates.push(r);
@@ -89,7 +87,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 96261afa6ba12ad0e21afc49bdbe966e05a99fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 11/20] fix: maturity date of a leg without coupons

---
 src/cashflows/cashflow.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index a1a7568..580fc13 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -259,6 +259,12 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     for cf in cashflows {
         d = d.max(cf.accrual_end_date());
     }
+    if d == Date::default() {
+        // no coupons, i.e. nothing accrues: the last payment is the maturity
+        for cf in cashflows {
+            d = d.max(cf.date());
+        }
+    }
     d
 }
 
-- 
2.43.0


From 34ed9f036b899067988467e2bf5ace604a359466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 12/20] fix: ISMA day counter replaces the last quasi-coupon
 date also after a long first coupon

---
 src/datetime/daycounters/actualactual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..1607766 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,8 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From 00b8daa8b6ddc36169a2d45e2910bb6036d878e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 13/20] fix: schedule termination date follows the termination
 date convention

---
 src/datetime/schedule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..0e2b228 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -499,7 +499,9 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result
+                    .calendar
+                    .adjust(result.dates[len - 1], termination_date_convention);
             }
         }
 
-- 
2.43.0


From 7f553e16d1acca1aa4f1ca56a7585ef17e8da680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 14/20] fix: placeholder effective date for schedules without
 effective and next-to-last dates

---
 src/datetime/schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0e2b228..9e3443a 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -121,6 +121,10 @@ impl Schedule {
                 let date_diff_serial = &next_to_last - eval_date;
                 let y = date_diff_serial / 366 + 1;
                 effective_date = next_to_last - Period::new(y, Years);
+            } else {
+                let date_diff_serial = &termination_date - eval_date;
+                let y = date_diff_serial / 366 + 1;
+                effective_date = termination_date - Period::new(y, Years);
             }
         } else {
             assert!(
-- 
2.43.0


From 2e6ab5ddc4eb77d76dffdd4391b08ac7d23d86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 15/20] fix: non-ASCII strings are not IMM codes

---
 src/datetime/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..9b73781 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -55,7 +55,7 @@ impl IMM {
 
     /// Returns whether or not the given `input` string is an IMM code
     pub fn is_imm_code(&self, input: &str, main_cycle: bool) -> bool {
-        if input.len() != 2 {
+        if input.len() != 2 || !input.is_ascii() {
             return false;
         }
         let mut str1 = "0123456789";
-- 
2.43.0


From c0c29c0cebe13035cc349c3cbdc75ed9ae50660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:47 +0000
Subject: [PATCH 16/20] fix: IMM codes of 1900 resolve to the IMM dates of 1900

---
 src/datetime/imm.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index 9b73781..6d2bc01 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -134,16 +134,11 @@ impl IMM {
         // This cannot panic, since we have already checked abvoe that the code is valid.
         let mut y = code[1..2].parse::<Integer>().unwrap();
 
-        // year < 1900 are not valid QuantLib years: to avoid a run-time
-        // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
-            y += 10;
-        }
         let reference_year = reference_date.year() % 10;
         y += reference_date.year() - reference_year;
-        let result = self.next_date(&Date::new(1, month, y), false);
+        let result = Date::nth_weekday(3, Wednesday, month, y);
         if &result < reference_date {
-            return self.next_date(&Date::new(1, month, y + 10), false);
+            return Date::nth_weekday(3, Wednesday, month, y + 10);
         }
         result
     }
-- 
2.43.0


From a02078909935ff6b854da0138768caa7da8c7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 17/20] fix: linear interpolation uses the last segment's slope
 at the last point

---
 src/maths/interpolations/linearinterpolation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..2af4326 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -70,7 +70,8 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            // the last point ends a segment but does not start one
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
-- 
2.43.0


From ca7bbf534a53d85040ba0792a4a772a493833fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 18/20] fix: Lagrange interpolation at a point with abscissa
 zero is not NaN

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..5c753db 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From ed952ed50aa6b966cf72b3798463be6464dbe709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 19/20] fix: name of the Chinese yuan

---
 src/currencies/asia.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/currencies/asia.rs b/src/currencies/asia.rs
index 85db991..80e2adb 100644
--- a/src/currencies/asia.rs
+++ b/src/currencies/asia.rs
@@ -15,7 +15,7 @@ impl CNYCurrency {
     pub fn new() -> CNYCurrency {
         Self {
             data: CurrencyData::new(
-                "Chinese yean".to_string(),
+                "Chinese yuan".to_string(),
                 "CNY".to_string(),
                 156,
                 "Y".to_string(),
-- 
2.43.0


From ff97a0f5c009ff929b90abbe0e589ebe9d04cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 20/20] fix: cash flows of zero do not count as sign changes of
 a leg

---
 src/cashflows/irrfinder.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cashflows/irrfinder.rs b/src/cashflows/irrfinder.rs
index 4b3ef17..32e7852 100644
--- a/src/cashflows/irrfinder.rs
+++ b/src/cashflows/irrfinder.rs
@@ -93,19 +93,22 @@ impl<'a, T: CashFlow> IrrFinder<'a, T> {
         settlement_date: Date,
         include_settlement_date_flows: bool,
     ) {
-        let mut last_sign = (-npv).signum();
+        let mut last_sign = sign(-npv);
         let mut sign_changes = 0;
 
         for cf in cashflows {
             if !cf.has_occurred(&settlement_date, include_settlement_date_flows)
                 && !cf.trading_ex_coupon(settlement_date)
             {
-                let this_sign = cf.amount().signum();
+                let this_sign = sign(cf.amount());
                 if last_sign * this_sign < 0.0 {
                     // sign change
                     sign_changes += 1;
                 }
-                last_sign = this_sign;
+                // flows of zero have no sign
+                if this_sign != 0.0 {
+                    last_sign = this_sign;
+                }
             }
         }
 
@@ -117,3 +120,12 @@ impl<'a, T: CashFlow> IrrFinder<'a, T> {
         );
     }
 }
+
+/// Sign of a number, zero for zero (for which `signum` is 1 or -1)
+fn sign(x: Real) -> Real {
+    if x == 0.0 {
+        0.0
+    } else {
+        x.signum()
+    }
+}
-- 
2.43.0

