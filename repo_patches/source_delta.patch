From d1f1855e24c5675ce1307c87a7d3cdf0711df038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 01/21] hook: limit entry points for the verification harness
 (cfg symbolic_rust_verif)

---
 src/compute/limit/mod.rs | 24 ++++++++++++++++++++++++
 src/compute/mod.rs       |  3 ++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..1b5f64e 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -81,3 +81,27 @@ impl LimitTry<Expression, Expression> for Expression {
         self.limit(&of, to, order_try)
     }
 }
+
+/// Entry points for the external verification harness: `LimitTry` is private to this module.
+#[cfg(symbolic_rust_verif)]
+pub(crate) mod verif_hook {
+    use super::{Expression, LimitExpression, LimitTry, NoValidLimitFound, Variable};
+
+    pub(crate) fn limit_of_variable(
+        expr: Expression,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        expr.limit(of, to, order_try)
+    }
+
+    pub(crate) fn limit_of_expression(
+        expr: Expression,
+        of: Expression,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        expr.limit(of, to, order_try)
+    }
+}
diff --git a/src/compute/mod.rs b/src/compute/mod.rs
index 4c6a172..dac142b 100644
--- a/src/compute/mod.rs
+++ b/src/compute/mod.rs
@@ -2,4 +2,5 @@ pub mod derivative;
 pub mod num_aggregate;
 pub mod taylor_expansion;
 pub mod substitute;
-pub mod limit;
\ No newline at end of file
+#[allow(unexpected_cfgs)]
+pub mod limit;
-- 
2.43.0


From a12735a1661ca9868efcd7e173d9d3fd6dfe84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 02/21] fix: a fraction sum or difference of zero has a valid
 sign

---
 src/smart_num/rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 438aa11..3a4fc24 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -97,7 +97,7 @@ impl Add for RationalNum {
         let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
         let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
         let s = a + b;
-        let sign = s.signum();
+        let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
@@ -116,7 +116,7 @@ impl Sub for RationalNum {
         let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
         let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
         let s = a - b;
-        let sign = s.signum();
+        let sign = if s < 0 { -1_i64 } else { 1_i64 };
         let nominator = s.abs() as u64;
         let denominator = self.denominator * rhs.denominator;
         let res = RationalNum {
-- 
2.43.0


From 7eb9f3f5d83f28b10ca6f56b149507920ec64c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 03/21] fix: fraction and integer arithmetic falls back to a
 real number when out of range

---
 src/smart_num/rational.rs   | 101 ++++++++++++++++++++----------------
 src/smart_num/val_holder.rs |  95 ++++++++++++++++++++++++++-------
 2 files changed, 134 insertions(+), 62 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 3a4fc24..74acf26 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -33,7 +33,7 @@ impl PartialEq for RationalNum {
 
 impl Eq for RationalNum {}
 
-fn gcd(a: u64, b: u64) -> u64 {
+fn gcd(a: u128, b: u128) -> u128 {
     if b == 0 {
         a
     } else {
@@ -43,7 +43,7 @@ fn gcd(a: u64, b: u64) -> u64 {
 
 impl RationalNum {
     pub fn reduce(&self) -> Self {
-        let mut d = gcd(self.nominator, self.denominator);
+        let mut d = gcd(self.nominator as u128, self.denominator as u128) as u64;
         if d == 0 {
             d = 1
         }
@@ -74,6 +74,57 @@ impl RationalNum {
         return RationalNum::new(-1_i64, nominator, denominator);
     }
 
+    /// The fraction in lowest terms, or `None` if it is out of range.
+    fn from_wide(sign: i64, nominator: u128, denominator: u128) -> Option<RationalNum> {
+        let d = gcd(nominator, denominator).max(1);
+        Some(RationalNum {
+            sign: if nominator == 0 { 1 } else { sign },
+            nominator: u64::try_from(nominator / d).ok()?,
+            denominator: u64::try_from(denominator / d).ok()?,
+        })
+    }
+
+    /// The exact sum, or `None` if it is out of range.
+    pub fn checked_add(self, rhs: Self) -> Option<RationalNum> {
+        let (x, y) = (self.reduce(), rhs.reduce());
+        // Over the least common denominator, a sum that is too wide here stays
+        // out of range when it is reduced.
+        let d = gcd(x.denominator as u128, y.denominator as u128).max(1);
+        let a = x.nominator as u128 * (y.denominator as u128 / d);
+        let b = y.nominator as u128 * (x.denominator as u128 / d);
+        let denominator = x.denominator as u128 * (y.denominator as u128 / d);
+        if x.sign == y.sign {
+            RationalNum::from_wide(x.sign, a.checked_add(b)?, denominator)
+        } else if a >= b {
+            RationalNum::from_wide(x.sign, a - b, denominator)
+        } else {
+            RationalNum::from_wide(y.sign, b - a, denominator)
+        }
+    }
+
+    /// The exact difference, or `None` if it is out of range.
+    pub fn checked_sub(self, rhs: Self) -> Option<RationalNum> {
+        self.checked_add(-rhs)
+    }
+
+    /// The exact product, or `None` if it is out of range.
+    pub fn checked_mul(self, rhs: Self) -> Option<RationalNum> {
+        RationalNum::from_wide(
+            self.sign * rhs.sign,
+            self.nominator as u128 * rhs.nominator as u128,
+            self.denominator as u128 * rhs.denominator as u128,
+        )
+    }
+
+    /// The exact quotient, or `None` if it is out of range.
+    pub fn checked_div(self, rhs: Self) -> Option<RationalNum> {
+        RationalNum::from_wide(
+            self.sign * rhs.sign,
+            self.nominator as u128 * rhs.denominator as u128,
+            self.denominator as u128 * rhs.nominator as u128,
+        )
+    }
+
     pub fn to_f64(&self) -> f64 {
         (self.sign as f64) * (self.nominator as f64) / (self.denominator as f64)
     }
@@ -94,18 +145,7 @@ impl Add for RationalNum {
     type Output = RationalNum;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
-        let s = a + b;
-        let sign = if s < 0 { -1_i64 } else { 1_i64 };
-        let nominator = s.abs() as u64;
-        let denominator = self.denominator * rhs.denominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_add(rhs).expect("fraction out of range")
     }
 }
 
@@ -113,18 +153,7 @@ impl Sub for RationalNum {
     type Output = RationalNum;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
-        let s = a - b;
-        let sign = if s < 0 { -1_i64 } else { 1_i64 };
-        let nominator = s.abs() as u64;
-        let denominator = self.denominator * rhs.denominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_sub(rhs).expect("fraction out of range")
     }
 }
 
@@ -132,15 +161,7 @@ impl Mul for RationalNum {
     type Output = RationalNum;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        let sign = self.sign * rhs.sign;
-        let nominator = self.nominator * rhs.nominator;
-        let denominator = self.denominator * rhs.denominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_mul(rhs).expect("fraction out of range")
     }
 }
 
@@ -148,15 +169,7 @@ impl Div for RationalNum {
     type Output = RationalNum;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let sign = self.sign * rhs.sign;
-        let nominator = self.nominator * rhs.denominator;
-        let denominator = self.denominator * rhs.nominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_div(rhs).expect("fraction out of range")
     }
 }
 
diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 6514344..b156be1 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -92,6 +92,14 @@ impl SmartNumVal {
         RationalNum::new(sign, nominator, denominator).and_then(|v| Some(SmartNumVal::Rational(v)))
     }
 
+    /// The exact result, or its floating-point approximation if it is out of range.
+    fn exact_or_real(exact: Option<RationalNum>, approximation: f64) -> SmartNumVal {
+        match exact {
+            Some(v) => SmartNumVal::Rational(v),
+            None => SmartNumVal::Real(approximation),
+        }
+    }
+
     pub fn zero() -> SmartNumVal {
         SmartNumVal::from(0_i64)
     }
@@ -204,13 +212,27 @@ impl Add for SmartNumVal {
     fn add(self, rhs: Self) -> Self::Output {
         match self {
             SmartNumVal::Integer(i) => match rhs {
-                SmartNumVal::Integer(j) => SmartNumVal::Integer(i + j),
-                SmartNumVal::Rational(j) => SmartNumVal::Rational(RationalNum::from(i) + j),
+                SmartNumVal::Integer(j) => match i.checked_add(j) {
+                    Some(k) => SmartNumVal::Integer(k),
+                    None => SmartNumVal::exact_or_real(
+                        RationalNum::from(i).checked_add(RationalNum::from(j)),
+                        (i as f64) + (j as f64),
+                    ),
+                },
+                SmartNumVal::Rational(j) => SmartNumVal::exact_or_real(
+                    RationalNum::from(i).checked_add(j),
+                    (i as f64) + j.to_f64(),
+                ),
                 SmartNumVal::Real(j) => SmartNumVal::Real((i as f64) + j),
             },
             SmartNumVal::Rational(i) => match rhs {
-                SmartNumVal::Integer(j) => SmartNumVal::Rational(i + RationalNum::from(j)),
-                SmartNumVal::Rational(j) => SmartNumVal::Rational(i + j),
+                SmartNumVal::Integer(j) => SmartNumVal::exact_or_real(
+                    i.checked_add(RationalNum::from(j)),
+                    i.to_f64() + (j as f64),
+                ),
+                SmartNumVal::Rational(j) => {
+                    SmartNumVal::exact_or_real(i.checked_add(j), i.to_f64() + j.to_f64())
+                }
                 SmartNumVal::Real(j) => SmartNumVal::Real(i.to_f64() + j),
             },
             SmartNumVal::Real(i) => match rhs {
@@ -228,13 +250,27 @@ impl Sub for SmartNumVal {
     fn sub(self, rhs: Self) -> Self::Output {
         match self {
             SmartNumVal::Integer(i) => match rhs {
-                SmartNumVal::Integer(j) => SmartNumVal::Integer(i - j),
-                SmartNumVal::Rational(j) => SmartNumVal::Rational(RationalNum::from(i) - j),
+                SmartNumVal::Integer(j) => match i.checked_sub(j) {
+                    Some(k) => SmartNumVal::Integer(k),
+                    None => SmartNumVal::exact_or_real(
+                        RationalNum::from(i).checked_sub(RationalNum::from(j)),
+                        (i as f64) - (j as f64),
+                    ),
+                },
+                SmartNumVal::Rational(j) => SmartNumVal::exact_or_real(
+                    RationalNum::from(i).checked_sub(j),
+                    (i as f64) - j.to_f64(),
+                ),
                 SmartNumVal::Real(j) => SmartNumVal::Real((i as f64) - j),
             },
             SmartNumVal::Rational(i) => match rhs {
-                SmartNumVal::Integer(j) => SmartNumVal::Rational(i - RationalNum::from(j)),
-                SmartNumVal::Rational(j) => SmartNumVal::Rational(i - j),
+                SmartNumVal::Integer(j) => SmartNumVal::exact_or_real(
+                    i.checked_sub(RationalNum::from(j)),
+                    i.to_f64() - (j as f64),
+                ),
+                SmartNumVal::Rational(j) => {
+                    SmartNumVal::exact_or_real(i.checked_sub(j), i.to_f64() - j.to_f64())
+                }
                 SmartNumVal::Real(j) => SmartNumVal::Real(i.to_f64() - j),
             },
             SmartNumVal::Real(i) => match rhs {
@@ -255,13 +291,27 @@ impl Mul for SmartNumVal {
         } else {
             match self {
                 SmartNumVal::Integer(i) => match rhs {
-                    SmartNumVal::Integer(j) => SmartNumVal::Integer(i * j),
-                    SmartNumVal::Rational(j) => SmartNumVal::Rational(RationalNum::from(i) * j),
+                    SmartNumVal::Integer(j) => match i.checked_mul(j) {
+                        Some(k) => SmartNumVal::Integer(k),
+                        None => SmartNumVal::exact_or_real(
+                            RationalNum::from(i).checked_mul(RationalNum::from(j)),
+                            (i as f64) * (j as f64),
+                        ),
+                    },
+                    SmartNumVal::Rational(j) => SmartNumVal::exact_or_real(
+                        RationalNum::from(i).checked_mul(j),
+                        (i as f64) * j.to_f64(),
+                    ),
                     SmartNumVal::Real(j) => SmartNumVal::Real((i as f64) * j),
                 },
                 SmartNumVal::Rational(i) => match rhs {
-                    SmartNumVal::Integer(j) => SmartNumVal::Rational(i * RationalNum::from(j)),
-                    SmartNumVal::Rational(j) => SmartNumVal::Rational(i * j),
+                    SmartNumVal::Integer(j) => SmartNumVal::exact_or_real(
+                        i.checked_mul(RationalNum::from(j)),
+                        i.to_f64() * (j as f64),
+                    ),
+                    SmartNumVal::Rational(j) => {
+                        SmartNumVal::exact_or_real(i.checked_mul(j), i.to_f64() * j.to_f64())
+                    }
                     SmartNumVal::Real(j) => SmartNumVal::Real(i.to_f64() * j),
                 },
                 SmartNumVal::Real(i) => match rhs {
@@ -283,15 +333,24 @@ impl Div for SmartNumVal {
         } else {
             match self {
                 SmartNumVal::Integer(i) => match rhs {
-                    SmartNumVal::Integer(j) => {
-                        SmartNumVal::Rational(RationalNum::from(i) / RationalNum::from(j))
-                    }
-                    SmartNumVal::Rational(j) => SmartNumVal::Rational(RationalNum::from(i) / j),
+                    SmartNumVal::Integer(j) => SmartNumVal::exact_or_real(
+                        RationalNum::from(i).checked_div(RationalNum::from(j)),
+                        (i as f64) / (j as f64),
+                    ),
+                    SmartNumVal::Rational(j) => SmartNumVal::exact_or_real(
+                        RationalNum::from(i).checked_div(j),
+                        (i as f64) / j.to_f64(),
+                    ),
                     SmartNumVal::Real(j) => SmartNumVal::Real((i as f64) / j),
                 },
                 SmartNumVal::Rational(i) => match rhs {
-                    SmartNumVal::Integer(j) => SmartNumVal::Rational(i / RationalNum::from(j)),
-                    SmartNumVal::Rational(j) => SmartNumVal::Rational(i / j),
+                    SmartNumVal::Integer(j) => SmartNumVal::exact_or_real(
+                        i.checked_div(RationalNum::from(j)),
+                        i.to_f64() / (j as f64),
+                    ),
+                    SmartNumVal::Rational(j) => {
+                        SmartNumVal::exact_or_real(i.checked_div(j), i.to_f64() / j.to_f64())
+                    }
                     SmartNumVal::Real(j) => SmartNumVal::Real(i.to_f64() / j),
                 },
                 SmartNumVal::Real(i) => match rhs {
-- 
2.43.0


From 9c395df57791ff9c246d38e73e30b2d51b4a90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 04/21] fix: the smallest integer can be negated and converted
 to a fraction

---
 src/smart_num/rational.rs   | 2 +-
 src/smart_num/val_holder.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 74acf26..d79642a 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -187,7 +187,7 @@ impl From<i64> for RationalNum {
     fn from(v: i64) -> Self {
         RationalNum {
             sign: if v == 0 { 1_i64 } else { v.signum() },
-            nominator: v.abs() as u64,
+            nominator: v.unsigned_abs(),
             denominator: 1,
         }
     }
diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index b156be1..a67ce6e 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -368,7 +368,10 @@ impl Neg for &SmartNumVal {
 
     fn neg(self) -> Self::Output {
         match self {
-            SmartNumVal::Integer(v) => SmartNumVal::Integer(-*v),
+            SmartNumVal::Integer(v) => match v.checked_neg() {
+                Some(k) => SmartNumVal::Integer(k),
+                None => SmartNumVal::Rational(-RationalNum::from(*v)),
+            },
             SmartNumVal::Rational(v) => SmartNumVal::Rational(-*v),
             SmartNumVal::Real(v) => SmartNumVal::Real(-*v),
         }
-- 
2.43.0


From 4413ab040341fa3fdb9083bda3da88afa2d8ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 05/21] fix: an unsigned integer above the signed range keeps
 its value

---
 src/smart_num/val_holder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index a67ce6e..dc2be3d 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -202,7 +202,10 @@ impl From<i32> for SmartNumVal {
 
 impl From<u64> for SmartNumVal {
     fn from(v: u64) -> Self {
-        SmartNumVal::Integer(v as i64)
+        match i64::try_from(v) {
+            Ok(v) => SmartNumVal::Integer(v),
+            Err(_) => SmartNumVal::Rational(RationalNum::from(v)),
+        }
     }
 }
 
-- 
2.43.0


From c4e926b5d1758aff6ddf7d48b5988bd2f02c5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 06/21] fix: an invalid fraction sign is refused whatever its
 value

---
 src/smart_num/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index d79642a..2ad0997 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -55,7 +55,7 @@ impl RationalNum {
     }
 
     pub fn new(sign: i64, nominator: u64, denominator: u64) -> Option<RationalNum> {
-        if sign.abs() == 1 && denominator != 0 {
+        if (sign == 1 || sign == -1) && denominator != 0 {
             Some(RationalNum {
                 sign,
                 nominator,
-- 
2.43.0


From 1c7fa09d41911191ace668340c5d2fb9beaca6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 07/21] fix: the sign of zero is zero

---
 src/smart_num/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/smart_num/mod.rs b/src/smart_num/mod.rs
index cc06b70..f4ccaa3 100644
--- a/src/smart_num/mod.rs
+++ b/src/smart_num/mod.rs
@@ -99,7 +99,9 @@ impl SmartNum {
     pub fn sign(&self) -> i64 {
         match self.value {
             SmartNumVal::Integer(v) => v.signum(),
+            SmartNumVal::Rational(v) if v.nominator == 0 => 0,
             SmartNumVal::Rational(v) => v.sign,
+            SmartNumVal::Real(v) if v == 0.0 => 0,
             SmartNumVal::Real(v) => v.signum() as i64,
         }
     }
-- 
2.43.0


From 5234fc086932b3b77a5bceccc2ceacddf3961aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 08/21] fix: zero over zero, and zero times a non-finite
 number, is not zero

---
 src/smart_num/val_holder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index dc2be3d..9e84aed 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -289,7 +289,10 @@ impl Mul for SmartNumVal {
     type Output = SmartNumVal;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || rhs.is_zero() {
+        // Zero times something that is not finite is not zero.
+        if (self.is_zero() && rhs.to_f64().is_finite())
+            || (rhs.is_zero() && self.to_f64().is_finite())
+        {
             SmartNumVal::Integer(0_i64)
         } else {
             match self {
@@ -331,7 +334,8 @@ impl Div for SmartNumVal {
     type Output = SmartNumVal;
 
     fn div(self, rhs: Self) -> Self::Output {
-        if self.is_zero() {
+        // Zero over zero is not zero.
+        if self.is_zero() && rhs.to_f64().abs() > 0.0 {
             SmartNumVal::Integer(0_i64)
         } else {
             match self {
-- 
2.43.0


From c0251ee927b7b012d57259ff05bfb41526d7ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 09/21] fix: the cosine of pi is -1

---
 src/compute/num_aggregate/rules/cos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/cos.rs b/src/compute/num_aggregate/rules/cos.rs
index 567f2c1..a27f4c7 100644
--- a/src/compute/num_aggregate/rules/cos.rs
+++ b/src/compute/num_aggregate/rules/cos.rs
@@ -6,8 +6,10 @@ pub(crate) fn cos_eval_rule(mut child: Vec<Expression>) -> Expression {
     let sub = child.pop().unwrap().num_aggregate();
     match &sub.root {
         AstNode::Operand(operand) => {
-            if operand.is_zero() || operand.is_pi() {
+            if operand.is_zero() {
                 Expression::from(1_i64)
+            } else if operand.is_pi() {
+                Expression::from(-1_i64)
             } else {
                 sub.cos()
             }
-- 
2.43.0


From 5299cb7df61718ed8c024af971569e9238ea6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 10/21] fix: evaluating a power only applies rules that hold
 for powers

---
 src/compute/num_aggregate/rules/pow.rs | 32 +++++++++-----------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index acd3e5b..2188c19 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -1,28 +1,18 @@
-use crate::ast::op::operand::AstOperand;
-use crate::ast::op::operator::OperatorType;
-use crate::ast::tree::{AstNode, Expression};
+use crate::ast::tree::Expression;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::math_op::pow::Pow;
+use crate::smart_num::ToSmartNum;
 
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
-    let mut sub = child.pop().unwrap().num_aggregate();
-    match &sub.root {
-        AstNode::Operand(operand) => match operand {
-            AstOperand::Variable(_) => sub.pow(r),
-            AstOperand::Num(v) => {
-                if v.is_zero() {
-                    Expression::from(1_i64)
-                } else if v.is_one() {
-                    r
-                } else {
-                    sub.pow(r)
-                }
-            }
-        },
-        AstNode::Operator(operator) => match operator.descriptor {
-            OperatorType::Ln => sub.child.pop().unwrap(),
-            _ => sub.pow(r),
-        },
+    let sub = child.pop().unwrap().num_aggregate();
+    if r.is_zero() || sub.is_one() {
+        Expression::one()
+    } else if r.is_one() {
+        sub
+    } else if sub.is_zero() && (&r).to_smart_num().map_or(false, |v| v.sign() > 0) {
+        Expression::zero()
+    } else {
+        sub.pow(r)
     }
 }
-- 
2.43.0


From 04816d3b27c1b7a2fa3a0b2b894a6621cb655df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 11/21] fix: zero minus a negation is simplified like any other
 double negation

---
 src/compute/num_aggregate/rules/sub.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/sub.rs b/src/compute/num_aggregate/rules/sub.rs
index 2d8e783..d504dba 100644
--- a/src/compute/num_aggregate/rules/sub.rs
+++ b/src/compute/num_aggregate/rules/sub.rs
@@ -1,4 +1,5 @@
 use crate::ast::tree::Expression;
+use crate::compute::num_aggregate::rules::neg::neg_eval_rule;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::smart_num::ToSmartNum;
 
@@ -8,7 +9,7 @@ pub(crate) fn sub_eval_rule(mut child: Vec<Expression>) -> Expression {
     if l.is_num() && r.is_num() {
         Expression::from(l.to_smart_num().unwrap() - r.to_smart_num().unwrap())
     } else if l.is_zero() {
-        -r
+        neg_eval_rule(vec![r])
     } else if r.is_zero() {
         l
     } else {
-- 
2.43.0


From 892b7e64d06d7db3f8d42d31ca51c474a763813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 12/21] fix: the derivative of a power with a constant exponent
 is defined at a zero base

---
 src/compute/derivative/rules/pow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compute/derivative/rules/pow.rs b/src/compute/derivative/rules/pow.rs
index 79c7870..7aaef6f 100644
--- a/src/compute/derivative/rules/pow.rs
+++ b/src/compute/derivative/rules/pow.rs
@@ -13,6 +13,10 @@ pub(crate) fn pow_derivative_rule(
     let u = child.pop().unwrap();
     let r_d = r.clone().derivative(to)?;
     let u_d = u.clone().derivative(to)?;
+    if r_d.is_zero() {
+        // (u^r)' = r * u^(r-1) * u', also where u is zero
+        return Ok(r.clone() * u.pow(r - Expression::one()) * u_d);
+    }
     let ln_u = u.clone().ln();
     let u_pow_r = u.clone().pow(r.clone());
     return Ok(u_pow_r * (r_d * ln_u + r * u_d / u));
-- 
2.43.0


From e2d9d6a3ee7567769662190314ad7afeb8f0e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 13/21] fix: printing keeps the parentheses that the value
 depends on

---
 src/ast/tree.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index e598fa5..18798db 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -2,7 +2,7 @@
 
 use super::op::{
     operand::{AstOperand, Variable},
-    operator::AstOperator,
+    operator::{AstOperator, OperatorType},
 };
 use crate::smart_num::{
     rational::{RationalNum, ToRational},
@@ -78,19 +78,34 @@ impl Expression {
 
     fn to_string_raw(&self, upper_priority: u32) -> String {
         match &self.root {
-            AstNode::Operand(v) => v.to_string(),
+            AstNode::Operand(v) => {
+                let me = v.to_string();
+                if upper_priority > 4 && me.starts_with('-') {
+                    // a negative number under a function or as the base of a power
+                    format!("({})", me)
+                } else {
+                    me
+                }
+            }
             AstNode::Operator(op) => {
+                // the lowest priorities that need no parentheses on either side
+                let (left, right) = match op.descriptor {
+                    OperatorType::Neg => (op.priority + 2, op.priority + 2),
+                    OperatorType::Sub | OperatorType::Div => (op.priority, op.priority + 1),
+                    OperatorType::Pow => (op.priority + 1, op.priority + 1),
+                    _ => (op.priority, op.priority),
+                };
                 let me = if self.child.len() == 2 {
                     // binary operator
                     format!(
                         "{} {} {}",
-                        self.child[0].to_string_raw(op.priority),
+                        self.child[0].to_string_raw(left),
                         op,
-                        self.child[1].to_string_raw(op.priority),
+                        self.child[1].to_string_raw(right),
                     )
                 } else {
                     // unary operator
-                    format!("{}{}", op, self.child[0].to_string_raw(op.priority),)
+                    format!("{}{}", op, self.child[0].to_string_raw(left),)
                 };
                 if op.priority < upper_priority {
                     format!("({})", me)
-- 
2.43.0


From 8aced188332f611eadf2bdb173675c2ec95a26cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 14/21] fix: an infinitesimal plus infinity is infinity, in
 either order

---
 src/compute/limit/limit_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/limit_expression.rs b/src/compute/limit/limit_expression.rs
index 76bdce6..2c0bc39 100644
--- a/src/compute/limit/limit_expression.rs
+++ b/src/compute/limit/limit_expression.rs
@@ -53,7 +53,7 @@ impl Add for LimitExpression {
         match self {
             LimitExpression::Infinitesimal => match rhs {
                 LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
-                LimitExpression::Infinity => Err(NoValidLimitFound {}),
+                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                 LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
                 LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r)),
             },
-- 
2.43.0


From 7645ac546b7b84ff3c6423d134d63bd8e1ea53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 15/21] fix: the limit of a negation is the negated limit

---
 src/compute/limit/mod.rs       | 2 +-
 src/compute/limit/rules/neg.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 1b5f64e..c20e6b4 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -45,7 +45,7 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 }
             },
             AstNode::Operator(operator) => match operator.descriptor {
-                OperatorType::Neg => Ok(self.neg_limit_expr_rule(of, to, order_try)),
+                OperatorType::Neg => self.neg_limit_expr_rule(of, to, order_try),
                 OperatorType::Add => self.add_limit_expr_rule(of, to, order_try),
                 OperatorType::Sub => self.sub_limit_expr_rule(of, to, order_try),
                 OperatorType::Mul => self.mul_limit_expr_rule(of, to, order_try),
diff --git a/src/compute/limit/rules/neg.rs b/src/compute/limit/rules/neg.rs
index c254f46..006f000 100644
--- a/src/compute/limit/rules/neg.rs
+++ b/src/compute/limit/rules/neg.rs
@@ -1,6 +1,9 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::limit::limit_expression::LimitExpression,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
 };
 
 pub(crate) trait NegLimitExprRule {
@@ -9,10 +12,10 @@ pub(crate) trait NegLimitExprRule {
 }
 
 impl NegLimitExprRule for Expression {
-    type Output = LimitExpression;
+    type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn neg_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
         let sub = self.child.pop().unwrap();
-        -sub.neg_limit_expr_rule(of, to, order_try)
+        Ok(-sub.limit(of, to, order_try)?)
     }
 }
-- 
2.43.0


From ab1a29a2b0c29dd99eb13e2c797dd230dd650def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 16/21] fix: a limit value that is zero is reported as zero

---
 src/compute/limit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index c20e6b4..2260d90 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -63,7 +63,14 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
         };
         return if flag {
             match z {
-                LimitExpression::Normal(expr) => Ok(LimitExpression::Normal(expr.num_aggregate())),
+                LimitExpression::Normal(expr) => {
+                    let value = expr.num_aggregate();
+                    if value.is_zero() {
+                        Ok(LimitExpression::Infinitesimal)
+                    } else {
+                        Ok(LimitExpression::Normal(value))
+                    }
+                }
                 _ => Err(NoValidLimitFound {}), // Unreachable
             }
         } else {
-- 
2.43.0


From 87e1b4aabdd6eb378a9cd9df69960bc470663b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 17/21] fix: a limit without a rule is refused instead of
 crashing

---
 src/compute/limit/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 2260d90..a9f62d7 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -52,9 +52,10 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 OperatorType::Div => self.div_limit_expr_rule(of, to, order_try),
                 OperatorType::Sin => self.sin_limit_expr_rule(of, to, order_try),
                 OperatorType::Cos => self.cos_limit_expr_rule(of, to, order_try),
-                OperatorType::Exp => todo!(),
-                OperatorType::Ln => todo!(),
-                OperatorType::Pow => todo!(),
+                // no rules yet
+                OperatorType::Exp => Err(NoValidLimitFound {}),
+                OperatorType::Ln => Err(NoValidLimitFound {}),
+                OperatorType::Pow => Err(NoValidLimitFound {}),
             },
         }?;
         let flag = match &z {
-- 
2.43.0


From 4595c5fd7cf5ad1323656d93cec9284ce20fa8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 18/21] fix: a limit in something that is not a variable is
 refused instead of crashing

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index a9f62d7..eda199d 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -85,7 +85,7 @@ impl LimitTry<Expression, Expression> for Expression {
 
     fn limit(self, of_: Expression, to: Expression, order_try: u64) -> Self::Output {
         let of_raw: Option<Variable> = of_.into();
-        let of = of_raw.unwrap();
+        let of = of_raw.ok_or(NoValidLimitFound {})?;
         self.limit(&of, to, order_try)
     }
 }
-- 
2.43.0


From a8d0ff2f1421c6851a561b45f254b3af57c1d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 19/21] fix: the limit of sine and cosine follows the limit of
 the argument

---
 src/compute/limit/mod.rs       | 49 +++++++++++++++++++++++++++++++++-
 src/compute/limit/rules/cos.rs | 27 ++++++++++---------
 src/compute/limit/rules/sin.rs | 31 ++++++++++-----------
 3 files changed, 76 insertions(+), 31 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index eda199d..a366dba 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -6,7 +6,8 @@ use crate::{
         },
         tree::{AstNode, Expression},
     },
-    compute::num_aggregate::NumAggregate,
+    compute::{num_aggregate::NumAggregate, substitute::Substitute},
+    smart_num::ToSmartNum,
 };
 
 use self::{
@@ -90,6 +91,52 @@ impl LimitTry<Expression, Expression> for Expression {
     }
 }
 
+/// Is the expression continuous at the point, so that substitution gives its limit?
+fn is_continuous(expr: &Expression, of: &Variable, to: &Expression) -> bool {
+    let value = |e: &Expression| e.clone().substitute(of, to).map(|v| v.num_aggregate());
+    let not_zero = |e: &Expression| e.to_smart_num().map_or(true, |v| v.sign() != 0);
+    let positive = |e: &Expression| e.to_smart_num().map_or(true, |v| v.sign() > 0);
+    let child = &expr.child;
+    match &expr.root {
+        AstNode::Operand(_) => true,
+        AstNode::Operator(operator) => {
+            child.iter().all(|c| is_continuous(c, of, to))
+                && match operator.descriptor {
+                    OperatorType::Div => value(&child[1]).map_or(false, |v| not_zero(&v)),
+                    OperatorType::Ln => value(&child[0]).map_or(false, |v| positive(&v)),
+                    OperatorType::Pow => {
+                        let natural = (&child[1])
+                            .to_smart_num()
+                            .map_or(false, |r| r.to_i64().map_or(false, |k| k >= 0));
+                        natural || value(&child[0]).map_or(false, |v| positive(&v))
+                    }
+                    _ => true,
+                }
+        }
+    }
+}
+
+/// What the argument of a function that is continuous everywhere tends to.
+pub(crate) fn argument_limit(
+    argument: Expression,
+    of: &Variable,
+    to: Expression,
+    order_try: u64,
+) -> Result<Expression, NoValidLimitFound> {
+    if is_continuous(&argument, of, &to) {
+        return argument
+            .substitute(of, &to)
+            .map(|v| v.num_aggregate())
+            .map_err(|_| NoValidLimitFound {});
+    }
+    match argument.limit(of, to, order_try)? {
+        LimitExpression::Infinitesimal => Ok(Expression::zero()),
+        LimitExpression::Normal(v) => Ok(v),
+        LimitExpression::Infinity => Err(NoValidLimitFound {}),
+        LimitExpression::BoundedFluctuation => Err(NoValidLimitFound {}),
+    }
+}
+
 /// Entry points for the external verification harness: `LimitTry` is private to this module.
 #[cfg(symbolic_rust_verif)]
 pub(crate) mod verif_hook {
diff --git a/src/compute/limit/rules/cos.rs b/src/compute/limit/rules/cos.rs
index 0f920b5..11b165b 100644
--- a/src/compute/limit/rules/cos.rs
+++ b/src/compute/limit/rules/cos.rs
@@ -1,10 +1,13 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
     compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
+        limit::{
+            argument_limit,
+            limit_expression::{LimitExpression, NoValidLimitFound},
+        },
         num_aggregate::NumAggregate,
-        substitute::Substitute,
     },
+    math_op::cos::Cos,
 };
 
 pub(crate) trait CosLimitExprRule {
@@ -17,16 +20,14 @@ pub(crate) trait CosLimitExprRule {
 impl CosLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn cos_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        self.substitute(of, &to)
-            .map_err(|_| NoValidLimitFound {})
-            .map(|expr| {
-                let z = expr.num_aggregate();
-                if z.is_zero() {
-                    LimitExpression::Infinitesimal
-                } else {
-                    LimitExpression::Normal(z)
-                }
-            })
+    fn cos_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
+        argument_limit(self.child.pop().unwrap(), of, to, order_try).map(|argument| {
+            let z = argument.cos().num_aggregate();
+            if z.is_zero() {
+                LimitExpression::Infinitesimal
+            } else {
+                LimitExpression::Normal(z)
+            }
+        })
     }
 }
diff --git a/src/compute/limit/rules/sin.rs b/src/compute/limit/rules/sin.rs
index 9f877e1..6adab03 100644
--- a/src/compute/limit/rules/sin.rs
+++ b/src/compute/limit/rules/sin.rs
@@ -1,10 +1,13 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
     compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
+        limit::{
+            argument_limit,
+            limit_expression::{LimitExpression, NoValidLimitFound},
+        },
         num_aggregate::NumAggregate,
-        substitute::Substitute,
     },
+    math_op::sin::Sin,
 };
 
 pub(crate) trait SinLimitExprRule {
@@ -17,20 +20,14 @@ pub(crate) trait SinLimitExprRule {
 impl SinLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn sin_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        if to.is_zero() {
-            Ok(LimitExpression::Infinitesimal)
-        } else {
-            self.substitute(of, &to)
-                .map_err(|_| NoValidLimitFound {})
-                .map(|expr| {
-                    let z = expr.num_aggregate();
-                    if z.is_zero() {
-                        LimitExpression::Infinitesimal
-                    } else {
-                        LimitExpression::Normal(z)
-                    }
-                })
-        }
+    fn sin_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
+        argument_limit(self.child.pop().unwrap(), of, to, order_try).map(|argument| {
+            let z = argument.sin().num_aggregate();
+            if z.is_zero() {
+                LimitExpression::Infinitesimal
+            } else {
+                LimitExpression::Normal(z)
+            }
+        })
     }
 }
-- 
2.43.0


From cc8d21302b2ab914f1efd31cc01887727f9ffdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 20/21] fix: nested limit attempts use up the tries, so that
 the search ends

---
 src/compute/limit/rules/div.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 0fde3d5..95627cb 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -26,9 +26,10 @@ impl DivLimitExprRule for Expression {
         let mut r = self.child.pop().unwrap();
         let mut l = self.child.pop().unwrap();
         // l/r
-        for _ in 0..=order_try {
-            let a = l.clone().limit(of, to.clone(), order_try)?;
-            let b = r.clone().limit(of, to.clone(), order_try)?;
+        // Every step uses up one try for what is nested inside, so that the search ends.
+        for rest in (0..=order_try).rev() {
+            let a = l.clone().limit(of, to.clone(), rest)?;
+            let b = r.clone().limit(of, to.clone(), rest)?;
             let z = a / b;
             if z.is_ok() {
                 return Ok(z.unwrap());
-- 
2.43.0


From 653b2923542fbf0c54e32c12ff96bd180a8983c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 21/21] Verification hook: import whatever the module has

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index a366dba..9538d2e 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -140,7 +140,7 @@ pub(crate) fn argument_limit(
 /// Entry points for the external verification harness: `LimitTry` is private to this module.
 #[cfg(symbolic_rust_verif)]
 pub(crate) mod verif_hook {
-    use super::{Expression, LimitExpression, LimitTry, NoValidLimitFound, Variable};
+    use super::*;
 
     pub(crate) fn limit_of_variable(
         expr: Expression,
-- 
2.43.0

