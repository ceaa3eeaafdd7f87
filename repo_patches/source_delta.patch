From 5c9a1fd2509c4534e9f2c420339eb172c3d0b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 01/18] fix: rmul in Nearest mode overflows when COEF takes
 more than half of the layout

`loss + loss` doesn't fit in `i128` for `FixedPoint<i128, U38>`, so the operation
panicked (or rounded in the wrong direction without overflow checks).
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..41e0ef3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,8 +289,12 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `loss + loss` could overflow if `COEF` takes more than half of the layout.
+                    if sign as i32 >= 0 {
+                        loss >= Self::COEF - loss
+                    } else {
+                        loss <= Self::NEG_COEF - loss
+                    }
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 8c2bde41d4b55a8a00a5e3711616196d12e0f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 02/18] fix: rdiv in Nearest mode overflows for large divisors

`loss + loss` and `abs(MIN)` don't have to fit in the layout, so dividing by
numbers close to the bounds panicked (or rounded wrong without overflow checks).
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 41e0ef3..9c72029 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -336,8 +336,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // Neither `loss + loss` nor `abs(MIN)` is guaranteed to fit in the layout.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 53ae424dc51550055af37d33607c8ecd692b8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 03/18] fix: rdiv by an integer panics on overflow

`MIN / -1` panicked instead of returning `ArithmeticError::Overflow`, and rounding
in Nearest mode overflowed for divisors close to the bounds.
---
 src/ops/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..c6b0381 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,15 +452,16 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // Neither `loss + loss` nor `abs(MIN)` is guaranteed to fit in the integer.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 101c79c6c57cc3c1b1cf77be23d1f1318374b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 04/18] fix: integral, floor, ceil and round panic on MIN

`abs(MIN)` overflowed, and so did `frac + frac` for `FixedPoint<i128, U38>`.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9c72029..9155945 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -505,10 +505,11 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    // `frac + frac` could overflow if `COEF` takes more than half of the layout.
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From d9a802754e183b58ff2740034754ef9a8d713c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 05/18] fix: parsing rejects fractions longer than the
 precision at P = 0, and zeros in exact mode

With zero precision nothing was left of the fraction after truncation, so even
"5.0", which is what `Display` prints, couldn't be parsed. `from_str_exact` rejected
representable values with trailing zeros.
---
 src/string.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..4a08ae8 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -55,16 +55,21 @@ macro_rules! impl_for {
                 let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };
                 let prec = Self::PRECISION as usize; // TODO: negative precision?
 
-                if EXACT {
-                    if fractional_str.len() > Self::PRECISION.abs() as usize {
-                        return Err(ConvertError::new("requested precision is too high"));
+                let round = if fractional_str.len() > prec {
+                    let (kept, extra) = fractional_str.split_at(prec);
+                    fractional_str = kept;
+
+                    if EXACT {
+                        // Trailing zeros don't affect the value.
+                        if extra.bytes().any(|digit| digit != b'0') {
+                            return Err(ConvertError::new("requested precision is too high"));
+                        }
+                        None
+                    } else {
+                        Some(signum).filter(|_| extra.as_bytes()[0] >= b'5')
                     }
-                }
-
-                let round = if !EXACT && fractional_str.len() > prec {
-                    let extra = fractional_str.as_bytes()[prec];
-                    fractional_str = &fractional_str[..prec];
-                    Some(signum).filter(|_| extra >= b'5')
+                } else if fractional_str.is_empty() {
+                    return Err(ConvertError::new("can't parse fractional part"));
                 } else {
                     None
                 };
@@ -72,15 +77,15 @@ macro_rules! impl_for {
                 let ten: $layout = 10;
                 let exp = ten.pow(fractional_str.len() as u32);
 
-                if EXACT && exp > Self::COEF {
-                    return Err(ConvertError::new("requested precision is too high"));
-                }
-
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                let fractional: $layout = if fractional_str.is_empty() {
+                    0
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From 1316b073fb5dcbbca68efbcc2a1e67bdca7db95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 06/18] fix: the buffer for formatting is one byte too short
 for zero precision

Formatting `FixedPoint<i128, U0>::MIN` (or `FixedPoint<i64, U0>::MIN` without the
`i128` feature) wrote out of bounds of the buffer.
---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 4a08ae8..25273e0 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -132,9 +132,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**(bits-1))) + 2`,
+// where `2` is reserved for `.0` after integral part if the precision is zero.
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From e06bc41dfb957495963e7ffc7a53ea95b51bd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 07/18] fix: formatting overflows for MIN and for i128 with the
 maximal precision

`abs(MIN)` with zero precision and `fractional + COEF` for `FixedPoint<i128, U38>`
don't fit in the signed layout.
---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 25273e0..54ed6c0 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -113,14 +113,14 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                let integral = (self.inner / Self::COEF).unsigned_abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
-- 
2.43.0


From 842562b6264a126a5587559ad5ffb3ba35f5c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 08/18] fix: from_decimal panics if the power of ten doesn't
 fit in the layout

E.g. `FixedPoint<i64, U9>::from_decimal(1, 10)` overflowed in `pow` instead of
returning an error.
---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9155945..d8d1e85 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -676,11 +676,13 @@ macro_rules! impl_fixed_point {
                     return Err(ConvertError::new("unsupported exponent"));
                 }
 
-                let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
+                if mantissa == 0 {
+                    return Ok(Self::ZERO);
+                }
 
-                mantissa
-                    .checked_mul(multiplier)
+                let ten: $layout = 10;
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From 38c3d9f420a19bfbdee73ffa464f78509f83c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 09/18] fix: conversion from f64 rejects floats equal to MIN

---
 src/float.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index e833677..8ead169 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,17 +168,18 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
-                let bits: $layout = bits
-                    .try_into()
-                    .map_err(|_| ConvertError::new("too big number"))?;
-
-                if positive {
-                    Ok(Self::from_bits(bits))
+                // The sign must be applied before narrowing, because `-MIN` doesn't fit in the layout.
+                let bits = if positive {
+                    i128::try_from(bits).ok()
+                } else if bits <= i128::MIN.unsigned_abs() {
+                    Some((bits as i128).wrapping_neg())
                 } else {
-                    bits.checked_neg()
-                        .map(Self::from_bits)
-                        .ok_or_else(|| ConvertError::new("too big number"))
-                }
+                    None
+                };
+
+                bits.and_then(|bits| $layout::try_from(bits).ok())
+                    .map(Self::from_bits)
+                    .ok_or_else(|| ConvertError::new("too big number"))
             }
         }
     };
-- 
2.43.0


From d9af0b5000c632edf223436880c13bccfb379e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 10/18] fix: str and str_option reject strings that are not
 borrowed from the input

---
 src/serde.rs | 50 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..1c10650 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -228,13 +228,27 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        deserializer
+            .deserialize_str(StrVisitor(PhantomData))
+            .map(F::from)
+    }
+
+    struct StrVisitor<I, P>(PhantomData<(I, P)>);
+
+    impl<'de, I, P> de::Visitor<'de> for StrVisitor<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        type Value = FixedPoint<I, P>;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("string containing a fixed-point number")
+        }
+
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            s.parse()
+                .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+        }
     }
 }
 
@@ -265,16 +279,18 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        Option::<Str<I, P>>::deserialize(deserializer).map(|s| s.map(|s| F::from(s.0)))
+    }
+
+    struct Str<I, P>(FixedPoint<I, P>);
+
+    impl<'de, I, P> Deserialize<'de> for Str<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+            str::deserialize(deserializer).map(Str)
+        }
     }
 }
 
-- 
2.43.0


From 5141346dc14d23533782f6275c8044230f76edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 11/18] fix: compile-time literals wrap on overflow in builds
 without overflow checks

---
 src/const_fn.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 997ac30..1658ef8 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -13,6 +13,19 @@ macro_rules! const_assert {
     };
 }
 
+// `const fn` inherits overflow checks from the profile of this crate, so they must be explicit.
+const fn add(a: Int, b: Int) -> Int {
+    let (result, overflow) = a.overflowing_add(b);
+    const_assert!(!overflow);
+    result
+}
+
+const fn mul(a: Int, b: Int) -> Int {
+    let (result, overflow) = a.overflowing_mul(b);
+    const_assert!(!overflow);
+    result
+}
+
 pub const fn pow10(power: i32) -> Int {
     const POW_10: [Int; 19] = [
         1,
@@ -44,7 +57,7 @@ pub const fn pow10(power: i32) -> Int {
     let mut i = power - POW_10.len() as i32 + 1;
 
     while i > 0 {
-        result *= 10;
+        result = mul(result, 10);
         i -= 1;
     }
 
@@ -75,15 +88,13 @@ const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
     let mut i = start;
 
     while i < end {
-        let digit = parse_digit(bytes[i]);
+        result = add(mul(result, 10), parse_digit(bytes[i]));
         i += 1;
-        result += digit * pow10((end - i) as i32);
     }
 
     result
 }
 
-// TODO: check overflow explicitly.
 pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let bytes = str.as_bytes();
     let signum = if bytes[0] == b'-' { -1 } else { 1 };
@@ -98,7 +109,7 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
         Some(point) => point,
         None => {
             let integral = parse_int(bytes, start, bytes.len());
-            return signum * integral * coef;
+            return mul(signum * integral, coef);
         }
     };
 
@@ -107,10 +118,10 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     const_assert!(exp <= coef);
 
     let fractional = parse_int(bytes, point + 1, bytes.len());
-    let final_integral = integral * coef;
+    let final_integral = mul(integral, coef);
     let final_fractional = coef / exp * fractional;
 
-    signum * (final_integral + final_fractional)
+    signum * add(final_integral, final_fractional)
 }
 
 #[test]
-- 
2.43.0


From 80c12c9e530b29e1f1fb66e04d10f62f7bf7d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 12/18] fix: literals out of the range of the target type are
 silently truncated

---
 src/lib.rs    |  2 +-
 src/macros.rs | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d8d1e85..5be113e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -172,7 +172,7 @@ mod schemars;
 #[doc(hidden)]
 pub mod _priv {
     pub use crate::const_fn::*;
-    pub use crate::macros::Operand;
+    pub use crate::macros::{Literal, Operand};
     pub use crate::ops::*;
 }
 
diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..ad9ea4b 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,4 +1,4 @@
-use crate::FixedPoint;
+use crate::{const_fn::Int, FixedPoint};
 
 // TODO: make it Sealed
 #[doc(hidden)] // available only in `_priv` for macros.
@@ -48,6 +48,27 @@ impl_int_operand!(i32 => i32, i64, i128);
 impl_int_operand!(i64 => i64, i128);
 impl_int_operand!(i128 => i128);
 
+/// A literal as an inner representation. Fails compilation if the value doesn't fit.
+#[doc(hidden)] // available only in `_priv` for macros.
+pub trait Literal<const VALUE: Int> {
+    const INNER: Self;
+}
+
+macro_rules! impl_literal {
+    ($($int:ty),*) => {
+        $(
+            impl<const VALUE: Int> Literal<VALUE> for $int {
+                const INNER: Self = {
+                    assert!(VALUE as $int as Int == VALUE, "the literal is out of range");
+                    VALUE as $int
+                };
+            }
+        )*
+    };
+}
+
+impl_literal!(i8, i16, i32, i64, i128);
+
 /// Defines an operation for some wrapper. See top-level documentation.
 #[macro_export]
 macro_rules! impl_op {
@@ -181,7 +202,7 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        FixedPoint::from_bits(Literal::<VALUE_INNER>::INNER)
     }};
 }
 
-- 
2.43.0


From da02f28b7f0ed4d3ed842405112588e1781f1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 13/18] fix: a literal equal to MIN of the widest type fails to
 compile

---
 src/const_fn.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 1658ef8..40c0749 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -83,12 +83,12 @@ const fn parse_digit(byte: u8) -> Int {
     digit as _
 }
 
-const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
+const fn parse_int(bytes: &[u8], start: usize, end: usize, signum: Int) -> Int {
     let mut result: Int = 0;
     let mut i = start;
 
     while i < end {
-        result = add(mul(result, 10), parse_digit(bytes[i]));
+        result = add(mul(result, 10), signum * parse_digit(bytes[i]));
         i += 1;
     }
 
@@ -108,20 +108,20 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let point = match find(bytes, b'.') {
         Some(point) => point,
         None => {
-            let integral = parse_int(bytes, start, bytes.len());
-            return mul(signum * integral, coef);
+            let integral = parse_int(bytes, start, bytes.len(), signum);
+            return mul(integral, coef);
         }
     };
 
-    let integral = parse_int(bytes, start, point);
+    let integral = parse_int(bytes, start, point, signum);
     let exp = pow10((bytes.len() - point - 1) as i32);
     const_assert!(exp <= coef);
 
-    let fractional = parse_int(bytes, point + 1, bytes.len());
+    let fractional = parse_int(bytes, point + 1, bytes.len(), signum);
     let final_integral = mul(integral, coef);
     let final_fractional = coef / exp * fractional;
 
-    signum * add(final_integral, final_fractional)
+    add(final_integral, final_fractional)
 }
 
 #[test]
-- 
2.43.0


From 59a957848807d6e4b0243532f40f2620d7225c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 14/18] fix: schemars support fails to build without std

---
 src/schemars.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schemars.rs b/src/schemars.rs
index 3944389..397b0ea 100644
--- a/src/schemars.rs
+++ b/src/schemars.rs
@@ -1,3 +1,7 @@
+extern crate alloc;
+
+use alloc::{borrow::ToOwned, string::String};
+
 use schemars::{
     gen::SchemaGenerator,
     schema::{InstanceType, Schema, SchemaObject},
-- 
2.43.0


From 967cf5ecd05ddcf9114bf2de46738d39e4a896f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 15/18] fix: a precision that is too high for the layout
 silently gets a wrong coefficient

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5be113e..ddae712 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,7 +245,14 @@ macro_rules! impl_fixed_point {
             /// The difference between `0.0` and the next larger representable number.
             pub const EPSILON: Self = Self::from_bits(1);
 
-            const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
+            const COEF: $layout = {
+                let coef = const_fn::pow10(Self::PRECISION);
+                assert!(
+                    coef as $layout as const_fn::Int == coef,
+                    "the precision is too high for the layout"
+                );
+                coef as $layout
+            };
             const NEG_COEF: $layout = -Self::COEF;
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
-- 
2.43.0


From 87088de70500d1786bf48c71417a2cc9087146d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 16/18] fix: a negative literal written in the body of a macro
 does not compile

---
 src/const_fn.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 40c0749..046a5c0 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -100,7 +100,12 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let signum = if bytes[0] == b'-' { -1 } else { 1 };
 
     let start = if bytes[0] == b'-' || bytes[0] == b'+' {
-        1
+        // `stringify!` separates the sign of a literal that is written in the body of a macro.
+        if bytes.len() > 1 && bytes[1] == b' ' {
+            2
+        } else {
+            1
+        }
     } else {
         0
     };
-- 
2.43.0


From c04b49406047b4f6bbc88e1a40303114eeb149fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:30 +0000
Subject: [PATCH 17/18] fix: impl_op! does not compile if the program defines
 some of the names in its expansion

The expansion referred to Result, FnOnce, core and, by a glob import, to
everything in _priv by plain names, and called trait methods by method
syntax. A wrapper named Zero or One, an alias Result<T>, or a trait with a
blanket cadd() thus broke it. Use absolute paths instead.
---
 src/lib.rs    |  2 +-
 src/macros.rs | 60 +++++++++++++++++++++++++++------------------------
 2 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ddae712..25c91b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -172,7 +172,7 @@ mod schemars;
 #[doc(hidden)]
 pub mod _priv {
     pub use crate::const_fn::*;
-    pub use crate::macros::{Literal, Operand};
+    pub use crate::macros::{promote_to, Literal, Operand};
     pub use crate::ops::*;
 }
 
diff --git a/src/macros.rs b/src/macros.rs
index ad9ea4b..41ea005 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -7,6 +7,13 @@ pub trait Operand<R> {
     fn promote(self) -> Self::Promotion;
 }
 
+/// Promotes `operand` to what is wrapped by the constructor of a wrapper, or to its integer.
+#[doc(hidden)] // available only in `_priv` for macros.
+#[inline]
+pub fn promote_to<I, O: Operand<I>, R>(operand: O, _: impl FnOnce(I) -> R) -> O::Promotion {
+    operand.promote()
+}
+
 // TODO: restrict `I` and `P`.
 impl<I, P> Operand<FixedPoint<I, P>> for FixedPoint<I, P> {
     type Promotion = FixedPoint<I, P>;
@@ -78,13 +85,15 @@ macro_rules! impl_op {
             type Error = $crate::ArithmeticError;
 
             #[inline]
-            fn cadd(self, rhs: $rhs) -> Result<$res, $crate::ArithmeticError> {
-                $crate::impl_op!(@checked_method (l = self, r = rhs) => l.cadd(r), $res)
+            fn cadd(self, rhs: $rhs) -> ::core::result::Result<$res, $crate::ArithmeticError> {
+                $crate::impl_op!(@checked_method (l = self, r = rhs) =>
+                    $crate::ops::CheckedAdd::cadd(l, r), $res)
             }
 
             #[inline]
             fn saturating_add(self, rhs: $rhs) -> Self::Output {
-                $crate::impl_op!(@method (l = self, r = rhs) => l.saturating_add(r), $res)
+                $crate::impl_op!(@method (l = self, r = rhs) =>
+                    $crate::ops::CheckedAdd::saturating_add(l, r), $res)
             }
         }
     };
@@ -94,13 +103,15 @@ macro_rules! impl_op {
             type Error = $crate::ArithmeticError;
 
             #[inline]
-            fn csub(self, rhs: $rhs) -> Result<$res, $crate::ArithmeticError> {
-                $crate::impl_op!(@checked_method (l = self, r = rhs) => l.csub(r), $res)
+            fn csub(self, rhs: $rhs) -> ::core::result::Result<$res, $crate::ArithmeticError> {
+                $crate::impl_op!(@checked_method (l = self, r = rhs) =>
+                    $crate::ops::CheckedSub::csub(l, r), $res)
             }
 
             #[inline]
             fn saturating_sub(self, rhs: $rhs) -> Self::Output {
-                $crate::impl_op!(@method (l = self, r = rhs) => l.saturating_sub(r), $res)
+                $crate::impl_op!(@method (l = self, r = rhs) =>
+                    $crate::ops::CheckedSub::saturating_sub(l, r), $res)
             }
         }
     };
@@ -110,8 +121,9 @@ macro_rules! impl_op {
             type Error = $crate::ArithmeticError;
 
             #[inline]
-            fn cmul(self, rhs: $rhs) -> Result<$res, $crate::ArithmeticError> {
-                $crate::impl_op!(@checked_method (l = self, r = rhs) => l.cmul(r), $res)
+            fn cmul(self, rhs: $rhs) -> ::core::result::Result<$res, $crate::ArithmeticError> {
+                $crate::impl_op!(@checked_method (l = self, r = rhs) =>
+                    $crate::ops::CheckedMul::cmul(l, r), $res)
             }
         }
     };
@@ -125,8 +137,9 @@ macro_rules! impl_op {
                 self,
                 rhs: $rhs,
                 mode: $crate::ops::RoundMode,
-            ) -> Result<$res, $crate::ArithmeticError> {
-                $crate::impl_op!(@checked_method (l = self, r = rhs) => l.rmul(r, mode), $res)
+            ) -> ::core::result::Result<$res, $crate::ArithmeticError> {
+                $crate::impl_op!(@checked_method (l = self, r = rhs) =>
+                    $crate::ops::RoundingMul::rmul(l, r, mode), $res)
             }
         }
     };
@@ -140,32 +153,23 @@ macro_rules! impl_op {
                 self,
                 rhs: $rhs,
                 mode: $crate::ops::RoundMode,
-            ) -> Result<$res, $crate::ArithmeticError> {
-                use core::convert::TryInto;
+            ) -> ::core::result::Result<$res, $crate::ArithmeticError> {
                 $crate::impl_op!(@checked_method (l = self, r = rhs) => {
-                    $res(
-                        l.try_into().map_err(|_| $crate::ArithmeticError::Overflow)?
-                    ).0.rdiv(r, mode)
+                    let l = ::core::convert::TryInto::try_into(l)
+                        .map_err(|_| $crate::ArithmeticError::Overflow)?;
+                    $crate::ops::RoundingDiv::rdiv($res(l).0, r, mode)
                 }, $res)
             }
         }
     };
     (@method ($l:ident = $lhs:expr, $r:ident = $rhs:expr) => $op:expr, $res:tt) => {{
-        use $crate::_priv::*;
-        fn up<I, O: Operand<I>>(operand: O, _: impl FnOnce(I) -> $res) -> O::Promotion {
-            operand.promote()
-        }
-        let $l = up($lhs.0, $res);
-        let $r = up($rhs.0, $res);
-        $res::from($op)
+        let $l = $crate::_priv::promote_to($lhs.0, $res);
+        let $r = $crate::_priv::promote_to($rhs.0, $res);
+        <$res as ::core::convert::From<_>>::from($op)
     }};
     (@checked_method ($l:ident = $lhs:expr, $r:ident = $rhs:expr) => $op:expr, $res:tt) => {{
-        use $crate::_priv::*;
-        fn up<I, O: Operand<I>>(operand: O, _: impl FnOnce(I) -> $res) -> O::Promotion {
-            operand.promote()
-        }
-        let $l = up($lhs.0, $res);
-        let $r = up($rhs.0, $res);
+        let $l = $crate::_priv::promote_to($lhs.0, $res);
+        let $r = $crate::_priv::promote_to($rhs.0, $res);
         $op.map($res)
     }};
 }
-- 
2.43.0


From d837ac173417039238ceb29c7cbf71003c43a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 18/18] fix: fixnum! and fixnum_const! do not compile if the
 program defines some of the names in their expansion

stringify and VALUE_INNER were resolved to the program's own macro or type,
and into() to any method in scope.
---
 src/macros.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 41ea005..b9a4c81 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -203,10 +203,11 @@ macro_rules! impl_op {
 #[macro_export]
 macro_rules! fixnum_const {
     ($value:literal, $precision:literal) => {{
-        use $crate::FixedPoint;
-        use $crate::_priv::*;
-        const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(Literal::<VALUE_INNER>::INNER)
+        const VALUE_INNER: $crate::_priv::Int = $crate::_priv::parse_fixed(
+            ::core::stringify!($value),
+            $crate::_priv::pow10($precision),
+        );
+        $crate::FixedPoint::from_bits($crate::_priv::Literal::<{ VALUE_INNER }>::INNER)
     }};
 }
 
@@ -251,6 +252,6 @@ macro_rules! fixnum_const {
 #[macro_export]
 macro_rules! fixnum {
     ($value:literal, $precision:literal) => {
-        $crate::fixnum_const!($value, $precision).into()
+        ::core::convert::Into::into($crate::fixnum_const!($value, $precision))
     };
 }
-- 
2.43.0

