From 41922c87460f19653605a981505058f4e1c1f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 01/12] fix: convert the minimum of each signed integer type to
 Number without overflow

`-num` overflows for MIN: a panic in debug builds, and a wrong (sign extended)
mantissa for i8, i16 and i32 in release builds.
---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..670221b 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -440,7 +440,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From dd3110ddde26d4db881938f1d4986944d24adc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 02/12] fix: reject NaN and out of range mantissas when
 converting to signed integers

A mantissa above i64::MAX wrapped around, so 18446744073709551615 converted
to -1, and NaN converted to 0.
---
 src/number.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 670221b..b465364 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -458,14 +458,16 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if num.is_nan() || exponent != 0 {
                     return Err(NumberOutOfScope);
                 }
 
                 let mantissa = if positive {
-                    mantissa as i64
+                    i64::try_from(mantissa)?
+                } else if mantissa <= i64::min_value() as u64 {
+                    (mantissa as i64).wrapping_neg()
                 } else {
-                    -(mantissa as i64)
+                    return Err(NumberOutOfScope);
                 };
 
                 TryFrom::try_from(mantissa).map_err(Into::into)
-- 
2.43.0


From 56f185366a41e8b6e33c0769a28819cddaa016c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 03/12] fix: compare and scale numbers whose exponents are 20
 or more apart

decimal_power was wrong from 10^20 up (10^20 came out as 1, so 1e20 == 1),
the products compared by eq wrapped around, the differences of exponents
overflowed i16, and as_fixed_point_i64 wrapped before scaling down.
---
 src/number.rs | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index b465364..538a8ae 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -147,15 +147,7 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
-        } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+        Some(self.scaled_mantissa(point))
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,22 +166,30 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
-        } else {
-            -(self.mantissa as i64)
-        };
+        let num = self.scaled_mantissa(point) as i64;
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
+        Some(if self.is_sign_positive() {
             num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
+            num.wrapping_neg()
         })
     }
+
+    // Absolute value of the number multiplied by 10 to the power of `point`,
+    // truncated to an integer, wrapping on overflow.
+    #[inline]
+    fn scaled_mantissa(&self, point: u16) -> u64 {
+        let e_diff = point as i32 + self.exponent as i32;
+
+        if e_diff >= 0 {
+            self.mantissa.wrapping_mul(decimal_power(e_diff as u32))
+        } else if e_diff > -20 {
+            self.mantissa / decimal_power(-e_diff as u32)
+        } else {
+            // Any mantissa is smaller than 10^20
+            0
+        }
+    }
 }
 
 impl PartialEq for Number {
@@ -204,18 +204,21 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
         if e_diff == 0 {
             return self.mantissa == other.mantissa;
+        } else if e_diff >= 20 || e_diff <= -20 {
+            // Neither mantissa is zero, and both are smaller than 10^20
+            false
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
+            let power = decimal_power(e_diff as u32);
 
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            self.mantissa.checked_mul(power) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
+            let power = decimal_power(-e_diff as u32);
 
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            other.mantissa.checked_mul(power) == Some(self.mantissa)
         }
 
     }
@@ -543,8 +546,9 @@ impl ops::Neg for Number {
 //     }
 // }
 
+// 10 to the power of `e`, wrapping on overflow (that is for `e >= 20`).
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn decimal_power(e: u32) -> u64 {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -571,12 +575,6 @@ fn decimal_power(mut e: u16) -> u64 {
     if e < 20 {
         CACHED[e as usize]
     } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
+        10u64.wrapping_pow(e)
     }
 }
-- 
2.43.0


From c9f781b13ea6f77366400288196d31f25705ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 04/12] fix: convert zero with a large exponent to a zero float
 instead of NaN

0e400 became 0.0 * infinity.
---
 src/number.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/number.rs b/src/number.rs
index 538a8ae..9c1bb0a 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -294,6 +294,7 @@ fn exponentiate_f32(n: f32, e: i16) -> f32 {
 impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
+        if num.is_zero() { return if num.is_sign_positive() { 0.0 } else { -0.0 }; }
 
         let mut n = num.mantissa as f64;
         let mut e = num.exponent;
@@ -311,6 +312,7 @@ impl From<Number> for f64 {
 impl From<Number> for f32 {
     fn from(num: Number) -> f32 {
         if num.is_nan() { return f32::NAN; }
+        if num.is_zero() { return if num.is_sign_positive() { 0.0 } else { -0.0 }; }
 
         let mut n = num.mantissa as f32;
         let mut e = num.exponent;
-- 
2.43.0


From 4379671aba35f01324abe184b8a9bc0a17c291ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 05/12] fix: convert small numbers to f32 without flushing them
 to zero

10^39 already is infinite as an f32, so every number with an exponent from
-127 to -39 was divided by infinity. 38 is to f32 what 308 is to f64.
---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 9c1bb0a..e780680 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -317,9 +317,9 @@ impl From<Number> for f32 {
         let mut n = num.mantissa as f32;
         let mut e = num.exponent;
 
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
+        if e < -38 {
+            n = exponentiate_f32(n, e + 38);
+            e = -38;
         }
 
         let f = exponentiate_f32(n, e);
-- 
2.43.0


From d4a1e3bdc4111feddaaa4598a09a8cc8b595c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 06/12] fix: do not overflow the exponent on very long
 fractions

A fraction starting with more than 32768 zeroes panicked in debug builds and
turned into a huge number in release builds. Report it the same way as too
many integer digits already are.
---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..ebccf16 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -307,14 +307,14 @@ macro_rules! expect_fraction {
             b'0' ..= b'9' => {
                 if $num < MAX_PRECISION {
                     $num = $num * 10 + (ch - b'0') as u64;
-                    $e -= 1;
+                    $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;
                 } else {
                     match $num.checked_mul(10).and_then(|num| {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => {
                             $num = result;
-                            $e -= 1;
+                            $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;
                         },
                         None => {}
                     }
@@ -335,14 +335,14 @@ macro_rules! expect_fraction {
                     $parser.bump();
                     if $num < MAX_PRECISION {
                         $num = $num * 10 + (ch - b'0') as u64;
-                        $e -= 1;
+                        $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;
                     } else {
                         match $num.checked_mul(10).and_then(|num| {
                             num.checked_add((ch - b'0') as u64)
                         }) {
                             Some(result) => {
                                 $num = result;
-                                $e -= 1;
+                                $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;
                             },
                             None => {}
                         }
-- 
2.43.0


From 194e770916a178465c11f9c870cd33462ae459dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 07/12] fix: report the right position of an unexpected
 character starting a line

It was reported one past the end of the previous line.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ebccf16..0a69b83 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -411,8 +411,10 @@ impl<'a> Parser<'a> {
                      .next()
                      .expect("Must have a character");
 
+        // Using `split` over `lines`, as the latter won't yield the (empty)
+        // last line if the unexpected character is the first one on it.
         let (lineno, col) = self.source[..at]
-                                .lines()
+                                .split('\n')
                                 .enumerate()
                                 .last()
                                 .unwrap_or((0, ""));
-- 
2.43.0


From 02e2a2e2359314950887dd738fdbc9113d2f01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 08/12] fix: do not overflow u16 when indenting pretty printed
 output

E.g. pretty(40000) of a twice nested array panicked in debug builds and wrapped
the indentation in release builds.
---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..fb3e4e7 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 58ada1829e1b53b88b14908afebbca1d4217b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 09/12] fix: clear short strings to an empty string, as
 documented

Strings of up to 30 bytes became null instead.
---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..6e09370 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -559,6 +559,7 @@ impl JsonValue {
     /// on a string will clear the string. Numbers and booleans become null.
     pub fn clear(&mut self) {
         match *self {
+            JsonValue::Short(_)               => *self = "".into(),
             JsonValue::String(ref mut string) => string.clear(),
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
-- 
2.43.0


From a4cfc0066234673bad4f7bdc56f6d841ef1f602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 10/12] fix: compare short strings with String by content

JsonValue::from("foo") == "foo".to_string() was false, as only values that
are not Short were compared.
---
 src/value/implements.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..d137c4a 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -143,7 +143,30 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        *self == *other.as_str()
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == *other.as_str()
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        *other == *self.as_str()
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0


From 9d5fcc1ddb577d98c0f98368b58172bce0d74c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 11/12] fix: keep exponents at the ends of the range when
 parsing

---
 src/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0a69b83..40df55b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -604,7 +604,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i32,
             _ => return self.unexpected_character(),
         };
 
@@ -616,13 +616,18 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i32);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        // The exponent may leave the `i16` range on its own and be brought
+        // back by `big_e`, as in `1.2e32768`, so only limit the sum.
+        let e = (e * sign).saturating_add(big_e as i32);
+        let e = e.max(i16::min_value() as i32).min(i16::max_value() as i32) as i16;
+
+        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
     }
 
     // Parse away!
-- 
2.43.0


From f692740221255d5af320e2f0bec8920868ff9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:38:15 +0000
Subject: [PATCH 12/12] fix: array! and object! evaluate each argument once

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..66e73cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        let size = 0 $( + {let _ = stringify!($i); 1} )*;
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +404,7 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        let size = 0 $( + {let _ = stringify!($k); 1} )*;
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0

