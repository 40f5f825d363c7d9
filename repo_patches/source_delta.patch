From 7b99f958faa6c44e0f3dd9ea5f4c7818dfce29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:06 +0000
Subject: [PATCH 01/16] fix: compute pretty-printed indentation without
 overflowing 16 bits

---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..fb3e4e7 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 46c208f2ec829d97fdff0d692ceaab52e1c05e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 02/16] fix: compare numbers by their exact decimal value

---
 src/number.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..fe44bd3 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -204,23 +204,24 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
         if e_diff == 0 {
-            return self.mantissa == other.mantissa;
+            self.mantissa == other.mantissa
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
-
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            scaled_mantissa(self.mantissa, e_diff as u32) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
-
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            Some(self.mantissa) == scaled_mantissa(other.mantissa, -e_diff as u32)
         }
-
     }
 }
 
+// Multiply the mantissa by a power of ten, `None` if it doesn't fit in 64 bits.
+#[inline]
+fn scaled_mantissa(mantissa: u64, e: u32) -> Option<u64> {
+    10u64.checked_pow(e).and_then(|power| mantissa.checked_mul(power))
+}
+
 impl fmt::Display for Number {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         unsafe {
-- 
2.43.0


From 1dfb477ceba2b60b8196d63e689ac5f5ea54430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 03/16] fix: do not overflow the exponent on very long decimal
 fractions

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..83e091b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -307,14 +307,14 @@ macro_rules! expect_fraction {
             b'0' ..= b'9' => {
                 if $num < MAX_PRECISION {
                     $num = $num * 10 + (ch - b'0') as u64;
-                    $e -= 1;
+                    $e = i16::saturating_sub($e, 1);
                 } else {
                     match $num.checked_mul(10).and_then(|num| {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => {
                             $num = result;
-                            $e -= 1;
+                            $e = i16::saturating_sub($e, 1);
                         },
                         None => {}
                     }
@@ -335,14 +335,14 @@ macro_rules! expect_fraction {
                     $parser.bump();
                     if $num < MAX_PRECISION {
                         $num = $num * 10 + (ch - b'0') as u64;
-                        $e -= 1;
+                        $e = i16::saturating_sub($e, 1);
                     } else {
                         match $num.checked_mul(10).and_then(|num| {
                             num.checked_add((ch - b'0') as u64)
                         }) {
                             Some(result) => {
                                 $num = result;
-                                $e -= 1;
+                                $e = i16::saturating_sub($e, 1);
                             },
                             None => {}
                         }
-- 
2.43.0


From 328aea9f6c39256fdf43f4568b0167871d9910c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 04/16] fix: read exponents that are in range only together
 with the fraction

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 83e091b..9ad0b72 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -602,7 +602,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i32,
             _ => return self.unexpected_character(),
         };
 
@@ -614,13 +614,17 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i32);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        // Only the sum has to fit, the written exponent alone can be out of range.
+        let e = (big_e as i32).saturating_add(e * sign);
+        let e = e.max(i16::min_value() as i32).min(i16::max_value() as i32);
+
+        Ok(unsafe { Number::from_parts_unchecked(true, num, e as i16) })
     }
 
     // Parse away!
-- 
2.43.0


From 6fb328cc9a600f424094a94c4ba35e64b94f84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 05/16] fix: convert the minimum of signed integer types
 without overflow

---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index fe44bd3..9ad822c 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -441,7 +441,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From 18a273752abba054762c4dae409b99b4d3fb2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 06/16] fix: refuse numbers that do not fit a signed integer

---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 9ad822c..c6956fc 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -459,14 +459,14 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if num.is_nan() || exponent != 0 {
                     return Err(NumberOutOfScope);
                 }
 
                 let mantissa = if positive {
-                    mantissa as i64
+                    mantissa as i128
                 } else {
-                    -(mantissa as i64)
+                    -(mantissa as i128)
                 };
 
                 TryFrom::try_from(mantissa).map_err(Into::into)
-- 
2.43.0


From 06755d7e5563106414c8b24179bf026585ec4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 07/16] fix: clear short strings to an empty string as
 documented

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..94568a9 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -560,6 +560,7 @@ impl JsonValue {
     pub fn clear(&mut self) {
         match *self {
             JsonValue::String(ref mut string) => string.clear(),
+            JsonValue::Short(ref mut short)   => *short = unsafe { Short::from_slice("") },
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
             _                                 => *self = JsonValue::Null,
-- 
2.43.0


From 14c66189f78fd2f26762d2305fafe417213b0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 08/16] fix: compare short strings with String by their text

---
 src/value/implements.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..8e45a6b 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -143,7 +143,31 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+// Strings can be stored either as `Short` or as `String`, compare the text.
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        *self == *other.as_str()
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == *other.as_str()
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        *other == *self.as_str()
+    }
+}
+
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0


From 71ef76f1e3372e80f1b9c97a52203b5d9fe8b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 09/16] fix: report an unexpected first character of a line on
 its own line

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9ad0b72..7265e1d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -412,7 +412,7 @@ impl<'a> Parser<'a> {
                      .expect("Must have a character");
 
         let (lineno, col) = self.source[..at]
-                                .lines()
+                                .split('\n')
                                 .enumerate()
                                 .last()
                                 .unwrap_or((0, ""));
-- 
2.43.0


From 8e76e05c359358a937c3ebb5412b1ccb1633b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 10/16] fix: give the object iterators the exact size hint that
 ExactSizeIterator requires

---
 src/object.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 7ff2165..b312bca 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -593,6 +593,13 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &node.value))
     }
+
+    // Must be exact: `ExactSizeIterator` is implemented below, and adapters
+    // such as `take` or `zip` base their own `len` on this.
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
@@ -628,6 +635,13 @@ impl<'a> Iterator for IterMut<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &mut node.value))
     }
+
+    // Must be exact: `ExactSizeIterator` is implemented below, and adapters
+    // such as `take` or `zip` base their own `len` on this.
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for IterMut<'a> {
-- 
2.43.0


From 10774d49c732abbef578b51b3b730255a7eaabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 11/16] fix: evaluate the expressions of array! and object!
 once

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..66e73cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        let size = 0 $( + {let _ = stringify!($i); 1} )*;
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +404,7 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        let size = 0 $( + {let _ = stringify!($k); 1} )*;
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0


From 2f972bddef1b139546828f19a40c39f145602025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:03 +0000
Subject: [PATCH 12/16] fix: scale fixed-point reads by the right power of ten
 at any exponent

---
 src/number.rs | 72 ++++++++++-----------------------------------------
 1 file changed, 13 insertions(+), 59 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index c6956fc..4d40a14 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -147,15 +147,7 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
-        } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+        Some(self.fixed_point_mantissa(point))
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,21 +166,21 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
-        } else {
-            -(self.mantissa as i64)
-        };
+        let num = self.fixed_point_mantissa(point) as i64;
+
+        Some(if self.is_sign_positive() { num } else { num.wrapping_neg() })
+    }
 
-        let e_diff = point as i16 + self.exponent;
+    // The mantissa shifted to `point` decimal digits, truncated towards zero.
+    // Values that don't fit in 64 bits wrap around.
+    fn fixed_point_mantissa(&self, point: u16) -> u64 {
+        let e_diff = point as i32 + self.exponent as i32;
 
-        Some(if e_diff == 0 {
-            num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
+        if e_diff < 0 {
+            10u64.checked_pow(-e_diff as u32).map_or(0, |power| self.mantissa / power)
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
-        })
+            self.mantissa.wrapping_mul(10u64.wrapping_pow(e_diff as u32))
+        }
     }
 }
 
@@ -541,41 +533,3 @@ impl ops::Neg for Number {
 //         *self = *self * other;
 //     }
 // }
-
-#[inline]
-fn decimal_power(mut e: u16) -> u64 {
-    static CACHED: [u64; 20] = [
-        1,
-        10,
-        100,
-        1000,
-        10000,
-        100000,
-        1000000,
-        10000000,
-        100000000,
-        1000000000,
-        10000000000,
-        100000000000,
-        1000000000000,
-        10000000000000,
-        100000000000000,
-        1000000000000000,
-        10000000000000000,
-        100000000000000000,
-        1000000000000000000,
-        10000000000000000000,
-    ];
-
-    if e < 20 {
-        CACHED[e as usize]
-    } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
-    }
-}
-- 
2.43.0


From 571b1d51be2685b6e2689f3e6b9c508aa47f2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:31 +0000
Subject: [PATCH 13/16] fix: read zero and very small numbers as the floats
 they are

---
 src/number.rs | 41 ++---------------------------------------
 1 file changed, 2 insertions(+), 39 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 4d40a14..aa8358a 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -254,36 +254,10 @@ fn exponentiate_f64(n: f64, e: i16) -> f64 {
     }
 }
 
-
-fn exponentiate_f32(n: f32, e: i16) -> f32 {
-    static CACHE_POWERS: [f32; 23] = [
-          1.0,    1e1,    1e2,    1e3,    1e4,    1e5,    1e6,    1e7,
-          1e8,    1e9,   1e10,   1e11,   1e12,   1e13,   1e14,   1e15,
-         1e16,   1e17,   1e18,   1e19,   1e20,   1e21,   1e22
-    ];
-
-    if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
-    } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
-    }
-}
-
 impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
+        if num.is_zero() { return if num.is_sign_positive() { 0.0 } else { -0.0 }; }
 
         let mut n = num.mantissa as f64;
         let mut e = num.exponent;
@@ -300,18 +274,7 @@ impl From<Number> for f64 {
 
 impl From<Number> for f32 {
     fn from(num: Number) -> f32 {
-        if num.is_nan() { return f32::NAN; }
-
-        let mut n = num.mantissa as f32;
-        let mut e = num.exponent;
-
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
-        }
-
-        let f = exponentiate_f32(n, e);
-        if num.is_sign_positive() { f } else { -f }
+        f64::from(num) as f32
     }
 }
 
-- 
2.43.0


From 81d6260f1caa80938a67adb8024c95ea18cad0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:51 +0000
Subject: [PATCH 14/16] fix: allocate long object keys before the entry is
 placed

An allocation error handler may unwind. The entry was already in the
store by then, with a null pointer for its key, and dropping it released
the null pointer.
---
 src/object.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index b312bca..059f197 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -91,10 +91,10 @@ impl Key {
         }
     }
 
-    // The `buf` on the `Key` can only be filled after the struct
-    // is already on the `Vec`'s heap (along with the `Node`).
-    // For that reason it's not set in `Key::new` but only after
-    // the `Node` is created and allocated.
+    // Copies the key into the `buf`, or onto the heap if it's too long.
+    // The latter allocates and can unwind, so this has to happen before
+    // the `Node` is placed in a store. Once it is there, `ptr` of a short
+    // key requires a `fix_ptr` call.
     #[inline]
     fn attach(&mut self, key: &[u8]) {
         if self.len <= KEY_BUF_LEN {
@@ -134,7 +134,8 @@ unsafe impl Send for Key {}
 impl Drop for Key {
     fn drop(&mut self) {
         unsafe {
-            if self.len > KEY_BUF_LEN {
+            // The pointer remains null if allocating the key has failed.
+            if self.len > KEY_BUF_LEN && !self.ptr.is_null() {
                 // Construct a `Vec` out of the `key_ptr`. Since the key is
                 // always allocated from a slice, the capacity is equal to length.
                 let heap = Vec::from_raw_parts(
@@ -257,13 +258,15 @@ impl Object {
     fn add_node(&mut self, key: &[u8], value: JsonValue, hash: u64) -> usize {
         let index = self.store.len();
 
+        let mut node = Node::new(value, hash, key.len());
+        node.key.attach(key);
+
         if index < self.store.capacity() {
             // Because we've just checked the capacity, we can avoid
             // using `push`, and instead do unsafe magic to memcpy
             // the new node at the correct index without additional
             // capacity or bound checks.
             unsafe {
-                let node = Node::new(value, hash, key.len());
                 self.store.set_len(index + 1);
 
                 // To whomever gets concerned: I got better results with
@@ -279,15 +282,11 @@ impl Object {
                 mem::forget(node);
             }
 
-            unsafe { self.store.get_unchecked_mut(index).key.attach(key) };
+            unsafe { self.store.get_unchecked_mut(index).key.fix_ptr() };
         } else {
-            self.store.push(Node::new(value, hash, key.len()));
-
-            unsafe { self.store.get_unchecked_mut(index).key.attach(key) };
+            self.store.push(node);
 
-            // Index up to the index (old length), we don't need to fix
-            // anything on the Node that just got pushed.
-            for node in self.store.iter_mut().take(index) {
+            for node in self.store.iter_mut() {
                 node.key.fix_ptr();
             }
         }
@@ -309,9 +308,7 @@ impl Object {
         let hash = hash_key(key);
 
         if self.store.len() == 0 {
-            self.store.push(Node::new(value, hash, key.len()));
-            self.store[0].key.attach(key);
-            return 0;
+            return self.add_node(key, value, hash);
         }
 
         let mut node = unsafe { &mut *self.node_at_index_mut(0) };
-- 
2.43.0


From 7678b2367dd5df845b9b21b2a5652220ea36cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:51 +0000
Subject: [PATCH 15/16] fix: keep all values when removing a key fails to
 allocate

The values were moved into the new tree while it was still allocating
keys; unwinding from there left nulls behind.
---
 src/object.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 059f197..e9f3fac 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -457,17 +457,27 @@ impl Object {
         // in JSON shouldn't happen very often if at all. Optimizing this
         // can wait for better times.
         let mut new_object = Object::with_capacity(self.store.len() - 1);
+
+        // Inserting allocates and can unwind, values must not leave
+        // their nodes until all the keys are in place.
+        for (i, node) in self.store.iter().enumerate() {
+            if i != index {
+                new_object.insert(node.key.as_str(), JsonValue::Null);
+            }
+        }
+
         let mut removed = None;
+        let mut new_nodes = new_object.store.iter_mut();
 
         for (i, node) in self.store.iter_mut().enumerate() {
-            if i == index {
-                // Rust doesn't like us moving things from `node`, even if
-                // it is owned. Replace fixes that.
-                removed = Some(mem::replace(&mut node.value, JsonValue::Null));
-            } else {
-                let value = mem::replace(&mut node.value, JsonValue::Null);
+            // Rust doesn't like us moving things from `node`, even if
+            // it is owned. Replace fixes that.
+            let value = mem::replace(&mut node.value, JsonValue::Null);
 
-                new_object.insert(node.key.as_str(), value);
+            if i == index {
+                removed = Some(value);
+            } else if let Some(new_node) = new_nodes.next() {
+                new_node.value = value;
             }
         }
 
-- 
2.43.0


From 7f661a29e9bd7ceb9c31fb552e38caad71c2bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:16 +0000
Subject: [PATCH 16/16] fix: keep a short string until take_string has
 allocated it

The value had been replaced by null by then; unwinding from a failed
allocation lost the string.
---
 src/value/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 94568a9..db3e50f 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -365,12 +365,19 @@ impl JsonValue {
     /// # }
     /// ```
     pub fn take_string(&mut self) -> Option<String> {
+        // A short string has to be allocated, which can unwind,
+        // so it stays in place until that is done.
+        if let JsonValue::Short(short) = *self {
+            let string = short.into();
+            *self = JsonValue::Null;
+            return Some(string);
+        }
+
         let mut placeholder = JsonValue::Null;
 
         mem::swap(self, &mut placeholder);
 
         match placeholder {
-            JsonValue::Short(short)   => return Some(short.into()),
             JsonValue::String(string) => return Some(string),
 
             // Not a string? Swap the original value back in place!
-- 
2.43.0

