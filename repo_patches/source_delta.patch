From 238ba2107fcf8679b78e017aaf6f579626915638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 01/43] fix: js_bigint::div_mod must not fail or loop when a
 quotient digit is overestimated

---
 nanvm-lib/src/js/js_bigint.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..5de7d81 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -249,8 +249,18 @@ pub fn div_mod<M: Manager>(
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
                 let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
+                if cmp_vec(&a, &m) == Ordering::Less {
+                    // The digit is too large: divide by `b_high + 1`, which never overestimates.
+                    let b_next = b_high as u128 + 1;
+                    let (q_index, q_digit) = match a_high as u128 / b_next {
+                        0 => {
+                            let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
+                            (a_high_digit - b_high_digit - 1, (a_high_2 / b_next) as u64)
+                        }
+                        q_digit => (a_high_digit - b_high_digit, q_digit as u64),
+                    };
+                    q = new_resize(q_index + 1);
+                    q[q_index] = q_digit;
                     m = mul_vec(b, &q);
                 }
                 a = sub_vec(&a, &m);
-- 
2.43.0


From 1263e06952be7b68ebb5cc6b7d85609a11501f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 02/43] fix: BigUint::div_mod must not fail or loop when a
 quotient digit is overestimated

---
 nanvm-lib/src/big_numbers/big_uint.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..b67e62e 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -137,7 +137,20 @@ impl BigUint {
                     q.value[q_index] = q_digit;
                     let mut m = b * &q;
                     if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
+                        // The digit is too large: divide by `b_high + 1`, which never overestimates.
+                        let b_next = b_high as u128 + 1;
+                        let (q_index, q_digit) = match a_high as u128 / b_next {
+                            0 => {
+                                let a_high_2 =
+                                    ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
+                                (a_high_digit - b_high_digit - 1, (a_high_2 / b_next) as u64)
+                            }
+                            q_digit => (a_high_digit - b_high_digit, q_digit as u64),
+                        };
+                        q = BigUint {
+                            value: new_resize(q_index + 1),
+                        };
+                        q.value[q_index] = q_digit;
                         m = b * &q;
                     }
                     a = &a - &m;
-- 
2.43.0


From e260c0ae4ad2f7570b8f229649b94d55dc24ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 03/43] fix: order negative bigints by descending magnitude

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 5de7d81..ceeff9d 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From 308d63b9908dd4d91a312bee9340828dcf308e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 04/43] fix: an odd power of -1n is -1n

---
 nanvm-lib/src/js/js_bigint.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index ceeff9d..d38187b 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -280,7 +280,11 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let sign = match rhs.get_last_bit() {
+            0 => Sign::Positive,
+            _ => lhs.sign(),
+        };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
-- 
2.43.0


From 0d984d4dfd04570178ddc92bfd6d6472698cfe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 05/43] fix: bitwise bigint operations keep high limbs of
 negative values

---
 nanvm-lib/src/js/js_bigint.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index d38187b..4ff015b 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -417,18 +417,10 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
-            let mut res: Vec<u64> = default();
-            for d in sub {
-                res.push(!d);
-            }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
-            new_bigint(m, Sign::Negative, res)
+            let not: Vec<_> = value.vec.into_iter().map(|d| !d).collect();
+            new_bigint(m, Sign::Negative, normalize_vec(add_vec(&not, &[1])))
         }
     }
 }
@@ -442,7 +434,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -455,7 +446,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -468,7 +458,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From 100b2682e87a3725183cc40e7b5530e2bcecd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 06/43] fix: bigint right shift carries all bits between limbs

---
 nanvm-lib/src/js/js_bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 4ff015b..3bbe17e 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -589,7 +589,7 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
+        let mask = (1 << shift_mod) - 1;
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
-- 
2.43.0


From 3205dd81ea39e8f21093b0ba35f6bb62c9e40e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 07/43] fix: bigint right shift of a negative value rounds down

---
 nanvm-lib/src/js/js_bigint.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 3bbe17e..f54624c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -585,8 +585,12 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     let mut vec = lhs.items().to_vec();
-    vec = vec.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
+    // A negative value is rounded down: its magnitude is rounded up if a set bit is shifted out.
+    let round_up = lhs.sign() == Sign::Negative
+        && (vec[..number_to_remove].iter().any(|d| *d != 0)
+            || vec[number_to_remove] & ((1 << shift_mod) - 1) != 0);
+    vec = vec.split_off(number_to_remove);
     if shift_mod > 0 {
         let len = vec.len();
         let mask = (1 << shift_mod) - 1;
@@ -601,10 +605,10 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
         }
     }
 
-    vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    if round_up {
+        vec = add_vec(&vec, &[1]);
     }
+    vec = normalize_vec(vec);
     new_bigint(m, lhs.sign(), vec)
 }
 
-- 
2.43.0


From 9b2214793555d47618dee1ec23afafd9851710a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 08/43] fix: shl_on_u64 and pow_u64 accept zero

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index f54624c..05e7c68 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -181,6 +181,9 @@ pub fn mul<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
 }
 
 fn mul_vec(lhs: &[u64], rhs: &[u64]) -> Vec<u64> {
+    if lhs.is_empty() || rhs.is_empty() {
+        return default();
+    }
     let lhs_max = lhs.len() - 1;
     let rhs_max = rhs.len() - 1;
     let total_max = lhs_max + rhs_max + 1;
@@ -559,7 +562,7 @@ pub fn shl_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     if shift_mod > 0 {
         let len = vec.len();
         vec.push(0);
-        for i in (0..=len - 1).rev() {
+        for i in (0..len).rev() {
             let mut digit = vec[i] as u128;
             digit <<= shift_mod;
             vec[i + 1] |= (digit >> 64) as u64;
-- 
2.43.0


From 80ef0d4523ab16e2c789a44ee419157c0360098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 09/43] fix: BigUint right shift carries all bits between limbs

---
 nanvm-lib/src/big_numbers/big_uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index b67e62e..8c25b92 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -346,7 +346,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
-- 
2.43.0


From 2ed391b86033421e27f724d045df1031c5b285fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 10/43] fix: BigUint right shift by 2^64 or more gives zero

---
 nanvm-lib/src/big_numbers/big_uint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 8c25b92..f2a5c2b 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -336,6 +336,10 @@ impl Shr for &BigUint {
             return self.clone();
         }
 
+        if rhs.len() != 1 {
+            return BigUint::ZERO;
+        }
+
         let number_to_remove = (rhs.value[0] / 64) as usize;
         if number_to_remove >= self.len() {
             return BigUint::ZERO;
-- 
2.43.0


From cbcb1652952963f653b3f10b1dc9e02a41e75af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 11/43] fix: BigUint::from_u64(0) is the normalized zero

---
 nanvm-lib/src/big_numbers/big_uint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index f2a5c2b..f2e359f 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,7 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
-        BigUint { value: [n].cast() }
+        let mut result = BigUint { value: [n].cast() };
+        result.normalize();
+        result
     }
 
     pub fn pow(&self, exp: &BigUint) -> BigUint {
-- 
2.43.0


From cb7097cfd309204af1123027ea068ac45308859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 12/43] fix: BigInt constructors give normalized values for
 zero and i64::MIN

---
 nanvm-lib/src/big_numbers/big_int.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..941dbe3 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -43,13 +43,15 @@ impl BigInt {
     }
 
     pub fn new(sign: Sign, value: BigUint) -> BigInt {
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 
     pub fn from_u64(n: u64) -> Self {
         BigInt {
             sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
+            value: BigUint::from_u64(n),
         }
     }
 
@@ -71,9 +73,7 @@ impl BigInt {
         };
         BigInt {
             sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
+            value: BigUint::from_u64(n.unsigned_abs()),
         }
     }
 
-- 
2.43.0


From 3e771e6b849aa4b27fb8b697a243fb0ac234e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 13/43] fix: order negative BigInts by descending magnitude

---
 nanvm-lib/src/big_numbers/big_int.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 941dbe3..750afbc 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -164,7 +164,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
-- 
2.43.0


From 2407481a2f4acf3853c4547c0855c79c0e4a4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 14/43] fix: BigInt division has no negative zero and the
 dividend's remainder sign

---
 nanvm-lib/src/big_numbers/big_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 750afbc..7ef3802 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -88,7 +88,7 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        (BigInt::new(sign, q), BigInt::new(self.sign, r))
     }
 }
 
@@ -203,7 +203,7 @@ impl Div for &BigInt {
         };
 
         let value = &self.value / &d.value;
-        BigInt { sign, value }
+        BigInt::new(sign, value)
     }
 }
 
-- 
2.43.0


From be49e5310db6e8df035887ba61444c0d67d3de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 15/43] fix: drop the import that the normalizing BigInt
 constructors no longer use

---
 nanvm-lib/src/big_numbers/big_int.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 7ef3802..31088ff 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
-- 
2.43.0


From 656102b0a2a43724b6a1aca36682c451726ce21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 16/43] fix: round values just above half the smallest
 subnormal up to it

---
 nanvm-lib/src/big_numbers/big_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..b6c965f 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -210,7 +210,7 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From 6897758ee4576133d5ca755f6fe7b3c171eef62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 17/43] fix: keep sign and remainder of a zero BigFloat

---
 nanvm-lib/src/big_numbers/big_float.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index b6c965f..3ea6ccd 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,11 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                non_zero_reminder: self.non_zero_reminder,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
-- 
2.43.0


From 8f7b05f79ce2f0fb45e139833c17bbb80eb57a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 18/43] fix: BigFloat exponents near the i64 limits do not
 overflow

---
 nanvm-lib/src/big_numbers/big_float.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 3ea6ccd..6c0bf76 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -52,7 +52,7 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
                 _ => {}
             }
             self.significand = shl_on_u64(self.manager, self.significand.deref(), 1);
-            self.exp -= 1;
+            self.exp = self.exp.saturating_sub(1);
         }
     }
 
@@ -75,7 +75,7 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
                 self.non_zero_reminder = true;
             }
             self.significand = shr_on_u64(self.manager, self.significand.deref(), 1);
-            self.exp += 1;
+            self.exp = self.exp.saturating_add(1);
         }
     }
 }
@@ -197,7 +197,7 @@ impl<M: Manager> BigFloat<2, M> {
         value.increase_significand(PRECISION + 1);
         value.decrease_significand(PRECISION + 2);
 
-        let mut f64_exp = value.exp + PRECISION as i64 + 1;
+        let mut f64_exp = value.exp.saturating_add(PRECISION as i64 + 1);
         match f64_exp {
             -1022..=1023 => {
                 let mut frac = value.get_frac_round();
-- 
2.43.0


From 091d6ca68e4301d570aa21bfbe5fcae612195d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 19/43] fix: range maps of the first character and of the first
 one after the surrogates

---
 nanvm-lib/src/range_map.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..fcdb5b7 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -162,25 +162,28 @@ where
     res
 }
 
+fn previous(c: char) -> Option<char> {
+    ('\0'..c).next_back()
+}
+
 pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
-    RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
-                key: *range.end(),
-                value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
+    let mut list: Vec<_> = default();
+    if let Some(key) = previous(*range.start()) {
+        list.push(Entry {
+            key,
+            value: State { value: None },
+        });
     }
+    list.push(Entry {
+        key: *range.end(),
+        value: State { value: Some(value) },
+    });
+    RangeMap { list }
 }
 
 pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
     RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
+        list: match previous(c) {
             Some(p) => [
                 Entry {
                     key: p,
-- 
2.43.0


From d2bcae5e5843f0c1a22e964ebc00e9d26eb61785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 20/43] fix: the number -0 keeps its sign

---
 nanvm-lib/src/tokenizer/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..0b62264 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -158,7 +158,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_into_number_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -258,6 +258,13 @@ impl<D: Dealloc> IntState<D> {
     }
 }
 
+fn zero_into_number_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 fn int_state_into_number_token<M: Manager>(
     manager: M,
     state: IntState<M::Dealloc>,
@@ -694,10 +701,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_into_number_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From 406c0eb483e8b516b62b8b5f5f073ebf90599dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 21/43] fix: an exponent without digits is an invalid number

---
 nanvm-lib/src/tokenizer/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 0b62264..2ab6d45 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
-            }
+            TokenizerState::ParseExpSign(s) => get_next_state(manager, s, c, &maps.exp_sign, maps),
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -445,6 +444,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -468,6 +468,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -849,21 +850,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From e1da1fe0e5151e91f2f4a84c304f91803c204956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 22/43] fix: exponents of any size read as infinity or zero in
 no time

---
 nanvm-lib/src/tokenizer/mod.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 2ab6d45..1143341 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -207,6 +207,21 @@ impl ParseUnicodeCharState {
 }
 
 pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
+    // A number that is certainly out of the range of f64 is not scaled: it would take time and
+    // memory in proportion to the value of its exponent. A limb has from 19 to 20 decimal digits.
+    let limbs = bf_10.significand.items().len() as i64;
+    if limbs > 0 {
+        let sign = match bf_10.sign {
+            Sign::Positive => 1.0,
+            Sign::Negative => -1.0,
+        };
+        if bf_10.exp.saturating_add((limbs - 1) * 19) > 310 {
+            return sign * f64::INFINITY;
+        }
+        if bf_10.exp.saturating_add(limbs * 20) < -330 {
+            return sign * 0.0;
+        }
+    }
     let bf_2 = bf_10.to_bin(54);
     bf_2.to_f64()
 }
@@ -324,7 +339,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -333,11 +351,10 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From aabbc7dcd6ea47af55ed46f0ce01b76511775ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 23/43] fix: decode surrogate pairs escaped in strings

---
 nanvm-lib/src/tokenizer/mod.rs | 88 ++++++++++++++++++++++++++++++++--
 1 file changed, 85 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 1143341..74f1ac4 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -64,6 +64,8 @@ pub enum TokenizerState<D: Dealloc> {
     ParseString(String),
     ParseEscapeChar(String),
     ParseUnicodeChar(ParseUnicodeCharState),
+    ParseLowSurrogate(ParseLowSurrogateState),
+    ParseLowSurrogateEscape(ParseLowSurrogateState),
     ParseMinus,
     ParseZero(Sign),
     ParseInt(IntState<D>),
@@ -98,6 +100,12 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseUnicodeChar(s) => {
                 get_next_state(manager, s, c, &maps.unicode_char, maps)
             }
+            TokenizerState::ParseLowSurrogate(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate, maps)
+            }
+            TokenizerState::ParseLowSurrogateEscape(s) => {
+                get_next_state(manager, s, c, &maps.low_surrogate_escape, maps)
+            }
             TokenizerState::ParseZero(s) => get_next_state(manager, s, c, &maps.zero, maps),
             TokenizerState::ParseInt(s) => get_next_state(manager, s, c, &maps.int, maps),
             TokenizerState::ParseMinus => get_next_state(manager, (), c, &maps.minus, maps),
@@ -147,7 +155,9 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseId(s) => [JsonToken::Id(s)].cast(),
             TokenizerState::ParseString(_)
             | TokenizerState::ParseEscapeChar(_)
-            | TokenizerState::ParseUnicodeChar(_) => {
+            | TokenizerState::ParseUnicodeChar(_)
+            | TokenizerState::ParseLowSurrogate(_)
+            | TokenizerState::ParseLowSurrogateEscape(_) => {
                 [JsonToken::ErrorToken(ErrorType::MissingQuotes)].cast()
             }
             TokenizerState::ParseCommentStart => {
@@ -177,6 +187,23 @@ pub struct ParseUnicodeCharState {
     s: String,
     unicode: u32,
     index: u8,
+    // The high surrogate that the previous escape has left to be completed.
+    high: Option<u32>,
+}
+
+pub struct ParseLowSurrogateState {
+    s: String,
+    high: u32,
+}
+
+fn to_char(high: Option<u32>, unicode: u32) -> Option<char> {
+    match (high, unicode) {
+        (None, _) => char::from_u32(unicode),
+        (Some(high), 0xDC00..=0xDFFF) => {
+            char::from_u32(0x10000 + ((high - 0xD800) << 10) + (unicode - 0xDC00))
+        }
+        _ => None,
+    }
 }
 
 impl ParseUnicodeCharState {
@@ -187,8 +214,14 @@ impl ParseUnicodeCharState {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
             3 => {
-                let c = char::from_u32(new_unicode);
-                match c {
+                if self.high.is_none() && (0xD800..=0xDBFF).contains(&new_unicode) {
+                    let state = ParseLowSurrogateState {
+                        s: self.s,
+                        high: new_unicode,
+                    };
+                    return (default(), TokenizerState::ParseLowSurrogate(state));
+                }
+                match to_char(self.high, new_unicode) {
                     Some(c) => continue_string_state::<M>(self.s, c),
                     None => (
                         [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
@@ -455,6 +488,8 @@ pub struct TransitionMaps<M: Manager> {
     string: TransitionMap<String, M>,
     escape_char: TransitionMap<String, M>,
     unicode_char: TransitionMap<ParseUnicodeCharState, M>,
+    low_surrogate: TransitionMap<ParseLowSurrogateState, M>,
+    low_surrogate_escape: TransitionMap<ParseLowSurrogateState, M>,
     zero: TransitionMap<Sign, M>,
     int: TransitionMap<IntState<M::Dealloc>, M>,
     minus: TransitionMap<(), M>,
@@ -479,6 +514,8 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         string: create_string_transactions(),
         escape_char: create_escape_char_transactions(),
         unicode_char: create_unicode_char_transactions(),
+        low_surrogate: create_low_surrogate_transactions(),
+        low_surrogate_escape: create_low_surrogate_escape_transactions(),
         zero: create_zero_transactions(),
         int: create_int_transactions(),
         minus: create_minus_transactions(),
@@ -638,6 +675,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                             s,
                             unicode: 0,
                             index: 0,
+                            high: None,
                         }),
                     )
                 }),
@@ -680,6 +718,50 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
     }
 }
 
+fn tokenize_invalid_hex<M: Manager + 'static>(
+    manager: M,
+    c: char,
+    maps: &TransitionMaps<M>,
+) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
+    transfer_state(
+        manager,
+        [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+        TokenizerState::Initial,
+        c,
+        maps,
+    )
+}
+
+fn create_low_surrogate_transactions<M: Manager + 'static>(
+) -> TransitionMap<ParseLowSurrogateState, M> {
+    type Func<M> = TransitionFunc<M, ParseLowSurrogateState>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_hex(manager, c, maps)) as Func<M>,
+        rm: from_one('\\', |_, state, _, _| {
+            (default(), TokenizerState::ParseLowSurrogateEscape(state))
+        }),
+    }
+}
+
+fn create_low_surrogate_escape_transactions<M: Manager + 'static>(
+) -> TransitionMap<ParseLowSurrogateState, M> {
+    type Func<M> = TransitionFunc<M, ParseLowSurrogateState>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_hex(manager, c, maps)) as Func<M>,
+        rm: from_one('u', |_, state, _, _| {
+            (
+                default(),
+                TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
+                    s: state.s,
+                    unicode: 0,
+                    index: 0,
+                    high: Some(state.high),
+                }),
+            )
+        }),
+    }
+}
+
 fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
     type Func<M> = TransitionFunc<M, Sign>;
     TransitionMap {
-- 
2.43.0


From bb93727558880ee9b0be8af694bc80810b83fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 24/43] fix: free a bigint when its last Any reference is
 dropped

---
 nanvm-lib/src/js/any_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..65cb32b 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,7 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
-            _ => unreachable!(),
+            _ => p.block::<JsBigint, D>().delete(),
         }
     }
 }
-- 
2.43.0


From cbdab7b9b648781eba6352e87c010ae938d22963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 25/43] fix: keep a NaN of any bit pattern a number

---
 nanvm-lib/src/js/number.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..98f2f0c 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -9,7 +9,12 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
-        self.to_bits()
+        // negative NaNs occupy the space of other types.
+        if self.is_nan() {
+            Self::NAN.to_bits()
+        } else {
+            self.to_bits()
+        }
     }
     #[inline(always)]
     unsafe fn from_any_internal(u: u64) -> Self {
-- 
2.43.0


From 19bf2c315dc223a0db4e12d1a38afc2a586f5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 26/43] fix: serialize bigints and infinities

---
 nanvm-lib/src/serializer/to_json.rs | 54 +++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..0fb1ade 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -1,6 +1,7 @@
 use crate::{
     js::{
         any::Any,
+        js_bigint::{JsBigintRef, Sign},
         js_string::JsStringRef,
         visitor::{to_visitor, Visitor},
     },
@@ -55,6 +56,54 @@ pub trait WriteJson: Write {
         self.write_char('"')
     }
 
+    // TODO: replace with proper JSON number serializer.
+    fn write_js_number(&mut self, n: f64) -> fmt::Result {
+        // a literal that is out of range denotes an infinity.
+        if n == f64::INFINITY {
+            return self.write_str("1e1000");
+        }
+        if n == f64::NEG_INFINITY {
+            return self.write_str("-1e1000");
+        }
+        self.write_str(n.to_string().as_str())
+    }
+
+    /// Writes decimal digits of a bigint with the suffix `n`.
+    fn write_js_bigint(&mut self, b: &JsBigintRef<impl Dealloc>) -> fmt::Result {
+        const BASE: u128 = 10_000_000_000_000_000_000;
+        let mut limbs = b.items().to_vec();
+        // groups of 19 digits, the least significant group first.
+        let mut groups = Vec::default();
+        loop {
+            while limbs.last() == Some(&0) {
+                limbs.pop();
+            }
+            if limbs.is_empty() {
+                break;
+            }
+            let mut rest = 0;
+            for limb in limbs.iter_mut().rev() {
+                let value = (rest << 64) | *limb as u128;
+                *limb = (value / BASE) as u64;
+                rest = value % BASE;
+            }
+            groups.push(rest as u64);
+        }
+        match groups.pop() {
+            None => self.write_char('0')?,
+            Some(group) => {
+                if b.sign() == Sign::Negative {
+                    self.write_char('-')?;
+                }
+                write!(self, "{}", group)?;
+                for group in groups.iter().rev() {
+                    write!(self, "{:019}", group)?;
+                }
+            }
+        }
+        self.write_char('n')
+    }
+
     fn write_list<I>(
         &mut self,
         open: char,
@@ -74,8 +123,7 @@ pub trait WriteJson: Write {
 
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
-            // TODO: replace with proper JSON number serializer.
-            Visitor::Number(n) => self.write_str(n.to_string().as_str()),
+            Visitor::Number(n) => self.write_js_number(n),
             Visitor::Null => self.write_str("null"),
             Visitor::Bool(b) => self.write_str(if b { "true" } else { "false" }),
             Visitor::String(s) => self.write_js_string(&s),
@@ -85,7 +133,7 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            Visitor::Bigint(b) => self.write_js_bigint(&b),
         }
     }
 }
-- 
2.43.0


From 0122b7e4e1a03c230abc6f85fd5d4b31f75bc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 27/43] fix: accept a semicolon at the end of a statement

---
 nanvm-lib/src/parser/const_state.rs | 37 +++++++++++++----------------
 nanvm-lib/src/parser/parser.rs      | 33 +++++++++++--------------
 nanvm-lib/src/parser/root_state.rs  |  8 +++++++
 3 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..70bf373 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -12,28 +12,23 @@ pub struct ConstState<M: Manager> {
 
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
-        match token {
-            JsonToken::Semicolon => todo!(),
-            _ => {
-                // TODO: use import_path in place of _ below to track possible errors -
-                // or provide an explanation on why it's not necessary.
-                let (any_result, _) = self.state.parse(manager, token);
-                match any_result {
-                    AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
-                        key: self.key,
-                        state,
-                    }),
-                    AnyResult::Success(mut success) => {
-                        success.state.consts.insert(self.key, success.value);
-                        JsonState::ParseRoot(RootState {
-                            status: RootStatus::Initial,
-                            state: success.state,
-                            new_line: false,
-                        })
-                    }
-                    AnyResult::Error(error) => JsonState::Error(error),
-                }
+        // TODO: use import_path in place of _ below to track possible errors -
+        // or provide an explanation on why it's not necessary.
+        let (any_result, _) = self.state.parse(manager, token);
+        match any_result {
+            AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
+                key: self.key,
+                state,
+            }),
+            AnyResult::Success(mut success) => {
+                success.state.consts.insert(self.key, success.value);
+                JsonState::ParseRoot(RootState {
+                    status: RootStatus::Initial,
+                    state: success.state,
+                    new_line: false,
+                })
             }
+            AnyResult::Error(error) => JsonState::Error(error),
         }
     }
 }
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..d6c30d8 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -41,26 +41,21 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
-    match token {
-        JsonToken::Semicolon => todo!(),
-        _ => {
-            let result = any_state_parse(const_state.state, context, token);
-            match result {
-                AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
-                    key: const_state.key,
-                    state,
-                }),
-                AnyResult::Success(mut success) => {
-                    success.state.consts.insert(const_state.key, success.value);
-                    JsonState::ParseRoot(RootState {
-                        status: RootStatus::Initial,
-                        state: success.state,
-                        new_line: false,
-                    })
-                }
-                AnyResult::Error(error) => JsonState::Error(error),
-            }
+    let result = any_state_parse(const_state.state, context, token);
+    match result {
+        AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
+            key: const_state.key,
+            state,
+        }),
+        AnyResult::Success(mut success) => {
+            success.state.consts.insert(const_state.key, success.value);
+            JsonState::ParseRoot(RootState {
+                status: RootStatus::Initial,
+                state: success.state,
+                new_line: false,
+            })
         }
+        AnyResult::Error(error) => JsonState::Error(error),
     }
 }
 
diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..cf0f387 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,14 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                // a semicolon ends a statement in the same way as a line end does.
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From 7e250f3abcdbc787b912c5bb883b3124201d2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 28/43] fix: accept require in every position of an array

---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..a48c7b1 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -262,7 +262,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -281,6 +281,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From afff838fe06bcaeab9519ecf7a06af0377e8f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 29/43] fix: accept identifier keys after a comma

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index a48c7b1..6863ec2 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -355,6 +355,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From 180012ab98c1f87d054d4a37fc5030db6e2abd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 30/43] fix: a const statement keeps the kind of the module

---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 6863ec2..efb6578 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -48,7 +48,7 @@ impl<M: Manager> Default for AnyState<M> {
 impl<M: Manager> AnyState<M> {
     pub fn set_djs(self) -> Self {
         AnyState {
-            data_type: DataType::Djs,
+            data_type: self.data_type.to_djs(),
             ..self
         }
     }
-- 
2.43.0


From 56990f905304896de7d6cf6603174b9a1459f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 31/43] fix: report a require without a provided module

---
 nanvm-lib/src/parser/any_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index efb6578..6eeb45d 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -185,7 +185,8 @@ impl<M: Manager> AnyState<M> {
                 };
                 new_state.push_value(any)
             }
-            _ => unreachable!(),
+            // no module was provided for the path.
+            _ => AnyResult::Error(ParseError::CannotReadFile),
         }
     }
 
-- 
2.43.0


From 0aa864d766f81634974fc754327411ca3739f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 32/43] fix: normalize '.' segments and keep absolute paths
 absolute

---
 nanvm-lib/src/parser/path.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..e9ea7ab 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -1,17 +1,20 @@
 use crate::common::default::default;
 
 pub fn normalize(path: &str) -> String {
+    let is_absolute = path.starts_with('/');
     let path_split: Vec<_> = path.split('/').collect();
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    // there is nothing above the root directory.
+                    None if is_absolute => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,10 +25,19 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    let result = result_split.join("/");
+    if is_absolute {
+        format!("/{result}")
+    } else {
+        result
+    }
 }
 
 pub fn concat(a: &str, b: &str) -> String {
+    // an absolute path or the current directory.
+    if b.starts_with('/') || a.is_empty() {
+        return normalize(b);
+    }
     let mut concat = a.to_string();
     concat.push('/');
     concat.push_str(b);
@@ -35,6 +47,8 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        // the root directory.
+        Some(("", name)) => ("/", name),
         Some(t) => t,
     }
 }
-- 
2.43.0


From 4235bfd7855c72e9672fd9ce264dbdb84ce1e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 33/43] fix: resolve an import against the directory of its
 module

---
 nanvm-lib/src/parser/parser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index d6c30d8..4cdc453 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -11,6 +11,7 @@ use crate::{
     mem::manager::Manager,
     tokenizer::{tokenize, JsonToken},
 };
+use core::mem::replace;
 use io_trait::Io;
 
 pub struct Context<'a, M: Manager, I: Io> {
@@ -98,7 +99,7 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
-                    let res = parse_with_tokens(context, tokens.into_iter());
+                    let res = parse_module(context, &current_path, tokens.into_iter());
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -171,7 +172,7 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
-                        let res = parse_with_tokens(context, tokens.into_iter());
+                        let res = parse_module(context, &current_path, tokens.into_iter());
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
@@ -231,6 +232,18 @@ pub fn parse<M: Manager + 'static, I: Io>(
     }
 }
 
+/// Parses an imported module, its own imports are relative to its `path`.
+fn parse_module<M: Manager + 'static, I: Io>(
+    context: &mut Context<M, I>,
+    path: &str,
+    iter: impl Iterator<Item = JsonToken<M::Dealloc>>,
+) -> Result<ParseResult<M::Dealloc>, ParseError> {
+    let parent = replace(&mut context.path, path.to_string());
+    let result = parse_with_tokens(context, iter);
+    context.path = parent;
+    result
+}
+
 pub fn parse_with_tokens<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
     iter: impl Iterator<Item = JsonToken<M::Dealloc>>,
-- 
2.43.0


From e3383192ed3b9a04c056e9f60bf8bdd4515a36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 34/43] fix: only modules being loaded are in progress

---
 nanvm-lib/src/parser/parser.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 4cdc453..c7b02d7 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -100,9 +100,9 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
                     let res = parse_module(context, &current_path, tokens.into_iter());
+                    context.module_cache.progress.remove(&current_path);
                     match res {
                         Ok(r) => {
-                            context.module_cache.progress.remove(&current_path);
                             context
                                 .module_cache
                                 .complete
@@ -116,7 +116,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                         Err(e) => AnyResult::Error(e),
                     }
                 }
-                Err(_) => AnyResult::<M>::Error(ParseError::CannotReadFile),
+                Err(_) => {
+                    context.module_cache.progress.remove(&current_path);
+                    AnyResult::<M>::Error(ParseError::CannotReadFile)
+                }
             }
         }
         _ => AnyResult::Error(ParseError::WrongRequireStatement),
@@ -173,9 +176,9 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
                         let res = parse_module(context, &current_path, tokens.into_iter());
+                        context.module_cache.progress.remove(&current_path);
                         match res {
                             Ok(r) => {
-                                context.module_cache.progress.remove(&current_path);
                                 context
                                     .module_cache
                                     .complete
@@ -190,7 +193,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                             Err(e) => JsonState::Error(e),
                         }
                     }
-                    Err(_) => JsonState::Error(ParseError::CannotReadFile),
+                    Err(_) => {
+                        context.module_cache.progress.remove(&current_path);
+                        JsonState::Error(ParseError::CannotReadFile)
+                    }
                 }
             }
             _ => panic!("JsonState::ParseRoot expected when root_state.parse returns import"),
@@ -221,15 +227,18 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    let key = normalize(context.path.as_str());
+    context.module_cache.progress.insert(key.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
-    match read_result {
+    let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
             parse_with_tokens(context, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
-    }
+    };
+    context.module_cache.progress.remove(&key);
+    result
 }
 
 /// Parses an imported module, its own imports are relative to its `path`.
-- 
2.43.0


From 0286e9b113c9c29eb9db9fd44599b1e02e8670b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 35/43] fix: write consts of a DJS text in the order of the
 value

---
 nanvm-lib/src/serializer/to_djs.rs | 71 ++++++++----------------------
 1 file changed, 18 insertions(+), 53 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..e90bf16 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -63,61 +63,29 @@ impl<D: Dealloc> ConstTracker<D> {
     }
 }
 
-/// Writes a const definition for a compound (an array or an object).
-fn write_compound_const<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    any: &Any<D>,
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
-    if to_be_consts.remove(any).is_some() {
-        let id = const_refs.len();
-        write_json.write_str("const _")?;
-        write_json.write_str(id.to_string().as_str())?;
-        write_json.write_char('=')?;
-        write_with_const_refs(write_json, any.clone(), const_refs)?;
-        const_refs.insert(any.clone(), id);
-        write_json.write_char(';')
-    } else {
-        fmt::Result::Ok(())
-    }
-}
-
-/// Writes a const js entity of any type (skipping over types other than object, array),
-/// ensuring that its const dependencies are written out as well in the right order (with no
-/// forward references).
-fn write_consts_and_any<D: Dealloc>(
+/// Writes const definitions for the objects and arrays in `any` (and for `any` itself) that were seen
+/// repeatedly. A definition is written after definitions of everything it refers to, so there are no
+/// forward references. A compound is removed from `visited` as soon as it is processed, so each one is
+/// processed once.
+fn write_consts<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
     any: &Any<D>,
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
+    visited: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
-    match any.get_type() {
-        Type::Array | Type::Object => {
-            write_compound_const(write_json, any, to_be_consts, const_refs)?;
+    if let Some(seen) = visited.remove(any) {
+        any.for_each(|_k, v| write_consts(write_json, v, visited, const_refs))?;
+        if seen == Seen::Repeatedly {
+            let id = const_refs.len();
+            write_json.write_str("const _")?;
+            write_json.write_str(id.to_string().as_str())?;
+            write_json.write_char('=')?;
+            write_with_const_refs(write_json, any.clone(), const_refs)?;
+            const_refs.insert(any.clone(), id);
+            write_json.write_char(';')?;
         }
-        _ => {}
-    }
-    fmt::Result::Ok(())
-}
-
-/// Peeks one value from a hash map. This helper resolves a borrowing issue in write_consts - that
-/// function needs to iterate through a hash map while mutating that hash map.
-fn peek<D: Dealloc>(hash_map: &HashMap<Any<D>, Seen>) -> Option<Any<D>> {
-    Some(hash_map.iter().next()?.0.clone())
-}
-
-/// Writes const definitions for objects, arrays in the right order (with no forward references).
-fn write_consts<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    while let Some(any) = peek(to_be_consts) {
-        write_consts_and_any(write_json, &any, to_be_consts, const_refs)?;
     }
-    fmt::Result::Ok(())
+    Ok(())
 }
 
 /// Writes `any` using const references.
@@ -170,10 +138,7 @@ pub trait WriteDjs: WriteJson {
             visited: HashMap::new(),
         };
         const_tracker.track_consts_for_any(&any)?;
-        const_tracker
-            .visited
-            .retain(|_, seen| *seen == Seen::Repeatedly);
-        write_consts(self, &mut const_tracker.visited, &mut const_refs)?;
+        write_consts(self, &any, &mut const_tracker.visited, &mut const_refs)?;
         if common_js {
             self.write_str("module.exports=")?;
         } else {
-- 
2.43.0


From 595e3f87283fabd29c5f043cdd3ec631defc8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 36/43] fix: no second drop of a value when a closure that
 modifies it panics

---
 nanvm-lib/src/common/ref_mut.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/nanvm-lib/src/common/ref_mut.rs b/nanvm-lib/src/common/ref_mut.rs
index 78699ba..d54dfd1 100644
--- a/nanvm-lib/src/common/ref_mut.rs
+++ b/nanvm-lib/src/common/ref_mut.rs
@@ -1,15 +1,31 @@
+use core::mem::forget;
+use std::process::abort;
+
+/// Ends the process if it is dropped, i.e. if a panic goes through the scope that owns it.
+struct Abort;
+
+impl Drop for Abort {
+    fn drop(&mut self) {
+        abort();
+    }
+}
+
 pub trait RefMut {
     // a better name is `as_mut_ptr` but it's already used by `Slice`.
     unsafe fn to_mut_ptr(&mut self) -> *mut Self {
         self as _
     }
+    /// Replaces the value with `f` of it. While `f` has the value, there is nothing in its place for
+    /// an owner to drop, so the process ends if `f` panics.
     fn modify(&mut self, f: impl FnOnce(Self) -> Self)
     where
         Self: Sized,
     {
         unsafe {
             let p = self.to_mut_ptr();
+            let guard = Abort;
             p.write(f(p.read()));
+            forget(guard);
         };
     }
 }
-- 
2.43.0


From 849c2152f7dc7c0ba8275de89c60cb416dce167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 37/43] fix: report missing arguments

---
 nanvm-lib/src/app/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/app/mod.rs b/nanvm-lib/src/app/mod.rs
index b574a57..8014045 100644
--- a/nanvm-lib/src/app/mod.rs
+++ b/nanvm-lib/src/app/mod.rs
@@ -13,9 +13,13 @@ use crate::{
 
 pub fn run(io: &impl Io) -> io::Result<()> {
     let mut a = io.args();
-    a.next().unwrap();
-    let input = a.next().unwrap();
-    let output = a.next().unwrap();
+    // the name of the program.
+    a.next();
+    let (Some(input), Some(output)) = (a.next(), a.next()) else {
+        return Err(Error::other(
+            "an input file and an output file are required",
+        ));
+    };
 
     let mc = &mut default();
     let mut context = Context::new(GLOBAL, io, input, mc);
-- 
2.43.0


From df251c45ce5ec0107f20ccaa1ea23c96ca56c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 38/43] fix: the program reports errors

---
 nanvm/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..6aa0383 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,7 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
+use std::io;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From e3e995be7339ebaeec9ddd6b30a87e9b701caf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 39/43] fix: no overflow of the size of an array

---
 nanvm-lib/src/mem/field_layout.rs       | 9 ++++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..899fd81 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -42,7 +42,14 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        let size = match self.size.checked_add(a_size) {
+            Some(size) => size,
+            None => panic!("capacity overflow"),
+        };
+        match Layout::from_size_align(size, self.align) {
+            Ok(layout) => layout,
+            Err(_) => panic!("capacity overflow"),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..2dc4960 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -40,7 +40,14 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        let size = match len.checked_mul(size_of::<I>()) {
+            Some(items_size) => items_size.checked_add(Self::FLEXIBLE_HEADER_LAYOUT.size),
+            None => None,
+        };
+        match size {
+            Some(size) => size,
+            None => panic!("capacity overflow"),
+        }
     }
 }
 
-- 
2.43.0


From 79ca3e09fc8fe01f834ea0997dbd51d262537d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 40/43] fix: report a failed allocation

---
 nanvm-lib/src/mem/global.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 289a234..fe3a909 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,5 +1,5 @@
 use core::{alloc::Layout, cell::Cell};
-use std::alloc::{alloc, dealloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
 
@@ -20,7 +20,11 @@ impl Manager for Global {
     type Dealloc = Global;
     #[inline(always)]
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        alloc(layout)
+        let result = alloc(layout);
+        if result.is_null() {
+            handle_alloc_error(layout);
+        }
+        result
     }
 }
 
-- 
2.43.0


From febcba7a3f788992e394a7fd30e346865f277a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 41/43] verification hook: arena behind cfg nanvm_verif

---
 nanvm-lib/src/mem/arena.rs | 15 +++++++++++++++
 nanvm-lib/src/mem/mod.rs   |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/nanvm-lib/src/mem/arena.rs b/nanvm-lib/src/mem/arena.rs
index f2554e4..e6e4ba6 100644
--- a/nanvm-lib/src/mem/arena.rs
+++ b/nanvm-lib/src/mem/arena.rs
@@ -58,6 +58,21 @@ impl Manager for &Arena<'_> {
     }
 }
 
+/// Gives an arena over a buffer to code outside of the crate (only with `--cfg nanvm_verif`).
+#[cfg(nanvm_verif)]
+pub mod verif {
+    use super::{Arena, Manager};
+
+    pub trait Visitor {
+        type Result;
+        fn visit<M: Manager>(self, manager: M) -> Self::Result;
+    }
+
+    pub fn with_arena<V: Visitor>(buffer: &mut [u8], visitor: V) -> V::Result {
+        visitor.visit(&Arena::new(buffer))
+    }
+}
+
 #[cfg(test)]
 mod test {
     use wasm_bindgen_test::wasm_bindgen_test;
diff --git a/nanvm-lib/src/mem/mod.rs b/nanvm-lib/src/mem/mod.rs
index 43636f2..27b5946 100644
--- a/nanvm-lib/src/mem/mod.rs
+++ b/nanvm-lib/src/mem/mod.rs
@@ -1,4 +1,7 @@
+#![allow(unexpected_cfgs)] // `nanvm_verif`
 mod arena;
+#[cfg(nanvm_verif)]
+pub use arena::verif as arena_verif;
 pub mod block;
 pub mod block_header;
 mod constructor;
-- 
2.43.0


From f7349a53d3b7b15669bae95be65a90dba700921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 42/43] fix: no pointer beyond the buffer of an arena when an
 allocation is refused

---
 nanvm-lib/src/mem/arena.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/mem/arena.rs b/nanvm-lib/src/mem/arena.rs
index e6e4ba6..4b8c06f 100644
--- a/nanvm-lib/src/mem/arena.rs
+++ b/nanvm-lib/src/mem/arena.rs
@@ -45,10 +45,10 @@ impl Manager for &Arena<'_> {
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
         let result = {
             let result = self.start.get();
-            result.byte_add(result.align_offset(layout.align()))
+            result.wrapping_byte_add(result.align_offset(layout.align()))
         };
         {
-            let start = result.byte_add(layout.size());
+            let start = result.wrapping_byte_add(layout.size());
             if start > self.end {
                 panic!("out of memory");
             }
-- 
2.43.0


From 49687487736b432632994aae1efd30564a61da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 43/43] fix: one name for a module, however the path to it is
 spelled

---
 nanvm-lib/src/parser/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index c7b02d7..1bf98b9 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -13,6 +13,7 @@ use crate::{
 };
 use core::mem::replace;
 use io_trait::Io;
+use std::path::Path;
 
 pub struct Context<'a, M: Manager, I: Io> {
     manager: M,
@@ -227,13 +228,13 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    let key = normalize(context.path.as_str());
+    let key = absolute(context.io, context.path.as_str());
     context.module_cache.progress.insert(key.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
     let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
-            parse_with_tokens(context, tokens.into_iter())
+            parse_module(context, &key, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
     };
@@ -241,6 +242,14 @@ pub fn parse<M: Manager + 'static, I: Io>(
     result
 }
 
+/// One name for a file, however the path to it is spelled.
+fn absolute(io: &impl Io, path: &str) -> String {
+    if Path::new(path).is_absolute() {
+        return normalize(path);
+    }
+    concat(io.current_dir().unwrap_or_default().as_str(), path)
+}
+
 /// Parses an imported module, its own imports are relative to its `path`.
 fn parse_module<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
-- 
2.43.0

