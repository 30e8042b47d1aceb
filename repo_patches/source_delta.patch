From 834def4be61ffe2f7d99a564ab8d89cf6a310f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 01/44] fix: Nat * u32 leaves a leading zero limb

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..65fc09c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -635,6 +635,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From 491083414341698b22b395d4b3888eb4750096ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 02/44] fix: Nat - u32 leaves a leading zero limb

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From e46b9a2ad791c25336f717bff112764e09c4bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 03/44] fix: 0 << k of a Nat is not canonical for k >= 32

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 65fc09c..8b4318c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -449,7 +449,7 @@ impl Nat {
             if pre > 0 {v.push(pre);}
         }
         
-        if num > 0 {
+        if num > 0 && v.as_slice() != [0] {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
-- 
2.43.0


From 7f6010fff1ba735d39e1a4fac396d15a38fa4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 04/44] fix: Nat >> k is wrong for k >= 32 when no bits spill
 into the top limb

---
 src/bigint/nat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 8b4318c..d514049 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -482,6 +482,8 @@ impl Nat {
                 *a = (r & mask_h) | pre;
                 pre = r & mask_l;
             });
+        } else {
+            v.rotate_left(num);
         }
         v.truncate(v.len() - num);
         if pre > 0 {
@@ -490,7 +492,7 @@ impl Nat {
                 _ => {},
             };
         } else {
-            if nom > 0 && num == 0 {
+            if nom > 0 {
                 v.pop();
                 if v.len() == 0 {
                     v.push(0);
-- 
2.43.0


From 8b35dc5a3040a602560a3af7ff61ebf3f467c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 05/44] fix: Nat %= with an operand that shares the same data
 never terminates

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index d514049..0538f73 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -559,6 +559,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From 87ef4a6166935c0f4ab985b778af34a01fa6ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 06/44] fix: Nat::random returns numbers with leading zero
 limbs

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 0538f73..e9e1851 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -852,6 +852,7 @@ impl Nat {
                 break;
             }
         }
+        n.trim_head_zero();
     }
 
     /// generate a random number that belong to the range of [0, self)
-- 
2.43.0


From a9ed46a5acb1a1a61b950c7252ce393d13ff7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 07/44] fix: probably_prime_test rejects a prime when the
 random base is 0

---
 src/bigint/nat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index e9e1851..1aa6724 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -912,6 +912,9 @@ impl Nat {
         
         for _ in 0..s {
             self.random_inner(&mut a, rng);
+            while a == 0u32 {
+                self.random_inner(&mut a, rng);
+            }
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From 9cf5ab76cf58afe0a80ff095db1aa8cb973f3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 08/44] fix: Nat::exp overflows a shift when the top limb of
 the exponent is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 1aa6724..6fa3a26 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1818,7 +1818,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From 91d0ce9a17e1b91025b57208f296f16cd1f909e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 09/44] fix: Nat::and_not with a NaN right hand side is not NaN

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 6fa3a26..47f0a1f 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if rhs.is_nan() {
+            self.clear();
+            return;
+        }
+        
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From 4ff9b56904b06ad67cc8564fedacd674cb213c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 10/44] fix: BigInt / and % leave a negative zero

-10 % 5 and 1 / -5 kept the sign with a zero magnitude, so the result was
not equal to 0 and rem_euclid(-10, 5) was 5.
---
 src/bigint/bigint.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..d95aa69 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
@@ -465,6 +468,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 120de4856f61f36edd44ea25710a17f88b565a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 11/44] fix: BigInt | with operands of different signs swaps
 the and-not operands

x | -y is -(((y-1) &^ x) + 1); the code computed x &^ (y-1), 7 | -17 was -8.
---
 src/bigint/bigint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d95aa69..d69c81e 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -524,9 +524,10 @@ impl BigInt {
             } else {
                 rhs.nat - 1u32
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
-            self.nat += 1u32;
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            let rhs1 = rhs1.and_not(self.nat.deep_clone()) + 1u32;
+            self.nat.clear();
+            self.nat.as_mut_vec().extend(rhs1.iter());
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
     }
-- 
2.43.0


From 33011f518183a7fe9d575855265cef5734c9d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 12/44] fix: BigInt::and_not of two negative numbers swaps the
 operands

(-x) &^ (-y) is (y-1) &^ (x-1), as the comment says; the code computed
(x-1) &^ (y-1), -17 &^ -16 was 16 instead of 15.
---
 src/bigint/bigint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d69c81e..047ce6b 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -544,9 +544,10 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let lhs1 = self.nat.clone() - 1u32;
+                let rhs1 = (rhs.nat - 1u32).and_not(lhs1);
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(rhs1.iter());
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From 03cfb2f71d0c2dbecc918aedc893317020a9fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 13/44] fix: BigInt::is_set_bit returns None for the top bit of
 -2^k

The documentation promises None only from bits_len() on; x-1 of a power of
two is one bit shorter than x.
---
 src/bigint/bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 047ce6b..dba13a2 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -698,8 +698,11 @@ impl BigInt {
     /// `None` if `bit_idx >= self.bits_len()`.
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
         if self.sign == Negative {
+            if i >= self.bits_len() {
+                return None;
+            }
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            Some(!t.is_set_bit(i).unwrap_or(false))
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From 620f88c45e5a6a123c0bd9e3caaa57824955c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 14/44] fix: BigInt::exp negates twice for a negative base and
 a negative odd exponent

(-7)^-3 mod 4 was 3 instead of 1.
---
 src/bigint/bigint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index dba13a2..ecbbda7 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -672,7 +672,8 @@ impl BigInt {
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        // the inverse used for b < 0 already accounts for the sign of self
+        let is_neg = if !b.is_negative() && !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From 6f30676642cbf2b9df568fec08c2d8e00fc36211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 15/44] fix: BigInt::mul_range overflows for a range that
 starts at i64::MIN

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index ecbbda7..9dc9f96 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -619,7 +619,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                (((b - a) & 1) == 0, b.wrapping_neg() as u64, a.wrapping_neg() as u64)
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From ddd4c34f4ac34143671a8d616ded3af003138bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 16/44] fix: BigInt {:b} prints the 0b prefix without the #
 flag

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 9dc9f96..ebd3c9a 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -1070,7 +1070,7 @@ bigint_fmt_impl!(
     (LowerHex, "{:#x}", "{:x}"),
     (UpperHex, "{:#X}", "{:X}"),
     (Debug, "{:#?}", "{:?}"),
-    (Binary, "{:#b}", "{:#b}")
+    (Binary, "{:#b}", "{:b}")
 );
 
 impl AsRef<Nat> for BigInt {
-- 
2.43.0


From 23ea4fa7c44899643f704939f9c11cdf1ff5b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 17/44] fix: BigInt &=, |=, ^= and and_not_assign with an
 operand that shares self's data

The step by step update of self also changed the operand: -x &= -x was
-x-1, and with different signs the operand was cleared.
---
 src/bigint/bigint.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index ebd3c9a..85d6a81 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -474,6 +474,8 @@ impl BigInt {
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
+        // rhs may share the data with self, which is modified step by step
+        let rhs = rhs.deep_clone();
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
@@ -502,6 +504,8 @@ impl BigInt {
     }
     
     fn bitor_inner(&mut self, rhs: Self) {
+        // rhs may share the data with self, which is modified step by step
+        let rhs = rhs.deep_clone();
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
@@ -541,6 +545,8 @@ impl BigInt {
     
     /// compute the $self &= !rhs$
     pub fn and_not_assign(&mut self, rhs: BigInt) {
+        // rhs may share the data with self, which is modified step by step
+        let rhs = rhs.deep_clone();
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
@@ -577,6 +583,8 @@ impl BigInt {
     }
     
     fn bitxor_inner(&mut self, rhs: Self) {
+        // rhs may share the data with self, which is modified step by step
+        let rhs = rhs.deep_clone();
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-- 
2.43.0


From 88c3a3593e0272516f931f0efb1c49e91c729345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 18/44] fix: the denominator of a zero Rat is not normalised to
 1

---
 src/bigint/rat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..105f492 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -327,9 +327,8 @@ impl Rat {
             t = false;
         }
         
-        if self.b.is_nan() || self.b.nat == 0u32 {
-            self.b.nat.clear();
-            self.b.nat.as_mut_vec().push(1);
+        if self.b.is_nan() || self.b.nat == 0u32 || self.a.nat == 0u32 {
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-- 
2.43.0


From 33dc24e7f2875ecbe98e1e31f36f64869294842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 19/44] fix: Rat::from_f64 of a value >= 2^53 shifts the
 denominator instead of the numerator

---
 src/bigint/rat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 105f492..bb25749 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -99,8 +99,11 @@ impl Rat {
             let mut a= BigInt::from(mantissa);
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
-            let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {
+                b.nat.shl_inner(&(shift as usize));
+            } else {
+                a.nat.shl_inner(&((-shift) as usize));
+            }
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From dc7f7946a1bb951e9277c4b1cf2197d53a7f16ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 20/44] fix: Rat::to_f32 of 0 panics because of a missing
 return

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index bb25749..fbe4c2e 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -166,7 +166,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From 187371ee58dcb5b7ce4205d03a854c3a4794655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 21/44] fix: Rat::to_f32 and to_f64 report an underflow to 0 as
 exact

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index fbe4c2e..7f1374c 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -229,7 +229,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f32 {
             (f, false)
         } else {
             (f, exact)
@@ -316,7 +316,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f64 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From 77dc3bdfc63a0fe69e1767d07a7899da1dadaf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 22/44] fix: Rat::from_str does not reduce a/b to lowest terms

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 7f1374c..73d6900 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -725,7 +725,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From a398dccd1f2a70f3fe141fc0d10fe8be8e46a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 23/44] fix: Rat::from_frac overflows for isize::MIN

---
 src/bigint/rat.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 73d6900..46fc19a 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -46,12 +46,7 @@ impl Rat {
         if denominator == 0 {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
-            let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
-            };
-            z.norm();
-            Ok(z)
+            Self::from_frac_bigint(&BigInt::from(numerator), &BigInt::from(denominator))
         }
     }
     
-- 
2.43.0


From f9ea306e236ec0c26d6cb86605f1ab7a8f3e9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 24/44] fix: a Rat op-assign with a NaN operand turns the
 clones of self into NaN

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 46fc19a..872771b 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -404,7 +404,7 @@ impl Rat {
     }
     
     fn clear(&mut self) {
-        self.a.nat.clear();
+        *self = Self::nan();
     }
     
     fn mul_denom(x: &Nat, y: &Nat) -> Nat {
-- 
2.43.0


From fbd3d80ed533012ccd0ddc27f999d1b1c0f15272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 25/44] verification hook: Float::verif_parts under
 cfg(rmath_verif)

---
 src/bigint/float.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..470f46d 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1413,4 +1413,17 @@ impl PartialOrd for Float {
     }
 }
 
-
+/// Read access to the representation for an external checker: form (0 zero, 1 finite, 2 infinite, 3 NaN),
+/// sign, mantissa limbs (least significant first) and exponent.
+#[cfg(rmath_verif)]
+impl Float {
+    pub fn verif_parts(&self) -> (u8, bool, &[u32], isize) {
+        let form = match self.form {
+            Form::Zero => 0,
+            Form::Finite => 1,
+            Form::Inf => 2,
+            Form::Nan => 3,
+        };
+        (form, self.neg == Negative, self.mant.as_vec().as_slice(), self.exp)
+    }
+}
-- 
2.43.0


From 3fde5e20c5f3e3fec6e1363ffabe0eee1c2f7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 26/44] fix: Float division pads the dividend at the wrong end

---
 src/bigint/float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 470f46d..2ea6c09 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -550,7 +550,8 @@ impl Float {
         let d = n - (self.mant.as_vec().len() as isize) + (y.mant.as_vec().len() as isize);
         let xadj = if d > 0 {
             let tmp = self.mant.deep_clone();
-            tmp.as_mut_vec().resize(((self.mant.as_vec().len() as isize) + d) as usize, 0);
+            // d extra words needed => add d "0 digits" below the mantissa
+            tmp.as_mut_vec().splice(0..0, std::iter::repeat(0).take(d as usize));
             tmp
         } else {
             self.mant.clone()
-- 
2.43.0


From 672b676aafd1d4f9469f109b7e50922a5b436e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 27/44] fix: Float Inf / finite is NaN

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 2ea6c09..89b7088 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -592,7 +592,7 @@ impl Float {
             self.uquo(y)
         } else {
             self.acc = Accuracy::Exact;
-            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && self.form.is_infinite()) {
+            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && y.form.is_infinite()) {
                 self.form = Form::Nan;
                 self.neg = Natural;
                 // panic!("division of zero by zero or infinity by infinity");
-- 
2.43.0


From 9b5a73ff2c4ac94a2c4c362eed0ce282d07a9978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 28/44] fix: Float 0 - y and x - Inf have the wrong sign

---
 src/bigint/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 89b7088..95fd58b 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1108,7 +1108,9 @@ impl Float {
         } else {
             // ±0 - y
             // x - ±Inf
-            self.set_float(y);
+            let mut y = y.deep_clone();
+            y.neg = !y.neg;
+            self.set_float(&y);
         }
     }
     
-- 
2.43.0


From 19d5d72bb7cb223139a39f2844abc3bbf534e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 29/44] fix: Float + and - take precision and mode from y when
 |x| <= |y|

---
 src/bigint/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 95fd58b..5b92b06 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -998,6 +998,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
@@ -1080,6 +1082,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
-- 
2.43.0


From 73567bc8edec5610da07910faeb0159db0f0c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 30/44] fix: Float -0 + +0 is -0

---
 src/bigint/float.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 5b92b06..f9caf4e 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1017,6 +1017,11 @@ impl Float {
             self.form = Form::Nan;
             self.neg = BISign::from(false);
             // panic!("addition of infinities with opposite signs");
+        } else if self.form.is_zero() && y.form.is_zero() {
+            // ±0 + ±0
+            self.acc = Accuracy::Exact;
+            // -0 + -0 == -0
+            self.neg = BISign::from(self.neg == Negative && y.neg == Negative);
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
-- 
2.43.0


From 5773c9e6695fd2f9292a59431edcd9f9506f44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 31/44] fix: Float x + 0 and x - 0 keep the accuracy of an
 earlier operation

---
 src/bigint/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index f9caf4e..12b0125 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1025,6 +1025,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 + y
             // x + ±Inf
@@ -1114,6 +1115,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 - y
             // x - ±Inf
-- 
2.43.0


From e4de6e09aac5d95ec45229e32d6720adbb340fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 32/44] fix: Float::to_f32 and to_f64 round up to the smallest
 normal instead of the smallest denormal

---
 src/bigint/float.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 12b0125..8650c95 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -740,9 +740,9 @@ impl Float {
                 // We handle p == 0 explicitly because it's easy and because
                 // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (-f32::MIN_POSITIVE, Accuracy::Below);
+                        return (-f32::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f32::MIN_POSITIVE, Accuracy::Above);
+                        return (f32::from_bits(1), Accuracy::Above);
                     }
                 }
             }
@@ -851,9 +851,9 @@ impl Float {
                     // We handle p == 0 explicitly because it's easy and because
                     // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (f64::MIN_POSITIVE, Accuracy::Below);
+                        return (-f64::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f64::MIN_POSITIVE, Accuracy::Above);
+                        return (f64::from_bits(1), Accuracy::Above);
                     }
                 }
             }
-- 
2.43.0


From ef41efb76baea32d8740627f8c55833d0db93db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 33/44] fix: Float::from(i64::MIN) overflows

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 8650c95..8377d7c 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -317,7 +317,7 @@ impl Float {
     }
     
     fn set_i64(&mut self, x: i64) {
-        self.set_bits(x < 0, x.abs() as u64)
+        self.set_bits(x < 0, x.wrapping_abs() as u64)
     }
     
     fn set_f64(&mut self, x: f64) {
-- 
2.43.0


From 46539d95a67a163add29d25f2970f20bb542567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 34/44] fix: Float::from(Rat) ignores the precision of the
 denominator

---
 src/bigint/float.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 8377d7c..e7bf445 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -529,6 +529,7 @@ impl Float {
                 if self.prec == 0 {
                     self.prec = std::cmp::max(a.prec, b.prec);
                 }
+                a.prec = self.prec;
                 a /= b;
                 *self = a;
             },
-- 
2.43.0


From c11d51a50da50ac4a080ab0a1711fc6ddc1d0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 35/44] fix: Float formatting strips inner zero digits

---
 src/bigint/decimal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/decimal.rs b/src/bigint/decimal.rs
index df6cd12..982ce6b 100644
--- a/src/bigint/decimal.rs
+++ b/src/bigint/decimal.rs
@@ -53,6 +53,8 @@ impl Decimal {
             for c in s.chars().rev() {
                 if c == '0' {
                     n -= 1;
+                } else {
+                    break;
                 }
             }
             s.chars().take(n).for_each(|c| {z.mant.push(c);});
-- 
2.43.0


From 8c30d9629f61de65d97b1df7f2522c1b66c5a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 36/44] fix: Float Display rounds twice and drops integer
 digits

---
 src/bigint/float_fmt.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 8909785..49efd32 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -40,7 +40,6 @@ impl Float {
         }
         
         let mut decimal = Decimal::new(&self.mant, self.exp - (self.mant.bits_len() as isize));
-        decimal.round(1 + prec);
         match fmt_char {
             'e' | 'E' => {
                 decimal.round( 1 + prec);
-- 
2.43.0


From 013a41cadae22e4c7aa6fca481c00e81fc0d5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 37/44] fix: Float Display panics for values below 0.1

---
 src/bigint/float_fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 49efd32..6aa63df 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -101,7 +101,10 @@ impl Float {
         
         if prec > 0 {
             buf.push('.');
-            (0..prec).for_each(|i| {buf.push(d[(d.exp as usize) + i]);});
+            (0..(prec as isize)).for_each(|i| {
+                let i = d.exp + i;
+                buf.push(if i < 0 {'0'} else {d[i as usize]});
+            });
         }
     }
 }
-- 
2.43.0


From 14b304aeaed35e0537bd65958a70d56bbc079332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:55 +0000
Subject: [PATCH 38/44] fix: Float::from_str rejects leading zeros and
 non-negative exponents (0.5, 1e5)

---
 src/bigint/float_fmt.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 6aa63df..d86d0a0 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -58,6 +58,18 @@ impl Float {
         }
     }
     
+    /// `BigInt::from_str` does not accept decimal digits with leading zeros
+    fn trim_leading_zeros(s: &str) -> String {
+        let digits = s.trim_start_matches(|c| c == '-' || c == '+');
+        let sign = &s[..(s.len() - digits.len())];
+        let tail = digits.trim_start_matches('0');
+        match tail.chars().next() {
+            None if !digits.is_empty() => format!("{}0", sign),
+            Some(c) if c.is_ascii_digit() => format!("{}{}", sign, tail),
+            _ => s.to_string(),
+        }
+    }
+    
     /// d.ddde±dd
     fn fmt_for_exp(buf: &mut String, d: &Decimal, prec: usize, fmt_char: char) {
         buf.push(*d.mant.first().unwrap());
@@ -187,7 +199,7 @@ impl FromStr for Float {
                 if es.is_empty() {
                     (s, 0)
                 } else {
-                    let e = match BigInt::from_str(es) {
+                    let e = match BigInt::from_str(Self::trim_leading_zeros(es).as_str()) {
                         Ok(x) => x,
                         Err(e) => {return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));},
                     };
@@ -214,7 +226,7 @@ impl FromStr for Float {
             None => (s, 0),
         };
         
-        let (mut buf_nu, mut buf_de) = (String::with_capacity(s.len()), String::with_capacity(s.len()));
+        let mut buf_nu = String::with_capacity(s.len());
         let exp = match dot_idx {
             Some(idx) => {
                 buf_nu.push_str(&s[..idx]);
@@ -227,26 +239,24 @@ impl FromStr for Float {
             }
         };
         
-        if exp < 0 {
-            buf_de.push('1');
-            buf_de.push_str("0".repeat((-exp) as usize).as_str());
-        } else {
-            buf_nu.push_str("0".repeat(exp as usize).as_str());
-        }
-        
-        let numerator = match BigInt::from_str(buf_nu.as_str()) {
+        let numerator = match BigInt::from_str(Self::trim_leading_zeros(buf_nu.as_str()).as_str()) {
             Ok(n) => n,
             Err(e) => {
                 return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));
             }
         };
         
-        let denominator = match BigInt::from_str(buf_de.as_str()) {
+        let scale = match BigInt::from_str(format!("1{}", "0".repeat(exp.abs() as usize)).as_str()) {
             Ok(n) => n,
             Err(e) => {
                 return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));
             }
         };
+        let (numerator, denominator) = if exp < 0 {
+            (numerator, scale)
+        } else {
+            (numerator * scale, BigInt::from(1u32))
+        };
 
         match Rat::from_frac_bigint(&numerator, &denominator) {
             Ok(r) => Ok(Float::from(r)),
-- 
2.43.0


From 011e0d783f10754a94d20291e74a20bf31deac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 39/44] fix: Float::from_str accepts malformed decimals and
 misreads radix prefixes

---
 src/bigint/float_fmt.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index d86d0a0..3982cbe 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -70,6 +70,26 @@ impl Float {
         }
     }
     
+    /// whether `s` is `[+-] digits [. digits] [e [+-] digits]`
+    fn is_decimal(s: &str) -> bool {
+        let is_digits = |x: &str| x.chars().all(|c| c.is_ascii_digit());
+        let unsigned = |x: &str| x.starts_with(|c| c == '-' || c == '+') as usize;
+        
+        let s = &s[unsigned(s)..];
+        let mut parts = s.splitn(2, |c| c == 'e' || c == 'E');
+        let mant = parts.next().unwrap_or("");
+        let is_exp_ok = match parts.next() {
+            Some(e) => {
+                let e = &e[unsigned(e)..];
+                !e.is_empty() && is_digits(e)
+            },
+            None => true,
+        };
+        let digits = mant.replacen('.', "", 1);
+        
+        is_exp_ok && !digits.is_empty() && is_digits(digits.as_str())
+    }
+    
     /// d.ddde±dd
     fn fmt_for_exp(buf: &mut String, d: &Decimal, prec: usize, fmt_char: char) {
         buf.push(*d.mant.first().unwrap());
@@ -181,7 +201,10 @@ impl FromStr for Float {
             se_idx.xor(ue_idx)
         };
         
-        if dot_idx.is_none() && e_idx.is_none() {
+        // `e` is a digit in "0x1e5", and a radix prefix does not go with a fraction
+        let digits = s.trim_start_matches(|c| c == '-' || c == '+');
+        let is_radix = digits.starts_with('0') && digits[1..].starts_with(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'E');
+        if is_radix || (dot_idx.is_none() && e_idx.is_none()) {
             return match BigInt::from_str(s) {
                 Ok(n) => {
                     Ok(Float::from(n))
@@ -192,6 +215,10 @@ impl FromStr for Float {
             };
         }
         
+        if !Self::is_decimal(s) {
+            return Err(FloatError::new(FloatErrKind::ParseStringWrong, format!("`{}` is not a decimal number", s)));
+        }
+        
         let (max_exp, min_exp) = (BigInt::from(Self::max_exp()), BigInt::from(Self::min_exp()));
         let (s, exp) = match e_idx {
             Some(idx) => {
-- 
2.43.0


From bc0b433c07ff947e6aee28c5ffed7e1d1ba5cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 40/44] fix: Nat::generate_prime panics when the source reports
 an error

---
 src/bigint/nat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 47f0a1f..6d2ef36 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1988,8 +1988,12 @@ impl Nat {
         let mut p = Nat::with_capacity(len);
         loop {
             p.as_mut_vec().clear();
-            for x in rng.iter_mut().take(len) {
-                p.as_mut_vec().push(x);
+            let mut itr = rng.iter_mut();
+            while p.num() < len {
+                match itr.next() {
+                    Some(x) => p.as_mut_vec().push(x),
+                    None => itr.clear_error(),
+                }
             }
             
             // 清除大于bits_len的位;
-- 
2.43.0


From 0e6f26e12090678ff32a3aa8ef9a3f66c7c7edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:15 +0000
Subject: [PATCH 41/44] fix: LinearCongruentialRand reduces a*x+c modulo the
 word size before m

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..7629b0f 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From 8a4d54f1d183589116ff35101107f4a2d28b2c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:15 +0000
Subject: [PATCH 42/44] fix: MersenneTwisterRand tempers with right shifts
 where the algorithm shifts left

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From 9ef20050fa40009058ed3cbbc341e7c911d90a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:39 +0000
Subject: [PATCH 43/44] fix: LaggedFibonacciRand overflows when a full-width
 state word is the maximum and a carry is due

---
 src/rand/lagged_fibonacci_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..13aef77 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,7 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let xi = if self.state[ps] > self.state[idx] || (self.state[ps] == self.state[idx] && self.carry == 0) {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From 367272f6678c33a8e74a34a0bdc47ae7fafa9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:06 +0000
Subject: [PATCH 44/44] fix: Float::from_str rejects radix numerals that hold
 both e and E as digits

---
 src/bigint/float_fmt.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 3982cbe..677ad38 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -195,16 +195,10 @@ impl FromStr for Float {
         
         let (dot_idx, se_idx, ue_idx) = (s.find('.'), s.find('e'), s.find('E'));
         
-        let e_idx = if se_idx.is_some() && ue_idx.is_some() {
-            return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid string"));
-        } else {
-            se_idx.xor(ue_idx)
-        };
-        
         // `e` is a digit in "0x1e5", and a radix prefix does not go with a fraction
         let digits = s.trim_start_matches(|c| c == '-' || c == '+');
         let is_radix = digits.starts_with('0') && digits[1..].starts_with(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'E');
-        if is_radix || (dot_idx.is_none() && e_idx.is_none()) {
+        if is_radix || (dot_idx.is_none() && se_idx.is_none() && ue_idx.is_none()) {
             return match BigInt::from_str(s) {
                 Ok(n) => {
                     Ok(Float::from(n))
@@ -215,6 +209,12 @@ impl FromStr for Float {
             };
         }
         
+        let e_idx = if se_idx.is_some() && ue_idx.is_some() {
+            return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid string"));
+        } else {
+            se_idx.xor(ue_idx)
+        };
+        
         if !Self::is_decimal(s) {
             return Err(FloatError::new(FloatErrKind::ParseStringWrong, format!("`{}` is not a decimal number", s)));
         }
-- 
2.43.0

