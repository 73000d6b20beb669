From e8ade44cfb943bdbfdc5c7357c341418d97758c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 01/65] fix: compare bit slices from the most significant
 element

---
 crates/bits/src/algos/element/cmp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..3cef403 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,8 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        // Most significant element first
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 46aad4c0a9c064f990bfe1e995c1e9c05b57aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 02/65] fix: BitVecExt::set_push must extend far enough to hold
 the element it sets

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From b535063dd9bdabb0573e6a09fb5a5606fd461b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 03/65] fix: BitIter::len underflowed past the first element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From a90ae9717eb72ec74f020fbbc28950bfaa4ca151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 04/65] fix: growing subtraction returned a wrong magnitude for
 negative results

---
 crates/bits/src/algos/bitwise/sub.rs | 7 ++++---
 crates/bits/src/algos/element/sub.rs | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..1c6f92d 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement negation, to get the magnitude of the result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[Self::Bit::one()]);
         }
 
         (out, carry)
diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..ba9922c 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's complement negation, to get the magnitude of the result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[one]);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From 5ffbd21569b304d85e8a1bbb1c3ab3a6efcd2c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 05/65] fix: ElementShr::shr underflowed for shifts of one
 element or more

---
 crates/bits/src/algos/element/shr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..ceb8ae0 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
-- 
2.43.0


From 6196e690450cc9be07ac610a05fc96df9ad16227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 06/65] fix: in-place right shift by the full bit length
 underflowed

---
 crates/bits/src/algos/element/shr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index ceb8ae0..4a4ec95 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -63,7 +63,7 @@ pub trait ElementShr: BitSliceExt {
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = left.len() + 1 - arr_shift;
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From 689fef341dbd589b4590838e2c33eea62bcbcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 07/65] fix: wrapping shifts masked in-range amounts when the
 bit length is not a power of two

---
 crates/bits/src/algos/element/shl.rs | 4 +---
 crates/bits/src/algos/element/shr.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..765e316 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -82,8 +81,7 @@ pub trait ElementShl: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 4a4ec95..1003a86 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -83,8 +83,7 @@ pub trait ElementShr: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
 
-- 
2.43.0


From 8829bee02957ccd22b3c2ec0e2e85519727a3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 08/65] fix: BitwiseAdd::add_in_place indexed past the end of
 its operands

---
 crates/bits/src/algos/bitwise/add.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..fa41d4a 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -56,12 +56,12 @@ pub trait BitwiseAdd: BitSliceExt {
     where
         T: BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(left.bit_len(), right.bit_len());
+        let bit_len = left.bit_len();
 
         let mut carry = false;
-        for idx in 0..=bit_len {
+        for idx in 0..bit_len {
             let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
-- 
2.43.0


From 13993b692e7fcf9b54cd319bbacc1cecc7a8f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 09/65] fix: long division panicked when the divisor has more
 elements than the dividend

---
 crates/bits/src/algos/bitwise/div.rs | 10 +++++-----
 crates/bits/src/algos/element/div.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..d03ebac 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -19,7 +19,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(&mut remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(&remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(&mut remainder, div);
@@ -42,13 +42,13 @@ pub trait BitwiseDiv: BitSliceExt {
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
-                num.set_bit(idx, true);
+                num.set_bit_ignore(idx, true);
             } else {
-                num.set_bit(idx, false);
+                num.set_bit_ignore(idx, false);
             }
         }
 
@@ -97,7 +97,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From 3a6209f5b1ffdbb468180c14aa9333d69e63cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 10/65] fix: dividing a bit slice by zero returned garbage or
 never returned

---
 crates/bits/src/algos/bitwise/div.rs | 16 ++++++++++++++++
 crates/bits/src/algos/element/div.rs |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index d03ebac..5492655 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -4,6 +4,10 @@ use crate::bit_slice::BitSliceExt;
 use alloc::{vec, vec::Vec};
 use numeric_traits::identity::Zero;
 
+fn is_zero<T: ?Sized + BitSliceExt>(val: &T) -> bool {
+    val.slice().iter().all(|v| *v == T::Bit::zero())
+}
+
 pub trait BitwiseDiv: BitSliceExt {
     #[cfg(feature = "std")]
     /// Divide two slices, implemented as bitwise long division
@@ -11,6 +15,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let len = usize::max(num.len(), div.len());
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
@@ -39,6 +45,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +72,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +104,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +130,9 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..d4896ec 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,11 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            right.slice().iter().any(|v| *v != Self::Bit::zero()),
+            "attempt to divide by zero"
+        );
+
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From c11be7d060842bf0aa07aee2a946919f3946c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 11/65] fix: overflowing multiplication missed products
 entirely beyond the slice

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..429cfa8 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // Anything that doesn't land inside the slice is lost
+        let mut carry = idx >= slice.len() && val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From f30820b6f4d63a7c9eea1027d0a6c92cb7cf837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 12/65] fix: overflowing addition missed the non-zero high
 elements of a longer right-hand side

---
 crates/bits/src/algos/element/add.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..cf2f467 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -42,7 +42,7 @@ pub trait ElementAdd: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let len = usize::max(left.len(), right.len());
+        let len = left.len();
         let zero = Self::Bit::zero();
         let one = Self::Bit::one();
 
@@ -64,7 +64,9 @@ pub trait ElementAdd: BitSliceExt {
             left.set_ignore(idx, res);
         }
 
-        (left, carry)
+        let lost = right.slice().iter().skip(len).any(|r| *r != zero);
+
+        (left, carry || lost)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From 19e77d49ce9e26556e85d7022ec507c8a3843d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:03 +0000
Subject: [PATCH 13/65] fix: arr_to_int rejected zero high elements and let
 values run into the sign bit

---
 crates/bits/src/utils.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6aca128..1de139e 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -70,8 +70,17 @@ pub fn arr_to_int<
     let bit_len = size_of::<T>() * 8;
     let mut out = U::zero();
     for (idx, &i) in arr.iter().enumerate() {
+        if i == T::zero() {
+            continue;
+        }
         let t = U::from_checked(i)?;
-        out += t.checked_shl(idx * bit_len)?;
+        let shift = idx * bit_len;
+        let part = t.checked_shl(shift)?;
+        // A set bit shifted out, or into the sign bit, means the value doesn't fit
+        if part >> shift != t {
+            return None;
+        }
+        out += part;
     }
     Some(out)
 }
-- 
2.43.0


From f7917ff139631365e4bf82251b52f5a99e5d9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:50 +0000
Subject: [PATCH 14/65] fix: in-place right shift kept the old high bits of the
 top element

---
 crates/bits/src/algos/element/shr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 1003a86..cfffba9 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,9 +58,8 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
-
-                left.set_ignore(idx, low);
+                // The existing high bits belong to the unshifted value, don't keep them
+                left.set_ignore(idx, low & !elem_mask);
             }
         });
         let empty = left.len() + 1 - arr_shift;
-- 
2.43.0


From 81aafac62b5eba44610785746d9274ff97774fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 15/65] fix: WrappingAdd on the primitive integers subtracted

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From 552d3197843d13a1f0fbb34c25c0253001162902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 16/65] fix: is_one on the NonZero integers was true for every
 value

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From 3a09c1038224fc36e6c63d00b2ff7628b77775e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 17/65] fix: gcd of signed integers could be negative or
 overflow

---
 crates/traits/src/__impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..5e0b800 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -160,7 +160,12 @@ macro_rules! impl_int {
 
                 let [mut min, mut max] = minmax(self, rhs);
                 while min != 0 {
-                    (min, max) = (max % min, min);
+                    (min, max) = (max.wrapping_rem(min), min);
+                }
+                // The remainders carry the sign of their dividend
+                #[allow(unused_comparisons)]
+                if max < 0 {
+                    max = max.wrapping_neg();
                 }
                 max
             }
-- 
2.43.0


From 207f28e72b59d3f393b0957bab46733487957c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 18/65] fix: checked shifts on the primitive integers truncated
 the shift amount

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 5e0b800..18c9261 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
     };
@@ -271,7 +271,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -279,7 +279,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
 
-- 
2.43.0


From 8546668140239814a84f7af639a876f573591d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 19/65] fix: Pow on the primitive integers truncated the
 exponent

---
 crates/traits/src/__impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 18c9261..b9e7dd4 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -146,7 +146,10 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn pow(self, rhs: Self) -> Self::Output {
-                <$ty>::pow(self, rhs as u32)
+                // Beyond u32, only powers of 0, 1, and -1 are representable, and they only depend
+                // on the exponent being odd or even
+                let rhs = u32::try_from(rhs).unwrap_or(u32::MAX - 1 + (rhs & 1) as u32);
+                <$ty>::pow(self, rhs)
             }
         }
 
-- 
2.43.0


From 570443ad28508609f4ac64e08c220188b1ed9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 20/65] fix: is_positive on the primitive integers must include
 zero, as documented

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index b9e7dd4..4a5a3db 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -333,7 +333,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From 4a51c277df14df34c5ff661ff902e439843d1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 21/65] fix: saturating isize into a narrower signed integer
 truncated it

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 4a5a3db..8a9df94 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -868,8 +868,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -901,15 +901,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From e58134a51cdb6feb6063546307a52def7e8aecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 22/65] fix: converting U<N> into a narrower primitive indexed
 out of bounds

---
 crates/ints/src/u.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..9237027 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
-- 
2.43.0


From ed190adcb6a5193dcdf4a98d15063a206f26e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 23/65] fix: checked conversion of primitives into U<N>
 panicked or silently truncated

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 9237027..05c7535 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From 2b38cccaba92326c6985af1e85f6d3032c974a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 24/65] fix: U<N> zero to the power of zero is one, as for the
 primitives

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 05c7535..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From f104c840bfe1519bde91eee1d9ee104e0755a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 25/65] fix: I<N>::abs cleared the sign bit of a two's
 complement value

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..bd80f64 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From cf6de291e3d569d0e6ee120fd850b4434e7cb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 26/65] fix: I<N> remainder took its sign from both operands

---
 crates/ints/src/i.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index bd80f64..3b1eaea 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,8 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        // The remainder takes the sign of the dividend
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From 9ffc2ff73d1b85d0cf52f1ffe83b1f671d9a9bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 27/65] fix: I<N> compared values from the least significant
 byte

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index 3b1eaea..3e82b2a 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -217,7 +217,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From 3c4519e9e662d418f5d76a2c8bbf838471a2d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:06 +0000
Subject: [PATCH 28/65] fix: BigInt compared values of equal length from the
 least significant element

---
 crates/ints/src/big_int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..174c22b 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -380,8 +380,10 @@ impl Ord for BigInt {
             if this.len() != other.len() {
                 usize::cmp(&this.len(), &other.len())
             } else {
+                // Most significant element first
                 this.iter()
                     .zip(other.iter())
+                    .rev()
                     .find_map(|(l, r)| match l.cmp(r) {
                         Ordering::Equal => None,
                         other => Some(other),
-- 
2.43.0


From b4555d457a58043f0d0611a0692c1d93a472c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:06 +0000
Subject: [PATCH 29/65] fix: negating a BigInt zero produced a negative zero

---
 crates/ints/src/big_int.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 174c22b..22a5a5e 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -547,7 +547,10 @@ impl ops::Neg for BigInt {
     type Output = BigInt;
 
     fn neg(mut self) -> Self::Output {
-        self.0 = self.0.invert_neg();
+        // There is no negative zero
+        if !self.is_zero() {
+            self.0 = self.0.invert_neg();
+        }
         self
     }
 }
@@ -556,9 +559,7 @@ impl ops::Neg for &BigInt {
     type Output = BigInt;
 
     fn neg(self) -> Self::Output {
-        let mut out = self.clone();
-        out.0 = out.0.invert_neg();
-        out
+        -self.clone()
     }
 }
 
-- 
2.43.0


From 9b89d90997da1d43f84c559ec46b4788c685877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:06 +0000
Subject: [PATCH 30/65] fix: BigInt remainder took its sign from both operands

---
 crates/ints/src/big_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 22a5a5e..0c4725b 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -492,7 +492,8 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    // The remainder takes the sign of the dividend
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
-- 
2.43.0


From 8c01a9a25c63d5fa1614f428cc2d5b4b79420087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:06 +0000
Subject: [PATCH 31/65] fix: negative BigInts were written as -0

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 0c4725b..92c84a2 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -209,7 +209,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From ada70aaabbc89a0c991f267fbdf3b9007ad698a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:06 +0000
Subject: [PATCH 32/65] fix: BigInt could not be read from a string with a
 minus sign

---
 crates/ints/src/big_int.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 92c84a2..54725fe 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -663,12 +663,17 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        let (digits, neg) = match str.strip_prefix('-') {
+            Some("") => return Err(FromStrError::InvalidChar('-')),
+            Some(digits) => (digits, true),
+            None => (str, false),
+        };
         let mut out = BigInt::zero();
-        for digit in str.chars() {
+        for digit in digits.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From d0b68fbb70feadad862df8e120d9099a6603ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 33/65] fix: BigInt::approx_float dropped the sign and could
 return NaN

---
 crates/ints/src/big_int.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 54725fe..187c2db 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -8,7 +8,7 @@ use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt::{Binary, Debug, Display, LowerHex, UpperHex, Write};
 use core::hint::unreachable_unchecked;
-use core::{fmt, mem, num, ops};
+use core::{fmt, mem, ops};
 use numeric_bits::algos::{
     BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementNot,
     ElementShl, ElementShr, ElementSub,
@@ -246,18 +246,18 @@ impl BigInt {
     ///
     /// If the value is large, this may return [`f64::INFINITY`] or [`f64::NEG_INFINITY`].
     pub fn approx_float(&self) -> f64 {
+        // As a float, this rounds to exactly the number of values a usize can hold
         const USIZE_MAX: f64 = usize::MAX as f64;
-        self.with_slice(|vals| {
+        let out = self.with_slice(|vals| {
             vals.iter()
-                .copied()
-                .enumerate()
-                .try_fold(0., |acc, (idx, val)| {
-                    let val = val as f64;
-                    let idx = i32::try_from(idx)?;
-                    Ok::<_, num::TryFromIntError>(val.mul_add(USIZE_MAX.powi(idx), acc))
-                })
-                .unwrap_or(f64::INFINITY)
-        })
+                .rev()
+                .fold(0f64, |acc, &val| acc * USIZE_MAX + val as f64)
+        });
+        if self.is_negative() {
+            -out
+        } else {
+            out
+        }
     }
 }
 
-- 
2.43.0


From 26f5ed17d97ea5847a1f89d6ae0a4ebcf72ff0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 34/65] fix: comparing a BigInt with the minimum of a signed
 primitive overflowed

---
 crates/ints/src/big_int/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..862494f 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -164,10 +164,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
-- 
2.43.0


From 3a5b4c6202580ce313d14407ec7f82142322db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 35/65] fix: negative BigInts compared equal to unsigned
 primitives of the same magnitude

---
 crates/ints/src/big_int/macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 862494f..8e81b36 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -175,6 +175,10 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
+
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From 99d5ca3073fc3d40011673f09f9b37488a09cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 36/65] fix: converting a negative BigInt into a signed
 primitive lost its sign

---
 crates/ints/src/big_int/macros.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 8e81b36..dca055e 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,8 +88,14 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
-                        .ok_or_else(|| OutOfRangeError::above())
+                    let abs = bi
+                        .with_slice(|s| arr_to_int::<_, $unsigned>(s))
+                        .ok_or_else(|| OutOfRangeError::above())?;
+                    Ok(if bi.is_negative() {
+                        (abs as $signed).wrapping_neg()
+                    } else {
+                        abs as $signed
+                    })
                 }
             }
         }
-- 
2.43.0


From 2cbe39623efad71d57683eaa7e668ed4f8a3af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 37/65] fix: truncating a BigInt into a primitive saturated and
 dropped the sign

---
 crates/ints/src/big_int.rs        | 16 ++++++++++++++++
 crates/ints/src/big_int/macros.rs | 15 +++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 187c2db..b6502c2 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -228,6 +228,16 @@ impl BigInt {
         Ok(())
     }
 
+    /// The two's complement representation of this value, extended or truncated to `len` elements
+    fn to_twos_complement(&self, len: usize) -> Vec<usize> {
+        let mut out = self.with_slice(<[usize]>::to_vec);
+        out.resize(len, 0);
+        if self.is_negative() {
+            negate(&mut out);
+        }
+        out
+    }
+
     /// Check whether this value is stored inline
     #[must_use]
     #[inline]
@@ -425,6 +435,12 @@ const fn arr_size<T>() -> usize {
     (mem::size_of::<T>() / mem::size_of::<usize>()) + 1
 }
 
+/// Negate a value in two's complement
+fn negate(val: &mut [usize]) {
+    ElementNot::not(val);
+    ElementAdd::add_wrapping(val, &[1usize] as &[_]);
+}
+
 impl_for_int!(i8, u8);
 impl_for_int!(i16, u16);
 impl_for_int!(i32, u32);
diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index dca055e..988d2aa 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -119,15 +119,22 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                let elems = val.to_twos_complement(arr_size::<$unsigned>());
+                let mut out: $unsigned = 0;
+                for (idx, elem) in elems.into_iter().enumerate() {
+                    let shift = idx * usize::BITS as usize;
+                    if shift < <$unsigned>::BITS as usize {
+                        out |= (elem as $unsigned) << shift;
+                    }
+                }
+                out
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                <$unsigned as numeric_traits::cast::FromTruncating<BigInt>>::truncate_from(val)
+                    as $signed
             }
         }
 
-- 
2.43.0


From 515df8e5a9a2abb69a1982cfbd7ea89c75f7e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:23 +0000
Subject: [PATCH 38/65] fix: bitwise operations on BigInt treat values as two's
 complement

The results depended on the order of the operands and on how many elements the values happened to
be stored in.
---
 crates/ints/src/big_int.rs | 41 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index b6502c2..6c5a21e 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -238,6 +238,22 @@ impl BigInt {
         out
     }
 
+    /// The two's complement representations of two values, with room for the sign of both
+    fn twos_complements(left: &BigInt, right: &BigInt) -> (Vec<usize>, Vec<usize>) {
+        let len = Self::with_slices(left, right, |left, right| {
+            usize::max(left.len(), right.len()) + 1
+        });
+        (left.to_twos_complement(len), right.to_twos_complement(len))
+    }
+
+    fn from_twos_complement(mut val: Vec<usize>) -> BigInt {
+        let neg = val.get_bit(val.bit_len() - 1);
+        if neg {
+            negate(&mut val);
+        }
+        BigInt::new_slice(val, neg)
+    }
+
     /// Check whether this value is stored inline
     #[must_use]
     #[inline]
@@ -527,36 +543,25 @@ impl_op!(shr(self, rhs) => {
 });
 
 impl_op!(bitand(self, rhs) => {
-    let out = BigInt::with_slices(self, rhs, |this, other| {
-        ElementBitand::bitand(this, other)
-    });
-    BigInt::new_slice(out, self.is_negative())
+    let (this, other) = BigInt::twos_complements(self, rhs);
+    BigInt::from_twos_complement(ElementBitand::bitand(&this, &other))
 });
 
 impl_op!(bitor(self, rhs) => {
-    let out = BigInt::with_slices(self, rhs, |this, other| {
-        ElementBitor::bitor(this, other)
-    });
-    BigInt::new_slice(out, self.is_negative())
+    let (this, other) = BigInt::twos_complements(self, rhs);
+    BigInt::from_twos_complement(ElementBitor::bitor(&this, &other))
 });
 
 impl_op!(bitxor(self, rhs) => {
-    let out = BigInt::with_slices(self, rhs, |this, other| {
-        ElementBitxor::bitxor(this, other)
-    });
-    BigInt::new_slice(out, self.is_negative())
+    let (this, other) = BigInt::twos_complements(self, rhs);
+    BigInt::from_twos_complement(ElementBitxor::bitxor(&this, &other))
 });
 
 impl ops::Not for BigInt {
     type Output = BigInt;
 
     fn not(self) -> Self::Output {
-        let out = BigInt::with_slice(&self, |slice| {
-            let mut out = slice.to_vec();
-            ElementNot::not(&mut out);
-            out
-        });
-        BigInt::new_slice(out, self.is_negative())
+        -(self + BigInt::one())
     }
 }
 
-- 
2.43.0


From c6b89a5daa748142d9b6be6e1329e873be40c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:23 +0000
Subject: [PATCH 39/65] fix: shifting a negative BigInt right rounded towards
 zero

---
 crates/ints/src/big_int.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 6c5a21e..a79e690 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -536,6 +536,10 @@ impl_op!(shl(self, rhs) => {
 });
 
 impl_op!(shr(self, rhs) => {
+    if self.is_negative() {
+        // Round towards negative infinity, as the primitives do
+        return !(!self.clone() >> rhs);
+    }
     let out = BigInt::with_slices(self, rhs, |this, _| {
         ElementShr::shr(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
     });
-- 
2.43.0


From 4678ac88fdc88e2112ee558966b70c54d36c7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:23 +0000
Subject: [PATCH 40/65] fix: BigInt to a negative power returned the base

---
 crates/ints/src/big_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index a79e690..fbb630e 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -742,6 +742,7 @@ impl Pow<BigInt> for BigInt {
     type Output = BigInt;
 
     fn pow(self, rhs: BigInt) -> Self::Output {
+        assert!(!rhs.is_negative(), "BigInt exponent must not be negative");
         if rhs == 0 {
             BigInt::from(1)
         } else {
-- 
2.43.0


From c9d35f8c88a6355534d52d87cc1d7a7afed69971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 41/65] fix: interning a value again could ignore its live slot
 for an earlier dead one

---
 crates/utils/src/intern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..d8b9aa0 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -94,6 +94,7 @@ where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
+        let mut dead = None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
@@ -101,12 +102,13 @@ where
                 let count = i.refs.load(Ordering::Acquire);
                 if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
+                } else if count == 0 && dead.is_none() {
+                    // Keep looking, a later slot may still hold the value
+                    dead = Some((idx, idx2));
                 }
             }
         }
-        Find::None
+        dead.map_or(Find::None, Find::Dead)
     }
 
     #[inline]
-- 
2.43.0


From 94f6e91bb9524580eaf72f707dad2d34dea571b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:37 +0000
Subject: [PATCH 42/65] fix: adding to an interner from several threads could
 hand two values the same slot

---
 crates/utils/src/intern.rs | 50 ++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index d8b9aa0..49f87eb 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,7 +1,8 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
+use core::hint;
 use core::mem;
-use core::sync::atomic::{AtomicUsize, Ordering};
+use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
@@ -65,9 +66,31 @@ impl InternId {
     }
 }
 
+/// Guard for the section of adding an item in which no other thread may pick or write a slot
+struct AddGuard<'a>(&'a AtomicBool);
+
+impl<'a> AddGuard<'a> {
+    fn lock(adding: &'a AtomicBool) -> AddGuard<'a> {
+        while adding
+            .compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed)
+            .is_err()
+        {
+            hint::spin_loop();
+        }
+        AddGuard(adding)
+    }
+}
+
+impl Drop for AddGuard<'_> {
+    fn drop(&mut self) {
+        self.0.store(false, Ordering::Release);
+    }
+}
+
 /// An optimized container that supports cross-thread, lock-free-ish
 pub struct Interner<T> {
     inner: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>,
+    adding: AtomicBool,
 }
 
 impl<T> Interner<T>
@@ -78,6 +101,7 @@ where
     pub const fn new() -> Interner<T> {
         Interner {
             inner: UnsyncLinked::new(),
+            adding: AtomicBool::new(false),
         }
     }
 
@@ -86,7 +110,10 @@ where
         for _ in 0..((capacity + CHUNK_SIZE - 1) / 32) {
             list.push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
         }
-        Interner { inner: list }
+        Interner {
+            inner: list,
+            adding: AtomicBool::new(false),
+        }
     }
 
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
@@ -139,32 +166,28 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
+        // Finding a slot and filling it must be one step, or two threads may fill the same one
+        let _guard = AddGuard::lock(&self.adding);
         let find = Self::find(&self.inner, val.borrow());
         InternId::from_usize(match find {
             Find::Exists((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
             Find::Dead((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
-                // SAFETY: Slot is dead, we're making it live, we are the only ones with access
+                // SAFETY: Slot is dead, and only made live under the lock, so we are the only ones
+                //         with access
                 unsafe { self.inner[loc1][loc2].set_val(val.into()) };
+                Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
             Find::None => {
                 let len = self
                     .inner
                     .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
-                Self::incr_inner(&self.inner[len - 1][0]);
                 // SAFETY: Slot is empty, we're making it live, we are the only ones with access
                 unsafe { self.inner[len - 1][0].set_val(val.into()) };
+                Self::incr_inner(&self.inner[len - 1][0]);
                 (len - 1) * 32
             }
         })
@@ -173,7 +196,8 @@ where
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
-        if slot.refs.load(Ordering::Relaxed) == 0 {
+        // Pairs with the increment that made the slot live
+        if slot.refs.load(Ordering::Acquire) == 0 {
             None
         } else {
             Some(slot.val())
-- 
2.43.0


From 2ae2b6490f6f69645486d667078a254b3f18fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 43/65] fix: Fixed multiplication scaled its result by 2^N

---
 crates/reals/src/fixed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..07b4d81 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,8 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        // Both factors carry N fractional bits, the product should only carry them once
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
-- 
2.43.0


From cd6ba2083748e21f377dde6fe0bd5d2dd35ac151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 44/65] fix: Fixed division dropped the fractional bits of its
 result

---
 crates/reals/src/fixed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 07b4d81..dc4467d 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -142,7 +142,8 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        // The scale of both operands cancels out, so add it back
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From 040d7b63c63f44a47e53a0eb329104cc4fe0b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 45/65] fix: Fixed::round rounded negatives and large
 precisions to the wrong neighbour

---
 crates/reals/src/fixed.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index dc4467d..e9d3081 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -244,14 +244,10 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     }
 
     fn round(self) -> Self {
-        let half = Self::one() / (Self::one() + Self::one());
-        let f = self.clone().fract();
-        let f = if f >= Self::zero() {
-            f
-        } else {
-            Self::one() - f
-        };
-        if f > half {
+        // Distance from the next lower and the next higher whole number
+        let above = self.clone() - self.clone().floor();
+        let below = Self::one() - above.clone();
+        if above > below {
             self.ceil()
         } else {
             self.floor()
-- 
2.43.0


From 8e7e85e3a71c5f5350d1b339dae09814bc5862b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 46/65] fix: Debug of Fixed overflowed, lost leading zeros and
 printed nothing for negatives

---
 crates/reals/src/fixed.rs | 50 ++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index e9d3081..8bb5f87 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -49,31 +49,37 @@ where
 {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         extern crate alloc;
-        use alloc::string::String;
-
-        let two = T::truncate_from(2);
-        let ten = T::truncate_from(10);
-        // TODO: This can overflow. Find a non-overflowing method
-        //       Maybe shift, print upper, then do this to the fractional part
-        let mut whole =
-            self.0.clone() * ten.clone().pow(T::truncate_from(N)) / two.pow(T::truncate_from(N));
-        let mut idx = 0;
-
-        let mut buf = String::new();
-        while whole > T::zero() {
-            let digit = whole.clone() % ten.clone();
-            if idx == N {
-                write!(buf, ".")?;
+        use alloc::vec::Vec;
+
+        let one = T::one() << N;
+        let whole = self.0.clone() / one.clone();
+        let mut fract = self.0.clone() % one;
+
+        if !whole.is_zero() {
+            write!(f, "{whole:?}")?;
+        } else if self.0 < T::zero() {
+            f.write_char('-')?;
+        }
+        f.write_char('.')?;
+
+        if fract < T::zero() {
+            fract = T::zero() - fract;
+        }
+        // N bits of precision take exactly N decimal digits. Working on the digits from the lowest
+        // bit upwards, adding each bit before the point and halving, can't overflow.
+        let mut digits = Vec::with_capacity(N);
+        for idx in 0..N {
+            let mut carry = u8::from(!((fract.clone() >> idx) & T::one()).is_zero());
+            for digit in &mut digits {
+                let val = carry * 10 + *digit;
+                *digit = val / 2;
+                carry = val % 2;
             }
-            write!(buf, "{digit:?}")?;
-            whole = whole / ten.clone();
-            idx += 1;
+            digits.push(carry * 5);
         }
-        if idx == N {
-            write!(buf, ".")?;
+        for digit in digits {
+            f.write_char(char::from(b'0' + digit))?;
         }
-        buf = buf.chars().rev().collect::<String>();
-        f.write_str(&buf)?;
 
         Ok(())
     }
-- 
2.43.0


From 058698e2464f42418520530f02b1644478021fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 47/65] fix: Binary of Fixed printed an unshifted whole part
 and dropped leading fractional zeros

---
 crates/reals/src/fixed.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 8bb5f87..0f2d24f 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -92,9 +92,10 @@ where
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:b}.{:b}",
-            self.clone().trunc().0,
-            self.clone().fract().0
+            "{:b}.{:0width$b}",
+            self.clone().trunc().0 >> N,
+            self.clone().fract().0,
+            width = N
         )
     }
 }
-- 
2.43.0


From 86d9c4b9f99a2753dc52e1a0c4e1ba63f2a4ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 48/65] fix: Rat did not reduce fractions with one part a
 multiple of the other

---
 crates/reals/src/rat.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..2eeee71 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,11 +54,6 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
-- 
2.43.0


From 264933874d6f42d62c30311c48586bddb3ba6723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 49/65] fix: Rat kept negative denominators, so equal values
 differed and signs were wrong

---
 crates/reals/src/rat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 2eeee71..ca278e2 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -55,6 +55,12 @@ impl<T: Integral> Rat<T> {
         if num == T::zero() {
             Rat::zero()
         } else {
+            // Only the numerator carries the sign
+            let (num, denom) = if denom < T::zero() {
+                (T::zero() - num, T::zero() - denom)
+            } else {
+                (num, denom)
+            };
             let gcd = num.clone().gcd(denom.clone());
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
         }
-- 
2.43.0


From c65b6ef0823b6ba1fdbc0c8f990cd19da8a86e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 50/65] fix: Rat::floor and ceil were wrong for whole numbers
 and negative fractions

---
 crates/reals/src/rat.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index ca278e2..e614e81 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -233,12 +233,17 @@ impl<T: Integral + Gcd<Output = T>> Numeric for Rat<T> {}
 impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     fn floor(self) -> Self {
         let diff = self.num.clone() % self.denom.clone();
-        Rat::new((self.num - diff) / self.denom, T::one()).unwrap()
+        let div = self.num / self.denom;
+        // Integer division rounds towards zero, which is up for negatives
+        let div = if diff < T::zero() { div - T::one() } else { div };
+        Rat::new(div, T::one()).unwrap()
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
-        Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
+        let diff = self.num.clone() % self.denom.clone();
+        let div = self.num / self.denom;
+        let div = if diff > T::zero() { div + T::one() } else { div };
+        Rat::new(div, T::one()).unwrap()
     }
 
     fn round(self) -> Self {
-- 
2.43.0


From a4543dea66b758c801ea9a5236e814a4a1aecf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:47 +0000
Subject: [PATCH 51/65] fix: Rat::round rounded negative fractions towards zero

---
 crates/reals/src/rat.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index e614e81..f441705 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -247,19 +247,19 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn round(self) -> Self {
-        let two = T::one() + T::one();
         let diff = self.num.clone() % self.denom.clone();
-        // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
-            T::one()
+        let above = if diff < T::zero() {
+            diff + self.denom.clone()
         } else {
-            T::zero()
+            diff
         };
-        // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
-        let div = self.num / self.denom;
-        // Floor div, add one if we should round up
-        Rat::new(div + add, T::one()).unwrap()
+        let below = self.denom.clone() - above.clone();
+        // Check if the value is closer to the next higher whole number
+        if above > below {
+            self.ceil()
+        } else {
+            self.floor()
+        }
     }
 
     fn trunc(self) -> Self {
-- 
2.43.0


From 52abc67719de1d6802e6d816f73ddfa7ce5fdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:58 +0000
Subject: [PATCH 52/65] fix: row reduction of non-square matrices mixed up rows
 and columns

---
 crates/compounds/src/matrix/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/macros.rs b/crates/compounds/src/matrix/macros.rs
index d8c6f97..a01d1be 100644
--- a/crates/compounds/src/matrix/macros.rs
+++ b/crates/compounds/src/matrix/macros.rs
@@ -1,5 +1,5 @@
 macro_rules! gauss_elim {
-    ($self:ident, $cols:expr, $rows:expr, $data:expr) => {
+    ($self:ident, $rows:expr, $cols:expr, $data:expr) => {
         /// Uses Gaussian Elimination to put the matrix in triangular row-echelon form,
         /// and returns the new matrix and the product of the scalars by which the determinant was
         /// multiplied to produce the result.
-- 
2.43.0


From 203b42e8b2fc48f454bee0b638ab61f144f6637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:58 +0000
Subject: [PATCH 53/65] fix: reading one row or column past a matrix view was
 out of bounds

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From b50afb3be1d7a6292b2932be7e09d3fbe3b0cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:58 +0000
Subject: [PATCH 54/65] fix: DynMatrix accepted dimensions whose product
 overflows

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..a4b9bfc 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -13,10 +13,9 @@ pub struct DynMatrix<T> {
 impl<T> DynMatrix<T> {
     pub fn new(data: Vec<T>, rows: usize, cols: usize) -> DynMatrix<T> {
         assert_eq!(
-            data.len(),
-            rows * cols,
-            "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
-            rows * cols,
+            Some(data.len()),
+            rows.checked_mul(cols),
+            "Invalid data length for DynMatrix. Expected length for {} by {}, got {}",
             rows,
             cols,
             data.len(),
-- 
2.43.0


From c73bdd26d343409ce74788ea7fde7419a10391b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:58 +0000
Subject: [PATCH 55/65] fix: DynMatrix indexed past the last column into the
 next row

---
 crates/compounds/src/matrix/dynamic.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index a4b9bfc..54e7a21 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -68,12 +68,28 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &self.data[index.0 * self.cols + index.1]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &mut self.data[index.0 * self.cols + index.1]
     }
 }
-- 
2.43.0


From cf3d89e6b85322f7d7fd05750224413fa084009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:58 +0000
Subject: [PATCH 56/65] fix: dividing a Complex by a real overflowed in the
 square of the divisor

---
 crates/compounds/src/complex.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/compounds/src/complex.rs b/crates/compounds/src/complex.rs
index 26d354e..790fafc 100644
--- a/crates/compounds/src/complex.rs
+++ b/crates/compounds/src/complex.rs
@@ -143,11 +143,7 @@ where
     type Output = Complex<T>;
 
     fn div(self, rhs: T) -> Self::Output {
-        let divisor = rhs.clone() * rhs.clone();
-        Complex::new(
-            (self.real.clone() * rhs.clone()) / divisor.clone(),
-            (self.imag * rhs) / divisor,
-        )
+        Complex::new(self.real / rhs.clone(), self.imag / rhs)
     }
 }
 
-- 
2.43.0


From 21582e665c48c368167101b3cb8b047835584d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:32 +0000
Subject: [PATCH 57/65] fix: cbrt of f32 and f64 was NaN for negative numbers

---
 crates/traits/src/__impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8a9df94..c789740 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -422,6 +422,10 @@ macro_rules! impl_float {
             fn sqrt(self) -> Self {
                 <$ty>::sqrt(self)
             }
+
+            fn cbrt(self) -> Self {
+                <$ty>::cbrt(self)
+            }
         }
 
         impl crate::class::RealSigned for $ty {}
-- 
2.43.0


From d52b399a42ca40b76c0ea1efb3427044200bd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:00 +0000
Subject: [PATCH 58/65] fix: shrinking a slice without elements panicked

---
 crates/bits/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 1de139e..29ff3ae 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -11,7 +11,7 @@ pub trait IntSlice<T>: Deref<Target = [T]> {
 impl<T: Integral + Copy> IntSlice<T> for &[T] {
     fn shrink(self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        &self[..=idx]
+        &self[..usize::min(idx + 1, self.len())]
     }
 }
 
@@ -19,7 +19,7 @@ impl<T: Integral + Copy> IntSlice<T> for &[T] {
 impl<T: Integral + Copy> IntSlice<T> for alloc::vec::Vec<T> {
     fn shrink(mut self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        self.drain(idx + 1..);
+        self.drain(usize::min(idx + 1, self.len())..);
         self
     }
 }
-- 
2.43.0


From 11733d939930b06b3e4df4869b8da25a30990e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:00 +0000
Subject: [PATCH 59/65] fix: wrapping shifts of a slice without elements
 divided by zero

---
 crates/bits/src/algos/element/shl.rs | 2 +-
 crates/bits/src/algos/element/shr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 765e316..305a62e 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -80,7 +80,7 @@ pub trait ElementShl: BitSliceExt {
     /// Shift a slice left by `usize` items, implemented as a series of shifts and masks, masking
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
-        let bit_len = left.bit_len();
+        let bit_len = usize::max(left.bit_len(), 1);
         Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index cfffba9..51cf152 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -81,7 +81,7 @@ pub trait ElementShr: BitSliceExt {
     /// Shift a slice left by `usize` items, implemented as a series of shifts and masks, masking
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
-        let bit_len = left.bit_len();
+        let bit_len = usize::max(left.bit_len(), 1);
         Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
-- 
2.43.0


From f742cc1a5df65cd97db91ffc8af264be79d77cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:18 +0000
Subject: [PATCH 60/65] fix: DynMatrix::swap_rows accepted rows that do not
 exist

---
 crates/compounds/src/matrix/dynamic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 54e7a21..6929bfd 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -41,6 +41,14 @@ impl<T> DynMatrix<T> {
     }
 
     pub fn swap_rows(&mut self, a: usize, b: usize) {
+        assert!(
+            a < self.rows && b < self.rows,
+            "Row out of range for matrix of size {}x{}: {}, {}",
+            self.rows,
+            self.cols,
+            a,
+            b
+        );
         if a == b {
             return;
         }
-- 
2.43.0


From 060c733d6f13be8d5a51054d939c58e7a55dc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:21 +0000
Subject: [PATCH 61/65] fix: negating the posit zero gave NaR

---
 crates/reals/src/p.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/p.rs b/crates/reals/src/p.rs
index ab77a41..1c1f99b 100644
--- a/crates/reals/src/p.rs
+++ b/crates/reals/src/p.rs
@@ -58,7 +58,13 @@ impl<const N: usize> Neg for P<N> {
     type Output = P<N>;
 
     fn neg(mut self) -> Self::Output {
-        self.0[0] ^= 1;
+        // Two's complement, which keeps zero and NaR. The sign is the lowest bit of the first byte
+        let mut carry = true;
+        for b in self.0.iter_mut().rev() {
+            let (v, c) = (!*b).reverse_bits().overflowing_add(u8::from(carry));
+            *b = v.reverse_bits();
+            carry = c;
+        }
         self
     }
 }
-- 
2.43.0


From 8375bb5c4a8a1c8e35a8630811404defd177f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:25 +0000
Subject: [PATCH 62/65] fix: shifting a U<N> by a U<N> beyond usize panicked
 without debug assertions

---
 crates/ints/src/u.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index c36a40b..d4a34e6 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -91,6 +91,19 @@ impl<const N: usize> U<N> {
         }
     }
 
+    /// This value as the number of bits to shift by. Amounts greater than the maximum `usize` are
+    /// beyond any width, so they're rejected or masked just like other out of range shifts.
+    fn shift_amount(self) -> usize {
+        let val = usize::from_checked(self);
+        #[cfg(debug_assertions)]
+        return val.unwrap();
+        #[cfg(not(debug_assertions))]
+        val.unwrap_or_else(|| {
+            let bits: U<N> = (N * 8).into_checked().unwrap();
+            usize::truncate_from(self % bits)
+        })
+    }
+
     fn write_base<W: fmt::Write>(&self, base: usize, w: &mut W, chars: &[char]) -> fmt::Result {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
@@ -350,7 +363,7 @@ impl<const N: usize> Shl for U<N> {
     type Output = Self;
 
     fn shl(mut self, rhs: Self) -> Self::Output {
-        let val: usize = usize::from_checked(rhs).unwrap();
+        let val: usize = rhs.shift_amount();
         #[cfg(debug_assertions)]
         ElementShl::shl_checked(&mut self.0, val).unwrap();
         #[cfg(not(debug_assertions))]
@@ -363,7 +376,7 @@ impl<const N: usize> Shr for U<N> {
     type Output = Self;
 
     fn shr(mut self, rhs: Self) -> Self::Output {
-        let val: usize = usize::from_checked(rhs).unwrap();
+        let val: usize = rhs.shift_amount();
         #[cfg(debug_assertions)]
         ElementShr::shr_checked(&mut self.0, val).unwrap();
         #[cfg(not(debug_assertions))]
-- 
2.43.0


From 529d85033a221f7d1158aef64dbae23e08e8014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:42 +0000
Subject: [PATCH 63/65] fix: U<N>::pow panicked for exponents beyond usize
 without debug assertions, and took time in proportion to the exponent

---
 crates/ints/src/u.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index d4a34e6..f389958 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -6,7 +6,7 @@ use alloc::vec::Vec;
 use core::cmp::Ordering;
 use core::iter::Product;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Not, Rem, Shl, Shr, Sub};
-use core::{array, fmt, iter};
+use core::{array, fmt};
 use numeric_bits::algos::{BitwiseDiv, ElementCmp};
 use numeric_bits::algos::{ElementAdd, ElementMul, ElementShl, ElementShr, ElementSub};
 use numeric_bits::utils::const_reverse;
@@ -443,15 +443,21 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if rhs.is_zero() {
-            Self::one()
-        } else if self.is_zero() || self.is_one() {
-            self
-        } else {
-            // Any value greater than N will definitely overflow, and N is capped by usize
-            let val: usize = usize::from_checked(rhs).unwrap();
-            iter::repeat_n(self, val).product()
+        // Square and multiply, as the exponent may be any value of the type. Every square computed
+        // is a factor of the result, so none overflows unless the result does
+        let mut base = self;
+        let mut exp = rhs;
+        let mut out = Self::one();
+        while !exp.is_zero() {
+            if exp.0[0] & 1 == 1 {
+                out = out * base;
+            }
+            exp = exp >> 1usize;
+            if !exp.is_zero() {
+                base = base * base;
+            }
         }
+        out
     }
 }
 
-- 
2.43.0


From 124302d45f0b85d78055b66ad35cc7bd1b4c2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 64/65] fix: BigInt right shifts by amounts beyond usize and
 left shifts of zero by huge amounts failed

---
 crates/ints/src/big_int.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index fbb630e..ddabdf9 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -529,6 +529,9 @@ impl_op!(rem(self, rhs) => {
 });
 
 impl_op!(shl(self, rhs) => {
+    if self.is_zero() && !rhs.is_negative() {
+        return BigInt::from(0);
+    }
     let out = BigInt::with_slices(self, rhs, |this, _| {
         ElementShl::shl(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
     });
@@ -540,8 +543,10 @@ impl_op!(shr(self, rhs) => {
         // Round towards negative infinity, as the primitives do
         return !(!self.clone() >> rhs);
     }
+    assert!(!rhs.is_negative(), "BigInt shift amount must not be negative");
     let out = BigInt::with_slices(self, rhs, |this, _| {
-        ElementShr::shr(this, usize::try_from(rhs).expect("Shifts larger than a usize are not yet supported"))
+        // An amount larger than a usize leaves nothing, just like the largest usize does
+        ElementShr::shr(this, usize::try_from(rhs).unwrap_or(usize::MAX))
     });
     BigInt::new_slice(out, self.is_negative())
 });
-- 
2.43.0


From 4cd026b35192aa4e42fdac07797dd3b7d2a93e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:35 +0000
Subject: [PATCH 65/65] fix: BigInt::pow took time in proportion to the
 exponent, so powers of 0, 1 and -1 never came back

---
 crates/ints/src/big_int.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index ddabdf9..aae6420 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -748,17 +748,20 @@ impl Pow<BigInt> for BigInt {
 
     fn pow(self, rhs: BigInt) -> Self::Output {
         assert!(!rhs.is_negative(), "BigInt exponent must not be negative");
-        if rhs == 0 {
-            BigInt::from(1)
-        } else {
-            let mut rhs = rhs;
-            let mut out = self.clone();
-            while rhs > 1 {
-                out *= self.clone();
-                rhs -= 1;
+        // Square and multiply, as the exponent may be of any size: it's no limit for 0, 1 and -1
+        let mut base = self;
+        let mut rhs = rhs;
+        let mut out = BigInt::from(1);
+        while rhs > 0 {
+            if &rhs & BigInt::from(1) == 1 {
+                out *= base.clone();
+            }
+            rhs = rhs >> 1;
+            if rhs > 0 {
+                base *= base.clone();
             }
-            out
         }
+        out
     }
 }
 
-- 
2.43.0

