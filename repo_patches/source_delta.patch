From 201323ad80b280b82016977f15c2b60db81456c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 01/26] fix: LazyCell must not borrow mutably once its value is
 computed

Reading a second handle while a Ref from the first was alive panicked with
'already mutably borrowed', because force() always took the mutable borrow.
---
 src/util/lazy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..aaa0543 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,11 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        // Never take the mutable borrow once the value is there: another handle
+        // may still be reading it.
+        if let Forced(_) = *self.cell.borrow() {
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0


From 8481b648defd75241cfb9837307af68b16063567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 02/26] fix: alloc_from_nat must report all limb values or none

A back-end that evaluates only some of the limb closures left a shorter
limb_values vector behind, so that later gadgets indexed out of bounds.
---
 src/mp/bignat.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..ec2759c 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -221,7 +221,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .map_err(Rc::new)
         });
         let mut value = None;
-        let mut limb_values = Vec::new();
+        let mut limb_values = None;
         let limbs = (0..n_limbs)
             .map(|limb_i| {
                 cs.alloc(
@@ -231,7 +231,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                             if value.is_none() {
                                 value = Some(v.clone());
                             }
-                            limb_values.push(vs[limb_i]);
+                            if limb_values.is_none() {
+                                limb_values = Some(vs.clone());
+                            }
                             Ok(vs[limb_i])
                         }
                         // Hack b/c SynthesisError and io::Error don't implement Clone
@@ -246,11 +248,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             .collect::<Result<Vec<_>, _>>()?;
         Ok(Self {
             value,
-            limb_values: if limb_values.len() > 0 {
-                Some(limb_values)
-            } else {
-                None
-            },
+            limb_values,
             limbs,
             params: BigNatParams::new(limb_width, n_limbs),
         })
-- 
2.43.0


From 968fe47bcd8e33e3a49009db8d0e4b8a36cc7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 03/26] fix: concat has limb values only when both halves have
 them

With the high half's witness missing, the result carried only the low half's
limb values and later gadgets indexed out of bounds.
---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index ec2759c..9a4174e 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -645,11 +645,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         };
         let mut limbs = other.limbs.clone();
         limbs.extend(self.limbs.iter().cloned());
-        let mut limb_values = other.limb_values.clone();
-        limb_values.as_mut().map(|x| {
+        let limb_values = other.limb_values.as_ref().and_then(|x| {
             self.limb_values
                 .as_ref()
-                .map(|y| x.extend(y.iter().cloned()))
+                .map(|y| x.iter().chain(y.iter()).cloned().collect())
         });
         let value = self.value.clone().and_then(|sv| {
             other
-- 
2.43.0


From 460003f0b18eea76b2eb35309786dad216b57504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 04/26] fix: equality gadgets report a missing witness instead
 of panicking

---
 src/mp/bignat.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 9a4174e..7cd24c4 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -367,8 +367,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let r = AllocatedBit::alloc(cs.namespace(|| "r"), r_value)?;
 
         let delta = AllocatedNum::alloc(cs.namespace(|| "delta"), || {
-            let a_value = a.get_value().unwrap();
-            let b_value = b.get_value().unwrap();
+            let a_value = *a.get_value().grab()?;
+            let b_value = *b.get_value().grab()?;
 
             let mut delta = a_value;
             delta.sub_assign(&b_value);
@@ -385,7 +385,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         );
 
         let delta_inv = AllocatedNum::alloc(cs.namespace(|| "delta_inv"), || {
-            let delta = delta.get_value().unwrap();
+            let delta = *delta.get_value().grab()?;
 
             if delta.is_zero().unwrap_u8() == 1 {
                 Ok(Scalar::ONE) // we can return any number here, it doesn't matter
@@ -399,8 +399,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         // If `delta` is zero (a == b), `t` cannot equal 1
 
         let t = AllocatedNum::alloc(cs.namespace(|| "t"), || {
-            let mut tmp = delta.get_value().unwrap();
-            tmp.mul_assign(&(delta_inv.get_value().unwrap()));
+            let mut tmp = *delta.get_value().grab()?;
+            tmp.mul_assign(delta_inv.get_value().grab()?);
 
             Ok(tmp)
         })?;
@@ -727,7 +727,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
                 Ok(nat_to_f(
                     &((f_to_nat(&self.limb_values.grab()?[i])
-                        + f_to_nat(&carry_in.value.unwrap())
+                        + f_to_nat(carry_in.value.grab()?)
                         + max_word
                         - f_to_nat(&other.limb_values.grab()?[i]))
                         / &target_base),
-- 
2.43.0


From cb974ad8514f0415f27f2961d1a74c5c9e267132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 05/26] fix: a limb beyond its stated bound must not panic the
 carry witness

When other's limb exceeds max_word the carry is negative and has no field
element; report Unsatisfiable instead of unwrapping None.
---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 7cd24c4..61e745e 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -725,14 +725,14 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
         for i in 0..n {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
-                Ok(nat_to_f(
+                nat_to_f(
                     &((f_to_nat(&self.limb_values.grab()?[i])
                         + f_to_nat(carry_in.value.grab()?)
                         + max_word
                         - f_to_nat(&other.limb_values.grab()?[i]))
                         / &target_base),
                 )
-                .unwrap())
+                .ok_or(SynthesisError::Unsatisfiable)
             })?;
             accumulated_extra += max_word;
 
-- 
2.43.0


From 56b0d04679e62243d9804e3847eb6f725674ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:23 +0000
Subject: [PATCH 06/26] fix: nat_to_limbs refuses negative integers

A negative integer was encoded as the limbs of its two's complement, so a
BigNat could carry a negative value with unrelated limbs.
---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 61e745e..5e97776 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -3,7 +3,7 @@ use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
-use num_bigint::BigInt;
+use num_bigint::{BigInt, Sign};
 use num_integer::Integer;
 use num_traits::cast::ToPrimitive;
 
@@ -51,7 +51,7 @@ pub fn nat_to_limbs<'a, Scalar: PrimeField>(
 ) -> Result<Vec<Scalar>, SynthesisError> {
     let mask = int_with_n_ones(limb_width);
     let mut nat = nat.clone();
-    if nat.bits() as usize <= n_limbs * limb_width {
+    if nat.sign() != Sign::Minus && nat.bits() as usize <= n_limbs * limb_width {
         Ok((0..n_limbs)
             .map(|_| {
                 let r = BigInt::from(&nat & &mask);
-- 
2.43.0


From e039ef482bb80577ec9c7098d96a497cfc2ed255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 07/26] fix: a zero modulus or divisor is an error, not a panic

---
 src/mp/bignat.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 5e97776..57e8f2e 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,7 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::{BigInt, Sign};
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
+use num_traits::{cast::ToPrimitive, Zero};
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -42,6 +42,16 @@ fn int_with_n_ones(n: usize) -> BigInt {
     m
 }
 
+/// A modulus or divisor, which must not be zero.
+fn nonzero(n: &BigInt) -> Result<&BigInt, SynthesisError> {
+    if n.is_zero() {
+        eprintln!("Division by zero");
+        Err(SynthesisError::DivisionByZero)
+    } else {
+        Ok(n)
+    }
+}
+
 /// Compute the limbs encoding a natural number.
 /// The limbs are assumed to be based the `limb_width` power of 2.
 pub fn nat_to_limbs<'a, Scalar: PrimeField>(
@@ -814,7 +824,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let factor = BigNat::alloc_from_nat(
             cs.namespace(|| "product"),
             || {
-                let s = self.value.grab()?;
+                let s = nonzero(self.value.grab()?)?;
                 let o = other.value.grab()?;
                 if o.is_multiple_of(&s) {
                     Ok(BigInt::from(o / s))
@@ -1020,7 +1030,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 Ok({
                     let mut x: BigInt = self.value.grab()?.clone();
                     x *= *other.value().grab()?;
-                    x /= *modulus.value().grab()?;
+                    x /= nonzero(*modulus.value().grab()?)?;
                     x
                 })
             },
@@ -1078,7 +1088,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 Ok({
                     let mut x = self.value.grab()?.clone();
                     x *= other.value.grab()?;
-                    x /= modulus.value.grab()?;
+                    x /= nonzero(modulus.value.grab()?)?;
                     x
                 })
             },
@@ -1092,7 +1102,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 Ok({
                     let mut x = self.value.grab()?.clone();
                     x *= other.value.grab()?;
-                    x %= modulus.value.grab()?;
+                    x %= nonzero(modulus.value.grab()?)?;
                     x
                 })
             },
@@ -1144,14 +1154,14 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-            || Ok(BigInt::from(self.value.grab()? / modulus.value.grab()?)),
+            || Ok(BigInt::from(self.value.grab()? / nonzero(modulus.value.grab()?)?)),
             self.params.limb_width,
             quotient_limbs,
         )?;
         quotient.assert_well_formed(cs.namespace(|| "quotient rangecheck"))?;
         let remainder = BigNat::alloc_from_nat(
             cs.namespace(|| "remainder"),
-            || Ok(BigInt::from(self.value.grab()? % modulus.value.grab()?)),
+            || Ok(BigInt::from(self.value.grab()? % nonzero(modulus.value.grab()?)?)),
             self.params.limb_width,
             modulus.limbs.len(),
         )?;
-- 
2.43.0


From 229ac622cc8b1da8b1f4d2536b2ad5b2fbb169f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 08/26] fix: sub must range-check the difference it allocates

Unchecked limbs let a prover claim any difference, including one for a
negative result.
---
 src/mp/bignat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 57e8f2e..fb19183 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -891,6 +891,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From 01733669a647bef5f2848a53b913c76fab2679d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:15 +0000
Subject: [PATCH 09/26] fix: min must compare the greater operand with the
 lesser one

greater - other is never negative when the greater is 'other' itself, so a
prover could select the larger operand.
---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index fb19183..22e37eb 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -985,7 +985,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From ada42b9dfb556564113d888565236d75790b8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 10/26] fix: the two-week constant must use the same limb width
 as the target

mult_mod mixed 64-bit and 128-bit limbs, which no limb-wise comparison of the
remainder with the modulus can be built on.
---
 src/btc_validation/difficulty_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..33974f4 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -89,7 +89,7 @@ CS: ConstraintSystem<Scalar>,
     assert!(res_lower & res_upper);
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
-- 
2.43.0


From 7acd3221b3b6fe7a089b65659f84bbe237f6554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 11/26] fix: mult_mod and red_mod must return a remainder below
 the modulus

Nothing bounded the remainder, so (q-1, r+m) satisfied the circuit as well as
(q, r).
---
 src/mp/bignat.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 22e37eb..3b0c183 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -897,6 +897,17 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         Ok(diff)
     }
 
+    /// Constrain `self` to be strictly less than `other`.
+    fn assert_less_than<CS: ConstraintSystem<Scalar>>(
+        &self,
+        cs: CS,
+        other: &Self,
+    ) -> Result<(), SynthesisError> {
+        // other - (self + 1) is a natural number
+        other.sub(cs, &self.shift::<CS>(Scalar::ONE))?;
+        Ok(())
+    }
+
     pub fn mult<CS: ConstraintSystem<Scalar>>(
         &self,
         mut cs: CS,
@@ -1079,6 +1090,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         modulus: &Self,
     ) -> Result<(BigNat<Scalar>, BigNat<Scalar>), SynthesisError> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
+        self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
             (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
@@ -1111,6 +1123,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        remainder.assert_less_than(cs.namespace(|| "remainder is reduced"), modulus)?;
         let a_poly = Polynomial::from(self.clone());
         let b_poly = Polynomial::from(other.clone());
         let mod_poly = Polynomial::from(modulus.clone());
@@ -1167,6 +1180,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        remainder.assert_less_than(cs.namespace(|| "remainder is reduced"), modulus)?;
         let mod_poly = Polynomial::from(modulus.clone());
         let q_poly = Polynomial::from(BigNat::from(quotient.clone()));
         let r_poly = Polynomial::from(BigNat::from(remainder.clone()));
-- 
2.43.0


From d5a2eaf0d92045d3661b2f5d0034280a49363e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 12/26] fix: equal_when_carried must carry through the longer
 operand

Requiring the extra limbs of the longer operand to be zero rejected equal
numbers whose carries run past the shorter operand.
---
 src/mp/bignat.rs | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 3b0c183..8ac3744 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -723,8 +723,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over all limbs; the shorter number is zero-extended.
+        let n = max(self.limbs.len(), other.limbs.len());
+        let this = self.with_n_limbs::<CS>(n);
+        let other = other.with_n_limbs::<CS>(n);
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -736,7 +738,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         for i in 0..n {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
                 nat_to_f(
-                    &((f_to_nat(&self.limb_values.grab()?[i])
+                    &((f_to_nat(&this.limb_values.grab()?[i])
                         + f_to_nat(carry_in.value.grab()?)
                         + max_word
                         - f_to_nat(&other.limb_values.grab()?[i]))
@@ -751,7 +753,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 |lc| lc,
                 |lc| lc,
                 |lc| {
-                    lc + &carry_in.num + &self.limbs[i] - &other.limbs[i]
+                    lc + &carry_in.num + &this.limbs[i] - &other.limbs[i]
                         + (nat_to_f(&max_word).unwrap(), CS::one())
                         - (nat_to_f(&target_base).unwrap(), &carry.num)
                         - (
@@ -776,22 +778,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             carry_in = Num::from(carry);
         }
 
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From b2871db4434bcc5d10b8ab719819e251b5cae792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 13/26] fix: compute carry widths in integers instead of f64

The floating-point estimate ignored the carry coming in, so that for example
one-bit limbs got zero-bit carries and equal numbers were rejected.
---
 src/mp/bignat.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8ac3744..8bc38d6 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,7 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::{BigInt, Sign};
 use num_integer::Integer;
-use num_traits::{cast::ToPrimitive, Zero};
+use num_traits::Zero;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -78,6 +78,18 @@ pub fn nat_to_limbs<'a, Scalar: PrimeField>(
     }
 }
 
+/// The number of bits in the largest carry that limbs of at most `2 * max_word` can pass on.
+fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let mut carry = BigInt::from(0u8);
+    loop {
+        let next = (max_word * 2u8 + &carry) >> limb_width as u32;
+        if next == carry {
+            return carry.bits() as usize;
+        }
+        carry = next;
+    }
+}
+
 #[derive(Clone, PartialEq, Eq)]
 pub struct BigNatParams {
     pub min_bits: usize,
@@ -730,9 +742,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -791,9 +801,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From 45666eb4038cd678fd596ac998a9f786250ea228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 14/26] fix: n_bits must count the carries of oversized limbs

It underestimated numbers whose limbs exceed the limb width, so quotients were
allocated too few limbs.
---
 src/mp/bignat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8bc38d6..ada724b 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1290,7 +1290,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
     pub fn n_bits(&self) -> usize {
         assert!(self.params.n_limbs > 0);
-        self.params.limb_width * (self.params.n_limbs - 1) + self.params.max_word.bits() as usize
+        // The largest value has `max_word` in every limb, and `max_word` may exceed the limb width.
+        let largest = (0..self.params.n_limbs).fold(BigInt::from(0u8), |acc, _| {
+            (acc << self.params.limb_width as u32) + &self.params.max_word
+        });
+        largest.bits() as usize
     }
 }
 
-- 
2.43.0


From b18577fb421093bb212ff702057ca7ca052dd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 15/26] fix: a modulus of min_bits bits is at least
 2^(min_bits-1)

The quotient was allocated one bit too small, so valid reductions by a modulus
of known size failed when the limb boundary fell there.
---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index ada724b..0b262d8 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1087,7 +1087,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1158,7 +1158,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From 5bea1197a22b52f3810d6135199a278bbab0901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 16/26] fix: truncate_limbs must forget the minimum size of the
 number

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 0b262d8..43ef666 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -703,9 +703,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // The remaining limbs may well be zero.
+            new.params.min_bits = 0;
         }
         new
     }
-- 
2.43.0


From 87d7de464c4f3e2ae1aac5ad50bd5799d47fea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 17/26] fix: scaling by zero must forget the minimum size of
 the number

---
 src/mp/bignat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 43ef666..e57933c 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -865,6 +865,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             *v *= f_to_nat(&constant);
         }
         new.params.max_word *= f_to_nat(&constant);
+        if constant.is_zero_vartime() {
+            new.params.min_bits = 0;
+        }
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
     }
-- 
2.43.0


From a333c19cabdb4f57f398d14cab135f0b81e0a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 18/26] fix: fits_in_bits(0) must not accept one

---
 src/util/num.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..3d87518 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -46,6 +46,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
     ) -> Result<(), SynthesisError> {
         let v = self.value.map(|v| v);
 
+        // Only zero fits in no bits: there is no last bit to absorb the number.
+        if n_bits == 0 {
+            cs.enforce(|| "is zero", |lc| lc, |lc| lc, |lc| lc + &self.num);
+            return Ok(());
+        }
+
         // Allocate all but the first bit.
         let bits: Vec<Variable> = (1..n_bits)
             .map(|i| {
-- 
2.43.0


From 0152178f75c286a65381640fc3dc158f8ddf771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 19/26] fix: enforce_min_bits reports a number that is too
 small instead of panicking

---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index e57933c..10f6aa2 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -620,8 +620,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                             sum.add_assign(&Scalar::ONE);
                         }
                     }
-                    sum = sum.invert().unwrap();
-                    sum
+                    // No inverse: none of the upper bits is set.
+                    Option::<Scalar>::from(sum.invert()).ok_or(SynthesisError::Unsatisfiable)?
                 })
             },
         )?;
-- 
2.43.0


From 3e1a7f36d3ffcce12662e4bc2961851603a0d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 20/26] fix: from_num must not accept a number plus the field
 modulus

With room for NUM_BITS or more bits, limbs for n + p recompose to n in the
field, so a prover could claim either.
---
 src/mp/bignat.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 10f6aa2..106999d 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -90,6 +90,42 @@ fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
     }
 }
 
+/// Constrain the number with the given bits (low-order first) to be below the field modulus.
+fn enforce_below_modulus<Scalar: PrimeField, CS: ConstraintSystem<Scalar>>(
+    mut cs: CS,
+    bits: &[Bit<Scalar>],
+) -> Result<(), SynthesisError> {
+    let largest = f_to_nat(&-Scalar::ONE);
+    // From the top, `run` is one as long as all bits match those of the largest element.
+    let mut run = Num::new(Some(Scalar::ONE), LinearCombination::zero() + CS::one());
+    for (i, bit) in bits.iter().enumerate().rev() {
+        if largest.bit(i as u64) {
+            let next = Num::alloc(cs.namespace(|| format!("run {}", i)), || {
+                Ok(if *bit.value.grab()? {
+                    *run.value.grab()?
+                } else {
+                    Scalar::ZERO
+                })
+            })?;
+            cs.enforce(
+                || format!("run {} continues", i),
+                |lc| lc + &run.num,
+                |lc| lc + &bit.bit,
+                |lc| lc + &next.num,
+            );
+            run = next;
+        } else {
+            cs.enforce(
+                || format!("bit {} is not above", i),
+                |lc| lc + &run.num,
+                |lc| lc + &bit.bit,
+                |lc| lc,
+            );
+        }
+    }
+    Ok(())
+}
+
 #[derive(Clone, PartialEq, Eq)]
 pub struct BigNatParams {
     pub min_bits: usize,
@@ -304,6 +340,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let bv = bignat.decompose(cs.namespace(|| "bv"))?;
         // (2) recompose bits and check if it equals n
         n.is_equal(cs.namespace(|| "n"), &bv)?;
+        // (3) if the limbs have room for it, rule out `n` plus a multiple of the field modulus
+        if limb_width * n_limbs >= Scalar::NUM_BITS as usize {
+            enforce_below_modulus(cs.namespace(|| "canonical"), &bv.allocations)?;
+        }
 
         Ok(bignat)
     }
-- 
2.43.0


From 766290d97e22593772678ee71ae39764ff8bcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 21/26] fix: verify_median_timestamp binds its verdict to the
 timestamps

The equality and less-than bits, the occurrence count and the constants were
copied into unconstrained variables, so any verdict satisfied the circuit; the
sign of a negative sign_diff was read wrongly (wrong verdicts for several honest
inputs); and synthesis without a witness panicked.
---
 src/btc_validation/median.rs | 71 +++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..4bab7e1 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -18,29 +17,35 @@ where
 Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
-    let fe_median = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(Scalar::from(median as u64))).unwrap();
+    let fe_median = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(Scalar::from(median as u64)))?;
 
     let mut fe_timestamps = vec![];
     let mut fe_temp: AllocatedNum<Scalar>;
     for (i, stamp) in timestamp_array.iter().enumerate() {
-        fe_temp = AllocatedNum::alloc(cs.namespace(|| format!("timestamp {}", i)), || Ok(Scalar::from(*stamp as u64))).unwrap();
+        fe_temp = AllocatedNum::alloc(cs.namespace(|| format!("timestamp {}", i)), || Ok(Scalar::from(*stamp as u64)))?;
         fe_timestamps.push(fe_temp);
     }
 
     let mut n_median_occurrences = Num::zero();
-    let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64)))?;
+    cs.enforce(
+        || "sign_diff starts at 0",
+        |lc| lc + sign_diff.get_variable(),
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time)?;
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32)?;
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
-            let eq = Scalar::from(res_eq.get_value().unwrap() as u64);
-            let lt = Scalar::from(res_lt.get_value().unwrap() as u64);
+            let eq = Scalar::from(*res_eq.get_value().grab()? as u64);
+            let lt = Scalar::from(*res_lt.get_value().grab()? as u64);
             
             // let signum: i64 = (1 - eq) * (1 - 2 * lt);
             let mut eq_opd = Scalar::ONE;
@@ -52,31 +57,31 @@ CS: ConstraintSystem<Scalar>,
             mult_res.mul_assign(&eq_opd);
             Ok(mult_res)
             // Ok(Scalar::from(signum))
-        }).unwrap();
+        })?;
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::from(2u64)),
             |lc| lc + delta_sign.get_variable(),
         );
 
         // sign_diff += signum(median - timestamp)
-        sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
+        sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign)?;
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    // it lies between -n and n for n timestamps, so it is negative exactly if sign_diff + n < n
+    let n_stamps = alloc_constant(cs.namespace(|| "number of timestamps"), Scalar::from(timestamp_array.len() as u64))?;
+    let shifted_sign_diff = sign_diff.add(cs.namespace(|| "shifted sign_diff"), &n_stamps)?;
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &shifted_sign_diff, &n_stamps, 32usize)?;
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
-        let sign_val = sign_diff.get_value().unwrap();
+        let sign_val = *sign_diff.get_value().grab()?;
         let mut zero_val = Scalar::ZERO;
         zero_val.sub_assign(&sign_val);
         Ok(zero_val)
-    }).unwrap();
+    })?;
     // Constrain:
     // (sign_diff + neg_sign_diff) * 1 == 0
     cs.enforce(
@@ -86,13 +91,19 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative)?;
 
-    let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
-    let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
+    let const_1 = alloc_constant(cs.namespace(|| "increment by 1"), Scalar::ONE)?;
+    let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1)?;
     // lhs = abs(sign_diff) + 1
 
-    let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(*n_median_occurrences.get_value().grab()?))?;
+    cs.enforce(
+        || "fe_median counts the occurrences",
+        |lc| lc + &n_median_occurrences.lc(Scalar::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc + fe_median_occ.get_variable(),
+    );
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
@@ -100,6 +111,22 @@ CS: ConstraintSystem<Scalar>,
     leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 32usize)
 }
 
+/// Allocates a number constrained to the given constant
+pub(crate) fn alloc_constant <Scalar, CS> (mut cs: CS, value: Scalar) -> Result<AllocatedNum<Scalar>, SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    let num = AllocatedNum::alloc(cs.namespace(|| "constant"), || Ok(value))?;
+    cs.enforce(
+        || "is constant",
+        |lc| lc + num.get_variable(),
+        |lc| lc + CS::one(),
+        |lc| lc + (value, CS::one()),
+    );
+    Ok(num)
+}
+
 /// Takes two allocated numbers (a, b) and returns
 /// allocated boolean variable with value `true`
 /// if the `a` and `b` are such that a is strictly less than b, 
-- 
2.43.0


From 89a17a50633f2b5bd38f9117c143604ef7c2b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 22/26] fix: less_than and leq constrain their verdict to the
 operands

The shifted difference and its low bits were free variables, so either verdict
satisfied the circuit; the verdict was read off the wrong bit (leq was wrong for
equal operands and for every width above 126); and synthesis without a witness
panicked.
---
 src/btc_validation/median.rs | 117 +++++++----------------------------
 1 file changed, 24 insertions(+), 93 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 4bab7e1..4188384 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,10 +1,12 @@
+use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
-use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
 use ff::PrimeField;
-use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::convert::f_to_nat;
+use crate::util::num;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -141,55 +143,24 @@ where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
 {
-    let zero_shifted_cmp = AllocatedNum::alloc(cs.namespace(|| "zero shift"), || {
-        let mut cmp_val = a.get_value().unwrap();
-        let b_value = b.get_value().unwrap();
-
-        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
-        let zero_shift = if n_bits <= 126 { 
-            Scalar::from_u128(2 << n_bits) 
-        } 
-        else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
-            let mut shift2 = Scalar::from_u128(2 << 126);
-            shift2.mul_assign(&shift1);
-            shift2
-        };
-
-        cmp_val.add_assign(&zero_shift);
-        cmp_val.sub_assign(&b_value);
-
-        Ok(cmp_val)
-    }).unwrap();
-
-    let n_bit_zero_cmp = AllocatedNum::alloc(cs.namespace(|| "n_bits zero cmp"), ||{
-        let mut exponent = Scalar::ONE;
-        let sc_two = Scalar::ONE + Scalar::ONE;
-        let cmp = zero_shifted_cmp.get_value();
-
-        let mut summ = Scalar::ZERO;
-        for i in 0..=n_bits{
-            let mut bit_i = if *cmp.grab()?.get_bit(i).grab()? {
-                Scalar::ONE
-            } else {
-                Scalar::ZERO
-            };
-            bit_i.mul_assign(&exponent);
-            summ.add_assign(&bit_i);
-            exponent.mul_assign(&sc_two);
-        }
-
-        Ok(summ)
-    }).unwrap();
-
-    BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
-
-    // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
-    // let boolean_r = cs.is_satisfied();
-    // let r = AllocatedBit::alloc(cs.namespace(|| "r"), Some(boolean_r))?;
-
-    // Ok(Boolean::from(r))
+    let r_value = match (a.get_value(), b.get_value()) {
+        (Some(a), Some(b)) => Some(f_to_nat(&a) < f_to_nat(&b)),
+        _ => None,
+    };
+    let r = AllocatedBit::alloc(cs.namespace(|| "r"), r_value)?;
 
+    // Constrain:
+    // 0 <= (a - b) + r * 2^n_bits < 2^n_bits
+    // Below 2^n_bits, (a - b) is negative exactly if a < b, so that only the right r satisfies it
+    let shift = (0..n_bits).fold(Scalar::ONE, |power, _| power.double());
+    let cmp_value = match (a.get_value(), b.get_value(), r_value) {
+        (Some(a), Some(b), Some(r)) => Some(a - b + if r { shift } else { Scalar::ZERO }),
+        _ => None,
+    };
+    let cmp = LinearCombination::zero() + a.get_variable() - b.get_variable() + (shift, r.get_variable());
+    num::Num::new(cmp_value, cmp).fits_in_bits(cs.namespace(|| "check fits in n_bits"), n_bits)?;
+
+    Ok(Boolean::from(r))
 }
 
 /// Takes two allocated numbers (a, b) and returns
@@ -206,49 +177,9 @@ where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
 {
-    let zero_shifted_cmp = AllocatedNum::alloc(cs.namespace(|| "zero shift leq"), || {
-        let mut cmp_val = a.get_value().unwrap();
-        let mut b_value = b.get_value().unwrap();
-        b_value.add_assign(Scalar::ONE);
-
-        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
-        let zero_shift = if n_bits <= 126 { 
-            Scalar::from_u128(2 << n_bits) 
-        } 
-        else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
-            let mut shift2 = Scalar::from_u128(2 << 126);
-            shift2.mul_assign(&shift1);
-            shift2
-        };
-
-        cmp_val.add_assign(&zero_shift);
-        cmp_val.sub_assign(&b_value);
-
-        Ok(cmp_val)
-    }).unwrap();
-
-    let n_bit_zero_cmp = AllocatedNum::alloc(cs.namespace(|| "n_bits zero cmp leq"), ||{
-        let mut exponent = Scalar::ONE;
-        let sc_two = Scalar::ONE + Scalar::ONE;
-        let cmp = zero_shifted_cmp.get_value();
-
-        let mut summ = Scalar::ZERO;
-        for i in 0..=n_bits{
-            let mut bit_i = if *cmp.grab()?.get_bit(i).grab()? {
-                Scalar::ONE
-            } else {
-                Scalar::ZERO
-            };
-            bit_i.mul_assign(&exponent);
-            summ.add_assign(&bit_i);
-            exponent.mul_assign(&sc_two);
-        }
-
-        Ok(summ)
-    }).unwrap();
-
-    BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
+    // a <= b is the negation of b < a
+    let gt = less_than(cs.namespace(|| "greater than"), b, a, n_bits)?;
+    Ok(gt.not())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9503341a02e553cf49adcdaf1af75fa17e10cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 23/26] fix: difficulty updates refuse out-of-range periods in
 the circuit

The period bounds were checked only by an assert! on the witness (a crash for
an out-of-range period, nothing for a forged one), the bounds, the two weeks and
a second copy of the period were unconstrained, and every allocation error or
missing witness panicked. verify_difficulty_update now returns a Result.
---
 src/btc_validation/difficulty_update.rs | 70 +++++++++++++------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 33974f4..ecd1858 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,4 +1,5 @@
 use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -13,38 +14,38 @@ pub fn verify_difficulty_update<Scalar, CS>
         current_target_l: u128, 
         prev_target_u: u128,
         prev_target_l: u128,
-        sum_timestamps: u32 ) -> ()
+        sum_timestamps: u32 ) -> Result<(), SynthesisError>
 where
 Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
-    let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
-    let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
+    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64)))?;
+    let t_sum_num = num::Num::from(fe_t_sum.clone());
+    let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize)?;
 
-    let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
-    let target_lower = num::Num::alloc(cs.namespace(|| "Least significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_l))).unwrap();
+    let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u)))?;
+    let target_lower = num::Num::alloc(cs.namespace(|| "Least significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_l)))?;
 
-    let prev_tar_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of last target"), || Ok(Scalar::from_u128(prev_target_u))).unwrap();
-    let prev_tar_lower = num::Num::alloc(cs.namespace(|| "Least significant 128 bits of last target"), || Ok(Scalar::from_u128(prev_target_l))).unwrap();
+    let prev_tar_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of last target"), || Ok(Scalar::from_u128(prev_target_u)))?;
+    let prev_tar_lower = num::Num::alloc(cs.namespace(|| "Least significant 128 bits of last target"), || Ok(Scalar::from_u128(prev_target_l)))?;
 
-    let bignat_tar_u = BigNat::from_num(cs.namespace(|| "Upper target in bignat"), target_upper, 64usize, 2usize).unwrap(); 
-    let bignat_tar_l = BigNat::from_num(cs.namespace(|| "Lower target in bignat"), target_lower, 64usize, 2usize).unwrap(); 
-    let target = bignat_tar_u.concat(&bignat_tar_l).unwrap();
+    let bignat_tar_u = BigNat::from_num(cs.namespace(|| "Upper target in bignat"), target_upper, 64usize, 2usize)?; 
+    let bignat_tar_l = BigNat::from_num(cs.namespace(|| "Lower target in bignat"), target_lower, 64usize, 2usize)?; 
+    let target = bignat_tar_u.concat(&bignat_tar_l)?;
 
-    let bignat_prev_tar_u = BigNat::from_num(cs.namespace(|| "Upper target before update in bignat"), prev_tar_upper, 64usize, 2usize).unwrap(); 
-    let bignat_prev_tar_l = BigNat::from_num(cs.namespace(|| "Lower target before update in bignat"), prev_tar_lower, 64usize, 2usize).unwrap();
-    let prev_target = bignat_prev_tar_u.concat(&bignat_prev_tar_l).unwrap();
+    let bignat_prev_tar_u = BigNat::from_num(cs.namespace(|| "Upper target before update in bignat"), prev_tar_upper, 64usize, 2usize)?; 
+    let bignat_prev_tar_l = BigNat::from_num(cs.namespace(|| "Lower target before update in bignat"), prev_tar_lower, 64usize, 2usize)?;
+    let prev_target = bignat_prev_tar_u.concat(&bignat_prev_tar_l)?;
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t_sum"), Scalar::from(2016 * 10 * 60 / 4 as u64))?;
+    let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t_sum"), Scalar::from(2016 * 10 * 60 * 4 as u64))?;
 
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
-
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32)?;
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32)?;
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is above the lower bound"), &res_lower, &Boolean::constant(true))?;
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is below the upper bound"), &res_upper, &Boolean::constant(true))?;
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -54,11 +55,11 @@ CS: ConstraintSystem<Scalar>,
     // let rhs = prev_target.mult(cs.namespace(|| "T_old * t_sum"), &t_sum).unwrap();
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
+    let t_ideal_sum = num::Num::from(median::alloc_constant(cs.namespace(|| "2016 * 10 * 60"), Scalar::from(2016 * 10 * 60 as u64))?);
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize)?;
     
-    let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
-    target.equal(cs.namespace(|| "computation equal to next target"), &t_new).unwrap()
+    let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60)?;
+    target.equal(cs.namespace(|| "computation equal to next target"), &t_new)
 }
 
 pub fn calculate_difficulty_update<Scalar, CS> 
@@ -71,27 +72,28 @@ Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
     let t_sum_num = num::Num::from((*sum_timestamps).clone());
-    let t_sum = BigNat::from_num(cs.namespace(|| "BigNat time sum"), t_sum_num, 64usize, 1usize).unwrap();
+    let t_sum = BigNat::from_num(cs.namespace(|| "BigNat time sum"), t_sum_num, 64usize, 1usize)?;
 
     let prev_tar = num::Num::from((*prev_target).clone());
-    let prev_targ = BigNat::from_num(cs.namespace(|| "BigNat previous target"), prev_tar, 64usize, 4usize).unwrap();
+    let prev_targ = BigNat::from_num(cs.namespace(|| "BigNat previous target"), prev_tar, 64usize, 4usize)?;
 
     // let target = num::Num::from(*curr_target);
     // let _bignat_tar = BigNat::from_num(cs.namespace(|| "BigNat curr_target"), target, 64usize, 2usize).unwrap();
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t sum"), Scalar::from(2016 * 10 * 60 / 4 as u64))?;
+    let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t sum"), Scalar::from(2016 * 10 * 60 * 4 as u64))?;
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32)?;
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32)?;
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is above the lower bound"), &res_lower, &Boolean::constant(true))?;
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is below the upper bound"), &res_upper, &Boolean::constant(true))?;
 
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
+    let t_ideal_sum = num::Num::from(median::alloc_constant(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), Scalar::from(2016 * 10 * 60 as u64))?);
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize)?;
     
-    let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
+    let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60)?;
     // let target_num = Polynomial::from(t_new);
     // let _new_target = AllocatedNum::alloc(cs.namespace(|| "Updated target calculated"), || {
     //     let target_value = t_new.value.unwrap();
-- 
2.43.0


From 97cc348255517527344ec1f944615c0842072c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 24/26] fix: bit vectors no longer misalign bits and values
 when a bit without a value is added

---
 src/util/bit.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/util/bit.rs b/src/util/bit.rs
index 2bea764..ae3e7ef 100644
--- a/src/util/bit.rs
+++ b/src/util/bit.rs
@@ -77,25 +77,34 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn push(&mut self, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.push(v)));
+        self.values = self.values.take().and_then(|mut vs| {
+            b.value.take().map(|v| {
+                vs.push(v);
+                vs
+            })
+        });
         self.bits.push(b.bit);
     }
 
     pub fn insert(&mut self, i: usize, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.insert(i, v)));
+        self.values = self.values.take().and_then(|mut vs| {
+            b.value.take().map(|v| {
+                vs.insert(i, v);
+                vs
+            })
+        });
         self.bits.insert(i, b.bit);
     }
 
     pub fn append(&mut self, mut other: Self) {
         let ovs = other.values.take();
         self.bits.extend(other.bits.into_iter());
-        self.values
-            .as_mut()
-            .map(|vs| ovs.map(|ovs| vs.extend(ovs.into_iter())));
+        self.values = self.values.take().and_then(|mut vs| {
+            ovs.map(|ovs| {
+                vs.extend(ovs.into_iter());
+                vs
+            })
+        });
     }
 
     pub fn into_bits(mut self) -> Vec<Bit<Scalar>> {
-- 
2.43.0


From f808e9d28a928aa09623d7e793e40148777b5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 25/26] fix: f_to_usize reads all bytes of the number instead
 of only the lowest

---
 src/util/convert.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..ae6bc65 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -31,12 +31,17 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
     Scalar::from(n as u64)
 }
 
-/// Convert a `usize` to a field element.
-/// Panics if the field is too small.
+/// Convert a field element to a `usize`.
+/// Panics if the element is too large.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
+    let bytes = (usize::BITS / 8) as usize;
     let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    assert!(s.as_ref().iter().skip(bytes).all(|v| *v == 0));
+    s.as_ref()
+        .iter()
+        .take(bytes)
+        .rev()
+        .fold(0, |acc, v| (acc << 8) | *v as usize)
 }
 
 #[cfg(test)]
-- 
2.43.0


From a1ba7a1c33976664bed827977a87c2bdc5e5db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 26/26] fix: Num::is_equal compares with the bits of an edited
 bit vector, not the ones it was allocated with

---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 3d87518..96a83d0 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -112,12 +112,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = other
+            .bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0

