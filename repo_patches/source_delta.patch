From 20d886d5d68213542324ae1f0a5348588925420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 01/46] fix: enumerate the single empty tuple instead of
 underflowing when the tuple size is 0

---
 util/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/src/lib.rs b/util/src/lib.rs
index 92691c5..b21b9f8 100644
--- a/util/src/lib.rs
+++ b/util/src/lib.rs
@@ -384,7 +384,7 @@ impl<'a, T> TupleIterator<'a, T> {
         TupleIterator{
             data: data,
             indeces: indeces,
-            curr_idx: size-1,
+            curr_idx: size.saturating_sub(1),
             is_done: is_done,
         }
     }
@@ -416,6 +416,12 @@ impl<'a, T: std::fmt::Debug> Iterator for TupleIterator<'a, T> {
             Some(self.indeces.iter().map(|&idx| &self.data[idx]).collect())
         };
 
+        // the only tuple of size zero is the empty one
+        if self.indeces.is_empty() {
+            self.is_done = true;
+            return out;
+        }
+
         if self.is_blocked() {
             while self.curr_idx > 0 && self.indeces[self.curr_idx]-self.indeces[self.curr_idx-1]==1 {
                 self.curr_idx-=1;
-- 
2.43.0


From d80dfe930f0e6b11efc67bb224451bd787383fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 02/46] fix: negating the rational zero gives zero again

---
 alg/src/commutative/rational_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..0075727 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -179,7 +179,10 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        // zero has no negative version
+        if self.numerator != 0 {
+            self.sign = !self.sign;
+        }
         self
     }
 }
-- 
2.43.0


From 2d78659455bd279c13a64950a2b16885bcc64451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 03/46] fix: comparing two rational zeros no longer divides by
 zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 0075727..690afd0 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,7 +66,8 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        let gcd_of_n = gcd(self.numerator, rhs.numerator);
+        // the gcd of two zeros is zero, so that it cannot be divided by
+        let gcd_of_n = gcd(self.numerator, rhs.numerator).max(1);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
         let b = (rhs.numerator/gcd_of_n) * (self.denominator/gcd_of_d);
-- 
2.43.0


From 61ef8a5c5495a2c8d55959b50fdde7f8b2086820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 04/46] fix: the product of rationals starts from one

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 690afd0..5a48a7d 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -215,7 +215,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From 93907d6b473e5fcb62b1b761252e776bd2b9b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 05/46] fix: primality and prime-factor counts test
 divisibility by the remainder

---
 alg/src/commutative.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..0d855c2 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -126,16 +126,17 @@ macro_rules! pid_impl {
     ($($t:ty)*) => ($(
         impl PID for $t {
             fn is_prime(self) -> bool {
-                if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                let num = self.abs();
+                if num == Self::zero() || num == Self::one() { return false; }
+                (2..num).all(|x| num%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
+                (0..self.abs()).filter(|&x| x.is_prime()).filter(|&x| self%x == 0).for_each(|x|{
                     let mut num = self;
-                    while num/x==0 {
+                    while num%x==0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 52ff1c266885ebd63c923ceb40ce8f31cf044cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 06/46] fix: a cycle of no elements is the identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..fb442a8 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -42,7 +42,7 @@ impl Cycle {
     }
 
     pub fn from(data: Vec<usize>) -> Cycle {
-        if data.len() == 1 { return Cycle::identity(); }
+        if data.len() <= 1 { return Cycle::identity(); }
 
         let mut cycle = Cycle {
             data: data,
-- 
2.43.0


From de06b3015c06848f0a0470727c9c1ae4b811dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 07/46] fix: swapping with an empty range or with an adjacent
 earlier range

---
 alg/src/non_commutative/permutation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index fb442a8..1ad25b4 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,13 +196,13 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 20aa87bf4fa35272aee5d852e9ecc5bda955cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 08/46] fix: negative powers of a permutation are powers of its
 inverse

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 1ad25b4..d3519ac 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (0..power.unsigned_abs()).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From afc3566294d7d17901c9fc7a3c102dda355e19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 09/46] fix: inverses of one-line permutations invert every
 index

---
 alg/src/non_commutative/permutation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index d3519ac..bc8da8e 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
+        for curr in 0..self.0.len() {
             out[self.0[curr]] = curr;
-            curr = self.0[curr];
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
+        for curr in 0..self.0.len() {
             out[self.0[curr]] = curr;
-            curr = self.0[curr];
         }
         Self(out)
     }
-- 
2.43.0


From 6de870423b56d920f92b7d27ad0390179fad3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 10/46] fix: growable permutations compare as bijections, so
 that order() ends

---
 alg/src/non_commutative/permutation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index bc8da8e..f10aef5 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -684,9 +684,16 @@ impl<const N: usize> ConstPermutation<N> {
 }
 
 
-#[derive(Clone, PartialEq, Eq, Debug)]
+#[derive(Clone, Eq, Debug)]
 pub struct VecPermutation(Vec<usize>);
 
+// Trailing fixed indices do not matter, so that the identity is equal to every list that fixes all of its indices
+impl PartialEq for VecPermutation {
+    fn eq(&self, other: &Self) -> bool {
+        (0..self.0.len().max(other.0.len())).all(|i| self.eval(i) == other.eval(i))
+    }
+}
+
 impl std::ops::Mul for VecPermutation {
     type Output = Self;
     fn mul(mut self, mut rhs: Self) -> Self::Output {
-- 
2.43.0


From 55676ed396260f98ad4113eb3ca16b16890e0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 11/46] fix: merging two sorted iterators keeps every element
 in order

---
 alg/src/lin_alg.rs | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..ea945d3 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -291,7 +291,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
+    curr_i: Option<T>,
+    curr_j: Option<T>,
     i: I,
     j: J,
     f: F
@@ -305,41 +306,24 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
+        let is_i_next = match (&self.curr_i, &self.curr_j) {
+            (Some(x), Some(y)) => (self.f)(x, y) != Ordering::Greater,
+            (Some(_), None) => true,
+            (None, _) => false,
+        };
+        if is_i_next {
+            std::mem::replace( &mut self.curr_i, self.i.next() )
         } else {
-            None
+            std::mem::replace( &mut self.curr_j, self.j.next() )
         }
     }
 }
 
 fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+    Merge{
+        curr_i: i.next(),
+        curr_j: j.next(),
+        i, j, f
     }
 }
 
-- 
2.43.0


From ae91632e17b2341bd4999630d37697c84fc7a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 12/46] fix: a formal sum built from a list collects repeated
 basis elements

---
 alg/src/lin_alg.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ea945d3..03d77fd 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -189,16 +189,23 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
 }
 
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
-    fn from(mut summands: [Basis; N]) -> Self {
-        summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+    fn from(summands: [Basis; N]) -> Self {
+        Self::from(Vec::from(summands))
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
     fn from(mut summands: Vec<Basis>) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        let mut out: Vec<(Coeff, Basis)> = Vec::with_capacity(summands.len());
+        for b in summands {
+            // the same basis element may be given more than once
+            match out.last_mut() {
+                Some((coeff, last)) if *last == b => *coeff += Coeff::one(),
+                _ => out.push( (Coeff::one(), b) ),
+            }
+        }
+        Vector(out)
     }
 }
 
-- 
2.43.0


From 4a3191870cc96635fe0797fd5be830507edaac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 13/46] fix: building a matrix from rows refuses any ragged row

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..c25932b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From 628d7e31abd7c8aef6f84af372979b8edf14585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 14/46] fix: comparing a submatrix with a matrix no longer
 recurses forever

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index c25932b..cfe69c3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From 915f34526211a803e3f0e506844fb05635bf1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 15/46] fix: views of a view without entries no longer
 underflow

---
 alg/src/lin_alg/matrix_impl.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index cfe69c3..1a452f8 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -58,10 +58,19 @@ pub const fn submatrix_from_raw_parts_mut<T: ?Sized>(
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
 
+#[inline]
+const fn slice_len(size: (usize, usize), offsets: (usize, usize)) -> usize {
+    if size.0 == 0 || size.1 == 0 {
+        0 // a view without any entry
+    } else {
+        (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1
+    }
+}
+
 #[inline]
 pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = slice_len(size, offsets);
     let data_address = unsafe{ PtrRepr{const_ptr: m as *const SubMatrix<T>}.components.data_address};
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.const_ptr }
 }
@@ -69,7 +78,7 @@ pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
 #[inline]
 pub fn slice_from_sub_matrix_mut<T: PID>(m: &mut SubMatrix<T>) -> *mut [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    let metadata = slice_len(size, offsets);
     let data_address = unsafe{ PtrRepr{ mut_ptr: m as *mut SubMatrix<T> }.components.data_address };
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
-- 
2.43.0


From 419cd759a0ff6a17d03ca63a252e6d5233b965e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 16/46] fix: refuse matrices whose sides do not fit the packed
 size

---
 alg/src/lin_alg/matrix_impl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 1a452f8..6e66dd4 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -20,6 +20,9 @@ pub const fn metadata<T: ?Sized>(ptr: *const T) -> usize {
     unsafe { PtrRepr { const_ptr: ptr }.components.metadata }
 }
 
+/// The largest number of rows or columns that 'compress' can represent.
+const MAX_SIDE: usize = !(!0 << (mem::size_of::<usize>() * 8 / 4));
+
 #[inline]
 pub const fn compress(size: (usize, usize), offsets: (usize, usize)) -> usize {
     let data_offset = mem::size_of::<usize>() * 8 / 4;
@@ -601,6 +604,11 @@ impl<T: PID> Matrix<T> {
     }
 
     fn new(n: usize, m: usize) -> Self {
+        // the size is packed into a quarter of the metadata of a reference each
+        assert!(
+            n <= MAX_SIDE && m <= MAX_SIDE,
+            "the matrix is too large: size=({n}, {m}), but each side must be at most {MAX_SIDE}."
+        );
         let mut mat = Matrix {
             ptr: ptr::NonNull::dangling(),
             _marker: PhantomData,
-- 
2.43.0


From 3229795d08e9bb3d23c0a2499ffd6844aab7d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 17/46] fix: iterate over a sparse matrix without entries
 instead of panicking

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..f8530bb 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -95,10 +95,11 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
         m.cols.sort_by(|x, y| x.start_node_idx().cmp( &y.start_node_idx() ) );
 
 
-        // if 'rows' and 'cols' are empty, then add some elements to 'rows' so that the iter() does not panic.
+        // if 'rows' and 'cols' are empty, then add some elements to 'rows' and 'cols' so that the iter() does not panic.
+        // Note that no row or column has the index 'usize::MAX'.
         if m.rows.is_empty() {
-            m.rows.push(SparseNode::End);
-            m.cols.push(SparseNode::End);
+            m.rows.push(SparseNode::Start(usize::MAX, Rc::new(SparseNode::End)));
+            m.cols.push(SparseNode::Start(usize::MAX, Rc::new(SparseNode::End)));
         }
 
         m
-- 
2.43.0


From fba71473b45359335362c3cb2eb246ecafba71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 18/46] fix: the Smith normal form has canonical (non-negative)
 diagonal entries, so that homology never shows Z_-1 or Z_-2

---
 alg/src/lin_alg/matrix_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 6e66dd4..aaa4c09 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1083,8 +1083,16 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
             }
         }
         debug_assert!((0..rank).all( |i| (i+1..rank).all(|k| self[(i,i)].divides(self[(k,k)]))), " Diagonal is not sorted: {:?}", self);
-        // simplify r_op
 
+        // choose the canonical associate of each diagonal entry
+        for r in 0..rank {
+            let (unit, _) = self[(r,r)].simplify();
+            if unit == T::one() { continue; }
+            let unit_inv = T::one().euclid_div(unit).0;
+            self[(r,r)] *= unit_inv;
+            r_op[(r, ..)] *= unit_inv;
+            r_op_inv[(.., r)] *= unit;
+        }
 
         (r_op_inv, r_op, self, c_op, c_op_inv)
     }
-- 
2.43.0


From c2eead9c7ab23bea032bd504035531aacad18018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 19/46] fix: the inverse column operations of the Smith normal
 form follow the last elimination

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index aaa4c09..ff0c7c7 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1075,7 +1075,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From 84713c97095dd8d0a662b299e49d7aded5b87ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 20/46] fix: rank_as_linear_map eliminates with pivots instead
 of assuming them on the diagonal

---
 alg/src/lin_alg/matrix_impl.rs | 42 ++++++++++++----------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index ff0c7c7..cc81c19 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1102,40 +1102,28 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
 impl <T:Field+Copy> Matrix<T> {
     pub fn rank_as_linear_map(&self) -> usize {
         let mut clone = self.clone();
-        let shorter_side = std::cmp::min(self.size().0, self.size().1);
-        let mut skipped = 0;
-        for k in 0..shorter_side {
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
-                match result {
-                    Some(j) => clone.col_operation(k, j, T::one()),
-                    None => (),
-                }
-            }
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
-                match result {
-                    Some(i) => clone.row_operation(k, i, T::one()),
-                    None => {
-                        skipped += 1;
-                        continue;
-                    },
-                }
-            }
-
-            // Now we have the nonzero element in (k, k)
-            let coeff = T::one() / clone[(k,k)];
-            clone.row_operation(k, k, coeff - T::one()); // Fix
+        let (n_rows, n_cols) = self.size();
+        let mut rank = 0;
+        for k in 0..n_cols {
+            // bring a row with a nonzero element in the column 'k' up to the row 'rank'
+            let pivot = match (rank..n_rows).find(|&i| clone[(i, k)] != T::zero() ) {
+                Some(i) => i,
+                None => continue,
+            };
+            if pivot != rank { clone.swap_rows(rank, pivot); }
 
-            for l in k+1..self.size().0 {
+            // Now we have the nonzero element in (rank, k)
+            let coeff = T::one() / clone[(rank,k)];
+            for l in rank+1..n_rows {
                 let minus_one = T::zero() - T::one();
                 let a_lk = clone[(l,k)];
                 if a_lk == T::zero() { continue; } 
-                clone.row_operation(l, k, minus_one * a_lk);
+                clone.row_operation(l, rank, minus_one * a_lk * coeff);
             }
+            rank += 1;
         };
 
-        shorter_side - skipped
+        rank
     }
 }
 
-- 
2.43.0


From 5b919b21716b13afb0a993b838061ed6dc0109a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 21/46] fix: a zero skeleton of three or more vertices can be
 built

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..2d3a193 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -164,7 +164,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From 8fe4b44836f30661255a418ecaa85ac106092729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 22/46] fix: containment and join of simplices beyond the first
 64 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 2d3a193..5043272 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,11 +51,11 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
-            .collect();
-            
+        self.vertices
+            .iter_mut()
+            .zip(cell.vertices.iter())
+            .for_each(|(x, &y)| *x |= y);
+
         if cell.vertices.len() > self.vertices.len() { 
             (self.vertices.len()..cell.vertices.len()).
                 for_each(|i| self.vertices.push(cell.vertices[i]));
@@ -108,7 +108,11 @@ impl SimplicialCell {
     }
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
-        self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+        // the words which 'self' does not have are empty
+        cell.vertices.iter().enumerate().all(|(i, &y)| {
+            let x = self.vertices.get(i).copied().unwrap_or(0);
+            x | y == x
+        })
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
-- 
2.43.0


From a7805e897c046b8af27b82e5de4ee98d4c0d92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 23/46] fix: counting the faces of large simplices no longer
 overflows

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 5043272..fd9c0b2 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -280,7 +280,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                (0..y).fold(1, |accum, k| accum * (x-k) / (k+1))
             }
         };
 
-- 
2.43.0


From 9de7d65f482f422573933b62fda3fbbf85265d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 24/46] fix: count several loops at one vertex once each in
 Graph::from

---
 topo_spaces/src/graph.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..830180f 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,13 +80,12 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
-                n_non_loop_edges_up_to_multiplicity -= 1;
-            } 
             if v_idx == w_idx {
                 n_loops += 1;
                 n_non_loop_edges -= 1;
                 n_non_loop_edges_up_to_multiplicity -= 1;
+            } else if data[v_idx][w_idx].len() > 1 {
+                n_non_loop_edges_up_to_multiplicity -= 1;
             }
         });
 
-- 
2.43.0


From 27db22982a9a5e2e6b5fec0f3a7b0bff3037ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 25/46] fix: RawSimpleGraph::edge_iter must not list [0 1] when
 it is not an edge

---
 topo_spaces/src/graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 830180f..412f963 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1474,11 +1474,16 @@ impl<'a> Iterator for EdgeIter<'a> {
 impl<'a> RawSimpleGraph {
     pub fn edge_iter(&'a self) -> EdgeIter<'a> {
         let edge = (0, 1);
-        EdgeIter {
+        let mut iter = EdgeIter {
             graph: self,
             curr: edge,
             is_done: self.n_vertices() < 2,
+        };
+        // skip the first pair if it is not an edge of the graph
+        if !iter.is_done && !self.contains(0, 1) {
+            iter.next();
         }
+        iter
     }
 
     pub fn vertex_iter(&'a self) -> VertexIter<'a> {
-- 
2.43.0


From 457f97394647a1c95b820c498bb9ab568cf8b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 26/46] fix: RawSimpleGraph::new(0) must not underflow

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 412f963..fd1eedd 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -254,7 +254,7 @@ pub struct RawSimpleGraph {
 impl RawSimpleGraph {
     pub fn new(n_vertices: usize) -> RawSimpleGraph {
         RawSimpleGraph {
-            data: BinaryPool::new(n_vertices * (n_vertices-1)/2),
+            data: BinaryPool::new(n_vertices * n_vertices.saturating_sub(1)/2),
             n_vertices: n_vertices,
             is_maximal_tree_chosen: false,
         }
-- 
2.43.0


From dd9cb47965889380f9b37f687cb31da49816ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 27/46] fix: the middle vertex of an edge subdivided for two
 tokens lies in the middle

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index fd1eedd..16327bb 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1146,11 +1146,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From f33a279cb99e6a9f85e1290acc60ab54ae95426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 28/46] fix: a connected graph without leaves or non-separating
 essential vertices has a base point

---
 topo_spaces/src/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 16327bb..faed10e 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -806,13 +806,14 @@ impl RawSimpleGraph {
         // -- if the vertex 0 is of degree one, we can just let it be the base point
         if self.degree_of(0) != 1 {
             // -- otherwise, we want an essential vertex v such that the graph with v deleted is connected.
-            for i in 0..self.n_vertices() {
+            // -- If there is none (e.g. in a cycle), then any vertex v such that the graph with v deleted is connected will do.
+            for (min_degree, i) in [3, 2].into_iter().flat_map(|d| (0..self.n_vertices).map(move |i| (d, i)) ).collect::<Vec<_>>() {
                 // if i is not essential, then continue.
                 if self.degree_of(i) ==1 {
                     self.swap(0, i);
                     // return the permutation that represents this swap
                     return permutation!{ (0, i) };
-                } if self.degree_of(i) >= 3 {
+                } if self.degree_of(i) >= min_degree {
                     // remove edges adjacent to i and see if the resulting graph is connected
                     let tmp_edges: Vec<_> = self.adjacent_vertices_iter(i).map(|j| if i<j {(i, j)} else {(j, i)} ).collect();
                     self.remove_edges_adjacent_to(i);
-- 
2.43.0


From 55bbb88c26b3a8ad36835268a8bdaf6c7a1a2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 29/46] fix: the boundary maps of the cubical complex come with
 their bases

---
 topo_spaces/src/cubical.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..eef7e73 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,18 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+
+            // add the cell to the basis
+            let mut cell: Vec<_> = self.factor_iter(idx).collect();
+            cell.reverse();
+            basis[self.dim_of(idx)].push( Cube(cell) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From 56010221a747021cfccdbb327ed70061bf4769fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 30/46] fix: critical cells of the Morse complex

---
 topo_spaces/src/cubical.rs | 66 +++++++++++++++-----------------------
 topo_spaces/src/graph.rs   |  5 +--
 2 files changed, 29 insertions(+), 42 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index eef7e73..feada89 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -537,9 +537,10 @@ impl Cube {
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f, graph)) ))
             )
-            .next();
+            // an edge is as large as its initial vertex
+            .min_by_key(|&(_, &f)| if f.is_edge() { f.initial().vertex() } else { f.vertex() });
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -805,7 +806,7 @@ impl UdnMorseCplx {
         // println!("possible_factors: {}", possible_factors);
 
         // possible factors are provided by upstairs, so just collect them and make new_branches
-        let new_branches = if self.data.len()==0 {
+        let mut new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
             possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
         } else {
@@ -815,7 +816,7 @@ impl UdnMorseCplx {
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor, &self.factor_pool) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -859,22 +860,24 @@ impl UdnMorseCplx {
 
             // further, if the 'n_rem_factor' equals the number of debts, then we need to pay back right now, so remove all the factors that do not pay for unpaid edges.
             let n_debts = unpaid_edges.len();
-            if n_rem_factors == n_debts {
-                new_branches.retain(|b| (**b).is_vertex() );
+            if n_rem_factors <= n_debts {
+                new_branches.retain(|b| n_rem_factors == n_debts && (**b).is_vertex() && unpaid_edges.iter().any(|&e| (**b).is_disrespected_by(e, &self.factor_pool)) );
             }
 
-            // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
-            if n_rem_factors == 1 {
-                new_branches.retain(|b| (**b).is_vertex() || !(**b).is_in_maximal_tree(&self.factor_pool) );
-            }
-
-            // Finally, if the dimention of the cell is already the upper dim, then we cannot add edges. Hence, we will remove them.
-            if self.dim_of(branch_idx) == upper_dim {
-                new_branches.retain(|b| (**b).is_vertex() );
-            }
-            
             new_branches
         };
+
+        // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
+        if n_rem_factors == 1 {
+            new_branches.retain(|b| (**b).is_vertex() || !(**b).is_in_maximal_tree(&self.factor_pool) );
+        }
+
+        // Finally, if the dimention of the cell is already the upper dim, then we cannot add edges. Hence, we will remove them.
+        let curr_dim = if self.data.len()==0 { 0 } else { self.dim_of(branch_idx) };
+        if curr_dim == upper_dim {
+            new_branches.retain(|b| (**b).is_vertex() );
+        }
+
         let new_branch_indeces: Vec<_> = (0..new_branches.len()).map( |i| i+self.data.len()).collect();
         if new_branch_indeces.is_empty() { return possible_factors; }
 
@@ -906,30 +909,13 @@ impl UdnMorseCplx {
             // record the factors added to 'possible_factors' in order to recover it later.
             let mut factors_added = Vec::new(); 
 
-            // modify 'possible_factors' for the factors downstairs.
-            if curr_factor.is_vertex() { 
-                let new_vertex = curr_factor.vertex()+1;
-                if new_vertex < self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex( curr_factor.vertex()+1 ) ); }
-            } else if curr_factor.is_in_maximal_tree(&self.factor_pool) {
-                // Coming here means that 'curr_factor' is an edge in the maximal tree.
-                let [_, j] = curr_factor.edge(); // get two ends of the edge
-                // add vertices (no edges will be added)
-                self.factor_pool
-                    .vertex_iter()
-                    .filter(|&v| v > curr_factor.terminal())
-                    .filter(|&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
-                    .for_each(|factor| factors_added.push(factor) ); 
-                if j+1<self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex(j+1) )}; // add a vertex blocked by the initial vertex of the edge
-            } else {
-                // Coming here means that 'curr_factor' is an edge not in the maximal tree.
-                let [_, j] = curr_factor.edge(); // get two ends of the edge
-                // add vertices (no edges will be added)
-                self.factor_pool
-                    .vertex_iter()
-                    .filter(|&v| v > curr_factor.terminal())
-                    .filter( |&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
-                    .for_each(|factor| factors_added.push(factor) ); 
-            }
+            // modify 'possible_factors' for the factors downstairs: add the vertices blocked by 'curr_factor' (no edges will be added)
+            let ends = if curr_factor.is_vertex() { vec![curr_factor] } else { vec![curr_factor.terminal(), curr_factor.initial()] };
+            self.factor_pool
+                .vertex_iter()
+                .filter(|&v| v > CubeFactor::Vertex(0) )
+                .filter(|&v| ends.contains( &v.flow(&self.factor_pool).terminal() ) )
+                .for_each(|factor| factors_added.push(factor) );
 
             factors_added.iter().for_each( |&factor| possible_factors.add( factor ));
 
diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index faed10e..2769a9f 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1359,12 +1359,13 @@ impl CubeFactor {
         return j - i == 1
     }
 
-    pub fn is_disrespected_by(self, other: CubeFactor) -> bool {
+    pub fn is_disrespected_by(self, other: CubeFactor, graph: &RawSimpleGraph) -> bool {
         // 'self' must be a vertex, and 'other' has to be an edge
         let [i, j] = other.edge();
         let k = self.vertex();
 
-        i<k && k<j
+        // 'self' flows to the terminal vertex of 'other', and it comes earlier than 'other' does.
+        i<k && k<j && self.flow(graph).terminal() == other.terminal()
     }
 
     pub fn is_blocked(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
-- 
2.43.0


From a66e1df49d4a4e0ea3b3814aec4c4e9518b43d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 31/46] fix: the boundary maps of the Morse complex list every
 critical 0-cell

---
 topo_spaces/src/cubical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index feada89..a983080 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1378,8 +1378,8 @@ impl Complex for UdnMorseCplx {
         let mut boundary_maps = vec![Matrix::zero(1, self.ranks_of_chain_cplx[0])];
         (1..=self.dim).for_each(|i| boundary_maps.push(Matrix::zero(self.ranks_of_chain_cplx[i-1], self.ranks_of_chain_cplx[i])));
         let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
-        let zero_cell_idx = *self.final_branch_indeces.iter().find(|&&i| self.dim_of(i) == 0).unwrap();
-        basis[0].push( Cube::from_index(zero_cell_idx, self) );
+        // there can be several critical 0-cells if the base point is close to an essential vertex
+        self.final_branch_indeces.iter().filter(|&&i| self.dim_of(i) == 0 ).for_each(|&i| basis[0].push( Cube::from_index(i, self) ));
 
         // filling up the boundary maps
         for &i in self.final_branch_indeces.iter().filter(|&&i| self.dim_of(i) > 0 ) {
-- 
2.43.0


From adb82819e8f5a1d6f4a17ec5ef8ff48e869c19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 32/46] fix: reducing an edge path whose beginning cancels
 completely

---
 topo_spaces/src/cubical.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index a983080..f99f96d 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1192,6 +1192,8 @@ impl EdgePath {
                     out[i].remove(idx);
                     if out[i].is_empty() {
                         out.remove(i);
+                        // the next step needs a place even if everything has been canceled
+                        if out.is_empty() { out.push(Vec::new()); }
                     }
                 } else if i+1 == out.len() {
                     out.push(vec![step]);
-- 
2.43.0


From 59e8486922f278849f25f534b72b3406ef4e946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 33/46] fix: the Delaunay triangulation covers the convex hull

---
 geom/src/lib.rs | 57 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index 75ae283..534e6b0 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -56,26 +56,40 @@ impl Triangle {
 }
 
 pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>, Vec<[usize; 3]>) {
-    let original_points = {
-        let center = points.iter()
-            .fold(ConstVector::<f64, 2>::zero(), |accum, x| accum+*x )
-            / points.len() as f64;
-        let r = points.iter()
-            .map(|p| (*p-center).two_norm())
-            .max_by(|p, q| p.partial_cmp(q).unwrap())
-            .unwrap()
-             + 1_f64;
-        let p1 = center + ConstVector::<f64, 2>::from( [0_f64, 2.0*r] );
-        let p2 = center + ConstVector::<f64, 2>::from( [3_f64.sqrt()*r, -r] );
-        let p3 = center + ConstVector::<f64, 2>::from( [-3_f64.sqrt()*r, -r] );
-        [p1,p2,p3]
-    };
-    
-    let index = |i: usize| {
-        if i<points.len(){
-            points[i]
-        } else {
-            original_points[i-points.len()]
+    // The vertices of the original triangle lie infinitely far away in these directions (all of the same length).
+    // At any finite distance they would end up in the circumcircles of flat triangles, which would then be missing.
+    let directions = [
+        ConstVector::<f64, 2>::from( [0_f64, 2_f64] ),
+        ConstVector::<f64, 2>::from( [3_f64.sqrt(), -1_f64] ),
+        ConstVector::<f64, 2>::from( [-3_f64.sqrt(), -1_f64] ),
+    ];
+
+    let circum_circle_contains = |t: [usize; 3], p: ConstVector<f64, 2>| {
+        let det = |v: ConstVector<f64, 2>, w: ConstVector<f64, 2>| v[0]*w[1] - v[1]*w[0];
+        let dot = |v: ConstVector<f64, 2>, w: ConstVector<f64, 2>| v[0]*w[0] + v[1]*w[1];
+
+        let vertices: Vec<_> = t.iter().filter(|&&i| i<points.len()).map(|&i| points[i]).collect();
+        let at_infinity = |k: usize| t.contains( &(points.len()+k) );
+        match vertices[..] {
+            // everything is inside of the original triangle
+            [] => true,
+            // the circle is a half plane facing away from the remaining direction
+            [a] => {
+                let k = (0..3).find(|&k| !at_infinity(k)).unwrap();
+                let height = dot(directions[k], p-a);
+                height < 0.0 || ( height == 0.0 && dot(p, p) < dot(a, a) )
+            },
+            // the circle is the half plane beyond the edge
+            [a, b] => {
+                let k = (0..3).find(|&k| at_infinity(k)).unwrap();
+                let side = match det(b-a, directions[k]) {
+                    x if x == 0.0 => det(a, b), // parallel
+                    x => x,
+                };
+                let side_of_p = det(b-a, p-a);
+                if side_of_p == 0.0 { dot(p-a, p-b) < 0.0 } else { (side_of_p > 0.0) == (side > 0.0) }
+            },
+            _ => Triangle::new([points[t[0]], points[t[1]], points[t[2]]]).circum_circle_contains(p),
         }
     };
 
@@ -85,8 +99,7 @@ pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>,
     for i in 0..points.len() {
         let mut bad_triangles = Vec::new();
         for &t in &triangulation {
-            let triangle = Triangle::new([index(t[0]), index(t[1]), index(t[2])]);
-            if triangle.circum_circle_contains(points[i]) {
+            if circum_circle_contains(t, points[i]) {
                 bad_triangles.push( t );
             }
         }
-- 
2.43.0


From 9be87cd40678773636647a64cc3506da7e19efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 34/46] fix: the Householder reflection of a negative multiple
 of the first unit vector is a reflection

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index cc81c19..d59075b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1284,7 +1284,7 @@ impl Matrix<f64> {
         if a==0.0 && b>=0.0 {
             (self, 0.0)
         } else if a==0.0 && b<0.0 {
-            (self, -2.0)
+            (self, 2.0)
         } else {
             let u = (a+b*b).sqrt();
             self[(0,0)] = if b<=0.0 {
-- 
2.43.0


From 7041a85cfa13b0b2f64ac4495244daa7208277cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 35/46] fix: the eigenvalues of a two by two block with a real
 double eigenvalue are found

---
 alg/src/lin_alg/matrix_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index d59075b..153991f 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1694,10 +1694,11 @@ impl SubMatrix<f64> {
 
     fn real_spectrum_of_two_by_two(&self) -> Option<(f64, f64)> {
         debug_assert_eq!( self.size(), (2,2) );
-        let det = self[(0,0)] * self[(1,1)] - self[(0,1)] * self[(1,0)];
         let m = (self[(0,0)] + self[(1,1)]) / 2.0;
-        if m*m-det > 0.0 {
-            let rad = (m*m-det).sqrt();
+        let d = (self[(0,0)] - self[(1,1)]) / 2.0;
+        let discriminant = d*d + self[(0,1)] * self[(1,0)];
+        if discriminant >= 0.0 {
+            let rad = discriminant.sqrt();
             Some((m-rad, m+rad))
         } else {
             None
-- 
2.43.0


From f44f14a4b9975fc13bf0505fdb3a14f76896fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 36/46] fix: the symmetric QR iteration accepts a matrix of
 size one

---
 alg/src/lin_alg/matrix_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 153991f..e432a78 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1960,6 +1960,7 @@ impl SubMatrix<f64> {
         let n = self.size().0;
         let tolerance = 0.0000000001;
         let mut op = Matrix::identity(n);
+        if n < 2 { return op; }
         self.householder_tridiagonalization(with_op);
         if with_op {
             op = Matrix::identity(n);
-- 
2.43.0


From 0f3df797fdd33aa290a4d9f0a1340e81bba75566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 37/46] fix: the determinant and the linear solver pivot, so
 that a zero on the diagonal is no obstacle

---
 alg/src/lin_alg/matrix_impl.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index e432a78..0b916dc 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1153,9 +1153,9 @@ impl Matrix<f64> {
         };
 
         // this implementation of determinant is based on LU decomposition
-        self.lu();
+        let pivots = self.lu_with_pivoting();
         (0..self.size().0)
-            .map(|i| self[(i,i)])
+            .map(|i| if pivots[i]==i { self[(i,i)] } else { -self[(i,i)] })
             .product()
     }
 
@@ -1331,7 +1331,10 @@ impl Matrix<f64> {
             b.size
         );
         let n = self.size().0;
-        self[(..,..)].lu();
+        let pivots = self.lu_with_pivoting();
+        for i in 0..n {
+            b.swap_rows(i, pivots[i]);
+        }
         
         // Solve Ly = b by forward substitution
         for i in 1..n {
@@ -1717,6 +1720,22 @@ impl SubMatrix<f64> {
         }
     }
 
+    // the LU decomposition with partial pivoting. The i-th step swaps the i-th row and the 'out[i]'-th row.
+    fn lu_with_pivoting(&mut self) -> Vec<usize> {
+        let n = self.size().0;
+        (0..n).map(|i| {
+            let pivot = (i+1..n).fold(i, |p, k| if self[(k,i)].abs() > self[(p,i)].abs() { k } else { p });
+            self.swap_rows(i, pivot);
+            if self[(i,i)] == 0.0 { return pivot; }
+            for k in i+1..n {
+                self[(k,i)] /= self[(i,i)];
+                for j in i+1..n {
+                    self[(k,j)] -= self[(k,i)] * self[(i,j)];
+                }
+            }
+            pivot
+        }).collect()
+    }
 
     pub fn hessenberg_form(&mut self) {
         if self.size().0 != self.size().1 {
-- 
2.43.0


From 080be73bf3de44a3721bbd3e58e301cfb20cdef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 38/46] fix: the QR iteration does not get stuck on matrices
 its shifts leave unchanged

---
 alg/src/lin_alg/matrix_impl.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 0b916dc..738ae62 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1765,6 +1765,14 @@ impl SubMatrix<f64> {
             "Input to this function must be a square matrix."
         );
         let n = self.size().0;
+        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
+        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
+        self.raw_francis_step_with_shifts(s, t, return_op)
+    }
+
+    // 's' is the sum of the two shifts and 't' is their product.
+    fn raw_francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
+        let n = self.size().0;
 
         let op = if return_op {
             Matrix::identity(n)
@@ -1772,8 +1780,6 @@ impl SubMatrix<f64> {
             Matrix::identity(1)
         };
 
-        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
-        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
         let mut x = self[(0,0)]*self[(0,0)] + self[(0,1)]*self[(1,0)] -s*self[(0,0)] + t;
         let mut y = self[(1,0)] * (self[(0,0)] + self[(1,1)] - s);
         let mut z = self[(1,0)]*self[(2,1)];
@@ -1842,6 +1848,7 @@ impl SubMatrix<f64> {
         let tolerance = 0.000000000000001;
         let mut q=0;
         let mut p;
+        let mut n_steps = 0;
 
         while q!=n {
             for i in 1..n {
@@ -1861,11 +1868,18 @@ impl SubMatrix<f64> {
 
             if q<n {
                 debug_assert!( (n-q)-p > 2);
-                if returns_op {
-                    op = op * self[(p..n-q, p..n-q)].francis_step_with_op();
+                let m = n-q;
+                n_steps += 1;
+                let step_op = if n_steps % 10 == 0 {
+                    // the usual shifts can leave the matrix unchanged, and so other shifts are needed from time to time.
+                    let h = self[(m-1,m-2)].abs() + self[(m-2,m-3)].abs();
+                    self[(p..m, p..m)].raw_francis_step_with_shifts(1.5*h, h*h, returns_op)
                 } else {
-                    self[(p..n-q, p..n-q)].francis_step();
+                    self[(p..m, p..m)].raw_francis_step(returns_op)
                 };
+                if returns_op {
+                    op = op * step_op;
+                }
             }
         };
 
-- 
2.43.0


From 25b9b98ed793c2d1d39d02330d6213e93fcbdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 39/46] fix: the inverse iteration survives a shift that is
 exactly an eigenvalue

---
 alg/src/lin_alg/matrix_impl.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 738ae62..a66395f 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1316,7 +1316,18 @@ impl Matrix<f64> {
         }
     }
 
-    pub fn solve(mut self, mut b: Matrix<f64>) -> Self {
+    pub fn solve(self, b: Matrix<f64>) -> Self {
+        self.solve_with_least_pivot(b, 0.0)
+    }
+
+    // Used for the inverse iteration, for which a multiple of a solution is enough: a vanishing pivot, which is what
+    // the shift by an exact eigenvalue leads to, is replaced by a tiny one.
+    fn solve_near_singular(self, b: Matrix<f64>) -> Self {
+        let least_pivot = f64::EPSILON * self.inf_norm().max(1e-100);
+        self.solve_with_least_pivot(b, least_pivot)
+    }
+
+    fn solve_with_least_pivot(mut self, mut b: Matrix<f64>, least_pivot: f64) -> Self {
         assert_eq!(
             self.size().0, 
             self.size().1, 
@@ -1332,6 +1343,9 @@ impl Matrix<f64> {
         );
         let n = self.size().0;
         let pivots = self.lu_with_pivoting();
+        for i in 0..n {
+            if self[(i,i)].abs() < least_pivot { self[(i,i)] = least_pivot; }
+        }
         for i in 0..n {
             b.swap_rows(i, pivots[i]);
         }
@@ -1406,10 +1420,10 @@ impl Matrix<f64> {
                 m[(j,j)] -= lambda;
             }
 
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
+            let mut update = m.clone().solve_near_singular( eigen_vectors[(.., i)].as_matrix() );
             update /= update.two_norm();
             eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
+            let mut update = m.solve_near_singular( eigen_vectors[(.., i)].as_matrix() );
             update /= update.two_norm();
             eigen_vectors[(.., i)].write_and_move( update );
         }
@@ -1473,10 +1487,10 @@ impl Matrix<f64> {
                 m[(j,j)] -= lambda;
             }
 
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
+            let mut update = m.clone().solve_near_singular( eigen_vectors[(.., i)].as_matrix() );
             update /= update.two_norm();
             eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
+            let mut update = m.solve_near_singular( eigen_vectors[(.., i)].as_matrix() );
             update /= update.two_norm();
             eigen_vectors[(.., i)].write_and_move( update );
         }
@@ -1511,10 +1525,10 @@ impl Matrix<f64> {
                 m[(j,j)] -= lambda;
             }
 
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
+            let mut update = m.clone().solve_near_singular( eigen_vectors[(.., i)].as_matrix() );
             update /= update.two_norm();
             eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
+            let mut update = m.solve_near_singular( eigen_vectors[(.., i)].as_matrix() );
             update /= update.two_norm();
             eigen_vectors[(.., i)].write_and_move( update );
         }
@@ -1546,10 +1560,10 @@ impl Matrix<f64> {
             m[(j,j)] -= lambda;
         }
 
-        let mut update = m.clone().solve( eigen_vectors[(.., 0)].as_matrix() );
+        let mut update = m.clone().solve_near_singular( eigen_vectors[(.., 0)].as_matrix() );
         update /= update.two_norm();
         eigen_vectors[(.., 0)].write_and_move( update );
-        let mut update = m.solve( eigen_vectors[(.., 0)].as_matrix() );
+        let mut update = m.solve_near_singular( eigen_vectors[(.., 0)].as_matrix() );
         update /= update.two_norm();
         eigen_vectors[(.., 0)].write_and_move( update );
 
-- 
2.43.0


From 77384fddb827e35357bd405157e1e3335df7c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 40/46] fix: the inverse iteration does not start orthogonal to
 the eigenvectors of a Laplacian

---
 alg/src/lin_alg/matrix_impl.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a66395f..736fc3a 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1399,12 +1399,12 @@ impl Matrix<f64> {
         );
         let n = self.size().0;
 
-        // initialize the eigenvectors
+        // initialize the eigenvectors. The entries satisfy no algebraic relation, so that an eigenvector of a matrix
+        // such as a Laplacian is not orthogonal to the initial vector.
         let mut eigen_vectors = Matrix::<f64>::new(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
         for i in 0..n {
             for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
+                eigen_vectors[(i,j)] = ((i+1) as f64).sin();
             }
         }
 
@@ -1466,12 +1466,12 @@ impl Matrix<f64> {
         );
         let n = self.size().0;
 
-        // initialize the eigenvectors
+        // initialize the eigenvectors. The entries satisfy no algebraic relation, so that an eigenvector of a matrix
+        // such as a Laplacian is not orthogonal to the initial vector.
         let mut eigen_vectors = Matrix::<f64>::new(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
         for i in 0..n {
             for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
+                eigen_vectors[(i,j)] = ((i+1) as f64).sin();
             }
         }
 
@@ -1504,12 +1504,12 @@ impl Matrix<f64> {
         );
         let size = self.size().0;
 
-        // initialize the eigenvectors
+        // initialize the eigenvectors. The entries satisfy no algebraic relation, so that an eigenvector of a matrix
+        // such as a Laplacian is not orthogonal to the initial vector.
         let mut eigen_vectors = Matrix::<f64>::new(size, n);
-        let elem = 1.0 / (size as f64).sqrt();
         for i in 0..size {
             for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
+                eigen_vectors[(i,j)] = ((i+1) as f64).sin();
             }
         }
 
@@ -1542,11 +1542,11 @@ impl Matrix<f64> {
         );
         let size = self.size().0;
 
-        // initialize the eigenvectors
+        // initialize the eigenvectors. The entries satisfy no algebraic relation, so that an eigenvector of a matrix
+        // such as a Laplacian is not orthogonal to the initial vector.
         let mut eigen_vectors = Matrix::<f64>::new(size, 1);
-        let elem = 1.0 / (size as f64).sqrt();
         for i in 0..size {
-            eigen_vectors[(i,0)] = elem;
+            eigen_vectors[(i,0)] = ((i+1) as f64).sin();
         }
 
         // get the eigenvalues
-- 
2.43.0


From 68132baaba4e84ce8ea7784505311727a56bdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:12 +0000
Subject: [PATCH 41/46] fix: the tridiagonalization records the reflections it
 applies, also for matrices of size at most two

---
 alg/src/lin_alg/matrix_impl.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 736fc3a..0752074 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1910,14 +1910,20 @@ impl SubMatrix<f64> {
 
     pub fn householder_tridiagonalization(&mut self, with_op: bool) {
         let n = self.size().0;
-        for i in 0..n-2 {
-            let (v, b) = self[(i+1.., i)].householder_vec();
+        for i in 0..n.saturating_sub(2) {
+            let (v, mut b) = self[(i+1.., i)].householder_vec();
+            let mut norm = self[(i+1.., i)].two_norm();
+            if b == 0.0 {
+                // 'v' alone cannot tell the identity from a reflection, and so it always stands for a reflection.
+                b = 2.0;
+                norm = -norm;
+            }
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
             let p = &*p;
             let w = p - v * b/2.0*(v.transpose().dot(p));
             let w = &*w;
-            self[(i+1, i)] = self[(i+1.., i)].two_norm();
+            self[(i+1, i)] = norm;
             self[(i, i+1)] = self[(i+1, i)];
 
 
@@ -2009,7 +2015,7 @@ impl SubMatrix<f64> {
         let mut op = Matrix::identity(n);
         if n < 2 { return op; }
         self.householder_tridiagonalization(with_op);
-        if with_op {
+        if with_op && n > 2 {
             op = Matrix::identity(n);
             op[(1..,1..)].write( &(self[(2..,..n-2)].extract_householder_vecs()) );
         };
-- 
2.43.0


From 833ab29ea223ed886e00f8e5f731ad259a433a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:12 +0000
Subject: [PATCH 42/46] fix: the symmetric QR iteration applies its rotations
 to the rows of the block it works on

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 0752074..a8d8af8 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -2052,8 +2052,8 @@ impl SubMatrix<f64> {
                     for (i, c,s) in (0..givens.size.0).map(|i| (i, givens[(i,0)], givens[(i,1)])) {
                         let givens =  matrix!(f64; [[c, -s],[s, c]]);
                         let givens = &*givens;
-                        let update = givens * &op[(i..i+2, ..)];
-                        op[(i..i+2, ..)].write(&update);
+                        let update = givens * &op[(p+i..p+i+2, ..)];
+                        op[(p+i..p+i+2, ..)].write(&update);
                     }
                 }
             }
-- 
2.43.0


From 8cb241c0fe2060f2ffe0c41f4b340cfc52944c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 43/46] fix: the QR iteration returns the orthogonal operator
 it applied

---
 alg/src/lin_alg/matrix_impl.rs | 54 +++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a8d8af8..7eca58f 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1752,15 +1752,25 @@ impl SubMatrix<f64> {
     }
 
     pub fn hessenberg_form(&mut self) {
+        self.raw_hessenberg_form(false);
+    }
+
+    fn raw_hessenberg_form(&mut self, return_op: bool) -> Matrix<f64> {
         if self.size().0 != self.size().1 {
             panic!("Input to this function must be a square matrix.");
         }
 
-        if self.size().0 < 2 {
-            return;
+        let n = self.size().0; // = self.size().1
+        let mut op = if return_op {
+            Matrix::identity(n)
+        } else {
+            Matrix::identity(1)
+        };
+
+        if n < 2 {
+            return op;
         }
 
-        let n = self.size().0; // = self.size().1
         for k in 0..n-2 {
             let (v, b) = self[(k+1..n, k)].householder_vec();
             let v = &*v;
@@ -1771,7 +1781,14 @@ impl SubMatrix<f64> {
 
             let update = &self[(0..n, k+1..n)] - (&self[(0..n, k+1..n)]*v)*v_t*b;
             self[(0..n, k+1..n)].write_and_move( update );
+
+            if return_op {
+                let update = &op[(.., k+1..n)] - (&op[(.., k+1..n)] * v) * (v_t * b);
+                op[(.., k+1..n)].write_and_move( update );
+            }
         };
+
+        op
     }
 
     pub fn raw_francis_step(&mut self, return_op: bool) -> Matrix<f64> {
@@ -1788,7 +1805,7 @@ impl SubMatrix<f64> {
     fn raw_francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
         let n = self.size().0;
 
-        let op = if return_op {
+        let mut op = if return_op {
             Matrix::identity(n)
         } else {
             Matrix::identity(1)
@@ -1814,6 +1831,10 @@ impl SubMatrix<f64> {
             self[(0..r, k..k+3)].write_and_move(
                 update
             );
+            if return_op {
+                let update = &op[(.., k..k+3)] - (&op[(.., k..k+3)] * v) * (v.transpose()*b);
+                op[(.., k..k+3)].write_and_move( update );
+            }
             x = self[(k+1, k)];
             y = self[(k+2, k)];
             if k < n-3 {
@@ -1831,6 +1852,11 @@ impl SubMatrix<f64> {
             (&self[(0..n, n-2..n)] * v) * (v.transpose()*b);
         self[(0..n, n-2..n)].write_and_move( update );
 
+        if return_op {
+            let update = &op[(.., n-2..n)] - (&op[(.., n-2..n)] * v) * (v.transpose()*b);
+            op[(.., n-2..n)].write_and_move( update );
+        }
+
         op
     }
 
@@ -1852,12 +1878,7 @@ impl SubMatrix<f64> {
             return Matrix::identity(1);
         }
 
-        self.hessenberg_form();
-        let mut op = if returns_op {
-            Matrix::identity(n)
-        } else {
-            Matrix::identity(1)
-        };
+        let mut op = self.raw_hessenberg_form(returns_op);
 
         let tolerance = 0.000000000000001;
         let mut q=0;
@@ -1892,7 +1913,18 @@ impl SubMatrix<f64> {
                     self[(p..m, p..m)].raw_francis_step(returns_op)
                 };
                 if returns_op {
-                    op = op * step_op;
+                    // the step is a change of basis of the whole matrix
+                    let step_op = &*step_op;
+                    let update = &op[(.., p..m)] * step_op;
+                    op[(.., p..m)].write_and_move( update );
+                    if p > 0 {
+                        let update = &self[(0..p, p..m)] * step_op;
+                        self[(0..p, p..m)].write_and_move( update );
+                    }
+                    if m < n {
+                        let update = step_op.transpose() * &self[(p..m, m..n)];
+                        self[(p..m, m..n)].write_and_move( update );
+                    }
                 }
             }
         };
-- 
2.43.0


From 63e66b86d63de45fe377f34188a6e8eb2de38444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 44/46] fix: the QR iteration of a matrix hands back its
 operator

---
 alg/src/lin_alg/matrix_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 7eca58f..2e6ff75 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -2262,7 +2262,7 @@ macro_rules! mut_ref_fn_cast_impl_for_matrix {
         impl Matrix<f64> {
             $(
                 pub fn $fn(&mut self) -> $out {
-                    self[(.., ..)].$fn();
+                    self[(.., ..)].$fn()
                 }
             ) *
         }
@@ -2273,8 +2273,8 @@ mut_ref_fn_cast_impl_for_matrix!{
     (hessenberg_form, ())
     (francis_step, ())
     (qr, ()) 
-    (francis_step_with_op, ())
-    (qr_with_op, ()) 
+    (francis_step_with_op, Matrix<f64>)
+    (qr_with_op, Matrix<f64>) 
 }
 
 // macro_rules! fn_cast_impl_for_matrix {
-- 
2.43.0


From 1ad56eb3c4113bcd376cb61abb74190ed38e0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:45 +0000
Subject: [PATCH 45/46] fix: a derivative contains no empty products

The derivative of a product with one factor contained the product of no
functions, which is printed as nothing: the derivative of -x[0] was (-).
---
 analysis/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analysis/src/lib.rs b/analysis/src/lib.rs
index f73d91c..919cb62 100644
--- a/analysis/src/lib.rs
+++ b/analysis/src/lib.rs
@@ -330,7 +330,8 @@ impl AtomicSmoothFn {
                         let (coeff, basis) = clone.remove(0);
                         basis.powi(coeff)
                     } else {
-                        Self::Product(clone) * f.powi(e-1) * e as f64 * dfdn
+                        // 'clone' may have at most one element left
+                        [Self::Product(clone)].into_iter().product::<Self>() * f.powi(e-1) * e as f64 * dfdn
                     }
                 })
                 .filter(|f| f != &Self::Zero)
-- 
2.43.0


From c6cea8e5418a33d23be2909b2910c013233f1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:28 +0000
Subject: [PATCH 46/46] fix: the Smith normal form pivots on units first, so
 that the entries do not outgrow 64 bits

---
 alg/src/lin_alg/matrix_impl.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 2e6ff75..2ce6766 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -900,7 +900,18 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
 
         // now run the general algorithm
         while i < self.size().0 && j < self.size().1 {
-            // choosing a pivot
+            // choosing a pivot. A unit, if there is any, needs no improvement and keeps the entries from growing
+            let unit = (j..self.size().1).find_map(|l| 
+                (i..self.size().0).find(|&k| self[(k, l)] != T::zero() && self[(k, l)].divides(T::one())).map(|k| (k, l))
+            );
+            if let Some((k, l)) = unit {
+                self.swap_rows(i, k);
+                r_op.swap_rows(i, k);
+                r_op_inv.swap_cols(i, k);
+                self.swap_cols(j, l);
+                c_op.swap_cols(j, l);
+                c_op_inv.swap_rows(j, l);
+            }
             j = match (j..self.size().1).find(|&l| (i..self.size().0).any(|k| self[(k, l)] != T::zero()) ){
                 Some(l) => l,
                 None => break,
-- 
2.43.0

