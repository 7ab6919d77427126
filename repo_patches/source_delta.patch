From 15679040e10aefb825c0863c5efef93b6b3f081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 01/30] fix: place the remainder of a partly consumed short
 collection inside its vector

SIMDIterator::end added the position of each element to the number of empty
lanes, so that for a collection of at most one vector which had been advanced
by some scalars it wrote past the end of the vector.
---
 src/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..9cac923 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -535,7 +535,7 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
             } else {
                 for i in self.scalar_pos()..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i - self.scalar_pos() + empty_amt, self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -603,7 +603,7 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i - offset + empty_amt, self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From 8fa68143945feb91a9f600f6b6f71a6dbb7b1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 02/30] fix: keep elements already consumed when simd_for_each
 meets only a remainder

On an iterator whose full vectors had all been consumed before the call,
simd_for_each overwrote the elements in front of the remainder with the
element type's default value.
---
 src/iters.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 9cac923..cfb635e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -552,10 +552,12 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
         let mut lastvec = Self::Vector::default();
+        let mut stored = false;
 
         while let Some(mut v) = self.next() {
             func(&mut v);
             lastvec = v;
+            stored = true;
             let offset = self.scalar_pos() - self.width();
             unsafe { self.data.store_unchecked(v, offset); }
         }
@@ -563,14 +565,14 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
         if let Some((mut p, n)) = self.end() {
             func(&mut p);
             let width = self.width();
-            if self.width() < self.scalar_len() {
+            if stored {
                 // We stored a vector in this buffer; overwrite the unused elements
                 unsafe {
                     self.data.store_unchecked(p, offset - n);
                     self.data.store_unchecked(lastvec, offset - width);
                 }
             } else {
-                // The buffer won't fit one vector; store elementwise
+                // We have no vector to overwrite unused elements with; store elementwise
                 for i in 0..(width - n) {
                     unsafe { self.data.store_scalar_unchecked(p.extract_unchecked(i + n), offset + i); }
                 }
-- 
2.43.0


From 1fcb9fd9cd26c026d9e743da53cca8fa22e52710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 03/30] fix: only return collected elements from scalar_collect

When a partly consumed iterator had no remainder, scalar_collect returned as
many elements as the whole collection has, the last of them uninitialized.
---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index cfb635e..2f43e96 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -729,7 +729,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From 94e246bf8d784de7681c372b3fabb00ee3e7ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 04/30] fix: never write past the end of the slice given to
 scalar_fill

scalar_fill and scalar_fill_all are safe functions, but stored vectors into a
destination of any length without checking it.
---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 2f43e96..1189242 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -741,7 +741,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -749,10 +749,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -783,12 +781,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From 66ff81738c579575dc2a1bdbc8684e205db091a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 05/30] fix: return all elements from scalar_collect_all

The vector was sized by the number of SIMD vectors, not of scalars, so that
the elements were stored outside of it and missing from the result.
---
 src/iters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 1189242..53f89a0 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -768,10 +768,20 @@ impl<'a, T, I> IntoScalar<T> for I
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let mut offset = 0;
 
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From bc83ee2a1a0e208e9ff98ed0703ffe68a09d0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 06/30] fix: measure the scalar length of a SIMDMap in scalars

It was the number of vectors, so vector_len was too small and finalize
underflowed.
---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 53f89a0..5632d71 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -645,7 +645,7 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.iter.scalar_len()
     }
 }
 
-- 
2.43.0


From b43e1f216ec7560a671c932912fc8a7f7a5e5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 07/30] fix: refuse to zip iterators whose scalar lengths or
 widths differ

zip() only compared the number of whole vectors, so collections whose lengths
differ by less than a vector (or which pack differently sized elements) were
accepted, and the shorter ones were then read out of bounds.
---
 src/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..cb6f2e1 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,7 +225,7 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len() || self.0.width() != self.$n.width())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
                 Zip { iters: self }
-- 
2.43.0


From 34588fab044014aff09f151010f68ab29214dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 08/30] fix: measure the scalar length of a Zip in scalars

It reported its number of vectors, so finalize() left elements behind or
underflowed, and vector_len() was wrong.
---
 src/zip.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zip.rs b/src/zip.rs
index cb6f2e1..32189c2 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -289,6 +289,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
-- 
2.43.0


From af298b842942c0cf4ef76fa0a0f138293f471c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 09/30] fix: yield the last full vector of a strided iterator
 from next()

next() compared the index one stride past the vector with a strict bound, so
the last full vector of most strided iterators was only reachable via end().
---
 src/stride.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..c1e5b59 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,7 +32,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
+        if self.scalar_pos() + self.width() <= self.scalar_len() {
             let mut ret = <Self as SIMDObject>::Vector::default();
             for i in 0..self.width() {
                 ret = ret.replace(i, unsafe {
-- 
2.43.0


From 1271541be3b07a11383ab6589a223a0cdc1b5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 10/30] fix: report the number of remaining vectors from len()
 and size_hint()

ExactSizeIterator requires len() to shrink as items are yielded and size_hint()
to agree with it; len() was constant, and size_hint() was the default (0, None).
---
 src/iters.rs      | 12 +++++++++++-
 src/stride.rs     |  7 ++++++-
 src/stride_zip.rs |  4 ++++
 src/zip.rs        | 10 ++++++++++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 5632d71..12a3f9f 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -456,7 +456,7 @@ impl<A> SIMDObject for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::S
 impl<A> ExactSizeIterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.data.scalar_len() / self.width()
+        self.scalar_len().saturating_sub(self.position) / self.width()
     }
 }
 
@@ -474,6 +474,11 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<A> SIMDArray for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
@@ -621,6 +626,11 @@ impl<A, B, I, F> Iterator for SIMDMap<I, F>
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(&mut self.func)
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<I, F> ExactSizeIterator for SIMDMap<I, F> where Self : Iterator, I : SIMDIterable {
diff --git a/src/stride.rs b/src/stride.rs
index c1e5b59..3783ce6 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -46,12 +46,17 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, A> ExactSizeIterator for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.vector_len() / self.stride
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..bde0243 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -90,6 +90,10 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
diff --git a/src/zip.rs b/src/zip.rs
index 32189c2..f2b6c04 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -251,6 +251,11 @@ macro_rules! impl_iter_zip {
                     (v, $(self.iters.$n.next_unchecked(pos)),*)
                 })
             }
+
+            #[inline(always)]
+            fn size_hint(&self) -> (usize, Option<usize>) {
+                self.iters.0.size_hint()
+            }
         }
 
         impl<$($a),*> SIMDZippedObject for Zip<($($a),*)>
@@ -315,6 +320,11 @@ impl<I, F, A> Iterator for SIMDZipMap<I, F>
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(&mut self.func)
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<I, F, A> ExactSizeIterator for SIMDZipMap<I, F>
-- 
2.43.0


From b576fc350beb4cb40a6f836086c799e94042e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 11/30] fix: pair up every remaining element at the end of a
 StrideZip

next() consumed a lone trailing vector, and end() mixed padding in between the
elements or dropped them, for every length which is not a multiple of two
vectors.
---
 src/stride_zip.rs | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index bde0243..a64411e 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -5,7 +5,6 @@ use crate::zip::{SIMDZippedIterable, SIMDZippedIterator, SIMDZippedObject};
 
 pub struct StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     base: usize,
-    peek: Option<T::Vector>,
     iter: T
 }
 
@@ -20,7 +19,6 @@ impl<T> IntoStrideZip for T where T : SIMDIterator, T::Vector : Destride {
     fn stride_zip(self) -> StrideZip<Self> {
         StrideZip {
             base: self.scalar_pos(),
-            peek: None,
             iter: self
         }
     }
@@ -81,14 +79,13 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     type Item = <Self as SIMDZippedObject>::Vectors;
     
     fn next(&mut self) -> Option<Self::Item> {
-        let first = self.iter.next()?;
-        let second = self.iter.next();
-        if let Some(second) = second {
-            Some(first.destride_two(second))
-        } else {
-            self.peek = Some(first);
-            None
+        if self.iter.len() < 2 {
+            // Leave a lone vector for end()
+            return None;
         }
+        let first = self.iter.next()?;
+        let second = self.iter.next()?;
+        Some(first.destride_two(second))
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
@@ -99,18 +96,25 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
         let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
-            } else {
-                None
-            }
+        let taken = if first.is_some() { self.width() } else { 0 };
+        let (last, n) = self.iter.end().unwrap_or((self.iter.default(), self.width()));
+        let pairs = (taken + self.width() - n) / 2;
+        if pairs == 0 {
+            return None;
+        }
+
+        // Right-align the pairs, as the other iterators do
+        let empty_amt = self.width() - pairs;
+        let mut even = self.iter.default();
+        let mut odd = self.iter.default();
+        for i in 0..pairs {
+            let pick = |idx: usize| match first {
+                Some(first) if idx < taken => first.extract(idx),
+                _ => last.extract(n + idx - taken)
+            };
+            even = even.replace(empty_amt + i, pick(2 * i));
+            odd = odd.replace(empty_amt + i, pick(2 * i + 1));
         }
+        Some(((even, odd), empty_amt))
     }
 }
-- 
2.43.0


From e2972fab4b5c260e5dd637f43c0a16e9504a4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 12/30] fix: exclude elements before the start of a StrideZip
 from its length

---
 src/stride_zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index a64411e..ce0c6de 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -61,7 +61,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len() / 2
+        self.iter.scalar_len().saturating_sub(self.base) / 2
     }
 
     #[inline(always)]
-- 
2.43.0


From 5fe1e3f796b3e71233a93e63f97cbbc93374135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 13/30] fix: return the next whole vector from end() while one
 is left

end() is documented to return up to the next width() elements. With more than a
partial vector left, it underflowed: a panic in debug builds, and a garbage
vector, assembled with an out-of-bounds mask, in release builds.
---
 src/iters.rs      | 4 ++++
 src/stride_zip.rs | 4 ++++
 src/zip.rs        | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/iters.rs b/src/iters.rs
index 12a3f9f..7886d5c 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -530,6 +530,10 @@ impl<A> SIMDIterable for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A:
 impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S, Vector = V>, S : Packable, V : Packed<Scalar = S> {
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
+        if self.len() > 0 {
+            // More than a partial vector is left
+            return self.next().map(|v| (v, 0));
+        }
         if self.scalar_pos() < self.scalar_len() {
             let mut ret = self.default();
             let empty_amt = self.width() - (self.scalar_len() - self.scalar_pos());
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index ce0c6de..7f93585 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -95,6 +95,10 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
+        if self.len() > 0 {
+            // More than a partial vector is left
+            return self.next().map(|v| (v, 0));
+        }
         let first = self.iter.next();
         let taken = if first.is_some() { self.width() } else { 0 };
         let (last, n) = self.iter.end().unwrap_or((self.iter.default(), self.width()));
diff --git a/src/zip.rs b/src/zip.rs
index f2b6c04..829190d 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -279,6 +279,10 @@ macro_rules! impl_iter_zip {
 
             #[inline(always)]
             fn end(&mut self) -> Option<(Self::Vectors, usize)> {
+                if self.len() > 0 {
+                    // More than a partial vector is left
+                    return self.next().map(|v| (v, 0));
+                }
                 let pos = self.iters.0.scalar_pos();
                 self.iters.0.end().map(|(v, n)| unsafe {
                     ((v, $(self.iters.$n.end_unchecked(pos, n)),*), n)
-- 
2.43.0


From f8eaa40ffce0401d5588c4eb71d235223fc9719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 14/30] fix: do not load out of bounds after an advance or at
 an offset near usize::MAX

The bounds checks of SIMDIter::next and PackedStride::load overflowed; without
overflow checks they passed, and the unchecked load behind them read wild memory.
---
 src/iters.rs  | 2 +-
 src/stride.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 7886d5c..77b3c69 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -465,7 +465,7 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.len() > 0 {
             let ret = unsafe { self.load_unchecked(self.position) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
diff --git a/src/stride.rs b/src/stride.rs
index 3783ce6..1e94dff 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,7 +32,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.scalar_pos() + self.width() <= self.scalar_len() {
+        if self.len() > 0 {
             let mut ret = <Self as SIMDObject>::Vector::default();
             for i in 0..self.width() {
                 ret = ret.replace(i, unsafe {
@@ -298,6 +298,7 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
+        assert!(offset < self.iter.scalar_len());
         assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
         unsafe { self.load_unchecked(offset) }
     }
-- 
2.43.0


From 9a77629520055bf926895c8881780ce30545c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 15/30] fix: always check the offset given to partition_mask

The mask table is transmuted to a slice which claims to be longer than it is, so
without debug assertions some offsets read past its end.
---
 src/arch/unknown/vec_patterns.rs | 20 +++++------
 src/arch/x86/vec_patterns.rs     | 60 ++++++++++++++++----------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/arch/unknown/vec_patterns.rs b/src/arch/unknown/vec_patterns.rs
index a4ce16f..e1fbb9b 100644
--- a/src/arch/unknown/vec_patterns.rs
+++ b/src/arch/unknown/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -112,7 +112,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -177,7 +177,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -234,7 +234,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -291,7 +291,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -344,7 +344,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -397,7 +397,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -450,7 +450,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -501,7 +501,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -552,7 +552,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
diff --git a/src/arch/x86/vec_patterns.rs b/src/arch/x86/vec_patterns.rs
index d5221cc..86f22a1 100644
--- a/src/arch/x86/vec_patterns.rs
+++ b/src/arch/x86/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -160,7 +160,7 @@ impl Pattern for u8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -241,7 +241,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -306,7 +306,7 @@ impl Pattern for i8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -419,7 +419,7 @@ impl Pattern for i8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -500,7 +500,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -565,7 +565,7 @@ impl Pattern for u16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -646,7 +646,7 @@ impl Pattern for u16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -711,7 +711,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -768,7 +768,7 @@ impl Pattern for i16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -849,7 +849,7 @@ impl Pattern for i16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -914,7 +914,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -971,7 +971,7 @@ impl Pattern for u32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1036,7 +1036,7 @@ impl Pattern for u32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1093,7 +1093,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1146,7 +1146,7 @@ impl Pattern for i32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1211,7 +1211,7 @@ impl Pattern for i32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1268,7 +1268,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1321,7 +1321,7 @@ impl Pattern for f32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1386,7 +1386,7 @@ impl Pattern for f32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1443,7 +1443,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1496,7 +1496,7 @@ impl Pattern for u64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1553,7 +1553,7 @@ impl Pattern for u64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1606,7 +1606,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1657,7 +1657,7 @@ impl Pattern for i64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1714,7 +1714,7 @@ impl Pattern for i64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1767,7 +1767,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1818,7 +1818,7 @@ impl Pattern for f64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1875,7 +1875,7 @@ impl Pattern for f64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1928,7 +1928,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
-- 
2.43.0


From 087fe884c9e7207ea40c2bdd55acde16c805437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 16/30] fix: let the fallback merge_partitioned take all
 elements from self

partition(), partition_mask() and the SSE4.1 and AVX2 merge_partitioned() accept
an offset of WIDTH; the fallback panicked.
---
 src/intrin/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intrin/merge.rs b/src/intrin/merge.rs
index 29ba3f1..ab45726 100644
--- a/src/intrin/merge.rs
+++ b/src/intrin/merge.rs
@@ -71,7 +71,7 @@ macro_rules! impl_packed_merge {
             #[inline(always)]
             fn merge_partitioned(&self, other: Self, offset: usize) -> Self {
                 fallback!();
-                assert!(offset < Self::WIDTH);
+                assert!(offset <= Self::WIDTH);
                 let mut ret = self.clone();
                 for i in offset..Self::WIDTH {
                     unsafe {
-- 
2.43.0


From 5d7db8e25621a9a6af3021a2d0fefdfde6a8aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 17/30] fix: make SIMDAdapter yield every element of its
 iterator, in order

It compared its position with the shrinking length of the inner iterator, so it
stopped halfway; end() reversed the remainder and miscounted its padding; and
advance() did not skip any elements.
---
 src/iters.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 77b3c69..a4b5d33 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -239,38 +239,41 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.len() > 0 {
             // Our iterator has at least one vector's worth of elements, so load
             // them all into our vector
             for offset in 0..self.width() {
-                unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
-                }
+                self.scratch = self.scratch.replace(offset, self.iter.next().unwrap());
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
+            self.position += self.width();
             Some(self.scratch)
         } else {
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
+        if self.len() > 0 {
+            // More than a partial vector is left
+            return self.next().map(|v| (v, 0));
+        }
         if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+            // This is the last vector we can load, so we should right-align it
+            // and use the default vector to fill blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
-            while let Some(item) = self.iter.next() {
-                unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
-                }
-                offset -= 1;
+            let empty_amt = self.width() - self.iter.len();
+            for offset in empty_amt..self.width() {
+                self.scratch = self.scratch.replace(offset, self.iter.next().unwrap());
+                self.position += 1;
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -287,7 +290,7 @@ impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<I
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.position + self.iter.len()
     }
 }
 
@@ -299,7 +302,12 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        for _ in 0..amount {
+            if self.iter.next().is_none() {
+                break;
+            }
+            self.position += 1;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 86093d72493337ba65fe9fc6a234292db7b55cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 18/30] fix: saturate every lane of a downcast u64 vector at
 u32::MAX

All lanes but the first (and third) were clamped to i32::MAX instead.
---
 src/arch/x86/intrin/downcast.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 55c4686..7916b05 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -52,9 +52,9 @@ impl Downcast<u32x4> for u64x2 {
     fn saturating_downcast(self, other: Self) -> u32x4 {
         fallback!();
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -330,13 +330,13 @@ impl Downcast<u32x8> for u64x4 {
     fn saturating_downcast(self, other: Self) -> u32x8 {
         fallback!();
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From 2ee81e91f03c533e1b507036af80855954c09697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 19/30] fix: saturate large unsigned elements upwards in
 saturating_downcast

PACKUS treats its inputs as signed, so the upper half of the range became zero.
---
 src/arch/x86/intrin/downcast.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 7916b05..875c4b4 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -105,7 +105,9 @@ impl Downcast<u16x8> for u32x4 {
     #[cfg(target_feature = "sse4.1")]
     fn saturating_downcast(self, other: Self) -> u16x8 {
         optimized!();
-        unsafe { transmute(_mm_packus_epi32(transmute(self), transmute(other))) }
+        // packus reads its arguments as signed
+        let (a, b) = (self.min(Self::splat(0xFFFF)), other.min(Self::splat(0xFFFF)));
+        unsafe { transmute(_mm_packus_epi32(transmute(a), transmute(b))) }
     }
 
     #[inline(always)]
@@ -128,7 +130,9 @@ impl Downcast<u8x16> for u16x8 {
     #[cfg(target_feature = "sse2")]
     fn saturating_downcast(self, other: Self) -> u8x16 {
         optimized!();
-        unsafe { _mm_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus reads its arguments as signed
+        let (a, b) = (self.min(Self::splat(0xFF)), other.min(Self::splat(0xFF)));
+        unsafe { _mm_packus_epi16(a.be_i16s(), b.be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
@@ -237,7 +241,9 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self), transmute(other))) }
+        // packus reads its arguments as signed
+        let (a, b) = (self.min(Self::splat(0xFFFF)), other.min(Self::splat(0xFFFF)));
+        unsafe { transmute(_mm256_packus_epi32(transmute(a), transmute(b))) }
     }
 
     #[inline(always)]
@@ -268,7 +274,9 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus reads its arguments as signed
+        let (a, b) = (self.min(Self::splat(0xFF)), other.min(Self::splat(0xFF)));
+        unsafe { _mm256_packus_epi16(a.be_i16s(), b.be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From 30296d4b26db7a76a305f8aa03343865038d2853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 20/30] fix: keep elements in order in saturating_downcast on
 AVX2

The 256-bit packs work within each 128-bit lane, so the middle quarters of the
result were swapped.
---
 src/arch/x86/intrin/downcast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 875c4b4..e40e28f 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -163,7 +163,7 @@ impl Downcast<i16x16> for i32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i16x16 {
         optimized!();
-        unsafe { _mm256_packs_epi32(self, other) }
+        unsafe { transmute(_mm256_permute4x64_epi64(_mm256_packs_epi32(self, other).be_i64s(), 0xD8)) }
     }
 
     #[inline(always)]
@@ -194,7 +194,7 @@ impl Downcast<i8x32> for i16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i8x32 {
         optimized!();
-        unsafe { _mm256_packs_epi16(self.be_i16s(), other) }
+        unsafe { transmute(_mm256_permute4x64_epi64(_mm256_packs_epi16(self.be_i16s(), other).be_i64s(), 0xD8)) }
     }
 
     #[inline(always)]
@@ -243,7 +243,7 @@ impl Downcast<u16x16> for u32x8 {
         optimized!();
         // packus reads its arguments as signed
         let (a, b) = (self.min(Self::splat(0xFFFF)), other.min(Self::splat(0xFFFF)));
-        unsafe { transmute(_mm256_packus_epi32(transmute(a), transmute(b))) }
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(a), transmute(b))), 0xD8)) }
     }
 
     #[inline(always)]
@@ -276,7 +276,7 @@ impl Downcast<u8x32> for u16x16 {
         optimized!();
         // packus reads its arguments as signed
         let (a, b) = (self.min(Self::splat(0xFF)), other.min(Self::splat(0xFF)));
-        unsafe { _mm256_packus_epi16(a.be_i16s(), b.be_i16s()).be_u8s() }
+        unsafe { transmute(_mm256_permute4x64_epi64(_mm256_packus_epi16(a.be_i16s(), b.be_i16s()).be_i64s(), 0xD8)) }
     }
 
     #[inline(always)]
-- 
2.43.0


From ebb696778875481431b9bb09d14a56ad014bd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 21/30] fix: do not truncate the sum of an i8 vector to i8 in
 sum_upcast

---
 src/arch/x86/intrin/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index 3b408de..ad0127c 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -45,7 +45,7 @@ impl UpcastSum for i8x16 {
         let pos = unsafe { _mm_sad_epu8(self.max(Self::splat(0)).be_u8s(), u8x16::splat(0)).be_u16s() };
         let neg = unsafe { _mm_sad_epu8(self.min(Self::splat(0)).abs().be_u8s(), u8x16::splat(0)).be_u16s() };
         pos.extract(0).overflowing_sub(neg.extract(0)).0
-            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i16 as i64
     }
 }
 
@@ -73,7 +73,7 @@ impl UpcastSum for i8x32 {
         pos.extract(0).overflowing_sub(neg.extract(0)).0
             .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0
             .overflowing_add(pos.extract(8).overflowing_sub(neg.extract(8)).0).0
-            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i16 as i64
     }
 }
 
-- 
2.43.0


From 89c062c6227e5a464ad409be3b6e4420c1cfcf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:14 +0000
Subject: [PATCH 22/30] fix: measure the vector position of a StrideZip from
 its start

---
 src/stride_zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index 7f93585..d0e598f 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -56,7 +56,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn vector_pos(&self) -> usize {
-        (self.iter.vector_pos() - (self.base / self.width())) / 2
+        self.scalar_pos() / self.width()
     }
 
     #[inline(always)]
-- 
2.43.0


From fb72bbfe3de37b6c578538943dbb2835477f82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:21 +0000
Subject: [PATCH 23/30] fix: collect the odd elements in destride_two on AVX2

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0


From 531fbac32d2476f2ac037115ec80c5c975c4615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:27 +0000
Subject: [PATCH 24/30] fix: advancing a stream by a huge amount wrapped
 around, so that strides read out of bounds

---
 src/iters.rs      | 2 +-
 src/stride.rs     | 2 +-
 src/stride_zip.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index a4b5d33..dd85ee8 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -526,7 +526,7 @@ impl<A> SIMDIterable for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A:
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        self.position = self.position.saturating_add(amount)
     }
 
     #[inline(always)]
diff --git a/src/stride.rs b/src/stride.rs
index 1e94dff..81a67f7 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -345,7 +345,7 @@ impl<'a, A> SIMDIterable for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.pos += amount * self.stride;
+        self.pos = self.pos.saturating_add(amount.saturating_mul(self.stride));
     }
 
     #[inline(always)]
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index d0e598f..95e5fff 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -66,7 +66,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.iter.advance(2 * amount);
+        self.iter.advance(amount.saturating_mul(2));
     }
 
     #[inline(always)]
-- 
2.43.0


From afeea8410d875867699ee7e0d3bd4792c7ccf671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:27 +0000
Subject: [PATCH 25/30] fix: finalize() panicked on a stream advanced past its
 end

---
 src/iters.rs | 2 +-
 src/zip.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index dd85ee8..a3e4220 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -43,7 +43,7 @@ pub trait SIMDIterable : SIMDObject + SIMDSized + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
diff --git a/src/zip.rs b/src/zip.rs
index 829190d..93daf1b 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -97,7 +97,7 @@ pub trait SIMDZippedIterable : SIMDZippedObject + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
-- 
2.43.0


From ccd4ab9a531dbcbe5b3d388b5b20ab9c0a6823d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:27 +0000
Subject: [PATCH 26/30] fix: the remainder of a map to vectors of another size
 was miscounted

---
 src/iters.rs | 2 +-
 src/zip.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index a3e4220..1ea9e43 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -695,7 +695,7 @@ impl<'a, A, B, I, F> SIMDIterator for SIMDMap<I, F>
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * I::Scalar::SIZE / Self::Scalar::SIZE;
+        let nr = n * Self::Vector::WIDTH / I::Vector::WIDTH;
         Some(((self.func)(v), nr))
     }
 }
diff --git a/src/zip.rs b/src/zip.rs
index 93daf1b..e6b7966 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -384,7 +384,7 @@ where I : SIMDZippedIterator, F : FnMut(I::Vectors) -> A, A : Packed {
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * self.iter.size() / self.size();
+        let nr = n * Self::Vector::WIDTH / self.iter.width();
         Some(((self.func)(v), nr))
     }
 }
-- 
2.43.0


From 28679dd8309cbcb3d166fa73b04cf979af9b61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 27/30] fix: scalar_collect trusted the length a stream claims
 and wrote past its buffer

---
 src/iters.rs | 70 +++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 1ea9e43..22bf192 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -726,33 +726,33 @@ impl<'a, T, I> IntoScalar<T> for I
     #[inline(always)]
     #[cfg(feature = "std")]
     fn scalar_collect(&mut self) -> Vec<Self::Scalar> {
-        let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        // Don't trust len(): it is given by safe code, and might not stay the same
+        let capacity = (self.len() + 1) * self.width();
+        let mut ret = Vec::with_capacity(capacity);
         let mut offset = 0;
         let mut lastvec = Self::Vector::default();
 
-        unsafe {
-            ret.set_len((self.len() + 1) * self.width());
-            while let Some(vec) = self.next() {
-                vec.store_unchecked(&mut ret, offset);
-                offset += self.width();
-                lastvec = vec;
-            }
+        unsafe { ret.set_len(capacity); }
+        while let Some(vec) = self.next() {
+            vec.store(&mut ret, offset);
+            offset += self.width();
+            lastvec = vec;
+        }
 
-            if let Some((p, n)) = self.end() {
-                if offset > 0 {
-                    // We stored a vector in this buffer; overwrite the unused elements
-                    p.store_unchecked(&mut ret, offset - n);
-                    lastvec.store_unchecked(&mut ret, offset - self.width());
-                } else {
-                    // The buffer won't fit one vector; store elementwise
-                    for i in 0..(self.width() - n) {
-                        ret[offset + i] = p.extract_unchecked(i + n);
-                    }
-                }
-                ret.set_len(self.width() + offset - n);
+        if let Some((p, n)) = self.end() {
+            if offset > 0 {
+                // We stored a vector in this buffer; overwrite the unused elements
+                p.store(&mut ret, offset - n);
+                lastvec.store(&mut ret, offset - self.width());
             } else {
-                ret.set_len(offset);
+                // The buffer won't fit one vector; store elementwise
+                for i in 0..(self.width() - n) {
+                    ret[offset + i] = p.extract(i + n);
+                }
             }
+            ret.truncate(self.width() + offset - n);
+        } else {
+            ret.truncate(offset);
         }
         ret
     }
@@ -776,9 +776,7 @@ impl<'a, T, I> IntoScalar<T> for I
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
-                    unsafe {
-                        fill[offset + i] = p.extract_unchecked(i + n);
-                    }
+                    fill[offset + i] = p.extract(i + n);
                 }
             }
         }
@@ -789,22 +787,22 @@ impl<'a, T, I> IntoScalar<T> for I
     #[inline(always)]
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
-        let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        // Don't trust len(): it is given by safe code, and might not stay the same
+        let capacity = (self.len() + 1) * self.width();
+        let mut ret = Vec::with_capacity(capacity);
         let mut offset = 0;
 
-        unsafe {
-            ret.set_len((self.len() + 1) * self.width());
-            while let Some(vec) = self.next() {
-                vec.store_unchecked(&mut ret, offset);
-                offset += self.width();
-            }
+        unsafe { ret.set_len(capacity); }
+        while let Some(vec) = self.next() {
+            vec.store(&mut ret, offset);
+            offset += self.width();
+        }
 
-            if let Some((vec, _)) = self.end() {
-                vec.store_unchecked(&mut ret, offset);
-                offset += self.width();
-            }
-            ret.set_len(offset);
+        if let Some((vec, _)) = self.end() {
+            vec.store(&mut ret, offset);
+            offset += self.width();
         }
+        ret.truncate(offset);
         ret
     }
 
-- 
2.43.0


From 8d3913350e289595377b373ffb72bc8c54fc3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 28/30] fix: min and max of 32-bit integers used AVX2
 instructions on AVX-only processors

---
 src/arch/x86/intrin/cmp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/cmp.rs b/src/arch/x86/intrin/cmp.rs
index 7b97db8..e3dbbf0 100644
--- a/src/arch/x86/intrin/cmp.rs
+++ b/src/arch/x86/intrin/cmp.rs
@@ -100,14 +100,14 @@ rust_fallback_impl_binary! {
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for u32x8 where "avx" {
+    impl Cmp for u32x8 where "avx2" {
         min => _mm256_min_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for i32x8 where "avx" {
+    impl Cmp for i32x8 where "avx2" {
         min => _mm256_min_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
-- 
2.43.0


From 6798fbe434840b96bea5ee3d32b426926e920050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 29/30] fix: rounding f64x4 used AVX instructions on
 SSE4.1-only processors

---
 src/arch/x86/intrin/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 7cff34a..52ea60b 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -40,7 +40,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "sse4.1" {
+    impl Round for f64x4 where "avx" {
         round => _mm256_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm256_ceil_pd(), [0, 1, 2, 3];
         floor => _mm256_floor_pd(), [0, 1, 2, 3];
-- 
2.43.0


From 24b220360c868787e3bef81ee00ee768e83d86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:19 +0000
Subject: [PATCH 30/30] fix: threads reporting at once no longer tear each
 other's lines in the log file

---
 src/debug.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.rs b/src/debug.rs
index b7e3a2a..bcefb66 100644
--- a/src/debug.rs
+++ b/src/debug.rs
@@ -24,7 +24,8 @@ macro_rules! debug_append_log {
             .create(true)
             .append(true)
             .open(file_name).and_then(|mut file| {
-                writeln!(file, "{}", $str)
+                // One write per line, as threads may report at the same time.
+                file.write_all(format!("{}\n", $str).as_bytes())
         }).ok(); // `ok` suppresses warning about unused results, about which we don't care.
     }
 }
-- 
2.43.0

