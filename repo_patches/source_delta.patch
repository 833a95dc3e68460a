From 6e4d3ed8769a55ee473cee6fdb689ab953730b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 01/10] fix: link the roots, not the arguments, in
 UnionFind::join

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From c39c5c37fd36c95d57d89be9e8b51e2921527f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 02/10] fix: partition point of an empty Fenwick tree is 0
 instead of a panic

---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..7cd0bb7 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -100,7 +100,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..usize::BITS - self.n.leading_zeros()).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From ed0d63eeffe60f4a46d2131d5e7f4de2a356f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 03/10] fix: building a sparse table from an empty slice no
 longer panics

---
 src/data_structure/sparse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/sparse_table.rs b/src/data_structure/sparse_table.rs
index d783c48..2fe8202 100644
--- a/src/data_structure/sparse_table.rs
+++ b/src/data_structure/sparse_table.rs
@@ -17,7 +17,7 @@ where
     /// Construct a sparse table from slice `v`.
     pub fn from(v: &[T], init: T, op: F) -> Self {
         let n = v.len();
-        let count = lg(n) as usize + 1;
+        let count = lg(n.max(1)) as usize + 1;
         let mut data = vec![vec![init; n]; count];
         data[0].clone_from_slice(v);
         for c in 1..count {
-- 
2.43.0


From 9e99805944a0059b5a83db1b2baf64772b468e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 04/10] fix: the zeroth power modulo 1 is 0, not 1

---
 src/misc/modint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..ec6dff8 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1u32);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
-- 
2.43.0


From d90f43372c7dd1d6e6a1da7d600b7a5aed370d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 05/10] fix: the empty product modulo 1 is 0, not 1

---
 src/misc/modint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index ec6dff8..74a19e3 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4dfa0905ce461666fd40f660465b9f2c6247bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 06/10] fix: lcm divides before multiplying, so that it
 overflows only if the result does

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..ad2d918 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -10,7 +10,7 @@ pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
 }
 
 pub fn lcm<T: Integral>(a: T, b: T) -> T {
-    a * b / gcd(a, b)
+    a / gcd(a, b) * b
 }
 
 /// returns a solution (x, y, g) to `a * x + b * y = gcd(a, b) = g`
-- 
2.43.0


From 4b4ae1016f7f11923123940005ab1f59b944dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 07/10] fix: gcd and ex_gcd of MIN and -1 no longer overflow

---
 src/math/number_theory.rs |  6 +++---
 src/traits/integral.rs    |  8 ++++++++
 src/traits/numeric.rs     | 11 ++++++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index ad2d918..4d21794 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -3,7 +3,7 @@ use crate::traits::integral::Integral;
 pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
     while b != T::zero() {
         let t = b;
-        b = a % b;
+        b = a.wrapping_rem(b);
         a = t;
     }
     a
@@ -18,8 +18,8 @@ pub fn ex_gcd<T: Integral>(a: T, b: T) -> (T, T, T) {
     if b == T::zero() {
         return (T::one(), T::zero(), a);
     }
-    let (x, y, g) = ex_gcd(b, a % b);
-    (y, x - a / b * y, g)
+    let (x, y, g) = ex_gcd(b, a.wrapping_rem(b));
+    (y, x - a.wrapping_div(b) * y, g)
 }
 
 /// Extended Chinese Remainder Theorem. It solves systems of linear congruences equations:
diff --git a/src/traits/integral.rs b/src/traits/integral.rs
index fe0805f..c9d2d41 100644
--- a/src/traits/integral.rs
+++ b/src/traits/integral.rs
@@ -60,4 +60,12 @@ pub trait Integral:
     + BoundedBelow
     + BoundedAbove
 {
+    /// `self / rhs`, wrapping around at the boundary of the type (`MIN / -1`)
+    fn wrapping_div(self, rhs: Self) -> Self {
+        self / rhs
+    }
+    /// `self % rhs`, without the overflow of `MIN % -1`, which is 0
+    fn wrapping_rem(self, rhs: Self) -> Self {
+        self % rhs
+    }
 }
diff --git a/src/traits/numeric.rs b/src/traits/numeric.rs
index 1d06ad0..7cabc4e 100644
--- a/src/traits/numeric.rs
+++ b/src/traits/numeric.rs
@@ -50,7 +50,16 @@ macro_rules! impl_integral {
                 }
             }
 
-            impl Integral for $ty {}
+            impl Integral for $ty {
+                #[inline]
+                fn wrapping_div(self, rhs: Self) -> Self {
+                    <$ty>::wrapping_div(self, rhs)
+                }
+                #[inline]
+                fn wrapping_rem(self, rhs: Self) -> Self {
+                    <$ty>::wrapping_rem(self, rhs)
+                }
+            }
         )*
     };
 }
-- 
2.43.0


From 4f1a87ce20e37a9487b4f71c3b0d7df631773050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 08/10] fix: ex_crt with a negative coefficient

---
 src/math/number_theory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 4d21794..0eed8ac 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -32,7 +32,8 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
     let n = a.len();
     let (mut x, mut lcm) = (0i64, 1i64);
     for i in 0..n {
-        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);
+        let a_i = a[i].rem_euclid(m[i]);
+        let (a_, mut b_, mut m_) = (a_i * lcm, b[i] - a_i * x, m[i]);
         let (y, _, g) = ex_gcd(a_, m_);
         if b_ % g != 0 {
             return None;
-- 
2.43.0


From 3bd2426d9c32ffa5fd4f6799e6f464a366a416d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 09/10] fix: an edge to a vertex out of range no longer
 corrupts the flow network

---
 src/graph/max_flow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/max_flow.rs b/src/graph/max_flow.rs
index 7001ed3..8d51b3d 100644
--- a/src/graph/max_flow.rs
+++ b/src/graph/max_flow.rs
@@ -70,6 +70,7 @@ impl<Cap: Integral> Dinic<Cap> {
     }
 
     pub fn add_edge(&mut self, u: usize, v: usize, cap: Cap) {
+        assert!(u < self.n && v < self.n);
         self.g[u].push(self.e.len());
         self.e.push(Edge { to: v, cap});
         self.g[v].push(self.e.len());
-- 
2.43.0


From 03567984492a5718cfb0dcf41a90ae18815b3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 10/10] hook: crate-private number theory callable in
 verification builds (cfg cp_verif)

---
 src/math/mod.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 2f3b7f6..c0e02e9 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -1,3 +1,29 @@
 pub mod internal_math;
 pub mod number_theory;
 pub mod factorial;
+
+/// The crate-private number theory made callable from outside, in verification builds only
+/// (`RUSTFLAGS="--cfg cp_verif"`).
+#[cfg(cp_verif)]
+pub mod verif {
+    use super::internal_math as im;
+    pub fn safe_mod(x: i64, m: i64) -> i64 {
+        im::safe_mod(x, m)
+    }
+    pub fn barrett_mul(m: u32, a: u32, b: u32) -> (u32, u32) {
+        let r = im::Barrett::new(m);
+        (r.umod(), r.mul(a, b))
+    }
+    pub fn pow_mod(x: i64, n: i64, m: i32) -> i64 {
+        im::pow_mod(x, n, m)
+    }
+    pub fn is_prime(n: i32) -> bool {
+        im::is_prime(n)
+    }
+    pub fn inv_gcd(a: i64, b: i64) -> (i64, i64) {
+        im::inv_gcd(a, b)
+    }
+    pub fn primitive_root(m: i32) -> i32 {
+        im::primitive_root(m)
+    }
+}
-- 
2.43.0

