From ba0c1357aac326738c3f405dc8d6d14d5616ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 01/11] fix: make the allocating Space::to_ortho callable (drop
 unsatisfiable where bound)

---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0


From 516e2f917c2e7fbe4e880968c615b2ff152026bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 02/11] fix: biharmonic stencil product reads out of bounds and
 uses wrong entry

---
 src/chebyshev/stencils/helpers.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..60b8462 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,12 +398,10 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0


From e52ed065d54d3ab9c7ae67351bb1e26a734fb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 03/11] fix: FourierC2c gradient uses wrong negative
 wavenumbers

---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From 1d2801d2bbd2663ceb02d16f3a5f0c8e1c76eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 04/11] fix: Space3 gradient along axis 2 uses the base of axis
 1

---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From 9f673b82fccd92b7b9babdd529505c9b81284dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 05/11] fix: complex approx_eq helpers must compare both real
 and imaginary part

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From 64afb74292da613fddde0cebac83a9691f804b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 06/11] fix: fourier nodes may return n+1 points (float range
 rounding)

---
 src/fourier/c2c.rs | 8 ++++----
 src/fourier/r2c.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..62be79e 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -46,10 +46,10 @@ impl<A: FloatNum> FourierC2c<A> {
     #[must_use]
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
-        let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        let dx = 2. * PI / n as f64;
+        (0..n)
+            .map(|i| A::from_f64(i as f64 * dx).unwrap())
+            .collect::<Vec<A>>()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..5486fa5 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -47,10 +47,10 @@ impl<A: FloatNum> FourierR2c<A> {
     #[must_use]
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
-        let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        let dx = 2. * PI / n as f64;
+        (0..n)
+            .map(|i| A::from_f64(i as f64 * dx).unwrap())
+            .collect::<Vec<A>>()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0


From 2a3d0bf01390d66e41b4af8beb7bf45bf2bb97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 07/11] fix: integer underflow/overflow in third and fourth
 chebyshev diffmat

---
 src/chebyshev/ortho.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..d211729 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -105,22 +105,25 @@ impl<A: FloatNum> Chebyshev<A> {
             }
         } else if deriv == 3 {
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as i128;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q2 = (q * q) as i128;
                     if (p + q) % 2 != 0 {
                         dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                            (q as i128 * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64
+                                / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let p2 = (p * p) as i128;
+                let p4 = p2 * p2;
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let q2 = (q * q) as i128;
+                    let q4 = q2 * q2;
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
+                        dmat[[p, q]] = (q as i128
                             * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
                                 - 16 * p2
                                 - 3 * q4 * p2)) as f64
-- 
2.43.0


From b0248d9b5b5b46fa0d341ecb9421f522d89c5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 08/11] fix: integer underflow in chebyshev diffmat_pinv for
 small sizes

---
 src/chebyshev/ortho.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index d211729..76b38de 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -169,7 +169,7 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 2..n {
                 pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
             }
-            for i in 1..n - 2 {
+            for i in 1..n.saturating_sub(2) {
                 pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
             }
         } else if deriv == 2 {
@@ -177,10 +177,10 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 3..n {
                 pinv[[i, i - 2]] = 1. / (4 * i * (i - 1)) as f64; // diag - 2
             }
-            for i in 2..n - 2 {
+            for i in 2..n.saturating_sub(2) {
                 pinv[[i, i]] = -1. / (2 * (i * i - 1)) as f64; // diag 0
             }
-            for i in 2..n - 4 {
+            for i in 2..n.saturating_sub(4) {
                 pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2
             }
         } else if deriv == 3 {
@@ -191,17 +191,17 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[3, 0]] *= 2.;
             // diag - 1
-            for i in 3..n - 2 {
+            for i in 3..n.saturating_sub(2) {
                 let d = 8 * (i + 1) * (i - 2) * i;
                 pinv[[i, i - 1]] = -3. / d as f64;
             }
             // diag + 1
-            for i in 3..n - 4 {
+            for i in 3..n.saturating_sub(4) {
                 let d = 8 * (i - 1) * (i + 2) * i;
                 pinv[[i, i + 1]] = 3. / d as f64;
             }
             // diag + 3
-            for i in 3..n - 6 {
+            for i in 3..n.saturating_sub(6) {
                 let d = 8 * i * (i + 1) * (i + 2);
                 pinv[[i, i + 3]] = -1. / d as f64;
             }
@@ -213,22 +213,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[4, 0]] *= 2.;
             // diag - 2
-            for i in 4..n - 2 {
+            for i in 4..n.saturating_sub(2) {
                 let d = 4 * (i - 3) * (i - 1) * i * (i + 1);
                 pinv[[i, i - 2]] = -1. / d as f64;
             }
             // diag + 0
-            for i in 4..n - 4 {
+            for i in 4..n.saturating_sub(4) {
                 let d = 8 * (i - 2) * (i - 1) * (i + 1) * (i + 2);
                 pinv[[i, i]] = 3. / d as f64;
             }
             // diag + 2
-            for i in 4..n - 6 {
+            for i in 4..n.saturating_sub(6) {
                 let d = 4 * (i - 1) * i * (i + 1) * (i + 3);
                 pinv[[i, i + 2]] = -1. / d as f64;
             }
             // diag + 4
-            for i in 4..n - 8 {
+            for i in 4..n.saturating_sub(8) {
                 let d = 16 * i * (i + 1) * (i + 2) * (i + 3);
                 pinv[[i, i + 4]] = 1. / d as f64;
             }
-- 
2.43.0


From 2b074a2d8bf8dcaa29de0820df3b0bd1401f3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 09/11] fix: chebyshev gradient reads out of bounds for two
 coefficients

---
 src/chebyshev/ortho.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 76b38de..a15d73c 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -399,6 +399,8 @@ where
     /// ```
     fn gradient_slice(&self, indata: &[T], outdata: &mut [T], n_times: usize) {
         assert!(outdata.len() == self.m);
+        assert!(indata.len() == outdata.len());
+        assert!(self.m > 1);
         // Copy over
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
@@ -419,8 +421,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From 961c18f59737e2f22ac1e5397e492f202d596a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 10/11] fix: stencil operations must check slice lengths before
 unchecked access

---
 src/chebyshev/stencils/helpers.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 60b8462..5c7d514 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -135,6 +135,7 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == v.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -166,7 +167,8 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::tdma;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == v.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -229,7 +231,7 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(u.len() == v.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -264,7 +266,8 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::pdma;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == v.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -383,6 +386,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == v.len() + 4);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -423,7 +427,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::pdma2;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == v.len() + 4);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
-- 
2.43.0


From 122ff59ddf5f602fd326debc785b59eccf9dbc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 11/11] fix: orthogonal to_ortho/from_ortho must reject
 mis-sized slices

---
 src/chebyshev/ortho.rs | 4 ++++
 src/fourier/c2c.rs     | 4 ++++
 src/fourier/r2c.rs     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index a15d73c..f373164 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -360,6 +360,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -367,6 +369,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index 62be79e..7b109b4 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -252,6 +252,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -259,6 +261,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 5486fa5..8968c7f 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -239,6 +239,8 @@ where
 {
     /// Composite space coefficients -> Orthogonal space coefficients
     fn to_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_spec());
+        assert!(outdata.len() == self.len_orth());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
@@ -246,6 +248,8 @@ where
 
     /// Orthogonal space coefficients -> Composite space coefficients
     fn from_ortho_slice(&self, indata: &[T], outdata: &mut [T]) {
+        assert!(indata.len() == self.len_orth());
+        assert!(outdata.len() == self.len_spec());
         for (y, x) in outdata.iter_mut().zip(indata.iter()) {
             *y = *x;
         }
-- 
2.43.0

