From 1c53142d18a9f406836afbcb568d3ba5eb5a39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 01/73] fix: compiled acot(x) uses the same branch as evaluate
 for x <= 0

---
 src/evaluator/compiler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..08e2b4b 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1288,9 +1288,13 @@ impl<'ctx> Compiler<'ctx> {
             self.emit(Instruction::Sin);
             Instruction::Recip
         } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
+            // acot(x) = atan2(1, x): range (0, pi), defined at x = 0
+            let idx = self.add_const(1.0);
+            self.emit(Instruction::LoadConst(idx));
+            self.push()?;
+            self.emit(Instruction::Swap);
+            self.pop();
+            Instruction::Atan2
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From c9babc0b1b375c0dca1e6db58148465129bdcf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 02/73] fix: tetragamma asymptotics; trigamma/polygamma of far
 negative arguments no longer step |x| times

---
 src/math/special.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..179da2e 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -158,6 +158,12 @@ pub fn eval_trigamma<T: MathScalar>(x: T) -> Option<T> {
     let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
     let one = T::one();
 
+    // Far left: shift through the reflection formula instead of stepping |x| times
+    if x < -six {
+        let f = x - x.floor();
+        return Some(eval_trigamma(f)? + eval_trigamma(one - f)? - eval_trigamma(one - x)?);
+    }
+
     while xv < six {
         r += one / (xv * xv);
         xv += one;
@@ -182,18 +188,7 @@ pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
-    let mut xv = x;
-    let mut r = T::zero();
-    let six = T::from(6.0).expect("Failed to convert mathematical constant");
-    let one = T::one();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-
-    while xv < six {
-        r -= two / (xv * xv * xv);
-        xv += one;
-    }
-    let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    eval_polygamma(2, x)
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
@@ -688,6 +683,13 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
             let one = T::one();
             let n_plus_one = n + 1;
 
+            // Far left: shift through the reflection formula instead of stepping |x| times
+            if x < -fifteen {
+                let f = x - x.floor();
+                let mirrored = eval_polygamma(n, one - f)? - eval_polygamma(n, one - x)?;
+                return Some(eval_polygamma(n, f)? + sign * mirrored);
+            }
+
             while xv < fifteen {
                 // r += sign * factorial / xv^(n+1)
                 r += sign * factorial / xv.powi(n_plus_one);
-- 
2.43.0


From 985f69d601513d44e9c8cb873b857b933a062122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 03/73] fix: elliptic_e weighted the AGM correction terms by
 half

---
 src/math/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 3444930..69683b0 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -54,7 +54,7 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
 
     let k2 = k * k;
     let mut sum = one - k2 / T::from(2.0).expect("Failed to convert mathematical constant");
-    let mut pow2 = T::from(0.5).expect("Failed to convert mathematical constant");
+    let mut pow2 = one;
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let tolerance = T::from(1e-15).expect("Failed to convert mathematical constant");
 
-- 
2.43.0


From 29de5c2fd10493f39d321a0a8979ec8703ac8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 04/73] fix: zeta(s) for 1 < s <= 1.5 had the Euler-Maclaurin
 boundary term with the wrong sign

---
 src/math/special.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 179da2e..914628c 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -249,7 +249,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         // Integral approximation: ∫[N,∞] 1/t^s dt = N^(1-s)/(s-1)
         let em_integral = n_pow_1_minus_x / (x - one);
 
-        // Boundary correction: 1/(2N^s)
+        // Boundary correction: 1/(2N^s), subtracted because the sum already includes k = N
         let em_boundary = T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
 
         // Bernoulli corrections (improving convergence)
@@ -264,7 +264,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
             / (T::from(720.0).expect("Failed to convert mathematical constant")
                 * n.powf(x + T::from(3.0).expect("Failed to convert mathematical constant")));
 
-        Some(sum + em_integral + em_boundary + b2_correction + b4_correction)
+        Some(sum + em_integral - em_boundary + b2_correction + b4_correction)
     } else {
         // For s > 1.5 OR 0 <= s < 1: Use Borwein's Algorithm 2
         // Borwein is globally convergent (except pole).
-- 
2.43.0


From 8a9c90beb7c313a3bdff65936af45906a500247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 05/73] fix: gamma(x) overflowed to infinity for 143 < x < 171

---
 src/math/special.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 914628c..0b9e194 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -104,7 +104,9 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
         }
         let t = x + g + half;
         let two_pi_sqrt = (T::from_f64(2.0).expect("Failed to convert constant 2.0") * pi).sqrt();
-        Some(two_pi_sqrt * t.powf(x + half) * (-t).exp() * ag)
+        // t^(x+1/2) alone overflows long before gamma does: apply it in two halves
+        let root = t.powf((x + half) * half);
+        Some(two_pi_sqrt * root * (-t).exp() * root * ag)
     }
 }
 
-- 
2.43.0


From 852520d65983daba7e569a1d57c4168b9a06dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 06/73] fix: K_1(x) used ln(x) instead of ln(x/2) for x <= 2

---
 src/math/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index da5146a..95e7a97 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -686,7 +686,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         let four = T::from(4.0).expect("Failed to convert mathematical constant");
         let y = x * x / four;
 
-        let term1 = x.ln() * bessel_i1(x);
+        let term1 = (x / two).ln() * bessel_i1(x);
         let term2 = T::one() / x;
 
         let poly = eval_poly_horner(y, &COEFFS);
-- 
2.43.0


From ddc6c4c6a4aed5f59c3d84ff0b04b477977bb956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 07/73] fix: I_n(x), n >= 2, was normalised by the wrong sum
 and started too low for larger x

---
 src/math/bessel.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 95e7a97..51efb6d 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -463,14 +463,21 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
         reason = "n_abs is i32, sqrt result within safe range"
     )]
     let sqrt_term = f64::from(40 * n_abs).sqrt() as i32;
-    let n_start = n_abs + sqrt_term + 10;
+    // The recurrence only starts to grow above |x|, so the start has to lie beyond it too
+    let ax = x.abs().to_f64().unwrap_or(0.0).min(1000.0);
+    #[allow(
+        clippy::cast_possible_truncation,
+        reason = "ax is clamped to at most 1000"
+    )]
+    let n_start = n_abs + sqrt_term + 10 + (2.0 * ax) as i32;
     let n_start = n_start.max(n_abs + 20);
+    let huge = T::from(1e100).expect("Failed to convert mathematical constant");
 
     // Initialize backward recurrence
     let mut i_next = T::zero(); // I_{k+1}
     let mut i_curr = T::from(1e-30).expect("Failed to convert mathematical constant"); // I_k (small nonzero to avoid underflow)
     let mut result = T::zero();
-    let mut sum = T::zero(); // For normalization: sum = I_0 + 2*(I_2 + I_4 + ...)
+    let mut i0_computed = T::one(); // For normalization
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
     // Backward recurrence
@@ -483,22 +490,23 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
             result = i_curr;
         }
 
-        // Accumulate for normalization (using I_0 + 2*sum of even terms)
         if k == 0 {
-            sum += i_curr;
-        } else if k % 2 == 0 {
-            sum += two * i_curr;
+            i0_computed = i_curr;
         }
 
         i_next = i_curr;
         i_curr = i_prev;
+        if k > 0 && i_curr.abs() > huge {
+            i_curr /= huge;
+            i_next /= huge;
+            result /= huge;
+        }
         k_t -= T::one();
     }
 
     // Normalize: actual I_n = result * I_0(x) / computed_I_0
-    // The sum approximates I_0 when properly normalized
     let i0_actual = bessel_i0(x);
-    let scale = i0_actual / sum;
+    let scale = i0_actual / i0_computed;
 
     result * scale
 }
-- 
2.43.0


From 41f3ca7b7f55207afc3a0021c3eb82f45df955f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 08/73] fix: assoc_legendre(l, m, x) ignored the sign of m

---
 src/math/polynomials.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index c381521..ae23016 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -36,6 +36,18 @@ pub fn eval_hermite<T: MathScalar>(n: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.10 <https://dlmf.nist.gov/14.10>
 pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
+    if m < 0 && l >= 0 && -m <= l {
+        let positive = eval_assoc_legendre(l, -m, x)?;
+        let mut ratio = T::one();
+        for i in (l + m + 1)..=(l - m) {
+            ratio /= T::from(i).expect("Failed to convert mathematical constant");
+        }
+        return Some(if m % 2 == 0 {
+            positive * ratio
+        } else {
+            -positive * ratio
+        });
+    }
     if l < 0 || m.abs() > l || x.abs() > T::one() {
         // Technically |x| > 1 is domain error, but some continuations exist.
         // Standard impl assumes -1 <= x <= 1
@@ -94,8 +106,8 @@ pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T)
         return None;
     }
     let cos_theta = theta.cos();
-    let plm = eval_assoc_legendre(l, m, cos_theta)?;
     let m_abs = m.abs();
+    let plm = eval_assoc_legendre(l, m_abs, cos_theta)?;
 
     // Factorials
     let mut fact_lm = T::one();
-- 
2.43.0


From 4664f4943a06f13ae176ad5c9291638a1b80b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 09/73] fix: erf(x) diverged for |x| > 3

---
 src/math/special.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/math/special.rs b/src/math/special.rs
index 0b9e194..c3ddc90 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -15,6 +15,17 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
     let coeff = two / sqrt_pi;
 
+    // The series below needs ever more terms (and cancels ever more) as |x| grows:
+    // from 2 on use the continued fraction of erfc (DLMF 7.9.1)
+    if x >= two {
+        let mut tail = x;
+        for k in (1..=60).rev() {
+            let half_k = T::from_f64(0.5 * f64::from(k)).expect("Failed to convert k/2");
+            tail = x + half_k / tail;
+        }
+        return sign * (T::one() - (-(x * x)).exp() / (sqrt_pi * tail));
+    }
+
     let mut sum = T::zero();
     let mut compensation = T::zero(); // Kahan summation
     let mut factorial = T::one();
-- 
2.43.0


From 5f7499f1af10617a864cd5977c76182cb17c2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 10/73] fix: zeta_deriv truncated its series after 200 terms
 and used noise-dominated finite differences

---
 src/math/special.rs | 253 +++++++++++---------------------------------
 1 file changed, 62 insertions(+), 191 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index c3ddc90..7f514b2 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -303,7 +303,6 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
 fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
     let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
     let n = 14; // Optimal for double precision (~18 digits)
 
     // Compute denominator: 1 - 2^(1-s)
@@ -312,6 +311,34 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
         return None; // Too close to s=1
     }
 
+    let d_coeffs = borwein_coefficients::<T>(n);
+    let d_n = d_coeffs[n];
+
+    // Compute the sum: Σ_{k=0}^{n-1} [(-1)^k(d_k - d_n)] / (k+1)^s
+    let mut sum = T::zero();
+    let mut compensation = T::zero(); // Kahan summation
+
+    for (k, d_coeff_k) in d_coeffs.iter().enumerate().take(n) {
+        let k_plus_1 = T::from(k + 1).expect("Failed to convert mathematical constant");
+        let sign = if k % 2 == 0 { one } else { -one };
+        let current_term = sign * (*d_coeff_k - d_n) / k_plus_1.powf(s);
+
+        // Kahan summation
+        let y = current_term - compensation;
+        let t = sum + y;
+        compensation = (t - sum) - y;
+        sum = t;
+    }
+
+    // ζ(s) = -1 / [d_n(1-2^(1-s))] · sum
+    let result = -sum / (d_n * denom);
+    Some(result)
+}
+
+/// Borwein's coefficients `d_0..=d_n`.
+fn borwein_coefficients<T: MathScalar>(n: usize) -> Vec<T> {
+    let one = T::one();
+    let four = T::from(4.0).expect("Failed to convert mathematical constant");
     // Compute d_k coefficients
     // d_k = n · Σ_{i=0}^{k} [(n+i-1)! · 4^i] / [(n-i)! · (2i)!]
     let mut d_coeffs = vec![T::zero(); n + 1];
@@ -337,27 +364,7 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
         *d_coeff = n_t * current_inner_sum;
     }
 
-    let d_n = d_coeffs[n];
-
-    // Compute the sum: Σ_{k=0}^{n-1} [(-1)^k(d_k - d_n)] / (k+1)^s
-    let mut sum = T::zero();
-    let mut compensation = T::zero(); // Kahan summation
-
-    for (k, d_coeff_k) in d_coeffs.iter().enumerate().take(n) {
-        let k_plus_1 = T::from(k + 1).expect("Failed to convert mathematical constant");
-        let sign = if k % 2 == 0 { one } else { -one };
-        let current_term = sign * (*d_coeff_k - d_n) / k_plus_1.powf(s);
-
-        // Kahan summation
-        let y = current_term - compensation;
-        let t = sum + y;
-        compensation = (t - sum) - y;
-        sum = t;
-    }
-
-    // ζ(s) = -1 / [d_n(1-2^(1-s))] · sum
-    let result = -sum / (d_n * denom);
-    Some(result)
+    d_coeffs
 }
 
 /// Derivative of Riemann Zeta function
@@ -393,180 +400,44 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
         return None;
     }
 
-    // For Re(s) > 1, use direct series with Kahan summation
-    // The analytical series is exact for any n, no need for special cases
-    if x > one {
-        let mut sum = T::zero();
-        let mut compensation = T::zero(); // Kahan summation
-        let max_terms = 200;
-
-        for k in 1..=max_terms {
-            let k_t = T::from(k).expect("Failed to convert mathematical constant");
-            let ln_k = k_t.ln();
-
-            // Calculate [ln(k)]^n using faster exponentiation for large n
-            let ln_k_power = if n <= 5 {
-                // Direct multiplication for small n
-                let mut result = one;
-                for _ in 0..n {
-                    result *= ln_k;
-                }
-                result
-            } else {
-                // Use powf for large n (faster)
-                ln_k.powf(T::from(n).expect("Failed to convert mathematical constant"))
-            };
-
-            // Calculate term: [ln(k)]^n / k^x
-            let term = ln_k_power / k_t.powf(x);
-
-            // Kahan summation algorithm (compensated summation)
-            let y = term - compensation;
-            let t = sum + y;
-            compensation = (t - sum) - y; // Captures lost low-order bits
-            sum = t;
-
-            // Enhanced convergence check
-            if k > 50
-                && term.abs()
-                    < epsilon * T::from_f64(0.01).expect("Failed to convert constant 0.01")
-            {
-                break;
-            }
+    // With D(s) = 1 - 2^(1-s), D zeta = eta: differentiate both sides n times (Leibniz) and
+    // solve for the highest derivative of zeta. The derivatives of eta converge as fast as eta.
+    let two = T::from(2.0).expect("Failed to convert mathematical constant");
+    let ln_two = two.ln();
+    let two_pow = two.powf(one - x);
+    let denom = one - two_pow;
+    let mut derivs: Vec<T> = Vec::new();
+    for order in 0..=n {
+        let mut value = eta_derivative(order, x);
+        let mut binomial = one;
+        let mut d_j = -two_pow;
+        for j in 1..=order {
+            binomial = binomial
+                * T::from(order - j + 1).expect("Failed to convert mathematical constant")
+                / T::from(j).expect("Failed to convert mathematical constant");
+            d_j *= -ln_two;
+            #[allow(clippy::cast_sign_loss, reason = "j <= order, both non-negative")]
+            let lower = derivs[(order - j) as usize];
+            value -= binomial * d_j * lower;
         }
-
-        // Apply sign: (-1)^n
-        let sign = if n % 2 == 0 { one } else { -one };
-        Some(sign * sum)
-    } else {
-        // For Re(s) < 1, use functional equation derivative
-        // ζ(s) = 2^s π^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)
-
-        // Use reflection for all s < 1 (except pole at s=1 already handled)
-        // With improved eval_zeta, the reflection formula components are now stable for 0 < s < 1
-        eval_zeta_deriv_reflection(n, x)
-    }
-}
-
-/// Compute zeta derivative using reflection formula with finite differences
-///
-/// For Re(s) < 1, uses reflection formula: ζ(s) = A(s)·ζ(1-s)
-/// where A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-///
-/// We compute ζ^(n)(s) numerically using finite differences,
-/// while ζ(1-s) is evaluated exactly via analytical series.
-///
-/// This is simpler and more stable than the full Leibniz expansion.
-fn eval_zeta_deriv_reflection<T: MathScalar>(n: i32, s: T) -> Option<T> {
-    let one = T::one();
-    let two = T::from_f64(2.0).expect("Failed to convert constant 2.0");
-    let four = T::from_f64(4.0).expect("Failed to convert constant 4.0");
-
-    // Finite difference step - small enough for accuracy but not too small
-    let h = T::from_f64(1e-7).expect("Failed to convert epsilon 1e-7");
-
-    if n == 1 {
-        // First derivative: centered difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - zeta_minus) / (two * h))
-    } else if n == 2 {
-        // Second derivative: centered second difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h))
-    } else {
-        // Higher order: use Richardson extrapolation
-        // Compute with step h and h/2, then extrapolate to h→0
-        let d_h = centered_finite_diff(n, s, h)?;
-        let d_h2 = centered_finite_diff(n, s, h / two)?;
-
-        // Richardson: D_exact ≈ (4^n * D_h - D_{h/2}) / (4^n - 1)
-        // For n >= 3, use general extrapolation factor
-        let extrapolation = four.powi(n) - one;
-        Some((four.powi(n) * d_h2 - d_h) / extrapolation)
+        derivs.push(value / denom);
     }
+    derivs.pop()
 }
 
-/// Evaluate ζ(s) using reflection formula (for Re(s) < 1)
-///
-/// ζ(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s) · ζ(1-s)
-/// where ζ(1-s) is computed via exact analytical series
-fn eval_zeta_reflection_base<T: MathScalar>(s: T) -> Option<T> {
-    let pi = T::PI();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let half = T::from(0.5).expect("Failed to convert mathematical constant");
-    let one = T::one();
-    let one_minus_s = one - s;
-
-    // A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-    let a_term = two.powf(s);
-    let b_term = pi.powf(s - one);
-    let c_term = (pi * s * half).sin();
-    let d_term = eval_gamma(one_minus_s)?;
-
-    // ζ(1-s) via exact analytical series (Re(1-s) > 1 when Re(s) < 1)
-    let zeta_term = eval_zeta(one_minus_s)?;
-
-    Some(a_term * b_term * c_term * d_term * zeta_term)
-}
-
-/// Compute n-th derivative using centered finite difference
-///
-/// Uses an n+1 point stencil for the n-th derivative
-fn centered_finite_diff<T: MathScalar>(n: i32, s: T, h: T) -> Option<T> {
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
-
-    if n == 1 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - zeta_minus) / (two * h));
-    }
-
-    if n == 2 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h));
-    }
-
-    if n == 3 {
-        // Third derivative: 4-point centered stencil
-        let zeta_plus2 = eval_zeta_reflection_base(s + two * h)?;
-        let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-        let zeta_minus2 = eval_zeta_reflection_base(s - two * h)?;
-        // d³f/dx³ ≈ (f(x+2h) - 2f(x+h) + 2f(x-h) - f(x-2h)) / (2h³)
-        return Some(
-            (-zeta_plus2 + two * zeta_plus1 - two * zeta_minus1 + zeta_minus2) / (two * h * h * h),
-        );
-    }
-
-    // For n >= 4, use 5-point stencil
-    let two_h = two * h;
-
-    let zeta_plus2 = eval_zeta_reflection_base(s + two_h)?;
-    let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-    let zeta_center = eval_zeta_reflection_base(s)?;
-    let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-    let zeta_minus2 = eval_zeta_reflection_base(s - two_h)?;
-
-    if n == 4 {
-        // d⁴f/dx⁴ ≈ (f(x+2h) - 4f(x+h) + 6f(x) - 4f(x-h) + f(x-2h)) / h⁴
-        let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
-        return Some(
-            (zeta_plus2 - four * zeta_plus1 + six * zeta_center - four * zeta_minus1 + zeta_minus2)
-                / (h * h * h * h),
-        );
+/// n-th derivative of the Dirichlet eta function, by Borwein's Algorithm 2 applied to
+/// `(-1)^n Σ (-1)^k ln(k+1)^n / (k+1)^s`.
+fn eta_derivative<T: MathScalar>(order: i32, s: T) -> T {
+    let n = 24;
+    let d_coeffs = borwein_coefficients::<T>(n);
+    let d_n = d_coeffs[n];
+    let mut sum = T::zero();
+    for (k, d_k) in d_coeffs.iter().enumerate().take(n) {
+        let base = T::from(k + 1).expect("Failed to convert mathematical constant");
+        let term = (d_n - *d_k) / d_n * (-base.ln()).powi(order) / base.powf(s);
+        sum = if k % 2 == 0 { sum + term } else { sum - term };
     }
-
-    // For n >= 5: recursive centered difference
-    // d^n f / dx^n ≈ [d^(n-1)f(x+h) - d^(n-1)f(x-h)] / (2h)
-    let deriv_plus = centered_finite_diff(n - 1, s + h, h)?;
-    let deriv_minus = centered_finite_diff(n - 1, s - h, h)?;
-    Some((deriv_plus - deriv_minus) / (two * h))
+    sum
 }
 
 /// Lambert W function: W(x) is the solution to W·e^W = x
-- 
2.43.0


From 2b7f76d3c59740d230a344d3b5b688278a9be4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 11/73] fix: K_0 and K_1 for x > 2 carried a spurious eighth
 coefficient

---
 src/math/bessel.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 51efb6d..f027e6e 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -638,7 +638,7 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.000_007_4,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         -0.078_323_58,
         0.021_895_68,
@@ -646,7 +646,6 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.005_878_72,
         -0.002_515_40,
         0.000_532_08,
-        -0.000_025_200,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -678,7 +677,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.000_046_86,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         0.234_986_19,
         -0.036_556_20,
@@ -686,7 +685,6 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.007_803_53,
         0.003_256_14,
         -0.000_682_45,
-        0.000_031_6,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-- 
2.43.0


From bb8afe8e711810ab9a8346e7edaed399d0d37709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 12/73] fix: powers of small non-integer numbers were folded to
 0

---
 src/core/expr/constructors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..8487c8f 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -569,8 +569,8 @@ impl Expr {
         // Constant folding: n^m only when both are integers and exponent >= 1
         // This preserves sqrt(2), cbrt(3), etc. as symbolic
         if let (Some(b), Some(e)) = (base.as_number(), exponent.as_number()) {
-            // Only fold if exponent is a positive integer
-            if e >= 1.0 && e.fract().abs() < EPSILON {
+            // Only fold if the base is an integer and the exponent is a positive integer
+            if b.fract() == 0.0 && e >= 1.0 && e.fract().abs() < EPSILON {
                 let result = b.powf(e);
                 // Only fold if result is also an integer (or very close)
                 if result.fract().abs() < EPSILON {
-- 
2.43.0


From 674891c54f4e509b8e9fa00ccf1721e84adfad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 13/73] fix: eval_batch overflowed a caller-provided SIMD
 buffer smaller than the required stack

---
 src/evaluator/simd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..def95d9 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,7 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From c5f2f57029f44ce4ad01a47515efc5183ef58d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 14/73] fix: eval_f64 panicked on or ignored columns of
 different lengths in large batches

---
 src/bindings/eval_f64.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 213ca6a..805026a 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -77,7 +77,9 @@ pub fn run_chunked_evaluator(
         if n_points == 0 {
             return Ok(());
         }
-    } else if columns.first().is_some_and(|c| c.len() != n_points) {
+    } else if columns.iter().any(|c| c.len() != columns[0].len()) {
+        return Err(DiffError::EvalColumnLengthMismatch);
+    } else if columns[0].len() != n_points {
         return Err(DiffError::invalid_syntax(
             "Output buffer length must match data column length",
         ));
-- 
2.43.0


From 1874fdeea5bf6cd3680a7997f9d3027e114edd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 15/73] fix: differentiation by an anonymous or
 context-isolated symbol returned 0

---
 src/api/builder.rs | 21 +++++++++++-
 src/api/helpers.rs | 83 ++++++++++++++++++++++------------------------
 src/core/poly.rs   | 29 ++++++----------
 src/diff/engine.rs | 69 +++++++++++++++++++++++---------------
 4 files changed, 111 insertions(+), 91 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4748aba..d3d8fa9 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -126,6 +126,15 @@ impl Diff {
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
         let var_name = var.name().unwrap_or_default();
+        // The symbol itself decides (anonymous and context-isolated symbols have no global name);
+        // a same-named symbol is only a fallback.
+        if expr.contains_var_id(var.id())
+            && let Some(interned) = crate::core::symbol::lookup_by_id(var.id())
+        {
+            return self.differentiate_with(expr, &var_name, |context| {
+                expr.derive_symbol(&interned, context)
+            });
+        }
         self.differentiate_by_name(expr, &var_name)
     }
 
@@ -169,6 +178,16 @@ impl Diff {
 
     /// Differentiates an expression with respect to a variable by name.
     pub(crate) fn differentiate_by_name(&self, expr: &Expr, var: &str) -> Result<Expr, DiffError> {
+        self.differentiate_with(expr, var, |context| expr.derive(var, Some(context)))
+    }
+
+    /// Shared driver: checks the limits, derives and simplifies.
+    fn differentiate_with(
+        &self,
+        expr: &Expr,
+        var: &str,
+        derive: impl FnOnce(&Context) -> Expr,
+    ) -> Result<Expr, DiffError> {
         if self.known_symbols.contains(var) {
             return Err(DiffError::VariableInBothFixedAndDiff {
                 var: var.to_owned(),
@@ -187,7 +206,7 @@ impl Diff {
         }
 
         let context = self.build_context();
-        let derivative = expr.derive(var, Some(&context));
+        let derivative = derive(&context);
 
         if self.skip_simplification {
             return Ok(derivative);
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index 0601b7b..ca8a0a2 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -14,49 +14,50 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
     (HashSet::new(), HashSet::new())
 }
 
-/// Helper to extract variable names from Symbol slices
-#[inline]
-fn extract_var_names(vars: &[&Symbol]) -> Vec<String> {
-    vars.iter().filter_map(|s| s.name()).collect()
-}
-
-/// Helper to convert variable names to &str slices
-#[inline]
-fn var_names_to_str_refs(var_names: &[String]) -> Vec<&str> {
-    var_names.iter().map(std::string::String::as_str).collect()
-}
-
-/// Internal gradient implementation using &str variable names
+/// Internal gradient implementation over a "differentiate with respect to this variable" closure
 /// This is the core implementation - public APIs wrap this
-fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
-    let diff = Diff::new();
-    vars.iter()
-        .map(|var| diff.differentiate_by_name(expr, var))
-        .collect()
+fn gradient_internal<V: Copy>(
+    expr: &Expr,
+    vars: &[V],
+    diff: impl Fn(&Expr, V) -> Result<Expr, DiffError>,
+) -> Result<Vec<Expr>, DiffError> {
+    vars.iter().map(|&var| diff(expr, var)).collect()
 }
 
-/// Internal hessian implementation using &str variable names
-fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let diff = Diff::new();
-    let grad = gradient_internal(expr, vars)?;
-
-    grad.iter()
-        .map(|partial| {
-            vars.iter()
-                .map(|var| diff.differentiate_by_name(partial, var))
-                .collect::<Result<Vec<_>, _>>()
-        })
+/// Internal hessian implementation
+fn hessian_internal<V: Copy>(
+    expr: &Expr,
+    vars: &[V],
+    diff: impl Fn(&Expr, V) -> Result<Expr, DiffError>,
+) -> Result<Vec<Vec<Expr>>, DiffError> {
+    gradient_internal(expr, vars, &diff)?
+        .iter()
+        .map(|partial| gradient_internal(partial, vars, &diff))
         .collect()
 }
 
-/// Internal jacobian implementation using &str variable names
-fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal jacobian implementation
+fn jacobian_internal<V: Copy>(
+    exprs: &[Expr],
+    vars: &[V],
+    diff: impl Fn(&Expr, V) -> Result<Expr, DiffError>,
+) -> Result<Vec<Vec<Expr>>, DiffError> {
     exprs
         .iter()
-        .map(|expr| gradient_internal(expr, vars))
+        .map(|expr| gradient_internal(expr, vars, &diff))
         .collect()
 }
 
+/// Differentiate with respect to a symbol (named or anonymous)
+fn by_symbol(expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
+    Diff::new().differentiate(expr, var)
+}
+
+/// Differentiate with respect to a variable name
+fn by_name(expr: &Expr, var: &str) -> Result<Expr, DiffError> {
+    Diff::new().differentiate_by_name(expr, var)
+}
+
 // ===== Public Symbol-based API =====
 
 /// Compute the gradient of an expression with respect to multiple variables
@@ -75,9 +76,7 @@ fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, Di
 /// # Errors
 /// Returns `DiffError` if differentiation fails for any variable.
 pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    gradient_internal(expr, &var_refs)
+    gradient_internal(expr, vars, by_symbol)
 }
 
 /// Compute the Hessian matrix of an expression
@@ -98,9 +97,7 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    hessian_internal(expr, &var_refs)
+    hessian_internal(expr, vars, by_symbol)
 }
 
 /// Compute the Jacobian matrix of a vector of expressions
@@ -121,9 +118,7 @@ pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffErro
 /// # Errors
 /// Returns `DiffError` if any partial derivative fails.
 pub fn jacobian(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names: Vec<String> = vars.iter().filter_map(|s| s.name()).collect();
-    let var_refs: Vec<&str> = var_names.iter().map(std::string::String::as_str).collect();
-    jacobian_internal(exprs, &var_refs)
+    jacobian_internal(exprs, vars, by_symbol)
 }
 
 // ===== String-based API =====
@@ -153,7 +148,7 @@ fn parse_formula(formula: &str) -> Result<Expr, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffError> {
     let expr = parse_formula(formula)?;
-    let grad = gradient_internal(&expr, vars)?;
+    let grad = gradient_internal(&expr, vars, by_name)?;
     Ok(grad.iter().map(std::string::ToString::to_string).collect())
 }
 
@@ -174,7 +169,7 @@ pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffErr
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn hessian_str(formula: &str, vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let expr = parse_formula(formula)?;
-    let hess = hessian_internal(&expr, vars)?;
+    let hess = hessian_internal(&expr, vars, by_name)?;
     Ok(hess
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
@@ -208,7 +203,7 @@ fn parse_formulas(formulas: &[&str]) -> Result<Vec<Expr>, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn jacobian_str(formulas: &[&str], vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let exprs = parse_formulas(formulas)?;
-    let jac = jacobian_internal(&exprs, vars)?;
+    let jac = jacobian_internal(&exprs, vars, by_name)?;
     Ok(jac
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..aba554b 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -636,26 +636,17 @@ impl Polynomial {
     }
 
     /// Differentiate with respect to a variable (chain rule)
-    pub fn derivative_expr(&self, diff_var: &str) -> Expr {
-        // Get polynomial derivative
-        let poly_deriv = self.derivative();
-        let poly_expr = poly_deriv.to_expr();
-
-        // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
-            // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
-
-            if u_prime.is_zero_num() {
-                Expr::number(0.0)
-            } else if u_prime.is_one_num() {
-                poly_expr
-            } else {
-                Expr::product(vec![poly_expr, u_prime])
-            }
+    pub fn derivative_expr(&self, derive_base: impl FnOnce(&Expr) -> Expr) -> Expr {
+        // Chain rule: d/dx[P(u)] = P'(u) * u'
+        let u_prime = derive_base(&self.base);
+        if u_prime.is_zero_num() {
+            return Expr::number(0.0);
+        }
+        let poly_expr = self.derivative().to_expr();
+        if u_prime.is_one_num() {
+            poly_expr
         } else {
-            // Base doesn't contain diff_var, derivative is 0
-            Expr::number(0.0)
+            Expr::product(vec![poly_expr, u_prime])
         }
     }
 
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..e66c6a7 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -53,19 +53,34 @@ impl Expr {
         static EMPTY_CONTEXT: std::sync::OnceLock<Context> = std::sync::OnceLock::new();
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
-        // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        // Resolve the name ONCE for O(1) UID comparisons throughout recursion.
+        // A symbol of the context shadows the global one, as it does in the parser.
+        let var_sym = ctx
+            .get_symbol(var)
+            .filter(|s| self.contains_var_id(s.id()))
+            .and_then(|s| crate::core::symbol::lookup_by_id(s.id()))
+            .unwrap_or_else(|| crate::core::symbol::symb_interned(var));
+
+        self.derive_impl(&var_sym, ctx)
+    }
 
-        self.derive_impl(var, var_id, ctx)
+    /// Differentiate with respect to a specific symbol (named, anonymous or context-isolated).
+    pub(crate) fn derive_symbol(
+        &self,
+        var: &crate::core::symbol::InternedSymbol,
+        ctx: &Context,
+    ) -> Self {
+        self.derive_impl(var, ctx)
     }
 
-    /// Inner recursive implementation that carries pre-computed `var_id`
+    /// Inner recursive implementation that carries the already resolved symbol
     /// to avoid re-interning the variable name at each node.
     #[allow(
         clippy::too_many_lines,
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
-    fn derive_impl(&self, var: &str, var_id: u64, ctx: &Context) -> Self {
+    fn derive_impl(&self, var: &crate::core::symbol::InternedSymbol, ctx: &Context) -> Self {
+        let var_id = var.id();
         match &self.kind {
             // Base cases
             ExprKind::Number(_) => Self::number(0.0),
@@ -90,7 +105,7 @@ impl Expr {
 
                 // Special handling for exponential function e^x
                 if name.id() == ks::KS.exp && args.len() == 1 {
-                    let inner_deriv = args[0].derive_impl(var, var_id, ctx);
+                    let inner_deriv = args[0].derive_impl(var, ctx);
                     return Self::mul_expr(
                         Self::func_symbol(ks::get_symbol(ks::KS.exp), (*args[0]).clone()),
                         inner_deriv,
@@ -103,7 +118,7 @@ impl Expr {
                 {
                     let arg_primes: Vec<Self> = args
                         .iter()
-                        .map(|arg| arg.derive_impl(var, var_id, ctx))
+                        .map(|arg| arg.derive_impl(var, ctx))
                         .collect();
                     return (def.derivative)(args, &arg_primes);
                 }
@@ -114,7 +129,7 @@ impl Expr {
                     let mut terms = Vec::new();
 
                     for (i, arg) in args.iter().enumerate() {
-                        let arg_prime = arg.derive_impl(var, var_id, ctx);
+                        let arg_prime = arg.derive_impl(var, ctx);
 
                         // Skip if derivative is zero
                         if arg_prime.is_zero_num() {
@@ -142,7 +157,7 @@ impl Expr {
                 // Unknown function - symbolic partial derivative using chain rule
                 let mut terms = Vec::new();
                 for (i, arg) in args.iter().enumerate() {
-                    let arg_prime = arg.derive_impl(var, var_id, ctx);
+                    let arg_prime = arg.derive_impl(var, ctx);
                     if arg_prime.is_zero_num() {
                         continue;
                     }
@@ -163,7 +178,7 @@ impl Expr {
             ExprKind::Sum(terms) => {
                 let derivs: Vec<Self> = terms
                     .iter()
-                    .map(|t| t.derive_impl(var, var_id, ctx))
+                    .map(|t| t.derive_impl(var, ctx))
                     .filter(|d| !d.is_zero_num())
                     .collect();
 
@@ -185,7 +200,7 @@ impl Expr {
                     return Self::number(0.0);
                 }
                 if factors.len() == 1 {
-                    return factors[0].derive_impl(var, var_id, ctx);
+                    return factors[0].derive_impl(var, ctx);
                 }
 
                 // Optimization: For large products, use logarithmic differentiation
@@ -194,7 +209,7 @@ impl Expr {
                 if factors.len() > 10 {
                     let mut log_terms = Vec::with_capacity(factors.len());
                     for factor in factors {
-                        let prime = factor.derive_impl(var, var_id, ctx);
+                        let prime = factor.derive_impl(var, ctx);
                         if !prime.is_zero_num() {
                             // term = f' / f
                             log_terms
@@ -219,7 +234,7 @@ impl Expr {
                         continue;
                     }
 
-                    let factor_prime = factors[i].derive_impl(var, var_id, ctx);
+                    let factor_prime = factors[i].derive_impl(var, ctx);
 
                     // Skip zero terms
                     if factor_prime.is_zero_num() {
@@ -260,7 +275,7 @@ impl Expr {
                 // Fast-path 1: Constant numerator (n/f) → -n*f'/f²
                 // Skip computing u' since we know it's 0
                 if let ExprKind::Number(n) = &u.kind {
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
                     if v_prime.is_zero_num() {
                         return Self::number(0.0);
                     }
@@ -273,13 +288,13 @@ impl Expr {
                 // Fast-path 2: Constant denominator (u/n) → u'/n
                 // Skip computing v' since we know it's 0
                 if let ExprKind::Number(_) = &v.kind {
-                    let u_prime = u.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
                     return Self::div_from_arcs(Arc::new(u_prime), Arc::clone(v));
                 }
 
                 // General case: compute both derivatives
-                let u_prime = u.derive_impl(var, var_id, ctx);
-                let v_prime = v.derive_impl(var, var_id, ctx);
+                let u_prime = u.derive_impl(var, ctx);
+                let v_prime = v.derive_impl(var, ctx);
 
                 let u_is_zero = u_prime.is_zero_num();
                 let v_is_zero = v_prime.is_zero_num();
@@ -316,8 +331,8 @@ impl Expr {
             // - 1^x: case 2, ln(1)=0 creates 0 term, simplifier handles ✓
             // - x^0: n_minus_1 becomes -1, but final term is 0*u^(-1)*u'=0 via simplifier ✓
             ExprKind::Pow(u, v) => {
-                let u_contains_var = u.contains_var(var);
-                let v_contains_var = v.contains_var(var);
+                let u_contains_var = u.contains_var_id(var_id);
+                let v_contains_var = v.contains_var_id(var_id);
 
                 if !u_contains_var && !v_contains_var {
                     // Both constant
@@ -330,7 +345,7 @@ impl Expr {
                         return Self::number(0.0);
                     }
 
-                    let u_prime = u.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
 
                     if u_prime.is_zero_num() {
                         Self::number(0.0)
@@ -347,7 +362,7 @@ impl Expr {
                     }
                 } else if !u_contains_var {
                     // Case 2: a^v, base is constant
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
 
                     if v_prime.is_zero_num() {
                         Self::number(0.0)
@@ -363,8 +378,8 @@ impl Expr {
                     }
                 } else {
                     // Case 3: u^v, both variable - use logarithmic differentiation
-                    let u_prime = u.derive_impl(var, var_id, ctx);
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
 
                     let ln_u = Self::func_symbol(ks::get_symbol(ks::KS.ln), (**u).clone());
 
@@ -418,23 +433,23 @@ impl Expr {
             } => {
                 if deriv_var.id() == var_id {
                     Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order + 1)
-                } else if !inner.contains_var(var) {
+                } else if !inner.contains_var_id(var_id) {
                     Self::number(0.0)
                 } else {
-                    Self::derivative(
+                    Self::derivative_interned(
                         Self::new(ExprKind::Derivative {
                             inner: Arc::clone(inner),
                             var: deriv_var.clone(),
                             order: *order,
                         }),
-                        var,
+                        var.clone(),
                         1,
                     )
                 }
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => poly.derivative_expr(|base| base.derive_impl(var, ctx)),
         }
     }
 
-- 
2.43.0


From 617a4001ed4ba43105d6a2633c21d6711922adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 16/73] fix: the parser silently dropped everything after the
 first complete expression

---
 src/parser/pratt.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..efd63b8 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -24,7 +24,18 @@ pub fn parse_expression(
         context,
     };
 
-    parser.parse_expr(0)
+    let expr = parser.parse_expr(0)?;
+
+    // Nothing may be left over: dropping it would silently change the formula
+    if parser.current().is_some() {
+        return Err(DiffError::UnexpectedToken {
+            expected: "operator or end of input".to_owned(),
+            got: format!("{:?}", parser.current()),
+            span: None,
+        });
+    }
+
+    Ok(expr)
 }
 
 /// Pratt parser for expressions
-- 
2.43.0


From 1d266dedbbbc44c31210122feba866e6d56718cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 17/73] fix: invalid multi-byte characters were reported
 mangled, with a span inside the character

---
 src/parser/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cf4062..3e55ccd 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -439,9 +439,10 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
 
             _ => {
                 // For invalid tokens, include position information
+                let bad = input.get(pos..).and_then(|s| s.chars().next()).unwrap_or(ch);
                 return Err(DiffError::InvalidToken {
-                    token: ch.to_string(),
-                    span: Some(crate::Span::new(pos, pos + 1)),
+                    token: bad.to_string(),
+                    span: Some(crate::Span::new(pos, pos + bad.len_utf8())),
                 });
             }
         }
-- 
2.43.0


From 45a2354b495345d64310fd8d48060ed8b3c0998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 18/73] fix: remove_symbol/clear_symbols left stale caches
 behind and removed the built-in names

---
 src/core/known_symbols.rs   |  14 +++-
 src/core/symbol/registry.rs | 131 +++++++++++++++++++++++++++++-------
 src/core/unified_context.rs |  12 ++--
 src/functions/registry.rs   |  10 +++
 4 files changed, 135 insertions(+), 32 deletions(-)

diff --git a/src/core/known_symbols.rs b/src/core/known_symbols.rs
index 67fde8c..06a53df 100644
--- a/src/core/known_symbols.rs
+++ b/src/core/known_symbols.rs
@@ -4,11 +4,21 @@
 //! Comparison is O(1) - just a u64 integer comparison.
 
 use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
-use std::sync::LazyLock;
+use std::sync::{LazyLock, RwLock};
+
+/// IDs handed out for the pre-interned symbols below
+static KNOWN_IDS: RwLock<Vec<u64>> = RwLock::new(Vec::new());
 
 /// Get the ID for an interned symbol (helper for the macro)
 fn intern_id(name: &str) -> u64 {
-    symb_interned(name).id()
+    let id = symb_interned(name).id();
+    KNOWN_IDS.write().expect("Known IDs poisoned").push(id);
+    id
+}
+
+/// Check if a symbol ID is one of the pre-interned symbols.
+pub fn is_known_id(id: u64) -> bool {
+    KNOWN_IDS.read().expect("Known IDs poisoned").contains(&id)
 }
 
 /// Collection of pre-interned symbol IDs for all built-in mathematical functions.
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 1a887ac..7882fd5 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,10 +4,11 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
 use rustc_hash::{FxHashMap, FxHasher};
-use slotmap::{DefaultKey, SlotMap};
+use slotmap::{DefaultKey, Key, SlotMap};
 use std::hash::Hasher;
 
 use super::interned::InternedSymbol;
@@ -108,7 +109,13 @@ impl SymbolRegistry {
 static REGISTRY: std::sync::LazyLock<SymbolRegistry> =
     std::sync::LazyLock::new(SymbolRegistry::new);
 
+/// Bumped whenever symbols are removed: every thread's cache of an older generation is stale.
+static GENERATION: AtomicU64 = AtomicU64::new(0);
+
 thread_local! {
+    // Registry generation the two caches below were filled in
+    static CACHE_GENERATION: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
+
     // Thread-local cache to avoid global lock contention on frequently accessed symbols
     static ID_CACHE: std::cell::RefCell<FxHashMap<DefaultKey, InternedSymbol>> = std::cell::RefCell::new(FxHashMap::default());
 
@@ -116,6 +123,29 @@ thread_local! {
     static NAME_CACHE: std::cell::RefCell<FxHashMap<String, Symbol>> = std::cell::RefCell::new(FxHashMap::default());
 }
 
+/// Drop this thread's caches if symbols were removed since they were filled.
+///
+/// Returns the generation the caches are now valid for.
+#[inline]
+fn sync_caches() -> u64 {
+    let generation = GENERATION.load(Ordering::Acquire);
+    if CACHE_GENERATION.with(std::cell::Cell::get) != generation {
+        ID_CACHE.with(|cache| cache.borrow_mut().clear());
+        NAME_CACHE.with(|cache| cache.borrow_mut().clear());
+        CACHE_GENERATION.with(|g| g.set(generation));
+    }
+    generation
+}
+
+/// Remember `name -> sym`, unless symbols were removed since `generation` was read.
+fn cache_name(name: &str, sym: Symbol, generation: u64) {
+    if GENERATION.load(Ordering::Acquire) == generation {
+        NAME_CACHE.with(|cache| {
+            cache.borrow_mut().insert(name.to_owned(), sym);
+        });
+    }
+}
+
 /// Look up `InternedSymbol` by its u64 ID.
 ///
 /// # Panics
@@ -125,6 +155,7 @@ pub fn lookup_by_id(id: u64) -> Option<InternedSymbol> {
     let key = key_from_id(id);
 
     // Try TLS cache first to avoid RwLock contention
+    let generation = sync_caches();
     if let Some(s) = ID_CACHE.with(|cache| cache.borrow().get(&key).cloned()) {
         return Some(s);
     }
@@ -138,7 +169,9 @@ pub fn lookup_by_id(id: u64) -> Option<InternedSymbol> {
         .cloned();
 
     // Populate cache if found
-    if let Some(ref s) = symbol {
+    if let Some(ref s) = symbol
+        && GENERATION.load(Ordering::Acquire) == generation
+    {
         ID_CACHE.with(|cache| {
             cache.borrow_mut().insert(key, s.clone());
         });
@@ -222,6 +255,7 @@ pub fn symbol_exists(name: &str) -> bool {
 #[must_use]
 pub fn symb(name: &str) -> Symbol {
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
+    let generation = sync_caches();
     if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
         return sym;
     }
@@ -237,9 +271,7 @@ pub fn symb(name: &str) -> Symbol {
         let sym = Symbol(key);
         // Populate TLS cache for future lookups
         drop(shard); // Release lock before TLS operation
-        NAME_CACHE.with(|cache| {
-            cache.borrow_mut().insert(name.to_owned(), sym);
-        });
+        cache_name(name, sym, generation);
         return sym;
     }
 
@@ -254,9 +286,7 @@ pub fn symb(name: &str) -> Symbol {
 
     let sym = Symbol(key);
     // Populate TLS cache
-    NAME_CACHE.with(|cache| {
-        cache.borrow_mut().insert(name.to_owned(), sym);
-    });
+    cache_name(name, sym, generation);
     sym
 }
 
@@ -266,57 +296,106 @@ pub fn symb(name: &str) -> Symbol {
 ///
 /// Panics if the global registry shard lock is poisoned.
 pub fn symb_interned(name: &str) -> InternedSymbol {
-    let symbol = symb(name);
-    lookup_by_id(symbol.id()).expect("Just-created symbol should always be found")
+    // A concurrent removal can take the symbol away again between the two steps: retry
+    loop {
+        let symbol = symb(name);
+        if let Some(interned) = lookup_by_id(symbol.id()) {
+            return interned;
+        }
+    }
 }
 
 /// Remove a symbol from the global registry
 ///
 /// Returns `true` if the symbol existed and was removed, `false` otherwise.
+/// The names of built-in functions and constants are never removed.
 ///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn remove_symbol(name: &str) -> bool {
+    init_builtins();
+
     let shard_lock = REGISTRY.get_shard(name);
     let mut shard = shard_lock
         .lock()
         .expect("Global symbol registry shard poisoned");
 
+    if let Some(&key) = shard.name_to_symbol_key.get(name)
+        && is_builtin_id(key.data().as_ffi())
+    {
+        return false;
+    }
+
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
-        // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
-        drop(shard);
-        REGISTRY
+        // Lock order is always shard, then id_data
+        let removed = REGISTRY
             .id_to_data
             .write()
             .expect("Global ID registry poisoned")
             .remove(key)
-            .is_some()
+            .is_some();
+        // Invalidate every thread's caches while the shard is still locked
+        GENERATION.fetch_add(1, Ordering::AcqRel);
+        drop(shard);
+        removed
     })
 }
 
+/// Intern all built-in names, so that they are known as such.
+///
+/// Must not be called while a registry lock is held.
+fn init_builtins() {
+    std::sync::LazyLock::force(&crate::core::known_symbols::KS);
+    crate::functions::registry::Registry::init();
+}
+
+/// Whether `id` is the symbol of a built-in function or constant, which the library itself
+/// keeps referring to by ID.
+fn is_builtin_id(id: u64) -> bool {
+    crate::core::known_symbols::is_known_id(id)
+        || crate::functions::registry::Registry::contains_id(id)
+}
+
 /// Clear all symbols from the global registry
 ///
+/// The names of built-in functions and constants stay registered.
+///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn clear_symbols() {
-    // Clear TLS caches first
-    ID_CACHE.with(|cache| cache.borrow_mut().clear());
-    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
-
-    for shard_lock in &REGISTRY.shards {
-        let mut shard = shard_lock
-            .lock()
-            .expect("Global symbol registry shard poisoned");
-        shard.name_to_symbol_key.clear();
+    init_builtins();
+
+    // Lock every shard, so that no name can be registered half-way through
+    let mut shards: Vec<_> = REGISTRY
+        .shards
+        .iter()
+        .map(|shard_lock| {
+            shard_lock
+                .lock()
+                .expect("Global symbol registry shard poisoned")
+        })
+        .collect();
+    let mut kept = rustc_hash::FxHashSet::default();
+    for shard in &mut shards {
+        shard.name_to_symbol_key.retain(|_, key| {
+            let keep = is_builtin_id(key.data().as_ffi());
+            if keep {
+                kept.insert(*key);
+            }
+            keep
+        });
     }
 
-    let mut id_data = REGISTRY
+    REGISTRY
         .id_to_data
         .write()
-        .expect("Global ID registry poisoned");
-    id_data.clear();
+        .expect("Global ID registry poisoned")
+        .retain(|key, _| kept.contains(&key));
+    // Invalidate every thread's caches while the shards are still locked
+    GENERATION.fetch_add(1, Ordering::AcqRel);
+    drop(shards);
 }
 
 /// Get the number of registered symbols
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9ae1b97..2d9e01f 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -343,12 +343,16 @@ impl Context {
 
         // 2. Check global registry (without creating)
         // 2. Check global registry (without creating), else create isolated
-        let symbol = crate::core::symbol::registry::symb_get(name)
-            .unwrap_or_else(|_| crate::core::symbol::registry::symb_new_isolated(name));
+        // (a global symbol can be removed concurrently between the two lookups: retry)
+        let (symbol, interned) = loop {
+            let symbol = crate::core::symbol::registry::symb_get(name)
+                .unwrap_or_else(|_| crate::core::symbol::registry::symb_new_isolated(name));
+            if let Some(interned) = crate::core::symbol::lookup_by_id(symbol.id()) {
+                break (symbol, interned);
+            }
+        };
 
         // Track in context's local map
-        let interned = crate::core::symbol::lookup_by_id(symbol.id())
-            .expect("Symbol just created should exist");
 
         inner.symbols.insert(name.to_owned(), interned);
 
diff --git a/src/functions/registry.rs b/src/functions/registry.rs
index fbfd850..da0606f 100644
--- a/src/functions/registry.rs
+++ b/src/functions/registry.rs
@@ -61,4 +61,14 @@ impl Registry {
     pub(crate) fn get_by_symbol(sym: &InternedSymbol) -> Option<&'static FunctionDefinition> {
         REGISTRY.get_or_init(init_registry).get(&sym.id())
     }
+
+    /// Make sure the registry is populated
+    pub(crate) fn init() {
+        REGISTRY.get_or_init(init_registry);
+    }
+
+    /// Whether a symbol ID names a registered function (never initialises the registry)
+    pub(crate) fn contains_id(id: u64) -> bool {
+        REGISTRY.get().is_some_and(|map| map.contains_key(&id))
+    }
 }
-- 
2.43.0


From 3520c504c2ec22f1081ecca80ce27d5a01d4be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 19/73] fix: zeta_deriv of a very high order did not return

---
 src/math/special.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 7f514b2..4e2bec3 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -420,7 +420,12 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
             let lower = derivs[(order - j) as usize];
             value -= binomial * d_j * lower;
         }
-        derivs.push(value / denom);
+        let derivative = value / denom;
+        if !derivative.is_finite() {
+            // Out of range: so are all higher orders
+            return Some(derivative);
+        }
+        derivs.push(derivative);
     }
     derivs.pop()
 }
-- 
2.43.0


From ea2636c67b78dfa138e75aaa7889f36bd3fd70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 20/73] fix: nonzero constants below 1e-14 were treated as zero

Cancellation is now judged relative to the addends; rounding to an integer never
rounds a nonzero number to 0; polynomial division drops the leading term it
cancels (it looped forever on infinite or underflowing coefficients); a fraction
whose coefficients overflow is left alone.
---
 src/core/expr/constructors.rs                 | 15 ++++++--
 src/core/poly.rs                              | 38 +++++++++++--------
 src/core/traits.rs                            | 18 +++++++++
 .../rules/algebraic/combination.rs            | 12 +++---
 .../rules/algebraic/factoring.rs              | 21 +++++-----
 src/simplification/rules/numeric/mod.rs       | 10 ++---
 6 files changed, 74 insertions(+), 40 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 8487c8f..6b32cc8 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -7,6 +7,7 @@ use std::sync::Arc;
 
 use super::{EPSILON, EXPR_ONE, Expr, ExprKind, compute_expr_hash, expr_cmp, next_id};
 use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::core::traits::is_cancelled;
 
 impl Expr {
     /// Create a new expression with fresh ID
@@ -59,7 +60,7 @@ impl Expr {
     /// Check if this expression is the number zero (with tolerance)
     #[inline]
     pub fn is_zero_num(&self) -> bool {
-        self.as_number().is_some_and(crate::core::traits::is_zero)
+        self.as_number().is_some_and(|n| n == 0.0)
     }
 
     /// Check if this expression is the number one (with tolerance)
@@ -154,12 +155,16 @@ impl Expr {
 
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_magnitude: f64 = 0.0;
 
         for t in terms {
             if matches!(t.kind, ExprKind::Sum(_) | ExprKind::Number(_)) {
                 match t.into_kind() {
                     ExprKind::Sum(inner) => flat.extend(inner),
-                    ExprKind::Number(n) => numeric_sum += n,
+                    ExprKind::Number(n) => {
+                        numeric_sum += n;
+                        numeric_magnitude = numeric_magnitude.max(n.abs());
+                    }
                     // Invariant protected by if guard
                     _ => {}
                 }
@@ -169,7 +174,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_cancelled(numeric_sum, numeric_magnitude) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -218,11 +223,13 @@ impl Expr {
         // Flatten nested sums and combine numbers
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_magnitude: f64 = 0.0;
 
         for t in terms {
             // Check for Number
             if let ExprKind::Number(n) = t.kind {
                 numeric_sum += n;
+                numeric_magnitude = numeric_magnitude.max(n.abs());
                 continue;
             }
 
@@ -249,7 +256,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_cancelled(numeric_sum, numeric_magnitude) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
diff --git a/src/core/poly.rs b/src/core/poly.rs
index aba554b..b4fe6df 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,7 +3,7 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_cancelled};
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
@@ -128,7 +128,7 @@ impl Polynomial {
 
     /// Create a constant polynomial
     pub fn constant(c: f64) -> Self {
-        if c.abs() < EPSILON {
+        if c == 0.0 {
             // Zero polynomial - use dummy base
             Self {
                 base: Arc::new(Expr::number(1.0)),
@@ -152,7 +152,7 @@ impl Polynomial {
 
     /// Create polynomial: coeff * base^pow
     pub fn term(base: Arc<Expr>, pow: u32, coeff: f64) -> Self {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             Self::zero(base)
         } else {
             Self {
@@ -256,13 +256,14 @@ impl Polynomial {
 
     /// Add a term (power, coeff) to the polynomial
     pub(crate) fn add_term(&mut self, pow: u32, coeff: f64) {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             return;
         }
         match self.terms.binary_search_by_key(&pow, |(p, _)| *p) {
             Ok(i) => {
+                let magnitude = self.terms[i].1.abs().max(coeff.abs());
                 self.terms[i].1 += coeff;
-                if self.terms[i].1.abs() < EPSILON {
+                if is_cancelled(self.terms[i].1, magnitude) {
                     self.terms.remove(i);
                 }
             }
@@ -294,9 +295,7 @@ impl Polynomial {
             let my_const = self.as_constant().unwrap_or(0.0);
             self.base = Arc::clone(&other.base);
             self.terms.clone_from(&other.terms);
-            if my_const.abs() >= EPSILON {
-                self.add_term(0, my_const);
-            }
+            self.add_term(0, my_const);
             return true;
         }
 
@@ -364,18 +363,21 @@ impl Polynomial {
         // Merge terms with same power
         let mut merged_terms = Vec::with_capacity(all_terms.len());
         if let Some(&(mut current_pow, mut current_coeff)) = all_terms.first() {
+            let mut magnitude = current_coeff.abs();
             for &(next_pow, next_coeff) in all_terms.iter().skip(1) {
                 if next_pow == current_pow {
                     current_coeff += next_coeff;
+                    magnitude = magnitude.max(next_coeff.abs());
                 } else {
-                    if current_coeff.abs() >= EPSILON {
+                    if !is_cancelled(current_coeff, magnitude) {
                         merged_terms.push((current_pow, current_coeff));
                     }
                     current_pow = next_pow;
                     current_coeff = next_coeff;
+                    magnitude = next_coeff.abs();
                 }
             }
-            if current_coeff.abs() >= EPSILON {
+            if !is_cancelled(current_coeff, magnitude) {
                 merged_terms.push((current_pow, current_coeff));
             }
         }
@@ -388,7 +390,7 @@ impl Polynomial {
 
     /// Multiply by a scalar
     pub fn scale(&self, scalar: f64) -> Self {
-        if scalar.abs() < EPSILON {
+        if scalar == 0.0 {
             return Self::zero(Arc::clone(&self.base));
         }
         Self {
@@ -412,7 +414,7 @@ impl Polynomial {
     /// Make polynomial monic (leading coefficient = 1)
     pub fn make_monic(&self) -> Self {
         let lc = self.leading_coeff();
-        if lc.abs() < EPSILON || (lc - 1.0).abs() < EPSILON {
+        if lc == 0.0 || (lc - 1.0).abs() < EPSILON {
             return self.clone();
         }
         self.scale(1.0 / lc)
@@ -449,8 +451,9 @@ impl Polynomial {
 
             quotient.add_term(q_pow, q_coeff);
 
-            // remainder -= q_term * other
-            for &(p, c) in &other.terms {
+            // remainder -= q_term * other; the leading terms cancel by construction
+            remainder.terms.pop();
+            for &(p, c) in other.terms.iter().rev().skip(1) {
                 remainder.add_term(p + q_pow, -q_coeff * c);
             }
         }
@@ -474,7 +477,10 @@ impl Polynomial {
                 return Some(r0.make_monic());
             }
 
-            let (_, rem) = r0.div_rem(&r1)?;
+            let (_, mut rem) = r0.div_rem(&r1)?;
+            // What is left of a cancelled remainder is rounding noise
+            let magnitude = r0.terms.iter().fold(0.0, |m: f64, (_, c)| m.max(c.abs()));
+            rem.terms.retain(|(_, c)| c.abs() >= EPSILON * magnitude);
             r0 = r1;
             r1 = rem;
         }
@@ -559,7 +565,7 @@ impl Polynomial {
             // Division by constant
             ExprKind::Div(num, den) => {
                 if let ExprKind::Number(d) = &den.kind
-                    && d.abs() > EPSILON
+                    && *d != 0.0
                 {
                     let mut result = Self::try_from_expr(num)?;
                     result = result.scale(1.0 / d);
diff --git a/src/core/traits.rs b/src/core/traits.rs
index ad88e15..ba773e7 100644
--- a/src/core/traits.rs
+++ b/src/core/traits.rs
@@ -105,6 +105,24 @@ pub fn is_zero(n: f64) -> bool {
     n.abs() < EPSILON
 }
 
+/// Check if a sum is only the rounding residue of cancelling addends
+///
+/// `magnitude` is the largest absolute value among the addends: a sum is cancelled
+/// relative to what was added, so that small quantities such as `6.626e-34` are kept.
+#[inline]
+pub fn is_cancelled(sum: f64, magnitude: f64) -> bool {
+    sum == 0.0 || is_zero(sum / magnitude)
+}
+
+/// Check if a floating point number is an integer up to rounding
+///
+/// A small nonzero number is not an integer: rounding it to 0 would lose all of it.
+#[inline]
+pub fn is_near_integer(n: f64) -> bool {
+    let rounded = n.round();
+    n.is_finite() && (n == rounded || (rounded != 0.0 && is_zero(n - rounded)))
+}
+
 /// Check if a floating point number is effectively 1.0
 ///
 /// Uses a tolerance of `1e-15` for comparison.
diff --git a/src/simplification/rules/algebraic/combination.rs b/src/simplification/rules/algebraic/combination.rs
index d141c13..f693b0d 100644
--- a/src/simplification/rules/algebraic/combination.rs
+++ b/src/simplification/rules/algebraic/combination.rs
@@ -1,6 +1,6 @@
 // Algebraic combination operations on validated expressions
 
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_cancelled};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -410,16 +410,18 @@ rule_arc!(
                 } else {
                     // Sub-group by actual structural base using HashMap (O(n) amortized).
                     // Expr's Hash+PartialEq handles hash collisions via structural equality.
-                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, f64> =
+                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, (f64, f64)> =
                         std::collections::HashMap::new();
                     for term in &group_terms {
                         let (coeff, var_part) =
                             crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                        *sub_groups.entry(var_part).or_insert(0.0) += coeff;
+                        let (total, magnitude) = sub_groups.entry(var_part).or_insert((0.0, 0.0));
+                        *total += coeff;
+                        *magnitude = magnitude.max(coeff.abs());
                     }
 
-                    for (base_term, total_coeff) in sub_groups {
-                        if total_coeff.abs() < EPSILON {
+                    for (base_term, (total_coeff, magnitude)) in sub_groups {
+                        if is_cancelled(total_coeff, magnitude) {
                             // Terms cancel out
                             continue;
                         }
diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..36be9ee 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -1,6 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::poly::Polynomial;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -86,7 +86,7 @@ impl Rule for FractionCancellationRule {
 
             fn is_safe_to_cancel(base: &Expr) -> bool {
                 match &base.kind {
-                    AstKind::Number(n) => n.abs() > EPSILON,
+                    AstKind::Number(n) => *n != 0.0,
                     _ => false,
                 }
             }
@@ -119,14 +119,15 @@ impl Rule for FractionCancellationRule {
 
             // Simplify coefficients
             let ratio = num_coeff / den_coeff;
-            if ratio.abs() < EPSILON {
+            if ratio == 0.0 && num_coeff == 0.0 {
                 return Some(Arc::new(Expr::number(0.0)));
             }
 
-            if (ratio - ratio.round()).abs() < EPSILON {
+            let reducible = ratio.is_finite() && ratio != 0.0;
+            if reducible && is_near_integer(ratio) {
                 num_coeff = ratio.round();
                 den_coeff = 1.0;
-            } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
+            } else if reducible && is_near_integer(1.0 / ratio) {
                 let inv = (1.0 / ratio).round();
                 if inv < 0.0 {
                     num_coeff = -1.0;
@@ -392,7 +393,7 @@ impl Rule for PerfectSquareRule {
                         // Check if number is a perfect square (positive)
                         if *n > 0.0 {
                             let sqrt_n = n.sqrt();
-                            if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                            if is_near_integer(sqrt_n) {
                                 // It's a perfect square constant, treat as square term (coeff=1, base=sqrt(n))
                                 // We treat '9' as 1*3^2. So coeff=1.0, base=Number(3)
                                 square_terms.push((1.0, Arc::new(Expr::number(sqrt_n.round()))));
@@ -452,8 +453,8 @@ impl Rule for PerfectSquareRule {
                 let sqrt_c1 = c1.sqrt();
                 let sqrt_c2 = c2.sqrt();
 
-                if (sqrt_c1 - sqrt_c1.round()).abs() < EPSILON
-                    && (sqrt_c2 - sqrt_c2.round()).abs() < EPSILON
+                if is_near_integer(sqrt_c1)
+                    && is_near_integer(sqrt_c2)
                 {
                     let expected_cross_abs = (2.0 * sqrt_c1 * sqrt_c2).abs();
                     let cross_coeff_abs = cross_coeff.abs();
@@ -535,7 +536,7 @@ rule_arc!(
                 && *n > 0.0
             {
                 let sqrt_n = n.sqrt();
-                if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                if is_near_integer(sqrt_n) {
                     return Some(Arc::new(Expr::number(sqrt_n.round())));
                 }
             }
@@ -559,7 +560,7 @@ rule_arc!(
             {
                 let pos_n = -n;
                 let sqrt_n = pos_n.sqrt();
-                if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                if is_near_integer(sqrt_n) {
                     return Some(Arc::new(Expr::number(sqrt_n.round())));
                 }
             }
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..0d0c00f 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -1,7 +1,7 @@
 use crate::Expr;
 use crate::ExprKind as AstKind;
 use crate::core::known_symbols::KS;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 // ===== Identity Rules for Sum (Priority 100) =====
@@ -389,7 +389,7 @@ rule!(
             && *b != 0.0
         {
             let result = a / b;
-            if (result - result.round()).abs() < EPSILON {
+            if is_near_integer(result) {
                 return Some(Expr::number(result.round()));
             }
         }
@@ -487,7 +487,7 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let s = n.sqrt();
-            if (s - s.round()).abs() < EPSILON {
+            if is_near_integer(s) {
                 return Some(Expr::number(s.round()));
             }
         }
@@ -508,7 +508,7 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let c = n.cbrt();
-            if (c - c.round()).abs() < EPSILON {
+            if is_near_integer(c) {
                 return Some(Expr::number(c.round()));
             }
         }
@@ -575,7 +575,7 @@ rule!(
 
                 // Only evaluate if result is an integer
                 // This preserves symbolic forms like sqrt(2), ln(10), etc.
-                if (result - result.round()).abs() < EPSILON {
+                if is_near_integer(result) {
                     return Some(Expr::number(result.round()));
                 }
 
-- 
2.43.0


From b0b0af1d3aa5d5061b999aba58d6f07b5167d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 21/73] fix: power and root rules lost the sign of negative
 bases or, in domain-safe mode, the domain

(x^2)^1.5 became x^3; (x^even)^a is |x|^(even*a). In domain-safe mode
cbrt(x) -> x^(1/3), (x/y)^0.5 -> sqrt(x)/sqrt(y) and (x*y)^a -> x^a*y^a
need known signs.
---
 src/simplification/helpers.rs                 | 27 +++++++
 .../rules/algebraic/expansion.rs              |  7 +-
 src/simplification/rules/algebraic/powers.rs  | 72 +++++++------------
 src/simplification/rules/root/mod.rs          | 38 +++++-----
 4 files changed, 81 insertions(+), 63 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 3f9f121..3631f16 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -496,6 +496,33 @@ pub fn is_known_non_negative(expr: &Expr) -> bool {
     }
 }
 
+/// Numeric value of a number, a quotient of numbers, or a product of those.
+pub fn numeric_ratio(expr: &Expr) -> Option<f64> {
+    match &expr.kind {
+        ExprKind::Number(n) => Some(*n),
+        ExprKind::Div(u, v) => Some(numeric_ratio(u)? / numeric_ratio(v)?),
+        ExprKind::Product(factors) => factors
+            .iter()
+            .try_fold(1.0, |acc, f| Some(acc * numeric_ratio(f)?)),
+        _ => None,
+    }
+}
+
+/// Check if `(base^inner)^outer` differs from `base^(inner*outer)` for negative bases:
+/// an even inner power discards the sign of the base, so the outer power sees `|base|`.
+pub fn even_power_loses_sign(base: &Expr, inner: &Expr, outer: &Expr) -> bool {
+    let Some(inner) = numeric_ratio(inner) else {
+        return false;
+    };
+    // A zero inner exponent is handled elsewhere
+    if inner == 0.0 || inner % 2.0 != 0.0 || is_known_non_negative(base) {
+        return false;
+    }
+    // Integer powers of even powers stay even
+    numeric_ratio(outer)
+        .is_none_or(|outer| outer.fract() != 0.0 && (inner * outer) % 2.0 != 0.0)
+}
+
 /// Check if an exponent represents a fractional power that requires non-negative base
 /// (i.e., exponents like 1/2, 1/4, 3/2, etc. where denominator is even)
 /// Check if expression represents a fractional root exponent.
diff --git a/src/simplification/rules/algebraic/expansion.rs b/src/simplification/rules/algebraic/expansion.rs
index afdf456..0d39842 100644
--- a/src/simplification/rules/algebraic/expansion.rs
+++ b/src/simplification/rules/algebraic/expansion.rs
@@ -1,5 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 
@@ -9,7 +10,7 @@ rule!(
     92,
     Algebraic,
     &[ExprKind::Div],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Div(num, den) = &expr.kind {
             // Helper to check if a factor is present in an expression
             let contains_factor = |e: &Expr, factor: &Expr| -> bool {
@@ -23,6 +24,10 @@ rule!(
             let check_and_expand = |target: &Expr, other: &Expr| -> Option<Expr> {
                 if let AstKind::Pow(base, exp) = &target.kind
                     && let AstKind::Product(base_factors) = &base.kind
+                    // (u*v)^a = u^a * v^a needs non-negative factors, unless a is an integer
+                    && (!context.domain_safe
+                        || matches!(&exp.kind, AstKind::Number(n) if n.fract() == 0.0)
+                        || base_factors.iter().all(|f| is_known_non_negative(f)))
                 {
                     // Check if any base factor is present in 'other'
                     let mut useful = false;
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..a442ce2 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -1,5 +1,5 @@
 use crate::core::known_symbols as ks;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -49,53 +49,24 @@ rule!(
         if let AstKind::Pow(u, v) = &expr.kind
             && let AstKind::Pow(base, exp_inner) = &u.kind
         {
-            // Check for special case: (x^even)^(1/even) where result would be x^1
-            if let AstKind::Number(inner_n) = &exp_inner.kind {
-                // Exact comparison for integer check, cast for modulo
-                #[allow(
-                    clippy::float_cmp,
-                    clippy::cast_possible_truncation,
-                    reason = "Exact check for integer, cast for modulo"
-                )]
-                // Exact check for integer, cast for modulo
-                let inner_is_even =
-                    *inner_n > 0.0 && inner_n.fract() == 0.0 && (*inner_n as i64) % 2 == 0;
+            // Create new exponent: exp_inner * v using Product
+            let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
 
-                if inner_is_even {
-                    if let AstKind::Div(num, den) = &v.kind
-                        && let (AstKind::Number(num_val), AstKind::Number(den_val)) =
-                            (&num.kind, &den.kind)
-                        && {
-                            // Exact check for 1.0 numerator in exponent fraction
-                            #[allow(
-                                clippy::float_cmp,
-                                reason = "Comparing against exact constant 1.0"
-                            )]
-                            let is_one = *num_val == 1.0;
-                            is_one
-                        }
-                        && (*den_val - *inner_n).abs() < EPSILON
-                    {
-                        return Some(Expr::func_multi_from_arcs_symbol(
-                            ks::get_symbol(ks::KS.abs),
-                            vec![Arc::clone(base)],
-                        ));
-                    }
-                    if let AstKind::Number(outer_n) = &v.kind {
-                        let product = inner_n * outer_n;
-                        if (product - 1.0).abs() < EPSILON {
-                            return Some(Expr::func_multi_from_arcs_symbol(
-                                ks::get_symbol(ks::KS.abs),
-                                vec![Arc::clone(base)],
-                            ));
-                        }
-                    }
+            // (x^even)^v is |x|^(even*v), unless the sign of x is lost anyway
+            if crate::simplification::helpers::even_power_loses_sign(base, exp_inner, v) {
+                let abs_base = Arc::new(Expr::func_multi_from_arcs_symbol(
+                    ks::get_symbol(ks::KS.abs),
+                    vec![Arc::clone(base)],
+                ));
+                // Numeric exponents: |x|^1 is just |x|
+                if let Some(product) = crate::simplification::helpers::numeric_ratio(&new_exp)
+                    && (product - 1.0).abs() < EPSILON
+                {
+                    return Some(Expr::unwrap_arc(abs_base));
                 }
+                return Some(Expr::pow_from_arcs(abs_base, Arc::new(new_exp)));
             }
 
-            // Create new exponent: exp_inner * v using Product
-            let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
-
             return Some(Expr::pow_from_arcs(Arc::clone(base), Arc::new(new_exp)));
         }
         None
@@ -350,7 +321,7 @@ rule_arc!(
                                 (&base.kind, &exp.kind)
                             {
                                 let result = base_val.powf(*exp_val);
-                                result.is_finite() && (result - result.round()).abs() < EPSILON
+                                result.is_finite() && is_near_integer(result)
                             } else {
                                 false
                             }
@@ -463,7 +434,7 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
         {
@@ -514,6 +485,15 @@ rule!(
                 _ => false,
             };
 
+            // (u/v)^a = u^a / v^a needs one of the two to be non-negative, unless a is an integer
+            if context.domain_safe
+                && !matches!(&exp.kind, AstKind::Number(n) if n.fract() == 0.0)
+                && !crate::simplification::helpers::is_known_non_negative(num)
+                && !crate::simplification::helpers::is_known_non_negative(den)
+            {
+                return None;
+            }
+
             if is_root_exponent || den_would_simplify {
                 let num_pow = Expr::pow_from_arcs(Arc::clone(num), Arc::clone(exp));
                 let den_pow = Expr::pow_from_arcs(Arc::clone(den), Arc::clone(exp));
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..f96bc4f 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,6 +1,7 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
+use crate::simplification::helpers::{even_power_loses_sign, is_known_non_negative};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
@@ -16,16 +17,12 @@ rule!(
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
-            // Special case: sqrt(x^2) should always return abs(x)
-            if let AstKind::Number(n) = &exp.kind {
-                // Exact check for power 2.0 (square)
-                #[allow(clippy::float_cmp, reason = "Comparing against exact constant 2.0")]
-                let is_square = *n == 2.0;
-                if is_square {
-                    // sqrt(x^2) = |x|
-                    return Some(Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone()));
-                }
-            }
+            // sqrt(x^2) = |x|, sqrt(x^6) = |x|^3: an even power discards the sign of the base
+            let base = if even_power_loses_sign(base, exp, &Expr::number(0.5)) {
+                Arc::new(Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone()))
+            } else {
+                Arc::clone(base)
+            };
 
             // Create new exponent: exp / 2
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(2.0));
@@ -38,7 +35,7 @@ rule!(
                             new_exp
                         } else {
                             let result = a / b;
-                            if (result - result.round()).abs() < EPSILON {
+                            if is_near_integer(result) {
                                 Expr::number(result.round())
                             } else {
                                 new_exp
@@ -72,7 +69,7 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
@@ -89,7 +86,7 @@ rule!(
                             new_exp
                         } else {
                             let result = a / b;
-                            if (result - result.round()).abs() < EPSILON {
+                            if is_near_integer(result) {
                                 Expr::number(result.round())
                             } else {
                                 new_exp
@@ -109,6 +106,12 @@ rule!(
                 return Some(base.as_ref().clone());
             }
 
+            // cbrt is defined for negative arguments, fractional powers are not
+            let is_integer = matches!(&simplified_exp.kind, AstKind::Number(n) if n.fract() == 0.0);
+            if context.domain_safe && !is_integer && !is_known_non_negative(base) {
+                return None;
+            }
+
             return Some(Expr::pow_static(base.as_ref().clone(), simplified_exp));
         }
         None
@@ -190,7 +193,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -199,7 +202,10 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt
+                // cbrt is defined for negative arguments, fractional powers are not
+                && (!context.domain_safe || is_known_non_negative(&args[0]))
+            {
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
-- 
2.43.0


From cb544e654a3c0a4f71ff9dee14d04eb8e0461e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 22/73] fix: 2exp(x) and 2e were rejected as malformed numbers

---
 src/parser/lexer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3e55ccd..b035499 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -380,7 +380,16 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
                         '0'..='9' | '.' | '_' => {
                             pos += 1;
                         }
-                        'e' | 'E' if !has_exponent => {
+                        // An exponent needs a digit: `2e3` and `2e-3`, but not `2exp(x)` or `2e + 1`
+                        'e' | 'E'
+                            if !has_exponent
+                                && match bytes.get(pos + 1) {
+                                    Some(b'+' | b'-') => {
+                                        bytes.get(pos + 2).is_some_and(u8::is_ascii_digit)
+                                    }
+                                    next => next.is_some_and(u8::is_ascii_digit),
+                                } =>
+                        {
                             has_exponent = true;
                             pos += 1;
                             // Handle optional sign after exponent
-- 
2.43.0


From d7412c05096379c2d73b08dde3d5f0b04f688897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 23/73] fix: printed derivatives inside parentheses, with
 underscores or nested were not parseable
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The scanner for ∂^n_f(args)/∂_v^n swallowed a closing parenthesis after it and
split names at underscores.
---
 src/parser/lexer.rs | 270 ++++++++++++++++++--------------------------
 src/parser/pratt.rs |  11 +-
 2 files changed, 120 insertions(+), 161 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b035499..016abe8 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,90 +207,113 @@ enum RawToken<'src> {
     Comma,
 }
 
-/// Helper: Scan derivative notation (∂...) with balanced parentheses
-/// Returns the complete derivative string (including the leading ∂)
-///
-/// This handles complex derivative notation like: ∂_f(x+y)/∂_x
-/// by tracking parenthesis depth to ensure balanced expressions.
-#[allow(
-    clippy::string_slice,
-    reason = "Slicing is safe because len is calculated from utf8 lengths"
-)]
-fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
-    let mut chars = input.chars().peekable();
-    let mut len = 0;
-    let mut depth = 0;
-
-    // chars is already positioned at start of input. Check for ∂
-    if chars.peek() == Some(&'\u{2202}') {
-        let c = chars.next().expect("Checked peek");
-        len += c.len_utf8();
-    } else {
-        // This function expects to be called when ∂ is detected
-        // but we handle the case where it's not starting with it if needed,
-        // though the caller (lexer) checks it.
-    }
+/// The parts of one derivative in `∂^order_inner/∂_var^order` notation
+struct DerivativeParts<'src> {
+    /// Derivative order (1 when not written)
+    order: u32,
+    /// Function name, empty when the inner expression is itself a derivative
+    func: &'src str,
+    /// Text between the parentheses of the call, or the nested derivative
+    args: &'src str,
+    /// Differentiation variable
+    var: &'src str,
+    /// Byte length of the whole notation
+    len: usize,
+}
 
-    while let Some(&next_c) = chars.peek() {
-        // Decision logic based on CURRENT depth
-        let accept = if depth > 0 {
-            // Inside parens, accept everything except unmatched closing
-            true
-        } else {
-            // Top level: accept specific chars for derivative notation
-            next_c.is_alphanumeric()
-                || next_c == '_'
-                || next_c == '\u{2202}'
-                || next_c == '^'
-                || next_c == '/'
-                || next_c == '('
-                || next_c == ')'
-                || next_c == ','
-        };
-
-        if !accept {
-            break;
-        }
+/// Split off a leading `^digits`, returning the order and its byte length
+fn scan_order(s: &str) -> Option<(u32, usize)> {
+    let digits = s.strip_prefix('^')?;
+    let n = digits
+        .find(|c: char| !c.is_ascii_digit())
+        .unwrap_or(digits.len());
+    let order = digits.get(..n)?.parse::<u32>().ok()?;
+    Some((order, n + 1))
+}
 
-        chars.next(); // Consume
-        len += next_c.len_utf8();
+/// Split off a leading identifier
+fn scan_name(s: &str) -> &str {
+    let n = s
+        .find(|c: char| !is_identifier_continue(c))
+        .unwrap_or(s.len());
+    s.get(..n).unwrap_or(s)
+}
 
-        // Update depth AFTER consuming
-        match next_c {
-            '(' => depth += 1,
-            ')' => {
-                if depth > 0 {
-                    depth -= 1;
-                } else {
-                    // Unmatched closing paren at top level - stop here
-                    // This logic mirrors the original: break on unmatched closing paren
-                    // However, we consumed it.
-                    // "Unmatched closing paren at top level - stop here"
-                    // Original code:
-                    // seq.push(next_c); chars.next();
-                    // if depth > 0 { depth -= 1 } else { break }
-                    // So it INCLUDED the closing paren in seq, then broke loop.
-                    // Wait, if depth == 0, break.
-                    // So ")(x" -> seq includes ")".
-                    // But then it breaks.
-                    // Let's verify original behavior.
-                    break;
+/// Recognize the derivative notation at the start of `input`.
+///
+/// `nesting` bounds derivatives of derivatives, so malformed input cannot recurse deeply.
+fn split_derivative(input: &str, nesting: u32) -> Option<DerivativeParts<'_>> {
+    if nesting > 16 {
+        return None;
+    }
+    let mut rest = input.strip_prefix('\u{2202}')?;
+    let mut order = None;
+    if rest.starts_with('^') {
+        let (n, used) = scan_order(rest)?;
+        order = Some(n);
+        rest = rest.get(used..)?;
+    }
+    rest = rest.strip_prefix('_')?;
+
+    let (func, args) = if rest.starts_with('\u{2202}') {
+        let inner = split_derivative(rest, nesting + 1)?;
+        let text = rest.get(..inner.len)?;
+        rest = rest.get(inner.len..)?;
+        ("", text)
+    } else {
+        let func = scan_name(rest);
+        if func.is_empty() {
+            return None;
+        }
+        rest = rest.get(func.len()..)?;
+        let mut args = "";
+        if rest.starts_with('(') {
+            let mut depth = 0_usize;
+            let close = rest.char_indices().find_map(|(i, c)| {
+                match c {
+                    '(' => depth += 1,
+                    ')' => depth -= 1,
+                    _ => {}
                 }
-            }
-            _ => {}
+                (depth == 0).then_some(i)
+            })?;
+            args = rest.get(1..close)?;
+            rest = rest.get(close + 1..)?;
         }
-    }
-
-    let seq = &input[..len];
+        (func, args)
+    };
 
-    // Basic validation: derivative notation should contain more than just '∂'
-    if seq.len() <= '\u{2202}'.len_utf8() {
-        return Err(DiffError::invalid_token(format!(
-            "Incomplete derivative notation: {seq}"
-        )));
+    rest = rest.strip_prefix("/\u{2202}_")?;
+    let var = scan_name(rest);
+    if var.is_empty() {
+        return None;
     }
+    rest = rest.get(var.len()..)?;
+    if let Some((n, used)) = scan_order(rest) {
+        if n != order.unwrap_or(1) {
+            return None;
+        }
+        rest = rest.get(used..)?;
+    }
+    Some(DerivativeParts {
+        order: order.unwrap_or(1),
+        func,
+        args,
+        var,
+        len: input.len() - rest.len(),
+    })
+}
 
-    Ok(seq)
+/// Helper: Scan derivative notation (∂...) with balanced parentheses
+/// Returns the complete derivative string (including the leading ∂)
+///
+/// This handles complex derivative notation like: ∂_f(x+y)/∂_x
+fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
+    split_derivative(input, 0)
+        .and_then(|parts| input.get(..parts.len))
+        .ok_or_else(|| {
+            DiffError::invalid_token(format!("Incomplete derivative notation: {input}"))
+        })
 }
 
 /// Pass 1: Scan characters and create raw tokens
@@ -664,103 +687,32 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     custom_functions: &HashSet<String, S>,
 ) -> Result<Token<'src>, DiffError> {
     // Format: ∂^order_func(args)/∂_var^order
-    if !s.starts_with("\u{2202}") || !s.contains("/\u{2202}_") {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': must start with '\u{2202}' and contain '/\u{2202}_'"
-        )));
-    }
-
-    let parts: Vec<&str> = s.split("/\u{2202}_").collect();
-    if parts.len() != 2 {
+    let Some(parts) = split_derivative(s, 0).filter(|parts| parts.len == s.len()) else {
         return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{}': expected exactly one '/\u{2202}_' separator, found {}",
-            s,
-            parts.len() - 1
-        )));
-    }
-
-    let left = parts[0]; // ∂^order_func(args) or ∂_func(args)
-    let right = parts[1]; // var^order or var
-
-    // Parse left side
-    let left_parts: Vec<&str> = left.split('_').collect();
-    if left_parts.len() < 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': left side must contain underscore separator"
-        )));
-    }
-
-    // Parse order from left (defaults to 1 if not specified)
-    // e.g., "∂^n" -> n, "∂" -> 1
-    // Note: '∂' is 3 bytes in UTF-8, '^' is 1 byte = 4 bytes total to skip
-    let order_str = if left_parts[0].starts_with("\u{2202}^") {
-        left_parts[0].get(4..).expect("Checked prefix boundaries")
-    } else if left_parts[0] == "\u{2202}" {
-        "1"
-    } else {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': expected '\u{2202}' or '\u{2202}^order'"
+            "Invalid derivative notation '{s}': expected \u{2202}^order_func(args)/\u{2202}_var^order"
         )));
     };
 
-    let order = order_str.parse::<u32>().map_err(|_e| {
-        DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': order '{order_str}' is not a valid number"
-        ))
-    })?;
-
     // Safety check: prevent unreasonably high derivative orders
+    let order = parts.order;
     if order > 100 {
         return Err(DiffError::invalid_token(format!(
             "Invalid derivative notation '{s}': order {order} exceeds maximum (100)"
         )));
     }
 
-    // Parse function name and args
-    // left_parts[1] is "func(args)" or "func"
-    let func_str = left_parts[1];
-    let (func_name, args_tokens) = if let Some(open_paren) = func_str.find('(') {
-        if func_str.ends_with(')') {
-            let name = func_str.get(..open_paren).expect("Checked paren position");
-            // .to_owned(); // Changed to borrow
-            let args_body = func_str
-                .get(open_paren + 1..func_str.len() - 1)
-                .expect("Checked paren boundaries");
-
-            // Safety: prevent infinite recursion on malformed nested derivatives
-            // Check if we're about to recursively parse another derivative
-            if args_body.contains("\u{2202}") && args_body.contains("/\u{2202}_") {
-                // This is likely a nested derivative - limit recursion depth
-                // by ensuring the args don't contain another full derivative notation
-                let nested_depth = args_body.matches("/\u{2202}_").count();
-                if nested_depth > 3 {
-                    return Err(DiffError::invalid_token(format!(
-                        "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
-                    )));
-                }
-            }
-
-            // Recursively lex the arguments
-            let tokens = lex(args_body, fixed_vars, custom_functions)?;
-            (name, tokens)
-        } else {
-            return Err(DiffError::invalid_token(format!(
-                "Invalid derivative notation '{s}': unmatched parentheses in function arguments"
-            )));
-        }
-    } else {
-        (func_str, Vec::new())
-    };
-
-    // Parse right side: var^order or var
-    let right_parts: Vec<&str> = right.split('^').collect();
-    let var = right_parts[0]; //.to_owned();
+    // Safety: limit the depth of derivatives nested in arguments
+    if parts.args.matches("/\u{2202}_").count() > 64 {
+        return Err(DiffError::invalid_token(format!(
+            "Invalid derivative notation '{s}': too many nested derivatives"
+        )));
+    }
 
     Ok(Token::Derivative {
         order,
-        func: Cow::Borrowed(func_name), //Borrow
-        args: args_tokens,
-        var: Cow::Borrowed(var), // Borrow
+        func: Cow::Borrowed(parts.func),
+        args: lex(parts.args, fixed_vars, custom_functions)?,
+        var: Cow::Borrowed(parts.var),
     })
 }
 
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index efd63b8..02d45b2 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -288,7 +288,7 @@ impl<'src> Parser<'_, 'src> {
             } => {
                 self.advance();
 
-                let arg_exprs =
+                let mut arg_exprs =
                     if args.is_empty() {
                         // Implicit dependency on the differentiation variable
                         // Implicit dependency on the differentiation variable
@@ -330,7 +330,14 @@ impl<'src> Parser<'_, 'src> {
                         exprs
                     };
 
-                let inner_expr = Expr::func_multi(func, arg_exprs);
+                // A derivative of a derivative carries it as its only argument
+                let inner_expr = if func.is_empty() {
+                    arg_exprs
+                        .pop()
+                        .ok_or_else(|| DiffError::invalid_token(token.to_user_string()))?
+                } else {
+                    Expr::func_multi(func, arg_exprs)
+                };
 
                 Ok(Expr::derivative(inner_expr, var, *order))
             }
-- 
2.43.0


From 6ae325a42d8057ea9330da72bab40512a3ba5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 24/73] fix: printing dropped factors after a double negative
 and lost grouping

-2 * -y * sin(x) printed as 2*y, (x^2)^3 as x^2^3, polynomials lost the
grouping of their base, and the LaTeX and Unicode forms of polynomials, floors,
ceilings and subscripts were not in their notation.
---
 src/core/display.rs | 126 ++++++++++++++++++++++++++++++++++++--------
 src/core/poly.rs    |  82 +---------------------------
 2 files changed, 105 insertions(+), 103 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index f33f6ee..80e7066 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -25,9 +25,9 @@
 //! - Derivatives use ∂ notation
 
 use crate::core::known_symbols as ks;
-use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use rustc_hash::FxHashMap;
+use std::borrow::Cow;
 use std::fmt;
 use std::sync::Arc;
 
@@ -111,7 +111,8 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
                 && *n < 0.0
             {
                 let abs_coeff = n.abs();
-                if (abs_coeff - 1.0).abs() < EPSILON {
+                #[allow(clippy::float_cmp, reason = "Only exactly -1 is implicit")]
+                if abs_coeff == 1.0 {
                     // Exactly -1 * ...
                     if factors.len() == 2 {
                         return NegativeExtraction {
@@ -189,10 +190,19 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
 }
 
 /// Helper for Power base parenthesis
-fn needs_parens_as_base(expr: &Expr) -> bool {
+fn needs_parens_as_base(expr: &Expr, mode: FormatMode) -> bool {
     match &expr.kind {
-        ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Div(_, _) | ExprKind::Poly(_) => true,
+        ExprKind::Sum(_)
+        | ExprKind::Product(_)
+        | ExprKind::Div(_, _)
+        | ExprKind::Poly(_)
+        | ExprKind::Derivative { .. } => true,
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
+        // (x^2)^3 is not x^2^3; e^x prints as exp(x), which groups itself, except in LaTeX
+        ExprKind::Pow(u, _) => {
+            matches!(mode, FormatMode::Latex)
+                || !matches!(&u.kind, ExprKind::Symbol(s) if s.id() == ks::KS.e)
+        }
         _ => false,
     }
 }
@@ -235,11 +245,7 @@ fn format_symbol_expr(
     match mode {
         FormatMode::Standard => write!(f, "{name_str}"),
         FormatMode::Latex => {
-            if let Some(greek) = greek_to_latex(name_str) {
-                write!(f, "{greek}")
-            } else {
-                write!(f, "{name_str}")
-            }
+            write!(f, "{}", latex_name(name_str))
         }
         FormatMode::Unicode => {
             if let Some(greek) = greek_to_unicode(name_str) {
@@ -261,7 +267,7 @@ fn format_wrapped(
 ) -> fmt::Result {
     let needs = match context {
         ParenContext::SumOrProduct => matches!(expr.kind, ExprKind::Sum(_) | ExprKind::Poly(_)),
-        ParenContext::PowerBase => needs_parens_as_base(expr),
+        ParenContext::PowerBase => needs_parens_as_base(expr, mode),
     };
 
     if needs {
@@ -427,12 +433,17 @@ fn format_product_expr(
             if next_neg.is_negative {
                 second_is_neg = true;
                 // Double negative!
-                if (abs_val - 1.0).abs() >= EPSILON {
+                #[allow(clippy::float_cmp, reason = "Only exactly -1 is implicit")]
+                if abs_val != 1.0 {
                     // -n * -X = n * X
                     format_number_expr(f, abs_val, mode)?;
                     write!(f, "{sep}")?;
                 }
                 format_negative_part(f, next_neg, mode, ParenContext::SumOrProduct, cache)?;
+                for fac in &factors[2..] {
+                    write!(f, "{sep}")?;
+                    format_wrapped(f, fac, mode, ParenContext::SumOrProduct, cache)?;
+                }
             }
         }
 
@@ -440,7 +451,8 @@ fn format_product_expr(
             // Single negative: print "-" then the rest
             write!(f, "{minus}")?;
 
-            if (abs_val - 1.0).abs() < EPSILON {
+            #[allow(clippy::float_cmp, reason = "Only exactly -1 is implicit")]
+            if abs_val == 1.0 {
                 // -1 * X = -X (skip the "1*" part)
             } else {
                 // -n * X = -n*X
@@ -550,7 +562,7 @@ fn format_pow_expr(
             return write!(f, "}}");
         }
 
-        if needs_parens_as_base(u) {
+        if needs_parens_as_base(u, mode) {
             write!(f, r"\left(")?;
             format_recursive(f, u, mode, cache)?;
             write!(f, r"\right)^{{")?;
@@ -589,6 +601,62 @@ fn format_pow_expr(
     }
 }
 
+/// Unified polynomial formatting: terms `coeff * base^power` in stored order
+fn format_poly_expr(
+    f: &mut fmt::Formatter<'_>,
+    poly: &crate::core::poly::Polynomial,
+    mode: FormatMode,
+    cache: Option<&SymbolCache>,
+) -> fmt::Result {
+    if poly.terms().is_empty() {
+        return write!(f, "0");
+    }
+    let (minus, minus_sep, sep) = match mode {
+        FormatMode::Standard => ("-", " - ", "*"),
+        FormatMode::Latex => ("-", " - ", r" \cdot "),
+        FormatMode::Unicode => ("\u{2212}", " \u{2212} ", "\u{b7}"),
+    };
+
+    let base = poly.base();
+    for (i, &(pow, coeff)) in poly.terms().iter().enumerate() {
+        if coeff < 0.0 {
+            write!(f, "{}", if i == 0 { minus } else { minus_sep })?;
+        } else if i > 0 {
+            write!(f, " + ")?;
+        }
+        let abs_coeff = coeff.abs();
+        if pow == 0 {
+            format_number_expr(f, abs_coeff, mode)?;
+            continue;
+        }
+        #[allow(clippy::float_cmp, reason = "Only a coefficient of exactly 1 is implicit")]
+        let implicit = abs_coeff == 1.0;
+        if !implicit {
+            format_number_expr(f, abs_coeff, mode)?;
+            write!(f, "{sep}")?;
+        }
+        if pow == 1 {
+            format_wrapped(f, base, mode, ParenContext::SumOrProduct, cache)?;
+            continue;
+        }
+        format_wrapped(f, base, mode, ParenContext::PowerBase, cache)?;
+        match mode {
+            FormatMode::Standard => write!(f, "^{pow}")?,
+            FormatMode::Latex => write!(f, "^{{{pow}}}")?,
+            FormatMode::Unicode => write!(f, "{}", num_to_superscript(f64::from(pow)))?,
+        }
+    }
+    Ok(())
+}
+
+/// Display a polynomial in standard notation
+pub(super) fn format_poly_standard(
+    f: &mut fmt::Formatter<'_>,
+    poly: &crate::core::poly::Polynomial,
+) -> fmt::Result {
+    format_poly_expr(f, poly, FormatMode::Standard, None)
+}
+
 /// Unified Function Call formatting
 #[allow(
     clippy::too_many_lines,
@@ -642,7 +710,7 @@ fn format_function_call_expr(
             "floor" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lfloor{}\rfloor",
+                    r"\lfloor {}\rfloor",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -652,7 +720,7 @@ fn format_function_call_expr(
             "ceil" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lceil{}\rceil",
+                    r"\lceil {}\rceil",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -945,7 +1013,7 @@ fn format_function_call_expr(
             "sinc" => r"\operatorname{sinc}".to_owned(),
             "round" => r"\operatorname{round}".to_owned(),
             // Default: wrap in \text{}
-            _ => format!(r"\text{{{name}}}"),
+            _ => format!(r"\text{{{}}}", name.replace('_', r"\_")),
         };
 
         if args.is_empty() {
@@ -1013,6 +1081,20 @@ static GREEK_LETTERS: &[(&str, &str, &str)] = &[
     ("varsigma", r"\varsigma", "\u{3c2}"),
 ];
 
+/// Write a name in LaTeX: Greek letters by name, everything after the first underscore in one
+/// subscript
+fn latex_name(name: &str) -> Cow<'_, str> {
+    if let Some(greek) = greek_to_latex(name) {
+        return Cow::Borrowed(greek);
+    }
+    match name.split_once('_') {
+        Some((base, sub)) if !base.is_empty() && sub.chars().count() > 1 => {
+            Cow::Owned(format!("{base}_{{{}}}", sub.replace('_', r"\_")))
+        }
+        _ => Cow::Borrowed(name),
+    }
+}
+
 /// Map symbol name to Greek letter (LaTeX format)
 fn greek_to_latex(name: &str) -> Option<&'static str> {
     GREEK_LETTERS
@@ -1111,7 +1193,7 @@ impl fmt::Display for Expr {
 
             // Poly: display inline using Polynomial's Display
             ExprKind::Poly(poly) => {
-                write!(f, "{poly}")
+                format_poly_expr(f, poly, FormatMode::Standard, None)
             }
         }
     }
@@ -1169,22 +1251,22 @@ fn format_latex(
                     f,
                     r"\frac{{\partial {}}}{{\partial {}}}",
                     LatexFormatter { expr: inner, cache },
-                    var
+                    latex_name(var.as_str())
                 )
             } else {
                 write!(
                     f,
-                    r"\frac{{\partial^{} {}}}{{\partial {}^{}}}",
+                    r"\frac{{\partial^{{{}}} {}}}{{\partial {}^{{{}}}}}",
                     order,
                     LatexFormatter { expr: inner, cache },
-                    var,
+                    latex_name(var.as_str()),
                     order
                 )
             }
         }
 
         // Poly: display inline in LaTeX
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Latex, cache),
     }
 }
 
@@ -1286,7 +1368,7 @@ fn format_unicode(
         }
 
         // Poly: display inline in unicode
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Unicode, cache),
     }
 }
 
diff --git a/src/core/poly.rs b/src/core/poly.rs
index b4fe6df..ac8a50b 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -27,93 +27,13 @@ pub struct Polynomial {
     terms: Vec<(u32, f64)>,
 }
 
-/// Helper to format coefficient
-fn format_coeff(n: f64) -> String {
-    if {
-        #[allow(clippy::float_cmp, reason = "Checking for exact integer via trunc")]
-        let is_int = n.trunc() == n;
-        is_int
-    } && n.abs() < 1e10
-    {
-        #[allow(clippy::cast_possible_truncation, reason = "Checked is_int above")]
-        let n_int = n as i64;
-        format!("{n_int}")
-    } else {
-        format!("{n}")
-    }
-}
-
 impl std::fmt::Display for Polynomial {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        if self.terms.is_empty() {
-            return write!(f, "0");
-        }
-
-        let mut first = true;
-        for &(pow, coeff) in &self.terms {
-            if first {
-                if coeff < 0.0 {
-                    write!(f, "-")?;
-                    self.write_term(f, pow, coeff.abs())?;
-                } else {
-                    self.write_term(f, pow, coeff)?;
-                }
-                first = false;
-            } else if coeff < 0.0 {
-                write!(f, " - ")?;
-                self.write_term(f, pow, coeff.abs())?;
-            } else {
-                write!(f, " + ")?;
-                self.write_term(f, pow, coeff)?;
-            }
-        }
-        Ok(())
+        crate::core::display::format_poly_standard(f, self)
     }
 }
 
 impl Polynomial {
-    /// Write a single term (coefficient * base^power)
-    fn write_term(
-        &self,
-        f: &mut std::fmt::Formatter<'_>,
-        pow: u32,
-        coeff: f64,
-    ) -> std::fmt::Result {
-        // Determine if base needs parentheses when raised to a power
-        let needs_parens_pow = matches!(
-            self.base.kind,
-            ExprKind::Sum(_)
-                | ExprKind::Product(_)
-                | ExprKind::Div(_, _)
-                | ExprKind::Poly(_)
-                | ExprKind::Pow(_, _)
-        ) || (matches!(self.base.kind, ExprKind::Number(n) if n < 0.0));
-
-        if pow == 0 {
-            write!(f, "{}", format_coeff(coeff))
-        } else if (coeff - 1.0).abs() < EPSILON {
-            if pow == 1 {
-                write!(f, "{}", self.base)
-            } else if needs_parens_pow {
-                write!(f, "({})^{}", self.base, pow)
-            } else {
-                write!(f, "{}^{}", self.base, pow)
-            }
-        } else if pow == 1 {
-            // Determine if base needs parentheses when multiplied by coefficient
-            let needs_parens_mul = matches!(self.base.kind, ExprKind::Sum(_) | ExprKind::Poly(_));
-            if needs_parens_mul {
-                write!(f, "{}*({})", format_coeff(coeff), self.base)
-            } else {
-                write!(f, "{}*{}", format_coeff(coeff), self.base)
-            }
-        } else if needs_parens_pow {
-            write!(f, "{}*({})^{}", format_coeff(coeff), self.base, pow)
-        } else {
-            write!(f, "{}*{}^{}", format_coeff(coeff), self.base, pow)
-        }
-    }
-
     // =========================================================================
     // CONSTRUCTORS
     // =========================================================================
-- 
2.43.0


From ed9c597b6d0f09dc9f1e301a22314d89cdf0103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 25/73] fix: tiny variances were treated as zero and asymmetric
 tiny covariances accepted

Covariance entries below 1e-14 were dropped and symmetry was checked with an
absolute tolerance.
---
 src/uncertainty.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index 23710ce..50eccbb 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -43,7 +43,7 @@ impl CovEntry {
     #[must_use]
     pub fn is_zero(&self) -> bool {
         match self {
-            Self::Num(n) => n.abs() < EPSILON,
+            Self::Num(n) => *n == 0.0,
             Self::Symbolic(e) => e.is_zero_num(), // Also check symbolic zero
         }
     }
@@ -94,7 +94,8 @@ impl CovarianceMatrix {
         for (i, row_i) in entries.iter().enumerate() {
             for (j, entry_ij) in row_i.iter().enumerate().skip(i.saturating_add(1)) {
                 if let (CovEntry::Num(a), CovEntry::Num(b)) = (entry_ij, &entries[j][i])
-                    && (a - b).abs() >= EPSILON
+                    // Relative to the entries (variances may be tiny); NaN is never symmetric
+                    && !((a - b).abs() <= EPSILON * a.abs().max(b.abs()))
                 {
                     return Err(DiffError::UnsupportedOperation(format!(
                         "Covariance matrix must be symmetric: Cov[{i}][{j}]={a} != Cov[{j}][{i}]={b}"
-- 
2.43.0


From 3e7e75fae212fbf3ff5d8f28020cb2e747bb780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 26/73] fix: zeta_deriv lost all digits at large negative
 arguments

---
 src/math/special.rs | 61 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/math/special.rs b/src/math/special.rs
index 4e2bec3..cb55a1d 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -400,6 +400,11 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
         return None;
     }
 
+    // The alternating series loses all digits for large negative arguments
+    if x < T::from(-1.0).expect("Failed to convert mathematical constant") {
+        return zeta_deriv_reflection(n, x);
+    }
+
     // With D(s) = 1 - 2^(1-s), D zeta = eta: differentiate both sides n times (Leibniz) and
     // solve for the highest derivative of zeta. The derivatives of eta converge as fast as eta.
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -430,6 +435,62 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
     derivs.pop()
 }
 
+/// n-th derivative of zeta for Re(s) < 0 from the Taylor coefficients of the factors of
+/// `ζ(s) = 2 (2π)^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)`.
+fn zeta_deriv_reflection<T: MathScalar>(n: i32, s: T) -> Option<T> {
+    let one = T::one();
+    let two = T::from(2.0).expect("Failed to convert mathematical constant");
+    let half_pi = T::PI() / two;
+    let ln_two_pi = (two * T::PI()).ln();
+    let reflected = one - s;
+    let gamma = eval_gamma(reflected)?;
+
+    let mut exp_sin = Vec::new();
+    let mut psi: Vec<T> = Vec::new();
+    let mut gammas: Vec<T> = Vec::new();
+    let mut zetas = Vec::new();
+    let mut exp_coeff = two * (ln_two_pi * (s - one)).exp();
+    let mut exps = Vec::new();
+    let mut sins = Vec::new();
+    let mut sin_scale = one;
+    let mut factorial = one;
+    for k in 0..=n {
+        let order = T::from(k).expect("Failed to convert mathematical constant");
+        if k > 0 {
+            factorial *= order;
+            exp_coeff = exp_coeff * ln_two_pi / order;
+            sin_scale = sin_scale * half_pi / order;
+        }
+        exps.push(exp_coeff);
+        sins.push(sin_scale * (half_pi * (s + order)).sin());
+        // d/ds = -d/d(1-s) for the last two factors
+        let sign = if k % 2 == 0 { one } else { -one };
+        zetas.push(sign * eval_zeta_deriv(k, reflected)? / factorial);
+        let next_gamma = if k == 0 {
+            gamma
+        } else {
+            -convolution(&gammas, &psi) / order
+        };
+        gammas.push(next_gamma);
+        psi.push(sign * eval_polygamma(k, reflected)? / factorial);
+        exp_sin.push(convolution(&exps, &sins));
+        if !next_gamma.is_finite() || !factorial.is_finite() {
+            return None;
+        }
+    }
+    let gamma_zeta: Vec<T> = (1..=gammas.len())
+        .map(|len| convolution(&gammas[..len], &zetas[..len]))
+        .collect();
+    Some(convolution(&exp_sin, &gamma_zeta) * factorial)
+}
+
+/// Highest coefficient of the product of two truncated power series of equal length.
+fn convolution<T: MathScalar>(a: &[T], b: &[T]) -> T {
+    a.iter()
+        .zip(b.iter().rev())
+        .fold(T::zero(), |sum, (x, y)| sum + *x * *y)
+}
+
 /// n-th derivative of the Dirichlet eta function, by Borwein's Algorithm 2 applied to
 /// `(-1)^n Σ (-1)^k ln(k+1)^n / (k+1)^s`.
 fn eta_derivative<T: MathScalar>(order: i32, s: T) -> T {
-- 
2.43.0


From bd0a0e1f572b93275d8173f8efac93070c391f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:48 +0000
Subject: [PATCH 27/73] fix: the derivative of assoc_legendre with |m| = l was
 undefined

---
 src/functions/definitions.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f88eb28..0f1ef55 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -1289,28 +1289,29 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                 crate::math::eval_assoc_legendre(l, m, args[2])
             },
             derivative: |args, arg_primes| {
-                // d/dx P_l^m(x) = (l*x*P_l^m(x) - (l+m)*P_{l-1}^m(x)) / (x^2 - 1) * x'
+                // d/dx P_l^m(x) = ((l-m+1)*P_{l+1}^m(x) - (l+1)*x*P_l^m(x)) / (x^2 - 1) * x'
+                // (upwards, because P_{l-1}^m is undefined for |m| = l)
                 let l = Arc::clone(&args[0]);
                 let m = Arc::clone(&args[1]);
                 let x = Arc::clone(&args[2]);
                 let x_prime = arg_primes[2].clone();
 
+                let l_plus_1 = Arc::new(Expr::sum_from_arcs(vec![
+                    Arc::clone(&l),
+                    Arc::new(Expr::number(1.0)),
+                ]));
                 let term1 = Expr::mul_expr(
-                    Expr::mul_from_arcs(vec![Arc::clone(&l), Arc::clone(&x)]),
+                    Expr::sub_expr(l_plus_1.as_ref().clone(), m.as_ref().clone()),
                     Expr::func_multi_from_arcs_symbol(
                         ks::get_symbol(ks::KS.assoc_legendre),
-                        vec![Arc::clone(&l), Arc::clone(&m), Arc::clone(&x)],
+                        vec![Arc::clone(&l_plus_1), Arc::clone(&m), Arc::clone(&x)],
                     ),
                 );
-
-                let l_plus_m = Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::clone(&m)]);
-                let l_minus_1 =
-                    Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::new(Expr::number(-1.0))]);
                 let term2 = Expr::mul_expr(
-                    l_plus_m,
+                    Expr::mul_from_arcs(vec![l_plus_1, Arc::clone(&x)]),
                     Expr::func_multi_from_arcs_symbol(
                         ks::get_symbol(ks::KS.assoc_legendre),
-                        vec![Arc::new(l_minus_1), Arc::clone(&m), Arc::clone(&x)],
+                        vec![l, m, Arc::clone(&x)],
                     ),
                 );
 
-- 
2.43.0


From e49d4d2cb67a8f97a8a4f0e6ad8543968dcc6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 28/73] fix: derivatives of products of more than ten factors
 were undefined where a factor is zero

---
 src/diff/engine.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index e66c6a7..594ba16 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -203,27 +203,19 @@ impl Expr {
                     return factors[0].derive_impl(var, ctx);
                 }
 
-                // Optimization: For large products, use logarithmic differentiation
-                // (fgh)' = fgh * (f'/f + g'/g + h'/h)
-                // This reduces node count from O(N²) to O(N)
+                // Optimization: For large products, apply the product rule to the two halves.
+                // This reduces node count from O(N²) to O(N log N) without dividing by the
+                // factors, any of which may be zero
                 if factors.len() > 10 {
-                    let mut log_terms = Vec::with_capacity(factors.len());
-                    for factor in factors {
-                        let prime = factor.derive_impl(var, ctx);
-                        if !prime.is_zero_num() {
-                            // term = f' / f
-                            log_terms
-                                .push(Self::div_from_arcs(Arc::new(prime), Arc::clone(factor)));
-                        }
-                    }
-
-                    if log_terms.is_empty() {
-                        return Self::number(0.0);
-                    }
-
-                    // Result = self * sum(f'/f)
-                    let sum_log = Self::sum(log_terms);
-                    return Self::mul_expr(self.clone(), sum_log);
+                    let (left, right) = factors.split_at(factors.len() / 2);
+                    let left = Self::product_from_arcs(left.to_vec());
+                    let right = Self::product_from_arcs(right.to_vec());
+                    let left_prime = left.derive_impl(var, ctx);
+                    let right_prime = right.derive_impl(var, ctx);
+                    return Self::add_expr(
+                        Self::mul_expr(left_prime, right),
+                        Self::mul_expr(left, right_prime),
+                    );
                 }
 
                 let mut terms = Vec::new();
-- 
2.43.0


From 61d9a012a2f942e032fddce013d2eb75b4aa8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 29/73] fix: (exp(-x) - exp(x))/2 was simplified to sinh(x)

The sinh pattern returned the positive form of the argument whichever of the
two exponentials carried the minus sign, so the sign of the odd function was
lost.
---
 src/simplification/rules/hyperbolic/conversions.rs | 8 ++++----
 src/simplification/rules/hyperbolic/helpers.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/conversions.rs b/src/simplification/rules/hyperbolic/conversions.rs
index f39a881..0aa5bad 100644
--- a/src/simplification/rules/hyperbolic/conversions.rs
+++ b/src/simplification/rules/hyperbolic/conversions.rs
@@ -1,6 +1,6 @@
 use super::helpers::{
-    ExpTerm, extract_negated_term, is_double_of, match_alt_cosh_pattern, match_alt_sech_pattern,
-    match_alt_sinh_pattern, match_cosh_pattern, match_e2x_minus_1_direct,
+    ExpTerm, extract_negated_term, get_positive_form, is_double_of, match_alt_cosh_pattern,
+    match_alt_sech_pattern, match_alt_sinh_pattern, match_cosh_pattern, match_e2x_minus_1_direct,
     match_e2x_minus_1_factored, match_e2x_plus_1, match_sinh_pattern_sub,
 };
 use crate::core::expr::{Expr, ExprKind as AstKind};
@@ -108,7 +108,7 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && get_positive_form(&n_arg) == d_arg
             {
                 return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.tanh), n_arg));
             }
@@ -282,7 +282,7 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && get_positive_form(&n_arg) == d_arg
             {
                 return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), n_arg));
             }
diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..ebbe4f6 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,7 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches (x may itself be a negation: sinh is odd)
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +191,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(Arc::clone(&exp1.arg));
     }
     None
 }
-- 
2.43.0


From ef4d63cee9cb3cf022decc4e62d325454b8355cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 30/73] fix: cbrt(x^2) lost the absolute value of its base

cbrt(x^2) became x^(2/3), which is not real for negative x and lets later power
rules turn it into an expression of the wrong sign.
---
 src/simplification/rules/root/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index f96bc4f..9f2ad73 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -75,6 +75,13 @@ rule!(
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
+            // cbrt(x^2) = |x|^(2/3): an even power discards the sign of the base
+            let base = if even_power_loses_sign(base, exp, &Expr::number(1.0 / 3.0)) {
+                Arc::new(Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone()))
+            } else {
+                Arc::clone(base)
+            };
+
             // Create new exponent: exp / 3
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(3.0));
 
@@ -108,7 +115,7 @@ rule!(
 
             // cbrt is defined for negative arguments, fractional powers are not
             let is_integer = matches!(&simplified_exp.kind, AstKind::Number(n) if n.fract() == 0.0);
-            if context.domain_safe && !is_integer && !is_known_non_negative(base) {
+            if context.domain_safe && !is_integer && !is_known_non_negative(&base) {
                 return None;
             }
 
-- 
2.43.0


From 24c41ab7987cbe5185adec12862845c3ef28e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 31/73] fix: polynomial powers above u32::MAX saturated or
 overflowed

x^5000000000 + x became x^4294967295 + x, and multiplying two polynomial terms
of large degree overflowed the addition of their powers.
---
 src/core/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index ac8a50b..83ea0c0 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -462,6 +462,7 @@ impl Polynomial {
             ExprKind::Pow(base_expr, exp) => {
                 if let ExprKind::Number(n) = &exp.kind
                     && *n >= 0.0
+                    && *n <= f64::from(u32::MAX)
                     && n.fract().abs() < EPSILON
                 {
                     // Exponent n >= 0 is already validated
@@ -513,6 +514,8 @@ impl Polynomial {
         // Same base: normal multiply
         // Arc::ptr_eq provides O(1) short-circuit for squaring (p.mul(&p)) and cloned polynomials
         if Arc::ptr_eq(&a.base, &b.base) || a.base == b.base {
+            // The powers must stay representable
+            a.degree().checked_add(b.degree())?;
             return Some(a.mul(b));
         }
 
-- 
2.43.0


From 4be09e8c6ee067093b47abf97f3ced807eb8785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 32/73] fix: cancelling a polynomial of huge degree never
 finished

(x^1000000 - 1)/(x - 1) built its dense quotient with one term per power.
---
 src/simplification/rules/algebraic/factoring.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 36be9ee..46dbc75 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -1157,6 +1157,9 @@ rule_arc!(
 // POLYNOMIAL GCD SIMPLIFICATION RULE
 // =============================================================================
 
+/// Largest degree for which a polynomial GCD is attempted
+const MAX_GCD_DEGREE: u32 = 1000;
+
 /// Rule for simplifying fractions using polynomial GCD
 /// Handles cases like (x²-1)/(x-1) → x+1
 pub struct PolyGcdSimplifyRule;
@@ -1190,6 +1193,11 @@ impl Rule for PolyGcdSimplifyRule {
                 return None;
             }
 
+            // The dense quotient of a huge degree would never finish
+            if num_poly.degree().max(den_poly.degree()) > MAX_GCD_DEGREE {
+                return None;
+            }
+
             // Compute GCD
             let gcd = num_poly.gcd(&den_poly)?;
 
-- 
2.43.0


From 8df72758a09f9d4c7b72bca6126ce901fe4c32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 33/73] fix: structural queries, mapping and substitution
 missed polynomials and non-global symbols

---
 src/core/expr/analysis.rs | 66 +++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..f43d84c 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -96,8 +96,14 @@ impl Expr {
             ExprKind::Product(factors) => 1 + factors.iter().map(|f| f.node_count()).sum::<usize>(),
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.node_count() + r.node_count(),
             ExprKind::Derivative { inner, .. } => 1 + inner.node_count(),
-            // Poly is counted as 1 node + its expanded form
-            ExprKind::Poly(poly) => 1 + poly.terms().len(),
+            // Poly is counted as its expanded form
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::node_count)
+                    .sum::<usize>()
+            }
         }
     }
 
@@ -115,7 +121,15 @@ impl Expr {
             }
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.max_depth().max(r.max_depth()),
             ExprKind::Derivative { inner, .. } => 1 + inner.max_depth(),
-            ExprKind::Poly(_) => 2, // Poly is shallow: one level for poly, one for terms
+            // Poly is as deep as its expanded form
+            ExprKind::Poly(poly) => {
+                1 + poly
+                    .to_expr_terms()
+                    .iter()
+                    .map(Self::max_depth)
+                    .max()
+                    .unwrap_or(0)
+            }
         }
     }
 
@@ -141,24 +155,20 @@ impl Expr {
     }
 
     /// Check if the expression contains a specific variable (by name)
-    /// Uses ID comparison when possible, falls back to string matching
+    ///
+    /// Symbols of the same name from different contexts are not told apart.
     #[inline]
     #[must_use]
     pub fn contains_var(&self, var: &str) -> bool {
-        // Try to look up the symbol ID first for O(1) comparison
-        crate::core::symbol::symb_get(var).map_or_else(
-            |_| self.contains_var_str(var),
-            |sym| self.contains_var_id(sym.id()),
-        )
+        self.contains_var_str(var)
     }
 
     /// Check if the expression contains a specific variable (by name string match)
-    /// This is used as a fallback when the symbol isn't in the global registry
     #[inline]
     fn contains_var_str(&self, var: &str) -> bool {
         match &self.kind {
             ExprKind::Number(_) => false,
-            ExprKind::Symbol(s) => s.as_str() == var,
+            ExprKind::Symbol(s) => s.name() == Some(var),
             ExprKind::FunctionCall { args, .. } => args.iter().any(|a| a.contains_var_str(var)),
             ExprKind::Sum(terms) => terms.iter().any(|t| t.contains_var_str(var)),
             ExprKind::Product(factors) => factors.iter().any(|f| f.contains_var_str(var)),
@@ -166,7 +176,7 @@ impl Expr {
                 l.contains_var_str(var) || r.contains_var_str(var)
             }
             ExprKind::Derivative { inner, var: v, .. } => {
-                v.as_str() == var || inner.contains_var_str(var)
+                v.name() == Some(var) || inner.contains_var_str(var)
             }
             ExprKind::Poly(poly) => poly.base().contains_var_str(var),
         }
@@ -264,12 +274,16 @@ impl Expr {
                     .collect();
                 Self::new(ExprKind::Product(cloned))
             }
-            ExprKind::Div(a, b) => Self::div_expr(a.as_ref().deep_clone(), b.as_ref().deep_clone()),
-            ExprKind::Pow(a, b) => {
-                Self::pow_static(a.as_ref().deep_clone(), b.as_ref().deep_clone())
-            }
+            ExprKind::Div(a, b) => Self::new(ExprKind::Div(
+                Arc::new(a.as_ref().deep_clone()),
+                Arc::new(b.as_ref().deep_clone()),
+            )),
+            ExprKind::Pow(a, b) => Self::new(ExprKind::Pow(
+                Arc::new(a.as_ref().deep_clone()),
+                Arc::new(b.as_ref().deep_clone()),
+            )),
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.as_ref().deep_clone(), var.clone(), *order)
+                Self::derivative_interned(inner.as_ref().deep_clone(), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
                 // For performance, Poly is not recursively deep-cloned.
@@ -358,7 +372,7 @@ impl Expr {
     {
         let acc = f(init, self);
         match &self.kind {
-            ExprKind::Number(_) | ExprKind::Symbol(_) | ExprKind::Poly(_) => acc, // Poly is opaque for folding
+            ExprKind::Number(_) | ExprKind::Symbol(_) => acc,
             ExprKind::FunctionCall { args, .. } => args.iter().fold(acc, |a, arg| arg.fold(a, f)),
             ExprKind::Sum(terms) => terms.iter().fold(acc, |a, t| t.fold(a, f)),
             ExprKind::Product(factors) => factors.iter().fold(acc, |a, f_| f_.fold(a, f)),
@@ -367,6 +381,8 @@ impl Expr {
                 r.fold(acc, f)
             }
             ExprKind::Derivative { inner, .. } => inner.fold(acc, f),
+            // Poly is folded over its base
+            ExprKind::Poly(poly) => poly.base().fold(acc, f),
         }
     }
 
@@ -397,11 +413,16 @@ impl Expr {
             ExprKind::Div(a, b) => Self::div_expr(a.map(f), b.map(f)),
             ExprKind::Pow(a, b) => Self::pow_static(a.map(f), b.map(f)),
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.map(f), var.clone(), *order)
+                Self::derivative_interned(inner.map(f), var.clone(), *order)
             }
+            // Poly is mapped over its base
             ExprKind::Poly(poly) => {
-                // Poly is opaque for mapping - just clone
-                Self::new(ExprKind::Poly(poly.clone()))
+                let base = poly.base().map(f);
+                if base == *poly.base_arc() {
+                    Self::new(ExprKind::Poly(poly.clone()))
+                } else {
+                    poly.with_base(Arc::new(base)).to_expr()
+                }
             }
         };
         f(&transformed)
@@ -410,10 +431,9 @@ impl Expr {
     /// Substitute a variable with another expression
     #[must_use]
     pub fn substitute(&self, var: &str, replacement: &Self) -> Self {
-        let var_id = crate::core::symbol::symb_interned(var).id();
         self.map(|node| {
             if let ExprKind::Symbol(s) = &node.kind
-                && s.id() == var_id
+                && s.name() == Some(var)
             {
                 return replacement.clone();
             }
-- 
2.43.0


From ef750c87b0e971fdc3c371ebadf5a22d8302bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 34/73] fix: evaluate bound the variable of an unevaluated
 derivative and saturated polynomial powers

---
 src/core/expr/evaluate.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 8663483..9da4c66 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -54,6 +54,22 @@ impl VarLookup for () {
     }
 }
 
+/// The variables visible inside a derivative: its own variable is bound there
+struct HideVar<'lookup> {
+    vars: &'lookup dyn VarLookup,
+    hidden: u64,
+}
+
+impl VarLookup for HideVar<'_> {
+    fn get_value(&self, symbol: &InternedSymbol) -> Option<f64> {
+        if symbol.id() == self.hidden {
+            None
+        } else {
+            self.vars.get_value(symbol)
+        }
+    }
+}
+
 impl Expr {
     /// Evaluate expression by substituting known variable values.
     ///
@@ -234,20 +250,27 @@ impl Expr {
                 }
             }
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.evaluate(vars, custom_evals), var.clone(), *order)
+                // Giving the inner expression a value would make the derivative zero
+                let visible = HideVar {
+                    vars,
+                    hidden: var.id(),
+                };
+                Self::derivative_interned(
+                    inner.evaluate(&visible, custom_evals),
+                    var.clone(),
+                    *order,
+                )
             }
             ExprKind::Poly(poly) => {
                 let base_result = poly.base().evaluate(vars, custom_evals);
                 if let ExprKind::Number(base_val) = &base_result.kind {
                     let mut total = 0.0;
                     for &(pow, coeff) in poly.terms() {
-                        #[allow(
-                            clippy::cast_possible_wrap,
-                            reason = "Polynomial powers are small positive integers"
-                        )]
-                        {
-                            total += coeff * base_val.powi(pow as i32);
-                        }
+                        total += coeff
+                            * i32::try_from(pow).map_or_else(
+                                |_| base_val.powf(f64::from(pow)),
+                                |p| base_val.powi(p),
+                            );
                     }
                     Self::number(total)
                 } else if base_result == *poly.base_arc() {
-- 
2.43.0


From c881c859ffe074b01b1eec82c7e9645622874623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 35/73] fix: the order of polynomial operands depended on how
 they were given

---
 src/core/expr/ordering.rs | 54 ++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 28dca91..871e8a2 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -5,6 +5,7 @@
 use std::cmp::Ordering as CmpOrdering;
 
 use super::{EXPR_ONE, Expr, ExprKind};
+use crate::core::poly::Polynomial;
 
 /// Compare expressions for canonical ordering.
 /// Order: Numbers < Symbols (by power) < Sum < `FunctionCall` < Pow < Div
@@ -44,7 +45,43 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
     let coeff_a = get_coeff(a);
     let coeff_b = get_coeff(b);
 
-    coeff_a.partial_cmp(&coeff_b).unwrap_or(CmpOrdering::Equal)
+    coeff_a
+        .partial_cmp(&coeff_b)
+        .unwrap_or(CmpOrdering::Equal)
+        .then_with(|| match (&get_core(a).kind, &get_core(b).kind) {
+            // A polynomial sorts by its base, but is not one of the base's powers
+            (ExprKind::Poly(p1), ExprKind::Poly(p2)) => poly_terms_cmp(p1, p2),
+            (ExprKind::Poly(_), _) => CmpOrdering::Greater,
+            (_, ExprKind::Poly(_)) => CmpOrdering::Less,
+            _ => CmpOrdering::Equal,
+        })
+}
+
+/// Compare the terms of two polynomials in the same base
+fn poly_terms_cmp(p1: &Polynomial, p2: &Polynomial) -> CmpOrdering {
+    p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
+        for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
+            let c =
+                t1.0.cmp(&t2.0)
+                    .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
+            if c != CmpOrdering::Equal {
+                return c;
+            }
+        }
+        CmpOrdering::Equal
+    })
+}
+
+/// Get an expression without its numeric coefficient
+fn get_core(e: &Expr) -> &Expr {
+    match &e.kind {
+        ExprKind::Product(factors)
+            if factors.len() == 2 && matches!(&factors[0].kind, ExprKind::Number(_)) =>
+        {
+            get_core(&factors[1])
+        }
+        _ => e,
+    }
 }
 
 // Helper to get the sorting "base" of an expression.
@@ -181,20 +218,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
             .then_with(|| expr_cmp(i1, i2)),
 
         (ExprKind::Poly(p1), ExprKind::Poly(p2)) => {
-            expr_cmp(p1.base(), p2.base()).then_with(|| {
-                p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
-                    for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
-                        let c = t1
-                            .0
-                            .cmp(&t2.0)
-                            .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
-                        if c != CmpOrdering::Equal {
-                            return c;
-                        }
-                    }
-                    CmpOrdering::Equal
-                })
-            })
+            expr_cmp(p1.base(), p2.base()).then_with(|| poly_terms_cmp(p1, p2))
         }
         (ExprKind::Poly(_), _) => CmpOrdering::Less,
         (_, ExprKind::Poly(_)) => CmpOrdering::Greater,
-- 
2.43.0


From 2755c7d26dc759a897fc49b330786954873cf7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 36/73] fix: merging equal factors left a factor 1 in the
 product

---
 src/core/expr/constructors.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 6b32cc8..956ed75 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -919,16 +919,23 @@ fn finalize_product(mut flat: Vec<Arc<Expr>>) -> Expr {
             // Merge all exponents into one via a single call to sum()
             // This is more efficient than repeated add_expr() as it flattens/sorts once.
             let total_exp = Expr::sum(group_exps);
-            result.push(Arc::new(Expr::pow_static(
+            let merged = Expr::pow_static(
                 Arc::try_unwrap(base).unwrap_or_else(|arc| (*arc).clone()),
                 total_exp,
-            )));
+            );
+            // Powers that cancel leave no factor behind
+            if !merged.is_one_num() {
+                result.push(Arc::new(merged));
+            }
             result.extend(unmerged);
             continue;
         }
         result.push(factor);
     }
 
+    if result.is_empty() {
+        return Expr::number(1.0);
+    }
     if result.len() == 1 {
         return Arc::try_unwrap(result.pop().expect("result not empty"))
             .unwrap_or_else(|arc| (*arc).clone());
-- 
2.43.0


From c41a137b7e7fcb2587030b9523129cc6621702fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 37/73] fix: Bessel functions of large order overflowed, gave
 NaN or did not return

---
 src/math/bessel.rs | 50 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index f027e6e..0b6669f 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -14,7 +14,7 @@ use crate::core::traits::MathScalar;
 ///
 /// Reference: A&S §9.1.27, DLMF §10.6 <https://dlmf.nist.gov/10.6>
 pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let ax = x.abs();
 
     // Special case: J_n(0)
@@ -38,7 +38,7 @@ pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
     reason = "Consistent API with other Bessel functions"
 )]
 fn bessel_j_forward<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
 
     let j0 = bessel_j0(x);
     if n_abs == 0 {
@@ -71,11 +71,16 @@ fn bessel_j_forward<T: MathScalar>(n: i32, x: T) -> Option<T> {
     reason = "Consistent API with other Bessel functions"
 )]
 fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
 
+    if order_underflows(n_abs, x) {
+        return Some(T::zero());
+    }
+
     // Choose starting N using a safe heuristic
     let n_start = compute_miller_start(n_abs);
+    let huge = T::from(1e100).expect("Failed to convert mathematical constant");
 
     // Initialize recurrence
     let mut j_next = T::zero(); // J_{k+1}
@@ -115,6 +120,13 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
 
         j_next = j_curr;
         j_curr = j_prev;
+        if k > 0 && j_curr.abs() > huge {
+            j_curr /= huge;
+            j_next /= huge;
+            result /= huge;
+            sum /= huge;
+            compensation /= huge;
+        }
         k_t -= T::one();
     }
 
@@ -130,6 +142,14 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
     })
 }
 
+/// Whether the `n`-th order Bessel functions regular at the origin are below the range of `f64`:
+/// both are bounded by `(|x|/2)^n/n! * exp(x^2/(4(n+1)))`.
+fn order_underflows<T: MathScalar>(n: i32, x: T) -> bool {
+    let n = f64::from(n);
+    let half = x.abs().to_f64().unwrap_or(f64::INFINITY) / 2.0;
+    n > 0.0 && n * (1.0 + (half / n).ln()) + half * half / (n + 1.0) < -800.0
+}
+
 /// Compute starting point for Miller's algorithm
 fn compute_miller_start(n: i32) -> i32 {
     // Heuristic from Numerical Recipes with extra safety margin
@@ -143,7 +163,7 @@ fn compute_miller_start(n: i32) -> i32 {
         reason = "n is i32, sqrt result rounded and within range"
     )]
     let sqrt_round = (c * n_f).sqrt().round() as i32;
-    n + sqrt_round + m
+    n.saturating_add(sqrt_round + m)
 }
 
 /// Bessel function `J_0(x)` via rational approximation
@@ -283,7 +303,7 @@ pub fn bessel_y<T: MathScalar>(n: i32, x: T) -> Option<T> {
     if x <= T::zero() {
         return None;
     }
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let y0 = bessel_y0(x);
     if n_abs == 0 {
         return Some(y0);
@@ -300,6 +320,9 @@ pub fn bessel_y<T: MathScalar>(n: i32, x: T) -> Option<T> {
         let yn = (two * k_t / x) * yc - yp;
         yp = yc;
         yc = yn;
+        if !yc.is_finite() {
+            break;
+        }
         k_t += T::one();
     }
     Some(if n < 0 && n_abs % 2 == 1 { -yc } else { yc })
@@ -432,7 +455,7 @@ pub fn bessel_y1<T: MathScalar>(x: T) -> T {
 ///
 /// Reference: Numerical Recipes §6.6, A&S §9.6 <https://dlmf.nist.gov/10.25>
 pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     if n_abs == 0 {
         return bessel_i0(x);
     }
@@ -445,6 +468,10 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
         return T::zero();
     }
 
+    if order_underflows(n_abs, x) {
+        return T::zero();
+    }
+
     // Miller's backward recurrence algorithm
     // Start from a large order N >> n, set I_N = 0, I_{N-1} = 1
     // Recur backward using: I_{k-1} = (2k/x) * I_k + I_{k+1}
@@ -462,15 +489,15 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
         clippy::cast_possible_truncation,
         reason = "n_abs is i32, sqrt result within safe range"
     )]
-    let sqrt_term = f64::from(40 * n_abs).sqrt() as i32;
+    let sqrt_term = (40.0 * f64::from(n_abs)).sqrt() as i32;
     // The recurrence only starts to grow above |x|, so the start has to lie beyond it too
     let ax = x.abs().to_f64().unwrap_or(0.0).min(1000.0);
     #[allow(
         clippy::cast_possible_truncation,
         reason = "ax is clamped to at most 1000"
     )]
-    let n_start = n_abs + sqrt_term + 10 + (2.0 * ax) as i32;
-    let n_start = n_start.max(n_abs + 20);
+    let n_start = n_abs.saturating_add(sqrt_term.saturating_add(10 + (2.0 * ax) as i32));
+    let n_start = n_start.max(n_abs.saturating_add(20));
     let huge = T::from(1e100).expect("Failed to convert mathematical constant");
 
     // Initialize backward recurrence
@@ -602,7 +629,7 @@ pub fn bessel_k<T: MathScalar>(n: i32, x: T) -> Option<T> {
     if x <= T::zero() {
         return None;
     }
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let k0 = bessel_k0(x);
     if n_abs == 0 {
         return Some(k0);
@@ -619,6 +646,9 @@ pub fn bessel_k<T: MathScalar>(n: i32, x: T) -> Option<T> {
         let kn = kp + (two * k_t / x) * kc;
         kp = kc;
         kc = kn;
+        if !kc.is_finite() {
+            break;
+        }
         k_t += T::one();
     }
     Some(kc)
-- 
2.43.0


From 3a6d79d6137bed1966b76b4b465abb70b47795b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 38/73] fix: associated Legendre functions of extreme order
 overflowed or recursed without end

---
 src/math/polynomials.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index ae23016..49098bf 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -36,8 +36,16 @@ pub fn eval_hermite<T: MathScalar>(n: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.10 <https://dlmf.nist.gov/14.10>
 pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
-    if m < 0 && l >= 0 && -m <= l {
-        let positive = eval_assoc_legendre(l, -m, x)?;
+    let (degree, order) = (l, m);
+    // Wide integers: the sums below exceed i32 for large degrees
+    let (l, m) = (i64::from(l), i64::from(m));
+    if l < 0 || m.abs() > l || x.abs() > T::one() {
+        // Technically |x| > 1 is domain error, but some continuations exist.
+        // Standard impl assumes -1 <= x <= 1
+        return None;
+    }
+    if m < 0 {
+        let positive = eval_assoc_legendre(degree, -order, x)?;
         let mut ratio = T::one();
         for i in (l + m + 1)..=(l - m) {
             ratio /= T::from(i).expect("Failed to convert mathematical constant");
@@ -48,11 +56,6 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
             -positive * ratio
         });
     }
-    if l < 0 || m.abs() > l || x.abs() > T::one() {
-        // Technically |x| > 1 is domain error, but some continuations exist.
-        // Standard impl assumes -1 <= x <= 1
-        return None;
-    }
     let m_abs = m.abs();
     let mut pmm = T::one();
     let one = T::one();
@@ -102,12 +105,15 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.30 <https://dlmf.nist.gov/14.30>
 pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T) -> Option<T> {
+    let (degree, order) = (l, m);
+    // Wide integers: the sums below exceed i32 for large degrees
+    let (l, m) = (i64::from(l), i64::from(m));
     if l < 0 || m.abs() > l {
         return None;
     }
     let cos_theta = theta.cos();
     let m_abs = m.abs();
-    let plm = eval_assoc_legendre(l, m_abs, cos_theta)?;
+    let plm = eval_assoc_legendre(degree, order.abs(), cos_theta)?;
 
     // Factorials
     let mut fact_lm = T::one();
-- 
2.43.0


From b49533c2531d8cd46e4f05f23b6460bea24d7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 39/73] fix: zeta was undefined just below zero

---
 src/math/special.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb55a1d..ec45cbb 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -223,8 +223,9 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         return None;
     }
 
-    // Use reflection for s < 0 to ensure fast convergence for negative values
-    if x < T::zero() {
+    // Use reflection for s < 0 to ensure fast convergence for negative values (except so close to
+    // zero that the reflected argument would lie next to the pole)
+    if x < T::from(-1e-4).expect("Failed to convert mathematical constant") {
         let pi = T::PI();
         let two = T::from(2.0).expect("Failed to convert mathematical constant");
         let gs = eval_gamma(one - x)?;
@@ -235,7 +236,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         return Some(term1 * term2 * term3 * gs * z);
     }
 
-    // For s >= 0 (and s != 1):
+    // For s >= 0, or just below (and s != 1):
     // Use Enhanced Euler-Maclaurin for 1 < s <= 1.5 where series converges slowly
     let one_point_five = T::from(1.5).expect("Failed to convert mathematical constant");
     if x > one && x <= one_point_five {
@@ -279,7 +280,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
 
         Some(sum + em_integral - em_boundary + b2_correction + b4_correction)
     } else {
-        // For s > 1.5 OR 0 <= s < 1: Use Borwein's Algorithm 2
+        // For s > 1.5 OR s < 1: Use Borwein's Algorithm 2
         // Borwein is globally convergent (except pole).
         eval_zeta_borwein(x)
     }
-- 
2.43.0


From 981cb672dbbcd8d4a108edc4cd47d68b954c8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 40/73] fix: contexts lost symbols and functions when global
 names were removed, and their expressions could not be compiled

---
 src/core/expr/analysis.rs   | 17 +++++++++++++++
 src/core/symbol/registry.rs | 11 +++++-----
 src/core/unified_context.rs | 43 ++++++++++++++++---------------------
 src/diff/engine.rs          | 31 ++++++++++++++++++++------
 src/evaluator/compiler.rs   | 17 +++++++++++----
 src/evaluator/mod.rs        |  2 +-
 6 files changed, 80 insertions(+), 41 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index f43d84c..0e5e049 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -7,6 +7,7 @@ use std::collections::HashSet;
 use std::sync::Arc;
 
 use super::{Expr, ExprKind};
+use crate::core::symbol::InternedSymbol;
 
 impl Expr {
     // -------------------------------------------------------------------------
@@ -203,6 +204,22 @@ impl Expr {
         }
     }
 
+    /// Find a symbol of the expression by name, from whichever context it is.
+    pub(crate) fn find_symbol(&self, name: &str) -> Option<InternedSymbol> {
+        match &self.kind {
+            ExprKind::Number(_) => None,
+            ExprKind::Symbol(s) => (s.name() == Some(name)).then(|| s.clone()),
+            ExprKind::FunctionCall { args: nodes, .. }
+            | ExprKind::Sum(nodes)
+            | ExprKind::Product(nodes) => nodes.iter().find_map(|n| n.find_symbol(name)),
+            ExprKind::Div(l, r) | ExprKind::Pow(l, r) => {
+                l.find_symbol(name).or_else(|| r.find_symbol(name))
+            }
+            ExprKind::Derivative { inner, .. } => inner.find_symbol(name),
+            ExprKind::Poly(poly) => poly.base().find_symbol(name),
+        }
+    }
+
     /// Collect all variables in the expression
     #[must_use]
     pub fn variables(&self) -> HashSet<String> {
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 7882fd5..61f5396 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -359,7 +359,8 @@ fn is_builtin_id(id: u64) -> bool {
 
 /// Clear all symbols from the global registry
 ///
-/// The names of built-in functions and constants stay registered.
+/// The names of built-in functions and constants stay registered, and so do anonymous symbols
+/// and the isolated symbols of contexts.
 ///
 /// # Panics
 ///
@@ -377,12 +378,12 @@ pub fn clear_symbols() {
                 .expect("Global symbol registry shard poisoned")
         })
         .collect();
-    let mut kept = rustc_hash::FxHashSet::default();
+    let mut removed = rustc_hash::FxHashSet::default();
     for shard in &mut shards {
         shard.name_to_symbol_key.retain(|_, key| {
             let keep = is_builtin_id(key.data().as_ffi());
-            if keep {
-                kept.insert(*key);
+            if !keep {
+                removed.insert(*key);
             }
             keep
         });
@@ -392,7 +393,7 @@ pub fn clear_symbols() {
         .id_to_data
         .write()
         .expect("Global ID registry poisoned")
-        .retain(|key, _| kept.contains(&key));
+        .retain(|key, _| !removed.contains(&key));
     // Invalidate every thread's caches while the shards are still locked
     GENERATION.fetch_add(1, Ordering::AcqRel);
     drop(shards);
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 2d9e01f..54679a7 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -337,7 +337,10 @@ impl Context {
         let mut inner = self.inner.write().expect("Context lock poisoned");
 
         // 1. Check context's local map first
-        if let Some(existing) = inner.symbols.get(name) {
+        // (unless the global symbol it was bound to has been removed)
+        if let Some(existing) = inner.symbols.get(name)
+            && crate::core::symbol::lookup_by_id(existing.id()).is_some()
+        {
             return Symbol::from_id(existing.id());
         }
 
@@ -389,12 +392,7 @@ impl Context {
     /// Panics if the internal lock is poisoned.
     #[must_use]
     pub fn get_symbol(&self, name: &str) -> Option<Symbol> {
-        self.inner
-            .read()
-            .expect("Context lock poisoned")
-            .symbols
-            .get(name)
-            .map(|s| Symbol::from_id(s.id()))
+        self.contains_symbol(name).then(|| self.symb(name))
     }
 
     /// List all symbol names in this context.
@@ -435,8 +433,11 @@ impl Context {
     #[must_use]
     pub fn with_function(mut self, name: &str, func: UserFunction) -> Self {
         let id = symb_interned(name).id();
+        // The name has another ID if the global symbol was removed since it was first defined
+        if let Some(old_id) = self.fn_name_to_id.insert(name.to_owned(), id) {
+            self.user_functions.remove(&old_id);
+        }
         self.user_functions.insert(id, func);
-        self.fn_name_to_id.insert(name.to_owned(), id);
         self
     }
 
@@ -445,14 +446,12 @@ impl Context {
     /// This allows the parser to recognize `f(x)` without requiring
     /// an evaluation or derivative definition.
     #[must_use]
-    pub fn with_function_name(mut self, name: &str) -> Self {
-        let id = symb_interned(name).id();
-        if let std::collections::hash_map::Entry::Vacant(e) = self.user_functions.entry(id) {
-            // Create a placeholder with default arity (any number of args)
-            e.insert(UserFunction::new(0..=usize::MAX));
-            self.fn_name_to_id.insert(name.to_owned(), id);
+    pub fn with_function_name(self, name: &str) -> Self {
+        if self.has_function(name) {
+            return self;
         }
-        self
+        // Create a placeholder with default arity (any number of args)
+        self.with_function(name, UserFunction::new(0..=usize::MAX))
     }
 
     /// Register multiple function names (for parsing).
@@ -472,16 +471,15 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_user_fn(&self, name: &str) -> Option<&UserFunction> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id)
+        let id = self.fn_name_to_id.get(name)?;
+        self.user_functions.get(id)
     }
 
     /// Check if a function is registered.
     #[inline]
     #[must_use]
     pub fn has_function(&self, name: &str) -> bool {
-        let id = symb_interned(name).id();
-        self.user_functions.contains_key(&id)
+        self.fn_name_to_id.contains_key(name)
     }
 
     /// Get all registered function names.
@@ -500,8 +498,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_body(&self, name: &str) -> Option<&BodyFn> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id).and_then(|f| f.body.as_ref())
+        self.get_user_fn(name).and_then(|f| f.body.as_ref())
     }
 
     /// Get the body function for a user function by symbol ID.
@@ -515,9 +512,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_partial(&self, name: &str, arg_idx: usize) -> Option<&PartialFn> {
-        let id = symb_interned(name).id();
-        self.user_functions
-            .get(&id)
+        self.get_user_fn(name)
             .and_then(|f| f.partials.get(&arg_idx))
     }
 
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 594ba16..91d9eb0 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -54,16 +54,33 @@ impl Expr {
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
         // Resolve the name ONCE for O(1) UID comparisons throughout recursion.
-        // A symbol of the context shadows the global one, as it does in the parser.
-        let var_sym = ctx
-            .get_symbol(var)
-            .filter(|s| self.contains_var_id(s.id()))
-            .and_then(|s| crate::core::symbol::lookup_by_id(s.id()))
-            .unwrap_or_else(|| crate::core::symbol::symb_interned(var));
+        let var_sym = self.resolve_symbol(var, ctx);
 
         self.derive_impl(&var_sym, ctx)
     }
 
+    /// The symbol that `var` denotes in this expression.
+    ///
+    /// A symbol of the context shadows the global one, as it does in the parser; a same-named
+    /// symbol from elsewhere is the last resort.
+    pub(crate) fn resolve_symbol(
+        &self,
+        var: &str,
+        ctx: &Context,
+    ) -> crate::core::symbol::InternedSymbol {
+        ctx.get_symbol(var)
+            .filter(|s| self.contains_var_id(s.id()))
+            .and_then(|s| crate::core::symbol::lookup_by_id(s.id()))
+            .unwrap_or_else(|| {
+                let global = crate::core::symbol::symb_interned(var);
+                if self.contains_var_id(global.id()) {
+                    global
+                } else {
+                    self.find_symbol(var).unwrap_or(global)
+                }
+            })
+    }
+
     /// Differentiate with respect to a specific symbol (named, anonymous or context-isolated).
     pub(crate) fn derive_symbol(
         &self,
@@ -124,7 +141,7 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id()) {
+                if let Some(user_fn) = ctx.get_user_fn(name.as_str()) {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index 08e2b4b..02fbb4d 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -102,6 +102,13 @@ impl<'ctx> Compiler<'ctx> {
         }
     }
 
+    /// Parameter given by name for a symbol of a context (which has another ID than the global
+    /// symbol of that name).
+    fn named_param_index(&self, symbol: &InternedSymbol) -> Option<&usize> {
+        let global = crate::core::symbol::symb_get(symbol.name()?).ok()?;
+        self.param_index.get(&global.id())
+    }
+
     /// Add a constant to the pool, deduplicating by bit pattern.
     ///
     /// Returns the index into the constant pool. Identical constants
@@ -362,7 +369,11 @@ impl<'ctx> Compiler<'ctx> {
                     let idx = self.add_const(value);
                     self.emit(Instruction::LoadConst(idx));
                     self.push()?;
-                } else if let Some(&idx) = self.param_index.get(&sym_id) {
+                } else if let Some(&idx) = self
+                    .param_index
+                    .get(&sym_id)
+                    .or_else(|| self.named_param_index(s))
+                {
                     // O(1) HashMap lookup for parameter index
                     // Truncation safe: param count bounded by realistic expression size
                     #[allow(
@@ -1496,9 +1507,7 @@ impl<'ctx> Compiler<'ctx> {
         let name_str = func_name.as_str();
         // Check if function exists in the context
         if let Some(ctx) = self.function_context {
-            let id = func_name.id();
-
-            if let Some(user_fn) = ctx.get_user_fn_by_id(id) {
+            if let Some(user_fn) = ctx.get_user_fn(name_str) {
                 if user_fn.arity.contains(&arity) {
                     // User function exists but has no symbolic body,
                     // so we can't evaluate it numerically.
diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..714e964 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -969,7 +969,7 @@ impl CompiledEvaluator {
 
                 // Check for recursion and if this is a user function with a body
                 if !expanding.contains(&fn_id)
-                    && let Some(user_fn) = ctx.get_user_fn_by_id(fn_id)
+                    && let Some(user_fn) = ctx.get_user_fn(name.as_str())
                     && user_fn.accepts_arity(expanded_args.len())
                     && let Some(body_fn) = &user_fn.body
                 {
-- 
2.43.0


From 818dff8112d85fa0c5c5438cc7703019870e3f49 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 41/73] fix: polynomials of a user function with a body could
 not be compiled

---
 src/evaluator/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 714e964..857d2b2 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -990,8 +990,10 @@ impl CompiledEvaluator {
             }
 
             ExprKind::Poly(poly) => {
-                let poly_expr = poly.to_expr();
-                Self::expand_user_functions(&poly_expr, ctx, expanding, depth + 1)
+                // Expand the base, not `poly.to_expr()`: its terms can merge into the same
+                // polynomial again
+                let base = Self::expand_user_functions(poly.base(), ctx, expanding, depth + 1);
+                poly.with_base(Arc::new(base)).to_expr()
             }
 
             ExprKind::Derivative { inner, var, order } => {
-- 
2.43.0


From bb21c81d82fa6d01dc1d84eca76976318077d641 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 42/73] fix: bodies and partials of user functions were called
 with a wrong number of arguments

---
 src/api/builder.rs                      | 19 ++++++++-----------
 src/diff/engine.rs                      |  4 +++-
 src/simplification/engine.rs            |  2 +-
 src/simplification/mod.rs               | 11 ++++++-----
 src/simplification/rules/mod.rs         | 14 +++++++++++---
 src/simplification/rules/numeric/mod.rs |  4 ++--
 6 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index d3d8fa9..b8726b7 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -21,7 +21,6 @@ use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
 use std::collections::HashMap;
 use std::collections::HashSet;
-use std::sync::Arc;
 
 /// Builder for differentiation operations
 #[derive(Clone, Default)]
@@ -147,11 +146,10 @@ impl Diff {
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+            .filter(|(_, func)| func.has_body())
+            .map(|(name, func)| {
+                let id = crate::core::symbol::symb_interned(name).id();
+                (id, func.clone())
             })
             .collect()
     }
@@ -382,11 +380,10 @@ impl Simplify {
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+            .filter(|(_, func)| func.has_body())
+            .map(|(name, func)| {
+                let id = crate::core::symbol::symb_interned(name).id();
+                (id, func.clone())
             })
             .collect()
     }
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 91d9eb0..b130fec 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -141,7 +141,9 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn(name.as_str()) {
+                if let Some(user_fn) = ctx.get_user_fn(name.as_str())
+                    && user_fn.accepts_arity(args.len())
+                {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index acfa1a4..203941e 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -200,7 +200,7 @@ impl Simplifier {
     /// Sets custom function bodies.
     pub fn with_custom_bodies(
         mut self,
-        custom_bodies: HashMap<u64, crate::core::unified_context::BodyFn>,
+        custom_bodies: HashMap<u64, crate::core::unified_context::UserFunction>,
     ) -> Self {
         self.context = self.context.with_custom_bodies(custom_bodies);
         self
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index a69111b..f43e36f 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -5,13 +5,12 @@ mod patterns;
 pub mod rules;
 
 use crate::Expr;
-use crate::core::unified_context::{BodyFn, Context};
+use crate::core::unified_context::{Context, UserFunction};
 
 use std::collections::{HashMap, HashSet};
-use std::sync::Arc;
 
 /// Type alias for custom body function map (symbolic expansion)
-pub type CustomBodyMap = HashMap<u64, BodyFn>;
+pub type CustomBodyMap = HashMap<u64, UserFunction>;
 
 /// Simplify an expression with user-specified options
 ///
@@ -38,8 +37,10 @@ pub fn simplify_expr(
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
         for id in ctx.fn_name_to_id().values() {
-            if let Some(body) = ctx.get_body_by_id(*id) {
-                custom_bodies.insert(*id, Arc::clone(body));
+            if let Some(user_fn) = ctx.get_user_fn_by_id(*id)
+                && user_fn.has_body()
+            {
+                custom_bodies.insert(*id, user_fn.clone());
             }
         }
     }
diff --git a/src/simplification/rules/mod.rs b/src/simplification/rules/mod.rs
index 8779b88..b226401 100644
--- a/src/simplification/rules/mod.rs
+++ b/src/simplification/rules/mod.rs
@@ -5,7 +5,7 @@
 
 use crate::Expr;
 use crate::ExprKind as AstKind;
-use crate::core::unified_context::BodyFn;
+use crate::core::unified_context::{BodyFn, UserFunction};
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -454,7 +454,7 @@ pub struct RuleContext {
     /// Whether to apply only domain-safe transformations
     pub domain_safe: bool,
     /// Custom function body definitions
-    pub custom_bodies: Arc<HashMap<u64, BodyFn>>,
+    pub custom_bodies: Arc<HashMap<u64, UserFunction>>,
 }
 
 impl std::fmt::Debug for RuleContext {
@@ -478,10 +478,18 @@ impl RuleContext {
     }
 
     /// Sets the custom function bodies for this context.
-    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, BodyFn>) -> Self {
+    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, UserFunction>) -> Self {
         self.custom_bodies = Arc::new(custom_bodies);
         self
     }
+
+    /// The body of custom function `id`, if it can be called with `arity` arguments.
+    pub fn custom_body(&self, id: u64, arity: usize) -> Option<&BodyFn> {
+        self.custom_bodies
+            .get(&id)
+            .filter(|f| f.accepts_arity(arity))
+            .and_then(|f| f.body.as_ref())
+    }
 }
 
 /// Numeric simplification rules
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 0d0c00f..b96fe8a 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -556,7 +556,7 @@ rule!(
                     numeric_args.push(*n);
                 } else {
                     // Not all numeric - check if we have a body to expand symbolically
-                    if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+                    if let Some(body_fn) = context.custom_body(name.id(), args.len()) {
                         // Expand the function body with the given arguments
                         return Some(body_fn(args));
                     }
@@ -584,7 +584,7 @@ rule!(
             }
 
             // Fallback: check custom_bodies in context and expand symbolically
-            if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+            if let Some(body_fn) = context.custom_body(name.id(), args.len()) {
                 // Expand the function body with the given arguments
                 return Some(body_fn(args));
             }
-- 
2.43.0


From e8068794625b3e167c5182676a3a404f9f24fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 43/73] fix: sorting expressions that contain NaN could panic

---
 src/core/expr/mod.rs          |  1 +
 src/core/expr/ordering.rs     | 29 +++++++++++++++--------------
 src/simplification/helpers.rs |  5 +++--
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/core/expr/mod.rs b/src/core/expr/mod.rs
index 0a01a5a..793f6ab 100644
--- a/src/core/expr/mod.rs
+++ b/src/core/expr/mod.rs
@@ -61,6 +61,7 @@ use crate::core::symbol::InternedSymbol;
 // Re-exports from submodules
 pub use hash::compute_expr_hash;
 pub use ordering::expr_cmp;
+pub(crate) use ordering::num_cmp;
 
 /// Type alias for custom evaluation functions map
 pub type CustomEvalMap =
diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 871e8a2..1b7fa6e 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -45,25 +45,26 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
     let coeff_a = get_coeff(a);
     let coeff_b = get_coeff(b);
 
-    coeff_a
-        .partial_cmp(&coeff_b)
-        .unwrap_or(CmpOrdering::Equal)
-        .then_with(|| match (&get_core(a).kind, &get_core(b).kind) {
-            // A polynomial sorts by its base, but is not one of the base's powers
-            (ExprKind::Poly(p1), ExprKind::Poly(p2)) => poly_terms_cmp(p1, p2),
-            (ExprKind::Poly(_), _) => CmpOrdering::Greater,
-            (_, ExprKind::Poly(_)) => CmpOrdering::Less,
-            _ => CmpOrdering::Equal,
-        })
+    num_cmp(coeff_a, coeff_b).then_with(|| match (&get_core(a).kind, &get_core(b).kind) {
+        // A polynomial sorts by its base, but is not one of the base's powers
+        (ExprKind::Poly(p1), ExprKind::Poly(p2)) => poly_terms_cmp(p1, p2),
+        (ExprKind::Poly(_), _) => CmpOrdering::Greater,
+        (_, ExprKind::Poly(_)) => CmpOrdering::Less,
+        _ => CmpOrdering::Equal,
+    })
+}
+
+/// Total order of numbers: NaN comes last (a NaN equal to everything would break sorting)
+pub fn num_cmp(x: f64, y: f64) -> CmpOrdering {
+    x.partial_cmp(&y)
+        .unwrap_or_else(|| x.is_nan().cmp(&y.is_nan()))
 }
 
 /// Compare the terms of two polynomials in the same base
 fn poly_terms_cmp(p1: &Polynomial, p2: &Polynomial) -> CmpOrdering {
     p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
         for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
-            let c =
-                t1.0.cmp(&t2.0)
-                    .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
+            let c = t1.0.cmp(&t2.0).then_with(|| num_cmp(t1.1, t2.1));
             if c != CmpOrdering::Equal {
                 return c;
             }
@@ -141,7 +142,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
     use ExprKind::{Derivative, Div, FunctionCall, Number, Pow, Product, Sum, Symbol};
     match (&a.kind, &b.kind) {
         // 0. Symbols and Numbers come first (most common atomic types)
-        (Number(x), Number(y)) => x.partial_cmp(y).unwrap_or(CmpOrdering::Equal),
+        (Number(x), Number(y)) => num_cmp(*x, *y),
         (Number(_), _) => CmpOrdering::Less,
         (_, Number(_)) => CmpOrdering::Greater,
 
diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 3631f16..a9978c7 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -3,6 +3,7 @@
 //! Provides expression manipulation utilities: flattening, normalization,
 //! coefficient extraction, root prettification, and like-term grouping.
 
+use crate::core::expr::num_cmp;
 use crate::core::known_symbols as ks;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
@@ -180,7 +181,7 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
 
     // 2. For numbers, compare by value
     if let (Number(n1), Number(n2)) = (&a.kind, &b.kind) {
-        return n1.partial_cmp(n2).unwrap_or(Ordering::Equal);
+        return num_cmp(*n1, *n2);
     }
 
     // 3. Compare by base name (alphabetical) - keeps same base adjacent
@@ -190,7 +191,7 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
     }
 
     // 4. Compare by degree (low-to-high)
-    deg_a.partial_cmp(&deg_b).unwrap_or(Ordering::Equal)
+    num_cmp(deg_a, deg_b)
 }
 
 /// Compare expressions for multiplication factor ordering
-- 
2.43.0


From 26bcedf589d1207dd86614b7888f4a85a0c2e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 44/73] fix: powf of dual numbers was NaN for zero and negative
 bases

---
 src/math/dual.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..7c23e74 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -408,8 +408,17 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        // d(x^y) = y * x^(y-1) dx + x^y * ln(x) dy. A constant exponent needs no logarithm,
+        // so integer powers of zero and of negative bases are differentiable as well.
+        let val = self.val.powf(n.val);
+        let mut eps = T::zero();
+        if !n.val.is_zero() {
+            eps += self.eps * n.val * self.val.powf(n.val - T::one());
+        }
+        if !n.eps.is_zero() {
+            eps += n.eps * val * self.val.ln();
+        }
+        Self::new(val, eps)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From bb3f94cb8cd135eb1926bfcf21e4d384223b8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 45/73] fix: the derivative of a dual number to the power zero
 was NaN at zero

---
 src/math/dual.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 7c23e74..6ebeef5 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -401,9 +401,14 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powi(self, n: i32) -> Self {
+        if n == 0 {
+            return Self::one();
+        }
         let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
-        let val_pow_minus_1 = self.val.powi(n - 1);
+        let val_pow_minus_1 = n
+            .checked_sub(1)
+            .map_or_else(|| val_pow / self.val, |m| self.val.powi(m));
         Self::new(val_pow, self.eps * n_t * val_pow_minus_1)
     }
 
-- 
2.43.0


From c98b5c1436438a0563c0d9d3ad455002da68aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 46/73] fix: exp_m1 and ln_1p of dual numbers lost the digits
 they exist to keep

---
 src/math/dual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 6ebeef5..55039d5 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -538,11 +538,11 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn exp_m1(self) -> Self {
-        self.exp() - Self::one()
+        Self::new(self.val.exp_m1(), self.eps * self.val.exp())
     }
 
     fn ln_1p(self) -> Self {
-        (self + Self::one()).ln()
+        Self::new(self.val.ln_1p(), self.eps / (T::one() + self.val))
     }
 
     fn sinh(self) -> Self {
-- 
2.43.0


From 1fb9a368972a1d60d16ff63172432035beae3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 47/73] fix: the derivative of sinc on dual numbers was noise
 near zero

---
 src/math/dual.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 55039d5..19963c7 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -689,10 +689,16 @@ impl<T: MathScalar> Dual<T> {
     /// Panics only if internal invariants are violated (never in normal use with f64).
     #[must_use]
     pub fn sinc(self) -> Self {
-        let threshold = T::from(1e-10).expect("T::from conversion failed");
-        if self.val.abs() < threshold {
-            // sinc(0) = 1, sinc'(0) = 0
-            Self::new(T::one(), T::zero())
+        let num = |n: f64| T::from(n).expect("T::from conversion failed");
+        if self.val.abs() < num(1e-2) {
+            // The quotients cancel near zero: Taylor series
+            let x2 = self.val * self.val;
+            let val = T::one()
+                - x2 / num(6.0) * (T::one() - x2 / num(20.0) * (T::one() - x2 / num(42.0)));
+            let deriv = -self.val / num(3.0)
+                * (T::one()
+                    - x2 / num(10.0) * (T::one() - x2 / num(28.0) * (T::one() - x2 / num(54.0))));
+            Self::new(val, self.eps * deriv)
         } else {
             let sin_x = self.val.sin();
             let cos_x = self.val.cos();
-- 
2.43.0


From 684448d960dcb6a2008f54d1bba094afd6773a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 48/73] fix: max and min of dual numbers returned NaN for a NaN
 second operand

---
 src/math/dual.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 19963c7..1e6d2eb 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -466,11 +466,19 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn max(self, other: Self) -> Self {
-        if self.val > other.val { self } else { other }
+        if self.val > other.val || other.val.is_nan() {
+            self
+        } else {
+            other
+        }
     }
 
     fn min(self, other: Self) -> Self {
-        if self.val < other.val { self } else { other }
+        if self.val < other.val || other.val.is_nan() {
+            self
+        } else {
+            other
+        }
     }
 
     fn abs_sub(self, other: Self) -> Self {
-- 
2.43.0


From 237327aa6a5a2a3eddc998eea2c83b5648cff9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 49/73] fix: epsilon of dual numbers was that of f32

---
 src/math/dual.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 1e6d2eb..abee06d 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -339,6 +339,9 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     fn min_positive_value() -> Self {
         Self::constant(T::min_positive_value())
     }
+    fn epsilon() -> Self {
+        Self::constant(T::epsilon())
+    }
     fn is_nan(self) -> bool {
         self.val.is_nan()
     }
-- 
2.43.0


From 4f0cfa58d6ba5cdfa4b3dba054ff3adc916c0df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 50/73] fix: hypot of dual numbers overflowed for large
 components

---
 src/math/dual.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index abee06d..4a8bb23 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -500,7 +500,10 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn hypot(self, other: Self) -> Self {
-        (self * self + other * other).sqrt()
+        // Scaled: the squares may overflow or underflow where the result does not
+        let val = self.val.hypot(other.val);
+        let eps = self.val / val * self.eps + other.val / val * other.eps;
+        Self::new(val, eps)
     }
 
     // Trig
-- 
2.43.0


From c6c0a3ebe9c8b1a991a9186a7cb6587ed29a3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 51/73] fix: acoth lost all digits of large arguments

---
 src/functions/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 0f1ef55..f72290a 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -484,7 +484,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "acoth",
             arity: 1..=1,
-            eval: |args| Some(0.5 * ((args[0] + 1.0) / (args[0] - 1.0)).ln()),
+            eval: |args| Some((1.0 / args[0]).atanh()),
             derivative: |args, arg_primes| {
                 // d/dx acoth(u) = u' / (1 - u^2)
                 let u = Arc::clone(&args[0]);
-- 
2.43.0


From 3049bffb384c038ffb9c365189e89cd19f938dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 52/73] fix: elliptic_e was wrong at a modulus of one

---
 src/math/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 69683b0..0219d18 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -49,6 +49,9 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
     if k.abs() > one {
         return Some(T::nan());
     }
+    if k.abs() == one {
+        return Some(one); // the AGM does not converge here
+    }
     let mut a = one;
     let mut b = (one - k * k).sqrt();
 
-- 
2.43.0


From 05296d37b8cb0175ff1b41e3b581da680d85ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 53/73] fix: erfc lost all digits of its tail

---
 src/evaluator/execution.rs   |  4 ++--
 src/evaluator/simd.rs        | 10 +++++-----
 src/functions/definitions.rs |  2 +-
 src/math/dual.rs             |  3 +--
 src/math/special.rs          | 30 ++++++++++++++++++++++++------
 5 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/evaluator/execution.rs b/src/evaluator/execution.rs
index f857793..41bc468 100644
--- a/src/evaluator/execution.rs
+++ b/src/evaluator/execution.rs
@@ -422,7 +422,7 @@ impl CompiledEvaluator {
                     }
                     Instruction::Erfc => {
                         let top_ptr = stack_ptr.add(len - 1);
-                        *top_ptr = 1.0 - crate::math::eval_erf(top_ptr.read());
+                        *top_ptr = crate::math::eval_erfc(top_ptr.read());
                     }
                     Instruction::Gamma => {
                         let top_ptr = stack_ptr.add(len - 1);
@@ -990,7 +990,7 @@ impl CompiledEvaluator {
                 Instruction::Erfc => {
                     // SAFETY: Stack operations are validated at compile time.
                     let top = unsafe { stack::scalar_stack_top_mut(stack) };
-                    *top = 1.0 - crate::math::eval_erf(*top);
+                    *top = crate::math::eval_erfc(*top);
                 }
                 Instruction::Gamma => {
                     // SAFETY: Stack operations are validated at compile time.
diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index def95d9..f463a7d 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -893,10 +893,10 @@ impl CompiledEvaluator {
                 let top = top!();
                 let arr = top.to_array();
                 *top = f64x4::new([
-                    1.0 - crate::math::eval_erf(arr[0]),
-                    1.0 - crate::math::eval_erf(arr[1]),
-                    1.0 - crate::math::eval_erf(arr[2]),
-                    1.0 - crate::math::eval_erf(arr[3]),
+                    crate::math::eval_erfc(arr[0]),
+                    crate::math::eval_erfc(arr[1]),
+                    crate::math::eval_erfc(arr[2]),
+                    crate::math::eval_erfc(arr[3]),
                 ]);
             }
             Instruction::Gamma => {
@@ -1616,7 +1616,7 @@ impl CompiledEvaluator {
             }
             Instruction::Erfc => {
                 let t = top_mut(stack, *len);
-                *t = 1.0 - crate::math::eval_erf(*t);
+                *t = crate::math::eval_erfc(*t);
             }
             Instruction::Gamma => {
                 let t = top_mut(stack, *len);
diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f72290a..da36e85 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -773,7 +773,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "erfc",
             arity: 1..=1,
-            eval: |args| Some(1.0 - crate::math::eval_erf(args[0])),
+            eval: |args| Some(crate::math::eval_erfc(args[0])),
             derivative: |args, arg_primes| {
                 // d/dx erfc(u) = -d/dx erf(u)
                 let u = Arc::clone(&args[0]);
diff --git a/src/math/dual.rs b/src/math/dual.rs
index 4a8bb23..be7bafe 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -620,8 +620,7 @@ impl<T: MathScalar> Dual<T> {
     /// d/dx erfc(x) = -d/dx erf(x) = -(2/√π) * e^(-x²)
     #[must_use]
     pub fn erfc(self) -> Self {
-        let erf_result = self.erf();
-        Self::new(T::one() - erf_result.val, -erf_result.eps)
+        Self::new(crate::math::eval_erfc(self.val), -self.erf().eps)
     }
 
     /// Gamma function: Γ(x)
diff --git a/src/math/special.rs b/src/math/special.rs
index ec45cbb..9bb83b8 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -18,12 +18,7 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
     // The series below needs ever more terms (and cancels ever more) as |x| grows:
     // from 2 on use the continued fraction of erfc (DLMF 7.9.1)
     if x >= two {
-        let mut tail = x;
-        for k in (1..=60).rev() {
-            let half_k = T::from_f64(0.5 * f64::from(k)).expect("Failed to convert k/2");
-            tail = x + half_k / tail;
-        }
-        return sign * (T::one() - (-(x * x)).exp() / (sqrt_pi * tail));
+        return sign * (T::one() - erfc_tail(x));
     }
 
     let mut sum = T::zero();
@@ -61,6 +56,29 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
     sign * coeff * sum
 }
 
+/// Complementary error function: erfc(x) = 1 - erf(x)
+///
+/// From 2 on erf(x) is so close to 1 that the difference would lose its digits: the continued
+/// fraction gives the tail directly.
+pub fn eval_erfc<T: MathScalar>(x: T) -> T {
+    let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
+    if x >= two {
+        erfc_tail(x)
+    } else {
+        T::one() - eval_erf(x)
+    }
+}
+
+/// Continued fraction of erfc(x) for x >= 2 (DLMF 7.9.1)
+fn erfc_tail<T: MathScalar>(x: T) -> T {
+    let mut tail = x;
+    for k in (1..=60).rev() {
+        let half_k = T::from_f64(0.5 * f64::from(k)).expect("Failed to convert k/2");
+        tail = x + half_k / tail;
+    }
+    (-(x * x)).exp() / (T::PI().sqrt() * tail)
+}
+
 /// Gamma function Γ(x) using Lanczos approximation with g=7
 ///
 /// Γ(z+1) ≈ √(2π) (z + g + 1/2)^(z+1/2) e^(-(z+g+1/2)) Aₘ(z)
-- 
2.43.0


From 4642788cd45830d4eda730f7875c7ba7d53489d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 54/73] fix: beta overflowed for large arguments and was
 undefined where it is zero

---
 src/evaluator/execution.rs   | 16 ++-------
 src/evaluator/simd.rs        | 17 ++-------
 src/functions/definitions.rs |  9 +----
 src/math/dual.rs             |  5 +--
 src/math/special.rs          | 68 +++++++++++++++++++++++++++---------
 5 files changed, 58 insertions(+), 57 deletions(-)

diff --git a/src/evaluator/execution.rs b/src/evaluator/execution.rs
index 41bc468..414be3e 100644
--- a/src/evaluator/execution.rs
+++ b/src/evaluator/execution.rs
@@ -563,13 +563,7 @@ impl CompiledEvaluator {
                         len -= 1;
                         let b = stack_ptr.add(len).read();
                         let a_ptr = stack_ptr.add(len - 1);
-                        let ga = crate::math::eval_gamma(*a_ptr);
-                        let gb = crate::math::eval_gamma(b);
-                        let gab = crate::math::eval_gamma(*a_ptr + b);
-                        *a_ptr = match (ga, gb, gab) {
-                            (Some(ga), Some(gb), Some(gab)) => ga * gb / gab,
-                            _ => f64::NAN,
-                        };
+                        *a_ptr = crate::math::eval_beta(*a_ptr, b).unwrap_or(f64::NAN);
                     }
                     Instruction::ZetaDeriv => {
                         len -= 1;
@@ -1150,13 +1144,7 @@ impl CompiledEvaluator {
                     let b = unsafe { stack::scalar_stack_pop(stack) };
                     // SAFETY: Stack operations are validated at compile time.
                     let a = unsafe { stack::scalar_stack_top_mut(stack) };
-                    let ga = crate::math::eval_gamma(*a);
-                    let gb = crate::math::eval_gamma(b);
-                    let gab = crate::math::eval_gamma(*a + b);
-                    *a = match (ga, gb, gab) {
-                        (Some(ga), Some(gb), Some(gab)) => ga * gb / gab,
-                        _ => f64::NAN,
-                    };
+                    *a = crate::math::eval_beta(*a, b).unwrap_or(f64::NAN);
                 }
                 Instruction::ZetaDeriv => {
                     // SAFETY: Stack operations are validated at compile time.
diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index f463a7d..233ceb3 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -1162,14 +1162,7 @@ impl CompiledEvaluator {
                 let a_arr = a.to_array();
                 let b_arr = b.to_array();
                 let beta = |val_a: f64, val_b: f64| -> f64 {
-                    match (
-                        crate::math::eval_gamma(val_a),
-                        crate::math::eval_gamma(val_b),
-                        crate::math::eval_gamma(val_a + val_b),
-                    ) {
-                        (Some(ga), Some(gb), Some(gab)) => ga * gb / gab,
-                        _ => f64::NAN,
-                    }
+                    crate::math::eval_beta(val_a, val_b).unwrap_or(f64::NAN)
                 };
                 *a = f64x4::new([
                     beta(a_arr[0], b_arr[0]),
@@ -1773,13 +1766,7 @@ impl CompiledEvaluator {
             Instruction::Beta => {
                 let b = pop(stack, len);
                 let a = top_mut(stack, *len);
-                let ga = crate::math::eval_gamma(*a);
-                let gb = crate::math::eval_gamma(b);
-                let gab = crate::math::eval_gamma(*a + b);
-                *a = match (ga, gb, gab) {
-                    (Some(ga), Some(gb), Some(gab)) => ga * gb / gab,
-                    _ => f64::NAN,
-                };
+                *a = crate::math::eval_beta(*a, b).unwrap_or(f64::NAN);
             }
             #[allow(
                 clippy::cast_possible_truncation,
diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index da36e85..3c6a3ac 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -843,14 +843,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "beta",
             arity: 2..=2,
-            eval: |args| {
-                let a = args[0];
-                let b = args[1];
-                let ga = crate::math::eval_gamma(a)?;
-                let gb = crate::math::eval_gamma(b)?;
-                let gab = crate::math::eval_gamma(a + b)?;
-                Some(ga * gb / gab)
-            },
+            eval: |args| crate::math::eval_beta(args[0], args[1]),
             derivative: |args, arg_primes| {
                 // d/dx beta(a,b) = beta(a,b) * (psi(a) - psi(a+b)) * a' + beta(a,b) * (psi(b) - psi(a+b)) * b'
                 let a = Arc::clone(&args[0]);
diff --git a/src/math/dual.rs b/src/math/dual.rs
index be7bafe..0013f6c 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -763,10 +763,7 @@ impl<T: MathScalar> Dual<T> {
     /// Beta function: B(a, b) = Γ(a)Γ(b)/Γ(a+b)
     /// d/da B(a, b) = B(a, b) * (ψ(a) - ψ(a+b))
     pub fn beta(self, b: Self) -> Option<Self> {
-        let gamma_a = crate::math::eval_gamma(self.val)?;
-        let gamma_b = crate::math::eval_gamma(b.val)?;
-        let gamma_sum = crate::math::eval_gamma(self.val + b.val)?;
-        let val = gamma_a * gamma_b / gamma_sum;
+        let val = crate::math::eval_beta(self.val, b.val)?;
 
         let psi_a = crate::math::eval_digamma(self.val)?;
         let psi_b = crate::math::eval_digamma(b.val)?;
diff --git a/src/math/special.rs b/src/math/special.rs
index 9bb83b8..348bb54 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -99,17 +99,6 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
         return None;
     }
     let g = T::from_f64(7.0).expect("Failed to convert mathematical constant 7.0");
-    let c = [
-        0.999_999_999_999_809_9,
-        676.520_368_121_885_1,
-        -1_259.139_216_722_402_8,
-        771.323_428_777_653_1,
-        -176.615_029_162_140_6,
-        12.507_343_278_686_905,
-        -0.138_571_095_265_720_12,
-        9.984_369_578_019_572e-6,
-        1.505_632_735_149_311_6e-7,
-    ];
     let half = T::from_f64(0.5).expect("Failed to convert mathematical constant 0.5");
     let one = T::one();
     let pi = T::PI();
@@ -125,12 +114,8 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
         }
         Some(pi / ((pi * x).sin() * eval_gamma(one - x)?))
     } else {
+        let ag = lanczos_sum(x);
         let x = x - one;
-        let mut ag = T::from_f64(c[0]).expect("Failed to convert gamma series coefficient");
-        for (i, &coeff) in c.iter().enumerate().skip(1) {
-            ag += T::from_f64(coeff).expect("Failed to convert gamma coefficient")
-                / (x + T::from_usize(i).expect("Failed to convert array index"));
-        }
         let t = x + g + half;
         let two_pi_sqrt = (T::from_f64(2.0).expect("Failed to convert constant 2.0") * pi).sqrt();
         // t^(x+1/2) alone overflows long before gamma does: apply it in two halves
@@ -139,6 +124,57 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
     }
 }
 
+/// The sum Aₘ of the Lanczos approximation of Γ(x), for x >= 0.5
+fn lanczos_sum<T: MathScalar>(x: T) -> T {
+    let c = [
+        0.999_999_999_999_809_9,
+        676.520_368_121_885_1,
+        -1_259.139_216_722_402_8,
+        771.323_428_777_653_1,
+        -176.615_029_162_140_6,
+        12.507_343_278_686_905,
+        -0.138_571_095_265_720_12,
+        9.984_369_578_019_572e-6,
+        1.505_632_735_149_311_6e-7,
+    ];
+    let x = x - T::one();
+    let mut ag = T::from_f64(c[0]).expect("Failed to convert gamma series coefficient");
+    for (i, &coeff) in c.iter().enumerate().skip(1) {
+        ag += T::from_f64(coeff).expect("Failed to convert gamma coefficient")
+            / (x + T::from_usize(i).expect("Failed to convert array index"));
+    }
+    ag
+}
+
+/// Beta function B(a, b) = Γ(a)Γ(b)/Γ(a+b)
+///
+/// The gammas alone overflow long before their quotient does: for large positive arguments the
+/// Lanczos approximations are divided before they are evaluated.
+pub fn eval_beta<T: MathScalar>(a: T, b: T) -> Option<T> {
+    let zero = T::zero();
+    let half = T::from_f64(0.5).expect("Failed to convert mathematical constant 0.5");
+    let sum = a + b;
+    if a > zero && b > zero && sum > T::from_f64(170.0).expect("Failed to convert 170.0") {
+        let (large, small) = if a >= b { (a, b) } else { (b, a) };
+        if small < half {
+            return Some(eval_beta(large, small + T::one())? * (sum / small));
+        }
+        let shift = T::from_f64(6.5).expect("Failed to convert mathematical constant 6.5");
+        let (t_small, t_sum) = (small + shift, sum + shift);
+        // (t_large / t_sum)^(large - 1/2), with t_large = t_sum - small
+        let power = (large - half) * (-small / t_sum).ln_1p();
+        let ratio = (t_small / t_sum).powf(small - half);
+        let series = lanczos_sum(a) * lanczos_sum(b) / lanczos_sum(sum);
+        let scale = (T::PI() + T::PI()).sqrt() / t_sum.sqrt();
+        return Some(scale * (power - shift).exp() * ratio * series);
+    }
+    let gammas = eval_gamma(a)? * eval_gamma(b)?;
+    if sum <= zero && sum.fract() == zero {
+        return Some(zero); // 1/Γ vanishes at the poles of Γ
+    }
+    Some(gammas / eval_gamma(sum)?)
+}
+
 /// Digamma function ψ(x) = Γ'(x)/Γ(x) = d/dx ln(Γ(x))
 ///
 /// Uses asymptotic expansion for large x:
-- 
2.43.0


From c6cd5231137a94a04074eaec670a8706d2ddfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 55/73] fix: zeta was huge at its trivial zeros

---
 src/math/special.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/special.rs b/src/math/special.rs
index 348bb54..a7c93ee 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -282,6 +282,9 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
     if x < T::from(-1e-4).expect("Failed to convert mathematical constant") {
         let pi = T::PI();
         let two = T::from(2.0).expect("Failed to convert mathematical constant");
+        if (x / two).fract() == T::zero() {
+            return Some(T::zero()); // trivial zeros: the sine below only comes close to zero
+        }
         let gs = eval_gamma(one - x)?;
         let z = eval_zeta(one - x)?;
         let term1 = two.powf(x);
-- 
2.43.0


From f78212119479c1e4a8697f3928b7d81fd7742298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 56/73] fix: lambertw of tiny and of huge arguments

---
 src/math/special.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index a7c93ee..1b83e50 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -589,6 +589,11 @@ pub fn eval_lambert_w<T: MathScalar>(x: T) -> Option<T> {
     if (x + e_inv).abs() < threshold {
         return Some(-one);
     }
+    // The convergence test below is absolute: too coarse for tiny arguments
+    let tiny = T::from_f64(1e-8).expect("Failed to convert threshold 1e-8");
+    if x.abs() < tiny {
+        return Some(x * (one - x));
+    }
 
     // Initial guess
     let point_three_neg = T::from_f64(-0.3).expect("Failed to convert constant -0.3");
@@ -644,7 +649,7 @@ pub fn eval_lambert_w<T: MathScalar>(x: T) -> Option<T> {
         }
         let fp = ew * w1;
         let fpp = ew * (w + two);
-        let d = f * fp / (fp * fp - half * f * fpp);
+        let d = f / (fp - half * f * (fpp / fp));
         w -= d;
 
         if d.abs() < tolerance * (one + w.abs()) {
-- 
2.43.0


From 54b9de27c7f5311b60a8dadb9cf61c66cab22ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 57/73] fix: gamma was undefined near, not only at, its poles

---
 src/math/special.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 1b83e50..cdeb9da 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -88,13 +88,6 @@ fn erfc_tail<T: MathScalar>(x: T) -> T {
 /// SIAM J. Numerical Analysis, Ser. B, Vol. 1, pp. 86-96
 /// See also: DLMF §5.10 <https://dlmf.nist.gov/5.10>
 pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
-    // Add special handling for x near negative integers
-    if x < T::zero()
-        && (x.fract().abs() < T::from_f64(1e-10).expect("Failed to convert epsilon 1e-10"))
-    {
-        return None; // Exactly at negative integer pole
-    }
-
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
-- 
2.43.0


From 11cedb21258c31de49caf25377bb137d5861e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 58/73] fix: acsch was undefined for tiny arguments

---
 src/functions/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 3c6a3ac..a96669a 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -531,7 +531,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "acsch",
             arity: 1..=1,
             eval: |args| {
-                if args[0].abs() < 1e-15 {
+                if args[0] == 0.0 {
                     None
                 } else {
                     Some((1.0 / args[0]).asinh())
-- 
2.43.0


From d76a4aee7761f0d2ca0f95d824abfce8f2b19851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 59/73] fix: zeta had only ten digits between zero and one

---
 src/math/special.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cdeb9da..b66208e 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -354,7 +354,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
 fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
     let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let n = 14; // Optimal for double precision (~18 digits)
+    let n = 22; // The error is about 5.8^-n: below double precision
 
     // Compute denominator: 1 - 2^(1-s)
     let denom = one - two.powf(one - s);
-- 
2.43.0


From 9481b909527df93ce4da719ebe6d50885927fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 60/73] fix: built-in functions called with a wrong number of
 arguments were evaluated, or panicked

---
 src/core/expr/evaluate.rs               | 1 +
 src/simplification/rules/numeric/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 9da4c66..e058c84 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -162,6 +162,7 @@ impl Expr {
                     }
                     if let Some(func_def) =
                         crate::functions::registry::Registry::get_by_symbol(name)
+                        && func_def.validate_arity(args_vec.len())
                         && let Some(result) = (func_def.eval)(&args_vec)
                     {
                         return Self::number(result);
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index b96fe8a..9dcdf75 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -566,6 +566,7 @@ rule!(
 
             // Try built-in function registry first (via InternedSymbol ID)
             if let Some(func_def) = crate::functions::registry::Registry::get_by_symbol(name)
+                && func_def.validate_arity(numeric_args.len())
                 && let Some(result) = (func_def.eval)(&numeric_args)
             {
                 // Check for NaN or Inf
-- 
2.43.0


From 90a8fdebc2d98d7a3b5e91ca3bbaad8312533e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 61/73] fix: the compiler took a constant log of one argument
 for ln

---
 src/evaluator/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index 02fbb4d..7cc00fa 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -291,7 +291,7 @@ impl<'ctx> Compiler<'ctx> {
                             Some(x.tan())
                         } else if id == ks.exp {
                             Some(x.exp())
-                        } else if id == ks.ln || id == ks.log {
+                        } else if id == ks.ln {
                             Some(x.ln())
                         } else if id == ks.sqrt {
                             Some(x.sqrt())
-- 
2.43.0


From 3b0819e11663a2b94abf40e5fe553a9604ef4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 62/73] fix: a trailing comma in the arguments of a derivative
 was accepted

---
 src/parser/pratt.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 02d45b2..c648a88 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -307,9 +307,6 @@ impl<'src> Parser<'_, 'src> {
                         let mut exprs = Vec::new();
 
                         loop {
-                            if sub_parser.current().is_none() {
-                                break;
-                            }
                             let expr = sub_parser.parse_expr(0)?;
                             exprs.push(expr);
 
-- 
2.43.0


From ced42a0521e3df3e7a329c36a0bc36fe34726a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 63/73] fix: polygamma of the highest order overflowed, of
 other high orders looped for seconds

---
 src/math/dual.rs    | 2 +-
 src/math/special.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 0013f6c..0823b36 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -652,7 +652,7 @@ impl<T: MathScalar> Dual<T> {
     /// d/dx ψₙ(x) = ψₙ₊₁(x)
     pub fn polygamma(self, n: i32) -> Option<Self> {
         let val = crate::math::eval_polygamma(n, self.val)?;
-        let deriv = crate::math::eval_polygamma(n + 1, self.val)?;
+        let deriv = crate::math::eval_polygamma(n.checked_add(1)?, self.val)?;
         Some(Self::new(val, self.eps * deriv))
     }
 
diff --git a/src/math/special.rs b/src/math/special.rs
index b66208e..0b1f615 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -670,6 +670,10 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
             if x <= T::zero() && x.fract() == T::zero() {
                 return None;
             }
+            // n! is out of the range of double precision
+            if n > 170 {
+                return None;
+            }
             let mut xv = x;
             let mut r = T::zero();
             // ψ^(n)(x) = (-1)^(n+1) * n! * Σ_{k=0}^∞ 1/(x+k)^(n+1)
-- 
2.43.0


From d821918f6f6d02806585e7890b113ed0980ad488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 64/73] fix: order of terms and factors in rules depended on
 which symbol was created first

---
 src/simplification/helpers.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index a9978c7..d2b6a04 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -5,6 +5,7 @@
 
 use crate::core::expr::num_cmp;
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use std::f64::consts::PI;
@@ -132,23 +133,24 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
     use std::cmp::Ordering;
 
     /// Extract (`base_name`, degree) for polynomial-style ordering.
-    /// Returns (`type_priority`, `base_symbol_id`, degree) - uses u64 ID to avoid String alloc
-    fn get_sort_key(e: &Expr) -> (i32, u64, f64) {
-        // Returns (type_priority, symbol_id, degree)
+    /// Returns (`type_priority`, `base_symbol`, degree) - symbols compare by name, so that the
+    /// order does not depend on which of them was created first
+    fn get_sort_key(e: &Expr) -> (i32, Option<&InternedSymbol>, f64) {
+        // Returns (type_priority, symbol, degree)
         // Lower type_priority = comes first
         // Lower degree = comes first (low-to-high)
         match &e.kind {
-            Number(_) => (0, 0, 0.0),       // Numbers first
-            Symbol(s) => (10, s.id(), 1.0), // Variables are degree 1, use symbol ID
+            Number(_) => (0, None, 0.0),     // Numbers first
+            Symbol(s) => (10, Some(s), 1.0), // Variables are degree 1
             Pow(base, exp) => {
                 if let Symbol(s) = &base.kind {
                     if let Number(n) = &exp.kind {
-                        (10, s.id(), *n) // Same priority as symbol, degree from exponent
+                        (10, Some(s), *n) // Same priority as symbol, degree from exponent
                     } else {
-                        (10, s.id(), 999.0) // Symbolic exponent - treat as very high degree
+                        (10, Some(s), 999.0) // Symbolic exponent - treat as very high degree
                     }
                 } else {
-                    (30, 0, 0.0) // Non-symbol base - complex
+                    (30, None, 0.0) // Non-symbol base - complex
                 }
             }
             Product(factors) => {
@@ -160,13 +162,13 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
                         return key;
                     }
                 }
-                (20, 0, 0.0) // No polynomial term found
+                (20, None, 0.0) // No polynomial term found
             }
-            FunctionCall { name, .. } => (40, name.id(), 0.0),
-            Sum(..) => (50, 0, 0.0),
-            Div(..) => (35, 0, 0.0),
-            Derivative { .. } => (45, 0, 0.0),
-            Poly(_) => (25, 0, 0.0), // Poly treated as complex
+            FunctionCall { name, .. } => (40, Some(name), 0.0),
+            Sum(..) => (50, None, 0.0),
+            Div(..) => (35, None, 0.0),
+            Derivative { .. } => (45, None, 0.0),
+            Poly(_) => (25, None, 0.0), // Poly treated as complex
         }
     }
 
@@ -520,8 +522,7 @@ pub fn even_power_loses_sign(base: &Expr, inner: &Expr, outer: &Expr) -> bool {
         return false;
     }
     // Integer powers of even powers stay even
-    numeric_ratio(outer)
-        .is_none_or(|outer| outer.fract() != 0.0 && (inner * outer) % 2.0 != 0.0)
+    numeric_ratio(outer).is_none_or(|outer| outer.fract() != 0.0 && (inner * outer) % 2.0 != 0.0)
 }
 
 /// Check if an exponent represents a fractional power that requires non-negative base
-- 
2.43.0


From e0d6703588fbbd2ae6cbd0bd1d16b5f266cdf1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 65/73] fix: nearly linear hashes made unlike terms collide, so
 results depended on symbol numbers

---
 src/core/expr/hash.rs         | 15 ++++++++++++++-
 src/core/expr/mod.rs          |  3 ++-
 src/simplification/helpers.rs | 11 ++++++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/core/expr/hash.rs b/src/core/expr/hash.rs
index 6f1bd55..68077f5 100644
--- a/src/core/expr/hash.rs
+++ b/src/core/expr/hash.rs
@@ -13,5 +13,18 @@ use std::hash::{Hash, Hasher};
 pub fn compute_expr_hash(kind: &ExprKind) -> u64 {
     let mut hasher = FxHasher::default();
     kind.hash(&mut hasher);
-    hasher.finish()
+    scramble(hasher.finish())
+}
+
+/// Scrambles a hash, so that it can be part of a commutative sum.
+///
+/// `FxHasher` and FNV are nearly linear: the plain sums of the hashes of `x^2`, `y^3` and of
+/// `x^3`, `y^2` can be equal, depending on the symbol numbers.
+#[inline]
+pub const fn scramble(mut h: u64) -> u64 {
+    h ^= h >> 33;
+    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
+    h ^= h >> 33;
+    h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
+    h ^ (h >> 33)
 }
diff --git a/src/core/expr/mod.rs b/src/core/expr/mod.rs
index 793f6ab..15c8eba 100644
--- a/src/core/expr/mod.rs
+++ b/src/core/expr/mod.rs
@@ -60,6 +60,7 @@ use crate::core::symbol::InternedSymbol;
 
 // Re-exports from submodules
 pub use hash::compute_expr_hash;
+pub(crate) use hash::scramble;
 pub use ordering::expr_cmp;
 pub(crate) use ordering::num_cmp;
 
@@ -322,7 +323,7 @@ impl std::hash::Hash for ExprKind {
                     let mut term_hasher = FxHasher::default();
                     coeff.to_bits().hash(&mut term_hasher);
                     pow.hash(&mut term_hasher);
-                    terms_hash = terms_hash.wrapping_add(term_hasher.finish());
+                    terms_hash = terms_hash.wrapping_add(scramble(term_hasher.finish()));
                 }
                 terms_hash.hash(state);
             }
diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index d2b6a04..2267d90 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -3,7 +3,7 @@
 //! Provides expression manipulation utilities: flattening, normalization,
 //! coefficient extraction, root prettification, and like-term grouping.
 
-use crate::core::expr::num_cmp;
+use crate::core::expr::{num_cmp, scramble};
 use crate::core::known_symbols as ks;
 use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
@@ -643,8 +643,8 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
                     if !matches!(f.kind, ExprKind::Number(_)) {
                         // Hash each factor independently starting from a seed,
                         // then add to accumulator
-                        product_accumulator =
-                            product_accumulator.wrapping_add(hash_term_inner(FNV_OFFSET, f));
+                        product_accumulator = product_accumulator
+                            .wrapping_add(scramble(hash_term_inner(FNV_OFFSET, f)));
                     }
                 }
 
@@ -677,7 +677,8 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
                 // Commutative accumulation
                 let mut sum_accumulator: u64 = 0;
                 for t in terms {
-                    sum_accumulator = sum_accumulator.wrapping_add(hash_term_inner(FNV_OFFSET, t));
+                    sum_accumulator =
+                        sum_accumulator.wrapping_add(scramble(hash_term_inner(FNV_OFFSET, t)));
                 }
 
                 hash_u64(h, sum_accumulator)
@@ -710,7 +711,7 @@ pub fn get_term_hash(expr: &Expr) -> u64 {
                 let mut acc: u64 = 0;
                 for &(pow, coeff) in poly.terms() {
                     let term_h = hash_u64(hash_f64(FNV_OFFSET, coeff), u64::from(pow));
-                    acc = acc.wrapping_add(term_h);
+                    acc = acc.wrapping_add(scramble(term_h));
                 }
                 hash_u64(h, acc)
             }
-- 
2.43.0


From af7ff8e83ba3712490a63b25e74d5888d9aa5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 66/73] fix: Python objects could be used only by the thread
 that created them, others panicked

---
 src/bindings/python/context.rs   | 4 ++--
 src/bindings/python/evaluator.rs | 2 +-
 src/bindings/python/expr.rs      | 2 +-
 src/bindings/python/symbol.rs    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bindings/python/context.rs b/src/bindings/python/context.rs
index 2ceb4b8..72ab2bd 100644
--- a/src/bindings/python/context.rs
+++ b/src/bindings/python/context.rs
@@ -12,7 +12,7 @@ use std::sync::Arc;
 type PartialDerivativeFn = Arc<dyn Fn(&[Arc<RustExpr>]) -> RustExpr + Send + Sync>;
 
 /// Python wrapper for expression contexts
-#[pyclass(unsendable, name = "Context")]
+#[pyclass(name = "Context")]
 pub struct PyContext {
     /// The inner Rust context
     pub inner: RustContext,
@@ -179,7 +179,7 @@ impl PyContext {
 ///
 /// This tracks custom function names for parsing. For full custom function
 /// support with evaluation and derivatives, use the `Diff.custom_derivative` API.
-#[pyclass(unsendable, name = "FunctionContext")]
+#[pyclass(name = "FunctionContext")]
 pub struct PyFunctionContext {
     /// Set of registered custom function names
     functions: HashSet<String>,
diff --git a/src/bindings/python/evaluator.rs b/src/bindings/python/evaluator.rs
index 05da71f..9aa1df4 100644
--- a/src/bindings/python/evaluator.rs
+++ b/src/bindings/python/evaluator.rs
@@ -8,7 +8,7 @@ use numpy::{PyArray1, PyReadonlyArray1};
 use pyo3::prelude::*;
 
 /// Python wrapper for compiled evaluators
-#[pyclass(unsendable, name = "CompiledEvaluator")]
+#[pyclass(name = "CompiledEvaluator")]
 pub struct PyCompiledEvaluator {
     /// The underlying Rust compiled evaluator
     evaluator: RustCompiledEvaluator,
diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 2127cb6..5860638 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -14,7 +14,7 @@ use crate::core::traits::EPSILON;
 use pyo3::prelude::*;
 
 /// Python wrapper for symbolic expressions
-#[pyclass(unsendable, name = "Expr", from_py_object)]
+#[pyclass(name = "Expr", from_py_object)]
 #[derive(Clone)]
 pub struct PyExpr(pub RustExpr);
 
diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index a9defdd..7c03a60 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -13,7 +13,7 @@ use crate::{Expr as RustExpr, remove_symbol, symb, symb_get, symb_new};
 use pyo3::prelude::*;
 
 /// Python wrapper for symbols
-#[pyclass(unsendable, name = "Symbol", from_py_object)]
+#[pyclass(name = "Symbol", from_py_object)]
 #[derive(Clone)]
 pub struct PySymbol(pub RustSymbol);
 
-- 
2.43.0


From a238271f9498204653c1160900c194b75ecc6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 67/73] fix: compiled evaluators held by Python objects were
 misaligned in memory

---
 src/bindings/python/evaluator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bindings/python/evaluator.rs b/src/bindings/python/evaluator.rs
index 9aa1df4..cc25b39 100644
--- a/src/bindings/python/evaluator.rs
+++ b/src/bindings/python/evaluator.rs
@@ -10,8 +10,9 @@ use pyo3::prelude::*;
 /// Python wrapper for compiled evaluators
 #[pyclass(name = "CompiledEvaluator")]
 pub struct PyCompiledEvaluator {
-    /// The underlying Rust compiled evaluator
-    evaluator: RustCompiledEvaluator,
+    /// The underlying Rust compiled evaluator, boxed because Python allocates
+    /// objects with a smaller alignment than the evaluator requires
+    evaluator: Box<RustCompiledEvaluator>,
 }
 
 #[pymethods]
@@ -40,7 +41,11 @@ impl PyCompiledEvaluator {
             RustCompiledEvaluator::compile_auto(&expr.0, rust_context)
         };
 
-        evaluator.map(|e| Self { evaluator: e }).map_err(Into::into)
+        evaluator
+            .map(|e| Self {
+                evaluator: Box::new(e),
+            })
+            .map_err(Into::into)
     }
 
     /// Evaluate at a single point
-- 
2.43.0


From 7b797895377df5017947f6d332f61b70e6729cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 68/73] fix: equal Python symbols and expressions had different
 hashes, and were equal in one order only

---
 src/bindings/python/expr.rs   | 32 +++++++++-----------------------
 src/bindings/python/symbol.rs |  7 +++++--
 2 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 5860638..e016f67 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -47,29 +47,15 @@ impl PyExpr {
         false
     }
 
-    /// Hash function for use in sets and dictionaries
-    fn __hash__(&self) -> isize {
-        // Simple hash based on string representation or kind
-        // For better performance, we'd need a stable hash in Rust Expr
-        use std::collections::hash_map::DefaultHasher;
-        use std::hash::{Hash, Hasher};
-        let mut s = DefaultHasher::new();
-        self.0.to_string().hash(&mut s);
-        #[allow(
-            clippy::cast_possible_wrap,
-            reason = "Python __hash__ requires isize, wrapping is expected"
-        )]
-        {
-            // u64->isize: Python __hash__ requires isize, allow truncation
-            let hash = s.finish();
-            #[allow(
-                clippy::cast_possible_truncation,
-                reason = "Python __hash__ requires isize, truncation is expected"
-            )]
-            // Python __hash__ requires isize, truncation is expected
-            let res = hash as isize;
-            res
-        }
+    /// Hash function for use in sets and dictionaries, consistent with `__eq__`
+    // u64->isize: Python __hash__ requires isize, wrap is expected
+    #[allow(
+        clippy::cast_possible_wrap,
+        clippy::cast_possible_truncation,
+        reason = "Python __hash__ requires isize"
+    )]
+    const fn __hash__(&self) -> isize {
+        self.0.hash as isize
     }
 
     /// Convert to float if the expression is a numeric constant
diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index 7c03a60..3db0f34 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -57,6 +57,9 @@ impl PySymbol {
         if let Ok(other_sym) = other.extract::<Self>() {
             return self.0 == other_sym.0;
         }
+        if let Ok(other_expr) = other.extract::<super::expr::PyExpr>() {
+            return self.0.to_expr() == other_expr.0;
+        }
         false
     }
 
@@ -66,9 +69,9 @@ impl PySymbol {
         clippy::cast_possible_truncation,
         reason = "Python __hash__ requires isize"
     )]
-    /// Returns the hash value of the symbol.
+    /// Returns the hash value of the symbol, the same as that of its expression.
     fn __hash__(&self) -> isize {
-        self.0.id() as isize
+        self.0.to_expr().hash as isize
     }
 
     /// Get the symbol name
-- 
2.43.0


From 91785e5a7410ab8b31afcf5e2f58503136c39495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 69/73] fix: errors and plain numbers from Python callbacks
 silently became zero

---
 src/bindings/python/builder.rs   | 70 ++++++++------------------------
 src/bindings/python/callback.rs  | 41 +++++++++++++++++++
 src/bindings/python/context.rs   | 46 ++-------------------
 src/bindings/python/evaluator.rs | 27 ++++++------
 src/bindings/python/mod.rs       |  1 +
 5 files changed, 78 insertions(+), 107 deletions(-)
 create mode 100644 src/bindings/python/callback.rs

diff --git a/src/bindings/python/builder.rs b/src/bindings/python/builder.rs
index 450aed6..89a5683 100644
--- a/src/bindings/python/builder.rs
+++ b/src/bindings/python/builder.rs
@@ -3,6 +3,7 @@
 //! This module provides the `PyDiff` and `PySimplify` classes which wrap
 //! Rust's builder types for fine-grained control over operations.
 
+use super::callback::{call_expr_callback, raise_callback_errors};
 use crate::Expr as RustExpr;
 use crate::api::builder;
 use pyo3::prelude::*;
@@ -106,54 +107,15 @@ impl PyDiff {
         let mut user_fn = UserFunction::new(arity..=arity);
 
         if let Some(callback) = body_callback {
-            let body_fn: BodyFn = Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                Python::attach(|py| {
-                    let py_args: Vec<super::expr::PyExpr> = args
-                        .iter()
-                        .map(|a| super::expr::PyExpr((**a).clone()))
-                        .collect();
-                    let Ok(py_list) = py_args.into_pyobject(py) else {
-                        return RustExpr::number(0.0);
-                    };
-
-                    let result = callback.call1(py, (py_list,));
-
-                    result.map_or_else(
-                        |_| RustExpr::number(0.0),
-                        |res| {
-                            res.extract::<super::expr::PyExpr>(py)
-                                .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                        },
-                    )
-                })
-            });
+            let body_fn: BodyFn =
+                Arc::new(move |args: &[Arc<RustExpr>]| call_expr_callback(&callback, args));
             user_fn = user_fn.body_arc(body_fn);
         }
 
         if let Some(callbacks) = partials {
             for (i, callback) in callbacks.into_iter().enumerate() {
                 let partial_fn: PartialDerivativeFn =
-                    Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                        Python::attach(|py| {
-                            let py_args: Vec<super::expr::PyExpr> = args
-                                .iter()
-                                .map(|a| super::expr::PyExpr((**a).clone()))
-                                .collect();
-                            let Ok(py_list) = py_args.into_pyobject(py) else {
-                                return RustExpr::number(0.0);
-                            };
-
-                            let result = callback.call1(py, (py_list,));
-
-                            result.map_or_else(
-                                |_| RustExpr::number(0.0),
-                                |res| {
-                                    res.extract::<super::expr::PyExpr>(py)
-                                        .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                                },
-                            )
-                        })
-                    });
+                    Arc::new(move |args: &[Arc<RustExpr>]| call_expr_callback(&callback, args));
 
                 user_fn = user_fn.partial_arc(i, partial_fn).map_err(|e| {
                     PyErr::new::<pyo3::exceptions::PyValueError, _>(format!("{e:?}"))
@@ -167,7 +129,7 @@ impl PyDiff {
 
     /// Differentiate a string formula
     fn diff_str(&self, formula: &str, var: &str) -> PyResult<String> {
-        self.inner.diff_str(formula, var, &[]).map_err(Into::into)
+        raise_callback_errors(|| self.inner.diff_str(formula, var, &[]).map_err(Into::into))
     }
 
     /// Differentiate an expression
@@ -187,10 +149,12 @@ impl PyDiff {
             ));
         };
 
-        self.inner
-            .differentiate(&rust_expr, &sym)
-            .map(super::expr::PyExpr)
-            .map_err(Into::into)
+        raise_callback_errors(|| {
+            self.inner
+                .differentiate(&rust_expr, &sym)
+                .map(super::expr::PyExpr)
+                .map_err(Into::into)
+        })
     }
 }
 
@@ -277,14 +241,16 @@ impl PySimplify {
     /// Simplify an expression
     fn simplify(&self, expr: &Bound<'_, PyAny>) -> PyResult<super::expr::PyExpr> {
         let rust_expr = super::expr::extract_to_expr(expr)?;
-        self.inner
-            .simplify(&rust_expr)
-            .map(super::expr::PyExpr)
-            .map_err(Into::into)
+        raise_callback_errors(|| {
+            self.inner
+                .simplify(&rust_expr)
+                .map(super::expr::PyExpr)
+                .map_err(Into::into)
+        })
     }
 
     /// Simplify a string formula
     fn simplify_str(&self, formula: &str) -> PyResult<String> {
-        self.inner.simplify_str(formula, &[]).map_err(Into::into)
+        raise_callback_errors(|| self.inner.simplify_str(formula, &[]).map_err(Into::into))
     }
 }
diff --git a/src/bindings/python/callback.rs b/src/bindings/python/callback.rs
new file mode 100644
index 0000000..939c27a
--- /dev/null
+++ b/src/bindings/python/callback.rs
@@ -0,0 +1,41 @@
+//! Python callbacks that serve as bodies and partial derivatives of user functions
+
+use super::expr::{PyExpr, extract_to_expr};
+use crate::Expr as RustExpr;
+use pyo3::prelude::*;
+use std::cell::RefCell;
+use std::sync::Arc;
+
+thread_local! {
+    /// First error raised by a callback during the current operation
+    static CALLBACK_ERROR: RefCell<Option<PyErr>> = const { RefCell::new(None) };
+}
+
+/// Call a Python callback with a list of argument expressions.
+///
+/// An error it raises is kept for `raise_callback_errors`, which the operation
+/// that called it is wrapped in.
+pub fn call_expr_callback(callback: &Py<PyAny>, args: &[Arc<RustExpr>]) -> RustExpr {
+    Python::attach(|py| {
+        let py_args: Vec<PyExpr> = args.iter().map(|a| PyExpr((**a).clone())).collect();
+        py_args
+            .into_pyobject(py)
+            .and_then(|list| callback.bind(py).call1((list,)))
+            .and_then(|result| extract_to_expr(&result))
+            .unwrap_or_else(|err| {
+                CALLBACK_ERROR.with_borrow_mut(|first| {
+                    first.get_or_insert(err);
+                });
+                RustExpr::number(f64::NAN)
+            })
+    })
+}
+
+/// Run an operation that may call Python callbacks, and raise the first error
+/// any of them raised.
+pub fn raise_callback_errors<T>(operation: impl FnOnce() -> PyResult<T>) -> PyResult<T> {
+    // A callback may itself run such an operation: keep the errors apart.
+    let outer = CALLBACK_ERROR.take();
+    let result = operation();
+    CALLBACK_ERROR.replace(outer).map_or(result, Err)
+}
diff --git a/src/bindings/python/context.rs b/src/bindings/python/context.rs
index 72ab2bd..fce01b6 100644
--- a/src/bindings/python/context.rs
+++ b/src/bindings/python/context.rs
@@ -2,6 +2,7 @@
 //!
 //! This module provides context management for isolated symbol and function registries.
 
+use super::callback::call_expr_callback;
 use crate::Expr as RustExpr;
 use crate::core::unified_context::Context as RustContext;
 use pyo3::prelude::*;
@@ -105,27 +106,8 @@ impl PyContext {
 
         // Handle optional body function
         if let Some(callback) = body_callback {
-            let body_fn: BodyFn = Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                Python::attach(|py| {
-                    let py_args: Vec<super::expr::PyExpr> = args
-                        .iter()
-                        .map(|a| super::expr::PyExpr((**a).clone()))
-                        .collect();
-                    let Ok(py_list) = py_args.into_pyobject(py) else {
-                        return RustExpr::number(0.0);
-                    };
-
-                    let result = callback.call1(py, (py_list,));
-
-                    result.map_or_else(
-                        |_| RustExpr::number(0.0),
-                        |res| {
-                            res.extract::<super::expr::PyExpr>(py)
-                                .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                        },
-                    )
-                })
-            });
+            let body_fn: BodyFn =
+                Arc::new(move |args: &[Arc<RustExpr>]| call_expr_callback(&callback, args));
             user_fn = user_fn.body_arc(body_fn);
         }
 
@@ -133,27 +115,7 @@ impl PyContext {
         if let Some(callbacks) = partials {
             for (i, callback) in callbacks.into_iter().enumerate() {
                 let partial_fn: PartialDerivativeFn =
-                    Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                        Python::attach(|py| {
-                            let py_args: Vec<super::expr::PyExpr> = args
-                                .iter()
-                                .map(|a| super::expr::PyExpr((**a).clone()))
-                                .collect();
-                            let Ok(py_list) = py_args.into_pyobject(py) else {
-                                return RustExpr::number(0.0);
-                            };
-
-                            let result = callback.call1(py, (py_list,));
-
-                            result.map_or_else(
-                                |_| RustExpr::number(0.0),
-                                |res| {
-                                    res.extract::<super::expr::PyExpr>(py)
-                                        .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                                },
-                            )
-                        })
-                    });
+                    Arc::new(move |args: &[Arc<RustExpr>]| call_expr_callback(&callback, args));
 
                 user_fn = user_fn.partial_arc(i, partial_fn).map_err(|e| {
                     PyErr::new::<pyo3::exceptions::PyValueError, _>(format!("{e:?}"))
diff --git a/src/bindings/python/evaluator.rs b/src/bindings/python/evaluator.rs
index cc25b39..edfbc5c 100644
--- a/src/bindings/python/evaluator.rs
+++ b/src/bindings/python/evaluator.rs
@@ -31,21 +31,22 @@ impl PyCompiledEvaluator {
         params: Option<Vec<String>>,
         context: Option<&super::context::PyContext>,
     ) -> PyResult<Self> {
-        let param_refs: Vec<&str>;
         let rust_context = context.map(|c| &c.inner);
 
-        let evaluator = if let Some(p) = &params {
-            param_refs = p.iter().map(std::string::String::as_str).collect();
-            RustCompiledEvaluator::compile(&expr.0, &param_refs, rust_context)
-        } else {
-            RustCompiledEvaluator::compile_auto(&expr.0, rust_context)
-        };
-
-        evaluator
-            .map(|e| Self {
-                evaluator: Box::new(e),
-            })
-            .map_err(Into::into)
+        super::callback::raise_callback_errors(|| {
+            let evaluator = if let Some(p) = &params {
+                let param_refs: Vec<&str> = p.iter().map(std::string::String::as_str).collect();
+                RustCompiledEvaluator::compile(&expr.0, &param_refs, rust_context)
+            } else {
+                RustCompiledEvaluator::compile_auto(&expr.0, rust_context)
+            };
+
+            evaluator
+                .map(|e| Self {
+                    evaluator: Box::new(e),
+                })
+                .map_err(Into::into)
+        })
     }
 
     /// Evaluate at a single point
diff --git a/src/bindings/python/mod.rs b/src/bindings/python/mod.rs
index e6b4e44..5f393ff 100644
--- a/src/bindings/python/mod.rs
+++ b/src/bindings/python/mod.rs
@@ -39,6 +39,7 @@
 
 // Submodules
 mod builder;
+mod callback;
 mod context;
 mod dual;
 mod error;
-- 
2.43.0


From e0d252d2cae84409b25ad5d95111dc82edc06677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 70/73] fix: eval_f64 mixed up the rows of expressions with
 different numbers of points

---
 src/bindings/python/parallel.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bindings/python/parallel.rs b/src/bindings/python/parallel.rs
index bc7033e..0df3e9c 100644
--- a/src/bindings/python/parallel.rs
+++ b/src/bindings/python/parallel.rs
@@ -233,6 +233,12 @@ pub mod parallel_impl {
 
             let n_exprs = results.len();
             let n_points = results[0].len();
+            if results.iter().any(|row| row.len() != n_points) {
+                return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(
+                    "All expressions must have the same number of points to return a NumPy array; \
+                     pass lists instead",
+                ));
+            }
 
             // Flatten the results into a single contiguous vector
             let flat_results: Vec<f64> = results.into_iter().flatten().collect();
-- 
2.43.0


From 32fbf5e55ecf76a4d15c9d9a89f4515875c30482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 71/73] fix: evaluate_parallel took columns it could not read
 for empty ones

---
 src/bindings/python/parallel.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/bindings/python/parallel.rs b/src/bindings/python/parallel.rs
index 0df3e9c..537ab03 100644
--- a/src/bindings/python/parallel.rs
+++ b/src/bindings/python/parallel.rs
@@ -64,16 +64,16 @@ pub mod parallel_impl {
         // Convert values - supports both lists and NumPy arrays
         let converted_values: Vec<Vec<Vec<Value>>> = values
             .into_iter()
-            .map(|expr_vals| {
+            .map(|expr_vals| -> PyResult<Vec<Vec<Value>>> {
                 let mut expr_is_numeric = true;
                 let converted: Vec<Vec<Value>> = expr_vals
                     .into_iter()
-                    .map(|var_vals| {
+                    .map(|var_vals| -> PyResult<Vec<Value>> {
                         // Try NumPy array first (zero-copy path)
                         if let Ok(arr) = var_vals.extract::<PyReadonlyArray1<f64>>()
                             && let Ok(slice) = arr.as_slice()
                         {
-                            return slice.iter().map(|&n| Value::Num(n)).collect();
+                            return Ok(slice.iter().map(|&n| Value::Num(n)).collect());
                         }
                         // Fallback to Python list with Option<f64>
                         if let Ok(list) = var_vals.extract::<Vec<Option<f64>>>() {
@@ -82,7 +82,7 @@ pub mod parallel_impl {
                                 clippy::option_if_let_else,
                                 reason = "Side-effect in else branch makes map_or_else unsuitable"
                             )]
-                            return list
+                            return Ok(list
                                 .into_iter()
                                 .map(|v| {
                                     if let Some(n) = v {
@@ -92,21 +92,17 @@ pub mod parallel_impl {
                                         Value::Skip
                                     }
                                 })
-                                .collect();
+                                .collect());
                         }
-                        // Try pure f64 list (no None values)
-                        if let Ok(list) = var_vals.extract::<Vec<f64>>() {
-                            return list.into_iter().map(Value::Num).collect();
-                        }
-                        // Empty fallback
-                        expr_is_numeric = false;
-                        vec![]
+                        Err(PyErr::new::<pyo3::exceptions::PyTypeError, _>(
+                            "values must be NumPy arrays or lists of floats and None",
+                        ))
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 is_fully_numeric.push(expr_is_numeric);
-                converted
+                Ok(converted)
             })
-            .collect();
+            .collect::<PyResult<_>>()?;
 
         // Use the hint-based version to skip double-scan
         let results: Vec<Vec<parallel::EvalResult>> = parallel::evaluate_parallel_with_hint(
-- 
2.43.0


From 58166aec0ccd1432e1cd9212207c6af4dc31115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 72/73] fix: Bessel functions of NaN or an infinity looped over
 all orders, minutes for high ones

---
 src/math/bessel.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 0b6669f..659264b 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -17,6 +17,11 @@ pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
     let n_abs = n.saturating_abs();
     let ax = x.abs();
 
+    // The recurrences would only carry NaN through all orders
+    if n_abs > 1 && !x.is_finite() {
+        return Some(T::nan());
+    }
+
     // Special case: J_n(0)
     let threshold = T::from(1e-10).expect("Failed to convert mathematical constant");
     if ax < threshold {
@@ -472,6 +477,11 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
         return T::zero();
     }
 
+    // The recurrence would only carry NaN through all orders
+    if !x.is_finite() {
+        return T::nan();
+    }
+
     // Miller's backward recurrence algorithm
     // Start from a large order N >> n, set I_N = 0, I_{N-1} = 1
     // Recur backward using: I_{k-1} = (2k/x) * I_k + I_{k+1}
-- 
2.43.0


From ae8b96dc8064239831895b14f7b5ef50ee5f7cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:26 +0000
Subject: [PATCH 73/73] fix: derivatives of Bessel functions of the extreme
 orders overflowed

---
 src/math/dual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 0823b36..b0d320b 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -688,8 +688,8 @@ impl<T: MathScalar> Dual<T> {
     /// Panics only if internal invariants are violated (never in normal use with f64).
     pub fn bessel_j(self, n: i32) -> Option<Self> {
         let val = crate::math::bessel_j(n, self.val)?;
-        let jn_minus_1 = crate::math::bessel_j(n - 1, self.val)?;
-        let jn_plus_1 = crate::math::bessel_j(n + 1, self.val)?;
+        let jn_minus_1 = crate::math::bessel_j(n.saturating_sub(1), self.val)?;
+        let jn_plus_1 = crate::math::bessel_j(n.saturating_add(1), self.val)?;
         let two = T::from(2.0).expect("T::from conversion failed");
         let deriv = (jn_minus_1 - jn_plus_1) / two;
         Some(Self::new(val, self.eps * deriv))
-- 
2.43.0

