From c766510a079359347bc693e59182d8a62724b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 01/42] fix: keep the offset in the median of a symmetric beta
 distribution

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..c9f8818 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            self.a + 0.5 * (self.b - self.a)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From db95eec8a1f61b365da6303aa2b93f5b4be40384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 02/42] fix: evaluate the beta density at the endpoints when a
 shape is one

---
 src/distribution/beta.rs | 12 ++++++++++--
 src/distribution/pert.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index c9f8818..73560a6 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,16 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A shape of one takes its factor out, even where the logarithm is
+            // infinite.
+            let mut ln_density = -self.ln_beta;
+            if self.alpha != 1.0 {
+                ln_density += (self.alpha - 1.0) * x.ln();
+            }
+            if self.beta != 1.0 {
+                ln_density += (self.beta - 1.0) * (-x).ln_1p();
+            }
+            ln_density.exp() / scale
         }
     }
 }
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..4eb3df6 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -75,8 +75,16 @@ impl distribution::Continuous for Pert {
         } else {
             let scale = self.c - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A shape of one takes its factor out, even where the logarithm is
+            // infinite.
+            let mut ln_density = -self.ln_beta;
+            if self.alpha != 1.0 {
+                ln_density += (self.alpha - 1.0) * x.ln();
+            }
+            if self.beta != 1.0 {
+                ln_density += (self.beta - 1.0) * (-x).ln_1p();
+            }
+            ln_density.exp() / scale
         }
     }
 }
-- 
2.43.0


From 8e898c56388da70c6981bebeba9036b3011e548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 03/42] fix: compute the entropy of a categorical distribution
 with empty categories

---
 src/distribution/categorical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From a34abbae2d7cee5d0f3a476555bed5559d444459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 04/42] fix: keep rounding out of the ends of the categorical
 distribution function

---
 src/distribution/categorical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..fc5261b 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -29,6 +29,14 @@ impl Categorical {
         for i in 1..(k - 1) {
             cumsum[i] += cumsum[i - 1];
         }
+        // Rounding should neither push the sums above one nor leave them below
+        // one once nothing remains to be added.
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap_or(0);
+        for (i, sum) in cumsum.iter_mut().enumerate() {
+            if i >= last || *sum > 1.0 {
+                *sum = 1.0;
+            }
+        }
         cumsum[k - 1] = 1.0;
         Categorical {
             k,
-- 
2.43.0


From 4bc54bf5048a2390e69629e4137dfb511553d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 05/42] fix: sample beta distributions with small shapes
 without dividing zero by zero

---
 src/distribution/beta.rs  |  6 ++++++
 src/distribution/gamma.rs | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 73560a6..03dca5d 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -173,6 +173,12 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
+        if self.alpha < 1.0 && self.beta < 1.0 {
+            // Both variates might vanish.
+            let x = gamma::ln_sample(self.alpha, source);
+            let y = gamma::ln_sample(self.beta, source);
+            return self.a + (self.b - self.a) / (1.0 + (y - x).exp());
+        }
         let x = gamma::sample(self.alpha, source);
         let y = gamma::sample(self.beta, source);
         self.a + (self.b - self.a) * x / (x + y)
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..582b561 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -166,6 +166,18 @@ pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     }
 }
 
+/// Draw the logarithm of a sample from the standard Gamma distribution with
+/// `k < 1`, which does not underflow.
+pub fn ln_sample<S: Source>(k: f64, source: &mut S) -> f64 {
+    let x = sample(1.0 + k, source).ln();
+    loop {
+        let u = source.read::<f64>();
+        if u > 0.0 {
+            return x + u.ln() / k;
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
-- 
2.43.0


From 0e5f0bbb75b46a9b5cd57c125db28365f50fc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 06/42] fix: evaluate the gamma density without overflow

---
 src/distribution/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 582b561..e00c016 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_norm: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_norm: k.ln_gamma().0 + k * theta.ln(),
         }
     }
 
@@ -44,10 +44,10 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x <= 0.0 || x == core::f64::INFINITY {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From fb200b358d5655d6f51761609645ee339e3312da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 07/42] fix: evaluate the logistic density far to the left of
 the mean

---
 src/distribution/logistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..c9370ed 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,8 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        // The density is symmetric, and the exponential should not overflow.
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 21e085b8bf2fbfe4e80f2048a97f2af2854f3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 08/42] fix: compute lognormal moments without cancellation

---
 src/distribution/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..5feb452 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -89,7 +89,7 @@ impl distribution::Kurtosis for Lognormal {
     #[inline]
     fn kurtosis(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (4.0 * s2).exp() + 2.0 * (3.0 * s2).exp() + 3.0 * (2.0 * s2).exp() - 6.0
+        (4.0 * s2).exp_m1() + 2.0 * (3.0 * s2).exp_m1() + 3.0 * (2.0 * s2).exp_m1()
     }
 }
 
@@ -127,8 +127,8 @@ impl distribution::Sample for Lognormal {
 impl distribution::Skewness for Lognormal {
     #[inline]
     fn skewness(&self) -> f64 {
-        let es2 = (self.sigma * self.sigma).exp();
-        (es2 - 1.0).sqrt() * (2.0 + es2)
+        let s2 = self.sigma * self.sigma;
+        s2.exp_m1().sqrt() * (2.0 + s2.exp())
     }
 }
 
@@ -136,7 +136,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        s2.exp_m1() * (2.0 * self.mu + s2).exp()
     }
 }
 
-- 
2.43.0


From 01d13b193c84dab446f5310b2980ec4b3ec955b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 09/42] fix: keep the triangular distribution function between
 zero and one

---
 src/distribution/triangular.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..4e7664b 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -73,9 +73,9 @@ impl distribution::Distribution for Triangular {
         } else {
             let diff = b - a;
             if x <= c {
-                (x - a).powi(2) / diff / (c - a)
+                ((x - a) / diff) * ((x - a) / (c - a))
             } else {
-                1.0 - (b - x).powi(2) / diff / (b - c)
+                1.0 - ((b - x) / diff) * ((b - x) / (b - c))
             }
         }
     }
-- 
2.43.0


From 8fe11a9137a29ddff5693faa51ac2d8b329f7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 10/42] fix: compute triangular moments without cancellation

---
 src/distribution/triangular.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 4e7664b..7fa2c0f 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,10 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        // In terms of the differences, which do not cancel far from zero.
+        let (ab, ac, cb) = (b - a, c - a, b - c);
+        let npart = (cb - ac) * (ab + ac) * (ab + cb);
+        let dpart = ab * ab - ac * cb;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +167,8 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        let (ab, ac, cb) = (b - a, c - a, b - c);
+        (ab * ab - ac * cb) / 18.0
     }
 }
 
-- 
2.43.0


From a77346b11365e2d64fa0dd8728d976b43675752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 11/42] fix: evaluate the lognormal density at subnormal
 arguments

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 5feb452..d722ec4 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -54,7 +54,7 @@ impl distribution::Continuous for Lognormal {
             0.0
         } else {
             let &Lognormal { mu, sigma, .. } = self;
-            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (x * sigma * (2.0 * PI).sqrt())
+            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (sigma * (2.0 * PI).sqrt()) / x
         }
     }
 }
-- 
2.43.0


From ab34dd1624b424592305f86472f25ddadb788c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 12/42] fix: give binomial outcomes above the number of trials
 no mass

---
 src/distribution/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..df13405 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -95,6 +95,10 @@ impl distribution::Discrete for Binomial {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
+        if x > self.n {
+            return 0.0;
+        }
+
         let n = self.n as f64;
         if x == 0 {
             (n * self.q.ln()).exp()
-- 
2.43.0


From bf13f12832815003a66055e545a108783480acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 13/42] fix: do not truncate the number of trials in the
 binomial distribution function

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index df13405..a29a5bf 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -130,7 +130,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From 88537dd82a119c984860e54b3bcc4765b3f5f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 14/42] fix: compute the binomial entropy when masses underflow

---
 src/distribution/binomial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a29a5bf..dc76f37 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -149,7 +149,10 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1))
+                .map(|i| self.mass(i))
+                .filter(|&mass| mass > 0.0)
+                .fold(0.0, |sum, mass| sum + mass * mass.ln())
         }
     }
 }
-- 
2.43.0


From d5d52cdf0f82598320bb6f0f311fbf136ac06e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 15/42] fix: keep binomial modes within the support

---
 src/distribution/binomial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index dc76f37..df22be2 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -272,7 +272,8 @@ impl distribution::Modes for Binomial {
         let r = self.p * (self.n + 1) as f64;
         if r == 0.0 {
             vec![0]
-        } else if self.p == 1.0 {
+        } else if r >= (self.n + 1) as f64 {
+            // Either certain or indistinguishable from it.
             vec![self.n]
         } else if (r - r.trunc()) != 0.0 {
             vec![r.floor() as usize]
-- 
2.43.0


From c4925f94f443bc5a52e8a00cff3d1ca39f237fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 16/42] fix: accept the documented domain of binomial
 probabilities

---
 src/distribution/binomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index df22be2..b800785 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -22,7 +22,7 @@ impl Binomial {
     ///
     /// It should hold that `p >= 0` and `p <= 1`.
     pub fn new(n: usize, p: f64) -> Self {
-        should!(0.0 < p && p < 1.0);
+        should!((0.0..=1.0).contains(&p));
         let q = 1.0 - p;
         let np = n as f64 * p;
         let nq = n as f64 * q;
@@ -39,10 +39,10 @@ impl Binomial {
     /// Create a binomial distribution with `n` trails and failure probability
     /// `q`.
     ///
-    /// It should hold that if `q >= 0` or `q <= 1`. This constructor is
+    /// It should hold that `q >= 0` and `q <= 1`. This constructor is
     /// preferable when `q` is very small.
     pub fn with_failure(n: usize, q: f64) -> Self {
-        should!(0.0 < q && q < 1.0);
+        should!((0.0..=1.0).contains(&q));
         let p = 1.0 - q;
         let np = n as f64 * p;
         let nq = n as f64 * q;
-- 
2.43.0


From 78f771846cdc65760e6f7cb568565bff3fdd60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 17/42] fix: correct the normal approximation of binomial
 quantiles

---
 src/distribution/binomial.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index b800785..ec94282 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -214,7 +214,16 @@ impl distribution::Inverse for Binomial {
             }
         } else if self.npq > 80.0 {
             // Use a normal approximation.
-            inverse_normal(self.p, self.np, self.npq, p).floor() as usize
+            let x = inverse_normal(self.p, self.np, self.npq, p).floor() as usize;
+            let x = x.min(self.n);
+            // The expansion might be off by one next to a jump.
+            if x > 0 && self.distribution((x - 1) as f64) >= p {
+                x - 1
+            } else if self.distribution(x as f64) < p {
+                x + 1
+            } else {
+                x
+            }
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
@@ -332,9 +341,11 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     sd * w +
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
-    sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em1 * (
+        w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
+        w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0
+    ) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
-- 
2.43.0


From a87c157ca665003f43666c00b9ea6e1b7d3eae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 18/42] fix: do not sum binomial masses that underflow in
 search of a quantile

---
 src/distribution/binomial.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec94282..ac60d12 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -73,6 +73,21 @@ impl Binomial {
     pub fn q(&self) -> f64 {
         self.q
     }
+
+    // Find the smallest value whose cumulative probability is at least `p`.
+    fn bisect(&self, p: f64) -> usize {
+        use distribution::Distribution;
+        let (mut low, mut high) = (0, self.n);
+        while low < high {
+            let middle = low + (high - low) / 2;
+            if self.distribution(middle as f64) < p {
+                low = middle + 1;
+            } else {
+                high = middle;
+            }
+        }
+        low
+    }
 }
 
 impl distribution::Discrete for Binomial {
@@ -177,9 +192,12 @@ impl distribution::Inverse for Binomial {
         macro_rules! sum_bottom_up(
             ($prod_term: expr) => ({
                 let mut k = 1;
-                let mut a = self.q.powi(self.n as i32);
+                let mut a = self.q.powf(self.n as f64);
                 let mut sum = a - p;
                 while sum < 0.0 {
+                    if a < core::f64::MIN_POSITIVE || k > self.n {
+                        return self.bisect(p);
+                    }
                     a *= $prod_term(k);
                     sum += a;
                     k += 1;
@@ -190,9 +208,12 @@ impl distribution::Inverse for Binomial {
         macro_rules! sum_top_down(
             ($prod_term: expr) => ({
                 let mut k = 1;
-                let mut a = self.p.powi(self.n as i32);
+                let mut a = self.p.powf(self.n as f64);
                 let mut sum = (1.0 - p) - a;
                 while sum >= 0.0 {
+                    if a < core::f64::MIN_POSITIVE || k > self.n {
+                        return self.bisect(p);
+                    }
                     a *= $prod_term(k);
                     sum -= a;
                     k += 1;
-- 
2.43.0


From e99d20b05a89c3f9961e0f979427f415557c99cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 19/42] fix: let binomial quantiles converge in the tails

---
 src/distribution/binomial.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ac60d12..136965b 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -175,9 +175,9 @@ impl distribution::Entropy for Binomial {
 impl distribution::Inverse for Binomial {
     /// Compute the inverse of the cumulative distribution function.
     ///
-    /// For small `n`, a simple summation is utilized. For large `n` and large
+    /// For small `n` or small means, a simple summation is utilized. For large `n` and large
     /// variances, a normal asymptotic approximation is used. Otherwise,
-    /// Newton’s method is employed.
+    /// Newton’s method is employed, with bisection where it does not converge.
     ///
     /// ## References
     ///
@@ -226,7 +226,7 @@ impl distribution::Inverse for Binomial {
             0
         } else if p == 1.0 {
             self.n
-        } else if self.n < 1000 {
+        } else if self.n < 1000 || self.np < 5.0 || self.nq < 5.0 {
             // Find if top-down or bottom-up summation is better.
             if p <= self.distribution((self.n / 2) as f64) {
                 sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
@@ -250,14 +250,20 @@ impl distribution::Inverse for Binomial {
             const ALPHA: f64 = 0.999;
             let mut q = self.modes()[0] as f64;
             let mut alpha = 1.0;
-            loop {
+            while 0.0 <= q && q <= self.n as f64 && alpha > 0.9 {
                 let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
-                    return q as usize;
+                    // Small steps alone do not mean convergence in the tails.
+                    let q = q.floor();
+                    if p <= self.distribution(q + 1.0) && p > self.distribution(q - 1.0) {
+                        return q as usize;
+                    }
+                    break;
                 }
                 q += delta;
                 alpha *= ALPHA;
             }
+            self.bisect(p)
         }
     }
 }
-- 
2.43.0


From c663298f308dc4fed834235a368e4fe0b3212526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 20/42] fix: compute the binomial median where it is not the
 rounded mean

---
 src/distribution/binomial.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 136965b..19d6694 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -284,21 +284,12 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
-        use distribution::Inverse;
-
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
         } else {
-            self.inverse(0.5) as f64
+            self.bisect(0.5) as f64
         }
     }
 }
-- 
2.43.0


From dca3a39bc1e60ce649c7157b6cb5579964a9abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 21/42] fix: do not subtract below zero in binomial quantiles

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 19d6694..92ca644 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -218,7 +218,7 @@ impl distribution::Inverse for Binomial {
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
-- 
2.43.0


From 86f328fd2df545b9dbdc8e2c6f00f07f272e6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 22/42] fix: find binomial quantiles in the far tails

---
 src/distribution/binomial.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 92ca644..69ebb69 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -237,13 +237,20 @@ impl distribution::Inverse for Binomial {
             // Use a normal approximation.
             let x = inverse_normal(self.p, self.np, self.npq, p).floor() as usize;
             let x = x.min(self.n);
-            // The expansion might be off by one next to a jump.
-            if x > 0 && self.distribution((x - 1) as f64) >= p {
+            // The expansion might be off by one next to a jump and by more in the
+            // far tails.
+            let least = |x: usize| {
+                self.distribution(x as f64) >= p
+                    && (x == 0 || self.distribution((x - 1) as f64) < p)
+            };
+            if least(x) {
+                x
+            } else if x > 0 && least(x - 1) {
                 x - 1
-            } else if self.distribution(x as f64) < p {
+            } else if least(x + 1) {
                 x + 1
             } else {
-                x
+                self.bisect(p)
             }
         } else {
             // Use Newton’s method starting at the mode.
-- 
2.43.0


From 1b78dd7174431538b1891617662ecf562f8f31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 23/42] fix: compute logistic quantiles without cancellation

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index c9370ed..bf53707 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -71,7 +71,7 @@ impl distribution::Inverse for Logistic {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.mu - self.s * (1.0 / p - 1.0).ln()
+        self.mu + self.s * (p / (1.0 - p)).ln()
     }
 }
 
-- 
2.43.0


From 10d7a915ca781898ae361a4e85ab3cb5475ecf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 24/42] fix: find beta quantiles by bisection

---
 src/distribution/beta.rs | 27 +++++++++++++++++++++++++--
 src/distribution/pert.rs |  4 ++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 03dca5d..b521a45 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -108,9 +108,8 @@ impl distribution::Entropy for Beta {
 impl distribution::Inverse for Beta {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        self.a + (self.b - self.a) * inverse(p, self.alpha, self.beta, self.ln_beta)
     }
 }
 
@@ -201,6 +200,30 @@ impl distribution::Variance for Beta {
     }
 }
 
+/// Compute the inverse of the regularized incomplete beta function.
+///
+/// Newton’s method might not terminate when the density vanishes. Bisection
+/// over the floating-point numbers between zero and one always does.
+pub(crate) fn inverse(p: f64, alpha: f64, beta: f64, ln_beta: f64) -> f64 {
+    use special::Beta;
+    if p <= 0.0 {
+        return 0.0;
+    }
+    if p >= 1.0 {
+        return 1.0;
+    }
+    let (mut low, mut high) = (0, 1f64.to_bits());
+    while low + 1 < high {
+        let middle = low + (high - low) / 2;
+        if f64::from_bits(middle).inc_beta(alpha, beta, ln_beta) < p {
+            low = middle;
+        } else {
+            high = middle;
+        }
+    }
+    f64::from_bits(high)
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 4eb3df6..db65c6a 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -118,9 +118,9 @@ impl distribution::Entropy for Pert {
 impl distribution::Inverse for Pert {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
+        use distribution::beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.c - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        self.a + (self.c - self.a) * beta::inverse(p, self.alpha, self.beta, self.ln_beta)
     }
 }
 
-- 
2.43.0


From 984771cdacf781e9b9c0cab990376c3f3a93762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 25/42] revert: the binomial modes were within the support
 already

d5d52cd repaired nothing: no parameters take the product beyond n.
---
 src/distribution/binomial.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 69ebb69..7002732 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -306,8 +306,7 @@ impl distribution::Modes for Binomial {
         let r = self.p * (self.n + 1) as f64;
         if r == 0.0 {
             vec![0]
-        } else if r >= (self.n + 1) as f64 {
-            // Either certain or indistinguishable from it.
+        } else if self.p == 1.0 {
             vec![self.n]
         } else if (r - r.trunc()) != 0.0 {
             vec![r.floor() as usize]
-- 
2.43.0


From 317709034137b6c322239305ffa2a67bdfd1f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 26/42] fix: compute the triangular skewness without overflow
 at extreme widths

---
 src/distribution/triangular.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 7fa2c0f..2880712 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,10 +156,11 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        // In terms of the differences, which do not cancel far from zero.
-        let (ab, ac, cb) = (b - a, c - a, b - c);
-        let npart = (cb - ac) * (ab + ac) * (ab + cb);
-        let dpart = ab * ab - ac * cb;
+        // In terms of the differences, which do not cancel far from zero, as
+        // parts of the width, whose powers do not overflow or underflow.
+        let (ac, cb) = ((c - a) / (b - a), (b - c) / (b - a));
+        let npart = (cb - ac) * (1.0 + ac) * (1.0 + cb);
+        let dpart = 1.0 - ac * cb;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
-- 
2.43.0


From 99c446ce23a61188ebe1c9f25d31ff216705454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 27/42] fix: keep the entropy of lognormal distributions finite
 for large mu

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index d722ec4..5aad6d5 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -75,7 +75,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        self.mu + 0.5 + (self.sigma * (2.0 * PI).sqrt()).ln()
     }
 }
 
-- 
2.43.0


From f6914233ca899973c6cd4f272160befa3c040e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 28/42] fix: keep the masses below n when the success
 probability rounds to one

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 7002732..5c95777 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -106,7 +106,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From 3a3a9d8b3e56cd068cff01c18d8db4ca45addb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 29/42] fix: keep the density of Gaussian distributions with
 extreme scales from being NaN

---
 src/distribution/gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 63cb259..8c44798 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -51,7 +51,7 @@ impl Default for Gaussian {
 
 impl distribution::Continuous for Gaussian {
     fn density(&self, x: f64) -> f64 {
-        (-(x - self.mu).powi(2) / (2.0 * self.sigma * self.sigma)).exp() / self.norm
+        (-0.5 * ((x - self.mu) / self.sigma).powi(2)).exp() / self.norm
     }
 }
 
-- 
2.43.0


From 6d8f205f96468b6b1d6758617d6a5ddf33631e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 30/42] fix: keep the entropy of Gaussian distributions with
 extreme scales from overflowing

---
 src/distribution/gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 8c44798..7dcf974 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -69,7 +69,7 @@ impl distribution::Entropy for Gaussian {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::{E, PI};
-        0.5 * (2.0 * PI * E * self.sigma * self.sigma).ln()
+        0.5 * (2.0 * PI * E).ln() + self.sigma.ln()
     }
 }
 
-- 
2.43.0


From 0771225c676e72e6e0dda5d063379c4062561206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 31/42] fix: keep the density of Cauchy distributions with
 extreme scales from being infinite

---
 src/distribution/cauchy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index d56b93d..a297679 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -49,8 +49,15 @@ impl distribution::Continuous for Cauchy {
     #[inline]
     fn density(&self, x: f64) -> f64 {
         use core::f64::consts::PI;
-        let deviation = x - self.x_0;
-        self.gamma / (PI * (self.gamma * self.gamma + deviation * deviation))
+        let deviation = (x - self.x_0).abs();
+        // The squares of the two might overflow or underflow.
+        let (small, large) = if deviation < self.gamma {
+            (deviation, self.gamma)
+        } else {
+            (self.gamma, deviation)
+        };
+        let ratio = small / large;
+        self.gamma / large / (PI * large * (1.0 + ratio * ratio))
     }
 }
 
-- 
2.43.0


From 3b84489321de1d9a4dd7e601dd01495446c17f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 32/42] fix: keep the quantiles of triangular distributions
 with extreme widths from overflowing

---
 src/distribution/triangular.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 2880712..e936974 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -100,9 +100,9 @@ impl distribution::Inverse for Triangular {
         } else {
             let p0 = (c - a) / (b - a);
             if p < p0 {
-                ((b - a) * (c - a) * p).sqrt() + a
+                (b - a) * (p0 * p).sqrt() + a
             } else if p > p0 {
-                b - ((b - a) * (b - c) * (1.0 - p)).sqrt()
+                b - (b - a) * ((b - c) / (b - a) * (1.0 - p)).sqrt()
             } else {
                 c
             }
@@ -128,9 +128,9 @@ impl distribution::Median for Triangular {
     fn median(&self) -> f64 {
         let &Triangular { a, b, c } = self;
         if c >= (a + b) / 2.0 {
-            a + ((b - a) * (c - a) / 2.0).sqrt()
+            a + (b - a) * ((c - a) / (b - a) / 2.0).sqrt()
         } else {
-            b - ((b - a) * (b - c) / 2.0).sqrt()
+            b - (b - a) * ((b - c) / (b - a) / 2.0).sqrt()
         }
     }
 }
-- 
2.43.0


From 55d8f20d68b29e0751cac692dfb392dae48af9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 33/42] fix: keep the variance of lognormal distributions with
 large scales from being NaN

---
 src/distribution/lognormal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 5aad6d5..16d8cee 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -136,7 +136,8 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        s2.exp_m1() * (2.0 * self.mu + s2).exp()
+        let scale = (self.mu + s2).exp();
+        -(-s2).exp_m1() * scale * scale
     }
 }
 
-- 
2.43.0


From 17258be0f0893d48340a305bd16ebdb4e63243ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 34/42] fix: keep the variance of triangular distributions with
 large widths from being NaN

---
 src/distribution/triangular.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index e936974..f1a855b 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -168,8 +168,9 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let (ab, ac, cb) = (b - a, c - a, b - c);
-        (ab * ab - ac * cb) / 18.0
+        // Parts of the width, so that an overflow is not subtracted from another.
+        let (ab, ac, cb) = (b - a, (c - a) / (b - a), (b - c) / (b - a));
+        ab * ab * (1.0 - ac * cb) / 18.0
     }
 }
 
-- 
2.43.0


From e0f2bffc2e97da151e9e768fd1d77ba68bdb4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 35/42] fix: keep the powers of binomial distributions from
 using rounded complements

---
 src/distribution/binomial.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 5c95777..244fd1e 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -116,9 +116,9 @@ impl distribution::Discrete for Binomial {
 
         let n = self.n as f64;
         if x == 0 {
-            (n * self.q.ln()).exp()
+            power(self.q, self.p, n)
         } else if x == self.n {
-            (n * self.p.ln()).exp()
+            power(self.p, self.q, n)
         } else {
             let x = x as f64;
             let n_m_x = n - x;
@@ -145,7 +145,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powf(self.n as f64);
+            return power(self.q, self.p, self.n as f64);
         }
         if x >= self.n {
             return 1.0;
@@ -192,7 +192,7 @@ impl distribution::Inverse for Binomial {
         macro_rules! sum_bottom_up(
             ($prod_term: expr) => ({
                 let mut k = 1;
-                let mut a = self.q.powf(self.n as f64);
+                let mut a = power(self.q, self.p, self.n as f64);
                 let mut sum = a - p;
                 while sum < 0.0 {
                     if a < core::f64::MIN_POSITIVE || k > self.n {
@@ -208,7 +208,7 @@ impl distribution::Inverse for Binomial {
         macro_rules! sum_top_down(
             ($prod_term: expr) => ({
                 let mut k = 1;
-                let mut a = self.p.powf(self.n as f64);
+                let mut a = power(self.p, self.q, self.n as f64);
                 let mut sum = (1.0 - p) - a;
                 while sum >= 0.0 {
                     if a < core::f64::MIN_POSITIVE || k > self.n {
@@ -407,6 +407,15 @@ fn ln_d0(x: f64, np: f64) -> f64 {
     x * (x / np).ln() + np - x
 }
 
+// power(p, q, n) = p^n for p = 1 - q, which is rounded when q is small
+fn power(p: f64, q: f64, n: f64) -> f64 {
+    if q < 0.5 {
+        (n * (-q).ln_1p()).exp()
+    } else {
+        p.powf(n)
+    }
+}
+
 // strilerr(n) = ln(n!) - ln(sqrt(2π * n) * (n / e)^n)
 fn stirlerr(n: f64) -> f64 {
     const S0: f64 = 1.0 / 12.0;
-- 
2.43.0


From 1ab34e5f0b40d53556384a2eadfc4d0467c1ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 36/42] fix: keep the entropy of Bernoulli distributions from
 cancelling for rare outcomes

---
 src/distribution/bernoulli.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/distribution/bernoulli.rs b/src/distribution/bernoulli.rs
index d926db0..0c1f7ee 100644
--- a/src/distribution/bernoulli.rs
+++ b/src/distribution/bernoulli.rs
@@ -84,7 +84,13 @@ impl distribution::Distribution for Bernoulli {
 
 impl distribution::Entropy for Bernoulli {
     fn entropy(&self) -> f64 {
-        -self.q * self.q.ln() - self.p * self.p.ln()
+        // The smaller of the two is not rounded, but its complement is.
+        let (small, large) = if self.p < self.q {
+            (self.p, self.q)
+        } else {
+            (self.q, self.p)
+        };
+        -large * (-small).ln_1p() - small * small.ln()
     }
 }
 
-- 
2.43.0


From 108f139daf9b1e8c30d41101c0cfb9818bcd6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 37/42] fix: keep the lower tail of Gaussian distributions from
 cancelling

---
 src/distribution/gaussian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 7dcf974..874da43 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -61,7 +61,8 @@ impl distribution::Distribution for Gaussian {
     fn distribution(&self, x: f64) -> f64 {
         use core::f64::consts::SQRT_2;
         use special::Error;
-        (1.0 + ((x - self.mu) / (self.sigma * SQRT_2)).error()) / 2.0
+        // The complement does not cancel in the lower tail.
+        ((self.mu - x) / (self.sigma * SQRT_2)).compl_error() / 2.0
     }
 }
 
-- 
2.43.0


From cf0a8b32748778187159613b25cbcbb8561ff97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 38/42] fix: keep the lower tail of Cauchy distributions from
 cancelling

---
 src/distribution/cauchy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index a297679..d137e00 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -67,7 +67,13 @@ impl distribution::Distribution for Cauchy {
     #[inline]
     fn distribution(&self, x: f64) -> f64 {
         use core::f64::consts::FRAC_1_PI;
-        FRAC_1_PI * ((x - self.x_0) / self.gamma).atan() + 0.5
+        let z = (x - self.x_0) / self.gamma;
+        if z < -1.0 {
+            // The sum cancels in the lower tail.
+            FRAC_1_PI * (-z).recip().atan()
+        } else {
+            FRAC_1_PI * z.atan() + 0.5
+        }
     }
 }
 
-- 
2.43.0


From c6836a3b5e42fd7b01215bf5251d7023b991ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 39/42] fix: keep the quantiles of Cauchy distributions from
 saturating in the tails

---
 src/distribution/cauchy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index d137e00..b2a1197 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -95,6 +95,11 @@ impl distribution::Inverse for Cauchy {
             NEG_INFINITY
         } else if 1.0 <= p {
             INFINITY
+        } else if p < 0.25 {
+            // The difference is rounded in the tails.
+            self.x_0 - self.gamma / (PI * p).tan()
+        } else if p > 0.75 {
+            self.x_0 + self.gamma / (PI * (1.0 - p)).tan()
         } else {
             self.x_0 + self.gamma * (PI * (p - 0.5)).tan()
         }
-- 
2.43.0


From 3e5e06d5ea8bb123849dec8e96a23610d22cc8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 40/42] fix: keep the quantiles of triangular distributions
 from cancelling next to the mode

---
 src/distribution/triangular.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f1a855b..4c9ad91 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -101,6 +101,10 @@ impl distribution::Inverse for Triangular {
             let p0 = (c - a) / (b - a);
             if p < p0 {
                 (b - a) * (p0 * p).sqrt() + a
+            } else if p0 < p && p < 0.5 {
+                // The difference below would lose what is close to the mode.
+                let r = (p - p0) / ((b - c) / (b - a));
+                c + (b - c) * (r / (1.0 + (1.0 - r).sqrt()))
             } else if p > p0 {
                 b - (b - a) * ((b - c) / (b - a) * (1.0 - p)).sqrt()
             } else {
-- 
2.43.0


From 48a6a5d2454b0b8cd180a2f53d123d313bf2df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 41/42] fix: keep the gamma distribution function from
 exceeding one

---
 src/distribution/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index e00c016..c485fe3 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -60,7 +60,8 @@ impl distribution::Distribution for Gamma {
         if x <= 0.0 {
             0.0
         } else {
-            (x / self.theta).inc_gamma(self.k)
+            // Rounding should not push the result above one.
+            (x / self.theta).inc_gamma(self.k).min(1.0)
         }
     }
 }
-- 
2.43.0


From 9ab00f53791e48e1edc9d1f3693655cc43c92d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 42/42] fix: evaluate the gamma distribution function beyond
 10^8 scales

---
 src/distribution/gamma.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index c485fe3..8ade846 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -59,6 +59,15 @@ impl distribution::Distribution for Gamma {
         use special::Gamma;
         if x <= 0.0 {
             0.0
+        } else if x / self.theta > 1e8 {
+            // The incomplete gamma function is not evaluated this far. Use the
+            // Wilson–Hilferty approximation.
+            use core::f64::consts::FRAC_1_SQRT_2;
+            use special::Error;
+            let scale = 1.0 / (9.0 * self.k);
+            let x = (x / self.theta / self.k).powf(1.0 / 3.0);
+            let z = (x - (1.0 - scale)) / scale.sqrt();
+            (-z * FRAC_1_SQRT_2).compl_error() / 2.0
         } else {
             // Rounding should not push the result above one.
             (x / self.theta).inc_gamma(self.k).min(1.0)
-- 
2.43.0

