From 09f53e2f66b45a2ce5d213a82e3b096ff9bd6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 01/21] fix: knot search must not stop at repeated knots other
 than u

The linear search returned the first repeated internal knot it met, even if u
lies in a later knot span. Inserting (or splitting at) such a u placed the knot
out of order and corrupted the curve.
---
 src/curve/knots/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..655137a 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,7 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    if Uk[i] == u {
                         break;
                     }
                 }
@@ -247,7 +247,7 @@ impl Knots {
 
                 while u <= Uk[i - 1] && i > pk {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    if Uk[i] == u {
                         break;
                     }
                 }
-- 
2.43.0


From d5589edef2205e6d756a77856a33980084d00311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 02/21] fix: knot search for RightOrEqual must not index below
 the first knot

For the highest derivative (k = p) the search read index -1 at the domain start.
---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 655137a..2ffba3a 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -245,7 +245,7 @@ impl Knots {
             DomainKnotComparatorType::RightOrEqual => {
                 let mut i = Uk.len() - 1 - pk;
 
-                while u <= Uk[i - 1] && i > pk {
+                while i > pk && u <= Uk[i - 1] {
                     i -= 1;
                     if Uk[i] == u {
                         break;
-- 
2.43.0


From a523ed9690ae74641c179c280ab17d62233e4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 03/21] fix: segments_derivative must not underflow for high
 derivatives

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 2ffba3a..3bdbbb9 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0


From 3bc3a974f06a1db41245f796000f3a48b02868d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 04/21] fix: derivative curves must carry their own derivatives

Evaluating a derivative of, or asking for the maximal derivative of, a curve
obtained from get_derivative_curve panicked.
---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..1d85133 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut curve = Curve { knots, points };
+        curve.calculate_derivatives();
+        curve
     }
 }
 
-- 
2.43.0


From a5423ab6adc3dd263b6dd793358d0c0e614d0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 05/21] fix: prepend_constrained applied the constraints to the
 wrong curves

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 1d85133..f870b54 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From 0958638f252877f3863d6aaf6740e42bf3a69abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 06/21] fix: merging curves of degree p > 2 used derivative
 points of the wrong order

The zeroth order point was stored twice, so that every higher order derivative
point was off by one when unclamping the left curve.
---
 src/manipulation/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..ecba5be 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -492,7 +492,7 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From a303a2f3892dc5af1c1107758c6a999b3bb13f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 07/21] fix: merging must support curves with different numbers
 of segments

The segment count of the left curve was used for the right curve, too, which
panicked or yielded wrong control points.
---
 src/manipulation/merge.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index ecba5be..cd32e42 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -520,19 +520,20 @@ fn adjust_shifted_control_points_of_both_splines(
     Wadjrev: &VecD,
 ) -> (MatD, MatD) {
     let p = a.degree();
-    let n = a.segments();
+    let n_a = a.segments();
+    let n_b = Tshifted.ncols() - 1;
     let dim = a.dimension();
 
     let V0 = a.knots.vector();
 
     // obtain adjusted, shifted control points of the second spline
-    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, n, dim);
+    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, n_a, dim);
 
     // reverse control points of the second spline
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n_b, dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From 3e82cd5bf0dd3f9939d43a326a8b8ccd98380e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 08/21] fix: reject NaN parameters when inserting knots and
 splitting curves

---
 src/manipulation/insert.rs | 2 +-
 src/manipulation/split.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..2a3889d 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,7 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..1e5dc7a 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,7 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From f80b8aec5986c9e09d871c3c9d278d8c543feeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 09/21] fix: fixed-ends fit must reject a too large kappa
 instead of panicking

---
 src/curve/points/methods/fit/fixed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..5cc0402 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -20,6 +20,14 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
+    // Only the `n - 1` internal control points are free and can be penalized.
+    match (knots.segments(), &penalization) {
+        (n, Some(pen)) if n < pen.kappa + 2 => {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa })
+        }
+        _ => {}
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 2954a928bc15255493831f3f2a0ef9a1ea8cd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 10/21] fix: fixed-ends fit with a single segment must not
 panic

---
 src/curve/points/methods/fit/fixed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 5cc0402..cceead5 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -28,6 +28,14 @@ pub fn fit(
         _ => {}
     }
 
+    // There is no internal control point to solve for.
+    if knots.segments() == 1 {
+        let mut control_points = MatD::zeros(points.dimension(), 2);
+        control_points.column_mut(0).copy_from(&points.get(0));
+        control_points.column_mut(1).copy_from(&points.get(points.segments()));
+        return Ok(control_points);
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 02b52b1864b6c996b9ad882b0a81ec7550224d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 11/21] fix: chord length and centripetal parameters must not
 exceed one

Accumulated rounding errors could push the last internal parameter above one,
if the last data points coincide.
---
 src/curve/parameters/methods.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/curve/parameters/methods.rs b/src/curve/parameters/methods.rs
index 68bacf9..f76632d 100644
--- a/src/curve/parameters/methods.rs
+++ b/src/curve/parameters/methods.rs
@@ -38,9 +38,12 @@ pub fn centripetal(points: &DataPoints) -> Parameters {
 
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm().sqrt() / sum;
+        u_bar[g] = u_bar[g - 1] + diff.norm().sqrt();
     }
 
+    // Dividing once keeps the parameters monotonic and below one, despite of rounding.
+    u_bar /= sum;
+
     u_bar[m] = 1.0;
 
     Parameters { vector: u_bar, segments: points.segments() }
@@ -59,9 +62,12 @@ pub fn chord_length(points: &DataPoints) -> Parameters {
     let mut u_bar = VecD::zeros(m + 1);
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm() / sum;
+        u_bar[g] = u_bar[g - 1] + diff.norm();
     }
 
+    // Dividing once keeps the parameters monotonic and below one, despite of rounding.
+    u_bar /= sum;
+
     u_bar[m] = 1f64;
 
     Parameters { vector: u_bar, segments: points.segments() }
-- 
2.43.0


From 6a7bb7c1d707753975aa3591c442738bf23f9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 12/21] fix: de Boor knots with fewer segments than data must
 cover all parameters

The spacing of eq. (9.68) counts the parameters. Counting the control points
instead crowded all internal knots into the first parameters whenever a curve
has fewer control points than data points, leaving knot spans empty.
---
 src/curve/knots/methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index fd42ee1..9127761 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -87,7 +87,8 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
     let internal_knot_count = n - p;
     let internal_knot_spans = internal_knot_count + 1;
 
-    let d = (n + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
+    // The numerator is the number of parameters, which can exceed the number of control points.
+    let d = U_bar.len() as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
 
     let mut U = VecD::zeros(p + n + 2);
 
-- 
2.43.0


From 3cde2e545ad240689ae040c8f77310e332807d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 13/21] fix: merging must keep constrained points when the
 decomposition is inaccurate

The singular value decomposition of the badly scaled system can be off by more
than 1e-6, which moved constrained points and joints visibly. The solution is
refined until its residual does not decrease any further.
---
 src/manipulation/merge.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index cd32e42..8fcf097 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -33,6 +33,9 @@ use crate::{
     types::{MatD, VecD, VecHelpers},
 };
 
+/// The maximum number of refinements of the solution of the linear system of equations.
+const MAX_REFINEMENTS: usize = 20;
+
 pub struct Constraints {
     pub params: Vec<f64>,
 }
@@ -397,7 +400,27 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    SVD::new(Nmat, true, true).solve(&const_mat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose()
+    let rhs = const_mat.transpose();
+    let svd = SVD::new(Nmat.clone(), true, true);
+    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
+
+    let mut shifts = solve(&rhs);
+    let mut residual = &rhs - &Nmat * &shifts;
+
+    // The decomposition can be inaccurate for badly scaled systems, so that constrained points would move.
+    // Therefore, the solution is refined as long as its residual decreases.
+    for _ in 0..MAX_REFINEMENTS {
+        let refined = &shifts + solve(&residual);
+        let refined_residual = &rhs - &Nmat * &refined;
+
+        if refined_residual.norm() >= residual.norm() || refined_residual.norm().is_nan() {
+            break;
+        }
+        shifts = refined;
+        residual = refined_residual;
+    }
+
+    shifts.transpose()
 }
 
 fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, shifts: &MatD) -> (MatD, MatD) {
-- 
2.43.0


From 3c938471e6cc3dcec4ce65a84e79b99b422eef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 14/21] fix: normalizing unclamped knots must rescale all
 derivatives alike

The derivative knot vectors of an unclamped curve have other limits than the
knot vector itself, so that normalizing each on its own disconnected them.
---
 src/curve/knots/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 3bdbbb9..61cae0b 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -155,9 +155,9 @@ impl Knots {
     }
 
     pub fn normalize(&mut self) -> &mut Self {
-        for knots in self.Uk.iter_mut() {
-            normalize(knots);
-        }
+        // The derivative knots of unclamped curves have other limits, but must be rescaled alike.
+        let old_lim = (self.vector().min(), self.vector().max());
+        self.rescale(old_lim, (0.0, 1.0));
         self
     }
 
-- 
2.43.0


From 7b6ccf8c3e039673f85719106a89e1bd079e58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:23 +0000
Subject: [PATCH 15/21] fix: fits must refuse a penalization parameter that is
 not finite

With NaN or infinity, the decomposition of the coefficient matrix never returned.
---
 src/curve/points/methods/fit/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ab60832..38874c1 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -20,7 +20,7 @@ pub enum Method {
 
 #[derive(Error, Debug, PartialEq)]
 pub enum FitError {
-    #[error("The penalization parameter `lambda = {lambda}` cannot be negative.")]
+    #[error("The penalization parameter `lambda = {lambda}` must be finite and cannot be negative.")]
     NegativeLambda { lambda: f64 },
 
     #[error(
@@ -80,7 +80,7 @@ pub fn compute_svd(
 
     match penalization {
         Some(penalization) => match penalization.lambda {
-            l if l < 0.0 => return Err(FitError::NegativeLambda { lambda: l }),
+            l if !(0.0..=f64::MAX).contains(&l) => return Err(FitError::NegativeLambda { lambda: l }),
             l if l > 0.0 && !is_uniform(knots).unwrap() /*TODO refactor errors and eliminate unwrap*/ => return Err(FitError::NonUniformKnots),
             l => {
                 let delta_mat = calculate_finite_difference_matrix(penalization.kappa, knots);
-- 
2.43.0


From 634292f40757116a949a4f8d6d054d11e153bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 16/21] fix: interpolation and fits must be accurate when the
 decomposition is not

The singular value decomposition can be off by more than 1e-6, so that
interpolations missed their data and fits were not optimal. They refine their
solution now like merging does, with a shared helper.
---
 src/curve/points/methods/fit/fixed.rs     |  8 +++---
 src/curve/points/methods/fit/loose.rs     |  9 +++----
 src/curve/points/methods/fit/mod.rs       | 13 +++++++++-
 src/curve/points/methods/interpolation.rs |  8 ++----
 src/manipulation/merge.rs                 | 28 ++-------------------
 src/types.rs                              | 30 ++++++++++++++++++++++-
 6 files changed, 53 insertions(+), 43 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index cceead5..7fdc72d 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -5,11 +5,11 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::fit::{compute_matrix, difference_operator, input_checks, FitError, Penalization},
             DataPoints, Points,
         },
     },
-    types::{MatD, VecD},
+    types::{solve, MatD, VecD},
 };
 
 pub fn fit(
@@ -40,8 +40,8 @@ pub fn fit(
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
+    let mat = compute_matrix(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let internal_control_points = solve(&mat, &Qmat.transpose()).transpose();
 
     let n = knots.segments();
     let m = points.segments();
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 2194e91..534e1c4 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -3,11 +3,11 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::fit::{compute_matrix, difference_operator, input_checks, FitError, Penalization},
             DataPoints, Points,
         },
     },
-    types::MatD,
+    types::{solve, MatD},
 };
 
 pub fn fit(
@@ -20,9 +20,8 @@ pub fn fit(
 
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let mat = Nmat.transpose() * points.matrix().transpose();
-    let control_points = svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose();
+    let mat = compute_matrix(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let control_points = solve(&mat, &(Nmat.transpose() * points.matrix().transpose())).transpose();
 
     Ok(control_points)
 }
diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index 38874c1..e77aa32 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -76,6 +76,17 @@ pub fn compute_svd(
     penalization: &Option<Penalization>,
     calculate_finite_difference_matrix: Box<dyn FnOnce(usize, &Knots) -> MatD>,
 ) -> Result<SVD<f64, Dyn, Dyn>, FitError> {
+    let mat = compute_matrix(knots, Nmat, penalization, calculate_finite_difference_matrix)?;
+
+    Ok(SVD::new(mat, true, true))
+}
+
+fn compute_matrix(
+    knots: &Knots,
+    Nmat: &MatD,
+    penalization: &Option<Penalization>,
+    calculate_finite_difference_matrix: Box<dyn FnOnce(usize, &Knots) -> MatD>,
+) -> Result<MatD, FitError> {
     let mut mat = Nmat.transpose() * Nmat;
 
     match penalization {
@@ -90,7 +101,7 @@ pub fn compute_svd(
         None => {}
     }
 
-    Ok(SVD::new(mat, true, true))
+    Ok(mat)
 }
 
 // finite difference matrix penalizing BSplines
diff --git a/src/curve/points/methods/interpolation.rs b/src/curve/points/methods/interpolation.rs
index a864bc0..05ccd4d 100644
--- a/src/curve/points/methods/interpolation.rs
+++ b/src/curve/points/methods/interpolation.rs
@@ -1,12 +1,10 @@
-use nalgebra::SVD;
-
 use crate::{
     curve::{
         knots::Knots,
         parameters::Parameters,
         points::{DataPoints, Points},
     },
-    types::MatD,
+    types::{solve, MatD},
 };
 
 pub fn interpolate(knots: &Knots, points: &DataPoints, params: &Parameters) -> MatD {
@@ -23,9 +21,7 @@ pub fn interpolate(knots: &Knots, points: &DataPoints, params: &Parameters) -> M
         }
     }
 
-    let svd = SVD::new(Nmat, true, true);
-    let mat = points.matrix().transpose();
-    svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose()
+    solve(&Nmat, &points.matrix().transpose()).transpose()
 }
 
 #[cfg(test)]
diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 8fcf097..01eda76 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -18,7 +18,6 @@ doc = ::embed_doc_image::embed_image!("merge-after-right-start-constrained", "do
 
 use std::ops::{AddAssign, DivAssign, SubAssign};
 
-use nalgebra::SVD;
 use thiserror::Error;
 
 use crate::{
@@ -30,12 +29,9 @@ use crate::{
         Curve, CurveError,
     },
     manipulation::merge::MergeError::CurveGenerationFailure,
-    types::{MatD, VecD, VecHelpers},
+    types::{solve, MatD, VecD, VecHelpers},
 };
 
-/// The maximum number of refinements of the solution of the linear system of equations.
-const MAX_REFINEMENTS: usize = 20;
-
 pub struct Constraints {
     pub params: Vec<f64>,
 }
@@ -400,27 +396,7 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    let rhs = const_mat.transpose();
-    let svd = SVD::new(Nmat.clone(), true, true);
-    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
-
-    let mut shifts = solve(&rhs);
-    let mut residual = &rhs - &Nmat * &shifts;
-
-    // The decomposition can be inaccurate for badly scaled systems, so that constrained points would move.
-    // Therefore, the solution is refined as long as its residual decreases.
-    for _ in 0..MAX_REFINEMENTS {
-        let refined = &shifts + solve(&residual);
-        let refined_residual = &rhs - &Nmat * &refined;
-
-        if refined_residual.norm() >= residual.norm() || refined_residual.norm().is_nan() {
-            break;
-        }
-        shifts = refined;
-        residual = refined_residual;
-    }
-
-    shifts.transpose()
+    solve(&Nmat, &const_mat.transpose()).transpose()
 }
 
 fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, shifts: &MatD) -> (MatD, MatD) {
diff --git a/src/types.rs b/src/types.rs
index bec4c10..a2ea09f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1,4 +1,4 @@
-use nalgebra::{Dyn, Matrix, MatrixView, MatrixViewMut, OMatrix, OVector, Owned, U1};
+use nalgebra::{Dyn, Matrix, MatrixView, MatrixViewMut, OMatrix, OVector, Owned, SVD, U1};
 
 pub type VecD = OVector<f64, Dyn>;
 pub type RowVecD = Matrix<f64, U1, Dyn, Owned<f64, U1, Dyn>>;
@@ -50,6 +50,34 @@ impl VecHelpers for VecD {
     }
 }
 
+/// The maximum number of refinements of the solution of a linear system of equations.
+const MAX_REFINEMENTS: usize = 20;
+
+/// Solves the linear system of equations `mat * x = rhs`.
+///
+/// The singular value decomposition can be inaccurate by more than `1e-6`.
+/// Therefore, the solution is refined as long as its residual decreases.
+pub(crate) fn solve(mat: &MatD, rhs: &MatD) -> MatD {
+    let svd = SVD::new(mat.clone(), true, true);
+    let solve_once = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
+
+    let mut solution = solve_once(rhs);
+    let mut residual = rhs - mat * &solution;
+
+    for _ in 0..MAX_REFINEMENTS {
+        let refined = &solution + solve_once(&residual);
+        let refined_residual = rhs - mat * &refined;
+
+        if refined_residual.norm() >= residual.norm() || refined_residual.norm().is_nan() {
+            break;
+        }
+        solution = refined;
+        residual = refined_residual;
+    }
+
+    solution
+}
+
 #[cfg(test)]
 mod vec_helpers {
     use nalgebra::dvector;
-- 
2.43.0


From edd5a41963f5258bea62c95fbe37746a0c5dd6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 17/21] fix: solving a system that is not finite must return

---
 src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index a2ea09f..a549be0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -58,6 +58,11 @@ const MAX_REFINEMENTS: usize = 20;
 /// The singular value decomposition can be inaccurate by more than `1e-6`.
 /// Therefore, the solution is refined as long as its residual decreases.
 pub(crate) fn solve(mat: &MatD, rhs: &MatD) -> MatD {
+    // The decomposition does not terminate if a coefficient is not finite.
+    if !mat.iter().all(|x| x.is_finite()) {
+        return MatD::from_element(mat.ncols(), rhs.ncols(), f64::NAN);
+    }
+
     let svd = SVD::new(mat.clone(), true, true);
     let solve_once = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
 
-- 
2.43.0


From 01918ffdaa75704a2566ad3aa0ab34bc3800af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 18/21] fix: fits must refuse a penalization parameter whose
 penalty overflows

---
 src/curve/points/methods/fit/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index e77aa32..ebd7bef 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -96,6 +96,11 @@ fn compute_matrix(
             l => {
                 let delta_mat = calculate_finite_difference_matrix(penalization.kappa, knots);
                 mat += l * (delta_mat.transpose() * delta_mat);
+
+                // The weighted differences have to be finite as well.
+                if !mat.iter().all(|x| x.is_finite()) {
+                    return Err(FitError::NegativeLambda { lambda: l });
+                }
             }
         },
         None => {}
-- 
2.43.0


From 405799b807091abde92adcd54fdd0c98d2242801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 19/21] fix: penalized fits of high order must return

---
 src/curve/points/methods/fit/fixed.rs |  2 +-
 src/curve/points/methods/fit/loose.rs |  2 +-
 src/curve/points/methods/fit/mod.rs   | 24 +++++++++++-------------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 7fdc72d..372596d 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -134,7 +134,7 @@ fn calculate_finite_difference_matrix(kappa: usize, knots: &Knots) -> MatD {
 
     for i in 0..=n - kappa - 2 {
         for j in 0..=n - 2 {
-            delta_mat[(i, j)] = difference_operator(i, j, kappa) as f64;
+            delta_mat[(i, j)] = difference_operator(i, j, kappa);
         }
     }
 
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 534e1c4..8dee085 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -51,7 +51,7 @@ fn calculate_finite_difference_matrix(kappa: usize, knots: &Knots) -> MatD {
 
     for i in 0..=n - kappa {
         for j in 0..=n {
-            delta_mat[(i, j)] = difference_operator(i, j, kappa) as f64;
+            delta_mat[(i, j)] = difference_operator(i, j, kappa);
         }
     }
 
diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ebd7bef..637b633 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -110,19 +110,17 @@ fn compute_matrix(
 }
 
 // finite difference matrix penalizing BSplines
-fn difference_operator(i: usize, j: usize, kappa: usize) -> isize {
-    match kappa {
-        1 => {
-            if i == j {
-                return -1;
-            }
-            if i + 1 == j {
-                return 1;
-            }
-            0
-        }
-        k if k > 1 => difference_operator(i + 1, j, k - 1) - difference_operator(i, j, k - 1),
-        _ => 0,
+fn difference_operator(i: usize, j: usize, kappa: usize) -> f64 {
+    if kappa == 0 || j < i || j > i + kappa {
+        return 0.0;
+    }
+
+    // The coefficients are binomial and of alternating sign. Recursion would take `2^kappa` steps.
+    let binomial = (0..j - i).fold(1.0, |c, l| c * (kappa - l) as f64 / (l + 1) as f64);
+    if (kappa - (j - i)) % 2 == 0 {
+        binomial
+    } else {
+        -binomial
     }
 }
 
-- 
2.43.0


From 22399a79858bfcbb417ac9c9a88c0712462cfc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 20/21] fix: the solution of a badly scaled linear system must
 return

---
 src/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index a549be0..ee5271d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -53,6 +53,9 @@ impl VecHelpers for VecD {
 /// The maximum number of refinements of the solution of a linear system of equations.
 const MAX_REFINEMENTS: usize = 20;
 
+/// The maximum number of iterations per singular value, of which a few suffice usually.
+const MAX_ITERATIONS_PER_VALUE: usize = 100;
+
 /// Solves the linear system of equations `mat * x = rhs`.
 ///
 /// The singular value decomposition can be inaccurate by more than `1e-6`.
@@ -63,7 +66,11 @@ pub(crate) fn solve(mat: &MatD, rhs: &MatD) -> MatD {
         return MatD::from_element(mat.ncols(), rhs.ncols(), f64::NAN);
     }
 
-    let svd = SVD::new(mat.clone(), true, true);
+    // Neither does it terminate for every matrix whose coefficients differ by hundreds of orders of magnitude.
+    let max_iterations = MAX_ITERATIONS_PER_VALUE * mat.ncols();
+    let Some(svd) = SVD::try_new(mat.clone(), true, true, 5.0 * f64::EPSILON, max_iterations) else {
+        return MatD::from_element(mat.ncols(), rhs.ncols(), f64::NAN);
+    };
     let solve_once = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
 
     let mut solution = solve_once(rhs);
-- 
2.43.0


From 9826ce04eb19fb1b7b387b0a3202aee3d44e522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 21/21] fix: the solution of a system with negligible
 coefficients could have the wrong sign

---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index ee5271d..ce8bdb3 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -68,7 +68,10 @@ pub(crate) fn solve(mat: &MatD, rhs: &MatD) -> MatD {
 
     // Neither does it terminate for every matrix whose coefficients differ by hundreds of orders of magnitude.
     let max_iterations = MAX_ITERATIONS_PER_VALUE * mat.ncols();
-    let Some(svd) = SVD::try_new(mat.clone(), true, true, 5.0 * f64::EPSILON, max_iterations) else {
+
+    // It may even be wrong then. Coefficients this small do not matter for singular values above the threshold below.
+    let relevant = mat.map(|x| if x.abs() < f64::EPSILON.powi(2) { 0.0 } else { x });
+    let Some(svd) = SVD::try_new(relevant, true, true, 5.0 * f64::EPSILON, max_iterations) else {
         return MatD::from_element(mat.ncols(), rhs.ncols(), f64::NAN);
     };
     let solve_once = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
-- 
2.43.0

