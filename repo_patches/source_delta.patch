From 3de64a3b5b269e817829ec1cd5ace78eb6c0d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:56 +0000
Subject: [PATCH 01/21] fix: keep the tagged type when a smile vol surface is
 read back

The readers for VolByProbabilityFlatSmile and VolByProbabilityCubicSplineSmile
returned the inner untagged surface. Writing such a surface out again
panicked, because the inner type has no type id.
---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 48b2ced..278b90d 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -800,7 +800,7 @@ impl VolByProbabilityFlatSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityFlatSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
@@ -854,7 +854,7 @@ impl VolByProbabilityCubicSplineSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<CubicSplineSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
-- 
2.43.0


From c9032f4075b0bec241ce06f2e03d7a81bc1468a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:56 +0000
Subject: [PATCH 02/21] fix: register the flat-smile vol surface for
 deserialization

VolByProbabilityFlatSmile is written with its own type id, but that id was
missing from the registry, so the surface could never be read back.
---
 src/data/volsurface.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 278b90d..b04059d 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -250,6 +250,7 @@ pub fn get_registry() -> &'static TypeRegistry {
         static ref REG: TypeRegistry = {
             let mut reg = TypeRegistry::new();
             reg.insert("FlatVolSurface", BoxFnSeed::new(FlatVolSurface::from_serial));
+            reg.insert("VolByProbabilityFlatSmile", BoxFnSeed::new(VolByProbabilityFlatSmile::from_serial));
             reg.insert("VolByProbabilityCubicSplineSmile", BoxFnSeed::new(VolByProbabilityCubicSplineSmile::from_serial));
             reg.insert("ConstantExpiryTimeEvolution", BoxFnSeed::new(ConstantExpiryTimeEvolution::from_serial));
             reg.insert("RollingExpiryTimeEvolution", BoxFnSeed::new(RollingExpiryTimeEvolution::from_serial));
-- 
2.43.0


From 402b6c24f11ee09a6e96d87db7603b8d18ab8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:04 +0000
Subject: [PATCH 03/21] fix: bump the dividend yield by one plus the relative
 size

A relative dividend bump scaled the cash and relative dividends by one plus
the bump, but multiplied the dividend yield curve by the bump itself. A zero
bump therefore wiped out the dividend yield.
---
 src/data/divstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f1a45c8..03a0c33 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -113,7 +113,7 @@ impl DividendStream {
            div.bump_all_relative(one_plus_bump);
         }
 
-        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), bump))); 
+        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), one_plus_bump))); 
 
         DividendStream {
             dividends: bumped_divs,
-- 
2.43.0


From 564ce820140e56b7823cc5e0b833c0ca438f160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:11 +0000
Subject: [PATCH 04/21] fix: record each forward only once per credit entity

Declaring the same forward curve twice listed its id twice under the credit
entity. A yield curve bump then refetched that forward twice and saved the
already bumped curve over the original, so restoring did not undo the bump.
---
 src/risk/dependencies.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 12719a4..1727013 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -151,7 +151,9 @@ impl DependencyContext for DependencyCollector {
             // this brace to avoid multiple mutable borrow
             let forward_ids = self.forward_id_from_credit_id.entry(
                 credit_id.to_string()).or_insert(Vec::<String>::new());
-            forward_ids.push(instrument.id().to_string());
+            if !forward_ids.iter().any(|id| id == instrument.id()) {
+                forward_ids.push(instrument.id().to_string());
+            }
         }
 
         // and add a dependency on this spot (this adds the instrument)
-- 
2.43.0


From 9e60eaaf0b198192ba6f73d97328188c23c2ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:39 +0000
Subject: [PATCH 05/21] fix: displace the strike of an option the same way as
 its forward

With fixed cash dividends the forward was reduced by the displacement but the
strike was increased by it, so the analytic price of the option disagreed with
its simulated price and with its payoff. Both are now reduced. A strike below
the displacement is reported as an error, as a negative forward already is.
---
 src/instruments/options.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 449b0e9..c9ce6c3 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -114,11 +114,14 @@ impl VanillaOption {
         // For some div assumptions, we must displace the forward and strike.
         // (This errors for JumpDivs, which we do not currently handle.)
         let displacement = vol.displacement(self.expiry.date())?;
-        let k = strike + displacement;
+        let k = strike - displacement;
         let f = forward - displacement;
         if f < 0.0 {
             return Err(qm::Error::new("Negative forward"));
         }
+        if k < 0.0 {
+            return Err(qm::Error::new("Strike below the displacement"));
+        }
 
         // price the option using the Black76 formula
         let black76 = Black76::new()?;
-- 
2.43.0


From d7b79fa24a581da03bf7227440c5e49e1efcc32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:46 +0000
Subject: [PATCH 06/21] fix: apply the Cholesky factor to the draws
 untransposed

The factor was copied column by column into an array stored row by row,
so simulated assets had neither unit variance nor the requested
correlations as soon as there were two of them.
---
 src/models/blackdiffusion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 352e041..da44e0f 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -342,8 +342,8 @@ pub fn fetch_correlated_gaussians(
     let rootd = Cholesky::new(correld).ok_or_else(|| qm::Error::new(
         "Correlation matrix is not positive semi-definite"))?;
 
-    // convert back to an Array2
-    let root_slice = rootd.unpack().as_slice().to_vec();
+    // convert back to an Array2 (DMatrix is stored by column, Array2 by row)
+    let root_slice = rootd.unpack().transpose().as_slice().to_vec();
     let root = Array::from_shape_vec((n_assets, n_assets), root_slice)?;
 
     // Use the standard library random number generator for now. (Look
-- 
2.43.0


From 7b894452730c7c0b9c66a2e41ff920ca4ff963da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:04 +0000
Subject: [PATCH 07/21] fix: keep the recorded fixings when a second curve for
 the same id is refused

---
 src/data/fixings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/fixings.rs b/src/data/fixings.rs
index b39a259..e24ced8 100644
--- a/src/data/fixings.rs
+++ b/src/data/fixings.rs
@@ -55,9 +55,10 @@ impl FixingTable {
     /// Adds a fixings curve
     pub fn insert(&mut self, id: &str, fixings: Fixings) 
         -> Result<(), qm::Error> {
-        if let Some(_) = self.fixings_by_id.insert(id.to_string(), fixings) {
+        if self.fixings_by_id.contains_key(id) {
             return Err(duplicate_fixing_curve(id))
         }
+        self.fixings_by_id.insert(id.to_string(), fixings);
         Ok(())
     }
 
-- 
2.43.0


From 7bacc9a9536dea9e26310e6a4974775e33f1f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:13 +0000
Subject: [PATCH 08/21] fix: refuse a fixing curve that is read with two values
 for the same time

---
 src/data/fixings.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/fixings.rs b/src/data/fixings.rs
index e24ced8..97929b5 100644
--- a/src/data/fixings.rs
+++ b/src/data/fixings.rs
@@ -166,7 +166,7 @@ pub struct Fixings {
 mod map_as_pairs {
     use std::fmt;
     use serde::ser::Serializer;
-    use serde::de::{Deserializer, Visitor, SeqAccess};
+    use serde::de::{Deserializer, Error, Visitor, SeqAccess};
     use std::collections::HashMap;
     use dates::datetime::DateTime;
 
@@ -198,7 +198,9 @@ mod map_as_pairs {
                 loop {
                     let next : Option<(DateTime, f64)> = seq.next_element()?;
                     if let Some((k, v)) = next {
-                        map.insert(k, v);
+                        if map.insert(k, v).is_some() {
+                            return Err(Error::custom(format!("Duplicate fixing at {}", k)));
+                        }
                     } else {
                         break;
                     }
-- 
2.43.0


From b400a3633c3d94a2aeb1bc063cc430eb5a157d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:47 +0000
Subject: [PATCH 09/21] fix: take forward variance at the money from the right
 dates

The smile branch measured both variances on the starting date, each at the
other date's forward. It now subtracts the variance at the starting date,
at that date's forward, from the variance at the final date, at its forward.
---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index b04059d..61c3c06 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -141,8 +141,8 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             // at the from and to dates
             let from_forward = forward.interpolate(from.date())?;
             let to_forward = forward.interpolate(to.date())?;
-            let from_var = self.variance(from, to_forward)?;
-            let to_var = self.variance(from, from_forward)?;
+            let from_var = self.variance(from, from_forward)?;
+            let to_var = self.variance(to, to_forward)?;
             let fwd_atm_var = to_var - from_var;
             if fwd_atm_var < 0.0 {
                 return Err(qm::Error::new("Negative atm forward variance"))
-- 
2.43.0


From 47719272e46124102c4c124f308a7374d4b58e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:11 +0000
Subject: [PATCH 10/21] fix: choose extrapolation to the right by the
 right-hand rule

Beyond the last point, natural extrapolation was chosen when the left-hand
rule was natural. A natural right-hand rule was refused and any other one
was ignored, unless both sides had the same rule.
---
 src/math/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index aca5724..7f4bb38 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -145,7 +145,7 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
                 left.extrapolate(points[0].1)
             }
         } else if i >= points.len() {
-            if left.is_natural() && n > 1 {
+            if right.is_natural() && n > 1 {
                 linear_interpolate(points[n-2], points[n-1], x)
             } else {
                 right.extrapolate(points[n-1].1)
@@ -296,7 +296,7 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                     self.inputs.left.extrapolate(self.inputs.points[0].1)
                 }
             } else if i >= n {
-                if self.inputs.left.is_natural() && n > 1 {
+                if self.inputs.right.is_natural() && n > 1 {
                     nr_splint(self.inputs.points[n-2], self.inputs.points[n-1],
                         self.second_deriv[n-2], self.second_deriv[n-1], x)
                 } else {
-- 
2.43.0


From 579375644da67359e9e6f79c7e117845f08002d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:02 +0000
Subject: [PATCH 11/21] fix: let a bump of the zero rate curve act

The zero rate curve reported no time to any date, so a bump of its rate was
multiplied by zero and left every discount factor at one.
---
 src/data/curves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 4f08c6c..c18ad58 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -98,8 +98,9 @@ impl TypeId for ZeroRateCurve {
 }
 
 impl RateCurve for ZeroRateCurve {
-    fn r_and_t(&self, _date: Date) -> Result<(f64, f64), qm::Error> { 
-        Ok((0.0, 0.0)) 
+    fn r_and_t(&self, date: Date) -> Result<(f64, f64), qm::Error> { 
+        // Act/365 basis, so that a bump of this curve has a time to act on
+        Ok((0.0, ((date - self.base) as f64) / 365.0)) 
     }
     fn base_date(&self) -> Date { self.base }
     fn is_zero(&self) -> bool { true }
-- 
2.43.0


From ab480921ed7dad5aca7ae4e9ddad51b57aa3d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:26 +0000
Subject: [PATCH 12/21] fix: solve for the curvature at the first point of a
 spline

The back-substitution stopped short of the first point. With a left end
that is not natural, its curvature kept a temporary value, so the spline
had neither a flat left end nor a continuous slope.
---
 src/math/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 7f4bb38..c104174 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -404,7 +404,7 @@ fn nr_spline<T : Interpolable<T> + Copy>(
 
     // the backsubstitution loop of the tridiagonal algorithm
     y2[n-1] = (un - qn * u[n-2]) / (qn * y2[n-2] + 1.0);
-    for i in (1..n-1).rev() {
+    for i in (0..n-1).rev() {
         y2[i] = y2[i] * y2[i+1] + u[i];
     }
 }
-- 
2.43.0


From 4a817572799e024842a0264507839aa787969050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:47 +0000
Subject: [PATCH 13/21] fix: refuse a spline that is read with unsuitable
 points

Points read from a file were not checked as they are in the constructor.
Unordered points gave a spline with wrong values, and fewer than two points
stopped the program.
---
 src/math/interpolation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index c104174..1119793 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -6,6 +6,7 @@ use serde::Deserialize;
 use serde::Deserializer;
 use serde::Serialize;
 use serde::Serializer;
+use serde::de::Error;
 use core::qm;
 
 /// To use interpolation, the types along the x axis must be Interpolable
@@ -346,6 +347,11 @@ where T : Interpolable<T> + Deserialize<'de> + Copy {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where D: Deserializer<'de> {
         let inputs = CubicSplineInputs::deserialize(deserializer)?;
+        if inputs.points.len() < 2 {
+            return Err(D::Error::custom("Cubic spline interpolator requires \
+                at least 2 points"))
+        }
+        validate_abscissae(&inputs.points).map_err(D::Error::custom)?;
 
         let mut second_deriv = vec![0.0; inputs.points.len()];
         let deriv_0 = if inputs.left.is_natural() { INFINITY } else { 0.0 };
-- 
2.43.0


From 71e9fea11ca9a72087c3659ef2fc1fb305b0c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:02 +0000
Subject: [PATCH 14/21] fix: refuse linear interpolation that is read with
 unsuitable points

Points read from a file were not checked as they are in the constructor, so
unordered points were looked up by bisection and gave wrong values.
---
 src/math/interpolation.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 1119793..1fd072b 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -221,13 +221,30 @@ impl<T : Interpolable<T> + Copy> FlyweightInterpolate<T>
 
 /// Non-flyweight linear interpolation. In this interpolator, the data is
 /// kept internally, and passed into the constructor.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize)]
 pub struct Linear<T> where T : Interpolable<T> {
     left: Extrap,
     right: Extrap,
     points: Vec<(T, f64)>
 }
 
+#[derive(Deserialize)]
+struct LinearInputs<T> where T : Interpolable<T> {
+    left: Extrap,
+    right: Extrap,
+    points: Vec<(T, f64)>
+}
+
+impl<'de, T> Deserialize<'de> for Linear<T> 
+where T : Interpolable<T> + Deserialize<'de> + Copy {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: Deserializer<'de> {
+        let inputs = LinearInputs::deserialize(deserializer)?;
+        Linear::new(&inputs.points, inputs.left, inputs.right)
+            .map_err(D::Error::custom)
+    }
+}
+
 impl<T : Interpolable<T> + Copy> Interpolate<T> for Linear<T> {
     fn interpolate(&self, x: T) -> Result<f64, qm::Error> {
         linear_interpolate_extrapolate(
-- 
2.43.0


From 7fcb15a4ab1a8091b08a59f073b57dda4b5b2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:50 +0000
Subject: [PATCH 15/21] fix: report a panic while freeing a handle without
 risking another

eprint! panics when stderr cannot be written, and here it runs outside
catch_unwind, so the panic would reach the C caller.
---
 src/facade/c_interface.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/facade/c_interface.rs b/src/facade/c_interface.rs
index 2501de8..e5cad75 100644
--- a/src/facade/c_interface.rs
+++ b/src/facade/c_interface.rs
@@ -1,7 +1,9 @@
 use std::ffi::CStr;
 use std::str;
 use std::fs::File;
+use std::io;
 use std::io::Cursor;
+use std::io::Write;
 use std::ffi::CString;
 use std::error::Error;
 use std::panic::catch_unwind;
@@ -391,7 +393,8 @@ pub extern "C" fn qm_free_handle(handle: u64) {
     // we cannot assume that free_handle never panics. A drop method could
     // panic
     if let Err(_) = catch_unwind(|| eh::free_handle(handle)) {
-        eprint!("Caught panic during qm_free_handle");
+        // unlike eprint!, this cannot itself panic if stderr is closed
+        let _ = io::stderr().write_all(b"Caught panic during qm_free_handle");
     }
 }
 
-- 
2.43.0


From 025ef555b61f794a1d164cac6e06ac7a9a6519fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:50 +0000
Subject: [PATCH 16/21] fix: refuse a function value that is not a number in
 zbrent

A NaN passed the bracketing test, and at the upper end it was returned
as a root straight away.
---
 src/math/brent.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/math/brent.rs b/src/math/brent.rs
index db9c35f..64a1f7a 100644
--- a/src/math/brent.rs
+++ b/src/math/brent.rs
@@ -13,6 +13,15 @@ pub fn zbrent<F>(x1: f64, x2: f64, tol: f64, max_iter: u32, func: &mut F)
     -> Result<f64, qm::Error>
     where F: FnMut(f64) -> Result<f64, qm::Error> {
     
+    // a value that is not a number has no sign, so it cannot bracket a root
+    let mut func = |x: f64| {
+        let y = func(x)?;
+        if y.is_nan() {
+            return Err(qm::Error::new("Function is not a number in zbrent"))
+        }
+        Ok(y)
+    };
+
     let mut a = x1;
     let mut b = x2;
     let mut c = x2;
-- 
2.43.0


From 6c8b77e641add70c885a4398bcdde892276e09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:50 +0000
Subject: [PATCH 17/21] fix: restore the sharing table when the work inside its
 scope panics

---
 src/core/dedup.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/dedup.rs b/src/core/dedup.rs
index a58692a..2c94977 100644
--- a/src/core/dedup.rs
+++ b/src/core/dedup.rs
@@ -6,6 +6,7 @@ use std::fmt::Debug;
 use std::ops::Deref;
 use std::thread::LocalKey;
 use std::mem::swap;
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::marker::PhantomData;
 use std::marker::Sized;
 use serde as sd;
@@ -46,7 +47,8 @@ where
             swap(&mut *s.borrow_mut(), self);
         });
 
-        let result = f();
+        // a panic must not leave our state in force, so hold it until the state is restored
+        let result = catch_unwind(AssertUnwindSafe(f));
 
         // by swapping in and out of our own member variables, we save the state of the
         // thread-local variable, as well as providing our own state to the serialize
@@ -55,7 +57,10 @@ where
             swap(&mut *s.borrow_mut(), self);
         });
 
-        result
+        match result {
+            Ok(result) => result,
+            Err(panic) => resume_unwind(panic)
+        }
     }
 
     pub fn control(&self) -> &DedupControl { &self.control }
-- 
2.43.0


From 746427743646b4e1927b7fd2c3c892cf888bd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:09 +0000
Subject: [PATCH 18/21] fix: refuse malformed dates instead of panicking or
 taking another day

---
 src/dates/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 1447c0a..8344015 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -106,6 +106,9 @@ impl FromStr for Date {
         // which would allow me to parse the string without any heap
         // access or intermediate objects.
         let ymd: Vec<&str> = s.split("-").collect();
+        if ymd.len() != 3 {
+            return Err(qm::Error::new(s))
+        }
 
         let mut array: [i32; 3] = [0; 3];
         for (i, elem) in array.iter_mut().enumerate() {
@@ -115,10 +118,14 @@ impl FromStr for Date {
             };
         }
 
-        // this call does no validation, so we check the resulting date
-        // before returning it
-        let result = Date::from_ymd(array[0], array[1], array[2]);
-        if !result.is_valid() {
+        // this call does no validation, and overflows for absurd years, so we
+        // check what goes in and the resulting date before returning it
+        let (y, m, d) = (array[0], array[1], array[2]);
+        if y < 0 || y > 9999 || m < 1 || m > 12 || d < 1 || d > 31 {
+            return Err(qm::Error::new(s))
+        }
+        let result = Date::from_ymd(y, m, d);
+        if !result.is_valid() || result.ymd() != (y, m, d) {
             return Err(qm::Error::new(s))
         }
 
-- 
2.43.0


From e2077caf9981516afe8395016cd8de7bca34ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:34:01 +0000
Subject: [PATCH 19/21] fix: report the cash dividends still to come after a
 date

The remaining cash was computed from its own placeholder, so it was never
a number. For a date between two dividends it was read from the next
dividend, which leaves that dividend out.
---
 src/data/divstream.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 03a0c33..c9df17f 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -288,7 +288,7 @@ impl DividendBootstrap {
                 discounted_cash;
             for acc in accumulation.iter_mut().rev() {
                 acc.discounted_cash_remaining = 
-                    final_discounted_cash - acc.discounted_cash_remaining;
+                    final_discounted_cash - acc.discounted_cash;
             }
         }
 
@@ -403,12 +403,11 @@ impl DividendBootstrap {
             // if we found it, return the remaining cash at this div
             Ok(i) => Ok(self.accumulation[i].discounted_cash_remaining),
 
-            // If we missed and it was after the last date, return zero.
-            // This also catches the case where there are no dividends
-            Err(i) => if i == self.accumulation.len() { Ok(0.0) } else {
-
-                // otherwise, return the remaining cash at the next div
-                Ok(self.accumulation[i].discounted_cash_remaining)
+            // if we missed, return the remaining cash at the previous div, or
+            // before the base date all of it. There may be no dividends.
+            Err(i) => match self.accumulation.get(if i == 0 { 0 } else { i - 1 }) {
+                Some(acc) => Ok(acc.discounted_cash_remaining),
+                None => Ok(0.0)
             }
         }
     }
-- 
2.43.0


From fad351c38ba5281f5eb1ae4420174e6c94b98e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:34:01 +0000
Subject: [PATCH 20/21] fix: do not count a dividend that goes ex on the base
 date

Dividends count from, and not including, the base date. One on the base
date was counted, but only if a later dividend followed it.
---
 src/data/divstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index c9df17f..115c041 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -228,8 +228,8 @@ impl DividendBootstrap {
 
         for dividend in div_stream.dividends.iter() {
             let ex_date = dividend.ex_date;
-            if ex_date < base_date {
-                // quietly ignore dividends before the base date
+            if ex_date <= base_date {
+                // quietly ignore dividends up to the base date
                 continue;
             } else if ex_date < prev_ex_date {
                 return Err(qm::Error::new("Dividends not in ex date order"))
-- 
2.43.0


From 1b9bd5936e674ce38e2acbcc5d096613f1a6d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:55:39 +0000
Subject: [PATCH 21/21] fix: refuse a day fraction out of range when it is read

---
 src/dates/datetime.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/dates/datetime.rs b/src/dates/datetime.rs
index d9bb2ea..89b24c2 100644
--- a/src/dates/datetime.rs
+++ b/src/dates/datetime.rs
@@ -5,6 +5,8 @@ use std::ops::Add;
 use std::ops::AddAssign;
 use std::fmt::Display;
 use std::fmt;
+use serde::{Deserialize, Deserializer};
+use serde::de::Error;
 
 /// We define some commonly used times of day. These map to different amounts
 /// of volatility day_fraction depending on the exchange etc.
@@ -80,12 +82,29 @@ impl Display for DateTime {
 /// volatility time of the current day. Vol time is a monotonic function of
 /// real time, but certainly not a linear one, and it varies depending on the
 /// location and even the underlier.
-#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Serialize, Deserialize)]
+#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Serialize)]
 pub struct DateDayFraction {
     date: Date,
     day_fraction: f64
 }
 
+#[derive(Deserialize)]
+struct DateDayFractionInputs {
+    date: Date,
+    day_fraction: f64
+}
+
+impl<'de> Deserialize<'de> for DateDayFraction {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: Deserializer<'de> {
+        let inputs = DateDayFractionInputs::deserialize(deserializer)?;
+        if !(inputs.day_fraction >= 0.0 && inputs.day_fraction < 1.0) {
+            return Err(D::Error::custom("Day fraction must be at least zero and less than one"))
+        }
+        Ok(DateDayFraction::new(inputs.date, inputs.day_fraction))
+    }
+}
+
 impl DateDayFraction {
     pub fn new(date: Date, day_fraction: f64) -> DateDayFraction {
         assert!(day_fraction >= 0.0 && day_fraction < 1.0);
-- 
2.43.0

