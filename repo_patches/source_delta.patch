From 72b1bae4c77bae59e5632588525d8933c7f09934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 1/5] fix: keep the adaptive solvers' stored time step finite
 when the error is zero

---
 dess/src/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..62e0db0 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step; `dt_coeff` is not finite if the error is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +657,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step; `dt_coeff` is not finite if the error is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From 998ba8f0d2c696be4f09fedd3b726627cd3b221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 2/5] fix: linspace with fewer than two elements

---
 dess/src/traits_and_macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..eb13f12 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,6 +247,10 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
+        if n_elements < 2 {
+            // no interval to divide
+            return vec![start; n_elements];
+        }
         let n_steps = n_elements - 1;
         let step_size = (stop - start) / n_steps as f64;
         let v_norm: Vec<f64> = (0..=n_steps)
-- 
2.43.0


From 6fa899a3d81b79e5b47b98d81b474becea3baa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 3/5] fix: reject forbidden function names also when other
 names are allowed

---
 dess/dess-proc-macros/src/utilities.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/utilities.rs b/dess/dess-proc-macros/src/utilities.rs
index c2c9862..e515b5e 100644
--- a/dess/dess-proc-macros/src/utilities.rs
+++ b/dess/dess-proc-macros/src/utilities.rs
@@ -70,9 +70,8 @@ pub fn parse_ts_as_fn_defs(
                 let sig_str = &item_meth.sig.ident.to_token_stream().to_string();
                 fn_from_attr.extend(item_meth.clone().to_token_stream());
                 // check signature
-                if expected_exclusive
-                    && (forbidden_fn_names.contains(sig_str)
-                        || !expected_fn_names.contains(sig_str))
+                if forbidden_fn_names.contains(sig_str)
+                    || (expected_exclusive && !expected_fn_names.contains(sig_str))
                 {
                     emit_error!(
                         &item_meth.sig.ident.span(),
-- 
2.43.0


From 4288feca2467b7a1df106e95eba726d67540164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 4/5] fix: accept the memo argument that copy.deepcopy passes

---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..25ab33d 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: Option<&PyDict>) -> Self {
                 self.clone()
             }
 
-- 
2.43.0


From de0e4cb7d914a54d7805fa7682f507c9ae74f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 5/5] fix: raise an exception, not a panic, for a malformed
 solver type in Python constructors

---
 dess-examples/src/three_thermal_mass_sys.rs    | 8 ++++----
 dess-examples/src/three_thrml_mass_w_bc_sys.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dess-examples/src/three_thermal_mass_sys.rs b/dess-examples/src/three_thermal_mass_sys.rs
index fdbd5e2..298e9f9 100644
--- a/dess-examples/src/three_thermal_mass_sys.rs
+++ b/dess-examples/src/three_thermal_mass_sys.rs
@@ -12,9 +12,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self { 
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(), 
+    ) -> PyResult<Self> {
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?,
             m1, 
             m2, 
             h12, 
@@ -23,7 +23,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
diff --git a/dess-examples/src/three_thrml_mass_w_bc_sys.rs b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
index 72e720b..007501a 100644
--- a/dess-examples/src/three_thrml_mass_w_bc_sys.rs
+++ b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
@@ -13,9 +13,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self {
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(),
+    ) -> PyResult<Self> {
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?,
             m1,
             m2,
             h12,
@@ -24,7 +24,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
-- 
2.43.0

