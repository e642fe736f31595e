From 16d3697686eb70c0801f92e788ca6645b4239df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 01/19] fix: replace the hot start checkpoint atomically

A process killed while the checkpoint was written left a truncated file
which made any further restart fail. A checkpoint that cannot be created
(full disk...) is now reported as an error instead of a panic.
---
 crates/ego/src/utils/atomic_file.rs | 32 +++++++++++++++++++++++++++++
 crates/ego/src/utils/hot_start.rs   |  6 +++---
 crates/ego/src/utils/mod.rs         |  1 +
 3 files changed, 36 insertions(+), 3 deletions(-)
 create mode 100644 crates/ego/src/utils/atomic_file.rs

diff --git a/crates/ego/src/utils/atomic_file.rs b/crates/ego/src/utils/atomic_file.rs
new file mode 100644
index 0000000..01eb3c5
--- /dev/null
+++ b/crates/ego/src/utils/atomic_file.rs
@@ -0,0 +1,32 @@
+use std::ffi::OsString;
+use std::fs::{self, File};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+
+/// Temporary file used to write `path`, located in the same directory
+fn temp_path(path: &Path) -> PathBuf {
+    let mut name = path
+        .file_name()
+        .map_or_else(OsString::new, |name| name.to_os_string());
+    name.push(".tmp");
+    path.with_file_name(name)
+}
+
+/// Replace the content of the file at `path` with `bytes`.
+///
+/// The content is first written and synced in a temporary file which is then renamed,
+/// hence whenever the process is interrupted the file at `path` is either
+/// the previous one or the new one, and it is left untouched when an error is returned.
+pub(crate) fn write_file<P: AsRef<Path>>(path: P, bytes: &[u8]) -> io::Result<()> {
+    let path = path.as_ref();
+    let temp = temp_path(path);
+    let written = File::create(&temp).and_then(|mut file| {
+        file.write_all(bytes)?;
+        file.sync_all()
+    });
+    written
+        .and_then(|_| fs::rename(&temp, path))
+        .inspect_err(|_| {
+            let _ = fs::remove_file(&temp);
+        })
+}
diff --git a/crates/ego/src/utils/hot_start.rs b/crates/ego/src/utils/hot_start.rs
index 3d75cee..b424038 100644
--- a/crates/ego/src/utils/hot_start.rs
+++ b/crates/ego/src/utils/hot_start.rs
@@ -2,10 +2,10 @@ use argmin::core::Error;
 pub use argmin::core::checkpointing::{Checkpoint, CheckpointingFrequency};
 use log::info;
 use serde::{Deserialize, Serialize, de::DeserializeOwned};
-use std::io::Write;
 use std::path::PathBuf;
 
 use crate::EgorState;
+use crate::utils::atomic_file::write_file;
 
 /// Checkpoint file using argmin checkpointing
 pub const CHECKPOINT_FILE: &str = "egor_checkpoint.json";
@@ -93,12 +93,12 @@ where
             std::fs::create_dir_all(&self.directory)?
         }
         let fname = self.directory.join(&self.filename);
-        let mut file = std::fs::File::create(fname).unwrap();
 
         // let bytes = bincode::serde::encode_to_vec((solver, state), bincode::config::standard())?;
         let bytes = serde_json::to_vec(&(solver, state))?;
 
-        file.write_all(&bytes)?;
+        // The previous checkpoint is replaced atomically to be always able to restart
+        write_file(fname, &bytes)?;
         Ok(())
     }
 
diff --git a/crates/ego/src/utils/mod.rs b/crates/ego/src/utils/mod.rs
index 96d8826..25c429f 100644
--- a/crates/ego/src/utils/mod.rs
+++ b/crates/ego/src/utils/mod.rs
@@ -1,3 +1,4 @@
+pub(crate) mod atomic_file;
 mod bounds;
 mod cstr_pof;
 mod find_result;
-- 
2.43.0


From 8145b869e48b7554786d17c15b5ba907823268fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 02/19] fix: write result files atomically and report their
 errors

DOE, initial DOE, history and configuration files were truncated before
being rewritten: a process killed meanwhile left unreadable files, which made
the warm start fail, and a write error made the optimization panic.
---
 crates/ego/src/egor.rs               |  8 ++++----
 crates/ego/src/solver/egor_solver.rs |  5 +++--
 crates/ego/src/utils/atomic_file.rs  | 19 +++++++++++++++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/crates/ego/src/egor.rs b/crates/ego/src/egor.rs
index 31da127..9028c5f 100644
--- a/crates/ego/src/egor.rs
+++ b/crates/ego/src/egor.rs
@@ -107,6 +107,7 @@ use crate::HotStartMode;
 use crate::errors::Result;
 use crate::gpmix::mixint::*;
 use crate::types::*;
+use crate::utils::atomic_file::{write_file, write_npy_file};
 use crate::{CHECKPOINT_FILE, CheckpointingFrequency, HotStartCheckpoint};
 use crate::{EgorSolver, to_xtypes};
 
@@ -119,7 +120,6 @@ use ndarray::{Array2, ArrayBase, Axis, Data, Ix2, concatenate};
 use argmin::core::{Error, Executor, KV, State, observers::Observe};
 use serde::de::DeserializeOwned;
 
-use ndarray_npy::write_npy;
 use std::path::PathBuf;
 
 /// Json filename for configuration
@@ -235,7 +235,7 @@ impl<O: GroupFunc, C: CstrFn, SB: SurrogateBuilder + DeserializeOwned> Egor<O, C
             std::fs::create_dir_all(outdir)?;
             let filepath = std::path::Path::new(outdir).join(CONFIG_FILE);
             let json = serde_json::to_string(&self.solver.config).unwrap();
-            std::fs::write(filepath, json).expect("Unable to write file");
+            write_file(filepath, json.as_bytes())?;
         }
 
         let exec = Executor::new(self.fobj.clone(), self.solver.clone()).timer(true);
@@ -360,7 +360,7 @@ impl Observe<EgorState<f64>> for OptimizationObserver {
 
             let filepath = self.dir.join(crate::DOE_FILE);
             info!(">>> Save doe shape {:?} in {:?}", doe.shape(), filepath);
-            write_npy(filepath, &doe).expect("Write current doe");
+            write_npy_file(filepath, &doe)?;
 
             if self.best_params.is_none() {
                 // Have to initialize best params and full best costs
@@ -387,7 +387,7 @@ impl Observe<EgorState<f64>> for OptimizationObserver {
 
             let filepath = std::path::Path::new(&self.dir).join(HISTORY_FILE);
             info!(">>> Save history {:?} in {:?}", hist.shape(), filepath);
-            ndarray_npy::write_npy(filepath, &hist).expect("Write current history");
+            write_npy_file(filepath, &hist)?;
         }
         Ok(())
     }
diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index fa101ec..def6425 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -110,6 +110,7 @@
 //! println!("G24 min result = {:?}", res.state);
 //! ```
 //!
+use crate::utils::atomic_file::write_npy_file;
 use crate::utils::{
     EGOBOX_LOG, EGOR_DO_NOT_USE_MIDDLEPICKER_MULTISTARTER, EGOR_USE_GP_RECORDER,
     EGOR_USE_GP_VAR_PORTFOLIO, EGOR_USE_MAX_PROBA_OF_FEASIBILITY, EGOR_USE_RUN_RECORDER,
@@ -122,7 +123,7 @@ use crate::types::*;
 use egobox_doe::{Lhs, SamplingMethod};
 use log::{debug, info};
 use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix2, Zip, concatenate, s};
-use ndarray_npy::{read_npy, write_npy};
+use ndarray_npy::read_npy;
 
 use argmin::core::{
     CostFunction, KV, Problem, Solver, State, TerminationReason, TerminationStatus,
@@ -239,7 +240,7 @@ where
             std::fs::create_dir_all(path)?;
             let filepath = std::path::Path::new(path).join(DOE_INITIAL_FILE);
             info!("Save initial doe shape {:?} in {:?}", doe.shape(), filepath);
-            write_npy(filepath, &doe).expect("Write initial doe");
+            write_npy_file(filepath, &doe)?;
         }
 
         let clusterings = vec![None; self.config.n_cstr + 1];
diff --git a/crates/ego/src/utils/atomic_file.rs b/crates/ego/src/utils/atomic_file.rs
index 01eb3c5..fc8cbc0 100644
--- a/crates/ego/src/utils/atomic_file.rs
+++ b/crates/ego/src/utils/atomic_file.rs
@@ -1,3 +1,5 @@
+use ndarray::{ArrayBase, Data, Dimension};
+use ndarray_npy::{WritableElement, WriteNpyError, WriteNpyExt};
 use std::ffi::OsString;
 use std::fs::{self, File};
 use std::io::{self, Write};
@@ -30,3 +32,20 @@ pub(crate) fn write_file<P: AsRef<Path>>(path: P, bytes: &[u8]) -> io::Result<()
             let _ = fs::remove_file(&temp);
         })
 }
+
+/// Same as [`write_file`] with the given `array` saved in npy format.
+pub(crate) fn write_npy_file<P, S, D>(
+    path: P,
+    array: &ArrayBase<S, D>,
+) -> std::result::Result<(), WriteNpyError>
+where
+    P: AsRef<Path>,
+    S::Elem: WritableElement,
+    S: Data,
+    D: Dimension,
+{
+    let mut bytes = vec![];
+    array.write_npy(&mut bytes)?;
+    write_file(path, &bytes)?;
+    Ok(())
+}
-- 
2.43.0


From 197d41d2eea629e6c0582224175706b22f9f9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 03/19] fix: warm start with function constraints

The saved DOE also contains the values of the function constraints: they were
taken as additional objective outputs when the DOE was read again and the
optimization panicked.
---
 crates/ego/src/solver/egor_solver.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index def6425..df93119 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -216,11 +216,14 @@ where
                 info!("Compute initial DOE on specified {} points", doe.nrows());
                 (self.eval_obj(problem, doe), doe.to_owned())
             } else {
-                // split doe in x and y
+                // split doe in x and y, a saved doe also contains the values
+                // of the function constraints which are computed below
                 info!("Use specified DOE {} samples", doe.nrows());
+                let n_x = self.xlimits.nrows();
+                let n_xy = (n_x + 1 + self.config.n_cstr).min(doe.ncols());
                 (
-                    doe.slice(s![.., self.xlimits.nrows()..]).to_owned(),
-                    doe.slice(s![.., ..self.xlimits.nrows()]).to_owned(),
+                    doe.slice(s![.., n_x..n_xy]).to_owned(),
+                    doe.slice(s![.., ..n_x]).to_owned(),
                 )
             }
         } else {
-- 
2.43.0


From 2131ccbe0c7a0a18bd84527a21f05222cfdd400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 04/19] fix: call function constraints with points of the user
 space

With discrete variables the constraints given as functions were called with the
continuous relaxation of the point (the conversion was computed then dropped)
hence with values, or even a number of components, that are not admissible.
With CoEGO they were called with the active components only.
---
 crates/ego/src/solver/solver_computations.rs | 57 ++++++++++++++------
 crates/ego/src/solver/solver_impl.rs         | 33 +++---------
 crates/ego/src/solver/solver_infill_optim.rs | 28 +++++++++-
 3 files changed, 76 insertions(+), 42 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 18c0e27..7ff5c7f 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -492,6 +492,47 @@ where
             .expect("Objective evaluation")
     }
 
+    /// Evaluate the given function constraint at the given x point of the (continuous)
+    /// space the solver works in, the function is called with a point in the user space
+    pub(crate) fn eval_fcstr(
+        &self,
+        fcstr: &(impl ObjFn<InfillObjData<f64>> + ?Sized),
+        x: &[f64],
+        gradient: Option<&mut [f64]>,
+        params: &mut InfillObjData<f64>,
+    ) -> f64 {
+        if !self.config.discrete() {
+            return fcstr(x, gradient, params);
+        }
+        // We have to cast x to folded space as EgorSolver
+        // works internally in the continuous space while
+        // the constraint function expects discrete variable in folded space
+        let xary = ArrayView2::from_shape((1, x.len()), x).expect("x as a row");
+        let xuser = to_discrete_space(&self.config.xtypes, &xary)
+            .row(0)
+            .to_vec();
+        let Some(gradient) = gradient else {
+            return fcstr(&xuser, None, params);
+        };
+        let mut guser = vec![0.; xuser.len()];
+        let val = fcstr(&xuser, Some(&mut guser), params);
+        let mut col = 0;
+        for (xtype, g) in self.config.xtypes.iter().zip(guser) {
+            match xtype {
+                XType::Enum(n) => {
+                    // No sensitivity wrt to a category
+                    gradient[col..col + n].fill(0.);
+                    col += n;
+                }
+                _ => {
+                    gradient[col] = g;
+                    col += 1;
+                }
+            }
+        }
+        val
+    }
+
     /// Evaluate the constraints given as function at given x points
     pub fn eval_fcstrs(
         &self,
@@ -506,21 +547,7 @@ where
             .for_each(|mut r, xi| {
                 let cstr_vals = &fcstrs
                     .iter()
-                    .map(|cstr| {
-                        let xuser = if self.config.discrete() {
-                            let xary = xi.to_owned().insert_axis(Axis(0));
-                            // We have to cast x to folded space as EgorSolver
-                            // works internally in the continuous space while
-                            // the constraint function expects discrete variable in folded space
-                            to_discrete_space(&self.config.xtypes, &xary)
-                                .row(0)
-                                .into_owned();
-                            xary.into_iter().collect::<Vec<_>>()
-                        } else {
-                            xi.to_vec()
-                        };
-                        cstr(&xuser, None, &mut unused)
-                    })
+                    .map(|cstr| self.eval_fcstr(cstr, &xi.to_vec(), None, &mut unused))
                     .collect::<Array1<_>>();
                 r.assign(cstr_vals)
             });
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index f838123..37654d4 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -2,7 +2,7 @@ use std::marker::PhantomData;
 
 use crate::errors::{EgoError, Result};
 use crate::find_best_result_index;
-use crate::gpmix::mixint::{as_continuous_limits, to_discrete_space};
+use crate::gpmix::mixint::as_continuous_limits;
 use crate::solver::solver_computations::MiddlePickerMultiStarter;
 use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::utils::{
@@ -713,7 +713,7 @@ where
                     sigma_weight: *sigma_weight,
                 };
 
-                let cstr_funcs = cstr_funcs
+                let scaled_cstr_funcs = cstr_funcs
                     .iter()
                     .enumerate()
                     .map(|(i, cstr)| {
@@ -722,19 +722,6 @@ where
                               gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            let x = if self.config.discrete() {
-                                let xary =
-                                    Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
-                                // We have to cast x to folded space as EgorSolver
-                                // works internally in the continuous space while
-                                // the constraint function expects discrete variable in folded space
-                                to_discrete_space(&self.config.xtypes, &xary)
-                                    .row(0)
-                                    .into_owned();
-                                &xary.into_iter().collect::<Vec<_>>()
-                            } else {
-                                x
-                            };
                             cstr(x, gradient, params) / scale_fc
                         }
                     })
@@ -748,7 +735,7 @@ where
                 let infill_optpb = InfillOptProblem {
                     obj_model: obj_model.as_ref(),
                     cstr_models,
-                    cstr_funcs: &cstr_funcs,
+                    cstr_funcs: &scaled_cstr_funcs,
                     cstr_tols: cstr_tol,
                     infill_data: &infill_data,
                     actives: &actives,
@@ -766,17 +753,11 @@ where
                         let yk = Array2::from_shape_vec((1, 1 + self.config.n_cstr), yk).unwrap();
                         y_dat = concatenate![Axis(0), y_dat, yk];
 
-                        let ck = cstr_funcs
-                            .iter()
-                            .map(|cstr| cstr(&xk.to_vec(), None, &mut infill_data))
-                            .collect::<Vec<_>>();
-                        c_dat = concatenate![
-                            Axis(0),
-                            c_dat,
-                            Array2::from_shape_vec((1, cstr_funcs.len()), ck).unwrap()
-                        ];
+                        let xk = xk.insert_axis(Axis(0));
+                        let ck = self.eval_fcstrs(&scaled_cstr_funcs, &xk);
+                        c_dat = concatenate![Axis(0), c_dat, ck];
 
-                        x_dat = concatenate![Axis(0), x_dat, xk.insert_axis(Axis(0))];
+                        x_dat = concatenate![Axis(0), x_dat, xk];
 
                         // infill objective was minimized while infill criterion itself
                         // is expected to be maximized hence the negative sign here
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 31a4cd7..1ea91a8 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -201,7 +201,33 @@ where
                 .iter()
                 .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync))
                 .collect::<Vec<_>>();
-            cstr_refs.extend(cstr_funcs.clone());
+            // Function constraints are defined wrt to all components
+            let coop_cstr_funcs: Vec<_> = cstr_funcs
+                .iter()
+                .map(|cstr| {
+                    let active = &active;
+                    move |x: &[f64],
+                          gradient: Option<&mut [f64]>,
+                          params: &mut InfillObjData<f64>|
+                          -> f64 {
+                        let mut xcoop = params.xbest.clone();
+                        coego::set_active_x(&mut xcoop, active, x);
+                        if let Some(grad) = gradient {
+                            let mut full_grad = vec![0.; xcoop.len()];
+                            let val = self.eval_fcstr(*cstr, &xcoop, Some(&mut full_grad), params);
+                            std::iter::zip(grad, active).for_each(|(g, &i)| *g = full_grad[i]);
+                            val
+                        } else {
+                            self.eval_fcstr(*cstr, &xcoop, None, params)
+                        }
+                    }
+                })
+                .collect();
+            cstr_refs.extend(
+                coop_cstr_funcs
+                    .iter()
+                    .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync)),
+            );
 
             // Limits of activated components
             let xlimits_active = coego::get_active_x(Axis(0), &self.xlimits, &active);
-- 
2.43.0


From 3574c68f090fbe4327f7db0acff0bc559674d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 05/19] fix: make the order of portfolio points reproducible

---
 crates/ego/src/utils/portfolio.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/portfolio.rs b/crates/ego/src/utils/portfolio.rs
index 92c7b40..13a385e 100644
--- a/crates/ego/src/utils/portfolio.rs
+++ b/crates/ego/src/utils/portfolio.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use linfa::traits::Transformer;
 
@@ -28,7 +28,8 @@ pub fn cluster_as_indices(xdat: &ArrayBase<impl Data<Elem = f64>, Ix2>) -> Vec<u
         .tolerance((xdat.ncols() as f64).sqrt())
         .transform(&xdat.to_owned())
         .unwrap();
-    let mut dict = HashMap::new();
+    // Ordered map, the order of the representatives has to be reproducible
+    let mut dict = BTreeMap::new();
     for (i, c) in clusters.iter().enumerate() {
         match c {
             None => (),
-- 
2.43.0


From 9395859d43fe2928bccd668d5a53cc1f815f4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:22 +0000
Subject: [PATCH 06/19] fix: seed the clustering of the surrogates

---
 crates/ego/src/gpmix/mixint.rs       | 8 ++++++++
 crates/ego/src/gpmix/mod.rs          | 5 +++++
 crates/ego/src/solver/solver_impl.rs | 6 +++++-
 crates/ego/src/types.rs              | 4 ++++
 crates/moe/src/clustering.rs         | 7 ++++---
 5 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4aac950..e594862 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -483,6 +483,14 @@ impl SurrogateBuilder for MixintGpMixtureParams {
         }
     }
 
+    fn set_rng(&mut self, rng: Xoshiro256Plus) {
+        self.0 = MixintGpMixtureValidParams {
+            surrogate_builder: self.0.surrogate_builder.clone().with_rng(rng),
+            xtypes: self.0.xtypes.clone(),
+            work_in_folded_space: self.0.work_in_folded_space,
+        }
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/gpmix/mod.rs b/crates/ego/src/gpmix/mod.rs
index 16974be..076c912 100644
--- a/crates/ego/src/gpmix/mod.rs
+++ b/crates/ego/src/gpmix/mod.rs
@@ -10,6 +10,7 @@ use egobox_moe::{
 use ndarray::{ArrayView1, ArrayView2};
 
 use linfa::ParamGuard;
+use rand_xoshiro::Xoshiro256Plus;
 
 use crate::Result;
 use crate::{SurrogateBuilder, XType};
@@ -62,6 +63,10 @@ impl SurrogateBuilder for GpMixtureParams<f64> {
         *self = self.clone().n_start(n_start).max_eval(max_eval);
     }
 
+    fn set_rng(&mut self, rng: Xoshiro256Plus) {
+        *self = self.clone().with_rng(rng);
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 37654d4..9f2520c 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -41,10 +41,14 @@ impl<SB: SurrogateBuilder + DeserializeOwned, C: CstrFn> EgorSolver<SB, C> {
         let builder = builder.target(env_logger::Target::Stdout);
         builder.try_init().ok();
         let xtypes = config.xtypes.clone();
+        let mut surrogate_builder = SB::new_with_xtypes(&xtypes);
+        if let Some(seed) = config.seed {
+            surrogate_builder.set_rng(Xoshiro256Plus::seed_from_u64(seed));
+        }
         EgorSolver {
             config,
             xlimits: as_continuous_limits(&xtypes),
-            surrogate_builder: SB::new_with_xtypes(&xtypes),
+            surrogate_builder,
             phantom: PhantomData,
         }
     }
diff --git a/crates/ego/src/types.rs b/crates/ego/src/types.rs
index c76f254..6cec991 100644
--- a/crates/ego/src/types.rs
+++ b/crates/ego/src/types.rs
@@ -4,6 +4,7 @@ use argmin::core::CostFunction;
 use egobox_moe::{Clustering, MixtureGpSurrogate, NbClusters, Recombination, ThetaTuning};
 use linfa::Float;
 use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
+use rand_xoshiro::Xoshiro256Plus;
 use serde::{Deserialize, Serialize};
 
 /// Optimization result
@@ -167,6 +168,9 @@ pub trait SurrogateBuilder: Clone + Serialize + Sync {
     /// Set likelihood optimization parameters
     fn set_optim_params(&mut self, n_start: usize, max_eval: usize);
 
+    /// Set the random generator used during the training, if any, to get reproducibility
+    fn set_rng(&mut self, _rng: Xoshiro256Plus) {}
+
     /// Train the surrogate with given training dataset (x, y)
     fn train(
         &self,
diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index c334c8c..f180857 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -8,7 +8,7 @@ use linfa::dataset::{Dataset, DatasetView};
 use linfa::traits::{Fit, Predict};
 use linfa_clustering::GaussianMixtureModel;
 use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, concatenate};
-use ndarray_rand::rand::Rng;
+use rand_xoshiro::Xoshiro256Plus;
 // use std::ops::Sub;
 
 fn mean(list: &[f64]) -> f64 {
@@ -56,14 +56,14 @@ pub(crate) fn sort_by_cluster<F: Float>(
 }
 
 /// Find the best number of cluster thanks to cross validation
-pub fn find_best_number_of_clusters<R: Rng + Clone>(
+pub fn find_best_number_of_clusters(
     x: &ArrayBase<impl Data<Elem = f64>, Ix2>,
     y: &ArrayBase<impl Data<Elem = f64>, Ix1>,
     max_nb_clusters: usize,
     kpls_dim: Option<usize>,
     regression_spec: RegressionSpec,
     correlation_spec: CorrelationSpec,
-    rng: R,
+    rng: Xoshiro256Plus,
 ) -> (usize, Recombination<f64>) {
     let max_nb_clusters = if max_nb_clusters == 0 {
         (x.nrows() / 10) + 1
@@ -146,6 +146,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                         .correlation_spec(correlation_spec)
                         .kpls_dim(kpls_dim)
                         .gmm(gmm.clone())
+                        .with_rng(rng.clone())
                         .fit(&train)
                     {
                         Ok(mixture) => {
-- 
2.43.0


From cce7bd3436857136fe99d3eea0d0ca4fc00b8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 07/19] fix: reproducible hyperparameters optimization with one
 start

---
 crates/gp/src/optimization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index c076756..1fef45c 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -40,8 +40,8 @@ pub(crate) fn prepare_multistart<F: Float>(
 
     match n_start.cmp(&1) {
         std::cmp::Ordering::Equal => {
-            //let mut rng = Xoshiro256Plus::seed_from_u64(42);
-            let mut rng = Xoshiro256Plus::from_entropy();
+            // Use a seed here for reproducibility, see below
+            let mut rng = Xoshiro256Plus::seed_from_u64(42);
             let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
-- 
2.43.0


From 408eac6e7edab70a03bc2877cb022609c0a8a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 08/19] fix: last best iteration when the first added point is
 the best

---
 crates/ego/src/solver/egor_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 677f19a..9fe5a8d 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -458,7 +458,7 @@ where
             std::mem::swap(&mut self.prev_best_cost, &mut self.best_cost);
             self.best_cost = Some(cost);
 
-            if best_index > self.doe_size {
+            if best_index >= self.doe_size {
                 if let Some(prev_best_index) = self.prev_best_index
                     && best_index != prev_best_index
                 {
-- 
2.43.0


From f7ab9c0f51c6ba3e2400b1778c45c8159ac4b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 09/19] fix: default tolerance of function constraints when
 cstr_tol is given

---
 crates/ego/src/solver/egor_solver.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index df93119..d84fdfe 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -270,10 +270,13 @@ where
         initial_state.max_iters = self.config.max_iters as u64;
         initial_state.added = doe.nrows();
         initial_state.no_point_added_retries = no_point_added_retries;
-        initial_state.cstr_tol = self.config.cstr_tol.clone().unwrap_or(Array1::from_elem(
-            self.config.n_cstr + c_data.ncols(),
-            DEFAULT_CSTR_TOL,
-        ));
+        // Tolerances which are not specified, e.g. those of function constraints, are default ones
+        let mut cstr_tol = self.config.cstr_tol.clone().unwrap_or(Array1::zeros(0)).to_vec();
+        let n_cstrs = self.config.n_cstr + c_data.ncols();
+        if cstr_tol.len() < n_cstrs {
+            cstr_tol.resize(n_cstrs, DEFAULT_CSTR_TOL);
+        }
+        initial_state.cstr_tol = Array1::from_vec(cstr_tol);
         initial_state.target_cost = self.config.target;
 
         let best_index = find_best_result_index(&y_data, &c_data, &initial_state.cstr_tol);
-- 
2.43.0


From 1cc8397edeafc51c38e4c9032392ade77311fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 10/19] fix: unfold the column of each non categorical variable

unfold_with_enum_mask read the folded matrix at the index of the unfolded one:
wrong column, or panic, when a categorical variable comes before.
---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index e594862..9a7f2dc 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -123,7 +123,7 @@ pub(crate) fn unfold_with_enum_mask(
         XType::Float(_, _) | XType::Int(_, _) | XType::Ord(_) => {
             xunfold
                 .column_mut(unfold_index)
-                .assign(&x.column(unfold_index));
+                .assign(&x.column(i));
             unfold_index += 1;
         }
         XType::Enum(v) => {
-- 
2.43.0


From e4199c638ab06f734026987292e5516c6255caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:51 +0000
Subject: [PATCH 11/19] fix: variance derivatives of a smooth mixture of
 experts

The probabilities of the experts were broadcast along the components of x:
wrong derivatives when there are as many experts as components, a panic
otherwise (the optimizer uses them with several clusters).
---
 crates/moe/src/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6356238..b93c962 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -773,7 +773,8 @@ impl GpMixture {
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let term1 = term1.sum_axis(Axis(0));
 
-                let term2 = (p.to_owned() * pprime * preds).mapv(|v| 2. * v);
+                let p = p.to_owned().insert_axis(Axis(1));
+                let term2 = (p * pprime * preds).mapv(|v| 2. * v);
                 let term2 = term2.sum_axis(Axis(0));
 
                 y.assign(&(term1 + term2));
@@ -865,7 +866,8 @@ impl GpMixture {
                     .and(vars_drv.rows())
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let var_term1 = var_term1.sum_axis(Axis(0));
-                let var_term2 = (p.to_owned() * pprime * vars).mapv(|v| 2. * v);
+                let p = p.to_owned().insert_axis(Axis(1));
+                let var_term2 = (p * pprime * vars).mapv(|v| 2. * v);
                 let var_term2 = var_term2.sum_axis(Axis(0));
                 var_y.assign(&(var_term1 + var_term2));
             });
-- 
2.43.0


From a47d7a0cd299b9e15920d2081df43d8783ae129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 12/19] fix: NaN errors and failed clusterings when looking for
 the number of clusters

---
 crates/moe/src/clustering.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index f180857..b3d60bb 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -18,7 +18,8 @@ fn mean(list: &[f64]) -> f64 {
 
 fn median(v: &[f64]) -> f64 {
     let mut list = v.to_vec();
-    list.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
+    // errors may be NaN (e.g. relative errors with respect to null values)
+    list.sort_unstable_by(|a, b| a.total_cmp(b));
     let len = list.len();
     let mid = len / 2;
     if len.is_multiple_of(2) {
@@ -227,6 +228,12 @@ pub fn find_best_number_of_clusters(
                         }
                     }
                 }
+            } else {
+                // GMM Clustering with n_clusters fails
+                debug!("GMM Clustering with {n_clusters} clusters fails");
+                ok = false;
+                s_errors.push(1.0);
+                h_errors.push(1.0);
             }
         } else {
             // GMM Clustering with n_clusters fails
-- 
2.43.0


From 72e778a5f862165feaadf2fbd2c38e0eda66545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 13/19] fix: resume with the run recorder a run started without
 it

---
 crates/ego/src/egor.rs               |  7 +++++--
 crates/ego/src/solver/egor_solver.rs | 25 +++++++++++++------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/crates/ego/src/egor.rs b/crates/ego/src/egor.rs
index 9028c5f..fd5a129 100644
--- a/crates/ego/src/egor.rs
+++ b/crates/ego/src/egor.rs
@@ -297,7 +297,10 @@ impl<O: GroupFunc, C: CstrFn, SB: SurrogateBuilder + DeserializeOwned> Egor<O, C
         };
 
         #[cfg(feature = "persistent")]
-        if std::env::var(crate::utils::EGOR_USE_RUN_RECORDER).is_ok() {
+        if let (Ok(_), Some(run_data)) = (
+            std::env::var(crate::utils::EGOR_USE_RUN_RECORDER),
+            res.state.run_data.as_ref(),
+        ) {
             use crate::utils::{EGOR_RUN_FILENAME, run_recorder};
 
             let default_dir = String::from("./");
@@ -305,7 +308,7 @@ impl<O: GroupFunc, C: CstrFn, SB: SurrogateBuilder + DeserializeOwned> Egor<O, C
             let filename = EGOR_RUN_FILENAME;
             let filepath = std::path::Path::new(outdir).join(filename);
 
-            let mut run_data = res.state.run_data.as_ref().unwrap().clone();
+            let mut run_data = run_data.clone();
             let default = RunInfo::default();
             let meta = self.run_info.as_ref().unwrap_or(&default);
             run_data.problem_metadata.test_function = meta.fname.clone();
diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index d84fdfe..eb56f22 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -407,18 +407,19 @@ where
         if std::env::var(crate::utils::EGOR_USE_RUN_RECORDER).is_ok() {
             use crate::utils::run_recorder;
 
-            let mut run_data = res.0.take_run_data().unwrap();
-
-            let data = res.0.data.as_ref().unwrap();
-            let n_points = data.0.nrows();
-            let n_added = res.0.added - res.0.prev_added;
-            let xdata = data.0.slice(s![n_points - n_added.., ..]).to_owned();
-            let ydata = data.1.slice(s![n_points - n_added.., ..]).to_owned();
-
-            run_recorder::update_run_info(&mut run_data, res.0.get_iter() + 1, &xdata, &ydata);
-
-            let state = res.0.clone().run_data(run_data);
-            res = (state, res.1);
+            // No data when the run is resumed from a checkpoint saved without the recorder
+            if let Some(mut run_data) = res.0.take_run_data() {
+                let data = res.0.data.as_ref().unwrap();
+                let n_points = data.0.nrows();
+                let n_added = res.0.added - res.0.prev_added;
+                let xdata = data.0.slice(s![n_points - n_added.., ..]).to_owned();
+                let ydata = data.1.slice(s![n_points - n_added.., ..]).to_owned();
+
+                run_recorder::update_run_info(&mut run_data, res.0.get_iter() + 1, &xdata, &ydata);
+
+                let state = res.0.clone().run_data(run_data);
+                res = (state, res.1);
+            }
         }
 
         Ok(res)
-- 
2.43.0


From 8938db50d22064f93b1fef3ccc40a2eb10450b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 14/19] fix: report the errors met when saving models and
 recorded runs

---
 crates/ego/src/gpmix/mixint.rs       | 7 ++-----
 crates/ego/src/utils/gp_recorder.rs  | 9 ++-------
 crates/ego/src/utils/run_recorder.rs | 3 ++-
 crates/moe/src/algorithm.rs          | 6 +-----
 crates/moe/src/surrogates.rs         | 8 ++------
 5 files changed, 9 insertions(+), 24 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 9a7f2dc..474b64c 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -28,8 +28,6 @@ use serde::{Deserialize, Serialize};
 use egobox_moe::{GpFileFormat, MoeError};
 #[cfg(feature = "persistent")]
 use std::fs;
-#[cfg(feature = "persistent")]
-use std::io::Write;
 
 /// Expand xlimits to add continuous dimensions for enumeration x features.
 ///
@@ -630,7 +628,6 @@ impl GpSurrogate for MixintGpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> egobox_moe::Result<()> {
-        let mut file = fs::File::create(path).unwrap();
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
             GpFileFormat::Binary => {
@@ -638,7 +635,7 @@ impl GpSurrogate for MixintGpMixture {
                     .map_err(MoeError::SaveBinaryError)?
             }
         };
-        file.write_all(&bytes)?;
+        fs::write(path, bytes)?;
         Ok(())
     }
 }
@@ -649,7 +646,7 @@ impl MixintGpMixture {
     pub fn load(path: &str, format: GpFileFormat) -> Result<Box<MixintGpMixture>> {
         let data = fs::read(path)?;
         let moe = match format {
-            GpFileFormat::Json => serde_json::from_slice(&data).unwrap(),
+            GpFileFormat::Json => serde_json::from_slice(&data)?,
             GpFileFormat::Binary => {
                 bincode::serde::decode_from_slice(&data, bincode::config::standard())
                     .map(|(surrogate, _)| surrogate)?
diff --git a/crates/ego/src/utils/gp_recorder.rs b/crates/ego/src/utils/gp_recorder.rs
index 74d27e3..daa5c39 100644
--- a/crates/ego/src/utils/gp_recorder.rs
+++ b/crates/ego/src/utils/gp_recorder.rs
@@ -1,8 +1,5 @@
 use crate::errors::Result;
-#[cfg(feature = "persistent")]
-use std::fs;
-#[cfg(feature = "persistent")]
-use std::io::Write;
+use crate::utils::atomic_file::write_file;
 use std::path::Path;
 
 /// Save models in a bincode file
@@ -10,10 +7,8 @@ pub(crate) fn save_gp_models<P: AsRef<Path>>(
     path: P,
     models: &[Box<dyn egobox_moe::MixtureGpSurrogate>],
 ) -> Result<()> {
-    let mut file = fs::File::create(path).unwrap();
-
     let bytes = bincode::serde::encode_to_vec(models, bincode::config::standard())?;
-    file.write_all(&bytes)?;
+    write_file(path, &bytes)?;
 
     Ok(())
 }
diff --git a/crates/ego/src/utils/run_recorder.rs b/crates/ego/src/utils/run_recorder.rs
index 1144549..45e161c 100644
--- a/crates/ego/src/utils/run_recorder.rs
+++ b/crates/ego/src/utils/run_recorder.rs
@@ -4,6 +4,7 @@ use std::{fs::File, io::BufReader, path::Path};
 
 use egobox_moe::CorrelationSpec;
 
+use crate::utils::atomic_file::write_file;
 use crate::{EgorState, Result, ValidEgorConfig};
 
 #[derive(Serialize, Deserialize, Debug, Clone, Default)]
@@ -174,7 +175,7 @@ pub(crate) fn update_run_info(
 
 pub(crate) fn save_run<P: AsRef<Path>>(path: P, run_data: &EgorRunData) -> Result<()> {
     let out_json = serde_json::to_string_pretty(run_data)?;
-    std::fs::write(path, out_json)?;
+    write_file(path, out_json.as_bytes())?;
 
     Ok(())
 }
diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index b93c962..6186aa0 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -32,8 +32,6 @@ use ndarray_stats::QuantileExt;
 use serde::{Deserialize, Serialize};
 #[cfg(feature = "persistent")]
 use std::fs;
-#[cfg(feature = "persistent")]
-use std::io::Write;
 
 macro_rules! check_allowed {
     ($spec:ident, $model_kind:ident, $model:ident, $list:ident) => {
@@ -509,8 +507,6 @@ impl GpSurrogate for GpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-        let mut file = fs::File::create(path).unwrap();
-
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
             GpFileFormat::Binary => {
@@ -518,7 +514,7 @@ impl GpSurrogate for GpMixture {
                     .map_err(MoeError::SaveBinaryError)?
             }
         };
-        file.write_all(&bytes)?;
+        fs::write(path, bytes)?;
 
         Ok(())
     }
diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index 7b963a3..a3b25b5 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -16,8 +16,6 @@ use serde::{Deserialize, Serialize};
 use crate::MoeError;
 #[cfg(feature = "persistent")]
 use std::fs;
-#[cfg(feature = "persistent")]
-use std::io::Write;
 /// A trait for Gp surrogate parameters to build surrogate.
 pub trait GpSurrogateParams {
     /// Set theta
@@ -179,7 +177,6 @@ macro_rules! declare_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
@@ -187,7 +184,7 @@ macro_rules! declare_surrogate {
                             bincode::serde::encode_to_vec(self as &dyn GpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
-                    file.write_all(&bytes)?;
+                    fs::write(path, bytes)?;
 
                     Ok(())
                 }
@@ -347,7 +344,6 @@ macro_rules! declare_sgp_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
@@ -355,7 +351,7 @@ macro_rules! declare_sgp_surrogate {
                             bincode::serde::encode_to_vec(self as &dyn SgpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
-                    file.write_all(&bytes)?;
+                    fs::write(path, bytes)?;
                     Ok(())
                 }
             }
-- 
2.43.0


From 79c3faaefd36eb94f885b03241165df332ec5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 15/19] fix: always seed the inducing points of sparse experts

---
 crates/moe/src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6186aa0..2dfa442 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -325,7 +325,7 @@ impl GpMixtureValidParams<f64> {
                         }
                     };
                 let mut expert_params = best_expert_params?;
-                let seed = self.rng().r#gen();
+                let seed = Some(self.rng().r#gen());
                 debug!("Theta tuning = {:?}", self.theta_tunings());
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
-- 
2.43.0


From b3e509fec7eaf4a5978f9f38e66e7dfd387a6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 16/19] fix: save sparse surrogates in the form expected by
 load

---
 crates/moe/src/surrogates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index a3b25b5..43f6438 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -345,10 +345,10 @@ macro_rules! declare_sgp_surrogate {
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
                     let bytes = match format {
-                        GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
+                        GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
                         GpFileFormat::Binary => {
-                            bincode::serde::encode_to_vec(self as &dyn SgpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
+                            bincode::serde::encode_to_vec(self as &dyn GpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
                     fs::write(path, bytes)?;
-- 
2.43.0


From 2171a5bafce54eaee2d515cd51290fd6899a53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 17/19] fix: LHS of one point with the kinds maximizing
 distances

---
 crates/doe/src/lhs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 9024687..f99c7b4 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -71,6 +71,9 @@ impl<F: Float, R: Rng> SamplingMethod<F> for Lhs<F, R> {
 
     fn normalized_sample(&self, ns: usize) -> Array2<F> {
         match &self.kind {
+            // there is no distance to maximize with less than two points
+            LhsKind::Maximin | LhsKind::Optimized if ns < 2 => self._classic_lhs(ns),
+            LhsKind::CenteredMaximin if ns < 2 => self._centered_lhs(ns),
             LhsKind::Classic => self._classic_lhs(ns),
             LhsKind::Centered => self._centered_lhs(ns),
             LhsKind::Maximin => self._maximin_lhs(ns, false, 5),
-- 
2.43.0


From 7ef49c4ec12ddfc2f6ed0abed328109d1b77b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 18/19] fix: restart with an infinite target or tolerance

---
 crates/ego/src/solver/egor_config.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/egor_config.rs b/crates/ego/src/solver/egor_config.rs
index 289541c..57376fa 100644
--- a/crates/ego/src/solver/egor_config.rs
+++ b/crates/ego/src/solver/egor_config.rs
@@ -305,7 +305,8 @@ impl EgorConfig {
 
     /// Sets the tolerance on constraints violation (`cstr < tol`)
     pub fn cstr_tol(mut self, tol: Array1<f64>) -> Self {
-        self.0.cstr_tol = Some(tol);
+        // The configuration is saved as JSON which has no infinite numbers
+        self.0.cstr_tol = Some(tol.mapv(|t| t.clamp(f64::MIN, f64::MAX)));
         self
     }
 
@@ -370,7 +371,8 @@ impl EgorConfig {
 
     /// Sets a known target minimum to be used as a stopping criterion.
     pub fn target(mut self, target: f64) -> Self {
-        self.0.target = target;
+        // The configuration is saved as JSON which has no infinite numbers
+        self.0.target = target.clamp(f64::MIN, f64::MAX);
         self
     }
 
-- 
2.43.0


From a89be5d1b7e0a84166144633eaf24b6edf772fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 19/19] fix: points listed twice in the run file when the run
 converges

---
 crates/ego/src/solver/egor_solver.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index eb56f22..e65ab12 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -450,10 +450,14 @@ where
     ) -> std::result::Result<(EgorState<f64>, Option<KV>), argmin::core::Error> {
         match self.ego_step(problem, state.clone()) {
             Ok(new_state) => Ok((new_state, None)),
-            Err(EgoError::NoMorePointToAddError(state)) => Ok((
-                state.terminate_with(TerminationReason::SolverConverged),
-                None,
-            )),
+            Err(EgoError::NoMorePointToAddError(mut state)) => {
+                // Points of the previous iteration are not added again
+                state.prev_added = state.added;
+                Ok((
+                    state.terminate_with(TerminationReason::SolverConverged),
+                    None,
+                ))
+            }
             Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0

