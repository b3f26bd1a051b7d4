From 77541eebaf58718faac40b337c2c2aa42877b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:22 +0000
Subject: [PATCH 01/23] fix: keep each reference point with its own objective
 when shuffling for Stage 2

The reference set was shuffled while its objectives kept the old order, so
the merit filter judged a point by another point's objective.
---
 src/oqnlp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..6db832d 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -921,7 +921,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Shuffle reference set if starting fresh
         if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+            // Shuffle points and objectives together, so that each point keeps its objective
+            if let Some(objectives) = ref_objectives.take() {
+                let mut pairs: Vec<(Array1<f64>, f64)> =
+                    ref_set.into_iter().zip(objectives).collect();
+                pairs.shuffle(&mut rng);
+                let (points, objectives): (Vec<Array1<f64>>, Vec<f64>) = pairs.into_iter().unzip();
+                ref_set = points;
+                ref_objectives = Some(objectives);
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From c9b1963c5561a608f5b3691595a4244b46826b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:31 +0000
Subject: [PATCH 02/23] fix: checkpoint the reference set in the order Stage 2
 visits it

The set was stored before the shuffle and a resumed run does not shuffle, so
the resumed iterations skipped some points and repeated others.
---
 src/oqnlp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 6db832d..c9e34c2 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -930,6 +924,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 ref_set = points;
                 ref_objectives = Some(objectives);
             }
+
+            // Store the reference set for checkpointing in the order Stage 2 visits it
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 2c219fefe024a42a50688c42fd6707e888efb600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 03/23] fix: make a checkpoint resume at the first iteration
 not yet processed

A checkpoint taken after iteration i recorded i and the counters from before
it, so a resumed run repeated it; a batch is processed out of order and
checkpoints taken inside it skipped the local searches still pending.
---
 src/oqnlp.rs | 90 ++++++++++++++++++++--------------------------------
 1 file changed, 34 insertions(+), 56 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index c9e34c2..05d3d3a 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1593,11 +1593,21 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
     }
 
-    /// Save a checkpoint if checkpointing is enabled and conditions are met
+    /// Record that every iteration before `next_iteration` is done, so that a checkpoint taken
+    /// now resumes there
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn record_progress(&mut self, next_iteration: usize, unchanged_cycles: usize) {
+        self.current_iteration = next_iteration;
+        self.unchanged_cycles = unchanged_cycles;
+        self.current_seed = self.params.seed + self.current_iteration as u64;
+    }
+
+    /// Save a checkpoint if a multiple of the save frequency was passed since `previous_iteration`
+    #[cfg(feature = "checkpointing")]
+    fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let frequency = manager.config().save_frequency;
+            if self.current_iteration / frequency > previous_iteration / frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1648,18 +1658,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
-            // Update the current seed for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             let trial = trial.clone();
 
             // Observer: Update iteration
@@ -1746,6 +1744,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                             self.target_objective.unwrap()
                         );
                     }
+                    #[cfg(feature = "checkpointing")]
+                    self.record_progress(local_iter + 1, *unchanged_cycles);
                     return Ok(());
                 }
             } else {
@@ -1775,7 +1775,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Save checkpoint if enabled and conditions are met
             #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
+            {
+                self.record_progress(local_iter + 1, *unchanged_cycles);
+                self.maybe_save_checkpoint(local_iter)?;
+            }
         }
         Ok(())
     }
@@ -1845,13 +1848,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1883,9 +1879,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1925,13 +1918,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1985,22 +1971,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                                 self.target_objective.unwrap()
                             );
                         }
+                        #[cfg(feature = "checkpointing")]
+                        self.record_progress(local_iter + 1, *unchanged_cycles);
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2066,11 +2044,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                                 self.target_objective.unwrap()
                             );
                         }
+                        #[cfg(feature = "checkpointing")]
+                        self.record_progress(local_iter + 1, *unchanged_cycles);
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2078,13 +2055,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2108,14 +2078,22 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                                 self.target_objective.unwrap()
                             );
                         }
+                        #[cfg(feature = "checkpointing")]
+                        self.record_progress(local_iter + 1, *unchanged_cycles);
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
+
+        // The batch is processed out of order, so it is checkpointed only as a whole
+        #[cfg(feature = "checkpointing")]
+        if let (Some(&(first_iter, _)), Some(&(last_iter, _))) =
+            (filtered_batch.first(), filtered_batch.last())
+        {
+            self.record_progress(last_iter + 1, *unchanged_cycles);
+            self.maybe_save_checkpoint(first_iter)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From f7d1908f11018c5dbcde906c0e7e774c9e889c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:11 +0000
Subject: [PATCH 04/23] fix: continue from the restored checkpoint in run()
 after a manual resume

After resume_with_modified_params() or resume_from_checkpoint_with_params(),
run() reloaded the checkpoint with its old parameters when auto_resume was on,
and started again from Stage 1 when it was off.
---
 src/oqnlp.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 05d3d3a..1572dba 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -408,6 +408,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     current_seed: u64,
 
+    /// Whether restored checkpoint state is waiting for `run()` to continue from it.
+    #[cfg(feature = "checkpointing")]
+    resume_pending: bool,
+
     /// Observer for tracking algorithm state and metrics
     observer: Option<Observer>,
 
@@ -491,6 +495,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             start_time: None,
             #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
+            #[cfg(feature = "checkpointing")]
+            resume_pending: false,
             observer: None,
             custom_points: None,
             abs_tol: 1e-8,
@@ -686,9 +692,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             }
         }
 
-        // Try to resume from checkpoint if enabled
+        // Continue from a checkpoint restored by the user, or try to resume from one if enabled
+        #[cfg(feature = "checkpointing")]
+        let resumed_from_checkpoint = self.resume_pending || self.try_resume_from_checkpoint()?;
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        {
+            self.resume_pending = false;
+        }
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1555,6 +1565,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
+        self.resume_pending = true;
+
         if self.verbose {
             println!(
                 "Resumed from checkpoint at iteration {} with {} solutions",
-- 
2.43.0


From 3dd70d00a74b8c513c8da8348a61bf7904bdbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:11 +0000
Subject: [PATCH 05/23] fix: rebuild the local solver and the distance filter
 from restored parameters

After a resume they kept the settings of the freshly built optimizer, so the
sequential and the parallel path used different local solvers.
---
 src/oqnlp.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 1572dba..0755431 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1531,6 +1531,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let solution_count = checkpoint.solution_set.as_ref().map_or(0, |s| s.len());
 
         self.params = checkpoint.params;
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            self.params.local_solver_type.clone(),
+            self.params.local_solver_config.clone(),
+        );
         self.current_iteration = checkpoint.current_iteration;
         self.merit_filter.update_threshold(checkpoint.merit_threshold);
         self.solution_set = checkpoint.solution_set;
@@ -1562,7 +1567,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         self.abs_tol = checkpoint.abs_tol;
         self.rel_tol = checkpoint.rel_tol;
 
-        // Restore distance filter solutions
+        // Restore distance filter, with the restored parameters
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: self.params.distance_factor,
+            wait_cycle: self.params.wait_cycle,
+            threshold_factor: self.params.threshold_factor,
+        })?;
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
         self.resume_pending = true;
-- 
2.43.0


From 3da7c7f0b5833623ace5ffdf6b2c981bf952c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 06/23] fix: replace checkpoint files atomically

A crash during the write truncated the only checkpoint and left a file that
cannot be decoded.
---
 src/checkpoint.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..08bcb7e 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -60,7 +60,7 @@
 
 use crate::types::{CheckpointConfig, OQNLPCheckpoint};
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
@@ -245,11 +245,19 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
-            operation: "write".to_string(),
-            path: filepath.clone(),
-            source: e,
-        })?;
+        // Write to a temporary file first, so that a crash never leaves a partial checkpoint
+        let temp_path = filepath.with_extension("bin.tmp");
+        fs::File::create(&temp_path)
+            .and_then(|mut file| {
+                file.write_all(&encoded)?;
+                file.sync_all()
+            })
+            .and_then(|_| fs::rename(&temp_path, &filepath))
+            .map_err(|e| CheckpointError::IoError {
+                operation: "write".to_string(),
+                path: filepath.clone(),
+                source: e,
+            })?;
 
         Ok(filepath)
     }
-- 
2.43.0


From ffbd44da13fab8efe85bbea9ac4c99e6dcef39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 07/23] fix: find the checkpoint of iteration 0

With keep_all, a checkpoint saved for iteration 0 was never found again.
---
 src/checkpoint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 08bcb7e..b31b141 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -320,7 +320,7 @@ impl CheckpointManager {
             })?;
         let pattern = format!("{}_", self.config.checkpoint_name);
 
-        let mut latest_iteration = 0;
+        let mut latest_iteration = None;
         let mut latest_path = None;
 
         for entry in entries {
@@ -335,8 +335,8 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
-                            latest_iteration = iteration;
+                        if latest_iteration.is_none_or(|latest| iteration > latest) {
+                            latest_iteration = Some(iteration);
                             latest_path = Some(path);
                         }
                     }
-- 
2.43.0


From 98b7f4e516fde6049966f6528bafeb0b6d45cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 08/23] fix: report invalid Newton-CG line search settings as
 Newton-CG errors

---
 src/local_solver/runner.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..0466199 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -843,15 +843,15 @@ impl<P: Problem> LocalSolver<P> {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_width_tolerance(*width_tolerance)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
@@ -897,27 +897,27 @@ impl<P: Problem> LocalSolver<P> {
                 } => {
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_epsilon(*epsilon)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_theta(*theta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_gamma(*gamma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_eta(*eta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
-- 
2.43.0


From c973a755c7b5d564971db3ad469eb7e7baf96374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 09/23] fix: apply the Newton-CG tolerance and curvature
 threshold with Hager-Zhang

Both settings were ignored with that line search.
---
 src/local_solver/runner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 0466199..0bfc9fa 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -921,7 +921,12 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From b277b52f81f12b6ccd4d305a24d3d285207dcdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 10/23] fix: accept zero frequencies, a zero batch size and any
 seed without panicking

save_frequency, callback_frequency or batch_iterations of 0 divided by zero or
chunked by zero, and a seed near u64::MAX overflowed.
---
 src/observers/mod.rs |  4 +++-
 src/oqnlp.rs         | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..e2bdcee 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,9 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some()
+            && self.callback_frequency > 0
+            && iteration % self.callback_frequency == 0
     }
 }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 0755431..d951ad8 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -915,7 +915,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             StdRng::seed_from_u64(self.current_seed)
         } else {
             // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
+            let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             self.current_seed = seed;
             StdRng::seed_from_u64(seed)
         };
@@ -977,7 +977,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let trials_to_process: Vec<_> =
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
-        for batch in trials_to_process.chunks(effective_batch_size) {
+        for batch in trials_to_process.chunks(effective_batch_size.max(1)) {
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
@@ -1476,7 +1476,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1621,7 +1621,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn record_progress(&mut self, next_iteration: usize, unchanged_cycles: usize) {
         self.current_iteration = next_iteration;
         self.unchanged_cycles = unchanged_cycles;
-        self.current_seed = self.params.seed + self.current_iteration as u64;
+        self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
     }
 
     /// Save a checkpoint if a multiple of the save frequency was passed since `previous_iteration`
@@ -1629,7 +1629,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
             let frequency = manager.config().save_frequency;
-            if self.current_iteration / frequency > previous_iteration / frequency {
+            if frequency > 0 && self.current_iteration / frequency > previous_iteration / frequency
+            {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
-- 
2.43.0


From 2ebf054dd761bca9b3cc6d1acd6c7054eea777dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:15 +0000
Subject: [PATCH 11/23] fix: reject NaN settings, points, bounds and constraint
 values

NaN passed every range check: it was accepted as a threshold or distance
factor, as a starting point and as an in-bounds solution, and counted as a
satisfied constraint; NaN or infinite bounds panicked while sampling.
---
 src/filters.rs        | 2 +-
 src/oqnlp.rs          | 6 +++---
 src/scatter_search.rs | 6 ++++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..010a145 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -208,7 +208,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor.is_nan() || params.distance_factor < 0.0 {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index d951ad8..af3b88e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -448,7 +448,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
@@ -668,7 +668,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if value.is_nan() || value < lower || value > upper {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1080,7 +1080,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            if value.is_nan() || value < lower_bound || value > upper_bound {
                 return false;
             }
         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..f4d77d7 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -163,7 +163,9 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // Sampling needs a finite width, which also rules out NaN bounds
+            let width = bounds.upper[i] - bounds.lower[i];
+            if bounds.lower[i] >= bounds.upper[i] || !width.is_finite() {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
@@ -916,7 +918,7 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        if value.is_nan() || value < 0.0 {
             return false;
         }
     }
-- 
2.43.0


From 38d60b8675c3fe6dd7d9866716e6f78e2c703b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:15 +0000
Subject: [PATCH 12/23] fix: accept the documented minimum population size of 3

---
 src/oqnlp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index af3b88e..a163627 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -440,7 +440,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     ///
     /// If the `wait_cycle` parameter is greater than or equal to the `iterations` parameter, a warning is printed.
     pub fn new(problem: P, params: OQNLPParams) -> Result<Self, OQNLPError> {
-        if params.population_size <= 3 {
+        if params.population_size < 3 {
             return Err(OQNLPError::InvalidPopulationSize(params.population_size));
         }
 
-- 
2.43.0


From 93caf2c9b2ae84d4fa1188a4c5c1556aa825dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 13/23] fix: stop the stage timers when their stage ends

total_time() kept growing after end() instead of returning the stage's total.
---
 src/observers/stage1.rs | 2 +-
 src/observers/stage2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..69099a8 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -125,7 +125,7 @@ impl Stage1State {
 
     /// End Stage 1 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..39e8e98 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -126,7 +126,7 @@ impl Stage2State {
 
     /// End Stage 2 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
-- 
2.43.0


From faca5136c216131bd200e5d09b797ae24d47fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 14/23] fix: honour the callback frequency for a batch's single
 local search

---
 src/oqnlp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index a163627..55a590f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2048,7 +2048,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                     // Invoke observer callback for stage 2 progress
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 27161e49920fefb3dcc67939f84d2d3a3fdb470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 15/23] fix: leave Stage 2 state alone when the observer does
 not watch Stage 2

---
 src/oqnlp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 55a590f..860a440 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1141,8 +1141,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
-                if let Some(stage2) = observer.stage2_mut() {
-                    stage2.set_last_added_solution(&solution.point);
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
                 }
             }
 
@@ -1163,8 +1165,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
-                if let Some(stage2) = observer.stage2_mut() {
-                    stage2.set_last_added_solution(&solution.point);
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_last_added_solution(&solution.point);
+                    }
                 }
             }
 
-- 
2.43.0


From 7461472241b1b4fa2e611f4adec49b52c5c53c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 16/23] fix: sum the diversity distances in a fixed order

The parallel floating-point sum depends on how rayon splits the work, so two
runs with the same seed could accept different trial points.
---
 src/scatter_search.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index f4d77d7..65d783e 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -743,6 +743,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
                 #[cfg(feature = "rayon")]
                 let sum_dist = if self.enable_parallel {
+                    // Add up in index order: a parallel sum depends on how the work was split
                     (0..sample_size)
                         .into_par_iter()
                         .map(|i| {
@@ -751,6 +752,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                                 &ref_set[(i + 1) % ref_set.len()],
                             )
                         })
+                        .collect::<Vec<f64>>()
+                        .into_iter()
                         .sum::<f64>()
                 } else {
                     (0..sample_size)
-- 
2.43.0


From 209fbb1334d5bb85691b4052ec6b5dc1a773a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 17/23] fix: compute the same minimum distance sequentially and
 in parallel

The sequential path rounded squared distances below 1e-14 down to zero, which
made small search spaces diversify differently from the parallel path.
---
 src/scatter_search.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 65d783e..8f0ccc3 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -609,16 +609,11 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                     .map(|p| euclidean_distance_squared(point, p))
                     .reduce(|| f64::INFINITY, f64::min)
             } else {
-                // Sequential with early termination for near-zero distances
                 let mut min_dist = f64::INFINITY;
                 for p in ref_set {
                     let dist = euclidean_distance_squared(point, p);
                     if dist < min_dist {
                         min_dist = dist;
-                        // Early termination if points are essentially identical
-                        if dist < 1e-14 {
-                            return 0.0;
-                        }
                     }
                 }
                 min_dist
@@ -631,10 +626,6 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let dist = euclidean_distance_squared(point, p);
                 if dist < min_dist {
                     min_dist = dist;
-                    // Early termination if points are essentially identical
-                    if dist < 1e-14 {
-                        return 0.0;
-                    }
                 }
             }
             min_dist
-- 
2.43.0


From 6a58ff7580a463b84dedd7d499a3cd1248bd1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 18/23] fix: count the Stage 1 evaluations of trial points

The observer's function evaluation count left out the trial points evaluated
during intensification.
---
 src/scatter_search.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 8f0ccc3..375ea76 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -775,6 +776,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // 1. Constraint feasibility check (if constraints exist)
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
         // 3. Expensive objective evaluation only for diverse, feasible points
+        let evaluations = AtomicUsize::new(0);
         let evaluate_trial = |point: &Array1<f64>| -> Option<(Array1<f64>, f64)> {
             if !constraints.is_empty() && !is_feasible(point, &constraints) {
                 return None;
@@ -789,6 +791,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
@@ -804,6 +807,14 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
             trials.iter().filter_map(evaluate_trial).collect();
 
+        if let Some(ref mut obs) = self.observer {
+            if obs.should_observe_stage1() {
+                if let Some(stage1) = obs.stage1_mut() {
+                    stage1.add_function_evaluations(evaluations.into_inner());
+                }
+            }
+        }
+
         // If no trials passed filtering, keep current reference set unchanged
         if trial_evaluated.is_empty() {
             return;
-- 
2.43.0


From 2944a4192559d09df087070d3c749c12805dd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 19/23] fix: do not leave Stage 1 shown as running in resumed
 runs

---
 src/oqnlp.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 860a440..2307ce1 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -685,11 +685,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Start observer timing if enabled
         if let Some(ref mut observer) = self.observer {
             observer.start_timer();
-            if observer.should_observe_stage1() {
-                if let Some(stage1) = observer.stage1_mut() {
-                    stage1.start();
-                }
-            }
         }
 
         // Continue from a checkpoint restored by the user, or try to resume from one if enabled
@@ -715,6 +710,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 if self.verbose {
                     println!("Resuming from checkpoint at iteration {}", self.current_iteration);
                 }
+                // Observer: There is no Stage 1 to observe in a resumed run
+                if let Some(ref mut observer) = self.observer {
+                    observer.mark_stage1_complete();
+                }
+
                 let ref_set = self.current_reference_set.clone().unwrap_or_default();
                 let unchanged_cycles = self.unchanged_cycles;
                 // No pre-computed objectives when resuming from checkpoint
@@ -728,6 +728,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 println!("Starting Stage 1");
             }
 
+            // Observer: Start Stage 1 timing
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage1() {
+                    if let Some(stage1) = observer.stage1_mut() {
+                        stage1.start();
+                    }
+                }
+            }
+
             #[cfg(feature = "rayon")]
             let mut ss = ScatterSearch::new(self.problem.clone(), self.params.clone())?
                 .parallel(self.enable_parallel);
-- 
2.43.0


From e9cde2c735c6b9b9d7426ebd8b8d3607858f68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 20/23] fix: show a constraint that is not a number as
 violated, not as satisfied

---
 src/types.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index d8c2af4..c8fb578 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -353,11 +353,10 @@ impl SolutionSet {
                     let constraint_value = constraint_fn(&x_slice, &mut ());
 
                     // Format constraint status
-                    let status = if constraint_value >= 0.0 { "✓" } else { "✗" };
-                    let violation = if constraint_value < 0.0 {
-                        format!(" (violated by {:.6})", -constraint_value)
+                    let (status, violation) = if constraint_value >= 0.0 {
+                        ("✓", " (satisfied)".to_string())
                     } else {
-                        " (satisfied)".to_string()
+                        ("✗", format!(" (violated by {:.6})", -constraint_value))
                     };
 
                     // Add constraint description if provided
-- 
2.43.0


From 3a40913c54293c2129956580d83413937ddff415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 21/23] fix: refuse rows of different lengths from Python
 instead of re-shaping them

---
 python/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 485eaf2..b70e468 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -601,6 +601,9 @@ impl Problem for PyProblem {
                 Ok(bounds) => {
                     let rows = bounds.len();
                     let cols = if rows > 0 { bounds[0].len() } else { 0 };
+                    if bounds.iter().any(|row| row.len() != cols) {
+                        panic!("Variable bounds must have rows of the same length");
+                    }
                     Array2::from_shape_vec((rows, cols), bounds.into_iter().flatten().collect())
                         .unwrap()
                 }
@@ -647,6 +650,11 @@ impl Problem for PyProblem {
                     .map_err(|e: PyErr| EvaluationError::InvalidInput { reason: e.to_string() })?;
 
                 let size = hess_vec.len();
+                if hess_vec.iter().any(|row| row.len() != size) {
+                    return Err(EvaluationError::InvalidInput {
+                        reason: "Hessian shape mismatch".to_string(),
+                    });
+                }
                 let flat_hess: Vec<f64> = hess_vec.into_iter().flatten().collect();
 
                 Array2::from_shape_vec((size, size), flat_hess).map_err(|_| {
@@ -900,6 +908,11 @@ fn optimize(
         if let Some(points) = with_points {
             let rows = points.len();
             let cols = if rows > 0 { points[0].len() } else { 0 };
+            if points.iter().any(|point| point.len() != cols) {
+                return Err(PyValueError::new_err(
+                    "Invalid points array shape: points must all have the same length",
+                ));
+            }
             let flat_points: Vec<f64> = points.into_iter().flatten().collect();
             let points_array = Array2::from_shape_vec((rows, cols), flat_points)
                 .map_err(|e| PyValueError::new_err(format!("Invalid points array shape: {}", e)))?;
-- 
2.43.0


From 008e6ee2c503c55467f392d5faec4bfc5d576720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 22/23] fix: report the same error whichever worker fails first

---
 src/oqnlp.rs          | 3 +++
 src/scatter_search.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 2307ce1..0c835ba 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1948,6 +1948,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                         Ok((*local_iter, trial.clone(), *obj, local_solution, eval_count))
                     })
+                    .collect::<Vec<_>>()
+                    .into_iter()
+                    // Report the first failing search, not the first to fail
                     .collect();
 
                 let local_results = local_results?;
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 375ea76..343eac6 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -394,9 +394,12 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Parallelize when we have many points (>= 20) as objective evaluations can be expensive
         #[cfg(feature = "rayon")]
         let objectives: Vec<f64> = if self.enable_parallel && ref_set.len() >= 20 {
+            // Report the first failing point, not the first to fail
             ref_set
                 .par_iter()
                 .map(|point| self.problem.objective(point))
+                .collect::<Vec<_>>()
+                .into_iter()
                 .collect::<Result<Vec<f64>, _>>()?
         } else {
             ref_set
-- 
2.43.0


From 82e4f2fbfc42dbfbd57d5125b96771ea11114a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 23/23] fix: keep the best points at the front of the reference
 set when the rest is cut

select_nth_unstable over the whole merged set moved the k best points, just
sorted to the front, to other positions. The next round combines the first k.
---
 src/scatter_search.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 343eac6..56a0f62 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -847,8 +847,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
         all_points[..k].sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
 
-        // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
+        // Partition the remaining to get the pop_size best overall, leaving the sorted front alone
+        if pop_size > k {
+            all_points[k..].select_nth_unstable_by(pop_size - 1 - k, |a, b| a.1.total_cmp(&b.1));
+        }
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
-- 
2.43.0

