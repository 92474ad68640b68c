From 5f3d1af31ee0b9e9a1740ee91024e35c0191bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:21 +0000
Subject: [PATCH 1/6] fix: a target that is not verified makes the build an
 error

A target whose import failed to elaborate, that could not be read, or that has
no lowered work was at most logged, and the build was still reported as Good.
---
 src/builder.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 210b4fe..f6ac24a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1691,20 +1691,24 @@ impl<'a> Builder<'a> {
             match project.get_module(target) {
                 ProjectViewModule::Ok(_) => {
                     self.log_global(format!("error: module {} has no lowered work", target));
+                    self.status = BuildStatus::Error;
                 }
                 ProjectViewModule::Error(e) => {
                     if e.indirect {
                         if self.log_secondary_errors {
                             self.log_global(e.to_string());
                         }
+                        self.status = BuildStatus::Error;
                     } else {
                         self.log_loading_error(target, e);
                     }
                 }
-                ProjectViewModule::None => {
+                ProjectViewModule::None
+                | ProjectViewModule::Loading
+                | ProjectViewModule::Registered => {
                     self.log_global(format!("error: module {} is not loaded", target));
+                    self.status = BuildStatus::Error;
                 }
-                ProjectViewModule::Loading | ProjectViewModule::Registered => {}
             }
         }
     }
@@ -3335,6 +3339,7 @@ impl<'a> Builder<'a> {
                         lowered_modules.push((target.clone(), lowered));
                     } else {
                         self.log_global(format!("error: module {} has no lowered work", target));
+                        self.status = BuildStatus::Error;
                     }
                 }
                 ProjectViewModule::Error(e) => {
@@ -3342,14 +3347,17 @@ impl<'a> Builder<'a> {
                         if self.log_secondary_errors {
                             self.log_global(e.to_string());
                         }
+                        self.status = BuildStatus::Error;
                     } else {
                         self.log_loading_error(target, e);
                     }
                 }
-                ProjectViewModule::None => {
+                ProjectViewModule::None
+                | ProjectViewModule::Loading
+                | ProjectViewModule::Registered => {
                     self.log_global(format!("error: module {} is not loaded", target));
+                    self.status = BuildStatus::Error;
                 }
-                ProjectViewModule::Loading | ProjectViewModule::Registered => {}
             }
         }
         let mut extra_work = work_by_target.into_iter().collect::<Vec<_>>();
@@ -3581,6 +3589,7 @@ impl<'a> Builder<'a> {
                         }
                     } else {
                         self.log_global(format!("error: module {} has no lowered work", target));
+                        self.status = BuildStatus::Error;
                     }
                 }
                 ProjectViewModule::Error(e) => {
@@ -3590,15 +3599,18 @@ impl<'a> Builder<'a> {
                             // So we don't want to locate the error in this module.
                             self.log_global(e.to_string());
                         }
+                        self.status = BuildStatus::Error;
                     } else {
                         self.log_loading_error(target, e);
                     }
                 }
-                ProjectViewModule::None => {
+                ProjectViewModule::None
+                | ProjectViewModule::Loading
+                | ProjectViewModule::Registered => {
                     // Targets are supposed to be loaded already.
                     self.log_global(format!("error: module {} is not loaded", target));
+                    self.status = BuildStatus::Error;
                 }
-                ProjectViewModule::Loading | ProjectViewModule::Registered => {}
             }
         }
         self.metrics.loading_time = loading_start.elapsed().as_secs_f64();
-- 
2.43.0


From 5e94a81d0d1bcc74311d5f8b4e97e7e01ee930a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:57 +0000
Subject: [PATCH 2/6] fix: check the typeclass constraints of certificate claim
 arguments

A claim specialised a clause about instances of a typeclass to any type: the
constraint check accepted every ground type, and the trace checker never ran it.
---
 src/certificate_trace.rs       |  6 ++++++
 src/kernel/certificate_step.rs | 11 +++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index 6763b11..f4ac754 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -4359,6 +4359,9 @@ impl<'a> TraceChecker<'a> {
         )?;
         let clause = match parsed {
             CertificateStep::Claim(claim) => {
+                claim
+                    .validate_checker_payload(&self.kernel_context)
+                    .map_err(CodeGenError::GeneratedBadCode)?;
                 if step.generic {
                     claim.normalized_generic_clause()
                 } else {
@@ -4391,6 +4394,9 @@ impl<'a> TraceChecker<'a> {
         )?;
         match parsed {
             CertificateStep::Claim(claim) => {
+                claim
+                    .validate_checker_payload(&self.kernel_context)
+                    .map_err(CodeGenError::GeneratedBadCode)?;
                 let generic = claim.normalized_generic_clause();
                 if step.generic && is_synthetic_generic_wrapper(code) {
                     return Ok((generic.clone(), generic, code.clone()));
diff --git a/src/kernel/certificate_step.rs b/src/kernel/certificate_step.rs
index 5a45007..db3be4a 100644
--- a/src/kernel/certificate_step.rs
+++ b/src/kernel/certificate_step.rs
@@ -119,12 +119,11 @@ impl Claim {
         kernel_context: &KernelContext,
     ) -> bool {
         if let Some(required_tc) = expected_type.as_ref().as_typeclass() {
-            return actual_type.as_ref().is_type0()
-                || kernel_context.type_store.type_term_is_instance_of(
-                    term.as_ref(),
-                    local_context,
-                    required_tc,
-                );
+            return kernel_context.type_store.type_term_is_instance_of(
+                term.as_ref(),
+                local_context,
+                required_tc,
+            );
         }
         if expected_type.as_ref().is_type0() && actual_type.as_ref().is_type_param_kind() {
             return true;
-- 
2.43.0


From 49d3df2b24731375086a252e6f6b8630a2afc5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 3/6] fix: a claim step must not make its generic clause known
 from an instance

The trace checker recorded the general clause of a claim as an alias even when
only the specialised clause was justified, so p(a) could be used to prove p(b).
---
 src/certificate_trace.rs | 77 +++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/src/certificate_trace.rs b/src/certificate_trace.rs
index f4ac754..9154952 100644
--- a/src/certificate_trace.rs
+++ b/src/certificate_trace.rs
@@ -856,23 +856,30 @@ impl<'a> TraceWriter<'a> {
                 Ok(None)
             }
             ClaimStrategy::DirectFact => {
-                let reason = self
+                let generic_known = self
                     .shadow_checker
-                    .check_clause_direct_for_trace(clause, &self.kernel_context)
-                    .or_else(|| {
-                        self.shadow_checker
-                            .check_clause_direct_for_trace(generic, &self.kernel_context)
-                    });
-                if reason.is_none() {
+                    .check_clause_direct_for_trace(generic, &self.kernel_context)
+                    .is_some();
+                if !generic_known
+                    && self
+                        .shadow_checker
+                        .check_clause_direct_for_trace(clause, &self.kernel_context)
+                        .is_none()
+                {
                     return Ok(None);
                 }
+                let aliases = if generic_known {
+                    Self::claim_aliases_for_code(code, generic.clone(), clause)
+                } else {
+                    vec![]
+                };
                 self.push_step(
                     TraceRule::Claim,
                     code.clone(),
                     vec![],
                     clause.clone(),
                     false,
-                    Self::claim_aliases_for_code(code, generic.clone(), clause),
+                    aliases,
                 )
                 .map(Some)
             }
@@ -1190,7 +1197,6 @@ impl<'a> TraceWriter<'a> {
                     )
                     .map(Some);
             }
-            let aliases = Self::claim_aliases_for_code(code, generic.clone(), clause);
             return self
                 .push_step(
                     TraceRule::BrIntro,
@@ -1198,7 +1204,7 @@ impl<'a> TraceWriter<'a> {
                     premises,
                     clause.clone(),
                     false,
-                    aliases,
+                    vec![],
                 )
                 .map(Some);
         }
@@ -3783,22 +3789,20 @@ impl<'a> TraceChecker<'a> {
                 } else {
                     specialized.clone()
                 };
-                let aliases = if is_synthetic_generic_wrapper(&code) {
+                // The generic clause justifies its instance, but not the other way around.
+                let generic_reason = self
+                    .checker
+                    .check_clause_direct_for_trace(&generic, &self.kernel_context);
+                let aliases = if generic_reason.is_none() || is_synthetic_generic_wrapper(&code) {
                     vec![]
                 } else {
-                    TraceWriter::claim_aliases(generic.clone(), &specialized)
+                    TraceWriter::claim_aliases(generic, &specialized)
                 };
-                let reason = self
-                    .checker
-                    .check_clause_direct_for_trace(&generic, &self.kernel_context)
+                let reason = generic_reason
                     .or_else(|| {
                         self.checker
                             .check_clause_direct_for_trace(&clause, &self.kernel_context)
                     })
-                    .or_else(|| {
-                        self.checker
-                            .check_clause_direct_for_trace(&specialized, &self.kernel_context)
-                    })
                     .ok_or_else(|| {
                         CodeGenError::GeneratedBadCode(format!(
                             "certificate trace {:?} step {} is not directly known: {}",
@@ -3884,7 +3888,7 @@ impl<'a> TraceChecker<'a> {
                 };
                 match (step.br_kind, step.br_literal_index) {
                     (Some(kind), Some(literal_index)) => {
-                        let canonical_targets: Vec<Clause> = [&result, &generic, &specialized]
+                        let canonical_targets: Vec<Clause> = [&result, &generic]
                             .iter()
                             .filter_map(|target| {
                                 self.checker
@@ -3902,7 +3906,6 @@ impl<'a> TraceChecker<'a> {
                                 .is_some_and(|candidate| {
                                     candidate == result
                                         || candidate == generic
-                                        || candidate == specialized
                                         || canonical_targets.contains(&candidate)
                                 })
                         });
@@ -3961,16 +3964,14 @@ impl<'a> TraceChecker<'a> {
                 } else {
                     specialized.clone()
                 };
-                let justified = if step.premises.is_empty() {
+                // The generic clause justifies its instance, but not the other way around.
+                let targets = [&generic, &result];
+                let justified_target = if step.premises.is_empty() {
                     // Legacy premise-less form: re-derive from known reductions.
-                    self.checker
-                        .boolean_reduction_proves_for_trace(&generic, &self.kernel_context)
-                        || self
-                            .checker
-                            .boolean_reduction_proves_for_trace(&result, &self.kernel_context)
-                        || self
-                            .checker
-                            .boolean_reduction_proves_for_trace(&specialized, &self.kernel_context)
+                    targets.into_iter().find(|target| {
+                        self.checker
+                            .boolean_reduction_proves_for_trace(target, &self.kernel_context)
+                    })
                 } else {
                     // Premise-bearing form: the premises must jointly form one of the
                     // clause's reduction sets, so the check is local to this step.
@@ -3985,14 +3986,7 @@ impl<'a> TraceChecker<'a> {
                         };
                         premise_clauses.extend(step_clauses.all().cloned());
                     }
-                    let mut targets = vec![&result];
-                    if specialized != result {
-                        targets.push(&specialized);
-                    }
-                    if generic != result && generic != specialized {
-                        targets.push(&generic);
-                    }
-                    targets.iter().any(|target| {
+                    targets.into_iter().find(|target| {
                         self.checker
                             .checker_boolean_reduction_sets(target, &self.kernel_context)
                             .iter()
@@ -4017,14 +4011,15 @@ impl<'a> TraceChecker<'a> {
                             })
                     })
                 };
-                if !justified {
+                let Some(justified_target) = justified_target else {
                     return Err(CodeGenError::GeneratedBadCode(format!(
                         "certificate trace br_intro step {} is not justified by known reductions: {}",
                         index + 1,
                         code
                     )));
-                }
-                let aliases = if is_synthetic_generic_wrapper(&code) {
+                };
+                let generic_justified = *justified_target == generic;
+                let aliases = if !generic_justified || is_synthetic_generic_wrapper(&code) {
                     vec![]
                 } else {
                     TraceWriter::claim_aliases(generic, &specialized)
-- 
2.43.0


From d8f42ba543b00e4e5bce13ca53ba93b9d9d670ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 4/6] fix: report a failure to save the build cache

Errors while writing certificates, manifests or the project format version were
dropped, and the in-memory cache then lost the certificates of unbuilt modules.
---
 src/project.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 62ee215..de0a601 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1761,10 +1761,20 @@ impl Project {
     /// that weren't rebuilt. If false (full build), only newly built modules are in the manifest.
     pub fn update_build_cache(&mut self, mut new_cache: BuildCache, is_partial_build: bool) {
         if self.config.write_cache {
-            let _ = Self::write_project_format_version(&self.src_dir);
+            if let Err(error) = Self::write_project_format_version(&self.src_dir) {
+                eprintln!(
+                    "warning: could not save the project format version: {}",
+                    error
+                );
+            }
             // Save and merge: writes only new JSONL files, preserves manifest based on build type,
             // and merges old certificates back into memory
-            let _ = new_cache.save_merging_old(self.build_cache.as_ref(), is_partial_build);
+            if let Err(error) =
+                new_cache.save_merging_old(self.build_cache.as_ref(), is_partial_build)
+            {
+                eprintln!("warning: could not save the build cache: {}", error);
+                new_cache.merge_certificates_from(self.build_cache.as_ref());
+            }
         } else {
             // Even if we're not writing to disk, we need to merge the old certificates
             // into memory so they're available for future builds
-- 
2.43.0


From 7771ec5b9a969f73d328cd498d36af582c0ed699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 5/6] fix: skip a module only if its dependencies are those it
 was verified with

The manifest recorded a module by its own content alone. After an edit to a
dependency was verified by itself, modules importing it were skipped as
unchanged and reported as verified without being checked against the edit.
---
 src/builder.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f6ac24a..488b5ce 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2958,7 +2958,7 @@ impl<'a> Builder<'a> {
             .insert(target.clone(), used_cert_count);
 
         let content_hash = if module_good {
-            self.project().get_module_content_hash(lowered.module_id)
+            self.verification_hash(lowered.module_id)
         } else {
             None
         };
@@ -3746,6 +3746,28 @@ impl<'a> Builder<'a> {
         dependencies
     }
 
+    /// Identifies everything the goals of a module depend on: its own content and the
+    /// content of all of its dependencies.
+    fn verification_hash(&self, module_id: ModuleId) -> Option<blake3::Hash> {
+        let content_hash = self.project().get_module_content_hash(module_id)?;
+        let mut dependencies = Vec::new();
+        for dep_id in self.project().all_dependencies(module_id) {
+            let dep_descriptor = self.project().get_module_descriptor(dep_id)?;
+            let dep_hash = self.project().get_module_content_hash(dep_id)?;
+            dependencies.push((dep_descriptor.to_string(), dep_hash));
+        }
+        dependencies.sort_by(|(left, _), (right, _)| left.cmp(right));
+
+        let mut hasher = blake3::Hasher::new();
+        hasher.update(content_hash.as_bytes());
+        for (dep_name, dep_hash) in dependencies {
+            hasher.update(&(dep_name.len() as u64).to_le_bytes());
+            hasher.update(dep_name.as_bytes());
+            hasher.update(dep_hash.as_bytes());
+        }
+        Some(hasher.finalize())
+    }
+
     fn try_skip_unchanged_module(
         &mut self,
         module_id: ModuleId,
@@ -3759,7 +3781,7 @@ impl<'a> Builder<'a> {
             return false;
         };
 
-        let Some(current_hash) = self.project().get_module_content_hash(module_id) else {
+        let Some(current_hash) = self.verification_hash(module_id) else {
             return false;
         };
 
@@ -3771,25 +3793,6 @@ impl<'a> Builder<'a> {
             return false;
         }
 
-        // Check all dependencies recursively
-        for dep_id in self.project().all_dependencies(module_id) {
-            let Some(dep_descriptor) = self.project().get_module_descriptor(dep_id) else {
-                return false;
-            };
-
-            let Some(dep_hash) = self.project().get_module_content_hash(dep_id) else {
-                return false;
-            };
-
-            if !self
-                .project()
-                .build_cache()
-                .manifest_matches(dep_descriptor, dep_hash)
-            {
-                return false;
-            }
-        }
-
         let Some(_existing_certs) = self.project().build_cache().get_certificates(target) else {
             // This is a bad case. The different build files are inconsistent.
             // Well, just ignore it.
-- 
2.43.0


From b9240dd3ffb06e82a57a4ef48be0c94f63ab1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 6/6] fix: keep unused certificates in their stored order

---
 src/certificate.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/certificate.rs b/src/certificate.rs
index 14be252..1731dfb 100644
--- a/src/certificate.rs
+++ b/src/certificate.rs
@@ -2343,12 +2343,13 @@ impl CertificateWorklist {
         self.indexes_for_goal.values().map(|v| v.len()).sum()
     }
 
-    /// Iterator over unused certificates in the worklist
+    /// Iterator over unused certificates in the worklist, in the order of the store
     pub fn iter_unused(&self) -> impl Iterator<Item = &Certificate> {
-        self.indexes_for_goal
-            .values()
-            .flat_map(|indexes| indexes.iter())
-            .filter_map(move |&index| self.store.certs.get(index))
+        let mut indexes: Vec<usize> = self.indexes_for_goal.values().flatten().copied().collect();
+        indexes.sort_unstable();
+        indexes
+            .into_iter()
+            .filter_map(move |index| self.store.certs.get(index))
     }
 }
 
-- 
2.43.0

