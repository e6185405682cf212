From 96e326b9ec3c96744822aa35ae2926ac7d50f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 01/29] fix: make an indexed place depend on the value of its
 index

---
 crates/flowistry/src/infoflow/analysis.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..db93b13 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -117,7 +117,15 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
         });
-    conflicts.chain(provenance).copied().collect()
+    // The element designated by `a[i]` depends on the value of `i`. Note that `_0` is not an index,
+    // but a placeholder for any index (see `PlaceExt::normalize`).
+    let indexes = place.projection.iter().filter_map(|elem| match elem {
+      PlaceElem::Index(local) if local != RETURN_PLACE => {
+        Some(Place::from_local(local, self.tcx))
+      }
+      _ => None,
+    });
+    conflicts.chain(provenance).copied().chain(indexes).collect()
   }
 
   /// Returns all the dependencies of `place` within `state`.
-- 
2.43.0


From 54199030245e26dc02d69427264581fe399f02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:09 +0000
Subject: [PATCH 02/29] fix: make a call depend on its non-constant function
 operand

---
 crates/flowistry/src/infoflow/mutation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..3b397e3 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -184,7 +184,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -199,7 +199,12 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        // The function operand is an input when it is not a constant, e.g. a function pointer.
+        let arg_inputs = arg_places
+          .iter()
+          .copied()
+          .chain(func.as_place())
+          .collect::<Vec<_>>();
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
-- 
2.43.0


From 2341ad7616b26ed8afdd73132ceb7cf2e9d1ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:32 +0000
Subject: [PATCH 03/29] fix: do not destructure a moved struct that has
 invisible fields

---
 crates/flowistry/src/infoflow/mutation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 3b397e3..8678fae 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -6,7 +6,7 @@ use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::{AdtKind, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
+use rustc_utils::{OperandExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -136,8 +136,16 @@ where
         if let TyKind::Adt(adt_def, substs) = place_ty.kind()
           && adt_def.is_struct()
         {
+          // Only destructure if every field can be named. Otherwise the invisible fields would
+          // be missed, and the position of a visible field is not its field index.
+          let all_visible = adt_def.all_fields().all(|field| {
+            field
+              .vis
+              .is_accessible_from(self.place_info.def_id, self.place_info.tcx)
+          });
           let fields = adt_def
-            .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
+            .all_fields()
+            .filter(|_| all_visible)
             .enumerate()
             .map(|(i, field_def)| {
               PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
-- 
2.43.0


From 139f83e0f8ed8dc6ca2cffd7f5996469817c0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 04/29] fix: do not panic in the IFC checker on a body that
 never returns

---
 crates/flowistry_ifc/src/analysis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..a4e09e3 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -96,14 +96,17 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
+  let Some(final_state) = body
     .all_returns()
     .map(|location| results.state_at(location).clone())
     .reduce(|mut a, b| {
       a.join(&b);
       a
     })
-    .unwrap();
+  else {
+    // A body that never returns has no final state.
+    return Ok(IssueFound::No);
+  };
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-- 
2.43.0


From ed2f8a8ed6b9547822530d29180c183b15be7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:05 +0000
Subject: [PATCH 05/29] fix: let a place behind a reference conflict with its
 parents up to that reference

---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 crates/flowistry/src/mir/placeinfo.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index db93b13..1171184 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,6 +116,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     // The element designated by `a[i]` depends on the value of `i`. Note that `_0` is not an index,
     // but a placeholder for any index (see `PlaceExt::normalize`).
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..0dc1d09 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -117,6 +117,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .projection
         .iter()
         .enumerate()
+        .rev()
         .map(|(i, elem)| {
           let place = PlaceRef {
             local: place.local,
-- 
2.43.0


From 6211f7da3ab2596f8bac082cfc8885f4164c7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 06/29] fix: make a call depend on everything reachable from
 its arguments

A call was only made to depend on its argument places, not on the values
behind the pointers within them. A write through such a pointer, made after
the pointer was created and before the call, was missing from the
dependencies of the call's result.
---
 crates/flowistry/src/infoflow/mutation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 8678fae..3828a11 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -207,9 +207,11 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        // The function operand is an input when it is not a constant, e.g. a function pointer.
+        // A call can read everything that is reachable from its arguments. The function operand is
+        // also an input when it is not a constant, e.g. a function pointer.
         let arg_inputs = arg_places
           .iter()
+          .flat_map(|arg| self.place_info.reachable_values(*arg, Mutability::Not))
           .copied()
           .chain(func.as_place())
           .collect::<Vec<_>>();
-- 
2.43.0


From c2663ffefab33527f2374414f17df2b7103e23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:45 +0000
Subject: [PATCH 07/29] fix: do not report IFC flows from a secure place that
 is never set at a return

---
 crates/flowistry_ifc/src/analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index a4e09e3..9cebd49 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -113,7 +113,9 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
     let secure_deps = results.analysis.deps_for(&final_state, *secure);
     for insecure in insecure_places.iter() {
       let insecure_deps = results.analysis.deps_for(&final_state, *insecure);
-      if insecure_deps.is_superset(&secure_deps) {
+      // A secure place that is not set when the function returns has no dependencies,
+      // so nothing can depend on it.
+      if !secure_deps.is_empty() && insecure_deps.is_superset(&secure_deps) {
         errors.push((secure, insecure));
       }
     }
-- 
2.43.0


From 6fca77546b0251a2dcf57bcdb00ec8828961b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:09 +0000
Subject: [PATCH 08/29] fix: report IFC flows from parameters and to the return
 type with their source

---
 crates/flowistry_ifc/src/analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index 9cebd49..a24ae6f 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -135,7 +135,8 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   };
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
-    let body_span = tcx.hir_span_with_body(body_id.hir_id);
+    // Parameters and the return type lie outside of the body expression.
+    let body_span = tcx.hir_span_with_body(tcx.hir_body_owner(*body_id));
     let src_span = decls[src.local].source_info.span.as_local(body_span);
     let dst_span = decls[dst.local].source_info.span.as_local(body_span);
 
-- 
2.43.0


From bfc3647d8cbfc481497f017f1696ed41d8ec7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 09/29] fix: apply the effect of a location to the state before
 it, not to its own output

---
 crates/flowistry/src/mir/engine.rs | 37 ++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..36a4342 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -79,25 +79,20 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
     }
   }
 
+  // During the iteration, `state` holds the domain *before* each location. An effect must not be
+  // applied to its own output, or else the result depends on how often a location is visited.
   while let Some(loc_index) = dirty_queue.pop() {
     let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
       unreachable!()
     };
+    let mut out_state = state[loc_index].clone();
     let next_locs = match body.stmt_at(location) {
       Either::Left(statement) => {
-        analysis.apply_primary_statement_effect(
-          &mut state[loc_index],
-          statement,
-          location,
-        );
+        analysis.apply_primary_statement_effect(&mut out_state, statement, location);
         vec![location.successor_within_block()]
       }
       Either::Right(terminator) => {
-        analysis.apply_primary_terminator_effect(
-          &mut state[loc_index],
-          terminator,
-          location,
-        );
+        analysis.apply_primary_terminator_effect(&mut out_state, terminator, location);
         body
           .basic_blocks
           .successors(location.block)
@@ -111,14 +106,32 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
 
     for next_loc in next_locs {
       let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
-      let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
-      let changed = next_state.join(cur_state);
+      let changed = state[next_loc_index].join(&out_state);
       if changed {
         dirty_queue.insert(next_loc_index);
       }
     }
   }
 
+  // The results are the domains *after* each location.
+  for (block, data) in traversal::reverse_postorder(body) {
+    for statement_index in 0 ..= data.statements.len() {
+      let location = Location {
+        block,
+        statement_index,
+      };
+      let out_state = &mut state[location.to_index(&location_domain)];
+      match body.stmt_at(location) {
+        Either::Left(statement) => {
+          analysis.apply_primary_statement_effect(out_state, statement, location);
+        }
+        Either::Right(terminator) => {
+          analysis.apply_primary_terminator_effect(out_state, terminator, location);
+        }
+      }
+    }
+  }
+
   let state = state.into_iter().map(Rc::new).collect();
 
   AnalysisResults {
-- 
2.43.0


From b4f53caad1cb5bf0bb815bbc98830f6d595c5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 10/29] fix: keep the parent's regions when translating a
 callee's places

---
 crates/flowistry/src/infoflow/recursive.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..5591589 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -182,18 +182,20 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           break;
         }
 
-        // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The types inside of `elem` belong to the child, in particular their regions.
         let elem = match elem {
-          ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
+          ProjectionElem::Field(field, child_ty) => {
+            let field_ty = match ty.ty.kind() {
+              TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Closure(..) => {
+                PlaceTy::field_ty(tcx, ty.ty, ty.variant_index, field)
+              }
+              _ => child_ty,
+            };
+            ProjectionElem::Field(field, field_ty)
+          }
           elem => elem,
         };
+        ty = ty.projection_ty(tcx, elem);
         projection.push(elem);
       }
 
-- 
2.43.0


From 8d6fe3f7c4280f8b6dd172ff463e012da91ca052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 11/29] fix: a callee's effect depends on its arguments even if
 it has overwritten them

---
 crates/flowistry/src/infoflow/recursive.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 5591589..587e399 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -214,10 +214,13 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
 
       let child_deps = return_state.row_set(child);
-      let parent_deps = return_state
-        .rows()
-        .filter(|(_, deps)| child_deps.is_superset(deps))
-        .filter_map(|(row, _)| translate_child_to_parent(*row, false))
+      // Every argument of the child that influences `child`, whatever has become of the argument.
+      let parent_deps = flow
+        .analysis
+        .place_info
+        .all_args()
+        .filter(|(_, arg_loc)| child_deps.contains(*arg_loc))
+        .filter_map(|(arg, _)| translate_child_to_parent(arg, false))
         .collect::<Vec<_>>();
 
       debug!(
-- 
2.43.0


From 5ce05b0ad09af4e3fd0e9155bc28e648b70b8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 12/29] fix: apply the mutations of a callee independently of
 their order

---
 crates/flowistry/src/infoflow/analysis.rs  | 12 ++++++++++-
 crates/flowistry/src/infoflow/recursive.rs | 25 ++++++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 1171184..8d5a2fb 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -206,6 +206,14 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     }
 
+    // Possible mutations leave the state before them in place, so what they depend on should not be
+    // affected by the order of mutations. Include provenance of mutated pointers before applying any.
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
+      if matches!(mt.status, MutationStatus::Possibly) {
+        add_deps(state, mt.mutated, deps);
+      }
+    }
+
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
@@ -219,7 +227,9 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
 
       // Add deps of mutated to include provenance of mutated pointers
-      add_deps(state, mt.mutated, deps);
+      if matches!(mt.status, MutationStatus::Definitely) {
+        add_deps(state, mt.mutated, deps);
+      }
 
       let mutable_aliases = self
         .place_info
diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 587e399..589374a 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -1,5 +1,7 @@
 #![allow(unused)]
 
+use std::mem;
+
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
@@ -236,9 +238,28 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           MutationStatus::Possibly
         },
       })
-    }).collect::<Vec<_>>();
+    });
+
+    // Distinct child places can become the same parent place (see private fields above), so their
+    // mutations are merged. And a place has to be mutated before its sub-places, because a definite
+    // mutation clears them.
+    let mut merged = Vec::<Mutation>::new();
+    for mt in mutations {
+      let same = merged.iter_mut().find(|other| {
+        other.mutated == mt.mutated
+          && mem::discriminant(&other.status) == mem::discriminant(&mt.status)
+      });
+      match same {
+        Some(other) => other.inputs.extend(mt.inputs),
+        None => merged.push(mt),
+      }
+    }
+    merged.sort_by_key(|mt| match mt.status {
+      MutationStatus::Definitely => (0, mt.mutated.projection.len()),
+      MutationStatus::Possibly => (1, 0),
+    });
 
-    self.transfer_function(state, mutations, location);
+    self.transfer_function(state, merged, location);
 
     true
   }
-- 
2.43.0


From 3e00428f7ce06a4765b76273e1cd95ba982907ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 13/29] fix: recurse into the function that a trait method call
 runs

---
 crates/flowistry/src/infoflow/recursive.rs | 28 +++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 589374a..3a67aa6 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -3,9 +3,10 @@
 use std::mem;
 
 use log::{debug, info};
+use rustc_hir::def::DefKind;
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind},
+  ty::{ClosureKind, GenericArgKind, Instance, InstanceKind, TyKind, TypingEnv},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
@@ -47,23 +48,38 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, fn_args) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, fn_args) => (def_id, *fn_args),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
       }
     };
 
+    // A trait method is not necessarily the function being run, even if it has a body.
+    let typing_env = TypingEnv::post_analysis(tcx, self.def_id);
+    let instance =
+      Instance::try_resolve(tcx, typing_env, *def_id, tcx.erase_regions(fn_args));
+    let def_id = match instance {
+      Ok(Some(Instance {
+        def: InstanceKind::Item(def_id),
+        ..
+      })) if matches!(tcx.def_kind(def_id), DefKind::Fn | DefKind::AssocFn) => def_id,
+      _ => {
+        debug!("  Func cannot be resolved");
+        return false;
+      }
+    };
+
     // If a function returns never (fn () -> !) then there are no exit points,
     // so we can't analyze effects on exit
-    let fn_sig = tcx.fn_sig(*def_id);
+    let fn_sig = tcx.fn_sig(def_id);
     if fn_sig.skip_binder().output().skip_binder().is_never() {
       debug!("  Func returns never");
       return false;
     }
 
-    let node = match tcx.hir_get_if_local(*def_id) {
+    let node = match tcx.hir_get_if_local(def_id) {
       Some(node) => node,
       None => {
         debug!("  Func is not in local crate");
@@ -122,7 +138,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     let body_with_facts = get_body_with_borrowck_facts(tcx, def_id.expect_local());
     let mut recurse_cache = self.recurse_cache.borrow_mut();
     let flow = recurse_cache.entry(body_id).or_insert_with(|| {
-      info!("Recursing into {}", tcx.def_path_debug_str(*def_id));
+      info!("Recursing into {}", tcx.def_path_debug_str(def_id));
       super::compute_flow(tcx, body_id, body_with_facts)
     });
     let body = &body_with_facts.body;
-- 
2.43.0


From dc124809e5880b5371e4332db103ac518ffbfc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 14/29] fix: notice edits and saves of documents that are not
 in the active editor

---
 ide/src/focus.ts | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..a59d781 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -266,14 +266,11 @@ export class FocusMode {
     // pause rendering if there are unsaved changes in the doc
     this.doc_edit_callback = vscode.workspace.onDidChangeTextDocument(
       (event) => {
-        let editor = vscode.window.activeTextEditor!;
-        let doc = editor.document;
-
-        if (!valid_document(editor.document)) {
+        if (!valid_document(event.document)) {
           return;
         }
 
-        if (event.document === doc && doc.isDirty) {
+        if (event.document.isDirty) {
           this.state.clear();
 
           if (this.mode !== "idle") {
@@ -285,10 +282,8 @@ export class FocusMode {
     );
 
     // reinitialize focus mode state after each save
-    this.doc_save_callback = vscode.workspace.onDidSaveTextDocument(() => {
-      let editor = vscode.window.activeTextEditor!;
-
-      if (!valid_document(editor.document)) {
+    this.doc_save_callback = vscode.workspace.onDidSaveTextDocument((doc) => {
+      if (!valid_document(doc)) {
         return;
       }
 
-- 
2.43.0


From d143d4f046accad1666610c191643982969a53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 15/29] fix: clear the highlights of every visible editor, also
 when the analysis fails

---
 ide/src/focus.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index a59d781..cd88535 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -302,10 +302,7 @@ export class FocusMode {
   };
 
   private clear_ranges = () => {
-    let editor = vscode.window.activeTextEditor;
-    if (editor) {
-      clear_ranges(editor);
-    }
+    vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
 
   private get_doc_state = async (
@@ -328,8 +325,9 @@ export class FocusMode {
         if (doc_state_res.type == "FileNotFound") {
           this.state.set(filename, "notfound");
         } else {
-          if (userActivated) await show_error(doc_state_res);
           this.set_mode("error");
+          this.clear_ranges();
+          if (userActivated) await show_error(doc_state_res);
           return null;
         }
       }
@@ -349,8 +347,9 @@ export class FocusMode {
     userActivated: boolean = false
   ) => {
     if (!is_ok(result)) {
-      if (userActivated) await show_error(result);
       this.set_mode("error");
+      this.clear_ranges();
+      if (userActivated) await show_error(result);
     } else {
       await hide_error();
       this.set_mode("active");
-- 
2.43.0


From 9e11dac6908e92cf751d7cded27bc7029f3be276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 16/29] fix: ignore answers for text that has changed since or
 requested before focus mode was turned off

---
 ide/src/focus.ts | 81 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index cd88535..1955080 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -153,9 +153,10 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     }
@@ -170,7 +171,8 @@ class FocusDocumentState {
   };
 
   get_body_state = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<FocusBodyState> | null> => {
     // Find all bodies that contain the user's selection.
     let result = this.bodies.search(
@@ -190,6 +192,9 @@ class FocusDocumentState {
         editor.document,
         editor.selection
       );
+      if (!is_current()) {
+        return null;
+      }
       body.set(body_state_res);
       return body_state_res;
     } else {
@@ -198,9 +203,10 @@ class FocusDocumentState {
   };
 
   set_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -212,9 +218,10 @@ class FocusDocumentState {
   };
 
   unset_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -226,9 +233,10 @@ class FocusDocumentState {
   };
 
   select = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -258,6 +266,10 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // Incremented when answers that have not arrived yet should be ignored,
+  // e.g. because the document was edited or focus mode was turned off.
+  private epoch: number = 0;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -271,6 +283,7 @@ export class FocusMode {
         }
 
         if (event.document.isDirty) {
+          this.epoch += 1;
           this.state.clear();
 
           if (this.mode !== "idle") {
@@ -291,6 +304,7 @@ export class FocusMode {
         return;
       }
 
+      this.epoch += 1;
       this.set_mode("active");
       this.update_slice();
     });
@@ -305,6 +319,17 @@ export class FocusMode {
     vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
 
+  // Checks whether an answer requested in `epoch` should be ignored.
+  private is_stale = (epoch: number): boolean => {
+    if (epoch === this.epoch) {
+      return false;
+    }
+
+    // The analyzer process has changed the status bar.
+    globals.status_bar.set_state(this.mode);
+    return true;
+  };
+
   private get_doc_state = async (
     editor: vscode.TextEditor,
     userActivated: boolean = false
@@ -318,7 +343,12 @@ export class FocusMode {
     let filename = editor.document.fileName;
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
+      let epoch = this.epoch;
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (this.is_stale(epoch)) {
+        return null;
+      }
+
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
@@ -371,7 +401,15 @@ export class FocusMode {
       return;
     }
 
-    let result = await doc_state.on_change_selection(editor);
+    let epoch = this.epoch;
+    let result = await doc_state.on_change_selection(
+      editor,
+      () => epoch === this.epoch
+    );
+    if (this.is_stale(epoch)) {
+      return;
+    }
+
     await this.handle_analysis_result(result, userActivated);
   };
 
@@ -396,7 +434,8 @@ export class FocusMode {
     (
       f: (
         _editor: vscode.TextEditor,
-        _state: FocusDocumentState
+        _state: FocusDocumentState,
+        _is_current: () => boolean
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -419,19 +458,24 @@ export class FocusMode {
         return;
       }
 
-      let result = await f(editor, doc_state);
+      let epoch = this.epoch;
+      let result = await f(editor, doc_state, () => epoch === this.epoch);
+      if (this.is_stale(epoch)) {
+        return;
+      }
+
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
 
-  focus_mark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.set_mark(editor)
+  focus_mark = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.set_mark(editor, is_current)
   );
-  focus_unmark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.unset_mark(editor)
+  focus_unmark = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.unset_mark(editor, is_current)
   );
-  focus_select = this.focus_subcommand((editor, doc_state) =>
-    doc_state.select(editor)
+  focus_select = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.select(editor, is_current)
   );
 
   focus = async () => {
@@ -440,6 +484,7 @@ export class FocusMode {
       this.register_callbacks();
       await this.update_slice(true);
     } else {
+      this.epoch += 1;
       this.set_mode("idle");
       this.clear_ranges();
       this.dispose_callbacks();
-- 
2.43.0


From 4912fadd43bcbf127481f10fe58078b24778bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 17/29] fix: do not fade the part of a slice range that shares
 a container with other text

---
 ide/src/decorations.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ide/src/decorations.ts b/ide/src/decorations.ts
index 8c99517..44b12be 100644
--- a/ide/src/decorations.ts
+++ b/ide/src/decorations.ts
@@ -45,11 +45,15 @@ export let invert_ranges = (
   doc: vscode.TextDocument
 ): Range[] => {
   let icontainer = range_to_interval(container, doc);
-  let ipieces = pieces.map((piece) => range_to_interval(piece, doc));
+  // Only the part of a piece that lies in the container is relevant.
+  let ipieces = pieces.map((piece): Interval => {
+    let [start, end] = range_to_interval(piece, doc);
+    return [Math.max(start, icontainer[0]), Math.min(end, icontainer[1])];
+  });
 
   let filename = container.filename;
   let pieces_sorted = _.sortBy(ipieces, (r) => r[0]).filter(
-    (r) => icontainer[0] <= r[0] && r[1] <= icontainer[1]
+    (r) => r[0] <= r[1]
   );
 
   let new_ranges: Interval[] = [];
-- 
2.43.0


From 84003cc7776823e9eec5fe3cdea02e771534023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 18/29] fix: order search results by size, not by the size's
 decimal digits

---
 ide/src/range.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..0938cff 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,10 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From b451c9f87ad0c801478f4b57a0f8390e7a936897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 19/29] fix: find the function whose range is exactly the
 selection

---
 ide/src/range.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index 0938cff..097140e 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -101,11 +101,15 @@ export class RangeTree<T> {
 
     result.forEach(([interval, value]) => {
       let range = interval_to_range(interval, this.filename, this.doc);
-      if (is_contained(interval, query)) {
+      let contained = is_contained(interval, query);
+      let containing = is_contained(query, interval);
+      if (contained) {
         final.contained.push({ range, value });
-      } else if (is_contained(query, interval)) {
+      }
+      if (containing) {
         final.containing.push({ range, value });
-      } else {
+      }
+      if (!contained && !containing) {
         final.overlapping.push({ range, value });
       }
     });
-- 
2.43.0


From a11c19c3bc4718ea1ce6e5a72cf8667d413d08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 20/29] fix: give a place behind a reference its own
 dependencies when it is queried

deps_for and forward slices looked only at the direct places reachable from the
queried place. A place such as *r is not one of them, so selecting it produced an
empty slice, without what it holds and without what determines where r points.
---
 crates/flowistry/src/infoflow/analysis.rs     | 5 ++++-
 crates/flowistry/src/infoflow/dependencies.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 8d5a2fb..6398c7c 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -143,7 +143,10 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       .place_info
       .reachable_values(place, Mutability::Not)
       .iter()
-      .flat_map(|place| self.influences(*place))
+      .copied()
+      // A place behind a reference is not among its own reachable (direct) values.
+      .chain([place])
+      .flat_map(|place| self.influences(place))
     {
       deps.union(state.row_set(&self.place_info.normalize(subplace)));
     }
diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 71e0995..abb6f55 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -5,7 +5,7 @@ use log::{debug, trace};
 use rustc_middle::mir::{visit::Visitor, *};
 use rustc_span::Span;
 use rustc_utils::{
-  BodyExt, OperandExt, SpanExt, block_timer,
+  BodyExt, OperandExt, PlaceExt, SpanExt, block_timer,
   mir::location_or_arg::{LocationOrArg, index::LocationOrArgSet},
   source_map::spanner::{EnclosingHirSpans, Spanner},
 };
@@ -37,6 +37,7 @@ impl TargetDeps {
     results: &FlowResults<'_, 'tcx>,
   ) -> Self {
     let place_info = &results.analysis.place_info;
+    let body = results.analysis.body;
     let location_domain = results.analysis.location_domain();
     // let mut backward = LocationSet::new(location_domain);
 
@@ -44,7 +45,10 @@ impl TargetDeps {
       place_info
         .reachable_values(*place, Mutability::Not)
         .iter()
-        .map(move |reachable| (*reachable, *location))
+        .copied()
+        // A place behind a reference is not among its own reachable (direct) values.
+        .chain((!place.is_direct(body, results.analysis.tcx)).then_some(*place))
+        .map(move |reachable| (reachable, *location))
     });
 
     let all_forward = expanded_targets
-- 
2.43.0


From 32b975278c0a1492efb73d1f79b6f39c15ef129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:32 +0000
Subject: [PATCH 21/29] fix: depend on the branches that decide whether a
 deciding branch is reached

Only the branches that directly decide whether a block runs were added. In
`if p { match d { 0 => b = 1, _ => {} } }` the match tests d itself, which is not
computed under the if, so b did not depend on p.
---
 crates/flowistry/src/infoflow/analysis.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 6398c7c..0ef995f 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -5,6 +5,7 @@ use indexical::bitset::rustc::IndexMatrix;
 use log::{debug, trace};
 use rustc_data_structures::fx::FxHashMap as HashMap;
 use rustc_hir::{BodyId, def_id::DefId};
+use rustc_index::bit_set::DenseBitSet;
 use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::TyCtxt,
@@ -153,6 +154,22 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     deps
   }
 
+  /// Returns every block that decides whether `block` is executed, directly or by deciding
+  /// whether another such block is executed.
+  fn controlled_by(&self, block: BasicBlock) -> DenseBitSet<BasicBlock> {
+    let mut controlled_by = DenseBitSet::new_empty(self.body.basic_blocks.len());
+    let mut worklist = vec![block];
+    while let Some(block) = worklist.pop() {
+      let direct = self.control_dependencies.dependent_on(block);
+      for control in direct.into_iter().flat_map(|set| set.iter()) {
+        if controlled_by.insert(control) {
+          worklist.push(control);
+        }
+      }
+    }
+    controlled_by
+  }
+
   // This function expects *ALL* the mutations that occur within a given [`Location`] at once.
   pub(crate) fn transfer_function(
     &self,
@@ -191,9 +208,9 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     }
 
     // Add location of every control dependency.
-    let controlled_by = self.control_dependencies.dependent_on(location.block);
+    let controlled_by = self.controlled_by(location.block);
     let body = self.body;
-    for block in controlled_by.into_iter().flat_map(|set| set.iter()) {
+    for block in controlled_by.iter() {
       for deps in &mut all_deps {
         deps.insert(body.terminator_loc(block));
       }
-- 
2.43.0


From 3be1ed45bb35935ba02a75835e1a525f8867c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:45 +0000
Subject: [PATCH 22/29] fix: the workspace root was taken to be the workspace
 folder even if no Cargo.toml is there

Promise.all does not look inside the objects, so `has` was always a promise and the first
directory was chosen without looking for its manifest.
---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From a752f07255e9f91a99c35c6e1576c2f76e26d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:45 +0000
Subject: [PATCH 23/29] fix: the analyzer was not given the toolchain's
 libraries, sysroot and search path

spawn takes environment variables in `env` and ignored them beside `cwd`; the entries of PATH
were joined with a semicolon on every platform.
---
 ide/src/setup.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1dad0dc..6bb39ef 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -44,14 +44,17 @@ export const get_flowistry_opts = async (cwd: string) => {
 
   const library_path = LIBRARY_PATHS[process.platform] || "LD_LIBRARY_PATH";
 
-  const PATH = cargo_bin() + ";" + process.env.PATH;
+  const PATH = cargo_bin() + path.delimiter + process.env.PATH;
 
   return {
     cwd,
-    [library_path]: target_libdir,
-    SYSROOT: sysroot,
-    RUST_BACKTRACE: "1",
-    PATH,
+    env: {
+      ...process.env,
+      [library_path]: target_libdir,
+      SYSROOT: sysroot,
+      RUST_BACKTRACE: "1",
+      PATH,
+    },
   };
 };
 
-- 
2.43.0


From de4b31f51f02d072ba017165b614252ef186b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:18 +0000
Subject: [PATCH 24/29] fix: the dereference of an argument had no aliases even
 if the pointer was replaced

---
 crates/flowistry/src/mir/aliases.rs | 61 ++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 84104e7..012aba0 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -15,7 +15,10 @@ use rustc_index::{
   bit_set::{ChunkedBitSet, SparseBitMatrix},
 };
 use rustc_middle::{
-  mir::{visit::Visitor, *},
+  mir::{
+    visit::{MutatingUseContext, PlaceContext, Visitor},
+    *,
+  },
   ty::{Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind},
 };
 use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
@@ -33,6 +36,22 @@ struct GatherBorrows<'tcx> {
   borrows: Vec<(RegionVid, BorrowKind, Place<'tcx>)>,
 }
 
+/// Gathers every place that is overwritten or mutably borrowed.
+#[derive(Default)]
+struct GatherOverwrites<'tcx> {
+  places: HashSet<Place<'tcx>>,
+}
+
+impl<'tcx> Visitor<'tcx> for GatherOverwrites<'tcx> {
+  fn visit_place(&mut self, place: &Place<'tcx>, context: PlaceContext, _: Location) {
+    if let PlaceContext::MutatingUse(usage) = context
+      && usage != MutatingUseContext::Drop
+    {
+      self.places.insert(*place);
+    }
+  }
+}
+
 macro_rules! region_pat {
   ($name:ident) => {
     Region(Interned(RegionKind::ReVar($name), _))
@@ -60,6 +79,9 @@ pub struct Aliases<'a, 'tcx> {
   tcx: TyCtxt<'tcx>,
   body: &'a Body<'tcx>,
   pub(super) loans: LoanMap<'tcx>,
+
+  /// Normalized places within arguments that are overwritten or mutably borrowed.
+  overwritten: HashSet<Place<'tcx>>,
 }
 
 rustc_index::newtype_index! {
@@ -75,12 +97,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     def_id: DefId,
     body_with_facts: &'a BodyWithBorrowckFacts<'tcx>,
   ) -> Self {
-    let loans = Self::compute_loans(tcx, def_id, body_with_facts, |_, _, _| true);
-    Aliases {
-      tcx,
-      body: &body_with_facts.body,
-      loans,
-    }
+    Self::build_with_fact_selection(tcx, def_id, body_with_facts, |_, _, _| true)
   }
 
   /// Alternative constructor if you need to filter out certain borrowck facts.
@@ -93,10 +110,20 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     selector: impl Fn(RegionVid, RegionVid, BorrowckLocationIndex) -> bool,
   ) -> Self {
     let loans = Self::compute_loans(tcx, def_id, body_with_facts, selector);
+    let body = &body_with_facts.body;
+    let mut overwrites = GatherOverwrites::default();
+    overwrites.visit_body(body);
+    let overwritten = overwrites
+      .places
+      .into_iter()
+      .filter(|place| place.is_arg(body))
+      .map(|place| place.normalize(tcx, def_id))
+      .collect();
     Aliases {
       tcx,
-      body: &body_with_facts.body,
+      body,
       loans,
+      overwritten,
     }
   }
 
@@ -351,6 +378,20 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     contains
   }
 
+  /// Returns true if a pointer in `place` may be replaced by another one in the body, so that
+  /// the dereference of an argument may be something else than what the caller provided.
+  fn is_repointed(&self, place: Place<'tcx>) -> bool {
+    place
+      .normalize(self.tcx, self.body.source.def_id())
+      .refs_in_projection(self.body, self.tcx)
+      .any(|(ptr, _)| {
+        (0 ..= ptr.projection.len()).any(|i| {
+          let prefix = Place::make(ptr.local, &ptr.projection[.. i], self.tcx);
+          self.overwritten.contains(&prefix)
+        })
+      })
+  }
+
   /// Given a `place`, returns the set of direct places it could refer to.
   ///
   /// For example, in the program:
@@ -371,8 +412,8 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     let mut aliases = HashSet::default();
     aliases.insert(place);
 
-    // Places with no derefs, or derefs from arguments, have no aliases
-    if place.is_direct(self.body, self.tcx) {
+    // Places with no derefs, or derefs from arguments, have no aliases.
+    if place.is_direct(self.body, self.tcx) && !self.is_repointed(place) {
       return aliases;
     }
 
-- 
2.43.0


From 7cd480ddfff8cd88ae19f431b35dfa36dc4127aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:24 +0000
Subject: [PATCH 25/29] fix: a pointer into a list or tree was taken to point
 to its root only

---
 crates/flowistry/src/mir/aliases.rs | 48 +++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 012aba0..e531c83 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -52,6 +52,47 @@ impl<'tcx> Visitor<'tcx> for GatherOverwrites<'tcx> {
   }
 }
 
+/// Returns true if a value of type `ty` may own other values of type `ty`, like a node of
+/// a list. A place of such a type stands for all the values it owns, so a pointer with
+/// that place as a loan may point to any of them.
+fn owns_itself<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> bool {
+  // All the ADTs mentioned in `ty`, except behind references.
+  fn adts<'tcx>(ty: Ty<'tcx>) -> Vec<DefId> {
+    let mut defs = Vec::new();
+    let mut walker = ty.walk();
+    while let Some(arg) = walker.next() {
+      match arg.as_type().map(Ty::kind) {
+        Some(TyKind::Adt(def, _)) => defs.push(def.did()),
+        Some(TyKind::Ref(..)) => walker.skip_current_subtree(),
+        _ => {}
+      }
+    }
+    defs
+  }
+
+  let roots = match ty.kind() {
+    TyKind::Adt(def, _) => vec![def.did()],
+    _ => adts(ty),
+  };
+  roots.into_iter().any(|root| {
+    let mut seen = HashSet::default();
+    let mut worklist = vec![root];
+    while let Some(did) = worklist.pop() {
+      for field in tcx.adt_def(did).all_fields() {
+        for owned in adts(tcx.type_of(field.did).instantiate_identity()) {
+          if owned == root {
+            return true;
+          }
+          if seen.insert(owned) {
+            worklist.push(owned);
+          }
+        }
+      }
+    }
+    false
+  })
+}
+
 macro_rules! region_pat {
   ($name:ident) => {
     Region(Interned(RegionKind::ReVar($name), _))
@@ -338,7 +379,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
 
             let cyclic = scc.contains(b);
             match definite.get(&b) {
-              Some((ty, proj)) if !cyclic => {
+              Some((ty, proj)) if !cyclic && !owns_itself(tcx, *ty) => {
                 for (p, mutability) in a_contains.iter() {
                   let p_ty = p.ty(body.local_decls(), tcx).ty;
                   let p_proj = if *ty == p_ty {
@@ -438,8 +479,9 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     };
 
     // For each p ∈ loans('region),
-    //   if p : orig_ty then add: after[p]
+    //   if p : orig_ty and p doesn't own other places : orig_ty then add: after[p]
     //   else add: p
+    let recursive = owns_itself(self.tcx, orig_ty);
     let region_loans = self
       .loans
       .get(&region)
@@ -448,7 +490,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       .flatten();
     let region_aliases = region_loans.map(|(loan, _)| {
       let loan_ty = loan.ty(self.body.local_decls(), self.tcx).ty;
-      if orig_ty == loan_ty {
+      if orig_ty == loan_ty && !recursive {
         let mut projection = loan.projection.to_vec();
         projection.extend(after.iter().copied());
         Place::make(loan.local, &projection, self.tcx)
-- 
2.43.0


From 1ec6f6faa55759044ebc6a8253c08a75bca3a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:54 +0000
Subject: [PATCH 26/29] fix: an assignment to an element of an array discarded
 what the other elements depend on

---
 crates/flowistry/src/infoflow/analysis.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 0ef995f..31fe1e6 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -237,8 +237,18 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
-      // Clear sub-places of mutated place (if sound to do so)
+      // Clear sub-places of mutated place (if sound to do so). An element of an array shares its
+      // normalized place with all the other elements, which keep their values.
+      let is_element = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          PlaceElem::Index(_)
+            | PlaceElem::ConstantIndex { .. }
+            | PlaceElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
+        && !is_element
         && self.place_info.aliases(mt.mutated).len() == 1
       {
         for sub in self.place_info.children(mt.mutated).iter() {
-- 
2.43.0


From 09c0733dd161b74949510c7c374e788faa2c0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:04 +0000
Subject: [PATCH 27/29] fix: a place typed with a 'static reference had no
 aliases

---
 crates/flowistry/src/mir/aliases.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index e531c83..9b90e6c 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -475,6 +475,9 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       TyKind::Ref(Region(Interned(RegionKind::ReVar(region), _)), ty, _) => {
         (*region, *ty)
       }
+      TyKind::Ref(Region(Interned(RegionKind::ReStatic, _)), ty, _) => {
+        (RegionVid::from_usize(0), *ty)
+      }
       _ => return aliases,
     };
 
-- 
2.43.0


From ed990db82cf601b1f773b4205603cf3f4f034a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:04 +0000
Subject: [PATCH 28/29] fix: calls did not reach what 'static references in
 fields point to

---
 crates/flowistry/src/mir/placeinfo.rs | 81 +++++++++++++++++++++++++--
 1 file changed, 77 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 0dc1d09..03bb9b5 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -4,11 +4,13 @@ use std::{ops::ControlFlow, rc::Rc};
 
 use indexical::ToIndex;
 use rustc_borrowck::consumers::BodyWithBorrowckFacts;
+use rustc_data_structures::fx::FxHashSet as HashSet;
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::*,
   ty::{
-    Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind, TypeSuperVisitable, TypeVisitor,
+    AdtDef, Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind, TypeSuperVisitable,
+    TypeVisitor,
   },
 };
 use rustc_utils::{
@@ -41,6 +43,7 @@ pub struct PlaceInfo<'a, 'tcx> {
   aliases_cache: Cache<Place<'tcx>, PlaceSet<'tcx>>,
   conflicts_cache: Cache<Place<'tcx>, PlaceSet<'tcx>>,
   reachable_cache: Cache<(Place<'tcx>, Mutability), PlaceSet<'tcx>>,
+  static_refs_cache: CopyCache<DefId, Option<Mutability>>,
 }
 
 impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
@@ -72,6 +75,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
       normalized_cache: CopyCache::default(),
       conflicts_cache: Cache::default(),
       reachable_cache: Cache::default(),
+      static_refs_cache: CopyCache::default(),
     }
   }
 
@@ -165,7 +169,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
 
   fn collect_loans(&self, ty: Ty<'tcx>, mutability: Mutability) -> PlaceSet<'tcx> {
     let mut collector = LoanCollector {
-      aliases: &self.aliases,
+      place_info: self,
       unknown_region: Region::new_var(self.tcx, UNKNOWN_REGION),
       target_mutability: mutability,
       stack: vec![],
@@ -175,6 +179,21 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
     collector.loans
   }
 
+  /// Returns the permission given by the 'static references within the fields of `def`, if
+  /// there are any (cached).
+  fn static_refs(&self, def: AdtDef<'tcx>) -> Option<Mutability> {
+    self.static_refs_cache.get(&def.did(), |_| {
+      let mut collector = StaticRefCollector {
+        tcx: self.tcx,
+        under_immut_ref: false,
+        seen: HashSet::default(),
+        found: None,
+      };
+      collector.visit_fields(def);
+      collector.found
+    })
+  }
+
   /// Returns all [direct](PlaceExt::is_direct) places reachable from arguments
   /// to the current body.
   pub fn all_args(
@@ -208,7 +227,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
 // TODO: this visitor shares some structure with the PlaceCollector in mir utils.
 // Can we consolidate these?
 struct LoanCollector<'a, 'tcx> {
-  aliases: &'a Aliases<'a, 'tcx>,
+  place_info: &'a PlaceInfo<'a, 'tcx>,
   unknown_region: Region<'tcx>,
   target_mutability: Mutability,
   stack: Vec<Mutability>,
@@ -229,6 +248,15 @@ impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for LoanCollector<'_, 'tcx> {
         self.visit_region(self.unknown_region)?;
         ty.super_visit_with(self)?;
       }
+      TyKind::Adt(def, _) => {
+        ty.super_visit_with(self)?;
+        // The generic arguments don't mention the 'static references in the fields.
+        if let Some(mutability) = self.place_info.static_refs(*def) {
+          self.stack.push(mutability);
+          self.visit_region(self.place_info.tcx.lifetimes.re_static)?;
+          self.stack.pop();
+        }
+      }
       _ => ty.super_visit_with(self)?,
     };
 
@@ -246,7 +274,7 @@ impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for LoanCollector<'_, 'tcx> {
       }
       _ => unreachable!("{region:?}"),
     };
-    if let Some(loans) = self.aliases.loans.get(&region) {
+    if let Some(loans) = self.place_info.aliases.loans.get(&region) {
       let under_immut_ref = self.stack.contains(&Mutability::Not);
       let ignore_mut =
         is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
@@ -272,6 +300,51 @@ impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for LoanCollector<'_, 'tcx> {
   }
 }
 
+/// Finds references to 'static within the definition of a type.
+struct StaticRefCollector<'tcx> {
+  tcx: TyCtxt<'tcx>,
+  under_immut_ref: bool,
+  seen: HashSet<(DefId, bool)>,
+  found: Option<Mutability>,
+}
+
+impl<'tcx> StaticRefCollector<'tcx> {
+  fn visit_fields(&mut self, def: AdtDef<'tcx>) {
+    if self.seen.insert((def.did(), self.under_immut_ref)) {
+      for field in def.all_fields() {
+        self.visit_ty(self.tcx.type_of(field.did).instantiate_identity());
+      }
+    }
+  }
+}
+
+impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for StaticRefCollector<'tcx> {
+  type Result = ();
+
+  fn visit_ty(&mut self, ty: Ty<'tcx>) {
+    let under_immut_ref = self.under_immut_ref;
+    if ty.ref_mutability() == Some(Mutability::Not) {
+      self.under_immut_ref = true;
+    }
+    ty.super_visit_with(self);
+    if let TyKind::Adt(def, _) = ty.kind() {
+      self.visit_fields(*def);
+    }
+    self.under_immut_ref = under_immut_ref;
+  }
+
+  fn visit_region(&mut self, region: Region<'tcx>) {
+    if region.is_static() {
+      let mutability = if self.under_immut_ref {
+        Mutability::Not
+      } else {
+        Mutability::Mut
+      };
+      self.found = self.found.max(Some(mutability));
+    }
+  }
+}
+
 #[cfg(test)]
 mod test {
   use rustc_utils::{
-- 
2.43.0


From 9a438d6bcdeedc5b6f3d6186fdb3074245b6ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:19 +0000
Subject: [PATCH 29/29] fix: the editor asked about a nested function when the
 selection began in one

---
 ide/src/focus.ts | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 1955080..fdf80ae 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -40,13 +40,13 @@ class FocusBodyState {
 
   static load = async (
     doc: vscode.TextDocument,
-    selection: vscode.Selection
+    position: vscode.Position
   ): Promise<FlowistryResult<FocusBodyState>> => {
     let cmd = [
       "focus",
       doc.fileName,
-      selection.anchor.line.toString(),
-      selection.anchor.character.toString(),
+      position.line.toString(),
+      position.character.toString(),
     ];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
@@ -175,22 +175,30 @@ class FocusDocumentState {
     is_current: () => boolean
   ): Promise<FlowistryResult<FocusBodyState> | null> => {
     // Find all bodies that contain the user's selection.
-    let result = this.bodies.search(
-      this.bodies.selection_to_interval(editor.selection)
-    );
+    let containing = (selection: vscode.Selection) =>
+      this.bodies.search(this.bodies.selection_to_interval(selection))
+        .containing;
+    let bodies = containing(editor.selection);
 
     // If the user hasn't selected a body, then return null
     // to indicate that nothing should be done.
-    if (result.containing.length === 0) {
+    if (bodies.length === 0) {
       return null;
     }
 
     // If the user has selected a body, get its FocusBodyState.
-    let body = result.containing[0].value;
+    let body = bodies[0].value;
     if (body.get() === null) {
+      // The analyzer picks the innermost body at a position, so a position
+      // within a nested body won't do.
+      let { anchor, active } = editor.selection;
+      let { start } = to_vsc_range(bodies[0].range);
+      let position = [anchor, active, start].find(
+        (pos) => containing(new vscode.Selection(pos, pos))[0].value === body
+      );
       let body_state_res = await FocusBodyState.load(
         editor.document,
-        editor.selection
+        position || anchor
       );
       if (!is_current()) {
         return null;
-- 
2.43.0

