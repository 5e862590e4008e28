From 13c410d8ea95811c7a1c844997847366b4cbe29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 01/36] fix: close control dependencies transitively

A switch on a variable computed outside of an enclosing branch lost the
dependency on the enclosing branch: in `if u { match t { true => x = 1, .. } }`
x did not depend on u.
---
 crates/flowistry/src/infoflow/analysis.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..9619154 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -141,6 +141,24 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     deps
   }
 
+  // Control-dependence is not a transitive relation as computed by `ControlDependencies`,
+  // so we have to close it: if a block is guarded by a switch which is itself guarded by
+  // another switch, then both of them decide whether the block executes.
+  fn controlled_by(&self, block: BasicBlock) -> Vec<BasicBlock> {
+    let mut controlled_by = Vec::new();
+    let mut queue = vec![block];
+    while let Some(block) = queue.pop() {
+      let guards = self.control_dependencies.dependent_on(block);
+      for guard in guards.into_iter().flat_map(|set| set.iter()) {
+        if !controlled_by.contains(&guard) {
+          controlled_by.push(guard);
+          queue.push(guard);
+        }
+      }
+    }
+    controlled_by
+  }
+
   // This function expects *ALL* the mutations that occur within a given [`Location`] at once.
   pub(crate) fn transfer_function(
     &self,
@@ -179,9 +197,8 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     }
 
     // Add location of every control dependency.
-    let controlled_by = self.control_dependencies.dependent_on(location.block);
     let body = self.body;
-    for block in controlled_by.into_iter().flat_map(|set| set.iter()) {
+    for block in self.controlled_by(location.block) {
       for deps in &mut all_deps {
         deps.insert(body.terminator_loc(block));
       }
-- 
2.43.0


From 0550b7e9e0ab5231be687e581319d6385391cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 02/36] fix: track indexes as inputs and keep other elements on
 element writes

x[i] did not depend on i, and a write to x[i] erased the dependencies of
every other element of x since they are all represented by the same place.
---
 crates/flowistry/src/infoflow/mutation.rs | 39 ++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..dc66a9c 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -57,6 +57,37 @@ where
   pub fn new(place_info: &'a PlaceInfo<'a, 'tcx>, f: F) -> Self {
     ModularMutationVisitor { place_info, f }
   }
+
+  fn on_mutations(&mut self, location: Location, mut mutations: Vec<Mutation<'tcx>>) {
+    for mutation in &mut mutations {
+      // An index is an input of any access to `x[i]`, whether it is read or written.
+      let indexes = mutation
+        .inputs
+        .iter()
+        .chain([&mutation.mutated])
+        .flat_map(|place| place.projection.iter())
+        .filter_map(|elem| match elem {
+          ProjectionElem::Index(local) => Some(Place::from(local)),
+          _ => None,
+        })
+        .collect::<Vec<_>>();
+      mutation.inputs.extend(indexes);
+
+      // All the elements of `x` are represented by the same place `x[_]`, so a write
+      // to one of them leaves the dependencies of the other ones in place.
+      let writes_element = mutation.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. }
+        )
+      });
+      if writes_element {
+        mutation.status = MutationStatus::Possibly;
+      }
+    }
+
+    (self.f)(location, mutations);
+  }
 }
 
 impl<'tcx, F> Visitor<'tcx> for ModularMutationVisitor<'_, 'tcx, F>
@@ -123,7 +154,7 @@ where
               status: MutationStatus::Definitely,
             })
             .collect::<Vec<_>>();
-          (self.f)(location, mutations);
+          self.on_mutations(location, mutations);
           return;
         }
       }
@@ -161,7 +192,7 @@ where
               status: MutationStatus::Definitely,
             });
           }
-          (self.f)(location, mutations);
+          self.on_mutations(location, mutations);
           return;
         }
       }
@@ -171,7 +202,7 @@ where
 
     let mut collector = PlaceCollector::default();
     collector.visit_rvalue(rvalue, location);
-    (self.f)(location, vec![Mutation {
+    self.on_mutations(location, vec![Mutation {
       mutated: *mutated,
       inputs: collector.0,
       status: MutationStatus::Definitely,
@@ -227,7 +258,7 @@ where
           }
         }
 
-        (self.f)(location, mutations);
+        self.on_mutations(location, mutations);
       }
 
       _ => {}
-- 
2.43.0


From e2c3d553190228b1c0f418eb5918650519a4b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 03/36] fix: treat a function pointer as an input of the call

A call f(x) through a function pointer f did not depend on which function
f points to.
---
 crates/flowistry/src/infoflow/mutation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index dc66a9c..891108f 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -215,7 +215,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -230,7 +230,12 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        // If the callee is a function pointer, then its value influences the call.
+        let arg_inputs = arg_places
+          .iter()
+          .copied()
+          .chain(func.as_place())
+          .collect::<Vec<_>>();
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
-- 
2.43.0


From b907ee015bdbd02dfedd111c60fb6e23a830b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:01 +0000
Subject: [PATCH 04/36] fix: account for mutations made by destructors

Dropping a value with a destructor calls Drop::drop(&mut value), which can
mutate everything mutably reachable from the value. These mutations were
not part of the analysis, e.g. a guard writing through its reference.
---
 crates/flowistry/src/infoflow/mutation.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 891108f..91fefdf 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -266,6 +266,23 @@ where
         self.on_mutations(location, mutations);
       }
 
+      // A destructor is a call to `Drop::drop(&mut place)`, so it can mutate
+      // everything that is mutably reachable from `place`.
+      TerminatorKind::Drop { place, .. } => {
+        let mutations = self
+          .place_info
+          .reachable_values(*place, Mutability::Mut)
+          .iter()
+          .filter(|reachable| **reachable != *place)
+          .map(|reachable| Mutation {
+            mutated: *reachable,
+            inputs: vec![*place],
+            status: MutationStatus::Possibly,
+          })
+          .collect::<Vec<_>>();
+        self.on_mutations(location, mutations);
+      }
+
       _ => {}
     }
   }
-- 
2.43.0


From ec2270346a1e851723bf06f1ffb62f92262a5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:05 +0000
Subject: [PATCH 05/36] fix: a place conflicts with its parents below the last
 reference

---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 crates/flowistry/src/mir/placeinfo.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 9619154..20c16b5 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,6 +116,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     conflicts.chain(provenance).copied().collect()
   }
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..0dc1d09 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -117,6 +117,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .projection
         .iter()
         .enumerate()
+        .rev()
         .map(|(i, elem)| {
           let place = PlaceRef {
             local: place.local,
-- 
2.43.0


From 46c7ccc67029fc898d61635c0dbf47f8dacbefcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:49 +0000
Subject: [PATCH 06/36] fix: apply the simultaneous mutations of a location
 together

When a recursive call maps several rows of the callee to overlapping places
of the caller, clearing a place for one mutation lost the dependencies that
an earlier mutation had put in its sub-places.
---
 crates/flowistry/src/infoflow/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 20c16b5..1e54801 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -217,7 +217,9 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
 
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
-    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
+    // The mutations are simultaneous, so each step is done for all of them before the next:
+    // otherwise clearing a place would lose what an earlier mutation put in its sub-places.
+    for mt in &mutations {
       // Clear sub-places of mutated place (if sound to do so)
       if matches!(mt.status, MutationStatus::Definitely)
         && self.place_info.aliases(mt.mutated).len() == 1
@@ -226,10 +228,14 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
           state.clear_row(&self.place_info.normalize(*sub));
         }
       }
+    }
 
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Add deps of mutated to include provenance of mutated pointers
       add_deps(state, mt.mutated, deps);
+    }
 
+    for (mt, deps) in mutations.iter().zip(&all_deps) {
       let mutable_aliases = self
         .place_info
         .aliases(mt.mutated)
-- 
2.43.0


From 5e2909c9998204eb75705cfc25a74720cf635472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 07/36] fix: give places translated to the parent the parent's
 regions

The places of the callee were translated with the callee's field types, whose
regions mean nothing in the caller, so a reference in a field was not resolved
to what it points to.
---
 crates/flowistry/src/infoflow/recursive.rs | 29 +++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..fc51f54 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -3,7 +3,7 @@
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind},
+  ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
@@ -182,14 +182,25 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           break;
         }
 
-        // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The regions in the child's types are meaningless to the parent, so the type of
+        // a field has to be derived from the parent's type.
+        ty = ty.projection_ty_core(
+          tcx,
+          &elem,
+          |ty| ty,
+          |base_ty, variant, field, child_ty| {
+            let field_ty = PlaceTy::field_ty(tcx, base_ty, variant, field);
+            if field_ty.has_aliases() {
+              let typing_env = self.body.typing_env(tcx);
+              tcx
+                .try_normalize_erasing_regions(typing_env, field_ty)
+                .unwrap_or(child_ty)
+            } else {
+              field_ty
+            }
+          },
+          |ty| ty,
+        );
         let elem = match elem {
           ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
           elem => elem,
-- 
2.43.0


From eee8c452b10f0143edef41f2716c7390d92c75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 08/36] fix: do not recurse into calls given trait objects

As for closures, the effects of calling a trait object are unknown to the callee.
---
 crates/flowistry/src/infoflow/recursive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index fc51f54..689eba4 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -90,6 +90,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     // }
 
     let parent_arg_places = utils::arg_places(parent_args);
+    // The effects of calling a closure or a trait object are unknown to the child.
     let any_closure_inputs = parent_arg_places.iter().any(|(_, place)| {
       let ty = place.ty(self.body.local_decls(), tcx).ty;
       ty.walk().any(|arg| match arg.kind() {
@@ -98,6 +99,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
             substs.as_closure().kind(),
             ClosureKind::FnOnce | ClosureKind::FnMut
           ),
+          TyKind::Dynamic(..) => true,
           _ => false,
         },
         _ => false,
-- 
2.43.0


From 62094e3a6d93a95e4e7002561a8a11c34f67a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:05 +0000
Subject: [PATCH 09/36] fix: treat the copy of a struct with private fields as
 a copy of the whole

Only its visible fields were copied, so the dependencies of the private ones
were lost (and, after a private field, the fields were numbered wrong).
---
 crates/flowistry/src/infoflow/mutation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 91fefdf..0786d70 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -167,8 +167,15 @@ where
         if let TyKind::Adt(adt_def, substs) = place_ty.kind()
           && adt_def.is_struct()
         {
-          let fields = adt_def
+          // Private fields don't have their own place, so if there are any then the copy
+          // is treated as a mutation of the whole struct.
+          let all_visible = adt_def
             .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
+            .count()
+            == adt_def.all_fields().count();
+          let fields = adt_def
+            .all_fields()
+            .filter(|_| all_visible)
             .enumerate()
             .map(|(i, field_def)| {
               PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
-- 
2.43.0


From 5daa1987d53829e8f13272006c9e8adf23142154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:03 +0000
Subject: [PATCH 10/36] fix: do not recurse into the default body of a trait
 method

The implementation that is called can override it.
---
 crates/flowistry/src/infoflow/recursive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 689eba4..0a8be2e 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -53,6 +53,12 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
+    // The body of a trait method is a default that an implementation can override.
+    if tcx.trait_of_assoc(*def_id).is_some() {
+      debug!("  Func is a trait method");
+      return false;
+    }
+
     // If a function returns never (fn () -> !) then there are no exit points,
     // so we can't analyze effects on exit
     let fn_sig = tcx.fn_sig(*def_id);
-- 
2.43.0


From 4c4135321935c0c095e547862b5659b81a1c568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 11/36] fix: do not recurse into calls with mutable references
 in type arguments

The callee is analyzed without knowing its type arguments, so it cannot account
for the effects on what they point to.
---
 crates/flowistry/src/infoflow/recursive.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 0a8be2e..21dafcf 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -45,8 +45,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, substs) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, substs) => (def_id, substs),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
@@ -88,6 +88,24 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
+    // The child is analyzed without knowing its type arguments, so it doesn't account for
+    // the effects on what is reachable through a mutable reference inside of one.
+    let any_mut_ref_substs = substs.types().flat_map(|ty| ty.walk()).any(|arg| {
+      match arg.kind() {
+        GenericArgKind::Type(ty) => match ty.kind() {
+          TyKind::Ref(_, _, mutability) => mutability.is_mut(),
+          TyKind::Adt(_, substs) => substs.regions().next().is_some(),
+          TyKind::Dynamic(..) => true,
+          _ => false,
+        },
+        _ => false,
+      }
+    });
+    if any_mut_ref_substs {
+      debug!("  Func has type arguments with mutable references");
+      return false;
+    }
+
     // TODO(wcrichto, 2024-12-02): mir_unsafety_check_result got removed, need to find a replacement
     // let unsafety = tcx.mir_unsafety_check_result(def_id.expect_local());
     // if !unsafety.used_unsafe_blocks.is_empty() {
-- 
2.43.0


From 1f98f3fca049353c0f40b7ef12f1c9bd7377e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:39 +0000
Subject: [PATCH 12/36] fix: translate the arguments that a callee reassigns

Reassigning an argument overwrote its dependencies in the callee's final state,
so a flow from its initial value was lost in the caller.
---
 crates/flowistry/src/infoflow/recursive.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 21dafcf..a37c4df 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -6,7 +6,12 @@ use rustc_middle::{
   ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
-use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
+use rustc_utils::{
+  PlaceExt,
+  mir::{
+    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg,
+  },
+};
 
 use super::{BODY_STACK, analysis::FlowAnalysis};
 use crate::{
@@ -249,10 +254,19 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
 
       let child_deps = return_state.row_set(child);
+      // An argument that the child has reassigned has lost its original dependencies in the
+      // return state, so the arguments in `child_deps` are also translated directly.
+      let arg_deps = child_deps.iter().filter_map(|dep| match dep {
+        LocationOrArg::Arg(arg) => {
+          translate_child_to_parent(Place::from_local(*arg, tcx), false)
+        }
+        LocationOrArg::Location(_) => None,
+      });
       let parent_deps = return_state
         .rows()
         .filter(|(_, deps)| child_deps.is_superset(deps))
         .filter_map(|(row, _)| translate_child_to_parent(*row, false))
+        .chain(arg_deps)
         .collect::<Vec<_>>();
 
       debug!(
-- 
2.43.0


From 2e5c4a6bfe4130e7e756ed31093890aa3e68181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 13/36] fix: do not apply the effect of a location to its own
 result

The engine accumulated the state before a location in the same matrix as the
state after it, so revisiting a location applied its effect twice. When the
effect is not idempotent (a call that swaps the fields of a struct) the reported
state then contained flows that are not in the least fixpoint.
---
 crates/flowistry/src/mir/engine.rs | 81 ++++++++++++------------------
 1 file changed, 32 insertions(+), 49 deletions(-)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..8cf0fec 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -18,16 +18,13 @@ use indexical::ToIndex;
 use rustc_data_structures::{graph::Successors, work_queue::WorkQueue};
 use rustc_index::IndexVec;
 use rustc_middle::{
-  mir::{Body, Location, traversal},
+  mir::{BasicBlock, Body, Location, START_BLOCK, traversal},
   ty::TyCtxt,
 };
 use rustc_mir_dataflow::{Analysis, Direction, JoinSemiLattice};
 use rustc_utils::{
   BodyExt,
-  mir::location_or_arg::{
-    LocationOrArg,
-    index::{LocationOrArgDomain, LocationOrArgIndex},
-  },
+  mir::location_or_arg::index::{LocationOrArgDomain, LocationOrArgIndex},
 };
 
 /// An alternative implementation of
@@ -63,58 +60,44 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
   let num_locs = body.all_locations().count();
   let mut state = IndexVec::from_elem_n(bottom_value, num_locs);
 
-  analysis
-    .initialize_start_block(body, &mut state[Location::START.to_index(&location_domain)]);
+  // The state on entry to each block. It is kept apart from the states after each location,
+  // so that revisiting a location does not apply its effect to its own result. That would add
+  // spurious flows when the effect is not idempotent (e.g. if it swaps two places).
+  let mut entry_state =
+    IndexVec::from_elem_n(analysis.bottom_value(body), body.basic_blocks.len());
 
-  let mut dirty_queue: WorkQueue<LocationOrArgIndex> = WorkQueue::with_none(num_locs);
+  analysis.initialize_start_block(body, &mut entry_state[START_BLOCK]);
+
+  let mut dirty_queue: WorkQueue<BasicBlock> =
+    WorkQueue::with_none(body.basic_blocks.len());
   if A::Direction::IS_FORWARD {
-    for (block, data) in traversal::reverse_postorder(body) {
-      for statement_index in 0 ..= data.statements.len() {
-        let location = Location {
-          block,
-          statement_index,
-        };
-        dirty_queue.insert(location.to_index(&location_domain));
-      }
+    for (block, _) in traversal::reverse_postorder(body) {
+      dirty_queue.insert(block);
     }
   }
 
-  while let Some(loc_index) = dirty_queue.pop() {
-    let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
-      unreachable!()
-    };
-    let next_locs = match body.stmt_at(location) {
-      Either::Left(statement) => {
-        analysis.apply_primary_statement_effect(
-          &mut state[loc_index],
-          statement,
-          location,
-        );
-        vec![location.successor_within_block()]
+  while let Some(block) = dirty_queue.pop() {
+    let mut cur_state = entry_state[block].clone();
+    for statement_index in 0 ..= body.basic_blocks[block].statements.len() {
+      let location = Location {
+        block,
+        statement_index,
+      };
+      match body.stmt_at(location) {
+        Either::Left(statement) => {
+          analysis.apply_primary_statement_effect(&mut cur_state, statement, location);
+        }
+        Either::Right(terminator) => {
+          analysis.apply_primary_terminator_effect(&mut cur_state, terminator, location);
+        }
       }
-      Either::Right(terminator) => {
-        analysis.apply_primary_terminator_effect(
-          &mut state[loc_index],
-          terminator,
-          location,
-        );
-        body
-          .basic_blocks
-          .successors(location.block)
-          .map(|block| Location {
-            block,
-            statement_index: 0,
-          })
-          .collect::<Vec<_>>()
-      }
-    };
+      state[location.to_index(&location_domain)].join(&cur_state);
+    }
 
-    for next_loc in next_locs {
-      let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
-      let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
-      let changed = next_state.join(cur_state);
+    for next_block in body.basic_blocks.successors(block) {
+      let changed = entry_state[next_block].join(&cur_state);
       if changed {
-        dirty_queue.insert(next_loc_index);
+        dirty_queue.insert(next_block);
       }
     }
   }
-- 
2.43.0


From 184608c2a6e63ab343f57eb56d5773e3cff2e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 14/36] fix: do not treat the old value of the destination as
 an input of the call

When recursing into a call, the return place of the child was translated to the
destination and used as an input, so in a loop the result of a call depended on
what its destination held in the previous iteration.
---
 crates/flowistry/src/infoflow/recursive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index a37c4df..df77f6b 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -264,6 +264,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       });
       let parent_deps = return_state
         .rows()
+        // The previous value of the destination is not an input of the call.
+        .filter(|(row, _)| row.local != RETURN_PLACE)
         .filter(|(_, deps)| child_deps.is_superset(deps))
         .filter_map(|(row, _)| translate_child_to_parent(*row, false))
         .chain(arg_deps)
-- 
2.43.0


From bbb9ec696fdb4d98fc6bd373ed616d914a624ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 15/36] fix: assign places of an opaque type as a whole

Returning a struct as `impl Trait` made the analysis project a field out of the
opaque type, which panics, and returning e.g. `Some(closure)` lost every
dependency of the result, because the fields of `Option<impl Fn()>` and of
`Option<{closure}>` are different places.
---
 crates/flowistry/src/infoflow/mutation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 0786d70..f3f8b1a 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -4,7 +4,7 @@ use log::debug;
 use rustc_abi::FieldIdx;
 use rustc_middle::{
   mir::{visit::Visitor, *},
-  ty::{AdtKind, TyKind},
+  ty::{AdtKind, TyKind, TypeVisitableExt},
 };
 use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
 
@@ -104,7 +104,13 @@ where
     let body = self.place_info.body;
     let tcx = self.place_info.tcx;
 
+    // If _1 : Option<impl Trait>, then the fields of _1 have a different type than the fields of
+    // the value assigned to it, and so a different place. Hence _1 is assigned as a whole.
+    let has_opaque = mutated.ty(body.local_decls(), tcx).ty.has_opaque_types();
+
     match rvalue {
+      _ if has_opaque => {}
+
       // In the case of _1 = aggregate { field1: op1, field2: op2, ... },
       // then destructure this into a series of mutations like
       // _1.field1 = op1, _1.field2 = op2, and so on.
-- 
2.43.0


From d590f493491d79a82a2ee4463645f9772f76984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 16/36] fix: include the target itself when slicing on an
 indirect place

---
 crates/flowistry/src/infoflow/analysis.rs     | 2 ++
 crates/flowistry/src/infoflow/dependencies.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 1e54801..bcbcf46 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -131,10 +131,12 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     place: Place<'tcx>,
   ) -> LocationOrArgSet {
     let mut deps = LocationOrArgSet::new(self.location_domain());
+    // `reachable_values` only contains direct places, so `place` may not be one of them.
     for subplace in self
       .place_info
       .reachable_values(place, Mutability::Not)
       .iter()
+      .chain([&place])
       .flat_map(|place| self.influences(*place))
     {
       deps.union(state.row_set(&self.place_info.normalize(subplace)));
diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 71e0995..c47b045 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -44,6 +44,7 @@ impl TargetDeps {
       place_info
         .reachable_values(*place, Mutability::Not)
         .iter()
+        .chain([place])
         .map(move |reachable| (*reachable, *location))
     });
 
-- 
2.43.0


From 9a2ef8946d7a9168a3910acb938402588a45acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 17/36] fix: assign unions as a whole

---
 crates/flowistry/src/infoflow/mutation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index f3f8b1a..c0abb64 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -116,7 +116,10 @@ where
       // _1.field1 = op1, _1.field2 = op2, and so on.
       Rvalue::Aggregate(agg_kind, ops) => {
         let info = match &**agg_kind {
-          AggregateKind::Adt(def_id, idx, substs, _, _) => {
+          // The fields of a union overlap, so it is assigned as a whole.
+          AggregateKind::Adt(def_id, idx, substs, _, _)
+            if !tcx.adt_def(*def_id).is_union() =>
+          {
             let adt_def = tcx.adt_def(*def_id);
             let variant = adt_def.variant(*idx);
             let mutated = match adt_def.adt_kind() {
-- 
2.43.0


From 7b92d82b2bd45153dd7a11813718fc581d74d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 18/36] fix: what is reachable from the arguments is an input
 of the call

---
 crates/flowistry/src/infoflow/analysis.rs | 10 ++++++++--
 crates/flowistry/src/infoflow/mutation.rs | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index bcbcf46..7aa3b71 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -192,10 +192,16 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     };
 
-    // Register every explicitly provided input as an input.
+    // Register every explicitly provided input as an input. The mutations of a call
+    // all have the same inputs, so the influences on each of them are only added up once.
+    let mut input_deps = HashMap::default();
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       for input in &mt.inputs {
-        add_deps(state, *input, deps);
+        deps.union(input_deps.entry(*input).or_insert_with(|| {
+          let mut deps = LocationOrArgSet::new(location_domain);
+          add_deps(state, *input, &mut deps);
+          deps
+        }));
       }
     }
 
diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index c0abb64..a351a25 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -58,6 +58,16 @@ where
     ModularMutationVisitor { place_info, f }
   }
 
+  /// Everything that can be read given `place`, including behind its references.
+  fn readable_values(&self, place: Place<'tcx>) -> impl Iterator<Item = Place<'tcx>> + 'a {
+    self
+      .place_info
+      .reachable_values(place, Mutability::Not)
+      .iter()
+      .copied()
+      .chain([place])
+  }
+
   fn on_mutations(&mut self, location: Location, mut mutations: Vec<Mutation<'tcx>>) {
     for mutation in &mut mutations {
       // An index is an input of any access to `x[i]`, whether it is read or written.
@@ -247,9 +257,10 @@ where
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
         // If the callee is a function pointer, then its value influences the call.
+        // The callee can read everything reachable from its arguments.
         let arg_inputs = arg_places
           .iter()
-          .copied()
+          .flat_map(|arg| self.readable_values(*arg))
           .chain(func.as_place())
           .collect::<Vec<_>>();
 
@@ -292,7 +303,7 @@ where
           .filter(|reachable| **reachable != *place)
           .map(|reachable| Mutation {
             mutated: *reachable,
-            inputs: vec![*place],
+            inputs: self.readable_values(*place).collect(),
             status: MutationStatus::Possibly,
           })
           .collect::<Vec<_>>();
-- 
2.43.0


From d7fc81723a8ddc521bb7c716d483e424a6a44001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 19/36] fix: a call replaces the whole destination when
 recursing

---
 crates/flowistry/src/infoflow/recursive.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index df77f6b..ca992d2 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -284,7 +284,16 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           MutationStatus::Possibly
         },
       })
-    }).collect::<Vec<_>>();
+    });
+
+    // The call replaces the whole destination, not only the parts in `return_state`.
+    let mutations = mutations
+      .chain([Mutation {
+        mutated: *destination,
+        inputs: Vec::new(),
+        status: MutationStatus::Definitely,
+      }])
+      .collect::<Vec<_>>();
 
     self.transfer_function(state, mutations, location);
 
-- 
2.43.0


From d822b023ab6f80a0c703f76d36b7dc5341d10178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:04 +0000
Subject: [PATCH 20/36] fix: a range is selectable once even if spans differ in
 their context

---
 crates/flowistry_ide/src/focus/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ide/src/focus/mod.rs b/crates/flowistry_ide/src/focus/mod.rs
index b28c365..1b877eb 100644
--- a/crates/flowistry_ide/src/focus/mod.rs
+++ b/crates/flowistry_ide/src/focus/mod.rs
@@ -3,7 +3,7 @@ use flowistry::infoflow::{self, Direction};
 use itertools::Itertools;
 use rustc_hir::BodyId;
 use rustc_middle::ty::TyCtxt;
-use rustc_span::Span;
+use rustc_span::{Span, SpanData, SyntaxContext};
 use rustc_utils::{
   SpanExt,
   mir::borrowck_facts::get_body_with_borrowck_facts,
@@ -43,8 +43,15 @@ pub fn focus(tcx: TyCtxt, body_id: BodyId) -> Result<FocusOutput> {
     .mir_span_tree
     .iter()
     .map(|mir_span| {
+      // Spans that only differ in their context (e.g. in the desugaring of a for-loop)
+      // are one and the same range to the user.
+      let span = SpanData {
+        ctxt: SyntaxContext::root(),
+        parent: None,
+        ..mir_span.span
+      };
       (
-        mir_span.span,
+        span,
         mir_span
           .locations
           .iter()
-- 
2.43.0


From afd673ba7a163ca27079272921ada580d1463c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 21/36] fix: a position outside the file is an error, not a
 panic

---
 crates/flowistry_ide/src/plugin.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry_ide/src/plugin.rs b/crates/flowistry_ide/src/plugin.rs
index 311c1df..520ffe0 100644
--- a/crates/flowistry_ide/src/plugin.rs
+++ b/crates/flowistry_ide/src/plugin.rs
@@ -6,7 +6,7 @@ use std::{
   time::Instant,
 };
 
-use anyhow::Context;
+use anyhow::{Context, ensure};
 use base64::Engine;
 use clap::{Parser, Subcommand};
 use flowistry::extensions::{
@@ -18,7 +18,7 @@ use rustc_hir::BodyId;
 use rustc_interface::interface::Result as RustcResult;
 use rustc_middle::ty::TyCtxt;
 use rustc_plugin::{CrateFilter, RustcPlugin, RustcPluginArgs, Utf8Path};
-use rustc_span::ErrorGuaranteed;
+use rustc_span::{ErrorGuaranteed, Span};
 use rustc_utils::{
   mir::borrowck_facts,
   source_map::{
@@ -165,7 +165,7 @@ impl RustcPlugin for FlowistryPlugin {
         };
         postprocess(run(
           crate::playground::playground,
-          compute_target,
+          || Selection(compute_target()),
           &compiler_args,
         ))
       }
@@ -186,7 +186,7 @@ impl RustcPlugin for FlowistryPlugin {
             filename: Filename::intern(&file),
           };
           debug!("eyo WTF {range:?} {file}");
-          FunctionIdentifier::Range(range)
+          Selection(range)
         };
         postprocess(run(crate::focus::focus, compute_target, &compiler_args))
       }
@@ -308,6 +308,27 @@ where
   }
 }
 
+/// A range selected in the editor. Converting it is an error, rather than a panic,
+/// if either end isn't a position of the file.
+struct Selection(CharRange);
+
+impl ToSpan for Selection {
+  fn to_span(&self, tcx: TyCtxt) -> anyhow::Result<Span> {
+    let Selection(range) = self;
+    let file = range.filename.find_source_file(tcx.sess.source_map())?;
+    for pos in [range.start, range.end] {
+      ensure!(
+        pos.line < file.count_lines()
+          && file
+            .get_line(pos.line)
+            .is_some_and(|line| pos.column <= line.chars().count()),
+        "Selection is outside the file"
+      );
+    }
+    FunctionIdentifier::Range(*range).to_span(tcx)
+  }
+}
+
 struct FlowistryCallbacks<A: FlowistryAnalysis, T: ToSpan, F: FnOnce() -> T> {
   analysis: Option<A>,
   compute_target: Option<F>,
-- 
2.43.0


From 74973eb0cee8bcf87d379ce3557ab00469fd92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 22/36] fix: focus prints the same output every time

---
 crates/flowistry_ide/src/focus/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/flowistry_ide/src/focus/mod.rs b/crates/flowistry_ide/src/focus/mod.rs
index 1b877eb..2cfd97c 100644
--- a/crates/flowistry_ide/src/focus/mod.rs
+++ b/crates/flowistry_ide/src/focus/mod.rs
@@ -61,6 +61,7 @@ pub fn focus(tcx: TyCtxt, body_id: BodyId) -> Result<FocusOutput> {
     })
     .into_group_map()
     .into_iter()
+    .sorted_by_key(|(span, _)| (span.lo, span.hi))
     .map(|(k, vs)| (k, vs.concat()))
     .collect::<Vec<_>>();
 
@@ -88,6 +89,8 @@ pub fn focus(tcx: TyCtxt, body_id: BodyId) -> Result<FocusOutput> {
           spanner.location_to_spans(location, body, EnclosingHirSpans::None)
         })
         .filter(|span| relevant.iter().any(|slice_span| slice_span.contains(*span)))
+        .sorted_by_key(|span| (span.lo(), span.hi()))
+        .dedup_by(|a, b| a.source_equal(*b))
         .collect::<Vec<_>>();
 
       let slice = relevant;
-- 
2.43.0


From ebe335ea65094a2943ec21ba2db9d821e16b4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 23/36] fix: list the smallest containing range first in range
 lookups

orderBy compares the arrays returned by its iteratee as strings, so that a
range of ten lines came before one of two.
---
 ide/src/range.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..0938cff 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,10 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From 8b25ec4ca0778331282895fcddeb6ca494cf2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 24/36] fix: look for the Cargo.toml below the opened folder

The promises of the file checks were not awaited and always truthy.
---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From a1190ca76472ca1385db22bacb12d22ed87c834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 25/36] fix: load the focus of the body that was looked up

The body is chosen by the whole selection, but its focus was requested at the
selection's anchor, which may lie in a smaller body.
---
 ide/src/focus.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..0cfe063 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -5,7 +5,7 @@ import * as vscode from "vscode";
 import { clear_ranges, highlight_slice } from "./decorations";
 import { FlowistryResult, hide_error, is_ok, ok, show_error } from "./errors";
 import { globals } from "./extension";
-import { Range, RangeTree, to_vsc_range } from "./range";
+import { CharPos, Range, RangeTree, to_vsc_range } from "./range";
 import { StatusBarState } from "./status_bar";
 
 interface Spans {
@@ -40,13 +40,13 @@ class FocusBodyState {
 
   static load = async (
     doc: vscode.TextDocument,
-    selection: vscode.Selection
+    pos: CharPos
   ): Promise<FlowistryResult<FocusBodyState>> => {
     let cmd = [
       "focus",
       doc.fileName,
-      selection.anchor.line.toString(),
-      selection.anchor.character.toString(),
+      pos.line.toString(),
+      pos.column.toString(),
     ];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
@@ -184,11 +184,13 @@ class FocusDocumentState {
     }
 
     // If the user has selected a body, get its FocusBodyState.
-    let body = result.containing[0].value;
+    let { range, value: body } = result.containing[0];
     if (body.get() === null) {
+      // The start of a body lies in no smaller body, unlike the selection's
+      // anchor, which may be inside a nested body that the selection leaves.
       let body_state_res = await FocusBodyState.load(
         editor.document,
-        editor.selection
+        range.start
       );
       body.set(body_state_res);
       return body_state_res;
-- 
2.43.0


From 67a283edb8f07dc87d02d1e0a5052290d5a50e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 26/36] fix: do not keep a failed analysis of a body

The cached failure came back after each save without an edit.
---
 ide/src/focus.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 0cfe063..2eb4cb4 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -192,7 +192,10 @@ class FocusDocumentState {
         editor.document,
         range.start
       );
-      body.set(body_state_res);
+      // A failure is not kept, so that the analysis is tried again after a save.
+      if (is_ok(body_state_res)) {
+        body.set(body_state_res);
+      }
       return body_state_res;
     } else {
       return body.get();
-- 
2.43.0


From fbf6a05c462656c874669b75b471c1842de91dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 27/36] fix: do not show the results of outdated analyses in
 focus mode

A reply that arrived after an edit, or after focus mode had been switched off,
was still drawn, cached and reported in the status bar. Edits of documents
other than the active one, and reloads from disk, left old results in place.
---
 ide/src/focus.ts | 123 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 93 insertions(+), 30 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 2eb4cb4..8fc7017 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -125,6 +125,10 @@ export class Cell<T> {
   }
 }
 
+// Tells whether the result of an analysis is still wanted: the document has not
+// changed and focus mode has not been switched off since the analysis started.
+type IsCurrent = () => boolean;
+
 class FocusDocumentState {
   bodies: RangeTree<Cell<FlowistryResult<FocusBodyState> | null>>;
 
@@ -153,7 +157,8 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor);
     if (body_state_res === null) {
@@ -165,7 +170,9 @@ class FocusDocumentState {
     }
 
     let body_state = body_state_res.value;
-    body_state.render(editor);
+    if (is_current()) {
+      body_state.render(editor);
+    }
     return ok(null);
   };
 
@@ -231,7 +238,8 @@ class FocusDocumentState {
   };
 
   select = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor);
     if (body_state_res === null) {
@@ -240,7 +248,9 @@ class FocusDocumentState {
       return body_state_res;
     }
 
-    body_state_res.value.render(editor, true);
+    if (is_current()) {
+      body_state_res.value.render(editor, true);
+    }
     return ok(null);
   };
 }
@@ -263,6 +273,9 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // Incremented each time focus mode is switched off
+  private session = 0;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -271,20 +284,33 @@ export class FocusMode {
     // pause rendering if there are unsaved changes in the doc
     this.doc_edit_callback = vscode.workspace.onDidChangeTextDocument(
       (event) => {
-        let editor = vscode.window.activeTextEditor!;
-        let doc = editor.document;
+        let doc = event.document;
 
-        if (!valid_document(editor.document)) {
+        if (!valid_document(doc)) {
           return;
         }
 
-        if (event.document === doc && doc.isDirty) {
-          this.state.clear();
+        // the event is also sent when only the dirty state has changed
+        if (!doc.isDirty && event.contentChanges.length === 0) {
+          return;
+        }
 
-          if (this.mode !== "idle") {
-            this.set_mode("unsaved");
-            this.clear_ranges();
-          }
+        this.state.clear();
+
+        if (this.mode === "idle") {
+          return;
+        }
+
+        if (doc !== vscode.window.activeTextEditor?.document) {
+          this.clear_ranges(doc);
+        } else if (doc.isDirty) {
+          this.set_mode("unsaved");
+          this.clear_ranges();
+        } else {
+          // reverted, or reloaded from disk
+          this.set_mode("active");
+          this.clear_ranges();
+          this.update_slice();
         }
       }
     );
@@ -311,15 +337,26 @@ export class FocusMode {
     globals.status_bar.set_state(mode);
   };
 
-  private clear_ranges = () => {
-    let editor = vscode.window.activeTextEditor;
-    if (editor) {
-      clear_ranges(editor);
-    }
+  private clear_ranges = (doc?: vscode.TextDocument) => {
+    vscode.window.visibleTextEditors
+      .filter((editor) => !doc || editor.document === doc)
+      .forEach(clear_ranges);
+  };
+
+  private track = (doc: vscode.TextDocument): IsCurrent => {
+    let session = this.session;
+    let version = doc.version;
+    return () => session === this.session && version === doc.version;
+  };
+
+  // Drop an outdated result. A newer analysis, if any, sets the mode itself.
+  private discard = () => {
+    this.set_mode(this.mode === "loading" ? "active" : this.mode);
   };
 
   private get_doc_state = async (
     editor: vscode.TextEditor,
+    is_current: IsCurrent,
     userActivated: boolean = false
   ): Promise<FocusDocumentState | null> => {
     if (this.mode !== "active" && this.mode !== "notfound") {
@@ -332,6 +369,11 @@ export class FocusMode {
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (!is_current()) {
+        this.discard();
+        return null;
+      }
+
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
@@ -339,7 +381,11 @@ export class FocusMode {
           this.state.set(filename, "notfound");
         } else {
           if (userActivated) await show_error(doc_state_res);
-          this.set_mode("error");
+          if (is_current()) {
+            this.set_mode("error");
+          } else {
+            this.discard();
+          }
           return null;
         }
       }
@@ -356,14 +402,27 @@ export class FocusMode {
 
   private handle_analysis_result = async <T>(
     result: FlowistryResult<T>,
+    is_current: IsCurrent,
     userActivated: boolean = false
   ) => {
+    if (!is_current()) {
+      this.discard();
+      return;
+    }
+
+    let mode: StatusBarState;
     if (!is_ok(result)) {
       if (userActivated) await show_error(result);
-      this.set_mode("error");
+      mode = "error";
     } else {
       await hide_error();
-      this.set_mode("active");
+      mode = "active";
+    }
+
+    if (is_current()) {
+      this.set_mode(mode);
+    } else {
+      this.discard();
     }
   };
 
@@ -377,13 +436,14 @@ export class FocusMode {
       return;
     }
 
-    let doc_state = await this.get_doc_state(editor, userActivated);
+    let is_current = this.track(editor.document);
+    let doc_state = await this.get_doc_state(editor, is_current, userActivated);
     if (doc_state === null) {
       return;
     }
 
-    let result = await doc_state.on_change_selection(editor);
-    await this.handle_analysis_result(result, userActivated);
+    let result = await doc_state.on_change_selection(editor, is_current);
+    await this.handle_analysis_result(result, is_current, userActivated);
   };
 
   private register_callbacks() {
@@ -407,7 +467,8 @@ export class FocusMode {
     (
       f: (
         _editor: vscode.TextEditor,
-        _state: FocusDocumentState
+        _state: FocusDocumentState,
+        _is_current: IsCurrent
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -425,13 +486,14 @@ export class FocusMode {
         this.register_callbacks();
       }
 
-      let doc_state = await this.get_doc_state(editor, true);
+      let is_current = this.track(editor.document);
+      let doc_state = await this.get_doc_state(editor, is_current, true);
       if (doc_state === null) {
         return;
       }
 
-      let result = await f(editor, doc_state);
-      await this.handle_analysis_result(result, true);
+      let result = await f(editor, doc_state, is_current);
+      await this.handle_analysis_result(result, is_current, true);
       await this.update_slice(true);
     };
 
@@ -441,8 +503,8 @@ export class FocusMode {
   focus_unmark = this.focus_subcommand((editor, doc_state) =>
     doc_state.unset_mark(editor)
   );
-  focus_select = this.focus_subcommand((editor, doc_state) =>
-    doc_state.select(editor)
+  focus_select = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.select(editor, is_current)
   );
 
   focus = async () => {
@@ -452,6 +514,7 @@ export class FocusMode {
       await this.update_slice(true);
     } else {
       this.set_mode("idle");
+      this.session += 1;
       this.clear_ranges();
       this.dispose_callbacks();
       await hide_error();
-- 
2.43.0


From f20596c14a6ee5347ebfeb64cc193d2a80144a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:32 +0000
Subject: [PATCH 28/36] fix: mutable references to secure and insecure values
 are secure and insecure themselves

---
 crates/flowistry_ifc_traits/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/flowistry_ifc_traits/src/lib.rs b/crates/flowistry_ifc_traits/src/lib.rs
index 5ab6213..f00c3a5 100644
--- a/crates/flowistry_ifc_traits/src/lib.rs
+++ b/crates/flowistry_ifc_traits/src/lib.rs
@@ -4,6 +4,10 @@ pub trait Secure {}
 pub trait Insecure {}
 
 impl<T: Secure> Secure for &T {}
+impl<T: Secure> Secure for &mut T {}
+
+// What is written through the reference ends up in the insecure value.
+impl<T: Insecure> Insecure for &mut T {}
 
 impl Insecure for fmt::Arguments<'_> {}
 
-- 
2.43.0


From 2ebcc9897b3d411482f9770dde4a0fc036cb72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:32 +0000
Subject: [PATCH 29/36] fix: the IFC checker considers parts and earlier values
 of a place, and functions that never return

---
 crates/flowistry_ifc/src/analysis.rs | 52 ++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..78efb4a 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -11,7 +11,6 @@ use rustc_middle::{
   mir::*,
   ty::{ParamEnv, Ty, TyCtxt, TypingMode},
 };
-use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_span::FileName;
 use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
 use rustc_utils::{BodyExt, PlaceExt, SpanExt};
@@ -96,22 +95,47 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
-    .all_returns()
-    .map(|location| results.state_at(location).clone())
-    .reduce(|mut a, b| {
-      a.join(&b);
-      a
-    })
-    .unwrap();
+  // What a place depends on, each time that this changes. The values it had before it was last
+  // assigned count as well, and a function that leaks a value may never return.
+  let deps_over_time = |place| {
+    let mut all_deps = Vec::new();
+    for location in body.all_locations() {
+      let deps = results
+        .analysis
+        .deps_for(results.state_at(location), place);
+      // A place has no dependencies until it has been initialized.
+      if !deps.is_empty() && !all_deps.contains(&deps) {
+        all_deps.push(deps);
+      }
+    }
+    all_deps
+  };
+
+  let insecure_deps = insecure_places
+    .iter()
+    .map(|insecure| (insecure, deps_over_time(*insecure)))
+    .collect::<Vec<_>>();
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-    let secure_deps = results.analysis.deps_for(&final_state, *secure);
-    for insecure in insecure_places.iter() {
-      let insecure_deps = results.analysis.deps_for(&final_state, *insecure);
-      if insecure_deps.is_superset(&secure_deps) {
-        errors.push((secure, insecure));
+    // It suffices that a part of the secure value flows to the insecure place.
+    let secure_deps = results
+      .analysis
+      .place_info
+      .reachable_values(*secure, Mutability::Not)
+      .iter()
+      .chain([secure])
+      .flat_map(|place| place.interior_places(tcx, body, def_id))
+      .collect::<PlaceSet>()
+      .into_iter()
+      .flat_map(deps_over_time)
+      .collect::<Vec<_>>();
+    for (insecure, insecure_deps) in &insecure_deps {
+      let has_flow = insecure_deps
+        .iter()
+        .any(|dst| secure_deps.iter().any(|src| dst.is_superset(src)));
+      if has_flow {
+        errors.push((secure, *insecure));
       }
     }
   }
-- 
2.43.0


From 59f183df112420974113318bd2ea4d9078544c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:32 +0000
Subject: [PATCH 30/36] fix: the IFC checker reports where arguments are
 declared

---
 crates/flowistry_ifc/src/analysis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index 78efb4a..08db586 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -154,9 +154,9 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   };
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
-    let body_span = tcx.hir_span_with_body(body_id.hir_id);
-    let src_span = decls[src.local].source_info.span.as_local(body_span);
-    let dst_span = decls[dst.local].source_info.span.as_local(body_span);
+    // Unlike that of the body's expression, this span contains the arguments.
+    let src_span = decls[src.local].source_info.span.as_local(body.span);
+    let dst_span = decls[dst.local].source_info.span.as_local(body.span);
 
     let span_range = |span| match span {
       Some(span) => {
-- 
2.43.0


From 23c7d49bcd8b4a0c3fd4d9ad4a178de8a56f66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 31/36] fix: code from which a function does not return depends
 on the branches that lead to it

---
 crates/flowistry/src/infoflow/analysis.rs |   9 +-
 crates/flowistry/src/mir/diverging.rs     | 146 ++++++++++++++++++++++
 crates/flowistry/src/mir/mod.rs           |   1 +
 3 files changed, 154 insertions(+), 2 deletions(-)
 create mode 100644 crates/flowistry/src/mir/diverging.rs

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 7aa3b71..78cbb54 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -28,7 +28,7 @@ use super::{
 };
 use crate::{
   extensions::{ContextMode, MutabilityMode, is_extension_active},
-  mir::placeinfo::PlaceInfo,
+  mir::{diverging::DivergingDependencies, placeinfo::PlaceInfo},
 };
 
 /// Represents the information flows at a given instruction. See [`FlowResults`] for a high-level explanation of this datatype.
@@ -73,6 +73,7 @@ pub struct FlowAnalysis<'a, 'tcx> {
   pub place_info: PlaceInfo<'a, 'tcx>,
 
   pub(crate) control_dependencies: ControlDependencies<BasicBlock>,
+  pub(crate) diverging_dependencies: Option<DivergingDependencies>,
   pub(crate) recurse_cache: RefCell<HashMap<BodyId, FlowResults<'a, 'tcx>>>,
 }
 
@@ -93,6 +94,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       body,
       place_info,
       control_dependencies,
+      diverging_dependencies: DivergingDependencies::build(body),
       recurse_cache,
     }
   }
@@ -152,7 +154,10 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     let mut queue = vec![block];
     while let Some(block) = queue.pop() {
       let guards = self.control_dependencies.dependent_on(block);
-      for guard in guards.into_iter().flat_map(|set| set.iter()) {
+      let diverging = self.diverging_dependencies.as_ref();
+      let diverging_guards = diverging.and_then(|deps| deps.dependent_on(block));
+      let guards = guards.into_iter().chain(diverging_guards);
+      for guard in guards.flat_map(|set| set.iter()) {
         if !controlled_by.contains(&guard) {
           controlled_by.push(guard);
           queue.push(guard);
diff --git a/crates/flowistry/src/mir/diverging.rs b/crates/flowistry/src/mir/diverging.rs
new file mode 100644
index 0000000..4d133a1
--- /dev/null
+++ b/crates/flowistry/src/mir/diverging.rs
@@ -0,0 +1,146 @@
+//! Control dependencies of the code from which a function does not return.
+
+use rustc_data_structures::graph::{
+  DirectedGraph, Predecessors, StartNode, Successors, iterate,
+};
+use rustc_index::bit_set::DenseBitSet;
+use rustc_middle::mir::{BasicBlock, Body, START_BLOCK};
+use rustc_utils::{BodyExt, mir::control_dependencies::ControlDependencies};
+
+/// The control-flow graph of a body without unwinding, where every execution ends in one
+/// additional node: those that return, those that e.g. panic, and those that loop forever.
+struct SingleExitGraph<'a, 'tcx> {
+  body: &'a Body<'tcx>,
+  exits: DenseBitSet<BasicBlock>,
+}
+
+impl SingleExitGraph<'_, '_> {
+  fn exit(&self) -> BasicBlock {
+    BasicBlock::from_usize(self.body.basic_blocks.len())
+  }
+
+  fn is_cleanup(&self, block: BasicBlock) -> bool {
+    self.body.basic_blocks[block].is_cleanup
+  }
+
+  /// Returns all the blocks from which a block in `ends` can be reached.
+  fn leads_to(&self, ends: impl Iterator<Item = BasicBlock>) -> DenseBitSet<BasicBlock> {
+    let mut reached = DenseBitSet::new_empty(self.num_nodes());
+    let mut queue = ends.collect::<Vec<_>>();
+    while let Some(block) = queue.pop() {
+      if reached.insert(block) {
+        queue.extend(self.predecessors(block));
+      }
+    }
+    reached
+  }
+
+  /// Returns all the blocks that can be reached from `block`.
+  fn reached_from(&self, block: BasicBlock) -> DenseBitSet<BasicBlock> {
+    let mut reached = DenseBitSet::new_empty(self.num_nodes());
+    for block in iterate::post_order_from(self, block) {
+      reached.insert(block);
+    }
+    reached
+  }
+}
+
+impl DirectedGraph for SingleExitGraph<'_, '_> {
+  type Node = BasicBlock;
+
+  fn num_nodes(&self) -> usize {
+    self.body.basic_blocks.len() + 1
+  }
+}
+
+impl StartNode for SingleExitGraph<'_, '_> {
+  fn start_node(&self) -> BasicBlock {
+    START_BLOCK
+  }
+}
+
+impl Successors for SingleExitGraph<'_, '_> {
+  fn successors(&self, node: BasicBlock) -> impl Iterator<Item = BasicBlock> {
+    let blocks = (node != self.exit()).then(|| {
+      let blocks = self.body.basic_blocks[node].terminator().successors();
+      let exit = self.exits.contains(node).then(|| self.exit());
+      blocks.filter(|block| !self.is_cleanup(*block)).chain(exit)
+    });
+    blocks.into_iter().flatten()
+  }
+}
+
+impl Predecessors for SingleExitGraph<'_, '_> {
+  fn predecessors(&self, node: BasicBlock) -> impl Iterator<Item = BasicBlock> {
+    let blocks = if node == self.exit() {
+      self.exits.iter().collect::<Vec<_>>()
+    } else if self.is_cleanup(node) {
+      Vec::new()
+    } else {
+      self.body.basic_blocks.predecessors()[node].to_vec()
+    };
+    blocks.into_iter()
+  }
+}
+
+/// The control dependencies of the blocks from which a function does not return.
+///
+/// [`BodyExt::control_dependencies`](rustc_utils::BodyExt::control_dependencies) only considers
+/// the paths to a return, hence it has no control dependencies for these blocks.
+pub(crate) struct DivergingDependencies {
+  returning: DenseBitSet<BasicBlock>,
+  control_dependencies: ControlDependencies<BasicBlock>,
+}
+
+impl DivergingDependencies {
+  /// Returns `None` if the function returns from all of its blocks.
+  pub(crate) fn build(body: &Body<'_>) -> Option<Self> {
+    let blocks = || {
+      let blocks = body.basic_blocks.iter_enumerated();
+      blocks.filter(|(_, data)| !data.is_cleanup)
+    };
+    let mut graph = SingleExitGraph {
+      body,
+      exits: DenseBitSet::new_empty(body.basic_blocks.len() + 1),
+    };
+
+    let returning = graph.leads_to(body.all_returns().map(|location| location.block));
+    if blocks().all(|(block, _)| returning.contains(block)) {
+      return None;
+    }
+
+    // An execution ends in a block without successors, or where a loop without an exit starts over.
+    let dominators = body.basic_blocks.dominators();
+    let ends = blocks()
+      .map(|(block, _)| block)
+      .filter(|block| {
+        let mut next = graph.successors(*block).peekable();
+        next.peek().is_none()
+          || dominators.is_reachable(*block)
+            && next.any(|next| dominators.dominates(next, *block))
+            && graph
+              .leads_to([*block].into_iter())
+              .superset(&graph.reached_from(*block))
+      })
+      .collect::<Vec<_>>();
+    for block in ends {
+      graph.exits.insert(block);
+    }
+
+    let control_dependencies = ControlDependencies::build_many(&graph, [graph.exit()]);
+    Some(DivergingDependencies {
+      returning,
+      control_dependencies,
+    })
+  }
+
+  /// Returns the blocks that guard `block` if the function does not return from it.
+  pub(crate) fn dependent_on(
+    &self,
+    block: BasicBlock,
+  ) -> Option<&DenseBitSet<BasicBlock>> {
+    (!self.returning.contains(block))
+      .then(|| self.control_dependencies.dependent_on(block))
+      .flatten()
+  }
+}
diff --git a/crates/flowistry/src/mir/mod.rs b/crates/flowistry/src/mir/mod.rs
index 07cbd3c..4139448 100644
--- a/crates/flowistry/src/mir/mod.rs
+++ b/crates/flowistry/src/mir/mod.rs
@@ -1,6 +1,7 @@
 //! Infrastructure for analyzing MIR that supports the information flow analysis.
 
 pub mod aliases;
+pub(crate) mod diverging;
 pub mod engine;
 pub mod placeinfo;
 pub mod utils;
-- 
2.43.0


From c419e047389b591e9b9d85ff2ad0ae7cfc3a3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 32/36] fix: status bar keeps the tooltip it is given

---
 ide/src/status_bar.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ide/src/status_bar.ts b/ide/src/status_bar.ts
index ee205ce..5032471 100644
--- a/ide/src/status_bar.ts
+++ b/ide/src/status_bar.ts
@@ -78,6 +78,6 @@ export class StatusBar {
     this.bar_item.backgroundColor = new vscode.ThemeColor(config.background);
     this.bar_item.text = `$(${config.icon}) flowistry`;
     this.bar_item.command = config.command;
-    this.bar_item.tooltip = config.tooltip;
+    if (config.tooltip) this.bar_item.tooltip = config.tooltip;
   }
 }
-- 
2.43.0


From 3ba29f9ff2de97c90b5c28faa0b7f90229d660c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 33/36] fix: status bar does not read $(undefined) in states
 without an icon

---
 ide/src/status_bar.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ide/src/status_bar.ts b/ide/src/status_bar.ts
index 5032471..5de8ed7 100644
--- a/ide/src/status_bar.ts
+++ b/ide/src/status_bar.ts
@@ -76,7 +76,9 @@ export class StatusBar {
     let config = config_for_state[this.state];
     this.bar_item.color = config.foreground;
     this.bar_item.backgroundColor = new vscode.ThemeColor(config.background);
-    this.bar_item.text = `$(${config.icon}) flowistry`;
+    this.bar_item.text = config.icon
+      ? `$(${config.icon}) flowistry`
+      : "flowistry";
     this.bar_item.command = config.command;
     if (config.tooltip) this.bar_item.tooltip = config.tooltip;
   }
-- 
2.43.0


From 8bd5c8e9ab912d8df11589b1bb1ca17b55c520b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 34/36] fix: the last error shown is the latest failure, also
 when the analysis failed

---
 ide/src/errors.ts |  7 ++++---
 ide/src/setup.ts  | 17 +++++++----------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/ide/src/errors.ts b/ide/src/errors.ts
index f589c52..35ff1d3 100644
--- a/ide/src/errors.ts
+++ b/ide/src/errors.ts
@@ -150,7 +150,8 @@ export const show_error = async (error: FlowistryError) => {
 export let hide_error = () => globals.error_pane.hide();
 
 export async function last_error(context: vscode.ExtensionContext) {
-  let error = context.workspaceState.get("err_log") as string;
-  let flowistry_err: BuildError = { type: "BuildError", error };
-  await show_error(flowistry_err);
+  let error = context.workspaceState.get<FlowistryError>("err_log");
+  if (error) {
+    await show_error(error);
+  }
 }
diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1dad0dc..3863937 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -272,12 +272,9 @@ export async function setup(
         flowistry_opts
       );
     } catch (e: any) {
-      context.workspaceState.update("err_log", e);
-
-      return {
-        type: "BuildError",
-        error: e,
-      };
+      let build_error: FlowistryError = { type: "BuildError", error: e };
+      context.workspaceState.update("err_log", build_error);
+      return build_error;
     }
 
     if (no_output) {
@@ -294,13 +291,13 @@ export async function setup(
       let output_str = output_decompressed.toString("utf8");
       output_typed = JSON.parse(output_str);
     } catch (e: any) {
-      return {
-        type: "AnalysisError",
-        error: e.toString()
-      }
+      output_typed = { Err: { type: "AnalysisError", error: e.toString() } };
     }
    
     if ("Err" in output_typed) {
+      if (output_typed.Err.type === "AnalysisError") {
+        context.workspaceState.update("err_log", output_typed.Err);
+      }
       return output_typed.Err;
     } else {
       return {
-- 
2.43.0


From 88ed660785a578cc2e8d879a7031fcf0120e0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 35/36] fix: a closed error pane opens again on the next build
 failure

---
 ide/src/errors.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ide/src/errors.ts b/ide/src/errors.ts
index 35ff1d3..ad5e72c 100644
--- a/ide/src/errors.ts
+++ b/ide/src/errors.ts
@@ -75,7 +75,11 @@ export class ErrorPane {
   show = async (error: string) => {
     this.tdcp.contents = error;
     this.tdcp.eventEmitter.fire(this.tdcp.uri);
-    if (!this.editor) {
+    // the user may have closed the pane in the meantime
+    let is_visible = vscode.window.visibleTextEditors.some(
+      (editor) => editor.document.uri.toString() === this.doc.uri.toString()
+    );
+    if (!this.editor || !is_visible) {
       this.editor = await vscode.window.showTextDocument(this.doc, {
         viewColumn: vscode.ViewColumn.Beside,
         preserveFocus: true,
-- 
2.43.0


From b5e67dc9f13ab7d5b81051544a76202563b441e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:07 +0000
Subject: [PATCH 36/36] fix: what a statement accesses through a reference is
 directly influenced by it

---
 crates/flowistry_ide/src/focus/direct_influence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry_ide/src/focus/direct_influence.rs b/crates/flowistry_ide/src/focus/direct_influence.rs
index 562592d..82f26ab 100644
--- a/crates/flowistry_ide/src/focus/direct_influence.rs
+++ b/crates/flowistry_ide/src/focus/direct_influence.rs
@@ -17,7 +17,10 @@ impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
 
     ModularMutationVisitor::new(place_info, |location, mutations| {
       let mut add = |place: Place<'tcx>, mutability: Mutability| {
-        for alias in place_info.reachable_values(place, mutability) {
+        // `reachable_values` only contains direct places, so it leaves out what is
+        // accessed through a reference, as in `*r = 1`.
+        let reachable = place_info.reachable_values(place, mutability);
+        for alias in reachable.iter().chain(place_info.aliases(place)) {
           influence.insert(*alias, location);
         }
       };
-- 
2.43.0

