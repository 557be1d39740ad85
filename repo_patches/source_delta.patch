From d25c21318560a9975b7d82731c698f3200ff3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 01/22] Add simulation-only Collaction constructor (cfg tp_sim)

---
 client/rust/src/action/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index 2e1f0c8..e1bd7ec 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -24,6 +24,13 @@ pub struct Collaction {
 }
 
 impl Collaction {
+    /// Only for the simulation harness, which drives the engine through the
+    /// same queue as clients and so needs to build collactions.
+    #[cfg(tp_sim)]
+    pub fn new(actions: Vec<Action>) -> Self {
+        Self { actions }
+    }
+
     pub fn actions(&self) -> &[Action] {
         &self.actions
     }
-- 
2.43.0


From 81893287b49db840b32ac6a4f5c44a8b21ac5969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 02/22] fix: apply state writes by swapping values instead of
 panicking

Applying any collaction with a write hit a todo!(). A mistyped write now
rejects the collaction rather than asserting.
---
 .../contract/properties/states/dyn_handle.rs  | 42 ++++++++++++++++++-
 client/rust/src/engine.rs                     | 22 +++-------
 2 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/client/rust/src/contract/properties/states/dyn_handle.rs b/client/rust/src/contract/properties/states/dyn_handle.rs
index d9d77fc..c893bb8 100644
--- a/client/rust/src/contract/properties/states/dyn_handle.rs
+++ b/client/rust/src/contract/properties/states/dyn_handle.rs
@@ -3,17 +3,57 @@ use super::{handle::StateHandle, IStateHandle};
 use crate::apply_to_state_handle;
 use crate::contract::properties::dynamic::__macro::DynEnum;
 use crate::contract::properties::dynamic::{
-    DynTpPropertyMut, DynTpPropertyRef, TpPrimitiveType, TpPropertyType,
+    DynTpPrimitive, DynTpProperty, DynTpPropertyMut, DynTpPropertyRef, DynTpVec, TpPrimitiveType,
+    TpPropertyType,
 };
 use crate::contract::properties::primitives;
 use crate::contract::properties::traits::ITpPropertyStatic;
 use crate::contract::ContractDataHandle;
 use crate::object::ObjectHandle;
 
+use eyre::eyre;
+
 DynEnum!(
     DynStateHandle,
     StateHandle | derive(Clone, Eq, Hash, PartialEq)
 );
+impl DynStateHandle {
+    /// Exchanges the value of the state with `data`.
+    ///
+    /// # Errors
+    /// Will error, without changing anything, if the handle is invalid or the
+    /// type of `data` doesn't match the type of the state.
+    pub(crate) fn swap(
+        &self,
+        baseline: &mut crate::baseline::Baseline,
+        data: &mut DynTpProperty,
+    ) -> eyre::Result<()> {
+        macro_rules! match_helper {
+            ($handle:ident, $handle_type:ident, $data:ident, $data_type:ident, $($variant:ident),+ $(,)?) => {
+                match ($handle, $data) {
+                    $(
+                        ($handle_type::$variant(h), $data_type::$variant(d)) => {
+                            std::mem::swap(&mut h.get_mut(baseline)?.value, d);
+                            Ok(())
+                        }
+                    )*
+                    _ => Err(eyre!("Type of data did not match type of state")),
+                }
+            };
+        }
+
+        match (*self, data) {
+            (Self::Primitive(h), DynTpProperty::Primitive(d)) => {
+                primitives!(idents, match_helper, h, DynStateHandlePrimitive, d, DynTpPrimitive)
+            }
+            (Self::Vec(h), DynTpProperty::Vec(d)) => {
+                primitives!(idents, match_helper, h, DynStateHandleVec, d, DynTpVec)
+            }
+            _ => Err(eyre!("Type of data did not match type of state")),
+        }
+    }
+}
+
 impl IStateHandle for DynStateHandle {
     type OutputRef<'a> = DynStateRef<'a>;
     type OutputMut<'a> = DynStateMut<'a>;
diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..d81c345 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -118,23 +118,11 @@ impl Engine {
                     }
                     StateAction::Write { handle, data } => {
                         // Get data from the Action and apply it to the BaselineFork.
-                        let state = self
-                            .realm_mut()
-                            .baseline_mut(BaselineKind::Fork)
-                            .state_mut(*handle)
-                            .wrap_err("Invalid Handle")?;
-
-                        // Sanity check that all types remain the same
-                        debug_assert!(state.0.prop_type() == data.prop_type());
-                        // TODO[SER-272]: handle DynTpProperty<DynTpData> and DynTpData in general
-
-                        // Swap the current value with the new data.
-                        // This optimizes applying the Action and allows
-                        // for its simple reversal if needed.
-
-                        // TODO: hard ;(
-                        //mem::swap(&mut state.value, data);
-                        todo!("Figure out how to swap")
+                        // This swaps the current value with the new data, which
+                        // optimizes applying the Action and allows for its
+                        // simple reversal if needed.
+                        let baseline = self.realm_mut().baseline_mut(BaselineKind::Fork);
+                        handle.swap(baseline, data).wrap_err("Failed to write")
                     }
                 }
             }
-- 
2.43.0


From 46de680ca617644f063d8f9795a29513c918e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 03/22] fix: do not reverse the action that failed when
 rejecting a collaction

A failing write was re-applied during the rollback, which failed again
and panicked.
---
 client/rust/src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index d81c345..d065b9c 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -86,7 +86,7 @@ impl Engine {
                 }
                 Err(_) => {
                     // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
+                    // The failed Action itself had no effect.
                     // Go in FIFO order
                     self.reverse_actions(applied_actions.into_iter().rev());
 
-- 
2.43.0


From cf8df9e791c0fa0ac32abe9629c7f80a5bdd7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 04/22] fix: remove the properties of a removed object

The properties were looked up through the object that had just been
taken out of the arena, so every removal failed half way and leaked them.
---
 client/rust/src/baseline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..e247fdd 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -203,7 +203,7 @@ impl Baseline {
 
         for s in states {
             apply_to_state_id!(s, |id| {
-                let handle = self.bind_state(id, obj)?;
+                let handle = o.bind_state(id)?;
                 if let Err(e) = self.state_remove(handle) {
                     log::warn!("Failed to remove state, state has been leaked: {}", e);
                 }
@@ -213,7 +213,7 @@ impl Baseline {
 
         for c in channels {
             apply_to_channel_id!(c, |id| {
-                let handle = self.bind_channel(id, obj)?;
+                let handle = o.bind_channel(id)?;
                 if let Err(e) = self.channel_remove(handle) {
                     log::warn!("Failed to remove channel, channel has been leaked: {}", e);
                 }
-- 
2.43.0


From efa6f14ed44321c64a682fd48ccefca7cdb18feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 05/22] fix: drop a removed object from its contract's object
 list

The stale handle stayed listed, and later made unregister_contract panic.
---
 client/rust/src/baseline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index e247fdd..6d4cf5e 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -196,6 +196,9 @@ impl Baseline {
         } else {
             return Err(eyre!("Object did not exist, so it could not be removed"));
         };
+        if let Some(c_data) = self.contracts.get_mut(o.contract()) {
+            c_data.objects_mut().remove(&obj);
+        }
 
         // remove all fields of the object
         let states = StatesIter::<C::States>::new(o.contract());
-- 
2.43.0


From 0315b45e7b8dc60cb5cdc2ad70e595ae6eb0b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 06/22] fix: refuse to remove an object through a different
 contract

It was removed anyway, leaking or destroying the wrong properties.
---
 client/rust/src/baseline.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 6d4cf5e..e2b1255 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -191,6 +191,11 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
+        if let Some(o) = self.objects.get(obj) {
+            if self.contract_data(o.contract())?.id() != C::ID {
+                return Err(eyre!("Object did not match the provided contract type!"));
+            }
+        }
         let o = if let Some(o) = self.objects.remove(obj) {
             o
         } else {
-- 
2.43.0


From fa16cb437200160b21244901bb6e8c2c36bef53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 07/22] fix: skip to the right property when skipping ahead in
 an iteration

nth() ignored n for the type, was off by one for the index, and could overflow.
---
 client/rust/src/contract/properties/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..83064c7 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -37,17 +37,17 @@ macro_rules! prop_iter {
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
+                let new_pos = self.pos.saturating_add(n);
                 if new_pos >= n_fields {
                     self.pos = n_fields;
                     return None;
                 }
                 let prop_type = S::enumerate_types()
-                    .get(self.pos)
+                    .get(new_pos)
                     .copied()
                     .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = new_pos + 1; // also discard the element at the new position
+                Some($dyn_name::new(self.contract, new_pos, prop_type))
             }
         }
     };
-- 
2.43.0


From b6a1568fbd5a2fef6170060408e8b132fc55f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 08/22] fix: saturate when scaling ticks instead of wrapping
 around

Ticks already saturate on addition and subtraction; a large scale made
local time jump to the far past.
---
 client/rust/src/time/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..c4fd193 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,7 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        Self(val.clamp(i32::MIN as i64, i32::MAX as i64) as i32)
     }
 }
 
-- 
2.43.0


From 4aebec545c14c78c4c08923f14d924d219a40b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 09/22] fix: convert ticks to seconds with the declared ticks
 per second

Ticks are milliseconds (ticks_per_second is 1000), but the conversions
divided by 1024.
---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index c4fd193..8bddd0a 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From 4310d0d0a3f750595556b276f5d2c431ff4c1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 10/22] fix: don't crash when the engine goes away during the
 first send

An unbounded crossbeam 0.5.6 queue dereferences a null pointer when its
receiver is dropped between a first sender's reservation of the first
block and its installation at the head. Use the queue once up front.
---
 client/rust/src/action/mod.rs |  6 ++++++
 client/rust/src/engine.rs     | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index e1bd7ec..cdce00a 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -31,6 +31,12 @@ impl Collaction {
         Self { actions }
     }
 
+    pub(crate) fn empty() -> Self {
+        Self {
+            actions: Vec::new(),
+        }
+    }
+
     pub fn actions(&self) -> &[Action] {
         &self.actions
     }
diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index d065b9c..c801024 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -35,7 +35,15 @@ impl Engine {
         let (sender, receiver) = if let Some(cap) = queue_capacity {
             crossbeam_channel::bounded(cap)
         } else {
-            crossbeam_channel::unbounded()
+            let (sender, receiver) = crossbeam_channel::unbounded();
+            // Pass something through the queue before anyone else can use it.
+            // The version of crossbeam in use crashes if a receiver is dropped
+            // while the very first send is installing the first block.
+            sender
+                .send(Collaction::empty())
+                .expect("the receiver is still alive");
+            receiver.recv().expect("something was just sent");
+            (sender, receiver)
         };
 
         let this = Self { realm, receiver };
-- 
2.43.0


From 59eca8c049067a3d0772732a59d9017e94fa40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 11/22] fix: export release functions for every owned value

---
 client/rust/src/contract/mod.rs            |  6 +++
 client/rust/src/contract/properties/mod.rs | 51 ++++++++++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/client/rust/src/contract/mod.rs b/client/rust/src/contract/mod.rs
index 9e284bc..1c2a2b4 100644
--- a/client/rust/src/contract/mod.rs
+++ b/client/rust/src/contract/mod.rs
@@ -157,6 +157,12 @@ pub mod c_api {
         v.into()
     }
 
+    #[remangle(substitute!())]
+    #[ffi_export]
+    pub fn ContractData__objects_drop(objects: repr_c::Vec<c_types::ObjectHandle>) {
+        drop(objects)
+    }
+
     #[remangle(substitute!())]
     #[ffi_export]
     pub fn ContractId__name<'a>(cid: &'a ContractId) -> str::Ref<'static> {
diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 83064c7..0cd1e69 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -279,4 +279,55 @@ pub mod c_api {
 
         pub use rsharp::string::String;
     }
+
+    /// Releases the owned values that the functions of `channels` hand out.
+    pub mod release {
+        #![allow(non_camel_case_types, non_snake_case, dead_code)]
+
+        use super::super::channels::c_api::*;
+        use super::super::primitives;
+
+        use rsharp::remangle;
+        use safer_ffi::prelude::*;
+
+        macro_rules! monomorphize {
+            // Base case
+            ($path:literal, $t:ty $(,)?) => {
+                paste::paste! {
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<ChannelHandle_ $t:camel __drop>](h: repr_c::Box<[<ChannelHandle_ $t:camel>]>) {
+                        drop(h)
+                    }
+
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<ChannelId_ $t:camel __drop>](id: repr_c::Box<[<ChannelId_ $t:camel>]>) {
+                        drop(id)
+                    }
+
+                    /// Frees the list returned by `keyframes`, but not the keyframes themselves.
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<Channel_ $t:camel __keyframes_drop>]<'a>(v: repr_c::Vec<&'a [<Keyframe_ $t:camel>]>) {
+                        drop(v)
+                    }
+
+                    /// Frees the list returned by `keyframes_mut`, but not the keyframes themselves.
+                    #[remangle($path)]
+                    #[ffi_export]
+                    pub fn [<Channel_ $t:camel __keyframes_mut_drop>]<'a>(v: repr_c::Vec<&'a mut [<Keyframe_ $t:camel>]>) {
+                        drop(v)
+                    }
+                }
+            };
+            // recursive case
+            ($path:literal, $first_t:ty, $($tail_t:ty),+ $(,)?) => {
+                monomorphize!($path, $first_t);
+                monomorphize!($path, $($tail_t),+);
+            };
+        }
+
+        primitives!(; types, monomorphize, "tp_client::contract::properties::channels");
+    }
 }
-- 
2.43.0


From a20b4a7d9b8843035517693328cf55dd11698ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 12/22] fix: refuse saved objects that refer to states out of
 bounds

---
 client/serialize/rust/src/deserializer/new/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 7e0fa65..3c29017 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -305,6 +305,14 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
         .states()
         .ok_or(eyre!("Expected at least one state in the baseline!"))?;
 
+    // Validate that all the states exist
+    if obj_states_t
+        .iter()
+        .any(|s| usize::try_from(s.idx()).unwrap() >= states_t.len())
+    {
+        return Err(eyre!("Object referred to a state that doesn't exist"));
+    }
+
     // Iterator of all the states belonging to the object, but we have converted from
     // handles to the actual `fb::State`.
     let obj_states_t = obj_states_t
-- 
2.43.0


From 3c307507ce1cf36fd4265e5c525043fa64ab09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 13/22] fix: report saved states of an unknown type without a
 panic

---
 client/serialize/rust/src/deserializer/new/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 3c29017..f26a821 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -328,7 +328,7 @@ fn validate_obj_matches_contract<'a, C: rs::Contract>(
         if obj_state_t.p_type() != *expected_typ {
             return Err(eyre!(
                 "state {i}'s type was {:?} but expected {:?}",
-                obj_state_t.p_type().variant_name().unwrap(),
+                obj_state_t.p_type(),
                 *expected_typ,
             ));
         }
-- 
2.43.0


From b9b119216dcd0a92e089b0dc56d4b4f57c47fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 14/22] fix: refuse saved strings without a value

---
 client/serialize/rust/src/deserializer/new/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index f26a821..53b124f 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -393,7 +393,11 @@ impl<'a> Deserializer<'a> {
                 P::Bool => helper!(obj_state_t.p_as_bool().unwrap().v()),
                 P::F32 => helper!(obj_state_t.p_as_f32().unwrap().v()),
                 P::F64 => helper!(obj_state_t.p_as_f64().unwrap().v()),
-                P::FbString => helper!(obj_state_t.p_as_fb_string().unwrap().v().unwrap()),
+                P::FbString => helper!(obj_state_t
+                    .p_as_fb_string()
+                    .unwrap()
+                    .v()
+                    .ok_or_else(|| eyre!("String was missing from its state"))?),
                 P::tp_serialize_object_ObjectHandle => {
                     // Figure out what object was referenced in the state, and track it.
                     let referenced_obj_handle_t: fb::ObjectHandle = obj_state_t
-- 
2.43.0


From 2e5c162b5d5697414e20689c18bb8daf0fa338f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 15/22] fix: refuse saved data without the prefix of the format

---
 client/serialize/rust/src/deserializer/new/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/serialize/rust/src/deserializer/new/mod.rs b/client/serialize/rust/src/deserializer/new/mod.rs
index 53b124f..3e1d56b 100644
--- a/client/serialize/rust/src/deserializer/new/mod.rs
+++ b/client/serialize/rust/src/deserializer/new/mod.rs
@@ -73,6 +73,9 @@ pub struct DeserializerBuilder<'a> {
 }
 impl<'a> DeserializerBuilder<'a> {
     pub fn new(data: &'a [u8], kind: rs::BaselineKind) -> Result<Self> {
+        if data.get(4..8) != Some(crate::PREFIX.as_bytes()) {
+            return Err(eyre!("The data was not saved by this library"));
+        }
         let base_t =
             flatbuffers::root::<fb::Baseline>(data).wrap_err("Error while verifying flatbuffer")?;
 
-- 
2.43.0


From 4f569525e464d5374d03a93f47b5042f62d8db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 16/22] fix: refuse to serialize a contract twice into the same
 save

---
 client/serialize/rust/src/serializer/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/serialize/rust/src/serializer/mod.rs b/client/serialize/rust/src/serializer/mod.rs
index a66a01e..989b596 100644
--- a/client/serialize/rust/src/serializer/mod.rs
+++ b/client/serialize/rust/src/serializer/mod.rs
@@ -47,6 +47,13 @@ impl<'b> Serializer<'b> {
     pub fn serialize<C: rs::Contract>(&mut self, contract: &C) -> Result<()> {
         let fbb = &mut self.fbb;
         let contract_data: &rs::ContractData = self.baseline.contract_data(contract.handle())?;
+        if self
+            .handle_map
+            .contracts
+            .contains_left(&contract.handle())
+        {
+            return Err(eyre!("Contract was already serialized: {:?}", C::ID));
+        }
 
         self.contracts.push(Self::serialize_contract::<C>(fbb)?);
         self.handle_map
-- 
2.43.0


From 380a3808bb40d4d3a62ad53eaf1e6c2cb61ecbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 17/22] fix: report references to what isn't saved instead of a
 panic

---
 client/serialize/rust/src/serializer/mod.rs | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/client/serialize/rust/src/serializer/mod.rs b/client/serialize/rust/src/serializer/mod.rs
index 989b596..176cba2 100644
--- a/client/serialize/rust/src/serializer/mod.rs
+++ b/client/serialize/rust/src/serializer/mod.rs
@@ -47,11 +47,7 @@ impl<'b> Serializer<'b> {
     pub fn serialize<C: rs::Contract>(&mut self, contract: &C) -> Result<()> {
         let fbb = &mut self.fbb;
         let contract_data: &rs::ContractData = self.baseline.contract_data(contract.handle())?;
-        if self
-            .handle_map
-            .contracts
-            .contains_left(&contract.handle())
-        {
+        if self.handle_map.contracts.contains_left(&contract.handle()) {
             return Err(eyre!("Contract was already serialized: {:?}", C::ID));
         }
 
@@ -212,11 +208,24 @@ impl<'b> Serializer<'b> {
         ))
     }
 
-    pub fn finish(mut self) -> FlatBufferBuilder<'static> {
+    /// Like [`Self::try_finish`].
+    ///
+    /// # Panics
+    /// Panics if a serialized state refers to something that wasn't serialized.
+    pub fn finish(self) -> FlatBufferBuilder<'static> {
+        self.try_finish().expect("Failed to finish serialization")
+    }
+
+    /// Finishes the buffer.
+    ///
+    /// # Errors
+    /// Errors if a serialized state refers to an object or contract that doesn't
+    /// exist anymore, or wasn't serialized.
+    pub fn try_finish(mut self) -> Result<FlatBufferBuilder<'static>> {
         // Second pass to write the handle data. We will go back through the handles and
         // properly update their indices by using the `HandleMap`
         macro_rules! rewrite_states {
-            ($handle_ident:ident, $map_field:expr, $handle_variant:expr $(,)?) => {
+            ($handle_ident:ident, $map_field:expr, $referenced:expr, $handle_variant:expr $(,)?) => {
                 for (state_handle, state_idx) in $map_field.iter() {
                     let referenced_idx = {
                         let referenced_handle = self
@@ -224,7 +233,9 @@ impl<'b> Serializer<'b> {
                             .state(*state_handle)
                             .expect("Unexpectly had a missing handle")
                             .value;
-                        self.handle_map[referenced_handle]
+                        *$referenced.get_by_left(&referenced_handle).ok_or_else(|| {
+                            eyre!("A state refers to a handle that wasn't serialized")
+                        })?
                     };
 
                     // Create the state flatbuffer
@@ -251,11 +262,13 @@ impl<'b> Serializer<'b> {
         rewrite_states!(
             ContractDataHandle,
             self.handle_map.contract_states,
+            self.handle_map.contracts,
             fb::TpPrimitive::tp_serialize_contract_ContractDataHandle,
         );
         rewrite_states!(
             ObjectHandle,
             self.handle_map.object_states,
+            self.handle_map.objects,
             fb::TpPrimitive::tp_serialize_object_ObjectHandle,
         );
 
@@ -275,6 +288,6 @@ impl<'b> Serializer<'b> {
             )
         };
         fbb.finish(baseline_t, Some(crate::PREFIX));
-        self.fbb
+        Ok(self.fbb)
     }
 }
-- 
2.43.0


From c2999d683bbad014727ec9ed68f32f7a2f491c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 18/22] fix: refuse a used output directory that can't be
 examined

---
 client/codegen_wrapped/src/lib.rs    | 2 +-
 crates/rsharp/codegen/src/codegen.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/codegen_wrapped/src/lib.rs b/client/codegen_wrapped/src/lib.rs
index d96332d..6806fc4 100644
--- a/client/codegen_wrapped/src/lib.rs
+++ b/client/codegen_wrapped/src/lib.rs
@@ -62,7 +62,7 @@ impl Codegen {
             .join("cs/src/generated/wrapped");
 
         if !overwrite
-            && output_dir.exists()
+            && output_dir.try_exists().into_diagnostic()?
             && output_dir.read_dir().into_diagnostic()?.next().is_some()
         {
             return Err(miette!(format!(
diff --git a/crates/rsharp/codegen/src/codegen.rs b/crates/rsharp/codegen/src/codegen.rs
index c0390cc..c099f54 100644
--- a/crates/rsharp/codegen/src/codegen.rs
+++ b/crates/rsharp/codegen/src/codegen.rs
@@ -23,7 +23,7 @@ impl Codegen {
             .unwrap()
             .join("cs/src/generated");
 
-        if !overwrite && output_dir.exists() && output_dir.read_dir()?.next().is_some() {
+        if !overwrite && output_dir.try_exists()? && output_dir.read_dir()?.next().is_some() {
             return Err(eyre!(format!(
                 "`output_dir` is not empty! Please delete it, or rerun with `-f`. (output_dir={output_dir:?})"
             )));
-- 
2.43.0


From c08c55e03d7e669d7b87dd6adcde06f3b6c88a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 19/22] fix: reserving no further room in an arena made the
 next insertion panic

---
 crates/datastructures/arena/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/datastructures/arena/src/lib.rs b/crates/datastructures/arena/src/lib.rs
index 8476511..c1245b2 100644
--- a/crates/datastructures/arena/src/lib.rs
+++ b/crates/datastructures/arena/src/lib.rs
@@ -73,7 +73,11 @@ impl<T> Arena<T> {
     }
 
     pub fn reserve(&mut self, additional_capacity: usize) {
-        self.0.reserve(additional_capacity)
+        // The underlying arena corrupts its list of free slots if it is asked
+        // to reserve nothing.
+        if additional_capacity > 0 {
+            self.0.reserve(additional_capacity)
+        }
     }
 }
 impl<T> Default for Arena<T> {
-- 
2.43.0


From e2581eca70d90602ea4cc54359abf5de5d49f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 20/22] fix: refuse to create an object with the handle of
 another contract

A contract registered in one copy of a realm has a handle that may denote an
entirely different contract in the other copy. Creating an object with it made
an object of that contract with the wrong properties, and unregistering that
contract panicked.
---
 client/rust/src/baseline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index e2b1255..d1596c3 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -128,8 +128,12 @@ impl Baseline {
         states: impl Iterator<Item = DynTpProperty>,
         channels: impl Iterator<Item = DynChannel>,
     ) -> Result<ObjectHandle> {
-        if !self.contracts.contains(contract.handle()) {
-            return Err(eyre!("No such contract for that handle"));
+        let c_data = self
+            .contracts
+            .get(contract.handle())
+            .ok_or_else(|| eyre!("No such contract for that handle"))?;
+        if c_data.id() != C::ID {
+            return Err(eyre!("Handle did not match the provided contract type!"));
         }
 
         let state_types = C::States::enumerate_types();
-- 
2.43.0


From d67e03000e33913347200d2f4c5bdf73db693dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 21/22] fix: refuse to save a contract with the handle of
 another one

The objects of that other contract were saved as objects of this one.
---
 client/serialize/rust/src/serializer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/serialize/rust/src/serializer/mod.rs b/client/serialize/rust/src/serializer/mod.rs
index 176cba2..1dd64c7 100644
--- a/client/serialize/rust/src/serializer/mod.rs
+++ b/client/serialize/rust/src/serializer/mod.rs
@@ -47,6 +47,9 @@ impl<'b> Serializer<'b> {
     pub fn serialize<C: rs::Contract>(&mut self, contract: &C) -> Result<()> {
         let fbb = &mut self.fbb;
         let contract_data: &rs::ContractData = self.baseline.contract_data(contract.handle())?;
+        if contract_data.id() != C::ID {
+            return Err(eyre!("Handle did not match the provided contract type: {:?}", C::ID));
+        }
         if self.handle_map.contracts.contains_left(&contract.handle()) {
             return Err(eyre!("Contract was already serialized: {:?}", C::ID));
         }
-- 
2.43.0


From 0788492cdbffce2733a0100c04df3219c6b4458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 22/22] fix: sort keyframes although some time is not a number

Treating NaN as equal to every other time is no consistent order, so that one
such keyframe left all others unsorted.
---
 client/rust/src/contract/properties/channels/channel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/channel.rs b/client/rust/src/contract/properties/channels/channel.rs
index d70efce..6657028 100644
--- a/client/rust/src/contract/properties/channels/channel.rs
+++ b/client/rust/src/contract/properties/channels/channel.rs
@@ -25,11 +25,11 @@ pub struct Channel<T: ITpProperty>(Vec<Keyframe<T>>);
 impl<T: ITpProperty> Channel<T> {
     pub fn new(keyframes: impl Iterator<Item = Keyframe<T>>) -> Self {
         let mut keyframes: Vec<_> = keyframes.collect();
-        // Sort keyframes by time
+        // Sort keyframes by time, those without a comparable time last
         keyframes.sort_unstable_by(|a, b| {
             a.time()
                 .partial_cmp(&b.time())
-                .unwrap_or(std::cmp::Ordering::Equal)
+                .unwrap_or_else(|| a.time().is_nan().cmp(&b.time().is_nan()))
         });
         Self(keyframes)
     }
-- 
2.43.0

