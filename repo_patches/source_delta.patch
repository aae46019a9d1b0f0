From 7e9993b70338ed9284f6e7ddadeafb91ac51cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 01/12] fix: maintain no longer revives entities created
 through exclusive access

---
 src/entity/entity_allocator.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..fb95b8f 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -1,5 +1,7 @@
 use crate::entity::Entity;
 use alloc::collections::VecDeque;
+use alloc::vec::Vec;
+use core::mem;
 use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 
 #[derive(Default, Debug)]
@@ -8,18 +10,21 @@ pub(crate) struct EntityAllocator {
     last_maintained_index: u64,
     recycled: VecDeque<Entity>,
     recycled_since_maintain: AtomicUsize,
+    queued: Vec<Entity>,
 }
 
 impl EntityAllocator {
     #[must_use]
     pub fn allocate(&mut self) -> Option<Entity> {
-        let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
+        // The entity returned is added to the world right away, so `maintain`
+        // must not return it again.
+        self.set_queued_aside();
 
-        if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
+        if let Some(entity) = self.recycled.pop_back() {
+            Some(entity)
         } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
             *self.next_index_to_allocate.get_mut() += 1;
+            self.last_maintained_index += 1;
             Some(Entity::with_index(index))
         } else {
             None
@@ -60,8 +65,9 @@ impl EntityAllocator {
             new_index_range
         };
 
-        self.recycled
-            .drain(recycled_range)
+        self.queued
+            .drain(..)
+            .chain(self.recycled.drain(recycled_range))
             .chain(new_index_range.map(|i| Entity::with_index(i as u32)))
     }
 
@@ -70,6 +76,21 @@ impl EntityAllocator {
         self.last_maintained_index = 0;
         self.recycled.clear();
         *self.recycled_since_maintain.get_mut() = 0;
+        self.queued.clear();
+    }
+
+    /// Moves the entities allocated by `allocate_atomic` to `queued`, where
+    /// they wait for the next call to `maintain`.
+    fn set_queued_aside(&mut self) {
+        if *self.recycled_since_maintain.get_mut() == 0
+            && *self.next_index_to_allocate.get_mut() == self.last_maintained_index
+        {
+            return;
+        }
+
+        let mut queued = mem::take(&mut self.queued);
+        queued.extend(self.maintain());
+        self.queued = queued;
     }
 
     fn increment_recycled_since_maintain(&self) -> Option<usize> {
-- 
2.43.0


From 92ea5c26727000b092344f1e42affdfb352464f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 02/12] fix: component slices of exclude queries start at the
 queried range

---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..5cec82a 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
-- 
2.43.0


From f73045befe5e89a3602652759d188e90bea05994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 03/12] fix: allow groups of MAX_GROUP_ARITY components and
 MAX_GROUP_COUNT groups

---
 src/component/group_mask.rs   | 8 ++++----
 src/component/storage_mask.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..1b5a147 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -12,20 +12,20 @@ impl GroupMask {
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
         assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1_u128 << (to - from)) - 1) << from) as u64)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
         assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!((((1_u128 << (to - from)) - 1) << from) as u64))
     }
 
     #[inline]
diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..3f9a2ce 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -11,10 +11,10 @@ impl StorageMask {
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
         assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1_u32 << (to - from)) - 1) << from) as u16)
     }
 }
 
-- 
2.43.0


From 4246a75edbdcd98c0f05c010ea31e38c5f8a4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 04/12] fix: accept nested groups declared from largest to
 smallest, reject overlapping ones

---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..68273f3 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_cached_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From 513ab96950401ae8e296f4373639e98bc2087fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 05/12] fix: a panicking destructor no longer corrupts the
 storage its component is deleted from

---
 src/component/component_sparse_set.rs | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 25fb590..08aacba 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -94,28 +94,9 @@ impl ComponentSparseSet {
     where
         T: Component,
     {
-        let Some(raw_index) = self.sparse.remove(entity) else {
-            return;
-        };
-
-        let index = raw_index as usize;
-        self.len -= 1;
-
-        let last_entity = *self.entities.add(self.len).as_ref();
-        *self.entities.add(index).as_mut() = last_entity;
-
-        if index < self.len {
-            *self.sparse.get_unchecked_mut(last_entity.sparse()) = Some(SparseVecSlot {
-                index: raw_index,
-                version: last_entity.version,
-            });
-        }
-
-        let dropped_ptr = self.components.cast::<T>().add(index);
-        dropped_ptr.drop_in_place();
-
-        let last_ptr = self.components.cast::<T>().add(self.len);
-        last_ptr.copy_to(dropped_ptr, 1);
+        // The component must be dropped only after it was fully removed, as its
+        // destructor may panic.
+        drop(self.remove::<T>(entity));
     }
 
     #[inline]
-- 
2.43.0


From c6a8203fd9d277b4defd443e35602e08f281fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 06/12] fix: a panicking destructor no longer lets cleared
 components be dropped twice

---
 src/component/component_sparse_set.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 08aacba..5b97b0e 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -2,7 +2,7 @@ use crate::component::Component;
 use crate::entity::{Entity, SparseVec, SparseVecSlot};
 use alloc::{alloc, Layout, LayoutError};
 use core::ptr::NonNull;
-use core::{fmt, mem, slice};
+use core::{fmt, mem, ptr, slice};
 
 pub(crate) struct ComponentSparseSet {
     sparse: SparseVec,
@@ -280,15 +280,15 @@ impl ComponentSparseSet {
     {
         self.sparse.clear();
 
+        // Components must not be reachable anymore if a destructor panics.
+        let len = mem::take(&mut self.len);
+
         if mem::needs_drop::<T>() {
-            for i in 0..self.len {
-                unsafe {
-                    self.components.cast::<T>().add(i).drop_in_place();
-                }
+            unsafe {
+                ptr::slice_from_raw_parts_mut(self.components.cast::<T>().as_ptr(), len)
+                    .drop_in_place();
             }
         }
-
-        self.len = 0;
     }
 
     unsafe fn drop_typed<T>(&mut self)
-- 
2.43.0


From caa54524bd49be1e9a8782b9957aede992e96807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 07/12] fix: grouping entities no longer mixes up the versions
 of their component slots

---
 src/component/component_sparse_set.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 5b97b0e..cec54d9 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -264,8 +264,14 @@ impl ComponentSparseSet {
         // Swap entities.
         let entity_a = self.entities.add(dense_a).as_mut();
         let entity_b = self.entities.add(dense_b).as_mut();
-        self.sparse
-            .swap_nonoverlapping(entity_a.sparse(), entity_b.sparse());
+        *self.sparse.get_unchecked_mut(entity_a.sparse()) = Some(SparseVecSlot {
+            index: dense_b as u32,
+            version: entity_a.version,
+        });
+        *self.sparse.get_unchecked_mut(entity_b.sparse()) = Some(SparseVecSlot {
+            index: dense_a as u32,
+            version: entity_b.version,
+        });
         mem::swap(entity_a, entity_b);
 
         // Swap components.
-- 
2.43.0


From beffb1088055afe5d0e8ef36e7e172318c6497a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 08/12] fix: inserting, extending and deleting leave groups
 intact if user code panics

---
 src/component/component_set.rs | 113 ++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 57 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 7b629d8..ca34202 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -33,6 +33,40 @@ pub unsafe trait ComponentSet {
     unsafe fn delete(world: &mut World, entity: Entity);
 }
 
+/// Groups the newly created entities when dropped, even if the iterator that
+/// produces their components panics.
+struct GroupOnDrop<'a> {
+    world: &'a mut World,
+    group_mask: GroupMask,
+    start_entity: usize,
+}
+
+impl Drop for GroupOnDrop<'_> {
+    fn drop(&mut self) {
+        if self.group_mask == GroupMask::EMPTY {
+            return;
+        }
+
+        let new_entities = unsafe {
+            self.world
+                .entities
+                .as_slice()
+                .get_unchecked(self.start_entity..)
+        };
+
+        for &entity in new_entities {
+            unsafe {
+                group(
+                    &mut self.world.components.components,
+                    &mut self.world.components.groups,
+                    self.group_mask,
+                    entity,
+                );
+            }
+        }
+    }
+}
+
 macro_rules! impl_component_set {
     ($(($Comp:ident, $idx:tt)),*) => {
         unsafe impl<$($Comp,)*> ComponentSet for ($($Comp,)*)
@@ -44,7 +78,7 @@ macro_rules! impl_component_set {
             unsafe fn insert(world: &mut World, entity: Entity, components: Self) {
                 let mut group_mask = GroupMask::EMPTY;
 
-                $({
+                let sparse_sets = ($({
                     let metadata = world
                         .components
                         .metadata
@@ -57,11 +91,16 @@ macro_rules! impl_component_set {
                         world
                             .components
                             .components
-                            .get_unchecked_mut(metadata.storage_index)
-                            .get_mut()
-                            .insert(entity, components.$idx);
+                            .get_unchecked(metadata.storage_index)
+                            .as_ptr()
                     }
-                })*
+                },)*);
+
+                // The replaced components must be dropped only after grouping
+                // the new ones, as their destructors may panic.
+                let _replaced = unsafe {
+                    ($((*sparse_sets.$idx).insert(entity, components.$idx),)*)
+                };
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
@@ -101,32 +140,23 @@ macro_rules! impl_component_set {
 
                 let start_entity = world.entities.len();
 
+                let guard = GroupOnDrop {
+                    world,
+                    group_mask,
+                    start_entity,
+                };
+
                 components.into_iter().for_each(|components| {
-                    let entity = world.entities.create();
+                    let entity = guard.world.entities.create();
 
                     unsafe {$(
                         (*sparse_sets.$idx).insert(entity, components.$idx);
                     )*}
                 });
 
-                let new_entities = unsafe {
-                    world.entities.as_slice().get_unchecked(start_entity..)
-                };
+                drop(guard);
 
-                if group_mask != GroupMask::EMPTY {
-                    for &entity in new_entities {
-                        unsafe {
-                            group(
-                                &mut world.components.components,
-                                &mut world.components.groups,
-                                group_mask,
-                                entity,
-                            );
-                        }
-                    }
-                }
-
-                new_entities
+                unsafe { world.entities.as_slice().get_unchecked(start_entity..) }
             }
 
             unsafe fn remove(world: &mut World, entity: Entity) -> Self::Remove {
@@ -167,40 +197,9 @@ macro_rules! impl_component_set {
             }
 
             unsafe fn delete(world: &mut World, entity: Entity) {
-                let mut group_mask = GroupMask::EMPTY;
-
-                let sparse_sets = ($({
-                    let metadata = world
-                        .components
-                        .metadata
-                        .get(&TypeId::of::<$Comp>())
-                        .unwrap_or_else(|| panic_missing_comp::<$Comp>());
-
-                    group_mask |= metadata.delete_mask;
-
-                    unsafe {
-                        world
-                            .components
-                            .components
-                            .get_unchecked(metadata.storage_index)
-                            .as_ptr()
-                    }
-                },)*);
-
-                unsafe {
-                    if group_mask != GroupMask::EMPTY {
-                        ungroup(
-                            &mut world.components.components,
-                            &mut world.components.groups,
-                            group_mask,
-                            entity,
-                        );
-                    }
-
-                    $(
-                        (*sparse_sets.$idx).delete::<$Comp>(entity);
-                    )*
-                }
+                // The components must be dropped only after all of them were
+                // removed, as their destructors may panic.
+                drop(unsafe { Self::remove(world, entity) });
             }
         }
     };
-- 
2.43.0


From 90225d94121a90d646327de5c9c35d79b5383c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 09/12] fix: destroying entities and clearing the world remove
 all components if a destructor panics

---
 src/component/component_storage.rs | 52 ++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..cdef77d 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -8,7 +8,7 @@ use alloc::vec::Vec;
 use atomic_refcell::AtomicRefCell;
 use core::any::{self, TypeId};
 use core::ops::Range;
-use core::{cmp, mem};
+use core::{cmp, mem, slice};
 use hashbrown::hash_map::Entry;
 use hashbrown::HashMap;
 use rustc_hash::FxBuildHasher;
@@ -140,9 +140,9 @@ impl ComponentStorage {
             ungroup_all(&mut self.components, &mut self.groups, entity);
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().delete_dyn(entity);
-        }
+        for_each_sparse_set(&mut self.components, |sparse_set| {
+            sparse_set.delete_dyn(entity);
+        });
     }
 
     pub fn clear(&mut self) {
@@ -150,9 +150,7 @@ impl ComponentStorage {
             group.len = 0;
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().clear();
-        }
+        for_each_sparse_set(&mut self.components, ComponentSparseSet::clear);
     }
 
     #[must_use]
@@ -321,6 +319,46 @@ pub(crate) struct ComponentMetadata {
     pub group_info: Option<GroupInfo>,
 }
 
+/// Calls `f` for all sparse sets, even if a component destructor panics.
+fn for_each_sparse_set<F>(sparse_sets: &mut [AtomicRefCell<ComponentSparseSet>], f: F)
+where
+    F: Fn(&mut ComponentSparseSet),
+{
+    struct Guard<'a, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        sparse_sets: slice::IterMut<'a, AtomicRefCell<ComponentSparseSet>>,
+        f: F,
+    }
+
+    impl<F> Guard<'_, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        fn run(&mut self) {
+            for sparse_set in &mut self.sparse_sets {
+                (self.f)(sparse_set.get_mut());
+            }
+        }
+    }
+
+    impl<F> Drop for Guard<'_, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        fn drop(&mut self) {
+            self.run();
+        }
+    }
+
+    Guard {
+        sparse_sets: sparse_sets.iter_mut(),
+        f,
+    }
+    .run();
+}
+
 #[cold]
 #[inline(never)]
 pub(crate) fn panic_missing_comp<T>() -> ! {
-- 
2.43.0


From 8655b701ee928e7fce59a5b0537f39b18810f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 10/12] fix: refusing a layout with too many groups keeps the
 components of the world

---
 src/component/component_storage.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index cdef77d..c9e947c 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -1,7 +1,7 @@
 use crate::component::{
     group, ungroup_all, Component, ComponentData, ComponentSparseSet, Group, GroupInfo,
     GroupLayout, GroupMask, GroupMetadata, NonZeroStorageMask, QueryGroupInfo, QueryMask,
-    StorageMask, View, ViewMut,
+    StorageMask, View, ViewMut, MAX_GROUP_COUNT,
 };
 use crate::entity::Entity;
 use alloc::vec::Vec;
@@ -35,6 +35,18 @@ impl ComponentStorage {
     }
 
     pub unsafe fn set_layout(&mut self, layout: &GroupLayout, entities: &[Entity]) {
+        let group_count = layout
+            .families()
+            .iter()
+            .map(|family| family.arities().len())
+            .sum::<usize>();
+
+        // Must be checked before moving the components out of the storage.
+        assert!(
+            group_count <= MAX_GROUP_COUNT,
+            "Worlds must have at most {MAX_GROUP_COUNT} component groups",
+        );
+
         let mut sparse_sets = self.extract_sparse_sets();
 
         for family in layout.families() {
-- 
2.43.0


From fcaebe3cd681fc9d0eca375105e1bf231e193dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 11/12] fix: replacing the group layout no longer leaves empty
 component storages behind

---
 src/component/component_storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index c9e947c..b537326 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -318,6 +318,7 @@ impl ComponentStorage {
 
         self.groups.clear();
         self.metadata.clear();
+        self.components.clear();
 
         sparse_sets
     }
-- 
2.43.0


From a16eaf6fa6c11fc053cc3e642820d24975b84adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 12/12] fix: a refused group no longer changes the group layout

---
 src/component/group_layout.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 68273f3..3c9e002 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -44,19 +44,25 @@ impl GroupLayout {
             "Groups must have at most {MAX_GROUP_ARITY} component types",
         );
 
-        let successes = self
+        // Must be checked before adding the group to one of the families.
+        let family_count = self
+            .families
+            .iter()
+            .filter(|f| !f.is_disjoint(&components))
+            .count();
+
+        assert!(
+            family_count <= 1,
+            "Groups families may not have any component types in common",
+        );
+
+        let added = self
             .families
             .iter_mut()
-            .map(|f| usize::from(f.try_add_group(&components)))
-            .sum::<usize>();
+            .any(|f| f.try_add_group(&components));
 
-        if successes == 0 {
+        if !added {
             self.families.push(GroupFamily::new(components));
-        } else {
-            assert_eq!(
-                successes, 1,
-                "Groups families may not have any component types in common",
-            );
         }
     }
 
@@ -97,10 +103,15 @@ impl GroupFamily {
         &self.arities
     }
 
+    /// Returns whether the family and the group have no components in common.
+    #[must_use]
+    fn is_disjoint(&self, components: &[ComponentData]) -> bool {
+        self.components.iter().all(|c| !components.contains(c))
+    }
+
     #[must_use]
     fn try_add_group(&mut self, components: &[ComponentData]) -> bool {
-        // Check if groups are disjoint.
-        if self.components.iter().all(|c| !components.contains(c)) {
+        if self.is_disjoint(components) {
             return false;
         }
 
-- 
2.43.0

