From d5190fe5dae34cde98cfc7348d90f4e87b12a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 01/46] fix: find the wind group by name (the unsorted <unset>
 entry misled the binary search)

---
 src/ringhopper-primitives/src/primitive/group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..804fb1c 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -215,7 +215,9 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
+        // The last entry is the unset group; it is not a real group and is not in alphabetical order.
+        let (_unset, groups) = ALL_GROUPS.split_last().unwrap();
+        groups.binary_search_by(|probe| probe.0.cmp(str))
             .map(|n| ALL_GROUPS[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
-- 
2.43.0


From 04fcb4649c05b697d5af9cf53838e2d7788d56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 02/46] fix: do not panic when a vertex refers to a node that
 compressed vertices cannot express

---
 src/ringhopper/src/tag/model.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 916fbe4..1c5052c 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -576,8 +576,15 @@ fn check_indices_for_gbxpart(gbxmodel: &GBXModel, gbxpart: &GBXModelGeometryPart
     Ok(())
 }
 
+/// Compressed vertices store node indices multiplied by 3 in a byte.
+fn vertex_nodes_are_compressible(part: &ModelGeometryPart) -> bool {
+    part.uncompressed_vertices.items.iter().all(|v| {
+        v.node0_index.unwrap_or(0) < 128 / 3 && v.node1_index.unwrap_or(0) < 128 / 3
+    })
+}
+
 fn restore_missing_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
-    if !part.compressed_vertices.items.is_empty() {
+    if !part.compressed_vertices.items.is_empty() || !vertex_nodes_are_compressible(part) {
         return false
     }
 
@@ -590,8 +597,8 @@ fn restore_missing_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
 }
 
 fn destroy_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
-    // If there are no uncompressed vertices, the tag cannot be restored.
-    if part.uncompressed_vertices.items.is_empty() {
+    // If there are no (valid) uncompressed vertices, the tag cannot be restored.
+    if part.uncompressed_vertices.items.is_empty() || !vertex_nodes_are_compressible(part) {
         return false;
     }
 
-- 
2.43.0


From 104fc3e204a0c609783d79219391141544b00c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 03/46] fix: reject a block count that exceeds the tag file
 before allocating memory for it

---
 src/ringhopper-primitives/src/primitive/data.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..0e7e8be 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -596,13 +596,15 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let count = c_primitive.count as usize;
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
+        let mut item_offset = *extra_data_cursor;
+
+        // The count is not trustworthy; check it before reserving memory for it.
+        *extra_data_cursor = fits(total_length, item_offset, data.len())?;
+
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
         };
 
-        let mut item_offset = *extra_data_cursor;
-        *extra_data_cursor = (item_offset).add_overflow_checked(total_length)?;
-
         for _ in 0..count {
             let struct_end = item_offset + item_size;
             result.items.push(T::read_from_tag_file(data, item_offset, struct_end, extra_data_cursor)?);
-- 
2.43.0


From e212af244bad4669d6bf29e2dab40652e4c54faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 04/46] fix: list an item that several tags directories have
 only once, whatever the listing order

---
 src/ringhopper/src/tag/tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..86e8b0e 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,5 @@
 use std::borrow::Cow;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use crc64::crc64;
@@ -716,9 +716,9 @@ impl TagTree for VirtualTagsDirectory {
             }
         }
 
-        result.dedup_by(|a, b| {
-            a.item_type == b.item_type && a.tag_group == b.tag_group && a.path == b.path
-        });
+        // The same item can be in several directories, and directories are listed in no particular order.
+        let mut seen = HashSet::new();
+        result.retain(|i| seen.insert((i.is_directory(), i.tag_group, i.path.clone())));
 
         if !success {
             return None
-- 
2.43.0


From 2a88096738c24d79c56d9fb3af5aa8701600fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 05/46] fix: save a tag by writing it to a temporary file and
 renaming it, so that a failed or interrupted write keeps the old tag

---
 src/ringhopper/src/tag/tree.rs | 35 +++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 86e8b0e..b3dec1e 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -2,6 +2,7 @@ use std::borrow::Cow;
 use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
+use std::sync::atomic::{AtomicU64, Ordering};
 use crc64::crc64;
 use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::{TagGroup, TagPath, TagReference, HALO_PATH_SEPARATOR};
@@ -634,11 +635,43 @@ impl VirtualTagsDirectory {
 
         let parent = file_to_write_to.parent().unwrap();
         std::fs::create_dir_all(&parent).map_err(|e| Error::FailedToWriteFile(parent.to_path_buf(), e))?;
-        std::fs::write(&file_to_write_to, tag_file).map_err(|e| Error::FailedToWriteFile(file_to_write_to, e))?;
+        Self::replace_file(&file_to_write_to, &tag_file).map_err(|e| Error::FailedToWriteFile(file_to_write_to, e))?;
 
         Ok(true)
     }
 
+    /// Write the file in full somewhere else first, and then put it in place in one step.
+    ///
+    /// This way, if writing fails or is interrupted, whatever was in the file before is still there.
+    fn replace_file(path: &Path, data: &[u8]) -> std::io::Result<()> {
+        static TEMP_COUNT: AtomicU64 = AtomicU64::new(0);
+
+        // Replace what a link refers to rather than the link.
+        let path = std::fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+        let temp = path.with_file_name(format!(".{}-{}.tmp", std::process::id(), TEMP_COUNT.fetch_add(1, Ordering::Relaxed)));
+
+        let write_and_replace = || {
+            // Do not replace a file we would not be allowed to write to.
+            let permissions = match std::fs::OpenOptions::new().write(true).open(&path) {
+                Ok(f) => Some(f.metadata()?.permissions()),
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
+                Err(e) => return Err(e)
+            };
+
+            std::fs::write(&temp, data)?;
+            if let Some(p) = permissions {
+                std::fs::set_permissions(&temp, p)?;
+            }
+            std::fs::rename(&temp, &path)
+        };
+
+        let result = write_and_replace();
+        if result.is_err() {
+            let _ = std::fs::remove_file(&temp);
+        }
+        result
+    }
+
     /// Get the directory index and path the tag is located in.
     pub fn path_for_tag(&self, path: &TagPath) -> Option<(usize, PathBuf)> {
         let native_path = path.to_native_path();
-- 
2.43.0


From e2aded217fe080d79d642750f34b09bbf1a89813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 06/46] fix: when a move fails, recreate emptied directories
 before moving tags back and do not panic

---
 src/ringhopper/src/tag/dependency.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..0853557 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -279,8 +279,17 @@ pub fn refactor_paths_for_tag_tree(
         }
 
         if undo_history.len() != tags_to_rename.len() {
-            for i in undo_history {
-                std::fs::rename(&i.1, &i.0).unwrap();
+            for ((old_path, _), (actual_path, new_actual_path)) in tags_to_rename.iter().zip(undo_history).rev() {
+                // moving the tag away may have removed its directory
+                let restored = actual_path.parent()
+                    .map_or(Ok(()), std::fs::create_dir_all)
+                    .and_then(|_| std::fs::rename(&new_actual_path, &actual_path));
+                if let Err(e) = restored {
+                    results.entry(old_path.to_owned())
+                        .or_default()
+                        .errors
+                        .push(format!("Couldn't move {} back to {}: {e:?}", new_actual_path.display(), actual_path.display()));
+                }
             }
             return Err((Error::Other("Filesystem errors occurred".to_owned()), results));
         }
-- 
2.43.0


From e4d1dfab7747ee189251a6679abfbd26ab2d52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 07/46] fix: do not panic when a tag that is not itself renamed
 cannot be opened for updating its references

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 0853557..004eca9 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -349,7 +349,7 @@ pub fn refactor_paths_for_tag_tree(
                 Ok(n) => n,
                 Err(e) => {
                     let mut l = context.results.lock().unwrap();
-                    l.get_mut(tag).unwrap().errors.push(format!("Can't open {tag}: {e}"));
+                    l.entry(tag.to_owned()).or_default().errors.push(format!("Can't open {tag}: {e}"));
                     continue;
                 }
             };
-- 
2.43.0


From 9421371d271e3c97388e53d190b549c228ea658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 08/46] fix: redirect a reference only once when one renamed
 path becomes another (refactor-paths --no-move)

---
 src/ringhopper/src/tag/dependency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 004eca9..ec23e12 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -361,6 +361,7 @@ pub fn refactor_paths_for_tag_tree(
                     if r.path() == Some(old_path) {
                         *r = TagReference::Set(new_path.to_owned());
                         changes_made = true;
+                        break;
                     }
                 }
             });
-- 
2.43.0


From 964012cdaffbc9d5d78d3805934d5dc0bdae4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 09/46] fix: report a tag that cannot be opened when listing
 reverse dependencies instead of panicking

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index ec23e12..3bab5b8 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 36bdf27ea2c301810b21234e5c983ccdde6cb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 10/46] fix: verifying a weapon_hud_interface in a loop of
 child HUDs waits for itself forever

Following child HUDs locks each of them, so a loop of two or more led back to the tag being verified, whose lock is
already held, and never ended. Find out from the references alone if the tag is part of a loop.
---
 src/ringhopper/src/tag/result.rs               |  4 +++-
 src/ringhopper/src/tag/verify.rs               | 12 +++++++++++-
 src/ringhopper/src/tag/verify/hud_interface.rs | 15 +++++++++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/result.rs b/src/ringhopper/src/tag/result.rs
index aaee43c..7633411 100644
--- a/src/ringhopper/src/tag/result.rs
+++ b/src/ringhopper/src/tag/result.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
 use definitions::ScenarioType;
 use primitives::engine::Engine;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use crate::tag::tree::TagTree;
 
@@ -28,6 +28,8 @@ impl TagResult {
 pub(crate) struct ScenarioContext<T: TagTree + Send + Sync> {
     pub scenario: Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>,
     pub hud_globals: Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>,
+    /// Child HUD of each weapon HUD interface used by the scenario
+    pub child_huds: HashMap<TagPath, TagReference>,
     pub scenario_type: ScenarioType,
     pub engine: &'static Engine,
     pub tag_tree: Arc<T>,
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 52880e9..6476f15 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -20,7 +20,7 @@ use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_engines::Engine;
-use ringhopper_structs::{Globals, Scenario, ScenarioType};
+use ringhopper_structs::{Globals, Scenario, ScenarioType, WeaponHUDInterface};
 use crate::tag::object::is_object;
 use crate::tag::result::*;
 use crate::tag::tree::TagTree;
@@ -78,6 +78,7 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
     let mut context = ScenarioContext {
         scenario: scenario_ref,
         hud_globals: hud_globals_ref,
+        child_huds: HashMap::new(),
         scenario_type: ScenarioType::Multiplayer,
         engine,
         tag_tree: Arc::new(tag_tree),
@@ -88,6 +89,15 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         .map_err(|e| Error::Other(format!("Failed to query dependencies: {e}")))?;
     context.scenario_type = context.scenario.lock().unwrap().as_any().downcast_ref::<Scenario>().unwrap()._type;
 
+    // Chains of these may loop, so they need to be known before any of these tags is locked for verifying
+    for path in all_dependencies.iter().filter(|p| p.group() == TagGroup::WeaponHUDInterface) {
+        if let Ok(n) = context.tag_tree.open_tag_shared(path) {
+            if let Some(n) = n.lock().unwrap().as_any().downcast_ref::<WeaponHUDInterface>() {
+                context.child_huds.insert(path.to_owned(), n.child_hud.to_owned());
+            }
+        }
+    }
+
     let mut v = Vec::with_capacity(all_dependencies.len());
     v.extend(all_dependencies.into_iter());
     let all_dependencies = Arc::new(v);
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index ededa66..56d010e 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -148,15 +148,22 @@ fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String
 }
 
 fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDInterface, path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
+    // Opening a tag of a loop this tag is part of would mean waiting for this tag
     let mut all_references = HashSet::new();
-    all_references.insert(path.to_owned());
-    let mut child_ref = base.child_hud.to_owned();
-    while let TagReference::Set(n) = &child_ref {
-        if all_references.contains(n) {
+    let mut next = base.child_hud.path();
+    while let Some(n) = next {
+        if n == path {
             result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
+            return
+        }
+        if !all_references.insert(n) {
             break
         }
+        next = context.child_huds.get(n).and_then(|c| c.path());
+    }
 
+    let mut child_ref = base.child_hud.to_owned();
+    while let TagReference::Set(_) = &child_ref {
         child_ref = match context.open_tag_reference_maybe(&child_ref, result, None) {
             Some(n) => {
                 let lock = n.lock().unwrap();
-- 
2.43.0


From bc5c95801638ed3164da4e2048eb0a1e87fcb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 11/46] fix: verifying a reference to a group the field does
 not allow panics or waits forever

Such a reference was reported, but then the tag was opened and taken for what it should have been; a tag that refers to
itself this way even locked itself a second time. Do not follow these references.
---
 src/ringhopper/src/tag/verify.rs                 | 10 +++++++++-
 src/ringhopper/src/tag/verify/hud_interface.rs   | 14 +++++++-------
 src/ringhopper/src/tag/verify/object.rs          | 12 ++++++------
 src/ringhopper/src/tag/verify/particle_system.rs |  4 ++--
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 6476f15..405a992 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -67,6 +67,9 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         let hud_globals_path = n.hud_globals
             .path()
             .ok_or_else(|| Error::InvalidTagData(format!("{globals_path} does not have HUD globals set for interface bitmaps #0")))?;
+        if hud_globals_path.group() != TagGroup::HUDGlobals {
+            return Err(Error::InvalidTagData(format!("{globals_path} has {hud_globals_path} set as the HUD globals for interface bitmaps #0, which is not a {} tag", TagGroup::HUDGlobals)))
+        }
         hud_globals_ref = tag_tree.open_tag_shared(hud_globals_path)?;
     }
     else {
@@ -213,8 +216,13 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
         Some(is_ok)
     }
 
-    fn open_tag_reference_maybe(&self, tag_reference: &TagReference, result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
+    /// Open the referenced tag if it can be opened and has no errors.
+    ///
+    /// References to groups not in `groups` are not followed, since nothing can be checked against such a tag. They are
+    /// reported by [`verify_dependencies`].
+    fn open_tag_reference_maybe(&self, tag_reference: &TagReference, groups: &[TagGroup], result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
         match tag_reference {
+            TagReference::Set(tp) if !groups.contains(&tp.group()) => None,
             TagReference::Set(tp) => self.open_tag_maybe(tp, result),
             TagReference::Null(_) => {
                 if let Some(n) = must_be_set_error {
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index 56d010e..a94c339 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 
 use definitions::WeaponHUDInterface;
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::{TagPath, TagReference};
+use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{Bitmap, GrenadeHUDInterface, HUDGlobals, HUDInterfaceMeterElement, HUDInterfaceStaticElement, UnicodeStringList, UnitHUDInterface};
 use crate::tag::tree::TagTree;
@@ -17,7 +17,7 @@ pub fn verify_weapon_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dyn
     macro_rules! check_sequence_index_for_2d_thing {
         ($outer_reflexive:tt, $outer_reflexive_bitmap:tt, $inner_reflexive:tt, $name:expr) => {
             for (oi, outer) in ziperator!(weapon_hud_interface.$outer_reflexive) {
-                let bitmap = match context.open_tag_reference_maybe(&outer.$outer_reflexive_bitmap, result, None) {
+                let bitmap = match context.open_tag_reference_maybe(&outer.$outer_reflexive_bitmap, &[TagGroup::Bitmap], result, None) {
                     Some(n) => n,
                     None => continue
                 };
@@ -76,7 +76,7 @@ pub fn verify_grenade_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dy
     check_static_element(&grenade_hud_interface.background, context, result, || "Background".to_string());
     check_static_element(&grenade_hud_interface.total_grenades_background, context, result, || "Total grenades background".to_string());
 
-    match context.open_tag_reference_maybe(&grenade_hud_interface.total_grenades_overlays.bitmap, result, None) {
+    match context.open_tag_reference_maybe(&grenade_hud_interface.total_grenades_overlays.bitmap, &[TagGroup::Bitmap], result, None) {
         Some(bitmap) => {
             let mut bitmap = bitmap.lock().unwrap();
             let bitmap = bitmap.as_any_mut().downcast_mut::<Bitmap>().unwrap();
@@ -95,7 +95,7 @@ pub fn verify_grenade_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dy
 pub fn verify_hud_globals<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let hud_globals: &HUDGlobals = tag.as_any().downcast_ref().unwrap();
 
-    match context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
+    match context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, &[TagGroup::UnicodeStringList], result, None) {
         Some(item_message_text) => {
             let mut item_message_text = item_message_text.lock().unwrap();
             let item_message_text = item_message_text.as_any_mut().downcast_mut::<UnicodeStringList>().unwrap();
@@ -122,7 +122,7 @@ pub fn verify_hud_globals<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryT
 }
 
 fn check_static_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String>(element: &HUDInterfaceStaticElement, context: &ScenarioContext<T>, result: &mut TagResult, name: N) {
-    let bitmap = match context.open_tag_reference_maybe(&element.interface_bitmap, result, None) {
+    let bitmap = match context.open_tag_reference_maybe(&element.interface_bitmap, &[TagGroup::Bitmap], result, None) {
         Some(n) => n,
         None => return
     };
@@ -135,7 +135,7 @@ fn check_static_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> Strin
 }
 
 fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String>(element: &HUDInterfaceMeterElement, context: &ScenarioContext<T>, result: &mut TagResult, name: N) {
-    let bitmap = match context.open_tag_reference_maybe(&element.meter_bitmap, result, None) {
+    let bitmap = match context.open_tag_reference_maybe(&element.meter_bitmap, &[TagGroup::Bitmap], result, None) {
         Some(n) => n,
         None => return
     };
@@ -164,7 +164,7 @@ fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDI
 
     let mut child_ref = base.child_hud.to_owned();
     while let TagReference::Set(_) = &child_ref {
-        child_ref = match context.open_tag_reference_maybe(&child_ref, result, None) {
+        child_ref = match context.open_tag_reference_maybe(&child_ref, &[TagGroup::WeaponHUDInterface], result, None) {
             Some(n) => {
                 let lock = n.lock().unwrap();
                 let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
diff --git a/src/ringhopper/src/tag/verify/object.rs b/src/ringhopper/src/tag/verify/object.rs
index b6a3c9c..4b5fc2f 100644
--- a/src/ringhopper/src/tag/verify/object.rs
+++ b/src/ringhopper/src/tag/verify/object.rs
@@ -1,6 +1,6 @@
 use definitions::{Bitmap, Weapon, WeaponHUDInterface};
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagGroup, TagPath};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{GBXModel, HUDGlobals, Model, ModelAnimations, UnicodeStringList, WeaponHUDInterfaceCrosshairType};
 use crate::tag::object::downcast_base_object;
@@ -14,7 +14,7 @@ const IGNORED_MODEL_NODE_LIST_CHECKSUM: i32 = 0;
 pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let object = downcast_base_object(tag).unwrap();
 
-    let model = context.open_tag_reference_maybe(&object.model, result, None);
+    let model = context.open_tag_reference_maybe(&object.model, &[TagGroup::Model, TagGroup::GBXModel], result, None);
 
     if object.model.is_null() {
         if !object.animation_graph.is_null() {
@@ -33,7 +33,7 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
             ($group:ty) => {
                 if let Some(model) = model.as_any().downcast_ref::<$group>() {
                     if model.node_list_checksum != IGNORED_MODEL_NODE_LIST_CHECKSUM {
-                        if let Some(anim) = context.open_tag_reference_maybe(&object.animation_graph, result, None) {
+                        if let Some(anim) = context.open_tag_reference_maybe(&object.animation_graph, &[TagGroup::ModelAnimations], result, None) {
                             let anim = anim.lock().unwrap();
                             let anim = anim.as_any().downcast_ref::<ModelAnimations>().unwrap();
 
@@ -59,7 +59,7 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
     let hud_globals_lock = context.hud_globals.clone();
     let hud_globals = hud_globals_lock.lock().unwrap();
     let hud_globals = hud_globals.as_any().downcast_ref::<HUDGlobals>().unwrap();
-    if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
+    if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, &[TagGroup::UnicodeStringList], result, None) {
         let item_message_text = r.lock().unwrap();
         let index = object.hud_text_message_index;
         let max = item_message_text.as_any().downcast_ref::<UnicodeStringList>().unwrap().strings.len();
@@ -74,7 +74,7 @@ pub fn verify_weapon<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
 
     let zoom_levels = weapon.zoom_levels as usize;
     if zoom_levels > 0 {
-        if let Some(r) = context.open_tag_reference_maybe(&weapon.hud_interface, result, None) {
+        if let Some(r) = context.open_tag_reference_maybe(&weapon.hud_interface, &[TagGroup::WeaponHUDInterface], result, None) {
             let hud = r.lock().unwrap();
             let weapon_hud_interface: &WeaponHUDInterface = hud.as_any().downcast_ref().unwrap();
             for (crosshair_index, crosshair) in (0..weapon_hud_interface.crosshairs.len()).zip(&weapon_hud_interface.crosshairs) {
@@ -82,7 +82,7 @@ pub fn verify_weapon<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
                     continue
                 }
 
-                let b = match context.open_tag_reference_maybe(&crosshair.crosshair_bitmap, result, None) {
+                let b = match context.open_tag_reference_maybe(&crosshair.crosshair_bitmap, &[TagGroup::Bitmap], result, None) {
                     Some(n) => n,
                     None => continue
                 };
diff --git a/src/ringhopper/src/tag/verify/particle_system.rs b/src/ringhopper/src/tag/verify/particle_system.rs
index d7c7fb8..7da42b0 100644
--- a/src/ringhopper/src/tag/verify/particle_system.rs
+++ b/src/ringhopper/src/tag/verify/particle_system.rs
@@ -1,4 +1,4 @@
-use primitives::{primitive::TagPath, tag::PrimaryTagStructDyn};
+use primitives::{primitive::{TagGroup, TagPath}, tag::PrimaryTagStructDyn};
 use ringhopper_structs::{Bitmap, ParticleSystem, ParticleSystemComplexSpriteRenderMode};
 
 use crate::tag::tree::TagTree;
@@ -20,7 +20,7 @@ pub fn verify_particle_system<T: TagTree + Send + Sync + 'static>(tag: &dyn Prim
                 None => continue // TODO: check if this is OK
             };
 
-            let bitmap = match context.open_tag_reference_maybe(&state.bitmaps, result, None) {
+            let bitmap = match context.open_tag_reference_maybe(&state.bitmaps, &[TagGroup::Bitmap], result, None) {
                 Some(n) => n,
                 None => continue // TODO: check if this is OK
             };
-- 
2.43.0


From 19b725dcb7a26f2e267df092eb06fc81723392b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 12/46] fix: a tag with errors is taken for good while its
 verification is being finished

The result replaced the placeholder only after the tag was unlocked, so that whoever waited for the tag could see the
placeholder, which has no errors, and not report that the tag could not be used.
---
 src/ringhopper/src/tag/verify.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 405a992..6a40d66 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -200,20 +200,25 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
                     TagGroup::ScenarioStructureBSP => verify_scenario_structure_bsp(tag, path, self, &mut result),
                     _ => ()
                 }
+
+                // The result has to be there before the tag is let go of: whoever waits for the tag looks at it next
+                Some(self.finish_tag(path, result))
             },
             Err(e) => {
                 if self.reserve_tag_to_verify(path) != VerifyStatus::Unverified {
                     return Some(false);
                 }
-                result.errors.push(format!("Failed to open tag: {e}"))
+                result.errors.push(format!("Failed to open tag: {e}"));
+                Some(self.finish_tag(path, result))
             }
         }
+    }
 
+    /// Store the result of a tag, returning whether or not the tag is OK.
+    fn finish_tag(&self, path: &TagPath, result: TagResult) -> bool {
         let is_ok = result.is_ok();
-        let path = path.to_owned();
-        self.results.lock().unwrap().insert(path, result);
-
-        Some(is_ok)
+        self.results.lock().unwrap().insert(path.to_owned(), result);
+        is_ok
     }
 
     /// Open the referenced tag if it can be opened and has no errors.
-- 
2.43.0


From 229211e7cd03c925bd94920edde8dfd981fdb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 13/46] fix: verification leaves out tags that are being read
 whenever a thread gets to them

Every thread skips tags that are locked. A tag can be locked by someone who only reads it (HUD globals, the scenario, or
anything when several scenarios are verified at once), in which case nobody verified it. Go over all tags once more.
---
 src/ringhopper/src/tag/verify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 6a40d66..7d3187e 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -123,6 +123,11 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         t.join().expect("thread should be finished successfully");
     }
 
+    // A tag that was only being read by someone while every thread got to it is still left to be verified
+    for path in all_dependencies.iter() {
+        context.verify_tag(path, false);
+    }
+
     Ok(Arc::into_inner(context).unwrap().results.into_inner().unwrap())
 }
 
-- 
2.43.0


From c7dcad994f6b647bb9fdbe974f6dc226990ddc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 14/46] fix: evicting a tag that somebody still holds panics

---
 src/ringhopper/src/tag/tree.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index b3dec1e..7bbfa17 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -479,11 +479,16 @@ impl<T: TagTree> CachingTagTree<T> {
     ///
     /// Returns `None` if no such tag was found in the cache.
     pub fn evict(&mut self, path: &TagPath) -> Option<Box<dyn PrimaryTagStructDyn>> {
-        self.tag_cache
+        let tag = self.tag_cache
             .lock()
             .unwrap()
-            .remove(path)
-            .map(|tag| Arc::into_inner(tag).unwrap().into_inner().unwrap())
+            .remove(path)?;
+
+        // If somebody else still holds the tag, then it cannot be moved out.
+        Some(match Arc::try_unwrap(tag) {
+            Ok(tag) => tag.into_inner().unwrap(),
+            Err(tag) => tag.lock().unwrap().clone_inner()
+        })
     }
 
     /// Write the tag to the delegate.
-- 
2.43.0


From c228bf5c20c1df98534b1ec19dbf0d39dc1b33c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 15/46] fix: ignore files that cannot be tags when listing tags
 instead of panicking

---
 src/ringhopper/src/tag/tree.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 7bbfa17..9dc1e0f 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -317,7 +317,10 @@ impl<'a, 'b> Iterator for TagTreeTagIterator<'a, 'b> {
             };
 
             let found = match first.item_type {
-                TagTreeItemType::Tag => first.tag_path().unwrap_or_else(|| panic!("found a tag in the tag tree tag iterator, but it does not have a TagPath")),
+                TagTreeItemType::Tag => match first.tag_path() {
+                    Some(n) => n,
+                    None => continue // not something that can be a tag
+                },
                 TagTreeItemType::Directory => {
                     if let Some(n) = first.files() {
                         self.stack.push(n.into());
@@ -413,12 +416,12 @@ impl<'a> TagTreeItem<'a> {
 
     /// Get this as a tag path, if it is a tag.
     ///
-    /// Returns `None` if this is not a tag.
+    /// Returns `None` if this is not a tag, or if its path is not one a tag can have.
     pub fn tag_path(&self) -> Option<TagPath> {
         if self.is_directory() {
             return None
         }
-        Some(TagPath::new(&self.path, self.tag_group.unwrap()).unwrap())
+        TagPath::new(&self.path, self.tag_group?).ok()
     }
 }
 
-- 
2.43.0


From 70ec3fdb776ba37849ccaa36a1d4a03eb72fd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 16/46] fix: match filters against paths with non-ASCII
 characters without panicking

---
 src/ringhopper/src/tag/tree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 9dc1e0f..9bdf8f8 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -85,7 +85,7 @@ impl TagFilter {
             let group_len = group_as_string.len();
             let filter_len = filter.len();
             let possible_dot = filter_len.wrapping_sub(group_len + 1);
-            if filter_len > group_len && filter.chars().nth(possible_dot) == Some('.') && filter.ends_with(group_as_string) {
+            if filter_len > group_len && filter.as_bytes()[possible_dot] == b'.' && filter.ends_with(group_as_string) {
                 filter = &filter[..possible_dot];
             }
         }
@@ -137,7 +137,7 @@ impl TagFilter {
         let group_len = group_as_string.len();
         let filter_len = path.len();
         let possible_dot = filter_len.wrapping_sub(group_len + 1);
-        if filter_len > group_len && path.chars().nth(possible_dot) == Some('.') && path.ends_with(group_as_string) {
+        if filter_len > group_len && path.as_bytes()[possible_dot] == b'.' && path.ends_with(group_as_string) {
             &path[..possible_dot]
         }
         else {
@@ -257,9 +257,9 @@ impl TagFilter {
 
             let what_first = what_first.unwrap();
 
-            filter = &filter[1..];
+            filter = &filter[filter_first.len_utf8()..];
             if filter_first != '*' {
-                what = &what[1..];
+                what = &what[what_first.len_utf8()..];
             }
 
             if filter_first == '?' || filter_first == what_first {
@@ -269,11 +269,11 @@ impl TagFilter {
                 if filter.is_empty() {
                     return true
                 }
-                while !what.is_empty() {
+                while let Some(c) = what.chars().next() {
                     if Self::filter_passes_raw(filter, what) {
                         return true
                     }
-                    what = &what[1..];
+                    what = &what[c.len_utf8()..];
                 }
                 return false
             }
-- 
2.43.0


From bd737e28bc65c126c2efc4f0541f059b45520c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:20 +0000
Subject: [PATCH 17/46] fix: do not fall back to another tags folder when it is
 unclear whether an earlier one has the tag, nor let a folder hide a tag

---
 src/ringhopper/src/tag/tree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 9bdf8f8..e9d806c 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,6 @@
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet, VecDeque};
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use std::sync::atomic::{AtomicU64, Ordering};
@@ -686,10 +687,14 @@ impl VirtualTagsDirectory {
         for index in 0..self.directories.len() {
             let directory = &self.directories[index];
             let path_to_test = directory.join(&native_path);
-            if !path_to_test.exists() {
-                continue
+            match std::fs::metadata(&path_to_test) {
+                // This is not a tag, so it must not hide one.
+                Ok(m) if m.is_dir() => continue,
+                Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory | ErrorKind::InvalidFilename | ErrorKind::InvalidInput) => continue,
+
+                // If we cannot tell, then do not use a tag this one would have replaced. Reading it gives the error.
+                _ => return Some((index, path_to_test))
             }
-            return Some((index, path_to_test));
         }
         None
     }
@@ -769,7 +774,7 @@ impl TagTree for VirtualTagsDirectory {
     }
 
     fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
-        self.write_tag_to_directory(path, tag, self.path_for_tag(path).map(|(index, _)| index).unwrap_or(0))
+        self.write_tag_to_directory(path, tag, 0) // only if it is not in any directory yet
     }
 
     fn is_read_only(&self) -> bool {
-- 
2.43.0


From 07336c4dfdde3fc24ad22236f1e95f8dce3e9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 18/46] fix: matching a filter with several asterisks takes
 exponential time

---
 src/ringhopper/src/tag/tree.rs | 70 +++++++++++++---------------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index e9d806c..0c90f11 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -232,55 +232,37 @@ impl TagFilter {
     }
 
     fn filter_passes_raw(mut filter: &str, mut what: &str) -> bool {
-        loop {
-            let filter_first = filter.chars().next();
-            let what_first = what.chars().next();
-
-            // Empty matches if both are empty
-            if filter_first.is_none() {
-                return what_first.is_none()
-            }
-
-            // Remove successive *s
-            let filter_first = filter_first.unwrap();
-            if filter_first == '*' {
-                let next_unsuccessive_asterisk = match filter.find(|f| f != filter_first) {
-                    Some(n) => n - 1,
-                    None => return true // only asterisks left, so everything is matched
-                };
-                filter = &filter[next_unsuccessive_asterisk..];
-            }
+        // What comes after the last asterisk, and what it has to match next
+        let mut last_asterisk: Option<(&str, &str)> = None;
 
-            // If the test string is now empty, bail
-            if what_first.is_none() {
-                return false;
-            }
-
-            let what_first = what_first.unwrap();
-
-            filter = &filter[filter_first.len_utf8()..];
-            if filter_first != '*' {
-                what = &what[what_first.len_utf8()..];
+        loop {
+            let mut filter_chars = filter.chars();
+            let mut what_chars = what.chars();
+
+            match (filter_chars.next(), what_chars.next()) {
+                (None, None) => return true,
+                (Some('*'), _) => {
+                    filter = filter_chars.as_str();
+                    last_asterisk = Some((filter, what));
+                    continue
+                },
+                (Some(f), Some(w)) if f == '?' || f == w => {
+                    filter = filter_chars.as_str();
+                    what = what_chars.as_str();
+                    continue
+                },
+                _ => ()
             }
 
-            if filter_first == '?' || filter_first == what_first {
-                continue
-            }
-            else if filter_first == '*' {
-                if filter.is_empty() {
-                    return true
-                }
-                while let Some(c) = what.chars().next() {
-                    if Self::filter_passes_raw(filter, what) {
-                        return true
-                    }
-                    what = &what[c.len_utf8()..];
-                }
-                return false
-            }
-            else {
+            // Have the last asterisk match one more character. The ones before it never need to.
+            let Some((after, start)) = last_asterisk else { return false };
+            let mut start = start.chars();
+            if start.next().is_none() {
                 return false
             }
+            filter = after;
+            what = start.as_str();
+            last_asterisk = Some((filter, what));
         }
     }
 }
-- 
2.43.0


From 1cc048c2ac26e4abefd26d76910b0c33a0f8a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 19/46] fix: recover files by replacing them in one step, and
 do not let two tags that share a file write it at once

---
 src/invader/src/verb/recover.rs | 11 ++++++++---
 src/ringhopper/src/tag/tree.rs  |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/invader/src/verb/recover.rs b/src/invader/src/verb/recover.rs
index cf16414..9ec69d4 100644
--- a/src/invader/src/verb/recover.rs
+++ b/src/invader/src/verb/recover.rs
@@ -1,6 +1,6 @@
 use std::env::Args;
 use std::path::PathBuf;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use crate::cli::CommandLineParser;
 use ringhopper::error::{Error, RinghopperResult};
@@ -16,6 +16,9 @@ struct UserData {
     data: PathBuf,
     logger: Arc<StdoutLogger>,
 
+    /// Held when checking for and writing a file, since tags may share one (e.g. global_scripts.hsc).
+    write_lock: Mutex<()>,
+
     success: AtomicUsize,
     total: AtomicUsize,
     error: AtomicUsize
@@ -37,6 +40,7 @@ pub fn recover(args: Args, description: &'static str) -> Result<(), String> {
         overwrite: parser.get_overwrite(),
         logger: logger.clone(),
         data: parser.get_data().to_path_buf(),
+        write_lock: Mutex::new(()),
 
         success: AtomicUsize::default(),
         total: AtomicUsize::default(),
@@ -96,14 +100,15 @@ fn recover_tag(user_data: &UserData, path: &TagPath, context: &ThreadingContext<
         let full_data_path = user_data.data.join(&dpath);
         let path_as_utf8 = dpath.to_str().unwrap();
 
-        if !user_data.overwrite && full_data_path.exists() {
+        let _lock = user_data.write_lock.lock().unwrap();
+        if !user_data.overwrite && full_data_path.try_exists().map_err(|e| Error::FailedToReadFile(full_data_path.clone(), e))? {
             user_data.logger.warning_fmt_ln(format_args!("Skipping {path_as_utf8}; already exists"));
             continue;
         }
 
         let parent = full_data_path.parent().unwrap();
         std::fs::create_dir_all(parent).map_err(|e| Error::FailedToWriteFile(parent.to_path_buf(), e))?;
-        std::fs::write(&full_data_path, ddata).map_err(|e| Error::FailedToWriteFile(full_data_path.clone(), e))?;
+        VirtualTagsDirectory::replace_file(&full_data_path, &ddata).map_err(|e| Error::FailedToWriteFile(full_data_path.clone(), e))?;
         user_data.logger.success_fmt_ln(format_args!("Recovered {path_as_utf8}"));
 
         anything_saved = true;
diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 0c90f11..73495dc 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -634,7 +634,7 @@ impl VirtualTagsDirectory {
     /// Write the file in full somewhere else first, and then put it in place in one step.
     ///
     /// This way, if writing fails or is interrupted, whatever was in the file before is still there.
-    fn replace_file(path: &Path, data: &[u8]) -> std::io::Result<()> {
+    pub fn replace_file(path: &Path, data: &[u8]) -> std::io::Result<()> {
         static TEMP_COUNT: AtomicU64 = AtomicU64::new(0);
 
         // Replace what a link refers to rather than the link.
-- 
2.43.0


From c5c83e3a8389da70661e634ecfa243e553dc627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 20/46] fix: refuse to recover a script whose name is a path
 leading outside of the scripts directory

---
 src/ringhopper/src/tag/recover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index 281e890..bce8c1f 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -53,6 +53,11 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
     for i in &scenario.source_files.items {
+        // Do not let a script end up anywhere but in the scripts directory.
+        if i.name.as_str().contains(['/', '\\', ':']) {
+            return Err(InvalidTagData(format!("script source file name `{}` is not a valid file name", i.name)))
+        }
+
         let path = match i.name.as_str() {
             "global_scripts" => "global_scripts.hsc".into(),
             name => base_scripts_dir.clone().join(format!("{name}.hsc"))
-- 
2.43.0


From 2b0159cf2c0fd6570b328c4df534378e019637b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 21/46] fix: a color plate for a bitmap with a dot in its name
 is saved over that of another bitmap

---
 src/invader/src/verb/plate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/invader/src/verb/plate.rs b/src/invader/src/verb/plate.rs
index f1523f9..26bb797 100644
--- a/src/invader/src/verb/plate.rs
+++ b/src/invader/src/verb/plate.rs
@@ -28,7 +28,11 @@ pub fn plate(args: Args, description: &'static str) -> Result<(), String> {
         }
 
         let result = make_color_plate_from_loose(&data_dir)?;
-        let image_file = data_dir.with_extension("tif");
+        let image_file = context
+            .args
+            .get_data()
+            .join(path.to_native_path())
+            .with_extension("tif");
         let tiff = result.to_tiff();
 
         std::fs::write(&image_file, tiff)
-- 
2.43.0


From 304ab1e010234a17d6ba2756f42799cb017cc29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 22/46] fix: replace a color plate in one step so that a failed
 write keeps the old one

---
 src/invader/src/verb/plate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/invader/src/verb/plate.rs b/src/invader/src/verb/plate.rs
index 26bb797..d6a53af 100644
--- a/src/invader/src/verb/plate.rs
+++ b/src/invader/src/verb/plate.rs
@@ -3,6 +3,7 @@ use crate::cli::CommandLineParser;
 use ringhopper::data::bitmap::plate::make_color_plate_from_loose;
 use ringhopper::error::Error;
 use ringhopper::primitives::primitive::TagGroup;
+use ringhopper::tag::tree::VirtualTagsDirectory;
 use crate::threading::{DisplayMode, do_with_threads, ProcessSuccessType};
 use crate::util::make_stdout_logger;
 
@@ -35,7 +36,7 @@ pub fn plate(args: Args, description: &'static str) -> Result<(), String> {
             .with_extension("tif");
         let tiff = result.to_tiff();
 
-        std::fs::write(&image_file, tiff)
+        VirtualTagsDirectory::replace_file(&image_file, &tiff)
             .map(|_| ProcessSuccessType::Success)
             .map_err(|e| Error::FailedToWriteFile(image_file, e))
     })
-- 
2.43.0


From 0a5d9765d36aeba4fb6c20851a5089cf54b27d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 23/46] fix: do not leave out images or padding when it is
 unclear whether they exist

---
 src/invader/src/verb/plate.rs           |  7 +++++--
 src/ringhopper/src/data/bitmap.rs       |  9 +++++++--
 src/ringhopper/src/data/bitmap/plate.rs | 10 +++++-----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/invader/src/verb/plate.rs b/src/invader/src/verb/plate.rs
index d6a53af..021b5d6 100644
--- a/src/invader/src/verb/plate.rs
+++ b/src/invader/src/verb/plate.rs
@@ -1,4 +1,5 @@
 use std::env::Args;
+use std::io::ErrorKind;
 use crate::cli::CommandLineParser;
 use ringhopper::data::bitmap::plate::make_color_plate_from_loose;
 use ringhopper::error::Error;
@@ -24,8 +25,10 @@ pub fn plate(args: Args, description: &'static str) -> Result<(), String> {
             .join(path.to_native_path())
             .with_extension("");
 
-        if !data_dir.is_dir() {
-            return Ok(ProcessSuccessType::Skipped("no directory to import in data"))
+        match std::fs::metadata(&data_dir) {
+            Ok(m) if m.is_dir() => (),
+            Err(e) if !matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => return Err(Error::FailedToReadFile(data_dir, e)),
+            _ => return Ok(ProcessSuccessType::Skipped("no directory to import in data"))
         }
 
         let result = make_color_plate_from_loose(&data_dir)?;
diff --git a/src/ringhopper/src/data/bitmap.rs b/src/ringhopper/src/data/bitmap.rs
index 5d9aa81..be9ef01 100644
--- a/src/ringhopper/src/data/bitmap.rs
+++ b/src/ringhopper/src/data/bitmap.rs
@@ -1,3 +1,4 @@
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::ColorARGBInt;
@@ -46,6 +47,8 @@ pub fn load_image_from_path<P: AsRef<Path>>(path: P) -> RinghopperResult<Image>
 /// Find an image at the given path, appending the extension to it if a supported image is found.
 ///
 /// Returns `None` if no supported images were found at that path.
+///
+/// If it cannot be determined whether or not an image is there, its path is returned, so loading it gives the error.
 pub fn autodetect_image_extension(file: &Path) -> Option<PathBuf> {
     let mut p = file.to_path_buf();
 
@@ -56,8 +59,10 @@ pub fn autodetect_image_extension(file: &Path) -> Option<PathBuf> {
 
     for (extension, _) in IMAGE_LOADING_FUNCTIONS {
         p.set_extension(extension);
-        if p.is_file() {
-            return Some(p)
+        match std::fs::metadata(&p) {
+            Ok(m) if !m.is_file() => (),
+            Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => (),
+            _ => return Some(p)
         }
     }
     None
diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index befccc9..4efc64f 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -152,11 +152,11 @@ fn parse_padding_file(padding_metadata: &Path) -> RinghopperResult<ColorARGBInt>
 /// Returns an `Err` if an error occurred.
 pub fn make_color_plate_from_loose(data_dir: &Path) -> RinghopperResult<Image> {
     let padding_metadata = data_dir.join("padding.txt");
-    let padding = if padding_metadata.is_file() {
-        Some(parse_padding_file(&padding_metadata)?)
-    }
-    else {
-        None
+    let padding = match std::fs::metadata(&padding_metadata) {
+        Ok(m) if m.is_file() => Some(parse_padding_file(&padding_metadata)?),
+        Ok(_) => None,
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
+        Err(e) => return Err(Error::FailedToReadFile(padding_metadata, e))
     };
 
     let iterator = LooseColorPlateIterator::interate_on(&data_dir)
-- 
2.43.0


From 6ced8f337b58b78d636c03d7f1bf9d9a089ef139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 24/46] fix: do not panic on a padding color with non-ASCII
 characters

---
 src/ringhopper/src/data/bitmap/plate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index 4efc64f..b314425 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -102,9 +102,9 @@ fn parse_padding_file(padding_metadata: &Path) -> RinghopperResult<ColorARGBInt>
         return Err(Error::Other(format!("{padding_metadata:?} is empty")));
     }
 
-    let (octothorpe, color) = padding_color.split_at(1);
+    let color = padding_color.strip_prefix('#').unwrap_or("");
 
-    if octothorpe != "#" || (color.len() != 6 && color.len() != 3) {
+    if !color.is_ascii() || (color.len() != 6 && color.len() != 3) {
         return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")));
     }
 
-- 
2.43.0


From 5887e5f3f74e7169a0c6951353da624213efea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 25/46] fix: restore each enum that a cache file stores one
 lower, not only in structs marked so

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index 1925a35..fee7061 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -506,7 +506,7 @@ impl ToTokenStream for Struct {
                     let field_name = &fields_with_names[i];
                     let field_type = &fields_with_types[i];
 
-                    let read_map_code = if self.flags.shifted_by_one {
+                    let read_map_code = if self.fields[i].flags.shifted_by_one {
                         "(u16::read_from_map(map, _pos, domain_type)?.wrapping_add(1)).try_into()?".to_owned()
                     }
                     else if field_type == "BSPVertexData" {
-- 
2.43.0


From c6285ff5ae5fb8dcfb032610990c350af0caccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 26/46] fix: read only the 16 bytes of a plane from a cache
 file (its size in memory was used)

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From 931d1fcace31246aa6fc3601993fee033df33338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 27/46] fix: check counts in a cache file before reserving
 memory for them

---
 .../src/primitive/data.rs                      | 10 ++++++++--
 src/ringhopper/src/map/extract.rs              | 18 +++++-------------
 src/ringhopper/src/map/resource.rs             |  2 +-
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 0e7e8be..846a2d4 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
@@ -641,7 +641,13 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let mut address = c_primitive.address.into();
 
         // Make sure we can add all of these
-        count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
+        let total_size = count.mul_overflow_checked(item_size)?;
+        total_size.add_overflow_checked(address)?;
+
+        // The count is not trustworthy; check it before reserving memory for it.
+        if count > 0 && map.get_data_at_address(address, domain_type, total_size).is_none() {
+            return Err(Error::MapDataOutOfBounds(format!("can't read reflexive of {count} elements at 0x{address:08X}[0x{total_size:08X}] from {domain_type:?}")))
+        }
 
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index ccbce26..4b1e7af 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -373,19 +373,11 @@ pub fn fix_bitmap_tag<M: Map>(tag: &mut Bitmap, map: &M) -> RinghopperResult<()>
         }
     }
 
-    let total_bitmap_data = tag
-        .bitmap_data
-        .items
-        .iter()
-        .map(|b| Ok(b.pixel_data_size as usize))
-        .reduce(|a, b| {
-            a.and_then(|size| b.and_then(|size2| size.add_overflow_checked(size2)))
-        });
-    let new_data = match total_bitmap_data {
-        Some(n) => n?,
-        None => return Ok(())
-    };
-    let mut processed_data: Vec<u8> = Vec::with_capacity(new_data);
+    if tag.bitmap_data.items.is_empty() {
+        return Ok(())
+    }
+
+    let mut processed_data: Vec<u8> = Vec::new();
 
     let engine = map.get_engine();
     let engine_name = engine.name;
diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..f3f7fff 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,7 +26,7 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
+        let mut resources = Vec::new();
         let resource_len = ResourceMapResource::simple_size();
 
         for i in 0..array_len {
-- 
2.43.0


From bb90ab53269befeff4764d56ea990213fae50d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 28/46] fix: refuse a cache file whose scenario tag or BSP
 header is not there instead of panicking

---
 src/ringhopper/src/map/gearbox.rs | 4 ++--
 src/ringhopper/src/map/util.rs    | 5 +++--
 src/ringhopper/src/map/xbox.rs    | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..b084795 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -95,7 +95,7 @@ impl GearboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags, map.scenario_tag)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
@@ -162,7 +162,7 @@ impl GearboxCacheFile {
 
         for bsp_index in 0..bsp_count {
             let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+                .map_err(|e| Error::MapParseFailure(format!("can't get the header of BSP #{bsp_index}: {e}")))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index 8fc94e4..d067a2f 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -10,8 +10,9 @@ use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
 
 /// Get all scenario and BSP data for a map.
-pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
-    let scenario = map.get_scenario_tag();
+pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>], scenario_tag: ID) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
+    let scenario = map.get_tag_by_id(scenario_tag)
+        .ok_or_else(|| Error::MapParseFailure("scenario tag ID does not refer to a tag; likely protected/corrupted map".to_owned()))?;
     if scenario.tag_path.group() != TagGroup::Scenario {
         return Err(Error::MapParseFailure(format!("scenario tag is marked as a {} tag; likely protected/corrupted map", scenario.tag_path.group())))
     }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..380d9a2 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -68,7 +68,7 @@ impl XboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags, map.scenario_tag)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
-- 
2.43.0


From abf6bf6df763aa009eefca7f69f8dbfc2a8dfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 29/46] fix: do not extract external sounds without their
 samples when there is no sounds.map

---
 src/ringhopper/src/map/gearbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index b084795..039bf2a 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -290,6 +290,11 @@ impl GearboxCacheFile {
 
             self.merged_sound_resources.insert(tag.domain.clone(), data);
         }
+        else {
+            // Same as with other external tags: without the resource map, there is nothing to read.
+            tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Sounds, tag.tag_path.path().to_owned());
+            tag.address = 0;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 4affc3cdfe263287f81e5337b4f30312c7c8aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 30/46] fix: do not accept an empty tag path (a reference to it
 corrupts the tag it is written in)

---
 src/ringhopper-primitives/src/primitive/path.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 7645310..82d78b9 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -260,6 +260,11 @@ impl TagPath {
             path_fixed.push(last_char);
         }
 
+        // Cannot be empty (an empty path in a tag file denotes a null reference)
+        if path_fixed.is_empty() {
+            return Err(Error::InvalidTagPath)
+        }
+
         // Cannot start at the root
         if path_fixed.starts_with(HALO_PATH_SEPARATOR) {
             return Err(Error::InvalidTagPath)
-- 
2.43.0


From 12c4b1e5e30347fd5006093f52e0ebbc143a02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 31/46] fix: refuse to write a reference to an empty path
 rather than to make such paths invalid

---
 src/ringhopper-primitives/src/primitive/path.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 82d78b9..46e9af0 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -260,11 +260,6 @@ impl TagPath {
             path_fixed.push(last_char);
         }
 
-        // Cannot be empty (an empty path in a tag file denotes a null reference)
-        if path_fixed.is_empty() {
-            return Err(Error::InvalidTagPath)
-        }
-
         // Cannot start at the root
         if path_fixed.starts_with(HALO_PATH_SEPARATOR) {
             return Err(Error::InvalidTagPath)
@@ -505,6 +500,10 @@ impl TagData for TagReference {
                 }
             },
             TagReference::Set(path) => {
+                // An empty path in a tag file denotes a null reference
+                if path.path.is_empty() {
+                    return Err(Error::InvalidTagPath)
+                }
                 data.extend_from_slice(path.path.as_bytes());
                 data.push(0x00);
                 TagReferenceC {
-- 
2.43.0


From ed8c8bf0adccd9c53b9d63ea8c19fe418efdae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 32/46] fix: refuse a tag file that holds a tag of another
 group instead of panicking later

---
 src/ringhopper/src/tag/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 73495dc..fb3e2dd 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -693,6 +693,9 @@ impl TagTree for VirtualTagsDirectory {
         let hash = Self::hash_file(file.as_slice());
         let mut tag = ringhopper_structs::read_any_tag_from_file_buffer(&file, self.strictness)
             .map_err(|e| Error::FailedToReadTag(path.clone(), vec![e]))?;
+        if tag.group() != path.group() {
+            return Err(Error::FailedToReadTag(path.clone(), vec![Error::TagHeaderGroupTypeMismatch]))
+        }
         tag.metadata_mut().hash = Some(hash);
         Ok(tag)
     }
-- 
2.43.0


From efebba62a085e505c3b67b8657c6561993dce503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 33/46] fix: find the tags with broken dependencies without
 trying every path to them (dependency-tree -b)

---
 src/invader/src/verb/dependency_tree.rs | 45 +++++++++----------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/invader/src/verb/dependency_tree.rs b/src/invader/src/verb/dependency_tree.rs
index 82b63c2..8004e08 100644
--- a/src/invader/src/verb/dependency_tree.rs
+++ b/src/invader/src/verb/dependency_tree.rs
@@ -39,41 +39,26 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
         result.insert(path, tags);
     }
 
-    fn contains_broken_dependency_somewhere<'a>(
-        tag_path: &'a TagPath,
-        result: &'a HashMap<TagPath, Vec<TagPath>>,
-        stack: &mut Vec<&'a TagPath>
-    ) -> bool {
-        let Some(it) = result.get(tag_path) else {
-            return true;
-        };
-        if stack.contains(&tag_path) {
-            return false;
-        }
-        stack.push(tag_path);
-        let mut broken = false;
-        for i in it {
-            if contains_broken_dependency_somewhere(i, result, stack) {
-                broken = true;
-                break;
-            }
-        }
-        let _popped = stack.pop();
-        debug_assert_eq!(_popped, Some(tag_path));
-        broken
-    }
-
     // Find all tags we can show here.
     let only_show_broken = parser.get_custom("broken").is_some();
     let tags_with_broken_dependencies = if only_show_broken {
-        let mut allowed_tags = Vec::new();
-        let mut stack = Vec::new();
-        for i in result.keys() {
-            if contains_broken_dependency_somewhere(i, &result, &mut stack) {
-                allowed_tags.push(i);
+        // Follow the dependents of each broken dependency. There may be too many paths to try all of them.
+        let mut dependents: HashMap<&TagPath, Vec<&TagPath>> = HashMap::new();
+        for (path, dependencies) in &result {
+            for d in dependencies {
+                dependents.entry(d).or_default().push(path);
+            }
+        }
+        let mut pending: Vec<&TagPath> = dependents.keys().copied().filter(|d| !result.contains_key(*d)).collect();
+        let mut allowed_tags = HashSet::new();
+        while let Some(d) = pending.pop() {
+            for &i in dependents.get(d).into_iter().flatten() {
+                if allowed_tags.insert(i) {
+                    pending.push(i);
+                }
             }
         }
-        Some(allowed_tags)
+        Some(allowed_tags.into_iter().collect::<Vec<&TagPath>>())
     }
     else {
         None
-- 
2.43.0


From 9e589985159cdab3b3b4cc31f8173c1087c61ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 34/46] fix: show tags in a loop that nothing else refers to
 (dependency-tree showed nothing)

---
 src/invader/src/verb/dependency_tree.rs | 33 ++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/invader/src/verb/dependency_tree.rs b/src/invader/src/verb/dependency_tree.rs
index 8004e08..32660f6 100644
--- a/src/invader/src/verb/dependency_tree.rs
+++ b/src/invader/src/verb/dependency_tree.rs
@@ -150,8 +150,9 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
     // Sort out all root tags.
     let mut next_on_depths = Vec::new();
     let output = make_stdout_logger();
-    let root_tags = all_tags.iter().filter(|&t| {
-        if tags_with_broken_dependencies.is_some_and(|b| !b.contains(&t)) {
+    let can_show = |t: &TagPath| !tags_with_broken_dependencies.is_some_and(|b| !b.contains(&t));
+    let mut root_tags: Vec<&TagPath> = all_tags.iter().filter(|&t| {
+        if !can_show(t) {
             return false;
         }
         for r in &result {
@@ -160,7 +161,33 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
             }
         }
         true
-    });
+    }).collect();
+
+    // Tags in a loop all have a dependent. If nothing else leads to a loop, start with one of its tags.
+    fn reachable_from<'a>(tags: Vec<&'a TagPath>, result: &'a HashMap<TagPath, Vec<TagPath>>) -> HashSet<&'a TagPath> {
+        let mut reached = HashSet::new();
+        let mut pending = tags;
+        while let Some(t) = pending.pop() {
+            if reached.insert(t) {
+                pending.extend(result.get(t).into_iter().flatten());
+            }
+        }
+        reached
+    }
+    let mut reached = reachable_from(root_tags.clone(), &result);
+    let mut loop_tags: Vec<&TagPath> = Vec::new();
+    let mut remaining: Vec<&TagPath> = all_tags.iter().filter(|&t| can_show(t)).collect();
+    remaining.sort();
+    for t in remaining {
+        if reached.contains(t) {
+            continue
+        }
+        let reached_now = reachable_from(vec![t], &result);
+        loop_tags.retain(|l| !reached_now.contains(l));
+        loop_tags.push(t);
+        reached.extend(reached_now);
+    }
+    root_tags.extend(loop_tags);
 
     let mut stack = Vec::new();
     for i in root_tags {
-- 
2.43.0


From db9e33be4972a86deeea7f4bbd7f7b042c51f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 35/46] fix: do not leave a partial archive behind when writing
 it fails

---
 src/invader/src/verb/archive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/invader/src/verb/archive.rs b/src/invader/src/verb/archive.rs
index 274553d..f2935cb 100644
--- a/src/invader/src/verb/archive.rs
+++ b/src/invader/src/verb/archive.rs
@@ -4,7 +4,7 @@ use std::sync::Arc;
 use crate::cli::{CommandLineParser, CommandLineValue, CommandLineValueType, Parameter};
 use ringhopper::primitives::primitive::{TagGroup, TagPath};
 use ringhopper::tag::archive::*;
-use ringhopper::tag::tree::{CachingTagTree, CachingTagTreeWriteStrategy};
+use ringhopper::tag::tree::{CachingTagTree, CachingTagTreeWriteStrategy, VirtualTagsDirectory};
 use crate::util::make_stdout_logger;
 
 fn archive_command(args: Args, description: &'static str, full_scenario: bool) -> Result<(), String> {
@@ -51,7 +51,7 @@ fn archive_command(args: Args, description: &'static str, full_scenario: bool) -
         archive_tag_to_7zip(&path, &cache, level)
     }.map_err(|e| format!("{e}"))?;
 
-    std::fs::write(&zip_path, tag).map_err(|e| format!("{e}"))?;
+    VirtualTagsDirectory::replace_file(&zip_path, &tag).map_err(|e| format!("{e}"))?;
 
     logger.success_fmt_ln(format_args!("Wrote {zip_path:?}"));
 
-- 
2.43.0


From 1102d58243ded99b3777f613ab5e19ebc0eb86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 36/46] fix: round to six digits correctly when extracting or
 nudging (100.0 became 0, a carry went to the wrong digit)

---
 src/ringhopper/src/tag/nudge.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 7c8b79a..bba8349 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -192,18 +192,21 @@ pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
     }
 
     // Do rounding here
+    let mut carry = round_up;
     if round_up {
-        for (byte, _) in ignore_dot_iter!(written[..sig_figs_end]).rev() {
+        for byte in written[..sig_figs_end].iter_mut().rev().filter(|b| **b != b'.') {
             if *byte == b'9' {
                 *byte = b'0';
             } else {
                 *byte += 1;
+                carry = false;
                 break;
             }
         }
     }
 
-    let fstr = std::str::from_utf8(&written).expect("should be utf-8");
+    let written = std::str::from_utf8(&written).expect("should be utf-8");
+    let fstr = if carry { format!("1{written}") } else { written.to_owned() };
     let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
     f * signum
 }
-- 
2.43.0


From 7efb77279bbd48497b3d7fcc16d9e51281b085b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 37/46] fix: do not panic or recurse forever if a map's detail
 object palette refers to a tag of another group

---
 src/ringhopper/src/map/extract.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index 4b1e7af..cc04e2c 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -243,6 +243,10 @@ pub fn fix_scenario_structure_bsp_tag<M: Map>(bsp: &mut ScenarioStructureBSP, sc
             continue // tool.exe will just not apply an offset
         };
 
+        if tag.tag_path.group() != TagGroup::DetailObjectCollection {
+            return Err(Error::InvalidTagData(format!("Detail object collection palette entry #{i} refers to {}", tag.tag_path)))
+        }
+
         let offset = map.extract_tag(&tag.tag_path)?
             .as_any()
             .downcast_ref::<DetailObjectCollection>()
-- 
2.43.0


From 32a95cddf9fccb585bbda295f4e4ff30884017f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 38/46] fix: refuse compressed maps whose data is cut off or
 damaged, or whose header gives a wrong size (their tail was taken as zeros;
 or panic)

---
 src/ringhopper/src/map.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..ab9a24d 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use std::path::Path;
 use std::sync::Arc;
 
-use flate2::FlushDecompress;
+use flate2::read::ZlibDecoder;
 
 use definitions::{read_any_tag_from_map, Scenario, ScenarioType};
 use primitives::engine::{Engine, EngineCacheParser, EngineCompressionType};
@@ -193,18 +193,34 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
-    let mut result = Vec::with_capacity(header.decompressed_size);
+    let decompressed_len = header.decompressed_size
+        .checked_sub(compressed_start)
+        .ok_or_else(|| Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than the header".to_owned()))?;
+
+    let mut result = Vec::new();
     result.extend_from_slice(&data[..compressed_start]);
-    result.resize(header.decompressed_size, 0);
 
     let compressed_data = &data[compressed_start..compressed_end];
     match engine.compression_type {
         EngineCompressionType::Uncompressed => unreachable!(),
         EngineCompressionType::Deflate => {
-            let mut decompressor = flate2::Decompress::new(true);
-            decompressor
-                .decompress(compressed_data, &mut result[compressed_start..], FlushDecompress::Finish)
+            let mut decompressor = ZlibDecoder::new(compressed_data);
+
+            // Anything that is missing at the end of the stream or that does not match its checksum is an error here.
+            let read = decompressor
+                .by_ref()
+                .take(decompressed_len as u64)
+                .read_to_end(&mut result)
                 .map_err(|e| Error::MapParseFailure(format!("decompression failed: flate2 error: {e}")))?;
+
+            // Is this all of it?
+            if read == decompressed_len {
+                let more = decompressor.read(&mut [0u8]).map_err(|e| Error::MapParseFailure(format!("decompression failed: flate2 error: {e}")))?;
+                if more != 0 {
+                    return Err(Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than the decompressed data".to_owned()))
+                }
+            }
+
             Ok(result)
         }
     }
-- 
2.43.0


From 32ee1beff4d76ecb04f26db23be45d76cc4c2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 39/46] fix: do not overflow the stack when decompiling deeply
 nested scripts of a map

---
 src/ringhopper/src/tag/scenario.rs | 57 +++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 0058455..b83120b 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -182,6 +182,9 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
 const SCRIPT_SPLIT: usize = 512 * 1024;
 const RESERVED_CAPACITY: usize = SCRIPT_SPLIT + SCRIPT_SPLIT / 2;
 
+/// Decompiled scripts are indented, so their size grows with the square of the depth.
+const MAX_SCRIPT_DEPTH: usize = 1024;
+
 fn format_tokens(tokens: &[Cow<str>]) -> Vec<String> {
     let mut files = Vec::new();
     let mut result;
@@ -313,29 +316,34 @@ fn decompile_script_block_to_tokens<'a>(
     tokens: &mut Vec<Cow<'a, str>>,
     remove_redundant_begin: bool
 ) -> RinghopperResult<()> {
-    let mut next_node = block.index();
-    while let Some(n) = next_node.map(|i| &nodes[i as usize]) {
-        next_node = n.next_node.index();
-        decompile_token(scenario, nodes, n, tokens, remove_redundant_begin)?;
-    }
-    Ok(())
-}
+    // Blocks we are in (next node, and if the block ends with a closing parenthesis); the innermost is last
+    let mut blocks = vec![(block.index(), false)];
+
+    while let Some((next_node, close_block)) = blocks.last_mut() {
+        let node = match *next_node {
+            Some(i) => &nodes[i as usize],
+            None => {
+                if *close_block {
+                    tokens.push(Cow::Borrowed(")"));
+                }
+                blocks.pop();
+                continue
+            }
+        };
+        *next_node = node.next_node.index();
+
+        if node.flags.is_primitive {
+            decompile_primitive_token(scenario, node, tokens)?;
+            continue
+        }
 
-fn decompile_token<'a>(
-    scenario: &'a Scenario,
-    nodes: &Vec<ScenarioScriptNode>,
-    node: &ScenarioScriptNode,
-    tokens: &mut Vec<Cow<'a, str>>,
-    remove_redundant_begin: bool
-) -> RinghopperResult<()> {
-    if !node.flags.is_primitive {
         let mut child_id = ID::from(node.data);
         let child_index = child_id
             .index()
             .ok_or_else(|| Error::InvalidTagData("empty function call without even a function name; scripts need recompiled".to_owned()))? as usize;
 
         let node_peek_node = &nodes[child_index];
-        let strip_begin = remove_redundant_begin && get_string_data_for_node(scenario, node_peek_node)? == "begin";
+        let strip_begin = remove_redundant_begin && blocks.len() == 1 && get_string_data_for_node(scenario, node_peek_node)? == "begin";
 
         if strip_begin {
             child_id = node_peek_node.next_node;
@@ -343,13 +351,17 @@ fn decompile_token<'a>(
         else {
             tokens.push(Cow::Borrowed("("));
         }
-        decompile_script_block_to_tokens(scenario, nodes, child_id, tokens, false)?;
-        if !strip_begin {
-            tokens.push(Cow::Borrowed(")"));
-        }
-        return Ok(())
+        blocks.push((child_id.index(), !strip_begin));
     }
 
+    Ok(())
+}
+
+fn decompile_primitive_token<'a>(
+    scenario: &'a Scenario,
+    node: &ScenarioScriptNode,
+    tokens: &mut Vec<Cow<'a, str>>
+) -> RinghopperResult<()> {
     if node.flags.is_global || node.flags.is_local_variable {
         tokens.push(sanitize(get_string_data_for_node(scenario, node)?));
         return Ok(())
@@ -451,6 +463,9 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
         if depth > iteration_limit {
             return Err(Error::InvalidTagData(format!("Depth exceeds actual node count ({node_count}); infinite recursion detected!")))
         }
+        if depth > MAX_SCRIPT_DEPTH {
+            return Err(Error::InvalidTagData(format!("Function calls are nested more than {MAX_SCRIPT_DEPTH} deep!")))
+        }
 
         let index = match index {
             Some(n) => n as usize,
-- 
2.43.0


From 2f0258a87d4b357c51084c7e50f750e3f2a74e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 40/46] fix: refuse scripts of a map whose nodes are shared
 (decompiling them could take forever)

---
 src/ringhopper/src/tag/scenario.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index b83120b..ad10f45 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -416,14 +416,15 @@ fn check_scripts_are_ok(scenario: &Scenario, extracted_nodes: &Vec<ScenarioScrip
     check_for_duplicate_scripts(scenario)?;
 
     let mut todo = Vec::with_capacity(64);
+    let mut total_nodes = 0usize;
 
     for i in &scenario.scripts {
-        check_bad_scripts(i.root_expression_index, extracted_nodes, &mut todo)
+        check_bad_scripts(i.root_expression_index, extracted_nodes, &mut todo, &mut total_nodes)
             .map_err(|e| Error::InvalidTagData(format!("Script {} has errors: {e}", i.name)))?;
     }
 
     for i in &scenario.globals {
-        check_bad_scripts(i.initialization_expression_index, extracted_nodes, &mut todo)
+        check_bad_scripts(i.initialization_expression_index, extracted_nodes, &mut todo, &mut total_nodes)
             .map_err(|e| Error::InvalidTagData(format!("Global {} has errors: {e}", i.name)))?;
     }
 
@@ -452,7 +453,7 @@ fn get_string_data_for_node<'a>(scenario: &'a Scenario, node: &ScenarioScriptNod
     }
 }
 
-fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>) -> RinghopperResult<()> {
+fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>, total_nodes: &mut usize) -> RinghopperResult<()> {
     todo.clear();
 
     let node_count = extracted_nodes.len();
@@ -484,6 +485,12 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
                 return Err(Error::InvalidTagData(format!("Block length exceeds actual node count ({node_count}); infinite loop detected!")));
             }
 
+            // Blocks that are shared can take exponentially many steps to go through
+            *total_nodes += 1;
+            if *total_nodes > iteration_limit {
+                return Err(Error::InvalidTagData(format!("Node usage exceeds actual node count ({node_count}); nodes are used more than once!")));
+            }
+
             if !node.flags.is_primitive {
                 let id: ID = node.data.into();
                 todo.push((id.index(), depth + 1));
-- 
2.43.0


From af1effda8e6c245879020a3d8be3c1c3a872dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 41/46] fix: quote names of scripts and globals when
 decompiling, as their uses are (a parenthesis made it panic, a space gave
 another script)

---
 src/ringhopper/src/tag/scenario.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index ad10f45..44a3b3d 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -94,7 +94,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
         tokens.push(Cow::Borrowed("("));
         tokens.push(Cow::Borrowed("global"));
         tokens.push(Cow::Borrowed(i._type.to_str()));
-        tokens.push(Cow::Borrowed(i.name.as_str()));
+        tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         decompile_script_block_to_tokens(scenario, &all_nodes, i.initialization_expression_index, &mut tokens, false)?;
         tokens.push(Cow::Borrowed(")"));
     }
@@ -111,7 +111,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
 
         if !i.parameters.items.is_empty() {
             tokens.push(Cow::Borrowed("("));
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
             for p in &i.parameters {
                 tokens.push(Cow::Borrowed("("));
                 tokens.push(Cow::Borrowed(p.return_type.to_str()));
@@ -121,7 +121,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
             tokens.push(Cow::Borrowed(")"));
         }
         else {
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         }
 
         decompile_script_block_to_tokens(scenario, &all_nodes, i.root_expression_index, &mut tokens, true)?;
-- 
2.43.0


From fda016fe26f8e2b656bb096f4d3c175c5464ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 42/46] fix: extract external tags of a map by their index
 (another tag of loc.map with the same path was extracted instead)

---
 src/ringhopper-primitives/src/map.rs |  4 ++--
 src/ringhopper/src/map/gearbox.rs    | 19 ++++++++++---------
 src/ringhopper/src/map/resource.rs   | 17 +++++++++--------
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 761deec..402813f 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -28,8 +28,8 @@ pub enum DomainType {
     /// Resource map file (0x0 = start of resource map).
     ResourceMapFile(ResourceMapType),
 
-    /// Resource map type and path (0x0 = start of resource map entry).
-    ResourceMapEntry(ResourceMapType, String),
+    /// Resource map type and index (0x0 = start of resource map entry).
+    ResourceMapEntry(ResourceMapType, usize),
 
     /// Vertex data (0x0 = start of vertices)
     ModelVertexData,
diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 039bf2a..a6934bd 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -232,7 +232,7 @@ impl GearboxCacheFile {
                         if let Some(n) = self.bitmaps.as_ref() {
                             match_indexed_tag(n, ResourceMapType::Bitmaps)?;
                         }
-                        tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Bitmaps, tag_path.path().to_owned());
+                        tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Bitmaps, tag.address);
                         tag.address = 0;
                     }
                     TagGroup::Sound => self.patch_up_external_custom_edition_sound_tag(tag)?,
@@ -240,7 +240,7 @@ impl GearboxCacheFile {
                         if let Some(n) = self.loc.as_ref() {
                             match_indexed_tag(n, ResourceMapType::Loc)?;
                         }
-                        tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Loc, tag_path.path().to_owned());
+                        tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Loc, tag.address);
                         tag.address = 0;
                     }
                 }
@@ -252,7 +252,8 @@ impl GearboxCacheFile {
 
     fn patch_up_external_custom_edition_sound_tag(&mut self, tag: &mut Tag) -> RinghopperResult<()> {
         if let Some(n) = self.sounds.as_ref() {
-            let object = n.get_by_path(tag.tag_path.path())
+            let (index, object) = n.get_index_by_path(tag.tag_path.path())
+                .and_then(|i| Some((i, n.get(i)?)))
                 .ok_or_else(|| Error::MapParseFailure(format!("mismatched resource maps; `{tag_path}` not found in {resource_map_type:?}", tag_path=tag.tag_path, resource_map_type = ResourceMapType::Sounds)))?;
 
             let base_struct_size = Sound::size();
@@ -271,7 +272,7 @@ impl GearboxCacheFile {
             // We now add our base struct here
             tag.address = data.len();
             data.extend_from_slice(base_struct_in_tags);
-            tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Sounds, tag.tag_path.path().to_owned());
+            tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Sounds, index);
 
             // Merge some data
             let mut merged_base_struct = &mut data[tag.address..tag.address.add_overflow_checked(base_struct_size)?];
@@ -292,7 +293,7 @@ impl GearboxCacheFile {
         }
         else {
             // Same as with other external tags: without the resource map, there is nothing to read.
-            tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Sounds, tag.tag_path.path().to_owned());
+            tag.domain = DomainType::ResourceMapEntry(ResourceMapType::Sounds, 0);
             tag.address = 0;
         }
         Ok(())
@@ -363,10 +364,10 @@ impl Map for GearboxCacheFile {
             DomainType::ResourceMapFile(ResourceMapType::Sounds) => self.sounds.as_ref().map(|b| (b.data(), 0)),
             DomainType::ResourceMapFile(ResourceMapType::Loc) => self.loc.as_ref().map(|b| (b.data(), 0)),
 
-            DomainType::ResourceMapEntry(r, path) => match r {
-                ResourceMapType::Bitmaps => Some((self.bitmaps.as_ref()?.get_by_path(path)?.get_data(), 0)),
-                ResourceMapType::Sounds => Some((self.sounds.as_ref()?.get_by_path(path)?.get_data(), 0)),
-                ResourceMapType::Loc => Some((self.loc.as_ref()?.get_by_path(path)?.get_data(), 0))
+            DomainType::ResourceMapEntry(r, index) => match r {
+                ResourceMapType::Bitmaps => Some((self.bitmaps.as_ref()?.get(*index)?.get_data(), 0)),
+                ResourceMapType::Sounds => Some((self.sounds.as_ref()?.get(*index)?.get_data(), 0)),
+                ResourceMapType::Loc => Some((self.loc.as_ref()?.get(*index)?.get_data(), 0))
             }
 
             DomainType::BSPVertices(b) => {
diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index f3f7fff..af7ee58 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -118,14 +118,15 @@ impl ResourceMap {
     ///
     /// If `path` does not match anything, `None` is returned.
     pub fn get_by_path(&self, path: &str) -> Option<Resource> {
-        for resource in &self.resources {
-            // Fine because we already checked this in from_data()
-            let resource = unsafe { Resource::from_resource_item(resource, self) };
-            if resource.path == path {
-                return Some(resource)
-            }
-        }
-        None
+        self.get(self.get_index_by_path(path)?)
+    }
+
+    /// Get the index of a resource by its path.
+    ///
+    /// If `path` does not match anything, `None` is returned.
+    pub fn get_index_by_path(&self, path: &str) -> Option<usize> {
+        // Fine because we already checked this in from_data()
+        self.resources.iter().position(|resource| unsafe { Resource::from_resource_item(resource, self) }.path == path)
     }
 }
 
-- 
2.43.0


From 17fb0a7cb9b5453cf582f2845523c4fde771bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 43/46] fix: keep blank lines at the end of strings when
 recovering string lists

---
 src/ringhopper/src/tag/unicode_string_list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 7c1eb49..c582641 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -191,7 +191,9 @@ impl UnicodeStringListFunctions for UnicodeStringList {
         data.extend_from_slice(0xFEFFu16.to_le_bytes().as_slice());
         for i in 0..self.string_count() {
             let string = self.strings.items[i].string.get_string().map_err(|_| UnicodeStringListError::InvalidStringData)?;
-            for line in string.lines() {
+            // lines() leaves out the empty line after a trailing line ending
+            let last_line = string.ends_with(LF).then_some("");
+            for line in string.lines().chain(last_line) {
                 let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
                 data.extend(line_encoder);
             }
-- 
2.43.0


From b37c48aed25efee353681d9cad46923dff2fca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 44/46] fix: data of a BSP may also lie in tag data below it
 (such BSP tags could not be extracted)

---
 src/ringhopper-primitives/src/map.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 402813f..59cff3a 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -160,10 +160,9 @@ pub trait Map {
         size: usize
     ) -> Option<&[u8]> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let end = offset.checked_add(size)?;
-
-        let data = domain_start.get(offset..end);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..offset.checked_add(size)?));
         if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             self.get_data_at_address(address, &DomainType::TagData, size)
@@ -188,8 +187,9 @@ pub trait Map {
         domain: &DomainType
     ) -> Option<&str> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let data = domain_start.get(offset..);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..));
         let data = if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             return self.get_c_string_at_address(address, &DomainType::TagData)
-- 
2.43.0


From ead1c417b293ed55be8572b1042d4dfa6752aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 45/46] fix: report a tags folder that is none instead of
 panicking (a file given as the folder, or a folder that disappears)

---
 src/invader/src/cli.rs                      | 6 +++---
 src/invader/src/verb/archive.rs             | 2 +-
 src/invader/src/verb/bludgeon.rs            | 4 ++--
 src/invader/src/verb/convert.rs             | 2 +-
 src/invader/src/verb/dependency_list.rs     | 4 ++--
 src/invader/src/verb/dependency_tree.rs     | 2 +-
 src/invader/src/verb/extract.rs             | 2 +-
 src/invader/src/verb/nudge.rs               | 2 +-
 src/invader/src/verb/plate.rs               | 2 +-
 src/invader/src/verb/recompress_vertices.rs | 2 +-
 src/invader/src/verb/recover.rs             | 2 +-
 src/invader/src/verb/refactor_groups.rs     | 2 +-
 src/invader/src/verb/refactor_paths.rs      | 2 +-
 src/invader/src/verb/strip.rs               | 2 +-
 src/invader/src/verb/tag_collection.rs      | 2 +-
 src/invader/src/verb/undefault.rs           | 2 +-
 src/invader/src/verb/unicode_strings.rs     | 2 +-
 src/invader/src/verb/verify_scenario.rs     | 2 +-
 18 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/invader/src/cli.rs b/src/invader/src/cli.rs
index 311b2c1..511f135 100644
--- a/src/invader/src/cli.rs
+++ b/src/invader/src/cli.rs
@@ -520,7 +520,7 @@ impl CommandLineArgs {
     }
 
     /// Create a `VirtualTagsDirectory` instance.
-    pub fn get_virtual_tags_directory(&self) -> VirtualTagsDirectory {
+    pub fn get_virtual_tags_directory(&self) -> Result<VirtualTagsDirectory, String> {
         let cow = self.standard_parameters
             .get(&StandardParameterType::CowTags)
             .and_then(|v|
@@ -531,9 +531,9 @@ impl CommandLineArgs {
                     .map(|v| v.path().to_path_buf())
             );
 
-        let mut dir = VirtualTagsDirectory::new(self.get_tags().as_slice(), cow).unwrap();
+        let mut dir = VirtualTagsDirectory::new(self.get_tags().as_slice(), cow).map_err(|e| e.to_string())?;
         dir.set_strictness(self.strictness);
-        dir
+        Ok(dir)
     }
 
     /// Get the Engine parameter.
diff --git a/src/invader/src/verb/archive.rs b/src/invader/src/verb/archive.rs
index f2935cb..f8d935b 100644
--- a/src/invader/src/verb/archive.rs
+++ b/src/invader/src/verb/archive.rs
@@ -33,7 +33,7 @@ fn archive_command(args: Args, description: &'static str, full_scenario: bool) -
         TagPath::from_path(&parser.get_extra()[0])
     }.map_err(|e| format!("{e}"))?;
 
-    let cache = Arc::new(CachingTagTree::new(parser.get_virtual_tags_directory(), CachingTagTreeWriteStrategy::Manual));
+    let cache = Arc::new(CachingTagTree::new(parser.get_virtual_tags_directory()?, CachingTagTreeWriteStrategy::Manual));
     let overwrite = parser.get_overwrite();
     let level = LZMACompressionLevel::new(parser.get_custom("level").unwrap()[0].uinteger())
         .map_err(|e| format!("{e}"))?;
diff --git a/src/invader/src/verb/bludgeon.rs b/src/invader/src/verb/bludgeon.rs
index ac90286..5ad2716 100644
--- a/src/invader/src/verb/bludgeon.rs
+++ b/src/invader/src/verb/bludgeon.rs
@@ -14,10 +14,10 @@ pub fn bludgeon(args: Args, description: &'static str) -> Result<(), String> {
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    let mut directory = parser.get_virtual_tags_directory();
+    let mut directory = parser.get_virtual_tags_directory()?;
     directory.set_strictness(ParseStrictness::Relaxed);
 
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let mut tag = context.tags_directory.open_tag_copy(&path)?;
 
         match bludgeon::bludgeon_tag(tag.as_mut(), path) {
diff --git a/src/invader/src/verb/convert.rs b/src/invader/src/verb/convert.rs
index c4f21fe..aeefdb5 100644
--- a/src/invader/src/verb/convert.rs
+++ b/src/invader/src/verb/convert.rs
@@ -20,7 +20,7 @@ pub fn convert(args: Args, description: &'static str) -> Result<(), String> {
     let tag = parser.get_extra()[0].clone();
     let group = TagGroup::from_str(&parser.get_extra()[1]).map_err(|_| format!("{} does not correspond to a tag group", parser.get_extra()[1]))?;
 
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, group, DisplayMode::ShowAll, make_stdout_logger(), |context, path, to_group, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, group, DisplayMode::ShowAll, make_stdout_logger(), |context, path, to_group, _| {
         let to_group = *to_group;
         let from_group = path.group();
 
diff --git a/src/invader/src/verb/dependency_list.rs b/src/invader/src/verb/dependency_list.rs
index 10720cd..c6e1c8a 100644
--- a/src/invader/src/verb/dependency_list.rs
+++ b/src/invader/src/verb/dependency_list.rs
@@ -27,7 +27,7 @@ pub fn dependency_list(args: Args, description: &'static str) -> Result<(), Stri
         .set_required_extra_parameters(1)
         .parse(args)?;
 
-    let tags = parser.get_virtual_tags_directory();
+    let tags = parser.get_virtual_tags_directory()?;
     let tag_path = str_unwrap!(TagPath::from_path(&parser.get_extra()[0]), "Invalid tag path: {error}");
     let recursive = parser.get_custom("recursive").is_some();
     let reverse = parser.get_custom("reverse").is_some();
@@ -71,7 +71,7 @@ pub fn list_scenario_tags(args: Args, description: &'static str) -> Result<(), S
         .set_required_extra_parameters(1)
         .parse(args)?;
 
-    let tags = parser.get_virtual_tags_directory();
+    let tags = parser.get_virtual_tags_directory()?;
     let tag_path = str_unwrap!(TagPath::new(&parser.get_extra()[0], TagGroup::Scenario), "Invalid tag path: {error}");
     let dependencies = str_unwrap!(recursively_get_dependencies_for_map(&tag_path, &tags, parser.get_engine()), "Failed to get reverse dependencies: {error}");
 
diff --git a/src/invader/src/verb/dependency_tree.rs b/src/invader/src/verb/dependency_tree.rs
index 32660f6..e0fd887 100644
--- a/src/invader/src/verb/dependency_tree.rs
+++ b/src/invader/src/verb/dependency_tree.rs
@@ -15,7 +15,7 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
         .set_required_extra_parameters(1)
         .parse(args)?;
 
-    let tags = CachingTagTree::new(parser.get_virtual_tags_directory(), CachingTagTreeWriteStrategy::Manual);
+    let tags = CachingTagTree::new(parser.get_virtual_tags_directory()?, CachingTagTreeWriteStrategy::Manual);
     let input_tag_path = &parser.get_extra()[0];
     let all_tags = tags.get_all_tags_with_filter(Some(&TagFilter::new(input_tag_path, None)));
     let mut result: HashMap<TagPath, HashSet<TagPath>> = HashMap::new();
diff --git a/src/invader/src/verb/extract.rs b/src/invader/src/verb/extract.rs
index ec7c196..95f57e2 100644
--- a/src/invader/src/verb/extract.rs
+++ b/src/invader/src/verb/extract.rs
@@ -54,7 +54,7 @@ pub fn extract(args: Args, description: &'static str) -> Result<(), String> {
     }
 
     let allow_globals = parser.get_custom("non-mp-globals").is_some() || map.get_scenario_type() == ScenarioType::Multiplayer;
-    let output_tags_dir = Arc::new(parser.get_virtual_tags_directory());
+    let output_tags_dir = Arc::new(parser.get_virtual_tags_directory()?);
 
     let user_data = UserData {
         allow_globals, output_tags_dir
diff --git a/src/invader/src/verb/nudge.rs b/src/invader/src/verb/nudge.rs
index 94a67b0..7ddd3e5 100644
--- a/src/invader/src/verb/nudge.rs
+++ b/src/invader/src/verb/nudge.rs
@@ -15,7 +15,7 @@ pub fn nudge(args: Args, description: &'static str) -> Result<(), String> {
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         if !is_nudgeable(path.group()) {
             return Ok(ProcessSuccessType::Ignored)
         }
diff --git a/src/invader/src/verb/plate.rs b/src/invader/src/verb/plate.rs
index 021b5d6..f55b959 100644
--- a/src/invader/src/verb/plate.rs
+++ b/src/invader/src/verb/plate.rs
@@ -18,7 +18,7 @@ pub fn plate(args: Args, description: &'static str) -> Result<(), String> {
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, Some(TagGroup::Bitmap), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, Some(TagGroup::Bitmap), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let data_dir = context
             .args
             .get_data()
diff --git a/src/invader/src/verb/recompress_vertices.rs b/src/invader/src/verb/recompress_vertices.rs
index 8a5e05f..173e07e 100644
--- a/src/invader/src/verb/recompress_vertices.rs
+++ b/src/invader/src/verb/recompress_vertices.rs
@@ -19,7 +19,7 @@ pub fn recompress_vertices(args: Args, description: &'static str) -> Result<(),
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         match path.group() {
             TagGroup::Model => handle_model_tag(path, &mut context.tags_directory),
             TagGroup::GBXModel => handle_model_tag(path, &mut context.tags_directory),
diff --git a/src/invader/src/verb/recover.rs b/src/invader/src/verb/recover.rs
index 9ec69d4..ffeec47 100644
--- a/src/invader/src/verb/recover.rs
+++ b/src/invader/src/verb/recover.rs
@@ -50,7 +50,7 @@ pub fn recover(args: Args, description: &'static str) -> Result<(), String> {
     let atomic = Arc::new(user_data);
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, atomic.clone(), DisplayMode::Silent, logger.clone(), |context, path, user_data, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, atomic.clone(), DisplayMode::Silent, logger.clone(), |context, path, user_data, _| {
         let result = recover_tag(user_data, path, context);
 
         match &result {
diff --git a/src/invader/src/verb/refactor_groups.rs b/src/invader/src/verb/refactor_groups.rs
index 99aa9e9..a7a5190 100644
--- a/src/invader/src/verb/refactor_groups.rs
+++ b/src/invader/src/verb/refactor_groups.rs
@@ -45,7 +45,7 @@ pub fn refactor_groups(args: Args, description: &'static str) -> Result<(), Stri
     };
 
     let tag = parser.get_custom("filter").unwrap()[0].string().to_owned();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, user_data, DisplayMode::ShowAll, make_stdout_logger(), |context, path, user_data, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, user_data, DisplayMode::ShowAll, make_stdout_logger(), |context, path, user_data, _| {
         let all_referenceable = get_all_referenceable_tag_groups_for_group(path.group());
 
         // Can it reference from OR to?
diff --git a/src/invader/src/verb/refactor_paths.rs b/src/invader/src/verb/refactor_paths.rs
index dff4983..cc2b8f1 100644
--- a/src/invader/src/verb/refactor_paths.rs
+++ b/src/invader/src/verb/refactor_paths.rs
@@ -60,7 +60,7 @@ pub fn refactor_paths(args: Args, description: &'static str) -> Result<(), Strin
     match refactor_paths_for_tag_tree(
         parser.get_extra()[0].as_str(),
         parser.get_extra()[1].as_str(),
-        &parser.get_virtual_tags_directory(),
+        &parser.get_virtual_tags_directory()?,
         NonZeroUsize::new(parser.get_jobs()).unwrap(),
         match parser.get_custom("replace-type").unwrap()[0].string() {
             "start" => ReplaceType::Start,
diff --git a/src/invader/src/verb/strip.rs b/src/invader/src/verb/strip.rs
index db84939..c5f0fdc 100644
--- a/src/invader/src/verb/strip.rs
+++ b/src/invader/src/verb/strip.rs
@@ -14,7 +14,7 @@ pub fn strip(args: Args, description: &'static str) -> Result<(), String> {
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let tag = context.tags_directory.open_tag_copy(&path)?;
         ProcessSuccessType::wrap_write_result(context.tags_directory.write_tag(path, tag.as_ref()))
     })
diff --git a/src/invader/src/verb/tag_collection.rs b/src/invader/src/verb/tag_collection.rs
index e3a5f27..38d5148 100644
--- a/src/invader/src/verb/tag_collection.rs
+++ b/src/invader/src/verb/tag_collection.rs
@@ -22,7 +22,7 @@ macro_rules! make_tag_collection_fn {
                 .parse(args)?;
 
             let tag = parser.get_extra()[0].clone();
-            do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, Some(TagGroup::$tag_struct), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+            do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, Some(TagGroup::$tag_struct), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
                 let mut full_data_path = context.args.get_data().join(path.to_native_path());
                 full_data_path.set_extension("txt");
                 let text_file = read_file(full_data_path)?;
diff --git a/src/invader/src/verb/undefault.rs b/src/invader/src/verb/undefault.rs
index af9f7af..31c60a6 100644
--- a/src/invader/src/verb/undefault.rs
+++ b/src/invader/src/verb/undefault.rs
@@ -17,7 +17,7 @@ pub fn undefault(args: Args, description: &'static str) -> Result<(), String> {
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         if !group_has_defaults(path.group()) {
             return Ok(ProcessSuccessType::Ignored)
         }
diff --git a/src/invader/src/verb/unicode_strings.rs b/src/invader/src/verb/unicode_strings.rs
index 36e5e43..b4ade18 100644
--- a/src/invader/src/verb/unicode_strings.rs
+++ b/src/invader/src/verb/unicode_strings.rs
@@ -19,7 +19,7 @@ pub fn unicode_strings(args: Args, description: &'static str) -> Result<(), Stri
         .parse(args)?;
 
     let tag = parser.get_extra()[0].clone();
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, Some(TagGroup::UnicodeStringList), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(parser.get_virtual_tags_directory()?, parser, &tag, Some(TagGroup::UnicodeStringList), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let mut full_data_path = context.args.get_data().join(path.to_native_path());
         full_data_path.set_extension("txt");
         let text_file = read_file(full_data_path)?;
diff --git a/src/invader/src/verb/verify_scenario.rs b/src/invader/src/verb/verify_scenario.rs
index a3fedcd..ca22eab 100644
--- a/src/invader/src/verb/verify_scenario.rs
+++ b/src/invader/src/verb/verify_scenario.rs
@@ -32,7 +32,7 @@ pub fn verify_scenario(args: Args, description: &'static str) -> Result<(), Stri
     };
 
     let logger = data.logger.clone();
-    let tree = Arc::new(CachingTagTree::new(parser.get_virtual_tags_directory(), CachingTagTreeWriteStrategy::Manual));
+    let tree = Arc::new(CachingTagTree::new(parser.get_virtual_tags_directory()?, CachingTagTreeWriteStrategy::Manual));
 
     do_with_threads(tree, parser, &tag, Some(TagGroup::Scenario), data, DisplayMode::Silent, logger, |context, scenario_path, user_data, _| {
         let threads = unsafe { NonZeroUsize::new_unchecked(2) }; // TODO: add subjobs later?
-- 
2.43.0


From 8f941938b646251ec64f2687c7ca61c6c3e96fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 46/46] fix: do not turn a slightly negative component into -1
 when compressing vectors

---
 src/ringhopper-primitives/src/primitive/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index ff741ee..73d4652 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -859,6 +859,10 @@ fn compress_float<const BITS: usize>(value: f64) -> u32 {
     let value = (positive * (max as f64)).round();
     let mut integer = value as u32;
     if is_negative {
+        // If this rounds to zero, then there is no sign to keep (it would be read back as -1).
+        if integer == max {
+            return 0
+        }
         integer = integer | 1 << (BITS - 1);
     }
 
-- 
2.43.0

