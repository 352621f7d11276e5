From daae8a70ee123b23fcb1ac7e1dde3c7f3ac222a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 1/6] fix: do not commit a partial storage scan after a read
 error or cancellation

---
 crates/cfg-noodle/src/storage_list.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..355ed30 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -631,6 +631,12 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         // We have NOT hydrated, do so now.
         //
         // Start by getting an iterator, and setting up some tracking state
+        //
+        // NOTE: we collect into a local `SeqState`, and only commit it once the scan has
+        // run to completion. If we were to populate `self.seq_state` on the fly, a read
+        // error (or cancellation) part way through would leave a PARTIAL scan behind that
+        // looks like a complete one: newer records would be ignored, and later collected.
+        let mut seq_state = SeqState::new();
         let mut iter = s.iter_elems().await.map_err(LoadStoreError::FlashRead)?;
         let mut current: Option<(NonZeroU32, usize)> = None;
         let mut crc = Crc32::new();
@@ -696,7 +702,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    seq_state.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,11 +710,14 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = seq_state.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            seq_state.next_seq = NonZeroU32::new(1);
         }
 
+        // The scan is complete: commit what we found
+        self.seq_state = seq_state;
+
         Ok(highest)
     }
 
-- 
2.43.0


From 5c340d212552d8d725c93d660ad208d1d30bc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 2/6] fix: require garbage collection after a failed or
 cancelled write

---
 crates/cfg-noodle/src/storage_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 355ed30..1106a94 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -375,6 +375,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         debug!("Attempt write_to_flash");
 
+        // From here on, storage may contain (part of) a record with `next_seq`. If we fail or
+        // are cancelled before it has been verified, those remains must be collected before
+        // `next_seq` is used again, otherwise the next write could be confused with them.
+        inner.seq_state.needs_gc = true;
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
-- 
2.43.0


From 3a611c9bcb2b4865e9c2b14b65883ee1bdd3e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 3/6] fix: collect leftovers of an interrupted first write
 before writing again

---
 crates/cfg-noodle/src/storage_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 1106a94..ce03461 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -718,6 +718,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let highest = seq_state.highest_seen();
         if highest.is_none() {
             seq_state.next_seq = NonZeroU32::new(1);
+            // If there is anything in storage, it is not part of a valid record: collect it
+            // before we write, as it may be the remains of an interrupted first write.
+            seq_state.needs_gc = ctr > 0;
         }
 
         // The scan is complete: commit what we found
-- 
2.43.0


From 6e6c405c97d774d718ff55c16a723ac0d3adc89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 4/6] fix: verified record range must not extend past its End
 element

---
 crates/cfg-noodle/src/storage_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index ce03461..87ffbe6 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -1309,7 +1309,7 @@ async fn verify_list_in_flash<S: NdlDataStorage>(
                     seq_chk, crc_chk1, crc_chk2, ctr_chk, good
                 );
                 if good {
-                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr));
+                    return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr - 1));
                 } else {
                     return Err(LoadStoreError::WriteVerificationFailed);
                 }
-- 
2.43.0


From 0acd4e44515020747bf48ec4b729d69c50fe4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 5/6] fix: report an oversize value as a Serialization error
 instead of panicking in debug builds

---
 crates/cfg-noodle/src/storage_node.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..7453fb2 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -879,12 +879,13 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
-
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From 2b0f407a579e097ebbae431ec35d0bd55b67ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 6/6] fix: flush unsaved values on stop also when a read or
 garbage collection was interrupted

---
 crates/cfg-noodle/src/worker_task.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..a9ce2a5 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -10,7 +10,7 @@ use crate::{
     NdlDataStorage, StorageList,
     error::{Error, LoadStoreError},
     flash::empty::AlwaysEmptyFlash,
-    logging::{debug, error, info, warn},
+    logging::{debug, error, info},
 };
 
 /// A default worker task that manages storage operations based on read/write signals.
@@ -178,7 +178,14 @@ pub async fn default_worker_task<
     info!("stopper future completed, stopping worker task");
     match list.process_writes(&mut flash, buf).await {
         Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect | Error::NeedsFirstRead)) => {
+            // The stopper may have interrupted a read or a garbage collection, or one may have
+            // failed, which requires a new scan. Nodes that still wait for their first read
+            // would also block the write, and with it the unsaved values of all other nodes.
+            match list.process_reads(&mut flash, buf).await {
+                Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                Err(e) => error!("Error in process_reads: {:?}", e),
+            }
             match list.process_garbage(&mut flash, buf).await {
                 Ok(rpt) => info!("process_garbage success: {:?}", rpt),
                 Err(e) => error!("Error in process_garbage: {:?}", e),
@@ -188,9 +195,6 @@ pub async fn default_worker_task<
                 Err(e) => error!("Error in process_writes: {:?}", e),
             }
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
         Err(e) => error!("Error in process_writes: {:?}", e),
     }
 
-- 
2.43.0

