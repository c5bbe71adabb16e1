From f6725765f028e79ba5988777040c5239a7d01ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 01/38] fix: resolve every key to the first tablet clockwise on
 the hashing ring

---
 .../service/src/transaction/metadata.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 687df3e..f86047a 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -453,24 +453,27 @@ impl TableMetadata {
             if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
                 // Note that tablet ids must contain at least one entry. It may be the only entry on
                 // the whole consistent hashing ring.
-                let mut tablet_ids_it = fresh_tablet_ids.iter().cycle();
-                let mut curr_tablet_id = *tablet_ids_it.next().unwrap();
+                let mut curr_tablet_id = *fresh_tablet_ids.first().unwrap();
                 let mut curr_key_hashes = Vec::new();
                 // Merge two sorted lists of tablet ids and key hashes. Key hashes are handled by
                 // a tablet that is clockwise on the consistent hashing ring.
                 let mut resolve_result = Vec::new();
                 for key_hash in table_query.get_key_hashes() {
-                    if *key_hash > curr_tablet_id {
+                    // Wrap around to the smallest tablet id if there is no tablet ahead.
+                    let next_tablet_id = match fresh_tablet_ids.range(*key_hash..).next() {
+                        Some(tablet_id) => *tablet_id,
+                        None => *fresh_tablet_ids.first().unwrap(),
+                    };
+                    if next_tablet_id != curr_tablet_id {
                         if !curr_key_hashes.is_empty() {
                             resolve_result.push((
                                 table_query.create_from(mem::take(&mut curr_key_hashes)),
                                 self.tablets.get(&curr_tablet_id).unwrap().clone(),
                             ));
                         }
-                        curr_tablet_id = *tablet_ids_it.next().unwrap();
-                    } else {
-                        curr_key_hashes.push(*key_hash);
+                        curr_tablet_id = next_tablet_id;
                     }
+                    curr_key_hashes.push(*key_hash);
                 }
                 if !curr_key_hashes.is_empty() {
                     resolve_result.push((
-- 
2.43.0


From 6b3c1207a74818b6749d8a5f160dee2676502aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 02/38] fix: cover the end of the hashing ring with a table
 region

---
 apps/tablet_cache/service/src/transaction/metadata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index f86047a..82abaa5 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -354,7 +354,8 @@ struct TableMetadata {
 impl TableMetadata {
     // Prefills table regions and marks them all as stale.
     fn create(table_name: String, region_size: u32) -> Self {
-        let regions_count = u32::MAX / region_size;
+        // The last region may be shorter than the others.
+        let regions_count = u32::MAX / region_size + 1;
         let mut regions = HashMap::with_capacity(regions_count as usize);
         for region_idx in 0..regions_count {
             // Regions are identified by the starting position on the consistent hashing ring.
-- 
2.43.0


From 5d0248c9e8af345b23e16d4853cf919a29cf60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 03/38] fix: keep every pending query of a resolve request that
 falls into the same region

---
 .../service/src/transaction/metadata.rs       | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/metadata.rs b/apps/tablet_cache/service/src/transaction/metadata.rs
index 82abaa5..1629edc 100644
--- a/apps/tablet_cache/service/src/transaction/metadata.rs
+++ b/apps/tablet_cache/service/src/transaction/metadata.rs
@@ -554,8 +554,8 @@ enum TableResolveNotification {
 // Tracks pending request to resolve tablets.
 struct TabletResolve {
     notification: TableResolveNotification,
-    // Maps table name and region index to a pending table query.
-    pending_table_queries: HashMap<(String, u32), TableQuery>,
+    // Maps table name and region index to pending table queries.
+    pending_table_queries: HashMap<(String, u32), Vec<TableQuery>>,
     // Maps table name and tablet id to resolve result builder.
     results: HashMap<(String, u32), TabletResolveResult>,
 }
@@ -595,11 +595,14 @@ impl TabletResolve {
             } else {
                 // Otherwise register pending query and wait for the corresponding region
                 // state to become fresh.
-                table_metadata.register_pending_query(resolve_request_id, table_region_idx);
-                tablet_resolve.pending_table_queries.insert(
-                    (table_query.get_table_name().clone(), table_region_idx),
-                    table_query,
-                );
+                let pending_table_queries = tablet_resolve
+                    .pending_table_queries
+                    .entry((table_query.get_table_name().clone(), table_region_idx))
+                    .or_insert(Vec::new());
+                if pending_table_queries.is_empty() {
+                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
+                }
+                pending_table_queries.push(table_query);
             }
         }
         // Try to produce results if there are no more pending queries.
@@ -656,10 +659,11 @@ impl TabletResolve {
         table_region_idx: u32,
         table_metadata: &TableMetadata,
     ) {
-        // Remove pending query now that corresponding region state is fresh.
-        if let Some(pending_table_query) = self
+        // Remove pending queries now that corresponding region state is fresh.
+        for pending_table_query in self
             .pending_table_queries
             .remove(&(table_name.clone(), table_region_idx))
+            .unwrap_or_default()
         {
             // Resolve pending query into a number of sub-queries that are mapped
             // to particular tablets.
-- 
2.43.0


From 23ede1e23d2def71ead44af74c46a79f65bb5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 04/38] fix: count all tablets of a batch before resolving the
 cached ones

---
 apps/tablet_cache/service/src/transaction/data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 2261515..b960023 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -278,6 +278,10 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_batch: &mut TabletBatch<T>,
         tablet_cache_keys: &Vec<TabletCacheKey>,
     ) {
+        // Count all entries up front, as entries that are already cached are resolved
+        // immediately and must not complete the batch before the rest of it is registered.
+        tablet_batch.expect_cache_entries(tablet_cache_keys.len());
+
         // Register batch with each of the tablet cache entries it affects such that
         // when tablet cache entry is ready the corresponding tablet batch can be
         // notified.
@@ -775,8 +779,11 @@ impl<T> TabletBatch<T> {
         self.remaining_cache_entries == 0
     }
 
+    fn expect_cache_entries(&mut self, num_cache_entries: usize) {
+        self.remaining_cache_entries = num_cache_entries;
+    }
+
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-        self.remaining_cache_entries += 1;
         match tablet_cache_entry.get_state() {
             TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                 tablet_cache_entry.register_waiting_batch(self.batch_id);
-- 
2.43.0


From 4e5320bdbbb20b65776765cfc31bb3c7831392b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 05/38] fix: complete empty tablet batches

---
 .../tablet_cache/service/src/transaction/data.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index b960023..861fd38 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -781,6 +781,22 @@ impl<T> TabletBatch<T> {
 
     fn expect_cache_entries(&mut self, num_cache_entries: usize) {
         self.remaining_cache_entries = num_cache_entries;
+        if num_cache_entries > 0 {
+            return;
+        }
+
+        // There is nothing to wait for in an empty batch.
+        match &mut self.batch_state {
+            TabletBatchState::Load(loaded_tablets, loaded_tablets_source) => {
+                loaded_tablets_source.set_result(mem::take(loaded_tablets));
+                self.batch_state = TabletBatchState::Completed;
+            }
+            TabletBatchState::Store(stored_tablets_source) => {
+                stored_tablets_source.set_result(());
+                self.batch_state = TabletBatchState::Completed;
+            }
+            _ => {}
+        }
     }
 
     fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {
-- 
2.43.0


From 26babd0885c0afcfc71a1f8fb5a61a9982a2c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 06/38] fix: verify hash of the loaded tablet contents

---
 apps/tablet_cache/service/src/transaction/data.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index 861fd38..a63e56c 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -318,6 +318,15 @@ impl<T> DefaultTabletDataCache<T> {
         tablet_metadata: &TabletMetadata,
         tablet_contents: Bytes,
     ) -> Result<T, ()> {
+        // Tablet contents come from the untrusted storage, make sure that these are
+        // exactly the contents described by the metadata. Tablets that have never been
+        // stored do not have hash of the contents recorded.
+        if !tablet_metadata.blob_hash.is_empty()
+            && tablet_metadata.blob_hash[..] != Sha256::digest(&tablet_contents)[..]
+        {
+            return Err(());
+        }
+
         // Currently table name is not propagated to the serializer, will be
         // added later.
         let tablet_value = self
-- 
2.43.0


From 3cd16c5c218796888222e1bea5ca1233d7d3fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 07/38] fix: do not mix up tablets that have not been stored
 yet in the data cache

---
 apps/tablet_cache/service/src/transaction/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index a63e56c..f73b149 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -161,6 +161,7 @@ fn format_blob_uri(tablet_id: u32, tablet_version: u32, blob_hash: Bytes) -> Str
 }
 
 // Tablet cache id:
+//   * tablet id - unique id of the tablet.
 //   * uri - data storage uri that uniquely identifies tablet data. Note that tablet
 // id and version is not sufficiently unique in cache context as concurrent transactions
 // may attempt to create the same version of the tablet but different data. Therefore
@@ -577,6 +578,8 @@ impl<T> TabletDataCachePolicy<T> for DefaultTabletDataCachePolicy<T> {
 // Uniquely identifies tablet cache entry.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
 struct TabletCacheKey {
+    // Id of the tablet, as tablets that have not been stored yet share the same empty uri.
+    tablet_id: u32,
     // Uri of the blob in Tablet Data Storage.
     uri: String,
 }
@@ -584,6 +587,7 @@ struct TabletCacheKey {
 impl TabletCacheKey {
     fn from(tablet_metadata: &TabletMetadata) -> Self {
         Self {
+            tablet_id: tablet_metadata.tablet_id,
             uri: tablet_metadata.blob_uri.clone(),
         }
     }
-- 
2.43.0


From 63e246a571178e220b0b64020fc9b952e0a4be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 08/38] fix: share the cache entry between identical concurrent
 tablet writes

---
 apps/tablet_cache/service/src/transaction/data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/data.rs b/apps/tablet_cache/service/src/transaction/data.rs
index f73b149..c4e60f0 100644
--- a/apps/tablet_cache/service/src/transaction/data.rs
+++ b/apps/tablet_cache/service/src/transaction/data.rs
@@ -470,10 +470,10 @@ impl<T> TabletDataCache<T> for DefaultTabletDataCache<T> {
                     self.out_messages.push(store_tablet_request);
                     map_entry.insert(tablet_cache_entry);
                 }
-                Occupied(map_entry) => {
-                    // Any new tablet cache write must be unique as once created tablets
-                    // are immutable.
-                    panic!("Cache entry with given cache id already exists");
+                Occupied(_) => {
+                    // Cache id is derived from the tablet id, version and hash of the contents.
+                    // Concurrent transactions that write the same contents share the same
+                    // immutable cache entry and its storage request.
                 }
             }
         }
-- 
2.43.0


From 1f767099fcca66d42b7911b75fc60c157a3c2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:33 +0000
Subject: [PATCH 09/38] fix: do not treat a failed tablet process as pending
 forever

---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index acbfe95..67be7d6 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -495,9 +495,11 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn is_active(&self) -> bool {
         for process_state in &self.process_requests {
-            let TabletProcessStatus::Completed = process_state.status else {
-                return true;
-            };
+            // Neither completed nor failed process is going to make any progress.
+            match process_state.status {
+                TabletProcessStatus::Completed | TabletProcessStatus::Failed => {}
+                _ => return true,
+            }
         }
         false
     }
-- 
2.43.0


From 137449fa826c8cc7e3bd3eaaec651549cf04d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:04 +0000
Subject: [PATCH 10/38] fix: do not cache metadata of tablet updates that have
 not been committed

---
 .../service/src/transaction/coordinator.rs    | 47 +++++++++++--------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 67be7d6..44a9327 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -545,7 +545,11 @@ impl CommittingTabletTransactionState {
         // but for the time being we are doing a simple check of that all tablet ops
         // succeeded.
         let mut metadata_to_update_cache = Vec::new();
-        let mut transaction_outcome = TabletTransactionOutcome::Succeeded;
+        let mut transaction_outcome = if self.tablet_ops.len() == tablet_op_results.len() {
+            TabletTransactionOutcome::Succeeded
+        } else {
+            TabletTransactionOutcome::Failed
+        };
         for (tablet_op, tablet_op_result) in self.tablet_ops.iter().zip(tablet_op_results.iter()) {
             let op_succeeded = tablet_op_result.status == TabletOpStatus::Succeeded as i32;
             if !op_succeeded {
@@ -557,15 +561,14 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::CheckTablet(check_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            check_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // There is no existing tablet to report if it is missing.
+                        if let Some(existing_tablet) = &check_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     }
                 }
                 (
@@ -573,15 +576,14 @@ impl CommittingTabletTransactionState {
                     Some(tablet_op_result::OpResult::UpdateTablet(update_tablet_op_result)),
                 ) => {
                     if !op_succeeded {
-                        metadata_to_update_cache.push((
-                            tablet_op.table_name.clone(),
-                            update_tablet_op_result
-                                .existing_tablet
-                                .as_ref()
-                                .unwrap()
-                                .clone(),
-                            true,
-                        ));
+                        // There is no existing tablet to report if it is missing.
+                        if let Some(existing_tablet) = &update_tablet_op_result.existing_tablet {
+                            metadata_to_update_cache.push((
+                                tablet_op.table_name.clone(),
+                                existing_tablet.clone(),
+                                true,
+                            ));
+                        }
                     } else {
                         metadata_to_update_cache.push((
                             tablet_op.table_name.clone(),
@@ -590,11 +592,18 @@ impl CommittingTabletTransactionState {
                         ));
                     }
                 }
+                // Invalid tablet op has no result.
+                (_, None) if !op_succeeded => {}
                 _ => {
                     panic!("Unexpected tablet op and result combination");
                 }
             }
         }
+        // Tablet Store applies either all tablet ops or none, therefore updated metadata must
+        // not get into the cache if any of the tablet ops failed.
+        if transaction_outcome == TabletTransactionOutcome::Failed {
+            metadata_to_update_cache.retain(|(_, _, conflict)| *conflict);
+        }
         (transaction_outcome, metadata_to_update_cache)
     }
 }
-- 
2.43.0


From d0b742f4cb4fea89c325b5825a16d480504b5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:52 +0000
Subject: [PATCH 11/38] fix: do not mix up tablets of different tables within a
 tablet process

---
 .../service/src/transaction/coordinator.rs    | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index 44a9327..af7b1e8 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -392,7 +392,7 @@ impl<T> PreparingTabletTransactionState<T> {
                                 for (query, metadata) in resolve_values {
                                     // Start tracking state of the affected tablet.
                                     process_state.tablets.insert(
-                                        create_tablet_key(&metadata),
+                                        create_tablet_key(query.get_table_name(), &metadata),
                                         TabletState::create(query, metadata.clone()),
                                     );
                                     resolved_metadata.push(metadata);
@@ -421,13 +421,16 @@ impl<T> PreparingTabletTransactionState<T> {
                                 let mut tablet_refs = Vec::with_capacity(load_values.len());
 
                                 for (metadata, data) in load_values {
-                                    // Set loaded tablet data in corresponding tablet state that we look up
-                                    // using metadata.
-                                    let tablet_state = process_state
-                                        .tablets
-                                        .get_mut(&create_tablet_key(&metadata))
-                                        .unwrap();
-                                    tablet_state.tablet_init(data);
+                                    // Set loaded tablet data in corresponding tablet states that we look up
+                                    // using metadata. Tablets of different tables may share the data.
+                                    for tablet_state in process_state.tablets.values_mut() {
+                                        let tablet_metadata = tablet_state.tablet.get_metadata();
+                                        if tablet_metadata.tablet_id == metadata.tablet_id
+                                            && tablet_metadata.blob_uri == metadata.blob_uri
+                                        {
+                                            tablet_state.tablet_init(data.clone());
+                                        }
+                                    }
                                 }
 
                                 // Create collection of  mutable references that process handler will consume.
@@ -608,9 +611,12 @@ impl CommittingTabletTransactionState {
     }
 }
 
-// Creates tablet key that consists of tablet id and its version.
-fn create_tablet_key(metadata: &TabletMetadata) -> u64 {
-    (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64)
+// Creates tablet key that consists of table name, tablet id and its version.
+fn create_tablet_key(table_name: &String, metadata: &TabletMetadata) -> (String, u64) {
+    (
+        table_name.clone(),
+        (metadata.tablet_id as u64) << 32 | (metadata.tablet_version as u64),
+    )
 }
 
 // Tracks state of a tablet affected by a transaction.
@@ -680,8 +686,8 @@ struct TabletProcessState<T> {
     status: TabletProcessStatus<T>,
     // Handler that will be called to process tablets.
     handler: Box<ProcessHandler<T>>,
-    // Maps tablet key that of tablet id and its version to the tablet state.
-    tablets: HashMap<u64, TabletState<T>>,
+    // Maps tablet key that of table name, tablet id and its version to the tablet state.
+    tablets: HashMap<(String, u64), TabletState<T>>,
 }
 
 enum TabletProcessStatus<T> {
-- 
2.43.0


From 3b5d1cbca3420e7b407bd35f20d518569f6f034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:56 +0000
Subject: [PATCH 12/38] fix: fail transaction that would lose one of the
 updates of a tablet

---
 .../service/src/transaction/coordinator.rs        | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index af7b1e8..e1eb230 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -15,7 +15,7 @@
 use core::mem;
 
 use alloc::{boxed::Box, string::String, vec::Vec};
-use hashbrown::HashMap;
+use hashbrown::{HashMap, HashSet};
 use prost::bytes::Bytes;
 use slog::Logger;
 use tcp_runtime::logger::log::create_logger;
@@ -509,6 +509,7 @@ impl<T> PreparingTabletTransactionState<T> {
 
     fn complete(&self) -> PreparingTabletTransactionOutcome {
         let mut tablet_ops = Vec::new();
+        let mut updated_tablets = HashSet::new();
 
         for process_state in &self.process_requests {
             if let TabletProcessStatus::Failed = process_state.status {
@@ -517,6 +518,18 @@ impl<T> PreparingTabletTransactionState<T> {
             }
 
             for tablet_state in process_state.tablets.values() {
+                // Processes are not aware of the updates of each other, fail transaction
+                // preparation if more than one of them updated the same tablet as all but
+                // one of the updates would be lost.
+                if tablet_state.tablet.is_dirty()
+                    && !updated_tablets.insert((
+                        tablet_state.query.get_table_name().clone(),
+                        tablet_state.tablet.get_id(),
+                    ))
+                {
+                    return PreparingTabletTransactionOutcome::Failed;
+                }
+
                 // For each of the affected tablets generate corresponding tablet op.
                 tablet_ops.push(tablet_state.get_tablet_op());
             }
-- 
2.43.0


From c7c64fbbca7b8f494024f95c39154cefd3de9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:56 +0000
Subject: [PATCH 13/38] fix: keep config of the key value store and do not
 start empty transactions

---
 apps/tablet_cache/service/src/store.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 3607eef..c4d8e6c 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -190,6 +190,7 @@ impl SimpleKeyValueStoreCore {
         self.table_accessor = TableAccessor::create(config.table_name.clone());
         self.request_tracker =
             RequestTracker::create(config.min_pending_before_resolve.try_into().unwrap());
+        self.config = config;
     }
 
     fn handle_query_resolve(
@@ -389,7 +390,7 @@ impl RequestTracker {
         // If minimum pending requests threshold has been reached, create
         // table query with these requests and resolve which tablets they
         // affect.
-        if self.pending_requests.len() >= self.min_pending {
+        if !self.pending_requests.is_empty() && self.pending_requests.len() >= self.min_pending {
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_resolution_requests
                 .insert(query.get_id(), mem::take(&mut self.pending_requests));
@@ -446,7 +447,10 @@ impl TabletTracker {
         // If minimum pending threshold has been reached and there is no
         // active transaction, create table query with these requests to
         // process within a transaction.
-        if self.pending_requests.len() >= self.min_pending && !self.has_transaction {
+        if !self.pending_requests.is_empty()
+            && self.pending_requests.len() >= self.min_pending
+            && !self.has_transaction
+        {
             self.has_transaction = true;
             let query = create_table_query(table_accessor, &self.pending_requests);
             self.waiting_processing_requests
-- 
2.43.0


From b03d154d391e893b01e0477c030e733d73c8a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:58 +0000
Subject: [PATCH 14/38] fix: do not hold the key value store borrowed while
 resolving tablets

---
 apps/tablet_cache/service/src/store.rs | 39 +++++++++++---------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index c4d8e6c..17b8484 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -114,17 +114,21 @@ impl KeyValueStore for SimpleKeyValueStore {
         _instant: u64,
         transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
     ) {
-        let mut core = self.core.borrow_mut();
-
-        let mut core_clone = self.core.clone();
         // If enough pending requests have accumulated initiate resolution of
-        // the affected tablets.
-        core.maybe_resolve_tablets(
-            transaction_context,
-            Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
-        );
+        // the affected tablets. Note that the handler may be called right away
+        // if the tablets are known, hence the core must not be borrowed.
+        let resolve_queries = self.core.borrow_mut().collect_resolve_queries();
+        if !resolve_queries.is_empty() {
+            let core_clone = self.core.clone();
+            transaction_context.resolve(
+                resolve_queries,
+                Box::new(move |results| core_clone.borrow_mut().handle_query_resolve(results)),
+            );
+        }
 
-        core_clone = self.core.clone();
+        let mut core = self.core.borrow_mut();
+
+        let core_clone = self.core.clone();
         // If enough pending requests has accumulated on some tablets initiate a
         // transaction covering the tablets that passed the threshold.
         core.maybe_start_transaction(
@@ -237,19 +241,10 @@ impl SimpleKeyValueStoreCore {
         }
     }
 
-    fn maybe_resolve_tablets(
-        &mut self,
-        transaction_context: &mut dyn transaction::TabletTransactionContext<Bytes>,
-        handler: Box<transaction::ResolveHandler>,
-    ) {
-        // Initiate resolution of affected tablets if there are enough pending requests.
-        let resolve_queries = self
-            .request_tracker
-            .collect_resolve_queries(&mut self.table_accessor);
-
-        if !resolve_queries.is_empty() {
-            transaction_context.resolve(resolve_queries, handler);
-        }
+    fn collect_resolve_queries(&mut self) -> Vec<transaction::TableQuery> {
+        // Affected tablets need to be resolved if there are enough pending requests.
+        self.request_tracker
+            .collect_resolve_queries(&mut self.table_accessor)
     }
 
     fn maybe_start_transaction(
-- 
2.43.0


From 69ecb62a7c17b2097d8395085bf02d6aeb16c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 15/38] fix: hand key value requests over to the tablets that
 own their keys

---
 apps/tablet_cache/service/src/store.rs | 40 ++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index 17b8484..abde790 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -213,7 +213,7 @@ impl SimpleKeyValueStoreCore {
             // Move resolved requests as pending to the tablet they affect.
             tablet_tracker.append_pending_requests(
                 self.request_tracker
-                    .take_resolved_requests(table_query.get_id()),
+                    .take_resolved_requests(&self.table_accessor, &table_query),
             );
         }
     }
@@ -348,6 +348,13 @@ impl TableAccessor {
         hasher.finish() as u32
     }
 
+    fn hash_request(&self, request: &KeyValueRequest) -> u32 {
+        match request {
+            KeyValueRequest::Put(_, put_request) => self.hash_key(&put_request.key),
+            KeyValueRequest::Get(_, get_request) => self.hash_key(&get_request.key),
+        }
+    }
+
     fn get_next_id(&mut self) -> u64 {
         self.query_counter += 1;
         self.query_counter
@@ -395,11 +402,34 @@ impl RequestTracker {
         queries
     }
 
-    fn take_resolved_requests(&mut self, table_query_id: u64) -> Vec<KeyValueRequest> {
-        // Resolved requests are taken for processing within a transaction.
-        self.waiting_resolution_requests
-            .remove(&table_query_id)
+    fn take_resolved_requests(
+        &mut self,
+        table_accessor: &TableAccessor,
+        table_query: &transaction::TableQuery,
+    ) -> Vec<KeyValueRequest> {
+        // Resolved requests are taken for processing within a transaction. Requests
+        // that affect other tablets keep waiting for their part of the table query.
+        let mut resolved_requests = Vec::new();
+        let mut waiting_requests = Vec::new();
+        for request in self
+            .waiting_resolution_requests
+            .remove(&table_query.get_id())
             .unwrap_or(Vec::new())
+        {
+            if table_query
+                .get_key_hashes()
+                .contains(&table_accessor.hash_request(&request))
+            {
+                resolved_requests.push(request);
+            } else {
+                waiting_requests.push(request);
+            }
+        }
+        if !waiting_requests.is_empty() {
+            self.waiting_resolution_requests
+                .insert(table_query.get_id(), waiting_requests);
+        }
+        resolved_requests
     }
 }
 
-- 
2.43.0


From a54454713035261000444b48ac7b749517753655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:02 +0000
Subject: [PATCH 16/38] fix: retry key value requests of the failed
 transactions

---
 apps/tablet_cache/service/src/store.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/store.rs b/apps/tablet_cache/service/src/store.rs
index abde790..6ce5ac0 100644
--- a/apps/tablet_cache/service/src/store.rs
+++ b/apps/tablet_cache/service/src/store.rs
@@ -302,10 +302,15 @@ impl SimpleKeyValueStoreCore {
         // against them.
         for tablet_id in affected_tablet_ids {
             if let Some(tablet_tracker) = self.tablet_trackers.get_mut(&tablet_id) {
-                tablet_tracker.complete_transaction();
+                failed_requests.append(&mut tablet_tracker.complete_transaction());
             }
         }
 
+        // Enqueue requests that have failed or have not been processed for retry.
+        for request in failed_requests {
+            self.request_tracker.append_pending_request(request);
+        }
+
         // Clear all completed transactions and associated state.
         for transaction_id in completed_transactions {
             self.transaction_trackers.remove(&transaction_id);
@@ -592,8 +597,16 @@ impl TabletTracker {
         }
     }
 
-    fn complete_transaction(&mut self) {
+    fn complete_transaction(&mut self) -> Vec<KeyValueRequest> {
         self.has_transaction = false;
+
+        // Requests that transaction has not processed must be retried, for example
+        // if transaction has failed before the process handler is called.
+        let mut unprocessed_requests = Vec::new();
+        for (_, mut requests) in mem::take(&mut self.waiting_processing_requests) {
+            unprocessed_requests.append(&mut requests);
+        }
+        unprocessed_requests
     }
 }
 
-- 
2.43.0


From 6a0dc93fc9737e265c67c30ed455f68bfcd6fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:10 +0000
Subject: [PATCH 17/38] fix: complete transactions that have not affected any
 tablets

---
 apps/tablet_cache/service/src/transaction/coordinator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tablet_cache/service/src/transaction/coordinator.rs b/apps/tablet_cache/service/src/transaction/coordinator.rs
index e1eb230..72adf1d 100644
--- a/apps/tablet_cache/service/src/transaction/coordinator.rs
+++ b/apps/tablet_cache/service/src/transaction/coordinator.rs
@@ -271,6 +271,12 @@ impl<T> TabletTransactionCoordinator<T> for DefaultTabletTransactionCoordinator<
                 );
                 // Completion in preparing state goes over results of each process call.
                 match transaction_state.complete() {
+                    // There is nothing to commit if no tablets have been affected.
+                    PreparingTabletTransactionOutcome::Succeeded(tablet_ops)
+                        if tablet_ops.is_empty() =>
+                    {
+                        TabletTransactionState::Completed(TabletTransactionOutcome::Succeeded)
+                    }
                     // Try to commit transaction if all processing succeeded.
                     PreparingTabletTransactionOutcome::Succeeded(tablet_ops) => {
                         // Stash outgoing message to commit transaction to the Tablet Store.
-- 
2.43.0


From 017670b3a1da42b8ef5ff1458fa7f76a39157fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:12 +0000
Subject: [PATCH 18/38] fix: do not drop results of the invalid tablet ops

---
 .../service/src/transaction/manager.rs           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_cache/service/src/transaction/manager.rs b/apps/tablet_cache/service/src/transaction/manager.rs
index 1ddb701..35e3acf 100644
--- a/apps/tablet_cache/service/src/transaction/manager.rs
+++ b/apps/tablet_cache/service/src/transaction/manager.rs
@@ -273,9 +273,21 @@ impl<T> TabletTransactionManagerCore<T> {
             InMessage::ExecuteTabletOpsResponse(
                 correlation_id,
                 _execute_ops_response,
-                tablets_response,
+                mut tablets_response,
             ) => {
-                self.tablets_errors.remove(&correlation_id);
+                if let Some(tablets_error) = self.tablets_errors.remove(&correlation_id) {
+                    // Results of the invalid tablet ops carry no details, replace them with the
+                    // failed ones such that results keep corresponding to the tablet ops.
+                    for (tablet_op_result, failed_op_result) in tablets_response
+                        .tablet_results
+                        .iter_mut()
+                        .zip(tablets_error.tablet_results)
+                    {
+                        if tablet_op_result.op_result.is_none() {
+                            *tablet_op_result = failed_op_result;
+                        }
+                    }
+                }
                 self.process_in_tablets_op_response(correlation_id, tablets_response);
             }
             InMessage::ExecuteTabletOpsError(correlation_id, _execute_ops_error) => {
-- 
2.43.0


From 4a38b2111395a09a8090bae8727065e1476cbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:13 +0000
Subject: [PATCH 19/38] fix: let the transaction manager make progress

---
 apps/tablet_cache/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 5feca3d..f15e54f 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -189,6 +189,7 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let instant = self.get_context().instant();
         self.key_value_store
             .make_progress(instant, &mut self.transaction_manager);
+        self.transaction_manager.make_progress(instant);
 
         let transaction_out_commands = self
             .transaction_manager
-- 
2.43.0


From f09d2d35e257f71a23e28f53cb9bb22f201bd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 20/38] fix: reject adding and removing of tablets instead of
 crashing

---
 apps/tablet_store/service/src/actor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/tablet_store/service/src/actor.rs b/apps/tablet_store/service/src/actor.rs
index 0a8f284..163b673 100644
--- a/apps/tablet_store/service/src/actor.rs
+++ b/apps/tablet_store/service/src/actor.rs
@@ -187,8 +187,12 @@ impl TableMetadata {
                 }
                 OpResult::UpdateTablet(update_tablet_result)
             }
-            Op::AddTablet(_add_tablet_op) => todo!(),
-            Op::RemoveTablet(_remove_tablet_op) => todo!(),
+            Op::AddTablet(_) | Op::RemoveTablet(_) => {
+                // Adding and removing of tablets is not supported, the request
+                // must be rejected without crashing all of the replicas.
+                op_result.status = TabletOpStatus::Invalid.into();
+                return op_result;
+            }
         });
 
         op_result
-- 
2.43.0


From 23a88305f42b8851a62c7318930a8a2192d0284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 21/38] fix: reject snapshot chunks of another transfer

---
 runtime/src/snapshot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 0544317..6897a46 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -768,8 +768,14 @@ impl ReceiverState {
         }
     }
 
-    fn accept_chunk(&mut self, sender_id: u64, index: u64, chunk_contents: Bytes) -> bool {
-        if sender_id != self.sender_id {
+    fn accept_chunk(
+        &mut self,
+        sender_id: u64,
+        snapshot_id: u32,
+        index: u64,
+        chunk_contents: Bytes,
+    ) -> bool {
+        if sender_id != self.sender_id || snapshot_id != self.snapshot_id {
             return false;
         }
 
@@ -904,6 +910,7 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                                 // within range.
                                 if state.accept_chunk(
                                     request.sender_replica_id,
+                                    payload.snapshot_id,
                                     chunk.chunk_index.into(),
                                     chunk.chunk_contents,
                                 ) {
-- 
2.43.0


From b6b3230ff74d4b317ceb8d81f9260595abe1e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 22/38] fix: reject snapshot header with wrong first chunk

---
 runtime/src/snapshot.rs | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index 6897a46..aa59eda 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -881,23 +881,36 @@ impl SnapshotReceiver for DefaultSnapshotReceiver {
                         payload.snapshot_id,
                         header.snapshot_size);
 
-                        // Received new header, must reset any progress as there can only
-                        // be one snapshot at a time.
-                        self.reset();
-                        // Initiate new snapshot.
-                        self.state = Some(ReceiverState::new(
-                            self.logger.clone(),
-                            request.sender_replica_id,
-                            payload.snapshot_id,
-                            header.snapshot_size,
-                            header.snapshot_metadata.clone(),
-                            header.chunk_contents,
-                        ));
-                        // Respond to the snapshot sender.
                         response_payload.snapshot_id = payload.snapshot_id;
                         response_payload.chunk_index = 0;
-                        response_payload.status =
-                            DeliverSnapshotStatus::SnapshotStatusAccepted.into();
+
+                        // The size of the first chunk determines the size and the number
+                        // of the chunks that follow, it must be within the snapshot size.
+                        let first_chunk_size = header.chunk_contents.len() as u64;
+                        if first_chunk_size > header.snapshot_size
+                            || (first_chunk_size == 0 && header.snapshot_size > 0)
+                        {
+                            warn!(self.logger, "Rejecting payload: wrong first chunk");
+                            // Respond with rejection.
+                            response_payload.status =
+                                DeliverSnapshotStatus::SnapshotStatusRejected.into();
+                        } else {
+                            // Received new header, must reset any progress as there can only
+                            // be one snapshot at a time.
+                            self.reset();
+                            // Initiate new snapshot.
+                            self.state = Some(ReceiverState::new(
+                                self.logger.clone(),
+                                request.sender_replica_id,
+                                payload.snapshot_id,
+                                header.snapshot_size,
+                                header.snapshot_metadata.clone(),
+                                header.chunk_contents,
+                            ));
+                            // Respond to the snapshot sender.
+                            response_payload.status =
+                                DeliverSnapshotStatus::SnapshotStatusAccepted.into();
+                        }
                     }
                     Some(deliver_snapshot_request::snapshot_content::It::Chunk(chunk)) => {
                         response_payload.snapshot_id = payload.snapshot_id;
-- 
2.43.0


From 8bf51abb579b9741dd9953b17492c798c43fae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 23/38] fix: keep defaults of snapshot parameters that are not
 set

---
 runtime/src/snapshot.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/src/snapshot.rs b/runtime/src/snapshot.rs
index aa59eda..42c7be6 100644
--- a/runtime/src/snapshot.rs
+++ b/runtime/src/snapshot.rs
@@ -563,8 +563,13 @@ impl SnapshotSenderImpl for DefaultSnapshotSender {
         self.logger = logger;
         self.replica_id = replica_id;
         if let Some(snapshot_config) = snapshot_config {
-            self.config.chunk_size = snapshot_config.chunk_size;
-            self.config.max_pending_chunks = snapshot_config.max_pending_chunks
+            // Keep system defaults for the parameters that are not set.
+            if snapshot_config.chunk_size > 0 {
+                self.config.chunk_size = snapshot_config.chunk_size;
+            }
+            if snapshot_config.max_pending_chunks > 0 {
+                self.config.max_pending_chunks = snapshot_config.max_pending_chunks;
+            }
         }
     }
 
-- 
2.43.0


From 7664f2d4b50557efca730e0a17beb89a037e0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 24/38] fix: reject replica messages without payload

---
 runtime/src/communication.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/runtime/src/communication.rs b/runtime/src/communication.rs
index 9759b4f..a504e35 100644
--- a/runtime/src/communication.rs
+++ b/runtime/src/communication.rs
@@ -347,6 +347,18 @@ enum HandshakeState {
     Failed(u64),
 }
 
+// Decrypts the payload of an incoming message. The host may deliver a message that has no
+// payload, there is nothing to decrypt in it.
+fn decrypt_payload(
+    encryptor: &mut Box<dyn Encryptor>,
+    payload: Option<&Payload>,
+) -> anyhow::Result<Vec<u8>> {
+    match payload {
+        Some(payload) => encryptor.decrypt(payload),
+        None => Err(anyhow!("Message has no payload.")),
+    }
+}
+
 impl CommunicationState {
     // Create the ReplicaCommunicationState. This happens the first time a
     // message is sent to or received from a peer replica.
@@ -530,8 +542,7 @@ impl CommunicationState {
     fn decrypt_message(&mut self, message: in_message::Msg) -> Option<in_message::Msg> {
         let encryptor = self.encryptor.as_mut().unwrap();
         let result = match message {
-            in_message::Msg::DeliverSystemMessage(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+            in_message::Msg::DeliverSystemMessage(mut msg) => decrypt_payload(encryptor, msg.payload.as_ref())
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -539,8 +550,7 @@ impl CommunicationState {
                     });
                     Ok(in_message::Msg::DeliverSystemMessage(msg))
                 }),
-            in_message::Msg::DeliverSnapshotRequest(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+            in_message::Msg::DeliverSnapshotRequest(mut msg) => decrypt_payload(encryptor, msg.payload.as_ref())
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
@@ -548,8 +558,7 @@ impl CommunicationState {
                     });
                     Ok(in_message::Msg::DeliverSnapshotRequest(msg))
                 }),
-            in_message::Msg::DeliverSnapshotResponse(mut msg) => encryptor
-                .decrypt(msg.payload.as_ref().unwrap())
+            in_message::Msg::DeliverSnapshotResponse(mut msg) => decrypt_payload(encryptor, msg.payload.as_ref())
                 .and_then(|decrypted_msg| {
                     msg.payload = Some(Payload {
                         contents: decrypted_msg.into(),
-- 
2.43.0


From 9627d185f0773acdcdb5d3596bbeabb572edd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 25/38] fix: replace counters when loading snapshot

---
 apps/atomic_counter/service/src/actor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index ce988e1..11609b2 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -194,6 +194,8 @@ impl Actor for CounterActor {
         let snapshot =
             CounterSnapshot::decode(snapshot).map_err(|_| ActorError::SnapshotLoading)?;
 
+        // Snapshot replaces the existing values.
+        self.values.clear();
         for (name, value) in snapshot.values {
             self.values.insert(
                 name,
-- 
2.43.0


From 33e99bd8130fcdb1dd9c87c03230e342f54bd933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 26/38] fix: report existing counter value when compare and
 swap fails

---
 apps/atomic_counter/service/src/actor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/atomic_counter/service/src/actor.rs b/apps/atomic_counter/service/src/actor.rs
index 11609b2..1100981 100644
--- a/apps/atomic_counter/service/src/actor.rs
+++ b/apps/atomic_counter/service/src/actor.rs
@@ -136,6 +136,7 @@ impl CounterActor {
             compare_and_swap_response.new_value = compare_and_swap_request.new_value;
         } else {
             response.status = CounterStatus::InvalidArgumentError.into();
+            compare_and_swap_response.new_value = existing_value.value;
         }
         response.op = Some(counter_response::Op::CompareAndSwap(
             compare_and_swap_response,
-- 
2.43.0


From 45644ff1469f0e784e1f2f2be5e6644f48d78edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 27/38] fix: keep first applied key pair of key id

---
 apps/willow/decryptor/actor/src/actor.rs | 29 +++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index e5251f0..7f1e6b4 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -205,6 +205,18 @@ impl DecryptorActor {
         let decryptor_state: Bytes = generate_key_event.private_key_share.into();
         let sequential_order: i32 = generate_key_event.sequential_order;
 
+        // Concurrent requests may have generated more than one key pair for the same
+        // key id, all of them get the public key of the first applied key pair.
+        if let Some(key_pair) = self.key_pairs.get(&generate_key_event.key_id) {
+            let public_key_share = key_pair.public_key_share.clone();
+            return self.generate_key_outcome(
+                context,
+                correlation_id,
+                generate_key_event.key_id,
+                public_key_share,
+            );
+        }
+
         // If the number of key pairs has reached the maximum, remove the oldest one
         // (the one with the smallest sequential order) to make room for the new
         // key pair. This is done here instead of in the command processing
@@ -228,9 +240,24 @@ impl DecryptorActor {
             },
         );
 
+        self.generate_key_outcome(
+            context,
+            correlation_id,
+            generate_key_event.key_id,
+            public_key_share,
+        )
+    }
+
+    fn generate_key_outcome(
+        &self,
+        context: ActorEventContext,
+        correlation_id: u64,
+        key_id: Vec<u8>,
+        public_key_share: Bytes,
+    ) -> Result<EventOutcome, ActorError> {
         if context.owned {
             let mut key = KeyProto::default();
-            key.set_key_id(generate_key_event.key_id.clone());
+            key.set_key_id(key_id);
             key.set_key_material(public_key_share.to_vec());
             return Ok(EventOutcome::with_command(ActorCommand::with_header(
                 correlation_id,
-- 
2.43.0


From 3b2ab28a9844d00c6128ef39a51ed990d3f79ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 28/38] fix: do not return decryption result when key pair is
 already used

---
 apps/willow/decryptor/actor/src/actor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 7f1e6b4..9a7bf31 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -278,9 +278,19 @@ impl DecryptorActor {
         correlation_id: u64,
         decrypt_event: DecryptEvent,
     ) -> Result<EventOutcome, ActorError> {
-        self.key_pairs.remove(&decrypt_event.key_id[..]);
+        // Key pair can be used only once, concurrent requests that lost the race do not
+        // get the decryption result.
+        let removed_key_pair = self.key_pairs.remove(&decrypt_event.key_id[..]);
 
         if context.owned {
+            if removed_key_pair.is_none() {
+                return self.event_err(
+                    correlation_id,
+                    StatusCode::FailedPrecondition as i32,
+                    "Key pair not found for given key id".to_string(),
+                );
+            }
+
             return Ok(EventOutcome::with_command(ActorCommand::with_header(
                 correlation_id,
                 &DecryptorResponse {
-- 
2.43.0


From 3f29caf90c20d9ee5138c97e700e3209435d32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 29/38] fix: answer invalid decryption request with error

---
 apps/willow/decryptor/actor/src/actor.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/apps/willow/decryptor/actor/src/actor.rs b/apps/willow/decryptor/actor/src/actor.rs
index 9a7bf31..2713301 100644
--- a/apps/willow/decryptor/actor/src/actor.rs
+++ b/apps/willow/decryptor/actor/src/actor.rs
@@ -338,16 +338,27 @@ impl DecryptorActor {
         let decryptor_state =
             DecryptorState::from_proto(decryptor_state_proto, &decryptor).unwrap();
 
-        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes).unwrap();
-        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor).unwrap();
-
-        let partial_decryption =
-            decryptor.handle_partial_decryption_request(request, &decryptor_state).unwrap();
+        // Request comes from the client and must not take the actor down.
+        let request_proto = PartialDecryptionRequestProto::parse(&request_bytes)
+            .map_err(|_| Self::invalid_decryption_request())?;
+        let request = PartialDecryptionRequest::from_proto(request_proto, &decryptor)
+            .map_err(|_| Self::invalid_decryption_request())?;
+
+        let partial_decryption = decryptor
+            .handle_partial_decryption_request(request, &decryptor_state)
+            .map_err(|_| Self::invalid_decryption_request())?;
         let partial_decryption_proto = partial_decryption.to_proto(&decryptor).unwrap();
 
         return Ok(partial_decryption_proto.serialize().unwrap().into());
     }
 
+    fn invalid_decryption_request() -> Status {
+        Status {
+            code: StatusCode::InvalidArgument as i32,
+            message: "Decryption request is invalid".to_string(),
+        }
+    }
+
     fn command_err(
         &mut self,
         correlation_id: u64,
-- 
2.43.0


From 8b49e00b8c8a80df7c0b7af7bfb369db876757a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 30/38] fix: reject malformed tablet store response

---
 apps/tablet_cache/service/src/actor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index f15e54f..0dd086e 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -164,7 +164,8 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
                             response,
                         )),
                     InMsg::ExecuteTabletOpsResponse(response) => {
-                        let tablets_response = TabletsResponse::decode(command.payload).unwrap();
+                        let tablets_response = TabletsResponse::decode(command.payload)
+                            .map_err(|_| ActorError::Internal)?;
                         self.transaction_manager.process_in_message(
                             transaction::InMessage::ExecuteTabletOpsResponse(
                                 command.correlation_id,
-- 
2.43.0


From 63c200127abfb41e1fcbb12995e62298a5a32536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 31/38] fix: report missing tablet cache configuration

---
 apps/tablet_cache/service/src/actor.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/apps/tablet_cache/service/src/actor.rs b/apps/tablet_cache/service/src/actor.rs
index 0dd086e..ea473df 100644
--- a/apps/tablet_cache/service/src/actor.rs
+++ b/apps/tablet_cache/service/src/actor.rs
@@ -97,15 +97,21 @@ impl<T: transaction::TabletTransactionManager<Bytes>, S: store::KeyValueStore> A
         let config = TabletCacheConfig::decode(self.get_context().config().as_ref())
             .map_err(|_| ActorError::ConfigLoading)?;
 
+        let (store_config, transaction_manager_config) =
+            match (config.store_config, config.transaction_manager_config) {
+                (Some(store_config), Some(transaction_manager_config)) => {
+                    (store_config, transaction_manager_config)
+                }
+                _ => return Err(ActorError::ConfigLoading),
+            };
+
         let key_value_store_logger = self.get_context().logger().new(o!("type" => "store"));
         self.key_value_store
-            .init(key_value_store_logger, config.store_config.unwrap());
+            .init(key_value_store_logger, store_config);
 
         let transaction_manager_logger = self.get_context().logger().new(o!("type" => "manager"));
-        self.transaction_manager.init(
-            transaction_manager_logger,
-            config.transaction_manager_config.unwrap(),
-        );
+        self.transaction_manager
+            .init(transaction_manager_logger, transaction_manager_config);
 
         debug!(self.get_context().logger(), "Initialized");
 
-- 
2.43.0


From f210c0dad42540554e58897d8953e685de94c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 32/38] fix: ignore misrouted and malformed Raft messages

---
 runtime/src/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 8838820..f4c5bdb 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -359,6 +359,7 @@ impl<
                         "Ignoring incorectly routed Raft message: recipient id {}",
                         recipient_replica_id
                     );
+                    return Ok(());
                 }
                 if message.get_from() != sender_replica_id {
                     // Ignore malformed message
@@ -366,6 +367,7 @@ impl<
                         self.logger,
                         "Ignoring malformed Raft message: sender id {}", sender_replica_id
                     );
+                    return Ok(());
                 }
 
                 // Advance Raft internal state by one step.
-- 
2.43.0


From fcb86f0e00dfc002e43c4916944c300d19d8f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 33/38] fix: survive messages refused by Raft

---
 runtime/src/driver.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index f4c5bdb..84a3e8b 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -372,6 +372,15 @@ impl<
 
                 // Advance Raft internal state by one step.
                 match self.raft.make_step(message) {
+                    Err(RaftError::StepLocalMsg)
+                    | Err(RaftError::StepPeerNotFound)
+                    | Err(RaftError::ProposalDropped) => {
+                        // Raft refused the message, e.g. it is a late message from a removed
+                        // replica, and remains operational.
+                        warn!(self.logger, "Ignoring Raft message refused by Raft");
+
+                        Ok(())
+                    }
                     Err(e) => {
                         error!(self.logger, "Raft experienced unrecoverable error: {}", e);
 
-- 
2.43.0


From b49243777e61bfe767eb13103087bc629138c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 34/38] fix: survive dropped Raft proposals

---
 runtime/src/driver.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 84a3e8b..d4dceed 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -393,10 +393,23 @@ impl<
         }
     }
 
-    fn make_raft_proposal(&mut self, proposal_contents: Bytes) {
+    fn make_raft_proposal(&mut self, proposal_contents: Bytes) -> Result<(), PalError> {
         debug!(self.logger, "Making Raft proposal");
 
-        self.raft.make_proposal(proposal_contents).unwrap();
+        match self.raft.make_proposal(proposal_contents) {
+            Ok(_) => Ok(()),
+            Err(RaftError::ProposalDropped) => {
+                warn!(self.logger, "Dropping Raft proposal");
+
+                Ok(())
+            }
+            Err(e) => {
+                error!(self.logger, "Raft experienced unrecoverable error: {}", e);
+
+                // Unrecoverable Raft errors must lead to termination.
+                Err(PalError::Raft)
+            }
+        }
     }
 
     fn make_raft_config_change_proposal(
@@ -1222,12 +1235,14 @@ impl<
         Ok(())
     }
 
-    fn process_actor_raft_proposals(&mut self) {
+    fn process_actor_raft_proposals(&mut self) -> Result<(), PalError> {
         let proposals = self.mut_core().take_outputs();
 
         for proposal in proposals {
-            self.make_raft_proposal(proposal);
+            self.make_raft_proposal(proposal)?;
         }
+
+        Ok(())
     }
 
     fn process_state_machine(&mut self) -> Result<(), PalError> {
@@ -1350,7 +1365,7 @@ impl<
 
         if !self.is_ephemeral {
             // Processes outputs from the actor to make raft proposals.
-            self.process_actor_raft_proposals();
+            self.process_actor_raft_proposals()?;
 
             // Process snapshot transfer completion or failures.
             self.process_snapshot_progress();
-- 
2.43.0


From cb007da5e76922a32223c15cade1d833e9330b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 35/38] fix: do not process snapshots before replica is started

---
 runtime/src/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index d4dceed..5b2f454 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -964,6 +964,7 @@ impl<
         &mut self,
         deliver_snapshot_request: DeliverSnapshotRequest,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1004,6 +1005,7 @@ impl<
         &mut self,
         deliver_snapshot_response: DeliverSnapshotResponse,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         let message =
             self.communication
@@ -1042,6 +1044,7 @@ impl<
         &mut self,
         deliver_snapshot_failure: DeliverSnapshotFailure,
     ) -> Result<(), PalError> {
+        self.check_driver_started()?;
         self.check_non_ephemeral()?;
         match self.snapshot.mut_processor(self.instant) {
             SnapshotProcessorRole::Sender(sender) => sender.process_response(
@@ -1098,6 +1101,10 @@ impl<
     }
 
     fn process_snapshot_sending(&mut self) -> Result<(), PalError> {
+        if self.driver_state != DriverState::Started {
+            return Ok(());
+        }
+
         let snapshot_messages = mem::take(&mut self.snapshots);
 
         let mut out_messages: Vec<OutgoingMessage> = Vec::new();
-- 
2.43.0


From 006c8ee44e6a8633e41b3f8c8fe377a713106dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 36/38] fix: start replica without endorsements

---
 runtime/src/driver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 5b2f454..340e79d 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -830,8 +830,9 @@ impl<
             },
         };
         communication_config.reference_values = self.actor.get_reference_values();
-        communication_config.endorsements =
-            start_replica_request.endorsements.as_ref().unwrap().clone();
+        if let Some(endorsements) = &start_replica_request.endorsements {
+            communication_config.endorsements = endorsements.clone();
+        }
         self.communication.init(
             self.id,
             self.logger.new(o!("type" => "communication")),
-- 
2.43.0


From b80e7ab9920073ae78829e02fb1f875509157612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 37/38] fix: answer cluster check on replicas without a leader

---
 runtime/src/driver.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/src/driver.rs b/runtime/src/driver.rs
index 340e79d..eb756f0 100644
--- a/runtime/src/driver.rs
+++ b/runtime/src/driver.rs
@@ -194,7 +194,8 @@ pub struct Driver<R: Raft, S: Store, P: SnapshotProcessor, A: Actor, C: Communic
     snapshot: P,
     actor: A,
     raft_state: RaftState,
-    prev_raft_state: RaftState,
+    // Last reported state of Raft, none if the state must be reported.
+    prev_raft_state: Option<RaftState>,
     raft_progress: RaftProgress,
     communication: C,
     is_ephemeral: bool,
@@ -244,7 +245,7 @@ impl<
             snapshot,
             actor,
             raft_state: RaftState::new(),
-            prev_raft_state: RaftState::new(),
+            prev_raft_state: Some(RaftState::new()),
             raft_progress: RaftProgress::new(),
             communication,
             is_ephemeral: false,
@@ -318,7 +319,7 @@ impl<
 
         self.tick_instant = self.instant;
         // No need to initially report the state of the cluster, only after the changes.
-        self.prev_raft_state = self.get_raft_state();
+        self.prev_raft_state = Some(self.get_raft_state());
 
         Ok(())
     }
@@ -696,7 +697,7 @@ impl<
     }
 
     fn reset_leader_state(&mut self) {
-        self.prev_raft_state = RaftState::new();
+        self.prev_raft_state = None;
     }
 
     fn collect_config_state(&mut self, config_state: RaftConfigState) {
@@ -706,11 +707,11 @@ impl<
     fn stash_leader_state(&mut self) {
         self.raft_state = self.get_raft_state();
 
-        if self.prev_raft_state == self.raft_state {
+        if self.prev_raft_state.as_ref() == Some(&self.raft_state) {
             return;
         }
 
-        self.prev_raft_state = self.raft_state.clone();
+        self.prev_raft_state = Some(self.raft_state.clone());
 
         // Update snapshot processor with the latest raft cluster state.
         self.update_snapshot_cluster_change();
@@ -729,7 +730,7 @@ impl<
     }
 
     fn preset_state_machine(&mut self, instant: u64) {
-        self.prev_raft_state = self.raft_state.clone();
+        self.prev_raft_state = Some(self.raft_state.clone());
         self.instant = cmp::max(self.instant, instant);
         let instant = self.instant;
         let leader = self.check_raft_leadership();
-- 
2.43.0


From 711ac3f43482165f3e8e66848334b806d55a304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:26 +0000
Subject: [PATCH 38/38] fix: a call whose caller went away ended the replica

---
 runtime/src/service.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/service.rs b/runtime/src/service.rs
index 912dda8..ccc0ee8 100644
--- a/runtime/src/service.rs
+++ b/runtime/src/service.rs
@@ -191,10 +191,10 @@ impl TonicApplicationService {
             driver
                 .receive_message(&mut host, request.instant, request.message)
                 .expect("application has encountered an unrecoverable error");
-            tx.send(Ok(ReceiveMessageResponse {
+            // The call may have been cancelled meanwhile, then nobody waits for the response.
+            let _ = tx.send(Ok(ReceiveMessageResponse {
                 messages: host.take_messages(),
-            }))
-            .expect("failed to send receive_message response");
+            }));
         }
     }
 
-- 
2.43.0

