From 7aa1b6df236b5e755c12185c64a9d1e17f19e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 01/21] fix: a suspended scan no longer blocks the memtable
 seal

A scan kept the memtable's RwLock read guard across await points, so sealing
(on capacity or policy) from the same thread or task chain waited for a reader
that could only resume after the writer finished. Scans now pin the current
state with an Arc; sealing swaps in a fresh state.
---
 src/inmem/mutable/memtable.rs | 75 +++++++++++++++++------------------
 src/inmem/mutable/metrics.rs  |  7 ----
 2 files changed, 36 insertions(+), 46 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..8a39a72 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -14,7 +14,7 @@ use arrow_array::{Array, RecordBatch, UInt64Array};
 use arrow_schema::{ArrowError, SchemaRef};
 use arrow_select::concat::concat_batches;
 use crossbeam_skiplist::SkipMap;
-use parking_lot::{RwLock, RwLockReadGuard, RwLockUpgradableReadGuard};
+use parking_lot::{RwLock, RwLockUpgradableReadGuard};
 use typed_arrow_dyn::{DynProjection, DynRowRaw, DynSchema, DynViewError};
 
 use super::MutableMemTableMetrics;
@@ -288,9 +288,11 @@ impl DynMemInner {
         Ok(Ok(()))
     }
 
-    /// Seal into immutable, resetting this inner state.
+    /// Build an immutable memtable holding every entry of this state.
+    ///
+    /// The caller replaces the state afterwards; scans that still hold it keep reading it.
     fn seal(
-        &mut self,
+        &self,
         schema: &SchemaRef,
         extractor: &dyn KeyProjection,
     ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
@@ -306,11 +308,9 @@ impl DynMemInner {
             })
         };
 
-        // Take ownership of the index. SkipMap iteration is already sorted by
-        // KeyTsOwned's Ord impl: (key ascending, timestamp descending).
-        // No additional sorting is needed.
-        let index = std::mem::replace(&mut self.index, SkipMap::new());
-        let entry_count = index.len();
+        // SkipMap iteration is already sorted by KeyTsOwned's Ord impl:
+        // (key ascending, timestamp descending). No additional sorting is needed.
+        let entry_count = self.index.len();
 
         // Pre-allocate vectors with known capacity to avoid reallocations.
         let mut slices = Vec::with_capacity(entry_count);
@@ -329,9 +329,9 @@ impl DynMemInner {
 
         // Single pass: extract row slices and collect metadata.
         // SkipMap iterates in sorted order (key asc, ts desc) - no sort needed.
-        for (view, mutation) in index.into_iter() {
-            let ts = view.timestamp();
-            match mutation {
+        for entry in self.index.iter() {
+            let ts = entry.key().timestamp();
+            match entry.value() {
                 DynMutation::Upsert(loc) => {
                     let attachment = self.batch_slots[loc.batch_idx]
                         .get()
@@ -359,22 +359,6 @@ impl DynMemInner {
             }
         }
 
-        // Reset batch slots by replacing with fresh OnceLocks.
-        let capacity = self.batch_slots.len();
-        let fresh_batch_slots: Vec<OnceLock<BatchAttachment>> =
-            (0..capacity).map(|_| OnceLock::new()).collect();
-        self.batch_slots = fresh_batch_slots.into_boxed_slice();
-        self.batch_cursor.store(0, Ordering::SeqCst);
-
-        // Reset delete slots by replacing with fresh OnceLocks.
-        let delete_capacity = self.delete_slots.len();
-        let fresh_delete_slots: Vec<OnceLock<DeleteAttachment>> =
-            (0..delete_capacity).map(|_| OnceLock::new()).collect();
-        self.delete_slots = fresh_delete_slots.into_boxed_slice();
-        self.delete_cursor.store(0, Ordering::SeqCst);
-
-        self.metrics.reset_counters();
-
         let batch = if slices.is_empty() {
             RecordBatch::new_empty(schema.clone())
         } else if slices.len() == 1 {
@@ -596,7 +580,9 @@ impl DynMemInner {
 /// - Uses lock-free batch slot reservation for high-throughput concurrent inserts.
 /// - Automatically seals into immutable when capacity is exhausted.
 pub struct DynMem {
-    inner: RwLock<DynMemInner>,
+    /// Current state. Sealing swaps in a fresh state rather than waiting for readers, so a scan
+    /// that is suspended while holding a read guard never blocks writers.
+    inner: RwLock<Arc<DynMemInner>>,
     extractor: Arc<dyn KeyProjection>,
     delete_projection: Arc<dyn KeyProjection>,
     schema: SchemaRef,
@@ -621,7 +607,7 @@ impl DynMem {
         capacity: usize,
     ) -> Self {
         Self {
-            inner: RwLock::new(DynMemInner::new(capacity)),
+            inner: RwLock::new(Arc::new(DynMemInner::new(capacity))),
             extractor,
             delete_projection,
             schema,
@@ -631,12 +617,11 @@ impl DynMem {
 
     /// Acquire a read guard for scanning operations.
     ///
-    /// The returned guard keeps the memtable locked for reading, allowing
-    /// concurrent reads but blocking writes. Use this for scan operations
-    /// that need to hold a consistent view.
+    /// The returned guard pins the current state without holding the lock, so it may be kept
+    /// across await points: inserts stay possible and a seal leaves the pinned state readable.
     pub(crate) fn read(&self) -> DynMemReadGuard<'_> {
         DynMemReadGuard {
-            guard: self.inner.read(),
+            guard: Arc::clone(&self.inner.read()),
             schema: &self.schema,
         }
     }
@@ -695,7 +680,7 @@ impl DynMem {
         let mut write_guard = RwLockUpgradableReadGuard::upgrade(guard);
 
         // Seal the current state
-        let sealed = write_guard.seal(&self.schema, self.extractor.as_ref())?;
+        let sealed = self.seal_locked(&mut write_guard)?;
 
         // Now retry the insert on the fresh state
         match write_guard.try_insert_batch(self.extractor.as_ref(), batch, commit_ts_column) {
@@ -731,7 +716,7 @@ impl DynMem {
         }
 
         let mut write_guard = RwLockUpgradableReadGuard::upgrade(guard);
-        let sealed = write_guard.seal(&self.schema, self.extractor.as_ref())?;
+        let sealed = self.seal_locked(&mut write_guard)?;
 
         match write_guard.try_insert_delete_batch(self.delete_projection.as_ref(), batch) {
             Ok(Ok(())) => Ok(sealed),
@@ -747,7 +732,19 @@ impl DynMem {
     /// Returns `None` if the memtable was empty.
     pub(crate) fn seal_now(&self) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
         let mut guard = self.inner.write();
-        guard.seal(&self.schema, self.extractor.as_ref())
+        self.seal_locked(&mut guard)
+    }
+
+    /// Seal `current` and replace it with an empty state; the caller holds the write lock.
+    fn seal_locked(
+        &self,
+        current: &mut Arc<DynMemInner>,
+    ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
+        let sealed = current.seal(&self.schema, self.extractor.as_ref())?;
+        if sealed.is_some() {
+            *current = Arc::new(DynMemInner::new(self.capacity));
+        }
+        Ok(sealed)
     }
 
     /// Return `true` if there is any committed version for `key` newer than `snapshot_ts`.
@@ -782,8 +779,8 @@ impl DynMem {
     /// the same time the batches are released.
     #[cfg(test)]
     pub(crate) fn into_attached_batches(self) -> Vec<RecordBatch> {
-        self.inner
-            .into_inner()
+        Arc::into_inner(self.inner.into_inner())
+            .expect("no outstanding read guard")
             .batch_slots
             .into_vec()
             .into_iter()
@@ -805,7 +802,7 @@ impl DynMem {
 
 /// Guard providing read access to the memtable's inner state.
 pub struct DynMemReadGuard<'a> {
-    guard: RwLockReadGuard<'a, DynMemInner>,
+    guard: Arc<DynMemInner>,
     schema: &'a SchemaRef,
 }
 
diff --git a/src/inmem/mutable/metrics.rs b/src/inmem/mutable/metrics.rs
index 6119332..adeaf36 100644
--- a/src/inmem/mutable/metrics.rs
+++ b/src/inmem/mutable/metrics.rs
@@ -49,13 +49,6 @@ impl MutableMemTableMetrics {
             entry_overhead: self.entry_overhead.load(Ordering::Relaxed),
         }
     }
-
-    pub(crate) fn reset_counters(&self) {
-        self.entries.store(0, Ordering::Relaxed);
-        self.inserts.store(0, Ordering::Relaxed);
-        self.replaces.store(0, Ordering::Relaxed);
-        self.approx_key_bytes.store(0, Ordering::Relaxed);
-    }
 }
 
 impl Default for MutableMemTableMetrics {
-- 
2.43.0


From 69f5f3c49206c7cf03be1b91aaa43dbc2c7a74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:53 +0000
Subject: [PATCH 02/21] hook: simulation-only sizing knobs behind --cfg
 tonbo_sim

---
 src/db/scan.rs                | 12 ++++++++++--
 src/inmem/mutable/memtable.rs |  4 ++++
 src/inmem/policy.rs           |  4 ++++
 src/lib.rs                    |  5 +++++
 src/ondisk/sstable.rs         |  7 ++++++-
 src/sim.rs                    | 33 +++++++++++++++++++++++++++++++++
 6 files changed, 62 insertions(+), 3 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/db/scan.rs b/src/db/scan.rs
index b5b0987..03da371 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -124,6 +124,14 @@ where
 /// Default package size for a scan
 pub const DEFAULT_SCAN_BATCH_ROWS: usize = 1024;
 
+fn scan_batch_rows() -> usize {
+    #[cfg(tonbo_sim)]
+    if let Some(rows) = crate::sim::knobs().scan_batch_rows {
+        return rows;
+    }
+    DEFAULT_SCAN_BATCH_ROWS
+}
+
 /// Setup-phase timing breakdown for a single scan stream construction.
 ///
 /// Values are measured in nanoseconds and cover setup work before consuming
@@ -641,7 +649,7 @@ where
             .await
             .map_err(crate::db::DBError::from)?;
         let package = PackageStream::with_limit(
-            DEFAULT_SCAN_BATCH_ROWS,
+            scan_batch_rows(),
             merge,
             Arc::clone(&scan_schema),
             Arc::clone(&result_projection),
@@ -1191,7 +1199,7 @@ where
     profile.merge_init_ns = duration_ns_u64(merge_started.elapsed());
     let package_started = Instant::now();
     let package = PackageStream::with_limit(
-        DEFAULT_SCAN_BATCH_ROWS,
+        scan_batch_rows(),
         merge,
         Arc::clone(&scan_schema),
         Arc::clone(&result_projection),
diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 8a39a72..473dc24 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -596,6 +596,10 @@ impl DynMem {
         extractor: Arc<dyn KeyProjection>,
         delete_projection: Arc<dyn KeyProjection>,
     ) -> Self {
+        #[cfg(tonbo_sim)]
+        if let Some(capacity) = crate::sim::knobs().mem_batch_slots {
+            return Self::with_capacity(schema, extractor, delete_projection, capacity);
+        }
         Self::with_capacity(schema, extractor, delete_projection, DEFAULT_BATCH_CAPACITY)
     }
 
diff --git a/src/inmem/policy.rs b/src/inmem/policy.rs
index 9233f20..571f4e2 100644
--- a/src/inmem/policy.rs
+++ b/src/inmem/policy.rs
@@ -98,6 +98,10 @@ impl SealPolicy for NeverSeal {
 /// policy via `DB::set_seal_policy`.
 pub fn default_policy() -> Arc<dyn SealPolicy + Send + Sync> {
     use std::time::Duration;
+    #[cfg(tonbo_sim)]
+    if let Some(batches) = crate::sim::knobs().seal_batches {
+        return Arc::new(BatchesThreshold { batches });
+    }
     Arc::new(AnyOf::new(vec![
         Arc::new(BytesThreshold {
             limit: 64 * 1024 * 1024, // ~64 MiB
diff --git a/src/lib.rs b/src/lib.rs
index 3e0b47b..776337d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -248,6 +248,11 @@ mod observability;
 pub mod prelude;
 pub mod schema;
 
+/// Simulation-only tuning knobs.
+#[cfg(tonbo_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 #[cfg(test)]
 /// Test helper re-exports for crate-internal tests.
 pub mod test {
diff --git a/src/ondisk/sstable.rs b/src/ondisk/sstable.rs
index 9e24702..df672c8 100644
--- a/src/ondisk/sstable.rs
+++ b/src/ondisk/sstable.rs
@@ -104,7 +104,7 @@ pub struct SsTableConfig {
 impl SsTableConfig {
     /// Build a new configuration bundle for an SSTable.
     pub fn new(schema: SchemaRef, fs: Arc<dyn DynFs>, root: Path) -> Self {
-        Self {
+        let config = Self {
             schema,
             target_level: 0,
             compression: SsTableCompression::default(),
@@ -113,7 +113,12 @@ impl SsTableConfig {
             key_extractor: None,
             merge_iteration_budget: DEFAULT_MERGE_ITERATION_BUDGET,
             max_row_group_rows: DEFAULT_MAX_ROW_GROUP_ROWS,
+        };
+        #[cfg(tonbo_sim)]
+        if let Some(rows) = crate::sim::knobs().row_group_rows {
+            return config.with_max_row_group_rows(rows);
         }
+        config
     }
 
     /// Set the target compaction level for the table being produced.
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..b0b03bd
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,33 @@
+//! Tuning knobs for deterministic simulation.
+//!
+//! Compiled only with `--cfg tonbo_sim`. A simulator sets the knobs for its own thread before it
+//! opens a database; an unset knob leaves the shipped default in place.
+
+use std::cell::Cell;
+
+/// Per-thread overrides of internal sizing defaults.
+#[derive(Clone, Copy, Debug, Default)]
+pub struct Knobs {
+    /// Seal the mutable memtable once it holds this many batches.
+    pub seal_batches: Option<usize>,
+    /// Batch slots per mutable memtable.
+    pub mem_batch_slots: Option<usize>,
+    /// Rows per Parquet row group in newly written SSTs.
+    pub row_group_rows: Option<usize>,
+    /// Rows per record batch yielded by a scan.
+    pub scan_batch_rows: Option<usize>,
+}
+
+thread_local! {
+    static KNOBS: Cell<Knobs> = Cell::new(Knobs::default());
+}
+
+/// Replace the knobs of the current thread.
+pub fn set_knobs(knobs: Knobs) {
+    KNOBS.with(|cell| cell.set(knobs));
+}
+
+/// Knobs of the current thread.
+pub(crate) fn knobs() -> Knobs {
+    KNOBS.with(Cell::get)
+}
-- 
2.43.0


From a8cd80b3e1dc38fcbbff4b716e2f96b7279b864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:46 +0000
Subject: [PATCH 03/21] fix: collecting wal refs no longer rewrites the live
 tail, and restarts never reuse provisional ids

---
 src/wal/manifest_ext.rs |  34 ++-------
 src/wal/storage.rs      | 153 ++++++++++++++++++++++++++++------------
 2 files changed, 116 insertions(+), 71 deletions(-)

diff --git a/src/wal/manifest_ext.rs b/src/wal/manifest_ext.rs
index 3950b90..f841654 100644
--- a/src/wal/manifest_ext.rs
+++ b/src/wal/manifest_ext.rs
@@ -23,40 +23,20 @@ pub(crate) async fn collect_wal_segment_refs(
         .await?
         .and_then(|handle| handle.state().last_segment_seq);
 
-    let Some(tail) = storage.tail_metadata_with_hint(wal_state_hint).await? else {
-        return Ok(Vec::new());
-    };
-
+    // The writer keeps appending and other flushes keep pruning while this runs, so only look at
+    // the segments: rewriting the tail here would discard frames the writer already acknowledged.
+    let segments = storage.list_segments_with_hint(wal_state_hint).await?;
     let mut refs = Vec::with_capacity(2);
     let manifest_cutoff = manifest_floor.map(|f| f.seq());
-    for descriptor in tail
-        .completed
-        .iter()
-        .filter(|descriptor| descriptor.bytes > 0)
-    {
-        let bounds = storage
-            .segment_frame_bounds(&descriptor.path)
-            .await?
-            .ok_or({
-                WalError::Corrupt("wal segment contained no frames despite non-zero length")
-            })?;
+    for descriptor in &segments {
+        let Some(bounds) = storage.live_segment_frame_bounds(&descriptor.path).await? else {
+            continue;
+        };
         if segment_required(descriptor.seq, &bounds, manifest_cutoff, live_frame_floor) {
             refs.push(wal_segment_ref_from_descriptor(descriptor, bounds));
         }
     }
 
-    if tail.active.bytes > 0 {
-        let bounds = storage
-            .segment_frame_bounds(&tail.active.path)
-            .await?
-            .ok_or({
-                WalError::Corrupt("active wal segment contained no frames despite non-zero length")
-            })?;
-        if segment_required(tail.active.seq, &bounds, manifest_cutoff, live_frame_floor) {
-            refs.push(wal_segment_ref_from_descriptor(&tail.active, bounds));
-        }
-    }
-
     // Note: We intentionally don't re-add the old floor when refs is empty.
     // If no segments are required (all data persisted), the floor should be cleared.
     // This ensures WAL replay doesn't replay already-persisted data.
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..b26fdc7 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -161,8 +161,17 @@ impl WalStorage {
             if descriptor.seq >= floor_seq {
                 continue;
             }
-            self.remove_segment(&descriptor.path).await?;
-            removed += 1;
+            match self.fs.remove(&descriptor.path).await {
+                Ok(()) => removed += 1,
+                // Another prune got to it first.
+                Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => {}
+                Err(err) => {
+                    return Err(WalError::Storage(format!(
+                        "failed to remove wal segment {}: {}",
+                        descriptor.path, err
+                    )));
+                }
+            }
         }
         Ok(removed)
     }
@@ -175,26 +184,52 @@ impl WalStorage {
         &self,
         path: &Path,
     ) -> WalResult<Option<SegmentFrameBounds>> {
-        let mut file = self
-            .fs
-            .open_options(path, Self::read_options())
-            .await
-            .map_err(|err| {
-                WalError::Storage(format!(
+        match self.read_segment(path).await? {
+            Some(data) => decode_frame_bounds(&data),
+            None => Err(WalError::Storage(format!(
+                "failed to open wal segment {} for frame bounds: not found",
+                path
+            ))),
+        }
+    }
+
+    /// Decode the bounds of the complete frames in a segment that a writer may be appending to or
+    /// a pruner removing right now. Never modifies the segment: a frame that is still being
+    /// written is ignored, and a segment that is gone has no bounds.
+    pub(crate) async fn live_segment_frame_bounds(
+        &self,
+        path: &Path,
+    ) -> WalResult<Option<SegmentFrameBounds>> {
+        let Some(data) = self.read_segment(path).await? else {
+            return Ok(None);
+        };
+        match decode_complete_frame_bounds(&data) {
+            (bounds, None) => Ok(bounds),
+            (bounds, Some(err)) if is_truncated_frame(&err) => Ok(bounds),
+            (_, Some(err)) => Err(err),
+        }
+    }
+
+    /// Read a whole segment, or `None` when it does not exist.
+    async fn read_segment(&self, path: &Path) -> WalResult<Option<Vec<u8>>> {
+        let mut file = match self.fs.open_options(path, Self::read_options()).await {
+            Ok(file) => file,
+            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => return Ok(None),
+            Err(err) => {
+                return Err(WalError::Storage(format!(
                     "failed to open wal segment {} for frame bounds: {}",
                     path, err
-                ))
-            })?;
+                )));
+            }
+        };
 
         let (read_res, data) = file.read_to_end_at(Vec::new(), 0).await;
-        let data = read_res.map(|_| data).map_err(|err| {
+        read_res.map(|_| Some(data)).map_err(|err| {
             WalError::Storage(format!(
                 "failed to read wal segment {} for frame bounds: {}",
                 path, err
             ))
-        })?;
-
-        decode_frame_bounds(&data)
+        })
     }
 
     fn should_attempt_fallback(
@@ -257,7 +292,11 @@ impl WalStorage {
         Ok(entries)
     }
 
-    /// Inspect the WAL tail while hinting at the highest expected sealed segment.
+    /// Inspect the WAL tail while hinting at the highest expected sealed segment, dropping a torn
+    /// frame left at the end of the active segment.
+    ///
+    /// Must only be called before a writer owns the segments: the writer's own half-written frame
+    /// is indistinguishable from a torn one.
     pub(crate) async fn tail_metadata_with_hint(
         &self,
         wal_state_hint: Option<u64>,
@@ -271,15 +310,30 @@ impl WalStorage {
         let completed = segments;
         let TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
         } = self.scan_tail(&active.path).await?;
 
-        let last_frame_seq = last.as_ref().map(|meta| meta.seq);
-        let last_provisional_id = last.as_ref().and_then(|meta| meta.provisional_id);
+        let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
+        let mut last_provisional_id = max_provisional_id;
         let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
 
+        // Older segments still hold frames that replay pairs up by provisional id, and they alone
+        // know the last frame sequence when the active segment is empty.
+        for descriptor in completed.iter().rev() {
+            let scan = match self.scan_tail(&descriptor.path).await {
+                Ok(scan) => scan,
+                Err(WalError::Corrupt(_)) => continue,
+                Err(err) => return Err(err),
+            };
+            if last_frame_seq.is_none() {
+                last_frame_seq = scan.last.as_ref().map(|meta| meta.seq);
+            }
+            last_provisional_id = last_provisional_id.max(scan.max_provisional_id);
+        }
+
         let mut truncated_tail = truncated;
         if !truncated_tail {
             if let Some(offset) = last_valid_offset {
@@ -335,6 +389,7 @@ impl WalStorage {
         let file_len = data.len();
         let mut offset = 0usize;
         let mut last = None;
+        let mut max_provisional_id = None;
         let mut truncated = false;
         while offset < data.len() {
             let slice = &data[offset..];
@@ -371,9 +426,9 @@ impl WalStorage {
                 _ => None,
             };
 
+            max_provisional_id = max_provisional_id.max(provisional_id);
             last = Some(FrameTailMeta {
                 seq: header.seq,
-                provisional_id,
                 end_offset: payload_end,
             });
             offset = payload_end;
@@ -391,6 +446,7 @@ impl WalStorage {
 
         Ok(TailScan {
             last,
+            max_provisional_id,
             file_len,
             truncated,
             buffer,
@@ -435,16 +491,17 @@ impl WalStorage {
         let Some(seq) = segment_sequence(path.filename()) else {
             return Ok(None);
         };
-        let file = self
-            .fs
-            .open_options(&path, Self::read_options())
-            .await
-            .map_err(|err| {
-                WalError::Storage(format!(
+        let file = match self.fs.open_options(&path, Self::read_options()).await {
+            Ok(file) => file,
+            // Pruned between the listing and this open.
+            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => return Ok(None),
+            Err(err) => {
+                return Err(WalError::Storage(format!(
                     "failed to open wal segment {} for size: {}",
                     path, err
-                ))
-            })?;
+                )));
+            }
+        };
         let size = file
             .size()
             .await
@@ -460,12 +517,12 @@ impl WalStorage {
 
 struct FrameTailMeta {
     seq: u64,
-    provisional_id: Option<u64>,
     end_offset: usize,
 }
 
 struct TailScan {
     last: Option<FrameTailMeta>,
+    max_provisional_id: Option<u64>,
     file_len: usize,
     truncated: bool,
     buffer: Option<Vec<u8>>,
@@ -526,34 +583,42 @@ pub(crate) struct TailMetadata {
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
     pub(super) last_frame_seq: Option<u64>,
-    /// Provisional ID carried by the last complete frame (if any).
+    /// Highest provisional ID carried by any complete frame still on disk (if any).
     pub(super) last_provisional_id: Option<u64>,
 }
 
 fn decode_frame_bounds(data: &[u8]) -> WalResult<Option<SegmentFrameBounds>> {
-    if data.is_empty() {
-        return Ok(None);
+    match decode_complete_frame_bounds(data) {
+        (bounds, None) => Ok(bounds),
+        (_, Some(err)) => Err(err),
     }
+}
 
+/// Bounds of the frames that decode, along with the error that ended decoding early (if any).
+fn decode_complete_frame_bounds(data: &[u8]) -> (Option<SegmentFrameBounds>, Option<WalError>) {
     let mut remaining = data;
-    let mut first = None;
-    let mut last = None;
+    let mut bounds: Option<SegmentFrameBounds> = None;
     while !remaining.is_empty() {
-        let (header, rest) = FrameHeader::decode_from(remaining)?;
-        if first.is_none() {
-            first = Some(header.seq);
-        }
-        last = Some(header.seq);
+        let (header, rest) = match FrameHeader::decode_from(remaining) {
+            Ok(decoded) => decoded,
+            Err(err) => return (bounds, Some(err)),
+        };
+        bounds
+            .get_or_insert(SegmentFrameBounds {
+                first_seq: header.seq,
+                last_seq: header.seq,
+            })
+            .last_seq = header.seq;
         remaining = rest;
     }
+    (bounds, None)
+}
 
-    match (first, last) {
-        (Some(first_seq), Some(last_seq)) => Ok(Some(SegmentFrameBounds {
-            first_seq,
-            last_seq,
-        })),
-        _ => Ok(None),
-    }
+fn is_truncated_frame(err: &WalError) -> bool {
+    matches!(
+        err,
+        WalError::Corrupt("frame header truncated" | "frame payload truncated")
+    )
 }
 
 fn segment_sequence(filename: Option<&str>) -> Option<u64> {
-- 
2.43.0


From 539469baa9ad1405173fbd740ecd84e66800a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:22 +0000
Subject: [PATCH 04/21] fix: concurrent manifest edits of one process no longer
 fail each other

A flush and a transaction commit that publish at the same time raced on the
manifest head, and the loser's caller got 'precondition failed' for a write
that was durable and visible.
---
 src/manifest/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index 3fb9dd6..2aa7e31 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -12,6 +12,7 @@ use fusio_manifest::{
     snapshot::{ScanRange, Snapshot},
     types::Error as FusioManifestError,
 };
+use futures::lock::Mutex as AsyncMutex;
 use thiserror::Error;
 use tracing::instrument;
 
@@ -104,6 +105,9 @@ where
     E: Executor + Timer + Clone + 'static,
 {
     inner: FusioManifest<C::Key, C::Value, HS, SS, CS, LS, E, DefaultRetention>,
+    /// Serialises edits issued by this process: writers racing on the head would otherwise fail
+    /// with a precondition error although nothing is wrong.
+    edit_lock: Arc<AsyncMutex<()>>,
 }
 
 impl<C, HS, SS, CS, LS, E> Manifest<C, HS, SS, CS, LS, E>
@@ -129,6 +133,7 @@ where
                 stores.lease,
                 ctx,
             ),
+            edit_lock: Arc::new(AsyncMutex::new(())),
         }
     }
 }
@@ -191,6 +196,7 @@ where
             cas = expected_head.is_some(),
         );
 
+        let _edit_guard = self.edit_lock.lock().await;
         let mut session = self.inner.session_write().await?;
 
         let head_key = VersionKey::TableHead { table_id: table };
@@ -652,6 +658,7 @@ where
     fn clone(&self) -> Self {
         Self {
             inner: self.inner.clone(),
+            edit_lock: Arc::clone(&self.edit_lock),
         }
     }
 }
-- 
2.43.0


From 763783cfebe5a72d5ddd281fd2d7bedff9e30f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 05/21] fix: a wal segment pruned while being listed is skipped
 on local filesystems too

---
 src/wal/storage.rs | 11 ++++++-----
 src/wal/writer.rs  |  5 ++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index b26fdc7..64a6e8c 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -1,6 +1,6 @@
 //! Storage glue that relies directly on fusio traits.
 
-use std::{io, sync::Arc};
+use std::sync::Arc;
 
 use fusio::{
     DynFs, Read, Write,
@@ -15,6 +15,7 @@ use crate::wal::{
     WalError, WalResult,
     frame::{FRAME_HEADER_SIZE, FrameHeader},
     state::{WalStateHandle, WalStateStore},
+    writer::is_not_found,
 };
 
 /// Shared storage facade for WAL segments backed by fusio.
@@ -115,7 +116,7 @@ impl WalStorage {
         let mut entries = Vec::new();
         let mut stream = match self.fs.list(&self.root).await {
             Ok(stream) => stream,
-            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => {
+            Err(err) if is_not_found(&err) => {
                 return Ok(entries);
             }
             Err(err) => {
@@ -164,7 +165,7 @@ impl WalStorage {
             match self.fs.remove(&descriptor.path).await {
                 Ok(()) => removed += 1,
                 // Another prune got to it first.
-                Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => {}
+                Err(err) if is_not_found(&err) => {}
                 Err(err) => {
                     return Err(WalError::Storage(format!(
                         "failed to remove wal segment {}: {}",
@@ -214,7 +215,7 @@ impl WalStorage {
     async fn read_segment(&self, path: &Path) -> WalResult<Option<Vec<u8>>> {
         let mut file = match self.fs.open_options(path, Self::read_options()).await {
             Ok(file) => file,
-            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => return Ok(None),
+            Err(err) if is_not_found(&err) => return Ok(None),
             Err(err) => {
                 return Err(WalError::Storage(format!(
                     "failed to open wal segment {} for frame bounds: {}",
@@ -494,7 +495,7 @@ impl WalStorage {
         let file = match self.fs.open_options(&path, Self::read_options()).await {
             Ok(file) => file,
             // Pruned between the listing and this open.
-            Err(FusioError::Io(err)) if err.kind() == io::ErrorKind::NotFound => return Ok(None),
+            Err(err) if is_not_found(&err) => return Ok(None),
             Err(err) => {
                 return Err(WalError::Storage(format!(
                     "failed to open wal segment {} for size: {}",
diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index fd6d505..76926f3 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -1204,7 +1204,7 @@ async fn self_initial_size(
     }
 }
 
-fn is_not_found(err: &FusioError) -> bool {
+pub(super) fn is_not_found(err: &FusioError) -> bool {
     fn inner_contains(not_found: &str, err: &dyn Error) -> bool {
         if err.to_string().contains(not_found) {
             return true;
@@ -1224,6 +1224,9 @@ fn is_not_found(err: &FusioError) -> bool {
             inner_contains("404", inner.as_ref()) || inner_contains("NotFound", inner.as_ref())
         }
         FusioError::Io(io_err) => io_err.kind() == io::ErrorKind::NotFound,
+        FusioError::Path(inner) => inner
+            .downcast_ref::<io::Error>()
+            .is_some_and(|io_err| io_err.kind() == io::ErrorKind::NotFound),
         _ => false,
     }
 }
-- 
2.43.0


From 1aa8dce1671dffa0abdf6bc2cad3e1a7304ff05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 06/21] fix: commits in flight keep their wal frames and become
 visible in timestamp order

A timestamp is allocated before the rows are logged and applied. Snapshots therefore
saw commits appear below their read timestamp, and a flush computed the WAL floor
without the frames of commits that were durable but not applied yet, or of immutables
it did not flush, so acknowledged rows lost their WAL before reaching an SST. Recovery
gave rows sealed during replay no WAL range, and could restart the clock below
timestamps already stored in SSTs.
---
 src/db/builder.rs      |   4 +
 src/db/mod.rs          | 103 +++++++++++++++++-----
 src/db/wal.rs          |  39 ++++++---
 src/mvcc/mod.rs        | 191 ++++++++++++++++++++++++++++++++++-------
 src/transaction/mod.rs |  27 ++++--
 5 files changed, 295 insertions(+), 69 deletions(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 701f7ca..7dc0fb5 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -1140,6 +1140,10 @@ where
             wal_cfg.clone(),
             executor,
         );
+        inner
+            .advance_clock_past_manifest()
+            .await
+            .map_err(DbBuildError::Manifest)?;
 
         inner.minor_compaction = minor_compaction_state;
         if let Some(options) = compaction_options.as_ref() {
diff --git a/src/db/mod.rs b/src/db/mod.rs
index 6b9c595..8583382 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -60,7 +60,7 @@ use crate::{
         ManifestError, ManifestFs, SstEntry, TableId, TableMeta, TonboManifest, VersionEdit,
         WalSegmentRef,
     },
-    mvcc::{CommitClock, ReadView, Timestamp},
+    mvcc::{CommitClock, CommitTicket, ReadView, Timestamp},
     ondisk::{
         bloom::{BloomFilterCache, default_bloom_cache},
         metadata::{ParquetMetadataCache, default_parquet_metadata_cache},
@@ -733,31 +733,42 @@ where
         );
         db.set_wal_config(Some(wal_cfg.clone()));
 
-        let wal_floor = db.manifest_wal_floor().await;
+        let wal_floor = db
+            .try_manifest_wal_floor()
+            .await
+            .map_err(manifest_error_as_key_extract)?;
         let replayer = Replayer::new(wal_cfg);
         let events = replayer
             .scan_with_floor(wal_floor.as_ref())
             .await
             .map_err(KeyExtractError::from)?;
-        if events.is_empty() {
-            db.set_mutable_wal_range(None);
+        // The replayed rows may come from any frame the scan covered: whichever memtable they end
+        // up in, the WAL must be kept from the first of those frames until that memtable is flushed.
+        let replay_range = if events.is_empty() {
+            None
         } else if let Some(ref floor_ref) = wal_floor {
-            db.set_mutable_wal_range(Some(WalFrameRange {
+            Some(WalFrameRange {
                 first: floor_ref.first_frame(),
                 last: floor_ref.last_frame(),
-            }));
+            })
         } else {
-            db.set_mutable_wal_range(Some(WalFrameRange {
+            Some(WalFrameRange {
                 first: INITIAL_FRAME_SEQ,
                 last: INITIAL_FRAME_SEQ,
-            }));
-        }
+            })
+        };
 
         let last_commit_ts = db.replay_wal_events(events)?;
-        let effective_commit = last_commit_ts.or(state_commit_hint);
-        if let Some(ts) = effective_commit {
-            db.commit_clock.advance_to_at_least(ts.saturating_add(1));
+        db.set_mutable_wal_range(replay_range);
+        for range in &mut db.seal_state_lock().immutable_wal_ranges {
+            *range = replay_range;
+        }
+        if let Some(ts) = last_commit_ts.max(state_commit_hint) {
+            db.commit_clock.advance_to_at_least(ts.next());
         }
+        db.advance_clock_past_manifest()
+            .await
+            .map_err(manifest_error_as_key_extract)?;
 
         Ok(db)
     }
@@ -773,7 +784,8 @@ where
 
         self.apply_l0_backpressure().await?;
 
-        let commit_ts = self.next_commit_ts();
+        let commit = self.begin_commit();
+        let commit_ts = commit.commit_ts();
         let mut wal_spans: Vec<(u64, u64)> = Vec::new();
         if let Some(handle) = self.wal_handle().cloned() {
             let provisional_id = handle.next_provisional_id();
@@ -793,11 +805,18 @@ where
         // Record WAL spans BEFORE insert that may trigger auto-seal.
         // If we record after, a sealed segment would miss the current batch's frames,
         // causing WAL GC to prematurely delete frames needed for recovery.
+        for (first, last) in &wal_spans {
+            self.observe_mutable_wal_span(*first, *last);
+        }
+        self.insert_into_mutable(batch, commit_ts)?;
+        // An auto-seal leaves this batch in the fresh memtable but took the range along.
         for (first, last) in wal_spans {
             self.observe_mutable_wal_span(first, last);
         }
-        self.insert_into_mutable(batch, commit_ts)?;
+        drop(commit);
         self.maybe_seal_after_insert()?;
+        // Readers see commits in timestamp order: acknowledge once they can see this one.
+        self.commit_settled(commit_ts).await;
         self.maybe_run_minor_compaction().await.map_err(|err| {
             KeyExtractError::Arrow(ArrowError::ComputeError(format!(
                 "minor compaction failed: {err}"
@@ -823,8 +842,7 @@ where
             .manifest
             .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
             .await?;
-        let next_ts = self.commit_clock.peek();
-        let read_ts = next_ts.saturating_sub(1);
+        let read_ts = self.commit_clock.visible();
         let read_view = ReadView::new(read_ts);
         Ok(TxSnapshot::from_table_snapshot(
             read_view,
@@ -926,7 +944,18 @@ where
             .collect())
     }
 
+    /// Start a commit: allocate its timestamp and track it until the ticket is dropped.
+    pub(crate) fn begin_commit(&self) -> CommitTicket {
+        self.commit_clock.begin()
+    }
+
+    /// Wait until readers can see everything up to `commit_ts`.
+    pub(crate) async fn commit_settled(&self, commit_ts: Timestamp) {
+        self.commit_clock.settled(commit_ts).await
+    }
+
     /// Allocate the next commit timestamp for WAL/autocommit flows.
+    #[cfg(test)]
     pub(crate) fn next_commit_ts(&self) -> Timestamp {
         self.commit_clock.alloc()
     }
@@ -1104,6 +1133,15 @@ where
             }
             (seal_read.immutables.clone(), seal_read.immutables.len())
         };
+        // Compaction keeps only the newest version of a key, so an SST must not hold a version that
+        // snapshots cannot see yet.
+        if let Some(max_commit) = immutables_snapshot
+            .iter()
+            .filter_map(|seg| seg.commit_ts_bounds().map(|(_, max)| max))
+            .max()
+        {
+            self.commit_clock.settled(max_commit).await;
+        }
         let mut builder = SsTableBuilder::new(config, descriptor);
         for seg in &immutables_snapshot {
             // Immutables are captured in seal order (oldest..newest); the SST writer
@@ -1111,8 +1149,8 @@ where
             // dedup remains deterministic across reopen/recovery boundaries.
             builder.add_immutable(seg)?;
         }
-        let existing_floor = self.manifest_wal_floor().await;
-        let live_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
+        let existing_floor = self.try_manifest_wal_floor().await?;
+        let live_floor = Some(self.wal_live_frame_floor_after_flush(flush_count));
         let (wal_ids, wal_refs) = if let Some(cfg) = &self.wal_config {
             match manifest_ext::collect_wal_segment_refs(cfg, existing_floor.as_ref(), live_floor)
                 .await
@@ -1203,12 +1241,31 @@ where
         }
     }
 
+    #[cfg(all(test, feature = "tokio"))]
     async fn manifest_wal_floor(&self) -> Option<WalSegmentRef> {
-        self.manifest
-            .wal_floor(self.manifest_table)
-            .await
-            .ok()
-            .flatten()
+        self.try_manifest_wal_floor().await.ok().flatten()
+    }
+
+    async fn try_manifest_wal_floor(&self) -> Result<Option<WalSegmentRef>, ManifestError> {
+        self.manifest.wal_floor(self.manifest_table).await
+    }
+
+    /// Make sure new commits get timestamps above everything the manifest already holds.
+    async fn advance_clock_past_manifest(&self) -> Result<(), ManifestError> {
+        let snapshot = self
+            .manifest
+            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+            .await?;
+        let newest = snapshot
+            .latest_version
+            .iter()
+            .flat_map(|version| version.ssts().iter().flatten())
+            .filter_map(|entry| entry.stats().and_then(|stats| stats.max_commit_ts))
+            .max()
+            .unwrap_or(Timestamp::MIN);
+        // Timestamp 0 is what a snapshot of the empty database reads at, so it is never assigned.
+        self.commit_clock.advance_to_at_least(newest.next());
+        Ok(())
     }
 
     /// Set or replace the sealing policy used by this DB.
diff --git a/src/db/wal.rs b/src/db/wal.rs
index 1a7e49e..e757052 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -342,20 +342,28 @@ where
     }
 
     pub(crate) fn wal_live_frame_floor(&self) -> Option<u64> {
+        self.wal_live_frame_floor_skipping(0)
+    }
+
+    /// Lowest WAL frame that is still needed once the oldest `flushed` immutables are in an SST.
+    pub(crate) fn wal_live_frame_floor_after_flush(&self, flushed: usize) -> u64 {
+        // Sampled first: a commit that starts after this point only writes frames above it.
+        let frontier = self.commit_clock.wal_frontier();
+        self.wal_live_frame_floor_skipping(flushed)
+            .map_or(frontier, |floor| floor.min(frontier))
+    }
+
+    fn wal_live_frame_floor_skipping(&self, flushed: usize) -> Option<u64> {
+        let in_flight_floor = self.commit_clock.in_flight_wal_floor();
         let mutable_floor = self.mutable_wal_range_snapshot().map(|range| range.first);
         let seal = self.seal_state_lock();
-        let immutable_floor = seal
-            .immutable_wal_ranges
+        seal.immutable_wal_ranges
             .iter()
+            .skip(flushed)
             .filter_map(|range| range.as_ref().map(|r| r.first))
-            .min();
-
-        match (mutable_floor, immutable_floor) {
-            (Some(lhs), Some(rhs)) => Some(lhs.min(rhs)),
-            (Some(lhs), None) => Some(lhs),
-            (None, Some(rhs)) => Some(rhs),
-            (None, None) => None,
-        }
+            .chain(in_flight_floor)
+            .chain(mutable_floor)
+            .min()
     }
 
     pub(crate) fn txn_publish_context(
@@ -391,6 +399,7 @@ where
     }
 
     fn record_mutable_wal_range(&self, range: WalFrameRange) {
+        self.commit_clock.observe_wal_frame(range.last);
         let mut guard = self
             .mutable_wal_range
             .lock()
@@ -440,7 +449,8 @@ where
         return Ok(());
     }
 
-    let commit_ts = db.next_commit_ts();
+    let commit = db.begin_commit();
+    let commit_ts = commit.commit_ts();
 
     let (upsert_batch, delete_batch) =
         partition_batch_for_mutations(db, batch, &tombstones, commit_ts)?;
@@ -504,7 +514,14 @@ where
             let wal_range_take = db.take_mutable_wal_range();
             db.add_immutable(sealed, wal_range_take);
         }
+        // An auto-seal leaves this batch in the fresh memtable but took the range along.
+        if let Some(range) = wal_range {
+            db.record_mutable_wal_range(range);
+        }
+        drop(commit);
         db.maybe_seal_after_insert()?;
+        // Readers see commits in timestamp order: acknowledge once they can see this one.
+        db.commit_settled(commit_ts).await;
         db.maybe_run_minor_compaction()
             .await
             .map_err(compaction_as_key_extract_error)?;
diff --git a/src/mvcc/mod.rs b/src/mvcc/mod.rs
index 39de3d2..f7a85ee 100644
--- a/src/mvcc/mod.rs
+++ b/src/mvcc/mod.rs
@@ -1,7 +1,12 @@
 //! MVCC timestamps, read visibility, and commit clock helpers.
 
-use std::fmt;
+use std::{
+    collections::BTreeMap,
+    fmt,
+    sync::{Arc, Mutex, MutexGuard},
+};
 
+use futures::channel::oneshot;
 use serde::{Deserialize, Serialize};
 
 /// Canonical column name storing MVCC commit timestamps alongside Arrow payloads.
@@ -40,12 +45,6 @@ impl Timestamp {
         Self(self.0.saturating_add(1))
     }
 
-    /// Add `delta` while saturating on overflow.
-    #[inline]
-    pub(crate) const fn saturating_add(self, delta: u64) -> Self {
-        Self(self.0.saturating_add(delta))
-    }
-
     /// Subtract `delta` while saturating at [`Timestamp::MIN`].
     #[inline]
     pub(crate) const fn saturating_sub(self, delta: u64) -> Self {
@@ -71,35 +70,140 @@ impl fmt::Debug for Timestamp {
     }
 }
 
-/// Tracks the next commit timestamp to allocate.
-use std::sync::atomic::{AtomicU64, Ordering};
-
-/// Monotonic allocator for MVCC commit timestamps backed by atomics.
+/// Monotonic allocator for MVCC commit timestamps that also tracks the commits in flight.
+///
+/// A timestamp is allocated before its rows are logged and applied, so commits finish in a
+/// different order than they start. Readers only look at timestamps below the oldest commit that
+/// is still in flight ([`CommitClock::visible`]); otherwise a snapshot would gain rows later on.
 #[derive(Debug)]
 pub struct CommitClock {
-    next: AtomicU64,
+    state: Arc<Mutex<ClockState>>,
+}
+
+#[derive(Debug, Default)]
+struct ClockState {
+    next: u64,
+    in_flight: BTreeMap<u64, InFlight>,
+    /// Highest WAL frame known to be durable.
+    last_wal_frame: Option<u64>,
+    waiters: Vec<oneshot::Sender<()>>,
+}
+
+#[derive(Debug)]
+struct InFlight {
+    /// No WAL frame of this commit lies below this sequence.
+    wal_floor: u64,
+    applied: bool,
+}
+
+impl ClockState {
+    fn wal_frontier(&self) -> u64 {
+        self.last_wal_frame.map_or(0, |last| last + 1)
+    }
+
+    fn wake(&mut self) {
+        for waiter in self.waiters.drain(..) {
+            let _ = waiter.send(());
+        }
+    }
 }
 
 impl CommitClock {
     /// Create a new clock that will hand out timestamps starting from `start`.
     #[inline]
-    pub(crate) const fn new(start: Timestamp) -> Self {
+    pub(crate) fn new(start: Timestamp) -> Self {
         Self {
-            next: AtomicU64::new(start.get()),
+            state: Arc::new(Mutex::new(ClockState {
+                next: start.get(),
+                ..ClockState::default()
+            })),
         }
     }
 
+    fn lock(&self) -> MutexGuard<'_, ClockState> {
+        self.state.lock().expect("commit clock poisoned")
+    }
+
     /// Allocate and return the next commit timestamp.
-    #[inline]
+    #[cfg(test)]
     pub(crate) fn alloc(&self) -> Timestamp {
-        let current = self.next.fetch_add(1, Ordering::Relaxed);
+        let mut state = self.lock();
+        let current = state.next;
+        state.next += 1;
         Timestamp::new(current)
     }
 
+    /// Allocate the next commit timestamp and track it until the ticket is dropped.
+    pub(crate) fn begin(&self) -> CommitTicket {
+        let mut state = self.lock();
+        let current = state.next;
+        state.next += 1;
+        let wal_floor = state.wal_frontier();
+        state.in_flight.insert(
+            current,
+            InFlight {
+                wal_floor,
+                applied: false,
+            },
+        );
+        CommitTicket {
+            commit_ts: Timestamp::new(current),
+            state: Arc::clone(&self.state),
+        }
+    }
+
     /// Return the timestamp that will be handed out next.
-    #[inline]
+    #[cfg(test)]
     pub(crate) fn peek(&self) -> Timestamp {
-        Timestamp::new(self.next.load(Ordering::Relaxed))
+        Timestamp::new(self.lock().next)
+    }
+
+    /// Newest timestamp at which every commit has been applied or abandoned.
+    pub(crate) fn visible(&self) -> Timestamp {
+        let state = self.lock();
+        let bound = state
+            .in_flight
+            .iter()
+            .find(|(_, commit)| !commit.applied)
+            .map_or(state.next, |(ts, _)| *ts);
+        Timestamp::new(bound).saturating_sub(1)
+    }
+
+    /// Wait until no commit up to `commit_ts` is left to be applied.
+    pub(crate) async fn settled(&self, commit_ts: Timestamp) {
+        loop {
+            let waiter = {
+                let mut state = self.lock();
+                if state
+                    .in_flight
+                    .range(..=commit_ts.get())
+                    .all(|(_, commit)| commit.applied)
+                {
+                    return;
+                }
+                let (tx, rx) = oneshot::channel();
+                state.waiters.push(tx);
+                rx
+            };
+            let _ = waiter.await;
+        }
+    }
+
+    /// Record that the WAL is durable up to and including `frame`.
+    pub(crate) fn observe_wal_frame(&self, frame: u64) {
+        let mut state = self.lock();
+        state.last_wal_frame = state.last_wal_frame.max(Some(frame));
+    }
+
+    /// Lowest WAL frame that a commit in flight may have written.
+    pub(crate) fn in_flight_wal_floor(&self) -> Option<u64> {
+        let state = self.lock();
+        state.in_flight.values().map(|c| c.wal_floor).min()
+    }
+
+    /// Lowest WAL frame that a commit starting from now on may write.
+    pub(crate) fn wal_frontier(&self) -> u64 {
+        self.lock().wal_frontier()
     }
 
     /// Advance the clock so that it will hand out at least `candidate`.
@@ -107,18 +211,45 @@ impl CommitClock {
     /// Useful after recovery where the highest observed commit is already known.
     #[inline]
     pub(crate) fn advance_to_at_least(&self, candidate: Timestamp) {
-        // Use a loop with compare_exchange to avoid losing larger candidates.
-        let mut current = self.next.load(Ordering::Relaxed);
-        while candidate.get() > current {
-            match self.next.compare_exchange(
-                current,
-                candidate.get(),
-                Ordering::Relaxed,
-                Ordering::Relaxed,
-            ) {
-                Ok(_) => break,
-                Err(actual) => current = actual,
-            }
+        let mut state = self.lock();
+        state.next = state.next.max(candidate.get());
+    }
+}
+
+/// A commit in flight: its timestamp, and the claim on the WAL frames it writes.
+#[derive(Debug)]
+pub(crate) struct CommitTicket {
+    commit_ts: Timestamp,
+    state: Arc<Mutex<ClockState>>,
+}
+
+impl CommitTicket {
+    /// Timestamp of this commit.
+    pub(crate) fn commit_ts(&self) -> Timestamp {
+        self.commit_ts
+    }
+
+    /// The rows are in place and may become visible; the WAL frames stay claimed.
+    pub(crate) fn mark_applied(&self) {
+        let mut state = self.state.lock().expect("commit clock poisoned");
+        if let Some(commit) = state.in_flight.get_mut(&self.commit_ts.get()) {
+            commit.applied = true;
+        }
+        state.wake();
+    }
+
+    /// Record that the WAL is durable up to and including `frame`.
+    pub(crate) fn observe_wal_frame(&self, frame: u64) {
+        let mut state = self.state.lock().expect("commit clock poisoned");
+        state.last_wal_frame = state.last_wal_frame.max(Some(frame));
+    }
+}
+
+impl Drop for CommitTicket {
+    fn drop(&mut self) {
+        if let Ok(mut state) = self.state.lock() {
+            state.in_flight.remove(&self.commit_ts.get());
+            state.wake();
         }
     }
 }
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7188f62..7801771 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -25,7 +25,7 @@ use crate::{
     key::{KeyOwned, KeyTsViewRaw},
     manifest::{ManifestError, TableSnapshot, VersionEdit},
     mutation::DynMutation,
-    mvcc::{ReadView, Timestamp},
+    mvcc::{CommitTicket, ReadView, Timestamp},
     query::stream::StreamError,
     wal::{WalError, manifest_ext},
 };
@@ -595,7 +595,8 @@ where
             }
         }
 
-        let commit_ts = db.next_commit_ts();
+        let commit = db.begin_commit();
+        let commit_ts = commit.commit_ts();
         let (rows, delete_keys) = staged.into_mutations();
         let mut upsert_payload = if rows.is_empty() {
             None
@@ -637,6 +638,11 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    // An auto-seal leaves the rows in the fresh memtable but took the range along.
+                    publish_ctx.record_wal_range(&wal_range);
+                    commit.observe_wal_frame(wal_range.last);
+                    drop(commit);
+                    db.commit_settled(commit_ts).await;
                     publish_ctx.finalize_manifest(wal_range).await?;
                 }
                 CommitAckMode::Fast => {
@@ -650,9 +656,11 @@ where
                         delete_payload.take(),
                         commit_ts,
                     )?;
+                    commit.mark_applied();
                     let publish_ctx = db.txn_publish_context(prev_live_floor);
                     let executor = Arc::clone(db.executor());
-                    spawn_publish_task(executor, publish_ctx, tickets);
+                    spawn_publish_task(executor, publish_ctx, tickets, commit);
+                    db.commit_settled(commit_ts).await;
                 }
             }
         } else {
@@ -673,6 +681,8 @@ where
                 delete_payload.take(),
                 commit_ts,
             )?;
+            drop(commit);
+            db.commit_settled(commit_ts).await;
         }
 
         drop(key_guards);
@@ -1281,6 +1291,7 @@ fn spawn_publish_task<FS, E>(
     executor: Arc<E>,
     publish_ctx: TxnWalPublishContext<FS, E>,
     tickets: WalTxnTickets<E>,
+    commit: CommitTicket,
 ) where
     FS: crate::manifest::ManifestFs<E>,
     E: Executor + Timer + Clone + 'static,
@@ -1289,7 +1300,7 @@ fn spawn_publish_task<FS, E>(
     executor.spawn(async move {
         match tickets.await_range().await {
             Ok(range) => {
-                if let Err(err) = publish_ctx.finalize(range).await {
+                if let Err(err) = publish_ctx.finalize(range, commit).await {
                     eprintln!("transaction post-commit publish failed: {err}");
                 }
             }
@@ -1376,8 +1387,14 @@ where
     ///
     /// This is used by the Fast mode async task which handles both
     /// WAL range recording and manifest update together.
-    async fn finalize(&self, wal_range: WalFrameRange) -> Result<(), TransactionCommitError> {
+    async fn finalize(
+        &self,
+        wal_range: WalFrameRange,
+        commit: CommitTicket,
+    ) -> Result<(), TransactionCommitError> {
         self.record_wal_range(&wal_range);
+        commit.observe_wal_frame(wal_range.last);
+        drop(commit);
         self.finalize_manifest(wal_range).await
     }
 }
-- 
2.43.0


From a3c32db7cfbfe23f5952a3923bedd7a5621c6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 07/21] fix: a snapshot keeps reading the memtables it started
 with

Snapshots pinned only the manifest version, but read whatever the memtables held at
scan time: rows that a flush moved to an SST afterwards disappeared from the snapshot.
Transactions did not notice conflicting rows that were sealed and flushed after they
began.
---
 src/db/mod.rs                 | 61 ++++++++++++++++------------
 src/db/scan.rs                | 34 ++++++++--------
 src/db/wal.rs                 | 75 ++++++++++++++++++++++++++++++++++-
 src/inmem/mutable/memtable.rs | 25 ++++++------
 src/query/scan.rs             |  3 ++
 src/transaction/mod.rs        | 24 ++++++++++-
 6 files changed, 164 insertions(+), 58 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 8583382..67a4a2f 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -23,7 +23,7 @@ use fusio::{
 };
 use futures::lock::Mutex as AsyncMutex;
 use lockable::LockableHashMap;
-use wal::SealState;
+use wal::{FlushLog, SealState};
 
 use crate::compaction::{CompactionHandle, MinorCompactor, metrics::CompactionBackpressureSignal};
 mod builder;
@@ -40,7 +40,7 @@ pub use builder::{
 };
 pub use error::DBError;
 pub use scan::{DEFAULT_SCAN_BATCH_ROWS, ScanBuilder, ScanSetupProfile};
-pub(crate) use wal::{TxnWalPublishContext, WalFrameRange};
+pub(crate) use wal::{MemoryView, TxnWalPublishContext, WalFrameRange};
 
 pub use crate::{
     compaction::planner::{CompactionStrategy, LeveledPlannerConfig},
@@ -306,7 +306,7 @@ where
     /// allows staging mutations (upserts, deletes) before committing atomically.
     pub async fn begin_transaction(&self) -> Result<Transaction<FS, E>, TransactionError> {
         let handle = Arc::clone(&self.inner);
-        let snapshot = handle.begin_snapshot().await?;
+        let snapshot = handle.begin_transaction_snapshot().await?;
         let durability = if handle.wal_handle().is_some() {
             TransactionDurability::Durable
         } else {
@@ -838,16 +838,37 @@ where
 
     /// Open a read-only snapshot pinned to the current manifest head.
     pub async fn begin_snapshot(&self) -> Result<TxSnapshot, SnapshotError> {
-        let manifest_snapshot = self
-            .manifest
-            .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
-            .await?;
-        let read_ts = self.commit_clock.visible();
-        let read_view = ReadView::new(read_ts);
-        Ok(TxSnapshot::from_table_snapshot(
-            read_view,
-            manifest_snapshot,
-        ))
+        self.begin_snapshot_with(None).await
+    }
+
+    /// Open a snapshot for a transaction, which also learns what is flushed under it.
+    pub(crate) async fn begin_transaction_snapshot(&self) -> Result<TxSnapshot, SnapshotError> {
+        let log = Arc::new(FlushLog::default());
+        self.seal_state_lock().flush_logs.push(Arc::downgrade(&log));
+        self.begin_snapshot_with(Some(log)).await
+    }
+
+    async fn begin_snapshot_with(
+        &self,
+        flush_log: Option<Arc<FlushLog>>,
+    ) -> Result<TxSnapshot, SnapshotError> {
+        loop {
+            let flushes = self.seal_state_lock().flushes;
+            let manifest_snapshot = self
+                .manifest
+                .snapshot_latest_with_fallback(self.manifest_table, &self.table_meta)
+                .await?;
+            let read_ts = self.commit_clock.visible();
+            let mut memory = self.pin_memory();
+            memory.flush_log = flush_log.clone();
+            // Rows that a flush moved meanwhile are neither in that manifest nor in memory.
+            if self.seal_state_lock().flushes == flushes {
+                return Ok(
+                    TxSnapshot::from_table_snapshot(ReadView::new(read_ts), manifest_snapshot)
+                        .with_memory(memory),
+                );
+            }
+        }
     }
 
     /// Open a read-only snapshot pinned to a specific historical timestamp.
@@ -1220,19 +1241,7 @@ where
                 // Only remove the segments we actually flushed (the first `flush_count`).
                 // New segments may have been appended concurrently; those must be preserved.
                 let mut seal = self.seal_state_lock();
-                let actual_len = seal.immutables.len();
-                if actual_len >= flush_count {
-                    seal.immutables.drain(0..flush_count);
-                } else {
-                    // Defensive: should not happen, but clear if state is inconsistent.
-                    seal.immutables.clear();
-                }
-                let wal_ranges_len = seal.immutable_wal_ranges.len();
-                if wal_ranges_len >= flush_count {
-                    seal.immutable_wal_ranges.drain(0..flush_count);
-                } else {
-                    seal.immutable_wal_ranges.clear();
-                }
+                seal.remove_flushed(flush_count);
                 seal.last_seal_at = Some(self.executor.now());
                 self.kick_compaction_worker();
                 Ok(table)
diff --git a/src/db/scan.rs b/src/db/scan.rs
index 03da371..39a4e80 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -221,24 +221,24 @@ impl TxSnapshot {
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
         let key_range = key_range_for_predicate(predicate, &key_schema);
+        let memory = self.memory().cloned().unwrap_or_else(|| db.pin_memory());
         let (immutable_indexes, immutable_row_sets) = {
-            let seal = db.seal_state_lock();
             let prune_input: Vec<&ImmutableSegment> =
-                seal.immutables.iter().map(|arc| arc.as_ref()).collect();
+                memory.immutables.iter().map(|arc| arc.as_ref()).collect();
             let indexes = immutable::prune_segments(&prune_input, key_bounds.as_ref(), read_ts);
             let row_sets = indexes
                 .iter()
-                .filter_map(|idx| seal.immutables.get(*idx))
+                .filter_map(|idx| memory.immutables.get(*idx))
                 .map(|segment| RowSet::all(segment.entry_count()))
                 .collect();
             (indexes, row_sets)
         };
         let mutable_row_set = {
-            let row_count = db.mem.row_count();
+            let row_count = memory.mutable.row_count();
             if row_count == 0 {
                 RowSet::all(0)
             } else {
-                let (min_key, max_key) = db.mem.key_bounds();
+                let (min_key, max_key) = memory.mutable.key_bounds();
                 let mut keep = true;
                 if let (Some(min_key), Some(max_key)) = (min_key.as_ref(), max_key.as_ref())
                     && let Some(bounds) = key_bounds.as_ref()
@@ -247,7 +247,7 @@ impl TxSnapshot {
                     keep = false;
                 }
                 if keep
-                    && let Some((min_commit_ts, _)) = db.mem.commit_ts_bounds()
+                    && let Some((min_commit_ts, _)) = memory.mutable.commit_ts_bounds()
                     && min_commit_ts > read_ts
                 {
                     keep = false;
@@ -376,6 +376,7 @@ impl TxSnapshot {
             scan_schema,
             limit,
             read_ts,
+            memory,
             _snapshot: self.table_snapshot().clone(),
         })
     }
@@ -679,12 +680,12 @@ where
         if !plan.mutable_row_set.is_empty() {
             let mutable_scan = match &plan.mutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedMutableScan::from_guard(
-                    self.mem.read(),
+                    self.mem.read_pinned(&plan.memory.mutable),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                 )?,
                 ScanSelection::KeyRange(range) => OwnedMutableScan::from_guard_range(
-                    self.mem.read(),
+                    self.mem.read_pinned(&plan.memory.mutable),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                     range.start.clone(),
@@ -694,22 +695,19 @@ where
             streams.push(ScanStream::from(mutable_scan));
         }
 
-        let immutables: Vec<Arc<ImmutableSegment>> = {
-            let seal = self.seal_state_lock();
-            plan.immutable_indexes
-                .iter()
-                .filter_map(|idx| seal.immutables.get(*idx).cloned())
-                .collect()
-        };
-        for segment in immutables {
+        for segment in plan
+            .immutable_indexes
+            .iter()
+            .filter_map(|idx| plan.memory.immutables.get(*idx))
+        {
             let owned = match &plan.immutable_selection {
                 ScanSelection::AllRows | ScanSelection::Sst(_) => OwnedImmutableScan::from_arc(
-                    Arc::clone(&segment),
+                    Arc::clone(segment),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                 )?,
                 ScanSelection::KeyRange(range) => OwnedImmutableScan::from_arc_range(
-                    Arc::clone(&segment),
+                    Arc::clone(segment),
                     Some(Arc::clone(&scan_schema)),
                     plan.read_ts,
                     range.start.clone(),
diff --git a/src/db/wal.rs b/src/db/wal.rs
index e757052..ccacfa9 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,7 @@
 use std::{
     collections::HashMap,
-    sync::{Arc, Mutex},
+    fmt,
+    sync::{Arc, Mutex, Weak},
 };
 
 use arrow_array::{Array, ArrayRef, RecordBatch, UInt32Array, UInt64Array};
@@ -13,6 +14,7 @@ use crate::{
     extractor::KeyExtractError,
     inmem::{
         immutable::{ImmutableSegment, memtable::MVCC_COMMIT_COL},
+        mutable::memtable::DynMemInner,
         policy::{SealDecision, StatsProvider},
     },
     key::KeyOwned,
@@ -89,6 +91,65 @@ pub(crate) struct SealState {
     pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
     pub(crate) immutable_wal_ranges: Vec<Option<WalFrameRange>>,
     pub(crate) last_seal_at: Option<Instant>,
+    /// Number of flushes that moved immutables into an SST.
+    pub(crate) flushes: u64,
+    /// Open transactions, which keep the segments flushed under them for conflict detection.
+    pub(crate) flush_logs: Vec<Weak<FlushLog>>,
+}
+
+impl SealState {
+    /// Drop the oldest `count` immutables, which are in an SST now.
+    pub(crate) fn remove_flushed(&mut self, count: usize) {
+        let count = count.min(self.immutables.len());
+        let flushed: Vec<_> = self.immutables.drain(..count).collect();
+        let ranges = count.min(self.immutable_wal_ranges.len());
+        self.immutable_wal_ranges.drain(..ranges);
+        self.flushes += 1;
+        self.flush_logs.retain(|log| match log.upgrade() {
+            Some(log) => {
+                log.segments
+                    .lock()
+                    .expect("flush log poisoned")
+                    .extend(flushed.iter().cloned());
+                true
+            }
+            None => false,
+        });
+    }
+}
+
+/// Segments flushed since a transaction began.
+#[derive(Default)]
+pub(crate) struct FlushLog {
+    segments: Mutex<Vec<Arc<ImmutableSegment>>>,
+}
+
+impl FlushLog {
+    pub(crate) fn has_conflict(&self, key: &KeyOwned, snapshot_ts: Timestamp) -> bool {
+        self.segments
+            .lock()
+            .expect("flush log poisoned")
+            .iter()
+            .any(|segment| segment.has_conflict(key, snapshot_ts))
+    }
+}
+
+/// The memtables a snapshot reads, pinned so that seals and flushes do not move rows out of it.
+#[derive(Clone)]
+pub(crate) struct MemoryView {
+    pub(crate) mutable: Arc<DynMemInner>,
+    pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
+    /// Kept by transactions only.
+    pub(crate) flush_log: Option<Arc<FlushLog>>,
+}
+
+impl fmt::Debug for MemoryView {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("MemoryView")
+            .field("mutable_rows", &self.mutable.row_count())
+            .field("immutables", &self.immutables.len())
+            .finish()
+    }
 }
 
 type PendingWalTxns = HashMap<u64, PendingWalTxn>;
@@ -177,6 +238,18 @@ where
         Ok(())
     }
 
+    /// Pin the memtables as they are now.
+    pub(crate) fn pin_memory(&self) -> MemoryView {
+        // The mutable first: rows sealed in between are then pinned twice rather than not at all.
+        let mutable = self.mem.pin();
+        let immutables = self.seal_state_lock().immutables.clone();
+        MemoryView {
+            mutable,
+            immutables,
+            flush_log: None,
+        }
+    }
+
     pub(crate) fn mutable_has_conflict(&self, key: &KeyOwned, snapshot_ts: Timestamp) -> bool {
         self.mem.has_conflict(key, snapshot_ts)
     }
diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 473dc24..d25296e 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -630,6 +630,19 @@ impl DynMem {
         }
     }
 
+    /// Pin the current state: it stays readable, and keeps receiving inserts, until it is sealed.
+    pub(crate) fn pin(&self) -> Arc<DynMemInner> {
+        Arc::clone(&self.inner.read())
+    }
+
+    /// Acquire a read guard over a state pinned earlier.
+    pub(crate) fn read_pinned(&self, pinned: &Arc<DynMemInner>) -> DynMemReadGuard<'_> {
+        DynMemReadGuard {
+            guard: Arc::clone(pinned),
+            schema: &self.schema,
+        }
+    }
+
     /// Insert a dynamic batch, auto-sealing if capacity is reached.
     ///
     /// Returns `Some(immutable)` if the memtable was sealed during this insert.
@@ -756,18 +769,6 @@ impl DynMem {
         self.inner.read().has_conflict(key, snapshot_ts)
     }
 
-    pub(crate) fn key_bounds(&self) -> (Option<KeyOwned>, Option<KeyOwned>) {
-        self.inner.read().key_bounds()
-    }
-
-    pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        self.inner.read().commit_ts_bounds()
-    }
-
-    pub(crate) fn row_count(&self) -> usize {
-        self.inner.read().row_count()
-    }
-
     /// Access the extractor.
     pub(crate) fn extractor(&self) -> &Arc<dyn KeyProjection> {
         &self.extractor
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 2401a59..fa78745 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -15,6 +15,7 @@ use parquet::{
 use thiserror::Error;
 
 use crate::{
+    db::MemoryView,
     extractor::KeyExtractError,
     key::KeyOwned,
     manifest::{SstEntry, TableSnapshot},
@@ -453,6 +454,8 @@ pub(crate) struct ScanPlan {
     pub(crate) scan_schema: SchemaRef,
     pub(crate) limit: Option<usize>,
     pub(crate) read_ts: Timestamp,
+    /// Memtables the indexes and row sets above refer to.
+    pub(crate) memory: MemoryView,
 
     pub(crate) _snapshot: TableSnapshot,
 }
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 7801771..0e68032 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -20,7 +20,7 @@ use typed_arrow_dyn::{
 #[cfg(all(test, feature = "tokio"))]
 use crate::manifest::{TableHead, VersionState};
 use crate::{
-    db::{DBError, DbInner, DynDbHandle, ScanBuilder, TxnWalPublishContext, WalFrameRange},
+    db::{DBError, DbInner, DynDbHandle, MemoryView, ScanBuilder, TxnWalPublishContext, WalFrameRange},
     extractor::{KeyExtractError, KeyProjection, row_from_batch},
     key::{KeyOwned, KeyTsViewRaw},
     manifest::{ManifestError, TableSnapshot, VersionEdit},
@@ -64,6 +64,8 @@ pub enum SnapshotError {
 pub struct Snapshot {
     read_view: ReadView,
     manifest: TableSnapshot,
+    /// Memtables pinned with the manifest; a historical snapshot reads the current ones instead.
+    memory: Option<MemoryView>,
 }
 
 impl Snapshot {
@@ -71,9 +73,28 @@ impl Snapshot {
         Self {
             read_view,
             manifest,
+            memory: None,
         }
     }
 
+    pub(crate) fn with_memory(mut self, memory: MemoryView) -> Self {
+        self.memory = Some(memory);
+        self
+    }
+
+    /// Memtables this snapshot reads, when it pinned them.
+    pub(crate) fn memory(&self) -> Option<&MemoryView> {
+        self.memory.as_ref()
+    }
+
+    /// Whether a segment flushed since the snapshot holds a newer version of `key`.
+    fn flushed_has_conflict(&self, key: &KeyOwned) -> bool {
+        self.memory
+            .as_ref()
+            .and_then(|memory| memory.flush_log.as_ref())
+            .is_some_and(|log| log.has_conflict(key, self.read_view.read_ts()))
+    }
+
     /// MVCC visibility guard captured when the snapshot was created.
     pub(crate) fn read_view(&self) -> ReadView {
         self.read_view
@@ -590,6 +611,7 @@ where
         for (key, _) in staged.iter() {
             if db.mutable_has_conflict(key, snapshot_ts)
                 || db.immutable_has_conflict(key, snapshot_ts)
+                || _snapshot.flushed_has_conflict(key)
             {
                 return Err(TransactionCommitError::WriteConflict(key.clone()));
             }
-- 
2.43.0


From 74d06bd3069bdf5635e1c5c6ca5267bc54a14ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 08/21] fix: filters on non-key columns no longer resurrect
 older versions, and key filters compare like types

---
 src/db/scan.rs    | 93 +++++++++++++++++++++++++++++++++++++----------
 src/query/scan.rs | 68 +++++++++++++++++++++++++++++++---
 2 files changed, 135 insertions(+), 26 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 39a4e80..5f670ae 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -20,7 +20,10 @@ use parquet::{
         arrow_reader::{ArrowReaderMetadata, ArrowReaderOptions},
     },
     errors::ParquetError,
-    file::metadata::{PageIndexPolicy, ParquetMetaDataReader},
+    file::{
+        metadata::{PageIndexPolicy, ParquetMetaData, ParquetMetaDataReader},
+        statistics::Statistics,
+    },
 };
 use typed_arrow_dyn::DynRow;
 
@@ -48,8 +51,8 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            key_bounds_for_predicate, key_range_for_predicate, next_prefix_string,
-            projection_with_predicate,
+            key_bounds_for_predicate, key_only_predicate, key_range_for_predicate,
+            next_prefix_string, projection_with_predicate, scalar_to_key,
         },
         stream::{
             Order, OwnedImmutableScan, OwnedMutableScan, ScanStream, merge::MergeStream,
@@ -214,9 +217,6 @@ impl TxSnapshot {
         let projection_schema = projected_schema.as_ref().unwrap_or(&db.schema);
         let predicate_scan_schema =
             projection_with_predicate(&db.schema, projection_schema, Some(predicate))?;
-        let split = split_predicate_for_row_filter(predicate, &predicate_scan_schema);
-        let mut pushdown_predicate = split.pushdown;
-        let mut residual_predicate = split.residual;
         let read_ts = self.read_view().read_ts();
         let key_schema = db.extractor().key_schema();
         let key_bounds = key_bounds_for_predicate(predicate, &key_schema);
@@ -276,9 +276,7 @@ impl TxSnapshot {
         } else {
             None
         };
-        residual_predicate = combine_predicates_with_and(residual_predicate, non_sst_residual);
-        let mut sst_selections = Vec::new();
-        let mut sst_requires_full_residual = false;
+        let mut sst_candidates = Vec::new();
         for entry in self
             .table_snapshot()
             .latest_version
@@ -305,10 +303,43 @@ impl TxSnapshot {
             {
                 continue;
             }
+            sst_candidates.push(entry);
+        }
+        // A version dropped inside its source no longer shadows the older versions of its key, so
+        // sources may apply conditions on other columns only where each key has one version.
+        let one_version_per_key = !has_non_sst
+            && !force_predicate_columns
+            && match sst_candidates.as_slice() {
+                [entry] if entry.delete_path().is_none() => {
+                    let metadata = parquet_metadata_cached(
+                        Arc::clone(&prune_ctx.fs),
+                        entry.data_path(),
+                        Arc::clone(&prune_ctx.metadata_cache),
+                        prune_ctx.executor.clone(),
+                    )
+                    .await?;
+                    holds_single_commit(&metadata)
+                }
+                _ => false,
+            };
+        let (source_predicate, covers_predicate) = if one_version_per_key {
+            (predicate.clone(), true)
+        } else {
+            key_only_predicate(predicate, &key_schema)
+        };
+        let split = split_predicate_for_row_filter(&source_predicate, &predicate_scan_schema);
+        let mut pushdown_predicate = split.pushdown;
+        let mut residual_predicate = combine_predicates_with_and(split.residual, non_sst_residual);
+        if !covers_predicate && !sst_candidates.is_empty() {
+            residual_predicate = Some(predicate.clone());
+        }
+        let mut sst_selections = Vec::new();
+        let mut sst_requires_full_residual = false;
+        for entry in sst_candidates {
             let (mut selection, requires_residual) = prune_sst_selection(
                 &prune_ctx,
                 entry.data_path(),
-                predicate,
+                &source_predicate,
                 read_ts,
                 &predicate_scan_schema,
                 &key_schema,
@@ -382,6 +413,26 @@ impl TxSnapshot {
     }
 }
 
+/// Whether every row of the file was written by the same commit, hence has a distinct key.
+fn holds_single_commit(metadata: &ParquetMetaData) -> bool {
+    let mut commit_ts = None;
+    metadata.row_groups().iter().all(|group| {
+        let bounds = group
+            .columns()
+            .iter()
+            .find(|column| column.column_path().string() == MVCC_COMMIT_COL)
+            .and_then(|column| column.statistics())
+            .and_then(|stats| match stats {
+                Statistics::Int64(stats) => Some((*stats.min_opt()?, *stats.max_opt()?)),
+                _ => None,
+            });
+        match bounds {
+            Some((min, max)) => min == max && *commit_ts.get_or_insert(min) == min,
+            None => false,
+        }
+    })
+}
+
 async fn prune_sst_selection<E>(
     ctx: &PruneContext<E>,
     data_path: &fusio::path::Path,
@@ -1245,12 +1296,6 @@ fn split_predicate_for_non_sst(predicate: &Expr, key_schema: &SchemaRef) -> NonS
             residual: None,
         };
     }
-    if matches!(predicate, Expr::False) {
-        return NonSstPredicateSplit {
-            pushdown: Some(Expr::False),
-            residual: None,
-        };
-    }
     if key_schema.fields().len() != 1 {
         return NonSstPredicateSplit {
             pushdown: None,
@@ -1280,8 +1325,11 @@ fn split_predicate_for_non_sst_inner(
             pushdown: Some(Expr::False),
             residual: None,
         },
-        Expr::Cmp { column, op, .. } => {
-            if column != key_column || matches!(op, aisle::CmpOp::NotEq) {
+        Expr::Cmp { column, op, value } => {
+            if column != key_column
+                || matches!(op, aisle::CmpOp::NotEq)
+                || scalar_to_key(value, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
@@ -1292,8 +1340,13 @@ fn split_predicate_for_non_sst_inner(
                 residual: None,
             }
         }
-        Expr::Between { column, .. } => {
-            if column != key_column {
+        Expr::Between {
+            column, low, high, ..
+        } => {
+            if column != key_column
+                || scalar_to_key(low, key_type).is_none()
+                || scalar_to_key(high, key_type).is_none()
+            {
                 return NonSstPredicateSplit {
                     pushdown: None,
                     residual: Some(predicate.clone()),
diff --git a/src/query/scan.rs b/src/query/scan.rs
index fa78745..59c1168 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -490,8 +490,27 @@ pub(crate) fn key_bounds_for_predicate(
     bounds_from_expr(predicate, key_column, field.data_type())
 }
 
-fn scalar_to_key(value: &ScalarValue) -> Option<KeyOwned> {
-    <KeyOwned as KeyPredicateValue>::from_scalar(value)
+/// Convert a predicate literal into a key comparable with keys of `key_type`.
+///
+/// Keys of different types never compare by value, so a literal that has no exact counterpart in
+/// the key type yields `None` and has to be evaluated after the merge.
+pub(crate) fn scalar_to_key(value: &ScalarValue, key_type: &DataType) -> Option<KeyOwned> {
+    match key_type {
+        DataType::Int32 => i32::from_scalar(value).map(KeyOwned::from),
+        DataType::Int64 => i64::from_scalar(value).map(KeyOwned::from),
+        DataType::UInt32 => i64::from_scalar(value)
+            .and_then(|v| u32::try_from(v).ok())
+            .map(KeyOwned::from),
+        DataType::Float32 => match value {
+            ScalarValue::Float32(Some(v)) => Some(KeyOwned::from(*v)),
+            _ => None,
+        },
+        _ if is_string_key(key_type) => {
+            KeyOwned::from_scalar(value).filter(|key| key.as_utf8().is_some())
+        }
+        _ if value.data_type() == *key_type => KeyOwned::from_scalar(value),
+        _ => None,
+    }
 }
 
 fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Option<KeyBounds> {
@@ -499,7 +518,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
         Expr::True => None,
         Expr::False => Some(KeyBounds::empty()),
         Expr::Cmp { column, op, value } if column == key_column => {
-            let key = scalar_to_key(value)?;
+            let key = scalar_to_key(value, key_type)?;
             let bounds = match op {
                 aisle::CmpOp::Eq => KeyBounds::with_range((key.clone(), true), (key, true)),
                 aisle::CmpOp::NotEq => return None,
@@ -516,8 +535,8 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             high,
             inclusive,
         } if column == key_column => {
-            let low_key = scalar_to_key(low)?;
-            let high_key = scalar_to_key(high)?;
+            let low_key = scalar_to_key(low, key_type)?;
+            let high_key = scalar_to_key(high, key_type)?;
             Some(KeyBounds::with_range(
                 (low_key, *inclusive),
                 (high_key, *inclusive),
@@ -541,7 +560,7 @@ fn bounds_from_expr(expr: &Expr, key_column: &str, key_type: &DataType) -> Optio
             }
             let mut keys = Vec::with_capacity(values.len());
             for value in values {
-                let key = scalar_to_key(value)?;
+                let key = scalar_to_key(value, key_type)?;
                 keys.push(key);
             }
             let min = keys.iter().min().cloned()?;
@@ -682,6 +701,43 @@ fn extend_projection_schema(
     Ok(Arc::new(Schema::new(fields)))
 }
 
+/// Part of `predicate` that only looks at primary-key columns, and whether that is all of it.
+///
+/// Every version of a key answers this part alike, so it may be applied inside a source, before
+/// the merge picks the visible version.
+pub(crate) fn key_only_predicate(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, bool) {
+    if let Expr::And(children) = predicate {
+        let mut kept = Vec::new();
+        let mut whole = true;
+        for child in children {
+            let (part, complete) = key_only_predicate(child, key_schema);
+            whole &= complete;
+            if !matches!(part, Expr::True) {
+                kept.push(part);
+            }
+        }
+        let part = match kept.len() {
+            0 => Expr::True,
+            1 => kept.remove(0),
+            _ => Expr::And(kept),
+        };
+        return (part, whole);
+    }
+    let mut columns = BTreeSet::new();
+    collect_predicate_columns(predicate, &mut columns);
+    let key_only = columns.iter().all(|column| {
+        key_schema
+            .fields()
+            .iter()
+            .any(|field| field.name() == column)
+    });
+    if key_only {
+        (predicate.clone(), true)
+    } else {
+        (Expr::True, false)
+    }
+}
+
 fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
     match predicate {
         Expr::True | Expr::False => {}
-- 
2.43.0


From 7ca6edd0c140eb54b0ea4cf11162726d710a53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:01 +0000
Subject: [PATCH 09/21] fix: Transaction::get reads flushed data through its
 snapshot

---
 src/db/scan.rs         | 57 ++------------------------------
 src/key/ts.rs          |  5 ---
 src/transaction/mod.rs | 74 +++++++++++++++++++++++-------------------
 3 files changed, 43 insertions(+), 93 deletions(-)

diff --git a/src/db/scan.rs b/src/db/scan.rs
index 5f670ae..711510d 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -31,10 +31,9 @@ use crate::{
     db::DbInner,
     extractor::{KeyExtractError, KeyProjection, projection_for_columns},
     inmem::{
-        immutable::{self, ImmutableSegment, memtable::ImmutableVisibleEntry},
-        mutable::memtable::DynRowScanEntry,
+        immutable::{self, ImmutableSegment},
     },
-    key::{KeyOwned, KeyRow},
+    key::KeyOwned,
     mode::fingerprint_schema,
     mutation::DynMutation,
     mvcc::{MVCC_COMMIT_COL, Timestamp},
@@ -865,58 +864,6 @@ where
         Ok(streams)
     }
 
-    pub(crate) fn scan_immutable_rows_at(
-        &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let segments = self.seal_state_lock().immutables.clone();
-        for segment in segments {
-            let scan = segment.scan_visible(None, read_ts)?;
-            for result in scan {
-                match result {
-                    Ok(ImmutableVisibleEntry::Row(key_view, row_raw)) => {
-                        let row = row_raw.into_owned().map_err(|err| {
-                            KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                                err.to_string(),
-                            ))
-                        })?;
-                        let (key_row, _) = key_view.into_parts();
-                        rows.push((key_row, row));
-                    }
-                    Ok(ImmutableVisibleEntry::Tombstone(_)) => {}
-                    Err(err) => return Err(KeyExtractError::from(err)),
-                }
-            }
-        }
-        Ok(rows)
-    }
-
-    pub(crate) fn scan_mutable_rows_at(
-        &self,
-        read_ts: Timestamp,
-    ) -> Result<Vec<(KeyRow, DynRow)>, KeyExtractError> {
-        let mut rows = Vec::new();
-        let mem = self.mem.read();
-        let scan = mem.scan_visible(None, read_ts)?;
-        for entry in scan {
-            match entry {
-                Ok(DynRowScanEntry::Row(key_view, row_raw)) => {
-                    let row = row_raw.into_owned().map_err(|err| {
-                        KeyExtractError::Arrow(arrow_schema::ArrowError::ComputeError(
-                            err.to_string(),
-                        ))
-                    })?;
-                    let (key_row, _) = key_view.into_parts();
-                    rows.push((key_row, row));
-                }
-                Ok(DynRowScanEntry::Tombstone(_)) => {}
-                Err(err) => return Err(KeyExtractError::from(err)),
-            }
-        }
-        Ok(rows)
-    }
-
     /// Begin building a scan query with fluent API.
     #[cfg(test)]
     pub fn scan(&self) -> ScanBuilder<'_, FS, E> {
diff --git a/src/key/ts.rs b/src/key/ts.rs
index a5d77bf..b58b91b 100644
--- a/src/key/ts.rs
+++ b/src/key/ts.rs
@@ -38,11 +38,6 @@ impl KeyTsViewRaw {
     pub(crate) fn timestamp(&self) -> Timestamp {
         self.ts
     }
-
-    /// Decompose the view.
-    pub(crate) fn into_parts(self) -> (KeyRow, Timestamp) {
-        (self.key, self.ts)
-    }
 }
 
 impl PartialEq for KeyTsViewRaw {
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index 0e68032..ceb06b7 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -26,7 +26,7 @@ use crate::{
     manifest::{ManifestError, TableSnapshot, VersionEdit},
     mutation::DynMutation,
     mvcc::{CommitTicket, ReadView, Timestamp},
-    query::stream::StreamError,
+    query::{Expr, ScalarValue, stream::StreamError},
     wal::{WalError, manifest_ext},
 };
 
@@ -410,11 +410,6 @@ where
         }
     }
 
-    /// Snapshot timestamp guarding conflict detection for this transaction.
-    pub(crate) fn read_ts(&self) -> Timestamp {
-        self.staged.snapshot_ts()
-    }
-
     /// Returns `true` when no mutations have been staged.
     pub fn is_empty(&self) -> bool {
         self.staged.is_empty()
@@ -485,8 +480,46 @@ where
                 DynMutation::Delete(_) => None,
             });
         }
-        let rows = self.read_mutable_rows(&*self.handle)?;
-        Ok(rows.get(key).map(clone_dyn_row))
+        let batches = ScanBuilder::from_snapshot(&self.handle, &self._snapshot)
+            .filter(self.key_predicate(key))
+            .collect()
+            .await?;
+        for batch in &batches {
+            for row_idx in 0..batch.num_rows() {
+                let row = row_from_batch(batch, row_idx).map_err(TransactionError::KeyExtract)?;
+                if self.project_key(&row)? == *key {
+                    return Ok(Some(row));
+                }
+            }
+        }
+        Ok(None)
+    }
+
+    /// Predicate selecting `key`; components without a scalar counterpart are left open.
+    fn key_predicate(&self, key: &KeyOwned) -> Expr {
+        let key_schema = self.extractor.key_schema();
+        let conditions = key_schema
+            .fields()
+            .iter()
+            .zip(key.as_row().cells())
+            .filter_map(|(field, cell)| {
+                let value = match cell.as_ref()? {
+                    DynCell::Bool(v) => ScalarValue::Boolean(Some(*v)),
+                    DynCell::I32(v) => ScalarValue::Int32(Some(*v)),
+                    DynCell::I64(v) => ScalarValue::Int64(Some(*v)),
+                    DynCell::U32(v) => ScalarValue::UInt32(Some(*v)),
+                    DynCell::U64(v) => ScalarValue::UInt64(Some(*v)),
+                    DynCell::Str(v) => ScalarValue::Utf8(Some(v.clone())),
+                    _ => return None,
+                };
+                (value.data_type() == *field.data_type()).then(|| Expr::eq(field.name(), value))
+            })
+            .collect::<Vec<_>>();
+        if conditions.is_empty() {
+            Expr::True
+        } else {
+            Expr::and(conditions)
+        }
     }
 
     /// Begin building a scan query with fluent API.
@@ -550,31 +583,6 @@ where
         Ok(())
     }
 
-    fn read_mutable_rows<C>(
-        &self,
-        db: &DbInner<C, E>,
-    ) -> Result<BTreeMap<KeyOwned, DynRow>, TransactionError>
-    where
-        C: crate::manifest::ManifestFs<E>,
-        <C as fusio::fs::Fs>::File: fusio::durability::FileCommit,
-    {
-        let read_ts = self.read_ts();
-        let mut out = BTreeMap::new();
-        let rows = db
-            .scan_mutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?;
-        for (key_row, row) in rows {
-            out.insert(key_row.to_owned(), row);
-        }
-        for (key, row) in db
-            .scan_immutable_rows_at(read_ts)
-            .map_err(TransactionError::KeyExtract)?
-        {
-            out.entry(key.to_owned()).or_insert(row);
-        }
-        Ok(out)
-    }
-
     /// Commit the staged mutations into the supplied DB, ensuring WAL durability first.
     pub async fn commit(self) -> Result<(), TransactionCommitError>
     where
-- 
2.43.0


From f7d30bef15b2bb1dd5e1d3f33ffb868bc606ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:39 +0000
Subject: [PATCH 10/21] fix: compaction keeps every row and tombstone of inputs
 that span several batches

---
 src/ondisk/merge.rs | 168 ++++++++++++++++++++------------------------
 1 file changed, 78 insertions(+), 90 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..4b8e346 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -140,9 +140,12 @@ struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
+    /// Batches fetched but not fully merged yet; the row index refers to the first one.
+    data: VecDeque<RecordBatch>,
     data_idx: usize,
+    deletes: VecDeque<RecordBatch>,
     delete_idx: usize,
+    exhausted: bool,
 }
 
 impl SourceCursor {
@@ -155,19 +158,40 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
+            data: VecDeque::new(),
             data_idx: 0,
+            deletes: VecDeque::new(),
             delete_idx: 0,
+            exhausted: false,
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    /// Fetch until a row of `kind` is available or the source has no more rows.
+    ///
+    /// Data and tombstones are sorted separately, so either side may run ahead of the other.
+    async fn ensure_row(&mut self, kind: RowKind) -> Result<(), SsTableError> {
+        loop {
+            let available = match kind {
+                RowKind::Data => !self.data.is_empty(),
+                RowKind::Delete => !self.deletes.is_empty(),
+            };
+            if available || self.exhausted {
+                return Ok(());
+            }
+            match self.source.next().await? {
+                Some(batch) => {
+                    if batch.data.num_rows() > 0 {
+                        self.data.push_back(batch.data);
+                    }
+                    if let Some(delete) = batch.delete
+                        && delete.num_rows() > 0
+                    {
+                        self.deletes.push_back(delete);
+                    }
+                }
+                None => self.exhausted = true,
+            }
         }
-        Ok(())
     }
 
     async fn enqueue(
@@ -177,112 +201,78 @@ impl SourceCursor {
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
         loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
-                return Ok(());
-            };
-
-            match kind {
+            self.ensure_row(kind).await?;
+            let (key, commit_ts, seq, row_idx) = match kind {
                 RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
+                    let Some(batch) = self.data.front() else {
                         return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.data_idx,
-                    });
-                    return Ok(());
+                    };
+                    (
+                        extract_key_at(batch, self.extractor.as_ref(), self.data_idx)?,
+                        commit_ts_at(batch, self.data_idx)?,
+                        sequence_at(batch, self.data_idx)?,
+                        self.data_idx,
+                    )
                 }
                 RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
+                    let Some(batch) = self.deletes.front() else {
                         return Ok(());
                     };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_delete_key_at(
-                        delete_batch,
-                        self.extractor.as_ref(),
+                    (
+                        extract_delete_key_at(batch, self.extractor.as_ref(), self.delete_idx)?,
+                        commit_ts_at_delete(batch, self.delete_idx)?,
+                        sequence_at_delete(batch, self.delete_idx)?,
                         self.delete_idx,
-                    )?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at_delete(delete_batch, self.delete_idx)?;
-                    let seq = sequence_at_delete(delete_batch, self.delete_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.delete_idx,
-                    });
-                    return Ok(());
+                    )
                 }
+            };
+            if skip_key.is_some_and(|k| k == &key) {
+                self.advance(kind);
+                continue;
             }
+            heap.push(HeapEntry {
+                key,
+                commit_ts,
+                seq,
+                kind,
+                source_idx: self.source_idx,
+                row_idx,
+            });
+            return Ok(());
         }
     }
 
     fn advance(&mut self, kind: RowKind) {
-        match kind {
-            RowKind::Data => self.data_idx += 1,
-            RowKind::Delete => self.delete_idx += 1,
-        }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
+        let (batches, idx) = match kind {
+            RowKind::Data => (&mut self.data, &mut self.data_idx),
+            RowKind::Delete => (&mut self.deletes, &mut self.delete_idx),
+        };
+        *idx += 1;
+        if batches
+            .front()
+            .is_some_and(|batch| *idx >= batch.num_rows())
+        {
+            batches.pop_front();
+            *idx = 0;
         }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(batch) = self.deletes.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let delete = take_record_batch(delete_batch, &index)?;
+        let delete = take_record_batch(batch, &index)?;
         output.push_delete(delete);
         Ok(())
     }
@@ -689,9 +679,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From d043ad513c0030144cc8eb3ed6f5b3471aee37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:13 +0000
Subject: [PATCH 11/21] fix: recovery never rewrites a torn wal segment and
 syncs the frames it replayed

---
 src/wal/mod.rs     |  10 +++
 src/wal/replay.rs  |  21 ++++--
 src/wal/storage.rs | 175 ++++++++++++++++-----------------------------
 src/wal/writer.rs  |  28 +++++++-
 4 files changed, 113 insertions(+), 121 deletions(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index e306ed1..667630a 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -951,6 +951,16 @@ where
             .and_then(|handle| handle.state().last_segment_seq);
 
         let tail_metadata = storage.tail_metadata_with_hint(wal_state_hint).await?;
+        if let Some(tail) = &tail_metadata
+            && !matches!(cfg.sync, WalSyncPolicy::Disabled)
+        {
+            // The process that wrote the newest frames may have died before syncing them; replay
+            // has shown them to readers, so they must survive from now on.
+            let newest = tail.completed.last().into_iter().chain(Some(&tail.active));
+            for segment in newest.filter(|segment| segment.bytes > 0) {
+                writer::sync_segment(storage.fs().file_system(), &segment.path).await?;
+            }
+        }
         let next_payload_seq = tail_metadata
             .as_ref()
             .and_then(|meta| meta.last_provisional_id)
diff --git a/src/wal/replay.rs b/src/wal/replay.rs
index 7592e8b..35627b7 100644
--- a/src/wal/replay.rs
+++ b/src/wal/replay.rs
@@ -92,7 +92,9 @@ impl Replayer {
         );
 
         let mut events = Vec::new();
-        for segment in segments {
+        let mut last_seq: Option<u64> = None;
+        let mut torn = false;
+        'segments: for segment in segments {
             if let Some(seq) = floor_seq
                 && segment.seq < seq
             {
@@ -136,7 +138,8 @@ impl Replayer {
                             || reason == "frame payload truncated" =>
                     {
                         // Treat a truncated tail (common for crash-at-end scenarios) as EOF so
-                        // recovery returns the events observed before the partial frame. Any
+                        // recovery returns the events observed before the partial frame. The
+                        // writer of the next process continues the sequence in a new segment. Any
                         // other corruption surfaces as an error to avoid silently skipping valid
                         // transactions further in the log.
                         log_warn!(
@@ -146,15 +149,25 @@ impl Replayer {
                             offset = offset,
                             reason = reason,
                         );
-                        return Ok(events);
+                        torn = true;
+                        continue 'segments;
                     }
                     Err(err) => return Err(err),
                 };
+                if torn {
+                    if last_seq.is_some_and(|seq| header.seq != seq.saturating_add(1)) {
+                        // Written behind frames that the tear lost.
+                        continue 'segments;
+                    }
+                    torn = false;
+                }
                 let payload_start = offset + FRAME_HEADER_SIZE;
                 let payload_end = payload_start + header.len as usize;
                 if payload_end > data.len() {
-                    return Ok(events);
+                    torn = true;
+                    continue 'segments;
                 }
+                last_seq = Some(header.seq);
                 let payload = &data[payload_start..payload_end];
                 if let Some(floor_frame) = segment_floor_first_frame
                     && header.seq < floor_frame
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 64a6e8c..05cd293 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -293,8 +293,11 @@ impl WalStorage {
         Ok(entries)
     }
 
-    /// Inspect the WAL tail while hinting at the highest expected sealed segment, dropping a torn
-    /// frame left at the end of the active segment.
+    /// Inspect the WAL tail while hinting at the highest expected sealed segment.
+    ///
+    /// A segment that ends in a torn frame is left untouched, because rewriting it could lose the
+    /// acknowledged frames in front of the tear if the process dies half way. It counts as
+    /// completed and the next segment becomes the active one.
     ///
     /// Must only be called before a writer owns the segments: the writer's own half-written frame
     /// is indistinguishable from a torn one.
@@ -307,58 +310,48 @@ impl WalStorage {
             return Ok(None);
         }
 
-        let mut active = segments.pop().expect("segments.pop matches prior is_empty");
-        let completed = segments;
-        let TailScan {
-            last,
-            max_provisional_id,
-            file_len,
-            truncated,
-            buffer,
-        } = self.scan_tail(&active.path).await?;
-
-        let mut last_frame_seq = last.as_ref().map(|meta| meta.seq);
-        let mut last_provisional_id = max_provisional_id;
-        let last_valid_offset = last.as_ref().map(|meta| meta.end_offset);
-
-        // Older segments still hold frames that replay pairs up by provisional id, and they alone
-        // know the last frame sequence when the active segment is empty.
-        for descriptor in completed.iter().rev() {
+        // Walk the log as replay does: behind a torn frame it resumes in the segment that
+        // continues the frame sequence.
+        let mut last_frame_seq: Option<u64> = None;
+        let mut last_provisional_id = None;
+        let mut torn = false;
+        let mut appendable = true;
+        let newest = segments.len() - 1;
+        for (idx, descriptor) in segments.iter_mut().enumerate() {
             let scan = match self.scan_tail(&descriptor.path).await {
-                Ok(scan) => scan,
-                Err(WalError::Corrupt(_)) => continue,
+                Ok(Some(scan)) => scan,
+                // Pruned since it was listed.
+                Ok(None) => continue,
+                Err(WalError::Corrupt(_)) if idx < newest => continue,
                 Err(err) => return Err(err),
             };
-            if last_frame_seq.is_none() {
-                last_frame_seq = scan.last.as_ref().map(|meta| meta.seq);
-            }
+            // Replay pairs frames up by provisional id, wherever they are.
             last_provisional_id = last_provisional_id.max(scan.max_provisional_id);
-        }
-
-        let mut truncated_tail = truncated;
-        if !truncated_tail {
-            if let Some(offset) = last_valid_offset {
-                if offset < file_len {
-                    truncated_tail = true;
+            descriptor.bytes = scan.valid_len;
+            appendable = !scan.truncated;
+            if let Some((first, last)) = scan.frames {
+                if torn && last_frame_seq.is_some_and(|seq| first != seq.saturating_add(1)) {
+                    appendable = false;
+                    continue;
                 }
-            } else if file_len > 0 {
-                truncated_tail = true;
+                torn = false;
+                last_frame_seq = Some(last);
             }
+            torn |= scan.truncated;
         }
 
-        if truncated_tail {
-            let safe_len = last_valid_offset.unwrap_or(0);
-            let mut preserved = buffer.unwrap_or_else(Vec::new);
-            if preserved.len() > safe_len {
-                preserved.truncate(safe_len);
-            } else if preserved.len() < safe_len {
-                preserved.resize(safe_len, 0);
-            }
-            self.overwrite_segment(&active.path, preserved).await?;
-            active.bytes = safe_len;
+        let (active, completed) = if appendable {
+            let active = segments.pop().expect("segments.pop matches prior is_empty");
+            (active, segments)
         } else {
-            active.bytes = file_len;
-        }
+            let seq = segments[newest].seq.saturating_add(1);
+            let active = SegmentDescriptor {
+                seq,
+                path: self.segment_path(seq)?,
+                bytes: 0,
+            };
+            (active, segments)
+        };
 
         Ok(Some(TailMetadata {
             active,
@@ -368,17 +361,18 @@ impl WalStorage {
         }))
     }
 
-    async fn scan_tail(&self, path: &Path) -> WalResult<TailScan> {
-        let mut file = self
-            .fs
-            .open_options(path, Self::read_options())
-            .await
-            .map_err(|err| {
-                WalError::Storage(format!(
+    /// Find the complete frames at the start of a segment, or `None` when the segment does not exist.
+    async fn scan_tail(&self, path: &Path) -> WalResult<Option<TailScan>> {
+        let mut file = match self.fs.open_options(path, Self::read_options()).await {
+            Ok(file) => file,
+            Err(err) if is_not_found(&err) => return Ok(None),
+            Err(err) => {
+                return Err(WalError::Storage(format!(
                     "failed to open wal segment {} for tail read: {}",
                     path, err
-                ))
-            })?;
+                )));
+            }
+        };
         let (read_res, data) = file.read_to_end_at(Vec::new(), 0).await;
         let data = read_res.map(|_| data).map_err(|err| {
             WalError::Storage(format!(
@@ -387,9 +381,8 @@ impl WalStorage {
             ))
         })?;
 
-        let file_len = data.len();
         let mut offset = 0usize;
-        let mut last = None;
+        let mut frames = None;
         let mut max_provisional_id = None;
         let mut truncated = false;
         while offset < data.len() {
@@ -428,62 +421,17 @@ impl WalStorage {
             };
 
             max_provisional_id = max_provisional_id.max(provisional_id);
-            last = Some(FrameTailMeta {
-                seq: header.seq,
-                end_offset: payload_end,
-            });
+            let first = frames.map_or(header.seq, |(first, _)| first);
+            frames = Some((first, header.seq));
             offset = payload_end;
         }
 
-        if let Some(ref meta) = last {
-            if meta.end_offset < data.len() {
-                truncated = true;
-            }
-        } else if !data.is_empty() {
-            truncated = true;
-        }
-
-        let buffer = if truncated { Some(data) } else { None };
-
-        Ok(TailScan {
-            last,
+        Ok(Some(TailScan {
+            frames,
             max_provisional_id,
-            file_len,
+            valid_len: offset,
             truncated,
-            buffer,
-        })
-    }
-
-    async fn overwrite_segment(&self, path: &Path, data: Vec<u8>) -> WalResult<()> {
-        let path_display = path.to_string();
-        let mut file = self
-            .fs
-            .open_options(path, OpenOptions::default().truncate(true))
-            .await
-            .map_err(|err| {
-                WalError::Storage(format!(
-                    "failed to truncate wal segment {}: {}",
-                    path_display, err
-                ))
-            })?;
-
-        if !data.is_empty() {
-            let (write_res, _buf) = file.write_all(data).await;
-            write_res.map_err(|err| {
-                WalError::Storage(format!(
-                    "failed to rewrite wal segment {}: {}",
-                    path_display, err
-                ))
-            })?;
-        }
-
-        file.flush().await.map_err(|err| {
-            WalError::Storage(format!(
-                "failed to flush wal segment {}: {}",
-                path_display, err
-            ))
-        })?;
-        Ok(())
+        }))
     }
 }
 
@@ -516,17 +464,14 @@ impl WalStorage {
     }
 }
 
-struct FrameTailMeta {
-    seq: u64,
-    end_offset: usize,
-}
-
 struct TailScan {
-    last: Option<FrameTailMeta>,
+    /// Sequences of the first and the last complete frame.
+    frames: Option<(u64, u64)>,
     max_provisional_id: Option<u64>,
-    file_len: usize,
+    /// Bytes taken by the complete frames.
+    valid_len: usize,
+    /// Something other than a complete frame follows them.
     truncated: bool,
-    buffer: Option<Vec<u8>>,
 }
 
 /// Handle representing an opened WAL segment file.
diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index 76926f3..568c7ca 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -539,7 +539,12 @@ where
         }
 
         if let Some(handle) = state.as_ref() {
-            if let Some(seq) = handle.state().last_frame_seq {
+            // Frames continue those on disk; the recorded sequence only matters once all are pruned.
+            if let Some(seq) = handle.state().last_frame_seq
+                && tail
+                    .as_ref()
+                    .is_none_or(|meta| meta.last_frame_seq.is_none())
+            {
                 next_frame_seq = next_frame_seq.max(seq.saturating_add(1));
             }
             if let Some(seg_seq) = handle.state().last_segment_seq {
@@ -1108,7 +1113,18 @@ where
                     Some(bounds) => bounds,
                     None => {
                         state_dirty = true;
-                        Self::load_bounds_from_storage(storage, &descriptor).await?
+                        // It may end in a torn frame, or have been pruned since it was listed.
+                        let Some(bounds) =
+                            storage.live_segment_frame_bounds(&descriptor.path).await?
+                        else {
+                            continue;
+                        };
+                        WalSegmentBounds::new(
+                            descriptor.seq,
+                            wal_segment_file_id(descriptor.seq),
+                            bounds.first_seq,
+                            bounds.last_seq,
+                        )
                     }
                 };
                 completed.push_back(SegmentMeta::new(descriptor, bounds));
@@ -1231,6 +1247,14 @@ pub(super) fn is_not_found(err: &FusioError) -> bool {
     }
 }
 
+/// Make everything written to a segment so far durable.
+pub(super) async fn sync_segment(
+    fs_tag: FileSystemTag,
+    segment_path: &fusio::path::Path,
+) -> WalResult<()> {
+    perform_sync(fs_tag, segment_path, SyncVariant::All).await
+}
+
 enum SyncVariant {
     Data,
     All,
-- 
2.43.0


From 93797ed731d0d63732db963edc8a1f91bde7be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 12/21] fix: a compaction whose publication is uncertain keeps
 its output files

---
 src/compaction/driver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compaction/driver.rs b/src/compaction/driver.rs
index 9801450..aa7420a 100644
--- a/src/compaction/driver.rs
+++ b/src/compaction/driver.rs
@@ -621,7 +621,8 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // The edit may have been published all the same, or be adopted later, so the
+                    // outputs have to stay.
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
@@ -846,7 +847,8 @@ where
                     continue;
                 }
                 Err(err) => {
-                    executor.cleanup_outputs(&outcome.outputs).await?;
+                    // The edit may have been published all the same, or be adopted later, so the
+                    // outputs have to stay.
                     log_warn!(
                         component = "manifest",
                         event = "manifest_apply_failed",
-- 
2.43.0


From 20b5987343932703e0b586ed358ef8b2f348aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:23 +0000
Subject: [PATCH 13/21] fix: nothing is written to the wal below the manifest's
 floor

---
 src/db/mod.rs      |  2 +-
 src/wal/mod.rs     | 12 +++++++++++-
 src/wal/replay.rs  |  6 +++++-
 src/wal/storage.rs | 16 ++++++++++------
 src/wal/writer.rs  |  9 ++++++++-
 5 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 67a4a2f..4dbd8b3 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -1255,7 +1255,7 @@ where
         self.try_manifest_wal_floor().await.ok().flatten()
     }
 
-    async fn try_manifest_wal_floor(&self) -> Result<Option<WalSegmentRef>, ManifestError> {
+    pub(crate) async fn try_manifest_wal_floor(&self) -> Result<Option<WalSegmentRef>, ManifestError> {
         self.manifest.wal_floor(self.manifest_table).await
     }
 
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 667630a..75e30ba 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -971,6 +971,16 @@ where
             .and_then(|meta| meta.last_frame_seq)
             .map(|seq| seq.saturating_add(1))
             .unwrap_or(frame::INITIAL_FRAME_SEQ);
+        // Replay starts at the manifest's floor, so nothing may be written below it even if the
+        // newest segments were pruned or lost.
+        let floor = self
+            .try_manifest_wal_floor()
+            .await
+            .map_err(|err| WalError::Storage(format!("failed to load wal floor: {err}")))?;
+        let initial_segment_seq = floor.as_ref().map_or(0, |floor| floor.seq());
+        let initial_frame_seq = floor.as_ref().map_or(initial_frame_seq, |floor| {
+            initial_frame_seq.max(floor.first_frame())
+        });
 
         let metrics = Arc::new(E::rw_lock(WalMetrics::default()));
         let writer = writer::spawn_writer(
@@ -978,7 +988,7 @@ where
             storage,
             cfg.clone(),
             Arc::clone(&metrics),
-            0,
+            initial_segment_seq,
             initial_frame_seq,
         );
         let (sender, queue_depth, join) = writer.into_parts();
diff --git a/src/wal/replay.rs b/src/wal/replay.rs
index 35627b7..7a3b060 100644
--- a/src/wal/replay.rs
+++ b/src/wal/replay.rs
@@ -155,7 +155,11 @@ impl Replayer {
                     Err(err) => return Err(err),
                 };
                 if torn {
-                    if last_seq.is_some_and(|seq| header.seq != seq.saturating_add(1)) {
+                    let next = last_seq.map(|seq| {
+                        seq.saturating_add(1)
+                            .max(floor_first_frame.unwrap_or_default())
+                    });
+                    if next.is_some_and(|seq| header.seq != seq) {
                         // Written behind frames that the tear lost.
                         continue 'segments;
                     }
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 05cd293..9f917bd 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -95,6 +95,15 @@ impl WalStorage {
         OpenOptions::default().read(true).write(false)
     }
 
+    /// Describe a segment that does not exist yet.
+    pub(crate) fn unwritten_segment(&self, seq: u64) -> WalResult<SegmentDescriptor> {
+        Ok(SegmentDescriptor {
+            seq,
+            path: self.segment_path(seq)?,
+            bytes: 0,
+        })
+    }
+
     fn segment_path(&self, seq: u64) -> WalResult<Path> {
         let filename = format!("wal-{seq:020}.tonwal");
         let part = PathPart::parse(&filename).map_err(|err| {
@@ -344,12 +353,7 @@ impl WalStorage {
             let active = segments.pop().expect("segments.pop matches prior is_empty");
             (active, segments)
         } else {
-            let seq = segments[newest].seq.saturating_add(1);
-            let active = SegmentDescriptor {
-                seq,
-                path: self.segment_path(seq)?,
-                bytes: 0,
-            };
+            let active = self.unwritten_segment(segments[newest].seq.saturating_add(1))?;
             (active, segments)
         };
 
diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index 568c7ca..7e43e50 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -510,13 +510,20 @@ where
 
         let mut state = storage.load_state_handle(cfg.state_store.as_ref()).await?;
 
-        let tail = storage
+        let mut tail = storage
             .tail_metadata_with_hint(
                 state
                     .as_ref()
                     .and_then(|handle| handle.state().last_segment_seq),
             )
             .await?;
+        if let Some(meta) = tail.as_mut()
+            && meta.active.seq < segment_seq
+        {
+            let next = storage.unwritten_segment(segment_seq)?;
+            meta.completed
+                .push(std::mem::replace(&mut meta.active, next));
+        }
 
         let mut next_frame_seq = frame::INITIAL_FRAME_SEQ;
         let (segment_seq, mut segment_bytes, mut next_segment_seq) =
-- 
2.43.0


From 31f48718523216dff5ffbb17862b9640ca15c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:38 +0000
Subject: [PATCH 14/21] hook: bloom filter sizing knob behind --cfg tonbo_sim

---
 src/ondisk/sstable.rs | 4 ++++
 src/sim.rs            | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/ondisk/sstable.rs b/src/ondisk/sstable.rs
index df672c8..a8c384c 100644
--- a/src/ondisk/sstable.rs
+++ b/src/ondisk/sstable.rs
@@ -941,6 +941,10 @@ fn writer_properties(config: &SsTableConfig, schema: &SchemaRef) -> WriterProper
         .set_data_page_size_limit(SST_DATA_PAGE_SIZE_LIMIT)
         .set_max_row_group_size(config.max_row_group_rows());
     for column in bloom_filter_columns(config, schema) {
+        #[cfg(tonbo_sim)]
+        if let Some(ndv) = crate::sim::knobs().bloom_ndv {
+            builder = builder.set_column_bloom_filter_ndv(column.clone(), ndv);
+        }
         builder = builder.set_column_bloom_filter_enabled(column, true);
     }
     builder.build()
diff --git a/src/sim.rs b/src/sim.rs
index b0b03bd..b47ffcd 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -16,6 +16,8 @@ pub struct Knobs {
     pub row_group_rows: Option<usize>,
     /// Rows per record batch yielded by a scan.
     pub scan_batch_rows: Option<usize>,
+    /// Distinct values the bloom filters of newly written SSTs are sized for.
+    pub bloom_ndv: Option<u64>,
 }
 
 thread_local! {
-- 
2.43.0


From 9a66d9526de81dae606f097e9ce912b1b09cfe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:19 +0000
Subject: [PATCH 15/21] fix: pruning a sealed memtable by commit time counts
 its tombstones

---
 src/inmem/immutable/memtable.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..1b0110c 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,12 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        // Tombstones live in the delete sidecar only.
+        let mut iter = self
+            .mvcc
+            .commit_ts
+            .iter()
+            .chain(self.deletes.commit_ts.iter());
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From d26e5e1aa59a19f898c89b70684bbad9d9f8b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:03 +0000
Subject: [PATCH 16/21] fix: the snapshot's memory view lives with the
 memtables, not in the db module

---
 src/db/mod.rs          |  6 ++---
 src/db/scan.rs         | 39 ++++++++++++++++++++++++++++++-
 src/db/wal.rs          | 42 ++-------------------------------
 src/inmem/mod.rs       |  1 +
 src/inmem/view.rs      | 53 ++++++++++++++++++++++++++++++++++++++++++
 src/query/scan.rs      | 42 ++-------------------------------
 src/transaction/mod.rs | 14 ++++++-----
 7 files changed, 107 insertions(+), 90 deletions(-)
 create mode 100644 src/inmem/view.rs

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 4dbd8b3..daf1948 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -23,7 +23,7 @@ use fusio::{
 };
 use futures::lock::Mutex as AsyncMutex;
 use lockable::LockableHashMap;
-use wal::{FlushLog, SealState};
+use wal::SealState;
 
 use crate::compaction::{CompactionHandle, MinorCompactor, metrics::CompactionBackpressureSignal};
 mod builder;
@@ -40,7 +40,7 @@ pub use builder::{
 };
 pub use error::DBError;
 pub use scan::{DEFAULT_SCAN_BATCH_ROWS, ScanBuilder, ScanSetupProfile};
-pub(crate) use wal::{MemoryView, TxnWalPublishContext, WalFrameRange};
+pub(crate) use wal::{TxnWalPublishContext, WalFrameRange};
 
 pub use crate::{
     compaction::planner::{CompactionStrategy, LeveledPlannerConfig},
@@ -54,7 +54,7 @@ pub use crate::{
 use crate::{
     extractor::{KeyExtractError, KeyProjection},
     id::FileId,
-    inmem::mutable::DynMem,
+    inmem::{mutable::DynMem, view::FlushLog},
     key::KeyOwned,
     manifest::{
         ManifestError, ManifestFs, SstEntry, TableId, TableMeta, TonboManifest, VersionEdit,
diff --git a/src/db/scan.rs b/src/db/scan.rs
index 711510d..3b7cd17 100644
--- a/src/db/scan.rs
+++ b/src/db/scan.rs
@@ -50,7 +50,7 @@ use crate::{
         Expr, ScalarValue,
         scan::{
             DeleteSelection, RowSet, ScanPlan, ScanSelection, SstScanSelection, SstSelection,
-            key_bounds_for_predicate, key_only_predicate, key_range_for_predicate,
+            collect_predicate_columns, key_bounds_for_predicate, key_range_for_predicate,
             next_prefix_string, projection_with_predicate, scalar_to_key,
         },
         stream::{
@@ -134,6 +134,43 @@ fn scan_batch_rows() -> usize {
     DEFAULT_SCAN_BATCH_ROWS
 }
 
+/// Part of `predicate` that only looks at primary-key columns, and whether that is all of it.
+///
+/// Every version of a key answers this part alike, so it may be applied inside a source, before
+/// the merge picks the visible version.
+fn key_only_predicate(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, bool) {
+    if let Expr::And(children) = predicate {
+        let mut kept = Vec::new();
+        let mut whole = true;
+        for child in children {
+            let (part, complete) = key_only_predicate(child, key_schema);
+            whole &= complete;
+            if !matches!(part, Expr::True) {
+                kept.push(part);
+            }
+        }
+        let part = match kept.len() {
+            0 => Expr::True,
+            1 => kept.remove(0),
+            _ => Expr::And(kept),
+        };
+        return (part, whole);
+    }
+    let mut columns = BTreeSet::new();
+    collect_predicate_columns(predicate, &mut columns);
+    let key_only = columns.iter().all(|column| {
+        key_schema
+            .fields()
+            .iter()
+            .any(|field| field.name() == column)
+    });
+    if key_only {
+        (predicate.clone(), true)
+    } else {
+        (Expr::True, false)
+    }
+}
+
 /// Setup-phase timing breakdown for a single scan stream construction.
 ///
 /// Values are measured in nanoseconds and cover setup work before consuming
diff --git a/src/db/wal.rs b/src/db/wal.rs
index ccacfa9..b69e3ca 100644
--- a/src/db/wal.rs
+++ b/src/db/wal.rs
@@ -1,6 +1,5 @@
 use std::{
     collections::HashMap,
-    fmt,
     sync::{Arc, Mutex, Weak},
 };
 
@@ -14,8 +13,8 @@ use crate::{
     extractor::KeyExtractError,
     inmem::{
         immutable::{ImmutableSegment, memtable::MVCC_COMMIT_COL},
-        mutable::memtable::DynMemInner,
         policy::{SealDecision, StatsProvider},
+        view::{FlushLog, MemoryView},
     },
     key::KeyOwned,
     manifest::{ManifestFs, TableId, TonboManifest},
@@ -107,10 +106,7 @@ impl SealState {
         self.flushes += 1;
         self.flush_logs.retain(|log| match log.upgrade() {
             Some(log) => {
-                log.segments
-                    .lock()
-                    .expect("flush log poisoned")
-                    .extend(flushed.iter().cloned());
+                log.extend(flushed.iter().cloned());
                 true
             }
             None => false,
@@ -118,40 +114,6 @@ impl SealState {
     }
 }
 
-/// Segments flushed since a transaction began.
-#[derive(Default)]
-pub(crate) struct FlushLog {
-    segments: Mutex<Vec<Arc<ImmutableSegment>>>,
-}
-
-impl FlushLog {
-    pub(crate) fn has_conflict(&self, key: &KeyOwned, snapshot_ts: Timestamp) -> bool {
-        self.segments
-            .lock()
-            .expect("flush log poisoned")
-            .iter()
-            .any(|segment| segment.has_conflict(key, snapshot_ts))
-    }
-}
-
-/// The memtables a snapshot reads, pinned so that seals and flushes do not move rows out of it.
-#[derive(Clone)]
-pub(crate) struct MemoryView {
-    pub(crate) mutable: Arc<DynMemInner>,
-    pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
-    /// Kept by transactions only.
-    pub(crate) flush_log: Option<Arc<FlushLog>>,
-}
-
-impl fmt::Debug for MemoryView {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        f.debug_struct("MemoryView")
-            .field("mutable_rows", &self.mutable.row_count())
-            .field("immutables", &self.immutables.len())
-            .finish()
-    }
-}
-
 type PendingWalTxns = HashMap<u64, PendingWalTxn>;
 
 enum PendingWalPayload {
diff --git a/src/inmem/mod.rs b/src/inmem/mod.rs
index 922cbee..bed60c7 100644
--- a/src/inmem/mod.rs
+++ b/src/inmem/mod.rs
@@ -6,3 +6,4 @@
 pub(crate) mod immutable;
 pub(crate) mod mutable;
 pub(crate) mod policy;
+pub(crate) mod view;
diff --git a/src/inmem/view.rs b/src/inmem/view.rs
new file mode 100644
index 0000000..79a555f
--- /dev/null
+++ b/src/inmem/view.rs
@@ -0,0 +1,53 @@
+//! What a snapshot holds of the memtables.
+
+use std::{
+    fmt,
+    sync::{Arc, Mutex},
+};
+
+use crate::{
+    inmem::{immutable::ImmutableSegment, mutable::memtable::DynMemInner},
+    key::KeyOwned,
+    mvcc::Timestamp,
+};
+
+/// Segments flushed since a transaction began.
+#[derive(Default)]
+pub(crate) struct FlushLog {
+    segments: Mutex<Vec<Arc<ImmutableSegment>>>,
+}
+
+impl FlushLog {
+    pub(crate) fn extend(&self, flushed: impl Iterator<Item = Arc<ImmutableSegment>>) {
+        self.segments
+            .lock()
+            .expect("flush log poisoned")
+            .extend(flushed);
+    }
+
+    pub(crate) fn has_conflict(&self, key: &KeyOwned, snapshot_ts: Timestamp) -> bool {
+        self.segments
+            .lock()
+            .expect("flush log poisoned")
+            .iter()
+            .any(|segment| segment.has_conflict(key, snapshot_ts))
+    }
+}
+
+/// The memtables a snapshot reads, pinned so that seals and flushes do not move rows out of it.
+#[derive(Clone)]
+pub(crate) struct MemoryView {
+    pub(crate) mutable: Arc<DynMemInner>,
+    pub(crate) immutables: Vec<Arc<ImmutableSegment>>,
+    /// Kept by transactions only.
+    pub(crate) flush_log: Option<Arc<FlushLog>>,
+}
+
+impl fmt::Debug for MemoryView {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("MemoryView")
+            .field("mutable_rows", &self.mutable.row_count())
+            .field("immutables", &self.immutables.len())
+            .finish()
+    }
+}
diff --git a/src/query/scan.rs b/src/query/scan.rs
index 59c1168..e1f2e4d 100644
--- a/src/query/scan.rs
+++ b/src/query/scan.rs
@@ -15,7 +15,6 @@ use parquet::{
 use thiserror::Error;
 
 use crate::{
-    db::MemoryView,
     extractor::KeyExtractError,
     key::KeyOwned,
     manifest::{SstEntry, TableSnapshot},
@@ -455,7 +454,7 @@ pub(crate) struct ScanPlan {
     pub(crate) limit: Option<usize>,
     pub(crate) read_ts: Timestamp,
     /// Memtables the indexes and row sets above refer to.
-    pub(crate) memory: MemoryView,
+    pub(crate) memory: crate::inmem::view::MemoryView,
 
     pub(crate) _snapshot: TableSnapshot,
 }
@@ -701,44 +700,7 @@ fn extend_projection_schema(
     Ok(Arc::new(Schema::new(fields)))
 }
 
-/// Part of `predicate` that only looks at primary-key columns, and whether that is all of it.
-///
-/// Every version of a key answers this part alike, so it may be applied inside a source, before
-/// the merge picks the visible version.
-pub(crate) fn key_only_predicate(predicate: &Expr, key_schema: &SchemaRef) -> (Expr, bool) {
-    if let Expr::And(children) = predicate {
-        let mut kept = Vec::new();
-        let mut whole = true;
-        for child in children {
-            let (part, complete) = key_only_predicate(child, key_schema);
-            whole &= complete;
-            if !matches!(part, Expr::True) {
-                kept.push(part);
-            }
-        }
-        let part = match kept.len() {
-            0 => Expr::True,
-            1 => kept.remove(0),
-            _ => Expr::And(kept),
-        };
-        return (part, whole);
-    }
-    let mut columns = BTreeSet::new();
-    collect_predicate_columns(predicate, &mut columns);
-    let key_only = columns.iter().all(|column| {
-        key_schema
-            .fields()
-            .iter()
-            .any(|field| field.name() == column)
-    });
-    if key_only {
-        (predicate.clone(), true)
-    } else {
-        (Expr::True, false)
-    }
-}
-
-fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
+pub(crate) fn collect_predicate_columns(predicate: &Expr, out: &mut BTreeSet<String>) {
     match predicate {
         Expr::True | Expr::False => {}
         Expr::Cmp { column, .. }
diff --git a/src/transaction/mod.rs b/src/transaction/mod.rs
index ceb06b7..8fae147 100644
--- a/src/transaction/mod.rs
+++ b/src/transaction/mod.rs
@@ -20,13 +20,13 @@ use typed_arrow_dyn::{
 #[cfg(all(test, feature = "tokio"))]
 use crate::manifest::{TableHead, VersionState};
 use crate::{
-    db::{DBError, DbInner, DynDbHandle, MemoryView, ScanBuilder, TxnWalPublishContext, WalFrameRange},
+    db::{DBError, DbInner, DynDbHandle, ScanBuilder, TxnWalPublishContext, WalFrameRange},
     extractor::{KeyExtractError, KeyProjection, row_from_batch},
     key::{KeyOwned, KeyTsViewRaw},
     manifest::{ManifestError, TableSnapshot, VersionEdit},
     mutation::DynMutation,
     mvcc::{CommitTicket, ReadView, Timestamp},
-    query::{Expr, ScalarValue, stream::StreamError},
+    query::stream::StreamError,
     wal::{WalError, manifest_ext},
 };
 
@@ -65,7 +65,7 @@ pub struct Snapshot {
     read_view: ReadView,
     manifest: TableSnapshot,
     /// Memtables pinned with the manifest; a historical snapshot reads the current ones instead.
-    memory: Option<MemoryView>,
+    memory: Option<crate::inmem::view::MemoryView>,
 }
 
 impl Snapshot {
@@ -77,13 +77,13 @@ impl Snapshot {
         }
     }
 
-    pub(crate) fn with_memory(mut self, memory: MemoryView) -> Self {
+    pub(crate) fn with_memory(mut self, memory: crate::inmem::view::MemoryView) -> Self {
         self.memory = Some(memory);
         self
     }
 
     /// Memtables this snapshot reads, when it pinned them.
-    pub(crate) fn memory(&self) -> Option<&MemoryView> {
+    pub(crate) fn memory(&self) -> Option<&crate::inmem::view::MemoryView> {
         self.memory.as_ref()
     }
 
@@ -496,7 +496,9 @@ where
     }
 
     /// Predicate selecting `key`; components without a scalar counterpart are left open.
-    fn key_predicate(&self, key: &KeyOwned) -> Expr {
+    fn key_predicate(&self, key: &KeyOwned) -> crate::query::Expr {
+        use crate::query::{Expr, ScalarValue};
+
         let key_schema = self.extractor.key_schema();
         let conditions = key_schema
             .fields()
-- 
2.43.0


From b76eed4fed6a0ea57a6eeb4ded67a31259996ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:08 +0000
Subject: [PATCH 17/21] fix: recovery removes log segments it skipped behind a
 torn one

---
 src/wal/replay.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wal/replay.rs b/src/wal/replay.rs
index 7a3b060..0ea6672 100644
--- a/src/wal/replay.rs
+++ b/src/wal/replay.rs
@@ -94,6 +94,7 @@ impl Replayer {
         let mut events = Vec::new();
         let mut last_seq: Option<u64> = None;
         let mut torn = false;
+        let mut unreachable = Vec::new();
         'segments: for segment in segments {
             if let Some(seq) = floor_seq
                 && segment.seq < seq
@@ -161,6 +162,7 @@ impl Replayer {
                     });
                     if next.is_some_and(|seq| header.seq != seq) {
                         // Written behind frames that the tear lost.
+                        unreachable.push(path);
                         continue 'segments;
                     }
                     torn = false;
@@ -188,6 +190,12 @@ impl Replayer {
             }
         }
 
+        // The next process continues the sequence where the tear cut it: segments that were skipped
+        // would later pass for its frames.
+        for path in unreachable {
+            self.storage.remove_segment(&path).await?;
+        }
+
         log_info!(
             component = "wal",
             event = "replay_completed",
-- 
2.43.0


From 7feaa381dd82956f58e45a0541921eec695b6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:57 +0000
Subject: [PATCH 18/21] fix: restarts never reuse the id of an sst file already
 in storage

---
 src/db/builder.rs | 61 ++++++++++++++++++++++++++++++++++-------------
 src/wal/writer.rs |  2 +-
 2 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/db/builder.rs b/src/db/builder.rs
index 7dc0fb5..c199b14 100644
--- a/src/db/builder.rs
+++ b/src/db/builder.rs
@@ -16,6 +16,7 @@ use fusio::{
 #[cfg(feature = "tokio")]
 use fusio::{disk::LocalFs, executor::tokio::TokioExecutor};
 use fusio_manifest::{CheckpointStoreImpl, HeadStoreImpl, LeaseStoreImpl, SegmentStoreImpl};
+use futures::StreamExt;
 use thiserror::Error;
 
 use super::{DB, DbInner, MinorCompactionState};
@@ -37,6 +38,7 @@ use crate::{
         WalConfig as RuntimeWalConfig, WalError, WalExt, WalRecoveryMode, WalSyncPolicy,
         state::{FsWalStateStore, WalStateStore},
         storage::WalStorage,
+        writer::is_not_found,
     },
 };
 
@@ -1087,7 +1089,7 @@ where
             .map_err(DbBuildError::Manifest)?;
         let manifest_table = table_meta.table_id;
         let sstable_id_allocator = if minor_compaction.is_some() || compaction_options.is_some() {
-            Some(Self::sstable_id_allocator_for_table(&manifest, &table_meta).await?)
+            Some(Self::sstable_id_allocator_for_table(&layout, &manifest, &table_meta).await?)
         } else {
             None
         };
@@ -1623,6 +1625,7 @@ where
     }
 
     async fn sstable_id_allocator_for_table<E>(
+        layout: &StorageLayout<FS>,
         manifest: &TonboManifest<FS, E>,
         table_meta: &TableMeta,
     ) -> Result<Arc<AtomicU64>, DbBuildError>
@@ -1631,22 +1634,14 @@ where
         FS: ManifestFs<E>,
         <FS as fusio::fs::Fs>::File: fusio::durability::FileCommit,
     {
-        let snapshot = manifest
-            .snapshot_latest_with_fallback(table_meta.table_id, table_meta)
+        let versions = manifest
+            .list_versions(table_meta.table_id, 0)
             .await
             .map_err(DbBuildError::Manifest)?;
-        let next_id = match snapshot.latest_version.as_ref() {
-            Some(version) if !version.ssts().is_empty() => {
-                next_sstable_id(std::slice::from_ref(version))
-            }
-            _ => {
-                let versions = manifest
-                    .list_versions(table_meta.table_id, 0)
-                    .await
-                    .map_err(DbBuildError::Manifest)?;
-                next_sstable_id(&versions)
-            }
-        };
+        // A publication cut short by a crash may still be adopted by the manifest later on, so
+        // ids of files that no visible version names are taken as well.
+        let stored = max_stored_sstable_id(&layout.sst_route()?).await?;
+        let next_id = next_sstable_id(&versions).max(stored.map_or(1, |id| id.saturating_add(1)));
         Ok(Arc::new(AtomicU64::new(next_id)))
     }
 
@@ -1695,7 +1690,7 @@ where
             let sstable_extractor = Arc::clone(&mode_config.extractor);
             let sstable_id_allocator = if minor_compaction.is_some() || compaction_options.is_some()
             {
-                Some(Self::sstable_id_allocator_for_table(&manifest, &table_meta).await?)
+                Some(Self::sstable_id_allocator_for_table(&layout, &manifest, &table_meta).await?)
             } else {
                 None
             };
@@ -1782,6 +1777,40 @@ where
     }
 }
 
+/// Largest SST id that names a file under the SST root, if any.
+async fn max_stored_sstable_id(route: &StorageRoute) -> Result<Option<u64>, DbBuildError> {
+    let failed = |path: &Path, err: fusio::Error| DbBuildError::PreparePath {
+        path: path.to_string(),
+        source: io::Error::other(err.to_string()),
+    };
+    let mut max_id = None;
+    let mut pending = vec![(route.path.clone(), true)];
+    while let Some((dir, descend)) = pending.pop() {
+        let mut stream = match route.fs.list(&dir).await {
+            Ok(stream) => stream,
+            Err(err) if is_not_found(&err) => continue,
+            Err(err) => return Err(failed(&dir, err)),
+        };
+        while let Some(meta) = stream.next().await {
+            let path = meta.map_err(|err| failed(&dir, err))?.path;
+            let Some(name) = path.filename() else {
+                continue;
+            };
+            // Filesystems list one directory at a time, object stores a whole prefix.
+            if descend
+                && name
+                    .strip_prefix('L')
+                    .is_some_and(|level| level.parse::<usize>().is_ok())
+            {
+                pending.push((path.clone(), false));
+            } else if let Some(id) = name.split('.').next().and_then(|id| id.parse::<u64>().ok()) {
+                max_id = max_id.max(Some(id));
+            }
+        }
+    }
+    Ok(max_id)
+}
+
 fn next_sstable_id(versions: &[VersionState]) -> u64 {
     let max_id = versions
         .iter()
diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index 7e43e50..b31f3a5 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -1227,7 +1227,7 @@ async fn self_initial_size(
     }
 }
 
-pub(super) fn is_not_found(err: &FusioError) -> bool {
+pub(crate) fn is_not_found(err: &FusioError) -> bool {
     fn inner_contains(not_found: &str, err: &dyn Error) -> bool {
         if err.to_string().contains(not_found) {
             return true;
-- 
2.43.0


From ab117f8494dba8fcfedea0a46a374640272a84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 19/21] fix: a table is synced before it is published

Closing a file on a local disk does not make it durable, but publishing a table lets the log
segments that carry its rows be removed, and those were synced. Losing power after a flush or a
compaction could lose acknowledged rows under every sync policy.
---
 src/ondisk/sstable.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/ondisk/sstable.rs b/src/ondisk/sstable.rs
index a8c384c..88b60c4 100644
--- a/src/ondisk/sstable.rs
+++ b/src/ondisk/sstable.rs
@@ -21,7 +21,7 @@ use fusio::{
     DynFs,
     error::Error as FsError,
     executor::Executor,
-    fs::OpenOptions,
+    fs::{FileSystemTag, OpenOptions},
     path::{Path, PathPart},
 };
 use fusio_parquet::{reader::AsyncReader, writer::AsyncWriter};
@@ -1109,6 +1109,13 @@ where
             writer.close().await?;
         }
 
+        // Publishing the table lets the synced log that carries its rows be pruned, so the table
+        // has to be as durable as the log before anyone can name it.
+        sync_finished_file(self.fs.as_ref(), &self.data_path)?;
+        if self.delete_written {
+            sync_finished_file(self.fs.as_ref(), &self.delete_path)?;
+        }
+
         let data_file = self
             .fs
             .open_options(&data_path, OpenOptions::default().read(true))
@@ -1137,6 +1144,26 @@ where
     }
 }
 
+/// Force a closed file to stable storage. Closing is enough on every backend but a local disk.
+#[cfg(not(target_arch = "wasm32"))]
+fn sync_finished_file(fs: &dyn DynFs, path: &Path) -> Result<(), SsTableError> {
+    if !matches!(fs.file_system(), FileSystemTag::Local) {
+        return Ok(());
+    }
+    let local = fusio::path::path_to_local(path)
+        .map_err(|err| SsTableError::InvalidPath(err.to_string()))?;
+    std::fs::OpenOptions::new()
+        .write(true)
+        .open(local)
+        .and_then(|file| file.sync_all())
+        .map_err(|err| SsTableError::Fs(FsError::Io(err)))
+}
+
+#[cfg(target_arch = "wasm32")]
+fn sync_finished_file(_fs: &dyn DynFs, _path: &Path) -> Result<(), SsTableError> {
+    Ok(())
+}
+
 fn build_table_paths(
     config: &SsTableConfig,
     level: usize,
-- 
2.43.0


From ad4ee62127c173bf30d03395a3af1f5b97a143a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 20/21] fix: compaction keeps a row deleted that its own batch
 deleted

A batch may store and delete one key; both get the same commit timestamp. Readers
let the delete win, but the merge compared row positions of unrelated files first,
so that compaction could bring the row back.
---
 src/ondisk/merge.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index 4b8e346..60a6aba 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -116,13 +116,11 @@ impl Ord for HeapEntry {
             Ordering::Less => Ordering::Greater,
             Ordering::Greater => Ordering::Less,
             Ordering::Equal => match self.commit_ts.cmp(&other.commit_ts) {
-                Ordering::Equal => match self.seq.cmp(&other.seq) {
-                    Ordering::Equal => match (self.kind, other.kind) {
-                        (RowKind::Delete, RowKind::Data) => Ordering::Greater,
-                        (RowKind::Data, RowKind::Delete) => Ordering::Less,
-                        _ => Ordering::Equal,
-                    },
-                    other => other,
+                // As for readers, a delete hides the data of its own commit.
+                Ordering::Equal => match (self.kind, other.kind) {
+                    (RowKind::Delete, RowKind::Data) => Ordering::Greater,
+                    (RowKind::Data, RowKind::Delete) => Ordering::Less,
+                    _ => self.seq.cmp(&other.seq),
                 },
                 other => other,
             },
-- 
2.43.0


From 993d308474adcd2e655bbd0a58d7e6af01b6f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 21/21] fix: a batch's delete wins over its store in every
 source

Replay seals memtables between the halves of a batch, so that a store and a delete
of one key with one timestamp may come from different sources. The order of the
sources then decided, and a row that was gone before the restart was back.
---
 src/query/stream/merge.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/query/stream/merge.rs b/src/query/stream/merge.rs
index e266c9c..416d1c8 100644
--- a/src/query/stream/merge.rs
+++ b/src/query/stream/merge.rs
@@ -151,6 +151,8 @@ impl Ord for HeapEntry {
     fn cmp(&self, other: &Self) -> Ordering {
         // Entries are ordered by key, then commit timestamp (descending), followed by source
         // priority (txn > mutable > immutable > SST), and finally stream index for determinism.
+        // Committed versions with one timestamp stem from one commit, whose deletes win wherever
+        // its rows ended up, as they do within a memtable.
         // Uses zero-alloc key comparison for the common case.
         let ordering = self.order.unwrap_or(Order::Asc);
         let key_cmp = match ordering {
@@ -158,8 +160,13 @@ impl Ord for HeapEntry {
         };
         // Timestamps are always ordered descending (latest first) regardless of key order.
         let ts_cmp = other.entry.ts().cmp(&self.entry.ts());
+        let txn_cmp = (self.source_priority != SourcePriority::Txn)
+            .cmp(&(other.source_priority != SourcePriority::Txn));
+        let tombstone_cmp = other.entry.is_tombstone().cmp(&self.entry.is_tombstone());
         key_cmp
             .then(ts_cmp)
+            .then(txn_cmp)
+            .then(tombstone_cmp)
             .then(self.source_priority.cmp(&other.source_priority))
             .then(self.stream_idx.cmp(&other.stream_idx))
     }
-- 
2.43.0

