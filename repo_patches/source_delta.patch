From e4e43034de80f40943e71f2ab5567908d9d6508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:54 +0000
Subject: [PATCH 01/33] fix: a self-aborted task stays finished and a select
 waits once per channel

---
 crates/logicaffeine_runtime/src/scheduler.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index 817973e..b9a1dea 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -458,7 +458,10 @@ impl<'t> Scheduler<'t> {
             TaskStep::Await(target) => self.do_await(tid, target),
             TaskStep::Abort(target) => {
                 self.do_abort(target);
-                self.mark_ready(tid, RtPayload::Nothing);
+                // A task that aborted itself is finished; it must not run again.
+                if target != tid {
+                    self.mark_ready(tid, RtPayload::Nothing);
+                }
             }
             TaskStep::Close(ch) => {
                 self.do_close(ch);
@@ -660,7 +663,11 @@ impl<'t> Scheduler<'t> {
             for (i, a) in arms.iter().enumerate() {
                 match a {
                     SelectArm::Recv(ch) => {
-                        self.chans.get_mut(ch).unwrap().blocked_receivers.push_back(tid);
+                        // Two arms on one channel still wait on it only once.
+                        let waiting = &mut self.chans.get_mut(ch).unwrap().blocked_receivers;
+                        if !waiting.contains(&tid) {
+                            waiting.push_back(tid);
+                        }
                     }
                     SelectArm::Timeout(d) => {
                         self.timers.push(TimerEntry { fire_at: self.clock + *d, tid, arm: Some(i) });
-- 
2.43.0


From 5fbecc8d9e533d5022ab4b5b35b00208c503cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:54 +0000
Subject: [PATCH 02/33] fix: work-stealing run discards the slice of a task
 aborted earlier in its batch

---
 crates/logicaffeine_runtime/src/executor.rs  | 5 +++++
 crates/logicaffeine_runtime/src/scheduler.rs | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/crates/logicaffeine_runtime/src/executor.rs b/crates/logicaffeine_runtime/src/executor.rs
index 90a5453..65e9110 100644
--- a/crates/logicaffeine_runtime/src/executor.rs
+++ b/crates/logicaffeine_runtime/src/executor.rs
@@ -248,6 +248,11 @@ where
             for tid in &order {
                 let WorkerReport { tid: rt, output: slice_out, step } =
                     reports.remove(tid).expect("report for dispatched task");
+                // Aborted by a task earlier in this batch: the cooperative run would
+                // never have polled it, so its slice must leave no trace.
+                if sched.ws_is_done(rt) {
+                    continue;
+                }
                 output.extend(slice_out);
                 apply_step(&mut sched, &mut fresh, rt, step);
             }
diff --git a/crates/logicaffeine_runtime/src/scheduler.rs b/crates/logicaffeine_runtime/src/scheduler.rs
index b9a1dea..16814ff 100644
--- a/crates/logicaffeine_runtime/src/scheduler.rs
+++ b/crates/logicaffeine_runtime/src/scheduler.rs
@@ -410,6 +410,12 @@ impl<'t> Scheduler<'t> {
         self.tasks.values().all(|s| matches!(s.state, TaskState::Done))
     }
 
+    /// Has this task finished (exited or been aborted)?
+    #[cfg(not(target_arch = "wasm32"))]
+    pub(crate) fn ws_is_done(&self, tid: TaskId) -> bool {
+        matches!(self.tasks[&tid].state, TaskState::Done)
+    }
+
     /// Are there pending timers (advance the logical clock when no task is ready)?
     #[cfg(not(target_arch = "wasm32"))]
     pub(crate) fn ws_has_timers(&self) -> bool {
-- 
2.43.0


From 84005f6a93ce322fd6a57501380c24f90e6410e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:43 +0000
Subject: [PATCH 03/33] fix: drop causal dots covered by the merged clock

Merging two causal contexts could leave dots in the out-of-order set that the
merged vector clock already covers. Two replicas that had seen the same events
then compared unequal, depending on the order of the merges.
---
 crates/logicaffeine_data/src/crdt/causal/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/logicaffeine_data/src/crdt/causal/context.rs b/crates/logicaffeine_data/src/crdt/causal/context.rs
index 69e007c..584988d 100644
--- a/crates/logicaffeine_data/src/crdt/causal/context.rs
+++ b/crates/logicaffeine_data/src/crdt/causal/context.rs
@@ -85,6 +85,9 @@ impl DotContext {
             }
         }
         self.compact();
+        // Dots the merged clock now covers are no longer out of order
+        let clock = &self.clock;
+        self.cloud.retain(|dot| dot.counter > clock.get(dot.replica));
     }
 
     /// Get the underlying vector clock.
-- 
2.43.0


From e95f6c681847304208418b20b3a804d44298d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:43 +0000
Subject: [PATCH 04/33] fix: honour key removals when applying an ORMap delta

A delta carries the sender's keys and causal context, so a key the sender saw
and removed is missing from it. Applying the delta kept such keys and still
merged the context, so the removal was lost for good.
---
 crates/logicaffeine_data/src/crdt/ormap.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/logicaffeine_data/src/crdt/ormap.rs b/crates/logicaffeine_data/src/crdt/ormap.rs
index d4103bc..cd5de37 100644
--- a/crates/logicaffeine_data/src/crdt/ormap.rs
+++ b/crates/logicaffeine_data/src/crdt/ormap.rs
@@ -211,6 +211,14 @@ impl<
             }
         }
 
+        // Handle removals: drop dots the delta's sender saw and no longer has
+        for (key, my_dots) in self.keys.iter_mut() {
+            let other_dots = delta.keys.get(key);
+            my_dots.retain(|dot| {
+                !delta.context.has_seen(dot) || other_dots.map_or(false, |d| d.contains(dot))
+            });
+        }
+
         // Merge context
         self.context.merge(&delta.context);
 
-- 
2.43.0


From 23787dddb1f83d63e4564eb2d9c9f82fce1861f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:43 +0000
Subject: [PATCH 05/33] fix: report concurrent peers as too far behind in
 DeltaBuffer

A peer whose version is concurrent with an evicted delta was served only the
retained deltas and silently missed the evicted one. Evicting deltas whose
versions are concurrent also forgot all but the last evicted version.
---
 crates/logicaffeine_data/src/crdt/delta_buffer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/logicaffeine_data/src/crdt/delta_buffer.rs b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
index b65def6..f92cde8 100644
--- a/crates/logicaffeine_data/src/crdt/delta_buffer.rs
+++ b/crates/logicaffeine_data/src/crdt/delta_buffer.rs
@@ -35,7 +35,7 @@ impl<D: Clone> DeltaBuffer<D> {
     pub fn push(&mut self, version: VClock, delta: D) {
         if self.deltas.len() >= self.max_size {
             if let Some((old_version, _)) = self.deltas.pop_front() {
-                self.oldest_version = old_version;
+                self.oldest_version.merge_vclock(&old_version);
             }
         }
         self.deltas.push_back((version, delta));
@@ -46,9 +46,11 @@ impl<D: Clone> DeltaBuffer<D> {
     /// Returns `None` if the version is older than or equal to our oldest evicted delta.
     /// Returns `Some(vec![])` if the peer is up-to-date.
     pub fn deltas_since(&self, version: &VClock) -> Option<Vec<D>> {
-        // If we've evicted deltas and the peer is at or behind what we evicted,
-        // we can't help them catch up (they need the evicted delta).
-        if self.oldest_version != VClock::new() && self.oldest_version.dominates(version) {
+        // If we've evicted deltas and the peer is at, behind or concurrent with what
+        // we evicted, we can't help them catch up (they need the evicted delta).
+        if self.oldest_version != VClock::new()
+            && (self.oldest_version.dominates(version) || !version.dominates(&self.oldest_version))
+        {
             return None;
         }
 
-- 
2.43.0


From c3860ec55c0c3751eac8aa982c4d9ff623b00e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:05 +0000
Subject: [PATCH 06/33] fix: cut a torn journal tail off on mount

A crash in the middle of an append leaves a partial entry at the end of the
journal. Mounting ignored it but left it in place, so entries appended later
landed behind it and the next mount either lost them or reported corruption.
---
 crates/logicaffeine_system/src/distributed.rs | 21 +++++++++++++++----
 crates/logicaffeine_system/src/storage/mod.rs | 21 +++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index b7b0d51..9efe52e 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -88,13 +88,15 @@ impl JournalHeader {
 }
 
 /// Replay journal entries to reconstruct state.
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+/// Also returns the length of the prefix made of complete entries.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -125,10 +127,11 @@ where
         }
 
         pos = payload_end;
+        valid = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid))
 }
 
 // =============================================================================
@@ -194,7 +197,12 @@ where
         // 1. Replay journal to reconstruct state
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Cut the torn tail off, or entries appended after it would be unreadable
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -405,7 +413,12 @@ where
     ) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Cut the torn tail off, or entries appended after it would be unreadable
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index b2405e0..4de1b05 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -120,13 +120,15 @@ where
 }
 
 /// Helper function to replay journal entries (shared between platforms).
-fn replay_journal<T>(data: &[u8]) -> Result<(T, u64), VfsError>
+/// Also returns the length of the prefix made of complete entries.
+fn replay_journal<T>(data: &[u8]) -> Result<(T, u64, usize), VfsError>
 where
     T: Merge + Serialize + DeserializeOwned + Clone + Default,
 {
     let mut state = T::default();
     let mut entry_count = 0u64;
     let mut pos = 0;
+    let mut valid = 0;
 
     while pos + JournalHeader::SIZE <= data.len() {
         let header_bytes: [u8; 8] = data[pos..pos + 8].try_into().unwrap();
@@ -157,10 +159,11 @@ where
         }
 
         pos = payload_end;
+        valid = pos;
         entry_count += 1;
     }
 
-    Ok((state, entry_count))
+    Ok((state, entry_count, valid))
 }
 
 /// Native implementation with Send bounds.
@@ -177,7 +180,12 @@ where
         pub async fn mount(vfs: Arc<dyn Vfs + Send + Sync>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Cut the torn tail off, or entries appended after it would be unreadable
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
@@ -264,7 +272,12 @@ where
     pub async fn mount(vfs: Arc<dyn Vfs>, path: &str) -> VfsResult<Self> {
         let (state, entry_count) = if vfs.exists(path).await.unwrap_or(false) {
             let data = vfs.read(path).await?;
-            replay_journal(&data)?
+            let (state, entry_count, valid) = replay_journal(&data)?;
+            if valid < data.len() {
+                // Cut the torn tail off, or entries appended after it would be unreadable
+                vfs.write(path, &data[..valid]).await?;
+            }
+            (state, entry_count)
         } else {
             (T::default(), 0)
         };
-- 
2.43.0


From 669f5ae82e3e8a63bd78ada949abc7b857e0d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:28 +0000
Subject: [PATCH 07/33] fix: keep journal and memory in step while compacting

Compaction took its snapshot, released the lock and then replaced the journal,
so an update appended in between was acknowledged and then lost on restart.
Distributed values also appended after releasing the lock. The lock is now held
until the entry or the snapshot is in the journal.
---
 crates/logicaffeine_system/src/distributed.rs | 34 +++++++++++--------
 crates/logicaffeine_system/src/storage/mod.rs | 12 ++++---
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/crates/logicaffeine_system/src/distributed.rs b/crates/logicaffeine_system/src/distributed.rs
index 9efe52e..230564c 100644
--- a/crates/logicaffeine_system/src/distributed.rs
+++ b/crates/logicaffeine_system/src/distributed.rs
@@ -241,10 +241,11 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // 2. Persist delta to Journal
+        // 2. Persist delta to Journal (before releasing the lock, so that a compaction
+        //    never replaces the journal between the two steps)
         self.append_to_journal(&snapshot).await?;
+        drop(guard);
 
         // 3. Broadcast to Network (if synced)
         if let Some(topic) = &self.topic {
@@ -267,8 +268,10 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        // Held until the snapshot is in place, so no entry is appended to the journal
+        // being replaced
+        let guard = self.inner.lock().await;
+        self.do_compact(&guard).await
     }
 
     /// Get the number of journal entries.
@@ -299,8 +302,9 @@ where
                     }
                 };
 
-                // Merge to RAM
-                inner.lock().await.merge(&delta);
+                // Merge to RAM (locked until the entry is in the journal)
+                let mut guard = inner.lock().await;
+                guard.merge(&delta);
 
                 // CRITICAL: Persist to Journal
                 // This ensures remote updates survive restarts
@@ -351,8 +355,8 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            let guard = self.inner.lock().await;
+            self.do_compact(&guard).await?;
         }
         Ok(())
     }
@@ -439,10 +443,10 @@ where
         let mut guard = self.inner.lock().await;
         let result = f(&mut *guard);
         let snapshot = (*guard).clone();
-        drop(guard);
 
-        // Persist delta to Journal
+        // Persist delta to Journal (before releasing the lock)
         self.append_to_journal(&snapshot).await?;
+        drop(guard);
 
         // Auto-compact if needed
         self.maybe_compact().await?;
@@ -457,8 +461,10 @@ where
 
     /// Manual compaction.
     pub async fn compact(&self) -> VfsResult<()> {
-        let snapshot = self.inner.lock().await.clone();
-        self.do_compact(&snapshot).await
+        // Held until the snapshot is in place, so no entry is appended to the journal
+        // being replaced
+        let guard = self.inner.lock().await;
+        self.do_compact(&guard).await
     }
 
     /// Get the number of journal entries.
@@ -485,8 +491,8 @@ where
     async fn maybe_compact(&self) -> VfsResult<()> {
         let count = *self.entry_count.lock().await;
         if count >= COMPACT_THRESHOLD {
-            let snapshot = self.inner.lock().await.clone();
-            self.do_compact(&snapshot).await?;
+            let guard = self.inner.lock().await;
+            self.do_compact(&guard).await?;
         }
         Ok(())
     }
diff --git a/crates/logicaffeine_system/src/storage/mod.rs b/crates/logicaffeine_system/src/storage/mod.rs
index 4de1b05..235572c 100644
--- a/crates/logicaffeine_system/src/storage/mod.rs
+++ b/crates/logicaffeine_system/src/storage/mod.rs
@@ -229,9 +229,11 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is in place, so no entry is appended to the journal
+        // being replaced
+        let guard = self.inner.lock().await;
 
-        let op = JournalOp::<T>::Snapshot(state);
+        let op = JournalOp::<T>::Snapshot(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
@@ -321,9 +323,11 @@ where
 
     /// Compact the journal by writing a snapshot.
     pub async fn compact(&self) -> VfsResult<()> {
-        let state = self.inner.lock().await.clone();
+        // Held until the snapshot is in place, so no entry is appended to the journal
+        // being replaced
+        let guard = self.inner.lock().await;
 
-        let op = JournalOp::<T>::Snapshot(state);
+        let op = JournalOp::<T>::Snapshot(guard.clone());
         let payload = bincode::serialize(&op)
             .map_err(|e| VfsError::SerializationError(e.to_string()))?;
 
-- 
2.43.0


From f42c0f5d178ef852c9f3bf96c62c1dac53ccdf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:28 +0000
Subject: [PATCH 08/33] fix: keep virtual paths inside the base directory

Only leading parent components were stripped, so a path such as "a/../../x" or
"/../x" reached files outside the base directory. Paths are now normalised
component by component and never climb above the base.
---
 crates/logicaffeine_system/src/fs/mod.rs   | 25 +++++++++++++++++++---
 crates/logicaffeine_system/src/fs/uring.rs |  3 +--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index 04fcd46..e6e113a 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -197,12 +197,31 @@ impl NativeVfs {
 
     /// Resolve a virtual path to an absolute filesystem path.
     fn resolve(&self, path: &str) -> PathBuf {
-        // Security: Prevent path traversal attacks
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        resolve_under(&self.base_dir, path)
     }
 }
 
+/// Join a virtual path to a base directory without ever leaving it.
+///
+/// Security: Prevent path traversal attacks. `..` goes up one component at most to
+/// the base directory itself, wherever in the path it stands.
+#[cfg(not(target_arch = "wasm32"))]
+fn resolve_under(base_dir: &std::path::Path, path: &str) -> PathBuf {
+    use std::path::Component;
+
+    let mut clean = PathBuf::new();
+    for component in std::path::Path::new(path).components() {
+        match component {
+            Component::Normal(name) => clean.push(name),
+            Component::ParentDir => {
+                clean.pop();
+            }
+            Component::CurDir | Component::RootDir | Component::Prefix(_) => {}
+        }
+    }
+    base_dir.join(clean)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 #[async_trait]
 impl Vfs for NativeVfs {
diff --git a/crates/logicaffeine_system/src/fs/uring.rs b/crates/logicaffeine_system/src/fs/uring.rs
index ff7f69f..fbbb16d 100644
--- a/crates/logicaffeine_system/src/fs/uring.rs
+++ b/crates/logicaffeine_system/src/fs/uring.rs
@@ -70,8 +70,7 @@ impl UringVfs {
     }
 
     fn resolve(&self, path: &str) -> PathBuf {
-        let clean = path.trim_start_matches('/').trim_start_matches("../");
-        self.base_dir.join(clean)
+        super::resolve_under(&self.base_dir, path)
     }
 
     fn send(&self, cmd: UringCommand) -> VfsResult<()> {
-- 
2.43.0


From ac8292e361196efbedeb2d6941d1b9253c6339d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:05 +0000
Subject: [PATCH 09/33] fix: give every atomic file write its own temporary
 file

The temporary name was the target's with its extension replaced, so concurrent
writes of one file, or of files differing only in extension, mixed their
contents, and writing "x.txt" destroyed an existing "x.tmp". A failed write
also left its temporary file behind.
---
 crates/logicaffeine_system/src/fs/mod.rs      | 33 ++++++++++++++++---
 .../src/fs/uring_worker.rs                    |  2 +-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_system/src/fs/mod.rs b/crates/logicaffeine_system/src/fs/mod.rs
index e6e113a..c134b69 100644
--- a/crates/logicaffeine_system/src/fs/mod.rs
+++ b/crates/logicaffeine_system/src/fs/mod.rs
@@ -201,6 +201,19 @@ impl NativeVfs {
     }
 }
 
+/// A fresh temporary name in the directory of `path`, for writing it atomically.
+///
+/// Every call gives another name, so concurrent writes never share a temporary file
+/// and a user's own `.tmp` files are left alone.
+#[cfg(not(target_arch = "wasm32"))]
+fn temp_beside(path: &std::path::Path) -> PathBuf {
+    use std::sync::atomic::{AtomicU64, Ordering};
+    static NEXT: AtomicU64 = AtomicU64::new(0);
+
+    let n = NEXT.fetch_add(1, Ordering::Relaxed);
+    path.with_file_name(format!(".{}-{}.tmp", std::process::id(), n))
+}
+
 /// Join a virtual path to a base directory without ever leaving it.
 ///
 /// Security: Prevent path traversal attacks. `..` goes up one component at most to
@@ -243,12 +256,24 @@ impl Vfs for NativeVfs {
             tokio::fs::create_dir_all(parent).await?;
         }
 
+        if full_path == self.base_dir {
+            return Err(VfsError::IoError(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "the base directory is not a file",
+            )));
+        }
+
         // Atomic write: write to temp file, then rename
-        let temp_path = full_path.with_extension("tmp");
-        tokio::fs::write(&temp_path, contents).await?;
-        tokio::fs::rename(&temp_path, &full_path).await?;
+        let temp_path = temp_beside(&full_path);
+        let written = match tokio::fs::write(&temp_path, contents).await {
+            Ok(()) => tokio::fs::rename(&temp_path, &full_path).await,
+            Err(e) => Err(e),
+        };
+        if written.is_err() {
+            let _ = tokio::fs::remove_file(&temp_path).await;
+        }
 
-        Ok(())
+        Ok(written?)
     }
 
     async fn append(&self, path: &str, contents: &[u8]) -> VfsResult<()> {
diff --git a/crates/logicaffeine_system/src/fs/uring_worker.rs b/crates/logicaffeine_system/src/fs/uring_worker.rs
index 0737b62..c321941 100644
--- a/crates/logicaffeine_system/src/fs/uring_worker.rs
+++ b/crates/logicaffeine_system/src/fs/uring_worker.rs
@@ -351,7 +351,7 @@ fn prepare_atomic_write(
         }
     }
 
-    let temp_path = dest_path.with_extension("tmp");
+    let temp_path = super::temp_beside(&dest_path);
 
     let file = match OpenOptions::new()
         .write(true)
-- 
2.43.0


From d771a75b7734a31ae286d0ec8b28f99b361d4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:05 +0000
Subject: [PATCH 10/33] fix: open a one-time-pad cover at most once across
 threads

The replay check and the marking of a cover as consumed took the lock
separately, so two threads handed the same cover could both get its plaintext.
---
 crates/logicaffeine_compile/src/concurrency/pnp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/concurrency/pnp.rs b/crates/logicaffeine_compile/src/concurrency/pnp.rs
index 81469ef..4f1a9dc 100644
--- a/crates/logicaffeine_compile/src/concurrency/pnp.rs
+++ b/crates/logicaffeine_compile/src/concurrency/pnp.rs
@@ -396,7 +396,11 @@ impl PnpSuite {
         for ((d, c), p) in plain.iter_mut().zip(payload).zip(xor) {
             *d = c ^ p;
         }
-        self.recv.lock().unwrap().accept(offset, end);
+        let mut recv = self.recv.lock().unwrap();
+        if !recv.acceptable(offset) {
+            return None; // another thread opened the same cover meanwhile
+        }
+        recv.accept(offset, end);
         Some(plain)
     }
 }
-- 
2.43.0


From 0d7646a570ee8cbc67a32769a4df9f819583f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 11/33] fix: do not propagate constants of names that are bound
 more than once

---
 .../src/optimize/propagate.rs                 | 57 +++++++++++++------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/propagate.rs b/crates/logicaffeine_compile/src/optimize/propagate.rs
index b78adc9..0839146 100644
--- a/crates/logicaffeine_compile/src/optimize/propagate.rs
+++ b/crates/logicaffeine_compile/src/optimize/propagate.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
 use crate::arena::Arena;
-use crate::ast::stmt::{Expr, Literal, Stmt};
+use crate::ast::stmt::{Expr, Literal, Pattern, Stmt};
 use crate::intern::{Interner, Symbol};
 use super::fold;
 
@@ -13,6 +13,7 @@ use super::fold;
 /// Only propagates variables that are:
 /// - Declared without `mutable` keyword
 /// - Never reassigned via `Set`
+/// - Bound only once (a name bound again, e.g. by a loop, is another variable)
 /// - Bound to a literal value (after previous fold pass)
 ///
 /// Only substitutes inside `Let`/`Set` value expressions to preserve
@@ -355,48 +356,70 @@ fn substitute_identifiers<'a>(
 
 /// Collect all variables that appear as `Set` targets (recursively through all blocks).
 fn collect_all_set_targets(stmts: &[Stmt]) -> HashSet<Symbol> {
-    let mut targets = HashSet::new();
-    for stmt in stmts {
-        collect_set_targets_in_stmt(stmt, &mut targets);
-    }
-    targets
+    collect_all_set_targets_from_block(stmts)
 }
 
 fn collect_all_set_targets_from_block(block: &[Stmt]) -> HashSet<Symbol> {
+    rebound_names(block, &[])
+}
+
+/// The names a body with parameters `params` assigns or binds more than once.
+pub(super) fn rebound_names(body: &[Stmt], params: &[Symbol]) -> HashSet<Symbol> {
     let mut targets = HashSet::new();
-    for stmt in block {
-        collect_set_targets_in_stmt(stmt, &mut targets);
+    let mut bound: HashSet<Symbol> = params.iter().copied().collect();
+    for stmt in body {
+        collect_set_targets_in_stmt(stmt, &mut targets, &mut bound);
     }
     targets
 }
 
-fn collect_set_targets_in_stmt(stmt: &Stmt, targets: &mut HashSet<Symbol>) {
+/// `bound` holds the names bound so far; one bound a second time joins `targets`.
+fn collect_set_targets_in_stmt(stmt: &Stmt, targets: &mut HashSet<Symbol>, bound: &mut HashSet<Symbol>) {
+    let mut bind = |name: Symbol, targets: &mut HashSet<Symbol>| {
+        if !bound.insert(name) {
+            targets.insert(name);
+        }
+    };
+    match stmt {
+        Stmt::Let { var, .. } => bind(*var, targets),
+        Stmt::Repeat { pattern: Pattern::Identifier(var), .. } => bind(*var, targets),
+        Stmt::Repeat { pattern: Pattern::Tuple(vars), .. } => {
+            for var in vars { bind(*var, targets); }
+        }
+        Stmt::Pop { into: Some(var), .. } => bind(*var, targets),
+        Stmt::Inspect { arms, .. } => {
+            for arm in arms {
+                for (_, var) in &arm.bindings { bind(*var, targets); }
+            }
+        }
+        _ => {}
+    }
     match stmt {
         Stmt::Set { target, .. } => { targets.insert(*target); }
         Stmt::If { then_block, else_block, .. } => {
-            for s in *then_block { collect_set_targets_in_stmt(s, targets); }
+            for s in *then_block { collect_set_targets_in_stmt(s, targets, bound); }
             if let Some(eb) = else_block {
-                for s in *eb { collect_set_targets_in_stmt(s, targets); }
+                for s in *eb { collect_set_targets_in_stmt(s, targets, bound); }
             }
         }
         Stmt::While { body, .. } => {
-            for s in *body { collect_set_targets_in_stmt(s, targets); }
+            for s in *body { collect_set_targets_in_stmt(s, targets, bound); }
         }
         Stmt::Repeat { body, .. } => {
-            for s in *body { collect_set_targets_in_stmt(s, targets); }
+            for s in *body { collect_set_targets_in_stmt(s, targets, bound); }
         }
         Stmt::Zone { body, .. } => {
-            for s in *body { collect_set_targets_in_stmt(s, targets); }
+            for s in *body { collect_set_targets_in_stmt(s, targets, bound); }
         }
         Stmt::Concurrent { tasks } => {
-            for s in *tasks { collect_set_targets_in_stmt(s, targets); }
+            for s in *tasks { collect_set_targets_in_stmt(s, targets, bound); }
         }
         Stmt::Parallel { tasks } => {
-            for s in *tasks { collect_set_targets_in_stmt(s, targets); }
+            for s in *tasks { collect_set_targets_in_stmt(s, targets, bound); }
         }
         Stmt::Inspect { arms, .. } => {
             for arm in arms {
-                for s in arm.body { collect_set_targets_in_stmt(s, targets); }
+                for s in arm.body { collect_set_targets_in_stmt(s, targets, bound); }
             }
         }
         _ => {}
-- 
2.43.0


From 176e277b83ba4bbfc2a1bbdaf1dcc84639be3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 12/33] fix: keep failing and side-effecting computations in
 place when hoisting, peeling and eliminating dead code

Loop-invariant code motion hoisted expressions that may fail out of loops that
do not run, and moved names that are bound again inside the loop. Dead store
elimination dropped values that may fail. A constant branch that binds names was
spliced into the surrounding block.
---
 .../logicaffeine_compile/src/optimize/dce.rs  |  29 ++-
 .../logicaffeine_compile/src/optimize/licm.rs | 216 ++++++++++++++----
 2 files changed, 191 insertions(+), 54 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index 13ca808..db864ac 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -3,6 +3,7 @@ use std::collections::{HashMap, HashSet};
 use crate::arena::Arena;
 use crate::ast::stmt::{Expr, Literal, MatchArm, Stmt, StringPart, ClosureBody};
 use crate::intern::Symbol;
+use super::licm::is_total;
 
 /// Collect all symbols read by an expression.
 /// Returns false if the expression contains opaque parts (Escape, Call, CallExpr)
@@ -226,7 +227,10 @@ fn dead_store_elimination<'a>(
                         // Previous Set was never read → dead store
                         dead_indices.insert(prev_idx);
                     }
-                    last_set.insert(*target, i);
+                    // A store whose value may fail is observable even if never read.
+                    if is_total(value) {
+                        last_set.insert(*target, i);
+                    }
                 } else {
                     // Opaque value: conservatively clear all tracking
                     last_set.clear();
@@ -257,6 +261,14 @@ fn dead_store_elimination<'a>(
     result
 }
 
+pub(super) fn binds_names(block: &[Stmt]) -> bool {
+    block.iter().any(|stmt| match stmt {
+        Stmt::Let { .. } | Stmt::Pop { into: Some(_), .. } => true,
+        Stmt::Splice { body } => binds_names(body),
+        _ => false,
+    })
+}
+
 pub fn eliminate_dead_code<'a>(
     stmts: Vec<Stmt<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
@@ -271,10 +283,17 @@ pub fn eliminate_dead_code<'a>(
         match stmt {
             Stmt::If { cond, then_block, else_block } => {
                 if let Expr::Literal(Literal::Boolean(val)) = cond {
-                    if *val {
-                        result.extend(then_block.iter().cloned());
-                    } else if let Some(else_stmts) = else_block {
-                        result.extend(else_stmts.iter().cloned());
+                    let taken = if *val { Some(then_block) } else { else_block };
+                    match taken {
+                        // A binding in the taken block must stay in a block of
+                        // its own: it may shadow one of this block's.
+                        Some(block) if binds_names(block) => {
+                            let cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(true)));
+                            let then_block = dce_block(block, stmt_arena, expr_arena);
+                            result.push(Stmt::If { cond, then_block, else_block: None });
+                        }
+                        Some(block) => result.extend(block.iter().cloned()),
+                        None => {}
                     }
                 } else {
                     let then_dce = dce_block(then_block, stmt_arena, expr_arena);
diff --git a/crates/logicaffeine_compile/src/optimize/licm.rs b/crates/logicaffeine_compile/src/optimize/licm.rs
index 43783eb..543f8f6 100644
--- a/crates/logicaffeine_compile/src/optimize/licm.rs
+++ b/crates/logicaffeine_compile/src/optimize/licm.rs
@@ -6,6 +6,9 @@
 
 use std::collections::HashSet;
 
+use super::abstract_interp::{breaks_out, by_ref_fns, collect_passed_deep, expr_may_call};
+use super::dce::binds_names;
+
 use crate::arena::Arena;
 use crate::ast::stmt::{BinaryOpKind, Block, Expr, Stmt};
 use crate::intern::{Interner, Symbol};
@@ -107,6 +110,44 @@ pub(crate) fn is_loop_invariant(expr: &Expr, loop_writes: &HashSet<Symbol>) -> b
     }
 }
 
+/// True when evaluating `expr` cannot fail, so that it may run earlier than —
+/// or without — the statement that holds it.
+pub(super) fn is_total(expr: &Expr) -> bool {
+    match expr {
+        Expr::Literal(_) | Expr::Identifier(_) => true,
+        Expr::BinaryOp { op, left, right } => {
+            let op_is_total = match op {
+                BinaryOpKind::Add
+                | BinaryOpKind::Subtract
+                | BinaryOpKind::Multiply
+                | BinaryOpKind::Eq
+                | BinaryOpKind::NotEq
+                | BinaryOpKind::Lt
+                | BinaryOpKind::Gt
+                | BinaryOpKind::LtEq
+                | BinaryOpKind::GtEq
+                | BinaryOpKind::And
+                | BinaryOpKind::Or
+                | BinaryOpKind::Concat
+                | BinaryOpKind::ApproxEq
+                | BinaryOpKind::BitXor
+                | BinaryOpKind::BitAnd
+                | BinaryOpKind::BitOr => true,
+                BinaryOpKind::Divide | BinaryOpKind::FloorDivide | BinaryOpKind::Modulo => {
+                    matches!(right, Expr::Literal(crate::ast::stmt::Literal::Number(n)) if *n != 0)
+                }
+                _ => false,
+            };
+            op_is_total && is_total(left) && is_total(right)
+        }
+        Expr::Not { operand: e } | Expr::Length { collection: e } | Expr::FieldAccess { object: e, .. } => {
+            is_total(e)
+        }
+        Expr::Contains { collection, value } => is_total(collection) && is_total(value),
+        _ => false,
+    }
+}
+
 /// Returns true if the expression is non-trivial (worth hoisting).
 fn is_worth_hoisting(expr: &Expr) -> bool {
     matches!(
@@ -403,7 +444,12 @@ fn hoist_invariant_loads<'a>(
         if !stmt_runs_unconditionally(s) {
             break;
         }
-        for e in stmt_value_exprs(s) {
+        let exprs = stmt_value_exprs(s);
+        // A callee's effects come before whatever follows it.
+        if exprs.iter().any(|e| expr_may_call(e)) {
+            break;
+        }
+        for e in exprs {
             collect_indexed_loads(e, loop_writes, &mut loads);
         }
     }
@@ -510,40 +556,58 @@ fn extract_eq_boundary(expr: &Expr) -> Option<(Symbol, i64)> {
     }
 }
 
-/// Find the start value of a counter variable from the enclosing context.
-/// Looks for the pattern: counter starts at some value based on the While condition.
-/// For `While i < n` with `i` starting at 0, the start value is 0.
-fn find_counter_start(counter: Symbol, body: &[Stmt]) -> Option<i64> {
-    // Check if the counter is incremented in the body (Set counter to counter + 1)
-    for stmt in body {
-        if let Stmt::Set { target, value } = stmt {
-            if *target == counter {
-                if let Expr::BinaryOp { op: crate::ast::stmt::BinaryOpKind::Add, left, right } = &**value {
-                    if let Expr::Identifier(sym) = &**left {
-                        if *sym == counter {
-                            if let Expr::Literal(crate::ast::stmt::Literal::Number(1)) = &**right {
-                                return Some(0);
-                            }
-                        }
-                    }
-                }
+/// Find the start value of a counter variable from the enclosing context: the
+/// literal that `before` (the statements ahead of the loop in its block) leaves
+/// in it. The body must only ever step the counter up, by one, at its top level.
+fn find_counter_start(counter: Symbol, before: &[Stmt], body: &[Stmt]) -> Option<i64> {
+    let steps_by_one = |stmt: &Stmt| match stmt {
+        Stmt::Set { target, value: Expr::BinaryOp { op: BinaryOpKind::Add, left, right } } => {
+            *target == counter
+                && matches!(&**left, Expr::Identifier(sym) if *sym == counter)
+                && matches!(&**right, Expr::Literal(crate::ast::stmt::Literal::Number(1)))
+        }
+        _ => false,
+    };
+    let writes_counter =
+        |stmt: &Stmt| collect_loop_writes(std::slice::from_ref(stmt)).contains(&counter);
+    let mut writers = body.iter().filter(|s| writes_counter(s));
+    if !writers.next().map_or(false, steps_by_one) || writers.next().is_some() {
+        return None;
+    }
+    match before.iter().rev().find(|s| writes_counter(s))? {
+        Stmt::Let { var: target, value, .. } | Stmt::Set { target, value } if *target == counter => {
+            match value {
+                Expr::Literal(crate::ast::stmt::Literal::Number(n)) => Some(*n),
+                _ => None,
             }
         }
+        _ => None,
+    }
+}
+
+/// The statements of a branch spliced into the block around it. A branch that
+/// binds names stays a block: they may shadow the names around it.
+fn inline_branch<'a>(branch: Block<'a>, expr_arena: &'a Arena<Expr<'a>>) -> Vec<Stmt<'a>> {
+    if binds_names(branch) {
+        let cond = expr_arena.alloc(Expr::Literal(crate::ast::stmt::Literal::Boolean(true)));
+        vec![Stmt::If { cond, then_block: branch, else_block: None }]
+    } else {
+        branch.to_vec()
     }
-    None
 }
 
 /// Try to peel the first iteration of a While loop.
 /// Detects `If counter == start: ... Otherwise: ...` in the body and extracts
 /// the first iteration, simplifying the remaining loop body.
 fn try_peel<'a>(
+    enclosing: &[Stmt<'a>],
     body: &'a [Stmt<'a>],
     while_cond: &'a Expr<'a>,
     decreasing: Option<&'a Expr<'a>>,
     expr_arena: &'a Arena<Expr<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    hoist_indexed_loads: bool,
+    ctx: &Ctx,
 ) -> Option<Vec<Stmt<'a>>> {
     // Find an If with an equality boundary check
     let if_idx = body.iter().position(|s| {
@@ -561,12 +625,21 @@ fn try_peel<'a>(
 
     let (counter_sym, boundary_value) = extract_eq_boundary(if_cond)?;
 
-    // Only peel first iteration (boundary == 0 or start value)
-    let start_value = find_counter_start(counter_sym, body)?;
+    // Only peel first iteration (boundary == start value)
+    let start_value = find_counter_start(counter_sym, enclosing, body)?;
     if boundary_value != start_value {
         return None;
     }
 
+    // The peeled copy is outside any loop, so it cannot break out of one. The
+    // check has to see the start value, and the guard is evaluated twice.
+    if breaks_out(body)
+        || collect_loop_writes(&body[..if_idx]).contains(&counter_sym)
+        || !is_side_effect_free(while_cond)
+    {
+        return None;
+    }
+
     // Verify the counter is used in the While condition
     let counter_in_cond = match while_cond {
         Expr::BinaryOp { left, .. } => matches!(&**left, Expr::Identifier(sym) if *sym == counter_sym),
@@ -582,17 +655,17 @@ fn try_peel<'a>(
     let after = &body[if_idx + 1..];
 
     let mut peeled_stmts: Vec<Stmt<'a>> = before.iter().cloned().collect();
-    peeled_stmts.extend(then_block.iter().cloned());
+    peeled_stmts.extend(inline_branch(then_block, expr_arena));
     peeled_stmts.extend(after.iter().cloned());
 
     // Build remaining loop body (else branch replaces the If):
     // [stmts_before_if..., else_block stmts..., stmts_after_if...]
     let mut remaining_body: Vec<Stmt<'a>> = before.iter().cloned().collect();
-    remaining_body.extend(else_block.iter().cloned());
+    remaining_body.extend(inline_branch(else_block, expr_arena));
     remaining_body.extend(after.iter().cloned());
 
     // Wrap peeled iteration in a guard: If while_cond { peeled } (handles zero-trip case)
-    let remaining_processed = licm_stmts_with(remaining_body, expr_arena, stmt_arena, interner, hoist_indexed_loads);
+    let remaining_processed = licm_stmts_with(remaining_body, expr_arena, stmt_arena, interner, ctx);
 
     let remaining_while = Stmt::While {
         cond: while_cond,
@@ -624,7 +697,7 @@ fn try_unswitch<'a>(
     expr_arena: &'a Arena<Expr<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    hoist_indexed_loads: bool,
+    ctx: &Ctx,
 ) -> Option<Stmt<'a>> {
     // Find a top-level If with invariant condition and else branch
     let if_idx = body.iter().position(|s| {
@@ -644,7 +717,7 @@ fn try_unswitch<'a>(
             effective_writes.insert(*var);
         }
     }
-    if !is_loop_invariant(if_cond, &effective_writes) {
+    if !is_loop_invariant(if_cond, &effective_writes) || !is_total(if_cond) {
         return None;
     }
 
@@ -655,16 +728,16 @@ fn try_unswitch<'a>(
     let after = &body[if_idx + 1..];
 
     let mut then_body_stmts: Vec<Stmt<'a>> = before.iter().cloned().collect();
-    then_body_stmts.extend(then_block.iter().cloned());
+    then_body_stmts.extend(inline_branch(then_block, expr_arena));
     then_body_stmts.extend(after.iter().cloned());
 
     let mut else_body_stmts: Vec<Stmt<'a>> = before.iter().cloned().collect();
-    else_body_stmts.extend(else_block.iter().cloned());
+    else_body_stmts.extend(inline_branch(else_block, expr_arena));
     else_body_stmts.extend(after.iter().cloned());
 
     // Recursively process both bodies
-    let then_processed = licm_stmts_with(then_body_stmts, expr_arena, stmt_arena, interner, hoist_indexed_loads);
-    let else_processed = licm_stmts_with(else_body_stmts, expr_arena, stmt_arena, interner, hoist_indexed_loads);
+    let then_processed = licm_stmts_with(then_body_stmts, expr_arena, stmt_arena, interner, ctx);
+    let else_processed = licm_stmts_with(else_body_stmts, expr_arena, stmt_arena, interner, ctx);
 
     let then_while = Stmt::While {
         cond: while_cond,
@@ -697,7 +770,8 @@ pub fn licm_stmts<'a>(
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
 ) -> Vec<Stmt<'a>> {
-    licm_stmts_with(stmts, expr_arena, stmt_arena, interner, false)
+    let ctx = Ctx::new(&stmts, false);
+    licm_stmts_with(stmts, expr_arena, stmt_arena, interner, &ctx)
 }
 
 /// [`licm_stmts`] with the indexed-load hoist enabled — the run-path entry.
@@ -707,7 +781,49 @@ pub fn licm_stmts_run<'a>(
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
 ) -> Vec<Stmt<'a>> {
-    licm_stmts_with(stmts, expr_arena, stmt_arena, interner, true)
+    let ctx = Ctx::new(&stmts, true);
+    licm_stmts_with(stmts, expr_arena, stmt_arena, interner, &ctx)
+}
+
+/// What hoisting out of a loop has to know about the code around it.
+struct Ctx {
+    hoist_indexed_loads: bool,
+    /// Functions that may resize or rewrite a collection passed to them.
+    by_ref: HashSet<Symbol>,
+    /// Names this body binds more than once: the binding in a loop may shadow
+    /// another one, which hoisting it would replace.
+    rebound: HashSet<Symbol>,
+}
+
+impl Ctx {
+    fn new(stmts: &[Stmt], hoist_indexed_loads: bool) -> Self {
+        let by_ref = by_ref_fns(stmts);
+        Ctx { hoist_indexed_loads, by_ref, rebound: super::propagate::rebound_names(stmts, &[]) }
+    }
+
+    fn for_function(&self, params: &[Symbol], body: &[Stmt]) -> Self {
+        Ctx {
+            hoist_indexed_loads: self.hoist_indexed_loads,
+            by_ref: self.by_ref.clone(),
+            rebound: super::propagate::rebound_names(body, params),
+        }
+    }
+
+    /// The names a loop over `body` may change.
+    fn loop_writes(&self, body: &[Stmt]) -> HashSet<Symbol> {
+        let mut writes = collect_loop_writes(body);
+        let mut passed = Vec::new();
+        collect_passed_deep(body, &self.by_ref, &mut passed);
+        writes.extend(passed);
+        writes
+    }
+
+    fn may_hoist(&self, var: Symbol, value: &Expr, loop_writes: &HashSet<Symbol>) -> bool {
+        is_loop_invariant(value, loop_writes)
+            && is_worth_hoisting(value)
+            && is_total(value)
+            && !self.rebound.contains(&var)
+    }
 }
 
 fn licm_stmts_with<'a>(
@@ -715,24 +831,24 @@ fn licm_stmts_with<'a>(
     expr_arena: &'a Arena<Expr<'a>>,
     stmt_arena: &'a Arena<Stmt<'a>>,
     interner: &mut Interner,
-    hoist_indexed_loads: bool,
+    ctx: &Ctx,
 ) -> Vec<Stmt<'a>> {
     let mut result = Vec::with_capacity(stmts.len());
 
     for stmt in stmts {
         match stmt {
             Stmt::While { cond, body, decreasing } => {
-                let loop_writes = collect_loop_writes(body);
+                let loop_writes = ctx.loop_writes(body);
 
                 // Loop unswitching: if the body contains a top-level If with an
                 // invariant condition (and else branch), hoist the If outside.
-                if let Some(unswitched) = try_unswitch(body, &loop_writes, cond, decreasing, expr_arena, stmt_arena, interner, hoist_indexed_loads) {
+                if let Some(unswitched) = try_unswitch(body, &loop_writes, cond, decreasing, expr_arena, stmt_arena, interner, ctx) {
                     result.push(unswitched);
                     continue;
                 }
 
                 // Loop peeling: extract first iteration when body has If counter==start
-                if let Some(peeled) = try_peel(body, cond, decreasing, expr_arena, stmt_arena, interner, hoist_indexed_loads) {
+                if let Some(peeled) = try_peel(&result, body, cond, decreasing, expr_arena, stmt_arena, interner, ctx) {
                     result.extend(peeled);
                     continue;
                 }
@@ -741,8 +857,8 @@ fn licm_stmts_with<'a>(
                 let mut remaining = Vec::new();
 
                 for s in body.iter().cloned() {
-                    if let Stmt::Let { var: _, ty: _, value, mutable: false } = &s {
-                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) {
+                    if let Stmt::Let { var, ty: _, value, mutable: false } = &s {
+                        if ctx.may_hoist(*var, value, &loop_writes) {
                             hoisted.push(s);
                             continue;
                         }
@@ -751,7 +867,7 @@ fn licm_stmts_with<'a>(
                 }
 
                 // Recursively process the remaining loop body
-                let processed_remaining = licm_stmts_with(remaining, expr_arena, stmt_arena, interner, hoist_indexed_loads);
+                let processed_remaining = licm_stmts_with(remaining, expr_arena, stmt_arena, interner, ctx);
                 let inner = Stmt::While {
                     cond,
                     body: stmt_arena.alloc_slice(processed_remaining),
@@ -767,7 +883,7 @@ fn licm_stmts_with<'a>(
                 // `If cond { … }` so they run iff the loop body runs at least
                 // once (only when `cond` is side-effect-free, so the duplicated
                 // test is observationally identical).
-                let guarded = if hoist_indexed_loads {
+                let guarded = if ctx.hoist_indexed_loads {
                     hoist_invariant_loads(
                         inner.clone(), cond, &loop_writes, expr_arena, stmt_arena, interner,
                     )
@@ -780,7 +896,7 @@ fn licm_stmts_with<'a>(
                 }
             }
             Stmt::Repeat { pattern, iterable, body } => {
-                let mut loop_writes = collect_loop_writes(body);
+                let mut loop_writes = ctx.loop_writes(body);
                 // The pattern variable varies each iteration — expressions
                 // reading it are NOT loop-invariant.
                 if let crate::ast::stmt::Pattern::Identifier(sym) = &pattern {
@@ -790,8 +906,8 @@ fn licm_stmts_with<'a>(
                 let mut remaining = Vec::new();
 
                 for s in body.iter().cloned() {
-                    if let Stmt::Let { var: _, ty: _, value, mutable: false } = &s {
-                        if is_loop_invariant(value, &loop_writes) && is_worth_hoisting(value) {
+                    if let Stmt::Let { var, ty: _, value, mutable: false } = &s {
+                        if ctx.may_hoist(*var, value, &loop_writes) {
                             hoisted.push(s);
                             continue;
                         }
@@ -799,7 +915,7 @@ fn licm_stmts_with<'a>(
                     remaining.push(s);
                 }
 
-                let processed_remaining = licm_stmts_with(remaining, expr_arena, stmt_arena, interner, hoist_indexed_loads);
+                let processed_remaining = licm_stmts_with(remaining, expr_arena, stmt_arena, interner, ctx);
                 result.extend(hoisted);
                 result.push(Stmt::Repeat {
                     pattern,
@@ -808,7 +924,9 @@ fn licm_stmts_with<'a>(
                 });
             }
             Stmt::FunctionDef { name, generics, params, body, return_type, is_native, native_path, is_exported, export_target, opt_flags } => {
-                let new_body = licm_stmts_with(body.to_vec(), expr_arena, stmt_arena, interner, hoist_indexed_loads);
+                let param_names: Vec<Symbol> = params.iter().map(|(p, _)| *p).collect();
+                let ctx = &ctx.for_function(&param_names, body);
+                let new_body = licm_stmts_with(body.to_vec(), expr_arena, stmt_arena, interner, ctx);
                 result.push(Stmt::FunctionDef {
                     name, generics, params,
                     body: stmt_arena.alloc_slice(new_body),
@@ -816,9 +934,9 @@ fn licm_stmts_with<'a>(
                 });
             }
             Stmt::If { cond, then_block, else_block } => {
-                let new_then = licm_stmts_with(then_block.to_vec(), expr_arena, stmt_arena, interner, hoist_indexed_loads);
+                let new_then = licm_stmts_with(then_block.to_vec(), expr_arena, stmt_arena, interner, ctx);
                 let new_else = else_block.map(|eb| {
-                    let processed = licm_stmts_with(eb.to_vec(), expr_arena, stmt_arena, interner, hoist_indexed_loads);
+                    let processed = licm_stmts_with(eb.to_vec(), expr_arena, stmt_arena, interner, ctx);
                     let b: Block = stmt_arena.alloc_slice(processed);
                     b
                 });
@@ -829,7 +947,7 @@ fn licm_stmts_with<'a>(
                 });
             }
             Stmt::Zone { name, capacity, source_file, body } => {
-                let new_body = licm_stmts_with(body.to_vec(), expr_arena, stmt_arena, interner, hoist_indexed_loads);
+                let new_body = licm_stmts_with(body.to_vec(), expr_arena, stmt_arena, interner, ctx);
                 result.push(Stmt::Zone {
                     name, capacity, source_file,
                     body: stmt_arena.alloc_slice(new_body),
-- 
2.43.0


From 8c7eb3d2e47ef0bcf09e8a12bad37600ec1d3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 13/33] fix: value-range analysis forgets lengths, ranges and
 aliases that no longer hold

Lengths survived pushes, pops and calls by reference, ranges survived rebinding
and loops that break, narrowed intervals overflowed, and a condition that may
fail was decided without being evaluated.
---
 .../src/optimize/abstract_interp.rs           | 606 ++++++++++++++----
 1 file changed, 477 insertions(+), 129 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index f73d11a..c166399 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -90,7 +90,8 @@ impl Bound {
     /// infinite, its sign flipping when `k < 0`.
     fn div_by(&self, k: i64) -> Bound {
         match self {
-            Bound::Finite(a) => Bound::Finite(a / k),
+            // `i64::MIN / -1` is the one quotient beyond `i64`.
+            Bound::Finite(a) => a.checked_div(k).map_or(Bound::PosInf, Bound::Finite),
             Bound::NegInf => {
                 if k > 0 {
                     Bound::NegInf
@@ -263,11 +264,25 @@ impl Interval {
             && self.hi.cmp_bound(&other.hi) != std::cmp::Ordering::Greater
     }
 
+    /// Integers are unbounded at run time: a bound that overflowed says only
+    /// that the value lies beyond the `i64` range, so it falls back to the end
+    /// of that range.
+    fn overflowed(self) -> Interval {
+        if self.is_bottom() {
+            return self;
+        }
+        Interval {
+            lo: Bound::min_bound(&self.lo, &Bound::Finite(i64::MAX)),
+            hi: Bound::max_bound(&self.hi, &Bound::Finite(i64::MIN)),
+        }
+    }
+
     fn add(&self, other: &Interval) -> Interval {
         Interval {
             lo: self.lo.add(&other.lo),
             hi: self.hi.add(&other.hi),
         }
+        .overflowed()
     }
 
     fn sub(&self, other: &Interval) -> Interval {
@@ -275,6 +290,13 @@ impl Interval {
             lo: self.lo.sub(&other.hi),
             hi: self.hi.sub(&other.lo),
         }
+        .overflowed()
+    }
+
+    /// The values of this interval with the negative ones raised to zero.
+    fn at_least_zero(&self) -> Interval {
+        let zero = Bound::Finite(0);
+        Interval { lo: Bound::max_bound(&self.lo, &zero), hi: Bound::max_bound(&self.hi, &zero) }
     }
 
     fn mul(&self, other: &Interval) -> Interval {
@@ -294,17 +316,10 @@ impl Interval {
             lo = Bound::min_bound(&lo, c);
             hi = Bound::max_bound(&hi, c);
         }
-        Interval { lo, hi }
+        Interval { lo, hi }.overflowed()
     }
 
     fn div(&self, other: &Interval) -> Interval {
-        if let (Some(a), Some(b)) = (self.is_exact(), other.is_exact()) {
-            if b != 0 {
-                // `wrapping_div` matches the runtime (semantics/arith.rs) and
-                // avoids the `i64::MIN / -1` overflow panic of raw `/`.
-                return Interval::exact(a.wrapping_div(b));
-            }
-        }
         // Constant nonzero divisor, arbitrary dividend range. Truncating
         // division (toward zero, matching Rust `/`) is monotone in the dividend
         // for a positive divisor, so both bounds map through; a negative divisor
@@ -314,7 +329,7 @@ impl Interval {
             if k > 0 {
                 return Interval { lo: self.lo.div_by(k), hi: self.hi.div_by(k) };
             } else if k < 0 {
-                return Interval { lo: self.hi.div_by(k), hi: self.lo.div_by(k) };
+                return Interval { lo: self.hi.div_by(k), hi: self.lo.div_by(k) }.overflowed();
             }
         }
         Interval::top()
@@ -699,6 +714,19 @@ impl CollectionShape {
         }
     }
 
+    /// The shape of a collection whose length lies in `len`.
+    fn from_length(len: &Interval) -> Self {
+        let lo = match len.lo {
+            Bound::Finite(lo) => lo.max(0) as u64,
+            _ => 0,
+        };
+        let hi = match len.hi {
+            Bound::Finite(hi) => Some(hi.max(0) as u64),
+            _ => None,
+        };
+        CollectionShape::from_bounds(lo, hi)
+    }
+
     /// Effect of `Push` — size grows by one.
     fn pushed(&self) -> Self {
         match self.bounds() {
@@ -1097,6 +1125,12 @@ impl AbstractState {
         self.vars.insert(sym, range);
     }
 
+    /// Drop every fact about `sym`.
+    fn forget(&mut self, sym: Symbol) {
+        self.vars.remove(&sym);
+        self.lengths.remove(&sym);
+    }
+
     fn get_length(&self, sym: &Symbol) -> Interval {
         self.lengths.get(sym).cloned().unwrap_or(Interval::non_negative())
     }
@@ -1196,14 +1230,17 @@ fn eval_condition(cond: &Expr, state: &AbstractState) -> Option<bool> {
     }
 }
 
-fn narrow_state(cond: &Expr, state: &mut AbstractState) {
+/// Narrow by a comparison that holds. `step` is how far a strict comparison
+/// moves the bound: 1 when the compared name is known to hold an integer, 0
+/// when it may hold a fraction.
+fn narrow_state(cond: &Expr, state: &mut AbstractState, step: i64) {
     match cond {
         Expr::BinaryOp { op: BinaryOpKind::Gt, left, right } => {
             if let Expr::Identifier(sym) = left {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
                     let cur = state.get_var(sym);
-                    if let Some(new_lo) = n.checked_add(1) {
+                    if let Some(new_lo) = n.checked_add(step) {
                         state.set_var(*sym, Interval {
                             lo: Bound::max_bound(&cur.lo, &Bound::Finite(new_lo)),
                             hi: cur.hi,
@@ -1217,7 +1254,7 @@ fn narrow_state(cond: &Expr, state: &mut AbstractState) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
                     let cur = state.get_var(sym);
-                    if let Some(new_hi) = n.checked_sub(1) {
+                    if let Some(new_hi) = n.checked_sub(step) {
                         state.set_var(*sym, Interval {
                             lo: cur.lo,
                             hi: Bound::min_bound(&cur.hi, &Bound::Finite(new_hi)),
@@ -1254,7 +1291,7 @@ fn narrow_state(cond: &Expr, state: &mut AbstractState) {
     }
 }
 
-fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
+fn narrow_state_negated(cond: &Expr, state: &mut AbstractState, step: i64) {
     match cond {
         Expr::BinaryOp { op: BinaryOpKind::Gt, left, right } => {
             if let Expr::Identifier(sym) = left {
@@ -1285,7 +1322,7 @@ fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
                     let cur = state.get_var(sym);
-                    if let Some(new_hi) = n.checked_sub(1) {
+                    if let Some(new_hi) = n.checked_sub(step) {
                         state.set_var(*sym, Interval {
                             lo: cur.lo,
                             hi: Bound::min_bound(&cur.hi, &Bound::Finite(new_hi)),
@@ -1299,7 +1336,7 @@ fn narrow_state_negated(cond: &Expr, state: &mut AbstractState) {
                 let r = eval_expr(right, state);
                 if let Some(n) = r.is_exact() {
                     let cur = state.get_var(sym);
-                    if let Some(new_lo) = n.checked_add(1) {
+                    if let Some(new_lo) = n.checked_add(step) {
                         state.set_var(*sym, Interval {
                             lo: Bound::max_bound(&cur.lo, &Bound::Finite(new_lo)),
                             hi: cur.hi,
@@ -1333,7 +1370,9 @@ fn interp_block<'a>(
         match stmt {
             Stmt::Let { var, ty, value, mutable } => {
                 let range = eval_expr(value, state);
+                forget_callee_effects(value, state);
                 state.set_var(var, range);
+                state.lengths.remove(&var);
                 if matches!(value, Expr::New { .. }) {
                     state.set_length(var, Interval::exact(0));
                 }
@@ -1342,11 +1381,14 @@ fn interp_block<'a>(
 
             Stmt::Set { target, value } => {
                 let range = eval_expr(value, state);
+                forget_callee_effects(value, state);
                 state.set_var(target, range);
+                state.lengths.remove(&target);
                 result.push(Stmt::Set { target, value });
             }
 
             Stmt::Push { value, collection } => {
+                forget_callee_effects(value, state);
                 if let Expr::Identifier(sym) = collection {
                     let cur_len = state.get_length(sym);
                     state.set_length(*sym, cur_len.add(&Interval::exact(1)));
@@ -1355,12 +1397,16 @@ fn interp_block<'a>(
             }
 
             Stmt::If { cond, then_block, else_block } => {
-                if let Some(val) = eval_condition(cond, state) {
+                forget_callee_effects(cond, state);
+                // A condition that may fail, or has effects, is evaluated even
+                // when its outcome is known.
+                if let Some(val) = eval_condition(cond, state).filter(|_| super::licm::is_total(cond)) {
                     let new_cond = expr_arena.alloc(Expr::Literal(Literal::Boolean(val)));
                     if val {
                         let mut then_state = state.clone();
-                        narrow_state(cond, &mut then_state);
+                        narrow_state(cond, &mut then_state, 0);
                         let new_then = interp_nested_block(then_block, &mut then_state, expr_arena, stmt_arena);
+                        forget_locals(then_block, &mut then_state);
                         *state = then_state;
                         result.push(Stmt::If {
                             cond: new_cond,
@@ -1370,8 +1416,9 @@ fn interp_block<'a>(
                     } else {
                         if let Some(eb) = else_block {
                             let mut else_state = state.clone();
-                            narrow_state_negated(cond, &mut else_state);
+                            narrow_state_negated(cond, &mut else_state, 0);
                             let new_else = interp_nested_block(eb, &mut else_state, expr_arena, stmt_arena);
+                            forget_locals(eb, &mut else_state);
                             *state = else_state;
                             result.push(Stmt::If {
                                 cond: new_cond,
@@ -1388,13 +1435,15 @@ fn interp_block<'a>(
                     }
                 } else {
                     let mut then_state = state.clone();
-                    narrow_state(cond, &mut then_state);
+                    narrow_state(cond, &mut then_state, 0);
                     let new_then = interp_nested_block(then_block, &mut then_state, expr_arena, stmt_arena);
+                    forget_locals(then_block, &mut then_state);
 
                     let (new_else, else_state) = if let Some(eb) = else_block {
                         let mut es = state.clone();
-                        narrow_state_negated(cond, &mut es);
+                        narrow_state_negated(cond, &mut es, 0);
                         let ne = interp_nested_block(eb, &mut es, expr_arena, stmt_arena);
+                        forget_locals(eb, &mut es);
                         (Some(ne), Some(es))
                     } else {
                         (None, None)
@@ -1412,55 +1461,34 @@ fn interp_block<'a>(
             }
 
             Stmt::While { cond, body, decreasing } => {
+                // The body starts from any iteration: everything it writes is
+                // unknown, narrowed only by the condition that let it run.
+                forget_block(body, state);
+                forget_callee_effects(cond, state);
                 let mut loop_state = state.clone();
-
-                let loop_writes = collect_writes(body);
-                let bounded_var = extract_bounded_var(cond);
-
-                // Widen all loop-written variables (including the counter)
-                // to their full possible range before analyzing the body.
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
-                }
-
-                // Now narrow the loop state based on the condition.
-                // For the bounded variable (counter), this gives it the range
-                // from its initial value (widened to top above) narrowed by the
-                // condition, resulting in [-inf, bound].
-                narrow_state(cond, &mut loop_state);
+                narrow_state(cond, &mut loop_state, 0);
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                // After loop: condition is false (loop exited)
-                narrow_state_negated(cond, state);
-                // Variables written in loop body get widened to top
-                for w in &loop_writes {
-                    if Some(*w) != bounded_var {
-                        state.set_var(*w, Interval::top());
-                    }
+                // The condition is false once the loop exits through it; a
+                // `Break` leaves with the condition still true.
+                if !breaks_out(body) {
+                    narrow_state_negated(cond, state, 0);
                 }
 
                 result.push(Stmt::While { cond, body: new_body, decreasing });
             }
 
             Stmt::Repeat { pattern, iterable, body } => {
+                forget_callee_effects(iterable, state);
+                forget_block(body, state);
                 let mut loop_state = state.clone();
-
-                if let Pattern::Identifier(var) = &pattern {
-                    loop_state.set_var(*var, Interval::top());
-                }
-
-                let loop_writes = collect_writes(body);
-                for w in &loop_writes {
-                    loop_state.set_var(*w, Interval::top());
+                for var in pattern_symbols(&pattern) {
+                    loop_state.forget(var);
                 }
 
                 let new_body = interp_nested_block(body, &mut loop_state, expr_arena, stmt_arena);
 
-                for w in &loop_writes {
-                    state.set_var(*w, Interval::top());
-                }
-
                 result.push(Stmt::Repeat { pattern, iterable, body: new_body });
             }
 
@@ -1475,8 +1503,12 @@ fn interp_block<'a>(
             }
 
             Stmt::Inspect { target, arms, has_otherwise } => {
+                forget_callee_effects(target, state);
                 let new_arms: Vec<_> = arms.into_iter().map(|arm| {
                     let mut arm_state = state.clone();
+                    for (_, binding) in &arm.bindings {
+                        arm_state.forget(*binding);
+                    }
                     let new_body = interp_nested_block(arm.body, &mut arm_state, expr_arena, stmt_arena);
                     crate::ast::stmt::MatchArm {
                         enum_name: arm.enum_name,
@@ -1485,28 +1517,35 @@ fn interp_block<'a>(
                         body: new_body,
                     }
                 }).collect();
+                for arm in &new_arms {
+                    forget_block(arm.body, state);
+                }
                 result.push(Stmt::Inspect { target, arms: new_arms, has_otherwise });
             }
 
             Stmt::Zone { .. } => {
                 // Don't analyze inside zones — zone-scoped bindings must be
                 // preserved for escape analysis (same as propagation pass).
+                forget_block(std::slice::from_ref(&stmt), state);
                 result.push(stmt);
             }
 
             Stmt::Concurrent { tasks } => {
+                forget_block(tasks, state);
                 let mut sub_state = state.clone();
                 let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
                 result.push(Stmt::Concurrent { tasks: new_tasks });
             }
 
             Stmt::Parallel { tasks } => {
+                forget_block(tasks, state);
                 let mut sub_state = state.clone();
                 let new_tasks = interp_nested_block(tasks, &mut sub_state, expr_arena, stmt_arena);
                 result.push(Stmt::Parallel { tasks: new_tasks });
             }
 
             other => {
+                forget_block(std::slice::from_ref(&other), state);
                 result.push(other);
             }
         }
@@ -1558,44 +1597,122 @@ fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
     }
 }
 
-fn collect_writes(block: &[Stmt]) -> Vec<Symbol> {
+/// Drop every fact `block` may have changed by the time control leaves it: the
+/// ranges of the names it binds or assigns and, since a collection can also be
+/// resized in place or by a callee, every length. A statement this pass has no
+/// model of drops everything.
+fn forget_block(block: &[Stmt], state: &mut AbstractState) {
     let mut writes = Vec::new();
+    state.lengths.clear();
+    if block.iter().all(|s| collect_writes_stmt(s, &mut writes)) {
+        for w in writes {
+            state.forget(w);
+        }
+    } else {
+        state.vars.clear();
+    }
+}
+
+/// Drop the facts about names bound inside `block`: they go out of scope with
+/// it, and an outer binding they shadowed comes back into view.
+fn forget_locals(block: &[Stmt], state: &mut AbstractState) {
     for stmt in block {
-        collect_writes_stmt(stmt, &mut writes);
+        match stmt {
+            Stmt::Let { var, .. } => state.forget(*var),
+            Stmt::Splice { body } => forget_locals(body, state),
+            _ => {}
+        }
     }
-    writes
 }
 
-fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) {
-    match stmt {
-        Stmt::Set { target, .. } => {
-            if !writes.contains(target) {
-                writes.push(*target);
-            }
+/// Evaluating `expr` may run code that resizes a collection passed to it.
+fn forget_callee_effects(expr: &Expr, state: &mut AbstractState) {
+    if expr_may_call(expr) {
+        state.lengths.clear();
+    }
+}
+
+pub(super) fn expr_may_call(expr: &Expr) -> bool {
+    match expr {
+        Expr::Literal(_) | Expr::Identifier(_) => false,
+        Expr::BinaryOp { left, right, .. } => expr_may_call(left) || expr_may_call(right),
+        Expr::Not { operand: e } | Expr::Length { collection: e } | Expr::Copy { expr: e } => {
+            expr_may_call(e)
         }
+        Expr::Index { collection, index } => expr_may_call(collection) || expr_may_call(index),
+        Expr::Contains { collection, value } => expr_may_call(collection) || expr_may_call(value),
+        Expr::List(items) | Expr::Tuple(items) => items.iter().any(|e| expr_may_call(e)),
+        Expr::New { init_fields, .. } => init_fields.iter().any(|(_, e)| expr_may_call(e)),
+        _ => true,
+    }
+}
+
+/// Collect the names `stmt` binds or assigns; `false` when the statement has
+/// effects this pass does not model.
+fn collect_writes_stmt(stmt: &Stmt, writes: &mut Vec<Symbol>) -> bool {
+    match stmt {
+        Stmt::Let { var: target, .. }
+        | Stmt::Set { target, .. }
+        | Stmt::ReadFrom { var: target, .. } => writes.push(*target),
+        Stmt::Pop { into, .. } => writes.extend(*into),
         Stmt::If { then_block, else_block, .. } => {
-            for s in *then_block { collect_writes_stmt(s, writes); }
-            if let Some(eb) = else_block {
-                for s in *eb { collect_writes_stmt(s, writes); }
-            }
+            return then_block.iter().all(|s| collect_writes_stmt(s, writes))
+                && else_block.iter().all(|b| b.iter().all(|s| collect_writes_stmt(s, writes)));
         }
-        Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-            for s in *body { collect_writes_stmt(s, writes); }
+        Stmt::Repeat { pattern, body, .. } => {
+            writes.extend(pattern_symbols(pattern));
+            return body.iter().all(|s| collect_writes_stmt(s, writes));
         }
-        _ => {}
+        Stmt::While { body, .. }
+        | Stmt::Splice { body }
+        | Stmt::Zone { body, .. }
+        | Stmt::Concurrent { tasks: body }
+        | Stmt::Parallel { tasks: body } => {
+            return body.iter().all(|s| collect_writes_stmt(s, writes));
+        }
+        Stmt::Inspect { arms, .. } => {
+            return arms.iter().all(|arm| {
+                writes.extend(arm.bindings.iter().map(|(_, binding)| *binding));
+                arm.body.iter().all(|s| collect_writes_stmt(s, writes))
+            });
+        }
+        Stmt::Push { .. }
+        | Stmt::Add { .. }
+        | Stmt::Remove { .. }
+        | Stmt::SetIndex { .. }
+        | Stmt::SetField { .. }
+        | Stmt::Show { .. }
+        | Stmt::Return { .. }
+        | Stmt::Break
+        | Stmt::Call { .. }
+        | Stmt::Assert { .. }
+        | Stmt::Trust { .. }
+        | Stmt::RuntimeAssert { .. }
+        | Stmt::Sleep { .. }
+        | Stmt::FunctionDef { .. }
+        | Stmt::StructDef { .. } => {}
+        _ => return false,
     }
+    true
 }
 
-fn extract_bounded_var(cond: &Expr) -> Option<Symbol> {
-    match cond {
-        Expr::BinaryOp { op: BinaryOpKind::Lt | BinaryOpKind::LtEq | BinaryOpKind::Gt | BinaryOpKind::GtEq, left, .. } => {
-            if let Expr::Identifier(sym) = left {
-                Some(*sym)
-            } else {
-                None
-            }
+/// Whether `body` can leave its own loop through a `Break`.
+pub(super) fn breaks_out(body: &[Stmt]) -> bool {
+    body.iter().any(|s| match s {
+        Stmt::Break => true,
+        Stmt::If { then_block, else_block, .. } => {
+            breaks_out(then_block) || else_block.map_or(false, |b| breaks_out(b))
         }
-        _ => None,
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| breaks_out(arm.body)),
+        Stmt::Splice { body } | Stmt::Zone { body, .. } => breaks_out(body),
+        _ => false,
+    })
+}
+
+fn pattern_symbols(pattern: &Pattern) -> Vec<Symbol> {
+    match pattern {
+        Pattern::Identifier(sym) => vec![*sym],
+        Pattern::Tuple(syms) => syms.clone(),
     }
 }
 
@@ -1694,6 +1811,9 @@ pub(crate) struct RichAbstractState {
     coll_vars: std::collections::HashSet<Symbol>,
     /// DECLARED primitive return types per function — calls produce facts.
     fn_returns: std::rc::Rc<HashMap<Symbol, TypeTag>>,
+    /// Functions taking a `mutable` parameter: a call hands them its argument
+    /// by reference.
+    by_ref_fns: std::rc::Rc<HashSet<Symbol>>,
     /// Symbolic length LOWER bound per collection: `arr -> (n, off)` means
     /// `length(arr) >= n + off`, where `n` is a program variable. Established
     /// by a counted build loop (`while c < n: push to arr` once per iteration
@@ -1769,6 +1889,7 @@ impl RichAbstractState {
             aliases: AliasGraph::new(),
             coll_vars: std::collections::HashSet::new(),
             fn_returns: std::rc::Rc::new(HashMap::new()),
+            by_ref_fns: std::rc::Rc::new(HashSet::new()),
             length_def: HashMap::new(),
             param_colls: std::collections::HashSet::new(),
             scalar_def: HashMap::new(),
@@ -1808,6 +1929,9 @@ impl RichAbstractState {
         self.nullability.insert(sym, Nullability::Maybe);
         self.coll_vars.remove(&sym);
         self.intervals.clear_elem(&sym);
+        self.intervals.lengths.remove(&sym);
+        self.length_def.remove(&sym);
+        self.length_def.retain(|_, (n, _)| *n != sym);
         let si = sym.index() as i64;
         self.scalar_upper.remove(&sym);
         self.scalar_upper.retain(|_, e| !e.coefficients.contains_key(&si));
@@ -1816,6 +1940,36 @@ impl RichAbstractState {
         self.elem_type.remove(&sym);
         self.scalar_lower.remove(&sym);
         self.scalar_lower.retain(|_, e| !e.coefficients.contains_key(&si));
+        self.scalar_def.remove(&sym);
+        self.scalar_def.retain(|_, e| !e.coefficients.contains_key(&si));
+    }
+
+    /// Leave a block: the names it bound go out of scope, and an outer binding
+    /// they shadowed comes back into view.
+    fn leave_block(&mut self, block: &[Stmt]) {
+        for stmt in block {
+            match stmt {
+                Stmt::Let { var, .. } => {
+                    self.invalidate_var(*var);
+                    self.aliases.taint(*var);
+                }
+                Stmt::Splice { body } => self.leave_block(body),
+                _ => {}
+            }
+        }
+    }
+
+    /// A callee may resize and rewrite every collection it is handed by reference.
+    fn forget_passed(&mut self, passed: &[Symbol]) {
+        for sym in passed {
+            for a in self.aliases.may_alias(*sym) {
+                self.shapes.insert(a, CollectionShape::Top);
+                self.intervals.lengths.remove(&a);
+                self.intervals.clear_elem(&a);
+                self.elem_upper.remove(&a);
+                self.length_def.remove(&a);
+            }
+        }
     }
 }
 
@@ -4536,13 +4690,16 @@ fn oracle_analyze_with_opts(
         }
     }
     let fn_returns = std::rc::Rc::new(fn_returns);
+    let by_ref_fns = std::rc::Rc::new(by_ref_fns(stmts));
     let mut st = RichAbstractState::new();
     st.fn_returns = fn_returns.clone();
+    st.by_ref_fns = by_ref_fns.clone();
     rich_walk_block(stmts, &mut st, &mut facts);
     for s in stmts {
         if let Stmt::FunctionDef { params, body, .. } = s {
             let mut fst = RichAbstractState::new();
             fst.fn_returns = fn_returns.clone();
+            fst.by_ref_fns = by_ref_fns.clone();
             fst.aot_entry_guard = aot_entry_guard;
             for (psym, ty) in params.iter() {
                 match ty {
@@ -4650,11 +4807,147 @@ pub(crate) fn rich_abstract_interp_stmts<'a>(
 
 fn rich_walk_block(block: &[Stmt], st: &mut RichAbstractState, facts: &mut OracleFacts) {
     for stmt in block {
+        let mut passed = Vec::new();
+        collect_passed_stmt(stmt, &st.by_ref_fns, &mut passed);
+        st.forget_passed(&passed);
         record_stmt_exprs(stmt, st, facts);
         rich_walk_stmt(stmt, st, facts);
     }
 }
 
+/// Collect the names a statement hands to a function taking a `mutable`
+/// parameter. A loop hands them over before any given iteration, so its body
+/// counts as a whole; the blocks of a branch are walked on their own.
+/// The functions that take a collection by reference (a `mutable` parameter).
+pub(super) fn by_ref_fns(stmts: &[Stmt]) -> HashSet<Symbol> {
+    let by_ref = |params: &[(Symbol, &crate::ast::stmt::TypeExpr)]| {
+        params.iter().any(|(_, ty)| matches!(ty, crate::ast::stmt::TypeExpr::Mutable { .. }))
+    };
+    stmts
+        .iter()
+        .filter_map(|s| match s {
+            Stmt::FunctionDef { name, params, .. } if by_ref(params) => Some(*name),
+            _ => None,
+        })
+        .collect()
+}
+
+fn collect_passed_stmt(stmt: &Stmt, by_ref: &HashSet<Symbol>, out: &mut Vec<Symbol>) {
+    if by_ref.is_empty() {
+        return;
+    }
+    match stmt {
+        Stmt::Let { value, .. } | Stmt::Set { value, .. } => collect_passed(value, by_ref, out),
+        Stmt::Return { value: Some(e) } => collect_passed(e, by_ref, out),
+        Stmt::Call { function, args } => collect_passed_args(*function, args, by_ref, out),
+        Stmt::If { cond: e, .. }
+        | Stmt::Show { object: e, .. }
+        | Stmt::Give { object: e, .. }
+        | Stmt::Inspect { target: e, .. }
+        | Stmt::RuntimeAssert { condition: e, .. } => collect_passed(e, by_ref, out),
+        Stmt::Push { value, collection }
+        | Stmt::Add { value, collection }
+        | Stmt::Remove { value, collection } => {
+            collect_passed(value, by_ref, out);
+            collect_passed(collection, by_ref, out);
+        }
+        Stmt::SetIndex { collection, index, value } => {
+            collect_passed(collection, by_ref, out);
+            collect_passed(index, by_ref, out);
+            collect_passed(value, by_ref, out);
+        }
+        Stmt::SetField { value, .. } => collect_passed(value, by_ref, out),
+        Stmt::While { cond: e, body, .. } | Stmt::Repeat { iterable: e, body, .. } => {
+            collect_passed(e, by_ref, out);
+            collect_passed_deep(body, by_ref, out);
+        }
+        _ => {}
+    }
+}
+
+pub(super) fn collect_passed_deep(block: &[Stmt], by_ref: &HashSet<Symbol>, out: &mut Vec<Symbol>) {
+    for stmt in block {
+        collect_passed_stmt(stmt, by_ref, out);
+        match stmt {
+            Stmt::If { then_block, else_block, .. } => {
+                collect_passed_deep(then_block, by_ref, out);
+                if let Some(eb) = else_block {
+                    collect_passed_deep(eb, by_ref, out);
+                }
+            }
+            Stmt::Inspect { arms, .. } => {
+                for arm in arms {
+                    collect_passed_deep(arm.body, by_ref, out);
+                }
+            }
+            Stmt::Splice { body }
+            | Stmt::Zone { body, .. }
+            | Stmt::Concurrent { tasks: body }
+            | Stmt::Parallel { tasks: body } => collect_passed_deep(body, by_ref, out),
+            _ => {}
+        }
+    }
+}
+
+fn collect_passed_args(
+    function: Symbol,
+    args: &[&Expr],
+    by_ref: &HashSet<Symbol>,
+    out: &mut Vec<Symbol>,
+) {
+    for arg in args {
+        match arg {
+            Expr::Identifier(sym) if by_ref.contains(&function) => out.push(*sym),
+            _ => collect_passed(arg, by_ref, out),
+        }
+    }
+}
+
+fn collect_passed(e: &Expr, by_ref: &HashSet<Symbol>, out: &mut Vec<Symbol>) {
+    match e {
+        Expr::Call { function, args } => collect_passed_args(*function, args, by_ref, out),
+        Expr::BinaryOp { left, right, .. }
+        | Expr::Union { left, right }
+        | Expr::Intersection { left, right }
+        | Expr::Range { start: left, end: right }
+        | Expr::Index { collection: left, index: right }
+        | Expr::Contains { collection: left, value: right } => {
+            collect_passed(left, by_ref, out);
+            collect_passed(right, by_ref, out);
+        }
+        Expr::Not { operand: inner }
+        | Expr::Length { collection: inner }
+        | Expr::Copy { expr: inner }
+        | Expr::Give { value: inner }
+        | Expr::OptionSome { value: inner }
+        | Expr::FieldAccess { object: inner, .. } => collect_passed(inner, by_ref, out),
+        Expr::CallExpr { callee, args } => {
+            collect_passed(callee, by_ref, out);
+            for arg in args {
+                collect_passed(arg, by_ref, out);
+            }
+        }
+        Expr::List(items) | Expr::Tuple(items) => {
+            for item in items {
+                collect_passed(item, by_ref, out);
+            }
+        }
+        Expr::New { init_fields: fields, .. } | Expr::NewVariant { fields, .. } => {
+            for (_, field) in fields {
+                collect_passed(field, by_ref, out);
+            }
+        }
+        Expr::InterpolatedString(parts) => {
+            for part in parts {
+                if let crate::ast::stmt::StringPart::Expr { value, .. } = part {
+                    collect_passed(value, by_ref, out);
+                }
+            }
+        }
+        _ => {}
+    }
+}
+
 /// Record facts for every expression a statement holds, at the PRE-state
 /// (the state its expressions evaluate in).
 fn record_stmt_exprs(stmt: &Stmt, st: &RichAbstractState, facts: &mut OracleFacts) {
@@ -4697,12 +4990,18 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
     match stmt {
         Stmt::Let { var, value, .. } => rich_bind(*var, value, st),
         Stmt::Set { target, value } => rich_bind(*target, value, st),
-        Stmt::Push { collection, value } | Stmt::Add { collection, value } => {
-            rich_grow(collection, st);
+        Stmt::Push { collection, value } => {
+            rich_grow(collection, st, 1);
             observe_written_elem(collection, value, st);
         }
+        // Adding a member the set already has leaves its size alone.
+        Stmt::Add { collection, value } => {
+            rich_grow(collection, st, 0);
+            observe_written_elem(collection, value, st);
+        }
+        Stmt::Splice { body } => rich_walk_block(body, st, facts),
         Stmt::Pop { collection, into } => {
-            rich_shrink(collection, st);
+            rich_shrink(collection, st, 1);
             if let Some(v) = into {
                 st.invalidate_var(*v);
                 st.aliases.unlink(*v);
@@ -4711,11 +5010,21 @@ fn rich_walk_stmt(stmt: &Stmt, st: &mut RichAbstractState, facts: &mut OracleFac
                 st.aliases.taint(*v);
             }
         }
-        Stmt::Remove { collection, .. } => rich_shrink(collection, st),
-        // A store leaves the length unchanged but adds an element value: join
-        // it into the collection's element bound (the scatter `Set item k of
-        // arr to V` case).
-        Stmt::SetIndex { collection, value, .. } => observe_written_elem(collection, value, st),
+        // Removing an absent member leaves the size alone.
+        Stmt::Remove { collection, .. } => rich_shrink(collection, st, 0),
+        // A store into a sequence leaves its length unchanged but adds an
+        // element value: join it into the collection's element bound (the
+        // scatter `Set item k of arr to V` case). Nothing that may be empty is
+        // known to be a sequence, and a map gains a key.
+        Stmt::SetIndex { collection, value, .. } => {
+            if let Expr::Identifier(sym) = *collection {
+                if matches!(st.intervals.get_length(sym).lo, Bound::Finite(lo) if lo < 1) {
+                    let by = Interval { lo: Bound::Finite(0), hi: Bound::Finite(1) };
+                    resize_lengths(*sym, st, &by);
+                }
+            }
+            observe_written_elem(collection, value, st);
+        }
         Stmt::SetField { object, .. } => {
             if let Expr::Identifier(s) = *object {
                 for a in st.aliases.may_alias(*s) {
@@ -4978,6 +5287,10 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
 
     let iv = eval_expr(value, &st.intervals);
     st.intervals.set_var(var, iv);
+    // The old binding's length goes with it, unless this is `Set xs to xs`.
+    if !matches!(value, Expr::Identifier(src) if *src == var) {
+        st.intervals.lengths.remove(&var);
+    }
     let value_ty = eval_type(value, &st.types, &st.fn_returns, &st.elem_type);
     st.types.insert(var, value_ty);
     st.nullability.insert(var, nullability_of_expr(value, st));
@@ -5139,15 +5452,23 @@ fn rich_bind(var: Symbol, value: &Expr, st: &mut RichAbstractState) {
     }
 }
 
-/// `Push`/`Add` — one element added to a shared allocation: grow the shape and
-/// length of the collection and every variable that aliases it.
-fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
+/// One element added to `collection`: its size grows by at least `sure` (1 for
+/// `Push`, 0 where the element may already be there) and at most 1. A name that
+/// MAY share the allocation either follows or keeps its own size.
+fn rich_grow(collection: &Expr, st: &mut RichAbstractState, sure: i64) {
+    rich_resize(collection, st, Interval { lo: Bound::Finite(sure), hi: Bound::Finite(1) });
+}
+
+/// `Pop`/`Remove` — at least `sure` and at most one element removed; an empty
+/// collection stays empty.
+fn rich_shrink(collection: &Expr, st: &mut RichAbstractState, sure: i64) {
+    rich_resize(collection, st, Interval { lo: Bound::Finite(-1), hi: Bound::Finite(-sure) });
+}
+
+fn rich_resize(collection: &Expr, st: &mut RichAbstractState, by: Interval) {
     if let Expr::Identifier(sym) = collection {
-        let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).pushed();
-        let new_len = st.intervals.get_length(sym).add(&Interval::exact(1));
+        resize_lengths(*sym, st, &by);
         for a in st.aliases.may_alias(*sym) {
-            st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
             // A resize moves length off its build-time relation — drop it
             // (conservative; a grow keeps `>=` valid but we re-derive cleanly).
             st.length_def.remove(&a);
@@ -5155,17 +5476,18 @@ fn rich_grow(collection: &Expr, st: &mut RichAbstractState) {
     }
 }
 
-/// `Pop`/`Remove` — one element removed from a shared allocation.
-fn rich_shrink(collection: &Expr, st: &mut RichAbstractState) {
-    if let Expr::Identifier(sym) = collection {
-        let new_shape = st.shapes.get(sym).cloned().unwrap_or(CollectionShape::Top).popped();
-        let new_len = st.intervals.get_length(sym).sub(&Interval::exact(1));
-        for a in st.aliases.may_alias(*sym) {
-            st.shapes.insert(a, new_shape.clone());
-            st.intervals.set_length(a, new_len.clone());
-            // A shrink can break the `length(arr) >= n` lower bound — drop it.
-            st.length_def.remove(&a);
-        }
+/// Change the length of `sym` by `by`. Another name for the collection may hold
+/// it or may hold a copy of it, so its length is the old one or the new one.
+fn resize_lengths(sym: Symbol, st: &mut RichAbstractState, by: &Interval) {
+    let new_len = st.intervals.get_length(&sym).add(by).at_least_zero();
+    for a in st.aliases.may_alias(sym) {
+        st.shapes.insert(a, CollectionShape::from_length(&new_len));
+        let len = if a == sym {
+            new_len.clone()
+        } else {
+            new_len.join(&st.intervals.get_length(&a))
+        };
+        st.intervals.set_length(a, len);
     }
 }
 
@@ -5203,24 +5525,28 @@ fn rich_walk_if(
 ) {
     match eval_condition(cond, &st.intervals) {
         Some(true) => {
-            narrow_state(cond, &mut st.intervals);
+            narrow_state(cond, &mut st.intervals, 1);
             rich_walk_block(then_block, st, facts);
+            st.leave_block(then_block);
         }
         Some(false) => {
             if let Some(eb) = else_block {
-                narrow_state_negated(cond, &mut st.intervals);
+                narrow_state_negated(cond, &mut st.intervals, 1);
                 rich_walk_block(eb, st, facts);
+                st.leave_block(eb);
             }
         }
         None => {
             let mut then_st = st.clone();
-            narrow_state(cond, &mut then_st.intervals);
+            narrow_state(cond, &mut then_st.intervals, 1);
             rich_walk_block(then_block, &mut then_st, facts);
+            then_st.leave_block(then_block);
 
             let mut else_st = st.clone();
-            narrow_state_negated(cond, &mut else_st.intervals);
+            narrow_state_negated(cond, &mut else_st.intervals, 1);
             if let Some(eb) = else_block {
                 rich_walk_block(eb, &mut else_st, facts);
+                else_st.leave_block(eb);
             }
 
             *st = rich_join(&then_st, &else_st);
@@ -5293,7 +5619,7 @@ fn rich_walk_loop(
         inside.aliases.taint(lv);
     }
     if let Some(c) = cond {
-        narrow_state(c, &mut inside.intervals);
+        narrow_state(c, &mut inside.intervals, 1);
         // The loop body implies its guard at first entry: `i < n` with `i` at
         // its pre-loop value `i0` proves `n > i0`, i.e. `n >= i0 + 1`. Since `n`
         // is loop-invariant (not mutated), this lower holds throughout the body
@@ -5310,7 +5636,7 @@ fn rich_walk_loop(
         let mut next = inside.clone();
         rich_walk_block(body, &mut next, &mut sink);
         if let Some(c) = cond {
-            narrow_state(c, &mut next.intervals);
+            narrow_state(c, &mut next.intervals, 1);
         }
         // Widen the mutated variables; everything else keeps the entry fact
         // (sound: un-mutated vars are loop-invariant).
@@ -5500,7 +5826,7 @@ fn rich_walk_loop(
         // — join, then apply the negated condition.
         let mut record_state = inside.clone();
         if let Some(c) = cond {
-            narrow_state(c, &mut record_state.intervals);
+            narrow_state(c, &mut record_state.intervals, 1);
         }
         // RELATIONAL induction-variable bound (V8/LLVM SCEV): a guard that
         // bounds an index variable by an array's length lets every
@@ -5521,8 +5847,9 @@ fn rich_walk_loop(
         }
         rich_walk_block(body, &mut record_state, facts);
         let mut after = rich_join(st, &inside);
-        if let Some(c) = cond {
-            narrow_state_negated(c, &mut after.intervals);
+        // A `Break` leaves the loop with its condition still true.
+        if let Some(c) = cond.filter(|_| !breaks_out(body)) {
+            narrow_state_negated(c, &mut after.intervals, 1);
             // Allocation-size fact: a counted build loop establishes a length
             // bound on the array it fills (`st` is the pre-loop entry state —
             // the array's emptiness and the counter's start are read there).
@@ -5543,16 +5870,11 @@ fn rich_walk_loop(
         *st = after;
     } else {
         // Sound fallback: forget everything the body can write.
-        if let Some(c) = cond {
-            narrow_state_negated(c, &mut st.intervals);
-        }
         for m in mutated {
-            st.intervals.set_var(m, Interval::top());
-            st.intervals.set_length(m, Interval::non_negative());
-            st.types.insert(m, TypeAbstraction::Top);
-            st.shapes.insert(m, CollectionShape::Top);
-            st.nullability.insert(m, Nullability::Maybe);
-            st.coll_vars.remove(&m);
+            st.invalidate_var(m);
+        }
+        if let Some(c) = cond.filter(|_| !breaks_out(body)) {
+            narrow_state_negated(c, &mut st.intervals, 1);
         }
     }
 }
@@ -5575,24 +5897,34 @@ fn rich_walk_inspect(
             if let Expr::Identifier(sym) = target {
                 arm_st.nullability.insert(*sym, Nullability::Definite);
             }
-            for (_field, binding) in &arm.bindings {
-                arm_st.nullability.insert(*binding, Nullability::Definite);
-            }
         }
         // Field bindings extract handles from the scrutinee — unknown
         // provenance for the alias domain.
         for (_field, binding) in &arm.bindings {
+            arm_st.invalidate_var(*binding);
             arm_st.aliases.unlink(*binding);
             arm_st.aliases.taint(*binding);
+            if arm.variant.is_some() {
+                arm_st.nullability.insert(*binding, Nullability::Definite);
+            }
         }
         rich_walk_block(arm.body, &mut arm_st, facts);
+        arm_st.leave_block(arm.body);
+        for (_field, binding) in &arm.bindings {
+            arm_st.invalidate_var(*binding);
+        }
         acc = Some(match acc {
             None => arm_st,
             Some(prev) => rich_join(&prev, &arm_st),
         });
     }
     if let Some(joined) = acc {
-        *st = joined;
+        // No arm needs to match.
+        *st = if arms.iter().any(|arm| arm.variant.is_none()) {
+            joined
+        } else {
+            rich_join(st, &joined)
+        };
     }
 }
 
@@ -5608,6 +5940,7 @@ fn rich_join(a: &RichAbstractState, b: &RichAbstractState) -> RichAbstractState
         // Kind proven only where BOTH paths prove it.
         coll_vars: a.coll_vars.intersection(&b.coll_vars).cloned().collect(),
         fn_returns: a.fn_returns.clone(),
+        by_ref_fns: a.by_ref_fns.clone(),
         // A length fact survives a join only where both paths agree exactly.
         length_def: a
             .length_def
@@ -5782,13 +6115,28 @@ fn collect_mut_stmt(s: &Stmt, out: &mut Vec<Symbol>) {
                 }
             }
         }
-        Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
+        Stmt::Repeat { pattern, body, .. } => {
+            for var in pattern_symbols(pattern) {
+                add_unique(var, out);
+            }
+            for st in *body {
+                collect_mut_stmt(st, out);
+            }
+        }
+        Stmt::While { body, .. }
+        | Stmt::Splice { body }
+        | Stmt::Zone { body, .. }
+        | Stmt::Concurrent { tasks: body }
+        | Stmt::Parallel { tasks: body } => {
             for st in *body {
                 collect_mut_stmt(st, out);
             }
         }
         Stmt::Inspect { arms, .. } => {
             for arm in arms {
+                for (_field, binding) in &arm.bindings {
+                    add_unique(*binding, out);
+                }
                 for st in arm.body {
                     collect_mut_stmt(st, out);
                 }
-- 
2.43.0


From 1a4b3421f1d41f25c753043f3d80b700d7483444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 14/33] fix: fold x + 0 only for numbers and keep divisions and
 powers that may fail

---
 .../logicaffeine_compile/src/optimize/fold.rs | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/fold.rs b/crates/logicaffeine_compile/src/optimize/fold.rs
index 2bafce5..a98ba94 100644
--- a/crates/logicaffeine_compile/src/optimize/fold.rs
+++ b/crates/logicaffeine_compile/src/optimize/fold.rs
@@ -279,8 +279,14 @@ fn expr_is_total(expr: &Expr) -> bool {
     match expr {
         Expr::Literal(_) | Expr::Identifier(_) => true,
         Expr::BinaryOp { op, left, right } => {
-            !matches!(op, BinaryOpKind::Divide | BinaryOpKind::ExactDivide | BinaryOpKind::Modulo)
-                && expr_is_total(left)
+            !matches!(
+                op,
+                BinaryOpKind::Divide
+                    | BinaryOpKind::ExactDivide
+                    | BinaryOpKind::FloorDivide
+                    | BinaryOpKind::Modulo
+                    | BinaryOpKind::Pow
+            ) && expr_is_total(left)
                 && expr_is_total(right)
         }
         Expr::Not { operand } => expr_is_total(operand),
@@ -314,6 +320,27 @@ fn expr_is_boolish(expr: &Expr, bools: &BoolSyms) -> bool {
     }
 }
 
+/// Statically number-producing (or an error at run time). `x + 0` is `x` only
+/// for a number `x`: on a Text `+` concatenates (`"a" + 0` is `"a0"`).
+/// Fail-closed: unknown shapes are not numeric.
+fn expr_is_numeric(expr: &Expr) -> bool {
+    match expr {
+        Expr::Literal(Literal::Number(_)) | Expr::Literal(Literal::Float(_)) => true,
+        Expr::Length { .. } => true,
+        Expr::BinaryOp { op: BinaryOpKind::Add, left, right } => {
+            expr_is_numeric(left) && expr_is_numeric(right)
+        }
+        Expr::BinaryOp { op, .. } => matches!(
+            op,
+            BinaryOpKind::Subtract
+                | BinaryOpKind::Multiply
+                | BinaryOpKind::Divide
+                | BinaryOpKind::Modulo
+        ),
+        _ => false,
+    }
+}
+
 pub fn fold_expr<'a>(
     expr: &'a Expr<'a>,
     arena: &'a Arena<Expr<'a>>,
@@ -328,7 +355,9 @@ pub fn fold_expr<'a>(
 
             if let Some(result) = try_fold_binary(*op, folded_left, folded_right, interner) {
                 arena.alloc(result)
-            } else if let Some(simplified) = try_simplify_algebraic(*op, folded_left, folded_right, arena, bools) {
+            } else if let Some(simplified) = try_simplify_algebraic(*op, folded_left, folded_right, arena, bools)
+                .filter(|simplified| *op != BinaryOpKind::Add || expr_is_numeric(simplified))
+            {
                 simplified
             } else if std::ptr::eq(folded_left, *left) && std::ptr::eq(folded_right, *right) {
                 expr
-- 
2.43.0


From 121a6e3f56e58ba1ba013f24c063d13964524d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 15/33] fix: specialised functions keep reassigned parameters,
 list pushes and zones

---
 .../src/optimize/partial_eval.rs              | 72 +++++++++++++++----
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/partial_eval.rs b/crates/logicaffeine_compile/src/optimize/partial_eval.rs
index 946bb5c..8a5ee97 100644
--- a/crates/logicaffeine_compile/src/optimize/partial_eval.rs
+++ b/crates/logicaffeine_compile/src/optimize/partial_eval.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use crate::arena::Arena;
-use crate::ast::stmt::{Expr, Literal, Stmt, TypeExpr, Block, StringPart};
+use crate::ast::stmt::{Expr, Literal, Stmt, TypeExpr, Block, Pattern, StringPart};
 use crate::intern::{Interner, Symbol};
 use std::collections::HashSet;
 
@@ -99,6 +99,33 @@ fn collect_func_defs<'a>(stmts: &[Stmt<'a>]) -> HashMap<Symbol, FuncInfo<'a>> {
     defs
 }
 
+/// Whether `stmts` bind or assign `name`.
+fn body_rebinds(stmts: &[Stmt], name: Symbol) -> bool {
+    stmts.iter().any(|stmt| match stmt {
+        Stmt::Let { var, .. } | Stmt::Set { target: var, .. } => *var == name,
+        Stmt::Pop { into, .. } => *into == Some(name),
+        Stmt::If { then_block, else_block, .. } => {
+            body_rebinds(then_block, name) || else_block.map_or(false, |b| body_rebinds(b, name))
+        }
+        Stmt::Repeat { pattern, body, .. } => {
+            let binds = match pattern {
+                Pattern::Identifier(var) => *var == name,
+                Pattern::Tuple(vars) => vars.contains(&name),
+            };
+            binds || body_rebinds(body, name)
+        }
+        Stmt::While { body, .. }
+        | Stmt::Splice { body }
+        | Stmt::Zone { body, .. }
+        | Stmt::Concurrent { tasks: body }
+        | Stmt::Parallel { tasks: body } => body_rebinds(body, name),
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| {
+            arm.bindings.iter().any(|(_, binding)| *binding == name) || body_rebinds(arm.body, name)
+        }),
+        _ => false,
+    })
+}
+
 fn body_has_io(stmts: &[Stmt]) -> bool {
     for stmt in stmts {
         if stmt_has_io(stmt) {
@@ -581,6 +608,15 @@ fn substitute_stmt<'a>(
             condition: substitute_expr(condition, substitutions, expr_arena),
             hard: *hard,
         },
+        Stmt::Splice { body } => Stmt::Splice {
+            body: stmt_arena.alloc_slice(substitute_block(body, substitutions, expr_arena, stmt_arena)),
+        },
+        Stmt::Zone { name, capacity, source_file, body } => Stmt::Zone {
+            name: *name,
+            capacity: *capacity,
+            source_file: *source_file,
+            body: stmt_arena.alloc_slice(substitute_block(body, substitutions, expr_arena, stmt_arena)),
+        },
         other => other.clone(),
     }
 }
@@ -629,18 +665,9 @@ fn try_specialize_call<'a>(
     interner: &mut Interner,
     effect_env: Option<&EffectEnv>,
 ) -> Option<(Symbol, Vec<&'a Expr<'a>>)> {
-    // Build a BTA division from known literal arguments for enhanced classification
-    let mut division = Division::new();
-    if let Some(func_info) = func_defs.get(&function) {
-        for (i, (param_sym, _)) in func_info.params.iter().enumerate() {
-            if let Some(arg) = args.get(i) {
-                if let Expr::Literal(lit) = arg {
-                    division.insert(*param_sym, BindingTime::Static(lit.clone()));
-                }
-            }
-        }
-    }
-    let (key, classifications) = compute_spec_key(function, args, Some(&division));
+    // The arguments are expressions of the CALLER: a name in one is never the
+    // callee's parameter of the same name, so nothing is known about any of them.
+    let (key, classifications) = compute_spec_key(function, args, Some(&Division::new()));
 
     if !is_mixed(&classifications) {
         return None;
@@ -685,7 +712,24 @@ fn try_specialize_call<'a>(
         return None;
     }
 
-    let spec_name = make_spec_name(interner, func_info.name, &classifications);
+    // A parameter the body rebinds or assigns does not keep its argument's value.
+    let rebound = func_info
+        .params
+        .iter()
+        .zip(classifications.iter())
+        .any(|((param_sym, _), c)| c.is_some() && body_rebinds(func_info.body, *param_sym));
+    if rebound {
+        return None;
+    }
+
+    let base_name = make_spec_name(interner, func_info.name, &classifications);
+    let mut spec_name = base_name;
+    let mut copy = 1;
+    while func_defs.contains_key(&spec_name) || registry.cache.values().any(|n| *n == spec_name) {
+        copy += 1;
+        let name = format!("{}_v{}", interner.resolve(base_name), copy);
+        spec_name = interner.intern(&name);
+    }
 
     let mut substitutions: HashMap<Symbol, &'a Expr<'a>> = HashMap::new();
     let mut new_params: Vec<(Symbol, &'a TypeExpr<'a>)> = Vec::new();
-- 
2.43.0


From c8727fd5c7596720099e67668e3b3f997ef042ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 16/33] fix: bitwise operators on integers beyond 64 bits

---
 .../src/semantics/arith.rs                    | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_compile/src/semantics/arith.rs b/crates/logicaffeine_compile/src/semantics/arith.rs
index 3a445bd..8f0c861 100644
--- a/crates/logicaffeine_compile/src/semantics/arith.rs
+++ b/crates/logicaffeine_compile/src/semantics/arith.rs
@@ -20,6 +20,37 @@ fn big_of(v: &RuntimeValue) -> Option<BigInt> {
     }
 }
 
+/// A bitwise operation on integers of any width, as infinite two's complement —
+/// an Int that was promoted past `i64` keeps the meaning it has within it.
+fn big_bitwise(left: &RuntimeValue, right: &RuntimeValue, op: fn(u8, u8) -> u8) -> Option<RuntimeValue> {
+    fn twos(n: &BigInt, len: usize) -> Vec<u8> {
+        let (negative, mut bytes) = n.to_le_bytes();
+        bytes.resize(len, 0);
+        if negative {
+            negate(&mut bytes);
+        }
+        bytes
+    }
+    fn negate(bytes: &mut [u8]) {
+        let mut carry = true;
+        for b in bytes.iter_mut() {
+            let (sum, overflow) = (!*b).overflowing_add(carry as u8);
+            *b = sum;
+            carry = overflow;
+        }
+    }
+    let (a, b) = (big_of(left)?, big_of(right)?);
+    // One byte more than either magnitude needs: the sign.
+    let len = a.to_le_bytes().1.len().max(b.to_le_bytes().1.len()) + 1;
+    let mut bytes: Vec<u8> =
+        twos(&a, len).into_iter().zip(twos(&b, len)).map(|(x, y)| op(x, y)).collect();
+    let negative = bytes[len - 1] & 0x80 != 0;
+    if negative {
+        negate(&mut bytes);
+    }
+    Some(RuntimeValue::from_bigint(BigInt::from_le_bytes(negative, &bytes)))
+}
+
 /// View an exact number — `Int`, `BigInt`, `Rational`, or `Decimal` — as a `Rational`,
 /// for the exact-arithmetic path that integer division "overflows" into. `Float` is
 /// inexact by choice and returns `None`.
@@ -380,21 +411,24 @@ pub fn binary_op(
             (RuntimeValue::Bool(a), RuntimeValue::Bool(b)) => Ok(RuntimeValue::Bool(a ^ b)),
             // On Sets, `^` is the symmetric difference.
             (RuntimeValue::Set(_), RuntimeValue::Set(_)) => set_binop(&left, &right, SetOp::SymmetricDifference),
-            _ => Err("Bitwise XOR requires integer, boolean, or Set operands".to_string()),
+            _ => big_bitwise(&left, &right, |a, b| a ^ b)
+                .ok_or_else(|| "Bitwise XOR requires integer, boolean, or Set operands".to_string()),
         },
         // `&` — bitwise AND on Int, intersection on Sets.
         BinaryOpKind::BitAnd => match (&left, &right) {
             (RuntimeValue::Int(a), RuntimeValue::Int(b)) => Ok(RuntimeValue::Int(a & b)),
             (RuntimeValue::Bool(a), RuntimeValue::Bool(b)) => Ok(RuntimeValue::Bool(a & b)),
             (RuntimeValue::Set(_), RuntimeValue::Set(_)) => set_binop(&left, &right, SetOp::Intersection),
-            _ => Err("`&` requires integer, boolean, or Set operands".to_string()),
+            _ => big_bitwise(&left, &right, |a, b| a & b)
+                .ok_or_else(|| "`&` requires integer, boolean, or Set operands".to_string()),
         },
         // `|` — bitwise OR on Int, union on Sets.
         BinaryOpKind::BitOr => match (&left, &right) {
             (RuntimeValue::Int(a), RuntimeValue::Int(b)) => Ok(RuntimeValue::Int(a | b)),
             (RuntimeValue::Bool(a), RuntimeValue::Bool(b)) => Ok(RuntimeValue::Bool(a | b)),
             (RuntimeValue::Set(_), RuntimeValue::Set(_)) => set_binop(&left, &right, SetOp::Union),
-            _ => Err("`|` requires integer, boolean, or Set operands".to_string()),
+            _ => big_bitwise(&left, &right, |a, b| a | b)
+                .ok_or_else(|| "`|` requires integer, boolean, or Set operands".to_string()),
         },
         // Shift counts are truncated to u32 and masked mod 64 (the wrapping spec).
         BinaryOpKind::Shl => match (left, right) {
-- 
2.43.0


From 7b86f91a6a8a95f8e009d48be64c57087265a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 17/33] fix: division by a constant of a promoted integer, and
 popping into a global in the bytecode engine

---
 .../logicaffeine_compile/src/vm/compiler.rs   | 49 +++++++++++++++----
 crates/logicaffeine_compile/src/vm/machine.rs | 19 ++++---
 2 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/crates/logicaffeine_compile/src/vm/compiler.rs b/crates/logicaffeine_compile/src/vm/compiler.rs
index 6189d7a..f76d980 100644
--- a/crates/logicaffeine_compile/src/vm/compiler.rs
+++ b/crates/logicaffeine_compile/src/vm/compiler.rs
@@ -84,6 +84,20 @@ pub fn magic_eval(x: i64, magic: u64, more: u8, mul_back: i64) -> i64 {
     }
 }
 
+/// The divisor of a magic reciprocal: the least dividend with quotient 1.
+pub fn magic_divisor(magic: u64, more: u8) -> i64 {
+    let (mut below, mut least) = (0, i64::MAX);
+    while least - below > 1 {
+        let mid = below + (least - below) / 2;
+        if magic_eval(mid, magic, more, 0) >= 1 {
+            least = mid;
+        } else {
+            below = mid;
+        }
+    }
+    least
+}
+
 /// Constant-pool dedup key. Floats are keyed by bit pattern so that distinct
 /// NaN payloads and -0.0/0.0 stay distinct pool entries.
 #[derive(Clone, PartialEq, Eq, Hash)]
@@ -749,14 +763,19 @@ impl<'i> Compiler<'i> {
         // closure capture of it); `None` for a scalar / self-describing / unmodeled value.
         let mut global_types: Vec<Option<BoundaryType>> = Vec::new();
         for s in stmts {
-            if let Stmt::Let { var, value, .. } = s {
-                if nonlocal_idents.contains(var) && !c.promoted.contains_key(var) {
-                    let idx = u16::try_from(c.promoted.len())
-                        .map_err(|_| "vm: too many globals".to_string())?;
-                    c.promoted.insert(*var, idx);
-                    global_names.push(interner.resolve(*var).to_string());
-                    global_types.push(boundary_of_value_expr(value, &user_types, interner));
+            let (var, ty) = match s {
+                Stmt::Let { var, value, .. } => {
+                    (*var, boundary_of_value_expr(value, &user_types, interner))
                 }
+                Stmt::Pop { into: Some(var), .. } => (*var, None),
+                _ => continue,
+            };
+            if nonlocal_idents.contains(&var) && !c.promoted.contains_key(&var) {
+                let idx = u16::try_from(c.promoted.len())
+                    .map_err(|_| "vm: too many globals".to_string())?;
+                c.promoted.insert(var, idx);
+                global_names.push(interner.resolve(var).to_string());
+                global_types.push(ty);
             }
         }
 
@@ -1743,14 +1762,26 @@ impl<'i> Compiler<'i> {
                 let (sym, nr) = self.resolve_collection(collection)?;
                 match self.collection_reg(sym, &nr)? {
                     Some(list) => {
+                        // As for `Let`: at Main top level a promoted name is
+                        // the global, not a register.
+                        let global = into.and_then(|var| {
+                            if !self.in_function && self.scopes.len() == 1 {
+                                self.promoted.get(&var).copied()
+                            } else {
+                                None
+                            }
+                        });
                         let dst = match into {
-                            Some(var) => self.let_reg(*var)?,
-                            None => self.alloc_reg()?,
+                            Some(var) if global.is_none() => self.let_reg(*var)?,
+                            _ => self.alloc_reg()?,
                         };
                         self.emit(Op::ListPop { list, dst });
                         if !matches!(nr, NameRef::Local(_)) {
                             self.emit_write(sym, list)?;
                         }
+                        if let Some(idx) = global {
+                            self.emit(Op::GlobalSet { idx, src: dst });
+                        }
                         Ok(())
                     }
                     None => self.emit_unbound(sym),
diff --git a/crates/logicaffeine_compile/src/vm/machine.rs b/crates/logicaffeine_compile/src/vm/machine.rs
index 1e3bffc..0b473a2 100644
--- a/crates/logicaffeine_compile/src/vm/machine.rs
+++ b/crates/logicaffeine_compile/src/vm/machine.rs
@@ -2002,12 +2002,19 @@ impl<'p> Vm<'p> {
                     // `lhs / c` / `lhs % c` by the precomputed magic reciprocal
                     // (`magic`/`more`). Emitted only for an Oracle-proven Int,
                     // non-negative `lhs`, so the result is bit-identical to
-                    // `Op::Div`/`Op::Mod` by the constant `c`.
-                    let x = self.reg(lhs).as_int().ok_or_else(|| {
-                        "MagicDivU on a non-Int operand".to_string()
-                    })?;
-                    let v = crate::vm::compiler::magic_eval(x, magic, more, mul_back);
-                    self.set(dst, Value::int(v));
+                    // `Op::Div`/`Op::Mod` by the constant `c` — which is what
+                    // runs for an Int promoted beyond the `i64` range.
+                    let v = match self.reg(lhs).as_int() {
+                        Some(x) => {
+                            Value::int(crate::vm::compiler::magic_eval(x, magic, more, mul_back))
+                        }
+                        None if mul_back != 0 => self.reg(lhs).modulo(&Value::int(mul_back))?,
+                        None => {
+                            let c = crate::vm::compiler::magic_divisor(magic, more);
+                            self.reg(lhs).div(&Value::int(c))?
+                        }
+                    };
+                    self.set(dst, v);
                     pc += 1;
                 }
                 Op::Lt { dst, lhs, rhs } => { self.binop(dst, lhs, rhs, Value::lt)?; pc += 1; }
-- 
2.43.0


From 51fef30fb05008b2e70a165af4fca85f58871f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 18/33] fix: native functions with list parameters can leave
 native code on any overflowing operation

---
 crates/logicaffeine_jit/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_jit/src/lib.rs b/crates/logicaffeine_jit/src/lib.rs
index 5ea1bdf..7fbae65 100644
--- a/crates/logicaffeine_jit/src/lib.rs
+++ b/crates/logicaffeine_jit/src/lib.rs
@@ -1666,7 +1666,13 @@ fn adapt_function(
         if mode_b {
             let deoptable = matches!(
                 ops[i],
-                Op::Div { .. }
+                // Overflow leaves through Add, AddAssign, Sub and Mul.
+                Op::Add { .. }
+                    | Op::AddAssign { .. }
+                    | Op::Sub { .. }
+                    | Op::Mul { .. }
+                    | Op::Div { .. }
+                    | Op::FloorDiv { .. }
                     | Op::Mod { .. }
                     | Op::Index { .. }
                     | Op::IndexUnchecked { .. }
-- 
2.43.0


From 96ed56061e62c651b1eea042bdbe75cb00cb44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:15 +0000
Subject: [PATCH 19/33] fix: bar and caret operators inside text interpolation

---
 crates/logicaffeine_language/src/lexer.rs      | 7 +++++++
 crates/logicaffeine_language/src/parser/mod.rs | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_language/src/lexer.rs b/crates/logicaffeine_language/src/lexer.rs
index 9551135..ad2dd99 100644
--- a/crates/logicaffeine_language/src/lexer.rs
+++ b/crates/logicaffeine_language/src/lexer.rs
@@ -397,6 +397,13 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Read the input as program text rather than prose, as inside a `## Main`
+    /// block (`&`, `|` and `^` are the bitwise operators there).
+    pub fn imperative(mut self) -> Self {
+        self.mode = LexerMode::Imperative;
+        self
+    }
+
     /// Pre-scan source text for escape block bodies.
     /// Returns (skip_start_byte, skip_end_byte, content_start_byte, raw_code) tuples.
     /// `skip_start` is the line start (for byte skipping in split_into_words).
diff --git a/crates/logicaffeine_language/src/parser/mod.rs b/crates/logicaffeine_language/src/parser/mod.rs
index 9d0a7f7..5d65664 100644
--- a/crates/logicaffeine_language/src/parser/mod.rs
+++ b/crates/logicaffeine_language/src/parser/mod.rs
@@ -8698,7 +8698,7 @@ impl<'a, 'ctx, 'int> Parser<'a, 'ctx, 'int> {
                     // Lex + parse the expression fragment by temporarily swapping
                     // the parser's token stream
                     let sub_expr = {
-                        let mut sub_lexer = crate::lexer::Lexer::new(&expr_source, self.interner);
+                        let mut sub_lexer = crate::lexer::Lexer::new(&expr_source, self.interner).imperative();
                         let sub_tokens = sub_lexer.tokenize();
 
                         // Save and swap parser state
-- 
2.43.0


From 32449f40e84e6eb328ea5b5c3f765bdc803f3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:12 +0000
Subject: [PATCH 20/33] fix: common subexpressions reused after their operands
 change

Drop cached expressions when a loop body, a call or a rebinding can change
what they read, and only hoist an expression that can fail when the statement
evaluates it unconditionally.
---
 .../logicaffeine_compile/src/optimize/gvn.rs  | 187 ++++++++++--------
 1 file changed, 101 insertions(+), 86 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/gvn.rs b/crates/logicaffeine_compile/src/optimize/gvn.rs
index 5eb13f5..dd74656 100644
--- a/crates/logicaffeine_compile/src/optimize/gvn.rs
+++ b/crates/logicaffeine_compile/src/optimize/gvn.rs
@@ -6,8 +6,10 @@
 
 use std::collections::{HashMap, HashSet};
 
+use super::abstract_interp::expr_may_call;
+use super::licm::{collect_loop_writes, is_total};
 use crate::arena::Arena;
-use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Stmt};
+use crate::ast::stmt::{BinaryOpKind, Expr, Literal, Pattern, Stmt};
 use crate::intern::{Interner, Symbol};
 
 /// Structural key for expressions, used for equality comparison in CSE.
@@ -89,6 +91,22 @@ fn collect_key_symbols(key: &ExprKey, out: &mut HashSet<Symbol>) {
     }
 }
 
+/// True for expressions without calls and without operands that may be skipped.
+fn evaluates_all_parts(expr: &Expr) -> bool {
+    match expr {
+        Expr::BinaryOp { op: BinaryOpKind::And | BinaryOpKind::Or, .. } => false,
+        Expr::BinaryOp { left, right, .. } => evaluates_all_parts(left) && evaluates_all_parts(right),
+        Expr::Not { operand: e } | Expr::Length { collection: e } | Expr::FieldAccess { object: e, .. } => {
+            evaluates_all_parts(e)
+        }
+        Expr::Index { collection: l, index: r } | Expr::Contains { collection: l, value: r } => {
+            evaluates_all_parts(l) && evaluates_all_parts(r)
+        }
+        Expr::Identifier(_) | Expr::Literal(_) => true,
+        _ => false,
+    }
+}
+
 /// CSE state for a basic block.
 struct CseState {
     /// Maps expression key to the symbol that holds the computed value.
@@ -97,6 +115,9 @@ struct CseState {
     deps: HashMap<Symbol, Vec<ExprKey>>,
     /// Counter for generating unique temp variable names.
     counter: u32,
+    /// The expression being rewritten evaluates all its parts and nothing else,
+    /// so a part that may fail can be computed ahead of it.
+    hoist_fallible: bool,
 }
 
 impl CseState {
@@ -105,6 +126,7 @@ impl CseState {
             cache: HashMap::new(),
             deps: HashMap::new(),
             counter: 0,
+            hoist_fallible: false,
         }
     }
 
@@ -118,13 +140,43 @@ impl CseState {
         self.cache.insert(key, sym);
     }
 
-    /// Invalidate all cache entries that reference the given symbol.
+    /// Invalidate all cache entries that reference the given symbol, or whose
+    /// computed value it holds.
     fn invalidate(&mut self, sym: Symbol) {
         if let Some(keys) = self.deps.remove(&sym) {
             for key in keys {
                 self.cache.remove(&key);
             }
         }
+        self.cache.retain(|_, holder| *holder != sym);
+    }
+
+    /// Forget everything (a call may change any variable it can reach).
+    fn clear(&mut self) {
+        self.cache.clear();
+        self.deps.clear();
+    }
+
+    /// Invalidate everything the statements may write.
+    fn invalidate_writes(&mut self, stmts: &[Stmt]) {
+        if stmts.iter().any(stmt_may_call) {
+            self.clear();
+        }
+        for sym in collect_loop_writes(stmts) {
+            self.invalidate(sym);
+        }
+    }
+
+    /// `var` is bound to a new value, which `key` describes.
+    fn bind(&mut self, var: Symbol, key: Option<ExprKey>) {
+        self.invalidate(var);
+        if let Some(key) = key {
+            let mut syms = HashSet::new();
+            collect_key_symbols(&key, &mut syms);
+            if !syms.contains(&var) {
+                self.insert(key, var);
+            }
+        }
     }
 
     /// Look up an expression key in the cache.
@@ -234,7 +286,7 @@ fn rewrite_expr<'a>(
     if let Some(ref k) = key {
         if is_non_trivial(new_expr) {
             let count = intra_counts.get(k).copied().unwrap_or(0);
-            if count > 1 {
+            if count > 1 && (state.hoist_fallible || is_total(new_expr)) {
                 // Hoist into a temp variable
                 let tmp_name = format!("__cse_{}", state.counter);
                 state.counter += 1;
@@ -296,72 +348,34 @@ fn cse_block<'a>(
                     // Full rewrite with potential hoisting
                     let mut hoisted = Vec::new();
                     let mut local_cache = HashMap::new();
+                    state.hoist_fallible = evaluates_all_parts(value);
                     let new_value = rewrite_expr(
                         value, &intra_counts, &mut local_cache,
                         state, &mut hoisted, interner, expr_arena, stmt_arena,
                     );
                     result.extend(hoisted);
                     // Add the whole expression to cross-statement cache
-                    if let Some(key) = compute_key(new_value) {
-                        if is_non_trivial(new_value) {
-                            state.insert(key, var);
-                        }
+                    if expr_may_call(new_value) {
+                        state.clear();
                     }
+                    state.bind(var, compute_key(new_value).filter(|_| is_non_trivial(new_value)));
                     result.push(Stmt::Let { var, ty, value: new_value, mutable });
                 } else {
                     // Simple cross-statement check
                     let new_value = cse_expr_cross_stmt(value, state, expr_arena);
                     // Add to cache
-                    if let Some(key) = compute_key(value) {
-                        if is_non_trivial(value) {
-                            state.insert(key, var);
-                        }
+                    if expr_may_call(new_value) {
+                        state.clear();
                     }
+                    state.bind(var, compute_key(value).filter(|_| is_non_trivial(value)));
                     result.push(Stmt::Let { var, ty, value: new_value, mutable });
                 }
             }
-            Stmt::Set { target, value } => {
-                state.invalidate(target);
-                result.push(Stmt::Set { target, value });
-            }
-            Stmt::Push { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Push { value, collection });
-            }
-            Stmt::Pop { collection, into } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Pop { collection, into });
-            }
-            Stmt::Add { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Add { value, collection });
-            }
-            Stmt::Remove { value, collection } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::Remove { value, collection });
-            }
-            Stmt::SetIndex { collection, index, value } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::SetIndex { collection, index, value });
-            }
-            Stmt::SetField { object, field, value } => {
-                if let Expr::Identifier(sym) = object {
-                    state.invalidate(*sym);
-                }
-                result.push(Stmt::SetField { object, field, value });
-            }
             // Control flow: process inner blocks with fresh state, then clear outer cache
             Stmt::If { cond, then_block, else_block } => {
+                if expr_may_call(cond) {
+                    state.clear();
+                }
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
@@ -382,37 +396,47 @@ fn cse_block<'a>(
                 state.cache = saved_cache;
                 state.deps = saved_deps;
                 // Invalidate everything that might be modified in the branches
-                invalidate_block_writes(then_block, state);
+                state.invalidate_writes(then_block);
                 if let Some(eb) = else_block {
-                    invalidate_block_writes(eb, state);
+                    state.invalidate_writes(eb);
                 }
 
                 result.push(Stmt::If { cond, then_block: new_then_block, else_block: new_else });
             }
             Stmt::While { cond, body, decreasing } => {
+                // A later iteration sees what an earlier one wrote.
+                if expr_may_call(cond) {
+                    state.clear();
+                }
+                state.invalidate_writes(body);
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
 
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
-                // After While: conservatively clear for variables modified in loop
                 state.cache = saved_cache;
                 state.deps = saved_deps;
-                invalidate_block_writes(body, state);
 
                 result.push(Stmt::While { cond, body: new_body_block, decreasing });
             }
             Stmt::Repeat { pattern, iterable, body } => {
+                if expr_may_call(iterable) {
+                    state.clear();
+                }
+                state.invalidate_writes(body);
                 let saved_cache = state.cache.clone();
                 let saved_deps = state.deps.clone();
+                match &pattern {
+                    Pattern::Identifier(sym) => state.invalidate(*sym),
+                    Pattern::Tuple(syms) => syms.iter().for_each(|sym| state.invalidate(*sym)),
+                }
 
                 let new_body = cse_block(body.to_vec(), state, expr_arena, stmt_arena, interner);
                 let new_body_block: Block = stmt_arena.alloc_slice(new_body);
 
                 state.cache = saved_cache;
                 state.deps = saved_deps;
-                invalidate_block_writes(body, state);
 
                 result.push(Stmt::Repeat { pattern, iterable, body: new_body_block });
             }
@@ -429,43 +453,34 @@ fn cse_block<'a>(
                 });
             }
             // All other statements pass through unchanged
-            other => result.push(other),
+            other => {
+                state.invalidate_writes(std::slice::from_ref(&other));
+                result.push(other);
+            }
         }
     }
 
     result
 }
 
-/// Scan a block for all write targets and invalidate them in the CSE state.
-fn invalidate_block_writes(stmts: &[Stmt], state: &mut CseState) {
-    for stmt in stmts {
-        match stmt {
-            Stmt::Set { target, .. } => state.invalidate(*target),
-            Stmt::Push { collection, .. } | Stmt::Pop { collection, .. }
-            | Stmt::Add { collection, .. } | Stmt::Remove { collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-            }
-            Stmt::SetIndex { collection, .. } | Stmt::SetField { object: collection, .. } => {
-                if let Expr::Identifier(sym) = collection {
-                    state.invalidate(*sym);
-                }
-            }
-            Stmt::If { then_block, else_block, .. } => {
-                invalidate_block_writes(then_block, state);
-                if let Some(eb) = else_block {
-                    invalidate_block_writes(eb, state);
-                }
-            }
-            Stmt::While { body, .. } | Stmt::Repeat { body, .. } => {
-                invalidate_block_writes(body, state);
-            }
-            Stmt::Zone { body, .. } => {
-                invalidate_block_writes(body, state);
-            }
-            _ => {}
+/// True unless the statement is known to run no user code.
+fn stmt_may_call(stmt: &Stmt) -> bool {
+    match stmt {
+        Stmt::Let { value, .. } | Stmt::Set { value, .. } => expr_may_call(value),
+        Stmt::Push { value, .. } | Stmt::Add { value, .. } | Stmt::Remove { value, .. } => expr_may_call(value),
+        Stmt::SetIndex { index, value, .. } => expr_may_call(index) || expr_may_call(value),
+        Stmt::SetField { value, .. } => expr_may_call(value),
+        Stmt::Show { object, .. } => expr_may_call(object),
+        Stmt::Return { value } => value.map_or(false, |e| expr_may_call(e)),
+        Stmt::Pop { .. } | Stmt::Break => false,
+        Stmt::If { cond, then_block, else_block } => {
+            expr_may_call(cond)
+                || then_block.iter().any(stmt_may_call)
+                || else_block.map_or(false, |b| b.iter().any(stmt_may_call))
         }
+        Stmt::While { cond, body, .. } => expr_may_call(cond) || body.iter().any(stmt_may_call),
+        Stmt::Repeat { iterable, body, .. } => expr_may_call(iterable) || body.iter().any(stmt_may_call),
+        _ => true,
     }
 }
 
-- 
2.43.0


From a182898583cece075697f180ba760dfe86eb514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:12 +0000
Subject: [PATCH 21/33] fix: loop-invariant motion ignored multi-value pushes

Flatten statement groups before the optimizer runs so that every pass sees
the writes inside them.
---
 .../logicaffeine_compile/src/optimize/licm.rs |  2 +-
 .../logicaffeine_compile/src/optimize/mod.rs  |  1 +
 .../src/optimize/splice_fuse.rs               | 63 +++++++++++++++++++
 3 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_compile/src/optimize/licm.rs b/crates/logicaffeine_compile/src/optimize/licm.rs
index 543f8f6..599bd66 100644
--- a/crates/logicaffeine_compile/src/optimize/licm.rs
+++ b/crates/logicaffeine_compile/src/optimize/licm.rs
@@ -73,7 +73,7 @@ pub(crate) fn collect_loop_writes(stmts: &[Stmt]) -> HashSet<Symbol> {
                 }
                 writes.extend(collect_loop_writes(body));
             }
-            Stmt::Zone { body, .. } => {
+            Stmt::Zone { body, .. } | Stmt::Splice { body } => {
                 writes.extend(collect_loop_writes(body));
             }
             Stmt::Inspect { arms, .. } => {
diff --git a/crates/logicaffeine_compile/src/optimize/mod.rs b/crates/logicaffeine_compile/src/optimize/mod.rs
index 6503405..9d6c488 100644
--- a/crates/logicaffeine_compile/src/optimize/mod.rs
+++ b/crates/logicaffeine_compile/src/optimize/mod.rs
@@ -321,6 +321,7 @@ pub fn optimize_for_run_tiered<'a>(
     if stmts.len() > MAX_RUN_OPT_STMTS {
         return stmts;
     }
+    let stmts = splice_fuse::flatten_splices(stmts, stmt_arena);
     let bta_cache = bta::analyze_with_sccs(&stmts, interner);
     let mut current = stmts;
     if admits_pinned(cfg, hs, tier, Opt::Inline) {
diff --git a/crates/logicaffeine_compile/src/optimize/splice_fuse.rs b/crates/logicaffeine_compile/src/optimize/splice_fuse.rs
index e1ad775..9e9e34a 100644
--- a/crates/logicaffeine_compile/src/optimize/splice_fuse.rs
+++ b/crates/logicaffeine_compile/src/optimize/splice_fuse.rs
@@ -120,6 +120,69 @@ fn fuse_stmt<'a>(
     }
 }
 
+/// Replace every Splice by its statements. A Splice has no scope of its own, so
+/// the passes that look at statements one by one need not know about it.
+pub fn flatten_splices<'a>(stmts: Vec<Stmt<'a>>, stmt_arena: &'a Arena<Stmt<'a>>) -> Vec<Stmt<'a>> {
+    if !stmts.iter().any(has_splice) {
+        return stmts;
+    }
+    let mut flat = Vec::with_capacity(stmts.len());
+    for s in stmts {
+        match s {
+            Stmt::Splice { body } => flat.extend(flatten_splices(body.to_vec(), stmt_arena)),
+            other => flat.push(flatten_inside(other, stmt_arena)),
+        }
+    }
+    flat
+}
+
+fn has_splice(stmt: &Stmt) -> bool {
+    match stmt {
+        Stmt::Splice { .. } => true,
+        Stmt::If { then_block, else_block, .. } => {
+            then_block.iter().any(has_splice) || else_block.map_or(false, |b| b.iter().any(has_splice))
+        }
+        Stmt::While { body, .. }
+        | Stmt::Repeat { body, .. }
+        | Stmt::Zone { body, .. }
+        | Stmt::FunctionDef { body, .. } => body.iter().any(has_splice),
+        Stmt::Inspect { arms, .. } => arms.iter().any(|arm| arm.body.iter().any(has_splice)),
+        _ => false,
+    }
+}
+
+fn flatten_inside<'a>(stmt: Stmt<'a>, stmt_arena: &'a Arena<Stmt<'a>>) -> Stmt<'a> {
+    let block = |b: &'a [Stmt<'a>]| -> &'a [Stmt<'a>] {
+        if b.iter().any(has_splice) {
+            stmt_arena.alloc_slice(flatten_splices(b.to_vec(), stmt_arena))
+        } else {
+            b
+        }
+    };
+    match stmt {
+        Stmt::If { cond, then_block, else_block } => {
+            Stmt::If { cond, then_block: block(then_block), else_block: else_block.map(block) }
+        }
+        Stmt::While { cond, body, decreasing } => Stmt::While { cond, body: block(body), decreasing },
+        Stmt::Repeat { pattern, iterable, body } => Stmt::Repeat { pattern, iterable, body: block(body) },
+        Stmt::Zone { name, capacity, source_file, body } => {
+            Stmt::Zone { name, capacity, source_file, body: block(body) }
+        }
+        Stmt::FunctionDef { name, params, generics, body, return_type, is_native, native_path, is_exported, export_target, opt_flags } => {
+            Stmt::FunctionDef { name, params, generics, body: block(body), return_type, is_native, native_path, is_exported, export_target, opt_flags }
+        }
+        Stmt::Inspect { target, arms, has_otherwise } => Stmt::Inspect {
+            target,
+            arms: arms
+                .into_iter()
+                .map(|arm| crate::ast::stmt::MatchArm { body: block(arm.body), ..arm })
+                .collect(),
+            has_otherwise,
+        },
+        other => other,
+    }
+}
+
 /// True when `sym`'s name is one of the parser's place-desugar temporaries
 /// with the given tag (`__place_i_17`, `__place_t_20`, …).
 fn is_place_temp(interner: &Interner, sym: Symbol, tag: &str) -> bool {
-- 
2.43.0


From b12fcfaad63d9d2294cee5d39ba977110815ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:40 +0000
Subject: [PATCH 22/33] fix: local times inside a skipped hour

Read a local time that a zone transition skips with the offsets on either side
of that transition instead of the smallest and largest offset of the whole zone.
---
 crates/logicaffeine_base/src/temporal.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index 1d379b4..89fa06b 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -338,8 +338,19 @@ pub fn from_local(
     if valid.len() == 1 {
         return valid[0];
     }
-    // Gap: the local time never occurs — return a boundary instant per `fold`.
-    let mut cands: Vec<i64> = offsets.iter().map(|o| local_ns - *o as i64 * NANOS_PER_SECOND).collect();
+    // Gap: the local time never occurs — read it with the offsets on either side of the transition
+    // that skips it and return one of the two instants per `fold`.
+    let at = |o: i32| local_ns - o as i64 * NANOS_PER_SECOND;
+    let mut before = base_offset;
+    let mut cands: Vec<i64> = offsets.iter().map(|o| at(*o)).collect();
+    for t in transitions {
+        let change = t.at_unix_seconds * NANOS_PER_SECOND;
+        if change <= at(before) && at(t.offset_seconds) < change {
+            cands = vec![at(before), at(t.offset_seconds)];
+            break;
+        }
+        before = t.offset_seconds;
+    }
     cands.sort_unstable();
     match fold {
         Fold::Earlier => cands[0],
-- 
2.43.0


From 55bf5aa8558969ebd6363bc2931d2e0d8c1d81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:04 +0000
Subject: [PATCH 23/33] fix: Julian dates before the year -4800

Divide toward minus infinity so that the conversion to and from day numbers
holds for negative years.
---
 crates/logicaffeine_base/src/temporal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index 89fa06b..ac979f8 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -959,14 +959,14 @@ pub fn jdn_from_julian(year: i64, month: u32, day: u32) -> i64 {
     let a = (14 - month as i64) / 12;
     let y = year + 4800 - a;
     let m = month as i64 + 12 * a - 3;
-    day as i64 + (153 * m + 2) / 5 + 365 * y + y / 4 - 32083
+    day as i64 + (153 * m + 2) / 5 + 365 * y + y.div_euclid(4) - 32083
 }
 
 /// The inverse of [`jdn_from_julian`]: the **Julian-calendar** `(year, month, day)` of a JDN.
 pub fn julian_from_jdn(jdn: i64) -> (i64, u32, u32) {
     let c = jdn + 32082;
-    let d = (4 * c + 3) / 1461;
-    let e = c - (1461 * d) / 4;
+    let d = (4 * c + 3).div_euclid(1461);
+    let e = c - (1461 * d).div_euclid(4);
     let m = (5 * e + 2) / 153;
     let day = (e - (153 * m + 2) / 5 + 1) as u32;
     let month = (m + 3 - 12 * (m / 10)) as u32;
-- 
2.43.0


From 742f6abb779dc65b0178461d1af245ad0b0592f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:04 +0000
Subject: [PATCH 24/33] fix: overflow in timestamp and duration parsing

Compute instants of civil times in 128 bits: the first representable day no longer
overflows and timestamps out of range are refused. Long fractions in durations no
longer overflow either.
---
 crates/logicaffeine_base/src/temporal.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/logicaffeine_base/src/temporal.rs b/crates/logicaffeine_base/src/temporal.rs
index ac979f8..0e78012 100644
--- a/crates/logicaffeine_base/src/temporal.rs
+++ b/crates/logicaffeine_base/src/temporal.rs
@@ -254,9 +254,15 @@ pub fn civil_from_unix_nanos(ns: i64) -> CivilDateTime {
 
 /// The inverse: the SmoothUTC instant (nanoseconds since the epoch) of a civil date-time.
 pub fn unix_nanos_from_civil(dt: CivilDateTime) -> i64 {
+    wide_nanos_from_civil(dt) as i64
+}
+
+/// [`unix_nanos_from_civil`] without the 64-bit limit: midnight of the first representable day,
+/// and every civil time outside 1677–2262, lies beyond it.
+fn wide_nanos_from_civil(dt: CivilDateTime) -> i128 {
     let days = days_from_civil(dt.year, dt.month, dt.day);
     let secs = dt.hour as i64 * 3600 + dt.minute as i64 * 60 + dt.second as i64;
-    days * NANOS_PER_DAY + secs * NANOS_PER_SECOND + dt.nanosecond as i64
+    days as i128 * NANOS_PER_DAY as i128 + (secs * NANOS_PER_SECOND + dt.nanosecond as i64) as i128
 }
 
 /// A UTC-offset transition: from `at_unix_seconds` (a UTC instant) onward, the zone's local time is
@@ -723,11 +729,10 @@ pub fn parse_duration(s: &str) -> Option<i64> {
         let int_val: i128 = if int_str.is_empty() { 0 } else { int_str.parse().ok()? };
         total = total.checked_add(int_val.checked_mul(unit_nanos)?)?;
         if !frac_str.is_empty() {
-            let frac_val: i128 = frac_str.parse().ok()?;
-            let mut denom: i128 = 1;
-            for _ in 0..frac_str.len() {
-                denom *= 10;
-            }
+            // Digits past the twentieth are below a nanosecond in every unit.
+            let digits = &frac_str[..frac_str.len().min(20)];
+            let frac_val: i128 = digits.parse().ok()?;
+            let denom = 10i128.pow(digits.len() as u32);
             total = total.checked_add(frac_val * unit_nanos / denom)?;
         }
         saw_any = true;
@@ -780,7 +785,8 @@ pub fn format_time_of_day(nanos_from_midnight: i64) -> String {
 }
 
 /// Parse an **RFC 3339 / ISO 8601** timestamp into a SmoothUTC instant (nanoseconds since epoch).
-/// Accepts a `Z` zone or a numeric `±HH:MM` offset (normalized to UTC); `None` on malformed input.
+/// Accepts a `Z` zone or a numeric `±HH:MM` offset (normalized to UTC); `None` on malformed input
+/// or an instant outside the 64-bit nanosecond range.
 pub fn parse_rfc3339(s: &str) -> Option<i64> {
     let b = s.as_bytes();
     // The fixed `YYYY-MM-DDTHH:MM:SS` prefix is 19 bytes; a zone always follows.
@@ -862,7 +868,7 @@ pub fn parse_rfc3339(s: &str) -> Option<i64> {
         return None; // trailing garbage
     }
     let civil = CivilDateTime { year, month, day, hour, minute, second, nanosecond };
-    Some(unix_nanos_from_civil(civil) - offset_seconds * NANOS_PER_SECOND)
+    i64::try_from(wide_nanos_from_civil(civil) - (offset_seconds * NANOS_PER_SECOND) as i128).ok()
 }
 
 /// True if `year` is a leap year in the proleptic **Gregorian** calendar (every 4th year, except
-- 
2.43.0


From dd79bdfa62d30055d9134ec3356bfdb1ebbe63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:46 +0000
Subject: [PATCH 25/33] fix: value ranges forgotten on both paths of a branch
 survived the join

---
 crates/logicaffeine_compile/src/optimize/abstract_interp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
index c166399..7a74f77 100644
--- a/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
+++ b/crates/logicaffeine_compile/src/optimize/abstract_interp.rs
@@ -1566,6 +1566,11 @@ fn interp_nested_block<'a>(
 }
 
 fn join_states(out: &mut AbstractState, a: &AbstractState, b: &AbstractState) {
+    // A fact neither path kept is gone, whatever `out` held before the split.
+    out.vars.retain(|key, _| a.vars.contains_key(key) || b.vars.contains_key(key));
+    out.lengths.retain(|key, _| a.lengths.contains_key(key) || b.lengths.contains_key(key));
+    out.elem.retain(|key, _| a.elem.contains_key(key) || b.elem.contains_key(key));
+
     let mut all_keys: std::collections::HashSet<Symbol> = a.vars.keys().cloned().collect();
     all_keys.extend(b.vars.keys().cloned());
 
-- 
2.43.0


From 5a00048d67140a4dbd4b3352ef1d67a206649a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:46 +0000
Subject: [PATCH 26/33] fix: dead store elimination ignored what security
 checks and closures read

---
 .../logicaffeine_compile/src/optimize/dce.rs   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/optimize/dce.rs b/crates/logicaffeine_compile/src/optimize/dce.rs
index db864ac..b18f5c2 100644
--- a/crates/logicaffeine_compile/src/optimize/dce.rs
+++ b/crates/logicaffeine_compile/src/optimize/dce.rs
@@ -73,7 +73,17 @@ fn collect_expr_reads(expr: &Expr, reads: &mut HashSet<Symbol>) -> bool {
             for arg in args { collect_expr_reads(arg, reads); }
             false
         }
-        Expr::Closure { .. } | Expr::Escape { .. } => false,
+        // A closure takes the values of the names it mentions when it is made.
+        Expr::Closure { body, .. } => {
+            match body {
+                ClosureBody::Expression(e) => { collect_expr_reads(e, reads); }
+                ClosureBody::Block(stmts) => {
+                    for s in stmts.iter() { collect_stmt_reads(s, reads); }
+                }
+            }
+            false
+        }
+        Expr::Escape { .. } => false,
     }
 }
 
@@ -169,9 +179,13 @@ fn collect_stmt_reads(stmt: &Stmt, reads: &mut HashSet<Symbol>) {
         Stmt::FunctionDef { .. } | Stmt::StructDef { .. } | Stmt::Theorem(..) | Stmt::Definition(..)
         | Stmt::Axiom(..) | Stmt::Theory(..)
         | Stmt::Escape { .. } | Stmt::Require { .. } | Stmt::Break
-        | Stmt::Assert { .. } | Stmt::Trust { .. } | Stmt::Check { .. }
+        | Stmt::Assert { .. } | Stmt::Trust { .. }
         | Stmt::Spawn { .. } | Stmt::CreatePipe { .. } | Stmt::Mount { .. }
         | Stmt::ReadFrom { .. } | Stmt::LetPeerAgent { .. } | Stmt::Sync { .. } => {}
+        Stmt::Check { subject, object, .. } => {
+            reads.insert(*subject);
+            reads.extend(object);
+        }
         Stmt::LaunchTask { args, .. } | Stmt::LaunchTaskWithHandle { args, .. } => {
             for arg in args { collect_expr_reads(arg, reads); }
         }
-- 
2.43.0


From 8ba5dc2d494483857b3933b6dfc845fd2d8e65c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:46 +0000
Subject: [PATCH 27/33] fix: capabilities are granted per object type and whole
 subjects are compared

---
 .../logicaffeine_compile/src/interpreter.rs   | 72 ++++---------------
 .../src/semantics/policy.rs                   | 39 +++++-----
 .../src/vm/wasm/module.rs                     |  9 ++-
 3 files changed, 38 insertions(+), 82 deletions(-)

diff --git a/crates/logicaffeine_compile/src/interpreter.rs b/crates/logicaffeine_compile/src/interpreter.rs
index 48c2c6f..9212f25 100644
--- a/crates/logicaffeine_compile/src/interpreter.rs
+++ b/crates/logicaffeine_compile/src/interpreter.rs
@@ -2714,53 +2714,25 @@ impl<'a> Interpreter<'a> {
                 };
 
                 let subj_val = self.lookup(*subject)?.clone();
-                let subj_type_name = match &subj_val {
-                    RuntimeValue::Struct(s) => s.type_name.clone(),
-                    _ => return Err(format!("Check subject must be a struct, got {}", subj_val.type_name())),
-                };
-
-                // Find the subject type symbol
-                let subj_type_sym = match self.ctx.interner.lookup(&subj_type_name) {
-                    Some(sym) => sym,
-                    None => return Err(format!("Unknown type '{}' in Check statement", subj_type_name)),
-                };
-
-                let passed = if *is_capability {
-                    // Capability check: "user can publish document"
-                    let obj_val = match object {
+                // The object is only consulted (and only looked up) for
+                // capability checks.
+                let obj_val = if *is_capability {
+                    match object {
                         Some(obj_sym) => Some(self.lookup(*obj_sym)?.clone()),
                         None => None,
-                    };
-
-                    let caps = registry.get_capabilities(subj_type_sym);
-                    let cap = caps
-                        .and_then(|caps| caps.iter().find(|c| c.action == *predicate));
-
-                    match cap {
-                        Some(cap) => self.evaluate_policy_condition(&cap.condition, &subj_val, obj_val.as_ref()),
-                        None => {
-                            let pred_name = self.ctx.interner.resolve(*predicate);
-                            return Err(format!("No capability '{}' defined for type '{}'", pred_name, subj_type_name));
-                        }
                     }
                 } else {
-                    // Predicate check: "user is admin"
-                    let preds = registry.get_predicates(subj_type_sym);
-                    let pred_def = preds
-                        .and_then(|preds| preds.iter().find(|p| p.predicate_name == *predicate));
-
-                    match pred_def {
-                        Some(pred) => self.evaluate_policy_condition(&pred.condition, &subj_val, None),
-                        None => {
-                            let pred_name = self.ctx.interner.resolve(*predicate);
-                            return Err(format!("No predicate '{}' defined for type '{}'", pred_name, subj_type_name));
-                        }
-                    }
+                    None
                 };
-
-                if !passed {
-                    return Err(format!("Security Check Failed: {}", source_text));
-                }
+                crate::semantics::policy::check_policy(
+                    registry,
+                    self.ctx.interner,
+                    &subj_val,
+                    *predicate,
+                    *is_capability,
+                    obj_val.as_ref(),
+                    source_text,
+                )?;
                 Ok(ControlFlow::Continue)
             }
 
@@ -4088,22 +4060,6 @@ impl<'a> Interpreter<'a> {
         }
     }
 
-    /// Evaluate a policy condition against a subject value.
-    fn evaluate_policy_condition(
-        &self,
-        condition: &PolicyCondition,
-        subject: &RuntimeValue,
-        object: Option<&RuntimeValue>,
-    ) -> bool {
-        crate::semantics::policy::evaluate_policy_condition(
-            self.ctx.policy_registry.as_ref(),
-            self.ctx.interner,
-            condition,
-            subject,
-            object,
-        )
-    }
-
     /// The program's global bindings after execution, as sorted
     /// `(name, type, value)` rows — the substrate for the REPL's `:vars`
     /// inspection (see [`crate::repl::ReplSession::vars`]).
diff --git a/crates/logicaffeine_compile/src/semantics/policy.rs b/crates/logicaffeine_compile/src/semantics/policy.rs
index b943078..fa9241a 100644
--- a/crates/logicaffeine_compile/src/semantics/policy.rs
+++ b/crates/logicaffeine_compile/src/semantics/policy.rs
@@ -79,26 +79,14 @@ pub fn evaluate_policy_condition(
             }
             false
         }
-        PolicyCondition::ObjectFieldEquals { subject: subj_field, object: obj_sym, field } => {
-            let obj = match object {
-                Some(o) => o,
-                None => return false,
-            };
-            if let (RuntimeValue::Struct(subj_s), RuntimeValue::Struct(obj_s)) = (subject, obj) {
-                let subj_field_name = interner.resolve(*subj_field);
-                let obj_field_name = interner.resolve(*field);
-                if let (Some(subj_val), Some(obj_val)) =
-                    (subj_s.fields.get(subj_field_name), obj_s.fields.get(obj_field_name))
-                {
-                    values_equal(subj_val, obj_val)
-                } else {
-                    let _obj_sym_name = interner.resolve(*obj_sym);
-                    false
-                }
-            } else {
-                false
-            }
-        }
+        // "the user equals the document's owner": the whole subject is compared.
+        PolicyCondition::ObjectFieldEquals { field, .. } => match object {
+            Some(RuntimeValue::Struct(obj_s)) => obj_s
+                .fields
+                .get(interner.resolve(*field))
+                .is_some_and(|obj_val| values_equal(subject, obj_val)),
+            _ => false,
+        },
         PolicyCondition::SubjectFieldEqualsObjectField { subject_field, object: _, object_field } => {
             let obj = match object {
                 Some(o) => o,
@@ -159,7 +147,16 @@ pub fn check_policy(
 
     let passed = if is_capability {
         let caps = registry.get_capabilities(subj_type_sym);
-        let cap = caps.and_then(|caps| caps.iter().find(|c| c.action == predicate));
+        // A capability is granted per object type: one declared for documents says
+        // nothing about folders.
+        let obj_type_sym = match object {
+            Some(RuntimeValue::Struct(o)) => interner.lookup(&o.type_name),
+            _ => None,
+        };
+        let cap = caps.and_then(|caps| {
+            caps.iter()
+                .find(|c| c.action == predicate && Some(c.object_type) == obj_type_sym)
+        });
         match cap {
             Some(cap) => evaluate_policy_condition(
                 Some(registry),
diff --git a/crates/logicaffeine_compile/src/vm/wasm/module.rs b/crates/logicaffeine_compile/src/vm/wasm/module.rs
index 4930c8e..49213ee 100644
--- a/crates/logicaffeine_compile/src/vm/wasm/module.rs
+++ b/crates/logicaffeine_compile/src/vm/wasm/module.rs
@@ -8451,8 +8451,7 @@ fn emit_policy_condition(code: &mut Vec<u8>, plan: &Plan, ctx: &Ctx, cond: &Poli
             let pred = preds.iter().find(|p| p.predicate_name == *predicate).ok_or(WasmLowerError::Unsupported("policy: referenced predicate not found"))?;
             emit_policy_condition(code, plan, ctx, &pred.condition, subject, object)?;
         }
-        PolicyCondition::SubjectFieldEqualsObjectField { subject_field, object_field, .. }
-        | PolicyCondition::ObjectFieldEquals { subject: subject_field, field: object_field, .. } => {
+        PolicyCondition::SubjectFieldEqualsObjectField { subject_field, object_field, .. } => {
             if object == u16::MAX {
                 return Err(WasmLowerError::Unsupported("policy: cross-field compare needs an object"));
             }
@@ -8482,6 +8481,9 @@ fn emit_policy_condition(code: &mut Vec<u8>, plan: &Plan, ctx: &Ctx, cond: &Poli
         PolicyCondition::FieldBool { .. } => {
             return Err(WasmLowerError::Unsupported("policy: boolean field condition"));
         }
+        PolicyCondition::ObjectFieldEquals { .. } => {
+            return Err(WasmLowerError::Unsupported("policy: whole-subject comparison"));
+        }
     }
     Ok(())
 }
@@ -8495,7 +8497,8 @@ fn lower_check_policy(code: &mut Vec<u8>, plan: &Plan, ctx: &Ctx, subject: u16,
     let subj_sym = ctx.interner.lookup(subj_type).ok_or(WasmLowerError::Unsupported("CheckPolicy subject type not interned"))?;
     let cond = if is_capability {
         let caps = ctx.policies.get_capabilities(subj_sym).ok_or(WasmLowerError::Unsupported("CheckPolicy: no capabilities for subject type"))?;
-        caps.iter().find(|c| c.action == predicate).map(|c| &c.condition).ok_or(WasmLowerError::Unsupported("CheckPolicy: capability not found"))?
+        let obj_sym = plan.structs.struct_name_of.get(&object).and_then(|t| ctx.interner.lookup(t));
+        caps.iter().find(|c| c.action == predicate && Some(c.object_type) == obj_sym).map(|c| &c.condition).ok_or(WasmLowerError::Unsupported("CheckPolicy: capability not found"))?
     } else {
         let preds = ctx.policies.get_predicates(subj_sym).ok_or(WasmLowerError::Unsupported("CheckPolicy: no predicates for subject type"))?;
         preds.iter().find(|p| p.predicate_name == predicate).map(|p| &p.condition).ok_or(WasmLowerError::Unsupported("CheckPolicy: predicate not found"))?
-- 
2.43.0


From 8dcb71b08cf0a35d379dedcf3fbb89b88aec14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:46 +0000
Subject: [PATCH 28/33] fix: numeric literals in policy conditions

---
 crates/logicaffeine_language/src/analysis/discovery.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/logicaffeine_language/src/analysis/discovery.rs b/crates/logicaffeine_language/src/analysis/discovery.rs
index 3b1d98c..f9029b2 100644
--- a/crates/logicaffeine_language/src/analysis/discovery.rs
+++ b/crates/logicaffeine_language/src/analysis/discovery.rs
@@ -415,12 +415,16 @@ impl<'a> DiscoveryPass<'a> {
         }
     }
 
-    /// Consume a value (string literal or identifier), returning the symbol and whether it was a string literal
+    /// Consume a value (string literal, number or identifier), returning the symbol and whether it was a string literal
     fn consume_value(&mut self) -> (Symbol, bool) {
         if let Some(Token { kind: TokenType::StringLiteral(sym), .. }) = self.peek() {
             let s = *sym;
             self.advance();
             (s, true)
+        } else if let Some(Token { kind: TokenType::Number(sym), .. }) = self.peek() {
+            let n = *sym;
+            self.advance();
+            (n, false)
         } else if let Some(sym) = self.consume_noun_or_proper() {
             (sym, false)
         } else {
-- 
2.43.0


From e8fafd6814cb114e321989bc743fd0f1d4eb68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:46 +0000
Subject: [PATCH 29/33] fix: parenthesise and/or in generated policy conditions

---
 crates/logicaffeine_compile/src/codegen/policy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_compile/src/codegen/policy.rs b/crates/logicaffeine_compile/src/codegen/policy.rs
index 5bd6679..990c494 100644
--- a/crates/logicaffeine_compile/src/codegen/policy.rs
+++ b/crates/logicaffeine_compile/src/codegen/policy.rs
@@ -103,12 +103,12 @@ pub(super) fn codegen_policy_condition(condition: &PolicyCondition, interner: &I
         PolicyCondition::Or(left, right) => {
             let left_code = codegen_policy_condition(left, interner);
             let right_code = codegen_policy_condition(right, interner);
-            format!("{} || {}", left_code, right_code)
+            format!("({} || {})", left_code, right_code)
         }
         PolicyCondition::And(left, right) => {
             let left_code = codegen_policy_condition(left, interner);
             let right_code = codegen_policy_condition(right, interner);
-            format!("{} && {}", left_code, right_code)
+            format!("({} && {})", left_code, right_code)
         }
     }
 }
-- 
2.43.0


From c9a9f866b09871594f7b5e7875e2eb47943304e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:46 +0000
Subject: [PATCH 30/33] fix: clauses added between queries and queries after an
 unsatisfiable one

---
 crates/logicaffeine_proof/src/cdcl.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/logicaffeine_proof/src/cdcl.rs b/crates/logicaffeine_proof/src/cdcl.rs
index 885965c..eaeefd9 100644
--- a/crates/logicaffeine_proof/src/cdcl.rs
+++ b/crates/logicaffeine_proof/src/cdcl.rs
@@ -707,7 +707,20 @@ impl Solver {
                 return;
             }
         }
-        self.add_clause_raw(lits, false);
+        // A clause may arrive between queries: judge it against the top-level facts only (the last
+        // query's decisions are not facts), and watch literals those facts have not already falsified —
+        // their propagation is over, so a watch on one of them would never fire.
+        self.backtrack_to(0);
+        lits.sort_by_key(|&l| self.lit_false(l));
+        let falsified = lits.first().is_some_and(|&l| self.lit_false(l));
+        let forced = lits.len() > 1 && self.lit_false(lits[1]) && self.val_of(lits[0]) == Val::Unset;
+        let asserting = lits.first().copied();
+        let ci = self.add_clause_raw(lits, false);
+        if falsified {
+            self.empty_clause = true;
+        } else if forced {
+            self.enqueue(asserting.unwrap(), Reason::Clause(ci));
+        }
     }
 
     /// Internal: register a clause and set up its two watches. `learned` clauses are also
@@ -1516,7 +1529,8 @@ impl Solver {
     /// formula is UNSAT.
     fn after_conflict(&mut self, ci: usize) -> bool {
         if self.trail_lim.is_empty() {
-            return true; // conflict at level 0
+            self.empty_clause = true; // conflict at level 0 — unsatisfiable for every later query
+            return true;
         }
         let trail_at_conflict = self.trail.len();
         let (learned, backjump, lbd) = self.analyze(ci);
@@ -1557,10 +1571,12 @@ impl Solver {
         // Mark which clauses are original so DB reduction never deletes them (the omission that
         // would otherwise let reduction drop the formula itself and report a bogus SAT).
         self.n_original = self.clauses.len();
+        self.backtrack_to(0);
         if self.empty_clause {
             return BudgetedResult::Unsat;
         }
         if self.propagate().is_some() {
+            self.empty_clause = true; // stays unsatisfiable for every later query
             return BudgetedResult::Unsat;
         }
         self.reset_restart_state();
@@ -1568,6 +1584,7 @@ impl Solver {
         loop {
             if let Some(ci) = self.propagate() {
                 if self.trail_lim.is_empty() {
+                    self.empty_clause = true;
                     return BudgetedResult::Unsat;
                 }
                 let trail_at_conflict = self.trail.len();
@@ -1616,11 +1633,13 @@ impl Solver {
     /// returned clause is added to the formula (and may immediately propagate or conflict).
     pub fn solve_with(&mut self, theories: &mut [Box<dyn Theory>]) -> SolveResult {
         self.n_original = self.clauses.len();
+        self.backtrack_to(0);
         if self.empty_clause {
             return SolveResult::Unsat;
         }
         // Top-level propagation of any unit clauses already enqueued.
         if self.propagate().is_some() {
+            self.empty_clause = true; // stays unsatisfiable for every later query
             return SolveResult::Unsat;
         }
         self.reset_restart_state();
-- 
2.43.0


From 83b58966ac649c4c47ae617ee40f201c1114ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:47 +0000
Subject: [PATCH 31/33] fix: tautological clauses in variable elimination

---
 crates/logicaffeine_proof/src/inprocess.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_proof/src/inprocess.rs b/crates/logicaffeine_proof/src/inprocess.rs
index 1e4b9c7..8efcb09 100644
--- a/crates/logicaffeine_proof/src/inprocess.rs
+++ b/crates/logicaffeine_proof/src/inprocess.rs
@@ -32,9 +32,11 @@ fn resolve(a: &[Lit], b: &[Lit], x: Var) -> Option<Vec<Lit>> {
 /// `None` otherwise. Verdict-invariant: a model of the result extends to a model of the input.
 pub fn eliminate_variable(clauses: &[Vec<Lit>], x: Var) -> Option<(Vec<Vec<Lit>>, Vec<ProofStep>)> {
     let (pos, neg) = (Lit::pos(x), Lit::neg(x));
-    let pos_clauses: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&pos)).collect();
-    let neg_clauses: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&neg)).collect();
-    if pos_clauses.is_empty() && neg_clauses.is_empty() {
+    // A clause holding both `x` and `¬x` is always satisfied: it is dropped, never resolved.
+    let mentions: Vec<&Vec<Lit>> = clauses.iter().filter(|c| c.contains(&pos) || c.contains(&neg)).collect();
+    let pos_clauses: Vec<&Vec<Lit>> = mentions.iter().copied().filter(|c| !c.contains(&neg)).collect();
+    let neg_clauses: Vec<&Vec<Lit>> = mentions.iter().copied().filter(|c| !c.contains(&pos)).collect();
+    if mentions.is_empty() {
         return None; // `x` does not occur
     }
     // All non-tautological resolvents.
@@ -54,7 +56,7 @@ pub fn eliminate_variable(clauses: &[Vec<Lit>], x: Var) -> Option<(Vec<Vec<Lit>>
     // delete every clause mentioning `x`. Resolvents are added BEFORE the deletions so their RUP
     // check still sees the parents.
     let mut steps: Vec<ProofStep> = resolvents.iter().map(|r| ProofStep::Rup(r.clone())).collect();
-    for c in pos_clauses.iter().chain(neg_clauses.iter()) {
+    for c in &mentions {
         steps.push(ProofStep::Delete((*c).clone()));
     }
     let mut new_clauses: Vec<Vec<Lit>> =
@@ -188,8 +190,9 @@ pub fn bucket_elimination_refute(num_vars: usize, clauses: &[Vec<Lit>], width_ca
         }
         let v = *vars.iter().min_by_key(|&&v| cur.iter().filter(|c| c.iter().any(|l| l.var() == v)).count()).unwrap();
         let (pos, neg) = (Lit::pos(v), Lit::neg(v));
-        let pos_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&pos)).cloned().collect();
-        let neg_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&neg)).cloned().collect();
+        // A clause holding both literals is always satisfied: it is dropped, never resolved.
+        let pos_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&pos) && !c.contains(&neg)).cloned().collect();
+        let neg_c: Vec<Vec<Lit>> = cur.iter().filter(|c| c.contains(&neg) && !c.contains(&pos)).cloned().collect();
         // Even under the min-degree order the resolvent product `|pos| · |neg|` can explode once a dense
         // (high-treewidth) core is reached — each resolvent stays narrow (so the width cap never trips)
         // yet there are quadratically many. Bail before doing that work: a bounded-treewidth family keeps
-- 
2.43.0


From 2e24fbb713e8248a8fceb56b189910953911c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:47 +0000
Subject: [PATCH 32/33] fix: refutations carry the mined clauses they rest on

---
 crates/logicaffeine_proof/src/solve.rs | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/logicaffeine_proof/src/solve.rs b/crates/logicaffeine_proof/src/solve.rs
index 48077be..69083b3 100644
--- a/crates/logicaffeine_proof/src/solve.rs
+++ b/crates/logicaffeine_proof/src/solve.rs
@@ -316,20 +316,36 @@ fn cdcl_fallback(num_vars: usize, clauses: &[Vec<Lit>]) -> Solved {
     for c in clauses {
         solver.add_clause(c.clone());
     }
-    for c in mine_clauses(num_vars, clauses) {
-        solver.add_clause(c);
+    let mined = mine_clauses(num_vars, clauses);
+    for c in &mined {
+        solver.add_clause(c.clone());
     }
     match solver.solve() {
         SolveResult::Sat(model) => {
             Solved { answer: Answer::Sat(model), via: Route::Cdcl, proof: Vec::new(), conflicts: solver.conflicts() }
         }
         SolveResult::Unsat => {
-            let proof = solver.learned().iter().map(|lc| ProofStep::Rup(lc.lits.clone())).collect();
+            let proof = rup_stream(num_vars, clauses, mined, &solver);
             Solved { answer: Answer::Unsat, via: Route::Cdcl, proof, conflicts: solver.conflicts() }
         }
     }
 }
 
+/// The RUP stream refuting `clauses` when the solver also held the implied `extra` clauses: each of those
+/// first, as a step of its own, then everything learned. Empty when an extra clause is not RUP (a Gaussian
+/// consequence need not be) — the learned clauses may rest on it, so no checkable stream exists.
+fn rup_stream(num_vars: usize, clauses: &[Vec<Lit>], extra: Vec<Vec<Lit>>, solver: &Solver) -> Vec<ProofStep> {
+    let mut db = clauses.to_vec();
+    for c in extra {
+        if !crate::rup::is_rup(num_vars, &db, &c) {
+            return Vec::new();
+        }
+        db.push(c);
+    }
+    let learned = solver.learned().iter().map(|lc| lc.lits.clone());
+    db.drain(clauses.len()..).chain(learned).map(ProofStep::Rup).collect()
+}
+
 /// **The full arsenal in one call** — the opt-in power-mode solver. Runs the cheap specialists
 /// ([`structured_prefix`]); then, *before* the exponential CDCL fallback, the heavier engines the fast
 /// path skips: bounded-degree **Nullstellensatz / Polynomial Calculus** (the nonlinear algebraic
@@ -3758,8 +3774,8 @@ fn hybrid_xor(num_vars: usize, clauses: &[Vec<Lit>]) -> Option<Solved> {
     for c in clauses {
         solver.add_clause(c.clone());
     }
-    for c in derived {
-        solver.add_clause(c);
+    for c in &derived {
+        solver.add_clause(c.clone());
     }
     if xor_seed() {
         solver.set_initial_phase(&witness);
@@ -3787,7 +3803,8 @@ fn hybrid_xor(num_vars: usize, clauses: &[Vec<Lit>]) -> Option<Solved> {
             conflicts: solver.conflicts(),
         }),
         SolveResult::Unsat => {
-            let proof = solver.learned().iter().map(|lc| ProofStep::Rup(lc.lits.clone())).collect();
+            // The live engine logs its parity reasoning as learned clauses, which need not be RUP.
+            let proof = if xor_live() { Vec::new() } else { rup_stream(num_vars, clauses, derived, &solver) };
             Some(Solved { answer: Answer::Unsat, via: Route::HybridXor, proof, conflicts: solver.conflicts() })
         }
     }
-- 
2.43.0


From 44a2b223226ababd2cb7464fe26aacd86cc8354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:53:47 +0000
Subject: [PATCH 33/33] fix: unsound proofs and missed initial violations in
 the frame and interpolation engines

---
 crates/logicaffeine_verify/src/ic3.rs         | 31 +++++++++++++++++--
 .../logicaffeine_verify/src/interpolation.rs  |  3 +-
 crates/logicaffeine_verify/src/kinduction.rs  | 11 ++++++-
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/crates/logicaffeine_verify/src/ic3.rs b/crates/logicaffeine_verify/src/ic3.rs
index 4fb5638..a00dc7e 100644
--- a/crates/logicaffeine_verify/src/ic3.rs
+++ b/crates/logicaffeine_verify/src/ic3.rs
@@ -90,7 +90,7 @@ pub fn ic3(
         VerifyExpr::not(kinduction::instantiate_at(property, 0)),
     );
     if is_sat(&init_violation) {
-        let trace = extract_trace_from_bmc(init, transition, property, 1, &signal_names);
+        let trace = extract_trace_from_bmc(init, transition, property, 0, &signal_names);
         return Ic3Result::Unsafe { trace };
     }
 
@@ -106,7 +106,7 @@ pub fn ic3(
     // Phase 2: IC3 proper — frame-based backward reachability
     // Frame[0] = init, Frame[i] overapproximates states reachable in <= i steps
     let mut frames: Vec<Frame> = vec![Frame::new()];
-    frames[0].add_clause(init.clone());
+    frames[0].add_clause(kinduction::initial_at_current(init));
     frames[0].add_clause(property.clone());
 
     for _iteration in 0..max_frames {
@@ -165,7 +165,9 @@ pub fn ic3(
         // Convergence check: does F_k == F_{k-1}?
         if check_convergence(&frames, k) {
             let invariant = frames[k].to_expr();
-            return Ic3Result::Safe { invariant };
+            if is_inductive(init, transition, &invariant) {
+                return Ic3Result::Safe { invariant };
+            }
         }
     }
 
@@ -183,6 +185,22 @@ pub fn ic3(
     }
 }
 
+/// Check that `invariant` holds initially and is preserved by every transition.
+fn is_inductive(init: &VerifyExpr, transition: &VerifyExpr, invariant: &VerifyExpr) -> bool {
+    let base = VerifyExpr::and(
+        kinduction::instantiate_at(init, 0),
+        VerifyExpr::not(kinduction::instantiate_at(invariant, 0)),
+    );
+    let step = VerifyExpr::and(
+        kinduction::instantiate_at(invariant, 0),
+        VerifyExpr::and(
+            kinduction::instantiate_transition(transition, 0),
+            VerifyExpr::not(kinduction::instantiate_at(invariant, 1)),
+        ),
+    );
+    is_unsat(&base) && is_unsat(&step)
+}
+
 /// Extract base signal names from variable names (strip @0, @t, @t1 suffixes).
 fn extract_signal_names(all_vars: &HashSet<String>) -> Vec<String> {
     let mut signals = HashSet::new();
@@ -525,6 +543,13 @@ fn is_sat(expr: &VerifyExpr) -> bool {
     matches!(solver.check(), z3::SatResult::Sat)
 }
 
+/// Check that a formula is proved unsatisfiable (`false` when the solver gives up).
+fn is_unsat(expr: &VerifyExpr) -> bool {
+    let solver = crate::solver::new_solver();
+    solver.assert(&encode_bool(expr));
+    matches!(solver.check(), z3::SatResult::Unsat)
+}
+
 /// Check if a formula is satisfiable (public, creates its own Z3 context).
 pub fn check_sat(expr: &VerifyExpr) -> bool {
     is_sat(expr)
diff --git a/crates/logicaffeine_verify/src/interpolation.rs b/crates/logicaffeine_verify/src/interpolation.rs
index 88587a5..f4b75f0 100644
--- a/crates/logicaffeine_verify/src/interpolation.rs
+++ b/crates/logicaffeine_verify/src/interpolation.rs
@@ -221,7 +221,8 @@ pub fn itp_model_check(
 ) -> InterpolationResult {
 
     // Phase 1: BMC check — is there a counterexample within bound?
-    for k in 0..bound {
+    // The initial states are always checked: Phase 2 relies on them.
+    for k in 0..bound.max(1) {
         let solver = crate::solver::new_solver();
 
         let init_0 = kinduction::instantiate_at(init, 0);
diff --git a/crates/logicaffeine_verify/src/kinduction.rs b/crates/logicaffeine_verify/src/kinduction.rs
index 9e39c6f..5e5b688 100644
--- a/crates/logicaffeine_verify/src/kinduction.rs
+++ b/crates/logicaffeine_verify/src/kinduction.rs
@@ -164,8 +164,17 @@ pub fn instantiate_transition(expr: &VerifyExpr, step: u32) -> VerifyExpr {
     rename_timestep(&e1, "t1", step + 1)
 }
 
+/// Restate an initial-state predicate over the current step: replace @0 with @t.
+pub fn initial_at_current(expr: &VerifyExpr) -> VerifyExpr {
+    rename_timestep(expr, "0", "t")
+}
+
 /// Replace @{old_suffix} with @{new_step} in all variable names.
-fn rename_timestep(expr: &VerifyExpr, suffix: &str, step: u32) -> VerifyExpr {
+fn rename_timestep(
+    expr: &VerifyExpr,
+    suffix: &str,
+    step: impl std::fmt::Display + Copy,
+) -> VerifyExpr {
     match expr {
         VerifyExpr::Var(name) => {
             let target = format!("@{}", suffix);
-- 
2.43.0

