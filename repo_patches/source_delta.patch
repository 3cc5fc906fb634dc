From 3c793d7ad3ec28813ca5dab7ef6b4c0aeeb93e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 01/44] fix: do not trust the lengths in a malformed stored
 value

A stored value whose length field is damaged made the reader allocate
what the field says: the process panicked or aborted, where the value
should be dropped as any other malformed one. Decoding from the slice
checks lengths against what is there.
---
 bd-key-value/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-key-value/src/lib.rs b/bd-key-value/src/lib.rs
index 56c0ef3..9a61535 100644
--- a/bd-key-value/src/lib.rs
+++ b/bd-key-value/src/lib.rs
@@ -114,7 +114,7 @@ impl Store {
         let result = base64::engine::general_purpose::STANDARD.decode(base64);
         Ok(result.map_or_else(
           |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
-          |bytes| match bincode::deserialize_from::<_, T>(&bytes[..]) {
+          |bytes| match bincode::deserialize::<T>(&bytes) {
             Ok(model) => Ok(Some(model)),
             Err(e) => anyhow::bail!("failed to deserialize model: {:?}", e),
           },
-- 
2.43.0


From c27099f1a77e6b6e9c7128da6be9a72bd6592ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 02/44] fix: keep reloading a watched configuration after a
 watcher error

---
 bd-runtime-config/src/loader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bd-runtime-config/src/loader.rs b/bd-runtime-config/src/loader.rs
index ac15aff..7491657 100644
--- a/bd-runtime-config/src/loader.rs
+++ b/bd-runtime-config/src/loader.rs
@@ -266,7 +266,15 @@ impl<ConfigType: Send + Sync + 'static + ?Sized> WatchedFileLoader<ConfigType> {
       .lock()
       .join_handle
       .replace(tokio::spawn(async move {
-        while let Some(Ok(event)) = rx.recv().await {
+        while let Some(event) = rx.recv().await {
+          // An error does not end the watch: later events must still cause reloads.
+          let event = match event {
+            Ok(event) => event,
+            Err(e) => {
+              log::warn!("watcher error: {:?}", e);
+              continue;
+            },
+          };
           log::debug!("got event: {:?}", event);
           match event.kind {
             EventKind::Modify(ModifyKind::Name(mode)) if mode == Self::rename_mode() => {},
-- 
2.43.0


From 9241ceb5f1a9fea12dbc274e8be3559482797978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 03/44] fix: take the number of processors from NUM_CPUS, not
 from a function's address

---
 bd-rt/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..7964b9b 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -36,12 +36,10 @@ pub fn num_cpus() -> usize {
   if let Ok(num_cpus_env) = std::env::var("NUM_CPUS") {
     match num_cpus_env.parse::<f64>() {
       Ok(fractional_cpus) => {
-        if !fractional_cpus.is_normal() {
-          log::warn!(
-            "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
-          );
+        if fractional_cpus.is_normal() {
+          return std::cmp::max(1, fractional_cpus as usize);
         }
-        return std::cmp::max(1, num_cpus as usize);
+        log::warn!("env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it");
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0


From 52e08d3ab494d5f5132e98abe6f36dfb5ac75c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 04/44] fix: a cursor consumer's read pointer goes past the
 records its cursor skipped

A record that was dropped due to corruption, or never committed before a restart, was skipped by
the cursor but not by the read pointer, which then advanced by the size of another record: space
was never freed, records were read again after a restart, or everything was dropped.
---
 .../src/buffer/non_volatile_ring_buffer.rs    | 92 +++++++++++++++----
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..114c0ae 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -108,7 +108,7 @@ impl RingBufferProducer for ProducerImpl {
         .as_mut()
         .and_then(|c| match c {
           ConsumerType::Consumer(c) => c.clone(),
-          ConsumerType::CursorConsumer(c) => c.front().cloned(),
+          ConsumerType::CursorConsumer(c) => c.front().map(|r| r.range.clone()),
         });
 
       match read_reservation {
@@ -449,7 +449,7 @@ struct CursorConsumerImpl {
 impl CursorConsumerImpl {
   fn get_reservations<'a>(
     guard: &'a MutexGuard<'_, LockedData<ExtraLockedData>>,
-  ) -> &'a IntrusiveQueueWithFreeList<Range> {
+  ) -> &'a IntrusiveQueueWithFreeList<CursorReservation> {
     match guard.extra_locked_data.consumer.as_ref().unwrap() {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => c,
@@ -458,7 +458,7 @@ impl CursorConsumerImpl {
 
   fn get_reservations_mut<'a>(
     guard: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
-  ) -> &'a mut IntrusiveQueueWithFreeList<Range> {
+  ) -> &'a mut IntrusiveQueueWithFreeList<CursorReservation> {
     match guard.extra_locked_data.consumer.as_mut().unwrap() {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => c,
@@ -494,7 +494,10 @@ impl CursorConsumerImpl {
     {
       ConsumerType::Consumer(_) => unreachable!(),
       ConsumerType::CursorConsumer(c) => {
-        c.emplace_back(reservation.unwrap());
+        c.emplace_back(CursorReservation {
+          range: reservation.unwrap(),
+          dropped: false,
+        });
       },
     }
 
@@ -581,10 +584,14 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       .unwrap()
       .clone();
     Self::get_reservations_mut(&mut common_ring_buffer).pop_front();
-    LockedData::finish_read_common(
+    finish_cursor_read(
+      &mut common_ring_buffer,
+      &parent.common_ring_buffer.conditions,
+      &next_reservation.range,
+    );
+    finish_dropped_cursor_reads(
       &mut common_ring_buffer,
       &parent.common_ring_buffer.conditions,
-      &next_reservation,
     );
     write_header_crc32(&mut common_ring_buffer);
     parent.no_consumer_reservation_condition.notify_all();
@@ -623,13 +630,26 @@ pub struct FileHeader {
 
 const FILE_HEADER_CURRENT_VERSION: u32 = 1;
 
+//
+// CursorReservation
+//
+
+// A record that the read cursor is past, but the read pointer is not.
+#[derive(Clone)]
+struct CursorReservation {
+  range: Range,
+  // Whether the record was dropped due to corruption. The consumer does not know about it, and thus
+  // will not advance the read pointer past it.
+  dropped: bool,
+}
+
 //
 // ConsumerType
 //
 
 enum ConsumerType {
   Consumer(Option<Range>),
-  CursorConsumer(IntrusiveQueueWithFreeList<Range>),
+  CursorConsumer(IntrusiveQueueWithFreeList<CursorReservation>),
 }
 
 //
@@ -1072,6 +1092,41 @@ fn compute_header_crc_32(
   })
 }
 
+// Advance the read pointer past a record that the cursor is past. The read pointer may still be at
+// a previous record which the cursor never got to, as it was not committed before a restart.
+fn finish_cursor_read(
+  guard: &mut MutexGuard<'_, LockedData<ExtraLockedData>>,
+  conditions: &Conditions,
+  range: &Range,
+) {
+  *guard.next_read_start() = Some(range.start);
+  LockedData::finish_read_common(guard, conditions, range);
+}
+
+// Advance the read pointer past dropped records that no outstanding cursor read precedes.
+fn finish_dropped_cursor_reads(
+  guard: &mut MutexGuard<'_, LockedData<ExtraLockedData>>,
+  conditions: &Conditions,
+) {
+  loop {
+    let range = match guard.extra_locked_data.consumer.as_mut() {
+      Some(ConsumerType::CursorConsumer(c)) => match c.front() {
+        Some(CursorReservation {
+          range,
+          dropped: true,
+        }) => {
+          let range = range.clone();
+          c.pop_front();
+          range
+        },
+        _ => return,
+      },
+      _ => return,
+    };
+    finish_cursor_read(guard, conditions, &range);
+  }
+}
+
 // Common start read handling for regular and cursor consumers.
 fn common_consumer_start_read<'a>(
   common_ring_buffer: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
@@ -1113,18 +1168,21 @@ fn common_consumer_start_read<'a>(
 
         // What we do here depends on whether we are in cursor mode or not. If not in cursor mode
         // we need to finish the read so we advance past the record and can accept a new start
-        // read reservation. If we are in cursor mode, we can simply null out the reservation as
-        // it has not yet been committed to the reservation list.
-        if matches!(cursor, Cursor::No) {
-          LockedData::finish_read_common(
-            common_ring_buffer,
-            conditions,
-            reservation.as_ref().unwrap(),
-          );
-          write_header_crc32(common_ring_buffer);
+        // read reservation. If we are in cursor mode, the read pointer can only advance past the
+        // record once it has advanced past all outstanding reads before it.
+        let dropped = reservation.take().unwrap();
+        match common_ring_buffer.extra_locked_data.consumer.as_mut() {
+          Some(ConsumerType::CursorConsumer(c)) => {
+            c.emplace_back(CursorReservation {
+              range: dropped,
+              dropped: true,
+            });
+            finish_dropped_cursor_reads(common_ring_buffer, conditions);
+          },
+          _ => LockedData::finish_read_common(common_ring_buffer, conditions, &dropped),
         }
+        write_header_crc32(common_ring_buffer);
 
-        *reservation = None;
         continue;
       }
     }
-- 
2.43.0


From e6a0019c45b3556f7c4de0d954c4b2e90ff19515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 05/44] fix: an async cursor read does not spin while a total
 data loss reset is pending

The read stays unavailable until the outstanding reads are finished, which the thread that spins
may never get to.
---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 114c0ae..07208eb 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -531,7 +531,6 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
               "({}) read resulted in no entry, waiting for more data",
               parent.common_ring_buffer.locked_data.lock().name
             );
-            continue;
           },
           Err(e) => return Err(e),
         }
-- 
2.43.0


From 0ab5b815004356cb5f92514d16f4d5cf5608d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 06/44] fix: drop a record that the disk has no room for, and
 go on flushing

---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index 6cde4c2..a060414 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -91,6 +91,11 @@ impl SharedData {
           // reset processing.
           debug_assert_eq!(message, "pending total data loss reset");
         },
+        Err(Error::AbslStatus(AbslCode::InvalidArgument, ref message)) => {
+          // The volatile buffer may take records that the non-volatile buffer has no room for, as
+          // its per record overhead is larger. Drop such a record, and keep flushing.
+          log::debug!("dropping record that does not fit in the non-volatile buffer: {message}");
+        },
         Err(e) => {
           debug_assert!(self.shutdown_flush_thread.load(Ordering::Relaxed));
           debug_assert!(
-- 
2.43.0


From e710547c9aedf298211c30d7b892165635d09bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 07/44] fix: a flush does not wait for a record that was
 overwritten

---
 bd-buffer/src/buffer/common_ring_buffer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..12c1c10 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -437,6 +437,7 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
         let next_read_start = guard.next_read_start().unwrap();
         guard.zero_extra_data(next_read_start);
         guard.advance_next_read(next_read_actual_size, Cursor::No);
+        guard.maybe_complete_drain(conditions, next_read_start);
       } else {
         break;
       }
@@ -652,18 +653,21 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     }
     log::trace!("({}) finish read {}", guard.name, reservation);
 
-    // TODO(mattklein123): Handle the case in which the target committed write start gets
-    // overwritten.
-    if let Some(wait_for_drain_data) = &guard.wait_for_drain_data {
+    guard.maybe_complete_drain(conditions, reservation.start);
+    guard.maybe_do_total_data_loss_reset();
+  }
+
+  // Wake anyone that is waiting for a drain up to the record at the passed start, which was either
+  // read or overwritten.
+  fn maybe_complete_drain(&mut self, conditions: &Conditions, start: u32) {
+    if let Some(wait_for_drain_data) = &self.wait_for_drain_data {
       if wait_for_drain_data.committed_write_start.is_none()
-        || wait_for_drain_data.committed_write_start.unwrap() == reservation.start
+        || wait_for_drain_data.committed_write_start.unwrap() == start
       {
         conditions.drain_complete.notify_all();
-        guard.wait_for_drain_data = None;
+        self.wait_for_drain_data = None;
       }
     }
-
-    guard.maybe_do_total_data_loss_reset();
   }
 
   // Finish a total data loss reset if there are no outstanding readers/writers.
-- 
2.43.0


From 542ce8b202ef0d0f69f9bf4cdfe43cee3864d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 08/44] fix: go on with a flush, and with later ones, when a
 buffer is not there

---
 bd-buffer/src/ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..c5002e1 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -213,7 +213,6 @@ impl Manager {
           buffer.flush();
         } else {
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0


From e71e8e068122718bc15cdad1f37ba0480e02ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 09/44] fix: a flush of the buffers does not block the thread
 that their readers run on

---
 bd-buffer/src/ring_buffer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index c5002e1..e92909d 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -208,17 +208,21 @@ impl Manager {
       };
 
       for buffer_id in buffers {
-        if let Some((_, buffer)) = self.buffers.lock().0.get(&buffer_id).cloned() {
+        let buffer = self.buffers.lock().0.get(&buffer_id).cloned();
+        if let Some((_, buffer)) = buffer {
           log::debug!("buffer_id={buffer_id} signaled to flush");
-          buffer.flush();
+          // A flush may have to wait for logs to be read, which must not block the thread that the
+          // readers run on.
+          tokio::task::spawn_blocking(move || buffer.flush()).await?;
         } else {
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
         }
       }
 
       if flush_all_buffers {
-        if let Some(stream_buffer) = &self.buffers.lock().1 {
-          stream_buffer.flush();
+        let stream_buffer = self.buffers.lock().1.clone();
+        if let Some(stream_buffer) = stream_buffer {
+          tokio::task::spawn_blocking(move || stream_buffer.flush()).await?;
         }
       }
 
-- 
2.43.0


From a987e635905a53db7332f4db8a1fa33637f4a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 10/44] fix: a field that holds bytes is not overwritten where
 that is not allowed

---
 bd-log-filter/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bd-log-filter/src/lib.rs b/bd-log-filter/src/lib.rs
index 3480d9c..348be69 100644
--- a/bd-log-filter/src/lib.rs
+++ b/bd-log-filter/src/lib.rs
@@ -275,7 +275,14 @@ impl SetField {
   }
 
   fn apply(&self, log: &mut Log) {
-    if !self.is_override_allowed && log.field_value(&self.field_name).is_some() {
+    // A field exists no matter whether what it holds is a string or bytes.
+    let exists = log.field_value(&self.field_name).is_some()
+      || log
+        .fields
+        .iter()
+        .chain(&log.matching_fields)
+        .any(|field| field.key == self.field_name);
+    if !self.is_override_allowed && exists {
       // Return if a field with the desired field name already exists and the transform is not
       // allowed to override existing values.
       return;
-- 
2.43.0


From f3899b5e9c3a31bcb07cb7f808f6a2351b803f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 11/44] fix: a run that is stopped says what became of its
 traversals before that

---
 bd-workflows/src/workflow.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..3607689 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -597,9 +597,9 @@ impl Run {
           return RunResult {
             state: RunState::Stopped,
             triggered_actions: vec![],
-            created_traversals_count: 0,
-            advanced_traversals_count: 0,
-            completed_traversals_count: 0,
+            created_traversals_count,
+            advanced_traversals_count,
+            completed_traversals_count,
             matched_logs_count: run_matched_logs_count,
           };
         }
@@ -621,9 +621,9 @@ impl Run {
                 return RunResult {
                   state: RunState::Stopped,
                   triggered_actions: vec![],
-                  created_traversals_count: 0,
-                  advanced_traversals_count: 0,
-                  completed_traversals_count: 0,
+                  created_traversals_count,
+                  advanced_traversals_count,
+                  completed_traversals_count,
                   matched_logs_count: run_matched_logs_count,
                 };
               }
-- 
2.43.0


From aed13fbeba6425d5c807a7858e8b2de7c976a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 12/44] fix: a stored workflow that its config no longer fits
 is dropped

---
 bd-workflows/src/engine.rs   |  2 ++
 bd-workflows/src/workflow.rs | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..0ce6179 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -309,6 +309,8 @@ impl WorkflowsEngine {
     let workflows_and_configs = workflows.into_iter().map(|config| {
       let workflow = existing_workflow_ids_to_workflows
         .remove(config.id())
+        // The config may have changed since the state was cached.
+        .filter(|workflow| workflow.fits(&config))
         .map_or_else(
           // We have cache state for a given workflow ID.
           || Workflow::new(config.id().to_string()),
diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 3607689..acb242c 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -337,6 +337,22 @@ impl Workflow {
     is_in_initial_state
   }
 
+  /// Whether the workflow could have been created for a given config, i.e., whether each of its
+  /// traversals points at one of config's states and keeps track of all of its transitions. It may
+  /// not be the case for a workflow whose state was stored before its config was changed.
+  pub(crate) fn fits(&self, config: &Config) -> bool {
+    self
+      .runs
+      .iter()
+      .flat_map(|run| &run.traversals)
+      .all(|traversal| {
+        config
+          .states()
+          .get(traversal.state_index)
+          .is_some_and(|state| state.transitions().len() == traversal.matched_logs_counts.len())
+      })
+  }
+
   pub(crate) fn remove_run(&mut self, index: usize) {
     self.runs.remove(index);
   }
-- 
2.43.0


From 2db1f6267657df187cbd13e04ca9a57c774e66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 13/44] fix: a pending action is removed by its id, also when a
 config update changed it

---
 bd-workflows/src/engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 0ce6179..ff543cd 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -462,7 +462,7 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            self.remove_pending_action(&action.id);
             self.needs_state_persistence = true;
           }
         }
@@ -470,8 +470,17 @@ impl WorkflowsEngine {
     }
   }
 
+  /// Removes a pending action by its ID. Other than its ID, the pending action may differ from the
+  /// one that was negotiated as it may have been standardized in response to a config update since.
+  fn remove_pending_action(&mut self, action_id: &str) {
+    self
+      .state
+      .pending_actions
+      .retain(|action| action.id != action_id);
+  }
+
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
-    self.state.pending_actions.remove(&action);
+    self.remove_pending_action(&action.id);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
     // this would do nothing but mess up our tracking of the in-flight flush.
-- 
2.43.0


From 26791e529b57b5e2ad15106d7ae03f1cd06e2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 14/44] fix: a failed upload of a sankey path does not count as
 done

---
 bd-workflows/src/sankey_diagram.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/sankey_diagram.rs b/bd-workflows/src/sankey_diagram.rs
index 68592a8..952a57d 100644
--- a/bd-workflows/src/sankey_diagram.rs
+++ b/bd-workflows/src/sankey_diagram.rs
@@ -209,10 +209,18 @@ impl Processor {
       return;
     }
 
-    if let Err(error) = response.await {
-      log::debug!("failed to wait for sankey upload response: {error}");
-      self.stats.upload_completion_failures.inc();
-      return;
+    match response.await {
+      Ok(response) if response.success => {},
+      Ok(response) => {
+        log::debug!("sankey upload failed, uuid: {:?}", response.uuid);
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
+      Err(error) => {
+        log::debug!("failed to wait for sankey upload response: {error}");
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
     }
 
     // Augustyniak: Is it risky to insert the path only in the case of a successful upload? maybe we
-- 
2.43.0


From 677968d10b005e5cb4dbebf61cfafb2256e84632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 15/44] hook: file_manager is public under cfg(bd_verif)

---
 bd-client-stats/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bd-client-stats/src/lib.rs b/bd-client-stats/src/lib.rs
index d2a03c3..35fae9c 100644
--- a/bd-client-stats/src/lib.rs
+++ b/bd-client-stats/src/lib.rs
@@ -5,7 +5,10 @@
 // LICENSE file or at:
 // https://polyformproject.org/wp-content/uploads/2020/06/PolyForm-Shield-1.0.0.txt
 
+#[cfg(not(bd_verif))]
 mod file_manager;
+#[cfg(bd_verif)]
+pub mod file_manager;
 pub mod stats;
 
 use crate::stats::Flusher;
-- 
2.43.0


From 7a33d332d1ceb0e56119feedeaff97c5c21b9f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 16/44] fix: a limit of zero aggregated files does not panic
 the stats flusher

---
 bd-client-stats/src/file_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index ce5958e..a7367a6 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -253,7 +253,10 @@ impl FileManager {
     });
 
     if create_new_snapshot {
-      if self.max_aggregated_files.read() <= u32::try_from(initialized_inner.index.len()).unwrap() {
+      if !initialized_inner.index.is_empty()
+        && self.max_aggregated_files.read()
+          <= u32::try_from(initialized_inner.index.len()).unwrap()
+      {
         log::debug!("max files reached, popping oldest snapshot");
         initialized_inner.delete_oldest_snapshot().await?;
       }
-- 
2.43.0


From 381e44550f88536ce6efc8b18aa16d2e5327e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 17/44] fix: stats go on after their directory could not be
 made

---
 bd-client-stats/src/file_manager.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index a7367a6..c86ba28 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -184,10 +184,12 @@ impl Inner {
     match self {
       Self::Initialized(inner) => Ok(inner),
       Self::NotInitialized(file_system) => {
-        let file_system = file_system.take().unwrap();
+        // The file system is taken only once nothing can fail any longer, such that this can be tried
+        // again later.
+        let fs = file_system.as_ref().unwrap();
         let path = STATS_DIRECTORY.join(&*PENDING_AGGREGATION_INDEX_FILE);
         log::debug!("initializing pending aggregation index: {}", path.display());
-        let index = match file_system
+        let index = match fs
           .read_file(&path)
           .await
           .and_then(|contents| read_compressed_protobuf(&contents))
@@ -197,14 +199,14 @@ impl Inner {
             log::debug!("unable to open pending aggregation index: {e}");
             log::debug!("creating new aggregation index");
 
-            file_system.remove_dir(&STATS_DIRECTORY).await?;
-            file_system.create_dir(&STATS_DIRECTORY).await?;
+            fs.remove_dir(&STATS_DIRECTORY).await?;
+            fs.create_dir(&STATS_DIRECTORY).await?;
             PendingAggregationIndex::default()
           },
         };
 
         *self = Self::Initialized(InitializedInner {
-          file_system,
+          file_system: file_system.take().unwrap(),
           index: index.pending_files.into(),
         });
 
-- 
2.43.0


From 569ae2cf88fc8cbe3913d85b717667b3e0f1d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 18/44] fix: a flush of no stats does not push out the oldest
 file

---
 bd-client-stats/src/file_manager.rs | 17 -----------------
 bd-client-stats/src/stats.rs        | 14 +++++++-------
 2 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index c86ba28..7ad845c 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -303,23 +303,6 @@ impl FileManager {
     })
   }
 
-  // Called if a merge results in no metrics. The file is removed from the index as it is never
-  // written to avoid empty uploads.
-  pub async fn remove_empty_snapshot(&self) -> anyhow::Result<()> {
-    let mut inner = self.inner.lock().await;
-    let initialized_inner = inner.get_initialized().await?;
-
-    debug_assert!(!initialized_inner.index.back().unwrap().period_end.is_some());
-    log::debug!(
-      "removing empty snapshot from index: {}",
-      initialized_inner.index.back().unwrap().name
-    );
-    initialized_inner.index.pop_back();
-    initialized_inner.write_index().await?;
-
-    Ok(())
-  }
-
   // Write the snapshot returned from `get_or_create_snapshot` back to disk.
   pub async fn write_snapshot(
     &self,
diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..a36896b 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -169,6 +169,13 @@ impl Flusher {
     &self,
     delta_snapshot: SnapshotHelper,
   ) -> anyhow::Result<()> {
+    // If there is nothing to merge there is nothing to write. In particular no new file may be
+    // created, as this can push out the oldest one.
+    if delta_snapshot.metrics.is_empty() {
+      log::debug!("no metrics to merge to disk");
+      return Ok(());
+    }
+
     // Use either the snapshot cached to disk or a new one that records starting point of this
     // aggregation window.
     log::debug!("starting merge of delta snapshot to disk");
@@ -203,13 +210,6 @@ impl Flusher {
       }
     }
 
-    // If there are no metrics in the snapshot after merging in the latest delta, skip writing the
-    // aggregated snapshot to prevent empty stats uploads.
-    if new_or_existing_snapshot.metrics.is_empty() {
-      self.file_manager.remove_empty_snapshot().await?;
-      return Ok(());
-    }
-
     // Write the updated snapshot back to disk. This will either be read back up on the next
     // iteration of this task or converted into an upload payload by the upload task.
     log::debug!(
-- 
2.43.0


From 621bb83050356990a92076b8eae95721cc18ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 19/44] fix: files of stats are listed on disk after a failure
 to list them

---
 bd-client-stats/src/file_manager.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 7ad845c..d753224 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -123,6 +123,8 @@ impl StatsUploadRequestHandle {
 struct InitializedInner {
   file_system: Box<dyn FileSystem>,
   index: VecDeque<PendingFile>,
+  // Whether the index on disk may differ from the one above, as it could not be written.
+  index_unsaved: bool,
 }
 enum Inner {
   NotInitialized(Option<Box<dyn FileSystem>>),
@@ -137,7 +139,8 @@ pub struct FileManager {
 
 impl InitializedInner {
   // Persist the index back to the filesystem.
-  async fn write_index(&self) -> anyhow::Result<()> {
+  async fn write_index(&mut self) -> anyhow::Result<()> {
+    self.index_unsaved = true;
     let index = PendingAggregationIndex {
       pending_files: self.index.iter().cloned().collect(),
       ..Default::default()
@@ -152,6 +155,7 @@ impl InitializedInner {
         &compressed,
       )
       .await?;
+    self.index_unsaved = false;
 
     Ok(())
   }
@@ -208,6 +212,7 @@ impl Inner {
         *self = Self::Initialized(InitializedInner {
           file_system: file_system.take().unwrap(),
           index: index.pending_files.into(),
+          index_unsaved: false,
         });
 
         Ok(match self {
@@ -271,6 +276,9 @@ impl FileManager {
       log::debug!("creating new snapshot in index: {}", pending_file.name);
       initialized_inner.index.push_back(pending_file);
       initialized_inner.write_index().await?;
+    } else if initialized_inner.index_unsaved {
+      // The file that is about to be written may not be listed on disk yet.
+      initialized_inner.write_index().await?;
     }
 
     // Read the file back or make a new one. We don't count an error reading the file or file
@@ -357,6 +365,9 @@ impl FileManager {
         );
         initialized_inner.index[0].period_end = self.time_provider.now().into_proto();
         initialized_inner.write_index().await?;
+      } else if initialized_inner.index_unsaved {
+        // The entry may not be marked as ready on disk yet.
+        initialized_inner.write_index().await?;
       }
 
       let path = STATS_DIRECTORY.join(&initialized_inner.index[0].name);
-- 
2.43.0


From 46ec08d287eb76307a7f98cfd051a1a857920baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 20/44] fix: what is recorded while stats are collected is not
 dropped with its metric

---
 bd-client-stats/src/stats.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index a36896b..098938a 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -267,15 +267,14 @@ impl Flusher {
   fn snap_collector_to_snapshot(collector: &BoundedCollector, snapshot: &mut SnapshotHelper) {
     // During iteration if a metric has data, we retain it, since it is likely to be used again.
     // If there is no data we drop it if there are no outstanding references. This iteration
-    // occurs under the collector lock so it is serialized with respect to new fetches.
+    // occurs under the collector lock so it is serialized with respect to new fetches. Outstanding
+    // references are checked first, as their owners may still record data before they drop them.
     collector.retain(|id, metric| {
-      metric.snap().map_or_else(
-        || metric.multiple_references(),
-        |metric| {
-          snapshot.add_metric(id.clone(), metric);
-          true
-        },
-      )
+      let multiple_references = metric.multiple_references();
+      metric.snap().map_or(multiple_references, |metric| {
+        snapshot.add_metric(id.clone(), metric);
+        true
+      })
     });
   }
 
-- 
2.43.0


From 42376985f3c0cdc6a6ea7a5a165bd47219a6fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 21/44] fix: a damaged gRPC frame no longer breaks the other
 streams of its thread

---
 bd-grpc-codec/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..dfa8da9 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -395,8 +395,14 @@ impl<MessageType: Message> Decoder<MessageType> {
         // TODO(mattklein123): Using Decompress here directly should remove some copies that are
         // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          decompressor
+            .write_all(&compressed)
+            .and_then(|()| decompressor.reset(Vec::new()))
+            .inspect_err(|_| {
+              // The decompressor is shared by all streams of this thread. Don't leave it in the
+              // middle of a message that turned out to be invalid.
+              *decompressor = ZlibDecoder::new(Vec::new());
+            })
         })?
       },
     };
-- 
2.43.0


From 19081e31e597c02dba92d7fccc3ae4b3c0103967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:13 +0000
Subject: [PATCH 22/44] fix: a retry count at its maximum no longer stops the
 client from starting

---
 bd-runtime/src/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-runtime/src/runtime.rs b/bd-runtime/src/runtime.rs
index d7735de..481453e 100644
--- a/bd-runtime/src/runtime.rs
+++ b/bd-runtime/src/runtime.rs
@@ -235,7 +235,7 @@ impl ConfigLoader {
     // attempt to clear the cache directory) and disable caching. We do this because being unable
     // to update the retry count may result in us getting stuck processing what we think is retry
     // 0 over and over again.
-    self.persist_cache_load_retry_count(retry_count + 1)?;
+    self.persist_cache_load_retry_count(retry_count.saturating_add(1))?;
 
     // TODO(snowp): Should we read this from runtime as well? It would make it possible for a bad
     // runtime config to accidentally set this really high, but right now this is not
-- 
2.43.0


From e8e91df2c175202b4d6142955edc69cd933fcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 23/44] fix: a compressed file that was cut short is not read
 as if it ended there

---
 bd-client-common/src/file.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/bd-client-common/src/file.rs b/bd-client-common/src/file.rs
index ac6c5c6..1fba34b 100644
--- a/bd-client-common/src/file.rs
+++ b/bd-client-common/src/file.rs
@@ -6,8 +6,8 @@
 // https://polyformproject.org/wp-content/uploads/2020/06/PolyForm-Shield-1.0.0.txt
 
 use crate::zlib::DEFAULT_MOBILE_ZLIB_COMPRESSION_LEVEL;
-use flate2::read::{ZlibDecoder, ZlibEncoder};
-use flate2::Compression;
+use flate2::read::ZlibEncoder;
+use flate2::{Compression, Decompress, FlushDecompress, Status};
 use std::io::Read;
 
 pub fn write_compressed_protobuf<T: protobuf::Message>(message: &T) -> Vec<u8> {
@@ -34,8 +34,29 @@ pub fn read_compressed_protobuf<T: protobuf::Message>(
   // The files are likely not large enough to deal with streaming decompression on top of flate2.
   // For now we just read the entire thing and then decompress it in memory. We can consider
   // streaming later.
-  let mut decoder = ZlibDecoder::new(compressed_bytes);
   // In the future if/when we switch to using Bytes/Chars in the compiled proto it may be more
   // efficient to read out the uncompressed into Bytes and then parse from that.
-  Ok(T::parse_from_reader(&mut decoder)?)
+  Ok(T::parse_from_bytes(&decompress(compressed_bytes)?)?)
+}
+
+// Decompresses a whole zlib stream. The decoders of flate2 take the end of their input to be the
+// end of the stream, wherever that is, which would make a file that was cut short look complete.
+fn decompress(mut compressed_bytes: &[u8]) -> anyhow::Result<Vec<u8>> {
+  let mut decompress = Decompress::new(true);
+  let mut bytes = Vec::new();
+  loop {
+    bytes.reserve(compressed_bytes.len().max(1024));
+    let (total_in, total_out) = (decompress.total_in(), decompress.total_out());
+    let status =
+      decompress.decompress_vec(compressed_bytes, &mut bytes, FlushDecompress::None)?;
+    let consumed = usize::try_from(decompress.total_in() - total_in)?;
+    compressed_bytes = &compressed_bytes[consumed ..];
+
+    if status == Status::StreamEnd {
+      return Ok(bytes);
+    }
+    if consumed == 0 && decompress.total_out() == total_out {
+      anyhow::bail!("unexpected end of file");
+    }
+  }
 }
-- 
2.43.0


From cb4427024d9971cdb9e62a25aaea6dff733101c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:58 +0000
Subject: [PATCH 24/44] hook: internals of bd-logger are public under
 cfg(bd_verif)

---
 bd-logger/src/client_config.rs |  2 +-
 bd-logger/src/lib.rs           | 65 ++++++++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 881121a..283200c 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -46,7 +46,7 @@ pub trait ApplyConfig {
   async fn apply_configuration(&mut self, configuration: Configuration) -> anyhow::Result<()>;
 }
 
-#[cfg_attr(test, derive(Debug, Default, PartialEq))]
+#[cfg_attr(any(test, bd_verif), derive(Debug, Default, PartialEq))]
 pub struct Configuration {
   buffer: BufferConfigList,
   workflows: WorkflowsConfigurationProto,
diff --git a/bd-logger/src/lib.rs b/bd-logger/src/lib.rs
index a53b001..49ef36c 100644
--- a/bd-logger/src/lib.rs
+++ b/bd-logger/src/lib.rs
@@ -49,6 +49,71 @@ pub use builder::LoggerBuilder;
 pub use logger::{Logger, LoggerHandle};
 pub use metadata::LogMetadata;
 
+// Access to internals for verification.
+#[cfg(bd_verif)]
+pub mod verif {
+  pub use crate::client_config::{ApplyConfig, Config, Configuration};
+  pub use crate::consumer::BufferUploadManager;
+  pub use crate::internal_report::Reporter;
+  pub use crate::memory_bound::{channel, Receiver, Sender, TrySendError};
+  pub use crate::network::NetworkQualityInterceptor;
+  pub use crate::pre_config_buffer::{Error as PreConfigError, PreConfigBuffer};
+  pub use crate::service::{new as upload_service, Upload, UploadRequest, UploadResult};
+  pub use crate::size::MemorySized;
+
+  use bd_api::upload::LogBatch;
+  use bd_api::{DataUpload, TriggerUpload};
+  use bd_buffer::BufferEventWithResponse;
+  use bd_client_stats_store::Scope;
+  use bd_log_primitives::LogInterceptor;
+  use bd_network_quality::NetworkQualityProvider;
+  use bd_runtime::runtime::ConfigLoader;
+  use bd_shutdown::ComponentShutdown;
+  use std::sync::Arc;
+  use std::time::Instant;
+  use tokio::sync::mpsc;
+
+  pub fn upload_request(batch: LogBatch) -> UploadRequest {
+    UploadRequest::new(batch)
+  }
+
+  pub fn upload_manager(
+    data_upload_tx: mpsc::Sender<DataUpload>,
+    runtime_loader: &Arc<ConfigLoader>,
+    shutdown: ComponentShutdown,
+    buffer_event_rx: mpsc::Receiver<BufferEventWithResponse>,
+    trigger_upload_rx: mpsc::Receiver<TriggerUpload>,
+    stats: &Scope,
+  ) -> anyhow::Result<BufferUploadManager> {
+    BufferUploadManager::new(
+      data_upload_tx,
+      runtime_loader,
+      shutdown,
+      buffer_event_rx,
+      trigger_upload_rx,
+      stats,
+      Arc::new(bd_internal_logging::NoopLogger),
+    )
+  }
+
+  struct Clock<F>(F);
+  impl<F: Fn() -> Instant + Send + Sync> crate::network::TimeProvider for Clock<F> {
+    fn now(&self) -> Instant {
+      (self.0)()
+    }
+  }
+
+  pub fn traffic_tracker(
+    now: impl Fn() -> Instant + Send + Sync + 'static,
+    quality: Arc<dyn NetworkQualityProvider>,
+  ) -> Arc<dyn LogInterceptor> {
+    Arc::new(crate::network::HTTPTrafficDataUsageTracker::new(
+      Arc::new(Clock(now)),
+      quality,
+    ))
+  }
+}
+
 #[cfg(test)]
 #[ctor::ctor]
 fn test_global_init() {
-- 
2.43.0


From 2920972bd2a15eb5a51f58fbdef3dc0582af3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:19 +0000
Subject: [PATCH 25/44] fix: a rejected configuration is not acknowledged as
 the last one applied

---
 bd-logger/src/client_config.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 283200c..196d569 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -181,7 +181,7 @@ impl<A: ApplyConfig + Send + Sync> bd_api::ConfigurationUpdate for Config<A> {
       .await
     {
       Some(Nack {
-        version_nonce: version_nonce.clone(),
+        version_nonce,
         error_details: e.to_string(),
         ..Default::default()
       })
@@ -192,7 +192,8 @@ impl<A: ApplyConfig + Send + Sync> bd_api::ConfigurationUpdate for Config<A> {
     Some(
       ClientConfigurationUpdate(ConfigurationUpdateAck {
         nack: nack.into(),
-        last_applied_version_nonce: version_nonce,
+        // If the update was rejected this is still the previous version.
+        last_applied_version_nonce: self.configuration_version_id.clone().unwrap_or_default(),
         ..Default::default()
       })
       .into_request(),
-- 
2.43.0


From 5283253706f33fb2a6238be488e5ad8f86305f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 26/44] fix: a persisted configuration that was cut short does
 not trip an assertion

---
 bd-logger/src/client_config.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 196d569..2d0eeb9 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -154,16 +154,13 @@ impl<A: ApplyConfig> Config<A> {
       // TODO(snowp): Track failures here via analytic events.
       let configuration_update: ConfigurationUpdate = ConfigurationUpdate::parse_from_bytes(&data)?;
 
-      // If this function succeeds, it should write back the file to disk.
-      let maybe_nack = self
+      // If this function succeeds, it should write back the file to disk. We should never persist
+      // config that results in a Nack, but the file may have been cut short by a crash (an empty
+      // file parses as an update without a configuration). In that case we effectively drop the
+      // config on startup as it is not written back.
+      self
         .process_configuration_update(&configuration_update)
-        .await;
-
-      // We should never persist config that results in a Nack, but if we do we effectively drop the
-      // config on startup as the above function won't write it back.
-      debug_assert!(maybe_nack.is_ok());
-
-      Ok(())
+        .await
     };
 
     result.map_err(|e| e.context("failed to load persisted config"))
-- 
2.43.0


From 08e476d4bc4d1209803def7a249e4b95624f89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 27/44] fix: a log that is too large does not make one that
 fits be dropped

---
 bd-logger/src/memory_bound.rs | 48 +++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/bd-logger/src/memory_bound.rs b/bd-logger/src/memory_bound.rs
index 2bd75d0..f2b9b85 100644
--- a/bd-logger/src/memory_bound.rs
+++ b/bd-logger/src/memory_bound.rs
@@ -119,29 +119,33 @@ impl<T: MemorySized> Sender<T> {
   }
 
   fn try_reserve_memory(&self, memory_amount: u64) -> Result<(), MemoryReservationErrorNoMemory> {
-    // The reservation of the memory performed by an atomic operation that increases the current
-    // memory usage counter. Later we verify whether the reservation did not cause the memory
-    // usage to overflow the configured memory capacity limit and void the reservation if it did.
-    let pre_add_capacity_usage = self
-      .memory_capacity_usage
-      .fetch_add(memory_amount, Ordering::SeqCst);
-    let post_add_mem_capacity = pre_add_capacity_usage + memory_amount;
-
-    if post_add_mem_capacity > self.memory_capacity {
-      log::debug!(
-        "Failed to add to the channel: channel reached out {:?} bytes in size and {:?} bytes \
-         cannot be added to it without exceeding the configured memory capacity ({:?} bytes)",
-        pre_add_capacity_usage,
-        memory_amount,
-        self.memory_capacity
-      );
+    // The reservation of the memory is performed by an atomic operation that increases the current
+    // memory usage counter only if this does not cause the memory usage to overflow the configured
+    // memory capacity limit. In particular, a message that does not fit never takes up space that
+    // another message could have used.
+    let result =
+      self
+        .memory_capacity_usage
+        .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |usage| {
+          usage
+            .checked_add(memory_amount)
+            .filter(|usage| *usage <= self.memory_capacity)
+        });
+
+    let post_add_mem_capacity = match result {
+      Ok(pre_add_capacity_usage) => pre_add_capacity_usage + memory_amount,
+      Err(capacity_usage) => {
+        log::debug!(
+          "Failed to add to the channel: channel reached out {:?} bytes in size and {:?} bytes \
+           cannot be added to it without exceeding the configured memory capacity ({:?} bytes)",
+          capacity_usage,
+          memory_amount,
+          self.memory_capacity
+        );
 
-      // Void the reservation of the memory performed at the beginning of the method as
-      // the reservation caused the memory usage to be greater than configured memory capacity
-      // limit.
-      self.void_memory_reservation(memory_amount);
-      return Err(MemoryReservationErrorNoMemory {});
-    }
+        return Err(MemoryReservationErrorNoMemory {});
+      },
+    };
 
     log::trace!(
       "Reserved {:?} bytes in the channel, the new size of the channel is {:?} bytes",
-- 
2.43.0


From a2bfcfc06adb442f253a1749c9c5bc44a502d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 28/44] fix: an upload that succeeds at its last attempt is not
 counted as given up

---
 bd-logger/src/service.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 70dcd4f..b4199fa 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -234,6 +234,11 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     req: &mut UploadRequest,
     result: &mut std::result::Result<UploadResult, Infallible>,
   ) -> Option<Self::Future> {
+    // Only failures are retried, and only they can use up the retry limit.
+    if !matches!(result, Ok(UploadResult::Failure)) {
+      return None;
+    }
+
     log::debug!(
       "considering request with {} logs, {} attempts left",
       req.log_upload.logs.len(),
@@ -254,16 +259,13 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     let backoff_delay = backoff.next_backoff().unwrap();
     self.attempts += 1;
 
-    match result {
-      Ok(UploadResult::Failure) => Some(Box::pin(async move {
-        log::trace!(
-          "waiting for {}ms for next attempt",
-          backoff_delay.as_millis()
-        );
-        tokio::time::sleep(backoff_delay).await;
-      })),
-      _ => None,
-    }
+    Some(Box::pin(async move {
+      log::trace!(
+        "waiting for {}ms for next attempt",
+        backoff_delay.as_millis()
+      );
+      tokio::time::sleep(backoff_delay).await;
+    }))
   }
 
   fn clone_request(&mut self, req: &UploadRequest) -> Option<UploadRequest> {
-- 
2.43.0


From 92ff505b44b9845451ea0f980e55d1149fa71cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 29/44] fix: lowering the retry limit amid an upload does not
 underflow

---
 bd-logger/src/service.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index b4199fa..bed56fd 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -222,7 +222,8 @@ impl RetryPolicy {
   }
 
   fn remaining(&self) -> u32 {
-    self.max_retries.read() - self.attempts
+    // The limit may have been lowered since the first attempt.
+    self.max_retries.read().saturating_sub(self.attempts)
   }
 }
 
-- 
2.43.0


From df2194b76e17d6ee242b3752308a0c3da9eecad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 30/44] fix: the upload quota is refilled at the end of its
 period, not just after it

---
 bd-logger/src/ratelimit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/ratelimit.rs b/bd-logger/src/ratelimit.rs
index f4a05dd..04e5429 100644
--- a/bd-logger/src/ratelimit.rs
+++ b/bd-logger/src/ratelimit.rs
@@ -148,7 +148,7 @@ fn try_acquire_ratelimit_permit(request_size: u32, state: &Mutex<SharedState>) -
   // This implementation isn't perfect, as we might process a fill later than the fill time. This
   // makes the math a bit sloppy but doesn't fundamentally change the behavior of the rate limiting.
   let now = Instant::now();
-  if l.sleep_until < now {
+  if l.sleep_until <= now {
     l.state = State::Ready { rem: l.rate.num() };
     l.sleep_until = now + l.rate.per().unsigned_abs();
   }
-- 
2.43.0


From 6754124660df8644b013324bfd7cf60fc6a5b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 31/44] fix: logs whose upload was canceled by the shutdown
 stay in the continuous buffer

---
 bd-logger/src/consumer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index d265da8..94b33b6 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -9,7 +9,7 @@
 #[path = "./consumer_test.rs"]
 mod consumer_test;
 
-use crate::service::{self, UploadRequest};
+use crate::service::{self, UploadRequest, UploadResult};
 use anyhow::anyhow;
 use bd_api::upload::LogBatch;
 use bd_api::{DataUpload, TriggerUpload};
@@ -532,7 +532,14 @@ impl ContinuousBufferUploader {
 
     log::debug!("completed continuous upload with result: {:?}", result);
 
-    // Regardless of the outcome of the upload, advance the read cursor to mark the records as
+    // The upload is only canceled when everything is being shut down. The logs have to stay in the
+    // buffer in this case, so that they get uploaded by the next process.
+    if matches!(result, UploadResult::Canceled) {
+      self.shutdown.cancelled().await;
+      return Ok(());
+    }
+
+    // Regardless of any other outcome of the upload, advance the read cursor to mark the records as
     // written.
     for _ in 0 .. logs_len {
       self.consumer.advance_read_cursor()?;
-- 
2.43.0


From 1f39b5af7f5838ff4ac2ab75455a9aad5ff8bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 32/44] fix: an upload of a trigger buffer ends when the buffer
 is removed, and at a shutdown

The buffer upload manager waited for the upload before it acknowledged the removal, while the Api,
which has to pass on the response to the upload, waits for that acknowledgement. At a shutdown, all
of the buffer was read, and the logs were lost.
---
 bd-logger/src/consumer.rs | 65 ++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index 94b33b6..4b3f4ab 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -176,7 +176,9 @@ impl BufferUploadManager {
       // match configuration targets a buffer that doesn't have a corresponding buffer config,
       // which is not validated.
       if let Some(buffer) = self.trigger_buffers.get(&buffer_id) {
-        let trigger_consumer = self.new_trigger_consumer(&buffer_id, buffer)?;
+        let shutdown_trigger = ComponentShutdownTrigger::default();
+        let trigger_consumer =
+          self.new_trigger_consumer(&buffer_id, buffer, shutdown_trigger.make_shutdown())?;
 
         self.active_trigger_uploads.insert(buffer_id.clone());
 
@@ -187,8 +189,6 @@ impl BufferUploadManager {
         let upload_complete_tx = trigger_upload_complete_tx.clone();
         let buffer_id_clone = buffer_id.clone();
         let internal_logger = self.logging.clone();
-        let shutdown_trigger = ComponentShutdownTrigger::default();
-        let shutdown = shutdown_trigger.make_shutdown();
         let (single_upload_complete_tx, single_upload_complete_rx) =
           tokio::sync::oneshot::channel();
         buffer_upload_completions.push(single_upload_complete_rx);
@@ -210,9 +210,6 @@ impl BufferUploadManager {
 
             single_upload_complete_tx.send(()).unwrap();
 
-            // TODO(mattklein123): Should we pass this into the trigger consumer and actually
-            // try to bail quickly if it's taking a long time and we are trying to shutdown?
-            drop(shutdown);
             upload_complete_tx
               .send(buffer_id_clone)
               .await
@@ -224,8 +221,6 @@ impl BufferUploadManager {
           )),
         );
 
-        // We never cancel the trigger uploads directly, so just reuse the top level shutdown
-        // token.
         self
           .shutdowns
           .insert(buffer_id.to_string(), shutdown_trigger);
@@ -358,6 +353,7 @@ impl BufferUploadManager {
     &self,
     buffer_name: &str,
     buffer: &Arc<Buffer>,
+    shutdown: ComponentShutdown,
   ) -> anyhow::Result<CompleteBufferUpload> {
     Ok(CompleteBufferUpload::new(
       buffer.new_consumer()?,
@@ -365,6 +361,7 @@ impl BufferUploadManager {
       self.log_upload_service.clone(),
       buffer_name.to_string(),
       self.old_logs_dropped.clone(),
+      shutdown,
     ))
   }
 }
@@ -620,6 +617,10 @@ struct CompleteBufferUpload {
   lookback_window: Option<time::OffsetDateTime>,
 
   old_logs_dropped: Counter,
+
+  // Used to notify the consumer to shut down processing. This must be dropped after the consumer,
+  // so that the buffer is no longer in use once the shutdown completes.
+  shutdown: ComponentShutdown,
 }
 
 impl CompleteBufferUpload {
@@ -629,6 +630,7 @@ impl CompleteBufferUpload {
     log_upload_service: service::Upload,
     buffer_id: String,
     old_logs_dropped: Counter,
+    shutdown: ComponentShutdown,
   ) -> Self {
     let lookback_window_limit = runtime_flags.upload_lookback_window_feature_flag.read();
 
@@ -645,6 +647,7 @@ impl CompleteBufferUpload {
       buffer_id,
       lookback_window,
       old_logs_dropped,
+      shutdown,
     }
   }
 
@@ -686,7 +689,7 @@ impl CompleteBufferUpload {
         // No more logs available, flush current batch if there are any logs.
         Err(Error::AbslStatus(AbslCode::Unavailable, _)) => {
           if !self.batch_builder.logs.is_empty() {
-            self.flush_batch().await?;
+            self.flush_batch().await;
           }
 
           log::debug!("trigger upload complete, sent {} logs", total_logs);
@@ -696,37 +699,43 @@ impl CompleteBufferUpload {
         Err(e) => return Err(e.into()),
       }
 
-      if self.batch_builder.limit_reached() {
-        self.flush_batch().await?;
+      if self.batch_builder.limit_reached() && !self.flush_batch().await {
+        log::debug!("trigger upload canceled");
+        return Ok(total_logs);
       }
     }
   }
 
-  async fn flush_batch(&mut self) -> anyhow::Result<()> {
+  // Uploads the current batch. Returns whether the upload of the buffer should go on.
+  async fn flush_batch(&mut self) -> bool {
     let logs = self.batch_builder.take();
 
     log::debug!("flushing {} logs", logs.len());
 
     // Attempt to perform an upload of these buffers, with retries ++. See logger/service.rs for
     // details about retry policies etc.
-    let result = self
-      .log_upload_service
-      .ready()
-      .await
-      .unwrap_infallible()
-      .call(UploadRequest::new(LogBatch {
-        logs,
-        buffer_id: self.buffer_id.clone(),
-      }))
-      .await
-      .unwrap_infallible();
-
-    // Note that we don't keep a shutdown handle for trigger uploads since we don't ever try to
-    // cancel them, so we don't anything extra here to avoid deadlocking like in the other two
-    // consumer tasks.
+    let upload_future = async {
+      self
+        .log_upload_service
+        .ready()
+        .await
+        .unwrap_infallible()
+        .call(UploadRequest::new(LogBatch {
+          logs,
+          buffer_id: self.buffer_id.clone(),
+        }))
+        .await
+        .unwrap_infallible()
+    };
+
+    // Bail on the upload if we are shutting down this task to avoid deadlocking the API task.
+    let result = tokio::select! {
+      result = upload_future => result,
+      () = self.shutdown.cancelled() => return false,
+    };
 
     log::debug!("completed trigger batch upload with result: {:?}", result);
 
-    Ok(())
+    !matches!(result, UploadResult::Canceled)
   }
 }
-- 
2.43.0


From b40bb3c8e5191ef5bc04c7eebb43a64c82a122c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 33/44] fix: a log that triggers a flush is added to a flushed
 buffer unless it goes to one

---
 bd-logger/src/log_replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 6075c91..230bfe4 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -439,7 +439,7 @@ impl ProcessingPipeline {
     // Therefore, we assume that the log ends up being uploaded only if it is directed to one of the
     // trigger buffers that is about to be flushed.
     let written_to_flushed_trigger_buffer =
-      !written_to_buffers.is_disjoint(&buffers.trigger_buffer_ids);
+      !written_to_buffers.is_disjoint(triggered_flushes_buffer_ids);
 
     let is_log_about_to_be_uploaded =
       written_to_continuous_buffer || written_to_flushed_trigger_buffer;
-- 
2.43.0


From ff913104c3a9ce973eb4374c4d36f3bf0ed2e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 34/44] fix: a log that one buffer does not take is still
 written to the others

---
 bd-logger/src/log_replay.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 230bfe4..432d5ff 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -8,7 +8,7 @@
 use crate::client_config::TailConfigurations;
 use crate::logging_state::{BufferProducers, ConfigUpdate, InitializedLoggingContextStats};
 use bd_api::{DataUpload, TriggerUpload};
-use bd_buffer::{AbslCode, BuffersWithAck, Error};
+use bd_buffer::BuffersWithAck;
 use bd_client_common::fb::make_log;
 use bd_client_stats::FlushTrigger;
 use bd_log_filter::FilterChain;
@@ -394,21 +394,16 @@ impl ProcessingPipeline {
           // TODO(snowp): For both logger and buffer lookup we end up doing a map lookup, which
           // seems less than ideal in the logging path. Look into ways to optimize this,
           // possibly via vector indices instead of string keys.
-          match BufferProducers::producer(&mut buffers.buffers, buffer)?.write(data) {
-            // If the buffer is locked, drop the error. This helps ensure that we are able to
-            // log to all buffers even if one of them is locked.
-            // TODO(snowp): Track how often logs are dropped due to locks.
-            // If the buffer is out of space, drop the error.
-            // TODO(mattklein123): Track this via stats.
-            e @ Err(Error::AbslStatus(
-              AbslCode::FailedPrecondition | AbslCode::ResourceExhausted,
-              _,
-            )) => {
-              log::debug!("failed to write log to buffer: {e:?}");
-              Ok(())
-            },
-            e => e,
-          }?;
+          // Drop the error of any of the buffers (i.e., the buffer is locked, it's out of space, the
+          // log is bigger than the buffer). This helps ensure that we are able to log to all
+          // buffers even if writing to one of them fails.
+          // TODO(snowp): Track how often logs are dropped due to locks.
+          // TODO(mattklein123): Track this via stats.
+          let result = BufferProducers::producer(&mut buffers.buffers, buffer)
+            .and_then(|producer| Ok(producer.write(data)?));
+          if let Err(e) = result {
+            log::debug!("failed to write log to buffer: {e:?}");
+          }
         }
         Ok(())
       },
-- 
2.43.0


From 133ee262e56b7f086ffea2c567e881d1eaa6a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 35/44] fix: a blocking log waits until the buffers that it was
 written to are flushed

---
 bd-logger/src/log_replay.rs | 48 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 432d5ff..df93387 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -239,11 +239,19 @@ impl ProcessingPipeline {
       },
     }
 
-    let mut matching_buffers =
+    let matching_buffers =
       self
         .buffer_selector
         .buffers(log.log_type, log.log_level, log.message, log.fields);
 
+    // Check whether the caller is waiting for the log processing to complete. We call such logs
+    // "blocking".
+    let is_blocking = log_processing_completed_tx.is_some();
+
+    // The buffers that a blocking log was written to. They may differ from the buffers that match
+    // it.
+    let mut written_buffers: BTreeSet<String> = BTreeSet::new();
+
     if let Some(workflows_engine) = self.workflows_engine.as_mut() {
       let result = workflows_engine.process_log(log, &matching_buffers);
 
@@ -271,22 +279,27 @@ impl ProcessingPipeline {
         result.triggered_flush_buffers_action_ids.iter().copied(),
       )?;
 
-      if let Some(extra_matching_buffer) = Self::process_flush_buffers_actions(
+      if is_blocking {
+        written_buffers.extend(
+          result
+            .log_destination_buffer_ids
+            .iter()
+            .map(ToString::to_string),
+        );
+      }
+
+      if let Some(extra_buffer) = Self::process_flush_buffers_actions(
         &result.triggered_flush_buffers_action_ids,
         &mut self.buffer_producers,
         &result.triggered_flushes_buffer_ids,
         &result.log_destination_buffer_ids,
         log,
       ) {
-        // We emitted a synthetic log. Add the buffer it was written to to the list of matching
-        // buffers.
-        matching_buffers.insert(extra_matching_buffer.into());
+        // We emitted a synthetic log. Add the buffer it was written to to the list of buffers that
+        // the log was written to.
+        written_buffers.insert(extra_buffer);
       }
 
-      // Check whether the caller is waiting for the log processing to complete. We call such logs
-      // "blocking".
-      let is_blocking = log_processing_completed_tx.is_some();
-
       // Force the persistence of workflows state to disk if log is blocking.
       workflows_engine.maybe_persist(is_blocking).await;
     } else {
@@ -296,13 +309,16 @@ impl ProcessingPipeline {
         log,
         std::iter::empty(),
       )?;
+      if is_blocking {
+        written_buffers.extend(matching_buffers.iter().map(ToString::to_string));
+      }
     }
 
     if let Some(log_processing_completed_tx) = log_processing_completed_tx {
       let result = Self::finish_blocking_log_processing(
         flush_buffers_tx,
         flush_stats_trigger,
-        matching_buffers,
+        written_buffers,
       )
       .await;
 
@@ -319,7 +335,7 @@ impl ProcessingPipeline {
   async fn finish_blocking_log_processing(
     flush_buffers_tx: tokio::sync::mpsc::Sender<BuffersWithAck>,
     flush_stats_trigger: Option<FlushTrigger>,
-    matching_buffers: BTreeSet<Cow<'_, str>>,
+    written_buffers: BTreeSet<String>,
   ) -> anyhow::Result<()> {
     // The processing of a blocking log is about to complete.
     // We make an arbitrary decision to start with the flushing of log buffers to disk first and
@@ -329,19 +345,17 @@ impl ProcessingPipeline {
 
     let flush_stats_trigger = flush_stats_trigger.clone();
 
-    if matching_buffers.is_empty() {
+    if written_buffers.is_empty() {
       // Return early to avoid unnecessary tokio messages.
       log::debug!(
-        "blocking log: log processed but no buffers matched, returning without waiting for \
+        "blocking log: log processed but not written to any buffers, returning without waiting for \
          buffers flush"
       );
     } else {
       let (tx, rx) = bd_completion::Sender::new();
       // call the sender to flush the buffers using the tx that was created along with the logger
-      let buffers_to_flush = BuffersWithAck::new(
-        matching_buffers.iter().map(ToString::to_string).collect(),
-        Some(tx),
-      );
+      let buffers_to_flush =
+        BuffersWithAck::new(written_buffers.into_iter().collect(), Some(tx));
 
       let result = flush_buffers_tx.send(buffers_to_flush).await;
       if let Err(e) = result {
-- 
2.43.0


From 53a3f74265351894837cc4017ac391741541796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:56 +0000
Subject: [PATCH 36/44] fix: stats are flushed to disk while an upload of stats
 waits to be sent

---
 bd-client-stats/src/stats.rs | 54 ++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 098938a..411be14 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -26,9 +26,14 @@ use bd_time::TimeDurationExt;
 #[cfg(test)]
 use stats_test::{TestHooks, TestHooksReceiver};
 use std::collections::HashMap;
+use std::future::Future;
+use std::pin::Pin;
 use std::sync::Arc;
 use time::Duration;
-use tokio::sync::{mpsc, oneshot, watch};
+use tokio::sync::{mpsc, watch};
+
+// An upload that was not responded to yet.
+type UploadInProgress = Pin<Box<dyn Future<Output = UploadResponse> + Send>>;
 
 //
 // Ticker
@@ -129,7 +134,7 @@ impl Flusher {
   }
 
   pub async fn periodic_flush(mut self) {
-    let mut upload_rx = None;
+    let mut upload_in_progress: Option<UploadInProgress> = None;
     loop {
       tokio::select! {
         Some(completion_tx) = self.flush_rx.recv() => {
@@ -144,17 +149,16 @@ impl Flusher {
         () = self.shutdown.cancelled() => return,
         () = self.flush_ticker.tick() => self.flush_to_disk().await,
         () = self.upload_ticker.tick() => {
-          if upload_rx.is_some() {
+          if upload_in_progress.is_some() {
             log::debug!("upload already in progress, skipping");
             continue;
           }
 
-          upload_rx = self.upload_from_disk(false).await;
+          upload_in_progress = self.upload_from_disk(false).await;
         },
-        upload_result = async { upload_rx.as_mut().unwrap().await }, if upload_rx.is_some() => {
-          upload_rx = self.process_pending_upload_completion(
-            upload_result.unwrap_or(UploadResponse { success: false, uuid: String::new() })
-          ).await;
+        upload_result = async { upload_in_progress.as_mut().unwrap().await },
+          if upload_in_progress.is_some() => {
+          upload_in_progress = self.process_pending_upload_completion(upload_result).await;
 
           #[cfg(test)]
           self.test_hooks.sender.upload_complete_tx.send(()).await.unwrap();
@@ -281,17 +285,17 @@ impl Flusher {
   async fn upload_from_disk(
     &self,
     only_if_file_is_old: bool,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<UploadInProgress> {
     async fn inner(
       flusher: &Flusher,
       only_if_file_is_old: bool,
-    ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+    ) -> anyhow::Result<Option<UploadInProgress>> {
       if let Some(pending_upload) = flusher
         .file_manager
         .get_or_create_pending_upload(only_if_file_is_old)
         .await?
       {
-        return flusher.process_pending_upload(pending_upload).await;
+        return Ok(Some(flusher.process_pending_upload(pending_upload)));
       }
       Ok(None)
     }
@@ -312,11 +316,10 @@ impl Flusher {
   }
 
   // Attempts to upload the provided stats request. Upon success, the file containing the pending
-  // request will be deleted.
-  async fn process_pending_upload(
-    &self,
-    request: StatsUploadRequest,
-  ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+  // request will be deleted. The returned future is polled next to everything else that the flusher
+  // does: while there is no connection there may be no room for the upload for as long as that
+  // lasts, and flushes to disk must be possible meanwhile.
+  fn process_pending_upload(&self, request: StatsUploadRequest) -> UploadInProgress {
     let (stats, response_rx) = TrackedStatsUploadRequest::new(request.upload_uuid.clone(), request);
 
     log::debug!(
@@ -332,19 +335,22 @@ impl Flusher {
 
     let tracked_upload = DataUpload::StatsUploadRequest(stats);
 
-    // If this errors out the other end of the channel has closed, indicating that we are shutting
-    // down.
-    if self.data_flush_tx.send(tracked_upload).await.is_err() {
-      return Ok(None);
-    }
-
-    Ok(Some(response_rx))
+    let data_flush_tx = self.data_flush_tx.clone();
+    Box::pin(async move {
+      // If this errors out the other end of the channel has closed, indicating that we are shutting
+      // down, and the response channel is closed as well.
+      let _ignored = data_flush_tx.send(tracked_upload).await;
+      response_rx.await.unwrap_or(UploadResponse {
+        success: false,
+        uuid: String::new(),
+      })
+    })
   }
 
   async fn process_pending_upload_completion(
     &self,
     upload_response: UploadResponse,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<UploadInProgress> {
     log::debug!("stat upload attempt complete: {:?}", upload_response);
     if upload_response.success {
       // If this fails we are in a bad state and are likely going to end up double uploading, but
-- 
2.43.0


From 9b705965d5cad4c4fe8b3c173247bc7751e19998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:19 +0000
Subject: [PATCH 37/44] fix: an interval of zero in the runtime configuration
 does not panic

---
 bd-resource-utilization/src/lib.rs |  2 ++
 bd-time/src/lib.rs                 | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/bd-resource-utilization/src/lib.rs b/bd-resource-utilization/src/lib.rs
index ddd60a1..c260747 100644
--- a/bd-resource-utilization/src/lib.rs
+++ b/bd-resource-utilization/src/lib.rs
@@ -72,6 +72,8 @@ impl Reporter {
   }
 
   fn create_interval(interval: Duration, fire_immediately: bool) -> tokio::time::Interval {
+    // The reporting interval comes from runtime configuration, and tokio panics if it is zero.
+    let interval = interval.max(Duration::from_millis(1));
     let mut interval = if fire_immediately {
       tokio::time::interval(interval)
     } else {
diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..60e44da 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -118,6 +118,12 @@ pub trait TimeDurationExt {
   fn add_tokio_instant(self, instant: tokio::time::Instant) -> tokio::time::Instant;
 }
 
+/// The period to use for an interval with the given duration. tokio panics if the period of an
+/// interval is zero, which a duration that comes from runtime configuration may well be.
+fn interval_period(duration: time::Duration) -> Duration {
+  duration.unsigned_abs().max(Duration::from_millis(1))
+}
+
 impl TimeDurationExt for time::Duration {
   fn advance(self) -> impl Future<Output = ()> {
     tokio::time::advance(self.unsigned_abs())
@@ -128,17 +134,17 @@ impl TimeDurationExt for time::Duration {
   }
 
   fn interval(self) -> Interval {
-    interval(self.unsigned_abs())
+    interval(interval_period(self))
   }
 
   fn interval_at(self) -> Interval {
-    interval_at(self.add_tokio_now(), self.unsigned_abs())
+    interval_at(self.add_tokio_now(), interval_period(self))
   }
 
   fn jittered_interval_at(self) -> Interval {
     let millis: u64 = self.whole_milliseconds().try_into().unwrap();
     let jittered = Duration::from_millis(thread_rng().gen_range(0 ..= millis));
-    interval_at(tokio::time::Instant::now() + jittered, self.unsigned_abs())
+    interval_at(tokio::time::Instant::now() + jittered, interval_period(self))
   }
 
   fn timeout<F: IntoFuture>(self, f: F) -> Timeout<F::IntoFuture> {
-- 
2.43.0


From 6c2c819ce28a7306cc67ddad6db17741c89fc0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 38/44] fix: a second screenshot log does not fail while the
 first is yet to be handled

---
 bd-session-replay/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bd-session-replay/src/lib.rs b/bd-session-replay/src/lib.rs
index 1ee3ea8..cc11b68 100644
--- a/bd-session-replay/src/lib.rs
+++ b/bd-session-replay/src/lib.rs
@@ -16,6 +16,7 @@ use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger};
 use bd_stats_common::labels;
 use bd_time::TimeDurationExt;
 use std::sync::Arc;
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::mpsc::{channel, Receiver, Sender};
 use tokio::time::Interval;
 
@@ -305,9 +306,14 @@ impl bd_log_primitives::LogInterceptor for ScreenshotLogInterceptor {
 
     self.received.inc();
 
-    bd_client_common::error::handle_unexpected(
-      self.next_screenshot_tx.try_send(()),
-      "failed to send ready for next screenshot signal",
-    );
+    match self.next_screenshot_tx.try_send(()) {
+      // The recorder did not process the signal sent for a previous screenshot yet, and one signal
+      // is enough to make it ready.
+      Ok(()) | Err(TrySendError::Full(())) => {},
+      Err(e @ TrySendError::Closed(())) => bd_client_common::error::handle_unexpected(
+        Err::<(), _>(e),
+        "failed to send ready for next screenshot signal",
+      ),
+    }
   }
 }
-- 
2.43.0


From 66f4732dedae77ed83f550e302e23433f0edad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:20 +0000
Subject: [PATCH 39/44] fix: the events listener is not started twice, nor
 stopped without having been started

---
 bd-events/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bd-events/src/lib.rs b/bd-events/src/lib.rs
index 3147ee3..ab76d76 100644
--- a/bd-events/src/lib.rs
+++ b/bd-events/src/lib.rs
@@ -39,9 +39,8 @@ pub trait ListenerTarget {
 pub struct Listener {
   target: Box<dyn ListenerTarget + Send + Sync>,
 
-  // Whether the events listener has seen at least one update to the value of the `is_enabled`
-  // flag.
-  has_seen_is_enabled_flag_update: bool,
+  // Whether the target was started, and not stopped since.
+  is_started: bool,
 
   is_enabled_flag: BoolWatch<ListenerEnabledFlag>,
 }
@@ -55,7 +54,7 @@ impl Listener {
 
     Self {
       target,
-      has_seen_is_enabled_flag_update: false,
+      is_started: false,
       is_enabled_flag,
     }
   }
@@ -74,17 +73,19 @@ impl Listener {
     loop {
       tokio::select! {
         _ = self.is_enabled_flag.changed() => {
+          // The flag may have been changed more than once since it was last read, in which case it
+          // may be back at the value that the target already follows.
           let new_is_enabled = self.is_enabled_flag.read();
-          if new_is_enabled {
+          if new_is_enabled && !self.is_started {
             log::debug!("events listener start");
             self.target.start();
-          } else if self.has_seen_is_enabled_flag_update {
+          } else if !new_is_enabled && self.is_started {
             // Stop only if event listener was previously started.
             log::debug!("events listener stop");
             self.target.stop();
           }
 
-          self.has_seen_is_enabled_flag_update = true;
+          self.is_started = new_is_enabled;
         }
         () = &mut local_shutdown => {
           break;
-- 
2.43.0


From 84dbfc295e7edba51c6804dc8ba4a74fc7347c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 40/44] fix: byte counts of responses that are too large to add
 do not panic

---
 bd-logger/src/network.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/bd-logger/src/network.rs b/bd-logger/src/network.rs
index 771d2b5..cffe31f 100644
--- a/bd-logger/src/network.rs
+++ b/bd-logger/src/network.rs
@@ -28,7 +28,8 @@ use time::ext::NumericalDuration;
 macro_rules! sample_add {
   ($sample:expr, $field_name:ident, $value:expr) => {
     if let Some(unwrapped_value) = $value {
-      $sample.$field_name += unwrapped_value;
+      // The value comes from a field of a log and hence may be arbitrarily large.
+      $sample.$field_name = $sample.$field_name.saturating_add(unwrapped_value);
     }
   };
 }
@@ -39,7 +40,7 @@ macro_rules! accumulate_samples {
   ($lhs:expr, $rhs:expr, $field_name:ident) => {
     $lhs.$field_name = vec![$lhs.$field_name, $rhs.$field_name]
       .into_iter()
-      .fold(0, |acc, x| acc + x)
+      .fold(0, u64::saturating_add)
   };
 }
 
@@ -265,21 +266,15 @@ impl MetricsSample {
 
 impl MetricsSample {
   fn request_bytes_count(&self) -> u64 {
-    vec![
-      self.request_body_bytes_count,
-      self.request_headers_bytes_count,
-    ]
-    .into_iter()
-    .sum::<u64>()
+    self
+      .request_body_bytes_count
+      .saturating_add(self.request_headers_bytes_count)
   }
 
   fn response_bytes_count(&self) -> u64 {
-    vec![
-      self.response_body_bytes_count,
-      self.response_headers_bytes_count,
-    ]
-    .into_iter()
-    .sum::<u64>()
+    self
+      .response_body_bytes_count
+      .saturating_add(self.response_headers_bytes_count)
   }
 }
 
-- 
2.43.0


From b9437bddd10ba9e215adc33c36473b7df3353baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:14 +0000
Subject: [PATCH 41/44] fix: percent-encode and decode the status messages of
 gRPC streams

---
 bd-grpc/src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 1e5828f..a5a1455 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -233,10 +233,20 @@ impl Status {
       ),
       message: headers
         .get(GRPC_MESSAGE)
-        .and_then(|value| value.to_str().ok().map(ToString::to_string)),
+        .and_then(|value| value.to_str().ok().map(Self::decode_message)),
     }
   }
 
+  // Status messages are percent encoded, as not every message is a valid header.
+  fn encode_message(message: &str) -> HeaderValue {
+    HeaderValue::from_str(&urlencoding::encode(message)).unwrap()
+  }
+
+  // Messages which were not encoded correctly are used as is.
+  fn decode_message(message: &str) -> String {
+    urlencoding::decode(message).map_or_else(|_| message.to_string(), std::borrow::Cow::into_owned)
+  }
+
   // Convert a status into a response compatible with axum.
   #[must_use]
   pub fn into_response(self) -> Response {
@@ -250,12 +260,9 @@ impl Status {
       .header(CONTENT_TYPE, CONTENT_TYPE_GRPC)
       .header(GRPC_STATUS, self.code.to_int());
 
-    if self.message.is_some() {
+    if let Some(message) = &self.message {
       // We need to make sure the message is a valid header so we URL encode it to be sure.
-      let encoded = urlencoding::encode(self.message.as_ref().unwrap());
-      let header_value = HeaderValue::from_str(&encoded).unwrap();
-
-      builder = builder.header(GRPC_MESSAGE, header_value);
+      builder = builder.header(GRPC_MESSAGE, Self::encode_message(message));
     }
 
     builder.body(body).unwrap()
@@ -768,7 +775,7 @@ impl<OutgoingType: Message, IncomingType: MessageFull>
 
             let status = Status {
               code,
-              message: grpc_message.map(|v| v.to_str().unwrap_or_default().to_string()),
+              message: grpc_message.map(|v| Status::decode_message(v.to_str().unwrap_or_default())),
             };
             return Err(Error::Grpc(status));
           }
@@ -846,7 +853,7 @@ impl<ResponseType: Message> StreamingApiSender<ResponseType> {
       HeaderValue::from_str(&status.code.to_int().to_string()).unwrap(),
     );
     if let Some(message) = status.message {
-      trailers.insert(GRPC_MESSAGE, HeaderValue::from_str(&message).unwrap());
+      trailers.insert(GRPC_MESSAGE, Status::encode_message(&message));
     }
 
     self.send_trailers(trailers).await
-- 
2.43.0


From 86dcf33ad97281f83f3c3e9051d15696b8fe5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 42/44] fix: a gRPC stream whose read stop is gone does not
 spin

---
 bd-grpc/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index a5a1455..782fbd3 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -736,9 +736,14 @@ impl<OutgoingType: Message, IncomingType: MessageFull>
 
       let frame = tokio::select! {
         frame = self.body.frame() => frame,
-        _ = async {
+        result = async {
               self.read_stop.as_mut().unwrap().changed().await
             }, if self.read_stop.is_some() => {
+          // If the sender is gone there will be no further read stop, so stop looking for one. It
+          // would otherwise be reported over and over again.
+          if result.is_err() {
+            self.read_stop = None;
+          }
           continue;
         },
       };
-- 
2.43.0


From 9eaddaa1f29adb3b96120c9fb4d547b7ac0b282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:16 +0000
Subject: [PATCH 43/44] fix: shutdown ends the hyper network, whatever it waits
 for

---
 bd-hyper-network/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index 4bb3630..b7eff65 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -96,7 +96,19 @@ impl HyperNetwork {
   }
 
   /// Called to start the processing loop.
-  pub async fn start(mut self) -> anyhow::Result<()> {
+  pub async fn start(self) -> anyhow::Result<()> {
+    // Whatever the loop is waiting for (e.g., the server to respond to a request), shutdown ends it.
+    let mut shutdown = self.shutdown.clone();
+    tokio::select! {
+      result = self.run() => result,
+      () = shutdown.cancelled() => {
+        log::debug!("received shutdown signal, shutting down hyper networking");
+        Ok(())
+      },
+    }
+  }
+
+  async fn run(mut self) -> anyhow::Result<()> {
     log::debug!("initializing hyper networking");
 
     let client = Client::builder(TokioExecutor::new())
@@ -143,7 +155,6 @@ impl HyperNetwork {
 
     let (body_sender, request) = Self::create_request(self.uri.as_str(), headers);
 
-    // TODO(snowp): Should this also be gated on the shutdown hook?
     let mut response = match client.request(request).await {
       Ok(response) => response,
       Err(e) => {
-- 
2.43.0


From 8e841390fb08f5c43e94384ac51dc4c631482cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:16 +0000
Subject: [PATCH 44/44] fix: a stream that outlives the hyper network does not
 panic

---
 bd-hyper-network/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index b7eff65..1f60092 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -307,7 +307,7 @@ impl<T> PlatformNetworkManager<T> for Handle {
       .stream_event_tx
       .send(StreamEvent::Start(event_tx, headers))
       .await
-      .unwrap();
+      .map_err(|_| anyhow::anyhow!("networking has shut down"))?;
 
     // Unlike the other implementations we continue to use the same channel for both stream
     // creation and events sent over the active stream.
@@ -324,7 +324,7 @@ impl PlatformNetworkStream for Handle {
       .stream_event_tx
       .send(StreamEvent::Data(Vec::from(data)))
       .await
-      .unwrap();
+      .map_err(|_| anyhow::anyhow!("networking has shut down"))?;
 
     Ok(())
   }
-- 
2.43.0

