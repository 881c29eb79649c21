From 1139c037476edbcdf17643fa75469534fda48b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:37 +0000
Subject: [PATCH 01/21] fix: insert and complete an empty submission in one
 transaction

A crash (or error) between the two transactions left a submission of zero
chunks in progress for ever, as nothing would ever complete it.
---
 opsqueue/src/common/submission.rs | 51 ++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index c36efe0..5651f34 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -471,29 +471,36 @@ pub mod db {
                 Chunk::new(submission_id, chunk_index.try_into().unwrap(), uri)
             })
             .collect();
-        insert_submission(submission, iter, &mut conn).await?;
-        // Empty submissions get special handling: we mark them as completed right away.
-        // See https://github.com/channable/opsqueue/issues/86 for rationale.
-        if len == 0 {
-            match maybe_complete_submission(submission_id, conn).await {
-                // Forward our database errors to the caller.
-                Err(E::L(e)) => return Err(e),
-                // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
-                Err(E::R(_)) => {
-                    tracing::warn!(%submission_id, "Presumed zero-length submission not found");
-                }
-                // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
-                // Our future selves might thank us.
-                Ok(true) => {
-                    tracing::debug!(%submission_id, "Zero-length submission marked as completed");
-                }
-                // This should never happen. If it does, better log it.
-                Ok(false) => {
-                    tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
+        // Inserting an empty submission and marking it as completed happens in one transaction:
+        // nothing would ever complete it if we were interrupted in between.
+        conn.transaction(move |mut tx| {
+            Box::pin(async move {
+                insert_submission(submission, iter, &mut tx).await?;
+                // Empty submissions get special handling: we mark them as completed right away.
+                // See https://github.com/channable/opsqueue/issues/86 for rationale.
+                if len == 0 {
+                    match maybe_complete_submission(submission_id, &mut tx).await {
+                        // Forward our database errors to the caller.
+                        Err(E::L(e)) => return Err(e),
+                        // If the submission ID can't be found, that's too bad, but it's not our problem anymore i guess.
+                        Err(E::R(_)) => {
+                            tracing::warn!(%submission_id, "Presumed zero-length submission not found");
+                        }
+                        // If everything went OK, this *could* still indicate a bug in producer code, so let's just log it.
+                        // Our future selves might thank us.
+                        Ok(true) => {
+                            tracing::debug!(%submission_id, "Zero-length submission marked as completed");
+                        }
+                        // This should never happen. If it does, better log it.
+                        Ok(false) => {
+                            tracing::warn!(%submission_id, "Zero-length submission wasn't zero-length?!");
+                        }
+                    }
                 }
-            }
-        }
-        Ok(submission_id)
+                Ok(submission_id)
+            })
+        })
+        .await
     }
 
     /// Fetch an in-progress submission by id.
-- 
2.43.0


From 9997515dd16f43128a864009144f085b2f3cb7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:05 +0000
Subject: [PATCH 02/21] fix: keep chunk size and trace context when a
 submission completes or fails

The columns exist and are reported, but moving the submission to its final
table dropped them.
---
 opsqueue/src/common/submission.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 5651f34..9321ac0 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -950,8 +950,8 @@ pub mod db {
     SAVEPOINT complete_submission_raw;
 
     INSERT INTO submissions_completed
-    (id, chunks_total, prefix, metadata, completed_at)
-    SELECT id, chunks_total, prefix, metadata, julianday($1) FROM submissions WHERE id = $2;
+    (id, chunks_total, prefix, metadata, completed_at, chunk_size, otel_trace_carrier)
+    SELECT id, chunks_total, prefix, metadata, julianday($1), chunk_size, otel_trace_carrier FROM submissions WHERE id = $2;
 
     DELETE FROM submissions WHERE id = $3 RETURNING *;
 
@@ -986,8 +986,8 @@ pub mod db {
         query!(
             "
     INSERT INTO submissions_failed
-    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id)
-    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2 FROM submissions WHERE id = $3;
+    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id, chunk_size, otel_trace_carrier)
+    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2, chunk_size, otel_trace_carrier FROM submissions WHERE id = $3;
 
     DELETE FROM submissions WHERE id = $4 RETURNING *;
     ",
-- 
2.43.0


From 0983a17393d5f3d31dd91606caeef4f838eda4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 03/21] fix: look-up by prefix also finds cancelled submissions

---
 opsqueue/src/common/submission.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index 9321ac0..adffc69 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -590,6 +590,8 @@ pub mod db {
             SELECT id AS "id: SubmissionId" FROM submissions_completed WHERE prefix = $1
             UNION ALL
             SELECT id AS "id: SubmissionId" FROM submissions_failed WHERE prefix = $1
+            UNION ALL
+            SELECT id AS "id: SubmissionId" FROM submissions_cancelled WHERE prefix = $1
             "#,
             prefix
         )
-- 
2.43.0


From 5407fc321b98e25e8bc3b0d43c82af7b5d28e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 04/21] fix: select, reserve and look up chunks on one
 connection in one transaction

Holding one reader connection while waiting for a second one starves all
reservations once every connection of the pool is held like that. And when
a submission ended between selecting its chunk and looking it up, the
connection's task panicked and the chunks reserved so far were leaked.
---
 opsqueue/src/consumer/dispatcher/mod.rs | 63 ++++++++++++++++++++-----
 opsqueue/src/db/conn.rs                 |  2 +-
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index ce3e9a2..7aaf8a2 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -4,15 +4,16 @@ pub mod reserver;
 use crate::{
     common::{
         chunk::{Chunk, ChunkId, ChunkIndex},
+        errors::{DatabaseError, E},
         submission::{Submission, SubmissionId},
     },
-    db::{Connection, Pool, ReaderPool, magic::Bool},
+    db::{Connection, ReaderPool, conn::Reader},
 };
 use futures::stream::{StreamExt as _, TryStreamExt as _};
 use libsqlite3_sys as ffi;
 use metastate::MetaState;
 use reserver::Reserver;
-use sqlx::QueryBuilder;
+use sqlx::{Connection as _, QueryBuilder};
 use std::ffi::{CStr, CString};
 use std::time::{Duration, Instant};
 use tokio::sync::mpsc::UnboundedSender;
@@ -215,22 +216,58 @@ impl Dispatcher {
         strategy: strategy::Strategy,
         limit: usize,
         stale_chunks_notifier: &UnboundedSender<ChunkId>,
+    ) -> Result<Vec<(Chunk, Submission)>, sqlx::Error> {
+        let mut reserved = Vec::new();
+        let res = self
+            .select_and_reserve_chunks(pool, strategy, limit, stale_chunks_notifier, &mut reserved)
+            .await;
+        if res.is_err() {
+            // Nobody will hear about these chunks, so nobody would ever release them.
+            self.finish_reservations_sync(reserved.iter());
+        }
+        res
+    }
+
+    /// Uses only one connection (waiting for a second one while holding the first can block forever
+    /// once every connection is held like that), and only one read transaction: the submissions of
+    /// the selected chunks cannot disappear before they are looked up.
+    async fn select_and_reserve_chunks(
+        &self,
+        pool: &ReaderPool,
+        strategy: strategy::Strategy,
+        limit: usize,
+        stale_chunks_notifier: &UnboundedSender<ChunkId>,
+        reserved: &mut Vec<ChunkId>,
     ) -> Result<Vec<(Chunk, Submission)>, sqlx::Error> {
         let mut conn = pool.reader_conn().await?;
         self.register_lookups(conn.get_inner()).await?;
+        let mut tx = conn.get_inner().begin().await?;
         let mut query_builder = QueryBuilder::new("");
-        let stream = strategy
+        let chunks: Vec<Chunk> = strategy
             .build_query(&mut query_builder)
             .build_query_as()
-            .fetch(conn.get_inner());
-        stream
+            .fetch(&mut *tx)
             .try_filter_map(|chunk| {
-                futures::future::ready(Ok(self.reserve_chunk(chunk, stale_chunks_notifier)))
+                let maybe_chunk = self.reserve_chunk(chunk, stale_chunks_notifier);
+                reserved.extend(
+                    maybe_chunk
+                        .iter()
+                        .map(|chunk| ChunkId::from((chunk.submission_id, chunk.chunk_index))),
+                );
+                futures::future::ready(Ok(maybe_chunk))
             })
-            .and_then(|chunk| self.join_chunk_with_submission_info(chunk, pool))
             .take(limit)
             .try_collect()
-            .await
+            .await?;
+
+        let mut joined = Vec::with_capacity(chunks.len());
+        for chunk in chunks {
+            joined.push(
+                self.join_chunk_with_submission_info(chunk, Reader::from_tx(&mut tx))
+                    .await?,
+            );
+        }
+        Ok(joined)
     }
 
     async fn register_lookups(&self, conn: &mut sqlx::SqliteConnection) -> Result<(), sqlx::Error> {
@@ -306,19 +343,21 @@ impl Dispatcher {
     async fn join_chunk_with_submission_info(
         &self,
         chunk: Chunk,
-        pool: &Pool<impl Bool>,
+        mut conn: impl Connection,
     ) -> Result<(Chunk, Submission), sqlx::Error> {
-        let mut conn = pool.acquire().await?;
         let submission =
             crate::common::submission::db::get_submission(chunk.submission_id, &mut conn)
                 .await
-                .expect("get_submission while reserving failed");
+                .map_err(|e| match e {
+                    E::L(DatabaseError(e)) => e,
+                    E::R(_) => sqlx::Error::RowNotFound,
+                })?;
         let metadata = crate::common::submission::db::get_submission_strategic_metadata(
             chunk.submission_id,
             &mut conn,
         )
         .await
-        .expect("get_submission_strategic_metadata while reserving failed");
+        .map_err(|DatabaseError(e)| e)?;
         self.insert_metadata(&metadata);
         Ok((chunk, submission))
     }
diff --git a/opsqueue/src/db/conn.rs b/opsqueue/src/db/conn.rs
index e467eaa..4afa97a 100644
--- a/opsqueue/src/db/conn.rs
+++ b/opsqueue/src/db/conn.rs
@@ -38,7 +38,7 @@ impl<W: Bool> Conn<W> {
             _type: PhantomData,
         }
     }
-    pub(super) fn from_tx<'tx, 'conn>(
+    pub(crate) fn from_tx<'tx, 'conn>(
         inner: &'tx mut sqlx::Transaction<'conn, sqlx::Sqlite>,
     ) -> Conn<W, Tx<'tx, 'conn>> {
         Conn {
-- 
2.43.0


From a25f12d926e0ddfc4fcbd391e55954ab08e9bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 05/21] fix: do not miss work that is inserted while looking
 for work

The consumer connection only started to listen for insertions in a task it
spawned after finding nothing; an insertion in between woke nobody.
---
 opsqueue/src/consumer/server/conn.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index 8b9cecd..ae138c1 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -211,6 +211,9 @@ impl ConsumerConn {
         use SyncServerToClientResponse::ChunksReserved;
         let maybe_response = match msg.contents {
             WantToReserveChunks { max, strategy } => {
+                // Subscribe before looking: otherwise we'd miss the work that is inserted
+                // after we looked, but before we started to wait.
+                let inserted = self.notify_on_insert.clone().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
                     .fetch_and_reserve_chunks(strategy.clone(), max, &self.tx)
@@ -233,10 +236,9 @@ impl ConsumerConn {
                             "No work to do for {} / {max} / {strategy:?}, retrying later",
                             msg.nonce
                         );
-                        let notifier = self.notify_on_insert.clone();
                         let tx2 = self.tx2.clone();
                         tokio::spawn(async move {
-                            notifier.notified().await;
+                            inserted.await;
                             let _ = tx2.send(RetryReservation {
                                 nonce: msg.nonce,
                                 max,
-- 
2.43.0


From 42e06a898db8cbb225045c003f321763f63af8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:10 +0000
Subject: [PATCH 06/21] fix: only the holder of a reservation can end it

A report, expiry notice or disconnection of a consumer whose reservation
had expired removed the reservation of the consumer that holds the chunk
now, after which the chunk was handed out a second time. The delayed
removal of a finished reservation could do the same to a newer one.
---
 opsqueue/src/consumer/dispatcher/mod.rs      | 41 ++++++++++--
 opsqueue/src/consumer/dispatcher/reserver.rs | 69 +++++++++++---------
 opsqueue/src/consumer/server/conn.rs         |  6 +-
 opsqueue/src/consumer/server/mod.rs          | 50 +++++++++-----
 opsqueue/src/consumer/server/state.rs        | 45 +++++++++----
 5 files changed, 140 insertions(+), 71 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index 7aaf8a2..d51d118 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -223,7 +223,11 @@ impl Dispatcher {
             .await;
         if res.is_err() {
             // Nobody will hear about these chunks, so nobody would ever release them.
-            self.finish_reservations_sync(reserved.iter());
+            for id in &reserved {
+                if let Some(reserved_at) = self.reserved_at(id, stale_chunks_notifier) {
+                    self.finish_reservation_sync(id, reserved_at);
+                }
+            }
         }
         res
     }
@@ -362,10 +366,15 @@ impl Dispatcher {
         Ok((chunk, submission))
     }
 
-    pub fn finish_reservations_sync<'a>(&self, reservations: impl Iterator<Item = &'a ChunkId>) {
-        for reservation in reservations {
-            let _ = self.reserver.finish_reservation_sync(reservation);
-        }
+    /// When this chunk was reserved, if `owner` is the one holding the reservation:
+    /// the `stale_chunks_notifier` with which they reserved it.
+    #[must_use]
+    pub fn reserved_at(&self, id: &ChunkId, owner: &UnboundedSender<ChunkId>) -> Option<Instant> {
+        self.reserver.reserved_at(id, Some(owner))
+    }
+
+    pub fn finish_reservation_sync(&self, id: &ChunkId, reserved_at: Instant) {
+        self.reserver.finish_reservation_sync(id, reserved_at);
     }
 
     pub async fn finish_reservation(
@@ -374,7 +383,26 @@ impl Dispatcher {
         id: ChunkId,
         delayed: bool,
     ) -> Option<Instant> {
-        let maybe_started_at = self.reserver.finish_reservation(&id, delayed).await;
+        let maybe_started_at = self.reserver.reserved_at(&id, None);
+        self.finish_reservation_made_at(maybe_started_at, conn, id, delayed)
+            .await;
+        maybe_started_at
+    }
+
+    /// Like `finish_reservation`, but leaves any reservation alone
+    /// other than the one that was made at `maybe_started_at`.
+    pub async fn finish_reservation_made_at(
+        &self,
+        maybe_started_at: Option<Instant>,
+        conn: impl Connection,
+        id: ChunkId,
+        delayed: bool,
+    ) {
+        if let Some(started_at) = maybe_started_at {
+            self.reserver
+                .finish_reservation(&id, started_at, delayed)
+                .await;
+        }
 
         // In the highly unlikely event that this DB query fails,
         // we still want to continue
@@ -386,7 +414,6 @@ impl Dispatcher {
         .unwrap_or_default();
 
         self.remove_metadata(&metadata);
-        maybe_started_at
     }
 
     pub fn run_pending_tasks_periodically(&self, cancellation_token: CancellationToken) {
diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index 91b93e6..1f6a8ff 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use axum_prometheus::metrics::{counter, gauge};
-use moka::{notification::RemovalCause, sync::Cache};
+use moka::{notification::RemovalCause, ops::compute::Op, sync::Cache};
 use rustc_hash::FxBuildHasher;
 use tokio::sync::Mutex;
 use tokio::sync::mpsc::UnboundedSender;
@@ -16,7 +16,7 @@ use tokio_util::time::DelayQueue;
 #[derive(Clone)]
 pub struct Reserver<K, V> {
     reservations: Cache<K, (V, UnboundedSender<V>, Instant), FxBuildHasher>,
-    pending_removals: Arc<Mutex<DelayQueue<K>>>,
+    pending_removals: Arc<Mutex<DelayQueue<(K, Instant)>>>,
 }
 
 impl<K, V> core::fmt::Debug for Reserver<K, V>
@@ -88,43 +88,47 @@ where
         self.reservations.contains_key(key)
     }
 
-    /// Removes a particular key-val from the reserver.
+    /// When the current reservation of `key` was made, which identifies that reservation.
+    ///
+    /// When an `owner` is given (the `sender` that was passed to `try_reserve`),
+    /// the reservation has to be theirs.
+    pub fn reserved_at(&self, key: &K, owner: Option<&UnboundedSender<V>>) -> Option<Instant> {
+        let (_val, sender, reserved_at) = self.reservations.get(key)?;
+        owner
+            .is_none_or(|owner| owner.same_channel(&sender))
+            .then_some(reserved_at)
+    }
+
+    /// Removes the reservation of `key` that was made at `reserved_at` from the reserver.
     /// Afterwards, it is possible to reserve it again.
     ///
-    /// Precondition: key should be reserved first (checked in debug builds)
-    pub async fn finish_reservation(&self, key: &K, delayed: bool) -> Option<Instant> {
-        match self.reservations.get(key) {
-            None => {
-                tracing::warn!("Attempted to finish non-existent reservation: {key:?}");
-                None
-            }
-            Some((_val, _sender, reserved_at)) => {
-                if delayed {
-                    // We remove the reservation with a slight delay
-                    // This is to prevent a race condition where a SQLite read cursor
-                    // (such as those from `ConsumerState::fetch_and_reserve_chunks`) still uses an older, stale version of the data.
-                    // This could cause
-                    // re-reserving a chunk after it was completed
-                    // c.f. https://github.com/channable/opsqueue/issues/96
-                    self.pending_removals
-                        .lock()
-                        .await
-                        .insert(*key, Duration::from_secs(1));
-                    Some(reserved_at)
-                } else {
-                    self.reservations.remove(key);
-                    Some(reserved_at)
-                }
-            }
+    /// If that reservation is gone already, a newer one of someone else is left alone.
+    pub async fn finish_reservation(&self, key: &K, reserved_at: Instant, delayed: bool) {
+        if delayed {
+            // We remove the reservation with a slight delay
+            // This is to prevent a race condition where a SQLite read cursor
+            // (such as those from `ConsumerState::fetch_and_reserve_chunks`) still uses an older, stale version of the data.
+            // This could cause
+            // re-reserving a chunk after it was completed
+            // c.f. https://github.com/channable/opsqueue/issues/96
+            self.pending_removals
+                .lock()
+                .await
+                .insert((*key, reserved_at), Duration::from_secs(1));
+        } else {
+            self.finish_reservation_sync(key, reserved_at);
         }
     }
 
     /// Sync version of `.finish_reservation`; does not support delayed removal.
     /// Intended to be called from within a `Drop` implementation.
-    pub fn finish_reservation_sync(&self, key: &K) -> Option<Instant> {
+    pub fn finish_reservation_sync(&self, key: &K, reserved_at: Instant) {
         self.reservations
-            .remove(key)
-            .map(|(_val, _sender, reserved_at)| reserved_at)
+            .entry_by_ref(key)
+            .and_compute_with(|entry| match entry {
+                Some(entry) if entry.value().2 == reserved_at => Op::Remove,
+                _ => Op::Nop,
+            });
     }
 
     /// Run this every so often to make sure outdated entries are cleaned up
@@ -153,7 +157,8 @@ where
                 biased;
                 Some(entry) = removals.next() => {
                     tracing::trace!("Removing outdated reservation: {entry:?}");
-                    self.reservations.remove(entry.get_ref());
+                    let (key, reserved_at) = entry.get_ref();
+                    self.finish_reservation_sync(key, *reserved_at);
                 }
                 () = async {} => break,
             }
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index ae138c1..a8d680f 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -51,7 +51,6 @@ pub struct ConsumerConn {
     heartbeats_missed: usize,
     max_missable_heartbeats: usize,
     // Channel with which the rest of the server can send messages to this particular client
-    tx: UnboundedSender<ChunkId>,
     rx: UnboundedReceiver<ChunkId>,
 
     tx2: UnboundedSender<RetryReservation>,
@@ -65,7 +64,7 @@ impl ConsumerConn {
         let heartbeats_missed = 0;
         let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
         let (tx2, rx2) = tokio::sync::mpsc::unbounded_channel();
-        let consumer_state = ConsumerState::new(server_state);
+        let consumer_state = ConsumerState::new(server_state, tx);
         let cancellation_token = server_state.cancellation_token.clone();
         let notify_on_insert = server_state.notify_on_insert.clone();
 
@@ -87,7 +86,6 @@ impl ConsumerConn {
             heartbeat_interval,
             heartbeats_missed,
             max_missable_heartbeats: server_state.config.max_missable_heartbeats,
-            tx,
             rx,
             tx2,
             rx2,
@@ -216,7 +214,7 @@ impl ConsumerConn {
                 let inserted = self.notify_on_insert.clone().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
-                    .fetch_and_reserve_chunks(strategy.clone(), max, &self.tx)
+                    .fetch_and_reserve_chunks(strategy.clone(), max)
                     .await;
                 match chunks_or_err {
                     Err(e) => {
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index 5cd9a22..d4b9fee 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -1,8 +1,8 @@
 use crate::tracing::{anyhow_as_dyn_error, as_dyn_error};
 use std::{
-    collections::HashSet,
+    collections::HashMap,
     sync::{Arc, Mutex},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use axum::{
@@ -145,12 +145,16 @@ pub enum CompleterMessage {
     Complete {
         id: ChunkId,
         output_content: crate::common::chunk::Content,
-        reservations: Arc<Mutex<HashSet<ChunkId>>>,
+        reservations: Arc<Mutex<HashMap<ChunkId, Instant>>>,
+        /// Since when the sender holds this chunk, if they (still) did when sending this
+        reserved_at: Option<Instant>,
     },
     Fail {
         id: ChunkId,
         failure: String,
-        reservations: Arc<Mutex<HashSet<ChunkId>>>,
+        reservations: Arc<Mutex<HashMap<ChunkId, Instant>>>,
+        /// Since when the sender holds this chunk, if they (still) did when sending this
+        reserved_at: Option<Instant>,
     },
 }
 
@@ -161,6 +165,7 @@ impl std::fmt::Debug for CompleterMessage {
                 id,
                 output_content,
                 reservations: _,
+                reserved_at: _,
             } => f
                 .debug_struct("Complete")
                 .field("id", id)
@@ -170,6 +175,7 @@ impl std::fmt::Debug for CompleterMessage {
                 id,
                 failure,
                 reservations: _,
+                reserved_at: _,
             } => f
                 .debug_struct("Fail")
                 .field("id", id)
@@ -179,6 +185,19 @@ impl std::fmt::Debug for CompleterMessage {
     }
 }
 
+/// Removes a finished reservation from those of its consumer,
+/// unless it expired and the consumer has reserved the chunk anew since.
+fn forget_reservation(
+    reservations: &Mutex<HashMap<ChunkId, Instant>>,
+    id: ChunkId,
+    reserved_at: Option<Instant>,
+) {
+    let mut reservations = reservations.lock().expect("No poison");
+    if reservations.get(&id).copied() == reserved_at {
+        reservations.remove(&id);
+    }
+}
+
 #[derive(Debug)]
 pub struct Completer {
     mailbox: tokio::sync::mpsc::Receiver<CompleterMessage>,
@@ -234,6 +253,7 @@ impl Completer {
                     id,
                     output_content,
                     reservations,
+                    reserved_at,
                 } => {
                     // Even in the unlikely event that the DB write fails,
                     // we still want to unreserve the chunk
@@ -241,12 +261,11 @@ impl Completer {
                         crate::common::chunk::db::complete_chunk(id, output_content, &mut conn)
                             .await;
 
-                    reservations.lock().expect("No poison").remove(&id);
-                    if let Some(started_at) = self
-                        .dispatcher
-                        .finish_reservation(&mut conn, id, true)
-                        .await
-                    {
+                    forget_reservation(&reservations, id, reserved_at);
+                    self.dispatcher
+                        .finish_reservation_made_at(reserved_at, &mut conn, id, true)
+                        .await;
+                    if let Some(started_at) = reserved_at {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
                             .record(started_at.elapsed());
                     }
@@ -266,6 +285,7 @@ impl Completer {
                     id,
                     failure,
                     reservations,
+                    reserved_at,
                 } => {
                     // Even in the unlikely event that the DB write fails,
                     // we still want to unreserve the chunk
@@ -276,16 +296,16 @@ impl Completer {
                         self.max_chunk_retries,
                     )
                     .await;
-                    reservations.lock().expect("No poison").remove(&id);
-                    let maybe_started_at = self
-                        .dispatcher
-                        .finish_reservation(
+                    forget_reservation(&reservations, id, reserved_at);
+                    self.dispatcher
+                        .finish_reservation_made_at(
+                            reserved_at,
                             &mut conn,
                             id,
                             *failed_permanently.as_ref().unwrap_or(&false),
                         )
                         .await;
-                    if let Some(started_at) = maybe_started_at {
+                    if let Some(started_at) = reserved_at {
                         histogram!(crate::prometheus::CHUNKS_DURATION_FAILED_HISTOGRAM)
                             .record(started_at.elapsed());
                     }
diff --git a/opsqueue/src/consumer/server/state.rs b/opsqueue/src/consumer/server/state.rs
index 4288a1d..84ea792 100644
--- a/opsqueue/src/consumer/server/state.rs
+++ b/opsqueue/src/consumer/server/state.rs
@@ -1,9 +1,11 @@
-use std::collections::HashSet;
+use std::collections::HashMap;
 use std::sync::Arc;
 use std::sync::Mutex;
+use std::time::Instant;
 
 use axum_prometheus::metrics::histogram;
 use opentelemetry::trace::TraceContextExt;
+use tokio::sync::mpsc::UnboundedSender;
 use tracing_opentelemetry::OpenTelemetrySpanExt;
 
 use crate::common::chunk;
@@ -21,8 +23,11 @@ use crate::common::errors::{E, IncorrectUsage, LimitIsZero};
 #[derive(Debug, Clone)]
 pub struct ConsumerState {
     server_state: Arc<ServerState>,
-    // The following are the consumer-specific chunks that are currently reserved.
-    reservations: Arc<Mutex<HashSet<ChunkId>>>,
+    // The following are the consumer-specific chunks that are currently reserved,
+    // and since when (to tell a reservation from a later one of the same chunk).
+    reservations: Arc<Mutex<HashMap<ChunkId, Instant>>>,
+    // Hears about expired reservations, and identifies the reservations of this consumer.
+    stale_chunks_notifier: UnboundedSender<ChunkId>,
 }
 
 impl Drop for ConsumerState {
@@ -31,22 +36,28 @@ impl Drop for ConsumerState {
 
         // We're not tracking chunk durations that are unreserved during consumer shutdown,
         // as those will be by definition unfinished
-        self.server_state
-            .dispatcher
-            .finish_reservations_sync(reservations.iter());
+        for (id, reserved_at) in reservations.iter() {
+            self.server_state
+                .dispatcher
+                .finish_reservation_sync(id, *reserved_at);
+        }
     }
 }
 
 impl ConsumerState {
     #[must_use]
-    pub fn new(server_state: &Arc<ServerState>) -> Self {
+    pub fn new(
+        server_state: &Arc<ServerState>,
+        stale_chunks_notifier: UnboundedSender<ChunkId>,
+    ) -> Self {
         Self {
-            reservations: Arc::new(Mutex::new(HashSet::new())),
+            reservations: Arc::new(Mutex::new(HashMap::new())),
             server_state: server_state.clone(),
+            stale_chunks_notifier,
         }
     }
 
-    #[tracing::instrument(skip(self, stale_chunks_notifier))]
+    #[tracing::instrument(skip(self))]
     #[allow(clippy::type_complexity)]
     /// Fetch and reserve chunks for this connection state.
     ///
@@ -61,7 +72,6 @@ impl ConsumerState {
         &mut self,
         strategy: strategy::Strategy,
         limit: usize,
-        stale_chunks_notifier: &tokio::sync::mpsc::UnboundedSender<ChunkId>,
     ) -> Result<Vec<(Chunk, Submission)>, E<DatabaseError, IncorrectUsage<LimitIsZero>>> {
         let start = tokio::time::Instant::now();
         if limit == 0 {
@@ -75,13 +85,14 @@ impl ConsumerState {
                 self.server_state.pool.reader_pool(),
                 strategy.clone(),
                 limit,
-                stale_chunks_notifier,
+                &self.stale_chunks_notifier,
             )
             .await?;
 
         self.reservations.lock().expect("No poison").extend(
-            new_reservations.iter().map(|(chunk, _submission)| {
-                ChunkId::from((chunk.submission_id, chunk.chunk_index))
+            new_reservations.iter().filter_map(|(chunk, _submission)| {
+                let id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
+                Some((id, self.reserved_at(&id)?))
             }),
         );
 
@@ -112,6 +123,12 @@ impl ConsumerState {
         Ok(new_reservations)
     }
 
+    fn reserved_at(&self, id: &ChunkId) -> Option<Instant> {
+        self.server_state
+            .dispatcher
+            .reserved_at(id, &self.stale_chunks_notifier)
+    }
+
     #[tracing::instrument(skip(self, output_content))]
     pub async fn complete_chunk(&mut self, id: ChunkId, output_content: chunk::Content) {
         // Only possible error indicates sender is closed, which means we're shutting down
@@ -122,6 +139,7 @@ impl ConsumerState {
                 id,
                 output_content,
                 reservations: self.reservations.clone(),
+                reserved_at: self.reserved_at(&id),
             })
             .await;
     }
@@ -134,6 +152,7 @@ impl ConsumerState {
                 id,
                 failure,
                 reservations: self.reservations.clone(),
+                reserved_at: self.reserved_at(&id),
             })
             .await;
     }
-- 
2.43.0


From 5ee4b4ba85a84774a7c5832685ede82820ba6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:06 +0000
Subject: [PATCH 07/21] fix: consumer client calls share one connection

Concurrent first calls each opened a connection and all but one of them
were dropped again, with the chunks that had been reserved on them. And a
failing call dropped the connection other calls had meanwhile re-opened,
as did a call that was merely used incorrectly.
---
 opsqueue/src/consumer/client.rs | 76 +++++++++++++--------------------
 1 file changed, 30 insertions(+), 46 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 94abc81..481fafb 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -51,13 +51,13 @@ type WebsocketTcpStream = WebSocketStream<MaybeTlsStream<TcpStream>>;
 /// - Is reset on low-level failures
 /// - And therefore, that it is resilient to temporary network failures
 #[derive(Debug)]
-pub struct OuterClient(ArcSwapOption<Client>, Box<str>);
+pub struct OuterClient(ArcSwapOption<Client>, Box<str>, Mutex<()>);
 
 impl OuterClient {
     /// Construct a lazy, reconnecting consumer client.
     #[must_use]
     pub fn new(url: &str) -> Self {
-        Self(None.into(), url.into())
+        Self(None.into(), url.into(), Mutex::new(()))
     }
 
     pub fn address(&self) -> &str {
@@ -66,10 +66,6 @@ impl OuterClient {
 
     /// Reserve up to `max` chunks from the server.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if input usage is invalid, or if websocket/serialization
@@ -80,26 +76,16 @@ impl OuterClient {
         strategy: Strategy,
     ) -> Result<Vec<(Chunk, Submission)>, E<InternalConsumerClientError, IncorrectUsage<LimitIsZero>>>
     {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .reserve_chunks(max, strategy)
-            .await;
-        if res.is_err() {
-            self.0.store(None);
+        let client = self.initialized().await;
+        let res = client.reserve_chunks(max, strategy).await;
+        if matches!(res, Err(E::L(_))) {
+            self.discard(&client);
         }
         res
     }
 
     /// Mark a chunk as completed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -108,26 +94,16 @@ impl OuterClient {
         id: ChunkId,
         output_content: chunk::Content,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .complete_chunk(id, output_content)
-            .await;
+        let client = self.initialized().await;
+        let res = client.complete_chunk(id, output_content).await;
         if res.is_err() {
-            self.0.store(None);
+            self.discard(&client);
         }
         res
     }
 
     /// Mark a chunk as failed.
     ///
-    /// # Panics
-    ///
-    /// Panics if internal lazy initialization invariants are violated.
-    ///
     /// # Errors
     ///
     /// Returns an error if websocket communication with the server fails.
@@ -136,25 +112,33 @@ impl OuterClient {
         id: ChunkId,
         failure: String,
     ) -> Result<(), InternalConsumerClientError> {
-        self.ensure_initialized().await;
-        let res = self
-            .0
-            .load()
-            .as_ref()
-            .expect("Should always be initialized after `.ensure_initialized()")
-            .fail_chunk(id, failure)
-            .await;
+        let client = self.initialized().await;
+        let res = client.fail_chunk(id, failure).await;
         if res.is_err() {
-            self.0.store(None);
+            self.discard(&client);
         }
         res
     }
 
-    async fn ensure_initialized(&self) {
-        if !self.is_healthy() {
-            let client = self.initialize().await;
-            self.0.store(Some(Arc::new(client)));
+    /// The current client; (re-)initialized by only one caller at a time,
+    /// as dropping a client also gives up the chunks that were reserved with it.
+    async fn initialized(&self) -> Arc<Client> {
+        let healthy = || self.0.load_full().filter(|client| client.is_healthy());
+        if let Some(client) = healthy() {
+            return client;
+        }
+        let _initializing = self.2.lock().await;
+        if let Some(client) = healthy() {
+            return client;
         }
+        let client = Arc::new(self.initialize().await);
+        self.0.store(Some(client.clone()));
+        client
+    }
+
+    /// Have the next call re-initialize, unless that already happened.
+    fn discard(&self, client: &Arc<Client>) {
+        self.0.compare_and_swap(&Some(client.clone()), None);
     }
 
     async fn initialize(&self) -> Client {
-- 
2.43.0


From 393593d1ba96ec44fda086825c3aa270dde8be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:14 +0000
Subject: [PATCH 08/21] fix: wake waiting consumers when a reserved chunk
 becomes available again

---
 opsqueue/src/consumer/dispatcher/reserver.rs | 23 +++++++++++++++++---
 opsqueue/src/consumer/server/conn.rs         | 18 ++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index 1f6a8ff..385364d 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -8,8 +8,8 @@ use std::{
 use axum_prometheus::metrics::{counter, gauge};
 use moka::{notification::RemovalCause, ops::compute::Op, sync::Cache};
 use rustc_hash::FxBuildHasher;
-use tokio::sync::Mutex;
 use tokio::sync::mpsc::UnboundedSender;
+use tokio::sync::{Mutex, Notify};
 use tokio_util::sync::CancellationToken;
 use tokio_util::time::DelayQueue;
 
@@ -17,6 +17,7 @@ use tokio_util::time::DelayQueue;
 pub struct Reserver<K, V> {
     reservations: Cache<K, (V, UnboundedSender<V>, Instant), FxBuildHasher>,
     pending_removals: Arc<Mutex<DelayQueue<(K, Instant)>>>,
+    notify_on_release: Arc<Notify>,
 }
 
 impl<K, V> core::fmt::Debug for Reserver<K, V>
@@ -39,14 +40,17 @@ where
 {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
+        let notify_on_release = Arc::new(Notify::new());
+        let notify_on_expiration = notify_on_release.clone();
         let reservations = Cache::builder()
             .time_to_live(reservation_expiration)
-            .eviction_listener(|_key, val: (V, UnboundedSender<V>, _), cause| {
+            .eviction_listener(move |_key, val: (V, UnboundedSender<V>, _), cause| {
                 if cause == RemovalCause::Expired {
                     // Only error case is if receiver is no longer listening
                     // In that case, nobody cares about the value being evicted anymore.
                     // So `let _ =` is correct here.
                     let _ = val.1.send(val.0);
+                    notify_on_expiration.notify_waiters();
                 }
             })
             // We're not worried about HashDoS as the consumers are trusted code,
@@ -56,9 +60,17 @@ where
         Reserver {
             reservations,
             pending_removals,
+            notify_on_release,
         }
     }
 
+    /// Notified whenever a key can be reserved again because its reservation
+    /// expired or was finished without delay.
+    #[must_use]
+    pub fn notify_on_release(&self) -> &Arc<Notify> {
+        &self.notify_on_release
+    }
+
     /// Attempts to reserve a particular key-val.
     ///
     /// Returns `None` if someone else currently is already reserving `key`.
@@ -123,6 +135,11 @@ where
     /// Sync version of `.finish_reservation`; does not support delayed removal.
     /// Intended to be called from within a `Drop` implementation.
     pub fn finish_reservation_sync(&self, key: &K, reserved_at: Instant) {
+        self.remove_reservation(key, reserved_at);
+        self.notify_on_release.notify_waiters();
+    }
+
+    fn remove_reservation(&self, key: &K, reserved_at: Instant) {
         self.reservations
             .entry_by_ref(key)
             .and_compute_with(|entry| match entry {
@@ -158,7 +175,7 @@ where
                 Some(entry) = removals.next() => {
                     tracing::trace!("Removing outdated reservation: {entry:?}");
                     let (key, reserved_at) = entry.get_ref();
-                    self.finish_reservation_sync(key, *reserved_at);
+                    self.remove_reservation(key, *reserved_at);
                 }
                 () = async {} => break,
             }
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index a8d680f..f110abd 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -47,6 +47,7 @@ pub struct ConsumerConn {
     cancellation_token: CancellationToken,
     ws_stream: WebSocket,
     notify_on_insert: Arc<Notify>,
+    notify_on_release: Arc<Notify>,
     heartbeat_interval: tokio::time::Interval,
     heartbeats_missed: usize,
     max_missable_heartbeats: usize,
@@ -67,6 +68,11 @@ impl ConsumerConn {
         let consumer_state = ConsumerState::new(server_state, tx);
         let cancellation_token = server_state.cancellation_token.clone();
         let notify_on_insert = server_state.notify_on_insert.clone();
+        let notify_on_release = server_state
+            .dispatcher
+            .reserver()
+            .notify_on_release()
+            .clone();
 
         // Environment variable determines whether to assign color names for new connection IDs.
         // If set, colors are used for the first 24 connections.
@@ -83,6 +89,7 @@ impl ConsumerConn {
             consumer_state,
             ws_stream,
             notify_on_insert,
+            notify_on_release,
             heartbeat_interval,
             heartbeats_missed,
             max_missable_heartbeats: server_state.config.max_missable_heartbeats,
@@ -209,9 +216,10 @@ impl ConsumerConn {
         use SyncServerToClientResponse::ChunksReserved;
         let maybe_response = match msg.contents {
             WantToReserveChunks { max, strategy } => {
-                // Subscribe before looking: otherwise we'd miss the work that is inserted
+                // Subscribe before looking: otherwise we'd miss the work that is inserted (or released)
                 // after we looked, but before we started to wait.
                 let inserted = self.notify_on_insert.clone().notified_owned();
+                let released = self.notify_on_release.clone().notified_owned();
                 let chunks_or_err = self
                     .consumer_state
                     .fetch_and_reserve_chunks(strategy.clone(), max)
@@ -229,14 +237,18 @@ impl ConsumerConn {
                     }
                     Ok(vals) if !vals.is_empty() => Some(ChunksReserved(Ok(vals))),
                     Ok(_) => {
-                        // No work to do right now. Retry when new work is inserted.
+                        // No work to do right now. Retry when new work is inserted,
+                        // or when someone else gives back the chunk(s) they had reserved.
                         tracing::debug!(
                             "No work to do for {} / {max} / {strategy:?}, retrying later",
                             msg.nonce
                         );
                         let tx2 = self.tx2.clone();
                         tokio::spawn(async move {
-                            inserted.await;
+                            select! {
+                                () = inserted => {},
+                                () = released => {},
+                            }
                             let _ = tx2.send(RetryReservation {
                                 nonce: msg.nonce,
                                 max,
-- 
2.43.0


From 20c53e1c71b74440fe88d43e460f96fdde381f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 09/21] fix: wake waiting consumers also when the producer goes
 away during its insert

---
 opsqueue/src/producer/server.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opsqueue/src/producer/server.rs b/opsqueue/src/producer/server.rs
index 74b8707..215a852 100644
--- a/opsqueue/src/producer/server.rs
+++ b/opsqueue/src/producer/server.rs
@@ -12,6 +12,7 @@ use axum::response::{IntoResponse, Response};
 use axum::routing::{get, post};
 use axum::{Json, Router};
 use tokio::sync::Notify;
+use tracing::Instrument;
 
 use super::common::{ChunkContents, InsertSubmission};
 
@@ -184,6 +185,15 @@ async fn lookup_submission_ids_by_strategic_metadata(
 async fn insert_submission(
     State(state): State<ServerState>,
     Json(request): Json<InsertSubmission>,
+) -> Result<Json<SubmissionId>, ServerError> {
+    // In its own task, as this has to run to its end also when the producer goes away meanwhile:
+    // otherwise the submission might be inserted without any waiting consumer hearing about it.
+    tokio::spawn(insert_and_notify(state, request).in_current_span()).await?
+}
+
+async fn insert_and_notify(
+    state: ServerState,
+    request: InsertSubmission,
 ) -> Result<Json<SubmissionId>, ServerError> {
     let mut conn = state.pool.writer_conn().await?;
     let (prefix, chunk_contents) = match request.chunk_contents {
-- 
2.43.0


From a864f55cc278516917686667b9c380775877806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 10/21] fix: give up on a consumer connection that no longer
 takes what we send

---
 opsqueue/src/consumer/server/conn.rs | 32 +++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index f110abd..2219894 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -138,7 +138,7 @@ impl ConsumerConn {
                 // (Currently there is only one kind of these, namely a chunk reservation having expired)
                 Some(chunk_id) = self.rx.recv() => {
                     let msg = ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(chunk_id));
-                    self.ws_stream.send(msg.into()).await?;
+                    self.send(msg.into()).await?;
                 },
             }
         }
@@ -164,7 +164,7 @@ impl ConsumerConn {
             conn_id: self.id.to_string(),
         })
         .into();
-        self.ws_stream.send(init_msg).await?;
+        self.send(init_msg).await?;
         tracing::info!("Initialization message sent");
         Ok(())
     }
@@ -179,12 +179,35 @@ impl ConsumerConn {
             Err(ConsumerConnError::HeartbeatFailure)
         } else {
             tracing::debug!("Pinging");
-            let _ = self.ws_stream.send(Message::Ping("💓".into())).await;
+            if let Err(err @ ConsumerConnError::HeartbeatFailure) =
+                self.send(Message::Ping("💓".into())).await
+            {
+                return Err(err);
+            }
             self.heartbeats_missed += 1;
             Ok(())
         }
     }
 
+    /// Sends a message to the client.
+    ///
+    /// Nothing else happens on this connection while a message is being sent.
+    /// So a client which does not take it for as long as it may leave heartbeats unanswered is gone.
+    async fn send(&mut self, msg: Message) -> Result<(), ConsumerConnError> {
+        let missable = u32::try_from(self.max_missable_heartbeats).unwrap_or(u32::MAX);
+        let timeout = self
+            .heartbeat_interval
+            .period()
+            .saturating_mul(missable.saturating_add(1));
+        match tokio::time::timeout(timeout, self.ws_stream.send(msg)).await {
+            Ok(result) => Ok(result?),
+            Err(_elapsed) => {
+                tracing::warn!("Client does not take the message we send, closing connection.");
+                Err(ConsumerConnError::HeartbeatFailure)
+            }
+        }
+    }
+
     #[tracing::instrument(fields(conn = %self.id), skip(self, msg))]
     async fn handle_incoming_msg(&mut self, msg: Message) -> Result<(), ConsumerConnError> {
         // Any message means the other side is still alive:
@@ -274,8 +297,7 @@ impl ConsumerConn {
                 nonce: msg.nonce,
                 contents: response,
             };
-            self.ws_stream
-                .send(ServerToClientMessage::Sync(enveloped_response).into())
+            self.send(ServerToClientMessage::Sync(enveloped_response).into())
                 .await?;
         }
 
-- 
2.43.0


From e7f4d1c89d8b8f133d7cdb3abdc893f3401de626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 11/21] fix: count the work in flight per reservation, also
 when it ends by expiry or disconnection

The counts behind prefer-distinct went up with every reservation but came down only
with a report, and then also for reservations that were not there (anymore).
---
 opsqueue/src/consumer/dispatcher/mod.rs      | 75 +++++++++++++-------
 opsqueue/src/consumer/dispatcher/reserver.rs | 13 +++-
 opsqueue/src/consumer/server/mod.rs          |  3 +-
 3 files changed, 64 insertions(+), 27 deletions(-)

diff --git a/opsqueue/src/consumer/dispatcher/mod.rs b/opsqueue/src/consumer/dispatcher/mod.rs
index d51d118..dd57aae 100644
--- a/opsqueue/src/consumer/dispatcher/mod.rs
+++ b/opsqueue/src/consumer/dispatcher/mod.rs
@@ -9,6 +9,7 @@ use crate::{
     },
     db::{Connection, ReaderPool, conn::Reader},
 };
+use dashmap::DashMap;
 use futures::stream::{StreamExt as _, TryStreamExt as _};
 use libsqlite3_sys as ffi;
 use metastate::MetaState;
@@ -169,17 +170,28 @@ unsafe extern "C" fn sqlite_metadata_count_lookup_destructor(ptr: *mut std::ffi:
 pub struct Dispatcher {
     reserver: Reserver<ChunkId, ChunkId>,
     metastate: Arc<MetaState>,
+    counted: Arc<CountedReservations>,
 }
 
+/// The reservations (by when they were made) that are counted in the `MetaState`, and as what.
+type CountedReservations = DashMap<(ChunkId, Instant), StrategicMetadataMap>;
+
 impl Dispatcher {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
-        let reserver = Reserver::new(reservation_expiration);
         let metastate = Arc::new(MetaState::default());
+        let counted = Arc::new(CountedReservations::default());
+        let reserver = {
+            let (metastate, counted) = (metastate.clone(), counted.clone());
+            Reserver::with_release_hook(reservation_expiration, move |id, reserved_at| {
+                uncount(&metastate, &counted, *id, reserved_at);
+            })
+        };
 
         Dispatcher {
             reserver,
             metastate,
+            counted,
         }
     }
 
@@ -193,16 +205,19 @@ impl Dispatcher {
         &self.reserver
     }
 
-    fn insert_metadata(&self, metadata: &StrategicMetadataMap) {
-        for (name, value) in metadata {
+    fn count(&self, id: ChunkId, reserved_at: Instant, metadata: StrategicMetadataMap) {
+        for (name, value) in &metadata {
             self.metastate.increment(name, *value);
         }
+        self.counted.insert((id, reserved_at), metadata);
+        if self.reserver.reserved_at(&id, None) != Some(reserved_at) {
+            // The reservation ended before it was counted.
+            self.uncount(id, reserved_at);
+        }
     }
 
-    fn remove_metadata(&self, metadata: &StrategicMetadataMap) {
-        for (name, value) in metadata {
-            self.metastate.decrement(name, *value);
-        }
+    fn uncount(&self, id: ChunkId, reserved_at: Instant) {
+        uncount(&self.metastate, &self.counted, id, reserved_at);
     }
 
     /// Fetch chunks according to strategy and reserve them in memory.
@@ -267,8 +282,12 @@ impl Dispatcher {
         let mut joined = Vec::with_capacity(chunks.len());
         for chunk in chunks {
             joined.push(
-                self.join_chunk_with_submission_info(chunk, Reader::from_tx(&mut tx))
-                    .await?,
+                self.join_chunk_with_submission_info(
+                    chunk,
+                    stale_chunks_notifier,
+                    Reader::from_tx(&mut tx),
+                )
+                .await?,
             );
         }
         Ok(joined)
@@ -347,6 +366,7 @@ impl Dispatcher {
     async fn join_chunk_with_submission_info(
         &self,
         chunk: Chunk,
+        stale_chunks_notifier: &UnboundedSender<ChunkId>,
         mut conn: impl Connection,
     ) -> Result<(Chunk, Submission), sqlx::Error> {
         let submission =
@@ -362,7 +382,10 @@ impl Dispatcher {
         )
         .await
         .map_err(|DatabaseError(e)| e)?;
-        self.insert_metadata(&metadata);
+        let id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
+        if let Some(reserved_at) = self.reserved_at(&id, stale_chunks_notifier) {
+            self.count(id, reserved_at, metadata);
+        }
         Ok((chunk, submission))
     }
 
@@ -379,12 +402,12 @@ impl Dispatcher {
 
     pub async fn finish_reservation(
         &self,
-        conn: impl Connection,
+        _conn: impl Connection,
         id: ChunkId,
         delayed: bool,
     ) -> Option<Instant> {
         let maybe_started_at = self.reserver.reserved_at(&id, None);
-        self.finish_reservation_made_at(maybe_started_at, conn, id, delayed)
+        self.finish_reservation_made_at(maybe_started_at, id, delayed)
             .await;
         maybe_started_at
     }
@@ -394,26 +417,16 @@ impl Dispatcher {
     pub async fn finish_reservation_made_at(
         &self,
         maybe_started_at: Option<Instant>,
-        conn: impl Connection,
         id: ChunkId,
         delayed: bool,
     ) {
         if let Some(started_at) = maybe_started_at {
+            // Nobody is working on the chunk anymore, even when it remains reserved for a bit longer.
+            self.uncount(id, started_at);
             self.reserver
                 .finish_reservation(&id, started_at, delayed)
                 .await;
         }
-
-        // In the highly unlikely event that this DB query fails,
-        // we still want to continue
-        let metadata = crate::common::submission::db::get_submission_strategic_metadata(
-            id.submission_id,
-            conn,
-        )
-        .await
-        .unwrap_or_default();
-
-        self.remove_metadata(&metadata);
     }
 
     pub fn run_pending_tasks_periodically(&self, cancellation_token: CancellationToken) {
@@ -422,6 +435,20 @@ impl Dispatcher {
     }
 }
 
+/// Does nothing when that reservation is not counted (anymore).
+fn uncount(
+    metastate: &MetaState,
+    counted: &CountedReservations,
+    id: ChunkId,
+    reserved_at: Instant,
+) {
+    if let Some((_, metadata)) = counted.remove(&(id, reserved_at)) {
+        for (name, value) in &metadata {
+            metastate.decrement(name, *value);
+        }
+    }
+}
+
 #[cfg(test)]
 #[cfg(feature = "server-logic")]
 mod test {
diff --git a/opsqueue/src/consumer/dispatcher/reserver.rs b/opsqueue/src/consumer/dispatcher/reserver.rs
index 385364d..e807f67 100644
--- a/opsqueue/src/consumer/dispatcher/reserver.rs
+++ b/opsqueue/src/consumer/dispatcher/reserver.rs
@@ -40,11 +40,22 @@ where
 {
     #[must_use]
     pub fn new(reservation_expiration: Duration) -> Self {
+        Self::with_release_hook(reservation_expiration, |_key, _reserved_at| {})
+    }
+
+    /// `on_release` is called for every reservation that ends, in whichever way,
+    /// with its key and when it was made.
+    #[must_use]
+    pub fn with_release_hook(
+        reservation_expiration: Duration,
+        on_release: impl Fn(&K, Instant) + Send + Sync + 'static,
+    ) -> Self {
         let notify_on_release = Arc::new(Notify::new());
         let notify_on_expiration = notify_on_release.clone();
         let reservations = Cache::builder()
             .time_to_live(reservation_expiration)
-            .eviction_listener(move |_key, val: (V, UnboundedSender<V>, _), cause| {
+            .eviction_listener(move |key: Arc<K>, val: (V, UnboundedSender<V>, _), cause| {
+                on_release(&key, val.2);
                 if cause == RemovalCause::Expired {
                     // Only error case is if receiver is no longer listening
                     // In that case, nobody cares about the value being evicted anymore.
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index d4b9fee..a9e52c2 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -263,7 +263,7 @@ impl Completer {
 
                     forget_reservation(&reservations, id, reserved_at);
                     self.dispatcher
-                        .finish_reservation_made_at(reserved_at, &mut conn, id, true)
+                        .finish_reservation_made_at(reserved_at, id, true)
                         .await;
                     if let Some(started_at) = reserved_at {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
@@ -300,7 +300,6 @@ impl Completer {
                     self.dispatcher
                         .finish_reservation_made_at(
                             reserved_at,
-                            &mut conn,
                             id,
                             *failed_permanently.as_ref().unwrap_or(&false),
                         )
-- 
2.43.0


From 8c613b6f0731bda315d257eecc52b934d52a8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 12/21] fix: remove old chunks together with their submission
 instead of by their own age

The results of a submission still in progress (or finished only recently) were deleted.
---
 opsqueue/src/common/submission.rs | 40 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index adffc69..886bd66 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -1134,34 +1134,50 @@ pub mod db {
                 .execute(tx.get_inner())
                 .await?;
 
-                // Clean up old submissions:
-                let n_submissions_completed = query!(
-                    "DELETE FROM submissions_completed WHERE completed_at < julianday($1);",
+                // Clean up the chunks of old submissions
+                // (the age of a chunk itself does not matter: its submission might still be in progress)
+                let n_chunks_completed = query!(
+                    "DELETE FROM chunks_completed
+                    WHERE submission_id IN (
+                        SELECT id FROM submissions_completed WHERE completed_at < julianday($1)
+                        UNION ALL
+                        SELECT id FROM submissions_failed WHERE failed_at < julianday($1)
+                        UNION ALL
+                        SELECT id FROM submissions_cancelled WHERE cancelled_at < julianday($1)
+                    );",
                     older_than
                 )
                 .execute(tx.get_inner())
                 .await?.rows_affected();
-                let n_submissions_failed = query!(
-                    "DELETE FROM submissions_failed WHERE failed_at < julianday($1);",
+                let n_chunks_failed = query!(
+                    "DELETE FROM chunks_failed
+                    WHERE submission_id IN (
+                        SELECT id FROM submissions_completed WHERE completed_at < julianday($1)
+                        UNION ALL
+                        SELECT id FROM submissions_failed WHERE failed_at < julianday($1)
+                        UNION ALL
+                        SELECT id FROM submissions_cancelled WHERE cancelled_at < julianday($1)
+                    );",
                     older_than
                 )
                 .execute(tx.get_inner())
                 .await?.rows_affected();
-                let n_submissions_cancelled = query!(
-                    "DELETE FROM submissions_cancelled WHERE cancelled_at < julianday($1);",
+
+                // Clean up old submissions:
+                let n_submissions_completed = query!(
+                    "DELETE FROM submissions_completed WHERE completed_at < julianday($1);",
                     older_than
                 )
                 .execute(tx.get_inner())
                 .await?.rows_affected();
-
-                let n_chunks_completed = query!(
-                    "DELETE FROM chunks_completed WHERE completed_at < julianday($1);",
+                let n_submissions_failed = query!(
+                    "DELETE FROM submissions_failed WHERE failed_at < julianday($1);",
                     older_than
                 )
                 .execute(tx.get_inner())
                 .await?.rows_affected();
-                let n_chunks_failed = query!(
-                    "DELETE FROM chunks_failed WHERE failed_at < julianday($1);",
+                let n_submissions_cancelled = query!(
+                    "DELETE FROM submissions_cancelled WHERE cancelled_at < julianday($1);",
                     older_than
                 )
                 .execute(tx.get_inner())
-- 
2.43.0


From 66986563b83dd8deac182b35be80eda942928f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:00 +0000
Subject: [PATCH 13/21] fix: do not reuse a database connection that may be
 left inside a transaction

---
 opsqueue/src/db/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/db/mod.rs b/opsqueue/src/db/mod.rs
index 4514b80..a64630b 100644
--- a/opsqueue/src/db/mod.rs
+++ b/opsqueue/src/db/mod.rs
@@ -466,12 +466,27 @@ async fn ensure_db_migrated(db: &WriterPool) {
     tracing::info!("Finished migrating backing DB");
 }
 
+/// Options common to both pools.
+///
+/// When a commit or rollback fails, `sqlx` and `SQLite` may disagree on whether the connection still is in a transaction.
+/// What is done with such a connection later on could end up inside a transaction that is never committed,
+/// so we replace it instead of handing it out again.
+fn pool_options() -> SqlitePoolOptions {
+    SqlitePoolOptions::new().after_release(|conn, _meta| {
+        Box::pin(async move {
+            // Wait for a rollback that might still be queued:
+            sqlx::Connection::ping(conn).await?;
+            Ok(!sqlx::Connection::is_in_transaction(conn))
+        })
+    })
+}
+
 /// Make the reader pool.
 async fn db_connect_read_pool(
     database_filename: &str,
     max_read_pool_size: NonZero<u32>,
 ) -> ReaderPool {
-    SqlitePoolOptions::new()
+    pool_options()
         .min_connections(16)
         .max_connections(max_read_pool_size.into())
         .connect_with(db_options(database_filename))
@@ -485,7 +500,7 @@ async fn db_connect_read_pool(
 /// It intentionally only contains a single connection
 /// as `SQLite` only allows a single write at a time
 async fn db_connect_write_pool(database_filename: &str) -> WriterPool {
-    SqlitePoolOptions::new()
+    pool_options()
         .min_connections(1)
         .max_connections(1)
         .connect_with(db_options(database_filename))
-- 
2.43.0


From e4d5729bc4eee43778e08309b0b12d1bd0adb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 14/21] fix: give back the chunk when recording its outcome
 failed

When the database write for a completed chunk failed, the error was
swallowed and the reservation was ended as if the chunk were done:
without telling waiting consumers that it is available again.
And when no database connection could be had at all, the report was dropped
while the chunk stayed reserved until the reservation expired.
---
 opsqueue/src/common/chunk.rs        |  8 +++++++-
 opsqueue/src/consumer/server/mod.rs | 25 +++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/opsqueue/src/common/chunk.rs b/opsqueue/src/common/chunk.rs
index 6a25619..331062e 100644
--- a/opsqueue/src/common/chunk.rs
+++ b/opsqueue/src/common/chunk.rs
@@ -314,7 +314,7 @@ pub mod db {
         output_content: Option<Vec<u8>>,
         mut conn: impl WriterConnection,
     ) -> Result<(), E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> {
-        let _chunk_size: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
+        let completed: Result<ChunkSize, E<DatabaseError, E<SubmissionNotFound, ChunkNotFound>>> =
             conn.transaction(move |mut tx| {
                 Box::pin(async move {
                     let completed_work =
@@ -333,6 +333,12 @@ pub mod db {
             })
             .await;
 
+        match completed {
+            // Nothing (left) to complete
+            Err(E::L(DatabaseError(sqlx::Error::RowNotFound))) => {}
+            Err(E::L(err)) => return Err(E::L(err)),
+            Ok(_) | Err(E::R(_)) => {}
+        }
         counter!(crate::prometheus::CHUNKS_COMPLETED_COUNTER).increment(1);
         Ok(())
     }
diff --git a/opsqueue/src/consumer/server/mod.rs b/opsqueue/src/consumer/server/mod.rs
index a9e52c2..c85ace3 100644
--- a/opsqueue/src/consumer/server/mod.rs
+++ b/opsqueue/src/consumer/server/mod.rs
@@ -246,7 +246,28 @@ impl Completer {
         let start = tokio::time::Instant::now();
 
         let res: anyhow::Result<()> = async move {
-            let mut conn = self.pool.writer_conn().await?;
+            let mut conn = match self.pool.writer_conn().await {
+                Ok(conn) => conn,
+                Err(err) => {
+                    let (CompleterMessage::Complete {
+                        id,
+                        reservations,
+                        reserved_at,
+                        ..
+                    }
+                    | CompleterMessage::Fail {
+                        id,
+                        reservations,
+                        reserved_at,
+                        ..
+                    }) = msg;
+                    forget_reservation(&reservations, id, reserved_at);
+                    self.dispatcher
+                        .finish_reservation_made_at(reserved_at, id, false)
+                        .await;
+                    return Err(err.into());
+                }
+            };
 
             match msg {
                 CompleterMessage::Complete {
@@ -263,7 +284,7 @@ impl Completer {
 
                     forget_reservation(&reservations, id, reserved_at);
                     self.dispatcher
-                        .finish_reservation_made_at(reserved_at, id, true)
+                        .finish_reservation_made_at(reserved_at, id, db_res.is_ok())
                         .await;
                     if let Some(started_at) = reserved_at {
                         histogram!(crate::prometheus::CHUNKS_DURATION_COMPLETED_HISTOGRAM)
-- 
2.43.0


From afd0a2aae03f9b1d3223f22f6a239ffdbc3404d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 15/21] fix: do not count missed heartbeats in a burst after
 standing still

A server (or client) which was suspended or too busy for a while closed healthy
connections: the heartbeat interval made up for all the ticks it missed at once,
before any reply could be looked at.
---
 opsqueue/src/consumer/client.rs      | 3 +++
 opsqueue/src/consumer/server/conn.rs | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 481fafb..ceb9dfe 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -317,6 +317,9 @@ impl Client {
         config: ConsumerConfig,
     ) {
         let mut heartbeat_interval = tokio::time::interval(config.heartbeat_interval);
+        // After we have been busy (or suspended) for a while, don't count in a burst all the
+        // heartbeats which we had no chance to see yet.
+        heartbeat_interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
         let mut heartbeats_missed = 0;
         loop {
             yield_now().await;
diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index 2219894..fdb9537 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -60,8 +60,11 @@ pub struct ConsumerConn {
 
 impl ConsumerConn {
     pub fn new(server_state: &Arc<ServerState>, ws_stream: WebSocket) -> Self {
-        let heartbeat_interval =
+        let mut heartbeat_interval =
             tokio::time::interval(server_state.config.heartbeat_interval.into());
+        // After we have been busy (or suspended) for a while, don't count in a burst all the
+        // heartbeats the other side could not have answered yet.
+        heartbeat_interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
         let heartbeats_missed = 0;
         let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
         let (tx2, rx2) = tokio::sync::mpsc::unbounded_channel();
-- 
2.43.0


From f6900002ae48b593429c9a3a667066e908ba3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 16/21] fix: keep sending heartbeats to a consumer which sends
 us messages

Each message from the consumer postponed the next heartbeat. A consumer which
reports chunks more often than the heartbeat interval never got one, concluded
that the server is gone and dropped the connection with all its reservations.
---
 opsqueue/src/consumer/server/conn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opsqueue/src/consumer/server/conn.rs b/opsqueue/src/consumer/server/conn.rs
index fdb9537..ef143ec 100644
--- a/opsqueue/src/consumer/server/conn.rs
+++ b/opsqueue/src/consumer/server/conn.rs
@@ -213,8 +213,8 @@ impl ConsumerConn {
 
     #[tracing::instrument(fields(conn = %self.id), skip(self, msg))]
     async fn handle_incoming_msg(&mut self, msg: Message) -> Result<(), ConsumerConnError> {
-        // Any message means the other side is still alive:
-        self.heartbeat_interval.reset();
+        // Any message means the other side is still alive.
+        // (We keep sending heartbeats even so: they are how the other side knows the same of us.)
         self.heartbeats_missed = 0;
 
         match msg {
-- 
2.43.0


From bc0632bfe364609907cca4452ed7c43fb4e9b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 17/21] fix: a consumer client whose connection ended is not
 healthy

Only missed heartbeats marked the client as unhealthy. After the server closed
the connection, or an error on it, is_healthy() kept returning true.
---
 opsqueue/src/consumer/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index ceb9dfe..e067bd5 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -420,6 +420,8 @@ impl Client {
                 }
             }
         }
+        // Nothing will answer requests anymore, for whatever reason we stopped:
+        healthy.store(false, std::sync::atomic::Ordering::Relaxed);
         // Clear any and all in-flight requests on exit of the background task.
         // This ensures that any waiting requests immediately return with an error as well.
         in_flight_requests.clear().await;
-- 
2.43.0


From 5004ecdbf1a2a0451db24c513cf9479eb4eb9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:45 +0000
Subject: [PATCH 18/21] fix: end the consumer client's calls when its
 connection is dead

A call which was still sending (to a peer that is gone, or does not read)
held the lock on the connection. The background task then never got to ending
the other calls: it waited for that same lock to close the connection, or to
give back an expired chunk. All of these hung until the operating system
gave up on the connection, if ever.
---
 opsqueue/src/consumer/client.rs | 124 ++++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 39 deletions(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index e067bd5..86e0df1 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -229,11 +229,27 @@ impl InFlightRequests {
     }
 }
 
+/// How long to wait for the other side when closing a connection.
+const CLOSE_TIMEOUT: Duration = Duration::from_millis(100);
+
+/// Does the request, which fails when the connection ends first.
+async fn unless_closed<T>(
+    closed: &CancellationToken,
+    request: impl Future<Output = Result<T, InternalConsumerClientError>>,
+) -> Result<T, InternalConsumerClientError> {
+    select! {
+        res = request => res,
+        () = closed.cancelled() => Err(tungstenite::Error::ConnectionClosed.into()),
+    }
+}
+
 #[derive(Debug)]
 pub struct Client {
     in_flight_requests: InFlightRequests,
     ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
     healthy: Arc<AtomicBool>,
+    /// Cancelled once the connection has ended
+    closed: CancellationToken,
     _bg_handle: DropGuard,
 }
 
@@ -285,9 +301,11 @@ impl Client {
         }
 
         let healthy = Arc::new(AtomicBool::new(true));
+        let closed = CancellationToken::new();
         tokio::spawn(Self::background_task(
             cancellation_token.clone(),
             healthy.clone(),
+            closed.clone(),
             in_flight_requests.clone(),
             ws_stream,
             ws_sink.clone(),
@@ -298,6 +316,7 @@ impl Client {
             in_flight_requests,
             _bg_handle: cancellation_token.drop_guard(),
             healthy,
+            closed,
             ws_sink,
         };
         Ok(me)
@@ -311,6 +330,7 @@ impl Client {
     async fn background_task(
         cancellation_token: CancellationToken,
         healthy: Arc<AtomicBool>,
+        closed: CancellationToken,
         in_flight_requests: InFlightRequests,
         mut ws_stream: impl Stream<Item = tungstenite::Result<tungstenite::Message>> + Unpin,
         ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
@@ -328,11 +348,7 @@ impl Client {
                 _ = heartbeat_interval.tick() => {
                     if heartbeats_missed > config.max_missable_heartbeats {
                         tracing::warn!("We missed too many heartbeats! Closing connection and marking client as unhealthy.");
-                        // Mark ourselves as unhealthy:
-                        healthy.store(false, std::sync::atomic::Ordering::Relaxed);
-                        // For good measure, let's close the WebSocket connection early:
-                        let _ = ws_sink.lock().await.close().await;
-                        // And now exit the background task, which means all remaining in-flight requests immediately fail as well
+                        // Exit the background task, which means all remaining in-flight requests immediately fail as well
                         break
                     }
                     // NOTE: We don't need to send a heartbeat as client; only the server needs to.
@@ -368,21 +384,14 @@ impl Client {
                                         match contents {
                                             SyncServerToClientResponse::ChunksReserved(reservation) => {
                                                 let Ok(chunks) = reservation else { continue; };
-                                                for chunk in &chunks {
-                                                    let chunk_id = ChunkId::from((chunk.0.submission_id, chunk.0.chunk_index));
-                                                    // Send message to the server to indicate that we are no longer
-                                                    // reserving this chunk, so that it can be re-reserved by other
-                                                    // consumers.
-                                                    let Err(internal_error): Result<_, InternalConsumerClientError> = Self::async_request(
-                                                        &in_flight_requests,
-                                                        &ws_sink,
-                                                        ClientToServerMessage::FailChunk {
-                                                            id: chunk_id,
-                                                            failure: "Requester disappeared".into(),
-                                                        },
-                                                    ).await else { continue; };
-                                                    tracing::error!(error = as_dyn_error(&internal_error), chunk_id = ?chunk_id, "Failed to return unhandled reservation to server");
-                                                }
+                                                // Send messages to the server to indicate that we are no longer
+                                                // reserving these chunks, so that they can be re-reserved by other
+                                                // consumers.
+                                                let chunk_ids = chunks
+                                                    .iter()
+                                                    .map(|chunk| ChunkId::from((chunk.0.submission_id, chunk.0.chunk_index)))
+                                                    .collect();
+                                                Self::give_back(closed.clone(), in_flight_requests.clone(), ws_sink.clone(), chunk_ids, "Requester disappeared");
                                             },
                                         }
                                     },
@@ -400,15 +409,7 @@ impl Client {
                                                 // change allows that chunk to succeed and not be spuriously retried.
                                                 // Connection ordering guarantees the round-trip of the reservation
                                                 // expiry will come after the success.
-                                                let Err(internal_error): Result<_, InternalConsumerClientError> = Self::async_request(
-                                                    &in_flight_requests,
-                                                    &ws_sink,
-                                                    ClientToServerMessage::FailChunk {
-                                                        id: chunk_id,
-                                                        failure: "Reservation expired".into(),
-                                                    },
-                                                ).await else { continue; };
-                                                tracing::error!(error = as_dyn_error(&internal_error), chunk_id = ?chunk_id, "Failed to return expired reservation to server");
+                                                Self::give_back(closed.clone(), in_flight_requests.clone(), ws_sink.clone(), vec![chunk_id], "Reservation expired");
                                             },
                                         }
                                     }
@@ -422,26 +423,35 @@ impl Client {
         }
         // Nothing will answer requests anymore, for whatever reason we stopped:
         healthy.store(false, std::sync::atomic::Ordering::Relaxed);
+        closed.cancel();
         // Clear any and all in-flight requests on exit of the background task.
         // This ensures that any waiting requests immediately return with an error as well.
         in_flight_requests.clear().await;
+        // For good measure, let's close the WebSocket connection early.
+        // (The other side might be gone, and never take what was sent to it before.)
+        let _ =
+            tokio::time::timeout(CLOSE_TIMEOUT, async { ws_sink.lock().await.close().await }).await;
     }
 
     async fn sync_request(
         &self,
         request: ClientToServerMessage,
     ) -> Result<SyncServerToClientResponse, InternalConsumerClientError> {
-        let (nonce, oneshot_receiver) = self.in_flight_requests.next_nonce_with_oneshot().await;
-        let envelope = Envelope {
-            nonce,
-            contents: request,
-        };
-        let () = self.ws_sink.lock().await.send(envelope.into()).await?;
-        let resp = oneshot_receiver.await?;
-        Ok(resp)
+        unless_closed(&self.closed, async {
+            let (nonce, oneshot_receiver) = self.in_flight_requests.next_nonce_with_oneshot().await;
+            let envelope = Envelope {
+                nonce,
+                contents: request,
+            };
+            let () = self.ws_sink.lock().await.send(envelope.into()).await?;
+            let resp = oneshot_receiver.await?;
+            Ok(resp)
+        })
+        .await
     }
 
     async fn async_request(
+        closed: &CancellationToken,
         in_flight_requests: &InFlightRequests,
         ws_sink: &Mutex<SplitSink<WebsocketTcpStream, Message>>,
         request: ClientToServerMessage,
@@ -451,8 +461,42 @@ impl Client {
             nonce,
             contents: request,
         };
-        let () = ws_sink.lock().await.send(envelope.into()).await?;
-        Ok(())
+        unless_closed(closed, async {
+            let () = ws_sink.lock().await.send(envelope.into()).await?;
+            Ok(())
+        })
+        .await
+    }
+
+    /// Gives chunks back to the server.
+    ///
+    /// Does not wait for the server to take the message(s),
+    /// so that the background task keeps reading what the server sends meanwhile.
+    fn give_back(
+        closed: CancellationToken,
+        in_flight_requests: InFlightRequests,
+        ws_sink: Arc<Mutex<SplitSink<WebsocketTcpStream, Message>>>,
+        chunk_ids: Vec<ChunkId>,
+        failure: &'static str,
+    ) {
+        tokio::spawn(async move {
+            for chunk_id in chunk_ids {
+                let Err(internal_error) = Self::async_request(
+                    &closed,
+                    &in_flight_requests,
+                    &ws_sink,
+                    ClientToServerMessage::FailChunk {
+                        id: chunk_id,
+                        failure: failure.into(),
+                    },
+                )
+                .await
+                else {
+                    continue;
+                };
+                tracing::error!(error = as_dyn_error(&internal_error), chunk_id = ?chunk_id, "Failed to return chunk to server: {failure}");
+            }
+        });
     }
 
     /// Request chunks to reserve.
@@ -485,6 +529,7 @@ impl Client {
         output_content: chunk::Content,
     ) -> Result<(), InternalConsumerClientError> {
         Self::async_request(
+            &self.closed,
             &self.in_flight_requests,
             &self.ws_sink,
             ClientToServerMessage::CompleteChunk { id, output_content },
@@ -503,6 +548,7 @@ impl Client {
         failure: String,
     ) -> Result<(), InternalConsumerClientError> {
         Self::async_request(
+            &self.closed,
             &self.in_flight_requests,
             &self.ws_sink,
             ClientToServerMessage::FailChunk { id, failure },
-- 
2.43.0


From 86ea221a32f85b743123b532b76f60061f255132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 19/21] fix: limit how long the consumer client waits for a
 connection

When the server's host disappeared after the client had connected, but before
the server's first message arrived, all calls of the client waited for that
message forever, even with the server long back.
---
 opsqueue/src/consumer/client.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opsqueue/src/consumer/client.rs b/opsqueue/src/consumer/client.rs
index 86e0df1..339588d 100644
--- a/opsqueue/src/consumer/client.rs
+++ b/opsqueue/src/consumer/client.rs
@@ -143,7 +143,12 @@ impl OuterClient {
 
     async fn initialize(&self) -> Client {
         tracing::info!("Initializing (or re-initializing) consumer client connection...");
-        (|| Client::new(&self.1))
+        let connect = || async {
+            // Without this limit, we'd wait for as long as the operating system keeps the connection
+            // to a server which disappeared before it said anything: potentially forever.
+            tokio::time::timeout(CONNECT_TIMEOUT, Client::new(&self.1)).await?
+        };
+        connect
             .retry(retry_policy())
             .notify(|err, duration| {
                 tracing::debug!(
@@ -229,6 +234,9 @@ impl InFlightRequests {
     }
 }
 
+/// How long establishing a connection may take, including the server's first message.
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(10);
+
 /// How long to wait for the other side when closing a connection.
 const CLOSE_TIMEOUT: Duration = Duration::from_millis(100);
 
-- 
2.43.0


From b201c13ad389fac8678e9806b2f5b15afeb36cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 20/21] fix: take the write lock when checking the health of
 the database

---
 opsqueue/src/db/mod.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/opsqueue/src/db/mod.rs b/opsqueue/src/db/mod.rs
index a64630b..71e6f87 100644
--- a/opsqueue/src/db/mod.rs
+++ b/opsqueue/src/db/mod.rs
@@ -206,16 +206,21 @@ impl DBPools {
     /// the DB for a (too) long time.
     pub async fn check_health(&self) -> bool {
         match self.writer_conn().await {
-            Ok(mut conn) => conn
-                .transaction(|mut tx| {
-                    Box::pin(async move {
-                        let _count =
-                            crate::common::submission::db::count_submissions(&mut tx).await?;
-                        Ok::<_, anyhow::Error>(())
-                    })
-                })
-                .await
-                .is_ok(),
+            Ok(mut conn) => {
+                let transaction = async {
+                    // `IMMEDIATE` takes the write lock right away.
+                    // (Otherwise it is not taken at all, as we only read.)
+                    let mut tx = conn.get_inner().begin_with("BEGIN IMMEDIATE").await?;
+                    let _count =
+                        crate::common::submission::db::count_submissions(
+                            Writer::<NoTransaction>::from_tx(&mut tx),
+                        )
+                        .await?;
+                    tx.commit().await?;
+                    Ok::<_, anyhow::Error>(())
+                };
+                transaction.await.is_ok()
+            }
             Err(err) => {
                 tracing::error!(
                     error = as_dyn_error(&err),
-- 
2.43.0


From cda613c6283f70922f4b750ef3c31b9648075baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 21/21] fix: do not keep a writer connection which cannot write

SQLite opens a database for reading only when it fails to open it for
writing, also when that is because of a temporary lack of file descriptors.
As such a connection works fine for everything but writing, the writer pool
kept it forever and the server could not change anything anymore until it was restarted.
---
 opsqueue/src/db/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opsqueue/src/db/mod.rs b/opsqueue/src/db/mod.rs
index 71e6f87..d81f9db 100644
--- a/opsqueue/src/db/mod.rs
+++ b/opsqueue/src/db/mod.rs
@@ -508,6 +508,17 @@ async fn db_connect_write_pool(database_filename: &str) -> WriterPool {
     pool_options()
         .min_connections(1)
         .max_connections(1)
+        // When SQLite can't open the database for writing, e.g. because there are no file
+        // descriptors left at that moment, it quietly opens it for reading only.
+        // Such a connection is useless, and would stay in the pool forever.
+        .after_connect(|conn, _meta| {
+            Box::pin(async move {
+                sqlx::raw_sql("BEGIN IMMEDIATE; CREATE TABLE can_write (x); ROLLBACK;")
+                    .execute(conn)
+                    .await?;
+                Ok(())
+            })
+        })
         .connect_with(db_options(database_filename))
         .await
         .map(Pool::new)
-- 
2.43.0

