From a38bf37c021408aa091f660ef35fa2f164058fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 01/23] fix: treat any attempt at or beyond max_attempts as
 final

A job with max_attempts zero, or whose maximum was lowered below the attempts
already made, was retried for ever because its attempt never equalled the maximum.
---
 rexecutor/src/job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 7829447..1286e2e 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -138,7 +138,7 @@ where
 
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
-        self.attempt == self.max_attempts
+        self.attempt >= self.max_attempts
     }
 }
 
-- 
2.43.0


From 78dd9ed23b75f68eb75da2d1934f398941b58913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 02/23] fix: report out of range numbers of a stored job as a
 decode error

Converting a stored job with an attempt, max_attempts or priority outside u16
panicked, which killed the runner of the executor.
---
 rexecutor/src/job.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 1286e2e..19d88e7 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -121,10 +121,16 @@ where
             executor: value.executor,
             data,
             metadata,
-            attempt: value.attempt.try_into().unwrap(),
+            attempt: value.attempt.try_into().map_err(serde::de::Error::custom)?,
             attempted_at: value.attempted_at,
-            max_attempts: value.max_attempts.try_into().unwrap(),
-            priority: value.priority.try_into().unwrap(),
+            max_attempts: value
+                .max_attempts
+                .try_into()
+                .map_err(serde::de::Error::custom)?,
+            priority: value
+                .priority
+                .try_into()
+                .map_err(serde::de::Error::custom)?,
             tags: value.tags,
             errors: value.errors,
             inserted_at: value.inserted_at,
-- 
2.43.0


From e6d4ee7098c27c2465c8e90c10fd95a44780aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:34 +0000
Subject: [PATCH 03/23] fix: clamp the next schedule of retries and snoozes
 instead of overflowing

A backoff or snooze delay beyond the representable dates panicked in the runner
task, so no further job of that executor was ever executed.
---
 rexecutor/src/job/runner.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index d22508e..0b99ad4 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,6 +1,6 @@
 use std::{marker::PhantomData, time::Duration};
 
-use chrono::{TimeDelta, Utc};
+use chrono::{DateTime, TimeDelta, Utc};
 use futures::StreamExt;
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
@@ -176,7 +176,7 @@ where
     }
 
     async fn handle_job_snoozed(&self, job_id: JobId, delay: TimeDelta) {
-        let next_scheduled_at = Utc::now() + delay;
+        let next_scheduled_at = next_scheduled_at(delay);
         tracing::info!(%job_id, "Job {job_id} snoozed until {next_scheduled_at}");
         let _ = self
             .backend
@@ -245,7 +245,7 @@ where
                     )
                 });
         } else {
-            let next_scheduled_at = Utc::now() + delay;
+            let next_scheduled_at = next_scheduled_at(delay);
             tracing::warn!(
                 %job_id,
                 ?error,
@@ -255,7 +255,7 @@ where
             );
             let _ = self
                 .backend
-                .mark_job_retryable(job_id, Utc::now() + delay, error)
+                .mark_job_retryable(job_id, next_scheduled_at, error)
                 .await
                 .inspect_err(|err| {
                     tracing::error!(
@@ -268,6 +268,17 @@ where
     }
 }
 
+/// The instant `delay` from now, clamped to the representable range.
+fn next_scheduled_at(delay: TimeDelta) -> DateTime<Utc> {
+    Utc::now()
+        .checked_add_signed(delay)
+        .unwrap_or(if delay < TimeDelta::zero() {
+            DateTime::<Utc>::MIN_UTC
+        } else {
+            DateTime::<Utc>::MAX_UTC
+        })
+}
+
 impl From<JoinError> for crate::backend::ExecutionError {
     fn from(value: JoinError) -> Self {
         let msg = value.to_string();
-- 
2.43.0


From 3161707566960cf49dc74b1373524cb95d51562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:23 +0000
Subject: [PATCH 04/23] fix: saturate backoff computations instead of panicking

Exponential without a maximum, polynomial, linear and jittered backoffs overflowed
(panicking, or wrapping to a wrong delay) for large attempts, powers or delays.
---
 rexecutor/src/backoff.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 22fd077..af4ac1a 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -41,6 +41,30 @@ pub trait Strategy {
     fn backoff(&self, attempt: u16) -> TimeDelta;
 }
 
+fn saturating_mul(delta: TimeDelta, factor: i64) -> TimeDelta {
+    const NANOS_PER_SEC: i128 = 1_000_000_000;
+    let nanos = i128::from(delta.num_seconds()) * NANOS_PER_SEC + i128::from(delta.subsec_nanos());
+    let nanos = nanos.saturating_mul(factor.into());
+    i64::try_from(nanos.div_euclid(NANOS_PER_SEC))
+        .ok()
+        .and_then(|seconds| TimeDelta::new(seconds, nanos.rem_euclid(NANOS_PER_SEC) as u32))
+        .unwrap_or(if nanos < 0 {
+            TimeDelta::MIN
+        } else {
+            TimeDelta::MAX
+        })
+}
+
+fn saturating_add(value: TimeDelta, delta: TimeDelta) -> TimeDelta {
+    value
+        .checked_add(&delta)
+        .unwrap_or(if delta < TimeDelta::zero() {
+            TimeDelta::MIN
+        } else {
+            TimeDelta::MAX
+        })
+}
+
 /// Constant backoff strategy.
 ///
 /// Always returns the same value no matter what the attempt is.
@@ -110,7 +134,11 @@ impl Strategy for Exponential {
         if let Some(max) = self.max {
             seconds = seconds.min(max.num_seconds());
         }
-        TimeDelta::seconds(seconds)
+        TimeDelta::try_seconds(seconds).unwrap_or(if seconds < 0 {
+            TimeDelta::MIN
+        } else {
+            TimeDelta::MAX
+        })
     }
 }
 
@@ -143,7 +171,7 @@ pub struct Linear {
 
 impl Strategy for Linear {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * attempt.into();
+        let mut backoff = saturating_mul(self.factor, attempt.into());
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -183,7 +211,8 @@ pub struct Polynomial {
 
 impl Strategy for Polynomial {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * (attempt as i32).pow(self.power);
+        let mut backoff =
+            saturating_mul(self.factor, i64::from(attempt).saturating_pow(self.power));
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -206,8 +235,9 @@ impl Jitter {
             Self::Absolute(delta) => delta.num_milliseconds(),
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
         };
+        let milliseconds = milliseconds.saturating_abs();
         let rand_jitter_seconds = rand::rng().random_range(-milliseconds..=milliseconds);
-        value + TimeDelta::milliseconds(rand_jitter_seconds)
+        saturating_add(value, TimeDelta::milliseconds(rand_jitter_seconds))
     }
 }
 
@@ -424,7 +454,7 @@ where
         let mut backoff = self.strategy.backoff(attempt);
 
         if let Some(additional_offset) = self.additional_offset {
-            backoff += additional_offset;
+            backoff = saturating_add(backoff, additional_offset);
         }
 
         if let Some(jitter) = self.jitter {
-- 
2.43.0


From 508e64248794359df8fecaecaff719977b7bbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:07 +0000
Subject: [PATCH 05/23] fix: ignore the key in the in memory uniqueness check
 when none was chosen

Criteria without a key are documented to compare against all jobs matching the
remaining criteria, but jobs enqueued with a key were never considered.
---
 rexecutor/src/backend/queryable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 8bdd44a..a9f46d8 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -52,7 +52,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
         match self.uniqueness_criteria {
             None => false,
             Some(ref uniqueness_criteria @ UniquenessCriteria { duration: None, .. }) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
             }
@@ -62,7 +62,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                     ..
                 },
             ) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
                     && (job.scheduled_at - Utc::now()).abs() < duration
-- 
2.43.0


From f1072e7bc103b2d399d5f4b03e15ec2fb1d9cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:07 +0000
Subject: [PATCH 06/23] fix: make unique enqueues to the in memory backend
 atomic

The check for a duplicate and the insert or write back were separate steps, so
concurrent enqueues stored duplicates and a stale copy of the matching job could
overwrite what a runner had recorded in between.
---
 rexecutor/src/backend/memory.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index a432524..4c47fd3 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -226,17 +226,24 @@ impl InMemoryBackend {
         Ok(id.into())
     }
 
-    async fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
-        let matching_jobs = self.matching_jobs(&job)?;
-        if matching_jobs.is_empty() {
-            self.insert_new_job(job)
-        } else {
-            // TODO: what is the correct behaviour when there are multiple matching jobs
-            let mut matching_job = matching_jobs.into_iter().next().unwrap();
-            matching_job.replace(job);
-            let id = matching_job.id;
-            self.update_job(matching_job.job).await?;
-            Ok(id.into())
+    fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
+        // The lock is held throughout so that the check and the insert or replacement are atomic.
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // TODO: what is the correct behaviour when there are multiple matching jobs
+        match jobs.iter_mut().find(|stored| job.matches(stored)) {
+            None => {
+                let executor = job.executor.clone();
+                let scheduled_at = job.scheduled_at;
+                let id = self.id_counter.fetch_add(1, Ordering::SeqCst);
+                jobs.push(job.into_job(id));
+                self.notify_subscribers(executor.as_str(), scheduled_at)?;
+                Ok(id.into())
+            }
+            Some(matching_job) => {
+                matching_job.replace(job);
+                self.notify_subscribers(&matching_job.executor, matching_job.scheduled_at)?;
+                Ok(matching_job.id.into())
+            }
         }
     }
 }
@@ -383,7 +390,7 @@ impl Backend for InMemoryBackend {
     async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
         match job.uniqueness_criteria {
             None => self.insert_new_job(job),
-            Some(_) => self.insert_unique_job(job).await,
+            Some(_) => self.insert_unique_job(job),
         }
     }
     async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
-- 
2.43.0


From 3c8a69a14b73d550b50becafdde548e73b3884cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:08 +0000
Subject: [PATCH 07/23] fix: prune only jobs older than the maximum age from
 the in memory backend

Finished jobs scheduled further in the future than the age were removed too, and
an age beyond the representable dates panicked, poisoning the backend. The rule is
now the one of the postgres backend.
---
 rexecutor/src/backend/memory.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 4c47fd3..6755b6f 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -464,15 +464,22 @@ impl Backend for InMemoryBackend {
     }
     async fn prune_jobs(&self, prune_spec: &PruneSpec) -> Result<(), BackendError> {
         let now = Utc::now();
+        let in_past = match prune_spec.status {
+            JobStatus::Scheduled | JobStatus::Retryable | JobStatus::Executing => false,
+            JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded => true,
+        };
         let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
         match prune_spec.prune_by {
             PruneBy::MaxAge(delta) => {
-                let min_scheduled_at = now - delta;
-                let max_scheduled_at = now + delta;
+                let min_scheduled_at = now.checked_sub_signed(delta);
+                let max_scheduled_at = now.checked_add_signed(delta);
                 jobs.retain(|job| {
                     !prune_spec.matches(job)
-                        || (job.scheduled_at < max_scheduled_at
-                            && job.scheduled_at > min_scheduled_at)
+                        || if in_past {
+                            min_scheduled_at.is_none_or(|min| job.scheduled_at >= min)
+                        } else {
+                            max_scheduled_at.is_none_or(|max| job.scheduled_at <= max)
+                        }
                 });
             }
             PruneBy::MaxLength(length) => {
-- 
2.43.0


From 9be7798d6c7c27addd23dbb9354c7b1d59b8dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:08 +0000
Subject: [PATCH 08/23] fix: keep the most recent jobs when pruning the in
 memory backend by length

Pruning removed the first max_length matching jobs (all of them if there were
fewer) and kept the rest, instead of keeping the max_length most recently
scheduled ones and removing the others.
---
 rexecutor/src/backend/memory.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 6755b6f..296fce2 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -4,7 +4,7 @@
 //!
 //! It is not optimized instead is designed to be a correct implementation for use in a test setup.
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     ops::Sub,
     pin::Pin,
     sync::{
@@ -483,15 +483,21 @@ impl Backend for InMemoryBackend {
                 });
             }
             PruneBy::MaxLength(length) => {
-                let mut count = 0;
-                jobs.retain(|job| {
-                    if prune_spec.matches(job) {
-                        count += 1;
-                        count > length
-                    } else {
-                        true
-                    }
-                });
+                let mut matching = jobs
+                    .iter()
+                    .filter(|job| prune_spec.matches(job))
+                    .map(|job| (job.scheduled_at, job.id))
+                    .collect::<Vec<_>>();
+                matching.sort();
+                if in_past {
+                    matching.reverse();
+                }
+                let pruned = matching
+                    .into_iter()
+                    .skip(length as usize)
+                    .map(|(_, id)| id)
+                    .collect::<HashSet<_>>();
+                jobs.retain(|job| !pruned.contains(&job.id));
             }
         };
         Ok(())
-- 
2.43.0


From 161209be03041a1644c3571572925fdb5599f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:08 +0000
Subject: [PATCH 09/23] fix: enforce the max concurrency of the pruner

All prunes were started at once; the limit only applied to logging their errors.
---
 rexecutor/src/pruner/runner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index 0050e00..d864402 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -1,7 +1,7 @@
 use std::{ops::Sub, time::Duration};
 
 use chrono::{TimeDelta, Utc};
-use futures::{StreamExt, stream::FuturesOrdered};
+use futures::{StreamExt, stream};
 use tokio_util::sync::CancellationToken;
 
 use crate::backend::Backend;
@@ -54,14 +54,11 @@ where
     }
 
     async fn prune(&self) {
-        self.config
-            .pruners
-            .iter()
-            .map(|prune_spec| self.backend.prune_jobs(prune_spec))
-            .collect::<FuturesOrdered<_>>()
-            .filter_map(|res| async { res.err() })
-            .for_each_concurrent(self.config.max_concurrency, |err| async move {
-                tracing::error!(?err, "Failed to clean up jobs with error {err}")
+        stream::iter(&self.config.pruners)
+            .for_each_concurrent(self.config.max_concurrency, |prune_spec| async move {
+                if let Err(err) = self.backend.prune_jobs(prune_spec).await {
+                    tracing::error!(?err, "Failed to clean up jobs with error {err}")
+                }
             })
             .await;
     }
-- 
2.43.0


From 354c880c3a58932bbb562f1e439f861f5b80a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:08 +0000
Subject: [PATCH 10/23] fix: make assert_enqueued!(1 job, ..) assert exactly
 one job

A stated count of one was treated as no count and passed for any number of jobs.
---
 rexecutor/src/testing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/testing.rs b/rexecutor/src/testing.rs
index 7921b3a..c0581b9 100644
--- a/rexecutor/src/testing.rs
+++ b/rexecutor/src/testing.rs
@@ -143,13 +143,13 @@ macro_rules! assert_enqueued {
         assert_enqueued!(@global $n $($tail)*);
     };
     (to: $backend:ident, $($tail:tt)*) => {
-        assert_enqueued!(@internal 1 to: $backend, $($tail)*);
+        assert_enqueued!(@internal any to: $backend, $($tail)*);
     };
-    (@global $n:literal $($tail:tt)*) => {{
+    (@global $n:tt $($tail:tt)*) => {{
         let backend = $crate::global_backend::GlobalBackend::as_ref().expect("Global backend not set");
         assert_enqueued!(@internal $n to: backend, $($tail)*);
     }};
-    (@internal 1 to: $backend:ident, $($tail:tt)*) => {{
+    (@internal any to: $backend:ident, $($tail:tt)*) => {{
         use $crate::backend::Query;
         use $crate::backend::Backend;
         let mut queries = Vec::new();
@@ -241,7 +241,7 @@ macro_rules! assert_enqueued {
         $(assert_enqueued!(@query $vec; $($tail)*))?
     };
     ($($tail:tt)*) => {
-        assert_enqueued!(@global 1 $($tail)*);
+        assert_enqueued!(@global any $($tail)*);
     };
 }
 
-- 
2.43.0


From af02a63abb8e83ade5990958585a82c3b218c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:25 +0000
Subject: [PATCH 11/23] fix: match any of the given ids in the postgres id_in
 query

`id = ALL(..)` only matched when every given id was the same.
---
 rexecutor-sqlx/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 8a8abef..857a7d2 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -131,7 +131,7 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
                 .iter()
                 .map(|job_id| Into::<i32>::into(*job_id))
                 .collect();
-            builder.push(" id = All(");
+            builder.push(" id = ANY(");
             builder.push_bind(ids);
             builder.push(")");
         }
-- 
2.43.0


From a750b10e8ad8cb53c6a5efe5dd9ce4fa0f732941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:25 +0000
Subject: [PATCH 12/23] fix: group nested conditions in postgres queries

Without parentheses the precedence of AND, OR and NOT changed the meaning of nested
queries, which could even return the jobs of other executors, and an empty AND or OR
was a syntax error.
---
 rexecutor-sqlx/src/query.rs | 45 +++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 857a7d2..922d497 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -86,30 +86,37 @@ impl ToQuery for Query<'_> {
     }
 }
 
+fn handle_queries<'a>(
+    builder: &mut QueryBuilder<'a, Postgres>,
+    queries: &'a [Query<'_>],
+    operator: &str,
+    empty: &str,
+) {
+    match queries.split_last() {
+        None => {
+            builder.push(empty);
+        }
+        Some((last, elements)) => {
+            builder.push(" (");
+            elements.iter().for_each(|query| {
+                handle_query(builder, query);
+                builder.push(operator);
+            });
+            handle_query(builder, last);
+            builder.push(")");
+        }
+    }
+}
+
 fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'_>) {
     match query {
         Query::Not(inner) => {
-            builder.push(" NOT");
+            builder.push(" NOT (");
             handle_query(builder, inner);
+            builder.push(")");
         }
-        Query::And(queries) => {
-            if let Some((last, elements)) = &queries[..].split_last() {
-                elements.iter().for_each(|query| {
-                    handle_query(builder, query);
-                    builder.push(" AND");
-                });
-                handle_query(builder, last);
-            }
-        }
-        Query::Or(queries) => {
-            if let Some((last, elements)) = &queries[..].split_last() {
-                elements.iter().for_each(|query| {
-                    handle_query(builder, query);
-                    builder.push(" OR");
-                });
-                handle_query(builder, last);
-            }
-        }
+        Query::And(queries) => handle_queries(builder, queries, " AND", " TRUE"),
+        Query::Or(queries) => handle_queries(builder, queries, " OR", " FALSE"),
         Query::DataEquals(data) => {
             builder.push(" data = ");
             builder.push_bind(data);
-- 
2.43.0


From 36c436846ef82830301cb2e32c7eb307badc6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:26 +0000
Subject: [PATCH 13/23] fix: store the uniqueness key postgres uniqueness
 checks look for

The hash used as advisory lock was stored as uniqueness_key, while the duplicate
check compares the key of the criteria, so unique jobs with a key were never detected
as duplicates.
---
 rexecutor-sqlx/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 34e50a7..a7a0f69 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -218,7 +218,7 @@ impl RexecutorPgBackend {
                     job.scheduled_at,
                     job.priority as i32,
                     &job.tags,
-                    unique_identifier,
+                    uniqueness_criteria.key,
                 )
                 .fetch_one(&mut *tx)
                 .await?;
-- 
2.43.0


From 660c73a3b090db58bf2ec9bed7af03ee7a291a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:26 +0000
Subject: [PATCH 14/23] fix: keep listening after a notification that cannot be
 decoded

A payload that does not parse, such as that of a job scheduled after the year 9999,
panicked in the listener task, so no runner was ever notified again.
---
 rexecutor-sqlx/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index a7a0f69..9cd1996 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -82,7 +82,13 @@ impl RexecutorPgBackend {
             async move {
                 while let Ok(notification) = listener.recv().await {
                     let notification =
-                        serde_json::from_str::<Notification>(notification.payload()).unwrap();
+                        match serde_json::from_str::<Notification>(notification.payload()) {
+                            Ok(notification) => notification,
+                            Err(error) => {
+                                tracing::error!(?error, "Failed to decode notification: {error}");
+                                continue;
+                            }
+                        };
 
                     match subscribers
                         .read()
-- 
2.43.0


From 59e23f451d9e1e70cc74a0e8f80d0217dd3dd7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:47 +0000
Subject: [PATCH 15/23] fix: keep listening for notifications after the
 connection was lost

---
 rexecutor-sqlx/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 9cd1996..57bcd65 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -27,6 +27,9 @@ mod unique;
 
 type Subscriber = mpsc::UnboundedSender<DateTime<Utc>>;
 
+/// How long to wait before listening again after failing to receive a notification.
+const LISTENER_RETRY_DELAY: std::time::Duration = std::time::Duration::from_secs(1);
+
 /// A postgres implementation of a [`rexecutor::backend::Backend`].
 #[derive(Clone, Debug)]
 pub struct RexecutorPgBackend {
@@ -80,7 +83,16 @@ impl RexecutorPgBackend {
         tokio::spawn({
             let subscribers = this.subscribers.clone();
             async move {
-                while let Ok(notification) = listener.recv().await {
+                loop {
+                    let notification = match listener.recv().await {
+                        Ok(notification) => notification,
+                        Err(sqlx::Error::PoolClosed) => break,
+                        Err(error) => {
+                            tracing::error!(?error, "Failed to receive notification: {error}");
+                            tokio::time::sleep(LISTENER_RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
                     let notification =
                         match serde_json::from_str::<Notification>(notification.payload()) {
                             Ok(notification) => notification,
-- 
2.43.0


From 7a968d1e3e7a4e96856397a7ca614909b898e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:42 +0000
Subject: [PATCH 16/23] fix: take the same lock for the same uniqueness
 statuses in any order

---
 rexecutor-sqlx/src/unique.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/unique.rs b/rexecutor-sqlx/src/unique.rs
index a2022d4..a86ff7c 100644
--- a/rexecutor-sqlx/src/unique.rs
+++ b/rexecutor-sqlx/src/unique.rs
@@ -22,7 +22,10 @@ impl<'a> Unique for UniquenessCriteria<'a> {
         if self.executor {
             executor_identifier.hash(&mut state);
         }
-        self.statuses.hash(&mut state);
+        // The statuses form a set: the order they were listed in must not change the lock.
+        for status in rexecutor::job::JobStatus::ALL {
+            self.statuses.contains(&status).hash(&mut state);
+        }
         state.finish() as i64
     }
 
-- 
2.43.0


From 15d8c8debf5915140c7f1ce2d83ac805d92b7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:34 +0000
Subject: [PATCH 17/23] fix: survive panics of the executor's timeout and
 backoff functions

---
 rexecutor/src/job/runner.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index 0b99ad4..0a73be3 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,7 +1,7 @@
-use std::{marker::PhantomData, time::Duration};
+use std::{marker::PhantomData, panic::AssertUnwindSafe, time::Duration};
 
 use chrono::{DateTime, TimeDelta, Utc};
-use futures::StreamExt;
+use futures::{FutureExt, StreamExt};
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
 use tokio_util::sync::CancellationToken;
@@ -52,7 +52,21 @@ where
                                 Ok(job) => {
                                     let job_id = JobId::from(job.id);
                                     match job.try_into() {
-                                        Ok(job) => self.execute_job(job).await,
+                                        Ok(job) => {
+                                            // The user's `timeout` and `backoff` run outside of
+                                            // the task of the job: a panic of theirs must not
+                                            // take down the runner.
+                                            if AssertUnwindSafe(self.execute_job(job))
+                                                .catch_unwind()
+                                                .await
+                                                .is_err()
+                                            {
+                                                tracing::error!(
+                                                    ?job_id,
+                                                    "Panicked while preparing the execution of a job"
+                                                )
+                                            }
+                                        }
                                         Err(error) => {
                                             tracing::error!(
                                                 ?error,
-- 
2.43.0


From 48e93f90bbe569ae5f573d3f1acab5167c18bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:08 +0000
Subject: [PATCH 18/23] fix: put a job claimed during shutdown back instead of
 losing it

---
 rexecutor-sqlx/src/stream.rs | 45 +++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/rexecutor-sqlx/src/stream.rs b/rexecutor-sqlx/src/stream.rs
index 5e1ee8e..e908576 100644
--- a/rexecutor-sqlx/src/stream.rs
+++ b/rexecutor-sqlx/src/stream.rs
@@ -3,7 +3,7 @@ use std::ops::Sub;
 use chrono::{DateTime, Utc};
 use rexecutor::{backend::BackendError, executor::ExecutorIdentifier};
 
-use crate::RexecutorPgBackend;
+use crate::{RexecutorPgBackend, types::Job};
 
 pub struct ReadyJobStream {
     pub(crate) backend: RexecutorPgBackend,
@@ -31,11 +31,7 @@ impl ReadyJobStream {
                 _ => Self::DEFAULT_DELAY,
             };
             if delay <= Self::DELTA
-                && let Some(job) = self
-                    .backend
-                    .load_job_mark_as_executing_for_executor(self.executor_identifier.as_str())
-                    .await
-                    .map_err(|_| BackendError::BadState)?
+                && let Some(job) = self.claim().await?.and_then(|mut claim| claim.0.take())
             {
                 return job.try_into();
             }
@@ -46,4 +42,41 @@ impl ReadyJobStream {
             }
         }
     }
+
+    /// Marks a job as executing in a task of its own: the stream may be dropped (on shutdown) at
+    /// any time, in which case the claimed job is put back for somebody else to execute.
+    async fn claim(&self) -> Result<Option<Claim>, BackendError> {
+        let backend = self.backend.clone();
+        let executor = self.executor_identifier.as_str();
+        tokio::spawn(async move {
+            let job = backend
+                .load_job_mark_as_executing_for_executor(executor)
+                .await?;
+            Ok::<_, sqlx::Error>(job.map(|job| Claim(Some(job), backend)))
+        })
+        .await
+        .map_err(|_| BackendError::BadState)?
+        .map_err(|_| BackendError::BadState)
+    }
+}
+
+/// A claimed job, which is put back unless it is taken out.
+struct Claim(Option<Job>, RexecutorPgBackend);
+
+impl Drop for Claim {
+    fn drop(&mut self) {
+        let Some(job) = self.0.take() else { return };
+        let Ok(runtime) = tokio::runtime::Handle::try_current() else {
+            return;
+        };
+        let backend = self.1.clone();
+        runtime.spawn(async move {
+            let _ = backend
+                ._mark_job_snoozed(job.id.into(), job.scheduled_at)
+                .await
+                .inspect_err(|err| {
+                    tracing::error!(?err, "Failed to put job {} back, error: {err}", job.id)
+                });
+        });
+    }
 }
-- 
2.43.0


From 01752ceb1a3192176d47dfe89e0aacbd0bbfb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:56 +0000
Subject: [PATCH 19/23] fix: enqueue a cron occurrence once across the
 instances, also after its job was claimed

---
 rexecutor/src/cron_runner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 25ef308..2cfa8c2 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -5,7 +5,11 @@ use cron::Schedule;
 use serde::{Serialize, de::DeserializeOwned};
 use tokio_util::sync::CancellationToken;
 
-use crate::{backend::Backend, executor::Executor, job::uniqueness_criteria::UniquenessCriteria};
+use crate::{
+    backend::Backend,
+    executor::Executor,
+    job::{JobStatus, uniqueness_criteria::UniquenessCriteria},
+};
 
 pub(crate) struct CronRunner<B, E>
 where
@@ -77,6 +81,7 @@ where
         let criteria = UniquenessCriteria::by_executor()
             .and_within(TimeDelta::zero())
             .and_key(&self.data)
+            .and_statuses(&JobStatus::ALL)
             .and_executor();
 
         let _ = E::builder()
-- 
2.43.0


From d6ebd1ee94026260f012d6dcc36968ad179da354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:20 +0000
Subject: [PATCH 20/23] fix: clamp the instant of relative schedule queries
 instead of overflowing

---
 rexecutor/src/job/query.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/job/query.rs b/rexecutor/src/job/query.rs
index ccbdec9..683f901 100644
--- a/rexecutor/src/job/query.rs
+++ b/rexecutor/src/job/query.rs
@@ -270,15 +270,26 @@ impl<'a, D, M> Where<'a, D, M> {
 
     /// Query for jobs where the job's `scheduled_at` field is outside of the given [`TimeDelta`].
     pub fn scheduled_at_older_than(duration: TimeDelta) -> Self {
-        Self(Query::ScheduledAtBefore(Utc::now() - duration))
+        Self(Query::ScheduledAtBefore(ago(duration)))
     }
 
     /// Query for jobs where the job's `scheduled_at` field is within of the given [`TimeDelta`].
     pub fn scheduled_at_within_the_last(duration: TimeDelta) -> Self {
-        Self(Query::ScheduledAtAfter(Utc::now() - duration))
+        Self(Query::ScheduledAtAfter(ago(duration)))
     }
 }
 
+/// The instant `duration` before now, clamped to the representable range.
+fn ago(duration: TimeDelta) -> DateTime<Utc> {
+    Utc::now()
+        .checked_sub_signed(duration)
+        .unwrap_or(if duration < TimeDelta::zero() {
+            DateTime::<Utc>::MAX_UTC
+        } else {
+            DateTime::<Utc>::MIN_UTC
+        })
+}
+
 impl<'a, D, M> std::ops::Not for Where<'a, D, M> {
     type Output = Self;
     fn not(self) -> Self {
-- 
2.43.0


From ec13588802acda59b335429c3e51c7bfb74baa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:31 +0000
Subject: [PATCH 21/23] fix: prune and query postgres with cutoffs beyond the
 representable range

---
 rexecutor-sqlx/src/query.rs | 14 ++++++++------
 rexecutor-sqlx/src/types.rs |  7 +++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 922d497..71a1cf8 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -1,9 +1,9 @@
-use chrono::Utc;
+use chrono::{DateTime, Utc};
 use rexecutor::backend::Query;
 use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
 use sqlx::{Postgres, QueryBuilder};
 
-use crate::types::JobStatus;
+use crate::types::{JobStatus, representable};
 
 pub(crate) trait ToQuery {
     fn query(&self) -> QueryBuilder<'_, Postgres>;
@@ -35,10 +35,12 @@ impl ToQuery for PruneSpec {
                 builder.push(" AND scheduled_at");
                 if in_past {
                     builder.push(" < ");
-                    builder.push_bind(Utc::now() - time);
+                    let cutoff = Utc::now().checked_sub_signed(time);
+                    builder.push_bind(representable(cutoff.unwrap_or(DateTime::<Utc>::MIN_UTC)));
                 } else {
                     builder.push(" > ");
-                    builder.push_bind(Utc::now() + time);
+                    let cutoff = Utc::now().checked_add_signed(time);
+                    builder.push_bind(cutoff.unwrap_or(DateTime::<Utc>::MAX_UTC));
                 }
             }
             PruneBy::MaxLength(count) => {
@@ -158,11 +160,11 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
         }
         Query::ScheduledAtBefore(scheduled_at) => {
             builder.push(" scheduled_at < ");
-            builder.push_bind(scheduled_at);
+            builder.push_bind(representable(*scheduled_at));
         }
         Query::ScheduledAtAfter(scheduled_at) => {
             builder.push(" scheduled_at > ");
-            builder.push_bind(scheduled_at);
+            builder.push_bind(representable(*scheduled_at));
         }
         Query::ScheduledAtEqual(scheduled_at) => {
             builder.push(" scheduled_at = ");
diff --git a/rexecutor-sqlx/src/types.rs b/rexecutor-sqlx/src/types.rs
index 7ff5074..665263f 100644
--- a/rexecutor-sqlx/src/types.rs
+++ b/rexecutor-sqlx/src/types.rs
@@ -5,6 +5,13 @@ use rexecutor::backend::BackendError;
 use serde::{Deserialize, Serialize};
 use sqlx::prelude::FromRow;
 
+/// The given instant, or the earliest one PostgreSQL can represent if it is before that.
+pub(crate) fn representable(timestamp: DateTime<Utc>) -> DateTime<Utc> {
+    // 4713-11-24 BC; the latest one is beyond what chrono can represent.
+    const EARLIEST: DateTime<Utc> = DateTime::from_timestamp(-210_866_803_200, 0).unwrap();
+    timestamp.max(EARLIEST)
+}
+
 #[derive(sqlx::Type, Debug, Clone, Copy, Serialize, PartialEq, Eq)]
 #[sqlx(type_name = "rexecutor_job_state", rename_all = "lowercase")]
 pub(crate) enum JobStatus {
-- 
2.43.0


From cd09a31ca1c844a9e3d99abd5975225de3abc20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:31 +0000
Subject: [PATCH 22/23] fix: check uniqueness in postgres with windows beyond
 the representable range

---
 rexecutor-sqlx/src/unique.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rexecutor-sqlx/src/unique.rs b/rexecutor-sqlx/src/unique.rs
index a86ff7c..5e8fca5 100644
--- a/rexecutor-sqlx/src/unique.rs
+++ b/rexecutor-sqlx/src/unique.rs
@@ -4,7 +4,7 @@ use chrono::{DateTime, Utc};
 use rexecutor::job::uniqueness_criteria::UniquenessCriteria;
 use sqlx::{Postgres, QueryBuilder};
 
-use crate::types::JobStatus;
+use crate::types::{JobStatus, representable};
 
 pub(crate) trait Unique {
     fn unique_identifier(&self, executor_identifier: &'_ str) -> i64;
@@ -55,9 +55,15 @@ impl<'a> Unique for UniquenessCriteria<'a> {
         }
 
         if let Some(duration) = self.duration {
-            let cutoff = scheduled_at - duration;
-            builder.push(" AND scheduled_at >= ").push_bind(cutoff);
-            let cutoff = scheduled_at + duration;
+            let cutoff = scheduled_at
+                .checked_sub_signed(duration)
+                .unwrap_or(DateTime::<Utc>::MIN_UTC);
+            builder
+                .push(" AND scheduled_at >= ")
+                .push_bind(representable(cutoff));
+            let cutoff = scheduled_at
+                .checked_add_signed(duration)
+                .unwrap_or(DateTime::<Utc>::MAX_UTC);
             builder.push(" AND scheduled_at <= ").push_bind(cutoff);
         }
         // TODO: orderby closest to today
-- 
2.43.0


From dcb060551eb992d483dfa856a28ec5c625995aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:15 +0000
Subject: [PATCH 23/23] fix: complete beginning a transaction even if the
 caller of a unique enqueue gives up

---
 rexecutor-sqlx/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 57bcd65..26f0614 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -204,7 +204,13 @@ impl RexecutorPgBackend {
         let Some(uniqueness_criteria) = job.uniqueness_criteria else {
             panic!();
         };
-        let mut tx = self.pool.begin().await?;
+        // Beginning a transaction is not cancel safe, when abandoned halfway the connection would
+        // return to the pool with the transaction open. In a task of its own it is completed (and
+        // rolled back) even if the caller gives up.
+        let pool = self.pool.clone();
+        let mut tx = tokio::spawn(async move { pool.begin().await })
+            .await
+            .map_err(|error| sqlx::Error::Io(std::io::Error::other(error)))??;
         let unique_identifier = uniqueness_criteria.unique_identifier(job.executor.as_str());
         sqlx::query!("SELECT pg_advisory_xact_lock($1)", unique_identifier)
             .execute(&mut *tx)
-- 
2.43.0

