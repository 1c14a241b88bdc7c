//! C12-C17 and C21: the in-memory backend's stored jobs against reference semantics.
use crate::scen::EPOCH;
use crate::ops::*;
use crate::tbl::*;
use crate::vals::*;
use crate::with_vex;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::Rexecutor;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Job as BJob, Query};
use rexecutor::executor::{ExecutionResult, Executor, ExecutorIdentifier};
use rexecutor::job::builder::{JobBuilder, NoData, WithData};
use rexecutor::job::uniqueness_criteria::{Replace, Resolution, UniquenessCriteria};
use rexecutor::job::{Job, JobId, JobStatus};
use rexecutor::pruner::PruneSpec;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;
use vkit::{CaseResult, GenArm, Property};

fn base_now() -> DateTime<Utc> {
    Utc::now()
}
fn leak_statuses(s: &[JobStatus]) -> &'static [JobStatus] {
    Box::leak(s.to_vec().into_boxed_slice())
}
pub fn own_crit(c: &UniquenessCriteria<'_>) -> UniquenessCriteria<'static> {
    UniquenessCriteria {
        key: c.key,
        executor: c.executor,
        duration: c.duration,
        statuses: leak_statuses(c.statuses),
        on_conflict: match &c.on_conflict {
            Resolution::DoNothing => Resolution::DoNothing,
            Resolution::Replace(r) => Resolution::Replace(Replace {
                scheduled_at: r.scheduled_at,
                data: r.data,
                metadata: r.metadata,
                priority: r.priority,
                max_attempts: r.max_attempts,
                for_statuses: leak_statuses(r.for_statuses),
            }),
        },
    }
}
pub fn own_job(j: &EnqueuableJob<'_>) -> EnqueuableJob<'static> {
    EnqueuableJob {
        executor: j.executor.clone(),
        data: j.data.clone(),
        metadata: j.metadata.clone(),
        max_attempts: j.max_attempts,
        scheduled_at: j.scheduled_at,
        tags: j.tags.clone(),
        priority: j.priority,
        uniqueness_criteria: j.uniqueness_criteria.as_ref().map(own_crit),
    }
}

// ------------------------------------------------------------------ C12: builder

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum BCall {
    Data(Value),
    Meta(Value),
    Max(u16),
    At(i64),
    In(i64),
    AddTag(String),
    WithTags(Vec<String>),
    Unique(Crit),
    Prio(u16),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct BuildCase {
    ex: usize,
    calls: Vec<BCall>,
    ret: i32,
}
fn bcall() -> BoxedStrategy<BCall> {
    prop_oneof![
        1 => json_value().prop_map(BCall::Data),
        2 => json_value().prop_map(BCall::Meta),
        2 => any::<u16>().prop_map(BCall::Max),
        2 => (-1_000_000i64..1_000_000).prop_map(BCall::At),
        2 => (-1_000_000i64..1_000_000).prop_map(BCall::In),
        3 => text().prop_map(BCall::AddTag),
        2 => tag_list().prop_map(BCall::WithTags),
        2 => crit().prop_map(BCall::Unique),
        2 => any::<u16>().prop_map(BCall::Prio),
    ]
    .boxed()
}
fn build_case() -> BoxedStrategy<BuildCase> {
    (0usize..6, vec(bcall(), 0..8), json_value(), any::<prop::sample::Index>(), any::<i32>())
        .prop_map(|(ex, mut calls, d, i, ret)| {
            // executors 0-3 need data
            if ex < 4 && !calls.iter().any(|c| matches!(c, BCall::Data(_))) {
                let i = i.index(calls.len() + 1);
                calls.insert(i, BCall::Data(d));
            }
            BuildCase { ex, calls, ret }
        })
        .boxed()
}

macro_rules! opt_ex {
    ($($ty:ident $name:literal $data:ty, $meta:ty;)*) => {
        $(struct $ty;
        #[async_trait]
        impl Executor for $ty {
            type Data = $data;
            type Metadata = $meta;
            const NAME: &'static str = $name;
            async fn execute(_job: Job<$data, $meta>) -> ExecutionResult {
                ExecutionResult::Done
            }
        })*
    };
}
opt_ex! {
    OptData "optional_data" Option<Value>, Value;
    UnitData "unit_data" (), Value;
}

#[derive(Default)]
struct EnqLog {
    jobs: Mutex<Vec<EnqueuableJob<'static>>>,
    ret: i32,
}
#[async_trait]
impl Backend for EnqLog {
    async fn subscribe_ready_jobs(&self, _: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        Box::pin(futures::stream::pending())
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.jobs.lock().unwrap().push(own_job(&job));
        Ok(self.ret.into())
    }
    async fn mark_job_complete(&self, _: JobId) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn mark_job_retryable(&self, _: JobId, _: DateTime<Utc>, _: BErr) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn mark_job_discarded(&self, _: JobId, _: BErr) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn mark_job_cancelled(&self, _: JobId, _: BErr) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn mark_job_snoozed(&self, _: JobId, _: DateTime<Utc>) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn prune_jobs(&self, _: &PruneSpec) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn rerun_job(&self, _: JobId) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn update_job(&self, _: BJob) -> Result<(), BackendError> {
        Err(BackendError::BadState)
    }
    async fn query<'a>(&self, _: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        Err(BackendError::BadState)
    }
}

enum Bld<'a, E: Executor + 'static> {
    No(JobBuilder<'a, E, NoData>),
    With(JobBuilder<'a, E, WithData>),
}
macro_rules! each {
    ($b:expr, $x:ident => $e:expr) => {
        match $b {
            Bld::No($x) => Bld::No($e),
            Bld::With($x) => Bld::With($e),
        }
    };
}
/// Window the schedule must be in.
type Win = (DateTime<Utc>, DateTime<Utc>);

/// Performs the calls; returns the builder and the window of its schedule.
fn build<'a, E: Executor<Metadata = Value> + 'static>(calls: &[BCall], base: DateTime<Utc>, ar: &'a StatusArena, data: fn(&Value) -> E::Data) -> (Bld<'a, E>, Win) {
    let t = Utc::now();
    let mut b: Bld<'a, E> = Bld::No(E::builder());
    let mut w = (t, Utc::now());
    for c in calls {
        b = match c {
            BCall::Data(d) => Bld::With(match b {
                Bld::No(x) => x.with_data(data(d)),
                Bld::With(x) => x.with_data(data(d)),
            }),
            BCall::Meta(m) => each!(b, x => x.with_metadata(m.clone())),
            BCall::Max(m) => each!(b, x => x.with_max_attempts(*m)),
            BCall::At(ms) => {
                w = (at(base, *ms), at(base, *ms));
                each!(b, x => x.schedule_at(at(base, *ms)))
            }
            BCall::In(ms) => {
                let d = TimeDelta::milliseconds(*ms);
                let t = Utc::now();
                let b = each!(b, x => x.schedule_in(d));
                w = (t + d, Utc::now() + d);
                b
            }
            BCall::AddTag(t) => each!(b, x => x.add_tag(t.clone())),
            BCall::WithTags(t) => each!(b, x => x.with_tags(t.clone())),
            BCall::Unique(c) => each!(b, x => x.unique(c.build(ar))),
            BCall::Prio(p) => each!(b, x => x.with_priority(*p)),
        };
    }
    (b, w)
}
/// What the calls mean, the schedule left at `sched`.
fn meaning(calls: &[BCall], name: &str, max: u16, crit: Option<UniquenessCriteria<'static>>, null_data: bool, sched: DateTime<Utc>, ar: &StatusArena) -> EnqueuableJob<'static> {
    let mut e = EnqueuableJob {
        executor: name.into(),
        data: Value::Null,
        metadata: Value::Null,
        max_attempts: max,
        scheduled_at: sched,
        tags: vec![],
        priority: 0,
        uniqueness_criteria: crit,
    };
    for c in calls {
        match c {
            BCall::Data(d) => e.data = if null_data { Value::Null } else { d.clone() },
            BCall::Meta(d) => e.metadata = d.clone(),
            BCall::Max(m) => e.max_attempts = *m,
            BCall::At(_) | BCall::In(_) => {}
            BCall::AddTag(t) => e.tags.push(t.clone()),
            BCall::WithTags(t) => e.tags = t.clone(),
            BCall::Unique(c) => e.uniqueness_criteria = Some(own_crit(&c.build(ar))),
            BCall::Prio(p) => e.priority = *p,
        }
    }
    e
}
fn run_build(c: &BuildCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::block_on(EPOCH, async {
        let log = EnqLog { ret: c.ret, ..Default::default() };
        let ar = StatusArena::default();
        let base = base_now();
        macro_rules! go {
            ($e:ty, $data:expr, $b:ident => $enq:expr) => {{
                let ($b, w) = build::<$e>(&c.calls, base, &ar, $data);
                let res: Result<JobId, rexecutor::RexecutorError> = $enq;
                (res, w, <$e>::NAME, <$e>::MAX_ATTEMPTS, <$e>::UNIQUENESS_CRITERIA)
            }};
        }
        macro_rules! need {
            ($e:ty) => {
                go!($e, Value::clone, b => match b {
                    Bld::With(b) => b.enqueue_to_backend(&log).await,
                    Bld::No(_) => unreachable!("data is always given"),
                })
            };
        }
        macro_rules! may {
            ($e:ty, $d:expr) => {
                go!($e, $d, b => match b {
                    Bld::With(b) => b.enqueue_to_backend(&log).await,
                    Bld::No(b) => b.enqueue_to_backend(&log).await,
                })
            };
        }
        let (res, w, name, max, uq) = match c.ex {
            0 => need!(VA),
            1 => need!(VB),
            2 => need!(VC),
            3 => need!(VU),
            4 => may!(OptData, |v| Some(v.clone())),
            _ => may!(UnitData, |_| ()),
        };
        match res {
            Ok(id) if id == c.ret => {}
            other => return r.fail(format!("enqueue returned {other:?}, the backend gave the id {}", c.ret)),
        }
        let got = log.jobs.lock().unwrap().clone();
        if got.len() != 1 {
            return r.fail(format!("{} jobs were enqueued by one call", got.len()));
        }
        let got = &got[0];
        if got.scheduled_at < w.0 || got.scheduled_at > w.1 {
            return r.fail(format!("scheduled at {}, expected between {} and {}", got.scheduled_at, w.0, w.1));
        }
        let want = meaning(&c.calls, name, max, uq, c.ex == 5, got.scheduled_at, &ar);
        if *got != want {
            r.fail(format!("enqueued {got:?}, expected {want:?}"));
        }
    });
    let kinds: HashSet<_> = c.calls.iter().map(std::mem::discriminant).collect();
    r.nontrivial = kinds.len() >= 3;
    r.class_if(kinds.len() < c.calls.len(), "a method called twice");
    r.class_if(!c.calls.iter().any(|c| matches!(c, BCall::Unique(_))) && c.ex == 3, "executor's own criteria");
    r.class_if(!c.calls.iter().any(|c| matches!(c, BCall::Max(_))), "executor's own maximum");
    r.class_if(matches!(c.calls.last(), Some(BCall::Data(_))), "data last");
    r
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct StoreCase {
    rows: Vec<Row>,
    prune: PruneReq,
    builds: Vec<(usize, Vec<BCall>)>,
}
fn store_case() -> BoxedStrategy<StoreCase> {
    let call = bcall().prop_filter("criteria are for other arms", |c| !matches!(c, BCall::Unique(_)));
    let b = (0usize..NV, vec(call, 0..6), small_value()).prop_map(|(ex, mut calls, d)| {
        if !calls.iter().any(|c| matches!(c, BCall::Data(_))) {
            calls.push(BCall::Data(d));
        }
        (ex, calls)
    });
    (vec(row(true), 0..4), prune_req(), vec(b, 1..5)).prop_map(|(rows, prune, builds)| StoreCase { rows, prune, builds }).boxed()
}
fn run_store(c: &StoreCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let base = base_now();
        let mut want = match fill(&b, &c.rows, base).await {
            Ok(w) => w,
            Err(e) => return r.fail(e),
        };
        let mut used: HashSet<i32> = want.iter().map(|s| s.job.id).collect();
        if used.len() != want.len() {
            return r.fail("two enqueues returned the same id");
        }
        if b.prune_jobs(&c.prune.spec()).await.is_err() {
            return r.fail("prune failed");
        }
        let left: HashSet<i32> = match table(&b).await {
            Ok(t) => t.iter().map(|j| j.id).collect(),
            Err(e) => return r.fail(e),
        };
        r.class_if(left.len() < want.len(), "after a prune");
        want.retain(|s| left.contains(&s.job.id));
        let ar = StatusArena::default();
        for (ex, calls) in &c.builds {
            let t = Utc::now();
            let (res, w, name, max) = with_vex!(*ex, E => {
                let (bl, w) = build::<E>(calls, base, &ar, Value::clone);
                let Bld::With(bl) = bl else { unreachable!("data is always given") };
                (bl.enqueue_to_backend(&b).await, w, E::NAME, E::MAX_ATTEMPTS)
            });
            let id: i32 = match res {
                Ok(id) => id.into(),
                Err(e) => return r.fail(format!("enqueue failed: {e:?}")),
            };
            if !used.insert(id) {
                return r.fail(format!("the id {id} was given to two jobs"));
            }
            let found = match b.query(Query::IdEquals(id.into())).await {
                Ok(v) => v,
                Err(e) => return r.fail(format!("query failed: {e:?}")),
            };
            let [j] = &found[..] else { return r.fail(format!("{} jobs have the new id {id}", found.len())) };
            if j.scheduled_at < w.0 || j.scheduled_at > w.1 {
                return r.fail(format!("stored as scheduled at {}, expected between {} and {}", j.scheduled_at, w.0, w.1));
            }
            if j.inserted_at < t || j.inserted_at > Utc::now() {
                return r.fail(format!("inserted_at is {}, enqueued between {t} and {}", j.inserted_at, Utc::now()));
            }
            let m = meaning(calls, name, max, None, false, j.scheduled_at, &ar);
            want.push(Stored {
                job: BJob {
                    id,
                    status: JobStatus::Scheduled,
                    executor: m.executor,
                    data: m.data,
                    metadata: m.metadata,
                    attempt: 0,
                    max_attempts: m.max_attempts as i32,
                    priority: m.priority as i32,
                    tags: m.tags,
                    errors: vec![],
                    inserted_at: j.inserted_at,
                    scheduled_at: m.scheduled_at,
                    attempted_at: None,
                    completed_at: None,
                    cancelled_at: None,
                    discarded_at: None,
                },
                key: None,
            });
            match table(&b).await {
                Ok(t) => {
                    if let Some(e) = compare(&t, &want) {
                        return r.fail(e);
                    }
                }
                Err(e) => return r.fail(e),
            }
        }
        // reading every job back through its executor and writing it unchanged alters nothing
        for s in &want {
            let ex = VNAMES.iter().position(|n| *n == s.job.executor).unwrap();
            let res: Result<(), String> = with_vex!(ex, E => async {
                let jobs = E::query_jobs_on_backend(rexecutor::job::query::Where::id_equals(s.job.id.into()), &b).await.map_err(|e| format!("query: {e:?}"))?;
                let [j] = <[Job<Value, Value>; 1]>::try_from(jobs).map_err(|j| format!("{} jobs found for one id", j.len()))?;
                if j.data != s.job.data || j.metadata.clone().unwrap_or(Value::Null) != s.job.metadata || j.tags != s.job.tags || j.priority as i32 != s.job.priority {
                    return Err(format!("read {j:?}, stored {:?}", s.job));
                }
                E::update_job_on_backend(j, &b).await.map_err(|e| format!("update: {e:?}"))
            }.await);
            if let Err(e) = res {
                return r.fail(e);
            }
        }
        match table(&b).await {
            Ok(t) => {
                if let Some(e) = compare(&t, &want) {
                    r.fail(format!("after reading and writing back unchanged: {e}"));
                }
            }
            Err(e) => r.fail(e),
        }
    });
    r.nontrivial = c.builds.len() >= 2;
    r
}

// values of rich types reach the executor unchanged

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Kind {
    Unit,
    New(i64),
    Tuple(u8, String),
    Named { a: Option<bool>, b: Vec<u32> },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Rich {
    id: u64,
    neg: i64,
    small: i8,
    name: String,
    opt: Option<Option<u8>>,
    list: Vec<Kind>,
    map: BTreeMap<String, Vec<i32>>,
    chr: char,
    pair: (bool, [u16; 3]),
    boxed: Option<Box<Rich>>,
    when: DateTime<Utc>,
    unit: (),
}
fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        Just(Kind::Unit),
        any::<i64>().prop_map(Kind::New),
        (any::<u8>(), text()).prop_map(|(a, b)| Kind::Tuple(a, b)),
        (any::<Option<bool>>(), vec(any::<u32>(), 0..3)).prop_map(|(a, b)| Kind::Named { a, b }),
    ]
    .boxed()
}
fn rich(depth: u32) -> BoxedStrategy<Rich> {
    let inner = if depth == 0 { Just(None).boxed() } else { prop::option::of(rich(depth - 1).prop_map(Box::new)).boxed() };
    (
        (any::<u64>(), any::<i64>(), any::<i8>(), text()),
        (prop::option::of(any::<u8>().prop_map(Some)), vec(kind(), 0..3), prop::collection::btree_map(text(), vec(any::<i32>(), 0..3), 0..3)),
        (any::<char>(), any::<(bool, [u16; 3])>(), inner, any::<i32>()),
    )
        .prop_map(|((id, neg, small, name), (opt, list, map), (chr, pair, boxed, when))| Rich {
            id, neg, small, name, opt, list, map, chr, pair, boxed,
            when: DateTime::from_timestamp(when as i64, when.unsigned_abs() % 1_000_000_000).unwrap(),
            unit: (),
        })
        .boxed()
}
thread_local! {
    static GOT: RefCell<Vec<Job<Rich, Kind>>> = const { RefCell::new(vec![]) };
}
struct RichEx;
#[async_trait]
impl Executor for RichEx {
    type Data = Rich;
    type Metadata = Kind;
    const NAME: &'static str = "rich";
    async fn execute(job: Job<Rich, Kind>) -> ExecutionResult {
        GOT.with(|g| g.borrow_mut().push(job));
        ExecutionResult::Done
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct RichCase {
    jobs: Vec<(Rich, Option<Kind>)>,
}
fn rich_case() -> BoxedStrategy<RichCase> {
    vec((rich(1), prop::option::of(kind())), 1..4).prop_map(|jobs| RichCase { jobs }).boxed()
}
fn run_rich(c: &RichCase) -> CaseResult {
    let mut r = CaseResult::ok();
    GOT.with(|g| g.borrow_mut().clear());
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let mut ids = vec![];
        for (d, m) in &c.jobs {
            let mut bl = RichEx::builder().with_data(d.clone());
            if let Some(m) = m {
                bl = bl.with_metadata(m.clone());
            }
            match bl.enqueue_to_backend(&b).await {
                Ok(id) => ids.push(id),
                Err(e) => return r.fail(format!("enqueue failed: {e:?}")),
            }
        }
        let g = Rexecutor::new(b.clone()).with_executor::<RichEx>().drop_guard();
        tokio::time::sleep(Duration::from_secs(5)).await;
        drop(g);
        let got = GOT.with(|g| g.borrow().clone());
        for (id, (d, m)) in ids.iter().zip(&c.jobs) {
            match got.iter().filter(|j| j.id == *id).collect::<Vec<_>>()[..] {
                [j] if j.data == *d && j.metadata == *m => {}
                ref other => return r.fail(format!("job {id} was enqueued with {d:?} / {m:?}; executions: {other:?}")),
            }
            let found = RichEx::query_jobs_on_backend(rexecutor::job::query::Where::data_equals(d), &b).await;
            match found {
                Ok(v) if v.iter().any(|j| j.id == *id) && v.iter().all(|j| j.data == *d) => {}
                other => return r.fail(format!("querying for the data {d:?} of job {id} gave {other:?}")),
            }
        }
    });
    r.nontrivial = c.jobs.iter().any(|(d, m)| m.is_some() || !d.list.is_empty());
    r
}

// ------------------------------------------------------------------ C13, C14: uniqueness

pub const MEMORY: Dialect = Dialect { centre_new: false, partial_update: false };
/// Stores the rows, then lets `f` work on the backend.
fn filled(rows: &[Row], f: impl AsyncFnOnce(&InMemoryBackend, Vec<Stored>, DateTime<Utc>, &mut CaseResult)) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let base = base_now();
        match fill(&b, rows, base).await {
            Ok(w) => f(&b, w, base, &mut r).await,
            Err(e) => r.fail(e),
        }
    });
    r
}
fn run_unique(c: &UniqueCase, conflicts: bool) -> CaseResult {
    if collision(c) {
        let mut r = CaseResult::ok();
        r.class("hash collision (skipped)");
        return r;
    }
    filled(&c.rows, async |b, w, base, r| unique_on(b, c, w, base, MEMORY, conflicts, r).await)
}
fn run_c13(c: &UniqueCase) -> CaseResult {
    run_unique(c, false)
}
fn run_c14(c: &UniqueCase) -> CaseResult {
    run_unique(c, true)
}

/// Builder order and key equality alone.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct CritCase {
    crit: Crit,
    orders: (u8, u8),
    repl_orders: (u8, u8),
    a: KeySpec,
    b: KeySpec,
}
fn crit_case() -> BoxedStrategy<CritCase> {
    (crit(), 0u8..24, 0u8..24, 0u8..120, 0u8..120, key_spec(), key_spec(), any::<bool>())
        .prop_map(|(crit, a, b, ra, rb, ka, kb, same)| CritCase { crit, orders: (a, b), repl_orders: (ra, rb), b: if same { ka.clone() } else { kb }, a: ka })
        .boxed()
}
fn run_crit(c: &CritCase) -> CaseResult {
    let mut r = CaseResult::ok();
    let ar = StatusArena::default();
    let mk = |o: u8, ro: u8| {
        let mut x = c.crit.clone();
        x.order = o;
        if let Some(p) = &mut x.conflict {
            p.order = ro;
        }
        own_crit(&x.build(&ar))
    };
    let (x, y) = (mk(c.orders.0, c.repl_orders.0), mk(c.orders.1, c.repl_orders.1));
    if x != y {
        r.fail(format!("the same criteria built in another order differ: {x:?} and {y:?}"));
    }
    let want = UniquenessCriteria {
        key: x.key,
        executor: c.crit.executor,
        duration: c.crit.within_ms.map(TimeDelta::milliseconds),
        statuses: x.statuses,
        on_conflict: x.on_conflict.clone(),
    };
    if x != want || x.key.is_some() != c.crit.key.is_some() || is_replace(&x) != c.crit.conflict.is_some() {
        r.fail(format!("built {x:?} from {:?}", c.crit));
    }
    let hash = |k: &KeySpec| match k {
        KeySpec::Int(x) => fxhash::hash64(x),
        KeySpec::Str(x) => fxhash::hash64(x),
        KeySpec::Pair(a, b) => fxhash::hash64(&(a, b)),
    };
    if hash(&c.a) != hash(&c.b) || c.a == c.b {
        let (ka, kb) = (c.a.by().key, c.b.and(UniquenessCriteria::by_executor()).key);
        if (ka == kb) != (c.a == c.b) {
            r.fail(format!("keys {:?} and {:?} hash to {ka:?} and {kb:?}", c.a, c.b));
        }
    }
    r.nontrivial = c.orders.0 != c.orders.1;
    r
}

// ------------------------------------------------------------------ C15: concurrent unique enqueues

#[derive(Serialize, Deserialize, Clone, Debug)]
struct RaceCase {
    threads: usize,
    rounds: usize,
    /// by key / by executor / both
    crit: u8,
    replace: bool,
    prefill: usize,
    work: u32,
}
fn race_case() -> BoxedStrategy<RaceCase> {
    (2usize..6, 60usize..160, 0u8..3, any::<bool>(), 0usize..40, 0u32..200)
        .prop_map(|(threads, rounds, crit, replace, prefill, work)| RaceCase { threads, rounds, crit, replace, prefill, work })
        .boxed()
}
struct Gate(AtomicUsize, usize);
impl Gate {
    fn new(n: usize) -> Self {
        Gate(AtomicUsize::new(0), n)
    }
    /// All threads leave generation `k` together.
    fn wait(&self, k: usize) {
        self.0.fetch_add(1, SeqCst);
        let mut spins = 0u32;
        while self.0.load(SeqCst) < self.1 * (k + 1) {
            spins += 1;
            if spins > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}
fn spin(n: u32) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}
fn plain(ex: &str, data: Value, uq: Option<UniquenessCriteria<'static>>) -> EnqueuableJob<'static> {
    EnqueuableJob { executor: ex.into(), data, metadata: Value::Null, max_attempts: 3, scheduled_at: Utc::now(), tags: vec![], priority: 0, uniqueness_criteria: uq }
}
fn run_race(c: &RaceCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::vclock::reset(EPOCH);
    let b = InMemoryBackend::new();
    for i in 0..c.prefill {
        let _ = futures::executor::block_on(b.enqueue(plain("other", json!(i), None)));
    }
    let gate = Gate::new(c.threads);
    let ids: Vec<Mutex<Vec<i32>>> = (0..c.rounds).map(|_| Mutex::new(vec![])).collect();
    let name = |k: usize| format!("ex{k}");
    std::thread::scope(|s| {
        for t in 0..c.threads {
            let (b, gate, ids) = (b.clone(), &gate, &ids);
            s.spawn(move || {
                for k in 0..c.rounds {
                    let uq = match c.crit {
                        0 => UniquenessCriteria::by_key(&k),
                        1 => UniquenessCriteria::by_executor(),
                        _ => UniquenessCriteria::by_executor().and_key(&k),
                    };
                    let uq = if c.replace { uq.on_conflict(Replace::priority()) } else { uq };
                    let job = plain(&name(k), json!(t), Some(uq));
                    gate.wait(k);
                    spin(c.work * t as u32 / 8);
                    match futures::executor::block_on(b.enqueue(job)) {
                        Ok(id) => ids[k].lock().unwrap().push(id.into()),
                        Err(_) => ids[k].lock().unwrap().push(-1),
                    }
                }
            });
        }
    });
    for k in 0..c.rounds {
        let ids = ids[k].lock().unwrap().clone();
        let n = name(k);
        let stored = futures::executor::block_on(b.query(Query::ExecutorEqual(&n))).unwrap_or_default();
        if stored.len() != 1 || ids.len() != c.threads || ids.iter().any(|i| *i != stored[0].id) {
            r.fail(format!("{} threads enqueued the same unique job at once (criteria {}): {} jobs stored, ids returned {ids:?}", c.threads, c.crit, stored.len()));
            break;
        }
    }
    r.nontrivial = true;
    r
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct DisturbCase {
    rounds: usize,
    others: usize,
    /// what the other threads do: cancel, rerun, retry, complete, update tags, claim
    kinds: Vec<u8>,
    uniques: usize,
    prefill: usize,
}
fn disturb_case() -> BoxedStrategy<DisturbCase> {
    (30usize..80, 1usize..4, vec(0u8..6, 1..4), 1usize..3, 0usize..30)
        .prop_map(|(rounds, others, kinds, uniques, prefill)| DisturbCase { rounds, others, kinds, uniques, prefill })
        .boxed()
}
fn berr(m: String) -> BErr {
    BErr { error_type: rexecutor::job::ErrorType::Other("race".into()), message: m }
}
/// Per round one job; some threads replace its priority through unique enqueues while each of the
/// others performs one operation on it. Every operation's own effect must survive.
fn run_disturb(c: &DisturbCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::vclock::reset(EPOCH);
    let b = InMemoryBackend::new();
    for i in 0..c.prefill {
        let _ = futures::executor::block_on(b.enqueue(plain("other", json!(i), None)));
    }
    const NAMES: &str = "contended";
    let crit = |k: usize| UniquenessCriteria::by_key(&k).and_executor().and_statuses(&JobStatus::ALL).on_conflict(Replace::priority().and_metadata().for_statuses(&JobStatus::ALL));
    let mut ids = vec![];
    for k in 0..c.rounds {
        // far in the future unless it is to be claimed
        let claim = (0..c.others).any(|o| c.kinds[o % c.kinds.len()] == 5);
        let mut j = plain(NAMES, json!(k), Some(crit(k)));
        j.scheduled_at = if claim { Utc::now() - TimeDelta::seconds(1000 - k as i64) } else { Utc::now() + TimeDelta::days(1) };
        match futures::executor::block_on(b.enqueue(j)) {
            Ok(id) => ids.push(id),
            Err(e) => {
                r.fail(format!("enqueue failed: {e:?}"));
                return r;
            }
        }
    }
    let total = c.others + c.uniques;
    let gate = Gate::new(total);
    let claims: Mutex<Vec<i32>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for u in 0..c.uniques {
            let (b, gate, bad, ids) = (b.clone(), &gate, &bad, &ids);
            s.spawn(move || {
                for k in 0..c.rounds {
                    let mut j = plain(NAMES, json!("new"), Some(crit(k)));
                    j.priority = 7;
                    j.metadata = json!("m");
                    gate.wait(k);
                    for _ in 0..2 {
                        spin(u as u32 * 40);
                        match futures::executor::block_on(b.enqueue(j.clone())) {
                            Ok(id) if id == ids[k] => {}
                            other => *bad.lock().unwrap() = Some(format!("a unique enqueue for job {} gave {other:?}", ids[k])),
                        }
                    }
                }
            });
        }
        for o in 0..c.others {
            let kind = c.kinds[o % c.kinds.len()];
            let (b, gate, ids, claims) = (b.clone(), &gate, &ids, &claims);
            s.spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let mut stream = rt.block_on(b.subscribe_ready_jobs(NAMES.into()));
                for k in 0..c.rounds {
                    gate.wait(k);
                    let id = ids[k];
                    spin(o as u32 * 30);
                    rt.block_on(async {
                        match kind {
                            0 => drop(b.mark_job_cancelled(id, berr(format!("{o}"))).await),
                            1 => drop(b.rerun_job(id).await),
                            2 => drop(b.mark_job_retryable(id, Utc::now() + TimeDelta::days(2), berr(format!("{o}"))).await),
                            3 => drop(b.mark_job_discarded(id, berr(format!("{o}"))).await),
                            4 => drop(b.mark_job_complete(id).await),
                            _ => {
                                if let std::task::Poll::Ready(Some(Ok(j))) = futures::poll!(stream.next()) {
                                    claims.lock().unwrap().push(j.id);
                                }
                            }
                        }
                    });
                }
            });
        }
    });
    if let Some(m) = bad.lock().unwrap().take() {
        r.fail(m);
        return r;
    }
    let stored = futures::executor::block_on(b.query(Query::ExecutorEqual(NAMES))).unwrap_or_default();
    if stored.len() != c.rounds {
        r.fail(format!("{} jobs stored, {} were enqueued", stored.len(), c.rounds));
        return r;
    }
    let kinds: Vec<u8> = (0..c.others).map(|o| c.kinds[o % c.kinds.len()]).collect();
    let count = |f: &dyn Fn(u8) -> bool| kinds.iter().filter(|k| f(**k)).count();
    let errs = count(&|k| matches!(k, 0 | 2 | 3));
    let reruns = count(&|k| k == 1);
    let claims = claims.lock().unwrap().clone();
    let only_claims = kinds.iter().all(|k| *k == 5);
    for j in &stored {
        let k = ids.iter().position(|i| *i == j.id).unwrap();
        let mut got: Vec<String> = j.errors.iter().map(|e| e.details.clone()).collect();
        got.sort();
        if j.errors.len() != errs {
            r.fail(format!("{errs} failures were recorded on job {} but its errors are {got:?} (threads {kinds:?})", j.id));
        }
        if j.max_attempts != 3 + reruns as i32 {
            r.fail(format!("{reruns} reruns of job {} left max_attempts {} (threads {kinds:?})", j.id, j.max_attempts));
        }
        if j.priority != 7 || j.metadata != json!("m") || j.data != json!(k) {
            r.fail(format!("replacing priority and metadata of job {} left priority {}, metadata {}, data {}", j.id, j.priority, j.metadata, j.data));
        }
        let times = claims.iter().filter(|i| **i == j.id).count() as i32;
        if j.attempt != times {
            r.fail(format!("job {} was handed out {times} times but has attempt {}", j.id, j.attempt));
        }
        if only_claims && times > 1 {
            r.fail(format!("job {} was handed out {times} times although nobody put it back", j.id));
        }
        if only_claims && times == 1 && j.status != JobStatus::Executing {
            r.fail(format!("job {} was handed out but is {:?}", j.id, j.status));
        }
        // a single other party's status must be the one left
        if let [k] = kinds[..] {
            let want = match k {
                0 => JobStatus::Cancelled,
                1 | 2 => JobStatus::Retryable,
                3 => JobStatus::Discarded,
                4 => JobStatus::Complete,
                _ => j.status,
            };
            if j.status != want {
                r.fail(format!("job {} is {:?} although it was made {want:?}", j.id, j.status));
            }
        }
    }
    r.class_if(kinds.contains(&5), "claims");
    r.class_if(errs > 0, "failures recorded");
    r.nontrivial = true;
    r
}

// ------------------------------------------------------------------ C16, C17: queries, pruning

fn run_query(c: &QueryCase) -> CaseResult {
    filled(&c.rows, async |b, w, base, r| query_on(b, c, w, base, r).await)
}
fn run_prune(c: &PruneCase) -> CaseResult {
    filled(&c.rows, async |b, w, _, r| prune_on(b, c, w, r).await)
}

fn run_life(c: &LifeCase) -> CaseResult {
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let base = base_now();
        life(&b, c, base, MEMORY, Utc::now, vkit::vclock::advance).await
    })
}

/// Independent histories on real threads.
fn run_side(c: &SideCase) -> CaseResult {
    vkit::vclock::reset(EPOCH);
    let b = InMemoryBackend::new();
    let base = base_now();
    let gate = Gate::new(c.lives.len());
    let rs: Vec<CaseResult> = std::thread::scope(|s| {
        let ts: Vec<_> = c
            .lives
            .iter()
            .enumerate()
            .map(|(t, l)| {
                let (b, gate) = (Own(b.clone(), VNAMES[t]), &gate);
                s.spawn(move || {
                    let l = own_life(l, t);
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    gate.wait(0);
                    rt.block_on(life(&b, &l, base, MEMORY, Utc::now, vkit::vclock::advance))
                })
            })
            .collect();
        ts.into_iter()
            .map(|t| {
                t.join().unwrap_or_else(|_| {
                    let mut r = CaseResult::ok();
                    r.fail("a thread panicked");
                    r
                })
            })
            .collect()
    });
    let mut r = CaseResult::ok();
    for (t, x) in rs.into_iter().enumerate() {
        if let Some(v) = x.violation {
            r.fail(format!("history {t} of {} side by side: {v}", c.lives.len()));
            break;
        }
        r.nontrivial |= x.nontrivial;
    }
    r
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct CrowdCase {
    threads: usize,
    each: usize,
    work: u32,
}
fn crowd_case() -> BoxedStrategy<CrowdCase> {
    (2usize..7, 20usize..120, 0u32..100).prop_map(|(threads, each, work)| CrowdCase { threads, each, work }).boxed()
}
/// Plain enqueues from several threads at once.
fn run_crowd(c: &CrowdCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::vclock::reset(EPOCH);
    let b = InMemoryBackend::new();
    let gate = Gate::new(c.threads);
    let got: Mutex<Vec<(i32, usize, usize)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..c.threads {
            let (b, gate, got) = (b.clone(), &gate, &got);
            s.spawn(move || {
                let mut mine = vec![];
                for k in 0..c.each {
                    if k % 4 == 0 {
                        gate.wait(k / 4);
                        spin(c.work * t as u32 / 8);
                    }
                    match futures::executor::block_on(b.enqueue(plain("crowd", json!([t, k]), None))) {
                        Ok(id) => mine.push((i32::from(id), t, k)),
                        Err(_) => mine.push((-1, t, k)),
                    }
                }
                got.lock().unwrap().extend(mine);
            });
        }
    });
    let got = got.into_inner().unwrap();
    let mut stored: std::collections::HashMap<i32, Vec<Value>> = Default::default();
    for j in futures::executor::block_on(b.query(Query::ExecutorEqual("crowd"))).unwrap_or_default() {
        stored.entry(j.id).or_default().push(j.data);
    }
    for (id, t, k) in &got {
        if stored.get(id) != Some(&vec![json!([t, k])]) {
            r.fail(format!("enqueue {k} of thread {t} returned the id {id}, under which {:?} is stored", stored.get(id)));
            return r;
        }
    }
    if stored.len() != c.threads * c.each {
        r.fail(format!("{} jobs are stored after {} enqueues", stored.len(), c.threads * c.each));
    }
    r.nontrivial = true;
    r
}

const MEM: &str = "the reference semantics are right; schedules are at least 100 ms away from window and age limits";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            assumptions: vec![MEM],
            arms: vec![
                Box::new(GenArm { name: "builder", rule: "0-8 builder calls in any order on 6 executors over a recording backend; non-trivial: at least three different methods", quick: 120_000, thorough: 6_000_000, strategy: build_case, run: run_build }),
                Box::new(GenArm { name: "stored", rule: "several jobs built and stored among others after a prune, read back and written unchanged; non-trivial: two or more", quick: 80_000, thorough: 3_000_000, strategy: store_case, run: run_store }),
                Box::new(GenArm { name: "rich", rule: "values of nested types enqueued, executed and queried; non-trivial: metadata or a non-empty list", quick: 16_000, thorough: 600_000, strategy: rich_case, run: run_rich }),
                Box::new(GenArm { name: "threads", rule: "2-6 threads enqueue 20-119 jobs each at the same time; every case is non-trivial", quick: 2_400, thorough: 90_000, strategy: crowd_case, run: run_crowd }),
            ],
        },
        Property {
            id: "C13",
            assumptions: vec![MEM, "cases in which two different keys have the same fxhash are skipped"],
            arms: vec![
                Box::new(GenArm { name: "detect", rule: "1-5 (unique) enqueues against 0-4 stored jobs, half of them aimed at one; non-trivial: a unique enqueue with jobs stored", quick: 200_000, thorough: 8_000_000, strategy: unique_case, run: run_c13 }),
                Box::new(GenArm { name: "criteria", rule: "the same criteria through two orders of builder calls, and two keys; non-trivial: different orders", quick: 100_000, thorough: 4_000_000, strategy: crit_case, run: run_crit }),
            ],
        },
        Property {
            id: "C14",
            assumptions: vec![MEM, "with several matching jobs any one of them may be the conflicting one"],
            arms: vec![Box::new(GenArm { name: "resolve", rule: "1-5 (unique) enqueues against 0-4 stored jobs; non-trivial: at least one conflict", quick: 200_000, thorough: 8_000_000, strategy: unique_case, run: run_c14 })],
        },
        Property {
            id: "C15",
            assumptions: vec!["real threads: interleavings are sampled by the operating system's scheduler"],
            arms: vec![
                Box::new(GenArm { name: "same", rule: "60-160 rounds of 2-5 threads released together enqueueing the same unique job; every case is non-trivial", quick: 1_600, thorough: 60_000, strategy: race_case, run: run_race }),
                Box::new(GenArm { name: "disturb", rule: "30-80 rounds of unique replacements racing with cancels, reruns, outcome recording and claims of the same job; every case is non-trivial", quick: 2_400, thorough: 90_000, strategy: disturb_case, run: run_disturb }),
            ],
        },
        Property {
            id: "C16",
            assumptions: vec![MEM],
            arms: vec![Box::new(GenArm { name: "queries", rule: "1-4 query expressions of depth up to 4 over 1-7 stored jobs, raw and through three executors; non-trivial: some but not all jobs match", quick: 160_000, thorough: 6_000_000, strategy: query_case, run: run_query })],
        },
        Property {
            id: "C17",
            assumptions: vec![MEM, "jobs scheduled at the same instant may be cut either way"],
            arms: vec![Box::new(GenArm { name: "prunes", rule: "1-3 prunes over 0-9 stored jobs; non-trivial: something is removed", quick: 200_000, thorough: 8_000_000, strategy: prune_case, run: run_prune })],
        },
        Property {
            id: "C21",
            assumptions: vec![MEM, "outcomes are recorded on executing jobs only, reruns on jobs not executing"],
            arms: vec![Box::new(GenArm { name: "life-cycle", rule: "histories of 1-23 management and outcome operations; non-trivial: at least two addressed operations", quick: 160_000, thorough: 6_000_000, strategy: life_case, run: run_life }), Box::new(GenArm { name: "threads", rule: "2-3 such histories at the same time on real threads, each on its own executor's jobs; non-trivial: at least two addressed operations", quick: 24_000, thorough: 900_000, strategy: side_case, run: run_side })],
        },
    ]
}
