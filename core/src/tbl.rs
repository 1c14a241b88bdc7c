//! Job tables, query expressions, uniqueness criteria and prune specifications: generators and the
//! reference semantics. Shared by the in-memory and the PostgreSQL checks.
#![allow(dead_code)]
use crate::vals::*;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::{Backend, EnqueuableJob, Job as BJob, Query};
use rexecutor::executor::{ExecutionResult, Executor};
use rexecutor::job::query::Where;
use rexecutor::job::uniqueness_criteria::{Replace, Resolution, UniquenessCriteria};
use rexecutor::job::{ErrorType, Job, JobError, JobId, JobStatus};
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

pub const ST: [JobStatus; 6] = [
    JobStatus::Scheduled,
    JobStatus::Retryable,
    JobStatus::Executing,
    JobStatus::Complete,
    JobStatus::Cancelled,
    JobStatus::Discarded,
];

macro_rules! vex {
    ($($ty:ident $name:literal $max:literal $uq:expr;)*) => {
        $(pub struct $ty;
        #[async_trait]
        impl Executor for $ty {
            type Data = Value;
            type Metadata = Value;
            const NAME: &'static str = $name;
            const MAX_ATTEMPTS: u16 = $max;
            const UNIQUENESS_CRITERIA: Option<UniquenessCriteria<'static>> = $uq;
            async fn execute(_job: Job<Value, Value>) -> ExecutionResult {
                ExecutionResult::Done
            }
        })*
        pub const VNAMES: &[&str] = &[$($name),*];
    };
}
vex! {
    VA "alpha" 5 None;
    VB "beta" 1 None;
    VC "al'pha; --" 9 None;
    VU "unique_by_default" 7 Some(UniquenessCriteria::by_executor().and_statuses(&[JobStatus::Scheduled, JobStatus::Complete]).on_conflict(Replace::priority().and_data()));
}
pub const NV: usize = 3;

#[macro_export]
macro_rules! with_vex {
    ($i:expr, $ty:ident => $body:expr) => {
        match $i % $crate::tbl::NV {
            0 => { type $ty = $crate::tbl::VA; $body }
            1 => { type $ty = $crate::tbl::VB; $body }
            _ => { type $ty = $crate::tbl::VC; $body }
        }
    };
}

// ------------------------------------------------------------------ rows

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum KeySpec {
    Int(u64),
    Str(String),
    Pair(String, u8),
}
impl KeySpec {
    pub fn by<'a>(&self) -> UniquenessCriteria<'a> {
        match self {
            KeySpec::Int(x) => UniquenessCriteria::by_key(x),
            KeySpec::Str(x) => UniquenessCriteria::by_key(x),
            KeySpec::Pair(a, b) => UniquenessCriteria::by_key(&(a, b)),
        }
    }
    pub fn and<'a>(&self, c: UniquenessCriteria<'a>) -> UniquenessCriteria<'a> {
        match self {
            KeySpec::Int(x) => c.and_key(x),
            KeySpec::Str(x) => c.and_key(x),
            KeySpec::Pair(a, b) => c.and_key(&(a, b)),
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Row {
    pub ex: usize,
    pub data: Value,
    pub meta: Value,
    pub tags: Vec<String>,
    pub prio: u16,
    pub max: u16,
    pub attempt: u16,
    pub status: usize,
    /// relative to the start of the case
    pub sched_ms: i64,
    pub key: Option<KeySpec>,
    /// attempt, error type, details, recorded at
    pub errors: Vec<(u16, u8, String, i64)>,
    /// attempted, completed, cancelled, discarded
    pub times: [Option<i64>; 4],
}

/// A stored job and the uniqueness key it was stored with.
#[derive(Clone, Debug, PartialEq)]
pub struct Stored {
    pub job: BJob,
    pub key: Option<KeySpec>,
}

pub fn small_value() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => prop::sample::select(vec![json!(null), json!(1), json!("a"), json!({"k": 1}), json!({"k": 1, "l": [1, 2]}), json!({"k": "1"}), json!([]), json!({}), json!("null"), json!(true)]),
        1 => json_value(),
    ]
    .boxed()
}
pub fn tag_list() -> BoxedStrategy<Vec<String>> {
    vec(prop_oneof![5 => prop::sample::select(vec!["a", "b", "c", "ab", ""]).prop_map(String::from), 1 => text()], 0..4).boxed()
}
pub fn etype(k: u8) -> ErrorType {
    match k % 5 {
        0 => ErrorType::Panic,
        1 => ErrorType::Timeout,
        2 => ErrorType::Cancelled,
        3 => ErrorType::Other("io".into()),
        _ => ErrorType::Other("custom type \u{fc}'\"\\".into()),
    }
}
pub fn sched_ms() -> BoxedStrategy<i64> {
    // a coarse grid (ties and exact hits) well away from "now"
    prop_oneof![
        4 => prop::sample::select(vec![-86_400_000i64, -3_600_000, -60_000, -1000, 1000, 60_000, 3_600_000, 86_400_000]),
        1 => -10_000_000i64..-500,
        1 => 500i64..10_000_000,
    ]
    .boxed()
}
pub fn key_spec() -> BoxedStrategy<KeySpec> {
    prop_oneof![
        4 => prop::sample::select(vec![KeySpec::Int(0), KeySpec::Int(1), KeySpec::Str("a".into()), KeySpec::Str("".into()), KeySpec::Pair("a".into(), 1)]),
        1 => prop_oneof![any::<u64>().prop_map(KeySpec::Int), prop::sample::select(vec![256u64, 65536, 1 << 32, 1 << 63, u64::MAX]).prop_map(KeySpec::Int), "[a-c]{1,3}".prop_map(KeySpec::Str), ("[a-b]{0,2}", 0u8..3).prop_map(|(a, b)| KeySpec::Pair(a, b))],
    ]
    .boxed()
}
pub fn row(keys: bool) -> BoxedStrategy<Row> {
    let key = if keys { prop_oneof![1 => Just(None), 2 => key_spec().prop_map(Some)].boxed() } else { Just(None).boxed() };
    let t = || prop::option::weighted(0.3, -1_000_000i64..1_000_000);
    (
        (0usize..NV, small_value(), small_value(), tag_list()),
        (prop_oneof![0u16..4, any::<u16>()], prop_oneof![1u16..6, any::<u16>()], prop_oneof![3 => 0u16..4, 1 => 0u16..65000], 0usize..6),
        (sched_ms(), key, vec((0u16..5, 0u8..5, text(), -1_000_000i64..0), 0..3), [t(), t(), t(), t()]),
    )
        .prop_map(|((ex, data, meta, tags), (prio, max, attempt, status), (sched_ms, key, errors, times))| Row {
            ex, data, meta, tags, prio, max, attempt, status, sched_ms, key, errors, times,
        })
        .boxed()
}
pub fn at(base: DateTime<Utc>, ms: i64) -> DateTime<Utc> {
    let edge = if ms < 0 { DateTime::<Utc>::MIN_UTC } else { DateTime::<Utc>::MAX_UTC };
    base.checked_add_signed(TimeDelta::milliseconds(ms)).unwrap_or(edge)
}
/// The stored job a row describes.
pub fn job_of(r: &Row, id: i32, inserted: DateTime<Utc>, base: DateTime<Utc>) -> BJob {
    BJob {
        id,
        status: ST[r.status % 6],
        executor: VNAMES[r.ex % NV].into(),
        data: r.data.clone(),
        metadata: r.meta.clone(),
        attempt: r.attempt as i32,
        max_attempts: r.max as i32,
        priority: r.prio as i32,
        tags: r.tags.clone(),
        errors: r
            .errors
            .iter()
            .map(|(a, k, d, t)| JobError { attempt: *a, error_type: etype(*k), details: d.clone(), recorded_at: at(base, *t) })
            .collect(),
        inserted_at: inserted,
        scheduled_at: at(base, r.sched_ms),
        attempted_at: r.times[0].map(|t| at(base, t)),
        completed_at: r.times[1].map(|t| at(base, t)),
        cancelled_at: r.times[2].map(|t| at(base, t)),
        discarded_at: r.times[3].map(|t| at(base, t)),
    }
}
pub async fn table<B: Backend + ?Sized>(b: &B) -> Result<Vec<BJob>, String> {
    let mut v = b.query(Query::Or(vec![Query::StatusEqual(JobStatus::Scheduled), Query::Not(Box::new(Query::StatusEqual(JobStatus::Scheduled)))])).await.map_err(|e| format!("reading all jobs failed: {e:?}"))?;
    v.sort_by_key(|j| j.id);
    Ok(v)
}
/// Stores the rows (enqueue, then update) and returns what must be stored now.
pub async fn fill<B: Backend + ?Sized>(b: &B, rows: &[Row], base: DateTime<Utc>) -> Result<Vec<Stored>, String> {
    let mut out: Vec<Stored> = vec![];
    for r in rows {
        let id = b
            .enqueue(EnqueuableJob {
                executor: VNAMES[r.ex % NV].into(),
                data: r.data.clone(),
                metadata: r.meta.clone(),
                max_attempts: r.max,
                scheduled_at: at(base, r.sched_ms),
                tags: r.tags.clone(),
                priority: r.prio,
                // never matches anything: only the key is of interest
                uniqueness_criteria: r.key.as_ref().map(|k| k.by().and_statuses(&[])),
            })
            .await
            .map_err(|e| format!("enqueue failed: {e:?}"))?;
        let found = b.query(Query::IdEquals(id)).await.map_err(|e| format!("query failed: {e:?}"))?;
        let Some(j) = found.into_iter().next() else { return Err(format!("enqueued job {id} cannot be found")) };
        let job = job_of(r, id.into(), j.inserted_at, base);
        b.update_job(job.clone()).await.map_err(|e| format!("update failed: {e:?}"))?;
        out.push(Stored { job, key: r.key.clone() });
    }
    Ok(out)
}
/// Compares the stored jobs with the expected ones.
pub fn compare(got: &[BJob], want: &[Stored]) -> Option<String> {
    let mut got: Vec<&BJob> = got.iter().collect();
    got.sort_by_key(|j| j.id);
    let mut want: Vec<&BJob> = want.iter().map(|s| &s.job).collect();
    want.sort_by_key(|j| j.id);
    let (gi, wi): (Vec<i32>, Vec<i32>) = (got.iter().map(|j| j.id).collect(), want.iter().map(|j| j.id).collect());
    if gi != wi {
        return Some(format!("stored ids are {gi:?}, expected {wi:?}"));
    }
    for (g, w) in got.iter().zip(&want) {
        if g != w {
            return Some(format!("stored job is {g:?}, expected {w:?}"));
        }
    }
    None
}

// ------------------------------------------------------------------ queries

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Q {
    Not(Box<Q>),
    And(Vec<Q>),
    Or(Vec<Q>),
    Ex(usize),
    Data(Value),
    Meta(Value),
    /// index into the stored jobs, or beyond: unknown id
    Id(usize),
    IdIn(Vec<usize>),
    Status(usize),
    TagsAll(Vec<String>),
    TagsOne(Vec<String>),
    Before(i64),
    After(i64),
    At(i64),
    /// scheduled longer ago than / less long ago than
    Older(i64),
    Last(i64),
}
impl Q {
    pub fn size(&self) -> usize {
        match self {
            Q::Not(q) => 1 + q.size(),
            Q::And(v) | Q::Or(v) => 1 + v.iter().map(Q::size).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Q::Not(q) => 1 + q.depth(),
            Q::And(v) | Q::Or(v) => 1 + v.iter().map(Q::depth).max().unwrap_or(0),
            _ => 0,
        }
    }
}
pub fn id_at(ids: &[i32], k: usize) -> i32 {
    ids.get(k).copied().unwrap_or(1_000_000 + k as i32)
}
pub fn eval(q: &Q, j: &BJob, ids: &[i32], base: DateTime<Utc>) -> bool {
    match q {
        Q::Not(q) => !eval(q, j, ids, base),
        Q::And(v) => v.iter().all(|q| eval(q, j, ids, base)),
        Q::Or(v) => v.iter().any(|q| eval(q, j, ids, base)),
        Q::Ex(e) => j.executor == VNAMES[*e % NV],
        Q::Data(d) => j.data == *d,
        Q::Meta(d) => j.metadata == *d,
        Q::Id(k) => j.id == id_at(ids, *k),
        Q::IdIn(v) => v.iter().any(|k| j.id == id_at(ids, *k)),
        Q::Status(s) => j.status == ST[*s % 6],
        Q::TagsAll(t) => t.iter().all(|x| j.tags.contains(x)),
        Q::TagsOne(t) => t.iter().any(|x| j.tags.contains(x)),
        Q::Before(t) => j.scheduled_at < at(base, *t),
        Q::After(t) => j.scheduled_at > at(base, *t),
        Q::At(t) => j.scheduled_at == at(base, *t),
        Q::Older(d) => j.scheduled_at < at(base, -d),
        Q::Last(d) => j.scheduled_at > at(base, -d),
    }
}
/// Owns what query values borrow.
#[derive(Default)]
pub struct Arena {
    ids: std::cell::RefCell<Vec<Box<[JobId]>>>,
    tags: std::cell::RefCell<Vec<(Vec<Box<str>>, Box<[&'static str]>)>>,
}
impl Arena {
    fn ids<'a>(&'a self, v: Vec<JobId>) -> &'a [JobId] {
        let b: Box<[JobId]> = v.into();
        // the box is kept, unmoved, as long as the arena
        let p: &'a [JobId] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
        self.ids.borrow_mut().push(b);
        p
    }
    fn tags<'a>(&'a self, v: &[String]) -> &'a [&'a str] {
        let owned: Vec<Box<str>> = v.iter().map(|s| s.clone().into_boxed_str()).collect();
        let refs: Box<[&'static str]> = owned.iter().map(|s| unsafe { &*(s.as_ref() as *const str) }).collect();
        let p: &'a [&'a str] = unsafe { std::slice::from_raw_parts(refs.as_ptr() as *const &'a str, refs.len()) };
        self.tags.borrow_mut().push((owned, refs));
        p
    }
}
/// The backend-level query.
pub fn raw<'a>(q: &'a Q, ids: &[i32], base: DateTime<Utc>, ar: &'a Arena) -> Query<'a> {
    match q {
        Q::Not(q) => Query::Not(Box::new(raw(q, ids, base, ar))),
        Q::And(v) => Query::And(v.iter().map(|q| raw(q, ids, base, ar)).collect()),
        Q::Or(v) => Query::Or(v.iter().map(|q| raw(q, ids, base, ar)).collect()),
        Q::Ex(e) => Query::ExecutorEqual(VNAMES[*e % NV]),
        Q::Data(d) => Query::DataEquals(d.clone()),
        Q::Meta(d) => Query::MetadataEquals(d.clone()),
        Q::Id(k) => Query::IdEquals(id_at(ids, *k).into()),
        Q::IdIn(v) => Query::IdIn(ar.ids(v.iter().map(|k| id_at(ids, *k).into()).collect())),
        Q::Status(s) => Query::StatusEqual(ST[*s % 6]),
        Q::TagsAll(t) => Query::TagsAllOf(ar.tags(t)),
        Q::TagsOne(t) => Query::TagsOneOf(ar.tags(t)),
        Q::Before(t) => Query::ScheduledAtBefore(at(base, *t)),
        Q::After(t) => Query::ScheduledAtAfter(at(base, *t)),
        Q::At(t) => Query::ScheduledAtEqual(at(base, *t)),
        Q::Older(d) => Query::ScheduledAtBefore(at(base, -d)),
        Q::Last(d) => Query::ScheduledAtAfter(at(base, -d)),
    }
}
/// The typed query; lists are chained with and/or (or is tried from both ends by `flip`).
pub fn typed<'a>(q: &'a Q, ids: &[i32], base: DateTime<Utc>, ar: &'a Arena) -> Where<'a, Value, Value> {
    match q {
        Q::Not(q) => !typed(q, ids, base, ar),
        Q::And(v) => match v.split_first() {
            None => Where::tagged_by_all_of(&[]),
            Some((h, t)) => t.iter().fold(typed(h, ids, base, ar), |a, q| a.and(typed(q, ids, base, ar))),
        },
        Q::Or(v) => match v.split_first() {
            None => Where::tagged_by_one_of(&[]),
            Some((h, t)) => t.iter().fold(typed(h, ids, base, ar), |a, q| a.or(typed(q, ids, base, ar))),
        },
        // not expressible through the typed interface
        Q::Ex(_) => Where::tagged_by_all_of(&[]),
        Q::Data(d) => Where::data_equals(d),
        Q::Meta(d) => Where::metadata_equals(d),
        Q::Id(k) => Where::id_equals(id_at(ids, *k).into()),
        Q::IdIn(v) => Where::id_in(ar.ids(v.iter().map(|k| id_at(ids, *k).into()).collect())),
        Q::Status(s) => Where::status_equals(ST[*s % 6]),
        Q::TagsAll(t) => Where::tagged_by_all_of(ar.tags(t)),
        Q::TagsOne(t) => Where::tagged_by_one_of(ar.tags(t)),
        Q::Before(t) => Where::scheduled_at_before(at(base, *t)),
        Q::After(t) => Where::scheduled_at_after(at(base, *t)),
        Q::At(t) => Where::scheduled_at_equals(at(base, *t)),
        Q::Older(d) => Where::scheduled_at_older_than(TimeDelta::milliseconds(*d)),
        Q::Last(d) => Where::scheduled_at_within_the_last(TimeDelta::milliseconds(*d)),
    }
}
/// `typed` turns executor tests into "true"; the reference has to do the same.
pub fn strip_ex(q: &Q) -> Q {
    match q {
        Q::Not(q) => Q::Not(Box::new(strip_ex(q))),
        Q::And(v) => Q::And(v.iter().map(strip_ex).collect()),
        Q::Or(v) => Q::Or(v.iter().map(strip_ex).collect()),
        Q::Ex(_) => Q::TagsAll(vec![]),
        q => q.clone(),
    }
}
pub fn query() -> BoxedStrategy<Q> {
    let leaf = prop_oneof![
        2 => (0usize..NV).prop_map(Q::Ex),
        2 => small_value().prop_map(Q::Data),
        2 => small_value().prop_map(Q::Meta),
        1 => (0usize..8).prop_map(Q::Id),
        2 => vec(0usize..8, 0..4).prop_map(Q::IdIn),
        3 => (0usize..6).prop_map(Q::Status),
        2 => tag_list().prop_map(Q::TagsAll),
        2 => tag_list().prop_map(Q::TagsOne),
        1 => sched_ms().prop_map(Q::Before),
        1 => sched_ms().prop_map(Q::After),
        1 => sched_ms().prop_map(Q::At),
        1 => window().prop_map(Q::Older),
        1 => window().prop_map(Q::Last),
    ];
    leaf.prop_recursive(4, 14, 3, |inner| {
        prop_oneof![
            1 => inner.clone().prop_map(|q| Q::Not(Box::new(q))),
            2 => vec(inner.clone(), 0..4).prop_map(Q::And),
            2 => vec(inner, 0..4).prop_map(Q::Or),
        ]
    })
    .boxed()
}

// ------------------------------------------------------------------ uniqueness

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Crit {
    pub key: Option<KeySpec>,
    pub executor: bool,
    pub within_ms: Option<i64>,
    /// None: not chosen (default: scheduled only)
    pub statuses: Option<Vec<usize>>,
    pub conflict: Option<Repl>,
    /// order of the builder calls
    pub order: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Repl {
    /// scheduled_at, data, metadata, priority, max_attempts
    pub fields: [bool; 5],
    pub statuses: Option<Vec<usize>>,
    pub order: u8,
}
pub fn status_set() -> BoxedStrategy<Vec<usize>> {
    prop::sample::subsequence((0usize..6).collect::<Vec<_>>(), 0..=6).boxed()
}
pub fn window() -> BoxedStrategy<i64> {
    // at least 300 ms away from every generated schedule offset
    prop_oneof![
        8 => prop::sample::select(vec![0i64, 400, 30_000, 600_000, 7_200_000, 864_000_000]),
        // before what PostgreSQL, and before what chrono, can represent
        1 => prop::sample::select(vec![6_307_200_000_000_000i64, i64::MAX]),
    ]
    .boxed()
}
pub fn crit() -> BoxedStrategy<Crit> {
    let repl = ([any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()], prop::option::of(status_set()), 0u8..120).prop_map(|(mut fields, statuses, order)| {
        if fields.iter().all(|f| !f) {
            fields[order as usize % 5] = true;
        }
        Repl { fields, statuses, order }
    });
    (
        prop::option::weighted(0.6, key_spec()),
        any::<bool>(),
        prop::option::weighted(0.3, window()),
        prop::option::of(status_set()),
        prop::option::of(repl),
        0u8..24,
    )
        .prop_map(|(key, executor, within_ms, statuses, conflict, order)| Crit { key, executor, within_ms, statuses, conflict, order })
        .boxed()
}
fn statuses_of(v: &[usize], ar: &StatusArena) -> &'static [JobStatus] {
    let b: Box<[JobStatus]> = v.iter().map(|s| ST[s % 6]).collect();
    let p: &'static [JobStatus] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
    ar.0.borrow_mut().push(b);
    p
}
#[derive(Default)]
pub struct StatusArena(std::cell::RefCell<Vec<Box<[JobStatus]>>>);

fn permutation(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = k % left.len();
        k /= left.len();
        out.push(left.remove(i));
    }
    out
}
impl Repl {
    pub fn build<'a>(&self, ar: &'a StatusArena) -> Replace<'a> {
        let mut r: Option<Replace<'a>> = None;
        for i in permutation(5, self.order as usize) {
            if !self.fields[i] {
                continue;
            }
            r = Some(match (r, i) {
                (None, 0) => Replace::scheduled_at(),
                (None, 1) => Replace::data(),
                (None, 2) => Replace::metadata(),
                (None, 3) => Replace::priority(),
                (None, _) => Replace::max_attempts(),
                (Some(r), 0) => r.and_scheduled_at(),
                (Some(r), 1) => r.and_data(),
                (Some(r), 2) => r.and_metadata(),
                (Some(r), 3) => r.and_priority(),
                (Some(r), _) => r.and_max_attempts(),
            });
        }
        let r = r.unwrap_or_default();
        match &self.statuses {
            Some(s) => r.for_statuses(statuses_of(s, ar)),
            None => r,
        }
    }
    pub fn allows(&self, s: JobStatus) -> bool {
        match &self.statuses {
            Some(v) => v.iter().any(|x| ST[x % 6] == s),
            None => s == JobStatus::Scheduled,
        }
    }
}
impl Crit {
    /// Through the builder methods, in some order.
    pub fn build<'a>(&self, ar: &'a StatusArena) -> UniquenessCriteria<'a> {
        let mut c: Option<UniquenessCriteria<'a>> = None;
        let default: Vec<usize> = vec![0];
        let none_chosen = self.key.is_none() && !self.executor && self.within_ms.is_none() && self.statuses.is_none();
        for i in permutation(4, self.order as usize) {
            c = match i {
                0 => match (&self.key, c) {
                    (None, c) => c,
                    (Some(k), None) => Some(k.by()),
                    (Some(k), Some(c)) => Some(k.and(c)),
                },
                1 => match (self.executor, c) {
                    (false, c) => c,
                    (true, None) => Some(UniquenessCriteria::by_executor()),
                    (true, Some(c)) => Some(c.and_executor()),
                },
                2 => match (self.within_ms, c) {
                    (None, c) => c,
                    (Some(d), None) => Some(UniquenessCriteria::within(TimeDelta::milliseconds(d))),
                    (Some(d), Some(c)) => Some(c.and_within(TimeDelta::milliseconds(d))),
                },
                _ => match (if none_chosen { Some(&default) } else { self.statuses.as_ref() }, c) {
                    (None, c) => c,
                    (Some(s), None) => Some(UniquenessCriteria::by_statuses(statuses_of(s, ar))),
                    (Some(s), Some(c)) => Some(c.and_statuses(statuses_of(s, ar))),
                },
            };
        }
        let c = c.unwrap();
        match &self.conflict {
            None if self.order % 2 == 0 => c.on_conflict_do_nothing(),
            None => c,
            Some(r) => c.on_conflict(r.build(ar)),
        }
    }
    /// Does a stored job satisfy every chosen criterion? `centre`: middle of the time window.
    pub fn matches(&self, s: &Stored, new_ex: &str, centre: DateTime<Utc>, inclusive: bool) -> bool {
        self.key.as_ref().is_none_or(|k| s.key.as_ref() == Some(k))
            && (!self.executor || s.job.executor == new_ex)
            && match &self.statuses {
                Some(v) => v.iter().any(|x| ST[x % 6] == s.job.status),
                None => s.job.status == JobStatus::Scheduled,
            }
            && self.within_ms.is_none_or(|d| {
                let (off, d) = ((s.job.scheduled_at - centre).abs(), TimeDelta::milliseconds(d));
                off < d || inclusive && off == d
            })
    }
}
/// A job to be enqueued.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct NewJob {
    pub ex: usize,
    pub data: Value,
    pub meta: Value,
    pub tags: Vec<String>,
    pub prio: u16,
    pub max: u16,
    pub sched_ms: i64,
    pub crit: Option<Crit>,
}
pub fn new_job(unique: BoxedStrategy<Option<Crit>>) -> BoxedStrategy<NewJob> {
    (0usize..NV, small_value(), small_value(), tag_list(), any::<u16>(), any::<u16>(), sched_ms(), unique)
        .prop_map(|(ex, data, meta, tags, prio, max, sched_ms, crit)| NewJob { ex, data, meta, tags, prio, max, sched_ms, crit })
        .boxed()
}
impl NewJob {
    pub fn enqueuable<'a>(&self, base: DateTime<Utc>, ar: &'a StatusArena) -> EnqueuableJob<'a> {
        EnqueuableJob {
            executor: VNAMES[self.ex % NV].into(),
            data: self.data.clone(),
            metadata: self.meta.clone(),
            max_attempts: self.max,
            scheduled_at: at(base, self.sched_ms),
            tags: self.tags.clone(),
            priority: self.prio,
            uniqueness_criteria: self.crit.as_ref().map(|c| c.build(ar)),
        }
    }
    /// As it must be stored.
    pub fn stored(&self, id: i32, inserted_at: DateTime<Utc>, base: DateTime<Utc>) -> Stored {
        Stored {
            job: BJob {
                id,
                status: JobStatus::Scheduled,
                executor: VNAMES[self.ex % NV].into(),
                data: self.data.clone(),
                metadata: self.meta.clone(),
                attempt: 0,
                max_attempts: self.max as i32,
                priority: self.prio as i32,
                tags: self.tags.clone(),
                errors: vec![],
                inserted_at,
                scheduled_at: at(base, self.sched_ms),
                attempted_at: None,
                completed_at: None,
                cancelled_at: None,
                discarded_at: None,
            },
            key: self.crit.as_ref().and_then(|c| c.key.clone()),
        }
    }
    /// What a conflict with `s` leaves behind.
    pub fn resolve(&self, s: &mut Stored, base: DateTime<Utc>) -> bool {
        let Some(r) = self.crit.as_ref().and_then(|c| c.conflict.as_ref()) else { return false };
        if !r.allows(s.job.status) {
            return false;
        }
        if r.fields[0] {
            s.job.scheduled_at = at(base, self.sched_ms);
        }
        if r.fields[1] {
            s.job.data = self.data.clone();
        }
        if r.fields[2] {
            s.job.metadata = self.meta.clone();
        }
        if r.fields[3] {
            s.job.priority = self.prio as i32;
        }
        if r.fields[4] {
            s.job.max_attempts = self.max as i32;
        }
        true
    }
}
pub fn is_replace(c: &UniquenessCriteria<'_>) -> bool {
    matches!(c.on_conflict, Resolution::Replace(_))
}

// ------------------------------------------------------------------ pruning

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PruneReq {
    pub age_ms: Option<i64>,
    pub length: u32,
    /// index into the finished, then the other statuses
    pub status: usize,
    /// None: all
    pub only: Option<bool>,
    pub exs: Vec<usize>,
    /// go through the Pruner builders instead of the plain struct
    pub builder: bool,
}
pub fn prune_req() -> BoxedStrategy<PruneReq> {
    let age = prop_oneof![3 => prop::sample::select(vec![0i64, 400, 30_000, 600_000, 7_200_000, 864_000_000]), 1 => prop::sample::select(vec![6_307_200_000_000_000i64, i64::MAX])];
    (prop::option::of(age), prop_oneof![4 => 0u32..5, 1 => Just(u32::MAX)], 0usize..3, prop::option::of(any::<bool>()), vec(0usize..NV, 1..3), any::<bool>())
        .prop_map(|(age_ms, length, status, only, exs, builder)| PruneReq { age_ms, length, status, only, exs, builder })
        .boxed()
}
/// Sometimes about a status of jobs that are not finished.
pub fn any_prune_req() -> BoxedStrategy<PruneReq> {
    (prune_req(), prop_oneof![5 => Just(0usize), 1 => Just(3usize)])
        .prop_map(|(mut p, more)| {
            p.status += more;
            p
        })
        .boxed()
}
pub const UNFINISHED: [JobStatus; 3] = [JobStatus::Scheduled, JobStatus::Retryable, JobStatus::Executing];
pub const FINISHED: [JobStatus; 3] = [JobStatus::Complete, JobStatus::Cancelled, JobStatus::Discarded];
impl PruneReq {
    pub fn status(&self) -> JobStatus {
        if self.status < 3 { FINISHED[self.status] } else { UNFINISHED[self.status % 3] }
    }
    pub fn spec(&self) -> PruneSpec {
        use rexecutor::pruner::Pruner;
        let status = self.status();
        if self.builder {
            let p = match self.age_ms {
                Some(a) => Pruner::max_age(TimeDelta::milliseconds(a), status),
                None => Pruner::max_length(self.length, status),
            };
            return match self.only {
                None => p.into(),
                Some(true) => {
                    let mut q = with_vex!(self.exs[0], E => p.only::<E>());
                    for e in &self.exs[1..] {
                        q = with_vex!(*e, E => q.and::<E>());
                    }
                    q.into()
                }
                Some(false) => {
                    let mut q = with_vex!(self.exs[0], E => p.except::<E>());
                    for e in &self.exs[1..] {
                        q = with_vex!(*e, E => q.and::<E>());
                    }
                    q.into()
                }
            };
        }
        let names: Vec<&'static str> = self.exs.iter().map(|e| VNAMES[e % NV]).collect();
        PruneSpec {
            status,
            prune_by: match self.age_ms {
                Some(a) => PruneBy::MaxAge(TimeDelta::milliseconds(a)),
                None => PruneBy::MaxLength(self.length),
            },
            executors: match self.only {
                None => Spec::Except(vec![]),
                Some(true) => Spec::Only(names),
                Some(false) => Spec::Except(names),
            },
        }
    }
    pub fn covers(&self, j: &BJob) -> bool {
        let listed = self.exs.iter().any(|e| VNAMES[e % NV] == j.executor);
        j.status == self.status()
            && match self.only {
                None => true,
                Some(true) => listed,
                Some(false) => !listed,
            }
    }
    /// Checks what is left; ties at the cut may be broken either way.
    pub fn check(&self, before: &[Stored], after: &[BJob], now: DateTime<Utc>) -> Option<String> {
        let left: Vec<i32> = after.iter().map(|j| j.id).collect();
        for j in after {
            match before.iter().find(|s| s.job.id == j.id) {
                None => return Some(format!("job {} appeared", j.id)),
                Some(s) if s.job != *j => return Some(format!("job {} was altered: {j:?}, was {:?}", j.id, s.job)),
                _ => {}
            }
        }
        if left.len() != after.iter().map(|j| j.id).collect::<std::collections::HashSet<_>>().len() {
            return Some("a job is stored twice".into());
        }
        for s in before.iter().filter(|s| !self.covers(&s.job)) {
            if !left.contains(&s.job.id) {
                return Some(format!("job {} ({:?}, {}) is not covered but was removed", s.job.id, s.job.status, s.job.executor));
            }
        }
        let covered: Vec<&BJob> = before.iter().map(|s| &s.job).filter(|j| self.covers(j)).collect();
        match self.age_ms {
            // what the age of a job that is not finished is is not claimed
            Some(_) if self.status >= 3 => {}
            Some(a) => {
                let cut = now.checked_sub_signed(TimeDelta::milliseconds(a));
                for j in covered {
                    let old = cut.is_some_and(|c| j.scheduled_at < c);
                    if old == left.contains(&j.id) {
                        return Some(format!("job {} scheduled at {} (now {now}, maximum age {a} ms) was {}", j.id, j.scheduled_at, if old { "kept" } else { "removed" }));
                    }
                }
            }
            None => {
                let kept: Vec<&&BJob> = covered.iter().filter(|j| left.contains(&j.id)).collect();
                let want = covered.len().min(self.length as usize);
                if kept.len() != want {
                    return Some(format!("{} of {} covered jobs were kept, maximum length {}", kept.len(), covered.len(), self.length));
                }
                for j in covered.iter().filter(|j| self.status < 3 && !left.contains(&j.id)) {
                    if let Some(k) = kept.iter().find(|k| k.scheduled_at < j.scheduled_at) {
                        return Some(format!("job {} scheduled at {} was removed although the older job {} ({}) was kept", j.id, j.scheduled_at, k.id, k.scheduled_at));
                    }
                }
            }
        }
        None
    }
}
