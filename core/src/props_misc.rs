//! C20 (backoff), C22 (global backend), C28 (backends behind pointers), C29 (assert_enqueued!).
use crate::props_table::own_job;
use crate::scen::EPOCH;
use crate::tbl::*;
use crate::vals::*;
use crate::with_vex;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{FutureExt, Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Job as BJob, Query};
use rexecutor::backoff::{BackoffStrategy, Jitter, Strategy as Backoff};
use rexecutor::executor::{Executor, ExecutorIdentifier};
use rexecutor::job::{Job, JobId};
use rexecutor::pruner::PruneSpec;
use rexecutor::{Rexecutor, RexecutorError, assert_enqueued};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use vkit::{CaseResult, GenArm, Property};

// ------------------------------------------------------------------ C20

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Delta(i64, u32);
impl Delta {
    fn td(&self) -> TimeDelta {
        TimeDelta::new(self.0, self.1).unwrap_or(TimeDelta::MAX)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Jit {
    Abs(Delta),
    Rel(f64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct BackCase {
    kind: u8,
    base: Delta,
    power: u32,
    max: Option<Delta>,
    jitter: Option<Jit>,
    min: Option<Delta>,
    attempts: Vec<u16>,
    /// order of with_max / with_jitter / with_min
    order: u8,
}
const NS: i128 = 1_000_000_000;
fn nanos(t: TimeDelta) -> i128 {
    t.num_seconds() as i128 * NS + t.subsec_nanos() as i128
}
fn delta() -> BoxedStrategy<Delta> {
    let n = prop_oneof![3 => Just(0u32), 1 => prop::sample::select(vec![1u32, 999, 1_000_000, 500_000_000, 999_999_999]), 1 => 0u32..1_000_000_000];
    let s = prop_oneof![
        3 => 0i64..10,
        2 => 0i64..100_000,
        1 => 0i64..10_000_000_000_000,
        1 => prop::sample::select(vec![i64::MAX / 1000, i64::MAX / 1000 - 1, i64::MAX / 2000, 1 << 31, 1 << 40]),
    ];
    (s, n).prop_map(|(s, n)| Delta(s, n)).boxed()
}
fn attempt() -> BoxedStrategy<u16> {
    prop_oneof![4 => 0u16..12, 2 => 0u16..70, 1 => any::<u16>(), 1 => Just(u16::MAX)].boxed()
}
fn back_case() -> BoxedStrategy<BackCase> {
    let rel = prop_oneof![
        4 => 0.0f64..1.0,
        1 => prop::sample::select(vec![0.0f64, 0.1, 1.0, 2.5, -0.3, 1e300, 1e-12]),
    ];
    let jit = prop_oneof![delta().prop_map(Jit::Abs), (0i64..20_000).prop_map(|m| Jit::Abs(Delta(m / 1000, (m % 1000) as u32 * 1_000_000))), rel.prop_map(Jit::Rel)];
    (0u8..4, delta(), prop_oneof![3 => 0u32..5, 1 => 0u32..40, 1 => any::<u32>()], prop::option::of(delta()), prop::option::of(jit), prop::option::of(delta()), vec(attempt(), 1..5), 0u8..6)
        .prop_map(|(kind, base, power, max, jitter, min, attempts, order)| BackCase { kind, base, power, max, jitter, min, attempts, order })
        .boxed()
}
fn jit(j: &Jit) -> Jitter {
    match j {
        Jit::Abs(d) => Jitter::Absolute(d.td()),
        Jit::Rel(f) => Jitter::Relative(*f),
    }
}
fn backoffs(c: &BackCase, draws: usize) -> Vec<Vec<TimeDelta>> {
    macro_rules! fin {
        ($s:expr, capped) => {{
            let mut s = $s;
            // the configuration methods, in some order
            for i in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][c.order as usize % 6] {
                s = match i {
                    0 => match &c.max { Some(m) => s.with_max(m.td()), None => s },
                    1 => match &c.jitter { Some(j) => s.with_jitter(jit(j)), None => s },
                    _ => match &c.min { Some(m) => s.with_min(m.td()), None => s },
                };
            }
            c.attempts.iter().map(|a| (0..draws).map(|_| s.backoff(*a)).collect()).collect()
        }};
        ($s:expr) => {{
            let mut s = $s;
            if let Some(j) = &c.jitter {
                s = s.with_jitter(jit(j));
            }
            if let Some(m) = &c.min {
                s = s.with_min(m.td());
            }
            c.attempts.iter().map(|a| (0..draws).map(|_| s.backoff(*a)).collect()).collect()
        }};
    }
    match c.kind {
        0 => fin!(BackoffStrategy::constant(c.base.td())),
        1 => fin!(BackoffStrategy::linear(c.base.td()), capped),
        2 => fin!(BackoffStrategy::polynomial(c.base.td(), c.power), capped),
        _ => fin!(BackoffStrategy::exponential(c.base.td()), capped),
    }
}
/// Lowest and highest acceptable undisturbed value, in ns.
fn formula(c: &BackCase, attempt: u16) -> (i128, i128) {
    let top = nanos(TimeDelta::MAX);
    let a = attempt as i128;
    let b = nanos(c.base.td());
    let (lo, hi) = match c.kind {
        0 => return (b, b),
        1 => (b * a, b * a),
        2 => {
            // the factor saturates beyond i64
            let p = i64::from(attempt).checked_pow(c.power);
            match p {
                Some(p) => (b.saturating_mul(p as i128), b.saturating_mul(p as i128)),
                None => (b.saturating_mul(i64::MAX as i128).min(top), i128::MAX),
            }
        }
        _ => {
            // whole seconds
            let s = (b / NS) as i64;
            match s.checked_pow(attempt.into()) {
                Some(p) => (p as i128 * NS, p as i128 * NS),
                None => (top / NS * NS, i128::MAX),
            }
        }
    };
    let (lo, hi) = (lo.min(top), hi.min(top));
    match &c.max {
        None => (lo, hi),
        Some(m) => {
            let m = nanos(m.td());
            let floor = if c.kind == 3 { m / NS * NS } else { m };
            (lo.min(floor), hi.min(m))
        }
    }
}
fn jitter_of(c: &BackCase, value: i128) -> i128 {
    match &c.jitter {
        None => 0,
        Some(Jit::Abs(d)) => nanos(d.td()),
        Some(Jit::Rel(r)) => {
            let ms = (value / 1_000_000) as f64 * r.abs();
            // rounding of the product, and of the value to milliseconds
            let ms = ms * (1.0 + 1e-12) + 1.0;
            if ms >= 9.3e18 { i128::MAX / 4 } else { ms as i128 * 1_000_000 }
        }
    }
}
fn run_back(c: &BackCase) -> CaseResult {
    let mut r = CaseResult::ok();
    let (bottom, top) = (nanos(TimeDelta::MIN), nanos(TimeDelta::MAX));
    let min = c.min.as_ref().map_or(0, |m| nanos(m.td()));
    for (a, draws) in c.attempts.iter().zip(backoffs(c, 3)) {
        let (lo, hi) = formula(c, *a);
        let j = jitter_of(c, hi);
        for d in draws {
            let d = nanos(d);
            let (l, h) = ((lo - j).max(bottom).max(min), hi.saturating_add(j).min(top).max(min));
            if d < l || d > h {
                r.fail(format!("attempt {a} gives {d} ns; the formula gives {lo}..{hi} ns, jitter {j} ns, minimum {min} ns"));
            }
            r.class_if(d == min && c.min.is_some(), "at the minimum");
        }
        r.class_if(hi >= top, "saturated");
        r.class_if(c.max.as_ref().is_some_and(|m| nanos(m.td()) == hi), "at the maximum");
    }
    r.class_if(c.jitter.is_some(), "jitter");
    r.nontrivial = c.attempts.iter().any(|a| *a > 0) && (c.base.0, c.base.1) != (0, 0);
    r
}
/// Jitter spreads over its range, in both directions.
fn spread_case() -> BoxedStrategy<BackCase> {
    let jit = prop_oneof![(2i64..5_000).prop_map(|s| Jit::Abs(Delta(s, 0))), (0.05f64..1.0).prop_map(Jit::Rel)];
    (0u8..4, 6_000i64..100_000, jit, prop::option::of(6_000i64..20_000), 1u16..4)
        .prop_map(|(kind, s, jitter, max, a)| BackCase {
            kind,
            base: Delta(if kind == 3 { 20 + s / 1000 } else { s }, 0),
            power: 2,
            max: max.map(|m| Delta(m, 0)),
            jitter: Some(jitter),
            min: None,
            attempts: vec![if kind == 3 { a + 2 } else { a }],
            order: 0,
        })
        .boxed()
}
fn run_spread(c: &BackCase) -> CaseResult {
    let mut r = CaseResult::ok();
    let (lo, hi) = formula(c, c.attempts[0]);
    if lo != hi {
        return r;
    }
    let ratio = match &c.jitter {
        Some(Jit::Rel(x)) => (hi / 1_000_000) as f64 * x,
        Some(Jit::Abs(d)) => d.0 as f64 * 1000.0,
        None => 0.0,
    } as i128
        * 1_000_000;
    let draws: Vec<i128> = backoffs(c, 250).remove(0).into_iter().map(|d| nanos(d) - hi).collect();
    let (low, high) = (*draws.iter().min().unwrap(), *draws.iter().max().unwrap());
    let mut d = draws.clone();
    d.sort();
    d.dedup();
    // 250 draws: missing a quarter of the range has probability 6e-32
    if low > -ratio / 2 || high < ratio / 2 || d.len() < 20 {
        r.fail(format!("250 draws with a jitter of {ratio} ns only ranged over {low}..{high} ns ({} different values)", d.len()));
    }
    // a jitter that reaches its ends only with wild luck is not spread over its range
    if high < ratio * 9 / 10 || low > -ratio * 9 / 10 {
        r.class("ends of the range not reached");
        if high < ratio * 3 / 4 || low > -ratio * 3 / 4 {
            r.fail(format!("250 draws with a jitter of {ratio} ns only ranged over {low}..{high} ns"));
        }
    }
    r.nontrivial = true;
    r
}

// ------------------------------------------------------------------ C22

#[derive(Serialize, Deserialize, Clone, Debug)]
enum GOp {
    /// set the global backend to this one
    Set(usize),
    /// several threads set their own backend at once
    Race(usize),
    Enqueue(NewJob),
    Cancel(usize, String),
    Rerun(usize),
    Update(usize, Row),
    Query(usize, Q),
    /// (stated number or none, data)
    Assert(Option<u8>, Value),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct GlobalCase {
    ops: Vec<GOp>,
}
fn global_case() -> BoxedStrategy<GlobalCase> {
    let op = || {
        prop_oneof![
            4 => new_job(Just(None).boxed()).prop_map(GOp::Enqueue),
            1 => (0usize..4, text()).prop_map(|(a, b)| GOp::Cancel(a, b)),
            1 => (0usize..4).prop_map(GOp::Rerun),
            1 => (0usize..4, row(false)).prop_map(|(a, b)| GOp::Update(a, b)),
            1 => (0usize..NV, query()).prop_map(|(a, b)| GOp::Query(a, b)),
            1 => (prop::option::of(0u8..3), small_value()).prop_map(|(a, b)| GOp::Assert(a, b)),
        ]
    };
    let set = || prop_oneof![2 => (0usize..3).prop_map(GOp::Set), 1 => (2usize..5).prop_map(GOp::Race)];
    (vec(op(), 0..4), prop::option::weighted(0.9, set()), vec(prop_oneof![6 => op(), 1 => set()], 0..8))
        .prop_map(|(mut ops, set, rest)| {
            if let Some(s) = set {
                ops.push(s);
                ops.extend(rest);
            }
            GlobalCase { ops }
        })
        .boxed()
}
fn run_global(c: &GlobalCase) -> CaseResult {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .arg(serde_json::to_string(c).unwrap())
        .output()
        .expect("spawn child");
    let text = String::from_utf8_lossy(&out.stdout);
    let line = text.lines().find_map(|l| l.strip_prefix("\u{1}CHILD ")).unwrap_or_else(|| panic!("child ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    let v: Value = serde_json::from_str(line).unwrap();
    let mut r = CaseResult::ok();
    if let Some(e) = v["harness"].as_str() {
        panic!("child: {e}");
    }
    if let Some(m) = v["violation"].as_str() {
        r.fail(m);
    }
    r.class_if(v["before"] == true, "operations before the backend is set");
    r.class_if(v["again"] == true, "set again");
    r.class_if(v["race"] == true, "racing sets");
    r.nontrivial = v["after"].as_u64().unwrap_or(0) >= 1 || v["before"] == true;
    r
}
pub fn child(arg: &str) -> i32 {
    vkit::panics::install();
    let c: GlobalCase = serde_json::from_str(arg).expect("child case");
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| child_run(&c)));
    let v = match res {
        Ok(v) => v,
        Err(_) => match vkit::panics::take_last() {
            Some(p) if p.in_library => json!({"violation": format!("the library panicked in a global operation: {} ({})", p.message, p.location)}),
            p => json!({"harness": format!("{p:?}")}),
        },
    };
    println!("\u{1}CHILD {v}");
    0
}
fn near(a: &BJob, b: &BJob) -> bool {
    fn t(x: DateTime<Utc>, y: DateTime<Utc>) -> bool {
        (x - y).abs() < TimeDelta::milliseconds(200)
    }
    fn o(x: Option<DateTime<Utc>>, y: Option<DateTime<Utc>>) -> bool {
        match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => t(x, y),
            _ => false,
        }
    }
    let mut c = b.clone();
    c.inserted_at = a.inserted_at;
    c.scheduled_at = a.scheduled_at;
    c.attempted_at = a.attempted_at;
    c.completed_at = a.completed_at;
    c.cancelled_at = a.cancelled_at;
    c.discarded_at = a.discarded_at;
    if a.errors.len() == c.errors.len() {
        for (x, y) in a.errors.iter().zip(c.errors.iter_mut()) {
            if t(x.recorded_at, y.recorded_at) {
                y.recorded_at = x.recorded_at;
            }
        }
    }
    c == *a
        && t(a.inserted_at, b.inserted_at)
        && t(a.scheduled_at, b.scheduled_at)
        && o(a.attempted_at, b.attempted_at)
        && o(a.completed_at, b.completed_at)
        && o(a.cancelled_at, b.cancelled_at)
        && o(a.discarded_at, b.discarded_at)
}
fn child_run(c: &GlobalCase) -> Value {
    vkit::block_on(EPOCH, async {
        let mut r = CaseResult::ok();
        let (mut before, mut again, mut race, mut after) = (false, false, false, 0u64);
        // what the global operations may act on, and the same operations given explicitly
        let mut backends: Vec<InMemoryBackend> = (0..3).map(|_| InMemoryBackend::new().paused()).collect();
        let twin = InMemoryBackend::new().paused();
        let mut global: Option<usize> = None;
        let base = Utc::now();
        let mut ids: Vec<i32> = vec![];
        for op in &c.ops {
            let id = |k: usize| -> JobId { ids.get(k).copied().unwrap_or(9999).into() };
            let set = global.is_some();
            // (global result, explicit result)
            let res: Option<(Result<String, RexecutorError>, Result<String, RexecutorError>)> = match op {
                GOp::Set(k) => {
                    let res = Rexecutor::new(backends[*k].clone()).set_global_backend();
                    match (res.is_ok(), set) {
                        (true, false) => global = Some(*k),
                        (false, true) => {
                            again = true;
                            if !matches!(res, Err(RexecutorError::GlobalBackend)) {
                                r.fail("setting the global backend again gave another error than the global backend one");
                            }
                        }
                        (ok, _) => r.fail(format!("setting the global backend (set before: {set}) succeeded: {ok}")),
                    }
                    None
                }
                GOp::Race(n) => {
                    race = true;
                    let own: Vec<InMemoryBackend> = (0..*n).map(|_| InMemoryBackend::new().paused()).collect();
                    let gate = std::sync::Barrier::new(*n);
                    let won: Vec<bool> = std::thread::scope(|s| {
                        let hs: Vec<_> = own
                            .iter()
                            .map(|b| {
                                let gate = &gate;
                                s.spawn(move || {
                                    gate.wait();
                                    Rexecutor::new(b.clone()).set_global_backend().is_ok()
                                })
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
                    });
                    let wins = won.iter().filter(|w| **w).count();
                    if wins != usize::from(!set) {
                        r.fail(format!("{wins} of {n} threads set the global backend (set before: {set})"));
                    }
                    let at = backends.len();
                    if let Some(w) = won.iter().position(|w| *w) {
                        if !set {
                            global = Some(at + w);
                        }
                    }
                    backends.extend(own);
                    None
                }
                GOp::Enqueue(n) => Some({
                    let res = with_vex!(n.ex, E => {
                        let b = || E::builder().with_data(n.data.clone()).with_metadata(n.meta.clone()).with_tags(n.tags.clone()).with_priority(n.prio).with_max_attempts(n.max).schedule_at(at(base, n.sched_ms));
                        let g = b().enqueue().await;
                        (g, if set { b().enqueue_to_backend(&twin).await } else { Err(RexecutorError::GlobalBackend) })
                    });
                    if let Ok(id) = &res.1 {
                        ids.push((*id).into());
                    }
                    (res.0.map(|i| i.to_string()), res.1.map(|i| i.to_string()))
                }),
                GOp::Cancel(k, m) => Some((
                    VA::cancel_job(id(*k), Box::new(m.clone())).await.map(|_| String::new()),
                    if set { VA::cancel_job_on_backend(id(*k), Box::new(m.clone()), &twin).await.map(|_| String::new()) } else { Err(RexecutorError::GlobalBackend) },
                )),
                GOp::Rerun(k) => Some((
                    VA::rerun_job(id(*k)).await.map(|_| String::new()),
                    if set { VA::rerun_job_on_backend(id(*k), &twin).await.map(|_| String::new()) } else { Err(RexecutorError::GlobalBackend) },
                )),
                GOp::Update(k, row) => {
                    let ins = match table(&twin).await.ok().and_then(|t| t.into_iter().find(|j| id(*k) == j.id)) {
                        Some(j) => j.inserted_at,
                        None => base,
                    };
                    let mk = || Job::<Value, Value>::try_from(job_of(row, id(*k).into(), ins, base)).unwrap();
                    Some((
                        VA::update_job(mk()).await.map(|_| String::new()),
                        if set { VA::update_job_on_backend(mk(), &twin).await.map(|_| String::new()) } else { Err(RexecutorError::GlobalBackend) },
                    ))
                }
                GOp::Query(ex, q) => Some({
                    let ar = Arena::default();
                    let show = |v: Vec<Job<Value, Value>>| {
                        let mut v: Vec<String> = v.iter().map(|j| format!("{:?}", (j.id, j.status, &j.executor, &j.data, &j.metadata, j.attempt, j.max_attempts, &j.tags))).collect();
                        v.sort();
                        v.join("\n")
                    };
                    with_vex!(*ex, E => (
                        E::query_jobs(typed(q, &ids, base, &ar)).await.map(show),
                        if set { E::query_jobs_on_backend(typed(q, &ids, base, &ar), &twin).await.map(show) } else { Err(RexecutorError::GlobalBackend) },
                    ))
                }),
                GOp::Assert(n, d) => Some({
                    let d = d.clone();
                    vkit::panics::expect_panic();
                    let g = AssertUnwindSafe(async {
                        let d = d.clone();
                        match n {
                            None => { assert_enqueued!(with_data: d); }
                            Some(0) => { assert_enqueued!(0 jobs, with_data: d); }
                            Some(1) => { assert_enqueued!(1 job, with_data: d); }
                            Some(_) => { assert_enqueued!(2 jobs, with_data: d); }
                        }
                    })
                    .catch_unwind()
                    .await
                    .is_ok();
                    vkit::panics::panic_not_raised();
                    let t = table(&twin).await.unwrap_or_default();
                    let k = t.iter().filter(|j| j.data == d).count();
                    let e = set
                        && match n {
                            None => k > 0,
                            Some(n) => k == (*n).min(2) as usize,
                        };
                    let f = |b: bool| if b { Ok(String::new()) } else { Err(RexecutorError::GlobalBackend) };
                    (f(g), f(e))
                }),
            };
            if let Some((g, e)) = res {
                if set {
                    after += 1;
                } else {
                    before = true;
                }
                let (gs, es) = (format!("{g:?}"), format!("{e:?}"));
                if gs != es {
                    r.fail(format!("{op:?} (global backend set: {set}) gave {gs}, expected {es}"));
                }
            }
            // the chosen backend holds what the twin holds, the others nothing
            let want = table(&twin).await.unwrap_or_default();
            for (k, b) in backends.iter().enumerate() {
                let got = table(b).await.unwrap_or_default();
                let want: &[BJob] = if Some(k) == global { &want } else { &[] };
                if got.len() != want.len() || !got.iter().zip(want).all(|(a, b)| near(a, b)) {
                    r.fail(format!("after {op:?} backend {k} (global: {global:?}) holds {got:?}, expected {want:?}"));
                }
            }
            if r.violation.is_some() {
                break;
            }
        }
        json!({"violation": r.violation, "before": before, "again": again, "race": race, "after": after})
    })
}

// ------------------------------------------------------------------ C28

#[derive(Serialize, Deserialize, Clone, Debug)]
enum PCall {
    Subscribe(usize, u8),
    Enqueue(NewJob),
    Complete(i32),
    Retry(i32, i64, u8, String),
    Discard(i32, u8, String),
    Cancel(i32, u8, String),
    Snooze(i32, i64),
    Prune(PruneReq),
    Rerun(i32),
    Update(i32, Row),
    Query(Q),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PtrCase {
    nest: u8,
    /// call and what the wrapped backend answers (0: ok)
    calls: Vec<(PCall, u8)>,
}
#[derive(Default)]
struct Script {
    log: Mutex<Vec<String>>,
    answer: Mutex<u8>,
    rows: Mutex<Vec<BJob>>,
}
fn err_of(k: u8) -> BackendError {
    match k % 5 {
        1 => BackendError::BadState,
        2 => BackendError::JobNotFound((k as i32).into()),
        3 => BackendError::Io(std::io::Error::new(std::io::ErrorKind::TimedOut, "slow")),
        _ => BackendError::EncodeDecode(serde_json::from_str::<u8>("x").unwrap_err()),
    }
}
impl Script {
    fn put(&self, s: String) -> Result<(), BackendError> {
        self.log.lock().unwrap().push(s);
        match *self.answer.lock().unwrap() {
            k if k % 5 == 0 => Ok(()),
            k => Err(err_of(k)),
        }
    }
}
#[async_trait]
impl Backend for Script {
    async fn subscribe_ready_jobs(&self, ex: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        let a = self.put(format!("subscribe {}", ex.as_str()));
        let n = *self.answer.lock().unwrap() as usize;
        let rows: Vec<BJob> = self.rows.lock().unwrap().iter().take(n).cloned().collect();
        Box::pin(futures::stream::iter(rows.into_iter().map(Ok).chain(a.err().map(Err))))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.put(format!("enqueue {:?}", own_job(&job))).map(|_| 77.into())
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.put(format!("complete {id}"))
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: BErr) -> Result<(), BackendError> {
        self.put(format!("retryable {id} {at:?} {e:?}"))
    }
    async fn mark_job_discarded(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.put(format!("discarded {id} {e:?}"))
    }
    async fn mark_job_cancelled(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.put(format!("cancelled {id} {e:?}"))
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        self.put(format!("snoozed {id} {at:?}"))
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        self.put(format!("prune {spec:?}"))
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.put(format!("rerun {id}"))
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.put(format!("update {job:?}"))
    }
    async fn query<'a>(&self, q: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.put(format!("query {q:?}")).map(|_| self.rows.lock().unwrap().clone())
    }
}
fn ptr_case() -> BoxedStrategy<PtrCase> {
    let ms = || -1_000_000i64..1_000_000;
    let call = prop_oneof![
        (0usize..NV, 0u8..4).prop_map(|(a, b)| PCall::Subscribe(a, b)),
        new_job(prop::option::of(crit()).boxed()).prop_map(PCall::Enqueue),
        any::<i32>().prop_map(PCall::Complete),
        (any::<i32>(), ms(), 0u8..5, text()).prop_map(|(a, b, c, d)| PCall::Retry(a, b, c, d)),
        (any::<i32>(), 0u8..5, text()).prop_map(|(a, c, d)| PCall::Discard(a, c, d)),
        (any::<i32>(), 0u8..5, text()).prop_map(|(a, c, d)| PCall::Cancel(a, c, d)),
        (any::<i32>(), ms()).prop_map(|(a, b)| PCall::Snooze(a, b)),
        prune_req().prop_map(PCall::Prune),
        any::<i32>().prop_map(PCall::Rerun),
        (any::<i32>(), row(false)).prop_map(|(a, b)| PCall::Update(a, b)),
        query().prop_map(PCall::Query),
    ];
    (0u8..8, vec((call, prop_oneof![1 => Just(0u8), 1 => 0u8..30]), 1..6)).prop_map(|(nest, calls)| PtrCase { nest, calls }).boxed()
}
/// Performs the call; (what reached the backend, what must have, what came back, what must have)
async fn through<B: Backend + Send + Sync>(b: &B, inner: &Script, call: &PCall, base: DateTime<Utc>) -> (Vec<String>, String, String, String) {
    let k = *inner.answer.lock().unwrap();
    let e = |r: Result<(), BackendError>| format!("{r:?}");
    let unit = if k % 5 == 0 { "Ok(())".to_string() } else { format!("{:?}", Err::<(), _>(err_of(k))) };
    let berr = |k: &u8, m: &String| BErr { error_type: etype(*k), message: m.clone() };
    let (want, got, exp) = match call {
        PCall::Subscribe(ex, n) => {
            *inner.answer.lock().unwrap() = *n;
            let mut s = with_vex!(*ex, E => b.subscribe_ready_jobs(E::NAME.into()).await);
            let mut got = vec![];
            while let Some(x) = s.next().await {
                got.push(x);
            }
            let mut exp: Vec<Result<BJob, BackendError>> = inner.rows.lock().unwrap().iter().take(*n as usize).cloned().map(Ok).collect();
            if n % 5 != 0 {
                exp.push(Err(err_of(*n)));
            }
            (format!("subscribe {}", VNAMES[ex % NV]), format!("{got:?}"), format!("{exp:?}"))
        }
        PCall::Enqueue(n) => {
            let ar = StatusArena::default();
            let j = n.enqueuable(base, &ar);
            let want = format!("enqueue {:?}", own_job(&j));
            let exp = if k % 5 == 0 { format!("{:?}", Ok::<JobId, BackendError>(77.into())) } else { format!("{:?}", Err::<JobId, _>(err_of(k))) };
            (want, format!("{:?}", b.enqueue(j).await), exp)
        }
        PCall::Complete(i) => (format!("complete {}", JobId::from(*i)), e(b.mark_job_complete((*i).into()).await), unit),
        PCall::Retry(i, ms, t, m) => (format!("retryable {} {:?} {:?}", JobId::from(*i), at(base, *ms), berr(t, m)), e(b.mark_job_retryable((*i).into(), at(base, *ms), berr(t, m)).await), unit),
        PCall::Discard(i, t, m) => (format!("discarded {} {:?}", JobId::from(*i), berr(t, m)), e(b.mark_job_discarded((*i).into(), berr(t, m)).await), unit),
        PCall::Cancel(i, t, m) => (format!("cancelled {} {:?}", JobId::from(*i), berr(t, m)), e(b.mark_job_cancelled((*i).into(), berr(t, m)).await), unit),
        PCall::Snooze(i, ms) => (format!("snoozed {} {:?}", JobId::from(*i), at(base, *ms)), e(b.mark_job_snoozed((*i).into(), at(base, *ms)).await), unit),
        PCall::Prune(p) => (format!("prune {:?}", p.spec()), e(b.prune_jobs(&p.spec()).await), unit),
        PCall::Rerun(i) => (format!("rerun {}", JobId::from(*i)), e(b.rerun_job((*i).into()).await), unit),
        PCall::Update(i, row) => {
            let j = job_of(row, *i, base, base);
            (format!("update {j:?}"), e(b.update_job(j).await), unit)
        }
        PCall::Query(q) => {
            let ar = Arena::default();
            let ids = [1, 2, 3];
            let want = format!("query {:?}", raw(q, &ids, base, &ar));
            let got = format!("{:?}", b.query(raw(q, &ids, base, &ar)).await);
            let exp = if k % 5 == 0 { format!("{:?}", Ok::<_, BackendError>(inner.rows.lock().unwrap().clone())) } else { format!("{:?}", Err::<Vec<BJob>, _>(err_of(k))) };
            (want, got, exp)
        }
    };
    (std::mem::take(&mut *inner.log.lock().unwrap()), want, got, exp)
}
fn run_ptr(c: &PtrCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::block_on(EPOCH, async {
        let base = Utc::now();
        let s: &'static Script = Box::leak(Box::default());
        let rows = [(1, 0), (2, 3)].map(|(id, st)| {
            job_of(&Row { ex: 0, data: json!(id), meta: json!(null), tags: vec!["t".into()], prio: 1, max: 2, attempt: 1, status: st, sched_ms: 5, key: None, errors: vec![], times: [None; 4] }, id, base, base)
        });
        *s.rows.lock().unwrap() = rows.to_vec();
        for (call, k) in &c.calls {
            *s.answer.lock().unwrap() = *k;
            // `s` itself is a reference: one level of pointer
            let (log, want, got, exp) = match c.nest {
                0 => through(&s, s, call, base).await,
                1 => through(&Arc::new(s), s, call, base).await,
                2 => through(&Box::new(s), s, call, base).await,
                3 => through(&Arc::new(Box::new(s)), s, call, base).await,
                4 => through(&Box::new(Arc::new(Arc::new(s))), s, call, base).await,
                5 => through(&&&s, s, call, base).await,
                6 => through(&std::mem::ManuallyDrop::new(Arc::new(s)), s, call, base).await,
                _ => through(&Arc::new(Arc::new(Box::new(Box::new(s)))), s, call, base).await,
            };
            if log != [want.clone()] {
                r.fail(format!("{call:?} through pointers ({}) reached the backend as {log:?}, expected exactly one {want}", c.nest));
            }
            if got != exp {
                r.fail(format!("{call:?} through pointers ({}) returned {got}, the backend answered {exp}", c.nest));
            }
            r.class_if(*k % 5 != 0, "error answered");
        }
    });
    r.nontrivial = c.calls.len() > 1;
    r
}
/// A life-cycle history on a backend behind pointers.
fn run_ptr_life(c: &crate::ops::LifeCase) -> CaseResult {
    vkit::block_on(EPOCH, async {
        let b = Arc::new(Box::new(Arc::new(InMemoryBackend::new())));
        let base = Utc::now();
        crate::ops::life(&b, c, base, crate::props_table::MEMORY, Utc::now, vkit::vclock::advance).await
    })
}

// ------------------------------------------------------------------ C29

#[derive(Serialize, Deserialize, Clone, Debug)]
struct AssertCase {
    rows: Vec<Row>,
    /// index into the forms, and the stated number: none, "1 job", 0..=4 jobs
    form: u8,
    count: u8,
    data: Value,
    meta: Value,
    tags: Vec<String>,
    tags2: Vec<String>,
    sched: i64,
    after: i64,
    before: i64,
}
fn assert_case() -> BoxedStrategy<AssertCase> {
    let val = || prop::sample::select(vec![json!(1), json!("a"), json!(null), json!({"k": 1})]);
    let ms = || prop::sample::select(vec![-60_000i64, -1000, 1000, 60_000]);
    let tags = || prop::sample::subsequence(vec!["a".to_string(), "b".into(), "c".into()], 0..3);
    let r = (row(false), val(), val(), tags(), ms(), 0u8..4).prop_map(|(mut r, d, m, t, s, same)| {
        r.data = if same > 0 { json!(1) } else { d };
        r.meta = if same > 1 { json!("a") } else { m };
        r.tags = t;
        r.sched_ms = s;
        r
    });
    let v = || prop_oneof![3 => Just(json!(1)), 2 => Just(json!("a")), 1 => val()];
    (vec(r, 0..6), 0u8..NFORMS, 0u8..7, (v(), v()), tags(), tags(), ms(), ms(), ms())
        .prop_map(|(rows, form, count, (data, meta), tags, tags2, sched, after, before)| AssertCase { rows, form, count, data, meta, tags, tags2, sched, after, before })
        .boxed()
}
const NFORMS: u8 = 30;
const D: u16 = 1;
const M: u16 = 2;
const T: u16 = 4;
const S: u16 = 8;
const A: u16 = 16;
const B: u16 = 32;
const T2: u16 = 64;
const XA: u16 = 128;
const XB: u16 = 256;
const XC: u16 = 512;

/// The assertion with the stated number, given its clauses.
macro_rules! counted {
    ($n:expr, $b:ident, $($tail:tt)*) => {
        match $n {
            0 => { assert_enqueued!(to: $b, $($tail)*); }
            1 => { assert_enqueued!(1 job, to: $b, $($tail)*); }
            2 => { assert_enqueued!(0 jobs, to: $b, $($tail)*); }
            3 => { assert_enqueued!(1 jobs, to: $b, $($tail)*); }
            4 => { assert_enqueued!(2 jobs, to: $b, $($tail)*); }
            5 => { assert_enqueued!(3 jobs, to: $b, $($tail)*); }
            _ => { assert_enqueued!(4 jobs, to: $b, $($tail)*); }
        }
    };
}
async fn assert_form(c: &AssertCase, backend: &InMemoryBackend, base: DateTime<Utc>) -> (bool, u16) {
    let d = c.data.clone();
    let m = c.meta.clone();
    let t: Vec<&str> = c.tags.iter().map(String::as_str).collect();
    let t2: Vec<&str> = c.tags2.iter().map(String::as_str).collect();
    let (s, a, b) = (at(base, c.sched), at(base, c.after), at(base, c.before));
    macro_rules! form {
        ($($k:literal $mask:expr => { $($tail:tt)* })*) => {
            match c.form {
                $($k => {
                    vkit::panics::expect_panic();
                    let ok = AssertUnwindSafe(async { counted!(c.count, backend, $($tail)*) }).catch_unwind().await.is_ok();
                    vkit::panics::panic_not_raised();
                    (ok, $mask)
                })*
                _ => unreachable!(),
            }
        };
    }
    form! {
        0 D => { with_data: &d }
        1 D => { with_data: &d, }
        2 M => { with_metadata: &m }
        3 M => { with_metadata: &m, }
        4 T => { tagged_with: t }
        5 T => { tagged_with: t, }
        6 S => { scheduled_at: s }
        7 S => { scheduled_at: s, }
        8 A => { scheduled_after: a }
        9 A => { scheduled_after: a, }
        10 B => { scheduled_before: b }
        11 B => { scheduled_before: b, }
        12 XA => { for_executor: VA }
        13 XA => { for_executor: VA, }
        14 XA => { for_executor: "alpha" }
        15 XB => { for_executor: "beta", }
        16 D | M => { with_data: &d, with_metadata: &m }
        17 M | T | XB => { with_metadata: &m, tagged_with: t, for_executor: VB }
        18 T | A | B => { tagged_with: t, scheduled_after: a, scheduled_before: b, }
        19 S | D | XB => { scheduled_at: s, with_data: &d, for_executor: "beta" }
        20 D | M | T | A | B | XA => { with_data: &d, with_metadata: &m, tagged_with: t, scheduled_after: a, scheduled_before: b, for_executor: VA }
        21 XA | B | A | T | M | D => { for_executor: "alpha", scheduled_before: b, scheduled_after: a, tagged_with: t, with_metadata: &m, with_data: &d, }
        22 XC | D => { for_executor: VC, with_data: &d }
        23 B | A | M => { scheduled_before: b, scheduled_after: a, with_metadata: &m }
        24 D | T | S | M => { with_data: &d, tagged_with: t, scheduled_at: s, with_metadata: &m }
        25 T | T2 => { tagged_with: t, tagged_with: t2 }
        26 XA | T | D => { for_executor: VA, tagged_with: t, with_data: &d }
        27 S | M | XB => { scheduled_at: s, with_metadata: &m, for_executor: VB, }
        28 A | D | T => { scheduled_after: a, with_data: &d, tagged_with: t, }
        29 B | T | XC => { scheduled_before: b, tagged_with: t, for_executor: VC }
    }
}
fn run_assert(c: &AssertCase) -> CaseResult {
    let mut r = CaseResult::ok();
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let base = Utc::now();
        let want = match fill(&b, &c.rows, base).await {
            Ok(w) => w,
            Err(e) => return r.fail(e),
        };
        let (ok, mask) = assert_form(c, &b, base).await;
        let has = |x: u16| mask & x != 0;
        let n = want
            .iter()
            .map(|s| &s.job)
            .filter(|j| {
                (!has(D) || j.data == c.data)
                    && (!has(M) || j.metadata == c.meta)
                    && (!has(T) || c.tags.iter().all(|t| j.tags.contains(t)))
                    && (!has(T2) || c.tags2.iter().all(|t| j.tags.contains(t)))
                    && (!has(S) || j.scheduled_at == at(base, c.sched))
                    && (!has(A) || j.scheduled_at > at(base, c.after))
                    && (!has(B) || j.scheduled_at < at(base, c.before))
                    && (!has(XA) || j.executor == "alpha")
                    && (!has(XB) || j.executor == "beta")
                    && (!has(XC) || j.executor == VC::NAME)
            })
            .count();
        let exp = match c.count {
            0 => n > 0,
            1 => n == 1,
            k => n == k as usize - 2,
        };
        if ok != exp {
            r.fail(format!("{n} jobs satisfy the clauses of form {} but the assertion (number {}) {}", c.form, ["any", "1 job", "0 jobs", "1 jobs", "2 jobs", "3 jobs", "4 jobs"][c.count as usize], if ok { "passed" } else { "failed" }));
        }
        match table(&b).await {
            Ok(t) => {
                if let Some(e) = compare(&t, &want) {
                    r.fail(format!("the assertion changed the backend: {e}"));
                }
            }
            Err(e) => r.fail(e),
        }
        r.class_if(exp, "holds");
        r.class_if(!exp, "does not hold");
        r.class_if(n > 0 && n < want.len(), "some jobs match");
        r.class_if(mask.count_ones() > 1, "several clauses");
        r.nontrivial = !want.is_empty();
    });
    r
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            assumptions: vec!["non-negative configured delays; exponential bases and maxima count in whole seconds; a power beyond i64 saturates"],
            arms: vec![
                Box::new(GenArm { name: "formula", rule: "strategies with random base, power, maximum, jitter, minimum and up to 4 attempt numbers, three draws each; non-trivial: a non-zero base and attempt", quick: 400_000, thorough: 20_000_000, strategy: back_case, run: run_back }),
                Box::new(GenArm { name: "spread", rule: "250 draws of one jittered strategy; every case with a jitter is non-trivial", quick: 8_000, thorough: 300_000, strategy: spread_case, run: run_spread }),
            ],
        },
        Property {
            id: "C22",
            assumptions: vec!["one process per case, since the global backend can be set once"],
            arms: vec![Box::new(GenArm { name: "global", rule: "global operations before and after (racing, repeated) sets, each compared with its explicit variant on a twin backend; non-trivial: an operation before or after the set", quick: 16_000, thorough: 800_000, strategy: global_case, run: run_global })],
        },
        Property {
            id: "C28",
            assumptions: vec!["pointers to sized backends, up to four levels"],
            arms: vec![
                Box::new(GenArm { name: "forwarding", rule: "1-5 calls of any backend operation through 8 nestings of &, Box, Arc, with scripted answers and errors; non-trivial: more than one call", quick: 120_000, thorough: 5_000_000, strategy: ptr_case, run: run_ptr }),
                Box::new(GenArm { name: "life-cycle", rule: "the C21 histories on Arc<Box<Arc<_>>>; non-trivial: at least two addressed operations", quick: 20_000, thorough: 800_000, strategy: crate::ops::life_case, run: run_ptr_life }),
            ],
        },
        Property {
            id: "C29",
            assumptions: vec!["30 clause lists times 7 stated numbers, values generated; the literal number is at most four"],
            arms: vec![Box::new(GenArm { name: "assertion", rule: "one assertion over 0-5 stored jobs; non-trivial: jobs are stored", quick: 200_000, thorough: 8_000_000, strategy: assert_case, run: run_assert })],
        },
    ]
}
