//! C06, C08, C09 and the direct arms of C11.
use crate::genr::*;
use crate::props_run::{ASSUME, judge};
use crate::scen::*;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, EnqueuableJob, ExecutionError as BErr, Job as BJob};
use rexecutor::executor::{ExecutionResult, Executor};
use rexecutor::job::{ErrorType, Job, JobId, JobStatus};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::time::Duration;
use vkit::{CaseResult, GenArm, Property, vclock};

// ------------------------------------------------------------------ C06

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum DrainOp {
    /// schedule index, priority, executor (0: the drained one)
    Enq { sched: usize, prio: u16, ex: usize },
    Take,
    /// change the schedule / priority of a stored job
    Update { target: usize, sched: usize, prio: u16 },
    /// finish a taken job: 0 complete, 1 retry, 2 snooze, 3 discard, 4 cancel; then maybe rerun
    Finish { target: usize, how: u8, sched: usize },
    Rerun { target: usize },
    Advance(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Drain {
    /// milliseconds relative to the start; beyond 60 000 means never in this case
    scheds: Vec<i64>,
    ops: Vec<DrainOp>,
}
fn drain_strategy() -> BoxedStrategy<Drain> {
    let sched = prop_oneof![3 => -5000i64..0, 1 => -60_000_000i64..-5000, 1 => Just(-1i64), 1 => Just(100_000_000i64)];
    let prio = prop_oneof![4 => 0u16..3, 1 => any::<u16>(), 1 => prop::sample::select(vec![0u16, 1, 255, 256, 32767, 32768, 65535])];
    let op = prop_oneof![
        6 => (0usize..5, prio.clone(), prop_oneof![5 => Just(0usize), 1 => Just(1usize)]).prop_map(|(sched, prio, ex)| DrainOp::Enq { sched, prio, ex }),
        5 => Just(DrainOp::Take),
        1 => (0usize..8, 0usize..5, prio).prop_map(|(target, sched, prio)| DrainOp::Update { target, sched, prio }),
        2 => (0usize..8, 0u8..5, 0usize..5).prop_map(|(target, how, sched)| DrainOp::Finish { target, how, sched }),
        1 => (0usize..8).prop_map(|target| DrainOp::Rerun { target }),
        1 => (0u32..40_000).prop_map(DrainOp::Advance),
    ];
    (vec(sched, 5), vec(op, 1..40)).prop_map(|(scheds, ops)| Drain { scheds, ops }).boxed()
}
fn enq(ex: &str, prio: u16, at: DateTime<Utc>) -> EnqueuableJob<'static> {
    EnqueuableJob {
        executor: ex.to_string(),
        data: Value::Null,
        metadata: Value::Null,
        max_attempts: 5,
        scheduled_at: at,
        tags: vec![],
        priority: prio,
        uniqueness_criteria: None,
    }
}
struct DJob {
    id: i32,
    ex: usize,
    sched: DateTime<Utc>,
    prio: i32,
    status: JobStatus,
}
fn drain_run(c: &Drain) -> CaseResult {
    let mut r = CaseResult::ok();
    let mut choices = 0;
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let t0 = Utc::now();
        let at = |i: usize| t0 + TimeDelta::milliseconds(c.scheds[i % c.scheds.len()]);
        let names = ["drained", "other"];
        let mut stream = b.subscribe_ready_jobs("drained".into()).await;
        let mut jobs: Vec<DJob> = vec![];
        macro_rules! must {
            ($e:expr, $w:expr) => {
                if let Err(e) = $e {
                    r.fail(format!("{} failed: {e:?}", $w));
                    return;
                }
            };
        }
        let mut ops = c.ops.clone();
        ops.extend(std::iter::repeat_n(DrainOp::Take, jobs.len() + c.ops.len()));
        for op in &ops {
            match op {
                DrainOp::Enq { sched, prio, ex } => match b.enqueue(enq(names[*ex], *prio, at(*sched))).await {
                    Ok(id) => jobs.push(DJob { id: id.into(), ex: *ex, sched: at(*sched), prio: *prio as i32, status: JobStatus::Scheduled }),
                    Err(e) => r.fail(format!("enqueue failed: {e:?}")),
                },
                DrainOp::Advance(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
                DrainOp::Update { target, sched, prio } => {
                    if jobs.is_empty() {
                        continue;
                    }
                    let n = target % jobs.len();
                    let j = &mut jobs[n];
                    if j.status == JobStatus::Executing {
                        continue;
                    }
                    let Ok(mut v) = b.query(rexecutor::backend::Query::IdEquals(j.id.into())).await else { continue };
                    let Some(mut job) = v.pop() else { continue };
                    (j.sched, j.prio) = (at(*sched), *prio as i32);
                    (job.scheduled_at, job.priority) = (j.sched, j.prio);
                    must!(b.update_job(job).await, "update_job");
                }
                DrainOp::Finish { target, how, sched } => {
                    let n = jobs.iter().filter(|j| j.status == JobStatus::Executing).count();
                    if n == 0 {
                        continue;
                    }
                    let j = jobs.iter_mut().filter(|j| j.status == JobStatus::Executing).nth(target % n).unwrap();
                    let id: JobId = j.id.into();
                    let err = || BErr { error_type: ErrorType::Panic, message: "x".into() };
                    match how {
                        0 => {
                            j.status = JobStatus::Complete;
                            must!(b.mark_job_complete(id).await, "mark_job_complete");
                        }
                        1 => {
                            (j.status, j.sched) = (JobStatus::Retryable, at(*sched));
                            must!(b.mark_job_retryable(id, at(*sched), err()).await, "mark_job_retryable");
                        }
                        2 => {
                            (j.status, j.sched) = (JobStatus::Scheduled, at(*sched));
                            must!(b.mark_job_snoozed(id, at(*sched)).await, "mark_job_snoozed");
                        }
                        3 => {
                            j.status = JobStatus::Discarded;
                            must!(b.mark_job_discarded(id, err()).await, "mark_job_discarded");
                        }
                        _ => {
                            j.status = JobStatus::Cancelled;
                            must!(b.mark_job_cancelled(id, err()).await, "mark_job_cancelled");
                        }
                    }
                }
                DrainOp::Rerun { target } => {
                    if jobs.is_empty() {
                        continue;
                    }
                    let n = target % jobs.len();
                    let j = &mut jobs[n];
                    if !matches!(j.status, JobStatus::Complete | JobStatus::Discarded | JobStatus::Cancelled) {
                        continue;
                    }
                    must!(b.rerun_job(j.id.into()).await, "rerun_job");
                    let Ok(mut v) = b.query(rexecutor::backend::Query::IdEquals(j.id.into())).await else { continue };
                    let Some(job) = v.pop() else { continue };
                    (j.status, j.sched) = (JobStatus::Scheduled, job.scheduled_at);
                }
                DrainOp::Take => {
                    // let reruns and the like become strictly past
                    tokio::time::sleep(Duration::from_millis(2)).await;
                    let now = Utc::now();
                    let ready = |j: &DJob| j.ex == 0 && j.sched <= now && matches!(j.status, JobStatus::Scheduled | JobStatus::Retryable);
                    let want = jobs.iter().filter(|j| ready(j)).count();
                    let got = tokio::time::timeout(Duration::from_millis(1000), stream.next()).await;
                    match got {
                        Err(_) => {
                            if want > 0 {
                                r.fail(format!("{want} jobs are ready but the runner's stream delivers none"));
                                return;
                            }
                        }
                        Ok(Some(Ok(job))) => {
                            let Some(k) = jobs.iter().position(|j| j.id == job.id) else {
                                r.fail(format!("unknown job delivered: {job:?}"));
                                return;
                            };
                            if !ready(&jobs[k]) {
                                r.fail(format!("job {} was delivered although it is not ready ({:?} at {}, now {now})", job.id, jobs[k].status, jobs[k].sched));
                                return;
                            }
                            let x = &jobs[k];
                            if want > 1 {
                                choices += 1;
                            }
                            for y in jobs.iter().filter(|j| j.id != x.id && ready(j)) {
                                if y.sched <= x.sched && y.prio <= x.prio && (y.sched < x.sched || y.prio < x.prio) {
                                    r.fail(format!(
                                        "job {} (schedule {}, priority {}) was taken while job {} (schedule {}, priority {}) was ready",
                                        x.id, x.sched, x.prio, y.id, y.sched, y.prio
                                    ));
                                    return;
                                }
                            }
                            jobs[k].status = JobStatus::Executing;
                        }
                        Ok(other) => {
                            r.fail(format!("the runner's stream delivered {other:?}"));
                            return;
                        }
                    }
                    if want == 0 && !c.ops.iter().any(|o| matches!(o, DrainOp::Enq { .. })) {
                        return;
                    }
                    if want == 0 && ops.len() > c.ops.len() && jobs.iter().all(|j| !ready(j)) && choices > 0 && jobs.len() > 12 {
                        break;
                    }
                }
            }
        }
    });
    r.nontrivial = choices > 0;
    r.class_if(choices > 3, "many choices");
    r
}
fn c06_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![1, 2];
    p.jobs = 3..14;
    p.at = 3000;
    p.future = 3000;
    p.dur = 1500;
    p.delay = 2000;
    p.steps = 0..3;
    p.w = [5, 1, 2, 3, 1];
    p.backlog = 60;
    p.rich = false;
    p.prio = prop_oneof![6 => 0u16..4, 1 => any::<u16>()].boxed();
    scenario(p)
        .prop_flat_map(|s| (Just(s), vec(0u8..4, 16)))
        .prop_map(|(mut s, q)| {
            // many ties: schedules on a coarse grid relative to the start of the case
            for (j, k) in s.jobs.iter_mut().zip(q) {
                if k > 0 {
                    j.sched_ms = Some(-(j.at_ms as i64) - 1000 * k as i64);
                }
            }
            s
        })
        .boxed()
}
fn c06_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Order]);
    r.nontrivial = v.order_choices > 0;
    r
}

// ------------------------------------------------------------------ C08

fn poison() -> BoxedStrategy<Poison> {
    let kind = prop_oneof![
        3 => prop::sample::select(vec![
            Value::Null, serde_json::json!({}), serde_json::json!("text"), serde_json::json!({"tag": "x", "body": 1}),
            serde_json::json!({"tag": -1, "body": 1}), serde_json::json!([1, 2, 3]), serde_json::json!({"tag": 4294967296u64, "body": null}),
        ]).prop_map(PoisonKind::Data),
        2 => prop::sample::select(vec![serde_json::json!({}), serde_json::json!(7), serde_json::json!({"note": 1}), serde_json::json!([])]).prop_map(PoisonKind::Meta),
        1 => prop::sample::select(vec![-1, -32768, 65536, 70000, i32::MIN, i32::MAX]).prop_map(PoisonKind::Priority),
        1 => prop::sample::select(vec![-1, 65536, 70000, i32::MIN, i32::MAX]).prop_map(PoisonKind::Max),
        1 => prop::sample::select(vec![-2, -100, 65535, 70000, i32::MIN, i32::MAX - 1]).prop_map(PoisonKind::Attempt),
        1 => Just(PoisonKind::Backoff),
        1 => Just(PoisonKind::Timeout),
    ];
    (0u32..6000, prop::sample::select(vec![0usize, 1, 2]), kind, prop_oneof![2 => -5000i64..0, 1 => 0i64..5000])
        .prop_map(|(at_ms, ex, kind, sched_ms)| Poison { at_ms, ex, kind, sched_ms })
        .boxed()
}
fn c08_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2];
    p.jobs = 2..9;
    p.nodes = 1..3;
    p.timeouts = true;
    p.delay = 4000;
    p.w = [4, 1, 2, 3, 3];
    let fault = prop_oneof![
        (0u32..12, 0u8..4).prop_map(|(n, k)| Fault::Record(n, k)),
        (prop::sample::select(vec![0usize, 1, 2]), 0u32..6).prop_map(|(e, n)| Fault::StreamErr(e, n)),
        (prop::sample::select(vec![0usize, 1, 2]), 0u32..6, 1u32..60).prop_map(|(e, n, k)| Fault::StreamErrs(e, n, k)),
        (0u32..12, 1u32..12, 0u8..4).prop_map(|(n, k, e)| Fault::Records(n, k, e)),
    ];
    (scenario(p), vec(fault, 0..4), vec(poison(), 0..4), vec((0usize..8, 0usize..3, 0u8..4, any::<bool>()), 0..3))
        .prop_map(|(mut s, faults, poison, extremes)| {
            s.faults = faults;
            s.poison = poison;
            for (j, st, kind, huge) in extremes {
                let n = s.jobs.len();
                let script = &mut s.jobs[j % n].script;
                let step = if script.steps.is_empty() {
                    if kind == 1 {
                        continue;
                    }
                    &mut script.tail
                } else {
                    let k = script.steps.len();
                    &mut script.steps[st % k]
                };
                let big = if huge { i64::MAX } else { 9_000_000_000_000 };
                match kind {
                    0 => step.backoff_ms = big,
                    1 => step.out = Out::Snooze(big),
                    2 => {
                        // hangs for ever, without a timeout
                        step.dur_ms = u32::MAX;
                        step.timeout = None;
                    }
                    _ => step.backoff_ms = -big,
                }
            }
            s
        })
        .boxed()
}
fn c08_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Outcome, Cat::Attempts, Cat::Dup, Cat::Late, Cat::Conc, Cat::Content, Cat::Op]);
    let ext = s.jobs.iter().any(|j| {
        j.script.steps.iter().chain([&j.script.tail]).any(|x| x.dur_ms == u32::MAX || x.backoff_ms.abs() > NEVER_MS || matches!(x.out, Out::Snooze(d) if d.abs() > NEVER_MS))
    });
    r.class_if(ext, "extreme delay or hanging execution");
    r.class_if(!s.poison.is_empty(), "undecodable job");
    r.class_if(s.faults.iter().any(|f| matches!(f, Fault::Record(..) | Fault::Records(..))), "recording fault");
    r.class_if(s.faults.iter().any(|f| matches!(f, Fault::StreamErr(..) | Fault::StreamErrs(..))), "stream fault");
    r.nontrivial = (ext || !s.poison.is_empty() || !s.faults.is_empty() || v.panics > 0) && v.starts > 0;
    r
}

// ------------------------------------------------------------------ C09

fn c09_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2, 3];
    p.jobs = 1..10;
    p.nodes = 1..3;
    p.at = 4000;
    p.future = 6000;
    p.dur = 5000;
    p.delay = 3000;
    p.timeouts = true;
    (scenario(p), prop_oneof![3 => 0u32..5000, 1 => 0u32..15_000], any::<bool>(), prop::option::of(prop_oneof![0u32..500, 0u32..20_000]))
        .prop_map(|(mut s, at_ms, guard, restart_ms)| {
            s.stop = Some(Stop { at_ms, guard, restart_ms });
            s
        })
        .boxed()
}
fn c09_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Shutdown, Cat::Outcome, Cat::Attempts, Cat::Dup, Cat::Late, Cat::Timeout, Cat::Content]);
    let restarted = s.stop.as_ref().is_some_and(|x| x.restart_ms.is_some());
    r.class_if(restarted, "restarted");
    let left = v.jobs.values().any(|m| matches!(m.status, JobStatus::Scheduled | JobStatus::Retryable));
    r.class_if(left, "jobs left for a later instance");
    r.nontrivial = v.starts > 0 && (left || restarted);
    r
}
fn c09_blocking() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![4, 5];
    p.jobs = 1..5;
    p.at = 1000;
    p.future = 1000;
    p.delay = 2000;
    (scenario(p), 0u32..2000, any::<bool>())
        .prop_map(|(mut s, at_ms, guard)| {
            s.stop = Some(Stop { at_ms, guard, restart_ms: None });
            s
        })
        .boxed()
}

// ------------------------------------------------------------------ C11, direct arms

fn c11_extreme() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 6];
    p.jobs = 1..3;
    p.delay = 2000;
    p.steps = 1..4;
    p.w = [1, 0, 3, 5, 2];
    p.rich = false;
    let ext = prop_oneof![
        Just(i64::MAX), Just(-i64::MAX), Just(i64::MAX / 2), Just(-i64::MAX / 2),
        Just(8_210_000_000_000_000i64), Just(8_200_000_000_000_000i64), Just(-8_330_000_000_000_000i64), Just(-8_400_000_000_000_000i64),
        3_600_001i64..100_000_000_000, -100_000_000_000i64..0
    ];
    (scenario(p), vec((0usize..4, any::<bool>(), ext), 1..4))
        .prop_map(|(mut s, e)| {
            for (k, snooze, d) in e {
                let n = s.jobs.len();
                let steps = &mut s.jobs[k % n].script.steps;
                let m = steps.len();
                let st = &mut steps[k % m];
                if snooze {
                    st.out = Out::Snooze(d);
                    st.timeout = None;
                } else {
                    st.backoff_ms = d;
                    st.out = Out::Err(0, "e".into());
                }
            }
            s
        })
        .boxed()
}
fn c11_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Delay, Cat::Early, Cat::Late, Cat::Outcome, Cat::Content]);
    r.nontrivial = v.retries + v.snoozes > 0;
    r
}

/// An executor that keeps the default backoff and fails always.
pub struct Dflt;
#[async_trait]
impl Executor for Dflt {
    type Data = u8;
    type Metadata = ();
    const NAME: &'static str = "ex_default_backoff";
    async fn execute(_job: Job<u8, ()>) -> ExecutionResult {
        ExecutionResult::Snooze { delay: TimeDelta::days(900) }
    }
}
pub struct DfltFail;
#[derive(Debug)]
struct Fails;
impl std::fmt::Display for Fails {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("fails")
    }
}
impl std::error::Error for Fails {}
impl rexecutor::executor::ExecutionError for Fails {
    fn error_type(&self) -> &'static str {
        "fails"
    }
}
#[async_trait]
impl Executor for DfltFail {
    type Data = u8;
    type Metadata = ();
    const NAME: &'static str = "ex_default_backoff_fail";
    async fn execute(_job: Job<u8, ()>) -> ExecutionResult {
        Fails.into()
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Backoff {
    attempt: u16,
    samples: u8,
}
fn backoff_strategy() -> BoxedStrategy<Backoff> {
    (prop_oneof![4 => 0u16..14, 1 => any::<u16>()], 1u8..20).prop_map(|(attempt, samples)| Backoff { attempt, samples }).boxed()
}
fn default_bounds(attempt: u16) -> (i64, i64) {
    let secs = 4i64.checked_pow(attempt as u32).unwrap_or(i64::MAX).min(7 * 86_400);
    (secs * 900 - 1, secs * 1100 + 1)
}
fn typed(attempt: u16) -> Job<u8, ()> {
    let t = DateTime::from_timestamp(EPOCH / SEC, 0).unwrap();
    Job {
        id: 1.into(),
        status: JobStatus::Executing,
        executor: "x".into(),
        data: 0,
        metadata: None,
        attempt,
        max_attempts: 10,
        priority: 0,
        tags: vec![],
        errors: vec![],
        inserted_at: t,
        scheduled_at: t,
        attempted_at: Some(t),
        completed_at: None,
        cancelled_at: None,
        discarded_at: None,
    }
}
fn backoff_run(c: &Backoff) -> CaseResult {
    let mut r = CaseResult::ok();
    let (lo, hi) = default_bounds(c.attempt);
    for _ in 0..c.samples {
        let d = <Dflt as Executor>::backoff(&typed(c.attempt));
        if d < TimeDelta::milliseconds(lo) || d > TimeDelta::milliseconds(hi) {
            r.fail(format!("the default backoff of attempt {} is {d:?}, outside {lo}..={hi} ms", c.attempt));
        }
    }
    r.nontrivial = true;
    r
}
/// The same through a runner: a stored job that already made some attempts fails once more.
fn backoff_runner(c: &Backoff) -> CaseResult {
    let mut r = CaseResult::ok();
    let attempt = c.attempt.clamp(1, 60_000);
    vkit::block_on(EPOCH, async {
        let b = InMemoryBackend::new();
        let now = Utc::now();
        let id = match b.enqueue(EnqueuableJob { data: serde_json::json!(1), ..enq(DfltFail::NAME, 0, now + TimeDelta::days(400)) }).await {
            Ok(id) => id,
            Err(e) => return r.fail(format!("enqueue failed: {e:?}")),
        };
        let load = || async { b.query(rexecutor::backend::Query::IdEquals(id)).await.ok().and_then(|mut v| v.pop()) };
        let Some(mut job): Option<BJob> = load().await else { return r.fail("the job is not stored") };
        job.attempt = attempt as i32 - 1;
        job.max_attempts = attempt as i32 + 5;
        job.scheduled_at = now;
        if let Err(e) = b.update_job(job).await {
            return r.fail(format!("update failed: {e:?}"));
        }
        let rx = rexecutor::Rexecutor::new(b.clone()).with_executor::<DfltFail>();
        tokio::time::sleep(Duration::from_millis(50)).await;
        let end = vclock::now_ns();
        let Some(job) = load().await else { return r.fail("the job is gone") };
        if job.status != JobStatus::Retryable || job.attempt != attempt as i32 {
            return r.fail(format!("attempt {attempt} failed but the job is {job:?}"));
        }
        let d = (ns(job.scheduled_at) - end) / MS;
        let (lo, hi) = default_bounds(attempt);
        if d < lo - 100 || d > hi {
            r.fail(format!("after attempt {attempt} with the default backoff the job was rescheduled {d} ms later, expected {lo}..={hi} ms"));
        }
        drop(rx);
    });
    r.nontrivial = true;
    r
}

pub fn c11_arms() -> Vec<Box<dyn vkit::Arm>> {
    vec![
        Box::new(GenArm { name: "extreme", rule: "1-2 jobs with delays from -2^63 to 2^63 ms; non-trivial: a retry or snooze happened", quick: 16_000, thorough: 480_000, strategy: c11_extreme, run: c11_run }),
        Box::new(GenArm { name: "default-backoff", rule: "default backoff sampled for attempts 0..=65535; every case non-trivial", quick: 40_000, thorough: 1_000_000, strategy: backoff_strategy, run: backoff_run }),
        Box::new(GenArm { name: "default-backoff-runner", rule: "a failing job with the default backoff after any number of attempts; every case non-trivial", quick: 8_000, thorough: 200_000, strategy: backoff_strategy, run: backoff_runner }),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            assumptions: vec![ASSUME],
            arms: vec![
                Box::new(GenArm { name: "drain", rule: "up to 40 enqueue/take/update/finish/rerun operations with tied schedules and priorities, then a full drain of the runner's stream; non-trivial: a job was taken while several were ready", quick: 64_000, thorough: 1_900_000, strategy: drain_strategy, run: drain_run }),
                Box::new(GenArm { name: "runner", rule: "3-13 jobs on executors with limits 1 and 2 with tied schedules; non-trivial: an execution started while another job was ready", quick: 48_000, thorough: 1_440_000, strategy: c06_main, run: c06_run }),
            ],
        },
        Property {
            id: "C08",
            assumptions: vec![ASSUME, "injected faults: errors of the outcome-recording calls, error items of the job stream"],
            arms: vec![Box::new(GenArm { name: "faults", rule: "2-8 jobs on up to 2 nodes with undecodable stored jobs, panicking timeout and backoff functions, recording and stream errors, panics, hanging executions and extreme delays; non-trivial: at least one of these and one execution", quick: 96_000, thorough: 2_880_000, strategy: c08_main, run: c08_run })],
        },
        Property {
            id: "C09",
            assumptions: vec![ASSUME],
            arms: {
                let mut a: Vec<Box<dyn vkit::Arm>> = vec![
                    Box::new(GenArm { name: "drain", rule: "1-9 jobs on 1-2 nodes, shut down at a generated instant (call or guard), optionally restarted; non-trivial: something was executed and something left or restarted", quick: 80_000, thorough: 2_400_000, strategy: c09_main, run: c09_run }),
                    Box::new(GenArm { name: "blocking", rule: "same with blocking executors (real threads), no restart; non-trivial as above", quick: 200, thorough: 4_000, strategy: c09_blocking, run: c09_run }),
                ];
                a.extend(crate::props_cron::c09_arms());
                a
            },
        },
    ]
}
