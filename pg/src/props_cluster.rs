//! C30: the whole of the library over the PostgreSQL backend: runners on several nodes that come
//! and go, jobs with scripted outcomes. C31: cron executors of several nodes.
use crate::db::{PG_EPOCH_US, Val};
use crate::fix::*;
use crate::props_tbl::latencies;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Job as BJob, Query};
use rexecutor::executor::{ExecutionError, ExecutionResult, Executor, ExecutorIdentifier};
use rexecutor::job::{ErrorType, Job, JobId, JobStatus};
use rexecutor::pruner::PruneSpec;
use rexecutor_sqlx::RexecutorPgBackend;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vkit::{CaseResult, GenArm, Property, vclock};

// ------------------------------------------------------------------ executors

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Out {
    Done,
    Fail,
    Panic,
    Cancel,
    Snooze(u32),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
struct Step {
    dur_ms: u32,
    out: Out,
    /// fires before the execution ends
    timeout: bool,
    backoff_ms: u32,
}
const LAST: Step = Step { dur_ms: 0, out: Out::Done, timeout: false, backoff_ms: 0 };

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct CJob {
    two: bool,
    node: usize,
    at_ms: u32,
    sched_ms: i32,
    max: u16,
    steps: Vec<Step>,
}
impl CJob {
    fn step(&self, n: usize) -> Step {
        self.steps.get(n).copied().unwrap_or(LAST)
    }
}
#[derive(Clone, Debug)]
enum Ev {
    /// incarnation, job
    Got(usize, i32, i32, DateTime<Utc>),
    Start { tag: usize, n: usize, id: i32, attempt: u16, max: u16 },
    End { tag: usize },
    Recording(i32),
    Failed(String),
    Stop(usize),
}
struct Rt {
    jobs: Vec<CJob>,
    runs: Mutex<HashMap<usize, usize>>,
    log: Mutex<Vec<(i64, Ev)>>,
}
static RT: Mutex<Option<Arc<Rt>>> = Mutex::new(None);
fn rt() -> Arc<Rt> {
    RT.lock().unwrap().clone().expect("harness: no case running")
}
impl Rt {
    fn push(&self, e: Ev) {
        self.log.lock().unwrap().push((vclock::now_ns(), e));
    }
    fn peek(&self, tag: usize) -> Step {
        let n = self.runs.lock().unwrap().get(&tag).copied().unwrap_or(0);
        self.jobs.get(tag).map_or(LAST, |j| j.step(n))
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Work {
    tag: usize,
}
#[derive(Debug)]
struct Oops;
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("oops it's \u{1F980}")
    }
}
impl std::error::Error for Oops {}
impl ExecutionError for Oops {
    fn error_type(&self) -> &'static str {
        "oops"
    }
}
struct Ends(usize);
impl Drop for Ends {
    fn drop(&mut self) {
        rt().push(Ev::End { tag: self.0 });
    }
}
async fn work(job: Job<Work, ()>) -> ExecutionResult {
    let rt = rt();
    let tag = job.data.tag;
    let n = {
        let mut r = rt.runs.lock().unwrap();
        let n = r.entry(tag).or_default();
        *n += 1;
        *n - 1
    };
    let step = rt.jobs.get(tag).map_or(LAST, |j| j.step(n));
    rt.push(Ev::Start { tag, n, id: job.id.into(), attempt: job.attempt, max: job.max_attempts });
    let _ends = Ends(tag);
    tokio::time::sleep(Duration::from_millis(step.dur_ms as u64)).await;
    match step.out {
        Out::Done => ExecutionResult::Done,
        Out::Fail => Oops.into(),
        Out::Cancel => ExecutionResult::Cancel { reason: Box::new("enough".to_string()) },
        Out::Snooze(ms) => ExecutionResult::Snooze { delay: TimeDelta::milliseconds(ms as i64) },
        Out::Panic => {
            vkit::panics::expect_panic();
            std::panic::panic_any("boom")
        }
    }
}
macro_rules! executor {
    ($ty:ident $name:literal $limit:expr) => {
        struct $ty;
        #[async_trait]
        impl Executor for $ty {
            type Data = Work;
            type Metadata = ();
            const NAME: &'static str = $name;
            const MAX_CONCURRENCY: Option<usize> = $limit;
            async fn execute(job: Job<Work, ()>) -> ExecutionResult {
                work(job).await
            }
            fn backoff(job: &Job<Work, ()>) -> TimeDelta {
                TimeDelta::milliseconds(rt().peek(job.data.tag).backoff_ms as i64)
            }
            fn timeout(job: &Job<Work, ()>) -> Option<Duration> {
                let s = rt().peek(job.data.tag);
                s.timeout.then(|| Duration::from_millis(s.dur_ms as u64 / 2))
            }
        }
    };
}
executor!(Free "cluster_free" None);
executor!(Two "cluster_two" Some(2));

/// Notes what the runners of one instance are given and record.
#[derive(Clone)]
struct Tap(RexecutorPgBackend, usize);
impl Tap {
    async fn done(&self, id: JobId, f: impl Future<Output = Result<(), BackendError>>) -> Result<(), BackendError> {
        // from here on another instance may take the job
        rt().push(Ev::Recording(id.into()));
        f.await.inspect_err(|e| rt().push(Ev::Failed(format!("recording an outcome of job {id} failed: {e:?}"))))
    }
}
#[async_trait]
impl Backend for Tap {
    async fn subscribe_ready_jobs(&self, ex: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        let k = self.1;
        Box::pin(self.0.subscribe_ready_jobs(ex).await.map(move |x| {
            match &x {
                Ok(j) => rt().push(Ev::Got(k, j.id, j.attempt, j.scheduled_at)),
                Err(e) => rt().push(Ev::Failed(format!("a runner was given the error {e:?}"))),
            }
            x
        }))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.0.enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.done(id, self.0.mark_job_complete(id)).await
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: BErr) -> Result<(), BackendError> {
        self.done(id, self.0.mark_job_retryable(id, at, e)).await
    }
    async fn mark_job_discarded(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.done(id, self.0.mark_job_discarded(id, e)).await
    }
    async fn mark_job_cancelled(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.done(id, self.0.mark_job_cancelled(id, e)).await
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        self.done(id, self.0.mark_job_snoozed(id, at)).await
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        self.0.prune_jobs(spec).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.0.rerun_job(id).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.0.update_job(job).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.0.query(query).await
    }
}

// ------------------------------------------------------------------ C30

/// One instance of the library.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Inc {
    node: usize,
    start_ms: u32,
    /// shut down after so long, by dropping the guard or by the call
    life: Option<(u32, bool)>,
    free: bool,
    two: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Cluster {
    seed: u16,
    nodes: usize,
    incs: Vec<Inc>,
    jobs: Vec<CJob>,
    lat: [Vec<u32>; 3],
    lose: Vec<u8>,
    /// when all listening connections are lost
    cut: Vec<u32>,
}
fn cluster_case() -> BoxedStrategy<Cluster> {
    let dur = || prop_oneof![2 => Just(0u32), 3 => 0u32..200, 1 => 0u32..4000];
    let delay = || prop_oneof![2 => Just(0u32), 3 => 0u32..2000, 1 => 0u32..40_000];
    let out = prop_oneof![4 => Just(Out::Done), 4 => Just(Out::Fail), 1 => Just(Out::Panic), 1 => Just(Out::Cancel), 2 => delay().prop_map(Out::Snooze)];
    let step = (dur(), out, prop::bool::weighted(0.15), delay()).prop_map(|(dur_ms, out, timeout, backoff_ms)| Step { dur_ms, out, timeout: timeout && dur_ms >= 10, backoff_ms });
    let sched = prop_oneof![4 => Just(0i32), 1 => -5000i32..0, 2 => 0i32..4000, 1 => 0i32..60_000];
    let job = (any::<bool>(), 0usize..3, 0u32..5000, sched, 0u16..6, vec(step, 0..5)).prop_map(|(two, node, at_ms, sched_ms, max, steps)| CJob { two, node, at_ms, sched_ms, max, steps });
    let life = prop_oneof![1 => 0u32..60, 2 => 0u32..6000];
    let inc = (0usize..3, prop_oneof![2 => Just(0u32), 1 => 0u32..5000], prop::option::weighted(0.7, (life, any::<bool>())), prop::bool::weighted(0.8), prop::bool::weighted(0.8))
        .prop_map(|(node, start_ms, life, free, two)| Inc { node, start_ms, life, free, two });
    let rough = prop_oneof![2 => Just((vec![], vec![])), 1 => (vec(0u8..30, 0..4), vec(0u32..8000, 0..3))];
    (any::<u16>(), 1usize..4, vec(inc, 1..5), vec(job, 1..9), latencies(), rough)
        .prop_map(|(seed, nodes, incs, jobs, lat, (lose, cut))| Cluster { seed, nodes, incs, jobs, lat, lose, cut })
        .boxed()
}
struct Want {
    runs: Vec<u16>,
    status: JobStatus,
    attempt: i32,
    errors: Vec<(u16, ErrorType)>,
}
/// What must become of a job.
fn expected(j: &CJob) -> Want {
    let mut w = Want { runs: vec![], status: JobStatus::Scheduled, attempt: 0, errors: vec![] };
    for n in 0.. {
        w.attempt += 1;
        let a = w.attempt as u16;
        w.runs.push(a);
        let s = j.step(n);
        let failed = match s.out {
            _ if s.timeout => Some(ErrorType::Timeout),
            Out::Fail => Some(ErrorType::Other("oops".into())),
            Out::Panic => Some(ErrorType::Panic),
            Out::Done => {
                w.status = JobStatus::Complete;
                return w;
            }
            Out::Cancel => {
                w.errors.push((a, ErrorType::Cancelled));
                w.status = JobStatus::Cancelled;
                return w;
            }
            Out::Snooze(_) => {
                w.attempt -= 1;
                None
            }
        };
        if let Some(e) = failed {
            w.errors.push((a, e));
            if a >= j.max {
                w.status = JobStatus::Discarded;
                return w;
            }
        }
    }
    w
}
const TAIL_S: u64 = 3_000;

fn run_cluster(c: &Cluster) -> CaseResult {
    let state = Arc::new(Rt { jobs: c.jobs.clone(), runs: Default::default(), log: Default::default() });
    *RT.lock().unwrap() = Some(state.clone());
    let r = on_server(c.seed as u64, c.nodes, async |s, bs, r| {
        {
            let mut n = s.net.lock().unwrap();
            n.armed = true;
            [n.before, n.mid, n.after] = c.lat.clone();
            s.sh.lock().lose = c.lose.iter().map(|k| *k as usize).collect();
        }
        let t0 = tokio::time::Instant::now();
        let start = |k: usize, node: usize, free: bool, two: bool| {
            let mut rx = rexecutor::Rexecutor::new(Tap(bs[node % bs.len()].clone(), k));
            if free {
                rx = rx.with_executor::<Free>();
            }
            if two {
                rx = rx.with_executor::<Two>();
            }
            rx
        };
        let ids: Arc<Mutex<HashMap<usize, i32>>> = Default::default();
        let scheds: Arc<Mutex<HashMap<usize, DateTime<Utc>>>> = Default::default();
        for (tag, j) in c.jobs.iter().cloned().enumerate() {
            let (b, ids, st) = (bs[j.node % bs.len()].clone(), ids.clone(), state.clone());
            let scheds = scheds.clone();
            tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(j.at_ms as u64)).await;
                let at = Utc::now() + TimeDelta::milliseconds(j.sched_ms as i64);
                scheds.lock().unwrap().insert(tag, at);
                let r = if j.two {
                    Two::builder().with_data(Work { tag }).schedule_at(at).with_max_attempts(j.max).enqueue_to_backend(&b).await
                } else {
                    Free::builder().with_data(Work { tag }).schedule_at(at).with_max_attempts(j.max).enqueue_to_backend(&b).await
                };
                match r {
                    Ok(id) => drop(ids.lock().unwrap().insert(tag, id.into())),
                    Err(e) => st.push(Ev::Failed(format!("enqueueing failed: {e:?}"))),
                }
            });
        }
        enum Act {
            Start(usize),
            Stop(usize),
            Cut,
        }
        let mut acts: Vec<(u64, Act)> = c.cut.iter().map(|t| (*t as u64, Act::Cut)).collect();
        for (k, i) in c.incs.iter().enumerate() {
            acts.push((i.start_ms as u64, Act::Start(k)));
            if let Some((l, _)) = i.life {
                acts.push((i.start_ms as u64 + l as u64, Act::Stop(k)));
            }
        }
        acts.sort_by_key(|a| a.0);
        let mut up: HashMap<usize, _> = HashMap::new();
        for (at, a) in acts {
            tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
            match a {
                Act::Cut => s.drop_listeners(),
                Act::Start(k) => {
                    let i = &c.incs[k];
                    up.insert(k, start(k, i.node, i.free, i.two));
                }
                Act::Stop(k) => {
                    if let Some(rx) = up.remove(&k) {
                        if c.incs[k].life.is_some_and(|l| l.1) {
                            drop(rx.drop_guard());
                        } else {
                            rx.graceful_shutdown();
                        }
                        state.push(Ev::Stop(k));
                    }
                }
            }
        }
        // one more instance finishes what is left
        tokio::time::sleep_until(t0 + Duration::from_millis(12_000)).await;
        let _last = start(c.incs.len(), 0, true, true);
        let (col, open) = {
            let db = s.sh.lock();
            let e = db.enums.iter().find(|e| e.name == "rexecutor_job_state").expect("harness: status type");
            let open: Vec<bool> = e.labels.iter().map(|l| !["complete", "discarded", "cancelled"].contains(&l.as_str())).collect();
            (db.col(JOBS, "status"), open)
        };
        for _ in 0..TAIL_S {
            tokio::time::sleep(Duration::from_secs(1)).await;
            let db = s.sh.lock();
            let left = db.tables[JOBS].rows.iter().filter_map(|r| r.committed.as_ref()).any(|r| matches!(&r[col], Val::En(_, k) if open[*k]));
            if !left && ids.lock().unwrap().len() == c.jobs.len() {
                break;
            }
        }
        s.net.lock().unwrap().armed = false;
        let table = bs[0].query(Query::And(vec![])).await;
        let ids = ids.lock().unwrap().clone();
        match table {
            Ok(t) => judge(c, &t, &ids, &scheds.lock().unwrap(), &state.log.lock().unwrap(), r),
            Err(e) => r.fail(format!("reading the jobs failed: {e:?}")),
        }
    });
    *RT.lock().unwrap() = None;
    r
}
fn judge(c: &Cluster, table: &[BJob], ids: &HashMap<usize, i32>, scheds: &HashMap<usize, DateTime<Utc>>, log: &[(i64, Ev)], r: &mut CaseResult) {
    let ms = |t: i64| (t - EPOCH) as f64 / 1e6;
    let tags: HashMap<i32, usize> = ids.iter().map(|(t, i)| (*i, *t)).collect();
    let mut stopped: HashMap<usize, i64> = HashMap::new();
    let mut runs: HashMap<usize, Vec<u16>> = HashMap::new();
    let mut running: HashMap<usize, i64> = HashMap::new();
    // job in the hands of an instance
    let mut held: HashMap<i32, usize> = HashMap::new();
    let mut used: std::collections::HashSet<usize> = Default::default();
    for (t, e) in log {
        match e {
            Ev::Failed(e) => return r.fail(format!("{e} at {:.3} ms although nothing was made to fail", ms(*t))),
            Ev::Stop(k) => drop(stopped.insert(*k, *t)),
            Ev::Got(k, id, _, sched) => {
                used.insert(*k);
                if let Some(s) = stopped.get(k).filter(|s| *t > **s) {
                    return r.fail(format!("instance {k} was shut down at {:.3} ms but took job {id} at {:.3} ms", ms(*s), ms(*t)));
                }
                let early = sched.timestamp_micros() - t / 1000;
                if early > 100_000 {
                    return r.fail(format!("job {id} was handed out {early} us before its schedule"));
                }
                if let Some(o) = held.insert(*id, *k) {
                    return r.fail(format!("job {id} was handed to instance {k} at {:.3} ms while instance {o} was executing it", ms(*t)));
                }
                let two = |id: &i32| tags.get(id).is_some_and(|t| c.jobs[*t].two);
                if two(id) && held.iter().filter(|(i, o)| **o == *k && two(i)).count() > 2 {
                    return r.fail(format!("instance {k} executes three jobs of an executor limited to two at {:.3} ms", ms(*t)));
                }
            }
            Ev::Recording(id) => drop(held.remove(id)),
            Ev::Start { tag, n, id, attempt, max } => {
                if ids.get(tag) != Some(id) || *max != c.jobs[*tag].max {
                    return r.fail(format!("job {id} was executed with the contents of job {:?} (maximum {max})", ids.get(tag)));
                }
                if let Some(f) = running.insert(*tag, *t) {
                    return r.fail(format!("execution {n} of job {id} started at {:.3} ms while one started at {:.3} ms was running", ms(*t), ms(f)));
                }
                runs.entry(*tag).or_default().push(*attempt);
            }
            Ev::End { tag } => drop(running.remove(tag)),
        }
    }
    for (tag, j) in c.jobs.iter().enumerate() {
        let Some(id) = ids.get(&tag) else { return r.fail(format!("job {tag} was not stored")) };
        let Some(b) = table.iter().find(|b| b.id == *id) else { return r.fail(format!("job {id} is not stored any more")) };
        let w = expected(j);
        let got = runs.remove(&tag).unwrap_or_default();
        let errors: Vec<(u16, ErrorType)> = b.errors.iter().map(|e| (e.attempt, e.error_type.clone())).collect();
        if got != w.runs || b.status != w.status || b.attempt != w.attempt || errors != w.errors || b.max_attempts != j.max as i32 {
            return r.fail(format!(
                "job {id} (maximum {}) was executed as attempts {got:?} and is left {:?}, attempt {}, with the errors {errors:?}; expected attempts {:?}, {:?}, attempt {}, errors {:?}",
                j.max, b.status, b.attempt, w.runs, w.status, w.attempt, w.errors
            ));
        }
        if w.runs.len() == 1 && (b.scheduled_at - scheds[&tag]).abs() > TimeDelta::microseconds(1) {
            return r.fail(format!("job {id} was scheduled at {} and nothing rescheduled it, but it is left scheduled at {}", scheds[&tag], b.scheduled_at));
        }
        r.class_if(w.runs.len() > 1, "several executions");
    }
    if table.len() != c.jobs.len() {
        return r.fail(format!("{} jobs were stored, {} are there", c.jobs.len(), table.len()));
    }
    let live: Vec<i64> = stopped.iter().filter(|(k, _)| used.contains(k)).map(|(_, t)| *t).collect();
    r.class_if(!live.is_empty(), "a shutdown after work");
    r.class_if(used.len() > 1, "several instances worked");
    r.class_if(!c.cut.is_empty() || !c.lose.is_empty(), "notifications lost");
    r.nontrivial = used.len() > 1 || !live.is_empty();
    let _ = PG_EPOCH_US;
}

// ------------------------------------------------------------------ C31

/// One cron entry: these seconds of every minute that `minutes` divides.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Entry {
    other: bool,
    data: u8,
    seconds: Vec<u8>,
    minutes: u8,
}
impl Entry {
    fn has(&self, t_s: i64) -> bool {
        self.seconds.contains(&(t_s.rem_euclid(60) as u8)) && t_s.div_euclid(60).rem_euclid(60) % self.minutes as i64 == 0
    }
    fn schedule(&self) -> cron::Schedule {
        let secs: Vec<String> = self.seconds.iter().map(|s| s.to_string()).collect();
        let expr = format!("{} {} * * * *", secs.join(","), if self.minutes == 1 { "*".to_string() } else { format!("*/{}", self.minutes) });
        std::str::FromStr::from_str(&expr).expect("harness: cron expression")
    }
    fn key(&self) -> (&'static str, u8) {
        (if self.other { Tock::NAME } else { Tick::NAME }, self.data)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct CInc {
    node: usize,
    start_ms: u32,
    life_ms: Option<u32>,
    /// which entries it has, as bits
    entries: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct CronCase {
    seed: u16,
    nodes: usize,
    entries: Vec<Entry>,
    incs: Vec<CInc>,
    span_s: u32,
    dur_ms: Vec<u16>,
    lat: [Vec<u32>; 3],
}
fn cron_case() -> BoxedStrategy<CronCase> {
    let secs = prop_oneof![
        2 => (2u8..8).prop_map(|k| (0..60).step_by(k as usize).collect::<Vec<u8>>()),
        1 => prop::collection::btree_set(0u8..30, 1..5).prop_map(|s| s.into_iter().map(|x| x * 2).collect()),
    ];
    let entry = (any::<bool>(), 0u8..2, secs, prop_oneof![4 => Just(1u8), 1 => Just(2u8)]).prop_map(|(other, data, seconds, minutes)| Entry { other, data, seconds, minutes });
    let start = prop_oneof![2 => Just(0u32), 1 => 0u32..20_000, 1 => (0u32..20).prop_map(|s| s * 1000)];
    let life = prop::option::weighted(0.3, prop_oneof![1 => 0u32..40_000, 1 => (0u32..40).prop_map(|s| s * 1000)]);
    let inc = (0usize..3, start, life, prop_oneof![3 => Just(255u8), 1 => any::<u8>()]).prop_map(|(node, start_ms, life_ms, entries)| CInc { node, start_ms, life_ms, entries });
    let l = || prop_oneof![1 => Just(vec![]), 3 => vec(0u32..5, 1..5)];
    (any::<u16>(), 1usize..4, vec(entry, 1..4), vec(inc, 1..5), 5u32..60, vec(prop_oneof![2 => Just(0u16), 1 => 0u16..3000], 1..4), [l(), l(), l()])
        .prop_map(|(seed, nodes, entries, incs, span_s, dur_ms, lat)| CronCase { seed, nodes, entries, incs, span_s, dur_ms, lat })
        .boxed()
}
/// executions: executor, data, scheduled_at in seconds, start
static TICKS: Mutex<(Vec<u16>, Vec<(&'static str, u8, i64, i64)>)> = Mutex::new((vec![], vec![]));
async fn tick(name: &'static str, job: Job<u8, ()>) -> ExecutionResult {
    let dur = {
        let mut t = TICKS.lock().unwrap();
        t.1.push((name, job.data, job.scheduled_at.timestamp(), vclock::now_ns()));
        t.0[t.1.len() % t.0.len()]
    };
    tokio::time::sleep(Duration::from_millis(dur as u64)).await;
    ExecutionResult::Done
}
macro_rules! ticker {
    ($ty:ident $name:literal) => {
        struct $ty;
        #[async_trait]
        impl Executor for $ty {
            type Data = u8;
            type Metadata = ();
            const NAME: &'static str = $name;
            async fn execute(job: Job<u8, ()>) -> ExecutionResult {
                tick($name, job).await
            }
        }
    };
}
ticker!(Tick "cluster_tick");
ticker!(Tock "cluster_tock");

fn run_cron(c: &CronCase) -> CaseResult {
    *TICKS.lock().unwrap() = (c.dur_ms.clone(), vec![]);
    on_server(c.seed as u64, c.nodes, async |s, bs, r| {
        {
            let mut n = s.net.lock().unwrap();
            n.armed = true;
            [n.before, n.mid, n.after] = c.lat.clone();
        }
        let t0 = tokio::time::Instant::now();
        let end_ms = c.span_s as u64 * 1000 + 500;
        let mut acts: Vec<(u64, usize, bool)> = vec![];
        for (k, i) in c.incs.iter().enumerate() {
            acts.push((i.start_ms as u64, k, true));
            if let Some(l) = i.life_ms {
                acts.push((i.start_ms as u64 + l as u64, k, false));
            }
        }
        acts.retain(|a| a.0 < end_ms);
        acts.sort_by_key(|a| (a.0, !a.2));
        let mut up: HashMap<usize, _> = HashMap::new();
        // life time of each instance, in ns
        let mut lives: Vec<(usize, i64, Option<i64>)> = vec![];
        for (at, k, on) in acts {
            tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
            if on {
                lives.push((k, vclock::now_ns(), None));
                let i = &c.incs[k];
                let mut rx = rexecutor::Rexecutor::new(bs[i.node % bs.len()].clone());
                for (n, e) in c.entries.iter().enumerate() {
                    if i.entries >> n & 1 == 0 {
                        continue;
                    }
                    rx = if e.other { rx.with_cron_executor::<Tock>(e.schedule(), e.data) } else { rx.with_cron_executor::<Tick>(e.schedule(), e.data) };
                }
                up.insert(k, rx);
            } else if let Some(rx) = up.remove(&k) {
                rx.graceful_shutdown();
                if let Some(l) = lives.iter_mut().find(|l| l.0 == k) {
                    l.2 = Some(vclock::now_ns());
                }
            }
        }
        tokio::time::sleep_until(t0 + Duration::from_millis(end_ms)).await;
        for (k, rx) in up {
            rx.graceful_shutdown();
            if let Some(l) = lives.iter_mut().find(|l| l.0 == k) {
                l.2 = Some(vclock::now_ns());
            }
        }
        // what is running ends
        tokio::time::sleep(Duration::from_secs(10)).await;
        s.net.lock().unwrap().armed = false;
        let table = match bs[0].query(Query::And(vec![])).await {
            Ok(t) => t,
            Err(e) => return r.fail(format!("reading the jobs failed: {e:?}")),
        };
        let now = Utc::now().timestamp();
        let rel = |t_s: i64| t_s - EPOCH / 1_000_000_000;
        let mut rows: HashMap<(&str, u8, i64), Vec<&BJob>> = HashMap::new();
        for j in &table {
            let name = if j.executor == Tick::NAME { Tick::NAME } else { Tock::NAME };
            let data = j.data.as_u64().unwrap_or(255) as u8;
            if j.scheduled_at.timestamp_subsec_nanos() != 0 || j.executor != name {
                return r.fail(format!("stored is {j:?}"));
            }
            rows.entry((name, data, j.scheduled_at.timestamp())).or_default().push(j);
        }
        let runs = TICKS.lock().unwrap().1.clone();
        let mut keys: Vec<(&'static str, u8)> = c.entries.iter().map(|e| e.key()).collect();
        keys.sort();
        keys.dedup();
        let mut shared = 0;
        for (name, data) in keys {
            for t in EPOCH / 1_000_000_000 - 5..now + 100 {
                let at = t * 1_000_000_000;
                let owners = lives.iter().filter(|(k, ..)| c.entries.iter().enumerate().any(|(n, e)| c.incs[*k].entries >> n & 1 == 1 && e.key() == (name, data) && e.has(t)));
                let (mut sure, mut may) = (0, 0);
                for (_, from, to) in owners {
                    may += i32::from(*from <= at && to.is_none_or(|to| to > at - 50_000_000));
                    sure += i32::from(*from < at - 50_000_000 && to.is_none_or(|to| to >= at));
                }
                let got = rows.remove(&(name, data, t)).unwrap_or_default();
                let what = format!("the occurrence at {} s of {name} with data {data}", rel(t));
                if got.len() > 1 {
                    return r.fail(format!("{what}, on {may} instances, has {} jobs: {:?}", got.len(), got.iter().map(|j| j.id).collect::<Vec<_>>()));
                }
                if got.is_empty() && sure > 0 {
                    return r.fail(format!("{what}, on {sure} instances, has no job"));
                }
                if !got.is_empty() && may == 0 {
                    return r.fail(format!("job {} stands for {what}, which no instance has", got[0].id));
                }
                shared += i32::from(sure > 1);
                let n = runs.iter().filter(|x| (x.0, x.1, x.2) == (name, data, t)).count();
                if n > 1 {
                    return r.fail(format!("{what} was executed {n} times"));
                }
                // executed if some instance is up a while longer
                let served = lives.iter().any(|(k, from, to)| {
                    c.entries.iter().enumerate().any(|(n, e)| c.incs[*k].entries >> n & 1 == 1 && e.key().0 == name) && *from < at && to.is_none_or(|to| to > at + 5_000_000_000)
                });
                if let Some(j) = got.first().filter(|_| served)
                    && (n != 1 || j.status != JobStatus::Complete)
                {
                    return r.fail(format!("{what} was executed {n} times and its job is {:?}", j.status));
                }
            }
        }
        if let Some((k, v)) = rows.iter().next() {
            return r.fail(format!("job {} ({k:?}) belongs to no occurrence", v[0].id));
        }
        r.class_if(shared > 0, "an occurrence on several instances");
        r.class_if(lives.iter().any(|l| l.1 > lives[0].1), "an instance joined later");
        r.nontrivial = shared > 1;
    })
}

const STANDIN: &str = "PostgreSQL is a stand-in that executes the library's own SQL and migrations (read committed, row locks, SKIP LOCKED, advisory locks, triggers, LISTEN/NOTIFY) over the wire protocol, on the same clock as the nodes";

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C30",
        assumptions: vec![STANDIN, "no statement fails; instances end by graceful shutdown only, and their process lives on"],
        arms: vec![Box::new(GenArm {
            name: "cluster",
            rule: "1-8 jobs with scripted outcomes, 1-4 instances on 1-3 nodes that start and shut down at generated instants, statement latencies, lost notifications and listeners; non-trivial: several instances worked, or one was shut down after work",
            quick: 40_000,
            thorough: 1_500_000,
            strategy: cluster_case,
            run: run_cluster,
        })],
    },
    Property {
        id: "C31",
        assumptions: vec![STANDIN, "the nodes' clocks agree; occurrences are at least 2 s apart and statements take at most 12 ms; executions succeed"],
        arms: vec![Box::new(GenArm {
            name: "cron",
            rule: "1-3 cron entries of two executors on 1-4 instances on 1-3 nodes that start and shut down at generated instants, statement latencies; non-trivial: at least two occurrences on several instances",
            quick: 6_000,
            thorough: 250_000,
            strategy: cron_case,
            run: run_cron,
        })],
    }]
}
