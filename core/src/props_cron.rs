//! C18, C19 and the cron/pruner arms of C09: virtual time over a recording backend.
use crate::scen::{MS, NAMES, SEC, backend_error, dt, ns};
use async_trait::async_trait;
use chrono::{DateTime, FixedOffset, TimeDelta, Utc};
use futures::Stream;
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::Rexecutor;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Job as BJob, Query};
use rexecutor::executor::{ExecutionResult, Executor, ExecutorIdentifier};
use rexecutor::job::{Job, JobId, JobStatus};
use rexecutor::pruner::{PruneSpec, Pruner, PrunerConfig};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vkit::{Arm, CaseResult, GenArm, Property, vclock};

// ------------------------------------------------------------------ recording backend

#[derive(Clone, Debug)]
pub struct EnqCall {
    at: i64,
    executor: String,
    data: Value,
    metadata: Value,
    max_attempts: u16,
    priority: u16,
    tags: Vec<String>,
    scheduled_at: DateTime<Utc>,
    failed: bool,
}
#[derive(Clone, Debug)]
pub struct PruneCall {
    at: i64,
    end: Option<i64>,
    spec: PruneSpec,
    failed: bool,
}
#[derive(Default)]
struct Log {
    enq: Vec<EnqCall>,
    prunes: Vec<PruneCall>,
    runs: Vec<(i64, &'static str, Value, DateTime<Utc>)>,
}
#[derive(Clone)]
struct CronBackend {
    inner: InMemoryBackend,
    log: Arc<Mutex<Log>>,
    lat: Arc<Vec<u32>>,
    fail: Arc<Vec<u32>>,
}
impl CronBackend {
    fn new(lat: &[u32], fail: &[u32]) -> Self {
        Self { inner: InMemoryBackend::new(), log: Default::default(), lat: Arc::new(lat.to_vec()), fail: Arc::new(fail.to_vec()) }
    }
    async fn delay(&self, n: usize) {
        let l = if self.lat.is_empty() { 0 } else { self.lat[n % self.lat.len()] };
        if l > 0 {
            tokio::time::sleep(Duration::from_millis(l as u64)).await;
        }
    }
}
#[async_trait]
impl Backend for CronBackend {
    async fn subscribe_ready_jobs(&self, ex: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        self.inner.subscribe_ready_jobs(ex).await
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        let n = {
            let mut l = self.log.lock().unwrap();
            let n = l.enq.len();
            l.enq.push(EnqCall {
                at: vclock::now_ns(),
                executor: job.executor.clone(),
                data: job.data.clone(),
                metadata: job.metadata.clone(),
                max_attempts: job.max_attempts,
                priority: job.priority,
                tags: job.tags.clone(),
                scheduled_at: job.scheduled_at,
                failed: self.fail.contains(&(n as u32)),
            });
            n
        };
        self.delay(n).await;
        if self.fail.contains(&(n as u32)) {
            return Err(backend_error(n as u8, 0.into()));
        }
        self.inner.enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.inner.mark_job_complete(id).await
    }
    async fn mark_job_retryable(&self, id: JobId, next: DateTime<Utc>, error: BErr) -> Result<(), BackendError> {
        self.inner.mark_job_retryable(id, next, error).await
    }
    async fn mark_job_discarded(&self, id: JobId, error: BErr) -> Result<(), BackendError> {
        self.inner.mark_job_discarded(id, error).await
    }
    async fn mark_job_cancelled(&self, id: JobId, error: BErr) -> Result<(), BackendError> {
        self.inner.mark_job_cancelled(id, error).await
    }
    async fn mark_job_snoozed(&self, id: JobId, next: DateTime<Utc>) -> Result<(), BackendError> {
        self.inner.mark_job_snoozed(id, next).await
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        let n = {
            let mut l = self.log.lock().unwrap();
            let n = l.prunes.len();
            l.prunes.push(PruneCall { at: vclock::now_ns(), end: None, spec: spec.clone(), failed: self.fail.contains(&(n as u32)) });
            n
        };
        self.delay(n).await;
        self.log.lock().unwrap().prunes[n].end = Some(vclock::now_ns());
        if self.fail.contains(&(n as u32)) {
            return Err(backend_error(n as u8, 0.into()));
        }
        self.inner.prune_jobs(spec).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.inner.rerun_job(id).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.inner.update_job(job).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.inner.query(query).await
    }
}

// ------------------------------------------------------------------ cron executors

static CRON_LOG: Mutex<Option<(Arc<Mutex<Log>>, u32)>> = Mutex::new(None);
fn ran(name: &'static str, data: Value, sched: DateTime<Utc>) -> u32 {
    let g = CRON_LOG.lock().unwrap();
    let Some((l, dur)) = g.as_ref() else { return 0 };
    l.lock().unwrap().runs.push((vclock::now_ns(), name, data, sched));
    *dur
}
macro_rules! cron_ex {
    ($ty:ident, $name:literal, $data:ty, $max:literal) => {
        struct $ty;
        #[async_trait]
        impl Executor for $ty {
            type Data = $data;
            type Metadata = String;
            const NAME: &'static str = $name;
            const MAX_ATTEMPTS: u16 = $max;
            async fn execute(job: Job<Self::Data, Self::Metadata>) -> ExecutionResult {
                let d = ran($name, json!(job.data), job.scheduled_at);
                if d > 0 {
                    tokio::time::sleep(Duration::from_millis(d as u64)).await;
                }
                ExecutionResult::Done
            }
        }
    };
}
cron_ex!(CronA, "cron_a", u8, 3);
cron_ex!(CronB, "cron_b", String, 7);
const CRON_NAMES: [&str; 2] = ["cron_a", "cron_b"];
const CRON_MAX: [u16; 2] = [3, 7];
const WORDS: [&str; 4] = ["", "a", "\u{fc}n\u{ef}", "{\"x\":1}"];
fn cron_data(ex: usize, d: u8) -> Value {
    if ex == 0 { json!(d) } else { json!(WORDS[d as usize % 4]) }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CronSpec {
    ex: usize,
    data: u8,
    sched: String,
    /// minutes east of UTC; None: the plain UTC method
    off: Option<i32>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CronCase {
    epoch_s: i64,
    sub_us: i64,
    crons: Vec<CronSpec>,
    run_ms: u64,
    lat: Vec<u32>,
    fail: Vec<u32>,
    dur_ms: u32,
    stop_ms: Option<u64>,
    guard: bool,
}

const FAST: &[&str] = &["* * * * * *", "*/2 * * * * *", "0/7 * * * * *", "1,2,3,30 * * * * *", "59,0 * * * * *", "*/15 * * * * *", "10-14 * * * * *"];
const MID: &[&str] = &["0 * * * * *", "30 */2 * * * *", "59 * * * * *", "0,30 */5 * * * *", "15 0/3 * * * *", "45 59,0,1 * * * *"];
const SLOW: &[&str] = &["0 0 * * * *", "0 30 */2 * * *", "59 59 * * * *", "0 0,20 * * * *", "0 15 8-10 * * *"];
const DAILY: &[&str] = &["0 0 0 * * *", "0 30 9 * * *", "59 59 23 * * *", "0 0 12 * * Mon-Fri", "0 5 4 1,15 * *", "30 0 0 28-31 2 *", "0 0 6 * * Sat,Sun"];
/// ticking every second or slower, horizon in ms
const CLASSES: [(&[&str], u64); 4] = [(FAST, 12_000), (MID, 400_000), (SLOW, 6 * 3_600_000), (DAILY, 4 * 86_400_000)];

fn sched_class() -> BoxedStrategy<(Vec<String>, u64)> {
    prop_oneof![5 => Just(0usize), 3 => Just(1usize), 2 => Just(2usize), 1 => Just(3usize)]
        .prop_flat_map(|k| {
            let (pool, hz) = CLASSES[k];
            (vec(prop::sample::select(pool.to_vec()), 4), (hz / 4)..hz)
                .prop_map(|(s, h)| (s.into_iter().map(String::from).collect(), h))
        })
        .boxed()
}
fn epoch() -> BoxedStrategy<(i64, i64)> {
    // 2024-01-01 .. 2026-12-31, sub-second phases incl. just before / after a full second
    let sub = prop_oneof![3 => 0i64..1_000_000, 1 => 970_000i64..1_000_000, 1 => 0i64..1000];
    let day = prop_oneof![3 => 0i64..94_608_000, 1 => (0i64..1095, -5i64..5).prop_map(|(d, s)| (d * 86_400 + s).max(0))];
    (day.prop_map(|d| 1_704_067_200 + d), sub).boxed()
}
fn cron_strategy(stop: bool) -> BoxedStrategy<CronCase> {
    let off = prop_oneof![2 => Just(None), 1 => Just(Some(0)), 3 => prop::sample::select(vec![-720, -570, -300, -1, 60, 330, 345, 765, 840, 825]).prop_map(Some)];
    let spec = (0usize..2, 0u8..4, off, 0usize..4);
    (
        epoch(),
        sched_class(),
        vec(spec, 1..4),
        vec(prop_oneof![3 => Just(0u32), 1 => 1u32..20, 1 => 1u32..700], 0..4),
        prop_oneof![2 => Just(vec![]), 1 => vec(0u32..12, 1..4)],
        prop_oneof![Just(0u32), 0u32..3000],
        any::<bool>(),
        0u64..1000,
    )
        .prop_map(move |((epoch_s, sub_us), (scheds, run_ms), specs, lat, fail, dur_ms, guard, frac)| {
            let mut crons: Vec<CronSpec> = vec![];
            for (ex, data, off, k) in specs {
                if !crons.iter().any(|c| c.ex == ex && c.data == data) {
                    crons.push(CronSpec { ex, data, sched: scheds[k].clone(), off });
                }
            }
            CronCase { epoch_s, sub_us, crons, run_ms, lat, fail, dur_ms, stop_ms: stop.then_some(run_ms * frac / 1500), guard }
        })
        .boxed()
}
fn occurrences(sched: &str, off: Option<i32>, from: i64, to: i64) -> Vec<i64> {
    let s = cron::Schedule::from_str(sched).unwrap();
    let off = FixedOffset::east_opt(off.unwrap_or(0) * 60).unwrap();
    let from = dt(from - 5 * SEC).with_timezone(&off);
    s.after(&from).map(|t| ns(t.to_utc())).take_while(|t| *t <= to + 5 * SEC + 1).collect::<Vec<_>>()
}

fn cron_run(c: &CronCase) -> CaseResult {
    let mut r = CaseResult::ok();
    let b = CronBackend::new(&c.lat, &c.fail);
    let epoch = c.epoch_s * SEC + c.sub_us * 1000;
    *CRON_LOG.lock().unwrap() = Some((b.log.clone(), c.dur_ms));
    let (t0, t1, stopped, table) = vkit::block_on(epoch, async {
        let t0 = vclock::now_ns();
        let start = tokio::time::Instant::now();
        let mut rx = Rexecutor::new(b.clone());
        for s in &c.crons {
            let sched = cron::Schedule::from_str(&s.sched).unwrap();
            rx = match (s.ex, s.off) {
                (0, None) => rx.with_cron_executor::<CronA>(sched, s.data),
                (0, Some(o)) => rx.with_cron_executor_for_timezone::<CronA, _>(sched, s.data, FixedOffset::east_opt(o * 60).unwrap()),
                (_, None) => rx.with_cron_executor::<CronB>(sched, WORDS[s.data as usize % 4].to_string()),
                (_, Some(o)) => rx.with_cron_executor_for_timezone::<CronB, _>(sched, WORDS[s.data as usize % 4].to_string(), FixedOffset::east_opt(o * 60).unwrap()),
            };
        }
        let mut stopped = None;
        let mut rx = Some(rx);
        if let Some(s) = c.stop_ms {
            tokio::time::sleep_until(start + Duration::from_millis(s)).await;
            stopped = Some(vclock::now_ns());
            if c.guard {
                drop(rx.take().unwrap().drop_guard());
            } else {
                rx.take().unwrap().graceful_shutdown();
            }
        }
        tokio::time::sleep_until(start + Duration::from_millis(c.run_ms)).await;
        let t1 = vclock::now_ns();
        // let what was claimed by now finish
        let table = b.inner.query(Query::And(vec![])).await.unwrap_or_default();
        (t0, t1, stopped, table)
    });
    *CRON_LOG.lock().unwrap() = None;
    let log = std::mem::take(&mut *b.log.lock().unwrap());
    let mut total = 0;
    for s in &c.crons {
        let data = cron_data(s.ex, s.data);
        let who = format!("cron executor {} with data {data} and schedule {:?} at offset {:?} min", CRON_NAMES[s.ex], s.sched, s.off);
        let calls: Vec<&EnqCall> = log.enq.iter().filter(|e| e.executor == CRON_NAMES[s.ex] && e.data == data).collect();
        let occ = occurrences(&s.sched, s.off, t0, t1 + SEC);
        for e in &calls {
            let t = ns(e.scheduled_at);
            if !occ.contains(&t) && t <= t1 + 5 * SEC {
                r.fail(format!("{who}: a job was enqueued for {}, which is no occurrence", e.scheduled_at));
            }
            if t > t1 + 5 * SEC {
                r.fail(format!("{who}: at {} a job was enqueued for {} already", dt(e.at), e.scheduled_at));
            }
            if t <= t0 {
                r.fail(format!("{who}: a job was enqueued for {}, before the start", e.scheduled_at));
            }
            if calls.iter().filter(|x| x.scheduled_at == e.scheduled_at).count() > 1 {
                r.fail(format!("{who}: several jobs were enqueued for {}", e.scheduled_at));
            }
            if e.max_attempts != CRON_MAX[s.ex] || e.priority != 0 || !e.tags.is_empty() || !e.metadata.is_null() {
                r.fail(format!("{who}: enqueued as {e:?} instead of with the executor's defaults"));
            }
            if let Some(sd) = stopped {
                if e.at > sd + 5 * MS {
                    r.fail(format!("{who}: a job was enqueued {} ms after the shutdown", (e.at - sd) / MS));
                }
            }
        }
        let until = stopped.unwrap_or(t1).min(t1);
        for t in occ.iter().filter(|t| **t > t0 + 15 * MS && **t < until - 15 * MS) {
            total += 1;
            let Some(e) = calls.iter().find(|e| ns(e.scheduled_at) == *t) else {
                r.fail(format!("{who}: no job was enqueued for the occurrence {}", dt(*t)));
                continue;
            };
            if e.failed {
                continue;
            }
            // stored once and executed on time
            let lat = *c.lat.iter().max().unwrap_or(&0) as i64 * MS;
            let stored = table.iter().filter(|j| j.executor == CRON_NAMES[s.ex] && j.data == data && ns(j.scheduled_at) == *t).count();
            if t + lat + 50 * MS < t1 && stored != 1 {
                r.fail(format!("{who}: {stored} jobs are stored for the occurrence {}", dt(*t)));
            }
            if t + lat + SEC + 50 * MS < until {
                let runs: Vec<_> = log.runs.iter().filter(|x| x.1 == CRON_NAMES[s.ex] && x.2 == data && ns(x.3) == *t).collect();
                if runs.len() != 1 {
                    r.fail(format!("{who}: the job of {} was executed {} times", dt(*t), runs.len()));
                } else if runs[0].0 > t + lat + SEC || runs[0].0 < t - 100 * MS {
                    r.fail(format!("{who}: the job of {} was executed at {}", dt(*t), dt(runs[0].0)));
                }
            }
        }
    }
    r.class_if(c.crons.len() > 1, "several cron entries");
    r.class_if(c.crons.iter().any(|s| s.off.is_some_and(|o| o != 0)), "time zone offset");
    r.class_if(log.enq.iter().any(|e| e.failed), "failed enqueue");
    r.class_if(c.run_ms > 86_400_000, "days");
    r.nontrivial = total >= 2;
    r
}

// ------------------------------------------------------------------ pruner

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PruneCase {
    epoch_s: i64,
    sub_us: i64,
    sched: String,
    run_ms: u64,
    /// each: (by length, status, executor selection)
    pruners: Vec<(bool, u8, u8)>,
    batch: bool,
    /// None: default (10); Some(None): unlimited
    limit: Option<Option<usize>>,
    lat: Vec<u32>,
    fail: Vec<u32>,
    stop_ms: Option<u64>,
    guard: bool,
}

fn add_pruner(cfg: PrunerConfig, i: usize, p: (bool, u8, u8), batch: bool) -> PrunerConfig {
    use crate::scen::{One, Open, Two};
    let status = [JobStatus::Complete, JobStatus::Cancelled, JobStatus::Discarded][p.1 as usize % 3];
    let base = if p.0 { Pruner::max_length(i as u32, status) } else { Pruner::max_age(TimeDelta::seconds(i as i64), status) };
    macro_rules! add {
        ($p:expr) => {
            if batch { cfg.with_pruners([$p]) } else { cfg.with_pruner($p) }
        };
    }
    match p.2 % 5 {
        0 => add!(base),
        1 => add!(base.only::<Open>()),
        2 => add!(base.only::<Open>().and::<One>()),
        3 => add!(base.except::<Two>()),
        _ => add!(base.except::<Two>().and::<One>()),
    }
}
fn spec_of(i: usize, p: (bool, u8, u8)) -> PruneSpec {
    use rexecutor::pruner::{PruneBy, Spec};
    PruneSpec {
        status: [JobStatus::Complete, JobStatus::Cancelled, JobStatus::Discarded][p.1 as usize % 3],
        prune_by: if p.0 { PruneBy::MaxLength(i as u32) } else { PruneBy::MaxAge(TimeDelta::seconds(i as i64)) },
        executors: match p.2 % 5 {
            0 => Spec::Except(vec![]),
            1 => Spec::Only(vec![NAMES[0]]),
            2 => Spec::Only(vec![NAMES[0], NAMES[1]]),
            3 => Spec::Except(vec![NAMES[2]]),
            _ => Spec::Except(vec![NAMES[2], NAMES[1]]),
        },
    }
}
fn prune_strategy(stop: bool) -> BoxedStrategy<PruneCase> {
    let lat = if stop { vec(0u32..60, 0..3).boxed() } else { vec(prop_oneof![3 => Just(0u32), 2 => 1u32..300, 1 => 1u32..3000], 0..5).boxed() };
    (
        epoch(),
        sched_class(),
        prop_oneof![4 => vec((any::<bool>(), 0u8..3, 0u8..5), 1usize..5), 1 => vec((any::<bool>(), 0u8..3, 0u8..5), 9usize..16)],
        any::<bool>(),
        prop_oneof![2 => Just(None), 1 => Just(Some(None)), 4 => (1usize..5).prop_map(|x| Some(Some(x)))],
        lat,
        prop_oneof![1 => Just(vec![]), 1 => vec(0u32..20, 1..6)],
        any::<bool>(),
        0u64..1000,
    )
        .prop_map(move |((epoch_s, sub_us), (scheds, run_ms), pruners, batch, limit, lat, fail, guard, frac)| PruneCase {
            epoch_s,
            sub_us,
            sched: scheds[0].clone(),
            run_ms,
            pruners,
            batch,
            limit,
            lat,
            fail,
            stop_ms: stop.then_some(run_ms * frac / 1500),
            guard,
        })
        .boxed()
}
fn prune_run(c: &PruneCase) -> CaseResult {
    let mut r = CaseResult::ok();
    let b = CronBackend::new(&c.lat, &c.fail);
    let epoch = c.epoch_s * SEC + c.sub_us * 1000;
    let (t0, t1, stopped) = vkit::block_on(epoch, async {
        let t0 = vclock::now_ns();
        let start = tokio::time::Instant::now();
        let mut cfg = PrunerConfig::new(cron::Schedule::from_str(&c.sched).unwrap());
        if let Some(l) = c.limit {
            cfg = cfg.with_max_concurrency(l);
        }
        for (i, p) in c.pruners.iter().enumerate() {
            cfg = add_pruner(cfg, i, *p, c.batch);
        }
        let mut rx = Some(Rexecutor::new(b.clone()).with_job_pruner(cfg));
        let mut stopped = None;
        if let Some(s) = c.stop_ms {
            tokio::time::sleep_until(start + Duration::from_millis(s)).await;
            stopped = Some(vclock::now_ns());
            if c.guard {
                drop(rx.take().unwrap().drop_guard());
            } else {
                rx.take().unwrap().graceful_shutdown();
            }
        }
        tokio::time::sleep_until(start + Duration::from_millis(c.run_ms)).await;
        (t0, vclock::now_ns(), stopped)
    });
    let log = std::mem::take(&mut *b.log.lock().unwrap());
    let calls = &log.prunes;
    // concurrency
    if let Some(limit) = c.limit.unwrap_or(Some(10)) {
        for x in calls {
            let n = calls.iter().filter(|y| y.at <= x.at && y.end.is_none_or(|e| e > x.at)).count();
            if n > limit {
                r.fail(format!("{n} prunes were running at {}, the limit is {limit}", dt(x.at)));
            }
        }
    }
    // one round per occurrence
    let n = c.pruners.len();
    let specs: Vec<PruneSpec> = c.pruners.iter().enumerate().map(|(i, p)| spec_of(i, *p)).collect();
    for x in calls {
        if !specs.contains(&x.spec) {
            r.fail(format!("a prune was executed that was not configured: {:?}", x.spec));
            return r;
        }
    }
    let occ = occurrences(&c.sched, None, t0, t1 + SEC);
    let until = stopped.unwrap_or(t1).min(t1);
    let mut rounds = 0;
    let mut free = t0; // the pruner has nothing in progress from here on
    let mut rest: &[PruneCall] = calls;
    for t in occ.iter().filter(|t| **t > t0) {
        if *t < free {
            // overlapped by the previous round: no promise, unless the round ended just about now
            continue;
        }
        let ambiguous = *t < free + 15 * MS;
        let started = rest.first().is_some_and(|x| (x.at - t).abs() <= 60 * MS);
        if *t >= until - 15 * MS {
            if started && stopped.is_some_and(|s| rest[0].at > s + 5 * MS) {
                r.fail(format!("a prune was started {} ms after the shutdown", (rest[0].at - stopped.unwrap()) / MS));
            }
            if *t > until + 15 * MS || !started {
                break;
            }
        } else if !started {
            if ambiguous {
                continue;
            }
            r.fail(format!("nothing was pruned at the occurrence {} of {:?}; next prune at {:?}", dt(*t), c.sched, rest.first().map(|x| dt(x.at))));
            return r;
        }
        rounds += 1;
        if rest[0].at < t - 15 * MS {
            r.fail(format!("pruning for {} began {} ms early", dt(*t), (t - rest[0].at) / MS));
        }
        let k = n.min(rest.len());
        let round = &rest[..k];
        for (i, s) in specs.iter().enumerate() {
            let m = round.iter().filter(|x| x.spec == *s).count();
            let cut = round.iter().any(|x| x.end.is_none());
            if m != 1 && !(m == 0 && cut) {
                r.fail(format!("at the occurrence {} prune {i} ({s:?}) was executed {m} times", dt(*t)));
                return r;
            }
        }
        for x in round {
            let prompt = (x.at - round[0].at) < 50 * MS || round.iter().any(|y| y.end.is_some_and(|e| e <= x.at && x.at - e < 50 * MS));
            if !prompt {
                r.fail(format!("at the occurrence {} prune {:?} was started at {} although nothing delayed it", dt(*t), x.spec, dt(x.at)));
            }
        }
        free = round.iter().map(|x| x.end.unwrap_or(t1)).max().unwrap();
        rest = &rest[k..];
    }
    if let Some(x) = rest.first() {
        match stopped {
            Some(s) if x.at > s + 5 * MS => r.fail(format!("a prune was started {} ms after the shutdown", (x.at - s) / MS)),
            _ if x.at < until - 60 * MS => r.fail(format!("a prune was executed at {}, which is no occurrence", dt(x.at))),
            _ => {}
        }
    }
    r.class_if(n > 1, "several prunes");
    r.class_if(calls.iter().any(|x| x.failed), "failing prune");
    r.class_if(calls.iter().any(|x| x.end.is_some_and(|e| e - x.at > SEC)), "slow prune");
    r.class_if(matches!(c.limit, Some(Some(l)) if l < n), "limit below number of prunes");
    r.nontrivial = rounds >= 2;
    r
}

fn c19() -> BoxedStrategy<CronCase> {
    cron_strategy(false)
}
fn c09_cron() -> BoxedStrategy<CronCase> {
    cron_strategy(true)
}
fn c18() -> BoxedStrategy<PruneCase> {
    prune_strategy(false)
}
fn c09_prune() -> BoxedStrategy<PruneCase> {
    prune_strategy(true)
}
pub fn c09_arms() -> Vec<Box<dyn Arm>> {
    vec![
        Box::new(GenArm { name: "cron-stop", rule: "1-3 cron entries shut down at a generated instant; non-trivial: at least two occurrences before the shutdown", quick: 16_000, thorough: 400_000, strategy: c09_cron, run: cron_run }),
        Box::new(GenArm { name: "pruner-stop", rule: "a pruner shut down at a generated instant; non-trivial: at least two rounds before it", quick: 16_000, thorough: 400_000, strategy: c09_prune, run: prune_run }),
    ]
}
pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            assumptions: vec!["virtual time; prunes take finite time; an occurrence overlapped by a still running round is not claimed"],
            arms: vec![Box::new(GenArm { name: "pruner", rule: "1-15 prunes on schedules from every second to a few per week, limits default/none/1-4, slow and failing prunes; non-trivial: at least two rounds", quick: 48_000, thorough: 1_400_000, strategy: c18, run: prune_run })],
        },
        Property {
            id: "C19",
            assumptions: vec!["virtual time; fixed UTC offsets as time zones; enqueues take less than a second; distinct (executor, data) pairs"],
            arms: vec![Box::new(GenArm { name: "cron", rule: "1-3 cron entries on schedules from every second to a few per week, 10 UTC offsets, slow and failing enqueues, long executions; non-trivial: at least two occurrences", quick: 48_000, thorough: 1_400_000, strategy: c19, run: cron_run })],
        },
    ]
}
