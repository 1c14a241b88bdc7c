//! Scenario engine: generated jobs with scripted executions and timed operations, run through the
//! real `Rexecutor` over an in-memory backend in virtual time, and a reference model replayed over
//! the resulting event log.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{Stream, StreamExt};
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Job as BJob, Query};
use rexecutor::executor::{ExecutionResult, Executor, ExecutorIdentifier};
use rexecutor::job::{ErrorType, Job, JobId, JobStatus};
use rexecutor::prelude::{ExecutionError, Where};
use rexecutor::pruner::PruneSpec;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use vkit::{panics, vclock};

pub const EPOCH: i64 = 1_709_251_200_000_000_000; // 2024-03-01T00:00:00Z
pub const MS: i64 = 1_000_000;
pub const SEC: i64 = 1_000 * MS;

// ------------------------------------------------------------------ payloads and scripts

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Payload {
    pub tag: u32,
    pub body: Value,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Meta {
    pub note: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Out {
    Done,
    Cancel(String),
    /// milliseconds
    Snooze(i64),
    Err(u8, String),
    /// panic!("literal")
    PanicStr(u8),
    /// panic with an owned String
    PanicString(String),
    /// panic with a payload that is no string
    PanicOther,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub dur_ms: u32,
    pub out: Out,
    /// Relative to the duration: None = no timeout; Some(d) = timeout at dur + d (d != 0).
    pub timeout: Option<i32>,
    /// Backoff returned by the executor for this execution, in ms.
    pub backoff_ms: i64,
}

impl Step {
    pub fn timeout_ms(&self) -> Option<u64> {
        self.timeout.map(|d| (self.dur_ms as i64 + d as i64).max(1) as u64)
    }
    pub fn times_out(&self) -> bool {
        self.timeout_ms().is_some_and(|t| t < self.dur_ms as u64)
    }
    pub fn fails(&self) -> bool {
        self.times_out() || matches!(self.out, Out::Err(..) | Out::PanicStr(_) | Out::PanicString(_) | Out::PanicOther)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Script {
    pub steps: Vec<Step>,
    /// What every further execution does (never a snooze).
    pub tail: Step,
}
impl Script {
    pub fn step(&self, n: u32) -> &Step {
        self.steps.get(n as usize).unwrap_or(&self.tail)
    }
}

pub const ERROR_TYPES: [&str; 8] =
    ["custom", "io_error", "", "Timeout error", "\u{fc}n\u{ef} \u{1F980}", "CancelledError", "panic!", "a\"b\\c\n"];
pub const PANICS: [&str; 3] = ["boom", "", "called `Option::unwrap()` on a `None` value"];

#[derive(Debug)]
pub struct ScriptError {
    ty: &'static str,
    msg: String,
}
impl std::fmt::Display for ScriptError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for ScriptError {}
impl ExecutionError for ScriptError {
    fn error_type(&self) -> &'static str {
        self.ty
    }
}

// ------------------------------------------------------------------ the per-case runtime state

#[derive(Clone, Debug)]
pub struct Snap {
    pub id: i32,
    pub status: JobStatus,
    pub executor: String,
    pub data: Payload,
    pub metadata: Option<Meta>,
    pub attempt: u16,
    pub max_attempts: u16,
    pub priority: u16,
    pub tags: Vec<String>,
    pub errors: Vec<(u16, ErrorType, String)>,
    pub inserted_at: i64,
    pub scheduled_at: i64,
    pub attempted_at: Option<i64>,
    pub finished: [Option<i64>; 3],
}

/// Nanoseconds, clamped to a range (1897 to 2043) that leaves room for arithmetic.
pub fn ns(t: DateTime<Utc>) -> i64 {
    t.timestamp_nanos_opt().unwrap_or(if t.timestamp() > 0 { i64::MAX } else { i64::MIN }).clamp(i64::MIN / 4, i64::MAX / 4)
}
/// Delays and durations beyond this never happen within a case.
pub const NEVER_MS: i64 = 3_600_000;
pub fn dt(ns: i64) -> DateTime<Utc> {
    DateTime::from_timestamp(ns.div_euclid(SEC), ns.rem_euclid(SEC) as u32).unwrap()
}

impl Snap {
    fn of(job: &Job<Payload, Meta>) -> Self {
        Self {
            id: job.id.into(),
            status: job.status,
            executor: job.executor.clone(),
            data: job.data.clone(),
            metadata: job.metadata.clone(),
            attempt: job.attempt,
            max_attempts: job.max_attempts,
            priority: job.priority,
            tags: job.tags.clone(),
            errors: job.errors.iter().map(|e| (e.attempt, e.error_type.clone(), e.details.clone())).collect(),
            inserted_at: ns(job.inserted_at),
            scheduled_at: ns(job.scheduled_at),
            attempted_at: job.attempted_at.map(ns),
            finished: [job.completed_at.map(ns), job.cancelled_at.map(ns), job.discarded_at.map(ns)],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Start { ex: usize, tag: u32, n: u32, snap: Box<Snap> },
    End { tag: u32, n: u32 },
    Aborted { tag: u32, n: u32 },
    /// The job was executed more often than any script allows; it is parked from here on.
    Runaway { tag: u32 },
    Rec { id: i32, what: Rec },
    /// The runner tried to record an outcome and the backend failed.
    RecFailed { id: i32 },
    Op(OpEv),
    Shutdown,
    Restart,
}
#[derive(Clone, Debug)]
pub enum Rec {
    Complete,
    /// microseconds since 1970
    Retryable(i64, ErrorType, String),
    Snoozed(i64),
    Discarded(ErrorType, String),
    Cancelled(ErrorType, String),
}
#[derive(Clone, Debug)]
pub enum OpEv {
    Enqueued { tag: u32, ex: usize, id: i32, sched: i64, spec: Box<JobSpec> },
    Cancelled { id: i32, reason: String },
    Rerun { id: i32, now: i64 },
    Updated { id: i32, sched: i64, prio: u16, max: u16, tags: Vec<String>, note: Option<String> },
    Skipped,
    Failed(String),
}

pub struct Rt {
    scripts: HashMap<u32, Script>,
    st: Mutex<RtSt>,
}
#[derive(Default)]
struct RtSt {
    runs: HashMap<u32, u32>,
    log: Vec<(i64, Ev)>,
    /// Jobs of blocking executors between being taken and being recorded: they progress in real
    /// threads, so virtual time has to wait for them.
    inflight: HashSet<i32>,
}
static RT: Mutex<Option<Arc<Rt>>> = Mutex::new(None);

pub fn rt() -> Arc<Rt> {
    RT.lock().unwrap().clone().expect("no scenario running")
}
pub fn install(scripts: HashMap<u32, Script>) -> Arc<Rt> {
    let rt = Arc::new(Rt { scripts, st: Default::default() });
    *RT.lock().unwrap() = Some(rt.clone());
    rt
}
impl Rt {
    pub fn push(&self, ev: Ev) {
        let mut st = self.st.lock().unwrap();
        let t = vclock::now_ns();
        st.log.push((t, ev));
    }
    pub fn take_log(&self) -> Vec<(i64, Ev)> {
        std::mem::take(&mut self.st.lock().unwrap().log)
    }
    #[allow(dead_code)]
    pub fn log(&self) -> Vec<(i64, Ev)> {
        self.st.lock().unwrap().log.clone()
    }
    fn begin(&self, ex: usize, job: &Job<Payload, Meta>) -> (u32, Step) {
        let tag = job.data.tag;
        let mut st = self.st.lock().unwrap();
        let n = st.runs.entry(tag).or_insert(0);
        let k = *n;
        *n += 1;
        let t = vclock::now_ns();
        st.log.push((t, Ev::Start { ex, tag, n: k, snap: Box::new(Snap::of(job)) }));
        (k, self.scripts.get(&tag).map(|s| s.step(k).clone()).unwrap_or(IDLE))
    }
    fn taken(&self, blocking: bool, id: JobId) {
        if blocking && self.st.lock().unwrap().inflight.insert(id.into()) {
            vclock::busy(1);
        }
    }
    fn recorded(&self, id: JobId) {
        if self.st.lock().unwrap().inflight.remove(&id.into()) {
            vclock::busy(-1);
        }
    }
    /// The step the next execution of this job will take.
    fn peek(&self, job: &Job<Payload, Meta>) -> Step {
        let st = self.st.lock().unwrap();
        let k = st.runs.get(&job.data.tag).copied().unwrap_or(0);
        self.scripts.get(&job.data.tag).map(|s| s.step(k).clone()).unwrap_or(IDLE)
    }
}
const IDLE: Step = Step { dur_ms: 0, out: Out::Done, timeout: None, backoff_ms: 0 };

/// More executions of one job than any generated scenario can ask for.
pub const RUNAWAY: u32 = 200;

struct AbortGuard {
    rt: Arc<Rt>,
    tag: u32,
    n: u32,
    armed: bool,
}
impl Drop for AbortGuard {
    fn drop(&mut self) {
        if self.armed {
            self.rt.push(Ev::Aborted { tag: self.tag, n: self.n });
        }
    }
}

/// How many executions of each executor are to be in progress together (0: none has to).
pub static MEET: [AtomicUsize; NEX] = [const { AtomicUsize::new(0) }; NEX];
static MET: [AtomicUsize; NEX] = [const { AtomicUsize::new(0) }; NEX];
static MISSED: AtomicUsize = AtomicUsize::new(0);
/// From here on executions of these executors wait for each other in groups of so many.
pub fn set_meet(of: &[(usize, usize)]) {
    for e in 0..NEX {
        MET[e].store(0, SeqCst);
        MEET[e].store(of.iter().find(|x| x.0 == e).map_or(0, |x| x.1), SeqCst);
    }
    MISSED.store(0, SeqCst);
}
/// The executor for which a group did not come together within 4 s of real time.
pub fn missed() -> Option<usize> {
    MISSED.load(SeqCst).checked_sub(1)
}
fn meet(ex: usize, dur: u32) {
    let of = MEET[ex].load(SeqCst);
    if of == 0 {
        return vclock::real_sleep_ms(1 + (dur % 3) as u64);
    }
    let me = MET[ex].fetch_add(1, SeqCst);
    let until = (me / of + 1) * of;
    // time goes on while some are waited for; the last one to come stops it for all of them again
    if me + 1 == until {
        return vclock::busy(of as i64 - 1);
    }
    vclock::busy(-1);
    for _ in 0..4000 {
        if MET[ex].load(SeqCst) >= until || MISSED.load(SeqCst) > 0 {
            return;
        }
        vclock::real_sleep_ms(1);
    }
    MISSED.store(ex + 1, SeqCst);
}

async fn run_script(ex: usize, blocking: bool, job: Job<Payload, Meta>) -> ExecutionResult {
    let rt = rt();
    let tag = job.data.tag;
    rt.taken(blocking, job.id);
    let (n, step) = rt.begin(ex, &job);
    if n >= RUNAWAY {
        rt.push(Ev::Runaway { tag });
        if blocking {
            return ExecutionResult::Done;
        }
        return std::future::pending().await;
    }
    let mut guard = AbortGuard { rt: rt.clone(), tag, n, armed: true };
    if blocking {
        if step.dur_ms > 0 {
            meet(ex, step.dur_ms);
        }
    } else if step.dur_ms > 0 {
        tokio::time::sleep(Duration::from_millis(step.dur_ms as u64)).await;
    }
    guard.armed = false;
    rt.push(Ev::End { tag, n });
    match step.out {
        Out::Done => ExecutionResult::Done,
        Out::Cancel(reason) => ExecutionResult::Cancel { reason: Box::new(reason) },
        Out::Snooze(ms) => ExecutionResult::Snooze { delay: TimeDelta::milliseconds(ms) },
        Out::Err(ty, msg) => ScriptError { ty: ERROR_TYPES[ty as usize % ERROR_TYPES.len()], msg }.into(),
        Out::PanicStr(i) => {
            panics::expect_panic();
            match i % 3 {
                0 => std::panic::panic_any(PANICS[0]),
                1 => std::panic::panic_any(PANICS[1]),
                _ => std::panic::panic_any(PANICS[2]),
            }
        }
        Out::PanicString(s) => {
            panics::expect_panic();
            std::panic::panic_any(s)
        }
        Out::PanicOther => {
            panics::expect_panic();
            std::panic::panic_any(42u64)
        }
    }
}

macro_rules! executors {
    ($($idx:literal $ty:ident $name:literal $limit:expr, $blocking:literal, $max:literal;)*) => {
        $(
            pub struct $ty;
            #[async_trait]
            impl Executor for $ty {
                type Data = Payload;
                type Metadata = Meta;
                const NAME: &'static str = $name;
                const MAX_ATTEMPTS: u16 = $max;
                const MAX_CONCURRENCY: Option<usize> = $limit;
                const BLOCKING: bool = $blocking;
                async fn execute(job: Job<Self::Data, Self::Metadata>) -> ExecutionResult {
                    run_script($idx, $blocking, job).await
                }
                fn backoff(job: &Job<Self::Data, Self::Metadata>) -> TimeDelta {
                    trap(job, PANIC_BACKOFF);
                    let rt = rt();
                    rt.taken($blocking, job.id);
                    TimeDelta::milliseconds(rt.peek(job).backoff_ms)
                }
                fn timeout(job: &Job<Self::Data, Self::Metadata>) -> Option<Duration> {
                    trap(job, PANIC_TIMEOUT);
                    let rt = rt();
                    rt.taken($blocking, job.id);
                    rt.peek(job).timeout_ms().map(Duration::from_millis)
                }
            }
        )*
        pub const NAMES: &[&str] = &[$($name),*];
        pub const LIMITS: &[Option<usize>] = &[$($limit),*];
        pub const BLOCKING: &[bool] = &[$($blocking),*];
        pub const MAXES: &[u16] = &[$($max),*];
        pub type Rx<B> = rexecutor::Rexecutor<B, rexecutor::GlobalUnset>;
        pub fn with_executor<B: Backend + Clone + Send + Sync + 'static>(rx: Rx<B>, ex: usize) -> Rx<B> {
            match ex {
                $($idx => rx.with_executor::<$ty>(),)*
                _ => unreachable!(),
            }
        }
        pub async fn enqueue<B: Backend>(ex: usize, spec: &JobSpec, sched: Option<DateTime<Utc>>, b: &B) -> Result<JobId, String> {
            match ex {
                $($idx => {
                    let mut jb = $ty::builder().with_data(spec.payload()).with_tags(spec.tags.clone()).with_priority(spec.prio);
                    if let Some(m) = spec.max { jb = jb.with_max_attempts(m); }
                    if let Some(m) = &spec.note { jb = jb.with_metadata(Meta { note: m.clone() }); }
                    if let Some(s) = sched { jb = jb.schedule_at(s); }
                    jb.enqueue_to_backend(b).await.map_err(|e| format!("{e:?}"))
                })*
                _ => unreachable!(),
            }
        }
        pub async fn cancel<B: Backend + Sync>(ex: usize, id: JobId, reason: String, b: &B) -> Result<(), String> {
            match ex {
                $($idx => $ty::cancel_job_on_backend(id, Box::new(reason), b).await.map_err(|e| format!("{e:?}")),)*
                _ => unreachable!(),
            }
        }
        pub async fn rerun<B: Backend + Sync>(ex: usize, id: JobId, b: &B) -> Result<(), String> {
            match ex {
                $($idx => $ty::rerun_job_on_backend(id, b).await.map_err(|e| format!("{e:?}")),)*
                _ => unreachable!(),
            }
        }
        pub async fn load<B: Backend + Sync>(ex: usize, id: JobId, b: &B) -> Result<Option<Job<Payload, Meta>>, String> {
            match ex {
                $($idx => $ty::query_jobs_on_backend(Where::id_equals(id), b).await.map(|v| v.into_iter().next()).map_err(|e| format!("{e:?}")),)*
                _ => unreachable!(),
            }
        }
        pub async fn update<B: Backend + Sync>(ex: usize, job: Job<Payload, Meta>, b: &B) -> Result<(), String> {
            match ex {
                $($idx => $ty::update_job_on_backend(job, b).await.map_err(|e| format!("{e:?}")),)*
                _ => unreachable!(),
            }
        }
    };
}
executors! {
    0 Open "ex_open" None, false, 5;
    1 One "ex_one" Some(1), false, 3;
    2 Two "ex_two" Some(2), false, 4;
    3 Three "ex_three" Some(3), false, 1;
    4 Blk "ex_blk" None, true, 2;
    5 BlkTwo "ex_blk_two" Some(2), true, 5;
    6 Open2 "ex_open_2" None, false, 2;
}
pub const NEX: usize = 7;

// ------------------------------------------------------------------ case description

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct JobSpec {
    pub tag: u32,
    pub ex: usize,
    pub at_ms: u32,
    /// None: "now" by default; Some: relative to the enqueue instant.
    pub sched_ms: Option<i64>,
    pub prio: u16,
    pub max: Option<u16>,
    pub tags: Vec<String>,
    pub body: Value,
    pub note: Option<String>,
    pub script: Script,
}
impl JobSpec {
    pub fn payload(&self) -> Payload {
        Payload { tag: self.tag, body: self.body.clone() }
    }
    pub fn max(&self) -> u16 {
        self.max.unwrap_or(MAXES[self.ex])
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum OpKind {
    Cancel(String),
    Rerun,
    /// new schedule relative to now
    Reschedule(i64),
    Prio(u16),
    Max(u16),
    Tags(Vec<String>),
    Note(Option<String>),
    NotifyAll,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OpSpec {
    pub at_ms: u32,
    pub target: usize,
    pub kind: OpKind,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// The nth outcome-recording call fails with the given error.
    Record(u32, u8),
    /// A stream error item is delivered before the nth job of the executor's stream.
    StreamErr(usize, u32),
    /// So many of them in a row.
    StreamErrs(usize, u32, u32),
    /// So many outcome-recording calls fail, from the nth on.
    Records(u32, u32, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Scenario {
    pub epoch_us: i64,
    pub nodes: usize,
    /// Which executors have runners (on every node).
    pub running: Vec<usize>,
    /// Runners are started this long after the case begins.
    pub start_ms: u32,
    pub jobs: Vec<JobSpec>,
    pub ops: Vec<OpSpec>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub poison: Vec<Poison>,
    #[serde(default)]
    pub stop: Option<Stop>,
}
/// A stored job the runner cannot decode.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Poison {
    pub at_ms: u32,
    pub ex: usize,
    pub kind: PoisonKind,
    pub sched_ms: i64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PoisonKind {
    Data(Value),
    Meta(Value),
    Priority(i32),
    Max(i32),
    /// the attempt number the job has before it is claimed
    Attempt(i32),
    /// can be decoded, but the executor's own function panics on it
    Backoff,
    Timeout,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Stop {
    pub at_ms: u32,
    /// by dropping the guard instead of calling graceful_shutdown
    pub guard: bool,
    /// a new instance is started this long after the shutdown
    pub restart_ms: Option<u32>,
}
pub const POISON_TAG: u32 = 1_000_000;
const PANIC_BACKOFF: &str = "panic in backoff";
const PANIC_TIMEOUT: &str = "panic in timeout";
fn trap(job: &Job<Payload, Meta>, what: &'static str) {
    if job.data.tag >= POISON_TAG && job.data.body == what {
        panics::expect_panic();
        std::panic::panic_any(what);
    }
}
async fn put_poison(p: &Poison, i: usize, b: &InMemoryBackend) -> Result<(), String> {
    let now = Utc::now();
    let body = match p.kind {
        PoisonKind::Backoff => PANIC_BACKOFF.into(),
        PoisonKind::Timeout => PANIC_TIMEOUT.into(),
        _ => Value::Null,
    };
    let good = serde_json::json!({"tag": POISON_TAG + i as u32, "body": body});
    let (data, metadata) = match &p.kind {
        PoisonKind::Data(d) => (d.clone(), Value::Null),
        PoisonKind::Meta(m) => (good, m.clone()),
        _ => (good, Value::Null),
    };
    let scheduled_at = now + TimeDelta::milliseconds(p.sched_ms);
    let late = now + TimeDelta::days(30);
    let as_is = !matches!(p.kind, PoisonKind::Priority(_) | PoisonKind::Max(_) | PoisonKind::Attempt(_));
    let id = b
        .enqueue(EnqueuableJob {
            executor: NAMES[p.ex].to_string(),
            data,
            metadata,
            max_attempts: 3,
            scheduled_at: if as_is { scheduled_at } else { late },
            tags: vec![],
            priority: 0,
            uniqueness_criteria: None,
        })
        .await
        .map_err(|e| format!("{e:?}"))?;
    if as_is {
        return Ok(());
    }
    let mut job = b.query(Query::IdEquals(id)).await.map_err(|e| format!("{e:?}"))?.remove(0);
    match p.kind {
        PoisonKind::Priority(v) => job.priority = v,
        PoisonKind::Max(v) => job.max_attempts = v,
        PoisonKind::Attempt(v) => job.attempt = v,
        _ => {}
    }
    job.scheduled_at = scheduled_at;
    b.update_job(job).await.map_err(|e| format!("{e:?}"))
}

// ------------------------------------------------------------------ recording backend

#[derive(Clone)]
pub struct RecBackend {
    pub inner: InMemoryBackend,
    rt: Arc<Rt>,
    faults: Arc<Mutex<FaultSt>>,
}
#[derive(Default)]
struct FaultSt {
    records: u32,
    fail: HashMap<u32, u8>,
    stream: HashMap<usize, Vec<u32>>,
}
pub fn backend_error(k: u8, id: JobId) -> BackendError {
    match k % 4 {
        0 => BackendError::BadState,
        1 => BackendError::JobNotFound(id),
        2 => BackendError::Io(std::io::Error::other("injected")),
        _ => BackendError::EncodeDecode(serde_json::from_str::<u8>("x").unwrap_err()),
    }
}
impl RecBackend {
    pub fn new(inner: InMemoryBackend, rt: Arc<Rt>, faults: &[Fault]) -> Self {
        let mut st = FaultSt::default();
        for f in faults {
            match f {
                Fault::Record(n, k) => {
                    st.fail.insert(*n, *k);
                }
                Fault::StreamErr(ex, n) => st.stream.entry(*ex).or_default().push(*n),
                Fault::StreamErrs(ex, n, k) => st.stream.entry(*ex).or_default().extend(std::iter::repeat_n(*n, *k as usize)),
                Fault::Records(n, k, e) => st.fail.extend((*n..n + k).map(|n| (n, *e))),
            }
        }
        Self { inner, rt, faults: Arc::new(Mutex::new(st)) }
    }
    fn inject(&self, id: JobId) -> Option<BackendError> {
        let mut f = self.faults.lock().unwrap();
        let n = f.records;
        f.records += 1;
        f.fail.get(&n).map(|k| backend_error(*k, id))
    }
    fn done(&self, id: JobId, what: Rec, r: Result<(), BackendError>) -> Result<(), BackendError> {
        self.rt.recorded(id);
        match r {
            Ok(()) => {
                self.rt.push(Ev::Rec { id: id.into(), what });
                Ok(())
            }
            Err(e) => {
                self.rt.push(Ev::RecFailed { id: id.into() });
                Err(e)
            }
        }
    }
}
#[async_trait]
impl Backend for RecBackend {
    async fn subscribe_ready_jobs(
        &self,
        ex: ExecutorIdentifier,
    ) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        let idx = NAMES.iter().position(|n| *n == ex.as_str());
        let mut errs = idx.and_then(|i| self.faults.lock().unwrap().stream.get(&i).cloned()).unwrap_or_default();
        errs.sort();
        let mut inner = self.inner.subscribe_ready_jobs(ex).await;
        let mut n = 0u32;
        Box::pin(futures::stream::poll_fn(move |cx| {
            if errs.first().is_some_and(|e| *e <= n) {
                errs.remove(0);
                return std::task::Poll::Ready(Some(Err(BackendError::BadState)));
            }
            let r = inner.poll_next_unpin(cx);
            if r.is_ready() {
                n += 1;
            }
            r
        }))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.inner.enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        let r = match self.inject(id) {
            Some(e) => Err(e),
            None => self.inner.mark_job_complete(id).await,
        };
        self.done(id, Rec::Complete, r)
    }
    async fn mark_job_retryable(&self, id: JobId, next: DateTime<Utc>, error: BErr) -> Result<(), BackendError> {
        let what = Rec::Retryable(next.timestamp_micros(), error.error_type.clone(), error.message.clone());
        let r = match self.inject(id) {
            Some(e) => Err(e),
            None => self.inner.mark_job_retryable(id, next, error).await,
        };
        self.done(id, what, r)
    }
    async fn mark_job_discarded(&self, id: JobId, error: BErr) -> Result<(), BackendError> {
        let what = Rec::Discarded(error.error_type.clone(), error.message.clone());
        let r = match self.inject(id) {
            Some(e) => Err(e),
            None => self.inner.mark_job_discarded(id, error).await,
        };
        self.done(id, what, r)
    }
    async fn mark_job_cancelled(&self, id: JobId, error: BErr) -> Result<(), BackendError> {
        let what = Rec::Cancelled(error.error_type.clone(), error.message.clone());
        let r = match self.inject(id) {
            Some(e) => Err(e),
            None => self.inner.mark_job_cancelled(id, error).await,
        };
        self.done(id, what, r)
    }
    async fn mark_job_snoozed(&self, id: JobId, next: DateTime<Utc>) -> Result<(), BackendError> {
        let what = Rec::Snoozed(next.timestamp_micros());
        let r = match self.inject(id) {
            Some(e) => Err(e),
            None => self.inner.mark_job_snoozed(id, next).await,
        };
        self.done(id, what, r)
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        self.inner.prune_jobs(spec).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.inner.rerun_job(id).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.inner.update_job(job).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.inner.query(query).await
    }
}

// ------------------------------------------------------------------ running a scenario

pub struct Outcome {
    pub log: Vec<(i64, Ev)>,
    pub table: Vec<BJob>,
    pub t0: i64,
    pub t_run: i64,
    pub t_end: i64,
}

pub fn horizon_ms(s: &Scenario) -> u64 {
    let mut at = s.start_ms as u64;
    let mut durs = 0u64;
    let mut delays = 0u64;
    let reruns = s.ops.iter().filter(|o| matches!(o.kind, OpKind::Rerun)).count() as u64;
    let max_up = s.ops.iter().map(|o| if let OpKind::Max(m) = o.kind { m as u64 } else { 0 }).max().unwrap_or(0);
    for j in &s.jobs {
        at = at.max(j.at_ms as u64 + j.sched_ms.filter(|x| *x <= NEVER_MS).unwrap_or(0).max(0) as u64);
        let mut d = 0;
        let n = (j.max() as u64).max(1) + reruns + max_up;
        let fin = |x: i64| if (0..=NEVER_MS).contains(&x) { x as u64 } else { 0 };
        for st in &j.script.steps {
            durs += fin(st.dur_ms as i64).max(fin(st.timeout_ms().unwrap_or(0) as i64));
            d += fin(st.backoff_ms);
            if let Out::Snooze(x) = st.out {
                d += fin(x);
            }
        }
        durs += fin(j.script.tail.dur_ms as i64).max(fin(j.script.tail.timeout_ms().unwrap_or(0) as i64)) * n;
        d += fin(j.script.tail.backoff_ms) * n;
        delays = delays.max(d);
    }
    for o in &s.ops {
        at = at.max(o.at_ms as u64);
        if let OpKind::Reschedule(d) = o.kind {
            at += d.max(0) as u64;
        }
    }
    for p in &s.poison {
        at = at.max(p.at_ms as u64 + p.sched_ms.max(0) as u64);
    }
    if let Some(st) = &s.stop {
        at = at.max(st.at_ms as u64 + st.restart_ms.unwrap_or(0) as u64);
    }
    at + durs + delays + 40_000
}

pub fn run(s: &Scenario) -> Outcome {
    run_with(s, |b| b)
}

pub fn run_with(s: &Scenario, prep: fn(InMemoryBackend) -> InMemoryBackend) -> Outcome {
    let scripts = s.jobs.iter().map(|j| (j.tag, j.script.clone())).collect();
    let rt = install(scripts);
    let blocking = s.running.iter().any(|e| BLOCKING[*e]);
    vkit::block_on(EPOCH + s.epoch_us * 1000, async {
        if blocking {
            vclock::set_patience_ms(1);
        }
        let t0 = vclock::now_ns();
        let start = tokio::time::Instant::now();
        let inner = prep(InMemoryBackend::new());
        let backend = RecBackend::new(inner.clone(), rt.clone(), &s.faults);
        enum Act<'a> {
            Start,
            Enq(&'a JobSpec),
            Op(&'a OpSpec),
            Poison(usize, &'a Poison),
            Stop(bool),
            Restart,
        }
        let mut acts: Vec<(u64, Act)> = vec![(s.start_ms as u64, Act::Start)];
        acts.extend(s.jobs.iter().map(|j| (j.at_ms as u64, Act::Enq(j))));
        acts.extend(s.ops.iter().map(|o| (o.at_ms as u64, Act::Op(o))));
        acts.extend(s.poison.iter().enumerate().map(|(i, p)| (p.at_ms as u64, Act::Poison(i, p))));
        if let Some(st) = &s.stop {
            // never before the runners are there
            let at = (st.at_ms as u64).max(s.start_ms as u64 + 5);
            acts.push((at, Act::Stop(st.guard)));
            if let Some(r) = st.restart_ms {
                acts.push((at + r as u64 + 5, Act::Restart));
            }
        }
        acts.sort_by_key(|a| a.0);
        let node = || {
            let mut rx = rexecutor::Rexecutor::new(backend.clone());
            for e in &s.running {
                rx = with_executor(rx, *e);
            }
            rx
        };
        let mut ids: HashMap<u32, JobId> = HashMap::new();
        let mut rxs = vec![];
        let mut t_run = t0;
        for (at, act) in acts {
            tokio::time::sleep_until(start + Duration::from_millis(at)).await;
            match act {
                Act::Start => {
                    rxs.extend((0..s.nodes).map(|_| node()));
                    t_run = vclock::now_ns();
                }
                Act::Poison(i, p) => {
                    if let Err(e) = put_poison(p, i, &inner).await {
                        rt.push(Ev::Op(OpEv::Failed(format!("storing a job: {e}"))));
                    }
                }
                Act::Stop(guard) => {
                    for rx in rxs.drain(..) {
                        if guard {
                            drop(rx.drop_guard());
                        } else {
                            rx.graceful_shutdown();
                        }
                    }
                    rt.push(Ev::Shutdown);
                }
                Act::Restart => {
                    rxs.extend((0..s.nodes).map(|_| node()));
                    rt.push(Ev::Restart);
                }
                Act::Enq(j) => {
                    let now = Utc::now();
                    let sched = j.sched_ms.map(|d| now + TimeDelta::milliseconds(d));
                    let before = ns(now);
                    match enqueue(j.ex, j, sched, &inner).await {
                        Ok(id) => {
                            ids.insert(j.tag, id);
                            let sched = sched.map(ns).unwrap_or(i64::MIN + before);
                            rt.push(Ev::Op(OpEv::Enqueued {
                                tag: j.tag,
                                ex: j.ex,
                                id: id.into(),
                                sched,
                                spec: Box::new(j.clone()),
                            }));
                        }
                        Err(e) => rt.push(Ev::Op(OpEv::Failed(format!("enqueue of job {}: {e}", j.tag)))),
                    }
                }
                Act::Op(o) => {
                    let ev = apply(o, s, &ids, &inner).await;
                    rt.push(Ev::Op(ev));
                }
            }
        }
        tokio::time::sleep_until(start + Duration::from_millis(horizon_ms(s))).await;
        let t_end = vclock::now_ns();
        let log = rt.take_log();
        let table = inner.query(Query::And(vec![])).await.unwrap_or_default();
        drop(rxs);
        Outcome { log, table, t0, t_run, t_end }
    })
}

async fn apply(o: &OpSpec, s: &Scenario, ids: &HashMap<u32, JobId>, b: &InMemoryBackend) -> OpEv {
    if matches!(o.kind, OpKind::NotifyAll) {
        return match b.notify_all() {
            Ok(()) => OpEv::Skipped,
            Err(e) => OpEv::Failed(format!("notify_all: {e:?}")),
        };
    }
    if s.jobs.is_empty() {
        return OpEv::Skipped;
    }
    let spec = &s.jobs[o.target % s.jobs.len()];
    let Some(id) = ids.get(&spec.tag).copied() else { return OpEv::Skipped };
    let mut job = match load(spec.ex, id, b).await {
        Ok(Some(j)) => j,
        Ok(None) => return OpEv::Failed(format!("job {id} cannot be found by its id")),
        Err(e) => return OpEv::Failed(format!("loading job {id}: {e}")),
    };
    // Operations on a job while it is executing race with its outcome; not part of these scenarios.
    if job.status == JobStatus::Executing {
        return OpEv::Skipped;
    }
    let raw: i32 = id.into();
    let fail = |w: &str, e: String| OpEv::Failed(format!("{w} of job {raw}: {e}"));
    match &o.kind {
        OpKind::Cancel(reason) => match cancel(spec.ex, id, reason.clone(), b).await {
            Ok(()) => OpEv::Cancelled { id: raw, reason: reason.clone() },
            Err(e) => fail("cancel", e),
        },
        OpKind::Rerun => {
            let now = vclock::now_ns();
            match rerun(spec.ex, id, b).await {
                Ok(()) => OpEv::Rerun { id: raw, now },
                Err(e) => fail("rerun", e),
            }
        }
        k => {
            match k {
                OpKind::Reschedule(d) => job.scheduled_at = Utc::now() + TimeDelta::milliseconds(*d),
                OpKind::Prio(p) => job.priority = *p,
                OpKind::Max(m) => job.max_attempts = *m,
                OpKind::Tags(t) => job.tags = t.clone(),
                OpKind::Note(n) => job.metadata = n.clone().map(|note| Meta { note }),
                _ => unreachable!(),
            }
            let ev = OpEv::Updated {
                id: raw,
                sched: ns(job.scheduled_at),
                prio: job.priority,
                max: job.max_attempts,
                tags: job.tags.clone(),
                note: job.metadata.clone().map(|m| m.note),
            };
            match update(spec.ex, job, b).await {
                Ok(()) => ev,
                Err(e) => fail("update", e),
            }
        }
    }
}

// ------------------------------------------------------------------ the reference model

/// Aspects of behaviour; each property looks at its own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cat {
    /// outcome recorded wrongly, or the stored job / the job handed over differs from the model
    Outcome,
    /// number of attempts, discard decision
    Attempts,
    /// duplicate, overlapping or misrouted execution, execution of a finished job
    Dup,
    Late,
    Early,
    Order,
    Conc,
    Timeout,
    Delay,
    /// content (data, metadata, tags, priority, ...) not as enqueued
    Content,
    /// an operation failed that must succeed
    Op,
    /// a job taken after the shutdown
    Shutdown,
}

#[derive(Clone, Debug)]
pub struct MJob {
    pub tag: u32,
    pub ex: usize,
    pub id: i32,
    pub status: JobStatus,
    pub attempt: u16,
    pub max: u16,
    pub prio: u16,
    pub tags: Vec<String>,
    pub data: Payload,
    pub note: Option<String>,
    pub errors: Vec<(u16, ErrorType, String)>,
    /// exact, unless the job was enqueued without a schedule (then bounds)
    pub sched: i64,
    pub sched_lo: i64,
    pub since: i64,
    pub runs: u32,
    pub claim_max: u16,
    pub started: i64,
    /// outcome of the current execution that the runner has yet to record
    pub ended: Option<(i64, bool)>,
    pub lost: bool,
    /// lower bounds of completed/cancelled/discarded timestamps
    pub fin: [Option<i64>; 3],
    pub attempted: Option<i64>,
    pub inserted: i64,
}

pub struct Verdict {
    pub issues: Vec<(Cat, String)>,
    pub jobs: BTreeMap<u32, MJob>,
    pub starts: usize,
    pub retries: usize,
    pub snoozes: usize,
    pub timeouts: usize,
    pub panics: usize,
    pub max_active: usize,
    pub contended: usize,
    pub waited_for_capacity: usize,
    pub order_choices: usize,
    pub ops_applied: usize,
}

pub const LATE: i64 = SEC;
pub const EARLY: i64 = 100 * MS;
/// Tolerance between an execution's end and the instant the runner uses as "now".
pub const TOL: i64 = 50 * MS;

pub fn error_of(step: &Step) -> Option<(ErrorType, Option<String>)> {
    if step.times_out() {
        let d = Duration::from_millis(step.timeout_ms().unwrap());
        return Some((ErrorType::Timeout, Some(format!("{d:?}"))));
    }
    Some(match &step.out {
        Out::Err(ty, msg) => (ErrorType::Other(ERROR_TYPES[*ty as usize % ERROR_TYPES.len()].into()), Some(msg.clone())),
        Out::PanicStr(i) => (ErrorType::Panic, Some(PANICS[*i as usize % 3].to_string())),
        Out::PanicString(s) => (ErrorType::Panic, Some(s.clone())),
        Out::PanicOther => (ErrorType::Panic, None),
        _ => return None,
    })
}
/// A timeout's message must mention the timeout; a non-string panic's message is free.
fn message_ok(step: &Step, got: &str) -> bool {
    match error_of(step) {
        Some((ErrorType::Timeout, Some(m))) => got.contains(&m),
        Some((_, Some(m))) => got == m,
        _ => true,
    }
}

pub fn verify(s: &Scenario, o: &Outcome) -> Verdict {
    let mut v = Verdict {
        issues: vec![],
        jobs: BTreeMap::new(),
        starts: 0,
        retries: 0,
        snoozes: 0,
        timeouts: 0,
        panics: 0,
        max_active: 0,
        contended: 0,
        waited_for_capacity: 0,
        order_choices: 0,
        ops_applied: 0,
    };
    let rel = |t: i64| (t - o.t0) as f64 / 1e6;
    let mut by_id: HashMap<i32, u32> = HashMap::new();
    let mut shutdown: Option<i64> = None;
    let mut restarted: Option<i64> = None;
    // per executor: times at which there is spare capacity
    let mut active: HashMap<usize, usize> = HashMap::new();
    let mut free_since: HashMap<usize, Option<i64>> = (0..NEX).map(|e| (e, Some(o.t_run))).collect();
    // for a pending job: how long capacity has been idle in one stretch since it became ready
    let cap = |e: usize| LIMITS[e].map(|l| l * s.nodes);
    let scripts: HashMap<u32, &Script> = s.jobs.iter().map(|j| (j.tag, &j.script)).collect();

    macro_rules! issue {
        ($cat:expr, $($t:tt)*) => { v.issues.push(($cat, format!($($t)*))) };
    }
    // Late check for one executor at time t, called when capacity is about to change or at the end.
    fn late_check(v: &mut Verdict, o: &Outcome, running: &[usize], nodes_cap: Option<usize>, ex: usize, free: Option<i64>, t: i64, stop: Option<i64>) {
        if !running.contains(&ex) || BLOCKING[ex] {
            return;
        }
        let Some(free) = free else { return };
        let _ = nodes_cap;
        let t = stop.map_or(t, |s| s.min(t));
        let mut found = vec![];
        for m in v.jobs.values() {
            if m.ex != ex || m.lost || !matches!(m.status, JobStatus::Scheduled | JobStatus::Retryable) {
                continue;
            }
            let ready = m.sched.max(m.since).max(free).max(o.t_run);
            if t - ready > LATE {
                found.push(format!(
                    "job {} (executor {}) was due and the runner idle from {:.3} ms but it had not started by {:.3} ms",
                    m.tag, NAMES[ex], (ready - o.t0) as f64 / 1e6, (t - o.t0) as f64 / 1e6
                ));
            }
        }
        for f in found {
            v.issues.push((Cat::Late, f));
        }
    }

    for (t, ev) in &o.log {
        let t = *t;
        match ev {
            Ev::Shutdown => {
                // what was due and could have run until here
                for e in 0..NEX {
                    late_check(&mut v, o, &s.running, cap(e), e, free_since[&e], t, None);
                }
                shutdown = Some(t);
                free_since.values_mut().for_each(|f| *f = None);
            }
            Ev::Restart => {
                shutdown = None;
                restarted = Some(t);
                for e in 0..NEX {
                    let busy = cap(e).is_some_and(|c| active.get(&e).copied().unwrap_or(0) >= c);
                    free_since.insert(e, if busy { None } else { Some(t) });
                }
            }
            Ev::Runaway { tag } => {
                issue!(Cat::Attempts, "job {tag} was executed {RUNAWAY} times and would be executed again");
                if let Some(m) = v.jobs.get_mut(tag) {
                    m.lost = true;
                }
            }
            Ev::Op(op) => match op {
                OpEv::Skipped => {}
                OpEv::Failed(e) => issue!(Cat::Op, "{e}"),
                OpEv::Enqueued { tag, ex, id, sched, spec } => {
                    let (sched, lo) = if *sched < 0 { (t, *sched - i64::MIN) } else { (*sched, *sched) };
                    if by_id.insert(*id, *tag).is_some() {
                        issue!(Cat::Content, "id {id} was handed out twice");
                    }
                    v.jobs.insert(
                        *tag,
                        MJob {
                            tag: *tag,
                            ex: *ex,
                            id: *id,
                            status: JobStatus::Scheduled,
                            attempt: 0,
                            max: spec.max(),
                            prio: spec.prio,
                            tags: spec.tags.clone(),
                            data: spec.payload(),
                            note: spec.note.clone(),
                            errors: vec![],
                            sched,
                            sched_lo: lo,
                            since: t,
                            runs: 0,
                            claim_max: 0,
                            started: 0,
                            ended: None,
                            lost: false,
                            fin: [None; 3],
                            attempted: None,
                            inserted: t,
                        },
                    );
                }
                OpEv::Cancelled { id, reason } => {
                    v.ops_applied += 1;
                    let m = v.jobs.get_mut(&by_id[id]).unwrap();
                    m.status = JobStatus::Cancelled;
                    m.errors.push((m.attempt, ErrorType::Cancelled, reason.clone()));
                    m.fin[1] = Some(t);
                }
                OpEv::Rerun { id, now } => {
                    v.ops_applied += 1;
                    let m = v.jobs.get_mut(&by_id[id]).unwrap();
                    m.status = if m.attempt == 1 { JobStatus::Scheduled } else { JobStatus::Retryable };
                    m.max += 1;
                    m.sched = t;
                    m.sched_lo = *now;
                    m.since = t;
                    m.fin = [None; 3];
                }
                OpEv::Updated { id, sched, prio, max, tags, note } => {
                    v.ops_applied += 1;
                    let m = v.jobs.get_mut(&by_id[id]).unwrap();
                    if m.sched != *sched {
                        m.sched = *sched;
                        m.sched_lo = *sched;
                        m.since = t;
                    }
                    m.prio = *prio;
                    m.max = *max;
                    m.tags = tags.clone();
                    m.note = note.clone();
                }
            },
            Ev::Start { ex, tag, n, snap } => {
                v.starts += 1;
                late_check(&mut v, o, &s.running, cap(*ex), *ex, free_since[ex], t, shutdown);
                let Some(m) = v.jobs.get(tag) else {
                    issue!(Cat::Dup, "execution of job {tag} that was never enqueued");
                    continue;
                };
                let m = m.clone();
                let who = format!("job {} (id {}, execution {n}, at {:.3} ms)", m.tag, m.id, rel(t));
                if !s.running.contains(ex) || m.ex != *ex || snap.executor != NAMES[*ex] {
                    issue!(Cat::Dup, "{who} of executor {} was executed by {}", NAMES[m.ex], NAMES[*ex]);
                }
                match m.status {
                    JobStatus::Scheduled | JobStatus::Retryable => {}
                    st => issue!(Cat::Dup, "{who} was executed although its status is {st:?}"),
                }
                // what the executor is handed
                if snap.attempt != m.attempt + 1 {
                    issue!(Cat::Outcome, "{who} was handed attempt {} but this is attempt {}", snap.attempt, m.attempt + 1);
                }
                if snap.errors != m.errors {
                    issue!(Cat::Outcome, "{who} was handed errors {:?}, expected {:?}", snap.errors, m.errors);
                }
                if snap.status != JobStatus::Executing {
                    issue!(Cat::Outcome, "{who} was handed status {:?}", snap.status);
                }
                if snap.finished != m.fin.map(|_| None::<i64>) {
                    issue!(Cat::Outcome, "{who} was handed completion timestamps {:?}", snap.finished);
                }
                if snap.id != m.id
                    || snap.data != m.data
                    || snap.metadata.as_ref().map(|x| &x.note) != m.note.as_ref()
                    || snap.priority != m.prio
                    || snap.tags != m.tags
                    || snap.max_attempts != m.max
                {
                    issue!(Cat::Content, "{who} was handed {snap:?}, expected {m:?}");
                }
                if snap.scheduled_at < m.sched_lo || snap.scheduled_at > m.sched {
                    issue!(Cat::Content, "{who} was handed schedule {:.3}, expected {:.3}", rel(snap.scheduled_at), rel(m.sched));
                }
                if (snap.inserted_at - m.inserted).abs() > TOL {
                    issue!(Cat::Content, "{who} was handed insertion time {:.3}, expected {:.3}", rel(snap.inserted_at), rel(m.inserted));
                }
                let claim = snap.attempted_at.unwrap_or(t);
                if (claim - t).abs() > TOL && !BLOCKING[*ex] {
                    issue!(Cat::Outcome, "{who} carries attempt time {:.3}", rel(claim));
                }
                if let Some(sd) = shutdown {
                    if claim > sd + MS {
                        issue!(Cat::Shutdown, "{who} was started {:.3} ms after the shutdown was requested", (claim - sd) as f64 / 1e6);
                    }
                }
                if claim < m.sched_lo - EARLY || t < m.sched_lo - EARLY {
                    issue!(Cat::Early, "{who} started {:.3} ms before its scheduled time", (m.sched_lo - t) as f64 / 1e6);
                }
                // order
                let mut rivals = 0;
                for y in v.jobs.values() {
                    if y.tag == m.tag
                        || y.ex != m.ex
                        || y.lost
                        || y.since >= claim
                        || y.sched > claim
                        || !matches!(y.status, JobStatus::Scheduled | JobStatus::Retryable)
                    {
                        continue;
                    }
                    rivals += 1;
                    let (ys, xs) = (y.sched, m.sched_lo);
                    if ys <= xs && y.prio <= m.prio && (ys < xs || y.prio < m.prio) {
                        v.issues.push((
                            Cat::Order,
                            format!(
                                "{who} (schedule {:.3}, priority {}) was taken while job {} (schedule {:.3}, priority {}) was ready",
                                rel(xs), m.prio, y.tag, rel(ys), y.prio
                            ),
                        ));
                    }
                }
                if rivals > 0 {
                    v.order_choices += 1;
                }
                if t - m.sched.max(m.since) > 20 * MS {
                    v.waited_for_capacity += 1;
                }
                let a = active.entry(*ex).or_default();
                *a += 1;
                v.max_active = v.max_active.max(*a);
                if *a > 1 {
                    v.contended += 1;
                }
                if let Some(c) = cap(*ex) {
                    if *a > c && restarted.is_none() {
                        issue!(Cat::Conc, "{who}: {a} executions of {} in progress, the limit is {c}", NAMES[*ex]);
                    }
                    if *a >= c {
                        free_since.insert(*ex, None);
                    }
                }
                let m = v.jobs.get_mut(tag).unwrap();
                m.status = JobStatus::Executing;
                m.attempt += 1;
                m.runs += 1;
                m.claim_max = m.max;
                m.started = t;
                m.ended = None;
                m.attempted = Some(claim);
            }
            Ev::End { tag, n } | Ev::Aborted { tag, n } => {
                let aborted = matches!(ev, Ev::Aborted { .. });
                let Some(m) = v.jobs.get_mut(tag) else { continue };
                m.ended = Some((t, aborted));
                let (ex, started) = (m.ex, m.started);
                *active.entry(ex).or_default() -= 1;
                let step = scripts[tag].step(*n);
                let who = format!("job {tag} (execution {n})");
                if !BLOCKING[ex] {
                    if aborted {
                        match step.timeout_ms() {
                            None => issue!(Cat::Timeout, "{who} was stopped after {:.3} ms although it has no timeout", rel(t) - rel(started)),
                            Some(to) => {
                                let d = t - started;
                                if !step.times_out() {
                                    issue!(Cat::Timeout, "{who} takes {} ms with timeout {to} ms but was stopped", step.dur_ms);
                                } else if d < to as i64 * MS - 10 * MS || d > to as i64 * MS + TOL {
                                    issue!(Cat::Timeout, "{who} has timeout {to} ms but was stopped after {:.3} ms", d as f64 / 1e6);
                                }
                            }
                        }
                    } else if step.times_out() {
                        issue!(Cat::Timeout, "{who} ran {} ms, past its timeout of {:?} ms", step.dur_ms, step.timeout_ms());
                    }
                }
            }
            Ev::RecFailed { id } => {
                if let Some(tag) = by_id.get(id) {
                    let m = v.jobs.get_mut(tag).unwrap();
                    m.lost = true;
                    let ex = m.ex;
                    if cap(ex).is_some_and(|c| active.get(&ex).copied().unwrap_or(0) < c) && shutdown.is_none() {
                        free_since.entry(ex).and_modify(|f| *f = f.or(Some(t)));
                    }
                }
            }
            Ev::Rec { id, what } => {
                let Some(tag) = by_id.get(id) else {
                    issue!(Cat::Outcome, "an outcome {what:?} was recorded on unknown id {id}");
                    continue;
                };
                let ex = v.jobs[tag].ex;
                if cap(ex).is_some_and(|c| active.get(&ex).copied().unwrap_or(0) < c) && shutdown.is_none() {
                    free_since.entry(ex).and_modify(|f| *f = f.or(Some(t)));
                }
                let m = v.jobs.get_mut(tag).unwrap();
                let mut out: Vec<(Cat, String)> = vec![];
                let Some((te, aborted)) = m.ended.take() else {
                    v.issues.push((Cat::Outcome, format!("outcome {what:?} recorded on job {tag} without an execution having ended")));
                    continue;
                };
                let step = scripts[tag].step(m.runs - 1);
                let who = format!("job {tag} (execution {}, attempt {}/{}) ended with {:?}", m.runs - 1, m.attempt, m.claim_max,
                    if aborted { "timeout".to_string() } else { format!("{:?}", step.out) });
                let is_err = aborted || step.fails();
                let final_attempt = m.attempt >= m.claim_max;
                // expected kind
                let kind_ok = match (what, &step.out) {
                    (Rec::Complete, Out::Done) => !is_err,
                    (Rec::Cancelled(..), Out::Cancel(_)) => !is_err,
                    (Rec::Snoozed(_), Out::Snooze(_)) => !is_err,
                    (Rec::Retryable(..) | Rec::Discarded(..), _) => is_err,
                    _ => false,
                };
                if !kind_ok {
                    out.push((Cat::Outcome, format!("{who} but was recorded as {what:?}")));
                    if aborted || step.timeout.is_some() {
                        out.push((Cat::Timeout, format!("{who} (timeout {:?} ms) but was recorded as {what:?}", step.timeout_ms())));
                    }
                }
                if is_err && kind_ok {
                    match (what, final_attempt) {
                        (Rec::Retryable(..), true) => out.push((Cat::Attempts, format!("{who}: final attempt, but it will be retried"))),
                        (Rec::Discarded(..), false) => out.push((Cat::Attempts, format!("{who}: attempts remain, but it was discarded"))),
                        _ => {}
                    }
                }
                let timed = |ty: &ErrorType| aborted && *ty == ErrorType::Timeout;
                if let (Rec::Retryable(_, ty, msg) | Rec::Discarded(ty, msg), true) = (what, is_err) {
                    let exp = error_of(step).map(|e| e.0);
                    let ok = if aborted { timed(ty) } else { Some(ty) == exp.as_ref() };
                    if !ok {
                        out.push((Cat::Outcome, format!("{who} but the error type recorded is {ty:?}")));
                        if aborted {
                            out.push((Cat::Timeout, format!("{who} but the error type recorded is {ty:?}")));
                        }
                    }
                    if !message_ok(step, msg) {
                        out.push((Cat::Outcome, format!("{who} but the message recorded is {msg:?}")));
                    }
                    if aborted {
                        v.timeouts += 1;
                    } else if *ty == ErrorType::Panic {
                        v.panics += 1;
                    }
                }
                if let (Rec::Cancelled(ty, msg), Out::Cancel(r)) = (what, &step.out) {
                    if *ty != ErrorType::Cancelled || msg != r {
                        out.push((Cat::Outcome, format!("{who} but {ty:?} {msg:?} was recorded")));
                    }
                }
                let delay = match (what, &step.out) {
                    (Rec::Retryable(next, ..), _) => Some((*next, step.backoff_ms)),
                    (Rec::Snoozed(next), Out::Snooze(d)) => Some((*next, *d)),
                    _ => None,
                };
                if let Some((next, d)) = delay {
                    let clamp = |us: i128| us.clamp(DateTime::<Utc>::MIN_UTC.timestamp_micros() as i128, DateTime::<Utc>::MAX_UTC.timestamp_micros() as i128);
                    let want = te as i128 / 1000 + d as i128 * 1000;
                    let tol = (if BLOCKING[ex] { 40 * SEC } else { TOL }) as i128 / 1000;
                    let next = next as i128;
                    if next < clamp(want - 1000) || next > clamp(want + tol) {
                        out.push((Cat::Delay, format!("{who} with delay {d} ms but was rescheduled {:.3} ms later", (next - te as i128 / 1000) as f64 / 1e3)));
                    }
                }
                // follow what was recorded; the stored instant may be finer than microseconds
                let bounds = |us: i64| ((us as i128 * 1000).clamp(i64::MIN as i128 / 4, i64::MAX as i128 / 4) as i64, (us as i128 * 1000 + 999).clamp(i64::MIN as i128 / 4, i64::MAX as i128 / 4) as i64);
                match what {
                    Rec::Complete => {
                        m.status = JobStatus::Complete;
                        m.fin[0] = Some(t);
                    }
                    Rec::Cancelled(ty, msg) => {
                        m.status = JobStatus::Cancelled;
                        m.fin[1] = Some(t);
                        m.errors.push((m.attempt, ty.clone(), msg.clone()));
                    }
                    Rec::Discarded(ty, msg) => {
                        m.status = JobStatus::Discarded;
                        m.fin[2] = Some(t);
                        m.errors.push((m.attempt, ty.clone(), msg.clone()));
                    }
                    Rec::Retryable(next, ty, msg) => {
                        v.retries += 1;
                        m.status = JobStatus::Retryable;
                        m.errors.push((m.attempt, ty.clone(), msg.clone()));
                        let (lo, hi) = bounds(*next);
                        (m.sched, m.sched_lo, m.since) = (hi, lo, t);
                    }
                    Rec::Snoozed(next) => {
                        v.snoozes += 1;
                        m.attempt -= 1;
                        m.status = if m.attempt == 0 { JobStatus::Scheduled } else { JobStatus::Retryable };
                        let (lo, hi) = bounds(*next);
                        (m.sched, m.sched_lo, m.since) = (hi, lo, t);
                    }
                }
                v.issues.extend(out);
            }
        }
    }
    for e in 0..NEX {
        late_check(&mut v, o, &s.running, cap(e), e, free_since[&e], o.t_end, shutdown);
        if s.running.contains(&e) && BLOCKING[e] && shutdown.is_none() {
            let stuck: Vec<_> = v
                .jobs
                .values()
                .filter(|m| restarted.is_none() && m.ex == e && !m.lost && matches!(m.status, JobStatus::Scheduled | JobStatus::Retryable) && m.sched + 35 * SEC < o.t_end)
                .map(|m| m.tag)
                .collect();
            for tag in stuck {
                v.issues.push((Cat::Late, format!("job {tag} of blocking executor {} was never executed", NAMES[e])));
            }
        }
    }
    // the stored table
    let table: HashMap<i32, &BJob> = o.table.iter().map(|j| (j.id, j)).collect();
    if o.table.len() != v.jobs.len() + s.poison.len() {
        v.issues.push((Cat::Content, format!("{} jobs are stored, {} were enqueued", o.table.len(), v.jobs.len() + s.poison.len())));
    }
    let jobs: Vec<MJob> = v.jobs.values().cloned().collect();
    for m in &jobs {
        let Some(j) = table.get(&m.id) else {
            v.issues.push((Cat::Content, format!("job {} (id {}) is no longer stored", m.tag, m.id)));
            continue;
        };
        let who = format!("stored job {} (id {})", m.tag, m.id);
        if m.lost {
            continue;
        }
        if let Some((te, aborted)) = m.ended {
            v.issues.push((
                Cat::Outcome,
                format!("execution {} of job {} ended at {:.3} ms (timed out: {aborted}) and its outcome was never recorded; status {:?}", m.runs - 1, m.tag, rel(te), j.status),
            ));
            continue;
        }
        if m.status == JobStatus::Executing {
            // still running at the end of the case: only possible if a timeout did not fire
            let step = scripts[&m.tag].step(m.runs - 1);
            if o.t_end - m.started > (step.dur_ms as i64 + 1000) * MS {
                v.issues.push((Cat::Outcome, format!("{who}: execution {} never ended", m.runs - 1)));
            }
            continue;
        }
        if j.status != m.status {
            v.issues.push((Cat::Outcome, format!("{who} has status {:?}, expected {:?}", j.status, m.status)));
        }
        if j.attempt != m.attempt as i32 {
            v.issues.push((Cat::Attempts, format!("{who} has attempt {}, expected {}", j.attempt, m.attempt)));
            v.issues.push((Cat::Outcome, format!("{who} has attempt {}, expected {}", j.attempt, m.attempt)));
        }
        if j.max_attempts != m.max as i32 {
            v.issues.push((Cat::Attempts, format!("{who} has max_attempts {}, expected {}", j.max_attempts, m.max)));
        }
        let errors: Vec<_> = j.errors.iter().map(|e| (e.attempt, e.error_type.clone(), e.details.clone())).collect();
        if errors != m.errors {
            v.issues.push((Cat::Outcome, format!("{who} has errors {errors:?}, expected {:?}", m.errors)));
        }
        let fin = [j.completed_at.map(ns), j.cancelled_at.map(ns), j.discarded_at.map(ns)];
        for k in 0..3 {
            let ok = match (fin[k], m.fin[k]) {
                (None, None) => true,
                (Some(a), Some(b)) => (a - b).abs() <= TOL,
                _ => false,
            };
            if !ok {
                v.issues.push((
                    Cat::Outcome,
                    format!("{who} has {} {:?}, expected {:?}", ["completed_at", "cancelled_at", "discarded_at"][k], fin[k].map(rel), m.fin[k].map(rel)),
                ));
            }
        }
        if j.executor != NAMES[m.ex]
            || j.data != serde_json::to_value(&m.data).unwrap()
            || j.priority != m.prio as i32
            || j.tags != m.tags
            || j.metadata != serde_json::to_value(m.note.as_ref().map(|note| Meta { note: note.clone() })).unwrap()
        {
            v.issues.push((Cat::Content, format!("{who} is {j:?}, expected {m:?}")));
        }
        let sched = ns(j.scheduled_at);
        if sched < m.sched_lo || sched > m.sched {
            v.issues.push((Cat::Content, format!("{who} has schedule {:.3}, expected {:.3}", rel(sched), rel(m.sched))));
        }
        if j.attempted_at.map(ns) != m.attempted {
            v.issues.push((Cat::Outcome, format!("{who} has attempted_at {:?}, expected {:?}", j.attempted_at, m.attempted.map(rel))));
        }
    }
    // attempts
    for m in &jobs {
        let spec = s.jobs.iter().find(|j| j.tag == m.tag).unwrap();
        let reruns_or_updates = o.log.iter().any(|(_, e)| {
            matches!(e, Ev::Op(OpEv::Rerun { id, .. } | OpEv::Updated { id, .. } | OpEv::Cancelled { id, .. }) if *id == m.id)
        });
        if reruns_or_updates || m.lost || !s.running.contains(&m.ex) || shutdown.is_some() {
            continue;
        }
        let hangs = |j: &JobSpec| j.script.steps.iter().chain([&j.script.tail]).any(|x| x.dur_ms as i64 > NEVER_MS);
        if LIMITS[m.ex].is_some() && s.jobs.iter().any(|j| j.ex == m.ex && hangs(j)) {
            continue;
        }
        if spec.sched_ms.is_some_and(|x| x > NEVER_MS) {
            continue;
        }
        // exact number of executions of an undisturbed job
        let (mut runs, mut fails) = (0u32, 0u32);
        let expect = loop {
            let st = spec.script.step(runs);
            runs += 1;
            let stuck = st.dur_ms as i64 > NEVER_MS && !st.times_out() || st.times_out() && st.timeout_ms().unwrap() as i64 > NEVER_MS;
            let later = match (&st.out, st.fails()) {
                (_, true) => st.backoff_ms,
                (Out::Snooze(d), _) => *d,
                _ => 0,
            };
            if stuck || later > NEVER_MS && (!st.fails() || fails + 1 < (spec.max() as u32).max(1)) {
                break runs;
            }
            if st.fails() && !(BLOCKING[m.ex] && st.times_out()) {
                fails += 1;
                if fails >= (spec.max() as u32).max(1) {
                    break runs;
                }
            } else if !matches!(st.out, Out::Snooze(_)) {
                break runs;
            }
        };
        if m.runs != expect && !(BLOCKING[m.ex] && spec.script.steps.iter().any(|s| s.timeout.is_some())) {
            v.issues.push((Cat::Attempts, format!("job {} (max_attempts {}) was executed {} times, expected {expect}; status {:?}", m.tag, spec.max(), m.runs, m.status)));
        }
    }
    v
}
