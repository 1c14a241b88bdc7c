//! Claims of the in-memory backend under real threads: several runners' streams, each polled by a
//! thread of its own exactly when woken, race with each other and with threads that make jobs due.
//! Used by C03 (once, own executor), C04 (no lost wakeup) and C05 (never early).
use crate::tbl::VNAMES;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, EnqueuableJob, ExecutionError as BErr, Query};
use rexecutor::job::uniqueness_criteria::{Replace, UniquenessCriteria};
use rexecutor::job::{ErrorType, JobStatus};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vkit::{CaseResult, GenArm};

const EPOCH: i64 = 1_709_251_200_000_000_000;

/// What happens to the round's job of an actor while the runners poll.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// a new job that is due
    Now,
    /// a new job due far in the future
    Later,
    /// a stored future job is updated to be due
    Update,
    /// a stored future job's schedule is replaced by a unique enqueue
    Unique,
    /// a cancelled job is rerun
    Rerun,
    /// new subscriptions
    Subscribe,
    Nothing,
}
/// What the runner does with a job it got, by number of the claim of that job.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Done,
    RetryNow,
    RetryLater,
    SnoozeNow,
    SnoozeLater,
    Keep,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ThreadCase {
    /// the executor of each runner
    runners: Vec<usize>,
    rounds: usize,
    /// per actor thread: executor, what, spins before
    actors: Vec<(usize, Act, u16)>,
    /// stored before each round: future jobs per executor
    ahead: u8,
    /// one more, due so many milliseconds later, cancelled after the round
    near_ms: Option<u16>,
    outs: Vec<Out>,
}
pub fn thread_case() -> BoxedStrategy<ThreadCase> {
    let act = prop_oneof![5 => Just(Act::Now), 1 => Just(Act::Later), 2 => Just(Act::Update), 2 => Just(Act::Unique), 2 => Just(Act::Rerun), 1 => Just(Act::Subscribe), 1 => Just(Act::Nothing)];
    let out = prop_oneof![3 => Just(Out::Done), 2 => Just(Out::RetryNow), 1 => Just(Out::RetryLater), 1 => Just(Out::SnoozeNow), 1 => Just(Out::SnoozeLater), 1 => Just(Out::Keep)];
    let ex = || prop_oneof![4 => Just(0usize), 1 => Just(1usize)];
    (vec(ex(), 1..4), 20usize..50, vec((ex(), act, 0u16..400), 1..3), 0u8..3, prop::option::weighted(0.7, 150u16..2000), vec(out, 1..4))
        .prop_map(|(runners, rounds, actors, ahead, near_ms, outs)| ThreadCase { runners, rounds, actors, ahead, near_ms, outs })
        .boxed()
}

struct Barrier(AtomicUsize, AtomicUsize, usize);
impl Barrier {
    fn wait(&self) {
        let g = self.1.load(SeqCst);
        if self.0.fetch_add(1, SeqCst) + 1 == self.2 {
            self.0.store(0, SeqCst);
            self.1.fetch_add(1, SeqCst);
            return;
        }
        let mut spins = 0u32;
        while self.1.load(SeqCst) == g {
            spins += 1;
            if spins > 1500 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Aspect {
    Once,
    Early,
    Lost,
}
#[derive(Default)]
struct Book {
    /// claims and put-backs per job
    claims: HashMap<i32, i32>,
    snoozes: HashMap<i32, i32>,
    allowed: HashMap<i32, i32>,
    held: HashMap<i32, usize>,
    bad: Vec<(Aspect, String)>,
}
fn new(ex: usize, at: DateTime<Utc>, uq: Option<UniquenessCriteria<'static>>) -> EnqueuableJob<'static> {
    EnqueuableJob { executor: VNAMES[ex].into(), data: json!(ex), metadata: json!(null), max_attempts: 100, scheduled_at: at, tags: vec![], priority: 0, uniqueness_criteria: uq }
}
fn crit(k: usize, a: usize) -> UniquenessCriteria<'static> {
    UniquenessCriteria::by_key(&(k, a)).and_executor().and_statuses(&[JobStatus::Scheduled]).on_conflict(Replace::scheduled_at().for_statuses(&[JobStatus::Scheduled]))
}
fn run(f: impl Future<Output = Result<(), String>>) -> Result<(), String> {
    futures::executor::block_on(f)
}
fn go(c: &ThreadCase) -> (Vec<(Aspect, String)>, usize, usize) {
    vkit::vclock::reset(EPOCH);
    let b = InMemoryBackend::new();
    let book = Mutex::new(Book::default());
    let n = c.runners.len() + c.actors.len();
    let bar = Barrier(AtomicUsize::new(0), AtomicUsize::new(0), n);
    let acting = AtomicUsize::new(0);
    let moved = AtomicUsize::new(0);
    let again = AtomicBool::new(false);
    let past = || Utc::now() - TimeDelta::seconds(5);
    let later = || Utc::now() + TimeDelta::hours(3);
    let outs = &c.outs;
    let racing = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for (k, ex) in c.runners.iter().copied().enumerate() {
            let (b, bar, book, acting, moved, again, racing) = (b.clone(), &bar, &book, &acting, &moved, &again, &racing);
            s.spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let _in = rt.enter();
                let flag = Arc::new(Flag(AtomicBool::new(true)));
                let waker = Waker::from(flag.clone());
                let mut cx = Context::from_waker(&waker);
                let mut st = futures::executor::block_on(b.subscribe_ready_jobs(VNAMES[ex].into()));
                let work = |st: &mut std::pin::Pin<Box<dyn futures::Stream<Item = Result<rexecutor::backend::Job, rexecutor::backend::BackendError>> + Send>>, cx: &mut Context<'_>| -> usize {
                    let mut got = 0;
                    while flag.0.swap(false, SeqCst) {
                        match st.poll_next_unpin(cx) {
                            Poll::Pending => {}
                            Poll::Ready(None) => {
                                book.lock().unwrap().bad.push((Aspect::Lost, format!("the stream of runner {k} ended")));
                                break;
                            }
                            Poll::Ready(Some(Err(e))) => {
                                book.lock().unwrap().bad.push((Aspect::Lost, format!("runner {k} got the error {e:?}")));
                                break;
                            }
                            Poll::Ready(Some(Ok(j))) => {
                                let now = Utc::now();
                                flag.0.store(true, SeqCst);
                                got += 1;
                                let out = {
                                    let mut bk = book.lock().unwrap();
                                    let cl = bk.claims.entry(j.id).or_default();
                                    *cl += 1;
                                    let cl = *cl;
                                    let sn = bk.snoozes.get(&j.id).copied().unwrap_or(0);
                                    let al = bk.allowed.get(&j.id).copied().unwrap_or(1);
                                    if let Some(o) = bk.held.insert(j.id, k) {
                                        bk.bad.push((Aspect::Once, format!("job {} was handed to runner {k} while runner {o} was executing it", j.id)));
                                    } else if cl > al {
                                        bk.bad.push((Aspect::Once, format!("job {} was handed out {cl} times but was runnable only {al} times", j.id)));
                                    } else if j.attempt != cl - sn {
                                        bk.bad.push((Aspect::Once, format!("claim {cl} of job {} after {sn} snoozes carries attempt {}", j.id, j.attempt)));
                                    }
                                    if j.executor != VNAMES[ex] || j.data != json!(ex) {
                                        bk.bad.push((Aspect::Once, format!("runner {k} of {:?} was handed job {} of {:?}", VNAMES[ex], j.id, j.executor)));
                                    }
                                    if j.scheduled_at > now + TimeDelta::milliseconds(100) {
                                        bk.bad.push((Aspect::Early, format!("job {} was handed out {} ms before its schedule", j.id, (j.scheduled_at - now).num_milliseconds())));
                                    }
                                    let out = outs.get(cl as usize - 1).copied().unwrap_or(Out::Done);
                                    if matches!(out, Out::RetryNow | Out::RetryLater | Out::SnoozeNow | Out::SnoozeLater) {
                                        *bk.allowed.entry(j.id).or_insert(1) += 1;
                                    }
                                    if matches!(out, Out::SnoozeNow | Out::SnoozeLater) {
                                        *bk.snoozes.entry(j.id).or_default() += 1;
                                    }
                                    if out != Out::Keep {
                                        bk.held.remove(&j.id);
                                    }
                                    out
                                };
                                let id = j.id.into();
                                let err = BErr { error_type: ErrorType::Other("e".into()), message: "m".into() };
                                let res = futures::executor::block_on(async {
                                    match out {
                                        Out::Done => b.mark_job_complete(id).await,
                                        Out::RetryNow => b.mark_job_retryable(id, past(), err).await,
                                        Out::RetryLater => b.mark_job_retryable(id, later(), err).await,
                                        Out::SnoozeNow => b.mark_job_snoozed(id, past()).await,
                                        Out::SnoozeLater => b.mark_job_snoozed(id, later()).await,
                                        Out::Keep => Ok(()),
                                    }
                                });
                                if let Err(e) = res {
                                    book.lock().unwrap().bad.push((Aspect::Lost, format!("recording an outcome failed: {e:?}")));
                                }
                            }
                        }
                    }
                    got
                };
                for r in 0..c.rounds {
                    bar.wait(); // prepared
                    if c.actors.iter().any(|a| a.1 == Act::Subscribe) && (r + k) % 3 == 0 {
                        st = futures::executor::block_on(b.subscribe_ready_jobs(VNAMES[ex].into()));
                        flag.0.store(true, SeqCst);
                    }
                    let mut got = 0;
                    while acting.load(SeqCst) > 0 {
                        got += work(&mut st, &mut cx);
                        std::hint::spin_loop();
                    }
                    racing.fetch_add(got, SeqCst);
                    bar.wait(); // the actors are done
                    loop {
                        let got = work(&mut st, &mut cx);
                        moved.fetch_add(got, SeqCst);
                        bar.wait();
                        bar.wait(); // decided by the first actor
                        if !again.load(SeqCst) {
                            break;
                        }
                    }
                }
            });
        }
        for (a, (ex, act, jitter)) in c.actors.iter().copied().enumerate() {
            let (b, bar, book, acting, moved, again) = (b.clone(), &bar, &book, &acting, &moved, &again);
            s.spawn(move || {
                for k in 0..c.rounds {
                    let e = |e: rexecutor::backend::BackendError| format!("{e:?}");
                    let near: Mutex<Option<rexecutor::job::JobId>> = Mutex::new(None);
                    let prepared: Mutex<Option<rexecutor::backend::Job>> = Mutex::new(None);
                    // prepare
                    let res = run(async {
                        if a == 0 {
                            if let Some(ms) = c.near_ms {
                                *near.lock().unwrap() = Some(b.enqueue(new(ex, Utc::now() + TimeDelta::milliseconds(ms as i64), None)).await.map_err(e)?);
                            }
                            for _ in 0..c.ahead {
                                b.enqueue(new(ex, later(), None)).await.map_err(e)?;
                            }
                        }
                        match act {
                            Act::Update | Act::Unique | Act::Rerun => {
                                let id = b.enqueue(new(ex, later(), Some(crit(k, a)))).await.map_err(e)?;
                                if act == Act::Rerun {
                                    b.mark_job_cancelled(id, BErr { error_type: ErrorType::Cancelled, message: "c".into() }).await.map_err(e)?;
                                }
                                let j = b.query(Query::IdEquals(id)).await.map_err(e)?.pop().ok_or("a stored job cannot be found")?;
                                *prepared.lock().unwrap() = Some(j);
                            }
                            _ => {}
                        }
                        Ok(())
                    });
                    if let Err(m) = res {
                        book.lock().unwrap().bad.push((Aspect::Lost, m));
                    }
                    acting.fetch_add(1, SeqCst);
                    bar.wait(); // prepared
                    for _ in 0..jitter {
                        std::hint::spin_loop();
                    }
                    let res = run(async {
                        let j = prepared.lock().unwrap().take();
                        match act {
                            Act::Now => drop(b.enqueue(new(ex, past(), None)).await.map_err(e)?),
                            Act::Later => drop(b.enqueue(new(ex, later(), None)).await.map_err(e)?),
                            Act::Update => {
                                if let Some(mut j) = j {
                                    j.scheduled_at = past();
                                    b.update_job(j).await.map_err(e)?;
                                }
                            }
                            Act::Unique => {
                                let id = b.enqueue(new(ex, past(), Some(crit(k, a)))).await.map_err(e)?;
                                if j.as_ref().is_none_or(|j| id != j.id) {
                                    return Err(format!("a unique enqueue gave job {id} for {:?}", j.map(|j| j.id)));
                                }
                            }
                            Act::Rerun => {
                                if let Some(j) = j {
                                    b.rerun_job(j.id.into()).await.map_err(e)?;
                                }
                            }
                            Act::Subscribe | Act::Nothing => {}
                        }
                        Ok(())
                    });
                    if let Err(m) = res {
                        book.lock().unwrap().bad.push((Aspect::Lost, m));
                    }
                    acting.fetch_sub(1, SeqCst);
                    bar.wait(); // the actors are done
                    let mut passes = 0;
                    loop {
                        bar.wait();
                        if a == 0 {
                            passes += 1;
                            again.store(moved.swap(0, SeqCst) > 0 && passes < 50, SeqCst);
                            if !again.load(SeqCst) {
                                if let Some(id) = near.lock().unwrap().take() {
                                    let _ = run(async { b.mark_job_cancelled(id, BErr { error_type: ErrorType::Cancelled, message: "c".into() }).await.map_err(e) });
                                }
                                // everybody has been polled for as long as anybody was woken
                                let left = futures::executor::block_on(b.query(Query::And(vec![
                                    Query::Or(vec![Query::StatusEqual(JobStatus::Scheduled), Query::StatusEqual(JobStatus::Retryable)]),
                                    Query::ScheduledAtBefore(Utc::now()),
                                ])))
                                .unwrap_or_default();
                                if let Some(j) = left.iter().find(|j| c.runners.iter().any(|r| VNAMES[*r] == j.executor)) {
                                    book.lock().unwrap().bad.push((Aspect::Lost, format!("job {} is due ({:?}, attempt {}) and runners of {:?} wait, but none of them was woken (round {k})", j.id, j.status, j.attempt, j.executor)));
                                }
                            }
                        }
                        bar.wait();
                        if !again.load(SeqCst) {
                            break;
                        }
                    }
                }
            });
        }
    });
    let bk = book.into_inner().unwrap();
    let claims: i32 = bk.claims.values().sum();
    (bk.bad, claims as usize, racing.load(SeqCst))
}
fn judged(c: &ThreadCase, want: Aspect) -> CaseResult {
    let (bad, claims, racing) = go(c);
    let mut r = CaseResult::ok();
    if let Some((_, m)) = bad.into_iter().find(|b| b.0 == want) {
        r.fail(m);
    }
    r.class_if(c.runners.len() > 1, "several runners");
    r.class_if(racing > 0, "claims while jobs were being made due");
    r.nontrivial = claims > 0;
    r
}
fn once(c: &ThreadCase) -> CaseResult {
    judged(c, Aspect::Once)
}
fn early(c: &ThreadCase) -> CaseResult {
    judged(c, Aspect::Early)
}
fn lost(c: &ThreadCase) -> CaseResult {
    judged(c, Aspect::Lost)
}
const RULE: &str = "20-49 rounds in which 1-2 threads make jobs due (enqueue, update, replacement, rerun) while 1-3 runner threads, polled exactly when woken, claim and record outcomes; non-trivial: something was claimed";
pub fn arm(which: &'static str) -> Box<GenArm<ThreadCase>> {
    let run = match which {
        "C03" => once,
        "C04" => lost,
        _ => early,
    };
    Box::new(GenArm { name: "threads", rule: RULE, quick: 2_400, thorough: 90_000, strategy: thread_case, run })
}
