//! C27: delivery of due jobs by the PostgreSQL backend, judged by the stand-in's own history of
//! committed changes.
use crate::db::{Change, Db, PG_EPOCH_US, Val, now_us};
use crate::fix::*;
use crate::props_tbl::latencies;
use crate::tbl::{NV, VNAMES};
use crate::wire::*;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::{Backend, EnqueuableJob, ExecutionError as BErr, Query};
use rexecutor::job::uniqueness_criteria::{Replace, UniquenessCriteria};
use rexecutor::job::{ErrorType, JobId, JobStatus};
use rexecutor_sqlx::RexecutorPgBackend;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vkit::{CaseResult, GenArm, Property};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum End {
    Done,
    Retry(i32),
    Snooze(i32),
    Discard,
    /// nothing is recorded
    Abandon,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct DJob {
    node: usize,
    ex: usize,
    at_ms: u32,
    sched_ms: i32,
    prio: u16,
    steps: Vec<(u16, End)>,
    /// jobs of the same key are one job, rescheduled by the later ones
    key: Option<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum DOp {
    Rerun(usize),
    Resched(usize, i32),
    Cancel(usize),
    Garbage(u8),
    DropListeners,
    DropAll,
    /// the server refuses connections for that long
    Down(u16),
    /// another runner of the executor subscribes on the node
    Subscribe(usize, usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Deliver {
    seed: u16,
    nodes: usize,
    /// node, executor
    runners: Vec<(usize, usize)>,
    start_ms: u16,
    jobs: Vec<DJob>,
    ops: Vec<(u32, usize, DOp)>,
    lat: [Vec<u32>; 3],
    faults: Vec<(u16, FaultKind)>,
    lose: Vec<u8>,
}
fn djob() -> BoxedStrategy<DJob> {
    let sched = prop_oneof![3 => Just(0i32), 2 => -5000i32..0, 2 => prop::sample::select(vec![5, 14, 16, 50, 99, 101, 500, 2000, 31_000, 45_000, -100_000_000]), 2 => 0i32..3000, 1 => 0i32..70_000];
    let end = prop_oneof![4 => Just(End::Done), 2 => prop_oneof![Just(0), 0i32..3000, 0i32..45_000].prop_map(End::Retry), 1 => prop_oneof![0i32..3000, 0i32..45_000].prop_map(End::Snooze), 1 => Just(End::Discard), 1 => Just(End::Abandon)];
    let at = prop_oneof![2 => 0u32..200, 2 => 0u32..5000, 1 => 0u32..90_000];
    let hold = prop_oneof![2 => Just(0u16), 3 => 0u16..400, 1 => 0u16..9000];
    (0usize..4, 0usize..2, at, sched, prop_oneof![3 => 0u16..3, 1 => any::<u16>()], vec((hold, end), 0..4), prop::option::weighted(0.15, 0u8..2))
        .prop_map(|(node, ex, at_ms, sched_ms, prio, steps, key)| DJob { node, ex, at_ms, sched_ms, prio, steps, key })
        .boxed()
}
fn deliver(disturbed: bool) -> BoxedStrategy<Deliver> {
    let t = || (0usize..8, prop_oneof![2 => 0u32..5000, 1 => 0u32..90_000], 0usize..4);
    let sound = prop_oneof![
        2 => Just(0u8).prop_map(|_| 0u8),
        2 => Just(1u8),
        1 => Just(2u8),
        2 => Just(3u8),
        1 => Just(4u8),
    ];
    let op = (t(), sound, prop_oneof![Just(0i32), -3000i32..3000, 0i32..60_000], any::<u8>())
        .prop_map(|((target, at, node), k, d, g)| {
            let o = match k {
                0 => DOp::Rerun(target),
                1 => DOp::Resched(target, d),
                2 => DOp::Cancel(target),
                3 => DOp::Garbage(g % 8),
                _ => DOp::Subscribe(node, target % 2),
            };
            (at, node, o)
        })
        .boxed();
    let op = if disturbed {
        let bad = (t(), 0u8..3, 100u16..60_000).prop_map(|((_, at, node), k, d)| {
            let o = match k {
                0 => DOp::DropListeners,
                1 => DOp::DropAll,
                _ => DOp::Down(d),
            };
            (at, node, o)
        });
        prop_oneof![3 => op, 2 => bad].boxed()
    } else {
        op
    };
    let fault = (0u16..150, prop_oneof![Just(FaultKind::Error), Just(FaultKind::Drop)]);
    let (faults, lose) = if disturbed { (vec(fault, 0..8).boxed(), vec(0u8..40, 0..5).boxed()) } else { (Just(vec![]).boxed(), Just(vec![]).boxed()) };
    (
        (any::<u16>(), 1usize..4, vec((0usize..4, 0usize..2), 1..5), prop_oneof![2 => Just(0u16), 1 => 0u16..3000]),
        (vec(djob(), 1..9), vec(op, 0..6), latencies(), faults, lose),
    )
        .prop_map(|((seed, nodes, runners, start_ms), (jobs, ops, lat, faults, lose))| Deliver { seed, nodes, runners, start_ms, jobs, ops, lat, faults, lose })
        .boxed()
}
fn quiet_case() -> BoxedStrategy<Deliver> {
    deliver(false)
}
fn disturbed_case() -> BoxedStrategy<Deliver> {
    deliver(true)
}

// ------------------------------------------------------------------ running

/// Microseconds since 2000.
type Us = i64;
#[derive(Clone, Debug)]
enum Ev {
    Idle(usize),
    Got { runner: usize, id: i32, attempt: i32, at: Us, executor: String, tag: i64 },
    Err(usize, String),
    Ended(usize),
    Stored { tag: usize, id: i32 },
    NotStored { tag: usize, why: String },
    OpFailed(String),
}
#[derive(Default)]
struct Log {
    ev: Vec<(Us, Ev)>,
    runs: HashMap<i32, usize>,
}
type L = Arc<Mutex<Log>>;
fn push(l: &L, e: Ev) {
    l.lock().unwrap().ev.push((now_us(), e));
}
fn pg_us(t: DateTime<Utc>) -> Us {
    t.timestamp_micros() - PG_EPOCH_US
}
async fn runner(k: usize, b: RexecutorPgBackend, ex: usize, jobs: Arc<Vec<DJob>>, l: L) {
    let mut s = b.subscribe_ready_jobs(VNAMES[ex].into()).await;
    let mut errors = 0;
    push(&l, Ev::Idle(k));
    loop {
        let job = match s.next().await {
            None => return push(&l, Ev::Ended(k)),
            Some(Err(e)) => {
                push(&l, Ev::Err(k, format!("{e:?}")));
                errors += 1;
                if errors > 3000 {
                    // something is wrong for good; keep the case short
                    tokio::time::sleep(Duration::from_millis(500)).await;
                }
                continue;
            }
            Some(Ok(j)) => j,
        };
        let tag = job.data["tag"].as_i64().unwrap_or(-1);
        push(&l, Ev::Got { runner: k, id: job.id, attempt: job.attempt, at: job.attempted_at.map_or(i64::MIN, pg_us), executor: job.executor.clone(), tag });
        let n = {
            let mut l = l.lock().unwrap();
            let n = l.runs.entry(job.id).or_default();
            *n += 1;
            *n - 1
        };
        let (hold, end) = jobs.get(tag as usize).and_then(|j| j.steps.get(n)).copied().unwrap_or((0, End::Done));
        tokio::time::sleep(Duration::from_millis(hold as u64)).await;
        let id: JobId = job.id.into();
        let err = || BErr { error_type: ErrorType::Other("e".into()), message: "m".into() };
        // recorded until it succeeds: losing outcomes is not what is examined here
        for i in 0..400 {
            let now = Utc::now();
            let r = match end {
                End::Done => b.mark_job_complete(id).await,
                End::Retry(ms) => b.mark_job_retryable(id, now + TimeDelta::milliseconds(ms as i64), err()).await,
                End::Snooze(ms) => b.mark_job_snoozed(id, now + TimeDelta::milliseconds(ms as i64)).await,
                End::Discard => b.mark_job_discarded(id, err()).await,
                End::Abandon => Ok(()),
            };
            match r {
                Ok(()) => break,
                Err(e) if i == 399 => push(&l, Ev::OpFailed(format!("recording an outcome of job {id}: {e:?}"))),
                Err(_) => tokio::time::sleep(Duration::from_millis(50)).await,
            }
        }
        push(&l, Ev::Idle(k));
    }
}
fn committed(db: &Db, id: i32) -> Option<Arc<Vec<Val>>> {
    let c = db.col(JOBS, "id");
    db.tables[JOBS].rows.iter().filter_map(|s| s.committed.clone()).find(|r| r[c] == Val::Int(id as i64))
}
#[derive(Clone, Debug)]
struct View {
    id: i32,
    status: String,
    executor: String,
    attempt: i64,
    prio: i64,
    sched: Us,
    attempted: Option<Us>,
    tag: i64,
}
struct Cols {
    ix: HashMap<&'static str, usize>,
    labels: Vec<String>,
}
impl Cols {
    fn of(db: &Db) -> Cols {
        Cols {
            ix: ["id", "status", "executor", "attempt", "priority", "scheduled_at", "attempted_at", "data"].into_iter().map(|n| (n, db.col(JOBS, n))).collect(),
            labels: db.enums.iter().find(|e| e.name == "rexecutor_job_state").expect("harness: status type").labels.clone(),
        }
    }
    fn view(&self, r: &[Val]) -> View {
        let int = |n: &str| match &r[self.ix[n]] {
            Val::Int(i) => *i,
            v => panic!("harness: {n} is {v:?}"),
        };
        let time = |n: &str| match &r[self.ix[n]] {
            Val::Ts(t) => Some(*t),
            _ => None,
        };
        View {
            id: int("id") as i32,
            status: match &r[self.ix["status"]] {
                Val::En(_, k) => self.labels[*k].clone(),
                v => panic!("harness: status is {v:?}"),
            },
            executor: match &r[self.ix["executor"]] {
                Val::Text(t) => t.clone(),
                v => panic!("harness: executor is {v:?}"),
            },
            attempt: int("attempt"),
            prio: int("priority"),
            sched: time("scheduled_at").expect("harness: scheduled_at"),
            attempted: time("attempted_at"),
            tag: match &r[self.ix["data"]] {
                Val::Json(j) => j["tag"].as_i64().unwrap_or(-1),
                _ => -1,
            },
        }
    }
}
fn pending(v: &View) -> bool {
    v.status == "scheduled" || v.status == "retryable"
}
const GARBAGE: [&str; 8] = [
    "",
    "not json",
    "{}",
    "{\"executor\": 5, \"scheduled_at\": null}",
    "{\"executor\": \"alpha\", \"scheduled_at\": \"yesterday\"}",
    "{\"executor\": \"nobody\", \"scheduled_at\": \"2024-03-01T00:00:00+00:00\"}",
    "{\"executor\": \"alpha\", \"scheduled_at\": \"2024-03-01T00:00:00+00:00\"}",
    "[1, \"\\ud83e\\udd80\"]",
];
const SEC: Us = 1_000_000;
const SHORT: Us = 2 * SEC;
const LONG: Us = 34 * SEC;

fn run_deliver(c: &Deliver) -> CaseResult {
    on_server(c.seed as u64, c.nodes, async |s, bs, r| {
        let log: L = Default::default();
        let jobs = Arc::new(c.jobs.clone());
        {
            let mut n = s.net.lock().unwrap();
            n.armed = true;
            [n.before, n.mid, n.after] = c.lat.clone();
            n.faults = c.faults.iter().map(|(k, f)| (*k as u64, *f)).collect();
            s.sh.lock().lose = c.lose.iter().map(|k| *k as usize).collect();
        }
        let t0 = tokio::time::Instant::now();
        let mut kinds: Vec<usize> = vec![];
        let mut subs: Vec<(u64, usize, usize)> = c.runners.iter().map(|(n, e)| (c.start_ms as u64, *n, *e)).collect();
        for (at, _, o) in &c.ops {
            if let DOp::Subscribe(n, e) = o {
                subs.push((*at as u64, *n, *e));
            }
        }
        for (k, (at, n, e)) in subs.iter().enumerate() {
            kinds.push(*e);
            let (b, jobs, l, at, e) = (bs[n % bs.len()].clone(), jobs.clone(), log.clone(), *at, *e);
            tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
                runner(k, b, e, jobs, l).await
            });
        }
        let ids: Arc<Mutex<HashMap<usize, i32>>> = Default::default();
        for (tag, j) in c.jobs.iter().cloned().enumerate() {
            let (b, l, ids) = (bs[j.node % bs.len()].clone(), log.clone(), ids.clone());
            tokio::spawn(async move {
                tokio::time::sleep_until(t0 + Duration::from_millis(j.at_ms as u64)).await;
                let uq = j.key.map(|k| {
                    UniquenessCriteria::by_key(&k)
                        .and_executor()
                        .and_statuses(&[JobStatus::Scheduled, JobStatus::Retryable])
                        .on_conflict(Replace::scheduled_at().for_statuses(&[JobStatus::Scheduled, JobStatus::Retryable]))
                });
                let res = b
                    .enqueue(EnqueuableJob {
                        executor: VNAMES[j.ex].into(),
                        data: json!({"tag": tag, "text": "it's"}),
                        metadata: json!(null),
                        max_attempts: 5,
                        scheduled_at: Utc::now() + TimeDelta::milliseconds(j.sched_ms as i64),
                        tags: vec![],
                        priority: j.prio,
                        uniqueness_criteria: uq,
                    })
                    .await;
                match res {
                    Ok(id) => {
                        ids.lock().unwrap().insert(tag, id.into());
                        push(&l, Ev::Stored { tag, id: id.into() })
                    }
                    Err(e) => push(&l, Ev::NotStored { tag, why: format!("{e:?}") }),
                }
            });
        }
        // times at which something went wrong on purpose
        let mut rough: Vec<(Us, Us)> = vec![];
        let mut killed: Vec<(Us, Us)> = vec![];
        let mut ops = c.ops.clone();
        ops.sort_by_key(|o| o.0);
        let mut down: Vec<Us> = vec![];
        for (at, node, o) in &ops {
            tokio::time::sleep_until(t0 + Duration::from_millis(*at as u64)).await;
            let b = bs[node % bs.len()].clone();
            let now = now_us();
            let target = |k: &usize| -> Option<i32> {
                let id = *ids.lock().unwrap().get(&(k % c.jobs.len()))?;
                let db = s.sh.lock();
                let v = Cols::of(&db).view(&*committed(&db, id)?);
                (v.status != "executing").then_some(id)
            };
            let l = log.clone();
            match o {
                DOp::Subscribe(..) => {}
                DOp::Rerun(k) => {
                    if let Some(id) = target(k) {
                        tokio::spawn(async move {
                            if let Err(e) = b.rerun_job(id.into()).await {
                                push(&l, Ev::OpFailed(format!("rerun: {e:?}")));
                            }
                        });
                    }
                }
                DOp::Cancel(k) => {
                    if let Some(id) = target(k) {
                        tokio::spawn(async move {
                            if let Err(e) = b.mark_job_cancelled(id.into(), BErr { error_type: ErrorType::Cancelled, message: "no".into() }).await {
                                push(&l, Ev::OpFailed(format!("cancel: {e:?}")));
                            }
                        });
                    }
                }
                DOp::Resched(k, d) => {
                    if let Some(id) = target(k) {
                        let d = *d;
                        tokio::spawn(async move {
                            let res = match b.query(Query::IdEquals(id.into())).await {
                                Ok(mut v) if v.len() == 1 => {
                                    let mut j = v.remove(0);
                                    j.scheduled_at = Utc::now() + TimeDelta::milliseconds(d as i64);
                                    b.update_job(j).await.map_err(|e| format!("{e:?}"))
                                }
                                Ok(v) => Err(format!("{} jobs found by id", v.len())),
                                Err(e) => Err(format!("{e:?}")),
                            };
                            if let Err(e) = res {
                                push(&l, Ev::OpFailed(format!("update: {e}")));
                            }
                        });
                    }
                }
                DOp::Garbage(k) => {
                    let chan = {
                        let db = s.sh.lock();
                        db.conns.values().find_map(|c| c.listens.iter().next().cloned())
                    };
                    if let Some(ch) = chan {
                        // not one of the library's own notifications: never among the lost ones
                        let mut db = s.sh.lock();
                        let keep = std::mem::take(&mut db.lose);
                        db.post(&ch, GARBAGE[*k as usize % 8], 1);
                        db.lose = keep;
                    }
                }
                DOp::DropListeners => {
                    rough.push((now, now));
                    s.drop_listeners();
                }
                DOp::DropAll => {
                    rough.push((now, now));
                    killed.push((now, now));
                    s.drop_all();
                }
                DOp::Down(ms) => {
                    let up = now + *ms as Us * 1000;
                    rough.push((now, up));
                    killed.push((now, up));
                    s.net.lock().unwrap().down = true;
                    s.drop_all();
                    down.push(up);
                    let (net, ms) = (s.net.clone(), *ms);
                    let last = *down.iter().max().unwrap();
                    tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                        if now_us() >= last {
                            net.lock().unwrap().down = false;
                        }
                    });
                }
            }
        }
        let mut span = c.start_ms as u64;
        for j in &c.jobs {
            let delays: i64 = j.steps.iter().map(|(h, e)| *h as i64 + if let End::Retry(d) | End::Snooze(d) = e { *d as i64 } else { 0 }).sum();
            span = span.max((j.at_ms as i64 + j.sched_ms.max(0) as i64 + delays) as u64);
        }
        for (at, _, o) in &c.ops {
            let d = match o {
                DOp::Resched(_, d) => (*d).max(0) as u64,
                DOp::Down(ms) => *ms as u64,
                _ => 0,
            };
            span += d;
            span = span.max(*at as u64 + d);
        }
        let calm = rough.is_empty() && c.faults.is_empty() && c.lose.is_empty();
        span += if calm { 8_000 } else { 90_000 };
        tokio::time::sleep_until(t0 + Duration::from_millis(span)).await;
        let t_end = now_us();
        {
            let n = s.net.lock().unwrap();
            rough.extend(n.hit_at.iter().map(|t| (*t, *t)));
        }
        let db = s.sh.lock();
        rough.extend(db.lost_at.iter().map(|t| (*t, *t)));
        let log = log.lock().unwrap().ev.clone();
        judge(c, &db, &log, &rough, &killed, &kinds, t_end, r);
    })
}

fn judge(c: &Deliver, db: &Db, log: &[(Us, Ev)], rough: &[(Us, Us)], killed: &[(Us, Us)], kinds: &[usize], t_end: Us, r: &mut CaseResult) {
    let cols = Cols::of(db);
    let start = (EPOCH / 1000) - PG_EPOCH_US;
    let ms = |t: Us| (t - start) as f64 / 1e3;
    let hist: Vec<(Us, Option<View>, Option<View>)> =
        db.history.iter().filter(|h| h.table == JOBS).map(|h: &Change| (h.t, h.old.as_ref().map(|x| cols.view(x)), h.new.as_ref().map(|x| cols.view(x)))).collect();
    let near = |set: &[(Us, Us)], t: Us, before: Us, after: Us| set.iter().any(|(a, b)| *a - before <= t && t <= *b + after);
    let calm = rough.is_empty();

    // claims and deliveries, one to one
    let mut claims: Vec<(Us, &View, bool)> = vec![];
    for (t, old, new) in &hist {
        let Some(n) = new else { continue };
        if n.status != "executing" {
            continue;
        }
        match old {
            Some(o) if pending(o) && n.attempt == o.attempt + 1 => {
                if o.executor != n.executor || o.sched != n.sched || o.prio != n.prio || o.tag != n.tag {
                    return r.fail(format!("claiming changed the job from {o:?} to {n:?}"));
                }
                if *t < o.sched - 100_000 {
                    return r.fail(format!("job {} was claimed at {:.3} ms, {:.3} ms before its schedule", n.id, ms(*t), (o.sched - t) as f64 / 1e3));
                }
                claims.push((*t, n, false));
            }
            // an update of the job's details, decided before the job was claimed
            Some(o) if o.status == "executing" && o.attempt == n.attempt && o.attempted == n.attempted => {}
            _ => return r.fail(format!("job {} became executing (attempt {}) at {:.3} ms from {old:?}", n.id, n.attempt, ms(*t))),
        }
    }
    let mut got = 0;
    for (t, e) in log {
        match e {
            Ev::Got { runner, id, attempt, at, executor, tag } => {
                got += 1;
                if *executor != VNAMES[kinds[*runner]] {
                    return r.fail(format!("a runner of {:?} was handed job {id} of {executor:?}", VNAMES[kinds[*runner]]));
                }
                match claims.iter_mut().find(|(ct, v, used)| !*used && v.id == *id && v.attempt == *attempt as i64 && v.attempted == Some(*at) && *ct <= *t) {
                    Some(c) if c.1.tag == *tag && c.1.executor == *executor => c.2 = true,
                    Some(c) => return r.fail(format!("handed out job {id} with tag {tag}, executor {executor:?}; stored is {:?}", c.1)),
                    None => return r.fail(format!("job {id}, attempt {attempt} was handed out at {:.3} ms without (or once more than) being claimed", ms(*t))),
                }
            }
            Ev::Ended(k) => return r.fail(format!("the stream of runner {k} ended at {:.3} ms", ms(*t))),
            Ev::Err(k, e) if calm => return r.fail(format!("runner {k} was given the error {e} at {:.3} ms although nothing had failed", ms(*t))),
            Ev::OpFailed(e) if calm => return r.fail(format!("{e} although nothing had failed")),
            Ev::NotStored { tag, why } if calm => return r.fail(format!("enqueueing job {tag} failed: {why}")),
            Ev::NotStored { tag, .. } if killed.is_empty() => {
                if hist.iter().any(|(_, o, n)| o.is_none() && n.as_ref().is_some_and(|n| n.tag == *tag as i64)) {
                    return r.fail(format!("enqueueing job {tag} reported an error but stored it"));
                }
            }
            _ => {}
        }
    }
    for (t, v, used) in &claims {
        // an answer may be lost with its connection
        if !used && *t < t_end - SEC && !near(killed, *t, SEC, SEC) {
            return r.fail(format!("job {} was claimed at {:.3} ms but handed to nobody", v.id, ms(*t)));
        }
    }

    // pending stretches
    struct Stretch {
        v: View,
        from: Us,
        to: Us,
    }
    let mut open: HashMap<i32, Stretch> = HashMap::new();
    let mut all: Vec<Stretch> = vec![];
    for (t, old, new) in &hist {
        let id = new.as_ref().or(old.as_ref()).unwrap().id;
        let keep = match (old, new) {
            (Some(o), Some(n)) => pending(o) && pending(n) && o.sched == n.sched && o.prio == n.prio && o.executor == n.executor,
            _ => false,
        };
        if keep {
            continue;
        }
        if let Some(mut s) = open.remove(&id) {
            s.to = *t;
            all.push(s);
        }
        if let Some(n) = new.as_ref().filter(|n| pending(n)) {
            open.insert(id, Stretch { v: n.clone(), from: *t, to: t_end });
        }
    }
    all.extend(open.into_values());
    // idle stretches
    let mut idle: Vec<(usize, Us, Us)> = vec![];
    let mut since: HashMap<usize, Us> = HashMap::new();
    for (t, e) in log {
        match e {
            Ev::Idle(k) => {
                since.insert(*k, *t);
            }
            Ev::Got { runner, .. } => {
                if let Some(f) = since.remove(runner) {
                    idle.push((*runner, f, *t));
                }
            }
            _ => {}
        }
    }
    idle.extend(since.into_iter().map(|(k, f)| (k, f, t_end)));
    let mut quick = 0;
    for s in &all {
        let ready = s.from.max(s.v.sched);
        for (k, f, u) in idle.iter().filter(|i| VNAMES[kinds[i.0]] == s.v.executor) {
            let mut a = ready.max(*f);
            // nothing can be delivered while the server is down
            for (x, y) in killed {
                if *x <= a + LONG && a < *y {
                    a = *y;
                }
            }
            let b = s.to.min(*u);
            let bound = if near(rough, a, SHORT, 70 * SEC) { LONG } else { SHORT };
            if near(rough, a, LONG, 0) && b > a {
                // disturbed while waiting
                if b - a > LONG {
                    return r.fail(late(s.v.id, *k, a, b, ms, "31 s"));
                }
                continue;
            }
            if b > a {
                quick += 1;
            }
            if b - a > bound {
                return r.fail(late(s.v.id, *k, a, b, ms, if bound == SHORT { "2 s" } else { "34 s" }));
            }
        }
    }
    // order
    let lat: Us = c.lat.iter().map(|l| l.iter().copied().max().unwrap_or(0) as Us).sum::<Us>() * 1000 + 30_000;
    let mut choices = 0;
    if calm {
        for (t, v, _) in &claims {
            // a job changed while it was being claimed is ordered by what it was before
            if all.iter().any(|s| s.v.id == v.id && s.to == *t && s.from > t - lat) {
                continue;
            }
            for s in all.iter().filter(|s| s.v.executor == v.executor && s.v.id != v.id && s.from < t - lat && s.to > t + lat && s.v.sched < t - lat) {
                choices += 1;
                let (p, q) = ((s.v.prio, s.v.sched), (v.prio, v.sched));
                if p.0 <= q.0 && p.1 <= q.1 && p != q {
                    return r.fail(format!("job {} (priority {}, due {:.3} ms) was claimed at {:.3} ms although job {} (priority {}, due {:.3} ms) was waiting", v.id, v.prio, ms(v.sched), ms(*t), s.v.id, s.v.prio, ms(s.v.sched)));
                }
            }
        }
    }
    r.class_if(choices > 0, "order matters");
    r.class_if(c.nodes > 1, "several nodes");
    r.class_if(got > c.jobs.len(), "more than one attempt");
    r.class_if(!calm, "disturbed");
    r.class_if(!killed.is_empty(), "connections lost");
    r.class_if(all.iter().any(|s| s.v.sched > s.from + 30 * SEC), "scheduled beyond the polling period");
    r.nontrivial = got > 0 && quick > 0;
    let _ = NV;
}
fn late(id: i32, k: usize, a: Us, b: Us, ms: impl Fn(Us) -> f64, bound: &str) -> String {
    format!("job {id} was due and runner {k} idle from {:.3} ms, but it was not handed out by {:.3} ms (bound {bound})", ms(a), ms(b))
}

const STANDIN: &str = "PostgreSQL is a stand-in that executes the library's own SQL and migrations (read committed, row locks, SKIP LOCKED, advisory locks, triggers, LISTEN/NOTIFY) over the wire protocol, on the same clock as the nodes";

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C27",
        assumptions: vec![STANDIN, "promptly: within 2 s of being due with an idle runner; within 34 s after a failure or a lost notification", "an answer lost together with its connection may lose the claim it carried"],
        arms: vec![
            Box::new(GenArm { name: "quiet", rule: "1-8 jobs, 1-5 runners on 1-3 nodes, operations, stray notifications, statement latencies; non-trivial: a job waited for an idle runner and was delivered", quick: 8_000, thorough: 300_000, strategy: quiet_case, run: run_deliver }),
            Box::new(GenArm { name: "disturbed", rule: "the same with failing statements, lost notifications and connections and server outages; non-trivial: a job waited for an idle runner and was delivered", quick: 8_000, thorough: 300_000, strategy: disturbed_case, run: run_deliver }),
        ],
    }]
}
