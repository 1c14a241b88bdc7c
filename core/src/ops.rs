//! Generated tables, queries, prunes, unique enqueues and life-cycle histories run against any
//! backend. Shared by the in-memory and the PostgreSQL checks.
#![allow(dead_code)]
use crate::tbl::*;
use crate::vals::*;
use crate::with_vex;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::{Backend, BackendError, ExecutionError as BErr, Job as BJob, Query};
use rexecutor::executor::Executor;
use rexecutor::job::{Job, JobError, JobId, JobStatus};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::time::Duration;
use vkit::CaseResult;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct UniqueCase {
    pub rows: Vec<Row>,
    pub new: Vec<NewJob>,
}
pub fn unique_case() -> BoxedStrategy<UniqueCase> {
    (vec(row(true), 0..5), vec(new_job(prop_oneof![1 => Just(None), 6 => crit().prop_map(Some)].boxed()), 1..6))
        .prop_map(|(mut rows, mut new)| {
            // most rows are in a status criteria commonly name, and share few keys
            for (i, r) in rows.iter_mut().enumerate() {
                if i % 2 == 0 {
                    r.status %= 4;
                }
            }
            // half of the criteria are aimed at a stored job
            let aims: Vec<Row> = rows.clone();
            for (i, n) in new.iter_mut().enumerate() {
                if let (Some(c), Some(a)) = (&mut n.crit, aims.get(i * 2 % aims.len().max(1))) {
                    if c.key.is_some() && i % 2 == 0 {
                        c.key = a.key.clone();
                    }
                    if c.executor && i % 2 == 0 {
                        n.ex = a.ex;
                    }
                    if i % 2 == 0 {
                        if let Some(s) = &mut c.statuses {
                            if !s.contains(&a.status) {
                                s.push(a.status);
                            }
                        }
                    }
                }
            }
            UniqueCase { rows, new }
        })
        .boxed()
}
pub fn collision(c: &UniqueCase) -> bool {
    let keys: Vec<KeySpec> = c.rows.iter().filter_map(|r| r.key.clone()).chain(c.new.iter().filter_map(|n| n.crit.as_ref().and_then(|c| c.key.clone()))).collect();
    let hash = |k: &KeySpec| match k {
        KeySpec::Int(x) => fxhash::hash64(x),
        KeySpec::Str(x) => fxhash::hash64(x),
        KeySpec::Pair(a, b) => fxhash::hash64(&(a, b)),
    };
    keys.iter().enumerate().any(|(i, a)| keys[..i].iter().any(|b| a != b && hash(a) == hash(b)))
}
/// What differs between the backends.
#[derive(Clone, Copy)]
pub struct Dialect {
    /// the uniqueness window is around the new job's schedule and inclusive (else: around now)
    pub centre_new: bool,
    /// updating a job writes only data, metadata, maximum, schedule, priority and tags
    pub partial_update: bool,
}
pub async fn unique_on<B: Backend + Send + Sync>(b: &B, c: &UniqueCase, mut want: Vec<Stored>, base: DateTime<Utc>, d: Dialect, conflicts: bool, r: &mut CaseResult) {
    {
        for n in &c.new {
            let ar = StatusArena::default();
            let t = Utc::now();
            let before: Vec<i32> = want.iter().map(|s| s.job.id).collect();
            let candidates: Vec<i32> = n.crit.as_ref().map(|cr| want.iter().filter(|s| cr.matches(s, VNAMES[n.ex % NV], if d.centre_new { at(base, n.sched_ms) } else { t }, d.centre_new)).map(|s| s.job.id).collect()).unwrap_or_default();
            let id: i32 = match b.enqueue(n.enqueuable(base, &ar)).await {
                Ok(id) => id.into(),
                Err(e) => return r.fail(format!("enqueue failed: {e:?}")),
            };
            let now = match table(b).await {
                Ok(t) => t,
                Err(e) => return r.fail(e),
            };
            let added: Vec<i32> = now.iter().map(|j| j.id).filter(|i| !before.contains(i)).collect();
            r.class_if(n.crit.is_some() && candidates.is_empty() && !before.is_empty(), "no match");
            r.class_if(candidates.len() == 1, "one match");
            r.class_if(candidates.len() > 1, "several matches");
            if candidates.is_empty() {
                if added != [id] {
                    if conflicts {
                        return;
                    }
                    return r.fail(format!("no stored job matches {n:?}, but enqueueing it returned {id} and added {added:?}; stored before: {want:?}"));
                }
                let j = now.iter().find(|j| j.id == id).unwrap();
                want.push(n.stored(id, j.inserted_at, base));
            } else {
                if !added.is_empty() || !candidates.contains(&id) {
                    return r.fail(format!("jobs {candidates:?} match {n:?}, but enqueueing it returned {id} and added {added:?}; stored before: {want:?}"));
                }
                let s = want.iter_mut().find(|s| s.job.id == id).unwrap();
                let hit = n.resolve(s, base);
                r.class_if(hit, "replaced");
                r.class_if(!hit && n.crit.as_ref().is_some_and(|c| c.conflict.is_some()), "replacement not allowed in that status");
                if conflicts {
                    r.nontrivial = true;
                }
            }
            if conflicts {
                if let Some(e) = compare(&now, &want) {
                    return r.fail(format!("after enqueueing {n:?} (returned id {id}): {e}"));
                }
            } else {
                r.nontrivial |= n.crit.is_some() && !before.is_empty();
                // follow what is stored: what a conflict changes is another property
                for s in want.iter_mut() {
                    if let Some(j) = now.iter().find(|j| j.id == s.job.id) {
                        s.job = j.clone();
                    }
                }
            }
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct QueryCase {
    pub rows: Vec<Row>,
    pub queries: Vec<Q>,
}
pub fn query_case() -> BoxedStrategy<QueryCase> {
    (vec(row(false), 1..8), vec(query(), 1..5)).prop_map(|(rows, queries)| QueryCase { rows, queries }).boxed()
}
pub async fn query_on<B: Backend + Send + Sync>(b: &B, c: &QueryCase, want: Vec<Stored>, base: DateTime<Utc>, r: &mut CaseResult) {
    {
        let ids: Vec<i32> = want.iter().map(|s| s.job.id).collect();
        for q in &c.queries {
            let ar = Arena::default();
            let exp: Vec<Stored> = want.iter().filter(|s| eval(q, &s.job, &ids, base)).cloned().collect();
            match b.query(raw(q, &ids, base, &ar)).await {
                Ok(got) => {
                    if let Some(e) = compare(&got, &exp) {
                        return r.fail(format!("query {q:?}: {e}"));
                    }
                }
                Err(e) => return r.fail(format!("query {q:?} failed: {e:?}")),
            }
            r.class_if(exp.is_empty(), "no result");
            r.class_if(!exp.is_empty() && exp.len() < want.len(), "proper subset");
            r.class_if(q.depth() >= 2, "nested");
            r.nontrivial |= !exp.is_empty() && exp.len() < want.len();
            // through each executor
            let sq = strip_ex(q);
            for ex in 0..NV {
                let exp: Vec<&BJob> = want.iter().map(|s| &s.job).filter(|j| j.executor == VNAMES[ex] && eval(&sq, j, &ids, base)).collect();
                let got = with_vex!(ex, E => E::query_jobs_on_backend(typed(q, &ids, base, &ar), b).await);
                match got {
                    Ok(got) => {
                        if let Some(e) = compare_typed(&got, &exp) {
                            return r.fail(format!("query {sq:?} through executor {:?}: {e}", VNAMES[ex]));
                        }
                    }
                    Err(e) => return r.fail(format!("query {sq:?} through executor {:?} failed: {e:?}", VNAMES[ex])),
                }
            }
        }
    }
}
pub fn compare_typed(got: &[Job<Value, Value>], want: &[&BJob]) -> Option<String> {
    let mut g: Vec<&Job<Value, Value>> = got.iter().collect();
    g.sort_by_key(|j| i32::from(j.id));
    let mut w: Vec<&&BJob> = want.iter().collect();
    w.sort_by_key(|j| j.id);
    let (gi, wi): (Vec<i32>, Vec<i32>) = (g.iter().map(|j| j.id.into()).collect(), w.iter().map(|j| j.id).collect());
    if gi != wi {
        return Some(format!("returned the jobs {gi:?}, expected {wi:?}"));
    }
    for (g, w) in g.iter().zip(w) {
        let same = g.status == w.status
            && g.executor == w.executor
            && g.data == w.data
            && g.metadata.clone().unwrap_or(Value::Null) == w.metadata
            && g.attempt as i32 == w.attempt
            && g.max_attempts as i32 == w.max_attempts
            && g.priority as i32 == w.priority
            && g.tags == w.tags
            && g.errors == w.errors
            && g.inserted_at == w.inserted_at
            && g.scheduled_at == w.scheduled_at
            && g.attempted_at == w.attempted_at
            && g.completed_at == w.completed_at
            && g.cancelled_at == w.cancelled_at
            && g.discarded_at == w.discarded_at;
        if !same {
            return Some(format!("returned {g:?}, stored {w:?}"));
        }
    }
    None
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PruneCase {
    pub rows: Vec<Row>,
    pub prunes: Vec<PruneReq>,
}
pub fn prune_case() -> BoxedStrategy<PruneCase> {
    (vec((row(true), prop::bool::weighted(0.7)), 0..10), vec(any_prune_req(), 1..4))
        .prop_map(|(rows, prunes)| {
            // most rows are in the status the first prune is about
            let st = (3 + prunes[0].status) % 6;
            let rows = rows
                .into_iter()
                .map(|(mut r, aim)| {
                    if aim {
                        r.status = st;
                    }
                    r
                })
                .collect();
            PruneCase { rows, prunes }
        })
        .boxed()
}
pub async fn prune_on<B: Backend + Send + Sync>(b: &B, c: &PruneCase, mut want: Vec<Stored>, r: &mut CaseResult) {
    {
        for p in &c.prunes {
            let now = Utc::now();
            if let Err(e) = b.prune_jobs(&p.spec()).await {
                return r.fail(format!("prune failed: {e:?}"));
            }
            let after = match table(b).await {
                Ok(t) => t,
                Err(e) => return r.fail(e),
            };
            if let Some(e) = p.check(&want, &after, now) {
                return r.fail(format!("pruning {p:?}: {e}"));
            }
            r.class_if(after.len() < want.len(), "removed some");
            r.class_if(after.len() < want.len() && after.iter().any(|j| p.covers(j)), "removed part of the covered");
            r.nontrivial |= after.len() < want.len();
            want.retain(|s| after.iter().any(|j| j.id == s.job.id));
        }
    }
}

// ------------------------------------------------------------------ C21: life-cycle

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum LOp {
    Enqueue(NewJob),
    Claim(usize),
    Complete(usize),
    Retry(usize, i64, u8, String),
    Snooze(usize, i64),
    Discard(usize, u8, String),
    CancelExec(usize, u8, String),
    /// through the executor
    Cancel(usize, String),
    Rerun(usize),
    Update(usize, Row),
    Advance(u32),
    Prune(PruneReq),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LifeCase {
    pub ops: Vec<LOp>,
}
pub fn life_case() -> BoxedStrategy<LifeCase> {
    let i = || 0usize..6;
    let enq = || {
        new_job(Just(None).boxed()).prop_map(|mut n| {
            // mostly due
            if n.prio % 4 != 0 {
                n.sched_ms = -n.sched_ms.abs();
            }
            LOp::Enqueue(n)
        })
    };
    let op = prop_oneof![
        4 => enq(),
        6 => (0usize..NV).prop_map(LOp::Claim),
        2 => i().prop_map(LOp::Complete),
        3 => (i(), -5000i64..5000, 0u8..5, text()).prop_map(|(a, b, c, d)| LOp::Retry(a, b, c, d)),
        2 => (i(), -5000i64..5000).prop_map(|(a, b)| LOp::Snooze(a, b)),
        2 => (i(), 0u8..5, text()).prop_map(|(a, c, d)| LOp::Discard(a, c, d)),
        1 => (i(), 0u8..5, text()).prop_map(|(a, c, d)| LOp::CancelExec(a, c, d)),
        2 => (i(), text()).prop_map(|(a, d)| LOp::Cancel(a, d)),
        3 => i().prop_map(LOp::Rerun),
        2 => (i(), row(false)).prop_map(|(a, r)| LOp::Update(a, r)),
        2 => (0u32..10_000).prop_map(LOp::Advance),
        1 => prune_req().prop_map(LOp::Prune),
    ];
    (vec(enq(), 0..4), vec(op, 1..22))
        .prop_map(|(mut ops, more)| {
            ops.extend(more);
            LifeCase { ops }
        })
        .boxed()
}
/// Runs a history against a backend and the life-cycle model. `clock`: the instant, with the
/// precision instants are stored with.
pub async fn life<B: Backend + Send + Sync>(b: &B, c: &LifeCase, base: DateTime<Utc>, d: Dialect, clock: impl Fn() -> DateTime<Utc>, advance: impl Fn(u64)) -> CaseResult {
    let mut r = CaseResult::ok();
    let mut model: Vec<BJob> = vec![];
    let mut gone: Vec<i32> = vec![];
    let mut done = 0;
    for op in &c.ops {
        let t0 = clock();
        // None: the operation must report job-not-found
        let pick = |i: &usize, model: &[BJob], f: &dyn Fn(&BJob) -> bool| -> Option<usize> {
            let v: Vec<usize> = (0..model.len()).filter(|k| f(&model[*k])).collect();
            if v.is_empty() { None } else { v.get(*i % (v.len() + usize::from(*i == 5))).copied() }
        };
        let unknown: JobId = gone.last().copied().unwrap_or(987_654).into();
        let any = |_: &BJob| true;
        let exec = |j: &BJob| j.status == JobStatus::Executing;
        let idle = |j: &BJob| j.status != JobStatus::Executing;
        let mut target: Option<usize> = None;
        let mut addressed = true;
        let result: Result<(), String> = match op {
            LOp::Advance(ms) => {
                addressed = false;
                advance(*ms as u64 * 1_000_000);
                Ok(())
            }
            LOp::Enqueue(n) => {
                addressed = false;
                let ar = StatusArena::default();
                match b.enqueue(n.enqueuable(base, &ar)).await {
                    Ok(id) => {
                        let id: i32 = id.into();
                        if model.iter().any(|j| j.id == id) || gone.contains(&id) {
                            r.fail(format!("the id {id} was given out twice"));
                            return r;
                        }
                        let got = b.query(Query::IdEquals(id.into())).await.unwrap_or_default();
                        let ins = got.first().map(|j| j.inserted_at).unwrap_or(t0);
                        if ins < t0 || ins > clock() {
                            r.fail(format!("inserted_at {ins} outside {t0}..{}", clock()));
                            return r;
                        }
                        model.push(n.stored(id, ins, base).job);
                        Ok(())
                    }
                    Err(e) => Err(format!("{e:?}")),
                }
            }
            LOp::Claim(ex) => {
                addressed = false;
                // mostly an executor that has something due
                let waiting: Vec<usize> = model
                    .iter()
                    .filter(|j| matches!(j.status, JobStatus::Scheduled | JobStatus::Retryable) && j.scheduled_at <= t0)
                    .filter_map(|j| VNAMES[..NV].iter().position(|n| *n == j.executor))
                    .collect();
                let ex = &waiting.get(*ex).copied().unwrap_or(*ex);
                let mut s = with_vex!(*ex, E => b.subscribe_ready_jobs(E::NAME.into()).await);
                let got = tokio::time::timeout(Duration::from_millis(50), s.next()).await;
                drop(s);
                let due = |j: &BJob, t: DateTime<Utc>| j.executor == VNAMES[*ex % NV] && matches!(j.status, JobStatus::Scheduled | JobStatus::Retryable) && j.scheduled_at <= t;
                match got {
                    Ok(Some(Ok(j))) => {
                        r.class("claimed");
                        let Some(k) = model.iter().position(|m| m.id == j.id) else {
                            r.fail(format!("an unknown job was handed out: {j:?}"));
                            return r;
                        };
                        let t = clock();
                        if !due(&model[k], t + TimeDelta::milliseconds(101)) {
                            r.fail(format!("job {:?} was handed out at {t}", model[k]));
                            return r;
                        }
                        let m = &mut model[k];
                        m.attempt += 1;
                        m.status = JobStatus::Executing;
                        match j.attempted_at {
                            Some(t) if t >= t0 && t <= clock() => m.attempted_at = Some(t),
                            t => {
                                r.fail(format!("attempted_at is {t:?} after a claim at {t0}"));
                                return r;
                            }
                        }
                        if j != *m {
                            r.fail(format!("handed out {j:?}, expected {m:?}"));
                            return r;
                        }
                        Ok(())
                    }
                    Ok(Some(Err(e))) => Err(format!("claim: {e:?}")),
                    Ok(None) => Err("the stream ended".into()),
                    Err(_) => {
                        if model.iter().any(|j| due(j, t0)) {
                            Err(format!("a due job of {} was not handed out", VNAMES[*ex % NV]))
                        } else {
                            Ok(())
                        }
                    }
                }
            }
            LOp::Prune(p) => {
                addressed = false;
                match b.prune_jobs(&p.spec()).await {
                    Err(e) => Err(format!("{e:?}")),
                    Ok(()) => match table(b).await {
                        Err(e) => Err(e),
                        Ok(after) => {
                            // which ones is another property's business
                            let (kept, lost): (Vec<BJob>, Vec<BJob>) = model.drain(..).partition(|m| after.iter().any(|j| j.id == m.id));
                            gone.extend(lost.iter().map(|j| j.id));
                            model = kept;
                            Ok(())
                        }
                    },
                }
            }
            LOp::Complete(i) => {
                target = pick(i, &model, &exec);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat(b.mark_job_complete(id).await, &target)
            }
            LOp::Retry(i, ms, k, m) => {
                target = pick(i, &model, &exec);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat(b.mark_job_retryable(id, at(base, *ms), BErr { error_type: etype(*k), message: m.clone() }).await, &target)
            }
            LOp::Snooze(i, ms) => {
                target = pick(i, &model, &|j| exec(j) && j.attempt >= 1);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat(b.mark_job_snoozed(id, at(base, *ms)).await, &target)
            }
            LOp::Discard(i, k, m) => {
                target = pick(i, &model, &exec);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat(b.mark_job_discarded(id, BErr { error_type: etype(*k), message: m.clone() }).await, &target)
            }
            LOp::CancelExec(i, k, m) => {
                target = pick(i, &model, &exec);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat(b.mark_job_cancelled(id, BErr { error_type: etype(*k), message: m.clone() }).await, &target)
            }
            LOp::Cancel(i, m) => {
                target = pick(i, &model, &any);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat_r(VA::cancel_job_on_backend(id, Box::new(m.clone()), b).await, &target)
            }
            LOp::Rerun(i) => {
                target = pick(i, &model, &idle);
                let id = target.map_or(unknown, |k| model[k].id.into());
                flat_r(VB::rerun_job_on_backend(id, b).await, &target)
            }
            LOp::Update(i, row) => {
                target = pick(i, &model, &any);
                let (id, ins) = target.map_or((unknown.into(), t0), |k| (model[k].id, model[k].inserted_at));
                let new = job_of(row, id, ins, base);
                if let Some(k) = target {
                    model[k] = if d.partial_update {
                        BJob {
                            data: new.data.clone(),
                            metadata: new.metadata.clone(),
                            max_attempts: new.max_attempts,
                            scheduled_at: new.scheduled_at,
                            priority: new.priority,
                            tags: new.tags.clone(),
                            ..model[k].clone()
                        }
                    } else {
                        new.clone()
                    };
                }
                match Job::<Value, Value>::try_from(new) {
                    Ok(j) => flat_r(VC::update_job_on_backend(j, b).await, &target),
                    Err(e) => Err(format!("{e:?}")),
                }
            }
        };
        if let Err(e) = result {
            r.fail(format!("{op:?}: {e}"));
            return r;
        }
        if addressed {
            done += 1;
            r.class_if(target.is_none(), "unknown id");
        }
        let t1 = clock();
        let now = match table(b).await {
            Ok(t) => t,
            Err(e) => {
                r.fail(e);
                return r;
            }
        };
        if let Some(k) = target {
            let got = now.iter().find(|j| j.id == model[k].id).cloned();
            let m = &mut model[k];
            // an instant taken during the operation
            let during = |t: Option<DateTime<Utc>>| t.filter(|t| *t >= t0 && *t <= t1).or(Some(DateTime::UNIX_EPOCH));
            let err = |m: &BJob, k: u8, msg: &str, got: &Option<BJob>| JobError {
                attempt: m.attempt as u16,
                error_type: etype(k),
                details: msg.into(),
                recorded_at: during(got.as_ref().and_then(|g| g.errors.last().map(|e| e.recorded_at))).unwrap(),
            };
            match op {
                LOp::Complete(_) => {
                    m.status = JobStatus::Complete;
                    m.completed_at = during(got.and_then(|g| g.completed_at));
                }
                LOp::Retry(_, ms, k, msg) => {
                    m.status = JobStatus::Retryable;
                    m.scheduled_at = at(base, *ms);
                    let e = err(m, *k, msg, &got);
                    m.errors.push(e);
                }
                LOp::Snooze(_, ms) => {
                    m.scheduled_at = at(base, *ms);
                    m.status = if m.attempt == 1 { JobStatus::Scheduled } else { JobStatus::Retryable };
                    m.attempt -= 1;
                }
                LOp::Discard(_, k, msg) => {
                    m.status = JobStatus::Discarded;
                    let e = err(m, *k, msg, &got);
                    m.errors.push(e);
                    m.discarded_at = during(got.and_then(|g| g.discarded_at));
                }
                LOp::CancelExec(_, k, msg) => {
                    m.status = JobStatus::Cancelled;
                    let e = err(m, *k, msg, &got);
                    m.errors.push(e);
                    m.cancelled_at = during(got.and_then(|g| g.cancelled_at));
                }
                LOp::Cancel(_, msg) => {
                    m.status = JobStatus::Cancelled;
                    let e = err(m, 2, msg, &got);
                    m.errors.push(e);
                    m.cancelled_at = during(got.and_then(|g| g.cancelled_at));
                }
                LOp::Rerun(_) => {
                    m.status = if m.attempt == 1 { JobStatus::Scheduled } else { JobStatus::Retryable };
                    m.max_attempts += 1;
                    m.scheduled_at = during(got.map(|g| g.scheduled_at)).unwrap();
                    m.completed_at = None;
                    m.discarded_at = None;
                    m.cancelled_at = None;
                }
                _ => {}
            }
        }
        let want: Vec<Stored> = model.iter().map(|j| Stored { job: j.clone(), key: None }).collect();
        if let Some(e) = compare(&now, &want) {
            r.fail(format!("after {op:?} (between {t0} and {t1}): {e}"));
            return r;
        }
    }
    r.nontrivial = done >= 2;
    r
}
fn flat(res: Result<(), BackendError>, target: &Option<usize>) -> Result<(), String> {
    match (res, target) {
        (Ok(()), Some(_)) => Ok(()),
        (Err(BackendError::JobNotFound(_)), None) => Ok(()),
        (res, None) => Err(format!("an unknown id must be reported as job-not-found, got {res:?}")),
        (Err(e), _) => Err(format!("failed: {e:?}")),
    }
}
fn flat_r(res: Result<(), rexecutor::RexecutorError>, target: &Option<usize>) -> Result<(), String> {
    match (res, target) {
        (Ok(()), Some(_)) => Ok(()),
        (Err(rexecutor::RexecutorError::BackendError(BackendError::JobNotFound(_))), None) => Ok(()),
        (res, None) => Err(format!("an unknown id must be reported as job-not-found, got {res:?}")),
        (Err(e), _) => Err(format!("failed: {e:?}")),
    }
}
// ------------------------------------------------------------------ histories side by side

/// Sees only the jobs of one executor.
pub struct Own<B>(pub B, pub &'static str);
#[async_trait::async_trait]
impl<B: Backend + Send + Sync> Backend for Own<B> {
    async fn subscribe_ready_jobs(&self, executor: rexecutor::executor::ExecutorIdentifier) -> std::pin::Pin<Box<dyn futures::Stream<Item = Result<BJob, BackendError>> + Send>> {
        self.0.subscribe_ready_jobs(executor).await
    }
    async fn enqueue<'a>(&self, job: rexecutor::backend::EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.0.enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.0.mark_job_complete(id).await
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: BErr) -> Result<(), BackendError> {
        self.0.mark_job_retryable(id, at, e).await
    }
    async fn mark_job_discarded(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.0.mark_job_discarded(id, e).await
    }
    async fn mark_job_cancelled(&self, id: JobId, e: BErr) -> Result<(), BackendError> {
        self.0.mark_job_cancelled(id, e).await
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        self.0.mark_job_snoozed(id, at).await
    }
    async fn prune_jobs(&self, spec: &rexecutor::pruner::PruneSpec) -> Result<(), BackendError> {
        self.0.prune_jobs(spec).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.0.rerun_job(id).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.0.update_job(job).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.0.query(Query::And(vec![query, Query::ExecutorEqual(self.1)])).await
    }
}
/// The history with everything about executor `t` only.
pub fn own_life(c: &LifeCase, t: usize) -> LifeCase {
    let mut c = c.clone();
    for op in &mut c.ops {
        match op {
            LOp::Enqueue(n) => n.ex = t,
            LOp::Claim(ex) => *ex = t,
            LOp::Update(_, row) => row.ex = t,
            LOp::Prune(p) => {
                p.only = Some(true);
                p.exs = vec![t];
            }
            _ => {}
        }
    }
    c
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SideCase {
    pub lives: Vec<LifeCase>,
}
pub fn side_case() -> BoxedStrategy<SideCase> {
    vec(life_case(), 2..=NV).prop_map(|lives| SideCase { lives }).boxed()
}
