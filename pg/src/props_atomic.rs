//! C32: operations that are interrupted (statements refused, connections lost before or after a
//! statement was carried out, callers that give up) happen completely or not at all.
use crate::fix::*;
use crate::tbl::*;
use crate::wire::*;
use chrono::{DateTime, Utc};
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::{Backend, BackendError, ExecutionError, Job as BJob};
use rexecutor::job::{ErrorType, JobId};
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::time::Duration;
use vkit::CaseResult;
use vkit::engine::{GenArm, Property};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Enqueue(NewJob),
    Complete(usize),
    Retry(usize, i64, u8, String),
    Snooze(usize, i64),
    Discard(usize, u8, String),
    Cancel(usize, u8, String),
    Rerun(usize),
    Update(usize, Row),
    Prune(usize, Option<bool>, Vec<usize>),
    Query(Q),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    seed: u16,
    rows: Vec<Row>,
    /// with the milliseconds after which the caller gives up
    ops: Vec<(Op, Option<u8>)>,
    lat: [Vec<u32>; 3],
    faults: Vec<(u8, FaultKind)>,
}
fn kind(k: u8, msg: &str) -> ExecutionError {
    let error_type = match k % 4 {
        0 => ErrorType::Panic,
        1 => ErrorType::Timeout,
        2 => ErrorType::Cancelled,
        _ => ErrorType::Other("own".into()),
    };
    ExecutionError { error_type, message: msg.into() }
}
fn op() -> BoxedStrategy<Op> {
    let i = || 0usize..6;
    let unique = crit().prop_map(|mut c| {
        // at most one job can match
        c.key = Some(if c.order % 2 == 0 { KeySpec::Int(1) } else { KeySpec::Str("a".into()) });
        c.executor = true;
        c.within_ms = None;
        c.statuses = Some((0..6).collect());
        if let Some(r) = &mut c.conflict
            && r.order % 4 > 0
        {
            r.statuses = Some((0..6).collect());
        }
        Some(c)
    });
    let ms = || prop::sample::select(vec![0i64, 1000, 86_400_000, -60_000]);
    let text = || "[a-z']{0,6}";
    prop_oneof![
        2 => new_job(Just(None).boxed()).prop_map(Op::Enqueue),
        6 => new_job(unique.boxed()).prop_map(|mut n| {
            n.ex %= 2;
            Op::Enqueue(n)
        }),
        1 => i().prop_map(Op::Complete),
        1 => (i(), ms(), any::<u8>(), text()).prop_map(|(i, m, k, t)| Op::Retry(i, m, k, t)),
        1 => (i(), ms()).prop_map(|(i, m)| Op::Snooze(i, m)),
        1 => (i(), any::<u8>(), text()).prop_map(|(i, k, t)| Op::Discard(i, k, t)),
        1 => (i(), any::<u8>(), text()).prop_map(|(i, k, t)| Op::Cancel(i, k, t)),
        1 => i().prop_map(Op::Rerun),
        1 => (i(), row(false)).prop_map(|(i, r)| Op::Update(i, r)),
        1 => (0usize..6, prop::option::of(any::<bool>()), vec(0usize..NV, 1..3)).prop_map(|(s, o, e)| Op::Prune(s, o, e)),
        1 => query().prop_map(Op::Query),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let fault = (0u8..20, prop_oneof![Just(FaultKind::Error), Just(FaultKind::Drop), Just(FaultKind::Lost)]);
    let abort = prop_oneof![3 => Just(None), 1 => (0u8..60).prop_map(Some)];
    (any::<u16>(), vec(row(false), 0..4), vec((op(), abort), 1..6), crate::props_tbl::latencies(), vec(fault, 0..6))
        .prop_map(|(seed, rows, ops, lat, faults)| Case { seed, rows, ops, lat, faults })
        .boxed()
}
#[derive(Debug, PartialEq)]
enum Got {
    Nothing,
    Id(i32),
    Ids(Vec<i32>),
}
async fn apply(b: &impl Backend, o: &Op, before: &[BJob], base: DateTime<Utc>, ar: &StatusArena) -> Result<Got, BackendError> {
    let id = |i: usize| JobId::from(before.get(i).map_or(99_999, |j| j.id));
    match o {
        Op::Enqueue(n) => return b.enqueue(n.enqueuable(base, ar)).await.map(|i| Got::Id(i.into())),
        Op::Complete(i) => b.mark_job_complete(id(*i)).await,
        Op::Retry(i, m, k, t) => b.mark_job_retryable(id(*i), at(base, *m), kind(*k, t)).await,
        Op::Snooze(i, m) => b.mark_job_snoozed(id(*i), at(base, *m)).await,
        Op::Discard(i, k, t) => b.mark_job_discarded(id(*i), kind(*k, t)).await,
        Op::Cancel(i, k, t) => b.mark_job_cancelled(id(*i), kind(*k, t)).await,
        Op::Rerun(i) => b.rerun_job(id(*i)).await,
        Op::Update(i, r) => {
            let now = before.get(*i);
            let mut j = job_of(r, now.map_or(99_999, |j| j.id), now.map_or(base, |j| j.inserted_at), base);
            j.executor = now.map_or(j.executor, |n| n.executor.clone());
            b.update_job(j).await
        }
        Op::Prune(s, only, exs) => {
            let names: Vec<&'static str> = exs.iter().map(|e| VNAMES[e % NV]).collect();
            let spec = PruneSpec {
                status: ST[s % 6],
                prune_by: PruneBy::MaxLength(0),
                executors: match only {
                    None => Spec::Except(vec![]),
                    Some(true) => Spec::Only(names),
                    Some(false) => Spec::Except(names),
                },
            };
            b.prune_jobs(&spec).await
        }
        Op::Query(q) => {
            let ids: Vec<i32> = before.iter().map(|j| j.id).collect();
            let arena = Arena::default();
            let q = raw(q, &ids, base, &arena);
            return b.query(q).await.map(|v| {
                let mut ids: Vec<i32> = v.iter().map(|j| j.id).collect();
                ids.sort();
                Got::Ids(ids)
            });
        }
    }
    .map(|()| Got::Nothing)
}
/// What is stored, without what depends on when it happened and which id a new job got.
fn shape(jobs: &[BJob], before: &[BJob], rerun: Option<i32>) -> Vec<Value> {
    let mut v: Vec<Value> = jobs
        .iter()
        .map(|j| {
            let old = before.iter().any(|b| b.id == j.id);
            json!([
                if old { json!(j.id) } else { json!("new") },
                format!("{:?}", j.status),
                j.executor,
                j.data,
                j.metadata,
                j.attempt,
                j.max_attempts,
                j.priority,
                j.tags,
                j.errors.iter().map(|e| format!("{} {:?} {}", e.attempt, e.error_type, e.details)).collect::<Vec<_>>(),
                if rerun == Some(j.id) && before.iter().all(|b| b.id != j.id || b.scheduled_at != j.scheduled_at) { "now".to_string() } else { j.scheduled_at.to_string() },
                [j.attempted_at.is_some(), j.completed_at.is_some(), j.cancelled_at.is_some(), j.discarded_at.is_some()],
            ])
        })
        .collect();
    v.sort_by_key(|x| x.to_string());
    v
}
fn named(g: &Got, before: &[BJob]) -> String {
    match g {
        Got::Id(i) if before.iter().all(|j| j.id != *i) => "a new id".into(),
        g => format!("{g:?}"),
    }
}
const LONG: Duration = Duration::from_secs(25);

fn run(c: &Case) -> CaseResult {
    let mut res = on_server(c.seed as u64, 2, async |s, bs, r| {
        let base = us_now();
        let ar: &'static StatusArena = Box::leak(Box::default());
        if let Err(e) = fill_pg(s, &bs[1], &c.rows, base).await {
            return r.fail(e);
        }
        {
            let mut n = s.net.lock().unwrap();
            n.all = true;
            [n.before, n.mid, n.after] = c.lat.clone();
            n.faults = c.faults.iter().map(|(k, f)| (*k as u64, *f)).collect();
        }
        let mut disturbed = 0;
        for (k, (o, abort)) in c.ops.iter().enumerate() {
            let read = async || -> Result<Vec<BJob>, String> {
                match tokio::time::timeout(LONG, table(&bs[1])).await {
                    Ok(t) => t,
                    Err(_) => Err("reading all jobs is blocked".into()),
                }
            };
            let before = match read().await {
                Ok(t) => t,
                Err(e) => return r.fail(format!("before operation {k}: {e}")),
            };
            // only jobs that have been started are snoozed
            if let Op::Snooze(i, _) = o
                && before.get(*i).is_some_and(|j| j.attempt < 1)
            {
                continue;
            }
            // what it does when nothing goes wrong, from another node
            let snap = s.sh.lock().tables.clone();
            let Ok(want) = tokio::time::timeout(LONG, apply(&bs[1], o, &before, base, ar)).await else {
                return r.fail(format!("operation {k} ({o:?}) on another node is blocked by what was interrupted before"));
            };
            let done = match read().await {
                Ok(t) => t,
                Err(e) => return r.fail(format!("after operation {k} on another node: {e}")),
            };
            match &want {
                Ok(_) | Err(BackendError::JobNotFound(_)) => {}
                Err(e) => return r.fail(format!("operation {k} ({o:?}) on another node failed, undisturbed: {e:?}")),
            }
            s.sh.lock().tables = snap;
            // and with things going wrong
            let hits = {
                let mut n = s.net.lock().unwrap();
                n.armed = true;
                n.hit.len()
            };
            let limit = abort.map_or(LONG * 4, |ms| Duration::from_millis(ms as u64));
            let got = tokio::time::timeout(limit, apply(&bs[0], o, &before, base, ar)).await;
            let hit = {
                let mut n = s.net.lock().unwrap();
                n.armed = false;
                n.hit[hits..].to_vec()
            };
            if abort.is_none() && got.is_err() {
                return r.fail(format!("operation {k} ({o:?}) with the failures {hit:?} does not end"));
            }
            tokio::time::sleep(Duration::from_millis(400)).await;
            let after = match read().await {
                Ok(t) => t,
                Err(e) => return r.fail(format!("after operation {k} ({o:?}) with the failures {hit:?}: {e}")),
            };
            let rerun = if let Op::Rerun(i) = o { before.get(*i).map(|j| j.id) } else { None };
            let [b, w, a] = [&before, &done, &after].map(|t| shape(t, &before, rerun));
            let story = format!("operation {k} ({o:?}) with the failures {hit:?} gave {got:?}");
            match &got {
                Ok(Ok(g)) => match &want {
                    Err(e) => return r.fail(format!("{story}, but undisturbed it gives {e:?}")),
                    Ok(x) => {
                        if a != w {
                            return r.fail(format!("{story}, but stored is {a:?}; expected {w:?}"));
                        }
                        if named(g, &before) != named(x, &before) {
                            return r.fail(format!("{story}, expected {}", named(x, &before)));
                        }
                        if let Got::Id(i) = g
                            && after.iter().all(|j| j.id != *i)
                        {
                            return r.fail(format!("{story}, which is no stored job: {a:?}"));
                        }
                    }
                },
                Ok(Err(e)) => {
                    let missing = matches!(e, BackendError::JobNotFound(_));
                    if missing && want.is_ok() {
                        return r.fail(format!("{story}, but the job exists"));
                    }
                    if hit.is_empty() && missing == want.is_ok() {
                        return r.fail(format!("{story}, undisturbed it gives {want:?}"));
                    }
                }
                Err(_) => {}
            }
            if a != b && a != w {
                return r.fail(format!("{story} and left something half done: {a:?}; before {b:?}, complete {w:?}"));
            }
            disturbed += (!hit.is_empty() || got.is_err()) as u32;
            r.class_if(got.is_err(), "given up");
            r.class_if(hit.iter().any(|h| h.1 == FaultKind::Lost), "answer lost");
            r.class_if(hit.iter().any(|h| h.1 != FaultKind::Lost), "statement failed");
            r.class_if(!matches!(got, Ok(Ok(_))) && a == w && b != w, "failed or given up, but happened");
            r.class_if(!hit.is_empty() && b != w && b.len() == w.len() && matches!(o, Op::Enqueue(_)), "replacement disturbed");
            r.class_if(!hit.is_empty() && matches!(o, Op::Enqueue(n) if n.crit.is_some()), "unique enqueue disturbed");
        }
        r.nontrivial = disturbed > 0;
    });
    if res.violation.is_some() {
        res.nontrivial = true;
    }
    res
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C32",
        assumptions: vec![
            "PostgreSQL is a stand-in that executes the library's own SQL and migrations (read committed, row locks, advisory locks) over the wire protocol",
            "what an operation does undisturbed is decided by C23-C26; here it is the reference",
            "an operation whose answer was lost, or whose caller gave up, may have happened or not",
        ],
        arms: vec![Box::new(GenArm {
            name: "interrupted",
            rule: "1-5 operations with generated latencies, statements (including BEGIN, locks and COMMIT) that fail, connections lost before or after a statement, and callers giving up after 0-59 ms; non-trivial: at least one operation was disturbed",
            quick: 72_000,
            thorough: 1_000_000,
            strategy: case,
            run,
        })],
    }]
}
