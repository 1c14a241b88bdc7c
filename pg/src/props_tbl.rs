//! C23-C26: the PostgreSQL backend's stored jobs against reference semantics.
use crate::fix::*;
use crate::ops::*;
use crate::tbl::*;
use crate::wire::*;
use chrono::{DateTime, Utc};
use proptest::collection::vec;
use proptest::prelude::*;
use rexecutor::backend::{Backend, EnqueuableJob};
use rexecutor::job::JobStatus;
use rexecutor_sqlx::RexecutorPgBackend;
use serde::{Deserialize, Serialize};
use serde_json::json;
use vkit::{CaseResult, GenArm, Property};

const PG: Dialect = Dialect { centre_new: true, partial_update: true };

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Seeded<T> {
    seed: u16,
    case: T,
}
fn seeded<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<Seeded<T>> {
    (any::<u16>(), s).prop_map(|(seed, case)| Seeded { seed, case }).boxed()
}
fn filled(seed: u16, rows: &[Row], f: impl AsyncFnOnce(&RexecutorPgBackend, Vec<Stored>, DateTime<Utc>, &mut CaseResult)) -> CaseResult {
    on_server(seed as u64, 1, async |s, bs, r| {
        let base = us_now();
        match fill_pg(s, &bs[0], rows, base).await {
            Ok(w) => f(&bs[0], w, base, r).await,
            Err(e) => r.fail(e),
        }
    })
}

// ------------------------------------------------------------------ C23

fn pg_life_case() -> BoxedStrategy<Seeded<LifeCase>> {
    seeded(life_case())
}
fn run_life(c: &Seeded<LifeCase>) -> CaseResult {
    let mut out = CaseResult::ok();
    let r = on_server(c.seed as u64, 1, async |_, bs, _| {
        out = life(&bs[0], &c.case, us_now(), PG, us_now, vkit::vclock::advance).await;
    });
    if out.violation.is_none() && r.violation.is_some() {
        return r;
    }
    out
}
fn pg_side_case() -> BoxedStrategy<Seeded<SideCase>> {
    seeded(
        side_case()
            .prop_map(|mut c| {
                // moving the clock under another history's waiting claim would end the wait
                for l in &mut c.lives {
                    l.ops.retain(|o| !matches!(o, LOp::Advance(_)));
                }
                c
            })
            .boxed(),
    )
}
/// Independent histories at the same time, on nodes of their own.
fn run_side(c: &Seeded<SideCase>) -> CaseResult {
    let n = c.case.lives.len();
    let mut out = CaseResult::ok();
    let r = on_server(c.seed as u64, n, async |_, bs, _| {
        let base = us_now();
        let own: Vec<_> = (0..n).map(|t| (Own(bs[t].clone(), VNAMES[t]), own_life(&c.case.lives[t], t))).collect();
        let rs = futures::future::join_all(own.iter().map(|(b, l)| life(b, l, base, PG, us_now, |_| ()))).await;
        for (t, x) in rs.into_iter().enumerate() {
            if let Some(v) = x.violation {
                return out.fail(format!("history {t} of {n} side by side: {v}"));
            }
            out.nontrivial |= x.nontrivial;
        }
    });
    if out.violation.is_none() && r.violation.is_some() {
        return r;
    }
    out
}
fn row_case() -> BoxedStrategy<Seeded<Vec<Row>>> {
    seeded(vec(row(false), 1..6).boxed())
}
fn run_rows(c: &Seeded<Vec<Row>>) -> CaseResult {
    let mut res = filled(c.seed, &c.case, async |b, want, _, r| match table(b).await {
        Ok(got) => {
            if let Some(e) = compare(&got, &want) {
                r.fail(e);
            }
        }
        Err(e) => r.fail(e),
    });
    res.nontrivial = c.case.iter().any(|r| !r.errors.is_empty());
    res
}

// ------------------------------------------------------------------ C24, C25

fn pg_query_case() -> BoxedStrategy<Seeded<QueryCase>> {
    seeded(query_case())
}
fn run_query(c: &Seeded<QueryCase>) -> CaseResult {
    filled(c.seed, &c.case.rows, async |b, w, base, r| query_on(b, &c.case, w, base, r).await)
}
fn pg_prune_case() -> BoxedStrategy<Seeded<PruneCase>> {
    seeded(prune_case())
}
fn run_prune(c: &Seeded<PruneCase>) -> CaseResult {
    filled(c.seed, &c.case.rows, async |b, w, _, r| prune_on(b, &c.case, w, r).await)
}

// ------------------------------------------------------------------ C26

fn pg_unique_case() -> BoxedStrategy<Seeded<UniqueCase>> {
    seeded(unique_case())
}
fn run_unique(c: &Seeded<UniqueCase>) -> CaseResult {
    if collision(&c.case) {
        let mut r = CaseResult::ok();
        r.class("hash collision (skipped)");
        return r;
    }
    filled(c.seed, &c.case.rows, async |b, w, base, r| unique_on(b, &c.case, w, base, PG, true, r).await)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct RaceCase {
    seed: u16,
    nodes: usize,
    crit: Crit,
    sched_ms: i64,
    /// a matching job is already there
    present: bool,
    other: Vec<Row>,
    /// which node enqueues, when, where it starts in the list of statuses (which is a set), and
    /// whether it leaves a job it conflicts with alone
    racers: Vec<(usize, u8, u8, bool)>,
    lat: [Vec<u32>; 3],
    faults: Vec<(u8, FaultKind)>,
}
pub fn latencies() -> BoxedStrategy<[Vec<u32>; 3]> {
    let l = || prop_oneof![1 => Just(vec![]), 3 => vec(0u32..12, 1..5)];
    [l(), l(), l()].boxed()
}
fn race_case() -> BoxedStrategy<RaceCase> {
    let fault = (0u8..24, prop_oneof![Just(FaultKind::Error), Just(FaultKind::Drop)]);
    (
        (any::<u16>(), 1usize..4, crit(), sched_ms(), prop::bool::weighted(0.2)),
        (vec(row(true), 0..3), vec((0usize..4, 0u8..6, prop_oneof![1 => Just(0u8), 1 => 0u8..6], prop::bool::weighted(0.25)), 2..7), latencies(), prop_oneof![2 => Just(vec![]), 1 => vec(fault, 1..3)]),
    )
        .prop_map(|((seed, nodes, mut crit, sched_ms, present), (mut other, racers, lat, faults))| {
            // at most one job of a kind: the criteria must cover the status a new job has
            if let Some(s) = &mut crit.statuses {
                if !s.contains(&0) {
                    s.push(0);
                    s.sort();
                }
            }
            // rows that match nothing: a status no criterion names would not do, an own key does
            if crit.key.is_none() {
                other.clear();
            }
            for (i, r) in other.iter_mut().enumerate() {
                r.key = Some(KeySpec::Str(format!("other {i}")));
            }
            RaceCase { seed, nodes, crit, sched_ms, present, other, racers, lat, faults }
        })
        .boxed()
}
fn run_race(c: &RaceCase) -> CaseResult {
    let mut res = on_server(c.seed as u64, c.nodes, async |s, bs, r| {
        let base = us_now();
        let others = match fill_pg(s, &bs[0], &c.other, base).await {
            Ok(w) => w,
            Err(e) => return r.fail(e),
        };
        let ar: &'static StatusArena = Box::leak(Box::default());
        let crit = |turn: u8, alone: bool| {
            let mut crit = c.crit.clone();
            if let Some(s) = &mut crit.statuses
                && !s.is_empty()
            {
                let n = turn as usize % s.len();
                s.rotate_left(n);
            }
            if alone {
                crit.conflict = None;
            }
            crit.build(ar)
        };
        let job = |k: usize, turn: u8, alone: bool| EnqueuableJob {
            executor: VA_NAME.into(),
            data: json!(k),
            metadata: json!({"k": k}),
            max_attempts: 10 + k as u16,
            scheduled_at: at(base, c.sched_ms),
            tags: vec![format!("t{k}")],
            priority: 20 + k as u16,
            uniqueness_criteria: Some(crit(turn, alone)),
        };
        let mut first = None;
        if c.present {
            match bs[0].enqueue(job(99, 0, false)).await {
                Ok(id) => first = Some(i32::from(id)),
                Err(e) => return r.fail(format!("enqueue failed: {e:?}")),
            }
        }
        {
            let mut n = s.net.lock().unwrap();
            n.armed = true;
            [n.before, n.mid, n.after] = c.lat.clone();
            n.faults = c.faults.iter().map(|(k, f)| (*k as u64, *f)).collect();
        }
        let tasks: Vec<_> = c
            .racers
            .iter()
            .enumerate()
            .map(|(k, (node, at, turn, alone))| {
                let (b, j, at) = (bs[node % bs.len()].clone(), job(k, *turn, *alone), *at);
                tokio::spawn(async move {
                    tokio::time::sleep(std::time::Duration::from_millis(at as u64)).await;
                    b.enqueue(j).await.map(i32::from).map_err(|e| format!("{e:?}"))
                })
            })
            .collect();
        let mut got: Vec<Result<i32, String>> = vec![];
        for t in tasks {
            got.push(t.await.unwrap_or_else(|e| Err(format!("{e}"))));
        }
        let (hits, waited) = {
            let mut n = s.net.lock().unwrap();
            n.armed = false;
            (n.hit.len(), s.sh.lock().waited)
        };
        let errors = got.iter().filter(|g| g.is_err()).count();
        if errors > hits {
            return r.fail(format!("{hits} statements failed, but of the enqueues {errors} did: {got:?}"));
        }
        let all = match table(&bs[0]).await {
            Ok(t) => t,
            Err(e) => return r.fail(e),
        };
        let mut rest = vec![];
        let mut mine = vec![];
        for j in all {
            if others.iter().any(|o| o.job.id == j.id) { rest.push(j) } else { mine.push(j) }
        }
        if let Some(e) = compare(&rest, &others) {
            return r.fail(format!("jobs that match nothing changed: {e}"));
        }
        let ids: Vec<i32> = mine.iter().map(|j| j.id).collect();
        if mine.len() > 1 {
            return r.fail(format!("{} racing unique enqueues (and one before: {:?}) stored the jobs {ids:?}; results {got:?}", c.racers.len(), first));
        }
        let want: Vec<i32> = got.iter().filter_map(|g| g.as_ref().ok().copied()).chain(first).collect();
        if want.iter().any(|w| ids.first() != Some(w)) {
            return r.fail(format!("results {got:?} (before: {first:?}), but stored is {ids:?}"));
        }
        if let Some(j) = mine.first() {
            // every field is some racer's; all are the inserting one's unless replacement was asked for
            let k = |x: i64| -> i64 { x };
            let fields = [k(j.data.as_i64().unwrap_or(-1)), k(j.metadata["k"].as_i64().unwrap_or(-1)), k(j.priority as i64 - 20), k(j.max_attempts as i64 - 10)];
            let who = j.tags.first().and_then(|t| t[1..].parse::<i64>().ok()).unwrap_or(-1);
            let ok = |x: i64| x == 99 && c.present || (x >= 0 && (x as usize) < got.len());
            let repl = c.crit.conflict.as_ref().filter(|x| x.allows(JobStatus::Scheduled)).map_or([false; 5], |x| x.fields);
            let may = [repl[1], repl[2], repl[3], repl[4]];
            if !ok(who) || j.status != JobStatus::Scheduled || j.attempt != 0 {
                return r.fail(format!("stored is {j:?}"));
            }
            for i in 0..4 {
                let alone = fields[i] != 99 && c.racers.get(fields[i] as usize).is_some_and(|r| r.3);
                if !ok(fields[i]) || fields[i] != who && (!may[i] || alone) {
                    return r.fail(format!("the job was stored by enqueue {who}; its fields come from the enqueues {fields:?} (data, metadata, priority, maximum), replacement allowed: {may:?}"));
                }
            }
            // replacements are atomic: what is replaced comes from one enqueue
            let repls: Vec<i64> = (0..4).filter(|i| may[*i]).map(|i| fields[i]).collect();
            if repls.windows(2).any(|w| w[0] != w[1]) {
                return r.fail(format!("replaced fields come from different enqueues: {fields:?}, replaced {may:?}"));
            }
        }
        r.class_if(waited > 0, "waited for each other");
        r.class_if(errors > 0, "some failed");
        r.class_if(c.nodes > 1, "several nodes");
        r.nontrivial = waited > 0;
    });
    if res.violation.is_some() {
        res.nontrivial = true;
    }
    res
}
const VA_NAME: &str = VNAMES[0];

const STANDIN: &str = "PostgreSQL is a stand-in that executes the library's own SQL and migrations (read committed, row locks, SKIP LOCKED, advisory locks, triggers, LISTEN/NOTIFY) over the wire protocol";
const SEM: &str = "the reference semantics are right; schedules are at least 100 ms away from age limits; no NUL characters and no schedules beyond PostgreSQL's range";

pub fn properties() -> Vec<Property> {
    let _ = Utc::now;
    vec![
        Property {
            id: "C23",
            assumptions: vec![STANDIN, SEM, "outcomes are recorded on executing jobs only, reruns on jobs not executing; an update writes data, metadata, maximum, schedule, priority and tags"],
            arms: vec![
                Box::new(GenArm { name: "life-cycle", rule: "histories of 1-23 management and outcome operations; non-trivial: at least two addressed operations", quick: 60_000, thorough: 600_000, strategy: pg_life_case, run: run_life }),
                Box::new(GenArm { name: "side by side", rule: "2-3 such histories at the same time, each on a node and its own executor's jobs; non-trivial: at least two addressed operations", quick: 20_000, thorough: 200_000, strategy: pg_side_case, run: run_side }),
                Box::new(GenArm { name: "rows", rule: "1-5 stored rows of any status, contents and error history read back; non-trivial: one with errors", quick: 24_000, thorough: 300_000, strategy: row_case, run: run_rows }),
            ],
        },
        Property {
            id: "C24",
            assumptions: vec![STANDIN, SEM],
            arms: vec![Box::new(GenArm { name: "queries", rule: "1-4 query expressions of depth up to 4 over 1-7 stored jobs, raw and through three executors; non-trivial: some but not all jobs match", quick: 60_000, thorough: 500_000, strategy: pg_query_case, run: run_query })],
        },
        Property {
            id: "C25",
            assumptions: vec![STANDIN, SEM, "jobs scheduled at the same instant may be cut either way"],
            arms: vec![Box::new(GenArm { name: "prunes", rule: "1-3 prunes over 0-9 stored jobs; non-trivial: something is removed", quick: 60_000, thorough: 600_000, strategy: pg_prune_case, run: run_prune })],
        },
        Property {
            id: "C26",
            assumptions: vec![STANDIN, SEM, "cases in which two different keys have the same fxhash are skipped", "with several matching jobs any one of them may be the conflicting one"],
            arms: vec![
                Box::new(GenArm { name: "sequential", rule: "1-5 (unique) enqueues against 0-4 stored jobs; non-trivial: at least one conflict", quick: 48_000, thorough: 500_000, strategy: pg_unique_case, run: run_unique }),
                Box::new(GenArm { name: "racing", rule: "2-6 unique enqueues of the same criteria from 1-3 nodes with generated latencies and statement failures; non-trivial: one waited for another's lock", quick: 48_000, thorough: 500_000, strategy: race_case, run: run_race }),
            ],
        },
    ]
}
