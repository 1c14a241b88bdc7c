//! A stand-in server with the library's own schema, and rows put into it.
use crate::db::{Db, EnumTy, PG_EPOCH_US, Table, Val};
use crate::sql::PStmt;
use crate::tbl::*;
use crate::wire::*;
use chrono::{DateTime, SubsecRound, Utc};
use rexecutor::backend::{Backend, EnqueuableJob, Job as BJob, Query};
use rexecutor::job::{ErrorType, JobStatus};
use rexecutor_sqlx::RexecutorPgBackend;
use serde_json::json;
use sqlx::postgres::PgPoolOptions;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use vkit::CaseResult;

pub const EPOCH: i64 = 1_709_251_200_000_000_000; // 2024-03-01T00:00:00Z
pub const JOBS: &str = "rexecutor_jobs";

type Schema = (BTreeMap<String, Table>, Vec<EnumTy>, BTreeMap<String, Vec<PStmt>>);

/// What the library's migrations make of an empty database.
fn schema() -> &'static Result<Schema, String> {
    static S: OnceLock<Result<Schema, String>> = OnceLock::new();
    S.get_or_init(|| {
        vkit::block_on(EPOCH, async {
            let s = Server::start(1);
            let r = match RexecutorPgBackend::from_db_url(&s.url()).await {
                Ok(b) => b.run_migrations().await.map_err(|e| format!("running the migrations failed: {e:?}")),
                Err(e) => Err(format!("connecting failed: {e:?}")),
            };
            if let Some(u) = s.unsupported() {
                panic!("harness: the stand-in does not understand: {u}");
            }
            r.map(|()| {
                let db = s.sh.lock();
                (db.tables.clone(), db.enums.clone(), db.funcs.clone())
            })
        })
    })
}
pub fn us_now() -> DateTime<Utc> {
    Utc::now().trunc_subsecs(6)
}
pub async fn node(s: &Server, k: u64) -> Result<RexecutorPgBackend, String> {
    if k % 2 == 0 {
        RexecutorPgBackend::from_db_url(&s.url()).await.map_err(|e| format!("connecting failed: {e:?}"))
    } else {
        let pool = PgPoolOptions::new().max_connections(2 + (k / 2 % 7) as u32).connect(&s.url()).await.map_err(|e| format!("connecting failed: {e:?}"))?;
        RexecutorPgBackend::from_pool(pool).await.map_err(|e| format!("connecting failed: {e:?}"))
    }
}
/// A server with the schema in place and `nodes` backends connected to it.
pub fn on_server(seed: u64, nodes: usize, f: impl AsyncFnOnce(&Server, &[RexecutorPgBackend], &mut CaseResult)) -> CaseResult {
    let mut r = CaseResult::ok();
    let (tables, enums, funcs) = match schema() {
        Ok(s) => s,
        Err(e) => {
            r.fail(e.clone());
            return r;
        }
    };
    vkit::block_on(EPOCH, async {
        let s = Server::start(seed);
        {
            let mut db = s.sh.lock();
            db.tables = tables.clone();
            db.enums = enums.clone();
            db.funcs = funcs.clone();
        }
        let mut bs = vec![];
        for k in 0..nodes {
            match node(&s, seed.wrapping_add(k as u64)).await {
                Ok(b) => bs.push(b),
                Err(e) => {
                    r.undecided = s.unsupported().map(|u| format!("the stand-in does not understand: {u}"));
                    return r.fail(e);
                }
            }
        }
        f(&s, &bs, &mut r).await;
        if let Some(u) = s.unsupported() {
            r.undecided = Some(format!("the stand-in does not understand: {u}"));
        }
        if std::env::var_os("RXPG_TRACE").is_some() {
            eprintln!("refused: {:?}", s.net.lock().unwrap().refused);
        }
    });
    r
}

pub fn ts(t: DateTime<Utc>) -> Val {
    Val::Ts(t.timestamp_micros() - PG_EPOCH_US)
}
pub fn status_label(s: JobStatus) -> &'static str {
    match s {
        JobStatus::Scheduled => "scheduled",
        JobStatus::Executing => "executing",
        JobStatus::Retryable => "retryable",
        JobStatus::Complete => "complete",
        JobStatus::Cancelled => "cancelled",
        JobStatus::Discarded => "discarded",
    }
}
/// Gives a stored row the contents of `j`.
pub fn force(db: &mut Db, j: &BJob) {
    let st = {
        let (t, labels) = db.enums.iter().enumerate().find(|(_, e)| e.name == "rexecutor_job_state").map(|(i, e)| (i, e.labels.clone())).expect("harness: status type");
        Val::En(t, labels.iter().position(|l| l == status_label(j.status)).expect("harness: status label"))
    };
    let opt = |t: Option<DateTime<Utc>>| t.map_or(Val::Null, ts);
    let errors = j
        .errors
        .iter()
        .map(|e| {
            Val::Json(json!({
                "attempt": e.attempt,
                "error_type": match &e.error_type {
                    ErrorType::Panic => "panic",
                    ErrorType::Timeout => "timeout",
                    ErrorType::Cancelled => "cancelled",
                    ErrorType::Other(o) => o,
                },
                "details": e.details,
                "recorded_at": e.recorded_at.format("%Y-%m-%dT%H:%M:%S%.6f+00:00").to_string(),
            }))
        })
        .collect();
    db.patch(
        JOBS,
        j.id as i64,
        &[
            ("status", st),
            ("attempt", Val::Int(j.attempt as i64)),
            ("errors", Val::Arr(errors)),
            ("attempted_at", opt(j.attempted_at)),
            ("completed_at", opt(j.completed_at)),
            ("cancelled_at", opt(j.cancelled_at)),
            ("discarded_at", opt(j.discarded_at)),
        ],
    );
}
/// Stores the rows; returns what is stored then.
pub async fn fill_pg(s: &Server, b: &RexecutorPgBackend, rows: &[crate::tbl::Row], base: DateTime<Utc>) -> Result<Vec<Stored>, String> {
    let mut out: Vec<Stored> = vec![];
    for r in rows {
        let id = b
            .enqueue(EnqueuableJob {
                executor: VNAMES[r.ex % NV].into(),
                data: r.data.clone(),
                metadata: r.meta.clone(),
                max_attempts: r.max,
                scheduled_at: at(base, r.sched_ms),
                tags: r.tags.clone(),
                priority: r.prio,
                // never matches anything: only the key is of interest
                uniqueness_criteria: r.key.as_ref().map(|k| k.by().and_statuses(&[])),
            })
            .await
            .map_err(|e| format!("enqueue failed: {e:?}"))?;
        let found = b.query(Query::IdEquals(id)).await.map_err(|e| format!("query failed: {e:?}"))?;
        let Some(j) = found.into_iter().next() else { return Err(format!("enqueued job {id} cannot be found")) };
        let job = job_of(r, id.into(), j.inserted_at, base);
        force(&mut s.sh.lock(), &job);
        out.push(Stored { job, key: r.key.clone() });
    }
    Ok(out)
}
