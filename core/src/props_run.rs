//! C01-C05, C07, C10, C11: scenario-based checks, each looking at its own aspect of one model.
use crate::genr::*;
use crate::scen::*;
use proptest::prelude::*;
use vkit::{CaseResult, GenArm, Property};

/// Common wrapper: run, verify, report the first issue of the given categories.
pub fn judge(s: &Scenario, cats: &[Cat]) -> (CaseResult, Verdict) {
    let o = run(s);
    let v = verify(s, &o);
    let mut r = CaseResult::ok();
    if std::env::var_os("VKIT_VERBOSE").is_some() {
        for (t, e) in &o.log {
            eprintln!("{:>14.3} {e:?}", (t - o.t0) as f64 / 1e6);
        }
        for i in &v.issues {
            eprintln!("ISSUE {i:?}");
        }
    }
    if let Some((c, m)) = v.issues.iter().find(|i| cats.contains(&i.0)) {
        r.fail(format!("[{c:?}] {m}"));
    }
    r.class_if(v.retries > 0, "retry");
    r.class_if(v.snoozes > 0, "snooze");
    r.class_if(v.timeouts > 0, "timeout");
    r.class_if(v.panics > 0, "panic");
    r.class_if(v.contended > 0, "overlapping executions");
    r.class_if(v.waited_for_capacity > 0, "waited for capacity");
    r.class_if(v.order_choices > 0, "choice between ready jobs");
    r.class_if(v.ops_applied > 0, "management operation applied");
    r.class_if(s.nodes > 1, "several nodes");
    r.class_if(s.running.iter().any(|e| BLOCKING[*e]) && s.jobs.iter().any(|j| BLOCKING[j.ex]), "blocking executor");
    r.class_if(s.jobs.iter().any(|j| j.sched_ms.is_some_and(|x| x > 200)), "future job");
    (r, v)
}

// ---- C01
fn c01_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2, 6];
    p.timeouts = true;
    p.ops = 0..3;
    p.ops_kinds = vec![0, 1, 1, 2, 5];
    p.w = [3, 2, 2, 5, 3];
    scenario(p)
}
fn c01_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Outcome, Cat::Content, Cat::Op]);
    r.nontrivial = v.retries + v.snoozes + v.timeouts + v.panics > 0 || v.jobs.values().any(|m| !m.errors.is_empty());
    r
}
fn c01_blocking() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![4, 5];
    p.jobs = 1..5;
    p.future = 2000;
    p.delay = 3000;
    p.at = 1000;
    p.w = [3, 2, 2, 5, 4];
    scenario(p)
}

// ---- C02
fn c02_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 2, 3, 6];
    p.jobs = 1..5;
    p.w = [1, 0, 3, 6, 4];
    p.steps = 0..6;
    p.timeouts = true;
    p.delay = 4000;
    p.max = prop_oneof![2 => Just(None), 6 => (1u16..6).prop_map(Some), 2 => Just(Some(0u16)), 2 => (6u16..40).prop_map(Some)].boxed();
    scenario(p)
}
fn c02_ops() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 2];
    p.jobs = 1..4;
    p.w = [1, 0, 2, 7, 4];
    p.steps = 0..5;
    p.delay = 5000;
    p.at = 20_000;
    p.ops = 1..6;
    p.ops_kinds = vec![1, 1, 4, 4, 2];
    p.backlog = 10;
    scenario(p)
}
fn c02_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Attempts, Cat::Op]);
    r.nontrivial = v.retries > 0 && v.jobs.values().any(|m| m.runs > 1);
    r.class_if(s.jobs.iter().any(|j| j.max() == 0), "max_attempts zero");
    r.class_if(v.jobs.values().any(|m| m.status == rexecutor::job::JobStatus::Discarded), "discarded");
    r
}

// ---- C03
fn c03_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2, 3, 6];
    p.jobs = 2..16;
    p.nodes = 1..5;
    p.at = 1500;
    p.future = 3000;
    p.dur = 1500;
    p.delay = 1000;
    p.ops = 0..8;
    p.ops_kinds = vec![1, 1, 2, 2, 3, 5, 7];
    p.start = 500;
    scenario(p).prop_flat_map(|s| {
        // Some executors have no runner at all: their jobs must never run.
        (Just(s), prop::sample::subsequence(vec![0usize, 1, 2, 3, 6], 2..=5)).prop_map(|(mut s, r)| {
            s.running = r;
            s
        })
    })
    .boxed()
}
fn c03_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Dup]);
    r.nontrivial = v.starts > 1 && (s.nodes > 1 || v.ops_applied > 0);
    r.class_if(s.jobs.iter().any(|j| !s.running.contains(&j.ex)), "executor without runner");
    r
}

// ---- C04
fn c04_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2, 6];
    p.jobs = 1..10;
    p.nodes = 1..3;
    p.at = 60_000;
    p.future = 100_000;
    p.dur = 8000;
    p.delay = 90_000;
    p.ops = 0..8;
    p.ops_kinds = vec![1, 2, 2, 2, 3, 0];
    p.start = 40_000;
    scenario(p)
}
fn c04_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Late]);
    r.nontrivial = v.starts > 0
        && (v.retries > 0 || v.snoozes > 0 || v.ops_applied > 0 || s.jobs.iter().any(|j| j.sched_ms.is_some_and(|x| x > 200)));
    r
}
/// Paused backend: nothing is promised about wakeups except through notify_all.
fn c04_paused() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0];
    p.jobs = 1..5;
    p.at = 20_000;
    p.future = 10;
    p.dur = 10;
    p.steps = 0..1;
    p.w = [1, 0, 0, 0, 0];
    p.ops = 0..1;
    p.backlog = 0;
    scenario(p)
}
fn c04_paused_run(s: &Scenario) -> CaseResult {
    // Every enqueue is followed, 1 s later, by a notify_all.
    let mut s = s.clone();
    for j in &mut s.jobs {
        j.sched_ms = Some(j.sched_ms.unwrap_or(0).min(0));
    }
    s.ops = s.jobs.iter().map(|j| OpSpec { at_ms: j.at_ms + 1000, target: 0, kind: OpKind::NotifyAll }).collect();
    let o = run_with(&s, |b| b.paused());
    let mut r = CaseResult::ok();
    r.nontrivial = true;
    for j in &s.jobs {
        let enq = o.log.iter().find(|(_, e)| matches!(e, Ev::Op(OpEv::Enqueued { tag, .. }) if *tag == j.tag)).map(|x| x.0);
        let st = o.log.iter().find(|(_, e)| matches!(e, Ev::Start { tag, .. } if *tag == j.tag)).map(|x| x.0);
        match (enq, st) {
            (Some(e), Some(t)) if t <= e + SEC + LATE => {}
            (e, t) => r.fail(format!("job {} enqueued at {e:?} on a paused backend and notify_all called 1 s later, but it started at {t:?}", j.tag)),
        }
    }
    r
}

// ---- C05
fn c05_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2];
    p.jobs = 2..12;
    p.nodes = 1..3;
    p.at = 8000;
    p.future = 15_000;
    p.delay = 15_000;
    p.dur = 1000;
    p.ops = 0..8;
    p.ops_kinds = vec![1, 2, 2, 3, 7];
    scenario(p)
}
fn c05_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Early]);
    let ready = s.jobs.iter().any(|j| j.sched_ms.unwrap_or(0) <= 0);
    let fut = s.jobs.iter().any(|j| j.sched_ms.is_some_and(|x| x > 200)) || v.retries + v.snoozes > 0;
    r.nontrivial = ready && fut;
    r
}

// ---- C07
fn c07_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2, 3];
    p.jobs = 3..20;
    p.at = 2000;
    p.future = 3000;
    p.dur = 5000;
    p.delay = 3000;
    p.steps = 0..3;
    p.w = [6, 1, 1, 2, 1];
    p.timeouts = true;
    p.backlog = 40;
    p.rich = false;
    scenario(p)
}
fn c07_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Conc, Cat::Late]);
    r.nontrivial = v.waited_for_capacity > 0 && v.contended > 0;
    r
}

fn c07_blocking() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![4, 5];
    p.jobs = 3..12;
    p.at = 100;
    p.future = 200;
    p.delay = 300;
    p.steps = 0..2;
    p.w = [6, 1, 1, 2, 1];
    p.backlog = 70;
    p.rich = false;
    scenario(p)
}
fn c07_blocking_run(s: &Scenario) -> CaseResult {
    set_meet(&[]);
    let (mut r, v) = judge(s, &[Cat::Conc, Cat::Late]);
    r.nontrivial = v.contended > 0;
    r
}
/// Jobs of blocking executors that wait for each other: the groups only come together when the
/// capacity is used.
fn c07_meet() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![4, 5];
    p.jobs = 3..13;
    p.at = 50;
    p.future = 2;
    p.dur = 1000;
    p.steps = 0..1;
    p.w = [1, 0, 0, 0, 0];
    p.backlog = 50;
    p.rich = false;
    scenario(p)
        .prop_map(|mut s| {
            s.nodes = 1;
            let mut limited = vec![];
            for (i, j) in s.jobs.iter_mut().enumerate() {
                j.script.tail.dur_ms = j.script.tail.dur_ms.max(1);
                if j.ex == 5 {
                    limited.push(i);
                }
            }
            if limited.len() % 2 == 1 {
                s.jobs[limited[0]].ex = 4;
            }
            s
        })
        .boxed()
}
fn c07_meet_run(s: &Scenario) -> CaseResult {
    let open = s.jobs.iter().filter(|j| j.ex == 4).count();
    set_meet(&[(4, open), (5, 2)]);
    let (mut r, v) = judge(s, &[Cat::Conc, Cat::Late]);
    if let Some(e) = missed() {
        let (of, name) = if e == 4 { (open, "without a limit") } else { (2, "with a limit of 2") };
        r.fail(format!("[Capacity] a blocking executor {name}: of {of} executions that were ready some did not start while the others were in progress"));
    }
    set_meet(&[]);
    r.class_if(open >= 4, "4 or more at once");
    r.nontrivial = v.contended > 0;
    r
}

// ---- C10
fn c10_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 2];
    p.jobs = 1..8;
    p.timeouts = true;
    p.dur = 4000;
    p.w = [4, 1, 1, 3, 1];
    scenario(p)
}
fn c10_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Timeout]);
    r.nontrivial = v.timeouts > 0;
    r
}

// ---- C11
fn c11_main() -> BoxedStrategy<Scenario> {
    let mut p = params();
    p.exs = vec![0, 1, 6];
    p.jobs = 1..5;
    p.delay = 600_000;
    p.w = [1, 0, 4, 5, 2];
    p.timeouts = true;
    p.steps = 1..5;
    scenario(p)
}
fn c11_run(s: &Scenario) -> CaseResult {
    let (mut r, v) = judge(s, &[Cat::Delay, Cat::Early, Cat::Late]);
    r.nontrivial = v.retries + v.snoozes > 0;
    r
}

pub const ASSUME: &str = "in-memory backend, single-threaded runtime in virtual time (clock_gettime/epoll_wait interposed); 100 ms early-claim tolerance, 1 s promptness bound";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            assumptions: vec![ASSUME],
            arms: vec![
                Box::new(GenArm { name: "outcomes", rule: "1-7 jobs with scripted outcome sequences on 4 executors plus cancel/rerun/update operations; non-trivial: at least one retry, snooze, timeout, panic or recorded error", quick: 96_000, thorough: 2880_000, strategy: c01_main, run: c01_run }),
                Box::new(GenArm { name: "blocking", rule: "same on blocking executors (real threads); non-trivial as above", quick: 300, thorough: 6_000, strategy: c01_blocking, run: c01_run }),
            ],
        },
        Property {
            id: "C02",
            assumptions: vec![ASSUME],
            arms: vec![
                Box::new(GenArm { name: "exhaustion", rule: "1-4 mostly failing jobs, max_attempts 0-39, snoozes in between; non-trivial: a job executed more than once with a retry", quick: 80_000, thorough: 2400_000, strategy: c02_main, run: c02_run }),
                Box::new(GenArm { name: "rerun-and-limits", rule: "failing jobs with reruns and max_attempts changed between executions; non-trivial as above", quick: 80_000, thorough: 2400_000, strategy: c02_ops, run: c02_run }),
            ],
        },
        Property {
            id: "C03",
            assumptions: vec![ASSUME],
            arms: vec![Box::new(GenArm { name: "nodes", rule: "2-15 jobs, 1-4 nodes sharing a backend, 2-5 of 5 executors running, reruns/updates of idle jobs; non-trivial: several executions with several nodes or an applied operation", quick: 80_000, thorough: 2400_000, strategy: c03_main, run: c03_run }), crate::props_threads::arm("C03")],
        },
        Property {
            id: "C04",
            assumptions: vec![ASSUME],
            arms: vec![
                Box::new(GenArm { name: "wakeups", rule: "1-9 jobs over 60 s with future schedules up to 100 s, retries, snoozes, reruns, reschedules, late runner starts; non-trivial: something other than an immediate enqueue made a job due", quick: 80_000, thorough: 2400_000, strategy: c04_main, run: c04_run }),
                Box::new(GenArm { name: "paused-notify", rule: "jobs enqueued on a paused backend followed by notify_all; every case non-trivial", quick: 16_000, thorough: 480_000, strategy: c04_paused, run: c04_paused_run }),
                crate::props_threads::arm("C04"),
            ],
        },
        Property {
            id: "C05",
            assumptions: vec![ASSUME],
            arms: vec![Box::new(GenArm { name: "not-early", rule: "2-11 jobs mixing ready and future schedules, retries, snoozes, reschedules and spurious notify_all; non-trivial: ready and not-ready work coexist", quick: 96_000, thorough: 2880_000, strategy: c05_main, run: c05_run }), crate::props_threads::arm("C05")],
        },
        Property {
            id: "C07",
            assumptions: vec![ASSUME],
            arms: vec![
                Box::new(GenArm { name: "limits", rule: "3-19 jobs on executors with limits none/1/2/3; non-trivial: some job waited for capacity and executions overlapped", quick: 80_000, thorough: 2400_000, strategy: c07_main, run: c07_run }),
                Box::new(GenArm { name: "blocking", rule: "3-11 jobs on blocking executors (real threads) with limits none/2, executions of 1-3 ms of real time; non-trivial: executions overlapped", quick: 400, thorough: 8_000, strategy: c07_blocking, run: c07_blocking_run }),
                Box::new(GenArm { name: "blocking-capacity", rule: "3-12 ready jobs on blocking executors with limits none/2 that wait for each other in groups of the capacity; non-trivial: executions overlapped", quick: 300, thorough: 6_000, strategy: c07_meet, run: c07_meet_run }),
            ],
        },
        Property {
            id: "C10",
            assumptions: vec![ASSUME, "non-blocking executors (a blocking execution cannot be interrupted)"],
            arms: vec![Box::new(GenArm { name: "timeouts", rule: "1-7 jobs, durations 0-4 s, timeouts up to 2 s either side of the duration; non-trivial: a timeout fired", quick: 96_000, thorough: 2880_000, strategy: c10_main, run: c10_run })],
        },
        Property {
            id: "C11",
            assumptions: vec![ASSUME],
arms: {
                let mut a: Vec<Box<dyn vkit::Arm>> = vec![Box::new(GenArm { name: "delays", rule: "1-4 jobs, backoff and snooze delays from -5 s to 10 min; non-trivial: a retry or snooze happened", quick: 64_000, thorough: 1920_000, strategy: c11_main, run: c11_run })];
                a.extend(crate::props_run2::c11_arms());
                a
            },
        },
    ]
}
