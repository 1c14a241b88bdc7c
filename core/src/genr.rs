//! Generators shared by the scenario-based checks.
use crate::scen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde_json::Value;
pub use crate::vals::*;

#[derive(Clone)]
pub struct P {
    pub exs: Vec<usize>,
    pub jobs: std::ops::Range<usize>,
    pub ops: std::ops::Range<usize>,
    pub nodes: std::ops::Range<usize>,
    /// enqueue times, ms
    pub at: u32,
    /// schedule offsets up to this many ms in the future
    pub future: i64,
    pub dur: u32,
    pub delay: i64,
    pub steps: std::ops::Range<usize>,
    /// weights: done, cancel, snooze, err, panic
    pub w: [u32; 5],
    pub timeouts: bool,
    pub max: BoxedStrategy<Option<u16>>,
    pub prio: BoxedStrategy<u16>,
    /// enqueue everything before the runners start, this share (percent) of cases
    pub backlog: u32,
    pub ops_kinds: Vec<u8>,
    pub start: u32,
    pub rich: bool,
}
pub fn params() -> P {
    P {
        exs: vec![0, 1, 2],
        jobs: 1..8,
        ops: 0..1,
        nodes: 1..2,
        at: 5000,
        future: 20_000,
        dur: 3000,
        delay: 20_000,
        steps: 0..4,
        w: [4, 1, 2, 4, 2],
        timeouts: false,
        max: prop_oneof![2 => Just(None), 6 => (1u16..5).prop_map(Some), 1 => Just(Some(0u16)), 1 => (5u16..12).prop_map(Some)].boxed(),
        prio: prop_oneof![4 => 0u16..4, 1 => any::<u16>(), 1 => Just(0u16)].boxed(),
        backlog: 30,
        ops_kinds: vec![0, 1, 2, 3, 4, 5, 6, 7],
        start: 0,
        rich: true,
    }
}

fn out(w: [u32; 5], delay: i64) -> BoxedStrategy<Out> {
    let snooze = prop_oneof![
        2 => 0i64..(delay / 10).max(2),
        2 => 0i64..delay.max(2),
        1 => -5000i64..0,
        1 => Just(0i64),
    ];
    prop_oneof![
        w[0] => Just(Out::Done),
        w[1] => text().prop_map(Out::Cancel),
        w[2] => snooze.prop_map(Out::Snooze),
        w[3] => (0u8..8, text()).prop_map(|(t, m)| Out::Err(t, m)),
        w[4] => prop_oneof![(0u8..3).prop_map(Out::PanicStr), text().prop_map(Out::PanicString), Just(Out::PanicOther)],
    ]
    .boxed()
}

pub fn step(p: &P, tail: bool) -> BoxedStrategy<Step> {
    let d = p.dur.max(2);
    let delay = p.delay.max(2);
    let dur = prop_oneof![3 => Just(0u32), 2 => 1u32..(d / 20).max(2), 3 => 1u32..d];
    let timeout = if p.timeouts {
        prop_oneof![1 => Just(None), 1 => (10i32..2000).prop_map(Some), 2 => (10i32..2000).prop_map(|x| Some(-x))].boxed()
    } else {
        Just(None).boxed()
    };
    let backoff = prop_oneof![2 => Just(0i64), 3 => 1i64..(delay / 10).max(2), 2 => 1i64..delay, 1 => -3000i64..0];
    let mut w = p.w;
    if tail {
        w[2] = 0;
    }
    (dur, out(w, p.delay), timeout, backoff)
        .prop_map(|(dur_ms, out, timeout, backoff_ms)| {
            let timeout = timeout.filter(|d| dur_ms as i64 + *d as i64 >= 5);
            Step { dur_ms, out, timeout, backoff_ms }
        })
        .boxed()
}

pub fn script(p: &P) -> BoxedStrategy<Script> {
    (vec(step(p, false), p.steps.clone()), step(p, true)).prop_map(|(steps, tail)| Script { steps, tail }).boxed()
}

pub fn job(p: &P) -> BoxedStrategy<JobSpec> {
    let f = p.future.max(2);
    let sched = prop_oneof![
        3 => Just(None),
        2 => (-20_000i64..0).prop_map(Some),
        1 => Just(Some(0)),
        3 => (0i64..(f / 10).max(2)).prop_map(Some),
        2 => (0i64..f).prop_map(Some),
    ];
    let at = prop_oneof![1 => Just(0u32), 2 => 0..p.at.max(1), 1 => (0..(p.at / 100).max(1)).prop_map(|x| x * 100)];
    let extra = if p.rich {
        (tags(), json_value(), prop::option::of(text())).boxed()
    } else {
        Just((vec![], Value::Null, None)).boxed()
    };
    (prop::sample::select(p.exs.clone()), at, sched, p.prio.clone(), p.max.clone(), extra, script(p))
        .prop_map(|(ex, at_ms, sched_ms, prio, max, (tags, body, note), mut script)| {
            if BLOCKING[ex] {
                script.steps.iter_mut().chain([&mut script.tail]).for_each(|s| s.timeout = None);
            }
            JobSpec { tag: 0, ex, at_ms, sched_ms, prio, max, tags, body, note, script }
        })
        .boxed()
}

pub fn op(p: &P) -> BoxedStrategy<OpSpec> {
    let f = p.future.max(2);
    let kinds = p.ops_kinds.clone();
    let kind = prop::sample::select(kinds).prop_flat_map(move |k| match k {
        0 => text().prop_map(OpKind::Cancel).boxed(),
        1 => Just(OpKind::Rerun).boxed(),
        2 => (-5000i64..f).prop_map(OpKind::Reschedule).boxed(),
        3 => (0u16..5).prop_map(OpKind::Prio).boxed(),
        4 => (0u16..6).prop_map(OpKind::Max).boxed(),
        5 => tags().prop_map(OpKind::Tags).boxed(),
        6 => prop::option::of(text()).prop_map(OpKind::Note).boxed(),
        _ => Just(OpKind::NotifyAll).boxed(),
    });
    (0..(p.at * 2).max(2), 0usize..8, kind).prop_map(|(at_ms, target, kind)| OpSpec { at_ms, target, kind }).boxed()
}

pub fn scenario(p: P) -> BoxedStrategy<Scenario> {
    let exs = p.exs.clone();
    let jobs = vec(job(&p), p.jobs.clone());
    let ops = vec(op(&p), p.ops.clone());
    (0i64..86_400_000_000i64, p.nodes.clone(), jobs, ops, 0u32..100, 0..p.start.max(1))
        .prop_map(move |(epoch_us, nodes, mut jobs, ops, b, start)| {
            let backlog = b < p.backlog;
            for (i, j) in jobs.iter_mut().enumerate() {
                j.tag = i as u32 + 1;
            }
            let start_ms = if backlog { p.at + 1 } else { start };
            Scenario { epoch_us, nodes, running: exs.clone(), start_ms, jobs, ops, faults: vec![], poison: vec![], stop: None }
        })
        .boxed()
}
