//! Check driver: generated-case search over worker processes, shrinking, replay and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::io::Write;
use std::path::{Path, PathBuf};

use crate::{panics, vclock};

#[derive(Default, Debug, Clone)]
pub struct CaseResult {
    pub violation: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    /// why the case decides nothing: whatever was observed in it is set aside
    pub undecided: Option<String>,
}
impl CaseResult {
    pub fn ok() -> Self {
        Self::default()
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(msg.into());
        }
    }
}

/// One generated check contributing to a property.
pub trait Arm: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn quick(&self) -> u32;
    fn thorough(&self) -> u32;
    fn search(&self, seed: u64, cases: u32, out: &mut ArmStats, deadline_real_ms: u64);
    fn replay(&self, case: &Value) -> Result<CaseResult, String>;
}

pub struct GenArm<C> {
    pub name: &'static str,
    /// How cases are made and which count as non-trivial.
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub run: fn(&C) -> CaseResult,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct ArmStats {
    pub arm: String,
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Value>,
    pub failure_message: Option<String>,
    pub harness_error: Option<String>,
    pub truncated: bool,
    pub undecided: u64,
    pub undecided_why: Option<String>,
}

fn hash64(s: &str) -> u64 {
    // FNV-1a: stable across processes.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    f.write(s.as_bytes());
    f.finish()
}

fn seed_bytes(seed: u64, salt: &str) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let h = hash64(&format!("{seed}/{salt}/{i}"));
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

/// The case being run, in a file mapped by the worker, so that the driver still has it if the worker
/// hangs or dies.
struct CaseBox {
    ptr: *mut u8,
    len: usize,
}
unsafe impl Send for CaseBox {}
unsafe impl Sync for CaseBox {}
static CASE_BOX: std::sync::OnceLock<CaseBox> = std::sync::OnceLock::new();
const CASE_BOX_LEN: usize = 1 << 20;

fn case_box_init(path: &Path) {
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(path) else { return };
    if f.set_len(CASE_BOX_LEN as u64).is_err() {
        return;
    }
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), CASE_BOX_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    if p != libc::MAP_FAILED {
        let _ = CASE_BOX.set(CaseBox { ptr: p as *mut u8, len: CASE_BOX_LEN });
    }
}
fn case_box_put(text: &str) {
    if let Some(b) = CASE_BOX.get() {
        let n = if text.len() + 8 > b.len { 0 } else { text.len() };
        unsafe {
            std::ptr::copy_nonoverlapping(text.as_ptr(), b.ptr.add(8), n);
            (b.ptr as *mut u64).write_volatile(n as u64);
        }
    }
}
fn case_box_read(path: &Path) -> Option<Value> {
    let b = std::fs::read(path).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    serde_json::from_slice(b.get(8..8 + n)?).ok()
}

static CASE_STARTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub const CASE_LIMIT_MS: u64 = 60_000;

fn start_watchdog() {
    std::thread::spawn(|| {
        loop {
            vclock::real_sleep_ms(500);
            let s = CASE_STARTED.load(std::sync::atomic::Ordering::SeqCst);
            if s != 0 && vclock::real_ms().saturating_sub(s) > CASE_LIMIT_MS {
                eprintln!("harness watchdog: case exceeded {CASE_LIMIT_MS} ms of real time");
                std::process::exit(97);
            }
        }
    });
}

enum Ran {
    Done(CaseResult),
    Harness(String),
}

fn run_guarded<C: Serialize>(arm: &'static str, run: fn(&C) -> CaseResult, case: &C) -> Ran {
    let text = serde_json::to_string(case).unwrap();
    case_box_put(&format!("{{\"arm\":{arm:?},\"case\":{text}}}"));
    vclock::seed_random(hash64(&text));
    let _ = panics::take_last();
    let _ = panics::take_library();
    let _ = panics::take_harness();
    CASE_STARTED.store(vclock::real_ms(), std::sync::atomic::Ordering::SeqCst);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(case)));
    CASE_STARTED.store(0, std::sync::atomic::Ordering::SeqCst);
    match res {
        Ok(r) => {
            let h = panics::take_harness();
            match h.first() {
                // A harness task died: nothing it would have observed can be believed.
                Some(p) => Ran::Harness(format!("harness task panicked at {}: {}", p.location, p.message)),
                None => Ran::Done(r),
            }
        }
        Err(_) => match panics::take_last() {
            Some(p) if p.in_library => {
                let mut r = CaseResult::ok();
                r.nontrivial = true;
                r.fail(format!("the library panicked in a call that must not panic: {} ({})", p.message, p.location));
                Ran::Done(r)
            }
            p => Ran::Harness(format!("harness panicked: {p:?}")),
        },
    }
}

impl<C> Arm for GenArm<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn quick(&self) -> u32 {
        self.quick
    }
    fn thorough(&self) -> u32 {
        self.thorough
    }
    fn search(&self, seed: u64, cases: u32, out: &mut ArmStats, deadline: u64) {
        out.arm = self.name.to_string();
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 0,
            source_file: None,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, self.name));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)();
        struct St {
            seen: HashSet<u64>,
            failed_at: Option<u64>,
            message: String,
        }
        let st = RefCell::new(St { seen: HashSet::new(), failed_at: None, message: String::new() });
        let outc = RefCell::new(&mut *out);
        let result = runner.run(&strategy, |case| {
            let now = vclock::real_ms();
            {
                let s = st.borrow();
                let mut o = outc.borrow_mut();
                if o.harness_error.is_some() {
                    return Ok(());
                }
                match s.failed_at {
                    None if now > deadline => {
                        o.truncated = true;
                        return Ok(());
                    }
                    Some(t) if now > t + 45_000 => return Ok(()),
                    _ => {}
                }
            }
            let r = match run_guarded(self.name, self.run, &case) {
                Ran::Done(r) => r,
                Ran::Harness(e) => {
                    let mut o = outc.borrow_mut();
                    o.harness_error = Some(format!("{e}; case: {}", serde_json::to_string(&case).unwrap()));
                    return Ok(());
                }
            };
            let mut s = st.borrow_mut();
            let mut o = outc.borrow_mut();
            if let Some(why) = r.undecided {
                if s.failed_at.is_none() {
                    o.undecided += 1;
                    o.undecided_why.get_or_insert(why);
                }
                return Ok(());
            }
            if s.failed_at.is_none() {
                o.evaluations += 1;
                for c in &r.classes {
                    *o.classes.entry(c.to_string()).or_default() += 1;
                }
                if r.nontrivial {
                    let v = serde_json::to_value(&case).unwrap();
                    let h = hash64(&v.to_string());
                    if s.seen.insert(h) {
                        o.nontrivial_hashes.push(h);
                        if o.samples.len() < 2 {
                            o.samples.push(v);
                        }
                    }
                }
            }
            match r.violation {
                None => Ok(()),
                Some(m) => {
                    if s.failed_at.is_none() {
                        s.failed_at = Some(now);
                    }
                    s.message = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
        });
        drop(outc);
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                out.failure = Some(serde_json::to_value(&case).unwrap());
                out.failure_message = Some(reason.message().to_string());
            }
            Err(TestError::Abort(reason)) => {
                out.harness_error = Some(format!("generator aborted: {reason}"));
            }
        }
    }
    fn replay(&self, case: &Value) -> Result<CaseResult, String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay case: {e}"))?;
        match run_guarded(self.name, self.run, &case) {
            Ran::Done(r) => Ok(r),
            Ran::Harness(e) => Err(e),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub arms: Vec<Box<dyn Arm>>,
    pub assumptions: Vec<&'static str>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Entry point of a harness binary.
pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("worker") => worker(&props, &args[2..]),
        Some("replay") => replay(&props, Path::new(&args[2])),
        Some("sample") => sample(&props, &args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(3)),
        Some(id) => drive(&props, id),
        None => {
            eprintln!("usage: <bin> <property> | replay <file> | list | sample <property> [n]");
            2
        }
    };
    std::process::exit(code)
}

fn find<'a>(props: &'a [Property], id: &str) -> Option<&'a Property> {
    props.iter().find(|p| p.id == id)
}

fn sample(props: &[Property], id: &str, n: usize) -> i32 {
    let p = find(props, id).expect("unknown property");
    for a in &p.arms {
        let mut out = ArmStats::default();
        panics::install();
        a.search(1, n as u32, &mut out, u64::MAX);
        println!("{} {}", a.name(), serde_json::to_string_pretty(&out).unwrap());
    }
    0
}

fn replay(props: &[Property], file: &Path) -> i32 {
    panics::install();
    start_watchdog();
    let v: Value = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read replay file {}", file.display());
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = find(props, id) else { return 2 };
    let Some(arm) = p.arms.iter().find(|a| Some(a.name()) == v["arm"].as_str()) else { return 2 };
    match arm.replay(&v["case"]) {
        Ok(r) if r.undecided.is_some() => {
            eprintln!("undecided: {}", r.undecided.unwrap_or_default());
            2
        }
        Ok(r) => match r.violation {
            Some(m) => {
                println!("{m}");
                println!("VIOLATION property={id} replay={}", file.display());
                1
            }
            None => {
                println!("replay: property {id} holds on this case");
                0
            }
        },
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

// worker <prop> <tier> <seed> <index> <count> <deadline>
fn worker(props: &[Property], a: &[String]) -> i32 {
    panics::install();
    start_watchdog();
    let p = find(props, &a[0]).expect("unknown property");
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let idx: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let budget: u64 = a[5].parse().unwrap();
    case_box_init(Path::new(&a[6]));
    let only = std::env::var("VKIT_ARM").ok();
    let mut all = vec![];
    for arm in &p.arms {
        if only.as_deref().is_some_and(|o| o != arm.name()) {
            continue;
        }
        let total = if thorough { arm.thorough() } else { arm.quick() } as u64;
        let mine = total / count + u64::from(idx < total % count);
        let mut out = ArmStats { arm: arm.name().into(), ..Default::default() };
        if mine > 0 {
            let sub = seed.wrapping_mul(1_000_003).wrapping_add(idx * 7919 + 13);
            arm.search(sub, mine as u32, &mut out, vclock::real_ms() + budget);
        }
        let stop = out.failure.is_some() || out.harness_error.is_some();
        all.push(out);
        if stop {
            break;
        }
    }
    let mut o = std::io::stdout();
    let _ = writeln!(o, "\u{1}RESULT {}", serde_json::to_string(&all).unwrap());
    let _ = o.flush();
    0
}

fn drive(props: &[Property], id: &str) -> i32 {
    let t0 = vclock::real_ms();
    let Some(p) = find(props, id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers: u64 = std::env::var("VKIT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    // Soft cap per arm and worker: beyond it cases are skipped, never reported as violations.
    let budget: u64 = if tier == "thorough" { 1_500_000 } else { 150_000 };
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    let boxes = exe.parent().unwrap().join(format!("cases.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&boxes);
    for i in 0..workers {
        let kid = std::process::Command::new(&exe)
            .args(["worker", id, tier, &seed.to_string(), &i.to_string(), &workers.to_string(), &budget.to_string()])
            .arg(boxes.join(i.to_string()))
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push(kid);
    }
    let mut merged: BTreeMap<String, ArmStats> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let mut failures: Vec<(String, Value, String)> = vec![];
    let readers: Vec<_> = kids
        .into_iter()
        .map(|k| std::thread::spawn(move || k.wait_with_output()))
        .collect();
    let mut dead: Vec<(String, Value)> = vec![];
    for (i, r) in readers.into_iter().enumerate() {
        let out = match r.join().unwrap() {
            Ok(o) => o,
            Err(e) => {
                errors.push(format!("worker: {e}"));
                continue;
            }
        };
        let text = String::from_utf8_lossy(&out.stdout);
        let line = text.lines().find_map(|l| l.strip_prefix("\u{1}RESULT "));
        let Some(line) = line else {
            if let Some(v) = case_box_read(&boxes.join(i.to_string())) {
                if let Some(arm) = v["arm"].as_str() {
                    dead.push((arm.to_string(), v["case"].clone()));
                }
            }
            errors.push(format!(
                "worker ended with {:?} and no result: {}",
                out.status,
                String::from_utf8_lossy(&out.stderr).chars().take(2000).collect::<String>()
            ));
            continue;
        };
        let arms: Vec<ArmStats> = serde_json::from_str(line).expect("worker result");
        for a in arms {
            if let Some(e) = &a.harness_error {
                errors.push(format!("[{}] {e}", a.arm));
            }
            if let Some(f) = &a.failure {
                failures.push((a.arm.clone(), f.clone(), a.failure_message.clone().unwrap_or_default()));
            }
            let m = merged.entry(a.arm.clone()).or_insert_with(|| ArmStats { arm: a.arm.clone(), ..Default::default() });
            m.evaluations += a.evaluations;
            m.nontrivial_hashes.extend(a.nontrivial_hashes);
            for (k, v) in a.classes {
                *m.classes.entry(k).or_default() += v;
            }
            for s in a.samples {
                if m.samples.len() < 2 {
                    m.samples.push(s);
                }
            }
            m.truncated |= a.truncated;
            m.undecided += a.undecided;
            m.undecided_why = m.undecided_why.take().or(a.undecided_why);
        }
    }
    // A worker that hung or died: if the very same case does it again (on its own, twice), it is the
    // code under test that does not come back from it.
    if failures.is_empty() {
        if let Some((arm, case)) = dead.iter().min_by_key(|d| d.1.to_string().len()) {
            let f = boxes.join("dead.json");
            let _ = std::fs::write(&f, json!({"property": id, "arm": arm, "case": case}).to_string());
            let again = |_: u32| {
                let mut k = std::process::Command::new(&exe)
                    .arg("replay")
                    .arg(&f)
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .expect("spawn replay");
                let t = vclock::real_ms();
                loop {
                    match k.try_wait() {
                        Ok(Some(st)) => return st.code().is_none() || st.code() == Some(97),
                        _ if vclock::real_ms() - t > 2 * CASE_LIMIT_MS => {
                            let _ = k.kill();
                            let _ = k.wait();
                            return true;
                        }
                        _ => vclock::real_sleep_ms(50),
                    }
                }
            };
            if (0..2).all(again) {
                failures.push((arm.clone(), case.clone(), "the case never ends (hang) or kills the process, every time it is run".into()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&boxes);
    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut per_arm = vec![];
    let mut samples = vec![];
    let mut rules = vec![];
    for arm in &p.arms {
        let Some(m) = merged.get(arm.name()) else { continue };
        let d = m.nontrivial_hashes.iter().collect::<HashSet<_>>().len() as u64;
        evaluations += m.evaluations;
        distinct += d;
        let mut line = json!({"arm": arm.name(), "evaluations": m.evaluations, "distinct_nontrivial": d,
            "classes": m.classes, "stopped_at_time_budget": m.truncated});
        if let Some(why) = &m.undecided_why {
            line["undecided"] = json!(m.undecided);
            line["undecided_why"] = json!(why);
        }
        per_arm.push(line);
        for s in &m.samples {
            samples.push(json!({"arm": arm.name(), "case": s}));
        }
        rules.push(format!("[{}] {}", arm.name(), arm.rule()));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": rules.join("; "), "samples": samples, "per_arm": per_arm, "workers": workers,
        },
        "assumptions": p.assumptions,
        "wall_s": (vclock::real_ms() - t0) as f64 / 1000.0,
        "violations": failures.len(),
    });
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    if let Err(e) = std::fs::write(dir.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        errors.push(format!("cannot write evidence: {e}"));
    }
    println!("{id} [{tier}, seed {seed}]: {evaluations} cases, {distinct} distinct non-trivial, {} s", (vclock::real_ms() - t0) / 1000);
    for a in &per_arm {
        println!("  {a}");
    }
    if !failures.is_empty() {
        failures.sort_by_key(|f| f.1.to_string().len());
        let (arm, case, msg) = &failures[0];
        let _ = std::fs::create_dir_all(dir.join("replays"));
        let path = dir.join("replays").join(format!("{id}.json"));
        let body = json!({"property": id, "arm": arm, "case": case, "message": msg, "seed": seed});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
        println!("{msg}");
        println!("minimal case: {case}");
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(3) {
            eprintln!("harness error: {}", e.chars().take(4000).collect::<String>());
        }
        return 2;
    }
    if evaluations == 0 || distinct == 0 {
        eprintln!("harness error: nothing was explored");
        return 2;
    }
    0
}

/// A generator helper: one value out of a strategy with a fixed seed (used by demos and tests).
pub fn one<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, "one"));
    let mut runner = TestRunner::new_with_rng(Config::default(), rng);
    s.new_tree(&mut runner).unwrap().current()
}
