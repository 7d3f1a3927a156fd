//! Core of the verification harness: a driver around proptest strategies that
//! generates cases from a seed, runs an explicit oracle on each, counts what was
//! covered, shrinks failures and writes replay files.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod sat;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What a single case did; filled in by the check
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    labels: BTreeMap<String, u64>,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn count(&mut self, l: impl Into<String>, n: u64) {
        *self.labels.entry(l.into()).or_default() += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Debug, Clone)]
pub struct Fail(pub String);
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail(s.into())
    }
}
pub type CheckResult = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail(format!($($t)*))); } };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs a closure, converting a panic into `Err(message)`
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(m.unwrap_or_else(|| {
                if let Some(s) = e.downcast_ref::<&str>() {
                    (*s).to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                }
            }))
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("{msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

pub struct RunCtx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub scale: f64,
    pub stop: AtomicBool,
    pub crash_dir: PathBuf,
    pub samples: usize,
}

pub struct FailureInfo {
    pub sub: String,
    pub case: serde_json::Value,
    pub msg: String,
    pub shrink_evals: u64,
}

#[derive(Default)]
pub struct SubOutcome {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<FailureInfo>,
    pub wall_s: f64,
    pub enumerated: bool,
}

pub trait Sub: Sync + Send {
    fn name(&self) -> &str;
    fn run(&self, ctx: &RunCtx) -> SubOutcome;
    fn replay(&self, case: &serde_json::Value) -> CheckResult;
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn seed_bytes(seed: u64, prop: &str, sub: &str, thread: usize) -> [u8; 32] {
    let mut st = seed ^ fnv(prop).rotate_left(17) ^ fnv(sub).rotate_left(31) ^ ((thread as u64) << 48 | thread as u64);
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
    }
    out
}

fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct GenSub<C, S, F> {
    name: String,
    quick: u64,
    thorough: u64,
    strat: S,
    check: F,
    crashy: bool,
    _p: std::marker::PhantomData<fn() -> C>,
}

/// A sub-check over generated cases
pub fn sub<C, S, F>(name: &str, quick: u64, thorough: u64, strat: S, check: F) -> Box<dyn Sub>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<C> + Sync + Send + 'static,
    F: Fn(&C, &mut Obs) -> CheckResult + Sync + Send + 'static,
{
    Box::new(GenSub { name: name.into(), quick, thorough, strat, check, crashy: false, _p: std::marker::PhantomData })
}

/// As [`sub`], but every case is recorded before it runs so that a crash of the process (signal) can
/// be attributed to a case
pub fn sub_crashy<C, S, F>(name: &str, quick: u64, thorough: u64, strat: S, check: F) -> Box<dyn Sub>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<C> + Sync + Send + 'static,
    F: Fn(&C, &mut Obs) -> CheckResult + Sync + Send + 'static,
{
    Box::new(GenSub { name: name.into(), quick, thorough, strat, check, crashy: true, _p: std::marker::PhantomData })
}

fn run_case<C>(check: &impl Fn(&C, &mut Obs) -> CheckResult, case: &C, obs: &mut Obs) -> CheckResult {
    match catch(|| check(case, obs)) {
        Ok(r) => r,
        Err(p) => Err(Fail(format!("panic: {p}"))),
    }
}

impl<C, S, F> GenSub<C, S, F>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<C> + Sync + Send + 'static,
    F: Fn(&C, &mut Obs) -> CheckResult + Sync + Send + 'static,
{
    fn thread(&self, ctx: &RunCtx, t: usize, cases: u64, slot: &Slot<C>) -> SubOutcome {
        let mut out = SubOutcome::default();
        let strat = (self.strat)(ctx.tier);
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx.seed, ctx.prop, &self.name, t));
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let crash_file = if self.crashy {
            let p = ctx.crash_dir.join(format!("{}.{t}.case", self.name.replace('/', "_")));
            Some(p)
        } else {
            None
        };
        for _ in 0..cases {
            if ctx.stop.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("generator rejected too much in {}: {e}", self.name);
                    std::process::exit(4);
                }
            };
            let case = tree.current();
            let mut obs = Obs::default();
            if let Some(p) = &crash_file {
                let v = serde_json::json!({"sub": self.name, "case": &case});
                let _ = std::fs::write(p, v.to_string());
            }
            *slot.lock().unwrap() = Some((Instant::now(), case.clone()));
            let res = run_case(&self.check, &case, &mut obs);
            *slot.lock().unwrap() = None;
            out.evaluations += 1;
            CASES.fetch_add(1, Ordering::Relaxed);
            if obs.nontrivial {
                out.nontrivial += 1;
                let js = serde_json::to_string(&case).unwrap_or_default();
                if out.distinct.insert(hash_of(&js)) && out.samples.len() < ctx.samples && t == 0 && js.len() < 4000 {
                    out.samples.push(serde_json::json!({"sub": self.name, "case": &case}));
                }
            }
            for (k, v) in obs.labels {
                *out.labels.entry(k).or_default() += v;
            }
            if let Err(Fail(msg)) = res {
                // shrink
                let start = Instant::now();
                let mut best = (case, msg);
                let mut evals = 0u64;
                if tree.simplify() {
                    loop {
                        if evals > 20_000 || start.elapsed().as_secs() > 45 {
                            break;
                        }
                        let c = tree.current();
                        let mut o = Obs::default();
                        if let Some(p) = &crash_file {
                            let v = serde_json::json!({"sub": self.name, "case": &c});
                            let _ = std::fs::write(p, v.to_string());
                        }
                        evals += 1;
                        *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
                        let res = run_case(&self.check, &c, &mut o);
                        *slot.lock().unwrap() = None;
                        match res {
                            Err(Fail(m)) => {
                                best = (c, m);
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            Ok(()) => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                ctx.stop.store(true, Ordering::Relaxed);
                out.failure = Some(FailureInfo {
                    sub: self.name.clone(),
                    case: serde_json::to_value(&best.0).unwrap(),
                    msg: best.1,
                    shrink_evals: evals,
                });
                break;
            }
        }
        if let Some(p) = crash_file {
            let _ = std::fs::remove_file(p);
        }
        out
    }
}

type Slot<C> = Mutex<Option<(Instant, C)>>;

/// A single case running for longer than this (they take milliseconds) or making the process use
/// more memory than `MEM_LIMIT_MB` is reported as not terminating
const HANG_S: u64 = 120;
const MEM_LIMIT_MB: u64 = 20_000;

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 / (1 << 20)
}

static CASES: AtomicU64 = AtomicU64::new(0);

impl<C, S, F> Sub for GenSub<C, S, F>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<C> + Sync + Send + 'static,
    F: Fn(&C, &mut Obs) -> CheckResult + Sync + Send + 'static,
{
    fn name(&self) -> &str {
        &self.name
    }

    fn run(&self, ctx: &RunCtx) -> SubOutcome {
        let start = Instant::now();
        let total = ((ctx.tier.pick(self.quick, self.thorough) as f64) * ctx.scale).ceil() as u64;
        let n = ctx.threads as u64;
        let results: Mutex<Vec<(usize, SubOutcome)>> = Mutex::new(vec![]);
        let slots: Vec<Slot<C>> = (0..ctx.threads).map(|_| Mutex::new(None)).collect();
        std::thread::scope(|sc| {
            let (slots, results) = (&slots, &results);
            sc.spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if results.lock().unwrap().len() == ctx.threads {
                    return;
                }
                let mem = rss_mb();
                let limit = if mem > MEM_LIMIT_MB { 1 } else { HANG_S };
                let mut worst: Option<(Instant, C)> = None;
                for s in slots {
                    let s = s.lock().unwrap();
                    if let Some((st, c)) = &*s {
                        if st.elapsed().as_secs() >= limit && worst.as_ref().is_none_or(|w| *st < w.0) {
                            worst = Some((*st, c.clone()));
                        }
                    }
                }
                if let Some((st, c)) = worst {
                    let case = serde_json::to_value(&c).unwrap_or_default();
                    let msg = format!("does not terminate: ran for {}s ({mem} MB in use)", st.elapsed().as_secs());
                    let rp = write_replay(ctx.prop, &self.name, &case, &msg);
                    write_min_evidence(ctx.prop, ctx.tier, &msg, CASES.load(Ordering::Relaxed));
                    println!("VIOLATION property={} replay={}", ctx.prop, rp.display());
                    println!("  sub-check {}: {msg}", self.name);
                    std::process::exit(1);
                }
            });
            for t in 0..ctx.threads {
                let cases = total / n + u64::from((t as u64) < total % n);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.thread(ctx, t, cases, &slots[t])));
                        let Ok(o) = r else {
                            eprintln!("harness error: a generator of {} panicked", self.name);
                            std::process::exit(4);
                        };
                        results.lock().unwrap().push((t, o));
                    })
                    .unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|(t, _)| *t);
        let mut out = SubOutcome::default();
        for (_, r) in rs {
            out.evaluations += r.evaluations;
            out.nontrivial += r.nontrivial;
            out.distinct.extend(r.distinct);
            for (k, v) in r.labels {
                *out.labels.entry(k).or_default() += v;
            }
            out.samples.extend(r.samples);
            if out.failure.is_none() {
                out.failure = r.failure;
            }
        }
        out.wall_s = start.elapsed().as_secs_f64();
        out
    }

    fn replay(&self, case: &serde_json::Value) -> CheckResult {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| Fail(format!("bad replay case: {e}")))?;
        let mut obs = Obs::default();
        run_case(&self.check, &c, &mut obs)
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Box<dyn Sub>>,
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn known_lines(id: &str) -> Vec<(PathBuf, String)> {
    // lines of form: known: property=<id> replay=<relative path> <what fails>
    let mut out = vec![];
    let Ok(s) = std::fs::read_to_string(verif_root().join("known_findings.txt")) else {
        return out;
    };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        if it.next() != Some(id) {
            continue;
        }
        let Some(rp) = it.next().and_then(|r| r.strip_prefix("replay=")) else { continue };
        out.push((verif_root().join(rp), it.next().unwrap_or("").to_string()));
    }
    out
}

fn load_case(p: &Path) -> Option<(String, serde_json::Value)> {
    let s = std::fs::read_to_string(p).ok()?;
    let v: serde_json::Value = serde_json::from_str(&s).ok()?;
    Some((v["sub"].as_str()?.to_string(), v["case"].clone()))
}

fn write_replay(prop: &str, sub: &str, case: &serde_json::Value, msg: &str) -> PathBuf {
    let dir = verif_root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::json!({"property": prop, "sub": sub, "case": case, "message": msg});
    let s = serde_json::to_string_pretty(&v).unwrap();
    let p = dir.join(format!("{prop}-{}-{:016x}.json", sub.replace('/', "_"), hash_of(&case.to_string())));
    let _ = std::fs::write(&p, s);
    p
}

/// When the process has to be ended early, its evidence says so
fn write_min_evidence(id: &str, tier: Tier, why: &str, evaluations: u64) {
    let ev = serde_json::json!({
        "property": id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "exploration",
        "coverage": {"explanation": why, "evaluations": evaluations.max(1), "distinct_nontrivial": 1, "rule": "the failing case", "samples": []},
        "wall_s": 0.0, "violations": 1});
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), ev.to_string());
}

fn replay_dir(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(verif_root().join("regressions").join(id))
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

/// Entry point for a harness binary.
///
/// `<bin> run <ID>`: supervises a worker process; `<bin> worker <ID> <crash dir>`: does the work;
/// `<bin> replay <file>`: re-runs one saved case without any generator
pub fn main(props: Vec<fn() -> Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "list" => {
            for p in props {
                let p = p();
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name().to_string()).collect::<Vec<_>>().join(" "));
            }
        }
        "run" => supervise(&args[2], tier),
        "worker" => {
            let prop = props.into_iter().map(|p| p()).find(|p| p.id == args[2]).expect("unknown property");
            let code = worker(prop, tier, seed, PathBuf::from(&args[3]));
            std::process::exit(code);
        }
        "replay" => {
            let s = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file is not JSON");
            let id = v["property"].as_str().expect("no property").to_string();
            let subname = v["sub"].as_str().expect("no sub").to_string();
            let prop = props.into_iter().map(|p| p()).find(|p| p.id == id).expect("unknown property");
            let sub = prop.subs.iter().find(|s| s.name() == subname).expect("unknown sub");
            match sub.replay(&v["case"]) {
                Ok(()) => println!("replay: held"),
                Err(Fail(m)) => {
                    println!("replay: FAILED: {m}");
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: run ID | worker ID DIR | replay FILE | list");
            std::process::exit(2);
        }
    }
}

fn supervise(id: &str, tier: Tier) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let limit = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(tier.pick(820, 4 * 3600));
    let run = |args: &[&str], limit: u64, capture: bool| -> Option<(std::process::ExitStatus, String)> {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("TMPDIR", &dir);
        if capture {
            c.stdout(std::process::Stdio::piped());
        }
        let mut ch = c.spawn().unwrap();
        let start = Instant::now();
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break st;
            }
            if start.elapsed().as_secs() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        let mut s = String::new();
        if capture {
            use std::io::Read;
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
        }
        Some((st, s))
    };
    let res = run(&["worker", id, dir.to_str().unwrap()], limit, false);
    let code = match res {
        None => {
            println!("INCONCLUSIVE property={id}: time limit of {limit}s reached");
            3
        }
        Some((st, _)) => {
            if let Some(c) = st.code() {
                c
            } else {
                // killed by a signal: attribute it to a recorded case, which must reproduce
                let sig = st.signal().unwrap_or(0);
                println!("worker ended by signal {sig}");
                let mut code = 5;
                if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
                    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
                        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.extension().is_some_and(|e| e == "case")).collect())
                        .unwrap_or_default();
                    files.sort();
                    for f in files {
                        let Some((sub, case)) = load_case(&f) else { continue };
                        let rp = write_replay(id, &sub, &case, &format!("process ended by signal {sig}"));
                        match run(&["replay", rp.to_str().unwrap()], 60, true) {
                            Some((st, _)) if st.signal().is_some() || st.code() == Some(1) => {
                                let rp = if st.signal().is_some() {
                                    let small = shrink_json(case, 45, |v| {
                                        let f = dir.join("shrink.json");
                                        let c = serde_json::json!({"property": id, "sub": &sub, "case": v});
                                        let _ = std::fs::write(&f, c.to_string());
                                        run(&["replay", f.to_str().unwrap()], 10, true).is_some_and(|(s, _)| s.signal().is_some())
                                    });
                                    let _ = std::fs::remove_file(&rp);
                                    write_replay(id, &sub, &small, &format!("process ended by signal {sig}"))
                                } else {
                                    rp
                                };
                                println!("VIOLATION property={id} replay={}", rp.display());
                                println!("  crash (signal {:?}) on the recorded case", st.signal());
                                code = 1;
                                break;
                            }
                            _ => {
                                let _ = std::fs::remove_file(&rp);
                            }
                        }
                    }
                    if code == 1 {
                        // the worker could not write its evidence: say so in a minimal file
                        write_min_evidence(id, tier, "the process under test crashed; see replay file", 1);
                    }
                }
                code
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

/// Shrinks a case that makes the process crash: drops elements from the arrays in it for as long as
/// the crash stays (a case that no longer has the right shape does not crash)
fn shrink_json(mut best: serde_json::Value, limit_s: u64, crashes: impl Fn(&serde_json::Value) -> bool) -> serde_json::Value {
    fn arrays(v: &serde_json::Value, at: &str, out: &mut Vec<(String, usize)>) {
        match v {
            serde_json::Value::Array(a) => {
                out.push((at.to_string(), a.len()));
                for (i, x) in a.iter().enumerate() {
                    arrays(x, &format!("{at}/{i}"), out);
                }
            }
            serde_json::Value::Object(o) => {
                for (k, x) in o {
                    arrays(x, &format!("{at}/{k}"), out);
                }
            }
            _ => {}
        }
    }
    let start = Instant::now();
    let mut changed = true;
    while changed {
        changed = false;
        let mut ars = vec![];
        arrays(&best, "", &mut ars);
        'outer: for (at, len) in ars {
            let mut step = len.next_power_of_two();
            while step > 0 {
                let mut i = 0;
                while i < len {
                    if start.elapsed().as_secs() > limit_s {
                        return best;
                    }
                    let mut c = best.clone();
                    if let Some(serde_json::Value::Array(a)) = c.pointer_mut(&at) {
                        a.drain(i..(i + step).min(len));
                    }
                    if crashes(&c) {
                        best = c;
                        changed = true;
                        break 'outer;
                    }
                    i += step;
                }
                step /= 2;
            }
        }
    }
    best
}

fn worker(prop: Prop, tier: Tier, seed: u64, crash_dir: PathBuf) -> i32 {
    let start = Instant::now();
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    let ctx = RunCtx { prop: prop.id, tier, seed, threads, scale, stop: AtomicBool::new(false), crash_dir: crash_dir.clone(), samples: 2 };
    let mut violations: Vec<(PathBuf, String, String)> = vec![];
    let mut replayed = 0u64;

    // known findings: still failing ones are reported by name and suppress only themselves
    let known = known_lines(prop.id);
    let mut known_cases = HashSet::new();
    for (p, what) in &known {
        let Some((sub, case)) = load_case(p) else {
            eprintln!("cannot read known finding {}", p.display());
            return 6;
        };
        known_cases.insert((sub.clone(), case.to_string()));
        if let Some(s) = prop.subs.iter().find(|s| s.name() == sub) {
            replayed += 1;
            if s.replay(&case).is_err() {
                println!("KNOWN-FINDING: property={} {}", prop.id, what);
            }
        }
    }
    // replay tier: saved inputs
    for p in replay_dir(prop.id) {
        let Some((sub, case)) = load_case(&p) else { continue };
        let Some(s) = prop.subs.iter().find(|s| s.name() == sub) else { continue };
        replayed += 1;
        // recorded as a crash candidate as well
        let cf = crash_dir.join("replay.0.case");
        let _ = std::fs::write(&cf, serde_json::json!({"sub": sub, "case": case}).to_string());
        if let Err(Fail(m)) = s.replay(&case) {
            if !m.starts_with("bad replay case") {
                let rp = write_replay(prop.id, &sub, &case, &m);
                violations.push((rp, sub, m));
            } else {
                eprintln!("{}: {m}", p.display());
            }
        }
        let _ = std::fs::remove_file(&cf);
    }

    let mut evaluations = replayed;
    let mut distinct = 0u64;
    let mut samples = vec![];
    let mut per_sub = serde_json::Map::new();
    if violations.is_empty() {
        for s in &prop.subs {
            if only.as_ref().is_some_and(|o| !s.name().contains(o.as_str())) {
                continue;
            }
            let o = s.run(&ctx);
            eprintln!("[{}] {}: {} cases, {} distinct non-trivial, {:.1}s", prop.id, s.name(), o.evaluations, o.distinct.len(), o.wall_s);
            evaluations += o.evaluations;
            distinct += o.distinct.len() as u64;
            per_sub.insert(
                s.name().to_string(),
                serde_json::json!({"evaluations": o.evaluations, "nontrivial": o.nontrivial, "distinct_nontrivial": o.distinct.len(), "classes": o.labels, "wall_s": (o.wall_s * 100.0).round() / 100.0}),
            );
            samples.extend(o.samples);
            if let Some(f) = o.failure {
                if known_cases.contains(&(f.sub.clone(), f.case.to_string())) {
                    ctx.stop.store(false, Ordering::Relaxed);
                    continue;
                }
                let rp = write_replay(prop.id, &f.sub, &f.case, &f.msg);
                violations.push((rp, f.sub, f.msg));
                break;
            }
        }
    }
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": tier.pick("quick", "thorough"),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "replayed_saved_inputs": replayed,
            "sub_checks": per_sub,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let p = evdir.join(format!("{}.json", prop.id));
    let mut f = std::fs::File::create(&p).expect("cannot write evidence");
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    if violations.is_empty() {
        println!("OK property={} evaluations={evaluations} distinct_nontrivial={distinct} wall={:.1}s", prop.id, start.elapsed().as_secs_f64());
        0
    } else {
        for (rp, sub, msg) in &violations {
            println!("VIOLATION property={} replay={}", prop.id, rp.display());
            println!("  sub-check {sub}: {}", msg.chars().take(2000).collect::<String>());
        }
        1
    }
}

/// Helper to box a strategy
pub fn bx<C: std::fmt::Debug + 'static>(s: impl Strategy<Value = C> + 'static) -> BoxedStrategy<C> {
    s.boxed()
}
