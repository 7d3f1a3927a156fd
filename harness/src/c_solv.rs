//! C23: the incremental simulator over a one-shot solver, with injected faults
//! C24: solvers called as external executables
use crate::common::*;
use crate::stub::StubSolver;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::solvers::simulators::Incremental;
use rustsat::solvers::*;
use rustsat::types::{Cl, Clause, Lit, TernaryVal};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vcore::sat::Dpll;
use vcore::*;

// ---------------------------------------------------------------- one-shot solver

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Hit {
    Interrupt,
    Error,
    /// an addition failed
    Add,
}
#[derive(Default)]
struct Plan {
    /// solve calls at which to fail (true: error, false: interrupt)
    solves: Vec<(usize, bool)>,
    /// additions at which to fail
    adds: Vec<usize>,
    n_solves: usize,
    n_adds: usize,
    hit: Vec<Hit>,
    misuse: Option<String>,
    inits: usize,
}
thread_local! {
    static PLAN: RefCell<Plan> = RefCell::default();
}

/// Solves once, and nothing more can be done with it afterwards
#[derive(Debug)]
pub struct OneShot {
    inner: Inner,
    done: bool,
}
struct Inner(StubSolver);
impl std::fmt::Debug for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stub")
    }
}
impl Default for OneShot {
    fn default() -> Self {
        PLAN.with(|p| p.borrow_mut().inits += 1);
        OneShot { inner: Inner(StubSolver::default()), done: false }
    }
}
impl Extend<Clause> for OneShot {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
        for c in iter {
            Solve::add_clause(self, c).unwrap();
        }
    }
}
impl<'a> Extend<&'a Clause> for OneShot {
    fn extend<T: IntoIterator<Item = &'a Clause>>(&mut self, iter: T) {
        for c in iter {
            self.add_clause_ref(c).unwrap();
        }
    }
}
impl OneShot {
    fn misuse(&self, what: &str) -> anyhow::Error {
        PLAN.with(|p| p.borrow_mut().misuse = Some(what.to_string()));
        StateError { required_state: SolverState::Input, actual_state: self.inner.0.state }.into()
    }
}
impl Solve for OneShot {
    fn signature(&self) -> &'static str {
        "one-shot"
    }
    fn solve(&mut self) -> anyhow::Result<SolverResult> {
        if self.done {
            return Err(self.misuse("solve after solve"));
        }
        self.done = true;
        let f = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            p.n_solves += 1;
            let n = p.n_solves;
            let f = p.solves.iter().find(|(k, _)| *k == n).map(|x| x.1);
            if let Some(e) = f {
                p.hit.push(if e { Hit::Error } else { Hit::Interrupt });
            }
            f
        });
        match f {
            Some(true) => anyhow::bail!("injected"),
            Some(false) => {
                self.inner.0.state = SolverState::Unknown;
                Ok(SolverResult::Interrupted)
            }
            None => self.inner.0.solve(),
        }
    }
    fn lit_val(&self, lit: Lit) -> anyhow::Result<TernaryVal> {
        self.inner.0.lit_val(lit)
    }
    fn add_clause_ref<C>(&mut self, clause: &C) -> anyhow::Result<()>
    where
        C: AsRef<Cl> + ?Sized,
    {
        if self.done {
            return Err(self.misuse("clause added after solve"));
        }
        let f = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            p.n_adds += 1;
            let n = p.n_adds;
            let f = p.adds.contains(&n);
            if f {
                p.hit.push(Hit::Add);
            }
            f
        });
        if f {
            anyhow::bail!("injected");
        }
        self.inner.0.add_clause_ref(clause)
    }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(u8, Vec<Vec<i32>>),
    Solve,
    Assume(Vec<i32>),
    Core,
    Val(i32),
    Sol(i32),
    Full,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
    solves: Vec<(usize, bool)>,
    adds: Vec<usize>,
    prefer: Vec<i32>,
}

#[derive(Clone, Debug, PartialEq)]
enum Last {
    Open,
    Sat(Vec<i32>),
    Unsat(Vec<i32>),
    Unknown,
}

fn state_err(e: &anyhow::Error) -> bool {
    e.downcast_ref::<StateError>().is_some()
}

fn vals_ok(val: &dyn Fn(i32) -> Result<TernaryVal, Fail>, cls: &[Vec<i32>], assumps: &[i32]) -> CheckResult {
    let t = |l: i32| -> Result<bool, Fail> { Ok(val(l)? == TernaryVal::True) };
    for c in cls {
        let mut ok = false;
        for &l in c {
            ok |= t(l)? || c.contains(&-l);
        }
        ensure!(ok, "the solution does not satisfy clause {c:?}");
    }
    for &a in assumps {
        ensure!(t(a)?, "the solution does not satisfy assumption {a}");
    }
    Ok(())
}

fn check_sim(c: &Case, o: &mut Obs) -> CheckResult {
    PLAN.with(|p| *p.borrow_mut() = Plan { solves: c.solves.clone(), adds: c.adds.clone(), ..Plan::default() });
    crate::stub::PREFER.with(|p| *p.borrow_mut() = c.prefer.clone());
    let r = check_sim_inner(c, o);
    crate::stub::PREFER.with(|p| p.borrow_mut().clear());
    if let (Ok(()), Some(m)) = (&r, PLAN.with(|p| p.borrow_mut().misuse.take())) {
        fail!("the wrapped solver was misused: {m}");
    }
    r
}

fn check_sim_inner(c: &Case, o: &mut Obs) -> CheckResult {
    let mut s: Incremental<OneShot> = Incremental::default();
    let mut cls: Vec<Vec<i32>> = vec![];
    let mut last = Last::Open;
    let (mut n_sat, mut n_unsat, mut n_int, mut n_cls) = (0, 0, 0, 0);
    let mut maxv = 0;
    let take = || PLAN.with(|p| std::mem::take(&mut p.borrow_mut().hit));
    for (i, op) in c.ops.iter().enumerate() {
        let at = |e: String| Fail(format!("operation {i} ({op:?}): {e}"));
        macro_rules! chk {
            ($c:expr, $($t:tt)*) => { if !$c { return Err(at(format!($($t)*))); } };
        }
        macro_rules! answer {
            ($r:expr, $a:expr) => {{
                let a: Vec<i32> = $a;
                let hit = take();
                match $r {
                    Ok(SolverResult::Interrupted) => {
                        chk!(hit.contains(&Hit::Interrupt), "interrupted, but the wrapped solver was not");
                        n_int += 1;
                        last = Last::Unknown;
                        o.label("interrupted");
                    }
                    Ok(SolverResult::Sat) => {
                        chk!(hit.is_empty(), "{hit:?} of the wrapped solver turned into an answer");
                        chk!(Dpll::new(&cls).sat(&a), "satisfiable, but there is no solution");
                        let val = |l: i32| s.lit_val(lit(l)).map_err(|e| Fail(format!("no value of {l}: {e}")));
                        vals_ok(&val, &cls, &a).map_err(|f| at(f.0))?;
                        n_sat += 1;
                        last = Last::Sat(a);
                    }
                    Ok(SolverResult::Unsat) => {
                        chk!(hit.is_empty(), "{hit:?} of the wrapped solver turned into an answer");
                        chk!(!Dpll::new(&cls).sat(&a), "unsatisfiable, but there is a solution");
                        n_unsat += 1;
                        last = Last::Unsat(a);
                    }
                    Err(e) => {
                        chk!(hit.contains(&Hit::Error) || hit.contains(&Hit::Add), "error {e:#}, but the wrapped solver made none");
                        last = Last::Unknown;
                        o.label("error");
                    }
                }
            }};
        }
        match op {
            Op::Add(how, v) => {
                // one at a time so that a failure is attributed to a clause
                for x in v {
                    let r = match how {
                        0 => s.add_clause(clause(x)),
                        1 => s.add_clause_ref(&clause(x)),
                        2 => {
                            let r: &Cl = &clause(x);
                            s.add_clause_ref(r)
                        }
                        3 if x.len() == 1 => s.add_unit(lit(x[0])),
                        3 if x.len() == 2 => s.add_binary(lit(x[0]), lit(x[1])),
                        3 if x.len() == 3 => s.add_ternary(lit(x[0]), lit(x[1]), lit(x[2])),
                        3 => s.add_cnf(cnf(std::slice::from_ref(x))),
                        _ => s.add_cnf_ref(&cnf(std::slice::from_ref(x))),
                    };
                    let hit = take();
                    match r {
                        Ok(()) => {
                            chk!(hit.is_empty(), "addition of {x:?} succeeded although the wrapped solver refused it");
                            cls.push(x.clone());
                            maxv = maxv.max(max_var_cls(std::slice::from_ref(x)));
                            n_cls += 1;
                            last = Last::Open;
                        }
                        Err(e) => {
                            chk!(!hit.is_empty(), "error {e:#}, but the wrapped solver made none");
                                last = Last::Unknown;
                            o.label("error");
                        }
                    }
                }
            }
            Op::Solve => {
                let cached = match &last {
                    Last::Sat(_) => Some(SolverResult::Sat),
                    Last::Unsat(a) if a.is_empty() => Some(SolverResult::Unsat),
                    _ => None,
                };
                let before = (n_sat, n_unsat);
                let (l0, r) = (last.clone(), s.solve());
                if PLAN.with(|p| p.borrow().hit.is_empty()) && cached.is_some() {
                    chk!(r.as_ref().ok() == cached.as_ref(), "{r:?} instead of {cached:?}");
                }
                // an answer already known need not be computed again
                answer!(r, vec![]);
                if cached.is_some() {
                    let st = s.stats();
                    if (st.n_sat, st.n_unsat) == before {
                        (n_sat, n_unsat) = before;
                        last = l0;
                    }
                }
            }
            Op::Assume(a) => {
                let ls: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
                let r = s.solve_assumps(&ls);
                answer!(r, a.clone());
            }
            Op::Core => match (s.core(), &last) {
                (Ok(core), Last::Unsat(a)) => {
                    let neg: Vec<i32> = core.iter().map(|&l| -ilit(l)).collect();
                    chk!(neg.iter().all(|l| a.contains(l)), "core {neg:?} is not a subset of the assumptions {a:?}");
                    chk!(!Dpll::new(&cls).sat(&neg), "core {neg:?} is not unsatisfiable");
                    o.label("core");
                }
                (Ok(c), l) => return Err(at(format!("core {c:?} in state {l:?}"))),
                (Err(e), Last::Unsat(_)) => return Err(at(format!("no core: {e:#}"))),
                (Err(e), _) => chk!(state_err(&e), "{e:#} is not a state error"),
            },
            Op::Val(l) => match (s.lit_val(lit(*l)), s.var_val(var(l.abs())), s.lit_val(lit(-*l)), &last) {
                (Ok(v), Ok(w), Ok(n), Last::Sat(_)) => {
                    chk!(n == -v, "values {v:?} and {n:?} of complementary literals");
                    chk!(w == if *l > 0 { v } else { n }, "value {w:?} of the variable, {v:?} of the literal");
                }
                (Err(e), Err(f), Err(_), l) if !matches!(l, Last::Sat(_)) => chk!(state_err(&e) && state_err(&f), "{e:#} is not a state error"),
                (x, ..) => return Err(at(format!("{x:?} in state {last:?}"))),
            },
            Op::Sol(_) | Op::Full => {
                let (r, high) = if let Op::Sol(v) = op { (s.solution(var(*v)), *v) } else { (s.full_solution(), maxv) };
                match (r, &last) {
                    (Ok(a), Last::Sat(_)) => {
                        for v in 1..=high {
                            let w = s.lit_val(lit(v)).map_err(|e| at(format!("{e:#}")))?;
                            chk!(a.lit_value(lit(v)) == w, "solution has {:?}, the solver {w:?} for {v}", a.lit_value(lit(v)));
                        }
                        chk!((high + 1..high + 9).all(|v| a.lit_value(lit(v)) == TernaryVal::DontCare), "solution beyond the asked variable {high}");
                    }
                    (Err(e), l) if !matches!(l, Last::Sat(_)) => chk!(state_err(&e), "{e:#} is not a state error"),
                    (r, l) => return Err(at(format!("{r:?} in state {l:?}"))),
                }
            }
        }
        let st = s.stats();
        chk!((st.n_sat, st.n_unsat, st.n_terminated) == (n_sat, n_unsat, n_int), "statistics {st:?}, expected {n_sat} {n_unsat} {n_int}");
        chk!(s.n_sat_solves() == n_sat && s.n_unsat_solves() == n_unsat && s.n_terminated() == n_int && s.n_solves() == n_sat + n_unsat + n_int, "statistics accessors");
        {
            chk!(st.n_clauses == n_cls && s.n_clauses() == n_cls, "{} clauses counted, {n_cls} added", st.n_clauses);
            chk!(st.max_var.map_or(0, |v| v.idx32() as i32 + 1) == maxv, "maximum variable {:?}, expected {maxv}", st.max_var);
            let avg = if n_cls == 0 { 0. } else { cls.iter().map(Vec::len).sum::<usize>() as f32 / n_cls as f32 };
            chk!((st.avg_clause_len - avg).abs() < 1e-3, "average clause length {}, expected {avg}", st.avg_clause_len);
        }
    }
    if n_sat + n_unsat >= 2 {
        o.nontrivial();
    }
    o.count("satisfiable", n_sat as u64);
    o.count("unsatisfiable", n_unsat as u64);
    Ok(())
}

fn s_sim(n: i32, len: usize) -> BoxedStrategy<Case> {
    let cl = || vec(prop_oneof![6 => s_lits_distinct(n, 1, 3), 1 => vec(s_lit(n), 0..=3)], 1..=6);
    let op = prop_oneof![
        4 => (0..5u8, cl()).prop_map(|(h, c)| Op::Add(h, c)),
        3 => Just(Op::Solve),
        5 => s_lits(n, 0, 4).prop_map(Op::Assume),
        2 => Just(Op::Core),
        2 => s_lit(n).prop_map(Op::Val),
        1 => (1..=n + 2).prop_map(Op::Sol),
        1 => Just(Op::Full),
    ];
    let faults = prop_oneof![
        2 => Just((vec![], vec![])),
        1 => (vec((1..8usize, any::<bool>()), 0..=2), Just(vec![])),
        1 => (vec((1..8usize, any::<bool>()), 0..=2), vec(1..60usize, 0..=3)),
    ];
    (vec(op, 1..=len), faults, vec(s_lit(n), 0..=3)).prop_map(|(ops, (solves, adds), prefer)| Case { ops, solves, adds, prefer }).boxed()
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "at least two answered queries in the history",
        assumptions: vec!["the harness's CDCL solver decides each query correctly (its models are re-checked)"],
        subs: vec![sub("history", 300_000, 5_000_000, |t| s_sim(6, t.pick(14, 20)), check_sim)],
    }
}

// ---------------------------------------------------------------- C24

/// What the stand-in for a solver executable does
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    /// how many literals per v-line
    per_line: usize,
    /// the s-line comes after the values
    s_last: bool,
    /// values of variables that the clauses do not need are left out
    partial: bool,
    comments: Vec<String>,
    /// kilobytes of comments: before reading, after the answer
    noise: (u16, u16),
    /// what goes wrong
    fault: Fault,
    exit: u8,
    prefer: Vec<i32>,
    /// a line may have nothing but a literal like `11`, which is also a line for two variables in
    /// the format of the MaxSAT Evaluation (a known finding)
    #[serde(default)]
    lone: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    None,
    Unknown(bool),
    NoStatus,
    NoValues,
    BadStatus(String),
    /// conflicting values
    Conflict(i32),
    /// not a number among the values
    BadValue(String),
    Exit(u8),
    /// ends itself by a signal, before or after answering
    Kill(bool),
    /// answers without reading the whole input
    NoRead,
    /// the executable does not exist
    NoExe,
    /// the input or output file cannot be written
    NoFile,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtCase {
    cls: Vec<Vec<i32>>,
    how: u8,
    /// 0: temporary file, 1: file, 2: pipe
    input: u8,
    first: bool,
    ext: u8,
    outfile: bool,
    env: bool,
    cwd: bool,
    script: Script,
}
#[derive(Serialize, Deserialize, Default, Debug)]
struct Report {
    header: Option<(usize, usize)>,
    cls: Vec<Vec<i32>>,
    problems: Vec<String>,
    path: Option<String>,
    env: Option<String>,
    cwd: String,
    answer: Option<Vec<i32>>,
}

fn read_dimacs(t: &str, r: &mut Report) {
    let mut cur = vec![];
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            None | Some(&"c") => continue,
            Some(&"p") => {
                if r.header.is_some() || w.len() != 4 || w[1] != "cnf" {
                    r.problems.push(format!("line {l:?}"));
                    continue;
                }
                r.header = w[2].parse().ok().zip(w[3].parse().ok());
            }
            _ => {
                if r.header.is_none() {
                    r.problems.push("clause before the header".into());
                }
                for x in w {
                    match x.parse::<i32>() {
                        Ok(0) => r.cls.push(std::mem::take(&mut cur)),
                        Ok(x) => cur.push(x),
                        Err(_) => r.problems.push(format!("token {x:?}")),
                    }
                }
            }
        }
    }
    if !cur.is_empty() {
        r.problems.push("incomplete clause".into());
    }
}

/// The executable: `<exe> [instance] fake-solver DIR [instance]`
pub fn fake_solver(args: &[String]) -> ! {
    use std::io::{Read, Write};
    let k = args.iter().position(|a| a == "fake-solver").unwrap();
    let dir = std::path::PathBuf::from(&args[k + 1]);
    let path = if k == 1 { args.get(k + 2) } else { args.get(1) };
    let sc: Script = serde_json::from_slice(&std::fs::read(dir.join("script.json")).unwrap()).unwrap();
    let mut r = Report { path: path.cloned(), env: std::env::var("VERIF_FAKE").ok(), cwd: std::env::current_dir().unwrap().display().to_string(), ..Report::default() };
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let noise = |out: &mut dyn Write, kb: u16| {
        for i in 0..u32::from(kb) * 16 {
            let _ = writeln!(out, "c {i:>60}");
        }
        let _ = out.flush();
    };
    noise(&mut out, sc.noise.0);
    let mut bytes = vec![];
    match path {
        _ if sc.fault == Fault::NoRead => (),
        None => {
            std::io::stdin().read_to_end(&mut bytes).unwrap();
        }
        Some(p) => {
            let prog = [("gz", "gzip"), ("bz2", "bzip2"), ("xz", "xz")].into_iter().find(|(e, _)| p.ends_with(&format!(".{e}")));
            bytes = match prog {
                Some((_, prog)) => std::process::Command::new(prog).args(["-dc", p]).output().unwrap().stdout,
                None => std::fs::read(p).unwrap_or_default(),
            };
        }
    }
    if k + 2 + usize::from(k == 1 && path.is_some()) != args.len() {
        r.problems.push(format!("arguments {args:?}"));
    }
    read_dimacs(&String::from_utf8_lossy(&bytes), &mut r);
    if let Fault::Kill(false) = sc.fault {
        unsafe { libc::raise(libc::SIGKILL) };
    }
    let mut d = Dpll::new(&r.cls);
    let mut m = d.solve(&[]);
    if m.is_some() {
        let mut want = vec![];
        for &l in &sc.prefer {
            want.push(l);
            match d.solve(&want) {
                Some(x) => m = Some(x),
                None => {
                    want.pop();
                }
            }
        }
    }
    let nv = r.header.map_or(0, |h| h.0 as i32);
    let lits: Option<Vec<i32>> = m.map(|m| {
        let v = |v: i32| m.get(v as usize).copied().unwrap_or(0);
        let mut s: Vec<i32> = (1..=nv).filter(|&x| !sc.partial || v(x) != 0).map(|x| if v(x) == 1 { x } else { -x }).collect();
        if sc.partial {
            // leave out what no clause needs
            for x in (0..s.len()).rev() {
                let mut t = s.clone();
                t.remove(x);
                if r.cls.iter().all(|c| c.iter().any(|l| t.contains(l))) {
                    s = t;
                }
            }
        }
        s
    });
    r.answer.clone_from(&lits);
    std::fs::write(dir.join("report.json"), serde_json::to_vec(&r).unwrap()).unwrap();
    for c in &sc.comments {
        let _ = writeln!(out, "c {c}");
    }
    let status = match &sc.fault {
        Fault::Unknown(a) => Some(if *a { "s UNKNOWN".into() } else { "s INDETERMINATE".into() }),
        Fault::NoStatus => None,
        Fault::BadStatus(s) => Some(format!("s {s}")),
        _ => Some(if lits.is_some() { "s SATISFIABLE".to_string() } else { "s UNSATISFIABLE".into() }),
    };
    let values = |out: &mut dyn Write| {
        if sc.fault == Fault::NoValues || matches!(sc.fault, Fault::Unknown(_)) {
            return;
        }
        let Some(l) = &lits else { return };
        let mut w: Vec<String> = l.iter().map(i32::to_string).collect();
        match &sc.fault {
            Fault::Conflict(v) => {
                w.insert(0, v.to_string());
                w.push((-v).to_string());
            }
            Fault::BadValue(s) => w.insert(w.len() / 2, s.clone()),
            _ => (),
        }
        w.push("0".into());
        for ch in w.chunks(sc.per_line.max(1)) {
            let end = if !sc.lone && ch.len() == 1 && ch[0] != "0" && ch[0].chars().all(|c| c == '0' || c == '1') { " 0" } else { "" };
            let _ = writeln!(out, "v {}{end}", ch.join(" "));
        }
    };
    if sc.s_last {
        values(&mut out);
    }
    if let Some(s) = status {
        let _ = writeln!(out, "{s}");
    }
    if !sc.s_last {
        values(&mut out);
    }
    let _ = out.flush();
    noise(&mut out, sc.noise.1);
    drop(out);
    if let Fault::Kill(true) = sc.fault {
        unsafe { libc::raise(libc::SIGKILL) };
    }
    std::process::exit(match sc.fault {
        Fault::Exit(c) => i32::from(c),
        Fault::Unknown(_) | Fault::NoStatus => 0,
        _ => [0, 10, 20][usize::from(sc.exit % 3)],
    })
}

fn check_ext(c: &ExtCase, o: &mut Obs) -> CheckResult {
    use rustsat::solvers::external::{InputVia, OutputVia};
    let tmp = tempfile::tempdir().unwrap();
    let dir = tmp.path().canonicalize().unwrap();
    std::fs::write(dir.join("script.json"), serde_json::to_vec(&c.script).unwrap()).unwrap();
    let nofile = c.script.fault == Fault::NoFile;
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(if c.script.fault == Fault::NoExe { dir.join("nothing") } else { exe });
    cmd.arg("fake-solver").arg(&dir);
    if c.env {
        cmd.env("VERIF_FAKE", "some value");
    }
    if c.cwd {
        cmd.current_dir(&dir);
    }
    cmd.stderr(std::process::Stdio::null());
    let infile = if nofile { dir.join("missing/in.cnf") } else { dir.join(["in.cnf", "in.cnf.gz", "in.cnf.bz2", "in.cnf.xz", "in put"][usize::from(c.ext % 5)]) };
    let input = match (c.input % 3, c.first) {
        (0, true) => InputVia::tempfile_first(),
        (0, false) => InputVia::tempfile_last(),
        (1, true) => InputVia::file_first(&infile),
        (1, false) => InputVia::file_last(&infile),
        _ => InputVia::pipe(),
    };
    let outfile = if nofile { dir.join("missing/out.txt") } else { dir.join("out.txt") };
    let output = if c.outfile { OutputVia::file(&outfile) } else { OutputVia::pipe() };
    let mut s = if c.input % 3 == 0 && !c.first && !c.outfile && c.how % 2 == 0 { ExternalSolver::new_default(cmd, "fake") } else { ExternalSolver::new(cmd, input, output, "fake") };
    ensure!(s.signature() == "fake", "signature");
    // before solving, there is no solution
    ensure!(s.lit_val(lit(1)).is_err_and(|e| state_err(&e)) && s.solution(var(1)).is_err_and(|e| state_err(&e)), "a solution before solving");
    match c.how % 4 {
        0 => s.extend(c.cls.iter().map(|x| clause(x))),
        1 => s.extend(&c.cls.iter().map(|x| clause(x)).collect::<Vec<_>>()),
        2 => s.add_cnf(cnf(&c.cls)).map_err(|e| Fail(format!("{e:#}")))?,
        _ => {
            for x in &c.cls {
                s.add_clause_ref(&clause(x)).map_err(|e| Fail(format!("{e:#}")))?;
            }
        }
    }
    let r = s.solve();
    let rep: Option<Report> = std::fs::read(dir.join("report.json")).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let sat = Dpll::new(&c.cls).sat(&[]);
    let maxv = max_var_cls(&c.cls);
    let kind = ["temporary file", "file", "pipe"][usize::from(c.input % 3)];
    if let Some(rep) = &rep {
        if c.script.fault != Fault::NoRead {
            ensure!(rep.problems.is_empty(), "the solver was given {:?}", rep.problems);
            ensure!(rep.cls == c.cls, "the solver was given the clauses {:?}", rep.cls);
            ensure!(rep.header == Some((maxv as usize, c.cls.len())), "the solver was given the header {:?} for {maxv} variables and {} clauses", rep.header, c.cls.len());
        }
        ensure!(rep.env.as_deref() == c.env.then_some("some value"), "environment of the solver: {:?}", rep.env);
        if c.cwd {
            ensure!(rep.cwd == dir.display().to_string(), "the solver ran in {:?}", rep.cwd);
        }
        match (&rep.path, c.input % 3) {
            (Some(p), 0) => ensure!(!std::path::Path::new(p).exists() , "the temporary file {p} was left behind"),
            (Some(p), 1) => ensure!(*p == infile.display().to_string() && infile.exists(), "the instance was passed as {p}"),
            (None, 2) => (),
            (p, _) => fail!("the instance was passed as {p:?} via {kind}"),
        }
    }
    let must_fail = match &c.script.fault {
        Fault::None | Fault::Unknown(_) => false,
        Fault::NoValues | Fault::Conflict(_) | Fault::BadValue(_) => sat,
        Fault::NoFile => c.input % 3 == 1 || c.outfile,
        Fault::NoRead => false,
        Fault::Exit(x) => ![0, 10, 20].contains(x),
        _ => true,
    };
    let may_fail = must_fail || c.script.fault == Fault::NoRead;
    o.label(format!("{kind}, {}", if must_fail { "fault" } else { "no fault" }));
    match r {
        Err(e) => {
            ensure!(may_fail, "error {e:#}");
            ensure!(!e.to_string().is_empty(), "error without a message");
        }
        Ok(r) => {
            ensure!(!must_fail, "{r:?} despite {:?}", c.script.fault);
            let Some(rep) = &rep else { fail!("{r:?} without running the solver") };
            let want = match (&c.script.fault, &rep.answer) {
                (Fault::Unknown(_), _) => SolverResult::Interrupted,
                (_, Some(_)) => SolverResult::Sat,
                (_, None) => SolverResult::Unsat,
            };
            ensure!(r == want, "{r:?}, but the solver said {want:?}");
            if c.script.fault == Fault::None {
                ensure!((r == SolverResult::Sat) == sat, "{r:?} for clauses that are {}satisfiable", if sat { "" } else { "un" });
            }
            if r == SolverResult::Sat {
                let a = rep.answer.as_ref().unwrap();
                for v in 1..=maxv + 3 {
                    let want = if a.contains(&v) {
                        TernaryVal::True
                    } else if a.contains(&-v) {
                        TernaryVal::False
                    } else {
                        TernaryVal::DontCare
                    };
                    let got = s.lit_val(lit(v)).map_err(|e| Fail(format!("{e:#}")))?;
                    ensure!(got == want, "variable {v} is {got:?}, but the solver said {want:?}");
                    ensure!(s.lit_val(lit(-v)).ok() == Some(-want) && s.var_val(var(v)).ok() == Some(want), "value of literal {}", -v);
                }
                for h in 1..=maxv + 2 {
                    let x = s.solution(var(h)).map_err(|e| Fail(format!("{e:#}")))?;
                    for v in 1..=maxv + 3 {
                        let want = if v <= h { s.lit_val(lit(v)).unwrap() } else { TernaryVal::DontCare };
                        ensure!(x.lit_value(lit(v)) == want, "solution up to {h}: variable {v} is {:?} instead of {want:?}", x.lit_value(lit(v)));
                    }
                }
            } else {
                ensure!(s.lit_val(lit(1)).is_err_and(|e| state_err(&e)) && s.solution(var(1)).is_err_and(|e| state_err(&e)), "a solution after {r:?}");
            }
            if maxv > 2 && c.cls.len() > 2 {
                o.nontrivial();
            }
            if c.outfile {
                let t = std::fs::read_to_string(&outfile).unwrap_or_default();
                ensure!(t.lines().any(|l| l.starts_with("s ")), "the output file does not have the output");
            }
        }
    }
    // nothing can be done with it afterwards
    ensure!(s.solve().is_err_and(|e| state_err(&e)), "solve was called twice");
    ensure!(s.add_clause(clause(&[1])).is_err_and(|e| state_err(&e)), "a clause was added after solving");
    Ok(())
}

fn s_ext() -> BoxedStrategy<ExtCase> {
    let cls = prop_oneof![
        3 => vec(s_lits_distinct(6, 1, 3), 0..=14),
        1 => vec(vec(s_lit(6), 0..=3), 0..=6),
        1 => (vec(s_lits_distinct(40, 2, 4), 0..=60), 0..30i32).prop_map(|(v, k)| v.into_iter().map(|c| c.into_iter().map(|l| l + l.signum() * k * k).collect()).collect()),
        1 => vec(s_lits_distinct(50, 3, 3), 3000..=6000),
    ];
    let word = prop_oneof![Just("x".to_string()), Just("1.5".to_string()), Just("--1".to_string()), Just("99999999999999999999".to_string()), Just("é".to_string())];
    let fault = prop_oneof![
        12 => Just(Fault::None),
        2 => any::<bool>().prop_map(Fault::Unknown),
        1 => Just(Fault::NoStatus),
        1 => Just(Fault::NoValues),
        1 => prop_oneof![Just(String::new()), Just("SAT".to_string()), Just("satisfiable".to_string()), Just("OPTIMUM FOUND".to_string())].prop_map(Fault::BadStatus),
        1 => s_lit(6).prop_map(Fault::Conflict),
        1 => word.prop_map(Fault::BadValue),
        2 => any::<u8>().prop_map(Fault::Exit),
        2 => any::<bool>().prop_map(Fault::Kill),
        1 => Just(Fault::NoRead),
        1 => Just(Fault::NoExe),
        1 => Just(Fault::NoFile),
    ];
    let noise = || prop_oneof![6 => Just(0u16), 1 => 1..200u16];
    let script = (1..20usize, any::<bool>(), any::<bool>(), vec("[ -~]{0,20}", 0..3), (noise(), noise()), fault, 0..3u8, vec(s_lit(6), 0..4))
        .prop_map(|(per_line, s_last, partial, comments, noise, fault, exit, prefer)| Script { per_line, s_last, partial, comments, noise, fault, exit, prefer, lone: false });
    (cls, 0..4u8, 0..3u8, any::<bool>(), 0..5u8, any::<bool>(), any::<bool>(), any::<bool>(), script)
        .prop_map(|(cls, how, input, first, ext, outfile, env, cwd, script)| ExtCase { cls, how, input, first, ext, outfile, env, cwd, script })
        .boxed()
}

/// Real solvers, where they are installed
fn check_real(c: &(Vec<Vec<i32>>, u8, u8, bool), o: &mut Obs) -> CheckResult {
    use rustsat::solvers::external::{InputVia, OutputVia};
    let (cls, which, input, outfile) = c;
    let (exe, args): (&str, &[&str]) = [("cadical", &["-q"][..]), ("kissat", &["-q"][..]), ("cadical", &[][..]), ("kissat", &[][..])][usize::from(which % 4)];
    let Some(path) = ["/usr/bin", "/usr/local/bin"].iter().map(|d| format!("{d}/{exe}")).find(|p| std::path::Path::new(p).exists()) else {
        o.label(format!("{exe} is not installed"));
        return Ok(());
    };
    let dir = tempfile::tempdir().unwrap();
    let mut cmd = std::process::Command::new(path);
    cmd.args(args);
    let input = match input % 5 {
        0 => InputVia::tempfile_first(),
        1 => InputVia::tempfile_last(),
        2 => InputVia::file_first(dir.path().join("a.cnf")),
        3 => InputVia::file_last(dir.path().join("a.cnf.gz")),
        _ => InputVia::pipe(),
    };
    let output = if *outfile { OutputVia::file(dir.path().join("out")) } else { OutputVia::pipe() };
    let mut s = ExternalSolver::new(cmd, input, output, "real");
    s.add_cnf(cnf(cls)).map_err(|e| Fail(format!("{e:#}")))?;
    let r = s.solve().map_err(|e| Fail(format!("error {e:#}")))?;
    let sat = Dpll::new(cls).sat(&[]);
    ensure!(r == if sat { SolverResult::Sat } else { SolverResult::Unsat }, "{r:?}, but the clauses are {}satisfiable", if sat { "" } else { "un" });
    if sat {
        vals_ok(&|l| s.lit_val(lit(l)).map_err(|e| Fail(format!("{e:#}"))), cls, &[])?;
    }
    o.nontrivial();
    o.label(format!("{exe} {r:?}"));
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "the executable answered for more than two variables and clauses",
        assumptions: vec!["the harness's CDCL solver decides satisfiability correctly (its models are re-checked)"],
        subs: vec![
            sub("scripted", 12_000, 150_000, |_| s_ext(), check_ext),
            sub("lone-literals", 0, 0, |_| s_ext(), check_ext),
            sub("installed", 1_500, 20_000, |_| (prop_oneof![vec(s_lits_distinct(6, 1, 3), 1..=20), vec(s_lits_distinct(40, 2, 3), 40..=180)], 0..4u8, 0..5u8, any::<bool>()).boxed(), check_real),
        ],
    }
}
