//! Proof tracing of CaDiCaL: everything reported to an attached tracer is checked against the calls
//! made and against a proof checker of the harness
use crate::common::*;
use crate::hist::{s_add, s_assumps};
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::solvers::{Solve, SolveIncremental, SolverResult};
use rustsat::types::Lit;
use rustsat_cadical::{CaDiCaL, CaDiCaLAssignment, CaDiCaLClause, ClauseId, Conclusion, ProofFormat, TraceProof};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use vcore::sat::Dpll;
use vcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(Vec<Vec<i32>>),
    Solve,
    Assume(Vec<i32>),
    Tmp(Vec<i32>),
    Simplify(u32),
    /// look at the result, which makes the solver conclude
    Look,
    /// disconnect the tracer and connect a new one
    Reconnect,
    /// try to disconnect from another solver
    WrongSolver,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: u8,
    pub ants: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
enum Ev {
    Orig(i64, bool, Vec<i32>, bool),
    Derived(i64, Vec<i32>, Vec<i64>),
    Delete(i64, Vec<i32>),
    Weaken(i64, Vec<i32>),
    Status(SolverResult, i64),
    Query,
    Assump(i32),
    Constraint(Vec<i32>),
    Reset,
    AssumpClause(i64, Vec<i32>, Vec<i64>),
    Unsat(Conclusion, Vec<i64>),
    Sat(Vec<i32>),
    Equiv(i32, i32),
}

struct Tr(Arc<Mutex<Vec<Ev>>>, u32);

fn cl(c: &CaDiCaLClause) -> Vec<i32> {
    let v: Vec<i32> = c.iter().map(ilit).collect();
    assert_eq!(v.len(), c.len());
    assert_eq!(c.is_empty(), v.is_empty());
    assert_eq!(icl(&c.to_owned()), v);
    v
}
fn ids(a: &[ClauseId]) -> Vec<i64> {
    a.iter().map(|i| i.0).collect()
}

impl Tr {
    fn ev(&self, e: Ev) {
        self.0.lock().unwrap().push(e);
    }
}

impl TraceProof for Tr {
    fn add_original_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, restored: bool) {
        self.ev(Ev::Orig(id.0, redundant, cl(clause), restored));
    }
    fn add_derived_clause(&mut self, id: ClauseId, _: bool, clause: &CaDiCaLClause, antecedents: &[ClauseId]) {
        self.ev(Ev::Derived(id.0, cl(clause), ids(antecedents)));
    }
    fn delete_clause(&mut self, id: ClauseId, _: bool, clause: &CaDiCaLClause) {
        self.ev(Ev::Delete(id.0, cl(clause)));
    }
    fn weaken_minus(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.ev(Ev::Weaken(id.0, cl(clause)));
    }
    fn report_status(&mut self, status: SolverResult, id: ClauseId) {
        self.ev(Ev::Status(status, id.0));
    }
    fn solve_query(&mut self) {
        self.ev(Ev::Query);
    }
    fn add_assumption(&mut self, a: Lit) {
        self.ev(Ev::Assump(ilit(a)));
    }
    fn add_constraint(&mut self, c: &CaDiCaLClause) {
        self.ev(Ev::Constraint(cl(c)));
    }
    fn reset_assumptions(&mut self) {
        self.ev(Ev::Reset);
    }
    fn add_assumption_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause, antecedents: &[ClauseId]) {
        self.ev(Ev::AssumpClause(id.0, cl(clause), ids(antecedents)));
    }
    fn conclude_unsat(&mut self, c: Conclusion, failing: &[ClauseId]) {
        self.ev(Ev::Unsat(c, ids(failing)));
    }
    fn conclude_sat(&mut self, s: &CaDiCaLAssignment) {
        let v: Vec<i32> = s.iter().map(ilit).collect();
        assert_eq!(v.len(), s.len());
        self.ev(Ev::Sat(v));
    }
    fn notify_equivalence(&mut self, a: Lit, b: Lit) {
        self.ev(Ev::Equiv(ilit(a), ilit(b)));
    }
}

fn set(c: &[i32]) -> BTreeSet<i32> {
    c.iter().copied().collect()
}

/// Does assuming the negation of `c` and propagating only the antecedents give a conflict
fn rup(c: &[i32], ants: &[&Vec<i32>]) -> bool {
    let mut t: BTreeSet<i32> = BTreeSet::new();
    for &l in c {
        if t.contains(&l) {
            return true; // tautology
        }
        t.insert(-l);
    }
    loop {
        let mut ch = false;
        for a in ants {
            if a.iter().any(|l| t.contains(l)) {
                continue;
            }
            let free: BTreeSet<i32> = a.iter().copied().filter(|l| !t.contains(&-l)).collect();
            match free.len() {
                0 => return true,
                1 => {
                    t.insert(*free.first().unwrap());
                    ch = true;
                }
                _ => {}
            }
        }
        if !ch {
            return false;
        }
    }
}

#[derive(Default)]
struct Db {
    live: BTreeMap<i64, Vec<i32>>,
    /// clauses removed that may come back
    weakened: BTreeMap<i64, Vec<i32>>,
    assump_cls: BTreeMap<i64, Vec<i32>>,
    seen: BTreeSet<i64>,
    orig: usize,
}

struct St {
    cls: Vec<Vec<i32>>,
    maxv: i32,
    /// clauses the solver had before the tracer was connected
    before: usize,
    assumps: Vec<i32>,
    tmp: Option<Vec<i32>>,
    ants: bool,
    derived: u64,
    concl: u64,
    reconnected: bool,
}

fn events(evs: Vec<Ev>, db: &mut Db, st: &mut St, result: Option<SolverResult>) -> CheckResult {
    let mut statuses = vec![];
    for e in evs {
        match &e {
            Ev::Orig(id, red, c, restored) => {
                ensure!(!red, "original clause {c:?} reported as redundant");
                if *restored {
                    if !st.reconnected {
                        let w = db.weakened.remove(id);
                        ensure!(w.as_ref().is_some_and(|w| set(w) == set(c)), "restored clause {id} {c:?} was weakened as {w:?}");
                    }
                    db.live.insert(*id, c.clone());
                    continue;
                }
                ensure!(db.seen.insert(*id), "id {id} is used twice");
                let Some(want) = st.cls.get(st.before + db.orig) else { fail!("original clause {c:?} reported, but not added") };
                ensure!(set(want) == set(c), "original clause {c:?} reported, but {want:?} was added");
                db.orig += 1;
                db.live.insert(*id, c.clone());
            }
            Ev::Derived(id, c, ants) => {
                ensure!(db.seen.insert(*id), "id {id} is used twice");
                st.derived += 1;
                if c.iter().all(|l| l.abs() <= st.maxv) && st.cls.len() < 40 {
                    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
                    ensure!(!Dpll::new(&st.cls).sat(&neg), "derived clause {c:?} is not entailed");
                }
                if st.ants && !st.reconnected && !ants.is_empty() {
                    let mut a = vec![];
                    for i in ants {
                        let Some(x) = db.live.get(i) else { fail!("antecedent {i} of derived clause {id} {c:?} is not a clause of the proof") };
                        a.push(x);
                    }
                    ensure!(rup(c, &a), "derived clause {id} {c:?} does not follow from its antecedents {a:?}");
                }
                db.live.insert(*id, c.clone());
            }
            Ev::Delete(id, c) | Ev::Weaken(id, c) => {
                let weak = matches!(e, Ev::Weaken(..));
                if !st.reconnected {
                    let Some(x) = db.live.get(id) else { fail!("clause {id} {c:?} deleted or weakened, but not part of the proof") };
                    ensure!(set(x) == set(c), "clause {id} is {x:?}, but reported as {c:?} when removing it");
                }
                if weak {
                    db.weakened.insert(*id, c.clone());
                } else {
                    db.live.remove(id);
                }
            }
            Ev::Status(r, id) => {
                statuses.push(*r);
                if *r == SolverResult::Unsat && *id > 0 && !st.reconnected {
                    let x = db.live.get(id);
                    ensure!(x.is_some_and(Vec::is_empty), "clause {id} given as empty clause is {x:?}");
                }
            }
            Ev::Query | Ev::Reset | Ev::Equiv(..) => {
                if let Ev::Equiv(a, b) = e {
                    if a.abs() <= st.maxv && b.abs() <= st.maxv {
                        ensure!(
                            !Dpll::new(&st.cls).sat(&[a, -b]) && !Dpll::new(&st.cls).sat(&[-a, b]),
                            "literals {a} and {b} reported as equivalent"
                        );
                    }
                }
            }
            Ev::Assump(a) => ensure!(st.assumps.contains(a), "assumption {a} reported, but only {:?} were made", st.assumps),
            Ev::Constraint(c) => ensure!(
                st.tmp.as_ref().is_some_and(|t| set(t) == set(c)),
                "temporary clause {c:?} reported instead of {:?}",
                st.tmp
            ),
            Ev::AssumpClause(id, c, ants) => {
                ensure!(db.seen.insert(*id), "id {id} is used twice");
                if st.tmp.is_none() {
                    ensure!(c.iter().all(|l| st.assumps.contains(&-l)), "clause {c:?} over the assumptions {:?}", st.assumps);
                }
                let neg: Vec<i32> = c.iter().map(|l| -l).collect();
                ensure!(!Dpll::new(&st.cls).sat(&neg), "clause {c:?} over the assumptions is not entailed");
                if st.ants && !st.reconnected && !ants.is_empty() {
                    let mut a = vec![];
                    for i in ants {
                        let Some(x) = db.live.get(i) else { fail!("antecedent {i} of {c:?} is not a clause of the proof") };
                        a.push(x);
                    }
                    ensure!(rup(c, &a), "clause {id} {c:?} does not follow from its antecedents {a:?}");
                }
                db.assump_cls.insert(*id, c.clone());
            }
            Ev::Unsat(c, f) => {
                st.concl += 1;
                match c {
                    Conclusion::Conflict => {
                        ensure!(!Dpll::new(&st.cls).sat(&[]), "concluded unsatisfiability of satisfiable clauses");
                        for i in f {
                            ensure!(st.reconnected || db.live.get(i).is_some_and(Vec::is_empty), "clause {i} is not the empty clause");
                        }
                    }
                    Conclusion::Assumptions => {
                        ensure!(!Dpll::new(&st.cls).sat(&st.assumps), "concluded conflicting assumptions");
                        ensure!(!f.is_empty(), "no failing clause in conclusion");
                        for i in f {
                            ensure!(db.assump_cls.contains_key(i), "clause {i} is not a clause over the assumptions");
                        }
                    }
                    Conclusion::Constraint => {
                        let mut v = st.cls.clone();
                        ensure!(st.tmp.is_some(), "concluded conflict with a temporary clause that does not exist");
                        v.extend(st.tmp.clone());
                        ensure!(!Dpll::new(&v).sat(&st.assumps), "concluded conflict with temporary clause");
                        for i in f {
                            ensure!(db.assump_cls.contains_key(i), "clause {i} is not a clause over the assumptions");
                        }
                    }
                }
            }
            Ev::Sat(m) => {
                st.concl += 1;
                let t = set(m);
                for v in 1..=st.maxv {
                    ensure!(t.contains(&v) != t.contains(&-v), "variable {v} in reported model {m:?}");
                }
                for c in &st.cls {
                    ensure!(c.iter().any(|l| t.contains(l)), "reported model {m:?} does not satisfy {c:?}");
                }
            }
        }
    }
    match result {
        Some(r) => ensure!(statuses == [r], "the call returned {r:?}, but the tracer got {statuses:?}"),
        None => ensure!(statuses.is_empty(), "status {statuses:?} reported without a query"),
    }
    Ok(())
}

pub fn check(c: &Case, o: &mut Obs) -> CheckResult {
    use rustsat_cadical::Config;
    let mut s: CaDiCaL<'static, 'static> = CaDiCaL::default();
    if c.cfg > 0 {
        s.set_configuration([Config::Default, Config::Plain, Config::Sat, Config::Unsat][usize::from(c.cfg - 1) % 4]).unwrap();
    }
    let log: Arc<Mutex<Vec<Ev>>> = Arc::default();
    let mut tag = 0u32;
    let mut h = Some(s.connect_proof_tracer(Tr(log.clone(), tag), c.ants));
    let mut db = Db::default();
    let mut st = St {
        cls: vec![],
        maxv: 0,
        before: 0,
        assumps: vec![],
        tmp: None,
        ants: c.ants,
        derived: 0,
        concl: 0,
        reconnected: false,
    };
    // whether the result of the last call is cached
    let mut last: Option<SolverResult> = None;
    let mut asked = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |f: Fail| Fail(format!("operation {i} ({op:?}): {}", f.0));
        let mut result = None;
        match op {
            Op::Add(cls) => {
                for x in cls {
                    st.cls.push(x.clone());
                    st.maxv = st.maxv.max(max_var_cls(&[x.clone()]));
                    s.add_clause(clause(x)).map_err(|e| Fail(format!("{e}")))?;
                }
                if !cls.is_empty() {
                    last = None;
                }
            }
            Op::Tmp(t) => {
                if t.is_empty() || st.tmp.is_some() {
                    continue;
                }
                st.maxv = st.maxv.max(max_var_cls(&[t.clone()]));
                st.tmp = Some(t.clone());
                s.add_tmp_clause(&clause(t)).map_err(|e| Fail(format!("{e}")))?;
                last = None;
            }
            Op::Solve | Op::Assume(_) => {
                let cached = matches!(op, Op::Solve) && last.is_some();
                if cached {
                    continue;
                }
                let a = if let Op::Assume(a) = op { a.clone() } else { vec![] };
                let ls: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
                st.maxv = st.maxv.max(a.iter().map(|l| l.abs()).max().unwrap_or(0));
                st.assumps = a;
                let r = if matches!(op, Op::Solve) { s.solve() } else { s.solve_assumps(&ls) };
                let r = r.map_err(|e| Fail(format!("{e}")))?;
                result = Some(r);
                last = Some(r);
                asked += 1;
                let mut v = st.cls.clone();
                v.extend(st.tmp.clone());
                let want = if Dpll::new(&v).sat(&st.assumps) { SolverResult::Sat } else { SolverResult::Unsat };
                ensure!(r == want, "operation {i} ({op:?}): {r:?} instead of {want:?}");
            }
            Op::Simplify(n) => {
                if last.is_some() || st.tmp.is_some() {
                    continue;
                }
                st.assumps = vec![];
                let r = s.simplify(*n).map_err(|e| Fail(format!("{e}")))?;
                result = Some(r);
                last = (r != SolverResult::Interrupted).then_some(r);
            }
            Op::Look => match last {
                Some(SolverResult::Sat) => {
                    if st.maxv > 0 {
                        s.lit_val(lit(1)).map_err(|e| Fail(format!("{e}")))?;
                    }
                }
                Some(SolverResult::Unsat) => {
                    s.core().map_err(|e| Fail(format!("{e}")))?;
                    s.tmp_clause_in_core().map_err(|e| Fail(format!("{e}")))?;
                }
                _ => continue,
            },
            Op::Reconnect => {
                let t = s.disconnect_proof_tracer(h.take().unwrap()).map_err(|e| at(Fail(format!("{e}"))))?;
                ensure!(t.1 == tag, "operation {i}: got tracer {} back instead of {tag}", t.1);
                drop(t);
                let rest: Vec<Ev> = std::mem::take(&mut *log.lock().unwrap());
                events(rest, &mut db, &mut st, None).map_err(at)?;
                ensure!(Arc::strong_count(&log) == 1, "operation {i}: a disconnected tracer is kept");
                tag += 1;
                st.before = st.cls.len();
                st.reconnected = true;
                db = Db::default();
                h = Some(s.connect_proof_tracer(Tr(log.clone(), tag), c.ants));
            }
            Op::WrongSolver => {
                let mut other: CaDiCaL<'static, 'static> = CaDiCaL::default();
                let r = other.disconnect_proof_tracer(h.take().unwrap());
                ensure!(r.is_err(), "operation {i}: disconnected a tracer from a solver it is not connected to");
                // the tracer must not be called after it is gone: use the solver
                let _ = s.solve();
                o.label("wrong solver");
                return Ok(());
            }
        }
        let evs: Vec<Ev> = std::mem::take(&mut *log.lock().unwrap());
        events(evs, &mut db, &mut st, result).map_err(at)?;
        if let Some(h) = &h {
            let m = s.proof_tracer_mut(h);
            ensure!(m.1 == tag, "operation {i}: connected tracer is {} instead of {tag}", m.1);
        }
        ensure!(
            st.before + db.orig == st.cls.len(),
            "operation {i} ({op:?}): {} clauses added, {} reported",
            st.cls.len() - st.before,
            db.orig
        );
        if matches!(op, Op::Solve | Op::Assume(_)) {
            st.tmp = None;
        }
        if result.is_some() && !matches!(op, Op::Simplify(_)) {
            // make the solver conclude under these assumptions
            let before = st.concl;
            let tmp = if let Some(Op::Tmp(t)) = c.ops[..i].iter().rev().find(|o| !matches!(o, Op::Look)) { Some(t.clone()) } else { None };
            let _ = (before, tmp);
        }
    }
    drop(s);
    drop(h);
    if asked > 0 && (st.derived > 0 || st.concl > 0) {
        o.nontrivial();
    }
    o.count("derived clauses", st.derived);
    o.count("conclusions", st.concl);
    Ok(())
}

pub fn s_trace(n: i32, len: usize, big: bool) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        12 => s_add(n, false).prop_map(Op::Add),
        3 => s_add(n, big).prop_map(Op::Add),
        6 => Just(Op::Solve),
        8 => s_assumps(n).prop_map(Op::Assume),
        4 => s_lits_distinct(n, 1, 3).prop_map(Op::Tmp),
        3 => (0..=2u32).prop_map(Op::Simplify),
        6 => Just(Op::Look),
        1 => Just(Op::Reconnect),
        1 => Just(Op::WrongSolver),
    ];
    (prop_oneof![2 => Just(0u8), 1 => 1..=4u8], any::<bool>(), vec(op, 2..=len))
        .prop_map(|(cfg, ants, ops)| Case { cfg, ants, ops })
        .boxed()
}

// ---------------------------------------------------------------------------------------------
// proofs written to files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    pub cls: Vec<Vec<i32>>,
    /// 0 DRAT, 1 binary DRAT, 2 LRAT, 3 binary LRAT
    pub fmt: u8,
}

/// Proof of unsatisfiability in a file: every line must follow by unit propagation (or, for DRAT, by
/// resolution on the first literal), and the empty clause must be derived
pub fn check_file(c: &FileCase, o: &mut Obs) -> CheckResult {
    let dir = tempfile::tempdir().unwrap();
    let p = dir.path().join("proof");
    let mut s: CaDiCaL<'static, 'static> = CaDiCaL::default();
    let fmt = match c.fmt % 4 {
        0 => ProofFormat::Drat { binary: false },
        1 => ProofFormat::Drat { binary: true },
        2 => ProofFormat::Lrat { binary: false },
        _ => ProofFormat::Lrat { binary: true },
    };
    s.trace_proof(&p, fmt).map_err(|e| Fail(format!("{e}")))?;
    for x in &c.cls {
        s.add_clause(clause(x)).map_err(|e| Fail(format!("{e}")))?;
    }
    let r = s.solve().map_err(|e| Fail(format!("{e}")))?;
    drop(s);
    let data = std::fs::read(&p).map_err(|e| Fail(format!("no proof written: {e}")))?;
    if std::env::var_os("VERIF_DUMP").is_some() {
        eprintln!("{}", String::from_utf8_lossy(&data));
    }
    if r != SolverResult::Unsat {
        ensure!(Dpll::new(&c.cls).sat(&[]), "{r:?} for unsatisfiable clauses");
        return Ok(());
    }
    o.nontrivial();
    o.label(["drat", "binary drat", "lrat", "binary lrat"][usize::from(c.fmt % 4)]);
    let steps = if c.fmt % 2 == 0 { parse_text(&data, c.fmt % 4 >= 2)? } else { parse_bin(&data, c.fmt % 4 >= 2)? };
    let mut db: Vec<Vec<i32>> = c.cls.clone();
    // clauses are numbered as they arrive, those CaDiCaL derives in between included
    let derived: BTreeSet<i64> = steps.iter().filter_map(|s| if let Step::Add(i, ..) = s { Some(*i) } else { None }).collect();
    let mut by_id: BTreeMap<i64, Vec<i32>> = (1..).filter(|i| !derived.contains(i)).zip(c.cls.iter().cloned()).collect();
    let mut empty = c.cls.iter().any(Vec::is_empty);
    let lrat = c.fmt % 4 >= 2;
    for (k, st) in steps.iter().enumerate() {
        match st {
            Step::Add(id, cl, ants) if lrat => {
                let mut a = vec![];
                let mut rat = false;
                for i in ants {
                    if *i < 0 {
                        rat = true;
                        continue;
                    }
                    let Some(x) = by_id.get(i) else { fail!("step {k}: antecedent {i} unknown") };
                    a.push(x);
                }
                ensure!(rat || rup(cl, &a), "step {k}: {cl:?} does not follow from its antecedents {a:?}");
                empty |= cl.is_empty();
                by_id.insert(*id, cl.clone());
            }
            Step::Add(_, cl, _) => {
                let all: Vec<&Vec<i32>> = db.iter().collect();
                let ok = rup(cl, &all)
                    || cl.first().is_some_and(|&p| {
                        db.iter().filter(|d| d.contains(&-p)).all(|d| {
                            let mut r = cl.clone();
                            r.extend(d.iter().copied().filter(|&l| l != -p));
                            rup(&r, &all)
                        })
                    });
                ensure!(ok, "step {k}: {cl:?} is not redundant");
                empty |= cl.is_empty();
                db.push(cl.clone());
            }
            Step::Del(cl) => {
                if let Some(i) = db.iter().position(|d| set(d) == set(cl)) {
                    db.swap_remove(i);
                } else {
                    fail!("step {k}: deleted clause {cl:?} does not exist");
                }
            }
            Step::DelIds(v) => {
                for i in v {
                    ensure!(by_id.remove(i).is_some(), "step {k}: deleted clause {i} does not exist");
                }
            }
        }
    }
    ensure!(empty, "the proof does not derive the empty clause ({} steps)", steps.len());
    o.count("steps", steps.len() as u64);
    Ok(())
}

enum Step {
    Add(i64, Vec<i32>, Vec<i64>),
    Del(Vec<i32>),
    DelIds(Vec<i64>),
}

fn parse_text(d: &[u8], lrat: bool) -> Result<Vec<Step>, Fail> {
    let t = std::str::from_utf8(d).map_err(|e| Fail(format!("text proof is not text: {e}")))?;
    let mut v = vec![];
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let num = |w: &[&str]| -> Result<Vec<i64>, Fail> { w.iter().map(|x| x.parse::<i64>().map_err(|_| Fail(format!("proof line {l:?}")))).collect() };
        if w.is_empty() || w[0] == "c" {
            continue;
        }
        if lrat {
            if w.get(1) == Some(&"d") {
                let n = num(&w[2..])?;
                v.push(Step::DelIds(n[..n.len() - 1].to_vec()));
            } else {
                let n = num(&w)?;
                let z = n.iter().position(|&x| x == 0).ok_or(Fail(format!("proof line {l:?}")))?;
                v.push(Step::Add(n[0], n[1..z].iter().map(|&x| x as i32).collect(), n[z + 1..n.len() - 1].to_vec()));
            }
        } else if w[0] == "d" {
            let n = num(&w[1..])?;
            v.push(Step::Del(n[..n.len() - 1].iter().map(|&x| x as i32).collect()));
        } else {
            let n = num(&w)?;
            v.push(Step::Add(0, n[..n.len() - 1].iter().map(|&x| x as i32).collect(), vec![]));
        }
    }
    Ok(v)
}

fn parse_bin(d: &[u8], lrat: bool) -> Result<Vec<Step>, Fail> {
    let mut i = 0;
    let mut v = vec![];
    let num = |i: &mut usize| -> Result<u64, Fail> {
        let (mut x, mut sh) = (0u64, 0);
        loop {
            let Some(&b) = d.get(*i) else { fail!("binary proof ends within a number") };
            *i += 1;
            x |= u64::from(b & 0x7f) << sh;
            sh += 7;
            if b & 0x80 == 0 {
                return Ok(x);
            }
        }
    };
    let signed = |x: u64| if x % 2 == 0 { (x / 2) as i64 } else { -((x / 2) as i64) };
    while i < d.len() {
        let t = d[i];
        i += 1;
        ensure!(t == b'a' || t == b'd', "byte {t} at the start of a step of a binary proof");
        let list = |i: &mut usize| -> Result<Vec<i64>, Fail> {
            let mut w = vec![];
            loop {
                let x = num(i)?;
                if x == 0 {
                    return Ok(w);
                }
                w.push(signed(x));
            }
        };
        if lrat {
            if t == b'a' {
                let id = signed(num(&mut i)?);
                let c = list(&mut i)?;
                let a = list(&mut i)?;
                v.push(Step::Add(id, c.iter().map(|&x| x as i32).collect(), a));
            } else {
                v.push(Step::DelIds(list(&mut i)?));
            }
        } else {
            let c: Vec<i32> = list(&mut i)?.iter().map(|&x| x as i32).collect();
            v.push(if t == b'a' { Step::Add(0, c, vec![]) } else { Step::Del(c) });
        }
    }
    Ok(v)
}

pub fn s_file(n: i32) -> BoxedStrategy<FileCase> {
    let m = n as usize * 5;
    let cls = prop_oneof![
        4 => vec(s_lits_distinct(n, 2, 3), m..=m * 2),
        1 => vec(s_lits_distinct(n, 1, 3), 5..=m),
        1 => vec(vec(s_lit(n), 0..=4), 1..=m),
        1 => (2..=4i32).prop_map(crate::hist::php),
    ];
    (cls, 0..4u8).prop_map(|(cls, fmt)| FileCase { cls, fmt }).boxed()
}
