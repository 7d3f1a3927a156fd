//! Histories of calls on a solver against a model that keeps the clauses and decides every query with
//! the harness's own solver
use crate::common::*;
use crate::slv::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::solvers::{ControlSignal, SolverResult, StateError, Terminate};
#[cfg(feature = "cadical")]
use rustsat::solvers::{FlipLit, Learn};
use rustsat::types::{Assignment, Lit, TernaryVal};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vcore::sat::Dpll;
use vcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(u8, Vec<Vec<i32>>),
    Solve,
    Assume(Vec<i32>),
    Vals(Vec<i32>),
    Solution(i32),
    Full,
    Core,
    Reserve(i32),
    Phase(i32),
    Unphase(i32),
    LimitConf(Option<u32>),
    LimitDec(Option<u32>),
    LimitProp(Option<u32>),
    Interrupt,
    Propagate(Vec<i32>, bool),
    Freeze(i32),
    Melt(i32),
    Stats,
    // CaDiCaL only
    Tmp(Vec<i32>),
    TmpInCore,
    Simplify(u32),
    SimplifyAssumps(Vec<i32>, u32),
    Flip(i32),
    AttachTerm(u32),
    DetachTerm,
    AttachLearn(u8),
    DetachLearn,
    Fixed(i32),
    Declare(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub cfg: u8,
    pub ops: Vec<Op>,
}

/// What the last query established
#[derive(Clone, Debug, PartialEq)]
enum Last {
    /// nothing asked since the last change
    Open,
    Sat(Vec<i32>, Option<Vec<i32>>),
    Unsat(Vec<i32>, Option<Vec<i32>>),
    Unknown,
    /// calls about whose effect on the state nothing is documented
    Any,
}

struct M {
    cls: Vec<Vec<i32>>,
    tmp: Option<Vec<i32>>,
    had_tmp: bool,
    last: Last,
    maxv: i32,
    lim: [bool; 3],
    intr: bool,
    term: bool,
    frozen: BTreeSet<i32>,
    solved: bool,
    /// a simplification that may eliminate variables was run
    simplified: bool,
    counts: [usize; 3],
    n_cls: usize,
    sum_len: usize,
}

impl M {
    fn see(&mut self, c: &[i32]) {
        for l in c {
            self.maxv = self.maxv.max(l.abs());
        }
    }
    fn with_tmp(&self, tmp: &Option<Vec<i32>>) -> Vec<Vec<i32>> {
        let mut v = self.cls.clone();
        v.extend(tmp.clone());
        v
    }
    fn may_stop(&self) -> bool {
        self.lim.iter().any(|&b| b) || self.intr || self.term
    }
}

fn is_state_err<T>(r: &R<T>) -> bool {
    matches!(r, Err(e) if e.downcast_ref::<StateError>().is_some())
}

/// Values of all known variables must be consistent and satisfy clauses, assumptions and temporary
/// clause
fn check_sat(s: &dyn Slv, m: &M, assumps: &[i32], tmp: &Option<Vec<i32>>) -> CheckResult {
    let mut val = vec![0i8; m.maxv as usize + 1];
    for v in 1..=m.maxv {
        let p = s.lit_val(lit(v)).map_err(|e| Fail(format!("lit_val({v}) failed in a satisfied state: {e}")))?;
        let n = s.lit_val(lit(-v)).map_err(|e| Fail(format!("lit_val({}) failed in a satisfied state: {e}", -v)))?;
        ensure!(p == !n, "lit_val({v}) is {p:?} but lit_val({}) is {n:?}", -v);
        let vv = s.var_val(var(v)).map_err(|e| Fail(format!("var_val({v}) failed in a satisfied state: {e}")))?;
        ensure!(p == vv, "lit_val({v}) is {p:?} but var_val is {vv:?}");
        val[v as usize] = match p {
            TernaryVal::True => 1,
            TernaryVal::False => -1,
            TernaryVal::DontCare => 0,
        };
    }
    check_vals(&val, &m.with_tmp(tmp), assumps)
}

fn check_vals(val: &[i8], cls: &[Vec<i32>], assumps: &[i32]) -> CheckResult {
    let t = |l: i32| val[l.unsigned_abs() as usize] == if l > 0 { 1 } else { -1 };
    for c in cls {
        ensure!(c.iter().any(|&l| t(l) || c.contains(&-l)), "the solution does not satisfy clause {c:?} (values {val:?})");
    }
    for &a in assumps {
        ensure!(t(a), "the solution does not satisfy assumption {a} (values {val:?})");
    }
    Ok(())
}

fn vals_of(a: &Assignment, n: i32) -> Vec<i8> {
    let mut v = vec![0];
    for i in 1..=n {
        v.push(match a.lit_value(lit(i)) {
            TernaryVal::True => 1,
            TernaryVal::False => -1,
            TernaryVal::DontCare => 0,
        });
    }
    v
}

/// Unit propagation of the clauses under the assumptions: `None` is a conflict
fn up(cls: &[Vec<i32>], assumps: &[i32]) -> Option<BTreeSet<i32>> {
    let mut t: BTreeSet<i32> = BTreeSet::new();
    for &a in assumps {
        if t.contains(&-a) {
            return None;
        }
        t.insert(a);
    }
    loop {
        let mut ch = false;
        for c in cls {
            if c.iter().any(|l| t.contains(l)) {
                continue;
            }
            let mut free: Vec<i32> = c.iter().copied().filter(|l| !t.contains(&-l)).collect();
            free.sort_unstable();
            free.dedup();
            if free.is_empty() {
                return None;
            }
            if free.len() == 1 {
                t.insert(free[0]);
                ch = true;
            }
        }
        if !ch {
            return Some(t);
        }
    }
}

fn entailed(cls: &[Vec<i32>], c: &[i32]) -> bool {
    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
    !Dpll::new(cls).sat(&neg)
}

#[derive(Default)]
struct TermLog {
    calls: AtomicU64,
    /// number of calls after which to terminate; 0 never
    after: AtomicU64,
    fired: AtomicU64,
}

pub fn check(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, o, false)
}

/// With `strict`, flipping is also checked where CaDiCaL is known not to keep its promise
pub fn check_with(c: &Case, o: &mut Obs, strict: bool) -> CheckResult {
    let mut s = make(c.kind, c.cfg);
    let s = &mut *s;
    let mut m = M {
        cls: vec![],
        tmp: None,
        had_tmp: false,
        last: Last::Open,
        maxv: 0,
        lim: [false; 3],
        intr: false,
        term: false,
        frozen: BTreeSet::new(),
        solved: false,
        simplified: false,
        counts: [0; 3],
        n_cls: 0,
        sum_len: 0,
    };
    let kissat = c.kind == Kind::Kissat;
    // solvers with variable elimination: eliminated variables may no longer be used
    let simp = matches!(c.kind, Kind::GlucoseSimp | Kind::MinisatSimp);
    let cad = c.kind == Kind::Cadical;
    let mut terms: Vec<Arc<TermLog>> = vec![];
    let learned: Arc<Mutex<Vec<Vec<i32>>>> = Arc::default();
    let mut learn_on: Option<usize> = None;
    let mut learners: Vec<Arc<AtomicU64>> = vec![];
    let (mut n_sat, mut n_unsat, mut n_core) = (0u64, 0u64, 0u64);

    for (i, op) in c.ops.iter().enumerate() {
        let at = |e: String| Fail(format!("operation {i} ({op:?}): {e}"));
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Err(at(format!("error: {e:#}"))),
                }
            };
        }
        macro_rules! chk {
            ($c:expr, $($t:tt)*) => { if !$c { return Err(at(format!($($t)*))); } };
        }
        // callbacks made during the last call into the solver
        macro_rules! callbacks {
            () => {{
                for cl in learned.lock().unwrap().drain(..) {
                    chk!(learn_on.is_some_and(|n| cl.len() <= n), "learner got clause {cl:?} longer than asked for");
                    chk!(entailed(&m.cls, &cl), "learned clause {cl:?} is not entailed");
                    o.count("learned clauses", 1);
                }
                for t in terms.iter().rev().skip(usize::from(m.term)) {
                    chk!(t.calls.load(Ordering::SeqCst) == 0, "a detached or replaced terminator was called");
                }
                for (k, l) in learners.iter().enumerate() {
                    let n = l.swap(0, Ordering::SeqCst);
                    chk!(n == 0 || (learn_on.is_some() && k + 1 == learners.len()), "a detached or replaced learner was called");
                }
                for t in &terms {
                    t.calls.store(0, Ordering::SeqCst);
                    t.fired.store(0, Ordering::SeqCst);
                }
            }};
        }
        // result of a query under assumptions: check it and update the model
        macro_rules! result {
            ($r:expr, $assumps:expr) => {{
                let r: SolverResult = $r;
                let assumps: Vec<i32> = $assumps;
                let tmp = m.tmp.take();
                let fired = terms.last().map_or(0, |t| t.fired.swap(0, Ordering::SeqCst)) > 0;
                match r {
                    SolverResult::Interrupted => {
                        chk!(m.may_stop(), "interrupted without a limit, terminator or interrupt");
                        if m.term && !m.intr && !m.lim.iter().any(|&b| b) {
                            chk!(fired, "interrupted although the terminator never asked for it");
                        }
                        m.last = Last::Unknown;
                        m.counts[2] += 1;
                        o.label("interrupted");
                    }
                    SolverResult::Sat => {
                        m.last = Last::Sat(assumps.clone(), tmp.clone());
                        m.counts[0] += 1;
                        n_sat += 1;
                        check_sat(s, &m, &assumps, &tmp).map_err(|f| at(format!("satisfiable: {}", f.0)))?;
                    }
                    SolverResult::Unsat => {
                        let cls = m.with_tmp(&tmp);
                        chk!(!Dpll::new(&cls).sat(&assumps), "unsatisfiable, but there is a solution");
                        m.last = Last::Unsat(assumps, tmp);
                        m.counts[1] += 1;
                        n_unsat += 1;
                    }
                }
                if cad {
                    // limits hold for one call only
                    m.lim = [false; 3];
                }
                m.intr = false;
                m.solved = true;
                callbacks!();
            }};
        }
        // skip literals over variables that preprocessing removed
        let usable = |s: &mut dyn Slv, ls: &[i32]| -> bool { !simp || ls.iter().all(|l| !s.eliminated(var(l.abs()))) };
        match op {
            Op::Add(how, cls) => {
                if !cls.iter().all(|c| usable(s, c)) || (cls.is_empty() && *how < 4) {
                    continue;
                }
                if kissat && !matches!(m.last, Last::Open) {
                    if cls.is_empty() || *how == 4 || *how == 5 {
                        continue;
                    }
                    chk!(is_state_err(&s.add(*how, cls)), "adding a clause after solving must be refused by this solver");
                    continue;
                }
                ok!(s.add(*how, cls));
                for c in cls {
                    m.see(c);
                    m.cls.push(c.clone());
                    m.n_cls += 1;
                    m.sum_len += c.len();
                }
                if !cls.is_empty() {
                    m.last = Last::Open;
                }
            }
            Op::Solve => {
                let cached = match &m.last {
                    Last::Sat(..) => true,
                    Last::Unsat(a, t) => a.is_empty() && t.is_none(),
                    _ => false,
                };
                let before = s.stats();
                if kissat && m.last == Last::Unknown {
                    chk!(is_state_err(&s.solve()), "solving again after an interrupted call must be refused by this solver");
                    continue;
                }
                // without assumptions, a solution found before under assumptions may be kept
                let kept = match &m.last {
                    Last::Sat(a, t) => Some((a.clone(), t.clone())),
                    _ => None,
                };
                let r = ok!(s.solve());
                let after = s.stats();
                if cached {
                    let want = if matches!(m.last, Last::Sat(..)) { SolverResult::Sat } else { SolverResult::Unsat };
                    chk!(r == want || r == SolverResult::Interrupted, "{r:?} but {want:?} just before");
                }
                let d = (after.n_sat - before.n_sat, after.n_unsat - before.n_unsat, after.n_terminated - before.n_terminated);
                if !matches!(m.last, Last::Sat(..) | Last::Unsat(..) | Last::Any) || d != (0, 0, 0) {
                    let want = (
                        usize::from(r == SolverResult::Sat),
                        usize::from(r == SolverResult::Unsat),
                        usize::from(r == SolverResult::Interrupted),
                    );
                    chk!(d == want, "result {r:?} changed the query statistics by {d:?}");
                }
                if let (SolverResult::Sat, Some((a, t))) = (r, kept) {
                    if d == (0, 0, 0) {
                        // still the old solution
                        check_sat(s, &m, &a, &t).map_err(|f| at(f.0))?;
                        continue;
                    }
                }
                let cache_hit = d == (0, 0, 0);
                let core_before = m.last.clone();
                let pending = (m.intr, m.lim);
                result!(r, vec![]);
                if cache_hit {
                    // limits and interrupts stay pending for the next call
                    (m.intr, m.lim) = pending;
                    if let (Last::Unsat(..), Last::Unsat(..)) = (&m.last, &core_before) {
                        m.last = Last::Unsat(vec![], None);
                    }
                }
            }
            Op::Assume(a) => {
                if !usable(s, a) {
                    continue;
                }
                let ls: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
                let before = s.stats();
                let Some(r) = s.assume(&ls) else { continue };
                let r = ok!(r);
                m.see(a);
                let after = s.stats();
                let d = (after.n_sat - before.n_sat, after.n_unsat - before.n_unsat, after.n_terminated - before.n_terminated);
                let want = (
                    usize::from(r == SolverResult::Sat),
                    usize::from(r == SolverResult::Unsat),
                    usize::from(r == SolverResult::Interrupted),
                );
                chk!(d == want, "result {r:?} changed the query statistics by {d:?}");
                result!(r, a.clone());
                if let Last::Unsat(a, t) = &m.last {
                    let core = match s.core() {
                        Some(core) => ok!(core),
                        None => continue,
                    };
                    n_core += 1;
                    check_core(s, &m, a, t, &core).map_err(|f| at(f.0))?;
                }
            }
            Op::Vals(ls) => match m.last.clone() {
                Last::Sat(a, t) => {
                    for &l in ls {
                        let p = ok!(s.lit_val(lit(l)));
                        let n = ok!(s.lit_val(lit(-l)));
                        chk!(p == !n, "lit_val({l}) is {p:?} but lit_val({}) is {n:?}", -l);
                    }
                    check_sat(s, &m, &a, &t).map_err(|f| at(f.0))?;
                }
                Last::Any => {
                    if !ls.is_empty() && s.lit_val(lit(ls[0])).is_ok() {
                        check_sat(s, &m, &[], &None).map_err(|f| at(f.0))?;
                    }
                }
                _ => {
                    for &l in ls {
                        chk!(is_state_err(&s.lit_val(lit(l))), "lit_val({l}) must be refused in this state");
                        chk!(is_state_err(&s.var_val(var(l.abs()))), "var_val must be refused in this state");
                    }
                }
            },
            Op::Solution(v) => match m.last.clone() {
                Last::Sat(a, t) => {
                    let sol = ok!(s.solution(var(*v)));
                    chk!(sol.len() == *v as usize, "solution up to variable {v} has {} variables", sol.len());
                    if *v >= m.maxv {
                        check_vals(&vals_of(&sol, m.maxv), &m.with_tmp(&t), &a).map_err(|f| at(f.0))?;
                    }
                }
                Last::Any => {}
                _ => chk!(is_state_err(&s.solution(var(*v))), "a solution must be refused in this state"),
            },
            Op::Full => match m.last.clone() {
                Last::Sat(a, t) => {
                    let sol = ok!(s.full());
                    chk!(sol.len() >= m.maxv as usize, "full solution has {} of {} variables", sol.len(), m.maxv);
                    check_vals(&vals_of(&sol, m.maxv), &m.with_tmp(&t), &a).map_err(|f| at(f.0))?;
                }
                Last::Any => {}
                _ => chk!(is_state_err(&s.full()), "a solution must be refused in this state"),
            },
            Op::Core => {
                let Some(r) = s.core() else { continue };
                match m.last.clone() {
                    Last::Unsat(a, t) => {
                        let core = ok!(r);
                        n_core += 1;
                        check_core(s, &m, &a, &t, &core).map_err(|f| at(f.0))?;
                    }
                    Last::Any => {}
                    _ => chk!(is_state_err(&r), "a core must be refused in this state"),
                }
            }
            Op::Reserve(v) => {
                if kissat && m.last == Last::Unknown {
                    continue;
                }
                let old = m.last.clone();
                ok!(s.reserve(var(*v)));
                // whether an answer is still available afterwards is not documented, but if so it
                // must be correct; asking again must work in any case
                match old {
                    Last::Sat(a, t) => {
                        if s.lit_val(lit(1)).is_ok() {
                            check_sat(s, &m, &a, &t).map_err(|f| at(f.0))?;
                            // also the reserved variables have consistent values
                            for l in [*v, -*v, *v / 2 + 1] {
                                let p = ok!(s.lit_val(lit(l)));
                                let n = ok!(s.lit_val(lit(-l)));
                                chk!(p == !n, "lit_val({l}) is {p:?} but lit_val({}) is {n:?}", -l);
                            }
                            m.last = Last::Sat(a, t);
                        } else {
                            m.last = Last::Open;
                        }
                    }
                    Last::Unsat(a, t) => {
                        m.last = match s.core() {
                            Some(Ok(_)) => Last::Unsat(a, t),
                            None => Last::Unsat(a, t),
                            _ => Last::Open,
                        };
                    }
                    l => m.last = l,
                }
                if kissat && !matches!(m.last, Last::Open) {
                    continue;
                }
            }
            Op::Phase(l) => {
                if !usable(s, &[*l]) {
                    continue;
                }
                if let Some(r) = s.phase(lit(*l)) {
                    ok!(r);
                }
            }
            Op::Unphase(v) => {
                if let Some(r) = s.unphase(var(*v)) {
                    ok!(r);
                }
            }
            Op::LimitConf(l) => {
                if let Some(r) = s.limit_conf(*l) {
                    ok!(r);
                    m.lim[0] = l.is_some();
                }
            }
            Op::LimitDec(l) => {
                if let Some(r) = s.limit_dec(*l) {
                    ok!(r);
                    m.lim[1] = l.is_some();
                }
            }
            Op::LimitProp(l) => {
                if let Some(r) = s.limit_prop(*l) {
                    ok!(r);
                    m.lim[2] = l.is_some();
                }
            }
            Op::Interrupt => {
                if s.interrupt() {
                    m.intr = true;
                }
            }
            Op::Propagate(a, ps) => {
                if !usable(s, a) || m.tmp.is_some() {
                    continue;
                }
                let ls: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
                let Some(r) = s.propagate(&ls, *ps) else { continue };
                let r = ok!(r);
                m.see(a);
                m.last = Last::Any;
                callbacks!();
                let mut d = Dpll::new(&m.cls);
                if r.conflict {
                    chk!(!d.sat(a), "propagation reports a conflict, but the assumptions can be extended to a solution");
                    o.label("propagation conflict");
                } else {
                    let props: Vec<i32> = r.propagated.iter().map(|&l| ilit(l)).collect();
                    for &p in &props {
                        let mut q = a.clone();
                        q.push(-p);
                        chk!(!d.sat(&q), "propagated literal {p} is not implied");
                    }
                    if !(cad && (m.solved || m.may_stop())) && !simp {
                        let Some(want) = up(&m.cls, a) else {
                            return Err(at(format!("propagation found no conflict, but there is one (propagated {props:?})")));
                        };
                        for w in want {
                            let free = !props.contains(&w);
                            // literals fixed by the clauses alone need not be reported
                            chk!(!free || !d.sat(&[-w]), "literal {w} is implied by propagation but not reported ({props:?})");
                        }
                    }
                    o.label("propagation");
                }
                if s.lit_val(lit(1)).is_ok() {
                    check_sat(s, &m, if r.conflict { &[] } else { a }, &None).map_err(|f| at(format!("after propagation: {}", f.0)))?;
                }
            }
            Op::Freeze(v) => {
                if m.frozen.contains(v) || !usable(s, &[*v]) {
                    continue;
                }
                if let Some(r) = s.freeze(var(*v)) {
                    ok!(r);
                    m.frozen.insert(*v);
                    chk!(ok!(s.is_frozen(var(*v)).unwrap()), "variable {v} is not frozen after freezing it");
                }
            }
            Op::Melt(v) => {
                if m.frozen.remove(v) {
                    ok!(s.melt(var(*v)).unwrap());
                    chk!(!ok!(s.is_frozen(var(*v)).unwrap()), "variable {v} is frozen after melting it");
                } else if let Some(r) = s.is_frozen(var(*v)) {
                    chk!(!ok!(r), "variable {v} is frozen, but was never frozen");
                }
            }
            Op::Stats => {
                let st = s.stats();
                let mx = st.max_var.map_or(0, |v| v.idx32() as i32 + 1);
                let in_cls = max_var_cls(&m.cls);
                chk!(mx >= in_cls, "highest variable {mx} is below {in_cls}, which occurs in a clause");
                if matches!(c.kind, Kind::Cadical | Kind::Kissat) {
                    chk!(st.n_clauses == m.n_cls, "{} clauses reported, {} added", st.n_clauses, m.n_cls);
                }
                if m.n_cls > 0 {
                    #[allow(clippy::cast_precision_loss)]
                    let want = m.sum_len as f32 / m.n_cls as f32;
                    chk!((st.avg_clause_len - want).abs() < 1e-3 * want.max(1.0), "average clause length {} instead of {want}", st.avg_clause_len);
                }
                if let Some((_, _, conf)) = s.internal() {
                    let _ = conf;
                }
            }
            #[cfg(feature = "cadical")]
            Op::Tmp(t) => {
                let Some(cd) = s.cadical() else { continue };
                if t.is_empty() {
                    continue;
                }
                ok!(cd.add_tmp_clause(&clause(t)));
                m.see(t);
                m.tmp = Some(t.clone());
                m.had_tmp = true;
                m.last = Last::Open;
                m.n_cls += 1;
                m.sum_len += t.len();
            }
            #[cfg(feature = "cadical")]
            Op::TmpInCore => {
                let Some(cd) = s.cadical() else { continue };
                let r = cd.tmp_clause_in_core();
                match &m.last {
                    Last::Unsat(a, t) => {
                        let inc = ok!(r);
                        if t.is_none() {
                            chk!(!inc, "temporary clause reported in the core, but there is none");
                        }
                        let _ = a;
                    }
                    Last::Any => {}
                    _ => chk!(is_state_err(&r), "tmp_clause_in_core must be refused in this state"),
                }
            }
            #[cfg(feature = "cadical")]
            Op::Simplify(r) => {
                let Some(cd) = s.cadical() else { continue };
                if m.tmp.is_some() {
                    continue;
                }
                let res = ok!(cd.simplify(*r));
                simplified(s, &mut m, res, &[], o).map_err(|f| at(f.0))?;
                callbacks!();
            }
            #[cfg(feature = "cadical")]
            Op::SimplifyAssumps(a, r) => {
                let Some(cd) = s.cadical() else { continue };
                if m.tmp.is_some() {
                    continue;
                }
                let ls: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
                let res = ok!(cd.simplify_assumps(&ls, *r));
                m.see(a);
                simplified(s, &mut m, res, a, o).map_err(|f| at(f.0))?;
                callbacks!();
                if let Last::Unsat(a, t) = &m.last {
                    let core = ok!(s.core().unwrap());
                    check_core(s, &m, a, t, &core).map_err(|f| at(f.0))?;
                }
            }
            #[cfg(feature = "cadical")]
            Op::Flip(l) => {
                let Some(cd) = s.cadical() else { continue };
                let q = cd.is_flippable(lit(*l));
                match m.last.clone() {
                    Last::Sat(a, t) => {
                        if l.abs() > m.maxv {
                            continue;
                        }
                        let can = ok!(q);
                        let before = ok!(s.lit_val(lit(*l)));
                        let done = ok!(s.cadical().unwrap().flip_lit(lit(*l)));
                        chk!(!done || can, "flipped although reported as not flippable");
                        let after = ok!(s.lit_val(lit(*l)));
                        // CaDiCaL certainly did not change the formula if its first call succeeded with a
                        // constant assignment (tried first, unless there is a temporary clause)
                        let lucky = |sign: i32| m.cls.iter().all(|c| c.iter().any(|x| x.signum() == sign));
                        let untouched = a.is_empty() && !m.had_tmp && !m.simplified && m.counts.iter().sum::<usize>() == 1 && (lucky(1) || lucky(-1));
                        let quiet = !strict && !untouched;
                        if done && untouched {
                            o.label("flipped in an unchanged formula");
                        }
                        chk!((before != after) == done || (done && quiet), "flip returned {done}, value before {before:?}, after {after:?}");
                        // assumptions and literals of the temporary clause (both only hold for the
                        // call) may be flipped, clauses remain satisfied
                        let t = t.filter(|t| !done || t.iter().all(|x| x.abs() != l.abs()));
                        let a: Vec<i32> = a.into_iter().filter(|x| x.abs() != l.abs()).collect();
                        check_sat(s, &m, &a, &t).map_err(|f| at(format!("after flipping: {}", f.0)))?;
                        if done {
                            o.label("flipped");
                            m.last = Last::Sat(a, t);
                        }
                    }
                    Last::Any => {}
                    _ => chk!(is_state_err(&q), "flipping must be refused in this state"),
                }
            }
            Op::AttachTerm(n) => {
                let log = Arc::new(TermLog::default());
                log.after.store(u64::from(*n), Ordering::SeqCst);
                let l2 = log.clone();
                let cb = move || {
                    let k = l2.calls.fetch_add(1, Ordering::SeqCst) + 1;
                    let a = l2.after.load(Ordering::SeqCst);
                    if a > 0 && k >= a {
                        l2.fired.fetch_add(1, Ordering::SeqCst);
                        ControlSignal::Terminate
                    } else {
                        ControlSignal::Continue
                    }
                };
                #[cfg(feature = "cadical")]
                let Some(cd) = s.cadical() else { continue };
                #[cfg(feature = "kissat")]
                let Some(cd) = s.kissat() else { continue };
                cd.attach_terminator(cb);
                terms.push(log);
                m.term = true;
            }
            Op::DetachTerm => {
                #[cfg(feature = "cadical")]
                let Some(cd) = s.cadical() else { continue };
                #[cfg(feature = "kissat")]
                let Some(cd) = s.kissat() else { continue };
                cd.detach_terminator();
                m.term = false;
            }
            #[cfg(feature = "cadical")]
            Op::AttachLearn(n) => {
                let Some(cd) = s.cadical() else { continue };
                // codes above 100: no limit in practice
                let n = match *n {
                    0..=100 => usize::from(*n),
                    101..=150 => (1usize << 31) + usize::from(*n),
                    _ => usize::MAX - usize::from(255 - *n),
                };
                let (l2, cnt) = (learned.clone(), Arc::new(AtomicU64::new(0)));
                let c2 = cnt.clone();
                cd.attach_learner(
                    move |cl| {
                        c2.fetch_add(1, Ordering::SeqCst);
                        let mut g = l2.lock().unwrap();
                        if g.len() < 30 {
                            g.push(icl(&cl));
                        }
                    },
                    n,
                );
                learners.push(cnt);
                learn_on = Some(n);
            }
            #[cfg(feature = "cadical")]
            Op::DetachLearn => {
                let Some(cd) = s.cadical() else { continue };
                cd.detach_learner();
                learn_on = None;
            }
            #[cfg(feature = "cadical")]
            Op::Fixed(l) => {
                let Some(cd) = s.cadical() else { continue };
                let p = cd.current_lit_val(lit(*l));
                let n = cd.current_lit_val(lit(-*l));
                chk!(p == !n, "root level value of {l} is {p:?}, of its negation {n:?}");
                match p {
                    TernaryVal::True => chk!(entailed(&m.cls, &[*l]), "literal {l} is reported as fixed but not implied"),
                    TernaryVal::False => chk!(entailed(&m.cls, &[-*l]), "literal {l} is reported as falsified but its negation not implied"),
                    TernaryVal::DontCare => {}
                }
            }
            #[cfg(feature = "cadical")]
            Op::Declare(n) => {
                let Some(cd) = s.cadical() else { continue };
                let before = rustsat::solvers::SolveStats::max_var(cd).map_or(0, |v| v.idx32() + 1);
                let v = cd.declare_more_variables(u32::from(*n));
                let after = rustsat::solvers::SolveStats::max_var(cd).map_or(0, |v| v.idx32() + 1);
                chk!(v.idx32() + 1 == after, "declared up to {v}, but the highest variable is {after}");
                chk!(after == before + u32::from(*n), "{n} variables declared, but the highest went from {before} to {after}");
                m.last = Last::Any;
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
        for v in &m.frozen {
            chk!(!s.eliminated(var(*v)), "frozen variable {v} was eliminated");
        }
    }
    if n_sat > 0 {
        o.count("satisfiable answers", n_sat);
    }
    if n_unsat > 0 {
        o.count("unsatisfiable answers", n_unsat);
    }
    if n_core > 0 {
        o.count("cores", n_core);
    }
    if n_sat + n_unsat >= if kissat { 1 } else { 2 } {
        o.nontrivial();
    }
    o.label(format!("{:?}", c.kind));
    Ok(())
}

fn check_core(s: &mut dyn Slv, m: &M, a: &[i32], t: &Option<Vec<i32>>, core: &[Lit]) -> CheckResult {
    let core: Vec<i32> = core.iter().map(|&l| ilit(l)).collect();
    for l in &core {
        ensure!(a.contains(&-l), "core {core:?} contains {l}, which is not a negated assumption of {a:?}");
    }
    let mut cls = m.cls.clone();
    #[cfg(feature = "cadical")]
    if let Some(t) = t {
        let Some(cd) = s.cadical() else { fail!("temporary clause on another solver") };
        let inc = cd.tmp_clause_in_core().map_err(|e| Fail(format!("tmp_clause_in_core: {e}")))?;
        if inc {
            cls.push(t.clone());
        }
    }
    ensure!(entailed(&cls, &core), "core {core:?} is not entailed");
    Ok(())
}

#[cfg(feature = "cadical")]
fn simplified(s: &mut dyn Slv, m: &mut M, r: SolverResult, a: &[i32], o: &mut Obs) -> CheckResult {
    m.solved = true;
    m.simplified = true;
    if !matches!(m.last, Last::Sat(..) | Last::Unsat(..) | Last::Any) {
        // otherwise the result may be known already, so that limits and interrupts stay pending
        m.lim = [false; 3];
        m.intr = false;
    }
    match r {
        SolverResult::Sat => {
            check_sat(s, m, a, &None).map_err(|f| Fail(format!("simplification found a solution: {}", f.0)))?;
            m.last = Last::Sat(a.to_vec(), None);
            o.label("simplify sat");
        }
        SolverResult::Unsat => {
            ensure!(!Dpll::new(&m.cls).sat(a), "simplification reports unsatisfiable, but there is a solution");
            m.last = Last::Unsat(a.to_vec(), None);
            o.label("simplify unsat");
        }
        SolverResult::Interrupted => m.last = Last::Unknown,
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// generators

pub fn s_assumps(n: i32) -> BoxedStrategy<Vec<i32>> {
    prop_oneof![
        4 => s_lits_distinct(n, 0, 5),
        1 => vec(s_lit(n), 0..=5),
        // a variable the solver has not seen
        1 => (s_lits_distinct(n, 0, 3), 1..=40i32, any::<bool>()).prop_map(move |(mut v, k, p)| {
            v.push(if p { n + k } else { -(n + k) });
            v
        }),
    ]
    .boxed()
}

/// clauses of one formula, with planted structure in some cases
pub fn s_add(n: i32, big: bool) -> BoxedStrategy<Vec<Vec<i32>>> {
    if big {
        let m = (n as usize) * 43 / 10;
        prop_oneof![
            3 => vec(s_lits_distinct(n, 3, 3), m * 8 / 10..=m + 4),
            1 => vec(s_lits_distinct(n, 2, 4), m / 2..=m),
            1 => vec(s_lits_distinct(n, 1, 3), 1..=6),
            // pigeons
            1 => (2..=6i32).prop_map(php),
        ]
        .boxed()
    } else {
        prop_oneof![
            6 => vec(s_lits_distinct(n, 1, 3), 0..=5),
            2 => vec(s_lits_distinct(n, 2, 3), 3..=12),
            1 => vec(vec(s_lit(n), 0..=4), 0..=4),
        ]
        .boxed()
    }
}

pub fn php(h: i32) -> Vec<Vec<i32>> {
    let x = |p: i32, k: i32| p * h + k + 1;
    let mut c = vec![];
    for p in 0..=h {
        c.push((0..h).map(|k| x(p, k)).collect());
    }
    for k in 0..h {
        for p in 0..=h {
            for q in 0..p {
                c.push(vec![-x(p, k), -x(q, k)]);
            }
        }
    }
    c
}

fn s_lim() -> BoxedStrategy<Option<u32>> {
    prop_oneof![2 => Just(None), 2 => (0..=40u32).prop_map(Some), 1 => (0..=3u32).prop_map(Some), 1 => Just(Some(100_000))].boxed()
}

pub fn s_op(n: i32, big: bool, cad: bool) -> BoxedStrategy<Op> {
    let any_lit = prop_oneof![4 => s_lit(n), 1 => s_lit(n + 60), 1 => s_lit(5_000_000)];
    let base = prop_oneof![
        12 => (0..=6u8, s_add(n, false)).prop_map(|(h, c)| Op::Add(h, c)),
        3 => (0..=6u8, s_add(n, big)).prop_map(|(h, c)| Op::Add(h, c)),
        8 => Just(Op::Solve),
        12 => s_assumps(n).prop_map(Op::Assume),
        4 => vec(any_lit, 1..=3).prop_map(Op::Vals),
        2 => (1..=n + 70).prop_map(Op::Solution),
        2 => Just(Op::Full),
        3 => Just(Op::Core),
        2 => (1..=n + 60).prop_map(Op::Reserve),
        2 => s_lit(n + 3).prop_map(Op::Phase),
        1 => (1..=n + 3).prop_map(Op::Unphase),
        2 => s_lim().prop_map(Op::LimitConf),
        1 => s_lim().prop_map(Op::LimitDec),
        2 => s_lim().prop_map(Op::LimitProp),
        2 => Just(Op::Interrupt),
        4 => (s_assumps(n), any::<bool>()).prop_map(|(a, p)| Op::Propagate(a, p)),
        3 => (1..=n + 2).prop_map(Op::Freeze),
        2 => (1..=n + 2).prop_map(Op::Melt),
        2 => Just(Op::Stats),
    ];
    if !cad {
        return base.boxed();
    }
    prop_oneof![
        50 => base,
        10 => s_lits_distinct(n, 1, 3).prop_map(Op::Tmp),
        3 => Just(Op::TmpInCore),
        5 => (0..=2u32).prop_map(Op::Simplify),
        5 => (s_assumps(n), 0..=2u32).prop_map(|(a, r)| Op::SimplifyAssumps(a, r)),
        6 => s_lit(n).prop_map(Op::Flip),
        3 => prop_oneof![Just(0u32), 1..=4u32].prop_map(Op::AttachTerm),
        2 => Just(Op::DetachTerm),
        3 => prop_oneof![5 => 0..=6u8, 1 => any::<u8>()].prop_map(Op::AttachLearn),
        2 => Just(Op::DetachLearn),
        3 => s_lit(n).prop_map(Op::Fixed),
        1 => (1..=3u8).prop_map(Op::Declare),
    ]
    .boxed()
}

pub fn s_case(kinds: &'static [Kind], n: i32, len: usize, big: bool, cad: bool) -> BoxedStrategy<Case> {
    (proptest::sample::select(kinds), prop_oneof![2 => Just(0u8), 1 => 1..=5u8], vec(s_op(n, big, cad), 2..=len))
        .prop_map(|(kind, cfg, ops)| Case { kind, cfg, ops })
        .boxed()
}
