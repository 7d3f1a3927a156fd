//! C32: the IPASIR bindings on a library that answers as the test wants

use crate::lib_stub::{inits, last, Ev, State};
use proptest::prelude::*;
use rustsat::instances::Cnf;
use rustsat::solvers::*;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use rustsat_ipasir::{InvalidApiReturn, IpasirSolver};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use vcore::sat::Dpll;
use vcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    polls: u32,
    lessons: Vec<Vec<i32>>,
    prefer: u64,
    lazy: bool,
    big_cores: bool,
    give_up: bool,
    bad: Option<(u8, i32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// how, clauses
    Add(u8, Vec<Vec<i32>>),
    Solve(Plan),
    SolveAssumps(Vec<i32>, Plan),
    Val(i32),
    VarVal(i32),
    Solution(u32),
    Full,
    Core,
    /// terminates at this call
    AttachTerm(u32),
    DetachTerm,
    AttachLearn(u64),
    DetachLearn,
    Move,
    Fresh,
    Reserve,
}

fn s_lit() -> BoxedStrategy<i32> {
    (prop_oneof![8 => 1i32..6, 1 => 6i32..12], any::<bool>()).prop_map(|(v, s)| if s { -v } else { v }).boxed()
}

fn s_clause() -> BoxedStrategy<Vec<i32>> {
    prop_oneof![
        12 => proptest::collection::vec(s_lit(), 1..4),
        1 => proptest::collection::vec(s_lit(), 0..8),
    ]
    .boxed()
}

fn s_plan() -> BoxedStrategy<Plan> {
    (
        0u32..4,
        proptest::collection::vec(prop_oneof![6 => s_clause(), 1 => Just(vec![i32::MAX, -i32::MAX])], 0..3),
        any::<u64>(),
        any::<bool>(),
        any::<bool>(),
        prop::bool::weighted(0.07),
        proptest::option::weighted(0.04, (0u8..3, prop_oneof![Just(1), Just(-1), Just(30), Just(2), Just(i32::MIN), Just(i32::MAX)])),
    )
        .prop_map(|(polls, lessons, prefer, lazy, big_cores, give_up, bad)| Plan { polls, lessons, prefer, lazy, big_cores, give_up, bad })
        .boxed()
}

fn s_hist(t: Tier) -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        8 => (0u8..9, proptest::collection::vec(s_clause(), 1..4)).prop_map(|(h, c)| Op::Add(h, c)),
        4 => s_plan().prop_map(Op::Solve),
        8 => (proptest::collection::vec(s_lit(), 0..5), s_plan()).prop_map(|(a, p)| Op::SolveAssumps(a, p)),
        2 => prop_oneof![6 => s_lit(), 1 => Just(i32::MAX), 1 => Just(-i32::MAX)].prop_map(Op::Val),
        2 => (1i32..14).prop_map(Op::VarVal),
        2 => (0u32..14).prop_map(Op::Solution),
        2 => Just(Op::Full),
        3 => Just(Op::Core),
        3 => (0u32..8).prop_map(Op::AttachTerm),
        1 => Just(Op::DetachTerm),
        3 => prop_oneof![4 => 0u64..4, 1 => Just(1000u64), 1 => Just(i32::MAX as u64), 1 => Just(1u64 << 31), 1 => Just(u64::MAX)].prop_map(Op::AttachLearn),
        1 => Just(Op::DetachLearn),
        1 => Just(Op::Move),
        1 => Just(Op::Fresh),
        1 => Just(Op::Reserve),
    ];
    proptest::collection::vec(op, 1..t.pick(16, 30)).boxed()
}

fn lit(l: i32) -> Lit {
    Lit::from_ipasir(l).unwrap()
}

fn cl(c: &[i32]) -> Clause {
    c.iter().map(|&l| lit(l)).collect()
}

/// clears a liveness flag in the library when a callback is dropped
struct Guard {
    st: Rc<RefCell<State>>,
    term: bool,
    id: u32,
    now: Rc<RefCell<u32>>,
}

impl Drop for Guard {
    fn drop(&mut self) {
        // the flag belongs to the callback attached last
        if *self.now.borrow() == self.id {
            let mut s = self.st.borrow_mut();
            if self.term {
                s.term_alive = false;
            } else {
                s.learn_alive = false;
            }
        }
    }
}

struct Model {
    st: Rc<RefCell<State>>,
    clauses: Vec<Vec<i32>>,
    state: SolverState,
    core: Vec<i32>,
    n: [usize; 3],
    max_var: Option<u32>,
    /// events of the log looked at
    seen: usize,
    term_k: Option<(u32, Rc<RefCell<u32>>)>,
    lessons: Option<(i64, Rc<RefCell<Vec<Clause>>>)>,
    term_id: Rc<RefCell<u32>>,
    learn_id: Rc<RefCell<u32>>,
}

fn new_model() -> Model {
    Model {
        st: last(),
        clauses: vec![],
        state: SolverState::Configuring,
        core: vec![],
        n: [0; 3],
        max_var: None,
        seen: 0,
        term_k: None,
        lessons: None,
        term_id: Rc::default(),
        learn_id: Rc::default(),
    }
}

impl Model {
    /// the clauses and solve calls that reached the library since the last look
    fn news(&mut self) -> Vec<Ev> {
        let s = self.st.borrow();
        let v = s.log[self.seen..].iter().filter(|e| matches!(e, Ev::Add(_) | Ev::Solve(_))).cloned().collect();
        self.seen = s.log.len();
        v
    }
}

fn state_err<T>(r: anyhow::Result<T>, need: SolverState, is: SolverState) -> CheckResult {
    match r {
        Ok(_) => fail!("a call that needs state {need:?} succeeds in state {is:?}"),
        Err(e) => {
            let Some(s) = e.downcast_ref::<StateError>() else { fail!("{e} instead of a state error") };
            ensure!(s.required_state == need && s.actual_state == is, "state error {s:?} in state {is:?}");
        }
    }
    Ok(())
}

/// values the library gives
fn check_vals(m: &Model, a: &Assignment, n: u32) -> CheckResult {
    for v in 1..=n as i32 {
        let l = lit(v);
        let want = match truth(m, v) {
            1 => TernaryVal::True,
            -1 => TernaryVal::False,
            _ => TernaryVal::DontCare,
        };
        ensure!(a.lit_value(l) == want, "the solution gives {v} the value {:?} instead of {want:?}", a.lit_value(l));
    }
    Ok(())
}

fn truth(m: &Model, l: i32) -> i8 {
    let h = Box::into_raw(Box::new(m.st.clone()));
    let n = m.st.borrow().log.len();
    let r = crate::lib_stub::ipasir_val(h, l);
    m.st.borrow_mut().log.truncate(n);
    drop(unsafe { Box::from_raw(h) });
    match r {
        0 => 0,
        x if x == l => 1,
        _ => -1,
    }
}

fn check_hist(ops: &Vec<Op>, o: &mut Obs) -> CheckResult {
    let before = inits();
    let mut solver = IpasirSolver::default();
    ensure!(inits() == before + 1, "{} solvers are created", inits() - before);
    let mut m = new_model();
    let (mut n_solves, mut cores) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        {
            let mut s = m.st.borrow_mut();
            s.polls = 0;
            s.lessons = vec![];
            s.bad = [None; 3];
            s.give_up = false;
        }
        let ctx = |e: Fail| Fail(format!("call {i}, {op:?}: {}", e.0));
        let go = step(op, &mut solver, &mut m, o, &mut n_solves, &mut cores).map_err(ctx)?;
        let b = m.st.borrow().breaches.clone();
        ensure!(b.is_empty(), "call {i}, {op:?}: {}", b.join("; "));
        if !go {
            o.label("the library failed");
            break;
        }
        // statistics
        let st = solver.stats();
        ensure!([st.n_sat, st.n_unsat, st.n_terminated] == m.n, "call {i}, {op:?}: counts of results are {:?}, expected {:?}", [st.n_sat, st.n_unsat, st.n_terminated], m.n);
        ensure!(st.n_clauses == m.clauses.len(), "call {i}, {op:?}: {} clauses counted, {} added", st.n_clauses, m.clauses.len());
        ensure!(st.max_var.map(|v| v.idx32()) == m.max_var, "call {i}, {op:?}: highest variable is {:?}", st.max_var);
        let len: usize = m.clauses.iter().map(Vec::len).sum();
        let avg = if m.clauses.is_empty() { 0. } else { len as f32 / m.clauses.len() as f32 };
        ensure!((st.avg_clause_len - avg).abs() < 1e-3, "call {i}, {op:?}: average clause length {} instead of {avg}", st.avg_clause_len);
    }
    drop(solver);
    let s = m.st.borrow();
    ensure!(s.released == 1, "the solver was released {} times", s.released);
    ensure!(s.breaches.is_empty(), "at the end: {}", s.breaches.join("; "));
    drop(s);
    if n_solves >= 2 {
        o.nontrivial();
    }
    if cores > 0 {
        o.label("with a core");
    }
    Ok(())
}

fn judge_solve(m: &mut Model, r: anyhow::Result<SolverResult>, assumps: &[i32], had: u32, polled: u32, plan: &Plan, cached: bool, o: &mut Obs) -> Result<bool, Fail> {
    let ev = m.news();
    if ev.is_empty() {
        ensure!(cached, "the library was not asked");
        let Ok(r) = r else { fail!("error although a result is known") };
        let want = if m.state == SolverState::Sat { SolverResult::Sat } else { SolverResult::Unsat };
        ensure!(r == want, "{r} although the result was {want}");
        return Ok(true);
    }
    ensure!(ev == [Ev::Solve(assumps.to_vec())], "instead of one call with {assumps:?} the library sees {ev:?}");
    if let Some((0, b)) = plan.bad {
        if m.st.borrow().bad[0].is_none() {
            let Err(e) = r else { fail!("value {b} of ipasir_solve is accepted") };
            ensure!(e.downcast_ref::<InvalidApiReturn>().is_some(), "unexpected error {e}");
            return Ok(false);
        }
    }
    if let Some((2, b)) = plan.bad {
        if m.st.borrow().bad[2].is_none() && b != 0 && b != 1 {
            let Err(e) = r else { fail!("value {b} of ipasir_failed is accepted") };
            ensure!(e.downcast_ref::<InvalidApiReturn>().is_some(), "unexpected error {e}");
            return Ok(false);
        }
    }
    let r = r.map_err(|e| Fail(format!("error {e}")))?;
    // the terminator is asked as often as the library polls, until it says so
    let mut stopped = plan.give_up;
    if let Some((k, cnt)) = &m.term_k {
        let first = had.max(*k);
        let until = if first < had + plan.polls {
            stopped = true;
            first + 1
        } else {
            had + plan.polls
        };
        ensure!(*cnt.borrow() == until, "the terminator was called {} times instead of {until}", *cnt.borrow());
    } else {
        ensure!(polled == 0, "a detached terminator was called");
    }
    if let Some((max, got)) = &m.lessons {
        let want: Vec<Clause> = plan.lessons.iter().filter(|c| c.len() as i64 <= *max).map(|c| cl(c)).collect();
        let got = std::mem::take(&mut *got.borrow_mut());
        ensure!(got == want, "the learner got {got:?} instead of {want:?}");
        if !want.is_empty() {
            o.label("learned clauses passed on");
        }
    }
    if stopped {
        ensure!(r == SolverResult::Interrupted, "{r} although the library was stopped");
        m.state = SolverState::Input;
        m.n[2] += 1;
        o.label("interrupted");
        return Ok(true);
    }
    let sat = Dpll::new(&m.clauses).solve(assumps).is_some();
    ensure!(r == if sat { SolverResult::Sat } else { SolverResult::Unsat }, "{r} with {assumps:?}");
    m.n[usize::from(!sat)] += 1;
    m.state = if sat { SolverState::Sat } else { SolverState::Unsat };
    m.core = assumps.to_vec();
    Ok(true)
}

fn step(op: &Op, solver: &mut IpasirSolver<'static, 'static>, m: &mut Model, o: &mut Obs, n_solves: &mut u32, cores: &mut u32) -> Result<bool, Fail> {
    let set = |m: &Model, p: &Plan| {
        let mut s = m.st.borrow_mut();
        s.polls = p.polls;
        s.lessons = p.lessons.clone();
        s.prefer = p.prefer;
        s.lazy = p.lazy;
        s.big_cores = p.big_cores;
        s.give_up = p.give_up;
        s.bad = [None; 3];
        if let Some((w, b)) = p.bad {
            // 0 and 1 are valid answers of ipasir_failed
            if w != 2 || (b != 0 && b != 1) {
                s.bad[w as usize] = Some(b);
            }
        }
    };
    let had = m.term_k.as_ref().map_or(0, |t| *t.1.borrow());
    match op {
        Op::Add(how, cs) => {
            let cs: Vec<Vec<i32>> = match how {
                0 => cs.iter().map(|c| vec![c.first().copied().unwrap_or(1)]).collect(),
                1 => cs.iter().map(|c| vec![c.first().copied().unwrap_or(1), c.get(1).copied().unwrap_or(-2)]).collect(),
                2 => cs.iter().map(|c| vec![c.first().copied().unwrap_or(1), c.get(1).copied().unwrap_or(-2), c.get(2).copied().unwrap_or(3)]).collect(),
                _ => cs.clone(),
            };
            let cnf: Cnf = cs.iter().map(|c| cl(c)).collect();
            let ok = |r: anyhow::Result<()>| r.map_err(|e| Fail(format!("error {e}")));
            match how {
                0 => cs.iter().try_for_each(|c| ok(solver.add_unit(lit(c[0]))))?,
                1 => cs.iter().try_for_each(|c| ok(solver.add_binary(lit(c[0]), lit(c[1]))))?,
                2 => cs.iter().try_for_each(|c| ok(solver.add_ternary(lit(c[0]), lit(c[1]), lit(c[2]))))?,
                3 => ok(solver.add_cnf(cnf))?,
                4 => ok(solver.add_cnf_ref(&cnf))?,
                5 => solver.extend(cnf),
                6 => solver.extend(cnf.iter()),
                7 => cs.iter().try_for_each(|c| ok(solver.add_clause(cl(c))))?,
                _ => cs.iter().try_for_each(|c| ok(solver.add_clause_ref(&cl(c)[..])))?,
            }
            let ev = m.news();
            let mut want: Vec<Ev> = cs.iter().map(|c| Ev::Add(c.clone())).collect();
            let mut got = ev.clone();
            if matches!(how, 3..=6) {
                // sets of clauses have no order
                let key = |e: &Ev| format!("{e:?}");
                want.sort_by_key(key);
                got.sort_by_key(key);
            }
            ensure!(got == want, "the library sees {ev:?}");
            for c in &cs {
                for l in c {
                    m.max_var = m.max_var.max(Some(l.unsigned_abs() - 1));
                }
            }
            m.clauses.extend(cs);
            m.state = SolverState::Input;
        }
        Op::Solve(p) => {
            set(m, p);
            *n_solves += 1;
            let r = solver.solve();
            let polled = m.term_k.as_ref().map_or(0, |t| *t.1.borrow() - had);
            let cached = m.state == SolverState::Sat || m.state == SolverState::Unsat;
            return judge_solve(m, r, &[], had, polled, p, cached, o);
        }
        Op::SolveAssumps(a, p) => {
            set(m, p);
            *n_solves += 1;
            let al: Vec<Lit> = a.iter().map(|&l| lit(l)).collect();
            let r = solver.solve_assumps(&al);
            let polled = m.term_k.as_ref().map_or(0, |t| *t.1.borrow() - had);
            return judge_solve(m, r, a, had, polled, p, false, o);
        }
        Op::Val(l) => {
            let r = solver.lit_val(lit(*l));
            if m.state != SolverState::Sat {
                state_err(r, SolverState::Sat, m.state)?;
                return Ok(true);
            }
            let want = match truth(m, *l) {
                1 => TernaryVal::True,
                -1 => TernaryVal::False,
                _ => TernaryVal::DontCare,
            };
            let r = r.map_err(|e| Fail(format!("error {e}")))?;
            ensure!(r == want, "value {r:?} instead of {want:?}");
            // an impossible value is reported
            let bad = if l.abs() == 9 { 10 } else { 9 };
            m.st.borrow_mut().bad[1] = Some(bad);
            let Err(e) = solver.lit_val(lit(*l)) else { fail!("value {bad} of ipasir_val is accepted") };
            ensure!(e.downcast_ref::<InvalidApiReturn>().is_some(), "unexpected error {e}");
        }
        Op::VarVal(v) => {
            let r = solver.var_val(Var::new(*v as u32 - 1));
            if m.state != SolverState::Sat {
                state_err(r, SolverState::Sat, m.state)?;
                return Ok(true);
            }
            let want = match truth(m, *v) {
                1 => TernaryVal::True,
                -1 => TernaryVal::False,
                _ => TernaryVal::DontCare,
            };
            let r = r.map_err(|e| Fail(format!("error {e}")))?;
            ensure!(r == want, "value {r:?} instead of {want:?}");
        }
        Op::Solution(h) => {
            let r = solver.solution(Var::new(*h));
            if m.state != SolverState::Sat {
                state_err(r, SolverState::Sat, m.state)?;
                return Ok(true);
            }
            let a = r.map_err(|e| Fail(format!("error {e}")))?;
            ensure!(a.len() == *h as usize + 1, "the solution has {} variables", a.len());
            check_vals(m, &a, h + 1)?;
        }
        Op::Full => {
            let r = solver.full_solution();
            if m.state != SolverState::Sat {
                state_err(r, SolverState::Sat, m.state)?;
                return Ok(true);
            }
            let a = r.map_err(|e| Fail(format!("error {e}")))?;
            ensure!(a.len() == m.max_var.map_or(0, |v| v as usize + 1), "the solution has {} variables", a.len());
            check_vals(m, &a, m.max_var.map_or(0, |v| v + 1))?;
            for c in &m.clauses {
                ensure!(c.iter().any(|&l| a.lit_value(lit(l)) == TernaryVal::True) || c.iter().any(|l| c.contains(&-l)), "the solution does not satisfy {c:?}");
            }
        }
        Op::Core => {
            let r = solver.core();
            if m.state != SolverState::Unsat {
                state_err(r, SolverState::Unsat, m.state)?;
                return Ok(true);
            }
            let core: Vec<i32> = r.map_err(|e| Fail(format!("error {e}")))?.iter().map(|l| l.to_ipasir()).collect();
            let neg: Vec<i32> = core.iter().map(|l| -l).collect();
            ensure!(neg.iter().all(|l| m.core.contains(l)), "core {core:?} is not made of negated assumptions {:?}", m.core);
            ensure!(Dpll::new(&m.clauses).solve(&neg).is_none(), "core {core:?} is not entailed");
            *cores += 1;
        }
        Op::AttachTerm(k) => {
            let cnt = Rc::new(RefCell::new(0));
            let (c2, k2) = (cnt.clone(), *k);
            let id = *m.term_id.borrow() + 1;
            let g = Guard { st: m.st.clone(), term: true, id, now: m.term_id.clone() };
            *m.term_id.borrow_mut() = id;
            m.st.borrow_mut().term_alive = true;
            solver.attach_terminator(move || {
                let _ = &g;
                *c2.borrow_mut() += 1;
                if *c2.borrow() > k2 {
                    ControlSignal::Terminate
                } else {
                    ControlSignal::Continue
                }
            });
            m.term_k = Some((*k, cnt));
        }
        Op::DetachTerm => {
            solver.detach_terminator();
            m.term_k = None;
            ensure!(m.st.borrow().term.is_none(), "the terminator is still attached");
        }
        Op::AttachLearn(n) => {
            let got = Rc::new(RefCell::new(vec![]));
            let g2 = got.clone();
            let id = *m.learn_id.borrow() + 1;
            let g = Guard { st: m.st.clone(), term: false, id, now: m.learn_id.clone() };
            *m.learn_id.borrow_mut() = id;
            m.st.borrow_mut().learn_alive = true;
            solver.attach_learner(
                move |c| {
                    let _ = &g;
                    g2.borrow_mut().push(c);
                },
                *n as usize,
            );
            m.lessons = Some(((*n).min(1 << 40) as i64, got));
        }
        Op::DetachLearn => {
            solver.detach_learner();
            m.lessons = None;
            ensure!(m.st.borrow().learn.is_none(), "the learner is still attached");
        }
        Op::Move => {
            let b = Box::new(std::mem::take(solver));
            // the solver left behind is dropped, not the one that was moved
            *solver = *b;
            ensure!(m.st.borrow().released == 0, "moving a solver releases it");
        }
        Op::Fresh => {
            *solver = IpasirSolver::default();
            {
                let s = m.st.borrow();
                ensure!(s.released == 1, "the solver was released {} times", s.released);
            }
            *m = new_model();
        }
        Op::Reserve => solver.reserve(Var::new(20)).map_err(|e| Fail(format!("error {e}")))?,
    }
    ensure!(m.news().is_empty(), "clauses or solve calls reach the library");
    let sig = solver.signature();
    ensure!(sig == "stub-1.0 \u{e4}", "signature {sig}");
    Ok(true)
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "the library was asked to solve at least twice",
        assumptions: vec!["the IPASIR library is a stub with generated behaviour written for this check; formulas of at most 11 variables", "after an invalid return value of the library the history ends"],
        subs: vec![sub("histories", 400_000, 6_000_000, s_hist, check_hist)],
    }
}
