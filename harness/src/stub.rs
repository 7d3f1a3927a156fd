//! An independent (harness) solver behind RustSAT's solver traits
use crate::common::*;
use rustsat::solvers::*;
use rustsat::types::{Cl, Clause, Lit, TernaryVal, Var};
use vcore::sat::Dpll;

thread_local! {
    /// Literals that the solver prefers to satisfy, if possible, in order of preference
    pub static PREFER: std::cell::RefCell<Vec<i32>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Solver of clauses via the harness's own DPLL. Variables that do not appear are don't care, and
/// nothing is simplified, so that the user of the solver is on its own.
pub struct StubSolver {
    pub cls: Vec<Vec<i32>>,
    pub state: SolverState,
    model: Vec<i8>,
    pub core: Vec<Lit>,
    max_var: Option<Var>,
    pub n_sat: usize,
    pub n_unsat: usize,
    pub calls: Vec<Vec<i32>>,
}
impl Default for StubSolver {
    fn default() -> Self {
        StubSolver { cls: vec![], state: SolverState::Configuring, model: vec![], core: vec![], max_var: None, n_sat: 0, n_unsat: 0, calls: vec![] }
    }
}
impl Extend<Clause> for StubSolver {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
        for c in iter {
            Solve::add_clause(self, c).unwrap();
        }
    }
}
impl<'a> Extend<&'a Clause> for StubSolver {
    fn extend<T: IntoIterator<Item = &'a Clause>>(&mut self, iter: T) {
        for c in iter {
            self.add_clause_ref(c).unwrap();
        }
    }
}
impl Solve for StubSolver {
    fn signature(&self) -> &'static str {
        "stub"
    }
    fn reserve(&mut self, max_var: Var) -> Result<(), anyhow::Error> {
        self.max_var = self.max_var.max(Some(max_var));
        Ok(())
    }
    fn solve(&mut self) -> Result<SolverResult, anyhow::Error> {
        self.solve_assumps(&[])
    }
    fn lit_val(&self, lit: Lit) -> Result<TernaryVal, anyhow::Error> {
        if self.state != SolverState::Sat {
            return Err(StateError { required_state: SolverState::Sat, actual_state: self.state }.into());
        }
        let v = self.model.get(lit.vidx()).copied().unwrap_or(0);
        Ok(match (v, lit.is_pos()) {
            (0, _) => TernaryVal::DontCare,
            (1, true) | (-1, false) => TernaryVal::True,
            _ => TernaryVal::False,
        })
    }
    fn add_clause_ref<C>(&mut self, clause: &C) -> Result<(), anyhow::Error>
    where
        C: AsRef<Cl> + ?Sized,
    {
        let c = icl(clause.as_ref());
        for l in clause.as_ref().iter() {
            self.max_var = self.max_var.max(Some(l.var()));
        }
        self.cls.push(c);
        self.state = SolverState::Input;
        Ok(())
    }
}
impl SolveIncremental for StubSolver {
    fn solve_assumps(&mut self, assumps: &[Lit]) -> Result<SolverResult, anyhow::Error> {
        let a: Vec<i32> = assumps.iter().map(|l| ilit(*l)).collect();
        self.calls.push(a.clone());
        let mut d = Dpll::new(&self.cls);
        let mut found = d.solve(&a);
        if found.is_some() {
            // literals that the solver happens to like
            let mut want = a.clone();
            for l in PREFER.with(|p| p.borrow().clone()) {
                want.push(l);
                match d.solve(&want) {
                    Some(m) => found = Some(m),
                    None => {
                        want.pop();
                    }
                }
            }
        }
        match found {
            Some(m) => {
                // `m[v]` for variable v; keep only values needed (mentioned variables)
                let mut mentioned = vec![false; m.len().max(a.iter().map(|l| l.unsigned_abs() as usize + 1).max().unwrap_or(0))];
                for l in self.cls.iter().flatten().chain(&a) {
                    mentioned[l.unsigned_abs() as usize] = true;
                }
                self.model = (1..mentioned.len()).map(|v| if mentioned[v] { m.get(v).copied().unwrap_or(0) } else { 0 }).collect();
                self.state = SolverState::Sat;
                self.n_sat += 1;
                Ok(SolverResult::Sat)
            }
            None => {
                self.state = SolverState::Unsat;
                self.core = assumps.iter().map(|l| !*l).collect();
                self.n_unsat += 1;
                Ok(SolverResult::Unsat)
            }
        }
    }
    fn core(&mut self) -> Result<Vec<Lit>, anyhow::Error> {
        if self.state != SolverState::Unsat {
            return Err(StateError { required_state: SolverState::Unsat, actual_state: self.state }.into());
        }
        Ok(self.core.clone())
    }
}
impl SolveStats for StubSolver {
    fn stats(&self) -> SolverStats {
        SolverStats {
            n_sat: self.n_sat,
            n_unsat: self.n_unsat,
            n_terminated: 0,
            n_clauses: self.cls.len(),
            max_var: self.max_var,
            avg_clause_len: 0.,
            cpu_solve_time: std::time::Duration::ZERO,
        }
    }
}
