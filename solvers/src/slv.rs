//! One interface over all solver crates, so that histories can be run on any of them
use rustsat::solvers::*;
use rustsat::types::{Assignment, Lit, TernaryVal, Var};
#[cfg(feature = "cadical")]
use rustsat_cadical::CaDiCaL;
#[cfg(feature = "kissat")]
use rustsat_kissat::Kissat;
use serde::{Deserialize, Serialize};

pub type R<T> = anyhow::Result<T>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Minisat,
    MinisatSimp,
    Glucose,
    GlucoseSimp,
    Cadical,
    Batsat,
    Kissat,
}

#[allow(unused_variables)]
pub trait Slv {
    fn add(&mut self, how: u8, cls: &[Vec<i32>]) -> R<()>;
    fn solve(&mut self) -> R<SolverResult>;
    fn lit_val(&self, l: Lit) -> R<TernaryVal>;
    fn var_val(&self, v: Var) -> R<TernaryVal>;
    fn solution(&self, v: Var) -> R<Assignment>;
    fn full(&self) -> R<Assignment>;
    fn reserve(&mut self, v: Var) -> R<()>;
    fn stats(&self) -> SolverStats;
    fn assume(&mut self, a: &[Lit]) -> Option<R<SolverResult>> {
        None
    }
    fn core(&mut self) -> Option<R<Vec<Lit>>> {
        None
    }
    fn phase(&mut self, l: Lit) -> Option<R<()>> {
        None
    }
    fn unphase(&mut self, v: Var) -> Option<R<()>> {
        None
    }
    fn limit_conf(&mut self, l: Option<u32>) -> Option<R<()>> {
        None
    }
    fn limit_dec(&mut self, l: Option<u32>) -> Option<R<()>> {
        None
    }
    fn limit_prop(&mut self, l: Option<u32>) -> Option<R<()>> {
        None
    }
    fn interrupt(&mut self) -> bool {
        false
    }
    fn propagate(&mut self, a: &[Lit], ps: bool) -> Option<R<PropagateResult>> {
        None
    }
    fn freeze(&mut self, v: Var) -> Option<R<()>> {
        None
    }
    fn melt(&mut self, v: Var) -> Option<R<()>> {
        None
    }
    fn is_frozen(&mut self, v: Var) -> Option<R<bool>> {
        None
    }
    fn eliminated(&mut self, v: Var) -> bool {
        false
    }
    fn internal(&self) -> Option<(usize, usize, usize)> {
        None
    }
    #[cfg(feature = "cadical")]
    fn cadical(&mut self) -> Option<&mut CaDiCaL<'static, 'static>> {
        None
    }
    #[cfg(feature = "kissat")]
    fn kissat(&mut self) -> Option<&mut Kissat<'static>> {
        None
    }
}

fn add_to<S: Solve>(s: &mut S, how: u8, cls: &[Vec<i32>]) -> R<()> {
    use crate::common::{clause, cnf, lit};
    match how {
        0 => cls.iter().try_for_each(|c| s.add_clause(clause(c))),
        1 => cls.iter().try_for_each(|c| s.add_clause_ref(&clause(c))),
        2 => s.add_cnf(cnf(cls)),
        3 => s.add_cnf_ref(&cnf(cls)),
        4 => {
            // the error type of `extend` is a panic, so this is only used where adding must succeed
            s.extend(cls.iter().map(|c| clause(c)));
            Ok(())
        }
        5 => {
            let cs: Vec<_> = cls.iter().map(|c| clause(c)).collect();
            s.extend(cs.iter());
            Ok(())
        }
        _ => cls.iter().try_for_each(|c| match c[..] {
            [a] => s.add_unit(lit(a)),
            [a, b] => s.add_binary(lit(a), lit(b)),
            [a, b, d] => s.add_ternary(lit(a), lit(b), lit(d)),
            _ => s.add_clause(clause(c)),
        }),
    }
}

macro_rules! base {
    () => {
        fn add(&mut self, how: u8, cls: &[Vec<i32>]) -> R<()> {
            add_to(self, how, cls)
        }
        fn solve(&mut self) -> R<SolverResult> {
            Solve::solve(self)
        }
        fn lit_val(&self, l: Lit) -> R<TernaryVal> {
            Solve::lit_val(self, l)
        }
        fn var_val(&self, v: Var) -> R<TernaryVal> {
            Solve::var_val(self, v)
        }
        fn solution(&self, v: Var) -> R<Assignment> {
            Solve::solution(self, v)
        }
        fn full(&self) -> R<Assignment> {
            Solve::full_solution(self)
        }
        fn reserve(&mut self, v: Var) -> R<()> {
            Solve::reserve(self, v)
        }
        fn stats(&self) -> SolverStats {
            SolveStats::stats(self)
        }
    };
}
macro_rules! incremental {
    () => {
        fn assume(&mut self, a: &[Lit]) -> Option<R<SolverResult>> {
            Some(SolveIncremental::solve_assumps(self, a))
        }
        fn core(&mut self) -> Option<R<Vec<Lit>>> {
            Some(SolveIncremental::core(self))
        }
    };
}
macro_rules! phases {
    () => {
        fn phase(&mut self, l: Lit) -> Option<R<()>> {
            Some(PhaseLit::phase_lit(self, l))
        }
        fn unphase(&mut self, v: Var) -> Option<R<()>> {
            Some(PhaseLit::unphase_var(self, v))
        }
    };
}
macro_rules! interrupts {
    () => {
        fn interrupt(&mut self) -> bool {
            self.interrupter().interrupt();
            true
        }
    };
}
macro_rules! misc {
    () => {
        fn limit_conf(&mut self, l: Option<u32>) -> Option<R<()>> {
            Some(LimitConflicts::limit_conflicts(self, l))
        }
        fn propagate(&mut self, a: &[Lit], ps: bool) -> Option<R<PropagateResult>> {
            Some(Propagate::propagate(self, a, ps))
        }
        fn internal(&self) -> Option<(usize, usize, usize)> {
            Some((GetInternalStats::propagations(self), GetInternalStats::decisions(self), GetInternalStats::conflicts(self)))
        }
    };
}
macro_rules! limprop {
    () => {
        fn limit_prop(&mut self, l: Option<u32>) -> Option<R<()>> {
            Some(LimitPropagations::limit_propagations(self, l))
        }
    };
}
macro_rules! freezes {
    () => {
        fn freeze(&mut self, v: Var) -> Option<R<()>> {
            Some(FreezeVar::freeze_var(self, v))
        }
        fn melt(&mut self, v: Var) -> Option<R<()>> {
            Some(FreezeVar::melt_var(self, v))
        }
        fn is_frozen(&mut self, v: Var) -> Option<R<bool>> {
            Some(FreezeVar::is_frozen(self, v))
        }
    };
}

#[cfg(feature = "cadical")]
impl Slv for rustsat_minisat::core::Minisat {
    base!();
    incremental!();
    phases!();
    interrupts!();
    misc!();
    limprop!();
}
#[cfg(feature = "cadical")]
impl Slv for rustsat_glucose::core::Glucose {
    base!();
    incremental!();
    phases!();
    interrupts!();
    misc!();
    limprop!();
}
#[cfg(feature = "cadical")]
impl Slv for rustsat_minisat::simp::Minisat {
    base!();
    incremental!();
    phases!();
    interrupts!();
    misc!();
    limprop!();
    freezes!();
    fn eliminated(&mut self, v: Var) -> bool {
        self.var_eliminated(v)
    }
}
#[cfg(feature = "cadical")]
impl Slv for rustsat_glucose::simp::Glucose {
    base!();
    incremental!();
    phases!();
    interrupts!();
    misc!();
    limprop!();
    freezes!();
    fn eliminated(&mut self, v: Var) -> bool {
        self.var_eliminated(v)
    }
}
#[cfg(feature = "cadical")]
impl Slv for CaDiCaL<'static, 'static> {
    base!();
    incremental!();
    phases!();
    interrupts!();
    misc!();
    freezes!();
    fn limit_dec(&mut self, l: Option<u32>) -> Option<R<()>> {
        Some(LimitDecisions::limit_decisions(self, l))
    }
    fn cadical(&mut self) -> Option<&mut CaDiCaL<'static, 'static>> {
        Some(self)
    }
}
#[cfg(feature = "cadical")]
impl Slv for rustsat_batsat::BasicSolver {
    base!();
    incremental!();
}
#[cfg(feature = "kissat")]
impl Slv for Kissat<'static> {
    base!();
    interrupts!();
    fn kissat(&mut self) -> Option<&mut Kissat<'static>> {
        Some(self)
    }
}

/// Solver of a kind; `cfg` selects one of the pre-defined configurations
pub fn make(k: Kind, cfg: u8) -> Box<dyn Slv> {
    match k {
        #[cfg(feature = "cadical")]
        Kind::Minisat => Box::new(rustsat_minisat::core::Minisat::default()),
        #[cfg(feature = "cadical")]
        Kind::MinisatSimp => Box::new(rustsat_minisat::simp::Minisat::default()),
        #[cfg(feature = "cadical")]
        Kind::Glucose => Box::new(rustsat_glucose::core::Glucose::default()),
        #[cfg(feature = "cadical")]
        Kind::GlucoseSimp => Box::new(rustsat_glucose::simp::Glucose::default()),
        #[cfg(feature = "cadical")]
        Kind::Cadical => {
            use rustsat_cadical::Config;
            let mut s = CaDiCaL::default();
            if cfg > 0 {
                let c = [Config::Default, Config::Plain, Config::Sat, Config::Unsat][usize::from(cfg - 1) % 4];
                s.set_configuration(c).expect("setting a configuration");
            }
            Box::new(s)
        }
        #[cfg(feature = "cadical")]
        Kind::Batsat => Box::new(rustsat_batsat::BasicSolver::default()),
        #[cfg(feature = "kissat")]
        Kind::Kissat => {
            use rustsat_kissat::Config;
            let mut s = Kissat::default();
            if cfg > 0 {
                let c = [Config::Default, Config::Basic, Config::Plain, Config::Sat, Config::Unsat][usize::from(cfg - 1) % 5];
                s.set_configuration(c).expect("setting a configuration");
            }
            Box::new(s)
        }
        #[allow(unreachable_patterns)]
        _ => panic!("solver {k:?} is not part of this harness"),
    }
}
