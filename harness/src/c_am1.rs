//! C01: at-most-one encodings
use crate::common::*;
use proptest::prelude::*;
use rustsat::encodings::am1::*;
use rustsat::encodings::{EncodeStats, IterInputs};
use rustsat::instances::Cnf;
use rustsat::types::Lit;
use serde::{Deserialize, Serialize};
use vcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    enc: usize,
    lits: Vec<i32>,
    how: u8,
    gap: u32,
    pre: u32,
    prefill: bool,
}

struct Run {
    cls: Vec<Vec<i32>>,
    n_before: usize,
    given: Vec<u32>,
    n_lits: usize,
    stats: (usize, u32),
    iter: Vec<i32>,
    vars_taken: u32,
}

fn run<E>(c: &Case) -> Run
where
    E: Encode + EncodeStats + IterInputs + From<Vec<Lit>> + FromIterator<Lit> + Extend<Lit> + Default,
{
    let ls: Vec<Lit> = c.lits.iter().map(|&l| lit(l)).collect();
    let mut enc = match c.how {
        0 => E::from(ls),
        1 => ls.into_iter().collect(),
        2 => {
            let mut e = E::default();
            e.extend(ls);
            e
        }
        _ => {
            let k = ls.len() / 2;
            let mut e = E::from(ls[..k].to_vec());
            e.extend(ls[k..].iter().copied());
            e
        }
    };
    let mv = c.lits.iter().map(|l| l.unsigned_abs()).max().unwrap_or(0);
    let mut vm = GapVm::new(mv + c.pre, c.gap);
    let mut cnf = Cnf::new();
    if c.prefill {
        // an unrelated (tautological) clause that is already in the collector
        cnf.add_clause(clause(&[1, -1]));
        cnf.add_clause(clause(&[1, -1]));
    }
    let n_before = cnf.len();
    let before = rustsat::instances::ManageVars::n_used(&vm);
    enc.encode(&mut cnf, &mut vm).unwrap();
    let after = rustsat::instances::ManageVars::n_used(&vm);
    Run {
        cls: icnf(&cnf),
        n_before,
        given: vm.given,
        n_lits: Encode::n_lits(&enc),
        stats: (EncodeStats::n_clauses(&enc), EncodeStats::n_vars(&enc)),
        iter: enc.iter().map(ilit).collect(),
        vars_taken: after - before,
    }
}

const ENCS: &[(&str, fn(&Case) -> Run)] = &[
    ("pairwise", run::<Pairwise>),
    ("ladder", run::<Ladder>),
    ("bitwise", run::<Bitwise>),
    ("commander4-pairwise", run::<Commander<4, Pairwise>>),
    ("commander2-pairwise", run::<Commander<2, Pairwise>>),
    ("commander3-bitwise", run::<Commander<3, Bitwise>>),
    ("commander5-ladder", run::<Commander<5, Ladder>>),
    ("commander2-commander3", run::<Commander<2, Commander<3, Bitwise>>>),
    ("bimander4-pairwise", run::<Bimander<4, Pairwise>>),
    ("bimander2-pairwise", run::<Bimander<2, Pairwise>>),
    ("bimander3-bitwise", run::<Bimander<3, Bitwise>>),
    ("bimander5-twoproduct", run::<Bimander<5, TwoProduct<Pairwise>>>),
    ("twoproduct-pairwise", run::<TwoProduct<Pairwise>>),
    ("twoproduct-ladder", run::<TwoProduct<Ladder>>),
    ("twoproduct-bimander", run::<TwoProduct<Bimander<2, Pairwise>>>),
    ("bimander1-pairwise", run::<Bimander<1, Pairwise>>),
    ("commander1-pairwise-default", run::<Def>),
    ("twoproduct-twoproduct", run::<TwoProduct<TwoProduct<Pairwise>>>),
];

fn check(c: &Case, obs: &mut Obs) -> CheckResult {
    let (name, f) = ENCS[c.enc % ENCS.len()];
    let r = f(c);
    obs.label(name);
    let vars = vars_of(c.lits.iter().copied());
    ensure!(r.n_lits == c.lits.len(), "{name}: n_lits {} for {} inputs", r.n_lits, c.lits.len());
    ensure!(r.iter == c.lits, "{name}: inputs iterate as {:?}", r.iter);
    ensure!(r.stats.0 == r.cls.len() - r.n_before, "{name}: n_clauses {} but {} clauses were added", r.stats.0, r.cls.len() - r.n_before);
    if c.gap == 0 {
        ensure!(r.stats.1 == r.vars_taken, "{name}: n_vars {} but {} variables were used", r.stats.1, r.vars_taken);
    }
    let mut inputs = vars.clone();
    if c.prefill {
        inputs.push(1);
    }
    only_known_vars(&r.cls, &inputs, &r.given)?;
    let mut f = Form::new(&r.cls);
    let count = |a: u64| c.lits.iter().filter(|&&l| lit_true(l, a)).count();
    if vars.len() <= 9 {
        for a in all_assignments(&vars) {
            let want = count(a) <= 1;
            let got = f.sat(&assumps(&vars, a), &[]);
            ensure!(got == want, "{name}: inputs {:?}: {} true inputs, but the encoding is {}", assumps(&vars, a), count(a), if got { "satisfiable" } else { "unsatisfiable" });
        }
    } else {
        // all-false, every single one and every pair of inputs (as literals, distinct variables)
        let base: Vec<i32> = c.lits.iter().map(|l| -l).collect();
        let mut set = |pos: &[usize]| {
            let mut a = base.clone();
            for &p in pos {
                a[p] = -a[p];
            }
            f.sat(&a, &[])
        };
        ensure!(set(&[]), "{name}: all inputs false is rejected");
        for i in 0..c.lits.len() {
            ensure!(set(&[i]), "{name}: only input {i} true is rejected");
            for j in 0..i {
                ensure!(!set(&[i, j]), "{name}: inputs {i} and {j} both true is accepted");
            }
        }
        obs.label("large");
    }
    if c.lits.len() >= 2 && vars.len() >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

pub fn prop() -> Prop {
    let small = |_t: Tier| {
        bx((0..ENCS.len(), s_lits(9, 0, 9), 0u8..4, prop_oneof![3 => Just(0u32), 1 => 1u32..4], 0u32..4, any::<bool>())
            .prop_map(|(enc, lits, how, gap, pre, prefill)| Case { enc, lits, how, gap, pre, prefill }))
    };
    let large = |t: Tier| {
        let n = t.pick(34, 70);
        bx((0..ENCS.len(), s_lits_distinct(n, 10, n as usize), 0u8..4, Just(0u32), 0u32..4, any::<bool>())
            .prop_map(|(enc, lits, how, gap, pre, prefill)| Case { enc, lits, how, gap, pre, prefill }))
    };
    Prop {
        id: "C01",
        rule: "Random input literal lists (0-9 literals, may repeat or be complementary; larger lists of 10-34 distinct literals), one of 18 at-most-one encodings (all encodings, several split sizes and sub-encodings), four ways of construction, variable managers with gaps. Small lists: all assignments to the inputs are decided by an independent DPLL solver. Large lists: none, each one, and each pair of inputs true. Non-trivial: at least two inputs over at least two variables.",
        assumptions: vec!["the harness's own DPLL solver is correct"],
        subs: vec![sub("small", 1_000_000, 15_000_000, small, check), sub("large", 60_000, 1_000_000, large, check)],
    }
}
