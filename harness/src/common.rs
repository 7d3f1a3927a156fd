//! Shared generators, conversions and semantic oracles
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::instances::{Cnf, ManageVars};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use vcore::sat::Dpll;

pub fn lit(l: i32) -> Lit {
    Lit::from_ipasir(l).expect("harness literal")
}
pub fn ilit(l: Lit) -> i32 {
    let v = i32::try_from(l.vidx32() + 1).unwrap();
    if l.is_pos() {
        v
    } else {
        -v
    }
}
pub fn var(v: i32) -> Var {
    Var::new((v - 1) as u32)
}
pub fn clause(c: &[i32]) -> Clause {
    c.iter().map(|&l| lit(l)).collect()
}
pub fn icl(c: &rustsat::types::Cl) -> Vec<i32> {
    c.iter().map(|&l| ilit(l)).collect()
}
pub fn icnf(c: &Cnf) -> Vec<Vec<i32>> {
    c.iter().map(|c| icl(c)).collect()
}
pub fn cnf(c: &[Vec<i32>]) -> Cnf {
    c.iter().map(|c| clause(c)).collect()
}
pub fn max_var_cls(c: &[Vec<i32>]) -> i32 {
    c.iter().flatten().map(|l| l.abs()).max().unwrap_or(0)
}

/// Assignment from per-variable values (index 0 is variable 1): 0 undefined, 1 true, -1 false
pub fn assignment(vals: &[i8]) -> Assignment {
    vals.iter()
        .map(|&v| match v {
            0 => TernaryVal::DontCare,
            1 => TernaryVal::True,
            _ => TernaryVal::False,
        })
        .collect()
}

/// bit `v-1` of `a` is the value of variable `v`
pub fn lit_true(l: i32, a: u64) -> bool {
    ((a >> (l.unsigned_abs() - 1)) & 1 == 1) == (l > 0)
}
pub fn assumps(vars: &[i32], a: u64) -> Vec<i32> {
    vars.iter().map(|&v| if lit_true(v, a) { v } else { -v }).collect()
}
pub fn wsum(ls: &[(i32, usize)], a: u64) -> u128 {
    ls.iter().filter(|(l, _)| lit_true(*l, a)).map(|(_, w)| *w as u128).sum()
}
pub fn vars_of(ls: impl IntoIterator<Item = i32>) -> Vec<i32> {
    let mut v: Vec<i32> = ls.into_iter().map(i32::abs).collect();
    v.sort_unstable();
    v.dedup();
    v
}
/// All assignments over the given variables as bit sets (bit v-1)
pub fn all_assignments(vars: &[i32]) -> impl Iterator<Item = u64> + '_ {
    (0u64..1 << vars.len()).map(move |m| {
        let mut a = 0;
        for (i, v) in vars.iter().enumerate() {
            if (m >> i) & 1 == 1 {
                a |= 1 << (v - 1);
            }
        }
        a
    })
}

pub fn s_lit(n: i32) -> impl Strategy<Value = i32> + Clone {
    (1..=n, any::<bool>()).prop_map(|(v, s)| if s { v } else { -v })
}
/// Distinct-variable literals
pub fn s_lits_distinct(n: i32, lo: usize, hi: usize) -> impl Strategy<Value = Vec<i32>> {
    let hi = hi.min(n as usize);
    (Just((1..=n).collect::<Vec<i32>>()).prop_shuffle(), lo..=hi, vec(any::<bool>(), n as usize)).prop_map(|(vs, k, s)| {
        vs.into_iter().take(k).zip(s).map(|(v, s)| if s { v } else { -v }).collect()
    })
}
/// Literals, occasionally repeated or complementary
pub fn s_lits(n: i32, lo: usize, hi: usize) -> BoxedStrategy<Vec<i32>> {
    prop_oneof![
        3 => s_lits_distinct(n, lo, hi.min(n as usize)),
        1 => vec(s_lit(n), lo..=hi),
    ]
    .boxed()
}
pub fn s_clauses(n: i32, maxlen: usize, maxcls: usize) -> BoxedStrategy<Vec<Vec<i32>>> {
    vec(vec(s_lit(n), 0..=maxlen), 0..=maxcls).boxed()
}

/// Formula over which satisfiability under assumptions is asked repeatedly
pub struct Form {
    pub d: Dpll,
}
impl Form {
    pub fn new(cls: &[Vec<i32>]) -> Self {
        Form { d: Dpll::new(cls) }
    }
    pub fn sat(&mut self, a: &[i32], extra: &[Lit]) -> bool {
        let mut v = a.to_vec();
        v.extend(extra.iter().map(|&l| ilit(l)));
        self.d.sat(&v)
    }
}

/// Variable manager that leaves gaps between the variables it hands out, to check that encodings
/// only use what they asked for
#[derive(Debug, Clone)]
pub struct GapVm {
    pub next: u32,
    pub step: u32,
    pub given: Vec<u32>,
}
impl GapVm {
    pub fn new(next: u32, step: u32) -> Self {
        GapVm { next, step, given: vec![] }
    }
}
impl ManageVars for GapVm {
    fn new_var(&mut self) -> Var {
        let v = self.next;
        self.next += 1;
        // every third variable, leave a gap, as another user of the same manager would
        if self.step > 0 && self.given.len() % 3 == 2 {
            self.next += self.step;
        }
        self.given.push(v);
        Var::new(v)
    }
    fn max_var(&self) -> Option<Var> {
        if self.next == 0 {
            None
        } else {
            Some(Var::new(self.next - 1))
        }
    }
    fn increase_next_free(&mut self, v: Var) -> bool {
        if v.idx32() > self.next {
            self.next = v.idx32();
            return true;
        }
        false
    }
    fn combine(&mut self, other: Self) {
        self.next = self.next.max(other.next);
    }
    fn n_used(&self) -> u32 {
        self.next
    }
    fn forget_from(&mut self, min_var: Var) {
        self.next = self.next.min(min_var.idx32());
    }
}

/// Checks that all variables in the clauses are inputs or were handed out by the manager
pub fn only_known_vars(cls: &[Vec<i32>], inputs: &[i32], given: &[u32]) -> Result<(), String> {
    for c in cls {
        for l in c {
            let v = l.abs();
            if !inputs.contains(&v) && !given.contains(&((v - 1) as u32)) {
                return Err(format!("clause {c:?} uses variable {v}, which is neither an input nor handed out by the variable manager"));
            }
        }
    }
    Ok(())
}
