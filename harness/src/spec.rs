//! Instance descriptions with their arithmetic meaning, shared by the instance and file IO checks
use crate::c_types::{card, pb, s_cmp, Cmp};
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::instances::{ManageVars, SatInstance};
use rustsat::types::Lit;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Con {
    Cl(Vec<i32>),
    /// added via one of the convenience functions
    Op(u8, Vec<i32>),
    Card(Vec<i32>, Cmp, usize),
    Pb(Vec<(i32, isize)>, Cmp, isize),
    Imp(u8, Vec<i32>, Vec<i32>),
}
fn any(l: &[i32], a: u64) -> bool {
    l.iter().any(|l| lit_true(*l, a))
}
fn all(l: &[i32], a: u64) -> bool {
    l.iter().all(|l| lit_true(*l, a))
}
impl Con {
    pub fn sat(&self, a: u64) -> bool {
        match self {
            Con::Cl(c) | Con::Op(_, c) => any(c, a),
            Con::Card(l, c, b) => c.holds(l.iter().filter(|l| lit_true(**l, a)).count() as i128, *b as i128),
            Con::Pb(l, c, b) => c.holds(l.iter().filter(|(l, _)| lit_true(*l, a)).map(|x| x.1 as i128).sum(), *b as i128),
            Con::Imp(k, l, r) => {
                let (l0, r0) = (&l[..1], &r[..1]);
                match k % 9 {
                    0 => !any(l0, a) || any(r0, a),
                    1 => !any(l0, a) || any(r, a),
                    2 => !any(l0, a) || all(r, a),
                    3 => !all(l, a) || any(r0, a),
                    4 => !any(l, a) || any(r0, a),
                    5 => !all(l, a) || any(r, a),
                    6 => !any(l, a) || any(r, a),
                    7 => !any(l, a) || all(r, a),
                    _ => !all(l, a) || all(r, a),
                }
            }
        }
    }
    pub fn lits(&self) -> Vec<i32> {
        match self {
            Con::Cl(c) | Con::Op(_, c) | Con::Card(c, ..) => c.clone(),
            Con::Pb(l, ..) => l.iter().filter(|x| x.1 != 0).map(|x| x.0).collect(),
            Con::Imp(k, l, r) => {
                let l = if matches!(k % 9, 0 | 1 | 2) { &l[..1] } else { &l[..] };
                let r = if matches!(k % 9, 0 | 3 | 4) { &r[..1] } else { &r[..] };
                let mut v = l.to_vec();
                v.extend(r);
                v
            }
        }
    }
    pub fn add<VM: ManageVars>(&self, i: &mut SatInstance<VM>) {
        let ll = |l: &[i32]| l.iter().map(|l| lit(*l)).collect::<Vec<Lit>>();
        match self {
            Con::Cl(c) => i.add_clause(clause(c)),
            Con::Op(k, c) => match (k % 5, c.len()) {
                (0, 1) => i.add_unit(lit(c[0])),
                (0, 2) => i.add_binary(lit(c[0]), lit(c[1])),
                (0, 3) => i.add_ternary(lit(c[0]), lit(c[1]), lit(c[2])),
                (1, 1) => *i &= lit(c[0]),
                (1 | 2, _) => *i &= clause(c),
                (3, _) => *i &= crate::common::cnf(&[c.clone()]),
                _ => i.add_nary(&ll(c)),
            },
            Con::Card(l, c, b) => i.add_card_constr(card(l, *c, *b)),
            Con::Pb(l, c, b) => i.add_pb_constr(pb(l, *c, *b)),
            Con::Imp(k, l, r) => {
                let (l, r) = (ll(l), ll(r));
                match k % 9 {
                    0 => i.add_lit_impl_lit(l[0], r[0]),
                    1 => i.add_lit_impl_clause(l[0], &r),
                    2 => i.add_lit_impl_cube(l[0], &r),
                    3 => i.add_cube_impl_lit(&l, r[0]),
                    4 => i.add_clause_impl_lit(&l, r[0]),
                    5 => i.add_cube_impl_clause(&l, &r),
                    6 => i.add_clause_impl_clause(&l, &r),
                    7 => i.add_clause_impl_cube(&l, &r),
                    _ => i.add_cube_impl_cube(&l, &r),
                }
            }
        }
    }
}
pub fn sat_all(c: &[Con], a: u64) -> bool {
    c.iter().all(|c| c.sat(a))
}
pub fn spec_vars(c: &[Con]) -> Vec<i32> {
    vars_of(c.iter().flat_map(|c| c.lits()))
}
pub fn build<VM: ManageVars + Default>(c: &[Con]) -> SatInstance<VM> {
    let mut i = SatInstance::new();
    for c in c {
        c.add(&mut i);
    }
    i
}
pub fn s_con(n: i32) -> BoxedStrategy<Con> {
    let coeff = prop_oneof![6 => -4isize..=6, 1 => Just(1isize), 1 => Just(-1isize), 1 => -60isize..=60];
    prop_oneof![
        4 => vec(s_lit(n), 0..=4).prop_map(Con::Cl),
        2 => (proptest::prelude::any::<u8>(), vec(s_lit(n), 0..=4)).prop_map(|(k, l)| Con::Op(k, l)),
        3 => (s_lits(n, 0, 5), s_cmp(), 0usize..=6).prop_map(|(l, c, b)| Con::Card(l, c, b)),
        3 => (s_lits(n, 0, 5), vec(coeff, 5..=5), s_cmp(), prop_oneof![4 => -8isize..=14, 1 => -100isize..=100]).prop_map(|(l, w, c, b)| Con::Pb(l.into_iter().zip(w).collect(), c, b)),
        1 => (s_lits(n, 0, 5), 1isize..=9, s_cmp(), -8isize..=40).prop_map(|(l, w, c, b)| Con::Pb(l.into_iter().map(|l| (l, w)).collect(), c, b)),
        2 => (proptest::prelude::any::<u8>(), vec(s_lit(n), 1..=3), vec(s_lit(n), 1..=3)).prop_map(|(k, l, r)| Con::Imp(k, l, r)),
    ]
    .boxed()
}
/// Constraints, mostly without the trivially unsatisfiable ones
pub fn s_spec(n: i32, max: usize) -> BoxedStrategy<Vec<Con>> {
    (vec(s_con(n), 0..=max), prop::bool::weighted(0.8))
        .prop_map(move |(mut c, drop)| {
            if drop {
                c.retain(|c| (0..1u64 << n).any(|a| c.sat(a)));
            }
            c
        })
        .boxed()
}
