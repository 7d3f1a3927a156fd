//! C10, C11, C30: constraint types, atomic encodings, literals, variables and assignments
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::encodings::atomics;
use rustsat::types::constraints::*;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde::{Deserialize, Serialize};
use vcore::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmp {
    Le,
    Ge,
    Eq,
}
impl Cmp {
    pub fn holds(self, s: i128, b: i128) -> bool {
        match self {
            Cmp::Le => s <= b,
            Cmp::Ge => s >= b,
            Cmp::Eq => s == b,
        }
    }
}
pub fn s_cmp() -> impl Strategy<Value = Cmp> + Clone {
    prop_oneof![Just(Cmp::Le), Just(Cmp::Ge), Just(Cmp::Eq)]
}

/// Full assignment as an `Assignment` over n variables
pub fn full(n: i32, a: u64) -> Assignment {
    (1..=n).map(|v| lit_true(v, a)).collect()
}
fn tv(b: bool) -> TernaryVal {
    if b {
        TernaryVal::True
    } else {
        TernaryVal::False
    }
}
fn sum(l: &[(i32, i128)], a: u64) -> i128 {
    l.iter().filter(|(l, _)| lit_true(*l, a)).map(|x| x.1).sum()
}
fn eval_cl(c: &Clause, n: i32, a: u64) -> bool {
    c.evaluate(&full(n, a)) == TernaryVal::True
}

// ---------- clauses ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ClCase {
    l: Vec<i32>,
    rm: i32,
    part: Vec<i8>,
    ext: Vec<i32>,
}
fn check_clause(c: &ClCase, obs: &mut Obs) -> CheckResult {
    let n = c.part.len() as i32;
    let cl = clause(&c.l);
    ensure!(icl(&cl) == c.l && cl.len() == c.l.len() && cl.is_empty() == c.l.is_empty(), "contents");
    ensure!(cl.is_unit() == (c.l.len() == 1) && cl.is_binary() == (c.l.len() == 2), "is_unit / is_binary of {cl:?}");
    let taut = c.l.iter().any(|l| c.l.contains(&-l));
    ensure!(cl.is_tautology() == taut, "is_tautology of {cl:?}");
    let mut want: Vec<i32> = vec![];
    for l in &c.l {
        if !want.contains(l) {
            want.push(*l);
        }
    }
    let san = cl.clone().sanitize().map(|c| icl(&c));
    ensure!(san == if taut { None } else { Some(want.clone()) }, "sanitize of {cl:?} is {san:?}");
    want.sort_by_key(|l| (l.abs(), *l < 0));
    let norm = cl.clone().normalize().map(|c| icl(&c));
    ensure!(norm == if taut { None } else { Some(want.clone()) }, "normalize of {cl:?} is {norm:?}");
    // removal, as multisets
    let mut r = cl.clone();
    let had = r.remove(lit(c.rm));
    let mut w = c.l.clone();
    let pos = w.iter().position(|l| *l == c.rm);
    if let Some(p) = pos {
        w.remove(p);
    }
    let mut got = icl(&r);
    got.sort_unstable();
    w.sort_unstable();
    ensure!(had == pos.is_some() && got == w, "remove {} from {cl:?} gives {r:?}", c.rm);
    let mut r = cl.clone();
    let had = r.remove_thorough(lit(c.rm));
    let w: Vec<i32> = c.l.iter().copied().filter(|l| *l != c.rm).collect();
    ensure!(had == pos.is_some() && icl(&r) == w, "remove_thorough {} from {cl:?} gives {r:?}", c.rm);
    // evaluation
    let part = assignment(&c.part);
    let vals: Vec<i8> = c.l.iter().map(|l| c.part[l.unsigned_abs() as usize - 1] * l.signum() as i8).collect();
    let want = if vals.contains(&1) {
        TernaryVal::True
    } else if vals.contains(&0) {
        TernaryVal::DontCare
    } else {
        TernaryVal::False
    };
    ensure!(cl.evaluate(&part) == want, "{cl:?} under {part} evaluates to {:?}", cl.evaluate(&part));
    // building
    let mut e = cl.clone();
    e.extend(c.ext.iter().map(|l| lit(*l)));
    let mut all = c.l.clone();
    all.extend(&c.ext);
    ensure!(icl(&e) == all, "extend");
    ensure!(icl(&(cl.clone() | clause(&c.ext))) == all, "clause | clause");
    let mut o = cl.clone();
    o |= lit(c.rm);
    o.add(lit(c.rm));
    ensure!(icl(&o)[c.l.len()..] == [c.rm, c.rm] && icl(&o)[..c.l.len()] == c.l, "adding");
    ensure!(icl(&(cl.clone() | lit(c.rm))).last() == Some(&c.rm) && icl(&(lit(c.rm) | cl.clone()))[..1] == [c.rm], "lit | clause");
    let mut s = cl.clone();
    s.sort();
    let mut w = c.l.clone();
    w.sort_by_key(|l| (l.abs(), *l < 0));
    ensure!(icl(&s) == w, "sort");
    let f = Clause::from(&cl[..]);
    ensure!(f == cl && icl(&Clause::from_iter(cl.clone())) == c.l, "conversion");
    if c.l.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}
fn s_clause(_t: Tier) -> BoxedStrategy<ClCase> {
    (s_lits(6, 0, 8), s_lit(6), vec(-1i8..=1, 6), s_lits(6, 0, 3)).prop_map(|(l, rm, part, ext)| ClCase { l, rm, part, ext }).boxed()
}

// ---------- cardinality constraints ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CardCase {
    l: Vec<i32>,
    cmp: Cmp,
    b: usize,
    part: Vec<i8>,
    rot: usize,
    add: Vec<i32>,
}
pub fn card(l: &[i32], cmp: Cmp, b: usize) -> CardConstraint {
    let it = l.iter().map(|l| lit(*l)).collect::<Vec<_>>();
    match cmp {
        Cmp::Le => CardConstraint::new_ub(it, b),
        Cmp::Ge => CardConstraint::new_lb(it, b),
        Cmp::Eq => CardConstraint::new_eq(it, b),
    }
}
pub fn card_parts(c: &CardConstraint) -> (Vec<(i32, i128)>, Cmp, i128) {
    let cmp = match c {
        CardConstraint::Ub(_) => Cmp::Le,
        CardConstraint::Lb(_) => Cmp::Ge,
        CardConstraint::Eq(_) => Cmp::Eq,
    };
    (c.iter().map(|l| (ilit(*l), 1)).collect(), cmp, c.bound() as i128)
}
pub fn pb_parts(c: &PbConstraint) -> (Vec<(i32, i128)>, Cmp, i128) {
    let cmp = match c {
        PbConstraint::Ub(_) => Cmp::Le,
        PbConstraint::Lb(_) => Cmp::Ge,
        PbConstraint::Eq(_) => Cmp::Eq,
    };
    (c.iter().map(|(l, w)| (ilit(*l), *w as i128)).collect(), cmp, c.bound() as i128)
}
fn vline_axiom(a: &pigeons::Axiom<Var>) -> i32 {
    // formatted as in the proof: `x1` or `~x1`
    let s = format!("{a}");
    match s.strip_prefix('~') {
        Some(s) => -s[1..].parse::<i32>().unwrap(),
        None => s[1..].parse().unwrap(),
    }
}
fn check_proof_form(c: &impl pigeons::ConstraintLike<Var>, name: &str, n: i32, want: impl Fn(u64) -> bool) -> CheckResult {
    let terms: Vec<(i32, i128)> = c.sum_iter().map(|(w, a)| (vline_axiom(&a), w as i128)).collect();
    for a in 0..1u64 << n {
        ensure!((sum(&terms, a) >= c.rhs() as i128) == want(a), "{name} as a proof constraint is {terms:?} >= {}, differing under {a:b}", c.rhs());
    }
    Ok(())
}
/// Ternary evaluation: exact on the extensions of the partial assignment if the variables are distinct, otherwise never wrong
fn check_partial(name: &str, got: TernaryVal, part: &[i8], distinct: bool, want: impl Fn(u64) -> bool) -> CheckResult {
    let (mut t, mut f) = (false, false);
    for a in 0..1u64 << part.len() {
        if part.iter().enumerate().all(|(i, v)| *v == 0 || (*v == 1) == lit_true(i as i32 + 1, a)) {
            if want(a) {
                t = true;
            } else {
                f = true;
            }
        }
    }
    let ok = match got {
        TernaryVal::True => !f,
        TernaryVal::False => !t,
        TernaryVal::DontCare => !distinct || (t && f),
    };
    ensure!(ok, "{name} under the partial assignment {part:?} evaluates to {got:?} (can hold: {t}, can fail: {f})");
    Ok(())
}
struct Preds {
    taut: bool,
    unsat: bool,
    pos: bool,
    neg: bool,
    clause: bool,
}
fn check_preds(name: &str, p: &Preds, lits: &[i32], distinct: bool, cmp: Cmp, n: i32, want: &dyn Fn(u64) -> bool) -> CheckResult {
    let all = |f: &dyn Fn(u64) -> bool| (0..1u64 << n).all(f);
    let (taut, unsat) = (all(&|a| want(a)), all(&|a| !want(a)));
    let pos = all(&|a| want(a) == lits.iter().all(|l| lit_true(*l, a)));
    let neg = all(&|a| want(a) == lits.iter().all(|l| !lit_true(*l, a)));
    ensure!(!p.taut || taut, "{name} is reported to be a tautology");
    ensure!(!p.unsat || unsat, "{name} is reported to be unsatisfiable");
    ensure!(!p.pos || pos, "{name} is reported to be a positive assignment");
    ensure!(!p.neg || neg, "{name} is reported to be a negative assignment");
    if distinct {
        ensure!(cmp == Cmp::Eq || p.taut == taut, "{name} is a tautology but not reported to be one");
        if !lits.is_empty() && !unsat && !taut {
            ensure!(p.pos == pos || cmp == Cmp::Le, "{name} is a positive assignment but not reported to be one");
            ensure!(p.neg == neg || cmp == Cmp::Ge, "{name} is a negative assignment but not reported to be one");
            let cl = |s: bool| all(&|a| want(a) == lits.iter().any(|l| lit_true(*l, a) == s));
            if (cmp == Cmp::Ge && cl(true)) || (cmp == Cmp::Le && cl(false)) {
                ensure!(p.clause, "{name} is a clause but not reported to be one");
            }
        }
    }
    Ok(())
}
fn is_distinct(l: &[i32]) -> bool {
    vars_of(l.iter().copied()).len() == l.len()
}
fn check_card(c: &CardCase, obs: &mut Obs) -> CheckResult {
    let n = c.part.len() as i32;
    let mut k = card(&c.l, c.cmp, c.b);
    let sem = |l: &[i32], b: usize, a: u64| c.cmp.holds(l.iter().filter(|x| lit_true(**x, a)).count() as i128, b as i128);
    let want = |a: u64| sem(&c.l, c.b, a);
    let d = is_distinct(&c.l);
    let name = format!("{k}");
    ensure!(k.len() == c.l.len() && k.n_lits() == c.l.len() && k.bound() == c.b && k.is_empty() == c.l.is_empty(), "{name}: contents");
    for a in 0..1u64 << n {
        ensure!(k.evaluate(&full(n, a)) == tv(want(a)), "{name} under {a:b} evaluates to {:?}", k.evaluate(&full(n, a)));
    }
    check_partial(&name, k.evaluate(&assignment(&c.part)), &c.part, d, want)?;
    let p = Preds { taut: k.is_tautology(), unsat: k.is_unsat(), pos: k.is_positive_assignment(), neg: k.is_negative_assignment(), clause: k.is_clause() };
    check_preds(&name, &p, &c.l, d, c.cmp, n, &want)?;
    ensure!(!d || c.cmp != Cmp::Ge || p.unsat == (c.b > c.l.len()), "{name}: is_unsat");
    match k.clone().into_clause() {
        Ok(cl) => {
            ensure!(p.clause, "{name} converted to {cl} although it is not a clause");
            for a in 0..1u64 << n {
                ensure!(eval_cl(&cl, n, a) == want(a), "{name} converted to {cl} differs under {a:b}");
            }
        }
        Err(_) => ensure!(!p.clause, "{name} is a clause but not converted"),
    }
    // normalization
    let norm = k.clone().normalize();
    let mut rotated = c.l.clone();
    if !rotated.is_empty() {
        rotated.rotate_left(c.rot % c.l.len());
        rotated.swap(0, c.rot % c.l.len());
    }
    ensure!(card(&rotated, c.cmp, c.b).normalize() == norm, "normalizing {name} depends on the order of literals");
    for a in 0..1u64 << n {
        ensure!(norm.evaluate(&full(n, a)) == tv(want(a)), "{name} normalized to {norm}");
    }
    // conversion
    let pb = PbConstraint::from(k.clone());
    let clpb = (PbConstraint::from(clause(&c.l)), CardConstraint::from(clause(&c.l)));
    for a in 0..1u64 << n {
        ensure!(pb.evaluate(&full(n, a)) == tv(want(a)), "{name} converted to {pb}");
        let cw = tv(c.l.iter().any(|l| lit_true(*l, a)));
        ensure!(clpb.0.evaluate(&full(n, a)) == cw && clpb.1.evaluate(&full(n, a)) == cw, "clause {:?} converted to {} and {}", c.l, clpb.0, clpb.1);
    }
    match k.clone() {
        CardConstraint::Ub(u) => {
            let i = CardConstraint::Lb(u.invert());
            for a in 0..1u64 << n {
                ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "{name} inverted to {i}");
            }
            check_proof_form(&k, &name, n, want)?;
        }
        CardConstraint::Lb(u) => {
            if c.b <= c.l.len() {
                let i = CardConstraint::Ub(u.invert());
                for a in 0..1u64 << n {
                    ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "{name} inverted to {i}");
                }
            }
            check_proof_form(&k, &name, n, want)?;
        }
        CardConstraint::Eq(e) => {
            let (l, u) = e.split();
            let (l, u) = (CardConstraint::Lb(l), CardConstraint::Ub(u));
            for a in 0..1u64 << n {
                let x = full(n, a);
                ensure!((l.evaluate(&x) == TernaryVal::True && u.evaluate(&x) == TernaryVal::True) == want(a), "{name} split into {l} and {u}");
            }
        }
    }
    // changes
    k.add(c.add.iter().map(|l| lit(*l)));
    k.set_bound(c.rot);
    let mut l2 = c.l.clone();
    l2.extend(&c.add);
    for a in 0..1u64 << n {
        ensure!(k.evaluate(&full(n, a)) == tv(sem(&l2, c.rot, a)), "{name} changed to {k}");
    }
    ensure!(k.clone().into_lits() == k.iter().copied().collect::<Vec<_>>() && k.len() == l2.len(), "{name}: literals after adding");
    if !c.l.is_empty() && !p.taut && !p.unsat {
        obs.nontrivial();
    }
    obs.label(format!("{:?}", c.cmp));
    if p.clause {
        obs.label("clause");
    }
    Ok(())
}
fn s_card(_t: Tier) -> BoxedStrategy<CardCase> {
    (s_lits(5, 0, 6), s_cmp(), 0usize..8, vec(-1i8..=1, 5), 0usize..7, s_lits(5, 0, 2)).prop_map(|(l, cmp, b, part, rot, add)| CardCase { l, cmp, b, part, rot, add }).boxed()
}

// ---------- pseudo-Boolean constraints ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PbCase {
    l: Vec<(i32, isize)>,
    cmp: Cmp,
    b: isize,
    part: Vec<i8>,
    rot: usize,
    add: Vec<(i32, isize)>,
}
pub fn pb(l: &[(i32, isize)], cmp: Cmp, b: isize) -> PbConstraint {
    let it = l.iter().map(|(l, w)| (lit(*l), *w)).collect::<Vec<_>>();
    match cmp {
        Cmp::Le => PbConstraint::new_ub(it, b),
        Cmp::Ge => PbConstraint::new_lb(it, b),
        Cmp::Eq => PbConstraint::new_eq(it, b),
    }
}
fn check_pb(c: &PbCase, obs: &mut Obs) -> CheckResult {
    let n = c.part.len() as i32;
    let mut k = pb(&c.l, c.cmp, c.b);
    let wide = |l: &[(i32, isize)]| l.iter().map(|(l, w)| (*l, *w as i128)).collect::<Vec<_>>();
    let terms = wide(&c.l);
    let want = |a: u64| c.cmp.holds(sum(&terms, a), c.b as i128);
    let name = format!("{:?} {:?} {}", c.l, c.cmp, c.b);
    let (pt, pc, pbnd) = pb_parts(&k);
    ensure!(pc == c.cmp, "{name}: kind");
    ensure!(pt.iter().all(|x| x.1 > 0), "{name} is stored with non-positive weights: {k}");
    ensure!(k.weight_sum() as i128 == pt.iter().map(|x| x.1).sum::<i128>() && k.len() == pt.len() && k.n_lits() == pt.len(), "{name}: weight sum {} of {k}", k.weight_sum());
    for a in 0..1u64 << n {
        ensure!(pc.holds(sum(&pt, a), pbnd) == want(a), "{name} is stored as {k}, differing under {a:b}");
        ensure!(k.evaluate(&full(n, a)) == tv(want(a)), "{name} under {a:b} evaluates to {:?}", k.evaluate(&full(n, a)));
    }
    let lits: Vec<i32> = pt.iter().map(|x| x.0).collect();
    let d = is_distinct(&lits);
    check_partial(&name, k.evaluate(&assignment(&c.part)), &c.part, d && c.cmp != Cmp::Eq, want)?;
    let p = Preds { taut: k.is_tautology(), unsat: k.is_unsat(), pos: k.is_positive_assignment(), neg: k.is_negative_assignment(), clause: k.is_clause() };
    check_preds(&name, &p, &lits, d && c.cmp != Cmp::Eq, c.cmp, n, &want)?;
    match k.clone().into_clause() {
        Ok(cl) => {
            ensure!(p.clause, "{name} converted to {cl} although it is not a clause");
            for a in 0..1u64 << n {
                ensure!(eval_cl(&cl, n, a) == want(a), "{name} converted to {cl} differs under {a:b}");
            }
            obs.label("clause");
        }
        Err(_) => ensure!(!p.clause, "{name} is a clause but not converted"),
    }
    let unit = !pt.is_empty() && pt.iter().all(|x| x.1 == pt[0].1);
    ensure!(k.is_card() == unit, "{name}: is_card");
    match k.clone().into_card_constr() {
        Ok(cc) => {
            ensure!(unit, "{name} converted to {cc}");
            for a in 0..1u64 << n {
                ensure!(cc.evaluate(&full(n, a)) == tv(want(a)), "{name} converted to {cc} differs under {a:b}");
            }
            obs.label("card");
        }
        Err(PbToCardError::NotACard) => ensure!(!unit, "{name} is not converted to a cardinality constraint"),
        Err(PbToCardError::Unsat) => ensure!((0..1u64 << n).all(|a| !want(a)), "{name} reported unsatisfiable"),
        Err(PbToCardError::Tautology) => ensure!((0..1u64 << n).all(want), "{name} reported a tautology"),
    }
    if !p.taut && !p.unsat && k.weight_sum() < 1000 {
        let cc = k.clone().extend_to_card_constr();
        for a in 0..1u64 << n {
            ensure!(cc.evaluate(&full(n, a)) == tv(want(a)), "{name} extended to {cc} differs under {a:b}");
        }
    }
    let norm = k.clone().normalize();
    let mut rotated = c.l.clone();
    if !rotated.is_empty() {
        rotated.rotate_left(c.rot % c.l.len());
        rotated.swap(0, c.rot % c.l.len());
    }
    ensure!(pb(&rotated, c.cmp, c.b).normalize() == norm, "normalizing {name} depends on the order of literals");
    ensure!(norm.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len() == norm.len(), "{name} normalized to {norm} with repeated literals");
    for a in 0..1u64 << n {
        ensure!(norm.evaluate(&full(n, a)) == tv(want(a)), "{name} normalized to {norm}");
    }
    if isize::try_from(k.weight_sum()).is_ok_and(|s| (s as i128) < isize::MAX as i128 / 4) {
        match k.clone() {
            PbConstraint::Ub(u) => {
                let i = PbConstraint::Lb(u.invert());
                for a in 0..1u64 << n {
                    ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "{name} inverted to {i}");
                }
                check_proof_form(&k, &name, n, want)?;
            }
            PbConstraint::Lb(u) => {
                let i = PbConstraint::Ub(u.invert());
                for a in 0..1u64 << n {
                    ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "{name} inverted to {i}");
                }
                check_proof_form(&k, &name, n, want)?;
            }
            PbConstraint::Eq(e) => {
                let (l, u) = e.split();
                let (l, u) = (PbConstraint::Lb(l), PbConstraint::Ub(u));
                for a in 0..1u64 << n {
                    let x = full(n, a);
                    ensure!((l.evaluate(&x) == TernaryVal::True && u.evaluate(&x) == TernaryVal::True) == want(a), "{name} split into {l} and {u}");
                }
            }
        }
    } else {
        obs.label("huge");
    }
    // unsigned constructors
    let ul: Vec<(Lit, usize)> = c.l.iter().map(|(l, w)| (lit(*l), w.unsigned_abs())).collect();
    let ui = c.l.iter().map(|(l, w)| (*l, w.unsigned_abs() as i128)).collect::<Vec<_>>();
    let u = match c.cmp {
        Cmp::Le => PbConstraint::new_ub_unsigned(ul, c.b),
        Cmp::Ge => PbConstraint::new_lb_unsigned(ul, c.b),
        Cmp::Eq => PbConstraint::new_eq_unsigned(ul, c.b),
    };
    for a in 0..1u64 << n {
        ensure!(u.evaluate(&full(n, a)) == tv(c.cmp.holds(sum(&ui, a), c.b as i128)), "{name} with unsigned weights is {u}");
    }
    // changes: adding keeps the meaning, setting the bound sets that of the stored constraint
    let before = k.clone();
    k.add(c.add.iter().map(|(l, w)| (lit(*l), *w)));
    let mut t2 = terms.clone();
    t2.extend(wide(&c.add));
    for a in 0..1u64 << n {
        ensure!(k.evaluate(&full(n, a)) == tv(c.cmp.holds(sum(&t2, a), c.b as i128)), "{name} extended by {:?} is {k}", c.add);
    }
    let mut k2 = before;
    k2.set_bound(c.rot as isize);
    ensure!(k2.bound() == c.rot as isize, "set_bound");
    for a in 0..1u64 << n {
        ensure!(k2.evaluate(&full(n, a)) == tv(c.cmp.holds(sum(&pt, a), c.rot as i128)), "{name} with bound set to {} is {k2}", c.rot);
    }
    if !p.taut && !p.unsat && !c.l.is_empty() {
        obs.nontrivial();
    }
    obs.label(format!("{:?}", c.cmp));
    Ok(())
}
fn s_coeff() -> BoxedStrategy<isize> {
    prop_oneof![
        6 => -4isize..=4,
        3 => -12isize..=12,
        2 => Just(3isize),
        1 => (0u32..61, any::<bool>()).prop_map(|(p, s)| if s { -(1isize << p) } else { 1isize << p }),
    ]
    .boxed()
}
fn s_pb(_t: Tier) -> BoxedStrategy<PbCase> {
    let huge = prop_oneof![Just(isize::MAX / 3), Just(isize::MAX / 2), Just(isize::MAX / 3 + 1), 1isize..5];
    let ls = prop_oneof![
        4 => (s_lits(5, 0, 6), vec(s_coeff(), 6)).prop_map(|(l, w)| l.into_iter().zip(w).collect::<Vec<_>>()),
        2 => (s_lits(5, 0, 6), -5isize..=5, vec(any::<bool>(), 6)).prop_map(|(l, w, s)| l.into_iter().zip(s).map(|(l, s)| (l, if s { w } else { -w })).collect()),
        // the sum exceeds the signed range, but all weights are non-negative
        1 => (s_lits(5, 1, 3), vec(huge, 3)).prop_map(|(l, w)| l.into_iter().zip(w).collect()),
    ];
    (ls, s_cmp(), 0u8..8, -30isize..30, any::<u64>(), vec(-1i8..=1, 5), 0usize..7, vec((s_lit(5), -5isize..=5), 0..3))
        .prop_map(|(l, cmp, mode, b, x, part, rot, mut add)| {
            let big = l.iter().any(|x| x.1.unsigned_abs() > 1 << 61);
            let lo: i128 = l.iter().map(|x| x.1.min(0) as i128).sum();
            let hi: i128 = l.iter().map(|x| x.1.max(0) as i128).sum();
            let b = match mode {
                0 => b,
                1..=4 => (lo - 2 + (x as i128).rem_euclid(hi - lo + 5)) as isize,
                _ => {
                    // exactly at the sum of a subset
                    let s: i128 = l.iter().enumerate().filter(|(i, _)| x >> i & 1 == 1).map(|(_, y)| y.1 as i128).sum();
                    (s + (mode as i128 - 6)).clamp(isize::MIN as i128 / 2, isize::MAX as i128 - 40) as isize
                }
            };
            if big {
                add.iter_mut().for_each(|a| a.1 = a.1.abs());
            }
            PbCase { l, cmp, b, part, rot, add }
        })
        .boxed()
}

// ---------- operators building formulas ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
enum F {
    V(i32),
    L(i32),
    C(Vec<i32>),
    N(Vec<Vec<i32>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpCase {
    fs: Vec<F>,
    assign: bool,
}
fn check_ops(c: &OpCase, obs: &mut Obs) -> CheckResult {
    use rustsat::instances::{Cnf, SatInstance};
    let mut want: Vec<Vec<i32>> = vec![];
    let mut f = Cnf::new();
    let mut inst: SatInstance = SatInstance::new();
    for x in &c.fs {
        // conjunction of parts with every operand type
        (f, inst) = match (x, c.assign) {
            (F::V(v), false) => (f & var(*v), inst & var(*v)),
            (F::L(l), false) => (f & lit(*l), inst & lit(*l)),
            (F::C(c), false) => (f & clause(c), inst & clause(c)),
            (F::N(n), false) => (f & cnf(n), inst & cnf(n)),
            (x, true) => {
                match x {
                    F::V(v) => {
                        f &= var(*v);
                        inst &= var(*v);
                    }
                    F::L(l) => {
                        f &= lit(*l);
                        inst &= lit(*l);
                    }
                    F::C(c) => {
                        f &= clause(c);
                        inst &= clause(c);
                    }
                    F::N(n) => {
                        f &= cnf(n);
                        inst &= cnf(n);
                    }
                }
                (f, inst)
            }
        };
        match x {
            F::V(v) => want.push(vec![*v]),
            F::L(l) => want.push(vec![*l]),
            F::C(c) => want.push(c.clone()),
            F::N(n) => want.extend(n.iter().cloned()),
        }
    }
    ensure!(icnf(&f) == want, "conjunction of {:?} is {f:?}", c.fs);
    let (cn, _) = inst.into_cnf();
    ensure!(icnf(&cn) == want, "instance conjunction of {:?} is {cn:?}", c.fs);
    // pairwise, in all type combinations
    for w in c.fs.windows(2) {
        let cls = |x: &F| match x {
            F::V(v) => vec![vec![*v]],
            F::L(l) => vec![vec![*l]],
            F::C(c) => vec![c.clone()],
            F::N(n) => n.clone(),
        };
        macro_rules! and {
            ($a:expr, $b:expr) => {
                match $b {
                    F::V(v) => $a & var(*v),
                    F::L(l) => $a & lit(*l),
                    F::C(c) => $a & clause(c),
                    F::N(n) => $a & cnf(n),
                }
            };
        }
        let r = match &w[0] {
            F::V(v) => and!(var(*v), &w[1]),
            F::L(l) => and!(lit(*l), &w[1]),
            F::C(c) => and!(clause(c), &w[1]),
            F::N(n) => and!(cnf(n), &w[1]),
        };
        let mut want = cls(&w[0]);
        want.extend(cls(&w[1]));
        ensure!(icnf(&r) == want, "{:?} & {:?} is {r:?}", w[0], w[1]);
        macro_rules! or {
            ($a:expr, $b:expr) => {
                match $b {
                    F::V(v) => Some($a | var(*v)),
                    F::L(l) => Some($a | lit(*l)),
                    F::C(c) => Some($a | clause(c)),
                    F::N(_) => None,
                }
            };
        }
        let r = match &w[0] {
            F::V(v) => or!(var(*v), &w[1]),
            F::L(l) => or!(lit(*l), &w[1]),
            F::C(c) => or!(clause(c), &w[1]),
            F::N(_) => None,
        };
        if let Some(r) = r {
            let mut want = cls(&w[0])[0].clone();
            want.extend(&cls(&w[1])[0]);
            ensure!(icl(&r) == want, "{:?} | {:?} is {r:?}", w[0], w[1]);
        }
        obs.nontrivial();
    }
    Ok(())
}
fn s_ops(_t: Tier) -> BoxedStrategy<OpCase> {
    let f = prop_oneof![(1i32..6).prop_map(F::V), s_lit(6).prop_map(F::L), s_lits(6, 0, 3).prop_map(F::C), s_clauses(6, 3, 3).prop_map(F::N)];
    (vec(f, 0..5), any::<bool>()).prop_map(|(fs, assign)| OpCase { fs, assign }).boxed()
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "Random clauses, cardinality and pseudo-Boolean constraints (repeated and complementary literals, negative, zero and huge coefficients, trivial and unreachable bounds) put through every constructor, predicate, conversion, normalization, inversion, splitting, evaluation and proof-constraint view, compared on all assignments over the variables with the arithmetic definition. Non-trivial: the constraint is neither empty nor constant.",
        assumptions: vec![],
        subs: vec![sub("clause", 300_000, 5_000_000, s_clause, check_clause), sub("card", 300_000, 5_000_000, s_card, check_card), sub("pb", 400_000, 6_000_000, s_pb, check_pb), sub("operators", 60_000, 1_000_000, s_ops, check_ops)],
    }
}

// ---------- C11 atomic encodings ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AtCase {
    a: i32,
    b: i32,
    la: Vec<i32>,
    lb: Vec<i32>,
    w: Vec<isize>,
    cmp: Cmp,
    bnd: isize,
}
fn check_atomics(c: &AtCase, obs: &mut Obs) -> CheckResult {
    const N: i32 = 6;
    let la: Vec<Lit> = c.la.iter().map(|l| lit(*l)).collect();
    let lb: Vec<Lit> = c.lb.iter().map(|l| lit(*l)).collect();
    let (a, b) = (lit(c.a), lit(c.b));
    let cases: Vec<(&str, Vec<Clause>)> = vec![
        ("lit_impl_lit", vec![atomics::lit_impl_lit(a, b)]),
        ("lit_impl_clause", vec![atomics::lit_impl_clause(a, &lb)]),
        ("lit_impl_cube", atomics::lit_impl_cube(a, &lb).collect()),
        ("cube_impl_lit", vec![atomics::cube_impl_lit(&la, b)]),
        ("cube_impl_clause", vec![atomics::cube_impl_clause(&la, &lb)]),
        ("cube_impl_cube", atomics::cube_impl_cube(&la, &lb).collect()),
        ("clause_impl_lit", atomics::clause_impl_lit(&la, b).collect()),
        ("clause_impl_clause", atomics::clause_impl_clause(&la, &lb).collect()),
        ("clause_impl_cube", atomics::clause_impl_cube(&la, &lb).collect()),
    ];
    for (name, cls) in cases {
        let mut it = name.split("_impl_");
        let (l, r) = (it.next().unwrap(), it.next().unwrap());
        let side = |k: &str, one: i32, many: &[i32], x: u64| match k {
            "lit" => lit_true(one, x),
            "clause" => many.iter().any(|l| lit_true(*l, x)),
            _ => many.iter().all(|l| lit_true(*l, x)),
        };
        for x in 0..1u64 << N {
            let want = !side(l, c.a, &c.la, x) || side(r, c.b, &c.lb, x);
            ensure!(cls.iter().all(|cl| eval_cl(cl, N, x)) == want, "{name}({}, {:?} -> {}, {:?}) gives {cls:?}, wrong under {x:b}", c.a, c.la, c.b, c.lb);
        }
    }
    if c.cmp == Cmp::Eq {
        return Ok(());
    }
    // reification; an unsatisfiable constraint is documented to panic
    let k = card(&c.la, c.cmp, c.bnd.unsigned_abs());
    if !k.is_unsat() {
        let (x1, x2) = (atomics::lit_impl_card(b, &k), atomics::card_impl_lit(&k, b));
        for x in 0..1u64 << N {
            let kv = k.evaluate(&full(N, x)) == TernaryVal::True;
            ensure!(x1.evaluate(&full(N, x)) == tv(!lit_true(c.b, x) || kv), "{b} -> ({k}) is {x1}, wrong under {x:b}");
            ensure!(x2.evaluate(&full(N, x)) == tv(!kv || lit_true(c.b, x)), "({k}) -> {b} is {x2}, wrong under {x:b}");
        }
        obs.nontrivial();
    }
    let k = pb(&c.la.iter().copied().zip(c.w.iter().copied()).collect::<Vec<_>>(), c.cmp, c.bnd);
    if !k.is_unsat() {
        let (x1, x2) = (atomics::lit_impl_pb(b, &k), atomics::pb_impl_lit(&k, b));
        for x in 0..1u64 << N {
            let kv = k.evaluate(&full(N, x)) == TernaryVal::True;
            ensure!(x1.evaluate(&full(N, x)) == tv(!lit_true(c.b, x) || kv), "{b} -> ({k}) is {x1}, wrong under {x:b}");
            ensure!(x2.evaluate(&full(N, x)) == tv(!kv || lit_true(c.b, x)), "({k}) -> {b} is {x2}, wrong under {x:b}");
        }
        obs.nontrivial();
        obs.label(if k.is_tautology() { "tautology" } else { "pb" });
    }
    Ok(())
}
fn s_atomics(_t: Tier) -> BoxedStrategy<AtCase> {
    (s_lit(6), s_lit(6), s_lits(6, 0, 5), s_lits(6, 0, 4), vec(s_coeff(), 5), prop_oneof![4 => Just(Cmp::Le), 4 => Just(Cmp::Ge), 1 => Just(Cmp::Eq)], prop_oneof![-8isize..12, -30isize..30])
        .prop_map(|(a, b, la, lb, mut w, cmp, bnd)| {
            w.iter_mut().for_each(|w| *w = (*w).clamp(-(1 << 40), 1 << 40));
            AtCase { a, b, la, lb, w, cmp, bnd }
        })
        .boxed()
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "Random literals, cubes, clauses, cardinality and pseudo-Boolean constraints (trivial and repeated cases included); every implication and reification is compared with the propositional meaning on all assignments. Non-trivial: a satisfiable constraint was reified.",
        assumptions: vec![],
        subs: vec![sub("atomics", 500_000, 8_000_000, s_atomics, check_atomics)],
    }
}

// ---------- C30 literals, variables, assignments ----------
fn check_lit(x: &(u32, bool, u32, bool, u32), obs: &mut Obs) -> CheckResult {
    let &(idx, neg, idx2, neg2, d) = x;
    let ok = idx <= Var::MAX_IDX;
    ensure!(Lit::new_with_error(idx, neg).is_ok() == ok && Var::new_with_error(idx).is_ok() == ok, "creating index {idx} with error");
    ensure!(catch(|| Lit::new(idx, neg)).is_ok() == ok, "Lit::new({idx}) does {}panic", if ok { "" } else { "not " });
    ensure!(catch(|| Var::new(idx)).is_ok() == ok, "Var::new({idx}) does {}panic", if ok { "" } else { "not " });
    if !ok || idx2 > Var::MAX_IDX {
        return Ok(());
    }
    let (l, v) = (Lit::new(idx, neg), Var::new(idx));
    ensure!(v.lit(neg) == l && l.var() == v && l.is_neg() == neg && l.is_pos() != neg, "{l:?} {v:?}");
    ensure!(l.vidx32() == idx && l.vidx() == idx as usize && v.idx32() == idx && v.idx() == idx as usize, "index of {l:?}");
    ensure!(!!l == l && !l != l && (!l).var() == v && (!l).is_neg() != neg && -l == !l, "negation of {l:?}");
    ensure!(v.pos_lit() == Lit::positive(idx) && v.neg_lit() == Lit::negative(idx) && !v == v.neg_lit(), "literals of {v:?}");
    ensure!(unsafe { Lit::from_lidx(l.lidx32()) } == l && l.lidx() == l.lidx32() as usize, "literal index of {l:?}");
    let l2 = Lit::new(idx2, neg2);
    ensure!((l.lidx32() == l2.lidx32()) == (l == l2) && (l == l2) == (idx == idx2 && neg == neg2), "equality of {l:?} and {l2:?}");
    ensure!(l.cmp(&l2) == (idx, neg).cmp(&(idx2, neg2)) && v.cmp(&Var::new(idx2)) == idx.cmp(&idx2), "order of {l:?} and {l2:?}");
    if idx < Var::MAX_IDX {
        let i = l.to_ipasir();
        ensure!(i64::from(i) == (i64::from(idx) + 1) * if neg { -1 } else { 1 }, "{l:?} in IPASIR is {i}");
        ensure!(Lit::from_ipasir(i).is_ok_and(|x| x == l) && l.to_ipasir_with_error().is_ok_and(|x| x == i), "{l:?} via IPASIR {i}");
        ensure!(v.to_ipasir() == i.abs() && v.to_ipasir_with_error().is_ok_and(|x| x == i.abs()), "{v:?} in IPASIR");
    } else {
        ensure!(l.to_ipasir_with_error().is_err() && v.to_ipasir_with_error().is_err(), "{l:?} cannot be represented in IPASIR");
        obs.label("max");
    }
    ensure!(Lit::from_ipasir(0).is_err(), "zero");
    if d <= Var::MAX_IDX - idx {
        ensure!((l + d).vidx32() == idx + d && (l + d).is_neg() == neg && (v + d).idx32() == idx + d && (l + d) - d == l && (v + d) - d == v, "{l:?} + {d}");
        let (mut a, mut b) = (l, v);
        a += d;
        b += d;
        ensure!(a == l + d && b == v + d, "{l:?} += {d}");
        a -= d;
        b -= d;
        ensure!(a == l && b == v, "{l:?} -= {d}");
    }
    obs.nontrivial();
    Ok(())
}
fn s_litcase(_t: Tier) -> BoxedStrategy<(u32, bool, u32, bool, u32)> {
    let i = || prop_oneof![3 => 0u32..10, 2 => (Var::MAX_IDX - 3)..=(Var::MAX_IDX + 2), 2 => any::<u32>().prop_map(|x| x >> 1), 1 => any::<u32>()];
    (i(), any::<bool>(), i(), any::<bool>(), prop_oneof![0u32..5, any::<u32>().prop_map(|x| x >> 1)]).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Var(i32, i8),
    Lit(i32),
    Replace(bool),
    Trunc(i32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AHist {
    init: Vec<i8>,
    how: u8,
    ops: Vec<AOp>,
}
fn check_assign(h: &AHist, obs: &mut Obs) -> CheckResult {
    let t = |v: i8| match v {
        0 => TernaryVal::DontCare,
        1 => TernaryVal::True,
        _ => TernaryVal::False,
    };
    let lits = |m: &[i8]| m.iter().enumerate().filter(|(_, v)| **v != 0).map(|(i, v)| (i as i32 + 1) * i32::from(*v)).collect::<Vec<i32>>();
    let mut model = h.init.clone();
    let mut a: Assignment = match h.how {
        0 => h.init.iter().map(|v| t(*v)).collect(),
        1 => Assignment::from(h.init.iter().map(|v| t(*v)).collect::<Vec<_>>()),
        2 => {
            while model.last() == Some(&0) {
                model.pop();
            }
            lits(&model).into_iter().map(lit).collect()
        }
        _ => {
            model.iter_mut().for_each(|v| *v = if *v > 0 { 1 } else { -1 });
            model.iter().map(|v| *v > 0).collect()
        }
    };
    for op in &h.ops {
        match op {
            AOp::Var(v, x) => {
                a.assign_var(var(*v), t(*x));
                if model.len() < *v as usize {
                    model.resize(*v as usize, 0);
                }
                model[*v as usize - 1] = *x;
            }
            AOp::Lit(l) => {
                a.assign_lit(lit(*l));
                let v = l.unsigned_abs() as usize;
                if model.len() < v {
                    model.resize(v, 0);
                }
                model[v - 1] = l.signum() as i8;
            }
            AOp::Replace(d) => {
                a.replace_dont_care(*d);
                model.iter_mut().filter(|v| **v == 0).for_each(|v| *v = if *d { 1 } else { -1 });
            }
            AOp::Trunc(v) => {
                a = a.truncate(var(*v));
                model.truncate(*v as usize);
            }
        }
        ensure!(a.len() == model.len() && a.is_empty() == model.is_empty(), "length {} instead of {model:?}", a.len());
        ensure!(a.max_var() == if model.is_empty() { None } else { Some(var(model.len() as i32)) }, "max_var of {a}");
        for v in 1..=model.len() as i32 + 2 {
            let m = model.get(v as usize - 1).copied().unwrap_or(0);
            ensure!(a.var_value(var(v)) == t(m) && a.lit_value(lit(v)) == t(m) && a.lit_value(lit(-v)) == t(-m), "value of variable {v} in {a} is not {m}");
            if v as usize <= model.len() {
                ensure!(a[var(v)] == t(m), "index {v} of {a}");
            }
            ensure!(t(m).to_bool_with_def(true) == (m >= 0) && t(m).to_bool_with_def(false) == (m > 0) && !t(m) == t(-m), "ternary value {m}");
        }
        let want = lits(&model);
        let got: Vec<i32> = a.iter().map(ilit).collect();
        let got2: Vec<i32> = (&a).into_iter().map(ilit).collect();
        let got3: Vec<i32> = a.clone().into_iter().map(ilit).collect();
        ensure!(got == want && got2 == want && got3 == want, "literals of {a}: {got:?} {got2:?} {got3:?}, expected {want:?}");
        let s: String = model.iter().map(|v| ["0", "_", "1"][(*v + 1) as usize]).collect();
        ensure!(a.to_string() == s, "{a} printed, expected {s}");
        obs.nontrivial();
    }
    Ok(())
}
fn s_assign(_t: Tier) -> BoxedStrategy<AHist> {
    let op = prop_oneof![3 => (1i32..10, -1i8..=1).prop_map(|(v, x)| AOp::Var(v, x)), 3 => s_lit(10).prop_map(AOp::Lit), 1 => any::<bool>().prop_map(AOp::Replace), 1 => (1i32..12).prop_map(AOp::Trunc)];
    (vec(-1i8..=1, 0..7), 0u8..4, vec(op, 1..8)).prop_map(|(init, how, ops)| AHist { init, how, ops }).boxed()
}
pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "Random indices (small, around the maximum, arbitrary) for literals and variables, checked against integer arithmetic; random histories of assignment operations checked against a vector model after every step. Non-trivial: the index is valid, respectively at least one operation ran.",
        assumptions: vec![],
        subs: vec![sub("lit", 500_000, 10_000_000, s_litcase, check_lit), sub("assignment", 300_000, 5_000_000, s_assign, check_assign)],
    }
}
