//! C16–C19, C29: instances, objectives, variable managers, MaxSAT
use crate::c_types::{card_parts, full, pb_parts};
use crate::common::*;
use crate::spec::*;
use crate::stub::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::encodings::{card, pb, CollectClauses};
use rustsat::instances::*;
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vcore::*;

fn tv(b: bool) -> TernaryVal {
    if b {
        TernaryVal::True
    } else {
        TernaryVal::False
    }
}

// ---------- satisfiability instances ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ICase {
    n: i32,
    a: Vec<Con>,
    b: Vec<Con>,
    what: u8,
    enc: u8,
    part: Vec<i8>,
    offset: u32,
}

fn same<VM: ManageVars>(name: &str, i: &SatInstance<VM>, n: i32, want: impl Fn(u64) -> bool) -> CheckResult {
    for a in 0..1u64 << n {
        let got = i.evaluate(&full(n, a));
        ensure!(got == tv(want(a)), "{name}: assignment {:?} evaluates to {got:?}, instance {i:?}", assumps(&(1..=n).collect::<Vec<_>>(), a), i = IDbg(i));
    }
    Ok(())
}
struct IDbg<'a, VM: ManageVars>(&'a SatInstance<VM>);
impl<VM: ManageVars> std::fmt::Debug for IDbg<'_, VM> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({} clauses, {} cards, {} pbs) {:?}", self.0.n_clauses(), self.0.n_cards(), self.0.n_pbs(), self.0.cnf())
    }
}

/// The clauses, projected to the variables 1..=n, have exactly the wanted solutions
fn project(name: &str, cls: &[Vec<i32>], n: i32, n_used: u32, want: impl Fn(u64) -> bool) -> CheckResult {
    let mv = max_var_cls(cls);
    ensure!(mv as u32 <= n_used, "{name}: variable {mv} is used but not known to the variable manager ({n_used} used)");
    let mut f = Form::new(cls);
    let vars: Vec<i32> = (1..=n).collect();
    for a in 0..1u64 << n {
        let s = assumps(&vars, a);
        let got = f.sat(&s, &[]);
        ensure!(got == want(a), "{name}: {s:?} is {} by {cls:?}", if got { "allowed" } else { "excluded" });
    }
    Ok(())
}

fn check_inst(c: &ICase, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let inst: SatInstance = build(&c.a);
    let other: SatInstance = build(&c.b);
    let want = |a: u64| sat_all(&c.a, a);
    let mv = spec_vars(&c.a).last().copied().unwrap_or(0);
    ensure!(inst.n_vars() >= mv as u32, "variables not tracked");
    // variables beyond the used ones are free to be handed out
    let (n_all, n) = (n, mv);
    ensure!(inst.n_constraints() == inst.n_clauses() + inst.n_cards() + inst.n_pbs(), "n_constraints");
    same("built", &inst, n, want)?;
    // partial evaluation is sound, and unsatisfied constraints are reported
    let part = assignment(&c.part);
    let got = inst.evaluate(&part);
    // exactly as decided as the constraints on their own
    let single: Vec<TernaryVal> = c.a.iter().map(|k| build::<BasicVarManager>(std::slice::from_ref(k)).evaluate(&part)).collect();
    let comb = if single.contains(&TernaryVal::False) {
        TernaryVal::False
    } else if single.contains(&TernaryVal::DontCare) {
        TernaryVal::DontCare
    } else {
        TernaryVal::True
    };
    ensure!(got == comb, "partial assignment {part} evaluates to {got:?}, the constraints to {single:?}");
    for a in 0..1u64 << n {
        if (1..=n).all(|v| c.part[v as usize - 1] == 0 || (c.part[v as usize - 1] == 1) == lit_true(v, a)) && got != TernaryVal::DontCare {
            ensure!(got == tv(want(a)), "partial assignment {part} evaluates to {got:?}");
        }
    }
    for asg in std::iter::once(part).chain((0..1u64 << n).map(|a| full(n, a))) {
        let us = inst.unsat_constraint(&asg);
        ensure!(us.is_none() == (inst.evaluate(&asg) == TernaryVal::True), "unsat_constraint under {asg}");
        let val = match us {
            Some(ConstraintRef::Clause(c)) => c.evaluate(&asg),
            Some(ConstraintRef::Card(c)) => c.evaluate(&asg),
            Some(ConstraintRef::Pb(c)) => c.evaluate(&asg),
            None => TernaryVal::False,
        };
        ensure!(val != TernaryVal::True, "unsat_constraint returned a satisfied constraint");
    }
    if !c.a.iter().any(|c| matches!(c, Con::Imp(..))) {
        let vs: Vec<i32> = inst.var_set().into_iter().map(|v| v.idx32() as i32 + 1).collect();
        ensure!(vs == spec_vars(&c.a), "var_set {vs:?}");
    }
    let n_sat = (0..1u64 << n).filter(|a| want(*a)).count();
    if n_sat > 0 && n_sat < 1 << n {
        obs.nontrivial();
    }
    obs.label(match c.what % 12 {
        0 => "into_cnf",
        1 => "convert_to_cnf",
        2 => "with encoders",
        3 => "into_pbs",
        4 => "extend",
        5 => "sanitize",
        6 => "reindex",
        7 => "reindex_ordered",
        8 => "random reindex",
        9 => "shuffle / manager",
        10 => "collecting",
        _ => "new variables",
    });
    match c.what % 12 {
        0 => {
            let (cnf, vm) = inst.into_cnf();
            project("into_cnf", &icnf(&cnf), n, vm.n_used().max(n as u32), want)?;
        }
        1 => {
            let mut i = inst;
            i.convert_to_cnf();
            ensure!(i.n_cards() == 0 && i.n_pbs() == 0, "constraints left");
            project("convert_to_cnf", &icnf(i.cnf()), n, i.n_vars().max(n as u32), want)?;
        }
        2 => {
            type C = CardConstraint;
            type P = PbConstraint;
            let (cnf, vm) = inst.into_cnf_with_encoders(
                |k: C, col: &mut Cnf, vm: &mut dyn ManageVars| match c.enc % 2 {
                    0 => card::encode_cardinality_constraint::<card::Totalizer, _>(k, col, vm).unwrap(),
                    _ => card::encode_cardinality_constraint::<card::simulators::Double<card::Totalizer, card::simulators::Inverted<card::Totalizer>>, _>(k, col, vm).unwrap(),
                },
                |k: P, col: &mut Cnf, vm: &mut dyn ManageVars| match c.enc % 2 {
                    0 => pb::encode_pb_constraint::<pb::BinaryAdder, _>(k, col, vm).unwrap(),
                    1 => pb::encode_pb_constraint::<pb::DoubleGeneralizedTotalizer, _>(k, col, vm).unwrap(),
                    _ => pb::encode_pb_constraint::<pb::simulators::Double<pb::DynamicPolyWatchdog, pb::simulators::Inverted<pb::DynamicPolyWatchdog>>, _>(k, col, vm).unwrap(),
                },
            );
            project("into_cnf_with_encoders", &icnf(&cnf), n, vm.n_used().max(n as u32), want)?;
        }
        3 => {
            let k = inst.n_constraints();
            let (pbs, vm) = inst.into_pbs();
            ensure!(pbs.len() == k && vm.n_used() >= mv as u32, "into_pbs: {} constraints of {k}", pbs.len());
            for a in 0..1u64 << n {
                let ok = pbs.iter().all(|p| {
                    let (l, cmp, b) = pb_parts(p);
                    cmp.holds(l.iter().filter(|x| lit_true(x.0, a)).map(|x| x.1).sum(), b)
                });
                ensure!(ok == want(a), "into_pbs: {pbs:?} differ");
            }
        }
        4 => {
            let n = n_all;
            let both = |a: u64| sat_all(&c.a, a) && sat_all(&c.b, a);
            let mv = mv.max(spec_vars(&c.b).last().copied().unwrap_or(0)) as u32;
            let mut e = inst.clone();
            e.extend(other.clone());
            same("extend", &e, n, both)?;
            ensure!(e.n_vars() >= mv && e.n_constraints() == inst.n_constraints() + other.n_constraints(), "extend: counts");
            let e = inst.clone() & other.clone();
            same("&", &e, n, both)?;
            let mut e = inst;
            e &= other;
            same("&=", &e, n, both)?;
            ensure!(e.new_var().idx32() >= mv, "variable not fresh after joining");
        }
        5 => {
            let s = inst.sanitize();
            same("sanitize", &s, n.max(1), want)?;
            ensure!(s.n_vars() >= s.var_set().last().map_or(0, |v| v.idx32() + 1), "sanitize: variables not tracked");
            let (cnf, vm) = s.into_cnf();
            project("sanitize + into_cnf", &icnf(&cnf), n, vm.n_used().max(n as u32), want)?;
        }
        k @ 6..=8 => {
            let vs: Vec<Var> = inst.var_set().into_iter().collect();
            let check = |map: &BTreeMap<Var, Var>, eval: &dyn Fn(&rustsat::types::Assignment) -> TernaryVal| -> CheckResult {
                let im: BTreeSet<Var> = map.values().copied().collect();
                ensure!(im.len() == map.len(), "re-indexing is not injective: {map:?}");
                for a in 0..1u64 << n {
                    let mut asg = rustsat::types::Assignment::default();
                    for (v, w) in map {
                        asg.assign_var(*w, tv(lit_true(v.idx32() as i32 + 1, a)));
                    }
                    // variables not mentioned do not matter
                    asg.replace_dont_care(a % 3 == 0);
                    ensure!(eval(&asg) == tv(want(a)), "re-indexed instance differs under image of {a:b}, map {map:?}");
                }
                Ok(())
            };
            if k == 8 {
                let r = RandReindVarManager::init(c.offset % (n as u32 + 2));
                let j = inst.reindex(r);
                let js = j.var_set();
                ensure!(j.n_vars() >= js.last().map_or(0, |v| v.idx32() + 1), "random re-indexing: variables not tracked");
                let map: BTreeMap<Var, Var> = js.iter().filter_map(|w| j.var_manager_ref().reverse(*w).map(|v| (v, *w))).collect();
                ensure!(map.keys().copied().collect::<Vec<_>>() == vs, "random re-indexing: {map:?} does not cover {vs:?}");
                check(&map, &|a| j.evaluate(a))?;
            } else {
                let off = c.offset % 4;
                // variables below `off` are identity-mapped
                let r = if off == 0 { ReindexingVarManager::default() } else { ReindexingVarManager::from_next_free(Var::new(off)) };
                let mut j = if k == 6 { inst.reindex(r) } else { inst.reindex_ordered(r) };
                let js = j.var_set();
                ensure!(j.n_vars() >= js.last().map_or(0, |v| v.idx32() + 1), "re-indexing: variables not tracked");
                let map: BTreeMap<Var, Var> = vs.iter().map(|v| (*v, j.var_manager_mut().reindex(*v))).collect();
                ensure!(map.values().copied().collect::<BTreeSet<_>>() == js, "variables after re-indexing {js:?} but map {map:?}");
                for (v, w) in &map {
                    ensure!(j.var_manager_ref().reverse(*w) == Some(*v), "reverse of {w} is {:?}, not {v}", j.var_manager_ref().reverse(*w));
                    ensure!(v.idx32() >= off || v == w, "variable {v} below {off} moved to {w}");
                    ensure!(off > 0 || w.idx() < vs.len(), "re-indexing leaves gaps: {map:?}");
                }
                if k == 7 && off == 0 {
                    ensure!(map.values().zip(map.values().skip(1)).all(|(a, b)| a < b), "ordered re-indexing is not ordered: {map:?}");
                }
                check(&map, &|a| j.evaluate(a))?;
            }
        }
        9 => {
            let k = (inst.n_clauses(), inst.n_cards(), inst.n_pbs());
            let s = inst.clone().shuffle();
            ensure!((s.n_clauses(), s.n_cards(), s.n_pbs()) == k && s.n_vars() == inst.n_vars(), "shuffle: counts");
            same("shuffle", &s, n, want)?;
            let nv = inst.n_vars();
            let (i2, old) = inst.change_var_manager(|vm| GapVm::new(vm.n_used() + 3, 2));
            ensure!(old.n_used() == nv && i2.var_manager_ref().next == nv + 3, "change_var_manager");
            same("change_var_manager", &i2, n, want)?;
            let (cnf, vm) = i2.into_cnf();
            let cls = icnf(&cnf);
            only_known_vars(&cls, &(1..=n).collect::<Vec<_>>(), &vm.given)?;
            project("into_cnf with another manager", &cls, n, vm.next, want)?;
        }
        10 => {
            let cls: Vec<Vec<i32>> = c.a.iter().filter_map(|c| if let Con::Cl(c) = c { Some(c.clone()) } else { None }).collect();
            let wc = |a: u64| cls.iter().all(|c| c.iter().any(|l| lit_true(*l, a)));
            let mv = max_var_cls(&cls) as u32;
            let f = cnf(&cls);
            let mut variants: Vec<(&str, SatInstance)> = vec![("From<Cnf>", SatInstance::from(f.clone())), ("FromIterator<Clause>", f.iter().cloned().collect())];
            let mut e: SatInstance = SatInstance::new();
            Extend::<Clause>::extend(&mut e, f.clone());
            variants.push(("Extend<Clause>", e));
            let mut e: SatInstance = SatInstance::new();
            e.extend_clauses(f.clone()).unwrap();
            variants.push(("CollectClauses::extend_clauses", e));
            let mut e: SatInstance = SatInstance::new();
            for c in &f {
                CollectClauses::add_clause(&mut e, c.clone()).unwrap();
            }
            variants.push(("CollectClauses::add_clause", e));
            variants.push(("& Cnf", SatInstance::new() & f.clone()));
            for (name, v) in &variants {
                same(name, v, n, wc)?;
                ensure!(v.n_clauses() == cls.len() && v.n_vars() >= mv, "{name}: {} clauses, {} variables, expected {} and at least {mv}", v.n_clauses(), v.n_vars(), cls.len());
                ensure!(icnf(v.cnf()) == cls, "{name}: clauses changed");
            }
            let cards: Vec<CardConstraint> = c.a.iter().filter_map(|c| if let Con::Card(l, k, b) = c { Some(crate::c_types::card(l, *k, *b)) } else { None }).collect();
            let pbs: Vec<PbConstraint> = c.a.iter().filter_map(|c| if let Con::Pb(l, k, b) = c { Some(crate::c_types::pb(l, *k, *b)) } else { None }).collect();
            let i: SatInstance = cards.iter().cloned().collect();
            let cards_ok = |a: u64| cards.iter().all(|k| { let (l, cmp, b) = card_parts(k); cmp.holds(l.iter().filter(|x| lit_true(x.0, a)).map(|x| x.1).sum(), b) });
            same("FromIterator<CardConstraint>", &i, n, cards_ok)?;
            ensure!(i.n_vars() >= i.var_set().last().map_or(0, |v| v.idx32() + 1), "collected cards: variables");
            let i: SatInstance = pbs.iter().cloned().collect();
            let pbs_ok = |a: u64| pbs.iter().all(|k| { let (l, cmp, b) = pb_parts(k); cmp.holds(l.iter().filter(|x| lit_true(x.0, a)).map(|x| x.1).sum(), b) });
            same("FromIterator<PbConstraint>", &i, n, pbs_ok)?;
            ensure!(i.n_vars() >= i.var_set().last().map_or(0, |v| v.idx32() + 1), "collected pbs: variables");
        }
        _ => {
            let mut i = inst;
            let used: BTreeSet<u32> = spec_vars(&c.a).iter().map(|v| *v as u32 - 1).collect();
            let mut fresh = BTreeSet::new();
            for k in 0..4 {
                let v = if k % 2 == 0 { i.new_var() } else { i.new_lit().var() };
                ensure!(!used.contains(&v.idx32()) && fresh.insert(v.idx32()), "new variable {v} is in use");
                ensure!(i.max_var() >= Some(v) && i.n_vars() > v.idx32(), "max_var");
            }
            i.convert_to_cnf();
            let v = i.new_var();
            ensure!(max_var_cls(&icnf(i.cnf())) as u32 <= v.idx32(), "new variable {v} is in use after conversion");
        }
    }
    Ok(())
}
fn s_icase(t: Tier) -> BoxedStrategy<ICase> {
    (1i32..=t.pick(5, 6))
        .prop_flat_map(move |n| (Just(n), s_spec(n, t.pick(6, 8)), s_spec(n, 3), 0u8..12, any::<u8>(), vec(-1i8..=1, n as usize), 0u32..8))
        .prop_map(|(n, a, b, what, enc, part, offset)| ICase { n, a, b, what, enc, part, offset })
        .boxed()
}

// ---------- CNF ----------
fn check_cnf(c: &(Vec<Vec<i32>>, Vec<Vec<i32>>, u64), obs: &mut Obs) -> CheckResult {
    let n = 5;
    let (a, b, x) = c;
    let f = cnf(a);
    let g = cnf(b);
    let sat = |cls: &[Vec<i32>], x: u64| cls.iter().all(|c| c.iter().any(|l| lit_true(*l, x)));
    let eq = |name: &str, f: &Cnf, want: &dyn Fn(u64) -> bool| -> CheckResult {
        for x in 0..1u64 << n {
            ensure!(f.evaluate(&full(n, x)) == tv(want(x)), "{name}: {f:?} under {x:b}");
        }
        Ok(())
    };
    let fa = |x: u64| sat(a, x);
    let both = |x: u64| sat(a, x) && sat(b, x);
    eq("cnf", &f, &fa)?;
    ensure!(f.len() == a.len() && f.is_empty() == a.is_empty() && CollectClauses::n_clauses(&f) == a.len(), "len");
    eq("sanitize", &f.clone().sanitize(), &fa)?;
    eq("shuffle", &f.clone().shuffle(), &fa)?;
    ensure!(f.clone().shuffle().len() == f.len(), "shuffle");
    let norm = f.clone().normalize();
    eq("normalize", &norm, &fa)?;
    // canonical: same set of clauses as sets of literals
    let mut perm: Cnf = a
        .iter()
        .map(|c| {
            let mut c = c.clone();
            if !c.is_empty() {
                let k = (*x as usize) % c.len();
                c.rotate_left(k);
                c.push(c[0]);
            }
            clause(&c)
        })
        .collect();
    if !a.is_empty() {
        perm.add_clause(clause(&a[(*x as usize) % a.len()]));
    }
    perm.extend(std::iter::once(clause(&[1, -1])));
    ensure!(perm.shuffle().normalize() == norm, "normalization is not canonical: {norm:?}");
    let set = |f: &Cnf| icnf(f).into_iter().map(|c| c.into_iter().collect::<BTreeSet<_>>()).filter(|c| !c.iter().any(|l| c.contains(&-l))).collect::<BTreeSet<_>>();
    ensure!(set(&norm) == set(&f) && set(&norm).len() == norm.len(), "normalize changed the set of clauses: {f:?} to {norm:?}");
    eq("join", &f.clone().join(g.clone()), &both)?;
    eq("&", &(f.clone() & g.clone()), &both)?;
    let mut h = f.clone();
    h &= g.clone();
    eq("&=", &h, &both)?;
    ensure!(icnf(&h) == a.iter().chain(b).cloned().collect::<Vec<_>>(), "&= order");
    let mut h = f.clone();
    h.extend_clauses(g.clone()).unwrap();
    ensure!(icnf(&h) == a.iter().chain(b).cloned().collect::<Vec<_>>(), "extend_clauses");
    // without a size hint
    let mut h = f.clone();
    let mut k = 0;
    h.extend_clauses(std::iter::from_fn(|| {
        k += 1;
        b.get(k - 1).map(|c| clause(c))
    }))
    .unwrap();
    ensure!(icnf(&h) == a.iter().chain(b).cloned().collect::<Vec<_>>(), "extend_clauses without size hint: {h:?}");
    let mut h = Cnf::with_capacity(3);
    for c in a {
        match c.len() {
            1 => h.add_unit(lit(c[0])),
            2 => h.add_binary(lit(c[0]), lit(c[1])),
            3 => h.add_ternary(lit(c[0]), lit(c[1]), lit(c[2])),
            _ => h.add_nary(&c.iter().map(|l| lit(*l)).collect::<Vec<_>>()),
        }
    }
    ensure!(h == f, "adding clauses one by one");
    for (i, c) in f.iter().enumerate() {
        ensure!(&f[i] == c, "index");
    }
    let mut h = f.clone();
    h.shrink_to_fit();
    ensure!(h == f && f.clone().into_iter().collect::<Cnf>() == f, "iteration");
    h.clear();
    ensure!(h.is_empty(), "clear");
    if a.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "instance case: the instance is satisfiable but not a tautology; cnf case: more than one clause",
        assumptions: vec!["at most 6 variables and 8 constraints per instance"],
        subs: vec![
            sub("instance", 180_000, 6_000_000, s_icase, check_inst),
            sub("cnf", 60_000, 1_800_000, |_t| (s_clauses(5, 4, 7), s_clauses(5, 4, 40), any::<u64>()).boxed(), check_cnf),
        ],
    }
}

// ---------- objectives ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) enum OOp {
    AddLit(usize, i32),
    IncLit(usize, i32),
    IncInt(isize, i32),
    AddCl(usize, Vec<i32>),
    IncCl(usize, Vec<i32>),
    SetOff(isize),
    IncOff(isize),
    Norm,
    Shuffle,
}
#[derive(Clone, Debug, Default)]
pub(crate) struct OModel {
    pub lits: BTreeMap<i32, usize>,
    pub cls: BTreeMap<Vec<i32>, usize>,
    pub off: i128,
    pub dup: bool,
}
impl OModel {
    fn add_lit(&mut self, w: usize, l: i32) -> Option<usize> {
        if w == 0 {
            self.lits.remove(&l)
        } else {
            self.lits.insert(l, w)
        }
    }
    fn inc_lit(&mut self, w: usize, l: i32) {
        if w > 0 {
            self.dup |= self.lits.contains_key(&l);
            *self.lits.entry(l).or_default() += w;
        }
    }
    pub fn cost(&self, a: u64) -> i128 {
        self.off + self.lits.iter().filter(|(l, _)| lit_true(**l, a)).map(|x| *x.1 as i128).sum::<i128>() + self.cls.iter().filter(|(c, _)| !c.iter().any(|l| lit_true(*l, a))).map(|x| *x.1 as i128).sum::<i128>()
    }
    fn vars(&self) -> Vec<i32> {
        vars_of(self.lits.keys().copied().chain(self.cls.keys().flatten().copied()))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OCase {
    n: i32,
    ops: Vec<OOp>,
    fin: u8,
    extra: u32,
}
pub(crate) fn obj_eq(name: &str, n: i32, o: &Objective, want: &dyn Fn(u64) -> i128) -> CheckResult {
    for a in 0..1u64 << n {
        let got = o.evaluate(&full(n, a)) as i128;
        ensure!(got == want(a), "{name}: cost of {:?} is {got}, expected {}; {o:?}", assumps(&(1..=n).collect::<Vec<_>>(), a), want(a));
        ensure!(o.evaluate_no_offset(&full(n, a)) as i128 + o.offset() as i128 == got, "{name}: cost without offset");
    }
    Ok(())
}
pub(crate) fn build_obj(n: i32, ops: &[OOp], obs: &mut Obs) -> Result<(Objective, OModel), Fail> {
    let mut o = Objective::new();
    let mut m = OModel::default();
    for (i, op) in ops.iter().enumerate() {
        match op {
            OOp::AddLit(w, l) => {
                let old = o.add_soft_lit(*w, lit(*l));
                let want = m.add_lit(*w, *l);
                ensure!(old == want, "operation {i} {op:?} returned {old:?} for the old weight {want:?}");
            }
            OOp::IncLit(w, l) => {
                o.increase_soft_lit(*w, lit(*l));
                m.inc_lit(*w, *l);
            }
            OOp::IncInt(w, l) => {
                o.increase_soft_lit_int(*w, lit(*l));
                if *w < 0 {
                    m.off += *w as i128;
                    m.inc_lit(w.unsigned_abs(), -l);
                } else {
                    m.inc_lit(w.unsigned_abs(), *l);
                }
            }
            OOp::AddCl(w, c) => {
                let old = o.add_soft_clause(*w, clause(c));
                let want = match c.len() {
                    0 => {
                        m.off += *w as i128;
                        None
                    }
                    1 => m.add_lit(*w, -c[0]),
                    _ if *w == 0 => m.cls.remove(c),
                    _ => m.cls.insert(c.clone(), *w),
                };
                ensure!(old == want, "operation {i} {op:?} returned {old:?} for the old weight {want:?}");
            }
            OOp::IncCl(w, c) => {
                o.increase_soft_clause(*w, clause(c));
                match c.len() {
                    0 => m.off += *w as i128,
                    1 => m.inc_lit(*w, -c[0]),
                    _ if *w > 0 => {
                        m.dup |= m.cls.contains_key(c);
                        *m.cls.entry(c.clone()).or_default() += *w;
                    }
                    _ => (),
                }
            }
            OOp::SetOff(x) => {
                o.set_offset(*x);
                m.off = *x as i128;
            }
            OOp::IncOff(x) => {
                o.increase_offset(*x);
                m.off += *x as i128;
            }
            OOp::Norm => {
                // the represented function stays the same, the representation becomes unknown
                let before = m.clone();
                o = o.normalize();
                obj_eq("normalize", n, &o, &|a| before.cost(a))?;
                obs.label("normalize");
                m = read_model(&o)?;
            }
            OOp::Shuffle => o = o.shuffle(),
        }
        ensure!(o.offset() as i128 == m.off, "offset after {op:?}");
    }
    Ok((o, m))
}
/// Reads the parts of an objective back via its iterators
pub(crate) fn read_model(o: &Objective) -> Result<OModel, Fail> {
    let mut m = OModel { off: o.offset() as i128, ..Default::default() };
    let mut k = 0;
    for (c, w) in o.iter_soft_cls() {
        let c = icl(&c);
        ensure!(!c.is_empty(), "empty soft clause in {o:?}");
        if c.len() == 1 {
            m.inc_lit(w, -c[0]);
        } else {
            m.dup |= m.cls.contains_key(&c);
            *m.cls.entry(c).or_default() += w;
        }
        k += 1;
    }
    ensure!(k == o.n_softs(), "n_softs");
    Ok(m)
}
/// Minimal soft literal cost under an assignment of the first n variables, over the extensions to the other soft literals
fn min_ext(f: &mut Form, n: i32, a: u64, softs: &[(i32, usize)]) -> Option<(i128, Vec<i32>)> {
    let base = assumps(&(1..=n).collect::<Vec<_>>(), a);
    let fixed: i128 = softs.iter().filter(|(l, _)| l.abs() <= n && lit_true(*l, a)).map(|x| x.1 as i128).sum();
    let fresh = vars_of(softs.iter().filter(|(l, _)| l.abs() > n).map(|x| x.0));
    let mut best: Option<(i128, Vec<i32>)> = None;
    for m in 0u64..1 << fresh.len() {
        let mut s = base.clone();
        let ext: Vec<i32> = fresh.iter().enumerate().map(|(i, v)| if (m >> i) & 1 == 1 { *v } else { -*v }).collect();
        let cost = fixed + softs.iter().filter(|(l, _)| ext.contains(l)).map(|x| x.1 as i128).sum::<i128>();
        if best.as_ref().is_some_and(|b| b.0 <= cost) {
            continue;
        }
        s.extend(&ext);
        if f.sat(&s, &[]) {
            best = Some((cost, ext));
        }
    }
    best
}
fn check_obj(c: &OCase, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let (o, m) = build_obj(n, &c.ops, obs)?;
    let cost = |a: u64| m.cost(a);
    obj_eq("built", n, &o, &cost)?;
    obs.label(if o.weighted() { "weighted" } else { "unweighted" });
    ensure!(o.is_empty() == (m.lits.is_empty() && m.cls.is_empty() && m.off == 0), "is_empty of {o:?}");
    ensure!(o.constant() == (m.lits.is_empty() && m.cls.is_empty()), "constant of {o:?}");
    ensure!(o.lit_weight_sum() == m.lits.values().sum::<usize>() && o.clause_weight_sum() == m.cls.values().sum::<usize>() && o.weight_sum() == o.lit_weight_sum() + o.clause_weight_sum(), "weight sums of {o:?}");
    for v in (-n..=n).filter(|v| *v != 0) {
        ensure!(o.lit_weight(lit(v)) == m.lits.get(&v).copied(), "weight of {v} in {o:?}");
    }
    for (k, w) in &m.cls {
        ensure!(o.clause_weight(&clause(k)) == Some(*w), "weight of {k:?} in {o:?}");
    }
    if !m.dup || o.weighted() {
        ensure!(o.n_lits() == m.lits.len() && o.n_clauses() == m.cls.len() && o.n_softs() == m.lits.len() + m.cls.len(), "counts of {o:?}");
        if let (Some(hi), Some(lo)) = (m.lits.values().max(), m.lits.values().min()) {
            ensure!(o.max_lit_weight() == *hi && o.min_lit_weight() == *lo, "extreme literal weights of {o:?}");
        }
        if let (Some(hi), Some(lo)) = (m.cls.values().max(), m.cls.values().min()) {
            ensure!(o.max_clause_weight() == *hi && o.min_clause_weight() == *lo, "extreme clause weights of {o:?}");
        }
        let all: Vec<usize> = m.lits.values().chain(m.cls.values()).copied().collect();
        if !m.lits.is_empty() && !m.cls.is_empty() {
            ensure!(o.max_weight() == *all.iter().max().unwrap() && o.min_weight() == *all.iter().min().unwrap(), "extreme weights of {o:?}");
        }
    }
    let mv = m.vars().last().copied().unwrap_or(0);
    ensure!(o.max_var().map_or(0, |v| v.idx32() as i32 + 1) == mv, "max_var of {o:?}");
    let back = read_model(&o)?;
    ensure!(back.lits == m.lits && back.cls == m.cls, "iter_soft_cls of {o:?}");
    match o.iter_soft_lits() {
        Ok(it) => {
            let mut l: BTreeMap<i32, usize> = BTreeMap::new();
            for (x, w) in it {
                *l.entry(ilit(x)).or_default() += w;
            }
            ensure!(m.cls.is_empty() && l == m.lits, "iter_soft_lits of {o:?}");
            use pigeons::ObjectiveLike;
            let mut off = ObjectiveLike::offset(&o) as i128;
            let mut l: BTreeMap<String, i128> = BTreeMap::new();
            for (w, x) in o.sum_iter() {
                *l.entry(x.to_string()).or_default() += w as i128;
            }
            for (x, w) in &m.lits {
                let name = format!("{}x{}", if *x < 0 { "~" } else { "" }, x.abs());
                ensure!(l.remove(&name) == Some(*w as i128), "proof objective of {o:?}");
            }
            off -= m.off;
            ensure!(l.is_empty() && off == 0, "proof objective of {o:?}");
        }
        Err(_) => ensure!(!m.cls.is_empty(), "iter_soft_lits of {o:?} refused"),
    }
    if m.lits.len() + m.cls.len() > 1 {
        obs.nontrivial();
    }
    let vars: Vec<i32> = (1..=n).collect();
    match c.fin % 8 {
        0 => {
            let (it, off) = o.into_soft_cls();
            let mut got = OModel { off: off as i128, ..Default::default() };
            for (cl, w) in it {
                *got.cls.entry(icl(&cl)).or_default() += w;
            }
            for a in all_assignments(&vars) {
                ensure!(got.cost(a) == cost(a), "into_soft_cls: {got:?}");
            }
        }
        1 => {
            let (it, unit, off) = o.into_unweighted_soft_cls();
            let cls: Vec<Vec<i32>> = it.into_iter().map(|c| icl(&c)).collect();
            for a in all_assignments(&vars) {
                let k = cls.iter().filter(|c| !c.iter().any(|l| lit_true(*l, a))).count();
                ensure!(off as i128 + (k * unit) as i128 == cost(a), "into_unweighted_soft_cls: {cls:?} weight {unit} offset {off}");
            }
        }
        k @ 2..=4 => {
            let mut vm = GapVm::new(n as u32 + c.extra % 3, c.extra % 2);
            let mut o2 = o.clone();
            let (f, softs, off): (Cnf, Vec<(i32, usize)>, isize) = match k {
                2 => {
                    let f = o2.convert_to_soft_lits(&mut vm);
                    ensure!(o2.n_clauses() == 0, "soft clauses left");
                    let l = o2.iter_soft_lits().unwrap().into_iter().map(|(l, w)| (ilit(l), w)).collect();
                    (f, l, o2.offset())
                }
                3 => {
                    let (f, (it, off)) = o2.into_soft_lits(&mut vm);
                    (f, it.into_iter().map(|(l, w)| (ilit(l), w)).collect(), off)
                }
                _ => {
                    let (f, it, unit, off) = o2.into_unweighted_soft_lits(&mut vm);
                    (f, it.into_iter().map(|l| (ilit(l), unit)).collect(), off)
                }
            };
            let cls = icnf(&f);
            only_known_vars(&cls, &vars, &vm.given)?;
            for (l, _) in &softs {
                ensure!(l.abs() <= n || vm.given.contains(&(l.unsigned_abs() - 1)), "soft literal {l} is not known");
            }
            let mut f = Form::new(&cls);
            for a in all_assignments(&vars) {
                let got = min_ext(&mut f, n, a, &softs).map(|x| x.0 + off as i128);
                ensure!(got == Some(cost(a)), "soft literals: cost of {a:b} is {got:?}, expected {}; {cls:?} {softs:?} {off}, objective {o:?}", cost(a));
            }
        }
        5 => {
            let p = o.clone().normalize();
            obj_eq("normalize", n, &p, &cost)?;
            let q = p.clone().normalize();
            obj_eq("normalize twice", n, &q, &cost)?;
            obj_eq("shuffle", n, &o.clone().shuffle(), &cost)?;
        }
        6 => {
            let mut r = ReindexingVarManager::from_next_free(Var::new(0));
            // reserve some variables, in a scrambled order
            for v in (1..=n).rev().step_by(1 + (c.extra % 3) as usize) {
                r.reindex(var(v));
            }
            let p = o.reindex(&mut r);
            for a in all_assignments(&vars) {
                let mut asg = rustsat::types::Assignment::default();
                for v in &vars {
                    asg.assign_var(r.reindex(var(*v)), tv(lit_true(*v, a)));
                }
                ensure!(p.evaluate(&asg) as i128 == cost(a), "reindex: {p:?}");
            }
        }
        _ => {
            let a: Objective = m.lits.iter().map(|(l, w)| (lit(*l), *w)).collect();
            obj_eq("FromIterator<(Lit, usize)>", n, &a, &|x| OModel { lits: m.lits.clone(), ..Default::default() }.cost(x))?;
            let b: Objective = m.lits.iter().map(|(l, w)| (lit(*l), -(*w as isize))).collect();
            obj_eq("FromIterator<(Lit, isize)>", n, &b, &|x| -OModel { lits: m.lits.clone(), ..Default::default() }.cost(x))?;
            let d: Objective = o.iter_soft_cls().into_iter().collect();
            obj_eq("FromIterator<(Clause, usize)>", n, &d, &|x| cost(x) - m.off)?;
        }
    }
    Ok(())
}
pub(crate) fn s_oops(n: i32, lo: usize, hi: usize) -> BoxedStrategy<Vec<OOp>> {
    let w = prop_oneof![1 => Just(0usize), 5 => Just(2usize), 2 => 1usize..=4];
    let cl = vec(s_lit(n), 0..=3);
    let op = prop_oneof![
        3 => (w.clone(), s_lit(n)).prop_map(|(w, l)| OOp::AddLit(w, l)),
        4 => (w.clone(), s_lit(n)).prop_map(|(w, l)| OOp::IncLit(w, l)),
        2 => (-3isize..=3, s_lit(n)).prop_map(|(w, l)| OOp::IncInt(w, l)),
        2 => (w.clone(), cl.clone()).prop_map(|(w, c)| OOp::AddCl(w, c)),
        2 => (w, cl).prop_map(|(w, c)| OOp::IncCl(w, c)),
        1 => (-5isize..=5).prop_map(OOp::SetOff),
        1 => (-5isize..=5).prop_map(OOp::IncOff),
        1 => Just(OOp::Norm),
        1 => Just(OOp::Shuffle),
    ];
    vec(op, lo..=hi)
        .prop_map(|mut v| {
            // bound the number of relaxed clauses
            let mut k = 0;
            v.retain(|o| {
                if matches!(o, OOp::AddCl(_, c) | OOp::IncCl(_, c) if c.len() > 1) {
                    k += 1;
                    k <= 4
                } else {
                    true
                }
            });
            v
        })
        .boxed()
}

// ---------- optimization instances ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) struct OptCase {
    pub(crate) n: i32,
    pub(crate) con: Vec<Con>,
    pub(crate) objs: Vec<Vec<OOp>>,
    pub(crate) what: u8,
    pub(crate) off: u32,
}
fn used_ok(name: &str, vs: &BTreeSet<Var>, new: Var) -> CheckResult {
    ensure!(vs.iter().all(|v| *v < new), "{name}: new variable {new} is in use ({vs:?})");
    Ok(())
}
fn check_opt(c: &OptCase, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let (o, m) = build_obj(n, &c.objs[0], obs)?;
    let want = |a: u64| sat_all(&c.con, a).then(|| m.cost(a));
    let constrs: SatInstance = build(&c.con);
    let mut i: OptInstance = OptInstance::compose(constrs.clone(), o.clone());
    if c.off % 2 == 1 {
        // build in another way
        i = OptInstance::new();
        *i.constraints_mut() = constrs;
        *i.objective_mut() = o.clone();
    }
    let cost_eq = |name: &str, i: &dyn Fn(&rustsat::types::Assignment) -> Option<isize>| -> CheckResult {
        for a in 0..1u64 << n {
            let got = i(&full(n, a)).map(|x| x as i128);
            ensure!(got == want(a), "{name}: cost of {a:b} is {got:?}, expected {:?}", want(a));
        }
        Ok(())
    };
    cost_eq("cost", &|a| i.cost(a))?;
    let mut allv: BTreeSet<Var> = o.iter_soft_cls().into_iter().flat_map(|(c, _)| c.into_iter().map(|l| l.var()).collect::<Vec<_>>()).collect();
    allv.extend(i.constraints_ref().var_set());
    ensure!(i.var_set() == allv, "var_set");
    // variables beyond the used ones are free to be handed out
    let n = allv.last().map_or(0, |v| v.idx32() as i32 + 1);
    let solutions = (0..1u64 << n).filter(|a| want(*a).is_some()).count();
    if solutions > 1 && !m.vars().is_empty() {
        obs.nontrivial();
    }
    match c.what % 6 {
        0 => {
            let (s, p) = i.decompose();
            let mut s = s;
            used_ok("decompose", &allv, s.new_var())?;
            let back: OptInstance = OptInstance::compose(s, p);
            cost_eq("decompose + compose", &|a| back.cost(a))?;
            if c.off % 2 == 0 {
                let mut b2 = back;
                used_ok("compose", &allv, b2.new_var())?;
                ensure!(b2.max_var().is_some_and(|v| allv.last().is_none_or(|l| v >= *l)), "max_var");
            }
        }
        1 => {
            let (f, (it, off), vm) = i.into_hard_cls_soft_cls();
            let mut got = OModel { off: off as i128, ..Default::default() };
            for (cl, w) in it {
                *got.cls.entry(icl(&cl)).or_default() += w;
            }
            project("into_hard_cls_soft_cls", &icnf(&f), n, vm.n_used().max(n as u32), |a| want(a).is_some())?;
            for a in 0..1u64 << n {
                ensure!(got.cost(a) == m.cost(a), "into_hard_cls_soft_cls: {got:?}");
            }
            let mut vm = vm;
            used_ok("into_hard_cls_soft_cls", &allv, vm.new_var())?;
        }
        2 => {
            let (f, (it, off), vm) = i.into_hard_cls_soft_lits();
            let softs: Vec<(i32, usize)> = it.into_iter().map(|(l, w)| (ilit(l), w)).collect();
            let cls = icnf(&f);
            let top = max_var_cls(&cls).max(softs.iter().map(|x| x.0.abs()).max().unwrap_or(0)) as u32;
            ensure!(vm.n_used() >= top, "into_hard_cls_soft_lits: variable {top} is not tracked");
            let mut f = Form::new(&cls);
            for a in 0..1u64 << n {
                let got = min_ext(&mut f, n, a, &softs).map(|x| x.0 + off as i128);
                ensure!(got == want(a), "into_hard_cls_soft_lits: cost of {a:b} is {got:?}, expected {:?}; {cls:?} {softs:?} {off}", want(a));
            }
        }
        k @ 3..=4 => {
            let r = ReindexingVarManager::from_next_free(Var::new(c.off % 3));
            let mut j = if k == 3 { i.reindex(r) } else { i.reindex_ordered(r) };
            let js = j.var_set();
            let map: BTreeMap<Var, Var> = allv.iter().map(|v| (*v, j.constraints_mut().var_manager_mut().reindex(*v))).collect();
            ensure!(map.values().copied().collect::<BTreeSet<_>>() == js && js.len() == map.len(), "re-indexing {map:?}, variables {js:?}");
            if k == 4 && c.off % 3 == 0 {
                ensure!(map.values().zip(map.values().skip(1)).all(|(a, b)| a < b), "ordered re-indexing is not ordered: {map:?}");
            }
            for a in 0..1u64 << n {
                let mut asg = rustsat::types::Assignment::default();
                for (v, w) in &map {
                    asg.assign_var(*w, tv(lit_true(v.idx32() as i32 + 1, a)));
                }
                asg.replace_dont_care(a % 3 == 0);
                ensure!(j.cost(&asg).map(|x| x as i128) == want(a), "re-indexed instance differs under image of {a:b}, map {map:?}");
            }
            used_ok("reindex", &js, j.new_var())?;
        }
        _ => {
            let s = i.clone().shuffle();
            cost_eq("shuffle", &|a| s.cost(a))?;
            let (j, old) = i.change_var_manager(|vm| GapVm::new(vm.n_used() + n as u32, 1));
            ensure!(old.n_used() + n as u32 == j.constraints_ref().var_manager_ref().next, "change_var_manager");
            cost_eq("change_var_manager", &|a| j.cost(a))?;
            use rustsat::instances::fio::dimacs::WcnfLine;
            let mut lines: Vec<WcnfLine> = vec![WcnfLine::Comment("x".into())];
            let mut wm = OModel { off: 0, ..m.clone() };
            wm.off = 0;
            let hard: Vec<Vec<i32>> = c.con.iter().filter_map(|c| if let Con::Cl(c) = c { Some(c.clone()) } else { None }).collect();
            for h in &hard {
                lines.push(WcnfLine::Hard(clause(h)));
            }
            for (l, w) in &m.lits {
                lines.push(WcnfLine::Soft(clause(&[-l]), *w));
            }
            for (k, w) in &m.cls {
                // twice
                lines.push(WcnfLine::Soft(clause(k), *w));
                lines.push(WcnfLine::Soft(clause(k), *w));
                *wm.cls.get_mut(k).unwrap() += *w;
            }
            lines.push(WcnfLine::Soft(Clause::new(), 3));
            wm.off = 3;
            let mut j: OptInstance = lines.into_iter().collect();
            for a in 0..1u64 << n {
                let w = hard.iter().all(|c| c.iter().any(|l| lit_true(*l, a))).then(|| wm.cost(a));
                ensure!(j.cost(&full(n, a)).map(|x| x as i128) == w, "FromIterator<WcnfLine>");
            }
            let vs = j.var_set();
            used_ok("FromIterator<WcnfLine>", &vs, j.new_var())?;
        }
    }
    Ok(())
}
pub(crate) fn s_opt(n_objs: std::ops::RangeInclusive<usize>) -> impl Fn(Tier) -> BoxedStrategy<OptCase> {
    move |t| {
        let r = n_objs.clone();
        (1i32..=t.pick(4, 5))
            .prop_flat_map(move |n| {
                // objectives may mention variables that the constraints do not and vice versa
                let (lo, hi) = (*r.start(), *r.end());
                (Just(n), 1..=n, 1..=n).prop_flat_map(move |(n, nc, no)| (Just(n), s_spec(nc, 3), vec(s_oops(no, 0, 5), lo..=hi), 0u8..6, 0u32..6))
            })
            .prop_map(|(n, con, objs, what, off)| OptCase { n, con, objs, what, off })
            .boxed()
    }
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "more than one soft literal / clause (objective); more than one solution and a non-constant objective (instance)",
        assumptions: vec!["at most 5 variables, 12 operations and 4 relaxed soft clauses; weights without overflow"],
        subs: vec![
            sub("objective", 300_000, 9_000_000, |t| (1i32..=t.pick(4, 5)).prop_flat_map(move |n| (Just(n), s_oops(n, 0, t.pick(9, 12)), 0u8..8, 0u32..9)).prop_map(|(n, ops, fin, extra)| OCase { n, ops, fin, extra }).boxed(), check_obj),
            sub("instance", 150_000, 3_600_000, s_opt(1..=1), check_opt),
        ],
    }
}

// ---------- multi-objective instances ----------
fn check_mo(c: &OptCase, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let mut objs = vec![];
    let mut ms = vec![];
    for ops in &c.objs {
        let (o, m) = build_obj(n, ops, obs)?;
        objs.push(o);
        ms.push(m);
    }
    let want = |a: u64| sat_all(&c.con, a).then(|| ms.iter().map(|m| m.cost(a)).collect::<Vec<_>>());
    let constrs: SatInstance = build(&c.con);
    let i = if c.off % 2 == 0 {
        MultiOptInstance::<BasicVarManager>::compose(constrs, objs.clone())
    } else {
        let mut i = MultiOptInstance::<BasicVarManager>::new(objs.len());
        *i.constraints_mut() = constrs;
        for (k, o) in objs.iter().enumerate() {
            *i.objective_mut(k) = o.clone();
        }
        i
    };
    ensure!(i.n_objectives() == objs.len() && i.iter_obj().count() == objs.len(), "n_objectives");
    for (k, o) in objs.iter().enumerate() {
        ensure!(i.objective_ref(k) == o, "objective {k}");
    }
    let cost_eq = |name: &str, i: &dyn Fn(&rustsat::types::Assignment) -> Option<Vec<isize>>| -> CheckResult {
        for a in 0..1u64 << n {
            let got = i(&full(n, a)).map(|x| x.into_iter().map(|x| x as i128).collect::<Vec<_>>());
            ensure!(got == want(a), "{name}: cost of {a:b} is {got:?}, expected {:?}", want(a));
        }
        Ok(())
    };
    cost_eq("cost", &|a| i.cost(a))?;
    let mut allv: BTreeSet<Var> = objs.iter().flat_map(|o| o.iter_soft_cls().into_iter().flat_map(|(c, _)| c.into_iter().map(|l| l.var()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
    allv.extend(i.constraints_ref().var_set());
    ensure!(i.var_set() == allv, "var_set");
    // variables beyond the used ones are free to be handed out
    let n = allv.last().map_or(0, |v| v.idx32() as i32 + 1);
    if (0..1u64 << n).filter(|a| want(*a).is_some()).count() > 1 && ms.iter().filter(|m| !m.vars().is_empty()).count() > 1 {
        obs.nontrivial();
    }
    match c.what % 6 {
        0 => {
            let (mut s, p) = i.decompose();
            used_ok("decompose", &allv, s.new_var())?;
            let mut back = MultiOptInstance::<BasicVarManager>::compose(s, p);
            cost_eq("decompose + compose", &|a| back.cost(a))?;
            used_ok("compose", &allv, back.new_var())?;
        }
        1 => {
            let (f, softs, mut vm) = i.into_hard_cls_soft_cls();
            project("into_hard_cls_soft_cls", &icnf(&f), n, vm.n_used().max(n as u32), |a| want(a).is_some())?;
            ensure!(softs.len() == ms.len(), "number of objectives");
            for ((it, off), m) in softs.into_iter().zip(&ms) {
                let mut got = OModel { off: off as i128, ..Default::default() };
                for (cl, w) in it {
                    *got.cls.entry(icl(&cl)).or_default() += w;
                }
                for a in 0..1u64 << n {
                    ensure!(got.cost(a) == m.cost(a), "into_hard_cls_soft_cls: {got:?}");
                }
            }
            used_ok("into_hard_cls_soft_cls", &allv, vm.new_var())?;
        }
        2 => {
            let (f, softs, vm) = i.into_hard_cls_soft_lits();
            let softs: Vec<(Vec<(i32, usize)>, isize)> = softs.into_iter().map(|(it, off)| (it.into_iter().map(|(l, w)| (ilit(l), w)).collect(), off)).collect();
            ensure!(softs.len() == ms.len(), "number of objectives");
            let cls = icnf(&f);
            let top = max_var_cls(&cls).max(softs.iter().flat_map(|s| s.0.iter().map(|x| x.0.abs())).max().unwrap_or(0)) as u32;
            ensure!(vm.n_used() >= top, "into_hard_cls_soft_lits: variable {top} is not tracked");
            let mut f = Form::new(&cls);
            for a in 0..1u64 << n {
                let mut got = Some(vec![]);
                let mut ext = assumps(&(1..=n).collect::<Vec<_>>(), a);
                for (s, off) in &softs {
                    match (min_ext(&mut f, n, a, s), &mut got) {
                        (Some((x, e)), Some(g)) => {
                            g.push(x + *off as i128);
                            ext.extend(e);
                        }
                        _ => got = None,
                    }
                }
                if softs.is_empty() && !f.sat(&ext, &[]) {
                    got = None;
                }
                ensure!(got == want(a), "into_hard_cls_soft_lits: cost of {a:b} is {got:?}, expected {:?}; {cls:?} {softs:?}", want(a));
                ensure!(got.is_none() || f.sat(&ext, &[]), "into_hard_cls_soft_lits: the objectives cannot attain their values together under {a:b}; {cls:?} {softs:?}");
            }
        }
        k @ 3..=4 => {
            let r = ReindexingVarManager::from_next_free(Var::new(c.off % 3));
            let mut j = if k == 3 { i.reindex(r) } else { i.reindex_ordered(r) };
            let js = j.var_set();
            let map: BTreeMap<Var, Var> = allv.iter().map(|v| (*v, j.constraints_mut().var_manager_mut().reindex(*v))).collect();
            ensure!(map.values().copied().collect::<BTreeSet<_>>() == js && js.len() == map.len(), "re-indexing {map:?}, variables {js:?}");
            if k == 4 && c.off % 3 == 0 {
                ensure!(map.values().zip(map.values().skip(1)).all(|(a, b)| a < b), "ordered re-indexing is not ordered: {map:?}");
            }
            for a in 0..1u64 << n {
                let mut asg = rustsat::types::Assignment::default();
                for (v, w) in &map {
                    asg.assign_var(*w, tv(lit_true(v.idx32() as i32 + 1, a)));
                }
                asg.replace_dont_care(a % 3 == 0);
                ensure!(j.cost(&asg).map(|x| x.into_iter().map(|x| x as i128).collect::<Vec<_>>()) == want(a), "re-indexed instance differs under image of {a:b}, map {map:?}");
            }
            used_ok("reindex", &js, j.new_var())?;
        }
        _ => {
            let s = i.clone().shuffle();
            cost_eq("shuffle", &|a| s.cost(a))?;
            let (j, old) = i.change_var_manager(|vm| BasicVarManager::from_next_free(Var::new(vm.n_used() + 2)));
            ensure!(old.n_used() + 2 == j.constraints_ref().n_vars(), "change_var_manager");
            cost_eq("change_var_manager", &|a| j.cost(a))?;
            use rustsat::instances::fio::dimacs::McnfLine;
            let hard: Vec<Vec<i32>> = c.con.iter().filter_map(|c| if let Con::Cl(c) = c { Some(c.clone()) } else { None }).collect();
            let mut lines: Vec<McnfLine> = vec![McnfLine::Comment("x".into())];
            for h in &hard {
                lines.push(McnfLine::Hard(clause(h)));
            }
            let mut k = 0;
            for (idx, m) in ms.iter().enumerate() {
                for (l, w) in &m.lits {
                    lines.push(McnfLine::Soft(clause(&[-l]), *w, idx));
                    k = idx + 1;
                }
                for (cl, w) in &m.cls {
                    lines.push(McnfLine::Soft(clause(cl), *w, idx));
                    k = idx + 1;
                }
            }
            let mut j: MultiOptInstance = lines.into_iter().collect();
            for a in 0..1u64 << n {
                let w = hard.iter().all(|c| c.iter().any(|l| lit_true(*l, a))).then(|| ms[..k].iter().map(|m| m.cost(a) - m.off).collect::<Vec<_>>());
                ensure!(j.cost(&full(n, a)).map(|x| x.into_iter().map(|x| x as i128).collect::<Vec<_>>()) == w, "FromIterator<McnfLine>");
            }
            let vs = j.var_set();
            used_ok("FromIterator<McnfLine>", &vs, j.new_var())?;
        }
    }
    Ok(())
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "more than one solution and at least two non-constant objectives",
        assumptions: vec!["at most 5 variables, 3 objectives; weights without overflow"],
        subs: vec![sub("instance", 210_000, 4_800_000, s_opt(0..=3), check_mo)],
    }
}

// ---------- variable managers ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) enum VOp {
    New,
    NewLit,
    Mark(u32),
    Inc(u32),
    Forget(u32),
    Key(u32),
    Combine(Vec<VOp>),
    /// serialize (to JSON?) and continue with the deserialized manager
    Reload(bool),
}
pub(crate) trait Keyed: ManageVars {
    fn key(&mut self, k: u32) -> Option<Var>;
    fn rev(&self, _v: Var) -> Option<Option<Var>> {
        None
    }
    fn fresh() -> Self;
    fn identity_below(&self) -> u32 {
        0
    }
    fn reload(&mut self, _json: bool) -> CheckResult {
        Ok(())
    }
}
fn again<T: Serialize + serde::de::DeserializeOwned + PartialEq>(v: &mut T, json: bool) -> CheckResult {
    let w = crate::tok::either(v, json)?;
    ensure!(*v == w, "the deserialized variable manager differs");
    *v = w;
    Ok(())
}
impl Keyed for BasicVarManager {
    fn key(&mut self, _: u32) -> Option<Var> {
        None
    }
    fn reload(&mut self, json: bool) -> CheckResult {
        again(self, json)
    }
    fn fresh() -> Self {
        Self::default()
    }
}
impl Keyed for ReindexingVarManager {
    fn key(&mut self, k: u32) -> Option<Var> {
        Some(self.reindex(Var::new(k)))
    }
    fn rev(&self, v: Var) -> Option<Option<Var>> {
        Some(self.reverse(v))
    }
    fn reload(&mut self, json: bool) -> CheckResult {
        again(self, json)
    }
    fn fresh() -> Self {
        Self::default()
    }
}
impl Keyed for ObjectVarManager {
    fn key(&mut self, k: u32) -> Option<Var> {
        Some(match k % 4 {
            0 => self.object_var(k as usize / 4),
            1 => self.object_var(k / 4),
            2 => self.object_var(format!("{}", k / 4)),
            _ => self.object_var((k / 4, "x")),
        })
    }
    fn fresh() -> Self {
        Self::default()
    }
}
/// next is the least free variable that the manager may hand out
#[derive(Default, Clone)]
pub(crate) struct VModel {
    next: u32,
    map: BTreeMap<u32, u32>,
    /// the mapping may be ambiguous after combining
    fuzzy: bool,
}
pub(crate) fn vm_run<V: Keyed>(v: &mut V, m: &mut VModel, ops: &[VOp], obs: &mut Obs) -> CheckResult {
    for (i, op) in ops.iter().enumerate() {
        match op {
            VOp::New | VOp::NewLit => {
                let x = if matches!(op, VOp::New) { v.new_var() } else { v.new_lit().var() }.idx32();
                ensure!(x >= m.next, "operation {i}: new variable {x} was already in use, next free is {}", m.next);
                ensure!(x == m.next, "operation {i}: new variable {x} skips over {}", m.next);
                m.next = x + 1;
                if !m.fuzzy {
                    if let Some(r) = v.rev(Var::new(x)) {
                        ensure!(r.is_none(), "operation {i}: new variable {x} is mapped to {r:?}");
                    }
                }
            }
            VOp::Mark(x) => {
                let r = v.mark_used(Var::new(*x));
                ensure!(r == (x + 1 > m.next), "operation {i}: mark_used({x}) returned {r}, next free is {}", m.next);
                m.next = m.next.max(x + 1);
            }
            VOp::Inc(x) => {
                let r = v.increase_next_free(Var::new(*x));
                ensure!(r == (*x > m.next), "operation {i}: increase_next_free({x}) returned {r}, next free is {}", m.next);
                m.next = m.next.max(*x);
            }
            VOp::Forget(x) => {
                v.forget_from(Var::new(*x));
                m.next = m.next.min(*x);
                m.map.retain(|_, w| *w < *x);
            }
            VOp::Key(k) => {
                let Some(x) = v.key(*k) else { continue };
                let x = x.idx32();
                match m.map.get(k) {
                    Some(y) => ensure!(m.fuzzy || x == *y, "operation {i}: key {k} is mapped to {x}, was {y}"),
                    None => {
                        ensure!(x == m.next || m.fuzzy, "operation {i}: key {k} is mapped to {x}, next free is {}", m.next);
                        if x == m.next {
                            m.next += 1;
                        }
                        ensure!(m.fuzzy || !m.map.values().any(|y| *y == x), "operation {i}: key {k} shares variable {x}");
                        m.map.insert(*k, x);
                    }
                }
                if let (false, Some(r)) = (m.fuzzy, v.rev(Var::new(x))) {
                    ensure!(r == Some(Var::new(*k)), "operation {i}: reverse of {x} is {r:?}, not {k}");
                }
                obs.nontrivial();
            }
            VOp::Reload(json) => {
                v.reload(*json)?;
                obs.label("reload");
            }
            VOp::Combine(o) => {
                let mut w = V::fresh();
                let mut wm = VModel::default();
                vm_run(&mut w, &mut wm, o, obs)?;
                m.next = m.next.max(wm.next);
                v.combine(w);
                // mappings of the other manager take part, unless they clash with own ones
                m.fuzzy |= wm.fuzzy || wm.map.iter().any(|(k, x)| m.map.get(k).is_some_and(|y| x != y) || m.map.iter().any(|(k2, y)| y == x && k2 != k));
                // variables handed out by one and mapped by the other are shared
                m.map.extend(wm.map);
                obs.label("combine");
            }
        }
        ensure!(v.n_used() == m.next && v.max_var().map_or(0, |v| v.idx32() + 1) == m.next, "operation {i} {op:?}: {} used, maximum {:?}, expected {}", v.n_used(), v.max_var(), m.next);
        if !m.fuzzy {
            for (k, x) in &m.map {
                if let Some(r) = v.rev(Var::new(*x)) {
                    ensure!(r == Some(Var::new(*k)), "after operation {i} {op:?}: reverse of {x} is {r:?}, not {k}");
                }
            }
        }
    }
    Ok(())
}
pub(crate) fn check_vm(c: &(u8, u32, Vec<VOp>), obs: &mut Obs) -> CheckResult {
    let (which, start, ops) = c;
    let mut m = VModel { next: *start, ..Default::default() };
    let nf = Var::new(*start);
    match which % 3 {
        0 => vm_run(&mut BasicVarManager::from_next_free(nf), &mut m, ops, obs)?,
        1 => {
            // the first variables are mapped to themselves
            m.map = (0..*start).map(|x| (x, x)).collect();
            vm_run(&mut ReindexingVarManager::from_next_free(nf), &mut m, ops, obs)?;
        }
        _ => vm_run(&mut ObjectVarManager::from_next_free(nf), &mut m, ops, obs)?,
    }
    if which % 3 == 0 && ops.len() > 2 {
        obs.nontrivial();
    }
    Ok(())
}
fn check_rand(c: &(u32, u32, Vec<u32>), obs: &mut Obs) -> CheckResult {
    let (n, m, marks) = c;
    let mut v = RandReindVarManager::init(*n);
    ensure!(v.n_used() == *n, "n_used");
    let im: Vec<Var> = (0..n + m).map(|x| v.reindex(Var::new(x))).collect();
    ensure!(im.iter().copied().collect::<BTreeSet<_>>() == (0..n + m).map(Var::new).collect::<BTreeSet<_>>(), "not a permutation: {im:?}");
    for (x, w) in im.iter().enumerate() {
        ensure!(v.reverse(*w) == Some(Var::new(x as u32)), "reverse of {w}");
        ensure!((x as u32) < *n || w.idx() == x, "variable {x} outside of the range moved");
        for s in [false, true] {
            let l = Lit::new(x as u32, s);
            let k = v.reindex_lit(l);
            ensure!(k.var() == *w && k.is_neg() == s && v.reverse_lit(k) == Some(l), "re-indexing {l}");
        }
    }
    let mut next = n + m;
    for x in marks {
        v.mark_used(Var::new(*x));
        next = next.max(x + 1);
        let y = v.new_var().idx32();
        ensure!(y == next, "new variable {y}, expected {next}");
        next += 1;
    }
    if *n > 2 {
        obs.nontrivial();
    }
    Ok(())
}
pub(crate) fn s_vops(depth: u32) -> BoxedStrategy<Vec<VOp>> {
    let base = prop_oneof![
        3 => Just(VOp::New),
        1 => Just(VOp::NewLit),
        2 => (0u32..20).prop_map(VOp::Mark),
        2 => (0u32..20).prop_map(VOp::Inc),
        1 => (0u32..20).prop_map(VOp::Forget),
        6 => (0u32..14).prop_map(VOp::Key),
    ];
    if depth == 0 {
        vec(base, 0..6).boxed()
    } else {
        vec(prop_oneof![12 => base, 1 => s_vops(depth - 1).prop_map(VOp::Combine)], 0..14).boxed()
    }
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "at least one mapped variable or object (or three operations of the basic manager); random re-indexing of more than two variables",
        assumptions: vec!["variable indices below 20; after combining managers with clashing mappings only freshness is checked"],
        subs: vec![
            sub("history", 300_000, 9_000_000, |_t| (0u8..3, 0u32..5, s_vops(2)).boxed(), check_vm),
            sub("random", 45_000, 1_200_000, |_t| (0u32..12, 0u32..4, vec(0u32..25, 0..5)).boxed(), check_rand),
        ],
    }
}

// ---------- MaxSAT ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    n: i32,
    con: Vec<Con>,
    ops: Vec<OOp>,
    enc: u8,
    prefer: Vec<i32>,
}
type Sis<E> = rustsat::algs::maxsat::SolutionImprovingSearch<StubSolver, E>;
fn check_maxsat(c: &MCase, obs: &mut Obs) -> CheckResult {
    use rustsat::algs::maxsat::Solve as _;
    let n = c.n;
    let (o, m) = build_obj(n, &c.ops, obs)?;
    let best = (0..1u64 << n).filter(|a| sat_all(&c.con, *a)).map(|a| m.cost(a)).min();
    let inst: OptInstance = if c.prefer.len() % 2 == 0 {
        OptInstance::compose(build(&c.con), o.clone())
    } else {
        let mut i = OptInstance::new();
        *i.constraints_mut() = build(&c.con);
        *i.objective_mut() = o.clone();
        i
    };
    PREFER.with(|p| *p.borrow_mut() = c.prefer.clone());
    let res = match c.enc % 2 {
        0 => inst.solve_maxsat::<Sis<pb::GeneralizedTotalizer>>(),
        _ => inst.solve_maxsat::<Sis<pb::BinaryAdder>>(),
    };
    ensure!(res.is_some() == best.is_some(), "solve_maxsat returned {res:?}, the optimum is {best:?}");
    if let Some((sol, cost)) = &res {
        ensure!(Some(*cost as i128) == best, "solve_maxsat returned cost {cost}, the optimum is {best:?}; objective {o:?}");
        let mut a = 0u64;
        for v in 1..=n {
            match sol.var_value(var(v)) {
                TernaryVal::True => a |= 1 << (v - 1),
                TernaryVal::False => (),
                // any value must do
                TernaryVal::DontCare => a |= ((c.enc as u64 >> (v % 8)) & 1) << (v - 1),
            }
        }
        ensure!(sat_all(&c.con, a) && m.cost(a) == *cost as i128, "solution {sol} of cost {cost} evaluates to {:?}", sat_all(&c.con, a).then(|| m.cost(a)));
        let worst = (0..1u64 << n).filter(|a| sat_all(&c.con, *a)).map(|a| m.cost(a)).max();
        if worst != best {
            obs.nontrivial();
        }
    } else {
        obs.label("unsatisfiable");
    }
    // direct call on soft literals
    let lits: Vec<(Lit, usize)> = m.lits.iter().map(|(l, w)| (lit(*l), *w)).collect();
    let mut s = StubSolver::default();
    let mut inst: SatInstance = build(&c.con);
    inst.var_manager_mut().increase_next_free(Var::new(n as u32));
    inst.convert_to_cnf();
    if !inst.cards_pbs_free() {
        fail!("conversion left constraints");
    }
    Extend::<Clause>::extend(&mut s, inst.cnf().clone());
    let best = (0..1u64 << n).filter(|a| sat_all(&c.con, *a)).map(|a| OModel { lits: m.lits.clone(), ..Default::default() }.cost(a)).min();
    let res = match c.enc % 2 {
        0 => Sis::<pb::GeneralizedTotalizer>::solve(&mut s, &lits),
        _ => Sis::<pb::BinaryAdder>::solve(&mut s, &lits),
    };
    PREFER.with(|p| p.borrow_mut().clear());
    ensure!(res.as_ref().map(|x| x.1 as i128) == best, "search returned {res:?}, the optimum is {best:?}");
    Ok(())
}
trait Free {
    fn cards_pbs_free(&self) -> bool;
}
impl Free for SatInstance {
    fn cards_pbs_free(&self) -> bool {
        self.n_cards() == 0 && self.n_pbs() == 0
    }
}
pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "the solutions of the instance differ in cost",
        assumptions: vec!["solver replaced by the harness's own (adversarially preferring literals); at most 5 variables; weights without overflow"],
        subs: vec![sub(
            "search",
            90_000,
            2_400_000,
            |t| {
                (1i32..=t.pick(4, 5))
                    .prop_flat_map(|n| (Just(n), 1..=n, 1..=n).prop_flat_map(|(n, nc, no)| (Just(n), s_spec(nc, 3), s_oops(no, 0, 7), any::<u8>(), s_lits_distinct(n + 2, 0, 7))))
                    .prop_map(|(n, con, ops, enc, prefer)| MCase { n, con, ops, enc, prefer })
                    .boxed()
            },
            check_maxsat,
        )],
    }
}
