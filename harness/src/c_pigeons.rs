//! C09: the proof writing library
use crate::c_cert::Buf;
use crate::common::*;
use crate::veripb::{Checker, Con, Id as PId, Parser, Step, Sub};
use pigeons::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::Var;
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use vcore::{ensure, sub, CheckResult, Fail, Obs, Prop};

// ---------- operation sequences ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ex {
    /// absolute id, as `AbsConstraintId`
    A(usize),
    /// absolute id, as `ConstraintId`
    I(usize),
    /// relative id
    R(usize),
    Ax(i32),
    Empty,
    Add(Box<Ex>, Box<Ex>),
    /// `+=`
    AddA(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, usize),
    /// `k * x`
    MulL(usize, Box<Ex>),
    MulA(Box<Ex>, usize),
    Div(Box<Ex>, usize),
    DivA(Box<Ex>, usize),
    Sat(Box<Ex>),
    Weak(Box<Ex>, i32),
}

enum Val {
    A(AbsConstraintId),
    I(ConstraintId),
    Ax(Axiom<Var>),
    S(OperationSequence<Var>),
}
type Seq = OperationSequence<Var>;
impl Val {
    fn seq(self) -> Seq {
        match self {
            Val::A(x) => x.into(),
            Val::I(x) => x.into(),
            Val::Ax(x) => x.into(),
            Val::S(x) => x,
        }
    }
}

fn ax(l: i32) -> Axiom<Var> {
    Axiom::from(lit(l))
}

fn build(e: &Ex) -> Val {
    Val::S(match e {
        Ex::A(i) => return Val::A(AbsConstraintId::new(*i)),
        Ex::I(i) => return Val::I(ConstraintId::abs(*i)),
        Ex::R(i) => return Val::I(ConstraintId::last(*i)),
        Ex::Ax(l) => return Val::Ax(ax(*l)),
        Ex::Empty => Seq::empty(),
        Ex::Add(a, b) => match (build(a), build(b)) {
            (Val::S(a), Val::S(b)) => a + b,
            (Val::S(a), Val::A(b)) => a + b,
            (Val::S(a), Val::I(b)) => a + b,
            (Val::S(a), Val::Ax(b)) => a + b,
            (Val::A(a), Val::S(b)) => a + b,
            (Val::A(a), Val::Ax(b)) => a + b,
            (Val::I(a), Val::S(b)) => a + b,
            (Val::I(a), Val::Ax(b)) => a + b,
            (Val::Ax(a), Val::S(b)) => a + b,
            (Val::Ax(a), Val::I(b)) => a + b,
            (Val::Ax(a), Val::A(b)) => a + b,
            (Val::Ax(a), Val::Ax(b)) => a + b,
            (a, b) => a.seq() + b.seq(),
        },
        Ex::AddA(a, b) => {
            let mut a = build(a).seq();
            match build(b) {
                Val::A(b) => a += b,
                Val::I(b) => a += b,
                Val::Ax(b) => a += b,
                Val::S(b) => a += b,
            }
            a
        }
        Ex::Mul(a, k) => match build(a) {
            Val::Ax(a) => a * *k,
            a => a.seq() * *k,
        },
        Ex::MulL(k, a) => *k * build(a).seq(),
        Ex::MulA(a, k) => {
            let mut a = build(a).seq();
            a *= *k;
            a
        }
        Ex::Div(a, k) => match build(a) {
            Val::Ax(a) => a / *k,
            a => a.seq() / *k,
        },
        Ex::DivA(a, k) => {
            let mut a = build(a).seq();
            a /= *k;
            a
        }
        Ex::Sat(a) => match build(a) {
            Val::Ax(a) => a.saturate(),
            a => a.seq().saturate(),
        },
        Ex::Weak(a, _) => build(a).seq().weaken(),
    })
}

/// The constraint an expression stands for, `None` for "nothing" (the empty sequence)
fn denote(e: &Ex, db: &dyn Fn(i64) -> Con, lit: &dyn Fn(i32) -> (usize, bool)) -> Option<Con> {
    let d = |e: &Ex| denote(e, db, lit);
    match e {
        Ex::A(i) | Ex::I(i) => Some(db(*i as i64)),
        Ex::R(i) => Some(db(-(*i as i64))),
        Ex::Ax(l) => {
            let (v, n) = lit(*l);
            Some(Con::from_terms(&[(1, v, n)], 0))
        }
        Ex::Empty => None,
        Ex::Add(a, b) | Ex::AddA(a, b) => match (d(a), d(b)) {
            (Some(a), Some(b)) => Some(a.add(&b)),
            (a, b) => a.or(b),
        },
        Ex::Mul(a, k) | Ex::MulL(k, a) | Ex::MulA(a, k) => d(a).filter(|_| *k > 0).map(|c| c.mul(*k as i128)),
        Ex::Div(a, k) | Ex::DivA(a, k) => d(a).map(|c| c.div(*k as i128)),
        Ex::Sat(a) => d(a).map(|c| c.sat()),
        Ex::Weak(a, l) => d(a).map(|c| c.weaken(lit(*l).0)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpsCase {
    db: Vec<(Vec<(i64, i32)>, i64)>,
    e: Ex,
}

fn name(l: i32) -> String {
    format!("x{}", l.unsigned_abs())
}

fn run_ops(c: &OpsCase, obs: &mut Obs) -> CheckResult {
    let mut p = Parser::new("");
    let n = c.db.len();
    let cons: Vec<Con> = c
        .db
        .iter()
        .map(|(t, b)| {
            let t: Vec<_> = t.iter().map(|(k, l)| (*k as i128, p.names.get(&name(*l)), *l < 0)).collect();
            Con::from_terms(&t, *b as i128)
        })
        .collect();
    let lits: Vec<(usize, bool)> = (1..=8).map(|l| (p.names.get(&name(l)), false)).collect();
    let lf = |l: i32| (lits[l.unsigned_abs() as usize - 1].0, l < 0);
    let ch = Checker::new(&cons);
    let dbf = |i: i64| cons[if i < 0 { (n as i64 + i) as usize } else { i as usize - 1 }].clone();
    let want = denote(&c.e, &dbf, &lf);
    let s = build(&c.e).seq();
    ensure!(s.is_empty() == want.is_none(), "the sequence for {:?} is {}empty", c.e, if s.is_empty() { "" } else { "not " });
    let Some(want) = want else { return Ok(()) };
    let buf = Buf::default();
    let mut pr = Proof::new(buf.clone(), n, false).unwrap();
    let id = pr.operations(&s).unwrap();
    ensure!(id == AbsConstraintId::new(n + 1), "id {id} for the first derived constraint of {n}");
    drop(pr);
    let text = buf.text();
    let mut p2 = Parser::new(&text);
    let steps = p2.proof().map_err(|e| Fail::from(format!("not well-formed: {e}\n{text}")))?;
    let [Step::F(_), Step::Pol(toks), ..] = &steps[..] else { vcore::fail!("no pol line in {text}") };
    let got = ch.pol(toks, &mut |x| p.lit(x)).map_err(|e| Fail::from(format!("{:?} was written as {toks:?}, which is rejected: {e}", c.e)))?;
    ensure!(got == want, "{:?} was written as {toks:?}, which derives {got:?} instead of {want:?}", c.e);
    if toks.len() >= 5 {
        obs.nontrivial();
    }
    Ok(())
}

const NDB: usize = 4;
fn s_ex(weak: bool) -> BoxedStrategy<Ex> {
    let leaf = prop_oneof![
        3 => (1..=NDB).prop_map(Ex::A),
        2 => (1..=NDB).prop_map(Ex::I),
        2 => (1..=NDB).prop_map(Ex::R),
        3 => s_lit(5).prop_map(Ex::Ax),
        1 => Just(Ex::Empty),
    ];
    leaf.prop_recursive(5, 24, 2, move |s| {
        let b = s.clone().prop_map(Box::new);
        let mut v = vec![
            (4, (b.clone(), b.clone()).prop_map(|(x, y)| Ex::Add(x, y)).boxed()),
            (3, (b.clone(), b.clone()).prop_map(|(x, y)| Ex::AddA(x, y)).boxed()),
            (1, (b.clone(), 0usize..6).prop_map(|(x, k)| Ex::Mul(x, k)).boxed()),
            (1, (b.clone(), 0usize..6).prop_map(|(x, k)| Ex::MulL(k, x)).boxed()),
            (1, (b.clone(), 0usize..6).prop_map(|(x, k)| Ex::MulA(x, k)).boxed()),
            (1, (b.clone(), 1usize..6).prop_map(|(x, k)| Ex::Div(x, k)).boxed()),
            (1, (b.clone(), 1usize..6).prop_map(|(x, k)| Ex::DivA(x, k)).boxed()),
            (1, b.clone().prop_map(Ex::Sat).boxed()),
        ];
        if weak {
            v.push((2, (b.clone(), s_lit(5)).prop_map(|(x, l)| Ex::Weak(x, l)).boxed()));
        }
        proptest::strategy::Union::new_weighted(v)
    })
    .boxed()
}
fn s_terms(n: i32, max: usize) -> BoxedStrategy<Vec<(i64, i32)>> {
    vec((-5i64..=9, s_lit(n)), 0..=max).boxed()
}
fn s_ops(weak: bool) -> BoxedStrategy<OpsCase> {
    (vec((s_terms(5, 4), -4i64..10), NDB), s_ex(weak)).prop_map(|(db, e)| OpsCase { db, e }).boxed()
}

// ---------- the whole interface ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum C {
    Terms(Vec<(i64, i32)>, i64),
    Clause(Vec<i32>),
    CardLb(Vec<i32>, usize),
    CardUb(Vec<i32>, usize),
    PbLb(Vec<(i32, i64)>, i64),
    PbUb(Vec<(i32, i64)>, i64),
    Ax(i32),
}
impl C {
    fn terms(&self) -> (Vec<(i128, i32)>, i128) {
        let one = |l: &[i32], k: i128| l.iter().map(|l| (k, *l)).collect::<Vec<_>>();
        match self {
            C::Terms(t, b) => (t.iter().map(|(k, l)| (*k as i128, *l)).collect(), *b as i128),
            C::Clause(l) => (one(l, 1), 1),
            C::CardLb(l, b) => (one(l, 1), *b as i128),
            C::CardUb(l, b) => (one(l, -1), -(*b as i128)),
            C::PbLb(t, b) => (t.iter().map(|(l, k)| (*k as i128, *l)).collect(), *b as i128),
            C::PbUb(t, b) => (t.iter().map(|(l, k)| (-*k as i128, *l)).collect(), -(*b as i128)),
            C::Ax(l) => (one(&[*l], 1), 1),
        }
    }
    fn con(&self, p: &mut Parser, pre: &str) -> Con {
        let (t, b) = self.terms();
        let t: Vec<_> = t.iter().map(|(k, l)| (*k, p.names.get(&format!("{pre}{}", name(*l))), *l < 0)).collect();
        Con::from_terms(&t, b)
    }
}
/// A constraint handed to pigeons: own implementation for raw terms, RustSAT's types otherwise
enum Real {
    T(Vec<(isize, Axiom<Var>)>, isize),
    Cl(rustsat::types::Clause),
    Card(CardConstraint),
    Pb(PbConstraint),
    Ax(Axiom<Var>),
}
impl C {
    fn real(&self) -> Real {
        let ls = |v: &[i32]| v.iter().map(|l| lit(*l)).collect::<Vec<_>>();
        let ws = |v: &[(i32, i64)]| v.iter().map(|(l, w)| (lit(*l), *w as isize)).collect::<Vec<_>>();
        match self {
            C::Terms(t, b) => Real::T(t.iter().map(|(k, l)| (*k as isize, ax(*l))).collect(), *b as isize),
            C::Clause(l) => Real::Cl(clause(l)),
            C::CardLb(l, b) => Real::Card(CardConstraint::new_lb(ls(l), *b)),
            C::CardUb(l, b) => Real::Card(CardConstraint::new_ub(ls(l), *b)),
            C::PbLb(t, b) => Real::Pb(PbConstraint::new_lb(ws(t), *b as isize)),
            C::PbUb(t, b) => Real::Pb(PbConstraint::new_ub(ws(t), *b as isize)),
            C::Ax(l) => Real::Ax(ax(*l)),
        }
    }
}
impl ConstraintLike<Var> for Real {
    fn rhs(&self) -> isize {
        match self {
            Real::T(_, b) => *b,
            Real::Cl(c) => c.rhs(),
            Real::Card(c) => c.rhs(),
            Real::Pb(c) => c.rhs(),
            Real::Ax(a) => ConstraintLike::rhs(a),
        }
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        match self {
            Real::T(t, _) => t.clone(),
            Real::Cl(c) => c.sum_iter().collect(),
            Real::Card(c) => c.sum_iter().collect(),
            Real::Pb(c) => c.sum_iter().collect(),
            Real::Ax(a) => ConstraintLike::sum_iter(a).collect::<Vec<_>>(),
        }
        .into_iter()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum O {
    Terms(Vec<(i64, i32)>, i64),
    /// RustSAT's objective: soft literals and offset
    Obj(Vec<(usize, i32)>, i64),
}
struct RealO(Vec<(isize, Axiom<Var>)>, isize);
impl ObjectiveLike<Var> for RealO {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        self.0.clone().into_iter()
    }
    fn offset(&self) -> isize {
        self.1
    }
}
impl O {
    fn real(&self) -> RealO {
        match self {
            O::Terms(t, k) => RealO(t.iter().map(|(k, l)| (*k as isize, ax(*l))).collect(), *k as isize),
            O::Obj(t, k) => {
                let mut o = rustsat::instances::Objective::new();
                for (w, l) in t {
                    o.increase_soft_lit(*w, lit(*l));
                }
                o.increase_offset(*k as isize);
                RealO(ObjectiveLike::sum_iter(&o).collect(), ObjectiveLike::offset(&o))
            }
        }
    }
    fn norm(&self, p: &mut Parser) -> (Con, i128) {
        let (t, k): (Vec<(i128, i32)>, i128) = match self {
            O::Terms(t, k) => (t.iter().map(|(k, l)| (*k as i128, *l)).collect(), *k as i128),
            O::Obj(t, k) => (t.iter().map(|(w, l)| (*w as i128, *l)).collect(), *k as i128),
        };
        let t: Vec<_> = t.iter().map(|(k, l)| (*k, p.names.get(&name(*l)), *l < 0)).collect();
        let c = Con::from_terms(&t, 0);
        (Con { t: c.t, b: 0 }, k - c.b)
    }
}
fn onorm(t: &[(i128, usize, bool)], k: i128) -> (Con, i128) {
    let c = Con::from_terms(t, 0);
    (Con { t: c.t, b: 0 }, k - c.b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IdRef {
    rel: bool,
    k: usize,
}
impl IdRef {
    /// within `1..next`
    fn resolve(&self, next: usize) -> Option<(ConstraintId, i64)> {
        if next <= 1 {
            return None;
        }
        let k = self.k % (next - 1) + 1;
        Some(if self.rel { (ConstraintId::last(k), -(k as i64)) } else { (ConstraintId::abs(k), k as i64) })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum S {
    Lit(i32, i32),
    Fix(i32, bool),
    /// from an axiom
    Ax(i32),
}
impl S {
    fn real(&self) -> Substitution<Var> {
        match self {
            S::Lit(v, l) => var(v.abs()).substitute_literal(ax(*l)),
            S::Fix(v, b) => var(v.abs()).substitute_fixed(*b),
            S::Ax(l) => ax(*l).into(),
        }
    }
    fn norm(&self, p: &mut Parser) -> (usize, Sub) {
        match self {
            S::Lit(v, l) => (p.names.get(&name(*v)), Sub::Lit(p.names.get(&name(*l)), *l < 0)),
            S::Fix(v, b) => (p.names.get(&name(*v)), Sub::Fix(*b)),
            S::Ax(l) => (p.names.get(&name(*l)), Sub::Fix(*l > 0)),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum D {
    Rup(C, Vec<IdRef>),
    Pol(Ex),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum G {
    D(D),
    Goal { hash: bool, id: usize, ds: Vec<D> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    F(usize),
    Comment(String),
    Multi(Vec<String>),
    Pol(Ex),
    Rup(C, Vec<IdRef>),
    Red(bool, C, Vec<S>, Vec<G>),
    DelIds(Vec<IdRef>, Vec<G>),
    DelConstr(C),
    /// (delete or move to core, start, end): bound kind 0 unbounded, 1 included, 2 excluded
    Range(bool, (u8, IdRef), (u8, IdRef)),
    DelCore(Vec<IdRef>),
    DelDerived(Vec<IdRef>),
    Core(Vec<IdRef>),
    ObjNew(O, Vec<G>),
    ObjDiff(O),
    ObjEq(O),
    Sol(u8, Vec<i32>),
    Eq(bool, C, Option<IdRef>),
    Imp(bool, C, Option<IdRef>),
    Level(usize),
    Wipe(usize),
    NewVar,
    Order { name: usize, vars: Vec<i32>, defs: Vec<(C, Vec<D>, Option<Vec<D>>)> },
    LoadOrder(usize, Vec<i32>),
    ToCore(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Conc {
    None,
    Sat(Option<Vec<i32>>),
    Unsat(Option<IdRef>),
    Bounds(i64, i64, Option<IdRef>, Option<Vec<i32>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    n: usize,
    opt: bool,
    /// start with a default conclusion
    start: Option<(u8, Conc)>,
    calls: Vec<Call>,
    /// update the default conclusion at the end
    update: Option<(u8, Conc)>,
    /// conclude explicitly
    end: Option<(u8, Conc)>,
}

fn guarantee(g: u8) -> (OutputGuarantee, &'static str) {
    match g % 7 {
        0 => (OutputGuarantee::None, "NONE"),
        1 => (OutputGuarantee::Derivable(OutputType::Implicit), "DERIVABLE IMPLICIT"),
        2 => (OutputGuarantee::Derivable(OutputType::File), "DERIVABLE FILE"),
        3 => (OutputGuarantee::Equisatisfiable(OutputType::Implicit), "EQUISATISFIABLE IMPLICIT"),
        4 => (OutputGuarantee::Equisatisfiable(OutputType::File), "EQUISATISFIABLE FILE"),
        5 => (OutputGuarantee::Equioptimal(OutputType::Implicit), "EQUIOPTIMAL IMPLICIT"),
        _ => (OutputGuarantee::Equioptimal(OutputType::File), "EQUIOPTIMAL FILE"),
    }
}
fn lname(l: i32) -> String {
    format!("{}{}", if l < 0 { "~" } else { "" }, name(l))
}
impl Conc {
    fn real(&self, next: usize) -> (Conclusion<Var>, Vec<String>) {
        let id = |i: &Option<IdRef>| i.as_ref().and_then(|i| i.resolve(next));
        let sol = |s: &Option<Vec<i32>>| s.as_ref().map(|v| v.iter().map(|l| ax(*l)).collect::<Vec<_>>());
        let mut t: Vec<String> = vec![];
        let c = match self {
            Conc::None => {
                t.push("NONE".into());
                Conclusion::None
            }
            Conc::Sat(s) => {
                t.push("SAT".into());
                if let Some(s) = s {
                    t.push(":".into());
                    t.extend(s.iter().map(|l| lname(*l)));
                }
                Conclusion::Sat(sol(s))
            }
            Conc::Unsat(i) => {
                t.push("UNSAT".into());
                if let Some((_, n)) = id(i) {
                    t.extend([":".into(), n.to_string()]);
                }
                Conclusion::Unsat(id(i).map(|x| x.0))
            }
            Conc::Bounds(lo, w, i, s) => {
                let hi = lo + w;
                t.extend(["BOUNDS".into(), lo.to_string()]);
                if let Some((_, n)) = id(i) {
                    t.extend([":".into(), n.to_string()]);
                }
                t.push(hi.to_string());
                if let Some(s) = s {
                    t.push(":".into());
                    t.extend(s.iter().map(|l| lname(*l)));
                }
                Conclusion::Bounds { range: *lo as isize..hi as isize + 1, lb_id: id(i).map(|x| x.0), ub_sol: sol(s) }
            }
        };
        (c, t)
    }
}

/// Expressions in a history only use ids below `next`; `None` for the empty sequence
fn seq_for(e: &Ex, next: usize) -> Option<(Seq, Ex)> {
    fn fix(e: &Ex, next: usize) -> Ex {
        let f = |a: &Ex| Box::new(fix(a, next));
        match e {
            Ex::A(i) if next > 1 => Ex::A(i % (next - 1) + 1),
            Ex::I(i) if next > 1 => Ex::I(i % (next - 1) + 1),
            Ex::R(i) if next > 1 => Ex::R(i % (next - 1) + 1),
            Ex::A(_) | Ex::I(_) | Ex::R(_) => Ex::Ax(1),
            Ex::Ax(l) => Ex::Ax(*l),
            Ex::Empty => Ex::Empty,
            Ex::Add(a, b) => Ex::Add(f(a), f(b)),
            Ex::AddA(a, b) => Ex::AddA(f(a), f(b)),
            Ex::Mul(a, k) => Ex::Mul(f(a), *k),
            Ex::MulL(k, a) => Ex::MulL(*k, f(a)),
            Ex::MulA(a, k) => Ex::MulA(f(a), *k),
            Ex::Div(a, k) => Ex::Div(f(a), *k),
            Ex::DivA(a, k) => Ex::DivA(f(a), *k),
            Ex::Sat(a) => Ex::Sat(f(a)),
            Ex::Weak(a, l) => Ex::Weak(f(a), *l),
        }
    }
    let e = fix(e, next);
    let s = build(&e).seq();
    if s.is_empty() {
        None
    } else {
        Some((s, e))
    }
}

/// What a line of the proof has to be
enum Want {
    Step(Step),
    Pol(Ex),
    Obj(bool, (Con, i128), Option<Vec<WG>>),
    Red(bool, Con, Vec<(usize, Sub)>, Option<Vec<WG>>),
    Del(Vec<i64>, Option<Vec<WG>>),
    Range(bool, usize, usize, usize),
    Order { name: String, vars: Vec<i32>, defs: Vec<(Con, Vec<WG>, Option<Vec<WG>>)> },
}
enum WG {
    Rup(Con, Vec<PId>),
    Pol(Ex),
    Goal(PId, Vec<WG>),
}

fn real_d(d: &D, next: usize) -> Option<(Derivation<Var, Real>, Box<dyn Fn(&mut Parser) -> WG>)> {
    match d {
        D::Rup(c, h) => {
            let h: Vec<_> = h.iter().filter_map(|i| i.resolve(next)).collect();
            let hs: Vec<PId> = h.iter().map(|x| PId::Num(x.1)).collect();
            let c2 = c.clone();
            Some((Derivation::Rup(c.real(), h.into_iter().map(|x| x.0).collect()), Box::new(move |p| WG::Rup(c2.con(p, ""), hs.clone()))))
        }
        D::Pol(e) => {
            let (s, e) = seq_for(e, next)?;
            Some((s.into(), Box::new(move |_| WG::Pol(e.clone()))))
        }
    }
}
type WgFn = Box<dyn Fn(&mut Parser) -> WG>;
/// Also returns the number of ids the checker hands out for these elements
fn real_gs(gs: &[G], next: usize, goals_only: bool) -> (Vec<SubproofElement<Var, Real>>, Vec<WgFn>, usize) {
    let (mut out, mut w, mut n) = (vec![], vec![], 0);
    for g in gs {
        match g {
            G::D(d) if !goals_only => {
                if let Some((d, f)) = real_d(d, next) {
                    out.push(d.into());
                    w.push(f);
                    n += 1;
                }
            }
            G::D(_) => {}
            G::Goal { hash, id, ds } => {
                let (ds, fs): (Vec<_>, Vec<_>) = ds.iter().filter_map(|d| real_d(d, next)).unzip();
                n += 1 + ds.len();
                let (gid, want) = if *hash || next <= 1 { (ProofGoalId::specific(*id + 1), PId::Hash(*id + 1)) } else { (ConstraintId::abs(*id % (next - 1) + 1).into(), PId::Num((*id % (next - 1) + 1) as i64)) };
                // both ways to build a goal
                let goal = if id % 2 == 0 {
                    ProofGoal::new(gid, ds)
                } else {
                    let mut g = ProofGoal::empty(gid);
                    g.extend(ds);
                    g
                };
                out.push(goal.into());
                w.push(Box::new(move |p| WG::Goal(want.clone(), fs.iter().map(|f| f(p)).collect())));
            }
        }
    }
    (out, w, n)
}

fn same_ex(got: &[String], e: &Ex, p: &mut Parser) -> Result<(), String> {
    // the meaning is checked over a database in which the constraint with id k is `k*y_k + 3 y_{k+1} >= 2k + 1`
    let base = 1000;
    let dbf = |a: i64| -> Con {
        let k = if a < 0 { (base + a) as i128 } else { a as i128 };
        Con::from_terms(&[(k % 7 + 1, 100_000 + k as usize, false), (3, 100_001 + k as usize, k % 2 == 0)], (2 * k + 1) % 6)
    };
    let mut lits = std::collections::HashMap::new();
    for l in 1..=6 {
        lits.insert(l, p.names.get(&name(l)));
    }
    let lf = |l: i32| (lits[&l.abs()], l < 0);
    let want = denote(e, &dbf, &lf).ok_or("empty")?;
    let all: std::collections::BTreeMap<usize, Con> = (1..base as usize).map(|k| (k, dbf(k as i64))).collect();
    let mut ch = Checker::new(&[]);
    ch.db = all;
    ch.next = base as usize;
    let got_c = ch.pol(got, &mut |s| p.lit(s))?;
    if got_c == want {
        Ok(())
    } else {
        Err(format!("{got:?} does not compute {e:?}"))
    }
}

fn same_gs(got: &[Step], want: &[WG], p: &mut Parser) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} subproof elements instead of {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        match (g, w) {
            (Step::Rup(c, h), WG::Rup(c2, h2)) if c == c2 && h == h2 => {}
            (Step::Pol(t), WG::Pol(e)) => same_ex(t, e, p)?,
            (Step::Goal(i, s), WG::Goal(i2, s2)) if i == i2 => same_gs(s, s2, p)?,
            (g, _) => return Err(format!("subproof element differs: {g:?}")),
        }
    }
    Ok(())
}
fn same_sub(got: &Option<Vec<Step>>, want: &Option<Vec<WG>>, p: &mut Parser) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => same_gs(g, w, p),
        _ => Err("subproof missing or unexpected".into()),
    }
}

/// Constraint over the variables of an order
struct OC(Vec<(isize, Axiom<OrderVar<Var>>)>, isize);
impl ConstraintLike<OrderVar<Var>> for OC {
    fn rhs(&self) -> isize {
        self.1
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<OrderVar<Var>>)> {
        self.0.clone().into_iter()
    }
}

fn run(h: &Hist, obs: &mut Obs) -> CheckResult {
    let buf = Buf::default();
    let mut next = h.n + 1;
    let (mut conc, mut out) = (vec!["NONE".to_string()], "NONE");
    let mut pr = match &h.start {
        None => Proof::new(buf.clone(), h.n, h.opt).unwrap(),
        Some((g, c)) => {
            let (real, t) = c.real(next);
            (conc, out) = (t, guarantee(*g).1);
            Proof::new_with_conclusion(buf.clone(), h.n, h.opt, guarantee(*g).0, &real).unwrap()
        }
    };
    // the parser only interns names at first; the text is parsed at the end
    let mut p = Parser::new("");
    let mut want: Vec<Want> = vec![Want::Step(Step::F(h.n))];
    let mut pvs = 0u32;
    let st = |s: Step| Want::Step(s);
    for c in &h.calls {
        let before = next;
        let mut got_id: Option<AbsConstraintId> = None;
        let mut gives_id = false;
        let ids = |v: &[IdRef]| -> (Vec<ConstraintId>, Vec<i64>) { v.iter().filter_map(|i| i.resolve(before)).unzip() };
        let lits = |p: &mut Parser, v: &[i32]| v.iter().map(|l| (p.names.get(&name(*l)), *l < 0)).collect::<Vec<_>>();
        match c {
            Call::F(n) => {
                pr.verify_num_constraints(*n).unwrap();
                want.push(st(Step::F(*n)));
            }
            Call::Comment(s) => {
                pr.comment(s).unwrap();
                want.push(st(Step::Comment(s.trim_end().to_string())));
            }
            Call::Multi(v) => {
                pr.multiline_comment(&v.join("\n")).unwrap();
                for l in v.join("\n").lines() {
                    want.push(st(Step::Comment(l.trim_end().to_string())));
                }
            }
            Call::Pol(e) => {
                if let Some((s, e)) = seq_for(e, before) {
                    got_id = Some(pr.operations(&s).unwrap());
                    gives_id = true;
                    want.push(Want::Pol(e));
                }
            }
            Call::Rup(c, hs) => {
                let (a, b) = ids(hs);
                got_id = Some(pr.reverse_unit_prop(&c.real(), a).unwrap());
                gives_id = true;
                want.push(st(Step::Rup(c.con(&mut p, ""), b.into_iter().map(PId::Num).collect())));
            }
            Call::Red(red, c, ss, gs) => {
                let (els, w, n) = real_gs(gs, before, false);
                let has = !els.is_empty();
                let subs: Vec<_> = ss.iter().map(S::real).collect();
                got_id = Some(if *red { pr.redundant(&c.real(), subs, els) } else { pr.dominated(&c.real(), subs, els) }.unwrap());
                gives_id = true;
                if has {
                    next += 1 + n;
                }
                let w = has.then(|| w.iter().map(|f| f(&mut p)).collect());
                want.push(Want::Red(*red, c.con(&mut p, ""), ss.iter().map(|s| s.norm(&mut p)).collect(), w));
            }
            Call::DelIds(v, gs) => {
                let (a, b) = ids(v);
                if a.is_empty() {
                    continue;
                }
                let (els, w, n) = real_gs(gs, before, false);
                let has = !els.is_empty();
                pr.delete_ids::<Var, Real, _, _>(a, els).unwrap();
                if has {
                    next += 1 + n;
                }
                let w = has.then(|| w.iter().map(|f| f(&mut p)).collect());
                want.push(Want::Del(b, w));
            }
            Call::DelConstr(c) => {
                pr.delete_constr(&c.real()).unwrap();
                want.push(st(Step::DelSpec(c.con(&mut p, ""))));
            }
            Call::Range(del, s, e) => {
                let (Some(rs), Some(re)) = (s.1.resolve(before), e.1.resolve(before)) else { continue };
                let abs = |x: i64| if x < 0 { (before as i64 + x) as usize } else { x as usize };
                let mk = |k: u8, i: ConstraintId| match k % 3 {
                    0 => Bound::Unbounded,
                    1 => Bound::Included(i),
                    _ => Bound::Excluded(i),
                };
                let lo = match s.0 % 3 {
                    0 => 1,
                    1 => abs(rs.1),
                    _ => abs(rs.1) + 1,
                };
                let hi = match e.0 % 3 {
                    0 => before,
                    1 => abs(re.1) + 1,
                    _ => abs(re.1),
                };
                if lo >= hi {
                    continue;
                }
                let r = (mk(s.0, rs.0), mk(e.0, re.0));
                if *del { pr.delete_id_range(r) } else { pr.move_range_to_core(r) }.unwrap();
                want.push(Want::Range(*del, lo, hi, before));
            }
            Call::DelCore(v) | Call::DelDerived(v) | Call::Core(v) => {
                let (a, b) = ids(v);
                if a.is_empty() {
                    continue;
                }
                want.push(st(match c {
                    Call::DelCore(_) => {
                        pr.delete_core_ids(a).unwrap();
                        Step::DelCore(b)
                    }
                    Call::DelDerived(_) => {
                        pr.delete_derived_ids(a).unwrap();
                        Step::DelDerived(b)
                    }
                    _ => {
                        pr.move_ids_to_core(a).unwrap();
                        Step::CoreId(b)
                    }
                }));
            }
            Call::ObjNew(o, gs) => {
                if !h.opt {
                    continue;
                }
                let (els, w, n) = real_gs(gs, before, true);
                let goals: Vec<_> = els
                    .into_iter()
                    .map(|e| match e {
                        SubproofElement::Goal(g) => g,
                        SubproofElement::Derivation(_) => unreachable!(),
                    })
                    .collect();
                let has = !goals.is_empty();
                pr.update_objective(&ObjectiveUpdate::new(o.real(), goals)).unwrap();
                next += n;
                let w = has.then(|| w.iter().map(|f| f(&mut p)).collect());
                want.push(Want::Obj(true, o.norm(&mut p), w));
            }
            Call::ObjDiff(o) => {
                if !h.opt {
                    continue;
                }
                pr.update_objective(&ObjectiveUpdate::<Var, RealO, Real>::diff(o.real())).unwrap();
                want.push(Want::Obj(false, o.norm(&mut p), None));
            }
            Call::ObjEq(o) => {
                if !h.opt {
                    continue;
                }
                pr.obj_equals(&o.real()).unwrap();
                let (n, k) = o.norm(&mut p);
                want.push(st(Step::EObj(n.t.iter().map(|(v, k)| (*k, *v, false)).collect(), k)));
            }
            Call::Sol(k, v) => {
                let a: Vec<_> = v.iter().map(|l| ax(*l)).collect();
                let l = lits(&mut p, v);
                want.push(st(match k % 3 {
                    0 => {
                        pr.solution(a).unwrap();
                        Step::Sol(l)
                    }
                    1 => {
                        got_id = Some(pr.exclude_solution(a).unwrap());
                        gives_id = true;
                        Step::Solx(l)
                    }
                    _ => {
                        got_id = Some(pr.improve_solution(a).unwrap());
                        gives_id = true;
                        Step::Soli(l)
                    }
                }));
            }
            Call::Eq(add, c, i) => {
                let i = i.as_ref().and_then(|i| i.resolve(before));
                let (a, b) = (i.map(|x| x.0), i.map(|x| x.1));
                let con = c.con(&mut p, "");
                if *add {
                    got_id = Some(pr.equals_add(&c.real(), a).unwrap());
                    gives_id = true;
                    want.push(st(Step::EqAdd(con, b)));
                } else {
                    pr.equals(&c.real(), a).unwrap();
                    want.push(st(Step::Eq(con, b)));
                }
            }
            Call::Imp(add, c, i) => {
                let i = i.as_ref().and_then(|i| i.resolve(before));
                let (a, b) = (i.map(|x| x.0), i.map(|x| x.1));
                let con = c.con(&mut p, "");
                if *add {
                    got_id = Some(pr.implied_add(&c.real(), a).unwrap());
                    gives_id = true;
                    want.push(st(Step::ImpAdd(con, b)));
                } else {
                    pr.implied(&c.real(), a).unwrap();
                    want.push(st(Step::Imp(con, b)));
                }
            }
            Call::Level(n) => {
                pr.set_level(*n).unwrap();
                want.push(st(Step::SetLevel(*n)));
            }
            Call::Wipe(n) => {
                pr.wipe_level(*n).unwrap();
                want.push(st(Step::Wipe(*n)));
            }
            Call::NewVar => {
                let v = pr.new_proof_var();
                ensure!(v.to_string() == format!("pv{pvs}"), "proof-only variable {v} instead of pv{pvs}");
                pvs += 1;
                // and it can be used
                got_id = Some(pr.redundant::<ProofOnlyVar, _, _, _>(&v.axiom(pvs % 2 == 0), [v.substitute_fixed(pvs % 2 != 0)], []).unwrap());
                gives_id = true;
                let n = p.names.get(&v.to_string());
                want.push(Want::Red(true, Con::from_terms(&[(1, n, pvs % 2 == 0)], 1), vec![(n, Sub::Fix(pvs % 2 != 0))], None));
            }
            Call::Order { name: on, vars, defs } => {
                let oname = format!("ord{on}");
                let mut o = Order::<Var, OC>::new(oname.clone());
                ensure!(o.name() == oname, "order name");
                let vars: Vec<i32> = {
                    let mut v: Vec<i32> = vars.iter().map(|v| v.abs()).collect();
                    v.sort_unstable();
                    v.dedup();
                    v
                };
                if vars.is_empty() {
                    continue;
                }
                for v in &vars {
                    let (l, r) = o.use_var(var(*v));
                    ensure!(l == OrderVar::Left(var(*v)) && r == OrderVar::Right(var(*v)), "variables of the order");
                }
                let side = |i: usize, l: i32, right: bool| {
                    let v = var(vars[l.unsigned_abs() as usize % vars.len()]);
                    let _ = i;
                    if right { OrderVar::Right(v) } else { OrderVar::Left(v) }.axiom(l < 0)
                };
                let mut wdefs = vec![];
                for (c, t, r) in defs {
                    let (ts, b) = c.terms();
                    let oc = |f: bool| OC(ts.iter().enumerate().map(|(i, (k, l))| (*k as isize, side(i, *l, (i % 2 == 1) ^ f))).collect(), b as isize);
                    let ocw = |p: &mut Parser, f: bool| {
                        let t: Vec<_> = ts
                            .iter()
                            .enumerate()
                            .map(|(i, (k, l))| {
                                let v = vars[l.unsigned_abs() as usize % vars.len()];
                                (*k, p.names.get(&format!("{}_x{v}", if (i % 2 == 1) ^ f { "v" } else { "u" })), *l < 0)
                            })
                            .collect();
                        Con::from_terms(&t, b)
                    };
                    // derivations in order proofs: rup over the order's variables
                    let mut der = |ds: &[D]| -> (Vec<Derivation<OrderVar<Var>, OC>>, Vec<WG>) {
                        ds.iter()
                            .map(|d| match d {
                                D::Rup(_, h) => {
                                    let (a, b) = ids(h);
                                    (Derivation::Rup(oc(true), a), WG::Rup(ocw(&mut p, true), b.into_iter().map(PId::Num).collect()))
                                }
                                D::Pol(_) => {
                                    let v = OrderVar::FreshRight(var(vars[0]));
                                    (Derivation::from(OperationSequence::from(v.pos_axiom()) * 3), WG::Goal(PId::Tilde, vec![]))
                                }
                            })
                            .unzip()
                    };
                    let (td, tw) = der(t);
                    let (rd, rw) = match r {
                        Some(r) => {
                            let (a, b) = der(r);
                            (Some(a), Some(b))
                        }
                        None => (None, None),
                    };
                    wdefs.push((ocw(&mut p, false), tw, rw));
                    o.add_definition_constraint(oc(false), td, rd);
                }
                ensure!(
                    {
                        let mut u: Vec<Var> = o.used_vars().collect();
                        u.sort_unstable();
                        u == vars.iter().map(|v| var(*v)).collect::<Vec<_>>()
                    },
                    "used variables of the order"
                );
                pr.define_order(&o).unwrap();
                want.push(Want::Order { name: oname, vars, defs: wdefs });
            }
            Call::LoadOrder(on, vars) => {
                pr.load_order(&format!("ord{on}"), vars.iter().map(|v| var(v.abs()))).unwrap();
                want.push(st(Step::LoadOrder(format!("ord{on}"), vars.iter().map(|v| name(*v)).collect())));
            }
            Call::ToCore(b) => {
                pr.strengthening_to_core(*b).unwrap();
                want.push(st(Step::ToCore(*b)));
            }
        }
        if gives_id {
            let id = got_id.unwrap();
            ensure!(id == AbsConstraintId::new(next), "{c:?} returned id {id}, the constraint has id {next} in the proof");
            next += 1;
        }
        ensure!(pr.next_id() == AbsConstraintId::new(next), "after {c:?} the next id is {}, in the proof it is {next}", pr.next_id());
        ensure!(pr.first_proof_id() == AbsConstraintId::new(h.n + 1), "first proof id changed");
        obs.label(format!("{c:?}").split(['(', ' ', '{']).next().unwrap_or(""));
    }
    // relative ids resolve against the next id
    for k in 1..next.min(5) {
        ensure!(ConstraintId::last(k).make_absolute(pr.next_id()) == ConstraintId::abs(next - k), "relative id -{k} with next id {next}");
        ensure!(ConstraintId::abs(k).make_absolute(pr.next_id()) == ConstraintId::abs(k), "absolute id {k} changed");
    }
    if let Some((g, c)) = &h.update {
        let (real, t) = c.real(next);
        (conc, out) = (t, guarantee(*g).1);
        pr.update_default_conclusion(guarantee(*g).0, &real);
    }
    match &h.end {
        Some((g, c)) => {
            let (real, t) = c.real(next);
            (conc, out) = (t, guarantee(*g).1);
            let w = pr.conclude(guarantee(*g).0, &real).unwrap();
            ensure!(std::rc::Rc::ptr_eq(&w.0, &buf.0), "conclude returns another writer");
        }
        None => drop(pr),
    }
    want.push(st(Step::Output(out.into())));
    want.push(st(Step::Conclusion(conc)));
    want.push(st(Step::End));
    // read everything back
    let text = buf.text();
    let mut q = Parser::new(&text);
    q.names = p.names;
    let got = q.proof().map_err(|e| Fail::from(format!("proof is not well-formed: {e}\n{text}")))?;
    ensure!(got.len() == want.len(), "{} lines expected, {} found in\n{text}", want.len(), got.len());
    for (g, w) in got.iter().zip(&want) {
        let r: Result<(), String> = (|| {
            let bad = || Err(format!("unexpected {g:?}"));
            match (g, w) {
                (Step::EObj(t, k), Want::Step(Step::EObj(t2, k2))) => {
                    if onorm(t, *k) != onorm(t2, *k2) {
                        return bad();
                    }
                }
                (Step::Comment(a), Want::Step(Step::Comment(b))) => {
                    if a.trim() != b.trim() {
                        return bad();
                    }
                }
                (g, Want::Step(s)) => {
                    if g != s {
                        return Err(format!("expected {s:?}, found {g:?}"));
                    }
                }
                (Step::Pol(t), Want::Pol(e)) => same_ex(t, e, &mut q)?,
                (Step::ObjuNew(t, k, s), Want::Obj(true, o, ws)) => {
                    if onorm(t, *k) != *o {
                        return Err(format!("objective {o:?} was written as {t:?} {k}"));
                    }
                    same_sub(s, ws, &mut q)?;
                }
                (Step::ObjuDiff(t, k), Want::Obj(false, o, _)) => {
                    if onorm(t, *k) != *o {
                        return Err(format!("objective {o:?} was written as {t:?} {k}"));
                    }
                }
                (Step::Red(r, c, s, sp), Want::Red(r2, c2, s2, sp2)) => {
                    if r != r2 || c != c2 || s != s2 {
                        return bad();
                    }
                    same_sub(sp, sp2, &mut q)?;
                }
                (Step::DelId(i, sp), Want::Del(i2, sp2)) => {
                    if i != i2 {
                        return bad();
                    }
                    same_sub(sp, sp2, &mut q)?;
                }
                (Step::DelRange(a, b), Want::Range(true, lo, hi, n)) | (Step::CoreRange(a, b), Want::Range(false, lo, hi, n)) => {
                    let abs = |x: i64| if x < 0 { (*n as i64 + x) as usize } else { x as usize };
                    if (abs(*a), abs(*b)) != (*lo, *hi) {
                        return Err(format!("ids {lo}..{hi} were written as {a} {b} (next id {n})"));
                    }
                }
                (Step::DefOrder(raw), Want::Order { name, vars, defs }) => order(raw, name, vars, defs, &mut q)?,
                _ => return bad(),
            }
            Ok(())
        })();
        if let Err(e) = r {
            return Err(Fail::from(format!("{e}\n{text}")));
        }
    }
    if h.calls.len() >= 2 && next > h.n + 1 {
        obs.nontrivial();
    }
    Ok(())
}

/// Reads the lines of an order definition
fn order(raw: &[String], name: &str, vars: &[i32], defs: &[(Con, Vec<WG>, Option<Vec<WG>>)], q: &mut Parser) -> Result<(), String> {
    let mut it = raw.iter().map(String::as_str).peekable();
    let mut expect = |w: &str| match it.next() {
        Some(l) if l == w => Ok(()),
        o => Err(format!("expected {w:?} in an order, found {o:?}")),
    };
    expect(&format!("def_order {name}"))?;
    expect("vars")?;
    let mut names = |kw: &str, pre: &str| -> Result<Vec<String>, String> {
        let l = it.next().unwrap_or("");
        let mut t = l.split_whitespace();
        if t.next() != Some(kw) {
            return Err(format!("expected {kw}, found {l:?}"));
        }
        t.map(|x| x.strip_prefix(pre).map(String::from).ok_or_else(|| format!("bad name {x:?}"))).collect()
    };
    let l = names("left", "u_")?;
    let r = names("right", "v_")?;
    let mut sorted = l.clone();
    sorted.sort();
    let mut vs: Vec<String> = vars.iter().map(|v| format!("x{v}")).collect();
    vs.sort();
    if sorted != vs || l != r {
        return Err(format!("variables {l:?} / {r:?} of the order, not {vs:?}"));
    }
    let mut it: std::iter::Peekable<Box<dyn Iterator<Item = &str>>> = (Box::new(it) as Box<dyn Iterator<Item = &str>>).peekable();
    macro_rules! expect {
        ($w:expr) => {
            match it.next() {
                Some(l) if l == $w => {}
                o => return Err(format!("expected {:?} in an order, found {o:?}", $w)),
            }
        };
    }
    expect!("aux");
    expect!("end");
    expect!("def");
    for (c, _, _) in defs {
        let l = it.next().unwrap_or("");
        let l2 = l.strip_suffix(';').ok_or_else(|| format!("definition without ;: {l:?}"))?;
        if q.con(l2)? != *c {
            return Err(format!("definition {c:?} was written as {l:?}"));
        }
    }
    expect!("end");
    expect!("transitivity");
    expect!("vars");
    let l3 = it.next().unwrap_or("");
    let w: Vec<String> = l3.split_whitespace().skip(1).map(|x| x.strip_prefix("w_").unwrap_or("?").to_string()).collect();
    if !l3.starts_with("fresh_right ") || w != l {
        return Err(format!("fresh variables {l3:?}"));
    }
    expect!("end");
    macro_rules! goals {
        ($f:expr) => {
            expect!("proof");
            for (i, (_, t, r)) in defs.iter().enumerate() {
                let f: fn(&Vec<WG>, &Option<Vec<WG>>) -> Option<*const Vec<WG>> = $f;
                let Some(ws) = f(t, r) else { continue };
                // SAFETY-free: the pointer is only compared, look the vector up again
                let ws: &Vec<WG> = if std::ptr::eq(ws, t) { t } else { r.as_ref().unwrap() };
                expect!(format!("proofgoal #{}", i + 1));
                for w in ws {
                    let l = it.next().unwrap_or("").to_string();
                    match w {
                        WG::Rup(c, h) => {
                            let rest = l.strip_prefix("rup ").ok_or_else(|| format!("rup expected: {l:?}"))?;
                            let (a, b) = rest.split_once(';').ok_or("no ;")?;
                            let hs: Vec<PId> = b.split_whitespace().map(|x| x.parse().map(PId::Num).map_err(|_| "hint")).collect::<Result<_, _>>()?;
                            if q.con(a)? != *c || hs != *h {
                                return Err(format!("derivation in an order: {l:?}"));
                            }
                        }
                        _ => {
                            if l != format!("pol w_x{} 3 *", vars[0]) {
                                return Err(format!("derivation in an order: {l:?}"));
                            }
                        }
                    }
                }
                expect!("qed -1");
            }
            expect!("qed");
            expect!("end");
        };
    }
    goals!(|t, _| Some(t as *const _));
    if defs.iter().any(|d| d.2.is_some()) {
        expect!("reflexivity");
        goals!(|_, r| r.as_ref().map(|r| r as *const _));
    }
    expect!("end");
    if it.next().is_some() {
        return Err("text after the order".into());
    }
    Ok(())
}

fn s_c() -> BoxedStrategy<C> {
    let l = || vec(s_lit(6), 0..=4);
    let w = || vec((s_lit(6), -6i64..=9), 0..=4);
    prop_oneof![
        3 => (s_terms(6, 4), -4i64..10).prop_map(|(t, b)| C::Terms(t, b)),
        1 => l().prop_map(C::Clause),
        1 => (l(), 0usize..6).prop_map(|(l, b)| C::CardLb(l, b)),
        1 => (l(), 0usize..6).prop_map(|(l, b)| C::CardUb(l, b)),
        1 => (w(), -8i64..20).prop_map(|(l, b)| C::PbLb(l, b)),
        1 => (w(), -8i64..20).prop_map(|(l, b)| C::PbUb(l, b)),
        1 => s_lit(6).prop_map(C::Ax),
    ]
    .boxed()
}
fn s_o() -> BoxedStrategy<O> {
    prop_oneof![
        (s_terms(6, 4), prop_oneof![Just(0i64), -9i64..=9]).prop_map(|(t, k)| O::Terms(t, k)),
        (vec((1usize..9, s_lit(6)), 0..4), prop_oneof![Just(0i64), -9i64..=9]).prop_map(|(t, k)| O::Obj(t, k)),
    ]
    .boxed()
}
fn s_id() -> BoxedStrategy<IdRef> {
    (any::<bool>(), 0usize..9).prop_map(|(rel, k)| IdRef { rel, k }).boxed()
}
fn s_ids() -> BoxedStrategy<Vec<IdRef>> {
    vec(s_id(), 0..4).boxed()
}
fn s_d() -> BoxedStrategy<D> {
    prop_oneof![(s_c(), s_ids()).prop_map(|(c, h)| D::Rup(c, h)), s_ex(false).prop_map(D::Pol)].boxed()
}
fn s_gs() -> BoxedStrategy<Vec<G>> {
    prop_oneof![
        2 => Just(vec![]),
        3 => vec(prop_oneof![1 => s_d().prop_map(G::D), 2 => (any::<bool>(), 0usize..5, vec(s_d(), 0..3)).prop_map(|(hash, id, ds)| G::Goal { hash, id, ds })], 1..4),
    ]
    .boxed()
}
fn s_subs() -> BoxedStrategy<Vec<S>> {
    vec(prop_oneof![(s_lit(6), s_lit(6)).prop_map(|(a, b)| S::Lit(a, b)), (s_lit(6), any::<bool>()).prop_map(|(a, b)| S::Fix(a, b)), s_lit(6).prop_map(S::Ax)], 0..3).boxed()
}
fn s_conc() -> BoxedStrategy<(u8, Conc)> {
    let sol = || proptest::option::of(vec(s_lit(6), 0..4));
    (
        0u8..7,
        prop_oneof![
            Just(Conc::None),
            sol().prop_map(Conc::Sat),
            proptest::option::of(s_id()).prop_map(Conc::Unsat),
            (-5i64..6, 0i64..6, proptest::option::of(s_id()), sol()).prop_map(|(a, b, c, d)| Conc::Bounds(a, b, c, d)),
        ],
    )
        .boxed()
}
fn s_call() -> BoxedStrategy<Call> {
    let txt = || "[ -~]{0,12}";
    prop_oneof![
        1 => (0usize..9).prop_map(Call::F),
        1 => txt().prop_map(Call::Comment),
        1 => vec(txt(), 0..4).prop_map(Call::Multi),
        3 => s_ex(false).prop_map(Call::Pol),
        3 => (s_c(), s_ids()).prop_map(|(c, h)| Call::Rup(c, h)),
        3 => (any::<bool>(), s_c(), s_subs(), s_gs()).prop_map(|(r, c, s, g)| Call::Red(r, c, s, g)),
        2 => (s_ids(), s_gs()).prop_map(|(i, g)| Call::DelIds(i, g)),
        1 => s_c().prop_map(Call::DelConstr),
        3 => (any::<bool>(), (0u8..3, s_id()), (0u8..3, s_id())).prop_map(|(d, s, e)| Call::Range(d, s, e)),
        1 => s_ids().prop_map(Call::DelCore),
        1 => s_ids().prop_map(Call::DelDerived),
        1 => s_ids().prop_map(Call::Core),
        2 => (s_o(), s_gs()).prop_map(|(o, g)| Call::ObjNew(o, g)),
        1 => s_o().prop_map(Call::ObjDiff),
        1 => s_o().prop_map(Call::ObjEq),
        2 => (0u8..3, vec(s_lit(6), 0..4)).prop_map(|(k, v)| Call::Sol(k, v)),
        2 => (any::<bool>(), s_c(), proptest::option::of(s_id())).prop_map(|(a, c, i)| Call::Eq(a, c, i)),
        2 => (any::<bool>(), s_c(), proptest::option::of(s_id())).prop_map(|(a, c, i)| Call::Imp(a, c, i)),
        1 => (0usize..9).prop_map(Call::Level),
        1 => (0usize..9).prop_map(Call::Wipe),
        1 => Just(Call::NewVar),
        2 => (0usize..3, vec(s_lit(6), 1..4), vec((s_c(), vec(s_d(), 0..3), proptest::option::of(vec(s_d(), 0..3))), 0..3)).prop_map(|(name, vars, defs)| Call::Order { name, vars, defs }),
        1 => (0usize..3, vec(s_lit(6), 0..4)).prop_map(|(n, v)| Call::LoadOrder(n, v)),
        1 => any::<bool>().prop_map(Call::ToCore),
    ]
    .boxed()
}
fn s_hist(n: usize) -> BoxedStrategy<Hist> {
    (0usize..6, any::<bool>(), proptest::option::of(s_conc()), vec(s_call(), 0..=n), proptest::option::of(s_conc()), proptest::option::of(s_conc()))
        .prop_map(|(n, opt, start, calls, update, end)| Hist { n, opt, start, calls, update, end })
        .boxed()
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "an operation sequence of at least five tokens; a proof of at least two calls that derives at least one constraint",
        assumptions: vec!["the harness's parser of the VeriPB 2.0 text format".into()],
        subs: vec![
            sub("ops", 300_000, 5_000_000, |_| s_ops(false), run_ops),
            sub("ops-weaken", 0, 0, |_| s_ops(true), run_ops),
            sub("calls", 80_000, 1_500_000, |t| s_hist(t.pick(10, 20)), run),
        ],
    }
}
