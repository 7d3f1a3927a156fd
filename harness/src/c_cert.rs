//! C07, C08: certified encodings, checked by our own VeriPB checker
use crate::c_enc::{holds, run_hist, s_hist, s_weights};
use crate::common::*;
use crate::enc::*;
use crate::veripb::{Checker, Con, Parser, Step};
use pigeons::AbsConstraintId as Id;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::encodings::cert::{self, ConstraintEncodingError};
use rustsat::encodings::{card, pb, CollectClauses, EncodeStats};
use rustsat::instances::{Cnf, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use vcore::*;

/// Writer whose content stays readable
#[derive(Clone, Default)]
pub struct Buf(pub Rc<RefCell<Vec<u8>>>);
impl std::io::Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Buf {
    pub fn text(&self) -> String {
        String::from_utf8(self.0.borrow().clone()).expect("proof is text")
    }
}

/// Collector that remembers the proof ids; clauses that come without one are remembered, too
pub struct CertCnf<'a> {
    cnf: &'a mut Cnf,
    log: &'a mut Vec<(Clause, Option<Id>)>,
}
impl CollectClauses for CertCnf<'_> {
    fn n_clauses(&self) -> usize {
        self.cnf.len()
    }
    fn extend_clauses<T: IntoIterator<Item = Clause>>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory> {
        for c in it {
            self.log.push((c.clone(), None));
            self.cnf.add_clause(c);
        }
        Ok(())
    }
}
impl cert::CollectClauses for CertCnf<'_> {
    fn extend_cert_clauses<T: IntoIterator<Item = (Clause, Id)>>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory> {
        for (c, i) in it {
            self.log.push((c.clone(), Some(i)));
            self.cnf.add_clause(c);
        }
        Ok(())
    }
}

fn parse_id(i: Id) -> usize {
    i.to_string().parse().unwrap()
}

/// Checks a whole proof and the ids of the clauses; returns the number of checked steps
pub fn verify(text: &str, orig: &[(Vec<(i128, i32)>, i128)], log: &[(Clause, Option<Id>)]) -> Result<usize, String> {
    let mut p = Parser::new(text);
    let name = |p: &mut Parser, l: i32| p.names.get(&format!("x{}", l.unsigned_abs()));
    let orig: Vec<Con> = orig
        .iter()
        .map(|(ts, b)| {
            let ts: Vec<_> = ts.iter().map(|(k, l)| (*k, name(&mut p, *l), *l < 0)).collect();
            Con::from_terms(&ts, *b)
        })
        .collect();
    let steps = p.proof().map_err(|e| format!("proof is not well-formed: {e}"))?;
    if !matches!(steps[..], [.., Step::Output(_), Step::Conclusion(_), Step::End]) {
        return Err("proof does not end with output and conclusion".into());
    }
    let mut c = Checker::new(&orig);
    for (i, s) in steps.iter().enumerate() {
        c.step(s, &mut p).map_err(|e| format!("proof step {i} {s:?} rejected: {e}\n{text}"))?;
    }
    for (cl, id) in log {
        let Some(id) = id else { return Err(format!("clause {cl} was emitted without a proof id")) };
        let id = parse_id(*id);
        let got = c.all.get(&id).ok_or_else(|| format!("clause {cl} refers to id {id}, which the proof never defines\n{text}"))?;
        let ts: Vec<_> = cl.iter().map(|l| (1, name(&mut p, ilit(*l)), l.is_neg())).collect();
        let want = Con::from_terms(&ts, 1).sat();
        if got.sat() != want {
            return Err(format!("clause {cl} refers to id {id}, which is {got:?} in the proof\n{text}"));
        }
    }
    Ok(c.steps)
}

// ---------- C07: lazily built encodings ----------

type Log = Vec<(Clause, Option<Id>)>;
struct St {
    proof: Option<pigeons::Proof<Buf>>,
    buf: Buf,
    log: Log,
}
impl St {
    fn new() -> Self {
        let buf = Buf::default();
        St { proof: Some(pigeons::Proof::new(buf.clone(), 0, false).unwrap()), buf, log: vec![] }
    }
}
struct CC<E>(E, St);
struct CP<E>(E, St);

macro_rules! cenc {
    (ub, $s:ident, $k:ident, $change:ident, $r:ident, $c:ident, $v:ident, $m:ident) => {{
        let p = $s.1.proof.as_mut().unwrap();
        let mut col = CertCnf { cnf: $c, log: &mut $s.1.log };
        match ($k, $change) {
            (K::Ub, false) => $m::cert::BoundUpper::encode_ub_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Ub, true) => $m::cert::BoundUpperIncremental::encode_ub_change_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            _ => return false,
        }
    }};
    (lb, $s:ident, $k:ident, $change:ident, $r:ident, $c:ident, $v:ident, $m:ident) => {{
        let p = $s.1.proof.as_mut().unwrap();
        let mut col = CertCnf { cnf: $c, log: &mut $s.1.log };
        match ($k, $change) {
            (K::Lb, false) => $m::cert::BoundLower::encode_lb_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Lb, true) => $m::cert::BoundLowerIncremental::encode_lb_change_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            _ => return false,
        }
    }};
    (both, $s:ident, $k:ident, $change:ident, $r:ident, $c:ident, $v:ident, $m:ident) => {{
        let p = $s.1.proof.as_mut().unwrap();
        let mut col = CertCnf { cnf: $c, log: &mut $s.1.log };
        match ($k, $change) {
            (K::Ub, false) => $m::cert::BoundUpper::encode_ub_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Ub, true) => $m::cert::BoundUpperIncremental::encode_ub_change_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Lb, false) => $m::cert::BoundLower::encode_lb_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Lb, true) => $m::cert::BoundLowerIncremental::encode_lb_change_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Both, false) => $m::cert::BoundBoth::encode_both_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
            (K::Both, true) => $m::cert::BoundBothIncremental::encode_both_change_cert(&mut $s.0, $r, &mut col, $v, p).unwrap(),
        }
    }};
}
macro_rules! cenf {
    (ub, $s:ident, $k:ident, $b:ident, $m:ident) => {
        match $k {
            K::Ub => Ok($m::BoundUpper::enforce_ub(&$s.0, $b)?),
            _ => Err(EE::NotEncoded),
        }
    };
    (lb, $s:ident, $k:ident, $b:ident, $m:ident) => {
        match $k {
            K::Lb => Ok($m::BoundLower::enforce_lb(&$s.0, $b)?),
            _ => Err(EE::NotEncoded),
        }
    };
    (both, $s:ident, $k:ident, $b:ident, $m:ident) => {
        match $k {
            K::Ub => Ok($m::BoundUpper::enforce_ub(&$s.0, $b)?),
            K::Lb => Ok($m::BoundLower::enforce_lb(&$s.0, $b)?),
            K::Both => Ok($m::BoundBoth::enforce_eq(&$s.0, $b)?),
        }
    };
}
macro_rules! common {
    () => {
        fn finish(&mut self) -> Result<usize, String> {
            drop(self.1.proof.take());
            verify(&self.1.buf.text(), &[], &self.1.log)
        }
    };
}
macro_rules! certenc {
    ($t:ty, card, $b:ident) => {
        impl DynEnc for CC<$t> {
            fn extend(&mut self, ls: &[(Lit, usize)]) {
                self.0.extend(ls.iter().map(|(l, _)| *l));
            }
            fn encode(&mut self, k: K, change: bool, r: Range, c: &mut Cnf, v: &mut dyn ManageVars) -> bool {
                cenc!($b, self, k, change, r, c, v, card);
                true
            }
            fn enforce(&self, k: K, b: usize) -> Result<Vec<Lit>, EE> {
                cenf!($b, self, k, b, card)
            }
            fn reserve(&mut self, v: &mut dyn ManageVars) {
                card::EncodeIncremental::reserve(&mut self.0, v);
            }
            fn total(&self) -> usize {
                card::Encode::n_lits(&self.0)
            }
            fn stats(&self) -> Option<(usize, u32)> {
                Some((self.0.n_clauses(), self.0.n_vars()))
            }
            common!();
        }
    };
    ($t:ty, pb, $b:ident, $st:expr) => {
        impl DynEnc for CP<$t> {
            fn extend(&mut self, ls: &[(Lit, usize)]) {
                self.0.extend(ls.iter().copied());
            }
            fn encode(&mut self, k: K, change: bool, r: Range, c: &mut Cnf, v: &mut dyn ManageVars) -> bool {
                cenc!($b, self, k, change, r, c, v, pb);
                true
            }
            fn enforce(&self, k: K, b: usize) -> Result<Vec<Lit>, EE> {
                cenf!($b, self, k, b, pb)
            }
            fn reserve(&mut self, v: &mut dyn ManageVars) {
                pb::EncodeIncremental::reserve(&mut self.0, v);
            }
            fn total(&self) -> usize {
                pb::Encode::weight_sum(&self.0)
            }
            fn stats(&self) -> Option<(usize, u32)> {
                let f: fn(&$t) -> Option<(usize, u32)> = $st;
                f(&self.0)
            }
            common!();
        }
    };
}
certenc!(CTot, card, both);
certenc!(CInv, card, both);
certenc!(CDbl, card, both);
certenc!(CInv2, card, both);
certenc!(CDbl2, card, both);
certenc!(PGte, pb, ub, |e| Some((e.n_clauses(), e.n_vars())));
certenc!(PIGte, pb, lb, |e| Some((e.n_clauses(), e.n_vars())));
certenc!(PDGte, pb, both, |e| Some((e.n_clauses(), e.n_vars())));
certenc!(PCard, pb, both, |_| None);
certenc!(PCardD, pb, both, |_| None);

macro_rules! ck {
    ($n:expr, $t:ty, $k:expr) => {
        Kind { name: $n, kinds: $k, extendable: true, monotone: true, make: |l| Box::new(CC(<$t>::from(l.iter().map(|(l, _)| *l).collect::<Vec<_>>()), St::new())) }
    };
}
macro_rules! pk {
    ($n:expr, $t:ty, $k:expr) => {
        Kind { name: $n, kinds: $k, extendable: true, monotone: true, make: |l| Box::new(CP(<$t>::from(hm(l)), St::new())) }
    };
}
const CARD: &[Kind] = &[
    ck!("totalizer", CTot, ALL),
    ck!("inverted-totalizer", CInv, ALL),
    ck!("double-totalizer", CDbl, ALL),
    ck!("inverted-inverted-totalizer", CInv2, ALL),
    ck!("double-inverted-totalizer", CDbl2, ALL),
];
const PB: &[Kind] = &[
    pk!("gte", PGte, UB),
    pk!("inverted-gte", PIGte, LB),
    pk!("double-gte", PDGte, ALL),
    pk!("card-totalizer", PCard, ALL),
    pk!("card-double", PCardD, ALL),
];

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "at least two inputs and at least one enforceable bound strictly between 0 and the total, with a proof of at least one derivation checked",
        assumptions: vec!["the proof checker of the harness (rules f, pol, rup, red, del, e, i) stands for VeriPB".into()],
        subs: vec![
            sub("card", 40_000, 800_000, |t| s_hist(CARD, false, t.pick(6, 7), t.pick(5, 8)), |h, o| run_hist(CARD, h, true, o)),
            sub("pb", 30_000, 600_000, |t| s_hist(PB, true, t.pick(5, 6), t.pick(5, 8)), |h, o| run_hist(PB, h, true, o)),
        ],
    }
}

// ---------- C08: constraints ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCon {
    f: usize,
    kind: K,
    lits: Vec<(i32, isize)>,
    bound: i64,
    card: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comp {
    cons: Vec<CCon>,
    gap: u32,
    pre: u32,
    /// how the proof ends: 0 dropped, 1 concluded
    end: u8,
}

type Col<'a, 'b> = &'a mut CertCnf<'b>;
type VM<'a> = &'a mut dyn ManageVars;
type Pr<'a> = &'a mut pigeons::Proof<Buf>;
type CardFn = fn((CardConstraint, Id), Col, VM, Pr) -> Option<()>;
type PbFn = fn((PbConstraint, Id), Col, VM, Pr) -> Option<()>;
macro_rules! res {
    ($e:expr) => {
        match $e {
            Ok(()) => Some(()),
            Err(ConstraintEncodingError::Unsat) => None,
            Err(e) => panic!("{e}"),
        }
    };
}
const CARD_FNS: &[(&str, CardFn)] = &[
    ("card default", |c, n, v, p| Some(card::cert::default_encode_cardinality_constraint(c, n, v, p).unwrap())),
    ("totalizer/encode_constr", |c, n, v, p| res!(<CTot as card::cert::BoundBoth>::encode_constr_cert(c, n, v, p))),
    ("inverted/encode_constr", |c, n, v, p| res!(<CInv as card::cert::BoundBoth>::encode_constr_cert(c, n, v, p))),
    ("double/encode_constr", |c, n, v, p| res!(<CDbl as card::cert::BoundBoth>::encode_constr_cert(c, n, v, p))),
    ("double2/encode_constr", |c, n, v, p| res!(<CDbl2 as card::cert::BoundBoth>::encode_constr_cert(c, n, v, p))),
    ("inverted/generic", |c, n, v, p| Some(card::cert::encode_cardinality_constraint::<CInv, _, _>(c, n, v, p).unwrap())),
    ("double/generic", |c, n, v, p| Some(card::cert::encode_cardinality_constraint::<CDbl, _, _>(c, n, v, p).unwrap())),
];
const PB_FNS: &[(&str, PbFn)] = &[
    ("pb default", |c, n, v, p| Some(pb::cert::default_encode_pb_constraint(c, n, v, p).unwrap())),
    ("double-gte/encode_constr", |c, n, v, p| res!(<PDGte as pb::cert::BoundBoth>::encode_constr_cert(c, n, v, p))),
    ("card/encode_constr", |c, n, v, p| res!(<PCard as pb::cert::BoundBoth>::encode_constr_cert(c, n, v, p))),
    ("card-double/generic", |c, n, v, p| Some(pb::cert::encode_pb_constraint::<PCardD, _, _>(c, n, v, p).unwrap())),
];

fn comp(c: &Comp, obs: &mut Obs) -> CheckResult {
    // the constraints as the user's OPB file has them
    let mut orig: Vec<(Vec<(i128, i32)>, i128)> = vec![];
    let mut ids = vec![];
    for k in &c.cons {
        ids.push(orig.len() + 1);
        let t: Vec<(i128, i32)> = k.lits.iter().map(|(l, w)| (if k.card { 1 } else { *w as i128 }, *l)).collect();
        let n: Vec<(i128, i32)> = t.iter().map(|(w, l)| (-w, *l)).collect();
        if k.kind != K::Ub {
            orig.push((t, k.bound as i128));
        }
        if k.kind != K::Lb {
            orig.push((n, -(k.bound as i128)));
        }
    }
    let mv = c.cons.iter().flat_map(|k| k.lits.iter().map(|l| l.0.unsigned_abs())).max().unwrap_or(0);
    let mut vm = GapVm::new(mv + c.pre, c.gap);
    let mut cnf = Cnf::new();
    let mut log = vec![];
    let buf = Buf::default();
    let mut proof = pigeons::Proof::new(buf.clone(), orig.len(), false).unwrap();
    let mut unsat = false;
    for (k, id) in c.cons.iter().zip(&ids) {
        let mut col = CertCnf { cnf: &mut cnf, log: &mut log };
        let id = Id::new(*id);
        let (name, r) = if k.card {
            let ls: Vec<Lit> = k.lits.iter().map(|(l, _)| lit(*l)).collect();
            let b = k.bound as usize;
            let con = match k.kind {
                K::Ub => CardConstraint::new_ub(ls, b),
                K::Lb => CardConstraint::new_lb(ls, b),
                K::Both => CardConstraint::new_eq(ls, b),
            };
            let (n, f) = CARD_FNS[k.f % CARD_FNS.len()];
            (n, f((con, id), &mut col, &mut vm, &mut proof))
        } else {
            let ls: Vec<(Lit, isize)> = k.lits.iter().map(|(l, w)| (lit(*l), *w)).collect();
            let b = k.bound as isize;
            let con = match k.kind {
                K::Ub => PbConstraint::new_ub(ls, b),
                K::Lb => PbConstraint::new_lb(ls, b),
                K::Both => PbConstraint::new_eq(ls, b),
            };
            let (n, f) = PB_FNS[k.f % PB_FNS.len()];
            (n, f((con, id), &mut col, &mut vm, &mut proof))
        };
        obs.label(name);
        unsat |= r.is_none();
    }
    if c.end == 0 {
        drop(proof);
    } else {
        proof.conclude(pigeons::OutputGuarantee::None, &pigeons::Conclusion::<rustsat::types::Var>::None).unwrap();
    }
    let n = verify(&buf.text(), &orig, &log).map_err(Fail::from)?;
    obs.count("proof-steps", n as u64);
    let cls = icnf(&cnf);
    let vars = vars_of(c.cons.iter().flat_map(|k| k.lits.iter().map(|l| l.0)));
    only_known_vars(&cls, &vars, &vm.given)?;
    let mut f = Form::new(&cls);
    let (mut t, mut ff) = (false, false);
    for a in all_assignments(&vars) {
        let want = c.cons.iter().all(|k| {
            let s: i128 = k.lits.iter().filter(|(l, _)| lit_true(*l, a)).map(|(_, w)| if k.card { 1 } else { *w as i128 }).sum();
            holds(k.kind, s, k.bound as i128)
        });
        t |= want;
        ff |= !want;
        let got = !unsat && f.sat(&assumps(&vars, a), &[]);
        ensure!(got == want, "inputs {:?} {} the constraints but the certified encoding is {}", assumps(&vars, a), if want { "satisfy" } else { "violate" }, if got { "satisfiable" } else { "unsatisfiable" });
    }
    if t && ff && !cls.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}

fn s_con(nv: i32, maxn: usize) -> BoxedStrategy<CCon> {
    let kind = prop_oneof![Just(K::Ub), Just(K::Lb), Just(K::Both)];
    (s_lits(nv, 0, maxn), s_weights(maxn), vec(any::<bool>(), maxn), kind, 0usize..8, any::<bool>(), 0u32..=1000, -2i64..=2, 0u8..4)
        .prop_map(|(l, w, neg, kind, f, card, at, off, signs)| {
            let lits: Vec<(i32, isize)> = l.into_iter().zip(w).zip(neg).map(|((l, w), n)| (l, if n && signs == 0 { -(w as isize) } else { w as isize })).collect();
            let lo: i64 = if card { 0 } else { lits.iter().map(|x| x.1.min(0) as i64).sum() };
            let hi: i64 = if card { lits.len() as i64 } else { lits.iter().map(|x| x.1.max(0) as i64).sum() };
            let b = lo + (hi - lo) * i64::from(at) / 1000 + off;
            CCon { f, kind, lits, bound: if card { b.max(0) } else { b }, card }
        })
        .boxed()
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "some assignment satisfies all the constraints, some violates one, and at least one clause was derived",
        assumptions: vec!["the proof checker of the harness (rules f, pol, rup, red, del, e, i) stands for VeriPB".into(), "a constraint handed over with id `i` is constraint `i` of the proof, for equalities the lower bound is `i` and the upper bound `i + 1`".into()],
        subs: vec![
            sub("one", 60_000, 1_000_000, |t| (s_con(t.pick(6, 7), t.pick(6, 7)), 0u32..3, 0u32..3, 0u8..2).prop_map(|(c, gap, pre, end)| Comp { cons: vec![c], gap, pre, end }).boxed(), comp),
            sub("many", 20_000, 400_000, |t| (vec(s_con(6, 5), 1..=t.pick(4, 6)), 0u32..3, 0u32..3, 0u8..2).prop_map(|(cons, gap, pre, end)| Comp { cons, gap, pre, end }).boxed(), comp),
        ],
    }
}
