//! C34: serialization
use crate::c_enc::{run_dpw, run_hist, s_dpw, s_hist, DHist, DOp, Hist, Op};
use crate::c_inst::{build_obj, check_vm, s_opt, s_vops, OptCase, VOp};
use crate::c_types::{card, full, pb, Cmp};
use crate::common::*;
use crate::enc::{Kind, CARD, PB};
use crate::spec::{build, sat_all, Con};
use crate::tok;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::encodings::am1;
use rustsat::instances::*;
use rustsat::types::{Assignment, Lit, TernaryVal, Var};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use vcore::*;

/// Both formats; the JSON format is skipped where it cannot represent the type
fn same<T: Serialize + DeserializeOwned + PartialEq>(what: &str, v: &T, o: &mut Obs) -> Result<T, Fail> {
    let w = tok::round(v).map_err(|e| Fail(format!("{what}: {e}")))?;
    ensure!(*v == w, "{what} is not equal to itself after serializing and deserializing");
    match tok::json(v).map_err(|e| Fail(format!("{what}: {e}")))? {
        None => o.label(format!("no JSON for {what}")),
        Some(j) => ensure!(*v == j, "{what} is not equal to itself after going through JSON"),
    }
    Ok(w)
}

fn with_reloads(kinds: &'static [Kind], weighted: bool, n: i32, maxops: usize) -> BoxedStrategy<Hist> {
    (s_hist(kinds, weighted, n, maxops), vec((0..=maxops, any::<bool>()), 1..4))
        .prop_map(|(mut h, at)| {
            for (i, json) in at {
                h.ops.insert(i.min(h.ops.len()), Op::Reload(json));
            }
            h
        })
        .boxed()
}

fn dpw_reloads(t: Tier) -> BoxedStrategy<DHist> {
    (s_dpw(t), vec((0usize..9, any::<bool>()), 1..4))
        .prop_map(|(mut h, at)| {
            for (i, json) in at {
                h.ops.insert(i.min(h.ops.len()), DOp::Reload(json));
            }
            h
        })
        .boxed()
}

fn s_vm(_: Tier) -> BoxedStrategy<(u8, u32, Vec<VOp>)> {
    (0u8..2, 0u32..6, s_vops(1), vec((0usize..9, any::<bool>()), 1..4))
        .prop_map(|(w, n, mut ops, at)| {
            for (i, json) in at {
                ops.insert(i.min(ops.len()), VOp::Reload(json));
            }
            (w, n, ops)
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vals {
    lits: Vec<i32>,
    coeffs: Vec<isize>,
    cmp: Cmp,
    bound: isize,
    asg: Vec<i8>,
    idx: u32,
}

fn s_vals(_: Tier) -> BoxedStrategy<Vals> {
    let co = prop_oneof![6 => -5isize..=9, 1 => any::<i32>().prop_map(|x| x as isize)];
    let idx = prop_oneof![4 => 0u32..20, 1 => 0..=Var::MAX_IDX, 1 => Just(Var::MAX_IDX)];
    (s_lits(9, 0, 8), vec(co, 8), crate::c_types::s_cmp(), -9isize..20, vec(-1i8..=1, 0..8), idx).prop_map(|(lits, coeffs, cmp, bound, asg, idx)| Vals { lits, coeffs, cmp, bound, asg, idx }).boxed()
}

fn check_vals(c: &Vals, o: &mut Obs) -> CheckResult {
    let v = Var::new(c.idx);
    same("a variable", &v, o)?;
    for l in [v.pos_lit(), v.neg_lit()] {
        let r = same("a literal", &l, o)?;
        ensure!(r.is_pos() == l.is_pos() && r.var() == v, "polarity of {l}");
    }
    for t in [TernaryVal::True, TernaryVal::False, TernaryVal::DontCare] {
        same("a ternary value", &t, o)?;
    }
    let a: Assignment = c.asg.iter().map(|&x| if x > 0 { TernaryVal::True } else if x < 0 { TernaryVal::False } else { TernaryVal::DontCare }).collect();
    let b = same("an assignment", &a, o)?;
    for i in 0..10 {
        ensure!(a.var_value(Var::new(i)) == b.var_value(Var::new(i)), "value of variable {i}");
    }
    let cl = clause(&c.lits);
    let r = same("a clause", &cl, o)?;
    ensure!(icl(&r) == c.lits, "literals of clause {:?}", c.lits);
    let vars = vars_of(c.lits.iter().copied());
    let n = vars.last().copied().unwrap_or(0);
    let k = card(&c.lits, c.cmp, c.bound.unsigned_abs());
    let k2 = same("a cardinality constraint", &k, o)?;
    let p = pb(&c.lits.iter().copied().zip(c.coeffs.iter().copied()).collect::<Vec<_>>(), c.cmp, c.bound);
    let p2 = same("a pseudo-Boolean constraint", &p, o)?;
    for a in all_assignments(&vars) {
        let f = full(n, a);
        ensure!(k.evaluate(&f) == k2.evaluate(&f) && p.evaluate(&f) == p2.evaluate(&f), "evaluation under {f:?}");
    }
    // at-most-one encodings
    fn enc<E: am1::Encode + From<Vec<Lit>> + Serialize + DeserializeOwned>(name: &str, lits: &[i32]) -> CheckResult {
        let mut e = E::from(lits.iter().map(|l| lit(*l)).collect::<Vec<_>>());
        let mut again = vec![tok::round(&e).map_err(|m| Fail(format!("{name}: {m}")))?];
        again.extend(tok::json(&e).map_err(|m| Fail(format!("{name}: {m}")))?);
        for mut r in again {
            let mut out = vec![];
            for e in [&mut e, &mut r] {
                let mut vm = BasicVarManager::from_next_free(Var::new(20));
                let mut cnf = Cnf::new();
                e.encode(&mut cnf, &mut vm).unwrap();
                out.push((icnf(&cnf), vm.n_used(), e.n_lits()));
            }
            ensure!(out[0] == out[1], "{name} over {lits:?} encodes {:?} before serialization, {:?} afterwards", out[0], out[1]);
            // the second encoding of `e` is the same as the first
        }
        Ok(())
    }
    let l = &c.lits[..];
    match c.idx % 6 {
        0 => enc::<am1::Pairwise>("pairwise", l)?,
        1 => enc::<am1::Ladder>("ladder", l)?,
        2 => enc::<am1::Bitwise>("bitwise", l)?,
        3 => enc::<am1::Commander>("commander", l)?,
        4 => enc::<am1::Bimander>("bimander", l)?,
        _ => enc::<am1::TwoProduct>("two-product", l)?,
    }
    if c.lits.len() > 1 {
        o.nontrivial();
    }
    Ok(())
}

fn dimacs<E: std::fmt::Debug>(f: impl FnOnce(&mut Vec<u8>) -> Result<(), E>) -> Vec<u8> {
    let mut v = vec![];
    f(&mut v).unwrap();
    v
}

fn check_insts(c: &OptCase, o: &mut Obs) -> CheckResult {
    let n = c.n;
    let s: SatInstance = build(&c.con);
    let mut s2 = same("an instance", &s, o)?;
    same("a CNF", s.cnf(), o)?;
    ensure!((s2.n_clauses(), s2.n_cards(), s2.n_pbs(), s2.max_var()) == (s.n_clauses(), s.n_cards(), s.n_pbs(), s.max_var()), "sizes of the instance");
    for a in 0..1u64 << n {
        ensure!((s2.evaluate(&full(n, a)) == TernaryVal::True) == sat_all(&c.con, a), "the deserialized instance differs under {a:b}");
    }
    let w = |i: &SatInstance| dimacs(|v| i.write_opb(v, fio::opb::Options::default()));
    ensure!(w(&s) == w(&s2), "the deserialized instance is written differently");
    let mut used = s.clone();
    ensure!(used.new_var() == s2.new_var(), "new variable of the deserialized instance");
    let r: SatInstance<ReindexingVarManager> = s.clone().reindex(ReindexingVarManager::from_next_free(Var::new(c.off)));
    let mut r2 = same("a re-indexed instance", &r, o)?;
    let mut r = r;
    for v in s.var_set() {
        ensure!(r.var_manager_mut().reindex(v) == r2.var_manager_mut().reindex(v), "re-indexing of {v}");
    }
    let mut objs = vec![];
    for ops in &c.objs {
        let (obj, m) = build_obj(n, ops, o)?;
        let obj2 = same("an objective", &obj, o)?;
        ensure!((obj.offset(), obj.weighted(), obj.n_clauses()) == (obj2.offset(), obj2.weighted(), obj2.n_clauses()), "kind of objective");
        for a in 0..1u64 << n {
            ensure!(obj2.evaluate(&full(n, a)) as i128 == m.cost(a), "cost of {a:b} after deserializing");
        }
        objs.push(obj);
    }
    if let Some(obj) = objs.first() {
        let i: OptInstance = OptInstance::compose(s.clone(), obj.clone());
        let i2 = same("an optimization instance", &i, o)?;
        for a in 0..1u64 << n {
            ensure!(i.cost(&full(n, a)) == i2.cost(&full(n, a)), "cost of {a:b} in the deserialized optimization instance");
        }
    }
    let m: MultiOptInstance = MultiOptInstance::compose(s, objs);
    let m2 = same("a multi-objective instance", &m, o)?;
    for a in 0..1u64 << n {
        ensure!(m.cost(&full(n, a)) == m2.cost(&full(n, a)), "costs of {a:b} in the deserialized multi-objective instance");
    }
    let rr = RandReindVarManager::init(n as u32);
    same("a random re-indexing", &rr, o)?;
    if c.con.iter().any(|c| !matches!(c, Con::Cl(_))) && c.objs.iter().any(|x| !x.is_empty()) {
        o.nontrivial();
    }
    Ok(())
}

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "histories: as for C03, C05 and C19 (a bound strictly between the trivial ones, mapped variables); values: more than one literal; instances: a constraint that is no clause and a soft constraint",
        assumptions: vec!["two formats: a binary one of the harness (checks that exactly what was written is read) and JSON"],
        subs: vec![
            sub("card", 60_000, 1_500_000, |t| with_reloads(CARD, false, t.pick(6, 7), t.pick(6, 10)), |h, o| run_hist(CARD, h, true, o)),
            sub("pb", 25_000, 500_000, |t| with_reloads(PB, true, t.pick(5, 6), t.pick(5, 8)), |h, o| run_hist(PB, h, false, o)),
            sub("dpw", 60_000, 800_000, dpw_reloads, run_dpw),
            sub("managers", 200_000, 2_000_000, s_vm, check_vm),
            sub("values", 100_000, 1_000_000, s_vals, check_vals),
            sub("instances", 60_000, 800_000, s_opt(0..=3), check_insts),
        ],
    }
}
