//! C06: totalizer database
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::encodings::card::totalizer::referenced::{Tot, TotCell};
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeId, NodeLike};
use rustsat::encodings::pb::dpw::referenced::{DynamicPolyWatchdog as DpwRef, DynamicPolyWatchdogCell as DpwCell};
use rustsat::encodings::pb::dpw::{build_structure, lit_weight_queue};
use rustsat::encodings::pb::gte::referenced::{Gte, GteCell};
use rustsat::encodings::totdb::{Db, Node, Semantics};
use rustsat::encodings::{card, pb};
use rustsat::instances::Cnf;
use rustsat::types::Lit;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use vcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CSpec {
    node: u8,
    off: u8,
    lim: Option<u8>,
    w: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Build {
    Leaf(i32),
    LitTree(Vec<i32>),
    WLitTree(Vec<(i32, usize)>),
    /// two connections; halve the right one (as the dynamic polynomial watchdog does)
    Internal(CSpec, CSpec, bool),
    Merge(u8, Vec<CSpec>),
    Dummy(CSpec, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Req {
    /// node, value, semantics
    Def(u8, u8, u8),
    Reserve(u8),
    ReserveCon(CSpec),
    Reset(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    n: i32,
    build: Vec<Build>,
    reqs: Vec<Req>,
    gap: u32,
}

// ---------- model ----------

#[derive(Clone, Debug)]
struct MCon {
    id: usize,
    off: usize,
    div: usize,
    mul: usize,
    lim: Option<usize>,
}
impl MCon {
    fn map(&self, v: usize) -> usize {
        if v <= self.off {
            return 0;
        }
        let x = (v - self.off) / self.div;
        self.lim.map_or(x, |l| x.min(l)) * self.mul
    }
    /// values a child value can reach through the connection
    fn passes(&self, v: usize) -> bool {
        v > self.off && (v - self.off).is_multiple_of(self.div) && self.lim.is_none_or(|l| (v - self.off) / self.div <= l)
    }
}
#[derive(Clone, Debug)]
enum MNode {
    Leaf(i32),
    Unit(MCon, MCon),
    General(MCon, MCon),
    Dummy,
}

fn mcon(c: NodeCon) -> MCon {
    // connection limits are not exposed, but they are in the debug output
    let s = format!("{c:?}");
    let s = s.split("len_limit: ").nth(1).unwrap();
    let lim = s.strip_prefix("Some(").map(|s| s.split(')').next().unwrap().parse::<usize>().unwrap());
    MCon { id: c.id.0, off: c.offset(), div: c.divisor(), mul: c.multiplier(), lim }
}

/// Reads the structure of the database; the meaning of connections is the model's own
fn model(db: &Db) -> Result<Vec<MNode>, Fail> {
    db.iter()
        .map(|n| {
            Ok(match n {
                Node::Leaf(l) => MNode::Leaf(ilit(*l)),
                Node::Dummy => MNode::Dummy,
                _ => {
                    let l = n.left().unwrap();
                    let r = n.right().unwrap();
                    let (l, r) = (mcon(l), mcon(r));
                    if matches!(n, Node::Unit(_)) {
                        MNode::Unit(l, r)
                    } else {
                        MNode::General(l, r)
                    }
                }
            })
        })
        .collect()
}

fn value(m: &[MNode], id: usize, a: u64) -> usize {
    match &m[id] {
        MNode::Leaf(l) => usize::from(lit_true(*l, a)),
        MNode::Unit(l, r) | MNode::General(l, r) => l.map(value(m, l.id, a)) + r.map(value(m, r.id, a)),
        MNode::Dummy => 0,
    }
}

/// Outputs that have to be true with "if" semantics
fn forced(m: &[MNode], id: usize, a: u64) -> BTreeSet<usize> {
    match &m[id] {
        MNode::Leaf(l) => {
            if lit_true(*l, a) {
                [1].into()
            } else {
                [].into()
            }
        }
        MNode::Unit(..) => (1..=value(m, id, a)).collect(),
        MNode::General(l, r) => {
            let p = |c: &MCon| -> BTreeSet<usize> { forced(m, c.id, a).into_iter().filter(|&v| c.passes(v)).map(|v| c.map(v)).collect() };
            let (l, r) = (p(l), p(r));
            let mut s: BTreeSet<usize> = l.union(&r).copied().collect();
            for x in &l {
                for y in &r {
                    s.insert(x + y);
                }
            }
            s
        }
        MNode::Dummy => [].into(),
    }
}

/// Output values of the node
fn outputs(m: &[MNode], id: usize) -> BTreeSet<usize> {
    match &m[id] {
        MNode::Leaf(_) => [1].into(),
        MNode::Unit(l, r) => {
            let mx = |c: &MCon| {
                let n = outputs(m, c.id).len();
                let n = n.saturating_sub(c.off) / c.div;
                c.lim.map_or(n, |l| n.min(l))
            };
            (1..=mx(l) + mx(r)).collect()
        }
        MNode::General(l, r) => {
            let p = |c: &MCon| -> BTreeSet<usize> { outputs(m, c.id).into_iter().filter(|&v| c.passes(v)).map(|v| c.map(v)).collect() };
            let (l, r) = (p(l), p(r));
            let mut s: BTreeSet<usize> = l.union(&r).copied().collect();
            for x in &l {
                for y in &r {
                    s.insert(x + y);
                }
            }
            s
        }
        MNode::Dummy => [].into(),
    }
}

fn subtree(m: &[MNode], id: usize, s: &mut BTreeSet<usize>) {
    if s.insert(id) {
        if let MNode::Unit(l, r) | MNode::General(l, r) = &m[id] {
            subtree(m, l.id, s);
            subtree(m, r.id, s);
        }
    }
}
fn plain(m: &[MNode], id: usize) -> bool {
    match &m[id] {
        MNode::Unit(l, r) | MNode::General(l, r) => [l, r].iter().all(|c| c.off == 0 && c.div == 1 && c.lim.is_none() && plain(m, c.id)),
        MNode::Leaf(_) => true,
        MNode::Dummy => false,
    }
}

// ---------- building ----------

fn unitish(db: &Db, id: NodeId) -> bool {
    !matches!(db[id], Node::General(_))
}

/// Turns a connection description into a valid connection to an existing node
fn con(db: &Db, pool: &[NodeId], c: &CSpec, allow_single: bool) -> NodeCon {
    let id = pool[c.node as usize % pool.len()];
    let len = db[id].len();
    let w = c.w.max(1) as usize;
    if unitish(db, id) {
        let off = if len > 1 { c.off as usize % len } else { 0 };
        match c.lim {
            Some(l) if allow_single => {
                let l = (l as usize % (len - off)).max(1);
                if l == 1 && off % 2 == 0 {
                    NodeCon::single(id, off + 1, w)
                } else {
                    NodeCon::limited(id, off, l, w)
                }
            }
            _ => {
                if off > 0 {
                    NodeCon::offset_weighted(id, off, w)
                } else {
                    NodeCon::weighted(id, w)
                }
            }
        }
    } else {
        let off = c.off as usize % db[id].max_val();
        if off > 0 && c.lim.is_some() {
            NodeCon::offset_weighted(id, off, w)
        } else {
            NodeCon::weighted(id, w)
        }
    }
}

/// Halving connections are not available as constructors, they come with the structure of the
/// watchdog encoding; a watchdog over one literal per weight yields nested ones
fn build(c: &Tree, db: &mut Db, obs: &mut Obs) -> Result<Vec<NodeId>, Fail> {
    let mut pool: Vec<NodeId> = vec![];
    for b in &c.build {
        match b {
            Build::Leaf(l) => {
                let id = db.insert(Node::leaf(lit(*l)));
                ensure!(matches!(db[id], Node::Leaf(x) if x == lit(*l)), "inserting leaf {l}: node {id} is something else");
                pool.push(id);
            }
            Build::LitTree(ls) => {
                let r = db.lit_tree(ls.iter().map(|&l| lit(l)));
                ensure!(r.is_some() != ls.is_empty(), "lit_tree of {} literals: {r:?}", ls.len());
                if let Some(id) = r {
                    let m = model(db)?;
                    for a in all_assignments(&(1..=c.n).collect::<Vec<_>>()) {
                        let w = wsum(&ls.iter().map(|&l| (l, 1)).collect::<Vec<_>>(), a) as usize;
                        ensure!(value(&m, id.0, a) == w, "lit_tree {ls:?}: value under {a:b} should be {w}");
                    }
                    ensure!(db[id].n_leaves() == ls.len(), "lit_tree {ls:?}: {} leaves", db[id].n_leaves());
                    pool.push(id);
                }
            }
            Build::WLitTree(ls) => {
                if ls.is_empty() {
                    continue;
                }
                let Some(cn) = db.weighted_lit_tree(&ls.iter().map(|&(l, w)| (lit(l), w)).collect::<Vec<_>>()) else {
                    fail!("no weighted tree");
                };
                let m = model(db)?;
                for a in all_assignments(&(1..=c.n).collect::<Vec<_>>()) {
                    let w = wsum(ls, a) as usize;
                    ensure!(cn.map(value(&m, cn.id.0, a)) == w, "weighted_lit_tree {ls:?}: value under {a:b} should be {w}");
                }
                pool.push(cn.id);
            }
            Build::Internal(l, r, _) => {
                if pool.is_empty() {
                    continue;
                }
                let mut l = con(db, &pool, l, true);
                let mut r = con(db, &pool, r, true);
                if l.multiplier() == r.multiplier() {
                    l = l.reweight(1);
                    r = r.reweight(1);
                }
                if db[l.id].len() * db[r.id].len() > 400 {
                    continue;
                }
                obs.label("internal");
                let node = Node::internal(l, r, db);
                pool.push(db.insert(node));
            }
            Build::Merge(how, cs) => {
                if pool.is_empty() || cs.is_empty() {
                    continue;
                }
                let mut cons: Vec<NodeCon> = cs.iter().map(|s| con(db, &pool, s, false)).collect();
                if cons.iter().map(|c| db[c.id].len()).product::<usize>() > 1000 {
                    continue;
                }
                let want: Vec<MCon> = cons.iter().map(|&c| mcon(c)).collect();
                let (name, got) = match how % 3 {
                    0 => ("merge", db.merge(&mut cons)),
                    1 => ("merge_balanced", db.merge_balanced(&cons)),
                    _ => ("merge_thorough", db.merge_thorough(&mut cons)),
                };
                obs.label(name);
                let Some(got) = got else {
                    fail!("{name}: nothing for {} connections", cs.len());
                };
                let m = model(db)?;
                let g = mcon(got);
                for a in all_assignments(&(1..=c.n).collect::<Vec<_>>()) {
                    let w: usize = want.iter().map(|c| c.map(value(&m, c.id, a))).sum();
                    let v = g.map(value(&m, g.id, a));
                    ensure!(v == w, "{name} of {want:?} yields {g:?}: value under {a:b} is {v} but should be {w}");
                }
                pool.push(got.id);
            }
            Build::Dummy(s, left) => {
                if pool.is_empty() {
                    continue;
                }
                let d = db.insert(Node::Dummy);
                ensure!(db.insert(Node::Dummy) == d, "second dummy node");
                let x = con(db, &pool, s, true).reweight(1);
                if !unitish(db, x.id) {
                    continue;
                }
                obs.label("dummy");
                let node = if *left { Node::internal(NodeCon::full(d), x, db) } else { Node::internal(x, NodeCon::full(d), db) };
                pool.push(db.insert(node));
            }
        }
    }
    Ok(pool)
}

fn has_dummy(m: &[MNode], id: usize) -> bool {
    let mut s = BTreeSet::new();
    subtree(m, id, &mut s);
    s.iter().any(|&i| matches!(m[i], MNode::Dummy))
}

fn tree(c: &Tree, obs: &mut Obs) -> CheckResult {
    let mut db = Db::default();
    let pool = build(c, &mut db, obs)?;
    if pool.is_empty() {
        return Ok(());
    }
    let m = model(&db)?;
    // structure
    for id in 0..db.len() {
        let nid = NodeId(id);
        let want = outputs(&m, id);
        let got: Vec<usize> = db[nid].vals(..).collect();
        ensure!(got.iter().copied().eq(want.iter().copied()), "node {id}: values {got:?} should be {want:?}\n{m:?}");
        ensure!(db[nid].len() == want.len(), "node {id}: length {} with values {want:?}", db[nid].len());
        ensure!(db[nid].max_val() == want.last().copied().unwrap_or(0), "node {id}: maximum {} with values {want:?}", db[nid].max_val());
        let mx = want.last().copied().unwrap_or(0);
        for lo in 0..=mx.min(6) + 1 {
            for hi in lo..=(lo + 4) {
                let w: Vec<usize> = want.iter().copied().filter(|v| (lo..hi).contains(v)).collect();
                ensure!(db[nid].vals(lo..hi).eq(w.iter().copied()), "node {id}: values in {lo}..{hi} should be {w:?}");
                let w: Vec<usize> = want.iter().copied().filter(|v| (lo..=hi).contains(v)).collect();
                ensure!(db[nid].vals(lo..=hi).eq(w.iter().copied()), "node {id}: values in {lo}..={hi} should be {w:?}");
            }
            let w: Vec<usize> = want.iter().copied().filter(|v| *v >= lo).collect();
            ensure!(db[nid].vals(lo..).eq(w.iter().copied()), "node {id}: values in {lo}.. should be {w:?}");
        }
        if plain(&m, id) {
            let ls: Vec<(i32, usize)> = db.leaf_iter(nid).lits().map(|(l, w)| (ilit(l), w)).collect();
            for a in all_assignments(&(1..=c.n).collect::<Vec<_>>()) {
                let w = wsum(&ls, a) as usize;
                ensure!(value(&m, id, a) == w, "node {id}: weighted leaves {ls:?} disagree with the value {} under {a:b}", value(&m, id, a));
            }
            ensure!(db[nid].n_leaves() == ls.len(), "node {id}: {} leaves instead of {}", db[nid].n_leaves(), ls.len());
        }
    }
    let leaves: Vec<i32> = vars_of(m.iter().filter_map(|n| if let MNode::Leaf(l) = n { Some(*l) } else { None }));
    let mut vm = GapVm::new(c.n as u32, c.gap);
    let mut cls: Vec<Vec<i32>> = vec![];
    let mut last_reset = [0usize; 2];
    // node -> value -> (literal, if defined, only if defined)
    let mut defs: std::collections::BTreeMap<(usize, usize), (i32, [bool; 2])> = Default::default();
    let mut reserved: BTreeSet<(usize, usize)> = BTreeSet::new();
    for r in &c.reqs {
        match r {
            Req::Def(nd, val, sem) => {
                let id = pool[*nd as usize % pool.len()];
                let unit = unitish(&db, id);
                let sem = if unit { sem % 4 } else { 3 };
                let outs: Vec<usize> = outputs(&m, id.0).into_iter().collect();
                let mut cnf = Cnf::new();
                let given_before = vm.given.len();
                if outs.is_empty() {
                    continue;
                }
                let val = if unit { outs[*val as usize % outs.len()] } else { 1 + *val as usize % db[id].max_val() };
                let (l, s): (Option<Lit>, [bool; 2]) = if sem == 3 {
                    let l = db.define_weighted(id, val, &mut cnf, &mut vm).unwrap();
                    ensure!(l.is_some() == outs.contains(&val), "define_weighted: node {id}, value {val} with outputs {outs:?}: {l:?}");
                    (l, [true, false])
                } else {
                    let (s, f) = [(Semantics::If, [true, false]), (Semantics::OnlyIf, [false, true]), (Semantics::IfAndOnlyIf, [true, true])][sem as usize];
                    (Some(db.define_unweighted(id, val - 1, s, &mut cnf, &mut vm).unwrap()), f)
                };
                cls.extend(icnf(&cnf));
                let mut sub = BTreeSet::new();
                subtree(&m, id.0, &mut sub);
                if reserved.contains(&(id.0, val)) {
                    ensure!(vm.given.len() == given_before, "node {id} value {val}: new variables although all were reserved");
                }
                let Some(l) = l else { continue };
                let l = ilit(l);
                let e = defs.entry((id.0, val)).or_insert((l, [false; 2]));
                ensure!(e.0 == l, "node {id} value {val}: output literal changed from {} to {l}", e.0);
                e.1[0] |= s[0];
                e.1[1] |= s[1];
                obs.count("definitions", 1);
                // a second request does not emit anything
                let mut again = Cnf::new();
                let g = vm.given.len();
                let l2 = if sem == 3 {
                    db.define_weighted(id, val, &mut again, &mut vm).unwrap().unwrap()
                } else {
                    db.define_unweighted(id, val - 1, [Semantics::If, Semantics::OnlyIf, Semantics::IfAndOnlyIf][sem as usize], &mut again, &mut vm).unwrap()
                };
                ensure!(again.is_empty() && ilit(l2) == l && vm.given.len() == g, "node {id} value {val}: requesting the same definition again emits {again:?} / {l2}");
            }
            Req::Reserve(nd) => {
                let id = pool[*nd as usize % pool.len()];
                if has_dummy(&m, id.0) {
                    continue;
                }
                db.reserve_vars(NodeCon::full(id), &mut vm);
                reserved.extend(outputs(&m, id.0).into_iter().map(|v| (id.0, v)));
            }
            Req::ReserveCon(s) => {
                let cn = con(&db, &pool, s, true);
                if has_dummy(&m, cn.id.0) {
                    continue;
                }
                db.reserve_vars(cn, &mut vm);
                let mc = mcon(cn);
                reserved.extend(outputs(&m, cn.id.0).into_iter().filter(|&v| mc.passes(v)).map(|v| (cn.id.0, v)));
            }
            Req::Reset(sem) => {
                let (s, f) = [(Semantics::If, [true, false]), (Semantics::OnlyIf, [false, true]), (Semantics::IfAndOnlyIf, [true, true])][*sem as usize % 3];
                db.reset_encoded(s);
                for k in 0..2 {
                    if f[k] {
                        last_reset[k] = cls.len();
                        for e in defs.values_mut() {
                            e.1[k] = false;
                        }
                    }
                }
                obs.label("reset");
            }
        }
    }
    if let Err(e) = only_known_vars(&cls, &leaves, &vm.given) {
        fail!("{e}");
    }
    ensure!(vm.given.iter().collect::<BTreeSet<_>>().len() == vm.given.len(), "variables handed out twice");
    // each defined output is forced as demanded, never too much
    let mut f_all = Form::new(&cls);
    let mut f = [Form::new(&cls[last_reset[0]..]), Form::new(&cls[last_reset[1]..])];
    let mut deep = false;
    for a in all_assignments(&leaves) {
        let asg = assumps(&leaves, a);
        ensure!(f_all.sat(&asg, &[]), "inputs {asg:?} are excluded by the definitions");
        for (&(id, val), &(l, s)) in &defs {
            let v = value(&m, id, a);
            let fo = forced(&m, id, a);
            if s[0] {
                let forced_t = !f[0].sat(&asg, &[lit(-l)]);
                if fo.contains(&val) {
                    ensure!(forced_t, "inputs {asg:?}: output {val} (literal {l}) of node {id} with value {v} is not forced\n{m:?}");
                    deep |= !matches!(m[id], MNode::Leaf(_));
                }
            }
            if s[1] {
                let forced_f = !f[1].sat(&asg, &[lit(l)]);
                if v < val {
                    ensure!(forced_f, "inputs {asg:?}: output {val} (literal {l}) of node {id} with value {v} is not forced to false\n{m:?}");
                    deep |= !matches!(m[id], MNode::Leaf(_));
                }
            }
            // never in the wrong direction
            if v < val {
                ensure!(f_all.sat(&asg, &[lit(-l)]), "inputs {asg:?}: output {val} (literal {l}) of node {id} with value {v} cannot be false\n{m:?}");
            } else {
                ensure!(f_all.sat(&asg, &[lit(l)]), "inputs {asg:?}: output {val} (literal {l}) of node {id} with value {v} cannot be true\n{m:?}");
            }
        }
        // strict extension
        let mx = vm.next.max(c.n as u32) as usize;
        let mut vals = vec![0i8; mx];
        for &l in &asg {
            vals[l.unsigned_abs() as usize - 1] = if l > 0 { 1 } else { -1 };
        }
        let assign = assignment(&vals);
        let mut full = vals.clone();
        let mut skip = false;
        for &id in &pool {
            if has_dummy(&m, id.0) {
                skip = true;
                continue;
            }
            let v = db.value(id, &assign);
            ensure!(v == value(&m, id.0, a), "value of node {id} under {asg:?} is {} but {v} is reported\n{m:?}", value(&m, id.0, a));
            for l in db.strictly_extend_assignment(id, &assign) {
                let l = ilit(l);
                let slot = &mut full[l.unsigned_abs() as usize - 1];
                let x = if l > 0 { 1 } else { -1 };
                ensure!(*slot == 0 || *slot == x, "inputs {asg:?}: extending assigns variable {} both ways", l.abs());
                *slot = x;
            }
        }
        if !skip {
            for c in &cls {
                ensure!(c.iter().any(|l| full[l.unsigned_abs() as usize - 1] == if *l > 0 { 1 } else { -1 }), "inputs {asg:?}: strictly extended assignment {full:?} falsifies {c:?}\n{m:?}");
            }
            for (&(id, val), &(l, _)) in &defs {
                let t = full[l.unsigned_abs() as usize - 1] == if l > 0 { 1 } else { -1 };
                ensure!(t == (value(&m, id, a) >= val), "inputs {asg:?}: output {val} of node {id} wrongly extended");
            }
        }
    }
    if deep {
        obs.nontrivial();
    }
    Ok(())
}

fn s_wlits(n: i32) -> BoxedStrategy<Vec<(i32, usize)>> {
    (s_lits_distinct(n, 1, n as usize), vec(1usize..6, n as usize), any::<bool>())
        .prop_map(|(ls, ws, sort)| {
            let mut v: Vec<(i32, usize)> = ls.into_iter().zip(ws).collect();
            if sort {
                v.sort_by_key(|x| x.1);
            }
            v
        })
        .boxed()
}
fn s_cspec() -> BoxedStrategy<CSpec> {
    (any::<u8>(), prop_oneof![2 => Just(0u8), 1 => 0u8..6], prop::option::weighted(0.3, 0u8..6), prop_oneof![2 => Just(1u8), 1 => 1u8..5])
        .prop_map(|(node, off, lim, w)| CSpec { node, off, lim, w })
        .boxed()
}
fn s_build(n: i32) -> BoxedStrategy<Build> {
    prop_oneof![
        2 => s_lit(n).prop_map(Build::Leaf),
        3 => s_lits_distinct(n, 0, n as usize).prop_map(Build::LitTree),
        2 => s_wlits(n).prop_map(Build::WLitTree),
        4 => (s_cspec(), s_cspec(), any::<bool>()).prop_map(|(a, b, h)| Build::Internal(a, b, h)),
        3 => (any::<u8>(), vec(s_cspec(), 1..5)).prop_map(|(h, c)| Build::Merge(h, c)),
        1 => (s_cspec(), any::<bool>()).prop_map(|(c, l)| Build::Dummy(c, l)),
    ]
    .boxed()
}
fn s_tree(t: Tier) -> BoxedStrategy<Tree> {
    (2..=t.pick(4, 6))
        .prop_flat_map(move |n| {
            (
                Just(n),
                (s_lits_distinct(n, 2, n as usize).prop_map(Build::LitTree), vec(s_build(n), 0..t.pick(5, 7))),
                vec(prop_oneof![8 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Req::Def(a, b, c)), 1 => any::<u8>().prop_map(Req::Reserve), 1 => s_cspec().prop_map(Req::ReserveCon), 1 => any::<u8>().prop_map(Req::Reset)], 1..t.pick(7, 10)),
                0u32..3,
            )
        })
        .prop_map(|(n, (b0, bs), reqs, gap)| {
            let mut build = vec![b0];
            build.extend(bs);
            Tree { n, build, reqs, gap }
        })
        .boxed()
}

// ---------- draining ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Drain {
    tree: Tree,
    from: u8,
    len: u8,
    dummy: bool,
    lits: Vec<i32>,
}

fn drain(c: &Drain, obs: &mut Obs) -> CheckResult {
    let mut db = Db::default();
    let pool = build(&c.tree, &mut db, obs)?;
    if pool.is_empty() {
        return Ok(());
    }
    let mut vm = GapVm::new(c.tree.n as u32, 0);
    let mut cnf = Cnf::new();
    for r in &c.tree.reqs {
        if let Req::Def(nd, val, _) = r {
            let id = pool[*nd as usize % pool.len()];
            if db[id].max_val() > 0 {
                let _ = db.define_weighted(id, 1 + *val as usize % db[id].max_val(), &mut cnf, &mut vm).unwrap();
            }
        }
    }
    if c.dummy {
        db.insert(Node::Dummy);
    }
    let m = model(&db)?;
    let from = c.from as usize % db.len();
    let to = from + c.len as usize % (db.len() - from + 1);
    let refs = (to..m.len()).any(|i| matches!(&m[i], MNode::Unit(l, r) | MNode::General(l, r) if (from..to).contains(&l.id) || (from..to).contains(&r.id)));
    let before: Vec<Node> = db.iter().cloned().collect();
    let res: Result<Vec<Node>, _> = db.drain(NodeId(from)..NodeId(to)).map(|d| d.collect());
    match res {
        Err(e) => {
            ensure!(refs, "draining {from}..{to} is refused ({e}) although nothing refers to the range");
            ensure!(e.referencing.0 >= to && (from..to).contains(&e.referenced.0), "draining {from}..{to}: wrong error {e}");
            ensure!(db.iter().eq(before.iter()), "draining {from}..{to} is refused but changed the database");
            obs.label("refused");
        }
        Ok(gone) => {
            ensure!(!refs, "draining {from}..{to} removes nodes that are still referred to");
            ensure!(gone.iter().eq(before[from..to].iter()), "draining {from}..{to} returns other nodes");
            ensure!(db.len() == before.len() - (to - from), "draining {from}..{to} leaves {} of {} nodes", db.len(), before.len());
            if to > from && to < before.len() {
                obs.nontrivial();
            }
            let m2 = model(&db)?;
            let tr = |i: usize| if i >= to { i - (to - from) } else { i };
            for i in (0..from).chain(to..before.len()) {
                for a in all_assignments(&(1..=c.tree.n).collect::<Vec<_>>()) {
                    ensure!(value(&m, i, a) == value(&m2, tr(i), a), "draining {from}..{to} changes the value of node {i}");
                }
            }
            obs.label("drained");
        }
    }
    // leaves and the dummy can still be found, and new ones are inserted correctly
    for &l in &c.lits {
        let n = db.len();
        let there = db.iter().position(|x| matches!(x, Node::Leaf(y) if ilit(*y) == l));
        let id = db.insert(Node::leaf(lit(l)));
        ensure!(id.0 == there.unwrap_or(n), "after draining {from}..{to}: inserting leaf {l} yields {id} instead of {}", there.unwrap_or(n));
        ensure!(matches!(db[id], Node::Leaf(x) if ilit(x) == l), "leaf {l} is {:?}", db[id]);
    }
    let there = db.iter().position(|x| matches!(x, Node::Dummy));
    let n = db.len();
    let id = db.insert(Node::Dummy);
    ensure!(id.0 == there.unwrap_or(n) && matches!(db[id], Node::Dummy), "after draining {from}..{to}: the dummy node is {id} instead of {}", there.unwrap_or(n));
    // everything left can still be encoded
    let m = model(&db)?;
    for i in 0..db.len() {
        let Some(&v) = outputs(&m, i).iter().next_back() else { continue };
        let l = db.define_weighted(NodeId(i), v, &mut cnf, &mut vm).unwrap();
        ensure!(l.is_some(), "node {i} cannot be encoded after draining");
    }
    Ok(())
}

// ---------- encodings referring to a database ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefCase {
    n: i32,
    kind: u8,
    lits: Vec<Vec<(i32, usize)>>,
    /// root, operation, bounds
    ops: Vec<(u8, u8, usize, usize)>,
    cell: bool,
    reserve: bool,
}

fn check_ub(f: &mut Form, vars: &[i32], ls: &[(i32, usize)], ub: usize, assum: &[Lit], what: &str) -> Result<(), Fail> {
    for a in all_assignments(vars) {
        let w = wsum(ls, a) <= ub as u128;
        let got = f.sat(&assumps(vars, a), assum);
        ensure!(got == w, "{what}: upper bound {ub} over {ls:?}: inputs {:?} should be {}", assumps(vars, a), if w { "allowed" } else { "excluded" });
    }
    Ok(())
}
fn check_lb(f: &mut Form, vars: &[i32], ls: &[(i32, usize)], lb: usize, assum: &[Lit], what: &str) -> Result<(), Fail> {
    for a in all_assignments(vars) {
        let w = wsum(ls, a) >= lb as u128;
        let got = f.sat(&assumps(vars, a), assum);
        ensure!(got == w, "{what}: lower bound {lb} over {ls:?}: inputs {:?} should be {}", assumps(vars, a), if w { "allowed" } else { "excluded" });
    }
    Ok(())
}

fn refenc(c: &RefCase, obs: &mut Obs) -> CheckResult {
    let vars: Vec<i32> = (1..=c.n).collect();
    let mut vm = GapVm::new(c.n as u32, 0);
    let mut cnf = Cnf::new();
    let mut db = Db::default();
    let mut must: BTreeSet<(usize, usize, bool)> = BTreeSet::new();
    match c.kind % 3 {
        0 => {
            use card::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental, Encode, EncodeIncremental};
            let sets: Vec<Vec<(i32, usize)>> = c.lits.iter().map(|s| s.iter().map(|&(l, _)| (l, 1)).collect()).collect();
            let roots: Vec<NodeId> = sets.iter().map(|s| db.lit_tree(s.iter().map(|x| lit(x.0))).unwrap()).collect();
            fn drive<T: BoundBothIncremental + Encode>(mut t: T, c: &RefCase, op: u8, lo: usize, hi: usize, cnf: &mut Cnf, vm: &mut GapVm, n: usize) -> Result<(), Fail> {
                ensure!(t.n_lits() == n, "number of literals {} instead of {n}", t.n_lits());
                let g = if c.reserve {
                    t.reserve(vm);
                    vm.given.len()
                } else {
                    usize::MAX
                };
                match op % 6 {
                    0 => t.encode_ub(lo..=hi, cnf, vm).unwrap(),
                    1 => t.encode_ub_change(lo..=hi, cnf, vm).unwrap(),
                    2 => t.encode_lb(lo..=hi, cnf, vm).unwrap(),
                    3 => t.encode_lb_change(lo..=hi, cnf, vm).unwrap(),
                    4 => t.encode_both(lo..=hi, cnf, vm).unwrap(),
                    _ => t.encode_both_change(lo..=hi, cnf, vm).unwrap(),
                }
                ensure!(g == usize::MAX || vm.given.len() == g, "variables needed after reserving");
                Ok(())
            }
            for &(r, op, a, b) in &c.ops {
                let r = r as usize % roots.len();
                let n = sets[r].len();
                let (lo, hi) = (a.min(b) % (n + 2), a.max(b) % (n + 2));
                if lo > hi {
                    continue;
                }
                if c.cell {
                    let cell = RefCell::new(&mut db);
                    drive(TotCell::new(roots[r], &cell), c, op, lo, hi, &mut cnf, &mut vm, n)?;
                } else {
                    drive(Tot::new(roots[r], &mut db), c, op, lo, hi, &mut cnf, &mut vm, n)?;
                }
                // encoding from scratch forgets about the whole database
                match op % 6 {
                    0 => must.retain(|x| !x.2),
                    2 => must.retain(|x| x.2),
                    4 => must.clear(),
                    _ => (),
                }
                for b in lo..=hi {
                    if matches!(op % 6, 0 | 1 | 4 | 5) {
                        must.insert((r, b, true));
                    }
                    if matches!(op % 6, 2 | 3 | 4 | 5) {
                        must.insert((r, b, false));
                    }
                }
            }
            let mut f = Form::new(&icnf(&cnf));
            for (r, s) in sets.iter().enumerate() {
                for b in 0..=s.len() + 1 {
                    let (ub, lb) = if c.cell {
                        let cell = RefCell::new(&mut db);
                        let t = TotCell::new(roots[r], &cell);
                        (t.enforce_ub(b), t.enforce_lb(b))
                    } else {
                        let t = Tot::new(roots[r], &mut db);
                        (t.enforce_ub(b), t.enforce_lb(b))
                    };
                    match ub {
                        Ok(a) => {
                            check_ub(&mut f, &vars, s, b, &a, "totalizer")?;
                            if b > 0 && b < s.len() {
                                obs.nontrivial();
                            }
                        }
                        Err(e) => ensure!(!must.contains(&(r, b, true)), "totalizer: upper bound {b} over {s:?} was encoded, but {e}"),
                    }
                    match lb {
                        Ok(a) => check_lb(&mut f, &vars, s, b, &a, "totalizer")?,
                        Err(rustsat::encodings::EnforceError::Unsat) => ensure!(b > s.len(), "totalizer: lower bound {b} over {} literals is not unsatisfiable", s.len()),
                        Err(e) => ensure!(!must.contains(&(r, b, false)), "totalizer: lower bound {b} over {s:?} was encoded, but {e}"),
                    }
                }
            }
            ensure!(f.sat(&[], &[]), "the definitions alone are unsatisfiable");
        }
        k => {
            use pb::{BoundUpper, BoundUpperIncremental, Encode, EncodeIncremental};
            let gte = k == 1;
            struct R {
                con: Option<(NodeCon, usize)>,
                st: Option<pb::dpw::Structure>,
            }
            let roots: Vec<R> = c
                .lits
                .iter()
                .map(|s| {
                    if gte {
                        let con = db.weighted_lit_tree(&s.iter().map(|&(l, w)| (lit(l), w)).collect::<Vec<_>>()).unwrap();
                        R { con: Some((con, s.iter().map(|x| x.1).max().unwrap())), st: None }
                    } else {
                        let mut q = lit_weight_queue(s.iter().map(|&(l, w)| (lit(l), w)), &mut db);
                        R { con: None, st: Some(build_structure(&mut q, 1, true, &mut db, &mut vm)) }
                    }
                })
                .collect();
            fn drive<T: BoundUpperIncremental + Encode>(mut t: T, c: &RefCase, op: u8, lo: usize, hi: usize, cnf: &mut Cnf, vm: &mut GapVm, total: usize) -> Result<(), Fail> {
                ensure!(t.weight_sum() >= total, "weight sum {} below {total}", t.weight_sum());
                let g = if c.reserve {
                    t.reserve(vm);
                    vm.given.len()
                } else {
                    usize::MAX
                };
                match op % 2 {
                    0 => t.encode_ub(lo..=hi, cnf, vm).unwrap(),
                    _ => t.encode_ub_change(lo..=hi, cnf, vm).unwrap(),
                }
                ensure!(g == usize::MAX || vm.given.len() == g, "variables needed after reserving");
                Ok(())
            }
            for &(r, op, a, b) in &c.ops {
                let r = r as usize % roots.len();
                let total: usize = c.lits[r].iter().map(|x| x.1).sum();
                let (lo, hi) = (a.min(b) % (total + 2), a.max(b) % (total + 2));
                if lo > hi {
                    continue;
                }
                let x = &roots[r];
                if gte {
                    let (con, mw) = x.con.unwrap();
                    if c.cell {
                        let cell = RefCell::new(&mut db);
                        let t = GteCell::new(con, mw, &cell);
                        ensure!(t.weight_sum() == total, "weight sum {} instead of {total}", t.weight_sum());
                        drive(t, c, op, lo, hi, &mut cnf, &mut vm, total)?;
                    } else {
                        drive(Gte::new(con, mw, &mut db), c, op, lo, hi, &mut cnf, &mut vm, total)?;
                    }
                } else {
                    let st = x.st.as_ref().unwrap();
                    if c.cell {
                        let cell = RefCell::new(&mut db);
                        drive(DpwCell::new(st, &cell), c, op, lo, hi, &mut cnf, &mut vm, total)?;
                    } else {
                        drive(DpwRef::new(st, &mut db), c, op, lo, hi, &mut cnf, &mut vm, total)?;
                    }
                }
                if op % 2 == 0 {
                    must.clear();
                }
                for b in lo..=hi {
                    must.insert((r, b, true));
                }
            }
            let name = if gte { "generalized totalizer" } else { "dynamic polynomial watchdog" };
            let mut f = Form::new(&icnf(&cnf));
            for (r, s) in c.lits.iter().enumerate() {
                let total: usize = s.iter().map(|x| x.1).sum();
                let x = &roots[r];
                for b in 0..=total + 1 {
                    let (ub, hi, lo) = if gte {
                        let (con, mw) = x.con.unwrap();
                        if c.cell {
                            let cell = RefCell::new(&mut db);
                            let t = GteCell::new(con, mw, &cell);
                            (t.enforce_ub(b), t.next_higher(b), if b > 0 { t.next_lower(b) } else { 0 })
                        } else {
                            let t = Gte::new(con, mw, &mut db);
                            (t.enforce_ub(b), t.next_higher(b), if b > 0 { t.next_lower(b) } else { 0 })
                        }
                    } else {
                        let st = x.st.as_ref().unwrap();
                        if c.cell {
                            let cell = RefCell::new(&mut db);
                            let t = DpwCell::new(st, &cell);
                            ensure!(t.coarse_ub(b) <= b, "coarse bound {} above {b}", t.coarse_ub(b));
                            (t.enforce_ub(b), t.next_higher(b), if b > 0 { t.next_lower(b) } else { 0 })
                        } else {
                            let t = DpwRef::new(st, &mut db);
                            ensure!(t.coarse_ub(b) <= b, "coarse bound {} above {b}", t.coarse_ub(b));
                            (t.enforce_ub(b), t.next_higher(b), if b > 0 { t.next_lower(b) } else { 0 })
                        }
                    };
                    let vals: BTreeSet<u128> = all_assignments(&vars).map(|a| wsum(s, a)).collect();
                    ensure!(hi > b && vals.iter().all(|&v| v <= b as u128 || v >= hi as u128), "{name} over {s:?}: next value above {b} is {hi}");
                    if b > 0 {
                        ensure!(lo < b && vals.iter().all(|&v| v >= b as u128 || v <= lo as u128), "{name} over {s:?}: next value below {b} is {lo}");
                    }
                    match ub {
                        Ok(a) => {
                            check_ub(&mut f, &vars, s, b, &a, name)?;
                            if b > 0 && b < total {
                                obs.nontrivial();
                            }
                        }
                        Err(e) => ensure!(!must.contains(&(r, b, true)), "{name}: upper bound {b} over {s:?} was encoded, but {e}"),
                    }
                }
            }
            ensure!(f.sat(&[], &[]), "the definitions alone are unsatisfiable");
        }
    }
    obs.label(["card", "gte", "dpw"][c.kind as usize % 3]);
    Ok(())
}

fn s_ref(t: Tier) -> BoxedStrategy<RefCase> {
    (1..=t.pick(4, 6))
        .prop_flat_map(move |n| (Just(n), 0u8..3, vec(s_wlits(n), 1..3), vec((any::<u8>(), any::<u8>(), 0usize..20, 0usize..20), 0..t.pick(4, 6)), any::<bool>(), any::<bool>()))
        .prop_map(|(n, kind, lits, ops, cell, reserve)| RefCase { n, kind, lits, ops, cell, reserve })
        .boxed()
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "tree: an output of an internal node is forced by its definition under some input; drain: a non-empty range in front of other nodes is removed; refenc: a non-trivial upper bound was enforced",
        assumptions: vec!["only unit-weight trees are given offset and halving connections with a length limit (documented restriction of NodeCon)", "watchdog structures are built at full precision"],
        subs: vec![
            sub("tree", 60_000, 1_500_000, s_tree, tree),
            sub("drain", 30_000, 600_000, |t| (s_tree(t), any::<u8>(), any::<u8>(), any::<bool>()).prop_flat_map(|(tree, from, len, dummy)| { let n = tree.n; (Just(tree), Just(from), Just(len), Just(dummy), vec(s_lit(n), 0..4)) }).prop_map(|(tree, from, len, dummy, lits)| Drain { tree, from, len, dummy, lits }).boxed(), drain),
            sub("refenc", 60_000, 1_500_000, s_ref, refenc),
        ],
    }
}
