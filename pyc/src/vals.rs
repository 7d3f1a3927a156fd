//! Literals, clauses, CNFs and variable managers against Python lists

use crate::py::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcore::*;

pub fn s_lit() -> BoxedStrategy<i32> {
    (prop_oneof![10 => 1i32..6, 1 => 6i32..200], any::<bool>()).prop_map(|(v, s)| if s { -v } else { v }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(i32),
    Remove(i32),
    RemoveThorough(i32),
    Extend(Vec<i32>),
    Get(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    In(i32),
    Rev,
    Index(i32),
    Unpack,
    Str,
    Eq(Vec<i32>),
    /// elements taken before and after a change
    Iter(u8, Option<Box<Op>>),
    WrongType(u8),
}

fn s_op() -> BoxedStrategy<Op> {
    let idx = || prop_oneof![8 => -8i64..8, 1 => Just(i64::from(i32::MAX)), 1 => Just(i64::from(i32::MIN)), 1 => Just(1i64 << 40)];
    let edit = || {
        prop_oneof![
            3 => s_lit().prop_map(Op::Add),
            2 => s_lit().prop_map(Op::Remove),
            2 => s_lit().prop_map(Op::RemoveThorough),
            2 => proptest::collection::vec(s_lit(), 0..4).prop_map(Op::Extend),
        ]
    };
    prop_oneof![
        6 => edit(),
        3 => idx().prop_map(Op::Get),
        4 => (proptest::option::of(idx()), proptest::option::of(idx()), proptest::option::of(prop_oneof![6 => -4i64..5, 1 => Just(1i64 << 40)])).prop_map(|(a, b, c)| Op::Slice(a, b, c)),
        1 => s_lit().prop_map(Op::In),
        1 => Just(Op::Rev),
        1 => s_lit().prop_map(Op::Index),
        1 => Just(Op::Unpack),
        1 => Just(Op::Str),
        1 => proptest::collection::vec(s_lit(), 0..4).prop_map(Op::Eq),
        2 => (0u8..5, proptest::option::of(edit().prop_map(Box::new))).prop_map(|(k, e)| Op::Iter(k, e)),
        1 => (0u8..4).prop_map(Op::WrongType),
    ]
    .boxed()
}

/// Python's slices
fn slice(n: i64, a: Option<i64>, b: Option<i64>, s: i64) -> Vec<usize> {
    let fix = |x: i64, lo: i64, hi: i64| if x < 0 { (x + n).max(lo) } else { x.min(hi) };
    let (lo, hi) = if s > 0 { (0, n) } else { (-1, n - 1) };
    let mut i = a.map_or(if s > 0 { 0 } else { n - 1 }, |a| fix(a, lo, hi));
    let e = b.map_or(if s > 0 { n } else { -1 }, |b| fix(b, lo, hi));
    let mut v = vec![];
    while if s > 0 { i < e } else { i > e } {
        v.push(i as usize);
        i += s;
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClCase {
    init: Vec<i32>,
    ops: Vec<Op>,
}

fn s_cl(t: Tier) -> BoxedStrategy<ClCase> {
    (proptest::collection::vec(s_lit(), 0..7), proptest::collection::vec(s_op(), 1..t.pick(10, 20))).prop_map(|(init, ops)| ClCase { init, ops }).boxed()
}

fn apply(op: &Op, m: &mut Vec<i32>) -> Value {
    match op {
        Op::Add(x) => {
            m.push(*x);
            Value::Null
        }
        Op::Remove(x) => {
            let i = m.iter().position(|y| y == x);
            if let Some(i) = i {
                m.swap_remove(i);
            }
            json!(i.is_some())
        }
        Op::RemoveThorough(x) => {
            let n = m.len();
            m.retain(|y| y != x);
            json!(n != m.len())
        }
        Op::Extend(xs) => {
            m.extend(xs);
            Value::Null
        }
        _ => unreachable!(),
    }
}

fn emit(op: &Op, p: &mut Prog) -> usize {
    match op {
        Op::Add(x) => p.call(None, "c", "add", vec![l((*x).into())], json!({})),
        Op::Remove(x) => p.call(None, "c", "remove", vec![l((*x).into())], json!({})),
        Op::RemoveThorough(x) => p.call(None, "c", "remove_thorough", vec![], json!({"lit": l((*x).into())})),
        Op::Extend(xs) => p.call(None, "c", "extend", vec![ls(xs)], json!({})),
        _ => unreachable!(),
    }
}

fn check_cl(c: &ClCase, o: &mut Obs) -> CheckResult {
    let mut p = Prog::default();
    p.new(Some("c"), "Clause", vec![ls(&c.init)], json!({}));
    // the order of literals is whatever the clause says; the model follows it (removal may reorder)
    struct Todo {
        at: usize,
        op: Op,
        list: usize,
    }
    let mut todo = vec![];
    let l0 = p.op(None, "list", vec![var("c")]);
    let c_ = || var("c");
    for op in &c.ops {
        let at = match op {
            Op::Get(i) => p.op(None, "get", vec![c_(), json!(i)]),
            Op::Slice(a, b, s) => p.op(None, "get", vec![c_(), json!({"s": [a, b, s]})]),
            Op::In(x) => p.op(None, "in", vec![c_(), l((*x).into())]),
            Op::Rev => p.op(None, "rev", vec![c_()]),
            Op::Index(x) => p.op(None, "index", vec![c_(), l((*x).into())]),
            Op::Unpack => p.op(None, "unpack", vec![c_()]),
            Op::Str => {
                let a = p.op(None, "str", vec![c_()]);
                p.op(None, "repr", vec![c_()]);
                a
            }
            Op::Eq(v) => {
                p.new(Some("d"), "Clause", vec![ls(v)], json!({}));
                let a = p.op(None, "eq", vec![c_(), var("d")]);
                p.op(None, "ne", vec![c_(), var("d")]);
                p.op(None, "eq", vec![c_(), json!(3)]);
                a
            }
            Op::Iter(k, e) => {
                let a = p.op(Some("i"), "iter", vec![c_()]);
                p.op(None, "iteriter", vec![var("i")]);
                for _ in 0..*k {
                    p.op(None, "next", vec![var("i")]);
                }
                if let Some(e) = e {
                    emit(e, &mut p);
                    p.op(None, "next", vec![var("i")]);
                }
                a
            }
            Op::WrongType(k) => match k {
                0 => p.op(None, "get", vec![c_(), json!("x")]),
                1 => p.call(None, "c", "add", vec![json!(3)], json!({})),
                2 => p.call(None, "c", "extend", vec![json!([1, 2])], json!({})),
                _ => p.new(None, "Clause", vec![json!(1)], json!({})),
            },
            e => emit(e, &mut p),
        };
        let list = p.op(None, "list", vec![c_()]);
        p.op(None, "len", vec![c_()]);
        p.call(None, "c", "is_unit", vec![], json!({}));
        p.call(None, "c", "is_binary", vec![], json!({}));
        todo.push(Todo { at, op: op.clone(), list });
    }
    let r = p.run()?;
    let lits = |r: &Res, what: &str| -> Result<Vec<i32>, Fail> { Ok(r.ok(what)?.as_array().ok_or(Fail(format!("{what} is no list")))?.iter().map(|x| x["l"].as_i64().unwrap_or(0) as i32).collect()) };
    let mut m = lits(&r[l0], "list(clause)")?;
    ensure!(m == c.init, "Clause({:?}) has the literals {m:?}", c.init);
    for t in &todo {
        let what = format!("{:?} on {m:?}", t.op);
        let at = &r[t.at];
        let n = m.len() as i64;
        let mut now = m.clone();
        match &t.op {
            Op::Get(i) => {
                if (-n..n).contains(i) {
                    at.is(&l(m[if *i < 0 { n + i } else { *i } as usize].into()), &what)?;
                } else {
                    at.raises(&["IndexError"], &what)?;
                }
            }
            Op::Slice(_, _, Some(0)) => at.raises(&["ValueError"], &what)?,
            Op::Slice(a, b, s) => {
                let v: Vec<i32> = slice(n, *a, *b, s.unwrap_or(1)).into_iter().map(|i| m[i]).collect();
                at.is(&ls(&v), &what)?;
                o.label("slices");
            }
            Op::In(x) => at.is(&json!(m.contains(x)), &what)?,
            Op::Rev => at.is(&ls(&m.iter().rev().copied().collect::<Vec<_>>()), &what)?,
            Op::Index(x) => at.is(&json!(m.iter().enumerate().filter(|y| y.1 == x).map(|y| y.0).collect::<Vec<_>>()), &what)?,
            Op::Unpack => at.is(&ls(&m), &what)?,
            Op::Str => {
                let s = at.ok(&what)?.as_str().unwrap_or("").to_string();
                let nums: Vec<i64> = s.split(|x: char| !x.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                ensure!(nums.len() == m.len(), "{what} gives {s}");
                r[t.at + 1].is(&json!(s), &what)?;
            }
            Op::Eq(v) => {
                at.is(&json!(v == &m), &what)?;
                r[t.at + 1].is(&json!(v != &m), &what)?;
                r[t.at + 2].is(&json!(false), &what)?;
            }
            Op::Iter(k, e) => {
                r[t.at + 1].is(&json!(true), &what)?;
                let mut k = *k as usize;
                for i in 0..k {
                    if i < m.len() {
                        r[t.at + 2 + i].is(&l(m[i].into()), &what)?;
                    } else {
                        r[t.at + 2 + i].raises(&["StopIteration"], &what)?;
                    }
                }
                if let Some(e) = e {
                    let old = now.clone();
                    let v = apply(e, &mut now);
                    r[t.at + 2 + k].is(&v, &what)?;
                    k += 3;
                    let next = &r[t.at + k];
                    if old != now {
                        next.raises(&["RuntimeError"], &what)?;
                        o.label("changed while iterating");
                    }
                }
            }
            Op::WrongType(_) => at.raises(&["TypeError"], &what)?,
            e => {
                let v = apply(e, &mut now);
                at.is(&v, &what)?;
            }
        }
        let got = lits(&r[t.list], "list(clause)")?;
        let (mut a, mut b) = (got.clone(), now.clone());
        a.sort_unstable();
        b.sort_unstable();
        ensure!(a == b, "{what} leaves {got:?} instead of {now:?}");
        if !matches!(&t.op, Op::Remove(_) | Op::Iter(_, Some(_))) {
            ensure!(got == now, "{what} leaves {got:?} instead of {now:?}");
        }
        m = got;
        r[t.list + 1].is(&json!(m.len()), "len")?;
        r[t.list + 2].is(&json!(m.len() == 1), "is_unit")?;
        r[t.list + 3].is(&json!(m.len() == 2), "is_binary")?;
    }
    if todo.len() > 2 {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- literals and variable managers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LitCase {
    a: i64,
    b: i64,
    n_used: Option<u64>,
    /// `None`: a new variable
    vm: Vec<Option<u64>>,
    kw: bool,
}

fn s_lits(_: Tier) -> BoxedStrategy<LitCase> {
    let x = || prop_oneof![8 => -4i64..5, 1 => any::<i64>(), 1 => (-i32::MAX..=i32::MAX).prop_map(i64::from), 1 => Just(i64::from(i32::MAX)), 1 => Just(-i64::from(i32::MAX)), 1 => Just(1i64 << 31)];
    let n = || prop_oneof![8 => 0u64..20, 1 => any::<u64>(), 1 => (1u64 << 31) - 3..(1u64 << 31) + 2, 1 => Just(u64::from(u32::MAX))];
    (x(), x(), proptest::option::of(n()), proptest::collection::vec(proptest::option::of(n()), 0..6), any::<bool>()).prop_map(|(a, b, n_used, vm, kw)| LitCase { a, b, n_used, vm, kw }).boxed()
}

fn check_lits(c: &LitCase, o: &mut Obs) -> CheckResult {
    let mut p = Prog::default();
    p.new(Some("a"), "Lit", vec![json!(c.a)], json!({}));
    p.new(Some("b"), "Lit", vec![], json!({"ipasir": c.b}));
    for op in ["eq", "ne", "lt", "le", "gt", "ge"] {
        p.op(None, op, vec![var("a"), var("b")]);
    }
    p.op(None, "hasheq", vec![var("a"), var("b")]);
    p.op(None, "neg", vec![var("a")]);
    p.call(None, "a", "to_ipasir", vec![], json!({}));
    let s = p.op(None, "str", vec![var("a")]);
    p.op(None, "repr", vec![var("a")]);
    let vm0 = match c.n_used {
        None => p.new(Some("m"), "VarManager", vec![], json!({})),
        Some(n) if c.kw => p.new(Some("m"), "VarManager", vec![], json!({ "n_used": n })),
        Some(n) => p.new(Some("m"), "VarManager", vec![json!(n)], json!({})),
    };
    // variables above the last literal Python can name do not matter
    const LIM: u64 = (1 << 31) - 2;
    let mut used = c.n_used.unwrap_or(0);
    for x in &c.vm {
        used = x.map_or(used + 1, |x| used.max(x));
        if used > LIM && x.is_none() || c.n_used.is_some_and(|x| x > LIM) {
            break;
        }
        match x {
            None => p.call(None, "m", "new_var", vec![], json!({})),
            Some(n) => p.call(None, "m", "increase_used", vec![json!(n)], json!({})),
        };
        p.call(None, "m", "n_used", vec![], json!({}));
        if used > LIM {
            break;
        }
    }
    let r = p.run()?;
    let valid = |x: i64| x != 0 && x.unsigned_abs() <= i32::MAX as u64;
    let key = |x: i64| (x.abs(), x < 0);
    for (i, x) in [c.a, c.b].into_iter().enumerate() {
        if valid(x) {
            r[i].is(&l(x), "Lit")?;
        } else if x == 0 || i32::try_from(x).is_ok() {
            r[i].raises(&["ValueError"], &format!("Lit({x})"))?;
        } else {
            r[i].raises(&["ValueError", "OverflowError"], &format!("Lit({x})"))?;
        }
    }
    let (a, b) = (c.a, c.b);
    if valid(a) && valid(b) {
        let (ka, kb) = (key(a), key(b));
        for (i, w) in [a == b, a != b, ka < kb, ka <= kb, ka > kb, ka >= kb].into_iter().enumerate() {
            r[2 + i].is(&json!(w), &format!("comparison {i} of {a} and {b}"))?;
        }
        if a == b {
            r[8].is(&json!(true), "equality of hashes")?;
        }
        o.nontrivial();
    }
    if valid(a) {
        r[9].is(&l(-a), &format!("negation of {a}"))?;
        r[10].is(&json!(a), &format!("to_ipasir of {a}"))?;
        let t = r[s].ok("str")?.clone();
        r[s + 1].is(&t, "repr")?;
    }
    // numbers of used variables
    let mut used = c.n_used.unwrap_or(0);
    if used > LIM {
        if used > u64::from(u32::MAX) >> 1 {
            r[vm0].raises(&["ValueError", "OverflowError"], &format!("VarManager({used})"))?;
        }
        return Ok(());
    }
    r[vm0].ok("VarManager")?;
    for (i, x) in c.vm.iter().enumerate() {
        let Some(at) = r.get(vm0 + 1 + 2 * i) else {
            return Ok(());
        };
        match x {
            None => {
                if used >= LIM {
                    return Ok(());
                }
                used += 1;
                at.is(&json!(used), "new_var")?;
            }
            Some(n) => {
                if *n > LIM {
                    if *n > u64::from(u32::MAX) >> 1 {
                        at.raises(&["ValueError", "OverflowError"], &format!("increase_used({n})"))?;
                    }
                    return Ok(());
                }
                at.is(&json!(*n > used), &format!("increase_used({n}) with {used}"))?;
                used = used.max(*n);
            }
        }
        r[vm0 + 2 + 2 * i].is(&json!(used), "n_used")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- CNFs

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    Add(Vec<i32>),
    Few(Vec<i32>),
    /// kind, premise, conclusion
    Impl(u8, Vec<i32>, Vec<i32>),
    Get(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Iter(u8, Option<i32>),
    Eq(Vec<Vec<i32>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    init: Option<Vec<Vec<i32>>>,
    ops: Vec<FOp>,
}

fn s_f(t: Tier) -> BoxedStrategy<FCase> {
    let sl = || (1i32..5, any::<bool>()).prop_map(|(v, s)| if s { -v } else { v });
    let cl = move || proptest::collection::vec(sl(), 0..4);
    let idx = || -6i64..6;
    let op = prop_oneof![
        3 => cl().prop_map(FOp::Add),
        3 => proptest::collection::vec(sl(), 1..4).prop_map(FOp::Few),
        8 => (0u8..9, cl(), cl()).prop_map(|(k, a, b)| FOp::Impl(k, a, b)),
        2 => idx().prop_map(FOp::Get),
        2 => (proptest::option::of(idx()), proptest::option::of(idx()), proptest::option::of(-3i64..4)).prop_map(|(a, b, c)| FOp::Slice(a, b, c)),
        2 => (0u8..4, proptest::option::of(sl())).prop_map(|(k, e)| FOp::Iter(k, e)),
        1 => proptest::collection::vec(cl(), 0..2).prop_map(FOp::Eq),
    ];
    (proptest::option::of(proptest::collection::vec(cl(), 0..4)), proptest::collection::vec(op, 1..t.pick(8, 16))).prop_map(|(init, ops)| FCase { init, ops }).boxed()
}

const IMPLS: [(&str, u8, u8); 9] = [
    // name, premise and conclusion: literal 0, clause 1, cube 2
    ("add_lit_impl_lit", 0, 0),
    ("add_lit_impl_clause", 0, 1),
    ("add_lit_impl_cube", 0, 2),
    ("add_clause_impl_lit", 1, 0),
    ("add_cube_impl_lit", 2, 0),
    ("add_clause_impl_clause", 1, 1),
    ("add_clause_impl_cube", 1, 2),
    ("add_cube_impl_clause", 2, 1),
    ("add_cube_impl_cube", 2, 2),
];

fn check_f(c: &FCase, o: &mut Obs) -> CheckResult {
    let mut p = Prog::default();
    let cv = |c: &[i32]| json!({ "c": c });
    match &c.init {
        None => p.new(Some("c"), "Cnf", vec![], json!({})),
        Some(v) => p.new(Some("c"), "Cnf", vec![Value::Array(v.iter().map(|c| cv(c)).collect())], json!({})),
    };
    let l0 = p.op(None, "list", vec![var("c")]);
    let mut at = vec![];
    let single = |v: &[i32]| v.first().copied().unwrap_or(1);
    for op in &c.ops {
        let a = match op {
            FOp::Add(x) => p.call(None, "c", "add_clause", vec![cv(x)], json!({})),
            FOp::Few(x) => p.call(None, "c", ["add_unit", "add_binary", "add_ternary"][x.len() - 1], x.iter().map(|&x| l(x.into())).collect(), json!({})),
            FOp::Impl(k, a, b) => {
                let (name, pa, pb) = IMPLS[*k as usize];
                let f = |k: u8, v: &[i32]| if k == 0 { l(single(v).into()) } else { ls(v) };
                p.call(None, "c", name, vec![f(pa, a), f(pb, b)], json!({}))
            }
            FOp::Get(i) => p.op(None, "get", vec![var("c"), json!(i)]),
            FOp::Slice(a, b, s) => p.op(None, "get", vec![var("c"), json!({"s": [a, b, s]})]),
            FOp::Iter(k, e) => {
                let a = p.op(Some("i"), "iter", vec![var("c")]);
                for _ in 0..*k {
                    p.op(None, "next", vec![var("i")]);
                }
                if let Some(e) = e {
                    p.call(None, "c", "add_unit", vec![l((*e).into())], json!({}));
                    p.op(None, "next", vec![var("i")]);
                }
                a
            }
            FOp::Eq(v) => {
                p.new(Some("d"), "Cnf", vec![Value::Array(v.iter().map(|c| cv(c)).collect())], json!({}));
                let a = p.op(None, "eq", vec![var("c"), var("d")]);
                p.op(None, "ne", vec![var("c"), var("d")]);
                a
            }
        };
        let list = p.op(None, "list", vec![var("c")]);
        p.op(None, "len", vec![var("c")]);
        at.push((a, list));
    }
    let r = p.run()?;
    let cls = |r: &Res, what: &str| -> Result<Vec<Vec<i32>>, Fail> {
        Ok(r.ok(what)?.as_array().ok_or(Fail(format!("{what} is no list")))?.iter().map(|c| c["c"].as_array().map(|c| c.iter().map(|x| x.as_i64().unwrap_or(0) as i32).collect()).unwrap_or_default()).collect())
    };
    let mut m = cls(&r[l0], "list(cnf)")?;
    ensure!(m == c.init.clone().unwrap_or_default(), "Cnf({:?}) has the clauses {m:?}", c.init);
    for (op, (a, list)) in c.ops.iter().zip(at) {
        let what = format!("{op:?} on {m:?}");
        let n = m.len() as i64;
        let mut now = m.clone();
        let mut sem = None;
        match op {
            FOp::Add(x) | FOp::Few(x) => {
                r[a].is(&Value::Null, &what)?;
                now.push(x.clone());
            }
            FOp::Impl(k, x, y) => {
                r[a].is(&Value::Null, &what)?;
                sem = Some((IMPLS[*k as usize], x, y));
            }
            FOp::Get(i) => {
                if (-n..n).contains(i) {
                    r[a].is(&cv(&m[if *i < 0 { n + i } else { *i } as usize]), &what)?;
                } else {
                    r[a].raises(&["IndexError"], &what)?;
                }
            }
            FOp::Slice(_, _, Some(0)) => r[a].raises(&["ValueError"], &what)?,
            FOp::Slice(x, y, s) => {
                let v: Vec<Value> = slice(n, *x, *y, s.unwrap_or(1)).into_iter().map(|i| cv(&m[i])).collect();
                r[a].is(&json!(v), &what)?;
            }
            FOp::Iter(k, e) => {
                let k = *k as usize;
                for i in 0..k {
                    if i < m.len() {
                        r[a + 1 + i].is(&cv(&m[i]), &what)?;
                    } else {
                        r[a + 1 + i].raises(&["StopIteration"], &what)?;
                    }
                }
                if let Some(e) = e {
                    now.push(vec![*e]);
                    r[a + 2 + k].raises(&["RuntimeError"], &what)?;
                }
            }
            FOp::Eq(v) => {
                // the same clauses in another order are not generated often enough to matter
                let same = v == &m;
                r[a].is(&json!(same), &what)?;
                r[a + 1].is(&json!(!same), &what)?;
            }
        }
        let got = cls(&r[list], "list(cnf)")?;
        r[list + 1].is(&json!(got.len()), "len(cnf)")?;
        if let Some(((_, pa, pb), x, y)) = sem {
            ensure!(got.len() >= m.len() && got[..m.len()] == m[..], "{what} changes other clauses: {got:?}");
            let new = &got[m.len()..];
            for bits in 0..16u32 {
                let tv = |l: i32| (bits >> (l.abs() - 1) & 1 == 1) == (l > 0);
                let f = |k: u8, v: &[i32]| match k {
                    0 => tv(single(v)),
                    1 => v.iter().any(|&l| tv(l)),
                    _ => v.iter().all(|&l| tv(l)),
                };
                let want = !f(pa, x) || f(pb, y);
                let is = new.iter().all(|c| c.iter().any(|&l| tv(l)));
                ensure!(want == is, "{what} adds {new:?}");
            }
            o.nontrivial();
        } else {
            ensure!(got == now, "{what} leaves {got:?}");
        }
        m = got;
    }
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![sub("clauses", 40_000, 600_000, s_cl, check_cl), sub("literals", 40_000, 400_000, s_lits, check_lits), sub("cnfs", 40_000, 600_000, s_f, check_f)]
}
