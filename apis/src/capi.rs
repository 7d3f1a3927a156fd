//! C25: the C interface, called as a C program would
use crate::c_enc::*;
use crate::common::*;
use crate::enc::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::encodings::pb::{self, BoundUpper, BoundUpperIncremental, DynamicPolyWatchdog, EncodeIncremental};
use rustsat::instances::{Cnf, ManageVars};
use rustsat::types::Lit;
use rustsat_capi::encodings::{am1::*, card::*, dpw::*, pb::*, *};
use serde::{Deserialize, Serialize};
use std::ffi::{c_int, c_void};
use std::ops::Bound;
use vcore::*;

extern "C" fn collect(l: c_int, data: *mut c_void) {
    unsafe { (*data.cast::<Vec<i32>>()).push(l) }
}
fn data(v: &mut Vec<i32>) -> *mut c_void {
    std::ptr::from_mut(v).cast()
}
fn split(v: &[i32]) -> Vec<Vec<i32>> {
    assert!(v.is_empty() || v.last() == Some(&0), "the last clause is not terminated");
    let mut r: Vec<Vec<i32>> = v.split(|&l| l == 0).map(<[i32]>::to_vec).collect();
    r.pop();
    r
}
fn code(e: &MaybeError) -> &'static str {
    match e {
        MaybeError::Ok => "ok",
        MaybeError::NotEncoded => "not-encoded",
        MaybeError::Unsat => "unsat",
        MaybeError::InvalidState => "invalid-state",
        MaybeError::InvalidLiteral => "invalid-literal",
        MaybeError::PrecisionNotPow2 => "not-pow2",
        MaybeError::PrecisionDecreased => "decreased",
    }
}
const INVALID: i32 = 0;

// ---------------------------------------------------------------- histories of the encodings

type Encode<T> = unsafe extern "C" fn(*mut T, usize, usize, &mut u32, CClauseCollector, *mut c_void);
type EnforceMany<T> = unsafe extern "C" fn(*mut T, usize, CAssumpCollector, *mut c_void) -> MaybeError;
type EnforceOne<T> = unsafe extern "C" fn(*mut T, usize, &mut c_int) -> MaybeError;
enum Enforce<T> {
    None,
    One(EnforceOne<T>),
    Many(EnforceMany<T>),
}
enum Add<T> {
    Card(unsafe extern "C" fn(*mut T, c_int) -> MaybeError),
    Pb(unsafe extern "C" fn(*mut T, c_int, usize) -> MaybeError),
}
struct Fns<T> {
    drop: unsafe extern "C" fn(*mut T),
    reserve: unsafe extern "C" fn(*mut T, &mut u32),
    add: Add<T>,
    encode_ub: Encode<T>,
    encode_lb: Option<Encode<T>>,
    ub: Enforce<T>,
    lb: Enforce<T>,
}
struct CEnc<T> {
    p: *mut T,
    f: Fns<T>,
    total: usize,
}
impl<T> Drop for CEnc<T> {
    fn drop(&mut self) {
        unsafe { (self.f.drop)(self.p) }
    }
}
impl<T> CEnc<T> {
    fn new(p: *mut T, f: Fns<T>, init: &[(Lit, usize)]) -> Self {
        let mut s = CEnc { p, f, total: 0 };
        s.extend(init);
        s
    }
    fn add(&self, l: i32, w: usize) -> &'static str {
        code(&match self.f.add {
            Add::Card(f) => unsafe { f(self.p, l) },
            Add::Pb(f) => unsafe { f(self.p, l, w) },
        })
    }
}
/// Advances the variable manager to what the C function used
fn with_vars(v: &mut dyn ManageVars, f: impl FnOnce(&mut u32)) {
    let before = v.n_used();
    let mut n = before;
    f(&mut n);
    assert!(n >= before, "the number of variables decreased from {before} to {n}");
    for _ in before..n {
        v.new_var();
    }
    assert!(v.n_used() == n, "harness: variables have gaps");
}
impl<T> DynEnc for CEnc<T> {
    fn extend(&mut self, ls: &[(Lit, usize)]) {
        for &(l, w) in ls {
            // invalid literals are refused and have no effect
            assert_eq!(self.add(INVALID, w), "invalid-literal");
            assert_eq!(self.add(ilit(l), w), "ok");
            self.total += w;
        }
    }
    fn encode(&mut self, k: K, _change: bool, r: Range, c: &mut Cnf, v: &mut dyn ManageVars) -> bool {
        let lo = match r.0 {
            Bound::Unbounded => 0,
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
        };
        let hi = match r.1 {
            Bound::Unbounded => usize::MAX,
            Bound::Included(x) => x,
            Bound::Excluded(0) => return true,
            Bound::Excluded(x) => x - 1,
        };
        if lo > hi {
            return true;
        }
        let f = match k {
            K::Ub => self.f.encode_ub,
            K::Lb => self.f.encode_lb.unwrap(),
            K::Both => return false,
        };
        let mut out = vec![];
        with_vars(v, |n| unsafe { f(self.p, lo, hi, n, collect, data(&mut out)) });
        for cl in split(&out) {
            c.add_clause(clause(&cl));
        }
        true
    }
    fn enforce(&self, k: K, b: usize) -> Result<Vec<Lit>, EE> {
        let f = match k {
            K::Ub => &self.f.ub,
            K::Lb => &self.f.lb,
            K::Both => return Err(EE::NotEncoded),
        };
        let mut out = vec![];
        let r = match f {
            Enforce::One(f) => {
                let mut l = 0;
                let r = unsafe { f(self.p, b, &mut l) };
                // there is nothing to assume for a bound that always holds
                if l != 0 {
                    out.push(l);
                }
                r
            }
            Enforce::Many(f) => unsafe { f(self.p, b, collect, data(&mut out)) },
            Enforce::None => return Err(EE::NotEncoded),
        };
        match code(&r) {
            "ok" => Ok(out.into_iter().map(lit).collect()),
            "not-encoded" => Err(EE::NotEncoded),
            "unsat" => Err(EE::Unsat),
            e => panic!("enforcing a bound returned {e}"),
        }
    }
    fn reserve(&mut self, v: &mut dyn ManageVars) {
        with_vars(v, |n| unsafe { (self.f.reserve)(self.p, n) });
    }
    fn total(&self) -> usize {
        self.total
    }
    fn stats(&self) -> Option<(usize, u32)> {
        None
    }
}

const CL: &[K] = &[K::Ub, K::Lb];
const ENCS: &[Kind] = &[
    Kind {
        name: "gte",
        kinds: UB,
        extendable: true,
        monotone: true,
        make: |l| Box::new(CEnc::new(unsafe { gte_new() }, Fns { drop: gte_drop, reserve: gte_reserve, add: Add::Pb(gte_add), encode_ub: gte_encode_ub, encode_lb: None, ub: Enforce::Many(gte_enforce_ub), lb: Enforce::None }, l)),
    },
    Kind {
        name: "adder",
        kinds: CL,
        extendable: true,
        monotone: true,
        make: |l| {
            Box::new(CEnc::new(
                unsafe { bin_adder_new() },
                Fns { drop: bin_adder_drop, reserve: bin_adder_reserve, add: Add::Pb(bin_adder_add), encode_ub: bin_adder_encode_ub, encode_lb: Some(bin_adder_encode_lb), ub: Enforce::Many(bin_adder_enforce_ub), lb: Enforce::Many(bin_adder_enforce_lb) },
                l,
            ))
        },
    },
    Kind {
        name: "dpw",
        kinds: UB,
        extendable: false,
        monotone: false,
        make: |l| Box::new(CEnc::new(unsafe { dpw_new() }, Fns { drop: dpw_drop, reserve: dpw_reserve, add: Add::Pb(dpw_add), encode_ub: dpw_encode_ub, encode_lb: None, ub: Enforce::Many(dpw_enforce_ub), lb: Enforce::None }, l)),
    },
];
const TOT: &[Kind] = &[Kind {
    name: "totalizer",
    kinds: CL,
    extendable: true,
    monotone: true,
    make: |l| Box::new(CEnc::new(unsafe { tot_new() }, Fns { drop: tot_drop, reserve: tot_reserve, add: Add::Card(tot_add), encode_ub: tot_encode_ub, encode_lb: Some(tot_encode_lb), ub: Enforce::One(tot_enforce_ub), lb: Enforce::One(tot_enforce_lb) }, l)),
}];

fn s_chist(kinds: &'static [Kind], weighted: bool, n: i32, ops: usize) -> BoxedStrategy<Hist> {
    s_hist(kinds, weighted, n, ops)
        .prop_map(move |mut h| {
            let adder = kinds[h.enc % kinds.len()].name == "adder";
            h.gap = 0;
            let mut lb = false;
            h.ops.retain_mut(|o| match o {
                Op::Fresh => false,
                Op::Encode { kind, change, .. } => {
                    // the interface only has changes of the encoding
                    *change = true;
                    // known finding of the adder: an upper bound must not be changed after encoding lower bounds
                    lb |= *kind == K::Lb;
                    !(adder && lb && *kind == K::Ub)
                }
                _ => true,
            });
            h
        })
        .boxed()
}

// ---------------------------------------------------------------- at-most-one

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Am1 {
    enc: u8,
    lits: Vec<i32>,
    pre: u32,
    bad: Vec<usize>,
}

macro_rules! am1 {
    ($c:expr, $new:ident, $add:ident, $encode:ident, $drop:ident) => {{
        let p = unsafe { $new() };
        for (i, &l) in $c.lits.iter().enumerate() {
            for _ in $c.bad.iter().filter(|b| **b == i) {
                assert_eq!(code(&unsafe { $add(p, INVALID) }), "invalid-literal");
            }
            assert_eq!(code(&unsafe { $add(p, l) }), "ok");
        }
        let before = max_var_cls(std::slice::from_ref(&$c.lits)) as u32 + $c.pre;
        let mut n = before;
        let mut out = vec![];
        unsafe {
            $encode(p, &mut n, collect, data(&mut out));
            $drop(p);
        }
        (stringify!($encode), split(&out), before, n)
    }};
}

fn check_am1(c: &Am1, o: &mut Obs) -> CheckResult {
    let (name, cls, before, after) = match c.enc % 6 {
        0 => am1!(c, pairwise_new, pairwise_add, pairwise_encode, pairwise_drop),
        1 => am1!(c, ladder_new, ladder_add, ladder_encode, ladder_drop),
        2 => am1!(c, bitwise_new, bitwise_add, bitwise_encode, bitwise_drop),
        3 => am1!(c, commander_new, commander_add, commander_encode, commander_drop),
        4 => am1!(c, bimander_new, bimander_add, bimander_encode, bimander_drop),
        _ => am1!(c, twoproduct_new, twoproduct_add, twoproduct_encode, twoproduct_drop),
    };
    let vars = vars_of(c.lits.iter().copied());
    ensure!(after >= before, "{name}: the number of variables decreased");
    only_known_vars(&cls, &vars, &(before..after).collect::<Vec<_>>())?;
    let mut f = Form::new(&cls);
    for a in all_assignments(&vars) {
        let n = c.lits.iter().filter(|&&l| lit_true(l, a)).count();
        let got = f.sat(&assumps(&vars, a), &[]);
        ensure!(got == (n <= 1), "{name}: {n} true inputs in {:?}, but the encoding is {}", assumps(&vars, a), if got { "satisfiable" } else { "unsatisfiable" });
    }
    o.label(name);
    if vars.len() >= 2 {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- dynamic polynomial watchdog

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DOp {
    Prec(usize),
    Next,
    Encode(usize, usize),
    Reserve,
    Limit(usize, usize),
    Add(i32, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DHist {
    init: Vec<(i32, usize)>,
    ops: Vec<DOp>,
}

struct Vm(u32);
impl ManageVars for Vm {
    fn new_var(&mut self) -> rustsat::types::Var {
        self.0 += 1;
        rustsat::types::Var::new(self.0 - 1)
    }
    fn max_var(&self) -> Option<rustsat::types::Var> {
        (self.0 > 0).then(|| rustsat::types::Var::new(self.0 - 1))
    }
    fn increase_next_free(&mut self, v: rustsat::types::Var) -> bool {
        let r = v.idx32() > self.0;
        self.0 = self.0.max(v.idx32());
        r
    }
    fn combine(&mut self, o: Self) {
        self.0 = self.0.max(o.0);
    }
    fn n_used(&self) -> u32 {
        self.0
    }
    fn forget_from(&mut self, v: rustsat::types::Var) {
        self.0 = self.0.min(v.idx32());
    }
}

/// The exactness of the Rust encoding is C05's; here, the C functions have to do the same
fn check_dpw(h: &DHist, o: &mut Obs) -> CheckResult {
    let mut r = DynamicPolyWatchdog::default();
    let p = unsafe { dpw_new() };
    let n0 = h.init.iter().map(|x| x.0.unsigned_abs()).chain(h.ops.iter().map(|op| if let DOp::Add(l, _) = op { l.unsigned_abs() } else { 0 })).max().unwrap_or(0);
    let (mut vm, mut n) = (Vm(n0), n0);
    let same = |what: String, a: &Cnf, b: &[i32]| -> CheckResult {
        let (a, b) = (icnf(a), split(b));
        ensure!(a == b, "{what}: clauses {b:?}, expected {a:?}");
        Ok(())
    };
    let mut total = 0;
    let mut encoded = false;
    let mut prec = 1usize;
    for &(l, w) in &h.init {
        ensure!(r.add_input(lit(l), w).is_ok(), "adding an input to a new encoding");
        let e = code(&unsafe { dpw_add(p, l, w) });
        ensure!(e == "ok", "adding an input: {e}");
        total += w;
    }
    for (i, op) in h.ops.iter().enumerate() {
        let what = format!("operation {i} ({op:?})");
        match op {
            DOp::Add(l, w) => {
                let a = r.add_input(lit(*l), *w);
                let b = code(&unsafe { dpw_add(p, *l, *w) });
                ensure!(b == if a.is_ok() { "ok" } else { "invalid-state" }, "{what}: {b}, expected {a:?}");
                if a.is_ok() {
                    total += w;
                }
            }
            DOp::Prec(d) => {
                let a = r.set_precision(*d);
                let b = code(&unsafe { dpw_set_precision(p, *d) });
                let want = match a {
                    Ok(()) => "ok",
                    Err(pb::dpw::PrecisionError::NotPow2) => "not-pow2",
                    Err(pb::dpw::PrecisionError::PrecisionDecreased) => "decreased",
                };
                ensure!(b == want, "{what}: {b}, expected {want}");
                ensure!((want == "not-pow2") == (*d > 1 && !d.is_power_of_two()), "{what}: {want}");
                ensure!(want != "decreased" || (encoded && *d > prec), "{what}: {want}");
                if want == "ok" {
                    prec = (*d).max(1);
                }
            }
            DOp::Next => {
                let a = r.next_precision();
                let b = unsafe { dpw_next_precision(p) };
                ensure!(a == b, "{what}: {b}, expected {a}");
                let a = r.set_precision(a).is_ok();
                ensure!(a == (code(&unsafe { dpw_set_precision(p, b) }) == "ok"), "{what}: setting it to {b}");
                if a {
                    prec = b;
                }
            }
            DOp::Reserve => {
                r.reserve(&mut vm);
                unsafe { dpw_reserve(p, &mut n) };
                encoded = true;
            }
            DOp::Encode(a, b) => {
                let (a, b) = (*a.min(b), *a.max(b));
                let mut c = Cnf::new();
                r.encode_ub_change(a..=b, &mut c, &mut vm).unwrap();
                let mut out = vec![];
                unsafe { dpw_encode_ub(p, a, b, &mut n, collect, data(&mut out)) };
                same(what.clone(), &c, &out)?;
                if !c.is_empty() {
                    o.nontrivial();
                }
                encoded = true;
            }
            DOp::Limit(a, b) => {
                let (a, b) = (*a.min(b), *a.max(b));
                let mut c = Cnf::new();
                r.limit_range(a..=b, &mut c).unwrap();
                let mut out = vec![];
                unsafe { dpw_limit_range(p, a, b, collect, data(&mut out)) };
                same(what.clone(), &c, &out)?;
                if !c.is_empty() {
                    o.label("limited");
                }
            }
        }
        ensure!(vm.0 == n, "{what}: {n} variables used, expected {}", vm.0);
        ensure!(r.is_max_precision() == unsafe { dpw_is_max_precision(p) }, "{what}: maximum precision");
        for b in 0..=total.min(40) {
            let (x, y) = (r.coarse_ub(b), unsafe { dpw_coarse_ub(p, b) });
            ensure!(x == y, "{what}: coarse bound {y} for {b}, expected {x}");
            let mut out = vec![];
            let e = code(&unsafe { dpw_enforce_ub(p, b, collect, data(&mut out)) });
            match r.enforce_ub(b) {
                Ok(v) => {
                    let v: Vec<i32> = v.into_iter().map(ilit).collect();
                    ensure!(e == "ok" && v == out, "{what}: enforcing {b}: {e} {out:?}, expected {v:?}");
                }
                Err(_) => ensure!(e == "not-encoded", "{what}: enforcing {b}: {e}"),
            }
        }
    }
    unsafe { dpw_drop(p) };
    Ok(())
}

fn s_dpw() -> BoxedStrategy<DHist> {
    let w = || prop_oneof![3 => s_weight(), 1 => 1..=255usize];
    let bound = || prop_oneof![4 => 0..60usize, 2 => 0..300usize, 1 => Just(usize::MAX)];
    let op = prop_oneof![
        2 => prop_oneof![3 => (0..8u32).prop_map(|p| 1usize << p), 1 => 0..70usize].prop_map(DOp::Prec),
        3 => Just(DOp::Next),
        6 => (bound(), bound()).prop_map(|(a, b)| DOp::Encode(a, b)),
        1 => Just(DOp::Reserve),
        2 => (bound(), bound()).prop_map(|(a, b)| DOp::Limit(a, b)),
        1 => (s_lit(8), w()).prop_map(|(l, w)| DOp::Add(l, w)),
    ];
    // distinct inputs: the order of the map of weights is the same then
    (vec(w(), 8), s_lits_distinct(8, 0, 8), vec(op, 1..9)).prop_map(|(w, l, ops)| DHist { init: l.into_iter().zip(w).collect(), ops }).boxed()
}

pub fn c25() -> Prop {
    let am1 = |_| bx((0..6u8, s_lits(9, 0, 9), 0..4u32, vec(0..9usize, 0..2)).prop_map(|(enc, lits, pre, bad)| Am1 { enc, lits, pre, bad }));
    Prop {
        id: "C25",
        rule: "Random operation histories through the exported C functions; the same checks as for the Rust encodings on the clauses and assumptions passed to the callbacks (all input assignments are decided), and for the watchdog's precision and range functions the same results as the Rust encoding. Non-trivial: an at-most-one constraint over at least two variables; a bound strictly between 0 and the total was enforced; the watchdog emitted clauses.",
        assumptions: vec!["the harness's own DPLL solver is correct", "the functions are called from Rust with the C calling convention instead of from a C program"],
        subs: vec![
            sub_crashy("totalizer", 60_000, 1_000_000, |t| s_chist(TOT, false, t.pick(6, 7), t.pick(6, 10)), |h, o| run_hist(TOT, h, false, o)),
            sub_crashy("pb", 40_000, 600_000, |t| s_chist(ENCS, true, t.pick(5, 6), t.pick(5, 8)), |h, o| run_hist(ENCS, h, false, o)),
            sub_crashy("am1", 150_000, 2_000_000, am1, check_am1),
            sub_crashy("watchdog", 100_000, 1_500_000, |_| s_dpw(), check_dpw),
        ],
    }
}
