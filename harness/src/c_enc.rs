//! C02-C05: cardinality and pseudo-Boolean encodings, one-shot and incremental
use crate::common::*;
use crate::enc::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::instances::{Cnf, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::Lit;
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use vcore::*;

// ---------- one-shot constraints ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shot {
    f: usize,
    kind: K,
    lits: Vec<(i32, isize)>,
    bound: i64,
    gap: u32,
    pre: u32,
}

pub fn holds(k: K, s: i128, b: i128) -> bool {
    match k {
        K::Ub => s <= b,
        K::Lb => s >= b,
        K::Both => s == b,
    }
}

fn check_projection(name: &str, cls: &[Vec<i32>], reported_unsat: bool, vars: &[i32], want: impl Fn(u64) -> bool) -> Result<(bool, bool), Fail> {
    let mut f = Form::new(cls);
    let (mut some_t, mut some_f) = (false, false);
    for a in all_assignments(vars) {
        let w = want(a);
        if w {
            some_t = true;
        } else {
            some_f = true;
        }
        let got = !reported_unsat && f.sat(&assumps(vars, a), &[]);
        ensure!(got == w, "{name}: inputs {:?}: constraint {} but the encoding is {}{}", assumps(vars, a), if w { "holds" } else { "is violated" }, if got { "satisfiable" } else { "unsatisfiable" }, if reported_unsat { " (reported unsatisfiable)" } else { "" });
    }
    Ok((some_t, some_f))
}

fn card_shot(c: &Shot, obs: &mut Obs) -> CheckResult {
    let (name, f) = CARD_FNS[c.f % CARD_FNS.len()];
    let ls: Vec<Lit> = c.lits.iter().map(|(l, _)| lit(*l)).collect();
    let b = c.bound as usize;
    let constr = match c.kind {
        K::Ub => CardConstraint::new_ub(ls, b),
        K::Lb => CardConstraint::new_lb(ls, b),
        K::Both => CardConstraint::new_eq(ls, b),
    };
    let mv = c.lits.iter().map(|l| l.0.unsigned_abs()).max().unwrap_or(0);
    let mut vm = GapVm::new(mv + c.pre, c.gap);
    let mut cnf = Cnf::new();
    let r = f(constr, &mut cnf, &mut vm);
    let cls = icnf(&cnf);
    let vars = vars_of(c.lits.iter().map(|l| l.0));
    only_known_vars(&cls, &vars, &vm.given)?;
    let (t, ff) = check_projection(name, &cls, r.is_none(), &vars, |a| holds(c.kind, c.lits.iter().filter(|(l, _)| lit_true(*l, a)).count() as i128, b as i128))?;
    obs.label(name);
    if t && ff {
        obs.nontrivial();
    }
    Ok(())
}

fn pb_shot(c: &Shot, obs: &mut Obs) -> CheckResult {
    let (name, f) = PB_FNS[c.f % PB_FNS.len()];
    let ls: Vec<(Lit, isize)> = c.lits.iter().map(|(l, w)| (lit(*l), *w)).collect();
    let b = c.bound as isize;
    let constr = match c.kind {
        K::Ub => PbConstraint::new_ub(ls, b),
        K::Lb => PbConstraint::new_lb(ls, b),
        K::Both => PbConstraint::new_eq(ls, b),
    };
    let mv = c.lits.iter().map(|l| l.0.unsigned_abs()).max().unwrap_or(0);
    let mut vm = GapVm::new(mv + c.pre, c.gap);
    let mut cnf = Cnf::new();
    let r = f(constr, &mut cnf, &mut vm);
    let cls = icnf(&cnf);
    let vars = vars_of(c.lits.iter().map(|l| l.0));
    only_known_vars(&cls, &vars, &vm.given)?;
    let (t, ff) = check_projection(name, &cls, r.is_none(), &vars, |a| {
        let s: i128 = c.lits.iter().filter(|(l, _)| lit_true(*l, a)).map(|(_, w)| *w as i128).sum();
        holds(c.kind, s, b as i128)
    })?;
    obs.label(name);
    if t && ff {
        obs.nontrivial();
    }
    Ok(())
}

fn s_kind() -> impl Strategy<Value = K> + Clone {
    prop_oneof![Just(K::Ub), Just(K::Lb), Just(K::Both)]
}

/// Weights with interesting structure: equal, powers of two, small, large
pub fn s_weight() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => 1usize..=4,
        2 => 1usize..=12,
        2 => (0u32..6).prop_map(|p| 1usize << p),
        1 => 13usize..=40,
    ]
    .boxed()
}
pub fn s_weights(n: usize) -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        4 => vec(s_weight(), n),
        1 => (s_weight()).prop_map(move |w| vec![w; n]),
        1 => (vec(1usize..=4, n), 1usize..=9).prop_map(|(v, m)| v.into_iter().map(|w| w * m).collect()),
    ]
    .boxed()
}

// ---------- incremental histories ----------

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum B {
    U,
    I(usize),
    E(usize),
}
impl B {
    fn bound(self) -> Bound<usize> {
        match self {
            B::U => Bound::Unbounded,
            B::I(x) => Bound::Included(x),
            B::E(x) => Bound::Excluded(x),
        }
    }
}
fn in_range(r: (B, B), x: usize) -> bool {
    (match r.0 {
        B::U => true,
        B::I(s) => x >= s,
        B::E(s) => x > s,
    }) && match r.1 {
        B::U => true,
        B::I(e) => x <= e,
        B::E(e) => x < e,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Extend(Vec<(i32, usize)>),
    Encode { kind: K, change: bool, r: (B, B) },
    Reserve,
    /// switch to an empty clause collector; encodings have to be built from scratch after this
    Fresh,
    /// serialize (to JSON?) and continue with the deserialized encoding
    Reload(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub enc: usize,
    pub init: Vec<(i32, usize)>,
    pub ops: Vec<Op>,
    pub gap: u32,
    pub seed: u64,
}

struct St<'a> {
    name: &'a str,
    mono: bool,
    vars: Vec<i32>,
    sums: Vec<(u64, u128)>,
    form: Form,
}

fn ub_lb(k: K, s: u128, b: usize) -> bool {
    match k {
        K::Ub => s <= b as u128,
        K::Lb => s >= b as u128,
        K::Both => s == b as u128,
    }
}

fn check_bound(st: &mut St, e: &dyn DynEnc, k: K, b: usize, must: bool, total: usize) -> Result<bool, Fail> {
    let name = st.name;
    match e.enforce(k, b) {
        Err(EE::NotEncoded) => {
            ensure!(!must, "{name}: bound {k:?} {b} was encoded (total {total}) but enforcing it reports NotEncoded");
            Ok(false)
        }
        Err(EE::Unsat) => {
            ensure!(k != K::Ub && b > total, "{name}: bound {k:?} {b} of total {total} reported as unsatisfiable");
            Ok(true)
        }
        Ok(assumps_e) => {
            ensure!(k == K::Ub || b <= total, "{name}: bound {k:?} {b} exceeds the total {total} but no error is reported");
            for i in 0..st.sums.len() {
                let (a, s) = st.sums[i];
                let want = ub_lb(k, s, b);
                let asm = assumps(&st.vars, a);
                let got = st.form.sat(&asm, &assumps_e);
                ensure!(got == want, "{name}: enforcing {k:?} {b} with inputs {asm:?} (sum {s}): {}", if got { "satisfiable" } else { "unsatisfiable" });
            }
            Ok(true)
        }
    }
}

/// Interesting bounds to ask for: all if there are few, otherwise those around achievable sums
fn bounds_to_ask(sums: &[(u64, u128)], total: usize, r: Option<(B, B)>, extra: u64) -> Vec<usize> {
    let mut v: Vec<usize> = if total <= 24 {
        (0..=total + 1).collect()
    } else {
        let mut v: Vec<usize> = vec![0, 1, total - 1, total, total + 1];
        for (_, s) in sums {
            let s = *s as usize;
            v.extend([s.saturating_sub(1), s, s + 1]);
        }
        if let Some((lo, hi)) = r {
            for b in [lo, hi] {
                if let B::I(x) | B::E(x) = b {
                    v.extend([x.saturating_sub(1), x, x.saturating_add(1)]);
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v.retain(|&x| x <= total + 1);
        // thin out deterministically
        let n = v.len();
        let mut h = extra | 1;
        v.retain(|_| {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            n <= 24 || (h >> 33) % (n as u64) < 24
        });
        v
    };
    if let Some(r) = r {
        v.retain(|&b| in_range(r, b));
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// `strict`: do not leave out the known defects of the binary adder (see known_findings.txt)
pub fn run_hist(kinds: &[Kind], h: &Hist, strict: bool, obs: &mut Obs) -> CheckResult {
    let kd = &kinds[h.enc % kinds.len()];
    let name = kd.name;
    // Known finding 1: the adder does not encode the lower bound `b` (not as required) if the upper
    // bound `b - 1` is already encoded; for the inverted adder, the bounds swap roles.
    // Known finding 2: after the adder encoded lower bounds, a change of upper bounds is unsound;
    // such requests are replaced by non-change encodings here.
    let adder = (!strict && name == "adder", !strict && name == "inverted-adder");
    let mut comparators = std::collections::HashSet::new();
    let mut f2_risk = false;
    obs.label(name);
    let mut inputs = h.init.clone();
    let to_l = |v: &[(i32, usize)]| v.iter().map(|&(l, w)| (lit(l), w)).collect::<Vec<_>>();
    let mut e = (kd.make)(&to_l(&h.init));
    let maxv = h
        .init
        .iter()
        .map(|x| x.0.abs())
        .chain(h.ops.iter().flat_map(|o| if let Op::Extend(v) = o { v.iter().map(|x| x.0.abs()).collect() } else { vec![] }))
        .max()
        .unwrap_or(0);
    let mut vm = GapVm::new(maxv as u32, h.gap);
    let mut cnf = Cnf::new();
    // bound types whose encoding is (fully) in the current collector; all of them as long as there was no `Fresh`
    let (mut ub_in, mut lb_in) = (true, true);
    let mut clauses_total = 0usize;
    let mut reserved = false;
    let mut reserved_now = false;
    for op in &h.ops {
        match op {
            Op::Extend(v) => {
                if !kd.extendable {
                    continue;
                }
                e.extend(&to_l(v));
                inputs.extend(v.iter().copied());
                reserved_now = false;
                if !v.is_empty() {
                    comparators.clear();
                }
                // without encoding the additions, bounds are exact or reported as not encoded
                let total: usize = inputs.iter().map(|x| x.1).sum();
                ensure!(e.total() == total, "{name}: reports total {} but inputs sum to {total}", e.total());
                let vars = vars_of(inputs.iter().map(|x| x.0));
                let sums: Vec<(u64, u128)> = all_assignments(&vars).map(|a| (a, wsum(&inputs, a))).collect();
                let mut s = St { name, mono: kd.monotone, vars, sums, form: Form::new(&icnf(&cnf)) };
                for &k in kd.kinds {
                    if (k == K::Lb || ub_in) && (k == K::Ub || lb_in) {
                        for b in bounds_to_ask(&s.sums, total, None, h.seed ^ 3) {
                            check_bound(&mut s, e.as_ref(), k, b, false, total)?;
                        }
                    }
                }
            }
            Op::Reserve => {
                if name.contains("dpw") && inputs.len() <= 1 {
                    continue;
                }
                e.reserve(&mut vm);
                reserved = true;
                reserved_now = true;
            }
            Op::Reload(json) => {
                e.reload(*json).map_err(|m| Fail::from(format!("{name}: {m}")))?;
                obs.label("reload");
            }
            Op::Fresh => {
                cnf = Cnf::new();
                (ub_in, lb_in) = (false, false);
            }
            Op::Encode { kind, change, r } => {
                if !kd.kinds.contains(kind) {
                    continue;
                }
                let (cu, cl) = (*kind != K::Lb, *kind != K::Ub);
                let mut change = *change && (ub_in || !cu) && (lb_in || !cl);
                if adder.0 || adder.1 {
                    let (first, second) = if adder.0 { (cu, cl) } else { (cl, cu) };
                    change &= !(first && f2_risk);
                    f2_risk |= second;
                    if first {
                        let t: usize = inputs.iter().map(|x| x.1).sum();
                        comparators.extend((0..=t).filter(|&b| in_range(*r, b)));
                    }
                }
                (ub_in, lb_in) = (ub_in || cu, lb_in || cl);
                let covered = |k: K| match k {
                    K::Ub => ub_in,
                    K::Lb => lb_in,
                    K::Both => ub_in && lb_in,
                };
                let before = cnf.len();
                let vbefore = vm.n_used();
                let st_before = e.stats();
                let ok = e.encode(*kind, change, (r.0.bound(), r.1.bound()), &mut cnf, &mut vm);
                assert!(ok, "harness: encode not supported");
                clauses_total += cnf.len() - before;
                // the comparators of the adder are only created for the requested bounds
                if reserved_now && !name.contains("adder") {
                    ensure!(vm.n_used() == vbefore, "{name}: {} new variables were needed although all were reserved", vm.n_used() - vbefore);
                    obs.count("encoded-after-reserve", 1);
                }
                let st = e.stats();
                if let (Some(st), Some(st_before)) = (st, st_before) {
                ensure!(st.0 - st_before.0 == cnf.len() - before, "{name}: statistics count {} new clauses, {} were emitted", st.0 - st_before.0, cnf.len() - before);
                if h.gap == 0 {
                    ensure!(st.1 - st_before.1 == vm.n_used() - vbefore, "{name}: statistics count {} new variables, {} were used", st.1 - st_before.1, vm.n_used() - vbefore);
                }
                }
                let cls = icnf(&cnf);
                let total: usize = inputs.iter().map(|x| x.1).sum();
                ensure!(e.total() == total, "{name}: reports total {} but inputs sum to {total}", e.total());
                let vars = vars_of(inputs.iter().map(|x| x.0));
                only_known_vars(&cls, &vars, &vm.given)?;
                let sums: Vec<(u64, u128)> = all_assignments(&vars).map(|a| (a, wsum(&inputs, a))).collect();
                let mut s = St { name, mono: kd.monotone, vars, sums, form: Form::new(&cls) };
                // building alone must not restrict the inputs
                for i in 0..s.sums.len() {
                    let asm = assumps(&s.vars, s.sums[i].0);
                    ensure!(s.form.sat(&asm, &[]), "{name}: the encoding without any enforced bound rejects inputs {asm:?}");
                }
                let ks: &[K] = match kind {
                    K::Ub => &[K::Ub],
                    K::Lb => &[K::Lb],
                    K::Both => &[K::Ub, K::Lb, K::Both],
                };
                let mut good = vec![];
                for &k in ks {
                    for b in bounds_to_ask(&s.sums, total, Some(*r), h.seed) {
                        let must = match k {
                            K::Lb if adder.0 => !(b > 0 && comparators.contains(&(b - 1))),
                            K::Ub if adder.1 => !comparators.contains(&(b + 1)),
                            K::Both if adder.0 => !(b > 0 && comparators.contains(&(b - 1))),
                            K::Both if adder.1 => !comparators.contains(&(b + 1)),
                            _ => true,
                        };
                        if check_bound(&mut s, e.as_ref(), k, b, must, total)? && b < total && b > 0 {
                            good.push((k, b));
                        }
                    }
                }
                if !good.is_empty() && s.sums.len() >= 4 {
                    obs.nontrivial();
                    obs.label(format!("{kind:?}{}", if change { "-change" } else { "" }));
                }
                // anything else that can be enforced must be exact, too
                for &k in kd.kinds.iter().filter(|&&k| covered(k)) {
                    for b in bounds_to_ask(&s.sums, total, None, h.seed ^ 77) {
                        if !(in_range(*r, b) && ks.contains(&k)) && check_bound(&mut s, e.as_ref(), k, b, false, total)? {
                            obs.count("outside-range-enforced", 1);
                        }
                    }
                }
                // tightening after enforcing as units (monotone encodings)
                if s.mono {
                    let ubs: Vec<usize> = good.iter().filter(|g| g.0 == K::Ub).map(|g| g.1).collect();
                    if ubs.len() >= 2 {
                        let (b1, b2) = (ubs[ubs.len() - 1], ubs[(h.seed % (ubs.len() as u64 - 1)) as usize]);
                        let (Ok(mut a1), Ok(a2)) = (e.enforce(K::Ub, b1), e.enforce(K::Ub, b2)) else { unreachable!() };
                        a1.extend(a2);
                        for i in 0..s.sums.len() {
                            let (a, sum) = s.sums[i];
                            let asm = assumps(&s.vars, a);
                            ensure!(s.form.sat(&asm, &a1) == (sum <= b2 as u128), "{name}: enforcing <= {b1} and then <= {b2} is not exact for inputs {asm:?}");
                        }
                    }
                }
                // value iteration
                for b in bounds_to_ask(&s.sums, total, None, h.seed ^ 5) {
                    if b < total {
                        if let Some(n) = e.next_higher(b) {
                            ensure!(n > b, "{name}: next_higher({b}) = {n}");
                            if let Some(m) = s.sums.iter().map(|x| x.1).filter(|&x| x > b as u128).min() {
                                ensure!(n as u128 <= m, "{name}: next_higher({b}) = {n} skips the achievable value {m}");
                            }
                        }
                    }
                    if b > 0 && b <= total {
                        if let Some(n) = e.next_lower(b) {
                            ensure!(n < b, "{name}: next_lower({b}) = {n}");
                            if let Some(m) = s.sums.iter().map(|x| x.1).filter(|&x| x < b as u128).max() {
                                ensure!(n as u128 >= m, "{name}: next_lower({b}) = {n} skips the achievable value {m}");
                            }
                        }
                    }
                }
            }
        }
    }
    let n = e.finish().map_err(|m| Fail::from(format!("{name}: {m}")))?;
    if n > 0 {
        obs.count("proof-steps", n as u64);
    }
    let Some(st) = e.stats() else { return Ok(()) };
    ensure!(st.0 == clauses_total, "{name}: statistics report {} clauses, {clauses_total} were emitted", st.0);
    if h.gap == 0 && !reserved {
        ensure!(st.1 == vm.given.len() as u32, "{name}: statistics report {} variables, {} were used", st.1, vm.given.len());
    }
    Ok(())
}

fn s_range(maxb: usize) -> BoxedStrategy<(B, B)> {
    let f = move |lo: usize, hi: usize, kind: u8| match kind % 10 {
        0 => (B::U, B::U),
        1 => (B::I(lo), B::U),
        2 => (B::U, B::I(hi)),
        3 | 4 => (B::I(lo.min(hi)), B::I(lo.max(hi))),
        5 => (B::I(lo.min(hi)), B::E(lo.max(hi))),
        6 => (B::E(lo.min(hi)), B::I(lo.max(hi))),
        7 => (B::I(lo), B::E(lo)),
        _ => (B::I(lo), B::I(lo)),
    };
    (0..=maxb, 0..=maxb, any::<u8>()).prop_map(move |(a, b, k)| f(a, b, k)).boxed()
}

/// permille -> bound relative to a total is hard for shrinking, so ranges are drawn over fixed limits
pub fn s_hist(kinds: &'static [Kind], weighted: bool, nvars: i32, maxops: usize) -> BoxedStrategy<Hist> {
    let wl = move |n: usize| -> BoxedStrategy<Vec<(i32, usize)>> {
        let ws = if weighted { s_weights(n.max(1)) } else { Just(vec![1; n.max(1)]).boxed() };
        (s_lits(nvars, 0, n), ws).prop_map(|(l, w)| l.into_iter().zip(w).collect()).boxed()
    };
    let op = move || {
        let maxb = if weighted { prop_oneof![2 => s_range(12), 2 => s_range(40), 1 => s_range(140)].boxed() } else { s_range(nvars as usize + 2) };
        prop_oneof![
            6 => (s_kind(), any::<bool>(), maxb).prop_map(|(kind, change, r)| Op::Encode { kind, change, r }),
            3 => wl(3).prop_map(Op::Extend),
            1 => Just(Op::Reserve),
            1 => Just(Op::Fresh),
        ]
    };
    (0..kinds.len(), wl(nvars as usize), vec(op(), 1..=maxops), prop_oneof![3 => Just(0u32), 1 => Just(2u32)], any::<u32>())
        .prop_map(move |(enc, init, mut ops, gap, seed)| {
            // make encodes hit: kinds the encoding supports
            let ks = kinds[enc].kinds;
            for o in &mut ops {
                if let Op::Encode { kind, .. } = o {
                    if !ks.contains(kind) {
                        *kind = ks[0];
                    }
                }
            }
            let mut seen: Vec<i32> = vec![];
            let mut init = init;
            if weighted {
                // initial literals come in a map: keep them distinct as literals
                init.retain(|x| {
                    let n = !seen.contains(&x.0);
                    seen.push(x.0);
                    n
                });
            }
            Hist { enc, init, ops, gap, seed: u64::from(seed) }
        })
        .boxed()
}

// ---------- dynamic polynomial watchdog: precision, coarse bounds, range limiting ----------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) enum DOp {
    /// set the precision divisor to 2^p
    Prec(u32),
    NextPrec,
    Encode { change: bool, r: (B, B) },
    Reserve,
    /// build one more object by repeated single inputs before anything is built
    Limit(usize, usize),
    Reload(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) struct DHist {
    init: Vec<(i32, usize)>,
    pub(crate) ops: Vec<DOp>,
    gap: u32,
    seed: u64,
}

pub(crate) fn run_dpw(h: &DHist, obs: &mut Obs) -> CheckResult {
    use rustsat::encodings::pb::{BoundUpper, BoundUpperIncremental, DynamicPolyWatchdog, EncodeIncremental};
    let mut e = DynamicPolyWatchdog::from_iter(h.init.iter().map(|&(l, w)| (lit(l), w)));
    let vars = vars_of(h.init.iter().map(|x| x.0));
    let mut vm = GapVm::new(h.init.iter().map(|x| x.0.unsigned_abs()).max().unwrap_or(0), h.gap);
    let mut cnf = Cnf::new();
    let mut merged: std::collections::BTreeMap<i32, usize> = Default::default();
    for &(l, w) in &h.init {
        *merged.entry(l).or_default() += w;
    }
    let mut p = 1usize; // currently set divisor
    let mut enc_p: Option<usize> = None; // divisor at the last encoding
    let mut limit: Option<(usize, usize)> = None;
    let full: usize = merged.values().sum();
    let mut levels = 0;
    let plain = !h.ops.iter().any(|o| matches!(o, DOp::Prec(_) | DOp::NextPrec));
    for op in &h.ops {
        match op {
            DOp::Prec(x) => {
                let d = 1usize << x;
                match e.set_precision(d) {
                    Ok(()) => {
                        ensure!(enc_p.is_none_or(|q| d <= q.max(p)) || merged.len() <= 1, "set_precision({d}) accepted after encoding with {enc_p:?}");
                        p = d;
                    }
                    Err(err) => {
                        ensure!(enc_p.is_some() && d > p, "set_precision({d}) after {p}: {err}");
                    }
                }
            }
            DOp::NextPrec => {
                let d = e.next_precision();
                ensure!(d.is_power_of_two(), "next_precision {d}");
                let maxw = merged.values().max().copied().unwrap_or(1);
                ensure!(d <= maxw.max(1), "next_precision {d} for weights {merged:?}");
                if e.set_precision(d).is_ok() {
                    p = d;
                }
            }
            DOp::Reload(json) => {
                e = crate::tok::either(&e, *json)?;
                obs.label("reload");
            }
            DOp::Reserve => {
                e.reserve(&mut vm);
                if merged.len() > 1 && enc_p.is_none() && merged.values().any(|&w| w >= p) {
                    enc_p = Some(p);
                }
            }
            DOp::Limit(a, b) => {
                if limit.is_none() {
                    let (a, b) = ((*a).min(*b), (*a).max(*b));
                    e.limit_range(a..=b, &mut cnf).unwrap();
                    limit = Some((a, b));
                }
            }
            DOp::Encode { change, r } => {
                let range = (r.0.bound(), r.1.bound());
                if *change {
                    e.encode_ub_change(range, &mut cnf, &mut vm).unwrap();
                } else {
                    e.encode_ub(range, &mut cnf, &mut vm).unwrap();
                }
                let nonempty = (0..full).any(|b| in_range(*r, b));
                if !nonempty {
                    continue;
                }
                if merged.values().any(|&w| w >= p) {
                    if enc_p != Some(p) {
                        levels += 1;
                    }
                    enc_p = Some(p);
                }
                let cls = icnf(&cnf);
                only_known_vars(&cls, &vars, &vm.given)?;
                let red: Vec<(i32, usize)> = merged.iter().map(|(&l, &w)| (l, w / p)).collect();
                let total: usize = red.iter().map(|x| x.1).sum();
                let inlim = |a: u64| {
                    let s = wsum(&merged.iter().map(|(&l, &w)| (l, w)).collect::<Vec<_>>(), a) as usize;
                    limit.is_none_or(|(lo, hi)| lo <= s && s <= hi)
                };
                // within a hardened range only the inputs in the range have to be kept
                let sums: Vec<(u64, u128)> = all_assignments(&vars).filter(|&a| inlim(a)).map(|a| (a, wsum(&red, a))).collect();
                let mut form = Form::new(&cls);
                for &(a, _) in &sums {
                    ensure!(form.sat(&assumps(&vars, a), &[]), "precision {p}: encoding without a bound rejects inputs {:?} (limit {limit:?})", assumps(&vars, a));
                }
                let mut ok = 0;
                for (inr, b) in bounds_to_ask(&sums, total.max(1), None, h.seed).into_iter().map(|b| (in_range(*r, b) && b < full, b)) {
                    let c = e.coarse_ub(b);
                    ensure!(c <= b, "coarse_ub({b}) = {c}");
                    for bb in [b, c] {
                        // the encoding is only valid for the limited range (of full values)
                        if limit.is_some_and(|(lo, hi)| bb * p < lo || bb * p + p - 1 > hi) {
                            continue;
                        }
                        let x = match e.enforce_ub(bb) {
                            Ok(x) => x,
                            Err(err) => {
                                // coarse bounds need not be in the range; bounds beyond it neither
                                ensure!(!inr || bb != b, "precision {p}: bound {bb} was encoded but enforcing it gives {err}");
                                continue;
                            }
                        };
                        if bb == c && c + 1 < total && merged.len() > 1 && c != b && plain {
                            ensure!(x.len() <= 1, "the coarse bound {c} (for {b}) needs {} assumptions", x.len());
                        }
                        for &(a, s) in &sums {
                            let want = s <= bb as u128;
                            let got = form.sat(&assumps(&vars, a), &x);
                            ensure!(got == want, "precision {p}: enforcing <= {bb} for inputs {:?} with reduced sum {s}: {} (limit {limit:?})", assumps(&vars, a), if got { "satisfiable" } else { "unsatisfiable" });
                        }
                        if bb > 0 && bb < total {
                            ok += 1;
                        }
                    }
                }
                if ok > 0 && p > 1 {
                    obs.label("precision-reduced");
                }
                if limit.is_some() {
                    obs.label("limited");
                }
                if ok > 0 {
                    obs.nontrivial();
                }
                obs.label(&format!("levels-{}", levels.min(5)));
                if e.is_max_precision() {
                    obs.label("max-precision");
                }
            }
        }
    }
    Ok(())
}

pub(crate) fn s_dpw(t: Tier) -> BoxedStrategy<DHist> {
    let n = t.pick(5usize, 6);
    let w = prop_oneof![3 => s_weights(n), 2 => vec(prop_oneof![2 => 1usize..=255, 1 => (0u32..8).prop_map(|p| 1 << p)], n)];
    let op = || {
        prop_oneof![
            2 => (0u32..7).prop_map(DOp::Prec),
            4 => Just(DOp::NextPrec),
            6 => (any::<bool>(), prop_oneof![s_range(12), s_range(60), s_range(300)]).prop_map(|(change, r)| DOp::Encode { change, r }),
            1 => Just(DOp::Reserve),
            1 => (0usize..300, 0usize..300).prop_map(|(a, b)| DOp::Limit(a, b)),
        ]
    };
    (w, 0usize..=n, vec(any::<bool>(), n), vec(op(), 1..10), 0u32..2, any::<u32>())
        .prop_map(|(w, k, sg, ops, gap, seed)| DHist { init: (0..k).map(|i| (if sg[i] { -(i as i32 + 1) } else { i as i32 + 1 }, w[i])).collect(), ops, gap, seed: seed.into() })
        .boxed()
}

pub fn c02() -> Prop {
    let st = |t: Tier| {
        let n = t.pick(8, 10);
        bx((0..CARD_FNS.len(), s_kind(), s_lits(n, 0, n as usize), 0i64..=(n as i64 + 3), prop_oneof![3 => Just(0u32), 1 => 1u32..4], 0u32..4)
            .prop_map(|(f, kind, l, bound, gap, pre)| Shot { f, kind, lits: l.into_iter().map(|l| (l, 1)).collect(), bound, gap, pre }))
    };
    Prop {
        id: "C02",
        rule: "Random literal lists (0-8 literals, may repeat or be complementary), all three constraint kinds, bounds from 0 to beyond the number of literals, through the default and generic entry points and every encoding's own constraint encoder. All assignments to the inputs are decided with an independent DPLL solver. Non-trivial: the constraint is neither valid nor unsatisfiable.",
        assumptions: vec!["the harness's own DPLL solver is correct"],
        subs: vec![sub("constr", 1_500_000, 20_000_000, st, card_shot)],
    }
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "Random operation histories (add inputs, encode upper/lower/both bounds of a random range from scratch or as a change, reserve variables, switch to an empty collector) on each cardinality encoding. After every encode, each bound of the requested range is enforced and compared on all input assignments with the arithmetic definition, every other enforceable bound as well. Non-trivial: at least one bound strictly between 0 and the number of literals was enforced over at least two variables.",
        assumptions: vec!["the harness's own DPLL solver is correct"],
        subs: vec![sub("history", 300_000, 4_000_000, |t| s_hist(CARD, false, t.pick(6, 7), t.pick(6, 10)), |h, o| run_hist(CARD, h, true, o))],
    }
}

pub fn c04() -> Prop {
    let st = |t: Tier| {
        let n = t.pick(6i32, 8);
        bx((0..PB_FNS.len(), s_kind(), s_lits(n, 0, n as usize), s_weights(n as usize), vec(prop_oneof![8 => Just(1isize), 3 => Just(-1isize), 1 => Just(0isize)], n as usize), -20i64..140, 0u8..3, prop_oneof![3 => Just(0u32), 1 => 1u32..4], 0u32..4)
            .prop_map(|(f, kind, l, w, sg, b, mode, gap, pre)| {
                let lits: Vec<(i32, isize)> = l.into_iter().zip(w).zip(sg).map(|((l, w), s)| (l, w as isize * s)).collect();
                // most bounds should be within what is reachable
                let lo: i64 = lits.iter().map(|x| x.1.min(0) as i64).sum();
                let hi: i64 = lits.iter().map(|x| x.1.max(0) as i64).sum();
                let bound = if mode == 0 { b } else { lo - 1 + (b + 20).rem_euclid(hi - lo + 3) };
                Shot { f, kind, lits, bound, gap, pre }
            }))
    };
    Prop {
        id: "C04",
        rule: "Random weighted literal lists (0-6 literals, may repeat or be complementary; positive, negative and zero coefficients with structured weights), all constraint kinds, bounds around and beyond the reachable sums, through the default and generic entry points and every encoding's own constraint encoder. All assignments to the inputs are decided with an independent DPLL solver. Non-trivial: the constraint is neither valid nor unsatisfiable.",
        assumptions: vec!["the harness's own DPLL solver is correct"],
        subs: vec![sub("constr", 1_000_000, 10_000_000, st, pb_shot)],
    }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "Random operation histories (add weighted inputs, encode upper/lower/both bounds of a random range from scratch or as a change, reserve variables, switch to an empty collector) on each pseudo-Boolean encoding and simulator. After every encode, bounds of the requested range are enforced and compared on all input assignments with the arithmetic definition, every other enforceable bound as well. Non-trivial: at least one bound strictly between 0 and the weight sum was enforced over at least two variables.",
        assumptions: vec!["the harness's own DPLL solver is correct"],
        subs: vec![sub("history", 60_000, 1_000_000, |t| s_hist(PB, true, t.pick(5, 6), t.pick(5, 8)), |h, o| run_hist(PB, h, false, o)), sub("history-strict", 0, 0, |_| s_hist(PB, true, 3, 3), |h, o| run_hist(PB, h, true, o)), sub("dpw", 150_000, 2_000_000, s_dpw, run_dpw)],
    }
}
