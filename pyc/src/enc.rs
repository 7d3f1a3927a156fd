//! The encodings of the Python API: histories, every bound on every assignment

use crate::py::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use vcore::sat::Dpll;
use vcore::*;

fn cnf(r: &Res, what: &str) -> Result<Vec<Vec<i32>>, Fail> {
    let v = r.ok(what)?;
    let f = v["f"].as_array().ok_or(Fail(format!("{what} returns {v}")))?;
    Ok(f.iter().map(|c| c.as_array().map(|c| c.iter().map(|x| x.as_i64().unwrap_or(0) as i32).collect()).unwrap_or_default()).collect())
}

fn s_lits(n: usize) -> BoxedStrategy<Vec<i32>> {
    let l = (1i32..=6, any::<bool>()).prop_map(|(v, s)| if s { -v } else { v });
    prop_oneof![
        3 => proptest::collection::vec(l, 0..n),
        5 => (proptest::sample::subsequence(vec![1i32, 2, 3, 4, 5, 6], 0..=n.min(6)), any::<u8>()).prop_map(|(v, s)| v.into_iter().map(|x| if s >> x & 1 == 1 { -x } else { x }).collect()),
    ]
    .boxed()
}

const NV: usize = 6;

fn assumps(bits: u32) -> Vec<i32> {
    (1..=NV as i32).map(|v| if bits >> (v - 1) & 1 == 1 { v } else { -v }).collect()
}

// ---------------------------------------------------------------- at most one

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Am1 {
    enc: u8,
    lits: Option<Vec<i32>>,
    base: u32,
    twice: bool,
}

const AM1: [&str; 5] = ["Pairwise", "Ladder", "Bitwise", "Commander", "Bimander"];

fn s_am1(_: Tier) -> BoxedStrategy<Am1> {
    (0u8..5, proptest::option::weighted(0.95, s_lits(9)), prop_oneof![Just(6u32), 7u32..50], any::<bool>()).prop_map(|(enc, lits, base, twice)| Am1 { enc, lits, base, twice }).boxed()
}

fn check_am1(c: &Am1, o: &mut Obs) -> CheckResult {
    let mut p = Prog::default();
    p.new(Some("m"), "VarManager", vec![json!(c.base)], json!({}));
    match &c.lits {
        None => p.new(Some("e"), AM1[c.enc as usize], vec![], json!({})),
        Some(x) => p.new(Some("e"), AM1[c.enc as usize], vec![], json!({ "lits": ls(x) })),
    };
    let n = p.call(None, "e", "n_lits", vec![], json!({}));
    let e = p.call(None, "e", "encode", vec![var("m")], json!({}));
    p.call(None, "m", "n_used", vec![], json!({}));
    p.call(None, "e", "n_clauses", vec![], json!({}));
    p.call(None, "e", "n_vars", vec![], json!({}));
    if c.twice {
        p.new(Some("k"), "VarManager", vec![json!(100)], json!({}));
        p.call(None, "e", "encode", vec![], json!({"var_manager": var("k")}));
    }
    let r = p.run()?;
    let name = AM1[c.enc as usize];
    let lits = c.lits.clone().unwrap_or_default();
    r[n].is(&json!(lits.len()), "n_lits")?;
    let one = |f: &[Vec<i32>], lo: i32, hi: i32| -> CheckResult {
        for x in f.iter().flatten() {
            ensure!(x.unsigned_abs() as usize <= NV || (lo + 1..=hi).contains(&x.abs()), "{name} of {lits:?} uses variable {}, {lo} are used before and {hi} afterwards", x.abs());
        }
        let mut d = Dpll::new(f);
        for b in 0..1u32 << NV {
            let a = assumps(b);
            let t = lits.iter().filter(|l| a.contains(l)).count();
            ensure!(d.solve(&a).is_some() == (t <= 1), "{name} of {lits:?}: {} with {t} literals true under {a:?}: {f:?}", if t <= 1 { "unsatisfiable" } else { "satisfiable" });
        }
        Ok(())
    };
    let f = cnf(&r[e], "encode")?;
    let used = r[e + 1].ok("n_used")?.as_i64().unwrap_or(0) as i32;
    one(&f, c.base as i32, used)?;
    r[e + 2].is(&json!(f.len()), "n_clauses")?;
    r[e + 3].is(&json!(used - c.base as i32), "n_vars")?;
    if c.twice {
        one(&cnf(&r[e + 5], "encode")?, 100, i32::MAX)?;
    }
    if lits.len() > 2 {
        o.nontrivial();
    }
    o.label(name);
    Ok(())
}

// ---------------------------------------------------------------- bounds

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BOp {
    Extend(Vec<(i32, u64)>),
    /// upper, lower, both; bounds
    Encode(u8, u64, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bounds {
    enc: u8,
    lits: Option<Vec<(i32, u64)>>,
    base: u32,
    ops: Vec<BOp>,
}

const ENC: [&str; 4] = ["Totalizer", "GeneralizedTotalizer", "DynamicPolyWatchdog", "BinaryAdder"];

fn s_bounds(t: Tier) -> BoxedStrategy<Bounds> {
    let wl = |n: usize| {
        (s_lits(n), proptest::collection::vec(prop_oneof![4 => 1u64..6, 1 => Just(1u64), 1 => Just(8u64), 1 => 6u64..20], n)).prop_map(|(l, w)| l.into_iter().zip(w).collect::<Vec<_>>())
    };
    let w2 = wl;
    let op = move || {
        prop_oneof![
            1 => w2(4).prop_map(BOp::Extend),
            4 => (0u8..3, 0u64..12, 0u64..8).prop_map(|(k, a, d)| BOp::Encode(k, a, a + d)),
            1 => (0u8..3, 0u64..80, 0u64..80).prop_map(|(k, a, b)| BOp::Encode(k, a, b)),
            1 => (0u8..3, 0u64..12, prop_oneof![Just(1u64 << 40), Just(u64::MAX)]).prop_map(|(k, a, b)| BOp::Encode(k, a, b)),
        ]
    };
    (0u8..4, 0u8..3, proptest::option::weighted(0.9, wl(6)), prop_oneof![Just(6u32), 7u32..40], proptest::collection::vec(op(), 1..t.pick(5, 8)))
        .prop_map(|(enc, pol, lits, base, mut ops)| {
            for o in &mut ops {
                if let BOp::Encode(k, ..) = o {
                    // known finding of C05: the adder mixes up encodings of both polarities over time
                    match enc {
                        1 | 2 => *k = 0,
                        3 => *k = pol.min(1),
                        _ => (),
                    }
                }
            }
            if enc == 2 {
                ops.retain(|o| matches!(o, BOp::Encode(..)));
            }
            Bounds { enc, lits, base, ops }
        })
        .boxed()
}

fn check_bounds(c: &Bounds, o: &mut Obs) -> CheckResult {
    let card = c.enc == 0;
    let name = ENC[c.enc as usize];
    let arg = |v: &[(i32, u64)]| -> Value {
        if card {
            ls(&v.iter().map(|x| x.0).collect::<Vec<_>>())
        } else {
            Value::Array(v.iter().map(|&(x, w)| json!({"t": [l(x.into()), w]})).collect())
        }
    };
    let mut p = Prog::default();
    p.new(Some("m"), "VarManager", vec![json!(c.base)], json!({}));
    let mut lits = c.lits.clone().unwrap_or_default();
    match &c.lits {
        None => p.new(Some("e"), name, vec![], json!({})),
        Some(x) => p.new(Some("e"), name, vec![arg(x)], json!({})),
    };
    struct At {
        lits: Vec<(i32, u64)>,
        op: BOp,
        at: usize,
        /// bound kind, bound, result
        asked: Vec<(u8, u64, usize)>,
        stats: usize,
    }
    let total = |v: &[(i32, u64)]| v.iter().map(|x| if card { 1 } else { x.1 }).sum::<u64>();
    let mut ats = vec![];
    for op in &c.ops {
        let mut asked = vec![];
        let at = match op {
            BOp::Extend(v) => {
                lits.extend(v);
                p.call(None, "e", "extend", vec![arg(v)], json!({}))
            }
            BOp::Encode(k, a, b) => {
                let name = ["encode_ub", "encode_lb", "encode_both"][*k as usize];
                let at = p.call(None, "e", name, vec![json!(a), json!(b), var("m")], json!({}));
                let n = total(&lits);
                // enough bounds in and around the range
                let bs: BTreeSet<u64> = (0..n + 3).filter(|x| *x < 14 || x.abs_diff(*a) < 3 || x.abs_diff(*b) < 3 || x.abs_diff(n) < 3).collect();
                for x in bs {
                    for (j, f) in ["enforce_ub", "enforce_lb", "enforce_eq"].into_iter().enumerate() {
                        if (c.enc == 0 || (c.enc == 3 && j < 2) || j == 0) && (c.enc != 3 || j as u8 == *k) {
                            asked.push((j as u8, x, p.call(None, "e", f, vec![json!(x)], json!({}))));
                        }
                    }
                }
                at
            }
        };
        let stats = p.call(None, "e", "n_clauses", vec![], json!({}));
        p.call(None, "e", "n_vars", vec![], json!({}));
        p.call(None, "m", "n_used", vec![], json!({}));
        p.call(None, "e", if card { "n_lits" } else { "weight_sum" }, vec![], json!({}));
        ats.push(At { lits: lits.clone(), op: op.clone(), at, asked, stats });
    }
    let r = p.run()?;
    let mut f: Vec<Vec<i32>> = vec![];
    for x in &ats {
        let what = format!("{name} of {:?}, {:?}", x.lits, x.op);
        let n = total(&x.lits);
        match &x.op {
            BOp::Extend(_) => {
                r[x.at].is(&Value::Null, &what)?;
            }
            BOp::Encode(k, a, b) => {
                f.extend(cnf(&r[x.at], &what)?);
                let used = r[x.stats + 2].ok("n_used")?.as_i64().unwrap_or(0) as i32;
                ensure!(f.iter().flatten().all(|x| x.unsigned_abs() as usize <= NV || (c.base as i32 + 1..=used).contains(&x.abs())), "{what}: a variable was used that the manager did not give out: {f:?}");
                r[x.stats].is(&json!(f.len()), "n_clauses")?;
                r[x.stats + 1].is(&json!(used - c.base as i32), "n_vars")?;
                let mut d = Dpll::new(&f);
                for (j, bound, at) in &x.asked {
                    let what = format!("{what}, {} {bound}", ["upper bound", "lower bound", "equality"][*j as usize]);
                    let must = a <= bound && bound <= b && (*k == 2 || k == j);
                    let asm: Vec<i32> = match &r[*at] {
                        Res::Exc(e, _) if e == "ValueError" && *j > 0 && *bound > n => continue,
                        Res::Exc(e, m) if must => fail!("{what}: {e}: {m}"),
                        Res::Exc(e, _) if e == "RuntimeError" => continue,
                        e @ Res::Exc(..) => {
                            e.ok(&what)?;
                            continue;
                        }
                        Res::Ok(v) => v.as_array().map(|v| v.iter().map(|x| x["l"].as_i64().unwrap_or(0) as i32).collect()).unwrap_or_default(),
                    };
                    for bits in 0..1u32 << NV {
                        let mut q = assumps(bits);
                        let s: u64 = x.lits.iter().filter(|(l, _)| q.contains(l)).map(|x| if card { 1 } else { x.1 }).sum();
                        let want = match j {
                            0 => s <= *bound,
                            1 => s >= *bound,
                            _ => s == *bound,
                        };
                        let t = q.clone();
                        q.extend(&asm);
                        ensure!(d.solve(&q).is_some() == want, "{what}: sum {s} under {t:?} is {} by {asm:?}", if want { "excluded" } else { "allowed" });
                    }
                    o.count("bounds enforced", 1);
                    if *bound > 0 && *bound < n {
                        o.nontrivial();
                    }
                }
            }
        }
        r[x.stats + 3].is(&json!(if card { x.lits.len() as u64 } else { n }), if card { "n_lits" } else { "weight_sum" })?;
    }
    o.label(name);
    Ok(())
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![sub("am1", 15_000, 200_000, s_am1, check_am1), sub("bounds", 15_000, 200_000, s_bounds, check_bounds)]
}
