//! C26: the conversion tools keep the meaning of every instance

use crate::mo::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vcore::*;

/// how the tool is called: both files, input file and stdout, stdin and stdout
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Io {
    Files,
    ToStdout,
    Pipes,
}

pub fn s_io() -> BoxedStrategy<Io> {
    prop_oneof![Just(Io::Files), Just(Io::ToStdout), Just(Io::Pipes)].boxed()
}

/// Runs a tool on `text`; the result is the process and the output text
#[allow(clippy::too_many_arguments)]
pub fn call(name: &str, opts: &[String], io: Io, text: &str, in_name: &str, out_name: &str) -> Result<(Run, Option<String>), Fail> {
    let d = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let (i, o) = (d.path().join(in_name), d.path().join(out_name));
    let mut args: Vec<String> = opts.to_vec();
    if io != Io::Pipes {
        put(&i, text)?;
        args.push(i.display().to_string());
    }
    if io == Io::Files {
        args.push(o.display().to_string());
    }
    let r = tool(name, &args, (io == Io::Pipes).then_some(text))?;
    if io == Io::Files {
        let t = if o.exists() { Some(get(&o)?) } else { None };
        return Ok((r, t));
    }
    let t = r.out.clone();
    Ok((r, Some(t)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    tool: u8,
    n: usize,
    inst: Mo,
    /// explicit `--first-var-idx`
    f: Option<u8>,
    noneg: bool,
    io: Io,
    z: (u8, u8),
}

const TOOLS: [&str; 6] = ["cnf2opb", "wcnf2opb", "mcnf2opb", "opb2cnf", "opb2wcnf", "opb2mcnf"];

fn s_conv(t: Tier) -> BoxedStrategy<Conv> {
    let big = t.pick(6usize, 7);
    (0u8..6, 1usize..=big)
        .prop_flat_map(move |(tool, n)| {
            let n = if tool < 3 { n.min(5) } else { n };
            let inst = match tool {
                0 => s_clausal(n, 0..=0),
                1 => s_clausal(n, 1..=1),
                2 => s_clausal(n, 0..=3),
                3 => s_pbo(n, 0..=0),
                4 => s_pbo(n, 1..=1),
                _ => s_pbo(n, 0..=3),
            };
            let f = prop_oneof![3 => Just(None), 1 => Just(Some(0u8)), 1 => Just(Some(1u8)), 1 => (2u8..20).prop_map(Some)];
            (Just(tool), Just(n), inst, f, any::<bool>(), s_io(), (s_z(), s_z()))
        })
        .prop_map(|(tool, n, inst, f, noneg, io, z)| Conv { tool, n, inst, f, noneg, io, z })
        .boxed()
}

fn check_conv(c: &Conv, o: &mut Obs) -> CheckResult {
    let name = TOOLS[c.tool as usize];
    let f = c.f.unwrap_or(1) as usize;
    let mut inst = c.inst.clone();
    let (inf, outf) = name.split_once('2').unwrap();
    if inf == "mcnf" {
        while inst.objs.last().is_some_and(|o| o.softs.is_empty()) {
            inst.objs.pop();
        }
    }
    let text = match inf {
        "cnf" => to_cnf(&inst, c.n),
        "wcnf" => to_wcnf(&inst),
        "mcnf" => to_mcnf(&inst),
        _ => to_opb(&inst, f),
    };
    let mut opts = vec![];
    if let Some(f) = c.f {
        opts.push(format!("--first-var-idx={f}"));
    }
    if c.noneg && outf == "opb" {
        opts.push("--avoid-negated-lits".to_string());
    }
    let (r, t) = call(name, &opts, c.io, &text, &format!("in.{inf}{}", zext(c.z.0)), &format!("out.{outf}{}", zext(c.z.1)))?;
    ensure!(r.code == Some(0), "{name} {opts:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("{name} {opts:?} writes\n{t}for\n{text}{e}"));
    let out = match outf {
        "cnf" => from_cnf(&t),
        "wcnf" => from_wcnf(&t),
        "mcnf" => from_mcnf(&t),
        _ => from_opb(&t, f),
    }
    .map_err(ctx)?;
    if c.noneg && outf == "opb" {
        ensure!(!t.contains('~'), "{name} {opts:?} uses negated literals:\n{t}");
    }
    judge(&inst, &out, inst.max_var(), o).map_err(|e| ctx(e.0))?;
    o.label(name);
    o.label(format!("{:?}", c.io));
    if !inst.hard.is_empty() || inst.objs.iter().any(|o| !o.softs.is_empty() || !o.lin.is_empty()) {
        o.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shuf {
    n: usize,
    kind: u8,
    inst: Mo,
    z: (u8, u8),
}

fn s_shuf(_: Tier) -> BoxedStrategy<Shuf> {
    (1usize..=4, 0u8..3)
        .prop_flat_map(|(n, kind)| {
            let inst = match kind {
                0 => s_clausal(n, 0..=0),
                1 => s_clausal(n, 1..=1),
                _ => s_clausal(n, 1..=3),
            };
            (Just(n), Just(kind), inst, (s_z(), s_z()))
        })
        .prop_map(|(n, kind, inst, z)| Shuf { n, kind, inst, z })
        .boxed()
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut res = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n);
            res.push(q);
        }
    }
    res
}

fn check_shuf(c: &Shuf, o: &mut Obs) -> CheckResult {
    let mut inst = c.inst.clone();
    while c.kind == 2 && inst.objs.last().is_some_and(|o| o.softs.is_empty()) {
        inst.objs.pop();
    }
    let (text, ext) = match c.kind {
        0 => (to_cnf(&inst, c.n), "cnf"),
        1 => (to_wcnf(&inst), "wcnf"),
        _ => (to_mcnf(&inst), "mcnf"),
    };
    let (r, t) = call("shuffledimacs", &[], Io::Files, &text, &format!("in.{ext}{}", zext(c.z.0)), &format!("out.{ext}{}", zext(c.z.1)))?;
    ensure!(r.code == Some(0), "shuffledimacs ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("shuffledimacs writes\n{t}for\n{text}{e}"));
    let out = match c.kind {
        0 => from_cnf(&t),
        1 => from_wcnf(&t),
        _ => from_mcnf(&t),
    }
    .map_err(ctx)?;
    if inst.objs.len() != out.objs.len() {
        return Err(ctx(format!("{} objectives became {}", inst.objs.len(), out.objs.len())));
    }
    let n = if c.kind == 0 { c.n } else { inst.max_var() };
    if out.max_var() > n {
        return Err(ctx(format!("variable {} is new", out.max_var())));
    }
    let ok = perms(n).into_iter().any(|p| {
        let mut m = inst.clone();
        m.map_vars(&|l| l.signum() * p[l.unsigned_abs() as usize - 1] as i32);
        (0..1u64 << n).all(|x| {
            let a = bits(n, x);
            m.feas(&a) == out.feas(&a) && m.costs(&a) == out.costs(&a)
        })
    });
    if !ok {
        return Err(ctx("no renaming of the variables explains it".into()));
    }
    if inst.vars().len() > 1 {
        o.nontrivial();
    }
    o.label(ext);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ilp {
    n: usize,
    opb: bool,
    inst: Mo,
    f: Option<u8>,
    fgt: bool,
    unused: u8,
    io: Io,
    z: (u8, u8),
    explicit: bool,
}

fn s_ilp(_: Tier) -> BoxedStrategy<Ilp> {
    (1usize..=5, any::<bool>())
        .prop_flat_map(|(n, opb)| {
            let inst = if opb { s_pbo(n, 0..=3) } else { s_clausal(n.min(4), 0..=2) };
            let f = prop_oneof![2 => Just(None), 2 => (0u8..6).prop_map(Some)];
            (Just(n), Just(opb), inst, f, any::<bool>(), 0u8..4, s_io(), (s_z(), s_z()), any::<bool>())
        })
        .prop_map(|(n, opb, inst, f, fgt, unused, io, z, explicit)| Ilp { n, opb, inst, f, fgt, unused, io, z, explicit })
        .boxed()
}

fn check_ilp(c: &Ilp, o: &mut Obs) -> CheckResult {
    let mut inst = c.inst.clone();
    let f = c.f.unwrap_or(1) as usize;
    if !c.opb {
        while inst.objs.last().is_some_and(|o| o.softs.is_empty()) {
            inst.objs.pop();
        }
    }
    let text = if c.opb { to_opb(&inst, f) } else { to_mcnf(&inst) };
    let mut opts = vec![format!("--output-format={}", if c.fgt { "fgt" } else { "bauss" })];
    if c.explicit || c.io == Io::Pipes {
        opts.push(format!("--input-format={}", if c.opb { "opb" } else { "mcnf" }));
    }
    if let Some(f) = c.f {
        opts.push(format!("--first-var-idx={f}"));
    }
    let unused = ["nothing", "remove", "assign-zero", ""][c.unused as usize];
    if !unused.is_empty() {
        opts.push(format!("--unused-vars={unused}"));
    }
    let (r, t) = call("mo2ilp", &opts, c.io, &text, &format!("in.{}{}", if c.opb { "mopb" } else { "mcnf" }, zext(c.z.0)), &format!("out.ilp{}", zext(c.z.1)))?;
    ensure!(r.code == Some(0), "mo2ilp {opts:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("mo2ilp {opts:?} writes\n{t}for\n{text}{e}"));
    let (out, _) = from_ilp(&t, c.fgt).map_err(ctx)?;
    let used = inst.vars();
    let mut n = inst.max_var();
    match unused {
        "nothing" => (),
        "remove" => {
            let u: Vec<usize> = used.iter().copied().collect();
            n = u.len();
            inst.map_vars(&|l| l.signum() * (1 + u.iter().position(|&v| v == l.unsigned_abs() as usize).unwrap()) as i32);
        }
        _ => {
            for v in 1..=n {
                if !used.contains(&v) {
                    inst.hard.push(clause(&[-(v as i32)]));
                }
            }
        }
    }
    judge(&inst, &out, n, o).map_err(|e| ctx(e.0))?;
    o.label(format!("unused variables: {unused}"));
    if used.len() < n {
        o.label("has unused variables");
    }
    if !inst.hard.is_empty() && !inst.objs.is_empty() {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- gbmosplit

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gb {
    n: usize,
    opb: bool,
    inst: Mo,
    f: Option<u8>,
    /// 0 as input, 1 mcnf, 2 opb
    outf: u8,
    alg: u8,
    combs: Option<u8>,
    dump: bool,
    io: Io,
    explicit: bool,
    z: (u8, u8),
}

/// weights with (nearly) separated levels
fn s_levels() -> BoxedStrategy<Vec<i64>> {
    let lev = (proptest::collection::vec(prop_oneof![3 => Just(1i64), 2 => 1i64..5], 1..4), prop_oneof![3 => Just(1i64), 2 => Just(0), 1 => -1i64..4], prop_oneof![4 => Just(0i64), 1 => 0i64..4], any::<u8>());
    prop_oneof![
        6 => proptest::collection::vec(lev, 1..4).prop_map(|ls| {
            let mut all: Vec<i64> = vec![];
            for (ws, d, e, pos) in ls {
                let s: i64 = all.iter().sum();
                let m = (s + d).max(1);
                let k = pos as usize % ws.len();
                for (i, w) in ws.iter().enumerate() {
                    all.push(w * m + if i == k { e } else { 0 });
                }
            }
            all.truncate(7);
            all
        }),
        1 => proptest::collection::vec(1i64..30, 1..6),
        1 => Just(vec![]),
    ]
    .boxed()
}

fn s_gb(_: Tier) -> BoxedStrategy<Gb> {
    (s_levels(), any::<bool>(), 2usize..=5)
        .prop_flat_map(|(ws, opb, n)| {
            let n = if opb { ws.len().max(2) } else { n };
            let k = ws.len();
            let inst = if opb {
                (proptest::collection::vec(s_con(n.min(5)), 0..3), Just((1..=n as i32).collect::<Vec<_>>()).prop_shuffle(), any::<(u8, u8)>(), Just(ws))
                    .prop_map(|(hard, vs, (s, t), ws)| {
                        let lin = ws.iter().zip(vs).enumerate().map(|(i, (&w, v))| (if s >> i & 1 == 1 { -w } else { w }, if t >> i & 1 == 1 { -v } else { v })).collect();
                        Mo { hard, objs: vec![Obj { lin, ..Obj::default() }] }
                    })
                    .boxed()
            } else {
                (s_clausal(n, 0..=0), proptest::collection::vec(prop_oneof![1 => s_lits(n, 1, 1), 1 => s_lits(n, 1, 3)], k), Just(ws))
                    .prop_map(|(m, cs, ws)| Mo { hard: m.hard, objs: vec![Obj { softs: cs.into_iter().zip(ws).collect(), ..Obj::default() }] })
                    .boxed()
            };
            let f = prop_oneof![2 => Just(None), 1 => (0u8..4).prop_map(Some)];
            (Just(n), Just(opb), inst, f, 0u8..3, 0u8..4, prop_oneof![6 => Just(None), 1 => (1u8..20).prop_map(Some)], any::<bool>(), (s_io(), any::<bool>()), (s_z(), s_z()))
        })
        .prop_map(|(n, opb, inst, f, outf, alg, combs, dump, (io, explicit), z)| Gb { n, opb, inst, f, outf, alg, combs, dump, io, explicit, z })
        .boxed()
}

fn sums(w: &[i64]) -> BTreeSet<i64> {
    let mut s: BTreeSet<i64> = [0].into();
    for &x in w {
        s.extend(s.clone().iter().map(|y| y + x));
    }
    s
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn check_gb(c: &Gb, o: &mut Obs) -> CheckResult {
    let f = c.f.unwrap_or(1) as usize;
    let inst = &c.inst;
    let text = if c.opb { to_opb(inst, f) } else { to_wcnf(inst) };
    let inf = if c.opb { "opb" } else { "wcnf" };
    let mut opts = vec![];
    if c.explicit || c.io == Io::Pipes {
        opts.push(format!("--input-format={inf}"));
    }
    let outf = match c.outf {
        0 if c.opb => "opb",
        0 => "mcnf",
        1 => "mcnf",
        _ => "opb",
    };
    if c.outf != 0 {
        opts.push(format!("--output-format={outf}"));
    } 
    let alg = ["bmo", "gcd", "gbmo", ""][c.alg as usize];
    if !alg.is_empty() {
        opts.push(format!("--split-alg={alg}"));
    }
    if let Some(m) = c.combs {
        opts.push(format!("--max-combs={m}"));
    }
    if let Some(f) = c.f {
        opts.push(format!("--opb-first-var-idx={f}"));
    }
    if c.dump {
        opts.push("-d".into());
    }
    let names = (format!("in.{inf}{}", zext(c.z.0)), format!("out.{outf}{}", zext(c.z.1)));
    let (mut r, mut t) = call("gbmosplit", &opts, c.io, &text, &names.0, &names.1)?;
    ensure!(matches!(r.code, Some(0 | 1)) && !r.err.contains("panicked"), "gbmosplit {opts:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    if r.code == Some(1) && !c.dump {
        let quiet = match c.io {
            Io::Files => t.is_none(),
            _ => !r.out.lines().any(|l| l.starts_with("h ") || l.starts_with('o') || l.starts_with("c ") || l.starts_with("min") || l.starts_with('*')),
        };
        ensure!(quiet, "gbmosplit {opts:?} finds no split, but writes {t:?}{}", r.out);
        opts.push("-d".into());
        let first = r.code;
        (r, t) = call("gbmosplit", &opts, c.io, &text, &names.0, &names.1)?;
        ensure!(r.code == first, "gbmosplit {opts:?} ends with {:?} instead of {first:?} if asked to write on\n{text}", r.code);
    }
    let t = t.ok_or_else(|| Fail(format!("gbmosplit {opts:?} writes no file for\n{text}{}{}", r.out, r.err)))?;
    let ctx = |e: String| Fail(format!("gbmosplit {opts:?} writes\n{t}and says\n{}for\n{text}{e}", if c.io == Io::Files { &r.out } else { "" }));
    let out = if outf == "mcnf" { from_mcnf(&t) } else { from_opb(&t, f) }.map_err(ctx)?;
    // costs of every solution, without constant parts
    let zero = Obj::default();
    let oo = inst.objs.first().unwrap_or(&zero);
    let n = inst.max_var();
    let Some(tab) = table(&out, n)? else {
        o.label("too many auxiliary variables");
        return Ok(());
    };
    let k = out.objs.len();
    if (k > 1) != (r.code == Some(0)) {
        return Err(ctx(format!("exit code {:?} for {k} objectives", r.code)));
    }
    let mut pts: Vec<(i64, Vec<i64>)> = vec![];
    for (x, got) in tab.iter().enumerate() {
        let a = bits(n, x as u64);
        if inst.feas(&a) != !got.is_empty() {
            return Err(ctx(format!("assignment {:?} is feasible in only one of the instances", &a[1..])));
        }
        if got.is_empty() {
            continue;
        }
        let mn: Vec<i64> = (0..k).map(|i| got.iter().map(|g| g[i]).min().unwrap()).collect();
        if !got.contains(&mn) {
            return Err(ctx(format!("assignment {:?} has no cheapest extension: {got:?}", &a[1..])));
        }
        pts.push((oo.cost(&a), mn));
    }
    for (c1, v1) in &pts {
        for (c2, v2) in &pts {
            let lex = v1.iter().rev().cmp(v2.iter().rev());
            if c1.cmp(c2) != lex {
                return Err(ctx(format!("costs {c1} and {c2} became the vectors {v1:?} and {v2:?} (highest objective last)")));
            }
        }
    }
    if c.io == Io::Files {
        let mult: Vec<i64> = r.out.lines().filter_map(|l| l.strip_prefix("multiplier: ")).filter_map(|x| x.trim().parse().ok()).collect();
        if mult.len() != k {
            return Err(ctx(format!("{} multipliers for {k} objectives", mult.len())));
        }
        let dif: BTreeSet<i64> = pts.iter().map(|(c, v)| c - v.iter().zip(&mult).map(|(x, m)| x * m).sum::<i64>()).collect();
        if dif.len() > 1 {
            return Err(ctx(format!("the scaled objectives do not add up to the original one: differences {dif:?}")));
        }
        // split points over the weights, sorted
        let lev: Vec<Vec<i64>> = out
            .objs
            .iter()
            .zip(&mult)
            .map(|(o, m)| {
                let mut v: Vec<i64> = o.softs.iter().map(|s| s.1 * m).chain(o.lin.iter().map(|l| l.0.abs() * m)).collect();
                v.sort();
                v
            })
            .collect();
        let all: Vec<i64> = lev.concat();
        if !all.is_sorted() {
            return Err(ctx(format!("objectives not in the order of their weights: {lev:?}")));
        }
        let mut ends = BTreeSet::new();
        let mut e = 0;
        for l in &lev {
            e += l.len();
            ends.insert(e);
        }
        ends.remove(&all.len());
        let mut bmo = true;
        let mut want_bmo = BTreeSet::new();
        for i in 1..all.len() {
            let left: i64 = all[..i].iter().sum();
            let right = sums(&all[i..]);
            let gap = right.iter().zip(right.iter().skip(1)).map(|(a, b)| b - a).min().unwrap();
            let g = all[i..].iter().fold(0, |g, &w| gcd(w, g));
            let valid = left < gap;
            if all[i] > all[i - 1] {
                if all[i] <= left {
                    bmo = false;
                } else {
                    want_bmo.insert(i);
                }
            }
            if ends.contains(&i) && !valid {
                return Err(ctx(format!("split into {lev:?} after weight {i}, but weights of {left} below can outweigh a difference of {gap} above")));
            }
            let must = match alg {
                "bmo" => false,
                "gcd" => left < g,
                _ => left < g || (c.combs.is_none() && valid),
            };
            if must && !ends.contains(&i) {
                return Err(ctx(format!("the weights {all:?} can be split after weight {i}, but the objectives are {lev:?}")));
            }
            if alg == "gcd" && ends.contains(&i) && left >= g {
                return Err(ctx(format!("split into {lev:?} after weight {i} not found by common divisors")));
            }
            if valid && left >= g {
                o.label("split only by combinations");
            }
        }
        if alg == "bmo" {
            let want = if bmo { want_bmo } else { BTreeSet::new() };
            if want != ends {
                return Err(ctx(format!("levels {lev:?}, expected splits after weights {want:?}")));
            }
        }
    }
    o.label(format!("{k} objectives"));
    o.label(format!("algorithm {alg}"));
    if k > 1 {
        o.nontrivial();
    }
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "the instance has a constraint or an objective (conversions), more than one variable (shuffling), constraints and objectives (matrix formats), or could be split (splitting)",
        assumptions: vec!["instances over at most 7 variables; all assignments are compared", "the tools are built in the debug profile from the working tree"],
        subs: vec![
            sub("convert", 12_000, 400_000, s_conv, check_conv),
            sub("shuffle", 3000, 80_000, s_shuf, check_shuf),
            sub("matrix", 8000, 200_000, s_ilp, check_ilp),
            sub("split", 12_000, 400_000, s_gb, check_gb),
        ],
    }
}
