//! C31: problem encodings of the `encodings` tool

use crate::conv::{s_io, Io};
use crate::mo::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vcore::*;

/// Runs `encodings`; the arguments before and after the place of the output path, then the input
fn enc(pre: &[String], io: Io, text: Option<&str>, out_name: &str) -> Result<(Run, Option<String>), Fail> {
    let d = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let (i, o) = (d.path().join("in.dat"), d.path().join(out_name));
    let mut args: Vec<String> = vec![];
    if io == Io::Files {
        args.push(o.display().to_string());
    }
    args.extend(pre.iter().cloned());
    let mut stdin = None;
    if let Some(t) = text {
        if io == Io::Pipes {
            stdin = Some(t);
        } else {
            put(&i, t)?;
            args.push(i.display().to_string());
        }
    }
    let r = tool("encodings", &args, stdin)?;
    if io == Io::Files {
        let t = if o.exists() { Some(get(&o)?) } else { None };
        return Ok((r, t));
    }
    let t = r.out.clone();
    Ok((r, Some(t)))
}

/// how the output is asked for
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Out {
    cnf: bool,
    single: bool,
    f: Option<u8>,
    noneg: bool,
    io: Io,
}

fn s_out() -> BoxedStrategy<Out> {
    (any::<bool>(), any::<bool>(), proptest::option::weighted(0.4, 0u8..6), any::<bool>(), s_io()).prop_map(|(cnf, single, f, noneg, io)| Out { cnf, single, f, noneg, io }).boxed()
}

impl Out {
    fn args(&self) -> Vec<String> {
        if self.cnf {
            let mut v = vec!["cnf".to_string()];
            if self.single {
                v.push("-s".into());
            }
            return v;
        }
        let mut v = vec!["pb".to_string()];
        if let Some(f) = self.f {
            v.push(format!("--first-var-idx={f}"));
        }
        if self.noneg {
            v.push("--avoid-negated-lits".into());
        }
        v
    }
    fn parse(&self, t: &str, n: usize) -> Result<Mo, String> {
        if self.cnf {
            return if self.single { from_wcnf(t) } else { from_mcnf(t) };
        }
        let m = from_opb(t, self.f.unwrap_or(1) as usize)?;
        if self.noneg && t.contains('~') {
            return Err("negated literals are used".into());
        }
        let hint = t.lines().next().unwrap_or("").replace(' ', "");
        let want = format!("*#variable={n}#constraint={}", m.hard.len());
        if hint != want {
            return Err(format!("the first line is '{hint}' instead of '{want}'"));
        }
        Ok(m)
    }
}

/// noise in a line based format: comments, blank lines, spaces
fn noisy(lines: &[String], noise: u64, cm: &str, trail: bool) -> String {
    let mut s = String::new();
    let mut x = noise;
    for l in lines {
        let k = x % 8;
        x = x / 8 ^ noise.rotate_left(23);
        match if noise == 0 { 0 } else { k } {
            1 => s += &format!("{cm} a comment 5 [1, 2]\n{l}\n"),
            2 => s += &format!("\n{l}\n"),
            3 => s += &format!("  {l}\n"),
            4 => s += &format!("{l}  \n"),
            5 if trail => s += &format!("{l} {cm} comment\n"),
            6 => s += &format!("   \n {cm}{cm}\n{l}\n"),
            _ => s += &format!("{l}\n"),
        }
    }
    s
}

/// a text file may end without a newline
fn unended(mut s: String, noise: u64) -> String {
    if noise % 5 == 4 {
        s.pop();
    }
    s
}

fn list(v: &[u64], noise: u64) -> String {
    let sep = if noise % 3 == 0 { "," } else { ", " };
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep))
}

fn s_val() -> BoxedStrategy<u64> {
    prop_oneof![6 => 1u64..12, 1 => Just(0u64), 1 => 100u64..5000].boxed()
}

// ---------------------------------------------------------------- knapsack

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Knap {
    vopt: bool,
    weights: Vec<u64>,
    values: Vec<Vec<u64>>,
    cap: u64,
    noise: u64,
    out: Out,
}

fn s_knap(_: Tier) -> BoxedStrategy<Knap> {
    (1usize..=5, 1usize..=3)
        .prop_flat_map(|(n, k)| {
            (
                any::<bool>(),
                proptest::collection::vec(prop_oneof![6 => 1u64..9, 1 => Just(0u64)], n),
                proptest::collection::vec(proptest::collection::vec(s_val(), n), k),
                0u64..40,
                prop_oneof![Just(0u64), any::<u64>()],
                s_out(),
            )
        })
        .prop_map(|(vopt, weights, values, cap, noise, out)| Knap { vopt, weights, values, cap, noise, out })
        .boxed()
}

fn knap_model(w: &[u64], vals: &[Vec<u64>], cap: u64) -> Mo {
    Mo {
        hard: vec![Con { t: w.iter().enumerate().map(|(i, &w)| (w as i64, i as i32 + 1)).collect(), op: Op::Le, rhs: cap as i64, is_clause: false }],
        objs: vals.iter().map(|v| Obj { softs: v.iter().enumerate().map(|(i, &v)| (vec![i as i32 + 1], v as i64)).collect(), ..Obj::default() }).collect(),
    }
}

/// sums the objectives up, if asked for
fn merged(mut m: Mo, single: bool) -> Mo {
    if single {
        let mut o = Obj::default();
        for x in m.objs {
            o.softs.extend(x.softs);
            o.lin.extend(x.lin);
            o.off += x.off;
        }
        m.objs = vec![o];
    }
    m
}

fn knap_text(c: &Knap) -> String {
    if c.vopt {
        let mut l = vec![c.weights.len().to_string(), c.values.len().to_string(), "1".into()];
        l.extend(c.values.iter().flatten().chain(&c.weights).map(|x| x.to_string()));
        l.push(c.cap.to_string());
        unended(noisy(&l, c.noise, "#", true), c.noise)
    } else {
        let mut l = vec![c.values.len().to_string(), c.weights.len().to_string(), c.cap.to_string()];
        let k = c.values.len();
        for (i, v) in c.values.iter().enumerate() {
            l.push(format!("{}{}{}", if i == 0 { "[" } else { "" }, list(v, c.noise), if i + 1 == k { "]" } else { "," }));
        }
        let mut s = noisy(&l[..3], c.noise, "#", true);
        s += &noisy(&l[3..], c.noise / 3, "#", false);
        s += &unended(noisy(&[list(&c.weights, c.noise)], c.noise / 5, "#", false), c.noise);
        s
    }
}

fn check_knap(c: &Knap, o: &mut Obs) -> CheckResult {
    let text = knap_text(c);
    let mut args = c.out.args();
    args.extend(["knapsack", "input"].map(String::from));
    args.push(format!("--in-format={}", if c.vopt { "v-opt-lib" } else { "moo-library" }));
    let (r, t) = enc(&args, c.out.io, Some(&text), "out.txt")?;
    ensure!(r.code == Some(0), "encodings {args:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("encodings {args:?} writes\n{t}for\n{text}{e}"));
    let n = c.weights.len();
    let out = c.out.parse(&t, n).map_err(ctx)?;
    judge(&merged(knap_model(&c.weights, &c.values, c.cap), c.out.cnf && c.out.single), &out, n, o).map_err(|e| ctx(e.0))?;
    let s: u64 = c.weights.iter().sum();
    if s > c.cap && c.cap > 0 {
        o.nontrivial();
    }
    o.label(format!("{} {}", if c.vopt { "vOptLib" } else { "MOO-Library" }, if c.out.cnf { "cnf" } else { "pb" }));
    Ok(())
}

// ---------------------------------------------------------------- random knapsack

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rnd {
    n: usize,
    k: usize,
    w: (u64, u64),
    v: (u64, u64),
    frac: u64,
    seed: u64,
    io: Io,
    single: bool,
}

fn s_rnd(_: Tier) -> BoxedStrategy<Rnd> {
    (1usize..=5, 1usize..=3, (1u64..10, 1u64..9), (1u64..20, 1u64..30), 1u64..5, any::<u64>(), s_io(), any::<bool>())
        .prop_map(|(n, k, w, v, frac, seed, io, single)| Rnd { n, k, w: (w.0, w.0 + w.1), v: (v.0, v.0 + v.1), frac, seed, io, single })
        .boxed()
}

fn check_rnd(c: &Rnd, o: &mut Obs) -> CheckResult {
    let base: Vec<String> = vec![
        "knapsack".into(),
        "random".into(),
        format!("--n-items={}", c.n),
        format!("--n-objectives={}", c.k),
        format!("--min-weight={}", c.w.0),
        format!("--max-weight={}", c.w.1),
        format!("--min-value={}", c.v.0),
        format!("--max-value={}", c.v.1),
        format!("--cap-fraction={}", c.frac),
        format!("--seed={}", c.seed),
    ];
    let run = |out: &Out| -> Result<(Mo, String), Fail> {
        let mut args = out.args();
        args.extend(base.iter().cloned());
        let (r, t) = enc(&args, c.io, None, "out.txt")?;
        ensure!(r.code == Some(0), "encodings {args:?} ends with {:?} ({})", r.code, r.err);
        let t = t.ok_or("no output file")?;
        Ok((out.parse(&t, c.n).map_err(|e| Fail(format!("encodings {args:?} writes\n{t}{e}")))?, t))
    };
    let pb = Out { cnf: false, single: false, f: None, noneg: false, io: c.io };
    let (m, t) = run(&pb)?;
    ensure!(run(&pb)?.1 == t, "two runs of {base:?} differ");
    ensure!(m.hard.len() == 1 && m.objs.len() == c.k, "{base:?} writes {} constraints and {} objectives\n{t}", m.hard.len(), m.objs.len());
    // weights and values as the costs and sums of single items
    let none = bits(c.n, 0);
    let h = &m.hard[0];
    let lhs = |a: &[bool]| -> i64 { h.t.iter().map(|&(w, l)| if tv(l, a) { w } else { 0 }).sum() };
    let sg = if h.op == Op::Ge { -1 } else { 1 };
    ensure!(h.op != Op::Eq, "the capacity is an equality\n{t}");
    let mut weights = vec![];
    for i in 0..c.n {
        let a = bits(c.n, 1 << i);
        let w = sg * (lhs(&a) - lhs(&none));
        ensure!((c.w.0 as i64..=c.w.1 as i64).contains(&w), "weight {w} of item {i} is not in {:?}\n{t}", c.w);
        weights.push(w as u64);
    }
    let cap = sg * (h.rhs - lhs(&none));
    let want = weights.iter().sum::<u64>() / c.frac;
    ensure!(cap == want as i64, "capacity {cap} for weights {weights:?} and fraction {}, expected {want}\n{t}", c.frac);
    let mut values = vec![];
    for ob in &m.objs {
        let mut row = vec![];
        for i in 0..c.n {
            let v = ob.cost(&none) - ob.cost(&bits(c.n, 1 << i));
            ensure!((c.v.0 as i64..=c.v.1 as i64).contains(&v), "value {v} of item {i} is not in {:?}\n{t}", c.v);
            row.push(v as u64);
        }
        values.push(row);
    }
    let cnf = Out { cnf: true, single: c.single, ..pb };
    let (m2, t2) = run(&cnf)?;
    judge(&merged(knap_model(&weights, &values, want), c.single), &m2, c.n, o).map_err(|e| Fail(format!("for {base:?} the PB and CNF encodings differ\n{t}{t2}{}", e.0)))?;
    if c.n > 1 && c.frac > 1 {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- assignment

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asg {
    /// objective, task, agent
    costs: Vec<Vec<Vec<u64>>>,
    noise: u64,
    layout: u8,
    out: Out,
}

fn s_asg(_: Tier) -> BoxedStrategy<Asg> {
    (1usize..=3, 1usize..=3)
        .prop_flat_map(|(n, k)| {
            let row = proptest::collection::vec(s_val(), n);
            (proptest::collection::vec(proptest::collection::vec(row, n), k), prop_oneof![Just(0u64), any::<u64>()], 0u8..3, s_out())
        })
        .prop_map(|(costs, noise, layout, mut out)| {
            out.cnf = false;
            Asg { costs, noise, layout, out }
        })
        .boxed()
}

fn asg_text(c: &Asg) -> String {
    let (k, n) = (c.costs.len(), c.costs[0].len());
    let mut l: Vec<String> = vec![];
    for (i, m) in c.costs.iter().enumerate() {
        for (j, r) in m.iter().enumerate() {
            let mut s = String::new();
            if i == 0 && j == 0 {
                s.push('[');
            }
            if j == 0 {
                s.push('[');
            }
            s += &list(r, c.noise);
            if j + 1 < n {
                s.push(',');
                l.push(s);
                continue;
            }
            s.push(']');
            let last = if i + 1 < k { "," } else { "]" };
            match c.layout {
                0 => {
                    l.push(s);
                    l.push(last.into());
                }
                1 => l.push(s + last),
                _ => {
                    // closing bracket on its own line
                    s.pop();
                    l.push(s);
                    l.push("]".to_string() + last);
                }
            }
        }
    }
    unended(noisy(&[k.to_string(), n.to_string()], c.noise, "#", true) + &noisy(&l, c.noise / 3, "#", true), c.noise)
}

fn check_asg(c: &Asg, o: &mut Obs) -> CheckResult {
    let text = asg_text(c);
    let n = c.costs[0].len();
    let mut args = c.out.args();
    args.push("assignment".into());
    let (r, t) = enc(&args, c.out.io, Some(&text), "out.txt")?;
    ensure!(r.code == Some(0), "encodings {args:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("encodings {args:?} writes\n{t}for\n{text}{e}"));
    let out = c.out.parse(&t, n * n).map_err(ctx)?;
    let x = |t: usize, a: usize| (t * n + a) as i32 + 1;
    let mut m = Mo::default();
    for i in 0..n {
        m.hard.push(Con { t: (0..n).map(|j| (1, x(i, j))).collect(), op: Op::Eq, rhs: 1, is_clause: false });
        m.hard.push(Con { t: (0..n).map(|j| (1, x(j, i))).collect(), op: Op::Eq, rhs: 1, is_clause: false });
    }
    for co in &c.costs {
        m.objs.push(Obj { lin: (0..n * n).map(|i| (co[i / n][i % n] as i64, x(i / n, i % n))).collect(), ..Obj::default() });
    }
    judge(&m, &out, n * n, o).map_err(|e| ctx(e.0))?;
    if n > 1 {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- facility location

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fac {
    /// objective, customer, facility
    supply: Vec<Vec<Vec<u64>>>,
    /// objective, facility
    open: Vec<Vec<u64>>,
    noise: u64,
    out: Out,
}

fn s_fac(_: Tier) -> BoxedStrategy<Fac> {
    (1usize..=3, 1usize..=3)
        .prop_flat_map(|(cu, fa)| {
            let row = proptest::collection::vec(s_val(), fa);
            (proptest::collection::vec(proptest::collection::vec(row.clone(), cu), 2), proptest::collection::vec(row, 2), any::<u64>(), s_out())
        })
        .prop_map(|(supply, open, noise, mut out)| {
            out.cnf = false;
            Fac { supply, open, noise, out }
        })
        .boxed()
}

fn fac_text(c: &Fac) -> String {
    let mut s = format!("{}\n{}\n", c.supply[0].len(), c.open[0].len());
    let mut x = c.noise;
    let mut row = |r: &[u64]| {
        let sep = ["  ", " ", "\t", "   "][(x % 4) as usize];
        let pre = ["", " ", "", "  "][(x / 4 % 4) as usize];
        let post = ["", "", " ", "\r"][(x / 16 % 4) as usize];
        x = x / 64 ^ c.noise.rotate_left(17);
        format!("{pre}{}{post}\n", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep))
    };
    for m in &c.supply {
        s.push('\n');
        for r in m {
            s += &row(r);
        }
    }
    for r in &c.open {
        s.push('\n');
        s += &row(r);
    }
    s
}

fn check_fac(c: &Fac, o: &mut Obs) -> CheckResult {
    let text = fac_text(c);
    let (cu, fa) = (c.supply[0].len(), c.open[0].len());
    let mut args = c.out.args();
    args.push("facility-location".into());
    let (r, t) = enc(&args, c.out.io, Some(&text), "out.txt")?;
    ensure!(r.code == Some(0), "encodings {args:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("encodings {args:?} writes\n{t}for\n{text}{e}"));
    let n = (cu + 1) * fa;
    let out = c.out.parse(&t, n).map_err(ctx)?;
    let x = |c: usize, f: usize| (c * fa + f) as i32 + 1;
    let y = |f: usize| (cu * fa + f) as i32 + 1;
    let mut m = Mo::default();
    for i in 0..cu {
        m.hard.push(Con { t: (0..fa).map(|j| (1, x(i, j))).collect(), op: Op::Eq, rhs: 1, is_clause: false });
        for j in 0..fa {
            m.hard.push(clause(&[-x(i, j), y(j)]));
        }
    }
    for k in 0..2 {
        let mut lin: Vec<(i64, i32)> = (0..fa).map(|j| (c.open[k][j] as i64, y(j))).collect();
        for i in 0..cu {
            lin.extend((0..fa).map(|j| (c.supply[k][i][j] as i64, x(i, j))));
        }
        m.objs.push(Obj { lin, ..Obj::default() });
    }
    judge(&m, &out, n, o).map_err(|e| ctx(e.0))?;
    if fa > 1 {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- clustering

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clu {
    names: Vec<String>,
    /// node, node, similarity in hundredths
    edges: Vec<(u8, u8, i32)>,
    mult: Option<u16>,
    off: Option<i16>,
    dc: Option<u16>,
    hard: Option<u16>,
    single: u8,
    noise: u64,
    io: Io,
}

fn s_clu(t: Tier) -> BoxedStrategy<Clu> {
    let big = t.pick(4usize, 5);
    let names = prop_oneof![
        Just(["a", "b", "c", "d", "e"].map(String::from).to_vec()),
        Just(["n_1", "2", "x_y_z", "_", "007"].map(String::from).to_vec()),
    ];
    (
        names,
        2usize..=big,
        proptest::collection::vec((any::<u8>(), any::<u8>(), prop_oneof![6 => 0i32..=100, 1 => -100i32..0, 1 => 100i32..300]), 1..9),
        prop_oneof![3 => Just(None), 1 => proptest::sample::select(vec![1u16, 10, 100, 1000, 7]).prop_map(Some)],
        prop_oneof![3 => Just(None), 1 => (-300i16..700).prop_map(Some)],
        prop_oneof![2 => Just(None), 1 => (0u16..300).prop_map(Some)],
        prop_oneof![2 => Just(None), 1 => (0u16..1000).prop_map(Some)],
        0u8..4,
        prop_oneof![Just(0u64), any::<u64>()],
        s_io(),
    )
        .prop_map(|(names, n, edges, mult, off, dc, hard, single, noise, io)| Clu {
            names: names[..n].to_vec(),
            edges: edges.into_iter().map(|(a, b, s)| (a % n as u8, b % n as u8, s)).collect(),
            mult,
            off,
            dc,
            hard,
            single,
            noise,
            io,
        })
        .boxed()
}

fn check_clu(c: &Clu, o: &mut Obs) -> CheckResult {
    let lines: Vec<String> = c.edges.iter().map(|(a, b, s)| format!("{} {} {}", c.names[*a as usize], c.names[*b as usize], *s as f64 / 100.)).collect();
    let text = unended(noisy(&lines, c.noise, "%", false), c.noise);
    let mut used: Vec<u8> = vec![];
    for (a, b, _) in &c.edges {
        for x in [a, b] {
            if !used.contains(x) {
                used.push(*x);
            }
        }
    }
    if used.len() < 2 {
        o.label("single node");
        return Ok(());
    }
    let mut args = vec!["cnf".to_string()];
    if c.single == 1 {
        args.push("-s".into());
    }
    args.push("clustering".into());
    if c.single == 2 {
        args.push("--single-objective".into());
    }
    let single = matches!(c.single, 1 | 2);
    for (k, v) in [("multiplier", c.mult.map(i64::from)), ("offset", c.off.map(i64::from)), ("dont-care", c.dc.map(i64::from)), ("hard-threshold", c.hard.map(i64::from))] {
        if let Some(v) = v {
            args.push(format!("--{k}={v}"));
        }
    }
    let (r, t) = enc(&args, c.io, Some(&text), "out.txt")?;
    ensure!(r.code == Some(0), "encodings {args:?} ends with {:?} ({}) on\n{text}", r.code, r.err);
    let t = t.ok_or("no output file")?;
    let ctx = |e: String| Fail(format!("encodings {args:?} writes\n{t}for\n{text}{e}"));
    let mut out = if single { from_wcnf(&t) } else { from_mcnf(&t) }.map_err(ctx)?;
    let k = if single { 1 } else { 2 };
    if out.objs.len() > k {
        return Err(ctx(format!("{} objectives", out.objs.len())));
    }
    out.objs.resize(k, Obj::default());
    let Some(tab) = table(&out, 0)? else {
        o.label("too many auxiliary variables");
        return Ok(());
    };
    // similarities of pairs, the last one given counts
    let n = used.len();
    let mut sim = vec![vec![None; n]; n];
    for (a, b, s) in &c.edges {
        let (mut i, mut j) = (used.iter().position(|x| x == a).unwrap(), used.iter().position(|x| x == b).unwrap());
        if i > j {
            (i, j) = (j, i);
        }
        if i != j {
            let s = (*s as f64 / 100. * f64::from(c.mult.unwrap_or(1000))).trunc() as i64 - i64::from(c.off.unwrap_or(500));
            sim[i][j] = Some(s);
        }
    }
    let (dc, hard) = (i64::from(c.dc.unwrap_or(1)), i64::from(c.hard.unwrap_or(499)));
    let mut want = BTreeSet::new();
    let mut cl = vec![0usize; n];
    loop {
        let mut cost = [0i64; 2];
        let mut ok = true;
        for i in 0..n {
            for j in i + 1..n {
                let Some(s) = sim[i][j] else { continue };
                if s.abs() < dc {
                    continue;
                }
                let same = cl[i] == cl[j];
                if s.abs() > hard {
                    ok &= same == (s > 0);
                } else if s > 0 && !same {
                    cost[0] += s;
                } else if s <= 0 && same {
                    cost[1] -= s;
                }
            }
        }
        if ok {
            want.insert(if single { vec![cost[0] + cost[1]] } else { cost.to_vec() });
        }
        // next assignment of clusters
        let mut i = 0;
        while i < n {
            cl[i] += 1;
            if cl[i] < n {
                break;
            }
            cl[i] = 0;
            i += 1;
        }
        if i == n {
            break;
        }
    }
    let got = &tab[0];
    if got != &want {
        return Err(ctx(format!("the costs of its solutions are {got:?}, those of the clusterings are {want:?}")));
    }
    if want.len() > 1 {
        o.nontrivial();
    }
    o.label(format!("{n} nodes"));
    if want.is_empty() {
        o.label("contradictory similarities");
    }
    Ok(())
}

// ---------------------------------------------------------------- malformed inputs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    kind: u8,
    text: String,
}

fn s_bad(t: Tier) -> BoxedStrategy<Bad> {
    let base = prop_oneof![
        s_knap(t).prop_map(|k| (if k.vopt { 1u8 } else { 0 }, knap_text(&k))),
        s_asg(t).prop_map(|a| (2u8, asg_text(&a))),
        s_fac(t).prop_map(|f| (3u8, fac_text(&f))),
        proptest::collection::vec("[ab%] [bc] -?[01]\\.[0-9]", 0..4).prop_map(|l| (4u8, l.join("\n"))),
    ];
    let tok = proptest::sample::select(vec!["[", "]", ",", "0", "1", "7", "99999999999999999999", "-3", "x", " ", "\n", "#", "[]", "[[", "]]", "1.5", "\r\n", "%", "é", ", # x\n"]);
    let edit = (any::<proptest::sample::Index>(), 0u8..4, tok);
    (base, proptest::collection::vec(edit, 1..5))
        .prop_map(|((kind, text), edits)| {
            let mut cs: Vec<char> = text.chars().collect();
            for (i, k, t) in edits {
                let i = i.index(cs.len() + 1);
                match k {
                    0 => cs.truncate(i),
                    1 => {
                        if i < cs.len() {
                            cs.remove(i);
                        }
                    }
                    2 => {
                        cs.splice(i..i, t.chars());
                    }
                    _ => {
                        let e = (i + 3).min(cs.len());
                        cs.splice(i..e, t.chars());
                    }
                }
            }
            Bad { kind, text: cs.into_iter().collect() }
        })
        .boxed()
}

fn check_bad(c: &Bad, o: &mut Obs) -> CheckResult {
    // the tables are allocated for the sizes announced, which must fit in memory
    let plain: String = c.text.lines().map(|l| format!("{}\n", l.split('#').next().unwrap())).collect();
    if c.kind < 4 && plain.split(|x: char| !x.is_ascii_digit()).filter(|s| !s.is_empty()).take(3).any(|s| s.len() > 3) {
        o.label("huge sizes, not run");
        return Ok(());
    }
    // sums of values are read as 64-bit signed numbers here
    if c.text.split(|x: char| !x.is_ascii_digit()).any(|s| s.parse::<u64>().is_ok_and(|x| x > 1 << 60)) {
        o.label("huge values, not run");
        return Ok(());
    }
    let args: Vec<String> = match c.kind {
        0 => vec!["pb", "knapsack", "input", "--in-format=moo-library"],
        1 => vec!["pb", "knapsack", "input", "--in-format=v-opt-lib"],
        2 => vec!["pb", "assignment"],
        3 => vec!["pb", "facility-location"],
        _ => vec!["cnf", "clustering"],
    }
    .into_iter()
    .map(String::from)
    .collect();
    let (r, t) = enc(&args, Io::Pipes, Some(&c.text), "")?;
    let t = t.unwrap();
    match r.code {
        Some(0) => {
            let m = if c.kind == 4 { from_mcnf(&t) } else { from_opb(&t, 1) };
            let m = m.map_err(|e| Fail(format!("encodings {args:?} accepts {:?} and writes\n{t}{e}", c.text)))?;
            // all values of an accepted file are there: one cost for each variable (items of weight zero are in no constraint)
            if matches!(c.kind, 0..=3) {
                let nv = m.hard.iter().flat_map(|c| c.vars()).collect::<BTreeSet<_>>();
                let ok = |o: &Obj| o.lin.len() == nv.len() || (c.kind < 2 && o.lin.len() > nv.len() && o.lin.len() == m.objs[0].lin.len());
                ensure!(m.objs.iter().all(ok), "encodings {args:?} accepts {:?} and writes\n{t}", c.text);
            }
            o.label("accepted");
        }
        Some(1) => {
            ensure!(r.err.contains("rror"), "encodings {args:?} rejects {:?} without a message: {}", c.text, r.err);
            o.label("rejected");
            o.nontrivial();
        }
        x => fail!("encodings {args:?} ends with {x:?} on {:?}: {}", c.text, r.err),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Miss {
    kind: u8,
    text: String,
    /// which of the values after the sizes
    at: usize,
    /// removed, or doubled
    extra: bool,
}

fn s_miss(t: Tier) -> BoxedStrategy<Miss> {
    let base = prop_oneof![
        s_knap(t).prop_map(|mut k| {
            k.noise = 0;
            (if k.vopt { 1u8 } else { 0 }, knap_text(&k))
        }),
        s_asg(t).prop_map(|mut a| {
            a.noise = 0;
            (2u8, asg_text(&a))
        }),
        s_fac(t).prop_map(|mut f| {
            f.noise = 0;
            (3u8, fac_text(&f))
        }),
    ];
    (base, 0usize..64, any::<bool>()).prop_map(|((kind, text), at, extra)| Miss { kind, text, at, extra }).boxed()
}

fn check_miss(c: &Miss, o: &mut Obs) -> CheckResult {
    let args: Vec<String> = match c.kind {
        0 => vec!["pb", "knapsack", "input", "--in-format=moo-library"],
        1 => vec!["pb", "knapsack", "input", "--in-format=v-opt-lib"],
        2 => vec!["pb", "assignment"],
        _ => vec!["pb", "facility-location"],
    }
    .into_iter()
    .map(String::from)
    .collect();
    // the numbers of the text
    let mut nums: Vec<(usize, usize)> = vec![];
    let b = c.text.as_bytes();
    for i in 0..b.len() {
        if b[i].is_ascii_digit() {
            match nums.last_mut() {
                Some(l) if l.1 == i => l.1 = i + 1,
                _ => nums.push((i, i + 1)),
            }
        }
    }
    let sizes = if c.kind < 2 { 3 } else { 2 };
    let (s, e) = nums[sizes + c.at % (nums.len() - sizes)];
    // the format of vOptLib and the one for facility location do not say where a file ends
    let extra = c.extra && matches!(c.kind, 0 | 2);
    let text = if extra {
        format!("{}, {}", &c.text[..e], &c.text[s..])
    } else {
        let mut e = e;
        if b[e..].starts_with(b", ") {
            e += 2;
        }
        let t = format!("{}{}", &c.text[..s], &c.text[e..]);
        // no separator is left behind
        t.replace(", ]", "]")
    };
    let (r, t) = enc(&args, Io::Pipes, Some(&text), "")?;
    ensure!(r.code == Some(1), "encodings {args:?} ends with {:?} on\n{text}with {}, {}, and writes\n{}", r.code, if extra { "an additional value" } else { "a missing value" }, r.err, t.unwrap());
    ensure!(r.err.contains("rror"), "encodings {args:?} rejects {text:?} without a message: {}", r.err);
    o.nontrivial();
    o.label(format!("{} {}", if extra { "additional" } else { "missing" }, ["MOO-Library knapsack", "vOptLib knapsack", "assignment", "facility location"][c.kind as usize]));
    Ok(())
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "the capacity excludes something, there are several tasks, facilities or costs of clusterings, or a malformed file is rejected",
        assumptions: vec!["problems of at most 5 items, 3 tasks, 3 customers and facilities, 5 nodes; all solutions are compared", "the tools are built in the debug profile from the working tree"],
        subs: vec![
            sub("knapsack", 4000, 120_000, s_knap, check_knap),
            sub("random-knapsack", 1500, 40_000, s_rnd, check_rnd),
            sub("assignment", 3000, 60_000, s_asg, check_asg),
            sub("facility-location", 2000, 60_000, s_fac, check_fac),
            sub("clustering", 3000, 80_000, s_clu, check_clu),
            sub("missing-value", 3000, 80_000, s_miss, check_miss),
            sub("malformed", 6000, 200_000, s_bad, check_bad),
        ],
    }
}
