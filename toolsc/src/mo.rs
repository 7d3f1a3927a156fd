//! Reference model of (multi-objective) instances, independent of the library: readers and writers
//! of the file formats and a judge comparing two instances by exhaustive search

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vcore::sat::Dpll;
use vcore::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Op {
    Ge,
    Le,
    Eq,
}

/// `sum coef * lit  op  rhs`, literals are non-zero integers
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Con {
    pub t: Vec<(i64, i32)>,
    pub op: Op,
    pub rhs: i64,
    pub is_clause: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Obj {
    /// weighted soft clauses
    pub softs: Vec<(Vec<i32>, i64)>,
    /// linear terms
    pub lin: Vec<(i64, i32)>,
    pub off: i64,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Mo {
    pub hard: Vec<Con>,
    pub objs: Vec<Obj>,
}

pub fn clause(ls: &[i32]) -> Con {
    Con { t: ls.iter().map(|&l| (1, l)).collect(), op: Op::Ge, rhs: 1, is_clause: true }
}

/// truth value of a literal; `a[v]` is the value of variable `v` (index 0 unused)
pub fn tv(l: i32, a: &[bool]) -> bool {
    a[l.unsigned_abs() as usize] == (l > 0)
}

impl Con {
    pub fn ok(&self, a: &[bool]) -> bool {
        let s: i64 = self.t.iter().map(|&(c, l)| if tv(l, a) { c } else { 0 }).sum();
        match self.op {
            Op::Ge => s >= self.rhs,
            Op::Le => s <= self.rhs,
            Op::Eq => s == self.rhs,
        }
    }
    pub fn vars(&self) -> impl Iterator<Item = usize> + '_ {
        self.t.iter().map(|&(_, l)| l.unsigned_abs() as usize)
    }
}

impl Obj {
    pub fn cost(&self, a: &[bool]) -> i64 {
        self.off
            + self.softs.iter().map(|(c, w)| if c.iter().any(|&l| tv(l, a)) { 0 } else { *w }).sum::<i64>()
            + self.lin.iter().map(|&(c, l)| if tv(l, a) { c } else { 0 }).sum::<i64>()
    }
    pub fn vars(&self) -> impl Iterator<Item = usize> + '_ {
        let a = self.softs.iter().flat_map(|(c, _)| c.iter()).map(|l| l.unsigned_abs() as usize);
        a.chain(self.lin.iter().map(|&(_, l)| l.unsigned_abs() as usize))
    }
}

impl Mo {
    pub fn vars(&self) -> BTreeSet<usize> {
        let a = self.hard.iter().flat_map(|c| c.vars());
        a.chain(self.objs.iter().flat_map(|o| o.vars())).collect()
    }
    pub fn max_var(&self) -> usize {
        self.vars().last().copied().unwrap_or(0)
    }
    pub fn feas(&self, a: &[bool]) -> bool {
        self.hard.iter().all(|c| c.ok(a))
    }
    pub fn costs(&self, a: &[bool]) -> Vec<i64> {
        self.objs.iter().map(|o| o.cost(a)).collect()
    }
    pub fn map_vars(&mut self, f: &dyn Fn(i32) -> i32) {
        for c in &mut self.hard {
            for t in &mut c.t {
                t.1 = f(t.1);
            }
        }
        for o in &mut self.objs {
            for (c, _) in &mut o.softs {
                for l in c {
                    *l = f(*l);
                }
            }
            for t in &mut o.lin {
                t.1 = f(t.1);
            }
        }
    }
}

pub fn bits(n: usize, m: u64) -> Vec<bool> {
    let mut a = vec![false; n + 1];
    for (i, x) in a.iter_mut().enumerate().skip(1) {
        *x = i <= 64 && m >> (i - 1) & 1 == 1;
    }
    a
}

/// For every assignment of the variables `1..=n`: `None` if it cannot be extended to a solution, or
/// all cost vectors of its extensions (one representative search per value of the auxiliary
/// variables in objectives). Fails if the search is too big.
pub fn table(m: &Mo, n: usize) -> Result<Option<Vec<BTreeSet<Vec<i64>>>>, String> {
    let mv = m.max_var().max(n);
    let oaux: BTreeSet<usize> = m.objs.iter().flat_map(|o| o.vars()).filter(|&v| v > n).collect();
    let oaux: Vec<usize> = oaux.into_iter().collect();
    let clausal = m.hard.iter().all(|c| c.op == Op::Ge && c.rhs == 1 && c.t.iter().all(|t| t.0 == 1));
    let mut res = vec![BTreeSet::new(); 1 << n];
    if mv <= 14 {
        for x in 0..1u64 << mv {
            let a = bits(mv, x);
            if m.feas(&a) {
                res[(x & ((1 << n) - 1)) as usize].insert(m.costs(&a));
            }
        }
        return Ok(Some(res));
    }
    if !clausal {
        // auxiliary variables not in objectives are only searched by propagation for clauses
        return Ok(None);
    }
    if n + oaux.len() > 12 {
        return Ok(None);
    }
    let cls: Vec<Vec<i32>> = m.hard.iter().map(|c| c.t.iter().map(|t| t.1).collect()).collect();
    let mut d = Dpll::new(&cls);
    for x in 0..1u64 << n {
        for y in 0..1u64 << oaux.len() {
            let mut a = bits(mv, x);
            let mut asm: Vec<i32> = (1..=n as i32).map(|v| if a[v as usize] { v } else { -v }).collect();
            for (i, &v) in oaux.iter().enumerate() {
                a[v] = y >> i & 1 == 1;
                asm.push(if a[v] { v as i32 } else { -(v as i32) });
            }
            if d.solve(&asm).is_some() {
                res[x as usize].insert(m.costs(&a));
            }
        }
    }
    Ok(Some(res))
}

/// The output must have exactly the solutions of the original over its variables `1..=n`, each with
/// an extension of exactly the original costs and none cheaper in any objective
pub fn judge(orig: &Mo, out: &Mo, n: usize, o: &mut Obs) -> CheckResult {
    ensure!(orig.objs.len() == out.objs.len(), "{} objectives became {}", orig.objs.len(), out.objs.len());
    let Some(t) = table(out, n)? else {
        o.label("too many auxiliary variables");
        return Ok(());
    };
    for (x, got) in t.iter().enumerate() {
        let a = bits(n.max(orig.max_var()), x as u64);
        let f = orig.feas(&a);
        ensure!(f != got.is_empty(), "assignment {:?} is {} in the original and {} in the output", &a[1..], if f { "feasible" } else { "infeasible" }, if f { "infeasible" } else { "feasible" });
        if !f {
            continue;
        }
        let c = orig.costs(&a);
        ensure!(got.contains(&c), "assignment {:?} has costs {c:?}, in the output it has {got:?}", &a[1..]);
        for g in got {
            ensure!(g.iter().zip(&c).all(|(x, y)| x >= y), "assignment {:?} has costs {c:?}, in the output it can have {g:?}", &a[1..]);
        }
        o.label("feasible assignment");
    }
    Ok(())
}

// ---------------------------------------------------------------- formats

fn ls(c: &[i32]) -> String {
    let mut s = String::new();
    for l in c {
        s += &format!("{l} ");
    }
    s + "0"
}

fn cl_of(c: &Con) -> Vec<i32> {
    c.t.iter().map(|t| t.1).collect()
}

pub fn to_cnf(m: &Mo, n: usize) -> String {
    let mut s = format!("p cnf {n} {}\n", m.hard.len());
    for c in &m.hard {
        s += &format!("{}\n", ls(&cl_of(c)));
    }
    s
}

pub fn to_wcnf(m: &Mo) -> String {
    let mut s = String::new();
    for c in &m.hard {
        s += &format!("h {}\n", ls(&cl_of(c)));
    }
    for (c, w) in &m.objs[0].softs {
        s += &format!("{w} {}\n", ls(c));
    }
    s
}

pub fn to_mcnf(m: &Mo) -> String {
    let mut s = String::new();
    for c in &m.hard {
        s += &format!("h {}\n", ls(&cl_of(c)));
    }
    for (i, o) in m.objs.iter().enumerate() {
        for (c, w) in &o.softs {
            s += &format!("o{} {w} {}\n", i + 1, ls(c));
        }
    }
    s
}

fn opb_terms(t: &[(i64, i32)], f: usize) -> String {
    let mut s = String::new();
    for (c, l) in t {
        s += &format!("{c:+} {}x{} ", if *l < 0 { "~" } else { "" }, l.unsigned_abs() as usize - 1 + f);
    }
    s
}

pub fn to_opb(m: &Mo, f: usize) -> String {
    let mut s = format!("* #variable= {} #constraint= {}\n", m.max_var(), m.hard.len());
    for o in &m.objs {
        s += &format!("min: {};\n", opb_terms(&o.lin, f));
    }
    for c in &m.hard {
        let op = match c.op {
            Op::Ge => ">=",
            Op::Le => "<=",
            Op::Eq => "=",
        };
        s += &format!("{}{op} {} ;\n", opb_terms(&c.t, f), c.rhs);
    }
    s
}

fn nums(s: &str) -> Result<Vec<i64>, String> {
    s.split_whitespace().map(|x| x.parse::<i64>().map_err(|e| format!("'{x}' in '{s}': {e}"))).collect()
}

fn cls(s: &str) -> Result<Vec<i32>, String> {
    let mut v = nums(s)?;
    if v.pop() != Some(0) {
        return Err(format!("no final zero in '{s}'"));
    }
    if v.contains(&0) {
        return Err(format!("zero inside '{s}'"));
    }
    Ok(v.into_iter().map(|x| x as i32).collect())
}

pub fn from_cnf(s: &str) -> Result<Mo, String> {
    let mut m = Mo::default();
    let mut head = None;
    for l in s.lines() {
        if l.starts_with('c') || l.trim().is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix("p cnf ") {
            if head.is_some() {
                return Err("second header".into());
            }
            head = Some(nums(r)?);
            continue;
        }
        if head.is_none() {
            return Err(format!("line before the header: '{l}'"));
        }
        m.hard.push(clause(&cls(l)?));
    }
    let h = head.ok_or("no header")?;
    if h.len() != 2 || h[1] as usize != m.hard.len() || (h[0] as usize) < m.max_var() {
        return Err(format!("header {h:?} for {} clauses with largest variable {}", m.hard.len(), m.max_var()));
    }
    Ok(m)
}

pub fn from_wcnf(s: &str) -> Result<Mo, String> {
    let mut m = Mo { objs: vec![Obj::default()], ..Mo::default() };
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("c objective offset: ") {
            m.objs[0].off = r.trim().parse().map_err(|e| format!("{l}: {e}"))?;
        }
        if l.starts_with('c') || l.trim().is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix("h ") {
            m.hard.push(clause(&cls(r)?));
            continue;
        }
        let (w, r) = l.split_once(' ').ok_or(format!("bad line '{l}'"))?;
        m.objs[0].softs.push((cls(r)?, w.parse().map_err(|e| format!("{l}: {e}"))?));
    }
    Ok(m)
}

/// number of objectives is not written explicitly: taken from the offsets comment, if there
pub fn from_mcnf(s: &str) -> Result<Mo, String> {
    let mut m = Mo::default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("c objective offsets: ( ") {
            let offs = nums(r.trim().strip_suffix(')').ok_or(format!("bad comment '{l}'"))?)?;
            m.objs.resize(offs.len().max(m.objs.len()), Obj::default());
            for (o, x) in m.objs.iter_mut().zip(offs) {
                o.off = x;
            }
        }
        if l.starts_with('c') || l.trim().is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix("h ") {
            m.hard.push(clause(&cls(r)?));
            continue;
        }
        let r = l.strip_prefix('o').ok_or(format!("bad line '{l}'"))?.trim_start();
        let (i, r) = r.split_once(' ').ok_or(format!("bad line '{l}'"))?;
        let i: usize = i.parse().map_err(|e| format!("{l}: {e}"))?;
        if i == 0 {
            return Err(format!("objective 0: '{l}'"));
        }
        let (w, r) = r.split_once(' ').ok_or(format!("bad line '{l}'"))?;
        if m.objs.len() < i {
            m.objs.resize(i, Obj::default());
        }
        m.objs[i - 1].softs.push((cls(r)?, w.parse().map_err(|e| format!("{l}: {e}"))?));
    }
    Ok(m)
}

pub fn from_opb(s: &str, f: usize) -> Result<Mo, String> {
    let mut m = Mo::default();
    let term = |s: &str| -> Result<Vec<(i64, i32)>, String> {
        let p: Vec<&str> = s.split_whitespace().collect();
        if p.len() % 2 != 0 {
            return Err(format!("bad sum '{s}'"));
        }
        p.chunks(2)
            .map(|c| {
                let (neg, x) = match c[1].strip_prefix('~') {
                    Some(r) => (true, r),
                    None => (false, c[1]),
                };
                let v: usize = x.strip_prefix('x').ok_or(format!("bad literal in '{s}'"))?.parse().map_err(|e| format!("{s}: {e}"))?;
                if v < f {
                    return Err(format!("variable below the first index in '{s}'"));
                }
                let v = (v - f + 1) as i32;
                Ok((c[0].parse().map_err(|e| format!("'{s}': {e}"))?, if neg { -v } else { v }))
            })
            .collect()
    };
    for l in s.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("* objective offset for previous objective: ") {
            m.objs.last_mut().ok_or("offset before the first objective")?.off = r.trim().parse().map_err(|e| format!("{l}: {e}"))?;
        }
        if l.starts_with('*') || l.is_empty() {
            continue;
        }
        let l = l.strip_suffix(';').ok_or(format!("no semicolon: '{l}'"))?;
        if let Some(r) = l.strip_prefix("min:") {
            m.objs.push(Obj { lin: term(r)?, ..Obj::default() });
            continue;
        }
        let (op, i, k) = if let Some(i) = l.find(">=") {
            (Op::Ge, i, 2)
        } else if let Some(i) = l.find("<=") {
            (Op::Le, i, 2)
        } else if let Some(i) = l.find('=') {
            (Op::Eq, i, 1)
        } else {
            return Err(format!("no operator: '{l}'"));
        };
        let rhs = l[i + k..].trim().parse().map_err(|e| format!("{l}: {e}"))?;
        m.hard.push(Con { t: term(&l[..i])?, op, rhs, is_clause: false });
    }
    Ok(m)
}

/// the matrix formats written by `mo2ilp`
pub fn from_ilp(s: &str, fgt: bool) -> Result<(Mo, usize), String> {
    let mut tk = s.split_whitespace();
    let mut num = || -> Result<i64, String> {
        let x = tk.next().ok_or("file ends early")?;
        if x == "minsum" {
            return Ok(i64::MIN);
        }
        x.parse().map_err(|e| format!("'{x}': {e}"))
    };
    let (n, mm, p) = (num()? as usize, num()? as usize, num()? as usize);
    let mut nz = (0, 0);
    if fgt {
        for _ in 0..p {
            if num()? != i64::MIN {
                return Err("objective type is not minsum".into());
            }
        }
    } else {
        nz = (num()? as usize, num()? as usize);
    }
    let mut m = Mo::default();
    let (mut nzc, mut nzo) = (0, 0);
    for _ in 0..p {
        let mut o = Obj::default();
        for v in 1..=n {
            let c = num()?;
            if c != 0 {
                nzo += 1;
                o.lin.push((c, v as i32));
            }
        }
        m.objs.push(o);
    }
    for _ in 0..mm {
        let mut t = vec![];
        for v in 1..=n {
            let c = num()?;
            if c != 0 {
                nzc += 1;
                t.push((c, v as i32));
            }
        }
        m.hard.push(Con { t, op: Op::Ge, rhs: 0, is_clause: false });
    }
    for c in &mut m.hard {
        c.op = match num()? {
            0 => Op::Ge,
            1 => Op::Le,
            2 => Op::Eq,
            x => return Err(format!("operator {x}")),
        };
        c.rhs = num()?;
    }
    if fgt {
        for want in [0, 1] {
            for _ in 0..n {
                if num()? != want {
                    return Err("variable bounds are not 0 and 1".into());
                }
            }
        }
    } else if nz != (nzc, nzo) {
        return Err(format!("the header announces {nz:?} non-zero coefficients in constraints and objectives, there are {:?}", (nzc, nzo)));
    }
    if num().is_ok() {
        return Err("values after the end".into());
    }
    Ok((m, n))
}

// ---------------------------------------------------------------- generators

/// `k` distinct variables of `1..=n` with signs
pub fn s_lits(n: usize, lo: usize, hi: usize) -> BoxedStrategy<Vec<i32>> {
    let hi = hi.min(n);
    let lo = lo.min(hi);
    (proptest::sample::subsequence((1..=n as i32).collect::<Vec<_>>(), lo..=hi), any::<u16>())
        .prop_map(|(v, s)| v.into_iter().enumerate().map(|(i, x)| if s >> i & 1 == 1 { -x } else { x }).collect())
        .boxed()
}

pub fn s_weight() -> BoxedStrategy<i64> {
    prop_oneof![5 => 1i64..6, 3 => Just(1i64), 2 => 1i64..40, 1 => 1_000i64..2_000_000].boxed()
}

pub fn s_coef() -> BoxedStrategy<i64> {
    (s_weight(), any::<bool>()).prop_map(|(w, s)| if s { -w } else { w }).boxed()
}

pub fn s_clausal(n: usize, nobj: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Mo> {
    let hard = proptest::collection::vec(prop_oneof![12 => s_lits(n, 1, 3), 1 => s_lits(n, 0, 1)], 0..5);
    let soft = proptest::collection::vec((prop_oneof![6 => s_lits(n, 1, 1), 6 => s_lits(n, 1, 3), 1 => s_lits(n, 0, 0)], s_weight()), 0..5);
    (hard, proptest::collection::vec((soft, any::<bool>()), nobj))
        .prop_map(|(h, os)| Mo {
            hard: h.iter().map(|c| clause(c)).collect(),
            objs: os
                .into_iter()
                .map(|(mut softs, unweighted)| {
                    if unweighted {
                        softs.iter_mut().for_each(|s| s.1 = 1);
                    }
                    Obj { softs, ..Obj::default() }
                })
                .collect(),
        })
        .boxed()
}

pub fn s_con(n: usize) -> BoxedStrategy<Con> {
    let op = prop_oneof![3 => Just(Op::Ge), 2 => Just(Op::Le), 2 => Just(Op::Eq)];
    (s_lits(n, 1, 5), prop_oneof![Just(0u8), Just(1), Just(2)], proptest::collection::vec(prop_oneof![3 => 1i64..5, 1 => -4i64..0], 5), op, -3i64..9)
        .prop_map(|(l, k, c, op, r)| match k {
            0 => clause(&l),
            1 => Con { rhs: r.rem_euclid(l.len() as i64 + 2) - 1, t: l.iter().map(|&l| (1, l)).collect(), op, is_clause: false },
            _ => Con { t: l.iter().zip(&c).map(|(&l, &c)| (c, l)).collect(), op, rhs: r, is_clause: false },
        })
        .boxed()
}

pub fn s_pbo(n: usize, nobj: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Mo> {
    let lin = s_lits(n, 1, 5).prop_flat_map(|l| {
        let k = l.len();
        (Just(l), proptest::collection::vec(s_coef(), k), any::<bool>())
            .prop_map(|(l, c, unit)| l.into_iter().zip(c).map(|(l, c)| (if unit { 1 } else { c }, l)).collect::<Vec<_>>())
    });
    (proptest::collection::vec(s_con(n), 0..4), proptest::collection::vec(lin, nobj))
        .prop_map(|(hard, os)| Mo { hard, objs: os.into_iter().map(|lin| Obj { lin, ..Obj::default() }).collect() })
        .boxed()
}

// ---------------------------------------------------------------- running the tools

pub struct Run {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

pub fn tool(name: &str, args: &[String], stdin: Option<&str>) -> Result<Run, Fail> {
    use std::io::Write;
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    // 30 s of processor time are far more than any call needs
    let mut ch = std::process::Command::new("/bin/sh")
        .arg("-c")
        .arg("ulimit -t 30; ulimit -v 4000000; exec \"$0\" \"$@\"")
        .arg(format!("{dir}/debug/{name}"))
        .args(args)
        .stdin(if stdin.is_some() { std::process::Stdio::piped() } else { std::process::Stdio::null() })
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .map_err(|e| Fail(format!("cannot start {name}: {e}")))?;
    if let (Some(mut i), Some(s)) = (ch.stdin.take(), stdin) {
        // inputs are smaller than a pipe buffer
        let _ = i.write_all(s.as_bytes());
    }
    let o = ch.wait_with_output().map_err(|e| Fail(format!("{name}: {e}")))?;
    Ok(Run { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() })
}

/// Writes a file, compressed by the system's tools if the name asks for it
pub fn put(p: &std::path::Path, s: &str) -> Result<(), String> {
    let z = match p.extension().and_then(|e| e.to_str()) {
        Some("gz") => "gzip",
        Some("bz2") => "bzip2",
        Some("xz") => "xz",
        _ => return std::fs::write(p, s).map_err(|e| e.to_string()),
    };
    let plain = p.with_extension("");
    std::fs::write(&plain, s).map_err(|e| e.to_string())?;
    let st = std::process::Command::new(z).arg("-f").arg(&plain).status().map_err(|e| e.to_string())?;
    if st.success() { Ok(()) } else { Err(format!("{z} failed")) }
}

pub fn get(p: &std::path::Path) -> Result<String, String> {
    let z = match p.extension().and_then(|e| e.to_str()) {
        Some("gz") => "gzip",
        Some("bz2") => "bzip2",
        Some("xz") => "xz",
        _ => return std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display())),
    };
    let o = std::process::Command::new(z).arg("-dc").arg(p).output().map_err(|e| e.to_string())?;
    if o.status.success() { Ok(String::from_utf8_lossy(&o.stdout).into()) } else { Err(format!("{z}: {}", String::from_utf8_lossy(&o.stderr))) }
}

/// extension suffix for compression
pub fn zext(z: u8) -> &'static str {
    ["", ".gz", ".bz2", ".xz"][z as usize % 4]
}

pub fn s_z() -> BoxedStrategy<u8> {
    prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)].boxed()
}
