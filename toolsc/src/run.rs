//! C27: tools that answer questions about instances

use crate::conv::*;
use crate::mo::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vcore::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct File {
    /// 0 cnf, 1 wcnf, 2 mcnf, 3 opb
    kind: u8,
    n: usize,
    inst: Mo,
    f: Option<u8>,
    z: u8,
    explicit: bool,
}

fn s_file(kinds: &'static [u8], objs: bool) -> BoxedStrategy<File> {
    (proptest::sample::select(kinds), 1usize..=6)
        .prop_flat_map(move |(kind, n)| {
            let k = if objs { 3 } else { 0 };
            let inst = match kind {
                0 => s_clausal(n, 0..=0),
                1 => s_clausal(n, 1..=1),
                2 => s_clausal(n, 0..=3),
                _ => s_pbo(n, 0..=k),
            };
            let f = prop_oneof![3 => Just(None), 2 => (0u8..5).prop_map(Some)];
            (Just(kind), Just(n), inst, f, s_z(), any::<bool>())
        })
        .prop_map(|(kind, n, mut inst, f, z, explicit)| {
            while kind == 2 && inst.objs.last().is_some_and(|o| o.softs.is_empty()) {
                inst.objs.pop();
            }
            File { kind, n, inst, f, z, explicit }
        })
        .boxed()
}

impl File {
    fn ext(&self) -> &'static str {
        ["cnf", "wcnf", "mcnf", "opb"][self.kind as usize]
    }
    fn first(&self) -> usize {
        self.f.unwrap_or(1) as usize
    }
    fn text(&self) -> String {
        match self.kind {
            0 => to_cnf(&self.inst, self.n),
            1 => to_wcnf(&self.inst),
            2 => to_mcnf(&self.inst),
            _ => to_opb(&self.inst, self.first()),
        }
    }
    fn name(&self) -> String {
        format!("in.{}{}", self.ext(), zext(self.z))
    }
    fn opts(&self, fmt: &str, force: bool) -> Vec<String> {
        let mut v = vec![];
        if self.explicit || force {
            v.push(format!("--{fmt}={}", self.ext()));
        }
        if let Some(f) = self.f {
            v.push(format!("--opb-first-var-idx={f}"));
        }
        v
    }
    /// variables the instance knows
    fn vars(&self) -> usize {
        if self.kind == 0 { self.n.max(self.inst.max_var()) } else { self.inst.max_var() }
    }
}

// ---------------------------------------------------------------- check-solution

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sol {
    file: File,
    /// value of each variable: true, false or not given
    vals: Vec<Option<bool>>,
    /// format of the value lines and number of values per line
    style: u8,
    per: u8,
    noise: bool,
    stdin: bool,
    zs: u8,
}

fn s_sol(_: Tier) -> BoxedStrategy<Sol> {
    let vals = prop_oneof![
        4 => proptest::collection::vec(any::<bool>().prop_map(Some), 6),
        1 => proptest::collection::vec(proptest::option::weighted(0.8, any::<bool>()), 6),
    ];
    (s_file(&[0, 1, 2, 3], true), vals, 0u8..3, 1u8..7, any::<bool>(), any::<bool>(), s_z())
        .prop_map(|(file, vals, style, per, noise, stdin, zs)| Sol { file, vals, style, per, noise, stdin, zs })
        .boxed()
}

fn check_sol(c: &Sol, o: &mut Obs) -> CheckResult {
    let d = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let f = &c.file;
    let p = d.path().join(f.name());
    let text = f.text();
    put(&p, &text)?;
    let mut vals: Vec<(usize, Option<bool>)> = c.vals[..f.n].iter().enumerate().map(|(i, &v)| (i + 1, v)).collect();
    let style = if vals.iter().any(|v| v.1.is_none()) { c.style % 2 } else { c.style };
    let mut sol = String::new();
    if c.noise {
        sol += "c a comment with v 1 2 3\ns SATISFIABLE\no 17\n";
    }
    vals.retain(|v| v.1.is_some());
    // a line with the single digit 0 is ambiguous
    let style = if style == 2 && vals.len() < 2 { 0 } else { style };
    let per = if style == 2 && vals.len() % c.per as usize == 1 || style == 2 && c.per == 1 { vals.len() } else { c.per as usize };
    for ch in vals.chunks(per) {
        sol += "v";
        match style {
            0 => ch.iter().for_each(|(v, b)| sol += &format!(" {}", if b.unwrap() { *v as i64 } else { -(*v as i64) })),
            1 => ch.iter().for_each(|(v, b)| sol += &format!(" {}x{v}", if b.unwrap() { "" } else { "-" })),
            _ => {
                sol.push(' ');
                ch.iter().for_each(|(_, b)| sol.push(if b.unwrap() { '1' } else { '0' }))
            }
        }
        sol.push('\n');
    }
    if style == 0 {
        sol += "v 0\n";
    }
    let mut args = f.opts("file-format", false);
    args.push(p.display().to_string());
    let sp = d.path().join(format!("sol.log{}", zext(c.zs)));
    if !c.stdin {
        put(&sp, &sol)?;
        args.push(sp.display().to_string());
    }
    let r = tool("check-solution", &args, c.stdin.then_some(&sol[..]))?;
    let ctx = |e: String| Fail(format!("check-solution {args:?} on\n{text}with solution\n{sol}says {:?} {}{}: {e}", r.code, r.out, r.err));
    // all completions of the values
    let n = f.n.max(f.inst.max_var());
    let free: Vec<usize> = (1..=n).filter(|v| c.vals.get(v - 1).copied().flatten().is_none()).collect();
    let mut feas = vec![];
    let mut costs = BTreeSet::new();
    for x in 0..1u64 << free.len() {
        let mut a = vec![false; n + 1];
        for v in 1..=n {
            a[v] = c.vals.get(v - 1).copied().flatten().unwrap_or(false);
        }
        for (i, &v) in free.iter().enumerate() {
            a[v] = x >> i & 1 == 1;
        }
        feas.push(f.inst.feas(&a));
        costs.insert(f.inst.costs(&a));
    }
    let said = if r.code == Some(1) && r.out.starts_with("unsatisfied constraint: ") {
        false
    } else if r.code == Some(0) && r.out.starts_with("objective values: ") {
        true
    } else {
        return Err(ctx("neither an unsatisfied constraint nor objective values".into()));
    };
    if said && feas.contains(&false) {
        return Err(ctx("accepted, but a constraint is not satisfied".into()));
    }
    // a partial solution can be rejected if some constraint is not satisfied by the given values alone;
    // each clause is satisfied by one literal, sums need all their variables to be certain
    if !said && free.is_empty() && feas[0] {
        return Err(ctx("rejected, but all constraints are satisfied".into()));
    }
    if said && free.is_empty() {
        let got: Vec<i64> = r.out["objective values: ".len()..].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().map_err(|_| ctx(format!("bad value {x}")))).collect::<Result<_, _>>()?;
        if !costs.contains(&got) {
            return Err(ctx(format!("the objective values are {costs:?}")));
        }
    }
    o.label(if said { "accepted" } else { "rejected" });
    o.label(format!("{} objectives", f.inst.objs.len()));
    if !f.inst.hard.is_empty() {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- enumerator

#[derive(Clone, Debug, Serialize, Deserialize)]
struct En {
    file: File,
    stdin: bool,
    until: Option<u8>,
    quiet: bool,
}

fn s_en(_: Tier) -> BoxedStrategy<En> {
    let until = prop_oneof![2 => Just(None), 1 => (1u8..10).prop_map(Some)];
    (s_file(&[0, 1, 2, 3], true), any::<bool>(), until, proptest::bool::weighted(0.2)).prop_map(|(file, stdin, until, quiet)| En { file, stdin, until, quiet }).boxed()
}

fn check_en(c: &En, o: &mut Obs) -> CheckResult {
    let f = &c.file;
    let n = f.vars();
    if n == 0 {
        o.label("no variables");
        return Ok(());
    }
    let text = f.text();
    let mut opts = f.opts("input-format", c.stdin);
    if let Some(k) = c.until {
        opts.push(format!("--enumerate-until={k}"));
    }
    if c.quiet {
        opts.push("--no-objective-values".into());
    }
    let (r, t) = call("enumerator", &opts, if c.stdin { Io::Pipes } else { Io::ToStdout }, &text, &f.name(), "")?;
    let t = t.unwrap();
    let ctx = |e: String| Fail(format!("enumerator {opts:?} on\n{text}says {:?}\n{t}{}: {e}", r.code, r.err));
    if r.code != Some(0) {
        return Err(ctx("failed".into()));
    }
    let mut want = BTreeSet::new();
    for x in 0..1u64 << n {
        let a = bits(n, x);
        if f.inst.feas(&a) {
            want.insert(a[1..].iter().map(|&b| if b { '1' } else { '0' }).collect::<String>());
        }
    }
    let with_o = !c.quiet && !f.inst.objs.is_empty();
    let mut seen = BTreeSet::new();
    let mut lines = t.lines();
    while let Some(mut l) = lines.next() {
        let mut ov = None;
        if with_o {
            let v = l.strip_prefix("o ").ok_or_else(|| ctx(format!("expected objective values: '{l}'")))?;
            ov = Some(v.split_whitespace().map(|x| x.parse::<i64>().map_err(|_| ctx(format!("bad value '{x}'")))).collect::<Result<Vec<_>, _>>()?);
            l = lines.next().ok_or_else(|| ctx("objective values without a solution".into()))?;
        }
        let v = l.strip_prefix("v ").ok_or_else(|| ctx(format!("expected a solution: '{l}'")))?.trim().to_string();
        if !want.contains(&v) {
            return Err(ctx(format!("'{v}' is no solution")));
        }
        let a: Vec<bool> = std::iter::once(false).chain(v.chars().map(|c| c == '1')).collect();
        if let Some(ov) = ov {
            let cs = f.inst.costs(&a);
            if ov != cs {
                return Err(ctx(format!("solution '{v}' has costs {cs:?}")));
            }
        }
        if !seen.insert(v.clone()) {
            return Err(ctx(format!("solution '{v}' is repeated")));
        }
    }
    let exp = c.until.map_or(want.len(), |k| want.len().min(k as usize));
    if seen.len() != exp {
        return Err(ctx(format!("{} solutions, expected {exp} of {}", seen.len(), want.len())));
    }
    o.label(f.ext());
    o.count("solutions", seen.len() as u64);
    if !f.inst.hard.is_empty() && seen.len() > 1 {
        o.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- propagator

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pr {
    file: File,
    stdin: bool,
    assumps: Vec<i32>,
    opb_style: u8,
}

fn s_pr(_: Tier) -> BoxedStrategy<Pr> {
    (s_file(&[0, 0, 3], false), any::<bool>(), s_lits(6, 0, 4), any::<u8>()).prop_map(|(file, stdin, assumps, opb_style)| Pr { file, stdin, assumps, opb_style }).boxed()
}

fn up(cls: &[Vec<i32>], start: &[i32]) -> Option<BTreeSet<i32>> {
    let mut s: BTreeSet<i32> = BTreeSet::new();
    for &l in start {
        if s.contains(&-l) {
            return None;
        }
        s.insert(l);
    }
    loop {
        let mut new = None;
        for c in cls {
            if c.iter().any(|l| s.contains(l)) {
                continue;
            }
            let open: BTreeSet<i32> = c.iter().copied().filter(|l| !s.contains(&-l)).collect();
            match open.len() {
                0 => return None,
                1 => new = open.first().copied(),
                _ => (),
            }
        }
        match new {
            Some(l) => s.insert(l),
            None => return Some(s),
        };
    }
}

fn check_pr(c: &Pr, o: &mut Obs) -> CheckResult {
    let f = &c.file;
    let n = f.vars();
    if n == 0 {
        return Ok(());
    }
    // propagation needs variables the solver knows
    let assumps: Vec<i32> = c.assumps.iter().copied().filter(|l| l.unsigned_abs() as usize <= n).collect();
    let text = f.text();
    let d = tempfile::tempdir().map_err(|e| Fail(e.to_string()))?;
    let p = d.path().join(f.name());
    let mut args = f.opts("input-format", c.stdin);
    let stdin = c.stdin && assumps.is_empty();
    if !stdin {
        put(&p, &text)?;
        args.push("--".into());
        args.push(p.display().to_string());
    }
    for (i, &l) in assumps.iter().enumerate() {
        let v = l.unsigned_abs() as usize;
        args.push(match c.opb_style >> i & 1 {
            1 => format!("{}x{}", if l < 0 { "~" } else { "" }, v - 1 + f.first()),
            _ => l.to_string(),
        });
    }
    let r = tool("propagator", &args, stdin.then_some(&text[..]))?;
    let ctx = |e: String| Fail(format!("propagator {args:?} on\n{text}says {:?} {}{}: {e}", r.code, r.out, r.err));
    // solutions under the assumptions
    let mut sols = vec![];
    for x in 0..1u64 << n {
        let a = bits(n, x);
        if f.inst.feas(&a) && assumps.iter().all(|&l| tv(l, &a)) {
            sols.push(a);
        }
    }
    let cls: Vec<Vec<i32>> = f.inst.hard.iter().map(|c| c.t.iter().map(|t| t.1).collect()).collect();
    if r.code != Some(0) {
        if !r.err.contains("propagated to conflict") {
            return Err(ctx("failed".into()));
        }
        if !sols.is_empty() {
            return Err(ctx("there is no conflict".into()));
        }
        o.label("conflict");
        return Ok(());
    }
    let mut got = BTreeSet::new();
    for x in r.out.trim().split(',').filter(|x| !x.is_empty()) {
        let (neg, v) = match x.strip_prefix('~') {
            Some(v) => (true, v),
            None => (false, x),
        };
        let v: i32 = v.strip_prefix('x').and_then(|v| v.parse().ok()).ok_or_else(|| ctx(format!("bad literal '{x}'")))?;
        got.insert(if neg { -(v + 1) } else { v + 1 });
    }
    for &l in &got {
        if l.unsigned_abs() as usize <= n && sols.iter().any(|a| !tv(l, a)) {
            return Err(ctx(format!("literal {l} is not implied")));
        }
    }
    if f.kind == 0 {
        // clauses: unit propagation is complete, apart from what follows without assumptions
        let base = up(&cls, &[]);
        let all = up(&cls, &assumps);
        match (base, all) {
            (Some(b), Some(s)) => {
                for l in s {
                    if !b.contains(&l) && !assumps.contains(&l) && !got.contains(&l) {
                        return Err(ctx(format!("literal {l} is propagated, but not reported")));
                    }
                }
            }
            (Some(_), None) => return Err(ctx("propagation ends in a conflict, but none is reported".into())),
            _ => return Err(ctx("the clauses alone propagate to a conflict, but none is reported".into())),
        }
    }
    o.count("propagated literals", got.len() as u64);
    if !got.is_empty() {
        o.nontrivial();
    }
    Ok(())
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "the instance has constraints (checking), constraints and several solutions (enumeration), or a literal is propagated",
        assumptions: vec!["instances over at most 6 variables; all assignments are compared", "the tools are built in the debug profile from the working tree"],
        subs: vec![sub("check-solution", 10_000, 300_000, s_sol, check_sol), sub("enumerate", 8000, 200_000, s_en, check_en), sub("propagate", 8000, 200_000, s_pr, check_pr)],
    }
}
