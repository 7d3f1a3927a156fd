//! C12–C15, C28: reading and writing files
use crate::c_inst::{build_obj, s_oops, OOp};
use crate::c_types::{full, pb_parts};
use crate::common::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rustsat::instances::fio::dimacs::{self, CnfLine, McnfLine, WcnfLine};
use rustsat::instances::fio::opb;
use rustsat::instances::fio::{self, SolverOutput};
use rustsat::instances::*;
use rustsat::types::{Assignment, Lit, TernaryVal, Var};
use serde::{Deserialize, Serialize};
use std::io::{Cursor, Read, Write};
use vcore::*;

type Cls = Vec<Vec<i32>>;

fn tv(b: bool) -> TernaryVal {
    if b {
        TernaryVal::True
    } else {
        TernaryVal::False
    }
}

// ---------- abstract documents ----------
/// Formatting decisions, consumed cyclically; all zeros is the canonical formatting
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Style(Vec<u8>);
struct Sty<'a>(&'a [u8], usize);
impl Sty<'_> {
    fn next(&mut self, n: u8) -> u8 {
        if self.0.is_empty() {
            return 0;
        }
        let b = self.0[self.1 % self.0.len()].wrapping_add((self.1 / self.0.len()) as u8 * u8::from(self.0.iter().any(|b| *b != 0)));
        self.1 += 1;
        b % n
    }
    fn sep(&mut self) -> &'static str {
        ["", " ", " ", "", "\t", "  ", " \t"][self.next(7) as usize]
    }
    fn sep1(&mut self) -> &'static str {
        [" ", " ", "  ", "\t", " \t "][self.next(5) as usize]
    }
    fn eol(&mut self) -> &'static str {
        ["\n", "\n", "\r\n", "\n\n", " \n", "\n\t \n", "\r\n\r\n"][self.next(7) as usize]
    }
}
fn s_style() -> BoxedStrategy<Style> {
    prop_oneof![1 => Just(Style(vec![])), 4 => vec(any::<u8>(), 1..24).prop_map(Style)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Item {
    Cmt(String),
    Hard(Vec<i32>),
    Soft(usize, usize, Vec<i32>),
}
fn s_cmt() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just(String::new()),
        3 => " [ -~]{0,12}",
        1 => Just(" objective offset: 5".to_string()),
        1 => " p cnf 1 1",
        1 => "[a-z0-9äß☃ ]{0,8}",
        1 => Just("\t1 2 0".to_string()),
    ]
    .boxed()
}
fn render_clause(s: &mut String, c: &[i32], st: &mut Sty) {
    for l in c {
        s.push_str(&l.to_string());
        s.push_str(st.sep1());
    }
    // the terminating zero may be missing for non-empty clauses
    if c.is_empty() || st.next(6) != 1 {
        s.push('0');
    } else {
        s.pop();
    }
}
enum Kind {
    Cnf { n: u32, m: usize },
    Pre22 { n: u32, m: usize, top: usize },
    Post22,
    Mcnf,
}
fn render(items: &[Item], lead: &[String], kind: &Kind, st: &mut Sty) -> String {
    let mut s = String::new();
    for c in lead {
        s.push_str(st.sep());
        s.push('c');
        s.push_str(c);
        s.push_str(st.eol());
    }
    if let Kind::Cnf { .. } | Kind::Pre22 { .. } = kind {
        s.push_str(st.sep());
        s.push('p');
        s.push_str(st.sep1());
        let f = match kind {
            Kind::Cnf { n, m } => vec!["cnf".to_string(), n.to_string(), m.to_string()],
            Kind::Pre22 { n, m, top } => vec!["wcnf".to_string(), n.to_string(), m.to_string(), top.to_string()],
            _ => unreachable!(),
        };
        for (i, f) in f.iter().enumerate() {
            if i > 0 {
                s.push_str(st.sep1());
            }
            s.push_str(f);
        }
        s.push_str(st.eol());
    }
    for (i, it) in items.iter().enumerate() {
        s.push_str(st.sep());
        match it {
            Item::Cmt(c) => {
                s.push('c');
                s.push_str(c);
            }
            Item::Hard(c) => {
                match kind {
                    Kind::Cnf { .. } => (),
                    Kind::Pre22 { top, .. } => {
                        s.push_str(&(top + st.next(2) as usize).to_string());
                        s.push_str(st.sep1());
                    }
                    _ => {
                        s.push('h');
                        s.push_str(st.sep1());
                    }
                }
                render_clause(&mut s, c, st);
            }
            Item::Soft(o, w, c) => {
                if let Kind::Mcnf = kind {
                    s.push('o');
                    s.push_str(st.sep());
                    s.push_str(&o.to_string());
                    s.push_str(st.sep1());
                }
                s.push_str(&w.to_string());
                s.push_str(st.sep1());
                render_clause(&mut s, c, st);
            }
        }
        if i + 1 < items.len() || st.next(4) != 1 {
            s.push_str(st.eol());
        }
    }
    s
}

/// Independent reader for the clause formats, used on files written by the library
fn tokenize(text: &str, mo: bool) -> Result<(Vec<String>, Vec<Vec<String>>), String> {
    let mut cm = vec![];
    let mut lines = vec![];
    for l in text.lines() {
        if l.starts_with('c') {
            cm.push(l.to_string());
        } else {
            lines.push(l.split(' ').map(str::to_string).collect::<Vec<_>>());
        }
    }
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the file does not end in a newline".into());
    }
    let _ = mo;
    Ok((cm, lines))
}
fn parse_ints(t: &[String]) -> Result<Vec<i32>, Fail> {
    let mut v = vec![];
    for x in t {
        match x.parse::<i32>() {
            Ok(x) => v.push(x),
            Err(_) => fail!("written token {x:?} is not a literal in {t:?}"),
        }
    }
    match v.pop() {
        Some(0) => (),
        _ => fail!("written clause {t:?} is not terminated"),
    }
    ensure!(!v.contains(&0), "written clause {t:?} contains a zero");
    Ok(v)
}
/// Items of a file written by the library, and the header
fn read_written(text: &str, cnf: bool, mo: bool) -> Result<(Option<(u64, u64)>, Vec<Item>), Fail> {
    let (_, lines) = tokenize(text, mo).map_err(Fail)?;
    let mut head = None;
    let mut items = vec![];
    for l in lines {
        match l[0].as_str() {
            "p" => {
                ensure!(cnf && head.is_none() && items.is_empty() && l.len() == 4 && l[1] == "cnf", "unexpected header {l:?}");
                head = Some((l[2].parse().map_err(|_| Fail(format!("header {l:?}")))?, l[3].parse().map_err(|_| Fail(format!("header {l:?}")))?));
            }
            "h" => {
                ensure!(!cnf, "hard clause marker in CNF");
                items.push(Item::Hard(parse_ints(&l[1..])?));
            }
            "o" => {
                ensure!(mo && l.len() > 3, "unexpected line {l:?}");
                items.push(Item::Soft(l[1].parse().map_err(|_| Fail(format!("{l:?}")))?, l[2].parse().map_err(|_| Fail(format!("{l:?}")))?, parse_ints(&l[3..])?));
            }
            _ if cnf => items.push(Item::Hard(parse_ints(&l)?)),
            w => {
                ensure!(!mo, "unexpected line {l:?}");
                items.push(Item::Soft(1, w.parse().map_err(|_| Fail(format!("{l:?}")))?, parse_ints(&l[1..])?));
            }
        }
    }
    Ok((head, items))
}

fn hards(items: &[Item]) -> Cls {
    items.iter().filter_map(|i| if let Item::Hard(c) = i { Some(c.clone()) } else { None }).collect()
}
fn soft_cost(items: &[Item], obj: usize, a: u64) -> i128 {
    items.iter().map(|i| match i {
        Item::Soft(o, w, c) if *o == obj && !c.iter().any(|l| lit_true(*l, a)) => *w as i128,
        _ => 0,
    }).sum()
}

// ---------- C12: DIMACS ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc {
    n: i32,
    items: Vec<Item>,
    lead: Vec<String>,
    kind: u8,
    hn: u32,
    hm: usize,
    iter: u8,
    style: Style,
}
fn s_item(n: i32, objs: usize, big: bool) -> BoxedStrategy<Item> {
    let l: BoxedStrategy<i32> = if big { prop_oneof![3 => s_lit(9), 1 => s_lit(i32::MAX), 1 => Just(i32::MAX), 1 => Just(-i32::MAX)].boxed() } else { s_lit(n).boxed() };
    let w: BoxedStrategy<usize> = if big { prop_oneof![3 => 0usize..20, 1 => any::<usize>(), 1 => Just(usize::MAX)].boxed() } else { prop_oneof![4 => 0usize..12, 1 => 0usize..1_000_000_000].boxed() };
    prop_oneof![
        4 => vec(l.clone(), 0..=5).prop_map(Item::Hard),
        3 => (1..=objs, w, vec(l, 0..=4)).prop_map(|(o, w, c)| Item::Soft(o, w, c)),
        1 => s_cmt().prop_map(Item::Cmt),
    ]
    .boxed()
}
fn s_doc(t: Tier, big: bool, kinds: u8) -> BoxedStrategy<Doc> {
    let objs = 3;
    (1i32..=4)
        .prop_flat_map(move |n| (Just(n), vec(s_item(n, objs, big), 0..=t.pick(8, 12)), vec(s_cmt(), 0..3), 0..kinds, prop_oneof![4 => 0u32..9, 1 => Just(i32::MAX as u32), 1 => any::<u32>().prop_map(|x| x >> 1)], prop_oneof![3 => 0usize..9, 1 => any::<usize>()], any::<u8>(), s_style()))
        .prop_map(|(n, items, lead, kind, hn, hm, iter, style)| Doc { n, items, lead, kind, hn, hm, iter, style })
        .boxed()
}
fn same_cmt(got: &str, want: &str) -> bool {
    got.trim() == format!("c{want}").trim()
}

fn check_read_cnf(d: &Doc, obs: &mut Obs) -> CheckResult {
    let items: Vec<Item> = d.items.iter().map(|i| if let Item::Soft(_, _, c) = i { Item::Hard(c.clone()) } else { i.clone() }).collect();
    let text = render(&items, &d.lead, &Kind::Cnf { n: d.hn, m: d.hm }, &mut Sty(&d.style.0, 0));
    let cls = hards(&items);
    if cls.len() > 1 && !d.style.0.is_empty() {
        obs.nontrivial();
    }
    let inst = match SatInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)) {
        Ok(i) => i,
        Err(e) => fail!("valid CNF rejected: {e}\n{text:?}"),
    };
    ensure!(icnf(inst.cnf()) == cls, "read {:?} instead of {cls:?} from {text:?}", inst.cnf());
    ensure!(inst.n_cards() == 0 && inst.n_pbs() == 0, "invented constraints");
    ensure!(inst.n_vars() as i64 >= max_var_cls(&cls) as i64, "variables of the file not tracked");
    // streaming
    let mut p = dimacs::Parser::<dimacs::CnfHeader, _>::new(Cursor::new(&text));
    let mut seen = 0;
    let k = if d.iter % 3 == 0 { 0 } else { d.iter as usize % (d.lead.len() + 2) };
    obs.label(format!("header comments read one by one: {}", k > 0));
    for j in 0..k {
        match p.next() {
            Some(Ok(c)) => {
                ensure!(seen < d.lead.len() && same_cmt(&c, &d.lead[seen]), "comment {seen} of the header is {c:?} in {text:?}");
                seen += 1;
            }
            Some(Err(e)) => fail!("valid CNF header rejected: {e}\n{text:?}"),
            None => ensure!(seen == d.lead.len() && j >= seen, "header iteration ended after {seen} comments in {text:?}"),
        }
    }
    let h = match p.forward_to_body() {
        Ok(h) => h,
        Err(e) => fail!("valid CNF header rejected: {e}\n{text:?}"),
    };
    ensure!(h.n_vars == d.hn && h.n_clauses == d.hm, "header {} {} in {text:?}", h.n_vars, h.n_clauses);
    let mut got = vec![];
    for x in h.body_parser {
        match x {
            Ok(dimacs::CnfData::Clause(c)) => got.push(Item::Hard(icl(&c))),
            Ok(dimacs::CnfData::Comment(c)) => got.push(Item::Cmt(c)),
            Err(e) => fail!("valid CNF body rejected: {e}\n{text:?}"),
        }
    }
    same_items(&got, &items, &text)
}
fn same_items(got: &[Item], want: &[Item], text: &str) -> CheckResult {
    ensure!(got.len() == want.len(), "read {got:?} from {text:?}");
    for (g, w) in got.iter().zip(want) {
        let ok = match (g, w) {
            (Item::Cmt(g), Item::Cmt(w)) => same_cmt(g, w),
            (g, w) => g == w,
        };
        ensure!(ok, "read {g:?} instead of {w:?} from {text:?}");
    }
    Ok(())
}
fn wcnf_items(p: impl Iterator<Item = Result<dimacs::WcnfData, fio::Error>>, text: &str) -> Result<Vec<Item>, Fail> {
    let mut got = vec![];
    for x in p {
        match x {
            Ok(dimacs::WcnfData::HardClause(c)) => got.push(Item::Hard(icl(&c))),
            Ok(dimacs::WcnfData::SoftClause { weight, clause }) => got.push(Item::Soft(1, weight, icl(&clause))),
            Ok(dimacs::WcnfData::Comment(c)) => got.push(Item::Cmt(c)),
            Err(e) => fail!("valid WCNF rejected: {e}\n{text:?}"),
        }
    }
    Ok(got)
}
fn check_read_wcnf(d: &Doc, obs: &mut Obs) -> CheckResult {
    let mut items: Vec<Item> = d.items.iter().map(|i| if let Item::Soft(_, w, c) = i { Item::Soft(1, *w, c.clone()) } else { i.clone() }).collect();
    let maxw = items.iter().map(|i| if let Item::Soft(_, w, _) = i { *w } else { 0 }).max().unwrap_or(0);
    let pre = d.kind % 2 == 1 && maxw < usize::MAX - 20;
    obs.label(if pre { "pre 22" } else { "post 22" });
    let kind = if pre { Kind::Pre22 { n: d.hn, m: d.hm, top: maxw + 1 + d.iter as usize / 16 } } else { Kind::Post22 };
    if !pre {
        // comments before the first clause belong to the header
        let k = items.iter().position(|i| !matches!(i, Item::Cmt(_))).unwrap_or(items.len());
        items.drain(..k);
    }
    let text = render(&items, &d.lead, &kind, &mut Sty(&d.style.0, 0));
    if items.len() > 1 && !d.style.0.is_empty() {
        obs.nontrivial();
    }
    let mut p = dimacs::Parser::<dimacs::WcnfHeader, _>::new(Cursor::new(&text));
    let k = if d.iter % 3 == 0 { 0 } else { d.iter as usize % (d.lead.len() + 2) };
    let mut seen = 0;
    for j in 0..k {
        match p.next() {
            Some(Ok(c)) => {
                ensure!(seen < d.lead.len() && same_cmt(&c, &d.lead[seen]), "comment {seen} of the header is {c:?} in {text:?}");
                seen += 1;
            }
            Some(Err(e)) => fail!("valid WCNF header rejected: {e}\n{text:?}"),
            None => ensure!(seen == d.lead.len() && j >= seen, "header iteration ended after {seen} comments in {text:?}"),
        }
    }
    match p.forward_to_body() {
        Err(e) => fail!("valid WCNF header rejected: {e}\n{text:?}"),
        Ok(dimacs::WcnfHeaderData::Empty(_)) => ensure!(!pre && items.is_empty(), "file treated as empty: {text:?}"),
        Ok(dimacs::WcnfHeaderData::Pre22 { n_vars, n_clauses, top, body_parser }) => {
            let Kind::Pre22 { n, m, top: t } = kind else { fail!("treated as pre 22 file: {text:?}") };
            ensure!((n_vars, n_clauses, top) == (n, m, t), "header {n_vars} {n_clauses} {top} in {text:?}");
            same_items(&wcnf_items(body_parser, &text)?, &items, &text)?;
        }
        Ok(dimacs::WcnfHeaderData::Post22(p)) => {
            ensure!(!pre, "treated as post 22 file: {text:?}");
            same_items(&wcnf_items(p, &text)?, &items, &text)?;
        }
    }
    let sum: u128 = items.iter().map(|i| if let Item::Soft(_, w, _) = i { *w as u128 } else { 0 }).sum();
    if sum < 1 << 60 {
        obs.label("as instance");
        let inst = match OptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)) {
            Ok(i) => i,
            Err(e) => fail!("valid WCNF rejected: {e}\n{text:?}"),
        };
        same_opt(&inst, d.n, &items, &text)?;
    }
    Ok(())
}
fn small(items: &[Item], n: i32) -> bool {
    items.iter().all(|i| match i {
        Item::Cmt(_) => true,
        Item::Hard(c) | Item::Soft(_, _, c) => c.iter().all(|l| l.abs() <= n),
    })
}
fn max_var_items(items: &[Item]) -> i32 {
    items.iter().map(|i| match i {
        Item::Cmt(_) => 0,
        // soft clauses of weight zero are dropped
        Item::Soft(_, 0, _) => 0,
        Item::Hard(c) | Item::Soft(_, _, c) => c.iter().map(|l| l.abs()).max().unwrap_or(0),
    }).max().unwrap_or(0)
}
fn same_opt(inst: &OptInstance, n: i32, items: &[Item], text: &str) -> CheckResult {
    ensure!(icnf(inst.constraints_ref().cnf()) == hards(items), "hard clauses {:?} from {text:?}", inst.constraints_ref().cnf());
    ensure!(inst.constraints_ref().n_vars() as i64 >= max_var_items(items) as i64, "variables of the file not tracked: {} for {text:?}", inst.constraints_ref().n_vars());
    if small(items, n) {
        for a in 0..1u64 << n {
            let got = inst.objective_ref().evaluate(&full(n, a)) as i128;
            ensure!(got == soft_cost(items, 1, a), "cost {got} instead of {} of {a:b} for {text:?}", soft_cost(items, 1, a));
        }
    }
    Ok(())
}
fn check_read_mcnf(d: &Doc, obs: &mut Obs) -> CheckResult {
    let mut items: Vec<Item> = d.lead.iter().map(|c| Item::Cmt(c.clone())).collect();
    items.extend(d.items.iter().cloned());
    let text = render(&d.items, &d.lead, &Kind::Mcnf, &mut Sty(&d.style.0, 0));
    if items.len() > 1 && !d.style.0.is_empty() {
        obs.nontrivial();
    }
    let mut got = vec![];
    for x in dimacs::Parser::<dimacs::Mcnf, _>::new(Cursor::new(&text)) {
        match x {
            Ok(dimacs::McnfData::HardClause(c)) => got.push(Item::Hard(icl(&c))),
            Ok(dimacs::McnfData::SoftClause { obj_idx, weight, clause }) => got.push(Item::Soft(obj_idx, weight, icl(&clause))),
            Ok(dimacs::McnfData::Comment(c)) => got.push(Item::Cmt(c)),
            Err(e) => fail!("valid MCNF rejected: {e}\n{text:?}"),
        }
    }
    same_items(&got, &items, &text)?;
    let sum: u128 = items.iter().map(|i| if let Item::Soft(_, w, _) = i { *w as u128 } else { 0 }).sum();
    if sum < 1 << 60 {
        let inst = match MultiOptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)) {
            Ok(i) => i,
            Err(e) => fail!("valid MCNF rejected: {e}\n{text:?}"),
        };
        same_multi(&inst, d.n, &items, &text)?;
    }
    Ok(())
}
fn same_multi(inst: &MultiOptInstance, n: i32, items: &[Item], text: &str) -> CheckResult {
    let no = items.iter().map(|i| if let Item::Soft(o, ..) = i { *o } else { 0 }).max().unwrap_or(0);
    ensure!(inst.n_objectives() == no, "{} objectives in {text:?}", inst.n_objectives());
    ensure!(icnf(inst.constraints_ref().cnf()) == hards(items), "hard clauses {:?} from {text:?}", inst.constraints_ref().cnf());
    ensure!(inst.constraints_ref().n_vars() as i64 >= max_var_items(items) as i64, "variables of the file not tracked: {} for {text:?}", inst.constraints_ref().n_vars());
    if small(items, n) {
        for a in 0..1u64 << n {
            for o in 1..=no {
                let got = inst.objective_ref(o - 1).evaluate(&full(n, a)) as i128;
                ensure!(got == soft_cost(items, o, a), "cost {got} instead of {} of {a:b} in objective {o} for {text:?}", soft_cost(items, o, a));
            }
        }
    }
    Ok(())
}

// writing
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WCase {
    n: i32,
    con: Vec<Con>,
    objs: Vec<Vec<OOp>>,
    items: Vec<Item>,
    extra: u32,
    opts: (u32, bool),
    what: u8,
}
fn s_wcase(t: Tier) -> BoxedStrategy<WCase> {
    (1i32..=t.pick(4, 5))
        .prop_flat_map(move |n| {
            let clausal = vec(prop_oneof![vec(s_lit(n), 0..=4).prop_map(Con::Cl), (any::<u8>(), vec(s_lit(n), 1..=3), vec(s_lit(n), 1..=3)).prop_map(|(k, l, r)| Con::Imp(k, l, r))], 0..=5);
            (Just(n), prop_oneof![2 => clausal, 1 => s_spec(n, 4)], vec(s_oops(n, 0, 6), 0..=3), vec(s_item(n, 3, false), 0..=7), 0u32..4, (0u32..4, any::<bool>()), any::<u8>())
        })
        .prop_map(|(n, con, objs, items, extra, opts, what)| WCase { n, con, objs, items, extra, opts, what })
        .boxed()
}
fn is_clausal(c: &[Con]) -> bool {
    c.iter().all(|c| matches!(c, Con::Cl(_) | Con::Op(..) | Con::Imp(..)))
}
fn check_write_dimacs(c: &WCase, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let mut inst: SatInstance = build(&c.con);
    for _ in 0..c.extra {
        inst.new_var();
    }
    let clausal = is_clausal(&c.con);
    let mut buf = vec![];
    let what = c.what % 6;
    if what < 3 && !clausal {
        obs.label("not clausal");
        let r = match what {
            0 => inst.write_dimacs(&mut buf),
            1 => OptInstance::compose(inst.clone(), Objective::new()).write_dimacs(&mut buf),
            _ => MultiOptInstance::compose(inst.clone(), vec![]).write_dimacs(&mut buf),
        };
        ensure!(matches!(r, Err(WriteDimacsError::RequiresClausal)), "writing cardinality or PB constraints as DIMACS: {r:?}");
        ensure!(buf.is_empty(), "something was written");
        inst.convert_to_cnf();
    }
    let cls = icnf(inst.cnf());
    if cls.len() > 1 {
        obs.nontrivial();
    }
    let txt = |b: Vec<u8>| String::from_utf8(b).unwrap();
    match what {
        0 => {
            obs.label("SatInstance");
            inst.write_dimacs(&mut buf).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let (h, items) = read_written(&text, true, false)?;
            ensure!(h == Some((inst.n_vars() as u64, cls.len() as u64)), "header {h:?} in {text}");
            ensure!(hards(&items) == cls, "wrote {items:?} for {cls:?}");
            let back = SatInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)).map_err(|e| Fail(format!("{e}")))?;
            ensure!(icnf(back.cnf()) == cls, "round trip gave {:?} for {text}", back.cnf());
        }
        1 => {
            let Some(ops) = c.objs.first() else { return Ok(()) };
            obs.label("OptInstance");
            let (o, m) = build_obj(n, ops, &mut Obs::default())?;
            let oi: OptInstance = OptInstance::compose(inst.clone(), o);
            oi.write_dimacs(&mut buf).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let (_, items) = read_written(&text, false, false)?;
            ensure!(hards(&items) == cls, "wrote {items:?} for {cls:?}");
            for a in 0..1u64 << n {
                ensure!(soft_cost(&items, 1, a) == m.cost(a) - m.off, "written softs cost {} instead of {} without offset: {text}", soft_cost(&items, 1, a), m.cost(a) - m.off);
            }
            let off: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("c objective offset: ")).collect();
            ensure!(off.is_empty() || off == [m.off.to_string()], "offset {} written as {off:?}", m.off);
            let back = OptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)).map_err(|e| Fail(format!("{e}")))?;
            same_opt(&back, n, &items, &text)?;
        }
        2 => {
            obs.label("MultiOptInstance");
            let mut ms = vec![];
            let mut os = vec![];
            for ops in &c.objs {
                let (o, m) = build_obj(n, ops, &mut Obs::default())?;
                os.push(o);
                ms.push(m);
            }
            let mi: MultiOptInstance = MultiOptInstance::compose(inst.clone(), os);
            mi.write_dimacs(&mut buf).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let (_, items) = read_written(&text, false, true)?;
            ensure!(hards(&items) == cls, "wrote {items:?} for {cls:?}");
            for (k, m) in ms.iter().enumerate() {
                for a in 0..1u64 << n {
                    ensure!(soft_cost(&items, k + 1, a) == m.cost(a) - m.off, "written softs of objective {k} cost {} instead of {} without offset: {text}", soft_cost(&items, k + 1, a), m.cost(a) - m.off);
                }
            }
            let off: Vec<Vec<&str>> = text.lines().filter_map(|l| l.strip_prefix("c objective offsets: ( ")).map(|l| l.trim_end_matches(')').split_whitespace().collect()).collect();
            ensure!(off.is_empty() || off == [ms.iter().map(|m| m.off.to_string()).collect::<Vec<_>>()], "offsets written as {off:?}");
            let back = MultiOptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)).map_err(|e| Fail(format!("{e}")))?;
            same_multi(&back, n, &items, &text)?;
        }
        3 => {
            obs.label("write_cnf");
            let f = cnf(&cls);
            let nv = inst.n_vars() + c.extra;
            f.write_dimacs(&mut buf, nv).map_err(|e| Fail(e.to_string()))?;
            let (h, items) = read_written(&txt(buf), true, false)?;
            ensure!(h == Some((nv as u64, cls.len() as u64)) && hards(&items) == cls, "Cnf::write_dimacs wrote {h:?} {items:?}");
            let mut buf = vec![];
            let mut lines = vec![CnfLine::Comment("x".into()), CnfLine::Header(7, cls.len()), CnfLine::Comment("1 2 0".into())];
            lines.extend(f.iter().cloned().map(CnfLine::Clause));
            dimacs::write_cnf(&mut buf, lines.into_iter()).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let (cm, _) = tokenize(&text, false).map_err(Fail)?;
            ensure!(cm == ["c x", "c 1 2 0"], "comments {cm:?}");
            let (h, items) = read_written(&text, true, false)?;
            ensure!(h == Some((7, cls.len() as u64)) && hards(&items) == cls, "write_cnf wrote {h:?} {items:?}");
            let i: SatInstance = f.iter().cloned().map(CnfLine::Clause).collect();
            ensure!(icnf(i.cnf()) == cls && i.n_vars() as i32 >= max_var_cls(&cls), "FromIterator<CnfLine>");
        }
        4 => {
            obs.label("write_wcnf");
            let items: Vec<Item> = c.items.iter().map(|i| if let Item::Soft(_, w, c) = i { Item::Soft(1, *w, c.clone()) } else { i.clone() }).collect();
            let line = |i: &Item| match i {
                Item::Cmt(c) => WcnfLine::Comment(c.replace('\n', " ")),
                Item::Hard(c) => WcnfLine::Hard(clause(c)),
                Item::Soft(_, w, c) => WcnfLine::Soft(clause(c), *w),
            };
            dimacs::write_wcnf(&mut buf, items.iter().map(line)).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let (_, got) = read_written(&text, false, false)?;
            let want: Vec<Item> = items.iter().filter(|i| !matches!(i, Item::Cmt(_))).cloned().collect();
            ensure!(got == want, "write_wcnf wrote {text:?} for {want:?}");
            let back = OptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)).map_err(|e| Fail(format!("{e}")))?;
            same_opt(&back, n, &items, &text)?;
            let coll: OptInstance = items.iter().map(line).collect();
            same_opt(&coll, n, &items, "collected lines")?;
        }
        _ => {
            obs.label("write_mcnf");
            let line = |i: &Item| match i {
                Item::Cmt(c) => McnfLine::Comment(c.clone()),
                Item::Hard(c) => McnfLine::Hard(clause(c)),
                Item::Soft(o, w, c) => McnfLine::Soft(clause(c), *w, o - 1),
            };
            dimacs::write_mcnf(&mut buf, c.items.iter().map(line)).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let (_, got) = read_written(&text, false, true)?;
            let want: Vec<Item> = c.items.iter().filter(|i| !matches!(i, Item::Cmt(_))).cloned().collect();
            ensure!(got == want, "write_mcnf wrote {text:?} for {want:?}");
            let back = MultiOptInstance::<BasicVarManager>::from_dimacs(Cursor::new(&text)).map_err(|e| Fail(format!("{e}")))?;
            same_multi(&back, n, &c.items, &text)?;
            let coll: MultiOptInstance = c.items.iter().map(line).collect();
            same_multi(&coll, n, &c.items, "collected lines")?;
        }
    }
    Ok(())
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "at least two clauses, for reading also a non-canonical formatting",
        assumptions: vec!["weights of an instance sum to less than 2^60 (documented limit is isize::MAX); streaming parsers are given any weight", "constant objective offsets are only comments in WCNF / MCNF files, which are compared, but not read back"],
        subs: vec![
            sub("write", 150_000, 2_500_000, s_wcase, check_write_dimacs),
            sub("read cnf", 100_000, 1_500_000, |t| s_doc(t, false, 1), check_read_cnf),
            sub("read cnf, large variables", 60_000, 1_000_000, |t| s_doc(t, true, 1), check_read_cnf),
            sub("read wcnf", 120_000, 1_500_000, |t| s_doc(t, false, 2), check_read_wcnf),
            sub("read wcnf, large numbers", 60_000, 1_000_000, |t| s_doc(t, true, 2), check_read_wcnf),
            sub("read mcnf", 100_000, 1_500_000, |t| s_doc(t, false, 2), check_read_mcnf),
            sub("read mcnf, large numbers", 60_000, 1_000_000, |t| s_doc(t, true, 2), check_read_mcnf),
        ],
    }
}

// ---------- C13: OPB ----------
/// A linear constraint or objective, variables as in the file minus the first index
#[derive(Clone, Debug, PartialEq)]
struct Lin {
    terms: Vec<(i32, i128)>,
    cmp: String,
    rhs: i128,
}
impl Lin {
    fn val(&self, a: u64) -> i128 {
        self.terms.iter().filter(|t| lit_true(t.0, a)).map(|t| t.1).sum()
    }
    fn sat(&self, a: u64) -> bool {
        let v = self.val(a);
        match self.cmp.as_str() {
            ">=" => v >= self.rhs,
            "<=" => v <= self.rhs,
            _ => v == self.rhs,
        }
    }
}
struct OpbFile {
    objs: Vec<Lin>,
    offs: Vec<i128>,
    cons: Vec<Lin>,
    comments: Vec<String>,
    tilde: bool,
}
/// Independent OPB reader (for written files: normalized operators, one statement per `;`)
fn opb_read(text: &str, first: u32) -> Result<OpbFile, Fail> {
    let mut f = OpbFile { objs: vec![], offs: vec![], cons: vec![], comments: vec![], tilde: text.lines().filter(|l| !l.starts_with('*')).any(|l| l.contains('~')) };
    ensure!(text.is_empty() || text.ends_with('\n'), "written OPB does not end in a newline");
    for l in text.lines() {
        if l.starts_with('*') {
            if l.contains("objective offset") {
                if let (Some(o), Some(x)) = (f.offs.last_mut(), l.rsplit(' ').next().and_then(|x| x.parse::<i128>().ok())) {
                    *o = x;
                }
            }
            f.comments.push(l.to_string());
            continue;
        }
        let Some(l) = l.strip_suffix(';') else { fail!("line {l:?} not terminated") };
        ensure!(!l.contains(';'), "line {l:?}");
        let (obj, body) = match l.strip_prefix("min:") {
            Some(b) => (true, b),
            None => (false, l),
        };
        let toks: Vec<&str> = body.split_whitespace().collect();
        let (terms, cmp, rhs) = if obj {
            (&toks[..], "", 0)
        } else {
            ensure!(toks.len() >= 2, "line {l:?}");
            let k = toks.len() - 2;
            ensure!([">=", "="].contains(&toks[k]), "operator in {l:?}");
            (&toks[..k], toks[k], toks[k + 1].parse::<i128>().map_err(|_| Fail(format!("bound in {l:?}")))?)
        };
        ensure!(terms.len() % 2 == 0, "terms in {l:?}");
        let mut t = vec![];
        for p in terms.chunks(2) {
            let w: i128 = p[0].parse().map_err(|_| Fail(format!("coefficient {:?} in {l:?}", p[0])))?;
            let (neg, v) = match p[1].strip_prefix('~') {
                Some(v) => (true, v),
                None => (false, p[1]),
            };
            let Some(v) = v.strip_prefix('x') else { fail!("variable {:?} in {l:?}", p[1]) };
            let v: u32 = v.parse().map_err(|_| Fail(format!("variable {:?} in {l:?}", p[1])))?;
            ensure!(v >= first, "variable x{v} below the first index {first} in {l:?}");
            let v = (v - first + 1) as i32;
            t.push((if neg { -v } else { v }, w));
        }
        let lin = Lin { terms: t, cmp: cmp.into(), rhs };
        if obj {
            f.objs.push(lin);
            f.offs.push(0);
        } else {
            f.cons.push(lin);
        }
    }
    Ok(f)
}
fn check_write_opb(c: &WCase, obs: &mut Obs) -> CheckResult {
    let n = c.n;
    let mut inst: SatInstance = build(&c.con);
    for _ in 0..c.extra {
        inst.new_var();
    }
    let opts = opb::Options { first_var_idx: c.opts.0, no_negated_lits: c.opts.1 };
    let want = |a: u64| sat_all(&c.con, a);
    let k = (0..1u64 << n).filter(|a| want(*a)).count();
    if k > 0 && k < 1 << n && inst.n_constraints() > 1 {
        obs.nontrivial();
    }
    let eq = |f: &OpbFile, text: &str| -> CheckResult {
        ensure!(!f.tilde || !opts.no_negated_lits, "negated literals written: {text}");
        ensure!(f.cons.len() == inst.n_constraints(), "{} constraints written: {text}", f.cons.len());
        for a in 0..1u64 << n {
            ensure!(f.cons.iter().all(|c| c.sat(a)) == want(a), "written constraints differ under {a:b}: {text}");
        }
        if let Some(h) = f.comments.first() {
            if let Some(x) = h.split("#constraint=").nth(1) {
                ensure!(x.trim().split(' ').next() == Some(&f.cons.len().to_string()), "constraints in header {h:?} but {} written", f.cons.len());
            }
        }
        Ok(())
    };
    let eq_obj = |f: &Lin, off: i128, m: &dyn Fn(u64) -> i128, text: &str| -> CheckResult {
        for a in 0..1u64 << n {
            ensure!(f.val(a) + off == m(a), "written objective {f:?} with offset {off} differs under {a:b}: {text}");
        }
        Ok(())
    };
    let back_ok = |i: &SatInstance, text: &str| -> CheckResult {
        for a in 0..1u64 << n {
            ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "read back instance differs under {a:b}: {text}");
        }
        ensure!(i.n_vars() >= spec_vars(&c.con).last().copied().unwrap_or(0) as u32, "read back: variables not tracked");
        Ok(())
    };
    let mut buf = vec![];
    let txt = |b: Vec<u8>| String::from_utf8(b).unwrap();
    match c.what % 4 {
        0 => {
            obs.label("SatInstance");
            inst.write_opb(&mut buf, opts).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let f = opb_read(&text, opts.first_var_idx)?;
            ensure!(f.objs.is_empty(), "objective written");
            eq(&f, &text)?;
            back_ok(&SatInstance::from_opb(Cursor::new(&text), opts).map_err(|e| Fail(format!("{e}")))?, &text)?;
        }
        1 => {
            let Some(ops) = c.objs.first() else { return Ok(()) };
            let (o, m) = build_obj(n, ops, &mut Obs::default())?;
            let softs = o.iter_soft_lits().is_ok();
            let oi: OptInstance = OptInstance::compose(inst.clone(), o);
            let r = oi.write_opb(&mut buf, opts);
            if !softs {
                obs.label("soft clauses");
                ensure!(r.is_err(), "objective with soft clauses written to OPB");
                return Ok(());
            }
            obs.label("OptInstance");
            r.map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let f = opb_read(&text, opts.first_var_idx)?;
            ensure!(f.objs.len() == 1, "{} objectives written: {text}", f.objs.len());
            eq(&f, &text)?;
            eq_obj(&f.objs[0], f.offs[0], &|a| m.cost(a), &text)?;
            let back: OptInstance = OptInstance::from_opb(Cursor::new(&text), opts).map_err(|e| Fail(format!("{e}")))?;
            back_ok(back.constraints_ref(), &text)?;
            for a in 0..1u64 << n {
                let v = back.objective_ref().evaluate(&full(n, a)) as i128;
                ensure!(v == f.objs[0].val(a), "read back objective is {v} instead of {} for {text}", f.objs[0].val(a));
            }
            if c.opts.1 {
                let e = SatInstance::<BasicVarManager>::from_opb(Cursor::new(&text), opts);
                ensure!(matches!(e, Err(fio::Error::ObjInSat)), "objective accepted when reading a satisfiability instance");
            }
        }
        2 => {
            let mut ms = vec![];
            let mut os = vec![];
            for ops in &c.objs {
                let (o, m) = build_obj(n, ops, &mut Obs::default())?;
                os.push(o);
                ms.push(m);
            }
            let softs = os.iter().all(|o| o.iter_soft_lits().is_ok());
            let mi: MultiOptInstance = MultiOptInstance::compose(inst.clone(), os);
            let r = mi.write_opb(&mut buf, opts);
            if !softs {
                obs.label("soft clauses");
                ensure!(r.is_err(), "objective with soft clauses written to OPB");
                return Ok(());
            }
            obs.label("MultiOptInstance");
            r.map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let f = opb_read(&text, opts.first_var_idx)?;
            ensure!(f.objs.len() == ms.len(), "{} objectives written: {text}", f.objs.len());
            eq(&f, &text)?;
            for ((o, off), m) in f.objs.iter().zip(&f.offs).zip(&ms) {
                eq_obj(o, *off, &|a| m.cost(a), &text)?;
            }
            let back: MultiOptInstance = MultiOptInstance::from_opb(Cursor::new(&text), opts).map_err(|e| Fail(format!("{e}")))?;
            back_ok(back.constraints_ref(), &text)?;
            ensure!(back.n_objectives() == ms.len(), "{} objectives read back", back.n_objectives());
            for (k, o) in f.objs.iter().enumerate() {
                for a in 0..1u64 << n {
                    let v = back.objective_ref(k).evaluate(&full(n, a)) as i128;
                    ensure!(v == o.val(a), "read back objective {k} is {v} instead of {} for {text}", o.val(a));
                }
            }
            if ms.len() != 1 {
                let e = OptInstance::<BasicVarManager>::from_opb(Cursor::new(&text), opts);
                ensure!(if ms.is_empty() { matches!(e, Err(fio::Error::NoObjective)) } else { matches!(e, Err(fio::Error::MultipleObjectives)) }, "{} objectives accepted as a single-objective instance", ms.len());
            }
        }
        _ => {
            obs.label("write_opb_lines");
            let ol: Vec<(Lit, usize)> = c.items.iter().filter_map(|i| if let Item::Soft(_, w, c) = i { c.first().map(|l| (lit(*l), *w)) } else { None }).collect();
            let mut lines = vec![opb::FileLine::Comment("1 x1 >= 1;".into()), opb::FileLine::Objective(ol.clone())];
            lines.extend(inst.cnf().iter().cloned().map(opb::FileLine::Clause));
            for k in &c.con {
                match k {
                    Con::Card(l, cmp, b) => lines.push(opb::FileLine::Card(crate::c_types::card(l, *cmp, *b))),
                    Con::Pb(l, cmp, b) => lines.push(opb::FileLine::Pb(crate::c_types::pb(l, *cmp, *b))),
                    _ => (),
                }
            }
            opb::write_opb_lines(&mut buf, lines.into_iter(), opts).map_err(|e| Fail(e.to_string()))?;
            let text = txt(buf);
            let f = opb_read(&text, opts.first_var_idx)?;
            ensure!(f.objs.len() == 1, "{} objectives written: {text}", f.objs.len());
            eq(&f, &text)?;
            eq_obj(&f.objs[0], f.offs[0], &|a| ol.iter().filter(|(l, _)| lit_true(ilit(*l), a)).map(|x| x.1 as i128).sum(), &text)?;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Stmt {
    Cmt(String),
    Con(Vec<(i32, isize)>, u8, isize),
    Obj(bool, Vec<(i32, isize)>),
}
const OPS: [&str; 5] = [">=", "<=", "=", "<", ">"];
fn op_holds(op: u8, s: i128, b: i128) -> bool {
    match op {
        0 => s >= b,
        1 => s <= b,
        2 => s == b,
        3 => s < b,
        _ => s > b,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpbDoc {
    n: i32,
    stmts: Vec<Stmt>,
    first: u32,
    style: Style,
}
fn s_opbdoc(t: Tier) -> BoxedStrategy<OpbDoc> {
    let coeff = prop_oneof![6 => -5isize..=6, 2 => -200isize..=200, 1 => -1_000_000_000_000isize..=1_000_000_000_000];
    (1i32..=t.pick(4, 5))
        .prop_flat_map(move |n| {
            let terms = vec((s_lit(n), coeff.clone()), 0..=5);
            let stmt = prop_oneof![
                1 => s_cmt().prop_map(Stmt::Cmt),
                6 => (terms.clone(), 0u8..5, coeff.clone()).prop_map(|(t, o, b)| Stmt::Con(t, o, b)),
                1 => (any::<bool>(), terms).prop_map(|(m, t)| Stmt::Obj(m, t)),
            ];
            (Just(n), vec(stmt, 0..=t.pick(6, 9)), 0u32..4, s_style())
        })
        .prop_map(|(n, stmts, first, style)| OpbDoc { n, stmts, first, style })
        .boxed()
}
fn render_opb(d: &OpbDoc, st: &mut Sty) -> String {
    let mut s = String::new();
    let terms = |s: &mut String, t: &[(i32, isize)], st: &mut Sty| {
        for (l, w) in t {
            if *w > 0 && st.next(4) == 1 {
                s.push('+');
            }
            s.push_str(&w.to_string());
            s.push_str(st.sep1());
            if *l < 0 {
                s.push(if st.next(3) == 1 { '-' } else { '~' });
            }
            s.push('x');
            s.push_str(&(l.unsigned_abs() - 1 + d.first).to_string());
            s.push_str(st.sep1());
        }
    };
    for (i, x) in d.stmts.iter().enumerate() {
        s.push_str(st.sep());
        match x {
            Stmt::Cmt(c) => {
                s.push('*');
                s.push_str(c);
            }
            Stmt::Con(t, o, b) => {
                terms(&mut s, t, st);
                s.push_str(OPS[*o as usize]);
                s.push_str(st.sep());
                if *b > 0 && st.next(4) == 1 {
                    s.push('+');
                }
                s.push_str(&b.to_string());
            }
            Stmt::Obj(m, t) => {
                s.push_str(if *m { "max:" } else { "min:" });
                s.push_str(st.sep());
                terms(&mut s, t, st);
                // no whitespace needed before the end
                while !t.is_empty() && s.ends_with([' ', '\t']) {
                    s.pop();
                }
            }
        }
        let last = i + 1 == d.stmts.len();
        if let Stmt::Cmt(_) = x {
            if !last || st.next(4) != 1 {
                s.push_str(st.eol());
            }
            continue;
        }
        s.push_str(st.sep());
        // a statement ends with a semicolon, or at the end of the line
        match st.next(6) {
            1 => s.push_str("; "),
            2 => s.push(';'),
            3 if !last => s.push_str(st.eol()),
            3 => (),
            4 if last => s.push(';'),
            _ => {
                s.push(';');
                s.push_str(st.eol());
            }
        }
    }
    s
}
fn check_read_opb(d: &OpbDoc, obs: &mut Obs) -> CheckResult {
    let n = d.n;
    let text = render_opb(d, &mut Sty(&d.style.0, 0));
    let opts = opb::Options { first_var_idx: d.first, no_negated_lits: d.style.0.len() % 2 == 0 };
    let val = |t: &[(i32, isize)], a: u64| -> i128 { t.iter().filter(|x| lit_true(x.0, a)).map(|x| x.1 as i128).sum() };
    let cons: Vec<_> = d.stmts.iter().filter_map(|s| if let Stmt::Con(t, o, b) = s { Some((t, *o, *b)) } else { None }).collect();
    let objs: Vec<_> = d.stmts.iter().filter_map(|s| if let Stmt::Obj(m, t) = s { Some((*m, t)) } else { None }).collect();
    let want = |a: u64| cons.iter().all(|(t, o, b)| op_holds(*o, val(t, a), *b as i128));
    if cons.len() > 1 && !d.style.0.is_empty() {
        obs.nontrivial();
    }
    // streaming: statement by statement
    let mut got = opb::Parser::new(Cursor::new(&text), opts);
    for s in &d.stmts {
        let x = match got.next() {
            Some(Ok(x)) => x,
            Some(Err(e)) => fail!("valid OPB rejected at {s:?}: {e}\n{text:?}"),
            None => fail!("parsing ended before {s:?}: {text:?}"),
        };
        match (s, x) {
            (Stmt::Cmt(c), opb::Data::Cmt(g)) => ensure!(g.trim() == format!("*{c}").trim(), "comment {g:?} instead of {c:?}"),
            (Stmt::Con(t, o, b), opb::Data::Constr(g)) => {
                let (l, cmp, gb) = pb_parts(&g);
                for a in 0..1u64 << n {
                    let gv: i128 = l.iter().filter(|x| lit_true(x.0, a)).map(|x| x.1).sum();
                    ensure!(cmp.holds(gv, gb) == op_holds(*o, val(t, a), *b as i128), "read {g} for {s:?} in {text:?}");
                }
            }
            (Stmt::Obj(m, t), opb::Data::Obj(g)) => {
                ensure!((g.sense == opb::ObjectiveSense::Maximize) == *m, "sense of {s:?}");
                for a in 0..1u64 << n {
                    let gv: i128 = g.offset as i128 + g.terms.iter().filter(|x| lit_true(ilit(x.1), a)).map(|x| x.0 as i128).sum::<i128>();
                    ensure!(gv == val(t, a), "objective {g:?} for {s:?} in {text:?}");
                }
            }
            (s, g) => fail!("read {g:?} for {s:?} in {text:?}"),
        }
    }
    ensure!(got.next().is_none(), "something left in {text:?}");
    let con_ok = |i: &SatInstance| -> CheckResult {
        ensure!(i.n_constraints() == cons.len(), "{} constraints from {text:?}", i.n_constraints());
        for a in 0..1u64 << n {
            ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "instance differs under {a:b}: {text:?}");
        }
        let mv = cons.iter().flat_map(|c| c.0.iter()).chain(objs.iter().flat_map(|o| o.1.iter())).filter(|x| x.1 != 0).map(|x| x.0.abs()).max().unwrap_or(0);
        ensure!(i.n_vars() as i32 >= mv, "variables not tracked: {} for {text:?}", i.n_vars());
        Ok(())
    };
    match SatInstance::<BasicVarManager>::from_opb(Cursor::new(&text), opts) {
        Ok(i) => {
            ensure!(objs.is_empty(), "objective accepted in a satisfiability instance: {text:?}");
            con_ok(&i)?;
        }
        Err(fio::Error::ObjInSat) => ensure!(!objs.is_empty(), "no objective in {text:?}"),
        Err(e) => fail!("valid OPB rejected: {e}\n{text:?}"),
    }
    let obj_val = |k: usize, a: u64| if objs[k].0 { -val(objs[k].1, a) } else { val(objs[k].1, a) };
    match OptInstance::<BasicVarManager>::from_opb(Cursor::new(&text), opts) {
        Ok(i) => {
            ensure!(objs.len() == 1, "{} objectives in {text:?}", objs.len());
            obs.label("single-objective");
            con_ok(i.constraints_ref())?;
            for a in 0..1u64 << n {
                let v = i.objective_ref().evaluate(&full(n, a)) as i128;
                ensure!(v == obj_val(0, a), "minimized objective is {v} instead of {} under {a:b}: {text:?}", obj_val(0, a));
            }
        }
        Err(fio::Error::NoObjective) => ensure!(objs.is_empty(), "NoObjective for {text:?}"),
        Err(fio::Error::MultipleObjectives) => ensure!(objs.len() > 1, "MultipleObjectives for {text:?}"),
        Err(e) => fail!("valid OPB rejected: {e}\n{text:?}"),
    }
    match MultiOptInstance::<BasicVarManager>::from_opb(Cursor::new(&text), opts) {
        Ok(i) => {
            ensure!(i.n_objectives() == objs.len(), "{} objectives in {text:?}", i.n_objectives());
            con_ok(i.constraints_ref())?;
            for k in 0..objs.len() {
                for a in 0..1u64 << n {
                    let v = i.objective_ref(k).evaluate(&full(n, a)) as i128;
                    ensure!(v == obj_val(k, a), "minimized objective {k} is {v} instead of {} under {a:b}: {text:?}", obj_val(k, a));
                }
            }
        }
        Err(e) => fail!("valid OPB rejected: {e}\n{text:?}"),
    }
    Ok(())
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "at least two constraints; written instances are neither unsatisfiable nor tautological, read files are not canonically formatted",
        assumptions: vec!["constant objective offsets are only comments in OPB files, which are compared, but not read back", "coefficients up to 10^12 in magnitude"],
        subs: vec![sub("write", 150_000, 2_500_000, s_wcase, check_write_opb), sub("read", 150_000, 2_500_000, s_opbdoc, check_read_opb)],
    }
}

// ---------- C14: totality of the parsers ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw {
    Bytes(Vec<u8>),
    Text(String),
    /// lines of tokens
    Soup(Vec<Vec<(u8, String)>>),
    /// a valid document with edits
    Doc(u8, Doc, Vec<(u16, u8, u8)>),
    Opb(OpbDoc, Vec<(u16, u8, u8)>),
}
const EDITS: [&str; 24] = ["", " ", "0", "-", "+", "x", "\n", "\r", "p", "c", "h", "o", ";", "~", "9223372036854775807", "-9223372036854775808", "2147483648", "é", "*", "min:", ">=", "<", "=", "18446744073709551616"];
fn edit(mut s: Vec<char>, e: &[(u16, u8, u8)]) -> String {
    for (p, k, t) in e {
        let p = if s.is_empty() { 0 } else { *p as usize % (s.len() + 1) };
        match k % 4 {
            0 if p < s.len() => {
                s.remove(p);
            }
            1 => {
                s.truncate(p);
            }
            2 if p < s.len() => {
                let q = (p + 1 + *t as usize % 6).min(s.len());
                let d: Vec<char> = s[p..q].to_vec();
                s.splice(p..p, d);
            }
            _ => {
                s.splice(p..p, EDITS[*t as usize % EDITS.len()].chars());
            }
        }
    }
    s.into_iter().collect()
}
fn s_tok() -> BoxedStrategy<(u8, String)> {
    let num = prop_oneof![
        6 => (-4i64..=4).prop_map(|x| x.to_string()),
        1 => (0u32..20).prop_map(|x| format!("{x:02}")),
        1 => (0u32..5).prop_map(|x| format!("+{x}")),
        1 => prop::sample::select(vec!["2147483647", "2147483648", "-2147483647", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1e3", "0x1", "-0", "+0", "00"]).prop_map(str::to_string),
    ];
    let kw = prop::sample::select(vec!["p", "c", "cnf", "wcnf", "h", "o", "o1", "o2", "o01", "o0", "s", "v", "x1", "x2", "~x1", "-x3", "x0", "~", "min:", "max:", "min", ">=", "<=", "=", ">", "<", "!=", ";", ":", "*", "*c", "cc", "hh", "h1", "p cnf 2 1", "p wcnf 3 2 10", "\u{a0}", "\u{2028}", "ß", "\u{0}", "%"]).prop_map(str::to_string);
    (0u8..8, prop_oneof![3 => num, 1 => kw]).boxed()
}
fn s_raw(t: Tier) -> BoxedStrategy<Raw> {
    let edits = || vec((any::<u16>(), any::<u8>(), any::<u8>()), 0..5);
    prop_oneof![
        1 => vec(any::<u8>(), 0..60).prop_map(Raw::Bytes),
        1 => any::<String>().prop_map(Raw::Text),
        1 => "[-0-9 pcnfwhox\\n\\r;<>=~+*:min]{0,40}".prop_map(Raw::Text),
        4 => vec(vec(s_tok(), 0..7), 0..6).prop_map(Raw::Soup),
        4 => (0u8..4, s_doc(t, true, 2), edits()).prop_map(|(k, d, e)| Raw::Doc(k, d, e)),
        3 => (s_opbdoc(t), edits()).prop_map(|(d, e)| Raw::Opb(d, e)),
    ]
    .boxed()
}
fn raw_bytes(r: &Raw) -> Vec<u8> {
    match r {
        Raw::Bytes(b) => b.clone(),
        Raw::Text(s) => s.clone().into_bytes(),
        Raw::Soup(l) => {
            let mut s = String::new();
            for l in l {
                for (sep, t) in l {
                    s.push_str(t);
                    s.push_str([" ", " ", " ", " ", "\t", "", "  ", "\r"][*sep as usize % 8]);
                }
                s.push('\n');
            }
            s.into_bytes()
        }
        Raw::Doc(k, d, e) => {
            let kind = match k {
                0 => Kind::Cnf { n: d.hn, m: d.hm },
                1 => Kind::Pre22 { n: d.hn, m: d.hm, top: 15 },
                2 => Kind::Post22,
                _ => Kind::Mcnf,
            };
            let items: Vec<Item> = d.items.iter().map(|i| match i {
                Item::Soft(_, _, c) if *k == 0 => Item::Hard(c.clone()),
                i => i.clone(),
            }).collect();
            edit(render(&items, &d.lead, &kind, &mut Sty(&d.style.0, 0)).chars().collect(), e).into_bytes()
        }
        Raw::Opb(d, e) => edit(render_opb(d, &mut Sty(&d.style.0, 0)).chars().collect(), e).into_bytes(),
    }
}

/// Oracle for single (trimmed) lines
struct Ln<'a>(&'a str);
impl<'a> Ln<'a> {
    fn sp1(&mut self) -> Option<()> {
        let r = self.0.trim_start_matches([' ', '\t']);
        if r.len() == self.0.len() {
            return None;
        }
        self.0 = r;
        Some(())
    }
    fn digits(&mut self) -> Option<&'a str> {
        let k = self.0.bytes().take_while(u8::is_ascii_digit).count();
        let (a, b) = self.0.split_at(k);
        if a.is_empty() || (a.len() > 1 && a.starts_with('0')) {
            return None;
        }
        self.0 = b;
        Some(a)
    }
    fn uint(&mut self) -> Option<usize> {
        self.digits()?.parse().ok()
    }
    fn int(&mut self) -> Option<i64> {
        let neg = self.0.starts_with('-');
        if neg || self.0.starts_with('+') {
            self.0 = &self.0[1..];
        }
        let d: i64 = self.digits()?.parse().ok()?;
        Some(if neg { -d } else { d })
    }
    /// literals, optionally terminated by zero, then the end of the line
    fn clause(&mut self) -> Option<Vec<i32>> {
        let mut c = vec![];
        if self.0.is_empty() {
            return None; // cannot happen for trimmed lines
        }
        loop {
            if self.0 == "0" {
                return Some(c);
            }
            let l = self.int()?;
            let l = i32::try_from(l).ok()?;
            if l == 0 || l == i32::MIN {
                return None;
            }
            c.push(l);
            if self.0.is_empty() {
                return Some(c);
            }
            self.sp1()?;
        }
    }
    fn hard(&mut self) -> Option<Vec<i32>> {
        self.0 = self.0.strip_prefix('h')?;
        self.sp1()?;
        self.clause()
    }
    fn soft(&mut self) -> Option<(usize, Vec<i32>)> {
        let w = self.uint()?;
        self.sp1()?;
        Some((w, self.clause()?))
    }
    fn mo_soft(&mut self) -> Option<Item> {
        self.0 = self.0.strip_prefix('o')?;
        let _ = self.sp1();
        let o = self.uint()?;
        if o == 0 {
            return None;
        }
        self.sp1()?;
        let (w, c) = self.soft()?;
        Some(Item::Soft(o, w, c))
    }
    fn header(&mut self, f: &str, k: usize) -> Option<Vec<usize>> {
        self.0 = self.0.strip_prefix('p')?;
        self.sp1()?;
        self.0 = self.0.strip_prefix(f)?;
        let mut v = vec![];
        for _ in 0..k {
            self.sp1()?;
            v.push(self.uint()?);
        }
        (self.0.is_empty() && v[0] <= i32::MAX as usize).then_some(v)
    }
}
/// Lines as the readers see them, trimmed and without blank ones
fn lines(text: &str) -> Vec<String> {
    text.split_inclusive('\n').map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}
/// With a carriage return inside of a line, or control characters, the verdict is left open
fn odd(l: &str) -> bool {
    l.contains('\r')
}
type Verdicts = Vec<Result<Item, ()>>;
fn body(ls: &[String], f: impl Fn(&str) -> Option<Item>) -> Option<Verdicts> {
    let mut v = vec![];
    for l in ls {
        if odd(l) {
            return None;
        }
        v.push(if l.starts_with('c') { Ok(Item::Cmt(l[1..].to_string())) } else { f(l).ok_or(()) });
    }
    Some(v)
}
fn run_all<T>(it: impl Iterator<Item = Result<T, fio::Error>>, limit: usize, f: impl Fn(T) -> Item) -> Result<(Verdicts, bool), Fail> {
    let mut v = vec![];
    let mut io = false;
    for x in it {
        ensure!(v.len() <= limit, "parser does not terminate: more than {limit} items");
        match x {
            Ok(x) => v.push(Ok(f(x))),
            Err(e) => {
                io |= matches!(e, fio::Error::Io(_));
                let s = e.to_string();
                ensure!(!s.is_empty(), "empty error message");
                let _ = format!("{e:?}");
                v.push(Err(()));
            }
        }
    }
    Ok((v, io))
}
fn cmp_verdicts(name: &str, got: &(Verdicts, bool), want: Option<Verdicts>, text: &str, obs: &mut Obs) -> CheckResult {
    let Some(want) = want else { return Ok(()) };
    ensure!(got.0.len() == want.len(), "{name}: {} items read from {} lines of {text:?}", got.0.len(), want.len());
    for (i, (g, w)) in got.0.iter().zip(&want).enumerate() {
        let ok = match (g, w) {
            (Ok(Item::Cmt(g)), Ok(Item::Cmt(w))) => same_cmt(g, w),
            (g, w) => g == w,
        };
        ensure!(ok, "{name}: item {i} read as {g:?}, the format says {w:?}: {text:?}");
        obs.label(if g.is_ok() { "line accepted" } else { "line rejected" });
        if g.is_err() && got.0[i..].iter().any(|g| g.is_ok()) {
            obs.nontrivial();
            obs.label("reading continued after an error");
        }
    }
    Ok(())
}
fn cnf_item(x: dimacs::CnfData) -> Item {
    match x {
        dimacs::CnfData::Clause(c) => Item::Hard(icl(&c)),
        dimacs::CnfData::Comment(c) => Item::Cmt(c),
    }
}
fn wcnf_item(x: dimacs::WcnfData) -> Item {
    match x {
        dimacs::WcnfData::HardClause(c) => Item::Hard(icl(&c)),
        dimacs::WcnfData::SoftClause { weight, clause } => Item::Soft(1, weight, icl(&clause)),
        dimacs::WcnfData::Comment(c) => Item::Cmt(c),
    }
}
fn check_total_dimacs(r: &Raw, obs: &mut Obs) -> CheckResult {
    let bytes = raw_bytes(r);
    let limit = bytes.len() + 2;
    let text = std::str::from_utf8(&bytes).ok();
    let ls = text.map(lines);
    // comments of the library keep the leading c
    let strip = |v: (Verdicts, bool)| v;
    let fix = |w: Option<Verdicts>| w;
    let tx = text.unwrap_or("(not UTF-8)");
    let rd = || Cursor::new(&bytes[..]);
    // CNF body
    {
        let mut p = dimacs::Parser::<dimacs::CnfBody, _>::new(rd());
        let got = strip(run_all(p.by_ref(), limit, cnf_item)?);
        ensure!(p.next().is_none(), "parser continues after its end");
        let want = ls.as_ref().and_then(|ls| body(ls, |l| Ln(l).clause().map(Item::Hard)));
        cmp_verdicts("CNF body", &got, fix(want), tx, obs)?;
        if text.is_none() && !got.0.is_empty() {
            obs.label("not UTF-8");
            ensure!(got.1, "invalid UTF-8 without an IO error");
        }
    }
    // MCNF
    {
        let p = dimacs::Parser::<dimacs::Mcnf, _>::new(rd());
        let got = strip(run_all(p, limit, |x| match x {
            dimacs::McnfData::HardClause(c) => Item::Hard(icl(&c)),
            dimacs::McnfData::SoftClause { obj_idx, weight, clause } => Item::Soft(obj_idx, weight, icl(&clause)),
            dimacs::McnfData::Comment(c) => Item::Cmt(c),
        })?);
        let want = ls.as_ref().and_then(|ls| body(ls, |l| if l.starts_with('h') { Ln(l).hard().map(Item::Hard) } else { Ln(l).mo_soft() }));
        cmp_verdicts("MCNF", &got, fix(want), tx, obs)?;
    }
    // Post 22 WCNF body on its own
    let post = |l: &str| if l.starts_with('h') { Ln(l).hard().map(Item::Hard) } else { Ln(l).soft().map(|(w, c)| Item::Soft(1, w, c)) };
    {
        let p = dimacs::Parser::<dimacs::WcnfPost22, _>::new(rd());
        let got = strip(run_all(p, limit, wcnf_item)?);
        let want = ls.as_ref().and_then(|ls| body(ls, post));
        cmp_verdicts("WCNF (post 22)", &got, fix(want), tx, obs)?;
    }
    // CNF with header
    {
        let want_head = ls.as_ref().map(|ls| {
            let i = ls.iter().position(|l| !l.starts_with('c'));
            (i, i.and_then(|i| Ln(&ls[i]).header("cnf", 2)))
        });
        match dimacs::Parser::<dimacs::CnfHeader, _>::new(rd()).forward_to_body() {
            Ok(h) => {
                if let Some((Some(i), w)) = want_head {
                    ensure!(odd(&ls.as_ref().unwrap()[i]) || w == Some(vec![h.n_vars as usize, h.n_clauses]), "header read as {} {} from {tx:?}", h.n_vars, h.n_clauses);
                    let got = strip(run_all(h.body_parser, limit, cnf_item)?);
                    let want = body(&ls.as_ref().unwrap()[i + 1..], |l| Ln(l).clause().map(Item::Hard));
                    cmp_verdicts("CNF", &got, fix(want), tx, obs)?;
                    obs.label("header accepted");
                } else {
                    ensure!(text.is_none(), "header invented for {tx:?}");
                }
            }
            Err(e) => {
                let _ = e.to_string();
                if let Some((i, w)) = want_head {
                    ensure!(w.is_none() || odd(&ls.as_ref().unwrap()[i.unwrap()]), "valid header rejected: {e} {tx:?}");
                }
            }
        }
        let mut it = dimacs::Parser::<dimacs::CnfHeader, _>::new(rd());
        let got = run_all(it.by_ref(), limit, Item::Cmt)?;
        if let Ok(h) = it.forward_to_body() {
            let _ = (got, h.n_vars);
        }
    }
    // WCNF with header
    {
        let want: Option<(Option<usize>, u8, Option<Vec<usize>>)> = ls.as_ref().map(|ls| {
            let i = ls.iter().position(|l| !l.starts_with('c'));
            match i {
                None => (None, 0, None),
                Some(j) => {
                    if post(&ls[j]).is_some() {
                        (i, 2, None)
                    } else if let Some(h) = Ln(&ls[j]).header("wcnf", 3) {
                        (i, 1, Some(h))
                    } else {
                        (i, 3, None)
                    }
                }
            }
        });
        let res = dimacs::Parser::<dimacs::WcnfHeader, _>::new(rd()).forward_to_body();
        if let Err(e) = &res {
            let _ = e.to_string();
        }
        if let Some((i, k, h)) = want {
            let lsr = ls.as_ref().unwrap();
            if !i.is_some_and(|i| odd(&lsr[i])) {
                match res {
                    Ok(dimacs::WcnfHeaderData::Empty(_)) => ensure!(k == 0, "treated as empty: {tx:?}"),
                    Ok(dimacs::WcnfHeaderData::Pre22 { n_vars, n_clauses, top, body_parser }) => {
                        ensure!(k == 1 && h == Some(vec![n_vars as usize, n_clauses, top]), "treated as pre 22 with {n_vars} {n_clauses} {top}: {tx:?}");
                        let got = strip(run_all(body_parser, limit, wcnf_item)?);
                        let want = body(&lsr[i.unwrap() + 1..], |l| Ln(l).soft().map(|(w, c)| if w >= top { Item::Hard(c) } else { Item::Soft(1, w, c) }));
                        cmp_verdicts("WCNF (pre 22)", &got, fix(want), tx, obs)?;
                        obs.label("header accepted");
                    }
                    Ok(dimacs::WcnfHeaderData::Post22(p)) => {
                        ensure!(k == 2, "treated as post 22: {tx:?}");
                        let got = strip(run_all(p, limit, wcnf_item)?);
                        let want = body(&lsr[i.unwrap()..], post);
                        cmp_verdicts("WCNF", &got, fix(want), tx, obs)?;
                    }
                    Err(e) => ensure!(k == 3, "valid header rejected: {e} {tx:?}"),
                }
            }
        } else {
            if let Ok(dimacs::WcnfHeaderData::Post22(p)) = res {
                run_all(p, limit, wcnf_item)?;
            }
        }
        let mut it = dimacs::Parser::<dimacs::WcnfHeader, _>::new(rd());
        run_all(it.by_ref(), limit, Item::Cmt)?;
        if let Ok(dimacs::WcnfHeaderData::Post22(p)) = it.forward_to_body() {
            run_all(p, limit, wcnf_item)?;
        }
    }
    // whole instances (weights that overflow the documented limits and absurd numbers of objectives
    // are left out)
    if let Some(t) = text {
        let run_of_digits = t.split(|c: char| !c.is_ascii_digit()).map(str::len).max().unwrap_or(0);
        if run_of_digits <= 6 {
            obs.label("as instance");
            let c = SatInstance::<BasicVarManager>::from_dimacs(rd());
            if let Err(e) = &c {
                let _ = e.to_string();
            }
            if let (Ok(i), Some(ls)) = (&c, &ls) {
                let k = ls.iter().position(|l| !l.starts_with('c')).unwrap();
                let want = body(&ls[k + 1..], |l| Ln(l).clause().map(Item::Hard));
                if let Some(w) = want {
                    let w: Option<Vec<Item>> = w.into_iter().map(Result::ok).collect();
                    let Some(w) = w else { fail!("instance with invalid lines accepted: {t:?}") };
                    ensure!(icnf(i.cnf()) == hards(&w), "instance {:?} for {t:?}", i.cnf());
                }
            }
            if let Err(e) = OptInstance::<BasicVarManager>::from_dimacs(rd()) {
                let _ = e.to_string();
            }
            if run_of_digits <= 4 {
                if let Err(e) = MultiOptInstance::<BasicVarManager>::from_dimacs(rd()) {
                    let _ = e.to_string();
                }
            }
        }
        let _ = dimacs::parse_lit(t).map_err(|e| e.to_string());
        if let Some(l) = t.lines().next() {
            let got = dimacs::parse_lit(l).ok().map(ilit);
            let mut p = Ln(l);
            let want = p.int().filter(|_| p.0.is_empty()).and_then(|x| i32::try_from(x).ok()).filter(|x| *x != 0 && *x != i32::MIN);
            ensure!(got == want, "parse_lit({l:?}) = {got:?}");
        }
    }
    Ok(())
}
fn check_total_opb(r: &Raw, obs: &mut Obs) -> CheckResult {
    let bytes = raw_bytes(r);
    let limit = bytes.len() + 2;
    for first in [0u32, 1, 5] {
        let opts = opb::Options { first_var_idx: first, no_negated_lits: true };
        let mut p = opb::Parser::new(Cursor::new(&bytes[..]), opts);
        let mut n = 0;
        let mut seen_err = false;
        let mut all = vec![];
        while let Some(x) = p.next() {
            n += 1;
            ensure!(n <= limit, "parser does not terminate: more than {limit} items");
            match x {
                Ok(d) => {
                    if seen_err {
                        obs.nontrivial();
                        obs.label("reading continued after an error");
                    }
                    obs.label("statement accepted");
                    if !matches!(d, opb::Data::Cmt(_)) {
                        all.push(d);
                    }
                }
                Err(e) => {
                    seen_err = true;
                    obs.label("statement rejected");
                    let s = e.to_string();
                    ensure!(!s.is_empty(), "empty error message");
                }
            }
        }
        ensure!(p.next().is_none(), "parser continues after its end");
        for (i, r) in [
            SatInstance::<BasicVarManager>::from_opb(Cursor::new(&bytes[..]), opts).map(|_| ()),
            OptInstance::<BasicVarManager>::from_opb(Cursor::new(&bytes[..]), opts).map(|_| ()),
            MultiOptInstance::<BasicVarManager>::from_opb(Cursor::new(&bytes[..]), opts).map(|_| ()),
        ]
        .into_iter()
        .enumerate()
        {
            if let Err(e) = &r {
                let _ = e.to_string();
            }
            ensure!(r.is_err() || !seen_err, "file with an invalid statement accepted as instance {i}");
        }
        // what was accepted is the same when written out and read again
        for d in &all {
            let opb::Data::Constr(c) = d else { continue };
            let (l, cmp, b) = pb_parts(c);
            if l.iter().map(|x| x.1).sum::<i128>() + b.abs() > 1 << 60 || l.iter().any(|x| x.0.abs() as u32 > u32::MAX / 2 - 10) {
                continue;
            }
            let mut buf = vec![];
            let line: opb::FileLine<Vec<(Lit, usize)>> = opb::FileLine::Pb(c.clone());
            opb::write_opb_lines(&mut buf, std::iter::once(line), opb::Options { no_negated_lits: false, ..opts }).map_err(|e| Fail(e.to_string()))?;
            let mut p2 = opb::Parser::new(Cursor::new(&buf), opts);
            let Some(Ok(opb::Data::Constr(c2))) = p2.next() else { fail!("accepted constraint {c} is not accepted when written: {:?}", String::from_utf8_lossy(&buf)) };
            let (l2, cmp2, b2) = pb_parts(&c2);
            let vs = vars_of(l.iter().map(|x| x.0));
            if vs.len() > 8 {
                continue;
            }
            for m in 0..1u64 << vs.len() {
                let t = |x: i32| (m >> vs.iter().position(|v| *v == x.abs()).unwrap_or(63)) & 1 == u64::from(x > 0);
                let v: i128 = l.iter().filter(|x| t(x.0)).map(|x| x.1).sum();
                let v2: i128 = l2.iter().filter(|x| t(x.0)).map(|x| x.1).sum();
                ensure!(cmp.holds(v, b) == cmp2.holds(v2, b2), "{c} reads back as {c2}");
            }
        }
    }
    Ok(())
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "reading continued and accepted something after a rejected line or statement",
        assumptions: vec!["lines with carriage returns inside are only checked for totality", "instances are only built from numbers that respect the documented limits (weight sums up to isize::MAX) and a plausible number of objectives"],
        subs: vec![sub("dimacs", 150_000, 3_000_000, s_raw, check_total_dimacs), sub("opb", 120_000, 2_000_000, s_raw, check_total_opb)],
    }
}

// ---------- C15: solver output ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
enum OLine {
    C(String),
    S(u8, String),
    /// format, literals
    V(Vec<i32>),
    Raw(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OutCase {
    fmt: u8,
    lines: Vec<OLine>,
    style: Style,
}
#[derive(Debug, PartialEq, Clone)]
enum VErr {
    Tag(char),
    Empty,
    Conflict(u32),
    Char,
    Other,
}
#[derive(Clone, Default)]
struct Vals(Vec<i8>);
impl Vals {
    fn get(&self, l: i32) -> i8 {
        self.0.get(l.unsigned_abs() as usize - 1).copied().unwrap_or(0) * l.signum() as i8
    }
    fn set(&mut self, l: i32) {
        let i = l.unsigned_abs() as usize - 1;
        if self.0.len() <= i {
            self.0.resize(i + 1, 0);
        }
        self.0[i] = l.signum() as i8;
    }
    /// Documented value line formats; None if the line is in no documented format
    fn line(&mut self, l: &str) -> Option<Result<(), VErr>> {
        let Some(t) = l.chars().next() else { return Some(Err(VErr::Empty)) };
        if t != 'v' {
            return Some(Err(VErr::Tag(t)));
        }
        let b = l[1..].trim();
        let toks: Vec<&str> = b.split_whitespace().collect();
        if b.contains('x') {
            let mut ls = vec![];
            for t in &toks {
                let (neg, r) = match t.strip_prefix('-').or(t.strip_prefix('~')) {
                    Some(r) => (true, r),
                    None => (false, *t),
                };
                let v = r.strip_prefix('x').and_then(|r| if r.starts_with(['0', '+']) { None } else { r.parse::<u32>().ok() }).filter(|v| *v <= i32::MAX as u32);
                match v {
                    Some(v) => ls.push(if neg { -(v as i32) } else { v as i32 }),
                    None => {
                        ls.push(0);
                        break;
                    }
                }
            }
            return Some(self.assign(&ls));
        }
        if toks.len() == 1 && b != "0" && b.chars().all(|c| c == '0' || c == '1') {
            self.0.extend(b.chars().map(|c| if c == '1' { 1 } else { -1 }));
            return Some(Ok(()));
        }
        if b.is_empty() {
            return None;
        }
        let mut ls = vec![];
        for t in &toks {
            match t.parse::<i32>() {
                Ok(0) => (),
                Ok(i32::MIN) => return None,
                Ok(x) => ls.push(x),
                Err(_) => {
                    ls.push(0);
                    break;
                }
            }
        }
        Some(self.assign(&ls))
    }
    /// a zero stands for an invalid token
    fn assign(&mut self, ls: &[i32]) -> Result<(), VErr> {
        for l in ls {
            if *l == 0 {
                return Err(VErr::Other);
            }
            if self.get(*l) < 0 {
                return Err(VErr::Conflict(l.unsigned_abs() - 1));
            }
            self.set(*l);
        }
        Ok(())
    }
    fn same(&self, a: &Assignment) -> bool {
        let k = self.0.len().max(a.len());
        (0..k).all(|i| {
            a.var_value(Var::new(i as u32))
                == match self.0.get(i).copied().unwrap_or(0) {
                    0 => TernaryVal::DontCare,
                    1 => TernaryVal::True,
                    _ => TernaryVal::False,
                }
        })
    }
}
fn verr(e: &rustsat::types::InvalidVLine) -> VErr {
    use rustsat::types::InvalidVLine as I;
    match e {
        I::InvalidTag(t) => VErr::Tag(*t),
        I::EmptyLine => VErr::Empty,
        I::ConflictingAssignment(v) => VErr::Conflict(v.idx32()),
        I::InvalidCharacter(_) => VErr::Char,
        _ => VErr::Other,
    }
}
fn render_out(c: &OutCase) -> String {
    let mut st = Sty(&c.style.0, 0);
    let mut s = String::new();
    for l in &c.lines {
        match l {
            OLine::C(c) => s.push_str(&format!("c{c}")),
            OLine::S(k, junk) => {
                s.push_str("s ");
                s.push_str(["SATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "INDETERMINATE", junk][(*k as usize).min(4)]);
            }
            OLine::V(ls) => {
                s.push('v');
                match c.fmt % 3 {
                    0 => {
                        for l in ls {
                            s.push_str(st.sep1());
                            s.push_str(&l.to_string());
                        }
                        if st.next(2) == 0 {
                            s.push_str(" 0");
                        }
                    }
                    1 => {
                        s.push(' ');
                        s.extend(ls.iter().map(|l| if *l > 0 { '1' } else { '0' }));
                    }
                    _ => {
                        for l in ls {
                            s.push_str(st.sep1());
                            if *l < 0 {
                                s.push('-');
                            }
                            s.push_str(&format!("x{}", l.abs()));
                        }
                    }
                }
            }
            OLine::Raw(r) => s.push_str(r),
        }
        s.push_str(["\n", "\n", "\r\n"][st.next(3) as usize]);
    }
    s
}
fn check_out(c: &OutCase, obs: &mut Obs) -> CheckResult {
    let text = render_out(c);
    if has_huge(&text) {
        return Ok(());
    }
    // oracle
    #[derive(Debug, PartialEq)]
    enum W {
        Sat(Vec<i8>),
        Unsat,
        Unknown,
        NoS,
        NoV,
        InvS,
        V(VErr),
    }
    let mut is_sat = false;
    let mut vals: Option<Vals> = None;
    let mut want = None;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("s ") {
            let r = r.trim_start();
            want = if r.starts_with("UNSAT") && !r.starts_with("UNSATISFIABLE") {
                Some(W::InvS)
            } else if r.starts_with("UNSATISFIABLE") {
                Some(W::Unsat)
            } else if r.starts_with("UNKNOWN") || r.starts_with("INDETERMINATE") {
                Some(W::Unknown)
            } else if r.starts_with("SATISFIABLE") {
                is_sat = true;
                None
            } else {
                Some(W::InvS)
            };
        } else if l.starts_with("v ") {
            match vals.get_or_insert_with(Vals::default).line(l) {
                None => {
                    // no documented format: only totality
                    obs.label("undocumented value line");
                    let _ = fio::parse_sat_solver_output(Cursor::new(&text)).map_err(|e| e.to_string());
                    return Ok(());
                }
                Some(Err(e)) => want = Some(W::V(e)),
                Some(Ok(())) => (),
            }
        }
        if want.is_some() {
            break;
        }
    }
    let want = want.unwrap_or(if !is_sat {
        W::NoS
    } else {
        match &vals {
            Some(v) => W::Sat(v.0.clone()),
            None => W::NoV,
        }
    });
    obs.label(format!("{want:?}").split(['(', ' ']).next().unwrap().to_string());
    if let W::Sat(v) = &want {
        if v.len() > 2 && c.lines.len() > 2 {
            obs.nontrivial();
        }
    }
    let got = fio::parse_sat_solver_output(Cursor::new(&text));
    if let Err(e) = &got {
        ensure!(!e.to_string().is_empty(), "empty error message");
    }
    let ok = match (&got, &want) {
        (Ok(SolverOutput::Sat(a)), W::Sat(v)) => Vals(v.clone()).same(a),
        (Ok(SolverOutput::Unsat), W::Unsat) | (Ok(SolverOutput::Unknown), W::Unknown) => true,
        (Err(fio::SatSolverOutputError::NoSLine), W::NoS) | (Err(fio::SatSolverOutputError::NoVLine), W::NoV) | (Err(fio::SatSolverOutputError::InvalidSLine), W::InvS) => true,
        (Err(fio::SatSolverOutputError::InvalidVLine(e)), W::V(w)) => {
            let g = verr(e);
            match (&g, w) {
                (VErr::Conflict(a), VErr::Conflict(b)) => a == b,
                (VErr::Tag(a), VErr::Tag(b)) => a == b,
                (VErr::Char | VErr::Other, VErr::Other) => true,
                (a, b) => a == b,
            }
        }
        _ => false,
    };
    ensure!(ok, "solver output {text:?} read as {got:?}, expected {want:?}");
    Ok(())
}
/// values lines with large variables would allocate gigabytes
fn has_huge(t: &str) -> bool {
    t.split(|c: char| !c.is_ascii_digit()).any(|d| d.len() > 6 && !d.chars().all(|c| c == '0' || c == '1'))
        || t.split(|c: char| !c.is_ascii_digit()).any(|d| d.len() > 6 && d.len() < 11)
}
fn s_out(_t: Tier) -> BoxedStrategy<OutCase> {
    let consistent = (vec(any::<bool>(), 1..14), any::<bool>()).prop_map(|(b, gap)| b.iter().enumerate().filter(|(i, _)| !gap || i % 3 != 2).map(|(i, b)| if *b { i as i32 + 1 } else { -(i as i32) - 1 }).collect::<Vec<i32>>());
    let wild = vec(prop_oneof![5 => s_lit(6), 1 => s_lit(300)], 0..8);
    let line = prop_oneof![
        1 => s_cmt().prop_map(OLine::C),
        2 => (0u8..5, "[A-Z]{0,5}|UNSAT|SAT|SATISFIABLE |OPTIMUM FOUND").prop_map(|(k, j)| OLine::S(k, j)),
        3 => Just(OLine::S(0, String::new())),
        4 => consistent.prop_map(OLine::V),
        2 => wild.prop_map(OLine::V),
        1 => prop::sample::select(vec!["", "v", "v ", "s", "s ", "o 12", "v x1 2", "v 1 x2", "v 12", "v 0", "v 1a", "v -", "v ~x1 x2", "v x0", "v x", "v --1", "v +1 -2 0", "vx1", "v1", "v 1 -1 0", "v x1 -x1", "garbage", "vv 1", "v 1 é", "v é", "s \tSATISFIABLE", "s  UNSATISFIABLE"]).prop_map(|s| OLine::Raw(s.to_string())),
    ];
    (0u8..3, vec(line, 0..7), s_style()).prop_map(|(fmt, lines, style)| OutCase { fmt, lines, style }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VCase {
    lines: Vec<String>,
}
fn check_vline(c: &VCase, obs: &mut Obs) -> CheckResult {
    let mut a = Assignment::default();
    let mut m = Vals::default();
    for l in &c.lines {
        if has_huge(l) {
            return Ok(());
        }
        let before = m.clone();
        let got = a.extend_from_vline(l);
        let from = Assignment::from_vline(l);
        if let Err(e) = &from {
            ensure!(!e.to_string().is_empty(), "empty error message");
        }
        let multi = l.trim_end_matches(['\n', '\r']).contains('\n');
        if multi {
            obs.label("several lines");
            return Ok(());
        }
        let Some(want) = (if l.is_empty() { Some(Err(VErr::Empty)) } else { m.line(l.lines().next().unwrap_or("")) }) else {
            obs.label("undocumented format");
            return Ok(());
        };
        match (&got, &want) {
            (Ok(()), Ok(())) => {
                ensure!(m.same(&a), "{l:?} after {:?} gives {a}", before.0);
                obs.label("accepted");
                obs.nontrivial();
            }
            (Err(e), Err(w)) => {
                let g = verr(e);
                let ok = match (&g, w) {
                    (VErr::Char | VErr::Other, VErr::Other) => true,
                    (a, b) => a == b,
                };
                ensure!(ok, "{l:?} after {:?} fails with {e:?}, expected {w:?}", before.0);
                obs.label(format!("{w:?}").split('(').next().unwrap().to_string());
                // on error the contents are left open
                return Ok(());
            }
            _ => fail!("{l:?} after {:?} gives {got:?}, expected {want:?}", before.0),
        }
        let mut m2 = Vals::default();
        let w2 = m2.line(l.lines().next().unwrap_or(""));
        ensure!(from.is_ok() == matches!(w2, Some(Ok(()))), "from_vline({l:?}) = {from:?}");
        if let Ok(f) = from {
            ensure!(m2.same(&f), "from_vline({l:?}) = {f}");
        }
    }
    Ok(())
}
fn s_vline(_t: Tier) -> BoxedStrategy<VCase> {
    let l = vec(prop_oneof![6 => s_lit(8), 1 => s_lit(2000)], 0..8);
    let line = prop_oneof![
        3 => l.clone().prop_map(|l| format!("v {} 0", l.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(" "))),
        2 => l.prop_map(|l| format!("v {}", l.iter().map(|l| format!("{}x{}", if *l < 0 { "-" } else { "" }, l.abs())).collect::<Vec<_>>().join(" "))),
        3 => "v [01]{1,30}",
        2 => "v( [-~]?x?[0-9]{0,2}){0,5} ?",
        1 => "[vsx0-9 -]{0,12}",
        1 => any::<String>(),
        1 => "v[ ä☃x01-]{0,8}",
    ];
    vec(line, 1..4).prop_map(|lines| VCase { lines }).boxed()
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "solver output: a solution over at least three variables in at least three lines; value lines: accepted",
        assumptions: vec!["variables up to six digits (larger ones only cost memory)", "value lines in none of the three documented formats (no values at all) are only checked for totality"],
        subs: vec![sub("solver output", 150_000, 2_500_000, s_out, check_out), sub("value lines", 150_000, 2_500_000, s_vline, check_vline)],
    }
}

// ---------- C28: files and compression ----------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ZCase {
    n: i32,
    con: Vec<Con>,
    obj: Vec<OOp>,
    ext: u8,
    chunks: Vec<(u16, u8)>,
    cut: u16,
    what: u8,
}
const EXTS: [&str; 11] = ["cnf", "gz", "bz2", "xz", "GZ", "Bz2", "XZ", "", "gzip", "cnf.gz", "a.b.xz"];
fn algo(ext: &str) -> Option<&'static str> {
    match ext.rsplit('.').next().unwrap().to_ascii_lowercase().as_str() {
        "gz" => Some("gzip"),
        "bz2" => Some("bzip2"),
        "xz" => Some("xz"),
        _ => None,
    }
}
fn external(cmd: &str, args: &[&str], input: &[u8]) -> Option<Vec<u8>> {
    let mut c = std::process::Command::new(cmd).args(args).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let mut i = c.stdin.take().unwrap();
    let inp = input.to_vec();
    let h = std::thread::spawn(move || {
        let _ = i.write_all(&inp);
    });
    let o = c.wait_with_output().ok()?;
    let _ = h.join();
    o.status.success().then_some(o.stdout)
}
fn zdata(c: &ZCase) -> Vec<u8> {
    let mut d = vec![];
    for (n, b) in &c.chunks {
        let k = *n as usize % 9000;
        if b % 3 == 0 {
            let mut x = *n as u64 * 0x9e37_79b9 + *b as u64;
            for _ in 0..k {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                d.push(x as u8);
            }
        } else {
            d.extend(std::iter::repeat_n(*b, k));
        }
    }
    d
}
fn check_files(c: &ZCase, obs: &mut Obs) -> CheckResult {
    let dir = tempfile::Builder::new().prefix("vfio").tempdir().map_err(|e| Fail(e.to_string()))?;
    let ext = EXTS[c.ext as usize % EXTS.len()];
    let name = if ext.is_empty() { "file".to_string() } else { format!("file.{ext}") };
    let path = dir.path().join(name);
    let algo = algo(ext);
    obs.label(algo.unwrap_or("plain"));
    let io = |e: std::io::Error| Fail(format!("IO error: {e}"));
    let n = c.n;
    match c.what % 8 {
        0 | 1 | 2 => {
            // arbitrary bytes
            let data = zdata(c);
            if data.len() > 8192 {
                obs.nontrivial();
            }
            {
                let mut w = fio::open_compressed_uncompressed_write(&path).map_err(io)?;
                let mut pos = 0;
                for (k, b) in &c.chunks {
                    let e = (pos + *k as usize % 9000).min(data.len());
                    w.write_all(&data[pos..e]).map_err(io)?;
                    if b % 5 == 0 {
                        w.flush().map_err(io)?;
                    }
                    pos = e;
                }
                ensure!(pos == data.len(), "harness");
                if c.cut % 2 == 0 {
                    w.flush().map_err(io)?;
                }
            }
            let raw = std::fs::read(&path).map_err(io)?;
            let read = |p: &std::path::Path| -> std::io::Result<Vec<u8>> {
                let mut r = fio::open_compressed_uncompressed_read(p)?;
                let mut v = vec![];
                r.read_to_end(&mut v)?;
                Ok(v)
            };
            let got = read(&path).map_err(io)?;
            ensure!(got == data, "read {} bytes back instead of {} ({ext})", got.len(), data.len());
            match algo {
                None => ensure!(raw == data, "plain file is changed"),
                Some(z) => {
                    match external(z, &["-dc"], &raw) {
                        Some(d) => ensure!(d == data, "{z} decompresses the written file differently"),
                        None => ensure!(external(z, &["--version"], b"").is_none(), "{z} does not accept the written file"),
                    }
                    // a file written by another tool, in several members
                    if c.what % 8 == 1 {
                        let k = if data.is_empty() { 0 } else { c.cut as usize % data.len() };
                        if let (Some(mut a), Some(b)) = (external(z, &["-c"], &data[..k]), external(z, &["-c"], &data[k..])) {
                            obs.label("several members");
                            a.extend(b);
                            std::fs::write(&path, a).map_err(io)?;
                            let got = read(&path).map_err(io)?;
                            ensure!(got == data, "read {} of {} bytes from a file of two members ({z})", got.len(), data.len());
                        }
                    }
                    // a truncated file is an error
                    if c.what % 8 == 2 && raw.len() > 1 {
                        obs.label("truncated");
                        let k = 1 + c.cut as usize % (raw.len() - 1);
                        std::fs::write(&path, &raw[..k]).map_err(io)?;
                        match read(&path) {
                            Ok(_) => fail!("file truncated to {k} of {} bytes is read without an error ({z})", raw.len()),
                            Err(_) => (),
                        }
                    }
                }
            }
        }
        k => {
            let inst: SatInstance = build(&c.con);
            let clausal = is_clausal(&c.con);
            let opts = opb::Options { first_var_idx: c.cut as u32 % 3, no_negated_lits: c.cut % 2 == 0 };
            let want = |a: u64| sat_all(&c.con, a);
            let same = |i: &SatInstance| -> CheckResult {
                for a in 0..1u64 << n {
                    ensure!(i.evaluate(&full(n, a)) == tv(want(a)), "instance differs after writing to and reading from {path:?}");
                }
                Ok(())
            };
            if inst.n_constraints() > 1 {
                obs.nontrivial();
            }
            let (o, m) = build_obj(n, &c.obj, &mut Obs::default())?;
            let ok_obj = |g: &Objective| -> CheckResult {
                for a in 0..1u64 << n {
                    let v = g.evaluate(&full(n, a)) as i128 - g.evaluate(&full(n, 0)) as i128;
                    ensure!(v == m.cost(a) - m.cost(0), "objective differs after writing to and reading from {path:?}");
                }
                Ok(())
            };
            let softs = o.iter_soft_lits().is_ok();
            let e = |e: &dyn std::fmt::Display| Fail(format!("{e}"));
            match k {
                3 if clausal => {
                    inst.write_dimacs_path(&path).map_err(|x| e(&x))?;
                    same(&SatInstance::from_dimacs_path(&path).map_err(|x| e(&x))?)?;
                }
                4 if clausal => {
                    let i: OptInstance = OptInstance::compose(inst.clone(), o);
                    i.write_dimacs_path(&path).map_err(|x| e(&x))?;
                    let b: OptInstance = OptInstance::from_dimacs_path(&path).map_err(|x| e(&x))?;
                    same(b.constraints_ref())?;
                    ok_obj(b.objective_ref())?;
                }
                5 if clausal => {
                    // a non-empty objective keeps its position
                    let i: MultiOptInstance = MultiOptInstance::compose(inst.clone(), vec![o]);
                    i.write_dimacs_path(&path).map_err(|x| e(&x))?;
                    let b: MultiOptInstance = MultiOptInstance::from_dimacs_path(&path).map_err(|x| e(&x))?;
                    same(b.constraints_ref())?;
                    if b.n_objectives() > 0 {
                        ok_obj(b.objective_ref(0))?;
                    } else {
                        ok_obj(&Objective::new())?;
                    }
                }
                6 if softs => {
                    let i: OptInstance = OptInstance::compose(inst.clone(), o);
                    i.write_opb_path(&path, opts).map_err(|x| e(&x))?;
                    let b: OptInstance = OptInstance::from_opb_path(&path, opts).map_err(|x| e(&x))?;
                    same(b.constraints_ref())?;
                    ok_obj(b.objective_ref())?;
                    let b: MultiOptInstance = MultiOptInstance::from_opb_path(&path, opts).map_err(|x| e(&x))?;
                    same(b.constraints_ref())?;
                    ok_obj(b.objective_ref(0))?;
                }
                _ => {
                    inst.write_opb_path(&path, opts).map_err(|x| e(&x))?;
                    same(&SatInstance::from_opb_path(&path, opts).map_err(|x| e(&x))?)?;
                }
            }
            ensure!(SatInstance::<BasicVarManager>::from_dimacs_path(dir.path().join("missing.cnf")).is_err(), "missing file read");
        }
    }
    Ok(())
}
fn s_zcase(t: Tier) -> BoxedStrategy<ZCase> {
    (1i32..=4)
        .prop_flat_map(move |n| {
            let clausal = vec(vec(s_lit(n), 0..=4).prop_map(Con::Cl), 0..=5);
            (Just(n), prop_oneof![2 => clausal, 1 => s_spec(n, 4)], s_oops(n, 0, 5), any::<u8>(), vec((any::<u16>(), any::<u8>()), 0..t.pick(6, 12)), any::<u16>(), any::<u8>())
        })
        .prop_map(|(n, con, obj, ext, chunks, cut, what)| ZCase { n, con, obj, ext, chunks, cut, what })
        .boxed()
}
pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "more than 8 KiB of data, or an instance with at least two constraints",
        assumptions: vec!["local file system in a temporary directory", "gzip, bzip2 and xz, where installed, as independent implementations"],
        subs: vec![sub("files", 4_000, 60_000, s_zcase, check_files)],
    }
}
