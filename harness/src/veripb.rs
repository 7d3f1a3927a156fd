//! A small independent parser and checker for the VeriPB 2.0 proof format (the rules RustSAT and
//! pigeons write). Written from the format description, not from pigeons.
use std::collections::{BTreeMap, HashMap};

pub type V = usize;

/// `sum coef * x >= rhs` over variables (negative literals are rewritten)
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Con {
    pub t: BTreeMap<V, i128>,
    pub b: i128,
}

impl Con {
    /// From literal terms `(coef, var, negated)`
    pub fn from_terms(ts: &[(i128, V, bool)], rhs: i128) -> Con {
        let mut c = Con { t: BTreeMap::new(), b: rhs };
        for (k, v, n) in ts {
            if *n {
                *c.t.entry(*v).or_default() -= k;
                c.b -= k;
            } else {
                *c.t.entry(*v).or_default() += k;
            }
        }
        c.clean();
        c
    }
    fn clean(&mut self) {
        self.t.retain(|_, k| *k != 0);
    }
    /// The degree: right-hand side when all coefficients are made positive by flipping literals
    pub fn degree(&self) -> i128 {
        self.b - self.t.values().filter(|k| **k < 0).sum::<i128>()
    }
    fn from_degree(t: BTreeMap<V, i128>, d: i128) -> Con {
        let mut c = Con { b: 0, t };
        c.b = d + c.t.values().filter(|k| **k < 0).sum::<i128>();
        c.clean();
        c
    }
    pub fn add(&self, o: &Con) -> Con {
        let mut c = self.clone();
        for (v, k) in &o.t {
            *c.t.entry(*v).or_default() += k;
        }
        c.b += o.b;
        c.clean();
        c
    }
    pub fn mul(&self, m: i128) -> Con {
        let mut c = self.clone();
        c.t.values_mut().for_each(|k| *k *= m);
        c.b *= m;
        c.clean();
        c
    }
    pub fn div(&self, m: i128) -> Con {
        let up = |x: i128| (x + m - 1).div_euclid(m);
        let d = up(self.degree());
        let t = self.t.iter().map(|(v, k)| (*v, if *k > 0 { up(*k) } else { -up(-*k) })).collect();
        Con::from_degree(t, d)
    }
    pub fn sat(&self) -> Con {
        let d = self.degree();
        if d <= 0 {
            return Con { t: BTreeMap::new(), b: 0 };
        }
        let t = self.t.iter().map(|(v, k)| (*v, k.signum() * k.abs().min(d))).collect();
        Con::from_degree(t, d)
    }
    pub fn weaken(&self, v: V) -> Con {
        let mut t = self.t.clone();
        let d = self.degree() - t.remove(&v).unwrap_or(0).abs();
        Con::from_degree(t, d)
    }
    pub fn neg(&self) -> Con {
        // sum <= b-1
        let mut c = self.mul(-1);
        c.b = 1 - self.b;
        c
    }
    pub fn trivial(&self) -> bool {
        self.degree() <= 0
    }
    pub fn contradiction(&self) -> bool {
        self.t.values().map(|k| k.abs()).sum::<i128>() < self.degree()
    }
    /// VeriPB's syntactic implication: weakening `self` literal by literal gives `o`
    pub fn implies(&self, o: &Con) -> bool {
        if o.trivial() {
            return true;
        }
        let mut d = self.degree();
        let od = o.degree();
        for (v, k) in &self.t {
            let ok = o.t.get(v).copied().unwrap_or(0);
            let keep = if ok.signum() == k.signum() { ok.abs() } else { 0 };
            // saturated literals of `o` keep everything
            let keep = if keep >= od { i128::MAX } else { keep };
            d -= (k.abs() - keep.min(k.abs())).max(0);
        }
        d >= od
    }
    pub fn subst(&self, w: &HashMap<V, Sub>) -> Con {
        let mut ts = vec![];
        let mut b = self.b;
        for (v, k) in &self.t {
            match w.get(v) {
                None => ts.push((*k, *v, false)),
                Some(Sub::Fix(true)) => b -= k,
                Some(Sub::Fix(false)) => {}
                Some(Sub::Lit(u, n)) => ts.push((*k, *u, *n)),
            }
        }
        Con::from_terms(&ts, b)
    }
    pub fn eval(&self, f: &dyn Fn(V) -> bool) -> bool {
        self.t.iter().filter(|(v, _)| f(**v)).map(|(_, k)| *k).sum::<i128>() >= self.b
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sub {
    Fix(bool),
    Lit(V, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Id {
    Num(i64),
    Hash(usize),
    Tilde,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    F(usize),
    Comment(String),
    Pol(Vec<String>),
    Rup(Con, Vec<Id>),
    Red(bool, Con, Vec<(V, Sub)>, Option<Vec<Step>>),
    DelId(Vec<i64>, Option<Vec<Step>>),
    DelSpec(Con),
    DelRange(i64, i64),
    DelCore(Vec<i64>),
    DelDerived(Vec<i64>),
    ObjuNew(Vec<(i128, V, bool)>, i128, Option<Vec<Step>>),
    ObjuDiff(Vec<(i128, V, bool)>, i128),
    Sol(Vec<(V, bool)>),
    Solx(Vec<(V, bool)>),
    Soli(Vec<(V, bool)>),
    CoreId(Vec<i64>),
    CoreRange(i64, i64),
    Eq(Con, Option<i64>),
    EqAdd(Con, Option<i64>),
    Imp(Con, Option<i64>),
    ImpAdd(Con, Option<i64>),
    EObj(Vec<(i128, V, bool)>, i128),
    SetLevel(usize),
    Wipe(usize),
    LoadOrder(String, Vec<String>),
    ToCore(bool),
    DefOrder(Vec<String>),
    Output(String),
    Conclusion(Vec<String>),
    Goal(Id, Vec<Step>),
    End,
}

#[derive(Default)]
pub struct Names {
    map: HashMap<String, V>,
    pub names: Vec<String>,
}
impl Names {
    pub fn get(&mut self, n: &str) -> V {
        if let Some(v) = self.map.get(n) {
            return *v;
        }
        let v = self.names.len();
        self.names.push(n.to_string());
        self.map.insert(n.to_string(), v);
        v
    }
}

pub struct Parser<'a> {
    lines: Vec<&'a str>,
    pos: usize,
    pub names: Names,
}

type R<T> = Result<T, String>;

fn is_var(s: &str) -> bool {
    // letter first, then letters, digits and []{}_^-
    let mut ch = s.chars();
    ch.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && s.len() >= 2 && ch.all(|c| c.is_ascii_alphanumeric() || "[]{}_^-".contains(c))
}

impl<'a> Parser<'a> {
    pub fn new(text: &'a str) -> Self {
        Parser { lines: text.lines().collect(), pos: 0, names: Names::default() }
    }
    pub fn lit(&mut self, s: &str) -> R<(V, bool)> {
        let (n, v) = match s.strip_prefix('~') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if !is_var(v) {
            return Err(format!("not a literal: {s:?}"));
        }
        Ok((self.names.get(v), n))
    }
    fn lits(&mut self, s: &str) -> R<Vec<(V, bool)>> {
        s.split_whitespace().map(|x| self.lit(x)).collect()
    }
    fn terms(&mut self, toks: &[&str]) -> R<(Vec<(i128, V, bool)>, i128)> {
        let mut ts = vec![];
        let mut k = 0;
        let mut i = 0;
        while i < toks.len() {
            let c: i128 = toks[i].parse().map_err(|_| format!("not a coefficient: {:?}", toks[i]))?;
            if i + 1 < toks.len() && toks[i + 1].parse::<i128>().is_err() {
                let (v, n) = self.lit(toks[i + 1])?;
                ts.push((c, v, n));
                i += 2;
            } else {
                k += c;
                i += 1;
            }
        }
        Ok((ts, k))
    }
    pub fn con(&mut self, s: &str) -> R<Con> {
        let toks: Vec<&str> = s.split_whitespace().collect();
        let p = toks.iter().position(|t| *t == ">=").ok_or_else(|| format!("no >= in {s:?}"))?;
        if p + 2 != toks.len() {
            return Err(format!("one right-hand side expected in {s:?}"));
        }
        let (ts, k) = self.terms(&toks[..p])?;
        if k != 0 || toks[..p].len() % 2 != 0 {
            return Err(format!("constant on the left of {s:?}"));
        }
        Ok(Con::from_terms(&ts, toks[p + 1].parse().map_err(|_| format!("bad right-hand side in {s:?}"))?))
    }
    fn ints(s: &str) -> R<Vec<i64>> {
        s.split_whitespace().map(|x| x.parse().map_err(|_| format!("not an id: {x:?}"))).collect()
    }
    fn subs(&mut self, s: &str) -> R<Vec<(V, Sub)>> {
        let toks: Vec<&str> = s.split_whitespace().collect();
        if toks.len() % 3 != 0 {
            return Err(format!("bad substitution {s:?}"));
        }
        toks.chunks(3)
            .map(|c| {
                let (v, n) = self.lit(c[0])?;
                if n || c[1] != "->" {
                    return Err(format!("bad substitution {s:?}"));
                }
                Ok((
                    v,
                    match c[2] {
                        "1" => Sub::Fix(true),
                        "0" => Sub::Fix(false),
                        l => {
                            let (u, m) = self.lit(l)?;
                            Sub::Lit(u, m)
                        }
                    },
                ))
            })
            .collect()
    }
    fn next_line(&mut self) -> Option<&'a str> {
        while self.pos < self.lines.len() {
            let l = self.lines[self.pos].trim();
            self.pos += 1;
            if !l.is_empty() {
                return Some(l);
            }
        }
        None
    }
    /// Parses a whole proof
    pub fn proof(&mut self) -> R<Vec<Step>> {
        if self.next_line() != Some("pseudo-Boolean proof version 2.0") {
            return Err("header".into());
        }
        let mut out = vec![];
        loop {
            let l = self.next_line().ok_or("proof is not ended")?;
            let s = self.step(l).map_err(|e| format!("line {:?}: {e}", l))?;
            let end = s == Step::End;
            out.push(s);
            if end {
                break;
            }
        }
        if let Some(l) = self.next_line() {
            return Err(format!("text after the end: {l:?}"));
        }
        Ok(out)
    }
    fn sub(&mut self, term: &str) -> R<Vec<Step>> {
        let mut out = vec![];
        loop {
            let l = self.next_line().ok_or("subproof is not ended")?;
            if l == term {
                return Ok(out);
            }
            out.push(self.step(l).map_err(|e| format!("line {l:?}: {e}"))?);
        }
    }
    /// The last `;`-separated part may be `begin`
    fn begin(&mut self, parts: &mut Vec<&'a str>) -> R<Option<Vec<Step>>> {
        if parts.last() == Some(&"begin") {
            parts.pop();
            return Ok(Some(self.sub("end")?));
        }
        Ok(None)
    }
    fn step(&mut self, l: &'a str) -> R<Step> {
        let (kw, rest) = l.split_once(char::is_whitespace).map_or((l, ""), |(a, b)| (a, b.trim()));
        let mut parts: Vec<&'a str> = rest.split(';').map(str::trim).collect();
        let opt_id = |parts: &[&str]| -> R<Option<i64>> {
            if parts.len() != 2 {
                return Err("needs one ;".into());
            }
            if parts[1].is_empty() {
                Ok(None)
            } else {
                parts[1].parse().map(Some).map_err(|_| "bad id".to_string())
            }
        };
        Ok(match kw {
            "*" => Step::Comment(l[1..].strip_prefix(' ').unwrap_or("").to_string()),
            "f" => Step::F(rest.parse().map_err(|_| "f")?),
            "pol" | "p" => {
                for t in rest.split_whitespace() {
                    if !matches!(t, "+" | "*" | "d" | "s" | "w") && t.parse::<i64>().is_err() {
                        self.lit(t)?;
                    }
                }
                Step::Pol(rest.split_whitespace().map(String::from).collect())
            }
            "rup" | "u" => {
                if parts.len() > 2 {
                    return Err("too many ;".into());
                }
                let c = self.con(parts[0])?;
                let h = parts.get(1).copied().unwrap_or("");
                Step::Rup(
                    c,
                    h.split_whitespace()
                        .map(|x| if x == "~" { Ok(Id::Tilde) } else { x.parse().map(Id::Num).map_err(|_| format!("bad hint {x:?}")) })
                        .collect::<R<_>>()?,
                )
            }
            "red" | "dom" => {
                let sp = self.begin(&mut parts)?;
                if parts.len() != 2 {
                    return Err("wrong number of ;".into());
                }
                Step::Red(kw == "red", self.con(parts[0])?, self.subs(parts[1])?, sp)
            }
            "del" => {
                let (k2, r2) = rest.split_once(char::is_whitespace).ok_or("del")?;
                match k2 {
                    "id" => {
                        let sp = self.begin(&mut parts)?;
                        let ids = parts[0].strip_prefix("id").unwrap();
                        if parts[1..].iter().any(|p| !p.is_empty()) {
                            return Err("witness in del".into());
                        }
                        let ids = Self::ints(ids)?;
                        if ids.is_empty() {
                            return Err("no ids".into());
                        }
                        Step::DelId(ids, sp)
                    }
                    "spec" => Step::DelSpec(self.con(r2.trim().strip_suffix(';').ok_or("needs ;")?)?),
                    "range" => {
                        let i = Self::ints(r2)?;
                        if i.len() != 2 {
                            return Err("range".into());
                        }
                        Step::DelRange(i[0], i[1])
                    }
                    _ => return Err("del".into()),
                }
            }
            "delc" => Step::DelCore(Self::ints(rest)?),
            "deld" => Step::DelDerived(Self::ints(rest)?),
            "obju" => {
                let (k2, _) = rest.split_once(char::is_whitespace).ok_or("obju")?;
                let sp = self.begin(&mut parts)?;
                if parts.is_empty() || parts[1..].iter().any(|p| !p.is_empty()) {
                    return Err("obju".into());
                }
                if sp.is_none() && parts.len() != 2 {
                    return Err("obju needs ;".into());
                }
                let toks: Vec<&str> = parts[0].split_whitespace().skip(1).collect();
                let (t, k) = self.terms(&toks)?;
                match k2 {
                    "new" => Step::ObjuNew(t, k, sp),
                    "diff" if sp.is_none() => Step::ObjuDiff(t, k),
                    _ => return Err("obju".into()),
                }
            }
            "eobj" => {
                let toks: Vec<&str> = parts[0].split_whitespace().collect();
                if parts.len() != 2 {
                    return Err("eobj needs ;".into());
                }
                let (t, k) = self.terms(&toks)?;
                Step::EObj(t, k)
            }
            "sol" => Step::Sol(self.lits(rest)?),
            "solx" => Step::Solx(self.lits(rest)?),
            "soli" => Step::Soli(self.lits(rest)?),
            "core" => {
                let (k2, r2) = rest.split_once(char::is_whitespace).ok_or("core")?;
                let i = Self::ints(r2)?;
                match k2 {
                    "id" if !i.is_empty() => Step::CoreId(i),
                    "range" if i.len() == 2 => Step::CoreRange(i[0], i[1]),
                    _ => return Err("core".into()),
                }
            }
            "e" => Step::Eq(self.con(parts[0])?, opt_id(&parts)?),
            "ea" => Step::EqAdd(self.con(parts[0])?, opt_id(&parts)?),
            "i" => Step::Imp(self.con(parts[0])?, opt_id(&parts)?),
            "ia" => Step::ImpAdd(self.con(parts[0])?, opt_id(&parts)?),
            "#" => Step::SetLevel(rest.parse().map_err(|_| "level")?),
            "w" => Step::Wipe(rest.parse().map_err(|_| "level")?),
            "load_order" => {
                let mut t = rest.split_whitespace().map(String::from);
                let n = t.next().unwrap_or_default();
                Step::LoadOrder(n, t.collect())
            }
            "strengthening_to_core" => Step::ToCore(match rest {
                "on" => true,
                "off" => false,
                _ => return Err("on/off".into()),
            }),
            "def_order" => {
                // kept as raw lines up to the matching end
                let mut raw = vec![l.to_string()];
                let mut depth = 1;
                while depth > 0 {
                    let x = self.next_line().ok_or("order is not ended")?;
                    match x.split_whitespace().next().unwrap() {
                        "vars" | "def" | "transitivity" | "reflexivity" => depth += 1,
                        "end" => depth -= 1,
                        _ => {}
                    }
                    raw.push(x.to_string());
                }
                Step::DefOrder(raw)
            }
            "output" => Step::Output(rest.to_string()),
            "conclusion" => Step::Conclusion(rest.split_whitespace().map(String::from).collect()),
            "proofgoal" => {
                let id = match rest.strip_prefix('#') {
                    Some(n) => Id::Hash(n.parse().map_err(|_| "goal id")?),
                    None => Id::Num(rest.parse().map_err(|_| "goal id")?),
                };
                Step::Goal(id, self.sub("qed -1")?)
            }
            "end" if rest == "pseudo-Boolean proof" => Step::End,
            _ => return Err(format!("unknown rule {kw:?}")),
        })
    }
}

/// The checker: a database of constraints by id
pub struct Checker {
    pub db: BTreeMap<usize, Con>,
    /// everything that ever had an id, deleted or not
    pub all: HashMap<usize, Con>,
    pub next: usize,
    pub n_orig: usize,
    pub steps: usize,
}

impl Checker {
    pub fn new(orig: &[Con]) -> Self {
        let db: BTreeMap<_, _> = orig.iter().cloned().enumerate().map(|(i, c)| (i + 1, c)).collect();
        Checker { all: db.iter().map(|(k, v)| (*k, v.clone())).collect(), db, next: orig.len() + 1, n_orig: orig.len(), steps: 0 }
    }
    fn push(&mut self, c: Con) {
        self.all.insert(self.next, c.clone());
        self.db.insert(self.next, c);
        self.next += 1;
    }
    fn get(&self, id: i64) -> R<&Con> {
        let a = if id < 0 { self.next as i64 + id } else { id };
        self.db.get(&(a as usize)).ok_or_else(|| format!("no constraint with id {id}"))
    }
    /// Unit propagation to conflict over the given constraints
    pub fn propagate(cons: &[&Con]) -> bool {
        let mut a: HashMap<V, bool> = HashMap::new();
        loop {
            let mut changed = false;
            for c in cons {
                let mut slack = -c.b;
                for (v, k) in &c.t {
                    match a.get(v) {
                        Some(true) => slack += k,
                        Some(false) => {}
                        None => slack += (*k).max(0),
                    }
                }
                if slack < 0 {
                    return true;
                }
                for (v, k) in &c.t {
                    if k.abs() > slack && !a.contains_key(v) {
                        a.insert(*v, *k > 0);
                        changed = true;
                    }
                }
            }
            if !changed {
                return false;
            }
        }
    }
    pub fn pol(&self, toks: &[String], names: &mut dyn FnMut(&str) -> R<(V, bool)>) -> R<Con> {
        enum I {
            C(Con),
            N(i128),
            L(V, Con),
        }
        let mut st: Vec<I> = vec![];
        // a number is an id unless the next operator consuming it is `*` or `d`
        for (i, t) in toks.iter().enumerate() {
            let nxt = toks.get(i + 1).map(String::as_str);
            match t.as_str() {
                "+" => {
                    let (b, a) = (st.pop(), st.pop());
                    match (a, b) {
                        (Some(I::C(a) | I::L(_, a)), Some(I::C(b) | I::L(_, b))) => st.push(I::C(a.add(&b))),
                        _ => return Err("+ without two constraints".into()),
                    }
                }
                "*" | "d" => {
                    let (b, a) = (st.pop(), st.pop());
                    match (a, b) {
                        (Some(I::C(a) | I::L(_, a)), Some(I::N(n))) if n > 0 => st.push(I::C(if t == "*" { a.mul(n) } else { a.div(n) })),
                        _ => return Err(format!("{t} without constraint and positive number")),
                    }
                }
                "s" => match st.pop() {
                    Some(I::C(a) | I::L(_, a)) => st.push(I::C(a.sat())),
                    _ => return Err("s without constraint".into()),
                },
                "w" => match (st.pop(), st.pop()) {
                    (Some(I::L(v, _)), Some(I::C(a))) => st.push(I::C(a.weaken(v))),
                    _ => return Err("w without constraint and variable".into()),
                },
                t => {
                    if let Ok(n) = t.parse::<i64>() {
                        if matches!(nxt, Some("*" | "d")) {
                            st.push(I::N(n as i128));
                        } else {
                            st.push(I::C(self.get(n)?.clone()));
                        }
                    } else {
                        let (v, n) = names(t)?;
                        st.push(I::L(v, Con::from_terms(&[(1, v, n)], 0)));
                    }
                }
            }
        }
        match (st.pop(), st.pop()) {
            (Some(I::C(c) | I::L(_, c)), None) => Ok(c),
            (None, _) => Err("empty operation sequence".into()),
            _ => Err("operation sequence leaves more than one constraint".into()),
        }
    }
    pub fn rup(&self, c: &Con, hints: &[Id]) -> R<()> {
        let n = c.neg();
        let mut cs: Vec<&Con> = vec![&n];
        if hints.is_empty() {
            cs.extend(self.db.values());
        } else {
            for h in hints {
                match h {
                    Id::Num(i) => cs.push(self.get(*i)?),
                    Id::Tilde => {}
                    Id::Hash(_) => return Err("goal id as hint".into()),
                }
            }
        }
        if Self::propagate(&cs) {
            Ok(())
        } else {
            Err("not implied by reverse unit propagation".into())
        }
    }
    fn auto(&self, goal: &Con, extra: &Con) -> bool {
        if goal.trivial() || extra.implies(goal) || self.db.values().any(|d| d.implies(goal)) {
            return true;
        }
        let n = goal.neg();
        let mut cs: Vec<&Con> = vec![&n, extra];
        cs.extend(self.db.values());
        Self::propagate(&cs)
    }
    /// Redundance-based strengthening without a subproof
    pub fn red(&self, c: &Con, w: &[(V, Sub)]) -> R<()> {
        let m: HashMap<V, Sub> = w.iter().copied().collect();
        let n = c.neg();
        // without witness: plain implication
        for (id, d) in self.db.iter().map(|(i, d)| (*i, d)).chain(std::iter::once((0, c))) {
            if id != 0 && !d.t.keys().any(|v| m.contains_key(v)) {
                continue;
            }
            let g = d.subst(&m);
            if id != 0 && (g == *d || d.implies(&g)) {
                continue;
            }
            if !self.auto(&g, &n) {
                return Err(if id == 0 { "the constraint under its witness is not implied".into() } else { format!("constraint {id} under the witness is not implied") });
            }
        }
        Ok(())
    }
    pub fn step(&mut self, s: &Step, p: &mut Parser) -> R<()> {
        self.steps += 1;
        match s {
            Step::F(n) => {
                if *n != self.n_orig {
                    return Err(format!("f {n}, but the formula has {}", self.n_orig));
                }
            }
            Step::Comment(_) | Step::Output(_) | Step::Conclusion(_) | Step::End => {}
            Step::Pol(t) => {
                let c = self.pol(t, &mut |s| p.lit(s))?;
                self.push(c);
            }
            Step::Rup(c, h) => {
                self.rup(c, h)?;
                self.push(c.clone());
            }
            Step::Red(true, c, w, None) => {
                self.red(c, w)?;
                self.push(c.clone());
            }
            Step::DelId(ids, None) => {
                for i in ids {
                    self.get(*i)?;
                    if (1..=self.n_orig as i64).contains(i) {
                        return Err(format!("deletes input constraint {i}"));
                    }
                    self.db.remove(&(*i as usize)).ok_or("deleted id must exist")?;
                }
            }
            Step::Eq(c, id) => {
                let id = id.ok_or("e without id")?;
                if self.get(id)? != c {
                    return Err(format!("constraint {id} is {:?}, not {c:?}", self.get(id)?));
                }
            }
            Step::Imp(c, id) => {
                let id = id.ok_or("i without id")?;
                if !self.get(id)?.implies(c) {
                    return Err(format!("constraint {id} does not imply {c:?}"));
                }
            }
            s => return Err(format!("rule not expected here: {s:?}")),
        }
        Ok(())
    }
}
