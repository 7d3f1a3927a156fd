//! A small, independent SAT decision procedure used as an oracle. Literals are non-zero `i32`s in
//! DIMACS convention. Conflict-driven clause learning with two watched literals and assumptions; it
//! is deliberately simple and shares no code with the code under test. Every model it finds is
//! checked against the original clauses before it is returned.

#[derive(Clone, Debug, Default)]
pub struct Dpll {
    n: usize,
    clauses: Vec<Vec<i32>>,
    /// number of original clauses in `clauses`; learned ones follow
    n_orig: usize,
    watches: Vec<Vec<usize>>,
    units: Vec<i32>,
    empty: bool,
    val: Vec<i8>,
    level: Vec<u32>,
    reason: Vec<usize>,
    trail: Vec<i32>,
    lim: Vec<usize>,
    head: usize,
    seen: Vec<bool>,
    act: Vec<f64>,
    inc: f64,
    /// decision order: occurrences
    order: Vec<usize>,
    pub decisions: u64,
}

const NONE: usize = usize::MAX;

#[inline]
fn li(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + usize::from(l < 0)
}
#[inline]
fn vi(l: i32) -> usize {
    l.unsigned_abs() as usize
}

impl Dpll {
    pub fn new(clauses: &[Vec<i32>]) -> Self {
        let mut s = Dpll { inc: 1.0, ..Dpll::default() };
        let n = clauses.iter().flatten().map(|&l| vi(l)).max().unwrap_or(0);
        s.n = n;
        s.grow(n);
        let mut occ = vec![0usize; n + 1];
        for c in clauses {
            for &l in c {
                occ[vi(l)] += 1;
            }
            s.add(c);
        }
        s.n_orig = s.clauses.len();
        let mut order: Vec<usize> = (1..=n).filter(|&v| occ[v] > 0).collect();
        order.sort_by_key(|&v| std::cmp::Reverse(occ[v]));
        s.order = order;
        s
    }

    fn grow(&mut self, n: usize) {
        self.n = self.n.max(n);
        self.val.resize(self.n + 1, 0);
        self.level.resize(self.n + 1, 0);
        self.reason.resize(self.n + 1, NONE);
        self.seen.resize(self.n + 1, false);
        self.act.resize(self.n + 1, 0.0);
        self.watches.resize(2 * (self.n + 1), vec![]);
    }

    fn add(&mut self, c: &[i32]) {
        let mut c = c.to_vec();
        c.sort_unstable();
        c.dedup();
        for i in 0..c.len() {
            if c.binary_search(&-c[i]).is_ok() {
                return; // tautology
            }
        }
        match c.len() {
            0 => self.empty = true,
            1 => self.units.push(c[0]),
            _ => self.attach(c),
        }
    }

    fn attach(&mut self, c: Vec<i32>) {
        let id = self.clauses.len();
        self.watches[li(c[0])].push(id);
        self.watches[li(c[1])].push(id);
        self.clauses.push(c);
    }

    #[inline]
    fn value(&self, l: i32) -> i8 {
        let v = self.val[vi(l)];
        if l < 0 {
            -v
        } else {
            v
        }
    }

    fn assign(&mut self, l: i32, reason: usize) -> bool {
        match self.value(l) {
            1 => true,
            -1 => false,
            _ => {
                let v = vi(l);
                self.val[v] = if l > 0 { 1 } else { -1 };
                self.level[v] = self.lim.len() as u32;
                self.reason[v] = reason;
                self.trail.push(l);
                true
            }
        }
    }

    /// Returns the conflicting clause
    fn propagate(&mut self) -> Option<usize> {
        while self.head < self.trail.len() {
            let l = self.trail[self.head];
            self.head += 1;
            let fl = -l; // this literal became false
            let mut ws = std::mem::take(&mut self.watches[li(fl)]);
            let mut i = 0;
            let mut confl = None;
            while i < ws.len() {
                let ci = ws[i];
                // make sure the false literal is at position 1
                if self.clauses[ci][0] == fl {
                    self.clauses[ci].swap(0, 1);
                }
                let first = self.clauses[ci][0];
                if self.value(first) == 1 {
                    i += 1;
                    continue;
                }
                let mut moved = false;
                for k in 2..self.clauses[ci].len() {
                    let cand = self.clauses[ci][k];
                    if self.value(cand) != -1 {
                        self.clauses[ci].swap(1, k);
                        self.watches[li(cand)].push(ci);
                        ws.swap_remove(i);
                        moved = true;
                        break;
                    }
                }
                if moved {
                    continue;
                }
                if !self.assign(first, ci) {
                    confl = Some(ci);
                    break;
                }
                i += 1;
            }
            let mut cur = std::mem::take(&mut self.watches[li(fl)]);
            ws.append(&mut cur);
            self.watches[li(fl)] = ws;
            if confl.is_some() {
                return confl;
            }
        }
        None
    }

    /// Undoes everything above the given decision level
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let to = self.lim[lvl];
        for &l in &self.trail[to..] {
            self.val[vi(l)] = 0;
        }
        self.trail.truncate(to);
        self.lim.truncate(lvl);
        self.head = to;
    }

    /// First-UIP clause (asserting literal first) and backjump level
    fn analyze(&mut self, mut confl: usize) -> (Vec<i32>, usize) {
        let cur = self.lim.len() as u32;
        let mut learnt = vec![0];
        let mut open = 0;
        let mut idx = self.trail.len();
        let mut p = 0;
        loop {
            for k in 0..self.clauses[confl].len() {
                let q = self.clauses[confl][k];
                let v = vi(q);
                if q == p || self.seen[v] || self.level[v] == 0 {
                    continue;
                }
                self.seen[v] = true;
                self.act[v] += self.inc;
                if self.level[v] == cur {
                    open += 1;
                } else {
                    learnt.push(q);
                }
            }
            loop {
                idx -= 1;
                if self.seen[vi(self.trail[idx])] {
                    break;
                }
            }
            p = self.trail[idx];
            self.seen[vi(p)] = false;
            open -= 1;
            if open == 0 {
                break;
            }
            confl = self.reason[vi(p)];
        }
        learnt[0] = -p;
        for &l in &learnt[1..] {
            self.seen[vi(l)] = false;
        }
        self.inc *= 1.05;
        if self.inc > 1e100 {
            self.act.iter_mut().for_each(|a| *a *= 1e-100);
            self.inc *= 1e-100;
        }
        let mut bt = 0;
        for k in 1..learnt.len() {
            if self.level[vi(learnt[k])] as usize > bt {
                bt = self.level[vi(learnt[k])] as usize;
                learnt.swap(1, k);
            }
        }
        (learnt, bt)
    }

    fn forget(&mut self) {
        self.clauses.truncate(self.n_orig);
        self.watches.iter_mut().for_each(Vec::clear);
        for id in 0..self.clauses.len() {
            let (a, b) = (self.clauses[id][0], self.clauses[id][1]);
            self.watches[li(a)].push(id);
            self.watches[li(b)].push(id);
        }
    }

    fn pick(&self, pos: &mut usize, conflicts: u64) -> Option<usize> {
        if conflicts < 20 {
            while *pos < self.order.len() {
                let v = self.order[*pos];
                if self.val[v] == 0 {
                    return Some(v);
                }
                *pos += 1;
            }
            return None;
        }
        let mut best = None;
        for &v in &self.order {
            if self.val[v] == 0 && best.is_none_or(|b: usize| self.act[v] > self.act[b]) {
                best = Some(v);
            }
        }
        best
    }

    /// Satisfiability under assumptions; on success returns the values (index = variable)
    pub fn solve(&mut self, assumps: &[i32]) -> Option<Vec<i8>> {
        self.cancel(0);
        if self.empty {
            return None;
        }
        let m = assumps.iter().map(|&l| vi(l)).max().unwrap_or(0);
        if m > self.n {
            self.grow(m);
        }
        if self.clauses.len() > self.n_orig + 20_000 {
            self.forget();
            // propagations at level zero have to be redone with the new watches
            for i in 0..self.trail.len() {
                self.val[vi(self.trail[i])] = 0;
            }
            self.units.extend(std::mem::take(&mut self.trail));
            self.head = 0;
        }
        for i in 0..self.units.len() {
            if !self.assign(self.units[i], NONE) {
                self.empty = true;
                return None;
            }
        }
        self.units.clear();
        if self.propagate().is_some() {
            self.empty = true;
            return None;
        }
        let mut pos = 0usize;
        let mut conflicts = 0;
        loop {
            if let Some(c) = self.propagate() {
                if self.lim.is_empty() {
                    self.empty = true;
                    return None;
                }
                conflicts += 1;
                let (learnt, bt) = self.analyze(c);
                self.cancel(bt);
                pos = 0;
                let l = learnt[0];
                if learnt.len() == 1 {
                    self.assign(l, NONE);
                } else {
                    self.attach(learnt);
                    self.assign(l, self.clauses.len() - 1);
                }
                continue;
            }
            let d = self.lim.len();
            if d < assumps.len() {
                let a = assumps[d];
                if self.value(a) == -1 {
                    self.cancel(0);
                    return None;
                }
                self.lim.push(self.trail.len());
                self.assign(a, NONE);
                continue;
            }
            let Some(v) = self.pick(&mut pos, conflicts) else {
                let r = self.val.clone();
                let t = |l: i32| r[vi(l)] == if l > 0 { 1 } else { -1 };
                assert!(self.clauses[..self.n_orig].iter().all(|c| c.iter().any(|&l| t(l))) && assumps.iter().all(|&l| t(l)), "oracle solver is broken");
                self.cancel(0);
                return Some(r);
            };
            self.decisions += 1;
            self.lim.push(self.trail.len());
            self.assign(-(v as i32), NONE);
        }
    }

    pub fn sat(&mut self, assumps: &[i32]) -> bool {
        self.solve(assumps).is_some()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn random_vs_brute() {
        let mut s = 12345u64;
        let mut r = || super::super::splitmix(&mut s);
        for i in 0..60000 {
            let (n, m) = if i % 20 == 0 { (14, 40 + (r() % 40) as usize) } else { (1 + (r() % 7) as i32, (r() % 30) as usize) };
            let cls: Vec<Vec<i32>> = (0..m)
                .map(|_| (0..(r() % 4 + u64::from(r() % 50 != 0))).map(|_| ((r() % n as u64) as i32 + 1) * if r() % 2 == 0 { 1 } else { -1 }).collect())
                .collect();
            let ass: Vec<i32> = (0..(r() % 4)).map(|_| ((r() % n as u64) as i32 + 1) * if r() % 2 == 0 { 1 } else { -1 }).collect();
            let mut d = Dpll::new(&cls);
            for a in [&ass[..], &[], &[1], &[-1, n], &ass[..]] {
                let brute = (0..1u32 << n).any(|x| {
                    let t = |l: i32| ((x >> (l.abs() - 1)) & 1 == 1) == (l > 0);
                    cls.iter().all(|c| c.iter().any(|&l| t(l))) && a.iter().all(|&l| t(l))
                });
                let got = d.solve(a);
                assert_eq!(got.is_some(), brute, "{cls:?} {a:?}");
                if let Some(m) = got {
                    let t = |l: i32| (m[l.unsigned_abs() as usize] > 0) == (l > 0);
                    assert!(cls.iter().all(|c| c.iter().any(|&l| t(l) && m[l.unsigned_abs() as usize] != 0) || c.iter().any(|&l| c.contains(&-l))));
                }
            }
        }
    }
}
