//! An IPASIR library whose every decision the test makes: it records the calls made, answers with a
//! plan the test sets, and notes every breach of the IPASIR contract.

use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_void};
use std::rc::Rc;
use vcore::sat::Dpll;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Add(Vec<i32>),
    Solve(Vec<i32>),
    Val(i32),
    Failed(i32),
}

pub type TermFn = unsafe extern "C" fn(*const c_void) -> c_int;
pub type LearnFn = unsafe extern "C" fn(*const c_void, *const c_int);

#[derive(Default)]
pub struct State {
    pub log: Vec<Ev>,
    pub clauses: Vec<Vec<i32>>,
    cur: Vec<i32>,
    assumps: Vec<i32>,
    /// result of the last solve
    pub res: i32,
    model: Vec<i8>,
    last_assumps: Vec<i32>,
    failed: Vec<i32>,
    pub term: Option<(usize, TermFn)>,
    pub learn: Option<(usize, i32, LearnFn)>,
    pub breaches: Vec<String>,
    pub released: u32,
    // --- plans for the next calls
    /// terminator polls during a solve
    pub polls: u32,
    /// learned clauses to pass on during a solve (only those short enough)
    pub lessons: Vec<Vec<i32>>,
    /// preference of models, by a generated mask
    pub prefer: u64,
    /// variables reported as irrelevant if they are not needed
    pub lazy: bool,
    /// report all assumptions as failed instead of a reduced set
    pub big_cores: bool,
    /// gives up without being asked to
    pub give_up: bool,
    /// an invalid value to return: from solve, val, failed
    pub bad: [Option<i32>; 3],
    /// are the callbacks the test expects to be attached still alive?
    pub term_alive: bool,
    pub learn_alive: bool,
    /// lessons handed out
    pub taught: Vec<Vec<i32>>,
}

thread_local! {
    static LAST: RefCell<Option<Rc<RefCell<State>>>> = const { RefCell::new(None) };
    static INITS: RefCell<u32> = const { RefCell::new(0) };
}

pub fn last() -> Rc<RefCell<State>> {
    LAST.with(|l| l.borrow().clone().expect("no solver was created"))
}

pub fn inits() -> u32 {
    INITS.with(|i| *i.borrow())
}

type Handle = *mut Rc<RefCell<State>>;

fn st(h: Handle) -> Rc<RefCell<State>> {
    unsafe { (*h).clone() }
}

#[no_mangle]
pub extern "C" fn ipasir_signature() -> *const c_char {
    c"stub-1.0 \xc3\xa4".as_ptr()
}

#[no_mangle]
pub extern "C" fn ipasir_init() -> Handle {
    let s = Rc::new(RefCell::new(State::default()));
    LAST.with(|l| *l.borrow_mut() = Some(s.clone()));
    INITS.with(|i| *i.borrow_mut() += 1);
    Box::into_raw(Box::new(s))
}

#[no_mangle]
pub extern "C" fn ipasir_release(h: Handle) {
    let s = st(h);
    s.borrow_mut().released += 1;
    // the handle is leaked on purpose: a second release must be seen, not crash
}

#[no_mangle]
pub extern "C" fn ipasir_add(h: Handle, l: c_int) {
    let s = st(h);
    let mut s = s.borrow_mut();
    s.res = 0;
    if l == i32::MIN {
        s.breaches.push("literal out of range added".into());
        return;
    }
    if l == 0 {
        let c = std::mem::take(&mut s.cur);
        s.log.push(Ev::Add(c.clone()));
        s.clauses.push(c);
    } else {
        s.cur.push(l);
    }
}

#[no_mangle]
pub extern "C" fn ipasir_assume(h: Handle, l: c_int) {
    let s = st(h);
    let mut s = s.borrow_mut();
    s.res = 0;
    if l == 0 || l == i32::MIN {
        s.breaches.push(format!("{l} assumed"));
    } else {
        s.assumps.push(l);
    }
}

#[no_mangle]
pub extern "C" fn ipasir_solve(h: Handle) -> c_int {
    let s = st(h);
    let assumps = {
        let mut s = s.borrow_mut();
        if !s.cur.is_empty() {
            s.breaches.push("solve called within a clause".into());
        }
        let a = std::mem::take(&mut s.assumps);
        s.log.push(Ev::Solve(a.clone()));
        s.last_assumps = a.clone();
        s.res = 0;
        if let Some(b) = s.bad[0].take() {
            return b;
        }
        a
    };
    // callbacks; nothing may be borrowed while they run
    let lessons = s.borrow().lessons.clone();
    for c in lessons {
        let l = s.borrow().learn;
        if let Some((p, max, f)) = l {
            if c.len() as i64 <= i64::from(max) {
                if !s.borrow().learn_alive {
                    s.borrow_mut().breaches.push("a learner that is gone is still attached".into());
                    continue;
                }
                s.borrow_mut().taught.push(c.clone());
                let mut z = c.clone();
                z.push(0);
                unsafe { f(p as *const c_void, z.as_ptr()) };
            }
        }
    }
    let polls = s.borrow().polls;
    for _ in 0..polls {
        let t = s.borrow().term;
        if let Some((p, f)) = t {
            if !s.borrow().term_alive {
                s.borrow_mut().breaches.push("a terminator that is gone is still attached".into());
                continue;
            }
            if unsafe { f(p as *const c_void) } != 0 {
                return 0;
            }
        }
    }
    let mut s = s.borrow_mut();
    if s.give_up {
        return 0;
    }
    let mut d = Dpll::new(&s.clauses);
    // greedily follow the preferred polarities for the first variables
    let mv = s.clauses.iter().flatten().chain(&assumps).map(|l| l.unsigned_abs()).max().unwrap_or(0);
    let mut fixed = assumps.clone();
    if d.solve(&assumps).is_none() {
        s.res = 20;
        let mut core: Vec<i32> = assumps.clone();
        if !s.big_cores {
            let mut i = 0;
            while i < core.len() {
                let mut c = core.clone();
                c.remove(i);
                // a repeated assumption fails as a whole
                if d.solve(&c).is_none() {
                    core = c;
                } else {
                    i += 1;
                }
            }
        }
        s.failed = core;
        return 20;
    }
    for v in 1..=mv.min(12) as i32 {
        let l = if s.prefer >> v & 1 == 1 { v } else { -v };
        fixed.push(l);
        if d.solve(&fixed).is_none() {
            fixed.pop();
        }
    }
    let m = d.solve(&fixed).unwrap();
    let mut model = vec![0i8; mv as usize + 1];
    for v in 1..=mv as usize {
        model[v] = if fixed.contains(&(v as i32)) {
            1
        } else if fixed.contains(&-(v as i32)) {
            -1
        } else {
            m.get(v).copied().unwrap_or(0)
        };
        if model[v] == 0 {
            model[v] = 1;
        }
    }
    if s.lazy {
        // forget values that no clause needs
        for v in 1..=mv as usize {
            if assumps.iter().any(|l| l.unsigned_abs() as usize == v) {
                continue;
            }
            let old = std::mem::take(&mut model[v]);
            let sat = s.clauses.iter().all(|c| c.iter().any(|&l| model[l.unsigned_abs() as usize] == l.signum() as i8) || c.iter().any(|&l| c.contains(&-l)));
            if !sat {
                model[v] = old;
            }
        }
    }
    s.model = model;
    s.res = 10;
    10
}

#[no_mangle]
pub extern "C" fn ipasir_val(h: Handle, l: c_int) -> c_int {
    let s = st(h);
    let mut s = s.borrow_mut();
    s.log.push(Ev::Val(l));
    if s.res != 10 {
        s.breaches.push(format!("value of {l} asked for without a solution"));
        return 0;
    }
    if l == 0 || l == i32::MIN {
        s.breaches.push(format!("value of {l} asked for"));
        return 0;
    }
    if let Some(b) = s.bad[1].take() {
        return b;
    }
    match s.model.get(l.unsigned_abs() as usize).copied().unwrap_or(0) * l.signum() as i8 {
        0 => 0,
        1 => l,
        _ => -l,
    }
}

#[no_mangle]
pub extern "C" fn ipasir_failed(h: Handle, l: c_int) -> c_int {
    let s = st(h);
    let mut s = s.borrow_mut();
    s.log.push(Ev::Failed(l));
    if s.res != 20 {
        s.breaches.push(format!("failure of {l} asked for without an unsatisfiable result"));
        return 0;
    }
    if !s.last_assumps.contains(&l) {
        s.breaches.push(format!("failure of {l} asked for, which was not assumed"));
        return 0;
    }
    if let Some(b) = s.bad[2].take() {
        return b;
    }
    c_int::from(s.failed.contains(&l))
}

#[no_mangle]
pub extern "C" fn ipasir_set_terminate(h: Handle, p: *const c_void, f: Option<TermFn>) {
    st(h).borrow_mut().term = f.map(|f| (p as usize, f));
}

#[no_mangle]
pub extern "C" fn ipasir_set_learn(h: Handle, p: *const c_void, max: c_int, f: Option<LearnFn>) {
    let s = st(h);
    if f.is_some() && max < 0 {
        s.borrow_mut().breaches.push(format!("learner attached with length {max}"));
    }
    s.borrow_mut().learn = f.map(|f| (p as usize, max, f));
}
