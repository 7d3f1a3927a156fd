//! Runs programs in a Python interpreter with the module built from the working tree

use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vcore::Fail;

struct Py {
    ch: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}

impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}

fn start() -> Result<Py, Fail> {
    // laid out by prebuild.sh
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    let e = |e: std::io::Error| Fail(format!("python: {e}"));
    let mut ch = Command::new("/usr/bin/python3")
        .arg("-B")
        .arg("-c")
        .arg(include_str!("driver.py"))
        .env("PYTHONPATH", format!("{target}/pypkg"))
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(if std::env::var("VERIF_PANICS").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .map_err(e)?;
    let i = ch.stdin.take().unwrap();
    let o = BufReader::new(ch.stdout.take().unwrap());
    Ok(Py { ch, i, o })
}

/// results of the steps of a program: values or exceptions
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Value),
    Exc(String, String),
}

impl Res {
    pub fn ok(&self, what: &str) -> Result<&Value, Fail> {
        match self {
            Res::Ok(v) => Ok(v),
            Res::Exc(e, m) => Err(Fail(format!("{what} raises {e}: {m}"))),
        }
    }
    pub fn is(&self, v: &Value, what: &str) -> Result<(), Fail> {
        let g = self.ok(what)?;
        if g != v {
            return Err(Fail(format!("{what} is {g} instead of {v}")));
        }
        Ok(())
    }
    pub fn raises(&self, es: &[&str], what: &str) -> Result<(), Fail> {
        match self {
            Res::Ok(v) => Err(Fail(format!("{what} is {v}, {es:?} expected"))),
            Res::Exc(e, m) if !es.contains(&e.as_str()) => Err(Fail(format!("{what} raises {e} ({m}), {es:?} expected"))),
            Res::Exc(..) => Ok(()),
        }
    }
}

#[derive(Default)]
pub struct Prog(Vec<Value>);

impl Prog {
    /// index of the result
    pub fn new(&mut self, dst: Option<&str>, class: &str, args: Vec<Value>, kw: Value) -> usize {
        self.0.push(json!(["new", dst, class, args, kw]));
        self.0.len() - 1
    }
    pub fn op(&mut self, dst: Option<&str>, op: &str, args: Vec<Value>) -> usize {
        self.0.push(json!(["op", dst, op, args, {}]));
        self.0.len() - 1
    }
    pub fn call(&mut self, dst: Option<&str>, obj: &str, m: &str, args: Vec<Value>, kw: Value) -> usize {
        let mut a = vec![json!({ "v": obj })];
        a.extend(args);
        self.0.push(json!(["call", dst, m, a, kw]));
        self.0.len() - 1
    }
    pub fn run(&self) -> Result<Vec<Res>, Fail> {
        PY.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(start()?);
            }
            let py = p.as_mut().unwrap();
            let mut text = serde_json::to_string(&self.0).unwrap();
            text.push('\n');
            let mut line = String::new();
            let r = py.i.write_all(text.as_bytes()).and_then(|()| py.i.flush()).and_then(|()| py.o.read_line(&mut line));
            if r.is_err() || line.is_empty() {
                let st = py.ch.wait();
                *p = None;
                return Err(Fail(format!("the Python interpreter died: {st:?}")));
            }
            let v: Vec<Value> = serde_json::from_str(&line).map_err(|e| Fail(format!("bad answer {line}: {e}")))?;
            let mut out = vec![];
            for (i, r) in v.into_iter().enumerate() {
                out.push(if let Some(x) = r.get("exc") {
                    let e = x.as_str().unwrap().to_string();
                    let m = r["msg"].as_str().unwrap_or("").to_string();
                    if e == "PanicException" {
                        return Err(Fail(format!("step {} panics: {m}", self.0[i])));
                    }
                    Res::Exc(e, m)
                } else {
                    Res::Ok(r["ok"].clone())
                });
            }
            if out.len() != self.0.len() {
                return Err(Fail("results are missing".into()));
            }
            Ok(out)
        })
    }
}

pub fn l(x: i64) -> Value {
    json!({ "l": x })
}
pub fn ls(x: &[i32]) -> Value {
    Value::Array(x.iter().map(|&x| l(x.into())).collect())
}
pub fn var(x: &str) -> Value {
    json!({ "v": x })
}
