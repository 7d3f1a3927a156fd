mod enc;
mod py;
mod vals;


use vcore::*;

/// C33: the Python interface
fn c33() -> Prop {
    let mut subs = vals::subs();
    subs.extend(enc::subs());
    Prop {
        id: "C33",
        rule: "several operations on a clause, valid literals, an implication added, at least three literals, or a bound strictly between the trivial ones",
        assumptions: vec!["the module is built in the debug profile and imported by the system's Python 3.12", "encodings over at most 6 variables; the binary adder with one polarity per history (known finding of C05)"],
        subs,
    }
}

fn main() {
    vcore::main(vec![c33]);
}
