#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../solvers/src/hist.rs"]
#[allow(dead_code)]
mod hist;
#[path = "../../solvers/src/slv.rs"]
mod slv;

use slv::Kind;
use vcore::*;

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "at least one answered query in the history",
        assumptions: vec!["the harness's CDCL solver decides each query correctly (its models are re-checked)"],
        subs: vec![
            sub_crashy("small", 1_200_000, 20_000_000, |_| hist::s_case(&[Kind::Kissat], 6, 9, false, true), hist::check),
            sub_crashy("large", 200_000, 4_000_000, |_| hist::s_case(&[Kind::Kissat], 40, 9, true, true), hist::check),
            sub_crashy("hard", 120_000, 2_500_000, |_| hist::s_case(&[Kind::Kissat], 110, 8, true, true), hist::check),
        ],
    }
}

fn main() {
    vcore::main(vec![c21]);
}
