#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;
mod hist;
mod slv;
mod trace;

use slv::Kind;
use vcore::*;

const INC: &[Kind] = &[Kind::Minisat, Kind::MinisatSimp, Kind::Glucose, Kind::GlucoseSimp, Kind::Cadical, Kind::Batsat];

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "at least two answered queries in the history",
        assumptions: vec!["the harness's CDCL solver decides each query correctly (its models are re-checked)"],
        subs: vec![
            sub_crashy("small", 700_000, 12_000_000, |_| hist::s_case(INC, 6, 14, false, false), hist::check),
            sub_crashy("large", 60_000, 1_000_000, |_| hist::s_case(INC, 40, 12, true, false), hist::check),
            sub_crashy("hard", 30_000, 600_000, |_| hist::s_case(INC, 110, 10, true, false), hist::check),
        ],
    }
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "at least two answered queries in the history",
        assumptions: vec!["the harness's CDCL solver decides each query correctly (its models are re-checked)"],
        subs: vec![
            sub_crashy("small", 400_000, 6_000_000, |_| hist::s_case(&[Kind::Cadical], 6, 16, false, true), hist::check),
            sub_crashy("large", 60_000, 1_000_000, |_| hist::s_case(&[Kind::Cadical], 40, 14, true, true), hist::check),
            // only replays: known findings
            sub("strict", 0, 0, |_| hist::s_case(&[Kind::Cadical], 6, 16, false, true), |c, o| hist::check_with(c, o, true)),
            sub_crashy("hard", 30_000, 600_000, |_| hist::s_case(&[Kind::Cadical], 110, 12, true, true), hist::check),
            sub_crashy("tracer", 100_000, 2_000_000, |_| trace::s_trace(6, 12, false), trace::check),
            sub_crashy("tracer-large", 10_000, 200_000, |_| trace::s_trace(20, 8, true), trace::check),
            sub_crashy("files", 20_000, 300_000, |_| trace::s_file(8), trace::check_file),
        ],
    }
}

fn main() {
    vcore::main(vec![c20, c22]);
}
