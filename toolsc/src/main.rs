mod conv;
mod mo;
mod probs;
mod run;

fn main() {
    vcore::main(vec![conv::c26, run::c27, probs::c31]);
}
