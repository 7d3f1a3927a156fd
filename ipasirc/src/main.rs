mod hist;
mod lib_stub;

fn main() {
    vcore::main(vec![hist::c32]);
}
