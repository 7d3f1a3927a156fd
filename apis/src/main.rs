#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../harness/src/enc.rs"]
#[allow(dead_code)]
mod enc;
#[path = "../../harness/src/tok.rs"]
#[allow(dead_code)]
mod tok;
#[path = "../../harness/src/c_enc.rs"]
#[allow(dead_code)]
mod c_enc;
mod capi;

fn main() {
    vcore::main(vec![capi::c25]);
}
