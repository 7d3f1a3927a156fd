mod common;
mod enc;
mod c_am1;
mod c_enc;
mod c_types;
mod c_inst;
mod c_fio;
mod c_totdb;
mod c_cert;
mod c_pigeons;
mod c_solv;
mod veripb;
mod spec;
mod stub;
mod tok;
mod c_serde;

fn main() {
    // stand-in for the executable of a solver (C24)
    let args: Vec<String> = std::env::args().collect();
    if args.iter().skip(1).take(2).any(|a| a == "fake-solver") {
        c_solv::fake_solver(&args);
    }
    vcore::main(vec![c_am1::prop, c_enc::c02, c_enc::c03, c_enc::c04, c_enc::c05, c_types::c10, c_types::c11, c_types::c30, c_inst::c16, c_inst::c17, c_inst::c18, c_inst::c19, c_inst::c29, c_fio::c12, c_fio::c13, c_fio::c14, c_fio::c15, c_fio::c28, c_totdb::c06, c_cert::c07, c_cert::c08, c_pigeons::c09, c_solv::c23, c_solv::c24, c_serde::c34]);
}
