bug("C01-bitwise-width", "C01",
 [("src/encodings/am1/bitwise.rs", "crate::utils::digits(self.in_lits.len() - 1, 2)", "(self.in_lits.len() + 1).ilog2()")],
 "five or more inputs (not 7 or 8): two inputs share the same code",
 "Too few bits: literals whose codes collide may be true at the same time.",
 r'''
use rustsat::{encodings::am1::{Bitwise, Encode}, instances::{BasicVarManager, Cnf}, types::{Lit, Var}};
fn main() {
    for n in 2..14u32 {
        let lits: Vec<Lit> = (0..n).map(|i| Lit::new(i, false)).collect();
        let mut enc: Bitwise = lits.iter().copied().collect();
        let mut vm = BasicVarManager::from_next_free(Var::new(n));
        let mut cnf = Cnf::new();
        enc.encode(&mut cnf, &mut vm).unwrap();
        for i in 0..n { for j in 0..i {
            // two true literals, is there an extension?
            let aux = vm_used(&vm) - n;
            for a in 0..1u32 << aux {
                let val = |l: Lit| -> bool {
                    let x = l.var().idx32();
                    let v = if x < n { x == i || x == j } else { a >> (x - n) & 1 == 1 };
                    v == l.is_pos()
                };
                let ok = cnf.iter().all(|c| c.iter().any(|l| val(*l)));
                assert!(!ok, "{i} and {j} can be true together, {n} literals");
            }
        } }
    }
}
fn vm_used(vm: &BasicVarManager) -> u32 { use rustsat::instances::ManageVars; vm.n_used() }
''')
bug("C16-partial-eval", "C16",
 [("src/instances/sat.rs", """            match card.evaluate(assign) {
                TernaryVal::True => (),
                TernaryVal::False => return TernaryVal::False,
                TernaryVal::DontCare => val = TernaryVal::DontCare,
            }""", """            match card.evaluate(assign) {
                TernaryVal::True => (),
                v => return v,
            }""")],
 "evaluating under a partial assignment that leaves a cardinality constraint open but falsifies a later cardinality or PB constraint",
 "The instance is reported as undecided although a constraint is falsified.",
 r'''
use rustsat::{instances::SatInstance, types::{Assignment, Lit, TernaryVal, constraints::CardConstraint}};
fn main() {
    let l = |i: u32| Lit::new(i, false);
    let mut i: SatInstance = SatInstance::new();
    i.add_card_constr(CardConstraint::new_ub([l(0), l(1)], 1));
    i.add_card_constr(CardConstraint::new_ub([l(2), l(3), l(4)], 1));
    let mut a = Assignment::default();
    a.assign_lit(l(2)); a.assign_lit(l(3));
    assert_eq!(i.evaluate(&a), TernaryVal::False);
    a.assign_lit(l(0));
    assert_eq!(i.evaluate(&a), TernaryVal::False);
}
''')
bug("C17-normalize-merge", "C17",
 [("src/instances/opt.rs", "                    *soft_clauses.entry(clause).or_default() += weight;\n                }\n                if soft_clauses.is_empty() && soft_lits.is_empty() {", "                    soft_clauses.insert(clause, weight);\n                }\n                if soft_clauses.is_empty() && soft_lits.is_empty() {")],
 "a weighted objective with two soft clauses that differ only in the order or repetition of literals, then normalization",
 "Normalizing drops the weight of one of two equal soft clauses.",
 r'''
use rustsat::{instances::Objective, types::{Assignment, Lit}};
fn main() {
    let l = |i: u32| Lit::new(i, false);
    let mut o = Objective::new();
    o.increase_soft_clause(2, [l(0), l(1)].into_iter().collect());
    o.increase_soft_clause(3, [l(1), l(0)].into_iter().collect());
    o.increase_soft_lit(7, l(2));
    let mut a = Assignment::default();
    a.assign_lit(!l(0)); a.assign_lit(!l(1)); a.assign_lit(l(2));
    assert_eq!(o.evaluate(&a), 12);
    assert_eq!(o.normalize().evaluate(&a), 12);
}
''')
bug("C19-forget-object", "C19",
 [("src/instances/mod.rs", "        self.object_map.retain(|_, v| *v < min_var);", "        self.object_map.retain(|_, v| *v <= min_var);")],
 "forgetting variables from exactly the one that an object is mapped to, then creating a new variable and asking for the object again",
 "A forgotten variable stays mapped to its object while it is handed out as a new one.",
 r'''
use rustsat::{instances::{ManageVars, ObjectVarManager}};
fn main() {
    let mut vm = ObjectVarManager::default();
    let a = vm.object_var("a".to_string());
    let b = vm.object_var("b".to_string());
    assert_ne!(a, b);
    vm.forget_from(b);
    let c = vm.new_var();
    let b2 = vm.object_var("b".to_string());
    assert_ne!(c, b2, "fresh variable is the one of an object");
}
''')
