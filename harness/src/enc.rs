//! Uniform access to all cardinality and pseudo-Boolean encodings
use rustsat::encodings::card::{self, simulators as csim, Totalizer};
use rustsat::encodings::pb::{self, simulators as psim, BinaryAdder, DynamicPolyWatchdog, GeneralizedTotalizer};
use rustsat::encodings::{EncodeStats, EnforceError, NotEncoded};
use rustsat::instances::{Cnf, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Lit, RsHashMap};
use serde::{Deserialize, Serialize};
use std::ops::Bound;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum K {
    Ub,
    Lb,
    Both,
}

pub type Range = (Bound<usize>, Bound<usize>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EE {
    NotEncoded,
    Unsat,
}
impl From<NotEncoded> for EE {
    fn from(_: NotEncoded) -> Self {
        EE::NotEncoded
    }
}
impl From<EnforceError> for EE {
    fn from(e: EnforceError) -> Self {
        match e {
            EnforceError::NotEncoded => EE::NotEncoded,
            EnforceError::Unsat => EE::Unsat,
        }
    }
}

pub trait DynEnc {
    fn extend(&mut self, ls: &[(Lit, usize)]);
    /// false if not supported
    fn encode(&mut self, k: K, change: bool, r: Range, c: &mut Cnf, v: &mut dyn ManageVars) -> bool;
    fn enforce(&self, k: K, b: usize) -> Result<Vec<Lit>, EE>;
    fn reserve(&mut self, v: &mut dyn ManageVars);
    fn total(&self) -> usize;
    fn stats(&self) -> Option<(usize, u32)>;
    fn next_higher(&self, _v: usize) -> Option<usize> {
        None
    }
    fn next_lower(&self, _v: usize) -> Option<usize> {
        None
    }
    fn coarse_ub(&self, v: usize) -> usize {
        v
    }
    /// Replaces the encoding by what is left after serializing and deserializing it
    fn reload(&mut self, _json: bool) -> Result<(), String> {
        Ok(())
    }
    /// Called at the end of a history; returns the number of checked proof steps
    fn finish(&mut self) -> Result<usize, String> {
        Ok(0)
    }
}

pub struct C<E>(pub E);
pub struct P<E>(pub E);

macro_rules! enc_ub {
    ($s:ident, $k:ident, $change:ident, $r:ident, $c:ident, $v:ident, $m:ident) => {
        match ($k, $change) {
            (K::Ub, false) => $m::BoundUpper::encode_ub(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Ub, true) => $m::BoundUpperIncremental::encode_ub_change(&mut $s.0, $r, $c, $v).unwrap(),
            _ => return false,
        }
    };
}
macro_rules! enc_lb {
    ($s:ident, $k:ident, $change:ident, $r:ident, $c:ident, $v:ident, $m:ident) => {
        match ($k, $change) {
            (K::Lb, false) => $m::BoundLower::encode_lb(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Lb, true) => $m::BoundLowerIncremental::encode_lb_change(&mut $s.0, $r, $c, $v).unwrap(),
            _ => return false,
        }
    };
}
macro_rules! enc_both {
    ($s:ident, $k:ident, $change:ident, $r:ident, $c:ident, $v:ident, $m:ident) => {
        match ($k, $change) {
            (K::Ub, false) => $m::BoundUpper::encode_ub(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Ub, true) => $m::BoundUpperIncremental::encode_ub_change(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Lb, false) => $m::BoundLower::encode_lb(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Lb, true) => $m::BoundLowerIncremental::encode_lb_change(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Both, false) => $m::BoundBoth::encode_both(&mut $s.0, $r, $c, $v).unwrap(),
            (K::Both, true) => $m::BoundBothIncremental::encode_both_change(&mut $s.0, $r, $c, $v).unwrap(),
        }
    };
}
macro_rules! enf_ub {
    ($s:ident, $k:ident, $b:ident, $m:ident) => {
        match $k {
            K::Ub => Ok($m::BoundUpper::enforce_ub(&$s.0, $b)?),
            _ => Err(EE::NotEncoded),
        }
    };
}
macro_rules! enf_lb {
    ($s:ident, $k:ident, $b:ident, $m:ident) => {
        match $k {
            K::Lb => Ok($m::BoundLower::enforce_lb(&$s.0, $b)?),
            _ => Err(EE::NotEncoded),
        }
    };
}
macro_rules! enf_both {
    ($s:ident, $k:ident, $b:ident, $m:ident) => {
        match $k {
            K::Ub => Ok($m::BoundUpper::enforce_ub(&$s.0, $b)?),
            K::Lb => Ok($m::BoundLower::enforce_lb(&$s.0, $b)?),
            K::Both => Ok($m::BoundBoth::enforce_eq(&$s.0, $b)?),
        }
    };
}

macro_rules! dynenc {
    ($t:ty, card, $enc:ident, $enf:ident) => {
        impl DynEnc for C<$t> {
            fn extend(&mut self, ls: &[(Lit, usize)]) {
                self.0.extend(ls.iter().map(|(l, _)| *l));
            }
            fn encode(&mut self, k: K, change: bool, r: Range, c: &mut Cnf, v: &mut dyn ManageVars) -> bool {
                $enc!(self, k, change, r, c, v, card);
                true
            }
            fn enforce(&self, k: K, b: usize) -> Result<Vec<Lit>, EE> {
                $enf!(self, k, b, card)
            }
            fn reserve(&mut self, v: &mut dyn ManageVars) {
                card::EncodeIncremental::reserve(&mut self.0, v);
            }
            fn reload(&mut self, json: bool) -> Result<(), String> {
                self.0 = crate::tok::either(&self.0, json)?;
                Ok(())
            }
            fn total(&self) -> usize {
                card::Encode::n_lits(&self.0)
            }
            fn stats(&self) -> Option<(usize, u32)> {
                Some((self.0.n_clauses(), self.0.n_vars()))
            }
        }
    };
    ($t:ty, pb, $enc:ident, $enf:ident, $ext:expr, $st:expr) => {
        impl DynEnc for P<$t> {
            fn extend(&mut self, ls: &[(Lit, usize)]) {
                let f: fn(&mut $t, &[(Lit, usize)]) = $ext;
                f(&mut self.0, ls);
            }
            fn encode(&mut self, k: K, change: bool, r: Range, c: &mut Cnf, v: &mut dyn ManageVars) -> bool {
                $enc!(self, k, change, r, c, v, pb);
                true
            }
            fn enforce(&self, k: K, b: usize) -> Result<Vec<Lit>, EE> {
                $enf!(self, k, b, pb)
            }
            fn reserve(&mut self, v: &mut dyn ManageVars) {
                pb::EncodeIncremental::reserve(&mut self.0, v);
            }
            fn reload(&mut self, json: bool) -> Result<(), String> {
                self.0 = crate::tok::either(&self.0, json)?;
                Ok(())
            }
            fn total(&self) -> usize {
                pb::Encode::weight_sum(&self.0)
            }
            fn stats(&self) -> Option<(usize, u32)> {
                let f: fn(&$t) -> Option<(usize, u32)> = $st;
                f(&self.0)
            }
            fn next_higher(&self, v: usize) -> Option<usize> {
                Some(pb::Encode::next_higher(&self.0, v))
            }
            fn next_lower(&self, v: usize) -> Option<usize> {
                Some(pb::Encode::next_lower(&self.0, v))
            }
        }
    };
}

pub type CTot = Totalizer;
pub type CInv = csim::Inverted<Totalizer>;
pub type CDbl = csim::Double<Totalizer, csim::Inverted<Totalizer>>;
pub type CInv2 = csim::Inverted<csim::Inverted<Totalizer>>;
pub type CDbl2 = csim::Double<csim::Inverted<Totalizer>, Totalizer>;
dynenc!(CTot, card, enc_both, enf_both);
dynenc!(CInv, card, enc_both, enf_both);
dynenc!(CDbl, card, enc_both, enf_both);
dynenc!(CInv2, card, enc_both, enf_both);
dynenc!(CDbl2, card, enc_both, enf_both);

pub type PGte = GeneralizedTotalizer;
pub type PIGte = pb::InvertedGeneralizedTotalizer;
pub type PDGte = pb::DoubleGeneralizedTotalizer;
type PAdd = BinaryAdder;
type PIAdd = psim::Inverted<BinaryAdder>;
type PDAdd = psim::Double<BinaryAdder, psim::Inverted<GeneralizedTotalizer>>;
type PDpw = DynamicPolyWatchdog;
type PIDpw = psim::Inverted<DynamicPolyWatchdog>;
type PDDpw = psim::Double<DynamicPolyWatchdog, psim::Inverted<DynamicPolyWatchdog>>;
pub type PCard = psim::Card<Totalizer>;
pub type PCardD = psim::Card<card::simulators::Double<Totalizer, csim::Inverted<Totalizer>>>;
macro_rules! ext {
    () => {
        |e, l| e.extend(l.iter().copied())
    };
}
macro_rules! noext {
    () => {
        |_, l| assert!(l.is_empty(), "harness: not extendable")
    };
}
dynenc!(PGte, pb, enc_ub, enf_ub, ext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PIGte, pb, enc_lb, enf_lb, ext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PDGte, pb, enc_both, enf_both, ext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PAdd, pb, enc_both, enf_both, ext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PIAdd, pb, enc_both, enf_both, ext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PDAdd, pb, enc_both, enf_both, ext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PDpw, pb, enc_ub, enf_ub, noext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PIDpw, pb, enc_lb, enf_lb, noext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PDDpw, pb, enc_both, enf_both, noext!(), |e| Some((e.n_clauses(), e.n_vars())));
dynenc!(PCard, pb, enc_both, enf_both, ext!(), |_| None);
dynenc!(PCardD, pb, enc_both, enf_both, ext!(), |_| None);

pub struct Kind {
    pub name: &'static str,
    pub kinds: &'static [K],
    pub extendable: bool,
    pub monotone: bool,
    pub make: fn(&[(Lit, usize)]) -> Box<dyn DynEnc>,
}

pub fn hm(l: &[(Lit, usize)]) -> RsHashMap<Lit, usize> {
    let mut m = RsHashMap::default();
    for &(l, w) in l {
        *m.entry(l).or_insert(0) += w;
    }
    m
}
pub const UB: &[K] = &[K::Ub];
pub const LB: &[K] = &[K::Lb];
pub const ALL: &[K] = &[K::Ub, K::Lb, K::Both];
macro_rules! ck {
    ($n:expr, $t:ty, $k:expr) => {
        Kind { name: $n, kinds: $k, extendable: true, monotone: true, make: |l| Box::new(C(<$t>::from(l.iter().map(|(l, _)| *l).collect::<Vec<_>>()))) }
    };
}
macro_rules! pk {
    ($n:expr, $t:ty, $k:expr, $e:expr, $m:expr) => {
        Kind { name: $n, kinds: $k, extendable: $e, monotone: $m, make: |l| Box::new(P(<$t>::from(hm(l)))) }
    };
}
pub const CARD: &[Kind] = &[
    ck!("totalizer", CTot, ALL),
    ck!("inverted-totalizer", CInv, ALL),
    ck!("double-totalizer", CDbl, ALL),
    ck!("inverted-inverted-totalizer", CInv2, ALL),
    ck!("double-inverted-totalizer", CDbl2, ALL),
];
pub const PB: &[Kind] = &[
    pk!("gte", PGte, UB, true, true),
    pk!("inverted-gte", PIGte, LB, true, true),
    pk!("double-gte", PDGte, ALL, true, true),
    pk!("adder", PAdd, ALL, true, true),
    pk!("inverted-adder", PIAdd, ALL, true, true),
    pk!("double-adder-gte", PDAdd, ALL, true, true),
    pk!("dpw", PDpw, UB, false, false),
    pk!("inverted-dpw", PIDpw, LB, false, false),
    pk!("double-dpw", PDDpw, ALL, false, false),
    pk!("card-totalizer", PCard, ALL, true, true),
    pk!("card-double", PCardD, ALL, true, true),
];

type CardFn = fn(CardConstraint, &mut Cnf, &mut dyn ManageVars) -> Option<()>;
type PbFn = fn(PbConstraint, &mut Cnf, &mut dyn ManageVars) -> Option<()>;
macro_rules! ce {
    ($t:ty) => {
        |c, n, v| match <$t as card::BoundBoth>::encode_constr(c, n, v) {
            Ok(()) => Some(()),
            Err(rustsat::encodings::ConstraintEncodingError::Unsat) => None,
            Err(e) => panic!("{e}"),
        }
    };
}
macro_rules! ceg {
    ($t:ty) => {
        |c, n, v| Some(card::encode_cardinality_constraint::<$t, _>(c, n, v).unwrap())
    };
}
macro_rules! pe {
    ($t:ty) => {
        |c, n, v| match <$t as pb::BoundBoth>::encode_constr(c, n, v) {
            Ok(()) => Some(()),
            Err(rustsat::encodings::ConstraintEncodingError::Unsat) => None,
            Err(e) => panic!("{e}"),
        }
    };
}
macro_rules! peg {
    ($t:ty) => {
        |c, n, v| Some(pb::encode_pb_constraint::<$t, _>(c, n, v).unwrap())
    };
}
/// `None` stands for "reported as unsatisfiable"; the flag tells that repeated literals accumulate
pub const CARD_FNS: &[(&str, CardFn)] = &[
    ("default", |c, n, v| Some(card::default_encode_cardinality_constraint(c, n, v).unwrap())),
    ("totalizer/encode_constr", ce!(CTot)),
    ("inverted/encode_constr", ce!(CInv)),
    ("double/encode_constr", ce!(CDbl)),
    ("double2/encode_constr", ce!(CDbl2)),
    ("totalizer/generic", ceg!(CTot)),
    ("inverted/generic", ceg!(CInv)),
    ("double/generic", ceg!(CDbl)),
];
pub const PB_FNS: &[(&str, PbFn)] = &[
    ("default", |c, n, v| Some(pb::default_encode_pb_constraint(c, n, v).unwrap())),
    ("double-gte/encode_constr", pe!(PDGte)),
    ("adder/encode_constr", pe!(PAdd)),
    ("inverted-adder/encode_constr", pe!(PIAdd)),
    ("double-adder/encode_constr", pe!(PDAdd)),
    ("double-dpw/encode_constr", pe!(PDDpw)),
    ("card-totalizer/encode_constr", pe!(PCard)),
    ("double-gte/generic", peg!(PDGte)),
    ("adder/generic", peg!(PAdd)),
    ("double-dpw/generic", peg!(PDDpw)),
    ("card/generic", peg!(PCardD)),
    ("inverted-adder/generic", peg!(PIAdd)),
];
