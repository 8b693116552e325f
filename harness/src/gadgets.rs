//! Judging gadgets: value, satisfaction, and whether the constraints admit any other result.
use crate::rcs::*;
use crate::Case;
use ark_ff::PrimeField;
use serde_json::{json, Value};
use zkp_gadgets::algebra::boolean::{AllocatedBit, Boolean};
use zkp_r1cs::{ConstraintSystem, SynthesisError};

/// Something a gadget returned: its meaning in the constraint system, the value it reports, and the value it must have.
pub struct Res<F> { pub name: String, pub lc: L<F>, pub told: Option<F>, pub want: F }
pub struct Built<F> { pub given: Vec<usize>, pub outs: Vec<Res<F>> }
pub fn fb<F: PrimeField>(b: bool) -> F { if b { F::one() } else { F::zero() } }
pub fn bool_lc<F: PrimeField>(r: &Rcs<F>, b: &Boolean) -> L<F> { r.lc(&b.lc(Rcs::<F>::one(), F::one())) }
pub fn res_bit<F: PrimeField>(r: &Rcs<F>, name: &str, b: &Boolean, want: bool) -> Res<F> {
    Res { name: name.into(), lc: bool_lc(r, b), told: b.get_value().map(fb), want: fb(want) }
}
pub enum Kind { Unique, Open }

/// The oracle. `build` constructs the circuit; operands it allocates are `given`.
pub fn judge<F: PrimeField>(c: &Case, sig: &str, tries: usize, detail: &dyn Fn() -> Value, build: &dyn Fn(&mut Rcs<F>, bool) -> Result<Built<F>, SynthesisError>) -> Option<Rcs<F>> {
    let mut r = Rcs::<F>::new();
    let b = match crate::sut(|| build(&mut r, true)) {
        crate::Sut::Val(Ok(b)) => b,
        crate::Sut::Val(Err(e)) => { c.violation(&format!("{}: honest operands are refused", sig), json!({"error": format!("{:?}", e), "case": detail()})); return None; }
        crate::Sut::Panic(p) => { c.violation(&format!("{}: honest operands panic", sig), json!({"panic": p, "case": detail()})); return None; }
    };
    if let Some((i, n)) = r.violated() { c.violation(&format!("{}: the honest assignment violates a constraint", sig), json!({"constraint": n, "index": i, "case": detail()})); return None; }
    for o in &b.outs {
        let v = r.eval(&o.lc, &r.vals);
        if v != o.want || o.told.map_or(false, |t| t != o.want) || o.told.is_none() {
            c.violation(&format!("{}: wrong value", sig), json!({"result": o.name, "assigned": format!("{}", v), "reported": format!("{:?}", o.told.map(|x| x.to_string())), "expected": format!("{}", o.want), "case": detail()}));
            return None;
        }
    }
    c.count_n("results compared with the native function", b.outs.len() as u64);
    c.count_n("constraints recorded", r.cons.len() as u64);
    // the shape must not depend on the values
    let mut bl = Rcs::<F>::new(); bl.blank = true; bl.keep_names = false;
    match crate::sut(|| build(&mut bl, false)) {
        crate::Sut::Val(Ok(_)) => {
            c.count("shapes compared with key generation");
            let same = bl.n() == r.n() && bl.is_input == r.is_input && bl.cons.len() == r.cons.len() && bl.cons.iter().zip(&r.cons).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2 == y.2);
            c.check(same, &format!("{}: key generation sees other constraints than the prover", sig), || json!({"variables": [bl.n(), r.n()], "constraints": [bl.cons.len(), r.cons.len()], "case": detail()}));
        }
        crate::Sut::Val(Err(e)) => c.violation(&format!("{}: key generation without assignment fails", sig), json!({"error": format!("{:?}", e), "case": detail()})),
        crate::Sut::Panic(p) => c.violation(&format!("{}: key generation without assignment panics", sig), json!({"panic": p, "case": detail()})),
    }
    hunt(c, sig, &r, &b, tries, detail);
    Some(r)
}
pub fn hunt<F: PrimeField>(c: &Case, sig: &str, r: &Rcs<F>, b: &Built<F>, tries: usize, detail: &dyn Fn() -> Value) -> bool {
    let given: Vec<(usize, F)> = b.given.iter().map(|v| (*v, r.vals[*v])).collect();
    match search(c, r, &given, tries, &|a| b.outs.iter().any(|o| r.eval(&o.lc, a) != o.want)) {
        Search::Unique => { c.count("results that propagation proves unique"); true }
        Search::Impossible => panic!("propagation refutes a satisfying assignment"),
        Search::Open { tried, .. } => { c.count("results left open by propagation, attacked by search"); c.count_n("dishonest assignments tried", tried as u64); true }
        Search::Found(a) => {
            let o = b.outs.iter().find(|o| r.eval(&o.lc, &a) != o.want).unwrap();
            let ch: Vec<String> = (0..r.n()).filter(|&i| a[i] != r.vals[i]).take(6).map(|i| format!("{} = {} instead of {}", r.names[i], a[i], r.vals[i])).collect();
            c.violation(&format!("{}: the constraints admit another result", sig), json!({"result": o.name, "admitted": format!("{}", r.eval(&o.lc, &a)), "expected": format!("{}", o.want), "changed": ch, "case": detail()}));
            false
        }
    }
}

/// how an operand bit is presented
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Op { Const(bool), Is(bool), Not(bool), Input(bool), Same(usize), Neg(usize) }
pub fn rand_op(c: &Case, i: usize) -> Op {
    let v = c.chance(1, 2);
    match c.below(10) { 0 | 1 => Op::Const(v), 2 | 3 | 4 => Op::Is(v), 5 | 6 | 7 => Op::Not(v), 8 if i > 0 => if v { Op::Same(c.below(i)) } else { Op::Neg(c.below(i)) }, _ => Op::Input(v) }
}
/// allocate operand bits; returns them with their values
pub fn operands<F: PrimeField>(r: &mut Rcs<F>, known: bool, ops: &[Op], pre: &str) -> Result<Vec<(Boolean, bool)>, SynthesisError> {
    let mut v: Vec<(Boolean, bool)> = vec![];
    for (i, o) in ops.iter().enumerate() {
        let k = |b: bool| if known { Some(b) } else { None };
        let b = match *o {
            Op::Const(b) => (Boolean::constant(b), b),
            Op::Is(b) => (Boolean::from(AllocatedBit::alloc(r.ns(|| format!("{}{}", pre, i)), k(b))?), b),
            Op::Not(b) => (Boolean::from(AllocatedBit::alloc(r.ns(|| format!("{}{}", pre, i)), k(!b))?).not(), b),
            Op::Input(b) => (Boolean::from(AllocatedBit::alloc_input(r.ns(|| format!("{}{}", pre, i)), k(b))?), b),
            Op::Same(j) => v[j], Op::Neg(j) => (v[j].0.not(), !v[j].1),
        };
        v.push(b);
    }
    Ok(v)
}
