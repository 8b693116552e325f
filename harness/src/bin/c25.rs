//! Table lookups, the range gadget and the non-zero gadget.
use ark_ff::{Field, PrimeField};
use num_bigint::BigUint;
use serde_json::json;
use vh::{gadgets::*, rcs::*, *};
use zkp_gadgets::{algebra::fr::AllocatedFr, lookup::table::*, operator::rangeproof::RangeProof};
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

type R<F> = Result<Built<F>, SynthesisError>;
const W: [(&str, usize); 5] = [("one-bit window", 1), ("two-bit window", 2), ("two-bit window of points", 2), ("three-bit window", 3), ("three-bit window of points", 3)];

fn lookups<F: PrimeField>(c: &Case, kinds: bool) {
    let (g, ops): (usize, Vec<Op>) = if kinds {
        // every kind of selector bit, exhaustively
        let k = [Op::Const(false), Op::Const(true), Op::Is(false), Op::Is(true), Op::Not(false), Op::Not(true), Op::Input(false), Op::Input(true)];
        let i = c.idx as usize; let g = i % 5; let j = i / 5;
        (g, (0..W[g].1).map(|b| k[j >> (3 * b) & 7]).collect())
    } else { let g = c.below(5); (g, (0..W[g].1).map(|i| rand_op(c, i)).collect()) };
    let (name, bits) = W[g];
    let same: F = circ::spec_f(c, 30);
    let mode = c.below(5);
    let t: Vec<(F, F)> = (0..1 << bits).map(|i| match mode { 0 => (same, same), 1 => (F::from(i as u32), F::from((7 * i) as u32)), 2 => (circ::spec_f(c, 80), circ::spec_f(c, 80)), _ => (circ::rand_f(c), circ::rand_f(c)) }).collect();
    let tx: Vec<F> = t.iter().map(|x| x.0).collect();
    c.eval(&(g, &ops, mode, tx[0].to_string()), mode != 0);
    c.count(&format!("lookups: {}", name));
    judge::<F>(c, &format!("lookup, {}", name), 12, &|| json!({"selector": format!("{:?}", ops), "table": t.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>()}), &|r, known| -> R<F> {
        let x = operands(r, known, &ops, "sel")?; let given = (1..r.n()).collect();
        let b: Vec<_> = x.iter().map(|y| y.0).collect();
        let i: usize = x.iter().enumerate().map(|(k, y)| (y.1 as usize) << k).sum();
        let cs = r.ns(|| "lookup");
        let o: Vec<(AllocatedFr<F>, F)> = match g {
            0 => vec![(lookup1_x(cs, &b[0], &tx)?, t[i].0)], 1 => vec![(lookup2_x(cs, &b, &tx)?, t[i].0)],
            2 => { let (p, q) = lookup2_xy(cs, &b, &t)?; vec![(p, t[i].0), (q, t[i].1)] }
            3 => vec![(lookup3_x(cs, &b, &tx)?, t[i].0)],
            _ => { let (p, q) = lookup3_xy(cs, &b, &t)?; vec![(p, t[i].0), (q, t[i].1)] } };
        Ok(Built { given, outs: o.into_iter().map(|(a, w)| Res { name: "entry".into(), lc: vec![(r.ix(a.get_variable()), F::one())], told: a.get_value(), want: w }).collect() })
    });
}

fn big<F: PrimeField>(f: &F) -> BigUint { let mut v = BigUint::from(0u32); for x in f.into_repr().as_ref().iter().rev() { v = (v << 64) + BigUint::from(*x); } v }
fn fe<F: PrimeField>(b: &BigUint) -> F { let mut s = F::zero(); for d in b.to_u64_digits().iter().rev() { for _ in 0..64 { s.double_in_place(); } s += &F::from(*d); } s }
fn rnd(c: &Case, n: usize) -> BigUint {
    let one = BigUint::from(1u32); let top = (&one << n) - &one;
    match c.below(6) { 0 => BigUint::from(0u32), 1 => top, 2 => (&one << c.below(n)) & top, 3 => BigUint::from(c.below(10)) & top,
        _ => { let mut b = BigUint::from(0u32); for _ in 0..n { b <<= 1; if c.chance(1, 2) { b += 1u32; } } b } }
}
/// satisfiable exactly when left < right, both below 2^n
fn range<F: PrimeField>(c: &Case) {
    let cap = F::size_in_bits() - 3;
    let n = match c.below(4) { 0 => c.range(1, 4), 1 => c.pick(&[8, 16, 32, 63, 64, 65, 128]), 2 => c.range(cap - 3, cap), _ => c.range(1, cap) };
    let a = rnd(c, n);
    let b = match c.below(5) { 0 => a.clone(), 1 => (&a + 1u32) & ((BigUint::from(1u32) << n) - 1u32), 2 => if a.bits() > 0 { &a - 1u32 } else { a.clone() }, _ => rnd(c, n) };
    let want = a < b;
    c.eval(&("range", n, &a, &b), true);
    c.count(if want { "range: smaller" } else if a == b { "range: equal" } else { "range: larger" });
    let mk = |known: bool| RangeProof::<F> { lhs: if known { Some(fe(&a)) } else { None }, rhs: if known { Some(fe(&b)) } else { None }, n: n as u64 };
    let d = || json!({"bits": n, "left": a.to_string(), "right": b.to_string()});
    let mut r = Rcs::<F>::new();
    let res = sut(|| mk(true).generate_constraints(&mut r).is_ok());
    let honest = match res { Sut::Panic(p) => { if want { c.violation("range gadget: a true comparison panics", json!({"panic": p, "case": d()})); return; } c.count("range: refused by the prover"); false } Sut::Val(false) => { c.count("range: refused by the prover"); false } Sut::Val(true) => r.violated().is_none() };
    c.check(honest == want, if want { "range gadget: a true comparison fails" } else { "range gadget: a false comparison passes" }, || json!({"violated": format!("{:?}", r.violated()), "case": d()}));
    let mut bl = Rcs::<F>::new(); bl.blank = true;
    let ok = sut(|| mk(false).generate_constraints(&mut bl).is_ok());
    c.check(ok == Sut::Val(true) && (!want || (bl.cons.len() == r.cons.len() && bl.cons.iter().zip(&r.cons).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2 == y.2))), "range gadget: key generation sees other constraints than the prover", || d());
    if want { return; }
    // the prover may put anything anywhere, except the two operands and the public values
    if bl.n() < 3 { return; }
    let ops: Vec<usize> = (1..bl.n()).filter(|i| !bl.is_input[*i]).take(2).collect();
    let mut h = bl.clone(); h.vals[ops[0]] = fe(&a); h.vals[ops[1]] = fe(&b);
    let mut fixed = vec![(ops[0], fe(&a)), (ops[1], fe(&b))];
    let pubs: Vec<F> = if r.n() == bl.n() { (1..r.n()).filter(|i| r.is_input[*i]).map(|i| r.vals[i]).collect() } else { vec![F::from(2u32).pow([n as u64])] };
    for (k, i) in (1..bl.n()).filter(|i| bl.is_input[*i]).enumerate() { fixed.push((i, pubs[k])); h.vals[i] = pubs[k]; }
    match search(c, &h, &fixed, 25, &|_| true) {
        Search::Found(x) => c.violation("range gadget: a false comparison has a witness", json!({"case": d(), "witness": (1..h.n()).take(6).map(|i| format!("{}={}", h.names[i], x[i])).collect::<Vec<_>>()})),
        Search::Impossible => c.count("range: propagation proves there is no witness"),
        Search::Unique => unreachable!(),
        Search::Open { tried, .. } => { c.count("range: left open by propagation, attacked by search"); c.count_n("dishonest assignments tried", tried as u64); }
    }
}
fn nonzero<F: PrimeField>(c: &Case) {
    let x: F = if c.chance(1, 4) { F::zero() } else { circ::spec_f(c, 50) };
    c.eval(&("nonzero", x.to_string()), true);
    c.count(if x.is_zero() { "non-zero: zero" } else { "non-zero: other" });
    let mut r = Rcs::<F>::new();
    let a = AllocatedFr::alloc(r.ns(|| "x"), || Ok(x)).unwrap();
    let res = sut(|| a.isnonzero(r.ns(|| "nz")).is_ok());
    let ok = res == Sut::Val(true) && r.violated().is_none();
    c.check(!res.panicked() && ok != x.is_zero(), "non-zero gadget: passes for zero or fails for another value", || json!({"value": x.to_string()}));
    // zero cannot be given a witness
    let mut bl = Rcs::<F>::new(); bl.blank = true;
    let a = AllocatedFr::alloc(bl.ns(|| "x"), || Err(SynthesisError::AssignmentMissing)).unwrap();
    if !c.check(sut(|| a.isnonzero(bl.ns(|| "nz")).is_ok()) == Sut::Val(true), "non-zero gadget: key generation fails", || json!({})) { return; }
    let v = bl.ix(a.get_variable());
    match search(c, &bl, &[(v, F::zero())], 20, &|_| true) {
        Search::Found(_) => c.violation("non-zero gadget: zero has a witness", json!({})),
        Search::Impossible => c.count("non-zero: propagation proves that zero has no witness"), _ => c.count("non-zero: attacked by search") }
}
fn main() {
    type B = Fr; type D = zkp_curve25519::Fr;
    let ctx = Ctx::new("C25", "one lookup, comparison or non-zero test over recorded constraints; distinct by selector, table and operands; constant tables are trivial");
    ctx.run(vec![
        once("selectors", 5 * 512, |c| lookups::<B>(c, true)),
        sc("lookups", 60000, |c| lookups::<B>(c, false)),
        sc("lookups/curve25519", 20000, |c| lookups::<D>(c, false)),
        sc("ranges", 20000, |c| range::<B>(c)),
        sc("ranges/curve25519", 8000, |c| range::<D>(c)),
        sc("non-zero", 2000, |c| { nonzero::<B>(c); nonzero::<D>(c) }),
    ]);
    ctx.finish();
}
