//! Boolean and 32-bit gadgets: value, and whether the constraints admit any other.
use ark_ff::{Field, PrimeField};
use rand::RngCore;
use serde_json::json;
use vh::{gadgets::*, rcs::*, *};
use zkp_gadgets::algebra::{boolean::*, fr::AllocatedFr, uint32::UInt32};
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError};

type R<F> = Result<Built<F>, SynthesisError>;
const KINDS: [Op; 8] = [Op::Const(false), Op::Const(true), Op::Is(false), Op::Is(true), Op::Not(false), Op::Not(true), Op::Input(false), Op::Input(true)];

fn gate3<F: PrimeField>(r: &mut Rcs<F>, g: usize, x: &[(Boolean, bool)]) -> Result<(&'static str, Boolean, bool), SynthesisError> {
    let (a, b, d) = (x[0], x[1], x[2]);
    Ok(match g {
        0 => ("xor", Boolean::xor(r.ns(|| "g"), &a.0, &b.0)?, a.1 ^ b.1),
        1 => ("and", Boolean::and(r.ns(|| "g"), &a.0, &b.0)?, a.1 & b.1),
        2 => ("choose", Boolean::sha256_ch(r.ns(|| "g"), &a.0, &b.0, &d.0)?, if a.1 { b.1 } else { d.1 }),
        3 => ("majority", Boolean::sha256_maj(r.ns(|| "g"), &a.0, &b.0, &d.0)?, (a.1 as u8 + b.1 as u8 + d.1 as u8) >= 2),
        _ => ("not", a.0.not(), !a.1),
    })
}
/// every gate with every kind of operand, also aliased operands
fn gates<F: PrimeField>(c: &Case) {
    let i = c.idx as usize;
    let (g, k) = (i % 5, i / 5);
    let mut ops = vec![KINDS[k % 8], KINDS[k / 8 % 8], KINDS[k / 64 % 8]];
    match k / 512 { 0 => {}, 1 => { ops[1] = Op::Same(0) } 2 => { ops[1] = Op::Neg(0) } 3 => { ops[2] = Op::Same(0) } 4 => { ops[2] = Op::Neg(0) } 5 => { ops[2] = Op::Same(1) } 6 => { ops[2] = Op::Neg(1) } _ => { ops[1] = Op::Same(0); ops[2] = Op::Neg(0) } }
    c.eval(&(g, &ops), ops.iter().any(|o| !matches!(o, Op::Const(_))));
    let names = ["xor", "and", "choose", "majority", "not"];
    c.count(&format!("gate {}", names[g]));
    judge::<F>(c, &format!("boolean {}", names[g]), 6, &|| json!({"gate": names[g], "operands": format!("{:?}", ops)}), &|r, known| -> R<F> {
        let x = operands(r, known, &ops, "op")?; let given = (1..r.n()).collect();
        let (n, b, want) = gate3(r, g, &x)?;
        let mut o = res_bit(r, n, &b, want); if !known { o.told = None; }
        Ok(Built { given, outs: vec![o] })
    });
}
fn alloc_gates<F: PrimeField>(c: &Case) {
    let i = c.idx as usize; let (g, a, b, same) = (i % 4, i >> 2 & 1 == 1, i >> 3 & 1 == 1, i >> 4 & 1 == 1);
    let b = if same { a } else { b };
    let names = ["bit xor", "bit and", "bit and-not", "bit nor"];
    let want = [a ^ b, a & b, a & !b, !a & !b][g];
    c.eval(&(g, a, b, same), true); c.count(&format!("gate {}", names[g]));
    judge::<F>(c, names[g], 6, &|| json!({"a": a, "b": b, "same variable": same}), &|r, known| -> R<F> {
        let k = |b: bool| if known { Some(b) } else { None };
        let x = AllocatedBit::alloc(r.ns(|| "a"), k(a))?; let y = if same { x } else { AllocatedBit::alloc_input(r.ns(|| "b"), k(b))? };
        let given = (1..r.n()).collect();
        let z = match g { 0 => AllocatedBit::xor(r.ns(|| "g"), &x, &y)?, 1 => AllocatedBit::and(r.ns(|| "g"), &x, &y)?, 2 => AllocatedBit::and_not(r.ns(|| "g"), &x, &y)?, _ => AllocatedBit::nor(r.ns(|| "g"), &x, &y)? };
        Ok(Built { given, outs: vec![res_bit(r, names[g], &Boolean::from(z), want)] })
    });
}
/// what the constraints allow, for gadgets that restrict rather than compute
fn allowed<F: PrimeField>(r: &Rcs<F>, v: usize, x: F) -> bool { let mut a = r.vals.clone(); a[v] = x; r.first_violated_by(&a).is_none() }
fn restrict<F: PrimeField>(c: &Case) {
    let (a, m) = (c.chance(1, 2), c.chance(1, 2));
    let xs: Vec<F> = vec![F::zero(), F::one(), -F::one(), F::from(2u32), F::from(2u32).inverse().unwrap(), circ::rand_f(c), circ::rand_f(c)];
    c.eval(&(c.idx, a, m), true);
    // allocated bits
    let mut r = Rcs::<F>::new();
    let bit = AllocatedBit::alloc(r.ns(|| "bit"), Some(a)).unwrap(); let inp = AllocatedBit::alloc_input(r.ns(|| "in"), Some(m)).unwrap();
    let cond = AllocatedBit::alloc_conditionally(r.ns(|| "cond"), Some(a & !m), &inp).unwrap();
    let ix = |r: &Rcs<F>, b: &AllocatedBit| r.ix(b.get_variable());
    c.check(r.violated().is_none(), "allocated bits: the honest assignment violates a constraint", || json!({"bit": a, "must be false": m}));
    c.check(bit.get_value() == Some(a) && cond.get_value() == Some(a & !m) && inp.get_value() == Some(m), "allocated bits: wrong value", || json!({}));
    for x in &xs {
        let boolean = x.is_zero() || x.is_one();
        c.check(allowed(&r, ix(&r, &bit), *x) == boolean, "an allocated bit takes a value other than zero and one, or refuses one", || json!({"value": x.to_string()}));
        c.check(allowed(&r, ix(&r, &cond), *x) == (x.is_zero() || (x.is_one() && !m)), "a conditional bit takes a forbidden value or refuses an allowed one", || json!({"value": x.to_string(), "must be false": m}));
        let mut v = r.vals.clone(); v[ix(&r, &cond)] = F::zero(); v[ix(&r, &inp)] = *x;
        c.check(r.first_violated_by(&v).is_none() == boolean, "a public bit takes a value other than zero and one, or refuses one", || json!({"value": x.to_string()}));
        c.count_n("values tried for restricted variables", 3);
    }
    // equality of two bits
    let ops: Vec<Op> = (0..2).map(|i| rand_op(c, i)).collect();
    let mut r = Rcs::<F>::new();
    let x = operands(&mut r, true, &ops, "op").unwrap();
    let e = sut(|| Boolean::enforce_equal(r.ns(|| "eq"), &x[0].0, &x[1].0).is_ok());
    let ok = e == Sut::Val(true) && r.violated().is_none();
    c.count(if x[0].1 == x[1].1 { "equality of equal bits" } else { "equality of unequal bits" });
    c.check(!e.panicked() && ok == (x[0].1 == x[1].1), "boolean equality holds for unequal bits or fails for equal ones", || json!({"operands": format!("{:?}", ops)}));
    // a field element made public
    let f: F = circ::spec_f(c, 30);
    judge::<F>(c, "field element made public", 6, &|| json!({"value": f.to_string()}), &|r, known| -> R<F> {
        let al = AllocatedFr::alloc(r.ns(|| "x"), || if known { Ok(f) } else { Err(SynthesisError::AssignmentMissing) })?;
        let given = vec![r.ix(al.get_variable())];
        al.inputize(r.ns(|| "pub"))?;
        let v = (1..r.n()).find(|i| r.is_input[*i]).unwrap();
        Ok(Built { given, outs: vec![Res { name: "public input".into(), lc: vec![(v, F::one())], told: Some(f), want: f }] })
    });
    let al = { let mut r = Rcs::<F>::new(); let a = AllocatedFr::alloc_input(r.ns(|| "x"), || Ok(f)).unwrap(); (a.get_value(), r.vals[r.ix(a.get_variable())], r.is_input[r.ix(a.get_variable())]) };
    c.check(al == (Some(f), f, true), "a public field element has the wrong value", || json!({"value": f.to_string()}));
}
/// random expressions over bits: every intermediate result is judged
fn bit_programs<F: PrimeField>(c: &Case) {
    let n = c.range(2, 8); let ops: Vec<Op> = (0..n).map(|i| rand_op(c, i)).collect();
    let m = c.range(1, 25);
    let prog: Vec<(usize, [usize; 3])> = (0..m).map(|i| (c.below(5), [c.below(n + i), c.below(n + i), c.below(n + i)])).collect();
    c.eval(&(&ops, &prog), true);
    judge::<F>(c, "boolean expression", 8, &|| json!({"operands": format!("{:?}", ops), "program": format!("{:?}", prog)}), &|r, known| -> R<F> {
        let mut x = operands(r, known, &ops, "op")?; let given = (1..r.n()).collect(); let mut outs = vec![];
        for (g, a) in &prog { let (nm, b, w) = gate3(r, *g, &[x[a[0]], x[a[1]], x[a[2]]])?; outs.push(res_bit(r, nm, &b, w)); x.push((b, w)); }
        Ok(Built { given, outs })
    });
}
#[derive(Clone, Copy, Debug, Hash)]
enum W { Const(u32), Alloc(u32), Mixed(u32, u32, u32) }
#[derive(Clone, Debug, Hash)]
enum Wop { Xor(usize, usize), Rotr(usize, usize), Shr(usize, usize), Ch(usize, usize, usize), Maj(usize, usize, usize), Add(Vec<usize>), FromBits(usize), FromBe(usize), Close }
fn word(c: &Case) -> u32 { match c.below(5) { 0 => 0, 1 => u32::MAX, 2 => 1 << c.below(32), 3 => u32::MAX - c.below(5) as u32, _ => c.rng.borrow_mut().next_u32() } }
fn word_out<F: PrimeField>(r: &Rcs<F>, k: usize, nm: &str, w: &UInt32, want: u32, outs: &mut Vec<Res<F>>) {
    for (i, b) in w.clone().into_bits().iter().enumerate() { outs.push(res_bit(r, &format!("{} #{} bit {}", nm, k, i), b, want >> i & 1 == 1)); }
}
fn step<F: PrimeField, CS: ConstraintSystem<F>>(cs: &mut MultiEq<F, CS>, k: usize, op: &Wop, x: &[(UInt32, u32)]) -> Result<(UInt32, u32), SynthesisError> {
    let n = || format!("op{}", k);
    Ok(match op {
        Wop::Xor(a, b) => (x[*a].0.xor(cs.ns(n), &x[*b].0)?, x[*a].1 ^ x[*b].1),
        Wop::Rotr(a, s) => (x[*a].0.rotr(*s), x[*a].1.rotate_right((*s % 32) as u32)),
        Wop::Shr(a, s) => (x[*a].0.shr(*s), x[*a].1 >> s),
        Wop::Ch(a, b, d) => (UInt32::sha256_ch(cs.ns(n), &x[*a].0, &x[*b].0, &x[*d].0)?, (x[*a].1 & x[*b].1) ^ (!x[*a].1 & x[*d].1)),
        Wop::Maj(a, b, d) => (UInt32::sha256_maj(cs.ns(n), &x[*a].0, &x[*b].0, &x[*d].0)?, (x[*a].1 & x[*b].1) | (x[*a].1 & x[*d].1) | (x[*b].1 & x[*d].1)),
        Wop::Add(v) => (UInt32::addmany(cs.ns(n), &v.iter().map(|i| x[*i].0.clone()).collect::<Vec<_>>())?, v.iter().fold(0u32, |s, i| s.wrapping_add(x[*i].1))),
        Wop::FromBits(a) => (UInt32::from_bits(&x[*a].0.clone().into_bits()), x[*a].1),
        Wop::FromBe(a) => (UInt32::from_bits_be(&x[*a].0.clone().into_bits_be()), x[*a].1),
        Wop::Close => unreachable!(),
    })
}
fn words<F: PrimeField>(c: &Case, len: usize, adds: bool) {
    let n = c.range(2, 5);
    let ws: Vec<W> = (0..n).map(|_| match c.below(4) { 0 => W::Const(word(c)), 1 => { let m = word(c); W::Mixed(word(c), m, word(c)) } _ => W::Alloc(word(c)) }).collect();
    let mut prog: Vec<Wop> = vec![]; let mut have = n;
    for _ in 0..c.range(1, len) {
        let i = || c.below(have);
        let op = match if adds { 5 + c.below(3) } else { c.below(9) } {
            0 => Wop::Xor(i(), i()), 1 => Wop::Rotr(i(), c.below(70)), 2 => Wop::Shr(i(), c.below(32)), 3 => Wop::Ch(i(), i(), i()), 4 => Wop::Maj(i(), i(), i()),
            5 | 6 => Wop::Add((0..c.range(2, 10)).map(|_| c.below(have)).collect()), 7 => if c.chance(1, 2) { Wop::FromBits(i()) } else { Wop::FromBe(i()) }, _ => Wop::Close };
        if !matches!(op, Wop::Close) { have += 1; }
        prog.push(op);
    }
    c.eval(&(&ws, &prog), true);
    for p in &prog { c.count(&format!("word operation {}", format!("{:?}", p).split('(').next().unwrap())); }
    judge::<F>(c, "32-bit word expression", 10, &|| json!({"operands": format!("{:?}", ws), "program": format!("{:?}", prog)}), &|r, known| -> R<F> {
        let mut x: Vec<(UInt32, u32)> = vec![];
        for (i, w) in ws.iter().enumerate() { x.push(match w {
            W::Const(v) => (UInt32::constant(*v), *v),
            W::Alloc(v) => (UInt32::alloc(r.ns(|| format!("w{}", i)), if known { Some(*v) } else { None })?, *v),
            W::Mixed(v, m, neg) => {
                let ops: Vec<Op> = (0..32).map(|k| { let b = v >> k & 1 == 1; if m >> k & 1 == 1 { Op::Const(b) } else if neg >> k & 1 == 1 { Op::Not(b) } else { Op::Is(b) } }).collect();
                (UInt32::from_bits(&operands(r, known, &ops, &format!("w{}b", i))?.iter().map(|y| y.0).collect::<Vec<_>>()), *v) } }) }
        let given: Vec<usize> = (1..r.n()).collect();
        let mut k = 0;
        while k < prog.len() {
            let mut me = MultiEq::<F, _>::new(r.ns(|| format!("seg{}", k)));
            while k < prog.len() { if let Wop::Close = prog[k] { break; } let y = step(&mut me, k, &prog[k], &x)?; x.push(y); k += 1; }
            k += 1;
        }
        let mut outs = vec![];
        for (i, (w, v)) in x.iter().enumerate().skip(ws.len()) { word_out(r, i, "word", w, *v, &mut outs); }
        Ok(Built { given, outs })
    });
}
fn conversions<F: PrimeField>(c: &Case, f25519: bool) {
    let v = match c.below(4) { 0 => 0, 1 => u64::MAX, 2 => 1u64 << c.below(64), _ => c.rng.borrow_mut().next_u64() };
    let x: F = match c.below(5) { 0 => -F::one(), 1 => F::zero(), 2 => F::from(2u32).pow([c.below(254) as u64]), _ => circ::rand_f(c) };
    c.eval(&(v, x.to_string(), f25519), true);
    let bits = { use ark_ff::BigInteger; x.into_repr().to_bits_le() };
    judge::<F>(c, "u64 into bits", 4, &|| json!({"value": v}), &|r, known| -> R<F> {
        let b = u64_into_boolean_vec_le(r.ns(|| "u64"), if known { Some(v) } else { None })?;
        let given = (1..r.n()).collect();
        c.check(b.len() == 64, "u64 into bits: not 64 bits", || json!({"bits": b.len()}));
        Ok(Built { given, outs: b.iter().enumerate().map(|(i, b)| res_bit(r, "bit", b, v >> i & 1 == 1)).collect() })
    });
    for which in 0..2 {
        judge::<F>(c, "field element into bits", 4, &|| json!({"value": x.to_string()}), &|r, known| -> R<F> {
            let o = if known { Some(x) } else { None };
            let b: Vec<Boolean> = if which == 0 { field_into_boolean_vec_le(r.ns(|| "f"), o)? } else { field_into_allocated_bits_le(r.ns(|| "f"), o)?.into_iter().map(Boolean::from).collect() };
            c.check(b.len() == F::size_in_bits(), "field element into bits: wrong number of bits", || json!({"bits": b.len()}));
            let given = (1..r.n()).collect();
            Ok(Built { given, outs: b.iter().enumerate().map(|(i, b)| res_bit(r, "bit", b, bits[i])).collect() })
        });
    }
}
/// many equalities packed into few constraints: each one still counts
fn packed<F: PrimeField>(c: &Case) {
    let n = c.range(1, 20);
    let eqs: Vec<(usize, F)> = (0..n).map(|_| {
        let w = match c.below(4) { 0 => 1, 1 => c.range(2, 40), 2 => c.range(30, 36), _ => c.range(1, 250) };
        let mut v = F::zero(); for _ in 0..w { v.double_in_place(); if c.chance(1, 2) { v += &F::one(); } }
        (w, if c.chance(1, 6) { F::zero() } else if c.chance(1, 5) { F::from(2u32).pow([w as u64]) - F::one() } else { v }) }).collect();
    let bad = if c.chance(1, 2) { Some(c.below(n)) } else { None };
    let mut other = None;
    if let Some(b) = bad { let (w, v) = eqs[b]; let mut x = v; while x == v { x = if w == 1 { F::one() - &v } else { let mut y = F::zero(); for _ in 0..w { y.double_in_place(); if c.chance(1, 2) { y += &F::one(); } } if c.chance(1, 2) { y } else { let z = v + &F::one(); if z == F::from(2u32).pow([w as u64]) { v - &F::one() } else { z } } }; } other = Some(x); }
    // a second equality that is off the other way, to see whether packing lets errors cancel
    c.eval(&(n, bad, eqs.iter().map(|e| e.0).collect::<Vec<_>>(), c.idx), n > 1);
    let explicit = c.chance(1, 2);
    let mut r = Rcs::<F>::new();
    let res = sut(|| {
        let mut me = MultiEq::<F, _>::new(&mut r);
        for (i, (w, v)) in eqs.iter().enumerate() {
            let rv = if bad == Some(i) { other.unwrap() } else { *v };
            let mut ns = me.ns(|| format!("e{}", i));
            let (a, b) = (ns.alloc(|| "l", || Ok(*v)).unwrap(), ns.alloc(|| "r", || Ok(rv)).unwrap());
            if c.chance(1, 5) { ns.enforce(|| "other", |l| l + a, |l| l + Rcs::<F>::one(), |l| l + a); }
            ns.get_root().enforce_equal(*w, &(LinearCombination::zero() + a), &(LinearCombination::zero() + b));
        }
        if explicit { drop(me); }
    });
    c.count(if bad.is_some() { "packed equalities with one wrong" } else { "packed equalities all right" });
    c.count_n("equalities packed", n as u64); c.count_n("constraints for them", r.cons.len() as u64);
    c.check(!res.panicked() && r.violated().is_none() == bad.is_none(), "packed equalities: a wrong equality passes or right ones fail", || json!({"widths": eqs.iter().map(|e| e.0).collect::<Vec<_>>(), "wrong": bad, "panic": format!("{:?}", res)}));
}

fn main() {
    type B = Fr; type D = zkp_curve25519::Fr;
    let ctx = Ctx::new("C22", "one gadget expression built over recorded constraints with operands that are not all constants; distinct by operands and program");
    ctx.run(vec![
        once("gates", 5 * 512 * 8, |c| gates::<B>(c)),
        once("gates/curve25519", 5 * 512, |c| gates::<D>(c)),
        once("bit gates", 32, |c| { alloc_gates::<B>(c); alloc_gates::<D>(c) }),
        sc("restrictions", 3000, |c| { restrict::<B>(c); restrict::<D>(c) }),
        sc("bit programs", 15000, |c| bit_programs::<B>(c)),
        sc("word programs", 9000, |c| words::<B>(c, 12, false)),
        sc("word programs/curve25519", 2000, |c| words::<D>(c, 12, false)),
        sc("chained additions", 4000, |c| words::<B>(c, 8, true)),
        sc("conversions", 1500, |c| { conversions::<B>(c, false); conversions::<D>(c, true) }),
        sc("packed equalities", 20000, |c| { if c.idx % 2 == 0 { packed::<B>(c) } else { packed::<D>(c) } }),
    ]);
    ctx.finish();
}
