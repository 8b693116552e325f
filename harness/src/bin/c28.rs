//! The Curve25519 back end against big integers and curve25519-dalek.
use ark_ff::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT, ristretto::*, scalar::Scalar, traits::Identity};
use num_bigint::BigUint;
use serde_json::json;
use std::str::FromStr;
use vh::*;
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::{Curve25519, Curve25519Point as P, Fr, FrParameters};

fn l() -> BigUint { (BigUint::from(1u32) << 252) + BigUint::from_str("27742317777372353535851937790883648493").unwrap() }
fn limbs(b: &BigInteger256) -> BigUint { let mut v = BigUint::from(0u32); for x in b.0.iter().rev() { v = (v << 64) + BigUint::from(*x); } v }
fn big(f: &Fr) -> BigUint { limbs(&f.into_repr()) }
fn repr(b: &BigUint) -> BigInteger256 { let mut d = b.to_u64_digits(); d.resize(4, 0); BigInteger256([d[0], d[1], d[2], d[3]]) }
fn f(b: &BigUint) -> Fr { Fr::from_repr(repr(b)).expect("reduced value") }
fn le(b: &BigUint) -> [u8; 32] { let mut v = b.to_bytes_le(); v.resize(32, 0); let mut o = [0; 32]; o.copy_from_slice(&v); o }
fn sc_(b: &BigUint) -> Scalar { Scalar::from_bytes_mod_order(le(&(b % l()))) }

/// a value below the order, the ends and structured values over-represented
fn val(c: &Case) -> BigUint {
    let one = BigUint::from(1u32);
    match c.below(9) {
        0 => BigUint::from(c.below(20)), 1 => l() - BigUint::from(1 + c.below(20)), 2 => one << c.below(252),
        3 => (&one << c.range(1, 252)) - &one, 4 => (l() >> 1) + BigUint::from(c.below(3)) - &one,
        5 => (BigUint::from(c.range(1, 1 << 30)) << (64 * c.below(3))) % l(),
        _ => { let mut b = [0u8; 32]; use rand::RngCore; c.rng.borrow_mut().fill_bytes(&mut b); BigUint::from_bytes_le(&b) % l() }
    }
}

fn scalars(c: &Case) {
    let m = l();
    let (a, b) = (val(c), val(c));
    let (x, y) = (f(&a), f(&b));
    let (zero, one) = (BigUint::from(0u32), BigUint::from(1u32));
    c.eval(&("scalar", &a, &b), a > one || b > one);
    let d = |op: &str| json!({"operation": op, "a": a.to_string(), "b": b.to_string()});
    let ck = |op: &str, got: &Fr, want: BigUint| { c.count(&format!("scalar {}", op)); c.check(big(got) == want, &format!("scalar {} differs from integer arithmetic", op), || d(op)); };
    ck("from and to integer", &x, a.clone());
    ck("addition", &(x + y), (&a + &b) % &m); ck("addition", &{ let mut z = x; z += &y; z }, (&a + &b) % &m);
    ck("subtraction", &(x - y), (&a + &m - &b) % &m); ck("subtraction", &{ let mut z = x; z -= &y; z }, (&a + &m - &b) % &m);
    ck("multiplication", &(x * y), (&a * &b) % &m); ck("multiplication", &{ let mut z = x; z *= &y; z }, (&a * &b) % &m);
    ck("negation", &(-x), (&m - &a) % &m);
    ck("squaring", &x.square(), (&a * &a) % &m); ck("squaring", &{ let mut z = x; z.square_in_place(); z }, (&a * &a) % &m);
    ck("doubling", &x.double(), (&a + &a) % &m);
    let inv = b.modpow(&(&m - BigUint::from(2u32)), &m);
    match y.inverse() { Some(i) => { ck("inverse", &i, inv.clone()); ck("division", &(x / y), (&a * &inv) % &m); } None => { c.check(b == zero, "scalar inverse missing", || d("inverse")); } }
    let e = val(c); ck("power", &x.pow(repr(&e)), a.modpow(&e, &m));
    let e = BigUint::from(c.below(1 << 20)); ck("power", &x.pow(&[c.below(1) as u64 + e.to_u64_digits().first().copied().unwrap_or(0)]), a.modpow(&e, &m));
    c.check((x == y) == (a == b), "scalar equality differs from integers", || d("equality"));
    c.check(x.cmp(&y) == a.cmp(&b), "scalar order differs from integers", || d("order"));
    c.check(x.is_zero() == (a == zero) && x.is_one() == (a == one), "scalar zero or one test differs", || d("is_zero"));
    // quadratic character and roots
    let chi = a.modpow(&((&m - &one) >> 1), &m);
    let leg = x.legendre();
    c.count(if chi == one { "legendre: residue" } else if chi == zero { "legendre: zero" } else { "legendre: non-residue" });
    c.check(leg.is_zero() == (chi == zero) && leg.is_qr() == (chi == one), "legendre symbol differs", || d("legendre"));
    match sut(|| x.sqrt()) { Sut::Val(r) => { c.count(if r.is_some() { "square root found" } else { "square root refused" }); c.check(r.map_or(chi != one && chi != zero, |r| r.square() == x), "square root differs", || d("sqrt")); } Sut::Panic(p) => c.violation("square root panics", json!({"panic": p})) }
    // conversions
    ck("From<u64>", &Fr::from(a.to_u64_digits().first().copied().unwrap_or(0)), BigUint::from(a.to_u64_digits().first().copied().unwrap_or(0)));
    ck("From<u128>", &Fr::from(u128::MAX), BigUint::from(u128::MAX) % &m); ck("From<u32>", &Fr::from(c.idx as u32), BigUint::from(c.idx as u32));
    ck("FromStr", &Fr::from_str(&a.to_string()).unwrap_or(Fr::zero()), a.clone());
    ck("sum", &[x, y, x].iter().sum::<Fr>(), (&a + &b + &a) % &m); ck("product", &[x, y, x].iter().product::<Fr>(), (&a * &b * &a) % &m);
    // encodings
    let mut w = vec![]; x.serialize(&mut w).unwrap();
    c.check(w == le(&a), "scalar encoding is not the little-endian integer", || d("serialize"));
    c.check(w.len() == x.serialized_size(), "scalar size differs from its encoding", || d("serialized_size"));
    c.check(Fr::deserialize(&w[..]).map_or(false, |z| z == x), "scalar does not survive its encoding", || d("deserialize"));
    c.check(Fr::read(&to_bytes!(x).unwrap()[..]).map_or(false, |z| z == x), "scalar does not survive to_bytes", || d("to_bytes"));
    // non-canonical
    let big_ = &a + &m * BigUint::from(1 + c.below(15));
    let nc = if big_.bits() <= 256 { big_ } else { &a + &m };
    c.count("non-canonical scalar encodings");
    c.check(Fr::from_repr(repr(&nc)).is_none(), "from_repr takes an integer above the order", || d("from_repr"));
    c.check(Fr::deserialize(&le(&nc)[..]).is_err(), "a scalar encoding above the order decodes", || json!({"bytes": format!("{:x?}", le(&nc))}));
    let short = &w[..c.below(32)]; c.check(Fr::deserialize(short).is_err(), "a truncated scalar decodes", || d("truncated"));
    c.sample(|| json!({"a": a.to_string(), "b": b.to_string()}));
}

fn constants(c: &Case) {
    let m = l(); let one = BigUint::from(1u32);
    let r: BigUint = (&one << 256) % &m;
    let mont = |b: &BigInteger256| (limbs(b) * r.modpow(&(&m - BigUint::from(2u32)), &m)) % &m;
    c.eval(&"constants", true);
    let mut ck = |n: &str, ok: bool| { c.count("constants compared"); c.check(ok, &format!("constant {} is wrong", n), || json!(n)); };
    ck("MODULUS", limbs(&FrParameters::MODULUS) == m);
    ck("MODULUS_BITS", FrParameters::MODULUS_BITS as u64 == m.bits()); ck("CAPACITY", FrParameters::CAPACITY as u64 == m.bits() - 1);
    ck("REPR_SHAVE_BITS", FrParameters::REPR_SHAVE_BITS as u64 == 256 - m.bits());
    ck("R", limbs(&FrParameters::R) == r); ck("R2", limbs(&FrParameters::R2) == (&r * &r) % &m);
    let p64 = &one << 64; let low = &m % &p64; ck("INV", (low * BigUint::from(FrParameters::INV) + &one) % &p64 == BigUint::from(0u32));
    let g = mont(&FrParameters::GENERATOR);
    ck("GENERATOR", g.modpow(&((&m - &one) >> 1), &m) == &m - &one);
    ck("MODULUS_MINUS_ONE_DIV_TWO", limbs(&FrParameters::MODULUS_MINUS_ONE_DIV_TWO) == (&m - &one) >> 1);
    let t = (&m - &one) >> (FrParameters::TWO_ADICITY as usize);
    ck("TWO_ADICITY", &t % BigUint::from(2u32) == one && &t << (FrParameters::TWO_ADICITY as usize) == &m - &one);
    ck("T", limbs(&FrParameters::T) == t); ck("T_MINUS_ONE_DIV_TWO", limbs(&FrParameters::T_MINUS_ONE_DIV_TWO) == (&t - &one) >> 1);
    let w = mont(&FrParameters::TWO_ADIC_ROOT_OF_UNITY);
    ck("TWO_ADIC_ROOT_OF_UNITY", w.modpow(&(&one << (FrParameters::TWO_ADICITY as usize - 1)), &m) == &m - &one);
    for k in [1usize, 2, 4] { match Fr::get_root_of_unity(k) { Some(z) => { let z = big(&z); ck("root of unity", z.modpow(&BigUint::from(k), &m) == one && (k == 1 || z.modpow(&BigUint::from(k / 2), &m) != one)); } None => ck("root of unity", false) } }
    ck("root of unity 8", Fr::get_root_of_unity(8).is_none());
    let x = f(&BigUint::from(12345u32)); let _ = x;
    c.sample(|| json!("modulus, Montgomery, generator and root constants recomputed"));
}

fn pt(c: &Case) -> (P, RistrettoPoint) {
    match c.below(8) {
        0 => (P::zero(), RistrettoPoint::identity()),
        1 => (<P as AffineCurve>::prime_subgroup_generator(), RISTRETTO_BASEPOINT_POINT),
        2 => { let r = -RISTRETTO_BASEPOINT_POINT; (P(r), r) }
        _ => { let k = val(c); let r = RISTRETTO_BASEPOINT_POINT * sc_(&k); (P(r), r) }
    }
}
fn group(c: &Case) {
    let (p, rp) = pt(c); let (q, rq) = if c.chance(1, 6) { (p, rp) } else if c.chance(1, 6) { (-p, -rp) } else { pt(c) };
    let k = val(c); let x = f(&k);
    c.eval(&("group", rp.compress().0, rq.compress().0, &k), true);
    let d = |op: &str| json!({"operation": op, "p": format!("{:x?}", rp.compress().0), "q": format!("{:x?}", rq.compress().0), "k": k.to_string()});
    let ck = |op: &str, got: Sut<P>, want: RistrettoPoint| -> () { c.count(&format!("group {}", op)); match got { Sut::Val(g) => { c.check(g.0 == want && g.0.compress() == want.compress(), &format!("group {} differs from the reference", op), || d(op)); } Sut::Panic(e) => c.violation(&format!("group {} panics", op), json!({"panic": e, "case": d(op)})) } };
    ck("addition", sut(|| p + q), rp + rq); ck("addition", sut(|| p + &q), rp + rq); ck("addition", sut(|| { let mut z = p; z += q; z }), rp + rq); ck("addition", sut(|| { let mut z = p; z += &q; z }), rp + rq);
    ck("mixed addition", sut(|| p.add_mixed(&q)), rp + rq); ck("mixed addition", sut(|| { let mut z = p; z.add_assign_mixed(&q); z }), rp + rq);
    ck("subtraction", sut(|| p - q), rp - rq); ck("subtraction", sut(|| p - &q), rp - rq); ck("subtraction", sut(|| { let mut z = p; z -= q; z }), rp - rq); ck("subtraction", sut(|| { let mut z = p; z -= &q; z }), rp - rq);
    ck("negation", sut(|| -p), -rp); ck("doubling", sut(|| p.double()), rp + rp); ck("doubling", sut(|| { let mut z = p; z.double_in_place(); z }), rp + rp);
    ck("sum", sut(|| [p, q, p].iter().sum()), rp + rq + rp);
    ck("scalar product", sut(|| AffineCurve::mul(&p, x)), rp * sc_(&k)); ck("scalar product", sut(|| AffineCurve::mul(&p, x.into_repr())), rp * sc_(&k));
    ck("scalar product", sut(|| ProjectiveCurve::mul(p, x.into_repr())), rp * sc_(&k)); ck("scalar product", sut(|| { let mut z = p; z *= x; z }), rp * sc_(&k));
    // integers of any width
    let n = c.below(6); let mut ls = vec![]; let mut whole = BigUint::from(0u32);
    for i in 0..n { let v = match c.below(4) { 0 => 0, 1 => u64::MAX, _ => { use rand::RngCore; c.rng.borrow_mut().next_u64() } }; ls.push(v); whole += BigUint::from(v) << (64 * i); }
    ck("product by a wide integer", sut(|| ProjectiveCurve::mul(p, &ls)), rp * sc_(&whole));
    ck("normal form", sut(|| p.into_affine()), rp); ck("normal form", sut(|| AffineCurve::into_projective(&p)), rp);
    ck("cofactor", sut(|| p.mul_by_cofactor().mul_by_cofactor_inv()), rp); ck("cofactor", sut(|| p.mul_by_cofactor_inv().mul_by_cofactor_to_projective()), rp);
    ck("generator", sut(|| <P as AffineCurve>::prime_subgroup_generator()), RISTRETTO_BASEPOINT_POINT); ck("generator", sut(|| <P as ProjectiveCurve>::prime_subgroup_generator()), RISTRETTO_BASEPOINT_POINT);
    c.check((p == q) == (rp == rq) && p.is_zero() == (rp == RistrettoPoint::identity()), "group equality differs from the reference", || d("equality"));
    let hash = |p: &P| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut h); h.finish() };
    let same = (p + q) - q; c.check(same == p && hash(&same) == hash(&p), "equal points hash differently", || d("hash"));
    { let mut v = vec![p, q, p + q]; let w = v.clone(); match sut(|| { P::batch_normalization(&mut v); (P::batch_normalization_into_affine(&w), v) }) { Sut::Val((a, v)) => { c.check(a == w && v == w, "batch normalization changes points", || d("batch")); } Sut::Panic(e) => c.violation("group batch normalization panics", json!({"panic": e})) } }
    { let mut z: P = p; zeroize::Zeroize::zeroize(&mut z); c.count("zeroized"); c.check(z.is_zero(), "a zeroized point still holds its value", || d("zeroize")); }
    // encodings
    let mut w = vec![]; p.serialize(&mut w).unwrap(); let mut u = vec![]; p.serialize_uncompressed(&mut u).unwrap();
    c.check(w == rp.compress().as_bytes() && w.len() == p.serialized_size() && u.len() == p.uncompressed_size(), "point encoding differs from the reference", || d("serialize"));
    c.check(P::deserialize(&w[..]).map_or(false, |z| z == p) && P::deserialize_uncompressed(&u[..]).map_or(false, |z| z == p) && P::deserialize_unchecked(&w[..]).map_or(false, |z| z == p), "point does not survive its encoding", || d("deserialize"));
    c.check(P::read(&to_bytes!(p).unwrap()[..]).map_or(false, |z| z == p), "point does not survive to_bytes", || d("to_bytes"));
    { let v = vec![p, q, p]; let mut b = vec![]; v.serialize(&mut b).unwrap(); c.check(b.len() == v.serialized_size() && Vec::<P>::deserialize(&b[..]).map_or(false, |z| z == v), "a list of points does not survive its encoding", || d("vec")); }
    // bytes that the reference does not decode
    for _ in 0..4 {
        let mut b = rp.compress().0; { use rand::RngCore; let mut r = c.rng.borrow_mut(); match r.next_u32() % 4 { 0 => r.fill_bytes(&mut b), 1 => { b[31] ^= 0x80; } 2 => { let i = (r.next_u32() % 256) as usize; b[i / 8] ^= 1 << (i % 8); } _ => { b = [0xff; 32]; b[0] = (0xed_u32 + r.next_u32() % 19) as u8; b[31] = 0x7f; } } }
        let want = CompressedRistretto(b).decompress();
        c.count(if want.is_some() { "foreign bytes: a point" } else { "foreign bytes: not a point" });
        for (n, got) in [("deserialize", sut(|| P::deserialize(&b[..]).ok())), ("deserialize_unchecked", sut(|| P::deserialize_unchecked(&b[..]).ok())), ("deserialize_uncompressed", sut(|| P::deserialize_uncompressed(&b[..]).ok())), ("read", sut(|| P::read(&b[..]).ok()))] {
            match got { Sut::Val(g) => { c.check(g.map(|g| g.0.compress().0) == want.map(|w| w.compress().0), &format!("{} of foreign bytes differs from the reference", n), || json!({"bytes": format!("{:x?}", b)})); } Sut::Panic(e) => c.violation(&format!("{} panics", n), json!({"panic": e})) }
        }
    }
    let cut = c.below(32); c.check(P::deserialize(&w[..cut]).is_err(), "a truncated point decodes", || d("truncated"));
    c.sample(|| d("all"));
}

fn msm<G: Curve>(c: &Case, name: &str) {
    let n = match c.below(4) { 0 => c.below(4), 1 => c.range(4, 40), 2 if c.chance(1, 8) => c.range(66, 400), 2 => c.pick(&[31, 32, 33, 64, 65]), _ => c.range(1, 12) };
    let m = if c.chance(1, 3) { c.below(2 * n + 2) } else { n };
    let s: Vec<G::Fr> = (0..n).map(|_| circ::spec_f(c, 40)).collect();
    let mut t = c.tape();
    let mut pts: Vec<G::Affine> = (0..m).map(|_| <G::Projective as UniformRand>::rand(&mut t).into_affine()).collect();
    for i in 0..m { if c.chance(1, 10) { pts[i] = G::Affine::zero(); } else if i > 0 && c.chance(1, 10) { pts[i] = pts[i - 1]; } else if i > 0 && c.chance(1, 10) { pts[i] = -pts[i - 1]; } }
    let mut want = G::Projective::zero();
    for (k, p) in s.iter().zip(&pts) { // double and add, bit by bit
        let mut acc = G::Projective::zero();
        for b in BitIteratorBE::new(k.into_repr()) { acc = acc + acc; if b { acc = acc + p.into_projective(); } }
        want = want + acc;
    }
    c.eval(&(name, n, m, mutate::bytes(&want.into_affine())), n.min(m) > 0);
    c.count(&format!("{}: multi-scalar products, {}", name, if n == m { "equal lengths" } else { "unequal lengths" }));
    match sut(|| G::vartime_multiscalar_mul(&s, &pts)) {
        Sut::Val(g) => { c.check(g.into_affine() == want.into_affine(), &format!("{}: multi-scalar product differs from the sum", name), || json!({"scalars": s.iter().map(r1cs_checks::hexf).collect::<Vec<_>>(), "points": m})); }
        Sut::Panic(e) => c.violation(&format!("{}: multi-scalar product panics", name), json!({"panic": e, "scalars": n, "points": m})),
    }
}

fn main() {
    let ctx = Ctx::new("C28", "one comparison of the back end's operations on a pair of operands, or of one multi-scalar product, with the reference; distinct by operands; operands 0 and 1 only are trivial");
    ctx.run(vec![
        sc("scalars", 20000, scalars), once("constants", 1, constants), sc("group", 3000, group),
        sc("multi-scalar products/curve25519", 600, |c| msm::<Curve25519>(c, "curve25519")), sc("multi-scalar products/bls12-381", 200, |c| msm::<E>(c, "bls12-381")),
    ]);
    ctx.finish();
}
