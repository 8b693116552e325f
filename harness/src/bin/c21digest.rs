//! Prints one line per key, proof, commitment and verdict of generated workloads ("label#case hash").
//! Built with and without the repository's `parallel` and `std` features; c21 and c34 compare the builds.
//! usage: c21digest SEED GROUP FROM TO
use ark_ff::{PrimeField, UniformRand};
use ark_serialize::CanonicalSerialize;
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use vh::{circ::*, layered as lay, layered::LScheme, mutate, plonk, schemes::*, *};
use zkp_curve25519::Curve25519 as C25;

struct Out { tag: String, n: RefCell<usize> }
impl Out {
    fn put(&self, label: &str, b: &[u8]) {
        let h = Sha256::digest(b); let n = { let mut n = self.n.borrow_mut(); *n += 1; *n };
        println!("{}/{}#{} {}", self.tag, label, n, h.iter().take(12).map(|x| format!("{:02x}", x)).collect::<String>());
    }
    fn obj<T: CanonicalSerialize>(&self, label: &str, t: &T) { self.put(label, &mutate::bytes(t)) }
    fn text(&self, label: &str, t: &str) { self.put(label, t.as_bytes()) }
    /// a panic is an outcome like any other; where it was raised is not
    fn get<T>(&self, label: &str, f: impl FnOnce() -> Result<T, String>) -> Option<T> {
        match sut(f) { Sut::Val(Ok(t)) => Some(t), Sut::Val(Err(e)) => { self.text(&format!("{} fails", label), &e); None } Sut::Panic(_) => { self.text(&format!("{} fails", label), "panic"); None } }
    }
}
fn es<X: std::fmt::Debug>(e: X) -> String { format!("{:?}", e) }

fn claims<F: PrimeField>(c: &Case, x: &[F]) -> Vec<Vec<F>> {
    let mut v = vec![x.to_vec()];
    if !x.is_empty() { let mut y = x.to_vec(); let i = c.below(y.len()); y[i] += F::one(); v.push(y); v.push(x[1..].to_vec()); }
    v
}
fn circuit<F: PrimeField>(c: &Case, big: bool) -> (Circ<F>, Circ<F>) {
    let mut s = Circ::<F>::random_shape(c);
    if big { s.n_con = c.pick(&[63, 64, 65, 100, 127, 200, 255, 300, 500, 1030]); s.n_aux = s.n_con + c.below(20); s.max_terms = c.pick(&[3, 12, 40, 120]); if s.n_con > 1000 { s.max_terms = 4; } s.n_in = if c.chance(1, 5) { 260 } else { c.below(20) };
        // the universal parameters bound the size
        if c.scenario == "marlin-large" { s.n_con = c.pick(&[31, 63, 64, 65, 90]); s.n_aux = s.n_con + c.below(20); s.max_terms = c.pick(&[2, 3, 4]); } }
    let k = Circ::with_shape(c, &s);
    // sometimes the prover's assignment does not satisfy the circuit, or its synthesis fails
    let p = match c.below(8) { 0 => k.corrupt(c, false).map_or(k.clone(), |x| x.0), 1 => { let mut f = k.clone(); f.fail = Some((c.below(f.steps.len()), Fail::Unsat, c.chance(1, 2))); f } _ => k.clone() };
    (k, p)
}
fn scheme<S: Scheme>(c: &Case, o: &Out, big: bool, keys: &dyn Fn(&Out, &S::Pk)) {
    let (k, p) = circuit::<S::F>(c, big);
    let (a, b) = (c.tape(), c.tape());
    let Some(pk) = o.get("key generation", || S::setup(k.blank(), &mut a.clone())) else { return };
    keys(o, &pk);
    let Some((vk, proof)) = o.get("proving", || S::prove(&pk, p.clone(), &mut b.clone())) else { return };
    o.obj("proof", &proof);
    for y in claims(c, &p.inputs) { o.text("verdict", verdict(|| S::verify(&vk, &proof, &y)).class()); }
    if let Some((bad, _)) = mutate::mutate_value(c, S::codec(), &proof) { o.text("verdict on an altered proof", verdict(|| S::verify(&vk, &bad, &p.inputs)).class()); }
}
fn layered<S: LScheme>(c: &Case, o: &Out) {
    let k = lay::LCirc::random(c, 6, 4, 9);
    let n = if S::BATCH { c.pick(&[1, 2, 4]) } else { 1 };
    let x = lay::insts::<S>(c, &k, n);
    let (t, u) = (c.tape(), c.tape());
    let num = lay::num_for(&k, n);
    let Some(p) = o.get("parameters", || Ok(S::params(&mut t.clone(), num))) else { return };
    let Some((proof, outs)) = o.get("proving", || Ok(S::prove(&p, &k, (&k, &p), &x, &mut u.clone()))) else { return };
    o.obj("proof", &proof);
    for y in &outs { o.obj("outputs", y); }
    let ins: Vec<_> = x.iter().map(|i| S::statement(&k, i)).collect();
    o.text("verdict", verdict(|| Ok::<_, String>(S::verify(&p, &k, (&k, &p), &outs, &ins, &proof))).class());
}
fn plonk_case(c: &Case, o: &Out, big: bool) {
    let n = if big { c.range(64, 300) } else { c.range(1, 40) };
    let p = plonk::Prog::random(c, n);
    let cs = p.composer(); let k = plonk::ks(c); let t = c.tape();
    o.obj("public inputs", &cs.public_inputs().to_vec());
    let Some((pk, vk)) = o.get("key generation", || plonk::P::keygen(plonk::srs(), &cs, k).map_err(es)) else { return };
    o.obj("prover key", &(pk.rands.clone(), pk.ck.clone())); o.obj("verifier key", &vk);
    // also an assignment that breaks a gate
    let mut bad = p.clone(); let i = c.below(bad.vals.len()); bad.vals[i] += Fr::from(1u8);
    for (w, q) in [("", &p), (" of a violated circuit", &bad)] {
        let cs = q.composer();
        let Some(proof) = o.get(&format!("proving{}", w), || plonk::P::prove(&pk, &cs, &mut t.clone()).map_err(es)) else { continue };
        o.obj(&format!("proof{}", w), &proof);
        for y in claims(c, &p.pis()) { o.text(&format!("verdict{}", w), verdict(|| plonk::P::verify(&vk, &y, plonk::clone(&proof)).map_err(es)).class()); }
    }
}
fn asvc_case(c: &Case, o: &Out, big: bool) {
    use zkp_asvc::*;
    let n = if big { c.pick(&[64, 100, 128]) } else { c.pick(&[1, 2, 3, 4, 7, 8, 13, 16]) };
    let t = c.tape();
    let Some(k) = o.get("key generation", || key_gen::<E, _>(n, &mut t.clone()).map_err(es)) else { return };
    let pk = &k.proving_key; let vk = &k.verification_key;
    o.obj("powers", &pk.powers_of_g1); o.obj("lagrange", &pk.l_of_g1); o.obj("verifier powers", &(vk.powers_of_g1.clone(), vk.powers_of_g2.clone())); o.obj("a", &vk.a);
    for u in &pk.update_keys { o.obj("update key", &(u.ai, u.ui)); }
    let v: Vec<Fr> = (0..n).map(|_| spec_f(c, 30)).collect();
    let Some(cm) = o.get("commit", || commit(pk, v.clone()).map_err(es)) else { return };
    o.obj("commitment", &cm.commit);
    let w = { use ark_poly::EvaluationDomain; match ark_poly::GeneralEvaluationDomain::<Fr>::new(n).unwrap() { ark_poly::GeneralEvaluationDomain::Radix2(x) => x.group_gen, ark_poly::GeneralEvaluationDomain::MixedRadix(x) => x.group_gen } };
    let mut pos: Vec<u32> = (0..n as u32).filter(|_| c.chance(1, 2)).collect(); if pos.is_empty() { pos.push(c.below(n) as u32); }
    let vals: Vec<Fr> = pos.iter().map(|i| v[*i as usize]).collect();
    if let Some(p) = o.get("opening", || prove_pos(pk, v.clone(), pos.clone()).map_err(es)) { o.obj("opening", &p.w); o.text("verdict", verdict(|| verify_pos(vk, &cm, vals.clone(), pos.clone(), &p, w)).class()); }
    let singles: Vec<Proof<E>> = pos.iter().take(12).filter_map(|i| o.get("single opening", || prove_pos(pk, v.clone(), vec![*i]).map_err(es))).collect();
    for s in &singles { o.obj("single opening", &s.w); }
    if let Some(a) = o.get("aggregation", || aggregate_proofs(pos[..singles.len()].to_vec(), singles.clone(), w).map_err(es)) { o.obj("aggregate", &a.w); }
    let (i, d) = (c.below(n), rand_f::<Fr>(c)); let u = &pk.update_keys;
    if let Some(x) = o.get("update", || update_commit(&cm, d, i as u32, &u[i], w, n).map_err(es)) { o.obj("updated commitment", &x.commit); }
    if let Some(x) = o.get("update", || update_proof(&singles[0], d, pos[0], i as u32, &u[pos[0] as usize], &u[i], w, n).map_err(es)) { o.obj("updated opening", &x.w); }
    o.text("update key verdict", verdict(|| verify_upk(vk, i as u32, &u[i], w)).class());
}
/// multi-scalar multiplication and generators of the repository's curve layer
fn curves(c: &Case, o: &Out, big: bool) {
    use zkp_curve::Curve;
    fn one<G: Curve>(c: &Case, o: &Out, n: usize, name: &str) {
        let mut r = c.tape();
        let g: Vec<G::Affine> = (0..n).map(|_| G::Projective::rand(&mut r).into()).collect();
        let s: Vec<G::Fr> = (0..n).map(|_| spec_f::<G::Fr>(c, 30)).collect();
        if let Some(p) = o.get("msm", || Ok(G::vartime_multiscalar_mul(&s, &g))) { let p: G::Affine = p.into(); o.obj(&format!("msm {}", name), &p); }
    }
    let n = if big { c.range(200, 700) } else { c.range(1, 60) };
    one::<E>(c, o, n, "bls12-381"); one::<C25>(c, o, n, "curve25519");
}

/// native hashes, and the constraints and values of gadgets
fn gadgets<F: PrimeField>(c: &Case, o: &Out) {
    use vh::{gadgets::*, rcs::*};
    use zkp_gadgets::{hashes::{blake2s, mimc, poseidon, rescue, sha256}, lookup::table, operator::rangeproof::RangeProof};
    use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};
    let put = |l: &str, f: &dyn Fn(&mut Rcs<F>) -> Result<(), SynthesisError>| {
        let mut r = Rcs::<F>::new();
        if o.get(l, || f(&mut r).map_err(es)).is_none() { return; }
        let mut h = Sha256::new(); let mut b = vec![];
        for v in &r.vals { v.serialize(&mut b).unwrap(); }
        for (x, y, z, _) in &r.cons { for l in [x, y, z] { for (i, k) in merge(l.clone()) { b.extend(i.to_le_bytes()); k.serialize(&mut b).unwrap(); } b.push(7); } }
        h.update(&b); o.put(l, &h.finalize());
    };
    let mut m = vec![0u8; c.range(1, 64)]; c.rng.borrow_mut().fill_bytes(&mut m);
    for (l, f) in [("mimc", mimc::hash::<F> as fn(&[u8]) -> F), ("poseidon", poseidon::hash::<F>), ("rescue", rescue::hash::<F>)] { if let Some(x) = o.get(&format!("native {}", l), || Ok(f(&m))) { o.obj(&format!("native {}", l), &x); } }
    put("mimc", &|r| mimc::mimc(r.ns(|| "h"), Some(&m)).map(|_| ()));
    put("poseidon", &|r| poseidon::poseidon(r.ns(|| "h"), &m).map(|_| ()));
    put("rescue", &|r| rescue::rescue(r.ns(|| "h"), &m).map(|_| ()));
    let ops: Vec<Op> = (0..m.len().min(20) * 8).map(|i| rand_op(c, i)).collect();
    put("sha256", &|r| { let x: Vec<_> = operands(r, true, &ops, "m")?.into_iter().map(|x| x.0).collect(); sha256::sha256(r.ns(|| "h"), &x).map(|_| ()) });
    put("blake2s", &|r| { let x: Vec<_> = operands(r, true, &ops, "m")?.into_iter().map(|x| x.0).collect(); blake2s::blake2s(r.ns(|| "h"), &x, b"12345678").map(|_| ()) });
    let t: Vec<F> = (0..8).map(|_| spec_f(c, 40)).collect();
    put("lookup", &|r| { let x: Vec<_> = operands(r, true, &ops[..3.min(ops.len())], "m")?.into_iter().map(|x| x.0).collect(); table::lookup3_x(r.ns(|| "h"), &x, &t).map(|_| ()) });
    let (x, y) = (c.below(1 << 20) as u64, c.below(1 << 20) as u64);
    put("range", &|r| RangeProof::<F> { lhs: Some(F::from(x)), rhs: Some(F::from(y)), n: 22 }.generate_constraints(r));
    // trees
    use zkp_gadgets::merkletree::cbmt::{Merge, CBMT};
    struct M; impl Merge for M { type Item = Vec<u8>; fn merge(a: &Vec<u8>, b: &Vec<u8>) -> Vec<u8> { let mut h = Sha256::new(); h.update(a); h.update(b); h.finalize().to_vec() } }
    let leaves: Vec<Vec<u8>> = (0..c.range(1, 20)).map(|i| vec![i as u8; 32]).collect();
    let idx = c.below(leaves.len() + 1) as u32;
    if let Some((root, p)) = o.get("merkle tree", || { let t = CBMT::<Vec<u8>, M>::build_merkle_tree(leaves.clone()); Ok((t.root(), t.build_proof(&idx).map(|p| format!("{} {:?}", p.index(), p.lemmas())))) }) { o.put("merkle root", &root); o.text("merkle proof", &format!("{:?}", p)); }
}

#[cfg(feature = "parallel")]
fn noise(seed: u64) {
    // perturb the scheduling of the pool: tasks that sleep or spin inside it, threads that contend outside it
    for t in 0..2u64 { std::thread::spawn(move || { let mut x = seed ^ (t << 32) | 1; loop { x ^= x << 13; x ^= x >> 7; x ^= x << 17; match x % 4 { 0 => std::thread::sleep(std::time::Duration::from_micros(x % 900)), 1 => { let n = x % 300_000; let mut y = x; for _ in 0..n { y = y.wrapping_mul(6364136223846793005).wrapping_add(1); } std::hint::black_box(y); } 2 => rayon::spawn(move || std::thread::sleep(std::time::Duration::from_micros(x % 700))), _ => std::thread::yield_now() } } }); }
}
#[cfg(not(feature = "parallel"))]
fn noise(_: u64) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, group, from, to): (u64, String, u64, u64) = (a[1].parse().unwrap(), a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap());
    if std::env::var("C21_NOISE").is_ok() { noise(seed); }
    let ctx = Ctx::new("C21", "");
    #[cfg(feature = "parallel")] println!("threads {}", rayon::current_num_threads());
    #[cfg(not(feature = "parallel"))] println!("threads 0");
    println!("std {}", cfg!(feature = "std"));
    for i in from..to {
        let mut h = Sha256::new(); h.update(b"c21"); h.update(&group); h.update(seed.to_le_bytes()); h.update(i.to_le_bytes());
        let mut s = [0u8; 32]; s.copy_from_slice(&h.finalize());
        let c = Case { ctx: &ctx, scenario: group.clone(), idx: i, rng: RefCell::new(ChaCha20Rng::from_seed(s)) };
        let big = group.ends_with("-large");
        let o = Out { tag: format!("{}/{}", group, i), n: RefCell::new(0) };
        match group.trim_end_matches("-large") {
            "groth16" => scheme::<Groth16>(&c, &o, big, &|o, pk| { o.obj("parameters", &pk.0); }),
            "marlin" => scheme::<Marlin>(&c, &o, big, &|o, pk| { o.obj("verifier key", &*pk.ivk); }),
            "marlin-srs" => { let (d, t) = (c.range(1, 300), c.tape()); if let Some(p) = o.get("setup", || zkp_marlin::universal_setup::<E, _>(d, &mut t.clone()).map_err(es)) { o.obj("universal parameters", &(p.powers_of_g.clone(), p.powers_of_gamma_g.clone(), (p.h, p.beta_h))); } }
            "bulletproofs" => if i % 3 == 2 { scheme::<Bp25519>(&c, &o, big, &|_, _| {}) } else { scheme::<BpBls>(&c, &o, big, &|_, _| {}) },
            "spartan-nizk" => if i % 3 == 2 { scheme::<Nizk25519>(&c, &o, big, &|o, k| { o.obj("hashes", &(k.vk.rh, k.vk.ph)); }) } else { scheme::<Nizk>(&c, &o, big, &|o, k| { o.obj("hashes", &(k.vk.rh, k.vk.ph)); }) },
            "spartan-snark" => if i % 3 == 2 { scheme::<Snark25519>(&c, &o, big, &|o, k| { o.obj("hashes", &(k.vk.rh, (k.vk.ph, k.vk.eh))); }) } else { scheme::<Snark>(&c, &o, big, &|o, k| { o.obj("hashes", &(k.vk.rh, (k.vk.ph, k.vk.eh))); }) },
            "plonk" => plonk_case(&c, &o, big),
            "asvc" => asvc_case(&c, &o, big),
            "libra" => if i % 3 == 2 { layered::<lay::Zk<C25>>(&c, &o) } else if i % 3 == 1 { layered::<lay::Plain<E>>(&c, &o) } else { layered::<lay::Zk<E>>(&c, &o) },
            "hyrax" => if i % 3 == 2 { layered::<lay::Hyrax<C25>>(&c, &o) } else { layered::<lay::Hyrax<E>>(&c, &o) },
            "gadgets" => if i % 3 == 2 { gadgets::<zkp_curve25519::Fr>(&c, &o) } else { gadgets::<Fr>(&c, &o) },
            "curve" => curves(&c, &o, big),
            g => panic!("no group {}", g),
        }
        let _ = c.rng.borrow_mut().next_u64();
        println!("done {}/{}", group, i);
    }
    std::process::exit(0)
}
