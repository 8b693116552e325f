//! Serialization round trips of every serializable public type, and what read-back objects do.
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize as De, CanonicalSerialize as Se};
use serde_json::json;
use std::io::{Read, Write};
use vh::{circ::*, layered as lay, layered::LScheme, mutate, plonk, r1cs_checks, schemes::*, *};
use zkp_curve::Curve;
use zkp_curve25519::Curve25519 as C25;

/// a reader and a writer that move few bytes at a time
struct Drip<'a>(&'a [u8], usize);
impl Read for Drip<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
struct Sip(Vec<u8>, usize, usize);
impl Write for Sip {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0.len() >= self.2 { return if b.is_empty() { Ok(0) } else { Err(std::io::ErrorKind::WriteZero.into()) }; } let n = b.len().min(self.1).min(self.2 - self.0.len()); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
const MODES: [&str; 3] = ["compressed", "uncompressed", "unchecked"];
fn ser<T: Se>(t: &T, mode: usize, w: &mut dyn Write) -> Result<(), String> { (match mode { 0 => t.serialize(w), 1 => t.serialize_uncompressed(w), _ => t.serialize_unchecked(w) }).map_err(|e| format!("{:?}", e)) }
fn de<T: De>(mode: usize, r: &mut dyn Read) -> Result<T, String> { (match mode { 0 => T::deserialize(r), 1 => T::deserialize_uncompressed(r), _ => T::deserialize_unchecked(r) }).map_err(|e| format!("{:?}", e)) }

/// the round trip of one value; returns the copies read back
fn rt<T: Se + De>(c: &Case, name: &str, t: &T) -> Vec<T> {
    let mut copies = vec![]; let mut all = vec![];
    for mode in 0..3 {
        let what = |s: &str| format!("{} {}: {}", name, MODES[mode], s);
        let mut b = vec![];
        match sut(|| ser(t, mode, &mut b)) { Sut::Val(Ok(())) => {} o => { c.violation(&what("does not serialize"), json!({"outcome": format!("{:?}", match o { Sut::Panic(p) => p, Sut::Val(r) => format!("{:?}", r) })})); continue; } }
        c.eval(&(name, mode, &b), !b.is_empty());
        c.count(&format!("{} {}", name, MODES[mode]));
        let size = match mode { 0 => t.serialized_size(), _ => t.uncompressed_size() };
        c.check(size == b.len(), &what("announced size differs from the bytes written"), || json!({"announced": size, "written": b.len()}));
        // written in small pieces, or to a place too small for it
        let mut s = Sip(vec![], c.range(1, 7), usize::MAX);
        if c.chance(1, 4) { let r = sut(|| ser(t, mode, &mut s)); c.check(matches!(r, Sut::Val(Ok(()))) && s.0 == b, &what("depends on how the bytes are taken"), || json!({})); }
        if !b.is_empty() && c.chance(1, 2) { let mut s = Sip(vec![], 64, c.below(b.len())); let r = sut(|| ser(t, mode, &mut s)); c.check(matches!(r, Sut::Val(Err(_))), &what("no error although not everything could be written"), || json!({"room": s.2, "needed": b.len()})); }
        // read back, followed by other data
        let mut two = b.clone(); two.extend_from_slice(&[0xa5, 0x5a, 0]);
        let mut r = &two[..];
        let u: T = match sut(|| de::<T>(mode, &mut r)) { Sut::Val(Ok(u)) => u, o => { c.violation(&what("does not deserialize"), json!({"outcome": match o { Sut::Panic(p) => p, Sut::Val(r) => r.err().unwrap_or_default() }, "bytes": b.len()})); continue; } };
        c.check(r.len() == 3, &what("reading takes another number of bytes than writing"), || json!({"left": r.len(), "expected": 3}));
        let mut again = vec![]; let ok = sut(|| ser(&u, mode, &mut again));
        c.check(matches!(ok, Sut::Val(Ok(()))) && again == b, &what("what is read back differs"), || json!({"bytes": b.len(), "first difference": b.iter().zip(&again).position(|(x, y)| x != y)}));
        if c.chance(1, 4) { let mut d = Drip(&b, c.range(1, 7)); let ok = match sut(|| de::<T>(mode, &mut d)) { Sut::Val(Ok(v)) => { let mut x = vec![]; ser(&v, mode, &mut x).is_ok() && x == b } _ => false }; c.check(ok, &what("depends on how the bytes arrive"), || json!({"bytes": b.len()})); }
        // cut off anywhere
        let cuts: Vec<usize> = if b.len() <= 120 { (0..b.len()).collect() } else { let mut v: Vec<usize> = (0..24).map(|_| c.below(b.len())).collect(); v.extend(&[0, 1, 8, b.len() - 1, b.len() - 8, b.len() - 32]); v };
        for k in cuts {
            let mut r = &b[..k];
            match sut(|| de::<T>(mode, &mut r).map(|_| ())) {
                Sut::Val(Err(_)) => c.count("truncated encodings refused"),
                Sut::Val(Ok(())) => c.violation(&what("a truncated encoding is accepted"), json!({"length": k, "of": b.len()})),
                Sut::Panic(p) => c.violation(&what("reading a truncated encoding panics"), json!({"length": k, "of": b.len(), "panic": p})),
            }
        }
        copies.push(u); all.push(b);
    }
    // the copies agree with the original whatever way they travelled
    for (i, u) in copies.iter().enumerate() { let mut b = vec![]; if ser(u, 0, &mut b).is_ok() && !all.is_empty() { c.check(b == all[0], &format!("{}: the copies differ", name), || json!({"way": MODES[i]})); } }
    if all.len() == 3 { c.check(all[1].len() == all[2].len(), &format!("{}: checked and unchecked forms differ in size", name), || json!({"uncompressed": all[1].len(), "unchecked": all[2].len()})); }
    copies
}
/// a read-back object must lead to the same outcome
fn same<X: PartialEq + std::fmt::Debug>(c: &Case, name: &str, what: &str, a: &Sut<X>, b: &Sut<X>) { c.count(&format!("{}: {}", name, what)); c.check(a == b, &format!("{}: {} with a read-back object differs", name, what), || json!({"original": format!("{:?}", a).chars().take(200).collect::<String>(), "read back": format!("{:?}", b).chars().take(200).collect::<String>()})); }
fn class(v: Verdict) -> Sut<String> { Sut::Val(v.class().into()) }
/// the statements to put to a proof: the true one, others
fn claims<F: PrimeField>(c: &Case, x: &[F]) -> Vec<Vec<F>> {
    let mut v = vec![x.to_vec()];
    if !x.is_empty() { let mut y = x.to_vec(); let i = c.below(y.len()); y[i] += F::one(); v.push(y); v.push(x[1..].to_vec()); }
    let mut y = x.to_vec(); y.push(F::zero()); v.push(y); v
}
fn small<F: PrimeField>(c: &Case) -> Circ<F> { let mut s = Circ::<F>::random_shape(c); s.n_in = s.n_in.min(5); s.n_aux = s.n_aux.min(12); s.n_con = s.n_con.min(14).max(1); Circ::with_shape(c, &s) }
/// the proof and its copies, altered or not, under the key and its copies
fn proofs<P: Se + De, V, F: PrimeField>(c: &Case, name: &str, codec: &dyn mutate::Codec, p: &P, vks: &[V], x: &[F], verify: &dyn Fn(&V, &P, &[F]) -> Result<bool, String>) {
    let copies = rt(c, &format!("{} proof", name), p);
    for y in claims(c, x) {
        let want = class(verdict(|| verify(&vks[0], p, &y)));
        for q in &copies { same(c, name, "verification of a proof", &want, &class(verdict(|| verify(&vks[0], q, &y)))); }
        for v in &vks[1..] { same(c, name, "verification with a key", &want, &class(verdict(|| verify(v, p, &y)))); }
    }
    if let Some((bad, _)) = mutate::mutate_value(c, codec, p) {
        let want = class(verdict(|| verify(&vks[0], &bad, x)));
        for q in rt(c, &format!("{} altered proof", name), &bad) { same(c, name, "verification of an altered proof", &want, &class(verdict(|| verify(&vks[0], &q, x)))); }
    }
}
fn groth16(c: &Case) {
    let k = small::<Fr>(c);
    let Sut::Val(Ok(p)) = sut(|| zkp_groth16::generate_random_parameters::<E, _, _>(k.blank(), &mut c.tape())) else { c.count("no base proof"); return };
    let (r, s) = (Fr::rand(&mut c.tape()), Fr::rand(&mut c.tape()));
    let prove = |p: &zkp_groth16::Parameters<E>| sut(|| zkp_groth16::prover::create_proof(p, k.clone(), r, s).map(|x| mutate::bytes(&x)).map_err(|e| format!("{:?}", e)));
    let want = prove(&p);
    for q in rt(c, "groth16 parameters", &p) { c.check(q == p, "groth16 parameters: copy differs from the original", || json!({})); same(c, "groth16", "proving", &want, &prove(&q)); }
    let mut vks = vec![zkp_groth16::prepare_verifying_key(&p.vk)];
    for q in rt(c, "groth16 verifying key", &p.vk) { c.check(q == p.vk, "groth16 verifying key: copy differs from the original", || json!({})); vks.push(zkp_groth16::prepare_verifying_key(&q)); }
    let Sut::Val(Ok(b)) = want else { c.count("no base proof"); return };
    proofs(c, "groth16", Groth16::codec(), &mutate::from_bytes::<zkp_groth16::Proof<E>>(&b).unwrap(), &vks, &k.inputs, &|v, p, x| Groth16::verify(&std::sync::Arc::new(v.clone()), p, x));
}
fn bulletproofs<G: Curve + 'static>(c: &Case, name: &str, codec: &dyn mutate::Codec) where Bulletproofs<G>: Scheme {
    let mut k = small::<G::Fr>(c); if k.cons.len() > 6 { let mut s = Circ::<G::Fr>::random_shape(c); s.n_con = 5; s.n_aux = 5; s.n_in = 2; k = Circ::with_shape(c, &s); }
    let Sut::Val(Ok((g, r, p))) = sut(|| zkp_bulletproofs::create_random_proof::<G, _, _>(k.clone(), &mut c.tape())) else { c.count("no base proof"); return };
    let (gs, rs) = (rt(c, &format!("{} generators", name), &g), rt(c, &format!("{} circuit", name), &r));
    let mut vks = vec![(g, r)]; vks.extend(gs.into_iter().zip(rs));
    proofs(c, name, codec, &p, &vks, &k.inputs, &|v, p, x| zkp_bulletproofs::verify_proof(&v.0, p, &v.1, x).map_err(|e| format!("{:?}", e)));
}
macro_rules! spartan { ($fname:ident, $m:ident, $hash:expr) => {
fn $fname<G: Curve + 'static>(c: &Case, name: &str, codec: &dyn mutate::Codec) {
    use zkp_spartan::$m as s;
    let k = small::<G::Fr>(c);
    let p = match sut(|| s::generate_random_parameters::<G, _, _>(k.blank(), &mut c.tape())) { Sut::Val(Ok(p)) => p, _ => { c.count("no base proof"); return; } };
    let mut ps = rt(c, &format!("{} parameters", name), &p); ps.insert(0, p);
    let tape = c.tape();
    let mut want = None; let mut vks = vec![]; let mut pks = vec![];
    let hash = $hash;
    for q in ps { let h = sut(|| hash(&q)); let (pk, vk) = q.keypair(); pks.push((pk, h.clone())); vks.push((vk, h)); }
    let (pk0, h0) = pks.remove(0); let (vk0, _) = vks.remove(0);
    let extra = rt(c, &format!("{} proving key", name), &pk0); let extra_v = rt(c, &format!("{} verifying key", name), &vk0);
    pks.insert(0, (pk0, h0.clone())); vks.insert(0, (vk0, h0.clone()));
    pks.extend(extra.into_iter().map(|x| (x, h0.clone()))); vks.extend(extra_v.into_iter().map(|x| (x, h0.clone())));
    for (pk, h) in &pks {
        let Sut::Val(h) = h else { c.count("no base proof"); return };
        let r = sut(|| spartan_prove!($m, pk, k.clone(), h, &mut tape.clone()).map(|p| mutate::bytes(&p)).map_err(|e| format!("{:?}", e)));
        match &want { None => want = Some(r), Some(w) => same(c, name, "proving", w, &r) }
    }
    let Some(Sut::Val(Ok(b))) = want else { c.count("no base proof"); return };
    proofs(c, name, codec, &mutate::from_bytes::<s::Proof<G>>(&b).unwrap(), &vks, &k.inputs, &|v, p, x| { let Sut::Val(h) = &v.1 else { return Err("hash".into()) }; spartan_verify!($m, &v.0, p, x, h).map_err(|e| format!("{:?}", e)) });
} } }
macro_rules! spartan_prove { (nizk, $pk:expr, $k:expr, $h:expr, $r:expr) => { zkp_spartan::nizk::create_random_proof($pk, $k, $h.0, $h.1, $r) }; (snark, $pk:expr, $k:expr, $h:expr, $r:expr) => { zkp_spartan::snark::create_random_proof($pk, $k, $h.0, $h.1, $h.2, $r) } }
macro_rules! spartan_verify { (nizk, $v:expr, $p:expr, $x:expr, $h:expr) => { zkp_spartan::nizk::verify_proof($v, $p, $x, $h.0, $h.1) }; (snark, $v:expr, $p:expr, $x:expr, $h:expr) => { zkp_spartan::snark::verify_proof($v, $p, $x, $h.0, $h.1, $h.2) } }
spartan!(nizk, nizk, |p: &s::Parameters<G>| (p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), G::Fr::zero()));
spartan!(snark, snark, |p: &s::Parameters<G>| (p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()));
fn marlin(c: &Case) {
    let k = small::<Fr>(c);
    let Some((pk, vk, proof)) = r1cs_checks::base::<Marlin>(c, &k) else { return };
    let mut vks = vec![(*vk).clone()];
    vks.extend(rt(c, "marlin index verifying key", &*vk));
    rt(c, "marlin index information", &vk.index_info); rt(c, "marlin commitment", &vk.index_comms[0]); rt(c, "marlin commitment key of the verifier", &vk.verifier_key); rt(c, "marlin opening", &proof.opening_proofs[0]);
    for p in pk.ipk.index.iter().take(1 + c.below(12)) { rt(c, "marlin labelled polynomial", p); }
    let mut ipk = pk.ipk.clone(); let tape = c.tape();
    let prove = |i: &zkp_marlin::IndexProverKey<'static, E>| sut(|| zkp_marlin::create_random_proof(i, k.clone(), &mut tape.clone()).map(|x| mutate::bytes(&x)).map_err(|e| format!("{:?}", e)));
    let want = prove(&ipk);
    for ck in rt(c, "marlin committer key", &pk.ipk.committer_key) { ipk.committer_key = ck; same(c, "marlin", "proving", &want, &prove(&ipk)); }
    for v in &vks[1..] { ipk.index_verifier_key = v.clone(); same(c, "marlin", "proving", &want, &prove(&ipk)); }
    proofs(c, "marlin", Marlin::codec(), &proof, &vks, &k.inputs, &|v, p, x| zkp_marlin::verify_proof(v, p, x).map_err(|e| format!("{:?}", e)));
}
fn plonk_(c: &Case) {
    let n = c.range(1, 20);
    let Some(b) = plonk::base(c, n) else { return };
    rt(c, "plonk index information", &b.vk.info);
    let mut vks = vec![b.vk.clone()]; vks.extend(rt(c, "plonk verifying key", &b.vk));
    let pi = b.prog.pis();
    proofs(c, "plonk", &mutate::Bls, &b.proof, &vks, &pi, &|v, p, x| plonk::P::verify(v, x, plonk::clone(p)).map_err(|e| format!("{:?}", e)));
}
fn layered<S: LScheme>(c: &Case, params: impl Fn(&Case, &S::Params) -> Vec<S::Params>) {
    let Some(r) = lay::base::<S>(c) else { return };
    let copies = rt(c, &format!("{} proof", S::NAME), &r.proof);
    let ps = params(c, &r.p);
    let mut wrong = r.outs.clone(); if !wrong[0].is_empty() { let i = c.below(wrong[0].len()); wrong[0][i] += lay::Fr::<S>::from(1u32); }
    let altered = mutate::mutate_value(c, S::codec(), &r.proof).map(|x| x.0);
    for outs in &[r.outs.clone(), wrong] {
        let want = class(verdict(|| Ok::<_, String>(S::verify(&r.p, &r.c, (&r.c, &r.p), outs, &r.ins, &r.proof))));
        for q in &copies { same(c, S::NAME, "verification of a proof", &want, &class(verdict(|| Ok::<_, String>(S::verify(&r.p, &r.c, (&r.c, &r.p), outs, &r.ins, q))))); }
        for p in &ps { same(c, S::NAME, "verification with parameters", &want, &class(verdict(|| Ok::<_, String>(S::verify(p, &r.c, (&r.c, p), outs, &r.ins, &r.proof))))); }
        // what the prover makes of them
        if *outs == r.outs { let tape = c.tape(); let go = |p: &S::Params| sut(|| mutate::bytes(&S::prove(p, &r.c, (&r.c, p), &r.x, &mut tape.clone()).0)); let want = go(&r.p); for p in &ps { same(c, S::NAME, "proving", &want, &go(p)); } }
    }
    if let Some(bad) = altered { let f = |q: &S::Proof| class(verdict(|| Ok::<_, String>(S::verify(&r.p, &r.c, (&r.c, &r.p), &r.outs, &r.ins, q)))); let want = f(&bad); for q in rt(c, &format!("{} altered proof", S::NAME), &bad) { same(c, S::NAME, "verification of an altered proof", &want, &f(&q)); } }
}
macro_rules! lparams { ($k:ident, $m:ident) => { |c: &Case, p: &$m::params::Parameters<_>| { let n = stringify!($k); rt(c, &format!("{} sum-check parameters", n), &p.sc_params); rt(c, &format!("{} commitment parameters", n), &p.pc_params); rt(c, &format!("{} parameters", n), p) } } }
/// points, scalars, variable indices, and the byte forms of the curve's elements
fn basic(c: &Case) {
    fn point<G: Curve>(c: &Case, n: &str) where G::Affine: ark_ff::ToBytes + ark_ff::FromBytes {
        use ark_ec::{AffineCurve, ProjectiveCurve};
        let mut rng = c.tape();
        let p: G::Projective = match c.below(6) { 0 => G::Projective::zero(), 1 => G::Affine::prime_subgroup_generator().into_projective(), 2 => -G::Affine::prime_subgroup_generator().into_projective(), _ => G::Projective::rand(&mut rng) };
        for q in rt(c, &format!("{} affine point", n), &p.into_affine()) { c.check(q == p.into_affine(), &format!("{} affine point: copy differs", n), || json!({"point": format!("{}", p)})); }
        for q in rt(c, &format!("{} point", n), &p) { c.check(q == p, &format!("{} point: copy differs", n), || json!({"point": format!("{}", p)})); }
        let mut b = vec![]; let a = p.into_affine(); ark_ff::ToBytes::write(&a, &mut b).unwrap();
        let r = sut(|| <G::Affine as ark_ff::FromBytes>::read(&b[..])); c.check(matches!(&r, Sut::Val(Ok(q)) if *q == a), &format!("{} affine point: byte form differs", n), || json!({"point": format!("{}", p)}));
        for k in 0..b.len() { let r = sut(|| <G::Affine as ark_ff::FromBytes>::read(&b[..k])); c.check(matches!(&r, Sut::Val(Err(_))), &format!("{} affine point: a truncated byte form is accepted", n), || json!({"length": k})); }
        let x: G::Fr = spec_f(c, 40);
        for y in rt(c, &format!("{} scalar", n), &x) { c.check(y == x, &format!("{} scalar: copy differs", n), || json!({"scalar": r1cs_checks::hexf(&x)})); }
        let mut b = vec![]; ark_ff::ToBytes::write(&x, &mut b).unwrap();
        let r = sut(|| <G::Fr as ark_ff::FromBytes>::read(&b[..])); c.check(matches!(&r, Sut::Val(Ok(q)) if *q == x), &format!("{} scalar: byte form differs", n), || json!({"scalar": r1cs_checks::hexf(&x)}));
        let v: Vec<G::Affine> = (0..c.below(4)).map(|_| G::Projective::rand(&mut rng).into_affine()).collect(); rt(c, &format!("{} list of points", n), &v);
        // two values in a row
        let y: G::Fr = spec_f(c, 40); rt(c, &format!("{} tuple", n), &(x, p.into_affine(), y));
    }
    point::<E>(c, "bls12-381"); point::<C25>(c, "curve25519");
    let f = c.below(1 << 40) as usize;
    for i in [zkp_r1cs::Index::Input(f), zkp_r1cs::Index::Aux(f), zkp_r1cs::Index::Input(0), zkp_r1cs::Index::Aux(usize::MAX >> c.below(64))].iter() { for j in rt(c, "variable index", i) { c.check(j == *i, "variable index: copy differs", || json!({"index": format!("{:?}", i), "copy": format!("{:?}", j)})); } }
    let v: Vec<(Fr, zkp_r1cs::Index)> = (0..c.below(5)).map(|j| (spec_f(c, 30), if c.chance(1, 2) { zkp_r1cs::Index::Input(j) } else { zkp_r1cs::Index::Aux(c.below(1000)) })).collect();
    for w in rt(c, "row of a constraint", &v) { c.check(w == v, "row of a constraint: copy differs", || json!({})); }
    let x = Fr::rand(&mut c.tape()); let _ = x.square();
}
fn main() {
    let ctx = Ctx::new("C19", "one value serialized and read back in one of the three forms; distinct by type, form and bytes");
    ctx.run(vec![
        sc("groth16", 40, groth16),
        sc("bulletproofs/bls12-381", 16, |c| bulletproofs::<E>(c, "bulletproofs/bls12-381", &mutate::Bls)),
        sc("bulletproofs/curve25519", 16, |c| bulletproofs::<C25>(c, "bulletproofs/curve25519", &mutate::C25519)),
        sc("spartan nizk/bls12-381", 16, |c| nizk::<E>(c, "spartan-nizk/bls12-381", &mutate::Bls)),
        sc("spartan nizk/curve25519", 16, |c| nizk::<C25>(c, "spartan-nizk/curve25519", &mutate::C25519)),
        sc("spartan snark/bls12-381", 8, |c| snark::<E>(c, "spartan-snark/bls12-381", &mutate::Bls)),
        sc("spartan snark/curve25519", 8, |c| snark::<C25>(c, "spartan-snark/curve25519", &mutate::C25519)),
        sc("marlin", 12, marlin),
        sc("plonk", 16, plonk_),
        sc("libra-linear/bls12-381", 10, |c| layered::<lay::Plain<E>>(c, |_, _| vec![])),
        sc("libra-linear/curve25519", 10, |c| layered::<lay::Plain<C25>>(c, |_, _| vec![])),
        sc("libra-zk/bls12-381", 16, |c| layered::<lay::Zk<E>>(c, lparams!(libra, zkp_libra))),
        sc("libra-zk/curve25519", 16, |c| layered::<lay::Zk<C25>>(c, lparams!(libra, zkp_libra))),
        sc("hyrax/bls12-381", 12, |c| layered::<lay::Hyrax<E>>(c, lparams!(hyrax, zkp_hyrax))),
        sc("hyrax/curve25519", 12, |c| layered::<lay::Hyrax<C25>>(c, lparams!(hyrax, zkp_hyrax))),
        sc("points, scalars, indices", 60, basic),
    ]);
    ctx.finish();
}
