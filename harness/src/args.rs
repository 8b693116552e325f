//! The stand-alone arguments about commitments that the schemes are built from.
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize as De, CanonicalSerialize as Se};
use merlin::Transcript;
use serde_json::json;
use crate::{mutate, mutate::Codec, ctx::*};
use zkp_curve::Curve;
pub use zkp_curve25519::Curve25519 as C25;
pub type E = ark_bls12_381::Bls12_381;

/// One kind of argument. `make` runs the prover on a claim that is true or (if `lie`) false.
pub trait Arg {
    type Params; type Proof: Se + De; type Stmt: Se + De;
    const NAME: &'static str;
    /// whether the prover can be asked to claim something false
    const LIES: bool = true;
    fn codec() -> &'static dyn Codec;
    fn params(c: &Case) -> Self::Params;
    fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt);
    fn verify(p: &Self::Params, proof: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool;
}
pub trait K: Curve { fn codec() -> &'static dyn Codec; const N: &'static str; }
impl K for E { fn codec() -> &'static dyn Codec { &mutate::Bls } const N: &'static str = "bls12-381"; }
impl K for C25 { fn codec() -> &'static dyn Codec { &mutate::C25519 } const N: &'static str = "curve25519"; }

pub fn val<F: PrimeField>(c: &Case) -> F { match c.below(6) { 0 => F::zero(), 1 => F::one(), 2 => -F::one(), 3 => F::from(c.below(1000) as u64), _ => F::rand(&mut c.tape()) } }
pub fn vals<F: PrimeField>(c: &Case, n: usize) -> Vec<F> { if c.chance(1, 8) { return vec![val(c); n]; } (0..n).map(|_| val(c)).collect() }
thread_local! { pub static PLAIN: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// Values that an alteration cannot leave without effect: none of them zero where the published arguments
/// ignore what zeros multiply (and a vector of zeros makes every claim about its inner product pass).
pub fn full<F: PrimeField>(c: &Case, n: usize) -> Vec<F> { if PLAIN.with(|p| p.get()) { (0..n).map(|_| blind(c)).collect() } else { let mut v = vals(c, n); if v.iter().all(|x: &F| x.is_zero()) { v[0] = F::one(); } v } }
pub fn off<F: PrimeField>(c: &Case, x: F) -> F { let d: F = val(c); if d.is_zero() { x + F::one() } else { x + d } }
pub fn dot<F: Field>(a: &[F], b: &[F]) -> F { a.iter().zip(b).map(|(x, y)| *x * y).sum() }
pub fn blind<F: PrimeField>(c: &Case) -> F { loop { let b = F::rand(&mut c.tape()); if !b.is_zero() { return b; } } }
/// value of the multilinear polynomial with the given values on the cube; first coordinate = highest bit
pub fn mle<F: Field>(v: &[F], r: &[F]) -> F { let mut v = v.to_vec(); for x in r { let h = v.len() / 2; v = (0..h).map(|i| v[i] + (v[h + i] - v[i]) * x).collect(); } v[0] }

macro_rules! args { ($m:ident, $krate:ident, $tag:literal) => { pub mod $m {
    use super::*; use $krate::{commitment as cm, params::*};
    type Tok3<G> = (<G as Curve>::Affine, <G as Curve>::Affine, <G as Curve>::Affine);
    pub struct Eq<G>(std::marker::PhantomData<G>); pub struct Know<G>(std::marker::PhantomData<G>); pub struct Prod<G>(std::marker::PhantomData<G>);
    pub struct Dot<G>(std::marker::PhantomData<G>); pub struct Log<G>(std::marker::PhantomData<G>); pub struct Poly<G>(std::marker::PhantomData<G>);
    impl<G: K> Arg for Eq<G> {
        type Params = MultiCommitmentSetupParameters<G>; type Proof = cm::EqProof<G>; type Stmt = (G::Affine, G::Affine);
        const NAME: &'static str = concat!($tag, " equality"); fn codec() -> &'static dyn Codec { G::codec() }
        fn params(c: &Case) -> Self::Params { MultiCommitmentSetupParameters::new(&mut c.tape(), 1) }
        fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
            let x: G::Fr = val(c); let y = if lie { off(c, x) } else { x }; let (a, b) = (blind::<G::Fr>(c), blind::<G::Fr>(c));
            let pr = cm::EqProof::prover(p, x, a, y, b, &mut c.tape(), t);
            let com = |v: G::Fr, r: G::Fr| (p.generators[0].mul(v) + p.h.mul(r)).into_affine();
            (pr, (com(x, a), com(y, b)))
        }
        fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { pr.verify(p, s.0, s.1, t) }
    }
    impl<G: K> Arg for Know<G> {
        type Params = MultiCommitmentSetupParameters<G>; type Proof = (G::Affine, G::Fr, G::Fr); type Stmt = Vec<G::Affine>;
        const NAME: &'static str = concat!($tag, " knowledge"); const LIES: bool = false; fn codec() -> &'static dyn Codec { G::codec() }
        fn params(c: &Case) -> Self::Params { MultiCommitmentSetupParameters::new(&mut c.tape(), 1) }
        fn make(c: &Case, p: &Self::Params, _: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
            let (pr, com) = cm::KnowledgeProof::prover(p, val(c), blind::<G::Fr>(c), &mut c.tape(), t);
            ((pr.t_comm, pr.z1, pr.z2), vec![com])
        }
        fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { cm::KnowledgeProof::<G> { t_comm: pr.0, z1: pr.1, z2: pr.2 }.verify(p, s[0], t) }
    }
    impl<G: K> Arg for Prod<G> {
        type Params = MultiCommitmentSetupParameters<G>; type Proof = cm::ProductProof<G>; type Stmt = Tok3<G>;
        const NAME: &'static str = concat!($tag, " product"); fn codec() -> &'static dyn Codec { G::codec() }
        fn params(c: &Case) -> Self::Params { MultiCommitmentSetupParameters::new(&mut c.tape(), 1) }
        fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
            let (x, y): (G::Fr, G::Fr) = (val(c), val(c)); let z = if lie { off(c, x * y) } else { x * y };
            let (pr, a, b, d) = cm::ProductProof::prover(p, x, blind::<G::Fr>(c), y, blind::<G::Fr>(c), z, blind::<G::Fr>(c), &mut c.tape(), t);
            (pr, (a, b, d))
        }
        fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { pr.verify(p, s.0, s.1, s.2, t) }
    }
    impl<G: K> Arg for Dot<G> {
        type Params = PolyCommitmentSetupParameters<G>; type Proof = (Vec<G::Fr>, (G::Affine, G::Affine), G::Fr, G::Fr); type Stmt = (G::Affine, G::Affine, Vec<G::Fr>);
        const NAME: &'static str = concat!($tag, " inner product"); fn codec() -> &'static dyn Codec { G::codec() }
        fn params(c: &Case) -> Self::Params { PolyCommitmentSetupParameters::new(&mut c.tape(), c.range(0, 8)) }
        fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
            let n = c.range(1, p.n); let (x, a): (Vec<G::Fr>, Vec<G::Fr>) = (vals(c, n), vals(c, n)); let y = dot(&x, &a); let y = if lie { off(c, y) } else { y };
            let (pr, cx, cy) = cm::DotProductProof::prover(p, &x, blind::<G::Fr>(c), &a, y, blind::<G::Fr>(c), &mut c.tape(), t);
            ((pr.z_vec, (pr.delta, pr.beta), pr.z_delta, pr.z_beta), (cx, cy, a))
        }
        fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { cm::DotProductProof::<G> { z_vec: pr.0.clone(), delta: pr.1 .0, beta: pr.1 .1, z_delta: pr.2, z_beta: pr.3 }.verify(p, s.0, s.1, &s.2, t) }
    }
    impl<G: K> Arg for Log<G> {
        type Params = PolyCommitmentSetupParameters<G>; type Proof = cm::LogDotProductProof<G>; type Stmt = (G::Affine, G::Affine, Vec<G::Fr>);
        const NAME: &'static str = concat!($tag, " logarithmic inner product"); fn codec() -> &'static dyn Codec { G::codec() }
        fn params(c: &Case) -> Self::Params { PolyCommitmentSetupParameters::new(&mut c.tape(), c.range(0, 8)) }
        fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
            let n = p.n; let (x, a): (Vec<G::Fr>, Vec<G::Fr>) = (vals(c, n), full(c, n)); let y = dot(&x, &a); let y = if lie { off(c, y) } else { y };
            let (pr, cx, cy) = cm::LogDotProductProof::prover(p, &x, blind::<G::Fr>(c), &a, y, blind::<G::Fr>(c), &mut c.tape(), t);
            (pr, (cx, cy, a))
        }
        fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { pr.verify(p, s.0, s.1, &s.2, t) }
    }
    impl<G: K> Arg for Poly<G> {
        type Params = PolyCommitmentSetupParameters<G>; type Proof = cm::LogDotProductProof<G>; type Stmt = (Vec<G::Fr>, Vec<G::Affine>, G::Affine);
        const NAME: &'static str = concat!($tag, " polynomial evaluation"); fn codec() -> &'static dyn Codec { G::codec() }
        fn params(c: &Case) -> Self::Params { PolyCommitmentSetupParameters::new(&mut c.tape(), c.range(0, 8)) }
        fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
            // the parameters for k variables hold 2^(k - k/2) generators
            let w = p.n.trailing_zeros() as usize; let k = if w == 0 || c.chance(1, 2) { 2 * w } else { 2 * w - 1 };
            let poly: Vec<G::Fr> = vals(c, 1 << k); let r: Vec<G::Fr> = if PLAIN.with(|p| p.get()) { (0..k).map(|_| blind(c)).collect() } else { vals(c, k) };
            let (coms, blinds) = $krate::evaluate::packing_poly_commit::<G, _>(&p.gen_n.generators, &poly, &p.gen_n.h, &mut c.tape(), true);
            let y = mle(&poly, &r); let y = if lie { off(c, y) } else { y };
            let (pr, cy) = cm::LogDotProductProof::reduce_prover(p, &poly, &blinds, &r, blind::<G::Fr>(c), y, &mut c.tape(), t);
            (pr, (r, coms, cy))
        }
        fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { pr.reduce_verifier(p, &s.0, &s.1, s.2, t) }
    }
} } }
args!(libra, zkp_libra, "libra");
args!(hyrax, zkp_hyrax, "hyrax");

/// Libra's proof that a committed round polynomial meets its claim and its evaluation.
pub struct Round<G>(std::marker::PhantomData<G>);
impl<G: K> Arg for Round<G> {
    type Params = zkp_libra::params::Parameters<G>; type Proof = zkp_libra::sumcheck::SumCheckEvalProof<G>; type Stmt = (G::Affine, G::Affine, G::Affine, G::Fr);
    const NAME: &'static str = "libra sum-check round"; fn codec() -> &'static dyn Codec { G::codec() }
    fn params(c: &Case) -> Self::Params { zkp_libra::params::Parameters::new(&mut c.tape(), 2) }
    fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
        let poly: Vec<G::Fr> = vals(c, c.range(1, 3)); let r: G::Fr = val(c);
        let at = |x: G::Fr| poly.iter().rev().fold(G::Fr::zero(), |a, k| a * x + k);
        let (mut claim, mut eval) = (at(G::Fr::zero()) + at(G::Fr::one()), at(r));
        if lie { match c.below(3) { 0 => claim = off(c, claim), 1 => eval = off(c, eval), _ => { let d = off(c, G::Fr::zero()); claim += d; eval -= d; } } }
        let (a, b, d) = (blind::<G::Fr>(c), blind::<G::Fr>(c), blind::<G::Fr>(c));
        let sp = &p.sc_params;
        let cp = zkp_libra::evaluate::poly_commit_vec::<G>(&sp.gen_3.generators, &poly, &sp.gen_3.h, a);
        let com = |v: G::Fr, r: G::Fr| (sp.gen_1.generators[0].mul(v) + sp.gen_1.h.mul(r)).into_affine();
        let s = (cp, com(eval, d), com(claim, b), r);
        bind(t, &s);
        (zkp_libra::sumcheck::SumCheckEvalProof::prover(sp, 3, &poly, cp, a, claim, b, eval, d, r, &mut c.tape(), t), s)
    }
    fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool {
        bind(t, s);
        if pr.z.len() < 3 { return false; } // the callers see to it
        pr.verify(&p.sc_params, s.0, s.1, s.2, s.3, 3, t)
    }
}
pub fn bind<T: Se>(t: &mut Transcript, s: &T) { t.append_message(b"statement", &mutate::bytes(s)); }

/// Spartan's folding of an inner product, closed by revealing the last element and the blinding.
pub struct Fold<G>(std::marker::PhantomData<G>);
pub struct FoldP<G: Curve> { g: Vec<G::Affine>, q: G::Affine, h: G::Affine }
impl<G: K> Arg for Fold<G> {
    type Params = FoldP<G>; type Proof = (Vec<G::Affine>, Vec<G::Affine>, G::Fr, G::Fr); type Stmt = (G::Affine, Vec<G::Fr>);
    const NAME: &'static str = "spartan folded inner product"; fn codec() -> &'static dyn Codec { G::codec() }
    fn params(c: &Case) -> Self::Params { let mut r = c.tape(); let mut p = || G::Projective::rand(&mut r).into_affine(); FoldP { g: (0..1 << c.range(PLAIN.with(|p| p.get()) as usize, 5)).map(|_| p()).collect(), q: p(), h: p() } }
    fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
        let n = p.g.len(); let (a, b): (Vec<G::Fr>, Vec<G::Fr>) = (full(c, n), full(c, n)); let y = dot(&a, &b); let y = if lie { off(c, y) } else { y };
        let r = blind::<G::Fr>(c); let blinds: Vec<_> = (0..n.trailing_zeros()).map(|_| (blind::<G::Fr>(c), blind::<G::Fr>(c))).collect();
        let mut gamma = p.q.mul(y) + p.h.mul(r); for (g, x) in p.g.iter().zip(&a) { gamma += g.mul(*x); }
        let s = (gamma.into_affine(), b.clone());
        bind(t, &s);
        let (pr, a1, _, _, blind) = zkp_spartan::inner_product::bullet_inner_product_proof::<G>(&p.g, p.q, p.h, &a, &b, r, &blinds, t).unwrap();
        ((pr.l_vec, pr.r_vec, a1, blind), s)
    }
    fn verify(p: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool {
        bind(t, s);
        if s.1.len() != p.g.len() { return false; } // the callers see to it
        let proof = zkp_spartan::data_structure::InnerProductProof::<G> { l_vec: pr.0.clone(), r_vec: pr.1.clone() };
        match zkp_spartan::inner_product::bullet_inner_product_verify::<G>(&p.g, &proof, s.0, &s.1, t) {
            Ok((b, g, gamma)) => gamma == (g.mul(pr.2) + p.q.mul(pr.2 * b) + p.h.mul(pr.3)).into_affine(),
            Err(_) => false }
    }
}
pub struct Bullet<G>(std::marker::PhantomData<G>);
impl<G: K> Arg for Bullet<G> {
    type Params = Vec<G::Affine>; type Proof = zkp_bulletproofs::inner_product_proof::Proof<G>; type Stmt = (Vec<G::Affine>, Vec<G::Affine>, G::Affine, G::Affine);
    const NAME: &'static str = "bulletproofs inner product"; fn codec() -> &'static dyn Codec { G::codec() }
    fn params(c: &Case) -> Self::Params { let mut r = c.tape(); (0..1 + (2 << c.range(PLAIN.with(|p| p.get()) as usize, 5))).map(|_| G::Projective::rand(&mut r).into_affine()).collect() }
    fn make(c: &Case, p: &Self::Params, lie: bool, t: &mut Transcript) -> (Self::Proof, Self::Stmt) {
        let n = p.len() / 2; let (a, b): (Vec<G::Fr>, Vec<G::Fr>) = (full(c, n), full(c, n)); let y = dot(&a, &b); let y = if lie { off(c, y) } else { y };
        let (g, h, u) = (p[..n].to_vec(), p[n..2 * n].to_vec(), p[2 * n]);
        let mut q = u.mul(y); for i in 0..n { q += g[i].mul(a[i]); q += h[i].mul(b[i]); }
        let q = q.into_affine();
        let pr = zkp_bulletproofs::inner_product_proof::prove::<G>(t, g.clone(), h.clone(), u, &q.into_projective(), a, b);
        (pr, (g, h, u, q))
    }
    fn verify(_: &Self::Params, pr: &Self::Proof, s: &Self::Stmt, t: &mut Transcript) -> bool { zkp_bulletproofs::inner_product_proof::verify::<G>(t, s.0.clone(), s.1.clone(), s.2, &s.3.into_projective(), pr) }
}

pub fn transcript(c: &Case) -> Vec<u8> { let n = c.range(0, 40); (0..n).map(|_| c.below(256) as u8).collect() }
pub fn start(pre: &[u8]) -> Transcript { let mut t = Transcript::new(b"c31"); t.append_message(b"before", pre); t }
pub fn tail(t: &mut Transcript) -> [u8; 32] { let mut b = [0u8; 32]; t.challenge_bytes(b"after", &mut b); b }

