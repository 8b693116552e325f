//! The rank-1 proof systems of the repository behind one interface.
use crate::circ::Circ;
use crate::mutate::Codec;
use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use crate::ctx::Tape as Rng;
use std::marker::PhantomData;
use std::sync::{Arc, OnceLock};
use zkp_curve::Curve;

type E = ark_bls12_381::Bls12_381;
type Fr = ark_bls12_381::Fr;

pub trait Scheme: Sync + Send + 'static {
    type F: PrimeField;
    type Pk: Sync;
    type Vk: Clone;
    type Proof: CanonicalSerialize + CanonicalDeserialize;
    const NAME: &'static str;
    /// the public inputs verification receives are bounded in number by the key
    const HAS_SETUP: bool = true;
    fn codec() -> &'static dyn Codec;
    fn setup(c: Circ<Self::F>, rng: &mut Rng) -> Result<Self::Pk, String>;
    fn prove(pk: &Self::Pk, c: Circ<Self::F>, rng: &mut Rng) -> Result<(Self::Vk, Self::Proof), String>;
    fn verify(vk: &Self::Vk, p: &Self::Proof, publics: &[Self::F]) -> Result<bool, String>;
    /// what the prover makes public besides the proof
    fn public(_: &Self::Vk) -> Vec<u8> { vec![] }
    /// how many tokens at the start of the proof are parts that hide something
    fn hiding(_: &Self::Proof) -> usize { usize::MAX }
}
fn es<T: std::fmt::Debug>(e: T) -> String { format!("{:?}", e) }

pub struct Groth16;
impl Scheme for Groth16 {
    type F = Fr;
    type Pk = (zkp_groth16::Parameters<E>, Arc<zkp_groth16::PreparedVerifyingKey<E>>);
    type Vk = Arc<zkp_groth16::PreparedVerifyingKey<E>>;
    type Proof = zkp_groth16::Proof<E>;
    const NAME: &'static str = "groth16";
    fn codec() -> &'static dyn Codec { &crate::mutate::Bls }
    fn setup(c: Circ<Fr>, rng: &mut Rng) -> Result<Self::Pk, String> {
        let p = zkp_groth16::generate_random_parameters::<E, _, _>(c, rng).map_err(es)?;
        let vk = Arc::new(zkp_groth16::prepare_verifying_key(&p.vk));
        Ok((p, vk))
    }
    fn prove(pk: &Self::Pk, c: Circ<Fr>, rng: &mut Rng) -> Result<(Self::Vk, Self::Proof), String> {
        Ok((pk.1.clone(), zkp_groth16::create_random_proof(&pk.0, c, rng).map_err(es)?))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[Fr]) -> Result<bool, String> { zkp_groth16::verify_proof(vk, p, x).map_err(es) }
}

pub struct Bulletproofs<G>(PhantomData<G>);
macro_rules! bp { ($g:ty, $f:ty, $name:expr, $codec:expr) => {
impl Scheme for Bulletproofs<$g> {
    type F = $f;
    type Pk = ();
    type Vk = Arc<(zkp_bulletproofs::Generators<$g>, zkp_bulletproofs::R1csCircuit<$g>)>;
    type Proof = zkp_bulletproofs::Proof<$g>;
    const NAME: &'static str = $name;
    const HAS_SETUP: bool = false;
    fn codec() -> &'static dyn Codec { $codec }
    fn setup(_: Circ<$f>, _: &mut Rng) -> Result<(), String> { Ok(()) }
    fn prove(_: &(), c: Circ<$f>, rng: &mut Rng) -> Result<(Self::Vk, Self::Proof), String> {
        let (g, r, p) = zkp_bulletproofs::create_random_proof::<$g, _, _>(c, rng).map_err(es)?;
        Ok((Arc::new((g, r)), p))
    }
    fn public(vk: &Self::Vk) -> Vec<u8> { crate::mutate::bytes(&vk.0) }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[$f]) -> Result<bool, String> {
        zkp_bulletproofs::verify_proof(&vk.0, p, &vk.1, x).map_err(es)
    }
} } }
bp!(E, Fr, "bulletproofs/bls12-381", &crate::mutate::Bls);
bp!(zkp_curve25519::Curve25519, zkp_curve25519::Fr, "bulletproofs/curve25519", &crate::mutate::C25519);
pub type BpBls = Bulletproofs<E>;
pub type Bp25519 = Bulletproofs<zkp_curve25519::Curve25519>;

pub struct SpartanNizk<G>(PhantomData<G>);
pub struct NizkPk<G: Curve> { pub pk: zkp_spartan::nizk::ProveKey<G>, pub vk: Arc<NizkVk<G>> }
pub struct NizkVk<G: Curve> { pub vk: zkp_spartan::nizk::VerifyKey<G>, pub rh: G::Fr, pub ph: G::Fr }
macro_rules! sn { ($g:ty, $f:ty, $name:expr, $codec:expr) => {
impl Scheme for SpartanNizk<$g> {
    type F = $f;
    type Pk = NizkPk<$g>;
    type Vk = Arc<NizkVk<$g>>;
    type Proof = zkp_spartan::nizk::Proof<$g>;
    const NAME: &'static str = $name;
    fn codec() -> &'static dyn Codec { $codec }
    fn setup(c: Circ<$f>, rng: &mut Rng) -> Result<Self::Pk, String> {
        let p = zkp_spartan::nizk::generate_random_parameters::<$g, _, _>(c, rng).map_err(es)?;
        let rh = p.r1cs.r1cs_to_hash(); let ph = p.params.param_to_hash();
        let (pk, vk) = p.keypair();
        Ok(NizkPk { pk, vk: Arc::new(NizkVk { vk, rh, ph }) })
    }
    fn prove(pk: &Self::Pk, c: Circ<$f>, rng: &mut Rng) -> Result<(Self::Vk, Self::Proof), String> {
        let p = zkp_spartan::nizk::create_random_proof(&pk.pk, c, pk.vk.rh, pk.vk.ph, rng).map_err(es)?;
        Ok((pk.vk.clone(), p))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[$f]) -> Result<bool, String> {
        zkp_spartan::nizk::verify_proof(&vk.vk, p, x, vk.rh, vk.ph).map_err(es)
    }
} } }
sn!(E, Fr, "spartan-nizk/bls12-381", &crate::mutate::Bls);
sn!(zkp_curve25519::Curve25519, zkp_curve25519::Fr, "spartan-nizk/curve25519", &crate::mutate::C25519);
pub type Nizk = SpartanNizk<E>;
pub type Nizk25519 = SpartanNizk<zkp_curve25519::Curve25519>;

pub struct SpartanSnark<G>(PhantomData<G>);
pub struct SnarkPk<G: Curve> { pub pk: zkp_spartan::snark::ProveKey<G>, pub vk: Arc<SnarkVk<G>> }
pub struct SnarkVk<G: Curve> { pub vk: zkp_spartan::snark::VerifyKey<G>, pub rh: G::Fr, pub ph: G::Fr, pub eh: G::Fr }
macro_rules! ss { ($g:ty, $f:ty, $name:expr, $codec:expr) => {
impl Scheme for SpartanSnark<$g> {
    type F = $f;
    type Pk = SnarkPk<$g>;
    type Vk = Arc<SnarkVk<$g>>;
    type Proof = zkp_spartan::snark::Proof<$g>;
    const NAME: &'static str = $name;
    fn codec() -> &'static dyn Codec { $codec }
    fn setup(c: Circ<$f>, rng: &mut Rng) -> Result<Self::Pk, String> {
        let p = zkp_spartan::snark::generate_random_parameters::<$g, _, _>(c, rng).map_err(es)?;
        let rh = p.r1cs.r1cs_to_hash(); let ph = p.params.param_to_hash(); let eh = p.encode_comm.encode_to_hash();
        let (pk, vk) = p.keypair();
        Ok(SnarkPk { pk, vk: Arc::new(SnarkVk { vk, rh, ph, eh }) })
    }
    fn prove(pk: &Self::Pk, c: Circ<$f>, rng: &mut Rng) -> Result<(Self::Vk, Self::Proof), String> {
        let p = zkp_spartan::snark::create_random_proof(&pk.pk, c, pk.vk.rh, pk.vk.ph, pk.vk.eh, rng).map_err(es)?;
        Ok((pk.vk.clone(), p))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[$f]) -> Result<bool, String> {
        zkp_spartan::snark::verify_proof(&vk.vk, p, x, vk.rh, vk.ph, vk.eh).map_err(es)
    }
    // the rest is about matrices that everyone knows
    fn hiding(p: &Self::Proof) -> usize { crate::mutate::enc(&p.r1cs_satisfied_proof).toks.len() }
} } }
ss!(E, Fr, "spartan-snark/bls12-381", &crate::mutate::Bls);
ss!(zkp_curve25519::Curve25519, zkp_curve25519::Fr, "spartan-snark/curve25519", &crate::mutate::C25519);
pub type Snark = SpartanSnark<E>;
pub type Snark25519 = SpartanSnark<zkp_curve25519::Curve25519>;

pub struct Marlin;
pub struct MarlinPk { pub ipk: zkp_marlin::IndexProverKey<'static, E>, pub ivk: Arc<zkp_marlin::VerifyKey<E>> }
pub const MARLIN_DEGREE: usize = 4096;
/// Reference strings of several sizes: everything the prover does grows with the size.
pub fn marlin_srs_of(log: usize) -> &'static zkp_marlin::UniversalParams<E> {
    static S: OnceLock<Vec<OnceLock<zkp_marlin::UniversalParams<E>>>> = OnceLock::new();
    S.get_or_init(|| (0..13).map(|_| OnceLock::new()).collect())[log].get_or_init(|| {
        let mut r = <Rng as rand::SeedableRng>::from_seed([7; 32]);
        zkp_marlin::universal_setup::<E, _>(1 << log, &mut r).expect("srs")
    })
}
pub fn marlin_srs() -> &'static zkp_marlin::UniversalParams<E> { marlin_srs_of(MARLIN_DEGREE.trailing_zeros() as usize) }
/// the smallest reference string that will do, or now and then a larger one
fn marlin_index(c: &Circ<Fr>, more: usize) -> Result<(zkp_marlin::IndexProverKey<'static, E>, zkp_marlin::VerifyKey<E>), String> {
    let mut last = String::new();
    for log in 3..13 {
        match zkp_marlin::index(marlin_srs_of(log), c.clone()) {
            Ok(k) => return if more == 0 || log == 12 { Ok(k) } else { zkp_marlin::index(marlin_srs_of((log + more).min(12)), c.clone()).map_err(es) },
            Err(e) => { last = es(e); if last != "IndexTooLarge" { return Err(last) } }
        }
    }
    Err(last)
}
impl Scheme for Marlin {
    type F = Fr;
    type Pk = MarlinPk;
    type Vk = Arc<zkp_marlin::VerifyKey<E>>;
    type Proof = zkp_marlin::Proof<E>;
    const NAME: &'static str = "marlin";
    fn codec() -> &'static dyn Codec { &crate::mutate::Bls }
    fn setup(c: Circ<Fr>, rng: &mut Rng) -> Result<MarlinPk, String> {
        let (ipk, ivk) = marlin_index(&c, if rand::RngCore::next_u32(rng) % 4 == 0 { 2 } else { 0 })?;
        Ok(MarlinPk { ipk, ivk: Arc::new(ivk) })
    }
    fn prove(pk: &MarlinPk, c: Circ<Fr>, rng: &mut Rng) -> Result<(Self::Vk, Self::Proof), String> {
        Ok((pk.ivk.clone(), zkp_marlin::create_random_proof(&pk.ipk, c, rng).map_err(es)?))
    }
    fn verify(vk: &Self::Vk, p: &Self::Proof, x: &[Fr]) -> Result<bool, String> { zkp_marlin::verify_proof(vk, p, x).map_err(es) }
}
