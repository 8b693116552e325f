//! Dishonest Bulletproofs assignments: the vectors handed to the prover are not those that statement and witness imply,
//! in two places whose errors cancel each other wherever the verifier's random weights of the two places coincide.
use crate::*;
use serde_json::json;
use ark_ff::{Field, One, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use zkp_bulletproofs::arithmetic_circuit::{prove, verify_proof, create_random_proof, Assignment};
use zkp_curve::Curve;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError};

/// `n` constraints; every left, right and output value is a public input.
#[derive(Clone)]
struct Flat<F: Field> { vals: Vec<F> }
impl<F: Field> ConstraintSynthesizer<F> for Flat<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut v = vec![];
        for (i, x) in self.vals.iter().enumerate() { v.push(cs.alloc_input(|| format!("x{}", i), || Ok(*x))?); }
        cs.alloc(|| "w", || Ok(F::one()))?;
        for t in v.chunks(3) {
            let l = |x| move |lc: LinearCombination<F>| lc + x;
            cs.enforce(|| "c", l(t[0]), l(t[1]), l(t[2]));
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place { Lin(usize, usize), Prod(usize) }
fn places(n: usize) -> Vec<Place> {
    let mut v = vec![];
    for i in 0..n { for m in 0..3 { v.push(Place::Lin(i, m)); } v.push(Place::Prod(i)); }
    v
}
pub const PAIRS: usize = 132;
pub fn weights<G: Curve>(case: &Case, name: &str) {
    let n = 3;
    let ps = places(n);
    let pairs: Vec<(usize, usize)> = (0..ps.len()).flat_map(|i| (i + 1..ps.len()).map(move |j| (i, j))).collect();
    let (i, j) = pairs[case.idx as usize / 2 % pairs.len()];
    let neg = case.idx % 2 == 0;
    let (p, q) = (ps[i], ps[j]);
    let mut rng = case.tape();
    let r = &mut rng;
    let a: Vec<G::Fr> = (0..2 * n).map(|_| G::Fr::rand(r)).collect();
    let (al, ar) = (a[..n].to_vec(), a[n..].to_vec());
    let mut ao: Vec<G::Fr> = (0..n).map(|i| al[i] * ar[i]).collect();
    let honest: Vec<G::Fr> = (0..n).flat_map(|i| vec![al[i], ar[i], ao[i]]).collect();
    let Sut::Val(Ok((gens, circ, proof))) = sut(|| create_random_proof::<G, _, _>(Flat { vals: honest.clone() }, r)) else { case.count("no honest base"); return };
    if !verdict(|| verify_proof(&gens, &proof, &circ, &honest)).accepted() { case.count("no honest base"); return; }
    // left = what the combination is in the prover's vectors minus what the statement says; product = left * right - output
    let e = G::Fr::rand(r);
    let mut err = |p: Place, e: G::Fr, s: &mut Vec<G::Fr>| match p { Place::Lin(i, m) => s[3 * i + m] -= e, Place::Prod(i) => { ao[i] -= e; s[3 * i + 2] -= e } };
    let mut s = honest.clone();
    err(p, e, &mut s);
    err(q, if neg { -e } else { e }, &mut s);
    if s.chunks(3).all(|t| t[0] * t[1] == t[2]) { case.count("statement true after all"); return; }
    let mut full = vec![G::Fr::one()]; full.extend(&s);
    let enc = |b: &mut Vec<u8>, v: &Vec<G::Fr>| v.serialize(b).unwrap();
    let mut b = vec![];
    for v in [&al, &ar, &ao, &full, &vec![G::Fr::one()]] { enc(&mut b, v); }
    let Ok(input) = Assignment::<G>::deserialize(&b[..]) else { case.count("assignment not readable"); return };
    let Sut::Val(forged) = sut(|| prove(&gens, &circ, &input, r)) else { case.count("no forged proof"); return };
    let v = verdict(|| verify_proof(&gens, &forged, &circ, &s));
    case.eval(&(name, i, j, neg, mutate::bytes(&s)), true);
    case.count(&format!("{}: errors in two places -> {}", name, v.class()));
    let d = || json!({"places": format!("{:?} and {:?}", p, q), "opposite errors": neg, "verdict": format!("{:?}", v)});
    case.check(!v.accepted(), "accepts vectors whose errors in two places cancel", d);
    case.sample(|| json!({"dishonest assignment": format!("{:?} and {:?}", p, q), "verdict": v.class()}));
}
