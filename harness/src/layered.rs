//! Layered arithmetic circuits: Libra (linear GKR and its zero-knowledge variant) and Hyrax.
use crate::circ::{rand_f, spec_f};
use crate::ctx::*;
use crate::mutate::{self, Codec};
use crate::r1cs_checks::{hexf, lying};
use ark_ff::{One, Zero};
use ark_serialize::*;
use serde_json::{json, Value};
use zkp_curve::Curve;

pub type Layers = Vec<Vec<(u8, usize, usize)>>;

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct LCirc { pub ni: usize, pub na: usize, pub layers: Layers }

impl LCirc {
    pub fn half(&self) -> usize { self.ni.max(self.na).next_power_of_two() }
    pub fn random(c: &Case, max_half: usize, max_depth: usize, max_gates: usize) -> LCirc {
        let (ni, na) = match c.below(5) { 0 => { let n = c.below(max_half + 1); (n, n) } 1 => (0, c.range(0, max_half)), 2 => (c.range(0, max_half), 0), _ => (c.below(max_half + 1), c.below(max_half + 1)) };
        let mut k = LCirc { ni, na, layers: vec![] };
        let mut below = 2 * k.half();
        for _ in 0..c.range(1, max_depth) {
            let n = match c.below(4) { 0 => 1, 1 => 1 << c.below(4), _ => c.range(1, max_gates) }.min(max_gates);
            let same = c.chance(1, 6);
            let style = c.below(4);
            let layer: Vec<_> = (0..n).map(|_| {
                let op = match style { 0 => 0, 1 => 1, _ => c.below(2) as u8 };
                let l = c.below(below);
                (op, l, if same { l } else { c.below(below) })
            }).collect();
            below = n;
            k.layers.push(layer);
        }
        k
    }
    /// the independent interpreter: all layers, inputs first
    pub fn eval<F: ark_ff::PrimeField>(&self, ins: &[F], aux: &[F]) -> Vec<Vec<F>> {
        let h = self.half();
        let mut l0 = vec![F::zero(); 2 * h];
        for (i, v) in aux.iter().enumerate() { l0[i] = *v; }
        for (i, v) in ins.iter().enumerate() { l0[h + i] = *v; }
        let mut all = vec![l0];
        for layer in &self.layers {
            let v: Vec<F> = layer.iter().map(|(op, a, b)| { let p = all.last().unwrap(); if *op == 0 { p[*a] + p[*b] } else { p[*a] * p[*b] } }).collect();
            all.push(v);
        }
        all
    }
    pub fn outputs<F: ark_ff::PrimeField>(&self, ins: &[F], aux: &[F]) -> Vec<F> { self.eval(ins, aux).pop().unwrap() }
    pub fn describe(&self) -> Value { json!({"inputs": self.ni, "witness": self.na, "layers": self.layers.iter().map(|l| l.iter().map(|(o, a, b)| format!("{}{}{}", a, if *o == 0 { "+" } else { "*" }, b)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>()}) }
    /// one gate changed
    pub fn other(&self, c: &Case) -> LCirc {
        let mut k = self.clone();
        for _ in 0..50 {
            let d = c.below(k.layers.len()); let below = if d == 0 { 2 * k.half() } else { k.layers[d - 1].len() };
            let i = c.below(k.layers[d].len());
            match c.below(4) {
                0 => k.layers[d][i].0 ^= 1,
                1 => k.layers[d][i].1 = c.below(below),
                2 => k.layers[d][i].2 = c.below(below),
                _ => { let j = c.below(k.layers[d].len()); k.layers[d].swap(i, j) }
            }
            if k != *self { return k; }
        }
        k
    }
    /// another way to write the same function: operands of a gate exchanged
    pub fn same_function(&self, o: &LCirc) -> bool { self == o }
}

pub type Fr<S> = <<S as LScheme>::G as Curve>::Fr;
pub struct Inst<F> { pub ins: Vec<F>, pub aux: Vec<F> }

pub trait LScheme: 'static {
    const NAME: &'static str;
    const BATCH: bool;
    type G: Curve;
    type Params: Sync;
    type Proof: CanonicalSerialize + CanonicalDeserialize;
    fn codec() -> &'static dyn Codec;
    fn lies() -> &'static [&'static str];
    fn params(rng: &mut Tape, num: usize) -> Self::Params;
    fn repo_eval(c: &LCirc, i: &Inst<Fr<Self>>) -> Result<Vec<Vec<Fr<Self>>>, String>;
    /// `hash_of`: the circuit and parameters whose hash the prover uses
    fn prove(p: &Self::Params, c: &LCirc, hash_of: (&LCirc, &Self::Params), x: &[Inst<Fr<Self>>], rng: &mut Tape) -> (Self::Proof, Vec<Vec<Fr<Self>>>);
    /// public part of an instance, as the verifier takes it
    fn statement(c: &LCirc, i: &Inst<Fr<Self>>) -> Vec<Fr<Self>>;
    fn verify(p: &Self::Params, c: &LCirc, hash_of: (&LCirc, &Self::Params), outs: &[Vec<Fr<Self>>], ins: &[Vec<Fr<Self>>], proof: &Self::Proof) -> bool;
}

#[derive(CanonicalSerialize, CanonicalDeserialize)]
pub struct LayerP<G: Curve> { a: zkp_libra::sumcheck::SumCheckProof<G>, b: zkp_libra::sumcheck::SumCheckProof<G> }
#[derive(CanonicalSerialize, CanonicalDeserialize)]
pub struct PlainP<G: Curve> { l: Vec<LayerP<G>> }

pub struct Plain<G>(std::marker::PhantomData<G>);
pub struct Zk<G>(std::marker::PhantomData<G>);
pub struct Hyrax<G>(std::marker::PhantomData<G>);

fn lc(c: &LCirc) -> zkp_libra::circuit::Circuit { zkp_libra::circuit::Circuit::new(c.ni, c.na, &c.layers) }
fn hc(c: &LCirc) -> zkp_hyrax::circuit::Circuit { zkp_hyrax::circuit::Circuit::new(c.ni, c.na, &c.layers) }
fn es<X: std::fmt::Debug>(e: X) -> String { format!("{:?}", e) }

macro_rules! impls { ($g:ty, $n:literal, $codec:expr) => {
impl LScheme for Plain<$g> {
    const NAME: &'static str = concat!("libra-linear/", $n);
    const BATCH: bool = false;
    type G = $g; type Params = (); type Proof = PlainP<$g>;
    fn codec() -> &'static dyn Codec { $codec }
    fn lies() -> &'static [&'static str] { &["libra.layer", "libra.x", "libra.y", "libra.round", "libra.pair", "libra.pair-"] }
    fn params(_: &mut Tape, _: usize) {}
    fn repo_eval(c: &LCirc, i: &Inst<Fr<Self>>) -> Result<Vec<Vec<Fr<Self>>>, String> { lc(c).evaluate::<$g>(&i.ins, &i.aux).map_err(|_| "error".to_string()) }
    fn prove(_: &(), c: &LCirc, h: (&LCirc, &()), x: &[Inst<Fr<Self>>], _: &mut Tape) -> (Self::Proof, Vec<Vec<Fr<Self>>>) {
        let (p, o) = zkp_libra::libra_linear_gkr::LinearGKRProof::<$g>::prover(&lc(c), &x[0].ins, &x[0].aux, lc(h.0).circuit_to_hash::<$g>());
        (PlainP { l: p.proofs.into_iter().map(|l| LayerP { a: l.proof_phase_one, b: l.proof_phase_two }).collect() }, vec![o])
    }
    fn statement(c: &LCirc, i: &Inst<Fr<Self>>) -> Vec<Fr<Self>> { c.eval(&i.ins, &i.aux).swap_remove(0) }
    fn verify(_: &(), c: &LCirc, h: (&LCirc, &()), outs: &[Vec<Fr<Self>>], ins: &[Vec<Fr<Self>>], p: &Self::Proof) -> bool {
        use zkp_libra::libra_linear_gkr::*;
        let q: PlainP<$g> = mutate::from_bytes(&mutate::bytes(p)).unwrap();
        let q = LinearGKRProof { proofs: q.l.into_iter().map(|l| LayerProof { proof_phase_one: l.a, proof_phase_two: l.b }).collect() };
        q.verify(&lc(c), &outs[0], &ins[0], lc(h.0).circuit_to_hash::<$g>())
    }
}
impl LScheme for Zk<$g> {
    const NAME: &'static str = concat!("libra-zk/", $n);
    const BATCH: bool = false;
    type G = $g; type Params = zkp_libra::params::Parameters<$g>; type Proof = zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<$g>;
    fn codec() -> &'static dyn Codec { $codec }
    fn lies() -> &'static [&'static str] { &["libra.layer", "libra.x", "libra.y", "libra.z", "libra.round", "libra.eval", "libra.open0", "libra.open1", "libra.pair", "libra.pair-", "libra.rows", "libra.rows-"] }
    fn params(rng: &mut Tape, num: usize) -> Self::Params { Self::Params::new(rng, num) }
    fn repo_eval(c: &LCirc, i: &Inst<Fr<Self>>) -> Result<Vec<Vec<Fr<Self>>>, String> { lc(c).evaluate::<$g>(&i.ins, &i.aux).map_err(|_| "error".to_string()) }
    fn prove(p: &Self::Params, c: &LCirc, h: (&LCirc, &Self::Params), x: &[Inst<Fr<Self>>], rng: &mut Tape) -> (Self::Proof, Vec<Vec<Fr<Self>>>) {
        let (p, o) = Self::Proof::prover(p, &lc(c), &x[0].ins, &x[0].aux, lc(h.0).circuit_to_hash::<$g>(), h.1.param_to_hash(), rng);
        (p, vec![o])
    }
    fn statement(_: &LCirc, i: &Inst<Fr<Self>>) -> Vec<Fr<Self>> { i.ins.clone() }
    fn verify(p: &Self::Params, c: &LCirc, h: (&LCirc, &Self::Params), outs: &[Vec<Fr<Self>>], ins: &[Vec<Fr<Self>>], q: &Self::Proof) -> bool {
        q.verify(p, &lc(c), &outs[0], &ins[0], lc(h.0).circuit_to_hash::<$g>(), h.1.param_to_hash())
    }
}
impl LScheme for Hyrax<$g> {
    const NAME: &'static str = concat!("hyrax/", $n);
    const BATCH: bool = true;
    type G = $g; type Params = zkp_hyrax::params::Parameters<$g>; type Proof = zkp_hyrax::hyrax_proof::HyraxProof<$g>;
    fn codec() -> &'static dyn Codec { $codec }
    fn lies() -> &'static [&'static str] { &["hyrax.layer", "hyrax.chain", "hyrax.x", "hyrax.y", "hyrax.z", "hyrax.round", "hyrax.open0", "hyrax.open1", "hyrax.pair", "hyrax.pair-", "hyrax.rows", "hyrax.rows-"] }
    fn params(rng: &mut Tape, num: usize) -> Self::Params { Self::Params::new(rng, num) }
    fn repo_eval(c: &LCirc, i: &Inst<Fr<Self>>) -> Result<Vec<Vec<Fr<Self>>>, String> { hc(c).evaluate::<$g>(&i.ins, &i.aux).map(|mut v| { v.reverse(); v }).map_err(|_| "error".to_string()) }
    fn prove(p: &Self::Params, c: &LCirc, h: (&LCirc, &Self::Params), x: &[Inst<Fr<Self>>], rng: &mut Tape) -> (Self::Proof, Vec<Vec<Fr<Self>>>) {
        let w = x.iter().map(|i| i.aux.clone()).collect(); let ins = x.iter().map(|i| i.ins.clone()).collect();
        Self::Proof::prover(p, &w, &ins, &hc(c), hc(h.0).circuit_to_hash::<$g>(), h.1.param_to_hash(), x.len(), rng)
    }
    fn statement(_: &LCirc, i: &Inst<Fr<Self>>) -> Vec<Fr<Self>> { i.ins.clone() }
    fn verify(p: &Self::Params, c: &LCirc, h: (&LCirc, &Self::Params), outs: &[Vec<Fr<Self>>], ins: &[Vec<Fr<Self>>], q: &Self::Proof) -> bool {
        q.verify(p, &outs.to_vec(), &ins.to_vec(), &hc(c), hc(h.0).circuit_to_hash::<$g>(), h.1.param_to_hash())
    }
}
}}
impls!(crate::E, "bls12-381", &mutate::Bls);
impls!(zkp_curve25519::Curve25519, "curve25519", &mutate::C25519);

pub struct Run<S: LScheme> {
    pub c: LCirc, pub x: Vec<Inst<Fr<S>>>, pub p: S::Params, pub proof: S::Proof,
    pub outs: Vec<Vec<Fr<S>>>, pub ins: Vec<Vec<Fr<S>>>, pub num: usize,
}
pub fn insts<S: LScheme>(case: &Case, c: &LCirc, n: usize) -> Vec<Inst<Fr<S>>> {
    let sp = case.pick(&[0, 20, 60, 100]);
    let mut v: Vec<Inst<Fr<S>>> = (0..n).map(|_| Inst { ins: (0..c.ni).map(|_| spec_f(case, sp)).collect(), aux: (0..c.na).map(|_| spec_f(case, sp)).collect() }).collect();
    if n > 1 && case.chance(1, 4) { let (a, b) = (v[0].ins.clone(), v[0].aux.clone()); v[n - 1] = Inst { ins: a, aux: b }; }
    v
}
pub fn num_for(c: &LCirc, n: usize) -> usize { (c.half() * n).trailing_zeros() as usize }
fn batch<S: LScheme>(case: &Case) -> usize { if S::BATCH { case.pick(&[1, 1, 2, 2, 4, 8]) } else { 1 } }
fn describe<S: LScheme>(c: &LCirc, n: usize) -> Value { json!({"scheme": S::NAME, "instances": n, "circuit": c.describe()}) }

/// C12 / C14
pub fn honest<S: LScheme>(case: &Case) {
    let big = case.chance(1, 6);
    let huge = case.idx % 40 == 19;
    let c = if huge { if case.chance(1, 2) { LCirc::random(case, 70, 5, 140) } else { LCirc::random(case, 4, 24, 6) } } else if big { LCirc::random(case, 20, 8, 24) } else { LCirc::random(case, 6, 4, 12) };
    let n = if S::BATCH && case.idx % 40 == 9 { case.pick(&[16, 32]) } else { batch::<S>(case).min(if big || huge { 2 } else { 8 }) };
    honest_on::<S>(case, c, n);
}
/// every small shape in turn
pub fn edges<S: LScheme>(case: &Case) {
    let shapes: Vec<(usize, usize, Vec<usize>)> = {
        let mut v = vec![];
        for ni in 0..4usize { for na in 0..4usize { for l in [vec![1], vec![2], vec![3], vec![1, 1], vec![4, 1], vec![1, 4], vec![3, 5, 2]] { v.push((ni, na, l)); } } }
        v
    };
    let (ni, na, l) = shapes[case.idx as usize % shapes.len()].clone();
    let mut c = LCirc { ni, na, layers: vec![] };
    let mut below = 2 * c.half();
    for k in l { let layer = (0..k).map(|_| (case.below(2) as u8, case.below(below), case.below(below))).collect(); c.layers.push(layer); below = k; }
    honest_on::<S>(case, c, if S::BATCH { 1 << (case.idx as usize / shapes.len() % 3) } else { 1 });
}
/// A description that is no circuit: an operation that does not exist, or a wire that does not exist.
pub fn malformed<S: LScheme>(case: &Case) {
    let mut c = LCirc::random(case, 6, 4, 9);
    let d = case.below(c.layers.len()); let below = if d == 0 { 2 * c.half() } else { c.layers[d - 1].len() };
    let i = case.below(c.layers[d].len());
    let far = match case.below(4) { 0 | 1 => below, 2 => below + 1 + case.below(9), _ => below.next_power_of_two() + case.below(3) };
    let how = match case.below(3) { 0 => { c.layers[d][i].0 = case.pick(&[2u8, 3, 4, 5, 128, 255]); "an operation that does not exist" } 1 => { c.layers[d][i].1 = far; "a left wire that does not exist" } _ => { c.layers[d][i].2 = far; "a right wire that does not exist" } };
    let f = |case: &Case, k: usize| (0..k).map(|_| Fr::<S>::from(1 + case.below(1 << 30) as u64)).collect::<Vec<_>>();
    let x = Inst { ins: f(case, c.ni), aux: f(case, c.na) };
    case.eval(&(S::NAME, &c, "malformed"), true);
    let r = sut(|| S::repo_eval(&c, &x));
    case.count(&format!("{}: {}: {}", S::NAME, how, match &r { Sut::Val(Ok(_)) => "evaluated", Sut::Val(Err(_)) => "error", Sut::Panic(_) => "refused on construction" }));
    case.check(!matches!(r, Sut::Val(Ok(_))), &format!("{}: a circuit with {} is built and evaluated", S::NAME, how), || json!({"circuit": c.describe(), "layer": d, "gate": i, "operation": c.layers[d][i].0}));
}
fn honest_on<S: LScheme>(case: &Case, c: LCirc, n: usize) {
    let x = insts::<S>(case, &c, n);
    let d = || describe::<S>(&c, n);
    let fp = (S::NAME, &c, n, x.iter().map(|i| i.ins.iter().chain(&i.aux).map(hexf).collect::<Vec<_>>()).collect::<Vec<_>>());
    let mut want = vec![];
    for i in &x {
        let w = c.eval(&i.ins, &i.aux);
        match sut(|| S::repo_eval(&c, i)) {
            Sut::Val(Ok(g)) => { case.count(&format!("{}: layer values compared", S::NAME)); case.check(g == w, &format!("{}: evaluation differs from the gates", S::NAME), || json!({"case": d()})); }
            Sut::Val(Err(e)) => case.violation(&format!("{}: evaluation fails", S::NAME), json!({"error": e, "case": d()})),
            Sut::Panic(p) => case.violation(&format!("{}: evaluation panics", S::NAME), json!({"panic": p, "case": d()})),
        }
        want.push(w.into_iter().last().unwrap());
    }
    let extra = case.pick(&[0, 0, 0, 1, 2]);
    let p = S::params(&mut case.tape(), num_for(&c, n) + extra);
    let r = sut(|| S::prove(&p, &c, (&c, &p), &x, &mut case.tape()));
    let (proof, outs) = match r { Sut::Val(v) => v, Sut::Panic(e) => { case.eval(&fp, true); case.violation(&format!("{}: proving panics", S::NAME), json!({"panic": e, "case": d()})); return; } };
    case.check(outs == want, &format!("{}: reported outputs differ from the circuit's", S::NAME), || json!({"case": d()}));
    let ins: Vec<_> = x.iter().map(|i| S::statement(&c, i)).collect();
    let v = verdict(|| Ok::<_, String>(S::verify(&p, &c, (&c, &p), &want, &ins, &proof)));
    case.eval(&fp, true);
    case.count(&format!("{}: honest proof -> {}", S::NAME, v.class()));
    case.count(&format!("{}: depth {}, {} instances", S::NAME, c.layers.len(), n));
    case.check(v.accepted(), &format!("{}: honest proof not accepted", S::NAME), || json!({"verdict": es(&v), "case": d()}));
    // the serialized proof is the same proof
    let b = mutate::bytes(&proof);
    match mutate::from_bytes::<S::Proof>(&b) {
        Some(q) => { let v = verdict(|| Ok::<_, String>(S::verify(&p, &c, (&c, &p), &want, &ins, &q))); case.check(v.accepted() && mutate::bytes(&q) == b, &format!("{}: decoded honest proof not accepted", S::NAME), || json!({"verdict": es(&v), "case": d()})); }
        None => case.violation(&format!("{}: honest proof does not decode", S::NAME), json!({"case": d()})),
    }
    case.sample(|| json!({"verdict": v.class(), "case": d()}));
}

pub fn base_on<S: LScheme>(case: &Case, c: LCirc, n: usize) -> Option<Run<S>> {
    let x = insts::<S>(case, &c, n);
    let num = num_for(&c, n) + case.pick(&[0, 0, 1]);
    let p = S::params(&mut case.tape(), num);
    let r = sut(|| S::prove(&p, &c, (&c, &p), &x, &mut case.tape()));
    let Sut::Val((proof, outs)) = r else { case.count(&format!("{}: no honest base proof", S::NAME)); return None };
    let ins: Vec<_> = x.iter().map(|i| S::statement(&c, i)).collect();
    let want: Vec<_> = x.iter().map(|i| c.outputs(&i.ins, &i.aux)).collect();
    let ok = outs == want && verdict(|| Ok::<_, String>(S::verify(&p, &c, (&c, &p), &outs, &ins, &proof))).accepted();
    if !ok { case.count(&format!("{}: no honest base proof", S::NAME)); return None; }
    Some(Run { c, x, p, proof, outs, ins, num })
}
pub fn base<S: LScheme>(case: &Case) -> Option<Run<S>> {
    // some deeper and wider ones: a check may be missing beyond a certain layer, gate or input
    let c = match case.idx % 8 { 3 => deep(case), 6 => wide(case), _ => LCirc::random(case, 5, 4, 8) };
    let n = if c.half() > 500 { if S::BATCH { case.pick(&[1, 2]) } else { 1 } } else { batch::<S>(case) };
    if case.idx % 8 == 3 { case.count(&format!("{}: deeper circuits", S::NAME)); } if c.half() > 500 { case.count(&format!("{}: wide statements", S::NAME)); }
    base_on::<S>(case, c, n)
}

/// Many layers; and many inputs (ten rounds and more).
fn deep(case: &Case) -> LCirc { let mut c = LCirc::random(case, 20, 9, 30); for _ in 0..20 { if c.layers.len() >= 6 { break; } c = LCirc::random(case, 20, 9, 30); } c }
fn wide(case: &Case) -> LCirc {
    let mut c = LCirc::random(case, 1400, 3, 90); c.ni = c.ni.max(1030); let w = 2 * c.half();
    for g in c.layers[0].iter_mut() { g.1 = case.below(w); g.2 = case.below(w); }
    c
}

/// Everything accepted here is a violation; panics too.
fn attack<S: LScheme>(case: &Case, kind: &str, what: &str, p: &S::Params, c: &LCirc, h: (&LCirc, &S::Params), outs: &[Vec<Fr<S>>], ins: &[Vec<Fr<S>>], q: &S::Proof) {
    let v = verdict(|| Ok::<_, String>(S::verify(p, c, h, outs, ins, q)));
    case.eval(&(S::NAME, kind, what, c, outs.iter().map(|o| o.iter().map(hexf).collect::<Vec<_>>()).collect::<Vec<_>>(), ins.iter().map(|o| o.iter().map(hexf).collect::<Vec<_>>()).collect::<Vec<_>>(), mutate::bytes(q)), true);
    case.count(&format!("{}: {} -> {}", S::NAME, kind, v.class()));
    case.sample(|| json!({"alteration": kind, "what": what, "verdict": v.class(), "case": describe::<S>(c, ins.len())}));
    case.check(!v.accepted(), &format!("{}: accepted although {}", S::NAME, kind), || json!({"alteration": what, "case": describe::<S>(c, ins.len())}));
    case.check(!matches!(v, Verdict::Panic(_)), &format!("{}: verifier panics where {}", S::NAME, kind), || json!({"alteration": what, "verdict": es(&v), "case": describe::<S>(c, ins.len())}));
}

/// Outputs, inputs, lengths, circuit and parameters other than the proved ones.
pub fn statements<S: LScheme>(case: &Case) {
    let Some(r) = base::<S>(case) else { return };
    let n = r.x.len();
    let delta = |f: Fr<S>| { let d: Fr<S> = rand_f(case); match case.below(4) { 0 => f + Fr::<S>::one(), 1 => f - Fr::<S>::one(), 2 => f + d, _ => -f } };
    let h = (&r.c, &r.p);
    let vs = |kind: &str, what: &str, outs: &[Vec<Fr<S>>], ins: &[Vec<Fr<S>>]| attack::<S>(case, kind, what, &r.p, &r.c, h, outs, ins, &r.proof);
    for (name, is_out) in [("output", true), ("input value", false)] {
        let src = if is_out { &r.outs } else { &r.ins };
        for _ in 0..3 {
            let k = case.below(n);
            if src[k].is_empty() { continue; }
            let i = case.below(src[k].len());
            let mut y = src.clone(); y[k][i] = delta(y[k][i]);
            if y == *src { continue; }
            let what = format!("{} {} of {}, instance {}", name, i, src[k].len(), k);
            if is_out { vs("an output was changed", &what, &y, &r.ins) } else { vs("an input value was changed", &what, &r.outs, &y) }
        }
        let k = case.below(n);
        let m = src[k].len();
        let mut tries: Vec<(String, Vec<Vec<Fr<S>>>)> = vec![];
        if m > 1 { let mut y = src.clone(); let i = case.below(m - 1); y[k].swap(i, i + 1); tries.push(("exchanged".into(), y));
            let mut y = src.clone(); let d: Fr<S> = rand_f(case); y[k][0] += d; y[k][1] -= d; tries.push(("changed by opposite amounts".into(), y)); }
        if m > 0 { let mut y = src.clone(); y[k].pop(); tries.push(("one missing".into(), y)); let mut y = src.clone(); y[k].remove(0); tries.push(("first missing".into(), y)); }
        for (w, e) in [("zero", Fr::<S>::zero()), ("one", Fr::<S>::one())] { let mut y = src.clone(); y[k].push(e); tries.push((format!("surplus {}", w), y)); let mut y = src.clone(); y[k].insert(0, e); tries.push((format!("{} in front", w), y)); }
        { let mut y = src.clone(); y[k] = vec![]; tries.push(("none".into(), y)); }
        { let mut y = src.clone(); let mut z = y[k].clone(); z.resize(2 * r.c.half().max(m), Fr::<S>::zero()); y[k] = z; tries.push(("zeros appended".into(), y)); }
        if n > 1 {
            let mut y = src.clone(); y.swap(0, n - 1); tries.push(("instances exchanged".into(), y));
            let mut y = src.clone(); y.pop(); tries.push(("an instance missing".into(), y));
            let mut y = src.clone(); y.truncate(n / 2); tries.push(("half the instances".into(), y));
            let mut y = src.clone(); y[0] = src[n - 1].clone(); tries.push(("an instance repeated".into(), y));
        }
        if S::BATCH {
            let mut y = src.clone(); let z = y[0].clone(); y.push(z); tries.push(("a surplus instance".into(), y));
            let mut y = src.clone(); let z = y.clone(); y.extend(z); tries.push(("all instances repeated".into(), y));
            tries.push(("no instances".into(), vec![]));
        }
        for (w, y) in tries {
            if y == *src { continue; }
            if is_out { vs("the outputs are altered", &w, &y, &r.ins) } else { vs("the inputs are altered", &w, &r.outs, &y) }
        }
    }
    if n > 1 {
        let (mut a, mut b) = (r.outs.clone(), r.ins.clone()); a.swap(0, n - 1); b.swap(0, n - 1);
        if (&a, &b) != (&r.outs, &r.ins) { vs("the instances are exchanged", "", &a, &b); }
        let (a, b) = (r.outs[..n / 2].to_vec(), r.ins[..n / 2].to_vec()); vs("half of the instances are left out", "", &a, &b);
    }
    if S::BATCH { let (mut a, mut b) = (r.outs.clone(), r.ins.clone()); a.extend(r.outs.clone()); b.extend(r.ins.clone()); vs("instances are repeated", "", &a, &b);
        vs("the batch is empty", "", &[], &[]); }
    // circuit: its own hash, and (for a false statement) the hash of the proved one
    for _ in 0..4 {
        let o = r.c.other(case);
        if o == r.c { continue; }
        attack::<S>(case, "the circuit is another", "one gate changed", &r.p, &o, (&o, &r.p), &r.outs, &r.ins, &r.proof);
        if r.x.iter().zip(&r.outs).any(|(i, w)| o.outputs(&i.ins, &i.aux) != *w) {
            // prover claims the proved circuit's outputs for the other circuit
            let v = sut(|| S::prove(&r.p, &r.c, (&o, &r.p), &r.x, &mut case.tape()));
            if let Sut::Val((q, outs)) = v { attack::<S>(case, "the prover evaluated another circuit", "one gate changed", &r.p, &o, (&o, &r.p), &outs, &r.ins, &q); }
        }
    }
    let mut o = r.c.clone();
    let top = o.layers.last().unwrap().clone();
    for (w, f) in [("a layer appended", 0), ("the last layer removed", 1), ("a gate appended", 2)] {
        match f { 0 => { let m = top.len(); o = r.c.clone(); o.layers.push((0..m).map(|i| (0, i, i)).collect()) } 1 => { o = r.c.clone(); if o.layers.len() < 2 { continue; } o.layers.pop(); } _ => { o = r.c.clone(); let g = top[0]; o.layers.last_mut().unwrap().push(g) } }
        attack::<S>(case, "the circuit is another", w, &r.p, &o, (&o, &r.p), &r.outs, &r.ins, &r.proof);
        let outs: Vec<_> = r.x.iter().map(|i| o.outputs(&i.ins, &i.aux)).collect();
        attack::<S>(case, "the circuit is another", &format!("{}, its own outputs", w), &r.p, &o, (&o, &r.p), &outs, &r.ins, &r.proof);
    }
    if std::mem::size_of::<S::Params>() > 0 {
        let p2 = S::params(&mut case.tape(), r.num);
        attack::<S>(case, "the parameters are others", "", &p2, &r.c, (&r.c, &p2), &r.outs, &r.ins, &r.proof);
        attack::<S>(case, "the parameters are others", "hash of the proved ones", &p2, &r.c, h, &r.outs, &r.ins, &r.proof);
        attack::<S>(case, "the parameter hash is another", "", &r.p, &r.c, (&r.c, &p2), &r.outs, &r.ins, &r.proof);
        let p3 = S::params(&mut case.tape(), r.num + 2);
        attack::<S>(case, "the parameters are others", "larger", &p3, &r.c, (&r.c, &p3), &r.outs, &r.ins, &r.proof);
    }
    // a second run of another statement: its parts do not fit
    let x2 = insts::<S>(case, &r.c, n);
    if let Sut::Val((q, outs2)) = sut(|| S::prove(&r.p, &r.c, h, &x2, &mut case.tape())) {
        let ins2: Vec<_> = x2.iter().map(|i| S::statement(&r.c, i)).collect();
        if (&outs2, &ins2) != (&r.outs, &r.ins) {
            attack::<S>(case, "the proof belongs to another statement", "", &r.p, &r.c, h, &r.outs, &r.ins, &q);
            if outs2 != r.outs { attack::<S>(case, "the outputs belong to another run", "", &r.p, &r.c, h, &outs2, &r.ins, &r.proof); }
            if ins2 != r.ins { attack::<S>(case, "the inputs belong to another run", "", &r.p, &r.c, h, &r.outs, &ins2, &r.proof); }
            mix::<S>(case, &r, &q, "statements");
        }
    }
    if let Sut::Val((q, _)) = sut(|| S::prove(&r.p, &r.c, h, &r.x, &mut case.tape())) { mix::<S>(case, &r, &q, "runs"); }
}
fn mix<S: LScheme>(case: &Case, r: &Run<S>, q: &S::Proof, of: &str) {
    let (e, f) = (mutate::enc(&r.proof), mutate::enc(q));
    if e.toks != f.toks || e.bytes == f.bytes { return; }
    for _ in 0..4 {
        let n = e.toks.len();
        let (i, j) = match case.below(3) { 0 => (0, case.range(1, n)), 1 => (case.below(n), n), _ => { let i = case.below(n); (i, case.range(i + 1, n)) } };
        let (a, b) = (e.toks[i].0, if j < n { e.toks[j].0 } else { e.bytes.len() });
        let m = mutate::splice(&e.bytes, a, b, &f.bytes[a..b]);
        if m == e.bytes || m == f.bytes { continue; }
        if let Some(z) = mutate::from_bytes::<S::Proof>(&m) { attack::<S>(case, &format!("parts come from proofs of different {}", of), &format!("tokens {}..{} of {}", i, j, n), &r.p, &r.c, (&r.c, &r.p), &r.outs, &r.ins, &z); }
    }
}

/// Every proof element changed in turn; lists shortened and lengthened; elements exchanged.
pub fn components<S: LScheme>(case: &Case) {
    let c = if case.idx % 6 == 5 { LCirc::random(case, 10, 8, 20) } else { LCirc::random(case, 4, 3, 5) };
    let n = if S::BATCH { case.pick(&[1, 2, 4]) } else { 1 };
    let Some(r) = base_on::<S>(case, c, n) else { return };
    let h = (&r.c, &r.p);
    let nt = mutate::n_tokens(&r.proof);
    let eq = |q: &S::Proof| -> bool {
        // trailing zero coefficients of a polynomial are the same polynomial
        mutate::bytes(q) == mutate::bytes(&r.proof) };
    for at in 0..nt {
        if nt > 200 && case.chance(1, 2) { continue; }
        if let Some((q, d)) = mutate::mutate_at(case, S::codec(), &r.proof, at) {
            if eq(&q) { continue; }
            let kind = d.split('@').next().unwrap().to_string();
            attack::<S>(case, &format!("a proof element was changed ({})", kind), &format!("token {} of {}: {}", at, nt, d), &r.p, &r.c, h, &r.outs, &r.ins, &q);
        }
    }
    for _ in 0..10 {
        if let Some((q, d)) = mutate::mutate_value(case, S::codec(), &r.proof) { attack::<S>(case, "proof elements were exchanged or changed", &d, &r.p, &r.c, h, &r.outs, &r.ins, &q); }
        if let Some((q, d)) = mutate::mutate_shape(case, &r.proof) { attack::<S>(case, "a list in the proof was shortened or lengthened", &d, &r.p, &r.c, h, &r.outs, &r.ins, &q); }
    }
}

/// A prover that lies about one value and adapts one message so that all but one check pass.
pub fn lies<S: LScheme>(case: &Case) {
    let c = if case.idx % 5 == 4 { deep(case) } else if case.idx % 10 == 7 { wide(case) } else { LCirc::random(case, 4, 4, 6) };
    let n = if c.half() > 500 { 1 } else { batch::<S>(case) };
    let Some(r) = base_on::<S>(case, c, n) else { return };
    let label = S::lies()[case.idx as usize % S::lies().len()];
    let depth = r.c.layers.len() + 1;
    // a lie at layer d, told anywhere; in deep circuits at every layer, in wide ones in several rounds
    let pair = label.contains("pair");
    if pair && depth < 3 { return; }
    let first = if pair { 2 } else { 0 };
    let at: Vec<usize> = if depth > 6 { (first..depth).flat_map(|d| vec![d; if S::BATCH { 1 } else { 2 }]).collect() } else if r.c.half() > 500 { (first..depth).flat_map(|d| vec![d; if S::BATCH { 2 } else { 3 }]).collect() } else { vec![first + case.below(depth - first)] };
    let start = case.below(16);
    for (k, d) in at.into_iter().enumerate() {
        let place = (start + 3 * k) % 16;
        let param = if S::BATCH { d | place << 4 | case.below(3) << 8 | case.below(64) << 10 | case.below(n) << 16 } else { d | place << 4 | case.below(2) << 8 | case.below(64) << 9 };
        if d == 0 && r.c.half() == 0 { continue; }
        match sut(|| lying(label, param, || S::prove(&r.p, &r.c, (&r.c, &r.p), &r.x, &mut case.tape()))) {
            Sut::Val(((q, outs), told)) => {
                if told == 0 { case.count(&format!("{}: lie {} not told", S::NAME, label)); continue; }
                if outs == r.outs { case.count(&format!("{}: lie {} left the outputs true", S::NAME, label)); continue; }
                case.count(&format!("{}: lie {} told at layer {}", S::NAME, label, if d == 0 { "of inputs".to_string() } else if d == depth - 1 { "of outputs".into() } else { "between".into() }));
                if depth > 6 { case.count(&format!("{}: lies told in deep circuits", S::NAME)); } else if r.c.half() > 500 { case.count(&format!("{}: lies told in wide circuits", S::NAME)); }
                attack::<S>(case, &format!("the outputs are false ({})", label), &format!("lie {} {:#x}", label, param), &r.p, &r.c, (&r.c, &r.p), &outs, &r.ins, &q);
            }
            Sut::Panic(_) => case.count(&format!("{}: lying prover produced no proof", S::NAME)),
        }
    }
}

/// C20: hostile bytes and shapes must give an error or a rejection.
pub fn hostile<S: LScheme>(case: &Case) {
    let Some(r) = base::<S>(case) else { return };
    let h = (&r.c, &r.p);
    let b = mutate::bytes(&r.proof);
    let run = |kind: &str, q: Option<Sut<Option<S::Proof>>>, what: &str, outs: &[Vec<Fr<S>>], ins: &[Vec<Fr<S>>], fp: &[u8]| {
        let v = match q {
            Some(Sut::Panic(p)) => Verdict::Panic(p),
            Some(Sut::Val(None)) => Verdict::Undecodable,
            Some(Sut::Val(Some(q))) => verdict(|| Ok::<_, String>(S::verify(&r.p, &r.c, h, outs, ins, &q))),
            None => verdict(|| Ok::<_, String>(S::verify(&r.p, &r.c, h, outs, ins, &r.proof))),
        };
        case.eval(&(S::NAME, kind, fp), true);
        case.count(&format!("{}: {} -> {}", S::NAME, kind, v.class()));
        case.sample(|| json!({"scheme": S::NAME, "alteration": what, "verdict": v.class()}));
        if let Verdict::Panic(p) = &v { let at = p.rsplit('@').next().unwrap_or("").trim().to_string(); let at = at.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
            let at = at.split(':').next().unwrap_or("").to_string();
            case.violation(&format!("{}: panic on {} in {}", S::NAME, kind, at), json!({"panic": p, "alteration": what, "case": describe::<S>(&r.c, r.x.len())})); }
    };
    for _ in 0..24 {
        let (g, d) = mutate::garble(case, &b);
        let q = sut(|| S::Proof::deserialize(&g[..]).ok());
        run("hostile bytes", Some(q), &d, &r.outs, &r.ins, &g);
    }
    for _ in 0..12 {
        if let Some((q, d)) = mutate::mutate_shape(case, &r.proof) { let g = mutate::bytes(&q); run("altered lists", Some(Sut::Val(Some(q))), &d, &r.outs, &r.ins, &g); }
        if let Some((q, d)) = mutate::mutate_value(case, S::codec(), &r.proof) { let g = mutate::bytes(&q); run("altered elements", Some(Sut::Val(Some(q))), &d, &r.outs, &r.ins, &g); }
    }
    for k in 0..6usize {
        let mut o = r.outs.clone(); let mut i = r.ins.clone();
        let m = case.below(o.len());
        match k { 0 => { o[m].clear(); } 1 => { i[m].clear(); } 2 => { o[m].extend(vec![Fr::<S>::one(); 37]); } 3 => { i[m].extend(vec![Fr::<S>::one(); 37]); } 4 => { o.push(vec![]); i.push(vec![]); } _ => { if S::BATCH { o.clear(); i.clear(); } } }
        run("wrong number of values", None, &format!("{}", k), &o, &i, &[k as u8, m as u8, b[0], b[b.len() / 2]]);
    }
}

pub fn attacks<'a, S: LScheme>(scale: u64) -> Vec<Scenario<'a>> {
    let n = |k: &str| format!("{}/{}", S::NAME, k);
    vec![
        sc(&n("statements"), 8 * scale, statements::<S>),
        sc(&n("components"), 6 * scale, components::<S>),
        sc(&n("lies"), 8 * scale * S::lies().len() as u64, lies::<S>),
    ]
}
