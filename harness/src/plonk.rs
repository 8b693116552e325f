//! Random PLONK gate programs, an independent gate evaluator, and attacks on proofs.
use crate::circ::{rand_f, spec_f};
use crate::ctx::*;
use crate::mutate;
use crate::r1cs_checks::hexf;
use crate::{E, Fr};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_serialize::CanonicalSerialize;
use ark_poly_commit::marlin_pc::MarlinKZG10;
use digest::{generic_array::GenericArray, BlockInput, Digest, FixedOutput, Reset, Update};
use rand::SeedableRng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::OnceLock;
use zkp_plonk::{Composer, Plonk};

pub type PC = MarlinKZG10<E, DensePolynomial<Fr>>;
pub type Pk = zkp_plonk::ProverKey<Fr, PC>;
pub type Vk = zkp_plonk::VerifierKey<Fr, PC>;
pub type Proof = zkp_plonk::Proof<Fr, PC>;
pub type P = Plonk<Fr, LogDigest, PC>;

thread_local! { static SEEDS: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]); }
/// The transcript digest, which keeps the seeds it produced.
#[derive(Clone, Default)]
pub struct LogDigest(blake2::Blake2s);
impl Update for LogDigest { fn update(&mut self, d: impl AsRef<[u8]>) { Update::update(&mut self.0, d) } }
impl FixedOutput for LogDigest {
    type OutputSize = <blake2::Blake2s as FixedOutput>::OutputSize;
    fn finalize_into(self, out: &mut GenericArray<u8, Self::OutputSize>) { self.0.finalize_into(out); log(out) }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, Self::OutputSize>) { self.0.finalize_into_reset(out); log(out) }
}
fn log(o: &[u8]) { SEEDS.with(|s| s.borrow_mut().push(o.to_vec())) }
impl Reset for LogDigest { fn reset(&mut self) { Reset::reset(&mut self.0) } }
impl BlockInput for LogDigest { type BlockSize = <blake2::Blake2s as BlockInput>::BlockSize; }
#[allow(unused)] fn _d() { fn f<D: Digest>() {} f::<LogDigest>() }
pub fn seeds<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    SEEDS.with(|s| s.borrow_mut().clear());
    let t = f();
    (t, SEEDS.with(|s| s.borrow_mut().split_off(0)))
}

#[derive(Clone, Debug)]
pub enum Gate {
    Add { l: (usize, Fr), r: (usize, Fr), o: usize, aux: Option<(usize, Fr)>, qc: Fr, pi: Fr },
    Mul { l: usize, r: usize, o: usize, aux: Option<(usize, Fr)>, qm: Fr, qc: Fr, pi: Fr },
    Const { v: usize, value: Fr, pi: Fr },
    Eq { l: usize, r: usize },
}
/// One wire: column 0..3 = aux, left, right, output; None = the null variable.
pub struct Row { pub w: [Option<usize>; 4], pub q: [Fr; 4], pub qm: Fr, pub qc: Fr, pub pi: Fr }
impl Gate {
    pub fn row(&self) -> Row {
        let z = Fr::zero();
        let a = |a: &Option<(usize, Fr)>| a.map_or((None, z), |x| (Some(x.0), x.1));
        match self {
            Gate::Add { l, r, o, aux, qc, pi } => { let x = a(aux); Row { w: [x.0, Some(l.0), Some(r.0), Some(*o)], q: [x.1, l.1, r.1, -Fr::one()], qm: z, qc: *qc, pi: *pi } }
            Gate::Mul { l, r, o, aux, qm, qc, pi } => { let x = a(aux); Row { w: [x.0, Some(*l), Some(*r), Some(*o)], q: [x.1, z, z, -Fr::one()], qm: *qm, qc: *qc, pi: *pi } }
            Gate::Const { v, value, pi } => Row { w: [None, Some(*v), Some(*v), Some(*v)], q: [z, Fr::one(), z, z], qm: z, qc: -*value, pi: -*pi },
            Gate::Eq { l, r } => Row { w: [None, Some(*l), Some(*r), None], q: [z, Fr::one(), -Fr::one(), z], qm: z, qc: z, pi: z },
        }
    }
    fn vars(&mut self) -> Vec<&mut usize> {
        match self {
            Gate::Add { l, r, o, aux, .. } => { let mut v = vec![&mut l.0, &mut r.0, o]; if let Some(x) = aux { v.push(&mut x.0) } v }
            Gate::Mul { l, r, o, aux, .. } => { let mut v = vec![l, r, o]; if let Some(x) = aux { v.push(&mut x.0) } v }
            Gate::Const { v, .. } => vec![v],
            Gate::Eq { l, r } => vec![l, r],
        }
    }
}
impl Row {
    pub fn value(&self, v: &[Fr; 4]) -> Fr { self.q[0] * v[0] + self.q[1] * v[1] + self.q[2] * v[2] + self.q[3] * v[3] + self.qm * v[1] * v[2] + self.qc + self.pi }
}
#[derive(Clone, Debug)]
pub struct Prog { pub vals: Vec<Fr>, pub gates: Vec<Gate>, pub late: bool }
impl Prog {
    pub fn random(c: &Case, n: usize) -> Prog {
        let special = c.pick(&[5, 20, 50]);
        let mut p = Prog { vals: (0..c.range(1, 4)).map(|_| spec_f(c, special)).collect(), gates: vec![], late: c.chance(1, 2) };
        for _ in 0..n {
            let nv = p.vals.len();
            // prefer recent variables at times, so that chains form
            let pick = || if c.chance(1, 2) { nv - 1 - c.below(nv.min(3)) } else { c.below(nv) };
            let pi0 = if c.chance(1, 3) { spec_f(c, special) } else { Fr::zero() };
            let aux = if c.chance(1, 3) { Some((pick(), spec_f(c, special))) } else { None };
            let g = match c.below(8) {
                0..=2 => Gate::Add { l: (pick(), spec_f(c, special)), r: (pick(), spec_f(c, special)), o: 0, aux, qc: spec_f(c, 60), pi: pi0 },
                3..=5 => Gate::Mul { l: pick(), r: pick(), o: 0, aux, qm: spec_f(c, special), qc: spec_f(c, 60), pi: pi0 },
                6 => { let v = pick(); Gate::Const { v, value: p.vals[v] - pi0, pi: pi0 } }
                _ => { let l = pick(); let r = match (0..nv).find(|&i| i != l && p.vals[i] == p.vals[l]) { Some(i) if c.chance(1, 2) => i, _ if c.chance(1, 6) => l, _ => { p.vals.push(p.vals[l]); p.vals.len() - 1 } };
                    if c.chance(1, 2) { Gate::Eq { l, r } } else { Gate::Eq { l: r, r: l } } }
            };
            let mut g = g;
            let out = match &g { Gate::Add { .. } | Gate::Mul { .. } => {
                let row = g.row(); let mut v = [Fr::zero(); 4];
                for k in 0..3 { if let Some(x) = row.w[k] { v[k] = p.vals[x] } }
                Some(row.value(&v)) } _ => None };
            if let Some(val) = out {
                let reuse = c.chance(1, 4);
                let oo = if reuse { c.below(nv) } else { p.vals.push(val); p.vals.len() - 1 };
                let diff = p.vals[oo] - val;
                match &mut g {
                    Gate::Add { o, qc, pi, .. } | Gate::Mul { o, qc, pi, .. } => { *o = oo; if c.chance(1, 2) { *qc += diff } else { *pi += diff } }
                    _ => {}
                }
            }
            p.gates.push(g);
        }
        debug_assert!(p.violated().is_empty());
        p
    }
    pub fn violated(&self) -> Vec<usize> {
        (0..self.gates.len()).filter(|&i| { let r = self.gates[i].row(); let mut v = [Fr::zero(); 4]; for k in 0..4 { if let Some(x) = r.w[k] { v[k] = self.vals[x] } } !r.value(&v).is_zero() }).collect()
    }
    /// Variables of this program whose wires carry different values in a program of the same layout.
    pub fn broken_copies(&self, other: &Prog) -> Vec<usize> {
        let mut val: Vec<Option<Fr>> = vec![None; self.vals.len()]; let mut bad = vec![];
        for (a, b) in self.gates.iter().zip(&other.gates) { let (ra, rb) = (a.row(), b.row()); for k in 0..4 { if let (Some(x), Some(y)) = (ra.w[k], rb.w[k]) {
            match val[x] { None => val[x] = Some(other.vals[y]), Some(v) => if v != other.vals[y] && !bad.contains(&x) { bad.push(x) } } } } }
        bad
    }
    /// Do another program's wire values break a gate or a copy constraint of this one?
    pub fn violated_by(&self, other: &Prog) -> bool {
        !self.broken_copies(other).is_empty() || self.gates.iter().zip(&other.gates).any(|(a, b)| {
            let (ra, rb) = (a.row(), b.row()); let mut v = [Fr::zero(); 4];
            for k in 0..4 { if let Some(y) = rb.w[k] { v[k] = other.vals[y] } }
            !(ra.value(&v) - ra.pi + rb.pi).is_zero() })
    }
    /// The constraint structure: which wires are tied together, and the selectors.
    pub fn structure(&self) -> (Vec<usize>, Vec<Vec<Fr>>) {
        let mut first: std::collections::HashMap<Option<usize>, usize> = Default::default(); let mut w = vec![]; let mut q = vec![];
        for (i, g) in self.gates.iter().enumerate() { let r = g.row(); for k in 0..4 { w.push(*first.entry(r.w[k]).or_insert(4 * i + k)); } q.push(vec![r.q[0], r.q[1], r.q[2], r.q[3], r.qm, r.qc]); }
        (w, q)
    }
    pub fn composer(&self) -> Composer<Fr> {
        let mut cs = Composer::new();
        let mut m: Vec<Option<_>> = vec![None; self.vals.len()];
        if !self.late { for i in 0..self.vals.len() { m[i] = Some(cs.alloc_and_assign(self.vals[i])); } }
        for g in &self.gates {
            let mut h = g.clone();
            for v in h.vars() { if m[*v].is_none() { m[*v] = Some(cs.alloc_and_assign(self.vals[*v])); } }
            let x = |i: usize| m[i].unwrap();
            match g {
                Gate::Add { l, r, o, aux, qc, pi } => cs.create_add_gate((x(l.0), l.1), (x(r.0), r.1), x(*o), aux.map(|a| (x(a.0), a.1)), *qc, *pi),
                Gate::Mul { l, r, o, aux, qm, qc, pi } => cs.create_mul_gate(x(*l), x(*r), x(*o), aux.map(|a| (x(a.0), a.1)), *qm, *qc, *pi),
                Gate::Const { v, value, pi } => cs.constrain_to_constant(x(*v), *value, *pi),
                Gate::Eq { l, r } => cs.assert_equal(x(*l), x(*r)),
            }
        }
        for i in 0..self.vals.len() { if m[i].is_none() { cs.alloc_and_assign(self.vals[i]); } }
        cs
    }
    pub fn pis(&self) -> Vec<Fr> { self.gates.iter().map(|g| g.row().pi).collect() }
    pub fn fp(&self) -> String { format!("{:?}", self.gates) }
    pub fn describe(&self) -> Value {
        let mut k = [0; 4]; for g in &self.gates { k[match g { Gate::Add { .. } => 0, Gate::Mul { .. } => 1, Gate::Const { .. } => 2, Gate::Eq { .. } => 3 }] += 1; }
        let mut gs = format!("{:?}", self.gates.iter().take(3).collect::<Vec<_>>()); gs.truncate(900);
        json!({"gates": self.gates.len(), "add/mul/const/eq": k, "variables": self.vals.len(), "first gates": gs})
    }
    pub fn n(&self) -> usize { self.gates.len().next_power_of_two() }
}
pub fn srs() -> &'static zkp_plonk::UniversalParams<Fr, PC> {
    static S: OnceLock<zkp_plonk::UniversalParams<Fr, PC>> = OnceLock::new();
    S.get_or_init(|| P::setup(512, &mut rand_chacha::ChaCha20Rng::from_seed([9; 32])).ok().expect("plonk srs"))
}
pub fn ks(c: &Case) -> [Fr; 4] {
    if c.chance(1, 2) { [1u64, 7, 13, 17].map(Fr::from) } else { let mut k = [Fr::zero(); 4]; for x in k.iter_mut() { *x = rand_f(c) } k }
}
pub fn clone<T: ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize>(p: &T) -> T { mutate::from_bytes(&mutate::bytes(p)).expect("plonk object does not decode") }
pub fn es<X: std::fmt::Debug>(e: X) -> String { format!("{:?}", e) }

pub fn sizes(c: &Case) -> usize {
    match c.below(10) { 0 => c.range(1, 4), 1 | 2 => c.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]), 3 => c.range(60, 140), _ => c.range(1, 40) }
}
pub fn honest(c: &Case, n: usize, own_srs: bool) {
    let p = Prog::random(c, n);
    let d = || json!({"circuit": p.describe()});
    let cs = p.composer();
    c.check(cs.size() == p.gates.len(), "plonk: the composer's size is not the number of gates", d);
    c.check(cs.public_inputs() == &p.pis()[..], "plonk: the composer's public inputs are not those of its gates", d);
    let run = |srs: &zkp_plonk::UniversalParams<Fr, PC>| {
        let stage = std::cell::Cell::new("key generation");
        let r = sut(|| -> Result<bool, String> {
            let (pk, vk) = P::keygen(srs, &cs, ks(c)).map_err(es)?;
            stage.set("proving");
            let proof = P::prove(&pk, &cs, &mut c.tape()).map_err(es)?;
            stage.set("verification");
            P::verify(&vk, cs.public_inputs(), proof).map_err(es)
        });
        c.eval(&(p.fp(), own_srs), !p.gates.is_empty());
        c.count(match p.gates.len() { 1 => "plonk: circuits of one gate", x if x.is_power_of_two() => "plonk: circuits filling their domain", _ => "plonk: padded circuits" });
        c.sample(d);
        match r {
            Sut::Val(Ok(true)) => {}
            Sut::Val(Ok(false)) => c.violation("plonk: honest proof rejected", d()),
            Sut::Val(Err(e)) => c.violation(&format!("plonk: {} of a satisfied circuit fails", stage.get()), json!({"error": e, "case": d()})),
            Sut::Panic(e) => c.violation(&format!("plonk: {} of a satisfied circuit panics", stage.get()), json!({"panic": e, "case": d()})),
        }
    };
    if own_srs {
        // a universal setup just large enough, and one a little larger
        let deg = p.n() + c.below(3);
        match sut(|| P::setup(deg, &mut c.tape()).map_err(es)) {
            Sut::Val(Ok(s)) => run(&s),
            o => c.violation("plonk: universal setup fails", json!({"degree": deg, "outcome": format!("{:?}", o.panicked())})),
        }
    } else { run(srs()) }
}

pub struct Base { pub prog: Prog, pub pk: Pk, pub vk: Vk, pub ks: [Fr; 4], pub proof: Proof }
pub fn base(c: &Case, n: usize) -> Option<Base> {
    let prog = Prog::random(c, n);
    let k = ks(c);
    let r = sut(|| -> Result<_, String> {
        let cs = prog.composer();
        let (pk, vk) = P::keygen(srs(), &cs, k).map_err(es)?;
        let proof = P::prove(&pk, &cs, &mut c.tape()).map_err(es)?;
        let ok = P::verify(&vk, cs.public_inputs(), clone(&proof)).map_err(es)?;
        if ok { Ok(Base { prog: prog.clone(), pk, vk, ks: k, proof }) } else { Err("rejected".into()) }
    });
    match r { Sut::Val(Ok(b)) => Some(b), _ => { c.count("plonk: no honest base proof"); None } }
}
pub fn attack(c: &Case, kind: &str, what: &str, vk: &Vk, pi: &[Fr], proof: &Proof, p: &Prog) -> Verdict {
    let q = clone(proof);
    let v = verdict(|| P::verify(vk, pi, q));
    c.eval(&(kind, what, p.fp(), mutate::bytes(proof)), true);
    c.count(&format!("plonk: {} -> {}", kind, v.class()));
    if v.accepted() { c.violation(&format!("plonk: accepted although {}", kind), json!({"what": what, "circuit": p.describe(), "publics": pi.iter().map(hexf).collect::<Vec<_>>()})); }
    v
}
/// Prove `bad` with the key of another program of the same gates; lie: 0 none, 1 let the grand product not close, 2 zero grand product.
pub fn prove_with(c: &Case, pk: &Pk, bad: &Prog, lie: usize) -> Option<Proof> {
    let cs = bad.composer();
    zkp_plonk::verif_hooks::set(lie);
    let r = sut(|| P::prove(pk, &cs, &mut c.tape()));
    zkp_plonk::verif_hooks::set(0);
    match r { Sut::Val(Ok(p)) => Some(p), Sut::Val(Err(_)) => { c.count("plonk: prover refuses a violated circuit"); None } Sut::Panic(_) => { c.count("plonk: prover aborts on a violated circuit"); None } }
}
pub fn gate_violation(c: &Case) {
    let n = sizes(c);
    let Some(b) = base(c, n) else { return };
    for _ in 0..3 {
        let mut bad = b.prog.clone();
        let what = match c.below(3) {
            0 | 1 => { let i = c.below(bad.vals.len()); bad.vals[i] += if c.chance(1, 2) { Fr::one() } else { rand_f::<Fr>(c) }; "a wrong variable value" }
            _ => { let i = c.below(bad.gates.len()); let d = if c.chance(1, 2) { Fr::one() } else { rand_f(c) };
                match &mut bad.gates[i] { Gate::Add { pi, .. } | Gate::Mul { pi, .. } | Gate::Const { pi, .. } => *pi += d, _ => continue } "a wrong public input of one gate" }
        };
        let viol = bad.violated();
        if viol.is_empty() { continue; }
        if let Some(q) = prove_with(c, &b.pk, &bad, 0) {
            attack(c, "a gate equation is violated by the assignment", &format!("{}: gates {:?} of {}", what, &viol[..viol.len().min(4)], n), &b.vk, &bad.pis(), &q, &bad);
        }
    }
    // exactly one gate violated: the last gate's fresh output is used nowhere else
    let mut bad = b.prog.clone();
    let g = if c.chance(1, 2) { 0 } else { c.below(bad.gates.len()) };
    bad.vals.push(rand_f(c));
    let nv = bad.vals.len() - 1;
    let ok = match &mut bad.gates[g] { Gate::Add { o, .. } | Gate::Mul { o, .. } => { *o = nv; true } _ => false };
    if !ok { return; }
    // the honest circuit has that wire too, with the right value
    let mut good = bad.clone();
    let row = good.gates[g].row(); let mut v = [Fr::zero(); 4]; for k in 0..3 { if let Some(x) = row.w[k] { v[k] = good.vals[x] } }
    good.vals[nv] = row.value(&v);
    if !good.violated().is_empty() || good.vals[nv] == bad.vals[nv] { return; }
    let r = sut(|| P::keygen(srs(), &good.composer(), b.ks).map_err(es));
    let Sut::Val(Ok((pk, vk))) = r else { return };
    for wrong in [good.vals[nv] + Fr::one(), Fr::zero(), rand_f(c)] {
        bad.vals[nv] = wrong;
        if bad.violated() != vec![g] { continue; }
        if let Some(q) = prove_with(c, &pk, &bad, 0) {
            attack(c, "exactly one gate equation is violated", &format!("gate {} of {}", g, n), &vk, &bad.pis(), &q, &bad);
        }
        if g > 0 { continue; }
        // what misses at the first gate is put into the first value of the grand product
        let row = bad.gates[0].row(); let mut v = [Fr::zero(); 4]; for k in 0..4 { if let Some(x) = row.w[k] { v[k] = bad.vals[x] } }
        let mut b64 = [0u8; 64]; row.value(&v).serialize(&mut b64[..]).unwrap();
        zkp_plonk::verif_hooks::set_gate(b64);
        for lie in 7..11 { if let Some(q) = prove_with(c, &pk, &bad, lie) {
            attack(c, "a violated gate is made up for by the grand product's start", &format!("weight {}", ["1", "-1", "beta^2", "gamma^2"][lie - 7]), &vk, &bad.pis(), &q, &bad);
        } }
    }
}
/// Gates all hold, but one wire carries another value than the other wires of its variable.
pub fn copy_violation(c: &Case) {
    let n = sizes(c).max(2);
    let Some(b) = base(c, n) else { return };
    for _ in 0..6 {
        let g = c.below(n);
        let row = b.prog.gates[g].row();
        // give two wires of this gate their own variables with values that keep the gate satisfied
        let cols: Vec<usize> = (0..4).filter(|&k| row.w[k].is_some()).collect();
        if cols.len() < 2 { continue; }
        let mut bad = b.prog.clone();
        let mut v = [Fr::zero(); 4]; for k in 0..4 { if let Some(x) = row.w[k] { v[k] = bad.vals[x] } }
        let i = c.pick(&cols);
        v[i] += Fr::one();
        let coef = |k: usize, v: &[Fr; 4]| row.q[k] + if k == 1 { row.qm * v[2] } else if k == 2 { row.qm * v[1] } else { Fr::zero() };
        let own_sel = !coef(i, &v).is_zero();
        let mut changed = vec![i];
        if !row.value(&v).is_zero() {
            let js: Vec<usize> = cols.iter().copied().filter(|&k| k != i && !coef(k, &v).is_zero()).collect();
            if js.is_empty() { continue; }
            let j = c.pick(&js);
            let e = row.value(&v);
            v[j] -= e * coef(j, &v).inverse().unwrap();
            changed.push(j);
        } else if own_sel { continue; }
        assert!(row.value(&v).is_zero());
        if !rewire(&mut bad, g, &changed, &v) { continue; }
        assert!(bad.violated().is_empty());
        // copy constraints of the keyed circuit that the new wire values break
        let broken = b.prog.broken_copies(&bad);
        if broken.is_empty() { c.count("plonk: free wires changed (no constraint broken)"); continue; }
        if let Some(q) = prove_with(c, &b.pk, &bad, 1) {
            c.count("plonk: dishonest grand product used");
            attack(c, "a copy constraint is violated by the assignment", &format!("gate {} of {}, columns {:?}", g, n, broken), &b.vk, &bad.pis(), &q, &bad);
        }
        for lie in 3..7 { if let Some(q) = prove_with(c, &b.pk, &bad, lie) {
            attack(c, "a grand product that does not close is made up for by its start", &format!("weight {}, gate {} of {}", ["1", "-1", "beta", "gamma"][lie - 3], g, n), &b.vk, &bad.pis(), &q, &bad);
        } }
        if let Some(q) = prove_with(c, &b.pk, &bad, 2) {
            attack(c, "the grand product is identically zero", &format!("gate {} of {}, columns {:?}", g, n, broken), &b.vk, &bad.pis(), &q, &bad);
        }
    }
}
/// Point the given columns of gate g at fresh variables holding v.
fn rewire(p: &mut Prog, g: usize, cols: &[usize], v: &[Fr; 4]) -> bool {
    for &k in cols {
        let nv = p.vals.len();
        let ok = match (&mut p.gates[g], k) {
            (Gate::Add { l, .. }, 1) => { l.0 = nv; true } (Gate::Add { r, .. }, 2) => { r.0 = nv; true } (Gate::Add { o, .. }, 3) => { *o = nv; true }
            (Gate::Add { aux: Some(a), .. }, 0) => { a.0 = nv; true }
            (Gate::Mul { l, .. }, 1) => { *l = nv; true } (Gate::Mul { r, .. }, 2) => { *r = nv; true } (Gate::Mul { o, .. }, 3) => { *o = nv; true }
            (Gate::Mul { aux: Some(a), .. }, 0) => { a.0 = nv; true }
            (Gate::Eq { l, .. }, 1) => { *l = nv; true } (Gate::Eq { r, .. }, 2) => { *r = nv; true }
            _ => false,
        };
        if !ok { return false; }
        p.vals.push(v[k]);
    }
    true
}
pub fn publics(c: &Case) {
    let n = sizes(c).min(40);
    let Some(b) = base(c, n) else { return };
    let x = b.prog.pis();
    for i in 0..n.min(12) {
        let i = if n > 12 { c.below(n) } else { i };
        let mut y = x.clone(); y[i] += if c.chance(1, 2) { Fr::one() } else { rand_f::<Fr>(c) };
        attack(c, "a public input was changed", &format!("gate {} of {}", i, n), &b.vk, &y, &b.proof, &b.prog);
    }
    for i in 0..n.saturating_sub(1).min(6) { let mut y = x.clone(); y.swap(i, i + 1); if y != x { attack(c, "public inputs were exchanged", "", &b.vk, &y, &b.proof, &b.prog); } }
    let mut y = x.clone(); let last = y.pop().unwrap(); if !last.is_zero() { attack(c, "a public input is missing", "", &b.vk, &y, &b.proof, &b.prog); }
    let mut y = x.clone(); y.push(Fr::one()); attack(c, "there is an extra public input", "", &b.vk, &y, &b.proof, &b.prog);
    let mut y = x.clone(); y.insert(0, Fr::zero()); if x.iter().any(|v| !v.is_zero()) { attack(c, "there is an extra public input", "in front", &b.vk, &y, &b.proof, &b.prog); }
    if x.iter().any(|v| !v.is_zero()) { attack(c, "a public input is missing", "all", &b.vk, &[], &b.proof, &b.prog); }
    attack(c, "there is an extra public input", "many", &b.vk, &vec![Fr::one(); 300], &b.proof, &b.prog);
}
pub fn sweep(c: &Case) {
    let n = c.range(1, 20);
    let Some(b) = base(c, n) else { return };
    let x = b.prog.pis();
    let nt = mutate::n_tokens(&b.proof);
    for at in 0..nt {
        if let Some((q, d)) = mutate::mutate_at(c, &mutate::Bls, &b.proof, at) {
            let kind = d.split('@').next().unwrap().to_string();
            attack(c, &format!("a proof element was changed ({})", kind), &d, &b.vk, &x, &q, &b.prog);
        }
    }
    for _ in 0..8 { if let Some((q, d)) = mutate::mutate_value(c, &mutate::Bls, &b.proof) { if d.contains("swap") || d.contains("copy") { attack(c, "proof elements were exchanged", &d, &b.vk, &x, &q, &b.prog); } } }
    for _ in 0..8 { if let Some((q, d)) = mutate::mutate_shape(c, &b.proof) { attack(c, "a list in the proof was shortened or lengthened", &d, &b.vk, &x, &q, &b.prog); } }
}
pub fn other_circuit(c: &Case) {
    let n = sizes(c).min(40);
    let Some(b) = base(c, n) else { return };
    let x = b.prog.pis();
    // one selector or one wire differs: the key must not accept the proof, nor a proof made for it with this assignment
    let mut o = b.prog.clone();
    let g = c.below(n);
    let what = match (&mut o.gates[g], c.below(4)) {
        (Gate::Add { qc, .. }, 0) | (Gate::Mul { qc, .. }, 0) => { *qc += Fr::one(); "q_c" }
        (Gate::Add { l, .. }, 1) => { l.1 += Fr::one(); "q_l" } (Gate::Add { r, .. }, 2) => { r.1 += Fr::one(); "q_r" }
        (Gate::Add { aux, .. }, _) | (Gate::Mul { aux, .. }, 3) => { *aux = match aux { Some(a) => Some((a.0, a.1 + Fr::one())), None => Some((0, Fr::one())) }; "q_aux" }
        (Gate::Mul { qm, .. }, _) => { *qm += Fr::one(); "q_m" }
        (Gate::Const { value, .. }, _) => { *value += Fr::one(); "constant" }
        (Gate::Eq { r, .. }, _) => { o.vals.push(rand_f(c)); *r = o.vals.len() - 1; "wire" }
    };
    let holds = !o.violated_by(&b.prog);
    if o.structure() == b.prog.structure() { c.count("plonk: the change leaves the circuit as it was"); return; }
    if let Sut::Val(Ok((pk2, vk2))) = sut(|| P::keygen(srs(), &o.composer(), b.ks).map_err(es)) {
        attack(c, "the key belongs to another circuit", what, &vk2, &x, &b.proof, &b.prog);
        if !holds { for lie in [0, 1] { if let Some(q) = prove_with(c, &pk2, &b.prog, lie) { attack(c, "the key belongs to another circuit", &format!("{} (proved with its key)", what), &vk2, &x, &q, &b.prog); } } }
    }
    // the same circuit with other coset constants, and with the last gate left out
    let k2 = [Fr::from(2u64), Fr::from(5u64), Fr::from(11u64), Fr::from(23u64)];
    if let Sut::Val(Ok((_, vk2))) = sut(|| P::keygen(srs(), &b.prog.composer(), k2).map_err(es)) { attack(c, "the key belongs to another circuit", "other coset constants", &vk2, &x, &b.proof, &b.prog); }
    // another proof of the same circuit with other public inputs: mixed elements
    let mut o = b.prog.clone();
    let d: Fr = rand_f(c);
    let mut touched = false;
    for gt in o.gates.iter_mut() { if let Gate::Add { qc, pi, .. } | Gate::Mul { qc, pi, .. } = gt { *qc -= d; *pi += d; touched = true; break; } }
    if touched { if let Some(b2) = base_of(c, o, b.ks) {
        attack(c, "the proof belongs to another circuit", "constant moved to the public input", &b.vk, &b2.prog.pis(), &b2.proof, &b.prog);
        let (e, f) = (mutate::enc(&b.proof), mutate::enc(&b2.proof));
        if e.toks == f.toks { for _ in 0..6 {
            let nt = e.toks.len(); let i = c.below(nt); let j = c.range(i + 1, nt);
            let end = if j < nt { e.toks[j].0 } else { e.bytes.len() };
            let m = mutate::splice(&e.bytes, e.toks[i].0, end, &f.bytes[e.toks[i].0..end]);
            if m == e.bytes || m == f.bytes { continue; }
            if let Some(q) = mutate::from_bytes::<Proof>(&m) { attack(c, "parts come from different proofs", &format!("tokens {}..{}", i, j), &b.vk, &x, &q, &b.prog); }
        } }
    } }
}
fn base_of(c: &Case, prog: Prog, ks: [Fr; 4]) -> Option<Base> {
    let r = sut(|| -> Result<_, String> {
        let cs = prog.composer();
        let (pk, vk) = P::keygen(srs(), &cs, ks).map_err(es)?;
        let proof = P::prove(&pk, &cs, &mut c.tape()).map_err(es)?;
        Ok((pk, vk, proof))
    });
    match r { Sut::Val(Ok((pk, vk, proof))) => Some(Base { prog, pk, vk, ks, proof }), _ => None }
}
fn chal(seed: &[u8]) -> rand_chacha::ChaChaRng { let mut s = [0u8; 32]; s.copy_from_slice(&seed[..32]); rand_chacha::ChaChaRng::from_seed(s) }
/// The verifier's equation at zeta as a function of the claimed evaluations (sorted by label):
/// q_arith r sigma_0 sigma_1 sigma_2 t w_0 w_1 w_2 w_3 z. Returns (lhs factor of t, rhs).
pub struct Eqn { v: Fr, pi: Fr, alpha: Fr, beta: Fr, gamma: Fr, l1: Fr, pub zeta: Fr, pub g: Fr }
impl Eqn {
    /// from the seeds of a verification run: statement, round 1, round 2, round 3, ...
    pub fn of(s: &[Vec<u8>], n: usize, pis: &[Fr]) -> Option<Eqn> {
        use ark_poly::EvaluationDomain;
        if s.len() < 4 { return None; }
        let mut r = chal(&s[1]); let (beta, gamma) = (Fr::rand(&mut r), Fr::rand(&mut r));
        let alpha = Fr::rand(&mut chal(&s[2])); let zeta = Fr::rand(&mut chal(&s[3]));
        let dom = ark_poly::GeneralEvaluationDomain::<Fr>::new(n)?;
        let v = zeta.pow(&[n as u64]) - Fr::one();
        let l = dom.evaluate_all_lagrange_coefficients(zeta);
        let pi = pis.iter().zip(&l).map(|(a, b)| *a * b).sum();
        Some(Eqn { v, pi, alpha, beta, gamma, l1: l[0], zeta, g: dom.element(1) })
    }
    pub fn rhs(&self, e: &[Fr]) -> Fr {
        e[1] + e[0] * self.pi - e[10] * (e[6] + self.beta * e[2] + self.gamma) * (e[7] + self.beta * e[3] + self.gamma) * (e[8] + self.beta * e[4] + self.gamma) * (e[9] + self.gamma) * self.alpha - self.l1 * self.alpha.square()
    }
    pub fn holds(&self, e: &[Fr]) -> bool { e[5] * self.v == self.rhs(e) }
    pub fn fix(&self, e: &mut [Fr], with_t: bool) { if with_t { e[5] = self.rhs(e) * self.v.inverse().unwrap() } else { let d = e[5] * self.v - self.rhs(e); e[1] += d } }
}
/// Evaluations changed so that the verifier's equation still holds: only the openings can tell.
pub fn compensated(c: &Case) {
    let n = c.range(1, 20);
    let Some(b) = base(c, n) else { return };
    let x = b.prog.pis();
    let q = clone(&b.proof);
    let (_, s) = seeds(|| sut(|| P::verify(&b.vk, &x, q)));
    let Some(eq) = Eqn::of(&s, b.vk.info.n, &x) else { c.count("plonk: transcript not understood, compensated changes skipped"); return };
    if b.proof.evaluations.len() != 11 || !eq.holds(&b.proof.evaluations) { c.count("plonk: transcript not understood, compensated changes skipped"); return; }
    const L: [&str; 11] = ["q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3", "z"];
    for i in 0..11 { for with_t in [true, false] {
        if (with_t && i == 5) || (!with_t && i == 1) { continue; }
        let mut q = clone(&b.proof);
        q.evaluations[i] += if c.chance(1, 2) { Fr::one() } else { rand_f(c) };
        eq.fix(&mut q.evaluations, with_t);
        if q.evaluations[i] == b.proof.evaluations[i] { continue; }
        assert!(eq.holds(&q.evaluations));
        attack(c, "two claimed evaluations were changed together", &format!("{} with {}", L[i], if with_t { "t" } else { "r" }), &b.vk, &x, &q, &b.prog);
    } }
    // a commitment changed, and the evaluations adapted to the new challenges
    for _ in 0..3 {
        let k = c.below(3); let j = c.below(b.proof.commitments[k].len());
        let mut q = clone(&b.proof);
        let donor = b.proof.commitments[c.below(3)].last().unwrap().clone();
        if donor == q.commitments[k][j] { continue; }
        q.commitments[k][j] = donor;
        let q2 = clone(&q);
        let (_, s) = seeds(|| sut(|| P::verify(&b.vk, &x, q2)));
        if let Some(eq) = Eqn::of(&s, b.vk.info.n, &x) {
            eq.fix(&mut q.evaluations, true);
            attack(c, "a commitment was replaced and the evaluations adapted", &format!("round {} commitment {}", k + 1, j), &b.vk, &x, &q, &b.prog);
        }
    }
    // false statement: other public inputs, evaluations adapted
    let mut y = x.clone(); let i = c.below(n); y[i] += rand_f::<Fr>(c);
    let q2 = clone(&b.proof);
    let (_, s) = seeds(|| sut(|| P::verify(&b.vk, &y, q2)));
    if let Some(eq) = Eqn::of(&s, b.vk.info.n, &y) { for with_t in [true, false] {
        let mut q = clone(&b.proof); eq.fix(&mut q.evaluations, with_t);
        attack(c, "a public input was changed and the evaluations adapted", "", &b.vk, &y, &q, &b.prog);
    } }
}
/// A prover who can predict what combines the two openings in the batch needs no witness at all:
/// all-zero commitments, any evaluations that satisfy the equation, openings that cancel.
pub fn forged_openings(c: &Case) {
    use ark_ec::ProjectiveCurve;
    use ark_ff::PrimeField;
    use ark_poly::{Polynomial, UVPolynomial};
    use ark_poly_commit::kzg10;
    let n = c.range(1, 16);
    let Some(b) = base(c, n) else { return };
    let mut y = b.prog.pis();
    if c.chance(3, 4) { let i = c.below(n); y[i] += rand_f::<Fr>(c); }
    let pr: Vec<kzg10::Proof<E>> = b.proof.pc_proof.proof.clone();
    if pr.len() != 2 || b.proof.evaluations.len() != 11 { c.count("plonk: proof layout not understood, forgery skipped"); return; }
    let mut f = clone(&b.proof);
    for r in f.commitments.iter_mut() { for x in r.iter_mut() { x.comm.0 = Zero::zero(); x.shifted_comm = None; } }
    for e in f.evaluations.iter_mut() { *e = rand_f(c); }
    let sd = |f: &Proof| { let f2 = clone(f); seeds(|| sut(|| P::verify(&b.vk, &y, f2))).1 };
    let Some(eq) = Eqn::of(&sd(&f), b.vk.info.n, &y) else { return };
    eq.fix(&mut f.evaluations, c.chance(1, 2));
    let s = sd(&f);
    if s.len() < 5 { return; }
    let eps = Fr::rand(&mut chal(&s[4]));
    let e = f.evaluations.clone();
    // the linear combinations opened at zeta, as polynomials (witness polynomials are all zero)
    let poly = |l: &str| -> DensePolynomial<Fr> { b.pk.index.iter().find(|p| p.label() == l).expect("index polynomial").polynomial().clone() };
    let mut r = DensePolynomial::<Fr>::zero();
    let mut add = |p: DensePolynomial<Fr>, k: Fr| { let q = DensePolynomial::from_coefficients_vec(p.coeffs.iter().map(|x| *x * k).collect()); r = &r + &q; };
    for (l, k) in [("q_0", e[6]), ("q_1", e[7]), ("q_2", e[8]), ("q_3", e[9]), ("q_m", e[7] * e[8]), ("q_c", Fr::one())] { add(poly(l), e[0] * k); }
    add(poly("sigma_3"), -(e[6] + eq.beta * e[2] + eq.gamma) * (e[7] + eq.beta * e[3] + eq.gamma) * (e[8] + eq.beta * e[4] + eq.gamma) * eq.beta * e[10] * eq.alpha);
    let mut p2 = DensePolynomial::<Fr>::zero(); let mut v2 = Fr::zero(); let mut k = Fr::one();
    for i in 0..10 {
        let p = match i { 0 => poly("q_arith"), 1 => r.clone(), 2 => poly("sigma_0"), 3 => poly("sigma_1"), 4 => poly("sigma_2"), _ => DensePolynomial::zero() };
        p2 = &p2 + &DensePolynomial::from_coefficients_vec(p.coeffs.iter().map(|x| *x * k).collect());
        v2 += e[i] * k; k *= eps;
    }
    let v1 = e[10];
    let (z1, z2) = (eq.zeta * eq.g, eq.zeta);
    if z1 == z2 { return; }
    let mut guesses: Vec<(&str, Fr)> = vec![("one", Fr::one()), ("opening challenge", eps), ("zeta", eq.zeta)];
    { let mut g = ark_std::test_rng(); guesses.push(("constant-seed generator", u128::rand(&mut g).into())); }
    { let mut g = chal(&s[4]); guesses.push(("transcript before the openings", u128::rand(&mut g).into())); let _ = Fr::rand(&mut g); guesses.push(("transcript before the openings, 2", u128::rand(&mut g).into())); }
    { let mut g = chal(&s[4]); let _ = Fr::rand(&mut g); guesses.push(("transcript before the openings, after one challenge", u128::rand(&mut g).into())); }
    let commit = |p: &DensePolynomial<Fr>| -> ark_bls12_381::G1Affine {
        let mut acc = ark_bls12_381::G1Projective::zero();
        for (x, g) in p.coeffs.iter().zip(b.pk.ck.powers.iter()) { acc += ark_ec::AffineCurve::mul(g, x.into_repr()); }
        acc.into_affine() };
    for (name, rr) in &guesses {
        let rr = *rr;
        if rr.is_zero() { continue; }
        let cst = (v1 + rr * v2 - rr * p2.evaluate(&z1)) * (rr * (z2 - z1)).inverse().unwrap();
        // -v1 + r (P2 - v2) + r (z2 - X) cst, divided by X - z1
        let mut num = DensePolynomial::from_coefficients_vec(p2.coeffs.iter().map(|x| *x * rr).collect());
        num = &num + &DensePolynomial::from_coefficients_vec(vec![-v1 - rr * v2 + rr * z2 * cst, -rr * cst]);
        assert!(num.evaluate(&z1).is_zero());
        let w1 = &num / &DensePolynomial::from_coefficients_vec(vec![-z1, Fr::one()]);
        if w1.coeffs.len() > b.pk.ck.powers.len() { c.count("plonk: forgery needs more powers"); continue; }
        let mut h = clone(&f);
        let mut w = vec![pr[0].clone(), pr[0].clone()];
        w[0].w = commit(&w1);
        w[1].w = commit(&DensePolynomial::from_coefficients_vec(vec![cst]));
        h.pc_proof.proof = w;
        attack(c, "the openings were made to cancel in the batch", name, &b.vk, &y, &h, &b.prog);
    }
}
pub fn hostile(case: &Case) {
    let n = case.range(1, 12);
    let Some(b) = base(case, n) else { return };
    let x = b.prog.pis();
    let judge = |kind: &str, what: &str, v: Verdict, by: &[u8]| {
        case.eval(&("plonk", kind, what.to_string(), by.to_vec()), true);
        case.count(&format!("plonk: {} -> {}", kind, v.class()));
        if let Verdict::Panic(m) = &v { case.violation(&format!("plonk: verification panics on {}", kind), json!({"what": what, "panic": m, "circuit": b.prog.describe()})); }
    };
    for _ in 0..12 {
        if let Some((q, d)) = mutate::mutate_shape(case, &b.proof) { let by = mutate::bytes(&q); judge("a list of unexpected length", &d, verdict(|| P::verify(&b.vk, &x, q)), &by); }
        if let Some((q, d)) = mutate::mutate_value(case, &mutate::Bls, &b.proof) { let by = mutate::bytes(&q); judge("a changed element", &d, verdict(|| P::verify(&b.vk, &x, q)), &by); }
    }
    let by = mutate::bytes(&b.proof);
    for _ in 0..30 {
        let (g, d) = mutate::garble(case, &by);
        let v = verdict(|| { let mut r = &g[..]; match <Proof as ark_serialize::CanonicalDeserialize>::deserialize(&mut r) { Ok(q) => P::verify(&b.vk, &x, q).map_err(es), Err(_) => Err("decode".into()) } });
        let v = if v == Verdict::Error("\"decode\"".into()) { Verdict::Undecodable } else { v };
        judge("garbled bytes", &d, v, &g);
    }
    for m in [0usize, 1, 2, 3, 5, 8, 9, 17, 64, 300] {
        if m == n { continue; }
        let y: Vec<Fr> = (0..m).map(|_| rand_f(case)).collect();
        let q = clone(&b.proof);
        judge("a wrong number of public inputs", &format!("{} instead of {}", m, n), verdict(|| P::verify(&b.vk, &y, q)), &[m as u8]);
    }
}
/// One wire out of step at a time, for variables with every pair of places (and for variables with very many):
/// every row has a wire of its own that keeps its equation satisfied, so that nothing but the copy constraint is broken.
pub fn copies(c: &Case) {
    let heavy = c.idx % 2 == 1;
    // the places of each shared variable, as (row, column); rows in random order
    let mut rows: Vec<[Option<usize>; 4]> = vec![]; let mut nshared = 0;
    if heavy {
        let uses = c.pick(&[45usize, 66, 90, 130]);
        nshared = c.range(1, 3);
        for i in 0..uses { let mut r = [None; 4]; let k = c.below(4); r[k] = Some(0);
            if nshared > 1 && i % 3 == 0 { r[(k + 1 + c.below(3)) % 4] = Some(1 + c.below(nshared - 1)); }
            if c.chance(1, 4) { let k = (k + 2) % 4; if r[k].is_none() { r[k] = Some(0); } }
            rows.push(r); }
    } else {
        for a in 0..4 { for b in a + 1..4 { let mut r = [None; 4]; r[a] = Some(nshared); r[b] = Some(nshared); rows.push(r); nshared += 1; } }
        for a in 0..4 { for b in 0..4 { for (k, _) in [(a, 0), (b, 1)] { let mut r = [None; 4]; r[k] = Some(nshared); rows.push(r); } nshared += 1; } }
        // three places each
        for _ in 0..3 { for _ in 0..3 { let mut r = [None; 4]; r[c.below(4)] = Some(nshared); rows.push(r); } nshared += 1; }
        // either order of a cross pair: a row's predecessor may come later
        if c.chance(1, 2) { rows.reverse(); } else if c.chance(1, 2) { for i in (1..rows.len()).rev() { rows.swap(i, c.below(i + 1)); } }
    }
    let mut p = Prog { vals: (0..nshared).map(|_| rand_f(c)).collect(), gates: vec![], late: c.chance(1, 2) };
    let nz = || loop { let x: Fr = if c.chance(1, 3) { Fr::one() } else { rand_f(c) }; if !x.is_zero() { break x } };
    for r in &rows {
        let w: Vec<usize> = (0..4).map(|k| match r[k] { Some(x) => x, None => { p.vals.push(rand_f(c)); p.vals.len() - 1 } }).collect();
        let mut g = Gate::Add { l: (w[1], nz()), r: (w[2], nz()), o: w[3], aux: Some((w[0], nz())), qc: Fr::zero(), pi: Fr::zero() };
        let row = g.row(); let mut v = [Fr::zero(); 4]; for k in 0..4 { v[k] = p.vals[w[k]] }
        let e = row.value(&v);
        if let Gate::Add { qc, pi, .. } = &mut g { if c.chance(1, 4) { *pi -= e } else { *qc -= e } }
        p.gates.push(g);
    }
    assert!(p.violated().is_empty());
    let what = if heavy { "of a variable with many" } else { "of a variable with two or three" };
    let Some(b) = base_of(c, p, [1u64, 7, 13, 17].map(Fr::from)) else { c.count("plonk: no honest base proof"); return };
    let q = clone(&b.proof);
    if !verdict(|| P::verify(&b.vk, &b.prog.pis(), q)).accepted() { c.count("plonk: no honest base proof"); return; }
    // several places at once: those that the key's own permutation leaves untied (if it can be read), and every split in the order of use
    let together = |what: &str, at: &[(usize, usize)], lies: &[usize]| {
        let mut bad = b.prog.clone(); let d: Fr = nz(); let mut v_at: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
        for (g, k) in at { v_at.entry(*g).or_default().push(*k); }
        for (g, ks) in &v_at {
            let row = b.prog.gates[*g].row(); let mut v = [Fr::zero(); 4]; for t in 0..4 { v[t] = b.prog.vals[row.w[t].unwrap()] }
            for &k in ks { v[k] += d; }
            let Some(j) = (0..4).find(|&j| rows[*g][j].is_none()) else { return };
            let e = row.value(&v); v[j] -= e * row.q[j].inverse().unwrap();
            let mut cols = ks.clone(); cols.push(j);
            if !rewire(&mut bad, *g, &cols, &v) { return; }
        }
        if !bad.violated().is_empty() || b.prog.broken_copies(&bad).is_empty() { return; }
        for lie in lies { if let Some(q) = prove_with(c, &b.pk, &bad, *lie) { attack(c, &format!("some places {} hold another value", if heavy { "of a variable with many" } else { "of a variable with two or three" }), what, &b.vk, &bad.pis(), &q, &bad); } }
    };
    let places = |x: usize| -> Vec<(usize, usize)> { (0..rows.len()).flat_map(|i| (0..4).map(move |k| (i, k))).filter(|&(i, k)| rows[i][k] == Some(x)).collect() };
    match tied(&b) {
        Some(group) => { c.count("plonk: permutations of keys read"); for x in 0..nshared { let ps = places(x); let mut gs: Vec<usize> = ps.iter().map(|(i, k)| group[4 * i + k]).collect(); gs.sort(); gs.dedup();
            c.count_n("plonk: variables whose places the permutation ties in one cycle", (gs.len() == 1) as u64);
            if gs.len() > 1 { for g in gs { let at: Vec<_> = ps.iter().copied().filter(|(i, k)| group[4 * i + k] == g).collect(); together(&format!("the {} places of one cycle of the permutation, of {}", at.len(), ps.len()), &at, &[0, 1]); } } } }
        None => c.count("plonk: permutation not understood, untied places not searched"),
    }
    if heavy { let ps = places(0); for s in 1..ps.len() { together(&format!("the places from the {}th of {}", s, ps.len()), &ps[s..], &[0]); } }
    let mut sites: Vec<(usize, usize)> = vec![];
    for (i, r) in rows.iter().enumerate() { for k in 0..4 { if r[k].is_some() && r.iter().any(|x| x.is_none()) { sites.push((i, k)); } } }
    // the two places of a pair break the same tie: one of them will do
    if !heavy { let mut seen = vec![false; nshared]; sites.retain(|&(i, k)| { let x = rows[i][k].unwrap(); let s = seen[x]; seen[x] = true; !s || rows.iter().flatten().filter(|y| **y == Some(x)).count() > 2 }); }
    else { let n = sites.len(); let mut keep: Vec<usize> = vec![0, 1, n / 4, n / 2, 3 * n / 4, n - 2, n - 1]; for _ in 0..5 { keep.push(c.below(n)); } keep.sort(); keep.dedup(); sites = keep.into_iter().map(|i| sites[i]).collect(); }
    for (g, k) in sites {
        let row = b.prog.gates[g].row();
        let free = (0..4).filter(|&j| rows[g][j].is_none()).collect::<Vec<_>>(); let j = c.pick(&free);
        let mut v = [Fr::zero(); 4]; for t in 0..4 { v[t] = b.prog.vals[row.w[t].unwrap()] }
        v[k] += if c.chance(1, 2) { Fr::one() } else { nz() };
        let e = row.value(&v); v[j] -= e * row.q[j].inverse().unwrap();
        let mut bad = b.prog.clone();
        if !rewire(&mut bad, g, &[k, j], &v) { continue; }
        assert!(bad.violated().is_empty());
        let broken = b.prog.broken_copies(&bad);
        assert!(broken == vec![rows[g][k].unwrap()]);
        for lie in [0, 1] { if let Some(q) = prove_with(c, &b.pk, &bad, lie) {
            attack(c, &format!("one place {} holds another value", what), &format!("row {} of {}, column {}", g, rows.len(), k), &b.vk, &bad.pis(), &q, &bad);
        } }
    }
}
/// For every place (row, column), the cycle of the key's permutation it is on.
fn tied(b: &Base) -> Option<Vec<usize>> {
    use ark_poly::{EvaluationDomain, Polynomial};
    let n = b.vk.info.n; let dom = ark_poly::GeneralEvaluationDomain::<Fr>::new(n)?;
    let roots: Vec<Fr> = dom.elements().collect();
    let mut at = std::collections::HashMap::new();
    for k in 0..4 { for (i, r) in roots.iter().enumerate() { at.insert(mutate::bytes(&(*r * b.ks[k])), 4 * i + k); } }
    let mut group: Vec<usize> = (0..4 * n).collect();
    fn find(g: &mut Vec<usize>, mut i: usize) -> usize { while g[i] != i { g[i] = g[g[i]]; i = g[i]; } i }
    for k in 0..4 { let l = format!("sigma_{}", k); let p = b.pk.index.iter().find(|p| p.label() == &l)?;
        for (i, r) in roots.iter().enumerate() { let j = *at.get(&mutate::bytes(&p.polynomial().evaluate(r)))?; let (x, y) = (find(&mut group, 4 * i + k), find(&mut group, j)); group[x] = y; } }
    Some((0..4 * n).map(|i| find(&mut group, i)).collect())
}
