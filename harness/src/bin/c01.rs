//! C01: random builder programs over linear combinations against a term-sum reference.
use ark_ff::{Field, One, PrimeField, Zero};
use serde_json::json;
use std::collections::BTreeMap;
use vh::{circ::*, r1cs_checks::hexf, rcs::*, schemes::*, *};
use zkp_r1cs::*;

type Ref<F> = BTreeMap<usize, F>;
fn add<F: Field>(a: &mut Ref<F>, k: F, b: &Ref<F>) { for (v, c) in b { let mut t = *c; t *= &k; *a.entry(*v).or_insert(F::zero()) += &t; } }
fn one_of<F: Field>(k: F, v: usize) -> Ref<F> { let mut m = BTreeMap::new(); m.insert(v, k); m }
fn value<F: Field>(l: &LinearCombination<F>, pos: &dyn Fn(Variable) -> usize, a: &[F]) -> F { let mut s = F::zero(); for (v, k) in l.as_ref() { let mut t = *k; t *= &a[pos(*v)]; s += &t; } s }
fn rvalue<F: Field>(r: &Ref<F>, a: &[F]) -> F { let mut s = F::zero(); for (v, k) in r { let mut t = *k; t *= &a[*v]; s += &t; } s }

fn programs<F: PrimeField>(case: &Case) {
    let wide = case.idx % 12 == 5;
    let (ni, na) = if wide { (case.range(8, 40), case.range(20, 60)) } else { (case.range(1, 9), case.range(0, 14)) };
    let vars: Vec<Variable> = (0..ni).map(|i| Variable::new_unchecked(Index::Input(i))).chain((0..na).map(|i| Variable::new_unchecked(Index::Aux(i)))).collect();
    let pos = |v: Variable| match v.get_unchecked() { Index::Input(i) => i, Index::Aux(i) => ni + i };
    let asg: Vec<Vec<F>> = (0..3).map(|_| (0..ni + na).map(|_| rand_f::<F>(case)).collect()).collect();
    let zero_or = |c: &Case| spec_f::<F>(c, 50);
    let mut lcs: Vec<(LinearCombination<F>, Ref<F>)> = vec![(LinearCombination::zero(), BTreeMap::new())];
    let mut cvs: Vec<(ConstraintVar<F>, Ref<F>)> = vec![(ConstraintVar::zero(), BTreeMap::new())];
    let steps = if wide { case.pick(&[250, 500]) } else { case.pick(&[5, 12, 25, 50, 90]) };
    let mut trail: Vec<u64> = vec![ni as u64, na as u64];
    for _ in 0..steps {
        let i = case.below(lcs.len()); let j = case.below(lcs.len());
        let (vi, k) = (case.below(vars.len()), zero_or(case)); let v = vars[vi];
        let ((l, lr), (m, mr)) = (lcs[i].clone(), lcs[j].clone());
        let one = F::one();
        let op = case.below(52);
        let mut cv_new: Option<(ConstraintVar<F>, Ref<F>)> = None;
        let ci = case.below(cvs.len()); let cj = case.below(cvs.len());
        let ((c, cr), (d, dr)) = (cvs[ci].clone(), cvs[cj].clone());
        let mut r = lr.clone();
        let name;
        let nl: Option<LinearCombination<F>> = match op {
            0..=5 => { name = "lc + (k, v)"; add(&mut r, one, &one_of(k, vi)); Some(l + (k, v)) }
            6 => { name = "lc += (k, v)"; add(&mut r, one, &one_of(k, vi)); let mut l = l; l += (k, v); Some(l) }
            7 | 8 => { name = "lc - (k, v)"; add(&mut r, -one, &one_of(k, vi)); Some(l - (k, v)) }
            9 => { name = "lc + v"; add(&mut r, one, &one_of(one, vi)); Some(l + v) }
            10 => { name = "lc - v"; add(&mut r, -one, &one_of(one, vi)); Some(l - v) }
            11 => { name = "-lc"; r.clear(); add(&mut r, -one, &lr); Some(-l) }
            12 => { name = "lc * k"; r.clear(); add(&mut r, k, &lr); Some(l * k) }
            13 => { name = "lc *= k"; r.clear(); add(&mut r, k, &lr); let mut l = l; l *= k; Some(l) }
            14 => { name = "lc.negate_in_place"; r.clear(); add(&mut r, -one, &lr); let mut l = l; l.negate_in_place(); Some(l) }
            15 => { name = "lc.double_in_place"; r.clear(); add(&mut r, one.double(), &lr); let mut l = l; l.double_in_place(); Some(l) }
            16 => { name = "lc.replace_in_place"; r = mr.clone(); let mut l = l; l.replace_in_place(m); Some(l) }
            17 => { name = "&lc + &lc"; add(&mut r, one, &mr); Some(&l + &m) }
            18 => { name = "&lc + lc"; add(&mut r, one, &mr); Some(&l + m) }
            19 => { name = "lc + &lc"; add(&mut r, one, &mr); Some(l + &m) }
            20 => { name = "lc + lc"; add(&mut r, one, &mr); Some(l + m) }
            21 => { name = "&lc - &lc"; add(&mut r, -one, &mr); Some(&l - &m) }
            22 => { name = "lc - &lc"; add(&mut r, -one, &mr); Some(l - &m) }
            23 => { name = "&lc - lc"; add(&mut r, -one, &mr); Some(&l - m) }
            24 => { name = "lc - lc"; add(&mut r, -one, &mr); Some(l - m) }
            25 => { name = "&lc + (k, &lc)"; add(&mut r, k, &mr); Some(&l + (k, &m)) }
            26 => { name = "lc + (k, &lc)"; add(&mut r, k, &mr); Some(l + (k, &m)) }
            27 => { name = "&lc + (k, lc)"; add(&mut r, k, &mr); Some(&l + (k, m)) }
            28 => { name = "lc + (k, lc)"; add(&mut r, k, &mr); Some(l + (k, m)) }
            29 => { name = "&lc - (k, &lc)"; add(&mut r, -k, &mr); Some(&l - (k, &m)) }
            30 => { name = "lc - (k, &lc)"; add(&mut r, -k, &mr); Some(l - (k, &m)) }
            31 => { name = "&lc - (k, lc)"; add(&mut r, -k, &mr); Some(&l - (k, m)) }
            32 => { name = "lc - (k, lc)"; add(&mut r, -k, &mr); Some(l - (k, m)) }
            33 => { name = "lc from (k, v)"; r = one_of(k, vi); Some((k, v).into()) }
            34 => { name = "lc from v"; r = one_of(one, vi); Some(v.into()) }
            35 => { name = "cv + lc"; add(&mut r, one, &cr); Some(c + l) }
            36 => { name = "cv - lc"; r = cr.clone(); add(&mut r, -one, &lr); Some(c - l) }
            37 => { name = "&cv + lc"; add(&mut r, one, &cr); Some(&c + l) }
            38 => { name = "&cv - lc"; r = cr.clone(); add(&mut r, -one, &lr); Some(&c - l) }
            _ => {
                let mut q = cr.clone();
                let (n, x): (&str, ConstraintVar<F>) = match op {
                    39 => { if case.chance(1, 2) { q = one_of(one, vi); ("cv from v", v.into()) } else { q = one_of(k, vi); ("cv from (k, v)", (k, v).into()) } }
                    40 => { q = lr.clone(); ("cv from lc", l.into()) }
                    41 => { q.clear(); if case.chance(1, 2) { add(&mut q, k, &lr); ("cv from (k, lc)", (k, l).into()) } else { add(&mut q, k, &cr); ("cv from (k, cv)", (k, c).into()) } }
                    42 => { q.clear(); add(&mut q, -one, &cr); if case.chance(1, 2) { ("-cv", -c) } else { let mut c = c; c.negate_in_place(); ("cv.negate_in_place", c) } }
                    43 => { q.clear(); add(&mut q, one.double(), &cr); let mut c = c; c.double_in_place(); ("cv.double_in_place", c) }
                    44 => { add(&mut q, one, &one_of(k, vi)); if case.chance(1, 2) { ("cv + (k, v)", c + (k, v)) } else { let mut c = c; c += (k, v); ("cv += (k, v)", c) } }
                    45 => { q.clear(); add(&mut q, k, &cr); if case.chance(1, 2) { ("cv * k", c * k) } else { let mut c = c; c *= k; ("cv *= k", c) } }
                    46 => { add(&mut q, -one, &one_of(k, vi)); ("cv - (k, v)", c - (k, v)) }
                    47 => { if case.chance(1, 2) { add(&mut q, one, &one_of(one, vi)); ("cv + v", c + v) } else { add(&mut q, -one, &one_of(one, vi)); ("cv - v", c - v) } }
                    48 => { add(&mut q, one, &dr); if case.chance(1, 2) { ("cv + &cv", c + &d) } else { ("&cv + &cv", &c + &d) } }
                    49 => { add(&mut q, -one, &dr); if case.chance(1, 2) { ("cv - &cv", c - &d) } else { ("&cv - &cv", &c - &d) } }
                    50 => { add(&mut q, k, &dr); ("cv + (k, &cv)", c + (k, &d)) }
                    _ => { add(&mut q, -k, &dr); ("cv - (k, &cv)", c - (k, &d)) }
                };
                name = n;
                cv_new = Some((x, q));
                None
            }
        };
        trail.push(op as u64); trail.push(vi as u64);
        let (got, want, len): (Vec<F>, Vec<F>, usize) = if let Some(l) = &nl { (asg.iter().map(|a| value(l, &pos, a)).collect(), asg.iter().map(|a| rvalue(&r, a)).collect(), l.as_ref().len()) }
            else { let (c, q) = cv_new.as_ref().unwrap();
                let l = match c { ConstraintVar::LC(l) => l.clone(), ConstraintVar::Var(v) => (*v).into() };
                (asg.iter().map(|a| value(&l, &pos, a)).collect(), asg.iter().map(|a| rvalue(q, a)).collect(), l.as_ref().len()) };
        case.eval(&(trail.clone(), hexf(&k)), true);
        case.count(name);
        case.count(match len { 0 => "terms: none", 1..=5 => "terms: 1-5", 6..=8 => "terms: 6-8", _ => "terms: 9 and more" });
        if !case.check(got == want, &format!("{} is not the sum of its terms", name), || json!({"k": hexf(&k), "variable": vi, "terms": len, "got": hexf(&got[0]), "want": hexf(&want[0])})) { return; }
        case.sample(|| json!({"operation": name, "terms": len, "value": hexf(&got[0])}));
        match (nl, cv_new) { (Some(l), _) => lcs.push((l, r)), (_, Some(x)) => cvs.push(x), _ => {} }
        if lcs.len() > 12 { lcs.remove(1); }
        if cvs.len() > 8 { cvs.remove(1); }
    }
}

/// Circuit written plainly, and the same wrapped in namespaces (nested, renamed, through &mut): same constraints.
struct Wrapped<F: Field>(Circ<F>, u64);
impl<F: PrimeField> ConstraintSynthesizer<F> for Wrapped<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        match self.1 % 4 {
            0 => { let mut n = cs.ns(|| "outer"); let mut m = n.ns(|| "inner"); self.0.generate_constraints(&mut m) }
            1 => { let mut n = cs.ns(|| "x"); Ok({ self.0.generate_constraints(&mut n)? }) }
            2 => { let mut r: &mut CS = cs; self.0.generate_constraints(&mut r) }
            _ => { { let n = cs.ns(|| "empty"); drop(n); } let root = cs.get_root(); let mut n = root.ns(|| "after root"); self.0.generate_constraints(&mut n) }
        }
    }
}
fn record<F: PrimeField>(c: impl ConstraintSynthesizer<F>) -> Rcs<F> { let mut r = Rcs::new(); c.generate_constraints(&mut r).unwrap(); r }
fn namespaces(case: &Case) {
    let c = Circ::<ark_bls12_381::Fr>::random(case);
    let a = record(c.clone());
    let mut d = c.clone(); d.style ^= 1;
    let b = record(d);
    let w = record(Wrapped(c.clone(), case.below(4) as u64));
    let mut s = c.clone(); s.style = case.below(usize::MAX >> 1) as u64 * 2;
    let other = record(s);
    for (n, x) in [("namespace around allocations", &b), ("namespaces around the circuit", &w), ("another way of assembling the same combinations", &other)] {
        let same = a.vals == x.vals && a.is_input == x.is_input && a.cons.len() == x.cons.len() && a.cons.iter().zip(&x.cons).all(|(p, q)| p.0 == q.0 && p.1 == q.1 && p.2 == q.2);
        case.eval(&(n, c.shape_fp()), true); case.count(n);
        case.check(same, &format!("{} changes the constraints", n), || json!({"circuit": c.describe()}));
    }
    // the reference: evaluated as written down, without the builder
    let want: Vec<bool> = (0..c.cons.len()).map(|i| { let (x, y, z) = &c.cons[i]; c.eval(x) * c.eval(y) == c.eval(z) }).collect();
    case.check(want.iter().all(|x| *x) && a.violated().is_none(), "a satisfied circuit is recorded as violated", || json!({"circuit": c.describe()}));
}
/// Same circuit with and without namespaces and annotations: same keys and proofs, byte for byte.
fn same_bytes<S: Scheme>(case: &Case) {
    let c = Circ::<S::F>::random(case);
    let mut d = c.clone(); d.style ^= 1;
    let t = case.tape(); let t2 = case.tape();
    let run = |c: &Circ<S::F>| -> Result<Vec<u8>, String> { let pk = S::setup(c.blank(), &mut t.clone())?; let (_, p) = S::prove(&pk, c.clone(), &mut t2.clone())?; Ok(mutate::bytes(&p)) };
    let (a, b) = (sut(|| run(&c)), sut(|| run(&d)));
    case.eval(&(S::NAME, c.shape_fp()), true); case.count(&format!("{}: proof with and without namespaces", S::NAME));
    case.check(a == b, &format!("{}: namespaces change the proof", S::NAME), || json!({"circuit": c.describe()}));
}
/// Groth16 keys depend on the meaning of the combinations only.
fn same_key(case: &Case) {
    let c = Circ::<ark_bls12_381::Fr>::random(case);
    let t = case.tape(); let t2 = case.tape();
    let run = |style: u64| -> Result<(Vec<u8>, Vec<u8>), String> { let mut c = c.clone(); c.style = style; let pk = Groth16::setup(c.blank(), &mut t.clone())?; let (_, p) = Groth16::prove(&pk, c, &mut t2.clone())?; Ok((mutate::bytes(&pk.0), mutate::bytes(&p))) };
    let a = sut(|| run(c.style)); let s = c.style.rotate_left(17) ^ 0x5555; let b = sut(|| run(s));
    case.eval(&("groth16 styles", c.shape_fp(), s), true); case.count("groth16: key and proof under another assembly of the combinations");
    case.check(a == b, "groth16: key or proof depends on how a combination was assembled", || json!({"circuit": c.describe()}));
}
fn main() {
    let ctx = Ctx::new("C01", "one builder operation whose result is evaluated under three assignments, or one pair of differently assembled circuits; distinct by program prefix");
    ctx.run(vec![
        sc("builder programs/bls12-381", 2000, programs::<ark_bls12_381::Fr>),
        sc("builder programs/curve25519", 800, programs::<zkp_curve25519::Fr>),
        sc("namespaces", 600, namespaces),
        sc("same key/groth16", 60, same_key),
        sc("same bytes/groth16", 30, same_bytes::<Groth16>),
        sc("same bytes/bulletproofs", 20, same_bytes::<BpBls>),
        sc("same bytes/spartan", 10, same_bytes::<Nizk>),
        sc("same bytes/spartan snark", 6, same_bytes::<Snark>),
        sc("same bytes/marlin", 16, same_bytes::<Marlin>),
    ]);
    let _ = ark_bls12_381::Fr::one().is_zero();
    ctx.finish();
}
