//! C36: Marlin's polynomial commitments open to the committed polynomial's values only, within its degree bound.
use ark_bls12_381::{Bls12_381 as E, Fr, G1Affine, G1Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{One, PrimeField, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{Polynomial, UVPolynomial};
use serde_json::json;
use vh::circ::spec_f;
use vh::*;
use zkp_marlin::pc::*;

type Poly = LabeledPolynomial<'static, Fr>;
type Pc = PC<E>;
fn es<X: std::fmt::Debug>(e: X) -> String { format!("{:?}", e) }

struct Sys { pp: UniversalParams<E>, ck: CommitterKey<E>, vk: VerifierKey<E>, d: usize, whole: bool }
fn sys(c: &Case, whole: bool) -> Option<Sys> {
    let max = c.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32]);
    let d = if whole { max } else { c.range(1, max) };
    let r = sut(|| -> Result<_, String> { let pp = Pc::setup(max, &mut c.tape()).map_err(es)?; let (ck, vk) = Pc::trim(&pp, d).map_err(es)?; Ok((pp, ck, vk)) });
    match r { Sut::Val(Ok((pp, ck, vk))) => Some(Sys { pp, ck, vk, d, whole: d == max }), Sut::Val(Err(e)) => { c.violation("marlin pc: setup or trim fails", json!({"max": max, "degree": d, "error": e})); None } Sut::Panic(e) => { c.violation("marlin pc: setup or trim panics", json!({"max": max, "degree": d, "panic": e})); None } }
}
fn poly(c: &Case, max: usize) -> DensePolynomial<Fr> {
    let sp = c.pick(&[0, 30, 90]);
    let deg = match c.below(6) { 0 => 0, 1 | 2 => max, _ => c.below(max + 1) };
    let mut v: Vec<Fr> = (0..=deg).map(|_| spec_f(c, sp)).collect();
    if c.chance(1, 4) { let k = c.below(deg + 1); for x in v[..k].iter_mut() { *x = Fr::zero() } } // leading zeros
    DensePolynomial::from_coefficients_vec(v)
}
fn polys(c: &Case, s: &Sys, n: usize) -> Vec<Poly> {
    (0..n).map(|i| {
        let bound = if c.chance(1, 2) { Some(match c.below(4) { 0 => s.d, 1 => 1.min(s.d), _ => c.range(1.min(s.d), s.d) }) } else { None };
        let p = poly(c, bound.unwrap_or(s.d));
        // the blinding polynomial has to fit, too, under the bounded powers
        let cap = bound.unwrap_or(s.d).min(s.d);
        let hiding = if c.chance(1, 2) && cap >= 1 { Some(c.range(1, cap.min(3))) } else { None };
        LabeledPolynomial::new_owned(format!("{}{}", c.pick(&["p", "q", "a_row", ""]), i), p, bound, hiding)
    }).collect()
}
fn naive(c: &[Fr], g: &[G1Affine]) -> G1Projective { let mut a = G1Projective::zero(); for (x, b) in c.iter().zip(g) { a += b.mul(x.into_repr()); } a }
fn challenge(c: &Case) -> Fr { let mut t = c.tape(); if c.chance(1, 2) { Fr::from(u128::rand(&mut t)) } else { Fr::rand(&mut t) } }
fn shape(ps: &[Poly]) -> Vec<(usize, Option<usize>, Option<usize>)> { ps.iter().map(|p| (p.polynomial().coeffs.len(), p.degree_bound(), p.hiding_bound())).collect() }

struct Com { c: Vec<LabeledCommitment<E>>, r: Vec<Randomness<Fr>> }
fn commit(c: &Case, s: &Sys, ps: &[Poly]) -> Option<Com> {
    match sut(|| Pc::commit(&s.ck, ps, Some(&mut c.tape())).map_err(es)) {
        Sut::Val(Ok((k, r))) => Some(Com { c: k, r }),
        Sut::Val(Err(e)) => { c.violation("marlin pc: a polynomial within its bounds cannot be committed to", json!({"degree": s.d, "shape": es(shape(ps)), "error": e})); None }
        Sut::Panic(e) => { c.violation("marlin pc: committing panics", json!({"degree": s.d, "shape": es(shape(ps)), "panic": e})); None }
    }
}

fn honest(c: &Case) {
    let Some(s) = sys(c, c.chance(1, 2)) else { return };
    let ps = polys(c, &s, c.range(1, 5));
    let Some(k) = commit(c, &s, &ps) else { return };
    let d = || json!({"max": s.pp.max_degree(), "degree": s.d, "shape": es(shape(&ps))});
    // commitments are what they should be, computed naively from the powers
    for ((p, k), r) in ps.iter().zip(&k.c).zip(&k.r) {
        let want = naive(&p.polynomial().coeffs, &s.pp.powers_of_g) + naive(&r.rand.blinding_polynomial.coeffs, &s.pp.powers_of_gamma_g);
        c.check(k.commitment().comm.0 == want.into_affine(), "marlin pc: a commitment is not the sum of its terms", d);
        c.check(r.rand.is_hiding() == p.is_hiding(), "marlin pc: blinding and hiding bound disagree", d);
        c.check(k.degree_bound() == p.degree_bound() && k.commitment().shifted_comm.is_some() == p.degree_bound().is_some(), "marlin pc: degree bound and shifted commitment disagree", d);
        c.check(r.shifted_rand.as_ref().map_or(true, |x| x.is_hiding() == p.is_hiding()), "marlin pc: the shifted commitment is not blinded as its polynomial", d);
        c.check(k.label() == p.label(), "marlin pc: a commitment's label is not its polynomial's", d);
        if p.is_hiding() {
            let h = r.rand.blinding_polynomial.coeffs.len();
            c.check(h == p.hiding_bound().unwrap() + 1, "marlin pc: the blinding polynomial is not of the degree asked for", d);
            if let Some(x) = &r.shifted_rand { c.check(x.blinding_polynomial != r.rand.blinding_polynomial, "marlin pc: shifted and plain commitment share their blinding", d); }
        }
    }
    // single point
    let z = if c.chance(1, 4) { spec_f(c, 90) } else { Fr::rand(&mut c.tape()) };
    let ch = challenge(c);
    let vals: Vec<Fr> = ps.iter().map(|p| p.polynomial().evaluate(&z)).collect();
    let r = sut(|| { let pr = Pc::open(&s.ck, &ps, z, ch, &k.r).map_err(es)?; Pc::check(&s.vk, &k.c, z, vals.clone(), &pr, ch).map_err(es) });
    c.eval(&("single", shape(&ps), s.d, s.pp.max_degree()), true);
    c.check(r == Sut::Val(Ok(true)), "marlin pc: an honest opening is not accepted", || json!({"case": d(), "outcome": es(&r)}));
    // batches over several points
    let pts: Vec<Fr> = (0..c.range(1, 3)).map(|_| Fr::rand(&mut c.tape())).collect();
    let (mut q, mut ev) = (QuerySet::new(), Evaluations::new());
    for p in &ps { for z in &pts { if c.chance(2, 3) { q.insert((p.label().clone(), *z)); ev.insert((p.label().clone(), *z), p.evaluate(*z)); } } }
    let r = sut(|| { let pr = Pc::batch_open(&s.ck, &ps, &q, ch, &k.r).map_err(es)?; Pc::batch_check(&s.vk, &k.c, &q, &ev, &pr, ch).map_err(es) });
    c.eval(&("batch", shape(&ps), q.len(), pts.len(), s.d), !q.is_empty());
    c.count_n("queries opened in batches", q.len() as u64);
    c.check(r == Sut::Val(Ok(true)), "marlin pc: an honest batch opening is not accepted", || json!({"case": d(), "queries": q.len(), "outcome": es(&r)}));
}

fn refuse(c: &Case, what: &str, r: Sut<Result<bool, String>>, d: serde_json::Value) {
    let o = match &r { Sut::Val(Ok(true)) => "accept", Sut::Val(Ok(false)) => "reject", Sut::Val(Err(_)) => "error", Sut::Panic(_) => "panic" };
    c.count(&format!("{} -> {}", what, o));
    c.eval(&(what, format!("{}", d)), true);
    if o == "accept" { c.violation(&format!("marlin pc: accepted although {}", what), d); }
    else if o == "panic" { c.violation(&format!("marlin pc: panic when {}", what), json!({"case": d, "panic": es(&r)})); }
}

fn binding(c: &Case) {
    let Some(s) = sys(c, c.chance(1, 2)) else { return };
    let ps = polys(c, &s, c.range(1, 4));
    let Some(k) = commit(c, &s, &ps) else { return };
    let ch = challenge(c);
    let z = Fr::rand(&mut c.tape());
    let vals: Vec<Fr> = ps.iter().map(|p| p.polynomial().evaluate(&z)).collect();
    let Sut::Val(Ok(pr)) = sut(|| Pc::open(&s.ck, &ps, z, ch, &k.r).map_err(es)) else { return };
    let d = |w: &str| json!({"degree": s.d, "shape": es(shape(&ps)), "detail": w});
    let go = |k: &[LabeledCommitment<E>], z: Fr, v: Vec<Fr>, pr: &Proof<E>, ch: Fr| -> Sut<Result<bool, String>> { sut(|| Pc::check(&s.vk, k, z, v, pr, ch).map_err(es)) };
    let i = c.below(ps.len());
    let e = { let e: Fr = spec_f(c, 60); if e.is_zero() { Fr::one() } else { e } };
    let mut v = vals.clone(); v[i] += e;
    refuse(c, "a value is wrong", go(&k.c, z, v.clone(), &pr, ch), d(&format!("value {}", i)));
    // two values wrong so that their sum is right
    if ps.len() > 1 { let j = (i + 1) % ps.len(); v[j] -= e; refuse(c, "two values are wrong by opposite amounts", go(&k.c, z, v, &pr, ch), d("")); }
    // a combination of degree one has the same quotient everywhere
    let blind = ps.iter().any(|p| p.is_hiding());
    let top = ps.iter().map(|p| if p.polynomial().is_zero() { 0 } else { p.polynomial().degree() + p.degree_bound().map_or(0, |b| s.d - b) }).max().unwrap();
    if blind || top >= 2 { refuse(c, "the point is another", go(&k.c, z + e, vals.clone(), &pr, ch), d("")); }
    // nor does the challenge matter to parts that open to nothing
    let part = |p: &Poly, shift: usize| p.is_hiding() || (!p.polynomial().is_zero() && p.polynomial().degree() + shift > 0);
    let matters = ps.iter().enumerate().any(|(i, p)| (i > 0 && part(p, 0)) || p.degree_bound().map_or(false, |b| part(p, s.d - b)));
    if matters { refuse(c, "the opening challenge is another", go(&k.c, z, vals.clone(), &pr, ch + e), d("")); }
    // the proof
    if let Some((p, how)) = mutate::mutate_value(c, &mutate::Bls, &pr) { refuse(c, "the opening was altered", go(&k.c, z, vals.clone(), &p, ch), d(&how)); }
    { let mut p = pr.clone(); p.rand_v = match p.rand_v { Some(x) => { if x.is_zero() { Some(Fr::one()) } else { None } } None => Some(Fr::one()) }; refuse(c, "the opening's blinding value is missing or surplus", go(&k.c, z, vals.clone(), &p, ch), d("")); }
    // one commitment altered, missing its bound, or with another bound
    let alter = |f: &dyn Fn(&mut Commitment<E>) -> bool, b: &dyn Fn(Option<usize>) -> Option<usize>| -> Option<Vec<LabeledCommitment<E>>> {
        let mut x = k.c[i].commitment().clone(); if !f(&mut x) { return None }
        let mut v = k.c.clone(); v[i] = LabeledCommitment::new(k.c[i].label().clone(), x, b(k.c[i].degree_bound())); Some(v)
    };
    let g = G1Projective::rand(&mut c.tape()).into_affine();
    let same = |b: Option<usize>| b;
    if let Some(x) = alter(&|x| { x.comm.0 = (x.comm.0.into_projective() + g.into_projective()).into_affine(); true }, &same) { refuse(c, "a commitment is another", go(&x, z, vals.clone(), &pr, ch), d("")); }
    if let Some(x) = alter(&|x| match &mut x.shifted_comm { Some(y) => { y.0 = (y.0.into_projective() + g.into_projective()).into_affine(); true } None => false }, &same) { refuse(c, "a shifted commitment is another", go(&x, z, vals.clone(), &pr, ch), d("")); }
    if let Some(x) = alter(&|x| x.shifted_comm.take().is_some(), &same) { refuse(c, "a bounded commitment lacks its shifted part", go(&x, z, vals.clone(), &pr, ch), d("")); }
    if let Some(x) = alter(&|x| { if x.shifted_comm.is_some() { false } else { x.shifted_comm = Some(Comm(g)); true } }, &same) { refuse(c, "an unbounded commitment has a shifted part", go(&x, z, vals.clone(), &pr, ch), d("")); }
    if !vals[i].is_zero() {
        if let Some(b) = k.c[i].degree_bound() {
            for nb in [b.wrapping_sub(1), b + 1, s.d + 1, s.d, 0] { if nb != b && nb < usize::MAX { if let Some(x) = alter(&|_| true, &|_| Some(nb)) { refuse(c, "the degree bound is another", go(&x, z, vals.clone(), &pr, ch), d(&format!("{} for {}", nb, b))); } } }
        }
    }
    // a polynomial over its bound
    let b = c.range(0, s.d - 1);
    let p = DensePolynomial::from_coefficients_vec((0..b + 2).map(|_| { let x: Fr = spec_f(c, 20); if x.is_zero() { Fr::one() } else { x } }).collect());
    let lp = LabeledPolynomial::new_owned("p".into(), p, Some(b), None);
    let r = sut(|| Pc::commit(&s.ck, &[lp.clone()][..], Some(&mut c.tape())).map_err(es).map(|_| true));
    refuse(c, "a polynomial exceeds its degree bound", r, d(&format!("degree {} bound {}", b + 1, b)));
    let lp = LabeledPolynomial::new_owned("p".into(), lp.polynomial().clone(), Some(s.d + 1), None);
    refuse(c, "a degree bound exceeds the supported degree", sut(|| Pc::commit(&s.ck, &[lp.clone()][..], Some(&mut c.tape())).map_err(es).map(|_| true)), d(""));
    let mut v = vec![Fr::one(); s.d + 2]; v[0] = e;
    let lp = LabeledPolynomial::new_owned("p".into(), DensePolynomial::from_coefficients_vec(v), None, None);
    refuse(c, "a polynomial exceeds the supported degree", sut(|| Pc::commit(&s.ck, &[lp.clone()][..], Some(&mut c.tape())).map_err(es).map(|_| true)), d(""));
    refuse(c, "the key would support more than the reference string", sut(|| Pc::trim(&s.pp, s.pp.max_degree() + 1).map_err(es).map(|_| true)), d(""));
}

/// Forged commitments above the degree bound, by a prover who knows every power of the reference string.
fn over_bound(c: &Case) {
    let Some(s): Option<Sys> = sys(c, true) else { return };
    assert!(s.whole);
    if s.d < 2 { return }
    let b = c.range(0, s.d - 1);
    let deg = c.range(b + 1, s.d);
    let p: Vec<Fr> = (0..=deg).map(|_| { let x: Fr = spec_f(c, 20); if x.is_zero() { Fr::one() } else { x } }).collect();
    let z = Fr::rand(&mut c.tape());
    let ch = challenge(c);
    let v = DensePolynomial::from_coefficients_vec(p.clone()).evaluate(&z);
    let gs = &s.pp.powers_of_g;
    let comm = naive(&p, gs);
    let div = |x: &[Fr]| &DensePolynomial::from_coefficients_slice(x) / &DensePolynomial::from_coefficients_vec(vec![-z, Fr::one()]);
    // every shift of p that the string allows, p cut to the bound, cut from below, p itself, nothing
    let mut shifted: Vec<Vec<Fr>> = (0..=(s.d - deg)).map(|sh| { let mut x = vec![Fr::zero(); sh]; x.extend(&p); x }).collect();
    { let mut x = vec![Fr::zero(); s.d - b]; x.extend(&p[..=b]); shifted.push(x); }
    { let mut x = vec![Fr::zero(); s.d - b]; x.extend(&p[deg - b..]); shifted.push(x); }
    { let mut x = vec![Fr::zero(); s.d - b]; x.extend(&p); let over: Vec<Fr> = x.split_off(s.d + 1); for (k, y) in over.iter().enumerate() { x[k] += y; } shifted.push(x); } // wrapped around
    shifted.push(vec![]);
    for q in shifted {
        let sc = naive(&q, gs);
        // openings that claim what was committed
        let mut sum = p.clone(); if q.len() > sum.len() { sum.resize(q.len(), Fr::zero()) }
        for (x, y) in sum.iter_mut().zip(&q) { *x += ch * *y; }
        for w in [div(&sum), div(&p), div(&q)] {
            let pr = Proof::<E> { w: naive(&w.coeffs, gs).into_affine(), rand_v: None };
            let k = LabeledCommitment::new("p".into(), Commitment { comm: Comm(comm.into_affine()), shifted_comm: Some(Comm(sc.into_affine())) }, Some(b));
            refuse(c, "the committed polynomial exceeds its degree bound", sut(|| Pc::check(&s.vk, &[k][..], z, vec![v], &pr, ch).map_err(es)), json!({"degree": deg, "bound": b, "max": s.d, "shifted": q.len()}));
        }
    }
}

fn batches(c: &Case) {
    let Some(s) = sys(c, c.chance(1, 2)) else { return };
    let ps = polys(c, &s, c.range(2, 5));
    let Some(k) = commit(c, &s, &ps) else { return };
    let ch = challenge(c);
    let pts: Vec<Fr> = (0..c.range(1, 4)).map(|_| Fr::rand(&mut c.tape())).collect();
    let (mut q, mut ev) = (QuerySet::new(), Evaluations::new());
    for p in &ps { for z in &pts { if c.chance(3, 4) { q.insert((p.label().clone(), *z)); ev.insert((p.label().clone(), *z), p.evaluate(*z)); } } }
    if q.is_empty() { return }
    let Sut::Val(Ok(pr)) = sut(|| Pc::batch_open(&s.ck, &ps, &q, ch, &k.r).map_err(es)) else { return };
    let d = |w: &str| json!({"degree": s.d, "shape": es(shape(&ps)), "queries": q.len(), "points": pts.len(), "detail": w});
    let go = |q: &QuerySet<Fr>, ev: &Evaluations<Fr>, pr: &Vec<Proof<E>>| sut(|| Pc::batch_check(&s.vk, &k.c, q, ev, pr, ch).map_err(es));
    // every claimed value in turn
    for key in q.iter() { let mut e2 = ev.clone(); *e2.get_mut(key).unwrap() += Fr::one(); refuse(c, "one value of a batch is wrong", go(&q, &e2, &pr), d("")); }
    for i in 0..pr.len() {
        let mut p2 = pr.clone(); p2[i].w = (p2[i].w.into_projective() + G1Projective::prime_subgroup_generator()).into_affine();
        refuse(c, "one opening of a batch is altered", go(&q, &ev, &p2), d(""));
    }
    let mut p2 = pr.clone(); p2.pop(); refuse(c, "an opening of a batch is missing", go(&q, &ev, &p2), d(""));
    let mut p2 = pr.clone(); p2.push(pr[0].clone()); refuse(c, "a batch has a surplus opening", go(&q, &ev, &p2), d(""));
    if pr.len() > 1 { let mut p2 = pr.clone(); p2.swap(0, 1); if mutate::bytes(&p2[0]) != mutate::bytes(&p2[1]) { refuse(c, "two openings of a batch are exchanged", go(&q, &ev, &p2), d("")); } }
    let key = q.iter().nth(c.below(q.len())).unwrap().clone();
    let mut e2 = ev.clone(); e2.remove(&key); refuse(c, "a value of a batch is missing", go(&q, &e2, &pr), d(""));
    let mut q2 = q.clone(); q2.insert(("absent".into(), pts[0])); let mut e2 = ev.clone(); e2.insert(("absent".into(), pts[0]), Fr::one());
    refuse(c, "a batch names a polynomial that was not committed to", go(&q2, &e2, &pr), d(""));
    refuse(c, "a batch to open names an absent polynomial", sut(|| Pc::batch_open(&s.ck, &ps, &q2, ch, &k.r).map_err(es).map(|_| true)), d(""));
}

fn main() {
    let ctx = Ctx::new("C36", "a commitment opened and checked, honest or with one thing wrong; distinct by polynomials' shapes, what is wrong and the sizes of the keys");
    ctx.run(vec![sc("honest", 500, honest), sc("binding", 300, binding), sc("over the bound", 120, over_bound), sc("batches", 200, batches)]);
    ctx.finish();
}
