//! C16, C17: the vector commitment, with the trapdoor recomputed from the setup tape so that
//! every value has an independent reference.
use crate::circ::{rand_f, spec_f};
use crate::ctx::*;
use crate::mutate::bytes;
use crate::r1cs_checks::hexf;
use ark_bls12_381::{Bls12_381 as E, Fr, G1Projective, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use serde_json::json;
use zkp_asvc::*;

pub struct Sys { pub n: usize, pub size: usize, pub w: Fr, pub p: Parameters<E>, pub tau: Fr, pub g1: G1Projective, pub g2: G2Projective }
pub fn sys(case: &Case) -> Option<Sys> {
    let n = if case.idx % 40 == 21 { case.pick(&[33, 63, 64, 65, 100, 127, 128]) } else { case.pick(&[1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 13, 16, 16, 24, 32]) };
    let tape = case.tape();
    let p = key_gen::<E, _>(n, &mut tape.clone()).expect("key_gen");
    let (a, b) = (&p.verification_key.powers_of_g1, &p.verification_key.powers_of_g2);
    let (g1, g2) = (a[0].into_projective(), b[0].into_projective());
    // the trapdoor is one of the draws, whichever comes first
    let fits = |t: &Fr| a[1].into_projective() == g1.mul(t.into_repr()) || b[1].into_projective() == g2.mul(t.into_repr());
    let before: [&[u8]; 8] = [&[], &[1], &[2], &[1, 2], &[2, 1], &[0], &[0, 1], &[0, 0]];
    let tau = before.iter().map(|b| {
        let mut r = tape.clone();
        for k in *b { match k { 0 => { Fr::rand(&mut r); } 1 => { G1Projective::rand(&mut r); } _ => { G2Projective::rand(&mut r); } } }
        Fr::rand(&mut r)
    }).find(fits);
    let Some(tau) = tau else { case.count("trapdoor not among the draws: not judged"); return None };
    let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    let w = match d { GeneralEvaluationDomain::Radix2(x) => x.group_gen, GeneralEvaluationDomain::MixedRadix(x) => x.group_gen };
    Some(Sys { n, size: d.size(), w, p, tau, g1, g2 })
}
impl Sys {
    fn x(&self, i: usize) -> Fr { self.w.pow([i as u64]) }
    /// value at tau of the polynomial through (x_i, v_i), by Lagrange's formula
    fn interp(&self, pts: &[(usize, Fr)], at: Fr) -> Fr {
        let mut s = Fr::zero();
        for (i, v) in pts { let (mut a, mut b) = (*v, Fr::one()); for (j, _) in pts { if i != j { a *= at - self.x(*j); b *= self.x(*i) - self.x(*j); } } s += a * b.inverse().unwrap(); }
        s
    }
    fn full(&self, v: &[Fr]) -> Vec<(usize, Fr)> { (0..self.size).map(|i| (i, v.get(i).copied().unwrap_or(Fr::zero()))).collect() }
    pub fn commit_ref(&self, v: &[Fr]) -> G1Projective { self.g1.mul(self.interp(&self.full(v), self.tau).into_repr()) }
    pub fn proof_ref(&self, v: &[Fr], pos: &[usize]) -> G1Projective {
        let phi = self.interp(&self.full(v), self.tau);
        let r = self.interp(&pos.iter().map(|i| (*i, v.get(*i).copied().unwrap_or(Fr::zero()))).collect::<Vec<_>>(), self.tau);
        let mut a = Fr::one(); for i in pos { a *= self.tau - self.x(*i); }
        self.g1.mul(((phi - r) * a.inverse().unwrap()).into_repr())
    }
    pub fn values(&self, case: &Case) -> Vec<Fr> { let sp = case.pick(&[0, 40, 90]); (0..self.n).map(|_| spec_f(case, sp)).collect() }
    pub fn subset(&self, case: &Case) -> Vec<usize> {
        let k = case.pick(&[1, 1, 2, 3, 4, self.n, self.n]).min(self.n);
        let mut all: Vec<usize> = (0..self.n).collect();
        for i in (1..all.len()).rev() { let j = case.below(i + 1); all.swap(i, j); }
        all.truncate(k); all
    }
    fn u32s(pos: &[usize]) -> Vec<u32> { pos.iter().map(|x| *x as u32).collect() }
    pub fn verify(&self, c: &Commitment<E>, vals: Vec<Fr>, pos: &[usize], p: &Proof<E>) -> Verdict {
        verdict(|| verify_pos(&self.p.verification_key, c, vals, Self::u32s(pos), p, self.w))
    }
}

pub fn history(case: &Case) {
    let Some(s) = sys(case) else { return };
    let mut v = s.values(case);
    let pk = &s.p.proving_key;
    let d = |what: &str| json!({"positions": s.n, "domain": s.size, "what": what});
    let mut c = match sut(|| commit(pk, v.clone()).unwrap()) { Sut::Val(c) => c, Sut::Panic(p) => { case.violation("commit panics", json!({"panic": p, "case": d("commit")})); return; } };
    let tracked: Vec<usize> = if s.n <= 8 { (0..s.n).collect() } else { (0..8).map(|_| case.below(s.n)).collect() };
    let mut proofs: Vec<Proof<E>> = tracked.iter().map(|i| prove_pos(pk, v.clone(), vec![*i as u32]).unwrap()).collect();
    let steps = if case.idx % 30 == 11 { case.range(20, 50) } else { case.range(1, 8) };
    let mut hist: Vec<(usize, String)> = vec![];
    for i in 0..s.n { let r = verdict(|| verify_upk(&s.p.verification_key, i as u32, &pk.update_keys[i], s.w)); case.eval(&("upk", s.n, i, hexf(&s.tau)), true); case.count(&format!("update key -> {}", r.class())); case.check(r.accepted(), "honest update key not accepted", || json!({"position": i, "verdict": format!("{:?}", r), "case": d("upk")})); if i > 12 { break; } }
    for step in 0..=steps {
        if step > 0 {
            let i = case.below(s.n);
            let delta = match case.below(6) { 0 => Fr::zero(), 1 => -v[i], 2 => Fr::one(), 3 => -Fr::one(), _ => rand_f(case) };
            // the length users know is the one they asked for
            let n = s.n;
            let (u, w) = (&pk.update_keys, s.w);
            let r = sut(|| { let c2 = update_commit(&c, delta, i as u32, &u[i], w, n).unwrap();
                let p2: Vec<Proof<E>> = tracked.iter().zip(&proofs).map(|(j, p)| update_proof(p, delta, *j as u32, i as u32, &u[*j], &u[i], w, n).unwrap()).collect(); (c2, p2) });
            match r { Sut::Val((a, b)) => { c = a; proofs = b; } Sut::Panic(p) => { case.violation("incremental update panics", json!({"panic": p, "case": d("update")})); return; } }
            v[i] += &delta;
            hist.push((i, hexf(&delta)));
        }
        let fp = (s.n, hist.clone(), hexf(&v[0]));
        let dd = |what: &str| json!({"positions": s.n, "domain": s.size, "what": what, "history": hist.iter().map(|(i, d)| format!("[{}] += {}", i, d)).collect::<Vec<_>>()});
        case.eval(&(&fp, "commitment"), step > 0); case.count("commitment compared with the trapdoor reference");
        if !case.check(c.commit.into_projective() == s.commit_ref(&v), if step == 0 { "commitment differs from the reference" } else { "updated commitment differs from the recomputed one" }, || dd("commitment")) { return; }
        let fresh = commit(pk, v.clone()).unwrap();
        if !case.check(fresh == c, "updated commitment differs from commit()", || dd("commit()")) { return; }
        for (j, p) in tracked.iter().zip(&proofs) {
            case.eval(&(&fp, "proof", j), step > 0); case.count("opening compared with the trapdoor reference");
            if !case.check(p.w.into_projective() == s.proof_ref(&v, &[*j]), if step == 0 { "opening differs from the reference" } else { "updated opening differs from the recomputed one" }, || dd(&format!("opening of {}", j))) { return; }
        }
        if step == steps || case.chance(1, 3) {
            let pos = s.subset(case);
            let vals: Vec<Fr> = pos.iter().map(|i| v[*i]).collect();
            let singles: Vec<Proof<E>> = pos.iter().map(|i| match tracked.iter().position(|t| t == i) { Some(k) => proofs[k].clone(), None => prove_pos(pk, v.clone(), vec![*i as u32]).unwrap() }).collect();
            let batch = sut(|| prove_pos(pk, v.clone(), Sys::u32s(&pos)).unwrap());
            let agg = sut(|| aggregate_proofs(Sys::u32s(&pos), singles.clone(), s.w).unwrap());
            let (batch, agg) = match (batch, agg) { (Sut::Val(a), Sut::Val(b)) => (a, b), (a, b) => { case.violation("batch opening or aggregation panics", json!({"batch": a.panicked(), "aggregate": b.panicked(), "case": dd("batch")})); return; } };
            case.eval(&(&fp, "batch", &pos), true); case.count(&format!("batch of {}", if pos.len() == s.size { "all positions".into() } else if pos.len() > 4 { "5 or more".to_string() } else { pos.len().to_string() }));
            case.check(batch.w.into_projective() == s.proof_ref(&v, &pos), "batch opening differs from the reference", || dd(&format!("batch {:?}", pos)));
            case.check(batch == agg, "aggregated openings differ from the batch opening", || dd(&format!("aggregate {:?}", pos)));
            let r = s.verify(&c, vals.clone(), &pos, &batch);
            case.count(&format!("batch opening -> {}", r.class()));
            case.check(r.accepted(), "honest batch opening not accepted", || json!({"verdict": format!("{:?}", r), "positions": pos, "case": dd("verify")}));
            let r = s.verify(&c, vals, &pos, &agg);
            case.check(r.accepted(), "honest aggregated opening not accepted", || json!({"verdict": format!("{:?}", r), "positions": pos, "case": dd("verify")}));
            for (j, p) in tracked.iter().zip(&proofs).take(3) {
                let r = s.verify(&c, vec![v[*j]], &[*j], p);
                case.count(&format!("single opening -> {}", r.class()));
                case.check(r.accepted(), "honest opening not accepted", || json!({"verdict": format!("{:?}", r), "position": j, "case": dd("verify")}));
            }
            case.sample(|| json!({"vector length": s.n, "updates": hist.len(), "batch": pos, "verdict": "accept"}));
        }
    }
}

pub fn binding(case: &Case) {
    let Some(s) = sys(case) else { return };
    let v = s.values(case);
    let pk = &s.p.proving_key;
    let made = sut(|| { let c = commit(pk, v.clone()).unwrap(); let pos = s.subset(case); let p = prove_pos(pk, v.clone(), Sys::u32s(&pos)).unwrap(); (c, pos, p) });
    let (c, pos, p) = match made { Sut::Val(x) => x, _ => { case.count("no honest base"); return; } };
    let vals: Vec<Fr> = pos.iter().map(|i| v[*i]).collect();
    if !s.verify(&c, vals.clone(), &pos, &p).accepted() { case.count("no honest base"); return; }
    let at = |i: usize| v.get(i).copied().unwrap_or(Fr::zero());
    let try_ = |kind: &str, c: &Commitment<E>, vals: Vec<Fr>, pos: &[usize], p: &Proof<E>| {
        let r = s.verify(c, vals.clone(), pos, p);
        case.eval(&(kind, s.n, pos.to_vec(), vals.iter().map(hexf).collect::<Vec<_>>(), bytes(&p.w)), true);
        case.count(&format!("{} -> {}", kind, r.class()));
        let d = || json!({"positions": pos, "vector length": s.n, "domain": s.size, "verdict": format!("{:?}", r)});
        case.check(!r.accepted(), &format!("accepts an opening with {}", kind), d);
        case.check(!matches!(r, Verdict::Panic(_)), &format!("panics on an opening with {}", kind), d);
        case.sample(|| json!({"alteration": kind, "verdict": r.class(), "positions": pos, "vector length": s.n}));
    };
    // values
    for _ in 0..2 {
        let mut x = vals.clone(); let i = case.below(x.len()); let d: Fr = rand_f(case); x[i] += match case.below(3) { 0 => Fr::one(), 1 => -Fr::one(), _ => d };
        try_("a changed value", &c, x, &pos, &p);
    }
    if pos.len() > 1 {
        let i = case.below(pos.len()); let j = (i + 1 + case.below(pos.len() - 1)) % pos.len();
        if vals[i] != vals[j] {
            let mut x = vals.clone(); x.swap(i, j); try_("two values exchanged", &c, x, &pos, &p);
            let mut q = pos.clone(); q.swap(i, j); try_("two positions exchanged", &c, vals.clone(), &q, &p);
        }
        let mut x = vals.clone(); let d: Fr = rand_f(case); x[i] += d; x[j] -= d; try_("two values changed by opposite amounts", &c, x, &pos, &p);
    }
    // positions
    for _ in 0..2 {
        let i = case.below(pos.len()); let j = case.below(s.size); let mut q = pos.clone();
        if !pos.contains(&j) { q[i] = j; let x: Vec<Fr> = q.iter().map(|k| at(*k)).collect();
            // the values may even be the true ones of the other positions: this proof is not for them
            if s.proof_ref(&v, &q) != p.w.into_projective() || x != vals { try_("a changed position", &c, vals.clone(), &q, &p); }
            if s.proof_ref(&v, &q) != p.w.into_projective() { try_("another position and its value", &c, x, &q, &p); } }
    }
    { let i = case.below(pos.len()); let k = case.range(1, 3); let mut q = pos.clone(); q[i] += k * s.size; try_("a position beyond the vector", &c, vals.clone(), &q, &p); }
    { let mut q = pos.clone(); let i = case.below(q.len()); q.push(q[i]); let mut x = vals.clone(); let d = x[i]; x.push(if case.chance(1, 2) { d } else { rand_f(case) }); try_("a position repeated", &c, x, &q, &p); }
    // lengths
    { let mut x = vals.clone(); x.push(rand_f(case)); try_("a surplus value", &c, x, &pos, &p); }
    { let mut x = vals.clone(); x.push(Fr::zero()); try_("a surplus zero value", &c, x, &pos, &p); }
    { let mut x = vals.clone(); let last = x.pop().unwrap(); try_("a missing value", &c, x.clone(), &pos, &p);
      // chosen so that the missing value would not be noticed if it counted as zero
      let mut u = v.clone(); u[*pos.last().unwrap()] = Fr::zero(); let c0 = commit(pk, u.clone()).unwrap(); let p0 = prove_pos(pk, u, Sys::u32s(&pos)).unwrap(); let _ = last;
      try_("a missing zero value", &c0, x, &pos, &p0); }
    { let mut q = pos.clone(); q.pop(); if !q.is_empty() { try_("a missing position", &c, vals.clone(), &q, &p); } }
    try_("no values", &c, vec![], &pos, &p);
    { let free: Vec<usize> = (0..s.size).filter(|i| !pos.contains(i)).collect();
      if !free.is_empty() { let mut q = pos.clone(); q.push(free[case.below(free.len())]);
        let (w0, w1) = (s.proof_ref(&v, &pos), s.proof_ref(&v, &q)); if w0 != w1 { try_("a surplus position", &c, vals.clone(), &q, &p); } } }
    // proof, commitment, time
    let r1 = G1Projective::rand(&mut case.tape());
    for (k, w) in [("its proof replaced", r1), ("its proof negated", -p.w.into_projective()), ("its proof doubled", p.w.into_projective().double()), ("the identity as proof", G1Projective::zero()), ("its proof shifted", p.w.into_projective() + s.g1)] {
        if w != p.w.into_projective() { try_(k, &c, vals.clone(), &pos, &Proof { w: w.into_affine() }); } }
    for (k, w) in [("another commitment", r1), ("its commitment negated", -c.commit.into_projective()), ("the identity as commitment", G1Projective::zero()), ("its commitment shifted", c.commit.into_projective() + s.g1)] {
        if w != c.commit.into_projective() { try_(k, &Commitment { commit: w.into_affine() }, vals.clone(), &pos, &p); } }
    let i = case.below(s.n); let mut delta: Fr = rand_f(case); if delta.is_zero() { delta = Fr::one(); }
    let mut nv = v.clone(); nv[i] += delta;
    let nc = Commitment::<E> { commit: s.commit_ref(&nv).into_affine() };
    let np = Proof::<E> { w: s.proof_ref(&nv, &pos).into_affine() };
    let nvals: Vec<Fr> = pos.iter().map(|k| nv[*k]).collect();
    if np != p || nvals != vals { try_("the proof and values from before an update", &nc, vals.clone(), &pos, &p); }
    if np != p { try_("the proof from before an update", &nc, nvals.clone(), &pos, &p); }
    try_("the commitment from before an update", &c, nvals.clone(), &pos, &np);
    if nvals != vals { try_("values from before an update", &nc, vals.clone(), &pos, &np); }
    // dishonest openings: whatever single equation part a forger may hope is unused
    { let mut x = vals.clone(); x[0] += Fr::one();
      let phi = s.interp(&s.full(&v), s.tau); let _ = phi;
      // quotient computed with the false remainder on a perturbed polynomial
      let mut u = v.clone(); u[pos[0]] += Fr::one();
      try_("a proof made for another vector", &c, x, &pos, &Proof { w: s.proof_ref(&u, &pos).into_affine() }); }
}

pub fn update_keys(case: &Case) {
    let Some(s) = sys(case) else { return };
    let pk = &s.p.proving_key;
    let i = case.below(s.n);
    let u = &pk.update_keys[i];
    let ver = |i: usize, u: &UpdateKey<E>| verdict(|| verify_upk(&s.p.verification_key, i as u32, u, s.w));
    if !ver(i, u).accepted() { case.count("no honest base"); return; }
    let try_ = |kind: &str, i: usize, u: &UpdateKey<E>| {
        let r = ver(i, u);
        case.eval(&(kind, s.n, i, bytes(&u.ai), bytes(&u.ui)), true);
        case.count(&format!("update key: {} -> {}", kind, r.class()));
        let d = || json!({"position": i, "domain": s.size, "verdict": format!("{:?}", r)});
        case.check(!r.accepted(), &format!("accepts an update key with {}", kind), d);
        case.check(!matches!(r, Verdict::Panic(_)), &format!("panics on an update key with {}", kind), d);
        case.sample(|| json!({"alteration of update key": kind, "verdict": r.class(), "domain": s.size}));
    };
    let r = G1Projective::rand(&mut case.tape());
    let (a, b) = (u.ai.into_projective(), u.ui.into_projective());
    let mk = |a: G1Projective, b: G1Projective| UpdateKey::<E> { ai: a.into_affine(), ui: b.into_affine() };
    for (k, x) in [("a_i replaced", r), ("a_i negated", -a), ("a_i shifted", a + s.g1), ("a_i the identity", G1Projective::zero())] { if x != a { try_(k, i, &mk(x, b)); } }
    for (k, x) in [("u_i replaced", r), ("u_i negated", -b), ("u_i shifted", b + s.g1), ("u_i the identity", G1Projective::zero())] { if x != b { try_(k, i, &mk(a, x)); } }
    if a != b { try_("its parts exchanged", i, &mk(b, a)); }
    if s.size > 1 {
        let j = (i + 1 + case.below(s.size - 1)) % s.size;
        try_("another position's parts", i, &pk.update_keys[j]);
        try_("another position's a_i", i, &mk(pk.update_keys[j].ai.into_projective(), b));
        try_("another position's u_i", i, &mk(a, pk.update_keys[j].ui.into_projective()));
    }
    try_("a position beyond the vector", i + s.size * case.range(1, 3), u);
    // a wrong a_i together with the u_i that fits it (needs the trapdoor: only the first equation can tell)
    let k: Fr = rand_f(case); let a2 = a.mul(k.into_repr());
    let l2 = a2.mul((s.x(i) * Fr::from(s.size as u64).inverse().unwrap()).into_repr());
    let u2 = (l2 - s.g1).mul((s.tau - s.x(i)).inverse().unwrap().into_repr());
    if a2 != a { try_("a wrong a_i and the u_i that fits it", i, &mk(a2, u2)); }
    // wrong parts whose errors in the two equations cancel each other in a combination with fixed coefficients, or leave
    // one equation alone (a verifier that merges its equations must do so with a weight the forger does not know)
    let d = s.tau - s.x(i); let c = s.x(i) * Fr::from(s.size as u64).inverse().unwrap();
    for (s1, s2) in [(1i64, 1i64), (1, -1), (0, 1), (1, 2), (2, 1), (1, 0)] {
        let f = |v: i64| if v < 0 { -Fr::from((-v) as u64) } else { Fr::from(v as u64) };
        // s1 * d * x + s2 * (c * x - d * y) = 0
        let (x, y) = if s2 == 0 { (Fr::zero(), k) } else { (k, (f(s1) * d * k + f(s2) * c * k) / (f(s2) * d)) };
        if d.is_zero() || (x.is_zero() && y.is_zero()) { continue; }
        try_(&format!("errors that cancel in {} times the first and {} times the second equation", s1, s2), i, &mk(a + s.g1.mul(x.into_repr()), b + s.g1.mul(y.into_repr())));
    }
}
