//! Scenarios shared by all rank-1 schemes.
use crate::circ::{Circ, Shape, Step, V};
use crate::ctx::*;
use crate::mutate;
use crate::schemes::Scheme;
use ark_ff::{Field, One, PrimeField, Zero};
use serde_json::json;

pub fn hexf<F: PrimeField>(f: &F) -> String {
    let mut s = String::new();
    for l in f.into_repr().as_ref().iter().rev() { s.push_str(&format!("{:016x}", l)); }
    let t = s.trim_start_matches('0').to_string();
    if t.is_empty() { "0".into() } else { t }
}

/// Honest run: key generation, proving, verification. Returns what is needed to go on.
pub fn honest<S: Scheme>(case: &Case, c: &Circ<S::F>) -> Option<(S::Pk, S::Vk, S::Proof)> {
    let fp = (S::NAME, c.shape_fp());
    let nontrivial = !c.cons.is_empty();
    let d = || json!({"scheme": S::NAME, "circuit": c.describe()});
    let pk = match sut(|| S::setup(c.blank(), &mut case.tape())) {
        Sut::Val(Ok(pk)) => pk,
        Sut::Val(Err(e)) => { case.eval(&fp, nontrivial); case.violation(&format!("{}: setup fails with {}", S::NAME, e), d()); return None; }
        Sut::Panic(p) => { case.eval(&fp, nontrivial); case.violation(&format!("{}: setup panics", S::NAME), json!({"panic": p, "case": d()})); return None; }
    };
    let (vk, proof) = honest_with::<S>(case, &pk, c)?;
    Some((pk, vk, proof))
}
pub fn honest_with<S: Scheme>(case: &Case, pk: &S::Pk, c: &Circ<S::F>) -> Option<(S::Vk, S::Proof)> {
    let fp = (S::NAME, c.shape_fp(), c.inputs.iter().map(hexf).collect::<Vec<_>>());
    let nontrivial = !c.cons.is_empty();
    let d = || json!({"scheme": S::NAME, "circuit": c.describe()});
    let (vk, proof) = match sut(|| S::prove(pk, c.clone(), &mut case.tape())) {
        Sut::Val(Ok(x)) => x,
        Sut::Val(Err(e)) => { case.eval(&fp, nontrivial); case.violation(&format!("{}: proving a satisfied circuit fails with {}", S::NAME, e), d()); return None; }
        Sut::Panic(p) => { case.eval(&fp, nontrivial); case.violation(&format!("{}: proving a satisfied circuit panics", S::NAME), json!({"panic": p, "case": d()})); return None; }
    };
    let v = verdict(|| S::verify(&vk, &proof, &c.inputs));
    case.eval(&fp, nontrivial);
    case.count(&format!("{}: honest proof -> {}", S::NAME, v.class()));
    case.sample(|| json!({"scheme": S::NAME, "verdict": v.class(), "circuit": c.describe()}));
    if !case.check(v.accepted(), &format!("{}: honest proof not accepted ({})", S::NAME, v.class()), || json!({"verdict": format!("{:?}", v), "case": d()})) { return None; }
    Some((vk, proof))
}

/// Honest run used as the starting point of an attack: trouble here belongs to the completeness property.
pub fn base<S: Scheme>(case: &Case, c: &Circ<S::F>) -> Option<(S::Pk, S::Vk, S::Proof)> {
    let r = sut(|| -> Result<_, String> {
        let pk = S::setup(c.blank(), &mut case.tape())?;
        let (vk, p) = S::prove(&pk, c.clone(), &mut case.tape())?;
        let ok = S::verify(&vk, &p, &c.inputs)?;
        if ok { Ok((pk, vk, p)) } else { Err("rejected".into()) }
    });
    match r { Sut::Val(Ok(x)) => Some(x), _ => { case.count(&format!("{}: no honest base proof", S::NAME)); None } }
}

fn attack<S: Scheme>(case: &Case, kind: &str, what: &str, vk: &S::Vk, p: &S::Proof, x: &[S::F], c: &Circ<S::F>) -> Verdict {
    let v = verdict(|| S::verify(vk, p, x));
    case.eval(&(S::NAME, kind, what, c.shape_fp(), mutate::bytes(p), x.iter().map(hexf).collect::<Vec<_>>()), true);
    case.count(&format!("{}: {} -> {}", S::NAME, kind, v.class()));
    if v.accepted() {
        case.violation(&format!("{}: accepted although {}", S::NAME, kind), json!({"alteration": what, "circuit": c.describe(), "proof_bytes": mutate::bytes(p).len(),
            "publics": x.iter().map(hexf).collect::<Vec<_>>()}));
    }
    v
}

pub fn random_circ<S: Scheme>(case: &Case) -> Circ<S::F> { Circ::random(case) }

pub fn small<S: Scheme>(case: &Case, n_in: usize) -> Circ<S::F> {
    let s = Shape { n_in, n_aux: case.range(2, 9), n_con: case.range(2, 9), max_terms: case.pick(&[1, 2, 3, 6]), special: 10, resolvable: false };
    Circ::with_shape(case, &s)
}

/// More than 255 public inputs, domains of 512 and more: honest run, then another statement and an unsatisfied run.
pub fn huge<S: Scheme>(case: &Case, attacks: bool) {
    let marlin = S::NAME == "marlin";
    let many = case.idx % 2 == 0;
    let n_in = if many { case.pick(&[254, 255, 256, 257, 300]) } else { case.range(1, 5) };
    let n_con = if marlin { case.pick(&[90, 120]) } else if many { case.pick(&[60, 130, 257]) } else if S::NAME == "groth16" { case.pick(&[511, 513, 1000, 1023, 1025]) } else { case.pick(&[257, 400, 511, 513]) };
    let s = Shape { n_in, n_aux: case.pick(&[3, 40, n_con]), n_con, max_terms: if marlin { 1 } else { 3 }, special: 20, resolvable: false };
    let c = Circ::<S::F>::with_shape(case, &s);
    case.count(&format!("{}: more than 250 inputs or constraints", S::NAME));
    if !attacks { honest::<S>(case, &c); return; }
    let Some((pk, vk, p)) = base::<S>(case, &c) else { return };
    for _ in 0..6 {
        let mut x = c.inputs.clone();
        match case.below(5) {
            0 => { let i = x.len() - 1; x[i] += S::F::one(); }
            1 if x.len() > 256 => { let i = case.range(255, x.len() - 1); x[i] += S::F::one(); }
            2 => { x.truncate(case.below(x.len())); }
            3 if x.len() > 1 => { let (i, j) = (case.below(x.len()), case.below(x.len())); x.swap(i, j); }
            _ => { let i = case.below(x.len()); x[i] += crate::circ::rand_f::<S::F>(case); }
        }
        if x != c.inputs { attack::<S>(case, "a public input differs", "large statement", &vk, &p, &x, &c); }
    }
    let Some((bad, viol)) = (0..20).find_map(|_| c.corrupt(case, true)).or_else(|| c.corrupt(case, false)) else { return };
    if let Sut::Val(Ok((vk2, p))) = sut(|| S::prove(&pk, bad.clone(), &mut case.tape())) { attack::<S>(case, "the assignment violates the circuit", &format!("violated constraints {:?} of {}", viol, c.cons.len()), &vk2, &p, &bad.inputs, &bad); }
}
/// A prover that uses an assignment violating the circuit.
pub fn unsatisfied<S: Scheme>(case: &Case) {
    let c = if case.idx % 16 == 7 { let s = Circ::<S::F>::large_shape(case); case.count("large circuits"); Circ::with_shape(case, &s) } else if case.chance(1, 2) { Circ::<S::F>::random(case) } else { let n = case.below(4); small::<S>(case, n) };
    let Some((pk, vk, _)) = base::<S>(case, &c) else { return };
    for aux_only in [true, false] {
        if let Some((bad, viol)) = c.corrupt(case, aux_only) {
            match sut(|| S::prove(&pk, bad.clone(), &mut case.tape())) {
                Sut::Val(Ok((vk2, p))) => {
                    attack::<S>(case, "the assignment violates the circuit", &format!("violated constraints {:?} of {}", viol, c.cons.len()), &vk2, &p, &bad.inputs, &bad);
                    attack::<S>(case, "the assignment violates the circuit", "key of an honest run", &vk, &p, &bad.inputs, &bad);
                    if bad.inputs != c.inputs { attack::<S>(case, "the proof is from an unsatisfied run of other inputs", "", &vk, &p, &c.inputs, &c); }
                }
                Sut::Val(Err(_)) => case.count(&format!("{}: prover refuses unsatisfied assignment", S::NAME)),
                Sut::Panic(_) => case.count(&format!("{}: prover aborts on unsatisfied assignment", S::NAME)),
            }
        }
    }
}

/// Exactly one constraint violated, for every constraint of the circuit in turn.
pub fn each_constraint<S: Scheme>(case: &Case) {
    let n = case.range(1, 3);
    let mut c = small::<S>(case, n);
    // pick a constraint and add to it a fresh witness that alone satisfies it; corrupting that witness violates only this one
    let k = case.below(c.cons.len());
    let z: S::F = crate::circ::rand_f(case);
    c.aux.push(z);
    let zi = c.aux.len() - 1;
    let at = c.steps.iter().position(|s| matches!(s, Step::Enforce(j) if *j == k)).unwrap();
    c.steps.insert(at, Step::Aux(zi));
    // a*b = c + 1*z - z_const*one
    c.cons[k].2.push((S::F::one(), V::Aux(zi)));
    c.cons[k].2.push((-z, V::One));
    // allocation order must follow indices
    let mut order: Vec<usize> = vec![]; for s in &c.steps { if let Step::Aux(i) = s { order.push(*i); } }
    let mut new_index = vec![0; order.len()]; for (pos, i) in order.iter().enumerate() { new_index[*i] = pos; }
    let ren = |v: V| if let V::Aux(i) = v { V::Aux(new_index[i]) } else { v };
    let old = c.aux.clone(); for (i, v) in old.iter().enumerate() { c.aux[new_index[i]] = *v; }
    for s in c.steps.iter_mut() { if let Step::Aux(i) = s { *i = new_index[*i]; } }
    for t in c.cons.iter_mut() { for l in [&mut t.0, &mut t.1, &mut t.2] { for e in l.iter_mut() { e.1 = ren(e.1); } } }
    let zi = new_index[zi];
    if c.first_violated().is_some() { return; }
    let Some((pk, _, _)) = base::<S>(case, &c) else { return };
    let mut bad = c.clone();
    bad.aux[zi] += &S::F::one();
    assert_eq!(bad.violated(), vec![k]);
    match sut(|| S::prove(&pk, bad.clone(), &mut case.tape())) {
        Sut::Val(Ok((vk2, p))) => { attack::<S>(case, "exactly one constraint is violated", &format!("constraint {} of {}", k, c.cons.len()), &vk2, &p, &bad.inputs, &bad); }
        _ => case.count(&format!("{}: prover refuses unsatisfied assignment", S::NAME)),
    }
}

/// Public inputs changed, permuted, dropped, appended.
pub fn publics<S: Scheme>(case: &Case) {
    let n = if case.idx % 8 == 5 { case.range(9, 70) } else { case.range(1, 8) };
    let c = small::<S>(case, n);
    // every input must actually matter, else a changed value is still a true statement
    let Some((_, vk, p)) = base::<S>(case, &c) else { return };
    let x = c.inputs.clone();
    for i in 0..n {
        if n > 12 && i > 0 && i + 1 < n && !case.chance(10, n) { continue; }
        let mut y = x.clone(); y[i] += &match case.below(3) { 0 => S::F::one(), 1 => -S::F::one(), _ => crate::circ::rand_f::<S::F>(case) };
        if y == x { continue; }
        attack::<S>(case, "a public input was changed", &format!("input {} of {}", i, n), &vk, &p, &y, &c);
        let mut y = x.clone(); y[i] = S::F::zero();
        if y != x { attack::<S>(case, "a public input was changed", &format!("input {} of {} zeroed", i, n), &vk, &p, &y, &c); }
    }
    if n >= 2 { let i = case.below(n - 1); let mut y = x.clone(); y.swap(i, i + 1); if y != x { attack::<S>(case, "public inputs were exchanged", &format!("{} and {}", i, i + 1), &vk, &p, &y, &c); }
        let mut y = x.clone(); y.rotate_left(1); if y != x { attack::<S>(case, "public inputs were exchanged", "rotated", &vk, &p, &y, &c); } }
    let mut y = x.clone(); y.pop(); attack::<S>(case, "a public input is missing", "last dropped", &vk, &p, &y, &c);
    let mut y = x.clone(); y.push(S::F::zero()); attack::<S>(case, "there is an extra public input", "zero appended", &vk, &p, &y, &c);
    let mut y = x.clone(); y.push(S::F::one()); attack::<S>(case, "there is an extra public input", "one appended", &vk, &p, &y, &c);
    let mut y = x.clone(); y.insert(0, S::F::one()); attack::<S>(case, "there is an extra public input", "one prepended", &vk, &p, &y, &c);
    let y = vec![S::F::zero(); 40 + n]; attack::<S>(case, "there is an extra public input", "forty zeros", &vk, &p, &y, &c);
    attack::<S>(case, "a public input is missing", "no inputs", &vk, &p, &[], &c);
    if n >= 2 { attack::<S>(case, "a public input is missing", "first dropped", &vk, &p, &x[1..], &c); }
    // trailing zeros of the statement are part of it
    let mut cz = c.clone(); cz.inputs.push(S::F::zero()); cz.steps.push(Step::In(n));
    if let Some((_, vk, p)) = base::<S>(case, &cz) {
        attack::<S>(case, "a public input is missing", "zero last input dropped", &vk, &p, &x, &cz);
        let mut y = cz.inputs.clone(); y[n] = S::F::one();
        attack::<S>(case, "an unconstrained public input was changed", "last input 0 -> 1", &vk, &p, &y, &cz);
    }
}

/// Every element of a proof changed in turn.
pub fn sweep<S: Scheme>(case: &Case) {
    let n = case.range(0, 3);
    let c = small::<S>(case, n);
    let Some((_, vk, p)) = base::<S>(case, &c) else { return };
    let nt = mutate::n_tokens(&p);
    for at in 0..nt {
        // large proofs: a random half of the elements per case
        if nt > 150 && case.chance(1, 2) { continue; }
        if let Some((q, d)) = mutate::mutate_at(case, S::codec(), &p, at) {
            let kind = d.split('@').next().unwrap().to_string();
            attack::<S>(case, &format!("a proof element was changed ({})", kind), &format!("token {} of {}: {}", at, nt, d), &vk, &q, &c.inputs, &c);
        }
    }
    for _ in 0..6 {
        if let Some((q, d)) = mutate::mutate_value(case, S::codec(), &p) {
            attack::<S>(case, "proof elements were exchanged or changed", &d, &vk, &q, &c.inputs, &c); }
    }
    for _ in 0..6 {
        if let Some((q, d)) = mutate::mutate_shape(case, &p) {
            attack::<S>(case, "a list in the proof was shortened or lengthened", &d, &vk, &q, &c.inputs, &c); }
    }
}

/// Proofs of one statement or run used for another; elements exchanged between proofs.
pub fn transplant<S: Scheme>(case: &Case) {
    let s = Circ::<S::F>::resolvable_shape(case);
    let c = Circ::<S::F>::with_shape(case, &s);
    let Some((pk, vk, p)) = base::<S>(case, &c) else { return };
    if let Some(c2) = c.resample(case) {
        if c2.inputs != c.inputs {
            if let Sut::Val(Ok((vk2, p2))) = sut(|| S::prove(&pk, c2.clone(), &mut case.tape())) {
                if verdict(|| S::verify(&vk2, &p2, &c2.inputs)).accepted() {
                    attack::<S>(case, "the proof belongs to another statement of the same circuit", "", &vk, &p, &c2.inputs, &c);
                    attack::<S>(case, "the proof belongs to another statement of the same circuit", "", &vk2, &p2, &c.inputs, &c);
                    mix::<S>(case, &vk, &p, &p2, &c, "statements");
                    if !S::HAS_SETUP {
                        attack::<S>(case, "the generators belong to another run", "", &vk2, &p, &c.inputs, &c);
                    }
                }
            }
        }
    }
    if let Sut::Val(Ok((_, p3))) = sut(|| S::prove(&pk, c.clone(), &mut case.tape())) { if S::HAS_SETUP { mix::<S>(case, &vk, &p, &p3, &c, "runs"); } }
    // another setup of the same circuit, and of a slightly different circuit
    let mut d = c.clone();
    let k = case.below(d.cons.len());
    d.cons[k].2.push((S::F::one(), V::One)); d.cons[k].2.push((-S::F::one(), V::One));
    let mut other = c.clone(); other.cons[k].2.push((S::F::one(), V::One));
    // `other` is unsatisfied by this assignment: the proof must not pass under its key
    for (kc, what) in [(&c, "fresh key of the same circuit"), (&other, "key of a circuit with one coefficient changed")] {
        if S::HAS_SETUP {
            if let Sut::Val(Ok(pk2)) = sut(|| S::setup(kc.blank(), &mut case.tape())) {
                if let Sut::Val(Ok((vk2, p2))) = sut(|| S::prove(&pk2, c.clone(), &mut case.tape())) {
                    if S::NAME != "marlin" || what.contains("changed") {
                        attack::<S>(case, "the key belongs to another setup", what, &vk2, &p, &c.inputs, &c);
                        attack::<S>(case, "the key belongs to another setup", what, &vk, &p2, &c.inputs, &c);
                    }
                    if what.contains("changed") { attack::<S>(case, "the key belongs to another circuit", what, &vk2, &p2, &c.inputs, &c); }
                }
            }
        }
    }
}
fn mix<S: Scheme>(case: &Case, vk: &S::Vk, p: &S::Proof, q: &S::Proof, c: &Circ<S::F>, of: &str) {
    let (e, f) = (mutate::enc(p), mutate::enc(q));
    if e.toks != f.toks { return; }
    for _ in 0..6 {
        // a run of tokens from the other proof, often a prefix or suffix
        let n = e.toks.len();
        let (i, j) = match case.below(3) { 0 => (0, case.range(1, n)), 1 => (case.below(n), n), _ => { let i = case.below(n); (i, case.range(i + 1, n)) } };
        let (a, b) = (e.toks[i].0, if j < n { e.toks[j].0 } else { e.bytes.len() });
        let m = mutate::splice(&e.bytes, a, b, &f.bytes[a..b]);
        if m == e.bytes || m == f.bytes { continue; }
        if let Some(r) = mutate::from_bytes::<S::Proof>(&m) {
            attack::<S>(case, &format!("parts come from proofs of different {}", of), &format!("tokens {}..{} of {}", i, j, n), vk, &r, &c.inputs, c);
        }
    }
}

pub fn soundness_scenarios<'a, S: Scheme>(scale: u64) -> Vec<Scenario<'a>> {
    let n = |k: &str| format!("{}/{}", S::NAME, k);
    vec![
        sc(&n("unsatisfied"), 8 * scale, unsatisfied::<S>),
        sc(&n("one-constraint"), 6 * scale, each_constraint::<S>),
        sc(&n("publics"), 5 * scale, publics::<S>),
        sc(&n("sweep"), 3 * scale, sweep::<S>),
        sc(&n("transplant"), 5 * scale, transplant::<S>),
        sc(&n("huge"), 6, |c: &Case| huge::<S>(c, true)),
    ]
}

/// Shapes at the edges, enumerated.
pub fn edge_shapes(zero_constraints: bool) -> Vec<Shape> {
    let mut v = vec![];
    for n_in in [0usize, 1, 2, 3, 4, 5, 7, 8] { for n_aux in [0usize, 1, 2, 3, 4, 7, 8] { for n_con in [0usize, 1, 2, 3, 4, 5, 8] {
        if n_con == 0 && !zero_constraints { continue; }
        v.push(Shape { n_in, n_aux, n_con, max_terms: 2, special: 30, resolvable: false });
    } } }
    v
}
pub fn completeness_scenarios<'a, S: Scheme>(n: u64, edges: bool, edge_n: u64) -> Vec<Scenario<'a>> {
    let nm = |k: &str| format!("{}/{}", S::NAME, k);
    let mut v = vec![
        sc(&nm("random"), n, |case: &Case| {
            let c = Circ::<S::F>::random(case);
            honest::<S>(case, &c);
        }),
        sc(&nm("large"), (n / 8).max(4), |case: &Case| {
            let s = Circ::<S::F>::large_shape(case);
            let c = Circ::<S::F>::with_shape(case, &s);
            case.count("large circuits");
            honest::<S>(case, &c);
        }),
        sc(&nm("huge"), 8, |c: &Case| huge::<S>(c, false)),
        sc(&nm("same-key-many-statements"), (n / 8).max(2), |case: &Case| {
            let s = Circ::<S::F>::resolvable_shape(case);
            let c = Circ::<S::F>::with_shape(case, &s);
            if let Some((pk, _, _)) = honest::<S>(case, &c) {
                for _ in 0..3 { if let Some(d) = c.resample(case) { honest_with::<S>(case, &pk, &d); case.count("same key, other assignment"); } }
            }
        }),
    ];
    if edges {
        v.push(sc(&nm("edge-shapes"), edge_n, |case: &Case| {
            let e = edge_shapes(S::NAME == "groth16");
            // a strided walk through the whole grid, offset by the seed
            let s = &e[((case.idx * 31 + case.ctx.seed * 7) % e.len() as u64) as usize];
            let c = Circ::<S::F>::with_shape(case, s);
            honest::<S>(case, &c);
        }));
    }
    v
}

/// Hostile proofs and inputs: the outcome must be a verdict.
pub fn hostile<S: Scheme>(case: &Case) {
    let n = case.range(0, 4);
    let c = small::<S>(case, n);
    let Some((_, vk, p)) = base::<S>(case, &c) else { return };
    let judge = |kind: &str, what: &str, v: Verdict, b: &[u8], t: std::time::Instant| {
        case.eval(&(S::NAME, kind, what.to_string(), b.to_vec()), true);
        case.count(&format!("{}: {} -> {}", S::NAME, kind, v.class()));
        if let Verdict::Panic(m) = &v { case.violation(&format!("{}: verification panics on {}", S::NAME, kind), json!({"what": what, "panic": m, "circuit": c.describe()})); }
        let ms = t.elapsed().as_millis();
        if ms > 60_000 { case.count("verification slower than 60 s"); }
    };
    for _ in 0..10 {
        if let Some((q, d)) = mutate::mutate_shape(case, &p) {
            let t = std::time::Instant::now();
            judge("a list of unexpected length", &d, verdict(|| S::verify(&vk, &q, &c.inputs)), &mutate::bytes(&q), t); }
        if let Some((q, d)) = mutate::mutate_value(case, S::codec(), &p) {
            let t = std::time::Instant::now();
            judge("a changed element", &d, verdict(|| S::verify(&vk, &q, &c.inputs)), &mutate::bytes(&q), t); }
    }
    let b = mutate::bytes(&p);
    for _ in 0..25 {
        let (g, d) = mutate::garble(case, &b);
        let t = std::time::Instant::now();
        let v = verdict(|| match S::Proof::deserialize_bytes(&g) { Some(q) => S::verify(&vk, &q, &c.inputs), None => Err("decode".into()) });
        let v = if v == Verdict::Error("\"decode\"".into()) { Verdict::Undecodable } else { v };
        judge("garbled bytes", &d, v, &g, t);
    }
    for m in [0usize, 1, 2, 3, 4, 5, 8, 9, 17, 64, 300] {
        if m == n { continue; }
        let y: Vec<S::F> = (0..m).map(|_| crate::circ::rand_f(case)).collect();
        let t = std::time::Instant::now();
        judge("a wrong number of public inputs", &format!("{} instead of {}", m, n), verdict(|| S::verify(&vk, &p, &y)), &mutate::bytes(&m.min(1)), t);
    }
}
trait DeBytes: Sized { fn deserialize_bytes(b: &[u8]) -> Option<Self>; }
impl<T: ark_serialize::CanonicalDeserialize> DeBytes for T {
    fn deserialize_bytes(b: &[u8]) -> Option<Self> { let mut r = b; T::deserialize(&mut r).ok() }
}
#[allow(unused)]
fn _u<F: Field>(_: F) {}

/// Run `f` with the repository's provers telling the lie `label` (compiled in with --cfg verif_hooks).
pub fn lying<T>(label: &str, param: usize, f: impl FnOnce() -> T) -> (T, usize) {
    use zkp_curve::verif_hooks as h;
    h::told();
    h::set(Some((label, param)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    h::set(None);
    let n = h::told().len();
    match r { Ok(v) => (v, n), Err(p) => std::panic::resume_unwind(p) }
}
/// A dishonest prover with a false witness that adapts one message so that all but one check pass.
pub fn dishonest<S: Scheme>(case: &Case, label: &str, param: usize, why: &str) {
    let n = case.below(3);
    let c = if case.chance(1, 2) { Circ::<S::F>::random(case) } else { small::<S>(case, n) };
    let Some((pk, _, _)) = base::<S>(case, &c) else { return };
    let Some((bad, viol)) = c.corrupt(case, false) else { return };
    let r = sut(|| lying(label, param, || S::prove(&pk, bad.clone(), &mut case.tape())));
    match r {
        Sut::Val((Ok((vk, p)), told)) => {
            if told == 0 { case.count(&format!("{}: lie {} not told", S::NAME, label)); return; }
            case.count(&format!("{}: lie {} told", S::NAME, label));
            attack::<S>(case, why, &format!("lie {} {}, violated {:?}", label, param, viol), &vk, &p, &bad.inputs, &bad);
        }
        _ => case.count(&format!("{}: dishonest prover produced no proof", S::NAME)),
    }
}
