//! C32: challenges bind the statement and everything said before them.
//! A verification runs with the transcripts logged (a copy of merlin that keeps a log; the digest PLONK is
//! given), then once per part of proof and statement with that part altered: the challenges drawn after the
//! part entered the protocol must differ. `c32 --table` rewrites the reviewed table of which challenge is the
//! first to depend on which part.
use ark_ff::{to_bytes, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize as De, CanonicalSerialize as Se};
use merlin::log::{capture, Event};
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use vh::{args, circ::*, layered as lay, layered::LScheme, mutate, plonk, r1cs_checks, schemes::*, *};
use zkp_curve25519::Curve25519 as C25;
type E = ark_bls12_381::Bls12_381;
type PlonkFr = ark_bls12_381::Fr;

/// What a run absorbed and drew.
#[derive(Clone, Default)]
struct Obs { drawn: Vec<Vec<u8>>, said: Vec<(usize, Vec<u8>)>, ok: bool }
fn watch(f: impl FnOnce() -> bool) -> Obs {
    let (v, log) = capture(|| sut(f));
    let mut o = Obs { ok: matches!(v, Sut::Val(true)), ..Default::default() };
    for e in log { match e { Event::Challenge(_, b) => o.drawn.push(b), Event::Append(_, b) => o.said.push((o.drawn.len(), b)) } }
    o
}
fn watch_digest(f: impl FnOnce() -> bool) -> Obs { let (v, s) = plonk::seeds(|| sut(f)); Obs { ok: matches!(v, Sut::Val(true)), drawn: s, said: vec![] } }
/// A part: how it may look in the transcript, and the run with the part altered.
struct Part<'a> { name: String, looks: Vec<Vec<u8>>, from: usize, run: Box<dyn Fn() -> Option<Obs> + 'a> }
/// (first challenge seen to depend on the part, first challenge drawn after the part was said); -1: none
type Entry = (i64, i64);
struct Layout { challenges: usize, bytes: usize, parts: BTreeMap<String, Entry> }
fn table() -> &'static BTreeMap<String, Layout> {
    static T: std::sync::OnceLock<BTreeMap<String, Layout>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../tables/c32.json")).unwrap();
        v.as_object().unwrap().iter().map(|(k, x)| (k.clone(), Layout { challenges: x["challenges"].as_u64().unwrap() as usize, bytes: x["bytes"].as_u64().unwrap() as usize,
            parts: x["parts"].as_object().unwrap().iter().map(|(p, e)| (p.clone(), (e[0].as_i64().unwrap(), e[1].as_i64().unwrap()))).collect() })).collect()
    })
}
static REC: Mutex<Option<BTreeMap<String, Vec<Layout>>>> = Mutex::new(None);
fn trivial(b: &[u8]) -> bool { b.iter().filter(|x| **x != 0).count() < 12 }
/// the first challenge drawn after one of the looks was said
fn said(base: &Obs, looks: &[Vec<u8>]) -> i64 {
    if looks.is_empty() { return -1; }
    for (k, b) in &base.said { if *k < base.drawn.len() && looks.iter().any(|l| b.len() >= l.len() && b.windows(l.len()).any(|w| w == &l[..])) { return *k as i64; } }
    -1
}
fn differs(base: &Obs, o: &Obs, from: usize) -> i64 { (from..base.drawn.len().min(o.drawn.len())).find(|i| base.drawn[*i] != o.drawn[*i]).map_or(-1, |i| i as i64) }

fn study(c: &Case, scheme: &str, key: &str, base: &Obs, parts: &[Part], limit: usize, what: &dyn Fn() -> Value) {
    let recording = REC.lock().unwrap().is_some();
    if recording {
        let p: BTreeMap<String, Entry> = parts.iter().map(|p| (p.name.clone(), ((p.run)().map_or(-1, |o| differs(base, &o, p.from)), if p.looks.iter().any(|l| trivial(l)) { -2 } else { said(base, &p.looks) }))).collect();
        for q in parts { let e = p[&q.name]; if e.0 < 0 && e.1 < 0 && q.looks.first().map_or(true, |l| l.len() != 32) { eprintln!("not bound: {} {} ({} bytes)", key, q.name, q.looks.first().map_or(0, |l| l.len())); } }
        REC.lock().unwrap().as_mut().unwrap().entry(key.into()).or_default().push(Layout { challenges: base.drawn.len(), bytes: base.drawn.iter().map(|d| d.len()).sum(), parts: p });
        return;
    }
    let Some(l) = table().get(key) else { c.count(&format!("{}: layout not in the table", scheme)); return };
    c.eval(&(key, base.drawn.concat()), true);
    for (i, d) in base.drawn.iter().enumerate() { if !c.check(d.len() >= 16, &format!("{}: a challenge has fewer than 128 bits", scheme), || json!({"challenge": i, "bytes": d.len(), "layout": key})) { return; } }
    c.count_n(&format!("{}: challenges seen", scheme), base.drawn.len() as u64);
    for i in 0..base.drawn.len() { for j in 0..i { if base.drawn[i] == base.drawn[j] && !scheme.starts_with("plonk") { c.count(&format!("{}: a challenge repeats", scheme)); } } }
    if base.drawn.len() < l.challenges && base.drawn.iter().map(|d| d.len()).sum::<usize>() < l.bytes { c.violation(&format!("{}: challenges of the protocol are not drawn", scheme), json!({"drawn": base.drawn.len(), "expected": l.challenges, "layout": key, "what": what()})); return; }
    if base.drawn.len() != l.challenges { c.count(&format!("{}: other number of challenges (not comparable)", scheme)); return; }
    if parts.iter().filter(|p| p.name.starts_with("proof")).count() != l.parts.keys().filter(|k| k.starts_with("proof")).count() { c.count(&format!("{}: other proof layout (not comparable)", scheme)); return; }
    let mut order: Vec<usize> = (0..parts.len()).collect();
    for i in (1..order.len()).rev() { order.swap(i, c.below(i + 1)); }
    let mut late = vec![];
    for i in order.into_iter().take(limit) {
        let p = &parts[i];
        let Some((k, a)) = l.parts.get(&p.name).cloned() else { continue };
        if k < 0 && a < 0 { continue; }
        let mut seen = false;
        if k >= 0 { if let Some(o) = (p.run)() {
            let k = k as usize;
            if o.drawn.len() > k { seen = true; if o.drawn[k] == base.drawn[k] { late.push(json!({"part": p.name, "challenge": k, "first that differs": differs(base, &o, p.from), "drawn": o.drawn.len()})); } else { c.count(&format!("{}: a part altered, the challenges after it differ", scheme)); } }
        } }
        // the altered run ended before the challenge: look at what was said in the honest one
        if !seen && a >= 0 && !p.looks.iter().any(|l| trivial(l)) { seen = true; let b = said(base, &p.looks); if b < 0 || b > a { late.push(json!({"part": p.name, "expected to be said before challenge": a, "said before": b})); } else { c.count(&format!("{}: a part said before the challenges after it", scheme)); } }
        if !seen { c.count(&format!("{}: a part whose effect was not observable", scheme)); }
    }
    c.sample(|| json!({"scheme": scheme, "challenges": base.drawn.len(), "parts": parts.len(), "late": late.len()}));
    if !late.is_empty() { c.violation(&format!("{}: a challenge does not depend on what was said before it", scheme), json!({"layout": key, "parts": late.iter().take(6).collect::<Vec<_>>(), "of": late.len(), "what": what()})); }
}
/// How the bytes of one element may look in a transcript.
fn looks_bls(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![t.to_vec()];
    if t.len() == 48 { if let Some(p) = mutate::from_bytes::<ark_bls12_381::G1Affine>(t) { v.push(to_bytes![p].unwrap()); let mut u = vec![]; ark_serialize::CanonicalSerialize::serialize_uncompressed(&p, &mut u).unwrap(); v.push(u); } }
    // half of a G2 element: its last byte carries the flags of the encoding
    if t.len() == 48 { let mut u = t.to_vec(); u[47] &= 0x3f; v.push(u); }
    v
}
fn looks_c25(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![t.to_vec()];
    if t.len() == 32 { if let Some(p) = mutate::from_bytes::<zkp_curve25519::Curve25519Point>(t) { v.push(to_bytes![p].unwrap()); } }
    v
}
fn looks(bls: bool, t: &[u8]) -> Vec<Vec<u8>> { if t.len() < 32 { vec![] } else if bls { looks_bls(t) } else { looks_c25(t) } }
/// Each element of an object in turn, altered.
fn elements<'a, T: Se + De>(c: &'a Case<'a>, name: &str, codec: &'static dyn mutate::Codec, t: &'a T, bls: bool, from: usize, run: Rc<dyn Fn(&T) -> Obs + 'a>) -> Vec<Part<'a>> {
    let e = mutate::enc(t);
    (0..e.toks.len()).filter(|i| e.toks[*i].1 >= 32).map(|i| {
        let (o, l) = e.toks[i]; let run = run.clone();
        Part { name: format!("{} {}", name, i), looks: looks(bls, &e.bytes[o..o + l]), from, run: Box::new(move || mutate::mutate_at(c, codec, t, i).map(|(q, _)| run(&q))) }
    }).collect()
}
/// Each value of a list in turn, altered.
fn values<'a, F: PrimeField>(c: &'a Case<'a>, name: &str, x: &'a [F], run: Rc<dyn Fn(&[F]) -> Obs + 'a>) -> Vec<Part<'a>> {
    (0..x.len()).map(|i| { let run = run.clone(); Part { name: format!("{} {}", name, i), looks: vec![mutate::bytes(&x[i])], from: 0, run: Box::new(move || {
        let mut y = x.to_vec(); y[i] = match c.below(3) { 0 => x[i] + F::one(), 1 => x[i] - F::one(), _ => rand_f(c) }; if y == x { y[i] += F::one(); } Some(run(&y)) }) } }).collect()
}
fn fixed<'a>(c: &Case<'a>, name: &str, k: u64) -> Case<'a> {
    use sha2::{Digest, Sha256}; let mut s = [0u8; 32]; s.copy_from_slice(&Sha256::digest(format!("c32 {} {}", name, k).as_bytes()));
    Case { ctx: c.ctx, scenario: c.scenario.clone(), idx: c.idx, rng: RefCell::new(ChaCha20Rng::from_seed(s)) }
}
const SHAPES: u64 = 4;
/// What else the verifier is given.
trait Keyed: Scheme { const BLS: bool; fn key_parts<'a>(c: &'a Case<'a>, vk: &'a Self::Vk, run: Rc<dyn Fn(&Self::Vk) -> Obs + 'a>) -> Vec<Part<'a>>; }
fn digest_part<'a, F: PrimeField>(name: &str, h: F, run: impl Fn(F) -> Obs + 'a) -> Part<'a> { Part { name: format!("key {}", name), looks: vec![mutate::bytes(&h)], from: 0, run: Box::new(move || Some(run(h + F::one()))) } }
macro_rules! bp { ($s:ty, $g:ty, $b:literal) => { impl Keyed for $s { const BLS: bool = $b;
    fn key_parts<'a>(c: &'a Case<'a>, vk: &'a Self::Vk, run: Rc<dyn Fn(&Self::Vk) -> Obs + 'a>) -> Vec<Part<'a>> {
        let r2 = run.clone();
        let mut v = elements(c, "key generators", Self::codec(), &vk.0, $b, 0, Rc::new(move |q: &zkp_bulletproofs::Generators<$g>| run(&Arc::new((mutate::from_bytes(&mutate::bytes(q)).unwrap(), mutate::from_bytes(&mutate::bytes(&vk.1)).unwrap())))));
        let (rows, cols) = (vk.1.CL.len(), vk.1.CL.first().map_or(0, |r| r.len()));
        for m in 0..3 { for i in 0..rows { for j in 0..cols { if rows * cols > 500 && (i * 7 + j) % 97 != 0 { continue; } let run = r2.clone(); v.push(Part { name: format!("key circuit {} {} {}", ["L", "R", "O"][m], i, j), looks: vec![], from: 0, run: Box::new(move || {
            let mut k: (zkp_bulletproofs::Generators<$g>, zkp_bulletproofs::R1csCircuit<$g>) = (mutate::from_bytes(&mutate::bytes(&vk.0)).unwrap(), mutate::from_bytes(&mutate::bytes(&vk.1)).unwrap());
            { let r: &mut zkp_bulletproofs::R1csCircuit<$g> = &mut k.1; let (d, t) = match m { 0 => (&mut r.CL, &mut r.CL_T), 1 => (&mut r.CR, &mut r.CR_T), _ => (&mut r.CO, &mut r.CO_T) };
              d[i][j] += <Self as Scheme>::F::one(); let e = d[i][j]; if e.is_zero() { t.remove(&(i as u32, j as u32)); } else { t.insert((i as u32, j as u32), e); } }
            Some(run(&Arc::new(k))) }) }); } } }
        v
    } } } }
bp!(BpBls, E, true); bp!(Bp25519, C25, false);
macro_rules! nizk { ($s:ty, $b:literal) => { impl Keyed for $s { const BLS: bool = $b;
    fn key_parts<'a>(_: &'a Case<'a>, k: &'a Self::Vk, run: Rc<dyn Fn(&Self::Vk) -> Obs + 'a>) -> Vec<Part<'a>> {
        let again = move || mutate::from_bytes(&mutate::bytes(&k.vk)).unwrap(); let r2 = run.clone();
        vec![digest_part("circuit digest", k.rh, move |h| run(&Arc::new(NizkVk { vk: again(), rh: h, ph: k.ph }))), digest_part("parameter digest", k.ph, move |h| r2(&Arc::new(NizkVk { vk: again(), rh: k.rh, ph: h })))]
    } } } }
nizk!(Nizk, true); nizk!(Nizk25519, false);
macro_rules! snark { ($s:ty, $b:literal) => { impl Keyed for $s { const BLS: bool = $b;
    fn key_parts<'a>(_: &'a Case<'a>, k: &'a Self::Vk, run: Rc<dyn Fn(&Self::Vk) -> Obs + 'a>) -> Vec<Part<'a>> {
        let again = move || mutate::from_bytes(&mutate::bytes(&k.vk)).unwrap(); let (r2, r3) = (run.clone(), run.clone());
        vec![digest_part("circuit digest", k.rh, move |h| run(&Arc::new(SnarkVk { vk: again(), rh: h, ph: k.ph, eh: k.eh }))), digest_part("parameter digest", k.ph, move |h| r2(&Arc::new(SnarkVk { vk: again(), rh: k.rh, ph: h, eh: k.eh }))),
            digest_part("encoding digest", k.eh, move |h| r3(&Arc::new(SnarkVk { vk: again(), rh: k.rh, ph: k.ph, eh: h })))]
    } } } }
snark!(Snark, true); snark!(Snark25519, false);
impl Keyed for Marlin { const BLS: bool = true;
    fn key_parts<'a>(c: &'a Case<'a>, k: &'a Self::Vk, run: Rc<dyn Fn(&Self::Vk) -> Obs + 'a>) -> Vec<Part<'a>> {
        elements(c, "key", Self::codec(), &**k, true, 0, Rc::new(move |q| run(&Arc::new(mutate::from_bytes(&mutate::bytes(q)).unwrap()))))
    } }

fn r1cs<S: Keyed>(c: &Case) {
    let k = c.idx % SHAPES;
    let f = fixed(c, S::NAME, k);
    let mut s = Circ::<S::F>::resolvable_shape(&f);
    s.n_con = [2, 4, 7, 36][k as usize]; s.n_in = [1, 3, 2, 18][k as usize]; s.n_aux = [6, 8, 12, 60][k as usize]; s.max_terms = 3;
    let Some(k2) = Circ::<S::F>::with_shape(&f, &s).resample(c) else { c.count("no witness"); return };
    let Sut::Val(Ok(pk)) = sut(|| S::setup(k2.blank(), &mut c.tape())) else { c.count(&format!("{}: no key", S::NAME)); return };
    let Sut::Val(Ok((vk, proof))) = sut(|| S::prove(&pk, k2.clone(), &mut c.tape())) else { c.count(&format!("{}: no proof", S::NAME)); return };
    let go = |vk: &S::Vk, p: &S::Proof, x: &[S::F]| watch(|| S::verify(vk, p, x).unwrap_or(false));
    let base = go(&vk, &proof, &k2.inputs);
    if !base.ok { c.count(&format!("{}: honest proof not accepted (not this check)", S::NAME)); return; }
    let (vk, proof, x) = (&vk, &proof, &k2.inputs[..]);
    let mut parts = elements(c, "proof", S::codec(), proof, S::BLS, 0, Rc::new(move |p| go(vk, p, x)));
    parts.extend(values(c, "input", x, Rc::new(move |y| go(vk, proof, y))));
    parts.extend(S::key_parts(c, vk, Rc::new(move |v| go(v, proof, x))));
    study(c, S::NAME, &format!("{}/{}", S::NAME, k), &base, &parts, 150, &|| k2.describe());
}
fn layered<S: LScheme>(c: &Case) {
    let k = c.idx % SHAPES;
    let f = fixed(c, S::NAME, k);
    let circ = loop { let x = if k == 3 { lay::LCirc::random(&f, 40, 7, 40) } else { lay::LCirc::random(&f, 5, 4, 8) }; if x.ni > 0 && x.na > 0 { break x } };
    let n = if S::BATCH { 1 << k } else { 1 };
    let Some(r) = lay::base_on::<S>(c, circ, n) else { return };
    let go = |h: (&lay::LCirc, &S::Params), outs: &[Vec<lay::Fr<S>>], ins: &[Vec<lay::Fr<S>>], p: &S::Proof| watch(|| S::verify(&r.p, &r.c, h, outs, ins, p));
    let base = go((&r.c, &r.p), &r.outs, &r.ins, &r.proof);
    if !base.ok { return; }
    let r = &r;
    // the digests of circuit and parameters are drawn first, in the same run
    let own = if std::mem::size_of::<S::Params>() == 0 { 1 } else { 2 };
    let bls = S::NAME.ends_with("bls12-381");
    let mut parts = elements(c, "proof", S::codec(), &r.proof, bls, own, Rc::new(move |p| go((&r.c, &r.p), &r.outs, &r.ins, p)));
    for i in 0..n {
        parts.extend(values(c, &format!("output {}", i), &r.outs[i], Rc::new(move |y| { let mut o = r.outs.clone(); o[i] = y.to_vec(); go((&r.c, &r.p), &o, &r.ins, &r.proof) })));
        parts.extend(values(c, &format!("input {}", i), &r.ins[i], Rc::new(move |y| { let mut o = r.ins.clone(); o[i] = y.to_vec(); go((&r.c, &r.p), &r.outs, &o, &r.proof) })));
    }
    parts.push(Part { name: "key circuit digest".into(), looks: vec![], from: own, run: Box::new(move || { let h = r.c.other(c); if h == r.c { None } else { Some(go((&h, &r.p), &r.outs, &r.ins, &r.proof)) } }) });
    if own == 2 { parts.push(Part { name: "key parameter digest".into(), looks: vec![], from: own, run: Box::new(move || { let p = S::params(&mut c.tape(), r.num); Some(go((&r.c, &p), &r.outs, &r.ins, &r.proof)) }) }); }
    study(c, S::NAME, &format!("{}/{}", S::NAME, k), &base, &parts, 150, &|| json!({"circuit": r.c.describe(), "instances": n}));
}
fn plonk_case(c: &Case) {
    let n = [3, 6, 8][c.idx as usize % 3];
    let Some(b) = plonk::base(c, n) else { return };
    let x = b.prog.pis();
    let on = |vk: &plonk::Vk, p: &plonk::Proof, x: &[PlonkFr]| watch_digest(|| plonk::P::verify(vk, x, plonk::clone(p)).unwrap_or(false));
    let go = |p: &plonk::Proof, x: &[PlonkFr]| on(&b.vk, p, x);
    let base = go(&b.proof, &x);
    if !base.ok { return; }
    let (b, x) = (&b, &x[..]);
    let mut parts = elements(c, "proof", &mutate::Bls, &b.proof, true, 0, Rc::new(move |p| go(p, x)));
    parts.extend(values(c, "input", x, Rc::new(move |y| go(&b.proof, y))));
    parts.extend(elements(c, "key", &mutate::Bls, &b.vk, true, 0, Rc::new(move |k| on(k, &b.proof, x))));
    study(c, "plonk", &format!("plonk/{}", x.len()), &base, &parts, 150, &|| b.prog.describe());
}

/// The stand-alone arguments: what is claimed and what the proof says first.
fn argument<A: args::Arg>(c: &Case) {
    args::PLAIN.with(|p| p.set(true));
    let k = c.idx % SHAPES;
    let f = fixed(c, A::NAME, k);
    let pre = [7u8; 9];
    let Sut::Val((p, proof, s)) = sut(|| { let p = A::params(&f); let (proof, s) = A::make(&f, &p, false, &mut args::start(&pre)); (p, proof, s) }) else { return };
    let p = &p;
    let on = move |pre: &[u8], proof: &A::Proof, s: &A::Stmt| watch(|| A::verify(p, proof, s, &mut args::start(pre)));
    let base = on(&pre, &proof, &s);
    if !base.ok { return; }
    let (proof, s) = (&proof, &s);
    let bls = c.scenario.contains("bls12-381");
    let mut parts = elements(c, "proof", A::codec(), proof, bls, 0, Rc::new(move |q| on(&[7u8; 9], q, s)));
    parts.extend(elements(c, "claim", A::codec(), s, bls, 0, Rc::new(move |q| on(&[7u8; 9], proof, q))));
    parts.push(Part { name: "before".into(), looks: vec![], from: 0, run: Box::new(move || Some(on(&[8u8; 9], proof, s))) });
    study(c, A::NAME, &format!("{}/{}/{}", A::NAME, if bls { "bls12-381" } else { "curve25519" }, k), &base, &parts, 150, &|| json!({"argument": A::NAME}));
}

/// all positions, or some of very many
fn some(c: &Case, n: usize) -> Vec<usize> { if n <= 90 { (0..n).collect() } else { let mut v: Vec<usize> = (0..24).map(|_| c.below(n)).collect(); v.extend([0, 1, 2, n - 1, n - 2, n - 3]); v.sort(); v.dedup(); v } }
/// The digests a statement enters the transcript by: another object has another digest.
fn other_digest<T: Se, H: PartialEq + std::fmt::Debug>(c: &Case, name: &str, a: &T, ha: &H, b: &T, hb: Sut<H>, what: &str) {
    let (x, y) = (mutate::bytes(a), mutate::bytes(b));
    if x == y { return; }
    let Sut::Val(hb) = hb else { c.count(&format!("{}: no digest", name)); return };
    c.eval(&(name, &y), true);
    c.count(&format!("{}: {}", name, what));
    c.check(*ha != hb, &format!("{}: two objects with one digest", name), || json!({"they differ by": what, "digest": format!("{:?}", ha)}));
}
type Mat<F> = Vec<Vec<(F, zkp_r1cs::Index)>>;
fn alter_matrix<F: PrimeField>(c: &Case, m: &mut Mat<F>, ni: usize, na: usize) -> &'static str {
    use zkp_r1cs::Index;
    let full: Vec<usize> = (0..m.len()).filter(|i| !m[*i].is_empty()).collect();
    if full.is_empty() { return ""; }
    let i = full[c.below(full.len())]; let j = c.below(m[i].len());
    let var = |c: &Case| if c.chance(1, 2) && na > 0 { Index::Aux(c.below(na)) } else { Index::Input(c.below(ni)) };
    match c.below(6) {
        0 => { m[i][j].0 += F::one(); "a coefficient" }
        1 => { let v = var(c); m[i][j].1 = v; "a variable" }
        2 => { m[i][j].1 = match m[i][j].1 { Index::Aux(k) => Index::Input(k % ni), Index::Input(k) => if na > 0 { Index::Aux(k % na) } else { Index::Input(k) } }; "an input for a witness variable" }
        3 => { m[i].remove(j); "a term less" }
        4 => { let v = var(c); m[i].push((rand_f::<F>(c) + F::one(), v)); "a term more" }
        _ => { if i + 1 < m.len() && c.chance(1, 2) { let t = m[i].pop().unwrap(); m[i + 1].insert(0, t); } else if i > 0 { let t = m[i].remove(0); m[i - 1].push(t); } "a term in the constraint next to it" }
    }
}
/// the rows as relations: sums of coefficients per variable
fn relation<F: PrimeField>(m: &Mat<F>) -> Vec<BTreeMap<(bool, usize), Vec<u8>>> {
    m.iter().map(|r| { let mut s: BTreeMap<(bool, usize), F> = BTreeMap::new(); for (f, i) in r { let k = match i { zkp_r1cs::Index::Input(k) => (false, *k), zkp_r1cs::Index::Aux(k) => (true, *k) }; *s.entry(k).or_insert(F::zero()) += f; }
        s.into_iter().filter(|(_, f)| !f.is_zero()).map(|(k, f)| (k, mutate::bytes(&f))).collect() }).collect()
}
macro_rules! spartan_digests { ($name:ident, $g:ty, $s:ty, $codec:expr) => { fn $name(c: &Case) {
    let k = if c.idx % 3 == 1 { let mut s = Circ::<<$s as Scheme>::F>::large_shape(c); s.n_con = s.n_con.min(90); Circ::with_shape(c, &s) } else { r1cs_checks::random_circ::<$s>(c) };
    let tag = <$s as Scheme>::NAME;
    let Sut::Val(Ok(p)) = sut(|| zkp_spartan::snark::generate_random_parameters::<$g, _, _>(k.blank(), &mut c.tape())) else { c.count(&format!("{}: no parameters", tag)); return };
    let r = &p.r1cs; let rh = r.r1cs_to_hash();
    for _ in 0..30 {
        let mut q = r.clone(); let (ni, na) = (q.num_inputs, q.num_aux);
        let what = match c.below(5) {
            0 => { match c.below(3) { 0 => q.num_inputs += 1, 1 => q.num_aux += 1, _ => { q.num_constraints += 1; } } "a size" }
            1 => { std::mem::swap(&mut q.a_matrix, &mut q.c_matrix); "two matrices exchanged" }
            2 => alter_matrix(c, &mut q.a_matrix, ni, na), 3 => alter_matrix(c, &mut q.b_matrix, ni, na), _ => alter_matrix(c, &mut q.c_matrix, ni, na) };
        let same = what != "a size" && relation(&q.a_matrix) == relation(&r.a_matrix) && relation(&q.b_matrix) == relation(&r.b_matrix) && relation(&q.c_matrix) == relation(&r.c_matrix);
        if same { continue; }
        let h = sut(|| q.r1cs_to_hash());
        other_digest(c, &format!("{} circuit digest", tag), r, &rh, &q, h, what);
    }
    let ph = p.params.param_to_hash(); let eh = p.encode_comm.encode_to_hash();
    for i in some(c, mutate::n_tokens(&p.params)) { if let Some((q, w)) = mutate::mutate_at(c, $codec, &p.params, i) { let h = sut(|| q.param_to_hash()); let _ = w; other_digest(c, &format!("{} parameter digest", tag), &p.params, &ph, &q, h, "a generator"); } }
    for i in some(c, mutate::n_tokens(&p.encode_comm)) { if let Some((q, _)) = mutate::mutate_at(c, $codec, &p.encode_comm, i) { let h = sut(|| q.encode_to_hash()); other_digest(c, &format!("{} encoding digest", tag), &p.encode_comm, &eh, &q, h, "a commitment"); } }
    let Sut::Val(Ok(p)) = sut(|| zkp_spartan::nizk::generate_random_parameters::<$g, _, _>(k.blank(), &mut c.tape())) else { return };
    let ph = p.params.param_to_hash();
    for i in some(c, mutate::n_tokens(&p.params)) { if let Some((q, _)) = mutate::mutate_at(c, $codec, &p.params, i) { let h = sut(|| q.param_to_hash()); other_digest(c, &format!("{} (nizk) parameter digest", tag), &p.params, &ph, &q, h, "a generator"); } }
} } }
spartan_digests!(spartan_bls, E, Snark, &mutate::Bls);
spartan_digests!(spartan_25519, C25, Snark25519, &mutate::C25519);
macro_rules! layered_digests { ($name:ident, $krate:ident, $g:ty, $codec:expr, $tag:literal) => { fn $name(c: &Case) {
    let k = if c.idx % 3 == 1 { lay::LCirc::random(c, 40, 9, 70) } else { lay::LCirc::random(c, 6, 4, 10) };
    let hash = |k: &lay::LCirc| sut(|| $krate::circuit::Circuit::new(k.ni, k.na, &k.layers).circuit_to_hash::<$g>());
    let Sut::Val(h) = hash(&k) else { return };
    for _ in 0..if c.idx % 3 == 1 { 90 } else { 30 } {
        let mut q = k.other(c);
        let mut what = "a gate";
        if c.chance(1, 3) { q = k.clone(); let d = c.below(q.layers.len()); if c.chance(1, 2) && q.layers[d].len() > 1 && d + 1 == q.layers.len() { q.layers[d].pop(); what = "a gate less"; } else if d + 1 < q.layers.len() && q.layers[d].len() > 1 && c.chance(1, 2) {
                let g = q.layers[d].pop().unwrap(); q.layers[d + 1].insert(0, g); what = "a gate in the next layer"; }
            else { let (op, l, r) = { let v = &q.layers[d]; v[c.below(v.len())] }; q.layers[d].push((op, l, r)); what = "a gate more"; } }
        if q == k { continue; }
        // operands exchanged: the same gate
        let norm = |k: &lay::LCirc| k.layers.iter().map(|l| l.iter().map(|(o, a, b)| (*o, *a.min(b), *a.max(b))).collect::<Vec<_>>()).collect::<Vec<_>>();
        if norm(&q) == norm(&k) { continue; }
        let Sut::Val(hq) = hash(&q) else { c.count(concat!($tag, ": no digest")); continue };
        c.eval(&($tag, &q, &k), true); c.count(&format!("{} circuit digest: {}", $tag, what));
        c.check(hq != h, concat!($tag, ": two circuits with one digest"), || json!({"they differ by": what, "one": k.describe(), "other": q.describe()}));
    }
    // wide layers: every bit of a wire's number counts
    if c.idx == 1 {
        let ni = if c.chance(1, 2) { 40000 } else { 600 }; let n = 300;
        let mut k = lay::LCirc { ni, na: 0, layers: vec![] }; let mut below = 2 * k.half();
        for _ in 0..2 { k.layers.push((0..n).map(|_| (c.below(2) as u8, c.below(below), c.below(below))).collect()); below = n; }
        if let Sut::Val(h) = hash(&k) { for d in 0..2 { let below = if d == 0 { 2 * k.half() } else { n }; for right in [false, true] { for bit in 0..17 {
            let i = c.below(n); let mut q = k.clone(); { let g = &mut q.layers[d][i]; let w = if right { &mut g.2 } else { &mut g.1 }; *w ^= 1 << bit; if *w >= below { continue; } }
            let (x, y) = (k.layers[d][i], q.layers[d][i]); if (x.1, x.2) == (y.2, y.1) { continue; }
            let Sut::Val(hq) = hash(&q) else { continue };
            c.eval(&($tag, d, i, right, bit), true); c.count(concat!($tag, " circuit digest: one bit of a wire's number"));
            c.check(hq != h, concat!($tag, ": two circuits with one digest"), || json!({"they differ by": "one bit of a wire's number", "layer": d, "gate": i, "one": x, "other": y, "inputs": ni}));
        } } } }
    }
    let p = $krate::params::Parameters::<$g>::new(&mut c.tape(), c.below(5)); let ph = p.param_to_hash();
    for i in some(c, mutate::n_tokens(&p)) { if let Some((q, _)) = mutate::mutate_at(c, $codec, &p, i) { let h = sut(|| q.param_to_hash()); other_digest(c, concat!($tag, " parameter digest"), &p, &ph, &q, h, "a generator"); } }
} } }
layered_digests!(libra_bls, zkp_libra, E, &mutate::Bls, "libra/bls12-381");
layered_digests!(libra_25519, zkp_libra, C25, &mutate::C25519, "libra/curve25519");
layered_digests!(hyrax_bls, zkp_hyrax, E, &mutate::Bls, "hyrax/bls12-381");
layered_digests!(hyrax_25519, zkp_hyrax, C25, &mutate::C25519, "hyrax/curve25519");

/// Rewrite the table: for each part the last of the challenges seen first to depend on it, over all runs.
fn record(ctx: &Ctx, v: Vec<Scenario>) -> i32 {
    *REC.lock().unwrap() = Some(BTreeMap::new());
    ctx.run(v);
    let mut out = serde_json::Map::new();
    for (k, runs) in REC.lock().unwrap().take().unwrap() {
        if runs.is_empty() { eprintln!("{}: only {} runs, left out", k, runs.len()); continue; }
        if runs.iter().any(|r| r.challenges != runs[0].challenges || r.bytes != runs[0].bytes || r.parts.len() != runs[0].parts.len()) { eprintln!("{}: layouts differ, left out", k); continue; }
        let mut parts = serde_json::Map::new();
        for name in runs[0].parts.keys() {
            let e: Vec<Entry> = runs.iter().filter_map(|r| r.parts.get(name).cloned()).collect();
            let first = e.iter().map(|x| x.0).max().unwrap();
            let a: Vec<i64> = e.iter().map(|x| x.1).filter(|a| *a != -2).collect();
            let a = if a.is_empty() || a.contains(&-1) { -1 } else { *a.iter().max().unwrap() };
            parts.insert(name.clone(), json!([first, a]));
        }
        out.insert(k, json!({"challenges": runs[0].challenges, "bytes": runs[0].bytes, "parts": parts}));
    }
    let f = concat!(env!("CARGO_MANIFEST_DIR"), "/tables/c32.json");
    std::fs::write(f, serde_json::to_string(&Value::Object(out)).unwrap().replace("},", "},\n") + "\n").unwrap();
    0
}

fn main() {
    let rec = std::env::args().any(|a| a == "--table");
    let ctx = Ctx::new("C32", "one verification with its challenges logged, or one digest compared with that of an altered object; distinct by challenges or by altered object");
    let n = if rec { 24 } else { 8 };
    let mut v: Vec<Scenario> = vec![];
    macro_rules! r { ($($s:ty),*) => { $( v.push(sc(&format!("{}/challenges", <$s as Scheme>::NAME), n, r1cs::<$s>)); )* } }
    r!(BpBls, Bp25519, Nizk, Nizk25519, Snark, Snark25519, Marlin);
    macro_rules! l { ($($s:ty),*) => { $( v.push(sc(&format!("{}/challenges", <$s as LScheme>::NAME), n, layered::<$s>)); )* } }
    l!(lay::Plain<E>, lay::Plain<C25>, lay::Zk<E>, lay::Zk<C25>, lay::Hyrax<E>, lay::Hyrax<C25>);
    macro_rules! a { ($g:ty, $n:literal, $($s:ty),*) => { $( v.push(sc(&format!("{}/{}/challenges", <$s as args::Arg>::NAME, $n), 4, argument::<$s>)); )* } }
    macro_rules! curve { ($g:ty, $n:literal) => { a!($g, $n, args::libra::Eq<$g>, args::libra::Know<$g>, args::libra::Prod<$g>, args::libra::Dot<$g>, args::libra::Log<$g>, args::libra::Poly<$g>,
        args::hyrax::Eq<$g>, args::hyrax::Know<$g>, args::hyrax::Prod<$g>, args::hyrax::Dot<$g>, args::hyrax::Log<$g>, args::hyrax::Poly<$g>, args::Round<$g>, args::Fold<$g>, args::Bullet<$g>); } }
    curve!(E, "bls12-381"); curve!(C25, "curve25519");
    v.push(sc("plonk/challenges", 2 * n, plonk_case));
    if rec { std::process::exit(record(&ctx, v)); }
    v.push(sc("spartan/bls12-381/digests", 6, spartan_bls)); v.push(sc("spartan/curve25519/digests", 6, spartan_25519));
    v.push(sc("libra/bls12-381/digests", 15, libra_bls)); v.push(sc("libra/curve25519/digests", 15, libra_25519));
    v.push(sc("hyrax/bls12-381/digests", 15, hyrax_bls)); v.push(sc("hyrax/curve25519/digests", 15, hyrax_25519));
    ctx.run(v);
    ctx.finish();
}
