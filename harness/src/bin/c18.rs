//! C18: every hiding part of a proof has fresh randomness of its own, and repeated proofs share none of it.
//! `c18 --table` rewrites the table of what owns how much randomness (reviewed by hand, committed).
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use vh::{owns::{self, owned, toks, Table, REC}, circ::*, layered as lay, layered::LScheme, schemes::*, *};
use zkp_curve25519::Curve25519 as C25;

fn table() -> &'static Table { static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new(); T.get_or_init(|| owns::table(include_str!("../../tables/c18.json"))) }

/// Two proofs with independent tapes: hiding parts differ. Lengths and constants do not count.
fn fresh(c: &Case, name: &str, prove: &dyn Fn(&mut Tape) -> Option<(usize, Vec<Vec<u8>>)>, what: &dyn Fn() -> Value) {
    let (mut runs, mut hiding) = (vec![], 0);
    for _ in 0..4 { match prove(&mut c.tape()) { Some((h, p)) => { hiding = h; runs.push(p) } None => { c.count(&format!("{}: no proof to compare", name)); return; } } }
    c.eval(&(name, runs[0].concat()), true);
    if runs.iter().any(|r| r.len() != runs[0].len()) { c.count(&format!("{}: proofs of different layout", name)); return; }
    let (mut diff, mut same) = (0, vec![]);
    // Hyrax: the commitment to the value of the public outputs
    let public = if name.starts_with("hyrax") { Some(11 + u64::from_le_bytes(runs[0][0][..8].try_into().unwrap()) as usize) } else { None };
    for i in 0..runs[0].len().min(hiding) {
        let t = &runs[0][i];
        if Some(i) == public { continue; }
        if t.len() < 32 { continue; }
        // the values every run must have: zero, one, the identity
        let trivial = t.iter().all(|b| *b == 0) || t.iter().filter(|b| **b != 0).count() == 1;
        let mut any = false;
        for a in 0..runs.len() { for b in 0..a { if runs[a][i].len() >= 32 && runs[a][i] == runs[b][i] { any = true; } } }
        if !any { diff += 1 } else if trivial { c.count(&format!("{}: trivial values in place", name)); } else { same.push(i) }
        // nor does one proof repeat a part of another in a different place
    }
    let mut all: BTreeMap<&Vec<u8>, usize> = BTreeMap::new();
    for (a, r) in runs.iter().enumerate() { for t in r { if t.len() >= 32 && t.iter().filter(|b| **b != 0).count() > 8 { if let Some(b) = all.insert(t, a) { if b != a { c.count(&format!("{}: a value of one proof appears in another", name)); } } } } }
    c.count_n(&format!("{}: parts different in all of four proofs", name), diff);
    if !same.is_empty() { c.violation(&format!("{}: proofs with independent randomness share parts", name), json!({"what": what(), "tokens": same.iter().take(8).collect::<Vec<_>>(), "sizes": same.iter().take(8).map(|i| runs[0][*i].len()).collect::<Vec<_>>(), "of": runs[0].len()})); }
}
fn fixed<'a>(c: &Case<'a>, name: &str, k: u64) -> Case<'a> {
    use sha2::{Digest, Sha256}; let mut s = [0u8; 32]; s.copy_from_slice(&Sha256::digest(format!("c18 {} {}", name, k).as_bytes()));
    Case { ctx: c.ctx, scenario: c.scenario.clone(), idx: c.idx, rng: RefCell::new(ChaCha20Rng::from_seed(s)) }
}
const SHAPES: u64 = 4;
fn r1cs_own<S: Scheme>(c: &Case) {
    let k = c.idx % SHAPES;
    let f = fixed(c, S::NAME, k);
    let mut s = Circ::<S::F>::resolvable_shape(&f);
    s.n_con = [2, 4, 7, 18][k as usize]; s.n_in = [1, 3, 2, 5][k as usize]; s.n_aux = [6, 8, 12, 30][k as usize]; s.max_terms = 3;
    let shape = Circ::<S::F>::with_shape(&f, &s);
    let Some(k2) = shape.resample(c) else { c.count("no witness"); return };
    let Sut::Val(Ok(pk)) = sut(|| S::setup(k2.blank(), &mut c.tape())) else { c.count(&format!("{}: no key", S::NAME)); return };
    owned(c, false, table(), S::NAME, &format!("{}/{}", S::NAME, k), &|t| match sut(|| S::prove(&pk, k2.clone(), t)) { Sut::Val(Ok((vk, p))) => Some((S::public(&vk), toks(&p))), _ => None }, &|| k2.describe());
}
fn r1cs_fresh<S: Scheme>(c: &Case) {
    let k = r1cs_checks::random_circ::<S>(c);
    let Sut::Val(Ok(pk)) = sut(|| S::setup(k.blank(), &mut c.tape())) else { c.count(&format!("{}: no key", S::NAME)); return };
    fresh(c, S::NAME, &|t| match sut(|| S::prove(&pk, k.clone(), t)) { Sut::Val(Ok((_, p))) => Some((S::hiding(&p), toks(&p))), _ => None }, &|| k.describe());
}
fn layered_own<S: LScheme>(c: &Case) {
    let k = c.idx % SHAPES;
    let f = fixed(c, S::NAME, k);
    let circ = if k == 3 { lay::LCirc::random(&f, 9, 6, 18) } else { lay::LCirc::random(&f, 4, 2, 4) };
    let n = if S::BATCH { [1, 2, 2, 4][k as usize] } else { 1 };
    let x: Vec<lay::Inst<lay::Fr<S>>> = (0..n).map(|_| lay::Inst { ins: (0..circ.ni).map(|_| rand_f(c)).collect(), aux: (0..circ.na).map(|_| rand_f(c)).collect() }).collect();
    let p = S::params(&mut c.tape(), lay::num_for(&circ, n));
    owned(c, false, table(), S::NAME, &format!("{}/{}", S::NAME, k), &|t| match sut(|| S::prove(&p, &circ, (&circ, &p), &x, t)) { Sut::Val((q, _)) => Some((vec![], toks(&q))), _ => None }, &|| circ.describe());
}
fn layered_fresh<S: LScheme>(c: &Case) {
    let circ = lay::LCirc::random(c, 5, 3, 6);
    let n = if S::BATCH { c.pick(&[1, 2, 4]) } else { 1 };
    let x = lay::insts::<S>(c, &circ, n);
    let p = S::params(&mut c.tape(), lay::num_for(&circ, n));
    fresh(c, S::NAME, &|t| match sut(|| S::prove(&p, &circ, (&circ, &p), &x, t)) { Sut::Val((q, _)) => Some((usize::MAX, toks(&q))), _ => None }, &|| circ.describe());
}
fn scenarios<'a>() -> Vec<Scenario<'a>> {
    let mut v = vec![];
    macro_rules! r { ($s:ty, $own:literal, $fresh:literal) => { v.push(sc(&format!("{}/own", <$s>::NAME), $own, r1cs_own::<$s>)); v.push(sc(&format!("{}/fresh", <$s>::NAME), $fresh, r1cs_fresh::<$s>)); } }
    macro_rules! l { ($s:ty, $own:literal, $fresh:literal) => { v.push(sc(&format!("{}/own", <$s>::NAME), $own, layered_own::<$s>)); v.push(sc(&format!("{}/fresh", <$s>::NAME), $fresh, layered_fresh::<$s>)); } }
    r!(Groth16, 12, 40); r!(BpBls, 4, 12); r!(Bp25519, 4, 8); r!(Nizk, 4, 10); r!(Nizk25519, 4, 6); r!(Snark, 4, 6); r!(Snark25519, 2, 4); r!(Marlin, 8, 12);
    l!(lay::Zk<E>, 4, 16); l!(lay::Zk<C25>, 4, 8); l!(lay::Hyrax<E>, 4, 10); l!(lay::Hyrax<C25>, 4, 8);
    v
}
fn main() {
    let ctx = Ctx::new("C18", "one proof taken apart by altering every random draw in turn, or one group of four proofs of one statement with independent tapes; distinct by scheme, layout and proof bytes");
    if std::env::args().any(|a| a == "--table") {
        let mut all = BTreeMap::new();
        for s in scenarios() { if !s.name.ends_with("/own") { continue; }
            for k in 0..SHAPES { REC.with(|r| *r.borrow_mut() = Some(BTreeMap::new()));
                let c = Case { ctx: &ctx, scenario: s.name.clone(), idx: k, rng: RefCell::new(ChaCha20Rng::from_seed([k as u8; 32])) };
                (s.f)(&c);
                all.extend(REC.with(|r| r.borrow_mut().take().unwrap())); eprintln!("{} {}", s.name, k); } }
        println!("{}", serde_json::to_string(&all).unwrap().replace("},\"", "},\n\""));
        return;
    }
    ctx.run(scenarios());
    ctx.finish();
}
