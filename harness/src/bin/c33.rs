//! C33: every secret and every generator that a setup makes has randomness of its own.
//! `c33 --table` rewrites the table of what owns randomness (reviewed by hand, committed).
use ark_ec::PairingEngine;
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use vh::{circ::*, layered as lay, layered::LScheme, mutate, owns::{self, owned, toks, Table, REC}, plonk, schemes::*, *};
use zkp_curve25519::Curve25519 as C25;
use zkp_curve::Curve;

type Toks = Vec<Vec<u8>>;
fn table() -> &'static Table { static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new(); T.get_or_init(|| owns::table(include_str!("../../tables/c33.json"))) }
const SIZES: u64 = 3;
/// the repository's setups: what they make, as parts, for the circuit or size number `k`
struct Setup { name: &'static str, f: fn(&Ctx, u64, &mut Tape) -> Option<Toks> }
fn circ<F: ark_ff::PrimeField>(c: &Ctx, k: u64) -> Circ<F> {
    let f = fixed(c, k);
    let mut s = Circ::<F>::resolvable_shape(&f);
    s.n_con = [2, 4, 7][k as usize]; s.n_in = [1, 3, 2][k as usize]; s.n_aux = [3, 5, 9][k as usize]; s.max_terms = 3;
    Circ::with_shape(&f, &s)
}
fn fixed<'a>(c: &'a Ctx, k: u64) -> Case<'a> {
    use sha2::{Digest, Sha256}; let mut s = [0u8; 32]; s.copy_from_slice(&Sha256::digest(format!("c33 {}", k).as_bytes()));
    Case { ctx: c, scenario: String::new(), idx: 0, rng: RefCell::new(ChaCha20Rng::from_seed(s)) }
}
fn ok<T, X>(r: Sut<Result<T, X>>) -> Option<T> { match r { Sut::Val(Ok(t)) => Some(t), _ => None } }
macro_rules! spartan { ($v:ident, $g:ty, $c:literal) => {
    $v.push(Setup { name: concat!("spartan-nizk/", $c), f: |c, k, t| ok(sut(|| zkp_spartan::nizk::generate_random_parameters::<$g, _, _>(circ::<<$g as Curve>::Fr>(c, k).blank(), t))).map(|p| toks(&p.params)) });
    $v.push(Setup { name: concat!("spartan-snark/", $c), f: |c, k, t| ok(sut(|| zkp_spartan::snark::generate_random_parameters::<$g, _, _>(circ::<<$g as Curve>::Fr>(c, 0 * k).blank(), t))).map(|p| toks(&p.params)) });
    $v.push(Setup { name: concat!("bulletproofs/", $c), f: |c, k, t| ok(sut(|| zkp_bulletproofs::create_random_proof::<$g, _, _>(circ::<<$g as Curve>::Fr>(c, k), t))).map(|p| toks(&p.0)) });
    $v.push(Setup { name: concat!("libra/", $c), f: |_, k, t| Some(toks(&lay::Zk::<$g>::params(t, [1, 3, 4][k as usize]))) });
    $v.push(Setup { name: concat!("hyrax/", $c), f: |_, k, t| Some(toks(&lay::Hyrax::<$g>::params(t, [1, 3, 4][k as usize]))) });
} }
fn setups() -> Vec<Setup> {
    let mut v: Vec<Setup> = vec![];
    v.push(Setup { name: "groth16", f: |c, k, t| ok(sut(|| Groth16::setup(circ::<Fr>(c, k).blank(), t))).map(|p| toks(&p.0)) });
    v.push(Setup { name: "marlin", f: |_, k, t| ok(sut(|| zkp_marlin::universal_setup::<E, _>([1, 3, 8][k as usize], t))).map(|p| { let mut v = toks(&(p.powers_of_g, p.powers_of_gamma_g)); v.extend(toks(&(p.h, p.beta_h))); v }) });
    v.push(Setup { name: "asvc", f: |_, k, t| ok(sut(|| zkp_asvc::key_gen::<E, _>([2, 4, 7][k as usize], t))).map(|k| { let (p, v) = (k.proving_key, k.verification_key); let mut o = toks(&(p.powers_of_g1, p.l_of_g1)); for u in p.update_keys { o.extend(toks(&(u.ai, u.ui))); } o.extend(toks(&(v.powers_of_g1, v.powers_of_g2, v.a))); o }) });
    v.push(Setup { name: "plonk", f: |_, k, t| ok(sut(|| plonk::P::setup([1, 3, 8][k as usize], t))).map(|p| { let mut v = toks(&(p.powers_of_g.clone(), p.h, p.beta_h)); for (_, g) in &p.powers_of_gamma_g { v.extend(toks(g)); } v }) });
    spartan!(v, E, "bls12-381"); spartan!(v, C25, "curve25519");
    v
}
/// setups with independent tapes share nothing
fn fresh(c: &Case, s: &Setup) {
    let k = c.below(SIZES as usize) as u64;
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new(); let mut n = 0u64;
    for run in 0..3 {
        let mut t = c.tape();
        let Some(v) = (s.f)(c.ctx, k, &mut t) else { c.count(&format!("{}: setup fails", s.name)); return };
        if run == 0 { c.eval(&(s.name, v.concat()), true); }
        for (i, x) in v.iter().enumerate() {
            if x.len() < 32 { continue; }
            // the identity stands for queries of variables that occur nowhere
            if trivial(x) { c.count(&format!("{}: identity in place", s.name)); continue; }
            n += 1;
            if let Some(r) = seen.insert(x.clone(), run) { if r != run { c.violation(&format!("{}: setups with independent randomness share parts", s.name), json!({"size": k, "part": i, "of": v.len(), "length": x.len()})); return; } }
        }
    }
    c.count_n(&format!("{}: parts different in all of three setups", s.name), n);
}
fn trivial(x: &[u8]) -> bool { x.iter().filter(|b| **b != 0).count() <= 1 }
fn own(c: &Case, s: &Setup) {
    let k = c.idx % SIZES;
    let x = c.ctx;
    owned(c, true, table(), s.name, &format!("{}/{}", s.name, k), &|t| (s.f)(x, k, t).map(|v| (vec![], v)), &|| json!({"size": k}));
}
/// The keys have the published form: the relations between their elements that pairings can see.
fn relations(c: &Case) {
    let e = |a: ark_bls12_381::G1Affine, b: ark_bls12_381::G2Affine| E::pairing(a, b);
    let mut say = |what: &str, holds: bool, d: Value| { c.count(&format!("relations seen: {}", what)); if !holds { c.violation(&format!("{} does not hold", what), d); } };
    // Groth16
    if let Sut::Val(Ok((p, _))) = { let k = Circ::<Fr>::random(c); sut(|| Groth16::setup(k.blank(), &mut c.tape())) } {
        c.eval(&mutate::bytes(&p.vk), true);
        let d = || json!({"gamma_abc": p.vk.gamma_abc_g1.len(), "h": p.h_query.len()});
        say("groth16: the same beta and delta in both groups", e(p.beta_g1, p.vk.delta_g2) == e(p.delta_g1, p.vk.beta_g2), d());
        say("groth16: the same b queries in both groups", p.b_g1_query.iter().zip(&p.b_g2_query).all(|(x, y)| e(*x, p.vk.delta_g2) == e(p.delta_g1, *y)), d());
    }
    // Marlin, PLONK, vector commitments: powers
    let n = c.range(1, 9);
    if let Sut::Val(Ok(p)) = sut(|| zkp_marlin::universal_setup::<E, _>(n, &mut c.tape())) {
        c.eval(&mutate::bytes(&p.powers_of_g), true);
        let d = || json!({"degree asked": n, "powers": p.powers_of_g.len()});
        say("marlin: powers of beta", p.powers_of_g.windows(2).all(|w| e(w[0], p.beta_h) == e(w[1], p.h)), d());
        say("marlin: powers of beta at gamma", p.powers_of_gamma_g.windows(2).all(|w| e(w[0], p.beta_h) == e(w[1], p.h)), d());
        say("marlin: as many powers as asked for", p.powers_of_g.len() > n && p.powers_of_gamma_g.len() > n, d());
    }
    if let Sut::Val(Ok(p)) = sut(|| plonk::P::setup(n, &mut c.tape())) {
        c.eval(&mutate::bytes(&p.powers_of_g), true);
        let d = || json!({"degree asked": n, "powers": p.powers_of_g.len()});
        say("plonk: powers of beta", p.powers_of_g.windows(2).all(|w| e(w[0], p.beta_h) == e(w[1], p.h)), d());
        say("plonk: as many powers as asked for", p.powers_of_g.len() > n, d());
    }
    if let Sut::Val(Ok(k)) = sut(|| zkp_asvc::key_gen::<E, _>(n, &mut c.tape())) {
        let (p, v) = (k.proving_key, k.verification_key);
        c.eval(&mutate::bytes(&p.powers_of_g1), true);
        let d = || json!({"n": n, "powers": p.powers_of_g1.len()});
        let (h0, h1) = (v.powers_of_g2[0], *v.powers_of_g2.get(1).unwrap_or(&v.powers_of_g2[0]));
        if v.powers_of_g2.len() > 1 {
            say("asvc: powers of tau", p.powers_of_g1.windows(2).all(|w| e(w[0], h1) == e(w[1], h0)), d());
            say("asvc: powers of tau for verification", v.powers_of_g1.windows(2).all(|w| e(w[0], h1) == e(w[1], h0)) && v.powers_of_g2.windows(2).all(|w| e(v.powers_of_g1[1.min(v.powers_of_g1.len() - 1)], w[0]) == e(v.powers_of_g1[0], w[1])), d());
        }
    }
}
fn scenarios<'a>() -> Vec<Scenario<'a>> {
    let mut v = vec![];
    for s in setups() {
        let s: &'static Setup = Box::leak(Box::new(s));
        let slow = s.name.starts_with("spartan-snark") || s.name == "bulletproofs/bls12-381";
        v.push(sc(&format!("{}/own", s.name), if slow { 1 } else { 3 }, move |c: &Case| own(c, s)));
        v.push(sc(&format!("{}/fresh", s.name), if slow { 3 } else { 8 }, move |c: &Case| fresh(c, s)));
    }
    v.push(sc("relations", 30, relations));
    v
}
fn main() {
    let ctx = Ctx::new("C33", "one setup taken apart by altering every random draw in turn, one group of three setups with independent tapes, or one key whose pairing relations were evaluated; distinct by scheme and key bytes");
    if std::env::args().any(|a| a == "--table") {
        let mut all = BTreeMap::new();
        for s in scenarios() { if !s.name.ends_with("/own") { continue; }
            for k in 0..SIZES { let t = std::time::Instant::now(); REC.with(|r| *r.borrow_mut() = Some(BTreeMap::new()));
                let c = Case { ctx: &ctx, scenario: s.name.clone(), idx: k, rng: RefCell::new(ChaCha20Rng::from_seed([k as u8; 32])) };
                (s.f)(&c);
                all.extend(REC.with(|r| r.borrow_mut().take().unwrap())); eprintln!("{} {} {:?}", s.name, k, t.elapsed()); } }
        println!("{}", serde_json::to_string(&all).unwrap().replace("},\"", "},\n\""));
        return;
    }
    ctx.run(scenarios());
    ctx.finish();
}
