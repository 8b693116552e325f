//! Synthesis failures injected at every point of a circuit: the error comes back, and nothing else.
use ark_ff::PrimeField;
use serde_json::{json, Value};
use vh::{circ::*, gadgets::*, rcs::*, schemes::*, *};
use zkp_gadgets::algebra::{boolean::{AllocatedBit, Boolean}, fr::AllocatedFr, uint32::UInt32};
use zkp_gadgets::hashes::{blake2s::blake2s, mimc, sha256::{sha256, sha256_block_no_padding}};
use zkp_gadgets::{lookup::table::*, operator::rangeproof::RangeProof};
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

const KINDS: [Fail; 8] = [Fail::Missing, Fail::DivZero, Fail::Unsat, Fail::DegreeTooLarge, Fail::Identity, Fail::Malformed, Fail::Unconstrained, Fail::Io];
fn named(e: Fail) -> String { match e { Fail::Io => "IoError".into(), _ => format!("{:?}", e.err()) } }
/// the result of an operation that must return exactly this error
fn expect<T>(c: &Case, name: &str, what: &str, want: &str, f: impl FnOnce() -> Result<T, String>, d: &dyn Fn() -> Value) {
    match sut(f) {
        Sut::Val(Err(e)) => { c.check(e.contains(want), &format!("{}: {} returns another error", name, what), || json!({"returned": e, "injected": want, "case": d()})); c.count(&format!("{} returned the injected error", what)); }
        Sut::Val(Ok(_)) => c.violation(&format!("{}: {} succeeds although synthesis failed", name, what), json!({"injected": want, "case": d()})),
        Sut::Panic(p) => c.violation(&format!("{}: {} panics when synthesis fails", name, what), json!({"injected": want, "panic": p, "case": d()})),
    }
}
fn scheme<S: Scheme>(c: &Case, max_con: usize) {
    let mut sh = Circ::<S::F>::random_shape(c);
    sh.n_con = sh.n_con.min(max_con); sh.n_in = sh.n_in.min(4); sh.n_aux = sh.n_aux.min(max_con + 3).max(1);
    let k = Circ::<S::F>::with_shape(c, &sh);
    c.eval(&(S::NAME, k.shape_fp()), true);
    let d0 = || json!({"scheme": S::NAME, "steps": k.steps.len(), "circuit": k.describe()});
    let n = k.steps.len();
    let failing = |at: usize, e: Fail, inside: bool| { let mut x = k.clone(); x.fail = Some((at, e, inside)); x };
    let mut pk = None;
    if S::HAS_SETUP {
        // nothing is assigned, or the assignment of some variable cannot be computed: setup does not ask
        let allocs: Vec<usize> = (0..n).filter(|i| !matches!(k.steps[*i], Step::Enforce(_))).collect();
        let at = c.pick(&allocs); let e = c.pick(&KINDS);
        for (what, x) in vec![("setup without assignment", k.blank()), ("setup with an uncomputable assignment", failing(at, e, true))] {
            match sut(|| S::setup(x, &mut c.tape())) {
                Sut::Val(Ok(p)) => { c.count(what); pk = Some(p); }
                Sut::Val(Err(e)) => { c.violation(&format!("{}: {} fails", S::NAME, what), json!({"error": e, "case": d0()})); return; }
                Sut::Panic(p) => { c.violation(&format!("{}: {} panics", S::NAME, what), json!({"panic": p, "case": d0()})); return; }
            }
        }
        // the circuit itself gives up
        for _ in 0..6 { let at = c.below(n); let e = c.pick(&KINDS); let inside = matches!(k.steps[at], Step::Enforce(_)) && c.chance(1, 2);
            expect(c, S::NAME, "setup", &named(e), || S::setup(failing(at, e, inside), &mut c.tape()), &|| json!({"step": at, "inside": inside, "case": d0()})); }
    } else { pk = S::setup(k.blank(), &mut c.tape()).ok(); }
    let pk = pk.unwrap();
    // every step, from the assignment or from the circuit
    for at in 0..n { for inside in &[true, false] {
        let kinds: Vec<Fail> = if n <= 12 { KINDS.to_vec() } else { vec![Fail::Missing, c.pick(&KINDS)] };
        for e in kinds {
            c.count(match (k.steps[at].clone(), inside) { (Step::In(_), true) => "faults in the assignment of a public value", (Step::Aux(_), true) => "faults in the assignment of a witness", _ => "faults raised by the circuit" });
            expect(c, S::NAME, "proving", &named(e), || S::prove(&pk, failing(at, e, *inside), &mut c.tape()), &|| json!({"step": format!("{} {:?}", at, k.steps[at]), "of": n, "in the assignment": inside, "case": d0()}));
        }
    } }
    // nothing assigned at all
    if n > 0 && k.steps.iter().any(|s| !matches!(s, Step::Enforce(_))) { expect(c, S::NAME, "proving", "AssignmentMissing", || S::prove(&pk, k.blank(), &mut c.tape()), &|| json!({"blank": true, "case": d0()})); }
    // the same key still serves the honest circuit
    let x = k.inputs.clone();
    match sut(|| S::prove(&pk, k.clone(), &mut c.tape())) {
        Sut::Val(Ok((vk, p))) => { let v = verdict(|| S::verify(&vk, &p, &x)); c.check(v.accepted(), &format!("{}: after failures the honest proof is not accepted", S::NAME), || d0()); }
        Sut::Val(Err(e)) => c.violation(&format!("{}: after failures honest proving fails", S::NAME), json!({"error": e, "case": d0()})),
        Sut::Panic(p) => c.violation(&format!("{}: after failures honest proving panics", S::NAME), json!({"panic": p, "case": d0()})),
    }
}
fn groth16_entry_points(c: &Case) {
    type E = ark_bls12_381::Bls12_381;
    let mut sh = Circ::<Fr>::random_shape(c); sh.n_con = sh.n_con.min(10); sh.n_aux = sh.n_aux.min(10); sh.n_in = sh.n_in.min(4);
    let k = Circ::<Fr>::with_shape(c, &sh);
    c.eval(&("entry", k.shape_fp()), true);
    let d = || json!({"circuit": k.describe()});
    let p = match sut(|| zkp_groth16::generate_random_parameters::<E, _, _>(k.blank(), &mut c.tape())) { Sut::Val(Ok(p)) => p, _ => { c.violation("groth16: setup without assignment fails", d()); return; } };
    for at in 0..k.steps.len() {
        let (e, inside) = (c.pick(&KINDS), c.chance(1, 2));
        let x = || { let mut x = k.clone(); x.fail = Some((at, e, inside)); x };
        let es = |r: Result<zkp_groth16::Proof<E>, SynthesisError>| r.map_err(|e| format!("{:?}", e));
        expect(c, "groth16 create_proof_no_zk", "proving", &named(e), || es(zkp_groth16::prover::create_proof_no_zk(&p, x())), &d);
        expect(c, "groth16 create_proof", "proving", &named(e), || es(zkp_groth16::prover::create_proof(&p, x(), rand_f(c), rand_f(c))), &d);
    }
}
/// gadgets whose operands have no value
fn gadgets<F: PrimeField>(c: &Case) {
    let names = ["bit", "bit xor", "bit and", "bit nor", "word", "word xor", "word addition", "word ch", "word maj", "sha256", "sha256 block", "blake2s", "mimc", "one-bit window", "two-bit window", "three-bit window", "point windows", "range", "non-zero", "scalar", "scalar input", "range right", "equality"];
    let g = c.idx as usize % names.len();
    c.eval(&(names[g], c.idx), true);
    // some operands may be known: the missing one is anywhere
    let n = match names[g] { "sha256" | "blake2s" => 8 * c.range(1, 70), "sha256 block" => 512, "word" | "word xor" | "word addition" | "word ch" | "word maj" => 96, _ => 8 };
    let miss = c.below(match names[g] { "bit" | "one-bit window" => 1, "bit xor" | "bit and" | "bit nor" | "two-bit window" | "equality" => 2, "three-bit window" | "point windows" => 3, _ => n });
    let all = c.chance(1, 3);
    let go = |r: &mut Rcs<F>| -> Result<(), SynthesisError> {
        let bit = |r: &mut Rcs<F>, i: usize| -> Result<Boolean, SynthesisError> { Ok(Boolean::from(AllocatedBit::alloc(r.ns(|| format!("b{}", i)), if all || i == miss { None } else { Some(i % 3 == 0) })?)) };
        let word = |r: &mut Rcs<F>, i: usize| UInt32::alloc(r.ns(|| format!("w{}", i)), if all || i == miss / 32 { None } else { Some(i as u32) });
        let bits = |r: &mut Rcs<F>, k: usize| -> Result<Vec<Boolean>, SynthesisError> { (0..k).map(|i| bit(r, i)).collect() };
        let t: Vec<F> = (0..8).map(|i| F::from(i as u32 * 3 + 1)).collect(); let xy: Vec<(F, F)> = t.iter().map(|x| (*x, *x)).collect();
        match names[g] {
            "bit" => { bit(r, 0)?; }
            "bit xor" => { let b = bits(r, 2)?; Boolean::xor(r.ns(|| "x"), &b[0], &b[1])?; }
            "bit and" => { let b = bits(r, 2)?; Boolean::and(r.ns(|| "x"), &b[0], &b[1])?; }
            "bit nor" => { let b = bits(r, 2)?; Boolean::and(r.ns(|| "x"), &b[0].not(), &b[1].not())?; }
            "equality" => { let b = bits(r, 2)?; Boolean::enforce_equal(r.ns(|| "x"), &b[0], &b[1])?; }
            "word" => { word(r, miss / 32)?; }
            "word xor" => { let (a, b, d) = (word(r, 0)?, word(r, 1)?, word(r, 2)?); let e = a.xor(r.ns(|| "x"), &b)?; e.xor(r.ns(|| "y"), &d)?; }
            "word addition" => { let v = vec![word(r, 0)?, word(r, 1)?, word(r, 2)?]; let m = zkp_gadgets::operator::multieq::MultiEq::new(&mut *r); UInt32::addmany(m, &v)?; }
            "word ch" => { let (a, b, d) = (word(r, 0)?, word(r, 1)?, word(r, 2)?); UInt32::sha256_ch(r.ns(|| "x"), &a, &b, &d)?; }
            "word maj" => { let (a, b, d) = (word(r, 0)?, word(r, 1)?, word(r, 2)?); UInt32::sha256_maj(r.ns(|| "x"), &a, &b, &d)?; }
            "sha256" => { let b = bits(r, n)?; sha256(r.ns(|| "x"), &b)?; }
            "sha256 block" => { let b = bits(r, n)?; sha256_block_no_padding(r.ns(|| "x"), &b)?; }
            "blake2s" => { let b = bits(r, n)?; blake2s(r.ns(|| "x"), &b, b"12345678")?; }
            "mimc" => { mimc::mimc(r.ns(|| "x"), None)?; }
            "one-bit window" => { let b = bits(r, 1)?; lookup1_x(r.ns(|| "x"), &b[0], &t[..2])?; }
            "two-bit window" => { let b = bits(r, 2)?; lookup2_x(r.ns(|| "x"), &b, &t[..4])?; }
            "three-bit window" => { let b = bits(r, 3)?; lookup3_x(r.ns(|| "x"), &b, &t)?; }
            "point windows" => { let b = bits(r, 3)?; lookup2_xy(r.ns(|| "y"), &b[..2], &xy[..4])?; lookup3_xy(r.ns(|| "x"), &b, &xy)?; }
            "range" => RangeProof::<F> { lhs: None, rhs: if all { None } else { Some(F::from(5u32)) }, n: 8 }.generate_constraints(r)?,
            "range right" => RangeProof::<F> { lhs: Some(F::from(3u32)), rhs: None, n: 8 }.generate_constraints(r)?,
            "non-zero" => { AllocatedFr::alloc(r.ns(|| "a"), || Err::<F, _>(SynthesisError::AssignmentMissing))?.isnonzero(r.ns(|| "x"))?; }
            "scalar" => { AllocatedFr::alloc(r.ns(|| "a"), || Err::<F, _>(SynthesisError::AssignmentMissing))?; }
            _ => { AllocatedFr::alloc_input(r.ns(|| "a"), || Err::<F, _>(SynthesisError::AssignmentMissing))?; }
        }
        Ok(())
    };
    let d = || json!({"gadget": names[g], "missing": miss, "everything missing": all});
    let mut r = Rcs::<F>::new();
    expect(c, names[g], "a gadget without operand values", "AssignmentMissing", || go(&mut r).map_err(|e| format!("{:?}", e)), &d);
    // setup does not ask
    let mut r = Rcs::<F>::new(); r.blank = true; r.keep_names = false;
    match sut(|| go(&mut r)) { Sut::Val(Ok(())) => c.count("gadget setups without operand values"), o => c.violation(&format!("{}: key generation without operand values fails", names[g]), json!({"panic": match o { Sut::Panic(p) => p, Sut::Val(e) => format!("{:?}", e.err()) }, "case": d()})) }
    // the bit gadget itself refuses
    let _ = bool_lc::<F>;
}
/// whole gadget circuits with a missing message, in a proof system
struct HashOf { m: Option<Vec<u8>>, n: usize }
impl ConstraintSynthesizer<Fr> for HashOf { fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
    let b: Vec<Boolean> = (0..8 * self.n).map(|i| Ok(Boolean::from(AllocatedBit::alloc(cs.ns(|| format!("m{}", i)), self.m.as_ref().map(|m| m[i / 8] >> (i % 8) & 1 == 1))?))).collect::<Result<_, SynthesisError>>()?;
    let h = blake2s(cs.ns(|| "h"), &b, b"12345678")?;
    let v = h[0].get_value().map(|b| if b { Fr::from(1u32) } else { Fr::from(0u32) });
    let o = cs.alloc_input(|| "o", || v.ok_or(SynthesisError::AssignmentMissing))?;
    cs.enforce(|| "o", |lc| lc + o, |lc| lc + CS::one(), |_| h[0].lc(CS::one(), Fr::from(1u32)));
    Ok(())
} }
fn hash_circuit(c: &Case) {
    type E = ark_bls12_381::Bls12_381;
    let n = c.range(1, 8);
    c.eval(&("hash", n, c.idx), true);
    let p = match sut(|| zkp_groth16::generate_random_parameters::<E, _, _>(HashOf { m: None, n }, &mut c.tape())) { Sut::Val(Ok(p)) => p, o => { c.violation("groth16: setup of a hash circuit without a message fails", json!({"panicked": o.panicked()})); return; } };
    expect(c, "groth16 hash circuit", "proving", "AssignmentMissing", || zkp_groth16::create_random_proof(&p, HashOf { m: None, n }, &mut c.tape()).map_err(|e| format!("{:?}", e)), &|| json!({"bytes": n}));
    match sut(|| zkp_groth16::create_random_proof(&p, HashOf { m: Some(vec![0x5a; n]), n }, &mut c.tape()).is_ok()) { Sut::Val(true) => c.count("hash circuits proved with the same key"), _ => c.violation("groth16: the hash circuit cannot be proved with the key of a setup without message", json!({"bytes": n})) }
}
fn main() {
    let ctx = Ctx::new("C30", "one circuit (or gadget) with failures injected at its allocations and steps; distinct by scheme and circuit");
    ctx.run(vec![
        sc("groth16", 24, |c| scheme::<Groth16>(c, 12)),
        sc("groth16 entry points", 20, groth16_entry_points),
        sc("bulletproofs", 16, |c| scheme::<BpBls>(c, 8)),
        sc("bulletproofs over curve25519", 16, |c| scheme::<Bp25519>(c, 8)),
        sc("spartan nizk", 16, |c| scheme::<Nizk>(c, 8)),
        sc("spartan nizk over curve25519", 8, |c| scheme::<Nizk25519>(c, 8)),
        sc("spartan snark", 10, |c| scheme::<Snark>(c, 6)),
        sc("spartan snark over curve25519", 6, |c| scheme::<Snark25519>(c, 6)),
        sc("marlin", 12, |c| scheme::<Marlin>(c, 8)),
        sc("gadgets", 230, |c| gadgets::<Fr>(c)),
        sc("gadgets over curve25519 scalars", 69, |c| gadgets::<zkp_curve25519::Fr>(c)),
        once("hash circuit", 2, hash_circuit),
    ]);
    ctx.finish();
}
