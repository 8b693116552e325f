//! MiMC, Poseidon and Rescue: native function, circuit and exposed output.
use ark_ff::PrimeField;
use rand::RngCore;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;
use vh::{gadgets::*, rcs::*, *};
use zkp_gadgets::hashes::{abstract_hash::AbstractHashOutput, mimc, poseidon, rescue};
use zkp_r1cs::ConstraintSystem;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum H { Mimc, Poseidon, Rescue }
const ALL: [H; 3] = [H::Mimc, H::Poseidon, H::Rescue];
fn native<F: PrimeField>(h: H, m: &[u8]) -> Sut<F> { sut(|| match h { H::Mimc => mimc::hash::<F>(m), H::Poseidon => poseidon::hash::<F>(m), H::Rescue => rescue::hash::<F>(m) }) }
fn message(c: &Case, n: usize) -> Vec<u8> {
    let mut m = vec![0u8; n];
    match c.below(8) { 0 => for x in m.iter_mut() { *x = 0xff; }, 1 => for x in m.iter_mut() { *x = b'a' + c.below(26) as u8; }, 2 => { m[n - 1] = 1; } 3 => { c.rng.borrow_mut().fill_bytes(&mut m); for i in (31..n).step_by(32) { m[i] &= 0x1f; } } _ => c.rng.borrow_mut().fill_bytes(&mut m) }
    m
}
/// what the message means as field elements: chunks of the field's size, little endian
fn meaning<F: PrimeField>(m: &[u8]) -> Vec<F> {
    m.chunks(32).map(|k| { let mut v = F::zero(); for b in k.iter().rev() { v *= &F::from(256u64); v += &F::from(*b as u64); } v }).collect()
}
type Seen = Mutex<HashMap<(H, Vec<u8>), Vec<u8>>>;
fn circuit<F: PrimeField>(c: &Case, h: H, n: usize) {
    let m = message(c, n);
    c.eval(&(h, &m), true);
    c.count(&format!("{:?} circuits", h));
    let d = || json!({"hash": format!("{:?}", h), "length": n, "message": m.iter().take(100).map(|b| format!("{:02x}", b)).collect::<String>()});
    let want: F = match native(h, &m) { Sut::Val(v) => v, Sut::Panic(p) => { c.violation(&format!("{:?}: the native function panics", h), json!({"panic": p, "case": d()})); return; } };
    let name = format!("{:?}", h);
    judge::<F>(c, &name, 8, &d, &|r, known| {
        let told; let out;
        match h {
            H::Mimc => { let o = mimc::mimc_image(r.ns(|| "h"), if known { Some(&m[..]) } else { None })?; told = o.get_value(); out = r.ix(o.get_variables()[0]); }
            H::Poseidon => { told = Some(poseidon::poseidon(r.ns(|| "h"), &m)?); out = (1..r.n()).filter(|i| r.is_input[*i]).last().unwrap(); }
            H::Rescue => { told = Some(rescue::rescue(r.ns(|| "h"), &m)?); out = (1..r.n()).filter(|i| r.is_input[*i]).last().unwrap(); }
        }
        // the message enters as the first two variables
        Ok(Built { given: vec![1, 2], outs: vec![Res { name: "hash".into(), lc: vec![(out, F::one())], told, want }] })
    });
    // the function that returns the value only
    if h == H::Mimc {
        let mut r = Rcs::<F>::new();
        match sut(|| mimc::mimc(r.ns(|| "h"), Some(&m))) {
            Sut::Val(Ok(v)) => { c.check(v == Some(want) && r.violated().is_none(), "Mimc: the value gadget disagrees", || d());
                c.check(r.vals[1..].iter().any(|x| *x == want), "Mimc: the hash is not among the circuit's values", || d()); }
            o => c.violation("Mimc: the value gadget fails", json!({"outcome": format!("{:?}", o.panicked()), "case": d()})),
        }
    }
}
fn bytes<F: PrimeField>(c: &Case, h: H, n: usize, seen: &Seen) {
    let m = message(c, n);
    let hex = |m: &[u8]| m.iter().take(200).map(|b| format!("{:02x}", b)).collect::<String>();
    let f = |m: &[u8]| -> Option<F> { match native(h, m) { Sut::Val(v) => Some(v), Sut::Panic(p) => { c.violation(&format!("{:?}: the native function panics", h), json!({"panic": p, "message": hex(m)})); None } } };
    let base = match f(&m) { Some(v) => v, None => return };
    c.eval(&(h, &m, "bytes"), true);
    let note = |m: &[u8], v: F| {
        // distinct meanings have distinct hashes
        let mut key = vec![]; v.write(&mut key).unwrap();
        let mut k = vec![]; for x in meaning::<F>(m) { x.write(&mut k).unwrap(); }
        let mut s = seen.lock().unwrap();
        let old = s.entry((h, key)).or_insert_with(|| k.clone());
        if *old != k { c.violation(&format!("{:?}: two messages with one hash", h), json!({"elements of one": hex(old), "elements of the other": hex(&k)})); }
    };
    note(&m, base);
    let again = f(&m); c.check(again == Some(base), &format!("{:?}: not a function of the message", h), || json!({"message": hex(&m)}));
    let step = (n / 40).max(1); let off = c.below(step);
    for i in (off..n).step_by(step).chain(Some(n - 1)).chain(Some(0)) {
        let mut x = m.clone();
        x[i] = match c.below(3) { 0 => x[i] ^ 1, 1 => x[i] ^ 0x80, _ => { let mut d = 0; while d == 0 { d = c.below(256) as u8; } x[i] ^ d } };
        if let Some(v) = f(&x) { c.count("single bytes changed"); c.check(v != base, &format!("{:?}: the hash does not depend on every byte", h), || json!({"message": hex(&m), "byte": i, "length": n})); note(&x, v); } else { return; }
    }
    if m[n - 1] != 0 && n > 1 { if let Some(v) = f(&m[..n - 1]) { c.count("messages shortened"); c.check(v != base, &format!("{:?}: the last byte may be dropped", h), || json!({"message": hex(&m)})); note(&m[..n - 1], v); } }
    let mut x = m.clone(); x.push(1 + c.below(255) as u8);
    if let Some(v) = f(&x) { c.count("messages lengthened"); c.check(v != base, &format!("{:?}: a byte may be appended", h), || json!({"message": hex(&m)})); note(&x, v); }
    // blocks in another order
    if n >= 64 { let mut x = m.clone(); for i in 0..32 { x.swap(i, 32 + i); } if meaning::<F>(&x) != meaning::<F>(&m) { if let Some(v) = f(&x) { c.count("blocks exchanged"); c.check(v != base, &format!("{:?}: blocks commute", h), || json!({"message": hex(&m)})); note(&x, v); } } }
}
/// the messages whose hashes are on record, and the hashes
fn answers<F: PrimeField>(field: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in [1usize, 31, 32, 33, 64, 100] { let m: Vec<u8> = (0..n).map(|i| (i * i * 7 + 13 * i + n) as u8).collect();
        for h in ALL { if let Sut::Val(x) = native::<F>(h, &m) { v.push((format!("{:?} over {}, {} bytes", h, field, n), x.to_string())); } } }
    v
}
fn on_record(c: &Case) {
    let t: HashMap<String, String> = serde_json::from_str(include_str!("../../tables/c24.json")).unwrap();
    let mut all = answers::<Fr>("bls12-381 scalars"); all.extend(answers::<zkp_curve25519::Fr>("curve25519 scalars"));
    c.check(all.len() == t.len(), "a native function panics on a message whose hash is on record", || json!({"on record": t.len(), "computed": all.len()}));
    for (k, v) in all { c.eval(&(&k, &v), true); c.count("hashes on record"); c.check(t.get(&k) == Some(&v), &format!("the function is another one: {}", k.split(' ').next().unwrap()), || json!({"message": k, "hash": v, "on record": t.get(&k)})); }
}
fn main() {
    if std::env::args().any(|a| a == "--table") { let mut all = answers::<Fr>("bls12-381 scalars"); all.extend(answers::<zkp_curve25519::Fr>("curve25519 scalars")); let m: std::collections::BTreeMap<_, _> = all.into_iter().collect(); println!("{}", serde_json::to_string(&m).unwrap().replace("\",\"", "\",\n\"")); return; }
    type B = Fr; type D = zkp_curve25519::Fr;
    let ctx = Ctx::new("C24", "one message hashed natively and in a circuit, or one message with its bytes changed; distinct by function and message");
    let (sb, sd): (Seen, Seen) = Default::default();
    ctx.run(vec![
        once("hashes on record", 1, on_record),
        sc("circuit", 60, |c| circuit::<B>(c, ALL[c.idx as usize % 3], c.range(1, 160))),
        once("circuit lengths", 3 * 24, |c| { let l = [1, 2, 5, 7, 8, 16, 30, 31, 32, 33, 40, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 200, 255, 320]; circuit::<B>(c, ALL[c.idx as usize % 3], l[c.idx as usize / 3]) }),
        sc("circuit over curve25519 scalars", 20, |c| circuit::<D>(c, c.pick(&ALL), c.range(1, 100))),
        once("bytes of every length", 3 * 100, |c| bytes::<B>(c, ALL[c.idx as usize % 3], 1 + c.idx as usize / 3, &sb)),
        sc("bytes of long messages", 12, |c| bytes::<B>(c, c.pick(&ALL), c.range(100, 400), &sb)),
        sc("bytes over curve25519 scalars", 20, |c| bytes::<D>(c, c.pick(&ALL), c.range(1, 100), &sd)),
    ]);
    ctx.finish();
}
