//! SHA-256 and BLAKE2s circuits against reference implementations.
use ark_ff::PrimeField;
use rand::RngCore;
use serde_json::json;
use sha2::Digest;
use vh::{gadgets::*, rcs::*, *};
use zkp_gadgets::hashes::{blake2s::blake2s, sha256::{sha256, sha256_block_no_padding}};
use zkp_r1cs::{ConstraintSystem, SynthesisError};

#[derive(Clone, Copy, PartialEq, Debug)]
enum H { Sha, Block, Blake }
fn message(c: &Case, n: usize) -> Vec<u8> {
    let mut m = vec![0u8; n];
    match c.below(5) { 0 => {} 1 => for x in m.iter_mut() { *x = 0xff; }, 2 => for (i, x) in m.iter_mut().enumerate() { *x = i as u8; }, _ => c.rng.borrow_mut().fill_bytes(&mut m) }
    m
}
/// compression of one block from the initial state, without padding
fn sha_block(m: &[u8]) -> Vec<u8> {
    const K: [u32; 64] = [0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];
    let iv: [u32; 8] = [0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19];
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([m[4 * i], m[4 * i + 1], m[4 * i + 2], m[4 * i + 3]]); }
    for i in 16..64 { let (a, b) = (w[i - 15], w[i - 2]); w[i] = w[i - 16].wrapping_add(a.rotate_right(7) ^ a.rotate_right(18) ^ a >> 3).wrapping_add(w[i - 7]).wrapping_add(b.rotate_right(17) ^ b.rotate_right(19) ^ b >> 10); }
    let mut s = iv;
    for i in 0..64 {
        let t1 = s[7].wrapping_add(s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25)).wrapping_add((s[4] & s[5]) ^ (!s[4] & s[6])).wrapping_add(K[i]).wrapping_add(w[i]);
        let t2 = (s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22)).wrapping_add((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
        s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
    }
    (0..8).flat_map(|i| s[i].wrapping_add(iv[i]).to_be_bytes().to_vec()).collect()
}
fn circuit<F: PrimeField>(h: H, r: &mut Rcs<F>, known: bool, ops: &[Op], pers: &[u8]) -> Result<(Vec<usize>, Vec<zkp_gadgets::algebra::boolean::Boolean>), SynthesisError> {
    let x = operands(r, known, ops, "m")?; let given = (1..r.n()).collect();
    let b: Vec<_> = x.iter().map(|y| y.0).collect();
    let cs = r.ns(|| "hash");
    Ok((given, match h { H::Sha => sha256(cs, &b)?, H::Block => sha256_block_no_padding(cs, &b)?, H::Blake => blake2s(cs, &b, pers)? }))
}
fn run<F: PrimeField>(c: &Case, h: H, n: usize, mix: bool) {
    let m = message(c, n);
    let mut pers = [0u8; 8]; if !c.chance(1, 4) { c.rng.borrow_mut().fill_bytes(&mut pers); }
    let be = h != H::Blake;
    let bit = |b: &[u8], i: usize| if be { b[i / 8] >> (7 - i % 8) & 1 == 1 } else { b[i / 8] >> (i % 8) & 1 == 1 };
    let style = c.below(4);
    let ops: Vec<Op> = (0..8 * n).map(|i| { let b = bit(&m, i); if !mix { return Op::Is(b); } match style { 0 => Op::Const(b), 1 => if i < 4 * n { Op::Const(b) } else { Op::Is(b) }, _ => match c.below(4) { 0 => Op::Const(b), 1 => Op::Not(b), 2 => Op::Input(b), _ => Op::Is(b) } } }).collect();
    let want = match h { H::Sha => sha2::Sha256::digest(&m).to_vec(), H::Block => sha_block(&m), H::Blake => blake2s_simd::Params::new().hash_length(32).personal(&pers).hash(&m).as_bytes().to_vec() };
    c.eval(&(h as u8, &m, &pers, style, mix), n > 0 && !(mix && style == 0));
    c.count(&format!("{:?}: {} block(s)", h, match h { H::Sha => (n + 9 + 63) / 64, H::Block => 1, H::Blake => ((n + 63) / 64).max(1) }));
    let name = match h { H::Sha => "sha256", H::Block => "sha256 block", H::Blake => "blake2s" };
    let d = || json!({"length": n, "operands": if mix { "mixed" } else { "allocated" }, "style": style, "message": m.iter().take(80).map(|b| format!("{:02x}", b)).collect::<String>(), "personalization": format!("{:02x?}", pers)});
    let r = judge::<F>(c, name, 6, &d, &|r, known| {
        let (given, out) = circuit(h, r, known, &ops, &pers)?;
        c.check(out.len() == 256, &format!("{}: not 256 digest bits", name), || d());
        Ok(Built { given, outs: out.iter().enumerate().map(|(i, b)| res_bit(r, "digest bit", b, i < 256 && bit(&want, i))).collect() })
    });
    // altering any single allocated value
    if let Some(r) = r {
        let first = { let mut q = Rcs::<F>::new(); q.keep_names = false; operands(&mut q, true, &ops, "m").unwrap(); q.n() };
        if first >= r.n() { return; }
        let mut occ: Vec<Vec<usize>> = vec![vec![]; r.n()];
        for (k, (a, b, l, _)) in r.cons.iter().enumerate() { for (v, _) in a.iter().chain(b).chain(l) { if occ[*v].last() != Some(&k) { occ[*v].push(k); } } }
        let mut v = r.vals.clone();
        for i in first..r.n() {
            let keep = v[i];
            v[i] = if c.chance(3, 4) { F::one() - &keep } else { circ::rand_f(c) };
            if v[i] != keep && !occ[i].iter().any(|&k| { let (a, b, l, _) = &r.cons[k]; r.eval(a, &v) * &r.eval(b, &v) != r.eval(l, &v) }) {
                c.violation(&format!("{}: an allocated value may be altered", name), json!({"variable": r.names[i], "to": v[i].to_string(), "case": d()})); return;
            }
            v[i] = keep;
        }
        c.count_n("single allocated values altered", (r.n() - first) as u64);
    }
}
/// a chain through the circuit: the digest bits of one hash are the message of the next
fn chain<F: PrimeField>(c: &Case) {
    let n = c.range(1, 70); let m = message(c, n);
    let k = c.range(2, 3);
    let mut want = m.clone(); for _ in 0..k { want = sha2::Sha256::digest(&want).to_vec(); }
    c.eval(&(&m, k), true); c.count("sha256 chains");
    let ops: Vec<Op> = (0..8 * n).map(|i| Op::Is(m[i / 8] >> (7 - i % 8) & 1 == 1)).collect();
    judge::<F>(c, "sha256 chain", 4, &|| json!({"length": n, "hashes": k}), &|r, known| {
        let x = operands(r, known, &ops, "m")?; let given = (1..r.n()).collect();
        let mut b: Vec<_> = x.iter().map(|y| y.0).collect();
        for i in 0..k { b = sha256(r.ns(|| format!("hash {}", i)), &b)?; }
        Ok(Built { given, outs: b.iter().enumerate().map(|(i, b)| res_bit(r, "digest bit", b, want[i / 8] >> (7 - i % 8) & 1 == 1)).collect() })
    });
}
/// the interface by which other gadgets use it: outputs joined, hashed, and the result exposed as variables
fn exposed<F: PrimeField>(c: &Case) {
    use zkp_gadgets::hashes::{abstract_hash::{AbstractHash, AbstractHashOutput}, sha256::{AbstractHashSha256, AbstractHashSha256Output as Out}};
    let parts: Vec<(Vec<u8>, bool)> = (0..c.range(1, 3)).map(|_| { let n = c.pick(&[0, 1, 4, 32, 32]); (message(c, n), c.chance(1, 3)) }).collect();
    let again = c.chance(1, 2);
    let join: Vec<u8> = parts.iter().flat_map(|p| p.0.clone()).collect();
    let mut want = sha2::Sha256::digest(&join).to_vec();
    if again { let mut m = want.clone(); m.extend(&parts[0].0); want = sha2::Sha256::digest(&m).to_vec(); }
    c.eval(&(&parts, again), !join.is_empty()); c.count(&format!("sha256 outputs hashed, {} part(s){}", parts.len(), if again { ", twice" } else { "" }));
    let d = || json!({"parts": parts.iter().map(|p| json!({"bytes": p.0.len(), "public": p.1})).collect::<Vec<_>>(), "hashed again": again});
    judge::<F>(c, "sha256 exposed", 6, &d, &|r, _| {
        let mut outs = vec![];
        for (i, (b, public)) in parts.iter().enumerate() { let cs = r.ns(|| format!("part {}", i)); outs.push(if *public { Out::alloc_input::<F, _>(cs, b.clone())? } else { Out::alloc::<F, _>(cs, b.clone())? }); }
        let given = (1..r.n()).collect();
        let mut res = vec![];
        for (o, (b, _)) in outs.iter().zip(&parts) {
            let (v, x) = (AbstractHashOutput::<F>::get_variables(o), AbstractHashOutput::<F>::get_variable_values(o));
            c.check(v.len() == 8 * b.len() && x.len() == v.len(), "sha256 exposed: an allocated value has another number of bits", || d());
            for (i, (v, x)) in v.iter().zip(&x).enumerate() { let w = b[i / 8] >> (7 - i % 8) & 1 == 1; res.push(Res { name: "allocated bit".into(), lc: vec![(r.ix(*v), F::one())], told: *x, want: fb(w) }); }
        }
        let mut h = AbstractHashSha256::<F>::hash_enforce(r.ns(|| "hash"), &outs.iter().collect::<Vec<_>>())?;
        if again { h = AbstractHashSha256::<F>::hash_enforce(r.ns(|| "hash again"), &[&h, &outs[0]])?; }
        let (v, x) = (AbstractHashOutput::<F>::get_variables(&h), AbstractHashOutput::<F>::get_variable_values(&h));
        c.check(v.len() == 256 && x.len() == 256, "sha256 exposed: not 256 digest bits", || d());
        for (i, (v, x)) in v.iter().zip(&x).enumerate().take(256) { res.push(Res { name: "digest bit".into(), lc: vec![(r.ix(*v), F::one())], told: *x, want: fb(want[i / 8] >> (7 - i % 8) & 1 == 1) }); }
        for (i, b) in h.get_value().unwrap_or_default().iter().enumerate().take(256) { res.push(res_bit(r, "digest bit (value)", b, want[i / 8] >> (7 - i % 8) & 1 == 1)); }
        Ok(Built { given, outs: res })
    });
}
/// messages so long that their length needs another byte; the message is known to the circuit, so nothing is allocated
fn very_long<F: PrimeField>(c: &Case, h: H, n: usize) {
    let mut m = vec![0u8; n]; c.rng.borrow_mut().fill_bytes(&mut m);
    let pers = *b"very lon";
    let want = if h == H::Sha { sha2::Sha256::digest(&m).to_vec() } else { blake2s_simd::Params::new().hash_length(32).personal(&pers).hash(&m).as_bytes().to_vec() };
    let bit = |b: &[u8], i: usize| if h == H::Sha { b[i / 8] >> (7 - i % 8) & 1 == 1 } else { b[i / 8] >> (i % 8) & 1 == 1 };
    let ops: Vec<Op> = (0..8 * n).map(|i| Op::Const(bit(&m, i))).collect();
    c.eval(&(h as u8, n), true); c.count(&format!("{:?}: messages of more than 8000 bytes", h));
    let mut r = Rcs::<F>::new(); r.keep_names = false;
    match sut(|| circuit(h, &mut r, true, &ops, &pers).map(|x| x.1.iter().map(|b| b.get_value()).collect::<Vec<_>>())) {
        Sut::Val(Ok(v)) => { c.check(v.len() == 256 && v.iter().enumerate().all(|(i, b)| *b == Some(bit(&want, i))), &format!("{:?}: digest of a long message differs", h), || json!({"length": n})); }
        Sut::Val(Err(e)) => c.violation(&format!("{:?}: long message: error", h), json!({"length": n, "error": format!("{:?}", e)})),
        Sut::Panic(p) => c.violation(&format!("{:?}: long message: panic", h), json!({"length": n, "panic": p})),
    }
}
fn main() {
    type B = Fr; type D = zkp_curve25519::Fr;
    let ctx = Ctx::new("C23", "one hash circuit over a non-empty, not wholly constant message; distinct by message, personalization and operand kinds");
    ctx.run(vec![
        once("sha256 lengths", 131, |c| run::<B>(c, H::Sha, c.idx as usize, false)),
        once("blake2s lengths", 131, |c| run::<B>(c, H::Blake, c.idx as usize, false)),
        sc("sha256 mixed", 50, |c| run::<B>(c, H::Sha, c.range(0, 130), true)),
        sc("blake2s mixed", 40, |c| run::<B>(c, H::Blake, c.range(0, 130), true)),
        sc("sha256 block", 40, |c| run::<B>(c, H::Block, 64, c.idx % 2 == 0)),
        sc("curve25519 scalars", 40, |c| { let h = c.pick(&[H::Sha, H::Blake]); run::<D>(c, h, c.range(0, 70), c.idx % 2 == 0) }),
        sc("long messages", 6, |c| { let h = c.pick(&[H::Sha, H::Blake]); run::<B>(c, h, c.range(130, 500), false) }),
        sc("sha256 outputs", 24, |c| exposed::<B>(c)),
        once("very long messages", 6, |c| { let (h, n) = [(H::Sha, 8192), (H::Sha, 8191), (H::Sha, 8255), (H::Blake, 8193), (H::Blake, 65536), (H::Blake, 65537)][c.idx as usize % 6]; very_long::<B>(c, h, n) }),
        sc("sha256 chain", 10, |c| chain::<B>(c)),
    ]);
    ctx.finish();
}
