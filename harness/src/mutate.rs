//! Token-level mutation of serialized objects: the serializer itself is the schema.
use crate::Case;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use rand::RngCore;
use ark_std::io::{self, Write};

pub struct Enc { pub bytes: Vec<u8>, pub toks: Vec<(usize, usize)> }
impl Write for Enc {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !b.is_empty() { self.toks.push((self.bytes.len(), b.len())); }
        self.bytes.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn enc<T: CanonicalSerialize>(t: &T) -> Enc {
    let mut e = Enc { bytes: vec![], toks: vec![] };
    t.serialize(&mut e).unwrap();
    e
}
pub fn bytes<T: CanonicalSerialize>(t: &T) -> Vec<u8> { enc(t).bytes }
pub fn from_bytes<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
    let mut r = b;
    let t = T::deserialize(&mut r).ok()?;
    if r.is_empty() { Some(t) } else { None }
}

/// What the elements of an encoding look like.
pub trait Codec: Sync {
    /// classify the token at `at` and produce a replacement of (byte range, new bytes, description)
    fn mutate_elem(&self, c: &Case, e: &Enc, at: usize) -> Option<(usize, usize, Vec<u8>, String)>;
    fn is_point(&self, _e: &Enc, _at: usize) -> bool { false }
}

pub fn mutate_scalar<F: PrimeField>(c: &Case, e: &Enc, at: usize) -> Option<(usize, usize, Vec<u8>, String)> {
    let (o, l) = e.toks[at];
    let f: F = from_bytes(&e.bytes[o..o + l])?;
    let mut rng = c.tape();
    let (g, d) = match c.below(6) {
        0 => (f + F::one(), "+1"), 1 => (f - F::one(), "-1"), 2 => (-f, "negated"), 3 => (F::zero(), "zeroed"), 4 => (f + f, "doubled"),
        _ => (F::rand(&mut rng), "random") };
    let g = if g == f { f + F::one() } else { g };
    Some((o, o + l, bytes(&g), format!("scalar@{} {}", at, d)))
}
pub fn mutate_group<G: AffineCurve>(c: &Case, e: &Enc, o: usize, l: usize, at: usize, tag: &str) -> Option<(usize, usize, Vec<u8>, String)> {
    let p: G = from_bytes(&e.bytes[o..o + l])?;
    let mut rng = c.tape();
    let one = G::prime_subgroup_generator();
    let (q, d): (G, &str) = match c.below(5) {
        0 => (-p, "negated"), 1 => (G::zero(), "identity"), 2 => ((p.into_projective() + one.into_projective()).into_affine(), "+G"),
        3 => ((p.into_projective() + p.into_projective()).into_affine(), "doubled"),
        _ => (G::Projective::rand(&mut rng).into_affine(), "random") };
    let q = if q == p { (p.into_projective() + one.into_projective()).into_affine() } else { q };
    Some((o, o + l, bytes(&q), format!("{}@{} {}", tag, at, d)))
}

/// BLS12-381: scalars of 32 bytes, G1 of 48 bytes, G2 of 2 x 48 bytes.
pub struct Bls;
impl Codec for Bls {
    fn mutate_elem(&self, c: &Case, e: &Enc, at: usize) -> Option<(usize, usize, Vec<u8>, String)> {
        let (o, l) = e.toks[at];
        match l {
            32 => mutate_scalar::<ark_bls12_381::Fr>(c, e, at),
            48 => mutate_group::<ark_bls12_381::G1Affine>(c, e, o, 48, at, "G1").or_else(||
                if at + 1 < e.toks.len() && e.toks[at + 1].1 == 48 { mutate_group::<ark_bls12_381::G2Affine>(c, e, o, 96, at, "G2") } else { None }),
            _ => None,
        }
    }
    fn is_point(&self, e: &Enc, at: usize) -> bool { e.toks[at].1 == 48 }
}
/// Curve25519: scalars and points of 32 bytes; a token that decodes as a point after the honest
/// encoding is tried as a point with probability 1/2, since the widths agree.
pub struct C25519;
impl Codec for C25519 {
    fn mutate_elem(&self, c: &Case, e: &Enc, at: usize) -> Option<(usize, usize, Vec<u8>, String)> {
        use zkp_curve25519::{Curve25519Point, Fr};
        let (o, l) = e.toks[at];
        if l != 32 { return None; }
        let pt: Option<Curve25519Point> = from_bytes(&e.bytes[o..o + 32]);
        if let Some(p) = pt {
            if c.chance(4, 5) {
                let mut rng = c.tape();
                let r = <Curve25519Point as UniformRand>::rand(&mut rng);
                let (q, d) = match c.below(4) { 0 => (-p, "negated"), 1 => (Curve25519Point::zero(), "identity"), 2 => (p + r, "shifted"), _ => (r, "random") };
                return Some((o, o + 32, bytes(&q), format!("pt@{} {}", at, d)));
            }
        }
        mutate_scalar::<Fr>(c, e, at)
    }
    fn is_point(&self, _: &Enc, _: usize) -> bool { false }
}

pub fn splice(b: &[u8], from: usize, to: usize, new: &[u8]) -> Vec<u8> {
    let mut v = b[..from].to_vec(); v.extend_from_slice(new); v.extend_from_slice(&b[to..]); v
}
fn len_at(e: &Enc, at: usize) -> Option<u64> {
    let (o, l) = e.toks[at];
    if l != 8 { return None; }
    let mut b = [0u8; 8]; b.copy_from_slice(&e.bytes[o..o + 8]); Some(u64::from_le_bytes(b))
}

/// A semantic change of one element (value level): decodes, and differs from the original.
pub fn mutate_value<T: CanonicalSerialize + CanonicalDeserialize>(c: &Case, codec: &dyn Codec, t: &T) -> Option<(T, String)> {
    let e = enc(t);
    for _ in 0..60 {
        let at = c.below(e.toks.len());
        let m = match c.below(10) {
            0 => { // exchange two elements of equal width
                let b = c.below(e.toks.len()); let (o1, l1) = e.toks[at]; let (o2, l2) = e.toks[b];
                if l1 != l2 || o1 == o2 || l1 == 8 { continue; }
                let (x, y) = (e.bytes[o1..o1 + l1].to_vec(), e.bytes[o2..o2 + l2].to_vec());
                let v = splice(&splice(&e.bytes, o1, o1 + l1, &y), o2, o2 + l2, &x);
                (v, format!("swap {}<->{} ({} bytes)", at, b, l1))
            }
            1 => { // overwrite with another element
                let b = c.below(e.toks.len()); let (o1, l1) = e.toks[at]; let (o2, l2) = e.toks[b];
                if l1 != l2 || l1 == 8 { continue; }
                let y = e.bytes[o2..o2 + l2].to_vec();
                (splice(&e.bytes, o1, o1 + l1, &y), format!("copy {}->{} ({} bytes)", b, at, l1))
            }
            _ => match codec.mutate_elem(c, &e, at) { Some((f, t2, n, d)) => (splice(&e.bytes, f, t2, &n), d), None => continue },
        };
        if m.0 == e.bytes { continue; }
        if let Some(t2) = from_bytes::<T>(&m.0) { if bytes(&t2) != e.bytes { return Some((t2, m.1)); } }
    }
    None
}
/// Change element `at` only (for sweeps over every element).
pub fn mutate_at<T: CanonicalSerialize + CanonicalDeserialize>(c: &Case, codec: &dyn Codec, t: &T, at: usize) -> Option<(T, String)> {
    let e = enc(t);
    if at >= e.toks.len() { return None; }
    for _ in 0..8 {
        if let Some((f, t2, n, d)) = codec.mutate_elem(c, &e, at) {
            let b = splice(&e.bytes, f, t2, &n);
            if b != e.bytes { if let Some(t2) = from_bytes::<T>(&b) { return Some((t2, d)); } }
        } else { return None; }
    }
    None
}
pub fn n_tokens<T: CanonicalSerialize>(t: &T) -> usize { enc(t).toks.len() }

/// Structural changes: list lengths changed so that the result still decodes.
pub fn mutate_shape<T: CanonicalSerialize + CanonicalDeserialize>(c: &Case, t: &T) -> Option<(T, String)> {
    let e = enc(t);
    let lens: Vec<usize> = (0..e.toks.len()).filter(|&i| len_at(&e, i).map_or(false, |n| n < 1 << 20)).collect();
    if lens.is_empty() { return None; }
    for _ in 0..40 {
        let at = lens[c.below(lens.len())];
        let n = len_at(&e, at).unwrap();
        let (o, _) = e.toks[at];
        let start = o + 8;
        let mode = c.below(5);
        // candidate element boundaries after the length token
        for _ in 0..12 {
            let k = 1 + c.below(e.toks.len().saturating_sub(at + 1).max(1).min(24));
            if at + k >= e.toks.len() { continue; }
            let end = e.toks[at + k].0 + e.toks[at + k].1;
            let elem = e.bytes[start..end].to_vec();
            let (b, d) = match mode {
                0 if n > 0 => (splice(&splice(&e.bytes, start, end, &[]), o, o + 8, &(n - 1).to_le_bytes()), "first element removed"),
                1 => (splice(&splice(&e.bytes, start, start, &elem), o, o + 8, &(n + 1).to_le_bytes()), "first element duplicated"),
                2 => (splice(&splice(&e.bytes, start, end, &[]), o, o + 8, &0u64.to_le_bytes()), "list emptied"),
                3 => (splice(&splice(&e.bytes, start, end, &[]), o, o + 8, &1u64.to_le_bytes()), "list cut to one"),
                _ => { let m = c.range(2, 40) as u64; let mut el = vec![]; for _ in 0..m { el.extend_from_slice(&elem); }
                    (splice(&splice(&e.bytes, start, start, &el), o, o + 8, &(n + m).to_le_bytes()), "list lengthened") }
            };
            if b == e.bytes { continue; }
            if let Some(t2) = from_bytes::<T>(&b) {
                if bytes(&t2) == b { return Some((t2, format!("list@{} (len {}): {}", at, n, d))); }
            }
        }
    }
    None
}
/// Byte-level garbage for decoders.
pub fn garble(c: &Case, b: &[u8]) -> (Vec<u8>, String) {
    let mut v = b.to_vec();
    let mut rng = c.rng.borrow_mut();
    let mut r = |n: usize| (rng.next_u64() % n.max(1) as u64) as usize;
    match r(7) {
        0 => { let n = r(v.len() + 1); v.truncate(n); (v, format!("truncated to {}", n)) }
        1 => { let n = 1 + r(4); for _ in 0..n { let i = r(v.len()); v[i] ^= 1 << r(8); } (v, format!("{} bit flips", n)) }
        2 => { let i = r(v.len()); let n = 1 + r(16); for j in i..(i + n).min(v.len()) { v[j] = 0xff; } (v, format!("0xff at {}", i)) }
        3 => { let i = r(v.len()); for j in i..(i + 8).min(v.len()) { v[j] = 0; } (v, format!("zeros at {}", i)) }
        4 => { // a length field made large
            let i = r(v.len().saturating_sub(8) / 8 + 1) * 8; if i + 8 <= v.len() { let x: u64 = [u64::MAX, 1 << 40, 1 << 63, 65536, 255][r(5)]; v[i..i + 8].copy_from_slice(&x.to_le_bytes()); } (v, format!("u64 at {}", i)) }
        5 => { let i = r(v.len()); let j = r(v.len()); let (a, b2) = (i.min(j), i.max(j)); v.drain(a..b2); (v, format!("cut {}..{}", a, b2)) }
        _ => { let n = r(200); let mut w = vec![0u8; n]; for x in w.iter_mut() { *x = r(256) as u8; } (w, "random bytes".into()) }
    }
}
