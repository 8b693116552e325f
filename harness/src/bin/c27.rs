//! The membership gadget: satisfied for every authentic path, and for nothing else.
use ark_ff::PrimeField;
use rand::RngCore;
use serde_json::{json, Value};
use sha2::Digest;
use std::marker::PhantomData;
use vh::{rcs::*, *};
use zkp_gadgets::hashes::{abstract_hash::*, mimc, poseidon, rescue, sha256};
use zkp_gadgets::merkletree::{cbmt::{Merge, CBMT}, cbmt_constraints::MerkleProofGadget};
use zkp_r1cs::{ConstraintSystem, SynthesisError};

type S<F> = Rcs<F>;
trait MH: 'static {
    type F: PrimeField; type H: AbstractHash<Self::F>; type Item: Ord + Default + Clone + std::fmt::Debug + std::hash::Hash; const NAME: &'static str; const BLANK: bool = false;
    fn alloc(r: &mut S<Self::F>, name: &str, v: &Self::Item, known: bool, input: bool) -> Result<<Self::H as AbstractHash<Self::F>>::Output, SynthesisError>;
    fn merge(l: &Self::Item, r: &Self::Item) -> Self::Item;
    fn leaf(c: &Case) -> Self::Item;
    fn other(c: &Case, v: &Self::Item) -> Self::Item;
}
struct Mg<M>(PhantomData<M>);
impl<M: MH> Merge for Mg<M> { type Item = M::Item; fn merge(l: &M::Item, r: &M::Item) -> M::Item { M::merge(l, r) } }
type Out<M> = <<M as MH>::H as AbstractHash<<M as MH>::F>>::Output;

struct Sha<F>(PhantomData<F>);
impl<F: PrimeField> MH for Sha<F> {
    type F = F; type H = sha256::AbstractHashSha256<F>; type Item = Vec<u8>; const NAME: &'static str = "sha256";
    fn alloc(r: &mut S<F>, name: &str, v: &Vec<u8>, _known: bool, input: bool) -> Result<sha256::AbstractHashSha256Output, SynthesisError> { let cs = r.ns(|| name.to_string()); if input { sha256::AbstractHashSha256Output::alloc_input(cs, v.clone()) } else { sha256::AbstractHashSha256Output::alloc(cs, v.clone()) } }
    fn merge(l: &Vec<u8>, r: &Vec<u8>) -> Vec<u8> { let mut h = sha2::Sha256::new(); h.update(l); h.update(r); h.finalize().to_vec() }
    fn leaf(c: &Case) -> Vec<u8> { let mut v = vec![0u8; c.pick(&[32, 32, 1, 4])]; c.rng.borrow_mut().fill_bytes(&mut v); v }
    fn other(c: &Case, v: &Vec<u8>) -> Vec<u8> { let mut x = v.clone(); if c.chance(1, 2) { let i = c.below(x.len()); x[i] ^= 1 << c.below(8); } else { for b in x.iter_mut() { *b ^= 1 + c.below(255) as u8; } } x }
}
macro_rules! field_hash { ($n:ident, $m:ident, $name:expr, $hash:ident, $out:ident, $blank:expr, $alloc:expr) => {
    struct $n<F>(PhantomData<F>);
    impl<F: PrimeField> MH for $n<F> {
        type F = F; type H = $m::$hash<F>; type Item = F; const NAME: &'static str = $name; const BLANK: bool = $blank;
        fn alloc(r: &mut S<F>, name: &str, v: &F, known: bool, input: bool) -> Result<$m::$out<F>, SynthesisError> { let k = if known { Some(*v) } else { None }; let cs = r.ns(|| name.to_string()); let f: fn(_, Option<F>, bool) -> Result<$m::$out<F>, SynthesisError> = $alloc; f(cs, k, input) }
        fn merge(l: &F, r: &F) -> F { let mut b = vec![]; l.write(&mut b).unwrap(); r.write(&mut b).unwrap(); $m::hash(&b) }
        fn leaf(c: &Case) -> F { circ::rand_f(c) }
        fn other(c: &Case, v: &F) -> F { loop { let x = match c.below(4) { 0 => *v + &F::one(), 1 => -*v, 2 => F::zero(), _ => circ::rand_f(c) }; if x != *v { return x; } } }
    }
} }
field_hash!(Mimc, mimc, "mimc", AbstractHashMimc, AbstractHashMimcOutput, true, |cs, v, input| if input { mimc::AbstractHashMimcOutput::alloc_input(cs, v) } else { mimc::AbstractHashMimcOutput::alloc(cs, v) });
field_hash!(Poseidon, poseidon, "poseidon", AbstractHashPoseidon, AbstractHashPoseidonOutput, false, |cs, v, _| poseidon::AbstractHashPoseidonOutput::alloc(cs, v));
field_hash!(Rescue, rescue, "rescue", AbstractHashRescue, AbstractHashRescueOutput, false, |cs, v, _| rescue::AbstractHashRescueOutput::alloc(cs, v));

struct Built<F: PrimeField> { r: S<F>, root: Vec<usize>, leaf: Vec<usize>, lemmas: Vec<Vec<usize>> }
fn build<M: MH>(index: u32, lemmas: &[M::Item], root: &M::Item, leaf: &M::Item, known: bool) -> Sut<Result<Built<M::F>, SynthesisError>> {
    sut(|| {
        let mut r = S::<M::F>::new(); r.blank = !known;
        let root_o = M::alloc(&mut r, "root", root, known, true)?;
        let leaf_o = M::alloc(&mut r, "leaf", leaf, known, false)?;
        let mut l: Vec<Out<M>> = vec![]; for (i, v) in lemmas.iter().enumerate() { l.push(M::alloc(&mut r, &format!("lemma {}", i), v, known, false)?); }
        let vs = |r: &S<M::F>, o: &Out<M>| -> Vec<usize> { o.get_variables().iter().map(|v| r.ix(*v)).collect() };
        let (rv, lv, mv) = (vs(&r, &root_o), vs(&r, &leaf_o), l.iter().map(|o| vs(&r, o)).collect());
        MerkleProofGadget::<u32, M::F, M::H>::new(index, l).set_membership(r.ns(|| "membership"), root_o, leaf_o)?;
        Ok(Built { r, root: rv, leaf: lv, lemmas: mv })
    })
}
fn refused<M: MH>(c: &Case, what: &str, d: &dyn Fn() -> Value, index: u32, lemmas: &[M::Item], root: &M::Item, leaf: &M::Item) {
    c.count(&format!("assigned with {}", what));
    match build::<M>(index, lemmas, root, leaf, true) {
        Sut::Val(Err(_)) => c.count("refused at synthesis"),
        Sut::Val(Ok(b)) => { c.check(b.r.violated().is_some(), &format!("{}: satisfied with {}", M::NAME, what), || d()); }
        Sut::Panic(p) => c.violation(&format!("{}: panics with {}", M::NAME, what), json!({"panic": p, "case": d()})),
    }
}
fn member<M: MH>(c: &Case, n: usize, index: Option<usize>) {
    let leaves: Vec<M::Item> = { let mut v: Vec<M::Item> = vec![]; while v.len() < n { let x = M::leaf(c); if !v.contains(&x) { v.push(x); } } v };
    let i = index.unwrap_or_else(|| c.below(n));
    let t = CBMT::<M::Item, Mg<M>>::build_merkle_tree(leaves.clone());
    let root = t.root();
    let p = t.build_proof(&(i as u32)).expect("a leaf of the tree has no path");
    let (ix, l) = (*p.index(), p.lemmas().to_vec());
    let leaf = &leaves[i];
    c.eval(&(M::NAME, &leaves, i), n > 1);
    c.count(&format!("{} paths of length {}", M::NAME, l.len()));
    let d = || json!({"hash": M::NAME, "leaves": n, "leaf": i, "position": ix, "path": l.len()});
    let b = match build::<M>(ix, &l, &root, leaf, true) {
        Sut::Val(Ok(b)) => b,
        Sut::Val(Err(e)) => { c.violation(&format!("{}: an authentic path is refused", M::NAME), json!({"error": format!("{:?}", e), "case": d()})); return; }
        Sut::Panic(p) => { c.violation(&format!("{}: an authentic path panics", M::NAME), json!({"panic": p, "case": d()})); return; }
    };
    c.count_n("constraints recorded", b.r.cons.len() as u64);
    if let Some((k, name)) = b.r.violated() { c.violation(&format!("{}: an authentic path violates a constraint", M::NAME), json!({"constraint": name, "index": k, "case": d()})); return; }
    // the circuit depends on the position only
    let same = |x: &Built<M::F>| x.r.n() == b.r.n() && x.r.is_input == b.r.is_input && x.r.cons.len() == b.r.cons.len() && x.r.cons.iter().zip(&b.r.cons).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2 == y.2);
    let l2: Vec<M::Item> = l.iter().map(|x| M::other(c, x)).collect();
    for known in &[true, false] { if *known || M::BLANK { match build::<M>(ix, &l2, &M::other(c, &root), &M::other(c, leaf), *known) {
        Sut::Val(Ok(x)) => { c.count("shapes compared"); c.check(same(&x), &format!("{}: the constraints depend on values", M::NAME), || d()); }
        Sut::Val(Err(e)) => c.violation(&format!("{}: synthesis depends on values", M::NAME), json!({"error": format!("{:?}", e), "known": known, "case": d()})),
        Sut::Panic(p) => c.violation(&format!("{}: synthesis panics", M::NAME), json!({"panic": p, "known": known, "case": d()})),
    } } }
    // wrong values, gadget's own assignment
    refused::<M>(c, "another leaf", &d, ix, &l, &root, &M::other(c, leaf));
    refused::<M>(c, "another root", &d, ix, &l, &M::other(c, &root), leaf);
    for k in 0..l.len() { let mut x = l.clone(); x[k] = M::other(c, &l[k]); refused::<M>(c, "another sibling", &d, ix, &x, &root, leaf); }
    let mut pos: Vec<u32> = vec![ix + 1, ix ^ 1, ix.wrapping_sub(1), 0, i as u32, ix + (1 << l.len()), (ix + 1 + (1 << (l.len() + 1))) - 1, (ix + 1) * 2 - 1, (ix + 1) * 2, ix + 2];
    pos.sort(); pos.dedup(); pos.retain(|x| *x != ix); while pos.len() > 4 { let k = c.below(pos.len()); pos.remove(k); }
    for q in pos { refused::<M>(c, "another position", &|| json!({"instead": q, "case": d()}), q, &l, &root, leaf); }
    if !l.is_empty() { refused::<M>(c, "a shortened path", &d, ix, &l[..l.len() - 1], &root, leaf); if n > 2 { refused::<M>(c, "a shortened path", &d, ix, &l[1..], &root, leaf); } }
    { let mut x = l.clone(); x.push(M::leaf(c)); refused::<M>(c, "a lengthened path", &d, ix, &x, &root, leaf); }
    // wrong values, any assignment of the rest
    let given = |rootv: &M::Item, leafv: &M::Item, lv: &[M::Item]| -> Vec<(usize, M::F)> {
        let mut q = S::<M::F>::new(); q.keep_names = false; let mut g: Vec<(usize, M::F)> = vec![];
        let put = |o: &Out<M>, to: &[usize], g: &mut Vec<(usize, M::F)>| { for (v, x) in to.iter().zip(o.get_variable_values()) { g.push((*v, x.unwrap())); } };
        let o = M::alloc(&mut q, "", rootv, true, true).unwrap(); put(&o, &b.root, &mut g);
        let o = M::alloc(&mut q, "", leafv, true, false).unwrap(); put(&o, &b.leaf, &mut g);
        for (k, v) in lv.iter().enumerate() { let o = M::alloc(&mut q, "", v, true, false).unwrap(); put(&o, &b.lemmas[k], &mut g); }
        g
    };
    let attack = |what: &str, g: Vec<(usize, M::F)>| match search(c, &b.r, &g, 4, &|_| true) {
        Search::Impossible => c.count(&format!("proved impossible with any assignment: {}", what)),
        Search::Found(_) => c.violation(&format!("{}: some assignment satisfies the constraints with {}", M::NAME, what), d()),
        Search::Unique => unreachable!(),
        Search::Open { tried, .. } => { c.count(&format!("left open: {}", what)); c.count_n("dishonest assignments tried", tried as u64) }
    };
    attack("another leaf", given(&root, &M::other(c, leaf), &l));
    attack("another root", given(&M::other(c, &root), leaf, &l));
    if !l.is_empty() { let mut x = l.clone(); let k = c.below(l.len()); x[k] = M::other(c, &l[k]); attack("another sibling", given(&root, leaf, &x)); }
    // and without naming the path: the root follows from leaf and path
    let mut g = given(&root, leaf, &l); g.retain(|x| !b.root.contains(&x.0));
    match search(c, &b.r, &g, 4, &|a| b.root.iter().any(|v| a[*v] != b.r.vals[*v])) {
        Search::Found(_) => c.violation(&format!("{}: leaf and path do not determine the root", M::NAME), d()),
        Search::Impossible => panic!("the honest assignment is refuted"),
        Search::Unique => c.count("root determined"),
        Search::Open { .. } => c.count("root attacked by search"),
    }
}
fn sha_lengths(c: &Case) {
    type M = Sha<Fr>;
    let n = c.range(1, 3);
    let leaves: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8 + 1; 32]).collect();
    let t = CBMT::<Vec<u8>, Mg<M>>::build_merkle_tree(leaves.clone()); let i = c.below(n);
    let p = t.build_proof(&(i as u32)).unwrap(); let root = t.root();
    c.eval(&("len", n, i, c.idx), true);
    for k in [0usize, 1, 8, 31].iter() { refused::<M>(c, "a truncated root", &|| json!({"bytes": k}), *p.index(), p.lemmas(), &root[..*k].to_vec(), &leaves[i]); }
    let mut x = root.clone(); x.push(0); refused::<M>(c, "an extended root", &|| json!({}), *p.index(), p.lemmas(), &x, &leaves[i]);
}
fn main() {
    let ctx = Ctx::new("C27", "one path of positive length in one tree, with its alterations; distinct by hash, leaves and position");
    type D = zkp_curve25519::Fr;
    ctx.run(vec![
        once("mimc, every leaf of small trees", 45, |c| { let (mut n, mut k) = (1, c.idx as usize); while k >= n { k -= n; n += 1; } member::<Mimc<Fr>>(c, n, Some(k)) }),
        once("poseidon, every leaf of small trees", 15, |c| { let (mut n, mut k) = (1, c.idx as usize); while k >= n { k -= n; n += 1; } member::<Poseidon<Fr>>(c, n, Some(k)) }),
        once("rescue, every leaf of small trees", 6, |c| { let (mut n, mut k) = (1, c.idx as usize); while k >= n { k -= n; n += 1; } member::<Rescue<Fr>>(c, n, Some(k)) }),
        once("sha256, every leaf of small trees", 10, |c| { let (mut n, mut k) = (1, c.idx as usize); while k >= n { k -= n; n += 1; } member::<Sha<Fr>>(c, n, Some(k)) }),
        sc("mimc", 40, |c| member::<Mimc<Fr>>(c, c.range(1, 40), None)),
        sc("mimc over curve25519 scalars", 20, |c| member::<Mimc<D>>(c, c.range(1, 12), None)),
        sc("poseidon", 16, |c| member::<Poseidon<Fr>>(c, c.range(1, 12), None)),
        sc("rescue", 4, |c| member::<Rescue<Fr>>(c, c.range(2, 5), None)),
        sc("sha256", 6, |c| member::<Sha<Fr>>(c, c.range(2, 6), None)),
        sc("sha256 lengths", 6, sha_lengths),
    ]);
    ctx.finish();
}
