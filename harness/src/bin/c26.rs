//! Complete binary Merkle trees against a symbolic, injective reference.
use serde_json::json;
use sha2::Digest;
use vh::*;
use zkp_gadgets::merkletree::cbmt::{Merge, MerkleProof, CBMT};

/// the free magma: a merge nobody can collide
struct Sym;
impl Merge for Sym { type Item = String; fn merge(l: &String, r: &String) -> String { format!("({} {})", l, r) } }
struct Sha;
impl Merge for Sha { type Item = Vec<u8>; fn merge(l: &Vec<u8>, r: &Vec<u8>) -> Vec<u8> { let mut h = sha2::Sha256::new(); h.update(&(l.len() as u32).to_le_bytes()); h.update(l); h.update(r); h.finalize().to_vec() } }

fn reference<M: Merge>(leaves: &[M::Item], i: usize) -> M::Item where M::Item: Clone {
    let n = leaves.len();
    if i + 1 >= n { leaves[i + 1 - n].clone() } else { M::merge(&reference::<M>(leaves, 2 * i + 1), &reference::<M>(leaves, 2 * i + 2)) }
}
fn tree<M: Merge>(c: &Case, leaves: Vec<M::Item>, distinct: bool, thin: bool) where M::Item: Ord + Default + Clone + std::fmt::Debug + std::hash::Hash {
    type P<M> = MerkleProof<<M as Merge>::Item, M>;
    let n = leaves.len();
    c.eval(&leaves, n > 1);
    c.count(&format!("trees with {} leaves", match n { 0 => "0", 1 => "1", 2..=8 => "2-8", 9..=40 => "9-40", _ => "over 40" }));
    let d = |what: &str| json!({"leaves": n, "what": what, "distinct": distinct});
    let t = match sut(|| CBMT::<M::Item, M>::build_merkle_tree(leaves.clone())) { Sut::Val(t) => t, Sut::Panic(p) => { c.violation("building the tree panics", d(&p)); return; } };
    let root = match sut(|| (t.root(), CBMT::<M::Item, M>::build_merkle_root(&leaves))) {
        Sut::Val((a, b)) => { c.check(a == b, "the tree's root and the directly computed root differ", || d("")); a }
        Sut::Panic(p) => { c.violation("computing the root panics", d(&p)); return; } };
    let want = if n == 0 { Default::default() } else { reference::<M>(&leaves, 0) };
    c.check(root == want, "the root is not that of the complete binary tree over the leaves in order", || d(""));
    // exactly the existing leaves
    let mut asked: Vec<u32> = (0..n as u32 + 4).collect();
    let m = n as u32;
    asked.extend(&[2 * m, 2 * m + 1, 1 << 30, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1, u32::MAX - m, 0u32.wrapping_sub(m), 1u32.wrapping_sub(m), 2u32.wrapping_sub(m), (1u32 << 31).wrapping_sub(m)]);
    if thin { let keep: Vec<u32> = (0..12).map(|_| c.below(n) as u32).collect(); asked.retain(|i| *i >= m); asked.extend(keep); }
    asked.sort(); asked.dedup();
    for i in asked {
        let direct = sut(|| t.build_proof(&i)); let via = sut(|| CBMT::<M::Item, M>::build_merkle_proof(&leaves, &i));
        let (p, q) = match (direct, via) { (Sut::Val(p), Sut::Val(q)) => (p, q), (Sut::Panic(p), _) | (_, Sut::Panic(p)) => { c.violation("asking for a proof panics", json!({"panic": p, "index": i, "leaves": n})); continue; } };
        c.count(if i < m { "proofs of existing leaves" } else { "proofs asked for absent leaves" });
        if !c.check(p.is_some() == (i < m) && q.is_some() == (i < m), if i < m { "an existing leaf has no proof" } else { "an absent leaf has a proof" }, || json!({"leaves": n, "index": i})) || p.is_none() || q.is_none() { continue; }
        let (p, q) = (p.unwrap(), q.unwrap());
        c.check(p.index() == q.index() && p.lemmas() == q.lemmas(), "the two ways to a proof differ", || json!({"leaves": n, "index": i}));
        let leaf = &leaves[i as usize];
        let ok = |ix: u32, l: &[M::Item], leaf: &M::Item, root: &M::Item| sut(|| { let p = P::<M>::new(ix, l.to_vec()); (p.verify(root, leaf), p.root(leaf)) });
        c.check(sut(|| p.verify(&root, leaf)) == Sut::Val(true), "a leaf's proof does not verify", || json!({"leaves": n, "index": i}));
        let (ix, l) = (*p.index(), p.lemmas().to_vec());
        c.check(ok(ix, &l, leaf, &root) == Sut::Val((true, Some(root.clone()))), "a rebuilt proof does not verify", || json!({"leaves": n, "index": i}));
        if !distinct { continue; }
        let bad = |kind: &str, ix2: u32, l2: &[M::Item], leaf2: &M::Item, root2: &M::Item| {
            if ix2 == ix && l2 == &l[..] && leaf2 == leaf && *root2 == root { return; }
            c.count(&format!("altered: {}", kind));
            match ok(ix2, l2, leaf2, root2) {
                Sut::Val((v, r)) => { c.check(!v, &format!("a proof with {} verifies", kind), || json!({"leaves": n, "index": i, "position": ix2, "path": l2.len()}));
                    c.check(v == (r.as_ref() == Some(root2)), "verify and root disagree", || json!({"leaves": n, "index": i})); }
                Sut::Panic(p) => c.violation(&format!("a proof with {} panics", kind), json!({"panic": p, "leaves": n, "index": i, "position": ix2})),
            }
        };
        for j in 0..n { if j != i as usize && (n < 20 || c.chance(1, 4)) { bad("another leaf", ix, &l, &leaves[j], &root); } }
        bad("another leaf", ix, &l, &Default::default(), &root); bad("another leaf", ix, &l, &root, &root);
        for x in &l { bad("another leaf", ix, &l, x, &root); }
        // positions: all in the tree, and those far away with the same turns
        let mut far: Vec<u32> = if thin { (0..30).map(|_| c.below(2 * n + 8) as u32).collect() } else { (0..2 * m + 8).collect() };
        for k in 0..32u32 { far.push(ix.wrapping_add(1 << k)); far.push(ix ^ (1 << k)); far.push(ix.wrapping_sub(1 << k)); }
        let dep = l.len() as u32; for k in 1..6u32 { far.push(ix.wrapping_add(k << dep)); far.push(((ix + 1) | (k << (dep + 1))).wrapping_sub(1)); far.push((ix + 1).wrapping_mul(k << 1).wrapping_sub(1)); }
        far.push(u32::MAX); far.push(u32::MAX - 1); far.push(i);
        far.sort(); far.dedup();
        for f in far { if f != ix { bad("another position", f, &l, leaf, &root); } }
        for k in 0..l.len() {
            let mut x = l.clone(); x.remove(k); bad("a shortened path", ix, &x, leaf, &root);
            let mut x = l.clone(); x[k] = leaf.clone(); bad("another sibling", ix, &x, leaf, &root);
            let mut x = l.clone(); x[k] = root.clone(); bad("another sibling", ix, &x, leaf, &root);
            let mut x = l.clone(); x[k] = Default::default(); bad("another sibling", ix, &x, leaf, &root);
            if k > 0 { let mut x = l.clone(); x.swap(k, k - 1); bad("another sibling", ix, &x, leaf, &root); }
            bad("a shortened path", ix, &l[..k], leaf, &root); bad("a shortened path", ix, &l[k + 1..], leaf, &root);
        }
        for e in [leaf.clone(), root.clone(), Default::default()].iter() { for k in 0..=l.len() { let mut x = l.clone(); x.insert(k, e.clone()); bad("a lengthened path", ix, &x, leaf, &root); } let mut x = l.clone(); x.push(e.clone()); x.push(e.clone()); bad("a lengthened path", ix, &x, leaf, &root); }
        for r in &[Default::default(), leaf.clone()] { if *r != root { bad("another root", ix, &l, leaf, r); } }
        for x in &l { bad("another root", ix, &l, leaf, x); }
    }
}
fn main() {
    let ctx = Ctx::new("C26", "one tree of more than one leaf with its root, proofs and altered proofs; distinct by leaves");
    let sym = |n: usize, tag: u64| -> Vec<String> { (0..n).map(|i| format!("{}.{}", tag, i)).collect() };
    ctx.run(vec![
        once("every size", 70, |c| tree::<Sym>(c, sym(c.idx as usize, 0), true, false)),
        sc("larger trees", 12, |c| { let n = c.range(60, 400); tree::<Sym>(c, sym(n, 1), true, true) }),
        once("powers of two and neighbours", 3 * 5, |c| { let n = (64usize << (c.idx / 3)) - 1 + (c.idx % 3) as usize; tree::<Sym>(c, sym(n, 2), true, true) }),
        sc("leaves with equal values", 60, |c| { let n = c.range(0, 40); let k = c.range(1, 3); let v: Vec<String> = (0..n).map(|_| format!("{}", c.below(k))).collect(); tree::<Sym>(c, v, false, false) }),
        sc("SHA-256", 40, |c| { let n = c.range(0, 33); let v: Vec<Vec<u8>> = (0..n).map(|i| { let mut v = vec![i as u8; 1 + c.below(40)]; v.push(c.below(256) as u8); v.push(i as u8); v }).collect(); tree::<Sha>(c, v, true, false) }),
    ]);
    ctx.finish();
}
