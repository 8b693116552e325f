use vh::{layered::*, *};
use zkp_curve25519::Curve25519 as C;
fn main() {
    let ctx = Ctx::new("C13", "one verification of an altered statement, an altered proof or a proof of a lying prover; distinct by scheme, alteration, statement and proof");
    let mut v = attacks::<Plain<E>>(4);
    v.extend(attacks::<Plain<C>>(2)); v.extend(attacks::<Zk<E>>(4)); v.extend(attacks::<Zk<C>>(2));
    ctx.run(v);
    ctx.finish();
}
