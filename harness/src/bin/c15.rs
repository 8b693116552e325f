use vh::{layered::*, *};
use zkp_curve25519::Curve25519 as C;
fn main() {
    let ctx = Ctx::new("C15", "one verification of an altered batch statement, an altered proof or a proof of a lying prover; distinct by curve, alteration, statement and proof");
    let mut v = attacks::<Hyrax<E>>(4);
    v.extend(attacks::<Hyrax<C>>(2));
    ctx.run(v);
    ctx.finish();
}
