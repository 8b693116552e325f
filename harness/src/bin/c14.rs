use vh::{layered::*, *};
use zkp_curve25519::Curve25519 as C;
fn main() {
    let ctx = Ctx::new("C14", "one batch evaluated, proved and verified; distinct by curve, circuit, batch size and values");
    ctx.run(vec![
        sc("hyrax/bls12-381", 80, honest::<Hyrax<E>>), once("hyrax/bls12-381/edges", 336, edges::<Hyrax<E>>),
        sc("hyrax/curve25519", 40, honest::<Hyrax<C>>),
        sc("hyrax/malformed circuits", 300, malformed::<Hyrax<E>>),
    ]);
    ctx.finish();
}
