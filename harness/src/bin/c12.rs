use vh::{layered::*, *};
use zkp_curve25519::Curve25519 as C;
fn main() {
    let ctx = Ctx::new("C12", "one evaluation, proof and verification of a random layered circuit; distinct by scheme, circuit and values");
    ctx.run(vec![
        sc("libra-linear/bls12-381", 200, honest::<Plain<E>>), once("libra-linear/bls12-381/edges", 112, edges::<Plain<E>>),
        sc("libra-linear/curve25519", 60, honest::<Plain<C>>),
        sc("libra-zk/bls12-381", 60, honest::<Zk<E>>), once("libra-zk/bls12-381/edges", 112, edges::<Zk<E>>),
        sc("libra-zk/curve25519", 30, honest::<Zk<C>>),
        sc("libra/malformed circuits", 300, malformed::<Plain<E>>),
    ]);
    ctx.finish();
}
