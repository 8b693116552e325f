use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C05", "a verification of a false statement or altered proof whose unaltered original is accepted; distinct by scheme, alteration and proof bytes");
    let mut s = soundness_scenarios::<BpBls>(3);
    s.extend(soundness_scenarios::<Bp25519>(2));
    s.push(sc("forge/inner-product", 30, |c: &Case| dishonest::<BpBls>(c, "bulletproofs.t_x", (c.idx % 2) as usize, "the claimed inner product is not that of the opened vectors")));
    s.push(sc("forge/inner-product-25519", 20, |c: &Case| dishonest::<Bp25519>(c, "bulletproofs.t_x", (c.idx % 2) as usize, "the claimed inner product is not that of the opened vectors")));
    s.push(sc("forge/weights", bp::PAIRS as u64, |c: &Case| bp::weights::<ark_bls12_381::Bls12_381>(c, "bulletproofs/bls12-381")));
    s.push(sc("forge/weights-25519", bp::PAIRS as u64, |c: &Case| bp::weights::<zkp_curve25519::Curve25519>(c, "bulletproofs/curve25519")));
    ctx.run(s);
    ctx.finish();
}
