use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C20", "one decode-and-verify call on hostile bytes, structurally altered proofs or a wrong number of public inputs; distinct by scheme, alteration and bytes");
    ctx.run(vec![
        sc("groth16", 20, hostile::<Groth16>),
        sc("bulletproofs/bls12-381", 20, hostile::<BpBls>),
        sc("bulletproofs/curve25519", 16, hostile::<Bp25519>),
        sc("spartan-nizk/bls12-381", 16, hostile::<Nizk>),
        sc("spartan-nizk/curve25519", 10, hostile::<Nizk25519>),
        sc("spartan-snark/bls12-381", 10, hostile::<Snark>),
        sc("spartan-snark/curve25519", 8, hostile::<Snark25519>),
        sc("marlin", 16, hostile::<Marlin>),
        sc("plonk", 16, plonk::hostile),
        sc("libra-linear", 16, layered::hostile::<layered::Plain<E>>),
        sc("libra-zk/bls12-381", 12, layered::hostile::<layered::Zk<E>>),
        sc("libra-zk/curve25519", 8, layered::hostile::<layered::Zk<zkp_curve25519::Curve25519>>),
        sc("hyrax/bls12-381", 16, layered::hostile::<layered::Hyrax<E>>),
        sc("hyrax/curve25519", 8, layered::hostile::<layered::Hyrax<zkp_curve25519::Curve25519>>),
    ]);
    ctx.finish();
}
