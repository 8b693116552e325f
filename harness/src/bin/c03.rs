use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C03", "a verification of a false statement or altered proof whose unaltered original is accepted; distinct by scheme, alteration and proof bytes");
    ctx.run(soundness_scenarios::<Groth16>(6));
    ctx.finish();
}
