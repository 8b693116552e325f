use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C02", "an honest setup/prove/verify run of a circuit with at least one constraint; distinct by circuit structure and public inputs");
    ctx.run(completeness_scenarios::<Groth16>(160, true, 392));
    ctx.finish();
}
