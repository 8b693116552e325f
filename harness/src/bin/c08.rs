use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C08", "an honest index/prove/verify run of a circuit with at least one constraint; distinct by circuit structure and public inputs");
    ctx.run(completeness_scenarios::<Marlin>(100, true, 196));
    ctx.finish();
}
