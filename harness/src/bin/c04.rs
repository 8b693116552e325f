use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C04", "an honest prove/verify run of a circuit with at least one constraint; distinct by circuit structure and public inputs");
    let mut s = completeness_scenarios::<BpBls>(60, true, 200);
    s.extend(completeness_scenarios::<Bp25519>(40, true, 120));
    ctx.run(s);
    ctx.finish();
}
