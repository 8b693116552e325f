use vh::{r1cs_checks::*, schemes::*, *};
fn main() {
    let ctx = Ctx::new("C06", "an honest setup/prove/verify run of a circuit with at least one constraint; distinct by circuit structure and public inputs");
    let mut s = completeness_scenarios::<Nizk>(60, true, 196);
    s.extend(completeness_scenarios::<Nizk25519>(30, true, 60));
    s.extend(completeness_scenarios::<Snark>(30, true, 98));
    s.extend(completeness_scenarios::<Snark25519>(16, true, 40));
    ctx.run(s);
    ctx.finish();
}
