use vh::{plonk::*, *};
fn main() {
    let ctx = Ctx::new("C11", "one verification of a proof that must not be accepted; distinct by kind of alteration, program and proof bytes");
    ctx.run(vec![
        sc("gate-violation", 24, gate_violation),
        sc("copy-violation", 30, copy_violation),
        sc("copies", 6, copies),
        sc("publics", 10, publics),
        sc("sweep", 8, sweep),
        sc("other-circuit", 20, other_circuit),
        sc("compensated", 12, compensated),
        sc("forged-openings", 8, forged_openings),
    ]);
    ctx.finish();
}
