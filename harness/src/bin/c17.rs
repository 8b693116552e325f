use vh::*;
fn main() {
    let ctx = Ctx::new("C17", "one verification of an altered opening or update key; distinct by alteration, positions, values and proof");
    ctx.run(vec![sc("openings", 160, asvc::binding), sc("update keys", 160, asvc::update_keys)]);
    ctx.finish();
}
