use vh::*;
fn main() {
    let ctx = Ctx::new("C16", "one comparison of a commitment or opening after at least one update with its value recomputed through the trapdoor, or one honest verification; distinct by vector length, update history and positions");
    ctx.run(vec![sc("history", 240, asvc::history)]);
    ctx.finish();
}
