use vh::{plonk::*, *};
fn main() {
    let ctx = Ctx::new("C10", "one key generation, proof and verification of a satisfied gate program; distinct by the program's gates and coefficients");
    ctx.run(vec![
        sc("random", 120, |c| { let n = sizes(c); honest(c, n, false) }),
        sc("tight-setup", 40, |c| { let n = sizes(c).min(70); honest(c, n, true) }),
        once("every-size", 40, |c| honest(c, c.idx as usize + 1, c.idx % 2 == 0)),
        sc("large", 3, |c| { let n = c.range(200, 512); honest(c, n, false) }),
    ]);
    ctx.finish();
}
