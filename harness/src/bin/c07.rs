use vh::{r1cs_checks::*, schemes::*, *};

/// What the dishonest Spartan provers of the hook say (spartan/src/lib.rs), by number.
const LIES: [(usize, &str); 24] = [
    (20, "the first sum-check ends in a value that is not that of its polynomial"),
    (1, "a round of the first sum-check does not continue the previous claim"),
    (2, "a round of the first sum-check answers for another polynomial than it commits to"),
    (5, "the claimed product of Az and Bz is not their product"),
    (6, "the claimed product of Az and Bz is that of Az and another value"),
    (7, "the second sum-check ends in a value that is not that of its polynomial"),
    (3, "a round of the second sum-check does not continue the previous claim"),
    (4, "a round of the second sum-check answers for another polynomial than it commits to"),
    (8, "the claimed value of the witness is not that of the committed one"),
    (9, "the matrices were evaluated at another point (rows)"),
    (10, "the matrices were evaluated at another point (columns)"),
    (11, "the claimed value of a matrix is not the sum of its halves"),
    (12, "the claimed sum of half a matrix is not what its sum-check ends in"),
    (13, "a value at the end of the product circuits is not the one opened"),
    (14, "a claimed matrix entry is not the committed one"),
    (15, "a looked up value is not in the memory"),
    (16, "a product of the memory check is not that of its layer"),
    (17, "a product of the memory check does not end in the hash of a memory cell"),
    (18, "a claimed time stamp is not the committed one"),
    (19, "a round of a product circuit does not continue the previous claim"),
    (22, "two of the three products of a violated row were changed by the same or by opposite amounts"),
    (23, "a round of the first sum-check breaks its two equations by the same or by opposite amounts"),
    (24, "a round of the second sum-check breaks its two equations by the same or by opposite amounts"),
    (21, "the looked up values are not the committed ones"),
];
/// Many places at which the same lie is told are checked by different lines of the verifier.
fn places(code: usize) -> u64 { match code { 13 => 18, 23 | 24 => 6, 17 => 16, 15 | 12 | 14 | 18 => 6, 22 => 12, 16 | 19 => 10, _ => 3 } }
fn lies<'a, S: Scheme>(snark: bool) -> Vec<Scenario<'a>> {
    let codes: Vec<(usize, &str)> = LIES.iter().copied().filter(|(c, _)| if snark { *c != 9 && *c != 10 } else { *c <= 10 || *c == 20 || (*c >= 22 && *c <= 24) }).collect();
    codes.into_iter().map(|(code, why)| sc(&format!("{}/lie-{}", S::NAME, code), places(code), move |case: &Case| {
        // matrix, side, product and layer or round: consecutive cases differ in the first three
        let (i, n) = (case.idx as usize, case.below(30));
        let place = match code { 13 => i % 18, 16 | 17 | 19 => i % 3 + 3 * (i % 2) + 6 * (i / 2 % 8) + 48 * n, _ => i % 6 + 6 * n };
        case.count(&format!("lie {}: {}", code, why));
        dishonest::<S>(case, "spartan", code + 32 * place, why);
    })).collect()
}
fn main() {
    let ctx = Ctx::new("C07", "a verification of a false statement, an altered proof or a proof of a lying prover; distinct by scheme, alteration and proof bytes");
    let mut s = soundness_scenarios::<Nizk>(2);
    s.extend(soundness_scenarios::<Nizk25519>(1));
    s.extend(soundness_scenarios::<Snark>(1));
    s.extend(lies::<Nizk>(false));
    s.extend(lies::<Snark>(true));
    ctx.run(s);
    ctx.finish();
}
