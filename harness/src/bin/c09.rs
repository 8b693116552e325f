use vh::{circ::*, r1cs_checks::*, schemes::*, *};
use ark_bls12_381::Fr;
use serde_json::json;

/// A prover who hides a wrong sum-check total above a degree bound, with all powers of the reference string at hand.
fn over_the_bound(c: &Case) {
    let circ = Circ::<Fr>::random(c);
    let Some((bad, _)) = circ.corrupt(c, true) else { return };
    let Sut::Val(Ok(mut pk)) = sut(|| Marlin::setup(circ.blank(), &mut c.tape())) else { return };
    let srs = marlin_srs();
    let own = pk.ipk.committer_key.powers_of_g.len();
    // the string the key was made from, found by its powers
    let Some(s) = (3..13).map(marlin_srs_of).find(|s| s.powers_of_g.len() >= own && s.powers_of_g[0] == pk.ipk.committer_key.powers_of_g[0]) else { c.count("marlin: no reference string matches"); return };
    let _ = srs;
    pk.ipk.committer_key.powers_of_g = s.powers_of_g.clone();
    pk.ipk.committer_key.powers_of_gamma_g = s.powers_of_gamma_g.clone();
    for lie in 1..3 {
        for claim in 0..2 {
            if claim == 1 { if s.powers_of_g.len() - 1 == pk.ipk.committer_key.supported_degree { continue } pk.ipk.committer_key.supported_degree = s.powers_of_g.len() - 1; }
            zkp_marlin::verif_hooks::set(lie, "");
            let p = sut(|| Marlin::prove(&pk, bad.clone(), &mut c.tape()));
            zkp_marlin::verif_hooks::set(0, "");
            let v = match p { Sut::Val(Ok((vk, p))) => verdict(|| Marlin::verify(&vk, &p, &bad.inputs)), Sut::Val(Err(_)) => { c.count("marlin: the commitment key refuses the polynomial"); continue } Sut::Panic(_) => { c.count("marlin: the dishonest prover stops"); continue } };
            c.count(&format!("marlin: {} above its degree bound -> {}", if lie == 1 { "g_1" } else { "g_2" }, v.class()));
            if v.accepted() { c.violation(&format!("marlin: a false statement is proved with {} above its degree bound", if lie == 1 { "g_1" } else { "g_2" }), json!({"circuit": bad.describe()})); }
        }
    }
    c.eval(&("degree", bad.shape_fp()), true);
}
/// The same lies told with the honest key: the sums are wrong, or the commitment is refused.
fn wrong_sums(c: &Case) {
    let circ = Circ::<Fr>::random(c);
    let Some((bad, _)) = circ.corrupt(c, true) else { return };
    let Sut::Val(Ok(pk)) = sut(|| Marlin::setup(circ.blank(), &mut c.tape())) else { return };
    let lies = [(1, "", "g_1 above its bound, honest key"), (2, "", "g_2 above its bound, honest key"), (3, "", "t chosen to put the outer sum right"),
        (4, "h_1", "outer equation put right by the claimed h_1"), (4, "g_1", "outer equation put right by the claimed g_1"), (4, "mask", "outer equation put right by the claimed mask"),
        (5, "h_2", "inner equation put right by the claimed h_2"), (5, "g_2", "inner equation put right by the claimed g_2"),
        (5, "a_val", "inner equation put right by the claimed a_val"), (5, "b_val", "inner equation put right by the claimed b_val"), (5, "c_val", "inner equation put right by the claimed c_val"),
        (6, "", "Az and Cz of a violated row off by opposite amounts"), (7, "", "Az and Cz of a violated row off by the same amount"),
        (8, "", "Bz and Cz of a violated row off by opposite amounts"), (9, "", "Bz and Cz of a violated row off by the same amount"),
        (10, "", "Az and Bz of a violated row off by opposite amounts"), (11, "", "Az and Bz of a violated row off by the same amount")];
    for (lie, label, what) in lies.iter().cloned() {
        zkp_marlin::verif_hooks::set(lie, label);
        let p = sut(|| Marlin::prove(&pk, bad.clone(), &mut c.tape()));
        zkp_marlin::verif_hooks::set(0, "");
        let v = match p { Sut::Val(Ok((vk, p))) => verdict(|| Marlin::verify(&vk, &p, &bad.inputs)), Sut::Val(Err(_)) => { c.count(&format!("marlin: {}: refused by the prover's own tools", what)); continue } Sut::Panic(_) => continue };
        c.count(&format!("marlin: {} -> {}", what, v.class()));
        if v.accepted() { c.violation(&format!("marlin: a dishonest prover proves a false statement ({})", what), json!({"circuit": bad.describe()})); }
    }
    c.eval(&("lies", bad.shape_fp()), true);
}
fn main() {
    let ctx = Ctx::new("C09", "a verification of a false statement or altered proof whose unaltered original is accepted; distinct by scheme, alteration and proof bytes");
    let mut v = soundness_scenarios::<Marlin>(8);
    v.push(sc("marlin/over the bound", 40, over_the_bound));
    v.push(sc("marlin/lies", 40, wrong_sums));
    ctx.run(v);
    ctx.finish();
}
