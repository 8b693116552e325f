//! C31: the stand-alone arguments about commitments (equality, knowledge, product, inner product, polynomial
//! evaluation, sum-check round) accept what is so and nothing else.
use ark_serialize::CanonicalSerialize as _;
use serde_json::json;
use vh::{args::*, mutate, Case, Ctx, Scenario, Sut, sut, sc};

/// Several arguments in one conversation: each is accepted and both sides stay in step.
fn honest<A: Arg>(c: &Case) {
    PLAIN.with(|p| p.set(false));
    let p = A::params(c); let pre = transcript(c); let (mut tp, mut tv) = (start(&pre), start(&pre));
    let n = c.range(1, 4);
    let made: Vec<_> = match sut(|| (0..n).map(|_| A::make(c, &p, false, &mut tp)).collect()) { Sut::Val(v) => v, Sut::Panic(e) => { c.eval(&(A::NAME, &pre), true); c.violation(&format!("{}: the prover fails on a true claim", A::NAME), json!({"panic": e})); return } };
    for (i, (proof, s)) in made.iter().enumerate() {
        c.eval(&(A::NAME, mutate::bytes(proof), mutate::bytes(s)), true);
        let ok = sut(|| A::verify(&p, proof, s, &mut tv));
        c.sample(|| json!({"argument": A::NAME, "in conversation": n, "verdict": format!("{:?}", matches!(ok, Sut::Val(true)))}));
        if c.check(matches!(ok, Sut::Val(true)), &format!("{}: an honest proof is not accepted", A::NAME), || json!({"number": i, "of": n, "outcome": match &ok { Sut::Val(b) => b.to_string(), Sut::Panic(e) => e.clone() }, "proof": hex(&mutate::bytes(proof))})) { c.count(&format!("{}: honest accepted", A::NAME)); } else { return; }
        // the decoded proof counts as much
        let d: Option<A::Proof> = mutate::from_bytes(&mutate::bytes(proof));
        c.check(d.map_or(false, |d| mutate::bytes(&d) == mutate::bytes(proof)), &format!("{}: the proof does not survive encoding", A::NAME), || json!({"proof": hex(&mutate::bytes(proof))}));
    }
    c.check(tail(&mut tp) == tail(&mut tv), &format!("{}: prover and verifier are out of step afterwards", A::NAME), || json!({"arguments": n}));
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect::<String>().chars().take(4000).collect() }
/// Nothing else is accepted.
fn attack<A: Arg>(c: &Case) {
    PLAIN.with(|p| p.set(true));
    let p = A::params(c); let pre = transcript(c);
    let refuse = |kind: &str, proof: &A::Proof, s: &A::Stmt, p: &A::Params, pre: &[u8], how: String| {
        c.eval(&(A::NAME, kind, &how, mutate::bytes(proof), mutate::bytes(s), pre), true);
        match sut(|| A::verify(p, proof, s, &mut start(pre))) {
            Sut::Val(false) => c.count(&format!("{}: {} rejected", A::NAME, kind)),
            Sut::Panic(e) => { c.count(&format!("{}: {} ends in a panic", A::NAME, kind)); if kind != "altered statement" { c.violation(&format!("{}: the verifier panics on {}", A::NAME, kind), json!({"how": how, "panic": e, "proof": hex(&mutate::bytes(proof)), "statement": hex(&mutate::bytes(s))})); } }
            Sut::Val(true) => { c.violation(&format!("{}: {} accepted", A::NAME, kind), json!({"how": how, "proof": hex(&mutate::bytes(proof)), "statement": hex(&mutate::bytes(s))})); }
        }
    };
    if A::LIES { if let Sut::Val((proof, s)) = sut(|| A::make(c, &p, true, &mut start(&pre))) { refuse("false claim", &proof, &s, &p, &pre, "claim differs".into()); } }
    let Sut::Val((proof, s)) = sut(|| A::make(c, &p, false, &mut start(&pre))) else { c.count("prover fails"); return };
    if !matches!(sut(|| A::verify(&p, &proof, &s, &mut start(&pre))), Sut::Val(true)) { c.count("honest proof not accepted (see the honest scenario)"); return; }
    for _ in 0..6 { if let Some((q, how)) = mutate::mutate_value(c, A::codec(), &proof) { refuse("altered proof", &q, &s, &p, &pre, how); } }
    for _ in 0..3 { if let Some((q, how)) = mutate::mutate_shape(c, &proof) { refuse("proof of another length", &q, &s, &p, &pre, how); } }
    let at = c.below(mutate::n_tokens(&proof)); if let Some((q, how)) = mutate::mutate_at(c, A::codec(), &proof, at) { refuse("altered proof", &q, &s, &p, &pre, how); }
    for _ in 0..4 { if let Some((q, how)) = mutate::mutate_value(c, A::codec(), &s) { refuse("altered statement", &proof, &q, &p, &pre, how); } }
    let mut other = pre.clone(); match c.below(3) { 0 => other.push(0), 1 if !other.is_empty() => { let i = c.below(other.len()); other[i] ^= 1 << c.below(8); } _ => other.insert(0, 7) }
    refuse("other conversation", &proof, &s, &p, &other, "transcript differs".into());
    let Sut::Val((proof2, s2)) = sut(|| A::make(c, &p, false, &mut start(&pre))) else { return };
    if mutate::bytes(&s) != mutate::bytes(&s2) { refuse("proof of another claim", &proof2, &s, &p, &pre, "proof exchanged".into()); refuse("proof of another claim", &proof, &s2, &p, &pre, "proof exchanged".into()); }
}
fn other_params<A: Arg>(c: &Case) {
    PLAIN.with(|p| p.set(true));
    let (p, pre) = (A::params(c), transcript(c));
    let Sut::Val((proof, s)) = sut(|| A::make(c, &p, false, &mut start(&pre))) else { return };
    let p2 = A::params(c);
    c.eval(&(A::NAME, mutate::bytes(&proof)), true);
    match sut(|| A::verify(&p2, &proof, &s, &mut start(&pre))) { Sut::Val(true) => { c.violation(&format!("{}: accepted under other parameters", A::NAME), json!({"proof": hex(&mutate::bytes(&proof))})); } _ => c.count(&format!("{}: other parameters not accepted", A::NAME)) }
}
fn main() {
    let ctx = Ctx::new("C31", "one verification of an argument about commitments: honest, altered, of a false claim, or in another conversation; distinct by argument, alteration, proof and statement");
    let mut v: Vec<Scenario> = vec![];
    macro_rules! one { ($a:ty, $g:ty, $n:literal, $params:literal) => {{
        let name = format!("{}/{}", <$a as Arg>::NAME, <$g as K>::N);
        v.push(sc(&format!("{}/honest", name), $n, honest::<$a>)); v.push(sc(&format!("{}/attack", name), $n, attack::<$a>));
        if $params { v.push(sc(&format!("{}/parameters", name), $n / 4, other_params::<$a>)); }
    }} }
    macro_rules! curve { ($g:ty, $n:literal) => {
        one!(libra::Eq<$g>, $g, $n, true); one!(libra::Know<$g>, $g, $n, true); one!(libra::Prod<$g>, $g, $n, true); one!(libra::Dot<$g>, $g, $n, true); one!(libra::Log<$g>, $g, $n, true); one!(libra::Poly<$g>, $g, $n, true);
        one!(hyrax::Eq<$g>, $g, $n, true); one!(hyrax::Know<$g>, $g, $n, true); one!(hyrax::Prod<$g>, $g, $n, true); one!(hyrax::Dot<$g>, $g, $n, true); one!(hyrax::Log<$g>, $g, $n, true); one!(hyrax::Poly<$g>, $g, $n, true);
        one!(Round<$g>, $g, $n, true); one!(Fold<$g>, $g, $n, true); one!(Bullet<$g>, $g, $n, false);
    } }
    curve!(E, 40); curve!(C25, 24);
    ctx.run(v);
    ctx.finish();
}
