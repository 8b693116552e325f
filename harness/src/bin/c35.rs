//! C35: a reference string or key that does not fit a circuit is refused; one that is accepted serves it.
use ark_ff::{One, Zero};
use serde_json::json;
use vh::circ::Circ;
use vh::plonk::{self, es, Prog, P};
use vh::schemes::*;
use vh::*;

type E = ark_bls12_381::Bls12_381;
type Fr = ark_bls12_381::Fr;

#[derive(Clone, PartialEq, Debug)]
enum Out { Served, Refused(String), Failed(String) }
/// sizes around which something may change, and everything small
fn ladder(c: &Case, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..6).collect();
    let mut p = 8;
    while p <= top { v.extend([p - 1, p, p + 1].iter()); p *= 2; }
    for _ in 0..3 { v.push(c.below(top + 1)); }
    v.retain(|x| *x <= top);
    v.sort(); v.dedup(); v
}
fn judge(c: &Case, name: &str, runs: &[(usize, Out)], describe: &dyn Fn() -> serde_json::Value) {
    let mut fits: Option<usize> = None;
    for (d, o) in runs {
        c.count(&format!("{}: {}", name, match o { Out::Served => "size serves the circuit".to_string(), Out::Refused(e) => format!("size refused ({})", e.split(|x| x == '(' || x == '{').next().unwrap().trim()), Out::Failed(_) => "size accepted, then failure".to_string() }));
        match o {
            Out::Failed(e) => c.violation(&format!("{}: a reference string that is not refused does not serve the circuit", name), json!({"size": d, "how": e, "circuit": describe()})),
            Out::Served => { fits.get_or_insert(*d); }
            Out::Refused(e) => if let Some(s) = fits { c.violation(&format!("{}: a reference string is refused although a smaller one served the circuit", name), json!({"size": d, "error": e, "smaller": s, "circuit": describe()})); }
        }
    }
    match fits { Some(_) => {} None => c.violation(&format!("{}: no reference string serves the circuit", name), json!({"tried up to": runs.last().map(|x| x.0), "circuit": describe()})) }
}

fn marlin_sizes(c: &Case) {
    let circ = if c.chance(1, 4) { Circ::<Fr>::random(c) } else { r1cs_checks::small::<Marlin>(c, c.below(4)) };
    let top = 2048;
    let mut runs = vec![];
    for d in ladder(c, top) {
        let mut rng = c.tape();
        let srs = match sut(|| zkp_marlin::universal_setup::<E, _>(d, &mut rng)) {
            Sut::Val(Ok(s)) => s,
            Sut::Val(Err(e)) => { runs.push((d, Out::Refused(format!("setup: {:?}", e)))); continue }
            Sut::Panic(p) => { runs.push((d, Out::Failed(format!("setup panics: {}", p)))); continue }
        };
        let (ipk, ivk) = match sut(|| zkp_marlin::index(&srs, circ.blank())) {
            Sut::Val(Ok(k)) => k,
            Sut::Val(Err(e)) => { runs.push((d, Out::Refused(format!("index: {:?}", e)))); continue }
            Sut::Panic(p) => { runs.push((d, Out::Failed(format!("index panics: {}", p)))); continue }
        };
        let r = sut(|| -> Result<bool, String> {
            let p = zkp_marlin::create_random_proof(&ipk, circ.clone(), &mut rng).map_err(es)?;
            zkp_marlin::verify_proof(&ivk, &p, &circ.inputs).map_err(es).map(|ok| {
                if ok && !circ.inputs.is_empty() {
                    let mut x = circ.inputs.clone();
                    let k = c.below(x.len());
                    x[k] += Fr::one();
                    if verdict(|| zkp_marlin::verify_proof(&ivk, &p, &x)).accepted() { c.violation("marlin: a proof under a tight reference string verifies for another statement", json!({"size": d, "circuit": circ.describe()})); }
                }
                ok
            })
        });
        c.eval(&(d, circ.shape_fp()), true);
        runs.push((d, match r { Sut::Val(Ok(true)) => Out::Served, Sut::Val(Ok(false)) => Out::Failed("honest proof rejected".into()), Sut::Val(Err(e)) => Out::Failed(e), Sut::Panic(p) => Out::Failed(format!("panic: {}", p)) }));
        // the big sizes once is enough
        if d > 300 && matches!(runs.last().unwrap().1, Out::Served) && c.chance(2, 3) { break; }
    }
    c.sample(|| json!({"circuit": circ.describe(), "sizes": runs.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>()}));
    judge(c, "marlin", &runs, &|| circ.describe());
}

fn plonk_sizes(c: &Case) {
    let n = plonk::sizes(c).min(70);
    let p = Prog::random(c, n);
    let cs = p.composer();
    let ks = plonk::ks(c);
    let mut runs = vec![];
    for d in ladder(c, 160) {
        let mut rng = c.tape();
        let srs = match sut(|| P::setup(d, &mut rng).map_err(es)) {
            Sut::Val(Ok(s)) => s,
            Sut::Val(Err(e)) => { runs.push((d, Out::Refused(format!("setup: {}", e)))); continue }
            Sut::Panic(e) => { runs.push((d, Out::Failed(format!("setup panics: {}", e)))); continue }
        };
        let (pk, vk) = match sut(|| P::keygen(&srs, &cs, ks).map_err(es)) {
            Sut::Val(Ok(k)) => k,
            Sut::Val(Err(e)) => { runs.push((d, Out::Refused(format!("keygen: {}", e)))); continue }
            Sut::Panic(e) => { runs.push((d, Out::Failed(format!("keygen panics: {}", e)))); continue }
        };
        let r = sut(|| -> Result<bool, String> {
            let proof = P::prove(&pk, &cs, &mut rng).map_err(es)?;
            let mut x = cs.public_inputs().to_vec();
            let ok = P::verify(&vk, &x, plonk::clone(&proof)).map_err(es)?;
            let k = c.below(x.len());
            x[k] += Fr::one();
            if ok && verdict(|| P::verify(&vk, &x, proof).map_err(es)).accepted() { c.violation("plonk: a proof under a tight reference string verifies for another statement", json!({"size": d, "circuit": p.describe()})); }
            Ok(ok)
        });
        c.eval(&(d, p.fp()), true);
        runs.push((d, match r { Sut::Val(Ok(true)) => Out::Served, Sut::Val(Ok(false)) => Out::Failed("honest proof rejected".into()), Sut::Val(Err(e)) => Out::Failed(e), Sut::Panic(p) => Out::Failed(format!("panic: {}", p)) }));
    }
    c.sample(|| json!({"circuit": p.describe(), "sizes": runs.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>()}));
    judge(c, "plonk", &runs, &|| p.describe());
}

/// The key belongs to a circuit of another size: whatever the prover does, its proof must not pass.
fn misfit<S: Scheme>(c: &Case) {
    let a = Circ::<S::F>::with_shape(c, &Circ::<S::F>::resolvable_shape(c));
    let pk = match sut(|| S::setup(a.blank(), &mut c.tape())) { Sut::Val(Ok(k)) => k, _ => { c.count(&format!("{}: no key", S::NAME)); return } };
    for _ in 0..3 {
        let b = Circ::<S::F>::with_shape(c, &Circ::<S::F>::resolvable_shape(c));
        // the assignment, cut or filled up to the key's size, may happen to satisfy the key's circuit
        let fits = |x: &[S::F]| { let mut t = a.clone(); t.inputs = x.to_vec(); t.inputs.resize(a.inputs.len(), S::F::zero()); t.aux = b.aux.clone(); t.aux.resize(a.aux.len(), S::F::zero()); t.first_violated().is_none() };
        match sut(|| S::prove(&pk, b.clone(), &mut c.tape())) {
            Sut::Val(Ok((vk, p))) => {
                let mut x = vec![b.inputs.clone(), a.inputs.clone()];
                let mut y = b.inputs.clone(); y.resize(a.inputs.len(), S::F::one()); x.push(y);
                for x in x {
                    if fits(&x) { c.count(&format!("{}: assignment fits by chance", S::NAME)); continue }
                    let v = verdict(|| S::verify(&vk, &p, &x));
                    c.eval(&(S::NAME, a.shape_fp(), b.shape_fp(), x.len()), true);
                    c.count(&format!("{}: proof made with a misfit key -> {}", S::NAME, v.class()));
                    if v.accepted() { c.violation(&format!("{}: a proof made with the key of another circuit is accepted", S::NAME), json!({"key": a.describe(), "proved": b.describe(), "inputs": x.len()})); }
                }
            }
            Sut::Val(Err(e)) => { c.eval(&(S::NAME, a.shape_fp(), b.shape_fp()), true); c.count(&format!("{}: misfit key refused ({})", S::NAME, e.split(|x| x == '(' || x == '{').next().unwrap().trim())); }
            Sut::Panic(_) => { c.eval(&(S::NAME, a.shape_fp(), b.shape_fp()), true); c.count(&format!("{}: misfit key stops the prover", S::NAME)); }
        }
    }
}

fn plonk_misfit(c: &Case) {
    let (a, b) = (Prog::random(c, c.range(1, 40)), Prog::random(c, c.range(1, 40)));
    if a.n() == b.n() || a.gates.iter().all(|g| { let r = g.row(); r.qm == Fr::zero() && r.qc == Fr::zero() && r.q.iter().all(|q| *q == Fr::zero()) }) { c.count("plonk: same size, not used"); return }
    let (ca, cb) = (a.composer(), b.composer());
    let Sut::Val(Ok((pk, vk))) = sut(|| P::keygen(plonk::srs(), &ca, plonk::ks(c)).map_err(es)) else { return };
    match sut(|| P::prove(&pk, &cb, &mut c.tape()).map_err(es)) {
        Sut::Val(Ok(p)) => {
            for x in [cb.public_inputs().to_vec(), ca.public_inputs().to_vec()] {
                let v = verdict(|| P::verify(&vk, &x, plonk::clone(&p)).map_err(es));
                c.count(&format!("plonk: proof made with a misfit key -> {}", v.class()));
                if v.accepted() { c.violation("plonk: a proof made with the key of another circuit is accepted", json!({"key": a.describe(), "proved": b.describe()})); }
            }
        }
        Sut::Val(Err(e)) => c.count(&format!("plonk: misfit key refused ({})", e.split(|x| x == '(' || x == '{').next().unwrap().trim())),
        Sut::Panic(_) => c.count("plonk: misfit key stops the prover"),
    }
    c.eval(&(a.fp(), b.fp()), true);
}

fn main() {
    let ctx = Ctx::new("C35", "a key built from a reference string of some size and used, or a prover run with a key of another circuit; distinct by circuit and size");
    let mut v = vec![
        sc("marlin/sizes", 16, marlin_sizes), sc("plonk/sizes", 30, plonk_sizes),
    ];
    macro_rules! m { ($($s:ty, $n:expr);*) => { $( v.push(sc(&format!("{}/misfit key", <$s as Scheme>::NAME), $n, |c: &Case| misfit::<$s>(c))); )* } }
    m!(Groth16, 60; Nizk, 30; Snark, 20; Marlin, 40);
    v.push(sc("plonk/misfit key", 40, plonk_misfit));
    ctx.run(v);
    ctx.finish();
}
