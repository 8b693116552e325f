//! C21: what the multi-threaded build computes is what the sequential build computes.
use serde_json::json;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vh::*;

enum Ran { Lines(Vec<String>), Died(String), Slow }
fn tool(par: bool) -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    PathBuf::from(t).join(if par { "par/release/c21digest" } else { "release/c21digest" })
}
fn run(par: Option<(usize, bool)>, seed: u64, group: &str, from: u64, to: u64) -> Ran {
    let mut k = Command::new(tool(par.is_some()));
    k.args(&[seed.to_string(), group.into(), from.to_string(), to.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).env_remove("C21_NOISE");
    if let Some((n, noise)) = par { k.env("RAYON_NUM_THREADS", n.to_string()); if noise { k.env("C21_NOISE", "1"); } }
    let mut ch = k.spawn().expect("digest tool");
    let mut out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut out, &mut s); s });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") { break s; }
        if t.elapsed() > Duration::from_secs(150) { let _ = ch.kill(); let _ = ch.wait(); return Ran::Slow; }
        std::thread::sleep(Duration::from_millis(5));
    };
    let s = rd.join().unwrap();
    if !st.success() { return Ran::Died(format!("{:?}", st)); }
    Ran::Lines(s.lines().map(|l| l.to_string()).collect())
}
fn key(l: &str) -> &str { l.split(' ').next().unwrap_or("") }
/// "groth16/3/proof#4" -> "groth16 proof"
fn label(k: &str) -> String { let p: Vec<&str> = k.splitn(3, '/').collect(); format!("{} {}", p[0].trim_end_matches("-large"), p.get(2).unwrap_or(&"").split('#').next().unwrap_or("")) }

fn group(c: &Case, name: &'static str, per: u64) {
    let (from, to) = (c.idx * per, (c.idx + 1) * per);
    let seed = c.ctx.seed;
    let want = match run(None, seed, name, from, to) { Ran::Lines(l) => l, Ran::Slow => { c.count("sequential run over time"); return; } Ran::Died(s) => panic!("sequential digest tool: {}", s) };
    // the sequential build is itself a function of its input
    if c.chance(1, 6) { if let Ran::Lines(l) = run(None, seed, name, from, to) { c.count("sequential runs repeated"); c.check(l == want, &format!("{}: two sequential runs differ", name), || json!({"first": l.iter().zip(&want).find(|(a, b)| a != b)})); } }
    let mut settings = vec![(2, false), (8, false)];
    settings.push((c.pick(&[1, 3, 3]), false));
    settings.push((c.pick(&[4, 5, 6, 7]), c.chance(1, 2)));
    settings.push((c.pick(&[9, 11, 16, 24, 32, 61]), false));
    settings.push((c.pick(&[2, 3, 8]), true));
    settings.push((c.pick(&[5, 8, 16]), true));
    for (n, noise) in settings {
        let d = |what: &str| json!({"what": what, "group": name, "cases": [from, to], "threads": n, "perturbed": noise});
        let mut tries = 0;
        let got = loop { match run(Some((n, noise)), seed, name, from, to) {
            Ran::Lines(l) => break Some(l),
            Ran::Slow => { c.count("parallel run over time (no verdict)"); break None; }
            Ran::Died(s) => { tries += 1; if s.contains("signal: 9") { c.count("parallel run killed (no verdict)"); break None; } if tries == 3 { c.violation(&format!("{}: the multi-threaded build dies where the sequential one does not", name), d(&s)); break None; } }
        } };
        let Some(got) = got else { continue };
        if got[0] != format!("threads {}", n) { panic!("pool of another size: {}", got[0]); }
        c.count(&format!("runs with {} threads", n)); if noise { c.count("runs with perturbed scheduling"); }
        let (g, w): (Vec<&String>, Vec<&String>) = (got[1..].iter().collect(), want[1..].iter().collect());
        let mut per_label: BTreeMap<String, u64> = BTreeMap::new();
        let mut diff = None;
        for i in 0..w.len().max(g.len()) {
            match (w.get(i), g.get(i)) { (Some(a), Some(b)) if a == b => { if !a.starts_with("done") { *per_label.entry(label(key(a))).or_insert(0) += 1; c.eval(&(key(a), n, noise), true); } }
                (a, b) => { diff = Some((a.map(|x| x.to_string()), b.map(|x| x.to_string()))); break; } }
        }
        for (l, k) in per_label { c.count_n(&format!("same: {}", l), k); }
        if let Some((a, b)) = diff {
            let l = label(key(a.as_ref().or(b.as_ref()).unwrap()));
            c.violation(&format!("multi-threaded result differs: {}", l), json!({"sequential": a, "multi-threaded": b, "run": d("first difference")}));
        }
        c.sample(|| json!({"group": name, "threads": n, "perturbed": noise, "items compared": w.len()}));
    }
}
fn main() {
    let ctx = Ctx::new("C21", "one key, proof, commitment, value or verdict of the multi-threaded build compared with the sequential build's, at one pool size; distinct by item, pool size and perturbation");
    assert!(tool(true).exists() && tool(false).exists(), "digest tools are not built");
    let f = |name: &'static str, cases: u64, per: u64| sc(name, cases, move |c: &Case| group(c, name, per));
    ctx.run(vec![
        f("groth16", 10, 12), f("groth16-large", 8, 2), f("marlin", 8, 6), f("marlin-large", 6, 2), f("marlin-srs", 4, 8),
        f("plonk", 8, 6), f("plonk-large", 5, 2), f("asvc", 3, 8), f("asvc-large", 3, 2),
        f("bulletproofs", 4, 6), f("spartan-nizk", 4, 6), f("spartan-snark", 4, 6), f("libra", 4, 6), f("hyrax", 4, 6), f("curve", 3, 10), f("curve-large", 3, 2),
    ]);
    ctx.finish();
}
