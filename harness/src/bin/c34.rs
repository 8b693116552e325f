//! C34: what a build without the standard library computes is what the standard build computes.
use serde_json::json;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vh::*;

enum Ran { Lines(Vec<String>), Died(String), Slow }
fn tool(std: bool) -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    PathBuf::from(t).join(if std { "release/c21digest" } else { "nostd/release/c21digest" })
}
fn run(std: bool, seed: u64, group: &str, from: u64, to: u64) -> Ran {
    let mut ch = Command::new(tool(std)).args(&[seed.to_string(), group.into(), from.to_string(), to.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).env_remove("C21_NOISE").spawn().expect("digest tool");
    let mut out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut out, &mut s); s });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") { break s; }
        if t.elapsed() > Duration::from_secs(200) { let _ = ch.kill(); let _ = ch.wait(); return Ran::Slow; }
        std::thread::sleep(Duration::from_millis(5));
    };
    let s = rd.join().unwrap();
    if !st.success() { return Ran::Died(format!("{:?}", st)); }
    Ran::Lines(s.lines().map(|l| l.to_string()).collect())
}
fn key(l: &str) -> &str { l.split(' ').next().unwrap_or("") }
/// "groth16/3/proof#4" -> "groth16 proof"
fn label(k: &str) -> String { let p: Vec<&str> = k.splitn(3, '/').collect(); format!("{} {}", p[0].trim_end_matches("-large"), p.get(2).unwrap_or(&"").split('#').next().unwrap_or("")) }
fn group(c: &Case, name: &'static str, per: u64) {
    let (from, to) = (c.idx * per, (c.idx + 1) * per);
    let mut got = |std: bool| -> Option<Vec<String>> {
        for _ in 0..3 { match run(std, c.ctx.seed, name, from, to) {
            Ran::Lines(l) => { if l[1] != format!("std {}", std) { panic!("a tool of another build: {}", l[1]); } return Some(l[2..].to_vec()); }
            Ran::Slow => { c.count("run over time (no verdict)"); return None; }
            Ran::Died(s) => if s.contains("signal: 9") { c.count("run killed (no verdict)"); return None; }
        } }
        if std { panic!("the standard digest tool dies"); }
        c.violation(&format!("{}: the build without std dies where the standard one does not", name), json!({"group": name, "cases": [from, to]}));
        None
    };
    let Some(w) = got(true) else { return }; let Some(g) = got(false) else { return };
    let mut per_label: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..w.len().max(g.len()) {
        match (w.get(i), g.get(i)) {
            (Some(a), Some(b)) if a == b => if !a.starts_with("done") { *per_label.entry(label(key(a))).or_insert(0) += 1; c.eval(&key(a), true); },
            (a, b) => { c.violation(&format!("result without std differs: {}", label(key(a.or(b).unwrap()))), json!({"group": name, "cases": [from, to], "standard": a, "without std": b})); break; }
        }
    }
    for (l, k) in per_label { c.count_n(&format!("same: {}", l), k); }
    c.sample(|| json!({"group": name, "cases": [from, to], "items compared": w.len()}));
}
fn main() {
    let ctx = Ctx::new("C34", "one key, proof, commitment, hash, circuit, value or verdict of the build without std compared with the standard build's; distinct by item");
    assert!(tool(true).exists(), "digest tool is not built");
    // whether it builds is for the compiler to say
    if !tool(false).exists() { println!("NOTE: this tree does not build without std, so there is nothing to compare"); }
    let f = |name: &'static str, cases: u64, per: u64| sc(name, if tool(false).exists() { cases } else { 0 }, move |c: &Case| group(c, name, per));
    ctx.run(vec![
        f("groth16", 12, 12), f("groth16-large", 4, 2), f("marlin", 12, 6), f("marlin-large", 3, 2), f("marlin-srs", 4, 8),
        f("plonk", 10, 6), f("plonk-large", 3, 2), f("asvc", 6, 8), f("asvc-large", 2, 2),
        f("bulletproofs", 10, 6), f("spartan-nizk", 10, 6), f("spartan-snark", 8, 6), f("libra", 12, 6), f("hyrax", 12, 6), f("curve", 4, 10), f("gadgets", 16, 4),
    ]);
    ctx.finish();
}
