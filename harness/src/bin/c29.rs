//! The command-line tools, run as processes in scratch directories.
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use vh::*;

const SCHEMES: [&str; 4] = ["groth16", "bulletproofs", "spartan_snark", "spartan_nizk"];
const CIRCUITS: [&str; 2] = ["mini", "hash"];

struct Out { code: Option<i32>, out: String, err: String, timeout: bool }
impl Out {
    fn valid(&self) -> bool { self.out.contains("Verify is: true") }
    fn says_invalid(&self) -> bool { self.out.contains("Verify is: false") }
    fn ok(&self) -> bool { self.code == Some(0) }
    fn j(&self) -> Value { let cut = |s: &str| s.chars().take(300).collect::<String>(); json!({"exit": self.code, "stdout": cut(&self.out), "stderr": cut(&self.err)}) }
}
fn tool(dir: &Path, name: &str, args: &[&str]) -> Out {
    let exe = std::env::current_exe().unwrap().with_file_name(format!("cli-{}", name));
    // memory stays bounded whatever the file says
    let mut line = String::from("ulimit -v 8000000; exec \"$0\" \"$@\"");
    if !exe.exists() { line = "exit 97".into(); }
    let out_f = dir.join(format!(".out{}", std::thread::current().name().unwrap_or("x"))); let err_f = out_f.with_extension("err");
    let mut ch = Command::new("/bin/sh").arg("-c").arg(&line).arg(&exe).args(args).current_dir(dir).stdin(Stdio::null())
        .stdout(std::fs::File::create(&out_f).unwrap()).stderr(std::fs::File::create(&err_f).unwrap()).env_remove("RUST_BACKTRACE").spawn().unwrap();
    let t = std::time::Instant::now();
    let (mut code, mut timeout) = (None, false);
    loop {
        match ch.try_wait().unwrap() { Some(s) => { code = s.code(); break; } None => {} }
        if t.elapsed().as_secs() > 120 { timeout = true; let _ = ch.kill(); let _ = ch.wait(); break; }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let o = Out { code, out: rd(&out_f), err: rd(&err_f), timeout };
    let _ = std::fs::remove_file(&out_f); let _ = std::fs::remove_file(&err_f);
    if o.code == Some(97) { panic!("tool {} is not built", name); }
    o
}
/// what a request is about: words on the command line, and the public value it stands for
#[derive(Clone)]
struct Req { circuit: &'static str, args: Vec<String>, param: String }
fn mini(x: u64, y: u64, z: u64) -> Req { Req { circuit: "mini", args: vec![x.to_string(), y.to_string(), z.to_string()], param: z.to_string() } }
fn hash(s: &str) -> Req {
    let f: Fr = zkp_gadgets::hashes::mimc::hash(s.as_bytes());
    let mut b = vec![]; ark_serialize::CanonicalSerialize::serialize(&f, &mut b).unwrap();
    Req { circuit: "hash", args: vec![s.into()], param: hex(&b) }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn satisfiable(c: &Case, circuit: &str) -> Req {
    if circuit == "mini" {
        let (x, y) = match c.below(5) { 0 => (0, c.below(1000) as u64), 1 => (c.below(1 << 20) as u64, 0), 2 => (1, u64::MAX - 2), 3 => ((1 << 32) - 1, (1u64 << 32) - 1), _ => (c.below(1 << 31) as u64, c.below(1 << 31) as u64) };
        mini(x, y, x * (y + 2))
    } else {
        let n = match c.below(6) { 0 => 1, 1 => 32, 2 => 31, 3 => 33, 4 => 64, _ => c.range(1, 120) };
        let alphabet: Vec<char> = "abcXYZ019 _-+./é🔑".chars().collect();
        let mut s: String = (0..n).map(|_| c.pick(&alphabet)).collect();
        while s.starts_with('-') { s.remove(0); s.push('q'); }
        hash(&s)
    }
}
fn file(dir: &Path, scheme: &str, circuit: &str) -> PathBuf { dir.join("proof_files").join(format!("{}-bls12_381-{}.proof.json", scheme, circuit)) }

struct Made { dir: PathBuf, setup: PathBuf, other: PathBuf, proofs: Vec<(usize, usize, Req, Value)> }
static MADE: OnceLock<Made> = OnceLock::new();
fn root() -> PathBuf { std::env::temp_dir().join(format!("c29-{}", std::process::id())) }
/// a scratch directory that shares setup files
fn scratch(from: &Path) -> PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = root().join(format!("w{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    let _ = std::os::unix::fs::symlink(from, d.join("setup_files"));
    d
}
fn make(c: &Case) -> &'static Made {
    MADE.get_or_init(|| {
        let r = root(); std::fs::create_dir_all(&r).unwrap();
        let mut m = Made { dir: r.clone(), setup: r.join("s1/setup_files"), other: r.join("s2/setup_files"), proofs: vec![] };
        let jobs: Vec<(usize, usize, usize)> = (0..2).flat_map(|s| (0..4).flat_map(move |a| (0..2).map(move |b| (s, a, b)))).filter(|j| SCHEMES[j.1] != "bulletproofs").collect();
        std::fs::create_dir_all(r.join("s1")).unwrap(); std::fs::create_dir_all(r.join("s2")).unwrap();
        let rs: Vec<(String, Out)> = std::thread::scope(|t| { let h: Vec<_> = jobs.iter().map(|(s, a, b)| { let d = r.join(["s1", "s2"][*s]); let n = format!("{}{}{}", s, a, b);
            std::thread::Builder::new().name(n).spawn_scoped(t, move || (format!("{} {}", SCHEMES[*a], CIRCUITS[*b]), tool(&d, "setup", &[SCHEMES[*a], "bls12_381", CIRCUITS[*b]]))).unwrap() }).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() });
        for (w, o) in rs { c.count("setups run"); if !o.timeout { c.check(o.ok(), &format!("setup {} fails", w), || o.j()); } }
        for a in 0..4 { for b in 0..2 { for k in 0..2 {
            let q = if b == 0 { [mini(2, 3, 10), mini(7, 9, 77)][k].clone() } else { [hash("iamsecret"), hash("another message, longer than thirty-two bytes")][k].clone() };
            let d = scratch(&m.setup);
            let v = prove(c, &d, a, &q);
            if let Some(v) = v { m.proofs.push((a, b, q, v)); }
        } } }
        m
    })
}
fn prove(c: &Case, dir: &Path, a: usize, q: &Req) -> Option<Value> {
    let mut w = vec![SCHEMES[a], "bls12_381", q.circuit]; w.extend(q.args.iter().map(|s| s.as_str()));
    let o = tool(dir, "zkp-prove", &w);
    if o.timeout { c.count("runs that took too long"); return None; }
    let d = || json!({"command": w, "run": o.j()});
    if !c.check(o.ok(), &format!("{} {}: proving a satisfiable request fails", SCHEMES[a], q.circuit), d) { return None; }
    let v = std::fs::read_to_string(file(dir, SCHEMES[a], q.circuit)).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
    if !c.check(v.is_some(), &format!("{} {}: proving leaves no proof file", SCHEMES[a], q.circuit), d) { return None; }
    let v = v.unwrap();
    c.check(v["params"][0] == json!(q.param) && v["scheme"] == json!(SCHEMES[a]) && v["circuit"] == json!(q.circuit) && v["curve"] == json!("bls12_381"), &format!("{} {}: the proof file does not state the request", SCHEMES[a], q.circuit), || json!({"command": w, "params": v["params"], "expected": q.param}));
    Some(v)
}
fn verify(dir: &Path, v: &Value) -> Out {
    let p = dir.join("p.json"); std::fs::write(&p, v.to_string()).unwrap();
    tool(dir, "zkp-verify", &["p.json"])
}
fn label(a: usize, b: usize) -> String { format!("{} {}", SCHEMES[a], CIRCUITS[b]) }

/// prove and verify what was asked
fn honest(c: &Case) {
    let m = make(c);
    const L: [(usize, usize); 14] = [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (3, 1), (1, 1), (0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (3, 1), (2, 1)];
    let (a, b) = L[c.idx as usize % L.len()];
    let q = satisfiable(c, CIRCUITS[b]);
    c.eval(&(a, b, &q.args), true);
    let d = scratch(&m.setup);
    if let Some(v) = prove(c, &d, a, &q) {
        let f = file(&d, SCHEMES[a], CIRCUITS[b]);
        let o = tool(&d, "zkp-verify", &[f.strip_prefix(&d).unwrap().to_str().unwrap()]);
        if o.timeout { c.count("runs that took too long"); return; }
        c.count("honest files verified");
        c.check(o.ok() && o.valid() && !o.says_invalid(), &format!("{}: an honest proof file is not accepted", label(a, b)), || json!({"args": q.args, "run": o.j()}));
        c.sample(|| json!({"scheme": SCHEMES[a], "args": q.args, "params": v["params"]}));
        // a value next to it
        let o = verify(&d, &with(&v, "params", json!([other_param(c, &q)])));
        judge(c, a, b, "another public value", &o, &json!({"args": q.args}));
    }
    let _ = std::fs::remove_dir_all(&d);
}
fn other_param(c: &Case, q: &Req) -> String {
    if q.circuit == "mini" { let z: u64 = q.param.parse().unwrap(); loop { let w = match c.below(5) { 0 => z ^ 1, 1 => z.wrapping_add(1), 2 => 0, 3 => z ^ (1 << c.below(64)), _ => c.below(1 << 40) as u64 }; if w != z { return w.to_string(); } } }
    else { let mut b = unhex(&q.param); let i = c.below(b.len()); b[i] ^= 1 << c.below(8); hex(&b) }
}
fn with(v: &Value, k: &str, x: Value) -> Value { let mut v = v.clone(); v[k] = x; v }
/// the same proof in another encoding (the identity's encoding has unused bits)
fn same(a: usize, altered: &[u8], original: &[u8]) -> bool {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    fn re<T: CanonicalDeserialize + CanonicalSerialize>(mut x: &[u8]) -> Option<Vec<u8>> { let t = T::deserialize(&mut x).ok()?; if !x.is_empty() { return None; } let mut o = vec![]; t.serialize(&mut o).ok()?; Some(o) }
    type E = ark_bls12_381::Bls12_381;
    let r = sut(|| match a { 0 => re::<zkp_groth16::Proof<E>>(altered), 1 => re::<(zkp_bulletproofs::Generators<E>, zkp_bulletproofs::R1csCircuit<E>, zkp_bulletproofs::Proof<E>)>(altered), 2 => re::<zkp_spartan::snark::Proof<E>>(altered), _ => re::<zkp_spartan::nizk::Proof<E>>(altered) });
    matches!(r, Sut::Val(Some(o)) if o == original)
}
/// no altered file is valid
fn judge(c: &Case, a: usize, b: usize, what: &str, o: &Out, d: &Value) -> bool {
    if o.timeout { c.count("runs that took too long"); return true; }
    c.count(if o.valid() { "altered: valid" } else if o.says_invalid() { "altered: invalid" } else { "altered: error report" });
    c.count(&format!("altered: {}", what));
    if o.valid() { c.violation(&format!("{}: a file with {} is reported valid", label(a, b), what), json!({"run": o.j(), "case": d})); return false; }
    c.check(o.says_invalid() || !o.ok(), &format!("{}: a file with {} gives neither a verdict nor an error", label(a, b), what), || json!({"run": o.j(), "case": d}));
    true
}
fn alter(c: &Case) {
    let m = make(c);
    if m.proofs.is_empty() { return; }
    let (a, b, q, v) = &m.proofs[c.idx as usize % m.proofs.len()]; let (a, b) = (*a, *b);
    c.eval(&(a, b, &q.args, c.idx), true);
    let d = scratch(&m.setup);
    let bytes = unhex(v["proof"].as_str().unwrap());
    let pf = |x: &[u8]| with(v, "proof", json!(hex(x)));
    // some files take seconds to verify
    let slow = b == 1 && (a == 1 || a == 2);
    let skip = || slow && !c.chance(1, 6);
    let others: Vec<&(usize, usize, Req, Value)> = m.proofs.iter().filter(|p| p.3 != *v).collect();
    // the proof
    for k in 0..10 {
        let mut x = bytes.clone(); let n = x.len();
        let (what, det) = match k {
            0..=4 => { let i = if k == 0 { n - 1 } else { c.below(n) }; let e = 1u8 << c.below(8); x[i] ^= e; ("one bit of the proof changed", json!({"byte": i, "of": n, "bit": e})) }
            5 => { let i = c.below(n); let e = x[i]; while x[i] == e { x[i] = c.below(256) as u8; } ("one byte of the proof changed", json!({"byte": i, "of": n})) }
            6 => { let l = match c.below(3) { 0 => n - 1, 1 => c.below(n), _ => 0 }; x.truncate(l); ("a shortened proof", json!({"length": l, "of": n})) }
            7 => { for _ in 0..c.range(1, 40) { x.push(if c.chance(1, 2) { 0 } else { c.below(256) as u8 }); } ("a lengthened proof", json!({"length": x.len(), "of": n})) }
            8 => { let i = c.below(n); let l = c.range(1, (n - i).min(48)); for e in &mut x[i..i + l] { *e = 0; } if x == bytes { continue; } ("zeroes in the proof", json!({"from": i, "length": l, "of": n})) }
            _ => { let i = c.below(n); x.remove(i); ("a byte of the proof removed", json!({"byte": i, "of": n})) }
        };
        if skip() { continue; }
        let o = verify(&d, &pf(&x));
        if o.valid() && same(a, &x, &bytes) { c.count("altered: the same proof in another encoding"); continue; }
        judge(c, a, b, what, &o, &json!({"request": q.args, "alteration": det}));
    }
    // a proof from elsewhere
    let p = c.pick(&others);
    if a != 1 || (p.0, p.1) != (a, b) { if !skip() { let o = verify(&d, &pf(&unhex(p.3["proof"].as_str().unwrap()))); judge(c, a, b, "the proof of another file", &o, &json!({"request": q.args, "other": label(p.0, p.1)})); } }
    if let Some(p) = others.iter().find(|p| (p.0, p.1) == (a, b)) {
        if !skip() { let o = verify(&d, &pf(&unhex(p.3["proof"].as_str().unwrap()))); judge(c, a, b, "the proof of another request", &o, &json!({"request": q.args, "other": p.2.args})); }
        if !skip() { let o = verify(&d, &with(v, "params", p.3["params"].clone())); judge(c, a, b, "the public values of another request", &o, &json!({"request": q.args, "other": p.2.args})); }
    }
    // the public values
    for _ in 0..3 { let w = other_param(c, q); if !skip() { let o = verify(&d, &with(v, "params", json!([w]))); judge(c, a, b, "another public value", &o, &json!({"request": q.args, "params": w})); } }
    let odd = c.pick(&["", "zz", "-1", "18446744073709551616", "0x10", "1e3", "00", "é", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "null"]);
    if !(q.circuit == "mini" && odd.trim_start_matches('0') == q.param) { if !skip() { let o = verify(&d, &with(v, "params", json!([odd]))); judge(c, a, b, "a malformed public value", &o, &json!({"request": q.args, "params": odd})); } }
    let odd = [json!([]), json!(null), json!({}), json!("10"), json!([null]), json!([[q.param]]), json!(10), json!([c.below(1000)])][c.below(8)].clone();
    if !skip() { let o = verify(&d, &with(v, "params", odd.clone())); judge(c, a, b, "malformed public values", &o, &json!({"request": q.args, "params": odd})); }
    if b == 1 { // the value in another encoding of the field
        let mut x = unhex(&q.param); let f: Vec<u8> = { use ark_ff::{BigInteger, FpParameters}; <<Fr as ark_ff::PrimeField>::Params as FpParameters>::MODULUS.to_bytes_le() };
        let mut carry = 0u16; for i in 0..32 { let s = x[i] as u16 + f[i] as u16 + carry; x[i] = s as u8; carry = s >> 8; }
        if !skip() { let o = verify(&d, &with(v, "params", json!([hex(&x)]))); judge(c, a, b, "a public value beyond the field", &o, &json!({"request": q.args})); }
        let mut x = unhex(&q.param); x.push(0); if !skip() { let o = verify(&d, &with(v, "params", json!([hex(&x)]))); judge(c, a, b, "a lengthened public value", &o, &json!({"request": q.args})); }
    }
    // the names
    let s2 = c.pick(&SCHEMES); if s2 != SCHEMES[a] { if !skip() { let o = verify(&d, &with(v, "scheme", json!(s2))); judge(c, a, b, "another scheme name", &o, &json!({"scheme": s2, "request": q.args})); } }
    if !skip() { let o = verify(&d, &with(v, "circuit", json!(CIRCUITS[1 - b]))); judge(c, a, b, "another circuit name", &o, &json!({"request": q.args})); }
    if a != 1 { // ... together with a public value of that circuit's form
        let w = if b == 0 { let z: u64 = q.param.parse().unwrap(); let mut x = vec![0u8; 32]; x[..8].copy_from_slice(&z.to_le_bytes()); hex(&x) } else { c.below(1000).to_string() };
        if !skip() { let o = verify(&d, &with(&with(v, "circuit", json!(CIRCUITS[1 - b])), "params", json!([w]))); judge(c, a, b, "another circuit name and a public value of its form", &o, &json!({"request": q.args})); }
    }
    let k = c.pick(&["scheme", "circuit", "curve", "proof", "params"]);
    let odd = [json!(""), json!(null), json!("none"), json!(1), json!([])][c.below(5)].clone();
    if !skip() { let o = verify(&d, &with(v, k, odd.clone())); judge(c, a, b, &format!("a malformed {}", k), &o, &json!({"field": k, "value": odd})); }
    let mut w = v.clone(); w.as_object_mut().unwrap().remove(k); if !skip() { let o = verify(&d, &w); judge(c, a, b, &format!("no {}", k), &o, &json!({})); }
    // the file as text
    let t = v.to_string(); let cutoff = c.below(t.len()); std::fs::write(d.join("t.json"), &t[..cutoff]).unwrap();
    if !skip() { let o = tool(&d, "zkp-verify", &["t.json"]); judge(c, a, b, "its end cut off", &o, &json!({"at": cutoff, "of": t.len()})); }
    // the keys of another setup, or none
    if a != 1 {
        // Spartan's setup is transparent in the circuit but draws its generators
        let e = scratch(&m.other); if !skip() { let o = verify(&e, v); judge(c, a, b, "a foreign setup", &o, &json!({"request": q.args})); } let _ = std::fs::remove_dir_all(&e);
        let e = scratch(&m.dir.join("nowhere")); if !skip() { let o = verify(&e, v); judge(c, a, b, "no setup", &o, &json!({"request": q.args})); } let _ = std::fs::remove_dir_all(&e);
    }
    // still valid where nothing was changed
    let o = verify(&d, v);
    if !o.timeout { c.count("files verified again unaltered"); c.check(o.valid() && o.ok(), &format!("{}: an honest proof file is not accepted", label(a, b)), || json!({"request": q.args, "run": o.j()})); }
    let _ = std::fs::remove_dir_all(&d);
}
/// requests that cannot be satisfied, and requests that make no sense
fn refused(c: &Case) {
    let m = make(c);
    let a = c.idx as usize % 4;
    let d = scratch(&m.setup);
    let (x, y) = (c.below(1 << 20) as u64, c.below(1 << 20) as u64); let z = x * (y + 2);
    let bad = loop { let w = match c.below(6) { 0 => z + 1, 1 => x * y, 2 => 0, 3 => z.wrapping_sub(1), 4 => x * (y + 1), _ => c.below(1 << 40) as u64 }; if w != z { break w; } };
    // a product that only fits modulo 2^64
    let (x, y, bad) = if c.chance(1, 6) { (1u64 << 33, (1u64 << 33) - 2, 0) } else { (x, y, bad) };
    c.eval(&(a, x, y, bad), true);
    let (xs, ys, zs) = (x.to_string(), y.to_string(), bad.to_string());
    let w = vec![SCHEMES[a], "bls12_381", "mini", &xs, &ys, &zs];
    let o = tool(&d, "zkp-prove", &w);
    let f = file(&d, SCHEMES[a], "mini");
    if f.exists() {
        let v = tool(&d, "zkp-verify", &[f.strip_prefix(&d).unwrap().to_str().unwrap()]);
        c.count("unsatisfiable requests with a proof file"); c.count(if v.valid() { "unsatisfiable: valid" } else { "unsatisfiable: not valid" });
        c.check(!v.valid(), &format!("{} mini: the proof of an unsatisfiable request is reported valid", SCHEMES[a]), || json!({"command": w, "run": v.j()}));
    } else { c.count("unsatisfiable requests refused"); if !o.timeout { c.check(!o.ok(), &format!("{} mini: proving neither fails nor writes a proof", SCHEMES[a]), || json!({"command": w, "run": o.j()})); } }
    let _ = std::fs::remove_dir_all(&d);
    // nonsense
    let lists: Vec<(&str, Vec<&str>)> = vec![
        ("setup", vec!["groth17", "bls12_381", "mini"]), ("setup", vec!["groth16", "bn_256", "mini"]), ("setup", vec!["groth16", "bls12_381", "maxi"]), ("setup", vec!["groth16"]), ("setup", vec![]), ("setup", vec!["", "", ""]),
        ("setup", vec!["bulletproofs", "bls12_381", "mini"]),
        ("zkp-prove", vec![]), ("zkp-prove", vec![SCHEMES[a]]), ("zkp-prove", vec![SCHEMES[a], "bls12_381"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "hash"]),
        ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini", "2", "3"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini", "2", "3", "x"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini", "-2", "3", "4"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini", "", "3", "4"]),
        ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini", "18446744073709551616", "3", "4"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "mini", "2.0", "3", "10"]),
        ("zkp-prove", vec!["marlin", "bls12_381", "mini", "2", "3", "10"]), ("zkp-prove", vec![SCHEMES[a], "bls12_377", "mini", "2", "3", "10"]), ("zkp-prove", vec![SCHEMES[a], "bls12_381", "minis", "2", "3", "10"]),
        ("zkp-verify", vec![]), ("zkp-verify", vec!["missing.json"]), ("zkp-verify", vec!["."]), ("zkp-verify", vec!["junk.json"]), ("zkp-verify", vec!["empty.json"]), ("zkp-verify", vec!["list.json"]), ("zkp-verify", vec!["binary.json"]),
    ];
    let d = scratch(&m.setup);
    for (n, t) in [("junk.json", "{]"), ("empty.json", ""), ("list.json", "[1,2]")].iter() { std::fs::write(d.join(n), t).unwrap(); }
    std::fs::write(d.join("binary.json"), [0xffu8, 0xfe, 0, 1]).unwrap();
    // setup writes where it runs: give it a place of its own
    let own = root().join(format!("own{}-{}", c.idx, c.scenario.len())); std::fs::create_dir_all(&own).unwrap();
    for _ in 0..8 { let (t, w) = &lists[c.below(lists.len())];
        let o = tool(if *t == "setup" { &own } else { &d }, t, w);
        if o.timeout { c.count("runs that took too long"); continue; }
        c.count(&format!("nonsense refused by {}", t));
        c.check(!o.ok() && !o.valid(), &format!("{}: a meaningless request is not refused", t), || json!({"arguments": w, "run": o.j()}));
        let left: Vec<_> = std::fs::read_dir(if *t == "setup" { own.join("setup_files") } else { d.join("proof_files") }).map(|r| r.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
        c.check(left.is_empty(), &format!("{}: a meaningless request leaves files", t), || json!({"arguments": w, "files": format!("{:?}", left)}));
    }
    // proving without a setup
    if a != 1 { let e = scratch(&m.dir.join("nowhere")); let o = tool(&e, "zkp-prove", &[SCHEMES[a], "bls12_381", "mini", "2", "3", "10"]);
        if !o.timeout { c.count("proving without setup refused"); c.check(!o.ok() && !file(&e, SCHEMES[a], "mini").exists(), &format!("{}: proving without a setup is not refused", SCHEMES[a]), || o.j()); } let _ = std::fs::remove_dir_all(&e); }
    let _ = std::fs::remove_dir_all(&d); let _ = std::fs::remove_dir_all(&own);
}
/// a file that brings its own circuit
fn own_circuit(c: &Case) {
    let m = make(c);
    c.eval(&"own circuit", true);
    for (a, b, q, v) in m.proofs.iter().filter(|p| p.0 == 1 && p.1 == 0) {
        let z: u64 = q.param.parse().unwrap(); let mut x = vec![0u8; 32]; x[..8].copy_from_slice(&z.to_le_bytes());
        let d = scratch(&m.setup);
        let o = verify(&d, &with(&with(v, "circuit", json!("hash")), "params", json!([hex(&x)])));
        if o.valid() { c.violation("bulletproofs: a mini proof file relabelled as a hash proof file is reported valid", json!({"run": o.j(), "from": label(*a, *b)})); } else { c.count("relabelled bulletproofs files refused"); }
        let _ = std::fs::remove_dir_all(&d);
    }
}
fn main() {
    let ctx = Ctx::new("C29", "one process run chain (setup, prove, verify) or one proof file with its alterations; distinct by request and alterations");
    ctx.run(vec![
        sc("honest", 42, honest),
        sc("altered files", 48, alter),
        sc("refused requests", 24, refused),
        once("own circuit", 1, own_circuit),
    ]);
    let code = ctx.report(0);
    let _ = std::fs::remove_dir_all(root());
    std::process::exit(code)
}
