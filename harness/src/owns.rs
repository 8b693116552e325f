//! Which parts of what a randomised algorithm returns have randomness of their own: every random draw is
//! altered in turn, the parts that change are recorded, and parts are matched with draws (maximum flow).
use ark_serialize::CanonicalSerialize as Se;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use crate::{mutate, Case, Tape};

pub fn toks<P: Se>(p: &P) -> Vec<Vec<u8>> { let e = mutate::enc(p); e.toks.iter().map(|(o, l)| e.bytes[*o..*o + *l].to_vec()).collect() }

/// A class of random draws: all the draws whose alteration changes exactly the tokens in `set`.
pub struct Class { set: BTreeSet<usize>, bytes: usize, first: Vec<usize> }
/// Alter every draw of the tape in turn and see what becomes of the proof.
pub type Proved = Option<(Vec<u8>, Vec<Vec<u8>>)>;
/// `unit`: every class is one draw of an element by rejection sampling; alterations that change how much of the
/// tape is read say nothing and another bit is tried.
fn classes(prove: &(dyn Fn(&mut Tape) -> Proved + Sync), tape: &Tape, unit: bool) -> Option<(Vec<Vec<u8>>, Vec<Class>, usize)> {
    let mut t = tape.clone();
    let (public, base) = prove(&mut t)?;
    let calls = t.calls.clone();
    let mut by: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
    // a case is many proofs: share them out
    let next = std::sync::atomic::AtomicUsize::new(0);
    let seen = std::sync::Mutex::new(Some(vec![]));
    std::thread::scope(|sc| for _ in 0..4 { std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || loop {
        let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if k >= calls.len() || seen.lock().unwrap().is_none() { return; }
        let mut got = None;
        for bit in 0..if unit { 5 } else { 1 } {
            let mut t = tape.clone(); t.flip = Some(k); t.bit = bit;
            let Some(x) = prove(&mut t) else { *seen.lock().unwrap() = None; return };
            if !unit || t.calls == calls { got = Some(x); break; }
        }
        let Some((q, p)) = got else { continue };
        // draws for public parameters that the prover makes up
        if q != public { continue; }
        if p.len() != base.len() { *seen.lock().unwrap() = None; return; }
        // lengths and flags are no hiding parts
        let set: BTreeSet<usize> = (0..p.len()).filter(|i| base[*i].len() >= 32 && p[*i] != base[*i]).collect();
        // a draw that was thrown away (rejection sampling) changes nothing
        if !set.is_empty() { if let Some(v) = seen.lock().unwrap().as_mut() { v.push((set, k)); } }
    }).unwrap(); });
    for (set, k) in seen.into_inner().unwrap()? { *by.entry(set).or_insert(0) += calls[k]; }
    if unit { for b in by.values_mut() { *b = 32; } }
    // tokens affected by less of the tape come earlier in the protocol
    let mut time = vec![0usize; base.len()];
    for (s, b) in &by { for i in s { time[*i] += b; } }
    // what follows the earliest tokens is a matter of the challenges
    let mut v: Vec<Class> = vec![];
    for (set, bytes) in by {
        let m = set.iter().map(|i| time[*i]).min().unwrap();
        let first: Vec<usize> = set.iter().cloned().filter(|i| time[*i] == m).collect();
        match v.iter_mut().find(|c| c.first == first) { Some(c) => c.bytes += bytes, None => v.push(Class { set, bytes, first }) }
    }
    if unit { for c in &mut v { c.bytes = 32; } }
    Some((base, v, calls.len()))
}
/// token -> number of scalars of its own
pub type Need = BTreeMap<usize, usize>;
fn needs(v: &[Class]) -> Need { let mut n = Need::new(); for c in v { let k = c.bytes / 32; if k > 0 { *n.entry(c.first[0]).or_insert(0) += k; } } n }
/// What of the need is not met: classes give scalars to the earliest tokens they affect (maximum flow, unit steps).
fn unmet(v: &[Class], need: &Need) -> Vec<(usize, usize)> {
    let mut cap: Vec<usize> = v.iter().map(|c| (c.bytes + 16) / 32).collect();
    let mut given: BTreeMap<(usize, usize), usize> = BTreeMap::new(); // (class, token)
    let mut out = vec![];
    for (t, n) in need {
        let mut missing = *n;
        while missing > 0 {
            // augmenting path: token -> class with capacity, or class that gave to another token which can be served elsewhere
            let mut seen = BTreeSet::new();
            fn serve(t: usize, v: &[Class], cap: &mut Vec<usize>, given: &mut BTreeMap<(usize, usize), usize>, seen: &mut BTreeSet<usize>) -> bool {
                for c in 0..v.len() {
                    if !v[c].first.contains(&t) || !seen.insert(c) { continue; }
                    if cap[c] > 0 { cap[c] -= 1; *given.entry((c, t)).or_insert(0) += 1; return true; }
                    let others: Vec<usize> = given.iter().filter(|((d, u), n)| *d == c && *u != t && **n > 0).map(|((_, u), _)| *u).collect();
                    for u in others { if serve(u, v, cap, given, seen) { *given.get_mut(&(c, u)).unwrap() -= 1; *given.entry((c, t)).or_insert(0) += 1; return true; } }
                }
                false
            }
            if !serve(*t, v, &mut cap, &mut given, &mut seen) { break; }
            missing -= 1;
        }
        if missing > 0 { out.push((*t, missing)); }
    }
    out
}
/// layout -> (number of parts, their lengths, what each must own)
pub type Table = BTreeMap<String, (usize, Vec<usize>, Need)>;
pub fn table(text: &str) -> Table {
    let v: Value = serde_json::from_str(text).unwrap();
    v.as_object().unwrap().iter().map(|(k, x)| (k.clone(), (x["tokens"].as_array().unwrap().len(), x["tokens"].as_array().unwrap().iter().map(|l| l.as_u64().unwrap() as usize).collect(),
        x["own"].as_object().unwrap().iter().map(|(t, n)| (t.parse().unwrap(), n.as_u64().unwrap() as usize)).collect()))).collect()
}
thread_local! { pub static REC: RefCell<Option<BTreeMap<String, Value>>> = RefCell::new(None); }

pub fn owned(c: &Case, unit: bool, table: &Table, name: &str, key: &str, prove: &(dyn Fn(&mut Tape) -> Proved + Sync), what: &dyn Fn() -> Value) {
    let tape = c.tape();
    let Some((base, v, calls)) = classes(prove, &tape, unit) else { c.count(&format!("{}: nothing to analyse", name)); return };
    let recording = REC.with(|r| { if let Some(m) = r.borrow_mut().as_mut() { m.insert(key.into(), json!({"tokens": base.iter().map(|t| t.len()).collect::<Vec<_>>(), "own": needs(&v).iter().map(|(t, n)| (t.to_string(), *n)).collect::<BTreeMap<_, _>>()})); true } else { false } });
    if recording { return; }
    c.eval(&(key, base.concat()), true);
    c.count_n(&format!("{}: draws altered one by one", name), calls as u64);
    c.count_n(&format!("{}: separate classes of draws", name), v.len() as u64);
    let Some((_, lens, need)) = table.get(key) else { panic!("no table entry {}", key) };
    if lens.len() != base.len() || need.keys().any(|t| lens[*t] != base[*t].len()) { c.count(&format!("{}: another layout (not comparable)", name)); return; }
    c.count_n(&format!("{}: parts found to own randomness", name), need.len() as u64);
    let miss = unmet(&v, need);
    c.sample(|| json!({"scheme": name, "draws": calls, "classes": v.len(), "parts that must own randomness": need.len(), "scalars": need.values().sum::<usize>()}));
    if !miss.is_empty() { c.violation(&format!("{}: parts lack randomness of their own", name), json!({"what": what(), "layout": key, "token and missing scalars": miss.iter().take(8).collect::<Vec<_>>(), "of": need.len(), "sets": v.iter().take(6).map(|c| (c.set.len(), c.bytes)).collect::<Vec<_>>()})); }
}
