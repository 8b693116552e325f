//! Recording constraint system, and a propagation solver that looks for assignments the
//! constraints admit although the gadget did not mean them.
use crate::Case;
use ark_ff::{BigInteger, FpParameters, PrimeField};
use num_bigint::{BigInt, BigUint, Sign};
use std::collections::{HashMap, VecDeque};
use zkp_r1cs::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

pub type L<F> = Vec<(usize, F)>;
#[derive(Clone)]
pub struct Rcs<F: PrimeField> {
    /// variable 0 is one; others in order of allocation
    pub vals: Vec<F>,
    pub names: Vec<String>,
    pub is_input: Vec<bool>,
    in_ix: Vec<usize>,
    aux_ix: Vec<usize>,
    pub cons: Vec<(L<F>, L<F>, L<F>, String)>,
    ns: Vec<String>,
    /// synthesize as a setup does: assignments are never asked for
    pub blank: bool,
    pub keep_names: bool,
}
impl<F: PrimeField> Rcs<F> {
    pub fn new() -> Self { Rcs { vals: vec![F::one()], names: vec!["one".into()], is_input: vec![true], in_ix: vec![0], aux_ix: vec![], cons: vec![], ns: vec![], blank: false, keep_names: true } }
    pub fn ix(&self, v: Variable) -> usize { match v.get_unchecked() { Index::Input(i) => self.in_ix[i], Index::Aux(i) => self.aux_ix[i] } }
    pub fn lc(&self, l: &LinearCombination<F>) -> L<F> { l.as_ref().iter().map(|(v, k)| (self.ix(*v), *k)).collect() }
    pub fn n(&self) -> usize { self.vals.len() }
    pub fn eval(&self, l: &L<F>, v: &[F]) -> F { let mut s = F::zero(); for (i, k) in l { let mut t = *k; t *= &v[*i]; s += &t; } s }
    pub fn first_violated_by(&self, v: &[F]) -> Option<usize> { self.cons.iter().position(|(a, b, c, _)| self.eval(a, v) * self.eval(b, v) != self.eval(c, v)) }
    pub fn violated(&self) -> Option<(usize, String)> { self.first_violated_by(&self.vals).map(|i| (i, self.cons[i].3.clone())) }
    fn path(&self, a: String) -> String { let mut s = self.ns.join("/"); s.push('/'); s.push_str(&a); s }
}
impl<F: PrimeField> ConstraintSystem<F> for Rcs<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError> where FN: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.blank { F::zero() } else { f()? };
        let n = if self.keep_names { let s = a().into(); self.path(s) } else { String::new() };
        self.aux_ix.push(self.vals.len()); self.vals.push(v); self.is_input.push(false); self.names.push(n);
        Ok(Variable::new_unchecked(Index::Aux(self.aux_ix.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError> where FN: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.blank { F::zero() } else { f()? };
        let n = if self.keep_names { let s = a().into(); self.path(s) } else { String::new() };
        self.in_ix.push(self.vals.len()); self.vals.push(v); self.is_input.push(true); self.names.push(n);
        Ok(Variable::new_unchecked(Index::Input(self.in_ix.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>, LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>, LC: FnOnce(LinearCombination<F>) -> LinearCombination<F> {
        let (a, b, c) = (a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero()));
        let n = if self.keep_names { let s = an().into(); self.path(s) } else { String::new() };
        self.cons.push((merge(self.lc(&a)), merge(self.lc(&b)), merge(self.lc(&c)), n));
    }
    fn push_namespace<NR, N>(&mut self, n: N) where NR: Into<String>, N: FnOnce() -> NR { let s = if self.keep_names { n().into() } else { String::new() }; self.ns.push(s); }
    fn pop_namespace(&mut self) { self.ns.pop(); }
    fn get_root(&mut self) -> &mut Self { self }
    fn num_constraints(&self) -> usize { self.cons.len() }
}
pub fn merge<F: PrimeField>(mut l: L<F>) -> L<F> {
    l.sort_by_key(|x| x.0);
    let mut o: L<F> = vec![];
    for (i, k) in l { match o.last_mut() { Some(x) if x.0 == i => x.1 += &k, _ => o.push((i, k)) } }
    o.retain(|x| !x.1.is_zero());
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Contradiction(usize), Complete, Stuck }

/// Constraint propagation from a partial assignment.
pub struct Solver<'a, F: PrimeField> {
    pub r: &'a Rcs<F>,
    pub val: Vec<Option<F>>,
    bool_var: Vec<bool>,
    occ: Vec<Vec<usize>>,
    unk: Vec<usize>,
    queue: VecDeque<usize>,
    /// wide equations, looked at only when nothing else is left
    late: VecDeque<usize>,
    inq: Vec<bool>,
    pow2: HashMap<F, i32>,
    pub n_unknown: usize,
    pub steps: u64,
}
impl<'a, F: PrimeField> Clone for Solver<'a, F> {
    fn clone(&self) -> Self { Solver { r: self.r, val: self.val.clone(), bool_var: self.bool_var.clone(), occ: self.occ.clone(), unk: self.unk.clone(), queue: self.queue.clone(), late: self.late.clone(), inq: self.inq.clone(), pow2: self.pow2.clone(), n_unknown: self.n_unknown, steps: 0 } }
}
impl<'a, F: PrimeField> Solver<'a, F> {
    /// `fixed`: variables whose recorded value is given (operands, public values).
    pub fn new(r: &'a Rcs<F>, fixed: &[usize]) -> Self {
        let n = r.n();
        let mut occ = vec![vec![]; n];
        let mut unk = vec![0; r.cons.len()];
        for (k, (a, b, c, _)) in r.cons.iter().enumerate() {
            let mut vs: Vec<usize> = a.iter().chain(b).chain(c).map(|x| x.0).collect();
            vs.sort(); vs.dedup();
            unk[k] = vs.len();
            for v in vs { occ[v].push(k); }
        }
        let mut pow2 = HashMap::new(); let mut p = F::one();
        for e in 0..(F::size_in_bits() as i32 - 2) { pow2.insert(p, e); p.double_in_place(); }
        let mut s = Solver { r, val: vec![None; n], bool_var: vec![false; n], occ, unk, queue: (0..r.cons.len()).collect(), late: VecDeque::new(), inq: vec![true; r.cons.len()], pow2, n_unknown: n, steps: 0 };
        // x * (x - 1) = 0 in any of its usual shapes
        for (a, b, c, _) in &r.cons {
            let mut vs: Vec<usize> = a.iter().chain(b).chain(c).map(|x| x.0).filter(|v| *v != 0).collect(); vs.sort(); vs.dedup();
            if vs.len() != 1 { continue; }
            let x = vs[0];
            let ev = |v: F| { let e = |l: &L<F>| { let mut t = F::zero(); for (i, k) in l { t += &if *i == 0 { *k } else { *k * &v }; } t }; e(a) * &e(b) - &e(c) };
            let (z, o, t, th) = (ev(F::zero()), ev(F::one()), ev(F::from(2u64)), ev(F::from(3u64)));
            if z.is_zero() && o.is_zero() && (!t.is_zero() || !th.is_zero()) { s.bool_var[x] = true; }
        }
        // variables that a constraint defines from bits and that can only be bits
        let mut def: HashMap<usize, usize> = HashMap::new();
        for (ci, (a, b, c, _)) in r.cons.iter().enumerate() {
            let mut vs: Vec<usize> = a.iter().chain(b).chain(c).map(|x| x.0).filter(|v| *v != 0).collect(); vs.sort(); vs.dedup();
            if vs.len() > 5 { continue; }
            let un: Vec<usize> = vs.iter().cloned().filter(|v| !s.bool_var[*v]).collect();
            if un.len() != 1 { continue; }
            let x = un[0];
            if a.iter().chain(b).any(|y| y.0 == x) { continue; }
            let k = match c.iter().find(|y| y.0 == x) { Some(y) => y.1.inverse().unwrap(), None => continue };
            let bits: Vec<usize> = vs.into_iter().filter(|v| *v != x).collect();
            let only_bits = (0..1usize << bits.len()).all(|m| {
                let e = |l: &L<F>| { let mut t = F::zero(); for (i, q) in l { if *i == 0 || bits.iter().position(|y| y == i).map_or(false, |p| m >> p & 1 == 1) { t += q; } } t };
                // combinations that earlier definitions among these bits exclude do not count
                for y in &bits { if let Some(d) = def.get(y) { let (da, db, dc, _) = &r.cons[*d];
                    if da.iter().chain(db).chain(dc).all(|z| z.0 == 0 || bits.contains(&z.0)) && e(da) * &e(db) != e(dc) { return true; } } }
                let v = (e(a) * &e(b) - &e(c)) * &k; v.is_zero() || v.is_one() });
            if only_bits { s.bool_var[x] = true; def.insert(x, ci); }
        }
        s.set(0, F::one());
        for &f in fixed { if s.val[f].is_none() { s.set(f, r.vals[f]); } }
        s
    }
    pub fn set(&mut self, v: usize, x: F) {
        debug_assert!(self.val[v].is_none());
        self.val[v] = Some(x); self.n_unknown -= 1;
        for i in 0..self.occ[v].len() { let k = self.occ[v][i]; self.unk[k] -= 1; if !self.inq[k] { self.inq[k] = true; self.queue.push_back(k); } }
    }
    fn split(&self, l: &L<F>) -> (F, L<F>) { let mut k = F::zero(); let mut u = vec![]; for (i, c) in l { match self.val[*i] { Some(v) => k += &(*c * &v), None => u.push((*i, *c)) } } (k, u) }
    pub fn run(&mut self) -> Out {
        loop {
            let k = match self.queue.pop_front() { Some(k) => { if self.unk[k] > 6 { self.late.push_back(k); continue; } k } None => match self.late.pop_front() { Some(k) => k, None => break } };
            self.inq[k] = false;
            self.steps += 1;
            let (a, b, c, _) = &self.r.cons[k];
            let ((a0, au), (b0, bu), (c0, cu)) = (self.split(a), self.split(b), self.split(c));
            if self.unk[k] == 0 { if a0 * &b0 != c0 { return Out::Contradiction(k); } continue; }
            // linear form: sum u + t = 0
            let lin: Option<(F, L<F>)> = if au.is_empty() { Some(lincomb(a0, b0, &bu, c0, &cu)) } else if bu.is_empty() { Some(lincomb(b0, a0, &au, c0, &cu)) } else { None };
            match lin {
                Some((t, u)) => {
                    if u.is_empty() { if !t.is_zero() { return Out::Contradiction(k); } continue; }
                    if u.len() == 1 {
                        let v = -t * &u[0].1.inverse().unwrap();
                        if self.bool_var[u[0].0] && v != F::zero() && v != F::one() { return Out::Contradiction(k); }
                        self.set(u[0].0, v); continue;
                    }
                    if u.iter().all(|x| self.bool_var[x.0]) {
                        match self.decompose(t, &u) { Dec::No => return Out::Contradiction(k), Dec::Unique(v) => for (x, b) in v { self.set(x, if b { F::one() } else { F::zero() }) }, Dec::Open => {} }
                    }
                }
                None => {
                    // one unknown in both factors
                    let mut vs: Vec<usize> = au.iter().chain(&bu).chain(&cu).map(|x| x.0).collect(); vs.sort(); vs.dedup();
                    if vs.len() == 1 {
                        let co = |l: &L<F>| l.get(0).map_or(F::zero(), |x| x.1);
                        let (a1, b1, c1) = (co(&au), co(&bu), co(&cu));
                        let (q2, q1, q0) = (a1 * &b1, a0 * &b1 + &(a1 * &b0) - &c1, a0 * &b0 - &c0);
                        if self.bool_var[vs[0]] {
                            let (at0, at1) = (q0.is_zero(), (q2 + &q1 + &q0).is_zero());
                            match (at0, at1) { (false, false) => return Out::Contradiction(k), (true, false) => self.set(vs[0], F::zero()), (false, true) => self.set(vs[0], F::one()), _ => {} }
                        } else {
                            // a double root is forced; other quadratics stay open
                            let disc = q1.square() - &(F::from(4u64) * &q2 * &q0);
                            if disc.is_zero() { let v = -q1 * &(q2.double()).inverse().unwrap(); self.set(vs[0], v); }
                        }
                    } else if vs.len() <= 3 && vs.iter().all(|v| self.bool_var[*v]) {
                        // few bits: enumerate
                        let mut sols: Vec<usize> = vec![];
                        for m in 0..(1usize << vs.len()) {
                            let bit = |v: usize| if m >> vs.iter().position(|y| *y == v).unwrap() & 1 == 1 { F::one() } else { F::zero() };
                            let e = |z: F, l: &L<F>| { let mut s = z; for (v, k) in l { s += &(*k * &bit(*v)); } s };
                            if e(a0, &au) * &e(b0, &bu) == e(c0, &cu) { sols.push(m); }
                        }
                        if sols.is_empty() { return Out::Contradiction(k); }
                        for (i, v) in vs.iter().enumerate() {
                            let ones = sols.iter().filter(|m| **m >> i & 1 == 1).count();
                            if ones == sols.len() { self.set(*v, F::one()) } else if ones == 0 { self.set(*v, F::zero()) }
                        }
                    }
                }
            }
        }
        if self.n_unknown == 0 { Out::Complete } else { Out::Stuck }
    }
    /// sum coef*bit + t = 0 over bits
    fn decompose(&self, t: F, u: &L<F>) -> Dec {
        if u.len() <= 4 {
            let mut sols = vec![];
            for m in 0..(1usize << u.len()) { let mut s = t; for (i, (_, k)) in u.iter().enumerate() { if m >> i & 1 == 1 { s += k; } } if s.is_zero() { sols.push(m); } }
            return match sols.len() { 0 => Dec::No, 1 => Dec::Unique(u.iter().enumerate().map(|(i, x)| (x.0, sols[0] >> i & 1 == 1)).collect()), _ => Dec::Open };
        }
        // coefficients s * (+-2^e) with distinct e
        for &(_, s) in u {
            let inv = match s.inverse() { Some(i) => i, None => return Dec::Open };
            let mut es: Vec<(usize, i32, bool)> = vec![]; let mut ok = true;
            for (x, k) in u { let q = *k * &inv; if let Some(e) = self.pow2.get(&q) { es.push((*x, *e, false)) } else if let Some(e) = self.pow2.get(&-q) { es.push((*x, *e, true)) } else { ok = false; break; } }
            if !ok { continue; }
            let mut e2: Vec<i32> = es.iter().map(|x| x.1).collect(); e2.sort(); e2.dedup();
            if e2.len() != es.len() { break; }
            // negative ones: b = 1 - b', moves -2^e to the constant
            let mut target = -t * &inv;
            let two = F::from(2u64);
            for (_, e, neg) in &es { if *neg { target += &two.pow([*e as u64]); } }
            let r = target.into_repr();
            let mut bits = r.to_bits_le();
            let mut v = vec![];
            for (x, e, neg) in &es { let b = bits.get(*e as usize).copied().unwrap_or(false); if (*e as usize) < bits.len() { bits[*e as usize] = false; } v.push((*x, b != *neg)); }
            return if bits.iter().any(|b| *b) { Dec::No } else { Dec::Unique(v) };
        }
        self.peel(t, u)
    }
    /// The same equation over the integers, when no wrap-around is possible: bits are fixed from
    /// the lowest power of two upwards as long as one unknown at a time decides that power.
    fn peel(&self, t: F, u: &L<F>) -> Dec {
        let p = big::<F>(&F::Params::MODULUS); let half = &p >> 1;
        let int = |x: &F| { let b = big::<F>(&x.into_repr()); if b > half { b - &p } else { b } };
        let mut t = int(&t);
        let (mut lo, mut hi) = (t.clone(), t.clone());
        let mut cs: Vec<(u64, usize, BigInt)> = vec![];
        for (x, k) in u { let k = int(k); let v = k.trailing_zeros().unwrap_or(0); if k.sign() == Sign::Minus { lo += &k } else { hi += &k } cs.push((v, *x, k)); }
        // the sum is a multiple of the modulus; only one may be in reach
        let mut m = &lo / &p - 2; m *= &p;
        while m < lo { m += &p; }
        if m > hi { return Dec::No; }
        if &m + &p <= hi { return Dec::Open; }
        t -= &m;
        cs.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));
        let mut v = vec![];
        for i in 0..cs.len() {
            if i + 1 < cs.len() && cs[i].0 == cs[i + 1].0 { return if v.is_empty() { Dec::Open } else { Dec::Unique(v) }; }
            // everything left is divisible by 2^cs[i].0
            let low = t.trailing_zeros();
            let bit = match low { None => false, Some(l) if l < cs[i].0 => return Dec::No, Some(l) => l == cs[i].0 };
            if bit { t += &cs[i].2; }
            v.push((cs[i].1, bit));
        }
        if t.sign() != Sign::NoSign { return Dec::No; }
        Dec::Unique(v)
    }
    pub fn unknowns(&self) -> Vec<usize> { (0..self.val.len()).filter(|&i| self.val[i].is_none()).collect() }
    pub fn is_bool(&self, v: usize) -> bool { self.bool_var[v] }
    pub fn assignment(&self) -> Vec<F> { self.val.iter().map(|x| x.unwrap()).collect() }
}
fn big<F: PrimeField>(r: &F::BigInt) -> BigInt { let mut v = BigUint::from(0u32); for x in r.as_ref().iter().rev() { v = (v << 64) + BigUint::from(*x); } BigInt::from_biguint(Sign::Plus, v) }
enum Dec { No, Unique(Vec<(usize, bool)>), Open }
fn lincomb<F: PrimeField>(k: F, z0: F, zu: &L<F>, c0: F, cu: &L<F>) -> (F, L<F>) {
    let mut l: L<F> = zu.iter().map(|x| (x.0, x.1 * &k)).collect();
    l.extend(cu.iter().map(|x| (x.0, -x.1)));
    (k * &z0 - &c0, merge(l))
}

/// What the search for a second assignment found.
#[derive(Debug)]
pub enum Search<F> {
    /// propagation alone fixes every variable: the recorded assignment is the only one
    Unique,
    /// propagation alone shows there is no assignment
    Impossible,
    /// a satisfying assignment in which `differs` holds
    Found(Vec<F>),
    /// neither
    Open { tried: usize, unknown: usize },
}
/// Look for an assignment that agrees on `fixed` (variables and the values they must have) and
/// satisfies every constraint, such that `differs(assignment)`.
pub fn search<F: PrimeField>(case: &Case, r: &Rcs<F>, fixed: &[(usize, F)], tries: usize, differs: &dyn Fn(&[F]) -> bool) -> Search<F> {
    let mut s = Solver::new(r, &[]);
    for (v, x) in fixed { match s.val[*v] { None => s.set(*v, *x), Some(y) => if y != *x { return Search::Impossible } } }
    match s.run() {
        Out::Contradiction(_) => return Search::Impossible,
        Out::Complete => { let a = s.assignment(); assert!(r.first_violated_by(&a).is_none()); return if differs(&a) { Search::Found(a) } else { Search::Unique } }
        Out::Stuck => {}
    }
    let unknown = s.n_unknown;
    for t in 0..tries {
        let mut q = s.clone();
        let mut first = true;
        loop {
            let u = q.unknowns();
            // in the order of allocation values follow from earlier ones, as an honest prover computes them
            let v = match t % 4 { 1 => u[0], 2 if !first => u[0], _ => u[case.below(u.len())] };
            let honest = r.vals[v];
            let x = if q.bool_var[v] {
                if first { F::one() - &honest } else if case.chance(1, 3) { F::one() - &honest } else { honest }
            } else if first || case.chance(1, 3) { match case.below(4) { 0 => honest + &F::one(), 1 => F::zero(), 2 => -honest, _ => crate::circ::rand_f(case) } } else { honest };
            if first && x == honest { if t % 2 == 0 { q.set(v, x + &F::one()); } else { q.set(v, x); } } else { q.set(v, x); }
            first = false;
            match q.run() { Out::Contradiction(_) => break, Out::Stuck => continue,
                Out::Complete => { let a = q.assignment(); assert!(r.first_violated_by(&a).is_none()); if differs(&a) { return Search::Found(a); } break; } }
        }
    }
    Search::Open { tried: tries, unknown }
}
