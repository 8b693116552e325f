//! Random rank-1 circuits with satisfying assignments, and an independent evaluator.
use crate::Case;
use ark_ff::{Field, PrimeField};
use rand::RngCore;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError, Variable};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V { One, In(usize), Aux(usize) }
pub type Lc<F> = Vec<(F, V)>;

#[derive(Clone, Debug)]
pub enum Step { In(usize), Aux(usize), Enforce(usize) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fail { Missing, DivZero, Unsat, DegreeTooLarge, Identity, Malformed, Unconstrained, Io }
impl Fail {
    pub fn err(self) -> SynthesisError {
        match self {
            Fail::Missing => SynthesisError::AssignmentMissing,
            Fail::DivZero => SynthesisError::DivisionByZero,
            Fail::Unsat => SynthesisError::Unsatisfiable,
            Fail::DegreeTooLarge => SynthesisError::PolynomialDegreeTooLarge,
            Fail::Identity => SynthesisError::UnexpectedIdentity,
            Fail::Malformed => SynthesisError::MalformedVerifyingKey,
            Fail::Unconstrained => SynthesisError::UnconstrainedVariable,
            Fail::Io => SynthesisError::IoError(ark_std::io::Error::new(ark_std::io::ErrorKind::Other, "injected")),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Circ<F: Field> {
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub steps: Vec<Step>,
    pub cons: Vec<(Lc<F>, Lc<F>, Lc<F>)>,
    /// how combinations are assembled through the builder API
    pub style: u64,
    /// synthesize without assignments (key generation)
    pub blank: bool,
    /// fail at this step with this error, either from the assignment closure or from the circuit itself
    pub fail: Option<(usize, Fail, bool)>,
    /// for each constraint, the variable it determines (if any)
    pub defs: Vec<Option<V>>,
}

pub struct Shape { pub n_in: usize, pub n_aux: usize, pub n_con: usize, pub max_terms: usize, pub special: usize, pub resolvable: bool }

pub fn rand_f<F: Field>(c: &Case) -> F {
    let mut r = c.rng.borrow_mut();
    loop {
        let mut b = [0u8; 64];
        r.fill_bytes(&mut b);
        if let Some(f) = F::from_random_bytes(&b[..32]) { return f; }
    }
}
/// Field value with special values over-represented.
pub fn spec_f<F: PrimeField>(c: &Case, special: usize) -> F {
    if c.below(100) >= special { return rand_f(c); }
    match c.below(8) {
        0 | 1 => F::zero(),
        2 | 3 => F::one(),
        4 => -F::one(),
        5 => F::from(2u32).pow([c.below(250) as u64]),
        6 => F::from(c.below(1000) as u32),
        _ => -F::from(c.below(1000) as u32),
    }
}

impl<F: PrimeField> Circ<F> {
    pub fn val(&self, v: V) -> F {
        match v { V::One => F::one(), V::In(i) => self.inputs[i], V::Aux(i) => self.aux[i] }
    }
    pub fn eval(&self, l: &Lc<F>) -> F {
        let mut s = F::zero();
        for (k, v) in l { let mut t = *k; t *= &self.val(*v); s += &t; }
        s
    }
    pub fn first_violated(&self) -> Option<usize> {
        self.cons.iter().position(|(a, b, c)| self.eval(a) * self.eval(b) != self.eval(c))
    }
    pub fn violated(&self) -> Vec<usize> {
        (0..self.cons.len()).filter(|&i| { let (a, b, c) = &self.cons[i]; self.eval(a) * self.eval(b) != self.eval(c) }).collect()
    }
    pub fn blank(&self) -> Self { let mut c = self.clone(); c.blank = true; c }
    pub fn shape_fp(&self) -> Vec<u64> {
        let mut v = vec![self.inputs.len() as u64, self.aux.len() as u64, self.cons.len() as u64, self.style];
        for (a, b, c) in &self.cons { for l in [a, b, c] { v.push(l.len() as u64);
            for (k, x) in l { v.push(crate::fp_of(&(format!("{:?}", x), k.into_repr().as_ref().to_vec()))); } } }
        v
    }
    pub fn describe(&self) -> serde_json::Value {
        let f = |x: &F| -> String {
            if *x == F::zero() { "0".into() } else if *x == F::one() { "1".into() } else if *x == -F::one() { "-1".into() }
            else { let l = x.into_repr().as_ref().to_vec(); if l[1..].iter().all(|y| *y == 0) { l[0].to_string() } else { format!("0x{:x}..", l[l.len() - 1]) } } };
        let lc = |l: &Lc<F>| l.iter().map(|(k, v)| format!("{}*{:?}", f(k), v)).collect::<Vec<_>>().join(" + ");
        serde_json::json!({
            "inputs": self.inputs.iter().map(&f).collect::<Vec<_>>(), "n_aux": self.aux.len(), "n_constraints": self.cons.len(),
            "constraints": self.cons.iter().take(6).map(|(a, b, c)| format!("({}) * ({}) = {}", lc(a), lc(b), lc(c))).collect::<Vec<_>>()})
    }

    pub fn random_shape(c: &Case) -> Shape {
        let n_in = c.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]);
        let n_con = match c.below(6) { 0 => c.range(1, 4), 1 | 2 => c.range(2, 9), 3 => c.range(8, 20), 4 => c.pick(&[4, 7, 8, 9, 15, 16, 17]), _ => c.range(16, 40) };
        let n_aux = match c.below(4) { 0 => n_con, 1 => c.range(1, 3), 2 => c.range(1, n_con + 4), _ => c.pick(&[1, 2, 3, 4, 7, 8, 9, 15, 16]) };
        Shape { n_in, n_aux, n_con, max_terms: c.pick(&[1, 2, 3, 5, 8, 12]), special: c.pick(&[0, 20, 60]), resolvable: false }
    }

    /// Well beyond the sizes at which windows, tables, domains and folds change their length.
    pub fn large_shape(c: &Case) -> Shape {
        let n_con = match c.below(3) { 0 => c.pick(&[63, 64, 65, 127, 128, 129]), _ => c.range(50, 260) };
        let n_in = match c.below(3) { 0 => c.range(0, 3), 1 => c.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65]), _ => c.range(10, 80) };
        let n_aux = match c.below(3) { 0 => c.range(1, 8), 1 => n_con, _ => c.range(40, 200) };
        let max_terms = c.pick(&[2, 5, 70]);
        let n_con = if max_terms == 70 { n_con / 6 } else { n_con };
        Shape { n_in, n_aux, n_con, max_terms, special: c.pick(&[0, 20, 60]), resolvable: false }
    }

    /// A shape in which every constraint determines a variable, so that `resample` can find other satisfying assignments.
    pub fn resolvable_shape(c: &Case) -> Shape {
        let mut s = Self::random_shape(c);
        s.resolvable = true;
        s.special = 0;
        s.n_in = s.n_in.max(1);
        let need = s.n_con + 2;
        if s.n_in + s.n_aux < need { s.n_aux = need - s.n_in.min(need - 1) + c.below(3); }
        s
    }
    /// Another satisfying assignment of the same circuit (None if some constraint determines no variable).
    pub fn resample(&self, c: &Case) -> Option<Self> {
        let mut k = self.clone();
        let defined: Vec<V> = self.defs.iter().flatten().cloned().collect();
        if defined.len() != self.cons.len() { return None; }
        for s in &self.steps { match s {
            Step::In(i) if !defined.contains(&V::In(*i)) => k.inputs[*i] = rand_f(c),
            Step::Aux(i) if !defined.contains(&V::Aux(*i)) => k.aux[*i] = rand_f(c),
            Step::Enforce(j) => {
                let (a, b, l) = &self.cons[*j];
                let v = self.defs[*j].unwrap();
                let prod = k.eval(a) * k.eval(b);
                let mut co = F::zero(); let mut rest = F::zero();
                for (q, x) in l { if *x == v { co += q; } else { rest += &(*q * k.val(*x)); } }
                let val = (prod - rest) * co.inverse()?;
                match v { V::In(i) => k.inputs[i] = val, V::Aux(i) => k.aux[i] = val, V::One => {} }
            }
            _ => {} } }
        if k.first_violated().is_some() { return None; }
        Some(k)
    }

    pub fn random(c: &Case) -> Self { let s = Self::random_shape(c); Self::with_shape(c, &s) }

    pub fn with_shape(c: &Case, s: &Shape) -> Self {
        let mut k = Circ { inputs: vec![], aux: vec![], steps: vec![], cons: vec![], style: c.rng.borrow_mut().next_u64(), blank: false, fail: None, defs: vec![] };
        // order of allocations, with constraints in between
        let mut allocs: Vec<bool> = (0..s.n_in).map(|_| true).chain((0..s.n_aux).map(|_| false)).collect();
        for i in (1..allocs.len()).rev() { let j = c.below(i + 1); allocs.swap(i, j); }
        if c.chance(1, 3) { allocs.sort_by_key(|b| !*b); } // inputs first, as most circuits do
        let free_head = if allocs.is_empty() { 0 } else { c.range(1, allocs.len().min(4)) };
        let mut pos = 0;
        let alloc = |k: &mut Self, v: F, input: bool| {
            if input { k.inputs.push(v); k.steps.push(Step::In(k.inputs.len() - 1)); V::In(k.inputs.len() - 1) }
            else { k.aux.push(v); k.steps.push(Step::Aux(k.aux.len() - 1)); V::Aux(k.aux.len() - 1) } };
        while pos < free_head { let v = spec_f(c, s.special); alloc(&mut k, v, allocs[pos]); pos += 1; }
        for ci in 0..s.n_con {
            // spread the remaining allocations over the remaining constraints
            let rem_con = s.n_con - ci; let rem_al = allocs.len() - pos;
            let mut here = rem_al / rem_con + if c.below(rem_con) < rem_al % rem_con { 1 } else { 0 };
            let defined = here > 0 && (s.resolvable || c.chance(4, 5));
            if defined { here -= 1; }
            for _ in 0..here { let v = spec_f(c, s.special); alloc(&mut k, v, allocs[pos]); pos += 1; }
            let a = k.rand_lc(c, s); let b = match c.below(6) { 0 => vec![(F::one(), V::One)], 1 => a.clone(), _ => k.rand_lc(c, s) };
            let prod = k.eval(&a) * k.eval(&b);
            let mut def = None;
            let cc: Lc<F> = if defined {
                // new variable: coeff * v + rest = prod
                let rest = if c.chance(1, 2) { vec![] } else { k.rand_lc(c, s) };
                let mut coeff: F = if c.chance(2, 3) { F::one() } else { spec_f(c, s.special) };
                if coeff.is_zero() { coeff = F::one(); }
                let v = (prod - k.eval(&rest)) * coeff.inverse().unwrap();
                let input = allocs[pos]; pos += 1;
                let var = alloc(&mut k, v, input);
                def = Some(var);
                let mut l = rest; let at = c.below(l.len() + 1); l.insert(at, (coeff, var)); l
            } else {
                // fix up with a constant or an existing non-zero variable
                let mut l = if c.chance(1, 3) { vec![] } else { k.rand_lc(c, s) };
                let d = prod - k.eval(&l);
                let nz: Vec<V> = k.vars().into_iter().filter(|v| !k.val(*v).is_zero()).collect();
                let v = nz[c.below(nz.len())];
                l.push((d * k.val(v).inverse().unwrap(), v)); l
            };
            k.steps.push(Step::Enforce(k.cons.len()));
            k.cons.push((a, b, cc));
            k.defs.push(def);
        }
        while pos < allocs.len() { let v = spec_f(c, s.special); alloc(&mut k, v, allocs[pos]); pos += 1; }
        assert_eq!(k.first_violated(), None);
        k
    }
    pub fn vars(&self) -> Vec<V> {
        let mut v = vec![V::One];
        for s in &self.steps { match s { Step::In(i) => v.push(V::In(*i)), Step::Aux(i) => v.push(V::Aux(*i)), _ => {} } }
        v
    }
    fn rand_lc(&self, c: &Case, s: &Shape) -> Lc<F> {
        let n = if c.chance(1, 12) { 0 } else { c.range(1, s.max_terms) };
        let vars = self.vars();
        let mut l: Lc<F> = (0..n).map(|_| {
            let v = if c.chance(1, 6) { V::One } else { vars[c.below(vars.len())] };
            let k = match c.below(4) { 0 => F::one(), 1 => -F::one(), _ => spec_f(c, s.special) };
            (k, v) }).collect();
        if c.chance(1, 4) && !l.is_empty() { let d = l[c.below(l.len())]; l.push(d); } // repeated variable
        l
    }
    /// Change assignments until at least one constraint is violated. Returns which, or None if nothing constrains it.
    pub fn corrupt(&self, c: &Case, aux_only: bool) -> Option<(Self, Vec<usize>)> {
        for _ in 0..30 {
            let mut k = self.clone();
            let n = k.inputs.len() + k.aux.len();
            if n == 0 || (aux_only && k.aux.is_empty()) { return None; }
            let i = c.below(n);
            let delta: F = match c.below(3) { 0 => F::one(), 1 => -F::one(), _ => rand_f(c) };
            if delta.is_zero() { continue; }
            if i < k.aux.len() { k.aux[i] += &delta; } else if !aux_only { k.inputs[i - self.aux.len()] += &delta; } else { continue; }
            let v = k.violated();
            if !v.is_empty() { return Some((k, v)); }
        }
        None
    }
    fn build(&self, lc0: LinearCombination<F>, l: &Lc<F>, map: &dyn Fn(V) -> Variable, salt: u64) -> LinearCombination<F> {
        let mut h = (self.style & !1) ^ salt.wrapping_mul(0x9E3779B97F4A7C15);
        let mut next = || { h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (h >> 33) as usize };
        let mut lc = lc0;
        let mut i = 0;
        while i < l.len() {
            let (k, v) = (l[i].0, map(l[i].1));
            match next() % 7 {
                0 if k == F::one() => lc = lc + v,
                1 if k == -F::one() => lc = lc - v,
                2 => lc = lc - (-k, v),
                3 => { let sub = LinearCombination::<F>::zero() + (k, v); lc = &lc + &sub; }
                4 => { let sub = LinearCombination::<F>::zero() + (F::one(), v); lc = &lc + (k, &sub); }
                5 => { // group the rest into a sub-combination
                    let mut sub = LinearCombination::<F>::zero();
                    let n = 1 + next() % 3;
                    let two_inv = F::from(2u32).inverse().unwrap();
                    for j in i..(i + n).min(l.len()) { sub = sub + (l[j].0 * two_inv, map(l[j].1)); }
                    lc = if next() % 2 == 0 { lc + (F::from(2u32), &sub) } else { lc - (-F::from(2u32), &sub) };
                    i += n; continue;
                }
                _ => lc = lc + (k, v),
            }
            i += 1;
        }
        lc
    }
}

impl<F: PrimeField> ConstraintSynthesizer<F> for Circ<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut iv: Vec<Variable> = vec![]; let mut av: Vec<Variable> = vec![];
        let blank = self.blank;
        for (si, s) in self.steps.iter().enumerate() {
            let failing = match self.fail { Some((at, e, inside)) if at == si && !blank => Some((e, inside)), _ => None };
            if let Some((e, false)) = failing { return Err(e.err()); }
            let assign = |v: F| -> Result<F, SynthesisError> {
                if blank { return Err(SynthesisError::AssignmentMissing); }
                if let Some((e, true)) = failing { return Err(e.err()); }
                Ok(v) };
            match s {
                Step::In(i) => { let v = self.inputs[*i]; iv.push(cs.alloc_input(|| format!("in{}", i), || assign(v))?); }
                Step::Aux(i) => { let v = self.aux[*i];
                    if self.style & 1 == 1 { let mut n = cs.ns(|| format!("ns{}", si)); av.push(n.alloc(|| format!("aux{}", i), || assign(v))?); }
                    else { av.push(cs.alloc(|| format!("aux{}", i), || assign(v))?); } }
                Step::Enforce(k) => {
                    let (a, b, c) = &self.cons[*k];
                    let map = |v: V| match v { V::One => CS::one(), V::In(i) => iv[i], V::Aux(i) => av[i] };
                    let me = &self;
                    cs.enforce(|| format!("con{}", k),
                        |lc| me.build(lc, a, &map, 3 * *k as u64), |lc| me.build(lc, b, &map, 3 * *k as u64 + 1), |lc| me.build(lc, c, &map, 3 * *k as u64 + 2));
                    if let Some((e, true)) = failing { return Err(e.err()); }
                }
            }
        }
        Ok(())
    }
}
