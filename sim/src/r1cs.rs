//! The verifier's side: R1CS satisfaction; and a Byzantine prover's tools: completing a partial
//! assignment by propagation, and the kernel of the constraints' Jacobian. Everything here is a
//! heuristic that proposes assignments; only `first_unsat` decides.
use crate::cs::SLc;
use crate::fields::{f2n, modulus};
use ff::PrimeField;
use num_bigint::BigInt;
use std::collections::{BTreeMap, HashMap};

pub type Con<F> = (SLc<F>, SLc<F>, SLc<F>);

pub fn ev<F: PrimeField>(l: &SLc<F>, x: &[F]) -> F {
    let mut s = F::ZERO;
    for (i, c) in l {
        s += *c * x[*i as usize];
    }
    s
}
pub fn con_ok<F: PrimeField>(c: &Con<F>, x: &[F]) -> bool {
    ev(&c.0, x) * ev(&c.1, x) == ev(&c.2, x)
}
pub fn first_unsat<F: PrimeField>(cons: &[Con<F>], x: &[F]) -> Option<usize> {
    cons.iter().position(|c| !con_ok(c, x))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Plain,
    /// x(1-x)=0 for one variable
    Bool,
    /// L(1-L)=0 for a longer combination
    BoolLc,
}

pub struct Sys<F: PrimeField> {
    pub n: usize,
    pub cons: Vec<Con<F>>,
    form: Vec<Form>,
    occ: Vec<Vec<u32>>,
    pub boolv: Vec<bool>,
    pow: HashMap<Vec<u8>, (bool, u16)>,
    p: BigInt,
}

fn lc_add<F: PrimeField>(a: &SLc<F>, b: &SLc<F>) -> BTreeMap<u32, F> {
    let mut m: BTreeMap<u32, F> = BTreeMap::new();
    for (i, c) in a.iter().chain(b.iter()) {
        *m.entry(*i).or_insert(F::ZERO) += *c;
    }
    m.retain(|_, c| !bool::from(c.is_zero()));
    m
}

fn form_of<F: PrimeField>(c: &Con<F>) -> Form {
    if !c.2.is_empty() {
        return Form::Plain;
    }
    let s = lc_add(&c.0, &c.1);
    if s.len() == 1 && s.get(&0) == Some(&F::ONE) {
        let va = c.0.iter().filter(|x| x.0 != 0).count();
        if va == 1 {
            return Form::Bool;
        }
        if va > 1 {
            return Form::BoolLc;
        }
    }
    Form::Plain
}

pub struct St<F: PrimeField> {
    pub vals: Vec<Option<F>>,
    queue: Vec<u32>,
    inq: Vec<bool>,
    pub conflict: bool,
    pub alias: bool,
    left: usize,
}

impl<F: PrimeField> Sys<F> {
    pub fn new(n: usize, cons: Vec<Con<F>>) -> Self {
        let mut pow = HashMap::new();
        let mut f = F::ONE;
        for e in 0..F::NUM_BITS as u16 {
            pow.entry(f.to_repr().as_ref().to_vec()).or_insert((true, e));
            pow.entry((-f).to_repr().as_ref().to_vec()).or_insert((false, e));
            f = f.double();
        }
        let mut s = Sys {
            n,
            cons: vec![],
            form: vec![],
            occ: vec![vec![]; n],
            boolv: vec![false; n],
            pow,
            p: modulus::<F>(),
        };
        for c in cons {
            s.push(c);
        }
        s
    }
    pub fn push(&mut self, c: Con<F>) {
        let k = self.cons.len() as u32;
        let f = form_of(&c);
        if f == Form::Bool {
            let x = c.0.iter().find(|x| x.0 != 0).unwrap();
            // a*x + b with (a x + b)(1 - a x - b) = 0: 0/1 valued if a = +-1 and b in {0,1}
            let b = c.0.iter().find(|y| y.0 == 0).map(|y| y.1).unwrap_or(F::ZERO);
            if (x.1 == F::ONE && bool::from(b.is_zero())) || (x.1 == -F::ONE && b == F::ONE) {
                self.boolv[x.0 as usize] = true;
            }
        }
        let mut seen: Vec<u32> = c.0.iter().chain(c.1.iter()).chain(c.2.iter()).map(|x| x.0).collect();
        seen.sort();
        seen.dedup();
        for v in seen {
            if v != 0 {
                self.occ[v as usize].push(k);
            }
        }
        self.form.push(f);
        self.cons.push(c);
    }
    /// adds lc = v
    pub fn push_eq(&mut self, lc: &SLc<F>, v: F) {
        let mut m: BTreeMap<u32, F> = lc.iter().cloned().collect();
        *m.entry(0).or_insert(F::ZERO) -= v;
        let l: SLc<F> = m.into_iter().filter(|x| !bool::from(x.1.is_zero())).collect();
        self.push((l, vec![(0, F::ONE)], vec![]));
    }
    pub fn truncate(&mut self, k: usize) {
        while self.cons.len() > k {
            let c = self.cons.pop().unwrap();
            self.form.pop();
            let i = self.cons.len() as u32;
            for v in c.0.iter().chain(c.1.iter()).chain(c.2.iter()) {
                if self.occ[v.0 as usize].last() == Some(&i) {
                    self.occ[v.0 as usize].pop();
                }
            }
        }
    }
    pub fn start(&self) -> St<F> {
        let mut vals = vec![None; self.n];
        vals[0] = Some(F::ONE);
        // the most recent (pinned, forged) constraints first
        St {
            vals,
            queue: (0..self.cons.len() as u32).collect(),
            inq: vec![true; self.cons.len()],
            conflict: false,
            alias: false,
            left: self.n - 1,
        }
    }
    pub fn assign(&self, st: &mut St<F>, v: u32, x: F) {
        if let Some(o) = st.vals[v as usize] {
            if o != x {
                st.conflict = true;
            }
            return;
        }
        if self.boolv[v as usize] && x != F::ONE && !bool::from(x.is_zero()) {
            st.conflict = true;
            return;
        }
        st.vals[v as usize] = Some(x);
        st.left -= 1;
        for c in &self.occ[v as usize] {
            if !st.inq[*c as usize] {
                st.inq[*c as usize] = true;
                st.queue.push(*c);
            }
        }
    }
    fn split(&self, st: &St<F>, l: &SLc<F>) -> (F, Vec<(u32, F)>) {
        let mut k = F::ZERO;
        let mut u = vec![];
        for (i, c) in l {
            match st.vals[*i as usize] {
                Some(x) => k += *c * x,
                None => u.push((*i, *c)),
            }
        }
        (k, u)
    }
    /// the constraint as known + sum(unknowns) = 0 if it is linear now
    fn linear(&self, st: &St<F>, c: &Con<F>) -> Option<(F, Vec<(u32, F)>)> {
        let (ka, ua) = self.split(st, &c.0);
        let (kb, ub) = self.split(st, &c.1);
        if !ua.is_empty() && !ub.is_empty() {
            return None;
        }
        let (kc, uc) = self.split(st, &c.2);
        let known = ka * kb - kc;
        if ua.is_empty() && ub.is_empty() {
            return Some((known, uc.into_iter().map(|(i, c)| (i, -c)).collect()));
        }
        let (k, u) = if ua.is_empty() { (ka, ub) } else { (kb, ua) };
        let mut m: BTreeMap<u32, F> = BTreeMap::new();
        if !bool::from(k.is_zero()) {
            for (i, c) in u {
                *m.entry(i).or_insert(F::ZERO) += k * c;
            }
        }
        for (i, c) in uc {
            *m.entry(i).or_insert(F::ZERO) -= c;
        }
        Some((known, m.into_iter().filter(|x| !bool::from(x.1.is_zero())).collect()))
    }
    /// known + sum c_i b_i = 0 (or in {0,1} if `spare`) over unknown bits with power-of-two coefficients
    fn decode(&self, st: &mut St<F>, known: F, u: &[(u32, F)], spare: bool) -> bool {
        if !u.iter().all(|x| self.boolv[x.0 as usize]) {
            return false;
        }
        let mut es = Vec::with_capacity(u.len());
        let mut sign = None;
        for (v, c) in u {
            match self.pow.get(c.to_repr().as_ref()) {
                Some((s, e)) => {
                    if *sign.get_or_insert(*s) != *s {
                        return false;
                    }
                    es.push((*e, *v));
                }
                None => return false,
            }
        }
        es.sort();
        if es.windows(2).any(|w| w[0].0 == w[1].0) {
            return false;
        }
        // sum 2^e b = t (+ 0/1)
        let t = if sign == Some(true) { -known } else { known };
        let mut t = f2n(&t);
        let top = es.last().unwrap().0 as u64 + 1;
        if st.alias && (&t + &self.p).bits() <= top {
            t += &self.p;
        }
        let mut rest = t.clone();
        for (e, _) in &es {
            if t.bit(*e as u64) {
                rest -= BigInt::from(1) << (*e as usize);
            }
        }
        let zero = BigInt::from(0);
        let one = BigInt::from(1);
        let ok = rest == zero || (spare && rest == one && es[0].0 > 0 && sign == Some(false));
        if !ok {
            st.conflict = true;
            return true;
        }
        for (e, v) in es {
            let b = t.bit(e as u64);
            self.assign(st, v, if b { F::ONE } else { F::ZERO });
        }
        true
    }
    pub fn propagate(&self, st: &mut St<F>) {
        while let Some(k) = st.queue.pop() {
            st.inq[k as usize] = false;
            if st.conflict {
                return;
            }
            let c = &self.cons[k as usize];
            if let Some((known, u)) = self.linear(st, c) {
                match u.len() {
                    0 => {
                        if !bool::from(known.is_zero()) {
                            st.conflict = true;
                        }
                    }
                    1 => {
                        let x = -known * u[0].1.invert().unwrap();
                        self.assign(st, u[0].0, x);
                    }
                    _ => {
                        self.decode(st, known, &u, false);
                    }
                }
                continue;
            }
            if self.form[k as usize] == Form::BoolLc {
                // L in {0,1}, and so is 1 - L: use the side whose unknown bits come with a minus sign
                let (mut ka, mut ua) = self.split(st, &c.0);
                if let Some(x) = ua.first() {
                    if self.pow.get(x.1.to_repr().as_ref()).map(|y| y.0) == Some(true) {
                        let s = self.split(st, &c.1);
                        ka = s.0;
                        ua = s.1;
                    }
                }
                if ua.len() > 1 || (ua.len() == 1 && self.boolv[ua[0].0 as usize]) {
                    self.decode(st, ka, &ua, true);
                }
            }
        }
    }
    /// One round of elimination over the constraints that are linear now and have no unknown bits.
    pub fn gauss(&self, st: &mut St<F>) -> bool {
        let mut rows: Vec<(BTreeMap<u32, F>, F)> = vec![];
        for c in &self.cons {
            if rows.len() > 160 {
                break;
            }
            if let Some((known, u)) = self.linear(st, c) {
                if u.len() < 2 || u.len() > 48 || u.iter().any(|x| self.boolv[x.0 as usize]) {
                    continue;
                }
                rows.push((u.into_iter().collect(), known));
            }
        }
        if rows.len() < 2 {
            return false;
        }
        let mut piv: Vec<(u32, usize)> = vec![];
        let mut done: Vec<(BTreeMap<u32, F>, F)> = vec![];
        for (mut r, mut k) in rows {
            for (v, i) in &piv {
                if let Some(c) = r.get(v).cloned() {
                    let (pr, pk) = &done[*i];
                    for (j, d) in pr {
                        *r.entry(*j).or_insert(F::ZERO) -= c * *d;
                    }
                    k -= c * *pk;
                    r.retain(|_, c| !bool::from(c.is_zero()));
                }
            }
            if r.is_empty() {
                if !bool::from(k.is_zero()) {
                    st.conflict = true;
                    return true;
                }
                continue;
            }
            let (v, c) = r.iter().next().map(|(v, c)| (*v, *c)).unwrap();
            let inv = c.invert().unwrap();
            for d in r.values_mut() {
                *d *= inv;
            }
            k *= inv;
            for i in 0..done.len() {
                if let Some(c) = done[i].0.get(&v).cloned() {
                    let (dr, dk) = &mut done[i];
                    for (j, d) in &r {
                        *dr.entry(*j).or_insert(F::ZERO) -= c * *d;
                    }
                    *dk -= c * k;
                    dr.retain(|_, c| !bool::from(c.is_zero()));
                }
            }
            piv.push((v, done.len()));
            done.push((r, k));
        }
        let mut any = false;
        for (r, k) in done {
            if r.len() == 1 {
                let (v, c) = r.into_iter().next().unwrap();
                debug_assert!(c == F::ONE);
                self.assign(st, v, -k);
                any = true;
            }
        }
        any
    }
    /// Completes an assignment; `guess` supplies values for variables nothing determines.
    pub fn complete(
        &self,
        alias: bool,
        pick_last: bool,
        guess: &mut dyn FnMut(u32) -> F,
    ) -> Option<Vec<F>> {
        let mut st = self.start();
        st.alias = alias;
        let mut cursor = 1usize;
        let mut gauss_left = 12;
        loop {
            self.propagate(&mut st);
            if st.conflict {
                return None;
            }
            if st.left == 0 {
                break;
            }
            if gauss_left > 0 {
                gauss_left -= 1;
                if self.gauss(&mut st) {
                    if st.conflict {
                        return None;
                    }
                    continue;
                }
            }
            let v = if pick_last {
                (1..self.n).rev().find(|i| st.vals[*i].is_none())
            } else {
                while cursor < self.n && st.vals[cursor].is_some() {
                    cursor += 1;
                }
                if cursor < self.n {
                    Some(cursor)
                } else {
                    None
                }
            };
            let v = match v {
                Some(v) => v,
                None => break,
            };
            let x = guess(v as u32);
            self.assign(&mut st, v as u32, x);
        }
        st.vals.into_iter().collect()
    }
    /// Variables that propagation from the pinned inputs leaves open, in allocation order.
    pub fn open_vars(&self) -> Option<Vec<u32>> {
        let mut st = self.start();
        self.propagate(&mut st);
        if st.conflict {
            return None;
        }
        Some((1..self.n as u32).filter(|i| st.vals[*i as usize].is_none()).collect())
    }
    /// A basis of the first-order freedom at a satisfying assignment (None: too big to compute).
    pub fn kernel(&self, x: &[F], max: usize) -> Option<Vec<Vec<(u32, F)>>> {
        let mut col: Vec<Option<u32>> = vec![None; self.n];
        let mut vars: Vec<u32> = vec![];
        for i in 1..self.n {
            if !self.boolv[i] {
                col[i] = Some(vars.len() as u32);
                vars.push(i as u32);
            }
        }
        if vars.len() > max {
            return None;
        }
        let mut piv: Vec<Option<usize>> = vec![None; vars.len()];
        let mut rows: Vec<BTreeMap<u32, F>> = vec![];
        for (k, c) in self.cons.iter().enumerate() {
            if self.form[k] == Form::Bool {
                continue;
            }
            let a = ev(&c.0, x);
            let b = ev(&c.1, x);
            let mut r: BTreeMap<u32, F> = BTreeMap::new();
            for (l, k) in [(&c.0, b), (&c.1, a), (&c.2, -F::ONE)] {
                if bool::from(k.is_zero()) {
                    continue;
                }
                for (i, d) in l.iter() {
                    if let Some(j) = col[*i as usize] {
                        *r.entry(j).or_insert(F::ZERO) += k * *d;
                    }
                }
            }
            r.retain(|_, c| !bool::from(c.is_zero()));
            // reduce
            loop {
                let hit = r.iter().find_map(|(j, c)| piv[*j as usize].map(|p| (p, *c)));
                match hit {
                    Some((p, c)) => {
                        for (j, d) in &rows[p] {
                            *r.entry(*j).or_insert(F::ZERO) -= c * *d;
                        }
                        r.retain(|_, c| !bool::from(c.is_zero()));
                    }
                    None => break,
                }
            }
            if r.is_empty() {
                continue;
            }
            // pivot on the highest variable: later variables are derived from earlier ones
            let (v, c) = r.iter().next_back().map(|(v, c)| (*v, *c)).unwrap();
            let inv = c.invert().unwrap();
            for d in r.values_mut() {
                *d *= inv;
            }
            for i in 0..rows.len() {
                if let Some(c) = rows[i].get(&v).cloned() {
                    let (ri, r2) = (&mut rows[i], &r);
                    for (j, d) in r2 {
                        *ri.entry(*j).or_insert(F::ZERO) -= c * *d;
                    }
                    ri.retain(|_, c| !bool::from(c.is_zero()));
                }
            }
            piv[v as usize] = Some(rows.len());
            rows.push(r);
        }
        let mut out = vec![];
        for j in 0..vars.len() {
            if piv[j].is_some() {
                continue;
            }
            let mut d: Vec<(u32, F)> = vec![(vars[j], F::ONE)];
            for (v, p) in piv.iter().enumerate() {
                if let Some(p) = p {
                    if let Some(c) = rows[*p].get(&(j as u32)) {
                        d.push((vars[v], -*c));
                    }
                }
            }
            out.push(d);
            if out.len() >= 64 {
                break;
            }
        }
        Some(out)
    }
}
