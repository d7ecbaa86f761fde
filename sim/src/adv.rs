//! The Byzantine prover and the faulty storage/transport between prover and verifier.
use crate::cs::SLc;
use crate::fields::{f2n, n2f};
use crate::model::*;
use crate::r1cs::{con_ok, ev, Con, Sys};
use crate::tape::Tape;
use ff::PrimeField;
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

pub struct TOut<F: PrimeField> {
    pub op: usize,
    pub bn: Option<(usize, usize, usize)>,
    pub what: String,
    pub lc: SLc<F>,
    pub expect: F,
}

/// What the verifier holds (constraints and pinned public statement) and what the prover computed.
pub struct Target<F: PrimeField> {
    pub sys: Sys<F>,
    pub honest: Vec<F>,
    pub outs: Vec<TOut<F>>,
    /// the statement: these combinations keep these values
    pub pins: Vec<(SLc<F>, F)>,
    pub holds: bool,
    /// first variable of each op
    pub marks: Vec<u32>,
    pub truth_bad_op: Option<usize>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub m: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.m.entry(k.to_string()).or_insert(0) += n;
    }
}

pub struct Forgery {
    pub how: String,
    pub what: String,
}

impl<F: PrimeField> Target<F> {
    pub fn build(
        n: usize,
        cons: Vec<Con<F>>,
        honest: Vec<F>,
        outs: Vec<TOut<F>>,
        pin_lcs: Vec<SLc<F>>,
        pin_vars: Vec<u32>,
        inputs: Vec<u32>,
        holds: bool,
        marks: Vec<u32>,
        bad: Option<usize>,
    ) -> Self {
        let mut pins: Vec<(SLc<F>, F)> = pin_lcs
            .into_iter()
            .map(|l| {
                let v = ev(&l, &honest);
                (l, v)
            })
            .collect();
        for v in pin_vars {
            pins.push((vec![(v, F::ONE)], honest[v as usize]));
        }
        let _ = inputs;
        let mut sys = Sys::new(n, cons);
        for (l, v) in &pins {
            sys.push_eq(l, *v);
        }
        Target { sys, honest, outs, pins, holds, marks, truth_bad_op: bad }
    }
    /// The verifier's decision on a delivered assignment, and whether accepting it is wrong.
    fn deliver(&self, x: &[F], st: &mut Stats, how: &str) -> Option<Forgery> {
        st.add("delivered", 1);
        for (i, c) in self.sys.cons.iter().enumerate() {
            if !con_ok(c, x) {
                let _ = i;
                st.add("rejected", 1);
                return None;
            }
        }
        if !self.holds {
            return Some(Forgery {
                how: how.into(),
                what: "a false statement was accepted".into(),
            });
        }
        for o in &self.outs {
            let v = ev(&o.lc, x);
            if v != o.expect {
                return Some(Forgery {
                    how: how.into(),
                    what: format!(
                        "op {} {}: accepted with {} instead of {}",
                        o.op,
                        o.what,
                        f2n(&v),
                        f2n(&o.expect)
                    ),
                });
            }
        }
        st.add("accepted equivalent", 1);
        None
    }
    /// Faulty storage: slots flipped, zeroed, swapped, stale, shifted.
    pub fn corrupt(&self, t: &mut Tape, st: &mut Stats) -> Option<Forgery> {
        let n = self.sys.n;
        if n < 2 || !self.holds {
            return None;
        }
        let mut x = self.honest.clone();
        let k = 1 + t.weighted(&[6, 2, 1]);
        for _ in 0..k {
            let i = t.range(1, n - 1);
            match t.usize(8) {
                0 => x[i] = F::ZERO,
                1 => x[i] += F::ONE,
                2 => x[i] -= F::ONE,
                3 => {
                    let b = t.usize(F::CAPACITY as usize);
                    let v = f2n(&x[i]) ^ pow2(b);
                    x[i] = n2f(&v);
                }
                4 => {
                    let j = t.range(1, n - 1);
                    x.swap(i, j);
                }
                5 => {
                    let j = t.range(1, n - 1);
                    x[i] = x[j];
                }
                6 => x[i] = -x[i],
                _ => x[i] = rand_f(t),
            }
        }
        if x == self.honest {
            return None;
        }
        st.add("fault: storage corruption", 1);
        // statement slots are not the prover's to change
        if self.pins.iter().any(|(l, v)| ev(l, &x) != *v) {
            return None;
        }
        self.deliver(&x, st, "corrupted storage")
    }

    fn special(&self, t: &mut Tape, v: u32, w: usize) -> F {
        let h = self.honest[v as usize];
        match t.usize(13) {
            0 => h + F::ONE,
            1 => h - F::ONE,
            2 => F::ZERO,
            3 => F::ONE,
            4 => h + n2f::<F>(&pow2(w)),
            5 => h - n2f::<F>(&pow2(w)),
            6 => -h,
            7 => F::ONE - h,
            8 => F::from(2 + t.choose(14)),
            9 => -F::from(1 + t.choose(14)),
            10 => {
                let j = t.range(0, self.sys.n - 1);
                self.honest[j]
            }
            11 => {
                let b = t.usize(F::CAPACITY as usize);
                n2f(&(f2n(&h) ^ pow2(b)))
            }
            _ => rand_f(t),
        }
    }

    /// Completes the statement with deviations at some of the variables nothing determines.
    pub fn deviate(&self, t: &mut Tape, st: &mut Stats, w: usize) -> Option<Forgery> {
        st.add("fault: byzantine deviation", 1);
        let k = t.usize(3);
        let mut at: Vec<usize> = vec![];
        let alias = t.chance(1, 3);
        let pick_last = t.chance(1, 6);
        // the deviation hits the k-th guess
        let span = 1 + t.usize(12);
        for _ in 0..=k {
            at.push(t.usize(span));
        }
        let mut cnt = 0usize;
        let tt = std::cell::RefCell::new(t);
        let x = self.sys.complete(alias, pick_last, &mut |v| {
            let c = cnt;
            cnt += 1;
            if at.contains(&c) {
                self.special(&mut tt.borrow_mut(), v, w)
            } else {
                self.honest[v as usize]
            }
        })?;
        self.deliver(&x, st, "deviating prover")
    }

    /// First-order freedom of the circuit at the honest assignment.
    pub fn kernel(&mut self, t: &mut Tape, st: &mut Stats, max: usize) -> Option<Forgery> {
        if !self.holds {
            return None;
        }
        let ker = match self.sys.kernel(&self.honest, max) {
            Some(k) => k,
            None => {
                st.add("kernel too big", 1);
                return None;
            }
        };
        st.add("kernels computed", 1);
        st.add("kernel directions", ker.len() as u64);
        for d in ker.iter() {
            let mut moved = vec![];
            for (oi, o) in self.outs.iter().enumerate() {
                let mut s = F::ZERO;
                for (i, c) in &o.lc {
                    if let Some((_, e)) = d.iter().find(|x| x.0 == *i) {
                        s += *c * *e;
                    }
                }
                if !bool::from(s.is_zero()) {
                    moved.push((oi, s));
                }
            }
            if moved.is_empty() {
                continue;
            }
            st.add("kernel directions moving a result", 1);
            for step in 0..3 {
                let tt: F = match step {
                    0 => F::ONE,
                    1 => -F::ONE,
                    _ => rand_f(t),
                };
                let mut x = self.honest.clone();
                for (i, e) in d {
                    x[*i as usize] += tt * *e;
                }
                if let Some(f) = self.deliver(&x, st, "first-order freedom") {
                    return Some(f);
                }
                let keep = self.sys.cons.len();
                let v = d[0].0;
                self.sys.push_eq(&vec![(v, F::ONE)], x[v as usize]);
                let r = self.sys.complete(false, false, &mut |v| x[v as usize]);
                self.sys.truncate(keep);
                if let Some(x) = r {
                    if let Some(f) = self.deliver(&x, st, "first-order freedom, completed") {
                        return Some(f);
                    }
                }
            }
        }
        None
    }

    /// Forges results: chosen false results are forced and the rest of the witness is completed.
    pub fn forge(&mut self, plan: &Plan, t: &mut Tape, st: &mut Stats) -> Option<Forgery> {
        let p = plan.f.p.clone();
        let mut forced: Vec<(SLc<F>, F)> = vec![];
        // honest naturals that hidden slots hold, and what to put there instead
        let mut subst: Vec<(BigInt, BigInt, usize)> = vec![];
        let mut hint_op: Option<usize> = None;
        let mut model = Model::new(plan.f.clone());
        if !self.holds {
            hint_op = self.truth_bad_op;
            if hint_op.is_none() {
                return None;
            }
            for op in &plan.ops[..hint_op.unwrap()] {
                model.apply(op);
            }
        }
        let mut hint_nat: Option<(BigInt, usize)> = None;
        if self.holds {
            if self.outs.is_empty() {
                return None;
            }
            let oi = t.usize(self.outs.len());
            let op = self.outs[oi].op;
            for o in &plan.ops[..op] {
                model.apply(o);
            }
            match self.outs[oi].bn {
                None => {
                    let e = self.outs[oi].expect;
                    let boolean = self.outs[oi].what.contains("bit");
                    if boolean && t.chance(4, 5) {
                        forced.push((self.outs[oi].lc.clone(), F::ONE - e));
                    } else {
                        let v = self.special(t, 0, 8) - F::ONE + e;
                        forced.push((self.outs[oi].lc.clone(), v));
                    }
                }
                Some((bn, _, w)) => {
                    let mut group: Vec<(usize, SLc<F>, F)> = self
                        .outs
                        .iter()
                        .filter(|o| o.bn.map(|b| b.0) == Some(bn))
                        .map(|o| (o.bn.unwrap().1, o.lc.clone(), o.expect))
                        .collect();
                    group.sort_by_key(|x| x.0);
                    let n = group.len();
                    let v = val_of(&group.iter().map(|g| f2n(&g.2)).collect::<Vec<_>>(), w);
                    let mut delta: Option<BigInt> = None;
                    let mut limbs: Vec<BigInt> = group.iter().map(|g| f2n(&g.2)).collect();
                    let (mut qd, mut md) = (None, None);
                    match &plan.ops[op] {
                        Op::MultMod(a, b, m) => {
                            let pr = model.bns[*a].val() * model.bns[*b].val();
                            md = Some(model.bns[*m].val());
                            qd = Some(pr.div_floor(md.as_ref().unwrap()));
                        }
                        Op::RedMod(a, m) => {
                            md = Some(model.bns[*m].val());
                            qd = Some(model.bns[*a].val().div_floor(md.as_ref().unwrap()));
                        }
                        Op::CalcDiff(o, tt) => {
                            md = Some(BigInt::from(TWO_WEEKS));
                            let pr = &model.nums[*o] * &model.nums[*tt];
                            qd = Some(pr.div_floor(md.as_ref().unwrap()));
                        }
                        _ => {}
                    }
                    match t.usize(8) {
                        0 => delta = Some(BigInt::one()),
                        1 => delta = Some(-BigInt::one()),
                        2 => delta = Some(&p * (1 + t.usize(3)) << (w * t.usize(n))),
                        3 => delta = Some(-(&p * (1 + t.usize(3)) << (w * t.usize(n)))),
                        4 => {
                            // carry moved between limbs
                            if n > 1 {
                                let j = t.usize(n - 1);
                                let s = t.chance(1, 2);
                                let k = BigInt::from(1 + t.usize(2));
                                if s {
                                    limbs[j] += &k << w;
                                    limbs[j + 1] -= &k;
                                } else {
                                    limbs[j] -= &k << w;
                                    limbs[j + 1] += &k;
                                }
                            } else {
                                limbs[0] += &p - pow2(w);
                            }
                        }
                        5 => {
                            // a limb beyond its width
                            let j = t.usize(n);
                            limbs[j] += pow2(w + t.usize(3));
                        }
                        6 => {
                            let j = t.usize(n);
                            limbs[j] = f2n(&rand_f::<F>(t));
                        }
                        _ => {
                            if let Some(m) = &md {
                                delta = Some(m * (1 + t.usize(3)));
                                if t.chance(1, 4) {
                                    delta = delta.map(|d: BigInt| -d);
                                }
                            } else {
                                let mut b = pow2(t.usize(w * n));
                                if t.chance(1, 2) {
                                    b = -b;
                                }
                                delta = Some(b);
                            }
                        }
                    }
                    if let (Some(q), Some(m)) = (&qd, &md) {
                        // keep quotient and remainder consistent when the remainder is forged by multiples of m
                        if let Some(d) = &delta {
                            let is_q = v == *q && matches!(plan.ops[op], Op::MultMod(..) | Op::CalcDiff(..));
                            if is_q {
                                // quotient forged: remainder follows
                                let r0 = match &plan.ops[op] {
                                    Op::MultMod(a, b, _) => model.bns[*a].val() * model.bns[*b].val() - q * m,
                                    Op::CalcDiff(a, b) => &model.nums[*a] * &model.nums[*b] - q * m,
                                    _ => BigInt::zero(),
                                };
                                subst.push((r0.clone(), &r0 - d * m, w));
                            } else if !m.is_zero() && d.mod_floor(m).is_zero() {
                                let k: BigInt = d / m;
                                subst.push((q.clone(), q - k, w));
                            }
                        }
                    }
                    if let Some(d) = delta {
                        let nv = &v + d;
                        if nv.sign() == Sign::Minus {
                            return None;
                        }
                        let m = ones(w);
                        limbs = (0..n)
                            .map(|j| {
                                if j + 1 == n {
                                    &nv >> (w * j)
                                } else {
                                    (&nv >> (w * j)) & &m
                                }
                            })
                            .collect();
                        subst.push((v.clone(), nv, w));
                    }
                    for (g, l) in group.iter().zip(limbs) {
                        forced.push((g.1.clone(), n2f(&l)));
                    }
                }
            }
        } else {
            // a false statement: guess a result for the op that cannot hold
            let op = hint_op.unwrap();
            let (v, w): (BigInt, usize) = match &plan.ops[op] {
                Op::Sub(a, b) => {
                    let d = model.bns[*a].val() - model.bns[*b].val();
                    let k = t.usize(4);
                    let n = model.bns[*a].n();
                    let w = model.bns[*a].w;
                    (
                        match k {
                            0 => -d,
                            1 => d + &p,
                            2 => d + (&p << (w * t.usize(n))),
                            _ => d.mod_floor(&pow2(w * n)),
                        },
                        w,
                    )
                }
                Op::Divides(a, b) => {
                    let (a, b, w) = (model.bns[*a].val(), model.bns[*b].val(), model.bns[*a].w);
                    let k = t.usize(3);
                    let num = match k {
                        0 => b,
                        1 => b + &p,
                        _ => b + (&p << (w * t.usize(3))),
                    };
                    (num / a, w)
                }
                Op::ProdMod(a, b, m, r) => {
                    let d = model.bns[*a].val() * model.bns[*b].val() - model.bns[*r].val();
                    let w = model.bns[*m].w;
                    let d = match t.usize(3) {
                        0 => d,
                        1 => d + &p,
                        _ => d + (&p << (w * t.usize(3))),
                    };
                    (d.div_floor(&model.bns[*m].val()), w)
                }
                Op::FromNum { num, w, n } => {
                    let v = model.nums[*num].clone();
                    (v.mod_floor(&pow2(w * n)), *w)
                }
                _ => (BigInt::zero(), 8),
            };
            hint_nat = Some((v, w));
        }
        st.add("fault: forged result", 1);
        // slots that honestly hold the limbs of a substituted natural
        let mut put: BTreeMap<u32, F> = BTreeMap::new();
        for (old, new, w) in &subst {
            if new.sign() == Sign::Minus {
                continue;
            }
            let n = ((old.bits().max(new.bits()) as usize + w - 1) / w).max(1);
            let ol: Vec<F> = limbs_of(old, *w, n).iter().map(n2f).collect();
            let nl: Vec<F> = limbs_of(new, *w, n).iter().map(n2f).collect();
            if old.is_zero() {
                continue;
            }
            let mut i = 1usize;
            while i + n <= self.sys.n {
                if (0..n).all(|j| self.honest[i + j] == ol[j]) {
                    for j in 0..n {
                        put.insert((i + j) as u32, nl[j]);
                    }
                    i += n;
                } else {
                    i += 1;
                }
            }
        }
        if let (Some((v, w)), Some(op)) = (&hint_nat, hint_op) {
            if v.sign() != Sign::Minus {
                let start = self.marks.get(op).cloned().unwrap_or(1);
                let end = self.marks.get(op + 1).cloned().unwrap_or(self.sys.n as u32);
                let n = ((v.bits() as usize + w - 1) / w).max(1) + 1;
                for (j, l) in limbs_of(v, *w, n).iter().enumerate() {
                    let id = start + j as u32;
                    if id < end {
                        put.insert(id, n2f(l));
                    }
                }
            }
        }
        let keep = self.sys.cons.len();
        for (l, v) in &forced {
            self.sys.push_eq(l, *v);
        }
        let alias = t.chance(1, 3);
        let last = t.chance(1, 8);
        let spec = if t.chance(1, 3) { Some(t.usize(10)) } else { None };
        let mut cnt = 0usize;
        let x = {
            let tt = std::cell::RefCell::new(&mut *t);
            let this = &*self;
            this.sys.complete(alias, last, &mut |v| {
                let c = cnt;
                cnt += 1;
                if let Some(x) = put.get(&v) {
                    return *x;
                }
                if spec == Some(c) {
                    return this.special(&mut tt.borrow_mut(), v, 8);
                }
                this.honest[v as usize]
            })
        };
        self.sys.truncate(keep);
        match x {
            Some(x) => self.deliver(&x, st, "forged result"),
            None => {
                st.add("no completion found", 1);
                None
            }
        }
    }
}

pub fn rand_f<F: PrimeField>(t: &mut Tape) -> F {
    let mut v = BigInt::zero();
    for _ in 0..(F::NUM_BITS as usize + 63) / 64 {
        v = (v << 64usize) + t.choose(0);
    }
    n2f(&v)
}
