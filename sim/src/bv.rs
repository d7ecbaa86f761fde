//! Bit vectors under histories of edits, while the witness of single bits gets lost, allocations are
//! refused and attempts crash: the constrained bits and the recorded values must stay aligned.
use crate::cs::{CsCfg, Loss, SimCrash, SimCs};
use crate::fields::*;
use crate::model::pow2;
use crate::r1cs::{con_ok, ev};
use crate::tape::{hash_str, Tape};
use crate::with_field;
use crate::world::*;
use bellpepper::gadgets::boolean::{AllocatedBit, Boolean};
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::Zero;
use std::panic::{catch_unwind, AssertUnwindSafe};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::num::Num;

/// Where a bit comes from. Fresh witness bits have a number, which decides whether it is known.
#[derive(Clone, Debug)]
enum From_ {
    Alloc(bool),
    Sapling(bool, bool),
    Const(bool, u8),
    NotOf(usize),
    /// bit j of a number of k bits
    Of(usize, usize),
}
#[derive(Clone, Debug)]
enum Step {
    Bit(From_),
    Number(BigInt, usize),
    Make(Vec<usize>),
    FromNumber(usize),
    Dup(usize),
    Rev(usize),
    Trunc(usize, usize),
    Shr(usize, usize),
    Shl(usize, usize),
    Pop(usize),
    Push(usize, usize),
    Insert(usize, usize, usize),
    Append(usize, usize),
    Split(usize),
    Get(usize, usize),
    /// the bit is required to have a value
    Require(usize, bool),
    /// the vector read as limbs of w bits
    Recompose(usize, usize),
    /// the vector compared with a constant number
    SameAs(usize, BigInt),
}
/// The reference: values of all bits, and of all vectors as lists of bit values and of what they hinge on.
#[derive(Clone, Default)]
struct Ref {
    /// value, numbers of the witness items it was made from
    bits: Vec<(bool, Vec<usize>)>,
    numbers: Vec<(BigInt, usize, usize)>,
    vecs: Vec<RV>,
    items: usize,
}
#[derive(Clone, Default)]
struct RV {
    b: Vec<bool>,
    /// all witness items that ever went in
    from: Vec<usize>,
}
impl Ref {
    fn apply(&mut self, s: &Step) {
        match s {
            Step::Bit(f) => {
                let b = match f {
                    From_::Alloc(v) => {
                        self.items += 1;
                        (*v, vec![self.items - 1])
                    }
                    From_::Sapling(v, n) => {
                        self.items += 1;
                        (*v ^ *n, vec![self.items - 1])
                    }
                    From_::Const(v, _) => (*v, vec![]),
                    From_::NotOf(i) => (!self.bits[*i].0, self.bits[*i].1.clone()),
                    From_::Of(n, j) => {
                        let (v, _, it) = &self.numbers[*n];
                        (v.bit(*j as u64), vec![*it])
                    }
                };
                self.bits.push(b);
            }
            Step::Number(v, k) => {
                self.items += 1;
                self.numbers.push((v.clone(), *k, self.items - 1));
            }
            Step::Make(bs) => {
                let mut r = RV::default();
                for b in bs {
                    r.b.push(self.bits[*b].0);
                    r.from.extend(&self.bits[*b].1);
                }
                self.vecs.push(r);
            }
            Step::FromNumber(n) => {
                let (v, k, it) = self.numbers[*n].clone();
                self.vecs.push(RV { b: (0..k).map(|j| v.bit(j as u64)).collect(), from: vec![it] });
            }
            Step::Dup(v) => {
                let r = self.vecs[*v].clone();
                self.vecs.push(r);
            }
            Step::Rev(v) => self.vecs[*v].b.reverse(),
            Step::Trunc(v, n) => self.vecs[*v].b.truncate(*n),
            Step::Shr(v, n) => {
                self.vecs[*v].b.drain(0..*n);
            }
            Step::Shl(v, n) => {
                let mut b = vec![false; *n];
                b.append(&mut self.vecs[*v].b);
                self.vecs[*v].b = b;
            }
            Step::Pop(v) => {
                let r = &mut self.vecs[*v];
                if let Some(b) = r.b.pop() {
                    let f = r.from.clone();
                    self.bits.push((b, f));
                }
            }
            Step::Push(v, b) => {
                let (x, f) = self.bits[*b].clone();
                self.vecs[*v].b.push(x);
                self.vecs[*v].from.extend(f);
            }
            Step::Insert(v, i, b) => {
                let (x, f) = self.bits[*b].clone();
                self.vecs[*v].b.insert(*i, x);
                self.vecs[*v].from.extend(f);
            }
            Step::Append(v, w) => {
                let o = self.vecs[*w].clone();
                self.vecs[*v].b.extend(o.b);
                self.vecs[*v].from.extend(o.from);
            }
            Step::Get(v, i) => {
                let r = &self.vecs[*v];
                if let Some(b) = r.b.get(*i) {
                    let x = (*b, r.from.clone());
                    self.bits.push(x);
                }
            }
            Step::Split(_) | Step::Require(..) | Step::Recompose(..) | Step::SameAs(..) => {}
        }
    }
}

fn generate(t: &mut Tape, cap: usize) -> Vec<Step> {
    let mut r = Ref::default();
    let mut out = vec![];
    let mut add = |r: &mut Ref, s: Step| {
        r.apply(&s);
        out.push(s);
    };
    // a few histories have vectors of many bits
    let long = t.chance(1, 12);
    for _ in 0..t.range(1, 5) {
        let v = t.chance(1, 2);
        let f = match t.weighted(&[4, 2, 2]) {
            0 => From_::Alloc(v),
            1 => From_::Sapling(v, t.chance(1, 3)),
            _ => From_::Const(v, t.usize(3) as u8),
        };
        add(&mut r, Step::Bit(f));
    }
    if t.chance(1, if long { 2 } else { 3 }) {
        let k = if long { t.range(1, 140.min(cap - 1)) } else { t.range(1, 9) };
        let v = if k <= 9 {
            BigInt::from(t.choose(1 << k))
        } else {
            (0..3).fold(BigInt::zero(), |a, _| (a << 64usize) + t.choose(0)) & (pow2(k) - 1)
        };
        add(&mut r, Step::Number(v, k));
    }
    let n = t.range(2, 16);
    for _ in 0..n {
        if r.vecs.is_empty() || (r.vecs.len() < 4 && t.chance(1, 8)) {
            if !r.numbers.is_empty() && t.chance(1, 3) {
                let k = t.usize(r.numbers.len());
                add(&mut r, Step::FromNumber(k));
            } else if !r.vecs.is_empty() && t.chance(1, 3) {
                let k = t.usize(r.vecs.len());
                add(&mut r, Step::Dup(k));
            } else {
                let m = if long && t.chance(1, 2) { t.usize(140) } else { t.usize(6) };
                let bs = (0..m).map(|_| t.usize(r.bits.len())).collect();
                add(&mut r, Step::Make(bs));
            }
            continue;
        }
        let v = t.usize(r.vecs.len());
        let l = r.vecs[v].b.len();
        let b = t.usize(r.bits.len());
        let s = match t.usize(16) {
            0 => Step::Rev(v),
            1 => Step::Trunc(v, if t.chance(1, 6) { l + t.usize(3) } else { t.usize(l + 1) }),
            2 => Step::Shr(v, t.usize(if long { l } else { l.min(4) } + 1)),
            3 => Step::Shl(v, if long && l < 100 { t.usize(70) } else { t.usize(4) }),
            4 | 5 => Step::Pop(v),
            6 | 7 => Step::Push(v, b),
            8 | 9 => Step::Insert(v, t.usize(l + 1), b),
            10 => {
                let w = t.usize(r.vecs.len());
                if l + r.vecs[w].b.len() > if long { 260 } else { 40 } {
                    continue;
                }
                Step::Append(v, w)
            }
            11 => Step::Split(v),
            12 => Step::Get(v, t.usize(l + 2)),
            13 => Step::Bit(match t.usize(4) {
                0 => From_::Alloc(t.chance(1, 2)),
                1 => From_::NotOf(b),
                2 if !r.numbers.is_empty() => {
                    let k = t.usize(r.numbers.len());
                    From_::Of(k, t.usize(r.numbers[k].1))
                }
                _ => From_::Const(t.chance(1, 2), t.usize(3) as u8),
            }),
            14 => Step::Require(b, t.chance(1, 2)),
            _ => {
                if t.chance(1, 2) {
                    Step::Recompose(v, t.range(1, if long { 64 } else { 8 }.min(cap)))
                } else if l < cap {
                    let x = value(&r.vecs[v].b);
                    let x = match t.usize(4) {
                        0 | 1 => x,
                        2 if l > 0 => {
                            let d = pow2(t.usize(l));
                            if r.vecs[v].b[0] {
                                (x - d).max(BigInt::zero())
                            } else {
                                x + d
                            }
                        }
                        _ => BigInt::from(t.choose(1 << 12)),
                    };
                    Step::SameAs(v, x)
                } else {
                    continue;
                }
            }
        };
        add(&mut r, s);
    }
    out
}
fn value(b: &[bool]) -> BigInt {
    b.iter().enumerate().filter(|x| *x.1).map(|x| pow2(x.0)).sum()
}

struct Live<F: PrimeField> {
    cs: SimCs<F>,
    /// true value of every variable, whether or not the back-end got it
    real: Vec<F>,
    want: Vec<bool>,
    bits: Vec<Bit<F>>,
    numbers: Vec<Bitvector<F>>,
    vecs: Vec<Bitvector<F>>,
    lcs: Vec<(LinearCombination<F>, BigInt, String)>,
    bad: Option<String>,
}
impl<F: PrimeField> Live<F> {
    fn grew(&mut self, xs: &[F]) {
        self.real.extend(xs);
    }
    /// Looks at every vector and bit after a step.
    fn look(&mut self, r: &Ref, lost: &dyn Fn(&[usize]) -> bool, s: &Step) {
        if self.bad.is_some() {
            return;
        }
        let mut bad = None;
        for (i, (v, m)) in self.vecs.iter().zip(&r.vecs).enumerate() {
            if v.bits.len() != m.b.len() {
                bad = Some(format!("vector {} has {} bits instead of {}", i, v.bits.len(), m.b.len()));
                break;
            }
            match &v.values {
                Some(x) if *x != m.b => {
                    bad = Some(format!("vector {} says {:?} instead of {:?}", i, x, m.b));
                    break;
                }
                None if !lost(&m.from) => {
                    bad = Some(format!("vector {} lost its values, all were given", i));
                    break;
                }
                _ => {}
            }
            for (j, lc) in v.bits.iter().enumerate() {
                let e = ev(&self.cs.norm(lc), &self.real);
                if e != if m.b[j] { F::ONE } else { F::ZERO } {
                    bad = Some(format!("bit {} of vector {} is constrained to {} instead of {}", j, i, f2n(&e), m.b[j]));
                }
            }
            if bad.is_some() {
                break;
            }
        }
        if bad.is_none() {
            if self.bits.len() != r.bits.len() {
                bad = Some(format!("{} bits were given out instead of {}", self.bits.len(), r.bits.len()));
            }
            for (i, (b, m)) in self.bits.iter().zip(&r.bits).enumerate() {
                let e = ev(&self.cs.norm(&b.bit), &self.real);
                if e != if m.0 { F::ONE } else { F::ZERO } {
                    bad = Some(format!("bit {} is constrained to {} instead of {}", i, f2n(&e), m.0));
                } else if b.value.is_some() && b.value != Some(m.0) {
                    bad = Some(format!("bit {} says {:?} instead of {}", i, b.value, m.0));
                } else if b.value.is_none() && !lost(&m.1) {
                    bad = Some(format!("bit {} lost its value", i));
                }
            }
        }
        self.bad = bad.map(|b| format!("after {:?}: {}", s, b));
    }
}

fn play<F: PrimeField>(steps: &[Step], cfg: CsCfg, known: &dyn Fn(usize) -> bool) -> (Live<F>, Ref, End) {
    let mut l = Live {
        cs: SimCs::with(cfg),
        real: vec![F::ONE],
        want: vec![],
        bits: vec![],
        numbers: vec![],
        vecs: vec![],
        lcs: vec![],
        bad: None,
    };
    let mut r = Ref::default();
    let lost = |from: &[usize]| from.iter().any(|i| !known(*i));
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), SynthesisError> {
        for (k, s) in steps.iter().enumerate() {
            let item = r.items;
            l.cs.cfg.loss = if known(item) { Loss::None } else { Loss::From(0) };
            go(&mut l, &r, s, k, known(item))?;
            r.apply(s);
            l.look(&r, &lost, s);
            if l.bad.is_some() {
                break;
            }
        }
        Ok(())
    }));
    let end = match res {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => End::Err(format!("{:?}", e)),
        Err(p) if p.is::<SimCrash>() => End::Crash,
        Err(_) => End::Panic(last_panic()),
    };
    (l, r, end)
}
type C<F> = SimCs<F>;
fn go<F: PrimeField>(l: &mut Live<F>, r: &Ref, s: &Step, k: usize, known: bool) -> Result<(), SynthesisError> {
    let f = |b: bool| if b { F::ONE } else { F::ZERO };
    match s {
        Step::Bit(From_::Alloc(v)) => {
            let b = Bit::alloc(l.cs.namespace(|| format!("bit {}", k)), if known { Some(*v) } else { None })?;
            l.grew(&[f(*v)]);
            l.bits.push(b);
        }
        Step::Bit(From_::Sapling(v, n)) => {
            let a = AllocatedBit::alloc(l.cs.namespace(|| format!("bit {}", k)), if known { Some(*v) } else { None })?;
            l.grew(&[f(*v)]);
            let b = Boolean::from(a);
            l.bits.push(Bit::from_sapling::<C<F>>(if *n { b.not() } else { b }));
        }
        Step::Bit(From_::Const(v, how)) => l.bits.push(match how {
            0 => Bit::new_value::<C<F>>(*v),
            1 => Bit::from_sapling::<C<F>>(Boolean::constant(*v)),
            _ if *v => Bit::new_true::<C<F>>(),
            _ => Bit::new_false::<C<F>>(),
        }),
        Step::Bit(From_::NotOf(i)) => {
            let b = l.bits[*i].not::<C<F>>();
            l.bits.push(b);
        }
        Step::Bit(From_::Of(n, j)) => {
            let b = l.numbers[*n].get(*j).expect("a bit of the number");
            l.bits.push(b);
        }
        Step::Number(v, w) => {
            let x: F = n2f(v);
            let n = Num::alloc(l.cs.namespace(|| format!("number {}", k)), || Ok(x))?;
            l.grew(&[x]);
            let b = n.decompose(l.cs.namespace(|| format!("bits {}", k)), *w)?;
            let xs: Vec<F> = (0..*w).map(|j| f(v.bit(j as u64))).collect();
            l.grew(&xs);
            l.numbers.push(b);
        }
        Step::Make(bs) => {
            let v = Bitvector::from_bits(bs.iter().map(|b| l.bits[*b].clone()).collect());
            l.vecs.push(v);
        }
        Step::FromNumber(n) => {
            let v = l.numbers[*n].clone();
            l.vecs.push(v);
        }
        Step::Dup(v) => {
            let x = l.vecs[*v].clone();
            l.vecs.push(x);
        }
        Step::Rev(v) => l.vecs[*v] = l.vecs[*v].clone().reversed(),
        Step::Trunc(v, n) => l.vecs[*v] = l.vecs[*v].clone().truncate(*n),
        Step::Shr(v, n) => l.vecs[*v] = l.vecs[*v].clone().shr(*n),
        Step::Shl(v, n) => l.vecs[*v] = l.vecs[*v].clone().shl(*n),
        Step::Pop(v) => {
            if let Some(b) = l.vecs[*v].pop() {
                l.bits.push(b);
            }
        }
        Step::Push(v, b) => {
            let b = l.bits[*b].clone();
            l.vecs[*v].push(b);
        }
        Step::Insert(v, i, b) => {
            let b = l.bits[*b].clone();
            l.vecs[*v].insert(*i, b);
        }
        Step::Append(v, w) => {
            let o = l.vecs[*w].clone();
            l.vecs[*v].append(o);
        }
        Step::Split(v) => {
            let _ = l.vecs[*v].to_string();
            l.vecs[*v] = Bitvector::from_bits(l.vecs[*v].clone().into_bits());
        }
        Step::Get(v, i) => {
            if let Some(b) = l.vecs[*v].get(*i) {
                l.bits.push(b);
            }
        }
        Step::Require(b, x) => {
            l.want.resize(l.cs.cons.len(), true);
            l.bits[*b].constrain_value(l.cs.namespace(|| format!("require {}", k)), *x);
            l.want.resize(l.cs.cons.len(), r.bits[*b].0 == *x);
        }
        Step::Recompose(v, w) => {
            let m = &r.vecs[*v].b;
            if !m.is_empty() {
                let n = BigNat::recompose(&l.vecs[*v], *w);
                let all = n.limb_values.clone();
                for (i, c) in m.chunks(*w).enumerate() {
                    let e = value(c);
                    if let (Some(vs), None) = (&all, &l.bad) {
                        if vs.get(i).map(|x| f2n(x)) != Some(e.clone()) {
                            l.bad = Some(format!("limb {} of the recomposed number is {:?} instead of {}", i, vs.get(i).map(|x| f2n(x)), e));
                        }
                    }
                    match n.limbs.get(i) {
                        Some(lc) => l.lcs.push((lc.clone(), e, format!("limb {} recomposed in step {}", i, k))),
                        None => l.bad = Some(format!("limb {} of the recomposed number is missing", i)),
                    }
                }
                if l.vecs[*v].values.is_some() && all.is_none() {
                    l.bad = Some("the recomposed number lost its values".into());
                }
            }
        }
        Step::SameAs(v, x) => {
            let c: F = n2f(x);
            let n = Num::new(Some(c), LinearCombination::zero() + (c, C::<F>::one()));
            l.want.resize(l.cs.cons.len(), true);
            n.is_equal(l.cs.namespace(|| format!("same {}", k)), &l.vecs[*v])?;
            l.want.resize(l.cs.cons.len(), value(&r.vecs[*v].b) == *x);
        }
    }
    Ok(())
}

pub fn c22(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::any(t);
    with_field!(f, F => c22_on::<F>(t, rep, f.info().cap))
}
fn c22_on<F: PrimeField>(t: &mut Tape, rep: &mut Rep, cap: usize) {
    let steps = generate(t, cap);
    let mut whole = Ref::default();
    for s in &steps {
        whole.apply(s);
    }
    let items = whole.items;
    rep.sample = format!("{:?}", steps);
    rep.shape = hash_str(&rep.sample);
    rep.log_str(&rep.sample.clone());
    // a setup first, faulty attempts, and at last an intact one
    let mut shape: Option<(u64, usize)> = None;
    let mut allocs = 0;
    let n = t.range(1, 3);
    for a in 0..n + 2 {
        let mut cfg = CsCfg { lc_order: t.usize(6) as u8, notes: t.chance(1, 4), ..CsCfg::default() };
        let mask: Vec<bool> = if a == 0 {
            vec![false; items]
        } else if a == n + 1 {
            vec![true; items]
        } else {
            (0..items).map(|_| t.chance(1, 2)).collect()
        };
        if a > 0 && a <= n {
            rep.st.add("configured: witness lost on a subset", 1);
            match t.usize(4) {
                0 => {
                    cfg.refuse = Some((t.usize(allocs.max(1)), t.chance(1, 2)));
                    rep.st.add("configured: refused allocation", 1);
                }
                1 => {
                    cfg.crash = Some(t.usize(allocs.max(1) * 2));
                    rep.st.add("configured: crash at back-end call", 1);
                }
                _ => {}
            }
        }
        let known = |i: usize| mask.get(i).cloned().unwrap_or(true);
        let (l, _, end) = play::<F>(&steps, cfg.clone(), &known);
        rep.st.add("attempts", 1);
        rep.st.add("back-end calls", l.cs.calls as u64);
        rep.log(end.tag());
        rep.log(l.cs.shape.get());
        let who = if a == 0 {
            "without any witness".to_string()
        } else {
            format!("with items {:?} known", (0..items).filter(|i| mask[*i]).collect::<Vec<_>>())
        };
        match &end {
            End::Panic(m) => return rep.fail("editing bits panics", format!("{}: {}", who, m)),
            End::Crash => {
                rep.st.add("fired: crash", 1);
                continue;
            }
            End::Err(e) => {
                if !l.cs.refused {
                    return rep.fail("editing bits fails without a fault", format!("{}: {}", who, e));
                }
                rep.st.add("fired: refused allocation", 1);
                continue;
            }
            End::Ok => {}
        }
        if l.cs.refused {
            return rep.fail("a refused allocation was not reported", who);
        }
        if let Some(b) = l.bad {
            return rep.fail("bits and values are not aligned", format!("{}: {}", who, b));
        }
        if a > 0 && mask.iter().any(|k| !k) {
            rep.st.add("fired: witness lost on a subset", 1);
        }
        for (lc, e, w) in &l.lcs {
            let g = ev(&l.cs.norm(lc), &l.real);
            if g != n2f::<F>(e) {
                return rep.fail("bits and values are not aligned", format!("{}: {} is constrained to {} instead of {}", who, w, f2n(&g), e));
            }
        }
        if l.real.len() != l.cs.vals.len() {
            rep.harness = Some(format!("{} variables, {} followed", l.cs.vals.len(), l.real.len()));
            return;
        }
        for (i, v) in l.cs.vals.iter().enumerate() {
            if v.is_some() && *v != Some(l.real[i]) {
                return rep.fail("bits and values are not aligned", format!("{}: variable {} got {}", who, i, f2n(&v.unwrap())));
            }
        }
        let mut want = l.want.clone();
        want.resize(l.cs.cons.len(), true);
        for (i, c) in l.cs.cons.iter().enumerate() {
            if con_ok(c, &l.real) != want[i] {
                return rep.fail(
                    "a requirement on bits is decided wrongly",
                    format!("{}: constraint {} {}", who, i, if want[i] { "refuses the true bits" } else { "accepts wrong bits" }),
                );
            }
        }
        let sh = (l.cs.shape.get(), l.cs.cons.len());
        match shape {
            None => {
                shape = Some(sh);
                allocs = l.cs.n_allocs;
            }
            Some(x) if x != sh => return rep.fail("the circuit depends on the witness", who),
            _ => {}
        }
    }
    rep.nontrivial = items > 0 && !whole.vecs.is_empty();
}
