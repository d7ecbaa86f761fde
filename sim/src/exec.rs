//! Runs a plan through the real library on any constraint-system back-end.
use crate::cs::SimCrash;
use crate::fields::n2f;
use crate::model::*;
use bellpepper::gadgets::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use std::cell::{Cell, RefCell};
use validate_btc_header::btc_validation::{difficulty_update, median};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::num::Num;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SrcFault {
    Missing,
    Io,
    Short,
    Long,
    Empty,
    TooBig,
    Crash,
}
pub const SRC_FAULTS: [SrcFault; 7] = [
    SrcFault::Missing,
    SrcFault::Io,
    SrcFault::Short,
    SrcFault::Long,
    SrcFault::Empty,
    SrcFault::TooBig,
    SrcFault::Crash,
];

/// The witness sources of an attempt.
pub struct Src {
    pub known: bool,
    /// fault of the source with this ordinal
    pub fault: Option<(usize, SrcFault)>,
    /// run when the source with this ordinal is consulted
    pub nested: RefCell<Option<(usize, Box<dyn FnOnce()>)>>,
    next: Cell<usize>,
    pub consulted: RefCell<Vec<u32>>,
    pub fired: Cell<bool>,
    /// ordinals that accept limb vectors (Short/Long/Empty apply)
    pub kinds: RefCell<Vec<u8>>,
}
impl Src {
    pub fn honest() -> Self {
        Self::new(true, None)
    }
    pub fn absent() -> Self {
        Self::new(false, None)
    }
    pub fn new(known: bool, fault: Option<(usize, SrcFault)>) -> Self {
        Src {
            known,
            fault,
            nested: RefCell::new(None),
            next: Cell::new(0),
            consulted: RefCell::new(vec![]),
            fired: Cell::new(false),
            kinds: RefCell::new(vec![]),
        }
    }
    fn open(&self, kind: u8) -> usize {
        let i = self.next.get();
        self.next.set(i + 1);
        self.consulted.borrow_mut().push(0);
        self.kinds.borrow_mut().push(kind);
        i
    }
    fn consult(&self, i: usize) -> Result<Option<SrcFault>, SynthesisError> {
        self.consulted.borrow_mut()[i] += 1;
        if let Some((j, _)) = self.nested.borrow().as_ref() {
            if *j != i {
                // not ours
            }
        }
        let run = {
            let mut n = self.nested.borrow_mut();
            if n.as_ref().map(|x| x.0 == i).unwrap_or(false) {
                n.take()
            } else {
                None
            }
        };
        if let Some((_, f)) = run {
            f();
        }
        if !self.known {
            return Err(SynthesisError::AssignmentMissing);
        }
        if let Some((j, f)) = self.fault {
            if j == i {
                self.fired.set(true);
                return match f {
                    SrcFault::Missing => Err(SynthesisError::AssignmentMissing),
                    SrcFault::Io => Err(SynthesisError::IoError(std::io::Error::new(
                        std::io::ErrorKind::UnexpectedEof,
                        "witness source failed",
                    ))),
                    SrcFault::Crash => std::panic::panic_any(SimCrash),
                    o => Ok(Some(o)),
                };
            }
        }
        Ok(None)
    }
}

pub struct NumR<F: PrimeField> {
    pub lc: LinearCombination<F>,
    pub value: Option<F>,
    pub an: Option<AllocatedNum<F>>,
}
impl<F: PrimeField> NumR<F> {
    fn num(&self) -> Num<F> {
        Num::new(self.value, self.lc.clone())
    }
}

pub struct Out<F: PrimeField> {
    pub op: usize,
    /// (number in the model, limb, limb width) if this is a limb of a big number
    pub bn: Option<(usize, usize, usize)>,
    pub what: String,
    pub lc: LinearCombination<F>,
    pub expect: F,
}

pub struct Done<F: PrimeField> {
    pub outs: Vec<Out<F>>,
    pub pinned: Vec<LinearCombination<F>>,
    pub pin_vals: Vec<F>,
    /// claims the library made about values: (what, claimed, expected)
    pub claims: Vec<(String, Option<BigInt>, BigInt)>,
    pub claim_len: Vec<(String, usize, Option<usize>)>,
    pub bool_claims: Vec<(String, Option<bool>, bool)>,
    /// what the public inputs have to be, in order
    pub inputs: Vec<(usize, String, F)>,
}

struct Ctx<'s, F: PrimeField> {
    bns: Vec<BigNat<F>>,
    nums: Vec<NumR<F>>,
    bits: Vec<Bit<F>>,
    d: Done<F>,
    src: &'s Src,
    m: Model,
}

fn limb_lc<F: PrimeField>(b: &BigNat<F>, i: usize) -> LinearCombination<F> {
    b.limbs[i].clone()
}

pub fn run<F: PrimeField, CS: ConstraintSystem<F>>(
    plan: &Plan,
    cs: &mut CS,
    src: &Src,
) -> Result<Done<F>, SynthesisError> {
    let mut c = Ctx {
        bns: vec![],
        nums: vec![],
        bits: vec![],
        d: Done {
            outs: vec![],
            pinned: vec![],
            pin_vals: vec![],
            claims: vec![],
            claim_len: vec![],
            bool_claims: vec![],
            inputs: vec![],
        },
        src,
        m: Model::new(plan.f.clone()),
    };
    for (i, op) in plan.ops.iter().enumerate() {
        let mut ns = cs.namespace(|| format!("op {}", i));
        step::<F, _>(&mut c, i, op, &mut ns)?;
    }
    Ok(c.d)
}

impl<'s, F: PrimeField> Ctx<'s, F> {
    fn known(&self) -> bool {
        self.src.known
    }
    /// registers the model's newest numbers/bits against the library's
    fn note(&mut self, i: usize, op: &str, nb: usize, nt: usize, nn: usize) {
        for k in nb..self.m.bns.len() {
            let m = self.m.bns[k].clone();
            let r = &self.bns[k];
            let n = r.limbs.len();
            let zero = BigInt::from(0);
            for j in 0..n {
                let e = m.limbs.get(j).unwrap_or(&zero);
                self.d.outs.push(Out {
                    op: i,
                    bn: Some((k, j, m.w)),
                    what: format!("{} limb {}", op, j),
                    lc: limb_lc(r, j),
                    expect: n2f(e),
                });
            }
            for j in n..m.limbs.len() {
                if m.limbs[j] != zero {
                    self.d.claim_len.push((format!("op {} {}", i, op), n, None));
                }
            }
            if let Some(lv) = r.limb_values.as_ref() {
                self.d.claim_len.push((format!("op {} {}", i, op), n, Some(lv.len())));
                for (j, l) in lv.iter().enumerate() {
                    let e = m.limbs.get(j).unwrap_or(&zero);
                    self.d.claims.push((
                        format!("op {} {} limb value {}", i, op, j),
                        Some(crate::fields::f2n(l)),
                        crate::fields::f2n::<F>(&n2f(e)),
                    ));
                }
            } else {
                self.d.claims.push((format!("op {} {} limb values", i, op), None, zero.clone()));
            }
            self.d.claims.push((format!("op {} {} value", i, op), r.value.clone(), m.val()));
        }
        for k in nt..self.m.bits.len() {
            let r = &self.bits[k];
            self.d.outs.push(Out {
                op: i,
                bn: None,
                what: format!("{} bit", op),
                lc: r.bit.clone(),
                expect: if self.m.bits[k] { F::ONE } else { F::ZERO },
            });
            self.d.bool_claims.push((format!("op {} {} bit", i, op), r.value, self.m.bits[k]));
        }
        for k in nn..self.m.nums.len() {
            let r = &self.nums[k];
            self.d.outs.push(Out {
                op: i,
                bn: None,
                what: format!("{} num", op),
                lc: r.lc.clone(),
                expect: n2f(&self.m.nums[k]),
            });
            self.d.claims.push((
                format!("op {} {} num value", i, op),
                r.value.as_ref().map(crate::fields::f2n),
                self.m.nums[k].clone(),
            ));
        }
    }
    /// the newest numbers are inputs: the statement is about these values
    fn pin(&mut self, nb: usize, nt: usize, nn: usize) {
        for k in nb..self.bns.len() {
            for j in 0..self.bns[k].limbs.len() {
                let l = limb_lc(&self.bns[k], j);
                self.d.pinned.push(l);
            }
        }
        for k in nt..self.bits.len() {
            let l = self.bits[k].bit.clone();
            self.d.pinned.push(l);
        }
        for k in nn..self.nums.len() {
            let l = self.nums[k].lc.clone();
            self.d.pinned.push(l);
        }
    }
    fn bit_outs(&mut self, i: usize, op: &str, bv: &Bitvector<F>, v: &BigInt) {
        for (j, b) in bv.bits.iter().enumerate() {
            let e = v.bit(j as u64);
            self.d.outs.push(Out {
                op: i,
                bn: None,
                what: format!("{} bit {}", op, j),
                lc: b.clone(),
                expect: if e { F::ONE } else { F::ZERO },
            });
        }
        match bv.values.as_ref() {
            Some(vs) => {
                self.d.claim_len.push((format!("op {} {}", i, op), bv.bits.len(), Some(vs.len())));
                for (j, b) in vs.iter().enumerate() {
                    self.d.bool_claims.push((format!("op {} {} bit value {}", i, op, j), Some(*b), v.bit(j as u64)));
                }
            }
            None => {
                if !bv.bits.is_empty() {
                    self.d.bool_claims.push((format!("op {} {} bit values", i, op), None, false))
                }
            }
        }
    }
}

/// The same shape: the trait's default methods know only wires, so refusing the rest is up to the
/// gadget itself.
fn alike<F: PrimeField>(a: &BigNat<F>, b: &BigNat<F>) -> bool {
    a.limbs.len() == b.limbs.len() && a.params.limb_width == b.params.limb_width
}

/// A gadget of the caller's own: the trait's default methods on a number.
#[derive(Clone)]
pub struct Plain<F: PrimeField>(pub BigNat<F>);
impl<F: PrimeField> Gadget for Plain<F> {
    type Scalar = F;
    type Value = BigInt;
    type Access = ();
    type Params = <BigNat<F> as Gadget>::Params;
    fn alloc<CS: ConstraintSystem<F>>(
        cs: CS,
        value: Option<&BigInt>,
        access: (),
        params: &Self::Params,
    ) -> Result<Self, SynthesisError> {
        <BigNat<F> as Gadget>::alloc(cs, value, access, params).map(Plain)
    }
    fn wires(&self) -> Vec<LinearCombination<F>> {
        self.0.wires()
    }
    fn wire_values(&self) -> Option<Vec<F>> {
        self.0.wire_values()
    }
    fn value(&self) -> Option<&BigInt> {
        Gadget::value(&self.0)
    }
    fn access(&self) -> &() {
        self.0.access()
    }
    fn params(&self) -> &Self::Params {
        Gadget::params(&self.0)
    }
}

fn fvec<F: PrimeField>(l: &[BigInt]) -> Vec<F> {
    l.iter().map(n2f).collect()
}

fn step<F: PrimeField, CS: ConstraintSystem<F>>(
    c: &mut Ctx<F>,
    i: usize,
    op: &Op,
    cs: &mut CS,
) -> Result<(), SynthesisError> {
    use Op::*;
    let (nb, nt, nn) = (c.m.bns.len(), c.m.bits.len(), c.m.nums.len());
    let t = c.m.apply(op);
    let name = format!("{:?}", op);
    let name = name.split(|ch: char| !ch.is_alphanumeric()).next().unwrap().to_string();
    let known = c.known();
    let src = c.src;
    match op {
        InNat { w, n, v, wf } => {
            let id = src.open(0);
            let b = BigNat::alloc_from_nat(
                cs.namespace(|| "in"),
                || {
                    Ok(match src.consult(id)? {
                        Some(SrcFault::TooBig) => v + pow2(w * n),
                        _ => v.clone(),
                    })
                },
                *w,
                *n,
            )?;
            if *wf {
                b.assert_well_formed(cs.namespace(|| "wf"))?;
            }
            c.bns.push(b);
            c.pin(nb, nt, nn);
        }
        InLimbs { w, limbs, mw, wf } => {
            let id = src.open(1);
            let b = BigNat::alloc_from_limbs(
                cs.namespace(|| "in"),
                || {
                    let mut l: Vec<F> = fvec(limbs);
                    match src.consult(id)? {
                        Some(SrcFault::Short) => {
                            l.pop();
                        }
                        Some(SrcFault::Long) => l.push(F::ONE),
                        Some(SrcFault::Empty) => l.clear(),
                        _ => {}
                    }
                    Ok(l)
                },
                mw.clone(),
                *w,
                limbs.len(),
            )?;
            if *wf {
                b.assert_well_formed(cs.namespace(|| "wf"))?;
            }
            c.bns.push(b);
            c.pin(nb, nt, nn);
        }
        InNums { w, limbs } => {
            let mut ns = vec![];
            for (j, l) in limbs.iter().enumerate() {
                let id = src.open(2);
                ns.push(Num::alloc(cs.namespace(|| format!("limb {}", j)), || {
                    src.consult(id)?;
                    Ok(n2f(l))
                })?);
            }
            c.bns.push(BigNat::from_limbs(ns, *w));
            c.pin(nb, nt, nn);
        }
        FromNum { num, w, n } => {
            let x = c.nums[*num].num();
            let b = BigNat::from_num(cs.namespace(|| "from"), x, *w, *n)?;
            c.bns.push(b);
        }
        InBits { w, bits } => {
            let mut bs = vec![];
            for (j, b) in bits.iter().enumerate() {
                bs.push(Bit::alloc(
                    cs.namespace(|| format!("bit {}", j)),
                    if known { Some(*b) } else { None },
                )?);
            }
            for b in &bs {
                c.d.pinned.push(b.bit.clone());
            }
            let bv = Bitvector::from_bits(bs);
            c.bns.push(BigNat::recompose(&bv, *w));
        }
        OneBn { w } => {
            c.bns.push(BigNat::one::<CS>(*w));
        }
        Add(x, y) => {
            let r = c.bns[*x].add::<CS>(&c.bns[*y])?;
            c.bns.push(r);
        }
        Sub(x, y) => {
            let r = c.bns[*x].sub(cs.namespace(|| "sub"), &c.bns[*y])?;
            c.bns.push(r);
        }
        Mult(x, y) => {
            let r = c.bns[*x].mult(cs.namespace(|| "mult"), &c.bns[*y])?;
            c.bns.push(r);
        }
        MultMod(x, y, m) => {
            let (q, r) = c.bns[*x].mult_mod(cs.namespace(|| "mm"), &c.bns[*y], &c.bns[*m])?;
            c.bns.push(q);
            c.bns.push(r);
        }
        RedMod(x, m) => {
            let r = c.bns[*x].red_mod(cs.namespace(|| "rm"), &c.bns[*m])?;
            c.bns.push(r);
        }
        ProdMod(x, y, m, r) => {
            let q = c.bns[*x].assert_product_mod(cs.namespace(|| "pm"), &c.bns[*y], &c.bns[*m], &c.bns[*r])?;
            c.bns.push(q);
        }
        Divides(x, y) => c.bns[*x].divides(cs.namespace(|| "div"), &c.bns[*y])?,
        Equal(x, y) => c.bns[*x].equal(cs.namespace(|| "eq"), &c.bns[*y])?,
        EqCarried(x, y) => c.bns[*x].equal_when_carried(cs.namespace(|| "eq"), &c.bns[*y])?,
        EqRegroup(x, y) => c.bns[*x].equal_when_carried_regroup(cs.namespace(|| "eq"), &c.bns[*y])?,
        AssertEq(x, y) if i % 2 == 1 && alike(&c.bns[*x], &c.bns[*y]) => {
            Plain::assert_equal(cs.namespace(|| "eq"), &Plain(c.bns[*x].clone()), &Plain(c.bns[*y].clone()))?
        }
        AssertEq(x, y) => <BigNat<F> as Gadget>::assert_equal(cs.namespace(|| "eq"), &c.bns[*x], &c.bns[*y])?,
        IsEqual(x, y) => {
            let r = c.bns[*x].is_equal(cs.namespace(|| "eq"), &c.bns[*y])?;
            c.bits.push(Bit::from_sapling::<CS>(r));
        }
        WellFormed(x) => c.bns[*x].assert_well_formed(cs.namespace(|| "wf"))?,
        Decompose(x) => {
            let bv = c.bns[*x].decompose(cs.namespace(|| "dec"))?;
            let v = c.m.bns[*x].val();
            c.bit_outs(i, "Decompose", &bv, &v);
        }
        FullBits(x) => c.bns[*x].enforce_full_bits(cs.namespace(|| "full"))?,
        MinBits(x, k) => c.bns[*x].enforce_min_bits(cs.namespace(|| "min"), *k)?,
        Concat(x, y) => {
            let r = c.bns[*x].concat(&c.bns[*y])?;
            c.bns.push(r);
        }
        Trunc(x, n) => {
            let r = c.bns[*x].truncate_limbs(*n);
            c.bns.push(r);
        }
        Shift(x, k) => {
            let r = c.bns[*x].shift::<CS>(n2f(k));
            c.bns.push(r);
        }
        Scale(x, k) => {
            let r = c.bns[*x].scale::<CS>(n2f(k));
            c.bns.push(r);
        }
        Group(x, k) => {
            let r = c.bns[*x].group_limbs(*k);
            c.bns.push(r);
        }
        WithN(x, n) => {
            let r = c.bns[*x].with_n_limbs::<CS>(*n);
            c.bns.push(r);
        }
        ViaLimbs(x) => {
            let w = c.bns[*x].params.limb_width;
            let ls = c.bns[*x].as_limbs::<CS>();
            c.bns.push(BigNat::from_limbs(ls, w));
        }
        Recompose(x, w2) => {
            let bv = c.bns[*x].decompose(cs.namespace(|| "dec"))?;
            c.bns.push(BigNat::recompose(&bv, *w2));
        }
        Min(x, y) => {
            let r = c.bns[*x].min(cs.namespace(|| "min"), &c.bns[*y])?;
            c.bns.push(r);
        }
        Mux(s, x, y) if i % 2 == 1 && alike(&c.bns[*x], &c.bns[*y]) => {
            let (a, b) = (Plain(c.bns[*x].clone()), Plain(c.bns[*y].clone()));
            let r = Plain::mux(cs.namespace(|| "mux"), &c.bits[*s], &a, &b)?;
            c.bns.push(r.0);
        }
        Switch(s, x, y) if i % 2 == 1 && alike(&c.bns[*x], &c.bns[*y]) => {
            let (a, b) = (Plain(c.bns[*x].clone()), Plain(c.bns[*y].clone()));
            let (u, v) = Plain::switch(cs.namespace(|| "switch"), &c.bits[*s], &a, &b)?;
            c.bns.push(u.0);
            c.bns.push(v.0);
        }
        MuxTree(bs, xs) if i % 2 == 1 && xs.iter().all(|x| alike(&c.bns[*x], &c.bns[xs[0]])) => {
            let bits: Vec<Bit<F>> = bs.iter().map(|b| c.bits[*b].clone()).collect();
            let items: Vec<Plain<F>> = xs.iter().map(|x| Plain(c.bns[*x].clone())).collect();
            let r = Plain::mux_tree(cs.namespace(|| "tree"), bits.iter(), &items)?;
            c.bns.push(r.0);
        }
        Mux(s, x, y) => {
            let r = <BigNat<F> as Gadget>::mux(cs.namespace(|| "mux"), &c.bits[*s], &c.bns[*x], &c.bns[*y])?;
            c.bns.push(r);
        }
        Switch(s, x, y) => {
            let (u, v) =
                <BigNat<F> as Gadget>::switch(cs.namespace(|| "switch"), &c.bits[*s], &c.bns[*x], &c.bns[*y])?;
            c.bns.push(u);
            c.bns.push(v);
        }
        MuxTree(bs, xs) => {
            let bits: Vec<Bit<F>> = bs.iter().map(|b| c.bits[*b].clone()).collect();
            let items: Vec<BigNat<F>> = xs.iter().map(|x| c.bns[*x].clone()).collect();
            let r = <BigNat<F> as Gadget>::mux_tree(cs.namespace(|| "tree"), bits.iter(), &items)?;
            c.bns.push(r);
        }
        BvEdit { x, bits, edits, w } => {
            let pick = |b: &usize| c.bits[*b].clone();
            let mut v = match x {
                Some(x) => c.bns[*x].decompose(cs.namespace(|| "dec"))?,
                None => Bitvector::from_bits(bits.iter().map(pick).collect()),
            };
            for e in edits {
                match e {
                    Edit::Rev => v = v.reversed(),
                    Edit::Trunc(n) => v = v.truncate(*n),
                    Edit::Shr(n) => v = v.shr(*n),
                    Edit::Shl(n) => v = v.shl(*n),
                    Edit::PopInsert(i) => {
                        let b = v.pop().expect("a bit to pop");
                        v.insert(*i, b);
                    }
                    Edit::Pop => {
                        let _ = v.pop();
                    }
                    Edit::Push(b) => v.push(pick(b)),
                    Edit::Insert(i, b) => v.insert(*i, pick(b)),
                    Edit::Append(bs) => v.append(Bitvector::from_bits(bs.iter().map(pick).collect())),
                    Edit::Split => v = Bitvector::from_bits(v.into_bits()),
                    Edit::GetPush(i) => {
                        let b = v.get(*i).expect("a bit to read");
                        v.push(b);
                    }
                }
            }
            let _ = v.to_string();
            c.bns.push(BigNat::recompose(&v, *w));
        }
        Inputize(x, g) => {
            if *g {
                Gadget::inputize(&c.bns[*x], cs.namespace(|| "inp"))?;
            } else {
                BigNat::inputize(&c.bns[*x], cs.namespace(|| "inp"))?;
            }
            for (j, l) in c.m.bns[*x].limbs.iter().enumerate() {
                c.d.inputs.push((i, format!("public input {}", j), n2f(l)));
            }
        }
        AsNums(x) => {
            let r = c.bns[*x].as_nums(cs.namespace(|| "nums"))?;
            let m = c.m.bns[*x].clone();
            for (j, n) in r.iter().enumerate() {
                c.d.outs.push(Out {
                    op: i,
                    bn: None,
                    what: format!("AsNums {}", j),
                    lc: LinearCombination::zero() + n.get_variable(),
                    expect: n2f(&m.limbs[j]),
                });
                c.d.claims.push((
                    format!("op {} AsNums {}", i, j),
                    n.get_value().as_ref().map(crate::fields::f2n),
                    crate::fields::f2n::<F>(&n2f(&m.limbs[j])),
                ));
            }
        }
        NumIn { v, raw } => {
            let id = src.open(2);
            let r = if *raw {
                let x = Num::alloc(cs.namespace(|| "num"), || {
                    src.consult(id)?;
                    Ok(n2f(v))
                })?;
                NumR { lc: x.num.clone(), value: x.value, an: None }
            } else {
                let x = AllocatedNum::alloc(cs.namespace(|| "num"), || {
                    src.consult(id)?;
                    Ok(n2f(v))
                })?;
                let y: Num<F> = Num::from(x.clone());
                NumR { lc: y.num.clone(), value: y.value, an: Some(x) }
            };
            c.nums.push(r);
            c.pin(nb, nt, nn);
        }
        NumFits(x, k) => c.nums[*x].num().fits_in_bits(cs.namespace(|| "fits"), *k)?,
        NumDecompose(x, k) => {
            let bv = c.nums[*x].num().decompose(cs.namespace(|| "dec"), *k)?;
            let v = c.m.nums[*x].clone();
            if t == Truth::Holds {
                c.bit_outs(i, "NumDecompose", &bv, &v);
            }
        }
        NumSapling(x) => {
            let a = c.nums[*x].num().as_sapling_allocated_num(cs.namespace(|| "an"))?;
            let y: Num<F> = Num::from(a.clone());
            c.nums.push(NumR { lc: y.num.clone(), value: y.value, an: Some(a) });
        }
        NumEqBits(x, bs) => {
            let mut v = vec![];
            for (j, b) in bs.iter().enumerate() {
                v.push(Bit::alloc(
                    cs.namespace(|| format!("bit {}", j)),
                    if known { Some(*b) } else { None },
                )?);
            }
            for b in &v {
                c.d.pinned.push(b.bit.clone());
            }
            let bv = Bitvector::from_bits(v);
            c.nums[*x].num().is_equal(cs.namespace(|| "eqb"), &bv)?;
        }
        Equals(x, y) => {
            let (a, b) = (an(c, cs, *x, 0)?, an(c, cs, *y, 1)?);
            let r = BigNat::equals(cs.namespace(|| "equals"), &a, &b)?;
            c.bits.push(Bit::from_sapling::<CS>(r));
        }
        Less(x, y, k) => {
            let (a, b) = (an(c, cs, *x, 0)?, an(c, cs, *y, 1)?);
            let r = median::less_than(cs.namespace(|| "lt"), &a, &b, *k)?;
            c.bits.push(Bit::from_sapling::<CS>(r));
        }
        Leq(x, y, k) => {
            let (a, b) = (an(c, cs, *x, 0)?, an(c, cs, *y, 1)?);
            let r = median::leq(cs.namespace(|| "leq"), &a, &b, *k)?;
            c.bits.push(Bit::from_sapling::<CS>(r));
        }
        BitIn(b) => {
            let r = Bit::alloc(cs.namespace(|| "bit"), if known { Some(*b) } else { None })?;
            c.bits.push(r);
            c.pin(nb, nt, nn);
        }
        BitNot(x) => {
            let r = c.bits[*x].not::<CS>();
            c.bits.push(r);
        }
        BitConst(b) => {
            c.bits.push(Bit::new_value::<CS>(*b));
        }
        BitForce(x, v) => c.bits[*x].constrain_value(cs.namespace(|| "force"), *v),
        Median { ts, claim } => {
            let mut tv = if known { ts.clone() } else { vec![0; ts.len()] };
            let r = median::verify_median_timestamp(
                cs.namespace(|| "median"),
                &mut tv,
                if known { *claim } else { 0 },
            )?;
            c.bits.push(Bit::from_sapling::<CS>(r));
            for t in ts {
                c.d.pin_vals.push(F::from(*t as u64));
            }
            c.d.pin_vals.push(F::from(*claim as u64));
        }
        CalcDiff(o, tt) => {
            let (a, b) = (an(c, cs, *o, 0)?, an(c, cs, *tt, 1)?);
            let r = difficulty_update::calculate_difficulty_update(cs.namespace(|| "calc"), &a, &b)?;
            c.bns.push(r);
        }
        VerifyDiff { new, old, t } => {
            let z = BigInt::from(0);
            let (new, old, t) = if known { (new, old, *t) } else { (&z, &z, 0) };
            let split = |x: &BigInt| -> (u128, u128) {
                use num_traits::ToPrimitive;
                let hi: BigInt = x >> 128usize;
                (hi.to_u128().unwrap(), (x & ones(128)).to_u128().unwrap())
            };
            let (nu, nl) = split(new);
            let (ou, ol) = split(old);
            difficulty_update::verify_difficulty_update(cs.namespace(|| "verify"), nu, nl, ou, ol, t).settled()?;
            for v in [nu, nl, ou, ol, t as u128] {
                c.d.pin_vals.push(n2f(&BigInt::from(v)));
            }
        }
    }
    let input = matches!(op, InNat { .. } | InLimbs { .. } | InNums { .. } | NumIn { .. } | BitIn(_));
    let skip = t == Truth::Unusable || matches!(t, Truth::False) && matches!(op, Sub(..) | Mult(..) | ProdMod(..) | CalcDiff(..));
    if !input && !skip {
        c.note(i, &name, nb, nt, nn);
    }
    // how many limbs a quotient gets is the library's choice: go on with the model's number
    for k in nb..c.bns.len() {
        let n = c.m.bns[k].limbs.len();
        let have = c.bns[k].limbs.len();
        if have < n {
            c.bns[k] = c.bns[k].with_n_limbs::<CS>(n);
        } else if have > n {
            c.bns[k] = c.bns[k].truncate_limbs(n);
        }
    }
    Ok(())
}

fn an<F: PrimeField, CS: ConstraintSystem<F>>(
    c: &Ctx<F>,
    cs: &mut CS,
    x: usize,
    k: usize,
) -> Result<AllocatedNum<F>, SynthesisError> {
    match &c.nums[x].an {
        Some(a) => Ok(a.clone()),
        None => c.nums[x].num().as_sapling_allocated_num(cs.namespace(|| format!("an {}", k))),
    }
}

/// A gadget that reports nothing, or reports success or an error.
trait Settled {
    fn settled(self) -> Result<(), SynthesisError>;
}
impl Settled for () {
    fn settled(self) -> Result<(), SynthesisError> {
        Ok(())
    }
}
impl Settled for Result<(), SynthesisError> {
    fn settled(self) -> Result<(), SynthesisError> {
        self
    }
}
