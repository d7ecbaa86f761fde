//! Circuit programs ("plans") over the library's gadgets and their reference model: exact natural-number
//! arithmetic on limbs, with no reference to how the library computes anything.
use crate::tape::Tape;
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};

pub fn pow2(n: usize) -> BigInt {
    BigInt::one() << n
}
pub fn ones(n: usize) -> BigInt {
    pow2(n) - 1
}
pub fn limbs_of(v: &BigInt, w: usize, n: usize) -> Vec<BigInt> {
    let m = ones(w);
    (0..n).map(|i| (v >> (w * i)) & &m).collect()
}
pub fn val_of(limbs: &[BigInt], w: usize) -> BigInt {
    let mut v = BigInt::zero();
    for l in limbs.iter().rev() {
        v = (v << w) + l;
    }
    v
}

/// Capacity of the field a plan runs over.
#[derive(Clone, Debug)]
pub struct FieldInfo {
    pub name: &'static str,
    pub cap: usize,
    pub p: BigInt,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    InNat { w: usize, n: usize, v: BigInt, wf: bool },
    InLimbs { w: usize, limbs: Vec<BigInt>, mw: Option<BigInt>, wf: bool },
    InNums { w: usize, limbs: Vec<BigInt> },
    FromNum { num: usize, w: usize, n: usize },
    InBits { w: usize, bits: Vec<bool> },
    OneBn { w: usize },
    Add(usize, usize),
    Sub(usize, usize),
    Mult(usize, usize),
    MultMod(usize, usize, usize),
    RedMod(usize, usize),
    ProdMod(usize, usize, usize, usize),
    Divides(usize, usize),
    Equal(usize, usize),
    EqCarried(usize, usize),
    EqRegroup(usize, usize),
    IsEqual(usize, usize),
    AssertEq(usize, usize),
    WellFormed(usize),
    Decompose(usize),
    FullBits(usize),
    MinBits(usize, usize),
    Concat(usize, usize),
    Trunc(usize, usize),
    Shift(usize, BigInt),
    Scale(usize, BigInt),
    Group(usize, usize),
    WithN(usize, usize),
    ViaLimbs(usize),
    Recompose(usize, usize),
    Min(usize, usize),
    Mux(usize, usize, usize),
    Switch(usize, usize, usize),
    MuxTree(Vec<usize>, Vec<usize>),
    Inputize(usize, bool),
    AsNums(usize),
    NumIn { v: BigInt, raw: bool },
    NumFits(usize, usize),
    NumDecompose(usize, usize),
    NumSapling(usize),
    NumEqBits(usize, Vec<bool>),
    Equals(usize, usize),
    Less(usize, usize, usize),
    Leq(usize, usize, usize),
    BitIn(bool),
    BitNot(usize),
    BitConst(bool),
    BitForce(usize, bool),
    Median { ts: Vec<u32>, claim: u32 },
    CalcDiff(usize, usize),
    VerifyDiff { new: BigInt, old: BigInt, t: u32 },
    /// a bit vector (a decomposed number, or the bits named), edited and recomposed
    BvEdit { x: Option<usize>, bits: Vec<usize>, edits: Vec<Edit>, w: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Edit {
    Rev,
    Trunc(usize),
    Shr(usize),
    Shl(usize),
    /// pop, and insert what came at the given place
    PopInsert(usize),
    Pop,
    Push(usize),
    Insert(usize, usize),
    Append(Vec<usize>),
    /// into single bits and back
    Split,
    /// read one bit and push it
    GetPush(usize),
}
/// The bits after the edits, if every edit is within the vector.
pub fn edited<T: Clone>(mut v: Vec<T>, edits: &[Edit], zero: T, bit: impl Fn(usize) -> T) -> Option<Vec<T>> {
    for e in edits {
        match e {
            Edit::Rev => v.reverse(),
            Edit::Trunc(n) => v.truncate(*n),
            Edit::Shr(i) if *i <= v.len() => {
                v.drain(0..*i);
            }
            Edit::Shr(_) => return None,
            Edit::Shl(i) => {
                v.splice(0..0, std::iter::repeat(zero.clone()).take(*i));
            }
            Edit::PopInsert(i) => {
                let b = v.pop()?;
                if *i > v.len() {
                    return None;
                }
                v.insert(*i, b);
            }
            Edit::Pop => {
                v.pop();
            }
            Edit::Push(b) => v.push(bit(*b)),
            Edit::Insert(i, b) if *i <= v.len() => v.insert(*i, bit(*b)),
            Edit::Insert(..) => return None,
            Edit::Append(bs) => v.extend(bs.iter().map(|b| bit(*b))),
            Edit::Split => {}
            Edit::GetPush(i) => {
                let b = v.get(*i)?.clone();
                v.push(b);
            }
        }
    }
    Some(v)
}

#[derive(Clone, Debug)]
pub struct BnM {
    pub w: usize,
    pub limbs: Vec<BigInt>,
    pub mw: BigInt,
    pub min_bits: usize,
}
impl BnM {
    pub fn n(&self) -> usize {
        self.limbs.len()
    }
    pub fn val(&self) -> BigInt {
        val_of(&self.limbs, self.w)
    }
    pub fn canon(&self) -> bool {
        let b = pow2(self.w);
        self.limbs.iter().all(|l| *l < b)
    }
    /// largest value its declared word size allows
    pub fn max_val(&self) -> BigInt {
        val_of(&vec![self.mw.clone(); self.n()], self.w)
    }
}
fn canon_bn(w: usize, n: usize, v: &BigInt) -> BnM {
    BnM { w, limbs: limbs_of(v, w, n), mw: ones(w), min_bits: 0 }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Truth {
    /// the statement holds: an intact prover completes and the circuit is satisfied
    Holds,
    /// the statement is false: no assignment may satisfy the circuit
    False,
    /// the operands are unusable whatever the witness (zero modulus): an honest prover must get an error
    Unusable,
    /// a static mismatch of sizes: an error in every mode
    Static,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub f: FieldInfo,
    pub bns: Vec<BnM>,
    pub nums: Vec<BigInt>,
    pub bits: Vec<bool>,
}

/// ceil(log2(2*mw)) - w, floored at 0
pub fn carry_bits(mw: &BigInt, w: usize) -> usize {
    let x: BigInt = mw * 2;
    if x <= BigInt::one() {
        return 0;
    }
    let c = (x - 1u32).bits() as usize;
    c.saturating_sub(w)
}

/// Limbs that hold the largest product of two numbers.
pub fn mult_quotient_limbs(a: &BnM, b: &BnM) -> usize {
    ((a.max_val() * b.max_val()).bits() as usize).max(1).div_ceil(a.w)
}

pub const TWO_WEEKS: u64 = 2016 * 10 * 60;

impl Model {
    pub fn new(f: FieldInfo) -> Self {
        Model { f, bns: vec![], nums: vec![], bits: vec![] }
    }
    /// can a carried equality be expressed in this field for this word size?
    pub fn carry_ok(&self, mw: &BigInt, w: usize) -> bool {
        let cb = carry_bits(mw, w);
        cb + w + 1 <= self.f.cap
    }
    fn mul_mw(&self, a: &BnM, b: &BnM) -> BigInt {
        BigInt::from(a.n().min(b.n())) * &a.mw * &b.mw
    }
    /// Largest word size either side of a carried product equality reaches.
    fn prodmod_mw(&self, a: &BnM, b: &BnM, qn: usize, m: &BnM, rmw: &BigInt) -> BigInt {
        let l = self.mul_mw(a, b);
        let r = BigInt::from(qn.min(m.n())) * ones(m.w) * &m.mw + rmw;
        l.max(r)
    }

    /// Static precondition of an op: the sizes are ones the operation is documented for.
    /// Can the number be a modulus? Remainders have its limb count and the ordinary limb width, so an
    /// uncarried modulus has to have a value that fits them.
    pub fn modulus_ok(&self, m: &BnM) -> bool {
        m.mw <= ones(m.w) || (m.val().bits() as usize <= m.w * m.n() && self.carry_ok(&m.mw.clone().max(pow2(m.w + 1)), m.w))
    }
    pub fn pre(&self, op: &Op) -> bool {
        use Op::*;
        let cap = self.f.cap;
        let b = |i: &usize| &self.bns[*i];
        match op {
            InNat { w, n, .. } => *w >= 1 && *n >= 1 && *w < cap,
            InLimbs { w, limbs, mw, .. } => {
                *w >= 1
                    && *w < cap
                    && !limbs.is_empty()
                    && mw.as_ref().map(|m| *m < pow2(cap - 1)).unwrap_or(true)
            }
            InNums { w, limbs } => *w >= 1 && *w < cap && !limbs.is_empty(),
            FromNum { w, n, num } => {
                let _ = num;
                // the canonical check in from_num needs room for a carried equality
                *w >= 1 && *n >= 1 && *w + 4 < cap
            }
            InBits { w, bits } => *w >= 1 && *w < cap && !bits.is_empty(),
            OneBn { w } => *w >= 1,
            Add(x, y) => b(x).w == b(y).w && &b(x).mw + &b(y).mw < pow2(cap - 1),
            Sub(x, y) => {
                b(x).w == b(y).w && {
                    let mw = b(x).mw.clone().max(&b(y).mw + ones(b(x).w));
                    self.carry_ok(&mw, b(x).w)
                }
            }
            Mult(x, y) => b(x).w == b(y).w && self.carry_ok(&self.mul_mw(b(x), b(y)), b(x).w),
            MultMod(x, y, m) => {
                let (x, y, m) = (b(x), b(y), b(m));
                x.w == y.w && x.w == m.w && self.modulus_ok(m) && {
                    let qn = mult_quotient_limbs(x, y) + 1;
                    self.carry_ok(&self.prodmod_mw(x, y, qn, m, &ones(m.w)), m.w)
                }
            }
            RedMod(x, m) => {
                let (x, m) = (b(x), b(m));
                x.w == m.w && self.modulus_ok(m) && {
                    let r = BigInt::from(m.n()) * ones(m.w) * &m.mw + ones(m.w);
                    self.carry_ok(&r.max(x.mw.clone()), m.w)
                }
            }
            ProdMod(x, y, m, r) => {
                let (x, y, m, r) = (b(x), b(y), b(m), b(r));
                x.w == y.w && x.w == m.w && x.w == r.w && m.mw <= ones(m.w) && x.mw <= ones(x.w) && y.mw <= ones(y.w) && {
                    self.carry_ok(&self.prodmod_mw(x, y, x.n() + y.n(), m, &r.mw), m.w)
                }
            }
            Divides(x, y) => {
                let (x, y) = (b(x), b(y));
                x.w == y.w && y.mw <= ones(y.w) && {
                    let mw = BigInt::from(x.n().min(y.n())) * &x.mw * ones(y.w);
                    self.carry_ok(&mw, x.w)
                }
            }
            Equal(x, y) | AssertEq(x, y) => {
                b(x).w == b(y).w && b(x).mw <= ones(b(x).w) && b(y).mw <= ones(b(y).w)
            }
            IsEqual(x, y) => b(x).w == b(y).w && b(x).mw <= ones(b(x).w) && b(y).mw <= ones(b(y).w),
            EqCarried(x, y) | EqRegroup(x, y) => {
                b(x).w == b(y).w && self.carry_ok(&b(x).mw.clone().max(b(y).mw.clone()), b(x).w)
            }
            WellFormed(_) => true,
            Decompose(x) => b(x).mw <= ones(b(x).w) || b(x).canon(),
            FullBits(_) => true,
            MinBits(x, k) => *k >= 1 && *k <= b(x).w * b(x).n(),
            Concat(x, y) => b(x).w == b(y).w,
            Trunc(x, n) => *n >= 1 && *n <= b(x).n(),
            Shift(x, c) => *c < self.f.p && &b(x).mw + c < pow2(cap - 1),
            Scale(x, c) => *c < self.f.p && &b(x).mw * c < pow2(cap - 1),
            Group(x, k) => *k >= 1 && b(x).w * *k < cap && group_mw(b(x), *k) < pow2(cap - 1),
            WithN(x, n) => *n >= b(x).n(),
            ViaLimbs(x) => b(x).canon() && b(x).mw <= ones(b(x).w),
            Recompose(x, w2) => *w2 >= 1 && *w2 < cap && b(x).canon() && b(x).w < cap,
            Min(x, y) => {
                b(x).w == b(y).w
                    && b(x).mw <= ones(b(x).w)
                    && b(y).mw <= ones(b(y).w)
                    && self.carry_ok(&(ones(b(x).w) * 2), b(x).w)
            }
            Mux(_, x, y) | Switch(_, x, y) => {
                b(x).w == b(y).w && b(x).mw <= ones(b(x).w) && b(y).mw <= ones(b(y).w)
            }
            MuxTree(bs, xs) => {
                !xs.is_empty()
                    && xs.len() == 1 << bs.len()
                    && xs.iter().all(|x| b(x).w == b(&xs[0]).w && b(x).mw <= ones(b(x).w))
            }
            Inputize(..) | AsNums(_) => true,
            NumIn { v, .. } => *v < self.f.p,
            NumFits(_, k) => *k <= cap,
            NumDecompose(_, k) => *k <= cap,
            NumSapling(_) => true,
            NumEqBits(_, bs) => bs.len() <= cap,
            Equals(..) => true,
            Less(x, y, k) | Leq(x, y, k) => {
                *k >= 1 && *k + 1 <= cap && self.nums[*x] < pow2(*k) && self.nums[*y] < pow2(*k)
            }
            BitIn(_) | BitNot(_) | BitConst(_) | BitForce(..) => true,
            BvEdit { x, bits, edits, w } => {
                let n = x.map(|x| b(&x).w * b(&x).n()).unwrap_or(bits.len());
                *w >= 1
                    && *w < cap
                    && x.map(|x| b(&x).canon() && b(&x).w < cap).unwrap_or(true)
                    && edited(vec![(); n], edits, (), |_| ()).map(|v| !v.is_empty() && v.len() <= 600).unwrap_or(false)
            }
            Median { ts, .. } => ts.len() % 2 == 1 && cap >= 40,
            CalcDiff(..) => cap >= 250,
            VerifyDiff { .. } => cap >= 250,
        }
    }

    /// Applies an op to the model.
    pub fn apply(&mut self, op: &Op) -> Truth {
        use Op::*;
        use Truth::*;
        let t = |c: bool| if c { Holds } else { False };
        match op {
            InNat { w, n, v, wf } => {
                let _ = wf;
                if v.bits() as usize > w * n || v.sign() == Sign::Minus {
                    self.bns.push(canon_bn(*w, *n, v));
                    return Unusable;
                }
                self.bns.push(canon_bn(*w, *n, v));
                Holds
            }
            InLimbs { w, limbs, mw, wf } => {
                let x = BnM {
                    w: *w,
                    limbs: limbs.clone(),
                    mw: mw.clone().unwrap_or_else(|| ones(*w)),
                    min_bits: 0,
                };
                let c = x.canon();
                self.bns.push(x);
                t(!*wf || c)
            }
            InNums { w, limbs } => {
                self.bns.push(BnM { w: *w, limbs: limbs.clone(), mw: ones(*w), min_bits: 0 });
                Holds
            }
            FromNum { num, w, n } => {
                let v = self.nums[*num].clone();
                let fits = v.bits() as usize <= w * n;
                self.bns.push(canon_bn(*w, *n, &v));
                t(fits)
            }
            InBits { w, bits } => {
                let mut v = BigInt::zero();
                for (i, b) in bits.iter().enumerate() {
                    if *b {
                        v += pow2(i);
                    }
                }
                self.bns.push(canon_bn(*w, (bits.len() - 1) / w + 1, &v));
                Holds
            }
            OneBn { w } => {
                self.bns.push(BnM { w: *w, limbs: vec![BigInt::one()], mw: BigInt::one(), min_bits: 1 });
                Holds
            }
            Add(x, y) => {
                let (a, b) = (self.bns[*x].clone(), self.bns[*y].clone());
                let n = a.n().max(b.n());
                let z = BigInt::zero();
                let limbs = (0..n)
                    .map(|i| a.limbs.get(i).unwrap_or(&z) + b.limbs.get(i).unwrap_or(&z))
                    .collect();
                self.bns.push(BnM {
                    w: a.w,
                    limbs,
                    mw: &a.mw + &b.mw,
                    min_bits: a.min_bits.max(b.min_bits),
                });
                Holds
            }
            Sub(x, y) => {
                let (a, b) = (self.bns[*x].clone(), self.bns[*y].clone());
                let d = a.val() - b.val();
                let ok = d.sign() != Sign::Minus && d.bits() as usize <= a.w * a.n();
                self.bns.push(canon_bn(a.w, a.n(), &if ok { d } else { BigInt::zero() }));
                t(ok)
            }
            Mult(x, y) => {
                let (a, b) = (self.bns[*x].clone(), self.bns[*y].clone());
                let p = a.val() * b.val();
                let n = a.n() + b.n();
                let ok = p.bits() as usize <= n * a.w;
                let mut r = canon_bn(a.w, n, &p);
                if a.min_bits > 0 && b.min_bits > 0 {
                    r.min_bits = a.min_bits + b.min_bits - 1;
                }
                self.bns.push(r);
                t(ok)
            }
            MultMod(x, y, m) => {
                let (a, b, m) = (self.bns[*x].clone(), self.bns[*y].clone(), self.bns[*m].clone());
                let p = a.val() * b.val();
                let mv = m.val();
                if mv.is_zero() {
                    self.bns.push(canon_bn(a.w, mult_quotient_limbs(&a, &b), &BigInt::zero()));
                    self.bns.push(canon_bn(a.w, m.n(), &BigInt::zero()));
                    return Unusable;
                }
                let (q, r) = p.div_rem(&mv);
                // the number of quotient limbs is the library's choice; `exec` cuts or extends it to
                // this many, which depends on the declared sizes only
                self.bns.push(canon_bn(a.w, mult_quotient_limbs(&a, &b), &q));
                self.bns.push(canon_bn(a.w, m.n(), &r));
                Holds
            }
            RedMod(x, m) => {
                let (a, m) = (self.bns[*x].clone(), self.bns[*m].clone());
                let mv = m.val();
                if mv.is_zero() {
                    self.bns.push(canon_bn(a.w, m.n(), &BigInt::zero()));
                    return Unusable;
                }
                let r = a.val() % &mv;
                self.bns.push(canon_bn(a.w, m.n(), &r));
                Holds
            }
            ProdMod(x, y, m, r) => {
                let (a, b, m, r) = (
                    self.bns[*x].clone(),
                    self.bns[*y].clone(),
                    self.bns[*m].clone(),
                    self.bns[*r].clone(),
                );
                let p = a.val() * b.val();
                let mv = m.val();
                if mv.is_zero() {
                    self.bns.push(canon_bn(a.w, a.n() + b.n(), &BigInt::zero()));
                    return Unusable;
                }
                let d = &p - r.val();
                let n = a.n() + b.n();
                let ok = d.sign() != Sign::Minus && (&d % &mv).is_zero() && r.val() < mv;
                let q = if ok { &d / &mv } else { BigInt::zero() };
                self.bns.push(canon_bn(a.w, n, &q));
                t(ok)
            }
            Divides(x, y) => {
                let (a, b) = (self.bns[*x].val(), self.bns[*y].val());
                if a.is_zero() {
                    return Unusable;
                }
                t((b % a).is_zero())
            }
            Equal(x, y) | EqCarried(x, y) | EqRegroup(x, y) => t(self.bns[*x].val() == self.bns[*y].val()),
            AssertEq(x, y) => {
                if self.bns[*x].n() != self.bns[*y].n() {
                    return Static;
                }
                t(self.bns[*x].val() == self.bns[*y].val())
            }
            IsEqual(x, y) => {
                if self.bns[*x].n() != self.bns[*y].n() {
                    return Static;
                }
                self.bits.push(self.bns[*x].val() == self.bns[*y].val());
                Holds
            }
            WellFormed(x) => t(self.bns[*x].canon()),
            Decompose(x) => t(self.bns[*x].canon()),
            FullBits(x) => {
                let m = &mut self.bns[*x];
                let top = m.limbs.last().unwrap().clone();
                m.min_bits = m.w * m.n();
                t(top.bits() as usize == m.w)
            }
            MinBits(x, k) => {
                let m = &mut self.bns[*x];
                let ok = m.canon() && m.val().bits() as usize >= *k;
                m.min_bits = *k;
                t(ok)
            }
            Concat(hi, lo) => {
                let (h, l) = (self.bns[*hi].clone(), self.bns[*lo].clone());
                let mut limbs = l.limbs.clone();
                limbs.extend(h.limbs.iter().cloned());
                let min_bits = if h.min_bits > 0 { h.min_bits + l.w * l.n() } else { l.min_bits };
                self.bns.push(BnM { w: h.w, limbs, mw: h.mw.clone().max(l.mw.clone()), min_bits });
                Holds
            }
            Trunc(x, n) => {
                let mut r = self.bns[*x].clone();
                r.limbs.truncate(*n);
                self.bns.push(r);
                Holds
            }
            Shift(x, c) => {
                let mut r = self.bns[*x].clone();
                r.limbs[0] += c;
                r.mw += c;
                self.bns.push(r);
                Holds
            }
            Scale(x, c) => {
                let mut r = self.bns[*x].clone();
                for l in r.limbs.iter_mut() {
                    *l *= c;
                }
                r.mw *= c;
                self.bns.push(r);
                Holds
            }
            Group(x, k) => {
                let a = self.bns[*x].clone();
                let mw = group_mw(&a, *k);
                let limbs = a.limbs.chunks(*k).map(|c| val_of(c, a.w)).collect();
                self.bns.push(BnM { w: a.w * k, limbs, mw, min_bits: a.min_bits });
                Holds
            }
            WithN(x, n) => {
                let mut r = self.bns[*x].clone();
                r.limbs.resize(*n, BigInt::zero());
                self.bns.push(r);
                Holds
            }
            ViaLimbs(x) => {
                let mut r = self.bns[*x].clone();
                r.mw = ones(r.w);
                r.min_bits = 0;
                self.bns.push(r);
                Holds
            }
            Recompose(x, w2) => {
                let a = self.bns[*x].clone();
                let nb = a.w * a.n();
                self.bns.push(canon_bn(*w2, (nb - 1) / w2 + 1, &a.val()));
                Holds
            }
            BvEdit { x, bits, edits, w } => {
                let v: Vec<bool> = match x {
                    Some(x) => {
                        let a = &self.bns[*x];
                        let v = a.val();
                        (0..a.w * a.n()).map(|i| v.bit(i as u64)).collect()
                    }
                    None => bits.iter().map(|b| self.bits[*b]).collect(),
                };
                let v = edited(v, edits, false, |b| self.bits[b]).unwrap();
                let mut r = BigInt::zero();
                for (i, b) in v.iter().enumerate() {
                    if *b {
                        r += pow2(i);
                    }
                }
                self.bns.push(canon_bn(*w, (v.len() - 1) / w + 1, &r));
                Holds
            }
            Min(x, y) => {
                let (a, b) = (self.bns[*x].clone(), self.bns[*y].clone());
                self.bns.push(canon_bn(a.w, a.n().max(b.n()), &a.val().min(b.val())));
                Holds
            }
            Mux(s, x, y) => {
                let (a, b) = (self.bns[*x].clone(), self.bns[*y].clone());
                let v = if self.bits[*s] { b.val() } else { a.val() };
                self.bns.push(canon_bn(a.w, a.n().max(b.n()), &v));
                Holds
            }
            Switch(s, x, y) => {
                let (a, b) = (self.bns[*x].clone(), self.bns[*y].clone());
                let n = a.n().max(b.n());
                let (u, v) = if self.bits[*s] { (b.val(), a.val()) } else { (a.val(), b.val()) };
                self.bns.push(canon_bn(a.w, n, &u));
                self.bns.push(canon_bn(a.w, n, &v));
                Holds
            }
            MuxTree(bs, xs) => {
                // the first bit is the highest order one
                let mut i = 0usize;
                for b in bs {
                    i = i * 2 + self.bits[*b] as usize;
                }
                let v = self.bns[xs[i]].val();
                let n = xs.iter().map(|x| self.bns[*x].n()).max().unwrap();
                let w = self.bns[xs[0]].w;
                let one = bs.is_empty();
                let r = if one { self.bns[xs[0]].clone() } else { canon_bn(w, n, &v) };
                self.bns.push(r);
                Holds
            }
            Inputize(..) | AsNums(_) => Holds,
            NumIn { v, .. } => {
                self.nums.push(v.clone());
                Holds
            }
            NumFits(x, k) => t(self.nums[*x] < pow2(*k)),
            NumDecompose(x, k) => t(self.nums[*x] < pow2(*k)),
            NumSapling(x) => {
                let v = self.nums[*x].clone();
                self.nums.push(v);
                Holds
            }
            NumEqBits(x, bs) => {
                let mut v = BigInt::zero();
                for (i, b) in bs.iter().enumerate() {
                    if *b {
                        v += pow2(i);
                    }
                }
                t(v == self.nums[*x])
            }
            Equals(x, y) => {
                self.bits.push(self.nums[*x] == self.nums[*y]);
                Holds
            }
            Less(x, y, _) => {
                self.bits.push(self.nums[*x] < self.nums[*y]);
                Holds
            }
            Leq(x, y, _) => {
                self.bits.push(self.nums[*x] <= self.nums[*y]);
                Holds
            }
            BitIn(b) | BitConst(b) => {
                self.bits.push(*b);
                Holds
            }
            BitNot(x) => {
                let b = !self.bits[*x];
                self.bits.push(b);
                Holds
            }
            BitForce(x, v) => t(self.bits[*x] == *v),
            Median { ts, claim } => {
                let mut s = ts.clone();
                s.sort();
                self.bits.push(s[s.len() / 2] == *claim);
                Holds
            }
            CalcDiff(old, t) => {
                let (old, t) = (self.nums[*old].clone(), self.nums[*t].clone());
                let inr = retarget_in_range(&t);
                let new = &old * &t / BigInt::from(TWO_WEEKS);
                self.bns.push(canon_bn(64, 6, &new));
                if inr {
                    Holds
                } else {
                    False
                }
            }
            VerifyDiff { new, old, t } => {
                let t = BigInt::from(*t);
                if retarget_in_range(&t) && old * &t / BigInt::from(TWO_WEEKS) == *new {
                    Holds
                } else {
                    False
                }
            }
        }
    }
}

pub fn retarget_in_range(t: &BigInt) -> bool {
    *t > BigInt::from(TWO_WEEKS / 4) && *t < BigInt::from(TWO_WEEKS * 4)
}

pub fn group_mw(a: &BnM, k: usize) -> BigInt {
    val_of(&vec![a.mw.clone(); k], a.w)
}

// ---------------------------------------------------------------------------------------------------
// Plan generation
// ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Add,
    Sub,
    Mult,
    MultMod,
    RedMod,
    ProdMod,
    Divides,
    Equal,
    EqCarried,
    EqRegroup,
    IsEqual,
    AssertEq,
    WellFormed,
    Decompose,
    FullBits,
    MinBits,
    Concat,
    Trunc,
    Shift,
    Scale,
    Group,
    WithN,
    ViaLimbs,
    Recompose,
    Min,
    Mux,
    Switch,
    MuxTree,
    BvEdit,
    Inputize,
    AsNums,
    FromNum,
    NumFits,
    NumDecompose,
    NumSapling,
    NumEqBits,
    Equals,
    Less,
    Leq,
    BitForce,
    Median,
    CalcDiff,
    VerifyDiff,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub f: FieldInfo,
    pub ops: Vec<Op>,
    pub truth: Truth,
    /// index of the first op whose statement does not hold
    pub bad_op: Option<usize>,
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub m: Model,
    pub ops: Vec<Op>,
    pub truth: Truth,
    pub bad_op: Option<usize>,
    /// may the generator create false statements?
    pub lies: bool,
    /// may it create unusable operands (zero modulus, oversize naturals)?
    pub unusable: bool,
    pub w: usize,
    pub small: bool,
    /// 0: numbers of everyday length; else how many limbs the longest ones have
    pub long: usize,
}

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, f: FieldInfo, lies: bool, unusable: bool, small: bool) -> Self {
        let cap = f.cap;
        let cands: Vec<usize> = [4usize, 8, 1, 2, 3, 5, 7, 13, 16, 17, 24, 28, 29, 31, 32, 33, 48, 60, 61, 63, 64, 65, 80, 96, 100, 112, 118, 120, 121, 122, 123, 124, 125]
            .iter()
            .cloned()
            .filter(|w| *w + 3 <= cap)
            .collect();
        let w = *t.pick(&cands);
        let long = if t.weighted(&[if small { 24 } else { 60 }, 1]) == 1 { t.range(6, if w <= 16 { 24 } else if w <= 64 { 14 } else { 9 }) } else { 0 };
        Gen { t, m: Model::new(f), ops: vec![], truth: Truth::Holds, bad_op: None, lies, unusable, w, small, long }
    }
    /// Appends an op if its precondition holds and its truth is allowed; returns whether it did.
    pub fn push(&mut self, op: Op) -> bool {
        if !self.m.pre(&op) {
            return false;
        }
        let save = self.m.clone();
        let t = self.m.apply(&op);
        let ok = match t {
            Truth::Holds => true,
            Truth::False => self.lies && self.truth == Truth::Holds,
            Truth::Unusable => self.unusable && self.truth == Truth::Holds,
            Truth::Static => false,
        };
        if !ok {
            self.m = save;
            return false;
        }
        if t != Truth::Holds {
            self.truth = t;
            self.bad_op = Some(self.ops.len());
        }
        self.ops.push(op);
        true
    }
    pub fn done(&self) -> bool {
        self.truth != Truth::Holds
    }
    /// A natural of at most `bits` bits, biased to boundaries.
    pub fn nat(&mut self, bits: usize) -> BigInt {
        if bits == 0 {
            return BigInt::zero();
        }
        match self.t.weighted(&[2, 2, 3, 2, 2, 6, 3, 2]) {
            0 => BigInt::zero(),
            1 => BigInt::one(),
            2 => ones(bits),
            3 => pow2(self.t.usize(bits)),
            4 => ones(self.t.usize(bits) + 1),
            5 => self.rand_nat(bits),
            6 => {
                // limb pattern
                let w = self.w.max(1);
                let n = (bits + w - 1) / w;
                let mut v = BigInt::zero();
                for i in 0..n {
                    let l = match self.t.usize(5) {
                        0 => BigInt::zero(),
                        1 => ones(w),
                        2 => BigInt::one(),
                        3 => pow2(w - 1),
                        _ => self.rand_nat(w),
                    };
                    v += l << (w * i);
                }
                v & ones(bits)
            }
            _ => {
                // around the field modulus
                let d = self.t.usize(5) as i64 - 2;
                let v = &self.m.f.p + d;
                if v.bits() as usize <= bits {
                    v
                } else {
                    let k = self.t.range(1, bits);
                    self.rand_nat(k)
                }
            }
        }
    }
    pub fn rand_nat(&mut self, bits: usize) -> BigInt {
        let mut v = BigInt::zero();
        let mut left = bits;
        while left > 0 {
            let k = left.min(64);
            let r = self.t.choose(0);
            let r = if k == 64 { r } else { r & ((1u64 << k) - 1) };
            v = (v << k) + r;
            left -= k;
        }
        v
    }
    /// How many limbs a number may have to still be an operand of something else.
    fn longest(&self) -> usize {
        if self.long > 0 {
            2 * self.long + 4
        } else {
            12
        }
    }
    pub fn n_limbs(&mut self) -> usize {
        if self.long > 0 {
            return if self.t.chance(1, 3) { self.t.range(1, 4) } else { self.t.range(self.long / 2, self.long) };
        }
        let big = if self.w <= 4 {
            7
        } else if self.w <= 16 {
            5
        } else {
            4
        };
        let big = if self.small { big.min(3) } else { big };
        self.t.range(1, big)
    }
    /// A canonical input of the plan's width.
    pub fn canon_in(&mut self, n: usize) -> usize {
        let w = self.w;
        let v = self.nat(w * n);
        self.canon_in_val(n, v)
    }
    pub fn canon_in_val(&mut self, n: usize, v: BigInt) -> usize {
        let w = self.w;
        let op = match self.t.weighted(&[6, 3, 2, 2, 1]) {
            0 => Op::InNat { w, n, v, wf: self.t.chance(1, 2) },
            1 => Op::InLimbs { w, limbs: limbs_of(&v, w, n), mw: None, wf: self.t.chance(1, 2) },
            2 => Op::InNums { w, limbs: limbs_of(&v, w, n) },
            3 if w * n <= 160 => {
                Op::InBits { w, bits: (0..w * n).map(|i| v.bit(i as u64)).collect() }
            }
            _ => {
                if v < self.m.f.p && w + 4 < self.m.f.cap {
                    if self.push(Op::NumIn { v: v.clone(), raw: false }) {
                        let num = self.m.nums.len() - 1;
                        if self.push(Op::FromNum { num, w, n }) {
                            return self.m.bns.len() - 1;
                        }
                    }
                }
                Op::InNat { w, n, v, wf: true }
            }
        };
        assert!(self.push(op.clone()), "canonical input rejected: {:?}", op);
        self.m.bns.len() - 1
    }
    /// A possibly uncarried input.
    pub fn wide_in(&mut self, n: usize, extra: usize) -> usize {
        let w = self.w;
        let mw = match self.t.usize(4) {
            0 => ones(w + extra),
            1 => pow2(w + extra),
            2 => pow2(w + extra) + self.t.usize(3),
            _ => self.rand_nat(w + extra) + 1,
        };
        let limbs = (0..n)
            .map(|_| match self.t.usize(4) {
                0 => BigInt::zero(),
                1 => mw.clone(),
                2 => BigInt::one().min(mw.clone()),
                _ => self.rand_nat(w + extra) % (&mw + 1),
            })
            .collect();
        let op = Op::InLimbs { w, limbs, mw: Some(mw), wf: false };
        if self.push(op) {
            self.m.bns.len() - 1
        } else {
            self.canon_in(n)
        }
    }
    /// An operand: an existing number of the plan's width, or a new input.
    pub fn operand(&mut self, canon: bool) -> usize {
        let (w, longest) = (self.w, self.longest());
        let c: Vec<usize> = (0..self.m.bns.len())
            .filter(|i| {
                let b = &self.m.bns[*i];
                b.w == w && b.n() <= longest && (!canon || b.mw <= ones(w))
            })
            .collect();
        if !c.is_empty() && self.t.chance(1, 2) {
            return *self.t.pick(&c);
        }
        if self.t.chance(1, 12) && self.push(Op::OneBn { w }) {
            return self.m.bns.len() - 1;
        }
        let n = self.n_limbs();
        if !canon && self.t.chance(1, 4) {
            let e = self.t.usize(6);
            self.wide_in(n, e)
        } else {
            self.canon_in(n)
        }
    }
    pub fn bit(&mut self) -> usize {
        if !self.m.bits.is_empty() && self.t.chance(1, 2) {
            return self.t.usize(self.m.bits.len());
        }
        let b = self.t.chance(1, 2);
        if self.t.chance(1, 8) {
            self.push(Op::BitConst(b));
        } else {
            self.push(Op::BitIn(b));
        }
        if self.t.chance(1, 4) {
            let i = self.m.bits.len() - 1;
            self.push(Op::BitNot(i));
        }
        self.m.bits.len() - 1
    }
    pub fn num_val(&mut self, v: BigInt) -> usize {
        let raw = self.t.chance(1, 2);
        assert!(self.push(Op::NumIn { v, raw }));
        self.m.nums.len() - 1
    }
    /// Another value that a faulty party might try to pass off as `v`.
    pub fn confuse(&mut self, v: &BigInt, bits: usize) -> BigInt {
        let p = self.m.f.p.clone();
        let w = self.w;
        let lim = pow2(bits);
        for _ in 0..6 {
            let c = match self.t.usize(9) {
                0 => v + 1,
                1 => v - 1,
                2 => v + &p,
                3 => v - &p,
                4 => v + (p.clone() << (w * self.t.usize(3))),
                5 => v ^ pow2(self.t.usize(bits.max(1))),
                6 => v + pow2(w * self.t.range(1, 3)),
                7 => v - (p.clone() << (w * self.t.usize(3))),
                _ => self.rand_nat(bits),
            };
            if c.sign() != Sign::Minus && c < lim && c != *v {
                return c;
            }
        }
        if v.is_zero() {
            BigInt::one()
        } else {
            v - 1
        }
    }
    /// A number representing the same value as `a` with limbs possibly uncarried and another limb count.
    pub fn rerepr(&mut self, v: &BigInt, n: usize, extra: usize) -> Option<usize> {
        let w = self.w;
        if v.bits() as usize > w * n + extra {
            return None;
        }
        let mw = ones(w) + (pow2(extra) - 1) * pow2(w);
        let mut limbs = limbs_of(v, w, n);
        let rest: BigInt = v >> (w * n);
        limbs[n - 1] += rest << w;
        // push some carries back down
        if extra > 0 {
            for i in (1..n).rev() {
                let room: BigInt = (&mw - &limbs[i - 1]) >> w;
                let k = limbs[i].clone().min(room);
                if k.sign() == Sign::Plus {
                    let take = match self.t.usize(3) {
                        0 => BigInt::zero(),
                        1 => k,
                        _ => k.min(BigInt::one()),
                    };
                    limbs[i] -= &take;
                    limbs[i - 1] += take << w;
                }
            }
        }
        if limbs.iter().any(|l| *l > mw) {
            return None;
        }
        if self.push(Op::InLimbs { w, limbs, mw: Some(mw), wf: false }) {
            Some(self.m.bns.len() - 1)
        } else {
            None
        }
    }
    pub fn lie(&mut self) -> bool {
        self.lies && !self.done() && self.t.chance(1, 2)
    }
    /// A modulus: an input, an existing number, or a number computed from inputs of known minimum size.
    fn modulus_in(&mut self, canon: bool) -> usize {
        let m = match self.t.weighted(&[6, 2, 1]) {
            0 => return self.modulus_fresh(),
            1 => self.modulus_derived(),
            _ => self.operand(canon),
        };
        let zero = self.m.bns[m].val().is_zero();
        let fits = if canon { self.m.bns[m].mw <= ones(self.w) } else { self.m.modulus_ok(&self.m.bns[m]) };
        if self.done() || self.m.bns[m].n() > self.longest().max(12) - 4 || !fits || (zero && !self.unusable) {
            return self.modulus_fresh();
        }
        m
    }
    /// A number all of whose limbs have the largest value they may have.
    fn largest(&mut self) -> usize {
        let (n, w) = (self.n_limbs(), self.w);
        let mw = match self.t.usize(3) {
            0 => ones(w),
            1 => ones(w + self.t.usize(6)),
            _ => ones(w) * (1 + self.t.usize(9)),
        };
        if self.push(Op::InLimbs { w, limbs: vec![mw.clone(); n], mw: Some(mw), wf: false }) {
            self.m.bns.len() - 1
        } else {
            self.canon_in_val(n, ones(w * n))
        }
    }
    /// A number computed from others at their largest, so that its limbs are as large as they may get.
    fn extreme(&mut self) -> usize {
        let a = self.largest();
        let w = self.w;
        let op = match self.t.usize(8) {
            0 | 1 | 2 => {
                let c = match self.t.usize(4) {
                    0 => pow2(self.t.range(1, w)),
                    1 => pow2(w) - 1,
                    2 => pow2(w) * (1 + self.t.usize(4)),
                    _ => BigInt::from(2 + self.t.usize(30)),
                };
                Op::Scale(a, c)
            }
            3 | 4 => {
                let b = self.largest();
                Op::Add(a, b)
            }
            5 => Op::Shift(a, BigInt::from(1 + self.t.usize(255))),
            6 => {
                let n = self.m.bns[a].n() + 1;
                Op::WithN(a, n)
            }
            _ => return a,
        };
        if !self.done() && self.push(op) {
            self.m.bns.len() - 1
        } else {
            a
        }
    }
    /// A number known to have `k` bits, and no larger than that makes it.
    fn smallest_of_size(&mut self) -> usize {
        let (n, w) = (self.n_limbs(), self.w);
        let k = match self.t.usize(4) {
            0 => w * n,
            1 => w * (n - 1) + 1,
            _ => self.t.range(1, w * n),
        };
        let m = self.canon_in_val(n, pow2(k - 1));
        if k == w * n && self.t.chance(1, 2) {
            self.push(Op::FullBits(m));
        } else {
            self.push(Op::MinBits(m, k));
        }
        m
    }
    fn smallest_modulus(&mut self) -> usize {
        let m = self.smallest_of_size();
        let op = match self.t.usize(10) {
            8 | 9 => {
                // chosen among two, one of which may be smaller than the other says
                let o = if self.t.chance(1, 2) {
                    self.smallest_of_size()
                } else {
                    let b = self.t.range(1, self.w);
                    self.canon_in_val(1, pow2(b - 1))
                };
                let (x, y) = if self.t.chance(1, 2) { (m, o) } else { (o, m) };
                if self.done() {
                    return m;
                }
                let s = self.bit();
                match self.t.usize(4) {
                    0 => Op::Switch(s, x, y),
                    1 => Op::MuxTree(vec![s], vec![x, y]),
                    2 => Op::Min(x, y),
                    _ => Op::Mux(s, x, y),
                }
            }
            0 | 1 => Op::Mult(m, self.smallest_of_size()),
            2 => {
                let o = if self.t.chance(1, 2) { self.smallest_of_size() } else { self.canon_in_val(1, BigInt::zero()) };
                if self.t.chance(1, 2) { Op::Add(m, o) } else { Op::Add(o, m) }
            }
            3 => {
                let z = self.canon_in_val(1, BigInt::zero());
                Op::Concat(m, z)
            }
            4 => {
                let z = self.canon_in_val(1, BigInt::zero());
                Op::Concat(z, m)
            }
            5 => Op::Scale(m, BigInt::one()),
            6 => Op::WithN(m, self.m.bns[m].n() + 1),
            _ => return m,
        };
        if self.push(op) {
            self.m.bns.len() - 1
        } else {
            m
        }
    }
    fn modulus_derived(&mut self) -> usize {
        let m = self.modulus_fresh();
        let k = self.t.usize(6);
        let op = match k {
            0 | 1 | 2 => {
                // another number, perhaps the smallest of its size
                let o = self.modulus_fresh();
                match k {
                    0 => Op::Add(m, o),
                    1 => Op::Mult(m, o),
                    _ => Op::Concat(o, m),
                }
            }
            3 => {
                let c = BigInt::from(2 + self.t.usize(15));
                Op::Scale(m, c)
            }
            4 => {
                let n = self.m.bns[m].n() + self.t.usize(3);
                Op::WithN(m, n)
            }
            _ => {
                let n = self.t.range(1, self.m.bns[m].n());
                Op::Trunc(m, n)
            }
        };
        if self.push(op) {
            self.m.bns.len() - 1
        } else {
            m
        }
    }
    fn modulus_fresh(&mut self) -> usize {
        let n = self.n_limbs();
        let w = self.w;
        let mut v = self.nat(w * n);
        if v.is_zero() && !(self.unusable && self.t.chance(1, 2)) {
            v = BigInt::one();
        }
        let m = self.canon_in_val(n, v.clone());
        if !v.is_zero() {
            match self.t.usize(4) {
                0 if v.bits() as usize == w * n => {
                    self.push(Op::FullBits(m));
                }
                1 => {
                    let b = v.bits() as usize;
                    let k = if self.t.chance(1, 2) { b } else { self.t.range(1, b) };
                    self.push(Op::MinBits(m, k));
                }
                _ => {}
            }
        }
        m
    }

    /// Generates one op of the given kind with suitable operands. Returns false if it did not fit.
    pub fn gen(&mut self, k: Kind) -> bool {
        use Kind as K;
        if self.done() {
            return false;
        }
        let cap = self.m.f.cap;
        match k {
            K::Add => {
                let (a, b) = (self.operand(false), self.operand(false));
                self.push(Op::Add(a, b))
            }
            K::Sub => {
                let a = if self.t.chance(1, 6) { self.extreme() } else { self.operand(false) };
                let b = if self.t.chance(1, 6) { self.extreme() } else { self.operand(false) };
                let lie = self.lie();
                let (a, b) = if (self.m.bns[a].val() >= self.m.bns[b].val()) != lie { (a, b) } else { (b, a) };
                self.push(Op::Sub(a, b))
            }
            K::Mult => {
                let a = if self.t.chance(1, 6) { self.extreme() } else { self.operand(false) };
                let b = if self.t.chance(1, 6) { self.extreme() } else { self.operand(false) };
                self.push(Op::Mult(a, b))
            }
            K::MultMod | K::RedMod => {
                // sometimes the largest operand against the smallest modulus of its declared size
                let tight = self.t.chance(1, 3);
                let a = if !tight { self.operand(false) } else if self.t.chance(1, 3) { self.extreme() } else { self.largest() };
                let b = match k {
                    K::RedMod => a,
                    _ if tight && self.t.chance(1, 2) => self.largest(),
                    _ => self.operand(false),
                };
                let m = if tight { self.smallest_modulus() } else { self.modulus_in(false) };
                if self.done() {
                    return false;
                }
                self.push(if k == K::RedMod { Op::RedMod(a, m) } else { Op::MultMod(a, b, m) })
            }
            K::ProdMod => {
                let (a, b) = (self.operand(true), self.operand(true));
                let m = self.modulus_in(true);
                if self.done() {
                    return false;
                }
                let mv = self.m.bns[m].val();
                let n = self.m.bns[m].n();
                let mut r = if mv.is_zero() { BigInt::zero() } else { self.m.bns[a].val() * self.m.bns[b].val() % &mv };
                if self.lie() {
                    let c = self.confuse(&r, self.w * n);
                    // a remainder of another class, or too large
                    r = c;
                }
                let r = self.canon_in_val(n, r);
                // r >= m with the same residue is not a true/false question for this gadget
                let rv = self.m.bns[r].val();
                if !mv.is_zero() && rv >= mv && (&rv - self.m.bns[a].val() * self.m.bns[b].val()).mod_floor(&mv).is_zero() {
                    return false;
                }
                !self.done() && self.push(Op::ProdMod(a, b, m, r))
            }
            K::Divides => {
                let n = self.n_limbs();
                let w = self.w;
                let mut d = self.nat(w * n);
                if d.is_zero() && !(self.unusable && self.t.chance(1, 2)) {
                    d = BigInt::one();
                }
                let nf = self.n_limbs();
                let f = self.nat(w * nf);
                let mut o = &d * f;
                let extra = self.t.usize(2);
                let no = ((o.bits() as usize + w - 1) / w).max(1) + extra;
                if no > self.longest().max(12) - 2 {
                    return false;
                }
                if self.lie() {
                    o = self.confuse(&o, w * no);
                }
                let a = self.canon_in_val(n, d);
                let b = self.canon_in_val(no, o);
                !self.done() && self.push(Op::Divides(a, b))
            }
            K::Equal | K::AssertEq | K::IsEqual => {
                let a = self.operand(true);
                let n = self.m.bns[a].n();
                let v = self.m.bns[a].val();
                let differ = match k {
                    K::IsEqual => self.t.chance(1, 2),
                    _ => self.lie(),
                };
                let n2 = if k == K::Equal { (n + self.t.usize(3)).saturating_sub(self.t.usize(2)).max(1) } else { n };
                let v2 = if differ { self.confuse(&v, self.w * n2) } else { v };
                if v2.bits() as usize > self.w * n2 {
                    return false;
                }
                let b = self.canon_in_val(n2, v2);
                if self.done() {
                    return false;
                }
                let (a, b) = if self.t.chance(1, 2) { (b, a) } else { (a, b) };
                self.push(match k {
                    K::Equal => Op::Equal(a, b),
                    K::AssertEq => Op::AssertEq(a, b),
                    _ => Op::IsEqual(a, b),
                })
            }
            K::EqCarried | K::EqRegroup => {
                let n = self.n_limbs();
                let room = cap.saturating_sub(self.w + 4);
                let e1 = self.t.usize(room.min(20) + 1);
                let a = match self.t.usize(8) {
                    0 | 1 => self.operand(false),
                    2 | 3 => self.extreme(),
                    _ => self.wide_in(n, e1),
                };
                let v = self.m.bns[a].val();
                let need = ((v.bits() as usize + self.w - 1) / self.w).max(1);
                let n2 = (need + self.t.usize(3)).saturating_sub(self.t.usize(2)).max(1);
                let e2 = if self.t.chance(1, 3) { 0 } else { self.t.usize(room.min(20) + 1) };
                let v2 = if self.lie() { self.confuse(&v, self.w * n2) } else { v };
                let b = match self.rerepr(&v2, n2, e2) {
                    Some(b) => b,
                    None => return false,
                };
                let (a, b) = if self.t.chance(1, 2) { (b, a) } else { (a, b) };
                let o = if k == K::EqCarried { Op::EqCarried(a, b) } else { Op::EqRegroup(a, b) };
                self.push(o)
            }
            K::WellFormed => {
                let a = if self.lie() {
                    let n = self.n_limbs();
                    self.wide_in(n, 1)
                } else {
                    self.operand(false)
                };
                self.push(Op::WellFormed(a))
            }
            K::Decompose => {
                let a = self.operand(true);
                self.push(Op::Decompose(a))
            }
            K::FullBits => {
                let n = self.n_limbs();
                let mut v = self.nat(self.w * n);
                if !self.lie() {
                    v |= pow2(self.w * n - 1);
                }
                let a = self.canon_in_val(n, v);
                !self.done() && self.push(Op::FullBits(a))
            }
            K::MinBits => {
                let n = self.n_limbs();
                let v = self.nat(self.w * n);
                let b = v.bits() as usize;
                let k = if self.lie() {
                    (b + 1 + self.t.usize(3)).min(self.w * n)
                } else if b == 0 {
                    return false;
                } else if self.t.chance(1, 2) {
                    b
                } else {
                    self.t.range(1, b)
                };
                let a = self.canon_in_val(n, v);
                !self.done() && self.push(Op::MinBits(a, k))
            }
            K::Concat => {
                let (a, b) = (self.operand(false), self.operand(false));
                if self.m.bns[a].n() + self.m.bns[b].n() > self.longest() {
                    return false;
                }
                self.push(Op::Concat(a, b))
            }
            K::Trunc => {
                let a = if self.t.chance(1, 3) { self.modulus_fresh() } else { self.operand(false) };
                if self.done() {
                    return false;
                }
                let n = self.t.range(1, self.m.bns[a].n());
                self.push(Op::Trunc(a, n))
            }
            K::Shift => {
                let a = self.operand(false);
                let c = match self.t.usize(4) {
                    0 => BigInt::one(),
                    1 => pow2(self.w),
                    2 => BigInt::zero(),
                    _ => { let w = self.w; self.rand_nat(w) },
                };
                self.push(Op::Shift(a, c))
            }
            K::Scale => {
                let a = self.operand(false);
                let c = match self.t.usize(5) {
                    0 => BigInt::one(),
                    1 => BigInt::from(2),
                    2 => BigInt::from(3 + self.t.usize(14)),
                    3 => BigInt::zero(),
                    _ => { let k = self.w.min(10); self.rand_nat(k) + 1 },
                };
                self.push(Op::Scale(a, c))
            }
            K::Group => {
                let a = self.operand(false);
                let k = self.t.range(1, 4);
                self.push(Op::Group(a, k))
            }
            K::WithN => {
                let a = self.operand(false);
                let n = self.m.bns[a].n() + self.t.usize(3);
                self.push(Op::WithN(a, n))
            }
            K::ViaLimbs => {
                let a = self.operand(true);
                self.push(Op::ViaLimbs(a))
            }
            K::Recompose => {
                let a = self.operand(true);
                let w2 = if self.t.chance(1, 2) { self.w } else { self.t.range(1, (cap - 4).min(70)) };
                self.push(Op::Recompose(a, w2))
            }
            K::Min => {
                let (a, b) = self.close_pair();
                self.push(Op::Min(a, b))
            }
            K::Mux => {
                let (a, b) = self.close_pair();
                let s = self.bit();
                self.push(Op::Mux(s, a, b))
            }
            K::Switch => {
                let (a, b) = self.close_pair();
                let s = self.bit();
                self.push(Op::Switch(s, a, b))
            }
            K::MuxTree => {
                let d = self.t.usize(4);
                let n = self.n_limbs().min(3);
                let xs: Vec<usize> = (0..1usize << d)
                    .map(|_| {
                        if self.t.chance(1, 4) {
                            let m = self.n_limbs().min(3);
                            self.canon_in(m)
                        } else {
                            self.canon_in(n)
                        }
                    })
                    .collect();
                let bs: Vec<usize> = (0..d).map(|_| self.bit()).collect();
                self.push(Op::MuxTree(bs, xs))
            }
            K::BvEdit => {
                let (x, bits, mut n) = if self.t.chance(1, 2) {
                    let m = self.n_limbs().min(3);
                    let x = self.canon_in(m);
                    (Some(x), vec![], self.m.bns[x].w * self.m.bns[x].n())
                } else {
                    let n = self.t.usize(12);
                    let bits: Vec<usize> = (0..n).map(|_| self.bit()).collect();
                    (None, bits, n)
                };
                let mut edits = vec![];
                for _ in 0..self.t.range(1, 7) {
                    let e = match self.t.usize(11) {
                        0 => Edit::Rev,
                        1 => Edit::Trunc(self.t.usize(n + 2)),
                        2 => Edit::Shr(self.t.usize(n + 1)),
                        3 => Edit::Shl(self.t.usize(20)),
                        4 if n > 0 => Edit::PopInsert(self.t.usize(n)),
                        5 => Edit::Pop,
                        6 => Edit::Push(self.bit()),
                        7 => Edit::Insert(self.t.usize(n + 1), self.bit()),
                        8 => {
                            let k = self.t.usize(5);
                            Edit::Append((0..k).map(|_| self.bit()).collect())
                        }
                        9 if n > 0 => Edit::GetPush(self.t.usize(n)),
                        _ => Edit::Split,
                    };
                    n = edited(vec![(); n], &[e.clone()], (), |_| ()).map(|v| v.len()).unwrap_or(0);
                    edits.push(e);
                }
                if n == 0 {
                    edits.push(Edit::Push(self.bit()));
                    n = 1;
                }
                let _ = n;
                let w = if self.t.chance(3, 4) { self.w } else { 1 + self.t.usize(60) };
                self.push(Op::BvEdit { x, bits, edits, w })
            }
            K::Inputize => {
                let a = self.operand(false);
                let g = self.t.chance(1, 2);
                self.push(Op::Inputize(a, g))
            }
            K::AsNums => {
                let a = self.operand(false);
                self.push(Op::AsNums(a))
            }
            K::FromNum => {
                let n = if self.t.chance(1, 3) { cap / self.w + 1 + self.t.usize(2) } else { self.n_limbs() };
                if n > 40 {
                    return false;
                }
                let bits = (self.w * n).min(cap + 1);
                let mut v = self.nat(bits);
                if self.lie() {
                    let b = bits + self.t.usize(3);
                    v = self.nat(b) | pow2(b);
                }
                let v = v % &self.m.f.p;
                let a = self.num_val(v);
                let w = self.w;
                self.push(Op::FromNum { num: a, w, n })
            }
            K::NumFits | K::NumDecompose => {
                let kbits = match self.t.usize(4) {
                    0 => self.t.usize(9),
                    1 => self.w.min(cap),
                    2 => self.t.usize(cap + 1),
                    _ => cap - self.t.usize(3),
                };
                let mut v = self.nat(kbits);
                if self.lie() {
                    v = match self.t.usize(4) {
                        0 => pow2(kbits),
                        1 => pow2(kbits) + self.nat(kbits),
                        2 => &self.m.f.p - 1 - self.nat(kbits.min(20)),
                        _ => self.rand_nat(cap),
                    };
                }
                let v = v % &self.m.f.p;
                let a = self.num_val(v);
                self.push(if k == K::NumFits { Op::NumFits(a, kbits) } else { Op::NumDecompose(a, kbits) })
            }
            K::NumSapling => {
                let v = self.nat(cap);
                let a = self.num_val(v);
                self.push(Op::NumSapling(a))
            }
            K::NumEqBits => {
                let kbits = self.t.usize(cap.min(70) + 1);
                let v = self.nat(kbits);
                let v2 = if self.lie() { self.confuse(&v, cap) } else { v.clone() };
                let a = self.num_val(v2 % self.m.f.p.clone());
                self.push(Op::NumEqBits(a, (0..kbits).map(|i| v.bit(i as u64)).collect()))
            }
            K::Equals => {
                let v = self.nat(cap);
                let v2 = if self.t.chance(1, 2) { self.confuse(&v, cap) } else { v.clone() };
                let (a, b) = (self.num_val(v), self.num_val(v2 % self.m.f.p.clone()));
                self.push(Op::Equals(a, b))
            }
            K::Less | K::Leq => {
                let max = cap - 1;
                let kb = match self.t.weighted(&[3, 2, 3, 4, 2]) {
                    0 => 32usize.min(max),
                    1 => self.t.range(1, 9),
                    2 => self.t.range(1, max),
                    3 => {
                        let base = *self.t.pick(&[64usize, 126, 127, 128, 129, 224, 252]);
                        base.min(max)
                    }
                    _ => max - self.t.usize(2),
                };
                let v = self.nat(kb);
                let lim = pow2(kb);
                let v2 = match self.t.usize(6) {
                    0 => v.clone(),
                    1 => &v + 1,
                    2 => if v.is_zero() { v.clone() } else { &v - 1u32 },
                    3 => self.nat(kb),
                    4 => v.clone() ^ pow2(self.t.usize(kb)),
                    _ => &lim - 1,
                };
                let v2 = if v2 < lim { v2 } else { v.clone() };
                let (a, b) = (self.num_val(v), self.num_val(v2));
                let (a, b) = if self.t.chance(1, 2) { (b, a) } else { (a, b) };
                self.push(if k == K::Less { Op::Less(a, b, kb) } else { Op::Leq(a, b, kb) })
            }
            K::BitForce => {
                let b = self.bit();
                let v = self.m.bits[b] != self.lie();
                self.push(Op::BitForce(b, v))
            }
            K::Median => {
                let (ts, claim) = crate::chain::window(self.t);
                self.push(Op::Median { ts, claim })
            }
            K::CalcDiff => {
                if cap < 250 {
                    return false;
                }
                let (old, t) = crate::chain::retarget_input(self.t, self.lies);
                let (a, b) = (self.num_val(old), self.num_val(BigInt::from(t)));
                self.push(Op::CalcDiff(a, b))
            }
            K::VerifyDiff => {
                if cap < 250 {
                    return false;
                }
                let (old, t) = crate::chain::retarget_input(self.t, self.lies);
                let mut new = &old * t / TWO_WEEKS;
                if self.lie() {
                    let c = self.confuse(&new, 240);
                    new = c;
                }
                self.push(Op::VerifyDiff { new, old, t })
            }
        }
    }
    /// Two canonical numbers, often close to each other.
    fn close_pair(&mut self) -> (usize, usize) {
        let (a, b) = self.close_pair_plain();
        if self.t.chance(1, 10) {
            // both padded with limbs nothing feeds
            let n = self.m.bns[a].n().max(self.m.bns[b].n()) + 1 + self.t.usize(2);
            if self.push(Op::WithN(a, n)) {
                let a2 = self.m.bns.len() - 1;
                if self.push(Op::WithN(b, n)) {
                    return (a2, self.m.bns.len() - 1);
                }
            }
        }
        (a, b)
    }
    fn close_pair_plain(&mut self) -> (usize, usize) {
        let a = self.operand(true);
        if self.t.chance(1, 2) {
            let v = self.m.bns[a].val();
            let n = (self.m.bns[a].n() + self.t.usize(2)).min(self.longest());
            let w = self.w;
            let v2 = if self.t.chance(1, 3) { v } else { self.confuse(&v, w * n) };
            let b = self.canon_in_val(n, v2);
            if self.t.chance(1, 2) {
                return (b, a);
            }
            return (a, b);
        }
        let b = self.operand(true);
        (a, b)
    }
    pub fn finish(self) -> Plan {
        Plan { f: self.m.f.clone(), ops: self.ops, truth: self.truth, bad_op: self.bad_op }
    }
}

pub fn u(x: &BigInt) -> usize {
    x.to_usize().unwrap()
}
