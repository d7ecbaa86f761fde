//! Misconfigured sessions: numbers sized with another limb width or limb count than the ones they are
//! combined with, while witnesses get lost, allocations are refused and attempts crash.
use crate::cs::{CsCfg, Loss, SimCrash, SimCs};
use crate::exec::Plain;
use crate::r1cs::first_unsat;
use crate::tape::{hash_str, Tape};
use crate::with_field;
use crate::world::*;
use bellpepper_core::{ConstraintSystem, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use validate_btc_header::mp::bignat::BigNat;
use validate_btc_header::util::bit::Bit;
use validate_btc_header::util::gadget::Gadget;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Which {
    Add,
    Sub,
    Mult,
    MultMod,
    RedMod,
    ProdMod,
    Divides,
    Equal,
    Carried,
    Regroup,
    IsEqual,
    AssertEqual,
    Concat,
    Mux,
    Switch,
    Tree,
    Min,
    PlainMux,
    PlainTree,
}
use Which::*;
const OPS: [Which; 19] =
    [Add, Sub, Mult, MultMod, RedMod, ProdMod, Divides, Equal, Carried, Regroup, IsEqual, AssertEqual, Concat, Mux, Switch, Tree, Min, PlainMux, PlainTree];
impl Which {
    /// How many numbers go in.
    fn takes(self) -> usize {
        match self {
            MultMod => 3,
            ProdMod => 4,
            Tree | PlainTree => 4,
            _ => 2,
        }
    }
    /// Operations that only work on numbers with equally many limbs.
    fn same_count(self) -> bool {
        matches!(self, IsEqual | AssertEqual | PlainMux | PlainTree)
    }
}

#[derive(Clone, Debug)]
struct Conf {
    op: Which,
    /// width and limb count of every number, and its value
    size: Vec<(usize, usize, BigInt)>,
    sel: Vec<bool>,
    /// inputs left out of a selection tree
    drop: usize,
    /// inputs too many for a selection tree
    more: usize,
    wrong: bool,
}

fn generate(t: &mut Tape) -> Conf {
    let op = *t.pick(&OPS);
    let w = t.range(4, 12);
    let n = t.range(2, 4);
    let (x, y) = (1 + t.usize(14), 1 + t.usize(14));
    let v: Vec<usize> = match op {
        Add | Mult | Concat | Mux | Switch | Min | PlainMux => vec![x, y],
        Sub => vec![x + y, y],
        Divides => vec![x, x * y],
        Equal | Carried | Regroup | IsEqual | AssertEqual => vec![x, x],
        RedMod => vec![x, y],
        MultMod => vec![x, y, 1 + t.usize(14)],
        ProdMod => {
            let m = 1 + t.usize(14);
            vec![x, y, m, x * y % m]
        }
        Tree | PlainTree => vec![x, y, 1 + t.usize(14), 1 + t.usize(14)],
    };
    let mut size: Vec<(usize, usize, BigInt)> = v.iter().map(|v| (w, n, BigInt::from(*v))).collect();
    let k = t.usize(op.takes());
    let mut wrong = true;
    let mut drop = 0;
    let mut more = 0;
    let bits = if matches!(op, Tree | PlainTree) { 2 } else { 1 };
    match t.weighted(&[2, 5, 2]) {
        0 => wrong = false,
        // wires have no width: only their number can disagree
        2 if op == PlainTree && t.chance(1, 2) => more = 1 + t.usize(4),
        2 if op == PlainTree => drop = 1 + t.usize(3),
        _ if matches!(op, AssertEqual | PlainMux | PlainTree) => size[k].1 = n + 1 + t.usize(2),
        2 if op.same_count() => size[k].1 = n + 1 + t.usize(2),
        2 if op == Tree && t.chance(1, 2) => more = 1 + t.usize(4),
        2 if op == Tree => drop = 1 + t.usize(3),
        _ => {
            // a width that is off by one or by more; twice as wide with half as many limbs
            match t.usize(3) {
                0 => size[k].0 = w + 1,
                1 => size[k].0 = w + 1 + t.usize(8),
                _ => {
                    size[k].0 = 2 * w;
                    if !op.same_count() {
                        size[k].1 = (n + 1) / 2;
                    }
                }
            }
        }
    }
    if !wrong && !op.same_count() && t.chance(1, 2) {
        // other limb counts are fine
        size[k].1 = n + t.usize(3);
    }
    let sel = (0..bits).map(|_| t.chance(1, 2)).collect();
    Conf { op, size, sel, drop, more, wrong }
}

fn build<F: PrimeField>(c: &Conf, cs: &mut SimCs<F>, known: bool) -> Result<(), SynthesisError> {
    let mut x = vec![];
    for (i, (w, n, v)) in c.size.iter().enumerate() {
        let b: BigNat<F> = BigNat::alloc_from_nat(
            cs.namespace(|| format!("number {}", i)),
            || if known { Ok(v.clone()) } else { Err(SynthesisError::AssignmentMissing) },
            *w,
            *n,
        )?;
        x.push(b);
    }
    let mut s = vec![];
    for (i, b) in c.sel.iter().enumerate() {
        s.push(Bit::<F>::alloc(cs.namespace(|| format!("selector {}", i)), if known { Some(*b) } else { None })?);
    }
    for i in 0..c.more {
        x.push(x[i].clone());
    }
    type C<F> = SimCs<F>;
    let mut cs = cs.namespace(|| "op");
    match c.op {
        Add => drop(x[0].add::<C<F>>(&x[1])?),
        Sub => drop(x[0].sub(&mut cs, &x[1])?),
        Mult => drop(x[0].mult(&mut cs, &x[1])?),
        MultMod => drop(x[0].mult_mod(&mut cs, &x[1], &x[2])?),
        RedMod => drop(x[0].red_mod(&mut cs, &x[1])?),
        ProdMod => drop(x[0].assert_product_mod(&mut cs, &x[1], &x[2], &x[3])?),
        Divides => x[0].divides(&mut cs, &x[1])?,
        Equal => x[0].equal(&mut cs, &x[1])?,
        Carried => x[0].equal_when_carried(&mut cs, &x[1])?,
        Regroup => x[0].equal_when_carried_regroup(&mut cs, &x[1])?,
        IsEqual => drop(x[0].is_equal(&mut cs, &x[1])?),
        AssertEqual => <BigNat<F> as Gadget>::assert_equal(&mut cs, &x[0], &x[1])?,
        PlainMux => drop(Plain::mux(&mut cs, &s[0], &Plain(x[0].clone()), &Plain(x[1].clone()))?),
        PlainTree => {
            let x: Vec<Plain<F>> = x.into_iter().map(Plain).collect();
            drop(Plain::mux_tree(&mut cs, s.iter(), &x[c.drop..])?)
        }
        Concat => drop(x[0].concat(&x[1])?),
        Mux => drop(<BigNat<F> as Gadget>::mux(&mut cs, &s[0], &x[0], &x[1])?),
        Switch => drop(<BigNat<F> as Gadget>::switch(&mut cs, &s[0], &x[0], &x[1])?),
        Tree => drop(<BigNat<F> as Gadget>::mux_tree(&mut cs, s.iter(), &x[c.drop..])?),
        Min => drop(x[0].min(&mut cs, &x[1])?),
    }
    Ok(())
}

pub fn c16(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::any(t);
    with_field!(f, F => c16_on::<F>(t, rep))
}
fn c16_on<F: PrimeField>(t: &mut Tape, rep: &mut Rep) {
    let c = generate(t);
    rep.sample = format!("{:?}", c);
    rep.nontrivial = c.wrong;
    rep.log_str(&rep.sample.clone());
    let mut shape = hash_str(&rep.sample);
    let n = t.range(1, 4);
    let mut size = 24;
    for a in 0..n + 1 {
        let mut cfg = CsCfg { lc_order: t.usize(6) as u8, notes: t.chance(1, 4), ..CsCfg::default() };
        let mut known = true;
        let last = a == n;
        if !last {
            match t.weighted(&[4, 2, 2, 1, 1]) {
                0 => {
                    known = false;
                    cfg.loss = Loss::From(0);
                }
                1 => cfg.refuse = Some((t.usize(size), t.chance(1, 2))),
                2 => cfg.crash = Some(t.usize(2 * size)),
                3 => cfg.loss = Loss::From(t.usize(size)),
                _ => {}
            }
        }
        shape = shape.rotate_left(9) ^ hash_str(&format!("{:?}", cfg));
        let mut cs: SimCs<F> = SimCs::with(cfg.clone());
        let r = catch_unwind(AssertUnwindSafe(|| build::<F>(&c, &mut cs, known)));
        let end = match r {
            Ok(Ok(())) => End::Ok,
            Ok(Err(e)) => End::Err(format!("{:?}", e)),
            Err(p) if p.is::<SimCrash>() => End::Crash,
            Err(_) => End::Panic(last_panic()),
        };
        size = size.max(cs.n_allocs);
        rep.st.add("attempts", 1);
        rep.st.add("back-end calls", cs.calls as u64);
        rep.log(end.tag());
        rep.log(cs.shape.get());
        let who = format!(
            "{:?} {} with {:?}",
            c.op,
            if known { "proved" } else { "set up without a witness" },
            (&cfg.loss, cfg.refuse, cfg.crash)
        );
        match end {
            End::Crash => rep.st.add("fired: crash", 1),
            End::Panic(m) => return rep.fail("a misconfigured session panics", format!("{}: {}", who, m)),
            End::Err(_) if cs.refused => rep.st.add("fired: refused allocation", 1),
            End::Err(_) if c.wrong => rep.st.add("fired: mismatched sizes", 1),
            // a witness lost midway may be missed by a later callback
            End::Err(_) if matches!(cfg.loss, Loss::From(_)) && known => {}
            End::Err(m) => return rep.fail("numbers that fit together were refused", format!("{}: {}", who, m)),
            End::Ok if cs.refused => return rep.fail("a refused allocation was not reported", who),
            End::Ok if c.wrong => return rep.fail("numbers of different shapes were combined", who),
            End::Ok if last => {
                let sat = cs.assignment().map(|x| first_unsat(&cs.cons, &x).is_none());
                if sat != Some(true) {
                    return rep.fail("numbers that fit together were refused", format!("{}: not satisfied", who));
                }
            }
            End::Ok => {}
        }
    }
    rep.shape = shape;
}
