//! One simulated world per property. Each takes only the choice tape.
use crate::cs::{CsCfg, Loss, SimCrash, SimCs};
use crate::exec::{Src, SrcFault};
use crate::fields::*;
use crate::model::Kind as K;
use crate::model::*;
use crate::sched::Sched;
use crate::tape::{hash_str, Digest, Tape};
use crate::with_field;
use crate::world::*;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::Zero;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

const ARITH: &[K] = &[K::Sub, K::Mult, K::MultMod, K::RedMod, K::Divides, K::ProdMod];
const PRODUCERS: &[K] = &[
    K::Add, K::Add, K::Concat, K::Trunc, K::Shift, K::Scale, K::Group, K::WithN, K::ViaLimbs, K::Mult, K::MinBits,
    K::Recompose,
    K::BvEdit,
];
const EQS: &[K] = &[K::Equal, K::EqCarried, K::EqCarried, K::EqRegroup, K::EqRegroup, K::IsEqual, K::AssertEq, K::Equals];
const RANGES: &[K] = &[
    K::WellFormed, K::Decompose, K::FullBits, K::MinBits, K::FromNum, K::FromNum, K::NumFits, K::NumFits,
    K::NumDecompose, K::NumEqBits, K::Recompose, K::NumSapling,
];
const EXPORT: &[K] = &[K::Inputize, K::Inputize, K::AsNums, K::NumSapling, K::ViaLimbs];
const SELECT: &[K] = &[K::Min, K::Min, K::Mux, K::Switch, K::MuxTree];
const ALL: &[K] = &[
    K::Add, K::Sub, K::Sub, K::Mult, K::MultMod, K::MultMod, K::RedMod, K::RedMod, K::ProdMod, K::Divides, K::Equal,
    K::EqCarried, K::EqCarried, K::EqRegroup, K::IsEqual, K::AssertEq, K::WellFormed, K::Decompose, K::FullBits, K::MinBits,
    K::Concat, K::Trunc, K::Shift, K::Scale, K::Group, K::WithN, K::ViaLimbs, K::Recompose, K::Min, K::Min, K::Mux, K::Switch,
    K::MuxTree, K::BvEdit, K::Inputize, K::AsNums, K::FromNum, K::NumFits, K::NumDecompose, K::NumSapling, K::NumEqBits,
    K::Equals, K::Less, K::Leq, K::BitForce, K::Median, K::CalcDiff, K::VerifyDiff,
];

fn gen_plan(t: &mut Tape, f: FieldInfo, pool: &[K], n_ops: usize, lies: bool, unusable: bool, small: bool) -> Plan {
    let mut g = Gen::new(t, f, lies, unusable, small);
    let mut made = 0;
    let mut tries = 0;
    while made < n_ops && tries < 4 * n_ops + 8 && !g.done() {
        tries += 1;
        let k = *g.t.pick(pool);
        if g.gen(k) {
            made += 1;
        }
    }
    g.finish()
}

/// A plan whose last op is one of `pool`, possibly after producers of its operands.
fn gen_focus(t: &mut Tape, f: FieldInfo, pool: &[K], pre: &[K], lies: bool) -> Plan {
    let mut g = Gen::new(t, f, false, false, true);
    if !pre.is_empty() {
        for _ in 0..g.t.weighted(&[5, 3, 2, 1]) {
            let k = *g.t.pick(pre);
            g.gen(k);
        }
    }
    g.lies = lies;
    for _ in 0..12 {
        let k = *g.t.pick(pool);
        if g.gen(k) {
            break;
        }
    }
    g.finish()
}

/// The same program with other witness values of the same sizes.
fn revalue(p: &Plan, t: &mut Tape) -> Plan {
    let mut q = p.clone();
    let rnd = |t: &mut Tape, bits: usize| -> BigInt {
        let mut v = BigInt::zero();
        let mut left = bits;
        while left > 0 {
            let k = left.min(64);
            let r = t.choose(0);
            v = (v << k) + if k == 64 { r } else { r & ((1 << k) - 1) };
            left -= k;
        }
        match t.usize(4) {
            0 => BigInt::zero(),
            1 => ones(bits),
            _ => v,
        }
    };
    for op in q.ops.iter_mut() {
        match op {
            Op::InNat { w, n, v, .. } => *v = rnd(t, *w * *n),
            Op::InLimbs { w, limbs, mw, .. } => {
                let m = mw.clone().unwrap_or_else(|| ones(*w));
                for l in limbs.iter_mut() {
                    *l = rnd(t, m.bits() as usize).min(m.clone());
                }
            }
            Op::InNums { w, limbs } => {
                for l in limbs.iter_mut() {
                    *l = rnd(t, *w);
                }
            }
            Op::InBits { bits, .. } => {
                for b in bits.iter_mut() {
                    *b = t.chance(1, 2);
                }
            }
            Op::NumIn { v, .. } => *v = rnd(t, p.f.cap),
            Op::BitIn(b) => *b = t.chance(1, 2),
            Op::NumEqBits(_, bs) => {
                for b in bs.iter_mut() {
                    *b = t.chance(1, 2);
                }
            }
            Op::Median { ts, claim } => {
                for x in ts.iter_mut() {
                    *x = t.choose(1 << 32) as u32;
                }
                *claim = t.choose(1 << 32) as u32;
            }
            Op::VerifyDiff { new, old, t: tt } => {
                *new = rnd(t, 224);
                *old = rnd(t, 224);
                *tt = t.choose(1 << 32) as u32;
            }
            _ => {}
        }
    }
    let mut m = Model::new(q.f.clone());
    q.truth = Truth::Holds;
    q.bad_op = None;
    for (i, op) in q.ops.iter().enumerate() {
        // with other values, an uncarried modulus may no longer be a permitted one
        let tr = if m.pre(op) { m.apply(op) } else { Truth::Unusable };
        if tr != Truth::Holds && q.truth == Truth::Holds {
            q.truth = tr;
            q.bad_op = Some(i);
            // later ops may depend on results that do not exist: keep the model consistent only up to here
            break;
        }
    }
    q
}

pub fn begin(rep: &mut Rep, p: &Plan) {
    rep.log(plan_digest(p));
    rep.shape = plan_digest(p);
    rep.sample = show(p);
}

pub fn fired(st: &mut Stats, cfg: &CsCfg, end: &End, src: &Src, refused: bool, evals: usize, allocs: usize) {
    if *end == End::Crash {
        st.add("fired: crash", 1);
    }
    if refused {
        st.add("fired: refused allocation", 1);
    }
    if src.fired.get() {
        st.add(&format!("fired: witness source {:?}", src.fault.map(|x| x.1).unwrap()), 1);
    }
    if cfg.loss != Loss::None && evals < allocs {
        st.add("fired: witness lost", 1);
    }
}

// ------------------------------------------------------------------------------------------------ C01

pub fn c01(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::any(t);
    let n = t.range(1, 5);
    let p = gen_plan(t, f.info(), ALL, n, true, true, false);
    begin(rep, &p);
    with_field!(f, F => c01_on::<F>(&p, t, rep));
}
fn c01_on<F: PrimeField>(p: &Plan, t: &mut Tape, rep: &mut Rep) {
    let mut c0 = CsCfg::default();
    c0.loss = Loss::From(0);
    let setup = attempt::<F>(p, c0.clone(), &Src::absent());
    rep.st.add("attempts", 1);
    rep.log(att_digest(&setup));
    match &setup.end {
        End::Ok => {}
        End::Err(e) => return rep.fail("setup without a witness failed", e.clone()),
        e => return rep.fail("setup without a witness panicked", format!("{:?}", e)),
    }
    if setup.cs.evals > 0 {
        return rep.fail("setup consulted a witness", format!("{} callbacks", setup.cs.evals));
    }
    rep.nontrivial = setup.cs.n_cons > 0;
    rep.st.add("back-end calls", setup.cs.calls as u64);
    let k = t.range(3, 6);
    let mut hist = vec![];
    for a in 0..k {
        let q;
        let pl = if t.chance(1, 2) {
            q = revalue(p, t);
            &q
        } else {
            p
        };
        let mut cfg = CsCfg::default();
        let mut fault = None;
        let mut known = true;
        match t.weighted(&[3, 2, 2, 3, 3]) {
            0 => {}
            1 => {
                cfg.loss = Loss::From(t.usize(setup.cs.n_allocs + 1));
                cfg.lenient = t.chance(2, 3);
            }
            2 => {
                cfg.loss = Loss::Subset(t.choose(0));
                cfg.lenient = t.chance(2, 3);
            }
            3 => {
                let x = faulty(t, setup.cs.n_allocs, setup.cs.calls, 4, &mut rep.st);
                cfg = x.0;
                fault = x.1;
            }
            _ => {
                cfg.loss = Loss::From(0);
                known = t.chance(1, 2);
            }
        }
        cfg.notes = t.chance(1, 3);
        cfg.lc_order = t.usize(6) as u8;
        if t.chance(1, 8) {
            cfg.wit_only = true;
        }
        let src = Src::new(known, fault);
        let att = attempt::<F>(pl, cfg.clone(), &src);
        fired(&mut rep.st, &cfg, &att.end, &src, att.cs.refused, att.cs.evals, att.cs.n_allocs);
        rep.st.add("attempts", 1);
        rep.st.add("back-end calls", att.cs.calls as u64);
        rep.log(att_digest(&att));
        let what = format!("attempt {} ({:?}, source {:?}, known {}): {:?}", a, cfg, fault, known, att.end);
        hist.push(att.end.tag());
        // a statement that is false or unusable may be given up with an error, but every call made
        // before that must be the setup's
        let (mine, theirs) = if cfg.wit_only {
            // no coefficients are seen: allocations only
            (vec![], vec![])
        } else {
            (att.cs.trail.clone(), setup.cs.trail.clone())
        };
        if !cfg.wit_only {
            let m = mine.len().min(theirs.len());
            if let Some(d) = (0..m).find(|i| mine[*i] != theirs[*i]) {
                return rep.fail("circuit shape differs from setup", format!("call {} differs; {}", d, what));
            }
            if mine.len() > theirs.len() {
                return rep.fail("circuit shape differs from setup", format!("{} calls instead of {}; {}", mine.len(), theirs.len(), what));
            }
        } else if att.end == End::Ok
            && (att.cs.alloc_shape.get() != setup.cs.alloc_shape.get() || att.cs.n_cons != setup.cs.n_cons)
        {
            return rep.fail("circuit shape differs from setup", format!("witness-only back-end; {}", what));
        }
        if att.cs.ns_bad {
            return rep.fail("namespaces unbalanced", what);
        }
        match &att.end {
            End::Ok => {
                if !cfg.wit_only && mine.len() != theirs.len() {
                    return rep.fail("circuit shape differs from setup", format!("{} calls instead of {}; {}", mine.len(), theirs.len(), what));
                }
            }
            End::Panic(_) if cfg.loss == Loss::From(0) => {
                return rep.fail("building without a witness panicked", what)
            }
            End::Err(_) if cfg.loss == Loss::From(0) && cfg.refuse.is_none() => {
                return rep.fail("building without a witness failed", what)
            }
            End::Err(_) if pl.truth == Truth::Holds && cfg.loss == Loss::None && fault.is_none() && cfg.refuse.is_none() => {
                return rep.fail("an intact attempt did not build the circuit", what)
            }
            End::Panic(_) => {
                // lost or unusable witness: neither may bring the builder down
                if cfg.loss != Loss::None || fault.is_none() {
                    return rep.fail("building with a lost or false witness panicked", what);
                }
            }
            _ => {}
        }
    }
    for h in hist {
        rep.shape = rep.shape.rotate_left(3) ^ h;
    }
    // the back-ends people use
    if t.chance(1, 4) {
        real_backends::<F>(p, &setup.cs, rep);
    }
}

fn real_backends<F: PrimeField>(p: &Plan, setup: &SimCs<F>, rep: &mut Rep) {
    use bellpepper::util_cs::bench_cs::BenchCS;
    use bellpepper::util_cs::metric_cs::MetricCS;
    use bellpepper::util_cs::witness_cs::WitnessCS;
    use bellpepper_core::test_cs::TestConstraintSystem;
    let n_in = setup.is_input.iter().filter(|x| **x).count();
    let mut cs = BenchCS::<F>::new();
    let r = catch_unwind(AssertUnwindSafe(|| crate::exec::run::<F, _>(p, &mut cs, &Src::absent())));
    rep.st.add("real back-end runs", 1);
    match r {
        Ok(Ok(_)) => {
            if cs.num_constraints() != setup.n_cons || cs.num_inputs() != n_in {
                rep.fail("counting back-end sees another circuit", format!("{} constraints", cs.num_constraints()));
            }
        }
        Ok(Err(e)) => rep.fail("counting back-end failed", format!("{:?}", e)),
        Err(_) => rep.fail("counting back-end panicked", last_panic()),
    }
    let mut cs = MetricCS::<F>::new();
    let r = catch_unwind(AssertUnwindSafe(|| crate::exec::run::<F, _>(p, &mut cs, &Src::absent())));
    rep.st.add("real back-end runs", 1);
    match r {
        Ok(Ok(_)) => {
            if cs.num_constraints() != setup.n_cons || cs.num_inputs() != n_in {
                rep.fail("metric back-end sees another circuit", format!("{} constraints", cs.num_constraints()));
            }
        }
        Ok(Err(e)) => rep.fail("metric back-end failed", format!("{:?}", e)),
        Err(_) => rep.fail("metric back-end panicked", last_panic()),
    }
    if p.truth == Truth::Holds {
        let mut cs = TestConstraintSystem::<F>::new();
        let r = catch_unwind(AssertUnwindSafe(|| crate::exec::run::<F, _>(p, &mut cs, &Src::honest())));
        rep.st.add("real back-end runs", 1);
        match r {
            Ok(Ok(_)) => {
                if cs.num_constraints() != setup.n_cons || cs.num_inputs() != n_in {
                    rep.fail("test back-end sees another circuit", format!("{} constraints", cs.num_constraints()));
                } else if !cs.is_satisfied() {
                    rep.fail("test back-end unsatisfied", format!("{:?}", cs.which_is_unsatisfied()));
                }
            }
            Ok(Err(e)) => rep.fail("test back-end failed", format!("{:?}", e)),
            Err(_) => rep.fail("test back-end panicked", last_panic()),
        }
        let mut cs = WitnessCS::<F>::with_capacity(1, 0);
        let r = catch_unwind(AssertUnwindSafe(|| crate::exec::run::<F, _>(p, &mut cs, &Src::honest())));
        rep.st.add("real back-end runs", 1);
        match r {
            Ok(Ok(_)) => {
                let n_aux = setup.vals.len() - n_in;
                if cs.aux_assignment().len() != n_aux || cs.input_assignment().len() != n_in {
                    rep.fail("witness back-end sees another circuit", format!("{} aux", cs.aux_assignment().len()));
                    return;
                }
                // the witness generator's assignment satisfies the setup's constraints
                let (mut i, mut a) = (0, 0);
                let mut x = vec![];
                for inp in &setup.is_input {
                    if *inp {
                        x.push(cs.input_assignment()[i]);
                        i += 1;
                    } else {
                        x.push(cs.aux_assignment()[a]);
                        a += 1;
                    }
                }
                if let Some(k) = crate::r1cs::first_unsat(&setup.cons, &x) {
                    rep.fail("witness back-end's witness does not satisfy the setup", format!("constraint {}", k));
                }
            }
            Ok(Err(e)) => rep.fail("witness back-end failed", format!("{:?}", e)),
            Err(_) => rep.fail("witness back-end panicked", last_panic()),
        }
    }
}

// ------------------------------------------------------------------------------------------------ C02

pub fn c02(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::any(t);
    let n = t.range(1, 4);
    let (lies, unus) = match t.usize(4) {
        0 => (true, false),
        1 | 2 => (false, true),
        _ => (false, false),
    };
    let mut p = if unus && t.chance(2, 3) {
        let mut g = Gen::new(t, f.info(), false, true, false);
        for _ in 0..12 {
            let k = *g.t.pick(&[K::MultMod, K::RedMod, K::ProdMod, K::Divides]);
            if g.gen(k) {
                break;
            }
        }
        g.finish()
    } else {
        gen_plan(t, f.info(), ALL, n, lies, unus, false)
    };
    // a mismatch of sizes is unusable too
    if p.truth == Truth::Holds && t.chance(1, 8) {
        let mut g = Gen::new(t, f.info(), false, false, true);
        let (w, n) = (g.w, g.n_limbs());
        let a = g.canon_in(n);
        let b = g.canon_in(n + 1);
        let mut ops = g.ops.clone();
        let st = match t.usize(3) {
            0 => Op::AssertEq(a, b),
            1 => Op::IsEqual(a, b),
            _ => {
                ops.push(Op::InNat { w: w + 1, n, v: BigInt::zero(), wf: false });
                let c = b + 1;
                match t.usize(6) {
                    0 => Op::Equal(a, c),
                    1 => Op::Mult(a, c),
                    2 => Op::Add(a, c),
                    3 => Op::EqCarried(c, a),
                    4 => Op::Concat(a, c),
                    _ => Op::Mux(0, a, c),
                }
            }
        };
        if let Op::Mux(..) = st {
            ops.push(Op::BitIn(true));
        }
        // indices of the numbers are positions of their inputs only if every input made exactly one
        let bad = ops.len();
        ops.push(st);
        p = Plan { f: f.info(), ops, truth: Truth::Static, bad_op: Some(bad) };
    }
    begin(rep, &p);
    with_field!(f, F => c02_on::<F>(&p, t, rep));
}
fn c02_on<F: PrimeField>(p: &Plan, t: &mut Tape, rep: &mut Rep) {
    let mut c0 = CsCfg::default();
    if p.truth == Truth::Static {
        for known in [true, false] {
            c0.loss = if known { Loss::None } else { Loss::From(0) };
            let a = attempt::<F>(p, c0.clone(), &Src::new(known, None));
            rep.st.add("attempts", 1);
            rep.st.add("unusable: sizes disagree", 1);
            rep.log(att_digest(&a));
            rep.nontrivial = true;
            match &a.end {
                End::Err(_) => {}
                e => return rep.fail("sizes that disagree were not refused", format!("{:?}", e)),
            }
        }
        return;
    }
    c0.keep = true;
    let base = attempt::<F>(p, c0.clone(), &Src::honest());
    rep.st.add("attempts", 1);
    rep.log(att_digest(&base));
    match (&p.truth, &base.end) {
        (_, End::Panic(e)) => return rep.fail("panic on a witness", format!("{:?}: {}", p.truth, e)),
        (Truth::Unusable, End::Ok) => return rep.fail("unusable data not reported", "success".into()),
        (Truth::Unusable, _) => {
            rep.st.add("unusable: refused", 1);
            rep.nontrivial = true;
        }
        (Truth::False, End::Ok) => {
            // an error is not required here, but the result must not be acceptable
            if let Ok(_) = check_sat(&base.cs, &base) {
                return rep.fail("unusable data accepted", "the circuit is satisfied by a false statement".into());
            }
            rep.st.add("false: unsatisfied", 1);
        }
        (Truth::Holds, End::Err(e)) => return rep.fail("an intact attempt failed", e.clone()),
        _ => {}
    }
    if p.truth != Truth::Holds {
        return;
    }
    let srcs = {
        let s = Src::honest();
        let _ = attempt::<F>(p, c0.clone(), &s);
        let k = s.kinds.borrow().clone();
        k
    };
    let k = t.range(3, 8);
    for _ in 0..k {
        let mut cfg = CsCfg::default();
        let mut fault = None;
        match t.weighted(&[3, 2]) {
            0 => {
                cfg.refuse = Some((t.usize(base.cs.n_allocs.max(1)), t.chance(1, 2)));
            }
            _ => {
                if srcs.is_empty() {
                    continue;
                }
                let i = t.usize(srcs.len());
                let fs: &[SrcFault] = match srcs[i] {
                    0 => &[SrcFault::Missing, SrcFault::Io, SrcFault::TooBig],
                    1 => &[SrcFault::Missing, SrcFault::Io, SrcFault::Short, SrcFault::Long, SrcFault::Empty],
                    _ => &[SrcFault::Missing, SrcFault::Io],
                };
                fault = Some((i, *t.pick(fs)));
            }
        }
        cfg.notes = t.chance(1, 4);
        cfg.wit_only = t.chance(1, 6);
        if t.chance(1, 4) {
            // the source that fails may first be asked by any of the callbacks
            cfg.loss = Loss::Subset(t.choose(0));
        }
        let src = Src::new(true, fault);
        let a = attempt::<F>(p, cfg.clone(), &src);
        rep.st.add("attempts", 1);
        rep.st.add("back-end calls", a.cs.calls as u64);
        fired(&mut rep.st, &cfg, &a.end, &src, a.cs.refused, a.cs.evals, a.cs.n_allocs);
        rep.log(att_digest(&a));
        let hit = a.cs.refused || src.fired.get();
        if !hit {
            continue;
        }
        rep.nontrivial = true;
        rep.shape ^= hash_str(&format!("{:?}{:?}", cfg.refuse, fault));
        let what = format!("refused {:?}, source {:?}: {:?}", cfg.refuse, fault, a.end);
        match &a.end {
            End::Err(_) => {}
            End::Ok => return rep.fail("a failure was reported as success", what),
            End::Panic(m) => {
                return rep.fail("a failure became a panic", format!("{}: {}", what, m));
            }
            End::Crash => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------ C03

pub fn c03(t: &mut Tape, rep: &mut Rep) {
    if t.chance(1, 2) {
        return c03_lazy(t, rep);
    }
    let f = Fld::any(t);
    with_field!(f, F => c03_alloc::<F>(f.info().name, t, rep));
}

fn c03_alloc<F: PrimeField>(fname: &str, t: &mut Tape, rep: &mut Rep) {
    use validate_btc_header::mp::bignat::BigNat;
    use validate_btc_header::util::num::Num;
    let cap = F::CAPACITY as usize;
    let w = t.range(1, (cap - 1).min(70));
    let n = t.range(1, 6);
    let kind = t.usize(4);
    // the answers the source would give, one per consultation
    let answers: Vec<BigInt> = (0..8)
        .map(|_| {
            let mut v = BigInt::zero();
            for _ in 0..(w * n + 63) / 64 {
                v = (v << 64usize) + t.choose(0);
            }
            v & ones(w * n)
        })
        .collect();
    let mode = t.weighted(&[6, 2, 2, 1]);
    let mut cfg = CsCfg::default();
    match t.usize(4) {
        0 => {}
        1 => cfg.loss = Loss::From(t.usize(n + 1)),
        _ => cfg.loss = Loss::Subset(t.choose(0)),
    }
    cfg.notes = t.chance(1, 3);
    cfg.lenient = t.chance(1, 2);
    if t.chance(1, 4) {
        cfg.refuse = Some((t.usize(n), t.chance(1, 2)));
        cfg.lenient = false;
    }
    let desc = format!("over {}: kind {} w {} n {} mode {} {:?}", fname, kind, w, n, mode, cfg);
    rep.log_str(&desc);
    rep.shape = hash_str(&desc);
    rep.sample = desc;
    let cnt = Cell::new(0usize);
    let ask = || -> Result<BigInt, SynthesisError> {
        let i = cnt.get();
        cnt.set(i + 1);
        match mode {
            1 if i == 0 => Err(SynthesisError::AssignmentMissing),
            2 if i == 0 => std::panic::panic_any(SimCrash),
            3 if i == 0 => Err(SynthesisError::IoError(std::io::Error::new(std::io::ErrorKind::Other, "io"))),
            _ => Ok(answers[i.min(7)].clone()),
        }
    };
    let mut cs: SimCs<F> = SimCs::with(cfg);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(Option<BigInt>, Option<Vec<F>>, Vec<LinearCombination<F>>), SynthesisError> {
        let lim = |v: BigInt| -> Vec<F> { limbs_of(&v, w, n).iter().map(n2f).collect() };
        match kind {
            0 => {
                let b = BigNat::<F>::alloc_from_nat(cs.namespace(|| "x"), || ask(), w, n)?;
                Ok((b.value, b.limb_values, b.limbs))
            }
            1 => {
                let b = BigNat::<F>::alloc_from_limbs(cs.namespace(|| "x"), || Ok(lim(ask()?)), None, w, n)?;
                Ok((b.value, b.limb_values, b.limbs))
            }
            2 => {
                let x = Num::<F>::alloc(cs.namespace(|| "x"), || Ok(lim(ask()?)[0]))?;
                Ok((x.value.as_ref().map(f2n), x.value.map(|v| vec![v]), vec![x.num]))
            }
            _ => {
                // an allocation followed by gadgets that read it again
                let b = BigNat::<F>::alloc_from_nat(cs.namespace(|| "x"), || ask(), w, n)?;
                b.assert_well_formed(cs.namespace(|| "wf"))?;
                let _ = b.decompose(cs.namespace(|| "d"))?;
                Ok((b.value, b.limb_values, b.limbs))
            }
        }
    }));
    rep.st.add("attempts", 1);
    rep.st.add("back-end calls", cs.calls as u64);
    rep.log(cs.evals as u64);
    rep.log(cnt.get() as u64);
    rep.nontrivial = cs.evals > 1;
    if mode > 0 && cnt.get() > 0 {
        rep.st.add(["", "fired: source failed", "fired: crash in source", "fired: source io error"][mode], 1);
    }
    if cnt.get() > 1 {
        return rep.fail("source consulted more than once", format!("{} times", cnt.get()));
    }
    let snap = limbs_of(&answers[0], w, n);
    let nl = if kind == 2 { 1 } else { n };
    // limbs handed to the back-end
    let ok = mode == 0;
    let got: Vec<Option<F>> = cs.vals.iter().skip(1).take(nl).cloned().collect();
    for (i, g) in got.iter().enumerate() {
        if let Some(g) = g {
            if ok && cnt.get() == 1 {
                if *g != n2f::<F>(&snap[i]) {
                    return rep.fail("limb not from the snapshot", format!("limb {}", i));
                }
            } else if !bool::from(g.is_zero()) || (!ok && !cs.failed.contains(&(i as u32 + 1))) {
                return rep.fail("value without a source", format!("limb {}", i));
            }
        }
    }
    if let Ok(Ok((v, lv, _))) = &r {
        if cnt.get() == 0 && (v.is_some() || lv.is_some()) {
            return rep.fail("value without a source", "the source was never consulted".into());
        }
        if let Some(v) = v {
            let e = if kind == 2 { snap[0].clone() } else { answers[0].clone() };
            if !ok || *v != e {
                return rep.fail("reported value is not the snapshot", format!("{}", v));
            }
        }
        if let Some(lv) = lv {
            if lv.len() != nl {
                return rep.fail("reported limbs are partial", format!("{} of {}", lv.len(), nl));
            }
            for (i, l) in lv.iter().enumerate() {
                if !ok || *l != n2f::<F>(&snap[i]) {
                    return rep.fail("reported limb is not from the snapshot", format!("limb {}", i));
                }
            }
        }
    }
    if let Err(e) = &r {
        if !e.is::<SimCrash>() && !(mode == 2 && cnt.get() > 0) {
            return rep.fail("panic while reading a source", last_panic());
        }
    }
}

/// Handles sharing one lazy value, driven by an arbitrary order of reads.
fn c03_lazy(t: &mut Tape, rep: &mut Rep) {
    use validate_btc_header::util::lazy::LazyCell;
    let runs = Cell::new(0u32);
    let crash = t.chance(1, 4);
    let base = t.choose(1 << 40);
    let f = || -> u64 {
        let k = runs.get();
        runs.set(k + 1);
        if crash && k == 0 {
            std::panic::panic_any(SimCrash);
        }
        base + k as u64
    };
    let preset = t.chance(1, 6);
    let first = if preset { LazyCell::from(base) } else { LazyCell::new(&f) };
    let mut hs = vec![first];
    let steps = t.range(2, 14);
    let mut log = vec![];
    let mut crashed = false;
    let mut seen = 0;
    // overlapping reads: borrows held by earlier steps
    let cells: Vec<LazyCell<u64, &dyn Fn() -> u64>> = vec![];
    drop(cells);
    fn play<'a, F2: Fn() -> u64>(
        hs: &'a [validate_btc_header::util::lazy::LazyCell<u64, F2>],
        plan: &[(usize, usize)],
        base: u64,
        crashed: &mut bool,
        seen: &mut u64,
        log: &mut Vec<u64>,
    ) -> Option<(String, String)> {
        let mut held: Vec<std::cell::Ref<'a, u64>> = vec![];
        for (op, h) in plan {
            match op {
                0 | 1 => {
                    let r = catch_unwind(AssertUnwindSafe(|| hs[*h].borrow()));
                    match r {
                        Ok(v) => {
                            *seen += 1;
                            log.push(*v);
                            if *crashed {
                                return Some(("value after a crashed computation".into(), format!("{}", *v)));
                            }
                            if *v != base {
                                return Some(("handles see different values".into(), format!("{} instead of {}", *v, base)));
                            }
                            if *op == 1 {
                                held.push(v);
                            }
                        }
                        Err(e) => {
                            log.push(7);
                            if e.is::<SimCrash>() {
                                *crashed = true;
                            } else if !*crashed {
                                return Some((
                                    "a read panicked".into(),
                                    format!("{} with {} reads outstanding", last_panic(), held.len()),
                                ));
                            }
                        }
                    }
                }
                _ => {
                    held.pop();
                }
            }
            if held.iter().any(|v| **v != base) {
                return Some(("a held read changed".into(), String::new()));
            }
        }
        None
    }
    // rounds of cloning handles and reading through all of them
    for _ in 0..t.range(1, 3) {
        for _ in 0..t.usize(3) {
            let i = t.usize(hs.len());
            let c = hs[i].clone();
            hs.push(c);
        }
        if hs.len() > 1 && t.chance(1, 4) {
            let i = t.usize(hs.len());
            hs.remove(i);
        }
        let plan: Vec<(usize, usize)> = (0..steps).map(|_| (t.usize(3), t.usize(hs.len()))).collect();
        let d = format!("{:?} handles {}", plan, hs.len());
        rep.log_str(&d);
        rep.shape ^= hash_str(&d);
        if rep.sample.is_empty() {
            rep.sample = format!("lazy value, crash {}, preset {}, {}", crash, preset, d);
        }
        if let Some((c, d)) = play(&hs, &plan, base, &mut crashed, &mut seen, &mut log) {
            return rep.fail(&c, d);
        }
    }
    for l in &log {
        rep.log(*l);
    }
    rep.st.add("lazy reads", log.len() as u64);
    rep.st.add("attempts", 1);
    if crashed {
        rep.st.add("fired: crash in lazy computation", 1);
    }
    rep.nontrivial = log.len() > 1;
    if runs.get() > 1 {
        return rep.fail("computation ran more than once", format!("{} times", runs.get()));
    }
    if preset && runs.get() > 0 {
        return rep.fail("computation ran for a preset value", String::new());
    }
}

// ------------------------------------------------------------------------------------------------ C04

pub fn c04(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::any(t);
    let n = t.range(1, 6);
    let p = gen_plan(t, f.info(), ALL, n, false, false, false);
    begin(rep, &p);
    with_field!(f, F => c04_on::<F>(&p, t, rep));
}
fn c04_on<F: PrimeField>(p: &Plan, t: &mut Tape, rep: &mut Rep) {
    let mut c0 = CsCfg::default();
    c0.loss = Loss::From(0);
    let setup = attempt::<F>(p, c0, &Src::absent());
    rep.log(att_digest(&setup));
    let usable_setup = setup.end == End::Ok;
    if !usable_setup {
        return rep.fail("the setup did not complete", format!("{:?}", setup.end));
    }
    for _ in 0..t.usize(4) {
        let (mut cfg, fault) = faulty(t, setup.cs.n_allocs, setup.cs.calls, 3, &mut rep.st);
        cfg.keep = false;
        let src = Src::new(true, fault);
        let a = attempt::<F>(p, cfg.clone(), &src);
        fired(&mut rep.st, &cfg, &a.end, &src, a.cs.refused, a.cs.evals, a.cs.n_allocs);
        rep.log(att_digest(&a));
        rep.st.add("attempts", 1);
        rep.st.add("back-end calls", a.cs.calls as u64);
        rep.shape = rep.shape.rotate_left(5) ^ a.end.tag();
    }
    let mut cfg = CsCfg::default();
    cfg.notes = t.chance(1, 4);
    cfg.lc_order = t.usize(6) as u8;
    cfg.wit_only = t.chance(1, 6);
    let a = attempt::<F>(p, cfg, &Src::honest());
    rep.log(att_digest(&a));
    rep.st.add("attempts", 1);
    rep.st.add("back-end calls", a.cs.calls as u64);
    rep.nontrivial = setup.cs.n_cons > 0;
    match &a.end {
        End::Ok => {}
        e => return rep.fail("an intact attempt did not complete", format!("{:?}", e)),
    }
    let d = a.done.as_ref().unwrap();
    if let Some(m) = check_claims(d) {
        return rep.fail("reported result is not exact", m);
    }
    let x = match check_sat(&setup.cs, &a) {
        Ok(x) => x,
        Err(e) => return rep.fail("the setup's circuit is not satisfied", e),
    };
    if let Some(m) = check_outs(&a.cs, d, &x) {
        return rep.fail("constrained result is not exact", m);
    }
    rep.st.add("intact attempts completed", 1);
    if t.chance(1, 5) {
        real_backends::<F>(p, &setup.cs, rep);
    }
}

// ------------------------------------------------------------------------------------------------ C05

#[derive(Clone)]
struct Sess {
    f: Fld,
    p: Plan,
    cfg: CsCfg,
    fault: Option<(usize, SrcFault)>,
}
type Hooks = Vec<(usize, Box<dyn FnOnce() + Send>)>;
fn sess_digest(s: &Sess, ctl: Option<Arc<crate::sched::TaskCtl>>, nested: Option<(usize, Box<dyn FnOnce()>)>) -> u64 {
    sess_hooked(s, ctl, nested, vec![])
}
/// The sessions of a group share one thread: each is suspended at a call of its own while the next one
/// runs, from its start to its end.
fn sess_stacked(ss: Vec<(Sess, Vec<usize>)>, out: Arc<Mutex<Vec<(usize, u64)>>>, i: usize, t: Option<Arc<crate::sched::TaskCtl>>) {
    let (s, at) = ss[i].clone();
    let mut hooks: Hooks = vec![];
    // split the later sessions between the suspension points
    let rest: Vec<usize> = (i + 1..ss.len()).collect();
    if at.len() == 1 && !rest.is_empty() {
        let (ss, out) = (ss.clone(), out.clone());
        hooks.push((at[0], Box::new(move || sess_stacked(ss, out, i + 1, None))));
    } else if i == 0 {
        for (a, j) in at.iter().zip(rest) {
            let (one, out) = (ss[j].clone(), out.clone());
            hooks.push((*a, Box::new(move || {
                let d = sess_hooked(&one.0, None, None, vec![]);
                out.lock().unwrap().push((j, d));
            })));
        }
    }
    let d = sess_hooked(&s, t, None, hooks);
    out.lock().unwrap().push((i, d));
}
fn sess_hooked(s: &Sess, ctl: Option<Arc<crate::sched::TaskCtl>>, nested: Option<(usize, Box<dyn FnOnce()>)>, hooks: Hooks) -> u64 {
    with_field!(s.f, F => {
        let mut cs: SimCs<F> = SimCs::with(s.cfg.clone());
        cs.ctl = ctl;
        cs.hooks = hooks;
        let src = Src::new(true, s.fault);
        *src.nested.borrow_mut() = nested;
        let a = attempt_on::<F>(&s.p, cs, &src);
        att_digest(&a)
    })
}

pub fn c05(t: &mut Tape, rep: &mut Rep) {
    let k = t.range(2, 4);
    let mut ss: Vec<Sess> = vec![];
    for i in 0..k {
        if i > 0 && t.chance(1, 3) {
            // a twin of an earlier session with other values
            let j = t.usize(ss.len());
            let mut s = ss[j].clone();
            s.p = revalue(&s.p, t);
            if t.chance(1, 3) {
                s.cfg.crash = Some(t.usize(60));
            }
            ss.push(s);
            continue;
        }
        let f = Fld::any(t);
        let n = t.range(1, 3);
        let p = gen_plan(t, f.info(), ALL, n, true, true, true);
        let mut cfg = CsCfg::default();
        let mut fault = None;
        if t.chance(1, 2) {
            let x = faulty(t, 60, 120, 3, &mut rep.st);
            cfg = x.0;
            fault = x.1;
        }
        if t.chance(1, 5) {
            cfg.loss = Loss::From(0);
        }
        ss.push(Sess { f, p, cfg, fault });
    }
    rep.sample = ss.iter().map(|s| show(&s.p)).collect::<Vec<_>>().join(" || ");
    for s in &ss {
        let d = plan_digest(&s.p) ^ hash_str(&format!("{:?}{:?}", s.cfg, s.fault));
        rep.log(d);
        rep.shape = rep.shape.rotate_left(7) ^ d;
    }
    // each alone, in a process of its own that has run nothing else
    let mut solo = vec![];
    for s in &ss {
        let s2 = s.clone();
        match crate::driver::in_fork(move || {
            let d = sess_digest(&s2, None, None);
            format!("{}", d)
        }) {
            Some(x) => solo.push(x.parse::<u64>().unwrap_or(0)),
            None => {
                rep.harness = Some("solo run died".into());
                return;
            }
        }
    }
    if t.chance(1, 5) {
        // nested: the witness source of one session synthesises another
        let inner = ss[1].clone();
        let res = std::rc::Rc::new(RefCell::new(None));
        let r2 = res.clone();
        let at = t.usize(3);
        let d0 = sess_digest(
            &ss[0],
            None,
            Some((at, Box::new(move || *r2.borrow_mut() = Some(sess_digest(&inner, None, None))))),
        );
        rep.st.add("nested syntheses", 1);
        rep.nontrivial = true;
        rep.log(d0);
        if d0 != solo[0] {
            return rep.fail("a session was influenced by another", "outer of a nested synthesis".into());
        }
        let inner = res.borrow().clone();
        if let Some(d1) = inner {
            rep.log(d1);
            if d1 != solo[1] {
                return rep.fail("a session was influenced by another", "inner of a nested synthesis".into());
            }
        }
        return;
    }
    if t.chance(1, 3) {
        // one thread: sessions are suspended in the middle of a call while others run
        let many = t.chance(1, 2);
        let far = *t.pick(&[12usize, 60, 300]);
        let stack: Vec<(Sess, Vec<usize>)> = ss
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let k = if !many { 1 } else if i == 0 { ss.len() - 1 } else { 0 };
                (s.clone(), (0..k).map(|_| t.usize(far)).collect())
            })
            .collect();
        let out = Arc::new(Mutex::new(vec![]));
        sess_stacked(stack.clone(), out.clone(), 0, None);
        let o = out.lock().unwrap().clone();
        rep.st.add("stacked sessions", o.len() as u64);
        rep.nontrivial = o.len() > 1;
        for (_, at) in &stack {
            rep.shape = rep.shape.rotate_left(9) ^ hash_str(&format!("{:?}", at));
        }
        for (i, d) in o {
            rep.log(d);
            if d != solo[i] {
                return rep.fail("a session was influenced by another", format!("session {} of {} on one thread", i, ss.len()));
            }
        }
        return;
    }
    let out: Arc<Mutex<Vec<Option<u64>>>> = Arc::new(Mutex::new(vec![None; ss.len()]));
    let mut sch = Sched::new();
    for (i, s) in ss.iter().enumerate() {
        let s = s.clone();
        let out = out.clone();
        sch.spawn(move |ctl| {
            let d = sess_digest(&s, Some(ctl), None);
            out.lock().unwrap()[i] = Some(d);
        });
    }
    // switch at back-end calls, or anywhere the library allocates memory
    let mem = t.chance(1, 2);
    // or, some instructions after that, anywhere
    let mut stepped = if mem && t.chance(1, 3) && crate::sched::can_step() { 6000 } else { 0 };
    let fine = stepped > 0;
    let style = t.usize(3);
    let span = if mem { 1 + t.choose(12) } else { 0 };
    let mut order = Digest::new();
    loop {
        let (r, left) = sch.runnable();
        if !left {
            break;
        }
        if r.is_empty() {
            return rep.fail("sessions wait for each other", format!("{} sessions", ss.len()));
        }
        let id = r[t.usize(r.len())];
        let q = match (mem, style) {
            (true, 0) => t.choose(1 << span),
            (true, 1) => {
                let k = 1 + t.choose(span);
                t.choose(1 << k)
            }
            (true, _) => {
                if t.chance(1, 3) {
                    t.choose(4)
                } else {
                    t.choose(4096)
                }
            }
            (_, 0) => 1,
            (_, 1) => 1 + t.choose(12),
            _ => 1 + t.choose(80),
        };
        order.u64(id as u64);
        order.u64(q);
        let mut ins = 0;
        if stepped > 0 && t.chance(1, 2) {
            let k = t.choose(10);
            ins = 1 + t.choose(1 << k);
            stepped -= ins.min(stepped);
        }
        order.u64(ins);
        sch.step(id, q, mem, ins);
    }
    if fine {
        rep.st.add("instructions single-stepped", crate::sched::STEPPED.load(std::sync::atomic::Ordering::Relaxed));
    }
    rep.st.add(if fine { "context switches at instructions" } else if mem { "context switches at memory allocations" } else { "context switches at back-end calls" }, sch.switches);
    if sch.set_aside > 0 {
        rep.st.add("sessions waited for another", sch.set_aside);
    }
    rep.st.add("interleaved sessions", ss.len() as u64);
    rep.st.add("attempts", ss.len() as u64);
    sch.finish();
    rep.shape ^= order.get();
    rep.log(order.get());
    rep.nontrivial = true;
    let o = out.lock().unwrap();
    for i in 0..ss.len() {
        match o[i] {
            None => {
                rep.harness = Some("a session gave no result".into());
                return;
            }
            Some(d) => {
                rep.log(d);
                if d != solo[i] {
                    return rep.fail("a session was influenced by another", format!("session {} of {}", i, ss.len()));
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------- C06..C12: statements

#[derive(Clone, Copy)]
pub struct Intensity {
    pub corrupt: usize,
    pub forge: usize,
    pub deviate: usize,
    pub kernel: usize,
}
pub const USUAL: Intensity = Intensity { corrupt: 10, forge: 14, deviate: 8, kernel: 220 };

/// An honest proof and many dishonest ones of the same statement, judged by the verifier.
pub fn statement<F: PrimeField>(p: &Plan, t: &mut Tape, rep: &mut Rep, complete: bool, it: Intensity) {
    let mut c0 = CsCfg::default();
    let a = attempt::<F>(p, c0.clone(), &Src::honest());
    rep.log(att_digest(&a));
    rep.st.add("attempts", 1);
    rep.st.add("back-end calls", a.cs.calls as u64);
    let mut sat = false;
    if let End::Ok = a.end {
        sat = check_sat(&a.cs, &a).is_ok();
    }
    match p.truth {
        Truth::Holds => {
            if complete {
                match &a.end {
                    End::Ok => {}
                    e => return rep.fail("an honest prover of a true statement failed", format!("{:?}", e)),
                }
                if let Some(m) = check_claims(a.done.as_ref().unwrap()) {
                    return rep.fail("an honest prover reports a wrong result", m);
                }
                if !sat {
                    return rep.fail("a true statement is not satisfiable by the honest prover", check_sat(&a.cs, &a).err().unwrap_or_default());
                }
            } else if !sat {
                rep.st.add("honest prover incomplete", 1);
                return;
            }
            if let Some(m) = check_outs(&a.cs, a.done.as_ref().unwrap(), &a.cs.assignment().unwrap()) {
                return rep.fail("the honest assignment carries a wrong result", m);
            }
        }
        Truth::False => {
            if sat {
                return rep.fail("a false statement was proved by the honest prover", String::new());
            }
            if let End::Panic(e) = &a.end {
                if complete {
                    return rep.fail("a false statement brought the prover down", e.clone());
                }
            }
        }
        _ => {
            rep.st.add("unusable statements", 1);
            return;
        }
    }
    let a = if a.end == End::Ok {
        a
    } else {
        // a Byzantine prover ignores the errors of its witness callbacks
        c0.lenient = true;
        let b = attempt::<F>(p, c0, &Src::honest());
        if b.end != End::Ok {
            rep.st.add("no assignment to attack", 1);
            return;
        }
        b
    };
    let mut tg = match target::<F>(p, &a) {
        Some(x) => x,
        None => {
            rep.st.add("no assignment to attack", 1);
            return;
        }
    };
    rep.nontrivial = tg.sys.cons.len() > tg.pins.len();
    let it = if tg.sys.cons.len() > 900 {
        Intensity { corrupt: it.corrupt.min(4), forge: it.forge.min(3), deviate: it.deviate.min(2), kernel: it.kernel }
    } else {
        it
    };
    let w = p
        .ops
        .iter()
        .find_map(|o| match o {
            Op::InNat { w, .. } | Op::InLimbs { w, .. } | Op::InNums { w, .. } | Op::FromNum { w, .. } => Some(*w),
            _ => None,
        })
        .unwrap_or(8);
    let report = |rep: &mut Rep, f: crate::adv::Forgery| {
        rep.fail("a wrong witness was accepted", format!("{}: {}", f.how, f.what));
    };
    for _ in 0..it.corrupt {
        if let Some(f) = tg.corrupt(t, &mut rep.st) {
            return report(rep, f);
        }
    }
    if it.kernel > 0 && tg.holds {
        if let Some(f) = tg.kernel(t, &mut rep.st, it.kernel) {
            return report(rep, f);
        }
    }
    for _ in 0..it.forge {
        if let Some(f) = tg.forge(p, t, &mut rep.st) {
            return report(rep, f);
        }
    }
    for _ in 0..it.deviate {
        if let Some(f) = tg.deviate(t, &mut rep.st, w) {
            return report(rep, f);
        }
    }
}

fn small_first(t: &mut Tape) -> Fld {
    [Fld::F62, Fld::F101, Fld::F128, Fld::Fr, Fld::Pallas][t.weighted(&[4, 3, 2, 2, 1])]
}

pub fn c06(t: &mut Tape, rep: &mut Rep) {
    let f = small_first(t);
    let p = gen_focus(t, f.info(), ARITH, PRODUCERS, true);
    begin(rep, &p);
    with_field!(f, F => statement::<F>(&p, t, rep, false, USUAL));
}
pub fn c07(t: &mut Tape, rep: &mut Rep) {
    let f = small_first(t);
    let p = gen_focus(t, f.info(), EQS, PRODUCERS, true);
    begin(rep, &p);
    with_field!(f, F => statement::<F>(&p, t, rep, true, USUAL));
}
pub fn c08(t: &mut Tape, rep: &mut Rep) {
    let f = small_first(t);
    let p = gen_focus(t, f.info(), RANGES, &[K::Add, K::Concat, K::Trunc, K::ViaLimbs], true);
    begin(rep, &p);
    with_field!(f, F => statement::<F>(&p, t, rep, true, USUAL));
}
pub fn c09(t: &mut Tape, rep: &mut Rep) {
    let f = small_first(t);
    let p = gen_focus(t, f.info(), SELECT, &[K::Concat, K::Trunc, K::Mux, K::Recompose, K::WithN], false);
    begin(rep, &p);
    with_field!(f, F => statement::<F>(&p, t, rep, true, USUAL));
}
pub fn c15(t: &mut Tape, rep: &mut Rep) {
    let f = small_first(t);
    let n = t.weighted(&[6, 2, 1]);
    let mut g = Gen::new(t, f.info(), false, false, true);
    for _ in 0..g.t.weighted(&[4, 3, 2]) {
        let k = *g.t.pick(PRODUCERS);
        g.gen(k);
    }
    for _ in 0..n + 1 {
        let k = *g.t.pick(EXPORT);
        g.gen(k);
    }
    let p = g.finish();
    begin(rep, &p);
    with_field!(f, F => statement::<F>(&p, t, rep, true, USUAL));
}
pub fn c10(t: &mut Tape, rep: &mut Rep) {
    let f = small_first(t);
    let p = gen_focus(t, f.info(), &[K::Less, K::Leq], &[], false);
    begin(rep, &p);
    with_field!(f, F => statement::<F>(&p, t, rep, true, USUAL));
}
pub fn c11(t: &mut Tape, rep: &mut Rep) {
    let f = [Fld::F62, Fld::F101, Fld::Fr, Fld::Pallas][t.weighted(&[4, 2, 2, 1])];
    let p = gen_focus(t, f.info(), &[K::Median], &[], false);
    begin(rep, &p);
    for _ in 0..2 {
        let win = crate::chain::any_window(t);
        let (mut mine, mut sorted) = (win.clone(), win.clone());
        sorted.sort();
        let got = catch_unwind(AssertUnwindSafe(|| validate_btc_header::btc_validation::median::compute_median_timestamp(&mut mine)));
        rep.st.add("native medians", 1);
        if got.as_ref().ok() != Some(&sorted[win.len() / 2]) {
            return rep.fail("the natively computed median is wrong", format!("{:?} of {:?}", got.ok(), win));
        }
        mine.sort();
        if mine != sorted {
            return rep.fail("the native median changed the window", format!("{:?} became {:?}", win, mine));
        }
    }
    let it = Intensity { corrupt: 6, forge: 10, deviate: 12, kernel: 400 };
    with_field!(f, F => statement::<F>(&p, t, rep, true, it));
}
pub fn c12(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::big(t);
    let p = gen_focus(t, f.info(), &[K::CalcDiff, K::CalcDiff, K::VerifyDiff], &[], true);
    begin(rep, &p);
    let it = Intensity { corrupt: 6, forge: 8, deviate: 4, kernel: 300 };
    with_field!(f, F => c12_on::<F>(&p, t, rep, it));
}
fn c12_on<F: PrimeField>(p: &Plan, t: &mut Tape, rep: &mut Rep, it: Intensity) {
    statement::<F>(p, t, rep, true, it)
}

pub fn all() -> Vec<(&'static str, fn(&mut Tape, &mut Rep))> {
    vec![
        ("C01", c01),
        ("C02", c02),
        ("C03", c03),
        ("C04", c04),
        ("C05", c05),
        ("C06", c06),
        ("C07", c07),
        ("C08", c08),
        ("C09", c09),
        ("C10", c10),
        ("C11", c11),
        ("C12", c12),
        ("C13", crate::hs::c13),
        ("C14", crate::lc::c14),
        ("C15", c15),
        ("C16", crate::mis::c16),
        ("C22", crate::bv::c22),
    ]
}

/// Number of simulated runs of a batch.
pub fn runs(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "C01" => (40_000, 1_500_000),
        "C02" => (40_000, 1_500_000),
        "C03" => (150_000, 5_000_000),
        "C04" => (40_000, 1_500_000),
        "C05" => (20_000, 600_000),
        "C06" => (16_000, 400_000),
        "C07" => (50_000, 1_500_000),
        "C08" => (50_000, 1_500_000),
        "C09" => (30_000, 900_000),
        "C10" => (80_000, 2_500_000),
        "C11" => (10_000, 250_000),
        "C12" => (4_000, 90_000),
        "C13" => (60_000, 1_500_000),
        "C14" => (4_000, 120_000),
        "C15" => (30_000, 900_000),
        "C16" => (150_000, 5_000_000),
        "C22" => (200_000, 6_000_000),
        _ => (1_000, 20_000),
    };
    if thorough {
        t
    } else {
        q
    }
}

const PROGRAM: &str = "one seed makes one choice tape; the tape generates a random program of gadget calls over a random field \
(62 to 255 bits), limb widths, limb counts and witness values, and every fault";
const ATTACK: &str = "one seed makes one choice tape; the tape generates operands (after other gadgets produced them), the statement \
(true or false), and the assignments that faulty transports and Byzantine provers offer to the verifier: corrupted wires, wires pushed \
along the null space, forgeries solved for another result, and the gadget's own witness code run on lies";

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => Box::leak(format!("{}; each run synthesises the program without a witness and then in several attempts with other values, lost witnesses, faults and callback orders. Non-trivial: the setup has at least one constraint. Distinct: different program and different sequence of attempt outcomes", PROGRAM).into_boxed_str()),
        "C02" => Box::leak(format!("{}; each run refuses chosen allocations and breaks chosen witness sources. Non-trivial: a refusal or source fault really fired, or unusable data was offered. Distinct: different program or fault points", PROGRAM).into_boxed_str()),
        "C03" => "one seed makes one choice tape; half the runs allocate a number from a source that answers differently each time, fails or crashes, on a back-end that drops callbacks; half drive many handles of one lazy value through an arbitrary order of clones, reads, overlapping reads and drops. Non-trivial: the source was consulted or more than one read happened. Distinct: different history",
        "C04" => Box::leak(format!("{}; several crashed, refused or starved attempts come first, then an intact one. Non-trivial: the circuit has a constraint. Distinct: different program and different fault history", PROGRAM).into_boxed_str()),
        "C05" => Box::leak(format!("{}; two to four sessions (or one nested in the witness source of another) are interleaved at back-end calls and at memory allocations and releases by the tape, with crashes and failures, and each is compared with a solo run in a process of its own. Distinct: different sessions or a different interleaving", PROGRAM).into_boxed_str()),
        "C22" => "one seed makes one choice tape; the tape generates a history of edits on up to four bit vectors over bits from several origins, which bits' witness is lost in each attempt, and where an allocation is refused or the attempt crashes; after every edit every vector and bit is compared with a list of booleans, and the constraints are evaluated on the true bits. Non-trivial: there is a vector and a witness bit. Distinct: different history of edits",
        "C16" => "one seed makes one choice tape; the tape picks an operation, the limb widths and counts of its operands (one of them usually sized for another session), the values, lost witnesses, refused allocations and crash points. Non-trivial: the sizes do not fit. Distinct: different operation, sizes, values or fault history",
        "C13" => "one seed makes one choice tape; the tape picks real headers of the block chain (blocks 1, 2 and 123456), misdelivers or corrupts them, and crashes or refuses allocations at chosen back-end calls. Non-trivial: the step was really synthesised. Distinct: different sequence of deliveries and faults",
        "C14" => "one seed makes one choice tape; the tape generates the starting state, the miners' clocks and their faults, every mined, lost, reordered, duplicated, corrupted and forged header, outages, crash points, restarts and dishonest proofs. Each delivered header is proved in a circuit of the library's gadgets and its verdict compared with integer header rules. Non-trivial: at least one header was accepted and at least one refused or one restart happened. Distinct: different start or different delivery history",
        _ => Box::leak(format!("{}. Non-trivial: the circuit has more constraints than the pinned operands need. Distinct: different program (operands, sizes, field)", ATTACK).into_boxed_str()),
    }
}
pub fn components(prop: &str) -> (&'static str, &'static str) {
    match prop {
        "C01" | "C04" => (
            "all gadgets of validate_btc_header (mp::bignat, util::*, median, difficulty_update) and, in part of the runs, the real bellpepper BenchCS, MetricCS, TestConstraintSystem and WitnessCS back-ends",
            "constraint-system back-end of the main attempts (simulated: records the circuit, injects faults), witness sources, verifier (R1CS evaluation), reference model",
        ),
        "C03" => (
            "BigNat allocation functions, Num allocation, util::lazy::LazyCell",
            "constraint-system back-end, witness sources, holders of the handles",
        ),
        "C05" => (
            "all gadgets of validate_btc_header, on real threads",
            "thread scheduler (baton passed at back-end calls and at memory allocations and releases), constraint-system back-end, witness sources",
        ),
        "C13" => (
            "BlockHeader (new_blocks, default, arity, initial_z_i_scalars, synthesize) and everything below it, including bellpepper's SHA-256 circuit where the step gets that far",
            "relay, client state and restarts, constraint-system back-end; the Nova prover is not run",
        ),
        "C14" => (
            "the comparison, median, retarget, range, equality and conversion gadgets of validate_btc_header and compute_median_timestamp, composed into the header circuit of a light client",
            "miners and clocks, relay, the light client's bookkeeping and saved state, constraint-system back-end, dishonest prover, verifier (R1CS evaluation), reference header rules; block hashes are abstract numbers and epochs have 3 to 7 blocks",
        ),
        "C16" => (
            "every operation of mp::bignat and util::gadget that combines numbers",
            "constraint-system back-end, the misconfigured session, verifier (R1CS evaluation)",
        ),
        "C22" => (
            "util::bit (Bit, Bitvector), Num::decompose, Num::is_equal, BigNat::recompose",
            "constraint-system back-end, holders of the vectors, verifier (R1CS evaluation), reference model",
        ),
        "C10" | "C11" | "C12" => (
            "the gadgets of validate_btc_header under test and everything below them",
            "miners and their clocks, constraint-system back-end, transport of the witness, dishonest prover, verifier (R1CS evaluation), reference model",
        ),
        _ => (
            "the gadgets of validate_btc_header under test and everything below them",
            "constraint-system back-end, transport of the witness, dishonest prover, verifier (R1CS evaluation), reference model",
        ),
    }
}
pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "seeded search: it samples programs, schedules and faults, it does not enumerate them",
        "operands respect the documented preconditions listed in DESIGN.md (canonical operands where a gadget asks for them, limb plus carry bits within the field's capacity)",
    ];
    match prop {
        "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C15" => {
            v.push("a dishonest assignment is looked for, not excluded: absence of one is evidence, not proof");
            v.push("the proof system itself is sound: the verifier accepts exactly the satisfying assignments with the pinned operands");
        }
        "C13" => v.push("listed findings cover the step's own panics: while they stand, no header gets far enough for its acceptance to be judged"),
        "C14" => v.push("the composition of gadgets into a header circuit is the simulator's (the repository's own step circuit is property C13); hashing is outside it"),
        "C05" => v.push("threads switch at calls into the back-end and at memory allocations and releases; straight-line code between two of these is not interleaved, nor are weak memory orders simulated"),
        _ => {}
    }
    v
}
