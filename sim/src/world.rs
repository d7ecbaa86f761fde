//! What every simulated run shares: attempts at synthesising a plan under an injected fault
//! configuration, their outcomes, and the run's report.
pub use crate::adv::Stats;
use crate::adv::{TOut, Target};
use crate::cs::{CsCfg, Loss, SLc, SimCrash, SimCs};
use crate::exec::{self, Done, Src, SrcFault};
use crate::fields::*;
use crate::model::*;
use crate::r1cs::first_unsat;
use crate::tape::{hash_str, Digest, Tape};
use ff::PrimeField;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if info.payload().is::<SimCrash>() {
            "injected crash".to_string()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let m: String = msg.chars().take(160).collect();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", m, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Ok,
    Err(String),
    Crash,
    Panic(String),
}
impl End {
    pub fn tag(&self) -> u64 {
        match self {
            End::Ok => 1,
            End::Err(_) => 2,
            End::Crash => 3,
            End::Panic(_) => 4,
        }
    }
}

/// The report of one simulated run.
#[derive(Default)]
pub struct Rep {
    pub viol: Option<(String, String)>,
    /// a listed finding met by this run: (key, detail)
    pub found: Vec<(String, String)>,
    pub st: Stats,
    pub log: Option<Digest>,
    pub nontrivial: bool,
    pub shape: u64,
    pub sample: String,
    pub harness: Option<String>,
}
impl Rep {
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some((class.to_string(), detail));
        }
    }
    pub fn log(&mut self, x: u64) {
        self.log.get_or_insert_with(Digest::new).u64(x);
    }
    pub fn log_str(&mut self, s: &str) {
        self.log(hash_str(s));
    }
    pub fn bad(&self) -> bool {
        self.viol.is_some()
    }
}

pub fn info<F: PrimeField>(name: &'static str) -> FieldInfo {
    FieldInfo { name, cap: F::CAPACITY as usize, p: modulus::<F>() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fld {
    Fr,
    Pallas,
    F62,
    F101,
    F128,
}
#[macro_export]
macro_rules! with_field {
    ($f:expr, $t:ident => $e:expr) => {
        match $f {
            $crate::world::Fld::Fr => {
                type $t = $crate::fields::Fr;
                $e
            }
            $crate::world::Fld::Pallas => {
                type $t = $crate::fields::Pallas;
                $e
            }
            $crate::world::Fld::F62 => {
                type $t = $crate::fields::F62;
                $e
            }
            $crate::world::Fld::F101 => {
                type $t = $crate::fields::F101;
                $e
            }
            $crate::world::Fld::F128 => {
                type $t = $crate::fields::F128;
                $e
            }
        }
    };
}
impl Fld {
    pub fn info(self) -> FieldInfo {
        match self {
            Fld::Fr => info::<Fr>("BLS12-381 scalar"),
            Fld::Pallas => info::<Pallas>("Pallas scalar"),
            Fld::F62 => info::<F62>("62-bit prime"),
            Fld::F101 => info::<F101>("101-bit prime"),
            Fld::F128 => info::<F128>("128-bit prime"),
        }
    }
    pub fn any(t: &mut Tape) -> Fld {
        [Fld::Fr, Fld::Pallas, Fld::F62, Fld::F101, Fld::F128][t.weighted(&[3, 2, 3, 2, 1])]
    }
    pub fn big(t: &mut Tape) -> Fld {
        [Fld::Fr, Fld::Pallas][t.usize(2)]
    }
}

pub struct Att<F: PrimeField> {
    pub cs: SimCs<F>,
    pub end: End,
    pub done: Option<Done<F>>,
}

/// One attempt of a session at the plan.
pub fn attempt<F: PrimeField>(plan: &Plan, cfg: CsCfg, src: &Src) -> Att<F> {
    attempt_on::<F>(plan, SimCs::with(cfg), src)
}
pub fn attempt_on<F: PrimeField>(plan: &Plan, mut cs: SimCs<F>, src: &Src) -> Att<F> {
    let r = catch_unwind(AssertUnwindSafe(|| exec::run::<F, _>(plan, &mut cs, src)));
    let (end, done) = match r {
        Ok(Ok(d)) => (End::Ok, Some(d)),
        Ok(Err(e)) => (End::Err(format!("{:?}", e).chars().take(120).collect()), None),
        Err(p) => {
            if p.is::<SimCrash>() {
                (End::Crash, None)
            } else {
                (End::Panic(last_panic()), None)
            }
        }
    };
    Att { cs, end, done }
}

pub fn vals_digest<F: PrimeField>(cs: &SimCs<F>) -> u64 {
    let mut d = Digest::new();
    for v in &cs.vals {
        match v {
            Some(f) => fdig(&mut d, f),
            None => d.u64(0xdead),
        }
    }
    d.get()
}
pub fn att_digest<F: PrimeField>(a: &Att<F>) -> u64 {
    let mut d = Digest::new();
    d.u64(a.end.tag());
    match &a.end {
        End::Err(s) | End::Panic(s) => d.bytes(s.as_bytes()),
        _ => {}
    }
    d.u64(a.cs.shape.get());
    d.u64(vals_digest(&a.cs));
    d.u64(a.cs.calls as u64);
    if let Some(x) = &a.done {
        for (w, c, _) in &x.claims {
            d.bytes(w.as_bytes());
            d.bytes(format!("{:?}", c).as_bytes());
        }
        for (w, n, l) in &x.claim_len {
            d.bytes(w.as_bytes());
            d.u64(*n as u64);
            d.u64(l.map(|x| x as u64 + 1).unwrap_or(0));
        }
        for (w, b, _) in &x.bool_claims {
            d.bytes(w.as_bytes());
            d.u64(match b {
                None => 0,
                Some(false) => 1,
                Some(true) => 2,
            });
        }
    }
    d.get()
}

pub fn plan_digest(p: &Plan) -> u64 {
    hash_str(&format!("{} {:?}", p.f.name, p.ops))
}
pub fn show(p: &Plan) -> String {
    let ops: Vec<String> = p
        .ops
        .iter()
        .enumerate()
        .map(|(i, o)| {
            let s = format!("{}: {:?}", i, o);
            if s.len() > 200 {
                format!("{}...", s.chars().take(200).collect::<String>())
            } else {
                s
            }
        })
        .collect();
    let mut s = format!("over {}: {}", p.f.name, ops.join("; "));
    if p.truth != Truth::Holds {
        s.push_str(&format!(" [{:?} at op {:?}]", p.truth, p.bad_op));
    }
    s
}

/// Compares what the library says about its results with the reference model.
pub fn check_claims<F: PrimeField>(d: &Done<F>) -> Option<String> {
    for (w, n, l) in &d.claim_len {
        match l {
            Some(l) if l == n => {}
            Some(l) => return Some(format!("{}: {} limb values for {} limbs", w, l, n)),
            None => return Some(format!("{}: only {} limbs, the exact result needs more", w, n)),
        }
    }
    for (w, c, e) in &d.claims {
        match c {
            None => return Some(format!("{}: no value with the witness present", w)),
            Some(c) if c != e => return Some(format!("{}: {} instead of {}", w, c, e)),
            _ => {}
        }
    }
    for (w, c, e) in &d.bool_claims {
        if *c != Some(*e) {
            return Some(format!("{}: {:?} instead of {}", w, c, e));
        }
    }
    None
}

/// The assignment of an attempt checked against constraints recorded by (another) attempt.
pub fn check_sat<F: PrimeField>(setup: &SimCs<F>, a: &Att<F>) -> Result<Vec<F>, String> {
    let x = match a.cs.assignment() {
        Some(x) => x,
        None => return Err("some allocated variable has no value".into()),
    };
    if x.len() != setup.vals.len() {
        return Err(format!("{} variables proved, {} set up", x.len() - 1, setup.vals.len() - 1));
    }
    if let Some(k) = first_unsat(&setup.cons, &x) {
        return Err(format!("constraint {} of {} is not satisfied", k, setup.cons.len()));
    }
    Ok(x)
}

pub fn check_outs<F: PrimeField>(cs: &SimCs<F>, d: &Done<F>, x: &[F]) -> Option<String> {
    for o in &d.outs {
        let v = crate::r1cs::ev(&cs.norm(&o.lc), x);
        if v != o.expect {
            return Some(format!("op {} {}: {} instead of {}", o.op, o.what, f2n(&v), f2n(&o.expect)));
        }
    }
    let ids = input_ids(cs);
    if ids.len() != d.inputs.len() {
        return Some(format!("{} public inputs instead of {}", ids.len(), d.inputs.len()));
    }
    for (id, (op, what, e)) in ids.iter().zip(&d.inputs) {
        if x[*id] != *e {
            return Some(format!("op {} {}: {} instead of {}", op, what, f2n(&x[*id]), f2n(e)));
        }
    }
    None
}

/// The public inputs in the order the verifier sees them.
pub fn input_ids<F: PrimeField>(cs: &SimCs<F>) -> Vec<usize> {
    (1..cs.is_input.len()).filter(|i| cs.is_input[*i]).collect()
}

/// Builds the adversary's target from a witness-free or honest synthesis.
pub fn target<F: PrimeField>(plan: &Plan, a: &Att<F>) -> Option<Target<F>> {
    let d = a.done.as_ref()?;
    let x = a.cs.assignment()?;
    let cs = &a.cs;
    let mut outs: Vec<TOut<F>> = d
        .outs
        .iter()
        .map(|o| TOut { op: o.op, bn: o.bn, what: o.what.clone(), lc: cs.norm(&o.lc), expect: o.expect })
        .collect();
    for (id, (op, what, e)) in input_ids(cs).into_iter().zip(&d.inputs) {
        outs.push(TOut { op: *op, bn: None, what: what.clone(), lc: vec![(id as u32, F::ONE)], expect: *e });
    }
    let pins: Vec<SLc<F>> = d.pinned.iter().map(|l| cs.norm(l)).collect();
    // inputs the gadget allocates itself are pinned by value
    let mut pv: Vec<u32> = vec![];
    for v in &d.pin_vals {
        let ids: Vec<u32> = (1..x.len() as u32).filter(|i| x[*i as usize] == *v).collect();
        if ids.is_empty() {
            return None;
        }
        pv.extend(ids);
    }
    pv.sort();
    pv.dedup();
    Some(Target::build(
        x.len(),
        cs.cons.clone(),
        x,
        outs,
        pins,
        pv,
        vec![],
        plan.truth == Truth::Holds,
        cs.marks.clone(),
        plan.bad_op,
    ))
}

/// A random fault configuration for an attempt; `n_alloc`/`calls` from an earlier setup.
pub fn faulty(t: &mut Tape, n_alloc: usize, calls: usize, n_src: usize, st: &mut Stats) -> (CsCfg, Option<(usize, SrcFault)>) {
    let mut c = CsCfg::default();
    let mut f = None;
    match t.weighted(&[3, 3, 2, 2, 2, 2]) {
        0 => {
            c.crash = Some(t.usize(calls.max(1)));
            st.add("configured: crash at back-end call", 1);
        }
        1 => {
            c.refuse = Some((t.usize(n_alloc.max(1)), t.chance(1, 2)));
            st.add("configured: refused allocation", 1);
        }
        2 => {
            c.loss = Loss::From(t.usize(n_alloc.max(1)));
            st.add("configured: witness lost midway", 1);
        }
        3 => {
            c.loss = Loss::Subset(t.choose(0));
            st.add("configured: witness lost on a subset", 1);
        }
        4 => {
            c.crash_after_eval = Some(t.usize(n_alloc.max(1)));
            st.add("configured: crash after a callback", 1);
        }
        _ => {
            if n_src > 0 {
                f = Some((t.usize(n_src), *t.pick(&crate::exec::SRC_FAULTS)));
                st.add("configured: witness source fault", 1);
            }
        }
    }
    c.notes = t.chance(1, 4);
    c.lc_order = t.usize(6) as u8;
    (c, f)
}
