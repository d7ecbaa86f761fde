//! The simulated constraint-system back-end. Every allocation, constraint and witness callback of the
//! library goes through it, so it is where the simulator injects faults, crashes and context switches.
use crate::fields::fdig;
use crate::sched::TaskCtl;
use crate::tape::Digest;
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use std::sync::Arc;

/// Panic payload of an injected crash.
pub struct SimCrash;

/// A normalised linear combination over variable ids (0 = the constant one).
pub type SLc<F> = Vec<(u32, F)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Loss {
    None,
    /// no witness callback is evaluated from allocation k on
    From(usize),
    /// callbacks are evaluated for a pseudo-random subset of the allocations
    Subset(u64),
}

#[derive(Clone, Debug)]
pub struct CsCfg {
    pub loss: Loss,
    /// refuse allocation k; bool: evaluate the callback first
    pub refuse: Option<(usize, bool)>,
    /// crash at back-end call k (allocations and constraints both count)
    pub crash: Option<usize>,
    /// crash inside allocation k after its callback ran, before it is recorded
    pub crash_after_eval: Option<usize>,
    /// evaluate annotation callbacks
    pub notes: bool,
    /// order in which the three LC callbacks run
    pub lc_order: u8,
    /// witness generator: LC callbacks are never run, constraints are not kept
    pub wit_only: bool,
    /// swallow witness-callback errors, using 0 (a Byzantine prover's back-end)
    pub lenient: bool,
    /// keep the constraints
    pub keep: bool,
}
impl Default for CsCfg {
    fn default() -> Self {
        CsCfg {
            loss: Loss::None,
            refuse: None,
            crash: None,
            crash_after_eval: None,
            notes: false,
            lc_order: 0,
            wit_only: false,
            lenient: false,
            keep: true,
        }
    }
}

pub struct SimCs<F: PrimeField> {
    pub cfg: CsCfg,
    /// value per variable id; id 0 is one
    pub vals: Vec<Option<F>>,
    pub is_input: Vec<bool>,
    in_ids: Vec<u32>,
    aux_ids: Vec<u32>,
    pub cons: Vec<(SLc<F>, SLc<F>, SLc<F>)>,
    pub n_cons: usize,
    pub n_allocs: usize,
    pub calls: usize,
    pub evals: usize,
    pub src_errs: usize,
    /// variables whose callback failed and that got 0 instead
    pub failed: Vec<u32>,
    pub refused: bool,
    /// digest of the stream of alloc / alloc_input / enforce calls with their coefficients
    pub shape: Digest,
    /// the same, allocations only (what a witness generator sees)
    pub alloc_shape: Digest,
    /// the shape digest after each call, for prefix comparison
    pub trail: Vec<u64>,
    pub ctl: Option<Arc<TaskCtl>>,
    /// other work done on this thread right before the given call
    pub hooks: Vec<(usize, Box<dyn FnOnce() + Send>)>,
    /// number of variables when the k-th outermost namespace was opened
    pub marks: Vec<u32>,
    ns: usize,
    pub ns_bad: bool,
}

impl<F: PrimeField> SimCs<F> {
    pub fn with(cfg: CsCfg) -> Self {
        SimCs {
            cfg,
            vals: vec![Some(F::ONE)],
            is_input: vec![true],
            in_ids: vec![0],
            aux_ids: vec![],
            cons: vec![],
            n_cons: 0,
            n_allocs: 0,
            calls: 0,
            evals: 0,
            src_errs: 0,
            failed: vec![],
            refused: false,
            shape: Digest::new(),
            alloc_shape: Digest::new(),
            trail: vec![],
            ctl: None,
            hooks: vec![],
            marks: vec![],
            ns: 0,
            ns_bad: false,
        }
    }
    pub fn vid(&self, v: Variable) -> u32 {
        match v.get_unchecked() {
            Index::Input(i) => self.in_ids[i],
            Index::Aux(i) => self.aux_ids[i],
        }
    }
    pub fn norm(&self, lc: &LinearCombination<F>) -> SLc<F> {
        let mut v: SLc<F> = lc.iter().map(|(v, c)| (self.vid(v), *c)).collect();
        v.sort_by_key(|x| x.0);
        let mut out: SLc<F> = Vec::with_capacity(v.len());
        for (i, c) in v {
            if let Some(l) = out.last_mut() {
                if l.0 == i {
                    l.1 += c;
                    continue;
                }
            }
            out.push((i, c));
        }
        out.retain(|x| !bool::from(x.1.is_zero()));
        out
    }
    pub fn assignment(&self) -> Option<Vec<F>> {
        self.vals.iter().cloned().collect()
    }
    fn step(&mut self) {
        if let Some(c) = &self.ctl {
            c.clone().yield_point();
        }
        if !self.hooks.is_empty() {
            let n = self.calls;
            let (now, later) = std::mem::take(&mut self.hooks).into_iter().partition(|h| h.0 == n);
            self.hooks = later;
            for h in now {
                (h.1)();
            }
        }
        if self.cfg.crash == Some(self.calls) {
            std::panic::panic_any(SimCrash);
        }
        self.calls += 1;
    }
    fn do_alloc<A, AR, G>(&mut self, input: bool, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.step();
        let k = self.n_allocs;
        self.n_allocs += 1;
        if self.cfg.notes {
            let _: String = annotation().into();
        }
        let refuse = match self.cfg.refuse {
            Some((i, after)) if i == k => {
                if !after {
                    self.refused = true;
                    return Err(SynthesisError::IoError(std::io::Error::new(
                        std::io::ErrorKind::Other,
                        "allocation refused by the simulator",
                    )));
                }
                true
            }
            _ => false,
        };
        let eval = match self.cfg.loss {
            Loss::None => true,
            Loss::From(j) => k < j,
            Loss::Subset(seed) => {
                let mut x = seed ^ (k as u64).wrapping_mul(0x9E3779B97F4A7C15);
                crate::tape::splitmix(&mut x) & 3 != 0
            }
        };
        let val = if eval {
            self.evals += 1;
            match f() {
                Ok(v) => Some(v),
                Err(e) => {
                    self.src_errs += 1;
                    if self.cfg.lenient {
                        self.failed.push(self.vals.len() as u32);
                        Some(F::ZERO)
                    } else {
                        return Err(e);
                    }
                }
            }
        } else {
            None
        };
        if refuse {
            self.refused = true;
            return Err(SynthesisError::IoError(std::io::Error::new(
                std::io::ErrorKind::Other,
                "allocation refused by the simulator",
            )));
        }
        if self.cfg.crash_after_eval == Some(k) {
            std::panic::panic_any(SimCrash);
        }
        let id = self.vals.len() as u32;
        self.vals.push(val);
        self.is_input.push(input);
        self.shape.u64(if input { 0x11 } else { 0x22 });
        self.alloc_shape.u64(if input { 0x11 } else { 0x22 });
        self.trail.push(self.shape.get());
        if input {
            self.in_ids.push(id);
            Ok(Variable::new_unchecked(Index::Input(self.in_ids.len() - 1)))
        } else {
            self.aux_ids.push(id);
            Ok(Variable::new_unchecked(Index::Aux(self.aux_ids.len() - 1)))
        }
    }
}

impl<F: PrimeField> ConstraintSystem<F> for SimCs<F> {
    type Root = Self;

    fn alloc<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.do_alloc(false, annotation, f)
    }
    fn alloc_input<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.do_alloc(true, annotation, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        self.step();
        if self.cfg.notes {
            let _: String = annotation().into();
        }
        self.n_cons += 1;
        if self.cfg.wit_only {
            return;
        }
        let z = LinearCombination::zero;
        let (la, lb, lc) = match self.cfg.lc_order % 6 {
            0 => {
                let x = a(z());
                let y = b(z());
                (x, y, c(z()))
            }
            1 => {
                let w = c(z());
                let y = b(z());
                (a(z()), y, w)
            }
            2 => {
                let y = b(z());
                let x = a(z());
                (x, y, c(z()))
            }
            3 => {
                let w = c(z());
                let x = a(z());
                (x, b(z()), w)
            }
            4 => {
                let x = a(z());
                let w = c(z());
                (x, b(z()), w)
            }
            _ => {
                let y = b(z());
                let w = c(z());
                (a(z()), y, w)
            }
        };
        let t = (self.norm(&la), self.norm(&lb), self.norm(&lc));
        let mut d = self.shape;
        d.u64(0x33);
        for (tag, l) in [(1u64, &t.0), (2, &t.1), (3, &t.2)] {
            d.u64(tag);
            for (i, c) in l.iter() {
                d.u64(*i as u64);
                fdig(&mut d, c);
            }
        }
        self.shape = d;
        self.trail.push(d.get());
        if self.cfg.keep {
            self.cons.push(t);
        }
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.cfg.notes {
            let _: String = name_fn().into();
        }
        if self.ns == 0 {
            self.marks.push(self.vals.len() as u32);
        }
        self.ns += 1;
    }
    fn pop_namespace(&mut self) {
        if self.ns == 0 {
            self.ns_bad = true;
        } else {
            self.ns -= 1;
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
    fn is_witness_generator(&self) -> bool {
        // a witness generator may be asked to extend raw slices by some gadgets; the simulated one only
        // skips the constraints
        false
    }
}
