//! A light client built from the library's gadgets, in a simulated network: miners with faulty clocks,
//! Byzantine miners and provers, an unreliable relay, and a client that crashes and restarts from the
//! state it saved last. Every verdict of the client is compared with the header rules in plain integers.
use crate::chain::{max_target, Miners};
use crate::cs::{CsCfg, Loss};
use crate::exec::Src;
use crate::model::*;
use crate::tape::{hash_str, Tape};
use crate::with_field;
use crate::world::*;
use crate::worlds::{begin, fired, statement, Intensity};
use ff::PrimeField;
use num_bigint::BigInt;
use num_traits::Zero;
use validate_btc_header::btc_validation::median::compute_median_timestamp;

#[derive(Clone, Debug, PartialEq)]
struct Hdr {
    id: u64,
    prev: u64,
    ts: u32,
    pow: BigInt,
    target: BigInt,
}
#[derive(Clone, Debug, PartialEq)]
struct State {
    tip: u64,
    win: Vec<u32>,
    target: BigInt,
    epoch_start: u32,
    height: u64,
}
#[derive(Clone, Copy)]
struct Rules {
    epoch: u64,
    width: usize,
}

fn mtp(win: &[u32]) -> u32 {
    let mut s = win.to_vec();
    s.sort();
    s[s.len() / 2]
}

impl State {
    fn elapsed(&self) -> i64 {
        *self.win.last().unwrap() as i64 - self.epoch_start as i64
    }
    fn boundary(&self, r: Rules) -> bool {
        self.height % r.epoch == 0
    }
    /// The target the next header has to have, if there can be one.
    fn required(&self, r: Rules) -> Option<BigInt> {
        if !self.boundary(r) {
            return Some(self.target.clone());
        }
        let el = self.elapsed();
        if el <= (TWO_WEEKS / 4) as i64 || el >= (TWO_WEEKS * 4) as i64 {
            return None;
        }
        let t = &self.target * el / TWO_WEEKS as i64;
        if t <= max_target() {
            Some(t)
        } else {
            None
        }
    }
    /// The header rules, in integers.
    fn check(&self, h: &Hdr, r: Rules) -> Result<State, &'static str> {
        if h.prev != self.tip {
            return Err("does not extend the tip");
        }
        match self.required(r) {
            None => return Err("retarget out of range"),
            Some(t) if t != h.target => return Err("wrong target"),
            _ => {}
        }
        if h.pow.bits() as usize > r.width {
            return Err("proof of work value too long");
        }
        if h.pow > h.target {
            return Err("proof of work above the target");
        }
        if h.ts <= mtp(&self.win) {
            return Err("timestamp not above the median");
        }
        let mut s = self.clone();
        if self.boundary(r) {
            s.epoch_start = h.ts;
        }
        s.win.remove(0);
        s.win.push(h.ts);
        s.tip = h.id;
        s.target = h.target.clone();
        s.height += 1;
        Ok(s)
    }
}

/// The client's circuit for one header. `claim` is the median the client puts forward.
fn circuit(f: &FieldInfo, s: &State, h: &Hdr, r: Rules, claim: u32) -> Result<Plan, String> {
    let mut m = Model::new(f.clone());
    let mut ops: Vec<Op> = vec![];
    let mut truth = Truth::Holds;
    let mut bad_op = None;
    let mut bad: Option<String> = None;
    let mut add = |m: &mut Model, op: Op| {
        if bad.is_some() {
            return;
        }
        if !m.pre(&op) {
            bad = Some(format!("operand outside its domain: {:?}", op));
            return;
        }
        let tr = m.apply(&op);
        if tr != Truth::Holds && truth == Truth::Holds {
            truth = tr;
            bad_op = Some(ops.len());
        }
        ops.push(op);
    };
    let num = |m: &Model| m.nums.len() - 1;
    // header and state
    add(&mut m, Op::NumIn { v: BigInt::from(h.prev), raw: false });
    let prev = num(&m);
    add(&mut m, Op::NumIn { v: BigInt::from(s.tip), raw: false });
    let tip = num(&m);
    add(&mut m, Op::NumIn { v: h.pow.clone(), raw: false });
    let pow = num(&m);
    add(&mut m, Op::NumIn { v: h.target.clone(), raw: false });
    let tgt = num(&m);
    add(&mut m, Op::NumIn { v: s.target.clone(), raw: false });
    let old = num(&m);
    add(&mut m, Op::NumIn { v: BigInt::from(h.ts), raw: false });
    let ts = num(&m);
    add(&mut m, Op::NumIn { v: BigInt::from(claim), raw: false });
    let med = num(&m);
    // the link
    add(&mut m, Op::Equals(prev, tip));
    let b = m.bits.len() - 1;
    add(&mut m, Op::BitForce(b, true));
    // median-time-past
    add(&mut m, Op::Median { ts: s.win.clone(), claim });
    let b = m.bits.len() - 1;
    add(&mut m, Op::BitForce(b, true));
    add(&mut m, Op::Less(med, ts, 32));
    let b = m.bits.len() - 1;
    add(&mut m, Op::BitForce(b, true));
    // the target
    if s.boundary(r) {
        let el = s.elapsed();
        if el < 0 {
            return Err("clock ran backwards over an epoch".into());
        }
        add(&mut m, Op::NumIn { v: BigInt::from(el), raw: false });
        let el = num(&m);
        add(&mut m, Op::CalcDiff(old, el));
        let new = m.bns.len() - 1;
        add(&mut m, Op::FromNum { num: tgt, w: 64, n: 4 });
        let c = m.bns.len() - 1;
        add(&mut m, Op::Equal(new, c));
        add(&mut m, Op::NumFits(tgt, 224));
        add(&mut m, Op::NumIn { v: max_target(), raw: false });
        let max = num(&m);
        if h.target.bits() <= 224 {
            add(&mut m, Op::Leq(tgt, max, 224));
            let b = m.bits.len() - 1;
            add(&mut m, Op::BitForce(b, true));
        }
    } else {
        add(&mut m, Op::Equals(tgt, old));
        let b = m.bits.len() - 1;
        add(&mut m, Op::BitForce(b, true));
    }
    // proof of work
    add(&mut m, Op::NumFits(pow, r.width));
    if h.pow.bits() as usize <= r.width && h.target.bits() as usize <= r.width {
        add(&mut m, Op::Leq(pow, tgt, r.width));
        let b = m.bits.len() - 1;
        add(&mut m, Op::BitForce(b, true));
    }
    drop(add);
    if let Some(e) = bad {
        return Err(e);
    }
    Ok(Plan { f: f.clone(), ops, truth, bad_op })
}

enum Verdict {
    Accept,
    Refuse,
    Crashed,
    Panicked(String),
}

fn prove<F: PrimeField>(p: &Plan, cfg: CsCfg, rep: &mut Rep) -> Verdict {
    let src = Src::honest();
    let a = attempt::<F>(p, cfg.clone(), &src);
    fired(&mut rep.st, &cfg, &a.end, &src, a.cs.refused, a.cs.evals, a.cs.n_allocs);
    rep.st.add("attempts", 1);
    rep.st.add("back-end calls", a.cs.calls as u64);
    rep.log(att_digest(&a));
    match &a.end {
        End::Ok => {
            if a.cs.assignment().is_some() && check_sat(&a.cs, &a).is_ok() {
                Verdict::Accept
            } else {
                Verdict::Refuse
            }
        }
        End::Err(_) => Verdict::Refuse,
        End::Crash => Verdict::Crashed,
        End::Panic(m) => Verdict::Panicked(m.clone()),
    }
}

struct Client {
    s: State,
    saved: State,
    accepted: u64,
    refused: u64,
    restarts: u64,
}

fn rand_below(t: &mut Tape, lim: &BigInt) -> BigInt {
    let mut v = BigInt::zero();
    for _ in 0..4 {
        v = (v << 64usize) + t.choose(0);
    }
    v % (lim + 1)
}

/// An honest header on top of `s`, if the rules leave room for one.
fn mine(t: &mut Tape, ms: &mut Miners, s: &State, r: Rules, id: u64) -> Option<Hdr> {
    let target = s.required(r)?;
    let gap = TWO_WEEKS / r.epoch;
    ms.advance(match t.usize(4) {
        0 => gap / 4 + 1,
        1 => gap + t.choose(gap * 2),
        2 => t.choose(gap),
        _ => gap,
    });
    let clock = ms.block(t);
    let lo = mtp(&s.win) as u64 + 1;
    let mut ts = (clock as u64).max(lo);
    // whoever closes an epoch keeps it within the permitted length
    if (s.height + 1) % r.epoch == 0 && !t.chance(1, 12) {
        let from = if s.boundary(r) { ts } else { s.epoch_start as u64 };
        ts = ts.clamp((from + TWO_WEEKS / 4 + 1).max(lo), (from + TWO_WEEKS * 4 - 1).max(lo));
        if s.target.bits() > 200 {
            // not easier than the easiest target
            let ok: BigInt = (max_target() * TWO_WEEKS) / &s.target;
            let ok: u64 = (&ok).try_into().unwrap_or(u64::MAX);
            ts = ts.min(from + ok.min(TWO_WEEKS * 4 - 1)).max(lo);
        }
    }
    if ts > u32::MAX as u64 {
        return None;
    }
    let pow = match t.usize(5) {
        0 => target.clone(),
        1 => BigInt::zero(),
        _ => rand_below(t, &target),
    };
    Some(Hdr { id, prev: s.tip, ts: ts as u32, pow, target })
}

/// A header that a faulty relay or a Byzantine miner made out of a good one.
fn spoil(t: &mut Tape, h: &Hdr, s: &State, r: Rules, p: &BigInt, rep: &mut Rep, id: u64) -> Hdr {
    let mut g = h.clone();
    g.id = id;
    let lim = p - 1;
    let kind = t.usize(14);
    let name = match kind {
        0 => {
            g.ts ^= 1 << t.usize(32);
            "fault: corrupted timestamp"
        }
        1 => {
            g.pow ^= pow2(t.usize(250));
            "fault: corrupted proof-of-work value"
        }
        2 => {
            g.target ^= pow2(t.usize(226));
            "fault: corrupted target"
        }
        3 => {
            g.prev ^= 1 << t.usize(8);
            "fault: corrupted link"
        }
        4 => {
            g.pow = &g.target + 1;
            "fault: forged just above the target"
        }
        5 => {
            g.pow = pow2(r.width - 1) + rand_below(t, &pow2(r.width - 1));
            "fault: forged without work"
        }
        6 => {
            g.pow = pow2(r.width) + t.usize(3);
            "fault: forged too long a value"
        }
        7 => {
            g.pow = p - 1 - t.usize(4);
            "fault: forged a value near the modulus"
        }
        8 => {
            g.ts = mtp(&s.win);
            "fault: forged at the median"
        }
        9 => {
            g.ts = mtp(&s.win).saturating_sub(1 + t.choose(7200) as u32);
            "fault: forged in the past"
        }
        10 => {
            g.target = &g.target + 1;
            g.pow = g.target.clone();
            "fault: forged one easier"
        }
        11 => {
            g.target = (&g.target * (2 + t.usize(3))).min(max_target());
            g.pow = g.target.clone();
            "fault: forged much easier"
        }
        12 => {
            // the target before the epoch, or as if the whole time had been two weeks
            g.target = s.target.clone();
            g.pow = rand_below(t, &g.target.clone());
            "fault: forged without retargeting"
        }
        _ => {
            g.target = (&g.target - 1u32).max(BigInt::zero());
            g.pow = BigInt::zero();
            "fault: forged one harder"
        }
    };
    if g.pow > lim {
        g.pow = lim;
    }
    rep.st.add(name, 1);
    g
}

fn handle<F: PrimeField>(c: &mut Client, h: &Hdr, r: Rules, f: &FieldInfo, t: &mut Tape, rep: &mut Rep, faults: bool, attack: bool) {
    let expect = c.s.check(h, r);
    match &expect {
        Ok(_) => rep.st.add("valid headers delivered", 1),
        Err(e) => rep.st.add(&format!("invalid headers: {}", e), 1),
    }
    let mut win = c.s.win.clone();
    let mut claim = compute_median_timestamp(&mut win);
    if claim != mtp(&c.s.win) {
        return rep.fail("the computed median is wrong", format!("{} of {:?}", claim, c.s.win));
    }
    if h.ts <= claim && t.chance(1, 3) {
        // a Byzantine prover needs another median
        claim = match t.usize(3) {
            0 => h.ts.saturating_sub(1),
            1 => *c.s.win.iter().min().unwrap(),
            _ => t.choose(h.ts as u64 + 1) as u32,
        };
        rep.st.add("fault: forged median", 1);
    }
    let plan = match circuit(f, &c.s, h, r, claim) {
        Ok(p) => p,
        Err(e) => {
            // the client's own sanity checks; they may only stop what is invalid
            rep.st.add("refused before proving", 1);
            if expect.is_ok() {
                rep.harness = Some(format!("valid header outside the client's domain: {}", e));
            }
            c.refused += 1;
            return;
        }
    };
    rep.log(plan_digest(&plan));
    if (plan.truth == Truth::Holds) != expect.is_ok() {
        rep.harness = Some(format!("the client's circuit does not state the rules: {:?} {:?} for {}", plan.truth, expect.as_ref().err(), show(&plan)));
        return;
    }
    if attack {
        // the whole statement, with every dishonest assignment the simulator knows
        rep.st.add("headers attacked", 1);
        statement::<F>(&plan, t, rep, true, Intensity { corrupt: 4, forge: 5, deviate: 4, kernel: 250 });
        if rep.viol.is_some() {
            return;
        }
    }
    let mut tries = 0;
    loop {
        let mut cfg = CsCfg::default();
        if faults && t.chance(1, 3) {
            match t.usize(4) {
                0 => cfg.crash = Some(t.usize(2500)),
                1 => cfg.refuse = Some((t.usize(1500), t.chance(1, 2))),
                2 => cfg.loss = Loss::From(t.usize(1500)),
                _ => cfg.loss = Loss::Subset(t.choose(0)),
            }
        } else if expect.is_err() && t.chance(1, 3) {
            cfg.lenient = true;
            rep.st.add("fault: prover ignores its own errors", 1);
        }
        let disturbed = cfg.crash.is_some() || cfg.refuse.is_some() || cfg.loss != Loss::None;
        match prove::<F>(&plan, cfg.clone(), rep) {
            Verdict::Panicked(m) => return rep.fail("a header brought the client down", m),
            Verdict::Crashed => {
                // the header is forgotten, the state is what was saved
                c.s = c.saved.clone();
                c.restarts += 1;
                rep.st.add("client restarts", 1);
                return;
            }
            Verdict::Accept => match &expect {
                Err(e) => return rep.fail("an invalid header was accepted", format!("{}: {:?}", e, h)),
                Ok(n) => {
                    if c.s.boundary(r) {
                        rep.st.add("retargets crossed", 1);
                    }
                    c.s = n.clone();
                    c.accepted += 1;
                    if faults && t.chance(1, 10) {
                        // down between the proof and the save
                        c.s = c.saved.clone();
                        c.restarts += 1;
                        rep.st.add("client restarts", 1);
                        rep.st.add("fault: crash before the save", 1);
                        return;
                    }
                    c.saved = c.s.clone();
                    return;
                }
            },
            Verdict::Refuse => {
                if expect.is_ok() && !disturbed {
                    return rep.fail("a valid header was refused", format!("{:?} on {:?}", h, c.s));
                }
                if disturbed && tries == 0 {
                    tries += 1;
                    rep.st.add("attempts repeated", 1);
                    continue;
                }
                c.refused += 1;
                return;
            }
        }
    }
}

pub fn c14(t: &mut Tape, rep: &mut Rep) {
    let f = Fld::big(t);
    with_field!(f, F => c14_on::<F>(&f.info(), t, rep));
}
fn c14_on<F: PrimeField>(f: &FieldInfo, t: &mut Tape, rep: &mut Rep) {
    let r = Rules { epoch: 3 + t.choose(5), width: *t.pick(&[224usize, 240, 252]) };
    let mut ms = Miners::new(t);
    let room = 400 * TWO_WEEKS / 10;
    if ms.now > u32::MAX as u64 - room && t.chance(4, 5) {
        ms.now -= room;
        ms.start = ms.now;
    }
    let mut win: Vec<u32> = (0..11).map(|_| ms.block(t)).collect();
    if t.chance(1, 8) {
        // some of the blocks so far were dated by clocks that had lost the date
        rep.st.add("fault: wild dates in the first window", 1);
        let m = 1 + t.usize(5);
        for _ in 0..m {
            let i = t.usize(10);
            win[i] = crate::chain::wild(t);
        }
    }
    let target = match t.usize(3) {
        0 => max_target(),
        1 => BigInt::from(1 + t.choose(0xffff)) << (8 * t.usize(27)),
        _ => rand_below(t, &max_target()),
    };
    let s0 = State {
        tip: 1,
        epoch_start: *win.last().unwrap(),
        win,
        target: target.min(max_target()),
        // not right before a boundary, where the elapsed time would be nothing
        height: r.epoch + 1 + t.choose(r.epoch - 2),
    };
    rep.sample = format!("epoch {} width {} start {:?}", r.epoch, r.width, s0);
    rep.log_str(&rep.sample.clone());
    rep.shape = hash_str(&rep.sample);
    let mut best = s0.clone();
    let mut chain: Vec<Hdr> = vec![];
    let mut c = Client { s: s0.clone(), saved: s0.clone(), accepted: 0, refused: 0, restarts: 0 };
    let steps = t.range(6, 22);
    let attack_at = t.usize(steps);
    let mut next_id = 2u64;
    let mut flight: Vec<Hdr> = vec![];
    let mut outage = 0usize;
    for step in 0..steps {
        // mining
        if t.chance(2, 3) {
            if let Some(h) = mine(t, &mut ms, &best, r, next_id) {
                match best.check(&h, r) {
                    Ok(n) => {
                        next_id += 1;
                        best = n;
                        chain.push(h.clone());
                        if outage > 0 {
                            rep.st.add("fault: lost in an outage", 1);
                        } else if t.chance(1, 8) {
                            rep.st.add("fault: lost", 1);
                        } else {
                            flight.push(h);
                        }
                    }
                    Err(_) => rep.st.add("miners without a valid header", 1),
                }
            }
        }
        if outage > 0 {
            outage -= 1;
            continue;
        }
        // what the client is given now
        let missing = chain.iter().find(|h| h.prev == c.s.tip).cloned();
        let h = match t.weighted(&[5, 3, 2, 2, 5, 1]) {
            // the client asks for what it lacks
            0 => missing,
            1 if !flight.is_empty() => {
                let i = t.usize(flight.len());
                if i > 0 {
                    rep.st.add("fault: reordered", 1);
                }
                Some(flight.remove(i))
            }
            2 if !chain.is_empty() => {
                rep.st.add("fault: duplicated", 1);
                Some(chain[t.usize(chain.len())].clone())
            }
            3 if !chain.is_empty() => {
                let h = chain[t.usize(chain.len())].clone();
                let id = next_id + 1000;
                Some(spoil(t, &h, &c.s, r, &f.p, rep, id))
            }
            4 => {
                // a branch of a Byzantine miner from the client's own tip
                let mut fork = ms.clone();
                let s = c.s.clone();
                let mut h = missing.or_else(|| mine(t, &mut fork, &s, r, 0));
                if h.is_none() {
                    // no valid header can follow; a Byzantine miner clamps the elapsed time and goes on
                    let el = s.elapsed().clamp((TWO_WEEKS / 4) as i64, (TWO_WEEKS * 4) as i64);
                    let el = if t.chance(1, 2) { el } else { s.elapsed().max(0) };
                    let target = (&s.target * el / TWO_WEEKS as i64).min(max_target());
                    h = mtp(&s.win).checked_add(1).map(|ts| Hdr { id: 0, prev: s.tip, ts, pow: BigInt::zero(), target });
                }
                match h {
                    Some(h) if s.required(r).is_none() && t.chance(1, 2) => Some(Hdr { id: next_id + 3000, ..h }),
                    Some(h) => {
                        let id = next_id + 2000;
                        Some(spoil(t, &h, &s, r, &f.p, rep, id))
                    }
                    None => None,
                }
            }
            5 => {
                outage = 1 + t.usize(4);
                rep.st.add("fault: partition", 1);
                None
            }
            _ => None,
        };
        let Some(h) = h else { continue };
        let before = c.s.clone();
        rep.shape = rep.shape.rotate_left(5) ^ hash_str(&format!("{:?}", h));
        handle::<F>(&mut c, &h, r, f, t, rep, true, step == attack_at);
        if rep.viol.is_some() || rep.harness.is_some() {
            return;
        }
        if c.s.tip >= 1000 {
            // what a relay or a Byzantine miner made up can be valid too; the client is on a branch now,
            // and the others do not extend it
            rep.st.add("valid by accident", 1);
            c.s = before;
            c.saved = c.s.clone();
        }
    }
    // faults stop: the client asks for one header after the other
    let todo = chain.iter().filter(|h| h.id > c.s.tip).count();
    let mut used = 0;
    while c.s != best {
        let Some(h) = chain.iter().find(|h| h.prev == c.s.tip).cloned() else {
            rep.harness = Some("the chain has a hole".into());
            return;
        };
        if used == todo {
            return rep.fail("no progress after the faults stopped", format!("{} of {} headers in {} steps", c.accepted, chain.len(), used));
        }
        used += 1;
        handle::<F>(&mut c, &h, r, f, t, rep, false, false);
        if rep.viol.is_some() || rep.harness.is_some() {
            return;
        }
    }
    rep.st.add("headers accepted", c.accepted);
    rep.st.add("headers refused", c.refused);
    rep.nontrivial = c.accepted > 0 && c.refused + c.restarts > 0;
    let _ = begin;
}
