//! Discrete-event simulation of miners with faulty clocks: the source of block timestamps, elapsed
//! times and targets. All times are simulated; one block costs no real time.
use crate::model::*;
use crate::tape::Tape;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::cell::Cell;

thread_local! {
    /// simulated seconds covered by this run
    pub static SIM_SECONDS: Cell<u64> = Cell::new(0);
    pub static CLOCK_FAULTS: Cell<[u64; 5]> = Cell::new([0; 5]);
}
fn clock_fault(k: usize) {
    CLOCK_FAULTS.with(|c| {
        let mut a = c.get();
        a[k] += 1;
        c.set(a);
    });
}

#[derive(Clone, Debug)]
pub struct Miner {
    pub skew: i64,
    pub stalled_at: Option<u32>,
    /// drift in parts per 1024
    pub drift: i64,
}
#[derive(Clone, Debug)]
pub struct Miners {
    pub now: u64,
    pub start: u64,
    pub ms: Vec<Miner>,
}
impl Miners {
    pub fn new(t: &mut Tape) -> Self {
        let now = match t.usize(6) {
            0 => 1_231_006_505,
            1 => 1_700_000_000,
            2 => t.choose(1 << 20),
            3 => u32::MAX as u64 - t.choose(1 << 16),
            _ => 1_231_006_505 + t.choose(1 << 29),
        };
        let n = t.range(1, 4);
        let ms = (0..n)
            .map(|_| Miner {
                skew: match t.usize(4) {
                    0 => 0,
                    1 => t.choose(7200) as i64 - 3600,
                    2 => t.choose(200_000) as i64 - 100_000,
                    _ => 1,
                },
                stalled_at: None,
                drift: t.usize(3) as i64 - 1,
            })
            .collect();
        Miners { now, start: now, ms }
    }
    pub fn advance(&mut self, dt: u64) {
        self.now += dt;
        SIM_SECONDS.with(|s| s.set(s.get() + dt));
    }
    fn read(&self, i: usize) -> u32 {
        let m = &self.ms[i];
        if let Some(x) = m.stalled_at {
            return x;
        }
        let el = (self.now - self.start) as i64;
        let v = self.now as i64 + m.skew + el * m.drift / 1024;
        v.clamp(0, u32::MAX as i64) as u32
    }
    /// One block: time passes, a miner's clock is read (and may fault).
    pub fn block(&mut self, t: &mut Tape) -> u32 {
        let dt = match t.weighted(&[4, 2, 1, 1]) {
            0 => 300 + t.choose(600),
            1 => t.choose(30),
            2 => t.choose(7200),
            _ => 0,
        };
        self.advance(dt);
        let i = t.usize(self.ms.len());
        match t.weighted(&[60, 6, 6, 3, 1]) {
            4 => {
                // the clock comes up with a date of its own
                clock_fault(4);
                let at = wild(t) as i64;
                self.ms[i].stalled_at = None;
                self.ms[i].skew += at - self.read(i) as i64;
            }
            1 => {
                clock_fault(0);
                self.ms[i].skew += t.choose(20_000) as i64 - 10_000
            }
            2 => {
                clock_fault(1);
                self.ms[i].stalled_at = match self.ms[i].stalled_at {
                    None => Some(self.read(i)),
                    Some(_) => None,
                }
            }
            3 => {
                clock_fault(2);
                self.ms[i].skew = -self.ms[i].skew
            }
            _ => {}
        }
        self.read(i)
    }
}

/// A reading of a clock that lost its date.
pub fn wild(t: &mut Tape) -> u32 {
    match t.usize(5) {
        0 => t.choose(3) as u32,
        1 => (1u32 << 31) - 2 + t.choose(4) as u32,
        2 => u32::MAX - t.choose(3) as u32,
        _ => t.choose(1 << 32) as u32,
    }
}

/// A window of an odd number of timestamps as the light client holds it, and a claimed median.
pub fn window(t: &mut Tape) -> (Vec<u32>, u32) {
    let n = match t.weighted(&[6, 1, 1, 1, 1]) {
        0 => 11,
        1 => 1,
        2 => 3,
        3 => 5,
        _ => 1 + 2 * t.usize(9),
    };
    let mut ts: Vec<u32> = if t.chance(1, 5) {
        // independent readings of unsynchronised clocks
        let base = t.choose(u32::MAX as u64 - 16) as u32;
        let lim = *t.pick(&[3, 3, 1 << 20, 1 << 20, 1 << 32]);
        let k = 1 + t.choose(lim);
        (0..n).map(|_| base.saturating_add(t.choose(k) as u32)).collect()
    } else if t.chance(1, 8) {
        // some clocks lost their date altogether
        clock_fault(4);
        let base = wild(t);
        (0..n).map(|_| if t.chance(1, 3) { base.saturating_add(t.choose(9) as u32) } else { wild(t) }).collect()
    } else {
        let mut m = Miners::new(t);
        (0..n).map(|_| m.block(t)).collect()
    };
    // delivery order
    if t.chance(2, 3) {
        clock_fault(3);
        for i in (1..ts.len()).rev() {
            let j = t.usize(i + 1);
            ts.swap(i, j);
        }
    }
    let mut s = ts.clone();
    s.sort();
    let med = s[n / 2];
    let claim = match t.weighted(&[5, 4, 2, 2, 1]) {
        0 => med,
        1 => *t.pick(&s),
        2 => med.saturating_add(1),
        3 => med.saturating_sub(1),
        _ => t.choose(1 << 32) as u32,
    };
    (ts, claim)
}

/// A window of any length, as miners with faulty clocks and a relay that reorders produce it.
pub fn any_window(t: &mut Tape) -> Vec<u32> {
    let n = match t.usize(4) {
        0 => 11,
        1 => 1 + t.usize(12),
        2 => 1 + t.usize(70),
        _ => 1 + t.usize(400),
    };
    let base = wild(t);
    let spread = *t.pick(&[1u64, 3, 40, 7200, 1 << 31]);
    let mut v: Vec<u32> = match t.usize(3) {
        0 => {
            let mut m = Miners::new(t);
            (0..n).map(|_| m.block(t)).collect()
        }
        1 => (0..n).map(|_| base.saturating_add(t.choose(spread) as u32)).collect(),
        _ => (0..n).map(|_| base.saturating_sub(t.choose(spread) as u32)).collect(),
    };
    match t.usize(4) {
        0 => v.sort(),
        1 => v.sort_by(|a, b| b.cmp(a)),
        _ => {}
    }
    v
}

pub fn max_target() -> BigInt {
    BigInt::from(0xffffu32) << 208usize
}

/// An old target and the elapsed time of an epoch measured by miners' clocks.
pub fn retarget_input(t: &mut Tape, out_of_range: bool) -> (BigInt, u32) {
    let old = match t.usize(6) {
        0 => BigInt::from(1 + t.choose(0xffff)) << (8 * t.usize(27)),
        1 => {
            let m = BigInt::from(0x8000 + t.choose(0x7f8000)) << (8 * t.usize(26));
            if m > max_target() {
                max_target()
            } else {
                m
            }
        }
        2 => max_target(),
        3 => BigInt::from(t.choose(4)),
        4 => BigInt::from(t.choose(1 << 40)),
        _ => {
            let k = t.usize(224);
            let mut v = BigInt::zero();
            for _ in 0..4 {
                v = (v << 64usize) + t.choose(0);
            }
            let v = v & ones(k.max(1));
            if v > max_target() {
                max_target()
            } else {
                v
            }
        }
    };
    let lo = TWO_WEEKS / 4;
    let hi = TWO_WEEKS * 4;
    // an epoch: two readings of faulty clocks, 2016 blocks apart
    let mut m = Miners::new(t);
    if m.now > u32::MAX as u64 - 10 * TWO_WEEKS {
        m.now -= 10 * TWO_WEEKS;
        m.start = m.now;
    }
    let first = m.block(t);
    m.advance(match t.usize(4) {
        0 => TWO_WEEKS - t.choose(TWO_WEEKS / 4),
        1 => lo + t.choose(TWO_WEEKS),
        2 => TWO_WEEKS + t.choose(3 * TWO_WEEKS - 300_000),
        _ => t.choose(5 * TWO_WEEKS),
    });
    let last = m.block(t);
    let el = last.saturating_sub(first) as u64;
    let el = match t.weighted(&[5, 1, 1, 1, 1, 2]) {
        0 => el,
        1 => lo + 1,
        2 => hi - 1,
        3 => TWO_WEEKS,
        4 => lo + 1 + t.choose(hi - lo - 1),
        _ => {
            if out_of_range {
                *t.pick(&[lo, hi, lo - 1, hi + 1, 0, 1, u32::MAX as u64, 1 << 31, (1u64 << 32) - TWO_WEEKS])
            } else {
                lo + 1 + t.choose(hi - lo - 1)
            }
        }
    };
    let el = if out_of_range { el } else { el.clamp(lo + 1, hi - 1) };
    let _ = BigInt::one();
    (old, el as u32)
}
