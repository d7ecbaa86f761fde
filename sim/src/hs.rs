//! The repository's own header step (`BlockHeader` as a Nova step circuit) fed by an unreliable relay:
//! real headers of the block chain, corrupted and misplaced ones, crashes and restarts from the saved
//! state. Listed findings are reported by key, everything else is a violation.
use crate::cs::{CsCfg, Loss, SimCrash, SimCs};
use crate::fields::*;
use crate::model::pow2;
use crate::r1cs::first_unsat;
use crate::tape::{hash_str, Tape};
use crate::world::*;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::ConstraintSystem;
use ff::{PrimeField, PrimeFieldBits};
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::BigInt;
use num_traits::Zero;
use std::panic::{catch_unwind, AssertUnwindSafe};
use validate_btc_header::btc_validation::header_step::BlockHeader;

type Words = [u64; 10];
const GENESIS_HASH: &str = "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f";
const BLOCK1_HASH: &str = "00000000839a8e6886ab5951d76f411475428afc90947ee320161bbf18eb6048";
const BLOCK2_HASH: &str = "000000006a625f06636b8bb6ac7b960a8d03705d1ace08b1a19da3fdcc99ddbd";
const H123455: &str = "0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095";
const H123456: &str = "0000000000002917ed80650c6174aac8dfc46f5fe36480aaef682ff6cd83c3ca";
const BLOCK1: Words = [
    0x010000006fe28c0a, 0xb6f1b372c1a6a246, 0xae63f74f931e8365, 0xe15a089c68d61900, 0x00000000982051fd,
    0x1e4ba744bbbe680e, 0x1fee14677ba1a3c3, 0x540bf7b1cdb606e8, 0x57233e0e61bc6649, 0xffff001d01e36299,
];
const BLOCK2: Words = [
    0x010000004860eb18, 0xbf1b1620e37e9490, 0xfc8a427514416fd7, 0x5159ab86688e9a83, 0x00000000d5fdcc54,
    0x1e25de1c7a5added, 0xf24858b8bb665c9f, 0x36ef744ee42c3160, 0x22c90f9bb0bc6649, 0xffff001d08d2bd61,
];
const B123456: Words = [
    0x010000009500c43a, 0x25c624520b5100ad, 0xf82cb9f9da72fd24, 0x47a496bc600b0000, 0x000000006cd86237,
    0x0395dedf1da2841c, 0xcda0fc489e3039de, 0x5f1ccddef0e83499, 0x1a65600ea6c8cb4d, 0xb3936a1ae3143991,
];
const TIMES: [u64; 11] = [
    1305191152, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947, 1305197900, 1305199436, 1305200301,
    1305200460, 1305200584,
];

fn hex(s: &str) -> BigInt {
    BigInt::parse_bytes(s.as_bytes(), 16).unwrap()
}
/// The light client's state: tip hash, eleven timestamps, target, epoch start, counter, work.
fn state(tip: &str, times: &[u64; 11], target: BigInt, start: u64, counter: u64) -> Vec<BigInt> {
    let mut z = vec![hex(tip)];
    z.extend(times.iter().map(|t| BigInt::from(*t)));
    z.extend([target, BigInt::from(start), BigInt::from(counter), BigInt::zero()]);
    z
}
struct Base {
    name: &'static str,
    z: Vec<BigInt>,
    h: Words,
    hash: BigInt,
    ts: u64,
    target: BigInt,
}
fn bases() -> Vec<Base> {
    let g = 1231006505u64;
    let t0: BigInt = BigInt::from(0xffffu32) << 208usize;
    let t1: BigInt = BigInt::from(0x6a93b3u32) << 184usize;
    let mut w = [g; 11];
    let b1 = state(GENESIS_HASH, &w, t0.clone(), g, 1);
    w[10] = 1231469665;
    let b2 = state(BLOCK1_HASH, &w, t0.clone(), g, 2);
    vec![
        Base { name: "block 123456", z: state(H123455, &TIMES, t1.clone(), 1304975844, 480), h: B123456, hash: hex(H123456), ts: 1305200806, target: t1 },
        Base { name: "block 1", z: b1, h: BLOCK1, hash: hex(BLOCK1_HASH), ts: 1231469665, target: t0.clone() },
        Base { name: "block 2", z: b2, h: BLOCK2, hash: hex(BLOCK2_HASH), ts: 1231469744, target: t0 },
    ]
}

fn known(key: &str) -> bool {
    use std::sync::OnceLock;
    static K: OnceLock<Vec<String>> = OnceLock::new();
    K.get_or_init(|| crate::report::known(&crate::verif(), "C13").into_iter().map(|x| x.0).collect())
        .iter()
        .any(|k| k == key)
}
fn keyed(rep: &mut Rep, key: &str, detail: String) {
    if known(key) {
        rep.found.push((key.to_string(), detail));
    } else {
        rep.fail(key, detail);
    }
}

/// A step that panics, as recorded or otherwise.
fn panicked(rep: &mut Rep, valid: bool, other_tip: bool, m: String, tip_used: bool, desc: &str) {
    let overflow = m.contains("attempt to ");
    let key = match valid {
        // recorded: the arithmetic on the header's bytes overflows
        true if overflow => "valid-header-panics",
        true => "valid-header-panics-otherwise",
        // recorded: the tip is looked at first, and a header on another tip goes no further
        false if other_tip && tip_used && overflow => "tip-not-checked",
        false => "invalid-header-panics",
    };
    keyed(rep, key, format!("{}: {}", desc, m));
}

enum Out<F: PrimeField> {
    Ok(SimCs<F>, Vec<AllocatedNum<F>>),
    Err(String),
    Crash,
    /// the message, and whether the saved tip had been used in a constraint by then
    Panic(String, bool),
}
fn step<F: PrimeField + PrimeFieldBits>(c: &BlockHeader<F>, z: &[BigInt], cfg: CsCfg, setup: bool, rep: &mut Rep) -> Out<F> {
    let mut cs: SimCs<F> = SimCs::with(cfg);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut zs = vec![];
        for (i, v) in z.iter().enumerate() {
            let v: F = n2f(v);
            let a = AllocatedNum::alloc(cs.namespace(|| format!("z{}", i)), || {
                if setup {
                    Err(bellpepper_core::SynthesisError::AssignmentMissing)
                } else {
                    Ok(v)
                }
            })?;
            zs.push(a);
        }
        c.synthesize(&mut cs, &zs)
    }));
    rep.st.add("attempts", 1);
    rep.st.add("back-end calls", cs.calls as u64);
    rep.log(cs.calls as u64);
    match r {
        Ok(Ok(o)) => Out::Ok(cs, o),
        Ok(Err(e)) => Out::Err(format!("{:?}", e)),
        Err(p) if p.is::<SimCrash>() => Out::Crash,
        Err(_) => {
            let used = cs.cons.iter().any(|(a, b, c)| [a, b, c].iter().any(|l| l.iter().any(|x| x.0 == 1)));
            Out::Panic(last_panic(), used)
        }
    }
}

/// The first values a step gives to the back-end.
fn begins<F: PrimeField + PrimeFieldBits>(c: &BlockHeader<F>, z: &[BigInt], cut: usize, rep: &mut Rep) -> Vec<Option<F>> {
    let mut cs: SimCs<F> = SimCs::with(CsCfg { crash: Some(cut), ..Default::default() });
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let zs: Vec<_> = z
            .iter()
            .enumerate()
            .map(|(i, v)| AllocatedNum::alloc(cs.namespace(|| format!("z{}", i)), || Ok(n2f(v))).unwrap())
            .collect();
        let _ = c.synthesize(&mut cs, &zs);
    }));
    rep.st.add("attempts", 1);
    cs.vals.clone()
}

pub fn c13(t: &mut Tape, rep: &mut Rep) {
    if t.chance(1, 2) {
        c13_on::<Pallas>(t, rep)
    } else {
        c13_on::<Vesta>(t, rep)
    }
}
fn c13_on<F: PrimeField + PrimeFieldBits>(t: &mut Tape, rep: &mut Rep) {
    // what a client starts from
    let z0: Vec<BigInt> = BlockHeader::<F>::initial_z_i_scalars().iter().map(f2n).collect();
    let bs = bases();
    if z0 != bs[0].z {
        return rep.fail("the initial state is not the chain's", format!("{:?}", z0));
    }
    let hs: Vec<Words> = bs.iter().map(|b| b.h).collect();
    let made = BlockHeader::<F>::new_blocks(hs.clone());
    if made.len() != hs.len() || BlockHeader::<F>::default().arity() != z0.len() || made.iter().any(|c| c.arity() != z0.len()) {
        return rep.fail("the step does not fit its state", format!("{} steps, arity {}, state {}", made.len(), made[0].arity(), z0.len()));
    }
    rep.nontrivial = true;
    // step i of a batch is made from header i: it starts exactly as the step of that header alone
    let mut order: Vec<usize> = (0..bs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, t.usize(i + 1));
    }
    let batch = BlockHeader::<F>::new_blocks(order.iter().map(|i| bs[*i].h).collect());
    let at = t.usize(order.len());
    let b = &bs[order[at]];
    let one = BlockHeader::<F>::new_blocks(vec![b.h]);
    if batch.len() != order.len() || one.len() != 1 {
        return rep.fail("a batch of headers does not give one step each", format!("{} for {:?}", batch.len(), order));
    }
    let cut = 200 + t.usize(400);
    if begins(&batch[at], &b.z, cut, rep) != begins(&one[0], &b.z, cut, rep) {
        return rep.fail("a step is not made from its header", format!("step {} of {:?}", at, order));
    }
    let n = t.range(1, 3);
    let mut shapes = vec![];
    for _ in 0..n {
        let k = t.usize(bs.len());
        let b = &bs[k];
        let mut z = b.z.clone();
        let mut h = b.h;
        let mut valid = true;
        let mut setup = false;
        let what = match t.weighted(&[4, 2, 3, 2, 2, 1, 1]) {
            0 => "delivered".to_string(),
            1 => {
                setup = true;
                "setup".to_string()
            }
            2 => {
                let (i, j) = (t.usize(10), t.usize(64));
                h[i] ^= 1 << j;
                valid = false;
                rep.st.add("fault: corrupted header", 1);
                format!("bit {} of word {} flipped", j, i)
            }
            3 => {
                // delivered to a client elsewhere on the chain: reordered or duplicated
                let o = (k + 1 + t.usize(2)) % 3;
                z = bs[o].z.clone();
                valid = false;
                rep.st.add("fault: reordered header", 1);
                format!("on the state before {}", bs[o].name)
            }
            4 => {
                // the client's window is later than the header
                let i = t.usize(6);
                for x in z[1 + i..=11].iter_mut() {
                    *x = BigInt::from(b.ts + t.choose(5000));
                }
                valid = false;
                rep.st.add("fault: stale header", 1);
                "not above the median".to_string()
            }
            5 => {
                z[12] = (&z[12] >> (1 + t.usize(4))) + t.usize(3);
                valid = false;
                rep.st.add("fault: wrong target", 1);
                "another target required".to_string()
            }
            _ => {
                z[0] = &z[0] ^ pow2(t.usize(224));
                valid = false;
                rep.st.add("fault: wrong tip", 1);
                "another tip".to_string()
            }
        };
        let mut cfg = CsCfg::default();
        if setup {
            cfg.loss = Loss::From(0);
        } else {
            match t.usize(6) {
                0 => cfg.crash = Some(t.usize(4000)),
                1 => cfg.refuse = Some((t.usize(4000), t.chance(1, 2))),
                _ => {}
            }
        }
        let refused = cfg.refuse.is_some();
        let desc = format!("{} {} {:?}", b.name, what, (cfg.crash, cfg.refuse));
        rep.sample = format!("{} | {}", rep.sample, desc);
        shapes.push(hash_str(&desc));
        rep.log_str(&desc);
        let c = BlockHeader::<F>::new_blocks(vec![h]).remove(0);
        let out = step::<F>(&c, &z, cfg.clone(), setup, rep);
        match out {
            Out::Crash => {
                rep.st.add("fired: crash", 1);
                rep.st.add("client restarts", 1);
                // from the saved state, without faults
                match step::<F>(&c, &z, CsCfg::default(), false, rep) {
                    Out::Panic(m, used) => panicked(rep, valid, z[0] != b.z[0], m, used, &desc),
                    Out::Ok(cs, o) => verdict(rep, b, &z, valid, &desc, cs, o),
                    Out::Err(m) if valid => rep.fail("a valid header was refused", format!("{}: {}", desc, m)),
                    _ => {}
                }
            }
            Out::Panic(m, _) if setup => keyed(rep, "setup-panics", format!("{}: {}", desc, m)),
            // the step also unwraps a refused allocation
            Out::Panic(m, _) if refused && !m.contains("attempt to ") => {
                keyed(rep, if valid { "valid-header-panics" } else { "invalid-header-panics" }, format!("{}: {}", desc, m))
            }
            Out::Panic(m, used) => panicked(rep, valid, z[0] != b.z[0], m, used, &desc),
            Out::Err(m) if setup => rep.fail("the step cannot be set up", m),
            Out::Err(m) => {
                if valid && !refused {
                    return rep.fail("a valid header was refused", format!("{}: {}", desc, m));
                }
                rep.st.add("refused with an error", 1);
            }
            Out::Ok(_, o) if setup => {
                if o.len() != z.len() {
                    return rep.fail("the step does not fit its state", format!("{} outputs", o.len()));
                }
            }
            Out::Ok(cs, o) => verdict(rep, b, &z, valid, &desc, cs, o),
        }
        if rep.viol.is_some() {
            return;
        }
    }
    for s in shapes {
        rep.shape = rep.shape.rotate_left(11) ^ s;
    }
}

fn verdict<F: PrimeField>(rep: &mut Rep, b: &Base, z: &[BigInt], valid: bool, desc: &str, cs: SimCs<F>, o: Vec<AllocatedNum<F>>) {
    let sat = match cs.assignment() {
        Some(x) => first_unsat(&cs.cons, &x).is_none(),
        None => false,
    };
    match (valid, sat) {
        (false, true) => return rep.fail("an invalid header was accepted", desc.to_string()),
        (true, false) => return rep.fail("a valid header was refused", format!("{}: not satisfied", desc)),
        (false, false) => return,
        _ => {}
    }
    let got: Vec<BigInt> = o.iter().map(|x| x.get_value().map(|v| f2n(&v)).unwrap_or_else(|| BigInt::from(-1))).collect();
    let mut want = vec![b.hash.clone()];
    want.extend(z[2..=11].iter().cloned());
    want.push(BigInt::from(b.ts));
    want.push(b.target.clone());
    want.push(z[13].clone());
    want.push(&z[14] + 1);
    if got.len() != 16 || got[..15] != want[..] {
        rep.fail("the state was not advanced by the header", format!("{}: {:?}", desc, got));
    }
}
