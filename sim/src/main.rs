mod adv;
mod bv;
mod chain;
mod cs;
mod driver;
mod exec;
mod fields;
mod hs;
mod lc;
mod mis;
mod model;
mod r1cs;
mod report;
mod sched;
mod tape;
mod world;
mod worlds;

#[global_allocator]
static ALLOC: sched::SwitchingAlloc = sched::SwitchingAlloc;

use driver::{batch, run, shrink, world, Input};
use std::path::PathBuf;
use std::time::Instant;
use tape::run_seed;

pub fn verif() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], a.get(3).map(|s| s.as_str())),
        Some("replay") => replay(&a[2]),
        Some("run") => one(&a[2], a[3].parse().unwrap()),
        Some("sweep") => sweep(&a[2], a[3].parse().unwrap(), a.get(4).and_then(|x| x.parse().ok()).unwrap_or(300)),
        _ => {
            eprintln!("usage: vsim check <property> [quick|thorough] | replay <file> | run <property> <run> | sweep <property> <runs> [s]");
            2
        }
    };
    std::process::exit(code);
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1)
}

/// one run of the batch, shown
fn one(prop: &str, i: u64) -> i32 {
    let w = world(prop).expect("property");
    let r = run(w, Input::Seed(run_seed(seed(), prop, i)));
    println!("{}", r.sample);
    println!("{:?} {:?} nontrivial {} log {:016x}", r.viol, r.harness, r.nontrivial, r.log);
    for (k, n) in &r.st {
        println!("  {} {}", k, n);
    }
    for f in &r.found {
        println!("  found {:?}", f);
    }
    0
}

/// all violations by class, for development
fn sweep(prop: &str, n: u64, cap: u64) -> i32 {
    let w = world(prop).expect("property");
    let t0 = Instant::now();
    let b = batch(prop, w, seed(), n, cap, false);
    let mut by: std::collections::BTreeMap<String, (u64, u64, String, String)> = Default::default();
    for (i, r) in &b.viols {
        let (c, d) = r.viol.clone().unwrap();
        let e = by.entry(c).or_insert((0, *i, d, r.sample.clone()));
        e.0 += 1;
    }
    for (c, (n, i, d, s)) in by {
        println!("{:5} x {} | run {}: {}\n      {}", n, c, i, d.chars().take(600).collect::<String>(), s.chars().take(500).collect::<String>());
    }
    for (i, h) in b.harness.iter().take(5) {
        println!("HARNESS run {}: {}", i, h);
    }
    for (k, (n, d)) in &b.found {
        println!("found {} x {}: {}", n, k, d);
    }
    println!(
        "{} runs, {} nontrivial, {} distinct, {} harness, {:.1} s, slowest {} ms (run {}), digest {:016x}",
        b.runs,
        b.nontrivial,
        b.shapes.len(),
        b.harness.len(),
        t0.elapsed().as_secs_f64(),
        b.slowest_ms,
        b.slowest_run,
        b.digest
    );
    if std::env::var("VSIM_STATS").is_ok() {
        for (k, n) in &b.st {
            println!("  {} {}", k, n);
        }
    }
    0
}

fn check(prop: &str, tier: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let tier = tier
        .map(|s| s.to_string())
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let w = match world(prop) {
        Some(w) => w,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let n = worlds::runs(prop, thorough);
    let cap = if thorough { 6 * 3600 } else { 420 };
    let seed = seed();
    let b = batch(prop, w, seed, n, cap, true);
    let wall = t0.elapsed().as_secs_f64();
    for (i, h) in b.harness.iter().take(5) {
        eprintln!("harness error in run {}: {}", i, h);
    }
    let first = b.viols.iter().next().map(|(i, r)| (*i, r.clone()));
    // one seed, one execution: repeat some runs and compare everything they did
    let mut repeated = 0;
    let mut unstable = vec![];
    let step = (b.runs / 24).max(1);
    for i in (0..b.runs).step_by(step as usize) {
        if let Some(l) = b.logs.get(&i) {
            if b.viols.contains_key(&i) {
                continue;
            }
            let r = run(w, Input::Seed(run_seed(seed, prop, i)));
            repeated += 1;
            if r.log != *l {
                unstable.push(i);
            }
        }
    }
    for i in &unstable {
        eprintln!("harness error: run {} is not repeatable", i);
    }
    let known = report::known(&verif(), prop);
    for (k, text) in &known {
        match b.found.get(k) {
            Some((n, d)) => println!("KNOWN-FINDING: property={} {} ({} runs met it; {})", prop, text, n, d),
            None => println!("KNOWN-FINDING: property={} {} (not met in this batch)", prop, text),
        }
    }
    report::evidence(&verif(), prop, &tier, seed, &b, n, repeated, wall, first.is_some());
    if let Some((i, r)) = first {
        let (class, detail) = r.viol.clone().unwrap();
        let (file, shown) = match r.tape.clone() {
            Some(t) => {
                let before = t.len();
                let (tape, tries) = shrink(w, t, &class, 60);
                let rr = run(w, Input::Tape(tape.clone()));
                eprintln!("minimised {} choices to {} in {} executions", before, tape.len(), tries);
                (report::replay_file(&verif(), prop, seed, i, Some(&tape), &rr), rr)
            }
            None => (report::replay_file(&verif(), prop, seed, i, None, &r), r.clone()),
        };
        let (c2, d2) = shown.viol.clone().unwrap_or((class.clone(), detail.clone()));
        println!("{}: {}", c2, d2);
        println!("{}", shown.sample);
        // the replay file must reproduce it in a process of its own
        let exe = std::env::current_exe().unwrap();
        let ok = std::process::Command::new(exe)
            .arg("replay")
            .arg(&file)
            .stdout(std::process::Stdio::null())
            .status()
            .map(|s| s.code() == Some(1))
            .unwrap_or(false);
        if !ok {
            eprintln!("harness error: the replay file does not reproduce the violation");
            return 2;
        }
        println!("found in run {} of seed {} after {:.1} s", i, seed, wall);
        println!("VIOLATION property={} replay={}", prop, file.display());
        return 1;
    }
    if !b.harness.is_empty() || !unstable.is_empty() {
        return 2;
    }
    println!(
        "{} held on {} runs ({} distinct non-trivial), {:.1} s",
        prop,
        b.runs,
        b.shapes.len(),
        wall
    );
    0
}

fn replay(f: &str) -> i32 {
    let s = match std::fs::read_to_string(f) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let r = match report::parse_replay(&s) {
        Some(r) => r,
        None => {
            eprintln!("not a replay file");
            return 2;
        }
    };
    let w = match world(&r.prop) {
        Some(w) => w,
        None => return 2,
    };
    let input = match r.tape {
        Some(t) => Input::Tape(t),
        None => Input::Seed(run_seed(r.seed, &r.prop, r.run)),
    };
    let x = run(w, input);
    println!("{}", x.sample);
    match x.viol {
        Some((c, d)) => {
            println!("{}: {}", c, d);
            if c != r.class || x.log != r.log {
                println!("differs from the recorded execution ({}; digest {:016x} instead of {:016x})", r.class, x.log, r.log);
                return 3;
            }
            println!("VIOLATION property={} replay={}", r.prop, f);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}
