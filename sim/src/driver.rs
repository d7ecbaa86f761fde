//! Runs batches of simulated executions. Every run happens in a process of its own, so no state of an
//! earlier run can leak into it; the parent only hands out run numbers and collects reports.
use crate::tape::{run_seed, Digest, Tape};
use crate::world::{install_panic_hook, last_panic, Rep};
use crate::worlds::all;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub type World = fn(&mut Tape, &mut Rep);

/// CPU seconds and wall seconds after which a run counts as hanging (a usual run takes well under one)
const CPU_LIMIT: u64 = 90;
const WALL_LIMIT: u32 = 400;

fn pipe() -> (i32, i32) {
    let mut p = [0i32; 2];
    let r = unsafe { libc::pipe(p.as_mut_ptr()) };
    assert!(r == 0, "pipe");
    (p[0], p[1])
}
fn limits() {
    unsafe {
        let c = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &c);
        let m = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &m);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::alarm(WALL_LIMIT);
        let n = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        if n >= 0 {
            libc::dup2(n, 2);
            // nothing the code under test prints may end up in the check's report
            libc::dup2(n, 1);
            libc::close(n);
        }
    }
}

/// Runs a closure in a fresh child process.
pub struct Child {
    pid: i32,
    fd: i32,
}
pub fn spawn<G: FnOnce() -> String>(g: G) -> Child {
    let (r, w) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(r) };
        limits();
        let out = catch_unwind(AssertUnwindSafe(g));
        if let Ok(s) = out {
            let mut f = unsafe { std::fs::File::from_raw_fd(w) };
            let _ = f.write_all(s.as_bytes());
            let _ = f.write_all(b"\n#end\n");
            drop(f);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::_exit(3) }
    }
    unsafe { libc::close(w) };
    Child { pid, fd: r }
}
impl Child {
    /// the closure's answer, or how the process ended
    pub fn join(self) -> Result<String, String> {
        let mut s = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(self.fd) };
        let _ = f.read_to_string(&mut s);
        drop(f);
        let mut st = 0i32;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, 0) };
            if r == self.pid || (r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR)) {
                break;
            }
        }
        if let Some(x) = s.strip_suffix("\n#end\n") {
            return Ok(x.to_string());
        }
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            return Err(match sig {
                libc::SIGXCPU | libc::SIGALRM => "did not finish".to_string(),
                libc::SIGKILL => "killed".to_string(),
                s => format!("died of signal {}", s),
            });
        }
        Err(format!("ended with status {}", libc::WEXITSTATUS(st)))
    }
}
pub fn in_fork<G: FnOnce() -> String>(g: G) -> Option<String> {
    spawn(g).join().ok()
}

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub viol: Option<(String, String)>,
    pub found: Vec<(String, String)>,
    pub st: BTreeMap<String, u64>,
    pub log: u64,
    pub nontrivial: bool,
    pub shape: u64,
    pub sample: String,
    pub harness: Option<String>,
    pub tape: Option<Vec<u64>>,
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
impl Res {
    fn enc(&self) -> String {
        let mut s = String::new();
        if let Some((a, b)) = &self.viol {
            s += &format!("v\t{}\t{}\n", esc(a), esc(b));
        }
        for (a, b) in &self.found {
            s += &format!("f\t{}\t{}\n", esc(a), esc(b));
        }
        for (k, n) in &self.st {
            s += &format!("s\t{}\t{}\n", esc(k), n);
        }
        s += &format!("l\t{}\t{}\n", self.log, self.shape);
        if self.nontrivial {
            s += "n\t\t\n";
        }
        s += &format!("x\t{}\t\n", esc(&self.sample));
        if let Some(h) = &self.harness {
            s += &format!("h\t{}\t\n", esc(h));
        }
        if let Some(t) = &self.tape {
            s += &format!("t\t{}\t\n", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        }
        s
    }
    fn dec(s: &str) -> Res {
        let mut r = Res::default();
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() < 3 {
                continue;
            }
            match p[0] {
                "v" => r.viol = Some((unesc(p[1]), unesc(p[2]))),
                "f" => r.found.push((unesc(p[1]), unesc(p[2]))),
                "s" => {
                    r.st.insert(unesc(p[1]), p[2].parse().unwrap_or(0));
                }
                "l" => {
                    r.log = p[1].parse().unwrap_or(0);
                    r.shape = p[2].parse().unwrap_or(0);
                }
                "n" => r.nontrivial = true,
                "x" => r.sample = unesc(p[1]),
                "h" => r.harness = Some(unesc(p[1])),
                "t" => r.tape = Some(p[1].split(',').filter_map(|x| x.parse().ok()).collect()),
                _ => {}
            }
        }
        r
    }
}

#[derive(Clone)]
pub enum Input {
    Seed(u64),
    Tape(Vec<u64>),
}

fn body(w: World, i: Input) -> String {
    install_panic_hook();
    let mut t = match i {
        Input::Seed(s) => Tape::fresh(s),
        Input::Tape(v) => Tape::replay(v),
    };
    let mut rep = Rep::default();
    let r = catch_unwind(AssertUnwindSafe(|| w(&mut t, &mut rep)));
    if r.is_err() && rep.viol.is_none() {
        rep.harness = Some(format!("harness panic: {}", last_panic()));
    }
    let sim = crate::chain::SIM_SECONDS.with(|s| s.get());
    if sim > 0 {
        rep.st.add("simulated seconds", sim);
    }
    let cf = crate::chain::CLOCK_FAULTS.with(|c| c.get());
    for (k, n) in ["fault: clock jump", "fault: clock stall", "fault: clock skew reversal", "fault: reordered delivery", "fault: clock reset"].iter().zip(cf) {
        if n > 0 {
            rep.st.add(k, n);
        }
    }
    if let Some((c, d)) = rep.viol.clone() {
        rep.log_str(&c);
        rep.log_str(&d);
    }
    let res = Res {
        log: rep.log.map(|d| d.get()).unwrap_or(0),
        tape: if rep.viol.is_some() || rep.harness.is_some() { Some(t.used()) } else { None },
        viol: rep.viol,
        found: rep.found,
        st: rep.st.m,
        nontrivial: rep.nontrivial,
        shape: rep.shape,
        sample: rep.sample.chars().take(1500).collect(),
        harness: rep.harness,
    };
    res.enc()
}
fn finish(c: Child) -> Res {
    match c.join() {
        Ok(s) => Res::dec(&s),
        Err(e) if e == "killed" => Res { harness: Some("run killed from outside".into()), ..Default::default() },
        Err(e) => Res {
            viol: Some(("the process of the run".into(), e)),
            ..Default::default()
        },
    }
}
pub fn run(w: World, i: Input) -> Res {
    finish(spawn(move || body(w, i)))
}

// ---------------------------------------------------------------------------------------- batches

#[derive(Default)]
pub struct Batch {
    pub runs: u64,
    pub nontrivial: u64,
    pub shapes: BTreeSet<u64>,
    pub st: BTreeMap<String, u64>,
    pub samples: BTreeMap<u64, String>,
    pub found: BTreeMap<String, (u64, String)>,
    pub viols: BTreeMap<u64, Res>,
    pub harness: BTreeMap<u64, String>,
    pub digest: u64,
    pub logs: BTreeMap<u64, u64>,
    pub slowest_ms: u64,
    pub slowest_run: u64,
    pub capped: bool,
}

struct Shared {
    next: AtomicU64,
    min_viol: AtomicU64,
}
fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let s = p as *mut Shared;
        (*s).next = AtomicU64::new(0);
        (*s).min_viol = AtomicU64::new(u64::MAX);
        &*s
    }
}

pub fn workers() -> usize {
    std::env::var("VSIM_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4))
        .clamp(1, 16)
}

/// Runs 0..n of a property's batch; stops after the lowest violating run.
pub fn batch(prop: &str, w: World, seed: u64, n: u64, cap_s: u64, stop: bool) -> Batch {
    let sh = shared();
    sh.next.store(0, Ordering::SeqCst);
    sh.min_viol.store(u64::MAX, Ordering::SeqCst);
    let t0 = Instant::now();
    let mut kids = vec![];
    for _ in 0..workers() {
        let (r, wr) = pipe();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::close(r) };
            let mut agg = String::new();
            let mut st: BTreeMap<String, u64> = BTreeMap::new();
            let mut samples = 0;
            let mut shapes = BTreeSet::new();
            let (mut runs, mut nontriv, mut slow) = (0u64, 0u64, (0u64, 0u64));
            let mut found: BTreeMap<String, (u64, String)> = BTreeMap::new();
            loop {
                if t0.elapsed().as_secs() >= cap_s {
                    agg += "C\n";
                    break;
                }
                let i = sh.next.fetch_add(1, Ordering::SeqCst);
                if i >= n || (stop && i > sh.min_viol.load(Ordering::SeqCst)) {
                    break;
                }
                let t1 = Instant::now();
                let r = run(w, Input::Seed(run_seed(seed, prop, i)));
                let ms = t1.elapsed().as_millis() as u64;
                if ms > slow.0 {
                    slow = (ms, i);
                }
                runs += 1;
                for (k, v) in &r.st {
                    *st.entry(k.clone()).or_insert(0) += v;
                }
                if r.nontrivial {
                    nontriv += 1;
                    shapes.insert(r.shape);
                    if samples < 2 {
                        samples += 1;
                        agg += &format!("X\t{}\t{}\n", i, esc(&r.sample));
                    }
                }
                agg += &format!("L\t{}\t{}\n", i, r.log);
                for (k, d) in &r.found {
                    let e = found.entry(k.clone()).or_insert((0, d.clone()));
                    e.0 += 1;
                }
                if let Some(h) = &r.harness {
                    agg += &format!("H\t{}\t{}\n", i, esc(h));
                }
                if r.viol.is_some() {
                    sh.min_viol.fetch_min(i, Ordering::SeqCst);
                    agg += &format!("V\t{}\t{}\n", i, esc(&r.enc()));
                }
            }
            for (k, v) in st {
                agg += &format!("S\t{}\t{}\n", esc(&k), v);
            }
            for s in shapes {
                agg += &format!("D\t{}\n", s);
            }
            for (k, (c, d)) in found {
                agg += &format!("F\t{}\t{}\t{}\n", esc(&k), c, esc(&d));
            }
            agg += &format!("N\t{}\t{}\t{}\t{}\n#end\n", runs, nontriv, slow.0, slow.1);
            let mut f = unsafe { std::fs::File::from_raw_fd(wr) };
            let _ = f.write_all(agg.as_bytes());
            drop(f);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(wr) };
        kids.push((pid, r));
    }
    let mut b = Batch::default();
    let mut hs = vec![];
    for (pid, r) in kids {
        hs.push((
            pid,
            std::thread::spawn(move || {
                let mut s = String::new();
                let mut f = unsafe { std::fs::File::from_raw_fd(r) };
                let _ = f.read_to_string(&mut s);
                s
            }),
        ));
    }
    for (pid, h) in hs {
        let s = h.join().unwrap_or_default();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !s.ends_with("#end\n") {
            b.harness.insert(u64::MAX, "a worker process died".into());
        }
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            let u = |i: usize| -> u64 { p.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            match p[0] {
                "C" => b.capped = true,
                "X" => {
                    b.samples.insert(u(1), unesc(p[2]));
                }
                "L" => {
                    b.logs.insert(u(1), u(2));
                }
                "H" => {
                    b.harness.insert(u(1), unesc(p[2]));
                }
                "V" => {
                    b.viols.insert(u(1), Res::dec(&unesc(p[2])));
                }
                "S" => *b.st.entry(unesc(p[1])).or_insert(0) += u(2),
                "D" => {
                    b.shapes.insert(u(1));
                }
                "F" => {
                    let e = b.found.entry(unesc(p[1])).or_insert((0, unesc(p[3])));
                    e.0 += u(2);
                }
                "N" => {
                    b.runs += u(1);
                    b.nontrivial += u(2);
                    if u(3) > b.slowest_ms {
                        b.slowest_ms = u(3);
                        b.slowest_run = u(4);
                    }
                }
                _ => {}
            }
        }
    }
    let mut d = Digest::new();
    for (i, l) in &b.logs {
        d.u64(*i);
        d.u64(*l);
    }
    b.digest = d.get();
    b
}

// ---------------------------------------------------------------------------------------- shrinking

/// Reduces a failing tape while the same class of violation is reported.
pub fn shrink(w: World, tape: Vec<u64>, class: &str, budget_s: u64) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut tries = 0u64;
    let par = workers();
    // the first candidate that still fails, with the tape it really used
    let mut attempt = |cands: Vec<Vec<u64>>| -> Option<Vec<u64>> {
        for ch in cands.chunks(par) {
            if t0.elapsed().as_secs() >= budget_s {
                return None;
            }
            let kids: Vec<Child> = ch
                .iter()
                .map(|c| {
                    let c = c.clone();
                    spawn(move || body(w, Input::Tape(c)))
                })
                .collect();
            let rs: Vec<Res> = kids.into_iter().map(finish).collect();
            tries += rs.len() as u64;
            for r in rs {
                if let (Some((c, _)), Some(t)) = (&r.viol, r.tape) {
                    if c == class {
                        return Some(t);
                    }
                }
            }
        }
        None
    };
    let cost = |t: &Vec<u64>| -> (usize, u128) { (t.len(), t.iter().map(|x| *x as u128).sum()) };
    loop {
        let start = cost(&best);
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cands = vec![];
                let mut j = i;
                while j < best.len() && cands.len() < par {
                    let mut c = best.clone();
                    c.drain(j..(j + size).min(c.len()));
                    cands.push(c);
                    j += size;
                }
                match attempt(cands) {
                    Some(t) if cost(&t) < cost(&best) => best = t,
                    _ => i = j,
                }
                if t0.elapsed().as_secs() >= budget_s {
                    return (best, tries);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cands = vec![];
                let mut j = i;
                while j < best.len() && cands.len() < par {
                    let e = (j + size).min(best.len());
                    if best[j..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c[j..e].iter_mut().for_each(|x| *x = 0);
                        cands.push(c);
                    }
                    j += size;
                }
                match attempt(cands) {
                    Some(t) if cost(&t) < cost(&best) => best = t,
                    _ => i = j,
                }
                if t0.elapsed().as_secs() >= budget_s {
                    return (best, tries);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 1 {
                let mut vs = vec![1, v >> 32, v / 2, v - 1];
                vs.retain(|x| *x < v);
                let cands = vs
                    .into_iter()
                    .map(|x| {
                        let mut c = best.clone();
                        c[i] = x;
                        c
                    })
                    .collect();
                match attempt(cands) {
                    Some(t) if cost(&t) < cost(&best) => {
                        best = t;
                        continue;
                    }
                    _ => {}
                }
            }
            i += 1;
            if t0.elapsed().as_secs() >= budget_s {
                return (best, tries);
            }
        }
        if cost(&best) >= start {
            return (best, tries);
        }
    }
}

pub fn world(prop: &str) -> Option<World> {
    all().into_iter().find(|x| x.0 == prop).map(|x| x.1)
}
