//! Cooperative scheduler: sessions run on parked threads, one holds the baton at a time and only the
//! controller (driven by the choice tape) decides who gets it next and for how long: a number of
//! back-end calls, or a number of memory allocations and releases, which reaches the points in between,
//! or that and then a number of machine instructions of this program (single-stepped), which reaches the rest.
//!
//! A session that waits for something another session holds (a lock of the code under test) cannot give
//! the baton back. It is set aside until it moves again; if nobody can move, the sessions are deadlocked.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::Duration;

struct St {
    /// true: the task may run
    turn: bool,
    budget: u64,
    mem: Option<u64>,
    /// instructions to go on for after the last allocation
    ins: u64,
    done: bool,
    stuck: bool,
    tid: i32,
}
type Shared = Arc<(Mutex<Vec<St>>, Condvar)>;
pub struct TaskCtl {
    id: usize,
    st: Shared,
}

thread_local! {
    /// allocations left before the thread gives the baton back
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// instructions left before the thread gives the baton back
    static INS: Cell<u64> = const { Cell::new(0) };
    /// the thread runs the scheduler
    static HERE: Cell<bool> = const { Cell::new(false) };
    static CTL: Cell<*const TaskCtl> = const { Cell::new(std::ptr::null()) };
}
/// The allocator of the simulator: a seam for context switches inside the library's own computations.
pub struct SwitchingAlloc;
#[inline]
fn at_alloc() {
    let _ = LEFT.try_with(|l| {
        let n = l.get();
        if n == u64::MAX {
            return;
        }
        if n > 0 {
            l.set(n - 1);
            return;
        }
        l.set(u64::MAX);
        if INS.with(|i| i.get()) > 0 {
            single_step(true);
            return;
        }
        let c = CTL.with(|c| c.get());
        if !c.is_null() {
            unsafe { (*c).give_back() }
        }
    });
}

pub static STEPPED: AtomicU64 = AtomicU64::new(0);
static CODE: OnceLock<(usize, usize)> = OnceLock::new();

#[cfg(target_arch = "x86_64")]
fn single_step(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}
#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
    let g = unsafe { &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs };
    let at = g[libc::REG_RIP as usize] as usize;
    let (from, to) = *CODE.get().unwrap_or(&(0, 0));
    // only between instructions of this program: the C library must not be left halfway
    if at < from || at >= to || HERE.with(|h| h.get()) {
        return;
    }
    STEPPED.fetch_add(1, Ordering::Relaxed);
    let n = INS.with(|i| {
        i.set(i.get().saturating_sub(1));
        i.get()
    });
    if n == 0 {
        g[libc::REG_EFL as usize] &= !0x100;
        let c = CTL.with(|c| c.get());
        if !c.is_null() {
            unsafe { (*c).give_back() }
        }
    }
}
/// Whether single-stepping works here; sets it up.
#[cfg(target_arch = "x86_64")]
pub fn can_step() -> bool {
    static OK: OnceLock<bool> = OnceLock::new();
    *OK.get_or_init(|| {
        let here = can_step as usize;
        let Ok(maps) = std::fs::read_to_string("/proc/self/maps") else { return false };
        let seg = maps.lines().find_map(|l| {
            let (a, b) = l.split_whitespace().next()?.split_once('-')?;
            let (a, b) = (usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?);
            if (a..b).contains(&here) { Some((a, b)) } else { None }
        });
        let Some(seg) = seg else { return false };
        if CODE.set(seg).is_err() {
            return false;
        }
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_trap as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()) == 0
        }
    })
}
#[cfg(not(target_arch = "x86_64"))]
fn single_step(_: bool) {}
#[cfg(not(target_arch = "x86_64"))]
pub fn can_step() -> bool {
    false
}
unsafe impl GlobalAlloc for SwitchingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        at_alloc();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        at_alloc();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        at_alloc();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        at_alloc();
        System.realloc(p, l, n)
    }
}

impl TaskCtl {
    /// Called by the simulated back-end inside a task.
    pub fn yield_point(&self) {
        HERE.with(|h| h.set(true));
        self.at_call();
        HERE.with(|h| h.set(false));
    }
    fn at_call(&self) {
        {
            let mut g = self.st.0.lock().unwrap();
            let s = &mut g[self.id];
            if s.mem.is_some() {
                return;
            }
            if s.budget > 0 {
                s.budget -= 1;
                return;
            }
        }
        self.give_back();
        let mut g = self.st.0.lock().unwrap();
        let s = &mut g[self.id];
        if s.mem.is_none() && s.budget > 0 {
            s.budget -= 1;
        }
    }
    /// Gives the baton back and waits for it. Does not allocate.
    fn give_back(&self) {
        let was = HERE.with(|h| h.replace(true));
        let mut g = self.st.0.lock().unwrap();
        g[self.id].turn = false;
        self.st.1.notify_all();
        self.wait(g);
        HERE.with(|h| h.set(was));
    }
    fn wait(&self, mut g: MutexGuard<Vec<St>>) {
        while !g[self.id].turn {
            g = self.st.1.wait(g).unwrap();
        }
        let left = g[self.id].mem.unwrap_or(u64::MAX);
        let ins = g[self.id].ins;
        drop(g);
        INS.with(|i| i.set(ins));
        LEFT.with(|l| l.set(left));
    }
}

pub enum Step {
    Yielded,
    /// waits for another session
    Stuck,
}
pub struct Sched {
    st: Shared,
    joins: Vec<std::thread::JoinHandle<()>>,
    pub switches: u64,
    pub set_aside: u64,
}

/// Scheduler state and processor time of a thread of this process.
fn look(tid: i32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some((f[0].chars().next()?, t))
}

impl Sched {
    pub fn new() -> Self {
        Sched { st: Arc::new((Mutex::new(Vec::new()), Condvar::new())), joins: vec![], switches: 0, set_aside: 0 }
    }
    /// Adds a task; it does not start before it is given the baton.
    pub fn spawn<G: FnOnce(Arc<TaskCtl>) + Send + 'static>(&mut self, g: G) -> usize {
        let id = {
            let mut v = self.st.0.lock().unwrap();
            v.push(St { turn: false, budget: 0, mem: None, ins: 0, done: false, stuck: false, tid: 0 });
            v.len() - 1
        };
        let ctl = Arc::new(TaskCtl { id, st: self.st.clone() });
        let st = self.st.clone();
        self.joins.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let c2 = ctl.clone();
                    CTL.with(|c| c.set(Arc::as_ptr(&ctl)));
                    {
                        let mut s = st.0.lock().unwrap();
                        s[id].tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                        st.1.notify_all();
                        ctl.wait(s);
                    }
                    // sessions catch their own panics; an escaping one is seen as a missing result
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || g(c2)));
                    HERE.with(|h| h.set(true));
                    single_step(false);
                    LEFT.with(|l| l.set(u64::MAX));
                    CTL.with(|c| c.set(std::ptr::null()));
                    let mut s = st.0.lock().unwrap();
                    s[id].done = true;
                    s[id].turn = false;
                    st.1.notify_all();
                })
                .unwrap(),
        );
        // so that the thread exists before anything is decided
        let mut s = self.st.0.lock().unwrap();
        while s[id].tid == 0 {
            s = self.st.1.wait(s).unwrap();
        }
        id
    }
    /// Tasks that can be given the baton, and whether any is left at all.
    pub fn runnable(&self) -> (Vec<usize>, bool) {
        let s = self.st.0.lock().unwrap();
        let v = (0..s.len()).filter(|i| !s[*i].done && !s[*i].stuck).collect();
        (v, s.iter().any(|x| !x.done))
    }
    /// Waits until the task has given the baton back, or sleeps although it holds it.
    fn settle(&self, id: usize) -> Step {
        let mut s = self.st.0.lock().unwrap();
        let mut seen: Option<u64> = None;
        let mut same = 0;
        loop {
            if !s[id].turn {
                s[id].stuck = false;
                return Step::Yielded;
            }
            let tid = s[id].tid;
            let (g, to) = self.st.1.wait_timeout(s, Duration::from_millis(5)).unwrap();
            s = g;
            if s[id].turn && to.timed_out() {
                drop(s);
                match look(tid) {
                    Some(('S', cpu)) => {
                        same = if seen == Some(cpu) { same + 1 } else { 0 };
                        seen = Some(cpu);
                    }
                    _ => same = 0,
                }
                s = self.st.0.lock().unwrap();
                if s[id].turn && same >= 4 {
                    s[id].stuck = true;
                    return Step::Stuck;
                }
            }
        }
    }
    /// Gives task `id` the baton for up to `quantum` back-end calls or memory allocations and then `ins` instructions.
    pub fn step(&mut self, id: usize, quantum: u64, mem: bool, ins: u64) {
        {
            let mut s = self.st.0.lock().unwrap();
            s[id].budget = quantum;
            s[id].mem = if mem { Some(quantum) } else { None };
            s[id].ins = ins;
            s[id].turn = true;
            self.st.1.notify_all();
        }
        self.switches += 1;
        if let Step::Stuck = self.settle(id) {
            self.set_aside += 1;
            return;
        }
        // the step may have let others go on
        loop {
            let stuck: Vec<usize> = {
                let s = self.st.0.lock().unwrap();
                (0..s.len()).filter(|i| s[*i].stuck).collect()
            };
            let moved = stuck.iter().filter(|i| matches!(self.settle(**i), Step::Yielded)).count();
            if moved == 0 {
                break;
            }
        }
    }
    pub fn finish(self) {
        for j in self.joins {
            let _ = j.join();
        }
    }
}
