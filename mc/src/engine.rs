//! Stateless explorer: runs a harness once for every sequence of choices, in
//! parallel, with a bound on the number of *deviations* (departures from the
//! default environment answer) and with the abstract states and transitions
//! that the harness reports counted.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing

/// Deterministic 64-bit hasher (FNV-like with a final mix).
#[derive(Clone, Copy)]
pub struct H64(u64);
impl Default for H64 {
    fn default() -> Self {
        Self(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for H64 {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^= x >> 29;
        x
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for &x in it.remainder() {
            self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 31;
    }
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = H64::default();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- violations

#[derive(Clone, Debug)]
pub struct Viol {
    /// Identifies the failing input or history (compared with known findings).
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($key:expr, $($arg:tt)*) => {
        return Err($crate::engine::Viol { key: ($key).to_string(), msg: format!($($arg)*) })
    };
}

// ---------------------------------------------------------------- tiers

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// Pick the bound of this tier.
    pub fn b<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

// ---------------------------------------------------------------- per-run recorder

#[derive(Default)]
pub struct Rec {
    pub execs: u64,
    pub evals: u64,
    pub validated: u64,
    pub choice_points: u64,
    pub max_depth: usize,
    pub states: U64Set,
    pub trans: U64Set,
    pub cases: U64Set,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    pub distinct_extra: u64,
}
const SET_CAP: usize = 2_000_000; // per worker
impl Rec {
    fn merge(&mut self, o: Rec) {
        self.execs += o.execs;
        self.evals += o.evals;
        self.validated += o.validated;
        self.choice_points += o.choice_points;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.states.extend(o.states);
        self.trans.extend(o.trans);
        self.cases.extend(o.cases);
        self.samples.extend(o.samples);
        self.known.extend(o.known);
        self.distinct_extra += o.distinct_extra;
    }
}

// ---------------------------------------------------------------- slots and watchdog

pub struct Slot {
    /// Milliseconds since start (plus one) at which code under test was entered; 0 outside of it.
    enter: AtomicU64,
    choices: Mutex<Vec<u32>>,
    harness: Mutex<String>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static CRASH_SLOT: AtomicUsize = AtomicUsize::new(usize::MAX);
static CRASH_WHY: AtomicUsize = AtomicUsize::new(0);
static START: OnceLock<Instant> = OnceLock::new();
pub static HANG_S: AtomicU64 = AtomicU64::new(60);

thread_local! {
    static SLOT: RefCell<Option<(usize, Arc<Slot>)>> = const { RefCell::new(None) };
    static SLOT_ID: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_IMPL: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}

fn new_slot() -> usize {
    let slot = Arc::new(Slot {
        enter: AtomicU64::new(0),
        choices: Mutex::new(Vec::new()),
        harness: Mutex::new(String::new()),
    });
    let mut slots = SLOTS.lock().unwrap();
    slots.push(slot.clone());
    let id = slots.len() - 1;
    SLOT.with(|s| *s.borrow_mut() = Some((id, slot)));
    SLOT_ID.with(|s| s.set(id));
    id
}

/// Let the calling thread act for the slot of another (threads of a schedule).
pub fn current_slot() -> usize {
    SLOT_ID.with(Cell::get)
}
pub fn adopt_slot(id: usize) {
    SLOT_ID.with(|s| s.set(id));
}

fn set_enter(v: u64) {
    SLOT.with(|s| {
        if let Some((_, s)) = &*s.borrow() {
            s.enter.store(v, Relaxed);
        }
    });
}

/// Run code under test: a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = IN_IMPL.with(|i| i.replace(true));
    if !outer {
        set_enter(now_ms() + 1);
        LIVE.with(|l| l.set(0));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if !outer {
        set_enter(0);
    }
    IN_IMPL.with(|i| i.set(outer));
    r.map_err(|p| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| payload(&*p)))
}

/// Display an error of the library and its causes; a panic if that never ends.
pub fn tell(e: &dyn std::error::Error) {
    struct Nowhere(usize);
    impl std::fmt::Write for Nowhere {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut to = Nowhere(0);
    let mut next = Some(e);
    for _ in 0..64 {
        let Some(e) = next else { return };
        std::fmt::Write::write_fmt(&mut to, format_args!("{e}")).expect("displaying an error fails");
        next = e.source();
    }
    panic!("the causes of an error do not end");
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| (*s).to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

pub fn install_hooks() {
    START.get_or_init(Instant::now);
    std::panic::set_hook(Box::new(|info| point::not_lib(|| {
        let msg = payload(info.payload());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = Some(format!("{msg}{loc}")));
    })));
    unsafe {
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            // SIGSEGV keeps Rust's handler, which aborts on a stack overflow.
            if sig == libc::SIGSEGV || sig == libc::SIGBUS {
                continue;
            }
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

extern "C" fn on_signal(sig: libc::c_int) {
    let in_impl = IN_IMPL.try_with(Cell::get).unwrap_or(false);
    if !in_impl {
        unsafe { libc::_exit(2) };
    }
    crash(sig as usize);
}

fn crash(why: usize) -> ! {
    CRASH_WHY.store(why, SeqCst);
    CRASH_SLOT.store(SLOT_ID.try_with(Cell::get).unwrap_or(usize::MAX), SeqCst);
    loop {
        std::thread::sleep(Duration::from_secs(1000));
    }
}

const MEM_LIMIT: isize = 2 << 30;
pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
fn count(n: isize) {
    if n > 0 && !std::thread::panicking() {
        point::at(point::ALLOC);
    }
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if v > MEM_LIMIT && n > 0 && IN_IMPL.with(Cell::get) {
            crash(1000);
        }
    });
}

/// Start the watchdog: `report` is called (and the process ends) when code
/// under test hangs, aborts or takes an absurd amount of memory.
pub fn watchdog(report: impl Fn(&str, &[u32], &str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let c = CRASH_SLOT.load(SeqCst);
        let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().clone();
        let mut hit = None;
        if c < slots.len() {
            let why = match CRASH_WHY.load(SeqCst) {
                1000 => "takes more than 2 GiB of memory".to_string(),
                s => format!("aborts the process (signal {s})"),
            };
            hit = Some((slots[c].clone(), why));
        } else {
            let now = now_ms();
            let lim = HANG_S.load(Relaxed) * 1000;
            for s in &slots {
                let e = s.enter.load(Relaxed);
                if e != 0 && now.saturating_sub(e) > lim {
                    hit = Some((s.clone(), format!("does not return within {} s", lim / 1000)));
                }
            }
        }
        if let Some((s, why)) = hit {
            let ch = s.choices.lock().map(|c| c.clone()).unwrap_or_default();
            let h = s.harness.lock().map(|c| c.clone()).unwrap_or_default();
            report(&h, &ch, &format!("the code under test {why}"));
            std::process::exit(1);
        }
    });
}

// ---------------------------------------------------------------- choices

pub struct Ch<'a> {
    forced: &'a [(u32, u32)], // (choice, n); n == 0 : not checked
    trace: Vec<(u32, u32)>,
    dev_left: u32,
    pub tier: Tier,
    slot: Arc<Slot>,
    rec: &'a mut Rec,
    cur: u64,
    exec_no: u64,
    verbose: bool,
    diverged: bool,
}
impl Ch<'_> {
    /// Choose in `0..n`: every value is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < u32::MAX as usize, "choose({n})");
        let d = self.trace.len();
        let c = if let Some(&(c, m)) = self.forced.get(d) {
            if (m != 0 && m as usize != n) || c as usize >= n {
                self.diverged = true;
                panic!("replay divergence at choice {d}: {c} of {m}, now {n}");
            }
            c
        } else {
            0
        };
        self.trace.push((c, n as u32));
        self.slot.choices.lock().unwrap().push(c);
        c as usize
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        &s[self.choose(s.len())]
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.choose(hi_incl - lo + 1)
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Choose in `0..n` where 0 is the default answer and others use one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    pub fn devs_left(&self) -> u32 {
        self.dev_left
    }
    /// The abstract state after an event.
    pub fn state(&mut self, s: u64) {
        let t = h64(&(self.cur, s));
        if self.rec.states.len() < SET_CAP {
            self.rec.states.insert(s);
        }
        if self.rec.trans.len() < SET_CAP {
            self.rec.trans.insert(t);
        }
        self.cur = s;
    }
    pub fn restart(&mut self) {
        self.cur = 0;
    }
    /// A whole trace of the model, from its initial state.
    pub fn walk(&mut self, t: &[u64]) {
        self.cur = 0;
        for &s in t {
            self.state(s);
        }
    }
    /// One evaluated case; `nontrivial` as the harness's rule says.
    pub fn eval(&mut self, case: u64, nontrivial: bool) {
        self.rec.evals += 1;
        if nontrivial && self.rec.cases.len() < SET_CAP {
            self.rec.cases.insert(case);
        }
    }
    /// `n` cases of a sweep, distinct and non-trivial by construction.
    pub fn evals(&mut self, n: u64) {
        self.rec.evals += n;
        self.rec.distinct_extra += n;
    }
    /// `n` traces of the model agreed with the implementation.
    pub fn validated(&mut self, n: u64) {
        self.rec.validated += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("{}", f());
        } else if self.rec.samples.len() < 3 && (self.exec_no % 97 == 5 || self.exec_no == 0) {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.rec.samples.push(s);
        }
    }
}

// ---------------------------------------------------------------- harnesses

pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    /// What is enumerated, and within what bound.
    pub what: &'static str,
    /// Deviation bound (quick, thorough).
    pub devs: (u32, u32),
    /// Run with a single worker (harness that uses the process's threads itself).
    pub serial: bool,
    pub run: fn(&mut Ch) -> R,
}

#[derive(Debug, Clone)]
pub struct Found {
    pub harness: &'static str,
    pub choices: Vec<u32>,
    pub viol: Viol,
    pub reproduced: bool,
}

pub struct Report {
    pub rec: Rec,
    pub wall: f64,
    pub capped: bool,
    pub found: Option<Found>,
    pub engine_error: Option<String>,
}

#[derive(Clone)]
struct Task {
    prefix: Vec<(u32, u32)>,
    /// Values of the choice after `prefix`, if restricted: (from, to exclusive, n).
    span: Option<(u32, u32, u32)>,
}

struct Shared {
    q: Mutex<(VecDeque<Task>, usize)>, // tasks, number of idle workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    found: Mutex<Option<Found>>,
    error: Mutex<Option<String>>,
    capped: AtomicBool,
}

fn once(
    h: &Harness,
    tier: Tier,
    forced: &[(u32, u32)],
    rec: &mut Rec,
    slot: &Arc<Slot>,
    verbose: bool,
) -> Result<(Vec<(u32, u32)>, R), String> {
    slot.choices.lock().unwrap().clear();
    let exec_no = rec.execs;
    let mut ch = Ch {
        forced,
        trace: Vec::with_capacity(32),
        dev_left: tier.b(h.devs.0, h.devs.1),
        tier,
        slot: slot.clone(),
        rec,
        cur: 0,
        exec_no,
        verbose,
        diverged: false,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (h.run)(&mut ch)));
    let trace = std::mem::take(&mut ch.trace);
    let diverged = ch.diverged;
    rec.execs += 1;
    rec.choice_points += trace.len() as u64;
    rec.max_depth = rec.max_depth.max(trace.len());
    match r {
        Ok(_) if diverged => Err("replay divergence".into()),
        Ok(r) => Ok((trace, r)),
        Err(p) => {
            let m = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| payload(&*p));
            Err(format!(
                "harness {} failed on {:?}: {m}",
                h.name,
                trace.iter().map(|t| t.0).collect::<Vec<_>>()
            ))
        }
    }
}

pub fn replay(h: &Harness, tier: Tier, choices: &[u32], verbose: bool) -> Result<R, String> {
    if current_slot() == usize::MAX {
        new_slot();
    }
    let slot = SLOT.with(|s| s.borrow().as_ref().unwrap().1.clone());
    *slot.harness.lock().unwrap() = h.name.to_string();
    let forced: Vec<_> = choices.iter().map(|&c| (c, 0)).collect();
    let mut rec = Rec::default();
    once(h, tier, &forced, &mut rec, &slot, verbose).map(|x| x.1)
}

pub fn explore(
    h: &'static Harness,
    tier: Tier,
    workers: usize,
    cap: Duration,
    known: &HashSet<String>,
) -> Report {
    let t0 = Instant::now();
    let workers = if h.serial { 1 } else { workers };
    let sh = Shared {
        q: Mutex::new((VecDeque::from([Task { prefix: vec![], span: None }]), 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        found: Mutex::new(None),
        error: Mutex::new(None),
        capped: AtomicBool::new(false),
    };
    let mut rec = Rec::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|_| {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || worker(h, tier, workers, t0, cap, known, sh))
                    .unwrap()
            })
            .collect();
        for w in hs {
            match w.join() {
                Ok(r) => rec.merge(r),
                Err(p) => *sh.error.lock().unwrap() = Some(format!("worker died: {}", payload(&*p))),
            }
        }
    });
    let error = sh.error.into_inner().unwrap();
    let mut found = sh.found.into_inner().unwrap();
    if let Some(f) = &mut found {
        // A verdict has to be reproducible: the same choices, twice.
        f.reproduced = (0..2).all(|_| matches!(replay(h, tier, &f.choices, false), Ok(Err(_))));
    }
    Report {
        rec,
        wall: t0.elapsed().as_secs_f64(),
        capped: sh.capped.load(SeqCst),
        found,
        engine_error: error,
    }
}

fn worker(
    h: &'static Harness,
    tier: Tier,
    workers: usize,
    t0: Instant,
    cap: Duration,
    known: &HashSet<String>,
    sh: &Shared,
) -> Rec {
    new_slot();
    let slot = SLOT.with(|s| s.borrow().as_ref().unwrap().1.clone());
    *slot.harness.lock().unwrap() = h.name.to_string();
    let mut rec = Rec::default();
    loop {
        let task = {
            let mut q = sh.q.lock().unwrap();
            q.1 += 1;
            sh.hungry.fetch_add(1, SeqCst);
            loop {
                if sh.stop.load(SeqCst) || (q.0.is_empty() && q.1 == workers) {
                    sh.cv.notify_all();
                    return rec;
                }
                if let Some(t) = q.0.pop_front() {
                    q.1 -= 1;
                    sh.hungry.fetch_sub(1, SeqCst);
                    break t;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
            }
        };
        // cur: (choice, end exclusive, n)
        let lo = task.prefix.len();
        let mut cur: Vec<(u32, u32, u32)> = task.prefix.iter().map(|&(c, n)| (c, c + 1, n)).collect();
        if let Some((a, b, n)) = task.span {
            cur.push((a, b, n));
        }
        loop {
            if sh.stop.load(Relaxed) {
                return rec;
            }
            if rec.execs % 64 == 0 && t0.elapsed() > cap {
                sh.capped.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
                sh.cv.notify_all();
                return rec;
            }
            let forced: Vec<(u32, u32)> = cur.iter().map(|&(c, _, n)| (c, n)).collect();
            match once(h, tier, &forced, &mut rec, &slot, false) {
                Err(e) => {
                    *sh.error.lock().unwrap() = Some(e);
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                    return rec;
                }
                Ok((trace, r)) => {
                    if trace.len() < cur.len() {
                        *sh.error.lock().unwrap() = Some(format!("harness {}: replay divergence (shorter)", h.name));
                        sh.stop.store(true, SeqCst);
                        sh.cv.notify_all();
                        return rec;
                    }
                    if let Err(v) = r {
                        if known.contains(&v.key) {
                            rec.known.push((v.key, v.msg));
                        } else {
                            let f = Found {
                                harness: h.name,
                                choices: trace.iter().map(|t| t.0).collect(),
                                viol: v,
                                reproduced: false,
                            };
                            let mut g = sh.found.lock().unwrap();
                            if g.as_ref().map_or(true, |o| (f.choices.len(), &f.choices) < (o.choices.len(), &o.choices)) {
                                *g = Some(f);
                            }
                            drop(g);
                            sh.stop.store(true, SeqCst);
                            sh.cv.notify_all();
                            return rec;
                        }
                    }
                    for &(c, n) in &trace[cur.len()..] {
                        cur.push((c, n, n));
                    }
                }
            }
            // Backtrack.
            while cur.len() > lo && cur.last().is_some_and(|l| l.0 + 1 >= l.1) {
                cur.pop();
            }
            if cur.len() <= lo {
                break;
            }
            cur.last_mut().unwrap().0 += 1;
            // Donate the shallowest alternatives to idle workers.
            if sh.hungry.load(Relaxed) > 0 {
                let mut q = sh.q.lock().unwrap();
                if q.0.len() < q.1 {
                    if let Some(d) = (lo..cur.len()).find(|&d| cur[d].0 + 1 < cur[d].1) {
                        let (c, e, n) = cur[d];
                        let mid = c + 1 + (e - c - 1) / 2;
                        cur[d].1 = mid;
                        q.0.push_back(Task {
                            prefix: cur[..d].iter().map(|&(c, _, n)| (c, n)).collect(),
                            span: Some((mid, e, n)),
                        });
                        sh.cv.notify_one();
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- iterators

/// All words of up to 3 of the ways of an iterator to go on: the items are
/// those of the list, and it stays ended.
pub fn steps<T: PartialEq + std::fmt::Debug + Clone>(ch: &mut Ch, h: &str, it: impl Iterator<Item = T>, want: &[T]) -> R {
    let mut it = Some(it);
    let mut at = 0;
    let mut word = vec![];
    let bad = |word: &[String], got: String, want: String| -> R {
        Err(Viol { key: format!("{h}:{word:?}"), msg: format!("{word:?} of the iterator gives {got}, expected {want}") })
    };
    let from = |at: usize| want.get(at..).unwrap_or(&[]);
    for _ in 0..3 {
        let Some(mut i) = it.take() else { break };
        let op = ch.choose(17);
        let (name, k) = match op {
            0..=6 => ("nth", op),
            7..=9 => ("take", op - 6),
            10 => ("last", 0),
            11 => ("count", 0),
            12..=14 => ("step_by", op - 10),
            15 => ("fold", 0),
            _ => ("find third", 0),
        };
        word.push(format!("{name} {k}"));
        let rest = from(at);
        let (got, due): (Vec<T>, Vec<T>) = match guard(|| match op {
            0..=6 => {
                let x = i.nth(k);
                let w = rest.get(k).cloned();
                at += k + 1;
                (x.into_iter().collect(), w.into_iter().collect())
            }
            7..=9 => {
                let x: Vec<T> = i.by_ref().take(k).collect();
                at += k;
                (x, rest.iter().take(k).cloned().collect())
            }
            12..=14 => {
                let x: Vec<T> = i.by_ref().step_by(k).collect();
                at = want.len();
                (x, rest.iter().step_by(k).cloned().collect())
            }
            15 => {
                at = want.len();
                let x = i.by_ref().fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                (x, rest.to_vec())
            }
            16 => {
                let mut n = 0;
                let x = i.find(|_| {
                    n += 1;
                    n == 3
                });
                at += 3;
                (x.into_iter().collect(), rest.get(2).cloned().into_iter().collect())
            }
            _ => (vec![], vec![]),
        }) {
            Ok(x) => x,
            Err(e) => return bad(&word, format!("a panic: {e}"), "items".into()),
        };
        if got != due {
            return bad(&word, format!("{got:?}"), format!("{due:?}"));
        }
        match op {
            10 => match guard(|| i.last()) {
                Ok(x) if x.as_ref() == rest.last() => {}
                x => return bad(&word, format!("{x:?}"), format!("{:?}", rest.last())),
            },
            11 => match guard(|| i.count()) {
                Ok(n) if n == rest.len() => {}
                n => return bad(&word, format!("{n:?}"), format!("{}", rest.len())),
            },
            _ => it = Some(i),
        }
    }
    if let Some(mut i) = it {
        let got = guard(|| {
            let v: Vec<T> = i.by_ref().take(want.len() + 9).collect();
            (v, i.next().is_none() && i.next().is_none())
        });
        match got {
            Ok((v, true)) if v == from(at) => {}
            g => return bad(&word, format!("then {g:?}"), format!("{:?}, then the end", from(at))),
        }
    }
    ch.walk(&[h64(&word.first()), h64(&word)]);
    ch.eval(h64(&word), true);
    ch.validated(1);
    ch.sample(|| format!("{h}: {word:?}"));
    Ok(())
}

/// The kinds of I/O errors, but `Interrupted`.
pub const ERROR_KINDS: [std::io::ErrorKind; 36] = {
    use std::io::ErrorKind::*;
    [Other, PermissionDenied, WouldBlock, TimedOut, UnexpectedEof, InvalidData, BrokenPipe, NotFound, OutOfMemory, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, AlreadyExists, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong, Unsupported]
};
