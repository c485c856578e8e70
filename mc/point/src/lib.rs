//! Points: places where other tasks may run. This crate is not instrumented;
//! instrumented code calls it at each of its basic blocks, loads and stores.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

/// The user's code: readers, writers, conversions, what takes items.
pub const USER: u8 = 1;
/// A message is logged.
pub const LOG: u8 = 2;
/// The library allocates.
pub const ALLOC: u8 = 4;
/// The library reads or writes a variable that lives as long as the process.
pub const SHARED: u8 = 8;
/// The library enters a basic block.
pub const BLOCK: u8 = 16;
pub const KINDS: usize = 5;

type Hook = Box<dyn FnMut(u8)>;
/// Without a destructor: cheap to look at.
#[derive(Clone, Copy)]
struct Here {
    /// The kinds of points that the hook is called at.
    want: u8,
    /// In the library (and not in what it calls).
    lib: bool,
    /// The hook is what is running.
    inside: bool,
}
thread_local! {
    static HERE: Cell<Here> = const { Cell::new(Here { want: 0, lib: false, inside: false }) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// A point: the hook is called, unless it is what is running.
#[inline(always)]
fn passed(kind: u8) {
    let h = HERE.with(Cell::get);
    if h.want & kind == 0 || h.inside || (kind > LOG && !h.lib) {
        return;
    }
    call(kind, h);
}
#[inline(never)]
fn call(kind: u8, h: Here) {
    HERE.with(|c| c.set(Here { want: h.want, lib: false, inside: true }));
    // The hook may run tasks with a hook of their own.
    let f = HOOK.try_with(|h| h.borrow_mut().take()).ok().flatten();
    if let Some(mut f) = f {
        f(kind);
        let _ = HOOK.try_with(|h| *h.borrow_mut() = Some(f));
    }
    HERE.with(|c| c.set(h));
}
#[inline(never)]
pub fn at(kind: u8) {
    passed(kind);
}

#[inline(never)]
fn set_hook(want: u8, hook: Option<Hook>) -> (Here, Option<Hook>) {
    let old = HERE.with(|c| c.replace(Here { want: 0, lib: false, inside: false }));
    let f = HOOK.with(|h| h.replace(hook));
    HERE.with(|c| c.set(Here { want, lib: false, inside: false }));
    (old, f)
}
#[inline(never)]
fn unset_hook(old: (Here, Option<Hook>)) {
    HERE.with(|c| c.set(Here { want: 0, lib: false, inside: false }));
    let f = HOOK.with(|h| h.replace(old.1));
    drop(f);
    HERE.with(|c| c.set(old.0));
}
/// Run `f` with `hook` called at its points of these kinds.
pub fn with_hook<T>(kinds: u8, hook: impl FnMut(u8) + 'static, f: impl FnOnce() -> T) -> T {
    let old = set_hook(kinds, Some(Box::new(hook)));
    let r = f();
    unset_hook(old);
    r
}
#[inline(never)]
fn set_lib(lib: bool) -> bool {
    HERE.with(|c| {
        let h = c.get();
        c.set(Here { lib, ..h });
        h.lib
    })
}

struct Back(bool);
impl Drop for Back {
    fn drop(&mut self) {
        set_lib(self.0);
    }
}
/// Run code of the library.
#[inline(never)]
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _back = Back(set_lib(true));
    f()
}
/// Run code of the harness, that the library calls.
#[inline(never)]
pub fn not_lib<T>(f: impl FnOnce() -> T) -> T {
    let _back = Back(set_lib(false));
    f()
}

// ---------------------------------------------------------------- called by instrumented code

static INSTRUMENTED: AtomicBool = AtomicBool::new(false);
/// Is this a program with blocks?
pub fn instrumented() -> bool {
    INSTRUMENTED.load(Relaxed)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if !INSTRUMENTED.load(Relaxed) {
        INSTRUMENTED.store(true, Relaxed);
    }
    passed(BLOCK);
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
const LEARNT: usize = 32;
static IGNORED: [AtomicUsize; LEARNT] = [const { AtomicUsize::new(0) }; LEARNT];
static LEARNING: AtomicBool = AtomicBool::new(false);
/// What `f` reads and writes is no point: variables of the standard library
/// and of the logging crate, used by everybody.
pub fn learn(f: impl FnOnce()) {
    LEARNING.store(true, Relaxed);
    f();
    LEARNING.store(false, Relaxed);
}
#[inline(always)]
fn access(a: usize) {
    let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
    if a >= lo && a < hi {
        shared(a);
    }
}
#[inline(never)]
fn shared(a: usize) {
    for s in &IGNORED {
        match s.load(Relaxed) {
            0 if LEARNING.load(Relaxed) => {
                s.store(a, Relaxed);
                return;
            }
            0 => break,
            v if v == a => return,
            _ => {}
        }
    }
    if LEARNING.load(Relaxed) {
        return;
    }
    at(SHARED);
}
macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $n(a: usize) {
            access(a);
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
