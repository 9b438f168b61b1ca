//! A checking global allocator.
//!
//! Allocations made while the current thread is in the LIB domain (inside the code under test) or the
//! USER domain (inside payload code called by it) come from an arena: every block has red zones, fresh
//! memory is poisoned, freed memory is poisoned and never reused within a case, and every free is checked
//! against the block's own layout. Everything else goes to the system allocator.
//! Under Miri the system allocator is used throughout (Miri checks all of this itself), with the records kept.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub const NONE: u8 = 0;
pub const LIB: u8 = 1;
pub const USER: u8 = 2;

thread_local! {
    static DOMAIN: Cell<u8> = const { Cell::new(NONE) };
}

pub fn domain() -> u8 {
    DOMAIN.try_with(|d| d.get()).unwrap_or(NONE)
}

pub struct DomainGuard(u8);
impl DomainGuard {
    pub fn enter(d: u8) -> Self {
        DomainGuard(DOMAIN.with(|c| c.replace(d)))
    }
}
impl Drop for DomainGuard {
    fn drop(&mut self) {
        let _ = DOMAIN.try_with(|c| c.set(self.0));
    }
}

/// Runs `f` as the code under test.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = DomainGuard::enter(LIB);
    f()
}
/// Runs `f` as user code (payload implementations, dropping of values handed to the user).
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let _g = DomainGuard::enter(USER);
    f()
}
/// Runs `f` as part of the harness.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let _g = DomainGuard::enter(NONE);
    f()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub domain: u8,
    pub live: bool,
}

const MAXREC: usize = if cfg!(miri) { 512 } else { 8192 };
#[cfg(not(miri))]
const ARENA: usize = 96 << 20;
const RED: usize = 64;
const RED_BYTE: u8 = 0xFA;
const FRESH_BYTE: u8 = 0xCC;
const FREED_BYTE: u8 = 0xDD;

struct State {
    recs: [Block; MAXREC],
    n: usize,
    bump: usize,
    viol: [(&'static str, usize, usize, usize); 16],
    nviol: usize,
    lib_allocs: usize,
    user_allocs: usize,
    lib_frees: usize,
    /// Live blocks per domain.
    live: [usize; 256],
    exhausted: bool,
}

struct Locked(std::cell::UnsafeCell<State>);
unsafe impl Sync for Locked {}
static STATE: Locked = Locked(std::cell::UnsafeCell::new(State {
    recs: [Block { addr: 0, size: 0, align: 0, domain: 0, live: false }; MAXREC],
    n: 0,
    bump: 0,
    viol: [("", 0, 0, 0); 16],
    nviol: 0,
    lib_allocs: 0,
    user_allocs: 0,
    lib_frees: 0,
    live: [0; 256],
    exhausted: false,
}));
static LOCK: AtomicBool = AtomicBool::new(false);
/// The n-th (from 1) LIB allocation from now returns null; 0 = never.
static FAIL_AT: AtomicUsize = AtomicUsize::new(0);
static FAILED: AtomicUsize = AtomicUsize::new(0);

#[cfg(not(miri))]
#[repr(align(65536))]
struct Arena(std::cell::UnsafeCell<[u8; ARENA]>);
#[cfg(not(miri))]
unsafe impl Sync for Arena {}
#[cfg(not(miri))]
static ARENA_MEM: Arena = Arena(std::cell::UnsafeCell::new([0; ARENA]));

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
        #[cfg(miri)]
        std::thread::yield_now();
    }
    let r = f(unsafe { &mut *STATE.0.get() });
    LOCK.store(false, Release);
    r
}

impl State {
    fn violation(&mut self, kind: &'static str, a: usize, b: usize, c: usize) {
        if self.nviol < self.viol.len() {
            self.viol[self.nviol] = (kind, a, b, c);
        }
        self.nviol += 1;
    }
    fn push(&mut self, b: Block) {
        if self.n < MAXREC {
            self.recs[self.n] = b;
            self.n += 1;
            self.live[b.domain as usize] += 1;
        } else {
            self.exhausted = true;
        }
    }
}

pub struct Checker;

/// Called at every LIB allocation and free (used as switching points by the schedule explorer).
pub static HOOK: std::sync::OnceLock<fn(&'static str)> = std::sync::OnceLock::new();

fn hook(what: &'static str) {
    if let Some(h) = HOOK.get() {
        h(what)
    }
}

#[cfg(not(miri))]
fn arena_range() -> (usize, usize) {
    let a = ARENA_MEM.0.get() as usize;
    (a, a + ARENA)
}

unsafe impl GlobalAlloc for Checker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let dom = domain();
        if dom == NONE {
            return System.alloc(l);
        }
        if dom == LIB {
            hook("alloc");
            let f = FAIL_AT.load(Relaxed);
            if f > 0 {
                FAIL_AT.store(f - 1, Relaxed);
                if f == 1 {
                    FAILED.fetch_add(1, Relaxed);
                    return std::ptr::null_mut();
                }
            }
        }
        #[cfg(miri)]
        {
            let p = System.alloc(l);
            with(|s| {
                if dom == LIB { s.lib_allocs += 1 } else { s.user_allocs += 1 }
                s.push(Block { addr: p as usize, size: l.size(), align: l.align(), domain: dom, live: true });
            });
            return p;
        }
        #[cfg(not(miri))]
        with(|s| {
            let (base, end) = arena_range();
            let start = base + s.bump + RED;
            let addr = (start + l.align() - 1) & !(l.align() - 1);
            let stop = addr + l.size() + RED;
            if stop > end || s.n >= MAXREC {
                s.exhausted = true;
                return std::ptr::null_mut();
            }
            // The red zone before the block covers the alignment gap as well.
            let lo = base + s.bump;
            std::ptr::write_bytes(lo as *mut u8, RED_BYTE, addr - lo);
            std::ptr::write_bytes(addr as *mut u8, FRESH_BYTE, l.size());
            std::ptr::write_bytes((addr + l.size()) as *mut u8, RED_BYTE, RED);
            s.bump = stop - base;
            if dom == LIB { s.lib_allocs += 1 } else { s.user_allocs += 1 }
            s.push(Block { addr, size: l.size(), align: l.align(), domain: dom, live: true });
            addr as *mut u8
        })
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        #[cfg(miri)]
        {
            let dom = domain();
            if dom == LIB { hook("free"); }
            with(|s| {
                if dom == LIB { s.lib_frees += 1 }
                let n = s.n;
                for r in s.recs[..n].iter_mut().rev() {
                    if r.addr == p as usize && r.live {
                        r.live = false;
                        s.live[r.domain as usize] -= 1;
                        break;
                    }
                }
            });
            System.dealloc(p, l);
            return;
        }
        #[cfg(not(miri))]
        {
            let (base, end) = arena_range();
            let a = p as usize;
            if a < base || a >= end {
                return System.dealloc(p, l);
            }
            let dom = domain();
            if dom == LIB { hook("free"); }
            with(|s| {
                if dom == LIB { s.lib_frees += 1 }
                let n = s.n;
                let mut found = None;
                for i in (0..n).rev() {
                    if s.recs[i].addr == a {
                        found = Some(i);
                        break;
                    }
                }
                match found {
                    None => s.violation("free of an address that is not the start of a block", a, l.size(), l.align()),
                    Some(i) => {
                        let r = s.recs[i];
                        if !r.live {
                            s.violation("block freed twice", r.size, l.size(), l.align());
                        } else {
                            if r.size != l.size() || r.align != l.align() {
                                s.violation("block freed with another layout than it was allocated with", r.size * 100000 + r.align, l.size(), l.align());
                            }
                            s.recs[i].live = false;
                            s.live[r.domain as usize] -= 1;
                            std::ptr::write_bytes(a as *mut u8, FREED_BYTE, r.size);
                        }
                    }
                }
            })
        }
    }
}

/// Start a case: forget all blocks of the previous one.
pub fn begin() {
    with(|s| {
        s.n = 0;
        s.bump = 0;
        s.nviol = 0;
        s.lib_allocs = 0;
        s.user_allocs = 0;
        s.lib_frees = 0;
        s.live.fill(0);
    });
    FAIL_AT.store(0, Relaxed);
    FAILED.store(0, Relaxed);
}

/// Check red zones and freed memory; returns the violations seen since `begin`.
pub fn check() -> Vec<String> {
    untracked(|| {
        let mut out = Vec::new();
        with(|s| {
            #[cfg(not(miri))]
            unsafe {
                let (base, _) = arena_range();
                let mut prev = base;
                for i in 0..s.n {
                    let r = s.recs[i];
                    let before = std::slice::from_raw_parts(prev as *const u8, r.addr - prev);
                    let after = std::slice::from_raw_parts((r.addr + r.size) as *const u8, RED);
                    if before.iter().any(|b| *b != RED_BYTE) {
                        s.violation("write before the start of a block", r.size, r.align, 0);
                    }
                    if after.iter().any(|b| *b != RED_BYTE) {
                        s.violation("write past the end of a block", r.size, r.align, 0);
                    }
                    if !r.live {
                        let body = std::slice::from_raw_parts(r.addr as *const u8, r.size);
                        if body.iter().any(|b| *b != FREED_BYTE) {
                            s.violation("write to a freed block", r.size, r.align, 0);
                        }
                    }
                    prev = r.addr + r.size + RED;
                }
            }
            // With no record of the block the messages below are all there is to say.
            for i in 0..s.nviol.min(s.viol.len()) {
                let (k, a, b, c) = s.viol[i];
                if k.starts_with("block freed with another") {
                    out.push((k, format!(" (allocated size {} align {}, freed size {b} align {c})", a / 100000, a % 100000)));
                } else if k.starts_with("block freed twice") {
                    out.push((k, format!(" (size {a})")));
                } else if k.starts_with("free of") {
                    out.push((k, format!(" (layout size {b} align {c})")));
                } else {
                    out.push((k, format!(" (block size {a} align {b})")));
                }
            }
        });
        out.into_iter().map(|(k, m)| format!("{k}{m}")).collect()
    })
}

pub fn exhausted() -> bool {
    with(|s| s.exhausted)
}
pub fn lib_allocs() -> usize {
    with(|s| s.lib_allocs)
}
pub fn lib_frees() -> usize {
    with(|s| s.lib_frees)
}
/// Number of blocks recorded so far in this case.
pub fn mark() -> usize {
    with(|s| s.n)
}
/// Live blocks of a domain recorded since `mark`.
pub fn live_since(mark: usize, dom: u8) -> Vec<Block> {
    untracked(|| {
        let mut v = Vec::with_capacity(64);
        with(|s| {
            for r in &s.recs[mark.min(s.n)..s.n] {
                if r.live && r.domain == dom && v.len() < v.capacity() {
                    v.push(*r)
                }
            }
        });
        v
    })
}
/// How many blocks of a domain are live.
pub fn live_count(dom: u8) -> usize {
    with(|s| s.live[dom as usize])
}
pub fn is_live(addr: usize) -> bool {
    with(|s| s.recs[..s.n].iter().rev().any(|r| r.addr == addr && r.live))
}
/// The live block starting at this address.
pub fn block_at(addr: usize) -> Option<Block> {
    with(|s| s.recs[..s.n].iter().rev().find(|r| r.addr == addr && r.live).copied())
}
pub fn fail_at(n: usize) {
    FAIL_AT.store(n, Relaxed)
}
/// How many requests were refused since `begin`.
pub fn failed() -> usize {
    FAIL_AT.store(0, Relaxed);
    FAILED.load(Relaxed)
}
