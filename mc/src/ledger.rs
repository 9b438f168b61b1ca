//! Serial numbers for payload values: who is alive, who was destroyed, how often.
use crate::alloc::untracked;
use std::sync::Mutex;

const MAX: usize = if cfg!(miri) { 4096 } else { 1 << 18 };

struct Ledger {
    state: [u8; MAX], // 0 unborn, 1 live, 2 destroyed
    next: usize,
    live: usize,
    zst_live: i64,
    born: usize,
    destroyed: usize,
    problems: Vec<String>,
    calls: u64,
    clones: u64,
    arm: u64, // panic at the arm-th user call from now; 0 = never
    fired: bool,
}

static L: Mutex<Ledger> = Mutex::new(Ledger {
    state: [0; MAX],
    next: 1,
    live: 0,
    zst_live: 0,
    born: 0,
    destroyed: 0,
    problems: Vec::new(),
    calls: 0,
    clones: 0,
    arm: 0,
    fired: false,
});

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    untracked(|| f(&mut L.lock().unwrap_or_else(|e| e.into_inner())))
}

pub fn begin() {
    with(|l| {
        let n = l.next;
        l.state[..n].fill(0);
        l.next = 1;
        l.live = 0;
        l.zst_live = 0;
        l.born = 0;
        l.destroyed = 0;
        l.problems.clear();
        l.calls = 0;
        l.clones = 0;
        l.arm = 0;
        l.fired = false;
    })
}
pub fn born() -> u32 {
    with(|l| {
        let s = l.next;
        if s >= MAX {
            l.problems.push("HARNESS: too many tokens".into());
            return 0;
        }
        l.next += 1;
        l.state[s] = 1;
        l.live += 1;
        l.born += 1;
        s as u32
    })
}
pub fn zst_born() {
    with(|l| {
        l.zst_live += 1;
        l.born += 1
    })
}
pub fn zst_destroyed() {
    with(|l| {
        l.zst_live -= 1;
        l.destroyed += 1;
        if l.zst_live < 0 {
            l.problems.push("a zero-sized value was destroyed more often than created".into());
        }
    })
}
pub fn destroyed(serial: u32) {
    with(|l| {
        l.destroyed += 1;
        match l.state.get(serial as usize).copied() {
            Some(1) => {
                l.state[serial as usize] = 2;
                l.live -= 1;
            }
            Some(2) => l.problems.push("a value was destroyed twice".to_string()),
            _ => l.problems.push("something that is not a value was destroyed".to_string()),
        }
    })
}
pub fn is_live(serial: u32) -> bool {
    with(|l| l.state.get(serial as usize) == Some(&1))
}
/// Live values, sized and zero-sized.
pub fn live() -> i64 {
    with(|l| l.live as i64 + l.zst_live)
}
pub fn destroyed_count() -> usize {
    with(|l| l.destroyed)
}
pub fn clones() -> u64 {
    with(|l| l.clones)
}
pub fn problems() -> Vec<String> {
    with(|l| std::mem::take(&mut l.problems))
}
pub fn problem(s: &str) {
    with(|l| l.problems.push(s.to_string()))
}
pub fn calls() -> u64 {
    with(|l| l.calls)
}
/// The n-th call into user code from now (from 1) panics.
pub fn arm(n: u64) {
    with(|l| {
        l.arm = n;
        l.fired = false;
    })
}
/// Disarm; says whether the armed panic was raised.
pub fn disarm() -> bool {
    with(|l| {
        l.arm = 0;
        l.fired
    })
}

pub static HOOK: std::sync::OnceLock<fn(&'static str)> = std::sync::OnceLock::new();

pub struct Injected;

/// Every user-code entry reports here: a switching point and a place where a panic can be injected.
pub fn user_call(what: &'static str) {
    if let Some(h) = HOOK.get() {
        h(what)
    }
    let fire = with(|l| {
        l.calls += 1;
        if what == "clone" {
            l.clones += 1;
        }
        if l.arm > 0 {
            l.arm -= 1;
            if l.arm == 0 {
                l.fired = true;
                return true;
            }
        }
        false
    });
    if fire {
        std::panic::resume_unwind(Box::new(Injected));
    }
}
