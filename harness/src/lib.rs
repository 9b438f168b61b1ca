//! Helpers shared by the explorer binaries.
pub mod probe;
pub mod unknown;
pub mod enums;
pub mod fams;
pub mod fmt_table;

use mc::report;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs `f`, which must panic; reports `msg` if it returns instead.
pub fn must_panic<R>(tag: &str, case: impl FnOnce() -> String, msg: &str, f: impl FnOnce() -> R) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => {
            std::mem::forget(r);
            report::violation_in(tag, case(), msg);
            false
        }
        Err(_) => true,
    }
}

/// Numbers below `1 << bits` with interesting bit patterns: at most `k` bits set or cleared, runs, 2^n +- small.
pub fn patterns(bits: u32, k: usize) -> Vec<u64> {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut v = vec![0, max];
    for i in 0..bits {
        let a = 1u64 << i;
        for d in 0..=16 {
            v.push(a.wrapping_add(d));
            v.push(a.wrapping_sub(d));
            v.push(max.wrapping_sub(d));
            v.push(d);
        }
        v.push(a | a.wrapping_sub(1));
        v.push(max & !(a.wrapping_sub(1)));
        if k >= 2 {
            for j in 0..i {
                v.push(a | 1 << j);
                v.push(max ^ a ^ 1 << j);
                v.push((a - 1) & !((1 << j) - 1));
                if k >= 3 {
                    for l in 0..j {
                        v.push(a | 1 << j | 1 << l);
                        v.push(max ^ a ^ 1 << j ^ 1 << l);
                    }
                }
            }
        }
    }
    v.iter_mut().for_each(|x| *x &= max);
    v.sort_unstable();
    v.dedup();
    v
}
