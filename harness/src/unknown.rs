//! Boxes whose discriminant names no variant, through every reading route (C16).
use crate::probe::Probe;
use mc::report;
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::discriminant::{Discriminant, MAX_DISCRIMINANT};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

#[repr(align(4096))]
struct Block(#[allow(dead_code)] [u8; 8192]);
static BLOCK: Block = Block([0; 8192]);

/// How a box of an unknown discriminant comes to be.
const MAKERS: [&str; 3] = ["raw", "new", "dangling"];

fn make<E: TaggableInner>(maker: usize, d: Discriminant) -> TaggedBox<E> {
    match maker {
        0 => unsafe { TaggedBox::from_raw(&BLOCK as *const Block as *mut Block, d) },
        1 => TaggedBox::new([0u64; 32], d),
        // Nothing may read it; its address is as good as any.
        _ => TaggedBox::dangling::<Block>(d),
    }
}

pub fn run<E>(tag: &str, name: &str, only: Option<&str>, thorough: bool)
where
    E: Probe + Debug + Display + Clone + PartialOrd + Ord,
    E::C: Debug + Clone + PartialOrd + Ord,
{
    report::count("programs", 1);
    let max = MAX_DISCRIMINANT as u64;
    let mut unknown: Vec<u64> = (E::N as u64..=max).collect();
    if unknown.len() > 4096 && !thorough {
        // 48 to 51 bits: all of the low ones, all of one byte pattern, everything around powers of two.
        unknown.retain(|d| *d < 1024 || *d > max - 256 || d.count_ones() <= 2 || d.count_zeros() <= 50 || d & 0xff == 0);
    }
    for d in unknown {
        for maker in 0..MAKERS.len() {
            if maker > 0 && d > 600 && d & 0xff != 0 {
                continue;
            }
            let known: Vec<usize> = if d == E::N as u64 || d == max { (0..E::N).collect() } else { vec![d as usize % E::N] };
            let mut route = |r: &str, f: &mut dyn FnMut(TaggedBox<E>)| {
                let case = format!("{name}/{d}/{}/{r}", MAKERS[maker]);
                if only.map_or(false, |o| o != case) {
                    return;
                }
                report::begin_case(&case);
                report::count("evaluations", 1);
                report::count("distinct_nontrivial", 1);
                let b = make::<E>(maker, d as Discriminant);
                if b.discriminant() as u64 != d {
                    return report::violation(tag, format!("a box made with discriminant {d} has discriminant {}", b.discriminant()));
                }
                if catch_unwind(AssertUnwindSafe(|| f(b))).is_ok() {
                    report::violation(tag, format!("{r} of a box whose discriminant names no variant yields a value"));
                }
            };
            route("from_tagged_box", &mut |b| std::mem::forget(E::from_tagged_box(b)));
            route("container into_inner", &mut |b| std::mem::forget(E::wrap(b).into_inner()));
            let calls = Cell::new(0);
            route("ref_from_tagged_box", &mut |b| unsafe { E::ref_from_tagged_box(&b, |_| calls.set(calls.get() + 1)) });
            if calls.get() > 0 {
                report::violation(tag, "the callback is shown a variant although the discriminant names none");
            }
            route("clone", &mut |b| std::mem::forget(Clone::clone(&b)));
            route("container clone", &mut |b| std::mem::forget(E::wrap(b).clone()));
            route("debug", &mut |b| drop(format!("{b:?}")));
            route("display", &mut |b| drop(format!("{b}")));
            route("container debug", &mut |b| drop(format!("{:?}", E::wrap(b))));
            for &v in &known {
                let value = || E::make(v, 0).into_tagged_box();
                route(&format!("eq {v}"), &mut |b| drop(b == value()));
                route(&format!("{v} eq"), &mut |b| drop(value() == b));
                route(&format!("ne {v}"), &mut |b| drop(b != value()));
                route(&format!("partial_cmp {v}"), &mut |b| drop(b.partial_cmp(&value())));
                route(&format!("{v} partial_cmp"), &mut |b| drop(value().partial_cmp(&b)));
                route(&format!("cmp {v}"), &mut |b| drop(b.cmp(&value())));
                route(&format!("{v} cmp"), &mut |b| drop(value().cmp(&b)));
                route(&format!("lt {v}"), &mut |b| drop(b < value()));
                route(&format!("container eq {v}"), &mut |b| drop(E::wrap(b) == E::wrap(value())));
                route(&format!("{v} container eq"), &mut |b| drop(E::wrap(value()) == E::wrap(b)));
                route(&format!("container cmp {v}"), &mut |b| drop(E::wrap(b).cmp(&E::wrap(value()))));
                route(&format!("{v} container cmp"), &mut |b| drop(E::wrap(value()).cmp(&E::wrap(b))));
                route(&format!("max {v}"), &mut |b| std::mem::forget(b.max(value())));
            }
            route("eq itself", &mut |b| {
                let c = unsafe { std::ptr::read(&b) };
                drop(b == c)
            });
            route("cmp itself", &mut |b| {
                let c = unsafe { std::ptr::read(&b) };
                drop(b.cmp(&c))
            });
        }
    }
}
