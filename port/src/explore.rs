//! Pointers, raw histories, formatting and comparing, without std.
use crate::probe::{word, Al64, Zst, D, LIVE};
use crate::{case, must, sys, tick};
use alloc::boxed::Box;
use alloc::format;
use alloc::string::String;
use core::sync::atomic::Ordering::Relaxed;
use tagged_box::discriminant::{Discriminant, DISCRIMINANT_BITS, DISCRIMINANT_MASK, MAX_DISCRIMINANT, MAX_POINTER_VALUE, POINTER_WIDTH};
use tagged_box::{TaggableInner, TaggedBox, TaggedPointer};

/// All numbers below `1 << bits` with at most `k` bits set or cleared, and those next to powers of two.
fn patterns(bits: u32, k: u32, f: &mut dyn FnMut(u64)) {
    let max = u64::MAX >> (64 - bits);
    for i in 0..bits {
        for d in 0..4 {
            f((1u64 << i).wrapping_add(d) & max);
            f((1u64 << i).wrapping_sub(d) & max);
            f(max ^ ((1u64 << i).wrapping_sub(d) & max));
        }
        for j in 0..i {
            let two = 1 << i | 1 << j;
            f(two);
            f(max ^ two);
            if k > 2 {
                for l in 0..j {
                    f(two | 1 << l);
                    f(max ^ (two | 1 << l));
                }
            }
        }
    }
}

fn one(p: u64, d: u64) {
    let dd = d as Discriminant;
    let mut t = TaggedPointer::new(p, dd);
    let raw = t.as_raw_u64();
    let ok = raw == d << POINTER_WIDTH | p
        && t.discriminant() == dd
        && t.as_u64() == p
        && TaggedPointer::fetch_discriminant(raw) == dd
        && TaggedPointer::strip_discriminant(raw) == p
        && TaggedPointer::store_discriminant(p, dd) == raw
        && (p > usize::MAX as u64 || (t.as_ptr::<u8>() as usize as u64 == p && t.as_mut_ptr::<u64>() as usize as u64 == p))
        && t == TaggedPointer::new(p, dd)
        && (p == 0 || t > TaggedPointer::new(p - 1, dd) && t != TaggedPointer::new(p - 1, dd))
        && (d == 0 || t > TaggedPointer::new(p, dd - 1) && t > TaggedPointer::new(MAX_POINTER_VALUE, dd - 1));
    tick();
    if !ok {
        case(format_args!("pointer p={p:#x} d={d:#x}"));
        crate::wrong("a tagged pointer does not give back its parts");
    }
}

/// The debug text shows the raw word, the address and the discriminant; the other texts the address.
fn texts(p: u64, d: u64) {
    case(format_args!("text p={p:#x} d={d:#x}"));
    sys::reset();
    let t = TaggedPointer::new(p, d as Discriminant);
    let text = format!("{t:?}");
    let field = |name: &str| -> Option<u64> {
        let at = text.find(name)? + name.len();
        let rest = &text[at..];
        let word = &rest[..rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len())];
        match word.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => word.parse().ok(),
        }
    };
    must(field("raw: ") == Some(t.as_raw_u64()), "the debug text does not show the raw word");
    must(field("discriminant: ") == Some(d), "the debug text does not show the discriminant");
    must(format!("{t:x} {t:#X} {t:o} {t:#b} {t:>70x}") == format!("{p:x} {p:#X} {p:o} {p:#b} {p:>70x}"), "the text of a pointer is not the one of its address");
    // An address of this target.
    if p <= usize::MAX as u64 {
        must(field("ptr: ") == Some(p), "the debug text does not show the address");
        must(format!("{t:p} {t:#p}") == format!("{:p} {:#p}", p as usize as *const (), p as usize as *const ()), "the pointer text is not the one of the address");
    }
}

pub fn pointers(deep: bool) {
    for d in [0, 1, MAX_DISCRIMINANT as u64] {
        patterns(POINTER_WIDTH as u32, 1 + deep as u32, &mut |p| texts(p, d));
    }
    sys::reset();
    case(format_args!("constants"));
    let free = 64 - POINTER_WIDTH as u32;
    must(DISCRIMINANT_BITS as u32 == free, "the free bits are not what the address leaves");
    must(MAX_DISCRIMINANT as u64 == u64::MAX >> POINTER_WIDTH, "the maximum discriminant is wrong");
    must(MAX_POINTER_VALUE as u64 == u64::MAX >> free, "the maximum pointer is wrong");
    must(DISCRIMINANT_MASK as u64 == u64::MAX >> free, "the mask is wrong");
    case(format_args!("pointer"));
    let max = MAX_DISCRIMINANT as u64;
    for d in 0..=max {
        let near = d < 4 || max - d < 4 || d.is_power_of_two();
        if near || max < 1024 || deep && d % 16 == 5 {
            patterns(POINTER_WIDTH as u32, if near && deep { 3 } else { 2 }, &mut |p| one(p, d));
        }
        one(0, d);
        one(MAX_POINTER_VALUE, d);
        one(0x5555_5555_5555_5555 & MAX_POINTER_VALUE, d);
        if d > 64 && !near && !deep {
            continue;
        }
        for p in 0..300 {
            one(p, d);
            one(MAX_POINTER_VALUE - p, d);
            if u32::MAX as u64 + p <= MAX_POINTER_VALUE {
                one(u32::MAX as u64 - 150 + p, d);
            }
        }
    }
    // All addresses of a 32-bit target around its borders, and on a 64-bit one those below 4 GiB at a stride.
    let step = if deep { 251 } else { 4099 };
    let mut p = 0u64;
    while p <= u32::MAX as u64 {
        one(p, max);
        one(p, p % (max + 1));
        p += step;
    }
}

enum T {}
impl TaggableInner for T {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {}
    }
    fn from_tagged_box(_: TaggedBox<Self>) -> Self {
        unreachable!()
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(_: &TaggedBox<Self>, _: F) {
        unreachable!()
    }
}

trait Payload: PartialEq + Sized {
    fn make(i: u32) -> Self;
}
impl Payload for u8 {
    fn make(i: u32) -> u8 {
        i as u8 + 1
    }
}
impl Payload for u16 {
    fn make(i: u32) -> u16 {
        0x8001 + i as u16
    }
}
impl Payload for u32 {
    fn make(i: u32) -> u32 {
        0x8000_0001 + i
    }
}
impl Payload for u64 {
    fn make(i: u32) -> u64 {
        0x8000_0000_7000_0001 + i as u64
    }
}
impl Payload for u128 {
    fn make(i: u32) -> u128 {
        0x8000_0000_0000_0000_0000_0000_7000_0001 + i as u128
    }
}
impl Payload for usize {
    fn make(i: u32) -> usize {
        usize::MAX - i as usize
    }
}
impl Payload for [u8; 5] {
    fn make(i: u32) -> Self {
        [i as u8 + 1, 2, 3, 4, 5]
    }
}
impl Payload for [u64; 33] {
    fn make(i: u32) -> Self {
        [0x0123_4567_89AB_CDEF + i as u64; 33]
    }
}
impl Payload for String {
    fn make(i: u32) -> Self {
        format!("value {i}")
    }
}
impl Payload for Box<u32> {
    fn make(i: u32) -> Self {
        Box::new(i)
    }
}
impl Payload for Al64 {
    fn make(i: u32) -> Self {
        Al64(i as u8)
    }
}
impl Payload for Zst {
    fn make(_: u32) -> Self {
        Zst
    }
}
impl Payload for D {
    fn make(i: u32) -> Self {
        D::new(i)
    }
}
/// Of no size, with a destructor.
#[derive(PartialEq)]
pub struct Z(());
impl Payload for Z {
    fn make(_: u32) -> Self {
        LIVE.fetch_add(1, Relaxed);
        Z(())
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}

const OPS: u32 = 8;
/// Every history of `depth` operations on one boxed value.
fn histories<P: Payload>(name: &str, d: u64, depth: u32) {
    let sized = core::mem::size_of::<P>() > 0;
    for h in 0..OPS.pow(depth) {
        case(format_args!("history {name} d={d} #{h}"));
        sys::reset();
        LIVE.store(0, Relaxed);
        let n0 = sys::live().0;
        let v = P::make(0);
        let n1 = sys::live().0;
        let mut b: TaggedBox<T> = TaggedBox::new(v, d as Discriminant);
        let mut i = 0u32;
        let mut rest = h;
        let check = |b: &TaggedBox<T>, i: u32| unsafe {
            let want = P::make(i);
            let a = b.as_ptr::<P>() as usize;
            must(a != 0 && a % core::mem::align_of::<P>() == 0, "the address is null or not aligned");
            must(b.as_ref::<P>() == &want && &*b.as_ptr::<P>() == &want, "another value is seen");
            must(b.discriminant() as u64 == d, "the discriminant changes");
            must(word(b) == d << POINTER_WIDTH | a as u64, "the word is not the address and the discriminant");
        };
        if sized {
            let (n, last) = sys::live();
            let l = last.unwrap();
            must(n == n1 + 1 && l.0 == b.as_ptr::<P>() as usize && l.1 == core::mem::size_of::<P>() && l.2 == core::mem::align_of::<P>(), "storing does not take one block of the value's layout");
        } else {
            must(sys::live().0 == n1, "a value of no size takes storage");
        }
        check(&b, i);
        for _ in 0..depth {
            i += 1;
            unsafe {
                match rest % OPS {
                    0 => *b.as_mut_ref::<P>() = P::make(i),
                    1 => *b.as_mut_ptr::<P>() = P::make(i),
                    2 => {
                        i -= 1;
                        let p = TaggedBox::into_raw::<P>(b);
                        b = TaggedBox::from_raw(p, d as Discriminant);
                    }
                    3 => {
                        i -= 1;
                        let p = TaggedBox::into_box::<P>(b);
                        b = TaggedBox::from_raw(Box::into_raw(p), d as Discriminant);
                    }
                    4 => {
                        let mut p = TaggedBox::into_box::<P>(b);
                        *p = P::make(i);
                        b = TaggedBox::from_raw(Box::into_raw(p), d as Discriminant);
                    }
                    5 => {
                        i -= 1;
                        let v: P = TaggedBox::into_inner(b);
                        must(v == P::make(i), "another value is taken out");
                        b = TaggedBox::new(v, d as Discriminant);
                    }
                    6 => {
                        let v: P = TaggedBox::into_inner(b);
                        drop(v);
                        b = TaggedBox::new_unchecked(P::make(i), d as Discriminant);
                    }
                    _ => {
                        let old = *TaggedBox::into_box::<P>(b);
                        must(old == P::make(i - 1), "another value is taken out of its box");
                        drop(old);
                        b = TaggedBox::new(P::make(i), d as Discriminant);
                    }
                }
                check(&b, i);
            }
            rest /= OPS;
        }
        let live = LIVE.load(Relaxed);
        must(live == 0 || live == 1, "a value is destroyed more or less than once");
        unsafe { drop(TaggedBox::into_box::<P>(b)) };
        must(LIVE.load(Relaxed) == 0, "a value is destroyed more or less than once");
        let _ = n0;
    }
    sys::reset();
}

pub fn raw(deep: bool) {
    let max = MAX_DISCRIMINANT as u64;
    let mut d = 0;
    loop {
        let depth = if d == max { 3 + 2 * deep as u32 } else { 2 + deep as u32 };
        macro_rules! all { ($($t:ty),*) => { $( histories::<$t>(stringify!($t), d, depth); )* } }
        all!(u8, u16, u32, u64, u128, usize, [u8; 5], [u64; 33], String, Box<u32>, Al64, Zst, D, Z);
        if d == max {
            break;
        }
        d = if d < 20 || max - d < 3 { d + 1 } else { (d * 2).min(max - 2) };
    }
}

/// A box of a generated enum compares and formats as the enum does.
pub fn reading<E>(name: &str)
where
    E: crate::probe::Probe + core::fmt::Debug + PartialOrd,
{
    for a in 0..E::N {
        for ka in 0..2 {
            sys::reset();
            case(format_args!("{name}/{a}/{ka}/format"));
            let b = E::make(a, ka).into_tagged_box();
            let w = word(&b);
            must(format!("{b:?}") == format!("{:?}", E::make(a, ka)), "the debug text differs");
            must(format!("{b:#?}") == format!("{:#?}", E::make(a, ka)), "the alternate debug text differs");
            let p = b.as_ptr::<u8>() as usize;
            must(format!("{b:x} {b:#X} {b:o} {b:b}") == format!("{p:x} {p:#X} {p:o} {p:b}"), "the address text differs");
            for c in 0..E::N {
                for kc in 0..2 {
                    sys::reset_keep();
                    case(format_args!("{name}/{a}/{ka}/compare {c}/{kc}"));
                    let o = E::make(c, kc).into_tagged_box();
                    let (x, y) = (E::make(a, ka), E::make(c, kc));
                    must((b == o) == (x == y) && (b != o) == (x != y), "== or != differs");
                    must(b.partial_cmp(&o) == x.partial_cmp(&y), "partial_cmp differs");
                    must((b < o) == (x < y) && (b <= o) == (x <= y) && (b > o) == (x > y) && (b >= o) == (x >= y), "an order operator differs");
                    must(E::from_tagged_box(o).same(c, kc), "comparing changes a value");
                }
            }
            must(word(&b) == w && E::from_tagged_box(b).same(a, ka), "comparing and formatting changes a value");
        }
    }
}

/// Things that have to panic, one per process: the name of one, or nothing for their number.
pub fn must_panic(i: usize) {
    let max = MAX_DISCRIMINANT as u64;
    let over = (max + 1) as Discriminant;
    let can = max < Discriminant::MAX as u64;
    let refuse = |k: usize| sys::REFUSE.store(k, Relaxed);
    match i {
        0 => sink(TaggedPointer::new(MAX_POINTER_VALUE as u64 + 1, 0)),
        1 => sink(TaggedPointer::new(u64::MAX, 0)),
        2 => sink(TaggedPointer::new(1 << 63, MAX_DISCRIMINANT)),
        3 if can => sink(TaggedPointer::new(0, over)),
        4 if can => sink(TaggedPointer::new(0, Discriminant::MAX)),
        5 if can => sink(TaggedPointer::dangling::<u64>(over)),
        6 if can => sink(TaggedBox::<T>::dangling::<u64>(over)),
        7 if can => sink(TaggedBox::<T>::new(5u64, over)),
        8 if can => sink(TaggedBox::<T>::new((), over)),
        9 if can => sink(unsafe { TaggedBox::<T>::from_raw(8 as *mut u64, over) }),
        10 => {
            refuse(1);
            sink(TaggedBox::<T>::new(5u64, 0))
        }
        11 => {
            refuse(1);
            sink(TaggedBox::<T>::new(Al64(3), MAX_DISCRIMINANT))
        }
        12 => {
            refuse(1);
            sink(unsafe { TaggedBox::<T>::new_unchecked([1u8; 1000], 1) })
        }
        _ => {
            // Nothing to refuse at this width, or no such case.
            case(format_args!("no such case"));
            panic!("no such case")
        }
    }
    case(format_args!("must-panic {i}"));
    crate::wrong("something that has to be refused is not");
}
/// An allocation whose result nobody looks at need not be made.
fn sink<T>(t: T) {
    core::mem::forget(core::hint::black_box(t))
}
pub const MUST_PANIC: usize = 13;
