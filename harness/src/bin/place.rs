//! Where a block lies is the allocator's choice: every value is stored at addresses of every magnitude (on both sides
//! of every power of two, in runs of bits, across boundaries, at every offset within a page, no better aligned than
//! the type asks for), and everything is observed there. Property by property: C04, C07-C09, C11-C13, C19, C22, C25.
use mc::{cli, report};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use tagged_box::discriminant::{Discriminant, MAX_DISCRIMINANT, POINTER_WIDTH};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

// ---- an allocator that puts the next block where it is told to

struct Placing;
const ZERO: AtomicUsize = AtomicUsize::new(0);
/// The address of the next block, or 0.
static NEXT: AtomicUsize = ZERO;
/// Address, size, alignment of up to four blocks placed; size + 1 so that 0 is "free slot".
static BLOCKS: [[AtomicUsize; 4]; 4] = [FREE; 4];
const FREE: [AtomicUsize; 4] = [ZERO; 4];
static FAULT: AtomicUsize = ZERO;
const FAULTS: [&str; 4] = ["", "a block was released with another layout", "a block was released twice", "an address inside a block was released"];
const RED: usize = 64;
unsafe impl GlobalAlloc for Placing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = NEXT.load(Relaxed);
        if a == 0 || a % l.align() != 0 {
            return System.alloc(l);
        }
        for b in &BLOCKS {
            if b[0].load(Relaxed) == 0 {
                NEXT.store(0, Relaxed);
                b[0].store(a, Relaxed);
                b[1].store(l.size(), Relaxed);
                b[2].store(l.align(), Relaxed);
                b[3].store(1, Relaxed);
                std::ptr::write_bytes((a - RED) as *mut u8, 0xFA, l.size() + 2 * RED);
                std::ptr::write_bytes(a as *mut u8, 0xCC, l.size());
                return a as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        for b in &BLOCKS {
            let (start, size) = (b[0].load(Relaxed), b[1].load(Relaxed));
            if start == 0 || a < start || a >= start + size.max(1) {
                continue;
            }
            let fault = if a != start {
                3
            } else if b[3].load(Relaxed) == 0 {
                2
            } else if size != l.size() || b[2].load(Relaxed) != l.align() {
                1
            } else {
                0
            };
            if fault != 0 {
                FAULT.store(fault, Relaxed);
            }
            b[3].store(0, Relaxed);
            std::ptr::write_bytes(start as *mut u8, 0xDD, size);
            return;
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Placing = Placing;

/// Runs `f`, during which one block is placed at `a`. Whether it was.
fn at<R>(a: usize, f: impl FnOnce() -> R) -> (R, bool) {
    NEXT.store(a, Relaxed);
    let r = f();
    (r, NEXT.swap(0, Relaxed) == 0)
}
fn released(a: usize) -> bool {
    BLOCKS.iter().any(|b| b[0].load(Relaxed) == a && b[3].load(Relaxed) == 0)
}
/// What is wrong with the blocks; forgets them.
fn blocks_end() -> Option<&'static str> {
    let mut bad = None;
    for b in &BLOCKS {
        let (a, size) = (b[0].swap(0, Relaxed), b[1].load(Relaxed));
        if a != 0 {
            let around = |from: usize| unsafe { std::slice::from_raw_parts(from as *const u8, RED) };
            if around(a - RED).iter().chain(around(a + size)).any(|x| *x != 0xFA) {
                bad = Some("memory outside the block was written");
            }
        }
    }
    match FAULT.swap(0, Relaxed) {
        0 => bad,
        n => Some(FAULTS[n]),
    }
}

// ---- the places

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
const WINDOW: usize = 16384;
/// Maps memory on both sides of `base`, or above it only.
fn map(base: usize) -> Option<(usize, usize)> {
    for (lo, len) in [(base.wrapping_sub(WINDOW), 2 * WINDOW), (base, WINDOW)] {
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
        let p = unsafe { mmap(lo as *mut u8, len, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0) };
        if p as usize == lo {
            return Some((lo, lo + len));
        }
        if p as isize != -1 {
            unsafe { munmap(p, len) };
        }
    }
    None
}
fn places(thorough: bool) -> Vec<(usize, (usize, usize))> {
    let mut bases = Vec::new();
    for k in 16..47 {
        bases.push(1usize << k);
    }
    bases.push((1 << 47) - 4 * WINDOW);
    for i in 17..47 {
        for j in 16..i {
            // Two bits, runs of ones, and all but two bits.
            bases.push(1 << i | 1 << j);
            bases.push((1 << i) - (1 << j));
            if thorough || j % 4 == 0 {
                bases.push(((1 << 47) - (1 << 16)) & !(1 << i | 1 << j));
            }
            if thorough {
                bases.extend((16..j).map(|k| 1usize << i | 1 << j | 1 << k));
            }
        }
    }
    bases.push(0x2AAA_AAAA_AAAA_A000);
    bases.push(0x5555_5555_5555_5000);
    bases.sort();
    bases.dedup();
    let mut v = Vec::new();
    for (i, base) in bases.into_iter().enumerate() {
        let Some((lo, hi)) = map(base) else {
            report::count("places_taken", 1);
            continue;
        };
        for d in [0isize, 1, 2, 4, 8, 16, 24, 48, 64, 256, 4096, -1, -2, -4, -8, -16, -24, -32, -64, -256, -4096] {
            v.push((base.wrapping_add_signed(d), (lo, hi)));
        }
        // Every place in a page, and one byte apart around the end of a line.
        if i % 300 == 20 {
            for d in 0..512 {
                v.push((base + d * 8, (lo, hi)));
            }
            for d in 0..130 {
                v.push((base + d, (lo, hi)));
            }
        }
    }
    v
}

// ---- what is observed

thread_local! {
    /// What is being done, and the property a panic or crash there belongs to.
    static STAGE: Cell<(&'static str, &'static str)> = const { Cell::new(("", "C07")) };
    static GONE: Cell<u32> = const { Cell::new(0) };
}
fn stage(p: &'static str, s: &'static str) {
    STAGE.with(|x| x.set((p, s)));
}
fn verify(ok: bool, p: &'static str, what: &str) {
    if !ok {
        let s = STAGE.with(|x| x.get());
        report::violation(p, format!("{} ({what})", s.1));
    }
}
fn word<T>(b: &T) -> u64 {
    assert!(std::mem::size_of::<T>() == 8);
    unsafe { std::mem::transmute_copy(b) }
}
fn packed(a: usize, d: Discriminant) -> u64 {
    a as u64 | (d as u64) << POINTER_WIDTH
}

/// Payloads without heap storage of their own.
pub trait Val: Copy + PartialEq + Debug + 'static {
    const N: &'static str;
    fn val(n: u8) -> Self;
}
macro_rules! val { ($($n:literal $t:ty: |$x:ident| $e:expr;)*) => { $(impl Val for $t { const N: &'static str = $n; fn val($x: u8) -> Self { $e } })* } }
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
pub struct Line([u8; 64]);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(4096))]
pub struct Page(u8);
val! {
    "u8" u8: |n| n;
    "u16" u16: |n| n as u16 * 257;
    "u32" u32: |n| n as u32 * 0x0101_0101;
    "u64" u64: |n| n as u64 * 0x0101_0101_0101_0101;
    "u128" u128: |n| n as u128 * 0x0101_0101_0101_0101_0101_0101_0101_0101;
    "three" [u8; 3]: |n| [n, !n, n];
    "words" [u64; 9]: |n| [n as u64 * 3; 9];
    "line" Line: |n| Line([n; 64]);
    "page" Page: |n| Page(n);
    "large" [u8; 5001]: |n| [n; 5001];
}
type Tag = Hand;

fn raw<U: Val>(a: usize, d: Discriminant, way: usize) {
    let make = |v: U| match way % 2 {
        0 => TaggedBox::<Tag>::new(v, d),
        _ => unsafe { TaggedBox::<Tag>::new_unchecked(v, d) },
    };
    stage("C07", "storing a value");
    let (mut b, placed) = at(a, || make(U::val(7)));
    if !placed {
        report::count("not_placed", 1);
    }
    let a = if placed { a } else { b.as_ptr::<U>() as usize };
    stage("C22", "the word of a stored value");
    verify(word(&b) == packed(a, d), "C22", "is not the address and the discriminant");
    stage("C07", "reading a stored value");
    unsafe {
        verify(b.discriminant() == d, "C07", "discriminant");
        verify(b.as_ptr::<U>() as usize == a && b.as_mut_ptr::<U>() as usize == a, "C07", "address");
        verify(*b.as_ref::<U>() == U::val(7), "C07", "value");
        *b.as_mut_ref::<U>() = U::val(9);
        verify(*b.as_ref::<U>() == U::val(9) && *b.as_ptr::<U>() == U::val(9), "C07", "value written in place");
        stage("C04", "formatting a box");
        verify(format!("{b:x} {b:#o} {b:b} {b:#018X}") == format!("{a:x} {a:#o} {a:b} {a:#018X}"), "C04", "text");
    }
    stage("C07", "taking a value out");
    unsafe {
        match way / 2 {
            0 => {
                let v = TaggedBox::into_inner::<U>(b);
                verify(v == U::val(9), "C07", "value taken out");
            }
            1 => {
                let x = TaggedBox::into_box::<U>(b);
                verify(*x == U::val(9) && &*x as *const U as usize == a, "C07", "value in a standard box");
                drop(x);
                verify(!placed || released(a), "C09", "the block of a standard box is not released with it");
            }
            _ => {
                let p = TaggedBox::into_raw::<U>(b);
                verify(p as usize == a && *p == U::val(9), "C07", "raw pointer");
                let b = TaggedBox::<Tag>::from_raw(p, d);
                verify(word(&b) == packed(a, d), "C22", "word of a box made from a raw pointer");
                verify(TaggedBox::into_inner::<U>(b) == U::val(9), "C07", "value of a box made from a raw pointer");
                drop(Box::from_raw(p));
                verify(!placed || released(a), "C09", "the block of a raw pointer is not released as a standard box");
            }
        }
    }
    stage("C09", "the blocks at the end");
    if let Some(m) = blocks_end() {
        verify(false, "C09", m);
    }
}

/// Notes when it is destroyed.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tok(u32);
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok(self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        GONE.with(|g| g.set(g.get() + 1))
    }
}
tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Cont, pub enum Item {
        One(Tok),
        Byte(u8),
        Two(Tok, u8),
        Rec { x: u16, p: Tok },
        Lone { big: [u64; 9] },
        Many(u8, u128, u16),
    }
}
impl std::fmt::Display for Item {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("an item")
    }
}
/// Written by hand: stored whole, at the highest discriminants.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Hand {
    A(Tok),
    B([u8; 3]),
    C(u64, Tok),
}
impl TaggableInner for Hand {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let d = match self {
            Hand::A(_) => MAX_DISCRIMINANT,
            Hand::B(_) => 2,
            Hand::C(..) => MAX_DISCRIMINANT - 1,
        };
        match d {
            2 => unsafe { TaggedBox::new_unchecked(self, d) },
            _ => TaggedBox::new(self, d),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        unsafe { TaggedBox::into_inner::<Self>(b) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, f: F) {
        f(b.as_ref::<Self>())
    }
}
impl std::fmt::Display for Hand {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("by hand")
    }
}
#[derive(Clone)]
pub struct HandCont(TaggedBox<Hand>);
impl TaggableContainer for HandCont {
    type Inner = Hand;
    fn into_inner(self) -> Hand {
        Hand::from_tagged_box(self.0)
    }
}
pub trait Enum: TaggableInner + Clone + Debug + std::fmt::Display + Ord {
    const KINDS: usize;
    const BY_HAND: bool;
    type C: TaggableContainer<Inner = Self> + Clone;
    fn make(kind: usize, n: u8) -> Self;
    fn disc(kind: usize) -> Discriminant;
    fn toks(kind: usize) -> u32;
    fn cont(self) -> Self::C;
}
impl Enum for Item {
    const KINDS: usize = 6;
    const BY_HAND: bool = false;
    type C = Cont;
    fn make(kind: usize, n: u8) -> Item {
        match kind {
            0 => Item::One(Tok(n as u32)),
            1 => Item::Byte(n),
            2 => Item::Two(Tok(n as u32), !n),
            3 => Item::Rec { x: n as u16 * 100, p: Tok(n as u32) },
            4 => Item::Lone { big: [n as u64; 9] },
            _ => Item::Many(n, n as u128 * 5, 1),
        }
    }
    fn disc(kind: usize) -> Discriminant {
        kind as Discriminant
    }
    fn toks(kind: usize) -> u32 {
        matches!(kind, 0 | 2 | 3) as u32
    }
    fn cont(self) -> Cont {
        Cont::from(self)
    }
}
impl Enum for Hand {
    const KINDS: usize = 3;
    const BY_HAND: bool = true;
    type C = HandCont;
    fn make(kind: usize, n: u8) -> Hand {
        match kind {
            0 => Hand::A(Tok(n as u32)),
            1 => Hand::B([n; 3]),
            _ => Hand::C(n as u64, Tok(n as u32)),
        }
    }
    fn disc(kind: usize) -> Discriminant {
        [MAX_DISCRIMINANT, 2, MAX_DISCRIMINANT - 1][kind]
    }
    fn toks(kind: usize) -> u32 {
        (kind != 1) as u32
    }
    fn cont(self) -> HandCont {
        HandCont(self.into_tagged_box())
    }
}

fn items<E: Enum>(kind: usize, a: usize, q: usize) {
    // A violation of a hand-written implementation is C25's.
    let p = |p: &'static str| if E::BY_HAND { "C25" } else { p };
    let own = |n: u8| E::make(kind, n);
    GONE.with(|g| g.set(0));
    let gone = || GONE.with(|g| g.get());
    let mut plain = 0;
    stage(p("C07"), "storing an enum");
    let (b, placed) = at(a, || own(3).into_tagged_box());
    if !placed {
        report::count("not_placed", 1);
    } else {
        verify(word(&b) == packed(a, E::disc(kind)), p("C22"), "the word is not the address and the discriminant");
    }
    verify(b.discriminant() == E::disc(kind), p("C07"), "discriminant");
    stage(p("C19"), "borrowing");
    let (x, y) = (own(3), own(4));
    plain += 2 * E::toks(kind);
    let mut n = 0;
    unsafe { E::ref_from_tagged_box(&b, |i| n += if *i == x { 1 } else { 100 }) };
    verify(n == 1, p("C19"), "value seen");
    let before = word(&b);
    stage(p("C11"), "cloning");
    let (c, cloned) = at(q, || b.clone());
    if cloned && placed {
        verify(word(&c) == packed(q, E::disc(kind)), p("C22"), "the word of a clone");
    }
    unsafe { E::ref_from_tagged_box(&c, |i| verify(*i == x, p("C11"), "value of the clone")) };
    verify(word(&c) != word(&b) && c.discriminant() == b.discriminant(), p("C11"), "the clone is not apart");
    stage(p("C12"), "comparing");
    verify(b == c && !(b != c) && b == b && c.cmp(&b).is_eq() && b.partial_cmp(&c) == Some(std::cmp::Ordering::Equal) && b <= c && !(c < b), p("C12"), "equal boxes");
    stage(p("C13"), "formatting");
    verify(format!("{b:?} {b:#?} {b} {b:>12} {c:04?}") == format!("{x:?} {x:#?} {x} {x:>12} {x:04?}"), p("C13"), "text");
    verify(word(&b) == before, p("C19"), "the box changed");
    verify(gone() == 0, p("C08"), "a value was destroyed early");
    stage(p("C07"), "taking out");
    let v = E::from_tagged_box(b);
    verify(v == x, p("C07"), "value taken out");
    unsafe { E::ref_from_tagged_box(&c, |i| verify(*i == x, p("C11"), "the clone after the original is gone")) };
    drop(E::from_tagged_box(c));
    verify(gone() == E::toks(kind), p("C08"), "destroyed once by its owner");
    drop(v);
    verify(gone() == 2 * E::toks(kind), p("C08"), "destroyed once by its owner");
    if let Some(m) = blocks_end() {
        verify(false, p("C09"), m);
    }
    stage(p("C07"), "a container");
    let (c, placed) = at(q, || own(4).cont());
    if placed {
        verify(word(&c) == packed(q, E::disc(kind)), p("C22"), "the word of a container");
    }
    stage(p("C11"), "cloning a container");
    let (d, _) = at(a, || c.clone());
    verify(word(&c) != word(&d), p("C11"), "the clone is not apart");
    stage(p("C07"), "a container taken apart");
    let (v, w) = (c.into_inner(), d.into_inner());
    verify(v == y, p("C07"), "value of the container");
    verify(w == y, p("C11"), "value of the clone");
    // The same block again, under the discriminant of another variant.
    stage(p("C07"), "storing what was taken out");
    if let Some(m) = blocks_end() {
        verify(false, p("C09"), m);
    }
    let (b, _) = at(a, || w.into_tagged_box());
    let (o, _) = at(q, || E::make((kind + 1) % E::KINDS, 9).into_tagged_box());
    let z = E::make((kind + 1) % E::KINDS, 9);
    stage(p("C12"), "comparing");
    verify((b == o, b < o, b.partial_cmp(&o), o.cmp(&b)) == (y == z, y < z, y.partial_cmp(&z), z.cmp(&y)), p("C12"), "different variants");
    let (same, _) = at(q + 256, || own(9).into_tagged_box());
    let other = own(9);
    verify((b == same, b < same, b.partial_cmp(&same), same.cmp(&b)) == (y == other, y < other, y.partial_cmp(&other), other.cmp(&y)), p("C12"), "same variant, other value");
    drop(E::from_tagged_box(same));
    drop(other);
    plain += 2 * E::toks(kind);
    stage(p("C07"), "taking out");
    let o = E::from_tagged_box(o);
    verify(o == z, p("C07"), "value taken out");
    verify(E::from_tagged_box(b) == y, p("C07"), "value taken out");
    drop((v, o, x, y, z));
    let next = E::toks((kind + 1) % E::KINDS);
    verify(gone() == 4 * E::toks(kind) + plain + 2 * next, p("C08"), "values destroyed in all");
    if let Some(m) = blocks_end() {
        verify(false, p("C09"), m);
    }
}

fn main() {
    let c = cli::parse();
    let all = places(c.thorough);
    report::count("places", all.len() as u64);
    let discs = [0, 1, MAX_DISCRIMINANT / 2, MAX_DISCRIMINANT];
    let mut i = 0;
    let mut case = |name: String, f: &mut dyn FnMut()| {
        i += 1;
        if c.only.as_ref().map_or(!c.mine(i), |o| *o != name) {
            return;
        }
        report::begin_case(&name);
        report::count("evaluations", 1);
        report::count("distinct_nontrivial", 1);
        report::count("histories", 1);
        report::last_panic();
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            NEXT.store(0, Relaxed);
            let (p, s) = STAGE.with(|x| x.get());
            report::violation(p, format!("{s} panics: {}", report::last_panic()));
            blocks_end();
        }
    };
    for (n, &(a, (lo, hi))) in all.iter().enumerate() {
        let fits = |a: usize, l: Layout| a % l.align() == 0 && a >= lo + RED && a + l.size() + RED <= hi;
        macro_rules! raws { ($($t:ty),*) => { $(
            if fits(a, Layout::new::<$t>()) {
                for d in discs {
                    for way in 0..6 {
                        case(format!("place:{}:{a:#x}:{d}:{way}", <$t>::N), &mut || raw::<$t>(a, d, way));
                    }
                }
            }
        )* } }
        raws!(u8, u16, u32, u64, u128, [u8; 3], [u64; 9], Line, Page, [u8; 5001]);
        // The second block: next to the first, and at the place before it in the list.
        let (far, (flo, fhi)) = all[(n + all.len() - 21) % all.len()];
        for q in [a + 512, far] {
            let near = |x: usize| x % 16 == 0 && (fits(x, Layout::new::<[u128; 8]>()) || x >= flo + RED && x + 128 + RED <= fhi);
            if near(a) && near(q) && a.abs_diff(q) >= 512 {
                for kind in 0..Item::KINDS {
                    case(format!("place:item {kind}:{a:#x}:{q:#x}"), &mut || items::<Item>(kind, a, q));
                }
                for kind in 0..Hand::KINDS {
                    case(format!("place:hand {kind}:{a:#x}:{q:#x}"), &mut || items::<Hand>(kind, a, q));
                }
            }
        }
    }
    c.done()
}
