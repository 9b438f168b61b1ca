//! C24: what constants and statics hold is what the same calls yield at run time.
#![allow(long_running_const_eval)]
use mc::{cli, report};
use std::hint::black_box;
use std::mem;
use tagged_box::discriminant::{Discriminant, MAX_DISCRIMINANT, MAX_POINTER_VALUE, POINTER_WIDTH};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

/// All discriminants, or the 2048 smallest and the 2048 largest.
const ALL: usize = MAX_DISCRIMINANT as usize + 1;
const N: usize = if ALL < 4096 { ALL } else { 4096 };
const fn disc(i: usize) -> Discriminant {
    if i < N / 2 {
        i as Discriminant
    } else {
        MAX_DISCRIMINANT - (N - 1 - i) as Discriminant
    }
}
/// Addresses: nothing, single bits, all but a single bit, runs.
const A: usize = 4 * POINTER_WIDTH as usize + 2;
const fn addr(i: usize) -> u64 {
    let k = i / 4;
    if k >= POINTER_WIDTH as usize {
        return if i % 4 == 0 { 0 } else { MAX_POINTER_VALUE };
    }
    let bit = 1u64 << k;
    match i % 4 {
        0 => bit,
        1 => MAX_POINTER_VALUE ^ bit,
        2 => bit - 1,
        _ => MAX_POINTER_VALUE ^ (bit - 1),
    }
}

#[repr(align(64))]
struct A64(#[allow(dead_code)] u8);
#[repr(align(4096))]
struct Page;

const fn pointers<T>() -> [TaggedPointer; N] {
    let mut t = [TaggedPointer::dangling::<T>(0); N];
    let mut i = 0;
    while i < N {
        t[i] = TaggedPointer::dangling::<T>(disc(i));
        i += 1;
    }
    t
}
struct Read {
    disc: [Discriminant; N],
    addr: [u64; N],
    raw: [u64; N],
    ptr: [*const u8; N],
}
unsafe impl Sync for Read {}
const fn read(t: &[TaggedPointer; N]) -> Read {
    let mut r = Read { disc: [0; N], addr: [0; N], raw: [0; N], ptr: [std::ptr::null(); N] };
    let mut i = 0;
    while i < N {
        r.disc[i] = t[i].discriminant();
        r.addr[i] = t[i].as_u64();
        r.raw[i] = t[i].as_raw_u64();
        r.ptr[i] = t[i].as_ptr::<u8>();
        i += 1;
    }
    r
}
struct BoxRead {
    disc: [Discriminant; N],
    ptr: [*const u8; N],
}
unsafe impl Sync for BoxRead {}
const fn boxes<T>() -> BoxRead {
    let mut r = BoxRead { disc: [0; N], ptr: [std::ptr::null(); N] };
    let mut i = 0;
    while i < N {
        let b: TaggedBox<Item> = TaggedBox::dangling::<T>(disc(i));
        r.disc[i] = b.discriminant();
        r.ptr[i] = b.as_ptr::<u8>();
        mem::forget(b);
        i += 1;
    }
    r
}

tagged_box::tagged_box! {
    #[derive(Debug, Clone, Copy, PartialEq)]
    struct Cont, enum Item {
        U0,
        U1,
    }
}

macro_rules! types {
    ($($name:ident $t:ty),*) => {
        $( mod $name {
            use super::*;
            pub const TABLE: [TaggedPointer; N] = pointers::<$t>();
            pub static STATIC: [TaggedPointer; N] = pointers::<$t>();
            pub static READ: Read = read(&TABLE);
            pub static BOXES: BoxRead = boxes::<$t>();
        } )*
        fn each(c: &cli::Cli) {
            $( if c.only.as_deref().map_or(true, |o| o.starts_with(concat!("dangling:", stringify!($name), ":"))) {
                table::<$t>(stringify!($name), black_box(&$name::TABLE), black_box(&$name::STATIC), black_box(&$name::READ), black_box(&$name::BOXES));
            } )*
        }
    };
}
types! { unit (), u8_ u8, u16_ u16, u32_ u32, u64_ u64, u128_ u128, none [u64; 0], a64 A64, page Page, item Item, boxed Box<u8> }

fn table<T>(name: &str, t: &[TaggedPointer; N], s: &[TaggedPointer; N], r: &Read, b: &BoxRead) {
    for i in 0..N {
        let d = disc(i);
        let case = || format!("dangling:{name}:{d}");
        report::count("evaluations", 1);
        report::count("distinct_nontrivial", (d != 0) as u64);
        let f: fn(Discriminant) -> TaggedPointer = black_box(TaggedPointer::dangling::<T>);
        let p = match std::panic::catch_unwind(|| f(black_box(d))) {
            Ok(p) => p,
            Err(_) => {
                report::violation_in("C24", case(), "dangling panics at run time and not in a constant");
                continue;
            }
        };
        let a = p.as_u64();
        for (what, c) in [("a constant", t[i]), ("a static", s[i])] {
            if c != p || c.as_raw_u64() != p.as_raw_u64() {
                report::violation_in("C24", case(), format!("{what} made by TaggedPointer::dangling differs from the pointer made at run time"));
            }
        }
        if r.disc[i] != d || p.discriminant() != d {
            report::violation_in("C24", case(), "discriminant() in a constant is not the discriminant given");
        }
        if r.addr[i] != a {
            report::violation_in("C24", case(), "as_u64() in a constant differs from run time");
        }
        if r.raw[i] != p.as_raw_u64() {
            report::violation_in("C24", case(), "as_raw_u64() in a constant differs from run time");
        }
        if r.ptr[i] as u64 != a {
            report::violation_in("C24", case(), "as_ptr() in a constant differs from run time");
        }
        let g: fn(Discriminant) -> TaggedBox<Item> = black_box(TaggedBox::dangling::<T>);
        let x = g(black_box(d));
        if b.disc[i] != d || x.discriminant() != d {
            report::violation_in("C24", case(), "discriminant() of a constant TaggedBox is not the discriminant given");
        }
        if b.ptr[i] != x.as_ptr::<u8>() {
            report::violation_in("C24", case(), "as_ptr() of a constant TaggedBox differs from run time");
        }
        if a as usize % mem::align_of::<T>() != 0 || a == 0 {
            report::violation_in("C24", case(), "the address of a dangling pointer is null or not aligned for its type");
        }
    }
}

/// store, fetch and strip over addresses and a spread of discriminants.
const M: usize = if N < 32 { N } else { 32 };
const fn some(j: usize) -> Discriminant {
    disc(if N <= 32 { j } else { j * (N - 1) / 31 })
}
static WORDS: [[u64; M]; A] = {
    let mut t = [[0; M]; A];
    let mut i = 0;
    while i < A {
        let mut j = 0;
        while j < M {
            t[i][j] = TaggedPointer::store_discriminant(addr(i), some(j));
            j += 1;
        }
        i += 1;
    }
    t
};
static PARTS: [[(u64, Discriminant); M]; A] = {
    let mut t = [[(0, 0); M]; A];
    let mut i = 0;
    while i < A {
        let mut j = 0;
        while j < M {
            t[i][j] = (TaggedPointer::strip_discriminant(WORDS[i][j]), TaggedPointer::fetch_discriminant(WORDS[i][j]));
            j += 1;
        }
        i += 1;
    }
    t
};
fn words(c: &cli::Cli) {
    for i in 0..A {
        for j in 0..M {
            let (a, d) = (addr(i), some(j));
            let case = format!("word:{a:#x}:{d}");
            if c.only.as_ref().is_some_and(|o| *o != case) {
                continue;
            }
            report::count("evaluations", 1);
            report::count("distinct_nontrivial", 1);
            let p = TaggedPointer::new(black_box(a), black_box(d));
            let (w, q) = (black_box(&WORDS)[i][j], black_box(&PARTS)[i][j]);
            if w != p.as_raw_u64() || w != TaggedPointer::store_discriminant(black_box(a), black_box(d)) {
                report::violation_in("C24", case.clone(), "store_discriminant() in a constant differs from run time");
            }
            if q.0 != a || q.0 != TaggedPointer::strip_discriminant(black_box(w)) {
                report::violation_in("C24", case.clone(), "strip_discriminant() in a constant is not the address");
            }
            if q.1 != d || q.1 != TaggedPointer::fetch_discriminant(black_box(w)) {
                report::violation_in("C24", case, "fetch_discriminant() in a constant is not the discriminant");
            }
        }
    }
}

/// Boxes of unit variants that live in constants and statics.
const B0: TaggedBox<Item> = TaggedBox::dangling::<()>(0);
const B1: TaggedBox<Item> = TaggedBox::dangling::<Item>(1);
static S0: TaggedBox<Item> = TaggedBox::dangling::<Item>(0);
static S1: TaggedBox<Item> = TaggedBox::dangling::<()>(1);
static BOTH: [TaggedBox<Item>; 2] = [B0, B1];
fn units(c: &cli::Cli) {
    let cases: [(&str, &TaggedBox<Item>, Item); 6] =
        [("const0", &B0, Item::U0), ("const1", &B1, Item::U1), ("static0", &S0, Item::U0), ("static1", &S1, Item::U1), ("array0", &BOTH[0], Item::U0), ("array1", &BOTH[1], Item::U1)];
    for (name, b, want) in cases {
        let case = format!("unit:{name}");
        if c.only.as_ref().is_some_and(|o| *o != case) {
            continue;
        }
        report::count("evaluations", 1);
        report::count("distinct_nontrivial", 1);
        let r = std::panic::catch_unwind(|| {
            let b = black_box(b);
            let made = want.into_tagged_box();
            let mut seen = None;
            unsafe { Item::ref_from_tagged_box(b, |i| seen = Some(*i)) };
            b.discriminant() == made.discriminant()
                && *b == made
                && seen == Some(want)
                && format!("{b:?}") == format!("{want:?}")
                && Item::from_tagged_box(*b) == want
                && Cont::from(Item::from_tagged_box(b.clone())).into_inner() == want
        });
        match r {
            Ok(true) => (),
            Ok(false) => report::violation_in("C24", case, "a box of a unit variant in a constant or static reads as something else"),
            Err(_) => report::violation_in("C24", case, format!("reading a box of a unit variant in a constant or static panics: {}", report::last_panic())),
        }
    }
}

fn main() {
    let c = cli::parse();
    if std::panic::catch_unwind(|| {
        each(&c);
        words(&c);
        units(&c);
    })
    .is_err()
    {
        report::violation_in("C24", "any", format!("panics: {}", report::last_panic()));
    }
    c.done()
}
