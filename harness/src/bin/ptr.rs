//! C01-C04: tagged pointers and their text.
use harness::{fmt_table as ft, must_panic, patterns};
use mc::{cli, report};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tagged_box::discriminant::{Discriminant, DISCRIMINANT_BITS, MAX_DISCRIMINANT, MAX_POINTER_VALUE, POINTER_WIDTH};
use tagged_box::{TaggableInner, TaggedBox, TaggedPointer};

enum T {}
impl TaggableInner for T {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {}
    }
    fn from_tagged_box(_: TaggedBox<Self>) -> Self {
        unreachable!()
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(_: &TaggedBox<Self>, _: F) {
        unreachable!()
    }
}

const D: u64 = MAX_DISCRIMINANT as u64;
const P: u64 = MAX_POINTER_VALUE;

/// The pair at hand, for the report should the crate panic.
static CUR: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
#[inline(always)]
fn at(p: u64, d: u64) {
    CUR[0].store(p, Relaxed);
    CUR[1].store(d, Relaxed);
}
fn guarded(tag: &str, c: &cli::Cli, f: fn(&cli::Cli)) {
    if std::panic::catch_unwind(|| f(c)).is_err() {
        let (p, d) = (CUR[0].load(Relaxed), CUR[1].load(Relaxed));
        let only = c.only.clone();
        report::violation_in(tag, only.unwrap_or_else(|| case(p, d)), format!("panics on a pointer and discriminant within the limits: {}", report::last_panic()));
    }
}

fn case(p: u64, d: u64) -> String {
    format!("p={p:#x},d={d:#x}")
}

// ---------------------------------------------------------------- C01

#[inline(always)]
fn c01_one(p: u64, d: u64) -> Option<&'static str> {
    at(p, d);
    let (p, d) = (std::hint::black_box(p), std::hint::black_box(d));
    let dd = d as Discriminant;
    let mut t = std::hint::black_box(TaggedPointer::new(p, dd));
    let raw = t.as_raw_u64();
    if t.discriminant() != dd {
        return Some("discriminant() differs from the discriminant given");
    }
    if t.as_u64() != p {
        return Some("as_u64() differs from the pointer given");
    }
    if t.as_ptr::<u8>() as u64 != p {
        return Some("as_ptr() differs from the pointer given");
    }
    if t.as_mut_ptr::<u64>() as u64 != p {
        return Some("as_mut_ptr() differs from the pointer given");
    }
    if p != 0 {
        if unsafe { t.as_ref::<()>() } as *const () as u64 != p {
            return Some("as_ref() is elsewhere than the pointer given");
        }
        if unsafe { t.as_mut_ref::<()>() } as *mut () as u64 != p {
            return Some("as_mut_ref() is elsewhere than the pointer given");
        }
    }
    if TaggedPointer::fetch_discriminant(raw) != dd {
        return Some("fetch_discriminant(raw) differs from the discriminant given");
    }
    if TaggedPointer::strip_discriminant(raw) != p {
        return Some("strip_discriminant(raw) differs from the pointer given");
    }
    if TaggedPointer::store_discriminant(p, dd) != raw {
        return Some("store_discriminant() differs from the raw word of new()");
    }
    if t.as_raw_u64() != raw || t.discriminant() != dd {
        return Some("reading a tagged pointer changes it");
    }
    None
}

fn c01_box(p: u64, d: u64) -> Option<&'static str> {
    box_of::<u8>(p, d)
        .or_else(|| box_of::<u64>(p, d))
        .or_else(|| box_of::<[u8; 300]>(p, d))
        // An address is an address, whether or not a byte is stored there.
        .or_else(|| box_of::<()>(p, d))
        .or_else(|| box_of::<[u64; 0]>(p, d))
        .or_else(|| box_of::<Zst64>(p, d))
}

#[repr(align(64))]
struct Zst64;

/// A box made from a pointer to a `U`, which is never followed.
fn box_of<U>(p: u64, d: u64) -> Option<&'static str> {
    at(p, d);
    let t = TaggedPointer::new(p, d as Discriminant);
    if t.as_ptr::<U>() as u64 != p || t.as_mut_ptr::<U>() as u64 != p {
        return Some("TaggedPointer::as_ptr() differs from the pointer given");
    }
    let b: TaggedBox<T> = unsafe { TaggedBox::from_raw(p as *mut U, d as Discriminant) };
    let mut b = ManuallyDrop::new(b);
    if b.discriminant() as u64 != d {
        return Some("TaggedBox::discriminant() differs from the discriminant given");
    }
    if b.as_ptr::<U>() as u64 != p || b.as_mut_ptr::<U>() as u64 != p {
        return Some("TaggedBox::as_ptr() differs from the pointer given");
    }
    // Nothing is stored in `()`, so any address does.
    if p != 0 && unsafe { b.as_ref::<()>() as *const () as u64 != p || b.as_mut_ref::<()>() as *mut () as u64 != p } {
        return Some("TaggedBox::as_ref() is elsewhere than the pointer given");
    }
    if TaggedBox::into_raw::<U>(ManuallyDrop::into_inner(b)) as u64 != p {
        return Some("TaggedBox::into_raw() differs from the pointer given");
    }
    None
}

fn c01_raw(raw: u64) -> Option<&'static str> {
    at(raw & P, raw >> (64 - DISCRIMINANT_BITS));
    let d = TaggedPointer::fetch_discriminant(raw);
    let p = TaggedPointer::strip_discriminant(raw);
    if p > P {
        return Some("strip_discriminant() leaves more than an address");
    }
    if d as u64 > D {
        return Some("fetch_discriminant() yields more than the largest discriminant");
    }
    if TaggedPointer::store_discriminant(p, d) != raw {
        return Some("a raw word does not recombine to itself");
    }
    if TaggedPointer::new(p, d).as_raw_u64() != raw {
        return Some("a raw word taken apart and put together by new() changes");
    }
    None
}

/// Boxes made from raw pointers.
fn boxes(tag: &str) -> u64 {
    let mut n = 0;
    for p in &patterns(POINTER_WIDTH as u32, 3) {
        for d in [0, 1, D / 2, D - 1, D] {
            n += 1;
            if let Some(m) = c01_box(*p, d) {
                report::violation_in(tag, case(*p, d), m)
            }
        }
    }
    for d in 0..=D {
        n += 1;
        if let Some(m) = c01_box(0x1000, d) {
            report::violation_in(tag, case(0x1000, d), m)
        }
    }
    n
}

/// The same for another property: the boxes alone.
fn raw_boxes(c: &cli::Cli) {
    let tag = &c.prop;
    if let Some(o) = &c.only {
        let (p, d) = parse(o);
        if let Some(m) = c01_box(p, d) {
            report::violation_in(tag, o.clone(), m)
        }
        return;
    }
    report::count("addresses", boxes(tag));
}

fn c01(c: &cli::Cli) {
    if let Some(o) = &c.only {
        if let Some(r) = o.strip_prefix("raw=0x") {
            let r = u64::from_str_radix(r, 16).unwrap();
            if let Some(m) = c01_raw(r) {
                report::violation_in("C01", o.clone(), m)
            }
        } else {
            let (p, d) = parse(o);
            if let Some(m) = c01_one(p, d).or_else(|| c01_box(p, d)) {
                report::violation_in("C01", o.clone(), m)
            }
        }
        return;
    }
    let ps = patterns(POINTER_WIDTH as u32, 3);
    let dpat: Vec<u64> = patterns(DISCRIMINANT_BITS as u32, 3);
    let mut n = 0u64;
    let mut one = |p: u64, d: u64| {
        n += 1;
        if let Some(m) = c01_one(p, d) {
            report::violation_in("C01", case(p, d), m)
        }
    };
    // Every discriminant with every pointer pattern. Above 1024 discriminants the quick tier gives each
    // discriminant one residue class of the patterns (all classes for the discriminant patterns below).
    for d in 0..=D {
        let step = if c.thorough || D < 1024 { 1 } else { (D + 1) / 256 };
        for p in ps.iter().skip((d % step) as usize).step_by(step as usize) {
            one(*p, d)
        }
    }
    for d in &dpat {
        for p in &ps {
            one(*p, *d)
        }
    }
    // Every 16-bit window of the address, over both backgrounds, with the discriminant patterns.
    let win = 16;
    for off in 0..=(POINTER_WIDTH as u32 - win) {
        for w in 0..1u64 << win {
            let p = w << off;
            for d in dpat.iter().take(if c.thorough { 40 } else { 6 }) {
                one(p, *d);
                one(P ^ p, *d);
            }
            one(p, D);
            one(P ^ p, D);
        }
    }
    n += boxes("C01");
    for raw in patterns(64, 3) {
        n += 1;
        if let Some(m) = c01_raw(raw) {
            report::violation_in("C01", format!("raw={raw:#x}"), m)
        }
    }
    for hi in 0..1u64 << DISCRIMINANT_BITS {
        for lo in [0, 1, P, P / 3, P / 3 * 2] {
            let raw = hi << (64 - DISCRIMINANT_BITS) | lo;
            n += 1;
            if let Some(m) = c01_raw(raw) {
                report::violation_in("C01", format!("raw={raw:#x}"), m)
            }
        }
    }
    // Well-aligned dangling pointers of every alignment.
    macro_rules! aligns { ($($a:literal)*) => { $( {
        #[repr(align($a))]
        struct A;
        for d in 0..=D {
            n += 1;
            at($a, d);
            let t = TaggedPointer::dangling::<A>(d as Discriminant);
            let b: ManuallyDrop<TaggedBox<T>> = ManuallyDrop::new(TaggedBox::dangling::<A>(d as Discriminant));
            if t.discriminant() as u64 != d || b.discriminant() as u64 != d {
                report::violation_in("C01", format!("dangling align {}", $a), "a dangling pointer has another discriminant than given")
            }
            if t.as_u64() == 0 || t.as_u64() % $a != 0 || b.as_ptr::<A>() as u64 % $a != 0 || b.as_ptr::<A>().is_null() {
                report::violation_in("C01", format!("dangling align {}", $a), "a dangling pointer is null or not aligned")
            }
        }
    } )* } }
    aligns!(1 2 4 8 16 32 64 128 4096 65536 1048576);
    report::count("evaluations", n);
    report::count("distinct_nontrivial", n);
    report::sample(format!("p={:#x} d={:#x}: raw {:#x}", ps[ps.len() / 2], D, TaggedPointer::new(ps[ps.len() / 2], MAX_DISCRIMINANT).as_raw_u64()));
    report::sample(format!("{} pointer patterns, {} discriminants", ps.len(), D + 1));
}

fn parse(o: &str) -> (u64, u64) {
    let (p, d) = o.split_once(',').unwrap();
    let h = |s: &str| u64::from_str_radix(s.split_once("=0x").unwrap().1, 16).unwrap();
    (h(p), h(d))
}

// ---------------------------------------------------------------- C02

fn c02(c: &cli::Cli) {
    let mut n = 0u64;
    let all = patterns(POINTER_WIDTH as u32, 2);
    let lows: Vec<u64> = if c.thorough { all.clone() } else { all.iter().copied().step_by(29).chain([P]).collect() };
    // Every discriminant the type can express but the split cannot.
    let top = Discriminant::MAX as u64;
    if top > D {
        for d in D + 1..=top {
            let dd = d as Discriminant;
            let near = d <= D + 3 || d >= top - 3 || d.is_power_of_two();
            let ps: &[u64] = if c.thorough || near { &lows } else { &[0, 0x1000, P] };
            for &p in ps {
                n += 1;
                must_panic("C02", || case(p, d), "TaggedPointer::new() accepts a discriminant above the maximum", || TaggedPointer::new(p, dd));
                if p != 0 {
                    macro_rules! raw { ($($u:ty),*) => { $(
                        n += 1;
                        must_panic("C02", || format!("{} as {}", case(p, d), stringify!($u)), "TaggedBox::from_raw() accepts a discriminant above the maximum", || {
                            let b: TaggedBox<T> = unsafe { TaggedBox::from_raw(p as *mut $u, dd) };
                            b
                        });
                    )* } }
                    raw!(u8, ());
                    if near {
                        raw!(u64, String, [u8; 300], [u64; 0], Al, Al0);
                    }
                }
            }
            macro_rules! boxed { ($($name:literal $v:expr),*) => { $(
                n += 1;
                must_panic("C02", || format!("{} d={d:#x}", $name), concat!("TaggedBox::new() accepts a discriminant above the maximum for a value of type ", $name), || {
                    let b: TaggedBox<T> = TaggedBox::new($v, dd);
                    b
                });
            )* } }
            boxed!("unit" (), "u8" 7u8, "u64" 7u64, "String" String::from("x"), "[u8; 300]" [1u8; 300], "align64" Al(1), "zst64" Al0);
            macro_rules! dangling { ($($u:ty),*) => { $(
                n += 2;
                must_panic("C02", || format!("d={d:#x} as {}", stringify!($u)), "TaggedPointer::dangling() accepts a discriminant above the maximum", || TaggedPointer::dangling::<$u>(dd));
                must_panic("C02", || format!("d={d:#x} as {}", stringify!($u)), "TaggedBox::dangling() accepts a discriminant above the maximum", || {
                    let b: TaggedBox<T> = TaggedBox::dangling::<$u>(dd);
                    b
                });
            )* } }
            dangling!(u64, ());
            if near {
                dangling!(u8, String, [u8; 300], [u64; 0], Al, Al0, T);
            }
        }
    } else {
        report::sample("every value of the discriminant type is valid at this width");
    }
    // Every combination of the reserved bits over boundary low parts.
    let few = [0u64, 1, P, 0x5555_5555_5555_5555 & P];
    for hi in 1..1u64 << DISCRIMINANT_BITS {
        let near = hi < 4 || hi.is_power_of_two() || (hi + 1).is_power_of_two();
        let ls: &[u64] = if near && DISCRIMINANT_BITS < 13 { &lows } else { &few };
        for &lo in ls {
            let p = hi << POINTER_WIDTH | lo;
            for d in [0, D] {
                n += 1;
                must_panic("C02", || case(p, d), "TaggedPointer::new() accepts an address above the maximum", || TaggedPointer::new(p, d as Discriminant));
            }
            n += 1;
            must_panic("C02", || case(p, 0), "TaggedBox::from_raw() accepts an address above the maximum", || {
                let b: TaggedBox<T> = unsafe { TaggedBox::from_raw(p as *mut u64, 0) };
                b
            });
            n += 1;
            must_panic("C02", || format!("{} as ()", case(p, 0)), "TaggedBox::from_raw() accepts an address above the maximum", || {
                let b: TaggedBox<T> = unsafe { TaggedBox::from_raw(p as *mut (), 0) };
                b
            });
        }
    }
    // The largest valid ones on either side must not be refused.
    for (p, d) in [(P, D), (P, 0), (0, D), (1, D)] {
        n += 1;
        if std::panic::catch_unwind(|| TaggedPointer::new(p, d as Discriminant)).is_err() {
            report::violation_in("C02", case(p, d), "a pointer and discriminant within the limits are refused");
        }
    }
    report::count("evaluations", n);
    report::count("distinct_nontrivial", n);
    report::sample(format!("discriminants {}..={} refused; address bits {}.. refused in all {} combinations", D + 1, top, POINTER_WIDTH, (1u64 << DISCRIMINANT_BITS) - 1));
}
#[repr(align(64))]
struct Al(#[allow(dead_code)] u8);
#[repr(align(64))]
struct Al0;

// ---------------------------------------------------------------- C03

#[derive(Default, PartialEq, Eq, Clone)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}

fn c03(c: &cli::Cli) {
    let ps: Vec<u64> = patterns(POINTER_WIDTH as u32, 1).into_iter().step_by(if c.thorough { 5 } else { 17 }).chain([P, P - 1, 1]).collect();
    let mut ds: Vec<u64> = patterns(DISCRIMINANT_BITS as u32, 2).into_iter().collect();
    if ds.len() > 40 {
        let k = ds.len() / if c.thorough { 70 } else { 30 };
        ds = ds.into_iter().step_by(k.max(1)).chain([D]).collect();
    }
    let mut all: Vec<(u64, u64)> = Vec::new();
    for &d in &ds {
        for &p in &ps {
            all.push((d, p));
        }
    }
    all.sort_unstable();
    all.dedup();
    let objs: Vec<TaggedPointer> = all.iter().map(|&(d, p)| {
        at(p, d);
        TaggedPointer::new(p, d as Discriminant)
    }).collect();
    let again: Vec<TaggedPointer> = all.iter().map(|&(d, p)| TaggedPointer::new(p, d as Discriminant)).collect();
    let hash = |t: &TaggedPointer| {
        let (mut a, mut b) = (DefaultHasher::new(), Rec::default());
        t.hash(&mut a);
        t.hash(&mut b);
        (a.finish(), b.0)
    };
    let mut n = 0u64;
    for (i, a) in objs.iter().enumerate() {
        if hash(a) != hash(&again[i]) {
            report::violation_in("C03", case(all[i].1, all[i].0), "equal tagged pointers hash differently");
        }
        for (j, b) in again.iter().enumerate() {
            n += 1;
            at(all[j].1, all[j].0);
            let want = all[i].cmp(&all[j]);
            let msg = if (a == b) != (want.is_eq()) || (a != b) != want.is_ne() {
                "== or != disagrees with equality of address and discriminant"
            } else if a.cmp(b) != want {
                "cmp() does not sort by discriminant first and address second"
            } else if a.partial_cmp(b) != Some(want) {
                "partial_cmp() disagrees with the order by discriminant and address"
            } else if (a < b) != want.is_lt() || (a <= b) != want.is_le() || (a > b) != want.is_gt() || (a >= b) != want.is_ge() {
                "an order operator disagrees with the order by discriminant and address"
            } else if (*a).max(*b) != if want.is_gt() { *a } else { *b } || (*a).min(*b) != if want.is_gt() { *b } else { *a } {
                "min() or max() disagrees with the order by discriminant and address"
            } else {
                continue;
            };
            report::violation_in("C03", format!("{} vs {}", case(all[i].1, all[i].0), case(all[j].1, all[j].0)), msg);
        }
    }
    // Words that differ in one, two or three bits, from several words.
    let word = |r: u64| TaggedPointer::new(r & P, (r >> POINTER_WIDTH) as Discriminant);
    let bits: Vec<u64> = (0..64).map(|b| 1 << b).collect();
    let mut flips: Vec<u64> = bits.clone();
    for (i, x) in bits.iter().enumerate() {
        for (j, y) in bits[..i].iter().enumerate() {
            flips.push(x | y);
            flips.extend(bits[..j].iter().filter(|_| c.thorough).map(|z| x | y | z));
        }
    }
    for base in [0u64, !0, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA, 0x0000_7FFF_F7A1_3008, 0xFFFF_8000_0000_0010, 0x8000_0000_0000_0001] {
        for flip in &flips {
            n += 1;
            let (x, y) = (base, base ^ flip);
            let (a, b) = (word(x), word(y));
            at(y & P, y >> POINTER_WIDTH);
            let w = x.cmp(&y);
            if a == b || !(a != b) || a.cmp(&b) != w || a.partial_cmp(&b) != Some(w) || (a < b) != w.is_lt() || (a <= b) != w.is_le() || (a > b) != w.is_gt() || (a >= b) != w.is_ge() {
                report::violation_in("C03", format!("{} vs {}", case(x & P, x >> POINTER_WIDTH), case(y & P, y >> POINTER_WIDTH)), "two tagged pointers that differ in a few bits do not compare by discriminant and address");
            }
        }
        // The hash of several at once, and staying within bounds.
        let some: Vec<u64> = flips[..64].iter().map(|f| base ^ f).chain([base]).collect();
        let hash = |v: &[TaggedPointer]| {
            let (mut a, mut b) = (DefaultHasher::new(), Rec::default());
            v.hash(&mut a);
            v.hash(&mut b);
            (a.finish(), b.0)
        };
        let (u, v): (Vec<_>, Vec<_>) = (some.iter().map(|r| word(*r)).collect(), some.iter().map(|r| word(*r)).collect());
        if u != v || hash(&u) != hash(&v) {
            report::violation_in("C03", case(base & P, base >> POINTER_WIDTH), "equal slices of tagged pointers differ or hash differently");
        }
        for x in some.iter().step_by(3) {
            for lo in some.iter().step_by(5) {
                for hi in some.iter().step_by(2).filter(|hi| *hi >= lo) {
                    n += 1;
                    if word(*x).clamp(word(*lo), word(*hi)) != word(*x.clamp(lo, hi)) {
                        report::violation_in("C03", case(x & P, x >> POINTER_WIDTH), "clamp() disagrees with the order by discriminant and address");
                    }
                }
            }
        }
    }
    report::count("evaluations", n);
    report::count("distinct_nontrivial", n - all.len() as u64);
    report::sample(format!("{} objects, every ordered pair; first {:?}, last {:?} as (discriminant, address)", all.len(), all[0], all[all.len() - 1]));
}

// ---------------------------------------------------------------- C04

fn c04(c: &cli::Cli) {
    let ps: Vec<u64> = patterns(POINTER_WIDTH as u32, 1).into_iter().step_by(if c.thorough { 7 } else { 61 }).chain([0, 1, 0xABCDEF, P]).collect();
    let ds: Vec<u64> = if D < 8 { (0..=D).collect() } else { vec![0, 1, 10, D / 2, D - 1, D] };
    let widths = [0usize, 1, 5, 17, 18, 19, 25, 80];
    let precs = [0usize, 3, 30];
    let mut n = 0u64;
    let (mut got, mut want) = (String::new(), String::new());
    for &p in &ps {
        for &d in &ds {
            at(p, d);
            let t = TaggedPointer::new(p, d as Discriminant);
            let b: ManuallyDrop<TaggedBox<T>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(p as *mut u8, d as Discriminant) });
            for i in 0..ft::N {
                let ws: &[usize] = if ft::SPECS[i].contains("w$") { if p == P && d == D { &[129, 257, 1000] } else if c.thorough { &widths } else { &widths[2..6] } } else { &[0] };
                let qs: &[usize] = if ft::SPECS[i].contains(".p$") { &precs } else { &[0] };
                for &w in ws {
                    for &q in qs {
                        macro_rules! agree { ($($what:literal: $f:ident $a:expr, $o:expr);*) => { $(
                            n += 1;
                            got.clear();
                            want.clear();
                            let r = ft::$f(i, &mut got, $a, w, q);
                            let s = ft::$f(i, &mut want, $o, w, q);
                            if r != s || got != want {
                                report::violation_in("C04", format!("{} spec {:?} w={w} p={q} {}", $what, ft::SPECS[i], case(p, d)), concat!($what, " does not give the text of the address"));
                            }
                        )* } }
                        agree!("{:x} of a pointer": lower_hex &t, &p; "{:X} of a pointer": upper_hex &t, &p; "{:o} of a pointer": octal &t, &p;
                               "{:b} of a pointer": binary &t, &p; "{:p} of a pointer": pointer &t, &(p as *const ());
                               "{:x} of a box": lower_hex &*b, &p; "{:X} of a box": upper_hex &*b, &p; "{:o} of a box": octal &*b, &p;
                               "{:b} of a box": binary &*b, &p);
                    }
                }
            }
            // Debug names the raw word, the address and the discriminant.
            n += 2;
            for text in [format!("{t:?}"), format!("{t:#?}")] {
                let field = |name: &str| -> Option<u64> {
                    let at = text.find(&format!("{name}: "))? + name.len() + 2;
                    let word: String = text[at..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                    match word.strip_prefix("0x") {
                        Some(h) => u64::from_str_radix(h, 16).ok(),
                        None => word.parse().ok(),
                    }
                };
                if field("raw") != Some(t.as_raw_u64()) || field("ptr") != Some(p) || field("discriminant") != Some(d) {
                    report::violation_in("C04", format!("Debug {} gives {text}", case(p, d)), "the debug text of a pointer does not show raw word, address and discriminant");
                }
            }
        }
    }
    // An output that fails after k bytes: reported exactly when the text does not fit.
    struct Sink(usize, String);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.1.len() + s.len() > self.0 {
                return Err(std::fmt::Error);
            }
            self.1.push_str(s);
            Ok(())
        }
    }
    let t = TaggedPointer::new(0xBEEF, MAX_DISCRIMINANT);
    for k in 0..90 {
        use std::fmt::Write;
        macro_rules! sinks { ($($f:literal),*) => { $(
            n += 1;
            let (mut a, mut b) = (Sink(k, String::new()), Sink(k, String::new()));
            let r = write!(a, $f, t);
            let o = write!(b, $f, 0xBEEFu64 as *const ());
            if r != o || a.1 != b.1 {
                report::violation_in("C04", format!("sink of {k} bytes, {}", $f), "a failing output is not reported as for the address itself");
            }
        )* } }
        sinks!("{:p}", "{:30p}", "{:#p}", "{:#030p}");
    }
    report::count("evaluations", n);
    report::count("distinct_nontrivial", n);
    report::sample(format!("{} specs x {} addresses x {} discriminants, e.g. {:?}", ft::N, ps.len(), ds.len(), format!("{:*^+#30.3x}", TaggedPointer::new(0xABC & P, MAX_DISCRIMINANT))));
}

fn main() {
    let c = cli::parse();
    if c.wants("C01") {
        guarded("C01", &c, c01)
    }
    for tag in ["C07", "C25"] {
        if c.prop == tag {
            guarded(tag, &c, raw_boxes)
        }
    }
    if c.wants("C02") {
        c02(&c)
    }
    if c.wants("C03") {
        guarded("C03", &c, c03)
    }
    if c.wants("C04") {
        guarded("C04", &c, c04)
    }
    c.done()
}
