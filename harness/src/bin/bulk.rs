//! What a payload consists of must not matter: payloads of many sizes and alignments, in every kind of variant, with
//! every byte marked in turn and under several fills, through every pair of operations. C07, C09, C11-C14, C19.
use mc::{alloc, cli, report};
use std::cmp::Ordering;
use std::fmt::{Debug, Write};
use std::mem::{size_of, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::{tagged_box, TaggableContainer, TaggableInner, TaggedBox};

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

/// One enum around a payload of one type.
trait Bulk {
    type E: TaggableInner + Clone + Ord + Debug;
    type C: TaggableContainer<Inner = Self::E> + From<Self::E> + Clone + Ord + Debug;
    const NAME: &'static str;
    const SIZE: usize;
    fn make(kind: usize, b: &dyn Fn(usize) -> u8) -> Self::E;
    /// The variant, its payload's bytes, and what else it holds.
    fn view(e: &Self::E) -> (usize, &[u8], u64);
    /// A container by the conversion from the payload, where there is one.
    fn convert(kind: usize, b: &dyn Fn(usize) -> u8) -> Option<Self::C>;
}
const KINDS: usize = 6;

fn filled<T: Copy>(b: &dyn Fn(usize) -> u8) -> T {
    let mut v = MaybeUninit::<T>::zeroed();
    for i in 0..size_of::<T>() {
        unsafe { (v.as_mut_ptr() as *mut u8).add(i).write(b(i)) }
    }
    unsafe { v.assume_init() }
}
fn bytes<T: Copy>(v: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v as *const T as *const u8, size_of::<T>()) }
}

macro_rules! bulk { ($($m:ident $w:ty, $n:expr;)*) => {
    $( mod $m {
        use super::*;
        type P = [$w; $n];
        tagged_box! {
            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
            pub struct C, pub enum E {
                One(P),
                Head(u8, P),
                Tail(P, u16, u8),
                Rec { p: P, },
                Mid { a: u8, p: P, b: u32 },
                Nothing,
            }
        }
        pub struct B;
        impl Bulk for B {
            type E = E;
            type C = C;
            const NAME: &'static str = concat!(stringify!($w), "x", stringify!($n));
            const SIZE: usize = size_of::<P>();
            fn make(kind: usize, b: &dyn Fn(usize) -> u8) -> E {
                let p: P = filled(b);
                match kind {
                    0 => E::One(p),
                    1 => E::Head(0x9C, p),
                    2 => E::Tail(p, 0xBEAD, 0xF1),
                    3 => E::Rec { p },
                    4 => E::Mid { a: 0xE2, p, b: 0xFEED_CAFE },
                    _ => E::Nothing,
                }
            }
            fn view(e: &E) -> (usize, &[u8], u64) {
                match e {
                    E::One(p) => (0, bytes(p), 0),
                    E::Head(a, p) => (1, bytes(p), *a as u64),
                    E::Tail(p, a, b) => (2, bytes(p), *a as u64 * 256 + *b as u64),
                    E::Rec { p } => (3, bytes(p), 0),
                    E::Mid { a, p, b } => (4, bytes(p), *b as u64 * 256 + *a as u64),
                    E::Nothing => (5, &[], 0),
                }
            }
            fn convert(kind: usize, b: &dyn Fn(usize) -> u8) -> Option<C> {
                let p: P = filled(b);
                match kind {
                    0 => Some(C::from(p)),
                    1 => Some(C::from((0x9Cu8, p))),
                    2 => Some(C::from((p, 0xBEADu16, 0xF1u8))),
                    _ => None,
                }
            }
        }
    } )*
    /// Runs `f` for every one of them.
    fn each(c: &cli::Cli, mut n: usize) {
        $( run::<$m::B>(c, &mut n); )*
    }
} }
bulk! {
    b0 u8, 0; b1 u8, 1; b2 u8, 2; b3 u8, 3; b4 u8, 4; b5 u8, 5; b6 u8, 6; b7 u8, 7; b8 u8, 8; b9 u8, 9; b11 u8, 11; b12 u8, 12; b13 u8, 13;
    b15 u8, 15; b16 u8, 16; b17 u8, 17; b23 u8, 23; b24 u8, 24; b25 u8, 25; b31 u8, 31; b32 u8, 32; b33 u8, 33; b47 u8, 47; b48 u8, 48;
    b63 u8, 63; b64 u8, 64; b65 u8, 65; b100 u8, 100; b127 u8, 127; b128 u8, 128; b129 u8, 129; b255 u8, 255; b256 u8, 256; b257 u8, 257;
    b300 u8, 300; b511 u8, 511; b512 u8, 512; b513 u8, 513; b1000 u8, 1000; b1024 u8, 1024; b1025 u8, 1025; b4096 u8, 4096; b4097 u8, 4097;
    b20000 u8, 20000; b65536 u8, 65536; b65537 u8, 65537;
    h1 u16, 1; h3 u16, 3; h129 u16, 129; w1 u32, 1; w3 u32, 3; w65 u32, 65; d1 u64, 1; d2 u64, 2; d3 u64, 3; d9 u64, 9; d33 u64, 33; d129 u64, 129;
    d513 u64, 513; q1 u128, 1; q2 u128, 2; q17 u128, 17; c1 char, 0;
}

/// Bytes of the value at hand: a fill with one byte marked.
#[derive(Clone, Copy)]
struct Content {
    fill: u8,
    mark: Option<(usize, u8)>,
}
impl Content {
    fn at(self, i: usize) -> u8 {
        match self.mark {
            Some((m, b)) if m == i => b,
            _ if self.fill == 0xC5 => (i * 37 + i / 256 * 11 + 0x81) as u8,
            _ => self.fill,
        }
    }
}

const OPS: [(&str, &str); 7] =
    [("borrow", "C19"), ("nested borrow", "C19"), ("clone", "C11"), ("compare with itself", "C12"), ("compare with another", "C12"), ("format", "C13"), ("read the pointer", "C07")];

struct Sink(u64, usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01B3);
        }
        self.1 += s.len();
        Ok(())
    }
}
fn text(d: &dyn Debug) -> (u64, usize) {
    let mut s = Sink(0xCBF2_9CE4_8422_2325, 0);
    let _ = write!(s, "{:?}", d);
    (s.0, s.1)
}

fn run<B: Bulk>(c: &cli::Cli, n: &mut usize) {
    *n += 1;
    if c.only.is_none() && !c.mine(*n) {
        return;
    }
    let fills = [0x00u8, 0xFF, 0x80, 0x7F, 0x55, 0xC5];
    for kind in 0..KINDS {
        // Every pair of operations under every fill.
        for fill in fills {
            for a in 0..OPS.len() {
                for b in 0..OPS.len() {
                    if B::SIZE > 5000 && a != b {
                        continue;
                    }
                    case::<B>(c, kind, Content { fill, mark: None }, &[a, b]);
                }
            }
        }
        // Every byte marked in turn.
        let step = if B::SIZE <= 600 || c.thorough && B::SIZE < 5000 { 1 } else { B::SIZE / 100 };
        let marks = (0..B::SIZE).filter(|i| i % step == 0 || *i > B::SIZE - 20);
        for m in marks {
            for (fill, mark) in [(0, 0x80), (0xFF, 0x7E)] {
                case::<B>(c, kind, Content { fill, mark: Some((m, mark)) }, &[0, 2, 4]);
            }
        }
    }
}

fn case<B: Bulk>(c: &cli::Cli, kind: usize, k: Content, ops: &[usize]) {
    let name = || {
        let mark = k.mark.map_or(String::new(), |(i, b)| format!(" byte {i}={b:#x}"));
        format!("{} variant {kind} fill {:#x}{mark} ops {ops:?}", B::NAME, k.fill)
    };
    if let Some(o) = &c.only {
        if *o != name() {
            return;
        }
    }
    report::begin_case(&name());
    report::count("contents", 1);
    alloc::begin();
    let said = |tags: &[&str], m: String| {
        if tags.iter().any(|t| c.wants(t)) {
            report::violation(if c.prop == "ALL" { tags[0] } else { &c.prop }, m)
        }
    };
    if let Err(m) = catch_unwind(AssertUnwindSafe(|| go::<B>(kind, k, ops))).unwrap_or_else(|_| {
        alloc::untracked(|| Err((vec!["C07", "C14"], format!("panics: {}", report::last_panic()))))
    }) {
        said(&m.0, m.1)
    }
    for m in alloc::check() {
        said(&["C09"], m)
    }
}

type Bad = (Vec<&'static str>, String);

fn go<B: Bulk>(kind: usize, k: Content, ops: &[usize]) -> Result<(), Bad> {
    let lib = |f: &mut dyn FnMut()| alloc::lib(f);
    let model = B::make(kind, &|i| k.at(i));
    // The same but for its last byte, so that it compares greater or less, or, in a unit variant, equal.
    let other = B::make(kind, &|i| if i + 1 == B::SIZE { k.at(i) ^ 1 } else { k.at(i) });
    let same = |e: &B::E| {
        let (x, y) = (B::view(e), B::view(&model));
        x.0 == y.0 && x.2 == y.2 && x.1 == y.1
    };
    let seen = |b: &TaggedBox<B::E>| {
        let mut ok = 0;
        unsafe { B::E::ref_from_tagged_box(b, |e| ok += 1 + 10 * same(e) as u32) };
        ok == 11
    };
    let boxed = |v: B::E| alloc::lib(|| v.into_tagged_box());
    let (b, o) = (boxed(B::make(kind, &|i| k.at(i))), boxed(B::make(kind, &|i| if i + 1 == B::SIZE { k.at(i) ^ 1 } else { k.at(i) })));
    let bad = |t: &[&'static str], m: &str| Err((t.to_vec(), m.to_string()));
    if b.discriminant() as usize != kind {
        return bad(&["C07", "C14"], "the discriminant is not the variant's");
    }
    let mut fine = false;
    lib(&mut || fine = seen(&b));
    if !fine {
        return bad(&["C19", "C14", "C07"], "a value just stored is not what a borrow shows");
    }
    for op in ops {
        let (what, tag) = OPS[*op];
        let mut msg = None;
        match op {
            0 => lib(&mut || {
                if !seen(&b) || !seen(&b) {
                    msg = Some("a borrow does not show the value stored")
                }
            }),
            1 => lib(&mut || unsafe {
                let mut n = 0;
                B::E::ref_from_tagged_box(&b, |x| {
                    B::E::ref_from_tagged_box(&o, |y| {
                        B::E::ref_from_tagged_box(&b, |z| n += (same(x) && same(z) && *x == *z && (*x == *y) == (model == other)) as u32);
                        n += same(x) as u32
                    });
                    n += same(x) as u32
                });
                if n != 3 {
                    msg = Some("a nested borrow does not show the values stored")
                }
            }),
            2 => {
                let k2 = alloc::lib(|| b.clone());
                let mut ok = k2.discriminant() == b.discriminant();
                lib(&mut || ok &= seen(&k2));
                if B::SIZE > 0 && kind < 5 && k2.as_ptr::<u8>() == b.as_ptr::<u8>() {
                    ok = false
                }
                let e = alloc::lib(|| B::E::from_tagged_box(k2));
                if !ok || !same(&e) {
                    msg = Some("a clone is not the value cloned")
                }
            }
            3 => lib(&mut || {
                if !(b == b) || b != b || b.cmp(&b) != Ordering::Equal {
                    msg = Some("a box does not equal itself")
                }
            }),
            4 => lib(&mut || {
                if (b == o) != (model == other) || b.cmp(&o) != model.cmp(&other) || o.cmp(&b) != other.cmp(&model) || (b < o) != (model < other) {
                    msg = Some("two boxes compare otherwise than their values")
                }
            }),
            5 => {
                if B::SIZE < 5000 {
                    let (mut x, y) = ((0, 0), text(&model));
                    lib(&mut || x = text(&b));
                    if x != y {
                        msg = Some("a box's text is not its value's")
                    }
                }
            }
            _ => {
                if kind == 0 || kind == 3 {
                    let p = unsafe { std::slice::from_raw_parts(b.as_ptr::<u8>(), B::SIZE) };
                    if p != B::view(&model).1 {
                        msg = Some("the pointer does not lead to the bytes stored")
                    }
                }
            }
        }
        if let Some(m) = msg {
            return bad(&[tag], m);
        }
        let (mut x, mut y) = (false, false);
        lib(&mut || {
            x = seen(&b);
            unsafe { B::E::ref_from_tagged_box(&o, |e| y = *e == other) }
        });
        if !x || !y {
            return Err((vec![tag], format!("{what}: a stored value is no longer the same afterwards")));
        }
    }
    let (e, f) = alloc::lib(|| (B::E::from_tagged_box(b), B::E::from_tagged_box(o)));
    if !same(&e) || f != other {
        return bad(&["C07", "C14"], "the value taken out is not the one stored");
    }
    let cont: B::C = alloc::lib(|| B::C::from(e));
    let copy = alloc::lib(|| cont.clone());
    if alloc::lib(|| cont != copy || cont.cmp(&copy) != Ordering::Equal) {
        return bad(&["C11", "C12"], "a container and its clone differ");
    }
    let (x, y) = alloc::lib(|| (cont.into_inner(), copy.into_inner()));
    if !same(&x) {
        return bad(&["C07", "C14"], "the value a container gives back is not the one stored");
    }
    if !same(&y) {
        return bad(&["C11"], "the value a cloned container gives back is not the one cloned");
    }
    if let Some(p) = alloc::lib(|| B::convert(kind, &|i| k.at(i))) {
        let v = alloc::lib(|| p.into_inner());
        if !same(&v) {
            return bad(&["C14", "C07"], "a conversion from the payload changes it");
        }
    }
    Ok(())
}

fn main() {
    let c = cli::parse();
    if ["C07", "C09", "C11", "C12", "C13", "C14", "C19"].iter().any(|p| c.wants(p)) {
        each(&c, 0);
    }
    c.done()
}
