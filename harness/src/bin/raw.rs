//! C07-C10 (and the raw word of C22): histories of the typed, unsafe interface of `TaggedBox`.
//!
//! World: two slots, each empty or holding a plain value, a tagged box, a raw pointer or a standard box of
//! payload type `U`. Every history is executed on real objects and compared with the model after each step.
use mc::alloc::{self, lib, user, LIB};
use mc::explore::{self, World};
use mc::tok::*;
use mc::{cli, ledger, report};
use std::alloc::Layout;
use std::marker::PhantomData;
use std::mem::{size_of, ManuallyDrop};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::discriminant::{Discriminant, MAX_DISCRIMINANT, POINTER_WIDTH};
use tagged_box::TaggedBox;

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

enum T {}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum M {
    Empty,
    Val(u8),
    Boxed(u32, u8),
    Raw(u8),
    Std(u8),
}

/// The slots, and whether a request for memory has been refused.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model([M; 2], bool);

#[derive(Clone, Copy, Debug)]
enum Op {
    Make(usize, u8),
    New(usize, u32),
    NewUnchecked(usize, u32),
    NewRefused(usize, u32),
    RefuseNew(usize),
    RefuseUnchecked(usize),
    Read(usize),
    SetRef(usize),
    SetPtr(usize),
    IntoInner(usize),
    IntoBox(usize),
    IntoRaw(usize),
    DropTagged(usize),
    FromRaw(usize, u32),
    RawToBox(usize),
    SetRaw(usize),
    BoxToRaw(usize),
    Unbox(usize),
    DropBox(usize),
    SetVal(usize),
    DropVal(usize),
    Swap,
}
use Op::*;

enum R<U> {
    Empty,
    Val(U),
    Boxed(TaggedBox<T>),
    Raw(*mut U),
    Std(Box<U>),
}

/// With requests for memory refused or not.
struct Raw<U>(PhantomData<U>, bool);

struct Real<U> {
    s: [R<U>; 2],
    /// Blocks and values that stay behind through a listed finding.
    left_blocks: usize,
    left_values: i64,
}

fn ds() -> Vec<u32> {
    let mut v = vec![0, MAX_DISCRIMINANT as u32 / 2, MAX_DISCRIMINANT as u32];
    v.dedup();
    v
}
fn other<U: Payload>(v: u8) -> u8 {
    if U::VALUED {
        1 - v
    } else {
        v
    }
}

const TAGS: [&str; 2] = ["IntoInner", "DropTagged"];

impl<U: Payload> Raw<U> {
    fn value(&self, got: Result<u8, String>, want: u8, how: &str) {
        match got {
            Ok(g) if !U::VALUED || g == want => (),
            Ok(_) => report::violation("C07", format!("{how} shows another value than the last one stored")),
            Err(e) => report::violation("C07", format!("{how}: {e}")),
        }
    }
    fn word(&self, b: &TaggedBox<T>, d: u32) {
        let word: u64 = unsafe { std::mem::transmute_copy(b) };
        let addr = b.as_ptr::<U>() as u64;
        if word != (d as u64) << POINTER_WIDTH | addr {
            report::violation("C22", "the word held is not the address combined with the discriminant");
        }
        if addr == 0 || addr % std::mem::align_of::<U>() as u64 != 0 {
            report::violation("C07", "the address of a box is null or not aligned for its type");
        }
        if size_of::<U>() > 0 {
            let l = Layout::new::<U>();
            match alloc::block_at(addr as usize) {
                Some(k) if k.size == l.size() && k.align == l.align() => (),
                Some(_) => report::violation("C09", "the block of a box does not have the layout of its value"),
                None => report::violation("C09", "the address of a box is not a live block"),
            }
        }
    }
    fn observe(&self, r: &mut R<U>, m: M) {
        match (r, m) {
            (R::Empty, M::Empty) => (),
            (R::Val(u), M::Val(v)) => self.value(u.get(), v, "a value taken out"),
            (R::Boxed(b), M::Boxed(d, v)) => {
                self.word(b, d);
                if b.discriminant() as u32 != d {
                    report::violation("C07", "discriminant() is not the one given");
                }
                unsafe {
                    self.value(lib(|| b.as_ref::<U>()).get(), v, "as_ref()");
                    self.value((*lib(|| b.as_ptr::<U>())).get(), v, "as_ptr()");
                    self.value(lib(|| b.as_mut_ref::<U>()).get(), v, "as_mut_ref()");
                    self.value((*lib(|| b.as_mut_ptr::<U>())).get(), v, "as_mut_ptr()");
                }
                if b.discriminant() as u32 != d {
                    report::violation("C07", "reading a box changes its discriminant");
                }
                self.word(b, d);
            }
            (R::Raw(p), M::Raw(v)) => self.value(unsafe { (**p).get() }, v, "a raw pointer"),
            (R::Std(b), M::Std(v)) => self.value(b.get(), v, "a standard box"),
            _ => panic!("HARNESS: model and reality out of step"),
        }
    }
}

impl<U: Payload> World for Raw<U> {
    type Model = Model;
    type Op = Op;
    type Real = Real<U>;
    fn name(&self) -> String {
        format!("{}{}", U::NAME, if self.1 { "/r" } else { "" })
    }
    fn init(&self) -> Model {
        Model([M::Empty, M::Empty], false)
    }
    fn enabled(&self, m: &Model, out: &mut Vec<Op>) {
        for i in 0..2 {
            match m.0[i] {
                M::Empty => {
                    out.push(Make(i, 0));
                    if U::VALUED {
                        out.push(Make(i, 1));
                    }
                }
                M::Val(_) => {
                    for d in ds() {
                        out.push(New(i, d));
                        out.push(NewUnchecked(i, d));
                    }
                    if (MAX_DISCRIMINANT as u32) < Discriminant::MAX as u32 {
                        out.push(NewRefused(i, MAX_DISCRIMINANT as u32 + 1));
                        out.push(NewRefused(i, Discriminant::MAX as u32));
                    }
                    if U::VALUED {
                        out.push(SetVal(i));
                    }
                    out.push(DropVal(i));
                    if self.1 && !m.1 && size_of::<U>() > 0 {
                        out.extend([RefuseNew(i), RefuseUnchecked(i)]);
                    }
                }
                M::Boxed(..) => {
                    out.push(Read(i));
                    if U::VALUED {
                        out.push(SetRef(i));
                        out.push(SetPtr(i));
                    }
                    out.extend([IntoInner(i), IntoBox(i), IntoRaw(i), DropTagged(i)]);
                }
                M::Raw(_) => {
                    for d in ds() {
                        out.push(FromRaw(i, d));
                    }
                    out.push(RawToBox(i));
                    if U::VALUED {
                        out.push(SetRaw(i));
                    }
                }
                M::Std(_) => out.extend([BoxToRaw(i), Unbox(i), DropBox(i)]),
            }
        }
        if m.0 != [M::Empty, M::Empty] {
            out.push(Swap);
        }
    }
    fn start(&self) -> Real<U> {
        Real { s: [R::Empty, R::Empty], left_blocks: 0, left_values: 0 }
    }
    fn class(&self, op: Op) -> Option<&'static str> {
        matches!(op, RefuseNew(_) | RefuseUnchecked(_)).then_some("C18")
    }
    fn fork_class(&self) -> &'static str {
        "C18"
    }
    fn forked(&self, m: &Model, op: Op) -> Option<Model> {
        match op {
            RefuseNew(i) | RefuseUnchecked(i) => {
                let mut m = m.clone();
                m.0[i] = M::Empty;
                m.1 = true;
                Some(m)
            }
            _ => None,
        }
    }
    fn apply(&self, r: &mut Real<U>, m: &mut Model, op: Op) {
        let take = |s: &mut R<U>| std::mem::replace(s, R::Empty);
        let (allocs, blocks, live) = (alloc::lib_allocs(), alloc::live_since(0, LIB).len() as i64, ledger::live());
        let destroyed = ledger::destroyed_count();
        let sized = (size_of::<U>() > 0) as i64;
        let counted = U::COUNTED as i64;
        // What the operation must do to the number of blocks, live values and destructions.
        let (mut db, mut dv, mut dd) = (0i64, 0i64, 0i64);
        let mut boxing = false;
        match op {
            Make(i, v) => {
                r.s[i] = R::Val(user(|| U::make(v)));
                m.0[i] = M::Val(v);
                dv = counted;
            }
            New(i, d) | NewUnchecked(i, d) => {
                let (R::Val(u), M::Val(v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                let checked = matches!(op, New(..));
                let b = lib(|| match checked {
                    true => TaggedBox::new(u, d as Discriminant),
                    false => unsafe { TaggedBox::new_unchecked(u, d as Discriminant) },
                });
                r.s[i] = R::Boxed(b);
                m.0[i] = M::Boxed(d, v);
                db = sized;
                boxing = true;
            }
            NewRefused(i, d) => {
                let R::Val(u) = take(&mut r.s[i]) else { unreachable!() };
                let e = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| {
                        let b: TaggedBox<T> = TaggedBox::new(u, d as Discriminant);
                        ManuallyDrop::new(b)
                    })
                }));
                if e.is_ok() {
                    report::violation("C02", "TaggedBox::new() accepts a discriminant above the maximum");
                }
                m.0[i] = M::Empty;
                dv = -counted;
                dd = counted;
            }
            RefuseNew(i) | RefuseUnchecked(i) => {
                let R::Val(u) = take(&mut r.s[i]) else { unreachable!() };
                alloc::fail_at(1);
                let checked = matches!(op, RefuseNew(_));
                let e = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| {
                        let b: TaggedBox<T> = match checked {
                            true => TaggedBox::new(u, 0),
                            false => unsafe { TaggedBox::new_unchecked(u, 0) },
                        };
                        ManuallyDrop::new(b)
                    })
                }));
                report::count("refused_requests", alloc::failed() as u64);
                if e.is_ok() {
                    report::violation("C18", format!("{} yields a box although its memory was refused", opname(op)));
                    return;
                }
                drop(e);
                m.0[i] = M::Empty;
                m.1 = true;
                dv = -counted;
                dd = counted;
            }
            Read(_) => (),
            SetRef(i) | SetPtr(i) => {
                let (R::Boxed(b), M::Boxed(d, v)) = (&mut r.s[i], m.0[i]) else { unreachable!() };
                let w = other::<U>(v);
                unsafe {
                    match op {
                        SetRef(_) => lib(|| b.as_mut_ref::<U>()).set(w),
                        _ => (*lib(|| b.as_mut_ptr::<U>())).set(w),
                    }
                }
                m.0[i] = M::Boxed(d, w);
            }
            IntoInner(i) => {
                let (R::Boxed(b), M::Boxed(_, v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                let u: U = lib(|| unsafe { TaggedBox::into_inner(b) });
                r.s[i] = R::Val(u);
                m.0[i] = M::Val(v);
                db = -sized;
            }
            IntoBox(i) => {
                let (R::Boxed(b), M::Boxed(_, v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                r.s[i] = R::Std(lib(|| unsafe { TaggedBox::into_box(b) }));
                m.0[i] = M::Std(v);
            }
            IntoRaw(i) => {
                let (R::Boxed(b), M::Boxed(_, v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                let before = b.as_ptr::<U>();
                let p: *mut U = lib(|| TaggedBox::into_raw(b));
                if p as *const U != before {
                    report::violation("C07", "into_raw() hands out another address than as_ptr()");
                }
                r.s[i] = R::Raw(p);
                m.0[i] = M::Raw(v);
            }
            DropTagged(i) => {
                let R::Boxed(b) = take(&mut r.s[i]) else { unreachable!() };
                lib(|| drop(b));
                m.0[i] = M::Empty;
                db = -sized;
                dv = -counted;
                dd = counted;
            }
            FromRaw(i, d) => {
                let (R::Raw(p), M::Raw(v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                let b: TaggedBox<T> = lib(|| unsafe { TaggedBox::from_raw(p, d as Discriminant) });
                if b.as_ptr::<U>() != p as *const U {
                    report::violation("C07", "from_raw() points elsewhere than the pointer given");
                }
                r.s[i] = R::Boxed(b);
                m.0[i] = M::Boxed(d, v);
            }
            RawToBox(i) => {
                let (R::Raw(p), M::Raw(v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                r.s[i] = R::Std(unsafe { Box::from_raw(p) });
                m.0[i] = M::Std(v);
            }
            SetRaw(i) => {
                let (R::Raw(p), M::Raw(v)) = (&r.s[i], m.0[i]) else { unreachable!() };
                unsafe { (**p).set(other::<U>(v)) }
                m.0[i] = M::Raw(other::<U>(v));
            }
            BoxToRaw(i) => {
                let (R::Std(b), M::Std(v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                r.s[i] = R::Raw(Box::into_raw(b));
                m.0[i] = M::Raw(v);
            }
            Unbox(i) => {
                let (R::Std(b), M::Std(v)) = (take(&mut r.s[i]), m.0[i]) else { unreachable!() };
                r.s[i] = R::Val(user(|| *b));
                m.0[i] = M::Val(v);
                db = -sized;
            }
            DropBox(i) => {
                let R::Std(b) = take(&mut r.s[i]) else { unreachable!() };
                user(|| drop(b));
                m.0[i] = M::Empty;
                db = -sized;
                dv = -counted;
                dd = counted;
            }
            SetVal(i) => {
                let (R::Val(u), M::Val(v)) = (&mut r.s[i], m.0[i]) else { unreachable!() };
                u.set(other::<U>(v));
                m.0[i] = M::Val(other::<U>(v));
            }
            DropVal(i) => {
                let R::Val(u) = take(&mut r.s[i]) else { unreachable!() };
                user(|| drop(u));
                m.0[i] = M::Empty;
                dv = -counted;
                dd = counted;
            }
            Swap => {
                r.s.swap(0, 1);
                m.0.swap(0, 1);
            }
        }
        // Moving and setting an `Own` rebuilds its inner vector in the user domain only.
        let (got_b, got_v) = (alloc::live_since(0, LIB).len() as i64 - blocks, ledger::live() - live);
        let got_d = (ledger::destroyed_count() - destroyed) as i64;
        let site = TAGS.iter().find(|t| format!("{op:?}").starts_with(**t));
        if got_b != db {
            if got_b < db {
                report::violation("C09", format!("{} releases storage that is still in use", opname(op)));
            } else if site.is_some() && got_b - db == 1 {
                r.left_blocks += 1;
                report::finding("C10", &format!("{}-keeps-block", site.unwrap()), format!("{} leaves the block of the value allocated for good", opname(op)));
            } else {
                report::violation("C10", format!("{} leaves storage behind", opname(op)));
            }
        }
        if got_v != dv || got_d != dd {
            if got_v < dv || got_d > dd {
                report::violation("C08", format!("{} destroys a value", opname(op)));
            } else if let (DropTagged(_), 0, 0) = (op, got_v, got_d) {
                r.left_values += counted;
                report::finding("C10", "DropTagged-keeps-value", "a box that goes away never destroys its value");
            } else {
                report::violation("C10", format!("{} leaves a value undestroyed", opname(op)));
            }
        }
        if boxing && (alloc::lib_allocs() - allocs) as i64 != sized {
            report::violation("C09", format!("{} does not request exactly one block (none for a zero-sized value)", opname(op)));
        }
        if !boxing && sized == 0 && !matches!(op, NewRefused(..)) && alloc::lib_allocs() != allocs {
            report::violation("C09", format!("{} requests a block for a zero-sized value", opname(op)));
        }
        for i in 0..2 {
            self.observe(&mut r.s[i], m.0[i]);
        }
    }
    fn finish(&self, mut r: Real<U>, m: &Model) {
        for i in 0..2 {
            self.observe(&mut r.s[i], m.0[i]);
        }
        for s in r.s {
            match s {
                R::Empty => (),
                R::Val(u) => user(|| drop(u)),
                R::Std(b) => user(|| drop(b)),
                R::Raw(p) => user(|| drop(unsafe { Box::from_raw(p) })),
                // Everything the standard box needs must be in place.
                R::Boxed(b) => {
                    let b: Box<U> = lib(|| unsafe { TaggedBox::into_box(b) });
                    user(|| drop(b))
                }
            }
        }
        if alloc::live_since(0, LIB).len() != r.left_blocks {
            report::violation("C10", "storage is left when every value has been taken out");
        }
        if ledger::live() != r.left_values {
            report::violation("C10", "values are left undestroyed, or too many destroyed, when everything is gone");
        }
    }
}

fn opname(op: Op) -> String {
    let s = format!("{op:?}");
    let s = s.split('(').next().unwrap();
    match s {
        "New" => "TaggedBox::new()",
        "NewUnchecked" => "TaggedBox::new_unchecked()",
        "RefuseNew" => "TaggedBox::new()",
        "RefuseUnchecked" => "TaggedBox::new_unchecked()",
        "NewRefused" => "a refused TaggedBox::new()",
        "IntoInner" => "TaggedBox::into_inner()",
        "IntoBox" => "TaggedBox::into_box()",
        "IntoRaw" => "TaggedBox::into_raw()",
        "FromRaw" => "TaggedBox::from_raw()",
        "DropTagged" => "dropping a TaggedBox",
        s => s,
    }
    .to_string()
}

fn main() {
    let c = cli::parse();
    let mut i = 0;
    macro_rules! worlds { ($($t:ty),* $(,)?) => { $( {
        let refuse = c.prop == "C18" || c.only.as_ref().map_or(false, |o| o.contains("/r:"));
        let w = Raw::<$t>(PhantomData, refuse);
        if let Some(o) = &c.only {
            if let Some(ch) = o.strip_prefix(&*w.name()).and_then(|r| r.strip_prefix(':')) {
                explore::replay(&w, ch);
            }
        } else if c.mine(i) {
            let size = size_of::<$t>();
            explore::bfs(&w, &c.limits(0));
            let depth = if cfg!(miri) { 1 } else if size <= 64 { 5 } else if size <= 300 { 4 } else { 3 };
            if !refuse {
                explore::dfs(&w, &c.limits(depth + c.thorough as usize));
            }
            report::distinct("types", <$t>::NAME);
        }
        i += 1;
    } )* } }
    worlds!(A4s12, u64, Z1, u8, Own, (), Z8);
    if c.prop == "C18" && !c.thorough {
        worlds!(A1s5, A1s255, A4096s4096, A1s65537);
        return c.done();
    }
    if !cfg!(miri) || c.thorough {
        worlds!(A1s5, A1s7, A1s8, A1s9, A1s15, A1s16, A1s17, A1s24, A1s31, A1s33, A1s64, A1s65, A1s127, A1s129, A1s255, A1s257);
        worlds!(A2s6, A2s10, A4s8, A4s20, A8s8, A8s16, A8s24, A8s40, A16s16, A16s48, A32s32, A32s96, A64s64, A64s192, A128s128, A256s256);
        worlds!(Z16, Z64, u16, u32, u128, i8, i64, usize, bool, char, f32, f64, Option<std::num::NonZeroU8>, &'static str, [u8; 3], fn() -> u8);
    }
    if !cfg!(miri) {
        i += 1; // keeps the slow ones apart from the first ones
        worlds!(A1s1023, A1s1025, A1s4095, A1s4097, A1s65537, A512s512, A1024s1024, A4096s4096, A4096s8192, Z4096);
    }
    c.done()
}
