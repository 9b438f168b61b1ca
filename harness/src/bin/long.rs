//! Histories far longer than the others: one operation repeated (failing or not) more often than a 16-bit counter
//! counts, for every operation and every kind of variant, then every observation. Along the way, the heap must hold
//! exactly what it held before. Property by property: C08, C10, C11, C12, C13, C16, C17, C19.
use harness::fmt_table as ft;
use mc::{cli, report};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

struct Count;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static BYTES: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn live() -> (isize, isize) {
    (LIVE.load(Relaxed), BYTES.load(Relaxed))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Fine,
    /// User code panics.
    Panics,
    /// Formatting writes something, then fails.
    Errs,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Fine) };
    static GONE: Cell<u64> = const { Cell::new(0) };
}
fn user() {
    if MODE.with(|m| m.get()) == Mode::Panics {
        resume_unwind(Box::new(()))
    }
}
fn fmt_end() -> fmt::Result {
    user();
    if MODE.with(|m| m.get()) == Mode::Errs {
        Err(fmt::Error)
    } else {
        Ok(())
    }
}

/// Owns heap storage.
pub struct P(Box<u32>);
/// Takes no space.
pub struct Z;
impl Drop for P {
    fn drop(&mut self) {
        GONE.with(|g| g.set(g.get() + 1))
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        GONE.with(|g| g.set(g.get() + 1))
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        user();
        P(self.0.clone())
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        user();
        Z
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        user();
        self.0 == o.0
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool {
        user();
        true
    }
}
impl Eq for P {}
impl Eq for Z {}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> {
        user();
        self.0.partial_cmp(&o.0)
    }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, _: &Z) -> Option<std::cmp::Ordering> {
        user();
        Some(std::cmp::Ordering::Equal)
    }
}
impl Ord for P {
    fn cmp(&self, o: &P) -> std::cmp::Ordering {
        user();
        self.0.cmp(&o.0)
    }
}
impl Ord for Z {
    fn cmp(&self, _: &Z) -> std::cmp::Ordering {
        user();
        std::cmp::Ordering::Equal
    }
}
macro_rules! show { ($t:ty, $($tr:ident),*) => { $(
    impl fmt::$tr for $t {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("a text, then ")?;
            fmt_end()?;
            f.pad("more text")
        }
    }
)* } }
show!(P, Debug, Display);
show!(Z, Debug, Display);

tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Cont, pub enum Item {
        One(P),
        Two(P, u8),
        Rec { x: u16, p: P },
        Zst(Z),
        Unit,
    }
}
impl fmt::Display for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Item::One(p) | Item::Two(p, _) | Item::Rec { p, .. } => fmt::Display::fmt(p, f),
            Item::Zst(z) => fmt::Display::fmt(z, f),
            Item::Unit => {
                f.write_str("unit")?;
                fmt_end()
            }
        }
    }
}
const KINDS: usize = 5;
fn make(kind: usize, n: u32) -> Item {
    match kind {
        0 => Item::One(P(Box::new(n))),
        1 => Item::Two(P(Box::new(n)), 7),
        2 => Item::Rec { x: 9, p: P(Box::new(n)) },
        3 => Item::Zst(Z),
        _ => Item::Unit,
    }
}
/// Takes the value out, destroys it and gives the block back.
fn end(kind: usize, b: TaggedBox<Item>) {
    #[repr(C)]
    struct Two(P, u8);
    #[repr(C)]
    struct Rec {
        x: u16,
        p: P,
    }
    unsafe {
        match kind {
            0 => drop(TaggedBox::into_box::<P>(b)),
            1 => drop(TaggedBox::into_box::<Two>(b)),
            2 => drop(TaggedBox::into_box::<Rec>(b)),
            3 => drop(TaggedBox::into_box::<Z>(b)),
            _ => drop(Item::from_tagged_box(b)),
        }
    }
}

struct Sink {
    text: String,
    room: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.text.len() + s.len() > self.room {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
struct Fix {
    kind: usize,
    plain: [Item; 2],
    boxes: [TaggedBox<Item>; 2],
    conts: [Cont; 2],
    words: [u64; 4],
    sink: Sink,
}
fn word<T>(b: &T) -> u64 {
    assert!(std::mem::size_of::<T>() == 8);
    unsafe { std::mem::transmute_copy(b) }
}
impl Fix {
    fn new(kind: usize) -> Fix {
        let boxes = [make(kind, 1).into_tagged_box(), make(kind, 2).into_tagged_box()];
        let conts = [Cont::from(make(kind, 1)), Cont::from(make(kind, 2))];
        let words = [word(&boxes[0]), word(&boxes[1]), word(&conts[0]), word(&conts[1])];
        Fix { kind, plain: [make(kind, 1), make(kind, 2)], boxes, conts, words, sink: Sink { text: String::with_capacity(1 << 16), room: 1 << 15 } }
    }
}

type Op = (&'static str, &'static str, fn(&Fix) -> Option<()>);
/// What an operation gives is compared with what the plain values give; None: it does not agree.
macro_rules! same {
    ($a:expr, $b:expr) => {
        {
            let (got, want) = ($a, $b);
            if got == want {
                Some(())
            } else {
                None
            }
        }
    };
}
const OPS: &[Op] = &[
    ("==", "C12", |f| same!(f.boxes[0] == f.boxes[1], f.plain[0] == f.plain[1])),
    ("!=", "C12", |f| same!(f.boxes[0] != f.boxes[1], f.plain[0] != f.plain[1])),
    ("== itself", "C12", |f| same!(f.boxes[0] == f.boxes[0], f.plain[0] == f.plain[0])),
    ("partial_cmp", "C12", |f| same!(f.boxes[0].partial_cmp(&f.boxes[1]), f.plain[0].partial_cmp(&f.plain[1]))),
    ("<", "C12", |f| same!(f.boxes[0] < f.boxes[1], f.plain[0] < f.plain[1])),
    ("<=", "C12", |f| same!(f.boxes[0] <= f.boxes[1], f.plain[0] <= f.plain[1])),
    (">", "C12", |f| same!(f.boxes[0] > f.boxes[1], f.plain[0] > f.plain[1])),
    (">=", "C12", |f| same!(f.boxes[1] >= f.boxes[0], f.plain[1] >= f.plain[0])),
    ("cmp", "C12", |f| same!(f.boxes[1].cmp(&f.boxes[0]), f.plain[1].cmp(&f.plain[0]))),
    ("container ==", "C12", |f| same!(f.conts[0] == f.conts[1], f.plain[0] == f.plain[1])),
    ("container partial_cmp", "C12", |f| same!(f.conts[0].partial_cmp(&f.conts[1]), f.plain[0].partial_cmp(&f.plain[1]))),
    ("container cmp", "C12", |f| same!(f.conts[0].cmp(&f.conts[1]), f.plain[0].cmp(&f.plain[1]))),
    ("clone", "C11", |f| {
        let c = f.boxes[0].clone();
        let ok = c.discriminant() == f.boxes[0].discriminant() && (f.kind > 2 || word(&c) != f.words[0]) && unsafe { shows(&c, &f.plain[0]) };
        end(f.kind, c);
        same!(ok, true)
    }),
    ("container clone", "C11", |f| {
        let c = f.conts[1].clone();
        let ok = (f.kind > 2 || word(&c) != f.words[3]) && unsafe { shows(&c.value, &f.plain[1]) };
        end(f.kind, c.value);
        same!(ok, true)
    }),
    ("borrow", "C19", |f| {
        let n = Cell::new(0);
        let mut ok = false;
        unsafe {
            Item::ref_from_tagged_box(&f.boxes[1], |i| {
                n.set(n.get() + 1);
                ok = *i == f.plain[1];
            })
        };
        same!(ok && n.get() == 1, true)
    }),
    ("nested borrow", "C19", |f| {
        let mut n = 0;
        unsafe {
            Item::ref_from_tagged_box(&f.boxes[0], |i| Item::ref_from_tagged_box(&f.boxes[0], |j| Item::ref_from_tagged_box(&f.boxes[1], |k| n += (i == j && *k == f.plain[1]) as u32)))
        };
        same!(n, 1)
    }),
    ("box and unbox", "C10", |f| {
        let b = make(f.kind, 3).into_tagged_box();
        let ok = b.discriminant() as usize == f.kind && unsafe { shows(&b, &make(f.kind, 3)) };
        end(f.kind, b);
        same!(ok, true)
    }),
    ("new_unchecked and into_box", "C10", |f| unsafe {
        let b = TaggedBox::<Item>::new_unchecked([f.kind; 5], 1);
        let p = b.as_ptr::<[usize; 5]>();
        let x = TaggedBox::into_box::<[usize; 5]>(b);
        same!((*x, &*x as *const _), ([f.kind; 5], p))
    }),
    ("raw round trip", "C10", |_| unsafe {
        let raw = Box::into_raw(Box::new(0xABCDu16));
        let b = TaggedBox::<Item>::from_raw(raw, 1);
        let back = TaggedBox::into_raw::<u16>(b);
        let same = same!((back, *back), (raw, 0xABCD));
        drop(Box::from_raw(raw));
        same
    }),
    // What becomes of the block of a value taken out is for C10's own histories (a known finding).
    ("convert", "C08", |f| {
        let b = make(f.kind, 1).into_tagged_box();
        let gone = GONE.with(|g| g.get());
        let b = Cont::from(Cont { value: Item::from_tagged_box(b).into_tagged_box() }.into_inner()).value;
        let ok = GONE.with(|g| g.get()) == gone && unsafe { shows(&b, &f.plain[0]) };
        let gone = GONE.with(|g| g.get());
        end(f.kind, b);
        same!(ok && GONE.with(|g| g.get()) == gone + (f.kind < 4) as u64, true)
    }),
    ("unknown discriminant", "C16", |_| {
        let r = catch_unwind(AssertUnwindSafe(|| Item::from_tagged_box(TaggedBox::dangling::<()>(7))));
        same!(r.map(std::mem::forget).is_err(), true)
    }),
    ("unknown discriminant, borrowed", "C16", |_| {
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { Item::ref_from_tagged_box(&TaggedBox::dangling::<()>(6), |_| ()) }));
        same!(r.is_err(), true)
    }),
    ("unknown discriminant, container", "C16", |_| {
        let r = catch_unwind(AssertUnwindSafe(|| Cont { value: TaggedBox::dangling::<()>(5) }.into_inner()));
        same!(r.map(std::mem::forget).is_err(), true)
    }),
];
unsafe fn shows(b: &TaggedBox<Item>, want: &Item) -> bool {
    let mut ok = false;
    Item::ref_from_tagged_box(b, |i| ok = i == want);
    ok
}
type Show = fn(usize, &mut dyn fmt::Write, &Fix, bool, usize) -> fmt::Result;
const SHOWS: &[(&str, Show)] = &[
    ("debug", |s, w, f, boxed, n| if boxed { ft::debug(s, w, &f.boxes[0], n, 3) } else { ft::debug(s, w, &f.plain[0], n, 3) }),
    ("display", |s, w, f, boxed, n| if boxed { ft::display(s, w, &f.boxes[0], n, 3) } else { ft::display(s, w, &f.plain[0], n, 3) }),
    ("debug-hex", |s, w, f, boxed, n| if boxed { ft::debug_lx(s, w, &f.boxes[0], n, 3) } else { ft::debug_lx(s, w, &f.plain[0], n, 3) }),
];

fn set(m: Mode) {
    MODE.with(|x| x.set(m))
}
/// Every observation of an undisturbed fixture; the first that is wrong.
fn observe(f: &mut Fix) -> Option<(&'static str, &'static str)> {
    for (name, prop, op) in OPS {
        let ok = catch_unwind(AssertUnwindSafe(|| op(f))).ok().flatten();
        if ok.is_none() {
            return Some((name, prop));
        }
    }
    for (name, show) in SHOWS {
        for spec in [0, 20, 335] {
            f.sink.room = 1 << 15;
            f.sink.text.clear();
            let mut sink = std::mem::replace(&mut f.sink, Sink { text: String::new(), room: 0 });
            let r = catch_unwind(AssertUnwindSafe(|| show(spec, &mut sink, f, true, 30)));
            let n = sink.text.len();
            let _ = show(spec, &mut sink, f, false, 30);
            let ok = r.ok() == Some(Ok(())) && sink.text[..n] == sink.text[n..];
            f.sink = sink;
            if !ok {
                return Some((name, "C13"));
            }
        }
    }
    if f.words != [word(&f.boxes[0]), word(&f.boxes[1]), word(&f.conts[0]), word(&f.conts[1])] {
        return Some(("word", "C07"));
    }
    None
}
/// `prop` is where a wrong result of the operation itself belongs.
fn block(f: &mut Fix, case: String, prop: &'static str, mode: Mode, times: u64, mut op: impl FnMut(&mut Fix) -> Result<Option<()>, ()>) {
    report::begin_case(&case);
    report::last_panic();
    report::count("operations", times);
    report::count("histories", 1);
    let before = live();
    let mut bad = None;
    for i in 0..times {
        set(mode);
        let r = op(f);
        set(Mode::Fine);
        match (r, mode) {
            (Ok(None), Mode::Fine | Mode::Errs) => bad = bad.or(Some((i, "gives another result than the values it holds give"))),
            (Err(()), Mode::Fine | Mode::Errs) => bad = bad.or(Some((i, "panics"))),
            _ => (),
        }
    }
    report::last_panic();
    let after = live();
    let short = case.split(':').nth(1).unwrap_or("").to_string();
    let p = if mode == Mode::Panics { "C17" } else { prop };
    if let Some((i, m)) = bad {
        let after = if i == 0 { "" } else { ", when repeated" };
        report::violation(p, format!("{short} {m}{after}"));
    }
    if after != before && prop != "C08" {
        report::violation("C10", format!("{}: the heap holds {} more blocks ({} bytes) after repeating it than before", short, after.0 - before.0, after.1 - before.1));
    }
    if let Some((o, op_prop)) = observe(f) {
        report::violation(if mode == Mode::Panics { "C17" } else { op_prop }, format!("{o} goes wrong after repeating {short}"));
    }
    report::last_panic();
}

fn main() {
    let c = cli::parse();
    let wants = |p: &str| c.wants(p);
    let only = |case: &str| c.only.as_ref().map_or(true, |o| o == case);
    // Everything once, so that what std keeps is there.
    for kind in 0..KINDS {
        if let Some((o, p)) = observe(&mut Fix::new(kind)) {
            report::violation_in(p, format!("long:first:{kind}"), format!("{o} goes wrong"));
        }
    }
    let mut n = 0;
    for kind in 0..KINDS {
        let mut f = Fix::new(kind);
        let times = if kind == 0 || c.thorough { 66_000 } else { 300 };
        for (name, prop, op) in OPS {
            for mode in [Mode::Fine, Mode::Panics] {
                n += 1;
                let relevant = wants(prop) || wants("C10") || mode == Mode::Panics && wants("C17");
                let case = format!("long:{name} ({mode:?}):{kind}");
                if !relevant || !c.mine(n) || !only(&case) || mode == Mode::Panics && matches!(*prop, "C10" | "C08" | "C16") {
                    continue;
                }
                block(&mut f, case, prop, mode, times, |f| catch_unwind(AssertUnwindSafe(|| op(f))).map_err(|_| ()));
            }
        }
        if !(wants("C13") || wants("C10") || wants("C17")) {
            continue;
        }
        for (name, show) in SHOWS {
            for mode in [Mode::Fine, Mode::Panics, Mode::Errs] {
                n += 1;
                if !c.mine(n) {
                    continue;
                }
                for spec in 0..ft::N {
                    for room in [0, 5, 1 << 15] {
                        let case = format!("long:{name} {:?} ({mode:?}, room for {room}):{kind}", ft::SPECS[spec]);
                        if !only(&case) {
                            continue;
                        }
                        let times = if spec == 0 || spec == 80 { times.min(66_000) } else { 3 };
                        block(&mut f, case, "C13", mode, times, |f| {
                            let mut sink = std::mem::replace(&mut f.sink, Sink { text: String::new(), room: 0 });
                            sink.room = room;
                            sink.text.clear();
                            let r = catch_unwind(AssertUnwindSafe(|| show(spec, &mut sink, f, true, 30)));
                            let got = sink.text.len();
                            sink.room = got + room;
                            let mut ok = true;
                            if mode != Mode::Panics {
                                let want = show(spec, &mut sink, f, false, 30);
                                ok = r.as_ref().ok() == Some(&want) && sink.text[..got] == sink.text[got..];
                            }
                            f.sink = sink;
                            r.map(|_| if ok { Some(()) } else { None }).map_err(|_| ())
                        });
                    }
                }
            }
        }
    }
    c.done()
}
