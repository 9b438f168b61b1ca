//! C08: an enum that implements Drop itself (it can: every payload is copyable). Every sequence of operations up to
//! a depth; after each one, how often the enum's destructor ran is compared with how many values went away.
use mc::{alloc, cli, report};
use std::cell::Cell;
use std::fmt::Write;
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

thread_local! { static GONE: Cell<u64> = const { Cell::new(0) }; }

tagged_box::tagged_box! {
    #[derive(Clone, Debug, PartialEq, PartialOrd)]
    pub struct Cont, pub enum Own {
        One(u32),
        Two(u8, u16),
        Rec { x: u64 },
        Unit,
        Empty(),
        Bare {},
    }
}
impl std::ops::Drop for Own {
    fn drop(&mut self) {
        GONE.with(|g| g.set(g.get() + 1));
    }
}
const KINDS: usize = 8;
/// The value of each kind; kinds 6 and 7 are made by the conversions from a payload and from a payload tuple.
fn make(kind: usize) -> Own {
    match kind {
        0 | 6 => Own::One(0xDEAD_BEEF),
        1 | 7 => Own::Two(0xA5, 0x1234),
        2 => Own::Rec { x: 0x0123_4567_89AB_CDEF },
        3 => Own::Unit,
        4 => Own::Empty(),
        _ => Own::Bare {},
    }
}

enum State {
    Value(Own),
    Boxed(TaggedBox<Own>),
    Held(Cont),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    ToBox,
    ToCont,
    Drop,
    FromBox,
    BoxClone,
    BoxDebug,
    BoxCmp,
    Borrow,
    BorrowTwice,
    Hex,
    ToHeld,
    IntoInner,
    ContClone,
    ContDebug,
    ContCmp,
}
use Op::*;
const OF_VALUE: &[Op] = &[ToBox, ToCont, Drop];
const OF_BOX: &[Op] = &[FromBox, BoxClone, BoxDebug, BoxCmp, Borrow, BorrowTwice, Hex, ToHeld];
const OF_CONT: &[Op] = &[IntoInner, ContClone, ContDebug, ContCmp];

fn text(f: std::fmt::Arguments<'_>) -> String {
    let mut s = String::new();
    s.write_fmt(f).unwrap();
    s
}
/// Runs one operation. What goes away in it: (destructor runs expected, what is left).
fn step(s: State, op: Op, kind: usize) -> (u64, Option<State>) {
    // Made anew for comparing, and never destroyed.
    let want = std::mem::ManuallyDrop::new(make(kind));
    let same = |o: &Own| {
        if *o != *want {
            report::violation("C08", format!("{op:?} shows another value than the one stored"));
        }
    };
    match (op, s) {
        (ToBox, State::Value(v)) => (0, Some(State::Boxed(v.into_tagged_box()))),
        (ToCont, State::Value(v)) => (0, Some(State::Held(Cont::from(v)))),
        (Drop, State::Value(v)) => {
            drop(v);
            (1, None)
        }
        (FromBox, State::Boxed(b)) => {
            let v = Own::from_tagged_box(b);
            same(&v);
            (0, Some(State::Value(v)))
        }
        (BoxClone, State::Boxed(b)) => {
            let c = Own::from_tagged_box(b.clone());
            same(&c);
            std::mem::forget(c);
            (0, Some(State::Boxed(b)))
        }
        (BoxDebug, State::Boxed(b)) => {
            if text(format_args!("{b:?}")) != text(format_args!("{:?}", *want)) {
                report::violation("C08", "the debug text of a box is not that of the value stored");
            }
            (0, Some(State::Boxed(b)))
        }
        (BoxCmp, State::Boxed(b)) => {
            if b != b || b.partial_cmp(&b) != Some(std::cmp::Ordering::Equal) {
                report::violation("C08", "a box is not equal to itself");
            }
            (0, Some(State::Boxed(b)))
        }
        (Borrow, State::Boxed(b)) => {
            unsafe { Own::ref_from_tagged_box(&b, |i| same(i)) };
            (0, Some(State::Boxed(b)))
        }
        (BorrowTwice, State::Boxed(b)) => {
            unsafe { Own::ref_from_tagged_box(&b, |i| Own::ref_from_tagged_box(&b, |j| same(if i == j { j } else { i }))) };
            (0, Some(State::Boxed(b)))
        }
        (Hex, State::Boxed(b)) => {
            text(format_args!("{b:x} {b:X} {b:o} {b:b}"));
            (0, Some(State::Boxed(b)))
        }
        (ToHeld, State::Boxed(b)) => (0, Some(State::Held(Cont { value: b }))),
        (IntoInner, State::Held(c)) => {
            let v = c.into_inner();
            same(&v);
            (0, Some(State::Value(v)))
        }
        (ContClone, State::Held(c)) => {
            let d = c.clone().into_inner();
            same(&d);
            std::mem::forget(d);
            (0, Some(State::Held(c)))
        }
        (ContDebug, State::Held(c)) => {
            text(format_args!("{c:?}"));
            (0, Some(State::Held(c)))
        }
        (ContCmp, State::Held(c)) => {
            if c != c || c.partial_cmp(&c) != Some(std::cmp::Ordering::Equal) {
                report::violation("C08", "a container is not equal to itself");
            }
            (0, Some(State::Held(c)))
        }
        _ => unreachable!(),
    }
}
fn gone() -> u64 {
    GONE.with(|g| g.replace(0))
}
fn judge(op: &str, stores: bool, ran: u64, expected: u64) {
    if ran == expected + 1 && stores {
        report::finding("C08", &format!("{op}-own-destructor"), "storing a value of an enum that implements Drop runs its destructor");
    } else if ran != expected {
        report::violation("C08", format!("{op} runs the enum's own destructor {ran} times, expected {expected}"));
    }
}
/// Runs the history from the start; the operations possible after it.
fn run(kind: usize, ops: &[Op]) -> &'static [Op] {
    gone();
    let mut s = match kind {
        6 | 7 => {
            let c = if kind == 6 { Cont::from(0xDEAD_BEEFu32) } else { Cont::from((0xA5u8, 0x1234u16)) };
            judge("FromPayload", true, gone(), 0);
            Some(State::Held(c))
        }
        _ => Some(State::Value(make(kind))),
    };
    for op in ops {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(s.take().unwrap(), *op, kind)));
        match r {
            Ok((expected, next)) => {
                s = next;
                judge(&format!("{op:?}"), matches!(op, ToBox | ToCont | BoxClone | ContClone), gone(), expected);
            }
            Err(_) => {
                report::violation("C08", format!("{op:?} panics: {}", report::last_panic()));
                return &[];
            }
        }
    }
    let next = match &s {
        Some(State::Value(_)) => OF_VALUE,
        Some(State::Boxed(_)) => OF_BOX,
        Some(State::Held(_)) => OF_CONT,
        None => &[],
    };
    // Taken out and destroyed once.
    match s {
        Some(State::Value(v)) => drop(v),
        Some(State::Boxed(b)) => drop(Own::from_tagged_box(b)),
        Some(State::Held(c)) => drop(c.into_inner()),
        None => return next,
    }
    judge("taking out and dropping", false, gone(), 1);
    next
}

fn main() {
    let c = cli::parse();
    let depth = match (cfg!(miri), c.thorough) {
        (true, t) => 2 + t as usize,
        (false, t) => 5 + t as usize * 2,
    };
    if let Some(o) = &c.only {
        let v: Vec<usize> = o.trim_start_matches("own:").split(',').map(|x| x.parse().unwrap()).collect();
        let all: Vec<Op> = OF_VALUE.iter().chain(OF_BOX).chain(OF_CONT).copied().collect();
        report::begin_case(o);
        run(v[0], &v[1..].iter().map(|k| all[*k]).collect::<Vec<_>>());
        c.done();
    }
    for kind in 0..KINDS {
        if !c.mine(kind) {
            continue;
        }
        let mut todo: Vec<Vec<Op>> = vec![vec![]];
        while let Some(h) = todo.pop() {
            let name = h.iter().fold(format!("own:{kind}"), |s, o| format!("{s},{}", *o as usize));
            report::begin_case(&name);
            let next = run(kind, &h);
            report::count("histories", 1);
            report::count("transitions", h.len() as u64);
            if h.len() < depth {
                todo.extend(next.iter().map(|o| h.iter().copied().chain(Some(*o)).collect()));
            }
        }
    }
    c.done()
}
