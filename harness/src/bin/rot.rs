//! C07, C08, C11, C12, C13, C19: every kind of variant at every place of its enum. Each enum holds the same eight variants,
//! rotated, and once more behind eight others; payloads count how often they are made, cloned and destroyed.
//! Every sequence of operations up to a depth on every variant; every pair of values through every operator, every
//! value through several format specifications.
#[cfg(not(feature = "big"))]
fn main() {}
#[cfg(feature = "big")]
fn main() {
    rot::main()
}
#[global_allocator]
static A: mc::alloc::Checker = mc::alloc::Checker;

#[cfg(feature = "big")]
mod rot {
    use mc::{cli, report};
    use std::cell::RefCell;
    use std::cmp::Ordering;
    use std::fmt::{Debug, Write};
    use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

    /// How often each token was destroyed, by its number; zero-sized tokens have no number and are only counted.
    #[derive(Default)]
    struct Ledger {
        gone: Vec<u8>,
        born: u32,
        dead: u32,
        clones: u32,
        trouble: Option<&'static str>,
    }
    thread_local! { static L: RefCell<Ledger> = RefCell::default(); }
    fn ledger<T>(f: impl FnOnce(&mut Ledger) -> T) -> T {
        L.with(|l| f(&mut l.borrow_mut()))
    }
    const NOBODY: u32 = u32::MAX;
    pub trait Token: Clone + Debug + Ord {
        fn make(val: u32) -> Self;
        /// Its number, if it is intact and holds this value.
        fn id(&self, val: u32) -> Result<u32, ()>;
    }

    /// A token that holds a value and its own number.
    pub struct Tok {
        val: u32,
        mark: u64,
        id: u32,
    }
    impl Tok {
        fn new(val: u32) -> Tok {
            let id = ledger(|l| {
                l.gone.push(0);
                l.born += 1;
                l.gone.len() as u32 - 1
            });
            Tok { val, mark: !(val as u64) << 7, id: id << 1 }
        }
    }
    // Equal values compare equal and read the same, whatever their number.
    impl PartialEq for Tok {
        fn eq(&self, o: &Tok) -> bool {
            self.val == o.val && self.mark == o.mark
        }
    }
    impl Eq for Tok {}
    impl PartialOrd for Tok {
        fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Tok {
        fn cmp(&self, o: &Tok) -> Ordering {
            self.val.cmp(&o.val).then(o.mark.cmp(&self.mark))
        }
    }
    impl Debug for Tok {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_tuple("Tok").field(&self.val).field(&self.mark).finish()
        }
    }
    impl Token for Tok {
        fn make(val: u32) -> Self {
            Tok::new(val)
        }
        fn id(&self, val: u32) -> Result<u32, ()> {
            if self.val == val && self.mark == !(val as u64) << 7 && self.id & 1 == 0 { Ok(self.id >> 1) } else { Err(()) }
        }
    }
    impl Clone for Tok {
        fn clone(&self) -> Self {
            ledger(|l| l.clones += 1);
            Tok::new(self.val)
        }
    }
    impl Drop for Tok {
        fn drop(&mut self) {
            ledger(|l| {
                l.dead += 1;
                match l.gone.get_mut((self.id >> 1) as usize) {
                    Some(g) if self.id & 1 == 0 && *g == 0 => *g = 1,
                    Some(_) => l.trouble = Some("a payload is destroyed twice"),
                    None => l.trouble = Some("something that is no payload is destroyed"),
                }
            });
            self.id |= 1;
        }
    }
    /// A token without a size.
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Zst;
    impl Token for Zst {
        fn make(_: u32) -> Self {
            ledger(|l| l.born += 1);
            Zst
        }
        fn id(&self, _: u32) -> Result<u32, ()> {
            Ok(NOBODY)
        }
    }
    impl Clone for Zst {
        fn clone(&self) -> Self {
            ledger(|l| {
                l.clones += 1;
                l.born += 1;
            });
            Zst
        }
    }
    impl Drop for Zst {
        fn drop(&mut self) {
            ledger(|l| {
                l.dead += 1;
                if l.dead > l.born {
                    l.trouble = Some("a payload is destroyed twice");
                }
            })
        }
    }

    const KINDS: usize = 8;
    /// Kinds 8 to 10 are the first three made by the conversions from a payload and from a payload tuple.
    const STARTS: usize = 11;
    /// How many tokens a value of each kind holds.
    const TOKENS: [u32; KINDS] = [1, 2, 2, 1, 2, 0, 0, 0];

    pub trait Fam: TaggableInner + Clone + Debug + Ord {
        type C: TaggableContainer<Inner = Self> + From<Self> + Clone + Debug + Ord;
        fn make(kind: usize) -> Self;
        fn payload(kind: usize) -> Self::C;
        fn hold(b: TaggedBox<Self>) -> Self::C;
        /// The numbers of the tokens, if the value is the one that make gives for the kind.
        fn ids(&self, kind: usize) -> Result<[u32; 2], ()>;
    }
    macro_rules! fam {
        ($($m:ident $t:ty { $($variants:tt)* })*) => {$(
            mod $m {
                use super::*;
                tagged_box::tagged_box! {
                    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
                    pub struct Cont, pub enum Item { $( $variants )* }
                }
                impl Fam for Item {
                    type C = Cont;
                    fn make(kind: usize) -> Self {
                        match kind {
                            0 | 8 => Item::One(<$t>::make(1)),
                            1 | 9 => Item::Two(<$t>::make(2), <$t>::make(3)),
                            2 | 10 => Item::Mixed(<$t>::make(4), 0xA5, <$t>::make(5)),
                            3 => Item::Rec { t: <$t>::make(6) },
                            4 => Item::Both { a: <$t>::make(7), x: [0x5A, 0xA5], b: <$t>::make(8) },
                            5 => Item::Unit,
                            6 => Item::Empty(),
                            _ => Item::Bare {},
                        }
                    }
                    fn payload(kind: usize) -> Cont {
                        match kind {
                            8 => Cont::from(<$t>::make(1)),
                            9 => Cont::from((<$t>::make(2), <$t>::make(3))),
                            _ => Cont::from((<$t>::make(4), 0xA5u8, <$t>::make(5))),
                        }
                    }
                    fn hold(b: TaggedBox<Self>) -> Cont {
                        Cont { value: b }
                    }
                    fn ids(&self, kind: usize) -> Result<[u32; 2], ()> {
                        Ok(match (kind, self) {
                            (0 | 8, Item::One(a)) => [a.id(1)?, NOBODY],
                            (1 | 9, Item::Two(a, b)) => [a.id(2)?, b.id(3)?],
                            (2 | 10, Item::Mixed(a, 0xA5, b)) => [a.id(4)?, b.id(5)?],
                            (3, Item::Rec { t }) => [t.id(6)?, NOBODY],
                            (4, Item::Both { a, x: [0x5A, 0xA5], b }) => [a.id(7)?, b.id(8)?],
                            (5, Item::Unit) | (6, Item::Empty()) | (7, Item::Bare {}) => [NOBODY; 2],
                            _ => return Err(()),
                        })
                    }
                }
            }
        )*};
    }
    /// The rotations, alone and behind eight other variants, for both tokens.
    macro_rules! rotations {
        ($($m:ident $n:ident $z:ident $y:ident { $($v:tt)* } $w:tt)*) => {
            $(
                rotations!(@ $m $n Tok $w);
                rotations!(@ $z $y Zst $w);
            )*
            fn every(f: &mut dyn FnMut(&'static str, usize, fn(usize, &[Op]) -> &'static [Op])) {
                $(for k in 0..=STARTS {
                    f(stringify!($m), k, run::<$m::Item>);
                    f(stringify!($n), k, run::<$n::Item>);
                    f(stringify!($z), k, run::<$z::Item>);
                    f(stringify!($y), k, run::<$y::Item>);
                })*
            }
        };
        (@ $m:ident $n:ident $t:ident { $($w:tt)* }) => {
            rotations!(@@ $m $n $t $( $w )*);
        };
        (@@ $m:ident $n:ident $t:ident $($k:ident)*) => {
            rotations!(@fam $m $t [] $( $k )*);
            rotations!(@fam $n $t [F0, F1(u8), F2 { x: u16 }, F3(u8, u8), F4, F5 {}, F6(i64), F7 { y: u8, z: u32 },] $( $k )*);
        };
        (@fam $m:ident $t:ident [$($d:tt)*] one $($r:ident)*) => { rotations!(@fam $m $t [$($d)* One($t),] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] two $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Two($t, $t),] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] mixed $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Mixed($t, u8, $t),] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] rec $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Rec { t: $t },] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] both $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Both { a: $t, x: [u8; 2], b: $t, },] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] unit $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Unit,] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] empty $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Empty(),] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*] bare $($r:ident)*) => { rotations!(@fam $m $t [$($d)* Bare {},] $($r)*); };
        (@fam $m:ident $t:ident [$($d:tt)*]) => { fam! { $m $t { $( $d )* } } };
    }
    rotations! {
        a0 b0 c0 d0 {} { one two mixed rec both unit empty bare }
        a1 b1 c1 d1 {} { two mixed rec both unit empty bare one }
        a2 b2 c2 d2 {} { mixed rec both unit empty bare one two }
        a3 b3 c3 d3 {} { rec both unit empty bare one two mixed }
        a4 b4 c4 d4 {} { both unit empty bare one two mixed rec }
        a5 b5 c5 d5 {} { unit empty bare one two mixed rec both }
        a6 b6 c6 d6 {} { empty bare one two mixed rec both unit }
        a7 b7 c7 d7 {} { bare one two mixed rec both unit empty }
    }

    enum State<E: Fam> {
        Value(E),
        Boxed(TaggedBox<E>),
        Held(E::C),
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        ToBox,
        ToCont,
        FromBox,
        BoxClone,
        BoxFork,
        BoxDebug,
        BoxCmp,
        Borrow,
        BorrowTwice,
        ToHeld,
        IntoInner,
        ContClone,
        ContFork,
        ContDebug,
        ContCmp,
    }
    use Op::*;
    const OF_VALUE: &[Op] = &[ToBox, ToCont];
    const OF_BOX: &[Op] = &[FromBox, BoxClone, BoxFork, BoxDebug, BoxCmp, Borrow, BorrowTwice, ToHeld];
    const OF_CONT: &[Op] = &[IntoInner, ContClone, ContFork, ContDebug, ContCmp];

    fn text(f: std::fmt::Arguments<'_>) -> String {
        let mut s = String::new();
        s.write_fmt(f).unwrap();
        s
    }
    /// A value seen in an operation, with the property that says what it must be.
    type Seen = Vec<(&'static str, bool, Result<[u32; 2], ()>)>;

    /// Runs one operation: what is left, and how many clones it made and destroyed.
    fn step<E: Fam>(s: State<E>, op: Op, kind: usize, seen: &mut Seen) -> (u32, State<E>) {
        let n = TOKENS[if kind >= KINDS { kind - KINDS } else { kind }];
        match (op, s) {
            (ToBox, State::Value(v)) => (0, State::Boxed(v.into_tagged_box())),
            (ToCont, State::Value(v)) => (0, State::Held(v.into())),
            (FromBox, State::Boxed(b)) => {
                let v = E::from_tagged_box(b);
                seen.push(("C07", true, v.ids(kind)));
                (0, State::Value(v))
            }
            (BoxClone, State::Boxed(b)) => {
                let v = E::from_tagged_box(b.clone());
                seen.push(("C11", false, v.ids(kind)));
                (n, State::Boxed(b))
            }
            // Goes on with the clone.
            (BoxFork, State::Boxed(b)) => {
                let c = b.clone();
                seen.push(("C07", true, E::from_tagged_box(b).ids(kind)));
                (n, State::Boxed(c))
            }
            (BoxDebug, State::Boxed(b)) => {
                let t = text(format_args!("{b:?}"));
                let mut u = String::new();
                unsafe { E::ref_from_tagged_box(&b, |i| u = text(format_args!("{i:?}"))) };
                if t != u {
                    report::violation("C13", format!("the debug text of a box is {t:?}, that of the value {u:?}"));
                }
                (0, State::Boxed(b))
            }
            (BoxCmp, State::Boxed(b)) => {
                if b != b || b.partial_cmp(&b) != Some(Ordering::Equal) {
                    report::violation("C12", "a box is not equal to itself");
                }
                (0, State::Boxed(b))
            }
            (Borrow, State::Boxed(b)) => {
                let mut calls = 0;
                unsafe {
                    E::ref_from_tagged_box(&b, |i| {
                        calls += 1;
                        seen.push(("C19", true, i.ids(kind)));
                    })
                };
                if calls != 1 {
                    report::violation("C19", format!("the callback ran {calls} times"));
                }
                (0, State::Boxed(b))
            }
            (BorrowTwice, State::Boxed(b)) => {
                unsafe {
                    E::ref_from_tagged_box(&b, |i| {
                        E::ref_from_tagged_box(&b, |j| {
                            seen.push(("C19", true, j.ids(kind)));
                            seen.push(("C19", true, i.ids(kind)));
                        })
                    })
                };
                (0, State::Boxed(b))
            }
            (ToHeld, State::Boxed(b)) => (0, State::Held(E::hold(b))),
            (IntoInner, State::Held(c)) => {
                let v = c.into_inner();
                seen.push(("C07", true, v.ids(kind)));
                (0, State::Value(v))
            }
            (ContClone, State::Held(c)) => {
                let v = c.clone().into_inner();
                seen.push(("C11", false, v.ids(kind)));
                (n, State::Held(c))
            }
            (ContFork, State::Held(c)) => {
                let d = c.clone();
                seen.push(("C07", true, c.into_inner().ids(kind)));
                (n, State::Held(d))
            }
            (ContDebug, State::Held(c)) => {
                text(format_args!("{c:?}"));
                (0, State::Held(c))
            }
            (ContCmp, State::Held(c)) => {
                if c != c || c.partial_cmp(&c) != Some(Ordering::Equal) {
                    report::violation("C12", "a container is not equal to itself");
                }
                (0, State::Held(c))
            }
            _ => unreachable!(),
        }
    }
    /// What was made, destroyed and cloned since the last call.
    fn since() -> (u32, u32, u32, Option<&'static str>) {
        ledger(|l| {
            let r = (l.born, l.dead, l.clones, l.trouble.take());
            // Zero-sized tokens are told apart by their number alone.
            (l.born, l.dead, l.clones) = (l.born - l.dead.min(l.born), 0, 0);
            r
        })
    }
    fn judge(op: &str, alive: u32, made: u32, cloned: u32, gone: u32) -> u32 {
        let (born, dead, clones, trouble) = since();
        if let Some(t) = trouble {
            report::violation("C08", format!("{op}: {t}"));
        }
        if clones != cloned || born != alive + made {
            report::violation("C11", format!("{op} makes {clones} clones, expected {cloned}; {} payloads, expected {made}", born as i64 - alive as i64));
        }
        if dead != gone {
            report::violation("C08", format!("{op} destroys {dead} payloads, expected {gone}"));
        }
        born.saturating_sub(dead)
    }

    /// Every pair of values through every operator, every value through the format specifications.
    fn pairs<E: Fam>() {
        // (The operands are never destroyed: that is for `run` to look at.)
        let plain: Vec<E> = (0..KINDS).map(E::make).collect();
        let boxes: Vec<[TaggedBox<E>; 2]> = (0..KINDS).map(|k| [E::make(k).into_tagged_box(), E::make(k).into_tagged_box()]).collect();
        let held: Vec<[E::C; 2]> = (0..KINDS).map(|k| [E::make(k).into(), E::make(k).into()]).collect();
        macro_rules! texts { ($x:expr) => {
            [text(format_args!("{:?}", $x)), text(format_args!("{:#?}", $x)), text(format_args!("{:12?}", $x)), text(format_args!("{:<+8.3?}", $x)),
             text(format_args!("{:#06x?}", $x)), text(format_args!("{:-^#14X?}", $x))]
        } }
        macro_rules! ops { ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            (x == y, x != y, x.partial_cmp(y), x < y, x <= y, x > y, x >= y, x.cmp(y))
        }} }
        for i in 0..KINDS {
            if texts!(boxes[i][0]) != texts!(plain[i]) {
                report::violation("C13", "the debug text of a box is not that of the value stored");
            }
            for j in 0..KINDS {
                let want = ops!(&plain[i], &plain[j]);
                if ops!(&boxes[i][0], &boxes[j][1]) != want || ops!(&boxes[i][0], &boxes[j][0]) != want {
                    report::violation("C12", "comparing boxes differs from comparing the values");
                }
                if ops!(&held[i][0], &held[j][1]) != want || ops!(&held[i][0], &held[j][0]) != want {
                    report::violation("C12", "comparing containers differs from comparing the values");
                }
                report::count("comparisons", 32);
            }
        }
        std::mem::forget(plain);
    }

    /// Runs the history from the start; the operations possible after it.
    fn run<E: Fam>(kind: usize, ops: &[Op]) -> &'static [Op] {
        ledger(|l| *l = Ledger::default());
        if kind == STARTS {
            if std::panic::catch_unwind(pairs::<E>).is_err() {
                report::violation("ANY", format!("comparing or formatting panics: {}", report::last_panic()));
            }
            return &[];
        }
        let n = TOKENS[if kind >= KINDS { kind - KINDS } else { kind }];
        let made = std::panic::catch_unwind(|| if kind >= KINDS { State::<E>::Held(E::payload(kind)) } else { State::Value(E::make(kind)) });
        let mut s = match made {
            Ok(s) => s,
            Err(_) => {
                report::violation("C07", format!("making a container of a payload panics: {}", report::last_panic()));
                return &[];
            }
        };
        let mut alive = judge("making the value", 0, n, 0, 0);
        // The numbers of the tokens of the value held: those of the first, as long as no clone takes its place.
        let mut first: Option<[u32; 2]> = None;
        for op in ops {
            let mut seen = Seen::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(s, *op, kind, &mut seen)));
            let cloned = match r {
                Ok((cloned, next)) => {
                    s = next;
                    cloned
                }
                Err(_) => {
                    report::violation("ANY", format!("{op:?} panics: {}", report::last_panic()));
                    return &[];
                }
            };
            for (tag, same, ids) in seen {
                match (ids, first) {
                    (Err(()), _) => report::violation(tag, format!("{op:?} shows another value than the one stored")),
                    (Ok(i), Some(f)) if n > 0 && f[0] != NOBODY && (i == f) != same => {
                        report::violation(tag, format!("{op:?} shows the payload {}", if same { "of another value" } else { "of the original instead of a clone" }))
                    }
                    (Ok(i), None) if same => first = Some(i),
                    _ => (),
                }
            }
            if matches!(op, BoxFork | ContFork) {
                first = None;
            }
            alive = judge(&format!("{op:?}"), alive, cloned, cloned, cloned);
        }
        let next = match &s {
            State::Value(_) => OF_VALUE,
            State::Boxed(_) => OF_BOX,
            State::Held(_) => OF_CONT,
        };
        // Taken out and destroyed once.
        match s {
            State::Value(v) => drop(v),
            State::Boxed(b) => drop(E::from_tagged_box(b)),
            State::Held(c) => drop(c.into_inner()),
        }
        judge("taking out and dropping", alive, 0, 0, n);
        next
    }

    pub fn main() {
        let c = cli::parse();
        let depth = match (cfg!(miri), c.thorough) {
            (true, t) => 2 + t as usize,
            (false, t) => 4 + t as usize,
        };
        if let Some(o) = &c.only {
            let (m, o) = o.split_once(':').unwrap();
            let v: Vec<usize> = o.split(',').map(|x| x.parse().unwrap()).collect();
            let all: Vec<Op> = OF_VALUE.iter().chain(OF_BOX).chain(OF_CONT).copied().collect();
            every(&mut |name, kind, run| {
                if name == m && kind == v[0] {
                    report::begin_case(&format!("{m}:{o}"));
                    run(kind, &v[1..].iter().map(|k| all[*k]).collect::<Vec<_>>());
                }
            });
            c.done();
        }
        let mut k = 0;
        every(&mut |m, kind, run| {
            k += 1;
            if !c.mine(k) {
                return;
            }
            let mut todo: Vec<Vec<Op>> = vec![vec![]];
            while let Some(h) = todo.pop() {
                let name = h.iter().fold(format!("{m}:{kind}"), |s, o| format!("{s},{}", *o as usize));
                report::begin_case(&name);
                let next = run(kind, &h);
                report::count("histories", 1);
                report::count("transitions", h.len() as u64);
                if h.len() < depth {
                    todo.extend(next.iter().map(|o| h.iter().copied().chain(Some(*o)).collect()));
                }
            }
        });
        c.done()
    }
}
