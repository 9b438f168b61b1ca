//! C25: hand-written implementations of the traits: every assignment of discriminants to variants, several ways to
//! store a value, all pairs of values through every operator.
use mc::alloc::{self, lib, user, LIB};
use mc::tok::{Payload, Tok, Z16};
use mc::{cli, ledger, report};
use std::fmt::Debug;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use tagged_box::discriminant::{Discriminant, MAX_DISCRIMINANT};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

const TAG: &str = "C25";
const VARS: usize = 4;
/// The discriminants in use, one per variant.
static TABLE: [AtomicU32; VARS] = [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];
fn disc(var: usize) -> Discriminant {
    TABLE[var].load(Relaxed) as Discriminant
}
/// The variant of a discriminant. Where there are fewer discriminants than variants only the first ones are used.
fn variant(d: Discriminant) -> usize {
    (0..vars()).find(|v| disc(*v) == d).unwrap_or_else(|| panic!("no variant of this discriminant"))
}
fn vars() -> usize {
    VARS.min(MAX_DISCRIMINANT as usize + 1)
}

/// M: how a value is stored.
/// 0: the payload by `new`, nothing for the unit variant; 1: the payload in a standard box; 2: the whole enum;
/// 3: the payload by `new_unchecked`, taken out as a raw pointer; 4: the whole enum in a standard box.
const MODES: u8 = 5;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Item<const M: u8> {
    P(Tok),
    S { n: u64, t: Tok },
    U,
    Z(Z16),
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Cont<const M: u8> {
    value: TaggedBox<Item<M>>,
}
impl<const M: u8> Item<M> {
    fn make(var: usize, v: u8) -> Self {
        match var {
            0 => Item::P(Tok::make(v)),
            1 => Item::S { n: !(v as u64), t: Tok::make(v) },
            2 => Item::U,
            _ => Item::Z(Z16::make(v)),
        }
    }
    fn var(&self) -> usize {
        match self {
            Item::P(_) => 0,
            Item::S { .. } => 1,
            Item::U => 2,
            Item::Z(_) => 3,
        }
    }
    fn is(&self, var: usize, v: u8) -> bool {
        self.var() == var
            && match self {
                Item::P(t) => t.get() == Ok(v),
                Item::S { n, t } => *n == !(v as u64) && t.get() == Ok(v),
                Item::U => true,
                Item::Z(z) => z.get().is_ok(),
            }
    }
}
fn put<T, const M: u8>(t: T, d: Discriminant) -> TaggedBox<Item<M>> {
    match M {
        1 | 4 => {
            let b = Box::into_raw(Box::new(t));
            unsafe { TaggedBox::from_raw(b, d) }
        }
        3 => unsafe { TaggedBox::new_unchecked(t, d) },
        _ => TaggedBox::new(t, d),
    }
}
unsafe fn take<T, const M: u8>(b: TaggedBox<Item<M>>) -> T {
    match M {
        1 | 4 => *TaggedBox::into_box::<T>(b),
        3 => *Box::from_raw(TaggedBox::into_raw::<T>(b)),
        _ => TaggedBox::into_inner::<T>(b),
    }
}
impl<const M: u8> TaggableInner for Item<M> {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let d = disc(self.var());
        if M == 2 || M == 4 {
            return put(self, d);
        }
        match self {
            Item::P(t) => put(t, d),
            Item::S { n, t } => put((n, t), d),
            Item::U if M == 0 => TaggedBox::dangling::<()>(d),
            Item::U => put((), d),
            Item::Z(z) => put(z, d),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        let v = variant(b.discriminant());
        unsafe {
            if M == 2 || M == 4 {
                return take(b);
            }
            match v {
                0 => Item::P(take(b)),
                1 => {
                    let (n, t) = take(b);
                    Item::S { n, t }
                }
                2 if M == 0 => Item::U,
                2 => {
                    take::<(), M>(b);
                    Item::U
                }
                _ => Item::Z(take(b)),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, f: F) {
        let v = variant(b.discriminant());
        if M == 2 {
            return f(b.as_ref::<Self>());
        }
        if M == 4 {
            return f(&*b.as_ptr::<Self>());
        }
        let i = ManuallyDrop::new(match v {
            0 => Item::P(b.as_ptr::<Tok>().read()),
            1 => {
                let (n, t) = b.as_ptr::<(u64, Tok)>().read();
                Item::S { n, t }
            }
            2 => Item::U,
            _ => Item::Z(b.as_ptr::<Z16>().read()),
        });
        f(&i)
    }
}
impl<const M: u8> TaggableContainer for Cont<M> {
    type Inner = Item<M>;
    fn into_inner(self) -> Item<M> {
        Item::from_tagged_box(self.value)
    }
}
impl<const M: u8> From<Item<M>> for Cont<M> {
    fn from(i: Item<M>) -> Self {
        Cont { value: i.into_tagged_box() }
    }
}

fn bad(what: impl AsRef<str>) {
    report::violation(TAG, what)
}
/// Borrows the value; exactly one call.
fn seen<const M: u8>(b: &TaggedBox<Item<M>>, (var, v): (usize, u8), what: &str) {
    let mut calls = 0;
    let mut ok = false;
    lib(|| unsafe {
        Item::ref_from_tagged_box(b, |i| {
            calls += 1;
            ok = i.is(var, v)
        })
    });
    if calls != 1 || !ok || b.discriminant() != disc(var) {
        bad(format!("{what}: the box does not show the value stored"))
    }
}
fn values() -> impl Iterator<Item = (usize, u8)> {
    (0..vars()).flat_map(|v| (0..if v < 2 { 2 } else { 1 }).map(move |x| (v, x)))
}
fn has_toks(var: usize) -> i64 {
    (var != 2) as i64
}

/// Everything that takes one value.
fn one<const M: u8>(a: (usize, u8)) {
    let toks = has_toks(a.0);
    let plain = user(|| Item::<M>::make(a.0, a.1));
    let text = user(|| (format!("{plain:?}"), format!("{plain:#?}"), format!("Cont {{ value: {plain:?} }}")));
    let b = user(|| Item::<M>::make(a.0, a.1));
    let blocks = alloc::live_count(LIB);
    let b = lib(|| b.into_tagged_box());
    let at = b.as_ptr::<u8>() as usize;
    seen(&b, a, "as stored");
    seen(&b, a, "borrowed again");
    let got = lib(|| (format!("{b:?}"), format!("{b:#?}")));
    if (&got.0, &got.1) != (&text.0, &text.1) {
        bad("the text of a box is not that of its value");
    }
    drop(got);
    let (live, clones, allocs) = (ledger::live(), ledger::clones(), alloc::live_count(LIB));
    let c = lib(|| b.clone());
    if ledger::live() - live != toks || ledger::clones() - clones != toks as u64 || alloc::live_count(LIB) - allocs != allocs - blocks {
        bad("clone() does not clone the value exactly once into storage of its own");
    }
    if allocs > blocks && (c.as_ptr::<u8>() as usize == at || !alloc::is_live(c.as_ptr::<u8>() as usize)) {
        bad("a clone shares the storage of its source");
    }
    seen(&c, a, "a clone");
    seen(&b, a, "after clone()");
    if !lib(|| b == c && !(b != c) && c.cmp(&b).is_eq()) {
        bad("a clone is not equal to its source");
    }
    let i = lib(|| Item::from_tagged_box(c));
    if !user(|| i.is(a.0, a.1)) {
        bad("a value taken out of a clone is not the one stored");
    }
    drop(i);
    seen(&b, a, "after its clone was taken apart");
    let c = Cont { value: b };
    let got = lib(|| format!("{c:?}"));
    if got != text.2 {
        bad("the text of a container is not that of its value");
    }
    drop(got);
    let d = lib(|| c.clone());
    if !lib(|| c == d) {
        bad("a cloned container is not equal to its source");
    }
    for x in [d, c] {
        let i = lib(|| x.into_inner());
        if !user(|| i.is(a.0, a.1)) {
            bad("a value taken out of a container is not the one stored");
        }
        let x = lib(|| Cont::from(i));
        let i = lib(|| x.into_inner());
        if !user(|| i.is(a.0, a.1)) {
            bad("a value stored again is not the one stored");
        }
    }
    if ledger::live() != toks {
        bad("values are left, or missing, when everything has been taken out");
    }
    drop(plain);
    user(|| drop(text));
    // The standard boxes free what they hold; into_inner() leaves the block (a listed finding of C10).
    if matches!(M, 1 | 3 | 4) && alloc::live_count(LIB) != blocks {
        bad("memory is left when everything has been taken out as standard boxes");
    }
}

/// Every operator on a pair.
fn two<const M: u8>(a: (usize, u8), b: (usize, u8)) {
    let (p, q) = user(|| (Item::<M>::make(a.0, a.1), Item::<M>::make(b.0, b.1)));
    let want = user(|| (p == q, p != q, p.partial_cmp(&q), p.cmp(&q), p < q, p <= q, p > q, p >= q));
    let (x, y) = lib(|| (Cont::from(p), Cont::from(q)));
    let (live, dead, blocks) = (ledger::live(), ledger::destroyed_count(), alloc::live_count(LIB));
    {
        let (p, q) = (&x.value, &y.value);
        let got = lib(|| (p == q, p != q, p.partial_cmp(q), p.cmp(q), p < q, p <= q, p > q, p >= q));
        if got != want {
            bad("comparing two boxes does not agree with comparing their values");
        }
        let (p, q) = (&x, &y);
        let got = lib(|| (p == q, p != q, p.partial_cmp(q), p.cmp(q), p < q, p <= q, p > q, p >= q));
        if got != want {
            bad("comparing two containers does not agree with comparing their values");
        }
    }
    if (live, dead, blocks) != (ledger::live(), ledger::destroyed_count(), alloc::live_count(LIB)) {
        bad("a comparison allocates, clones or destroys something");
    }
    let mut z = lib(|| x.clone());
    lib(|| z.clone_from(&y));
    seen(&z.value, b, "after clone_from()");
    seen(&x.value, a, "after comparisons");
    seen(&y.value, b, "after comparisons");
    for (x, a) in [(x, a), (y, b), (z, b)] {
        let i = lib(|| x.into_inner());
        if !user(|| i.is(a.0, a.1)) {
            bad("a value taken out after comparisons is not the one stored");
        }
    }
}

/// A discriminant the implementation does not know: its panic arrives, and nothing is touched.
fn unknown<const M: u8>(d: Discriminant) {
    let u = TaggedBox::<Item<M>>::dangling::<u64>(d);
    let k = lib(|| user(|| Item::<M>::make(0, 1)).into_tagged_box());
    let tries: [(&str, &dyn Fn()); 9] = [
        ("clone", &|| std::mem::forget(u.clone())),
        ("== on the left", &|| drop(u == k)),
        ("== on the right", &|| drop(k == u)),
        ("partial_cmp", &|| drop(k.partial_cmp(&u))),
        ("cmp", &|| drop(u.cmp(&k))),
        ("Debug", &|| {
            let _ = format!("{u:?}");
        }),
        ("a borrow", &|| unsafe { Item::ref_from_tagged_box(&u, |_| bad("the callback runs for an unknown discriminant")) }),
        ("a borrow in a borrow", &|| unsafe {
            Item::ref_from_tagged_box(&k, |_| Item::ref_from_tagged_box(&u, |_| bad("the callback runs for an unknown discriminant")))
        }),
        ("from_tagged_box", &|| std::mem::forget(Item::from_tagged_box(TaggedBox::<Item<M>>::dangling::<u64>(d)))),
    ];
    for (what, f) in tries {
        let (live, dead, blocks) = (ledger::live(), ledger::destroyed_count(), alloc::live_count(LIB));
        if catch_unwind(AssertUnwindSafe(|| lib(f))).is_ok() {
            bad(format!("{what}: the panic of the implementation does not arrive"));
        }
        if (live, dead) != (ledger::live(), ledger::destroyed_count()) || blocks > alloc::live_count(LIB) {
            bad(format!("{what}: something was destroyed on the way out of a panic"));
        }
    }
    seen(&k, (0, 1), "after panics");
    let i = lib(|| Item::from_tagged_box(k));
    if !user(|| i.is(0, 1)) {
        bad("a value taken out after panics is not the one stored");
    }
}

fn case(c: &cli::Cli, name: &str, f: impl Fn()) {
    if c.only.as_ref().is_some_and(|o| o != name) {
        return;
    }
    report::begin_case(name);
    alloc::begin();
    ledger::begin();
    if catch_unwind(AssertUnwindSafe(&f)).is_err() {
        bad(format!("unexpected panic: {}", report::last_panic()));
    }
    for p in ledger::problems() {
        bad(p);
    }
    for p in alloc::check() {
        bad(p);
    }
}

fn all<const M: u8>(c: &cli::Cli, name: &str) {
    for a in values() {
        case(c, &format!("{name}/m{M}/one:{}.{}", a.0, a.1), || one::<M>(a));
        case(c, &format!("{name}/m{M}/two:{}.{}", a.0, a.1), || {
            for b in values() {
                two::<M>(a, b);
                report::count("transitions", 1);
            }
        });
        report::count("evaluations", 1 + values().count() as u64);
    }
}
fn others<const M: u8>(c: &cli::Cli, name: &str, d: Discriminant) {
    case(c, &format!("{name}/m{M}/unknown:{d}"), || unknown::<M>(d));
    report::count("evaluations", 1);
}

/// A struct, and a generic enum, as implementors.
struct Alone<T: 'static>(T);
impl<T: 'static> TaggableInner for Alone<T> {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        TaggedBox::new(self, disc(0))
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        assert!(b.discriminant() == disc(0));
        unsafe { TaggedBox::into_inner(b) }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, f: F) {
        f(b.as_ref())
    }
}
macro_rules! through {
    ($($tr:ident $b:ident),*) => { $( impl<T: $tr> $tr for Alone<T> { through!(@ $b); } )* };
    (@ clone) => { fn clone(&self) -> Self { Alone(self.0.clone()) } };
    (@ eq) => { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } };
    (@ partial_cmp) => { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } };
    (@ fmt) => { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } };
}
through! { Clone clone, PartialEq eq, PartialOrd partial_cmp, Debug fmt }
fn alone<T: Clone + PartialEq + PartialOrd + Debug + 'static>(vs: &[T]) {
    for a in vs {
        for b in vs {
            let (x, y) = lib(|| (Alone(user(|| a.clone())).into_tagged_box(), Alone(user(|| b.clone())).into_tagged_box()));
            let got = lib(|| (x == y, x != y, x.partial_cmp(&y), x < y, x <= y, x > y, x >= y));
            if got != user(|| (a == b, a != b, a.partial_cmp(b), a < b, a <= b, a > b, a >= b)) {
                bad("comparing two boxes of a struct does not agree with comparing the structs");
            }
            let (t, want) = (lib(|| format!("{x:?}")), user(|| format!("{a:?}")));
            if t != want {
                bad("the text of a box of a struct is not that of the struct");
            }
            let z = lib(|| y.clone());
            let mut ok = 0;
            unsafe { Alone::ref_from_tagged_box(&z, |v| ok += (v.0.partial_cmp(b) == b.partial_cmp(b)) as u8) };
            let (p, q, r) = lib(|| (Alone::from_tagged_box(x).0, Alone::from_tagged_box(y).0, Alone::from_tagged_box(z).0));
            if ok != 1 || (&p).partial_cmp(&a) != a.partial_cmp(a) || q.partial_cmp(b) != b.partial_cmp(b) || r.partial_cmp(b) != b.partial_cmp(b) {
                bad("a struct taken out is not the one stored");
            }
        }
    }
}

/// Several variants that hold nothing, next to one that does. M: how nothing is stored.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Nothing<const M: u8> {
    A,
    B,
    C,
    V(u8),
}
impl<const M: u8> Nothing<M> {
    fn make(var: usize) -> Self {
        match var {
            0 => Nothing::A,
            1 => Nothing::B,
            2 => Nothing::C,
            v => Nothing::V((v as u8 - 3) * 255),
        }
    }
}
impl<const M: u8> TaggableInner for Nothing<M> {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let (var, v) = match self {
            Nothing::A => (0, 0),
            Nothing::B => (1, 0),
            Nothing::C => (2, 0),
            Nothing::V(v) => (3, v),
        };
        let d = disc(var);
        match (M, var) {
            (_, 3) => TaggedBox::new(v, d),
            (0, _) | (4, 0) => TaggedBox::dangling::<()>(d),
            (1, _) | (4, 1) => TaggedBox::dangling::<u64>(d),
            (2, _) => TaggedBox::dangling::<Self>(d),
            _ => TaggedBox::new((), d),
        }
    }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        match variant(b.discriminant()) {
            3 => Nothing::V(unsafe { TaggedBox::into_inner(b) }),
            v => Nothing::make(v),
        }
    }
    unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, f: F) {
        f(&match variant(b.discriminant()) {
            3 => Nothing::V(*b.as_ptr::<u8>()),
            v => Nothing::make(v),
        })
    }
}
fn nothing<const M: u8>(c: &cli::Cli, name: &str) {
    case(c, &format!("{name}/nothing{M}"), || {
        let n = if vars() > 3 { 5 } else { vars() };
        for i in 0..n {
            let (x, p) = (Nothing::<M>::make(i).into_tagged_box(), Nothing::<M>::make(i));
            if lib(|| format!("{x:?} {x:#?} {x:>9?}")) != user(|| format!("{p:?} {p:#?} {p:>9?}")) {
                bad("the text of a box that holds nothing is not that of the value");
            }
            let k = lib(|| x.clone());
            if k.discriminant() != x.discriminant() || k != x || lib(|| Nothing::from_tagged_box(k)) != p {
                bad("the clone of a box that holds nothing is not the value");
            }
            for j in 0..n {
                let (y, q) = (Nothing::<M>::make(j).into_tagged_box(), Nothing::<M>::make(j));
                let got = lib(|| (x == y, x != y, x.partial_cmp(&y), x < y, x <= y, x > y, x >= y, x.cmp(&y)));
                if got != (p == q, p != q, p.partial_cmp(&q), p < q, p <= q, p > q, p >= q, p.cmp(&q)) {
                    bad("comparing two boxes that hold nothing does not agree with comparing the values");
                }
                lib(|| Nothing::from_tagged_box(y));
                report::count("evaluations", 1);
            }
            if x.discriminant() != disc(i.min(3)) || lib(|| Nothing::from_tagged_box(x)) != p {
                bad("a value that holds nothing does not come back");
            }
        }
    })
}

/// All assignments of distinct members of `set` to the variants.
fn assignments(set: &[u32], n: usize, f: &mut dyn FnMut(&[u32])) {
    fn go(set: &[u32], n: usize, at: &mut Vec<u32>, f: &mut dyn FnMut(&[u32])) {
        if at.len() == n {
            return f(at);
        }
        for d in set {
            if !at.contains(d) {
                at.push(*d);
                go(set, n, at, f);
                at.pop();
            }
        }
    }
    go(set, n, &mut Vec::new(), f)
}

fn main() {
    let c = cli::parse();
    let max = MAX_DISCRIMINANT as u32;
    let mut set: Vec<u32> = if max < 16 {
        (0..=max).collect()
    } else {
        let mut s = vec![0, 1, 2, 3, max, max - 1, max / 2, max / 2 + 1, 7, 8, 127, 128, 255, 256, 257];
        s.extend((0..).map(|b| 1u32 << b).take_while(|d| *d <= max));
        s.extend((0..).map(|b| 1u32 << b).take_while(|d| *d <= max).map(|d| max ^ d));
        s.retain(|d| *d <= max);
        s.sort_unstable();
        s.dedup();
        s
    };
    // Keep the ends and the middle.
    let n = if cfg!(miri) { 1 } else if c.thorough { 10 } else { 5 };
    let k = set.len();
    if cfg!(miri) || (max >= 16 && k > 2 * n + 4) {
        let m = if cfg!(miri) { 1 } else { 2 };
        let mut s: Vec<u32> = set[..n].to_vec();
        s.extend(&set[k / 2 - m..k / 2 + m]);
        s.extend(&set[k - n - !cfg!(miri) as usize..]);
        s.sort_unstable();
        s.dedup();
        set = s;
    }
    let mut n = 0;
    assignments(&set, vars(), &mut |a| {
        n += 1;
        if !c.mine(n) {
            return;
        }
        let name = a.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(".");
        if c.only.as_ref().is_some_and(|o| !o.starts_with(&format!("{name}/"))) {
            return;
        }
        for (t, d) in TABLE.iter().zip(a) {
            t.store(*d, Relaxed);
        }
        all::<0>(&c, &name);
        nothing::<0>(&c, &name);
        nothing::<4>(&c, &name);
        if !cfg!(miri) || c.thorough {
            nothing::<1>(&c, &name);
            nothing::<2>(&c, &name);
            nothing::<3>(&c, &name);
        }
        // Every way to store for all assignments up to rotation; the plain way for all.
        if c.thorough || c.only.is_some() || a.iter().min() == a.first() {
            all::<1>(&c, &name);
            all::<2>(&c, &name);
            all::<3>(&c, &name);
            all::<4>(&c, &name);
        }
        for d in &set {
            if !a.contains(d) && (c.thorough || c.only.is_some() || n % 7 == 0) {
                others::<0>(&c, &name, *d as Discriminant);
                others::<2>(&c, &name, *d as Discriminant);
                others::<4>(&c, &name, *d as Discriminant);
            }
        }
        report::count("states", 1);
        report::count("distinct_nontrivial", 1);
        report::count("histories", 1);
    });
    for (i, d) in set.iter().enumerate() {
        if !c.mine(i) {
            continue;
        }
        TABLE[0].store(*d, Relaxed);
        case(&c, &format!("alone:{d}"), || {
            alone(&[0u8, 7, 255]);
            alone(&[0.5f64, -0.0, 0.0, f64::INFINITY]);
            alone(&[(), ()]);
            alone(&[[0u128, 9], [u128::MAX, 0]]);
            let v = user(|| [Tok::make(0), Tok::make(1)]);
            alone(&v);
            drop(v);
            let v = user(|| [vec![String::from("a")], vec![]]);
            alone(&v);
            user(|| drop(v));
            if ledger::live() != 0 {
                bad("values are left, or missing, when everything has been taken out");
            }
        });
        report::count("evaluations", 80);
    }
    let _ = MODES;
    report::count("evaluations", 0);
    c.done()
}
