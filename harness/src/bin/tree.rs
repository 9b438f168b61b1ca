//! C07-C13, C17, C19: values that contain containers of their own kind. Every tree up to a size is built, read,
//! cloned, compared, formatted and taken apart; the library calls itself through the user's types.
use mc::alloc::{self, lib, user, LIB};
use mc::tok::{Payload, Tok};
use mc::{cli, ledger, report};
use std::fmt::{Debug, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

/// Something with a model term that says what it should be.
trait Kind: 'static {
    type C: TaggableContainer + Clone + PartialEq + PartialOrd + Ord + Debug;
    type T: Clone + PartialEq + PartialOrd + Ord + Debug;
    const NAME: &'static str;
    fn terms(size: usize) -> Vec<Self::T>;
    fn build(t: &Self::T) -> Self::C;
    /// Takes everything apart by value, checking it on the way.
    fn consume(c: Self::C, t: &Self::T) -> Result<(), String>;
    /// Looks at everything through nested borrows; calls `at` with every address that holds something.
    fn look(c: &Self::C, t: &Self::T, at: &mut dyn FnMut(usize)) -> Result<(), String>;
    /// Counted values, blocks and clone calls.
    fn toks(t: &Self::T) -> i64;
    fn blocks(t: &Self::T) -> i64;
    /// What the derived Debug of the container gives.
    fn text(t: &Self::T) -> String;
}

fn tok(t: &Tok, v: u8) -> Result<(), String> {
    match t.get()? {
        g if g == v => Ok(()),
        _ => Err("another value than the one stored".into()),
    }
}

/// Borrows the content; the callback must run exactly once.
fn borrowed<I: TaggableInner>(b: &TaggedBox<I>, f: impl FnOnce(&I) -> Result<(), String>) -> Result<(), String> {
    let mut r = Err("the callback does not run".to_string());
    lib(|| unsafe { I::ref_from_tagged_box(b, |i| user(|| r = f(i))) });
    r
}

#[cfg(feature = "big")]
mod tree {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Tree, pub enum Node {
            Nil,
            Val(Tok),
            Neg { inner: Tree },
            Pair(Tree, Tree),
            Cons { head: Tok, tag: u8, tail: Tree },
        }
    }
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub enum T {
        Nil,
        Val(u8),
        Neg(Box<T>),
        Pair(Box<T>, Box<T>),
        Cons(u8, Box<T>),
    }
    pub struct K;
    impl Kind for K {
        type C = Tree;
        type T = T;
        const NAME: &'static str = "tree";
        fn terms(size: usize) -> Vec<T> {
            // by[n]: all terms of n nodes, smallest first.
            let mut by: Vec<Vec<T>> = vec![vec![]];
            for n in 1..=size {
                let mut v = vec![];
                if n == 1 {
                    v.extend([T::Nil, T::Val(0), T::Val(1)]);
                } else {
                    for a in &by[n - 1] {
                        v.push(T::Neg(a.clone().into()));
                    }
                    for l in 1..n - 1 {
                        for a in &by[l] {
                            for b in &by[n - 1 - l] {
                                v.push(T::Pair(a.clone().into(), b.clone().into()));
                            }
                        }
                    }
                    for h in 0..2 {
                        for a in &by[n - 1] {
                            v.push(T::Cons(h, a.clone().into()));
                        }
                    }
                }
                by.push(v);
            }
            by.concat()
        }
        fn build(t: &T) -> Tree {
            match t {
                T::Nil => lib(|| Tree::from(Node::Nil)),
                T::Val(v) => {
                    let t = user(|| Tok::make(*v));
                    lib(|| Tree::from(t))
                }
                T::Neg(a) => {
                    let inner = Self::build(a);
                    lib(|| Tree::from(Node::Neg { inner }))
                }
                T::Pair(a, b) => {
                    let (a, b) = (Self::build(a), Self::build(b));
                    lib(|| Tree::from((a, b)))
                }
                T::Cons(v, a) => {
                    let tail = Self::build(a);
                    let head = user(|| Tok::make(*v));
                    lib(|| Tree::from(Node::Cons { head, tag: 200 + *v, tail }))
                }
            }
        }
        fn consume(c: Tree, t: &T) -> Result<(), String> {
            match (lib(|| c.into_inner()), t) {
                (Node::Nil, T::Nil) => Ok(()),
                (Node::Val(x), T::Val(v)) => user(|| tok(&x, *v)),
                (Node::Neg { inner }, T::Neg(a)) => Self::consume(inner, a),
                (Node::Pair(x, y), T::Pair(a, b)) => {
                    let r = Self::consume(y, b);
                    Self::consume(x, a).and(r)
                }
                (Node::Cons { head, tag, tail }, T::Cons(v, a)) => {
                    user(|| tok(&head, *v))?;
                    if tag != 200 + *v {
                        return Err("a field changed".into());
                    }
                    Self::consume(tail, a)
                }
                (n, _) => {
                    std::mem::forget(n);
                    Err("another variant than the one stored".into())
                }
            }
        }
        fn look(c: &Tree, t: &T, at: &mut dyn FnMut(usize)) -> Result<(), String> {
            if *t != T::Nil {
                at(c.value.as_ptr::<u8>() as usize);
            }
            borrowed(&c.value, |n| match (n, t) {
                (Node::Nil, T::Nil) => Ok(()),
                (Node::Val(x), T::Val(v)) => tok(x, *v),
                (Node::Neg { inner }, T::Neg(a)) => Self::look(inner, a, at),
                (Node::Pair(x, y), T::Pair(a, b)) => {
                    Self::look(x, a, at)?;
                    Self::look(y, b, at)?;
                    Self::look(x, a, &mut |_| ())
                }
                (Node::Cons { head, tag, tail }, T::Cons(v, a)) => {
                    Self::look(tail, a, at)?;
                    tok(head, *v)?;
                    if *tag != 200 + *v {
                        return Err("a field changed".into());
                    }
                    Ok(())
                }
                _ => Err("another variant than the one stored".into()),
            })
        }
        fn toks(t: &T) -> i64 {
            match t {
                T::Nil => 0,
                T::Val(_) => 1,
                T::Neg(a) => Self::toks(a),
                T::Pair(a, b) => Self::toks(a) + Self::toks(b),
                T::Cons(_, a) => 1 + Self::toks(a),
            }
        }
        fn blocks(t: &T) -> i64 {
            match t {
                T::Nil => 0,
                T::Val(_) => 1,
                T::Neg(a) | T::Cons(_, a) => 1 + Self::blocks(a),
                T::Pair(a, b) => 1 + Self::blocks(a) + Self::blocks(b),
            }
        }
        fn text(t: &T) -> String {
            let s = match t {
                T::Nil => "Nil".into(),
                T::Val(v) => format!("Val(Tok{v})"),
                T::Neg(a) => format!("Neg {{ inner: {} }}", Self::text(a)),
                T::Pair(a, b) => format!("Pair({}, {})", Self::text(a), Self::text(b)),
                T::Cons(v, a) => format!("Cons {{ head: Tok{v}, tag: {}, tail: {} }}", 200 + *v, Self::text(a)),
            };
            format!("Tree {{ value: {s} }}")
        }
    }
}

/// A linked list, which fits every width.
mod list {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct List, pub enum Node {
            Nil,
            Cons(Tok, List),
        }
    }
    pub struct K;
    impl Kind for K {
        type C = List;
        type T = Vec<u8>;
        const NAME: &'static str = "list";
        fn terms(size: usize) -> Vec<Vec<u8>> {
            let mut v = vec![vec![]];
            let mut at = 0;
            while v.get(at).is_some_and(|l| l.len() < size) {
                for b in 0..2 {
                    let mut l = v[at].clone();
                    l.push(b);
                    v.push(l);
                }
                at += 1;
            }
            v
        }
        fn build(t: &Vec<u8>) -> List {
            let mut l = lib(|| List::from(Node::Nil));
            for v in t.iter().rev() {
                let h = user(|| Tok::make(*v));
                l = lib(|| List::from((h, l)));
            }
            l
        }
        fn consume(mut c: List, t: &Vec<u8>) -> Result<(), String> {
            let mut r = Ok(());
            for i in 0.. {
                match (lib(|| c.into_inner()), t.get(i)) {
                    (Node::Nil, None) => return r,
                    (Node::Cons(h, l), Some(v)) => {
                        r = r.and(user(|| tok(&h, *v)));
                        user(|| drop(h));
                        c = l;
                    }
                    (n, _) => {
                        std::mem::forget(n);
                        return Err("another variant than the one stored".into());
                    }
                }
            }
            r
        }
        fn look(c: &List, t: &Vec<u8>, at: &mut dyn FnMut(usize)) -> Result<(), String> {
            fn go(c: &List, t: &[u8], at: &mut dyn FnMut(usize)) -> Result<(), String> {
                if !t.is_empty() {
                    at(c.value.as_ptr::<u8>() as usize);
                }
                borrowed(&c.value, |n| match (n, t) {
                    (Node::Nil, []) => Ok(()),
                    (Node::Cons(h, l), [v, rest @ ..]) => {
                        go(l, rest, at)?;
                        tok(h, *v)
                    }
                    _ => Err("another variant than the one stored".into()),
                })
            }
            go(c, t, at)
        }
        fn toks(t: &Vec<u8>) -> i64 {
            t.len() as i64
        }
        fn blocks(t: &Vec<u8>) -> i64 {
            t.len() as i64
        }
        fn text(t: &Vec<u8>) -> String {
            t.iter().rev().fold("List { value: Nil }".into(), |s, v| format!("List {{ value: Cons(Tok{v}, {s}) }}"))
        }
    }
}

/// Starts a case; `end` reports what the ledgers say.
fn case<R>(name: &str, f: impl FnOnce() -> R) {
    report::begin_case(name);
    alloc::begin();
    ledger::begin();
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        let p = report::last_panic();
        report::violation("ANY", format!("unexpected panic: {p}"));
    }
    for p in ledger::problems() {
        report::violation("C08", p);
    }
    for p in alloc::check() {
        report::violation("C09", p);
    }
    report::count("evaluations", 1);
}

fn seen<K: Kind>(c: &K::C, t: &K::T, tag: &str, what: &str) -> Vec<usize> {
    let mut at = vec![];
    if let Err(e) = K::look(c, t, &mut |a| at.push(a)) {
        report::violation(tag, format!("{what}: {e}"));
    }
    at
}

fn one<K: Kind>(t: &K::T) {
    let (toks, blocks) = (K::toks(t), K::blocks(t));
    let mut c = K::build(t);
    if alloc::lib_allocs() as i64 != blocks {
        report::violation("C09", "building a tree does not request exactly one block per value");
    }
    for _ in 0..2 {
        let at = seen::<K>(&c, t, "C07", "a tree as built, borrowed level by level");
        if at.iter().any(|a| !alloc::is_live(*a)) {
            report::violation("C09", "part of a tree is not in a live block");
        }
    }
    if ledger::live() != toks || ledger::destroyed_count() != 0 {
        report::violation("C08", "building or borrowing a tree destroys part of it");
    }
    let text = user(|| K::text(t));
    let got = lib(|| format!("{c:?}"));
    if got != text {
        report::violation("C13", "the text of a tree is not that of its values");
    }
    let (allocs, clones) = (alloc::lib_allocs() as i64, ledger::clones() as i64);
    let d = lib(|| c.clone());
    if alloc::lib_allocs() as i64 - allocs != blocks {
        report::violation("C11", "cloning a tree does not request exactly one block per value");
    }
    if ledger::clones() as i64 - clones != toks {
        report::violation("C11", "cloning a tree does not clone each value exactly once");
    }
    let mut at = seen::<K>(&d, t, "C11", "a cloned tree");
    at.extend(seen::<K>(&c, t, "C11", "a tree after being cloned"));
    let n = at.len();
    at.sort_unstable();
    at.dedup();
    if at.len() != n {
        report::violation("C11", "a cloned tree shares storage with its source");
    }
    if !lib(|| c == d && c <= d && c.cmp(&d).is_eq()) {
        report::violation("C11", "a cloned tree differs from its source");
    }
    // Take the clone apart, then look at the source; and the source after a clone_from.
    if let Err(e) = K::consume(d, t) {
        report::violation("C11", format!("a cloned tree taken apart: {e}"));
    }
    if ledger::live() != toks {
        report::violation(if ledger::live() < toks { "C08" } else { "C10" }, "taking a tree apart does not destroy each value exactly once");
    }
    seen::<K>(&c, t, "C11", "a tree after its clone was taken apart");
    let e = lib(|| {
        let mut e = c.clone();
        e.clone_from(&c);
        std::mem::swap(&mut e, &mut c);
        e
    });
    seen::<K>(&c, t, "C11", "a tree cloned into another");
    for x in [c, e] {
        if let Err(e) = K::consume(x, t) {
            report::violation("C07", format!("a tree taken apart: {e}"));
        }
    }
    // What clone_from() replaced may be left (a listed finding of C10).
    if ledger::live() < 0 || ledger::live() > toks {
        report::violation("C08", "more or fewer values are left than were never taken out");
    }
}

fn two<K: Kind>(s: &K::T, t: &K::T) {
    let (c, d) = (K::build(s), K::build(t));
    let want = (s == t, s.partial_cmp(t), s.cmp(t), s < t, s <= t);
    let got = lib(|| (c == d, c.partial_cmp(&d), c.cmp(&d), c < d, c <= d));
    if got != want {
        report::violation("C12", "comparing two trees does not agree with comparing their values");
    }
    if alloc::lib_allocs() as i64 != K::blocks(s) + K::blocks(t) || ledger::destroyed_count() != 0 || ledger::clones() != 0 {
        report::violation("C12", "comparing two trees allocates, clones or destroys something");
    }
    for (x, y) in [(c, s), (d, t)] {
        seen::<K>(&x, y, "C12", "a tree after a comparison");
        if let Err(e) = K::consume(x, y) {
            report::violation("C07", format!("a tree taken apart: {e}"));
        }
    }
    if ledger::live() != 0 {
        report::violation("C08", "values are left when everything has been taken out");
    }
}

/// Runs every operation with each of its calls into user code panicking in turn.
fn faulty<K: Kind>(t: &K::T) {
    let toks = K::toks(t);
    let c = K::build(t);
    let d = K::build(t);
    let ops: [(&str, &dyn Fn() -> Option<K::C>); 5] = [
        ("clone", &|| Some(lib(|| c.clone()))),
        ("==", &|| lib(|| c == d).then_some(None)?),
        ("cmp", &|| lib(|| c.cmp(&d)).is_eq().then_some(None)?),
        ("Debug", &|| {
            let mut s = String::new();
            let _ = write!(s, "{c:?}");
            None
        }),
        ("ref_from_tagged_box", &|| {
            let _ = K::look(&c, t, &mut |_| ledger::user_call("callback"));
            None
        }),
    ];
    for (what, f) in ops {
        for k in 1..1000 {
            let live = ledger::live();
            let blocks = alloc::live_count(LIB);
            ledger::arm(k);
            let r = catch_unwind(AssertUnwindSafe(f));
            let fired = ledger::disarm();
            report::count("fault_points", fired as u64);
            if fired && r.is_ok() {
                report::violation("C17", format!("a panic in user code called by {what} is swallowed"));
            }
            if let Ok(Some(e)) = r {
                let _ = K::consume(e, t);
            } else if r.is_err() && !fired {
                report::violation("ANY", format!("{what} of a tree panics: {}", report::last_panic()));
                return;
            }
            // Parts of an unfinished clone may be left (dropping a container is a listed finding of C10).
            if ledger::live() < live || alloc::live_count(LIB) < blocks || (what != "clone" && (ledger::live(), alloc::live_count(LIB)) != (live, blocks)) {
                report::violation("C17", format!("a panic in user code called by {what} of a tree changes what is stored"));
            }
            seen::<K>(&c, t, "C17", "a tree after a panic");
            if !fired {
                break;
            }
        }
    }
    for x in [c, d] {
        seen::<K>(&x, t, "C17", "a tree after all panics");
        let before = ledger::live();
        if let Err(e) = K::consume(x, t) {
            report::violation("C17", format!("a tree taken apart after all panics: {e}"));
        }
        if ledger::live() != before - toks {
            report::violation("C17", "taking a tree apart after panics does not destroy each value exactly once");
        }
    }
}

fn all<K: Kind>(c: &cli::Cli, sizes: [usize; 3]) {
    let faults = c.wants("C17");
    let plain = c.prop != "C17";
    let terms = user(|| mc::alloc::untracked(|| sizes.map(K::terms)));
    let go = |name: String, f: &dyn Fn()| {
        if c.only.as_ref().map_or(true, |o| *o == name) {
            case(&name, f)
        }
    };
    let mut n = 0;
    if plain {
        for (i, t) in terms[0].iter().enumerate() {
            n += 1;
            if c.mine(n) {
                go(format!("{}/one:{i}", K::NAME), &|| one::<K>(t));
                report::count("distinct_nontrivial", 1);
                if i % 1009 == 7 {
                    report::sample(format!("{}: {t:?}", K::NAME));
                }
            }
        }
        for (i, s) in terms[1].iter().enumerate() {
            for (j, t) in terms[1].iter().enumerate() {
                n += 1;
                if c.mine(n) {
                    go(format!("{}/two:{i}.{j}", K::NAME), &|| two::<K>(s, t));
                }
            }
        }
        report::count("states", terms[0].len() as u64);
    }
    if faults {
        for (i, t) in terms[2].iter().enumerate() {
            n += 1;
            if c.mine(n) {
                go(format!("{}/faulty:{i}", K::NAME), &|| faulty::<K>(t));
            }
        }
    }
}

fn main() {
    let c = cli::parse();
    let t = c.thorough as usize;
    if cfg!(miri) {
        all::<list::K>(&c, [3, 1, 2]);
        #[cfg(feature = "big")]
        all::<tree::K>(&c, [2 + t, 1 + t, 2]);
        c.done()
    }
    all::<list::K>(&c, [10 + 2 * t, 5 + t, 7 + t]);
    #[cfg(feature = "big")]
    all::<tree::K>(&c, [7 + t, 4 + t, 5 + t]);
    // Long lists: deep recursion through the library.
    let long: Vec<u8> = (0..300).map(|i| (i % 3 == 0) as u8).collect();
    if c.mine(0) && c.only.as_ref().map_or(true, |o| o == "list/long") && c.prop != "C17" {
        case("list/long", || one::<list::K>(&long));
    }
    c.done()
}
