//! C07-C11, C14, C17-C19: histories of enums, tagged boxes and containers.
use harness::fams::*;
use harness::go;
use mc::{alloc, cli, report};
use tagged_box::{TaggableInner, TaggedBox};

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

/// C19: changes made through the borrow to interior-mutable data.
mod cells {
    use super::*;
    use std::cell::{Cell, RefCell};
    tagged_box::tagged_box! {
        pub struct Cont, pub enum Item {
            One(Cell<u8>),
            Many(u8, RefCell<u32>),
        }
    }
    tagged_box::tagged_box! {
        pub struct Cont2, pub enum Item2 {
            S1 { only: Cell<u8> },
            S2 { first: u8, second: RefCell<u32> },
        }
    }
    fn round<E: TaggableInner>(name: &str, e: E, set: impl Fn(&E), get: impl Fn(&E) -> u32) {
        report::begin_case(&format!("cells:{name}"));
        let b = e.into_tagged_box();
        let mut seen = (0, 0);
        unsafe {
            E::ref_from_tagged_box(&b, |i| set(i));
            E::ref_from_tagged_box(&b, |i| seen.0 = get(i));
        }
        seen.1 = get(&E::from_tagged_box(b));
        report::count("histories", 1);
        match seen {
            (7, 7) => (),
            (1, 1) => report::finding("C19", &format!("interior-{name}"), "a change made through the borrow to interior-mutable data is lost"),
            _ => report::violation("C19", format!("interior-mutable data shows {seen:?} after being changed from 1 to 7")),
        }
    }
    /// The same through as_ref of a box that holds the cell itself, of any size.
    fn held<T: Clone + PartialEq + std::fmt::Debug, C>(name: &str, cell: impl Fn(T) -> C, set: impl Fn(&C, T), get: impl Fn(&C) -> T, vals: [T; 3]) {
        for how in 0..3u16 {
            report::begin_case(&format!("cells:{name}/{how}"));
            let v = cell(vals[0].clone());
            let mut b: TaggedBox<u8> = match how {
                0 => TaggedBox::new(v, 1),
                1 => unsafe { TaggedBox::new_unchecked(v, 0) },
                _ => unsafe { TaggedBox::from_raw(Box::into_raw(Box::new(v)), 1) },
            };
            let mut seen = vec![];
            unsafe {
                seen.push(get(b.as_ref::<C>()));
                set(b.as_ref::<C>(), vals[1].clone());
                seen.push(get(b.as_ref::<C>()));
                seen.push(get(&*b.as_ptr::<C>()));
                set(&*b.as_ptr::<C>(), vals[2].clone());
                seen.push(get(b.as_ref::<C>()));
                seen.push(get(b.as_mut_ref::<C>()));
                set(b.as_mut_ref::<C>(), vals[1].clone());
                seen.push(get(&*b.as_mut_ptr::<C>()));
                set(&*b.as_mut_ptr::<C>(), vals[2].clone());
                seen.push(get(b.as_ref::<C>()));
                let at = b.as_ptr::<C>();
                let same = [b.as_ref::<C>() as *const C, b.as_mut_ref::<C>() as *const C, b.as_mut_ptr::<C>() as *const C].iter().all(|p| *p == at);
                let last = TaggedBox::into_inner::<C>(b);
                seen.push(get(&last));
                if !same || seen != [0, 1, 1, 2, 2, 1, 2, 2].map(|i: usize| vals[i].clone()) {
                    report::violation(if cli::prop() == "C07" { "C07" } else { "C19" }, format!("a cell in a box shows {seen:?} through the accessors after changes through references"));
                }
            }
            report::count("histories", 1);
        }
    }
    fn sizes() {
        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        macro_rules! cell { ($($t:ty, $a:expr, $b:expr, $c:expr;)*) => { $(
            held(stringify!($t), Cell::<$t>::new, |c, v| c.set(v), |c| c.get(), [$a, $b, $c]);
        )* } }
        cell!(u8, 1, 2, 3; u16, 1, 0xFFFF, 3; u32, 1, u32::MAX, 3; u64, 1, u64::MAX, 3; u128, 1, u128::MAX, 3; [u8; 3], [1; 3], [2; 3], [3; 3];
            [u64; 3], [1; 3], [2; 3], [3; 3]; bool, false, true, false; (u8, u64), (1, 2), (3, 4), (5, 6); (), (), (), (););
        held("atomic", AtomicUsize::new, |c, v| c.store(v, Relaxed), |c| c.load(Relaxed), [1, usize::MAX, 3]);
        held("refcell", RefCell::<u8>::new, |c, v| *c.borrow_mut() = v, |c| *c.borrow(), [1, 2, 3]);
        held("string", RefCell::<String>::new, |c, v| *c.borrow_mut() = v, |c| c.borrow().clone(), ["a".to_string(), "b".into(), "c".into()]);
        held("boxed", |v| Box::new(Cell::new(v)), |c: &Box<Cell<u64>>, v| c.set(v), |c| c.get(), [1, 2, 3]);
    }
    /// Changed through the box while it is borrowed, at every point of up to three borrows inside each other.
    #[cfg(feature = "big")]
    mod meanwhile {
        use super::*;
        const MAGIC: u64 = 0x5AA5_1234_8765_C33C;
        pub struct Plain(pub Cell<u64>);
        pub struct Dropped(pub Cell<u64>);
        impl Drop for Dropped {
            fn drop(&mut self) {
                self.0.set(0)
            }
        }
        tagged_box::tagged_box! {
            pub struct Cont, pub enum Item {
                One(Cell<u64>),
                OnePlain(Plain),
                OneDropped(Dropped),
                Large([Cell<u64>; 40]),
                Pair(u8, Plain),
                Triple(Dropped, u16, u8),
                S1 { x: Plain },
                S2 { x: u8, y: Plain },
                S3 { x: Dropped, },
                S4 { a: u8, b: u32, x: Dropped, },
            }
        }
        pub const N: usize = 10;
        pub fn make(kind: usize, v: u64) -> Item {
            let (p, d) = (Plain(Cell::new(v)), Dropped(Cell::new(v)));
            match kind {
                0 => Item::One(Cell::new(v)),
                1 => Item::OnePlain(p),
                2 => Item::OneDropped(d),
                3 => Item::Large([const { Cell::new(0) }; 40].map(|_: Cell<u64>| Cell::new(v))),
                4 => Item::Pair(1, p),
                5 => Item::Triple(d, 2, 3),
                6 => Item::S1 { x: p },
                7 => Item::S2 { x: 4, y: p },
                8 => Item::S3 { x: d },
                _ => Item::S4 { a: 5, b: 6, x: d },
            }
        }
        fn show(i: &Item) -> u64 {
            match i {
                Item::One(c) => c.get(),
                Item::OnePlain(p) | Item::Pair(1, p) | Item::S1 { x: p } | Item::S2 { x: 4, y: p } => p.0.get(),
                Item::OneDropped(d) | Item::Triple(d, 2, 3) | Item::S3 { x: d } | Item::S4 { a: 5, b: 6, x: d } => d.0.get(),
                Item::Large(c) => c[39].get(),
                _ => u64::MAX,
            }
        }
        /// The cell within the block, wherever the layout has put it.
        unsafe fn cell(b: &TaggedBox<Item>, kind: usize) -> Option<*const Cell<u64>> {
            let at = b.as_ptr::<u64>();
            let words = if kind == 3 { 39..40 } else { 0..if matches!(kind, 4 | 5 | 7 | 9) { 2 } else { 1 } };
            words.map(|i| at.add(i)).find(|p| p.read_volatile() == MAGIC).map(|p| p as *const Cell<u64>)
        }
        struct Run {
            at: *const Cell<u64>,
            mask: u32,
            point: u32,
            depth: u32,
            now: u64,
            bad: Option<String>,
        }
        impl Run {
            unsafe fn point(&mut self) {
                if self.mask >> self.point & 1 == 1 {
                    self.now += 1;
                    (*self.at).set(self.now);
                }
                self.point += 1;
            }
            unsafe fn level(&mut self, b: &TaggedBox<Item>, level: u32) {
                self.point();
                if level < self.depth {
                    let want = self.now;
                    Item::ref_from_tagged_box(b, |i| {
                        self.expect(show(i), want, "a borrow begins");
                        self.level(b, level + 1);
                    });
                    self.expect((*self.at).get(), self.now, "a borrow ended");
                    self.point();
                }
            }
            fn expect(&mut self, got: u64, want: u64, when: &str) {
                if got != want && self.bad.is_none() {
                    self.bad = Some(format!("{when}: {got} instead of {want}"));
                }
            }
        }
        pub fn run(only: Option<&str>) {
            for kind in 0..N {
                for depth in 1..4 {
                    for mask in 0..1 << (2 * depth + 1) {
                        let case = format!("cells:meanwhile/{kind}/{depth}/{mask:b}");
                        if only.map_or(false, |o| o != case) {
                            continue;
                        }
                        report::begin_case(&case);
                        report::count("histories", 1);
                        alloc::begin();
                        let b = make(kind, MAGIC).into_tagged_box();
                        unsafe {
                            let Some(at) = cell(&b, kind) else {
                                report::count("cells_not_found", 1);
                                continue;
                            };
                            (*at).set(100);
                            let mut r = Run { at, mask, point: 0, depth, now: 100, bad: None };
                            r.level(&b, 0);
                            let now = r.now;
                            r.expect((*at).get(), now, "at the end");
                            r.expect(show(&Item::from_tagged_box(b)), now, "taken out");
                            if let Some(m) = r.bad {
                                report::violation("C19", format!("a cell changed through its box while it is borrowed shows another value when {m}"));
                            }
                        }
                    }
                }
            }
            let _ = Cont::from(Cell::new(0));
        }
    }
    pub fn run(only: Option<&str>) {
        #[cfg(feature = "big")]
        if !cfg!(miri) {
            meanwhile::run(only);
        }
        let _ = only;
        sizes();
        let set = |i: &Item| match i {
            Item::One(c) => c.set(7),
            Item::Many(_, c) => *c.borrow_mut() = 7,
        };
        let get = |i: &Item| match i {
            Item::One(c) => c.get() as u32,
            Item::Many(_, c) => *c.borrow(),
        };
        round("tuple1", Item::One(Cell::new(1)), set, get);
        round("tuple", Item::Many(0, RefCell::new(1)), set, get);
        let set = |i: &Item2| match i {
            Item2::S1 { only } => only.set(7),
            Item2::S2 { second, .. } => *second.borrow_mut() = 7,
        };
        let get = |i: &Item2| match i {
            Item2::S1 { only } => only.get() as u32,
            Item2::S2 { second, .. } => *second.borrow(),
        };
        round("struct1", Item2::S1 { only: Cell::new(1) }, set, get);
        round("struct", Item2::S2 { first: 0, second: RefCell::new(1) }, set, get);
    }
}

fn main() {
    let c = cli::parse();
    let mut n = 0;
    let miri = cfg!(miri);
    let all = |n: usize| (0..n).collect::<Vec<usize>>();
    let refuse = c.wants("C18") && !miri;
    let faults = c.wants("C17");
    let plain = c.prop != "C17" && c.prop != "C18";
    let t = c.thorough as usize;
    if faults {
        go!(c, n, narrow::Narrow, 2, &all(2), "fe", 0);
        go!(c, n, manual::Manual, 2, &all(manual::Manual::N), "fe", 0);
        go!(c, n, narrow::Narrow, 2, &[0], "fe", 5 + t);
        go!(c, n, narrow::Narrow, 2, &[1], "f", 5 + t);
    }
    if refuse {
        go!(c, n, narrow::Narrow, 2, &all(2), "re", 0);
        go!(c, n, manual::Manual, 2, &all(manual::Manual::N), "re", 0);
    }
    if plain {
        go!(c, n, narrow::Narrow, 2, &all(2), "e", 0);
        go!(c, n, manual::Manual, 2, &all(manual::Manual::N), "e", 0);
        if !miri {
            go!(c, n, narrow::Narrow, 3, &all(2), "e", 0);
            go!(c, n, narrow::Narrow, 2, &all(2), "ed", 0);
            go!(c, n, manual::Manual, 2, &[0], "ed", 0);
            go!(c, n, narrow::Narrow, 1, &all(2), "p", 2 + t);
            go!(c, n, manual::Manual, 1, &all(manual::Manual::N), "p", 2 + t);
            go!(c, n, narrow::Narrow, 2, &[0], "p", 2);
            go!(c, n, narrow::Narrow, 2, &[1], "p", 2);
        }
        go!(c, n, narrow::Narrow, 2, &[0], "", if miri { 2 } else { 6 + t });
        go!(c, n, narrow::Narrow, 2, &[1], "", if miri { 2 } else { 6 + t });
        go!(c, n, narrow::Narrow, 2, &[1], "e", if miri { 2 } else { 5 + t });
        go!(c, n, manual::Manual, 2, &[1], "", if miri { 2 } else { 5 + t });
        if c.only.is_none() && c.mine(0) {
            cells::run(None);
        }
    }
    #[cfg(feature = "big")]
    {
        use wide::Wide;
        if faults {
            go!(c, n, Wide, 2, &[0, 1, 4, 5, 6, 7], "fe", 0);
            go!(c, n, Wide, 2, &[2, 3, 8], "fe", 0);
        }
        if refuse {
            go!(c, n, Wide, 2, &[1, 4, 5], "re", 0);
            go!(c, n, Wide, 2, &[3, 7], "re", 0);
            go!(c, n, Wide, 2, &[0, 2, 6, 8], "re", 0);
        }
        if plain {
            if miri && !c.thorough {
                // One variant at a time: the interpreter is slow.
                for v in 0..9 {
                    go!(c, n, Wide, 2, &[v], "e", 0);
                }
            } else {
                go!(c, n, Wide, 2, &all(9), "e", 0);
            }
            if !miri {
                go!(c, n, Wide, 2, &[1, 4], "ed", 0);
                go!(c, n, Wide, 1, &all(9), "p", 2 + t);
                go!(c, n, Wide, 2, &[4], "p", 2);
            }
            go!(c, n, Wide, 2, &[4], "", if miri { 2 } else { 6 + t });
            go!(c, n, Wide, 2, &[5], "", if miri { 2 } else { 6 + t });
            go!(c, n, Wide, 2, &[7], "e", if miri { 2 } else { 5 + t });
            if c.thorough && !miri {
                go!(c, n, Wide, 3, &[0, 4, 5], "e", 0);
                go!(c, n, Wide, 3, &[1, 7, 3], "e", 0);
            }
        }
    }
    if let Some(o) = &c.only {
        if o.starts_with("cells:") {
            cells::run(Some(o));
        }
    }
    c.done()
}
