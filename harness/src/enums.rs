//! Histories of enums, tagged boxes and containers.
//!
//! World: two or three slots, each empty or holding an enum value, a tagged box or a container.
use crate::fams::*;
use mc::alloc::{self, lib, user, LIB};
use mc::explore::World;
use mc::{ledger, report};
use std::fmt::Write;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::discriminant::POINTER_WIDTH;
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Item,
    Boxed,
    Cont,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum S {
    Empty,
    Has(K, usize, u8),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Model {
    s: Vec<S>,
    faulted: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Make(usize, usize, u8),
    MakeCont(usize, usize, u8),
    ToBox(usize),
    FromBox(usize),
    ToCont(usize),
    ContInto(usize),
    Wrap(usize),
    Unwrap(usize),
    ViaBox(usize),
    ViaRaw(usize),
    Set(usize, Way),
    Ref(usize),
    RefTwo(usize, usize),
    RefDeep(usize, usize),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    Cmp(usize, usize),
    Fmt(usize),
    Drop(usize),
    Swap,
    FaultClone(usize),
    FaultCmp(usize, usize),
    FaultFmt(usize),
    FaultRef(usize),
    RefuseBox(usize),
    RefuseCont(usize),
    RefuseClone(usize),
}
use Op::*;

pub enum R<F: Fam> {
    Empty,
    Item(F::I),
    Boxed(TaggedBox<F::I>),
    Cont(F::C),
}

pub struct Real<F: Fam> {
    s: Vec<R<F>>,
    left_blocks: usize,
    left_values: i64,
}

pub struct Enums<F> {
    slots: usize,
    vars: Vec<usize>,
    faults: bool,
    refuse: bool,
    /// Look at everything after every operation (otherwise only at the end).
    each: bool,
    /// Offer borrows nested more than two deep.
    deep: bool,
    _f: PhantomData<F>,
}

/// A fixed-size text, so that formatting needs no memory.
pub struct Text([u8; 200], usize);
impl Text {
    pub fn new() -> Self {
        Text([0; 200], 0)
    }
    pub fn as_str(&self) -> &str {
        std::str::from_utf8(&self.0[..self.1]).unwrap_or("?")
    }
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let e = self.1 + s.len();
        if e > 200 {
            return Err(std::fmt::Error);
        }
        self.0[self.1..e].copy_from_slice(s.as_bytes());
        self.1 = e;
        Ok(())
    }
}

struct Before {
    blocks: i64,
    allocs: usize,
    live: i64,
    destroyed: usize,
    clones: u64,
}
fn before() -> Before {
    Before { blocks: alloc::live_count(LIB) as i64, allocs: alloc::lib_allocs(), live: ledger::live(), destroyed: ledger::destroyed_count(), clones: ledger::clones() }
}

fn opname(op: Op, k: Option<K>) -> String {
    let s = format!("{op:?}");
    let s = s.split('(').next().unwrap();
    let k = match k {
        Some(K::Item) => " of an enum value",
        Some(K::Boxed) => " of a tagged box",
        Some(K::Cont) => " of a container",
        None => "",
    };
    format!("{s}{k}")
}

impl<F: Fam> Enums<F> {
    fn value(&self, tag: &str, got: Result<(usize, u8), String>, var: usize, v: u8, how: &str) {
        match got {
            Ok((gvar, gv)) if gvar == var && (gv == v || !F::shape(var).valued) => (),
            Ok((gvar, _)) if gvar != var => report::violation(tag, format!("{how} shows another variant than the one stored")),
            Ok(_) => report::violation(tag, format!("{how} shows another value than the last one stored")),
            Err(e) => report::violation(tag, format!("{how}: {e}")),
        }
    }
    fn look_box(&self, b: &TaggedBox<F::I>, var: usize, v: u8) {
        let sh = F::shape(var);
        if b.discriminant() as u32 != sh.disc {
            report::violation("C07", "the discriminant of a box is not the one its variant is stored under");
        }
        let word: u64 = unsafe { std::mem::transmute_copy(b) };
        let addr = b.as_ptr::<u8>() as usize;
        if word != (sh.disc as u64) << POINTER_WIDTH | addr as u64 {
            report::violation("C22", "the word held is not the address combined with the discriminant");
        }
        if sh.size > 0 {
            match alloc::block_at(addr) {
                Some(k) if k.size >= sh.size && k.size <= sh.size + 3 * sh.align && k.align == sh.align && addr % sh.align == 0 => (),
                Some(_) => report::violation("C09", "the block of a box does not have the layout of its value"),
                None => report::violation("C09", "the address of a box is not a live block"),
            }
        } else if addr == 0 || addr % sh.align != 0 {
            report::violation("C07", "the address of a box is null or not aligned for its type");
        }
        let (mut calls, destroyed, live) = (0, ledger::destroyed_count(), ledger::live());
        lib(|| unsafe {
            F::I::ref_from_tagged_box(b, |i| {
                user(|| {
                    calls += 1;
                    self.value("C19", F::read(i), var, v, "a borrow");
                })
            })
        });
        if calls != 1 {
            report::violation("C19", "the callback does not run exactly once");
        }
        if ledger::destroyed_count() != destroyed || ledger::live() != live {
            report::violation("C08", "borrowing destroys a value");
        }
        let again: u64 = unsafe { std::mem::transmute_copy(b) };
        if again != word {
            report::violation("C19", "borrowing changes the box");
        }
    }
    fn look(&self, r: &R<F>, m: S) {
        match (r, m) {
            (R::Empty, S::Empty) => (),
            (R::Item(i), S::Has(K::Item, var, v)) => self.value("C07", F::read(i), var, v, "an enum value taken out"),
            (R::Boxed(b), S::Has(K::Boxed, var, v)) => self.look_box(b, var, v),
            (R::Cont(c), S::Has(K::Cont, var, v)) => self.look_box(F::tagged(c), var, v),
            _ => panic!("HARNESS: model and reality out of step"),
        }
    }
    /// What changed must be exactly this; `keeps` names the listed finding about what stays behind.
    fn account(&self, r: &mut Real<F>, op: Op, k: Option<K>, b: &Before, db: i64, dv: i64, dd: i64, keeps: Option<&str>) {
        let (gb, gv) = (alloc::live_count(LIB) as i64 - b.blocks, ledger::live() - b.live);
        let gd = (ledger::destroyed_count() - b.destroyed) as i64;
        if gb != db {
            if gb < db {
                report::violation("C09", format!("{} releases storage that is still in use", opname(op, k)));
            } else if let (Some(s), 1) = (keeps, gb - db) {
                r.left_blocks += 1;
                report::finding("C10", &format!("{s}-keeps-block"), format!("{} leaves the block of the value allocated for good", opname(op, k)));
            } else {
                report::violation("C10", format!("{} leaves storage behind", opname(op, k)));
            }
        }
        if gv != dv || gd != dd {
            if gv < dv || gd > dd {
                report::violation("C08", format!("{} destroys a value", opname(op, k)));
            } else if let (Some(s), 0, 0, true) = (keeps, gv, gd, dd > 0) {
                r.left_values -= dv;
                report::finding("C10", &format!("{s}-keeps-value"), format!("{} never destroys the value", opname(op, k)));
            } else {
                report::violation("C10", format!("{} leaves a value undestroyed", opname(op, k)));
            }
        }
    }
    /// Destroys a box's value; the block may stay (a listed finding, reported elsewhere).
    fn dissolve(&self, r: &mut Real<F>, b: TaggedBox<F::I>) {
        let n = alloc::live_count(LIB);
        let sized = alloc::block_at(b.as_ptr::<u8>() as usize).is_some() as usize;
        let i = lib(|| F::I::from_tagged_box(b));
        user(|| drop(i));
        let left = alloc::live_count(LIB);
        r.left_blocks += left.saturating_sub(n - sized);
    }
    /// Runs `f` once per call it makes into user code, with that call panicking. Nothing may change.
    fn with_faults<T>(&self, r: &mut Real<F>, m: &Model, what: &str, mut f: impl FnMut(&Self, &mut Real<F>) -> T, undo: impl Fn(&Self, &mut Real<F>, T)) {
        for k in 1..40 {
            let b = before();
            ledger::arm(k);
            let e = catch_unwind(AssertUnwindSafe(|| f(self, r)));
            let fired = ledger::disarm();
            report::count("fault_points", fired as u64);
            match e {
                Ok(t) => {
                    if fired {
                        report::violation("C17", format!("a panic in user code called by {what} is swallowed"));
                    }
                    undo(self, r, t);
                    if !fired {
                        return;
                    }
                }
                Err(_) if !fired => {
                    report::violation("ANY", format!("{what} panics: {}", report::last_panic()));
                    return;
                }
                Err(_) => {
                    if ledger::live() < b.live {
                        report::violation("C17", format!("a panic in user code called by {what} destroys a value"));
                    }
                    if ledger::live() > b.live {
                        report::violation("C17", format!("a panic in user code called by {what} leaves a value undestroyed"));
                    }
                    if alloc::live_count(LIB) as i64 != b.blocks {
                        report::violation("C17", format!("a panic in user code called by {what} leaves storage behind or releases it"));
                    }
                }
            }
            for i in 0..self.slots {
                self.look(&r.s[i], m.s[i]);
            }
        }
        report::violation("ANY", "HARNESS: more than 40 calls");
    }
    fn tagged<'a>(&self, r: &'a R<F>) -> &'a TaggedBox<F::I> {
        match r {
            R::Boxed(b) => b,
            R::Cont(c) => F::tagged(c),
            _ => unreachable!(),
        }
    }
    /// Borrows within borrows; at the bottom and on the way back every borrow is looked at again.
    fn nest<'a>(&self, two: &[(&'a TaggedBox<F::I>, usize, u8); 2], order: u64, depth: usize, held: &mut Vec<(*const F::I, usize, u8)>) {
        let look = |held: &[(*const F::I, usize, u8)]| {
            user(|| {
                for (p, var, v) in held {
                    // Alive: the callback that was given the reference has not returned.
                    self.value("C19", F::read(unsafe { &**p }), *var, *v, "one of several nested borrows");
                }
            })
        };
        if depth == 0 {
            look(held);
            return;
        }
        let (b, var, v) = two[(order & 1) as usize];
        let mut n = 0;
        let held = std::cell::RefCell::new(held);
        lib(|| unsafe {
            F::I::ref_from_tagged_box(b, |i| {
                user(|| {
                    n += 1;
                    let mut h = held.borrow_mut();
                    h.push((i, var, v));
                    self.nest(two, order >> 1, depth - 1, &mut **h);
                    look(&h);
                    h.pop();
                })
            })
        });
        if n != 1 {
            report::violation("C19", "the callback does not run exactly once");
        }
    }
    fn text(&self, r: &R<F>) -> Text {
        let mut t = Text::new();
        lib(|| match r {
            R::Boxed(b) => write!(t, "{b:?}"),
            R::Cont(c) => write!(t, "{c:?}"),
            R::Item(i) => write!(t, "{i:?}"),
            R::Empty => Ok(()),
        })
        .unwrap();
        t
    }
}

impl<F: Fam> World for Enums<F> {
    type Model = Model;
    type Op = Op;
    type Real = Real<F>;
    fn name(&self) -> String {
        let v: Vec<String> = self.vars.iter().map(|v| v.to_string()).collect();
        format!("{}/{}/{}/{}{}{}{}", F::NAME, self.slots, v.join("."), if self.faults { "f" } else { "" }, if self.refuse { "r" } else { "" }, if self.each { "e" } else { "" }, if self.deep { "d" } else { "" })
    }
    fn init(&self) -> Model {
        Model { s: vec![S::Empty; self.slots], faulted: false }
    }
    fn enabled(&self, m: &Model, out: &mut Vec<Op>) {
        let fault = self.faults && !m.faulted;
        for i in 0..self.slots {
            match m.s[i] {
                S::Empty => {
                    for &var in &self.vars {
                        out.push(Make(i, var, 0));
                        if F::shape(var).valued {
                            out.push(Make(i, var, 1));
                        }
                    }
                    if i == 0 {
                        for &var in &self.vars {
                            out.push(MakeCont(i, var, F::shape(var).valued as u8));
                        }
                    }
                }
                S::Has(K::Item, ..) => {
                    out.extend([ToBox(i), ToCont(i), Drop(i)]);
                    if self.refuse && !m.faulted {
                        out.extend([RefuseBox(i), RefuseCont(i)]);
                    }
                }
                S::Has(k, var, _) => {
                    if k == K::Boxed {
                        out.extend([FromBox(i), Wrap(i), ViaRaw(i)]);
                        if F::single(var) {
                            out.push(ViaBox(i));
                            if F::shape(var).valued {
                                out.extend([Set(i, Way::MutRef), Set(i, Way::MutPtr)]);
                            }
                        }
                    } else {
                        out.extend([ContInto(i), Unwrap(i)]);
                    }
                    out.extend([Ref(i), Fmt(i), Drop(i)]);
                    for j in 0..self.slots {
                        match m.s[j] {
                            S::Empty => out.push(Clone(i, j)),
                            S::Has(l, ..) => {
                                if l == k {
                                    out.push(Cmp(i, j));
                                    if i != j {
                                        out.push(CloneFrom(i, j));
                                    }
                                    if fault {
                                        out.push(FaultCmp(i, j));
                                    }
                                }
                                if l != K::Item {
                                    out.push(RefTwo(i, j));
                                    if self.deep && i <= j {
                                        out.push(RefDeep(i, j));
                                    }
                                }
                            }
                        }
                    }
                    if fault {
                        out.extend([FaultClone(i), FaultFmt(i), FaultRef(i)]);
                    }
                    if self.refuse && !m.faulted && F::shape(var).size > 0 {
                        out.push(RefuseClone(i));
                    }
                }
            }
        }
        if self.slots == 2 && m.s.iter().any(|s| *s != S::Empty) {
            out.push(Swap);
        }
    }
    fn start(&self) -> Real<F> {
        Real { s: (0..self.slots).map(|_| R::Empty).collect(), left_blocks: 0, left_values: 0 }
    }
    fn class(&self, op: Op) -> Option<&'static str> {
        match op {
            Clone(..) | CloneFrom(..) => Some("C11"),
            FaultClone(_) | FaultCmp(..) | FaultFmt(_) | FaultRef(_) => Some("C17"),
            RefuseBox(_) | RefuseCont(_) | RefuseClone(_) => Some("C18"),
            _ => None,
        }
    }
    fn fork_class(&self) -> &'static str {
        "C18"
    }
    fn forked(&self, m: &Model, op: Op) -> Option<Model> {
        let mut m = m.clone();
        match op {
            RefuseBox(i) | RefuseCont(i) => {
                if let S::Has(_, var, _) = m.s[i] {
                    if F::shape(var).size > 0 {
                        m.s[i] = S::Empty;
                    } else if let S::Has(_, var, v) = m.s[i] {
                        m.s[i] = S::Has(if matches!(op, RefuseBox(_)) { K::Boxed } else { K::Cont }, var, v);
                    }
                }
            }
            RefuseClone(_) => (),
            _ => return None,
        }
        m.faulted = true;
        Some(m)
    }
    fn apply(&self, r: &mut Real<F>, m: &mut Model, op: Op) {
        let take = |s: &mut R<F>| std::mem::replace(s, R::Empty);
        let has = |m: &Model, i: usize| match m.s[i] {
            S::Has(k, var, v) => (k, var, v, F::shape(var)),
            S::Empty => unreachable!(),
        };
        let b = before();
        let (mut db, mut dv, mut dd, mut keeps, mut dc) = (0, 0, 0, None, 0);
        let mut boxing = None;
        let mut kind = None;
        match op {
            Make(i, var, v) => {
                r.s[i] = R::Item(user(|| F::make(var, v)));
                m.s[i] = S::Has(K::Item, var, v);
                dv = F::shape(var).toks;
            }
            MakeCont(i, var, v) => {
                // The payload is made by user code, the conversion by the library.
                let c = match lib(|| F::payload(var, v)) {
                    Some(c) => c,
                    None => {
                        let i = user(|| F::make(var, v));
                        lib(|| F::C::from(i))
                    }
                };
                r.s[i] = R::Cont(c);
                m.s[i] = S::Has(K::Cont, var, v);
                dv = F::shape(var).toks;
                db = (F::shape(var).size > 0) as i64;
                boxing = Some(db);
            }
            ToBox(i) | ToCont(i) => {
                let (_, var, v, sh) = has(m, i);
                let R::Item(x) = take(&mut r.s[i]) else { unreachable!() };
                if matches!(op, ToBox(_)) {
                    r.s[i] = R::Boxed(lib(|| x.into_tagged_box()));
                    m.s[i] = S::Has(K::Boxed, var, v);
                } else {
                    r.s[i] = R::Cont(lib(|| F::C::from(x)));
                    m.s[i] = S::Has(K::Cont, var, v);
                }
                db = (sh.size > 0) as i64;
                boxing = Some(db);
            }
            FromBox(i) => {
                let (_, var, v, sh) = has(m, i);
                let R::Boxed(x) = take(&mut r.s[i]) else { unreachable!() };
                r.s[i] = R::Item(lib(|| F::I::from_tagged_box(x)));
                m.s[i] = S::Has(K::Item, var, v);
                db = -((sh.size > 0) as i64);
                keeps = Some("FromBox");
            }
            ContInto(i) => {
                let (_, var, v, sh) = has(m, i);
                let R::Cont(x) = take(&mut r.s[i]) else { unreachable!() };
                r.s[i] = R::Item(lib(|| x.into_inner()));
                m.s[i] = S::Has(K::Item, var, v);
                db = -((sh.size > 0) as i64);
                keeps = Some("ContInto");
            }
            Wrap(i) => {
                let (_, var, v, _) = has(m, i);
                let R::Boxed(x) = take(&mut r.s[i]) else { unreachable!() };
                r.s[i] = R::Cont(lib(|| F::wrap(x)));
                m.s[i] = S::Has(K::Cont, var, v);
            }
            Unwrap(i) => {
                let (_, var, v, _) = has(m, i);
                let R::Cont(x) = take(&mut r.s[i]) else { unreachable!() };
                r.s[i] = R::Boxed(lib(|| F::unwrap(x)));
                m.s[i] = S::Has(K::Boxed, var, v);
            }
            ViaBox(i) => {
                let (_, var, v, sh) = has(m, i);
                let R::Boxed(x) = take(&mut r.s[i]) else { unreachable!() };
                r.s[i] = R::Item(lib(|| F::via_box(x, var)));
                m.s[i] = S::Has(K::Item, var, v);
                db = -((sh.size > 0) as i64);
            }
            ViaRaw(i) => {
                let (_, var, ..) = has(m, i);
                let R::Boxed(x) = take(&mut r.s[i]) else { unreachable!() };
                let addr = x.as_ptr::<u8>();
                let y = lib(|| F::via_raw(x, var));
                if y.as_ptr::<u8>() != addr {
                    report::violation("C07", "into_raw() and from_raw() move the value");
                }
                r.s[i] = R::Boxed(y);
            }
            Set(i, way) => {
                let (k, var, v, _) = has(m, i);
                let R::Boxed(x) = &mut r.s[i] else { unreachable!() };
                user(|| F::set(x, var, 1 - v, way));
                m.s[i] = S::Has(k, var, 1 - v);
            }
            Ref(i) => {
                let (k, var, v, _) = has(m, i);
                kind = Some(k);
                for _ in 0..2 {
                    self.look_box(self.tagged(&r.s[i]), var, v);
                }
            }
            RefTwo(i, j) => {
                let (_, ivar, iv, _) = has(m, i);
                let (_, jvar, jv, _) = has(m, j);
                let (x, y) = (self.tagged(&r.s[i]), self.tagged(&r.s[j]));
                let mut n = 0;
                lib(|| unsafe {
                    F::I::ref_from_tagged_box(x, |a| {
                        F::I::ref_from_tagged_box(y, |c| {
                            user(|| {
                                n += 1;
                                self.value("C19", F::read(a), ivar, iv, "the outer of two nested borrows");
                                self.value("C19", F::read(c), jvar, jv, "the inner of two nested borrows");
                                if (a == c) != ((ivar, iv) == (jvar, jv)) {
                                    report::violation("C19", "two borrowed values compare wrongly");
                                }
                            })
                        });
                        self.value("C19", user(|| F::read(a)), ivar, iv, "an outer borrow after the inner one");
                    })
                });
                if n != 1 {
                    report::violation("C19", "the callback does not run exactly once");
                }
            }
            RefDeep(i, j) => {
                let (_, ivar, iv, _) = has(m, i);
                let (_, jvar, jv, _) = has(m, j);
                let two = [(self.tagged(&r.s[i]), ivar, iv), (self.tagged(&r.s[j]), jvar, jv)];
                // Every order of borrowing the two up to five deep, and one order forty deep.
                for depth in 3..=5 {
                    for order in 0..1u64 << depth {
                        if i == j && order > 0 {
                            break;
                        }
                        self.nest(&two, order, depth, &mut Vec::new());
                    }
                }
                self.nest(&two, 0x5A_5A5A_5A5A, 40, &mut Vec::new());
            }
            Clone(i, j) => {
                let (k, var, v, sh) = has(m, i);
                kind = Some(k);
                r.s[j] = match &r.s[i] {
                    R::Boxed(x) => R::Boxed(lib(|| x.clone())),
                    R::Cont(c) => R::Cont(lib(|| c.clone())),
                    _ => unreachable!(),
                };
                if sh.size > 0 && self.tagged(&r.s[i]).as_ptr::<u8>() == self.tagged(&r.s[j]).as_ptr::<u8>() {
                    report::violation("C11", "a clone shares the storage of its source");
                }
                m.s[j] = S::Has(k, var, v);
                db = (sh.size > 0) as i64;
                boxing = Some(db);
                dv = sh.toks;
                dc = sh.clones;
            }
            CloneFrom(i, j) => {
                // slot j becomes a clone of slot i; what was in j goes away like a dropped box.
                let (k, var, v, sh) = has(m, i);
                let (_, _, _, old) = has(m, j);
                kind = Some(k);
                let (a, c) = if i < j {
                    let (x, y) = r.s.split_at_mut(j);
                    (&x[i], &mut y[0])
                } else {
                    let (x, y) = r.s.split_at_mut(i);
                    (&y[0], &mut x[j])
                };
                // Keep the old box in reach, since it is not destroyed by assignment (a listed finding).
                match (a, c) {
                    (R::Boxed(x), R::Boxed(y)) => lib(|| y.clone_from(x)),
                    (R::Cont(x), R::Cont(y)) => lib(|| y.clone_from(x)),
                    _ => unreachable!(),
                }
                m.s[j] = S::Has(k, var, v);
                let now = before();
                // The old value and block may be destroyed and released, or stay (as for Drop).
                let (lo_b, hi_b) = ((sh.size > 0) as i64 - (old.size > 0) as i64, (sh.size > 0) as i64);
                let (gb, gv) = (now.blocks - b.blocks, now.live - b.live);
                if gb < lo_b || gv < sh.toks - old.toks {
                    report::violation("C11", "clone_from() releases storage or destroys a value that is still in use");
                } else if gb > hi_b || gv > sh.toks {
                    report::violation("C10", "clone_from() leaves more behind than the old box");
                } else {
                    r.left_blocks += (gb - lo_b) as usize;
                    r.left_values += gv - (sh.toks - old.toks);
                }
                if now.clones - b.clones != sh.clones {
                    report::violation("C11", "clone_from() does not clone the stored value exactly once");
                }
                if self.each {
                    for i in 0..self.slots {
                        self.look(&r.s[i], m.s[i]);
                    }
                }
                return;
            }
            Cmp(i, j) => {
                let (k, ivar, iv, _) = has(m, i);
                let (_, jvar, jv, _) = has(m, j);
                kind = Some(k);
                let want = (ivar, iv).cmp(&(jvar, jv));
                let got = match (&r.s[i], &r.s[j]) {
                    (R::Boxed(x), R::Boxed(y)) => lib(|| (x == y, x != y, x.partial_cmp(y), x.cmp(y), x < y, x >= y)),
                    (R::Cont(x), R::Cont(y)) => lib(|| (x == y, x != y, x.partial_cmp(y), x.cmp(y), x < y, x >= y)),
                    _ => unreachable!(),
                };
                if got != (want.is_eq(), want.is_ne(), Some(want), want, want.is_lt(), want.is_ge()) {
                    report::violation("C12", format!("{} does not agree with the stored values", opname(op, kind)));
                }
            }
            Fmt(i) => {
                let (k, var, v, _) = has(m, i);
                kind = Some(k);
                let t = self.text(&r.s[i]);
                let fresh = user(|| F::make(var, v));
                let mut w = Text::new();
                if k == K::Boxed {
                    write!(w, "{fresh:?}").unwrap();
                } else {
                    write!(w, "Cont {{ value: {fresh:?} }}").unwrap();
                }
                user(|| drop(fresh));
                dd = F::shape(var).toks;
                if t.as_str() != w.as_str() {
                    report::violation("C13", format!("{} does not give the text of the stored value", opname(op, kind)));
                }
            }
            Drop(i) => {
                let (k, _, _, sh) = has(m, i);
                kind = Some(k);
                m.s[i] = S::Empty;
                dv = -sh.toks;
                dd = sh.toks;
                match take(&mut r.s[i]) {
                    R::Item(x) => user(|| drop(x)),
                    R::Boxed(x) => {
                        lib(|| drop(x));
                        db = -((sh.size > 0) as i64);
                        keeps = Some("DropBox");
                    }
                    R::Cont(x) => {
                        lib(|| drop(x));
                        db = -((sh.size > 0) as i64);
                        keeps = Some("DropCont");
                    }
                    R::Empty => unreachable!(),
                }
            }
            Swap => {
                r.s.swap(0, 1);
                m.s.swap(0, 1);
            }
            FaultClone(i) => {
                let f = |w: &Self, r: &mut Real<F>| -> R<F> {
                    let _ = w;
                    match &r.s[i] {
                        R::Boxed(x) => R::Boxed(lib(|| x.clone())),
                        R::Cont(c) => R::Cont(lib(|| c.clone())),
                        _ => unreachable!(),
                    }
                };
                self.with_faults(r, m, "clone", f, |w, r, t| match t {
                    R::Boxed(x) => w.dissolve(r, x),
                    R::Cont(x) => w.dissolve(r, F::unwrap(x)),
                    _ => (),
                });
                m.faulted = true;
                if self.each {
                    for i in 0..self.slots {
                        self.look(&r.s[i], m.s[i]);
                    }
                }
                return;
            }
            FaultCmp(i, j) => {
                for which in 0..3 {
                    let f = |_: &Self, r: &mut Real<F>| match (&r.s[i], &r.s[j]) {
                        (R::Boxed(x), R::Boxed(y)) => lib(|| match which {
                            0 => (x == y) as u8,
                            1 => x.partial_cmp(y).is_some() as u8,
                            _ => x.cmp(y).is_eq() as u8,
                        }),
                        (R::Cont(x), R::Cont(y)) => lib(|| match which {
                            0 => (x == y) as u8,
                            1 => x.partial_cmp(y).is_some() as u8,
                            _ => x.cmp(y).is_eq() as u8,
                        }),
                        _ => unreachable!(),
                    };
                    self.with_faults(r, m, ["==", "partial_cmp", "cmp"][which], f, |_, _, _| ());
                }
                m.faulted = true;
            }
            FaultFmt(i) => {
                self.with_faults(r, m, "Debug", |w, r| w.text(&r.s[i]).1, |_, _, _| ());
                m.faulted = true;
            }
            FaultRef(i) => {
                // The callback panics: alone, inside another borrow of the same box, and after comparing.
                for which in 0..3 {
                    let f = |w: &Self, r: &mut Real<F>| {
                        let x = w.tagged(&r.s[i]);
                        lib(|| unsafe {
                            F::I::ref_from_tagged_box(x, |a| match which {
                                0 => user(|| ledger::user_call("callback")),
                                1 => F::I::ref_from_tagged_box(x, |_| user(|| ledger::user_call("callback"))),
                                _ => user(|| {
                                    let _ = a == a;
                                    ledger::user_call("callback")
                                }),
                            })
                        })
                    };
                    self.with_faults(r, m, "ref_from_tagged_box", f, |_, _, _| ());
                }
                m.faulted = true;
            }
            RefuseBox(i) | RefuseCont(i) => {
                let (_, var, v, sh) = has(m, i);
                let R::Item(x) = take(&mut r.s[i]) else { unreachable!() };
                alloc::fail_at(1);
                let cont = matches!(op, RefuseCont(_));
                let e = catch_unwind(AssertUnwindSafe(|| lib(|| if cont { R::Cont(F::C::from(x)) } else { R::<F>::Boxed(x.into_tagged_box()) })));
                let failed = alloc::failed();
                m.s[i] = S::Empty;
                m.faulted = true;
                report::count("refused_requests", failed as u64);
                match e {
                    Ok(y) if failed > 0 => {
                        report::violation("C18", format!("{} yields a box although its memory was refused", opname(op, None)));
                        std::mem::forget(y);
                        return;
                    }
                    Ok(y) => {
                        r.s[i] = y;
                        m.s[i] = S::Has(if cont { K::Cont } else { K::Boxed }, var, v);
                        if sh.size > 0 {
                            report::violation("C09", "boxing a value requests no memory");
                        }
                    }
                    Err(p) => {
                        drop(p);
                        if failed == 0 {
                            report::violation("ANY", format!("boxing panics: {}", report::last_panic()));
                        }
                        dv = -sh.toks;
                        dd = sh.toks;
                    }
                }
            }
            RefuseClone(i) => {
                alloc::fail_at(1);
                let x = &r.s[i];
                let e = catch_unwind(AssertUnwindSafe(|| {
                    lib(|| match x {
                        R::Boxed(x) => R::<F>::Boxed(x.clone()),
                        R::Cont(c) => R::Cont(c.clone()),
                        _ => unreachable!(),
                    })
                }));
                let failed = alloc::failed();
                report::count("refused_requests", failed as u64);
                m.faulted = true;
                match e {
                    Ok(y) => {
                        if failed > 0 {
                            report::violation("C18", "clone yields a box although its memory was refused");
                        } else {
                            report::violation("C11", "clone requests no memory");
                        }
                        std::mem::forget(y);
                        return;
                    }
                    Err(p) => drop(p),
                }
                // The copy made on the way is destroyed again.
                dd = (ledger::destroyed_count() - b.destroyed) as i64;
            }
        }
        self.account(r, op, kind, &b, db, dv, dd, keeps);
        if let Some(n) = boxing {
            if (alloc::lib_allocs() - b.allocs) as i64 != n {
                report::violation("C09", format!("{} does not request exactly one block (none for a zero-sized value)", opname(op, kind)));
            }
        }
        if ledger::clones() - b.clones != dc && !matches!(op, RefuseClone(_)) {
            report::violation("C11", format!("{} does not clone the stored value exactly as often as it should", opname(op, kind)));
        }
        if self.each {
            for i in 0..self.slots {
                self.look(&r.s[i], m.s[i]);
            }
        }
    }
    fn finish(&self, mut r: Real<F>, m: &Model) {
        for i in 0..self.slots {
            self.look(&r.s[i], m.s[i]);
        }
        let slots = std::mem::take(&mut r.s);
        for s in slots {
            match s {
                R::Empty => (),
                R::Item(i) => user(|| drop(i)),
                R::Boxed(b) => self.dissolve(&mut r, b),
                R::Cont(c) => self.dissolve(&mut r, F::unwrap(c)),
            }
        }
        let (b, v) = (alloc::live_count(LIB), ledger::live());
        if b > r.left_blocks || v > r.left_values {
            report::violation("C10", "storage or values are left when everything has been taken out");
        }
        if b < r.left_blocks || v < r.left_values {
            report::violation("C08", "more values or blocks were destroyed than existed");
        }
    }
}

pub fn world<F: Fam>(slots: usize, vars: &[usize], mode: &str) -> Enums<F> {
    Enums { slots, vars: vars.to_vec(), faults: mode.contains('f'), refuse: mode.contains('r'), each: mode.contains('e'), deep: mode.contains('d'), _f: PhantomData }
}


/// `go!(c, n, Family, slots, variants, mode, depth)`: explores one world, or replays a case of it.
/// Depth 0: breadth-first over model states; otherwise all histories up to the depth. Mode 'p': pumping.
#[macro_export]
macro_rules! go {
    ($c:ident, $n:ident, $f:ty, $slots:expr, $vars:expr, $mode:expr, $depth:expr) => {{
        let w = $crate::enums::world::<$f>($slots, $vars, $mode);
        if let Some(o) = &$c.only {
            if let Some(ch) = o.strip_prefix(&*mc::explore::World::name(&w)).and_then(|r| r.strip_prefix(':')) {
                mc::explore::replay(&w, ch);
            }
        } else if $c.mine($n) {
            if $mode.contains('p') {
                mc::explore::pump(&w, &mc::explore::Limits { long: $slots == 1, ..$c.limits($depth) })
            } else if $depth == 0 {
                mc::explore::bfs(&w, &$c.limits(0))
            } else {
                mc::explore::dfs(&w, &$c.limits($depth))
            }
        }
        $n += 1;
    }};
}
