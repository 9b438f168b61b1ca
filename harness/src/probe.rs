//! Round-trip probes for generated enums (C14, C15, C22): the generated programs implement `Probe`, `run` takes
//! every variant and value pattern through every route.
use mc::report;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

pub trait Probe: TaggableInner + 'static {
    type C: TaggableContainer<Inner = Self> + From<Self>;
    /// Number of variants.
    const N: usize;
    /// Number of value patterns of a variant.
    const K: usize = 2;
    fn make(var: usize, k: usize) -> Self;
    /// Whether this is exactly the value made for variant and pattern.
    fn same(&self, var: usize, k: usize) -> bool;
    /// The container made from the payload alone.
    fn payload(var: usize, k: usize) -> Option<Self::C>;
    fn wrap(b: TaggedBox<Self>) -> Self::C;
    fn unwrap(c: Self::C) -> TaggedBox<Self>;
    fn tagged(c: &Self::C) -> &TaggedBox<Self>;
    fn clone_box(_: &TaggedBox<Self>) -> Option<TaggedBox<Self>> {
        None
    }
    fn clone_cont(_: &Self::C) -> Option<Self::C> {
        None
    }
}

static LIVE: AtomicIsize = AtomicIsize::new(0);
/// A value whose destruction is counted.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct D(u32);
impl D {
    pub fn new(v: u32) -> D {
        LIVE.fetch_add(1, Relaxed);
        D(v)
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        D::new(self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
        self.0 = 0xDEAD_DEAD;
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(align(64))]
pub struct Al64(pub u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(C, packed)]
pub struct Packed(pub u8, pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Zst;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(align(16))]
pub struct Zst16;

pub fn word<T>(t: &TaggedBox<T>) -> u64 {
    assert_eq!(std::mem::size_of::<TaggedBox<T>>(), 8);
    unsafe { std::mem::transmute_copy(t) }
}

fn split(w: u64) -> (u64, u64) {
    let bits = tagged_box::discriminant::POINTER_WIDTH;
    ((w & !(u64::MAX << bits)), w >> bits)
}

/// Every variant of `E` through every route. `only`: "name/var/k/route".
pub fn run<E: Probe>(tag: &str, name: &str, only: Option<&str>) {
    report::count("programs", 1);
    let one = format!("{name}/discriminants");
    let only = only.filter(|o| *o != one);
    let mut discs = Vec::new();
    for var in 0..E::N {
        let mut first = None;
        for k in 0..E::K {
            let mut step = |route: &str, f: &mut dyn FnMut() -> Result<u64, String>| {
                let case = format!("{name}/{var}/{k}/{route}");
                let word = route == "word";
                if only.map_or(false, |o| o != case) || (mc::cli::prop() == "C22" && !word) {
                    return;
                }
                let tag = if word { "C22" } else { tag };
                report::begin_case(&case);
                report::count("evaluations", 1);
                let before = LIVE.load(Relaxed);
                let r = catch_unwind(AssertUnwindSafe(|| f()));
                match r {
                    Err(_) => {
                        let m = report::last_panic();
                        report::violation(tag, format!("{route}: panics: {m}"));
                    }
                    Ok(Err(e)) => report::violation(tag, format!("{route}: {e}")),
                    Ok(Ok(d)) => {
                        let f = first.get_or_insert(d);
                        if *f != d {
                            report::violation("C15", format!("{route}: one variant is stored under two discriminants ({f} and {d})"));
                        }
                    }
                }
                let after = LIVE.load(Relaxed);
                if word {
                    LIVE.store(before, Relaxed);
                } else if before != after {
                    report::violation(tag, format!("{route}: {} values are destroyed too often", before - after));
                    LIVE.store(before, Relaxed);
                }
            };
            let bad = |e: &E| if e.same(var, k) { Ok(()) } else { Err("another value comes back".to_string()) };
            step("enum-box-enum", &mut || {
                let b = E::make(var, k).into_tagged_box();
                let d = b.discriminant() as u64;
                bad(&E::from_tagged_box(b))?;
                Ok(d)
            });
            step("enum-container-enum", &mut || {
                let c = E::C::from(E::make(var, k));
                let d = E::tagged(&c).discriminant() as u64;
                bad(&c.into_inner())?;
                Ok(d)
            });
            step("enum-box-container-enum", &mut || {
                let c = E::wrap(E::make(var, k).into_tagged_box());
                let d = E::tagged(&c).discriminant() as u64;
                bad(&c.into_inner())?;
                Ok(d)
            });
            step("enum-container-box-enum", &mut || {
                let b = E::unwrap(E::C::from(E::make(var, k)));
                let d = b.discriminant() as u64;
                bad(&E::from_tagged_box(b))?;
                Ok(d)
            });
            step("borrow", &mut || {
                let b = E::make(var, k).into_tagged_box();
                let w = word(&b);
                for _ in 0..2 {
                    let (mut n, mut r) = (0, Ok(()));
                    unsafe {
                        E::ref_from_tagged_box(&b, |e| {
                            n += 1;
                            r = bad(e);
                        })
                    };
                    r?;
                    if n != 1 {
                        return Err(format!("the callback runs {n} times"));
                    }
                }
                if word(&b) != w {
                    return Err("borrowing changes the box".into());
                }
                let d = b.discriminant() as u64;
                bad(&E::from_tagged_box(b))?;
                Ok(d)
            });
            step("borrow-container", &mut || {
                let c = E::C::from(E::make(var, k));
                let mut r = Err("the callback does not run".to_string());
                unsafe { E::ref_from_tagged_box(E::tagged(&c), |e| r = bad(e)) };
                r?;
                let d = E::tagged(&c).discriminant() as u64;
                bad(&c.into_inner())?;
                Ok(d)
            });
            step("payload-container-enum", &mut || match E::payload(var, k) {
                Some(c) => {
                    let d = E::tagged(&c).discriminant() as u64;
                    bad(&c.into_inner())?;
                    Ok(d)
                }
                None => Ok(E::unwrap(E::C::from(E::make(var, k))).pipe(|b| {
                    let d = b.discriminant() as u64;
                    drop(E::from_tagged_box(b));
                    d
                })),
            });
            step("clone", &mut || {
                let b = E::make(var, k).into_tagged_box();
                let d = b.discriminant() as u64;
                if let Some(c) = E::clone_box(&b) {
                    if c.discriminant() as u64 != d {
                        return Err("the clone has another discriminant".into());
                    }
                    let e = E::from_tagged_box(c);
                    if !e.same(var, k) {
                        return Err("the clone is another value".into());
                    }
                }
                let c = E::wrap(b);
                if let Some(c) = E::clone_cont(&c) {
                    if !c.into_inner().same(var, k) {
                        return Err("the container's clone is another value".into());
                    }
                }
                bad(&c.into_inner())?;
                Ok(d)
            });
            step("word", &mut || {
                if std::mem::size_of::<E::C>() != 8 {
                    return Err("the container is not 8 bytes".into());
                }
                let b = E::make(var, k).into_tagged_box();
                let (w, d, a) = (word(&b), b.discriminant() as u64, b.as_ptr::<u8>() as u64);
                let c = E::wrap(b);
                let w2: u64 = unsafe { std::mem::transmute_copy(&c) };
                std::mem::forget(c);
                if split(w) != (a, d) {
                    return Err("the word is not the address and the discriminant".into());
                }
                if w2 != w {
                    return Err("the container is not the word of its box".into());
                }
                Ok(d)
            });
            // Many boxes at once: none disturbs another.
            step("all-at-once", &mut || {
                let n = E::N.min(64);
                let mut all: Vec<(usize, E::C)> = (0..n).map(|v| (v, E::C::from(E::make(v, k)))).collect();
                let mut d = 0;
                if var % 2 == 0 {
                    all.reverse();
                }
                for (v, c) in all {
                    if v == var {
                        d = E::tagged(&c).discriminant() as u64;
                    }
                    if !c.into_inner().same(v, k) {
                        return Err(format!("variant {v} of several boxes comes back as another value"));
                    }
                }
                if var >= n {
                    let b = E::make(var, k).into_tagged_box();
                    d = b.discriminant() as u64;
                    drop(E::from_tagged_box(b));
                }
                Ok(d)
            });
        }
        discs.push(first);
    }
    if only.is_none() {
        let mut seen = std::collections::BTreeMap::new();
        for (v, d) in discs.iter().enumerate() {
            if let Some(d) = d {
                if let Some(o) = seen.insert(*d, v) {
                    report::violation_in("C15", format!("{name}/discriminants"), format!("variants {o} and {v} share the discriminant {d}"));
                }
            }
        }
        report::count("variants", E::N as u64);
        report::count("distinct_nontrivial", seen.len() as u64);
    }
}

trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl<T> Pipe for T {}

/// For every route of an enum whose boxing is refused: it has to panic, never to yield something.
pub fn refused<E: Probe>(tag: &str, name: &str, capacity: usize) {
    let mut discs = std::collections::BTreeMap::new();
    let mut refused = 0;
    for var in 0..E::N {
        let case = format!("{name}/{var}/0/excess");
        report::begin_case(&case);
        report::count("evaluations", 1);
        let r = catch_unwind(AssertUnwindSafe(|| E::make(var, 0).into_tagged_box()));
        match r {
            Err(_) => refused += 1,
            Ok(b) => {
                if let Some(o) = discs.insert(b.discriminant() as u64, var) {
                    report::violation(tag, format!("variant {var} is stored under the discriminant of variant {o}"));
                }
                let r = catch_unwind(AssertUnwindSafe(|| E::from_tagged_box(b)));
                match r {
                    Ok(e) if e.same(var, 0) => (),
                    Ok(e) => {
                        // Do not destroy what may be a value of the wrong type.
                        std::mem::forget(e);
                        report::violation(tag, "an excess variant reads back as another value")
                    }
                    Err(_) => report::violation(tag, "an excess variant is boxed but cannot be read back"),
                }
            }
        }
    }
    if E::N - refused > capacity {
        report::violation(tag, "more variants are boxed than there are discriminants");
    }
    report::count("refused_variants", refused as u64);
}
