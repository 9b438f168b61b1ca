//! Generated enums through every route, without std.
use crate::{case, must, sys};
use alloc::format;
use core::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

pub trait Probe: TaggableInner + 'static {
    type C: TaggableContainer<Inner = Self> + From<Self>;
    const N: usize;
    const K: usize = 2;
    fn make(var: usize, k: usize) -> Self;
    fn same(&self, var: usize, k: usize) -> bool;
    fn payload(var: usize, k: usize) -> Option<Self::C>;
    fn wrap(b: TaggedBox<Self>) -> Self::C;
    fn unwrap(c: Self::C) -> TaggedBox<Self>;
    fn tagged(c: &Self::C) -> &TaggedBox<Self>;
    fn clone_box(_: &TaggedBox<Self>) -> Option<TaggedBox<Self>> {
        None
    }
    fn clone_cont(_: &Self::C) -> Option<Self::C> {
        None
    }
}

pub static LIVE: AtomicIsize = AtomicIsize::new(0);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct D(pub u32);
impl D {
    pub fn new(v: u32) -> D {
        LIVE.fetch_add(1, Relaxed);
        D(v)
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        D::new(self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
        self.0 = 0xDEAD_DEAD;
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Al64(pub u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(C, packed)]
pub struct Packed(pub u8, pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Zst;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(align(16))]
pub struct Zst16;

pub fn word<T>(t: &TaggedBox<T>) -> u64 {
    must(core::mem::size_of::<TaggedBox<T>>() == 8, "a box is not 8 bytes");
    unsafe { core::mem::transmute_copy(t) }
}

pub fn run<E: Probe>(name: &str) {
    let mut discs = [0u64; 4096];
    for var in 0..E::N {
        for k in 0..E::K {
            let mut first = None;
            let mut step = |route: &str, f: &mut dyn FnMut() -> (u64, bool)| {
                case(format_args!("{name}/{var}/{k}/{route}"));
                sys::reset();
                let before = LIVE.load(Relaxed);
                let (d, ok) = f();
                must(ok, "another value comes back");
                must(*first.get_or_insert(d) == d, "one variant is stored under two discriminants");
                must(LIVE.load(Relaxed) == before, "a value is destroyed more or less than once");
            };
            step("enum-box-enum", &mut || {
                let b = E::make(var, k).into_tagged_box();
                (b.discriminant() as u64, E::from_tagged_box(b).same(var, k))
            });
            step("enum-container-enum", &mut || {
                let c = E::C::from(E::make(var, k));
                (E::tagged(&c).discriminant() as u64, c.into_inner().same(var, k))
            });
            step("enum-box-container-enum", &mut || {
                let c = E::wrap(E::make(var, k).into_tagged_box());
                (E::tagged(&c).discriminant() as u64, c.into_inner().same(var, k))
            });
            step("enum-container-box-enum", &mut || {
                let b = E::unwrap(E::C::from(E::make(var, k)));
                (b.discriminant() as u64, E::from_tagged_box(b).same(var, k))
            });
            step("borrow", &mut || {
                let b = E::make(var, k).into_tagged_box();
                let w = word(&b);
                let mut n = 0;
                for _ in 0..2 {
                    unsafe { E::ref_from_tagged_box(&b, |e| n += e.same(var, k) as usize) };
                }
                must(n == 2, "the callback does not see the value each time it borrows");
                must(word(&b) == w, "borrowing changes the box");
                (b.discriminant() as u64, E::from_tagged_box(b).same(var, k))
            });
            if let Some(c) = E::payload(var, k) {
                drop(c.into_inner());
                step("payload-container-enum", &mut || {
                    let c = E::payload(var, k).unwrap();
                    (E::tagged(&c).discriminant() as u64, c.into_inner().same(var, k))
                });
            }
            step("clone", &mut || {
                let b = E::make(var, k).into_tagged_box();
                let d = b.discriminant() as u64;
                if let Some(c) = E::clone_box(&b) {
                    must(c.discriminant() as u64 == d, "the clone has another discriminant");
                    must(E::from_tagged_box(c).same(var, k), "the clone is another value");
                }
                let c = E::wrap(b);
                if let Some(c) = E::clone_cont(&c) {
                    must(c.into_inner().same(var, k), "the container's clone is another value");
                }
                (d, c.into_inner().same(var, k))
            });
            step("word", &mut || {
                let b = E::make(var, k).into_tagged_box();
                let (w, d, a) = (word(&b), b.discriminant() as u64, b.as_ptr::<u8>() as usize as u64);
                let bits = tagged_box::discriminant::POINTER_WIDTH;
                must(w & !(u64::MAX << bits) == a && w >> bits == d, "the word is not the address and the discriminant");
                let (_, last) = sys::live();
                let _ = last;
                (d, E::from_tagged_box(b).same(var, k))
            });
            discs[var] = first.unwrap();
        }
        for v in 0..var {
            case(format_args!("{name}/discriminants"));
            must(discs[v] != discs[var], "two variants share a discriminant");
        }
    }
    let _ = format!("");
}
