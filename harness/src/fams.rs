//! Families of enums under test: made by the macro, or with a hand-written `TaggableInner`.
use mc::tok::*;
use std::fmt::Debug;
use tagged_box::discriminant::Discriminant;
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

#[derive(Clone, Copy)]
pub struct Shape {
    /// Counted values inside (each is cloned once, destroyed once).
    pub toks: i64,
    /// Clone calls one clone makes.
    pub clones: u64,
    /// Two values to tell apart.
    pub valued: bool,
    /// Sum of the sizes of the fields, largest alignment; 0 = no heap block.
    pub size: usize,
    pub align: usize,
    pub disc: u32,
}

pub trait Fam: 'static {
    type I: TaggableInner + Clone + PartialEq + PartialOrd + Ord + Debug;
    type C: TaggableContainer<Inner = Self::I> + From<Self::I> + Clone + PartialEq + PartialOrd + Ord + Debug;
    const NAME: &'static str;
    const N: usize;
    fn shape(var: usize) -> Shape;
    fn make(var: usize, v: u8) -> Self::I;
    fn read(i: &Self::I) -> Result<(usize, u8), String>;
    /// The container made from the payload of the variant, where there is a conversion.
    fn payload(var: usize, v: u8) -> Option<Self::C>;
    /// Writes the value in place; false for variants whose stored type has no name.
    fn set(b: &mut TaggedBox<Self::I>, var: usize, v: u8, by: Way) -> bool;
    /// Takes the payload out through a standard box and makes the enum again.
    fn via_box(b: TaggedBox<Self::I>, var: usize) -> Self::I;
    /// into_raw and from_raw.
    fn via_raw(b: TaggedBox<Self::I>, var: usize) -> TaggedBox<Self::I>;
    fn single(var: usize) -> bool;
    fn wrap(b: TaggedBox<Self::I>) -> Self::C;
    fn unwrap(c: Self::C) -> TaggedBox<Self::I>;
    fn tagged(c: &Self::C) -> &TaggedBox<Self::I>;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way {
    MutRef,
    MutPtr,
}

fn put<T: Payload, I>(b: &mut TaggedBox<I>, v: u8, by: Way) -> bool {
    use mc::alloc::lib;
    unsafe {
        match by {
            Way::MutRef => lib(|| b.as_mut_ref::<T>()).set(v),
            Way::MutPtr => (*lib(|| b.as_mut_ptr::<T>())).set(v),
        }
    }
    true
}
fn raw_trip<T, I>(b: TaggedBox<I>) -> TaggedBox<I> {
    let d = b.discriminant();
    let p: *mut T = TaggedBox::into_raw(b);
    unsafe { TaggedBox::from_raw(p, d) }
}

macro_rules! access {
    () => {
        fn wrap(b: TaggedBox<Item>) -> Cont {
            Cont { value: b }
        }
        fn unwrap(c: Cont) -> TaggedBox<Item> {
            c.value
        }
        fn tagged(c: &Cont) -> &TaggedBox<Item> {
            &c.value
        }
    };
}

fn all(want: &[bool], v: Result<u8, String>, var: usize) -> Result<(usize, u8), String> {
    let v = v?;
    if want.iter().all(|b| *b) {
        Ok((var, v))
    } else {
        Err("a field changed".into())
    }
}
fn same(a: Result<u8, String>, b: Result<u8, String>) -> Result<u8, String> {
    let (a, b) = (a?, b?);
    if a == b {
        Ok(a)
    } else {
        Err("the fields of one value hold different values".into())
    }
}

/// Nine variants of every shape.
#[cfg(feature = "big")]
pub mod wide {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Cont, pub enum Item {
            A(Tok),
            B(u8, Tok, u64),
            C(Tok, u8, Tok),
            U,
            S { a: u8, t: Tok, b: u16 },
            Z(Z8),
            E(),
            O(Own),
            L { t: Tok, },
        }
    }
    pub struct Wide;
    impl Fam for Wide {
        type I = Item;
        type C = Cont;
        const NAME: &'static str = "wide";
        const N: usize = 9;
        fn shape(var: usize) -> Shape {
            let (toks, valued, size, align) = [
                (1, true, 12, 4),
                (1, true, 21, 8),
                (2, true, 25, 4),
                (0, false, 0, 1),
                (1, true, 15, 4),
                (1, false, 0, 8),
                (0, false, 0, 1),
                (1, true, std::mem::size_of::<Own>(), std::mem::align_of::<Own>()),
                (1, true, 12, 4),
            ][var];
            Shape { toks, clones: toks as u64, valued, size, align, disc: var as u32 }
        }
        fn make(var: usize, v: u8) -> Item {
            match var {
                0 => Item::A(Tok::make(v)),
                1 => Item::B(10 + v, Tok::make(v), !(v as u64)),
                2 => Item::C(Tok::make(v), 10 + v, Tok::make(v)),
                3 => Item::U,
                4 => Item::S { a: 10 + v, t: Tok::make(v), b: 1000 + v as u16 },
                5 => Item::Z(Z8::make(v)),
                6 => Item::E(),
                7 => Item::O(Own::make(v)),
                _ => Item::L { t: Tok::make(v) },
            }
        }
        fn read(i: &Item) -> Result<(usize, u8), String> {
            match i {
                Item::A(t) => all(&[], t.get(), 0),
                Item::B(x, t, y) => t.get().and_then(|v| all(&[*x == 10 + v, *y == !(v as u64)], Ok(v), 1)),
                Item::C(t, x, s) => same(t.get(), s.get()).and_then(|v| all(&[*x == 10 + v], Ok(v), 2)),
                Item::U => Ok((3, 0)),
                Item::S { a, t, b } => t.get().and_then(|v| all(&[*a == 10 + v, *b == 1000 + v as u16], Ok(v), 4)),
                Item::Z(z) => all(&[], z.get(), 5),
                Item::E() => Ok((6, 0)),
                Item::O(o) => all(&[], o.get(), 7),
                Item::L { t } => all(&[], t.get(), 8),
            }
        }
        fn payload(var: usize, v: u8) -> Option<Cont> {
            Some(match var {
                0 => Cont::from(Tok::make(v)),
                1 => Cont::from((10 + v, Tok::make(v), !(v as u64))),
                2 => Cont::from((Tok::make(v), 10 + v, Tok::make(v))),
                5 => Cont::from(Z8::make(v)),
                6 => Cont::from(()),
                7 => Cont::from(Own::make(v)),
                _ => return None,
            })
        }
        fn set(b: &mut TaggedBox<Item>, var: usize, v: u8, by: Way) -> bool {
            match var {
                0 => put::<Tok, _>(b, v, by),
                7 => put::<Own, _>(b, v, by),
                _ => false,
            }
        }
        fn single(var: usize) -> bool {
            matches!(var, 0 | 5 | 7)
        }
        fn via_box(b: TaggedBox<Item>, var: usize) -> Item {
            unsafe {
                match var {
                    0 => Item::A(*TaggedBox::into_box::<Tok>(b)),
                    5 => Item::Z(*TaggedBox::into_box::<Z8>(b)),
                    7 => Item::O(*TaggedBox::into_box::<Own>(b)),
                    _ => unreachable!(),
                }
            }
        }
        fn via_raw(b: TaggedBox<Item>, var: usize) -> TaggedBox<Item> {
            match var {
                0 => raw_trip::<Tok, _>(b),
                5 => raw_trip::<Z8, _>(b),
                7 => raw_trip::<Own, _>(b),
                _ => raw_trip::<u8, _>(b),
            }
        }
        access!();
    }
}

/// Two variants, which fit every width.
pub mod narrow {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Cont, pub enum Item {
            C(Tok, u8, Tok),
            A(Tok),
        }
    }
    pub struct Narrow;
    impl Fam for Narrow {
        type I = Item;
        type C = Cont;
        const NAME: &'static str = "narrow";
        const N: usize = 2;
        fn shape(var: usize) -> Shape {
            let (toks, size) = [(2, 25), (1, 12)][var];
            Shape { toks, clones: toks as u64, valued: true, size, align: 4, disc: var as u32 }
        }
        fn make(var: usize, v: u8) -> Item {
            match var {
                0 => Item::C(Tok::make(v), 10 + v, Tok::make(v)),
                _ => Item::A(Tok::make(v)),
            }
        }
        fn read(i: &Item) -> Result<(usize, u8), String> {
            match i {
                Item::C(t, x, s) => same(t.get(), s.get()).and_then(|v| all(&[*x == 10 + v], Ok(v), 0)),
                Item::A(t) => all(&[], t.get(), 1),
            }
        }
        fn payload(var: usize, v: u8) -> Option<Cont> {
            Some(match var {
                0 => Cont::from((Tok::make(v), 10 + v, Tok::make(v))),
                _ => Cont::from(Tok::make(v)),
            })
        }
        fn set(b: &mut TaggedBox<Item>, var: usize, v: u8, by: Way) -> bool {
            var == 1 && put::<Tok, _>(b, v, by)
        }
        fn single(var: usize) -> bool {
            var == 1
        }
        fn via_box(b: TaggedBox<Item>, _: usize) -> Item {
            Item::A(unsafe { *TaggedBox::into_box::<Tok>(b) })
        }
        fn via_raw(b: TaggedBox<Item>, _: usize) -> TaggedBox<Item> {
            raw_trip::<Tok, _>(b)
        }
        access!();
    }
}

/// A hand-written implementation in the style of the crate's documentation, with spread-out discriminants.
pub mod manual {
    use super::*;
    use std::mem::ManuallyDrop;
    use tagged_box::discriminant::MAX_DISCRIMINANT;
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Item {
        A(Tok),
        O(Own),
        Z(Z16),
    }
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Cont {
        value: TaggedBox<Item>,
    }
    const D: [Discriminant; 3] = if MAX_DISCRIMINANT < 2 { [0, 1, 1] } else { [MAX_DISCRIMINANT / 2 + 1, MAX_DISCRIMINANT, 0] };
    impl TaggableInner for Item {
        fn into_tagged_box(self) -> TaggedBox<Self> {
            match self {
                Item::A(t) => TaggedBox::new(t, D[0]),
                Item::O(o) => TaggedBox::new(o, D[1]),
                Item::Z(z) => TaggedBox::new(z, D[2]),
            }
        }
        fn from_tagged_box(b: TaggedBox<Self>) -> Self {
            unsafe {
                match b.discriminant() {
                    d if d == D[0] => Item::A(TaggedBox::into_inner(b)),
                    d if d == D[1] => Item::O(TaggedBox::into_inner(b)),
                    d if d == D[2] => Item::Z(TaggedBox::into_inner(b)),
                    d => panic!("no variant {d}"),
                }
            }
        }
        unsafe fn ref_from_tagged_box<F: FnOnce(&Self)>(b: &TaggedBox<Self>, f: F) {
            let i = ManuallyDrop::new(match b.discriminant() {
                d if d == D[0] => Item::A(b.as_ptr::<Tok>().read()),
                d if d == D[1] => Item::O(b.as_ptr::<Own>().read()),
                d if d == D[2] => Item::Z(b.as_ptr::<Z16>().read()),
                d => panic!("no variant {d}"),
            });
            f(&i)
        }
    }
    impl TaggableContainer for Cont {
        type Inner = Item;
        fn into_inner(self) -> Item {
            Item::from_tagged_box(self.value)
        }
    }
    impl From<Item> for Cont {
        fn from(i: Item) -> Self {
            Cont { value: i.into_tagged_box() }
        }
    }
    pub struct Manual;
    impl Fam for Manual {
        type I = Item;
        type C = Cont;
        const NAME: &'static str = "manual";
        const N: usize = if MAX_DISCRIMINANT < 2 { 2 } else { 3 };
        fn shape(var: usize) -> Shape {
            let (valued, size, align) = [(true, 12, 4), (true, std::mem::size_of::<Own>(), std::mem::align_of::<Own>()), (false, 0, 16)][var];
            Shape { toks: 1, clones: 1, valued, size, align, disc: D[var] as u32 }
        }
        fn make(var: usize, v: u8) -> Item {
            match var {
                0 => Item::A(Tok::make(v)),
                1 => Item::O(Own::make(v)),
                _ => Item::Z(Z16::make(v)),
            }
        }
        fn read(i: &Item) -> Result<(usize, u8), String> {
            match i {
                Item::A(t) => all(&[], t.get(), 0),
                Item::O(o) => all(&[], o.get(), 1),
                Item::Z(z) => all(&[], z.get(), 2),
            }
        }
        fn payload(_: usize, _: u8) -> Option<Cont> {
            None
        }
        fn set(b: &mut TaggedBox<Item>, var: usize, v: u8, by: Way) -> bool {
            match var {
                0 => put::<Tok, _>(b, v, by),
                1 => put::<Own, _>(b, v, by),
                _ => false,
            }
        }
        fn single(_: usize) -> bool {
            true
        }
        fn via_box(b: TaggedBox<Item>, var: usize) -> Item {
            unsafe {
                match var {
                    0 => Item::A(*TaggedBox::into_box::<Tok>(b)),
                    1 => Item::O(*TaggedBox::into_box::<Own>(b)),
                    _ => Item::Z(*TaggedBox::into_box::<Z16>(b)),
                }
            }
        }
        fn via_raw(b: TaggedBox<Item>, var: usize) -> TaggedBox<Item> {
            match var {
                0 => raw_trip::<Tok, _>(b),
                1 => raw_trip::<Own, _>(b),
                _ => raw_trip::<Z16, _>(b),
            }
        }
        access!();
    }
}

/// A family from a definition and its parts; in brackets the variants whose stored type has a name.
macro_rules! family {
    ($($(#[$at:meta])* $m:ident $fam:ident $name:expr, { $($def:tt)* } $n:literal, $shape:expr, $make:expr, $read:expr, $payload:expr,
      [$($single:literal $t:ty => $v:path),*];)*) => { $(
        $(#[$at])*
        pub mod $m {
            use super::*;
            tagged_box::tagged_box! {
                #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
                pub struct Cont, pub enum Item { $($def)* }
            }
            pub struct $fam;
            #[allow(unused_variables, unreachable_patterns)]
            impl Fam for $fam {
                type I = Item;
                type C = Cont;
                const NAME: &'static str = $name;
                const N: usize = $n;
                fn shape(var: usize) -> Shape {
                    let f: fn(usize) -> (i64, u64, bool, usize, usize) = $shape;
                    let (toks, clones, valued, size, align) = f(var);
                    Shape { toks, clones, valued, size, align, disc: var as u32 }
                }
                fn make(var: usize, v: u8) -> Item {
                    let f: fn(usize, u8) -> Item = $make;
                    f(var, v)
                }
                fn read(i: &Item) -> Result<(usize, u8), String> {
                    let f: fn(&Item) -> Result<(usize, u8), String> = $read;
                    f(i)
                }
                fn payload(var: usize, v: u8) -> Option<Cont> {
                    let f: fn(usize, u8) -> Option<Cont> = $payload;
                    f(var, v)
                }
                fn set(b: &mut TaggedBox<Item>, var: usize, v: u8, by: Way) -> bool {
                    match var {
                        $($single => put::<$t, _>(b, v, by),)*
                        _ => false,
                    }
                }
                fn single(var: usize) -> bool {
                    let s: &[usize] = &[$($single),*];
                    s.contains(&var)
                }
                fn via_box(b: TaggedBox<Item>, var: usize) -> Item {
                    match var {
                        $($single => $v(*unsafe { TaggedBox::into_box::<$t>(b) }),)*
                        _ => unreachable!(),
                    }
                }
                fn via_raw(b: TaggedBox<Item>, var: usize) -> TaggedBox<Item> {
                    match var {
                        $($single => raw_trip::<$t, _>(b),)*
                        _ => raw_trip::<u8, _>(b),
                    }
                }
                access!();
            }
        }
    )* };
}

// Enums with a single variant, of every shape.
family! {
    lone_unit LoneUnit "lone-unit", { U, } 1, |_| (0, 0, false, 0, 1), |_, _| Item::U, |_| Ok((0, 0)), |_, _| None, [];
    lone_empty LoneEmpty "lone-empty", { E(), } 1, |_| (0, 0, false, 0, 1), |_, _| Item::E(), |_| Ok((0, 0)), |_, _| Some(Cont::from(())), [];
    lone_one LoneOne "lone-one", { A(Tok), } 1, |_| (1, 1, true, 12, 4), |_, v| Item::A(Tok::make(v)), |i| {
        let Item::A(t) = i;
        all(&[], t.get(), 0)
    }, |_, v| Some(Cont::from(Tok::make(v))), [0 Tok => Item::A];
    lone_two LoneTwo "lone-two", { B(u64, Tok), } 1, |_| (1, 1, true, 20, 8), |_, v| Item::B(7 + v as u64, Tok::make(v)), |i| {
        let Item::B(n, t) = i;
        t.get().and_then(|v| all(&[*n == 7 + v as u64], Ok(v), 0))
    }, |_, v| Some(Cont::from((7 + v as u64, Tok::make(v)))), [];
    lone_zst LoneZst "lone-zst", { Z(Z16), } 1, |_| (1, 1, false, 0, 16), |_, v| Item::Z(Z16::make(v)), |i| {
        let Item::Z(z) = i;
        all(&[], z.get(), 0)
    }, |_, v| Some(Cont::from(Z16::make(v))), [0 Z16 => Item::Z];
    lone_field LoneField "lone-field", { S { t: Tok }, } 1, |_| (1, 1, true, 12, 4), |_, v| Item::S { t: Tok::make(v) }, |i| {
        let Item::S { t } = i;
        all(&[], t.get(), 0)
    }, |_, _| None, [];
    lone_struct LoneStruct "lone-struct", { S { a: u8, t: Tok, b: u64 }, } 1, |_| (1, 1, true, 21, 8), |_, v| Item::S { a: 10 + v, t: Tok::make(v), b: !(v as u64) }, |i| {
        let Item::S { a, t, b } = i;
        t.get().and_then(|v| all(&[*a == 10 + v, *b == !(v as u64)], Ok(v), 0))
    }, |_, _| None, [];
    lone_nothing LoneNothing "lone-nothing", { S {}, } 1, |_| (0, 0, false, 0, 1), |_, _| Item::S {}, |_| Ok((0, 0)), |_, _| None, [];
}

/// Two variants around a type: a tuple of one, and a struct with it behind a smaller field.
macro_rules! around {
    ($($m:ident $fam:ident $t:ty, $counted:literal;)*) => { family! { $(
        $m $fam stringify!($m), { V($t), S { a: u8, t: $t }, } 2,
        |var| ($counted, 1, true, var + std::mem::size_of::<$t>(), std::mem::align_of::<$t>()),
        |var, v| if var == 0 { Item::V(<$t>::make(v)) } else { Item::S { a: 10 + v, t: <$t>::make(v) } },
        |i| match i {
            Item::V(t) => all(&[], t.get(), 0),
            Item::S { a, t } => t.get().and_then(|v| all(&[*a == 10 + v], Ok(v), 1)),
        },
        |var, v| if var == 0 { Some(Cont::from(<$t>::make(v))) } else { None },
        [0 $t => Item::V];
    )* } };
}
around! {
    s5 S5 A1s5, 1;
    s8 S8 A8s8, 1;
    s16 S16 A1s16, 1;
    s24 S24 A8s24, 1;
    s33 S33 A1s33, 1;
    s64 S64 A64s64, 1;
    s129 S129 A1s129, 1;
    s257 S257 A1s257, 1;
    s1025 S1025 A1s1025, 1;
    s4097 S4097 A1s4097, 1;
    s65537 S65537 A1s65537, 1;
    a16 A16 A16s48, 1;
    a1024 A1024 A1024s1024, 1;
    p1 P1 Pod<1>, 0;
    p2 P2 Pod<2>, 0;
    p8 P8 Pod<8>, 0;
    p17 P17 Pod<17>, 0;
    p257 P257 Pod<257>, 0;
    p5000 P5000 Pod<5000>, 0;
}
