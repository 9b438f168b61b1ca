//! What the compiler says about boxes and containers, compared with what it says about their enums.
use mc::{cli, report};
use std::marker::PhantomData;
use tagged_box::{tagged_box, TaggableInner, TaggedBox, TaggedPointer};

/// `Has::<T>::NAME`: whether `T` (a concrete type) implements the trait.
pub struct Has<T>(PhantomData<T>);
macro_rules! traits { ($($name:ident $no:ident: $bound:path),*;) => { $(
    pub trait $no {
        const $name: bool = false;
    }
    impl<T> $no for Has<T> {}
    impl<T: $bound> Has<T> {
        pub const $name: bool = true;
    }
)* } }
macro_rules! all { ($m:ident) => { $m! {
    COPY NoCopy: Copy, CLONE NoClone: Clone, PARTIAL_EQ NoPartialEq: PartialEq, EQ NoEq: Eq, PARTIAL_ORD NoPartialOrd: PartialOrd, ORD NoOrd: Ord,
    DEBUG NoDebug: std::fmt::Debug, DISPLAY NoDisplay: std::fmt::Display;
} } }
all!(traits);

macro_rules! families { ($($m:ident [$($d:ident),*] $display:tt $p:ty;)*) => { $(
    pub mod $m {
        use super::*;
        #[derive($($d),*)]
        pub struct Pay(pub $p);
        tagged_box! {
            #[derive($($d),*)]
            pub struct Cont, pub enum Item { One(Pay), Two(u8, Pay), Rec { x: Pay, }, Unit, }
        }
        impl Cont {
            pub fn make() -> Cont {
                Cont { value: Item::Unit.into_tagged_box() }
            }
        }
        families!(@display $display);
    }
)*
/// Enum, its traits, the box's, the container's, in the order of `NAMES`.
pub fn table() -> Vec<(&'static str, [bool; 8], [bool; 8], [bool; 8])> {
    vec![$((
        stringify!($m),
        families!(@row $m::Item),
        families!(@row TaggedBox<$m::Item>),
        families!(@row $m::Cont),
    )),*]
}
};
    (@row $t:ty) => { [Has::<$t>::COPY, Has::<$t>::CLONE, Has::<$t>::PARTIAL_EQ, Has::<$t>::EQ, Has::<$t>::PARTIAL_ORD, Has::<$t>::ORD, Has::<$t>::DEBUG, Has::<$t>::DISPLAY] };
    (@display yes) => {
        impl std::fmt::Display for Item {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("item")
            }
        }
    };
    (@display no) => {};
}
families! {
    nothing [] no u8;
    clone_only [Clone] no u8;
    owner [Clone, Debug, PartialEq] no Box<u8>;
    copy [Clone, Copy] yes u8;
    partial [PartialEq] no f32;
    eq [PartialEq, Eq] yes u8;
    partial_ord [PartialEq, PartialOrd] no f64;
    ord [PartialEq, Eq, PartialOrd, Ord] no u8;
    debug [Debug] no u8;
    everything [Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord] yes u64;
    cloned_all [Clone, Debug, PartialEq, Eq, PartialOrd, Ord] yes String;
}
pub const NAMES: [(&str, &str); 8] = [("Copy", "C08"), ("Clone", "C11"), ("PartialEq", "C12"), ("Eq", "C12"), ("PartialOrd", "C12"), ("Ord", "C12"), ("Debug", "C13"), ("Display", "C13")];

/// A box has the traits its enum has. `Copy` it may have only then: two boxes would own one value.
fn main() {
    let c = cli::parse();
    let mut i = 0;
    let mut case = |name: String, f: &mut dyn FnMut()| {
        i += 1;
        if c.only.as_ref().map_or(c.mine(i), |o| *o == name) {
            report::begin_case(&name);
            f();
        }
    };
    for (name, item, boxed, cont) in table() {
        for (i, (t, prop)) in NAMES.iter().enumerate() {
            for (what, has, derived) in [("box", boxed[i], true), ("container", cont[i], i != 7)] {
                case(format!("fact:{t}:{what}:{name}"), &mut || {
                    report::count("facts", 1);
                    if item[i] && !has && derived {
                        report::violation(prop, format!("the {what} of an enum that is {t} is not"));
                    }
                    if !item[i] && has && i == 0 {
                        report::violation(prop, format!("the {what} of an enum that is not Copy can be copied: its value has two owners"));
                    }
                });
            }
        }
    }
    let word = [Has::<TaggedPointer>::COPY, Has::<TaggedPointer>::EQ, Has::<TaggedPointer>::ORD, Has::<TaggedPointer>::DEBUG];
    case("fact:pointer".into(), &mut || {
        if word != [true; 4] {
            report::violation("C03", "a tagged pointer cannot be copied, compared and shown");
        }
    });
    let _ = (nothing::Cont::make, clone_only::Cont::make, owner::Cont::make, copy::Cont::make, partial::Cont::make, eq::Cont::make);
    c.done()
}
