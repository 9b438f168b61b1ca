//! Payload types of every size and alignment class, with integrity checks and destructor accounting.
use crate::ledger;

/// A payload: a value in 0..4 that can be written, read back and verified, byte by byte.
pub trait Payload: Sized + 'static {
    const NAME: &'static str;
    /// Whether destruction of values is counted by the ledger.
    const COUNTED: bool = true;
    /// Whether two values can be told apart.
    const VALUED: bool = true;
    fn make(v: u8) -> Self;
    /// The value, or what is wrong with it.
    fn get(&self) -> Result<u8, String>;
    fn set(&mut self, v: u8);
}

fn fill(b: &mut [u8], serial: u32, v: u8) {
    b[..4].copy_from_slice(&(serial ^ 0x5A5A_1234).to_le_bytes());
    b[4] = v;
    for i in 5..b.len() {
        b[i] = (serial as u8).wrapping_mul(31).wrapping_add(v.wrapping_mul(7)).wrapping_add((i % 251) as u8);
    }
}
fn serial_of(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]]) ^ 0x5A5A_1234
}
fn verify(b: &[u8], name: &str) -> Result<u8, String> {
    let serial = serial_of(b);
    if !ledger::is_live(serial) {
        return Err(format!("{name}: value read that is not alive or was never stored"));
    }
    let v = b[4];
    for i in 5..b.len() {
        if b[i] != (serial as u8).wrapping_mul(31).wrapping_add(v.wrapping_mul(7)).wrapping_add((i % 251) as u8) {
            return Err(format!("{name}: byte {i} of the value is corrupted"));
        }
    }
    if v > 3 {
        return Err(format!("{name}: impossible value {v}"));
    }
    Ok(v)
}

macro_rules! toks {
    ($($name:ident $align:literal $size:literal),* $(,)?) => { $(
        #[repr(C, align($align))]
        pub struct $name { b: [u8; $size] }
        impl Payload for $name {
            const NAME: &'static str = concat!(stringify!($name), "/align", $align);
            fn make(v: u8) -> Self {
                let mut t = $name { b: [0; $size] };
                fill(&mut t.b, ledger::born(), v);
                t
            }
            fn get(&self) -> Result<u8, String> {
                if (self as *const Self as usize) % $align != 0 {
                    return Err(format!("{}: value at a misaligned address", Self::NAME));
                }
                verify(&self.b, Self::NAME)
            }
            fn set(&mut self, v: u8) {
                let s = serial_of(&self.b);
                fill(&mut self.b, s, v);
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::destroyed(serial_of(&self.b));
                self.b[4] = 0xEE;
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::user_call("clone");
                match self.get() {
                    Ok(v) => Self::make(v),
                    Err(e) => { ledger::problem(&format!("clone of a broken value: {e}")); Self::make(3) }
                }
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::user_call("eq");
                match (self.get(), o.get()) {
                    (Ok(a), Ok(b)) => a == b,
                    (a, b) => { ledger::problem(&format!("comparison of broken values: {a:?} {b:?}")); false }
                }
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::user_call("cmp");
                match (self.get(), o.get()) {
                    (Ok(a), Ok(b)) => a.cmp(&b),
                    (a, b) => { ledger::problem(&format!("comparison of broken values: {a:?} {b:?}")); std::cmp::Ordering::Equal }
                }
            }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::user_call("fmt");
                match self.get() {
                    Ok(v) => write!(f, "Tok{v}"),
                    Err(e) => { ledger::problem(&format!("formatting of a broken value: {e}")); write!(f, "?") }
                }
            }
        }
    )* };
}

// Sizes around every power of two and word boundary, odd sizes, alignments from 1 to 4096.
toks! {
    A1s5 1 5, A1s7 1 7, A1s8 1 8, A1s9 1 9, A1s15 1 15, A1s16 1 16, A1s17 1 17, A1s24 1 24, A1s31 1 31, A1s33 1 33,
    A1s64 1 64, A1s65 1 65, A1s127 1 127, A1s129 1 129, A1s255 1 255, A1s257 1 257, A1s1023 1 1023, A1s1025 1 1025, A1s4095 1 4095, A1s4097 1 4097,
    A1s65537 1 65537,
    A2s6 2 6, A2s10 2 10, A4s8 4 8, A4s12 4 12, A4s20 4 20, A8s8 8 8, A8s16 8 16, A8s24 8 24, A8s40 8 40,
    A16s16 16 16, A16s48 16 48, A32s32 32 32, A32s96 32 96, A64s64 64 64, A64s192 64 192, A128s128 128 128, A256s256 256 256,
    A512s512 512 512, A1024s1024 1024 1024, A4096s4096 4096 4096, A4096s8192 4096 8192,
}

pub type Tok = A4s12;

macro_rules! zsts {
    ($($name:ident $align:literal),*) => { $(
        #[repr(C, align($align))]
        pub struct $name { _a: [u64; 0] }
        impl Payload for $name {
            const NAME: &'static str = concat!(stringify!($name), "/align", $align);
            const VALUED: bool = false;
            fn make(_: u8) -> Self { ledger::zst_born(); $name { _a: [] } }
            fn get(&self) -> Result<u8, String> {
                if (self as *const Self as usize) % $align != 0 {
                    return Err(format!("{}: value at a misaligned address", Self::NAME));
                }
                Ok(0)
            }
            fn set(&mut self, _: u8) {}
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::zst_destroyed()
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let _g = crate::alloc::DomainGuard::enter(crate::alloc::USER);
                ledger::user_call("clone");
                Self::make(0)
            }
        }
        impl PartialEq for $name { fn eq(&self, _: &Self) -> bool { ledger::user_call("eq"); true } }
        impl Eq for $name {}
        impl PartialOrd for $name { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $name { fn cmp(&self, _: &Self) -> std::cmp::Ordering { ledger::user_call("cmp"); std::cmp::Ordering::Equal } }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { ledger::user_call("fmt"); f.write_str(stringify!($name)) }
        }
    )* };
}
zsts! { Z8 8, Z16 16, Z64 64, Z4096 4096 }

/// Align-1 zero-sized value with a destructor.
pub struct Z1(());
impl Payload for Z1 {
    const NAME: &'static str = "Z1/align1";
    const VALUED: bool = false;
    fn make(_: u8) -> Self {
        ledger::zst_born();
        Z1(())
    }
    fn get(&self) -> Result<u8, String> {
        Ok(0)
    }
    fn set(&mut self, _: u8) {}
}
impl Drop for Z1 {
    fn drop(&mut self) {
        ledger::zst_destroyed()
    }
}

/// A value that owns heap memory of its own.
pub struct Own(Box<A8s16>, Vec<u8>);
impl Payload for Own {
    const NAME: &'static str = "Own";
    fn make(v: u8) -> Self {
        crate::alloc::user(|| Own(Box::new(A8s16::make(v)), vec![v; 9]))
    }
    fn get(&self) -> Result<u8, String> {
        let v = self.0.get()?;
        if self.1.len() != 9 || self.1.iter().any(|b| *b != v) {
            return Err("Own: inner vector corrupted".into());
        }
        Ok(v)
    }
    fn set(&mut self, v: u8) {
        crate::alloc::user(|| {
            self.0.set(v);
            self.1 = vec![v; 9];
        })
    }
}
impl Clone for Own {
    fn clone(&self) -> Self {
        crate::alloc::user(|| Own(Box::new((*self.0).clone()), self.1.clone()))
    }
}
impl PartialEq for Own {
    fn eq(&self, o: &Self) -> bool {
        crate::alloc::user(|| {
            ledger::user_call("eq");
            self.get() == o.get()
        })
    }
}
impl Eq for Own {}
impl PartialOrd for Own {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Own {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        crate::alloc::user(|| {
            ledger::user_call("cmp");
            self.get().cmp(&o.get())
        })
    }
}
impl std::fmt::Debug for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        crate::alloc::user(|| {
            ledger::user_call("fmt");
            write!(f, "Own{:?}", self.get())
        })
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        // The fields free tracked user memory.
        crate::alloc::user(|| {
            let v = std::mem::take(&mut self.1);
            drop(v);
        })
    }
}

macro_rules! plain {
    ($($id:ident: $t:ty = [$($v:expr),*]),* $(,)?) => { $(
        impl Payload for $t {
            const NAME: &'static str = stringify!($id);
            const COUNTED: bool = false;
            fn make(v: u8) -> Self { [$($v),*][v as usize] }
            fn get(&self) -> Result<u8, String> {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
                    return Err(format!("{}: value at a misaligned address", Self::NAME));
                }
                let all: [$t; 4] = [$($v),*];
                // Compare representations, so that NaN and -0.0 are told apart.
                for (i, a) in all.iter().enumerate() {
                    if repr(a) == repr(self) { return Ok(i as u8) }
                }
                Err(format!("{}: value was never stored", Self::NAME))
            }
            fn set(&mut self, v: u8) { *self = Self::make(v) }
        }
    )* };
}
trait Bits: Copy { fn bits(self) -> u128; }
fn repr<T: Bits>(t: &T) -> u128 { (*t).bits() }
macro_rules! int_bits { ($($t:ty),*) => { $( impl Bits for $t { fn bits(self) -> u128 { self as u128 } } )* } }
int_bits!(u8, u16, u32, u64, u128, i8, i64, usize, bool, char);
impl Bits for f32 { fn bits(self) -> u128 { self.to_bits() as u128 } }
impl Bits for f64 { fn bits(self) -> u128 { self.to_bits() as u128 } }
impl Bits for Option<std::num::NonZeroU8> { fn bits(self) -> u128 { self.map_or(0, |v| v.get() as u128) } }
impl Bits for &'static str { fn bits(self) -> u128 { (self.as_ptr() as usize as u128) << 64 | self.len() as u128 } }
impl Bits for fn() -> u8 { fn bits(self) -> u128 { self() as u128 } }
impl Bits for [u8; 3] { fn bits(self) -> u128 { self[0] as u128 | (self[1] as u128) << 8 | (self[2] as u128) << 16 } }
static TEXT: [&str; 4] = ["", "a", "bc", "def"];
fn f0() -> u8 { 0 }
fn f1() -> u8 { 1 }
fn f2() -> u8 { 2 }
fn f3() -> u8 { 3 }
plain! {
    u8: u8 = [0, 1, 0x80, 0xFF],
    u16: u16 = [0, 1, 0x8000, 0xFFFF],
    u32: u32 = [0, 1, 0x8000_0000, u32::MAX],
    u64: u64 = [0, 1, 1 << 63, u64::MAX],
    u128: u128 = [0, 1, 1 << 127, u128::MAX],
    i8: i8 = [0, 1, -1, i8::MIN],
    i64: i64 = [0, 1, -1, i64::MIN],
    usize: usize = [0, 1, 1 << (usize::BITS - 1), usize::MAX],
    bool_: bool = [false, true, true, true],
    char_: char = ['\0', 'a', '\u{d7ff}', '\u{10ffff}'],
    f32: f32 = [0.0, -0.0, f32::NAN, f32::INFINITY],
    f64: f64 = [0.0, -0.0, f64::NAN, f64::NEG_INFINITY],
    opt_nonzero: Option<std::num::NonZeroU8> = [None, std::num::NonZeroU8::new(1), std::num::NonZeroU8::new(127), std::num::NonZeroU8::new(255)],
    str_: &'static str = [TEXT[0], TEXT[1], TEXT[2], TEXT[3]],
    array3: [u8; 3] = [[0, 0, 0], [1, 2, 3], [255, 0, 255], [255, 255, 255]],
    fn_ptr: fn() -> u8 = [f0 as fn() -> u8, f1, f2, f3],
}
impl Payload for () {
    const NAME: &'static str = "unit";
    const COUNTED: bool = false;
    const VALUED: bool = false;
    fn make(_: u8) {}
    fn get(&self) -> Result<u8, String> {
        Ok(0)
    }
    fn set(&mut self, _: u8) {}
}

/// A value without a destructor.
pub struct Pod<const N: usize>([u8; N]);
impl<const N: usize> Payload for Pod<N> {
    const NAME: &'static str = "pod";
    const COUNTED: bool = false;
    fn make(v: u8) -> Self {
        let mut b = [0; N];
        for (i, b) in b.iter_mut().enumerate() {
            *b = (0x40 + v) ^ (i % 251) as u8;
        }
        Pod(b)
    }
    fn get(&self) -> Result<u8, String> {
        let v = self.0[0].wrapping_sub(0x40);
        if v > 3 || self.0.iter().enumerate().any(|(i, b)| *b != (0x40 + v) ^ (i % 251) as u8) {
            return Err("a value without destructor is corrupted".into());
        }
        Ok(v)
    }
    fn set(&mut self, v: u8) {
        *self = Self::make(v)
    }
}
impl<const N: usize> Clone for Pod<N> {
    fn clone(&self) -> Self {
        ledger::user_call("clone");
        if let Err(e) = self.get() {
            ledger::problem(&format!("clone of a broken value: {e}"));
        }
        Pod(self.0)
    }
}
impl<const N: usize> PartialEq for Pod<N> {
    fn eq(&self, o: &Self) -> bool {
        ledger::user_call("eq");
        self.get() == o.get()
    }
}
impl<const N: usize> Eq for Pod<N> {}
impl<const N: usize> PartialOrd for Pod<N> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for Pod<N> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        ledger::user_call("cmp");
        self.get().cmp(&o.get())
    }
}
impl<const N: usize> std::fmt::Debug for Pod<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        ledger::user_call("fmt");
        write!(f, "Pod{:?}", self.get())
    }
}
