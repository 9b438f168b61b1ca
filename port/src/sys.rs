//! The two system calls needed, an entry point, and a checking allocator.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[cfg(target_arch = "x86_64")]
mod os {
    #[link(name = "c")]
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    pub fn out(s: &[u8]) {
        unsafe { write(1, s.as_ptr(), s.len()) };
    }
    pub fn exit(code: i32) -> ! {
        unsafe { _exit(code) }
    }
    #[no_mangle]
    pub extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
        super::enter(argc as usize, argv)
    }
    // The precompiled core and alloc mention them.
    #[no_mangle]
    extern "C" fn rust_eh_personality() {}
    #[no_mangle]
    extern "C" fn _Unwind_Resume() {}
}
#[cfg(target_arch = "x86")]
mod os {
    use core::arch::{asm, global_asm};
    global_asm!(".globl _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call port_start", "ud2");
    #[no_mangle]
    unsafe extern "C" fn port_start(sp: *const usize) -> ! {
        let argc = *sp;
        let r = super::enter(argc, sp.add(1) as *const *const u8);
        exit(r)
    }
    unsafe fn call3(n: usize, a: usize, b: usize, c: usize) -> usize {
        let r;
        // ebx is LLVM's.
        asm!("push ebx", "mov ebx, {a}", "int 0x80", "pop ebx", a = in(reg) a, inlateout("eax") n => r, in("ecx") b, in("edx") c);
        r
    }
    pub fn out(s: &[u8]) {
        unsafe { call3(4, 1, s.as_ptr() as usize, s.len()) };
    }
    pub fn exit(code: i32) -> ! {
        unsafe { call3(1, code as usize, 0, 0) };
        loop {}
    }
}
#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
mod os {
    // Compiled only.
    pub fn out(_: &[u8]) {}
    pub fn exit(_: i32) -> ! {
        loop {}
    }
}
pub use os::exit;

extern "Rust" {
    fn port_main(arg: &str);
}
#[allow(dead_code)]
fn enter(argc: usize, argv: *const *const u8) -> i32 {
    let arg = if argc > 1 {
        unsafe {
            let p = *argv.add(1);
            let mut n = 0;
            while *p.add(n) != 0 {
                n += 1;
            }
            core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n))
        }
    } else {
        ""
    };
    unsafe { port_main(arg) };
    crate::summary()
}

pub struct Out;
impl core::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        os::out(s.as_bytes());
        Ok(())
    }
}

// ---------------------------------------------------------------- allocator

const ARENA: usize = 8 << 20;
const BLOCKS: usize = 4096;
#[repr(align(4096))]
struct Arena(#[allow(dead_code)] core::cell::UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Arena {}
static MEM: Arena = Arena(core::cell::UnsafeCell::new([0; ARENA]));
#[derive(Clone, Copy)]
struct Block {
    at: usize,
    size: usize,
    align: usize,
    live: bool,
}
static mut TABLE: [Block; BLOCKS] = [Block { at: 0, size: 0, align: 0, live: false }; BLOCKS];
static USED: AtomicUsize = AtomicUsize::new(0);
static N: AtomicUsize = AtomicUsize::new(0);
/// The request to refuse, counting from now; 0 for none.
pub static REFUSE: AtomicUsize = AtomicUsize::new(0);

fn table() -> &'static mut [Block; BLOCKS] {
    unsafe { &mut *core::ptr::addr_of_mut!(TABLE) }
}

pub struct Checking;
const ZONE: usize = 16;
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let r = REFUSE.load(Relaxed);
        if r > 0 {
            REFUSE.store(r - 1, Relaxed);
            if r == 1 {
                return core::ptr::null_mut();
            }
        }
        crate::must(l.size() > 0, "a block of no size is requested");
        let base = MEM.0.get() as usize;
        let mut at = base + USED.load(Relaxed) + ZONE;
        // Aligned as asked and no better, so that asking for too little shows.
        at = (at + l.align() - 1) & !(l.align() - 1);
        if at & l.align() == 0 {
            at += l.align();
        }
        let end = at + l.size() + ZONE;
        let n = N.load(Relaxed);
        if end > base + ARENA || n == BLOCKS {
            crate::wrong("ran out of room");
        }
        let from = base + USED.load(Relaxed);
        for p in from..end {
            *(p as *mut u8) = if p >= at && p < at + l.size() { 0xA7 } else { 0xC3 };
        }
        table()[n] = Block { at, size: l.size(), align: l.align(), live: true };
        N.store(n + 1, Relaxed);
        USED.store(end - base, Relaxed);
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = N.load(Relaxed);
        match table()[..n].iter_mut().rev().find(|b| b.at == p as usize) {
            None => crate::wrong("something that is no block is freed"),
            Some(b) => {
                crate::must(b.live, "a block is freed twice");
                crate::must(b.size == l.size() && b.align == l.align(), "a block is freed with another layout");
                b.live = false;
                zones(b);
                for i in 0..b.size {
                    *(p.add(i)) = 0xE5;
                }
            }
        }
    }
}
unsafe fn zones(b: &Block) {
    for i in 1..=ZONE {
        crate::must(*((b.at - i) as *const u8) == 0xC3 && *((b.at + b.size - 1 + i) as *const u8) == 0xC3, "memory next to a block is written to");
    }
}
/// (bytes, alignment) of the live blocks: how many of them there are, and the last one.
pub fn live() -> (usize, Option<(usize, usize, usize)>) {
    let n = N.load(Relaxed);
    let t = &table()[..n];
    (t.iter().filter(|b| b.live).count(), t.iter().rev().find(|b| b.live).map(|b| (b.at, b.size, b.align)))
}
/// How many blocks were asked for since the last reset.
pub fn requests() -> usize {
    N.load(Relaxed)
}
/// Checks every block and forgets them all: blocks that are still live are lost.
pub fn reset() {
    for b in &table()[..N.load(Relaxed)] {
        unsafe { zones(b) };
        if !b.live {
            for i in 0..b.size {
                crate::must(unsafe { *((b.at + i) as *const u8) } == 0xE5, "a freed block is written to");
            }
        }
    }
    N.store(0, Relaxed);
    USED.store(0, Relaxed);
}
#[cfg(not(feature = "std"))]
#[global_allocator]
static A: Checking = Checking;
/// Checks every block, and forgets those at the end of the table that are no longer live.
pub fn reset_keep() {
    let mut n = N.load(Relaxed);
    for b in &table()[..n] {
        unsafe { zones(b) };
    }
    while n > 0 && !table()[n - 1].live {
        n -= 1;
    }
    N.store(n, Relaxed);
    let base = MEM.0.get() as usize;
    USED.store(if n == 0 { 0 } else { table()[n - 1].at + table()[n - 1].size + ZONE - base }, Relaxed);
}
