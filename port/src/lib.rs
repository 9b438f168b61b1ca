//! Explorer for programs without std (C23): own allocator, own entry point, system calls for output.
//! The crate is called `harness`, as programs generated for the std harness refer to it by that name.
#![no_std]
extern crate alloc;

pub mod explore;
pub mod probe;
pub mod sys;

use core::fmt::Write;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// What is being done, for the report if it goes wrong.
static mut CASE: [u8; 256] = [0; 256];
static CASE_LEN: AtomicUsize = AtomicUsize::new(0);
pub static DONE: AtomicUsize = AtomicUsize::new(0);

struct CaseWriter;
impl Write for CaseWriter {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let at = CASE_LEN.load(Relaxed);
        let n = s.len().min(256 - at);
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), (core::ptr::addr_of_mut!(CASE) as *mut u8).add(at), n) };
        CASE_LEN.store(at + n, Relaxed);
        Ok(())
    }
}
pub fn case(a: core::fmt::Arguments) {
    CASE_LEN.store(0, Relaxed);
    let _ = CaseWriter.write_fmt(a);
    DONE.fetch_add(1, Relaxed);
}
pub fn case_text() -> &'static str {
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(core::ptr::addr_of!(CASE) as *const u8, CASE_LEN.load(Relaxed))) }
}

/// Counts a check without naming it.
#[inline(always)]
pub fn tick() {
    DONE.fetch_add(1, Relaxed);
}

pub fn wrong(msg: &str) -> ! {
    let mut o = sys::Out;
    let _ = writeln!(o, "WRONG [{}] {}", case_text(), msg);
    sys::exit(1)
}
pub fn must(ok: bool, msg: &str) {
    if !ok {
        wrong(msg)
    }
}
pub fn summary() -> ! {
    let mut o = sys::Out;
    let _ = writeln!(o, "DONE {}", DONE.load(Relaxed));
    sys::exit(0)
}

#[cfg(not(feature = "std"))]
#[panic_handler]
fn on_panic(i: &core::panic::PanicInfo) -> ! {
    let mut o = sys::Out;
    let _ = writeln!(o, "PANIC [{}] {}", case_text(), i.message());
    sys::exit(77)
}
