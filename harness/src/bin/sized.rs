//! C07-C11, C17-C19: the histories of `enum`, with enums around values of many sizes and with single variants.
use harness::fams::*;
use harness::go;
use mc::{alloc, cli};

#[global_allocator]
static A: alloc::Checker = alloc::Checker;

fn main() {
    let c = cli::parse();
    let mut n = 0;
    let refuse = c.wants("C18");
    let faults = c.wants("C17");
    let plain = c.prop != "C17" && c.prop != "C18";
    macro_rules! each {
        ($mode:expr, $($f:path)*) => { $( go!(c, n, $f, 2, &[0, 1][..<$f as Fam>::N], $mode, 0); )* };
    }
    macro_rules! all {
        ($mode:expr) => {
            each!($mode, lone_unit::LoneUnit lone_empty::LoneEmpty lone_one::LoneOne lone_two::LoneTwo lone_zst::LoneZst lone_field::LoneField
                lone_struct::LoneStruct lone_nothing::LoneNothing s5::S5 s8::S8 s16::S16 s24::S24 s33::S33 s64::S64 s129::S129 s257::S257
                a16::A16 a1024::A1024 p1::P1 p2::P2 p8::P8 p17::P17);
        };
    }
    if plain {
        all!("ed");
        // The largest without deeply nested borrows: every look at a value reads all of it.
        each!("e", s1025::S1025 s4097::S4097 s65537::S65537 p257::P257 p5000::P5000);
    }
    if faults {
        all!("fe");
        each!("fe", s1025::S1025 s4097::S4097 p257::P257 p5000::P5000);
    }
    if refuse {
        each!("re", lone_one::LoneOne lone_two::LoneTwo lone_zst::LoneZst lone_field::LoneField s5::S5 s129::S129 s4097::S4097 a1024::A1024 p1::P1 p257::P257);
    }
    c.done()
}
