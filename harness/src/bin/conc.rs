//! C20: boxes shared between threads and moved between threads, under a controlled scheduler.
//!
//! Two or three real threads run operations on shared (and moved) boxes; only one runs at a time. Three layers:
//! * points: every interleaving at user-code entries and allocator calls (`--prop C20`, worlds "p…");
//! * steps: thread A is stopped after each single machine instruction of its operation, thread B runs its whole
//!   operation there, then A goes on (one preemption, at every instruction; worlds "s…"), and in the thorough
//!   tier with a second preemption of B;
//! * under Miri (the same program): the layer "points" with hand-overs that order nothing in memory (Relaxed),
//!   so that Miri's race detector judges every schedule by the program's own synchronisation alone.
use mc::{alloc, cli, report};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

// ---------------------------------------------------------------- the scheduler

const T: usize = 3;
const POINTS: usize = 512;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
const NOBODY: u32 = 99;
static CUR: AtomicU32 = AtomicU32::new(NOBODY);
static RUNNABLE: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);
/// What to choose at the k-th point (0: go on with the current thread), and how many could be chosen.
static CHOICE: [AtomicU32; POINTS] = [const { AtomicU32::new(0) }; POINTS];
static WIDTH: [AtomicU32; POINTS] = [const { AtomicU32::new(0) }; POINTS];
static OVERFLOW: AtomicBool = AtomicBool::new(false);
static POINTS_ON: AtomicBool = AtomicBool::new(true);
/// The thread let in waits for one that is held: the rest of the schedule is the machine's.
static FREE: AtomicBool = AtomicBool::new(false);
static RELEASED: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}
fn hand_over(to: u32) {
    if cfg!(miri) {
        CUR.store(to, Relaxed);
    } else {
        CUR.store(to, SeqCst);
        unsafe { syscall(202, CUR.as_ptr(), 1u64, i32::MAX, 0usize) };
    }
}
fn wait_for(me: u32) {
    let mut yields = 0;
    loop {
        let c = CUR.load(if cfg!(miri) { Relaxed } else { SeqCst });
        if c == me || FREE.load(Relaxed) {
            return;
        }
        if cfg!(miri) {
            yields += 1;
            if yields > 100_000 {
                FREE.store(true, Relaxed);
            }
            std::thread::yield_now();
        } else {
            unsafe { syscall(202, CUR.as_ptr(), 0u64, c, 0usize) };
        }
    }
}
/// The runnable threads, the current one first.
fn order(me: usize) -> ([usize; T], usize) {
    let r = RUNNABLE.load(Relaxed);
    let (mut v, mut n) = ([0; T], 0);
    if r >> me & 1 == 1 {
        v[0] = me;
        n = 1;
    }
    for t in 0..T {
        if t != me && r >> t & 1 == 1 {
            v[n] = t;
            n += 1;
        }
    }
    (v, n)
}
fn decide(me: usize) -> Option<usize> {
    let (v, n) = order(me);
    if n == 0 {
        return None;
    }
    if n == 1 {
        return Some(v[0]);
    }
    let p = POS.fetch_add(1, Relaxed);
    if p >= POINTS {
        OVERFLOW.store(true, Relaxed);
        return Some(v[0]);
    }
    WIDTH[p].store(n as u32, Relaxed);
    let c = if p < LEN.load(Relaxed) { CHOICE[p].load(Relaxed) } else { 0 };
    CHOICE[p].store(c, Relaxed);
    Some(v[(c as usize).min(n - 1)])
}
/// A place where another thread may be let in.
fn point(_: &'static str) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || !POINTS_ON.load(Relaxed) || FREE.load(Relaxed) || BUSY.with(|b| b.replace(true)) {
        return;
    }
    let _u = alloc::DomainGuard::enter(alloc::NONE);
    if let Some(t) = decide(me) {
        if t != me {
            hand_over(t as u32);
            wait_for(me as u32);
        }
    }
    BUSY.with(|b| b.set(false));
}

// ---------------------------------------------------------------- single stepping

#[cfg(all(not(miri), target_arch = "x86_64"))]
mod step {
    use super::*;
    use std::arch::asm;
    thread_local! {
        /// Stepping is wanted in this thread (paused inside the allocator and other code that holds locks).
        static ON: Cell<bool> = const { Cell::new(false) };
    }
    /// Stop after that many instructions; MAX: never. One per thread.
    pub static STOP: [AtomicUsize; T] = [const { AtomicUsize::new(usize::MAX) }; T];
    pub static STEPS: [AtomicUsize; T] = [const { AtomicUsize::new(0) }; T];

    #[inline(always)]
    unsafe fn tf_on() {
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    #[inline(always)]
    unsafe fn tf_off() {
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    pub fn start(me: usize) {
        STEPS[me].store(0, Relaxed);
        if STOP[me].load(Relaxed) != usize::MAX {
            ON.with(|o| o.set(true));
            unsafe { tf_on() }
        }
    }
    pub fn end() {
        unsafe { tf_off() }
        ON.with(|o| o.set(false));
    }
    pub fn pause() -> bool {
        let on = ON.try_with(|o| o.replace(false)).unwrap_or(false);
        if on {
            unsafe { tf_off() }
        }
        on
    }
    pub fn resume(on: bool) {
        if on {
            ON.with(|o| o.set(true));
            unsafe { tf_on() }
        }
    }
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    }
    // ucontext_t on x86_64: flags, link, stack (24 bytes), then gregs; REG_EFL is the 18th.
    const EFL: usize = 8 + 8 + 24 + 17 * 8;
    unsafe extern "C" fn trap(_: i32, _: *mut u8, ctx: *mut u8) {
        let efl = ctx.add(EFL) as *mut u64;
        let me = ME.with(|m| m.get());
        if me == usize::MAX || !ON.with(|o| o.get()) {
            *efl &= !0x100;
            return;
        }
        let n = STEPS[me].load(Relaxed) + 1;
        STEPS[me].store(n, Relaxed);
        if n == STOP[me].load(Relaxed) {
            ON.with(|o| o.set(false));
            *efl &= !0x100;
            let (v, k) = order(me);
            if k > 1 && !FREE.load(Relaxed) {
                hand_over(v[1] as u32);
                wait_for(me as u32);
            }
        }
    }
    pub fn install() {
        let a = SigAction { handler: trap as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        assert_eq!(unsafe { sigaction(5, &a, std::ptr::null_mut()) }, 0, "sigaction");
    }
}
#[cfg(not(all(not(miri), target_arch = "x86_64")))]
mod step {
    pub fn start(_: usize) {}
    pub fn end() {}
    pub fn pause() -> bool {
        false
    }
    pub fn resume(_: bool) {}
}

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = step::pause();
        // No records under Miri: their lock would order the threads' accesses.
        let p = if cfg!(miri) {
            if alloc::domain() == alloc::LIB {
                point("alloc");
            }
            std::alloc::System.alloc(l)
        } else {
            alloc::Checker.alloc(l)
        };
        step::resume(s);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = step::pause();
        if cfg!(miri) {
            if alloc::domain() == alloc::LIB {
                point("free");
            }
            std::alloc::System.dealloc(p, l)
        } else {
            alloc::Checker.dealloc(p, l)
        }
        step::resume(s);
    }
}
#[global_allocator]
static A: Alloc = Alloc;

// ---------------------------------------------------------------- payloads

static BORN: AtomicUsize = AtomicUsize::new(0);
static GONE: AtomicUsize = AtomicUsize::new(0);
static BROKEN: AtomicUsize = AtomicUsize::new(0);
static PANICS: AtomicUsize = AtomicUsize::new(0);

/// A value that knows whether it is intact. Reading it is a switching point, before and in the middle.
pub struct V {
    a: u64,
    b: u64,
}
impl V {
    fn new(a: u64) -> V {
        BORN.fetch_add(1, Relaxed);
        V { a, b: !a.rotate_left(7) }
    }
    fn get(&self) -> u64 {
        let a = unsafe { std::ptr::read_volatile(&self.a) };
        point("read");
        let b = unsafe { std::ptr::read_volatile(&self.b) };
        if b != !a.rotate_left(7) {
            BROKEN.fetch_add(1, Relaxed);
            return u64::MAX;
        }
        a
    }
    fn set(&mut self, a: u64) {
        self.a = a;
        point("write");
        self.b = !a.rotate_left(7);
    }
}
impl Drop for V {
    fn drop(&mut self) {
        self.get();
        GONE.fetch_add(1, Relaxed);
        self.b = 1;
        self.a = 2;
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.get())
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.get() == o.get()
    }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> std::cmp::Ordering {
        self.get().cmp(&o.get())
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let v = self.get();
        f.write_str(["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "?"][v.min(8) as usize])
    }
}
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let v = self.get();
        f.write_str(["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "?"][v.min(8) as usize])
    }
}

tagged_box::tagged_box! {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Cont, pub enum Item {
        One(V),
        Two(u8, V, u16),
        Rec { x: u16, v: V },
        Unit,
    }
}
impl Item {
    fn make(var: usize, a: u64) -> Item {
        match var {
            0 => Item::One(V::new(a)),
            1 => Item::Two(a as u8, V::new(a), !(a as u16)),
            2 => Item::Rec { x: a as u16, v: V::new(a) },
            _ => Item::Unit,
        }
    }
    /// Variant and value in one number.
    fn read(&self) -> u64 {
        match self {
            Item::One(v) => v.get(),
            Item::Two(x, v, y) => {
                let a = v.get();
                if *x == a as u8 && *y == !(a as u16) { 100 + a } else { u64::MAX - 1 }
            }
            Item::Rec { x, v } => {
                let a = v.get();
                if *x == a as u16 { 200 + a } else { u64::MAX - 2 }
            }
            Item::Unit => 300,
        }
    }
}
impl fmt::Debug for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Item::One(v) => fmt::Debug::fmt(v, f),
            Item::Two(_, v, _) => {
                f.write_str("two ")?;
                fmt::Debug::fmt(v, f)
            }
            Item::Rec { v, .. } => {
                f.write_str("rec ")?;
                fmt::Debug::fmt(v, f)
            }
            Item::Unit => f.write_str("unit"),
        }
    }
}
impl fmt::Display for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Item::One(v) | Item::Two(_, v, _) | Item::Rec { v, .. } => fmt::Display::fmt(v, f),
            Item::Unit => f.write_str("u"),
        }
    }
}

/// What the threads share: two boxes and a container of a variant; and one box for each thread to keep.
struct Shared {
    x: TaggedBox<Item>,
    y: TaggedBox<Item>,
    c: Cont,
}
/// A text collected without allocation.
struct Text {
    b: [u8; 24],
    n: usize,
}
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.bytes() {
            if self.n < 24 {
                self.b[self.n] = c;
            }
            self.n += 1;
        }
        Ok(())
    }
}
impl Text {
    fn hash(&self) -> u64 {
        let mut h = self.n as u64 + 1;
        for b in &self.b[..self.n.min(24)] {
            h = h.wrapping_mul(0x100_0000_01B3) ^ *b as u64;
        }
        h
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Clone,
    CloneCont,
    Eq,
    Cmp,
    Debug,
    Display,
    Borrow,
    BorrowTwo,
    Raw,
    // On a box moved to the thread, or made by it.
    MovedTake,
    MovedSet,
    MovedClone,
    NewAndTake,
}
const OPS: [Op; 13] = [
    Op::Clone, Op::CloneCont, Op::Eq, Op::Cmp, Op::Debug, Op::Display, Op::Borrow, Op::BorrowTwo, Op::Raw, Op::MovedTake, Op::MovedSet, Op::MovedClone,
    Op::NewAndTake,
];

fn word<T>(t: &TaggedBox<T>) -> u64 {
    unsafe { std::mem::transmute_copy(t) }
}
/// Runs one operation; the result in one number that does not depend on addresses.
fn run_op(op: Op, s: &Shared, own: &mut Option<TaggedBox<Item>>, me: usize) -> u64 {
    let ord = |o: std::cmp::Ordering| o as i8 as i64 as u64;
    alloc::lib(|| match op {
        Op::Clone => {
            let c = s.x.clone();
            let d = c.discriminant() as u64;
            let apart = word(&c) != word(&s.x) || matches!(s.x.discriminant(), 3);
            let i = Item::from_tagged_box(c);
            i.read() * 8 + d * 2 + apart as u64
        }
        Op::CloneCont => {
            let c = s.c.clone();
            let i = c.into_inner();
            i.read()
        }
        Op::Eq => {
            // The threads name the two boxes in opposite orders: whatever a
            // comparison holds while it looks at one of them is asked for in
            // both orders.
            let r = match me % 2 {
                0 => [s.x == s.y, s.x == s.x, s.c == s.c, s.x != s.y, s.y == s.x],
                _ => [s.y == s.x, s.x == s.x, s.c == s.c, s.y != s.x, s.x == s.y],
            };
            r.iter().fold(0, |a, b| a * 2 + *b as u64)
        }
        Op::Cmp => {
            let (a, b) = if me % 2 == 0 { (&s.x, &s.y) } else { (&s.y, &s.x) };
            ord(a.cmp(b)).wrapping_mul(3) ^ b.partial_cmp(a).map_or(77, ord) ^ ((a < b) as u64) << 40
        }
        Op::Debug => {
            let mut t = Text { b: [0; 24], n: 0 };
            let r = fmt::write(&mut t, format_args!("{:?}", s.x));
            (t.hash() >> 2) * 2 + r.is_ok() as u64
        }
        Op::Display => {
            let mut t = Text { b: [0; 24], n: 0 };
            let r = fmt::write(&mut t, format_args!("{}", s.y));
            (t.hash() >> 2) * 2 + r.is_ok() as u64
        }
        Op::Borrow => {
            let mut r = 0;
            let mut n = 0;
            unsafe {
                Item::ref_from_tagged_box(&s.x, |i| {
                    point("callback");
                    r = i.read();
                    n += 1;
                })
            };
            r * 4 + n
        }
        Op::BorrowTwo => {
            let mut r = 0;
            unsafe {
                Item::ref_from_tagged_box(&s.x, |i| {
                    Item::ref_from_tagged_box(&s.y, |j| {
                        point("callback");
                        r = i.read() * 1000 + j.read();
                    })
                })
            };
            r
        }
        Op::Raw => {
            let d = s.x.discriminant();
            let v = match d {
                0 => unsafe { s.x.as_ref::<V>().get() },
                _ => 5,
            };
            v * 64 + d as u64
        }
        Op::MovedTake => match own.take() {
            Some(b) => Item::from_tagged_box(b).read(),
            None => 7777,
        },
        Op::MovedSet => match own {
            Some(b) => {
                unsafe { b.as_mut_ref::<V>() }.set(4 + me as u64);
                let mut r = 0;
                unsafe { Item::ref_from_tagged_box(b, |i| r = i.read()) };
                r
            }
            None => 7777,
        },
        Op::MovedClone => match own {
            Some(b) => {
                let c = b.clone();
                let old = std::mem::replace(b, c);
                Item::from_tagged_box(old).read()
            }
            None => 7777,
        },
        Op::NewAndTake => {
            let c = Cont::from(Item::make(me % 3, 3 + me as u64));
            let mut r = c.value.discriminant() as u64;
            unsafe { Item::ref_from_tagged_box(&c.value, |i| r = r * 1000 + i.read()) };
            r * 1000 + c.into_inner().read()
        }
    })
}

// ---------------------------------------------------------------- running one schedule

struct Case {
    var: usize,
    ops: Vec<Vec<Op>>,
}
static RESULT: [[AtomicUsize; 4]; T] = [const { [const { AtomicUsize::new(0) }; 4] }; T];

fn body(me: usize, ops: &[Op], s: &Shared, mut own: Option<TaggedBox<Item>>) {
    for (k, op) in ops.iter().enumerate() {
        if k == 0 {
            step::start(me);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_op(*op, s, &mut own, me)));
        if k == 0 {
            step::end();
        }
        let r = r.unwrap_or_else(|_| {
            PANICS.fetch_add(1, Relaxed);
            0xBAD
        });
        RESULT[me][k].store(r as usize, Relaxed);
    }
    if let Some(b) = own {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| alloc::lib(|| Item::from_tagged_box(b).read())));
        let r = r.unwrap_or_else(|_| {
            PANICS.fetch_add(1, Relaxed);
            0xBAD
        });
        RESULT[me][3].store(r as usize, Relaxed);
    }
}

struct Out {
    results: [[usize; 4]; T],
    words: bool,
    left: [u64; 3],
    balance: i64,
    broken: usize,
    memory: Vec<String>,
}

type Job = (usize, *const Case, *const Shared);

struct Slot(std::cell::UnsafeCell<Option<(Job, Option<TaggedBox<Item>>)>>);
unsafe impl Sync for Slot {}
static SLOT: [Slot; T] = [const { Slot(std::cell::UnsafeCell::new(None)) }; T];
static EPOCH: [AtomicU32; T] = [const { AtomicU32::new(0) }; T];
static DONE: AtomicU32 = AtomicU32::new(0);
fn wait_while(a: &AtomicU32, v: u32) {
    while a.load(Acquire) == v {
        if cfg!(miri) {
            std::thread::yield_now();
        } else {
            unsafe { syscall(202, a.as_ptr(), 0u64, v, 0usize) };
        }
    }
}
fn wake(a: &AtomicU32) {
    if !cfg!(miri) {
        unsafe { syscall(202, a.as_ptr(), 1u64, i32::MAX, 0usize) };
    }
}
/// Worker threads that live as long as the process. What passes between them and the main thread is ordered
/// (Acquire, Release); nothing orders the workers of one case with each other.
struct Pool;
fn work(job: Job, own: Option<TaggedBox<Item>>) {
    let (me, case, s) = job;
    ME.with(|m| m.set(me));
    wait_for(me as u32);
    let ops = unsafe { &(&(*case).ops)[me] };
    body(me, ops, unsafe { &*s }, own);
    ME.with(|m| m.set(usize::MAX));
    // Finished: hand over to whoever is left.
    RUNNABLE.fetch_and(!(1 << me), Relaxed);
    match decide(me) {
        Some(t) => hand_over(t as u32),
        None => hand_over(NOBODY),
    }
}
impl Pool {
    fn new() -> Self {
        for t in 0..T {
            std::thread::spawn(move || {
                let mut seen = 0;
                loop {
                    wait_while(&EPOCH[t], seen);
                    seen = EPOCH[t].load(Acquire);
                    let (job, own) = unsafe { (*SLOT[t].0.get()).take() }.unwrap();
                    work(job, own);
                    DONE.fetch_add(1, AcqRel);
                    wake(&DONE);
                }
            });
        }
        Pool
    }
}

/// Waits until `n` threads are done. A schedule that keeps the running thread waiting for one that is held (it may:
/// nothing says that the code takes no locks) is let go; if the threads do not finish then, they never will.
#[cfg(not(miri))]
fn finish(n: u32) {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    // The processor time of this process, and the time, in milliseconds.
    let now = || unsafe {
        let (mut a, mut b) = ([0; 2], [0; 2]);
        clock_gettime(2, &mut a);
        clock_gettime(1, &mut b);
        [a, b].map(|t| t[0] * 1000 + t[1] / 1_000_000)
    };
    let seen = || (DONE.load(Acquire), CUR.load(Relaxed), POS.load(Relaxed), alloc::exhausted());
    let (mut last, mut since) = (seen(), None);
    loop {
        let d = DONE.load(Acquire);
        if d == n {
            return;
        }
        let wait: [i64; 2] = [0, 5_000_000];
        unsafe { syscall(202, DONE.as_ptr(), 0u64, d, wait.as_ptr()) };
        let (s, t) = (seen(), now());
        let start = *since.get_or_insert(t);
        if s != last {
            (last, since) = (s, Some(t));
            continue;
        }
        let (busy, passed) = (t[0] - start[0], t[1] - start[1]);
        if !FREE.load(Relaxed) {
            let many = RELEASED.load(Relaxed) > 50;
            if busy > if many { 4 } else { 200 } || passed > 20_000 {
                if RELEASED.fetch_add(1, Relaxed) > 5_000 {
                    report::capped();
                }
                report::count("released", 1);
                FREE.store(true, SeqCst);
                wake(&CUR);
                since = None;
            }
        } else if busy > 5_000 || passed > 60_000 {
            report::violation("C20", "threads that only read shared boxes wait for each other for ever");
            stop();
        }
    }
}
#[cfg(miri)]
fn finish(n: u32) {
    let mut yields = 0;
    while DONE.load(Acquire) != n {
        yields += FREE.load(Relaxed) as usize;
        if yields > 400_000 {
            report::violation("C20", "threads that only read shared boxes wait for each other for ever");
            stop();
        }
        std::thread::yield_now();
    }
}
/// Ends the process with what has been found: the threads cannot be used again.
fn stop() -> ! {
    cli::done_now()
}

fn execute(c: &Case) -> Out {
    alloc::begin();
    BORN.store(0, Relaxed);
    GONE.store(0, Relaxed);
    BROKEN.store(0, Relaxed);
    PANICS.store(0, Relaxed);
    for r in RESULT.iter().flatten() {
        r.store(0, Relaxed);
    }
    let n = c.ops.len();
    let s = alloc::lib(|| Shared {
        x: Item::make(c.var, 1).into_tagged_box(),
        y: Item::make(c.var, 2).into_tagged_box(),
        c: Cont::from(Item::make(c.var, 3)),
    });
    let own: Vec<TaggedBox<Item>> = (0..n).map(|t| alloc::lib(|| Item::make(0, t as u64).into_tagged_box())).collect();
    let words = [word(&s.x), word(&s.y), word(&s.c.value)];
    POS.store(0, Relaxed);
    RUNNABLE.store((1 << n) - 1, Relaxed);
    CUR.store(NOBODY, Relaxed);
    FREE.store(false, Relaxed);
    let jobs = own.into_iter().enumerate().map(|(t, b)| ((t, c as *const Case, &s as *const Shared), Some(b)));
    // The first thread to run is a choice as well.
    let first = {
        let p = POS.fetch_add(1, Relaxed);
        WIDTH[p].store(n as u32, Relaxed);
        let k = if p < LEN.load(Relaxed) { CHOICE[p].load(Relaxed) } else { 0 };
        CHOICE[p].store(k, Relaxed);
        k
    };
    DONE.store(0, Release);
    for (t, j) in jobs.enumerate() {
        unsafe { *SLOT[t].0.get() = Some(j) };
        EPOCH[t].fetch_add(1, AcqRel);
        wake(&EPOCH[t]);
    }
    hand_over(first);
    finish(n as u32);
    let same = words == [word(&s.x), word(&s.y), word(&s.c.value)];
    let Shared { x, y, c } = s;
    let left = alloc::lib(|| [Item::from_tagged_box(x).read(), Item::from_tagged_box(y).read(), c.into_inner().read()]);
    let mut results = [[0; 4]; T];
    for t in 0..T {
        for k in 0..4 {
            results[t][k] = RESULT[t][k].load(Relaxed);
        }
    }
    let balance = BORN.load(Relaxed) as i64 - GONE.load(Relaxed) as i64;
    Out { results, words: same, left, balance, broken: BROKEN.load(Relaxed), memory: if cfg!(miri) { vec![] } else { alloc::check() } }
}

/// What each operation gives alone: every thread run by itself, one after the other.
fn judge(c: &Case, o: &Out, alone: &[[usize; 4]; T]) {
    if PANICS.load(Relaxed) > 0 {
        report::violation("C20", format!("unexpected panic: {}", report::last_panic()));
    }
    if o.results != *alone {
        let t = (0..T).find(|t| o.results[*t] != alone[*t]).unwrap();
        let k = (0..4).find(|k| o.results[t][*k] != alone[t][*k]).unwrap();
        let op = c.ops[t].get(k).map_or("reading a moved box at the end".to_string(), |op| format!("{op:?}"));
        report::violation("C20", format!("{op} gives another result next to other threads than alone"));
    }
    let v = c.var as u64;
    if !o.words || o.left != [v * 100 + (v < 3) as u64, v * 100 + 2 * (v < 3) as u64, v * 100 + 3 * (v < 3) as u64] {
        report::violation("C20", "a shared box was changed by threads that only read it");
    }
    if o.broken > 0 {
        report::violation("C20", "a thread saw a broken value");
    }
    if o.balance != 0 {
        report::violation("C20", if o.balance > 0 { "a value was never destroyed" } else { "a value was destroyed twice" });
    }
    for m in &o.memory {
        report::violation("C20", m);
    }
}

fn alone(c: &Case) -> [[usize; 4]; T] {
    // Each thread in a case of its own.
    let mut r = [[0; 4]; T];
    POINTS_ON.store(false, Relaxed);
    for t in 0..c.ops.len() {
        let mut ops = vec![vec![]; c.ops.len()];
        ops[t] = c.ops[t].clone();
        LEN.store(0, Relaxed);
        let o = execute(&Case { var: c.var, ops });
        if PANICS.load(Relaxed) > 0 {
            report::violation("C20", format!("unexpected panic: {}", report::last_panic()));
        }
        r[t] = o.results[t];
    }
    POINTS_ON.store(true, Relaxed);
    r
}

fn case_name(kind: &str, c: &Case) -> String {
    let ops: Vec<String> = c.ops.iter().map(|t| t.iter().map(|o| OPS.iter().position(|x| x == o).unwrap().to_string()).collect::<Vec<_>>().join("+")).collect();
    format!("{kind}/{}/{}", c.var, ops.join("|"))
}
fn parse_case(s: &str) -> Case {
    let mut p = s.split('/').skip(1);
    let var = p.next().unwrap().parse().unwrap();
    let ops = p.next().unwrap().split('|').map(|t| t.split('+').map(|o| OPS[o.parse::<usize>().unwrap()]).collect()).collect();
    Case { var, ops }
}

/// Every interleaving of the points (with at most `bound` switches away from a thread that could go on).
fn points(c: &Case, bound: usize, only: Option<&[u32]>) {
    let name = case_name("p", c);
    report::begin_case(&format!("{name}:"));
    let base = alone(c);
    let mut schedule: Vec<u32> = only.map_or(vec![], |o| o.to_vec());
    let (mut n, mut states, mut moves) = (0u64, 0u64, 0u64);
    loop {
        LEN.store(schedule.len(), Relaxed);
        for (k, v) in schedule.iter().enumerate() {
            CHOICE[k].store(*v, Relaxed);
        }
        let text = schedule.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
        report::begin_case(&format!("{name}:{text}"));
        let o = execute(c);
        judge(c, &o, &base);
        n += 1;
        if only.is_some() {
            break;
        }
        let done = POS.load(Relaxed).min(POINTS);
        states += (done + 1 - schedule.len().min(done + 1)) as u64;
        moves += done as u64;
        let taken: Vec<(u32, u32)> = (0..done).map(|k| (CHOICE[k].load(Relaxed), WIDTH[k].load(Relaxed))).collect();
        // Next schedule in depth-first order, within the bound.
        let mut next = None;
        for k in (0..done).rev() {
            let used = taken[1.min(k)..k].iter().filter(|t| t.0 > 0).count();
            let cost = (k > 0) as usize;
            if taken[k].0 + 1 < taken[k].1 && used + cost <= bound {
                next = Some(k);
                break;
            }
        }
        match next {
            Some(k) => {
                schedule = taken[..k].iter().map(|t| t.0).collect();
                schedule.push(taken[k].0 + 1);
            }
            None => break,
        }
        if n % 4001 == 17 {
            report::sample(format!("{:?} var {} schedule {text}", c.ops, c.var));
        }
    }
    report::count("schedules", n);
    // Decision points first met in this schedule; decisions taken.
    report::count("states", states);
    report::count("transitions", moves);
    if OVERFLOW.load(Relaxed) {
        report::capped();
    }
}

#[cfg(all(not(miri), target_arch = "x86_64"))]
fn steps(c: &Case, two: bool, only: Option<(usize, usize)>) {
    const COUNT: usize = usize::MAX - 1;
    let name = case_name("s", c);
    report::begin_case(&format!("{name}:99999999,99999999"));
    let base = alone(c);
    POINTS_ON.store(false, Relaxed);
    LEN.store(0, Relaxed);
    let one = |a: usize, b: usize| -> usize {
        step::STOP[0].store(a, Relaxed);
        step::STOP[1].store(b, Relaxed);
        report::begin_case(&format!("{name}:{a},{b}"));
        let o = execute(c);
        judge(c, &o, &base);
        report::count("schedules", 1);
        report::count("states", 1);
        report::count("transitions", 1);
        step::STEPS[1].load(Relaxed)
    };
    if let Some((a, b)) = only {
        one(a, b);
    } else {
        one(COUNT, usize::MAX);
        let n = step::STEPS[0].load(Relaxed);
        report::count("instructions_preempted", n as u64);
        for a in 1..n.min(4000) {
            if !two {
                one(a, usize::MAX);
                continue;
            }
            // A stops after a instructions, B after b; then A runs to its end, then B.
            let m = one(a, COUNT);
            for b in 1..m {
                one(a, b);
            }
        }
    }
    step::STOP[0].store(usize::MAX, Relaxed);
    step::STOP[1].store(usize::MAX, Relaxed);
    POINTS_ON.store(true, Relaxed);
}
#[cfg(not(all(not(miri), target_arch = "x86_64")))]
fn steps(_: &Case, _: bool, _: Option<(usize, usize)>) {}

fn main() {
    let c = cli::parse();
    assert_eq!(std::mem::size_of::<Shared>(), 24);
    if !cfg!(miri) {
        let _ = alloc::HOOK.set(point);
        // All threads of this process on one core: handing over is then a plain switch.
        let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
        let mask = [1u64 << (c.shard.0 % cores.min(64)), 0];
        unsafe { sched_setaffinity(0, 16, mask.as_ptr()) };
        #[cfg(all(not(miri), target_arch = "x86_64"))]
        step::install();
    }
    Pool::new();
    if let Some(o) = &c.only {
        let (w, ch) = o.split_once(':').unwrap();
        let case = parse_case(w);
        let v: Vec<u32> = ch.split(',').filter(|x| !x.is_empty() && x.len() < 9).map(|x| x.parse().unwrap()).collect();
        if w.starts_with('p') {
            points(&case, 0, Some(&v));
        } else {
            let v: Vec<usize> = ch.split(',').map(|x| x.parse().unwrap()).collect();
            steps(&case, true, Some((v[0], v[1])));
        }
        c.done();
    }
    let mut k = 0;
    let mut mine = || {
        k += 1;
        c.mine(k)
    };
    for var in 0..4 {
        for a in OPS {
            for b in OPS {
                // Which thread goes first is a choice of the schedule.
                if a as usize <= b as usize && mine() {
                    // A race shows in every schedule under Miri: one variant with preemption, the others
                    // without are enough for the quick tier.
                    let bound = match (cfg!(miri), c.thorough) {
                        (true, false) => (var == 1) as usize,
                        (true, true) => 2,
                        (false, t) => t as usize * 2 + 4,
                    };
                    points(&Case { var, ops: vec![vec![a], vec![b]] }, bound, None);
                }
            }
        }
        for a in OPS {
            for b in OPS {
                if !cfg!(miri) && (c.thorough || var <= 1) && mine() {
                    steps(&Case { var, ops: vec![vec![a], vec![b]] }, false, None);
                }
            }
        }
    }
    if !cfg!(miri) {
        // Two operations each, two preemptions (three in the thorough tier); three threads with one each.
        for a in OPS {
            for b in OPS {
                for x in OPS {
                    if mine() {
                        points(&Case { var: 1, ops: vec![vec![a, x], vec![b]] }, c.thorough as usize + 2, None);
                    }
                    if (a as usize) <= b as usize && (b as usize) <= x as usize && mine() {
                        points(&Case { var: 1, ops: vec![vec![a], vec![b], vec![x]] }, c.thorough as usize + 2, None);
                    }
                    if c.thorough {
                        for y in OPS {
                            if mine() {
                                points(&Case { var: 0, ops: vec![vec![a, x], vec![b, y]] }, 2, None);
                            }
                        }
                    }
                }
            }
        }
    }
    if c.thorough && !cfg!(miri) {
        for a in OPS {
            for b in OPS {
                if mine() {
                    steps(&Case { var: 1, ops: vec![vec![a], vec![b]] }, true, None);
                }
            }
        }
    }
    c.done()
}
