//! Exhaustive exploration of operation histories against a reference model.
//!
//! A `World` pairs a model (cloneable, hashable state) with real objects. Each history is executed on fresh
//! real objects from the initial state, so nothing has to be copied or undone.
use crate::{alloc, ledger, report};
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub trait World {
    type Model: Clone + Eq + Hash + Debug;
    type Op: Copy + Debug;
    type Real;
    fn name(&self) -> String;
    fn init(&self) -> Self::Model;
    /// All operations possible in a state, simplest first.
    fn enabled(&self, m: &Self::Model, out: &mut Vec<Self::Op>);
    fn start(&self) -> Self::Real;
    /// Executes the operation on the real objects and the model, comparing every result.
    fn apply(&self, r: &mut Self::Real, m: &mut Self::Model, op: Self::Op);
    /// Compares what can be observed, then takes everything apart, properly.
    fn finish(&self, r: Self::Real, m: &Self::Model);
    /// A property that a violation speaks against as well if it is only ever seen in histories with such an
    /// operation.
    fn class(&self, _op: Self::Op) -> Option<&'static str> {
        None
    }
    /// Operations that may end the process are run in a forked child, with every single follow-up operation;
    /// this gives the model state such an operation leads to.
    fn forked(&self, _m: &Self::Model, _op: Self::Op) -> Option<Self::Model> {
        None
    }
    fn fork_class(&self) -> &'static str {
        "ANY"
    }
}

pub fn case_string(world: &str, h: &[u16]) -> String {
    let mut s = String::with_capacity(world.len() + 1 + h.len() * 3);
    s.push_str(world);
    s.push(':');
    for (i, c) in h.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&c.to_string());
    }
    s
}

/// Runs one history. Returns the model state it leads to and the operations, or None if it panicked.
pub fn run<W: World>(w: &W, name: &str, h: &[u16]) -> Option<(W::Model, Vec<W::Op>)> {
    run_case(w, &case_string(name, h), h, h.len())
}
/// Runs a history of which only the first `keep` operations are returned.
fn run_case<W: World>(w: &W, case: &str, h: &[u16], keep: usize) -> Option<(W::Model, Vec<W::Op>)> {
    report::begin_case(case);
    alloc::begin();
    ledger::begin();
    let mut m = w.init();
    let mut ops = Vec::with_capacity(keep);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut real = ManuallyDrop::new(w.start());
        let mut en = Vec::new();
        for &c in h {
            en.clear();
            w.enabled(&m, &mut en);
            let op = *en.get(c as usize).unwrap_or_else(|| {
                // A recorded choice that no longer exists means model and recording do not fit together.
                eprintln!("HARNESS: choice {c} of {} in {case}", en.len());
                std::process::exit(3)
            });
            if ops.len() < keep {
                ops.push(op);
            }
            w.apply(&mut real, &mut m, op);
        }
        w.finish(ManuallyDrop::into_inner(real), &m);
    }));
    if r.is_err() {
        let p = report::last_panic();
        report::violation("ANY", format!("unexpected panic: {p}"));
    }
    for p in ledger::problems() {
        report::violation("C08", p);
    }
    for p in alloc::check() {
        report::violation("C09", p);
    }
    if report::case_violations() > 0 {
        let mut classes: Vec<_> = ops.iter().filter_map(|o| w.class(*o)).collect();
        classes.sort();
        classes.dedup();
        report::classify(&classes);
    }
    r.ok().map(|_| (m, ops))
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// Runs one history in a forked child (the process must be single-threaded). True if it ran to the end.
/// An abort is an acceptable end and counted; any other death is a violation of the world's fork property.
pub fn run_forked<W: World>(w: &W, name: &str, h: &[u16]) -> bool {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0, "pipe");
    report::count("forked_histories", 1);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        report::with(|r| {
            r.violations.clear();
            r.counters.clear();
            r.findings.clear();
            r.forget();
        });
        run(w, name, h);
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let text = report::with(|r| {
            let mut t = String::new();
            for v in &r.violations {
                t.push_str(&format!("V\t{}\t{}\n", v.tag, v.msg.replace('\n', " ")));
            }
            for (k, v) in &r.findings {
                t.push_str(&format!("F\t{k}\t{}\n", v.split_once('\t').unwrap().1.replace('\n', " ")));
            }
            for (k, n) in &r.counters {
                if !k.starts_with("finding") && k != "violations" {
                    t.push_str(&format!("C\t{k}\t{n}\n"));
                }
            }
            t.push_str("END\n");
            t
        });
        let ok = out.write_all(text.as_bytes()).is_ok();
        unsafe { _exit(if ok { 0 } else { 3 }) }
    }
    let mut text = String::new();
    {
        drop(unsafe { std::fs::File::from_raw_fd(fds[1]) });
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
        let _ = f.read_to_string(&mut text);
    }
    let mut st = 0;
    assert_eq!(unsafe { waitpid(pid, &mut st, 0) }, pid, "waitpid");
    report::begin_case(&case_string(name, h));
    let signal = st & 0x7f;
    if signal == 6 {
        report::count("aborts", 1);
        return false;
    }
    if signal != 0 {
        report::violation("ANY", format!("the process dies by signal {signal}"));
        report::classify(&[w.fork_class()]);
        return false;
    }
    if (st >> 8) & 0xff != 0 || !text.ends_with("END\n") {
        eprintln!("HARNESS: forked case {} ended with status {st:#x}", case_string(name, h));
        std::process::exit(3)
    }
    let mut good = true;
    for l in text.lines() {
        let mut p = l.splitn(4, '\t');
        match (p.next(), p.next(), p.next(), p.next()) {
            (Some("V"), Some(tag), Some(msg), _) => {
                good = false;
                report::violation(tag, msg)
            }
            (Some("F"), Some(tag), Some(key), Some(msg)) => report::finding(tag, key, msg),
            (Some("C"), Some(k), Some(n), _) => report::count(k, n.parse().unwrap_or(0)),
            _ => (),
        }
    }
    if !good {
        report::classify(&[w.fork_class()]);
    }
    good
}

pub struct Limits {
    pub dfs_depth: usize,
    pub bfs_states: usize,
    /// Longest history that is extended breadth-first.
    pub bfs_depth: usize,
    /// Repeat one-operation cycles without allocation past the range of a 16-bit count.
    pub long: bool,
    pub deadline: Instant,
}
impl Limits {
    pub fn new(dfs_depth: usize, seconds: u64) -> Self {
        Limits { dfs_depth, bfs_states: usize::MAX, bfs_depth: usize::MAX, long: true, deadline: Instant::now() + Duration::from_secs(seconds) }
    }
}

/// Breadth-first over model states: every transition of the reachable graph is executed on the real code.
pub fn bfs<W: World>(w: &W, lim: &Limits) {
    let name = w.name();
    let mut seen: HashMap<W::Model, ()> = HashMap::new();
    let mut q: VecDeque<(W::Model, Vec<u16>)> = VecDeque::new();
    seen.insert(w.init(), ());
    q.push_back((w.init(), vec![]));
    run(w, &name, &[]);
    let mut transitions = 0u64;
    let mut deepest = 0;
    let mut en = Vec::new();
    'out: while let Some((m, h)) = q.pop_front() {
        if h.len() > lim.bfs_depth {
            continue;
        }
        en.clear();
        w.enabled(&m, &mut en);
        let n = en.len();
        for i in 0..n {
            if Instant::now() > lim.deadline {
                report::capped();
                break 'out;
            }
            let mut h2 = h.clone();
            h2.push(i as u16);
            transitions += 1;
            if let Some(m2) = w.forked(&m, en[i]) {
                if run_forked(w, &name, &h2) {
                    let mut follow = Vec::new();
                    w.enabled(&m2, &mut follow);
                    for j in 0..follow.len() {
                        h2.push(j as u16);
                        transitions += 1;
                        run_forked(w, &name, &h2);
                        h2.pop();
                    }
                }
                continue;
            }
            if let Some((m2, ops)) = run(w, &name, &h2) {
                deepest = deepest.max(h2.len());
                if seen.len() < lim.bfs_states && !seen.contains_key(&m2) {
                    if seen.len() % 97 == 5 {
                        report::sample(format!("{name}: {ops:?}"));
                    }
                    seen.insert(m2.clone(), ());
                    q.push_back((m2, h2));
                } else if seen.len() >= lim.bfs_states && !seen.contains_key(&m2) {
                    report::capped();
                }
            }
        }
    }
    report::count("states", seen.len() as u64);
    report::count("transitions", transitions);
    report::count("histories", transitions + 1);
    report::with(|r| {
        let e = r.counters.entry("max_depth".into()).or_default();
        *e = (*e).max(deepest as u64)
    });
}

/// Every history up to a depth, without merging states.
pub fn dfs<W: World>(w: &W, lim: &Limits) {
    let name = w.name();
    let mut n = 0u64;
    let mut ops_done = 0u64;
    let mut h = Vec::new();
    rec(w, &name, lim, &mut h, &mut n, &mut ops_done);
    report::count("dfs_histories", n);
    report::count("histories", n);
    report::count("dfs_operations", ops_done);

    fn rec<W: World>(w: &W, name: &str, lim: &Limits, h: &mut Vec<u16>, n: &mut u64, ops_done: &mut u64) {
        if Instant::now() > lim.deadline {
            report::capped();
            return;
        }
        *n += 1;
        *ops_done += h.len() as u64;
        let Some((m, ops)) = run(w, name, h) else { return };
        if h.len() == lim.dfs_depth {
            if *n % 7919 == 3 {
                report::sample(format!("{name}: {ops:?}"));
            }
            return;
        }
        let mut en = Vec::new();
        w.enabled(&m, &mut en);
        for i in 0..en.len() {
            if w.forked(&m, en[i]).is_some() {
                continue;
            }
            h.push(i as u16);
            rec(w, name, lim, h, n, ops_done);
            h.pop();
        }
    }
}

/// How often a cycle is repeated: past the range of an 8-bit count, and of a 16-bit one where that is cheap.
const SHORT: usize = 300;
const LONG: usize = 66_000;

/// Repeats every cycle of one and of two operations (of three with `lim.dfs_depth > 2`) at every reachable model
/// state many times over, to catch state the implementation keeps that the model says it does not have.
pub fn pump<W: World>(w: &W, lim: &Limits) {
    let name = w.name();
    let mut seen: HashMap<W::Model, Vec<u16>> = HashMap::new();
    let mut order = vec![(w.init(), vec![])];
    seen.insert(w.init(), vec![]);
    let mut at = 0;
    let (mut cycles, mut done) = (0u64, 0u64);
    // Distinct models and the way to them; `step` executes the transition on the real code to learn the model.
    let step = |h: &[u16], c: u16| -> Option<W::Model> {
        let mut h = h.to_vec();
        h.push(c);
        run(w, &name, &h).map(|(m, _)| m)
    };
    let width = |m: &W::Model| {
        let mut en = Vec::new();
        w.enabled(m, &mut en);
        en.iter().map(|o| w.forked(m, *o).is_some()).collect::<Vec<bool>>()
    };
    while at < order.len() {
        let (m, h) = order[at].clone();
        at += 1;
        let mut stack: Vec<(W::Model, Vec<u16>)> = vec![(m.clone(), vec![])];
        while let Some((n, way)) = stack.pop() {
            for (c, fork) in width(&n).into_iter().enumerate() {
                if Instant::now() > lim.deadline {
                    report::capped();
                    return;
                }
                if fork {
                    continue;
                }
                let mut full = h.clone();
                full.extend(&way);
                let Some(n2) = step(&full, c as u16) else { continue };
                let mut way2 = way.clone();
                way2.push(c as u16);
                if n2 == m {
                    let once = alloc::mark();
                    for k in [SHORT, LONG] {
                        // The long run only where the cycle allocates nothing.
                        if k == LONG && (!lim.long || way2.len() > 1 || alloc::mark() != once) {
                            break;
                        }
                        let mut long = h.clone();
                        for _ in 0..k {
                            long.extend(&way2);
                        }
                        let case = format!("{}*{k}[{}]", case_string(&name, &h), way2.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
                        let r = run_case(w, &case, &long, h.len() + way2.len());
                        cycles += 1;
                        done += long.len() as u64;
                        if let (Some((_, ops)), 5) = (r, cycles % 97) {
                            report::sample(format!("{name}: {:?} then {k} times {:?}", &ops[..h.len()], &ops[h.len()..]));
                        }
                    }
                } else {
                    if way2.len() < lim.dfs_depth.max(2) {
                        stack.push((n2.clone(), way2.clone()));
                    }
                    if way2.len() == 1 && !seen.contains_key(&n2) {
                        seen.insert(n2.clone(), vec![]);
                        let mut h2 = h.clone();
                        h2.push(c as u16);
                        order.push((n2, h2));
                    }
                }
            }
        }
    }
    report::count("cycles", cycles);
    report::count("cycle_operations", done);
    report::count("histories", cycles);
}

/// Replays the choices after the colon of a case string, printing the operations.
pub fn replay<W: World>(w: &W, choices: &str) {
    let (start, cycle) = choices.split_once('*').unwrap_or((choices, ""));
    let parse = |s: &str| -> Vec<u16> { s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() };
    let mut h = parse(start);
    let mut keep = h.len();
    if let Some((k, c)) = cycle.strip_suffix(']').and_then(|c| c.split_once('[')) {
        let c = parse(c);
        keep += c.len();
        for _ in 0..k.parse::<usize>().unwrap() {
            h.extend(&c);
        }
    }
    let r = run_case(w, &format!("{}:{choices}", w.name()), &h, keep);
    if let Some((m, ops)) = r {
        println!("operations: {ops:?}\nfinal model state: {m:?}");
    }
}
