//! C12 and C13: comparing and formatting boxes agrees with comparing and formatting the values they hold.
use harness::fmt_table as ft;
use mc::{cli, report};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tagged_box::{TaggableContainer, TaggableInner, TaggedBox};

/// What `f` gives; a panic is a violation.
fn calm<R>(tag: &str, case: impl FnOnce() -> String, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| report::violation_in(tag, case(), format!("{what} panics: {}", report::last_panic()))).ok()
}

// ---------------------------------------------------------------- C12: every comparison table

#[derive(Clone, Copy)]
struct Tables {
    eq: u16,
    pc: u32,
    c: u32,
}
struct St {
    t: Tables,
    log: Vec<(u8, u8, u8)>,
}
thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { t: Tables { eq: 0, pc: 0, c: 0 }, log: Vec::new() }) };
}
const ORD: [Option<Ordering>; 4] = [Some(Ordering::Less), Some(Ordering::Equal), Some(Ordering::Greater), None];
impl Tables {
    fn eq(&self, i: usize, j: usize) -> bool {
        self.eq >> (i * 3 + j) & 1 == 1
    }
    fn pc(&self, i: usize, j: usize) -> Option<Ordering> {
        ORD[(self.pc >> (2 * (i * 3 + j)) & 3) as usize]
    }
    fn c(&self, i: usize, j: usize) -> Ordering {
        ORD[(self.c / 3u32.pow((i * 3 + j) as u32) % 3) as usize].unwrap()
    }
}

tagged_box::tagged_box! {
    struct Cont, enum Item {
        // The second field says which operand it is.
        P(u8),
        Q(u8, u64),
    }
}
impl Item {
    /// The value (0..3) and the operand.
    fn id(&self) -> (u8, u8) {
        match self {
            Item::P(s) => (0, *s),
            Item::Q(i, s) => (*i, *s as u8),
        }
    }
    fn new(i: u8, s: u8) -> Self {
        if i == 0 {
            Item::P(s)
        } else {
            Item::Q(i, s as u64)
        }
    }
}
fn log(kind: u8, a: &Item, b: &Item) -> (Tables, usize, usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.log.push((kind, a.id().1, b.id().1));
        (s.t, a.id().0 as usize, b.id().0 as usize)
    })
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        let (t, i, j) = log(0, self, o);
        t.eq(i, j)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        let (t, i, j) = log(1, self, o);
        t.pc(i, j)
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> Ordering {
        let (t, i, j) = log(2, self, o);
        t.c(i, j)
    }
}

fn tables(c: &cli::Cli) {
    let boxes: Vec<[TaggedBox<Item>; 2]> = (0..3).map(|i| [Item::new(i, 1).into_tagged_box(), Item::new(i, 2).into_tagged_box()]).collect();
    let words: Vec<u64> = boxes.iter().flatten().map(|b| unsafe { std::mem::transmute_copy(b) }).collect();
    let mut n = 0u64;
    let set = |t: Tables| ST.with(|s| s.borrow_mut().t = t);
    // kind 0: ==, !=; kind 1: partial_cmp and the operators; kind 2: cmp.
    let mut one = |t: Tables, kind: u8, only: Option<(usize, usize, bool)>| {
        set(t);
        for i in 0..3 {
            for j in 0..3 {
                for same in [false, true] {
                    if same && i != j || only.map_or(false, |o| o != (i, j, same)) {
                        continue;
                    }
                    let (a, b) = (&boxes[i][0], if same { &boxes[j][0] } else { &boxes[j][1] });
                    let mut step = |what: &str, ok: &dyn Fn() -> bool, tag: u8| {
                        n += 1;
                        let case = || format!("table:{},{},{},{kind},{i},{j},{}", t.eq, t.pc, t.c, same as u8);
                        let Ok(ok) = catch_unwind(AssertUnwindSafe(ok)) else {
                            report::violation_in("C12", case(), format!("{what} of two boxes panics: {}", report::last_panic()));
                            return;
                        };
                        let good = ST.with(|s| {
                            let mut s = s.borrow_mut();
                            let good = !s.log.is_empty() && s.log.iter().all(|l| *l == (tag, 1, if same { 1 } else { 2 }));
                            s.log.clear();
                            good
                        });
                        if !ok || !good {
                            let how = if ok { "does not compare the left value with the right value" } else { "differs from the result for the values" };
                            let it = if same { " (a box with itself)" } else { "" };
                            report::violation_in("C12", case(), format!("{what} of two boxes {how}{it}"));
                        }
                    };
                    let pc = t.pc(i, j);
                    match kind {
                        0 => {
                            step("==", &|| (a == b) == t.eq(i, j), 0);
                            step("!=", &|| (a != b) != t.eq(i, j), 0);
                        }
                        1 => {
                            step("partial_cmp", &|| a.partial_cmp(b) == pc, 1);
                            step("<", &|| (a < b) == (pc == Some(Ordering::Less)), 1);
                            step("<=", &|| (a <= b) == matches!(pc, Some(Ordering::Less | Ordering::Equal)), 1);
                            step(">", &|| (a > b) == (pc == Some(Ordering::Greater)), 1);
                            step(">=", &|| (a >= b) == matches!(pc, Some(Ordering::Greater | Ordering::Equal)), 1);
                        }
                        _ => step("cmp", &|| a.cmp(b) == t.c(i, j), 2),
                    }
                }
            }
        }
    };
    if let Some(o) = c.only.as_ref().and_then(|o| o.strip_prefix("table:")) {
        let v: Vec<u32> = o.split(',').map(|x| x.parse().unwrap()).collect();
        one(Tables { eq: v[0] as u16, pc: v[1], c: v[2] }, v[3] as u8, Some((v[4] as usize, v[5] as usize, v[6] == 1)));
        return;
    }
    // Each kind of table completely, over backgrounds of the other two that disagree with it.
    let all_none = 0x3FFFF;
    let all_equal = 0x15555;
    let c_equal = (0..9).map(|k| 3u32.pow(k)).sum::<u32>();
    for eq in 0..512 {
        for (pc, c) in [(all_none, 0), (all_equal, c_equal), (0, 0)] {
            one(Tables { eq, pc, c }, 0, None);
        }
    }
    for pc in 0..1 << 18 {
        if !c.mine(pc as usize) {
            continue;
        }
        one(Tables { eq: 0, pc, c: c_equal }, 1, None);
        one(Tables { eq: 511, pc, c: 0 }, 1, None);
    }
    for x in 0..19683 {
        for (eq, pc) in [(0, all_none), (511, all_equal), (0, 0)] {
            one(Tables { eq, pc, c: x }, 2, None);
        }
    }
    let after: Vec<u64> = boxes.iter().flatten().map(|b| unsafe { std::mem::transmute_copy(b) }).collect();
    let ids: Vec<(u8, u8)> = boxes.into_iter().flatten().map(|b| Item::from_tagged_box(b).id()).collect();
    if words != after || ids != [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)] {
        report::violation_in("C12", "table:end", "comparing changes a box");
    }
    report::count("evaluations", n);
    report::count("distinct_nontrivial", n);
    report::sample(format!("all 512 == tables, 262144 partial_cmp tables and 19683 cmp tables over three values, 12 operand pairs each; {n} comparisons"));
}

mod derived {
    use super::*;
    macro_rules! family { ($m:ident [$($d:ident),*] $($v:tt)*) => {
        pub mod $m {
            tagged_box::tagged_box! {
                #[derive(Clone, Debug, $($d),*)]
                pub struct Cont, pub enum Item { $($v)* }
            }
        }
    } }
    mod tie {
        use super::Ordering;
        /// Ordered by its first part alone.
        #[derive(Debug, Clone)]
        pub struct Key(pub u8, pub u8);
        impl PartialEq for Key {
            fn eq(&self, o: &Key) -> bool {
                self.0 == o.0
            }
        }
        impl Eq for Key {}
        impl PartialOrd for Key {
            fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for Key {
            fn cmp(&self, o: &Key) -> Ordering {
                self.0.cmp(&o.0)
            }
        }
        tagged_box::tagged_box! {
            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
            pub struct Cont, pub enum Item { K(Key), U, }
        }
        impl Item {
            pub fn tag(&self) -> Option<(u8, u8)> {
                match self {
                    Item::K(k) => Some((k.0, k.1)),
                    Item::U => None,
                }
            }
        }
    }
    family!(part [PartialEq, PartialOrd] F(f64), Many(f32, u8, i16), U, S { x: f32, y: i8 }, T(String),);
    family!(total [PartialEq, Eq, PartialOrd, Ord] A(i64), Many(u8, i8, u16), U, S { x: i8, y: bool }, T(&'static str), E(),);

    pub fn run(c: &cli::Cli) {
        let fs = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1.0, f64::INFINITY, f64::NAN];
        let mut vals = vec![part::Item::U];
        vals.extend(fs.iter().map(|f| part::Item::F(*f)));
        for f in fs {
            for b in [0, 1] {
                vals.push(part::Item::Many(f as f32, b, -(b as i16)));
                vals.push(part::Item::S { x: f as f32, y: b as i8 - 1 });
            }
        }
        vals.extend(["", "a", "b"].map(|s| part::Item::T(s.to_string())));
        let mut n = 0u64;
        macro_rules! pairs { ($m:ident, $vals:expr, $total:expr) => {
            for (i, a) in $vals.iter().enumerate() {
                for (j, b) in $vals.iter().enumerate() {
                    let case = format!("{}:{i},{j}", stringify!($m));
                    if c.only.as_ref().map_or(false, |o| *o != case) {
                        continue;
                    }
                    calm("C12", || case.clone(), "comparing two boxes of derived enums", || {
                    let (x, y) = (a.clone().into_tagged_box(), b.clone().into_tagged_box());
                    let (p, q) = ($m::Cont::from(a.clone()), $m::Cont::from(b.clone()));
                    macro_rules! same { ($op:tt) => {
                        n += 2;
                        if (x $op y) != (a $op b) {
                            report::violation_in("C12", case.clone(), concat!(stringify!($op), " of two boxes of derived enums differs from the result for the values"));
                        }
                        if (p $op q) != (a $op b) {
                            report::violation_in("C12", case.clone(), concat!(stringify!($op), " of two containers differs from the result for the values"));
                        }
                        if i == j && ((x $op x) != (a $op a) || (p $op p) != (a $op a)) {
                            report::violation_in("C12", case.clone(), concat!(stringify!($op), " of a box with itself differs from the result for the value"));
                        }
                    } }
                    same!(==); same!(!=); same!(<); same!(<=); same!(>); same!(>=);
                    if x.partial_cmp(&y) != a.partial_cmp(b) || p.partial_cmp(&q) != a.partial_cmp(b) || x.partial_cmp(&x) != a.partial_cmp(a) {
                        report::violation_in("C12", case.clone(), "partial_cmp of two boxes of derived enums differs from the result for the values");
                    }
                    $total(a, b, &x, &y, &p, &q, &case);
                    let _ = (part_ok, total_ok);
                    });
                }
            }
        } }
        fn part_ok(_: &part::Item, _: &part::Item, _: &TaggedBox<part::Item>, _: &TaggedBox<part::Item>, _: &part::Cont, _: &part::Cont, _: &str) {}
        fn total_ok(a: &total::Item, b: &total::Item, x: &TaggedBox<total::Item>, y: &TaggedBox<total::Item>, p: &total::Cont, q: &total::Cont, case: &str) {
            let (lo, hi) = if a.cmp(b).is_gt() { (b, a) } else { (a, b) };
            let is = |b: TaggedBox<total::Item>, i: &total::Item| TaggableInner::from_tagged_box(b) == *i;
            if !is(x.clone().max(y.clone()), hi) || !is(x.clone().min(y.clone()), lo) || !is(x.clone().clamp(x.clone(), x.clone()), a) {
                report::violation_in("C12", case, "max, min or clamp of boxes differs from the result for the values");
            }
            if p.clone().max(q.clone()) != *if hi == a { p } else { q } || p.clone().min(q.clone()) != *if lo == a { p } else { q } {
                report::violation_in("C12", case, "max or min of containers differs from the result for the values");
            }
            if x.cmp(y) != a.cmp(b) || p.cmp(q) != a.cmp(b) {
                report::violation_in("C12", case, "cmp of two boxes of derived enums differs from the result for the values");
            }
        }
        pairs!(part, vals, part_ok);
        let mut vals = vec![total::Item::U, total::Item::E()];
        for i in [i64::MIN, -1, 0, 1, i64::MAX] {
            vals.push(total::Item::A(i));
            vals.push(total::Item::S { x: i as i8, y: i > 0 });
            vals.push(total::Item::Many(i as u8, (i % 3) as i8, 7));
        }
        vals.extend(["", "a", "b"].map(total::Item::T));
        pairs!(total, vals, total_ok);
        for (i, a) in vals.iter().enumerate() {
            for (j, lo) in vals.iter().enumerate() {
                for (k, hi) in vals.iter().enumerate() {
                    let case = format!("clamp:{i},{j},{k}");
                    if lo > hi || c.only.as_ref().map_or(false, |o| *o != case) {
                        continue;
                    }
                    calm("C12", || case.clone(), "clamping a box", || {
                        n += 2;
                        let want = a.clone().clamp(lo.clone(), hi.clone());
                        let b = |v: &total::Item| v.clone().into_tagged_box();
                        if total::Item::from_tagged_box(b(a).clamp(b(lo), b(hi))) != want {
                            report::violation_in("C12", case.clone(), "clamp of boxes differs from the result for the values");
                        }
                        let p = |v: &total::Item| total::Cont::from(v.clone());
                        if p(a).clamp(p(lo), p(hi)).into_inner() != want {
                            report::violation_in("C12", case.clone(), "clamp of containers differs from the result for the values");
                        }
                    });
                }
            }
        }
        // Which of two equal values the result is, where equal ones can be told apart.
        let keys: Vec<tie::Item> = (0..3).flat_map(|k| (0..2).map(move |t| tie::Item::K(tie::Key(k, t)))).chain([tie::Item::U]).collect();
        for (i, a) in keys.iter().enumerate() {
            for (j, b) in keys.iter().enumerate() {
                let case = format!("tie:{i},{j}");
                if c.only.as_ref().map_or(false, |o| *o != case) {
                    continue;
                }
                calm("C12", || case.clone(), "the larger and the smaller of two boxes", || {
                    n += 1;
                    let (x, y) = (|| a.clone().into_tagged_box(), || b.clone().into_tagged_box());
                    let is = |b: TaggedBox<tie::Item>, i: tie::Item| tie::Item::from_tagged_box(b).tag() == i.tag();
                    if !is(x().max(y()), a.clone().max(b.clone())) || !is(x().min(y()), a.clone().min(b.clone())) || !is(x().clamp(y(), y()), a.clone().clamp(b.clone(), b.clone())) {
                        report::violation_in("C12", case.clone(), "max, min or clamp of equal boxes gives another one than for the values");
                    }
                    let mut boxes = [x(), y(), x()];
                    let mut values = [a.clone(), b.clone(), a.clone()];
                    boxes.sort();
                    values.sort();
                    if !IntoIterator::into_iter(boxes).zip(values).all(|(b, v)| is(b, v)) {
                        report::violation_in("C12", case.clone(), "boxes sort otherwise than the values");
                    }
                });
            }
        }
        report::count("evaluations", n);
        report::count("distinct_nontrivial", n);
        report::sample("derived enums with NaN, -0.0, infinities, strings and every variant shape: every ordered pair");
    }
}

// ---------------------------------------------------------------- C13

mod probe {
    use super::*;
    tagged_box::tagged_box! {
        pub struct Cont, pub enum Item {
            // Shows every flag it is formatted with.
            Flags(u8),
            Pad(&'static str),
            Int(i32, bool),
            Many { n: u8, },
            // Writes that many bytes, then fails.
            Fails(u16, u8),
            Nested(Vec<i16>),
            Unit,
        }
    }
    impl Clone for Item {
        fn clone(&self) -> Self {
            match self {
                Item::Flags(a) => Item::Flags(*a),
                Item::Pad(a) => Item::Pad(a),
                Item::Int(a, b) => Item::Int(*a, *b),
                Item::Many { n } => Item::Many { n: *n },
                Item::Fails(a, b) => Item::Fails(*a, *b),
                Item::Nested(v) => Item::Nested(v.clone()),
                Item::Unit => Item::Unit,
            }
        }
    }
    fn flags(f: &mut fmt::Formatter<'_>, kind: &str) -> fmt::Result {
        let a = match f.align() {
            None => '-',
            Some(fmt::Alignment::Left) => '<',
            Some(fmt::Alignment::Center) => '^',
            Some(fmt::Alignment::Right) => '>',
        };
        let (fill, w, p) = (f.fill(), f.width(), f.precision());
        let rest = [f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad()];
        write!(f, "{kind}[{fill}{a}{w:?}{p:?}{rest:?}]")
    }
    impl fmt::Display for Item {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Item::Flags(_) => flags(f, "display"),
                Item::Pad(s) => f.pad(s),
                Item::Int(i, b) => {
                    fmt::Display::fmt(i, f)?;
                    fmt::Display::fmt(b, f)
                }
                Item::Many { n } => {
                    for i in 0..*n {
                        fmt::Write::write_char(f, (b'a' + i) as char)?;
                    }
                    Ok(())
                }
                Item::Fails(n, _) => {
                    for _ in 0..*n {
                        f.write_str("z")?;
                    }
                    Err(fmt::Error)
                }
                Item::Nested(v) => {
                    for x in v {
                        write!(f, "{x:>4}|")?;
                    }
                    Ok(())
                }
                Item::Unit => Ok(()),
            }
        }
    }
    impl fmt::Debug for Item {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Item::Flags(_) => flags(f, "debug"),
                Item::Pad(s) => fmt::Debug::fmt(s, f),
                Item::Int(i, b) => f.debug_tuple("Int").field(i).field(b).finish(),
                Item::Many { n } => f.debug_struct("Many").field("n", n).finish(),
                Item::Fails(n, _) => {
                    for _ in 0..*n {
                        f.write_str("z")?;
                    }
                    Err(fmt::Error)
                }
                Item::Nested(v) => f.debug_list().entries(v).finish(),
                Item::Unit => f.write_str(""),
            }
        }
    }
}
mod deriv {
    tagged_box::tagged_box! {
        #[derive(Clone, Debug)]
        pub struct Cont, pub enum Item {
            A(u32),
            B(i8, String, f32),
            U,
            S { deep: Option<Vec<u8>>, c: char },
            E(),
        }
    }
    /// What a derived container has to look like.
    pub mod plain {
        #[derive(Debug)]
        pub struct Cont<'a> {
            #[allow(dead_code)]
            pub value: &'a super::Item,
        }
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Fail {
    Never,
    /// Refuses every write that would exceed so many bytes.
    Bytes(usize),
    /// Refuses this one write.
    Call(usize),
}
struct Sink {
    text: String,
    calls: usize,
    mode: Fail,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        match self.mode {
            Fail::Bytes(k) if self.text.len() + s.len() > k => return Err(fmt::Error),
            Fail::Call(k) if self.calls == k + 1 => return Err(fmt::Error),
            _ => (),
        }
        self.text.push_str(s);
        Ok(())
    }
}

fn c13(c: &cli::Cli) {
    let mut n = 0u64;
    let mut distinct = std::collections::BTreeSet::new();
    let mut errors = 0u64;
    type Show<'a> = &'a dyn Fn(usize, &mut Sink, usize, usize) -> fmt::Result;
    let widths: &[usize] = if c.thorough { &[0, 1, 7, 12, 40, 300] } else { &[0, 12, 40] };
    let precs: &[usize] = if c.thorough { &[0, 1, 5, 30] } else { &[0, 2] };
    // Of the specifications, every step-th.
    let mut compare = |what: &str, box_: Show<'_>, plain: Show<'_>, fails: &[Fail], widths: &[usize], precs: &[usize], step: usize| {
        let mut a = Sink { text: String::new(), calls: 0, mode: Fail::Never };
        let mut b = Sink { text: String::new(), calls: 0, mode: Fail::Never };
        for i in (0..ft::N).filter(|i| c.only.is_some() || (i + what.len()) % step == 0) {
            let ws: &[usize] = if ft::SPECS[i].contains("w$") { widths } else { &[0] };
            let ps: &[usize] = if ft::SPECS[i].contains(".p$") { precs } else { &[0] };
            for &w in ws {
                for &p in ps {
                    for &mode in fails {
                        let case = || format!("fmt:{what}:{i},{w},{p},{mode:?} (spec {:?})", ft::SPECS[i]);
                        if c.only.as_ref().map_or(false, |o| *o != case()) {
                            continue;
                        }
                        n += 1;
                        for s in [&mut a, &mut b] {
                            s.text.clear();
                            s.calls = 0;
                            s.mode = mode;
                        }
                        let Some(r) = calm("C13", case, &format!("formatting a box ({})", what.split(' ').next().unwrap()), || box_(i, &mut a, w, p)) else { continue };
                        let o = plain(i, &mut b, w, p);
                        errors += o.is_err() as u64;
                        if r != o {
                            let m = if o.is_err() { "formatting a box hides an error" } else { "formatting a box reports an error that the value does not" };
                            report::violation_in("C13", case(), format!("{m} ({})", what.split(' ').next().unwrap()));
                        } else if a.text != b.text {
                            report::violation_in("C13", case(), format!("formatting a box differs from formatting its value ({})", what.split(' ').next().unwrap()));
                        }
                        if distinct.len() < 100_000 && b.text.len() < 2000 {
                            distinct.insert(b.text.clone());
                        }
                    }
                }
            }
        }
    };
    const LONG: &[usize] = &[129, 257, 1000];
    let modes = |len: usize, calls: usize| {
        let mut v = vec![Fail::Never];
        v.extend((0..=len.min(90)).map(Fail::Bytes));
        v.extend((0..=calls.min(40)).map(Fail::Call));
        if len > 90 {
            v.extend((7..16).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).filter(|b| *b < len).map(Fail::Bytes));
        }
        v
    };
    let mut k = 0;
    let mut items = vec![probe::Item::Flags(0), probe::Item::Unit, probe::Item::Nested(vec![]), probe::Item::Nested(vec![1, -20, 300])];
    items.extend(["", "x", "wörld", "a\"b\n"].map(probe::Item::Pad));
    items.extend([0, -7, i32::MAX].map(|i| probe::Item::Int(i, i == 0)));
    items.extend([0, 1, 5].map(|n| probe::Item::Many { n }));
    items.extend([0, 1, 6].map(|n| probe::Item::Fails(n, 1)));
    // Texts longer than any buffer one might think of.
    items.extend([200, 3000].map(|n| probe::Item::Nested((0..n).collect())));
    for (x, i) in items.iter().enumerate() {
        let b = i.clone().into_tagged_box();
        macro_rules! kinds { ($($name:literal $f:ident),*) => { $(
            k += 1;
            if c.only.is_some() || c.mine(k) {
                let mut s = Sink { text: String::new(), calls: 0, mode: Fail::Never };
                let _ = ft::$f(20, &mut s, i, 8, 2);
                let all = modes(s.text.len() + 12, s.calls + 2);
                let fails: &[Fail] = if c.thorough || c.only.is_some() { &all } else { &all[..all.len().min(24)] };
                compare(&format!(concat!($name, " probe {}"), x), &|i, f, w, p| ft::$f(i, f, &b, w, p), &|j, f, w, p| ft::$f(j, f, i, w, p), fails, widths, precs, if s.text.len() > 500 { 53 } else { 1 });
                // Every failure point for some specifications, very wide and very precise for others.
                compare(&format!(concat!($name, " probe {}"), x), &|i, f, w, p| ft::$f(i, f, &b, w, p), &|j, f, w, p| ft::$f(j, f, i, w, p), &all, &[3, 20], &[1], if s.text.len() > 500 { 97 } else { 23 });
                compare(&format!(concat!($name, " probe {}"), x), &|i, f, w, p| ft::$f(i, f, &b, w, p), &|j, f, w, p| ft::$f(j, f, i, w, p), &[Fail::Never], if s.text.len() > 500 { &LONG[1..2] } else { LONG }, &LONG[..2], if s.text.len() > 500 { 59 } else { 7 });
            }
        )* } }
        kinds!("display" display, "debug" debug, "debug-hex" debug_lx, "debug-HEX" debug_ux);
    }
    let mut items = vec![deriv::Item::U, deriv::Item::E(), deriv::Item::A(0), deriv::Item::A(0xBEEF)];
    items.push(deriv::Item::B(-3, "q\"".into(), 1.5));
    items.push(deriv::Item::S { deep: None, c: '\n' });
    items.push(deriv::Item::S { deep: Some(vec![1, 255]), c: 'x' });
    for (x, i) in items.iter().enumerate() {
        let b = i.clone().into_tagged_box();
        let cont = deriv::Cont::from(i.clone());
        let plain = deriv::plain::Cont { value: i };
        macro_rules! kinds { ($($name:literal $f:ident),*) => { $(
            k += 1;
            if c.only.is_some() || c.mine(k) {
                let mut s = Sink { text: String::new(), calls: 0, mode: Fail::Never };
                let _ = ft::$f(80, &mut s, &plain, 8, 2);
                let all = modes(s.text.len(), s.calls);
                let fails: &[Fail] = if c.thorough || c.only.is_some() { &all } else { &all[..all.len().min(16)] };
                compare(&format!(concat!($name, " derived {}"), x), &|i, f, w, p| ft::$f(i, f, &b, w, p), &|j, f, w, p| ft::$f(j, f, i, w, p), fails, widths, precs, 1);
                compare(&format!(concat!($name, " container {}"), x), &|i, f, w, p| ft::$f(i, f, &cont, w, p), &|j, f, w, p| ft::$f(j, f, &plain, w, p), &fails[..fails.len().min(30)], widths, precs, 1);
                compare(&format!(concat!($name, " derived {}"), x), &|i, f, w, p| ft::$f(i, f, &b, w, p), &|j, f, w, p| ft::$f(j, f, i, w, p), &all, &[3, 20], &[1], if s.text.len() > 500 { 97 } else { 23 });
                compare(&format!(concat!($name, " derived {}"), x), &|i, f, w, p| ft::$f(i, f, &b, w, p), &|j, f, w, p| ft::$f(j, f, i, w, p), &[Fail::Never], if s.text.len() > 500 { &LONG[1..2] } else { LONG }, &LONG[..2], if s.text.len() > 500 { 59 } else { 7 });
            }
        )* } }
        kinds!("debug" debug, "debug-hex" debug_lx, "debug-HEX" debug_ux);
    }
    report::count("evaluations", n);
    report::count("distinct_nontrivial", distinct.len() as u64);
    report::count("failing_formats", errors);
    for (i, s) in distinct.iter().step_by(distinct.len() / 6 + 1).enumerate() {
        report::sample(format!("text {i}: {s:?}"));
    }
}

fn main() {
    let c = cli::parse();
    if c.wants("C12") {
        if c.only.as_ref().map_or(true, |o| o.starts_with("table:")) {
            tables(&c);
        }
        if c.only.as_ref().map_or(c.mine(0), |o| !o.starts_with("table:")) {
            derived::run(&c);
        }
    }
    if c.wants("C13") {
        c13(&c);
    }
    c.done()
}
