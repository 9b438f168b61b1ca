//! Violations, breadcrumbs and the JSON report of an explorer process.
use crate::alloc::untracked;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Violation {
    pub tag: String,
    pub case: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, std::collections::BTreeSet<String>>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub findings: BTreeMap<String, String>,
    pub capped: bool,
    case: String,
    in_case: usize,
    /// (tag, message) of the violations of this case, and for each ever seen: its first case and the classes
    /// that were present in every history that showed it.
    case_keys: Vec<(String, String)>,
    classes: BTreeMap<(String, String), (String, Vec<&'static str>)>,
    seen: std::collections::BTreeSet<(String, String)>,
    crumb: Option<File>,
    crumb_len: usize,
    panic_msg: String,
}

pub static R: Mutex<Option<Report>> = Mutex::new(None);

pub fn with<T>(f: impl FnOnce(&mut Report) -> T) -> T {
    untracked(|| {
        let mut g = R.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Report::default))
    })
}

/// Installs a quiet panic hook that remembers the last message.
pub fn init(crumb: Option<&str>) {
    std::panic::set_hook(Box::new(|i| {
        untracked(|| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("MC_VERBOSE").is_some() {
                eprintln!("panic: {m} at {loc}");
            }
            if let Ok(mut g) = R.try_lock() {
                if let Some(r) = g.as_mut() {
                    r.panic_msg = format!("{m} ({loc})");
                }
            }
        })
    }));
    with(|r| {
        if let Some(c) = crumb {
            r.crumb = File::create(c).ok();
        }
    });
    // Let std allocate whatever it keeps for panics before anything is tracked.
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
}

pub fn begin_case(case: &str) {
    with(|r| {
        r.case.clear();
        r.case.push_str(case);
        r.in_case = 0;
        r.case_keys.clear();
        if let Some(f) = &r.crumb {
            let mut b = Vec::with_capacity(r.crumb_len.max(case.len()) + 1);
            b.extend_from_slice(case.as_bytes());
            b.resize(r.crumb_len.max(case.len()), b' ');
            let _ = f.write_at(&b, 0);
            r.crumb_len = r.crumb_len.max(case.len());
        }
    })
}
pub fn case_violations() -> usize {
    with(|r| r.in_case)
}
pub fn current_case() -> String {
    with(|r| r.case.clone())
}
pub fn last_panic() -> String {
    with(|r| std::mem::take(&mut r.panic_msg))
}

/// Reports a violation of `tag` in the current case. Only the first case of each distinct message is kept.
pub fn violation(tag: &str, msg: impl AsRef<str>) {
    with(|r| {
        r.in_case += 1;
        *r.counters.entry("violations".into()).or_default() += 1;
        let key = (tag.to_string(), msg.as_ref().to_string());
        if r.case_keys.len() < 64 {
            r.case_keys.push(key.clone());
        }
        if r.seen.len() < 400 && r.seen.insert(key) {
            let case = r.case.clone();
            r.violations.push(Violation { tag: tag.into(), case, msg: msg.as_ref().into() });
        }
    })
}
/// A failure that is identified by `key`: run.py decides whether the key is a listed known finding.
pub fn finding(tag: &str, key: &str, msg: impl AsRef<str>) {
    with(|r| {
        *r.counters.entry(format!("finding:{tag}:{key}")).or_default() += 1;
        let case = r.case.clone();
        r.findings.entry(format!("{tag}\t{key}")).or_insert_with(|| format!("{case}\t{}", msg.as_ref()));
    })
}
/// Records which operation classes occurred in the case that just went wrong.
pub fn classify(classes: &[&'static str]) {
    with(|r| {
        let case = r.case.clone();
        for k in std::mem::take(&mut r.case_keys) {
            match r.classes.get_mut(&k) {
                Some((_, c)) => c.retain(|x| classes.contains(x)),
                None => {
                    if r.classes.len() < 400 {
                        r.classes.insert(k, (case.clone(), classes.to_vec()));
                    }
                }
            }
        }
    })
}
impl Report {
    /// In a forked child: forget what the parent has seen.
    pub fn forget(&mut self) {
        self.seen.clear();
        self.classes.clear();
        self.sets.clear();
        self.samples.clear();
    }
}
/// Charges violations only ever seen together with a class of operations to that class's property.
fn attribute(r: &mut Report) {
    for ((tag, msg), (case, classes)) in std::mem::take(&mut r.classes) {
        for c in classes {
            if c != tag {
                r.violations.push(Violation { tag: c.into(), case: case.clone(), msg: format!("({tag}) {msg}") });
            }
        }
    }
}
pub fn count(k: &str, n: u64) {
    with(|r| *r.counters.entry(k.into()).or_default() += n)
}
pub fn distinct(k: &str, v: &str) {
    with(|r| {
        let s = r.sets.entry(k.into()).or_default();
        if s.len() < 20000 {
            s.insert(v.into());
        }
    })
}
pub fn sample(s: impl AsRef<str>) {
    with(|r| {
        if r.samples.len() < 12 {
            r.samples.push(s.as_ref().into())
        }
    })
}
pub fn capped() {
    with(|r| r.capped = true)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes the report as JSON to `path` (or stdout for "-").
pub fn write(path: &str) {
    let exhausted = crate::alloc::exhausted();
    with(|r| {
        attribute(r);
        let mut o = String::from("{");
        o.push_str("\"counters\":{");
        o.push_str(&r.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"distinct\":{");
        o.push_str(&r.sets.iter().map(|(k, v)| format!("{}:{}", esc(k), v.len())).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&r.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"findings\":[");
        o.push_str(
            &r.findings
                .iter()
                .map(|(k, v)| {
                    let (t, k) = k.split_once('\t').unwrap();
                    let (c, m) = v.split_once('\t').unwrap();
                    format!("{{\"tag\":{},\"key\":{},\"case\":{},\"msg\":{}}}", esc(t), esc(k), esc(c), esc(m))
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        o.push_str("],\"violations\":[");
        o.push_str(
            &r.violations
                .iter()
                .map(|v| format!("{{\"tag\":{},\"case\":{},\"msg\":{}}}", esc(&v.tag), esc(&v.case), esc(&v.msg)))
                .collect::<Vec<_>>()
                .join(","),
        );
        o.push_str(&format!("],\"capped\":{},\"exhausted\":{}}}\n", r.capped, exhausted));
        if path == "-" {
            print!("{o}");
        } else {
            File::create(path).and_then(|mut f| f.write_all(o.as_bytes())).expect("cannot write the report");
        }
    })
}

/// Reports a violation in a case named after the fact.
pub fn violation_in(tag: &str, case: impl Into<String>, msg: impl AsRef<str>) {
    with(|r| r.case = case.into());
    violation(tag, msg)
}
