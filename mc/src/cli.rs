//! Command line shared by all explorer binaries:
//! `bin --prop C01 --tier quick --out report.json --crumb file [--only case] [--shard i/n] [--secs n]`
pub struct Cli {
    pub prop: String,
    pub thorough: bool,
    pub out: String,
    pub only: Option<String>,
    pub shard: (usize, usize),
    pub secs: u64,
}

static PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
static OUT: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
/// As `Cli::done`, from anywhere.
pub fn done_now() -> ! {
    match OUT.get() {
        Some(Some(out)) => {
            crate::report::write(out);
            std::process::exit(0)
        }
        _ => {
            crate::report::write("-");
            std::process::exit((crate::report::with(|r| r.violations.len()) > 0) as i32)
        }
    }
}
/// The property this process is about.
pub fn prop() -> &'static str {
    PROP.get().map_or("ALL", |s| s)
}

pub fn parse() -> Cli {
    let mut c = Cli { prop: "ALL".into(), thorough: false, out: "-".into(), only: None, shard: (0, 1), secs: 600 };
    let mut crumb = None;
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_else(|| panic!("{k} needs a value"));
        match &*k {
            "--prop" => c.prop = v,
            "--tier" => c.thorough = v == "thorough",
            "--out" => c.out = v,
            "--crumb" => crumb = Some(v),
            "--only" => c.only = Some(v),
            "--shard" => {
                let (i, n) = v.split_once('/').expect("i/n");
                c.shard = (i.parse().unwrap(), n.parse().unwrap());
            }
            "--secs" => c.secs = v.parse().unwrap(),
            _ => panic!("unknown option {k}"),
        }
    }
    let _ = PROP.set(c.prop.clone());
    let _ = OUT.set(if c.only.is_some() { None } else { Some(c.out.clone()) });
    crate::report::init(crumb.as_deref());
    c
}

impl Cli {
    pub fn wants(&self, p: &str) -> bool {
        self.prop == "ALL" || self.prop == p
    }
    pub fn mine(&self, i: usize) -> bool {
        i % self.shard.1 == self.shard.0
    }
    pub fn limits(&self, depth: usize) -> crate::explore::Limits {
        let mut l = crate::explore::Limits::new(depth, self.secs);
        if cfg!(miri) {
            l.bfs_depth = 1 + self.thorough as usize;
        }
        l
    }
    /// Writes the report; a replay prints it and fails if it found something.
    pub fn done(&self) -> ! {
        done_now()
    }
}
