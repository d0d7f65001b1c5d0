//! Shared parts of the conformance harness: reading the cases TLC wrote,
//! reporting disagreements, writing traces for TLC to check.
pub mod journey;
pub mod sched;
use serde_json::Value;
use std::any::Any;
use std::cell::Cell;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub use serde_json::{Value as J, json};

/// xorshift64*: every random choice of the harness comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() >> 11) as usize % n }
    }
    /// A length below <n>, now and then much larger.
    pub fn size(&mut self, n: usize) -> usize {
        match self.below(240) {
            0 => self.below(40 * n),
            1..=20 => self.below(9 * n),
            _ => self.below(n),
        }
    }
    /// One of <xs>, now and then a text that is unusual in itself.
    pub fn text(&mut self, xs: &[&str]) -> String {
        if !self.chance(1, 8) {
            return self.pick(xs).to_string();
        }
        match self.below(10) {
            0 => " ".into(),
            1 => "a ".into(),
            2 => " a".into(),
            3 => "A".into(),
            4 => "a\nb\t".into(),
            5 => "xy".repeat(30 + self.below(120)),
            6 => "\u{df}\u{301}\u{4e2d}\u{1f980}".into(),
            7 => "-0".into(),
            8 => "%s\\".into(),
            _ => "aa".into(),
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

thread_local! {
    static GUARDS: Cell<usize> = const { Cell::new(0) };
}

/// Panics of the code under test are data: keep them off stderr.  One that no
/// guard expects ends the harness; its message says where it came from.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if GUARDS.try_with(|g| g.get() == 0).unwrap_or(true) && std::thread::current().name() == Some("main") {
            eprintln!("{info}");
        }
    }));
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(e.as_ref()));
    GUARDS.with(|g| g.set(g.get() - 1));
    r
}

/// Arguments: `--key value` pairs.
pub struct Args(pub Vec<String>);
impl Args {
    pub fn get() -> Self {
        Args(std::env::args().skip(1).collect())
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        let k = format!("--{k}");
        self.0.iter().position(|a| *a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    pub fn str(&self, k: &str) -> &str {
        self.opt(k).unwrap_or_else(|| panic!("missing --{k}"))
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

/// Lines written by TLC's CSVWrite: each a JSON string holding JSON, or plain JSON.
pub fn cases(path: &str) -> impl Iterator<Item = Value> {
    let f = BufReader::new(File::open(path).unwrap_or_else(|e| panic!("{path}: {e}")));
    f.lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).map(|l| {
        let v: Value = serde_json::from_str(&l).unwrap_or_else(|e| panic!("bad case {l}: {e}"));
        match v {
            Value::String(s) => serde_json::from_str(&s).unwrap_or_else(|e| panic!("bad case {s}: {e}")),
            v => v,
        }
    })
}

/// Collects disagreements between the specification and the code.
pub struct Report {
    out: BufWriter<File>,
    pub cases: u64,
    pub checks: u64,
    pub bad: u64,
    pub kinds: std::collections::BTreeMap<String, u64>,
}
impl Report {
    pub fn new(path: &str) -> Self {
        Report {
            out: BufWriter::new(File::create(path).unwrap()),
            cases: 0,
            checks: 0,
            bad: 0,
            kinds: Default::default(),
        }
    }
    pub fn mismatch(&mut self, key: &str, case: &Value, what: &str, expected: Value, got: Value) {
        self.bad += 1;
        let n = self.kinds.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n <= 50 {
            let v = json!({"key": key, "what": what, "expected": expected, "got": got, "case": case});
            writeln!(self.out, "{v}").unwrap();
        }
    }
    /// Compare and count.
    pub fn check(&mut self, key: &str, case: &Value, what: &str, expected: &Value, got: &Value) -> bool {
        self.checks += 1;
        if expected != got {
            self.mismatch(key, case, what, expected.clone(), got.clone());
            false
        } else {
            true
        }
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
        println!(
            "{}",
            json!({"cases": self.cases, "checks": self.checks, "mismatches": self.bad, "kinds": self.kinds})
        );
    }
}

pub struct TraceOut {
    out: BufWriter<File>,
    pub n: u64,
    pub events: u64,
}
impl TraceOut {
    pub fn new(path: &str) -> Self {
        TraceOut { out: BufWriter::new(File::create(path).unwrap()), n: 0, events: 0 }
    }
    pub fn line(&mut self, v: &Value) {
        writeln!(self.out, "{v}").unwrap();
        self.n += 1;
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
        println!("{}", json!({"traces": self.n, "events": self.events}));
    }
}

pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}"))
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("not a number: {v}")) as usize
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("not an array: {v}"))
}

/// A sequence of elements that says in one of several ways how many there are.
/// Every hint is true of it; only the elements matter to whoever consumes it.
#[derive(Clone)]
pub struct Src<T> {
    xs: std::vec::IntoIter<T>,
    kind: usize,
}
const HINTS: [&str; 9] = ["n..n", "0..n", "0..", "n..", "n/2..n", "n/2..n+9", "n..n+9", "n-1..n", "n/2.."];
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.xs.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.xs.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, Some(n)),
            2 => (0, None),
            3 => (n, None),
            4 => (n / 2, Some(n)),
            5 => (n / 2, Some(n + 9)),
            6 => (n, Some(n + 9)),
            7 => (n.saturating_sub(1), Some(n)),
            _ => (n / 2, None),
        }
    }
}
/// The elements under every kind of size hint, with a name for it.
pub fn srcs<T: Clone>(xs: &[T]) -> impl Iterator<Item = (&'static str, Src<T>)> + use<T> {
    let xs = xs.to_vec();
    HINTS.iter().enumerate().map(move |(kind, name)| (*name, Src { xs: xs.clone().into_iter(), kind }))
}
/// The elements under one kind of size hint, chosen by `k`.
pub fn src<T: Clone>(xs: &[T], k: usize) -> Src<T> {
    Src { xs: xs.to_vec().into_iter(), kind: k % HINTS.len() }
}

/// An element equal to every other of its class, some classes sharing a hash.
#[derive(Clone, Copy, Debug)]
pub struct Cl(pub i64, pub i64);
impl PartialEq for Cl {
    fn eq(&self, other: &Self) -> bool {
        self.1 == other.1
    }
}
impl Eq for Cl {}
impl PartialOrd for Cl {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for Cl {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.1.cmp(&other.1)
    }
}
impl std::hash::Hash for Cl {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.1 & 1).hash(h);
    }
}
/// An element that may not be equal even to itself.
#[derive(Clone, Copy, Debug)]
pub struct Pt(pub i64);
impl PartialEq for Pt {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0 && self.0 % 5 != 0
    }
}
impl PartialOrd for Pt {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        if self.0 % 5 == 0 || other.0 % 5 == 0 { None } else { Some(self.0.cmp(&other.0)) }
    }
}
