//! One real value on its way through a subsystem: every operation is performed in
//! all its forms, each form's result, successor value and closure log compared with
//! the specification (replay) or written down for the trace specification (record).
use crate::*;
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
/// A closure of the caller was run on `x`.
pub fn called(x: impl Into<String>) {
    LOG.with(|l| l.borrow_mut().push(x.into()));
}
pub fn forget_calls() {
    LOG.with(|l| l.borrow_mut().clear());
}
pub fn calls() -> Vec<String> {
    LOG.with(|l| l.take())
}

pub struct Form<V> {
    pub name: &'static str,
    pub r: J,
    pub n: Option<V>,
    pub c: Vec<String>,
}
pub struct O<V>(pub Vec<Form<V>>);
impl<V> O<V> {
    /// An observation.
    pub fn see(&mut self, name: &'static str, g: impl FnOnce() -> J) {
        forget_calls();
        let r = guard(g).unwrap_or(json!(["panic"]));
        self.0.push(Form { name, r, n: None, c: calls() });
    }
    /// An operation that makes a new value.
    pub fn to(&mut self, name: &'static str, g: impl FnOnce() -> V) {
        forget_calls();
        let (r, n) = match guard(g) {
            Ok(v) => (json!(["to"]), Some(v)),
            Err(_) => (json!(["panic"]), None),
        };
        self.0.push(Form { name, r, n, c: calls() });
    }
}
pub fn val(x: impl Into<J>) -> J {
    json!(["val", x.into()])
}
pub fn opt<T: AsRef<str>>(x: Option<T>) -> J {
    x.map_or(json!(["none"]), |x| json!(["some", x.as_ref()]))
}
pub fn boolean(b: bool) -> J {
    val(b.to_string())
}
pub fn list(k: &str, xs: impl IntoIterator<Item = String>) -> J {
    std::iter::once(k.to_string()).chain(xs).map(J::from).collect()
}
pub fn st(v: &J) -> String {
    s(v).to_string()
}
pub fn strs(v: &J) -> Vec<String> {
    arr(v).iter().map(st).collect()
}
/// The symbolic function `f`: logs its argument, wraps it.
pub fn app(f: &J) -> impl Fn(String) -> String + Clone + Send + Sync + 'static + use<> {
    let f = st(f);
    move |x| {
        called(&x);
        format!("{f}({x})")
    }
}

pub trait Journey {
    type V;
    fn make(v: &J) -> Self::V;
    fn show(v: &Self::V) -> J;
    fn forms(v: &Self::V, op: &str, a: &[J]) -> Vec<Form<Self::V>>;
    /// The operations of a value with the sorts of their arguments.
    fn ops(kind: &str) -> Vec<(&'static str, &'static str)>;
    fn ops_of(v: &J) -> Vec<(&'static str, &'static str)> {
        Self::ops(s(&v[0]))
    }
    fn args(sig: &str, op: &str, r: &mut Rng) -> Vec<J> {
        sig.chars().map(|c| Self::arg(c, op, r)).collect()
    }
    fn arg(sort: char, op: &str, r: &mut Rng) -> J;
    fn start(r: &mut Rng) -> J;
}

pub fn main<T: Journey>() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let mut seen = std::collections::HashSet::new();
            for c in cases(a.str("cases")) {
                if !seen.insert(c.to_string()) {
                    continue;
                }
                rep.cases += 1;
                let op = s(&c["op"]);
                // the path the specification took here, each step in some form
                let v = match c.get("p") {
                    None => T::make(&c["v"]),
                    Some(path) => {
                        let mut v = T::make(&c["s"]);
                        for (i, p) in arr(path).iter().enumerate() {
                            let fs = T::forms(&v, s(&p[0]), arr(&p[1]));
                            let j = (rep.cases as usize / (i + 1) + i) % fs.len();
                            match fs.into_iter().nth(j).unwrap().n {
                                Some(n) => v = n,
                                None => break,
                            }
                        }
                        v
                    },
                };
                let fs = T::forms(&v, op, arr(&c["a"]));
                assert!(!fs.is_empty(), "no form of {c}");
                let key = format!("{} {op}", s(&c["v"][0]));
                for f in fs {
                    rep.check(&key, &c, f.name, &c["r"], &f.r);
                    if let Some(n) = f.n {
                        rep.check(&key, &c, f.name, &c["n"], &T::show(&n));
                    }
                    rep.check(&key, &c, &format!("closures called by {}", f.name), &c["c"], &json!(f.c));
                    rep.check(&key, &c, &format!("the value after {}", f.name), &c["v"], &T::show(&v));
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            for _ in 0..a.num("n", 100) {
                let start = T::start(&mut r);
                let mut v = T::make(&start);
                let mut evs = Vec::new();
                while evs.len() < a.num("len", 30) as usize {
                    let kind = T::show(&v);
                    let ops = T::ops_of(&kind);
                    let (op, sig) = *r.pick(&ops);
                    let arg = T::args(sig, op, &mut r);
                    let fs = T::forms(&v, op, &arg);
                    assert!(!fs.is_empty(), "no form of {kind} {op}");
                    let i = r.below(fs.len());
                    let f = fs.into_iter().nth(i).unwrap();
                    if let Some(n) = f.n {
                        v = n;
                    }
                    evs.push(json!({"op": op, "form": f.name, "a": arg, "r": f.r, "n": T::show(&v), "c": f.c}));
                    if T::show(&v).to_string().len() > 1600 {
                        break;
                    }
                }
                tr.events += evs.len() as u64;
                tr.line(&json!({"evs": evs, "meta": start}));
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
