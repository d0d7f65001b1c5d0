//! Evaluables and the identity comonad (spec/Eval.tla).
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::comonad::Comonad;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::functor::Functor;
use rustica::traits::hkt::HKT;
use rustica::traits::identity::Identity;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vk::journey::*;
use vk::*;

type Src = Arc<dyn Fn() -> String + Send + Sync>;

/// A caller's own evaluable, with the provided operations.
#[derive(Clone)]
struct Mine(Src);
impl HKT for Mine {
    type Source = String;
    type Output<U> = Option<U>;
}
impl Evaluate for Mine {
    fn evaluate(&self) -> String {
        (self.0)()
    }
}

/// All forms of every operation on some evaluable.
trait Obj {
    fn evaluate(&self, o: &mut Forms);
    fn twice(&self, o: &mut Forms);
    fn map(&self, o: &mut Forms, f: &J);
    fn bind(&self, o: &mut Forms, f: &J, k: &str);
    fn combine(&self, o: &mut Forms, f: &J, k: &str);
    fn combine_self(&self, o: &mut Forms, f: &J);
    fn filter(&self, o: &mut Forms, p: &J);
    /// Runs the evaluable in some way.
    fn src(&self, how: usize) -> Src;
}
fn join(f: &J) -> impl Fn(String, String) -> String + 'static + use<> {
    let f = st(f);
    move |a, b| {
        let x = format!("{a},{b}");
        called(&x);
        format!("{f}({x})")
    }
}
fn pred(p: &J) -> impl Fn(&String) -> bool + 'static + use<> {
    let p = st(p);
    move |x| {
        called(format!("p {x}"));
        match p.as_str() {
            "yes" => true,
            "no" => false,
            _ => x == "b#0",
        }
    }
}
/// A function's runs: each logged, each answering differently.
fn runs(b: &str, n: Arc<AtomicUsize>) -> Src {
    let b = b.to_string();
    Arc::new(move || {
        let x = format!("{b}#{}", n.fetch_add(1, SeqCst));
        called(format!("run {x}"));
        x
    })
}
fn fresh(b: &str) -> Src {
    runs(b, Default::default())
}
fn thunk(s: Src) -> Thunk<impl Fn() -> String + Clone + Send + Sync + 'static, String> {
    Thunk::new(move || s())
}
fn io(s: Src) -> IO<String> {
    IO::new(move || s())
}
macro_rules! by_kind {
    ($k:expr, $s:expr, $e:ident => $body:expr) => {
        match $k {
            "thunk" => { let $e = thunk($s); $body },
            "io" => { let $e = io($s); $body },
            _ => { let $e = Mine($s); $body },
        }
    };
}

struct W<E>(E);
impl<E: Evaluate<Source = String> + Clone + Send + Sync + 'static> Obj for W<E> {
    fn evaluate(&self, o: &mut Forms) {
        o.see("evaluate", || val(self.0.evaluate()));
        o.see("evaluate a clone", || val(self.0.clone().evaluate()));
        o.see("evaluate_owned", || val(self.0.clone().evaluate_owned()));
        o.see("map_evaluate", || val(self.0.map_evaluate(|x| x)));
        o.see("fmap_evaluate_owned", || val(self.0.clone().fmap_evaluate_owned(|x| x)));
    }
    fn twice(&self, o: &mut Forms) {
        let two = |a: String, b: String| json!(["two", a, b]);
        o.see("evaluate, evaluate", || {
            let a = self.0.evaluate();
            two(a, self.0.evaluate())
        });
        o.see("clone.evaluate_owned, evaluate", || {
            let a = self.0.clone().evaluate_owned();
            two(a, self.0.evaluate())
        });
        o.see("evaluate, clone.evaluate", || {
            let a = self.0.evaluate();
            two(a, self.0.clone().evaluate())
        });
        o.see("evaluate of a clone twice", || {
            let c = self.0.clone();
            let a = c.evaluate();
            two(a, c.evaluate_owned())
        });
        o.see("combine_evaluate", || self.0.combine_evaluate(&self.0, two));
    }
    fn map(&self, o: &mut Forms, f: &J) {
        o.see("fmap_evaluate", || val(self.0.fmap_evaluate(app(f))));
        o.see("map_evaluate", || val(self.0.map_evaluate(app(f))));
        o.see("fmap_evaluate_owned", || val(self.0.clone().fmap_evaluate_owned(app(f))));
        o.see("map_evaluate_owned", || val(self.0.clone().map_evaluate_owned(app(f))));
    }
    fn bind(&self, o: &mut Forms, f: &J, k: &str) {
        macro_rules! go {
            ($make:expr) => {{
                let f = app(f);
                let g = |x| $make(fresh(&f(x)));
                o.see("bind_evaluate", || val(self.0.bind_evaluate(&g)));
                o.see("and_then_evaluate", || val(self.0.and_then_evaluate(&g)));
                o.see("bind_evaluate_owned", || val(self.0.clone().bind_evaluate_owned(&g)));
                o.see("and_then_evaluate_owned", || val(self.0.clone().and_then_evaluate_owned(&g)));
            }};
        }
        match k {
            "thunk" => go!(thunk),
            "io" => go!(io),
            _ => go!(Mine),
        }
    }
    fn combine(&self, o: &mut Forms, f: &J, k: &str) {
        by_kind!(k, fresh("o"), e => o.see("combine_evaluate", || val(self.0.combine_evaluate(&e, join(f)))));
        by_kind!(k, fresh("o"), e => o.see("combine_evaluate_owned", || val(self.0.clone().combine_evaluate_owned(e, join(f)))));
    }
    fn combine_self(&self, o: &mut Forms, f: &J) {
        o.see("combine_evaluate", || val(self.0.combine_evaluate(&self.0, join(f))));
        o.see("combine_evaluate a clone", || val(self.0.combine_evaluate(&self.0.clone(), join(f))));
        o.see("combine_evaluate_owned", || val(self.0.clone().combine_evaluate_owned(self.0.clone(), join(f))));
    }
    fn filter(&self, o: &mut Forms, p: &J) {
        o.see("filter_evaluate", || opt(self.0.filter_evaluate(pred(p))));
        o.see("filter_evaluate_owned", || opt(self.0.clone().filter_evaluate_owned(pred(p))));
    }
    fn src(&self, how: usize) -> Src {
        let e = self.0.clone();
        match how {
            0 => Arc::new(move || e.evaluate()),
            1 => Arc::new(move || e.clone().evaluate_owned()),
            _ => Arc::new(move || e.map_evaluate(|x| x)),
        }
    }
}
/// Forms that run the evaluable: the count starts the same for each.
struct Forms {
    o: Vec<Form<V>>,
    v: V,
}
impl Forms {
    fn see(&mut self, name: &'static str, g: impl FnOnce() -> J) {
        let V::E { n, at, .. } = &self.v else { unreachable!() };
        at.store(*n, SeqCst);
        forget_calls();
        let r = guard(g).unwrap_or(json!(["panic"]));
        let mut next = self.v.clone();
        if let V::E { n, at, .. } = &mut next {
            *n = at.load(SeqCst);
        }
        self.o.push(Form { name, r, n: Some(next), c: calls() });
    }
}

#[derive(Clone)]
enum V {
    Id(Id<String>),
    E { k: String, b: String, n: usize, fs: Vec<String>, at: Arc<AtomicUsize>, obj: Rc<dyn Obj> },
}
fn obj(k: &str, s: Src) -> Rc<dyn Obj> {
    by_kind!(k, s, e => Rc::new(W(e)))
}
fn new(k: &str, b: &str, n: usize) -> V {
    let at = Arc::new(AtomicUsize::new(n));
    V::E { k: k.into(), b: b.into(), n, fs: vec![], obj: obj(k, runs(b, at.clone())), at }
}

struct Eval;
impl Journey for Eval {
    type V = V;
    fn make(v: &J) -> V {
        let k = s(&v[0]);
        if k == "id" {
            return V::Id(Id::new(st(&v[1])));
        }
        let (b, n) = (st(&v[1]), v[2].as_u64().unwrap() as usize);
        let at = Arc::new(AtomicUsize::new(n));
        let mut src = runs(&b, at.clone());
        let fs: Vec<String> = arr(v)[3..].iter().map(st).collect();
        for f in &arr(v)[3..] {
            let (f, old) = (app(f), src);
            src = Arc::new(move || f(old()));
        }
        V::E { k: k.into(), b, n, fs, at, obj: obj(k, src) }
    }
    fn show(v: &V) -> J {
        match v {
            V::Id(x) => json!(["id", x.value()]),
            V::E { k, b, n, fs, .. } => [json!(k), json!(b), json!(n)].into_iter().chain(fs.iter().map(|f| json!(f))).collect(),
        }
    }
    fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form<V>> {
        match v {
            V::Id(x) => {
                let mut o = O(Vec::new());
                match op {
                    "extract" => {
                        o.see("extract", || val(x.extract()));
                        o.see("extract of duplicate", || val(x.duplicate().extract()));
                        o.see("extract of extend(extract)", || val(x.extend(|w| w.extract()).extract()));
                        o.see("value", || val(x.value().clone()));
                        o.see("unwrap", || val(x.clone().unwrap()));
                    },
                    "duplicate" => {
                        o.to("duplicate", || V::Id(x.duplicate()));
                        o.to("duplicate twice", || V::Id(x.duplicate().duplicate()));
                        o.to("extend, join", || V::Id(x.extend(|w| w.duplicate()).extract()));
                    },
                    "extend_extract" => o.to("extend(extract)", || V::Id(x.extend(Comonad::extract))),
                    "extend" => {
                        let f = app(&a[0]);
                        o.to("extend", || V::Id(x.extend(|w| f(w.extract()))));
                        o.to("extend over duplicate", || V::Id(x.duplicate().extend(|w| f(w.value().clone()))));
                        o.to("fmap over extend(duplicate)", || V::Id(x.extend(|w| w.duplicate()).fmap(|w: &Id<String>| f(w.extract()))));
                    },
                    _ => o.to("as an evaluable", || new(s(&a[0]), &x.extract(), 0)),
                }
                o.0
            },
            V::E { k, n, fs, at, obj: e, b } => {
                let mut o = Forms { o: Vec::new(), v: v.clone() };
                match op {
                    "evaluate" => e.evaluate(&mut o),
                    "twice" => e.twice(&mut o),
                    "map" => e.map(&mut o, &a[0]),
                    "bind" => e.bind(&mut o, &a[0], s(&a[1])),
                    "combine" => e.combine(&mut o, &a[0], s(&a[1])),
                    "combine_self" => e.combine_self(&mut o, &a[0]),
                    "filter" => e.filter(&mut o, &a[0]),
                    "keep" => {
                        let mut p = O(Vec::new());
                        for (i, name) in ["evaluate", "evaluate_owned", "map_evaluate"].into_iter().enumerate() {
                            at.store(*n, SeqCst);
                            p.to(name, || V::Id(Id::new(e.src(i)())));
                        }
                        return p.0;
                    },
                    _ => {
                        let mut p = O(Vec::new());
                        for (i, name) in ["of evaluate", "of evaluate_owned", "of map_evaluate"].into_iter().enumerate() {
                            at.store(*n, SeqCst);
                            p.to(name, || {
                                let (k, fs, src) = if op == "become" {
                                    (st(&a[0]), fs.clone(), e.src(i))
                                } else {
                                    let (f, old) = (app(&a[0]), e.src(i));
                                    let src: Src = Arc::new(move || f(old()));
                                    (k.clone(), fs.iter().cloned().chain([st(&a[0])]).collect(), src)
                                };
                                V::E { obj: obj(&k, src), k, b: b.clone(), n: *n, fs, at: at.clone() }
                            });
                        }
                        if op == "then" && k == "io" {
                            p.to("IO::fmap", || {
                                let obj: Rc<dyn Obj> = Rc::new(W(io(e.src(0)).fmap(app(&a[0]))));
                                V::E { obj, k: k.clone(), b: b.clone(), n: *n, fs: fs.iter().cloned().chain([st(&a[0])]).collect(), at: at.clone() }
                            });
                        }
                        return p.0;
                    },
                }
                o.o
            },
        }
    }
    fn ops(kind: &str) -> Vec<(&'static str, &'static str)> {
        if kind == "id" {
            vec![("extract", ""), ("duplicate", ""), ("extend", "f"), ("extend_extract", ""), ("as_thunk", "k")]
        } else {
            vec![("evaluate", ""), ("twice", ""), ("map", "f"), ("bind", "fk"), ("combine", "fk"), ("combine_self", "f"), ("filter", "p"),
                 ("become", "k"), ("then", "f"), ("keep", "")]
        }
    }
    fn arg(sort: char, _: &str, r: &mut Rng) -> J {
        json!(match sort {
            'f' => *r.pick(&["f", "g"]),
            'k' => *r.pick(&["thunk", "io", "mine"]),
            _ => *r.pick(&["yes", "no", "first"]),
        })
    }
    fn start(r: &mut Rng) -> J {
        match r.below(4) {
            0 => json!(["id", "a"]),
            _ => json!([*r.pick(&["thunk", "io", "mine"]), "b", r.below(3)]),
        }
    }
}
fn main() {
    vk::journey::main::<Eval>()
}
