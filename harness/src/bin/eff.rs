//! Effect programs (spec/Eff.tla) on the real monads.
use rustica::datatypes::id::Id;
use rustica::datatypes::io::{IO, IOError};
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::{self, State};
use rustica::datatypes::writer::Writer;
use rustica::error::ComposableError;
use rustica::traits::applicative::Applicative;
use rustica::traits::evaluate::Evaluate;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use rustica::transformers::{MonadTransformer, ReaderT, StateT};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::collections::HashMap;
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use std::thread::ThreadId;
use vk::*;

// ---------------------------------------------------------------- programs
#[derive(Debug)]
struct Node {
    tag: String,
    a: Vec<String>,
    n: Vec<usize>,
    kids: Vec<N>,
}
type N = Arc<Node>;

fn parse(j: &J) -> N {
    let xs = arr(j);
    let mut nd = Node { tag: s(&xs[0]).into(), a: vec![], n: vec![], kids: vec![] };
    for x in &xs[1..] {
        match x {
            J::String(t) => nd.a.push(t.clone()),
            J::Number(_) => nd.n.push(us(x)),
            J::Array(ys) if ys.is_empty() => {}
            J::Array(ys) if ys[0].is_array() => nd.kids.extend(ys.iter().map(parse)),
            J::Array(_) => nd.kids.push(parse(x)),
            _ => panic!("bad program {j}"),
        }
    }
    Arc::new(nd)
}

/// What a program needs while it is built and run: the effect log and the choice
/// between equivalent API forms.
/// While runs overlap (par), log and world are one per thread: such runs have nothing in common.
#[derive(Clone)]
struct Cx {
    log: Arc<Mutex<HashMap<Option<ThreadId>, Vec<String>>>>,
    /// the state of the world, for IO
    cell: Arc<Mutex<HashMap<Option<ThreadId>, String>>>,
    par: Arc<AtomicBool>,
    seed: u64,
    n: Arc<AtomicU64>,
}
impl Cx {
    fn who(&self) -> Option<ThreadId> {
        self.par.load(Ordering::SeqCst).then(|| std::thread::current().id())
    }
    fn new(seed: u64) -> Self {
        Cx { log: Default::default(), cell: Default::default(), par: Default::default(), seed, n: Default::default() }
    }
    fn note(&self, e: &str) {
        self.log.lock().unwrap().entry(self.who()).or_default().push(e.to_string());
    }
    fn take(&self) -> Vec<String> {
        self.log.lock().unwrap().remove(&self.who()).unwrap_or_default()
    }
    fn world<R>(&self, f: impl FnOnce(&mut String) -> R) -> R {
        f(self.cell.lock().unwrap().entry(self.who()).or_default())
    }
    /// one of k equivalent forms
    fn form(&self, k: u64) -> u64 {
        let i = self.n.fetch_add(1, Ordering::Relaxed);
        let mut x = self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(i.wrapping_mul(0xBF58_476D_1CE4_E5B9));
        x ^= x >> 29;
        x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^= x >> 32;
        x % k
    }
}

type Vs = Vec<String>;
fn with(vs: &Vs, x: String) -> Vs {
    let mut v = vs.clone();
    v.push(x);
    v
}
fn app2(g: &str, x: &str, y: &str) -> String {
    match g {
        "<" => x.to_string(),
        ">" => y.to_string(),
        "+" => format!("{x}{y}"),
        _ => format!("{g}{x},{y};"),
    }
}
fn joined(h: &str, xs: &[String]) -> String {
    let mut r = h.to_string();
    for x in xs {
        r.push_str(x);
        r.push(',');
    }
    r
}
fn taken<'a>(p: &'a N, vs: &Vs) -> &'a N {
    if vs[p.n[0] - 1].starts_with(&p.a[0]) { &p.kids[0] } else { &p.kids[1] }
}
fn pre(f: &str) -> impl Fn(String) -> String + Clone + Send + Sync + 'static + use<> {
    let f = f.to_string();
    move |x| format!("{f}{x}")
}

/// A value that refers to itself: X = p followed by (X, the first time; ".", inside of that).
struct Knot<T> {
    x: OnceLock<T>,
    open: Mutex<HashMap<Option<ThreadId>, ()>>,
    cx: Cx,
}
struct Open<'a, T>(&'a Knot<T>);
impl<T> Drop for Open<'_, T> {
    fn drop(&mut self) {
        self.0.open.lock().unwrap().remove(&self.0.cx.who());
    }
}
impl<T> Knot<T> {
    fn new(cx: &Cx) -> Arc<Self> {
        Arc::new(Knot { x: OnceLock::new(), open: Default::default(), cx: cx.clone() })
    }
    /// run the whole of it again, or give up when that is already going on
    fn enter<R>(&self, run: impl FnOnce(&T) -> R, stop: impl FnOnce() -> R) -> R {
        if self.open.lock().unwrap().insert(self.cx.who(), ()).is_some() {
            return stop();
        }
        let _o = Open(self);
        run(self.x.get().unwrap())
    }
}

// ---------------------------------------------------------------- State
type St = State<String, String>;
fn st(p: &N, vs: &Vs, cx: &Cx) -> St {
    let leaf = |x: String| if cx.form(2) == 0 { State::pure(x) } else { State::new(move |s| (x.clone(), s)) };
    match p.tag.as_str() {
        "pure" => leaf(p.a[0].clone()),
        "var" => leaf(vs[p.n[0] - 1].clone()),
        "get" => state::get(),
        "put" | "putv" => {
            let x = if p.tag == "put" { p.a[0].clone() } else { vs[p.n[0] - 1].clone() };
            state::put(x).fmap(|()| "u".to_string())
        }
        "modify" => state::modify(pre(&p.a[0])).fmap(|()| "u".to_string()),
        "gets" => {
            let f = pre(&p.a[0]);
            match cx.form(2) {
                0 => state::get().fmap(f),
                _ => State::new(move |s: String| (f(s.clone()), s)),
            }
        }
        "eff" => {
            let (cx, n) = (cx.clone(), p.a[0].clone());
            State::new(move |s| {
                cx.note(&n);
                (n.clone(), s)
            })
        }
        "fmap" => st(&p.kids[0], vs, cx).fmap(pre(&p.a[0])),
        "bind" => {
            let (q, vs2, cx2) = (p.kids[1].clone(), vs.clone(), cx.clone());
            st(&p.kids[0], vs, cx).bind(move |x| st(&q, &with(&vs2, x), &cx2))
        }
        "ap" => st(&p.kids[0], vs, cx).fmap(|f| pre(&f)).apply(st(&p.kids[1], vs, cx)),
        "ifv" => st(taken(p, vs), vs, cx),
        "rec" => {
            let (g, q, k) = (p.a[0].clone(), st(&p.kids[0], vs, cx), Knot::<St>::new(cx));
            let k2 = k.clone();
            let again: St = State::new(move |s: String| k2.enter(|x| x.run_state(s.clone()), || (".".into(), s.clone())));
            let x: St = match cx.form(3) {
                0 => q.bind(move |x| { let g = g.clone(); again.clone().fmap(move |y| app2(&g, &x, &y)) }),
                1 => q.bind(move |x| {
                    // run it while the continuation is being chosen
                    let (g, again) = (g.clone(), again.clone());
                    State::new(move |s| { let (y, s) = again.run_state(s); (app2(&g, &x, &y), s) })
                }),
                _ => q.fmap(move |x| { let g = g.clone(); move |y: String| app2(&g, &x, &y) }).apply(again),
            };
            let _ = k.x.set(x.clone());
            x
        }
        "share" => {
            let (g, q) = (p.a[0].clone(), st(&p.kids[0], vs, cx));
            match cx.form(4) {
                0 => q.clone().fmap(move |x| { let g = g.clone(); move |y: String| app2(&g, &x, &y) }).apply(q),
                1 => State::new(move |s| {
                    let (x, s) = q.run_state(s);
                    let (y, s) = q.run_state(s);
                    (app2(&g, &x, &y), s)
                }),
                n => {
                    let q2 = if n == 2 { q.clone() } else { q.clone().fmap(|x| x) };
                    q.bind(move |x| { let g = g.clone(); q2.clone().fmap(move |y| app2(&g, &x, &y)) })
                }
            }
        }
        "same" => {
            let q = st(&p.kids[0], vs, cx);
            match cx.form(5) {
                0 => q.clone(),
                1 => StateT::from_state(q).to_state(),
                2 => State::from(StateT::<String, Id<(String, String)>, String>::new(move |s| Id::new(q.run_state(s)))),
                3 => q.bind(State::pure),
                _ => q.fmap(|x| x),
            }
        }
        t => panic!("state: {t}"),
    }
}

// ---------------------------------------------------------------- StateT
macro_rules! statet {
    ($name:ident, $pureish:ident, $m:ty, $pure:expr, $map:expr, $bind:expr, $comb:expr, $fail:expr, $lift:expr, $special:expr) => {
        /// liftm: a LiftM value may appear here
        fn $name(p: &N, vs: &Vs, cx: &Cx, liftm: bool) -> StateT<String, $m, String> {
            type T<A> = StateT<String, $m, A>;
            let leaf = |x: String| -> T<String> {
                match cx.form(2) {
                    0 => StateT::pure(x, $pure),
                    _ => StateT::new(move |s| $pure((s, x.clone()))),
                }
            };
            match p.tag.as_str() {
                "pure" => leaf(p.a[0].clone()),
                "var" => leaf(vs[p.n[0] - 1].clone()),
                "get" => T::<String>::get($pure),
                "swap" => T::<String>::put(p.a[0].clone(), $pure),
                "modify" => T::<()>::modify(pre(&p.a[0]), |(s, ())| $pure((s, "u".to_string())))
                    .fmap_with(|()| "u".to_string(), |m: $m, f| ($map)(m, Box::new(move |(s, _)| f((s, ()))))),
                "setst" => {
                    let base = $pure((p.a[0].clone(), p.a[1].clone()));
                    if liftm && cx.form(2) == 0 { StateT::LiftM(base) } else { ($lift)(base) }
                }
                "eff" => {
                    let (cx, n) = (cx.clone(), p.a[0].clone());
                    StateT::new(move |s| {
                        cx.note(&n);
                        $pure((s, n.clone()))
                    })
                }
                "fail" => {
                    let base: $m = ($fail)(&p.a[0]);
                    match cx.form(3) {
                        0 if liftm => StateT::LiftM(base),
                        1 => ($lift)(base),
                        _ => StateT::new(move |_| base.clone()),
                    }
                }
                "fmap" => ($name)(&p.kids[0], vs, cx, liftm)
                    .fmap_with(pre(&p.a[0]), |m: $m, f| ($map)(m, Box::new(move |x| f(x)))),
                "bind" => {
                    let (q, vs2, cx2) = (p.kids[1].clone(), vs.clone(), cx.clone());
                    let k = move |x: String| ($name)(&q, &with(&vs2, x), &cx2, liftm);
                    let left = match $pureish(&p.kids[0], vs) {
                        Some(x) if cx.form(2) == 0 => x,
                        _ => ($name)(&p.kids[0], vs, cx, true),
                    };
                    left.bind_with(k, |m: $m, f: Box<dyn Fn((String, String)) -> $m + Send + Sync>| ($bind)(m, f))
                }
                "par" => {
                    let g = p.a[0].clone();
                    if cx.form(2) == 0 {
                        let (a, b) = (($name)(&p.kids[0], vs, cx, false), ($name)(&p.kids[1], vs, cx, false));
                        a.combine_with(&b, move |x: String, y: String| app2(&g, &x, &y), |m1, m2, c| ($comb)(m1, m2, c))
                    } else {
                        let (a, b) = (($name)(&p.kids[0], vs, cx, liftm), ($name)(&p.kids[1], vs, cx, liftm));
                        let r: T<String> = a.apply(b, move |m1: $m, m2: $m| {
                            let g = g.clone();
                            ($comb)(m1, m2, Box::new(move |(_, x): (String, String), (s, y): (String, String)| (s, app2(&g, &x, &y))))
                        });
                        r
                    }
                }
                "rec" => {
                    let (g, q, k) = (p.a[0].clone(), ($name)(&p.kids[0], vs, cx, true), Knot::<T<String>>::new(cx));
                    let k2 = k.clone();
                    let again: T<String> = StateT::new(move |s: String| k2.enter(|x| x.run_state(s.clone()), || $pure((s.clone(), ".".to_string()))));
                    let x: T<String> = q.bind_with(move |x: String| {
                        let g = g.clone();
                        again.fmap_with(move |y: String| app2(&g, &x, &y), |m: $m, f| ($map)(m, Box::new(move |x| f(x))))
                    }, |m: $m, f: Box<dyn Fn((String, String)) -> $m + Send + Sync>| ($bind)(m, f));
                    let _ = k.x.set(x.clone());
                    x
                }
                "share" => {
                    let (g, q) = (p.a[0].clone(), ($name)(&p.kids[0], vs, cx, true));
                    let q2 = q.clone();
                    q.bind_with(move |x: String| {
                        let g = g.clone();
                        q2.fmap_with(move |y: String| app2(&g, &x, &y), |m: $m, f| ($map)(m, Box::new(move |x| f(x))))
                    }, |m: $m, f: Box<dyn Fn((String, String)) -> $m + Send + Sync>| ($bind)(m, f))
                }
                t => ($special)(t, p, vs, cx, liftm),
            }
        }
        /// Pure values under maps, as the Pure variant.
        fn $pureish(p: &N, vs: &Vs) -> Option<StateT<String, $m, String>> {
            match p.tag.as_str() {
                "pure" => Some(StateT::Pure(p.a[0].clone())),
                "var" => Some(StateT::Pure(vs[p.n[0] - 1].clone())),
                "fmap" => $pureish(&p.kids[0], vs).map(|q| q.fmap_with(pre(&p.a[0]), |m, _| m)),
                "par" => {
                    let (a, b) = ($pureish(&p.kids[0], vs)?, $pureish(&p.kids[1], vs)?);
                    let g = p.a[0].clone();
                    Some(a.combine_with(&b, move |x: String, y: String| app2(&g, &x, &y), |m, _, _| m))
                }
                _ => None,
            }
        }
    };
}

type SA = (String, String);
type MO = Option<SA>;
type MR = Result<SA, String>;
type ML = Vec<SA>;
type MI = Id<SA>;
type Comb<'a> = Box<dyn Fn(SA, SA) -> SA + Send + Sync + 'a>;

/// no effect is performed by running p
fn silent(p: &N) -> bool {
    p.tag != "eff" && p.kids.iter().all(silent)
}
fn join_o(p: &N, vs: &Vs, cx: &Cx) -> StateT<String, MO, String> {
    let (a, q, vs, cx) = (sto(&p.kids[0], vs, cx, true), p.kids[1].clone(), vs.clone(), cx.clone());
    let nested: StateT<String, Option<(String, StateT<String, MO, String>)>, StateT<String, MO, String>> = match &a {
        StateT::LiftM(m) if silent(&q) => StateT::LiftM(m.clone().map(|(s, x)| (s, sto(&q, &with(&vs, x), &cx, true)))),
        _ => StateT::new(move |s: String| a.run_state(s).map(|(s, x)| (s, sto(&q, &with(&vs, x), &cx, true)))),
    };
    let flat = nested.join(|m: Option<(String, StateT<String, MO, String>)>| m.and_then(|(s, i)| i.run_state(s)));
    StateT::new(move |s| flat.run_state(s))
}
fn join_r(p: &N, vs: &Vs, cx: &Cx) -> StateT<String, MR, String> {
    type In = StateT<String, MR, String>;
    let (a, q, vs, cx) = (str_(&p.kids[0], vs, cx, true), p.kids[1].clone(), vs.clone(), cx.clone());
    let nested: StateT<String, Result<(String, In), String>, In> = match &a {
        StateT::LiftM(m) if silent(&q) => StateT::LiftM(m.clone().map(|(s, x)| (s, str_(&q, &with(&vs, x), &cx, true)))),
        _ => StateT::new(move |s: String| a.run_state(s).map(|(s, x)| (s, str_(&q, &with(&vs, x), &cx, true)))),
    };
    let flat = nested.join(|m: Result<(String, In), String>| m.and_then(|(s, i)| i.run_state(s)));
    StateT::new(move |s| flat.run_state(s))
}
fn join_i(p: &N, vs: &Vs, cx: &Cx) -> StateT<String, MI, String> {
    type In = StateT<String, MI, String>;
    let (a, q, vs, cx) = (sti(&p.kids[0], vs, cx, true), p.kids[1].clone(), vs.clone(), cx.clone());
    let nested: StateT<String, Id<(String, In)>, In> = StateT::new(move |s: String| {
        let (s, x) = a.run_state(s).into_inner();
        Id::new((s, sti(&q, &with(&vs, x), &cx, true)))
    });
    let flat = nested.join(|m: Id<(String, In)>| {
        let (s, i) = m.into_inner();
        i.run_state(s)
    });
    StateT::new(move |s| flat.run_state(s))
}

statet!(
    sto,
    sto_pure,
    MO,
    |x| -> MO { Some(x) },
    |m: MO, f: Box<dyn Fn(SA) -> SA>| m.map(f),
    |m: MO, f: Box<dyn Fn(SA) -> MO + Send + Sync>| m.and_then(f),
    |a: MO, b: MO, c: Comb| match (a, b) {
        (Some(x), Some(y)) => Some(c(x, y)),
        _ => None,
    },
    |_: &str| -> MO { None },
    |b: MO| <StateT<String, MO, String> as MonadTransformer>::lift(b),
    |t: &str, p: &N, vs: &Vs, cx: &Cx, liftm: bool| match t {
        "join" => join_o(p, vs, cx),
        _ => panic!("stateto: {t}"),
    }
);
statet!(
    str_,
    str_pure,
    MR,
    |x| -> MR { Ok(x) },
    |m: MR, f: Box<dyn Fn(SA) -> SA>| m.map(f),
    |m: MR, f: Box<dyn Fn(SA) -> MR + Send + Sync>| m.and_then(f),
    |a: MR, b: MR, c: Comb| match (a, b) {
        (Ok(x), Ok(y)) => Ok(c(x, y)),
        (Err(e), _) => Err(e),
        (_, Err(e)) => Err(e),
    },
    |e: &str| -> MR { Err(e.to_string()) },
    |b: MR| rustica::transformers::lift::<StateT<String, MR, String>, MR>(b),
    |t: &str, p: &N, vs: &Vs, cx: &Cx, liftm: bool| match t {
        "join" => join_r(p, vs, cx),
        "mapfail" => str_(&p.kids[0], vs, cx, liftm).map_error(pre(&p.a[0])),
        _ => panic!("statetr: {t}"),
    }
);
statet!(
    stl,
    stl_pure,
    ML,
    |x| -> ML { vec![x] },
    |m: ML, f: Box<dyn Fn(SA) -> SA>| m.into_iter().map(f).collect::<ML>(),
    |m: ML, f: Box<dyn Fn(SA) -> ML + Send + Sync>| m.into_iter().flat_map(f).collect::<ML>(),
    |a: ML, b: ML, c: Comb| {
        let mut r = vec![];
        for x in &a {
            for y in &b {
                r.push(c(x.clone(), y.clone()));
            }
        }
        r
    },
    |_: &str| -> ML { vec![] },
    |b: ML| StateT::new(move |_| b.clone()),
    |t: &str, p: &N, vs: &Vs, cx: &Cx, liftm: bool| match t {
        "amb" => {
            let (a, b) = (stl(&p.kids[0], vs, cx, true), stl(&p.kids[1], vs, cx, true));
            StateT::new(move |s: String| [a.run_state(s.clone()), b.run_state(s)].concat())
        }
        _ => panic!("statetl: {t}"),
    }
);
statet!(
    sti,
    sti_pure,
    MI,
    |x| -> MI { Id::new(x) },
    |m: MI, f: Box<dyn Fn(SA) -> SA>| Id::new(f(m.into_inner())),
    |m: MI, f: Box<dyn Fn(SA) -> MI + Send + Sync>| f(m.into_inner()),
    |a: MI, b: MI, c: Comb| Id::new(c(a.into_inner(), b.into_inner())),
    |e: &str| -> MI { panic!("{e}") },
    |b: MI| <StateT<String, MI, String> as MonadTransformer>::lift(b),
    |t: &str, p: &N, vs: &Vs, cx: &Cx, liftm: bool| match t {
        "join" => join_i(p, vs, cx),
        "same" => {
            let q = sti(&p.kids[0], vs, cx, liftm);
            match cx.form(2) {
                0 => q.clone(),
                _ => StateT::from_state(q.to_state()),
            }
        }
        _ => panic!("stateti: {t}"),
    }
);

// ---------------------------------------------------------------- Reader
type Rd = Reader<String, String>;
fn rd(p: &N, vs: &Vs, cx: &Cx) -> Rd {
    let leaf = |x: String| Reader::new(move |_: String| x.clone());
    match p.tag.as_str() {
        "pure" => leaf(p.a[0].clone()),
        "var" => leaf(vs[p.n[0] - 1].clone()),
        "ask" => match cx.form(3) {
            0 => Reader::ask(),
            1 => Reader::new(|e: String| e),
            _ => Reader::from(ReaderT::<String, Id<String>, String>::new(Id::new)),
        },
        "asks" => {
            let f = pre(&p.a[0]);
            match cx.form(4) {
                0 => Reader::asks(f),
                1 => Reader::ask_transform(f),
                2 => Reader::ask_with(move |e: &String| f(e.clone()), Id::new),
                _ => Reader::ask_with(|e: &String| e.clone(), move |a| Id::new(f(a))),
            }
        }
        "eff" => {
            let (cx, n) = (cx.clone(), p.a[0].clone());
            Reader::new(move |_| {
                cx.note(&n);
                n.clone()
            })
        }
        "fmap" => rd(&p.kids[0], vs, cx).fmap(pre(&p.a[0])),
        "local" => rd(&p.kids[0], vs, cx).local(pre(&p.a[0])),
        "bind" => {
            let (q, vs2, cx2) = (p.kids[1].clone(), vs.clone(), cx.clone());
            rd(&p.kids[0], vs, cx).bind(move |x| rd(&q, &with(&vs2, x), &cx2))
        }
        "comb" => {
            let g = p.a[0].clone();
            rd(&p.kids[0], vs, cx).combine(&rd(&p.kids[1], vs, cx), move |x: String, y: String| app2(&g, &x, &y))
        }
        "rec" => {
            let (g, q, k) = (p.a[0].clone(), rd(&p.kids[0], vs, cx), Knot::<Rd>::new(cx));
            let k2 = k.clone();
            let again: Rd = Reader::new(move |r: String| k2.enter(|x| x.run_reader(r.clone()), || ".".into()));
            let x: Rd = match cx.form(2) {
                0 => q.combine(&again, move |x: String, y: String| app2(&g, &x, &y)),
                _ => q.bind(move |x: String| { let g = g.clone(); again.fmap(move |y: String| app2(&g, &x, &y)) }),
            };
            let _ = k.x.set(x.clone());
            x
        }
        "share" => {
            let (g, q) = (p.a[0].clone(), rd(&p.kids[0], vs, cx));
            match cx.form(3) {
                0 => q.combine(&q, move |x: String, y: String| app2(&g, &x, &y)),
                1 => Reader::new(move |r: String| {
                    let x = q.run_reader(r.clone());
                    let y = q.run_reader(r);
                    app2(&g, &x, &y)
                }),
                _ => {
                    let q2 = q.clone();
                    q.bind(move |x: String| { let g = g.clone(); q2.fmap(move |y: String| app2(&g, &x, &y)) })
                }
            }
        }
        t => panic!("reader: {t}"),
    }
}

macro_rules! readert {
    ($name:ident, $m:ty, $pure:expr, $fail:expr, $special:expr) => {
        fn $name(p: &N, vs: &Vs, cx: &Cx) -> ReaderT<String, $m, String> {
            type T = ReaderT<String, $m, String>;
            let leaf = |x: String| -> T {
                match cx.form(3) {
                    0 => ReaderT::pure(x, $pure),
                    1 => <T as MonadTransformer>::lift($pure(x)),
                    _ => ReaderT::new(move |_| $pure(x.clone())),
                }
            };
            match p.tag.as_str() {
                "pure" => leaf(p.a[0].clone()),
                "var" => leaf(vs[p.n[0] - 1].clone()),
                "ask" => T::ask($pure),
                "asks" => {
                    let f = pre(&p.a[0]);
                    match cx.form(3) {
                        0 => T::asks(f, $pure),
                        1 => T::ask_with(move |e: &String| f(e.clone()), $pure),
                        _ => T::asks_with(|e: &String| e.clone(), f, $pure),
                    }
                }
                "eff" => {
                    let (cx, n) = (cx.clone(), p.a[0].clone());
                    ReaderT::new(move |_| {
                        cx.note(&n);
                        $pure(n.clone())
                    })
                }
                "fail" => {
                    let b: $m = ($fail)(&p.a[0]);
                    match cx.form(2) {
                        0 => <T as MonadTransformer>::lift(b),
                        _ => ReaderT::new(move |_| b.clone()),
                    }
                }
                "fmap" => {
                    let q = $name(&p.kids[0], vs, cx);
                    match cx.form(2) {
                        0 => q.fmap(pre(&p.a[0])),
                        _ => q.fmap_with(pre(&p.a[0]), |m: $m, f| m.map(f)),
                    }
                }
                "local" => $name(&p.kids[0], vs, cx).local(pre(&p.a[0])),
                "bind" => {
                    let (q, vs2, cx2) = (p.kids[1].clone(), vs.clone(), cx.clone());
                    let k = move |x: String| $name(&q, &with(&vs2, x), &cx2);
                    let l = $name(&p.kids[0], vs, cx);
                    match cx.form(2) {
                        0 => l.bind(k),
                        _ => l.bind_with(k, |m: $m, f| m.and_then(|x| f(x))),
                    }
                }
                "par" => {
                    let g = p.a[0].clone();
                    let (a, b) = ($name(&p.kids[0], vs, cx), $name(&p.kids[1], vs, cx));
                    let f = move |x: String, y: String| app2(&g, &x, &y);
                    match cx.form(4) {
                        0 => a.combine(&b, f),
                        1 => a.combine_with(&b, f, |m: $m, n: $m, f| m.and_then(|x| n.map(|y| f(&x, &y)))),
                        2 => {
                            let l = a.lift2(f, |m: $m, n: $m, f| m.and_then(|x| n.map(|y| f(x, y))));
                            l(&a, &b)
                        }
                        _ => {
                            // the function side only has to be of the same base type
                            let fun: ReaderT<String, $m, fn(String) -> String> = ReaderT::new(move |e| b.run_reader(e));
                            a.apply_with(&fun, move |m: $m, n: $m| m.and_then(|x| n.map(|y| f(x, y))))
                        }
                    }
                }
                "rec" => {
                    let (g, q, k) = (p.a[0].clone(), $name(&p.kids[0], vs, cx), Knot::<T>::new(cx));
                    let k2 = k.clone();
                    let again: T = ReaderT::new(move |r: String| k2.enter(|x| x.run_reader(r.clone()), || $pure(".".to_string())));
                    let x: T = q.bind(move |x: String| { let g = g.clone(); again.fmap(move |y: String| app2(&g, &x, &y)) });
                    let _ = k.x.set(x.clone());
                    x
                }
                "share" => {
                    let (g, q) = (p.a[0].clone(), $name(&p.kids[0], vs, cx));
                    let q2 = q.clone();
                    q.bind(move |x: String| { let g = g.clone(); q2.fmap(move |y: String| app2(&g, &x, &y)) })
                }
                t => ($special)(t, p, vs, cx),
            }
        }
    };
}
readert!(
    rdo,
    Option<String>,
    |x| -> Option<String> { Some(x) },
    |_: &str| -> Option<String> { None },
    |t: &str, _: &N, _: &Vs, _: &Cx| panic!("readerto: {t}")
);
readert!(
    rdr,
    Result<String, String>,
    |x| -> Result<String, String> { Ok(x) },
    |e: &str| -> Result<String, String> { Err(e.to_string()) },
    |t: &str, p: &N, vs: &Vs, cx: &Cx| match t {
        "mapfail" => rdr(&p.kids[0], vs, cx).map_error(pre(&p.a[0])),
        _ => panic!("readertr: {t}"),
    }
);

// ---------------------------------------------------------------- Writer
trait LogW: Monoid + Clone + Send + Sync + 'static + std::fmt::Debug {
    fn one(x: &str) -> Self;
    fn show(&self) -> Vec<String>;
}
impl LogW for Vec<String> {
    fn one(x: &str) -> Self {
        vec![x.to_string()]
    }
    fn show(&self) -> Vec<String> {
        self.clone()
    }
}
impl LogW for String {
    fn one(x: &str) -> Self {
        x.to_string()
    }
    fn show(&self) -> Vec<String> {
        self.chars().map(|c| c.to_string()).collect()
    }
}
fn wr<W: LogW>(p: &N, vs: &Vs, cx: &Cx) -> Writer<W, String> {
    type O = String;
    let leaf = |x: String| -> Writer<W, O> {
        match cx.form(4) {
            0 => Writer::pure_value(x),
            1 => <Writer<W, O> as Pure>::pure(&x),
            2 => <Writer<W, O> as Pure>::pure_owned(x),
            _ => Writer::new(W::empty(), x),
        }
    };
    match p.tag.as_str() {
        "pure" => leaf(p.a[0].clone()),
        "var" => leaf(vs[p.n[0] - 1].clone()),
        "tell" => {
            let t = Writer::<W, ()>::tell(W::one(&p.a[0]));
            match cx.form(3) {
                0 => t.fmap(|()| "u".to_string()),
                1 => t.replace(&"u".to_string()),
                _ => t.fmap_owned(|()| "u".to_string()),
            }
        }
        "eff" => Writer::new(W::one(&p.a[0]), p.a[0].clone()),
        "fmap" => {
            let f = pre(&p.a[0]);
            let q = wr::<W>(&p.kids[0], vs, cx);
            match cx.form(3) {
                0 => q.fmap(|x: &String| f(x.clone())),
                1 => q.fmap_owned(f),
                _ => {
                    let mut q = q;
                    for x in &mut q {
                        *x = f(std::mem::take(x));
                    }
                    q
                }
            }
        }
        "bind" => {
            let l = wr::<W>(&p.kids[0], vs, cx);
            let k = |x: String| wr::<W>(&p.kids[1], &with(vs, x), cx);
            match cx.form(6) {
                0 => l.bind(|x: &String| k(x.clone())),
                1 => l.bind_owned(k),
                2 => l.fmap(|x: &String| k(x.clone())).join(),
                3 => l.fmap_owned(k).join_owned(),
                4 => l.flat_map(|x: &String| k(x.clone())),
                _ => l.flat_map_owned(k),
            }
        }
        "ap" => {
            let v = wr::<W>(&p.kids[1], vs, cx);
            match cx.form(2) {
                0 => wr::<W>(&p.kids[0], vs, cx).fmap(|f: &String| { let f = pre(f); move |x: &String| f(x.clone()) }).apply(&v),
                _ => wr::<W>(&p.kids[0], vs, cx).fmap(|f: &String| pre(f)).apply_owned(v),
            }
        }
        "comb" => {
            let (a, b) = (wr::<W>(&p.kids[0], vs, cx), wr::<W>(&p.kids[1], vs, cx));
            let g = p.a[0].clone();
            match g.as_str() {
                "<" => match cx.form(2) {
                    0 => Writer::<W, O>::sequence_left::<O, O>(&a, &b),
                    _ => Writer::<W, O>::sequence_left_owned::<O, O>(a, b),
                },
                ">" => match cx.form(2) {
                    0 => Writer::<W, O>::sequence_right::<O, O>(&a, &b),
                    _ => Writer::<W, O>::sequence_right_owned::<O, O>(a, b),
                },
                "+" => match cx.form(2) {
                    0 => a.combine(&b),
                    _ => a.combine_owned(b),
                },
                _ => match cx.form(5) {
                    0 => Writer::<W, O>::lift2(|x: &O, y: &O| app2(&g, x, y), &a, &b),
                    1 => Writer::<W, O>::lift2_owned(|x: O, y: O| app2(&g, &x, &y), a, b),
                    2 => Writer::<W, O>::ap2(|x: &O, y: &O| app2(&g, x, y), &a, &b),
                    3 => {
                        let u: Writer<W, O> = Writer::pure_value(String::new());
                        if cx.form(2) == 0 {
                            Writer::<W, O>::lift3(|x: &O, _: &O, y: &O| app2(&g, x, y), &a, &u, &b)
                        } else {
                            Writer::<W, O>::lift3(|x: &O, y: &O, _: &O| app2(&g, x, y), &a, &b, &u)
                        }
                    }
                    _ => {
                        let u: Writer<W, O> = Writer::pure_value(String::new());
                        if cx.form(2) == 0 {
                            Writer::<W, O>::lift3_owned(|_: O, x: O, y: O| app2(&g, &x, &y), u, a, b)
                        } else {
                            Writer::<W, O>::lift3_owned(|x: O, y: O, _: O| app2(&g, &x, &y), a, b, u)
                        }
                    }
                },
            }
        }
        "share" => {
            let (g, q) = (p.a[0].clone(), wr::<W>(&p.kids[0], vs, cx));
            match cx.form(3) {
                0 => Writer::<W, O>::lift2(|x: &O, y: &O| app2(&g, x, y), &q, &q),
                1 => q.bind(|x: &String| q.fmap(|y: &String| app2(&g, x, y))),
                _ => Writer::<W, O>::lift2_owned(|x: O, y: O| app2(&g, &x, &y), q.clone(), q),
            }
        }
        t => panic!("writer: {t}"),
    }
}
fn run_writer<W: LogW>(p: &N, cx: &Cx) -> (String, Vec<String>) {
    let w = wr::<W>(p, &vec![], cx);
    let (log, v) = w.clone().run();
    assert_eq!(log.show(), w.clone().log().show(), "log() and run() disagree");
    assert_eq!(v, w.unwrap(), "unwrap() and run() disagree");
    assert_eq!(&v, w.value(), "value() and run() disagree");
    assert_eq!(v, w.clone().into_value(), "into_value() and run() disagree");
    assert_eq!(vec![v.clone()], w.clone().into_iter().collect::<Vec<_>>(), "iteration and run() disagree");
    assert_eq!(vec![&v], (&w).into_iter().collect::<Vec<_>>(), "borrowed iteration and run() disagree");
    (v, log.show())
}

// ---------------------------------------------------------------- IO
type Io = IO<String>;
fn msg(e: &ComposableError<IOError>) -> String {
    match e.core_error() {
        IOError::Other(m) => m.clone(),
        o => format!("?{o:?}"),
    }
}
fn io(p: &N, vs: &Vs, cx: &Cx) -> Io {
    let leaf = |x: String| match cx.form(8) {
        0..=4 => IO::pure(x),
        5 => IO::delay_sync(std::time::Duration::ZERO, x),
        _ => IO::new(move || x.clone()),
    };
    match p.tag.as_str() {
        "pure" => leaf(p.a[0].clone()),
        "var" => leaf(vs[p.n[0] - 1].clone()),
        "eff" => {
            let (cx, n) = (cx.clone(), p.a[0].clone());
            IO::new(move || {
                cx.note(&n);
                n.clone()
            })
        }
        "tick" => {
            let (cx, n) = (cx.clone(), p.a[0].clone());
            IO::new(move || {
                cx.note(&n);
                cx.world(|c| {
                    let now = format!("{n}{c}");
                    std::mem::replace(c, now)
                })
            })
        }
        "boom" => {
            let (cx, n) = (cx.clone(), p.a[0].clone());
            IO::new(move || {
                cx.note(&n);
                if n == "x" { panic!("x") } else { panic!("{}", n) }
            })
        }
        "fmap" => io(&p.kids[0], vs, cx).fmap(pre(&p.a[0])),
        "bind" => {
            let (q, vs2, cx2) = (p.kids[1].clone(), vs.clone(), cx.clone());
            io(&p.kids[0], vs, cx).bind(move |x| io(&q, &with(&vs2, x), &cx2))
        }
        "ap" => io(&p.kids[1], vs, cx).apply(io(&p.kids[0], vs, cx).fmap(|f| pre(&f))),
        "comb" => {
            let g = p.a[0].clone();
            IO::combine(&io(&p.kids[0], vs, cx), &io(&p.kids[1], vs, cx)).fmap(move |(x, y)| app2(&g, &x, &y))
        }
        "rec" => {
            let (g, q, k) = (p.a[0].clone(), io(&p.kids[0], vs, cx), Knot::<Io>::new(cx));
            let k2 = k.clone();
            let again: Io = IO::new(move || k2.enter(|x| x.run(), || ".".into()));
            let x: Io = match cx.form(4) {
                0 => IO::combine(&q, &again).fmap(move |(x, y)| app2(&g, &x, &y)),
                1 => again.apply(q.fmap(move |x: String| { let g = g.clone(); move |y: String| app2(&g, &x, &y) })),
                2 => IO::sequence(vec![q, again]).fmap(move |xs| app2(&g, &xs[0], &xs[1])),
                _ => q.bind(move |x: String| { let g = g.clone(); again.fmap(move |y: String| app2(&g, &x, &y)) }),
            };
            let _ = k.x.set(x.clone());
            x
        }
        "share" => {
            let (g, q) = (p.a[0].clone(), io(&p.kids[0], vs, cx));
            match cx.form(4) {
                0 => IO::combine(&q, &q).fmap(move |(x, y)| app2(&g, &x, &y)),
                1 => q.apply(q.fmap(move |x: String| { let g = g.clone(); move |y: String| app2(&g, &x, &y) })),
                2 => IO::sequence(vec![q.clone(), q]).fmap(move |xs| app2(&g, &xs[0], &xs[1])),
                _ => {
                    let q2 = q.clone();
                    q.bind(move |x: String| { let g = g.clone(); q2.fmap(move |y: String| app2(&g, &x, &y)) })
                }
            }
        }
        "seq" => IO::sequence(p.kids.iter().map(|q| io(q, vs, cx)).collect::<Vec<_>>()).fmap(|xs| joined("[", &xs)),
        "seqc" => {
            let ios: Vec<Io> = p.kids.iter().map(|q| io(q, vs, cx)).collect();
            IO::new(move || match IO::sequence_composable(ios.clone()) {
                Ok(xs) => joined("[", &xs),
                Err(es) => joined("E", &es.iter().map(|e| msg(e)).collect::<Vec<_>>()),
            })
        }
        "when" => {
            let (cx2, n, b) = (cx.clone(), p.a[0].clone(), p.a[1] == "t");
            let (x, y) = (io(&p.kids[0], vs, cx), io(&p.kids[1], vs, cx));
            IO::when(
                move || {
                    cx2.note(&n);
                    b
                },
                move || x.run(),
                move || y.run(),
            )
        }
        "catch" => {
            let (q, vs2, cx2) = (p.kids[1].clone(), vs.clone(), cx.clone());
            io(&p.kids[0], vs, cx).recover(move |e| io(&q, &with(&vs2, msg(&e)), &cx2))
        }
        "catchd" => io(&p.kids[0], vs, cx).recover_with(p.a[0].clone()),
        "try" => {
            let q = io(&p.kids[0], vs, cx);
            let k = cx.form(5);
            IO::new(move || {
                let r: Result<String, String> = match k {
                    0 => q.try_get().map_err(|e| msg(&e)),
                    1 => q.try_get_with_context("ctx").map_err(|e| {
                        assert_eq!(e.context(), vec!["ctx".to_string()]);
                        msg(&e)
                    }),
                    2 => q.try_get_composable().map_err(|e| msg(&e)),
                    3 => q.try_get_composable_with_context("ctx").map_err(|e| {
                        assert_eq!(e.context(), vec!["ctx".to_string()]);
                        msg(&e)
                    }),
                    _ => q.clone().into_error_pipeline().finish().map_err(|e| msg(e.core_error())),
                };
                match r {
                    Ok(x) => format!("o{x}"),
                    Err(e) => format!("e{e}"),
                }
            })
        }
        "same" => {
            let q = io(&p.kids[0], vs, cx);
            match cx.form(4) {
                0 => q.clone(),
                1 => q.bind(IO::pure),
                2 => q.fmap(|x| x),
                _ => IO::new(move || q.evaluate()),
            }
        }
        t => panic!("io: {t}"),
    }
}

// ---------------------------------------------------------------- running
/// One observed run: outcomes and log, plus anything the runners disagreed about.
fn ok3(s: &str, x: &str) -> J {
    json!(["ok", s, x])
}
struct Obs {
    res: Vec<J>,
    log: Vec<String>,
}
fn ctxs<E>(e: &ComposableError<E>, want: &[&str]) {
    assert_eq!(e.context(), want.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "contexts of a run");
}

/// The program is built once and run from each of the starting states and environments in turn.
fn observe(kind: &str, p: &N, runs: &[(String, String)], cx: &Cx) -> Vec<Obs> {
    let each = |f: &(dyn Fn(String, String) -> Obs + Sync)| {
        let one = runs.iter().map(|(s0, r0)| f(s0.clone(), r0.clone())).collect::<Vec<_>>();
        if runs.len() > 1 && cx.form(8) == 0 {
            // and all of them at the same time
            cx.par.store(true, Ordering::SeqCst);
            let go = Barrier::new(runs.len());
            std::thread::scope(|sc| {
                let hs: Vec<_> = runs.iter().map(|(s0, r0)| {
                    let go = &go;
                    sc.spawn(move || {
                        go.wait();
                        f(s0.clone(), r0.clone())
                    })
                }).collect();
                for (i, h) in hs.into_iter().enumerate() {
                    match h.join() {
                        Err(e) => std::panic::resume_unwind(e),
                        Ok(o) => {
                            assert_eq!(json!(o.res), json!(one[i].res), "outcome of one of several runs at the same time");
                            assert_eq!(o.log, one[i].log, "effects of one of several runs at the same time");
                        }
                    }
                }
            });
        }
        one
    };
    let vs = vec![];
    let lazy = |cx: &Cx| {
        let log = cx.take();
        assert!(log.is_empty(), "effects performed while building: {log:?}");
    };
    match kind {
        "state" => {
            let q = st(p, &vs, cx);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let (v, s) = q.run_state(s0.clone());
            let log = cx.take();
            assert_eq!(v, q.eval_state(s0.clone()), "eval_state");
            assert_eq!(log, cx.take(), "effects of eval_state");
            assert_eq!(s, q.exec_state(s0.clone()), "exec_state");
            assert_eq!(log, cx.take(), "effects of exec_state");
            assert_eq!(s, q.exec_pure(s0.clone()), "exec_pure");
            cx.take();
            for good in [true, false] {
                let t = q.clone().fmap(move |x| if good { Ok::<String, String>(x) } else { Err(x) });
                let (r, s2) = t.try_run_state(s0.clone());
                let (rc, s3) = t.try_run_state_with_context(s0.clone(), "c");
                let rs = [
                    (r, None),
                    (rc, Some("c")),
                    (t.try_eval_state(s0.clone()), None),
                    (t.try_eval_state_with_context(s0.clone(), "c"), Some("c")),
                ];
                assert!(s2 == s && s3 == s, "final state of try_run_state");
                for (r, c) in rs {
                    match r {
                        Ok(x) => assert!(good && x == v, "try_run_state value"),
                        Err(e) => {
                            assert!(!good && *e.core_error() == v, "try_run_state error");
                            ctxs(&e, c.as_slice());
                        }
                    }
                }
                for (r, c) in [(t.try_exec_state(s0.clone()), None), (t.try_exec_state_with_context(s0.clone(), "c"), Some("c"))] {
                    match r {
                        Ok(x) => assert!(good && x == s, "try_exec_state state"),
                        Err(e) => {
                            assert!(!good && *e.core_error() == v, "try_exec_state error");
                            ctxs(&e, c.as_slice());
                        }
                    }
                }
            }
            cx.take();
            Obs { res: vec![ok3(&s, &v)], log }
            })
        }
        "statetO" => {
            let q = sto(p, &vs, cx, true);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let r = q.run_state(s0.clone());
            let log = cx.take();
            assert_eq!(r.clone().map(|x| x.0), q.exec_state(s0.clone(), |m| m.map(|x| x.0)), "exec_state");
            assert_eq!(log, cx.take(), "effects of a second run");
            Obs { res: vec![r.map(|(s, x)| ok3(&s, &x)).unwrap_or(json!(["fail", "e"]))], log }
            })
        }
        "statetR" => {
            let q = str_(p, &vs, cx, true);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let r = q.run_state(s0.clone());
            let log = cx.take();
            assert_eq!(r, q.try_run_state(s0.clone()).map_err(|e| { ctxs(&e, &[]); e.core_error().clone() }), "try_run_state");
            assert_eq!(log, cx.take(), "effects of try_run_state");
            assert_eq!(r, q.try_run_state_with_context(s0.clone(), "c").map_err(|e| { ctxs(&e, &["c"]); e.core_error().clone() }), "try_run_state_with_context");
            assert_eq!(r.clone().map(|x| x.1), q.try_eval_state(s0.clone()).map_err(|e| { ctxs(&e, &[]); e.core_error().clone() }), "try_eval_state");
            assert_eq!(r.clone().map(|x| x.1), q.try_eval_state_with_context(s0.clone(), "c").map_err(|e| { ctxs(&e, &["c"]); e.core_error().clone() }), "try_eval_state_with_context");
            assert_eq!(r.clone().map(|x| x.0), q.try_exec_state(s0.clone()).map_err(|e| { ctxs(&e, &[]); e.core_error().clone() }), "try_exec_state");
            assert_eq!(r, q.clone().exec_state(s0, |m| m), "exec_state");
            cx.take();
            Obs { res: vec![r.map(|(s, x)| ok3(&s, &x)).unwrap_or_else(|e| json!(["fail", e]))], log }
            })
        }
        "statetL" => {
            let q = stl(p, &vs, cx, true);
            each(&|s0: String, r0: String| {
            let r = q.run_state(s0.clone());
            assert_eq!(r, q.run_state(s0), "second run");
            Obs { res: r.iter().map(|(s, x)| ok3(s, x)).collect(), log: vec![] }
            })
        }
        "statetI" => {
            let q = sti(p, &vs, cx, true);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let (s, x) = q.run_state(s0.clone()).into_inner();
            let log = cx.take();
            assert_eq!((x.clone(), s.clone()), q.clone().to_state().run_state(s0), "to_state");
            assert_eq!(log, cx.take(), "effects after to_state");
            Obs { res: vec![ok3(&s, &x)], log }
            })
        }
        "reader" => {
            let q = rd(p, &vs, cx);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let v = q.run_reader(r0.clone());
            let log = cx.take();
            assert_eq!(v, q.clone().run_reader(r0), "second run");
            assert_eq!(log, cx.take(), "effects of a second run");
            Obs { res: vec![ok3(&s0, &v)], log }
            })
        }
        "readertO" => {
            let q = rdo(p, &vs, cx);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let v = q.run_reader(r0.clone());
            let log = cx.take();
            assert_eq!(v, q.clone().unwrap_with(r0), "unwrap_with");
            assert_eq!(log, cx.take(), "effects of a second run");
            Obs { res: vec![v.map(|x| ok3(&s0, &x)).unwrap_or(json!(["fail", "e"]))], log }
            })
        }
        "readertR" => {
            let q = rdr(p, &vs, cx);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let v = q.run_reader(r0.clone());
            let log = cx.take();
            assert_eq!(v, q.try_run_reader(r0.clone()).map_err(|e| { ctxs(&e, &[]); e.core_error().clone() }), "try_run_reader");
            assert_eq!(log, cx.take(), "effects of a second run");
            assert_eq!(v, q.try_run_reader_with_context(r0, "c").map_err(|e| { ctxs(&e, &["c"]); e.core_error().clone() }), "try_run_reader_with_context");
            cx.take();
            Obs { res: vec![v.map(|x| ok3(&s0, &x)).unwrap_or_else(|e| json!(["fail", e]))], log }
            })
        }
        "writer" => {
            each(&|s0: String, r0: String| {
            let (v, log) = if cx.form(2) == 0 { run_writer::<Vec<String>>(p, cx) } else { run_writer::<String>(p, cx) };
            Obs { res: vec![ok3(&s0, &v)], log }
            })
        }
        "io" | "iofail" => {
            let q = io(p, &vs, cx);
            lazy(cx);
            each(&|s0: String, r0: String| {
            let set = || cx.world(|c| *c = s0.clone());
            set();
            let r = q.try_get();
            let s1 = cx.world(|c| c.clone());
            let log = cx.take();
            let r = r.map_err(|e| msg(&e));
            // run it again, plainly
            set();
            match guard(|| q.run()) {
                Ok(v) => assert_eq!(r, Ok(v), "run"),
                Err(e) => assert_eq!(r, Err(e), "run panics"),
            }
            assert_eq!(log, cx.take(), "effects of a second run");
            if r.is_ok() && cx.who().is_none() && cx.form(8) == 0 {
                set();
                let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                assert_eq!(r, Ok(rt.block_on(q.run_async())), "run_async");
                assert_eq!(log, cx.take(), "effects of run_async");
            }
            if kind == "io" && p.tag == "pure" {
                assert!(q.is_pure() != q.is_effect(), "is_pure");
            }
            Obs { res: vec![r.map(|x| ok3(&s1, &x)).unwrap_or_else(|e| json!(["fail", e]))], log }
            })
        }
        k => panic!("kind {k}"),
    }
}

// ---------------------------------------------------------------- random programs
fn gen_prog(kind: &str, fuel: usize, v: usize, r: &mut Rng) -> J {
    let leaf = |r: &mut Rng| -> J {
        let mut o: Vec<J> = vec![json!(["pure", *r.pick(&["a", "b"])])];
        if v > 0 {
            let i = 1 + r.below(v);
            o.push(json!(["var", i]));
            o.push(json!(["var", v]));
        }
        let tick = kind.starts_with("io") && r.chance(1, 2);
        let e = json!([if tick { "tick" } else { "eff" }, r.pick(&["1", "2", "3"])]);
        match kind {
            "state" => {
                o.extend([json!(["get"]), json!(["put", "b"]), json!(["modify", "m"]), json!(["gets", "g"]), e]);
                if v > 0 {
                    o.push(json!(["putv", 1 + r.below(v)]));
                }
            }
            "statetO" => o.extend([json!(["get"]), json!(["swap", "b"]), json!(["modify", "m"]), e, json!(["setst", "t", "x"])]),
            "statetR" | "statetI" => o.extend([json!(["get"]), json!(["swap", "b"]), json!(["modify", "m"]), e, json!(["setst", "t", "x"])]),
            "statetL" => o.extend([json!(["get"]), json!(["swap", "b"]), json!(["modify", "m"]), json!(["setst", "t", "x"])]),
            "reader" | "readertO" | "readertR" => o.extend([json!(["ask"]), json!(["ask"]), json!(["asks", "g"]), e]),
            "writer" => o.extend([json!(["tell", r.pick(&["1", "2"])]), e]),
            _ => o.extend([e.clone(), e]),
        }
        if r.chance(1, 12) {
            match kind {
                "statetO" | "readertO" => return json!(["fail", "e"]),
                "statetR" | "readertR" => return json!(["fail", *r.pick(&["e", "f"])]),
                "statetL" => return json!(["fail", "empty"]),
                _ => {}
            }
        }
        if kind == "iofail" && r.chance(1, 4) {
            return json!(["boom", *r.pick(&["x", "y"])]);
        }
        r.pick(&o).clone()
    };
    if fuel <= 1 {
        return leaf(r);
    }
    let un: &[&str] = match kind {
        "state" | "statetI" => &["fmap", "same"],
        "statetR" => &["fmap", "mapfail"],
        "reader" | "readertO" => &["fmap", "local", "local"],
        "readertR" => &["fmap", "local", "local", "mapfail"],
        "io" => &["fmap", "same", "seq1"],
        "iofail" => &["fmap", "catchd", "try"],
        _ => &["fmap"],
    };
    let bi: &[&str] = match kind {
        "state" => &["bind", "bind", "ap", "ifv"],
        "statetO" | "statetR" | "statetI" => &["bind", "bind", "par", "join"],
        "statetL" => &["bind", "bind", "amb", "par"],
        "reader" => &["bind", "bind", "comb"],
        "readertO" | "readertR" => &["bind", "bind", "par"],
        "writer" => &["bind", "bind", "ap", "comb"],
        "io" => &["bind", "bind", "ap", "comb", "seq", "when"],
        _ => &["bind", "bind", "ap", "comb", "seq", "seqc", "catch", "catch"],
    };
    if fuel == 2 || r.chance(1, 4) {
        let k = gen_prog(kind, fuel - 1, v, r);
        // the program under these is run several times
        if fuel <= (if kind == "statetL" { 3 } else { 8 }) && r.chance(1, 6) {
            return json!([if kind != "writer" && kind != "statetL" && r.chance(1, 2) { "rec" } else { "share" }, "g", k]);
        }
        return match *r.pick(un) {
            "fmap" => json!(["fmap", "f", k]),
            "same" => json!(["same", k]),
            "mapfail" => json!(["mapfail", "h", k]),
            "local" => json!(["local", *r.pick(&["l", "k"]), k]),
            "seq1" => json!(["seq", [k]]),
            "catchd" => json!(["catchd", k, "d"]),
            _ => json!(["try", k]),
        };
    }
    let b = *r.pick(bi);
    if (b == "seq" || b == "seqc") && fuel >= 4 {
        // sometimes long, and then of short programs
        let n = if r.chance(1, 10) { 30 + r.below(60) } else if r.chance(1, 3) { 5 + r.below(8) } else { 2 + r.below(3) };
        let ks: Vec<J> = (0..n).map(|_| gen_prog(kind, ((fuel - 1) / n).max(1), v, r)).collect();
        return json!([b, ks]);
    }
    let i = 1 + r.below(fuel - 2);
    let bound = matches!(b, "bind" | "join" | "catch");
    let p = gen_prog(kind, i, v, r);
    let q = gen_prog(kind, fuel - 1 - i, if bound { v + 1 } else { v }, r);
    match b {
        "ifv" if v > 0 => json!(["ifv", 1 + r.below(v), *r.pick(&["s", "a", "b"]), p, q]),
        "ifv" => json!(["ap", p, q]),
        "par" => json!(["par", "g", p, q]),
        "comb" if kind == "writer" => json!(["comb", *r.pick(&["g", "g", "<", ">", "+"]), p, q]),
        "comb" => json!(["comb", "g", p, q]),
        "when" => json!(["when", "w", *r.pick(&["t", "f"]), p, q]),
        "seq" | "seqc" => json!([b, [p, q]]),
        _ => json!([b, p, q]),
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let fl = a.num("flavours", 2);
            for c in cases(a.str("cases")) {
                rep.cases += 1;
                let kind = s(&c["m"]).to_string();
                let p = parse(&c["p"]);
                let runs: Vec<(String, String)> = arr(&c["runs"]).iter().map(|x| (s(&x["s"]).to_string(), s(&x["r"]).to_string())).collect();
                let want: Vec<J> = arr(&c["runs"]).iter().map(|x| json!({"res": x["res"], "log": x["log"]})).collect();
                for f in 0..fl {
                    let cx = Cx::new(rep.cases.wrapping_mul(1000) + f);
                    match guard(|| observe(&kind, &p, &runs, &cx)) {
                        Err(e) => rep.mismatch(&kind, &c, "the run", json!(want), json!(e)),
                        Ok(o) => {
                            let got: Vec<J> = o.iter().map(|o| json!({"res": o.res, "log": o.log})).collect();
                            if !rep.check(&kind, &c, "outcome and effects", &json!(want), &json!(got)) {
                                break;
                            }
                        }
                    }
                }
            }
            rep.finish();
        }
        "record" => {
            let mut out = TraceOut::new(a.str("trace"));
            let kinds: Vec<String> = a.str("kinds").split(',').map(String::from).collect();
            let mut r = Rng::new(a.num("seed", 1) ^ 77);
            let (n, size) = (a.num("n", 50), a.num("size", 30) as usize);
            for i in 0..n {
                for kind in &kinds {
                    let fuel = 3 + r.below(size);
                    let pj = gen_prog(kind, fuel, 0, &mut r);
                    let p = parse(&pj);
                    let cx = Cx::new(i * 31 + 5);
                    let runs: Vec<(String, String)> =
                        (0..if r.chance(1, 20) { 4 + r.below(9) } else { 1 + r.below(3) }).map(|i| (["s", "t", "sb"][i % 3].to_string(), ["r", "q", ""][i % 3].to_string())).collect();
                    let mut evs = vec![];
                    match guard(|| observe(kind, &p, &runs, &cx)) {
                        Ok(os) => {
                            for ((s0, r0), o) in runs.iter().zip(os) {
                                evs.push(match evs.is_empty() {
                                    true => json!({"op": "start", "p": pj, "s": s0, "r": r0}),
                                    false => json!({"op": "again", "s": s0, "r": r0}),
                                });
                                evs.extend(o.log.iter().map(|e| json!({"op": "log", "n": e})));
                                evs.push(json!({"op": "end", "res": o.res}));
                            }
                        }
                        Err(e) => {
                            evs.push(json!({"op": "start", "p": pj, "s": runs[0].0, "r": runs[0].1}));
                            evs.push(json!({"op": "crash", "what": e}));
                        }
                    }
                    out.events += evs.len() as u64;
                    out.line(&json!({"meta": kind, "evs": evs}));
                }
            }
            out.finish();
        }
        x => panic!("mode {x}"),
    }
}
