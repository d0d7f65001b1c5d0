//! Continuation programs (spec/Cont.tla) on Cont, ContT over Id and ContT over Option.
use rustica::datatypes::cont::Cont;
use rustica::datatypes::id::Id;
use rustica::traits::identity::Identity;
use rustica::transformers::MonadTransformer;
use rustica::transformers::cont_t::ContT;
use std::sync::{Arc, Mutex};
use vk::*;

#[derive(Debug)]
struct Node {
    tag: String,
    a: Vec<String>,
    n: usize,
    kids: Vec<&'static Node>,
}
type N = &'static Node;
/// Programs live for ever: call_cc wants a Copy closure.
fn parse(j: &J) -> N {
    let xs = arr(j);
    let mut nd = Node { tag: s(&xs[0]).into(), a: vec![], n: 0, kids: vec![] };
    for x in &xs[1..] {
        match x {
            J::String(t) => nd.a.push(t.clone()),
            J::Number(_) => nd.n = us(x),
            _ => nd.kids.push(parse(x)),
        }
    }
    Box::leak(Box::new(nd))
}

#[derive(Clone)]
struct Cx {
    log: Arc<Mutex<Vec<String>>>,
    seed: u64,
    n: Arc<Mutex<u64>>,
}
impl Cx {
    fn note(&self, e: &str) {
        self.log.lock().unwrap().push(e.into())
    }
    fn form(&self, k: usize) -> usize {
        let mut n = self.n.lock().unwrap();
        *n += 1;
        Rng::new(self.seed.wrapping_add(*n * 104729)).below(k)
    }
}

type Vs = Vec<String>;
fn with<T: Clone>(vs: &[T], x: T) -> Vec<T> {
    let mut v = vs.to_vec();
    v.push(x);
    v
}
fn pre(f: &str) -> impl Fn(String) -> String + Clone + Send + Sync + 'static + use<> {
    let f = f.to_string();
    move |x| format!("{f}{x}")
}

/// The answers of a base: wrapping, joining, none.
trait Base: Clone + Send + Sync + 'static {
    fn some(x: String) -> Self;
    fn none() -> Self;
    fn out(self) -> String;
    fn wrap(self, w: &str) -> Self;
    fn cat(self, o: Self) -> Self;
}
impl Base for Id<String> {
    fn some(x: String) -> Self {
        Id::new(x)
    }
    fn none() -> Self {
        unreachable!()
    }
    fn out(self) -> String {
        self.into_inner()
    }
    fn wrap(self, w: &str) -> Self {
        Id::new(format!("{w}{}", self.into_inner()))
    }
    fn cat(self, o: Self) -> Self {
        Id::new(self.into_inner() + &o.into_inner())
    }
}
impl Base for Option<String> {
    fn some(x: String) -> Self {
        Some(x)
    }
    fn none() -> Self {
        None
    }
    fn out(self) -> String {
        self.unwrap_or("!".into())
    }
    fn wrap(self, w: &str) -> Self {
        self.map(|x| format!("{w}{x}"))
    }
    fn cat(self, o: Self) -> Self {
        Some(self? + &o?)
    }
}

type T<B> = ContT<String, B, String>;
type Esc<B> = Arc<dyn Fn(String) -> T<B> + Send + Sync>;

/// What differs between the bases: conversions and lifting.
trait Kind: Base {
    fn same(t: T<Self>, cx: &Cx) -> T<Self>;
    fn lift(b: Self) -> T<Self>;
}
impl Kind for Id<String> {
    fn same(t: T<Self>, cx: &Cx) -> T<Self> {
        match cx.form(3) {
            0 => ContT::from_cont(t.to_cont()),
            1 => ContT::from_cont(Cont::from(t)),
            _ => t.to_cont().clone().inner,
        }
    }
    fn lift(b: Self) -> T<Self> {
        <T<Self> as MonadTransformer>::lift(b)
    }
}
impl Kind for Option<String> {
    fn same(t: T<Self>, _: &Cx) -> T<Self> {
        t.clone()
    }
    fn lift(b: Self) -> T<Self> {
        <T<Self> as MonadTransformer>::lift(b)
    }
}

fn tr<B: Kind>(p: N, vs: &Vs, ks: &Vec<Esc<B>>, cx: &Cx) -> T<B> {
    let go = |q: N| tr::<B>(q, vs, ks, cx);
    match p.tag.as_str() {
        "pure" => ContT::pure(p.a[0].clone()),
        "var" => ContT::pure(vs[p.n - 1].clone()),
        "eff" => {
            let c2 = cx.clone();
            match cx.form(3) {
                0 => ContT::new(move |k| {
                    c2.note(&p.a[0]);
                    k(p.a[0].clone())
                }),
                1 => ContT::pure(p.a[0].clone()).fmap(move |x| {
                    c2.note(&x);
                    x
                }),
                _ => ContT::pure(p.a[0].clone()).bind(move |x: String| {
                    c2.note(&x);
                    ContT::pure(x)
                }),
            }
        }
        "fmap" => go(p.kids[0]).fmap(pre(&p.a[0])),
        "bind" => {
            let (vs, ks, cx) = (vs.clone(), ks.clone(), cx.clone());
            tr::<B>(p.kids[0], &vs.clone(), &ks.clone(), &cx.clone())
                .bind(move |x| tr::<B>(p.kids[1], &with(&vs, x), &ks, &cx))
        }
        "ap" => go(p.kids[1]).apply(
            go(p.kids[0]).fmap(|n: String| Arc::new(pre(&n)) as Arc<dyn Fn(String) -> String + Send + Sync>),
        ),
        "cc" => {
            let (vs, ks, cx) = (vs.clone(), ks.clone(), cx.clone());
            ContT::call_cc(move |e: Arc<dyn Fn(String) -> T<B> + Send + Sync>| {
                tr::<B>(p.kids[0], &vs, &with(&ks, e), &cx)
            })
        }
        "esc" => {
            let e = ks[p.n - 1].clone();
            go(p.kids[0]).bind(move |x| e(x))
        }
        "wrap" => {
            let q = go(p.kids[0]);
            ContT::new(move |k| {
                let k = k.clone();
                q.run(move |x| k(x)).wrap(&p.a[0])
            })
        }
        "twice" => {
            let (a, b) = (go(p.kids[0]), go(p.kids[1]));
            ContT::new(move |k| {
                let (k1, k2) = (k.clone(), k.clone());
                let r = a.run(move |x| k1(x));
                r.cat(b.run(move |x| k2(x)))
            })
        }
        "abort" => {
            let b = if p.a[0] == "!" { B::none() } else { B::some(p.a[0].clone()) };
            match cx.form(2) {
                0 => B::lift(b),
                _ => ContT::new(move |_| b.clone()),
            }
        }
        "same" => B::same(go(p.kids[0]), cx),
        t => panic!("{t}"),
    }
}

// ---------------------------------------------------------------- Cont itself
type C = Cont<String, String>;
type CEsc = Arc<dyn Fn(String) -> C + Send + Sync>;
fn ct(p: N, vs: &Vs, ks: &Vec<CEsc>, cx: &Cx) -> C {
    let go = |q: N| ct(q, vs, ks, cx);
    match p.tag.as_str() {
        "pure" | "var" => {
            let x = if p.tag == "pure" { p.a[0].clone() } else { vs[p.n - 1].clone() };
            match cx.form(3) {
                0 => Cont::pure(x),
                1 => Cont::return_cont(x),
                _ => Cont::new(move |k| k(x.clone())),
            }
        }
        "eff" => {
            let c2 = cx.clone();
            match cx.form(3) {
                0 => Cont::new(move |k| {
                    c2.note(&p.a[0]);
                    k(p.a[0].clone())
                }),
                1 => Cont::pure(p.a[0].clone()).fmap(move |x| {
                    c2.note(&x);
                    x
                }),
                _ => Cont::pure(p.a[0].clone()).bind(move |x: String| {
                    c2.note(&x);
                    Cont::pure(x)
                }),
            }
        }
        "fmap" => go(p.kids[0]).fmap(pre(&p.a[0])),
        "bind" => {
            let (vs2, ks2, cx2) = (vs.clone(), ks.clone(), cx.clone());
            go(p.kids[0]).bind(move |x| ct(p.kids[1], &with(&vs2, x), &ks2, &cx2))
        }
        "ap" => go(p.kids[1]).apply(
            go(p.kids[0]).fmap(|n: String| Arc::new(pre(&n)) as Arc<dyn Fn(String) -> String + Send + Sync>),
        ),
        "cc" => {
            // call_cc takes a Copy closure
            let st: &'static (Vs, Vec<CEsc>, Cx) = Box::leak(Box::new((vs.clone(), ks.clone(), cx.clone())));
            Cont::<String, String>::pure("carrier".into())
                .call_cc(move |e: Box<dyn Fn(String) -> C + Send + Sync>| {
                    let e: CEsc = Arc::from(e);
                    ct(p.kids[0], &st.0, &with(&st.1, e), &st.2)
                })
        }
        "esc" => {
            let e = ks[p.n - 1].clone();
            go(p.kids[0]).bind(move |x| e(x))
        }
        "wrap" => {
            let q = go(p.kids[0]);
            Cont::new(move |k| {
                let k = k.clone();
                format!("{}{}", p.a[0], q.run(move |x| k(x)))
            })
        }
        "twice" => {
            let (a, b) = (go(p.kids[0]), go(p.kids[1]));
            Cont::new(move |k| {
                let (k1, k2) = (k.clone(), k.clone());
                let r = a.run(move |x| k1(x));
                r + &b.run(move |x| k2(x))
            })
        }
        "abort" => Cont::new(move |_| p.a[0].clone()),
        "same" => match cx.form(3) {
            0 => Cont::from(ContT::from_cont(go(p.kids[0]))),
            1 => ContT::from_cont(go(p.kids[0])).to_cont(),
            _ => go(p.kids[0]).clone(),
        },
        t => panic!("{t}"),
    }
}

fn last(f: &str, x: &str) -> String {
    if f == "k" { format!("<{x}>") } else { format!("({x})({x})") }
}
/// Builds the program once and runs it with every final continuation in turn.
fn observe(kind: &str, p: N, cx: &Cx, fins: &[String]) -> Vec<(String, String, Vec<String>)> {
    fn fin<B: Kind>(p: N, cx: &Cx) -> Box<dyn Fn(&str) -> String> {
        let t = tr::<B>(p, &vec![], &vec![], cx);
        let cx = cx.clone();
        Box::new(move |f| {
            let (c2, f) = (cx.clone(), f.to_string());
            let run = move |x: String| {
                c2.note(&format!("{f}{x}"));
                if f == "n" { B::none() } else { B::some(last(&f, &x)) }
            };
            (if cx.form(2) == 0 { t.run(run) } else { t.clone().run(run) }).out()
        })
    }
    let go: Box<dyn Fn(&str) -> String> = match kind {
        "contI" => fin::<Id<String>>(p, cx),
        "contO" => fin::<Option<String>>(p, cx),
        _ => {
            let t = ct(p, &vec![], &vec![], cx);
            let cx = cx.clone();
            Box::new(move |f| {
                let (c2, f) = (cx.clone(), f.to_string());
                let run = move |x: String| {
                    c2.note(&format!("{f}{x}"));
                    last(&f, &x)
                };
                if cx.form(2) == 0 { t.run(run) } else { t.clone().run(run) }
            })
        }
    };
    fins.iter().map(|f| (f.clone(), go(f), std::mem::take(&mut *cx.log.lock().unwrap()))).collect()
}
fn new_cx(seed: u64) -> Cx {
    Cx { log: Default::default(), seed, n: Default::default() }
}

fn gen_prog(r: &mut Rng, fuel: usize, v: usize, j: usize, kind: &str, twice: &mut usize) -> J {
    if fuel <= 1 {
        return match r.below(12) {
            0..4 => json!(["eff", r.pick(&["1", "2", "3"])]),
            4..8 if v > 0 => json!(["var", 1 + r.below(v)]),
            11 if kind == "contO" => json!(["abort", "!"]),
            10 => json!(["abort", "z"]),
            _ => json!(["pure", "a"]),
        };
    }
    if fuel == 2 || r.chance(2, 5) {
        return match r.below(7) {
            0 => json!(["fmap", "f", gen_prog(r, fuel - 1, v, j, kind, twice)]),
            1 | 2 => json!(["cc", gen_prog(r, fuel - 1, v, j + 1, kind, twice)]),
            3 => json!(["wrap", "w", gen_prog(r, fuel - 1, v, j, kind, twice)]),
            4 => json!(["same", gen_prog(r, fuel - 1, v, j, kind, twice)]),
            _ if j > 0 => json!(["esc", 1 + r.below(j), gen_prog(r, fuel - 1, v, j, kind, twice)]),
            _ => json!(["fmap", "h", gen_prog(r, fuel - 1, v, j, kind, twice)]),
        };
    }
    let i = 1 + r.below(fuel - 2);
    match r.below(6) {
        0 => {
            let a = gen_prog(r, i, v, j, kind, twice);
            json!(["ap", a, gen_prog(r, fuel - 1 - i, v, j, kind, twice)])
        }
        1 if *twice < 3 => {
            *twice += 1;
            let a = gen_prog(r, i, v, j, kind, twice);
            json!(["twice", a, gen_prog(r, fuel - 1 - i, v, j, kind, twice)])
        }
        _ => {
            let a = gen_prog(r, i, v, j, kind, twice);
            json!(["bind", a, gen_prog(r, fuel - 1 - i, v + 1, j, kind, twice)])
        }
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let fl = a.num("flavours", 2);
            for c in cases(a.str("cases")) {
                rep.cases += 1;
                let kind = s(&c["m"]).to_string();
                let p = parse(&c["p"]);
                for f in 0..fl {
                    let want = &c["runs"];
                    let fins: Vec<String> = arr(want).iter().map(|r| s(&r["k"]).to_string()).collect();
                    let cx = new_cx(rep.cases.wrapping_mul(1000) + f);
                    match guard(|| observe(&kind, p, &cx, &fins)) {
                        Err(e) => rep.mismatch(&kind, &c, "the run", want.clone(), json!(e)),
                        Ok(rs) => {
                            let got: Vec<J> = rs.iter().map(|(k, ans, log)| json!({"k": k, "ans": ans, "log": log})).collect();
                            if !rep.check(&kind, &c, "answers and effects", want, &json!(got)) {
                                break;
                            }
                        }
                    }
                }
            }
            rep.finish();
        }
        _ => {
            let mut out = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1) ^ 91);
            for i in 0..a.num("n", 100) {
                for kind in ["cont", "contI", "contO"] {
                    let fuel = 3 + r.below(a.num("size", 30) as usize);
                    let pj = gen_prog(&mut r, fuel, 0, 0, kind, &mut 0);
                    let cx = new_cx(i * 31 + 7);
                    let fins: Vec<String> = (0..if r.chance(1, 20) { 4 + r.below(9) } else { 1 + r.below(3) })
                        .map(|_| r.pick(if kind == "contO" { &["k", "j", "n"] } else { &["k", "j", "k"] }).to_string())
                        .collect();
                    let mut evs = vec![];
                    match guard(|| observe(kind, parse(&pj), &cx, &fins)) {
                        Ok(rs) => {
                            for (i, (k, ans, log)) in rs.iter().enumerate() {
                                evs.push(if i == 0 { json!({"op": "start", "p": pj, "k": k}) } else { json!({"op": "again", "k": k}) });
                                evs.extend(log.iter().map(|e| json!({"op": "log", "n": e})));
                                evs.push(json!({"op": "end", "ans": ans}));
                            }
                        }
                        Err(e) => evs.extend([json!({"op": "start", "p": pj, "k": fins[0]}), json!({"op": "crash", "what": e})]),
                    }
                    out.events += evs.len() as u64;
                    out.line(&json!({"meta": kind, "evs": evs}));
                }
            }
            out.finish();
        }
    }
}
