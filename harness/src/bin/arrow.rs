//! Morphisms of the category of functions, built in every way the library offers
//! and run (spec/Arrow.tla).
#![allow(deprecated)]
use rustica::category::function_category::{FunctionCategory as FC, FunctionMorphism, compose, function, pipe};
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::utils::categorical_utils as cat;
use rustica::utils::functions;
use std::sync::Arc;
use vk::journey::{called, calls, forget_calls};
use vk::*;

#[derive(Clone)]
enum D {
    S(String),
    P(Box<(D, D)>),
}
impl D {
    fn pair(self) -> (D, D) {
        match self {
            D::P(p) => *p,
            D::S(_) => panic!("harness: not a pair"),
        }
    }
    fn of((a, b): (D, D)) -> D {
        D::P(Box::new((a, b)))
    }
    fn show(&self) -> String {
        match self {
            D::S(x) => x.clone(),
            D::P(p) => format!("({},{})", p.0.show(), p.1.show()),
        }
    }
    fn json(&self) -> J {
        match self {
            D::S(x) => json!(["s", x]),
            D::P(p) => json!(["p", p.0.json(), p.1.json()]),
        }
    }
    fn parse(v: &J) -> D {
        match s(&v[0]) {
            "s" => D::S(s(&v[1]).into()),
            _ => D::of((D::parse(&v[1]), D::parse(&v[2]))),
        }
    }
}
type M = FunctionMorphism<D, D>;
type M2 = FunctionMorphism<(D, D), (D, D)>;

/// An arrow of the caller's own that keeps the trait's provided operations.
struct Mine;
impl Category for Mine {
    type Morphism<A, B> = FunctionMorphism<A, B>;
    fn identity_morphism<A>() -> FunctionMorphism<A, A> {
        Arc::new(|x| x)
    }
    fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &FunctionMorphism<B, C>, f: &FunctionMorphism<A, B>) -> FunctionMorphism<A, C> {
        let (g, f) = (g.clone(), f.clone());
        Arc::new(move |x| g(f(x)))
    }
}
impl Arrow for Mine {
    fn arrow<B, C, F: Fn(B) -> C + 'static>(f: F) -> FunctionMorphism<B, C> {
        Arc::new(f)
    }
    fn first<B: 'static, C: 'static, E: 'static>(f: &FunctionMorphism<B, C>) -> FunctionMorphism<(B, E), (C, E)> {
        let f = f.clone();
        Arc::new(move |(b, d)| (f(b), d))
    }
    fn second<B: 'static, C: 'static, E: 'static>(f: &FunctionMorphism<B, C>) -> FunctionMorphism<(E, B), (E, C)> {
        let f = f.clone();
        Arc::new(move |(d, b)| (d, f(b)))
    }
    fn combine_morphisms<B: 'static, C: 'static, E: 'static, G: 'static>(
        f: &FunctionMorphism<B, C>, g: &FunctionMorphism<E, G>,
    ) -> FunctionMorphism<(B, E), (C, G)> {
        let (f, g) = (f.clone(), g.clone());
        Arc::new(move |(b, d)| {
            let c = f(b);
            (c, g(d))
        })
    }
}

fn on_pairs(m: M2) -> M {
    FC::arrow(move |d: D| D::of(m(d.pair())))
}
fn run(m: &M) -> impl Fn(D) -> D + Clone + 'static + use<> {
    let m = m.clone();
    move |d| m(d)
}
fn pred(p: &J) -> impl Fn(&D) -> bool + 'static + use<> {
    let p = s(p).to_string();
    move |d| {
        called(format!("p{p}:{}", d.show()));
        match p.as_str() {
            "yes" => true,
            "no" => false,
            "isx" => matches!(d, D::S(x) if x == "x"),
            _ => matches!(d, D::P(_)),
        }
    }
}
fn swap(d: D) -> D {
    let (a, b) = d.pair();
    D::of((b, a))
}

fn build(e: &J, r: &mut Rng) -> M {
    let sub = |i: usize, r: &mut Rng| build(&e[i], r);
    match s(&e[0]) {
        "id" => match r.below(5) {
            0 => FC::identity_morphism(),
            1 => FC::arrow(|x| x),
            2 => FC::arrow(functions::id),
            3 => FC::arrow(|d: D| identity_nat::<Option<D>>().transform(&Some(d)).unwrap()),
            _ => FC::arrow(|d: D| identity_nat::<Vec<D>>().transform_owned(vec![d]).pop().unwrap()),
        },
        "fn" => {
            let f = s(&e[1]).to_string();
            let go = move |d: D| {
                called(format!("f{f}:{}", d.show()));
                D::S(format!("{f}({})", d.show()))
            };
            match r.below(4) {
                0 => FC::arrow(go),
                1 => FC::lift(go),
                2 => {
                    function!(named: D => D = go);
                    named
                },
                _ => pipe!(go),
            }
        },
        "const" => {
            let k = D::S(s(&e[1]).into());
            if r.below(2) == 0 { FC::arrow(functions::const_fn(k)) } else { FC::lift(functions::const_fn::<D, D>(k)) }
        },
        k @ ("bin" | "flip") => {
            let f = s(&e[1]).to_string();
            let go = move |a: D, b: D| {
                let x = D::of((a, b)).show();
                called(format!("b{f}:{x}"));
                D::S(format!("{f}({x})"))
            };
            if k == "bin" {
                if r.below(2) == 0 {
                    FC::arrow(move |d: D| {
                        let (a, b) = d.pair();
                        go(a, b)
                    })
                } else {
                    let twice = cat::flip(cat::flip(go));
                    FC::arrow(move |d: D| {
                        let (a, b) = d.pair();
                        twice(a, b)
                    })
                }
            } else {
                let flipped = cat::flip(go);
                FC::arrow(move |d: D| {
                    let (a, b) = d.pair();
                    flipped(a, b)
                })
            }
        },
        "swap" => FC::arrow(swap),
        "seq" => {
            let (f, g) = (sub(1, r), sub(2, r));
            match r.below(7) {
                0 | 1 => FC::compose_morphisms(&g, &f),
                2 => FC::arrow(cat::compose(run(&g), run(&f))),
                3 => FC::arrow(cat::pipe(run(&f), run(&g))),
                4 => compose!(run(&g), run(&f)),
                5 => pipe!(run(&f), run(&g),),
                _ => FC::then_if(&f, &g, |_| true),
            }
        },
        "first" => {
            let f = sub(1, r);
            match r.below(3) {
                0 | 1 => on_pairs(FC::first(&f)),
                _ => on_pairs(FC::combine_morphisms(&f, &FC::identity_morphism())),
            }
        },
        "second" => {
            let f = sub(1, r);
            match r.below(3) {
                0 | 1 => on_pairs(FC::second(&f)),
                _ => on_pairs(FC::combine_morphisms(&FC::identity_morphism(), &f)),
            }
        },
        "par" => {
            let (f, g) = (sub(1, r), sub(2, r));
            match r.below(3) {
                0 | 1 => on_pairs(FC::combine_morphisms(&f, &g)),
                _ => on_pairs(FC::compose_morphisms(&FC::second(&g), &FC::first(&f))),
            }
        },
        "split" => {
            let (f, g) = (sub(1, r), sub(2, r));
            let m: FunctionMorphism<D, (D, D)> = match r.below(3) {
                0 | 1 => FC::split(&f, &g),
                _ => Mine::split(&f, &g),
            };
            FC::compose_morphisms(&FC::arrow(D::of), &m)
        },
        "both" => {
            let f = sub(1, r);
            match r.below(3) {
                0 | 1 => on_pairs(FC::both(run(&f))),
                _ => on_pairs(FC::combine_morphisms(&f, &f)),
            }
        },
        "when" => {
            let f = sub(2, r);
            match r.below(4) {
                0 | 1 => FC::when(pred(&e[1]), run(&f)),
                2 => FC::then_if(&FC::identity_morphism(), &f, pred(&e[1])),
                _ => FC::compose_when(&FC::identity_morphism(), &f, pred(&e[1])),
            }
        },
        "thenif" => {
            let (f, g) = (sub(2, r), sub(3, r));
            match r.below(4) {
                0 | 1 => FC::then_if(&f, &g, pred(&e[1])),
                2 => FC::compose_when(&f, &g, pred(&e[1])),
                _ => FC::compose_morphisms(&FC::when(pred(&e[1]), run(&g)), &f),
            }
        },
        "many" => {
            let fs: Vec<M> = arr(&e[1]).iter().map(|e| build(e, r)).collect();
            match (r.below(3), fs.as_slice()) {
                (1, [f]) => compose!(run(f)),
                (2, [f]) => pipe!(run(f)),
                (1, [f, g]) => compose!(run(g), run(f),),
                (2, [f, g]) => pipe!(run(f), run(g)),
                (1, [f, g, h]) => compose!(run(h), run(g), run(f)),
                (2, [f, g, h]) => pipe!(run(f), run(g), run(h)),
                (1, [f, g, h, i]) => compose!(run(i), run(h), run(g), run(f),),
                (2, [f, g, h, i]) => pipe!(run(f), run(g), run(h), run(i),),
                _ => FC::sequence(fs.iter().map(run).collect()),
            }
        },
        k => panic!("{k}"),
    }
}
fn observe(m: &M, d: &D) -> (J, Vec<String>) {
    forget_calls();
    let r = guard(|| m(d.clone())).map_or(json!(["panic"]), |d| d.json());
    (r, calls())
}

// ---- random programs: shapes as data (an atom is ["s"])
fn shape(d: &D) -> D {
    match d {
        D::S(_) => D::S(String::new()),
        D::P(p) => D::of((shape(&p.0), shape(&p.1))),
    }
}
fn same(a: &D, b: &D) -> bool {
    a.show() == b.show()
}
/// An expression from shape `t` and the shape it leads to.
fn random(t: &D, fuel: usize, r: &mut Rng) -> (J, D) {
    let atom = || D::S(String::new());
    let f = *r.pick(&["f", "g", "h"]);
    let p = *r.pick(&["yes", "no", "isx", "pair"]);
    let half = 1 + r.below(fuel.max(1));
    let rest = fuel.saturating_sub(half);
    if fuel < 2 {
        return match (r.below(5), t) {
            (0, _) => (json!(["id"]), t.clone()),
            (1, _) => (json!(["const", f]), atom()),
            (2, D::P(_)) => (json!(["bin", f]), atom()),
            (3, D::P(_)) => (json!(["flip", f]), atom()),
            (4, D::P(p)) => (json!(["swap"]), D::of((p.1.clone(), p.0.clone()))),
            _ => (json!(["fn", f]), atom()),
        };
    }
    // an expression that stays at shape t
    let stay = |fuel: usize, r: &mut Rng| {
        for _ in 0..6 {
            let (e, u) = random(t, fuel, r);
            if same(&u, t) {
                return e;
            }
        }
        json!(["id"])
    };
    match (r.below(10), t) {
        (0, _) => (json!(["when", p, stay(fuel - 1, r)]), t.clone()),
        (1, _) => (json!(["thenif", p, stay(half - 1, r), stay(rest, r)]), t.clone()),
        (2, _) => {
            let n = if r.chance(1, 4) { r.below(24) } else { r.below(5) };
            (json!(["many", (0..n).map(|_| stay(fuel / 4, r)).collect::<Vec<_>>()]), t.clone())
        },
        (3, _) if t.show().len() < 20 => {
            let ((e, u), (g, v)) = (random(t, half - 1, r), random(t, rest, r));
            (json!(["split", e, g]), D::of((u, v)))
        },
        (4, D::P(q)) => {
            let (e, u) = random(&q.0, fuel - 1, r);
            (json!(["first", e]), D::of((u, q.1.clone())))
        },
        (5, D::P(q)) => {
            let (e, u) = random(&q.1, fuel - 1, r);
            (json!(["second", e]), D::of((q.0.clone(), u)))
        },
        (6, D::P(q)) => {
            let ((e, u), (g, v)) = (random(&q.0, half - 1, r), random(&q.1, rest, r));
            (json!(["par", e, g]), D::of((u, v)))
        },
        (7, D::P(q)) if same(&q.0, &q.1) => {
            let (e, u) = random(&q.0, fuel - 1, r);
            (json!(["both", e]), D::of((u.clone(), u)))
        },
        _ => {
            let (e, u) = random(t, half - 1, r);
            let (g, v) = random(&u, rest, r);
            (json!(["seq", e, g]), v)
        },
    }
}
fn datum(depth: usize, r: &mut Rng) -> D {
    if depth == 0 || r.chance(1, 3) { D::S((*r.pick(&["x", "y", "z"])).into()) } else { D::of((datum(depth - 1, r), datum(depth - 1, r))) }
}
/// A datum of the same shape with other atoms.
fn redo(d: &D, r: &mut Rng) -> D {
    match d {
        D::S(_) => D::S((*r.pick(&["x", "y", "z"])).into()),
        D::P(p) => D::of((redo(&p.0, r), redo(&p.1, r))),
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            for c in cases(a.str("cases")) {
                rep.cases += 1;
                let key = s(&c["p"][0]).to_string();
                for fl in 0..a.num("flavours", 2) {
                    forget_calls();
                    let m = build(&c["p"], &mut Rng::new(rep.cases * 64 + fl));
                    rep.check(&key, &c, "calls while composing", &json!([]), &json!(calls()));
                    // a morphism is a function: it answers the same every time, and so do its copies
                    for (m, run) in [&m, &m.clone(), &m].into_iter().flat_map(|m| arr(&c["runs"]).iter().map(move |r| (m, r))) {
                        let (r, log) = observe(m, &D::parse(&run["s"]));
                        rep.check(&key, &c, "result", &run["d"], &r);
                        rep.check(&key, &c, "calls", &run["c"], &json!(log));
                    }
                }
            }
            rep.finish();
        },
        _ => {
            let mut out = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1) ^ 57);
            for _ in 0..a.num("n", 100) {
                let d = datum(3, &mut r);
                let fuel = 2 + r.below(a.num("size", 30) as usize);
                // now and then a long chain, with constants in it to keep the texts short
                let e = if r.chance(1, 25) {
                    let n = 30 + r.below(120);
                    let link = |i: usize, r: &mut Rng| if i % 9 == 0 { json!(["const", "k"]) } else { json!(["fn", *r.pick(&["f", "g", "h"])]) };
                    json!(["many", (0..n).map(|i| link(i, &mut r)).collect::<Vec<_>>()])
                } else {
                    random(&shape(&d), fuel, &mut r).0
                };
                let m = build(&e, &mut r);
                let mut evs = Vec::new();
                for _ in 0..3 {
                    let d = redo(&d, &mut r);
                    let (got, log) = observe(&m, &d);
                    if got.to_string().len() + log.iter().map(String::len).sum::<usize>() > 9000 {
                        break;
                    }
                    evs.push(json!({"op": "start", "p": e, "s": d.json()}));
                    evs.extend(log.iter().map(|x| json!({"op": "call", "n": x})));
                    evs.push(json!({"op": "end", "d": got}));
                }
                out.events += evs.len() as u64;
                out.line(&json!({"meta": "arrow", "evs": evs}));
            }
            out.finish();
        },
    }
}
