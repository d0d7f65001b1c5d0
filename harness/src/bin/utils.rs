//! The utility functions (spec/Utils.tla).
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::traits::functor::Functor;
use rustica::utils::categorical_utils as cat;
use rustica::utils::error_utils as eru;
use rustica::utils::functions;
use rustica::utils::hkt_utils as hkt;
use rustica::utils::transform_utils::{Pipeline, transform_all, transform_chain};
use std::cell::RefCell;
use vk::journey::*;
use vk::*;

type S = String;
type R = Result<S, S>;
#[derive(Clone)]
enum Items {
    Option(Vec<Option<S>>),
    Result(Vec<R>),
    Either(Vec<Either<S, S>>),
    Maybe(Vec<Maybe<S>>),
    Validated(Vec<Validated<S, S>>),
}
#[derive(Clone)]
enum V {
    List(Vec<S>),
    Items(Items),
    AllOption(Option<Vec<S>>),
    AllResult(Result<Vec<S>, S>),
    AllValidated(Validated<S, Vec<S>>),
    One(Items),
    Val(S),
}
fn read(i: &Items) -> (&'static str, Vec<J>) {
    let ok = |x: &S| json!(["ok", x]);
    let err = |x: &S| json!(["err", x]);
    let none = || json!(["err", ""]);
    match i {
        Items::Option(v) => ("option", v.iter().map(|x| x.as_ref().map_or_else(none, ok)).collect()),
        Items::Result(v) => ("result", v.iter().map(|x| x.as_ref().map_or_else(err, ok)).collect()),
        Items::Either(v) => ("either", v.iter().map(|x| match x {
            Either::Right(x) => ok(x),
            Either::Left(x) => err(x),
        }).collect()),
        Items::Maybe(v) => ("maybe", v.iter().map(|x| match x {
            Maybe::Just(x) => ok(x),
            Maybe::Nothing => none(),
        }).collect()),
        Items::Validated(v) => ("validated", v.iter().map(|x| match x {
            Validated::Valid(x) => ok(x),
            Validated::Invalid(es) => list("err", es.iter().cloned()),
        }).collect()),
    }
}
fn write(carrier: &str, rs: Vec<R>) -> Items {
    match carrier {
        "option" => Items::Option(rs.into_iter().map(|r| r.ok()).collect()),
        "result" => Items::Result(rs),
        "either" => Items::Either(rs.into_iter().map(|r| r.map_or_else(Either::left, Either::right)).collect()),
        "maybe" => Items::Maybe(rs.into_iter().map(|r| r.map_or(Maybe::Nothing, Maybe::Just)).collect()),
        "validated" => Items::Validated(rs.into_iter().map(|r| r.map_or_else(Validated::invalid, Validated::valid)).collect()),
        k => panic!("{k}"),
    }
}
fn res(v: &J) -> R {
    if v[0] == "ok" { Ok(st(&v[1])) } else { Err(st(&v[1])) }
}
fn holds(p: &str, x: &str) -> bool {
    match p {
        "isA" => x == "a",
        "notA" => x != "a",
        "all" => true,
        "none" => false,
        _ => panic!("{p}"),
    }
}
/// The symbolic function, silent.
fn ap(f: &str, x: &str) -> S {
    format!("{f}({x})")
}
fn step(k: &J) -> impl Fn(S) -> R + Clone + use<> {
    let (p, f) = (st(&k[0]), st(&k[1]));
    move |x| {
        called(&x);
        if holds(&p, &x) { Err(ap(&f, &x)) } else { Ok(ap(&f, &x)) }
    }
}
fn fun2(f: &J) -> impl Fn(S, S) -> S + use<> {
    let f = st(f);
    move |x, y| {
        called(format!("{x},{y}"));
        format!("{f}({x},{y})")
    }
}
/// Runs `g` and puts the pulls of its sources in front of the calls, predicates in front of functions.
fn sorted<T>(g: impl FnOnce() -> T) -> T {
    let r = guard(g);
    let rank = |x: &S| if x.starts_with('<') { 0 } else if x.starts_with('?') { 1 } else { 2 };
    let mut c = calls();
    c.sort_by_key(rank);
    c.into_iter().for_each(called);
    match r {
        Ok(x) => x,
        Err(e) => panic!("{e}"),
    }
}
/// A source that notices being read, and knows nothing of its length.
fn source<T>(xs: Vec<T>, name: impl Fn(&T) -> S) -> impl Iterator<Item = T> {
    let mut it = xs.into_iter();
    std::iter::from_fn(move || {
        let x = it.next()?;
        called(format!("<{}", name(&x)));
        Some(x)
    })
}
/// The same, with an exact length.
fn sized<T>(xs: Vec<T>, name: impl Fn(&T) -> S) -> impl Iterator<Item = T> {
    xs.into_iter().inspect(move |x| called(format!("<{}", name(x))))
}
fn monoid(w: &str, it: impl Iterator<Item = S>) -> V {
    V::Val(match w {
        "string" => cat::fold_with::<_, S, S>(it),
        "id" => cat::fold_with::<_, S, Id<S>>(it).into_inner(),
        "first" => cat::fold_with::<_, S, First<S>>(it).0.map_or("none".into(), |x| format!("some {x}")),
        "last" => cat::fold_with::<_, S, Last<S>>(it).0.map_or("none".into(), |x| format!("some {x}")),
        _ => panic!("{w}"),
    })
}
/// Functions that can be copied.
fn copyable(f: &J) -> impl Fn(&S) -> S + Copy + use<> {
    let f = match s(f) {
        "f" => "f",
        "g" => "g",
        "h" => "h",
        f => panic!("{f}"),
    };
    move |x| {
        called(x);
        ap(f, x)
    }
}
macro_rules! with_items {
    ($i:expr, $v:ident => $e:expr) => {
        match $i {
            Items::Option($v) => Items::Option($e),
            Items::Result($v) => Items::Result($e),
            Items::Either($v) => Items::Either($e),
            Items::Maybe($v) => Items::Maybe($e),
            Items::Validated($v) => Items::Validated($e),
        }
    };
}
/// The pipeline over a functor: each function by reference or by value.
fn piped<T: Functor<Source = S, Output<S> = T>>(v: T, fs: &[J], owned: impl Fn(usize) -> bool) -> Pipeline<T> {
    let mut p = Pipeline::new(v);
    for (i, f) in fs.iter().enumerate() {
        let f = app(f);
        p = if owned(i) { p.map_owned(|x: S| f(x)) } else { p.map(|x: &S| f(x.clone())) };
    }
    p
}

struct Utils;
impl Journey for Utils {
    type V = V;
    fn make(v: &J) -> V {
        let body = &arr(v)[1..];
        let strings = |xs: &[J]| xs.iter().map(st).collect::<Vec<_>>();
        match s(&v[0]) {
            "list" => V::List(strings(body)),
            "items" => V::Items(write(s(&v[1]), body[1..].iter().map(res).collect())),
            "one" => V::One(write(s(&v[1]), vec![res(&json!([v[2], v[3]]))])),
            "val" => V::Val(st(&v[1])),
            "all" => {
                let (good, xs) = (v[2] == "ok", strings(&body[2..]));
                match s(&v[1]) {
                    "option" => V::AllOption(good.then_some(xs)),
                    "result" => V::AllResult(if good { Ok(xs) } else { Err(xs[0].clone()) }),
                    _ => V::AllValidated(if good { Validated::valid(xs) } else { Validated::invalid_many(xs) }),
                }
            },
            k => panic!("{k}"),
        }
    }
    fn show(v: &V) -> J {
        let all = |c: &str, side: &str, xs: &[S]| list("all", [c.to_string(), side.to_string()].into_iter().chain(xs.iter().cloned()));
        match v {
            V::List(xs) => list("list", xs.clone()),
            V::Items(i) => {
                let (c, xs) = read(i);
                [json!("items"), json!(c)].into_iter().chain(xs).collect()
            },
            V::One(i) => {
                let (c, xs) = read(i);
                json!(["one", c, xs[0][0], xs[0][1]])
            },
            V::AllOption(None) => all("option", "err", &[S::new()]),
            V::AllOption(Some(xs)) => all("option", "ok", xs),
            V::AllResult(Ok(xs)) => all("result", "ok", xs),
            V::AllResult(Err(e)) => all("result", "err", std::slice::from_ref(e)),
            V::AllValidated(Validated::Valid(xs)) => all("validated", "ok", xs),
            V::AllValidated(Validated::Invalid(es)) => all("validated", "err", es),
            V::Val(x) => json!(["val", x]),
        }
    }
    fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form<V>> {
        let mut out = O(Vec::new());
        let o = &mut out;
        let x = || st(&a[0]);
        let name = |x: &S| x.clone();
        match v {
            V::List(xs) => {
                let c = || xs.clone();
                match op {
                    "traverse" => {
                        let k = step(&a[0]);
                        o.to("traverse", || V::AllResult(eru::traverse(c(), &k)));
                        o.to("traverse an iterator", || V::AllResult(eru::traverse(xs.iter().map(|x| x.as_str()), |x| k(x.to_string()))));
                        o.to("traverse with a counter", || {
                            let mut n = 0;
                            let r = eru::traverse(c(), |x| {
                                n += 1;
                                k(x)
                            });
                            assert!(n <= xs.len());
                            V::AllResult(r)
                        });
                    },
                    "traverse_lazy" => {
                        let k = step(&a[0]);
                        o.to("traverse", || sorted(|| V::AllResult(eru::traverse(source(c(), name), &k))));
                        o.to("traverse sized", || sorted(|| V::AllResult(eru::traverse(sized(c(), name), &k))));
                    },
                    "traverse_validated" => {
                        let k = step(&a[0]);
                        o.to("traverse_validated", || V::AllValidated(eru::traverse_validated(c(), &k)));
                    },
                    "traverse_validated_lazy" => {
                        let k = step(&a[0]);
                        o.to("traverse_validated", || sorted(|| V::AllValidated(eru::traverse_validated(source(c(), name), &k))));
                        o.to("traverse_validated sized", || sorted(|| V::AllValidated(eru::traverse_validated(sized(c(), name), &k))));
                    },
                    "filter_map" | "filter_map_lazy" => {
                        let p = x();
                        let p = |x: &S| {
                            called(format!("?{x}"));
                            holds(&p, x)
                        };
                        let f = app(&a[1]);
                        if op == "filter_map" {
                            o.to("filter_map", || sorted(|| V::List(hkt::filter_map(c(), p, &f))));
                        } else {
                            o.to("filter_map", || sorted(|| V::List(hkt::filter_map(source(c(), name), p, &f))));
                            o.to("filter_map sized", || sorted(|| V::List(hkt::filter_map(sized(c(), name), p, &f))));
                        }
                    },
                    "filter_map_collect" => {
                        let k = step(&a[0]);
                        o.to("filter_map_collect", || V::List(cat::filter_map_collect(c(), |x| k(x).ok())));
                    },
                    "filter_map_collect_lazy" => {
                        let k = step(&a[0]);
                        o.to("filter_map_collect", || sorted(|| V::List(cat::filter_map_collect(source(c(), name), |x| k(x).ok()))));
                        o.to("filter_map_collect sized", || sorted(|| V::List(cat::filter_map_collect(sized(c(), name), |x| k(x).ok()))));
                    },
                    "zip_with" => o.to("zip_with", || V::List(hkt::zip_with(c(), strs(&a[0]), fun2(&a[1])))),
                    "zip_rev" => o.to("zip_with", || V::List(hkt::zip_with(strs(&a[0]), c(), fun2(&a[1])))),
                    "fold" => {
                        o.to("fold_with", || monoid(s(&a[0]), c().into_iter()));
                    },
                    "fold_lazy" => {
                        o.to("fold_with", || monoid(s(&a[0]), source(c(), name)));
                        o.to("fold_with sized", || monoid(s(&a[0]), sized(c(), name)));
                    },
                    "pipe" => {
                        let fs = arr(&a[0]);
                        o.to("map", || V::List(piped(c(), fs, |_| false).extract()));
                        o.to("map_owned", || V::List(piped(c(), fs, |_| true).into_iter().collect()));
                        o.to("both", || V::List(piped(c(), fs, |i| i % 2 == 1).clone().extract()));
                    },
                    "items" => o.to("by hand", || {
                        let k = step(&a[1]);
                        let i = write(s(&a[0]), c().into_iter().map(k).collect());
                        forget_calls();
                        V::Items(i)
                    }),
                    _ => {},
                }
            },
            V::Items(i) => match op {
                "sequence" => match i {
                    Items::Option(v) => o.to("sequence_options", || V::AllOption(cat::sequence_options(v.clone()))),
                    Items::Result(v) => {
                        o.to("sequence_results", || V::AllResult(cat::sequence_results(v.clone())));
                        o.to("sequence", || V::AllResult(eru::sequence(v.clone())));
                        o.to("traverse with identity", || V::AllResult(eru::traverse(v.clone(), functions::id)));
                    },
                    _ => {},
                },
                "sequence_with_error" => o.to("sequence_with_error", || {
                    V::AllResult(match i.clone() {
                        Items::Result(v) => eru::sequence_with_error(v),
                        Items::Either(v) => eru::sequence_with_error(v),
                        Items::Validated(v) => eru::sequence_with_error(v),
                        _ => panic!(),
                    })
                }),
                "transform_all" => {
                    let f = copyable(&a[0]);
                    o.to("transform_all", || V::Items(with_items!(i, v => transform_all(v, f))));
                },
                "read" => o.to("by hand", || V::List(read(i).1.iter().map(|r| st(&r[1])).collect())),
                _ => {},
            },
            V::AllOption(_) | V::AllResult(_) | V::AllValidated(_) => {
                if op == "open" {
                    o.to("by hand", || V::List(strs(&Self::show(v))[3..].to_vec()));
                }
            },
            V::One(i) => match op {
                "open" => o.to("by hand", || V::Val(st(&Self::show(v)[3]))),
                "transform_chain" => {
                    let f = app(&a[0]);
                    o.to("transform_chain", || V::One(with_items!(i, v => vec![transform_chain(Some(v[0].clone()), |x: &S| f(x.clone())).unwrap()])));
                    o.to("transform_chain on nothing", || {
                        let nothing = match i {
                            Items::Option(_) => transform_chain(None::<Option<S>>, |x: &S| f(x.clone())).is_none(),
                            _ => transform_chain(None::<R>, |x: &S| f(x.clone())).is_none(),
                        };
                        assert!(nothing);
                        V::One(with_items!(i, v => vec![transform_chain(v.first().cloned(), |x: &S| f(x.clone())).unwrap()]))
                    });
                },
                "pipe" => {
                    let fs = arr(&a[0]);
                    o.to("map", || V::One(with_items!(i, v => vec![piped(v[0].clone(), fs, |_| false).extract()])));
                    o.to("map_owned", || V::One(with_items!(i, v => vec![piped(v[0].clone(), fs, |_| true).extract()])));
                    o.to("both", || V::One(with_items!(i, v => vec![piped(v[0].clone(), fs, |i| i % 2 == 0).extract()])));
                },
                "map" => match i {
                    Items::Option(v) => {
                        o.to("map_option", || V::One(Items::Option(vec![cat::map_option(v[0].clone(), app(&a[0]))])));
                        o.to("lift_option", || {
                            let f = hkt::lift_option(app(&a[0]));
                            let r = f(v[0].clone());
                            let c = calls();
                            assert_eq!(f(None), None);
                            assert_eq!(f(v[0].clone()), r);
                            forget_calls();
                            c.into_iter().for_each(called);
                            V::One(Items::Option(vec![r]))
                        });
                    },
                    Items::Result(v) => {
                        o.to("categorical map_result", || V::One(Items::Result(vec![cat::map_result(v[0].clone(), app(&a[0]))])));
                        o.to("map_result", || V::One(Items::Result(vec![hkt::map_result(v[0].clone(), app(&a[0]))])));
                        o.to("bimap_result", || V::One(Items::Result(vec![cat::bimap_result(v[0].clone(), app(&a[0]), functions::id)])));
                    },
                    _ => {},
                },
                "flat_map" => match i {
                    Items::Option(v) => {
                        let k = step(&a[0]);
                        o.to("flat_map_option", || V::One(Items::Option(vec![cat::flat_map_option(v[0].clone(), |x| k(x).ok())])));
                    },
                    Items::Result(v) => o.to("flat_map_result", || V::One(Items::Result(vec![cat::flat_map_result(v[0].clone(), step(&a[0]))]))),
                    _ => {},
                },
                "bimap" => {
                    if let Items::Result(v) = i {
                        o.to("bimap_result", || V::One(Items::Result(vec![cat::bimap_result(v[0].clone(), app(&a[0]), app(&a[1]))])));
                    }
                },
                _ => {},
            },
            V::Val(t) => {
                let steps = || arr(&a[0]).iter().map(step).collect::<Vec<_>>();
                match op {
                    "pipeline_option" => {
                        let ops = || steps().into_iter().map(|k| move |x: S| k(x).ok()).collect::<Vec<_>>();
                        o.to("pipeline_option", || V::One(Items::Option(vec![hkt::pipeline_option(t.clone(), ops())])));
                        o.to("pipeline_option from another type", || V::One(Items::Option(vec![hkt::pipeline_option(t.as_str(), ops())])));
                    },
                    "pipeline_option_lazy" => o.to("pipeline_option", || {
                        sorted(|| {
                            let ops = source(arr(&a[0]).clone(), |k| st(&k[1])).map(|k| {
                                let k = step(&k);
                                move |x: S| k(x).ok()
                            });
                            V::One(Items::Option(vec![hkt::pipeline_option(t.clone(), ops)]))
                        })
                    }),
                    "pipeline_result" => {
                        o.to("pipeline_result", || V::One(Items::Result(vec![hkt::pipeline_result(t.clone(), steps())])));
                        o.to("pipeline_result from another type", || V::One(Items::Result(vec![hkt::pipeline_result(t.as_str(), steps())])));
                        o.to("try_pipeline", || V::One(Items::Result(vec![hkt::try_pipeline(t.clone(), steps())])));
                    },
                    "fan_out" => {
                        o.to("fan_out", || V::List(hkt::fan_out(t.clone(), arr(&a[0]).iter().map(app).collect())));
                    },
                    "compose_all" => o.to("compose_all", || {
                        let fs: Vec<Box<dyn Fn(S) -> S>> = arr(&a[0]).iter().map(|f| Box::new(app(f)) as Box<dyn Fn(S) -> S>).collect();
                        let f = hkt::compose_all::<S, S>(fs);
                        let once = f(t.clone());
                        let c = calls();
                        assert_eq!(f(t.clone()), once);
                        forget_calls();
                        c.into_iter().for_each(called);
                        V::Val(once)
                    }),
                    "const" => {
                        let f = functions::const_fn(t.clone());
                        o.see("const_fn", || json!(["val", f(x())]));
                        o.see("const_fn again", || {
                            f(S::new());
                            json!(["val", f(x())])
                        });
                    },
                    "id" => o.to("id", || V::Val(functions::id(t.clone()))),
                    "flip" => o.to("flip", || V::Val(cat::flip(fun2(&a[1]))(x(), t.clone()))),
                    "repeat" => o.to("by hand", || V::List((1..=us(&a[0])).map(|i| format!("{t}{i}")).collect())),
                    "one" => o.to("by hand", || {
                        let r = step(&a[1])(t.clone());
                        forget_calls();
                        V::One(write(s(&a[0]), vec![r]))
                    }),
                    _ => {},
                }
            },
        }
        out.0
    }
    fn ops(_: &str) -> Vec<(&'static str, &'static str)> {
        unreachable!()
    }
    fn ops_of(v: &J) -> Vec<(&'static str, &'static str)> {
        let c = v[1].as_str().unwrap_or("");
        let mut o = vec![];
        match s(&v[0]) {
            "list" => o.extend([
                ("traverse", "k"), ("traverse_lazy", "k"), ("traverse_validated", "k"), ("traverse_validated_lazy", "k"), ("filter_map", "pf"),
                ("filter_map_lazy", "pf"), ("filter_map_collect", "k"), ("filter_map_collect_lazy", "k"), ("zip_with", "lf"), ("zip_rev", "lf"),
                ("fold", "w"), ("fold_lazy", "w"), ("pipe", "F"), ("items", "ck"), ("items", "ck"), ("items", "ck"),
            ]),
            "items" => {
                o.extend([("transform_all", "f"), ("read", "")]);
                if ["result", "either", "validated"].contains(&c) {
                    o.push(("sequence_with_error", ""));
                }
                if ["result", "option"].contains(&c) {
                    o.extend([("sequence", ""); 3]);
                }
            },
            "all" => o.push(("open", "")),
            "one" => {
                o.extend([("open", ""), ("transform_chain", "f"), ("pipe", "F")]);
                if ["result", "option"].contains(&c) {
                    o.extend([("map", "f"), ("flat_map", "k")]);
                }
                if c == "result" {
                    o.push(("bimap", "ff"));
                }
            },
            _ => o.extend([
                ("pipeline_option", "S"), ("pipeline_option_lazy", "S"), ("pipeline_result", "S"), ("fan_out", "F"), ("compose_all", "F"), ("const", "x"),
                ("id", ""), ("flip", "xf"), ("repeat", "n"), ("repeat", "n"), ("repeat", "n"), ("repeat", "n"), ("one", "ck"),
            ]),
        }
        o
    }
    fn arg(sort: char, op: &str, r: &mut Rng) -> J {
        match sort {
            'f' => json!(*r.pick(&["f", "g", "h"])),
            'p' => json!(*r.pick(&["isA", "notA", "all", "none"])),
            'k' => json!([*r.pick(&["isA", "isA", "notA", "none", "none"]), *r.pick(&["f", "g"])]),
            'c' => json!(*r.pick(&["option", "option", "result", "result", "either", "maybe", "validated"])),
            'w' => json!(*r.pick(&["string", "id", "first", "last"])),
            'n' => json!(if r.chance(1, 4) { 30 + r.below(60) } else { r.size(14) }),
            'l' => (0..r.size(14)).map(|_| Self::arg('x', op, r)).collect(),
            'F' => (0..r.size(5)).map(|_| Self::arg('f', op, r)).collect(),
            'S' => {
                let n = r.size(7);
                let bad = r.below(10.max(n + n / 2));
                (0..n).map(|i| if i == bad { json!(["all", "h"]) } else { json!(["none", *r.pick(&["f", "g"])]) }).collect()
            },
            _ => json!(r.text(&["a", "a", "b", "c", "", "d"])),
        }
    }
    fn start(r: &mut Rng) -> J {
        if r.chance(1, 4) {
            json!(["val", Self::arg('x', "", r)])
        } else {
            let n = if r.chance(1, 5) { 30 + r.below(60) } else { r.size(16) };
            std::iter::once(json!("list")).chain((0..n).map(|_| Self::arg('x', "", r))).collect()
        }
    }
}

fn main() {
    vk::journey::main::<Utils>();
}
