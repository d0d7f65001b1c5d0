//! Conversions and accessors (spec/Conv.tla): one real value through the containers.
#![allow(deprecated)]
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError, MaybeExt};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::wrapper::max::Max;
use rustica::datatypes::wrapper::min::Min;
use rustica::datatypes::wrapper::product::Product;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::writer::Writer;
use rustica::error::{
    ComposableError, ErrorOps, ResultExt, WithError, collect_errors, composable_to_core, core_to_composable, either_to_result, either_to_validated,
    flatten_composable_result, result_to_either, result_to_validated, validated_to_either, validated_to_result, wrap_in_composable_result,
    wrap_in_composable_result_boxed,
};
use rustica::pvec::PersistentVector;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::pure::{Pure, PureExt};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::json;
use std::cell::RefCell;
use vk::*;

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
fn called(x: &str) {
    LOG.with(|l| l.borrow_mut().push(x.to_string()));
}
fn st(v: &J) -> String {
    s(v).to_string()
}
fn app(f: &J) -> impl Fn(String) -> String + Clone + use<> {
    let f = st(f);
    move |x| {
        called(&x);
        format!("{f}({x})")
    }
}
type CE = ComposableError<String>;
type Vd = Validated<String, String>;
type Wr = Writer<Vec<String>, String>;
#[derive(Clone)]
enum V {
    Option(Option<String>),
    Result(Result<String, String>),
    Either(Either<String, String>),
    Maybe(Maybe<String>),
    Validated(Vd),
    Cresult(Result<String, CE>),
    Vec(Vec<String>),
    Choice(Choice<String>),
    Pvec(PersistentVector<String>),
    Id(Id<String>),
    Sum(Sum<String>),
    Product(Product<String>),
    Min(Min<String>),
    Max(Max<String>),
    First(First<String>),
    Last(Last<String>),
    Writer(Wr),
}
fn list(k: &str, xs: impl IntoIterator<Item = String>) -> J {
    std::iter::once(k.to_string()).chain(xs).map(J::from).collect()
}
fn sh(v: &V) -> J {
    match v {
        V::Option(o) => list("option", o.clone()),
        V::Result(Ok(x)) => json!(["result", "ok", x]),
        V::Result(Err(x)) => json!(["result", "err", x]),
        V::Either(Either::Right(x)) => json!(["either", "right", x]),
        V::Either(Either::Left(x)) => json!(["either", "left", x]),
        V::Maybe(Maybe::Just(x)) => json!(["maybe", x]),
        V::Maybe(Maybe::Nothing) => json!(["maybe"]),
        V::Validated(Validated::Valid(x)) => json!(["validated", "ok", x]),
        V::Validated(Validated::Invalid(es)) => list("validated", std::iter::once("err".to_string()).chain(es.iter().cloned())),
        V::Cresult(Ok(x)) => json!(["cresult", "ok", x]),
        V::Cresult(Err(e)) => list("cresult", ["err".to_string(), e.core_error().clone()].into_iter().chain(e.context())),
        V::Vec(xs) => list("vec", xs.clone()),
        V::Choice(c) => list("choice", c.iter().cloned()),
        V::Pvec(p) => list("pvec", p.iter().cloned()),
        V::Id(x) => json!(["id", x.clone().into_inner()]),
        V::Sum(x) => json!(["sum", x.0]),
        V::Product(x) => json!(["product", x.0]),
        V::Min(x) => json!(["min", x.0]),
        V::Max(x) => json!(["max", x.0]),
        V::First(x) => list("first", x.0.clone()),
        V::Last(x) => list("last", x.0.clone()),
        V::Writer(w) => {
            let (log, x) = w.clone().run();
            list("writer", std::iter::once(x).chain(log))
        },
    }
}
fn mk(v: &J) -> V {
    let xs: Vec<String> = arr(v)[1..].iter().map(st).collect();
    let good = xs.first().is_some_and(|t| t == "ok" || t == "right");
    let side = |v: &Vec<String>| if good { Ok(v[1].clone()) } else { Err(v[1].clone()) };
    match s(&v[0]) {
        "option" => V::Option(xs.into_iter().next()),
        "result" => V::Result(side(&xs)),
        "either" => V::Either(if good { Either::right(xs[1].clone()) } else { Either::left(xs[1].clone()) }),
        "maybe" => V::Maybe(if xs.is_empty() { Maybe::none() } else { Maybe::some(xs[0].clone()) }),
        "validated" => V::Validated(if good { Validated::valid(xs[1].clone()) } else { Validated::invalid_many(xs[1..].iter().cloned()) }),
        "cresult" => V::Cresult(side(&xs).map_err(ComposableError::new)),
        "vec" => V::Vec(xs),
        "choice" => V::Choice(Choice::of_many(xs)),
        "pvec" => V::Pvec(PersistentVector::from_slice(&xs)),
        "id" => V::Id(Id::new(xs[0].clone())),
        "sum" => V::Sum(Sum(xs[0].clone())),
        "product" => V::Product(Product(xs[0].clone())),
        "min" => V::Min(Min(xs[0].clone())),
        "max" => V::Max(Max(xs[0].clone())),
        "first" => V::First(First(xs.into_iter().next())),
        "last" => V::Last(Last(xs.into_iter().next())),
        "writer" => V::Writer(Writer::new(xs[1..].to_vec(), xs[0].clone())),
        k => panic!("{k}"),
    }
}

struct Form {
    name: &'static str,
    r: J,
    n: Option<V>,
    c: Vec<String>,
}
struct O(Vec<Form>);
impl O {
    fn see(&mut self, name: &'static str, g: impl FnOnce() -> J) {
        LOG.with(|l| l.borrow_mut().clear());
        let r = guard(g).unwrap_or(json!(["panic"]));
        self.0.push(Form { name, r, n: None, c: LOG.with(|l| l.take()) });
    }
    fn to(&mut self, name: &'static str, g: impl FnOnce() -> V) {
        LOG.with(|l| l.borrow_mut().clear());
        let (r, n) = match guard(g) {
            Ok(v) => (json!(["to"]), Some(v)),
            Err(_) => (json!(["panic"]), None),
        };
        self.0.push(Form { name, r, n, c: LOG.with(|l| l.take()) });
    }
}
fn val(x: impl Into<J>) -> J {
    json!(["val", x.into()])
}
fn opt<T: AsRef<str>>(x: Option<T>) -> J {
    x.map_or(json!(["none"]), |x| json!(["some", x.as_ref()]))
}
fn boolean(b: bool) -> J {
    val(b.to_string())
}
fn peeks<T: Identity<Source = String> + Clone>(o: &mut O, op: &str, v: &T) {
    match op {
        "peek" => {
            o.see("try_value", || opt(v.try_value()));
            if v.try_value().is_some() {
                o.see("value", || opt(Some(v.value())));
                o.see("into_value", || opt(Some(v.clone().into_value())));
            }
        },
        "take" => o.to("try_into_value", || V::Option(v.clone().try_into_value())),
        _ => {},
    }
}
fn json_forms<T: Serialize + DeserializeOwned + Clone>(o: &mut O, v: &T, back: fn(T) -> V) {
    o.to("to_string, from_str", || back(serde_json::from_str(&serde_json::to_string(v).unwrap()).unwrap()));
    o.to("to_string_pretty, from_slice", || back(serde_json::from_slice(serde_json::to_string_pretty(v).unwrap().as_bytes()).unwrap()));
    o.to("to_value, from_value", || back(serde_json::from_value(serde_json::to_value(v).unwrap()).unwrap()));
    o.to("inside lists and maps", || {
        let m = std::collections::BTreeMap::from([("k".to_string(), vec![v.clone(), v.clone()])]);
        let t = serde_json::to_vec(&m).unwrap();
        let mut m: std::collections::BTreeMap<String, Vec<T>> = serde_json::from_slice(&t).unwrap();
        assert_eq!(m["k"].len(), 2);
        back(m.remove("k").unwrap().pop().unwrap())
    });
    o.to("inside other containers", || {
        let w: Choice<Either<Maybe<T>, Validated<T, Id<T>>>> =
            Choice::of_many([Either::left(Maybe::Just(v.clone())), Either::right(Validated::valid(Id::new(v.clone()))), Either::right(Validated::invalid(v.clone()))]);
        let w: Choice<Either<Maybe<T>, Validated<T, Id<T>>>> = serde_json::from_str(&serde_json::to_string(&w).unwrap()).unwrap();
        let w: Vec<_> = w.into_iter().collect();
        match (&w[0], &w[1], &w[2]) {
            (Either::Left(Maybe::Just(a)), Either::Right(Validated::Valid(b)), Either::Right(Validated::Invalid(es))) if w.len() == 3 && es.len() == 1 => {
                assert_eq!(sh(&back(a.clone())), sh(&back(es[0].clone())));
                back(b.clone().into_inner())
            },
            _ => panic!("other containers changed"),
        }
    });
}

fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form> {
    let mut out = O(Vec::new());
    let o = &mut out;
    let x = || st(&a[0]);
    match v {
        V::Option(v) => {
            peeks(o, op, v);
            match op {
                "json" => json_forms(o, v, V::Option),
                "to_maybe" => {
                    o.to("from_option", || V::Maybe(Maybe::from_option(v.clone())));
                    o.to("into", || V::Maybe(v.clone().into()));
                    o.to("collect", || V::Maybe(v.clone().into_iter().collect()));
                },
                "to_validated" => {
                    o.to("from_option", || V::Validated(Validated::from_option(v, &x())));
                    o.to("from_option_owned", || V::Validated(Validated::from_option_owned(v.clone(), x())));
                    o.to("from_option_with", || V::Validated(Validated::from_option_with(v, &x)));
                    o.to("from_option_with_owned", || V::Validated(Validated::from_option_with_owned(v.clone(), x)));
                },
                "to_first" => {
                    o.to("First", || V::First(First(v.clone())));
                    if let Some(y) = v {
                        o.to("from", || V::First(y.clone().into()));
                    }
                },
                "to_last" => {
                    o.to("Last", || V::Last(Last(v.clone())));
                    if let Some(y) = v {
                        o.to("from", || V::Last(y.clone().into()));
                    }
                },
                "to_vec" => o.to("fold to_vec", || V::Vec(Foldable::fold_left(v, &vec![], |acc, y| [acc.clone(), vec![y.clone()]].concat()))),
                _ => {},
            }
        },
        V::Result(v) => {
            peeks(o, op, v);
            match op {
                "json" => json_forms(o, v, V::Result),
                "to_either" => {
                    o.to("result_to_either", || V::Either(result_to_either(v.clone())));
                    o.to("utils result_to_either", || V::Either(rustica::utils::error_utils::result_to_either(v.clone())));
                    o.to("from_result", || V::Either(Either::from_result(v.clone())));
                    o.to("to_either", || V::Either(v.clone().to_either()));
                },
                "to_validated" => {
                    o.to("result_to_validated", || V::Validated(result_to_validated(v.clone())));
                    o.to("to_validated", || V::Validated(v.clone().to_validated()));
                    o.to("from_result", || V::Validated(Validated::from_result(v)));
                    o.to("from_result_owned", || V::Validated(Validated::from_result_owned(v.clone())));
                },
                "to_maybe" => {
                    o.to("from", || V::Maybe(Maybe::from(v.clone())));
                    o.to("into", || V::Maybe(v.clone().into()));
                    o.to("collect", || V::Maybe(v.clone().into_iter().collect()));
                },
                "to_cresult" => {
                    o.to("wrap_in_composable_result", || V::Cresult(wrap_in_composable_result(v.clone())));
                    o.to("wrap_in_composable_result_boxed", || V::Cresult(wrap_in_composable_result_boxed(v.clone()).map_err(|e| *e)));
                    o.to("core_to_composable", || V::Cresult(v.clone().map_err(core_to_composable)));
                    o.to("from", || V::Cresult(v.clone().map_err(ComposableError::from)));
                },
                "to_option" => o.to("try_into_value", || V::Option(v.clone().try_into_value())),
                "unwrap_or_default" => o.see("unwrap_or_default", || val(ResultExt::unwrap_or_default(v.clone()))),
                "bimap" => {
                    let (f, g) = (app(&a[0]), app(&a[1]));
                    o.to("bimap", || V::Result(ResultExt::bimap(v.clone(), &f, &g)));
                    o.to("bimap_result", || V::Result(v.clone().bimap_result(&f, &g)));
                },
                "fmap_error" => o.to("fmap_error", || V::Result(WithError::fmap_error(v.clone(), app(&a[0])))),
                "unwrap" => {
                    o.see("value", || val(v.value().clone()));
                    o.see("into_value", || val(v.clone().into_value()));
                },
                _ => {},
            }
        },
        V::Either(v) => {
            peeks(o, op, v);
            let f = || app(&a[0]);
            match op {
                "json" => json_forms(o, v, V::Either),
                "to_result" => {
                    o.to("to_result", || V::Result(v.clone().to_result()));
                    o.to("either_to_result", || V::Result(either_to_result(v.clone())));
                    o.to("utils either_to_result", || V::Result(rustica::utils::error_utils::either_to_result(v.clone())));
                    o.to("WithError::to_result", || V::Result(WithError::to_result(v.clone())));
                    o.to("bimap_result", || V::Result(v.clone().bimap_result(|x| x, |e| e)));
                },
                "to_validated" => {
                    o.to("either_to_validated", || V::Validated(either_to_validated(v.clone())));
                    o.to("by result", || V::Validated(result_to_validated(v.clone().to_result())));
                },
                "is_right" => {
                    o.see("is_right", || boolean(v.is_right()));
                    o.see("is_left", || boolean(!v.is_left()));
                },
                "map_left" => {
                    o.to("fmap_left", || V::Either(v.clone().fmap_left(f())));
                    o.to("second", || V::Either(v.second(|e| f()(e.clone()))));
                    o.to("bimap", || V::Either(v.bimap(|x| x.clone(), |e| f()(e.clone()))));
                },
                "fmap_error" => {
                    o.to("fmap_error", || V::Either(WithError::fmap_error(v.clone(), f())));
                    o.to("bimap_result", || V::Either(Either::from_result(v.clone().bimap_result(|x| x, f()))));
                },
                "map_right" => {
                    o.to("fmap_right", || V::Either(v.clone().fmap_right(f())));
                    o.to("fmap", || V::Either(v.fmap(|x| f()(x.clone()))));
                    o.to("fmap_owned", || V::Either(v.clone().fmap_owned(f())));
                    o.to("first", || V::Either(v.first(|x| f()(x.clone()))));
                },
                "unwrap_left" => {
                    o.see("unwrap_left", || val(v.clone().unwrap_left()));
                    o.see("left_value", || val(v.clone().left_value()));
                    o.see("left_ref", || val(v.left_ref().clone()));
                    o.see("left_mut", || val(v.clone().left_mut().clone()));
                },
                "unwrap" => {
                    o.see("unwrap", || val(v.clone().unwrap()));
                    o.see("unwrap_right", || val(v.clone().unwrap_right()));
                    o.see("right_value", || val(v.clone().right_value()));
                    o.see("right_ref", || val(v.right_ref().clone()));
                    o.see("value", || val(v.value().clone()));
                    o.see("into_value", || val(v.clone().into_value()));
                },
                "right_or" => {
                    o.see("right_or", || val(v.clone().right_or(x())));
                    o.see("unwrap_or", || val(v.clone().unwrap_or(x())));
                },
                "left_or" => o.see("left_or", || val(v.clone().left_or(x()))),
                "right_option" => {
                    o.to("right_option", || V::Option(v.clone().right_option()));
                    o.to("into_iter", || V::Option(v.clone().into_iter().next()));
                },
                "left_option" => o.to("left_option", || V::Option(v.clone().left_option())),
                "right_list" => {
                    o.to("into_iter", || V::Vec(v.clone().into_iter().collect()));
                    o.to("iter", || V::Vec(v.into_iter().cloned().collect()));
                    o.to("iter_mut", || V::Vec((&mut v.clone()).into_iter().map(|x| x.clone()).collect()));
                },
                "left_list" => {
                    o.to("left_iter", || V::Vec(v.clone().left_iter().collect()));
                    o.to("left_iter_ref", || V::Vec(v.left_iter_ref().cloned().collect()));
                    o.to("left_iter_mut", || V::Vec(v.clone().left_iter_mut().map(|x| x.clone()).collect()));
                },
                "set_right" => o.to("iter_mut", || {
                    let mut w = v.clone();
                    for y in &mut w {
                        *y = x();
                    }
                    V::Either(w)
                }),
                "set_left" => {
                    o.to("left_iter_mut", || {
                        let mut w = v.clone();
                        w.left_iter_mut().for_each(|y| *y = x());
                        V::Either(w)
                    });
                    if v.is_left() {
                        o.to("left_mut", || {
                            let mut w = v.clone();
                            *w.left_mut() = x();
                            V::Either(w)
                        });
                    }
                },
                "make_left" => o.to("left", || V::Either(Either::left(x()))),
                "make_right" => {
                    o.to("right", || V::Either(Either::right(x())));
                    o.to("pure", || V::Either(<Either<String, ()> as Pure>::pure(&x())));
                },
                _ => {},
            }
        },
        V::Maybe(v) => {
            peeks(o, op, v);
            match op {
                "json" => json_forms(o, v, V::Maybe),
                "to_option" => {
                    o.to("to_option", || V::Option(v.clone().to_option()));
                    o.to("into", || V::Option(v.clone().into()));
                    o.to("as_option", || V::Option(v.as_option().cloned()));
                    o.to("as_ref", || V::Option(v.as_ref().cloned()));
                    o.to("iter", || V::Option(v.iter().next().cloned()));
                    o.to("into_iter", || V::Option(v.clone().into_iter().next()));
                },
                "to_result" => {
                    o.to("to_result", || V::Result(v.clone().to_result(x())));
                    o.to("MaybeExt::to_result", || V::Result(MaybeExt::to_result(v.clone(), x())));
                },
                "to_standard" => {
                    let text = |e: MaybeError| {
                        assert_eq!(e, MaybeError::ValueNotPresent);
                        e.to_string()
                    };
                    o.to("to_standard_result", || V::Result(v.clone().to_standard_result().map_err(text)));
                    o.to("WithError::to_result", || V::Result(WithError::to_result(v.clone()).map_err(text)));
                },
                "to_cresult" => {
                    let owned = |e: ComposableError<&'static str>| e.map_core(String::from);
                    o.to("try_unwrap", || V::Cresult(v.clone().try_unwrap().map_err(owned)));
                    o.to("MaybeExt::try_unwrap", || V::Cresult(MaybeExt::try_unwrap(v.clone()).map_err(owned)));
                },
                "to_vec" => {
                    o.to("to_vec", || V::Vec(v.clone().to_vec()));
                    o.to("iter", || V::Vec(v.iter().cloned().collect()));
                    o.to("into_iter", || V::Vec(v.clone().into_iter().collect()));
                    o.to("iter_mut", || V::Vec(v.clone().iter_mut().map(|x| x.clone()).collect()));
                    o.to("into_iter by reference", || V::Vec((&*v).into_iter().cloned().collect()));
                },
                "is_just" => {
                    o.see("is_just", || boolean(v.is_just()));
                    o.see("is_nothing", || boolean(!v.is_nothing()));
                },
                "unwrap" => {
                    o.see("unwrap", || val(v.clone().unwrap()));
                    o.see("value", || val(v.value().clone()));
                    o.see("into_value", || val(v.clone().into_value()));
                },
                "unwrap_or" => o.see("unwrap_or", || val(v.clone().unwrap_or(x()))),
                "unwrap_or_else" => o.see("unwrap_or_else", || {
                    val(v.clone().unwrap_or_else(|| {
                        called("!");
                        x()
                    }))
                }),
                "fmap_or" => o.see("fmap_or", || val(v.clone().fmap_or(x(), app(&a[1])))),
                "filter" => {
                    let holds = |y: &String| {
                        called(y);
                        match s(&a[0]) {
                            "isA" => y == "a",
                            "notA" => y != "a",
                            p => p == "all",
                        }
                    };
                    o.to("filter", || V::Maybe(v.clone().filter(holds)));
                },
                "tap" => o.to("tap", || V::Maybe(v.clone().tap(|x| called(x)))),
                "set" => {
                    o.to("iter_mut", || {
                        let mut w = v.clone();
                        w.iter_mut().for_each(|y| *y = x());
                        V::Maybe(w)
                    });
                    o.to("for in &mut", || {
                        let mut w = v.clone();
                        for y in &mut w {
                            *y = x();
                        }
                        V::Maybe(w)
                    });
                },
                "when" => o.to("when", || V::Maybe(Maybe::when(a[0] == true, st(&a[1])))),
                "make" => {
                    o.to("some", || V::Maybe(Maybe::some(x())));
                    o.to("pure", || V::Maybe(<Maybe<()> as Pure>::pure(&x())));
                },
                "clear" => {
                    o.to("none", || V::Maybe(Maybe::none()));
                    o.to("default", || V::Maybe(Maybe::default()));
                },
                _ => {},
            }
        },
        V::Validated(v) => {
            peeks(o, op, v);
            match op {
                "json" => json_forms(o, v, V::Validated),
                "to_result" => {
                    o.to("validated_to_result", || V::Result(validated_to_result(v.clone())));
                    o.to("WithError::to_result", || V::Result(WithError::to_result(v.clone())));
                    o.to("to_result", || V::Result(v.to_result()));
                    o.to("to_result_owned", || V::Result(v.clone().to_result_owned()));
                },
                "to_either" => o.to("validated_to_either", || V::Either(validated_to_either(v.clone()))),
                "to_option" => {
                    o.to("to_option", || V::Option(v.to_option()));
                    o.to("as_ref", || V::Option(v.as_ref().cloned()));
                },
                "to_vec" => {
                    o.to("iter", || V::Vec(v.iter().cloned().collect()));
                    o.to("into_iter", || V::Vec(v.clone().into_iter().collect()));
                    o.to("fold", || V::Vec(FoldableExt::to_vec(v)));
                },
                "to_errors" => {
                    o.to("iter_errors", || V::Vec(v.iter_errors().cloned().collect()));
                    o.to("error_slice", || V::Vec(v.error_slice().to_vec()));
                    o.to("errors", || V::Vec(v.errors().to_vec()));
                },
                "fmap_error" => {
                    o.to("fmap_error", || V::Validated(WithError::fmap_error(v.clone(), app(&a[0]))));
                    let f = app(&a[0]);
                    o.to("fmap_invalid", || V::Validated(v.fmap_invalid(|e| f(e.clone()))));
                },
                _ => {},
            }
        },
        V::Cresult(v) => {
            if op == "to_result" {
                o.to("flatten_composable_result", || V::Result(flatten_composable_result(v.clone())));
                o.to("composable_to_core", || V::Result(v.clone().map_err(composable_to_core)));
            }
        },
        V::Vec(v) => match op {
            "json" => json_forms(o, v, V::Vec),
            "to_choice" => {
                o.to("from", || V::Choice(v.clone().into()));
                o.to("from slice", || V::Choice(v.as_slice().into()));
                o.to("of_many", || V::Choice(Choice::of_many(v.clone())));
                o.to("collect", || V::Choice(v.iter().cloned().collect()));
                for (_, it) in srcs(v) {
                    o.to("collect of an iterator", || V::Choice(it.collect()));
                }
                o.to("collect of choices", || V::Choice(v.iter().cloned().map(|x| Choice::new(x, vec![])).collect()));
                if let [first, rest @ ..] = v.as_slice() {
                    o.to("new", || V::Choice(Choice::new(first.clone(), rest.to_vec())));
                }
            },
            "to_pvec" => {
                o.to("from", || V::Pvec(v.clone().into()));
                o.to("from_slice", || V::Pvec(PersistentVector::from_slice(v)));
                o.to("collect", || V::Pvec(v.iter().cloned().collect()));
                for (_, it) in srcs(v) {
                    o.to("collect of an iterator", || V::Pvec(it.collect()));
                }
            },
            "to_maybe" => {
                o.to("collect", || V::Maybe(v.iter().cloned().collect()));
                for (_, it) in srcs(v) {
                    o.to("collect of an iterator", || V::Maybe(it.collect()));
                }
            },
            "collect_errors" => {
                o.to("collect_errors", || V::Validated(collect_errors(v.clone()).fmap(|_| "()".to_string())));
                for (_, it) in srcs(v) {
                    o.to("collect_errors of an iterator", || V::Validated(collect_errors(it).fmap(|_| "()".to_string())));
                }
            },
            "to_writer" => {
                o.to("new", || V::Writer(Writer::new(v.clone(), x())));
                o.to("tell each", || {
                    V::Writer(v.iter().fold(Writer::new(vec![], ()), |w, e| w.bind_owned(|_| Writer::<Vec<String>, ()>::tell(vec![e.clone()]))).fmap_owned(|_| x()))
                });
            },
            "push" => o.to("push", || V::Vec([v.clone(), vec![x()]].concat())),
            _ => {},
        },
        V::Choice(v) => {
            peeks(o, op, v);
            if op == "peek" {
                o.see("first", || opt(v.first()));
            }
            match op {
                "json" => json_forms(o, v, V::Choice),
                "to_vec" => {
                    o.to("into", || V::Vec(v.clone().into()));
                    o.to("to_vec", || V::Vec(v.to_vec()));
                    o.to("iter", || V::Vec(v.iter().cloned().collect()));
                    o.to("into_iter", || V::Vec(v.clone().into_iter().collect()));
                    o.to("into_iter by reference", || V::Vec(v.into_iter().cloned().collect()));
                    o.to("fold", || V::Vec(FoldableExt::to_vec(v)));
                },
                "to_pvec" => {
                    o.to("collect", || V::Pvec(v.iter().cloned().collect()));
                    o.to("collect owned", || V::Pvec(v.clone().into_iter().collect()));
                },
                "to_maybe" => o.to("collect", || V::Maybe(v.iter().cloned().collect())),
                _ => {},
            }
        },
        V::Pvec(v) => {
            peeks(o, op, v);
            if op == "peek" {
                o.see("first", || opt(v.first()));
                o.see("get", || opt(v.get(0)));
            }
            match op {
                "to_vec" => {
                    o.to("into", || V::Vec(v.clone().into()));
                    o.to("to_vec", || V::Vec(v.to_vec()));
                    o.to("iter", || V::Vec(v.iter().cloned().collect()));
                    o.to("into_iter", || V::Vec(v.clone().into_iter().collect()));
                    o.to("fold", || V::Vec(FoldableExt::to_vec(v)));
                },
                "to_choice" => o.to("collect", || V::Choice(v.iter().cloned().collect())),
                "to_maybe" => o.to("collect", || V::Maybe(v.clone().into_iter().collect())),
                _ => {},
            }
        },
        V::Id(v) => {
            peeks(o, op, v);
            let i = || v.clone().into_inner();
            match op {
                "json" => json_forms(o, v, V::Id),
                "unwrap" => {
                    o.see("into_inner", || val(i()));
                    o.see("unwrap", || val(v.clone().unwrap()));
                    o.see("unwrap_or", || val(v.clone().unwrap_or("no".into())));
                    o.see("as_ref", || val(AsRef::<String>::as_ref(v).clone()));
                    o.see("value", || val(v.value().clone()));
                    o.see("into_value", || val(v.clone().into_value()));
                },
                "set" => {
                    o.to("value_mut", || {
                        let mut w = v.clone();
                        *w.value_mut() = x();
                        V::Id(w)
                    });
                    o.to("for in &mut", || {
                        let mut w = v.clone();
                        for y in &mut w {
                            *y = x();
                        }
                        V::Id(w)
                    });
                    o.to("new", || V::Id(Id::new(x())));
                    o.to("from_ref", || V::Id(Id::from_ref(&x())));
                    o.to("from", || V::Id(x().into()));
                    o.to("pure", || V::Id(<Id<()> as Pure>::pure(&x())));
                },
                "then" => o.to("then", || V::Id(v.clone().then(Id::new(x())))),
                "to_sum" => o.to("from", || V::Sum(i().into())),
                "to_product" => o.to("from", || V::Product(i().into())),
                "to_min" => o.to("from", || V::Min(i().into())),
                "to_max" => o.to("from", || V::Max(i().into())),
                "to_first" => o.to("from", || V::First(i().into())),
                "to_last" => o.to("from", || V::Last(i().into())),
                "to_option" => o.to("to_pure", || V::Option(i().to_pure::<Option<String>>())),
                "to_either" => o.to("to_pure_owned", || V::Either(i().to_pure_owned::<Either<String, String>>())),
                "to_vec" => {
                    o.to("into_iter", || V::Vec(v.clone().into_iter().collect()));
                    o.to("iter", || V::Vec(v.into_iter().cloned().collect()));
                    o.to("fold", || V::Vec(FoldableExt::to_vec(v)));
                    o.to("to_pure", || V::Vec(i().to_pure::<Vec<String>>()));
                },
                _ => {},
            }
        },
        V::Sum(Sum(w)) => boxed(o, op, w, v),
        V::Product(Product(w)) => boxed(o, op, w, v),
        V::Min(w) => {
            peeks(o, op, w);
            o_id(o, op, w.clone().into_value(), w.unwrap(), w.as_ref().clone());
            boxed(o, op, &w.0, v)
        },
        V::Max(w) => {
            peeks(o, op, w);
            o_id(o, op, w.clone().into_value(), w.unwrap(), w.as_ref().clone());
            boxed(o, op, &w.0, v)
        },
        V::First(w) => {
            peeks(o, op, w);
            match op {
                "json" => json_forms(o, w, V::First),
                "to_option" => o.to("the field", || V::Option(w.0.clone())),
                _ => {},
            }
        },
        V::Last(w) => {
            peeks(o, op, w);
            match op {
                "json" => json_forms(o, w, V::Last),
                "to_option" => o.to("the field", || V::Option(w.0.clone())),
                _ => {},
            }
        },
        V::Writer(w) => {
            peeks(o, op, w);
            match op {
                "json" => json_forms(o, w, V::Writer),
                "to_vec" => {
                    o.to("log", || V::Vec(w.clone().log()));
                    o.to("run", || V::Vec(w.clone().run().0));
                },
                "to_id" => {
                    o.to("value", || V::Id(Id::new(w.clone().run().1)));
                    o.to("unwrap", || V::Id(Id::new(w.clone().unwrap())));
                    o.to("into_iter", || V::Id(Id::new(w.clone().into_iter().next().unwrap())));
                },
                _ => {},
            }
        },
    }
    out.0
}
fn o_id(o: &mut O, op: &str, a: String, b: String, c: String) {
    if op == "to_id" {
        o.to("into_value", || V::Id(Id::new(a)));
        o.to("unwrap", || V::Id(Id::new(b)));
        o.to("as_ref", || V::Id(Id::new(c)));
    }
}
/// The wrappers whose Identity needs arithmetic are read by their field.
fn boxed(o: &mut O, op: &str, x: &String, v: &V) {
    match (op, v) {
        ("json", V::Sum(w)) => json_forms(o, w, V::Sum),
        ("json", V::Product(w)) => json_forms(o, w, V::Product),
        ("json", V::Min(w)) => json_forms(o, w, V::Min),
        ("json", V::Max(w)) => json_forms(o, w, V::Max),
        ("to_id", _) => o.to("the field", || V::Id(Id::new(x.clone()))),
        ("peek", _) => o.see("the field", || opt(Some(x))),
        ("take", _) => o.to("the field", || V::Option(Some(x.clone()))),
        _ => {},
    }
}

/// The operations of each kind, as in the specification.
fn ops(kind: &str) -> Vec<(&'static str, &'static str)> {
    let mut o: Vec<(&str, &str)> = match kind {
        "option" => vec![("to_maybe", ""), ("to_validated", "e"), ("to_first", ""), ("to_last", ""), ("to_vec", "")],
        "result" => vec![
            ("to_either", ""), ("to_validated", ""), ("to_maybe", ""), ("to_cresult", ""), ("to_option", ""), ("unwrap_or_default", ""),
            ("bimap", "ff"), ("fmap_error", "f"), ("unwrap", ""),
        ],
        "either" => vec![
            ("to_result", ""), ("to_validated", ""), ("is_right", ""), ("map_left", "f"), ("map_right", "f"), ("unwrap_left", ""), ("unwrap", ""),
            ("right_or", "x"), ("left_or", "e"), ("right_option", ""), ("left_option", ""), ("set_right", "x"), ("set_left", "e"),
            ("right_list", ""), ("left_list", ""), ("fmap_error", "f"), ("make_left", "e"), ("make_right", "x"),
        ],
        "maybe" => vec![
            ("to_option", ""), ("to_result", "e"), ("to_standard", ""), ("to_cresult", ""), ("to_vec", ""), ("is_just", ""), ("unwrap", ""),
            ("unwrap_or", "x"), ("unwrap_or_else", "x"), ("fmap_or", "xf"), ("filter", "p"), ("tap", ""), ("set", "x"), ("when", "bx"),
            ("make", "x"), ("clear", ""),
        ],
        "validated" => vec![("to_result", ""), ("to_either", ""), ("to_option", ""), ("to_vec", ""), ("to_errors", ""), ("fmap_error", "f")],
        "cresult" => vec![("to_result", "")],
        "vec" => vec![("to_choice", ""), ("to_pvec", ""), ("to_maybe", ""), ("collect_errors", ""), ("to_writer", "x"), ("push", "x"), ("push", "x")],
        "choice" => vec![("to_vec", ""), ("to_pvec", ""), ("to_maybe", "")],
        "pvec" => vec![("to_vec", ""), ("to_choice", ""), ("to_maybe", "")],
        "id" => vec![
            ("unwrap", ""), ("set", "x"), ("then", "x"), ("to_sum", ""), ("to_product", ""), ("to_min", ""), ("to_max", ""), ("to_first", ""),
            ("to_last", ""), ("to_option", ""), ("to_either", ""), ("to_vec", ""),
        ],
        "sum" | "product" | "min" | "max" => vec![("to_id", "")],
        "first" | "last" => vec![("to_option", "")],
        "writer" => vec![("to_vec", ""), ("to_id", "")],
        _ => panic!("{kind}"),
    };
    if kind != "pvec" && kind != "cresult" {
        o.push(("json", ""));
    }
    if kind != "vec" && kind != "cresult" {
        o.extend([("peek", ""), ("take", "")]);
    }
    o
}
fn word(r: &mut Rng) -> J {
    json!(r.text(&["a", "b", "c", "d", "", "null", "\"q\"\\", "ok", "é"]))
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let mut seen = std::collections::HashSet::new();
            for c in cases(a.str("cases")) {
                if !seen.insert(c.to_string()) {
                    continue;
                }
                rep.cases += 1;
                let (op, mut v) = (s(&c["op"]), mk(&c["v"]));
                if c["v"][0] == "cresult" && c["v"][1] == "err" {
                    // the contexts a conversion put there
                    let mut e: CE = ComposableError::new(st(&c["v"][2]));
                    for x in arr(&c["v"])[3..].iter().rev() {
                        e = e.with_context(st(x));
                    }
                    v = V::Cresult(Err(e));
                }
                let fs = forms(&v, op, arr(&c["a"]));
                assert!(!fs.is_empty(), "{c}");
                for f in fs {
                    let key = format!("{} {op}", s(&c["v"][0]));
                    rep.check(&key, &c, f.name, &c["r"], &f.r);
                    if let Some(n) = f.n {
                        rep.check(&key, &c, f.name, &c["n"], &sh(&n));
                    }
                    rep.check(&key, &c, &format!("closures called by {}", f.name), &c["c"], &json!(f.c));
                    rep.check(&key, &c, &format!("the value after {}", f.name), &c["v"], &sh(&v));
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            for _ in 0..a.num("n", 100) {
                let k = *r.pick(&["option", "maybe", "vec", "vec", "vec", "id", "result", "either", "validated"]);
                let mut start = vec![json!(k)];
                match k {
                    "option" | "maybe" if r.chance(1, 3) => {},
                    "vec" => start.extend((0..r.size(20)).map(|_| word(&mut r))),
                    "result" => start.extend([json!(*r.pick(&["ok", "err"])), word(&mut r)]),
                    "either" => start.extend([json!(*r.pick(&["right", "left"])), word(&mut r)]),
                    "validated" if r.chance(1, 2) => start.extend([json!("ok"), word(&mut r)]),
                    "validated" => {
                        start.push(json!("err"));
                        start.extend((0..r.size(12)).map(|_| word(&mut r)));
                    },
                    _ => start.push(word(&mut r)),
                }
                let start = J::Array(start);
                let mut v = mk(&start);
                let mut evs = Vec::new();
                while evs.len() < a.num("len", 30) as usize {
                    let kind = sh(&v)[0].clone();
                    let (op, sig) = *r.pick(&ops(s(&kind)));
                    let arg: Vec<J> = sig
                        .chars()
                        .map(|c| match c {
                            'f' => json!(*r.pick(&["f", "g"])),
                            'p' => json!(*r.pick(&["isA", "notA", "all", "none"])),
                            'b' => json!(r.chance(1, 2)),
                            _ => word(&mut r),
                        })
                        .collect();
                    let fs = forms(&v, op, &arg);
                    let i = r.below(fs.len());
                    let f = fs.into_iter().nth(i).unwrap();
                    if let Some(n) = f.n {
                        v = n;
                    }
                    evs.push(json!({"op": op, "form": f.name, "a": arg, "r": f.r, "n": sh(&v), "c": f.c}));
                    if sh(&v).to_string().len() > 600 {
                        break;
                    }
                }
                tr.events += evs.len() as u64;
                tr.line(&json!({"evs": evs, "meta": start}));
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
