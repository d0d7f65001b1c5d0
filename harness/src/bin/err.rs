//! The error-handling layer (spec/Err.tla).
#![allow(deprecated)]
use rustica::context;
use rustica::datatypes::either::Either;
use rustica::error::*;
use rustica::utils::error_utils;
use std::rc::Rc;
use vk::journey::*;
use vk::*;

type S = String;
type Comp = ComposableError<S>;
type Pipe = ErrorPipeline<S, S>;
enum V {
    Raw(S),
    Comp(Comp),
    Result(Result<S, S>),
    Either(Either<S, S>),
    /// a pipeline is consumed by every operation: how to make it again
    Pipe(Rc<dyn Fn() -> Pipe>),
    Fin(Result<S, Comp>),
    App(AppError<S, S>),
    Ctx(ErrorContext),
}
fn side(good: bool) -> S {
    if good { "ok" } else { "err" }.to_string()
}
fn cut(k: &str, r: Result<S, Comp>) -> J {
    match r {
        Ok(x) => json!([k, "ok", x]),
        Err(e) => {
            assert_eq!(e.error_code, None);
            list(k, [side(false), e.core_error.clone()].into_iter().chain(oldest(&e)))
        },
    }
}
fn oldest(e: &Comp) -> Vec<S> {
    let mut c = e.context();
    c.reverse();
    c
}
fn code(n: &J) -> u32 {
    s(n).parse().unwrap()
}
fn comp(e: S, n: &J, cs: &[S]) -> Comp {
    let mut c = if s(n).is_empty() { Comp::new(e) } else { Comp::with_code(e, code(n)) };
    for x in cs {
        c = c.with_context(x.as_str());
    }
    c
}
fn fal(k: &J) -> impl Fn(S) -> Result<S, S> + Clone + use<> {
    let (good, f) = (k[0] == "ok", app(&k[1]));
    move |x| if good { Ok(f(x)) } else { Err(f(x)) }
}
fn efal(k: &J) -> impl Fn(S) -> Either<S, S> + use<> {
    let f = fal(k);
    move |x| match f(x) {
        Ok(y) => Either::right(y),
        Err(y) => Either::left(y),
    }
}
/// A context that notices being computed.
struct Noted(S);
impl std::fmt::Display for Noted {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        called(&self.0);
        write!(f, "{}", self.0)
    }
}

struct Errors;
impl Journey for Errors {
    type V = V;
    fn make(v: &J) -> V {
        let xs = strs(v);
        let good = xs.get(1).is_some_and(|x| x == "ok");
        let res = || if good { Ok(xs[2].clone()) } else { Err(xs[2].clone()) };
        match xs[0].as_str() {
            "raw" => V::Raw(xs[1].clone()),
            "comp" => V::Comp(comp(xs[1].clone(), &v[2], &xs[3..])),
            "result" => V::Result(res()),
            "either" => V::Either(if good { Either::right(xs[2].clone()) } else { Either::left(xs[2].clone()) }),
            "pipe" => {
                let r = res();
                V::Pipe(Rc::new(move || {
                    let mut p = ErrorPipeline::new(r.clone());
                    for c in &xs[3..] {
                        p = p.with_context(c.as_str());
                    }
                    p
                }))
            },
            "fin" => V::Fin(res().map_err(|e| comp(e, &json!(""), &xs[3..]))),
            "app" => V::App(if xs.len() == 2 { AppError::new(xs[1].clone()) } else { AppError::with_context(xs[1].clone(), xs[2].clone()) }),
            "ctx" => V::Ctx(ErrorContext::new(xs[1].clone())),
            k => panic!("{k}"),
        }
    }
    fn show(v: &V) -> J {
        match v {
            V::Raw(e) => json!(["raw", e]),
            V::Comp(e) => list("comp", [e.core_error.clone(), e.error_code.map_or(S::new(), |n| n.to_string())].into_iter().chain(oldest(e))),
            V::Result(Ok(x)) => json!(["result", "ok", x]),
            V::Result(Err(x)) => json!(["result", "err", x]),
            V::Either(Either::Right(x)) => json!(["either", "ok", x]),
            V::Either(Either::Left(x)) => json!(["either", "err", x]),
            V::Pipe(p) => cut("pipe", p().finish_without_box()),
            V::Fin(r) => cut("fin", r.clone()),
            V::App(e) => list("app", std::iter::once(e.message().clone()).chain(e.context().cloned())),
            V::Ctx(c) => json!(["ctx", c.message()]),
        }
    }
    fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form<V>> {
        let mut out = O(Vec::new());
        let o = &mut out;
        let x = || st(&a[0]);
        match v {
            V::Raw(e) => {
                let e = || e.clone();
                match op {
                    "wrap" => {
                        o.to("new", || V::Comp(Comp::new(e())));
                        o.to("from", || V::Comp(Comp::from(e())));
                        o.to("into", || V::Comp(e().into()));
                        o.to("core_to_composable", || V::Comp(core_to_composable(e())));
                        o.to("wrap_in_composable_result", || V::Comp(wrap_in_composable_result::<(), _>(Err(e())).unwrap_err()));
                        o.to("wrap_in_composable_result_boxed", || V::Comp(*wrap_in_composable_result_boxed::<(), _>(Err(e())).unwrap_err()));
                        o.to("question mark", || {
                            fn f(e: S) -> Result<(), Comp> {
                                Err(e)?;
                                Ok(())
                            }
                            V::Comp(f(e()).unwrap_err())
                        });
                        o.to("finish", || V::Comp(*ErrorPipeline::<S, _>::new(Err(e())).finish().unwrap_err()));
                    },
                    "wrap_code" => {
                        o.to("with_code", || V::Comp(Comp::with_code(e(), code(&a[0]))));
                        o.to("new, set_code", || V::Comp(Comp::new(e()).set_code(code(&a[0]))));
                        o.to("with_code, set_code", || V::Comp(Comp::with_code(e(), 77).set_code(code(&a[0]))));
                    },
                    "context" => {
                        o.to("with_context &str", || V::Comp(with_context(e(), s(&a[0]))));
                        o.to("with_context String", || V::Comp(with_context(e(), x())));
                        o.to("with_context ErrorContext", || V::Comp(with_context(e(), ErrorContext::new(x()))));
                        o.to("with_context LazyContext", || V::Comp(with_context(e(), LazyContext::new(x))));
                        o.to("with_context context!", || {
                            let c = x();
                            V::Comp(with_context(e(), context!("{}", c)))
                        });
                        o.to("with_context_result", || V::Comp(*with_context_result::<S, _, _>(Err(e()), x()).unwrap_err()));
                        o.to("context_fn", || {
                            let f = context_fn(x());
                            let first = f("other".to_string());
                            assert_eq!((first.core_error.as_str(), first.context()), ("other", vec![x()]));
                            V::Comp(f(e()))
                        });
                        o.to("map_err context_fn", || V::Comp(Err::<S, _>(e()).map_err(context_fn(s(&a[0]))).unwrap_err()));
                        o.to("accumulate_context", || V::Comp(accumulate_context(e(), [x()])));
                        o.to("pipeline", || V::Comp(*error_pipeline::<S, _>(Err(e())).with_context(x()).finish().unwrap_err()));
                    },
                    "contexts" => {
                        let cs = strs(&a[0]);
                        o.to("accumulate_context", || V::Comp(accumulate_context(e(), cs.clone())));
                        for (_, it) in srcs(&cs) {
                            o.to("accumulate_context of an iterator", || V::Comp(accumulate_context(e(), it)));
                        }
                        o.to("context_accumulator of an iterator", || {
                            let f = context_accumulator(src(&cs, 4));
                            f(e());
                            V::Comp(f(e()))
                        });
                        o.to("accumulate_context &str", || V::Comp(accumulate_context(e(), cs.iter().map(|c| c.as_str()))));
                        o.to("accumulate_context ErrorContext", || V::Comp(accumulate_context(e(), cs.iter().map(ErrorContext::new))));
                        o.to("context_accumulator", || {
                            let f = context_accumulator(cs.clone());
                            f("other".to_string());
                            V::Comp(f(e()))
                        });
                        o.to("with_contexts", || V::Comp(Comp::new(e()).with_contexts(cs.clone())));
                        o.to("one by one", || V::Comp(cs.iter().fold(Comp::new(e()), |e, c| e.with_context(c.clone()))));
                        o.to("pipeline", || {
                            let p = cs.iter().fold(error_pipeline::<S, _>(Err(e())), |p, c| p.with_context(ErrorContext::new(c.clone())));
                            V::Comp(p.finish_without_box().unwrap_err())
                        });
                    },
                    "to_app" => {
                        o.to("new", || V::App(AppError::new(e())));
                        o.to("error", || V::App(error(e()).map_context(|_| None)));
                    },
                    "to_app_with" => {
                        o.to("with_context", || V::App(AppError::with_context(e(), x())));
                        o.to("error_with_context", || V::App(error_with_context(e(), x())));
                    },
                    "throw" => {
                        o.to("Err", || V::Result(Err(e())));
                        o.to("handle_error", || V::Result(<Result<(), S>>::handle_error::<S>(e())));
                        o.to("flatten_composable_result", || V::Result(flatten_composable_result(Err(Comp::with_code(e(), 3).with_context("lost")))));
                    },
                    _ => {},
                }
            },
            V::Comp(e) => {
                let c = || e.clone();
                match op {
                    "with_context" => {
                        o.to("&str", || V::Comp(c().with_context(s(&a[0]))));
                        o.to("String", || V::Comp(c().with_context(x())));
                        o.to("ErrorContext", || V::Comp(c().with_context(ErrorContext::new(x()))));
                        o.to("LazyContext", || V::Comp(c().with_context(LazyContext::new(x))));
                        o.to("context!", || {
                            let t = x();
                            V::Comp(c().with_context(context!("{t}")))
                        });
                        o.to("with_contexts", || V::Comp(c().with_contexts([x()])));
                    },
                    "with_contexts" => {
                        let cs = strs(&a[0]);
                        o.to("list", || V::Comp(c().with_contexts(cs.clone())));
                        for (_, it) in srcs(&cs) {
                            o.to("with_contexts of an iterator", || V::Comp(c().with_contexts(it)));
                        }
                        o.to("one by one", || V::Comp(cs.iter().fold(c(), |e, t| e.with_context(t.as_str()))));
                        o.to("in two parts", || {
                            let (l, r) = cs.split_at(cs.len() / 2);
                            V::Comp(c().with_contexts(l.to_vec()).with_contexts(r.to_vec()))
                        });
                    },
                    "set_code" => {
                        o.to("set_code", || V::Comp(c().set_code(code(&a[0]))));
                        o.to("the field", || {
                            let mut e = c();
                            e.error_code = Some(code(&a[0]));
                            V::Comp(e)
                        });
                    },
                    "map_core" => {
                        o.to("map_core", || V::Comp(c().map_core(app(&a[0]))));
                        o.to("map_core to another type and back", || V::Comp(c().map_core(Some).map_core(|e| app(&a[0])(e.unwrap()))));
                    },
                    "core" => {
                        o.see("core_error", || val(e.core_error().clone()));
                        o.see("the field", || val(c().core_error));
                        o.see("composable_to_core", || val(composable_to_core(c())));
                    },
                    "contexts" => {
                        o.see("context", || list("list", e.context()));
                        o.see("context_iter", || list("list", e.context_iter().cloned()));
                        o.see("extract_context", || list("list", extract_context(e)));
                        o.see("context_iter backwards", || {
                            let mut back: Vec<S> = e.context_iter().rev().cloned().collect();
                            assert_eq!(back.len(), e.context_iter().len());
                            back.reverse();
                            list("list", back)
                        });
                    },
                    "nth" => {
                        o.see("context_iter", || opt(e.context_iter().nth(us(&a[0]))));
                        o.see("context", || opt(e.context().get(us(&a[0]))));
                    },
                    "code" => {
                        o.see("error_code", || opt(e.error_code().map(|n| n.to_string())));
                        o.see("the field", || opt(e.error_code.map(|n| n.to_string())));
                    },
                    "chain" => {
                        o.see("error_chain", || val(e.error_chain()));
                        o.see("format_error_chain", || val(format_error_chain(e)));
                    },
                    "text" => {
                        o.see("to_string", || val(e.to_string()));
                        o.see("boxed", || val((Box::new(c()) as Box<dyn std::fmt::Display>).to_string()));
                        o.see("of a result", || val(BoxedComposableResult::<(), S>::Err(Box::new(c())).unwrap_err().to_string()));
                    },
                    "eq" => {
                        let cs: Vec<S> = [st(&a[2])].into_iter().filter(|c| !c.is_empty()).chain(strs(&a[3])).collect();
                        let other = comp(x(), &a[1], &cs);
                        o.see("==", || boolean(*e == other));
                        o.see("!=", || boolean(!(other != *e)));
                    },
                    "unwrap" => {
                        o.to("core_error", || V::Raw(c().core_error));
                        o.to("composable_to_core", || V::Raw(composable_to_core(c())));
                        o.to("flatten_composable_result", || V::Raw(flatten_composable_result::<(), _>(Err(c())).unwrap_err()));
                    },
                    _ => {},
                }
            },
            V::Result(r) => {
                let c = || r.clone();
                match op {
                    "pipe" => {
                        let r = c();
                        o.to("new", || V::Pipe(Rc::new(move || ErrorPipeline::new(r.clone()))));
                        let r = c();
                        o.to("error_pipeline", || V::Pipe(Rc::new(move || error_pipeline(r.clone()))));
                    },
                    "recover" => {
                        let k = fal(&a[0]);
                        o.to("recover", || V::Result(c().recover(&k)));
                        o.to("pipeline", || V::Result(flatten_composable_result(error_pipeline(c()).recover(&k).finish_without_box())));
                    },
                    "bimap" => {
                        let (f, g) = (app(&a[0]), app(&a[1]));
                        o.to("bimap_result", || V::Result(c().bimap_result(&f, &g)));
                        o.to("bimap", || V::Result(ResultExt::bimap(c(), &f, &g)));
                        o.to("pipeline", || {
                            V::Result(error_pipeline(c()).map(&f).map_error(&g).finish().map_err(|e| composable_to_core(*e)))
                        });
                    },
                    "map_error" => {
                        let f = app(&a[0]);
                        o.to("fmap_error", || V::Result(c().fmap_error(&f)));
                        o.to("to_result, fmap_error", || V::Result(WithError::to_result(c()).fmap_error(&f)));
                    },
                    "to_either" => {
                        o.to("result_to_either", || V::Either(result_to_either(c())));
                        o.to("to_either", || V::Either(c().to_either()));
                        o.to("error_utils", || V::Either(error_utils::result_to_either(c())));
                    },
                    "context" => {
                        o.to("with_context_result", || V::Fin(with_context_result(c(), s(&a[0])).map_err(|e| *e)));
                        o.to("with_context_result lazy", || V::Fin(with_context_result(c(), LazyContext::new(x)).map_err(|e| *e)));
                        o.to("map_err context_fn", || V::Fin(c().map_err(context_fn(x()))));
                        o.to("map_err context_accumulator", || V::Fin(c().map_err(context_accumulator(vec![x()]))));
                    },
                    "wrap" => {
                        o.to("wrap_in_composable_result", || V::Fin(wrap_in_composable_result(c())));
                        o.to("wrap_in_composable_result_boxed", || V::Fin(wrap_in_composable_result_boxed(c()).map_err(|e| *e)));
                        o.to("pipeline", || V::Fin(ErrorPipeline::new(c()).finish_without_box()));
                    },
                    "lift" => o.to("lift", || V::Result(<Result<(), S>>::lift(x()))),
                    "handle" => o.to("handle_error", || V::Result(<Result<(), S>>::handle_error(x()))),
                    "side" => o.see("is_ok", || val(side(r.is_ok()))),
                    _ => {},
                }
            },
            V::Either(e) => {
                let c = || e.clone();
                match op {
                    "recover" => o.to("recover", || V::Either(c().recover(efal(&a[0])))),
                    "bimap" => {
                        let (f, g) = (app(&a[0]), app(&a[1]));
                        o.to("bimap_result", || V::Result(c().bimap_result(&f, &g)));
                    },
                    "map_error" => o.to("fmap_error", || V::Either(WithError::fmap_error(c(), app(&a[0])))),
                    "to_result" => {
                        o.to("either_to_result", || V::Result(either_to_result(c())));
                        o.to("to_result", || V::Result(WithError::to_result(c())));
                        o.to("error_utils", || V::Result(error_utils::either_to_result(c())));
                    },
                    "lift" => o.to("lift", || V::Either(<Either<S, ()>>::lift(x()))),
                    "handle" => o.to("handle_error", || V::Either(<Either<S, ()>>::handle_error(x()))),
                    "side" => o.see("is_right", || val(side(e.is_right()))),
                    _ => {},
                }
            },
            V::Pipe(p) => {
                // each step is performed once, with the calls it makes, and then kept as a recipe
                let mut step = |name: &'static str, g: Rc<dyn Fn(Pipe) -> Pipe>| {
                    let p = p.clone();
                    let old = p();
                    o.to(name, || {
                        let once = cut("pipe", g(old).finish_without_box());
                        let made = calls();
                        let recipe = V::Pipe(Rc::new(move || g(p())));
                        assert_eq!(once, Errors::show(&recipe));
                        forget_calls();
                        made.into_iter().for_each(called);
                        recipe
                    });
                };
                match op {
                    "with_context" => {
                        let t = x();
                        step("String", Rc::new(move |p| p.with_context(t.clone())));
                        let t = x();
                        step("&str", Rc::new(move |p| p.with_context(t.as_str())));
                        let t = x();
                        step("ErrorContext", Rc::new(move |p| p.with_context(ErrorContext::new(t.clone()))));
                    },
                    "with_lazy" => {
                        let t = x();
                        step("LazyContext", Rc::new(move |p| p.with_context(LazyContext::new(|| Noted(t.clone()).to_string()))));
                        let t = x();
                        step("context!", Rc::new(move |p| {
                            let n = Noted(t.clone());
                            p.with_context(context!("{}", n))
                        }));
                    },
                    "map" => {
                        let f = app(&a[0]);
                        step("map", Rc::new(move |p| p.map(&f)));
                        let f = app(&a[0]);
                        step("map to another type and back", Rc::new(move |p| p.map(|x| Some(f(x))).map(|x| x.unwrap())));
                    },
                    "and_then" => {
                        let k = fal(&a[0]);
                        step("and_then", Rc::new(move |p| p.and_then(&k)));
                        let k = fal(&a[0]);
                        step("and_then to another type and back", Rc::new(move |p| p.and_then(|x| k(x).map(Some)).map(|x| x.unwrap())));
                    },
                    "map_error" => {
                        let f = app(&a[0]);
                        step("map_error", Rc::new(move |p| p.map_error(&f)));
                        let f = app(&a[0]);
                        step("map_error to another type and back", Rc::new(move |p| p.map_error(|e| vec![f(e)]).map_error(|e| e.concat())));
                    },
                    "recover" => {
                        let k = fal(&a[0]);
                        step("recover", Rc::new(move |p| p.recover(&k)));
                    },
                    "finish" => {
                        let (a, b) = (p(), p());
                        o.to("finish", || V::Fin(a.finish().map_err(|e| *e)));
                        o.to("finish_without_box", || V::Fin(b.finish_without_box()));
                    },
                    _ => {},
                }
            },
            V::Fin(r) => match op {
                "unwrap" => o.to("match", || match r.clone() {
                    Ok(x) => V::Result(Ok(x)),
                    Err(e) => V::Comp(e),
                }),
                "flatten" => {
                    o.to("flatten_composable_result", || V::Result(flatten_composable_result(r.clone())));
                    o.to("composable_to_core", || V::Result(r.clone().map_err(composable_to_core)));
                },
                "add_context" => o.to("map_err with_context", || V::Fin(r.clone().map_err(|e| e.with_context(x())))),
                "side" => o.see("is_ok", || val(side(r.is_ok()))),
                _ => {},
            },
            V::App(e) => {
                let c = || e.clone();
                match op {
                    "map" => o.to("map", || V::App(c().map(app(&a[0])))),
                    "map_context" => o.to("map_context", || V::App(c().map_context(|c| c.map(app(&a[0]))))),
                    "drop_context" => o.to("map_context", || V::App(c().map_context(|_| None))),
                    "put_context" => o.to("map_context", || V::App(c().map_context(|_: Option<S>| Some(x())))),
                    "message" => o.see("message", || val(e.message().clone())),
                    "context" => o.see("context", || opt(e.context())),
                    "text" => o.see("to_string", || val(e.to_string())),
                    "eq" => {
                        let cs = strs(&a[1]);
                        let other = cs.first().map_or(AppError::new(x()), |c| AppError::with_context(x(), c.clone()));
                        o.see("==", || boolean(*e == other));
                        o.see("!=", || boolean(!(other != *e)));
                    },
                    _ => {},
                }
            },
            V::Ctx(c) => match op {
                "text" => {
                    o.see("message", || val(c.message()));
                    o.see("to_string", || val(c.to_string()));
                    o.see("into_error_context", || val(c.clone().into_error_context().message()));
                },
                "eq" => {
                    o.see("String", || boolean(*c == x().into_error_context()));
                    o.see("&str", || boolean(*c == s(&a[0]).into_error_context()));
                    o.see("LazyContext", || boolean(*c == LazyContext::new(x).into_error_context()));
                },
                "attach" => o.to("with_context", || V::Comp(with_context(x(), c.clone()))),
                _ => {},
            },
        }
        out.0
    }
    fn ops(kind: &str) -> Vec<(&'static str, &'static str)> {
        match kind {
            "raw" => vec![("wrap", ""), ("wrap_code", "n"), ("context", "c"), ("contexts", "m"), ("to_app", ""), ("to_app_with", "c"), ("throw", "")],
            "comp" => vec![
                ("with_context", "c"), ("with_context", "c"), ("with_context", "c"), ("with_contexts", "m"), ("set_code", "n"), ("map_core", "f"),
                ("core", ""), ("contexts", ""), ("nth", "i"), ("code", ""), ("chain", ""), ("text", ""), ("eq", "encm"), ("unwrap", ""),
            ],
            "result" => vec![
                ("pipe", ""), ("pipe", ""), ("pipe", ""), ("pipe", ""), ("recover", "k"), ("bimap", "ff"), ("map_error", "f"), ("to_either", ""), ("context", "c"), ("wrap", ""),
                ("lift", "x"), ("handle", "e"), ("side", ""),
            ],
            "either" => {
                vec![("recover", "k"), ("bimap", "ff"), ("map_error", "f"), ("to_result", ""), ("lift", "x"), ("handle", "e"), ("side", "")]
            },
            "pipe" => vec![
                ("with_context", "c"), ("with_context", "c"), ("with_lazy", "c"), ("with_lazy", "c"), ("map", "f"), ("and_then", "k"), ("map_error", "f"),
                ("recover", "k"), ("finish", ""),
            ],
            "fin" => vec![("unwrap", ""), ("flatten", ""), ("add_context", "c"), ("side", "")],
            "app" => vec![
                ("map", "f"), ("map_context", "f"), ("drop_context", ""), ("put_context", "c"), ("message", ""), ("context", ""), ("text", ""), ("eq", "eo"),
            ],
            "ctx" => vec![("text", ""), ("eq", "c"), ("attach", "e")],
            _ => panic!("{kind}"),
        }
    }
    fn arg(sort: char, op: &str, r: &mut Rng) -> J {
        match sort {
            'f' => json!(*r.pick(&["f", "g"])),
            'k' => json!([*r.pick(&["ok", "err"]), *r.pick(&["f", "g"])]),
            'n' if op == "eq" => json!(*r.pick(&["", "0", "7"])),
            'n' => json!(*r.pick(&["0", "7", "404", "4294967295"])),
            'i' => json!(r.below(9)),
            'm' => (0..if r.chance(1, 10) { 20 + r.below(60) } else { r.size(7) }).map(|_| Self::arg('c', op, r)).collect(),
            'o' => (0..r.below(2)).map(|_| Self::arg('c', op, r)).collect(),
            'c' => plain(r, &["p", "", "q -> r", "line/line", "(code: 7)", "é", "{}"]),
            _ => plain(r, &["x", "y", "", "x -> y"]),
        }
    }
    fn start(r: &mut Rng) -> J {
        let k = *r.pick(&["raw", "raw", "comp", "app", "ctx", "result", "pipe", "pipe", "either"]);
        let x = Self::arg('x', "", r);
        let side = *r.pick(&["ok", "err"]);
        match k {
            "raw" => json!([k, x]),
            "app" => json!([k, "x"]),
            "ctx" => json!([k, x]),
            "comp" => json!([k, x, ""]),
            _ => json!([k, side, x]),
        }
    }
}

fn main() {
    vk::journey::main::<Errors>();
}

/// Errors are shown through `Debug`, which the spec renders only for texts
/// that need no escaping.
fn plain(r: &mut Rng, xs: &[&str]) -> J {
    json!(r.text(xs).chars().filter(|c| c.escape_debug().count() == 1).collect::<String>())
}
