//! Validated (spec/Valid.tla): histories on a real validated value.
#![allow(deprecated)]
use rustica::datatypes::either::Either;
use rustica::datatypes::validated::Validated;
use rustica::error::{
    ErrorCategory, ResultExt, WithError, collect_errors, either_to_validated, result_to_validated, split_validated_errors, traverse_validated,
    validated_to_either, validated_to_result,
};
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use serde_json::json;
use std::cell::RefCell;
use std::hash::{DefaultHasher, Hash, Hasher};
use vk::*;

type V = Validated<String, String>;
thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
fn called(x: &str) {
    LOG.with(|l| l.borrow_mut().push(x.to_string()));
}
fn ap(f: &str, x: &str) -> String {
    format!("{f}({x})")
}
/// Applies a symbol and records the argument.
fn app(f: &J) -> impl Fn(&String) -> String + Clone + Send + 'static + use<> {
    let f = st(f);
    move |x| {
        called(x);
        ap(&f, x)
    }
}
fn refuses(k: &str, x: &str) -> bool {
    k == "e" || k == "c" && x == "a"
}
fn klv(k: &str, x: &str) -> V {
    match k {
        "s" => Validated::Valid(ap("s", x)),
        "e" => Validated::invalid_many([ap("e1", x), ap("e2", x)]),
        "c" if refuses(k, x) => Validated::invalid(ap("e", x)),
        "c" => Validated::Valid(ap("c", x)),
        _ => panic!("{k}"),
    }
}
fn rec(k: &str, e: &str) -> V {
    match k {
        "fix" => Validated::Valid(ap("fix", e)),
        "ren" => Validated::invalid(ap("r", e)),
        "dup" => Validated::invalid_many([ap("r1", e), ap("r2", e)]),
        "onlyx" if e == "x" => Validated::Valid(ap("fix", e)),
        "onlyx" => Validated::invalid(ap("r", e)),
        "void" => Validated::invalid_many([]),
        _ => panic!("{k}"),
    }
}
fn st(v: &J) -> String {
    s(v).to_string()
}
fn sts(v: &J) -> Vec<String> {
    arr(v).iter().map(st).collect()
}
fn list(t: &str, xs: impl IntoIterator<Item = J>) -> J {
    J::Array(std::iter::once(json!(t)).chain(xs).collect())
}
fn ls(xs: impl IntoIterator<Item = String>) -> J {
    list("list", xs.into_iter().map(J::from))
}
fn sh(v: &V) -> J {
    match v {
        Validated::Valid(x) => json!(["ok", x]),
        Validated::Invalid(es) => list("err", es.iter().map(|e| json!(e))),
    }
}
fn shl(v: &Validated<String, Vec<String>>) -> J {
    match v {
        Validated::Valid(x) => json!(["ok", ls(x.clone())]),
        Validated::Invalid(es) => list("err", es.iter().map(|e| json!(e))),
    }
}
fn mk(v: &J) -> V {
    if v[0] == "ok" { Validated::Valid(st(&v[1])) } else { Validated::Invalid(arr(v)[1..].iter().map(st).collect()) }
}
fn res(r: Result<String, String>) -> J {
    match r {
        Ok(x) => json!(["ok", x]),
        Err(e) => json!(["err", e]),
    }
}
fn val(x: impl Into<J>) -> J {
    json!(["val", x.into()])
}
fn opt(x: Option<String>) -> J {
    x.map_or(json!(["none"]), |x| json!(["some", x]))
}
fn hash(v: &V) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

struct Form {
    name: &'static str,
    r: J,
    v: Option<V>,
    c: Vec<String>,
}
struct O(Vec<Form>);
impl O {
    fn see(&mut self, name: &'static str, g: impl FnOnce() -> J) {
        LOG.with(|l| l.borrow_mut().clear());
        let r = guard(g).unwrap_or(json!(["panic"]));
        self.0.push(Form { name, r, v: None, c: LOG.with(|l| l.take()) });
    }
    fn new(&mut self, name: &'static str, g: impl FnOnce() -> V) {
        LOG.with(|l| l.borrow_mut().clear());
        let (r, v) = match guard(g) {
            Ok(v) => (sh(&v), Some(v)),
            Err(_) => (json!(["panic"]), None),
        };
        self.0.push(Form { name, r, v, c: LOG.with(|l| l.take()) });
    }
}
fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    futures::executor::block_on(f)
}

fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form> {
    let mut out = O(Vec::new());
    let o = &mut out;
    let x = || st(&a[0]);
    match op {
        "make_valid" => {
            o.new("valid", || V::valid(x()));
            o.new("pure", || <V as Pure>::pure::<String>(&x()));
            o.new("pure_owned", || <V as Pure>::pure_owned(x()));
            o.new("from_result", || V::from_result(&Ok(x())));
            o.new("from_result_owned", || V::from_result_owned(Ok(x())));
            o.new("from_option", || V::from_option(&Some(x()), &"no".into()));
            o.new("from_option_owned", || V::from_option_owned(Some(x()), "no".into()));
            o.new("from_option_with", || {
                V::from_option_with(&Some(x()), &|| {
                    called("!");
                    "no".into()
                })
            });
            o.new("from_option_with_owned", || {
                V::from_option_with_owned(Some(x()), || {
                    called("!");
                    "no".into()
                })
            });
            o.new("result_to_validated", || result_to_validated(Ok(x())));
            o.new("either_to_validated", || either_to_validated(Either::Right(x())));
            o.new("to_validated", || Ok::<_, String>(x()).to_validated());
            o.new("lift", || <Validated<String, ()> as ErrorCategory<String>>::lift(x()));
        },
        "make_invalid" => {
            o.new("invalid", || V::invalid(x()));
            o.new("from_result", || V::from_result(&Err(x())));
            o.new("from_result_owned", || V::from_result_owned(Err(x())));
            o.new("from_option", || V::from_option(&None, &x()));
            o.new("from_option_owned", || V::from_option_owned(None, x()));
            o.new("from_option_with", || V::from_option_with(&None, &x));
            o.new("from_option_with_owned", || V::from_option_with_owned(None, x));
            o.new("result_to_validated", || result_to_validated(Err(x())));
            o.new("either_to_validated", || either_to_validated(Either::Left(x())));
            o.new("to_validated", || Err::<String, _>(x()).to_validated());
            o.new("handle_error", || <Validated<String, ()> as ErrorCategory<String>>::handle_error(x()));
        },
        "make_many" => {
            o.new("invalid_many", || V::invalid_many(sts(&a[0])));
            for (_, it) in srcs(&sts(&a[0])) {
                o.new("invalid_many of an iterator", || V::invalid_many(it));
            }
        },
        "make_vec" => {
            o.new("invalid_vec", || V::invalid_vec(sts(&a[0])));
            for (_, it) in srcs(&sts(&a[0])) {
                o.new("invalid_vec of an iterator", || V::invalid_vec(it));
            }
        },
        "collect_errors" => {
            o.see("collect_errors", || sh(&collect_errors(sts(&a[0])).fmap(|_| "()".to_string())));
            for (_, it) in srcs(&sts(&a[0])) {
                o.see("collect_errors of an iterator", || sh(&collect_errors(it).fmap(|_| "()".to_string())));
            }
        },
        "is_valid" => o.see("is_valid", || {
            assert_ne!(v.is_valid(), v.is_invalid());
            val(v.is_valid().to_string())
        }),
        "errors" => {
            o.see("errors", || ls(v.errors()));
            o.see("error_slice", || ls(v.error_slice().to_vec()));
            o.see("iter_errors", || ls(v.iter_errors().cloned()));
            o.see("iter_errors_mut", || ls(v.clone().iter_errors_mut().map(|e| e.clone())));
        },
        "error_payload" => {
            let p = |p: Option<Vec<String>>| p.map_or(json!(["none"]), |p| json!(["some", ls(p)]));
            o.see("error_payload", || p(v.error_payload().map(|e| e.to_vec())));
            o.see("error_buffer_mut", || p(v.clone().error_buffer_mut().map(|e| e.to_vec())));
        },
        "unwrap_invalid" => {
            o.see("unwrap_invalid", || ls(v.unwrap_invalid()));
            o.see("unwrap_invalid_owned", || ls(v.clone().unwrap_invalid_owned()));
        },
        "into_value" => o.see("into_value", || match v.clone().into_value() {
            Ok(x) => json!(["ok", x]),
            Err(es) => list("err", es.into_iter().map(J::from)),
        }),
        "into_error_payload" => o.see("into_error_payload", || match v.clone().into_error_payload() {
            Err(x) => json!(["ok", x]),
            Ok(es) => list("err", es.into_iter().map(J::from)),
        }),
        "unwrap" => {
            o.see("unwrap", || val(v.unwrap()));
            o.see("unwrap_owned", || val(v.clone().unwrap_owned()));
            o.see("AsRef", || val(AsRef::<String>::as_ref(v).clone()));
            o.see("value", || val(v.value().clone()));
        },
        "unwrap_or" => o.see("unwrap_or", || val(v.unwrap_or(&x()))),
        "to_option" => {
            o.see("to_option", || opt(v.to_option()));
            o.see("as_ref", || opt(v.as_ref().cloned()));
        },
        "iter" => {
            o.see("iter", || ls(v.iter().cloned()));
            o.see("into_iter", || ls(v.clone()));
            o.see("for in &", || ls(v.into_iter().cloned()));
            o.see("iter_mut", || ls(v.clone().iter_mut().map(|x| x.clone())));
            o.see("for in &mut", || ls((&mut v.clone()).into_iter().map(|x| x.clone())));
        },
        "split" => o.see("split_validated_errors", || list("list", split_validated_errors(v.clone()).into_iter().map(res))),
        "to_result" => {
            o.see("to_result", || res(v.to_result()));
            o.see("to_result_owned", || res(v.clone().to_result_owned()));
            o.see("WithError::to_result", || res(WithError::<String>::to_result(v.clone())));
            o.see("validated_to_result", || res(validated_to_result(v.clone())));
            o.see("validated_to_either", || match validated_to_either(v.clone()) {
                Either::Right(x) => json!(["ok", x]),
                Either::Left(e) => json!(["err", e]),
            });
        },
        "fmap" => {
            let f = app(&a[0]);
            o.new("fmap", || v.fmap(&f));
            o.new("fmap_owned", || v.clone().fmap_owned(|x| f(&x)));
            o.new("bimap", || v.bimap(&f, |e: &String| e.clone()));
            o.new("first", || v.first(&f));
        },
        "fmap_valid_async" => {
            let f = app(&a[0]);
            o.new("fmap_valid_async", || {
                block(v.fmap_valid_async(move |x| {
                    let f = f.clone();
                    async move { f(&x) }
                }))
            });
        },
        "fmap_invalid" => {
            let f = app(&a[0]);
            let g = f.clone();
            o.new("fmap_invalid", || v.fmap_invalid(&f));
            o.new("fmap_invalid_owned", || v.clone().fmap_invalid_owned(|e| f(&e)));
            o.new("fmap_error", || v.clone().fmap_error(|e: String| f(&e)));
            o.new("second", || v.second(&f));
            o.new("fmap_invalid_async", || {
                block(v.fmap_invalid_async(move |e| {
                    let g = g.clone();
                    async move { g(&e) }
                }))
            });
        },
        "bimap" => {
            let (f, g) = (app(&a[0]), app(&a[1]));
            o.new("bimap", || v.bimap(&f, &g));
            o.new("first then second", || {
                let w: V = v.first(&f);
                w.second(&g)
            });
        },
        "bind" => {
            let k = st(&a[0]);
            let g = |x: &String| {
                called(x);
                klv(&k, x)
            };
            o.new("bind", || v.bind(g));
            o.new("bind_owned", || v.clone().bind_owned(|x| g(&x)));
        },
        "and_then_async" => {
            let k = st(&a[0]);
            o.new("and_then_async", || {
                block(v.and_then_async(move |x| {
                    let k = k.clone();
                    async move {
                        called(&x);
                        klv(&k, &x)
                    }
                }))
            });
        },
        "errors_mut" => {
            let f = st(&a[0]);
            o.new("iter_errors_mut", || {
                let mut w = v.clone();
                for e in w.iter_errors_mut() {
                    *e = ap(&f, e);
                }
                w
            });
            o.new("error_buffer_mut", || {
                let mut w = v.clone();
                if let Some(es) = w.error_buffer_mut() {
                    for e in es.iter_mut() {
                        *e = ap(&f, e);
                    }
                }
                w
            });
        },
        "value_mut" => {
            let f = st(&a[0]);
            o.new("iter_mut", || {
                let mut w = v.clone();
                for x in w.iter_mut() {
                    *x = ap(&f, x);
                }
                w
            });
        },
        "set" => o.new("for in &mut", || {
            let mut w = v.clone();
            for y in &mut w {
                *y = x();
            }
            w
        }),
        "push_error" => o.new("error_buffer_mut", || {
            let mut w = v.clone();
            if let Some(es) = w.error_buffer_mut() {
                es.push(x());
            }
            w
        }),
        "combine_errors" => {
            let w = mk(&a[0]);
            o.new("combine_errors", || v.combine_errors(&w));
            o.new("combine_errors_owned", || v.clone().combine_errors_owned(w.clone()));
        },
        "combine" => {
            let w = mk(&a[0]);
            o.new("combine", || v.combine(&w));
            o.new("combine_owned", || v.clone().combine_owned(w.clone()));
            o.new("mplus", || v.mplus(&w));
            o.new("mplus_owned", || v.clone().mplus_owned(w.clone()));
        },
        "alt" => {
            let w = mk(&a[0]);
            o.new("alt", || v.alt(&w));
        },
        "apply_pair" => {
            let w = mk(&a[0]);
            let f = |x: &String, y: &String| format!("<{x},{y}>");
            o.new("lift2", || V::lift2(f, v, &w));
            o.new("lift2_owned", || V::lift2_owned(|x, y| f(&x, &y), v.clone(), w.clone()));
            let fs: Validated<String, std::rc::Rc<dyn Fn(&String) -> String>> = v.fmap(|x| {
                let x = x.clone();
                std::rc::Rc::new(move |y: &String| f(&x, y)) as std::rc::Rc<dyn Fn(&String) -> String>
            });
            o.new("apply", || {
                let g = fs.fmap(|h| {
                    let h = h.clone();
                    move |y: &String| h(y)
                });
                Applicative::apply(&g, &w)
            });
            o.new("lift3", || {
                let u: V = V::lift3(|x, _, y| f(x, y), v, &V::valid("m".into()), &w);
                u
            });
        },
        "eq" => {
            let w = mk(&a[0]);
            o.see("==", || {
                let e = *v == w;
                assert_eq!(e, v.cmp(&w) == std::cmp::Ordering::Equal);
                assert_eq!(w.cmp(v), v.cmp(&w).reverse());
                assert!(!e || hash(v) == hash(&w));
                val(e.to_string())
            });
        },
        "recover_with" => o.new("recover_with", || v.clone().recover_with(x())),
        "recover_all" => {
            let k = st(&a[0]);
            o.new("recover_all", || {
                v.clone().recover_all(|e| {
                    called(&e);
                    rec(&k, &e)
                })
            });
        },
        "recover_at_once" => {
            let k = st(&a[0]);
            o.new("recover_all_at_once", || {
                v.clone().recover_all_at_once(|es| {
                    called(&es.len().to_string());
                    let mut all = Vec::new();
                    for e in es {
                        match rec(&k, &e) {
                            Validated::Valid(x) => return Validated::Valid(x),
                            Validated::Invalid(es) => all.extend(es),
                        }
                    }
                    Validated::invalid_many(all)
                })
            });
        },
        "collect_before" | "collect_after" => {
            let mut ws: Vec<V> = arr(&a[0]).iter().map(mk).collect();
            ws.insert(if op == "collect_before" { 0 } else { ws.len() }, v.clone());
            let refs: Vec<&V> = ws.iter().collect();
            o.see("sequence", || shl(&V::sequence(&refs, &|xs: &[String]| xs.to_vec())));
            o.see("sequence_owned", || shl(&V::sequence_owned(ws.clone(), |xs| xs)));
            o.see("collect", || shl(&V::collect(ws.iter().cloned())));
            o.see("collect_owned", || shl(&V::collect_owned(ws.clone().into_iter())));
            for (_, it) in srcs(&ws) {
                o.see("collect of an iterator", || shl(&V::collect(it)));
            }
            o.see("collect_owned, no bound", || shl(&V::collect_owned(src(&ws, 2))));
            // the same by lifting, one at a time
            o.see("lift2 each", || {
                let mut acc: Validated<String, Vec<String>> = Validated::Valid(vec![]);
                for w in &ws {
                    acc = V::lift2(
                        |xs: &Vec<String>, x: &String| {
                            let mut xs = xs.clone();
                            xs.push(x.clone());
                            xs
                        },
                        &acc,
                        w,
                    );
                }
                shl(&acc)
            });
        },
        "traverse_validated" => {
            let (xs, k) = (sts(&a[0]), st(&a[1]));
            let g = |x: &String| {
                called(x);
                if refuses(&k, x) { Err(ap("e", x)) } else { Ok(ap(&k, x)) }
            };
            o.see("traverse_validated", || shl(&traverse_validated(xs.clone(), |x| g(&x))));
            o.see("traverse_validated by reference", || shl(&traverse_validated(&xs, g)));
            o.see("collect of results", || shl(&V::collect(xs.iter().map(|x| V::from_result_owned(g(x))))));
        },
        _ => panic!("{op}"),
    }
    out.0
}

const OPS: &[(&str, &str)] = &[
    ("make_valid", "x"), ("make_invalid", "e"), ("make_many", "m"), ("make_vec", "m"), ("collect_errors", "m"), ("is_valid", ""), ("errors", ""),
    ("error_payload", ""), ("unwrap_invalid", ""), ("into_value", ""), ("into_error_payload", ""), ("unwrap", ""), ("unwrap_or", "x"),
    ("to_option", ""), ("iter", ""), ("split", ""), ("to_result", ""), ("fmap", "f"), ("fmap_valid_async", "f"), ("fmap_invalid", "f"),
    ("bimap", "ff"), ("bind", "k"), ("and_then_async", "k"), ("errors_mut", "f"), ("value_mut", "f"), ("set", "x"), ("push_error", "e"),
    ("combine_errors", "w"), ("combine", "w"), ("alt", "w"), ("apply_pair", "w"), ("eq", "w"), ("recover_with", "x"), ("recover_all", "q"),
    ("recover_at_once", "q"), ("collect_before", "W"), ("collect_after", "W"), ("traverse_validated", "Xk"), ("combine", "w"), ("apply_pair", "w"),
    ("make_many", "m"), ("collect_before", "W"),
];
fn names(r: &mut Rng, from: &[&str], max: usize) -> J {
    let n = if r.chance(1, 16) { 25 + r.below(60) } else if r.chance(1, 4) { r.size(max) } else { r.below(4) };
    (0..n).map(|_| json!(*r.pick(from))).collect()
}
fn word(r: &mut Rng) -> J {
    json!(r.text(&["a", "b", "c", "a", "d"]))
}
fn error(r: &mut Rng) -> J {
    json!(r.text(&["x", "y", "z", "w", "x"]))
}
fn value(r: &mut Rng) -> J {
    if r.chance(1, 2) {
        json!(["ok", word(r)])
    } else {
        let es = names(r, &["x", "y", "z", "w"], 14);
        list("err", arr(&es).iter().cloned())
    }
}
fn pool(r: &mut Rng, c: char) -> J {
    match c {
        'x' => word(r),
        'e' => error(r),
        'm' => names(r, &["x", "y", "z", "w"], 14),
        'f' => json!(*r.pick(&["f", "g"])),
        'k' => json!(*r.pick(&["s", "e", "c"])),
        'q' => json!(*r.pick(&["fix", "ren", "dup", "onlyx", "void"])),
        'w' => value(r),
        'W' if r.chance(1, 8) => {
            // long, and valid but for one at most
            let n = 25 + r.below(60);
            let bad = r.below(2 * n);
            (0..n).map(|i| if i == bad { value(r) } else { json!(["ok", word(r)]) }).collect()
        },
        'W' => (0..r.size(7)).map(|_| if r.chance(1, 2) { json!(["ok", word(r)]) } else { value(r) }).collect(),
        'X' => names(r, &["a", "b", "c"], 14),
        _ => panic!("{c}"),
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let mut seen = std::collections::HashSet::new();
            for c in cases(a.str("cases")) {
                if !seen.insert(c.to_string()) {
                    continue;
                }
                rep.cases += 1;
                let (op, v) = (s(&c["op"]), mk(&c["v"]));
                for f in forms(&v, op, arr(&c["a"])) {
                    rep.check(op, &c, f.name, &c["r"], &f.r);
                    if let Some(n) = f.v {
                        rep.check(op, &c, f.name, &c["n"], &sh(&n));
                    }
                    rep.check(op, &c, &format!("closures called by {}", f.name), &c["c"], &json!(f.c));
                    rep.check(op, &c, &format!("the operand after {}", f.name), &c["v"], &sh(&v));
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            for _ in 0..a.num("n", 100) {
                let mut v = V::valid("a".into());
                let mut evs = Vec::new();
                while evs.len() < a.num("len", 30) as usize {
                    let (op, sig) = *r.pick(OPS);
                    if op.starts_with("make") && r.chance(2, 3) || op == "recover_with" && r.chance(1, 2) {
                        continue;
                    }
                    if v.error_slice().len() > 40 && matches!(op, "combine" | "combine_errors" | "apply_pair" | "recover_all" | "recover_at_once")
                        || sh(&v).to_string().len() > 1500 && !op.starts_with("make")
                    {
                        continue;
                    }
                    let arg: Vec<J> = sig.chars().map(|c| pool(&mut r, c)).collect();
                    let fs = forms(&v, op, &arg);
                    let k = r.below(fs.len());
                    let f = fs.into_iter().nth(k).unwrap();
                    if let Some(n) = f.v {
                        v = n;
                    }
                    evs.push(json!({"op": op, "form": f.name, "a": arg, "r": f.r, "n": sh(&v), "c": f.c}));
                }
                tr.events += evs.len() as u64;
                tr.line(&json!({"evs": evs}));
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
