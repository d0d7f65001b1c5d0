//! Choice (spec/Choice.tla): histories on a real choice, every form of every operation.
#![allow(deprecated)]
use rustica::datatypes::choice::Choice;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use serde_json::json;
use std::hash::{DefaultHasher, Hash, Hasher};
use vk::journey::{called, calls, forget_calls};
use vk::*;

type C = Choice<i64>;
fn f(n: &str, x: i64) -> i64 {
    match n {
        "f" => x + 100,
        "g" => 3 * x + 1,
        "neg" => -x,
        _ => panic!("{n}"),
    }
}
fn holds(p: &str, x: i64) -> bool {
    match p {
        "even" => x.rem_euclid(2) == 0,
        "small" => x < 2,
        "all" => true,
        "none" => false,
        _ => panic!("{p}"),
    }
}
fn key(k: &str, x: i64) -> i64 {
    match k {
        "id" => x,
        "mod" => x.rem_euclid(2),
        "one" => 1,
        "half" => x.div_euclid(2),
        _ => panic!("{k}"),
    }
}
/// A value equal to every other with the same key.
fn class(k: &str, x: i64) -> Cl {
    Cl(x, key(k, x))
}
fn part(k: &str, x: i64) -> Vec<i64> {
    match k {
        "two" => vec![x, x + 50],
        "down" => vec![x + 9, x + 3, x],
        "odd" if x.rem_euclid(2) == 0 => vec![],
        "odd" => vec![x],
        "last" if x < 3 => vec![x],
        "last" | "nil" => vec![],
        _ => panic!("{k}"),
    }
}
fn refuses(q: &str, x: i64) -> bool {
    match q {
        "never" => false,
        "odd" => x.rem_euclid(2) == 1,
        "two" => x == 2,
        "always" => true,
        _ => panic!("{q}"),
    }
}
fn ints(v: &J) -> Vec<i64> {
    arr(v).iter().map(|x| x.as_i64().unwrap()).collect()
}
fn raw(c: &C) -> Vec<i64> {
    (0..c.len()).map(|i| if i == 0 { *c.first().unwrap() } else { c.alternatives()[i - 1] }).collect()
}
fn lst(xs: impl IntoIterator<Item = i64>) -> J {
    J::Array(std::iter::once(json!("list")).chain(xs.into_iter().map(|x| json!(x))).collect())
}
fn opt(x: Option<i64>) -> J {
    x.map_or(json!(["none"]), |x| json!(["some", x]))
}
fn val(x: impl Into<J>) -> J {
    json!(["val", x.into()])
}
fn hash(c: &C) -> u64 {
    let mut h = DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}
/// The same choice, by several constructions.
fn makes(xs: &[i64]) -> Vec<(&'static str, C)> {
    let mut out: Vec<(&'static str, C)> = vec![
        ("of_many", Choice::of_many(xs.to_vec())),
        ("from_iter", xs.iter().copied().collect()),
        ("from vec", C::from(xs.to_vec())),
        ("from slice", C::from(xs)),
        ("sum", xs.iter().map(<C as Pure>::pure::<i64>).sum()),
        ("collect of choices", {
            let h = xs.len() / 2;
            [Choice::of_many(xs[..h].to_vec()), Choice::of_many(xs[h..].to_vec())].into_iter().collect()
        }),
    ];
    for (k, it) in srcs(xs).enumerate() {
        let it = it.1;
        out.push(("made of an iterator", if k % 2 == 0 { Choice::of_many(it) } else { it.collect() }));
        let it = src(xs, k);
        out.push(("made of an iterator", if k % 2 == 1 { Choice::of_many(it) } else { it.collect() }));
    }
    if xs.is_empty() {
        out.push(("new_empty", Choice::new_empty()));
        out.push(("default", Choice::default()));
        out.push(("empty", C::empty()));
    } else {
        out.push(("new", Choice::new(xs[0], xs[1..].to_vec())));
        for (_, it) in srcs(&xs[1..]) {
            out.push(("new, of an iterator", Choice::new(xs[0], it)));
        }
    }
    out
}

struct Form {
    name: &'static str,
    r: J,
    v: Option<C>,
    /// What the closures of the caller were run on.
    c: Vec<i64>,
}
fn form(o: &mut Forms, name: &'static str, g: impl FnOnce() -> (J, Option<C>)) {
    forget_calls();
    let (r, v) = guard(g).unwrap_or((json!(["panic"]), None));
    o.push(Form { name, r, v, c: calls().iter().map(|x| x.parse().unwrap()).collect() });
}
/// A closure of the caller is run on `x`.
fn on(x: i64) -> i64 {
    called(x.to_string());
    x
}
type Forms = Vec<Form>;
/// A result that is a new choice.
fn new(o: &mut Forms, name: &'static str, g: impl FnOnce() -> C) {
    form(o, name, || {
        let c = g();
        (lst(raw(&c)), Some(c))
    });
}
fn trying(o: &mut Forms, name: &'static str, g: impl FnOnce() -> Result<C, &'static str>) {
    form(o, name, || match g() {
        Ok(c) => (lst(raw(&c)), Some(c)),
        Err(_) => (json!(["refused"]), None),
    });
}
fn see(o: &mut Forms, name: &'static str, g: impl FnOnce() -> J) {
    form(o, name, || (g(), None));
}

fn forms(v: &C, op: &str, a: &[J]) -> Forms {
    let o = &mut Vec::new();
    let xs = || ints(&a[0]);
    let n = || s(&a[0]);
    match op {
        "make" => {
            for (name, c) in makes(&xs()) {
                new(o, name, || c);
            }
        },
        "add_alternatives" => {
            new(o, "add_alternatives", || v.clone().add_alternatives(xs()));
            for (_, it) in srcs(&xs()) {
                new(o, "add_alternatives of an iterator", || v.clone().add_alternatives(it));
            }
        },
        "combine" => {
            let w: C = Choice::of_many(xs());
            new(o, "combine", || v.combine(&w));
            new(o, "combine_owned", || v.clone().combine_owned(w.clone()));
            new(o, "mplus", || v.mplus(&w));
            new(o, "mplus_owned", || v.clone().mplus_owned(w.clone()));
        },
        "combine_rev" => {
            let w: C = Choice::of_many(xs());
            new(o, "combine", || w.combine(v));
            new(o, "combine_owned", || w.clone().combine_owned(v.clone()));
        },
        "cmp" => {
            for (name, w) in makes(&xs()) {
                see(o, name, || {
                    use std::cmp::Ordering::*;
                    let c = v.cmp(&w);
                    assert_eq!(v.partial_cmp(&w), Some(c));
                    assert_eq!(w.cmp(v), c.reverse());
                    assert_eq!(*v == w, c == Equal);
                    assert!(c != Equal || hash(v) == hash(&w));
                    val(match c {
                        Less => "lt",
                        Equal => "eq",
                        Greater => "gt",
                    })
                });
            }
        },
        "first" => {
            see(o, "first", || opt(v.first().copied()));
            see(o, "iter", || opt(v.iter().next().copied()));
        },
        "alternatives" => {
            see(o, "alternatives", || lst(v.alternatives().iter().copied()));
            see(o, "iter_alternatives", || lst(v.iter_alternatives().copied()));
        },
        "len" => see(o, "len", || val(v.len())),
        "is_empty" => see(o, "is_empty", || val(v.is_empty().to_string())),
        "has_alternatives" => see(o, "has_alternatives", || val(v.has_alternatives().to_string())),
        "to_vec" => {
            see(o, "to_vec", || lst(v.to_vec()));
            see(o, "into", || lst(Vec::<i64>::from(v.clone())));
            see(o, "iter", || lst(v.iter().copied()));
            see(o, "into_iter", || lst(v.clone()));
            see(o, "for in &", || lst(v.into_iter().copied()));
        },
        "dedup" => new(o, "dedup", || v.dedup()),
        "dedup_class" => {
            let w = v.fmap(|x| class(n(), *x));
            new(o, "dedup", || w.dedup().fmap(|c| c.0));
            new(o, "dedup_by_key", || w.dedup_by_key(|c| *c).fmap(|c| c.0));
        },
        "cmp_class" => {
            let w = v.fmap(|x| class(n(), *x));
            for (name, u) in makes(&ints(&a[1])) {
                let u = u.fmap_owned(|x| class(n(), x));
                see(o, name, || {
                    let c = w.cmp(&u);
                    assert_eq!(w.partial_cmp(&u), Some(c));
                    assert_eq!(u.cmp(&w), c.reverse());
                    assert_eq!(w == u, c.is_eq());
                    let hash = |c: &Choice<Cl>| {
                        let mut h = DefaultHasher::new();
                        c.hash(&mut h);
                        h.finish()
                    };
                    assert!(c.is_ne() || hash(&w) == hash(&u));
                    val(if c.is_eq() { "eq" } else if c.is_lt() { "lt" } else { "gt" })
                });
            }
        },
        "eq_part" => {
            let w = v.fmap(|x| Pt(*x));
            for (name, u) in makes(&xs()) {
                let u = u.fmap_owned(Pt);
                see(o, name, || val((w == u && !(w != u)).to_string()));
            }
            if xs() == raw(v) {
                see(o, "a clone", || val((w == w.clone()).to_string()));
                see(o, "itself", || val((w == w).to_string()));
            }
        },
        "fold" => {
            let g = |acc: String, x: &i64| format!("({acc}<{})", on(*x));
            see(o, "fold", || val(v.fold("z".to_string(), g)));
            see(o, "fold_left", || val(v.fold_left(&"z".to_string(), |acc, x| g(acc.clone(), x))));
        },
        "display" => see(o, "to_string", || val(v.to_string())),
        "find_first" => {
            let p = n();
            see(o, "find_first", || opt(v.find_first(|x| holds(p, on(**x))).copied()));
        },
        "filter" => new(o, "filter", || v.filter(|x| holds(n(), on(*x)))),
        "filter_values" => new(o, "filter_values", || v.filter_values(|x| holds(n(), on(*x)))),
        "dedup_by_key" => {
            new(o, "dedup_by_key", || v.dedup_by_key(|x| key(n(), on(*x))));
            new(o, "dedup_by_key, keys that share a hash", || v.dedup_by_key(|x| class(n(), on(*x))));
        },
        "to_map_with_key" => see(o, "to_map_with_key", || {
            let m = v.to_map_with_key(|x| key(n(), *x));
            let mut kv: Vec<_> = m.into_iter().collect();
            kv.sort();
            let m = v.to_map_with_key(|x| class(n(), *x));
            let mut kc: Vec<_> = m.into_iter().map(|(k, x)| (k.1, x)).collect();
            kc.sort();
            assert_eq!(kv, kc);
            J::Array(std::iter::once(json!("list")).chain(kv.into_iter().map(|(k, x)| json!([k, x]))).collect())
        }),
        "remove_alternative" => new(o, op_name(op), || v.clone().remove_alternative(us(&a[0]))),
        "try_remove_alternative" => trying(o, op_name(op), || v.clone().try_remove_alternative(us(&a[0]))),
        "swap_with_alternative" => new(o, op_name(op), || v.clone().swap_with_alternative(us(&a[0]))),
        "try_swap_with_alternative" => trying(o, op_name(op), || v.clone().try_swap_with_alternative(us(&a[0]))),
        "fmap" => {
            new(o, "fmap", || v.fmap(|x| f(n(), on(*x))));
            new(o, "fmap_owned", || v.clone().fmap_owned(|x| f(n(), on(x))));
        },
        "fmap_alternatives" => new(o, op_name(op), || v.fmap_alternatives(|x| f(n(), on(*x)))),
        "flatten" => {
            let w = v.fmap(|x| part(n(), *x));
            new(o, "flatten", || w.flatten());
        },
        "try_flatten" => {
            let w = v.fmap(|x| part(n(), *x));
            trying(o, "try_flatten", || w.try_flatten());
        },
        "flatten_sorted" => {
            let w = v.fmap(|x| part(n(), *x));
            new(o, "flatten_sorted", || w.flatten_sorted());
        },
        "bind" => {
            let k = |x: &i64| C::of_many(part(n(), on(*x)));
            new(o, "bind", || v.bind(k));
            new(o, "bind_owned", || v.clone().bind_owned(|x| k(&x)));
            new(o, "bind_lazy", || v.bind_lazy(k).collect());
            new(o, "join", || v.fmap(k).join());
            new(o, "join_owned", || v.fmap(k).join_owned());
            new(o, "collect", || v.fmap(k).into_iter().collect());
        },
        "bind_take" => {
            let k = |x: &i64| C::of_many(part(n(), on(*x)));
            see(o, "bind_lazy, the first of it", || lst(v.bind_lazy(k).take(us(&a[1]))));
            see(o, "bind_lazy, asked one by one", || {
                let mut it = v.bind_lazy(k);
                lst((0..us(&a[1])).map_while(|_| it.next()).collect::<Vec<_>>())
            });
        },
        "sequence" => see(o, "sequence", || {
            let w = v.fmap(|x| if refuses(n(), *x) { None } else { Some(*x) });
            match w.sequence() {
                None => json!(["none"]),
                Some(c) => json!(["some", lst(raw(&c))]),
            }
        }),
        "sum" => {
            let ws: Vec<C> = arr(&a[0]).iter().map(|w| Choice::of_many(ints(w))).collect();
            let all: Vec<C> = std::iter::once(v.clone()).chain(ws).collect();
            new(o, "sum", || all.iter().cloned().sum());
            new(o, "collect", || all.iter().cloned().collect());
            new(o, "collect, no bound", || src(&all, 2).collect());
            new(o, "collect, part bound", || src(&all, 4).collect());
        },
        _ => panic!("{op}"),
    }
    std::mem::take(o)
}
fn op_name(op: &str) -> &'static str {
    Box::leak(op.to_string().into_boxed_str())
}

const OPS: &[(&str, char)] = &[
    ("make", 'x'), ("add_alternatives", 'x'), ("combine", 'x'), ("combine_rev", 'x'), ("cmp", 'x'), ("first", '-'), ("alternatives", '-'),
    ("len", '-'), ("is_empty", '-'), ("has_alternatives", '-'), ("to_vec", '-'), ("dedup", '-'), ("dedup_class", 'k'), ("cmp_class", 'K'), ("eq_part", 'e'), ("fold", '-'), ("display", '-'),
    ("find_first", 'p'), ("filter", 'p'), ("filter_values", 'p'), ("dedup_by_key", 'k'), ("to_map_with_key", 'k'),
    ("remove_alternative", 'i'), ("try_remove_alternative", 'i'), ("swap_with_alternative", 'i'), ("try_swap_with_alternative", 'i'),
    ("fmap", 'f'), ("fmap_alternatives", 'f'), ("flatten", 'q'), ("try_flatten", 'q'), ("flatten_sorted", 'q'), ("bind", 'q'), ("bind_take", 'Q'),
    ("sequence", 's'), ("sum", 'W'), ("add_alternatives", 'x'), ("combine", 'x'), ("combine_rev", 'x'),
];
fn xs(r: &mut Rng) -> J {
    let n = if r.chance(1, 16) { 25 + r.below(60) } else if r.chance(1, 4) { r.size(14) } else { r.below(4) };
    (0..n).map(|_| json!(r.below(6))).collect()
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let mut seen = std::collections::HashSet::new();
            for c in cases(a.str("cases")) {
                if !seen.insert(c.to_string()) {
                    continue;
                }
                rep.cases += 1;
                let (op, xs) = (s(&c["op"]), ints(&c["v"]));
                for (made, v) in makes(&xs) {
                    for f in forms(&v, op, arr(&c["a"])) {
                        let what = format!("{} on a choice made by {made}", f.name);
                        rep.check(op, &c, &what, &c["r"], &f.r);
                        if let Some(n) = f.v {
                            rep.check(op, &c, &what, &c["n"], &json!(raw(&n)));
                        }
                        if c["c"] != json!(["?"]) {
                            rep.check(op, &c, &format!("closures called by {what}"), &c["c"], &json!(f.c));
                        }
                        rep.check(op, &c, &format!("the operand after {what}"), &c["v"], &json!(raw(&v)));
                    }
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            for _ in 0..a.num("n", 100) {
                let mut v: C = Choice::new_empty();
                let mut evs = Vec::new();
                while evs.len() < a.num("len", 30) as usize {
                    let (op, sort) = *r.pick(OPS);
                    if op == "make" && !evs.is_empty() && r.chance(4, 5) {
                        continue;
                    }
                    let arg: Vec<J> = match sort {
                        '-' => vec![],
                        'x' => vec![xs(&mut r)],
                        'i' => vec![json!(r.below(v.len() + 2))],
                        'p' => vec![json!(*r.pick(&["even", "small", "all", "none"]))],
                        'k' => vec![json!(*r.pick(&["id", "mod", "one", "half"]))],
                        'K' => {
                            let ys = if r.chance(1, 2) { xs(&mut r) } else { raw(&v).iter().map(|x| json!(x ^ r.below(2) as i64)).collect() };
                            vec![json!(*r.pick(&["mod", "half", "half"])), ys]
                        },
                        'e' if r.chance(1, 2) => vec![json!(raw(&v))],
                        'e' => vec![xs(&mut r)],
                        'f' => vec![json!(*r.pick(&["f", "g", "neg"]))],
                        'q' => vec![json!(*r.pick(&["two", "down", "odd", "last", "nil"]))],
                        'Q' => vec![json!(*r.pick(&["two", "down", "odd", "last", "nil"])), json!(r.below(v.len() + 2))],
                        's' => vec![json!(*r.pick(&["never", "odd", "two", "always"]))],
                        'W' => vec![(0..r.below(4)).map(|_| xs(&mut r)).collect()],
                        _ => panic!("{sort}"),
                    };
                    // lists stay within what TLC handles quickly, numbers within its integers
                    if v.len() > 110 && matches!(op, "add_alternatives" | "combine" | "combine_rev" | "bind" | "flatten" | "try_flatten" | "flatten_sorted" | "sum")
                        || matches!(op, "fmap" | "fmap_alternatives") && raw(&v).iter().any(|x| x.abs() > 1_000_000)
                        || matches!(op, "filter_values" | "bind" | "dedup_by_key") && r.chance(1, 2)
                    {
                        continue;
                    }
                    let fs = forms(&v, op, &arg);
                    let k = r.below(fs.len());
                    let f = fs.into_iter().nth(k).unwrap();
                    if let Some(n) = f.v {
                        v = n;
                    }
                    evs.push(json!({"op": op, "form": f.name, "a": arg, "r": f.r, "n": raw(&v), "c": f.c}));
                }
                tr.events += evs.len() as u64;
                tr.line(&json!({"evs": evs}));
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
