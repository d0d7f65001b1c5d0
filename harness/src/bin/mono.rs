//! Semigroups and monoids (spec/Mono.tla): each operation on the real instances.
#![allow(deprecated)]
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::first::First;
use rustica::datatypes::wrapper::last::Last;
use rustica::datatypes::wrapper::max::Max;
use rustica::datatypes::wrapper::min::Min;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::product::Product;
use rustica::datatypes::wrapper::sum::Sum;
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::{Monoid, MonoidExt, combine_all, mconcat, power, repeat};
use rustica::traits::semigroup::{Semigroup, SemigroupExt, combine_all_values, combine_values};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use vk::*;

/// A value and its plain form.
trait Enc: Sized {
    fn rd(v: &J) -> Self;
    fn sh(&self) -> J;
}
impl Enc for String {
    fn rd(v: &J) -> Self {
        s(v).to_string()
    }
    fn sh(&self) -> J {
        json!(self)
    }
}
impl Enc for i64 {
    fn rd(v: &J) -> Self {
        v.as_i64().unwrap()
    }
    fn sh(&self) -> J {
        json!(self)
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(T::rd).collect()
    }
    fn sh(&self) -> J {
        self.iter().map(T::sh).collect()
    }
}
impl<T: Enc + Clone> Enc for PersistentVector<T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(T::rd).collect()
    }
    fn sh(&self) -> J {
        self.iter().map(|x| x.sh()).collect()
    }
}
impl<T: Enc + Clone> Enc for Choice<T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(T::rd).collect()
    }
    fn sh(&self) -> J {
        self.iter().map(|x| x.sh()).collect()
    }
}
impl<T: Enc> Enc for Id<T> {
    fn rd(v: &J) -> Self {
        Id::new(T::rd(v))
    }
    fn sh(&self) -> J {
        self.as_ref().sh()
    }
}
impl<T: Enc + Ord + Hash> Enc for HashSet<T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(T::rd).collect()
    }
    fn sh(&self) -> J {
        let mut xs: Vec<&T> = self.iter().collect();
        xs.sort();
        xs.into_iter().map(T::sh).collect()
    }
}
impl<T: Enc + Ord> Enc for BTreeSet<T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(T::rd).collect()
    }
    fn sh(&self) -> J {
        self.iter().map(T::sh).collect()
    }
}
impl<T: Enc> Enc for HashMap<i64, T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(|p| (i64::rd(&p[0]), T::rd(&p[1]))).collect()
    }
    fn sh(&self) -> J {
        let mut xs: Vec<_> = self.iter().collect();
        xs.sort_by_key(|(k, _)| **k);
        xs.into_iter().map(|(k, x)| json!([k, x.sh()])).collect()
    }
}
impl<T: Enc> Enc for BTreeMap<i64, T> {
    fn rd(v: &J) -> Self {
        arr(v).iter().map(|p| (i64::rd(&p[0]), T::rd(&p[1]))).collect()
    }
    fn sh(&self) -> J {
        self.iter().map(|(k, x)| json!([k, x.sh()])).collect()
    }
}
impl<T: Enc> Enc for Option<T> {
    fn rd(v: &J) -> Self {
        arr(v).first().map(T::rd)
    }
    fn sh(&self) -> J {
        self.iter().map(T::sh).collect()
    }
}
impl<A: Enc, B: Enc> Enc for (A, B) {
    fn rd(v: &J) -> Self {
        (A::rd(&v[0]), B::rd(&v[1]))
    }
    fn sh(&self) -> J {
        json!([self.0.sh(), self.1.sh()])
    }
}
impl<A: Enc, B: Enc, C: Enc> Enc for (A, B, C) {
    fn rd(v: &J) -> Self {
        (A::rd(&v[0]), B::rd(&v[1]), C::rd(&v[2]))
    }
    fn sh(&self) -> J {
        json!([self.0.sh(), self.1.sh(), self.2.sh()])
    }
}
impl<A: Enc, B: Enc, C: Enc, D: Enc> Enc for (A, B, C, D) {
    fn rd(v: &J) -> Self {
        (A::rd(&v[0]), B::rd(&v[1]), C::rd(&v[2]), D::rd(&v[3]))
    }
    fn sh(&self) -> J {
        json!([self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh()])
    }
}
type W = Writer<Vec<i64>, String>;
impl Enc for W {
    fn rd(v: &J) -> Self {
        Writer::new(Vec::rd(&v[0]), s(&v[1]).to_string())
    }
    fn sh(&self) -> J {
        let (log, x) = self.clone().run();
        json!([log, x])
    }
}
type V = Validated<String, String>;
impl Enc for V {
    fn rd(v: &J) -> Self {
        if v[0] == "ok" { Validated::valid(s(&v[1]).into()) } else { Validated::invalid_many(arr(v)[1..].iter().map(|e| s(e).to_string())) }
    }
    fn sh(&self) -> J {
        match self {
            Validated::Valid(x) => json!(["ok", x]),
            Validated::Invalid(es) => std::iter::once(json!("err")).chain(es.iter().map(|e| json!(e))).collect(),
        }
    }
}
impl Enc for Predicate<i64> {
    fn rd(v: &J) -> Self {
        let t: Vec<bool> = arr(v).iter().map(|b| b.as_i64() == Some(1)).collect();
        Predicate::new(move |x: &i64| t[*x as usize])
    }
    fn sh(&self) -> J {
        (0..4).map(|x| json!(self.contains(&x) as i64)).collect()
    }
}
impl Enc for Cl {
    fn rd(v: &J) -> Self {
        let x = v.as_i64().unwrap();
        Cl(x, x.div_euclid(2))
    }
    fn sh(&self) -> J {
        json!(self.0)
    }
}
/// Whether combining keeps the left or the right of two equal payloads: either, but always the same.
fn other_tie(kind: &str) -> bool {
    let (p, q) = (Cl(2, 1), Cl(3, 1));
    let kept = match kind {
        "maxcl" | "maxcr" => Max(p).combine(&Max(q)).0.0,
        "mincl" | "mincr" => Min(p).combine(&Min(q)).0.0,
        _ => return false,
    };
    kind.ends_with('l') != (kept == 2)
}
/// A caller's own monoid: the required operations only.
#[derive(Clone, PartialEq)]
struct Own(String);
impl Enc for Own {
    fn rd(v: &J) -> Self {
        Own(s(v).to_string())
    }
    fn sh(&self) -> J {
        json!(self.0)
    }
}
impl Semigroup for Own {
    fn combine(&self, other: &Self) -> Self {
        Own(format!("{}{}", self.0, other.0))
    }
    fn combine_owned(self, other: Self) -> Self {
        Own(self.0 + &other.0)
    }
}
impl Monoid for Own {
    fn empty() -> Self {
        Own(String::new())
    }
}
macro_rules! wrapped {
    ($($w:ident),*) => {$(
        impl<T: Enc> Enc for $w<T> {
            fn rd(v: &J) -> Self { $w(Enc::rd(v)) }
            fn sh(&self) -> J { self.0.sh() }
        }
    )*};
}
wrapped!(Sum, Product, Min, Max, First, Last);

type Form = (&'static str, J);
fn add(out: &mut Vec<Form>, name: &'static str, g: impl FnOnce() -> J) {
    out.push((name, guard(g).unwrap_or(json!(["panic"]))));
}
fn val(x: J) -> J {
    json!(["val", x])
}

fn semi<T: Semigroup + Enc + Clone>(op: &str, a: &[J]) -> Vec<Form> {
    let mut o = Vec::new();
    let x = |i: usize| T::rd(&a[i]);
    let xs = |i: usize| arr(&a[i]).iter().map(T::rd).collect::<Vec<T>>();
    match op {
        "combine" => {
            let (p, q) = (x(0), x(1));
            add(&mut o, "combine", || val(p.combine(&q).sh()));
            add(&mut o, "the operands after combine", || {
                let r = p.combine(&q);
                assert_eq!((p.sh(), q.sh()), (a[0].clone(), a[1].clone()));
                val(r.sh())
            });
            add(&mut o, "combine_owned", || val(p.clone().combine_owned(q.clone()).sh()));
            add(&mut o, "combine_all of one", || val(p.clone().combine_all([q.clone()]).sh()));
            if a[0] == a[1] {
                add(&mut o, "combine with itself", || val(p.combine(&p).sh()));
            }
        },
        "assoc" => {
            let (p, q, r) = (x(0), x(1), x(2));
            add(&mut o, "combine, to the left", || val(p.combine(&q).combine(&r).sh()));
            add(&mut o, "combine, to the right", || val(p.combine(&q.combine(&r)).sh()));
            add(&mut o, "combine_owned, to the left", || val(p.clone().combine_owned(q.clone()).combine_owned(r.clone()).sh()));
            add(&mut o, "combine_owned, to the right", || val(p.clone().combine_owned(q.clone().combine_owned(r.clone())).sh()));
            add(&mut o, "combine and combine_owned", || val(p.combine(&q).combine_owned(r.clone()).sh()));
            add(&mut o, "in an option", || {
                let c = Some(p.clone()).combine(&None).combine_owned(Some(q.clone())).combine(&Some(r.clone()));
                val(c.unwrap().sh())
            });
            add(&mut o, "in a pair", || {
                let c = (p.clone(), q.clone()).combine(&(q.clone(), r.clone()));
                let d = (c.0, p.clone()).combine_owned((r.clone(), c.1));
                assert_eq!(d.0.sh(), d.1.sh());
                val(d.0.sh())
            });
        },
        "fold1" => {
            let p = x(0);
            add(&mut o, "combine_values", || val(combine_values(p.clone(), xs(1)).sh()));
            add(&mut o, "combine_all", || val(p.clone().combine_all(xs(1)).sh()));
            for (_, it) in srcs(&xs(1)) {
                add(&mut o, "combine_all of an iterator", || val(p.clone().combine_all(it).sh()));
            }
            add(&mut o, "combine_values, no bound", || val(combine_values(p.clone(), src(&xs(1), 2)).sh()));
            add(&mut o, "combine each", || val(xs(1).iter().fold(p.clone(), |acc, y| acc.combine(y)).sh()));
        },
        "fold" => {
            let opt = |r: Option<T>| r.map_or(json!(["none"]), |r| json!(["some", r.sh()]));
            add(&mut o, "combine_all_values", || opt(combine_all_values(xs(0))));
            for (_, it) in srcs(&xs(0)) {
                add(&mut o, "combine_all_values of an iterator", || opt(combine_all_values(it)));
            }
            add(&mut o, "combined options", || opt(xs(0).into_iter().fold(None, |acc, y| acc.combine_owned(Some(y)))));
        },
        "fold_owned" => {
            add(&mut o, "combine_all_owned", || val(T::combine_all_owned(xs(0)).sh()));
            for (_, it) in srcs(&xs(0)) {
                add(&mut o, "combine_all_owned of an iterator", || val(T::combine_all_owned(it).sh()));
            }
        },
        "combine_n" => {
            let n = us(&a[1]);
            add(&mut o, "combine_n", || val(x(0).combine_n(&n).sh()));
            add(&mut o, "combine_n_owned", || val(x(0).combine_n_owned(n).sh()));
        },
        _ => {},
    }
    o
}
fn monoid<T: Monoid + Enc + Clone>(op: &str, a: &[J]) -> Vec<Form> {
    let mut o = semi::<T>(op, a);
    let xs = || arr(&a[0]).iter().map(T::rd).collect::<Vec<T>>();
    match op {
        "concat" => {
            add(&mut o, "combine_all", || val(combine_all(xs()).sh()));
            for (_, it) in srcs(&xs()) {
                add(&mut o, "combine_all of an iterator", || val(combine_all(it).sh()));
            }
            add(&mut o, "mconcat", || val(mconcat(&xs()).sh()));
        },
        "power" => {
            let n = us(&a[1]);
            add(&mut o, "repeat", || val(repeat(T::rd(&a[0]), n).sh()));
            add(&mut o, "power", || val(power(T::rd(&a[0]), n).sh()));
        },
        "empty" => add(&mut o, "empty", || val(T::empty().sh())),
        _ => {},
    }
    o
}
fn monoid_eq<T: Monoid + Enc + Clone + PartialEq>(op: &str, a: &[J]) -> Vec<Form> {
    let mut o = monoid::<T>(op, a);
    if op == "is_empty" {
        add(&mut o, "is_empty_monoid", || val(json!(T::rd(&a[0]).is_empty_monoid().to_string())));
    }
    o
}
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn apf(f: &str, x: i64) -> i64 {
    if f == "f" { 2 * x + 1 } else { x - 7 }
}
trait Wr: Monoid + Enc + Clone + Ord + Hash + std::fmt::Debug + std::fmt::Display + AsRef<i64> + From<i64> + Identity<Source = i64> {}
impl<T: Monoid + Enc + Clone + Ord + Hash + std::fmt::Debug + std::fmt::Display + AsRef<i64> + From<i64> + Identity<Source = i64>> Wr for T {}
fn wrap<T: Wr>(op: &str, a: &[J], unwrap: fn(&T) -> i64, unwrap_or: fn(&T, i64) -> i64, fmap: fn(&T, &str) -> J, fmap_owned: fn(T, &str) -> J) -> Vec<Form> {
    let mut o = monoid_eq::<T>(op, a);
    let x = || T::rd(&a[0]);
    match op {
        "cmp" => {
            let (p, q) = (x(), T::rd(&a[1]));
            add(&mut o, "cmp", || {
                let c = p.cmp(&q);
                assert_eq!(q.cmp(&p), c.reverse());
                assert_eq!(p.partial_cmp(&q), Some(c));
                assert_eq!(p == q, c.is_eq());
                assert_eq!(p < q, c.is_lt());
                assert!(p != q || hash(&p) == hash(&q));
                val(json!(if c.is_eq() { "eq" } else if c.is_lt() { "lt" } else { "gt" }))
            });
        },
        "unwrap" => {
            add(&mut o, "unwrap", || val(unwrap(&x()).into()));
            add(&mut o, "as_ref", || val((*x().as_ref()).into()));
            add(&mut o, "value", || val((*x().value()).into()));
            add(&mut o, "into_value", || val(x().into_value().into()));
        },
        "unwrap_or" => add(&mut o, "unwrap_or", || val(unwrap_or(&x(), i64::rd(&a[1])).into())),
        "display" => add(&mut o, "display", || val(json!(x().to_string()))),
        "debug" => add(&mut o, "debug", || val(json!(format!("{:?}", x())))),
        "fmap" => {
            add(&mut o, "fmap", || val(fmap(&x(), s(&a[1]))));
            add(&mut o, "fmap_owned", || val(fmap_owned(x(), s(&a[1]))));
        },
        "from" => {
            add(&mut o, "from", || val(T::from(i64::rd(&a[0])).sh()));
            add(&mut o, "into", || {
                let w: T = i64::rd(&a[0]).into();
                val(w.sh())
            });
        },
        _ => {},
    }
    o
}
macro_rules! wr {
    ($w:ident, $op:expr, $a:expr) => {
        wrap::<$w<i64>>(
            $op,
            $a,
            |w| w.unwrap(),
            |w, d| w.unwrap_or(d),
            |w, f| w.fmap(|x| apf(f, *x)).sh(),
            |w, f| w.fmap_owned(|x| apf(f, x)).sh(),
        )
    };
}

fn forms(kind: &str, op: &str, a: &[J]) -> Vec<Form> {
    match kind {
        "own" => monoid_eq::<Own>(op, a),
        "str" => monoid_eq::<String>(op, a),
        "idstr" => monoid_eq::<Id<String>>(op, a),
        "vec" => monoid_eq::<Vec<i64>>(op, a),
        "idvec" => monoid_eq::<Id<Vec<i64>>>(op, a),
        "pvec" => monoid_eq::<PersistentVector<i64>>(op, a),
        "choice" => monoid_eq::<Choice<i64>>(op, a),
        "hset" => semi::<HashSet<i64>>(op, a),
        "bset" => semi::<BTreeSet<i64>>(op, a),
        "hmap" => semi::<HashMap<i64, String>>(op, a),
        "bmap" => semi::<BTreeMap<i64, String>>(op, a),
        "hmapsum" => semi::<HashMap<i64, Sum<i64>>>(op, a),
        "bmapsum" => semi::<BTreeMap<i64, Sum<i64>>>(op, a),
        "opt" => semi::<Option<String>>(op, a),
        "optopt" => semi::<Option<Option<String>>>(op, a),
        "pair" => semi::<(String, Sum<i64>)>(op, a),
        "triple" => semi::<(String, Vec<i64>, Option<String>)>(op, a),
        "quad" => semi::<(String, Sum<i64>, Max<i64>, Last<i64>)>(op, a),
        "writer" => {
            let mut o = monoid::<W>(op, a);
            if op == "is_empty" {
                add(&mut o, "empty or not", || val(json!((W::rd(&a[0]).sh() == W::empty().sh()).to_string())));
            }
            o
        },
        "validated" => monoid_eq::<V>(op, a),
        "sum" => wr!(Sum, op, a),
        "product" => wr!(Product, op, a),
        "min" => wr!(Min, op, a),
        "max" => wr!(Max, op, a),
        "first" => wr!(First, op, a),
        "last" => wr!(Last, op, a),
        "idsum" => monoid_eq::<Id<Sum<i64>>>(op, a),
        "maxcl" | "maxcr" => semi::<Max<Cl>>(op, a),
        "mincl" | "mincr" => semi::<Min<Cl>>(op, a),
        "pred" => monoid::<Predicate<i64>>(op, a),
        _ => panic!("{kind}"),
    }
}

const KINDS: &[&str] = &[
    "own", "str", "idstr", "vec", "pvec", "choice", "idvec", "hset", "bset", "hmap", "bmap", "hmapsum", "bmapsum", "opt", "optopt", "pair", "triple",
    "quad", "writer", "validated", "sum", "product", "min", "max", "first", "last", "idsum", "pred",
    "maxcl", "maxcr", "mincl", "mincr",
];
const OPS: &[(&str, &str)] = &[
    ("combine", "vv"), ("assoc", "vvv"), ("fold1", "vl"), ("fold", "l"), ("fold_owned", "l"), ("combine_n", "vn"), ("combine_n", "vn"),
    ("concat", "l"), ("power", "vn"), ("is_empty", "v"), ("cmp", "vv"), ("unwrap", "v"), ("display", "v"), ("debug", "v"), ("unwrap_or", "vx"),
    ("fmap", "vf"), ("from", "x"), ("empty", ""),
];
fn word(r: &mut Rng) -> J {
    json!((0..r.size(5)).map(|_| r.text(&["a", "b", "c"])).collect::<String>())
}
fn ints(r: &mut Rng, max: usize) -> Vec<i64> {
    (0..r.size(max)).map(|_| r.below(60) as i64 - 20).collect()
}
fn sorted(r: &mut Rng, max: usize) -> Vec<i64> {
    ints(r, max).into_iter().collect::<BTreeSet<_>>().into_iter().collect()
}
fn opt(r: &mut Rng, x: fn(&mut Rng) -> J) -> J {
    if r.chance(1, 3) { json!([]) } else { json!([x(r)]) }
}
fn int(r: &mut Rng) -> J {
    json!(r.below(2001) as i64 - 1000)
}
fn value(r: &mut Rng, kind: &str) -> J {
    match kind {
        "own" | "str" | "idstr" => word(r),
        "vec" | "choice" | "idvec" => json!(ints(r, 12)),
        "pvec" => json!(ints(r, 90)),
        "hset" | "bset" => json!(sorted(r, 30)),
        "hmap" | "bmap" => sorted(r, 15).into_iter().map(|k| json!([k, word(r)])).collect(),
        "hmapsum" | "bmapsum" => sorted(r, 15).into_iter().map(|k| json!([k, int(r)])).collect(),
        "opt" => opt(r, word),
        "optopt" => opt(r, |r| opt(r, word)),
        "pair" => json!([word(r), int(r)]),
        "triple" => json!([word(r), ints(r, 6), opt(r, word)]),
        "quad" => json!([word(r), int(r), int(r), opt(r, int)]),
        "writer" => json!([ints(r, 10), word(r)]),
        "validated" if r.chance(1, 3) => json!(["ok", word(r)]),
        "validated" => std::iter::once(json!("err")).chain((0..r.size(14)).map(|_| word(r))).collect(),
        "product" => json!(*r.pick(&[-2, -1, 0, 1, 2, 1, -1, 2])),
        "first" | "last" => opt(r, int),
        "maxcl" | "maxcr" | "mincl" | "mincr" => json!(r.below(9)),
        "pred" => (0..4).map(|_| json!(r.below(2))).collect(),
        _ => int(r),
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let mut seen = std::collections::HashSet::new();
            for c in cases(a.str("cases")) {
                if !seen.insert(c.to_string()) {
                    continue;
                }
                rep.cases += 1;
                let (kind, op) = (s(&c["m"]), s(&c["op"]));
                if other_tie(kind) {
                    continue;
                }
                let fs = forms(kind, op, arr(&c["a"]));
                assert!(!fs.is_empty(), "{kind} {op}");
                for (name, r) in fs {
                    rep.check(&format!("{kind} {op}"), &c, name, &c["r"], &r);
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            let kinds: Vec<&str> = a.opt("kinds").map_or(KINDS.to_vec(), |k| k.split(',').collect());
            for _ in 0..a.num("n", 100) {
                for kind in kinds.iter().filter(|k| !other_tie(k)) {
                    let mut evs = Vec::new();
                    while evs.len() < a.num("len", 12) as usize {
                        let (op, sig) = *r.pick(OPS);
                        let arg: Vec<J> = sig
                            .chars()
                            .map(|c| match c {
                                'v' => value(&mut r, kind),
                                'l' if *kind != "product" => (0..r.size(9)).map(|_| value(&mut r, kind)).collect(),
                                'l' => (0..r.below(9)).map(|_| value(&mut r, kind)).collect(),
                                'n' if *kind != "product" && r.chance(1, 3) => json!(r.below(70)),
                                'n' => json!(r.below(9)),
                                'x' => int(&mut r),
                                _ => json!(*r.pick(&["f", "g"])),
                            })
                            .collect();
                        let fs = forms(kind, op, &arg);
                        if fs.is_empty() {
                            continue;
                        }
                        let (name, v) = r.pick(&fs).clone();
                        evs.push(json!({"m": kind, "op": op, "form": name, "a": arg, "r": v}));
                    }
                    tr.events += evs.len() as u64;
                    tr.line(&json!({"evs": evs}));
                }
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
