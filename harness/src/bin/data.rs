//! Containers (spec/Data.tla): every operation of every container, in every
//! borrowed, owned and derived form, must give what the specification says.
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::pvec::PersistentVector;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::comonad::Comonad;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::contravariant_functor::{ContravariantFunctor, ContravariantFunctorExt};
use rustica::traits::hkt::{BinaryHKT, HKT};
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::traits::pure::{Pure, PureExt, PureType};
use serde_json::json;
use std::cell::{Cell, RefCell};
use vk::*;

thread_local! { static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }

fn ap(f: &str, x: &str) -> String {
    let r = format!("{f}({x})");
    LOG.with(|l| l.borrow_mut().push(r.clone()));
    r
}
fn ap2(f: &str, x: &str, y: &str) -> String {
    format!("{f}({x},{y})")
}
fn ap3(f: &str, x: &str, y: &str, z: &str) -> String {
    format!("{f}({x},{y},{z})")
}
fn fr(n: &J) -> impl Fn(&String) -> String + Clone + 'static + use<> {
    let n = s(n).to_string();
    move |x: &String| ap(&n, x)
}
fn fo(n: &J) -> impl Fn(String) -> String + Clone + 'static + use<> {
    let n = s(n).to_string();
    move |x: String| ap(&n, &x)
}
fn refuses(k: &str, x: &str) -> bool {
    k == "e" || (k == "c" && x == "a")
}
/// A step that may refuse.
fn step(k: &str, x: &str) -> Result<String, String> {
    if refuses(k, x) { Err(ap("e", x)) } else { Ok(ap(k, x)) }
}
fn holds(p: &str, x: &str) -> bool {
    match p {
        "isA" => x == "a",
        "notA" => x != "a",
        "all" => true,
        "none" => false,
        _ => panic!("{p}"),
    }
}
/// The elements a fold hands to its closure, in order; none after the one that decides.
#[derive(Default)]
struct Asked {
    n: Cell<usize>,
    over: Cell<bool>,
}
impl Asked {
    fn see<T>(&self, x: &str, last: bool, r: T) -> T {
        if !self.over.get() {
            self.n.set(self.n.get() + 1);
            LOG.with(|l| l.borrow_mut().push(format!("{}?{x}", self.n.get())));
            self.over.set(last);
        }
        r
    }
}
fn js(x: &String) -> J {
    json!(x)
}
fn st(v: &J) -> String {
    s(v).to_string()
}
fn opt(x: Option<String>) -> J {
    match x {
        Some(x) => json!(["some", x]),
        None => json!(["none"]),
    }
}
fn val(x: impl ToString) -> J {
    json!(["val", x.to_string()])
}

type Forms = Vec<(&'static str, J, Vec<String>)>;
fn form(out: &mut Forms, name: &'static str, f: impl FnOnce() -> J) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = guard(f).unwrap_or_else(|_| json!(["panic"]));
    out.push((name, r, LOG.with(|l| l.take())));
}

// ---- reading and showing values
type Res<T> = Result<T, String>;
type Ei<T> = Either<String, T>;
type Va<T> = Validated<String, T>;
type PV<T> = PersistentVector<T>;

trait Shape {
    type Item;
    fn mk(v: &J, f: &dyn Fn(&J) -> Self::Item) -> Self;
    fn sh(&self, f: &dyn Fn(&Self::Item) -> J) -> J;
}
fn tag(v: &J) -> &str {
    s(&v[0])
}
fn rest(v: &J) -> &[J] {
    &arr(v)[1..]
}
fn list(t: &str, xs: impl Iterator<Item = J>) -> J {
    J::Array(std::iter::once(json!(t)).chain(xs).collect())
}
impl<T> Shape for Option<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        if tag(v) == "ok" { Some(f(&v[1])) } else { None }
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        match self {
            Some(x) => json!(["ok", f(x)]),
            None => json!(["err"]),
        }
    }
}
impl<T> Shape for Maybe<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        if tag(v) == "ok" { Maybe::Just(f(&v[1])) } else { Maybe::Nothing }
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        match self {
            Maybe::Just(x) => json!(["ok", f(x)]),
            Maybe::Nothing => json!(["err"]),
        }
    }
}
impl<T> Shape for Res<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        if tag(v) == "ok" { Ok(f(&v[1])) } else { Err(st(&v[1])) }
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        match self {
            Ok(x) => json!(["ok", f(x)]),
            Err(e) => json!(["err", e]),
        }
    }
}
impl<T> Shape for Ei<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        if tag(v) == "ok" { Either::Right(f(&v[1])) } else { Either::Left(st(&v[1])) }
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        match self {
            Either::Right(x) => json!(["ok", f(x)]),
            Either::Left(e) => json!(["err", e]),
        }
    }
}
impl<T> Shape for Va<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        if tag(v) == "ok" { Validated::Valid(f(&v[1])) } else { Validated::Invalid(rest(v).iter().map(st).collect()) }
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        match self {
            Validated::Valid(x) => json!(["ok", f(x)]),
            Validated::Invalid(e) => list("err", e.iter().map(|e| json!(e))),
        }
    }
}
impl<T> Shape for Id<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        Id::new(f(&v[1]))
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        json!(["ok", f(self.as_ref())])
    }
}
impl<T> Shape for Vec<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        rest(v).iter().map(f).collect()
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        list("list", self.iter().map(f))
    }
}
impl<T> Shape for Box<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        Box::new(f(&v[1]))
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        json!(["ok", f(self)])
    }
}
impl<T: Clone> Shape for PV<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        rest(v).iter().map(f).collect()
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        list("list", self.iter().map(f))
    }
}
impl<T> Shape for Choice<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        let mut it = rest(v).iter().map(f);
        match it.next() {
            None => Choice::new_empty(),
            Some(x) => Choice::new(x, it.collect::<Vec<_>>()),
        }
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        // the parts must fit together
        let v: Vec<J> = self.first().into_iter().chain(self.alternatives()).map(f).collect();
        let w: Vec<J> = self.iter().map(f).collect();
        if v != w || self.len() != v.len() || self.is_empty() != v.is_empty() {
            return json!(["broken", v, w, self.len()]);
        }
        list("list", v.into_iter())
    }
}
fn sh<C: Shape<Item = String>>(c: &C) -> J {
    c.sh(&js)
}
fn mk<C: Shape<Item = String>>(v: &J) -> C {
    C::mk(v, &st)
}
// ---- a caller's own types: only the required operations are given, lawfully
#[derive(Clone)]
struct OwnL<T>(Vec<T>);
#[derive(Clone)]
struct OwnR<T>(Result<T, String>);
impl<T> Shape for OwnL<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        OwnL(rest(v).iter().map(f).collect())
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        list("list", self.0.iter().map(f))
    }
}
impl<T> Shape for OwnR<T> {
    type Item = T;
    fn mk(v: &J, f: &dyn Fn(&J) -> T) -> Self {
        OwnR(<Res<T> as Shape>::mk(v, f))
    }
    fn sh(&self, f: &dyn Fn(&T) -> J) -> J {
        self.0.sh(f)
    }
}
impl<T> HKT for OwnL<T> {
    type Source = T;
    type Output<U> = OwnL<U>;
}
impl<T> HKT for OwnR<T> {
    type Source = T;
    type Output<U> = OwnR<U>;
}
impl<T> Functor for OwnL<T> {
    fn fmap<B: Clone, F: Fn(&T) -> B>(&self, f: F) -> OwnL<B> {
        OwnL(self.0.iter().map(f).collect())
    }
    fn fmap_owned<B: Clone, F: Fn(T) -> B>(self, f: F) -> OwnL<B> {
        OwnL(self.0.into_iter().map(f).collect())
    }
}
impl<T> Functor for OwnR<T> {
    fn fmap<B: Clone, F: Fn(&T) -> B>(&self, f: F) -> OwnR<B> {
        OwnR(self.0.as_ref().map(f).map_err(String::clone))
    }
    fn fmap_owned<B: Clone, F: Fn(T) -> B>(self, f: F) -> OwnR<B> {
        OwnR(self.0.map(f))
    }
}
impl<T> FunctorExt for OwnL<T> {
    fn filter_map<B, F: Fn(&T) -> Option<B>>(&self, f: F) -> OwnL<B> {
        OwnL(self.0.iter().filter_map(f).collect())
    }
}
impl<T> FunctorExt for OwnR<T> {
    fn filter_map<B, F: Fn(&T) -> Option<B>>(&self, f: F) -> OwnR<B> {
        OwnR(self.0.as_ref().map_err(String::clone).and_then(|x| f(x).ok_or(String::new())))
    }
}
impl<T> Identity for OwnL<T> {
    fn value(&self) -> &T {
        &self.0[0]
    }
    fn into_value(self) -> T {
        self.0.into_iter().next().unwrap()
    }
}
impl<T> Identity for OwnR<T> {
    fn value(&self) -> &T {
        self.0.as_ref().unwrap()
    }
    fn into_value(self) -> T {
        self.0.unwrap()
    }
}
impl<T> Pure for OwnL<T> {
    fn pure<U: Clone>(v: &U) -> OwnL<U> {
        OwnL(vec![v.clone()])
    }
}
impl<T> Pure for OwnR<T> {
    fn pure<U: Clone>(v: &U) -> OwnR<U> {
        OwnR(Ok(v.clone()))
    }
}
impl<A> Applicative for OwnL<A> {
    fn apply<T, B: Clone>(&self, v: &OwnL<T>) -> OwnL<B>
    where
        A: Fn(&T) -> B,
    {
        OwnL(self.0.iter().flat_map(|f| v.0.iter().map(move |x| f(x))).collect())
    }
    fn lift2<T, U, C, F>(f: F, a: &OwnL<T>, b: &OwnL<U>) -> OwnL<C>
    where
        F: Fn(&T, &U) -> C,
    {
        let mut o = vec![];
        for x in &a.0 {
            for y in &b.0 {
                o.push(f(x, y));
            }
        }
        OwnL(o)
    }
    fn lift3<T, U, V, D, F>(f: F, a: &OwnL<T>, b: &OwnL<U>, c: &OwnL<V>) -> OwnL<D>
    where
        F: Fn(&T, &U, &V) -> D,
    {
        let mut o = vec![];
        for x in &a.0 {
            for y in &b.0 {
                for z in &c.0 {
                    o.push(f(x, y, z));
                }
            }
        }
        OwnL(o)
    }
    fn apply_owned<T: Clone, B: Clone>(self, v: OwnL<T>) -> OwnL<B>
    where
        A: Fn(T) -> B,
    {
        OwnL(self.0.iter().flat_map(|f| v.0.iter().cloned().map(move |x| f(x))).collect())
    }
    fn lift2_owned<T: Clone, U: Clone, C, F: Fn(T, U) -> C>(f: F, a: OwnL<T>, b: OwnL<U>) -> OwnL<C> {
        let mut o = vec![];
        for x in &a.0 {
            for y in &b.0 {
                o.push(f(x.clone(), y.clone()));
            }
        }
        OwnL(o)
    }
    fn lift3_owned<T: Clone, U: Clone, V: Clone, D, F: Fn(T, U, V) -> D>(f: F, a: OwnL<T>, b: OwnL<U>, c: OwnL<V>) -> OwnL<D> {
        let mut o = vec![];
        for x in &a.0 {
            for y in &b.0 {
                for z in &c.0 {
                    o.push(f(x.clone(), y.clone(), z.clone()));
                }
            }
        }
        OwnL(o)
    }
}
impl<A> Applicative for OwnR<A> {
    fn apply<T, B: Clone>(&self, v: &OwnR<T>) -> OwnR<B>
    where
        A: Fn(&T) -> B,
    {
        OwnR(self.0.as_ref().map_err(String::clone).and_then(|f| v.0.as_ref().map(f).map_err(String::clone)))
    }
    fn lift2<T, U, C, F: Fn(&T, &U) -> C>(f: F, a: &OwnR<T>, b: &OwnR<U>) -> OwnR<C> {
        OwnR(match (&a.0, &b.0) {
            (Err(e), _) | (_, Err(e)) => Err(e.clone()),
            (Ok(x), Ok(y)) => Ok(f(x, y)),
        })
    }
    fn lift3<T, U, V, D, F: Fn(&T, &U, &V) -> D>(f: F, a: &OwnR<T>, b: &OwnR<U>, c: &OwnR<V>) -> OwnR<D> {
        OwnR(match (&a.0, &b.0, &c.0) {
            (Err(e), ..) | (_, Err(e), _) | (_, _, Err(e)) => Err(e.clone()),
            (Ok(x), Ok(y), Ok(z)) => Ok(f(x, y, z)),
        })
    }
    fn apply_owned<T, B>(self, v: OwnR<T>) -> OwnR<B>
    where
        A: Fn(T) -> B,
    {
        OwnR(self.0.and_then(|f| v.0.map(f)))
    }
    fn lift2_owned<T, U, C, F: Fn(T, U) -> C>(f: F, a: OwnR<T>, b: OwnR<U>) -> OwnR<C> {
        OwnR(match (a.0, b.0) {
            (Err(e), _) | (_, Err(e)) => Err(e),
            (Ok(x), Ok(y)) => Ok(f(x, y)),
        })
    }
    fn lift3_owned<T, U, V, D, F: Fn(T, U, V) -> D>(f: F, a: OwnR<T>, b: OwnR<U>, c: OwnR<V>) -> OwnR<D> {
        OwnR(match (a.0, b.0, c.0) {
            (Err(e), ..) | (_, Err(e), _) | (_, _, Err(e)) => Err(e),
            (Ok(x), Ok(y), Ok(z)) => Ok(f(x, y, z)),
        })
    }
}
impl<T> Monad for OwnL<T> {
    fn join<U>(&self) -> OwnL<U>
    where
        T: Clone + Into<OwnL<U>>,
    {
        OwnL(self.0.iter().flat_map(|x| x.clone().into().0).collect())
    }
    fn bind<U, F: Fn(&T) -> OwnL<U>>(&self, f: F) -> OwnL<U> {
        OwnL(self.0.iter().flat_map(|x| f(x).0).collect())
    }
    fn bind_owned<U, F: Fn(T) -> OwnL<U>>(self, f: F) -> OwnL<U> {
        OwnL(self.0.into_iter().flat_map(|x| f(x).0).collect())
    }
    fn join_owned<U>(self) -> OwnL<U>
    where
        T: Into<OwnL<U>>,
    {
        OwnL(self.0.into_iter().flat_map(|x| x.into().0).collect())
    }
}
impl<T> Monad for OwnR<T> {
    fn join<U>(&self) -> OwnR<U>
    where
        T: Clone + Into<OwnR<U>>,
    {
        OwnR(self.0.clone().and_then(|x| x.into().0))
    }
    fn bind<U, F: Fn(&T) -> OwnR<U>>(&self, f: F) -> OwnR<U> {
        OwnR(self.0.as_ref().map_err(String::clone).and_then(|x| f(x).0))
    }
    fn bind_owned<U, F: Fn(T) -> OwnR<U>>(self, f: F) -> OwnR<U> {
        OwnR(self.0.and_then(|x| f(x).0))
    }
    fn join_owned<U>(self) -> OwnR<U>
    where
        T: Into<OwnR<U>>,
    {
        OwnR(self.0.and_then(|x| x.into().0))
    }
}
impl<T> Foldable for OwnL<T> {
    fn fold_left<U: Clone, F: Fn(&U, &T) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().fold(init.clone(), |a, x| f(&a, x))
    }
    fn fold_right<U: Clone, F: Fn(&T, &U) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().rfold(init.clone(), |a, x| f(x, &a))
    }
}
impl<T> Foldable for OwnR<T> {
    fn fold_left<U: Clone, F: Fn(&U, &T) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().fold(init.clone(), |a, x| f(&a, x))
    }
    fn fold_right<U: Clone, F: Fn(&T, &U) -> U>(&self, init: &U, f: F) -> U {
        self.0.iter().rfold(init.clone(), |a, x| f(x, &a))
    }
}
/// A contravariant type of a caller's own: says what it would be given.
struct Show<T>(Box<dyn Fn(&T) -> String>);
impl<T> HKT for Show<T> {
    type Source = T;
    type Output<U> = Show<U>;
}
fn boxed<'a, U>(f: impl Fn(&U) -> String + 'a) -> Show<U> {
    let b: Box<dyn Fn(&U) -> String + 'a> = Box::new(f);
    // the callers below keep nothing borrowed, and drop the result at once
    Show(unsafe { std::mem::transmute::<Box<dyn Fn(&U) -> String + 'a>, Box<dyn Fn(&U) -> String + 'static>>(b) })
}
impl ContravariantFunctor for Show<String> {
    fn contramap<U: Clone, F: Fn(&U) -> String>(&self, f: F) -> Show<U> {
        boxed(move |x: &U| ap("p", &f(x)))
    }
    fn contramap_owned<U: Clone, F: Fn(U) -> String>(self, f: F) -> Show<U> {
        boxed(move |x: &U| ap("p", &f(x.clone())))
    }
}
#[derive(Clone)]
struct Word(String);
impl From<Word> for String {
    fn from(w: Word) -> String {
        format!("into({})", w.0)
    }
}
impl ContravariantFunctor for Show<Word> {
    fn contramap<U: Clone, F: Fn(&U) -> Word>(&self, f: F) -> Show<U> {
        boxed(move |x: &U| f(x).0)
    }
    fn contramap_owned<U: Clone, F: Fn(U) -> Word>(self, f: F) -> Show<U> {
        boxed(move |x: &U| f(x.clone()).0)
    }
}
/// Natural transformations that give only the borrowed direction.
struct Same;
impl<F: HKT> NaturalTransformation<F, F> for Same {
    fn transform<A: Clone>(&self, fa: &F::Output<A>) -> F::Output<A>
    where
        F::Output<A>: Clone,
    {
        fa.clone()
    }
}

/// What the effectful function k answers for x, as a value of the specification.
fn kl(kind: &str, k: &str, x: &str) -> J {
    let islist = matches!(kind, "vec" | "choice" | "pvec" | "ownlist");
    let pure = |x: String| if islist { json!(["list", x]) } else { json!(["ok", x]) };
    let called = if k == "d" { ap("d", x) } else { ap(k, x) };
    match k {
        "s" => pure(called),
        "d" if islist => json!(["list", format!("d1({x})"), format!("d2({x})")]),
        "d" => pure(called),
        "c" if x != "a" => pure(called),
        _ if islist => json!(["list"]),
        _ if matches!(kind, "option" | "maybe") => json!(["err"]),
        _ if kind == "validated" && k == "e" => json!(["err", format!("e1({x})"), format!("e2({x})")]),
        _ => json!(["err", format!("e({x})")]),
    }
}

macro_rules! functor {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "fmap" => {
                form(o, "fmap", || sh(&Functor::fmap(&mk::<$C<String>>(&a[0]), fr(&a[1]))));
                form(o, "fmap_owned", || sh(&Functor::fmap_owned(mk::<$C<String>>(&a[0]), fo(&a[1]))));
            },
            "replace" => {
                form(o, "replace", || sh(&mk::<$C<String>>(&a[0]).replace(&st(&a[1]))));
                form(o, "replace_owned", || sh(&mk::<$C<String>>(&a[0]).replace_owned(st(&a[1]))));
            },
            "void" => {
                form(o, "void", || Functor::void(&mk::<$C<String>>(&a[0])).sh(&|_| json!("()")));
                form(o, "void_owned", || Functor::void_owned(mk::<$C<String>>(&a[0])).sh(&|_| json!("()")));
            },
            _ => {},
        }
    }};
}
macro_rules! functor_ext {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "try_map_or" => form(o, "try_map_or", || sh(&mk::<$C<String>>(&a[0]).try_map_or(st(&a[1]), |x: &String| step(s(&a[2]), x)))),
            "try_map_or_else" => form(o, "try_map_or_else", || {
                sh(&mk::<$C<String>>(&a[0]).try_map_or_else(|e: &String| ap(s(&a[1]), e), |x: &String| step(s(&a[2]), x)))
            }),
            "filter_map" => form(o, "filter_map", || sh(&FunctorExt::filter_map(&mk::<$C<String>>(&a[0]), |x: &String| step(s(&a[1]), x).ok()))),
            _ => {},
        }
    }};
}
macro_rules! identity {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        if $op == "value" {
            form(o, "value", || val(Identity::value(&mk::<$C<String>>(&a[0]))));
            form(o, "into_value", || val(Identity::into_value(mk::<$C<String>>(&a[0]))));
            if !matches!(tag(&a[0]), "err") && arr(&a[0]).len() > 1 {
                form(o, "try_value", || val(mk::<$C<String>>(&a[0]).try_value().unwrap()));
                form(o, "try_into_value", || val(mk::<$C<String>>(&a[0]).try_into_value().unwrap()));
            }
        }
    }};
}
macro_rules! pure {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "pure" => {
                form(o, "pure", || sh(&<$C<u8> as Pure>::pure(&st(&a[0]))));
                form(o, "pure_owned", || sh(&<$C<u8> as Pure>::pure_owned(st(&a[0]))));
                form(o, "to_pure", || sh(&st(&a[0]).to_pure::<$C<u8>>()));
                form(o, "to_pure_owned", || sh(&st(&a[0]).to_pure_owned::<$C<u8>>()));
                form(o, "lift_other", || sh(&7u8.lift_other::<$C<u8>, _>(&st(&a[0]))));
                form(o, "PureType::lift", || sh(&PureType::<$C<u8>, u8>::lift(&st(&a[0]))));
                form(o, "PureType::lift_owned", || sh(&PureType::<$C<u8>, u8>::lift_owned(st(&a[0]))));
            },
            "pair_with" => form(o, "pair_with", || st(&a[0]).pair_with::<$C<u8>, _>(&st(&a[1])).sh(&|(x, y)| json!(format!("<{x},{y}>")))),
            "combine_with" => form(o, "combine_with", || sh(&st(&a[0]).combine_with::<$C<u8>, _, _>(&st(&a[1]), |x, y| ap2(s(&a[2]), x, y)))),
            _ => {},
        }
    }};
}
macro_rules! applicative {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "apply" => {
                form(o, "apply", || sh(&Applicative::apply(&<$C<_> as Shape>::mk(&a[1], &|n| fr(n)), &mk::<$C<String>>(&a[0]))));
                form(o, "apply_owned", || sh(&Applicative::apply_owned(<$C<_> as Shape>::mk(&a[1], &|n| fo(n)), mk::<$C<String>>(&a[0]))));
            },
            "lift2" => {
                let f = |x: &String, y: &String| ap2(s(&a[2]), x, y);
                let (x, y) = (mk::<$C<String>>(&a[0]), mk::<$C<String>>(&a[1]));
                form(o, "lift2", || sh(&<$C<u8> as Applicative>::lift2(f, &x, &y)));
                form(o, "ap2", || sh(&<$C<u8> as Applicative>::ap2(f, &x, &y)));
                form(o, "lift2_owned", || sh(&<$C<u8> as Applicative>::lift2_owned(|x: String, y: String| f(&x, &y), x.clone(), y.clone())));
            },
            "lift3" => {
                let f = |x: &String, y: &String, z: &String| ap3(s(&a[3]), x, y, z);
                let (x, y, z) = (mk::<$C<String>>(&a[0]), mk::<$C<String>>(&a[1]), mk::<$C<String>>(&a[2]));
                form(o, "lift3", || sh(&<$C<u8> as Applicative>::lift3(f, &x, &y, &z)));
                form(o, "lift3_owned", || sh(&<$C<u8> as Applicative>::lift3_owned(|x: String, y: String, z: String| f(&x, &y, &z), x.clone(), y.clone(), z.clone())));
            },
            "seqr" | "seql" => {
                let (x, y) = (mk::<$C<String>>(&a[0]), mk::<$C<String>>(&a[1]));
                if $op == "seqr" {
                    form(o, "sequence_right", || sh(&<$C<u8> as Applicative>::sequence_right(&x, &y)));
                    form(o, "sequence_right_owned", || sh(&<$C<u8> as Applicative>::sequence_right_owned(x.clone(), y.clone())));
                } else {
                    form(o, "sequence_left", || sh(&<$C<u8> as Applicative>::sequence_left(&x, &y)));
                    form(o, "sequence_left_owned", || sh(&<$C<u8> as Applicative>::sequence_left_owned(x.clone(), y.clone())));
                }
            },
            _ => {},
        }
    }};
}
macro_rules! monad {
    ($C:ident, $kind:expr, $op:expr, $a:expr, $o:expr) => {{
        let (a, o, kind) = ($a, &mut *$o, $kind);
        match $op {
            "bind" => {
                let k = s(&a[1]);
                form(o, "bind", || sh(&Monad::bind(&mk::<$C<String>>(&a[0]), |x: &String| mk::<$C<String>>(&kl(kind, k, x)))));
                form(o, "bind_owned", || sh(&Monad::bind_owned(mk::<$C<String>>(&a[0]), |x: String| mk::<$C<String>>(&kl(kind, k, &x)))));
                form(o, "flat_map", || sh(&Monad::flat_map(&mk::<$C<String>>(&a[0]), |x: &String| mk::<$C<String>>(&kl(kind, k, x)))));
                form(o, "flat_map_owned", || sh(&Monad::flat_map_owned(mk::<$C<String>>(&a[0]), |x: String| mk::<$C<String>>(&kl(kind, k, &x)))));
            },
            "join" => {
                let v = <$C<$C<String>> as Shape>::mk(&a[0], &|x| mk::<$C<String>>(x));
                form(o, "join", || sh(&Monad::join::<String>(&v)));
                form(o, "join_owned", || sh(&Monad::join_owned::<String>(v.clone())));
                form(o, "bind(id)", || sh(&Monad::bind(&v, |x: &$C<String>| x.clone())));
            },
            "map_and_pure" => form(o, "map_and_pure", || sh(&mk::<$C<String>>(&a[0]).map_and_pure(fr(&a[1])))),
            "try_bind" => {
                let k = s(&a[2]);
                form(o, "try_bind", || {
                    sh(&mk::<$C<String>>(&a[0]).try_bind(&st(&a[1]), |x: &String| if refuses(k, x) { Err(0u8) } else { Ok(mk::<$C<String>>(&kl(kind, "s", x))) }))
                });
            },
            _ => {},
        }
    }};
}
macro_rules! alternative {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "alt" => form(o, "alt", || sh(&mk::<$C<String>>(&a[0]).alt(&mk::<$C<String>>(&a[1])))),
            "empty_alt" => form(o, "empty_alt", || sh(&<$C<String> as Alternative>::empty_alt::<String>())),
            "guard" => form(o, "guard", || <$C<String> as Alternative>::guard(a[0].as_bool().unwrap()).sh(&|_| json!("()"))),
            "many" => form(o, "many", || mk::<$C<String>>(&a[0]).many().sh(&|xs| xs.sh(&js))),
            _ => {},
        }
    }};
}
macro_rules! monad_plus {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "mplus" => {
                form(o, "mplus", || sh(&mk::<$C<String>>(&a[0]).mplus(&mk::<$C<String>>(&a[1]))));
                form(o, "mplus_owned", || sh(&mk::<$C<String>>(&a[0]).mplus_owned(mk::<$C<String>>(&a[1]))));
            },
            "mzero" => form(o, "mzero", || sh(&<$C<String> as MonadPlus>::mzero::<String>())),
            _ => {},
        }
    }};
}
macro_rules! foldable {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        let v = || mk::<$C<String>>(&a[0]);
        let n = || <$C<u32> as Shape>::mk(&a[0], &|x| us(x) as u32);
        let q = Asked::default();
        let p = |x: &String| holds(s(&a[1]), x);
        match $op {
            "fold_left" => form(o, "fold_left", || val(v().fold_left(&st(&a[1]), |acc, x| q.see(x, false, format!("({acc}<{x})"))))),
            "fold_right" => form(o, "fold_right", || val(v().fold_right(&st(&a[1]), |x, acc| q.see(x, false, format!("({x}>{acc})"))))),
            "fold_map" => form(o, "fold_map", || val(v().fold_map::<String, _>(fr(&a[1])))),
            "fold_monoid" => form(o, "fold_monoid", || val(v().fold_monoid::<String>())),
            "length" => form(o, "length", || val(v().length())),
            "is_empty" => form(o, "is_empty", || val(Foldable::is_empty(&v()))),
            "to_vec" => form(o, "to_vec", || sh(&FoldableExt::to_vec(&v()))),
            "reduce" => form(o, "reduce", || opt(FoldableExt::reduce(&v(), |x, y| q.see(y, false, format!("({x}.{y})"))))),
            "find" => form(o, "find", || opt(FoldableExt::find(&v(), |x: &String| q.see(x, p(x), p(x))))),
            "all" => form(o, "all", || val(FoldableExt::all(&v(), |x: &String| q.see(x, !p(x), p(x))))),
            "any" => form(o, "any", || val(FoldableExt::any(&v(), |x: &String| q.see(x, p(x), p(x))))),
            "contains" => form(o, "contains", || val(FoldableExt::contains(&v(), &st(&a[1])))),
            "fold_option" => form(o, "fold_option", || opt(FoldableExt::fold_option::<String, _>(&v(), |x: &String| {
                let k = s(&a[1]);
                let no = refuses(k, x);
                q.see(x, no, if no { None } else { Some(format!("{k}({x})")) })
            }))),
            "is_sorted" => form(o, "is_sorted", || val(FoldableExt::is_sorted(&n()))),
            "sum_values" => form(o, "sum_values", || val(FoldableExt::sum_values(&n()))),
            "product_values" => form(o, "product_values", || val(FoldableExt::product_values(&n()))),
            "maximum" => form(o, "maximum", || opt(FoldableExt::maximum(&n()).map(|x| x.to_string()))),
            "minimum" => form(o, "minimum", || opt(FoldableExt::minimum(&n()).map(|x| x.to_string()))),
            _ => {},
        }
    }};
}
/// A value whose failure side holds T.
fn ei_left<T>(e: &Either<T, String>, f: impl Fn(&T) -> J) -> J {
    match e {
        Either::Left(l) => json!(["err", f(l)]),
        Either::Right(r) => json!(["ok", r]),
    }
}
macro_rules! bifunctor {
    ($C:ident, $op:expr, $a:expr, $o:expr) => {{
        let (a, o) = ($a, &mut *$o);
        match $op {
            "first" => form(o, "first", || sh(&Bifunctor::first(&mk::<$C<String>>(&a[0]), fr(&a[1])))),
            "second" => {
                form(o, "second", || sh(&Bifunctor::second(&mk::<$C<String>>(&a[0]), fr(&a[1]))));
                form(o, "map_second", || sh(&mk::<$C<String>>(&a[0]).map_second(fr(&a[1]))));
                form(o, "map_second_owned", || sh(&mk::<$C<String>>(&a[0]).map_second_owned(fo(&a[1]))));
            },
            "bimap" => form(o, "bimap", || sh(&Bifunctor::bimap(&mk::<$C<String>>(&a[0]), fr(&a[1]), fr(&a[2])))),
            _ => {},
        }
    }};
}

fn option(op: &str, a: &[J], o: &mut Forms) {
    functor!(Option, op, a, o);
    functor_ext!(Option, op, a, o);
    identity!(Option, op, a, o);
    pure!(Option, op, a, o);
    applicative!(Option, op, a, o);
    monad!(Option, "option", op, a, o);
    alternative!(Option, op, a, o);
    monad_plus!(Option, op, a, o);
    foldable!(Option, op, a, o);
    let v = || mk::<Option<String>>(&a[0]);
    match op {
        "throw" => form(o, "throw", || sh(&<Option<u8> as MonadError<()>>::throw::<String>(()))),
        "catch" => {
            let k = s(&a[1]);
            form(o, "catch", || sh(&MonadError::catch(&v(), |_: &()| mk(&kl("option", k, "()")))));
            form(o, "catch_owned", || sh(&MonadError::catch_owned(v(), |_: ()| mk(&kl("option", k, "()")))));
        },
        "map_error_to" => {
            form(o, "map_error_to", || sh(&ErrorMapper::map_error_to(&v(), |_: &()| ap(s(&a[1]), "()"))));
            form(o, "map_error_to_owned", || sh(&ErrorMapper::map_error_to_owned(v(), |_: ()| ap(s(&a[1]), "()"))));
        },
        _ => {},
    }
}
fn result(op: &str, a: &[J], o: &mut Forms) {
    functor!(Res, op, a, o);
    functor_ext!(Res, op, a, o);
    identity!(Res, op, a, o);
    pure!(Res, op, a, o);
    applicative!(Res, op, a, o);
    monad!(Res, "result", op, a, o);
    monad_plus!(Res, op, a, o);
    foldable!(Res, op, a, o);
    let v = || mk::<Res<String>>(&a[0]);
    match op {
        "throw" => form(o, "throw", || sh(&<Res<u8> as MonadError<String>>::throw::<String>(st(&a[0])))),
        "catch" => {
            let k = s(&a[1]);
            form(o, "catch", || sh(&MonadError::catch(&v(), |e: &String| mk(&kl("result", k, e)))));
            form(o, "catch_owned", || sh(&MonadError::catch_owned(v(), |e: String| mk(&kl("result", k, &e)))));
        },
        "map_error_to" => {
            form(o, "map_error_to", || sh(&ErrorMapper::map_error_to(&v(), fr(&a[1]))));
            form(o, "map_error_to_owned", || sh(&ErrorMapper::map_error_to_owned(v(), fo(&a[1]))));
        },
        _ => {},
    }
}
fn either(op: &str, a: &[J], o: &mut Forms) {
    functor!(Ei, op, a, o);
    identity!(Ei, op, a, o);
    pure!(Ei, op, a, o);
    applicative!(Ei, op, a, o);
    monad!(Ei, "either", op, a, o);
    alternative!(Ei, op, a, o);
    monad_plus!(Ei, op, a, o);
    let v = || mk::<Ei<String>>(&a[0]);
    match op {
        "fmap" | "first" => {
            form(o, "first", || sh(&Bifunctor::first(&v(), fr(&a[1]))));
            form(o, "fmap_right", || sh(&v().fmap_right(fo(&a[1]))));
        },
        "second" => {
            form(o, "second", || ei_left(&Bifunctor::second(&v(), fr(&a[1])), js));
            form(o, "map_second", || ei_left(&v().map_second(fr(&a[1])), js));
            form(o, "map_second_owned", || ei_left(&v().map_second_owned(fo(&a[1])), js));
            form(o, "fmap_left", || ei_left(&v().fmap_left(fo(&a[1])), js));
        },
        "bimap" => {
            form(o, "bimap", || sh(&Bifunctor::bimap(&v(), fr(&a[1]), fr(&a[2]))));
            form(o, "fmap_left.fmap_right", || sh(&v().fmap_left(fo(&a[2])).fmap_right(fo(&a[1]))));
        },
        "value" => {
            form(o, "unwrap", || val(v().unwrap()));
            form(o, "unwrap_right", || val(v().unwrap_right()));
            form(o, "right_value", || val(v().right_value()));
            form(o, "right_ref", || val(v().right_ref()));
        },
        _ => {},
    }
}
fn maybe(op: &str, a: &[J], o: &mut Forms) {
    functor!(Maybe, op, a, o);
    identity!(Maybe, op, a, o);
    pure!(Maybe, op, a, o);
    applicative!(Maybe, op, a, o);
    monad!(Maybe, "maybe", op, a, o);
    alternative!(Maybe, op, a, o);
    monad_plus!(Maybe, op, a, o);
    let v = || mk::<Maybe<String>>(&a[0]);
    if op == "value" {
        form(o, "unwrap", || val(v().unwrap()));
    }
}
fn id(op: &str, a: &[J], o: &mut Forms) {
    functor!(Id, op, a, o);
    identity!(Id, op, a, o);
    pure!(Id, op, a, o);
    applicative!(Id, op, a, o);
    monad!(Id, "id", op, a, o);
    foldable!(Id, op, a, o);
    let v = || mk::<Id<String>>(&a[0]);
    match op {
        "value" | "extract" => {
            form(o, "extract", || val(v().extract()));
            form(o, "unwrap", || val(v().unwrap()));
            form(o, "into_inner", || val(v().into_inner()));
            form(o, "as_ref", || val(v().as_ref()));
            form(o, "value_mut", || val(&*v().value_mut()));
            form(o, "unwrap_or", || val(v().unwrap_or("other".into())));
            form(o, "into_iter", || val(v().into_iter().collect::<Vec<_>>().join("&")));
            form(o, "iter", || val((&v()).into_iter().cloned().collect::<Vec<_>>().join("&")));
        },
        "seqr" => form(o, "then", || sh(&v().then(mk::<Id<String>>(&a[1])))),
        "duplicate" => form(o, "duplicate", || sh(&v().duplicate())),
        "extend" => {
            form(o, "extend", || sh(&v().extend(|w: &Id<String>| ap(s(&a[1]), w.as_ref()))));
            form(o, "extend(extract)", || sh(&v().extend(|w: &Id<String>| ap(s(&a[1]), &w.extract()))));
        },
        "pure" => {
            form(o, "new", || sh(&Id::new(st(&a[0]))));
            form(o, "from_ref", || sh(&Id::from_ref(&st(&a[0]))));
            form(o, "from", || sh(&Id::from(st(&a[0]))));
        },
        _ => {},
    }
}
fn validated(op: &str, a: &[J], o: &mut Forms) {
    functor!(Va, op, a, o);
    identity!(Va, op, a, o);
    pure!(Va, op, a, o);
    applicative!(Va, op, a, o);
    monad!(Va, "validated", op, a, o);
    alternative!(Va, op, a, o);
    monad_plus!(Va, op, a, o);
    foldable!(Va, op, a, o);
    bifunctor!(Va, op, a, o);
    let v = || mk::<Va<String>>(&a[0]);
    match op {
        "second" => {
            form(o, "fmap_invalid", || sh(&v().fmap_invalid(fr(&a[1]))));
            form(o, "fmap_invalid_owned", || sh(&v().fmap_invalid_owned(fo(&a[1]))));
        },
        "value" => {
            form(o, "unwrap", || val(v().unwrap()));
            form(o, "unwrap_owned", || val(v().unwrap_owned()));
        },
        _ => {},
    }
}
fn vec(op: &str, a: &[J], o: &mut Forms) {
    functor!(Vec, op, a, o);
    functor_ext!(Vec, op, a, o);
    pure!(Vec, op, a, o);
    applicative!(Vec, op, a, o);
    alternative!(Vec, op, a, o);
    foldable!(Vec, op, a, o);
}
fn choice(op: &str, a: &[J], o: &mut Forms) {
    functor!(Choice, op, a, o);
    identity!(Choice, op, a, o);
    pure!(Choice, op, a, o);
    applicative!(Choice, op, a, o);
    monad!(Choice, "choice", op, a, o);
    alternative!(Choice, op, a, o);
    monad_plus!(Choice, op, a, o);
    foldable!(Choice, op, a, o);
    if op == "bind" {
        let k = s(&a[1]);
        form(o, "bind_lazy", || list("list", mk::<Choice<String>>(&a[0]).bind_lazy(|x: &String| mk::<Choice<String>>(&kl("choice", k, x))).map(|x| json!(x))));
    }
}
fn ownlist(op: &str, a: &[J], o: &mut Forms) {
    functor!(OwnL, op, a, o);
    functor_ext!(OwnL, op, a, o);
    identity!(OwnL, op, a, o);
    pure!(OwnL, op, a, o);
    applicative!(OwnL, op, a, o);
    monad!(OwnL, "ownlist", op, a, o);
    foldable!(OwnL, op, a, o);
}
fn ownres(op: &str, a: &[J], o: &mut Forms) {
    functor!(OwnR, op, a, o);
    functor_ext!(OwnR, op, a, o);
    identity!(OwnR, op, a, o);
    pure!(OwnR, op, a, o);
    applicative!(OwnR, op, a, o);
    monad!(OwnR, "ownres", op, a, o);
    foldable!(OwnR, op, a, o);
}
fn boxk(op: &str, a: &[J], o: &mut Forms) {
    pure!(Box, op, a, o);
}
fn show(op: &str, a: &[J], o: &mut Forms) {
    let p = || Show::<String>(Box::new(|x: &String| ap("p", x)));
    match op {
        "contramap" => {
            form(o, "contramap", || val((p().contramap(fr(&a[0])).0)(&st(&a[1]))));
            form(o, "contramap_owned", || val((p().contramap_owned(fo(&a[0])).0)(&st(&a[1]))));
            form(o, "contramap_with", || val((p().contramap_with(fr(&a[0])).0)(&st(&a[1]))));
        },
        "contramap_const" => form(o, "contramap_const", || val((p().contramap_const::<String>(st(&a[0])).0)(&st(&a[1])))),
        "contra_compose" => form(o, "contra_compose", || {
            let g = Show::<Word>(Box::new(|w: &Word| w.0.clone()));
            val((p().contra_compose(&g).0)(&Word(st(&a[0]))))
        }),
        _ => {},
    }
}
macro_rules! nat {
    ($C:ident, $a:expr, $o:expr) => {{
        let v = mk::<$C<String>>(&$a[0]);
        form($o, "identity_nat", || sh(&identity_nat::<$C<u8>>().transform(&v)));
        form($o, "identity_nat.owned", || sh(&identity_nat::<$C<u8>>().transform_owned(v.clone())));
        form($o, "transform_owned", || sh(&NaturalTransformation::<$C<u8>, $C<u8>>::transform_owned(&Same, v.clone())));
    }};
}
fn pvec(op: &str, a: &[J], o: &mut Forms) {
    functor!(PV, op, a, o);
    identity!(PV, op, a, o);
    foldable!(PV, op, a, o);
}

fn forms(kind: &str, op: &str, a: &[J]) -> Forms {
    let mut o = Vec::new();
    match kind {
        "option" if op == "nat" => nat!(Option, a, &mut o),
        "result" if op == "nat" => nat!(Res, a, &mut o),
        "vec" if op == "nat" => nat!(Vec, a, &mut o),
        "ownlist" => ownlist(op, a, &mut o),
        "ownres" => ownres(op, a, &mut o),
        "box" => boxk(op, a, &mut o),
        "show" => show(op, a, &mut o),
        "option" => option(op, a, &mut o),
        "result" => result(op, a, &mut o),
        "either" => either(op, a, &mut o),
        "maybe" => maybe(op, a, &mut o),
        "id" => id(op, a, &mut o),
        "validated" => validated(op, a, &mut o),
        "vec" => vec(op, a, &mut o),
        "choice" => choice(op, a, &mut o),
        "pvec" => pvec(op, a, &mut o),
        _ => panic!("kind {kind}"),
    }
    assert!(!o.is_empty(), "{kind} has no {op}");
    o
}

#[derive(Clone, Copy, PartialEq)]
enum Size {
    Any,
    /// beside a long one, where the result is as long as the product
    Few,
    Long,
}
/// Random arguments for a signature, larger than those TLC enumerates.
fn container(r: &mut Rng, kind: &str, size: Size, mut item: impl FnMut(&mut Rng) -> J) -> J {
    match kind {
        "vec" | "choice" | "pvec" | "ownlist" => {
            // beyond one leaf of a persistent vector
            let n = match size {
                Size::Long => 40 + r.below(120),
                Size::Few => *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]),
                Size::Any if r.chance(1, 6) => r.below(40),
                Size::Any => r.below(7),
            };
            list("list", (0..n).map(|_| item(r)).collect::<Vec<_>>().into_iter())
        },
        "id" | "box" => json!(["ok", item(r)]),
        _ if r.chance(3, 5) => json!(["ok", item(r)]),
        "option" | "maybe" => json!(["err"]),
        "validated" => {
            let n = if r.chance(1, 5) { r.below(24) } else if r.chance(1, 12) { r.below(90) } else { 1 + r.below(4) };
            list("err", (0..n.max(1)).map(|_| json!(r.text(&["x", "y", "z", "w"]))).collect::<Vec<_>>().into_iter())
        },
        _ => json!(["err", *r.pick(&["x", "y", "z", "w"])]),
    }
}
fn word(r: &mut Rng) -> J {
    json!(r.text(&["a", "b", "c", "a", "dd", "e'", ""]))
}
fn args(r: &mut Rng, kind: &str, sig: &str) -> Vec<J> {
    let klei: &[&str] = match kind {
        "id" => &["s"],
        "vec" | "choice" | "pvec" | "ownlist" => &["s", "e", "c", "d"],
        _ => &["s", "e", "c"],
    };
    let places: Vec<usize> = (0..sig.len()).filter(|i| "vwVFn".contains(sig.as_bytes()[*i] as char)).collect();
    let long = if !places.is_empty() && r.chance(1, if places.len() == 1 { 3 } else { 8 }) { Some(*r.pick(&places)) } else { None };
    sig.chars()
        .enumerate()
        .map(|(i, c)| {
            let size = match long {
                Some(l) if l == i => Size::Long,
                Some(_) => Size::Few,
                None => Size::Any,
            };
            match c {
                'v' | 'w' => container(r, kind, size, word),
                'F' => container(r, kind, size, |r| json!(*r.pick(&["f", "g", "h"]))),
                'V' => {
                    let k = kind;
                    let inner = if size == Size::Long { Size::Few } else { Size::Any };
                    container(r, kind, size, |r| container(r, k, inner, word))
                },
                'n' => container(r, kind, size, |r| json!(r.below(9))),
                'm' => {
                    // small enough a product for TLC's integers
                    let v = container(r, kind, Size::Any, |r| json!(r.below(9)));
                    J::Array(arr(&v).iter().take(8).cloned().collect())
                },
                'f' => json!(*r.pick(&["f", "g", "h"])),
                'k' => json!(*r.pick(klei)),
                'p' => json!(*r.pick(&["isA", "notA", "all", "none"])),
                'x' => word(r),
                'b' => json!(r.chance(1, 2)),
                _ => panic!("{c}"),
            }
        })
        .collect()
}
const SIGS: &[(&str, &str, &str)] = &[
    // group, op, signature
    ("law", "fmap", "vf"), ("law", "replace", "vx"), ("law", "void", "v"), ("law", "pure", "x"), ("law", "pair_with", "xx"),
    ("law", "combine_with", "xxf"), ("law", "apply", "vF"), ("law", "lift2", "vwf"), ("law", "lift3", "vwwf"), ("law", "seqr", "vw"),
    ("law", "seql", "vw"), ("law", "bind", "vk"), ("law", "join", "V"), ("law", "map_and_pure", "vf"), ("law", "try_bind", "vxk"),
    ("law", "value", "v"), ("law", "first", "vf"), ("law", "second", "vf"), ("law", "bimap", "vff"), ("law", "try_map_or", "vxk"),
    ("law", "try_map_or_else", "vfk"), ("law", "filter_map", "vk"),
    ("alt", "alt", "vw"), ("alt", "mplus", "vw"), ("alt", "many", "v"), ("alt", "guard", "b"), ("alt", "throw", "x"), ("alt", "catch", "vk"),
    ("alt", "map_error_to", "vf"),
    ("fold", "fold_left", "vx"), ("fold", "fold_right", "vx"), ("fold", "fold_map", "vf"), ("fold", "fold_monoid", "v"), ("fold", "length", "v"),
    ("fold", "is_empty", "v"), ("fold", "to_vec", "v"), ("fold", "reduce", "v"), ("fold", "find", "vp"), ("fold", "all", "vp"), ("fold", "any", "vp"),
    ("fold", "contains", "vx"), ("fold", "fold_option", "vk"), ("fold", "is_sorted", "n"), ("fold", "sum_values", "n"), ("fold", "product_values", "m"),
    ("fold", "maximum", "n"), ("fold", "minimum", "n"),
    ("own", "nat", "v"), ("own", "contramap", "fx"), ("own", "contramap_const", "xx"), ("own", "contra_compose", "x"),
    ("comonad", "extract", "v"), ("comonad", "duplicate", "v"), ("comonad", "extend", "vf"),
];
fn has(kind: &str, op: &str) -> bool {
    match op {
        "nat" => matches!(kind, "option" | "result" | "vec"),
        "contramap" | "contramap_const" | "contra_compose" => kind == "show",
        _ if kind == "show" => false,
        "pure" | "pair_with" | "combine_with" if kind == "box" => true,
        _ if kind == "box" => false,
        "try_map_or" | "try_map_or_else" if kind.starts_with("own") => true,
        "first" | "second" | "bimap" => matches!(kind, "either" | "validated"),
        "try_map_or" | "try_map_or_else" | "filter_map" => matches!(kind, "option" | "result" | "vec"),
        "fmap" | "replace" | "void" => true,
        "value" => kind != "vec",
        "bind" | "join" | "map_and_pure" | "try_bind" => !matches!(kind, "vec" | "pvec"),
        "pure" | "pair_with" | "combine_with" | "apply" | "lift2" | "lift3" | "seqr" | "seql" => kind != "pvec",
        "alt" | "many" | "guard" => !kind.starts_with("own") && !matches!(kind, "result" | "id" | "pvec"),
        "mplus" => !kind.starts_with("own") && !matches!(kind, "vec" | "id" | "pvec"),
        "throw" | "catch" | "map_error_to" => matches!(kind, "option" | "result"),
        "extract" | "duplicate" | "extend" => kind == "id",
        _ => !matches!(kind, "either" | "maybe"),
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            let mut seen = std::collections::HashSet::new();
            for c in cases(a.str("cases")) {
                if !seen.insert(c.to_string()) {
                    continue;
                }
                rep.cases += 1;
                let (kind, op) = (s(&c["m"]), s(&c["op"]));
                for (name, got, log) in forms(kind, op, arr(&c["a"])) {
                    if rep.check(&format!("{kind}.{op}"), &c, &format!("{kind}: {name}"), &c["r"], &got) && c["c"] != json!(["?"]) {
                        let (mut l, mut w) = (log, arr(&c["c"]).iter().map(st).collect::<Vec<_>>());
                        if kind == "choice" && name == "bind_lazy" || c["r"] == json!(["panic"]) {
                            continue;
                        }
                        l.sort();
                        w.sort();
                        rep.check(&format!("{kind}.{op}"), &c, &format!("{kind}: closures called by {name}"), &json!(w), &json!(l));
                    }
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            let group = a.str("group");
            for kind in a.str("kinds").split(',') {
                let sigs: Vec<_> = SIGS.iter().filter(|(g, op, _)| (*g == group || (group == "own" && (kind.starts_with("own") || kind == "box") && *g != "alt")) && has(kind, op)).collect();
                if sigs.is_empty() {
                    continue;
                }
                for _ in 0..a.num("n", 100) {
                    let mut evs = Vec::new();
                    for _ in 0..a.num("len", 10) {
                        let (_, op, sig) = **r.pick(&sigs);
                        let x = args(&mut r, kind, sig);
                        // lift3 of three long lists is all the same length cubed
                        if op == "lift3" && x[..3].iter().map(|v| arr(v).len()).product::<usize>() > 700 && matches!(kind, "vec" | "choice") {
                            continue;
                        }
                        let fs = forms(kind, op, &x);
                        for (name, got, _) in fs {
                            evs.push(json!({"m": kind, "op": op, "form": name, "a": x, "r": got}));
                        }
                    }
                    tr.events += evs.len() as u64;
                    tr.line(&json!({"evs": evs}));
                }
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
