//! Isomorphisms and the optics made of them (spec/Iso.tla).
use rustica::datatypes::either::Either;
use rustica::datatypes::iso_lens::{IsoLens, PairIso};
use rustica::datatypes::iso_prism::{IsoPrism, LiftedPrismIso};
use rustica::datatypes::validated::Validated;
use rustica::traits::iso::{ComposedIso, Iso, IsoExt, ResultEitherIso, ResultValidatedIso};
use std::marker::PhantomData;
use std::rc::Rc;
use vk::journey::*;
use vk::*;

type S = String;
type U = Vec<S>;
type R = Result<S, S>;
type E = Either<S, S>;
type W = Validated<S, S>;

/// The bijections the expressions are made of.
#[derive(Clone)]
enum Basic {
    Id,
    Rev,
    Rot,
    Tag(S),
}
impl Iso<U, U> for Basic {
    type From = U;
    type To = U;
    fn forward(&self, x: &U) -> U {
        let mut x = x.clone();
        match self {
            Basic::Id => {},
            Basic::Rev => x.reverse(),
            Basic::Rot if x.is_empty() => {},
            Basic::Rot => x.rotate_left(1),
            Basic::Tag(k) => x.push(k.clone()),
        }
        x
    }
    fn backward(&self, y: &U) -> U {
        let mut y = y.clone();
        match self {
            Basic::Id => {},
            Basic::Rev => y.reverse(),
            Basic::Rot if y.is_empty() => {},
            Basic::Rot => y.rotate_right(1),
            Basic::Tag(_) => {
                y.pop();
            },
        }
        y
    }
}
trait Both {
    fn f(&self, x: &U) -> U;
    fn b(&self, y: &U) -> U;
}
impl<T: Iso<U, U, From = U, To = U>> Both for T {
    fn f(&self, x: &U) -> U {
        self.forward(x)
    }
    fn b(&self, y: &U) -> U {
        self.backward(y)
    }
}
/// Any isomorphism of sequences; what it delegates to is the library's.
#[derive(Clone)]
struct Dy(Rc<dyn Both>);
impl Iso<U, U> for Dy {
    type From = U;
    type To = U;
    fn forward(&self, x: &U) -> U {
        (*self.0).f(x)
    }
    fn backward(&self, y: &U) -> U {
        (*self.0).b(y)
    }
}
fn expr(e: &J) -> Dy {
    Dy(match s(&e[0]) {
        "id" => Rc::new(Basic::Id),
        "rev" => Rc::new(Basic::Rev),
        "rot" => Rc::new(Basic::Rot),
        "tag" => Rc::new(Basic::Tag(st(&e[1]))),
        "comp" => Rc::new(expr(&e[1]).iso_compose(expr(&e[2]))),
        "inv" => Rc::new(expr(&e[1]).inverse()),
        k => panic!("{k}"),
    })
}
/// The same expression with the composition written out.
fn literal(e: &J) -> Dy {
    match s(&e[0]) {
        "comp" => Dy(Rc::new(ComposedIso { first: literal(&e[1]), second: literal(&e[2]), _phantom: PhantomData })),
        "inv" => Dy(Rc::new(literal(&e[1]).inverse())),
        _ => expr(e),
    }
}
fn elem(x: &U, i: usize) -> S {
    x.get(i - 1).cloned().unwrap_or_default()
}
fn put(mut x: U, i: usize, b: S) -> U {
    if let Some(y) = x.get_mut(i - 1) {
        *y = b;
    }
    x
}
/// Element `i` of a structure, paired with the context `back` leads to.
#[derive(Clone)]
struct Foc {
    back: Dy,
    i: usize,
}
impl Iso<U, (S, U)> for Foc {
    type From = U;
    type To = (S, U);
    fn forward(&self, a: &U) -> (S, U) {
        (elem(a, self.i), self.back.backward(a))
    }
    fn backward(&self, to: &(S, U)) -> U {
        put(self.back.forward(&to.1), self.i, to.0.clone())
    }
}
/// The same through another isomorphism, written by hand.
struct Through {
    there: Dy,
    foc: Foc,
}
impl Iso<U, (S, U)> for Through {
    type From = U;
    type To = (S, U);
    fn forward(&self, a: &U) -> (S, U) {
        self.foc.forward(&self.there.forward(a))
    }
    fn backward(&self, to: &(S, U)) -> U {
        self.there.backward(&self.foc.backward(to))
    }
}
/// A key at the front, or not.
#[derive(Clone)]
struct Key(S);
impl Iso<U, Option<U>> for Key {
    type From = U;
    type To = Option<U>;
    fn forward(&self, x: &U) -> Option<U> {
        (x.first() == Some(&self.0)).then(|| x[1..].to_vec())
    }
    fn backward(&self, to: &Option<U>) -> U {
        to.as_ref().map_or(U::new(), |x| std::iter::once(self.0.clone()).chain(x.iter().cloned()).collect())
    }
}
/// The library's isomorphisms, so that they can be cloned.
#[derive(Clone)]
struct Re;
impl Iso<R, E> for Re {
    type From = R;
    type To = E;
    fn forward(&self, x: &R) -> E {
        ResultEitherIso.forward(x)
    }
    fn backward(&self, y: &E) -> R {
        ResultEitherIso.backward(y)
    }
}
#[derive(Clone)]
struct Rv;
impl Iso<R, W> for Rv {
    type From = R;
    type To = W;
    fn forward(&self, x: &R) -> W {
        ResultValidatedIso.forward(x)
    }
    fn backward(&self, y: &W) -> R {
        ResultValidatedIso.backward(y)
    }
}
/// Composing needs a clonable left side.
#[derive(Clone)]
struct Er;
impl Iso<E, R> for Er {
    type From = E;
    type To = R;
    fn forward(&self, x: &E) -> R {
        Re.inverse().forward(x)
    }
    fn backward(&self, y: &R) -> E {
        Re.inverse().backward(y)
    }
}

enum V {
    U(U),
    R(R),
    E(E),
    W(W),
}
fn fun(f: &str) -> impl Fn(U) -> U + Copy + use<'_> {
    move |mut x| {
        called(x.iter().map(|x| format!("{x},")).collect::<S>());
        match f {
            "push" => x.push("z".into()),
            "keep" => {},
            "clear" => x.clear(),
            _ => panic!("{f}"),
        }
        x
    }
}
fn saw(x: &U) -> J {
    called(x.iter().map(|x| format!("{x},")).collect::<S>());
    list("saw", x.clone())
}
fn res(side: &J, x: &J) -> R {
    if side == "ok" { Ok(st(x)) } else { Err(st(x)) }
}
fn optu(x: Option<U>) -> J {
    x.map_or(json!(["none"]), |x| list("some", x))
}
fn lens<L: Iso<U, (S, U), From = U, To = (S, U)>>(o: &mut O<V>, name: &'static str, l: &IsoLens<U, (S, U), L>, op: &str, x: &U, a: &[J]) {
    let pair = |(b, c): (S, U)| [json!("pair"), json!(b), json!(c)].into_iter().collect::<J>();
    match op {
        "focus_get" => {
            o.see(name, || pair(l.get(x)));
            o.see(name, || pair(l.iso_ref().forward(x)));
            o.see(name, || pair(l.iso.convert_forward(x)));
        },
        "focus_set" => {
            o.to(name, || V::U(l.set_focus(x, &st(&a[3]))));
            o.to(name, || V::U(l.set(&(st(&a[3]), x.clone()))));
        },
        "focus_modify" => {
            o.to(name, || V::U(l.modify_focus(x, app(&a[3]))));
            o.to(name, || V::U(l.modify(x, |(b, c)| (app(&a[3])(b), c))));
        },
        _ => panic!("{op}"),
    }
}
fn prism<L: Iso<U, Option<U>, From = U, To = Option<U>>>(o: &mut O<V>, name: &'static str, p: &IsoPrism<U, U, L>, op: &str, x: &U) {
    match op {
        "preview" => {
            o.see(name, || optu(p.preview(x)));
            o.see(name, || optu(p.iso.forward(x)));
        },
        "review" => {
            o.to(name, || V::U(p.review(x)));
            o.to(name, || V::U(p.iso.convert_backward(&Some(x.clone()))));
        },
        "none" => o.see(name, || {
            let r = saw(&p.iso.backward(&None));
            forget_calls();
            r
        }),
        _ => panic!("{op}"),
    }
}

struct Isos;
impl Journey for Isos {
    type V = V;
    fn make(v: &J) -> V {
        match s(&v[0]) {
            "u" => V::U(strs(v)[1..].to_vec()),
            "result" => V::R(res(&v[1], &v[2])),
            "either" => V::E(res(&v[1], &v[2]).map_or_else(Either::left, Either::right)),
            _ if v[1] == "ok" => V::W(Validated::valid(st(&v[2]))),
            _ => V::W(Validated::invalid_many(strs(v)[2..].to_vec())),
        }
    }
    fn show(v: &V) -> J {
        match v {
            V::U(x) => list("u", x.clone()),
            V::R(Ok(x)) => json!(["result", "ok", x]),
            V::R(Err(x)) => json!(["result", "err", x]),
            V::E(Either::Right(x)) => json!(["either", "ok", x]),
            V::E(Either::Left(x)) => json!(["either", "err", x]),
            V::W(Validated::Valid(x)) => json!(["validated", "ok", x]),
            V::W(Validated::Invalid(es)) => list("validated", std::iter::once("err".to_string()).chain(es.iter().cloned())),
        }
    }
    fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form<V>> {
        let mut out = O(Vec::new());
        let o = &mut out;
        match v {
            V::U(x) if op == "to_result" => o.to("by hand", || V::R(res(&a[0], &json!(x.first().cloned().unwrap_or_default())))),
            V::U(x) if ["preview", "review", "none"].contains(&op) => {
                let k: Vec<Key> = strs(&a[0]).into_iter().map(Key).collect();
                let p = |i: usize| IsoPrism::new(k[i].clone());
                let lift = |i: usize| LiftedPrismIso { inner: k[i].clone(), _phantom: PhantomData };
                match k.len() {
                    1 => {
                        prism(o, "prism", &p(0), op, x);
                        prism(o, "cloned prism", &p(0).clone(), op, x);
                    },
                    2 => {
                        prism(o, "compose", &p(0).compose(p(1)), op, x);
                        prism(o, "by hand", &IsoPrism::new(ComposedIso { first: k[0].clone(), second: lift(1), _phantom: PhantomData }), op, x);
                        prism(o, "iso_compose", &IsoPrism::new(k[0].iso_compose(lift(1))), op, x);
                    },
                    _ => {
                        prism(o, "compose, compose", &p(0).compose(p(1)).compose(p(2)), op, x);
                        prism(o, "compose (compose)", &p(0).compose(p(1).compose(p(2))), op, x);
                    },
                }
            },
            V::U(x) if op.starts_with("focus") => {
                let (there, foc) = (expr(&a[0]), Foc { back: expr(&a[1]), i: us(&a[2]) });
                lens(o, "compose", &IsoLens::new(there.clone()).compose(IsoLens::new(foc.clone())), op, x, a);
                lens(o, "by hand", &IsoLens::new(Through { there: there.clone(), foc: foc.clone() }), op, x, a);
                let pair = PairIso { inner: foc.clone(), _phantom: PhantomData };
                lens(o, "iso_compose", &IsoLens::new(there.iso_compose(pair)), op, x, a);
            },
            V::U(x) => {
                for (i, e) in [expr(&a[0]), literal(&a[0])].into_iter().enumerate() {
                    let n = |a: &'static str, b: &'static str| if i == 0 { a } else { b };
                    let l = IsoLens::new(e.clone());
                    match op {
                        "forward" => {
                            o.to(n("forward", "forward by hand"), || V::U(e.forward(x)));
                            o.to("convert_forward", || V::U(e.convert_forward(x)));
                            o.to("inverse backward", || V::U(e.inverse().backward(x)));
                            o.to("composed with id", || V::U(e.iso_compose(Basic::Id).forward(x)));
                            o.to("id composed with", || V::U(Basic::Id.iso_compose(e.clone()).forward(x)));
                        },
                        "backward" => {
                            o.to(n("backward", "backward by hand"), || V::U(e.backward(x)));
                            o.to("convert_backward", || V::U(e.convert_backward(x)));
                            o.to("inverse forward", || V::U(e.inverse().forward(x)));
                            o.to("composed with id", || V::U(e.iso_compose(Basic::Id).backward(x)));
                        },
                        "modify" => {
                            o.to("modify", || V::U(IsoExt::modify(&e, x, fun(s(&a[1])))));
                            o.to("modify of an inverse of the inverse", || V::U(Dy(Rc::new(e.inverse())).inverse().modify(x, fun(s(&a[1])))));
                        },
                        "from_target" => {
                            o.see("map_from_target", || e.map_from_target(saw)(x));
                            o.see("map_from_source of the inverse", || e.inverse().map_from_source(saw)(x));
                        },
                        "from_source" => {
                            o.see("map_from_source", || e.map_from_source(saw)(x));
                            o.see("map_from_target of the inverse", || e.inverse().map_from_target(saw)(x));
                        },
                        "verify" => {
                            let y = strs(&a[1]);
                            o.see("verify_laws", || boolean(e.verify_laws(x, &y)));
                            o.see("verify_laws of the inverse", || boolean(e.inverse().verify_laws(&y, x)));
                        },
                        "lens_get" => {
                            o.to("get", || V::U(l.get(x)));
                            o.to("iso_ref", || V::U(l.iso_ref().forward(x)));
                        },
                        "lens_set" => {
                            o.to("set", || V::U(l.set(x)));
                            o.to("cloned set", || V::U(l.clone().set(x)));
                        },
                        "lens_modify" => o.to("modify", || V::U(l.modify(x, fun(s(&a[1]))))),
                        _ => {},
                    }
                }
            },
            V::R(r) => match op {
                "to_either" => {
                    o.to("forward", || V::E(ResultEitherIso.forward(r)));
                    o.to("convert_forward", || V::E(ResultEitherIso.convert_forward(r)));
                    o.to("inverse", || V::E(Re.inverse().backward(r)));
                    o.to("lens", || V::E(IsoLens::new(ResultEitherIso).get(r)));
                    o.to("map_from_target", || V::E(ResultEitherIso.map_from_target(|e: &E| e.clone())(r)));
                },
                "to_validated" => {
                    o.to("forward", || V::W(ResultValidatedIso.forward(r)));
                    o.to("convert_forward", || V::W(ResultValidatedIso.convert_forward(r)));
                    o.to("inverse", || V::W(Rv.inverse().backward(r)));
                    o.to("lens", || V::W(IsoLens::new(ResultValidatedIso).get(r)));
                },
                "modify_either" => {
                    let f = |e: E| match e {
                        Either::Right(x) => Either::Right(app(&a[0])(x)),
                        l => l,
                    };
                    o.to("modify", || V::R(IsoExt::modify(&ResultEitherIso, r, f)));
                    o.to("lens", || V::R(IsoLens::new(ResultEitherIso).modify(r, f)));
                },
                "verify_either" => {
                    let y: E = res(&a[0], &a[1]).map_or_else(Either::left, Either::right);
                    o.see("verify_laws", || boolean(ResultEitherIso.verify_laws(r, &y)));
                    o.see("verify_laws of the inverse", || boolean(Re.inverse().verify_laws(&y, r)));
                },
                "verify_validated" => {
                    let y: W = if a[0] == "ok" { Validated::valid(st(&a[1][0])) } else { Validated::invalid_many(strs(&a[1])) };
                    o.see("verify_laws", || boolean(ResultValidatedIso.verify_laws(r, &y)));
                    o.see("verify_laws of the inverse", || boolean(Rv.inverse().verify_laws(&y, r)));
                },
                "round" => {
                    o.to("either", || V::R(ResultEitherIso.backward(&ResultEitherIso.forward(r))));
                    o.to("validated", || V::R(ResultValidatedIso.backward(&ResultValidatedIso.forward(r))));
                    o.to("modify", || V::R(ResultValidatedIso.modify(r, |w: W| w)));
                    o.to("either lens", || V::R(IsoLens::new(ResultEitherIso).modify(r, |e| e)));
                },
                _ => {},
            },
            V::E(e) => match op {
                "to_result" => {
                    o.to("backward", || V::R(ResultEitherIso.backward(e)));
                    o.to("convert_backward", || V::R(ResultEitherIso.convert_backward(e)));
                    o.to("inverse", || V::R(Re.inverse().forward(e)));
                    o.to("lens", || V::R(IsoLens::new(ResultEitherIso).set(e)));
                    o.to("map_from_source", || V::R(ResultEitherIso.map_from_source(|r: &R| r.clone())(e)));
                },
                "to_validated" => {
                    o.to("iso_compose", || V::W(Er.iso_compose(ResultValidatedIso).forward(e)));
                    o.to("composed by hand", || V::W(ComposedIso { first: Er, second: Rv, _phantom: PhantomData }.forward(e)));
                },
                "round" => {
                    o.to("result", || V::E(ResultEitherIso.forward(&ResultEitherIso.backward(e))));
                    o.to("validated", || {
                        let i = Er.iso_compose(ResultValidatedIso);
                        V::E(i.backward(&i.forward(e)))
                    });
                },
                _ => {},
            },
            V::W(w) => match op {
                "to_result" => {
                    o.to("backward", || V::R(ResultValidatedIso.backward(w)));
                    o.to("convert_backward", || V::R(ResultValidatedIso.convert_backward(w)));
                    o.to("inverse", || V::R(Rv.inverse().forward(w)));
                    o.to("lens", || V::R(IsoLens::new(ResultValidatedIso).set(w)));
                },
                "to_either" => {
                    o.to("iso_compose", || V::E(Er.iso_compose(ResultValidatedIso).backward(w)));
                    o.to("of three", || V::E(Er.iso_compose(Re.iso_compose(Er.iso_compose(Rv))).backward(w)));
                },
                "round" => o.to("result", || V::W(ResultValidatedIso.forward(&ResultValidatedIso.backward(w)))),
                _ => {},
            },
        }
        out.0
    }
    fn ops(kind: &str) -> Vec<(&'static str, &'static str)> {
        match kind {
            "u" => vec![
                ("forward", "e"), ("backward", "e"), ("forward", "e"), ("modify", "ef"), ("modify", "ef"), ("from_target", "e"), ("from_source", "e"), ("verify", "ey"),
                ("lens_get", "e"), ("lens_set", "e"), ("lens_modify", "ef"), ("focus_get", "eei"), ("focus_set", "eeib"), ("focus_modify", "eeiF"),
                ("preview", "P"), ("review", "P"), ("review", "P"), ("none", "P"), ("to_result", "s"),
            ],
            "result" => vec![
                ("to_either", ""), ("to_either", ""), ("to_validated", ""), ("modify_either", "F"), ("verify_either", "sb"), ("verify_validated", "sm"), ("round", ""),
            ],
            "either" => vec![("to_result", ""), ("to_result", ""), ("to_validated", ""), ("round", "")],
            _ => vec![("to_result", ""), ("to_either", ""), ("round", "")],
        }
    }
    fn arg(_: char, _: &str, _: &mut Rng) -> J {
        unreachable!()
    }
    fn args(sig: &str, _: &str, r: &mut Rng) -> Vec<J> {
        fn e(r: &mut Rng, n: usize) -> J {
            match if n == 0 { r.below(4) } else { r.below(8) } {
                0 => json!(["id"]),
                1 => json!(["rev"]),
                2 => json!(["rot"]),
                3 => json!(["tag", *r.pick(&["k", "a"])]),
                4 | 5 => json!(["inv", e(r, n - 1)]),
                _ => json!(["comp", e(r, n - 1), e(r, n - 1)]),
            }
        }
        let word = |r: &mut Rng| json!(r.text(&["a", "k", "b", ""]));
        let words = |r: &mut Rng, lo: usize, hi: usize| (0..lo + r.below(hi - lo + 1)).map(|_| word(r)).collect::<J>();
        let mut a: Vec<J> = Vec::new();
        for c in sig.chars() {
            let x = match c {
                // a focus most often leads back the way it came
                'e' if a.len() == 1 && r.chance(2, 3) => a[0].clone(),
                'e' => e(r, 3),
                'y' => words(r, 0, 4),
                'f' => json!(*r.pick(&["push", "push", "keep", "clear"])),
                'i' => json!(1 + r.below(4)),
                'F' => json!(*r.pick(&["f", "g"])),
                'P' => words(r, 1, 3),
                's' => json!(*r.pick(&["ok", "err"])),
                'm' => words(r, 1, 3),
                _ => word(r),
            };
            a.push(x);
        }
        a
    }
    fn start(r: &mut Rng) -> J {
        let n = r.below(7);
        std::iter::once(json!("u")).chain((0..n).map(|_| json!(*r.pick(&["a", "b", "k"])))).collect()
    }
}

fn main() {
    vk::journey::main::<Isos>();
}
