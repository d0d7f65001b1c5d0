//! Lenses and prisms (spec/Optics.tla).
use rustica::datatypes::lens::Lens;
use rustica::datatypes::prism::Prism;
use vk::journey::*;
use vk::*;

/// A value whose equality ignores its tag.
#[derive(Clone, Debug)]
struct Loose {
    b: String,
    t: String,
}
impl PartialEq for Loose {
    fn eq(&self, o: &Self) -> bool {
        self.b == o.b
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Nest {
    x: Loose,
    y: Loose,
}
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    one: Loose,
    two: Loose,
    nest: Nest,
}
#[derive(Clone, Debug, PartialEq)]
enum Shape {
    Circle(Loose),
    Rect(Loose, Loose),
    Blank,
    Boxed(Box<Shape>),
}
#[derive(Clone, PartialEq)]
struct Wrapped<T>(T);
#[derive(Clone)]
enum V {
    Rec(Rec),
    Shape(Shape),
}

fn jl(x: &Loose) -> J {
    json!([x.b, x.t])
}
fn ml(v: &J) -> Loose {
    Loose { b: st(&v[0]), t: st(&v[1]) }
}
fn shape(v: &J) -> Shape {
    match s(&v[0]) {
        "circle" => Shape::Circle(ml(&v[1])),
        "rect" => Shape::Rect(ml(&v[1]), ml(&v[2])),
        "blank" => Shape::Blank,
        _ => Shape::Boxed(Box::new(shape(&v[1]))),
    }
}
fn jshape(s: &Shape) -> J {
    match s {
        Shape::Circle(x) => json!(["circle", jl(x)]),
        Shape::Rect(x, y) => json!(["rect", jl(x), jl(y)]),
        Shape::Blank => json!(["blank"]),
        Shape::Boxed(s) => json!(["boxed", jshape(s)]),
    }
}
fn fun(f: &str, x: Loose) -> Loose {
    match f {
        "keep" => x,
        "retag" => Loose { t: "9".into(), ..x },
        f => Loose { b: format!("{f}({})", x.b), ..x },
    }
}
/// What can be focused.
trait Focus: Clone + PartialEq {
    fn read(&self) -> Vec<Loose>;
    fn write(xs: Vec<Loose>) -> Self;
    fn json(&self) -> Vec<J> {
        self.read().iter().map(jl).collect()
    }
    fn of(v: &J) -> Self {
        Self::write(arr(v).iter().map(ml).collect())
    }
    fn via(self, f: &str) -> Self {
        called(self.read()[0].b.clone());
        Self::write(self.read().into_iter().map(|x| fun(f, x)).collect())
    }
}
impl Focus for Loose {
    fn read(&self) -> Vec<Loose> {
        vec![self.clone()]
    }
    fn write(mut xs: Vec<Loose>) -> Self {
        xs.remove(0)
    }
}
impl Focus for Nest {
    fn read(&self) -> Vec<Loose> {
        vec![self.x.clone(), self.y.clone()]
    }
    fn write(mut xs: Vec<Loose>) -> Self {
        Nest { x: xs.remove(0), y: xs.remove(0) }
    }
}
impl Focus for (Loose, Loose) {
    fn read(&self) -> Vec<Loose> {
        vec![self.0.clone(), self.1.clone()]
    }
    fn write(mut xs: Vec<Loose>) -> Self {
        (xs.remove(0), xs.remove(0))
    }
}
impl<T: Focus> Focus for Wrapped<T> {
    fn read(&self) -> Vec<Loose> {
        self.0.read()
    }
    fn write(xs: Vec<Loose>) -> Self {
        Wrapped(T::write(xs))
    }
}
/// The nested pair the other way round.
impl Focus for Wrapped<(Loose, Loose, ())> {
    fn read(&self) -> Vec<Loose> {
        vec![self.0.1.clone(), self.0.0.clone()]
    }
    fn write(mut xs: Vec<Loose>) -> Self {
        let x = xs.remove(0);
        Wrapped((xs.remove(0), x, ()))
    }
}

fn lens<A: Focus, G: Fn(&Rec) -> A, T: Fn(Rec, A) -> Rec>(o: &mut O<V>, name: &'static str, l: &Lens<Rec, A, G, T>, r: &Rec, op: &str, a: &[J]) {
    let f = a.get(1).and_then(|f| f.as_str()).unwrap_or("");
    let c = || r.clone();
    match op {
        "get" => o.see(name, || [json!("val")].into_iter().chain(l.get(r).json()).collect()),
        "set" => o.to(name, || V::Rec(l.set(c(), A::of(&a[1])))),
        "set_always" => o.to(name, || V::Rec(l.set_always(c(), A::of(&a[1])))),
        "modify" => o.to(name, || V::Rec(l.modify(c(), |x| x.via(f)))),
        "modify_always" => o.to(name, || V::Rec(l.modify_always(c(), |x| x.via(f)))),
        _ => panic!("{op}"),
    }
}
fn prism<A: Focus, P: Fn(&Shape) -> Option<A>, R: Fn(&A) -> Shape>(o: &mut O<V>, name: &'static str, p: &Prism<Shape, A, P, R>, s: &Shape, op: &str, a: &[J]) {
    let f = a.get(1).and_then(|f| f.as_str()).unwrap_or("");
    let c = || s.clone();
    match op {
        "preview" => o.see(name, || p.preview(s).map_or(json!(["none"]), |x| [json!("some")].into_iter().chain(x.json()).collect())),
        "review" => o.to(name, || V::Shape(p.review(&A::of(&a[1])))),
        "modify" => o.to(name, || V::Shape(p.modify(c(), |x| x.via(f)))),
        "set_if_different" => o.to(name, || V::Shape(p.set_if_different(c(), A::of(&a[1])))),
        _ => panic!("{op}"),
    }
}
fn unbox(s: &Shape) -> Option<Shape> {
    match s {
        Shape::Boxed(s) => Some((**s).clone()),
        _ => None,
    }
}
fn radius(s: &Shape) -> Option<Loose> {
    match s {
        Shape::Circle(x) => Some(x.clone()),
        _ => None,
    }
}
fn sides(s: &Shape) -> Option<(Loose, Loose)> {
    match s {
        Shape::Rect(x, y) => Some((x.clone(), y.clone())),
        _ => None,
    }
}

struct Optics;
impl Journey for Optics {
    type V = V;
    fn make(v: &J) -> V {
        if v[0] == "rec" {
            V::Rec(Rec { one: ml(&v[1]), two: ml(&v[2]), nest: Nest { x: ml(&v[3]), y: ml(&v[4]) } })
        } else {
            V::Shape(shape(v))
        }
    }
    fn show(v: &V) -> J {
        match v {
            V::Rec(r) => json!(["rec", jl(&r.one), jl(&r.two), jl(&r.nest.x), jl(&r.nest.y)]),
            V::Shape(s) => jshape(s),
        }
    }
    fn forms(v: &V, op: &str, a: &[J]) -> Vec<Form<V>> {
        let mut out = O(Vec::new());
        let o = &mut out;
        // setters and reviewers say when they run
        let one = || {
            Lens::new(|r: &Rec| r.one.clone(), |r: Rec, x: Loose| {
                called("set");
                Rec { one: x, ..r }
            })
        };
        let two = || {
            Lens::new(|r: &Rec| r.two.clone(), |mut r: Rec, x: Loose| {
                called("set");
                r.two = x;
                r
            })
        };
        let quiet = || Lens::new(|r: &Rec| r.nest.clone(), |r: Rec, n: Nest| Rec { nest: n, ..r });
        let nest = || {
            Lens::new(|r: &Rec| r.nest.clone(), |r: Rec, n: Nest| {
                called("set");
                Rec { nest: n, ..r }
            })
        };
        let n3 = || {
            let (outer, inner) = (quiet(), Lens::new(|n: &Nest| n.x.clone(), |n: Nest, x: Loose| Nest { x, ..n }));
            let (outer2, inner2) = (outer.clone(), inner.clone());
            Lens::new(move |r: &Rec| inner.get(&outer.get(r)), move |r: Rec, x: Loose| {
                called("set");
                outer2.modify_always(r, |n| inner2.set_always(n, x.clone()))
            })
        };
        let n4 = || {
            let (outer, inner) = (quiet(), Lens::new(|n: &Nest| n.y.clone(), |n: Nest, y: Loose| Nest { y, ..n }));
            let (outer2, inner2) = (outer.clone(), inner.clone());
            Lens::new(move |r: &Rec| inner.get(&outer.get(r)), move |r: Rec, x: Loose| {
                called("set");
                let n = outer2.get(&r);
                outer2.set_always(r, inner2.set_always(n, x))
            })
        };
        match v {
            V::Rec(r) => match s(&a[0]) {
                "1" => {
                    lens(o, "lens", &one(), r, op, a);
                    lens(o, "cloned lens", &one().clone(), r, op, a);
                },
                "m1" => lens(o, "mapped lens", &one().fmap(Wrapped, |w| w.0), r, op, a),
                "mm1" => lens(o, "twice mapped lens", &one().fmap(Wrapped, |w| w.0).fmap(Wrapped, |w| w.0), r, op, a),
                "2" => lens(o, "lens", &two(), r, op, a),
                "n3" => lens(o, "composed lens", &n3(), r, op, a),
                "m3" => lens(o, "mapped composed lens", &n3().fmap(Wrapped, |w| w.0), r, op, a),
                "n4" => lens(o, "composed lens", &n4(), r, op, a),
                "nest" => lens(o, "lens", &nest(), r, op, a),
                "mnest" => {
                    let l = nest().fmap(|n| Wrapped((n.y, n.x, ())), |w: Wrapped<(Loose, Loose, ())>| Nest { x: w.0.1, y: w.0.0 });
                    lens(o, "mapped lens", &l, r, op, a)
                },
                l => panic!("{l}"),
            },
            V::Shape(x) if op == "box" => o.to("by hand", || V::Shape(unbox(x).unwrap_or_else(|| Shape::Boxed(Box::new(x.clone()))))),
            V::Shape(x) => match s(&a[0]) {
                "circle" => {
                    let p = Prism::new(radius, |x: &Loose| {
                        called("make");
                        Shape::Circle(x.clone())
                    });
                    prism(o, "prism", &p, x, op, a);
                    prism(o, "cloned prism", &p.clone(), x, op, a);
                },
                "rect" => {
                    let p = Prism::for_case::<(), ()>(sides, |x: &(Loose, Loose)| {
                        called("make");
                        Shape::Rect(x.0.clone(), x.1.clone())
                    });
                    prism(o, "for_case", &p, x, op, a);
                },
                "bcircle" => {
                    let (outer, inner) = (Prism::new(unbox, |s: &Shape| Shape::Boxed(Box::new(s.clone()))), Prism::new(radius, |x: &Loose| Shape::Circle(x.clone())));
                    let (outer2, inner2) = (outer.clone(), inner.clone());
                    let p = Prism::new(move |s: &Shape| outer.preview(s).and_then(|s| inner.preview(&s)), move |x: &Loose| {
                        called("make");
                        outer2.review(&inner2.review(x))
                    });
                    prism(o, "composed prism", &p, x, op, a);
                },
                p => panic!("{p}"),
            },
        }
        out.0
    }
    fn ops(kind: &str) -> Vec<(&'static str, &'static str)> {
        if kind == "rec" {
            vec![("get", "L"), ("set", "Lv"), ("set_always", "Lv"), ("modify", "Lf"), ("modify_always", "Lf")]
        } else {
            vec![("preview", "P"), ("review", "Pv"), ("modify", "Pf"), ("modify", "Pf"), ("set_if_different", "Pv"), ("box", ""), ("box", "")]
        }
    }
    fn arg(_: char, _: &str, _: &mut Rng) -> J {
        unreachable!()
    }
    fn args(sig: &str, _: &str, r: &mut Rng) -> Vec<J> {
        let v = |r: &mut Rng| json!([r.text(&["a", "b", "c", ""]), *r.pick(&["0", "1", "2"])]);
        if sig.is_empty() {
            return vec![];
        }
        let l = *r.pick(if sig.starts_with('L') { &["1", "m1", "mm1", "2", "n3", "m3", "n4", "nest", "mnest"][..] } else { &["circle", "rect", "bcircle"] });
        let mut a = vec![json!(l)];
        match sig.chars().nth(1) {
            Some('f') => a.push(json!(*r.pick(&["f", "g", "keep", "retag"]))),
            Some(_) => a.push((0..if ["nest", "mnest", "rect"].contains(&l) { 2 } else { 1 }).map(|_| v(r)).collect()),
            None => {},
        }
        a
    }
    fn start(r: &mut Rng) -> J {
        let mut v = || json!([*r.pick(&["a", "b"]), *r.pick(&["0", "1"])]);
        let (w, x, y, z) = (v(), v(), v(), v());
        match r.below(4) {
            0 | 1 => json!(["rec", w, x, y, z]),
            2 => json!(["circle", w]),
            _ => json!(["rect", w, x]),
        }
    }
}

fn main() {
    vk::journey::main::<Optics>();
}
