//! PersistentVector against spec/PVec.tla: replays TLC's histories on the real
//! vector and records random histories of the real vector for TLC.
use rustica::pvec::{PVecError, PersistentVector};
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vk::*;

type V = PersistentVector<i64>;
const M: i64 = 100;
fn map_f(x: i64) -> i64 {
    (3 * x + 7) % M
}
fn flat_f(x: i64) -> Vec<i64> {
    if x % 2 == 1 {
        vec![x, (x + 1) % M]
    } else if x % 4 == 0 {
        vec![x]
    } else {
        vec![]
    }
}
fn step(a: i64, x: i64) -> i64 {
    (a * 7 + x + 1) % 9973
}

/// The contents of a version, read through every accessor; Err when they disagree.
fn observe(v: &V, light: bool) -> Result<Vec<i64>, String> {
    let n = v.len();
    let by_get: Vec<Option<i64>> = (0..n).map(|i| v.get(i).copied()).collect();
    if by_get.iter().any(|x| x.is_none()) {
        return Err(format!("len {n} but get gives {by_get:?}"));
    }
    let c: Vec<i64> = by_get.into_iter().map(|x| x.unwrap()).collect();
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{}: {:?} but by index {:?}", $what, g, w));
            }
        }};
    }
    same!("iter", v.iter().copied().collect::<Vec<_>>(), c.clone());
    same!("is_empty", v.is_empty(), n == 0);
    same!("first", v.first().copied(), c.first().copied());
    same!("last", v.last().copied(), c.last().copied());
    same!("get(len)", v.get(n), None);
    same!("get(len+7)", v.get(n + 7), None);
    if light {
        return Ok(c);
    }
    same!("to_vec", v.to_vec(), c.clone());
    same!("into_iter", v.clone().into_iter().collect::<Vec<_>>(), c.clone());
    same!("&into_iter", v.into_iter().copied().collect::<Vec<_>>(), c.clone());
    same!("Vec::from", Vec::from(v.clone()), c.clone());
    same!("index", (0..n).map(|i| v[i]).collect::<Vec<_>>(), c.clone());
    same!("try_get", (0..n).map(|i| v.try_get(i).copied().ok()).collect::<Option<Vec<_>>>(), Some(c.clone()));
    same!("fold", v.fold(5, |a, x| step(a, *x)), c.iter().fold(5, |a, x| step(a, *x)));
    same!("fold_left", v.fold_left(&5, |a, x| step(*a, *x)), c.iter().fold(5, |a, x| step(a, *x)));
    same!("fold_right", v.fold_right(&5, |x, a| step(*a, *x)), c.iter().rev().fold(5, |a, x| step(a, *x)));
    same!("length", v.length(), n);
    same!("try_value", v.try_value().copied(), c.first().copied());
    same!("try_into_value", v.clone().try_into_value(), c.first().copied());
    if n > 0 {
        same!("value", *v.value(), c[0]);
        same!("into_value", v.clone().into_value(), c[0]);
    }
    same!("size_hint", v.iter().size_hint(), (n, Some(n)));
    same!("exact len", v.clone().into_iter().len(), n);
    let mut it = v.iter();
    for k in 0..n {
        same!("remaining", it.len(), n - k);
        it.next();
    }
    same!("after the end", it.next(), None);
    same!("after the end", it.next(), None);
    if guard(|| v[n]).is_ok() {
        return Err("indexing past the end did not panic".into());
    }
    Ok(c)
}

fn err_json(e: &PVecError) -> J {
    match e {
        PVecError::IndexOutOfBounds { index, len } => json!(["oob", index, len]),
        PVecError::InvalidRange { start, end } => json!(["range", start, end]),
    }
}

thread_local! { static RAN: std::cell::Cell<(usize, i64)> = const { std::cell::Cell::new((0, 5)) }; }
/// The caller's function is run on `x`.
fn on(x: i64) -> i64 {
    RAN.with(|r| r.set((r.get().0 + 1, step(r.get().1, x))));
    x
}
fn ran() -> J {
    let (n, sum) = RAN.with(|r| r.replace((0, 5)));
    json!(["ran", n, sum])
}

fn ints(v: &J) -> Vec<i64> {
    arr(v).iter().map(|x| x.as_i64().unwrap()).collect()
}

/// Performs call `e` on heap `h`, flavour `fl` choosing between equivalent APIs.
fn perform(h: &[V], e: &J, fl: usize) -> (Vec<V>, J) {
    let v = |k: &str| -> &V { &h[us(&e[k]) - 1] };
    let i = || us(&e["i"]);
    let x = || e["x"].as_i64().unwrap();
    match s(&e["op"]) {
        "from" => {
            let xs = ints(&e["xs"]);
            let r = match fl % 7 {
                0 => V::from_iter(src(&xs, fl / 7)),
                1 => V::from(xs),
                2 => V::from_slice(&xs),
                3 => {
                    let mut r = V::new();
                    r.extend(src(&xs, fl / 7));
                    r
                },
                4 => V::from_slice_with_cache_policy(&xs, ()),
                5 => xs.iter().fold(if fl % 2 == 0 { V::default() } else { V::with_cache_policy(()) }, |a, x| a.push_back(*x)),
                _ => match xs.len() {
                    0 => V::empty(),
                    1 => V::unit(xs[0]),
                    2 => rustica::pvec![xs[0], xs[1]],
                    _ => xs.into_iter().collect(),
                },
            };
            (vec![r], json!(["vec"]))
        },
        "clone" => (vec![v("v").clone()], json!(["vec"])),
        "push_back" => (vec![v("v").push_back(x())], json!(["vec"])),
        "push_front" => (vec![v("v").push_front(x())], json!(["vec"])),
        "extend" => {
            let mut r = v("v").clone();
            r.extend(src(&ints(&e["xs"]), fl));
            (vec![r], json!(["vec"]))
        },
        "pop_back" => match v("v").pop_back() {
            None => (vec![], json!(["none"])),
            Some((r, x)) => (vec![r], json!(["some", x])),
        },
        "pop_front" => match v("v").pop_front() {
            None => (vec![], json!(["none"])),
            Some((r, x)) => (vec![r], json!(["some", x])),
        },
        "push_fronts" => (vec![ints(&e["xs"]).into_iter().fold(v("v").clone(), |a, x| a.push_front(x))], json!(["vec"])),
        o @ ("pop_fronts" | "pop_backs") => {
            let mut a = v("v").clone();
            let mut popped = vec![];
            for _ in 0..i() {
                match if o == "pop_fronts" { a.pop_front() } else { a.pop_back() } {
                    None => break,
                    Some((r, x)) => {
                        a = r;
                        popped.push(x);
                    },
                }
            }
            (vec![a], json!(["popped", popped]))
        },
        "insert" => (vec![v("v").insert(i(), x())], json!(["vec"])),
        "remove" => match v("v").remove(i()) {
            None => (vec![], json!(["none"])),
            Some(r) => (vec![r], json!(["some"])),
        },
        "update" => (vec![v("v").update(i(), x())], json!(["vec"])),
        "try_update" => match v("v").try_update(i(), x()) {
            Ok(r) => (vec![r], json!(["ok"])),
            Err(e) => (vec![], err_json(&e)),
        },
        "split_at" => {
            let (a, b) = v("v").split_at(i());
            (vec![a, b], json!(["vec"]))
        },
        "take" => (vec![v("v").take(i())], json!(["vec"])),
        "skip" => (vec![v("v").skip(i())], json!(["vec"])),
        "concat" => {
            let (a, b) = (v("v"), v("w"));
            let r = match fl % 3 {
                0 => a.concat(b),
                1 => a.combine(b),
                _ => a.clone().combine_owned(b.clone()),
            };
            (vec![r], json!(["vec"]))
        },
        "map" => {
            let a = v("v");
            let r: V = match fl % 3 {
                0 => a.map(|x| map_f(on(*x))),
                1 => a.fmap(|x| map_f(on(*x))),
                _ => a.clone().fmap_owned(|x| map_f(on(x))),
            };
            (vec![r], ran())
        },
        "filter" => (vec![v("v").filter(|x| on(*x) % 2 == 0)], ran()),
        "filter_map" => (
            vec![v("v").filter_map(|x| if on(*x) % 3 != 0 { Some(map_f(*x)) } else { None })],
            ran(),
        ),
        "flat_map" => (vec![v("v").flat_map(|x| src(&flat_f(on(*x)), fl))], ran()),
        "dedup" => (vec![v("v").dedup()], json!(["vec"])),
        "dedup_class" => {
            let d = v("v").map(class).dedup();
            (vec![d.map(|x| x.0)], json!(["vec"]))
        },
        "sorted" => (vec![v("v").sorted()], json!(["vec"])),
        "partition" => {
            let (a, b) = v("v").partition(|x| on(*x) % 2 == 0);
            (vec![a, b], ran())
        },
        "zip" => {
            let z = v("v").zip(v("w")).to_vec();
            (vec![], json!(["zip", z.into_iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()]))
        },
        "chunk" => {
            let c = v("v").chunk(i());
            (vec![], json!(["chunks", c.iter().map(|p| json!(p.to_vec())).collect::<Vec<_>>()]))
        },
        "try_get" => {
            let (a, i) = (v("v"), i());
            let (got, none) = (|x: &i64| json!(["ok", x]), || json!(["oob", i, a.len()]));
            let r = match fl % 4 {
                0 => a.try_get(i).map_or_else(|e| err_json(&e), got),
                1 => a.get(i).map_or_else(none, got),
                2 => guard(|| a[i]).map_or_else(|_| none(), |x| got(&x)),
                _ => a.iter().nth(i).map_or_else(none, got),
            };
            (vec![], r)
        },
        "fold" => {
            let a = v("v");
            (
                vec![],
                json!(["fold", a.fold_left(&5, |a, x| step(*a, *x)), a.fold_right(&5, |x, a| step(*a, *x))]),
            )
        },
        "drop" => (vec![], json!(["gone"])),
        "reread" => match observe(v("v"), fl % 2 == 0) {
            Ok(c) => (vec![], json!(["content", c])),
            Err(m) => (vec![], json!(["inconsistent", m])),
        },
        "compare" => {
            let (a, b) = (v("v"), v("w"));
            (vec![], compare(a, b))
        },
        o => panic!("unknown op {o}"),
    }
}

fn class(x: &i64) -> Cl {
    Cl(*x, (*x + 1).div_euclid(2))
}
fn word(c: Option<std::cmp::Ordering>) -> J {
    json!(c.map_or("none".to_string(), |c| match c {
        std::cmp::Ordering::Less => "lt".to_string(),
        std::cmp::Ordering::Equal => "eq".to_string(),
        std::cmp::Ordering::Greater => "gt".to_string(),
    }))
}
/// Compared by the classes of the elements.
fn by_class(a: &V, b: &V) -> J {
    let p = a.map(class);
    let q = if std::ptr::eq(a, b) { p.clone() } else { b.map(class) };
    let c = p.cmp(&q);
    let ok = p.partial_cmp(&q) == Some(c) && (p == q) == c.is_eq() && q.cmp(&p) == c.reverse() && (!c.is_eq() || hash_of(&p) == hash_of(&q));
    if ok { word(Some(c)) } else { json!("incoherent") }
}
/// Compared by elements that may not be equal to themselves.
fn by_part(a: &V, b: &V, order: bool) -> J {
    let p = a.map(|x| Pt(*x));
    let q = if std::ptr::eq(a, b) { p.clone() } else { b.map(|x| Pt(*x)) };
    if order { word(p.partial_cmp(&q)) } else { json!(p == q && !(p != q)) }
}
fn hash_of<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// ["cmp", equal, less] when all comparison operators agree with each other.
fn compare(a: &V, b: &V) -> J {
    use std::cmp::Ordering::*;
    let (eq, lt) = (a == b, a < b);
    let c = a.cmp(b);
    let ok = (a != b) == !eq
        && (b == a) == eq
        && a.partial_cmp(b) == Some(c)
        && b.cmp(a) == c.reverse()
        && (c == Equal) == eq
        && (c == Less) == lt
        && (a <= b) == (lt || eq)
        && (a > b) == (!lt && !eq)
        && (a >= b) == !lt
        && (!eq || hash_of(a) == hash_of(b));
    if ok {
        json!(["cmp", eq, lt, by_class(a, b), by_part(a, b, false), by_part(a, b, true)])
    } else {
        json!(["incoherent", eq, lt, format!("{c:?}"), hash_of(a) == hash_of(b)])
    }
}

/// Contents as runs [first, length] of consecutive values modulo M, to keep traces small.
fn runs(c: &[i64]) -> J {
    let mut out: Vec<(i64, i64)> = vec![];
    for &x in c {
        if let Some((a, n)) = out.last_mut() {
            if (*a + *n) % M == x {
                *n += 1;
                continue;
            }
        }
        out.push((x, 1));
    }
    json!(out.into_iter().map(|(a, n)| json!([a, n])).collect::<Vec<_>>())
}

fn replay(a: &Args) {
    let mut rep = Report::new(a.str("report"));
    let mode = a.str("mode");
    let flavours = a.num("flavours", 1) as usize;
    for (k, c) in cases(a.str("cases")).enumerate() {
        rep.cases += 1;
        let hist = arr(&c["h"]);
        let vers = arr(&c["vers"]);
        let rets = arr(&c["rets"]);
        for fl in 0..flavours {
            let fl = k + fl;
            let res = guard(|| -> Result<(), (String, J, J)> {
                let mut heap: Vec<V> = vec![];
                for (n, e) in hist.iter().enumerate() {
                    let (new, ret) = perform(&heap, e, fl + n);
                    if ret != rets[n] {
                        return Err((format!("result of call {}", n + 1), rets[n].clone(), ret));
                    }
                    for v in new {
                        let ix = heap.len();
                        let want = vers.get(ix).cloned().unwrap_or(json!("no such version"));
                        if mode == "seq" {
                            match observe(&v, false) {
                                Ok(c) if json!(c) == want => {},
                                Ok(c) => return Err((format!("contents of version {} after call {}", ix + 1, n + 1), want, json!(c))),
                                Err(m) => return Err((format!("reading version {} after call {}", ix + 1, n + 1), want, json!(m))),
                            }
                        }
                        heap.push(v);
                    }
                    if mode == "persist" {
                        // every version that exists, re-read after every call
                        for (ix, v) in heap.iter().enumerate() {
                            let want = &vers[ix];
                            match observe(v, n + 1 < hist.len()) {
                                Ok(c) if &json!(c) == want => {},
                                Ok(c) => return Err((format!("version {} re-read after call {}", ix + 1, n + 1), want.clone(), json!(c))),
                                Err(m) => return Err((format!("version {} re-read after call {}", ix + 1, n + 1), want.clone(), json!(m))),
                            }
                        }
                    }
                }
                if mode == "persist" {
                    // dropping some versions must not disturb the others
                    let keep: Vec<(usize, V)> = heap.into_iter().enumerate().filter(|(i, _)| (i + k) % 2 == 0).collect();
                    for (ix, v) in &keep {
                        let c = observe(v, true);
                        if c.as_ref().ok().map(|c| json!(c)).as_ref() != Some(&vers[*ix]) {
                            return Err((format!("version {} after dropping others", ix + 1), vers[*ix].clone(), json!(format!("{c:?}"))));
                        }
                    }
                } else if mode == "eq" {
                    for (i, va) in heap.iter().enumerate() {
                        for (j, vb) in heap.iter().enumerate() {
                            let want = c["cmps"][i][j].clone();
                            let got = compare(va, vb);
                            if got != want {
                                return Err((format!("comparison of versions {} and {}", i + 1, j + 1), want, got));
                            }
                        }
                        // against the same contents built afresh
                        let fresh = V::from_iter(ints(&vers[i]));
                        let (want, got) = (c["cmps"][i][i].clone(), compare(va, &fresh));
                        if got != want {
                            return Err((format!("version {} against the same contents rebuilt", i + 1), want, got));
                        }
                    }
                }
                Ok(())
            });
            rep.checks += hist.len() as u64;
            match res {
                Ok(Ok(())) => {},
                Ok(Err((what, want, got))) => rep.mismatch("history", &c, &what, want, got),
                Err(p) => rep.mismatch("panic", &c, "panicked", json!("no panic"), json!(p)),
            }
        }
    }
    rep.finish();
}

fn record(a: &Args) {
    let mode = a.str("mode");
    let seed = a.num("seed", 1);
    let n = a.num("n", 50);
    let len = a.num("len", 40) as usize;
    let maxsize = a.num("maxsize", 300) as usize;
    let mut out = TraceOut::new(a.str("trace"));
    for t in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t));
        let mut heap: Vec<V> = vec![];
        let mut evs: Vec<J> = vec![];
        let small = mode == "eq";
        let val = |r: &mut Rng| if small { r.below(3) as i64 } else { r.below(100) as i64 };
        let seqv = |r: &mut Rng, n: usize| -> Vec<i64> {
            let b = r.below(100) as i64;
            if small {
                (0..n).map(|i| (i as i64) % 3).collect()
            } else {
                (0..n).map(|i| (b + i as i64) % M).collect()
            }
        };
        let size = |r: &mut Rng| -> usize {
            match r.below(6) {
                0 => r.below(4),
                1 => 60 + r.below(10),
                2 => 120 + r.below(20),
                3 => r.below(maxsize.max(1)),
                4 => (64 * (1 + r.below(4))).min(maxsize),
                _ => r.below(20),
            }
        };
        let l = if r.chance(1, 3) { 5 + r.below(6) } else { len };
        while evs.len() < l {
            let nv = heap.len();
            // prefer recent versions, sometimes any
            let pickv = |r: &mut Rng| if r.chance(2, 3) { nv - r.below(3.min(nv)) } else { 1 + r.below(nv) };
            let e = if nv == 0 || r.chance(1, 25) {
                let k = size(&mut r);
                json!({"op": "from", "xs": seqv(&mut r, k)})
            } else {
                let v = pickv(&mut r);
                let n = heap[v - 1].len();
                let idx = |r: &mut Rng| match r.below(10) {
                    0 => 0,
                    8 | 9 => (1 + r.below(3)).min(n),
                    1 => n.saturating_sub(1),
                    2 => n,
                    3 => n / 2,
                    4 => n.min(64 * (1 + r.below(3))),
                    5 => n.min(63),
                    6 => n + r.below(3),
                    _ => r.below(n + 1),
                };
                match r.below(if small { 22 } else { 26 }) {
                    0 | 1 => json!({"op": "push_back", "v": v, "x": val(&mut r)}),
                    2 | 3 => json!({"op": "push_front", "v": v, "x": val(&mut r)}),
                    4 => json!({"op": "pop_back", "v": v}),
                    5 => json!({"op": "pop_front", "v": v}),
                    6 => json!({"op": "insert", "v": v, "i": idx(&mut r), "x": val(&mut r)}),
                    7 => json!({"op": "remove", "v": v, "i": idx(&mut r)}),
                    8 => json!({"op": "update", "v": v, "i": idx(&mut r), "x": val(&mut r)}),
                    9 => json!({"op": "try_update", "v": v, "i": idx(&mut r), "x": val(&mut r)}),
                    10 | 11 => json!({"op": "split_at", "v": v, "i": idx(&mut r)}),
                    12 => json!({"op": "take", "v": v, "i": idx(&mut r)}),
                    13 => json!({"op": "skip", "v": v, "i": idx(&mut r)}),
                    14..=16 => {
                        let w = pickv(&mut r);
                        if n + heap[w - 1].len() > maxsize {
                            continue;
                        }
                        json!({"op": "concat", "v": v, "w": w})
                    },
                    17 | 18 => {
                        let k = size(&mut r);
                        if n + k > maxsize {
                            continue;
                        }
                        json!({"op": "extend", "v": v, "xs": seqv(&mut r, k)})
                    },
                    19 => json!({"op": "reread", "v": v}),
                    20 => json!({"op": "compare", "v": v, "w": pickv(&mut r)}),
                    21 if r.chance(1, 2) => json!({"op": "clone", "v": v}),
                    21 => {
                        let m = *r.pick(&[4, 6, 140]);
                        match r.below(4) {
                            0 | 1 => {
                                let k = 1 + r.below(m);
                                if n + k > maxsize {
                                    continue;
                                }
                                json!({"op": "push_fronts", "v": v, "xs": seqv(&mut r, k)})
                            },
                            2 => json!({"op": "pop_fronts", "v": v, "i": r.below(m)}),
                            _ => json!({"op": "pop_backs", "v": v, "i": r.below(m)}),
                        }
                    },
                    22 => {
                        let o = *r.pick(&["map", "filter", "filter_map", "partition", "flat_map"]);
                        json!({"op": o, "v": v})
                    },
                    23 => {
                        let o = *r.pick(&["dedup", "dedup_class", "sorted", "fold"]);
                        if n > 400 {
                            continue;
                        }
                        json!({"op": o, "v": v})
                    },
                    24 => {
                        if n > 300 {
                            continue;
                        }
                        if r.chance(1, 2) {
                            json!({"op": "chunk", "v": v, "i": r.below(70)})
                        } else {
                            json!({"op": "zip", "v": v, "w": pickv(&mut r)})
                        }
                    },
                    _ => json!({"op": "try_get", "v": v, "i": idx(&mut r)}),
                }
            };
            if mode != "eq" && s(&e["op"]) == "compare" {
                continue;
            }
            // runs of the same call: crosses chunk boundaries
            let rep = if matches!(s(&e["op"]), "push_front" | "pop_back" | "pop_front" | "push_back") && r.chance(1, 4) {
                { let m = *r.pick(&[3, 6, 70]); 1 + r.below(m) }
            } else {
                1
            };
            let mut e = e;
            for q in 0..rep {
                if q > 0 {
                    // continue on the version just made
                    e["v"] = json!(heap.len());
                }
                let fl = r.below(100);
                let stop;
                match guard(|| perform(&heap, &e, fl)) {
                    Ok((new, ret)) => {
                        let mut conts = vec![];
                        let mut bad = J::Null;
                        for v in &new {
                            match guard(|| observe(v, q + 1 < rep)).and_then(|x| x) {
                                Ok(c) => conts.push(runs(&c)),
                                Err(m) => bad = json!(m),
                            }
                        }
                        stop = new.is_empty() || !bad.is_null();
                        heap.extend(new);
                        e["ret"] = if bad.is_null() { ret } else { json!(["unreadable", bad]) };
                        e["new"] = json!(conts);
                    },
                    Err(p) => {
                        e["ret"] = json!(["panic", p]);
                        e["new"] = json!([]);
                        stop = true;
                    },
                }
                let broken = matches!(s(&e["ret"][0]), "panic" | "unreadable");
                evs.push(e.clone());
                if broken {
                    break;
                }
                if stop {
                    break;
                }
                let o = e.as_object_mut().unwrap();
                o.remove("ret");
                o.remove("new");
            }
            if matches!(evs.last().map(|e| s(&e["ret"][0]).to_string()).as_deref(), Some("panic" | "unreadable")) {
                break;
            }
        }
        // at the end every version is re-read
        if mode == "persist" || t % 4 == 0 {
            for k in 1..=heap.len() {
                let mut e = json!({"op": "reread", "v": k});
                let (_, ret) = guard(|| perform(&heap, &e, 0)).unwrap_or_else(|p| (vec![], json!(["panic", p])));
                e["ret"] = ret;
                e["new"] = json!([]);
                evs.push(e);
            }
        }
        if mode == "eq" {
            for _ in 0..20 {
                let (v, w) = (1 + r.below(heap.len()), 1 + r.below(heap.len()));
                let mut e = json!({"op": "compare", "v": v, "w": w});
                let (_, ret) = guard(|| perform(&heap, &e, 0)).unwrap_or_else(|p| (vec![], json!(["panic", p])));
                e["ret"] = ret;
                e["new"] = json!([]);
                evs.push(e);
            }
        }
        out.events += evs.len() as u64;
        out.line(&json!({"evs": evs}));
    }
    out.finish();
}

/// Versions are made, read at a few points only (the same ones in every version) and dropped again.
struct Churn {
    r: Rng,
    maxsize: usize,
    points: Vec<usize>,
    heap: Vec<V>,
    live: Vec<usize>,
    evs: Vec<J>,
}
impl Churn {
    fn run(&mut self, n: usize) -> Vec<i64> {
        let b = self.r.below(100) as i64;
        (0..n).map(|i| (b + i as i64) % M).collect()
    }
    fn pick(&mut self) -> usize {
        self.live[self.r.below(self.live.len())]
    }
    fn say(&mut self, mut e: J, fl: usize) {
        let (new, ret) = guard(|| perform(&self.heap, &e, fl)).unwrap_or_else(|p| (vec![], json!(["panic", p])));
        e["ret"] = ret;
        e["new"] = new.iter().map(|_| json!([[-1, 0]])).collect();
        self.evs.push(e);
        self.heap.extend(new);
    }
    fn drop(&mut self, v: usize) {
        self.say(json!({"op": "drop", "v": v}), 0);
        self.heap[v - 1] = V::new();
        self.live.retain(|w| *w != v);
    }
    fn step(&mut self) {
        let max = self.maxsize;
        let k = if self.live.is_empty() { 0 } else { self.r.below(13) };
        let e = match k {
            0 => {
                let n = self.r.below(max);
                json!({"op": "from", "xs": self.run(n)})
            },
            1 | 2 => {
                let (v, w) = (self.pick(), self.pick());
                if self.heap[v - 1].len() + self.heap[w - 1].len() > max {
                    return;
                }
                json!({"op": "concat", "v": v, "w": w})
            },
            3 | 4 => {
                let (v, n) = (self.pick(), self.r.below(max / 3 + 1));
                if self.heap[v - 1].len() + n > max {
                    return;
                }
                json!({"op": *self.r.pick(&["push_fronts", "extend"]), "v": v, "xs": self.run(n)})
            },
            5 => json!({"op": *self.r.pick(&["take", "skip", "split_at"]), "v": self.pick(), "i": self.r.below(max)}),
            6 => json!({"op": *self.r.pick(&["pop_back", "pop_front"]), "v": self.pick()}),
            7 | 8 => json!({"op": "update", "v": self.pick(), "i": *self.r.pick(&self.points), "x": self.r.below(100)}),
            _ => {
                let v = self.pick();
                return self.drop(v);
            },
        };
        let (fl, before) = (self.r.below(100), self.heap.len());
        self.say(e, fl);
        for v in before + 1..=self.heap.len() {
            self.live.push(v);
            for i in self.points.clone() {
                let fl = self.r.below(3);
                self.say(json!({"op": "try_get", "v": v, "i": i}), fl);
            }
        }
        while self.live.len() > 3 {
            let v = self.pick();
            self.drop(v);
        }
    }
    /// What is left is what it was.
    fn end(mut self) -> Vec<J> {
        for v in self.live.clone() {
            let mut e = json!({"op": "reread", "v": v});
            e["ret"] = guard(|| perform(&self.heap, &e, 0)).map_or_else(|p| json!(["panic", p]), |x| x.1);
            e["new"] = json!([]);
            self.evs.push(e);
        }
        self.evs
    }
}
fn churn(a: &Args) {
    let maxsize = a.num("maxsize", 300) as usize;
    let len = a.num("len", 80) as usize;
    let threads = a.num("threads", 0);
    let mut out = TraceOut::new(a.str("trace"));
    for t in 0..a.num("n", 50) {
        let seed = a.num("seed", 1).wrapping_mul(1_000_003).wrapping_add(t);
        let mut r = Rng::new(seed);
        let points: Vec<usize> = (0..1 + r.below(2)).map(|_| r.below(maxsize)).collect();
        let mut c = Churn { r, maxsize, points, heap: vec![], live: vec![], evs: vec![] };
        if threads == 0 {
            while c.evs.len() < len {
                c.step();
            }
            let evs = c.end();
            out.events += evs.len() as u64;
            out.line(&json!({"evs": evs}));
            continue;
        }
        // threads that start from the same versions: to each it is as if it were alone
        while c.evs.len() < len / 3 {
            c.step();
        }
        let gate = std::sync::Barrier::new(threads as usize);
        let all = std::thread::scope(|s| {
            let ts: Vec<_> = (0..threads)
                .map(|k| {
                    let mut c = Churn {
                        r: Rng::new(seed.wrapping_mul(31).wrapping_add(k)),
                        maxsize,
                        points: c.points.clone(),
                        heap: c.heap.clone(),
                        live: c.live.clone(),
                        evs: c.evs.clone(),
                    };
                    let gate = &gate;
                    s.spawn(move || {
                        gate.wait();
                        while c.evs.len() < len {
                            c.step();
                        }
                        c.end()
                    })
                })
                .collect();
            ts.into_iter().map(|t| t.join().unwrap_or_default()).collect::<Vec<_>>()
        });
        for evs in all {
            out.events += evs.len() as u64;
            out.line(&json!({"evs": evs}));
        }
    }
    out.finish();
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => replay(&a),
        "record" if a.str("mode") == "churn" => churn(&a),
        "record" => record(&a),
        _ => panic!("usage"),
    }
}
