//! Predicates (spec/Pred.tla): programs over a stack of real predicates.
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::traits::monoid::{Monoid, combine_all, mconcat};
use rustica::traits::semigroup::Semigroup;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;
use vk::*;

type P = Predicate<i64>;
const DOM: i64 = 6;
/// Ways to write the same operation.
const FORMS: &[&str] = &["methods", "operators", "semigroup", "semigroup_owned", "by negation"];

thread_local! {
    static ASKED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// A predicate that tells when it is asked.
fn asking(name: &str, f: impl Fn(&i64) -> bool + 'static) -> P {
    let name = name.to_string();
    Predicate::new(move |x| {
        ASKED.with_borrow_mut(|l| l.push(name.clone()));
        f(x)
    })
}
fn atom(name: &str, form: usize) -> P {
    match name {
        "zero" => asking(name, |x| *x == 0),
        "odd" => asking(name, |x| x % 2 == 1),
        "big" => {
            let least = Rc::new(3);
            asking(name, move |x| *x >= *least)
        },
        "none" if form % 2 == 0 => P::empty(),
        "none" => Predicate::new(|_| false),
        "every" if form % 2 == 0 => !P::empty(),
        "every" => Predicate::new(|_| true),
        _ => panic!("{name}"),
    }
}
fn union(p: P, q: P, form: usize) -> P {
    match form {
        0 => p.union(&q),
        1 => p | q,
        2 => p.combine(&q),
        3 => p.combine_owned(q),
        _ => !(!p & !q),
    }
}
fn inter(p: P, q: P, form: usize) -> P {
    match form {
        0 => p.intersection(&q),
        1 => p & q,
        2 => p.negate().combine(&q.negate()).negate(),
        3 => !(!p).combine_owned(!q),
        _ => p - !q,
    }
}
fn diff(p: P, q: P, form: usize) -> P {
    match form {
        0 => p.diff(&q),
        1 => p - q,
        2 => p.intersection(&q.negate()),
        3 => !(!p).combine_owned(q),
        _ => p & !q,
    }
}
fn step(stk: &mut Vec<P>, op: &J, form: usize) {
    let two = |stk: &mut Vec<P>| {
        let q = stk.pop().unwrap();
        (stk.pop().unwrap(), q)
    };
    match s(&op[0]) {
        "atom" => stk.push(atom(s(&op[1]), form)),
        "set" => {
            let t: Vec<bool> = arr(&op[1]).iter().map(|b| *b == 1).collect();
            stk.push(asking(s(&op[2]), move |x| t[*x as usize]));
        },
        "dup" => stk.push(stk.last().unwrap().clone()),
        "swap" => {
            let (p, q) = two(stk);
            stk.extend([q, p]);
        },
        "neg" => {
            let p = stk.pop().unwrap();
            stk.push(if form % 2 == 0 { p.negate() } else { !p });
        },
        "union" => {
            let (p, q) = two(stk);
            stk.push(union(p, q, form));
        },
        "inter" => {
            let (p, q) = two(stk);
            stk.push(inter(p, q, form));
        },
        "diff" => {
            let (p, q) = two(stk);
            stk.push(diff(p, q, form));
        },
        k @ ("over" | "both" | "less") => {
            let [p, q] = &stk[stk.len() - 2..] else { unreachable!() };
            let r = match (k, form) {
                ("over", 0 | 1) => p.union(q),
                ("over", _) => p.combine(q),
                ("both", _) => p.intersection(q),
                _ => p.diff(q),
            };
            stk.push(r);
        },
        "all" => {
            let r = match form {
                0 => mconcat(stk),
                1 => combine_all(stk.drain(..)),
                _ => stk.iter().rev().fold(P::empty(), |acc, p| union(p.clone(), acc, form)),
            };
            *stk = vec![r];
        },
        k => panic!("{k}"),
    }
}
fn table(p: &P) -> J {
    (0..DOM)
        .map(|x| {
            ASKED.take();
            let b = p.contains(&x) as i64;
            json!([b, ASKED.take()])
        })
        .collect()
}
fn show(stk: &[P]) -> J {
    stk.iter().map(table).collect()
}

fn main() {
    quiet_panics();
    let a = Args::get();
    match a.0[0].as_str() {
        "replay" => {
            let mut rep = Report::new(a.str("report"));
            for c in cases(a.str("cases")) {
                rep.cases += 1;
                let p = arr(&c["p"]);
                for (form, name) in FORMS.iter().enumerate() {
                    let got = guard(|| {
                        let mut stk = Vec::new();
                        p.iter().for_each(|op| step(&mut stk, op, form));
                        show(&stk)
                    });
                    rep.check(s(&p.last().unwrap()[0]), &c, name, &c["r"], &got.unwrap_or(json!("panic")));
                }
            }
            rep.finish();
        },
        "record" => {
            let mut tr = TraceOut::new(a.str("trace"));
            let mut r = Rng::new(a.num("seed", 1));
            for _ in 0..a.num("n", 100) {
                let (mut stk, mut evs) = (Vec::new(), Vec::new());
                while evs.len() < a.num("len", 40) as usize {
                    let op = match r.below(10) {
                        0 | 1 => json!(["atom", *r.pick(&["zero", "odd", "big", "none", "every"])]),
                        2 | 3 => json!(["set", (0..DOM).map(|_| r.below(2)).collect::<Vec<_>>(), format!("s{}", r.below(99))]),
                        _ => json!([*r.pick(&["dup", "swap", "neg", "union", "inter", "diff", "over", "both", "less", "all"])]),
                    };
                    let k = s(&op[0]);
                    if (k == "all" && !r.chance(1, 5)) || stk.len() > 7 && !matches!(k, "swap" | "neg" | "union" | "inter" | "diff" | "all") {
                        continue;
                    }
                    let need = match k {
                        "atom" | "set" => 0,
                        "dup" | "neg" | "all" => 1,
                        _ => 2,
                    };
                    if stk.len() < need {
                        continue;
                    }
                    let form = r.below(FORMS.len());
                    let got = guard(|| {
                        step(&mut stk, &op, form);
                        show(&stk)
                    });
                    evs.push(json!({"op": op, "form": FORMS[form], "r": got.unwrap_or(json!([["panic"]]))}));
                }
                tr.events += evs.len() as u64;
                tr.line(&json!({"evs": evs}));
            }
            tr.finish();
        },
        m => panic!("mode {m}"),
    }
}
