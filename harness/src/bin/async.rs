//! Async programs (spec/Async.tla) on the real AsyncM, polled by hand in the
//! order the schedule says, or on a Tokio runtime; every run is a history for
//! AsyncTrace.
use futures::task::noop_waker;
use rustica::datatypes::async_monad::AsyncM;
use std::collections::HashSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use vk::*;

#[derive(Debug)]
struct Node {
    tag: String,
    a: Vec<String>,
    n: usize,
    kids: Vec<N>,
}
type N = Arc<Node>;
fn parse(j: &J) -> N {
    let xs = arr(j);
    let mut nd = Node { tag: s(&xs[0]).into(), a: vec![], n: 0, kids: vec![] };
    for x in &xs[1..] {
        match x {
            J::String(t) => nd.a.push(t.clone()),
            J::Number(_) => nd.n = us(x),
            _ => nd.kids.push(parse(x)),
        }
    }
    Arc::new(nd)
}

struct Gate {
    name: String,
    open: bool,
    waker: Option<Waker>,
}
#[derive(Default)]
struct Inner {
    log: Vec<J>,
    gates: Vec<Gate>,
}
struct World {
    m: Mutex<Inner>,
    seed: u64,
    n: Mutex<u64>,
}
type W = Arc<World>;
impl World {
    fn new(seed: u64) -> W {
        Arc::new(World { m: Default::default(), seed, n: Mutex::new(0) })
    }
    fn put(&self, e: J) {
        self.m.lock().unwrap().log.push(e);
    }
    /// one of k equivalent forms
    fn form(&self, k: usize) -> usize {
        let mut n = self.n.lock().unwrap();
        *n += 1;
        Rng::new(self.seed.wrapping_add(*n * 7919)).below(k)
    }
    fn begin(&self, name: &str) -> usize {
        let mut g = self.m.lock().unwrap();
        g.gates.push(Gate { name: name.into(), open: false, waker: None });
        let i = g.gates.len();
        g.log.push(json!({"op": "begin", "n": name, "i": i}));
        i
    }
    fn go(&self, i: usize) {
        let wk = {
            let mut g = self.m.lock().unwrap();
            g.log.push(json!({"op": "go", "i": i}));
            g.gates[i - 1].open = true;
            g.gates[i - 1].waker.take()
        };
        if let Some(w) = wk {
            w.wake();
        }
    }
    fn pending(&self) -> Vec<(usize, String)> {
        let g = self.m.lock().unwrap();
        g.gates.iter().enumerate().filter(|(_, x)| !x.open).map(|(i, x)| (i + 1, x.name.clone())).collect()
    }
}

struct Wait(W, usize);
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.m.lock().unwrap();
        if g.gates[self.1 - 1].open {
            let i = self.1;
            g.log.push(json!({"op": "end", "i": i}));
            Poll::Ready(())
        } else {
            g.gates[self.1 - 1].waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
async fn step(w: W, name: String) -> usize {
    let i = w.begin(&name);
    Wait(w, i).await;
    i
}

fn pre(f: &str) -> impl Fn(String) -> String + Clone + Send + Sync + 'static + use<> {
    let f = f.to_string();
    move |x| format!("{f}{x}")
}
fn with(vs: &[String], x: String) -> Vec<String> {
    let mut v = vs.to_vec();
    v.push(x);
    v
}

type M = AsyncM<String>;
fn am(p: &N, vs: &[String], w: &W) -> M {
    let leaf = |x: String| match w.form(3) {
        0 | 1 => AsyncM::pure(x),
        _ => AsyncM::new(move || {
            let x = x.clone();
            async move { x }
        }),
    };
    let m = match p.tag.as_str() {
        "pure" => leaf(p.a[0].clone()),
        "var" => leaf(vs[p.n - 1].clone()),
        "step" | "tick" => {
            let (w2, n) = (w.clone(), p.a[0].clone());
            let tick = p.tag == "tick";
            let out = move |n: String, i: usize| if tick { format!("{n}#{i}") } else { n };
            match w.form(3) {
                0 => AsyncM::new(move || {
                    let (w, n) = (w2.clone(), n.clone());
                    async move {
                        let i = step(w, n.clone()).await;
                        out(n, i)
                    }
                }),
                // the first half at the moment the future is made
                1 => AsyncM::new(move || {
                    let (w, n) = (w2.clone(), n.clone());
                    let i = w.begin(&n);
                    async move {
                        Wait(w, i).await;
                        out(n, i)
                    }
                }),
                _ => AsyncM::pure(n).bind(move |n| {
                    let w = w2.clone();
                    async move {
                        let i = step(w, n.clone()).await;
                        AsyncM::pure(out(n, i))
                    }
                }),
            }
        }
        "res" => {
            let (w2, n, ok) = (w.clone(), p.a[0].clone(), p.a[1] == "t");
            AsyncM::<String>::from_result_or_default(
                move || {
                    let (w, n) = (w2.clone(), n.clone());
                    async move {
                        step(w, n.clone()).await;
                        if ok { Ok(n) } else { Err("no".to_string()) }
                    }
                },
                p.a[2].clone(),
            )
        }
        "boom" => {
            let (w2, n) = (w.clone(), p.a[0].clone());
            let bang = move |w: &W| {
                w.put(json!({"op": "boom", "n": n}));
                if true {
                    panic!("boom")
                }
            };
            match w.form(4) {
                0 => AsyncM::new(move || {
                    let (w, b) = (w2.clone(), bang.clone());
                    async move {
                        b(&w);
                        String::new()
                    }
                }),
                1 => AsyncM::new(move || {
                    bang(&w2);
                    async move { String::new() }
                }),
                2 => AsyncM::pure(String::new()).bind(move |_| {
                    bang(&w2);
                    async move { AsyncM::pure(String::new()) }
                }),
                _ => AsyncM::pure(String::new()).fmap(move |_| {
                    let (w, b) = (w2.clone(), bang.clone());
                    async move {
                        b(&w);
                        String::new()
                    }
                }),
            }
        }
        "fmap" => {
            let m = am(&p.kids[0], vs, w);
            let f = pre(&p.a[0]);
            let g = move |x| {
                let f = f.clone();
                async move { f(x) }
            };
            if w.form(2) == 0 { m.fmap(g) } else { m.fmap_owned(g) }
        }
        "fmapw" => {
            let m = am(&p.kids[0], vs, w);
            let (w2, n) = (w.clone(), p.a[0].clone());
            let g = move |x: String| {
                let (w, n) = (w2.clone(), n.clone());
                async move {
                    step(w, n.clone()).await;
                    format!("{n}{x}")
                }
            };
            if w.form(2) == 0 { m.fmap(g) } else { m.fmap_owned(g) }
        }
        "bind" => {
            let m = am(&p.kids[0], vs, w);
            let (q, vs2, w2) = (p.kids[1].clone(), vs.to_vec(), w.clone());
            let g = move |x: String| {
                let (q, vs, w) = (q.clone(), vs2.clone(), w2.clone());
                async move { am(&q, &with(&vs, x), &w) }
            };
            if w.form(2) == 0 { m.bind(g) } else { m.bind_owned(g) }
        }
        "ap" => {
            let mf = if p.kids[0].tag == "pure" {
                AsyncM::pure(pre(&p.kids[0].a[0]))
            } else {
                am(&p.kids[0], vs, w).fmap(|n| async move { pre(&n) })
            };
            let m = am(&p.kids[1], vs, w);
            if w.form(2) == 0 { m.apply(mf) } else { m.apply_owned(mf) }
        }
        "zip" => {
            let (a, b) = (am(&p.kids[0], vs, w), am(&p.kids[1], vs, w));
            let g = p.a[0].clone();
            let f = move |x: String, y: String| format!("{g}{x},{y};");
            match w.form(2) {
                0 => a.zip_with(b, f),
                _ => a.zip(b).fmap(move |(x, y)| {
                    let f = f.clone();
                    async move { f(x, y) }
                }),
            }
        }
        "share" => {
            let m = am(&p.kids[0], vs, w);
            let g = p.a[0].clone();
            let f = move |x: String, y: String| format!("{g}{x},{y};");
            match w.form(3) {
                0 => m.clone().zip_with(m, f),
                1 => {
                    let k = AsyncM::new(move || {
                        let m = m.clone();
                        async move { futures::join!(m.try_get(), m.try_get()) }
                    });
                    k.fmap_owned(move |(x, y)| {
                        let f = f.clone();
                        async move { f(x, y) }
                    })
                }
                _ => {
                    let mf = m.fmap(move |x| {
                        let f = f.clone();
                        async move {
                            let x: String = x;
                            move |y: String| f(x.clone(), y)
                        }
                    });
                    // the function's value is on the left
                    m.apply(mf)
                }
            }
        }
        "recov" => am(&p.kids[0], vs, w).recover_with(p.a[0].clone()),
        t => panic!("{t}"),
    };
    if w.form(5) == 0 { m.clone() } else { m }
}

/// Polls by hand; before each further poll lets go the next group.  Gives up after <stop> polls.
fn drive(w: &W, p: &J, m: &M, stop: usize, mut choose: impl FnMut(&[(usize, String)]) -> Vec<usize>) {
    w.put(json!({"op": "start", "p": p}));
    let r = guard(|| {
        let mut fut = Box::pin(m.try_get());
        let wk = noop_waker();
        let mut cx = Context::from_waker(&wk);
        for i in 0..200 {
            if i == stop {
                w.put(json!({"op": "drop"}));
                return Some(None);
            }
            match fut.as_mut().poll(&mut cx) {
                Poll::Ready(v) => return Some(Some(v)),
                Poll::Pending => {
                    w.put(json!({"op": "pend"}));
                    let open = w.pending();
                    for i in choose(&open) {
                        w.go(i);
                    }
                }
            }
        }
        None
    });
    match r {
        Ok(Some(None)) => {}
        Ok(Some(Some(v))) => w.put(json!({"op": "done", "v": v})),
        Ok(None) => w.put(json!({"op": "hang"})),
        Err(_) => w.put(json!({"op": "panic"})),
    }
    // steps abandoned by a panic can no longer be let go
    for g in w.m.lock().unwrap().gates.iter_mut() {
        g.open = true;
    }
}

/// The same on a Tokio runtime, letting steps go as they come.
fn on_tokio(w: &W, rt: &tokio::runtime::Runtime, p: &J, m: &M, rng: &mut Rng) {
    w.put(json!({"op": "start", "p": p}));
    let m2 = m.clone();
    let h = rt.spawn(async move { m2.try_get().await });
    let t0 = std::time::Instant::now();
    while !h.is_finished() {
        let open = w.pending();
        if !open.is_empty() {
            w.go(rng.pick(&open).0);
        }
        std::thread::yield_now();
        if t0.elapsed().as_secs() > 10 {
            w.put(json!({"op": "hang"}));
            return;
        }
    }
    let r = rt.block_on(h);
    w.put(match r {
        Ok(v) => json!({"op": "done", "v": v}),
        Err(_) => json!({"op": "panic"}),
    });
    for g in w.m.lock().unwrap().gates.iter_mut() {
        g.open = true;
    }
}

fn gen_prog(rng: &mut Rng, size: usize, vars: usize, fail: bool, n: &mut usize) -> J {
    let mut name = |rng: &mut Rng| {
        *n += 1;
        if rng.chance(1, 12) { "s0".to_string() } else { format!("s{n}") }
    };
    if size <= 1 {
        return match rng.below(if fail { 8 } else { 5 }) {
            0 => json!(["pure", "x"]),
            1 if vars > 0 => json!(["var", 1 + rng.below(vars)]),
            5 => json!(["boom", name(rng)]),
            6 => json!(["res", name(rng), "t", "d"]),
            7 => json!(["res", name(rng), "f", "d"]),
            4 => json!(["tick", name(rng)]),
            _ => json!(["step", name(rng)]),
        };
    }
    let l = 1 + rng.below(size - 1);
    match rng.below(if fail { 10 } else { 8 }) {
        // what begins in two copies has to be told apart by the trace specification
        7 if size <= 5 => {
            let p = gen_prog(rng, size - 1, vars, fail, n);
            if p.to_string().contains("share") { p } else { json!(["share", "g", p]) }
        }
        0 => json!(["fmap", "f", gen_prog(rng, size - 1, vars, fail, n)]),
        1 => {
            let nm = name(rng);
            json!(["fmapw", nm, gen_prog(rng, size - 1, vars, fail, n)])
        }
        2 | 3 => {
            let a = gen_prog(rng, l, vars, fail, n);
            json!(["bind", a, gen_prog(rng, (size - l).max(1), vars + 1, fail, n)])
        }
        4 | 5 => {
            let a = gen_prog(rng, l, vars, fail, n);
            json!(["zip", "g", a, gen_prog(rng, (size - l).max(1), vars, fail, n)])
        }
        6 | 7 => {
            let a = gen_prog(rng, l, vars, fail, n);
            json!(["ap", a, gen_prog(rng, (size - l).max(1), vars, fail, n)])
        }
        _ => json!(["recov", gen_prog(rng, size - 1, vars, fail, n), "r"]),
    }
}

fn main() {
    quiet_panics();
    let a = Args::get();
    let seed = a.num("seed", 1);
    let mut tr = TraceOut::new(a.str("trace"));
    let mut rng = Rng::new(seed);
    if let Some(path) = a.opt("cases") {
        let mut seen = HashSet::new();
        let flav = a.num("flavours", 1);
        let step = a.num("step", 1) as usize;
        for (ci, c) in cases(path).filter(|c| seen.insert(c.to_string())).enumerate() {
            if ci % step != 0 {
                continue;
            }
            for fl in 0..flav {
                let w = World::new(seed ^ ((ci as u64) << 8) ^ fl);
                let m = am(&parse(&c["p"]), &[], &w);
                let groups: Vec<Vec<String>> =
                    arr(&c["sched"]).iter().map(|g| arr(g).iter().map(|x| s(x).to_string()).collect()).collect();
                for again in 0..(1 + (ci as u64 + fl) % 2) {
                    let mut k = 0;
                    drive(&w, &c["p"], &m, usize::MAX, |open| {
                        let want = groups.get(k).cloned().unwrap_or_default();
                        k += 1;
                        let mut hit: Vec<usize> = open.iter().filter(|o| want.contains(&o.1)).map(|o| o.0).collect();
                        if hit.is_empty() || again > 0 {
                            hit = open.iter().map(|o| o.0).collect();
                        }
                        hit
                    });
                }
                tr.line(&json!({"evs": w.m.lock().unwrap().log, "meta": {"case": c, "flavour": fl}}));
            }
        }
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for i in 0..a.num("n", 0) {
        let size = 2 + rng.below(a.num("size", 12) as usize);
        let p = gen_prog(&mut rng, size, 0, a.opt("fail").is_some(), &mut 0);
        let w = World::new(seed ^ (i << 9) ^ 5);
        let m = am(&parse(&p), &[], &w);
        for _ in 0..1 + rng.below(3) {
            if i % 4 == 3 {
                on_tokio(&w, &rt, &p, &m, &mut rng);
            } else {
                let all = rng.chance(1, 4);
                let mut r2 = rng.clone();
                rng.next();
                let stop = if rng.chance(1, 4) { 1 + rng.below(4) } else { usize::MAX };
                drive(&w, &p, &m, stop, |open| {
                    if all {
                        return open.iter().map(|o| o.0).collect();
                    }
                    let mut v: Vec<usize> = open.iter().filter(|_| r2.chance(1, 3)).map(|o| o.0).collect();
                    if v.is_empty() && !open.is_empty() {
                        v.push(r2.pick(open).0);
                    }
                    v
                });
            }
        }
        tr.line(&json!({"evs": w.m.lock().unwrap().log, "meta": {}}));
    }
    tr.finish();
}
