//! One-shot IO under schedules generated from OnceMC and under free-running
//! threads, recorded as histories for OnceTrace.
use rustica::datatypes::io::IO;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vk::sched::{Sched, gate, parallel, run, stuck};
use vk::*;

/// A value whose cloning is a scheduling point.
#[derive(Debug)]
struct V(i64);
impl Clone for V {
    fn clone(&self) -> Self {
        gate();
        V(self.0)
    }
}

struct World {
    log: Mutex<Vec<J>>,
}
impl World {
    fn put(&self, e: J) {
        self.log.lock().unwrap().push(e);
    }
}

struct Guard(Arc<Sched>, usize);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.done(self.1)
    }
}

fn one_shot(w: &Arc<World>, sc: &Arc<Sched>, n: usize, k: usize, inner: Option<IO<V>>, brk: bool, how: u64) -> IO<V> {
    if inner.is_none() && !brk && how % 50 == 7 {
        // the built-in one-shot: nothing of ours inside, so its events are written around it
        w.put(json!({"op": "call", "t": 99, "k": k}));
        w.put(json!({"op": "begin", "k": k}));
        w.put(json!({"op": "end", "v": 1, "k": k}));
        return IO::delay(Duration::from_millis(1), V(1));
    }
    let (w, sc) = (w.clone(), sc.clone());
    IO::new_async(async move {
        let _g = Guard(sc.clone(), n + k - 1);
        w.put(json!({"op": "begin", "k": k}));
        sc.gate(n + k - 1);
        if how % 9 == 3 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            tokio::task::yield_now().await;
        }
        let mut got = Some(0);
        if let Some(io) = inner {
            w.put(json!({"op": "call", "t": 100 + k, "k": k - 1}));
            got = if how % 2 == 0 {
                tokio::spawn(async move { io.run_async().await.0 }).await.ok()
            } else {
                tokio::task::spawn_blocking(move || io.run().0).await.ok()
            };
            w.put(json!({"op": "ret", "t": 100 + k, "k": k - 1, "v": got.unwrap_or(-1)}));
        }
        let Some(v) = got.filter(|_| !brk) else {
            w.put(json!({"op": "break", "k": k}));
            panic!("effect");
        };
        w.put(json!({"op": "end", "v": v + 1, "k": k}));
        V(v + 1)
    })
}

/// The forms in which a thread may hold and run it; each yields the value of the shared effect.
fn perform(w: &Arc<World>, io: &IO<V>, t: usize, k: usize, form: usize) {
    w.put(json!({"op": "call", "t": t, "k": k}));
    let r = guard(|| match form % 8 {
        0 => io.run().0,
        1 => io.clone().run().0,
        2 => io.fmap(|v| V(v.0 + 10)).run().0 - 10,
        3 => io.bind(|v| IO::pure(V(v.0 + 20))).run().0 - 20,
        4 => io.try_get().unwrap().0,
        5 => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let io = io.clone();
            rt.block_on(async move { io.run_async().await }).0
        }
        6 => {
            let io = io.clone();
            IO::new(|| ()).bind(move |_| io.clone()).run().0
        }
        _ => io.fmap(|v| v.0).apply(IO::pure(|x: i64| x + 5)).run() - 5,
    });
    w.put(json!({"op": "ret", "t": t, "k": k, "v": r.unwrap_or(-1)}));
}

fn history(runs: &[usize], tgt: &[usize], depth: usize, order: &[usize], brk: bool, i: usize, seed: u64, mut meta: J) -> J {
    let mut rng = Rng::new(seed ^ ((i as u64) << 20));
    let n = runs.len();
    let w = Arc::new(World { log: Mutex::new(vec![]) });
    let sc = Sched::with_extra(n, depth);
    let mut ios: Vec<IO<V>> = vec![];
    for k in 1..=depth {
        let how = if depth == 1 { i as u64 } else { rng.below(1000) as u64 };
        ios.push(one_shot(&w, &sc, n, k, ios.last().cloned(), brk && k == 1, how));
    }
    meta["depth"] = json!(depth);
    let bodies: Vec<Box<dyn FnOnce() + Send>> = runs
        .iter()
        .enumerate()
        .map(|(t, &k)| {
            let forms: Vec<usize> = (0..k).map(|_| if i % 3 == 0 { 0 } else { rng.below(8) }).collect();
            let (w, k, io) = (w.clone(), tgt[t], &ios[tgt[t] - 1]);
            let io = if i % 2 == 0 { io.fmap(|v| v) } else { io.clone() };
            Box::new(move || {
                for (j, f) in forms.iter().enumerate() {
                    if j > 0 {
                        gate();
                    }
                    perform(&w, &io, t + 1, k, *f);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let ended = run(&sc, bodies, order, Duration::from_micros(1500));
    let mut evs = w.log.lock().unwrap().clone();
    if !ended {
        evs.push(json!({"op": "hang"}));
    }
    json!({"evs": evs, "meta": meta})
}

fn main() {
    quiet_panics();
    let a = Args::get();
    let seed = a.num("seed", 1);
    let mut tr = TraceOut::new(a.str("trace"));
    let mut rng = Rng::new(seed);
    if let Some(p) = a.opt("cases") {
        let cs: Vec<J> = cases(p).collect();
        let step = a.num("step", 1) as usize;
        let off = rng.below(step);
        let cs: Vec<J> = cs.into_iter().skip(off).step_by(step).collect();
        for h in parallel(cs.len(), 24, move |i| {
            let c = &cs[i];
            let runs: Vec<usize> = arr(&c["runs"]).iter().map(us).collect();
            let tgt: Vec<usize> = arr(&c["tgt"]).iter().map(us).collect();
            let order: Vec<usize> = arr(&c["sched"]).iter().map(|x| us(x) - 1).collect();
            history(&runs, &tgt, us(&c["depth"]), &order, c["brk"].as_bool().unwrap(), i, seed, c.clone())
        }) {
            tr.line(&h);
        }
    }
    let free = a.num("free", 0) as usize;
    for i in 0..free {
        if stuck() {
            break;
        }
        let runs: Vec<usize> = (0..2 + rng.below(6)).map(|_| 1 + rng.below(3)).collect();
        let depth = if i % 3 == 0 { 2 + rng.below(4) } else { 1 };
        let tgt: Vec<usize> = runs.iter().map(|_| 1 + rng.below(depth)).collect();
        let h = history(&runs, &tgt, depth, &[], i % 10 == 9, i, seed ^ 77, json!({"runs": runs}));
        tr.line(&h);
    }
    tr.finish();
}
