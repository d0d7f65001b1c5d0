//! The real Memoizer under schedules generated from MemoMC, under free-running
//! threads, and under long single-threaded histories; all of them recorded as
//! histories for MemoTrace.
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vk::sched::{Sched, gate, me, parallel, run};
use vk::*;

/// A key whose hash is a scheduling point and collides as asked.
#[derive(Clone, Debug)]
struct Key {
    id: i64,
    collide: bool,
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        gate();
        if self.collide {
            7u64.hash(h)
        } else {
            self.id.hash(h)
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Get { k: i64, brk: bool },
    Clear,
}

struct World {
    memo: Memoizer<Key, i64>,
    log: Mutex<(Vec<J>, i64)>,
    collide: bool,
    spin: bool,
}
impl World {
    fn new(collide: bool, spin: bool, by_default: bool) -> Arc<Self> {
        Arc::new(World {
            memo: if by_default { Memoizer::default() } else { Memoizer::new() },
            log: Mutex::new((vec![], 0)),
            collide,
            spin,
        })
    }
    fn put(&self, e: J) {
        self.log.lock().unwrap().0.push(e);
    }
    fn perform(&self, t: usize, op: &Op) {
        let r = match op {
            Op::Get { k, brk } => {
                self.put(json!({"op": "get", "t": t, "k": k}));
                guard(|| {
                    self.memo.get_or_compute(Key { id: *k, collide: self.collide }, |kk| {
                        self.put(json!({"op": "begin", "t": t, "k": kk.id}));
                        gate();
                        if self.spin {
                            for _ in 0..(kk.id * 300) {
                                std::hint::spin_loop();
                            }
                            std::thread::yield_now();
                        }
                        if *brk {
                            self.put(json!({"op": "break", "t": t}));
                            panic!("f");
                        }
                        let mut g = self.log.lock().unwrap();
                        g.1 += 1;
                        let v = g.1;
                        g.0.push(json!({"op": "end", "t": t, "v": v}));
                        v
                    })
                })
            }
            Op::Clear => {
                self.put(json!({"op": "clear", "t": t}));
                guard(|| {
                    self.memo.clear();
                    0
                })
            }
        };
        self.put(json!({"op": "ret", "t": t, "v": r.unwrap_or(-1)}));
    }
}

fn op_of(v: &J) -> Op {
    match s(&v["o"]) {
        "get" => Op::Get { k: v["k"].as_i64().unwrap(), brk: v["p"].as_bool().unwrap() },
        _ => Op::Clear,
    }
}

/// One schedule on fresh threads; the history it gave.
fn scheduled(case: &J, i: usize) -> J {
    let scripts: Vec<Vec<Op>> = arr(&case["script"]).iter().map(|x| arr(x).iter().map(op_of).collect()).collect();
    let order: Vec<usize> = arr(&case["sched"]).iter().map(|x| us(x) - 1).collect();
    let w = World::new(i % 2 == 1, false, i % 4 >= 2);
    let sc = Sched::new(scripts.len());
    let bodies: Vec<Box<dyn FnOnce() + Send>> = scripts
        .into_iter()
        .enumerate()
        .map(|(t, ops)| {
            let w = w.clone();
            Box::new(move || {
                for (j, op) in ops.iter().enumerate() {
                    if j > 0 {
                        gate();
                    }
                    w.perform(t, op);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let ended = run(&sc, bodies, &order, Duration::from_micros(1500));
    let mut evs = w.log.lock().unwrap().0.clone();
    if !ended {
        evs.push(json!({"op": "hang", "t": 0}));
    }
    json!({"evs": evs, "meta": {"case": case, "collide": i % 2 == 1}})
}

fn main() {
    quiet_panics();
    let a = Args::get();
    let mut tr = TraceOut::new(a.str("trace"));
    let mut rng = Rng::new(a.num("seed", 1));
    if let Some(p) = a.opt("cases") {
        let cs: Vec<J> = cases(p).collect();
        let step = a.num("step", 1) as usize;
        let off = rng.below(step);
        let cs: Vec<J> = cs.into_iter().skip(off).step_by(step).collect();
        let n = cs.len();
        for h in parallel(n, 24, move |i| scheduled(&cs[i], i)) {
            tr.line(&h);
        }
    }
    // free-running threads
    for i in 0..a.num("free", 0) {
        let n = 2 + rng.below(5);
        let keys = 1 + rng.below(3);
        let w = World::new(rng.chance(1, 2), true, false);
        let brk = i % 8 == 0;
        let scripts: Vec<Vec<Op>> = (0..n)
            .map(|_| {
                (0..(2 + rng.below(4)))
                    .map(|_| {
                        if rng.chance(1, 6) {
                            Op::Clear
                        } else {
                            Op::Get { k: 1 + rng.below(keys) as i64, brk: brk && rng.chance(1, 6) }
                        }
                    })
                    .collect()
            })
            .collect();
        let sc = Sched::new(n);
        let meta = format!("{scripts:?}");
        let bodies = scripts
            .into_iter()
            .enumerate()
            .map(|(t, ops)| {
                let w = w.clone();
                Box::new(move || {
                    let _ = me();
                    for op in &ops {
                        w.perform(t, op);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let ended = run(&sc, bodies, &[], Duration::ZERO);
        let mut evs = w.log.lock().unwrap().0.clone();
        if !ended {
            evs.push(json!({"op": "hang", "t": 0}));
        }
        tr.line(&json!({"evs": evs, "meta": {"scripts": meta}}));
    }
    // long histories of one thread over many keys
    for i in 0..a.num("seq", 0) {
        let keys = [3, 20, 90, 300][i as usize % 4];
        let w = World::new(rng.chance(1, 4), false, rng.chance(1, 2));
        let ops = keys * 3;
        for j in 0..ops {
            let op = if rng.chance(1, 2 * keys) {
                Op::Clear
            } else {
                Op::Get { k: rng.below(keys) as i64 - 5, brk: j + 3 == ops && rng.chance(1, 2) }
            };
            w.perform(0, &op);
        }
        let evs = w.log.lock().unwrap().0.clone();
        tr.line(&json!({"evs": evs, "meta": {"keys": keys}}));
    }
    // many keys, each asked for again at the end
    for i in 0..a.num("many", 0) {
        let keys = [4200, 1100, 600, 140][i as usize % 4];
        let w = World::new(false, false, i % 2 == 0);
        for k in (0..keys).chain((0..keys).step_by(7)).chain([0, 1, keys - 1]) {
            w.perform(0, &Op::Get { k, brk: false });
        }
        let evs = w.log.lock().unwrap().0.clone();
        tr.line(&json!({"evs": evs, "meta": {"many": keys}}));
    }
    tr.finish();
}
