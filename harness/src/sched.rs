//! Performing a schedule on real threads: each thread stops at gates (placed in
//! the values and closures the harness hands to the code under test) and the
//! controller lets one thread at a time go on to its next gate, its end, or
//! until it is blocked in the code under test.
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum At {
    Run,
    Gate,
    Done,
}
struct St {
    at: Vec<At>,
    permit: Vec<bool>,
    free: bool,
}
pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// A gate of the current thread; nothing outside a schedule.
pub fn gate() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.gate(i);
    }
}
pub fn me() -> Option<usize> {
    ME.with(|m| m.borrow().as_ref().map(|x| x.1))
}

impl Sched {
    pub fn new(n: usize) -> Arc<Self> {
        Arc::new(Sched {
            m: Mutex::new(St { at: vec![At::Run; n], permit: vec![false; n], free: false }),
            cv: Condvar::new(),
        })
    }
    /// With `extra` further gates that are not threads of the schedule's own.
    pub fn with_extra(n: usize, extra: usize) -> Arc<Self> {
        let mut at = vec![At::Run; n];
        at.extend(vec![At::Done; extra]);
        Arc::new(Sched { m: Mutex::new(St { at, permit: vec![false; n + extra], free: false }), cv: Condvar::new() })
    }
    pub fn gate(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            return;
        }
        g.at[i] = At::Gate;
        self.cv.notify_all();
        while !g.permit[i] && !g.free {
            g = self.cv.wait(g).unwrap();
        }
        g.permit[i] = false;
        g.at[i] = At::Run;
    }
    pub fn done(&self, i: usize) {
        self.m.lock().unwrap().at[i] = At::Done;
        self.cv.notify_all();
    }
    /// Lets thread `i` go on; waits until it stops again, or for `wait`.
    pub fn step(&self, i: usize, wait: Duration) {
        let mut g = self.m.lock().unwrap();
        let end = Instant::now() + wait;
        while g.at[i] == At::Run && Instant::now() < end {
            g = self.cv.wait_timeout(g, wait).unwrap().0;
        }
        if g.at[i] != At::Gate {
            return;
        }
        g.at[i] = At::Run;
        g.permit[i] = true;
        self.cv.notify_all();
        let end = Instant::now() + wait;
        while g.at[i] == At::Run && Instant::now() < end {
            g = self.cv.wait_timeout(g, wait).unwrap().0;
        }
    }
    pub fn free(&self) {
        self.m.lock().unwrap().free = true;
        self.cv.notify_all();
    }
    /// Are all of the first `n` threads done before `wait` has passed?
    pub fn all_done(&self, n: usize, wait: Duration) -> bool {
        let end = Instant::now() + wait;
        let mut g = self.m.lock().unwrap();
        while g.at[..n].iter().any(|a| *a != At::Done) {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
        true
    }
}

static HANGS: AtomicUsize = AtomicUsize::new(0);

/// So many histories hung that there is no point in recording more of them.
pub fn stuck() -> bool {
    HANGS.load(Relaxed) >= 3
}

/// Runs `bodies` as threads under the schedule; false if they did not all end.
pub fn run(sched: &Arc<Sched>, bodies: Vec<Box<dyn FnOnce() + Send>>, order: &[usize], wait: Duration) -> bool {
    let n = bodies.len();
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let s = sched.clone();
        hs.push(std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
            s.gate(i);
            b();
            s.done(i);
        }));
    }
    for &i in order {
        sched.step(i, wait);
    }
    sched.free();
    if !sched.all_done(n, Duration::from_secs(20)) {
        HANGS.fetch_add(1, Relaxed);
        return false;
    }
    for h in hs {
        let _ = h.join();
    }
    true
}

/// Runs `job(0..n)` on several threads, results in order.
pub fn parallel<T: Send + 'static>(n: usize, workers: usize, job: impl Fn(usize) -> T + Send + Sync + 'static) -> Vec<T> {
    let next = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let out = Arc::new(Mutex::new((0..n).map(|_| None).collect::<Vec<Option<T>>>()));
    let job = Arc::new(job);
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (next, out, job) = (next.clone(), out.clone(), job.clone());
            std::thread::spawn(move || {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n || stuck() {
                        break;
                    }
                    let r = job(i);
                    out.lock().unwrap()[i] = Some(r);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let r = std::mem::take(&mut *out.lock().unwrap());
    r.into_iter().flatten().collect()
}
