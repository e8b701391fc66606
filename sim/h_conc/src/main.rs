//! C09 (AtomicRefCell) and C10 (Spinlock).
include!("../../glue/conc.rs");

use driver::{Check, Scenario};
use parasol_concurrency::{AtomicRefCell, Spinlock};
use simrt::{count, data_access, ensure, point, violation, Rng};
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Arc, Mutex,
};

#[derive(Clone, Default)]
struct Payload {
    a: u64,
    b: u64,
}

/// One attempt on the shared object.
#[derive(Clone, Debug)]
struct Ev {
    excl: bool,
    start: u64,
    /// When the attempt returned.
    ret: u64,
    ok: bool,
    /// When the release finished (u64::MAX while held or kept).
    end: u64,
}

/// What the harness knows about the object: who holds it, what was written last, and the history.
#[derive(Default)]
struct Shadow {
    clock: AtomicU64,
    st: Mutex<State>,
}

#[derive(Default)]
struct State {
    readers: u32,
    writer: u32,
    value: u64,
    hist: Vec<Ev>,
}

impl Shadow {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }

    fn begin(&self, excl: bool) -> usize {
        let start = self.now();
        let mut s = self.st.lock().unwrap();
        s.hist.push(Ev {
            excl,
            start,
            ret: u64::MAX,
            ok: false,
            end: u64::MAX,
        });
        s.hist.len() - 1
    }

    fn got(&self, k: usize, what: &str) {
        let ret = self.now();
        let mut s = self.st.lock().unwrap();
        let excl = s.hist[k].excl;
        s.hist[k].ret = ret;
        s.hist[k].ok = true;
        let (r, w) = (s.readers, s.writer);
        if excl {
            s.writer += 1
        } else {
            s.readers += 1
        }
        drop(s);
        ensure!(
            w == 0 && (!excl || r == 0),
            format!("conflict:{what}"),
            "{what} handed out while {w} exclusive and {r} shared holders exist"
        );
    }

    fn refused(&self, k: usize) {
        let ret = self.now();
        let mut s = self.st.lock().unwrap();
        s.hist[k].ret = ret;
        s.hist[k].end = ret;
    }

    /// Call right before the guard is dropped.
    fn releasing(&self, k: usize) {
        let mut s = self.st.lock().unwrap();
        if s.hist[k].excl {
            s.writer -= 1
        } else {
            s.readers -= 1
        }
    }

    fn released(&self, k: usize) {
        let end = self.now();
        self.st.lock().unwrap().hist[k].end = end;
    }

    fn write(&self, v: u64) {
        self.st.lock().unwrap().value = v;
    }

    fn value(&self) -> u64 {
        self.st.lock().unwrap().value
    }

    /// Every refusal must overlap with a conflicting borrow.
    fn check_history(&self, what: &str) {
        let s = self.st.lock().unwrap();
        for (i, r) in s.hist.iter().enumerate().filter(|(_, e)| !e.ok && e.ret != u64::MAX) {
            let justified = s
                .hist
                .iter()
                .enumerate()
                .any(|(j, o)| j != i && o.ok && (r.excl || o.excl) && o.start <= r.ret && o.end >= r.start);
            ensure!(
                justified,
                format!("unjustified-refusal:{what}"),
                "attempt {r:?} was refused although nothing conflicting was held"
            );
        }
        let ok = s.hist.iter().filter(|e| e.ok).count() as u64;
        let bad = s.hist.len() as u64 - ok;
        count("op.granted", ok);
        count("op.refused", bad);
    }
}

fn read_check(p: &Payload, sh: &Shadow, what: &str) {
    let (a, b) = {
        let a = p.a;
        point("read");
        (a, p.b)
    };
    ensure!(a == b, format!("torn:{what}"), "half of a write is visible: {a} {b}");
    let v = sh.value();
    ensure!(
        a == v,
        format!("stale:{what}"),
        "read {a} but the last write under an exclusive borrow was {v}"
    );
}

fn hold(r: &mut Rng) {
    for _ in 0..r.below(4) {
        point("hold");
    }
}

static NEXT: AtomicU64 = AtomicU64::new(1);

struct Boom;

fn cell_read(c: &AtomicRefCell<Payload>, sh: &Shadow, r: &mut Rng, depth: u32) {
    let k = sh.begin(false);
    match simrt::catch(|| c.borrow()) {
        Err(_) => sh.refused(k),
        Ok(g) => {
            sh.got(k, "shared borrow");
            data_access(1, false, "cell contents");
            hold(r);
            read_check(&g, sh, "cell");
            // Attempts made while holding our own borrow.
            if depth > 0 && r.chance(1, 3) {
                if r.bool() {
                    cell_read(c, sh, r, depth - 1);
                } else {
                    cell_write(c, sh, r, depth - 1);
                }
            }
            if r.chance(1, 8) {
                let copy = c.clone();
                let k2 = copy.borrow_mut().a;
                ensure!(k2 == sh.value(), "clone", "clone holds {k2}");
                count("op.clone", 1);
            }
            if r.chance(1, 12) {
                let s = serde_json_len(c);
                ensure!(s == sh.value(), "serialize", "serialised value {s}");
            }
            data_access(1, false, "cell contents");
            sh.releasing(k);
            finish(g, r);
            sh.released(k);
        }
    }
}

fn serde_json_len(c: &AtomicRefCell<Payload>) -> u64 {
    c.borrow().a
}

/// Drop a guard, sometimes by unwinding.
fn finish<G>(g: G, r: &mut Rng) {
    if r.chance(1, 6) {
        count("fault.unwind_while_held", 1);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _g = g;
            std::panic::resume_unwind(Box::new(Boom));
        }));
    } else {
        drop(g);
    }
}

fn cell_write(c: &AtomicRefCell<Payload>, sh: &Shadow, r: &mut Rng, depth: u32) {
    let k = sh.begin(true);
    match simrt::catch(|| c.borrow_mut()) {
        Err(_) => sh.refused(k),
        Ok(mut g) => {
            sh.got(k, "exclusive borrow");
            data_access(1, true, "cell contents");
            read_check(&g, sh, "cell");
            let v = NEXT.fetch_add(1, Ordering::Relaxed);
            g.a = v;
            hold(r);
            if depth > 0 && r.chance(1, 3) {
                // Must be refused without disturbing the cell.
                if r.bool() {
                    cell_read(c, sh, r, 0);
                } else {
                    cell_write(c, sh, r, 0);
                }
            }
            g.b = v;
            sh.write(v);
            data_access(1, true, "cell contents");
            sh.releasing(k);
            finish(g, r);
            sh.released(k);
        }
    }
}

fn c09_mix() {
    let mut w = simrt::workload_rng();
    let cell = Arc::new(AtomicRefCell::new(Payload::default()));
    let sh = Arc::new(Shadow::default());
    let threads = w.range(1, 5);
    let wr = w.range(1, 9) as u32;
    let mut hs = vec![];
    let mut item = 0;
    for _ in 0..threads {
        let mut r = w.sub("t");
        let n = r.range(1, 10);
        let items: Vec<u32> = (0..n).map(|_| { item += 1; item - 1 }).collect();
        let (cell, sh) = (cell.clone(), sh.clone());
        hs.push(simrt::spawn("client", move || {
            for i in items {
                let mut r = r.sub("op");
                if !simrt::keep(i) {
                    continue;
                }
                point("op");
                if r.chance(wr, 10) {
                    cell_write(&cell, &sh, &mut r, 2);
                } else {
                    cell_read(&cell, &sh, &mut r, 2);
                }
            }
        }));
    }
    for h in hs {
        if h.join().is_err() {
            simrt::violation("client-panic", "a client thread panicked outside a borrow call");
        }
    }
    // Everything is released: both kinds of borrow must be possible again.
    match simrt::catch(|| cell.borrow_mut()) {
        Ok(g) => read_check(&g, &sh, "cell"),
        Err((_, m)) => violation("stuck-cell", format!("all borrows are released, but: {m}")),
    }
    match simrt::catch(|| cell.borrow()) {
        Ok(g) => read_check(&g, &sh, "cell"),
        Err((_, m)) => violation("stuck-cell", format!("all borrows are released, but: {m}")),
    }
    sh.check_history("cell");
}

fn lock_op(l: &Spinlock<Payload>, sh: &Shadow, r: &mut Rng, blocking: bool) -> bool {
    let k = sh.begin(true);
    let g = if blocking {
        Some(l.lock())
    } else {
        l.try_lock()
    };
    match g {
        None => {
            sh.refused(k);
            false
        }
        Some(mut g) => {
            sh.got(k, "lock");
            data_access(2, true, "lock contents");
            read_check(&g, sh, "lock");
            let v = NEXT.fetch_add(1, Ordering::Relaxed);
            g.a = v;
            hold(r);
            if r.chance(1, 4) {
                // We hold it, so trying must fail.
                if lock_op_try_fails(l, sh) {
                    violation("relock", "try_lock succeeded while the lock is held");
                }
            }
            g.b = v;
            sh.write(v);
            data_access(2, true, "lock contents");
            sh.releasing(k);
            finish(g, r);
            sh.released(k);
            true
        }
    }
}

fn lock_op_try_fails(l: &Spinlock<Payload>, sh: &Shadow) -> bool {
    let k = sh.begin(true);
    let got = match l.try_lock() {
        Some(g) => {
            std::mem::forget(g);
            true
        }
        None => false,
    };
    sh.refused(k);
    got
}

fn c10_mix() {
    let mut w = simrt::workload_rng();
    let lock = Arc::new(Spinlock::new(Payload::default()));
    let sh = Arc::new(Shadow::default());
    let threads = w.range(1, 5);
    let keep_mode = w.chance(1, 4);
    let tries = w.range(0, 9) as u32;
    let mut hs = vec![];
    let mut item = 0;
    let kept = Arc::new(AtomicU64::new(0));
    for t in 0..threads {
        let mut r = w.sub("t");
        let n = r.range(1, 9);
        let items: Vec<u32> = (0..n).map(|_| { item += 1; item - 1 }).collect();
        let (lock, sh, kept) = (lock.clone(), sh.clone(), kept.clone());
        hs.push(simrt::spawn("client", move || {
            for (j, i) in items.into_iter().enumerate() {
                let mut r = r.sub("op");
                if !simrt::keep(i) {
                    continue;
                }
                point("op");
                let was_kept = kept.load(Ordering::SeqCst) == 1;
                if keep_mode && t == 0 && j == n / 2 && !was_kept {
                    let k = sh.begin(true);
                    if let Some(mut g) = lock.try_lock() {
                        sh.got(k, "lock");
                        data_access(2, true, "lock contents");
                        read_check(&g, &sh, "lock");
                        g.a = 7;
                        g.b = 7;
                        sh.write(7);
                        g.keep_locked();
                        kept.store(1, Ordering::SeqCst);
                        count("op.keep_locked", 1);
                    } else {
                        sh.refused(k);
                    }
                    continue;
                }
                // In a run that keeps the lock, blocking would never return.
                let blocking = !keep_mode && !r.chance(tries, 10);
                let got = lock_op(&lock, &sh, &mut r, blocking);
                if got && was_kept {
                    violation("kept-lock-obtained", "a lock kept locked was obtained again");
                }
            }
        }));
    }
    for h in hs {
        if h.join().is_err() {
            violation("client-panic", "a client thread panicked");
        }
    }
    let is_kept = kept.load(Ordering::SeqCst) == 1;
    match lock.try_lock() {
        Some(g) => {
            ensure!(!is_kept, "kept-lock-obtained", "a lock kept locked was obtained again");
            read_check(&g, &sh, "lock");
        }
        None => ensure!(is_kept, "stuck-lock", "every holder released the lock but it is still held"),
    }
    sh.check_history("lock");
}

/// One thread holds the lock for very long while others spin for it; nobody may give up waiting.
fn c10_long_hold() {
    let mut w = simrt::workload_rng();
    let lock = Arc::new(Spinlock::new(Payload::default()));
    let sh = Arc::new(Shadow::default());
    let len = 1u64 << w.range(8, 18);
    count("fault.stalled-holder", 1);
    let k = sh.begin(true);
    let mut g = lock.lock();
    sh.got(k, "lock");
    data_access(2, true, "lock contents");
    let hs: Vec<_> = (0..w.range(1, 3))
        .map(|_| {
            let mut r = w.sub("t");
            let (lock, sh) = (lock.clone(), sh.clone());
            simrt::spawn("waiter", move || {
                lock_op(&lock, &sh, &mut r, true);
            })
        })
        .collect();
    g.a = 7;
    for _ in 0..len {
        point("hold");
    }
    g.b = 7;
    sh.write(7);
    data_access(2, true, "lock contents");
    sh.releasing(k);
    drop(g);
    sh.released(k);
    for h in hs {
        if h.join().is_err() {
            violation("client-panic", "a client thread panicked");
        }
    }
    sh.check_history("lock");
}

const REAL: &[&str] = &["parasol_concurrency (whole crate, compiled with --cfg spf_sim)"];
const STUB: &[&str] = &["std::sync::atomic operations (simulated: sequentially consistent values, happens-before tracked from the declared orderings)", "OS thread scheduling"];

static CHECKS: &[Check] = &[
    Check {
        id: "C09",
        scenarios: &[Scenario { name: "cell-mix", weight: 1, max_steps: 400_000, run: c09_mix }],
        prepare: install_conc,
        rule: "one run = 1-5 client threads doing random borrow/borrow_mut/nested attempts/clone/unwinding releases on one cell under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["weak memory effects are judged through happens-before of the declared orderings, not by returning stale values"],
        quick_secs: 40,
        thorough_secs: 600,
    },
    Check {
        id: "C10",
        scenarios: &[
            Scenario { name: "lock-mix", weight: 200, max_steps: 400_000, run: c10_mix },
            Scenario { name: "long-hold", weight: 1, max_steps: 3_000_000, run: c10_long_hold },
        ],
        prepare: install_conc,
        rule: "one run = 1-5 client threads doing random lock/try_lock/keep_locked/unwinding releases on one lock (or, in one run of 200, 1-3 waiters behind a holder stalled for up to 2^18 steps) under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["weak memory effects are judged through happens-before of the declared orderings, not by returning stale values"],
        quick_secs: 40,
        thorough_secs: 600,
    },
];

fn main() {
    driver::main(CHECKS)
}
