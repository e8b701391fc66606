use crate::rng::{mix2, tag, Rng};
use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap, HashSet, VecDeque},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Condvar, Mutex, MutexGuard,
    },
    thread::{self, Thread},
};

pub type Tid = usize;

/// Global progress counter watched by the process watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, Default)]
pub struct Replay {
    pub switches: BTreeMap<u64, u32>,
    pub choices: BTreeMap<u64, u64>,
}

#[derive(Clone, Debug)]
pub struct RunCfg {
    pub seed: u64,
    pub replay: Option<Replay>,
    pub max_steps: u64,
    pub log: bool,
    /// Workload items left out (shrinking).
    pub drops: HashSet<u32>,
    /// Force the scheduler to never preempt (a fault-free, serial execution).
    pub calm: bool,
    /// Varies schedule and fault choices without changing the workload.
    pub salt: u64,
}

impl RunCfg {
    pub fn new(seed: u64) -> Self {
        Self {
            seed,
            replay: None,
            max_steps: 3_000_000,
            log: false,
            drops: HashSet::new(),
            calm: false,
            salt: 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Failure {
    pub kind: String,
    /// Stable identification of what failed.
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub failure: Option<Failure>,
    pub steps: u64,
    pub threads: usize,
    pub switches: Vec<(u64, u32)>,
    pub choices: Vec<(u64, u64)>,
    pub digest: u64,
    pub counters: BTreeMap<String, u64>,
    pub edges: HashSet<u64>,
    pub max_item: u32,
    pub log: Vec<String>,
    pub strategy: String,
    /// Digest of the schedule (thread and operation kind sequence) alone.
    pub sched_digest: u64,
}

type Vc = Vec<u32>;

fn vc_join(a: &mut Vc, b: &Vc) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Ready,
    Blocked(usize),
    /// An idle pool worker; doesn't keep the run alive.
    Idle(usize),
    Done,
}

struct Th {
    name: String,
    status: Status,
    os: Option<Thread>,
    go: Arc<AtomicBool>,
    kind: &'static str,
    clock: Vc,
    acq_pending: Vc,
    rel_fence: Vc,
    unproductive: u32,
    spins: u32,
    prio: u64,
    done_addr: usize,
    ent_ctr: u64,
}

/// Adversarial and fair (round-robin) scheduling alternate in periods of this many steps.
const UNFAIR_STEPS: u64 = 300_000;
const FAIR_QUANTUM: u64 = 31;

#[derive(Debug)]
enum Strat {
    /// Preempt with probability p/1024 to a uniformly chosen thread.
    Uniform(u32),
    Pct {
        change_at: Vec<u64>,
        low: u64,
    },
    /// One thread runs only when nobody else can, or rarely.
    Starve(usize, u32),
    RoundRobin(u64),
    RunToBlock,
    /// Newest thread first.
    Newest,
    Oldest,
}

struct RaceObj {
    writer: Option<(Tid, u32)>,
    reads: Vc,
}

struct Inner {
    threads: Vec<Th>,
    current: Tid,
    rng: Rng,
    choice_rng: Rng,
    strat: Strat,
    step: u64,
    n_choices: u64,
    cfg: RunCfg,
    switches: Vec<(u64, u32)>,
    choices: Vec<(u64, u64)>,
    digest: u64,
    sched_digest: u64,
    locs: HashMap<usize, Vc>,
    races: HashMap<u64, RaceObj>,
    counters: BTreeMap<String, u64>,
    edges: HashSet<u64>,
    log: VecDeque<String>,
    failure: Option<Failure>,
    finished: bool,
    ending: bool,
    max_item: u32,
    handles: Vec<thread::JoinHandle<()>>,
    ext: HashMap<&'static str, Arc<dyn Any + Send + Sync>>,
    weak_fail: u32,
}

pub struct Run {
    inner: Mutex<Inner>,
    done: Condvar,
    pub seed: u64,
    entropy_seed: u64,
    pub(crate) entropy_fail: AtomicBool,
    pub(crate) entropy_draws: AtomicU64,
    pub(crate) entropy_refused: AtomicU64,
    pub(crate) entropy_fail_at: AtomicU64,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Run>, Tid)>> = const { RefCell::new(None) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn managed() -> bool {
    IN_SIM.try_with(|x| x.get()).unwrap_or(false)
}

fn ctx() -> Option<(Arc<Run>, Tid)> {
    if !managed() {
        return None;
    }
    CTX.try_with(|c| c.borrow().clone()).ok().flatten()
}

pub fn with_run<R>(f: impl FnOnce(&Run) -> R) -> Option<R> {
    ctx().map(|(r, _)| f(&r))
}

pub fn tid() -> Tid {
    ctx().map(|x| x.1).unwrap_or(usize::MAX)
}

fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23)
}

fn park_forever() -> ! {
    loop {
        thread::park();
    }
}

impl Run {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Record a failure and never return: the process reports it and exits.
    fn fail(&self, mut g: MutexGuard<'_, Inner>, kind: &str, sig: String, msg: String) -> ! {
        if g.failure.is_none() {
            let threads = g
                .threads
                .iter()
                .enumerate()
                .map(|(i, t)| format!("{i}:{}@{}:{:?}", t.name, t.kind, t.status))
                .map(|s| s.chars().take(80).collect::<String>())
                .collect::<Vec<_>>()
                .join(" ");
            g.failure = Some(Failure {
                kind: kind.into(),
                sig,
                msg: format!("{msg} [threads {threads}]"),
            });
        }
        drop(g);
        self.done.notify_all();
        park_forever()
    }

    fn wait_turn(&self, go: &AtomicBool) {
        while !go.swap(false, Ordering::Acquire) {
            thread::park();
        }
    }

    fn hand_over(&self, g: &mut Inner, to: Tid) {
        g.current = to;
        let t = &g.threads[to];
        t.go.store(true, Ordering::Release);
        if let Some(os) = &t.os {
            os.unpark();
        }
    }
}

impl Inner {
    fn ready_others(&self, me: Tid) -> Vec<Tid> {
        (0..self.threads.len())
            .filter(|&i| i != me && self.threads[i].status == Status::Ready)
            .collect()
    }

    /// Pick who runs next. `me_ready` says whether the current thread may continue.
    fn pick(&mut self, me: Tid, me_ready: bool) -> Option<Tid> {
        let others = self.ready_others(me);
        if others.is_empty() {
            return me_ready.then_some(me);
        }
        // Unfair scheduling is a fault: it lasts for a while and then stops.
        let fair = (self.step / UNFAIR_STEPS) % 2 == 1;
        let spinning = me_ready && self.threads[me].unproductive > 6;
        if spinning {
            self.threads[me].unproductive = 3;
        }
        if let Some(rep) = &self.cfg.replay {
            if let Some(&t) = rep.switches.get(&self.step) {
                let t = t as usize;
                if t == me && me_ready || others.contains(&t) {
                    return Some(t);
                }
            }
            if me_ready && !spinning && !(fair && self.step % FAIR_QUANTUM == 0) {
                return Some(me);
            }
            // Next thread in round-robin order.
            return others.iter().copied().find(|&t| t > me).or(Some(others[0]));
        }
        if self.cfg.calm {
            return if me_ready && !spinning && !(fair && self.step % FAIR_QUANTUM == 0) {
                Some(me)
            } else {
                others.iter().copied().find(|&t| t > me).or(Some(others[0]))
            };
        }
        if fair {
            return if me_ready && !spinning && self.step % FAIR_QUANTUM != 0 {
                Some(me)
            } else {
                others.iter().copied().find(|&t| t > me).or(Some(others[0]))
            };
        }
        let n = others.len();
        let next = match &mut self.strat {
            Strat::Uniform(p) => {
                if me_ready && !spinning && self.rng.below(1024) >= *p as usize {
                    me
                } else {
                    others[self.rng.below(n)]
                }
            }
            Strat::Pct { change_at, low } => {
                if change_at.first() == Some(&self.step) {
                    change_at.remove(0);
                    *low -= 1;
                    self.threads[me].prio = *low;
                }
                if spinning {
                    *low -= 1;
                    self.threads[me].prio = *low;
                }
                let best = *others
                    .iter()
                    .max_by_key(|&&t| self.threads[t].prio)
                    .unwrap();
                if me_ready && !spinning && self.threads[me].prio > self.threads[best].prio {
                    me
                } else {
                    best
                }
            }
            Strat::Starve(victim, p) => {
                let v = *victim;
                let pool: Vec<Tid> = others.iter().copied().filter(|&t| t != v).collect();
                if me_ready && me != v && !spinning && self.rng.below(1024) >= *p as usize {
                    me
                } else if pool.is_empty() {
                    if me_ready && !spinning && me != v && self.rng.below(512) != 0 {
                        me
                    } else if me == v && me_ready && !spinning {
                        me
                    } else {
                        others[self.rng.below(n)]
                    }
                } else if self.rng.below(400) == 0 {
                    others[self.rng.below(n)]
                } else {
                    pool[self.rng.below(pool.len())]
                }
            }
            Strat::RoundRobin(q) => {
                if me_ready && !spinning && self.step % *q != 0 {
                    me
                } else {
                    others.iter().copied().find(|&t| t > me).unwrap_or(others[0])
                }
            }
            Strat::RunToBlock => {
                if me_ready && !spinning {
                    me
                } else {
                    others[self.rng.below(n)]
                }
            }
            Strat::Newest => {
                let top = *others.last().unwrap();
                if me_ready && !spinning && (me > top || self.rng.below(64) != 0) {
                    me
                } else if spinning {
                    others[self.rng.below(n)]
                } else {
                    top
                }
            }
            Strat::Oldest => {
                let top = others[0];
                if me_ready && !spinning && (me < top || self.rng.below(8) != 0) {
                    me
                } else if spinning {
                    others[self.rng.below(n)]
                } else {
                    top
                }
            }
        };
        Some(next)
    }

    fn note(&mut self, me: Tid, kind: &'static str, val: u64) {
        self.step += 1;
        let k = tag_cached(kind);
        self.digest = fnv(self.digest, k ^ (me as u64) << 48 ^ val);
        self.sched_digest = fnv(self.sched_digest, k ^ (me as u64) << 48);
        if self.cfg.log {
            if self.log.len() > 20000 {
                self.log.pop_front();
            }
            let s = format!("{} t{} {}", self.step, me, kind);
            self.log.push_back(s);
        }
    }

    fn record_switch(&mut self, from: Tid, to: Tid) {
        self.switches.push((self.step, to as u32));
        let e = mix2(
            tag_cached(self.threads[from].kind),
            tag_cached(self.threads[to].kind),
        );
        self.edges.insert(e);
    }
}

fn tag_cached(s: &'static str) -> u64 {
    thread_local!(static C: RefCell<HashMap<usize, u64>> = RefCell::new(HashMap::new()));
    C.try_with(|c| {
        *c.borrow_mut()
            .entry(s.as_ptr() as usize ^ s.len() << 48)
            .or_insert_with(|| tag(s))
    })
    .unwrap_or_else(|_| tag(s))
}

/// A scheduling point.
pub fn point(kind: &'static str) {
    let Some((run, me)) = ctx() else { return };
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut g = run.lock();
    if g.failure.is_some() {
        drop(g);
        park_forever();
    }
    g.note(me, kind, 0);
    g.threads[me].kind = kind;
    if g.step > g.cfg.max_steps {
        let m = g.cfg.max_steps;
        run.fail(
            g,
            "livelock",
            "no-progress".into(),
            format!("the run did not finish within {m} steps"),
        );
    }
    if g.threads[me].unproductive > 6 {
        g.threads[me].spins += 1;
        if g.threads[me].spins > 5_000 && g.ready_others(me).is_empty() {
            run.fail(
                g,
                "deadlock",
                format!("spin:{kind}"),
                "a thread spins forever and nobody else can run".into(),
            );
        }
        if g.threads[me].spins > 200_000 {
            run.fail(
                g,
                "livelock",
                format!("spin:{kind}"),
                "a thread spins without ever making progress".into(),
            );
        }
    }
    let next = g.pick(me, true).unwrap();
    if next != me {
        g.record_switch(me, next);
        let go = g.threads[me].go.clone();
        run.hand_over(&mut g, next);
        drop(g);
        run.wait_turn(&go);
    }
}

fn block_impl(kind: &'static str, status: Status) -> bool {
    let Some((run, me)) = ctx() else { return false };
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut g = run.lock();
    if g.failure.is_some() {
        drop(g);
        park_forever();
    }
    g.note(me, kind, 1);
    g.threads[me].kind = kind;
    g.threads[me].unproductive = 0;
    g.threads[me].spins = 0;
    if matches!(status, Status::Idle(_)) && g.ending {
        return false;
    }
    g.threads[me].status = status;
    leave(&run, g, me);
    let g = run.lock();
    !(matches!(status, Status::Idle(_)) && g.ending)
}

/// Give the baton away from a thread that can't continue, and wait to get it back.
fn leave(run: &Arc<Run>, mut g: MutexGuard<'_, Inner>, me: Tid) {
    let go = g.threads[me].go.clone();
    let done = g.threads[me].status == Status::Done;
    match g.pick(me, false) {
        Some(next) => {
            g.record_switch(me, next);
            run.hand_over(&mut g, next);
        }
        None => {
            if let Some(next) = (0..g.threads.len())
                .find(|&i| g.threads[i].status == Status::Blocked(SETTLE))
            {
                g.threads[next].status = Status::Ready;
                if next == me {
                    g.current = me;
                    return;
                }
                g.record_switch(me, next);
                run.hand_over(&mut g, next);
                drop(g);
                if !done {
                    run.wait_turn(&go);
                }
                return;
            }
            let stuck = g
                .threads
                .iter()
                .any(|t| matches!(t.status, Status::Blocked(_)));
            let alive = g
                .threads
                .iter()
                .any(|t| !matches!(t.status, Status::Done));
            if stuck || g.threads[0].status != Status::Done {
                let who = g
                    .threads
                    .iter()
                    .filter(|t| matches!(t.status, Status::Blocked(_)))
                    .map(|t| t.kind)
                    .collect::<std::collections::BTreeSet<_>>()
                    .into_iter()
                    .collect::<Vec<_>>()
                    .join("+");
                run.fail(
                    g,
                    "deadlock",
                    format!("blocked:{who}"),
                    "threads are blocked and nothing can ever wake them".into(),
                );
            }
            if alive {
                // Only idle workers are left: let them exit.
                g.ending = true;
                for t in g.threads.iter_mut() {
                    if matches!(t.status, Status::Idle(_)) {
                        t.status = Status::Ready;
                    }
                }
                let next = (0..g.threads.len())
                    .find(|&i| g.threads[i].status == Status::Ready)
                    .unwrap();
                if next == me {
                    g.current = me;
                    return;
                }
                run.hand_over(&mut g, next);
            } else {
                g.finished = true;
                drop(g);
                run.done.notify_all();
                return;
            }
        }
    }
    drop(g);
    if !done {
        run.wait_turn(&go);
    }
}

/// Block until [`wake`] is called with the same address. May return early.
pub fn block(kind: &'static str, addr: usize) {
    block_impl(kind, Status::Blocked(addr));
}

const SETTLE: usize = usize::MAX;

/// Block until no other thread can run.
pub fn settle() {
    block_impl("settle", Status::Blocked(SETTLE));
}

/// Block as an idle worker. Returns false once the run is over.
pub fn idle(addr: usize) -> bool {
    block_impl("idle", Status::Idle(addr))
}

pub fn wake(addr: usize) {
    let Some((run, _)) = ctx() else { return };
    let mut g = run.lock();
    for t in g.threads.iter_mut() {
        if t.status == Status::Blocked(addr) || t.status == Status::Idle(addr) {
            t.status = Status::Ready;
        }
    }
}

/// A nondeterministic choice in 0..n, recorded; 0 is the benign value.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let Some((run, _)) = ctx() else { return 0 };
    let mut g = run.lock();
    let idx = g.n_choices;
    g.n_choices += 1;
    let v = if let Some(rep) = &g.cfg.replay {
        (rep.choices.get(&idx).copied().unwrap_or(0) as usize).min(n - 1)
    } else if g.cfg.calm {
        0
    } else {
        g.choice_rng.below(n)
    };
    if v != 0 {
        g.choices.push((idx, v as u64));
    }
    g.digest = fnv(g.digest, v as u64 ^ 0x55aa);
    v
}

/// A recorded biased coin: true with probability num/den; false is the benign value.
pub fn coin(num: u32, den: u32) -> bool {
    let Some((run, _)) = ctx() else { return false };
    let mut g = run.lock();
    let idx = g.n_choices;
    g.n_choices += 1;
    let v = if let Some(rep) = &g.cfg.replay {
        rep.choices.get(&idx).copied().unwrap_or(0) != 0
    } else if g.cfg.calm {
        false
    } else {
        g.choice_rng.below(den as usize) < num as usize
    };
    if v {
        g.choices.push((idx, 1));
    }
    g.digest = fnv(g.digest, v as u64 ^ 0xaa55);
    v
}

/// Does the fault `name` strike here? Counted when it does.
pub fn fault(name: &str, num: u32, den: u32) -> bool {
    let v = coin(num, den);
    if v {
        count(&format!("fault.{name}"), 1);
    }
    v
}

/// Should a weak operation fail spuriously?
pub fn spurious() -> bool {
    let Some((run, _)) = ctx() else { return false };
    let w = run.lock().weak_fail;
    w != 0 && {
        let v = coin(w, 256);
        if v {
            count("fault.spurious_weak_failure", 1);
        }
        v
    }
}

/// Count a fault, probe or event.
pub fn count(name: &str, n: u64) {
    let Some((run, _)) = ctx() else { return };
    let mut g = run.lock();
    match g.counters.get_mut(name) {
        Some(c) => *c += n,
        None => {
            g.counters.insert(name.to_string(), n);
        }
    }
}

/// Is workload item `i` part of this run? (Items are removed when shrinking.)
pub fn keep(i: u32) -> bool {
    let Some((run, _)) = ctx() else { return true };
    let mut g = run.lock();
    g.max_item = g.max_item.max(i + 1);
    !g.cfg.drops.contains(&i)
}

/// Fold an observable value into the run's digest.
pub fn observe(v: u64) {
    let Some((run, _)) = ctx() else { return };
    let mut g = run.lock();
    g.digest = fnv(g.digest, v ^ 0x0b5e);
}

pub fn logln(f: impl FnOnce() -> String) {
    let Some((run, me)) = ctx() else { return };
    let mut g = run.lock();
    if g.cfg.log {
        let s = format!("{} t{} {}", g.step, me, f());
        g.log.push_back(s);
    }
}

pub fn step() -> u64 {
    ctx().map(|(r, _)| r.lock().step).unwrap_or(0)
}

/// Report a property violation. Never returns.
pub fn violation(sig: impl Into<String>, msg: impl Into<String>) -> ! {
    let (sig, msg) = (sig.into(), msg.into());
    match ctx() {
        Some((run, _)) => {
            let g = run.lock();
            run.fail(g, "violation", sig, msg)
        }
        None => panic!("violation outside a run: {sig}: {msg}"),
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { $crate::violation($sig, format!($($arg)*)) }
    };
}

/// Per-run extension state (e.g. the worker pools).
pub fn ext<T: Any + Send + Sync>(key: &'static str, make: impl FnOnce() -> T) -> Arc<T> {
    let (run, _) = ctx().expect("ext outside a run");
    let existing = run.lock().ext.get(key).cloned();
    let a = match existing {
        Some(a) => a,
        None => {
            let a: Arc<dyn Any + Send + Sync> = Arc::new(make());
            run.lock().ext.insert(key, a.clone());
            a
        }
    };
    a.downcast::<T>().expect("ext type")
}

// ---- happens-before tracking ----

fn acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}

fn rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Access {
    Load,
    Store,
    Rmw,
}

pub fn atomic(addr: usize, access: Access, order: Ordering, progress: bool, val: u64) {
    let Some((run, me)) = ctx() else { return };
    let mut g = run.lock();
    let g = &mut *g;
    // Relaxed counters (identifiers) may be process-wide and differ between identical runs.
    if !(access == Access::Rmw && order == Ordering::Relaxed) {
        g.digest = fnv(g.digest, val);
    }
    let t = &mut g.threads[me];
    if progress {
        t.unproductive = 0;
        t.spins = 0;
    } else {
        t.unproductive += 1;
    }
    let loc = g.locs.entry(addr).or_default();
    if access != Access::Store {
        if acq(order) {
            vc_join(&mut t.clock, loc);
        } else {
            vc_join(&mut t.acq_pending, loc);
        }
    }
    if access != Access::Load {
        let mut msg = if rel(order) {
            t.clock.clone()
        } else {
            t.rel_fence.clone()
        };
        if access == Access::Rmw {
            // Continue the release sequence.
            vc_join(&mut msg, loc);
        }
        *loc = msg;
        t.clock[me] += 1;
    }
}

pub fn fence(order: Ordering) {
    let Some((run, me)) = ctx() else { return };
    let mut g = run.lock();
    let t = &mut g.threads[me];
    if acq(order) {
        let p = t.acq_pending.clone();
        vc_join(&mut t.clock, &p);
    }
    if rel(order) {
        t.rel_fence = t.clock.clone();
        t.clock[me] += 1;
    }
}

pub fn acquire(addr: usize) {
    let Some((run, me)) = ctx() else { return };
    let mut g = run.lock();
    let g = &mut *g;
    if let Some(l) = g.locs.get(&addr) {
        vc_join(&mut g.threads[me].clock, l);
    }
}

pub fn release(addr: usize) {
    let Some((run, me)) = ctx() else { return };
    let mut g = run.lock();
    let g = &mut *g;
    let t = &mut g.threads[me];
    vc_join(g.locs.entry(addr).or_default(), &t.clock);
    t.clock[me] += 1;
}

/// May a read of the write-once object at `addr` miss the write? Only if the write isn't ordered
/// before the calling thread, and then as the run decides.
pub fn stale(addr: usize) -> bool {
    let Some((run, me)) = ctx() else { return false };
    let unordered = {
        let g = run.lock();
        let clock = &g.threads[me].clock;
        g.weak_fail != 0
            && g.locs.get(&addr).is_some_and(|l| {
                l.iter()
                    .enumerate()
                    .any(|(t, &c)| c > clock.get(t).copied().unwrap_or(0))
            })
    };
    unordered && fault("stale_read", 1, 3)
}

pub fn forget(addr: usize) {
    let Some((run, _)) = ctx() else { return };
    run.lock().locs.remove(&addr);
}

/// A plain (non-atomic) access to the datum `id` happened; report a data race if it is unordered
/// with a conflicting access.
pub fn data_access(id: u64, write: bool, what: &str) {
    let Some((run, me)) = ctx() else { return };
    let mut guard = run.lock();
    let g = &mut *guard;
    let clock = g.threads[me].clock.clone();
    let o = g.races.entry(id).or_insert(RaceObj {
        writer: None,
        reads: vec![],
    });
    let seen = |t: Tid, c: u32| clock.get(t).copied().unwrap_or(0) >= c;
    let mut bad = None;
    if let Some((w, c)) = o.writer {
        if w != me && !seen(w, c) {
            bad = Some((w, "write"));
        }
    }
    if write {
        for (t, &c) in o.reads.iter().enumerate() {
            if c > 0 && t != me && !seen(t, c) {
                bad = Some((t, "read"));
            }
        }
    }
    if let Some((t, k)) = bad {
        let m = format!(
            "{} by thread {me} is not ordered after a {k} of the same datum by thread {t}: {what}",
            if write { "write" } else { "read" }
        );
        run.fail(guard, "violation", format!("data-race:{what}"), m);
    }
    let c = g.threads[me].clock[me].max(1);
    if write {
        o.writer = Some((me, c));
        o.reads.clear();
    } else {
        if o.reads.len() <= me {
            o.reads.resize(me + 1, 0);
        }
        o.reads[me] = c;
    }
}

// ---- threads ----

pub struct JoinHandle<T> {
    run: Arc<Run>,
    tid: Tid,
    result: Arc<Mutex<Option<thread::Result<T>>>>,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> thread::Result<T> {
        loop {
            let (done, addr) = {
                let g = self.run.lock();
                let t = &g.threads[self.tid];
                (t.status == Status::Done, t.done_addr)
            };
            if done {
                let mut g = self.run.lock();
                let c = g.threads[self.tid].clock.clone();
                let me = tid();
                vc_join(&mut g.threads[me].clock, &c);
                drop(g);
                return self.result.lock().unwrap().take().unwrap();
            }
            block("join", addr);
        }
    }

    /// Like [`Self::join`], but also waits for the thread's destructors.
    pub fn join_os(self) -> thread::Result<T> {
        let (run, tid) = (self.run.clone(), self.tid);
        let res = self.join();
        let os = {
            let mut g = run.lock();
            let id = g.threads[tid].os.as_ref().map(|t| t.id());
            let at = g.handles.iter().position(|h| Some(h.thread().id()) == id);
            at.map(|i| g.handles.swap_remove(i))
        };
        if let Some(h) = os {
            let _ = h.join();
        }
        res
    }

    pub fn is_done(&self) -> bool {
        self.run.lock().threads[self.tid].status == Status::Done
    }
}

fn new_thread<T: Send + 'static>(
    run: &Arc<Run>,
    parent: Option<Tid>,
    name: &str,
    stack: usize,
    f: impl FnOnce() -> T + Send + 'static,
) -> JoinHandle<T> {
    let result = Arc::new(Mutex::new(None));
    let go = Arc::new(AtomicBool::new(false));
    let tid = {
        let mut g = run.lock();
        let tid = g.threads.len();
        let mut clock = match parent {
            Some(p) => {
                let c = g.threads[p].clock.clone();
                g.threads[p].clock[p] += 1;
                c
            }
            None => vec![],
        };
        if clock.len() <= tid {
            clock.resize(tid + 1, 0);
        }
        clock[tid] = 1;
        let prio = g.rng.u64() >> 1 | 1 << 40;
        g.threads.push(Th {
            name: name.into(),
            status: Status::Ready,
            os: None,
            go: go.clone(),
            kind: "start",
            clock,
            acq_pending: vec![],
            rel_fence: vec![],
            unproductive: 0,
            spins: 0,
            prio,
            done_addr: Arc::as_ptr(&go) as usize,
            ent_ctr: 0,
        });
        for t in g.threads.iter_mut() {
            if t.clock.len() <= tid {
                t.clock.resize(tid + 1, 0);
            }
        }
        tid
    };
    let (run2, result2) = (run.clone(), result.clone());
    let os = thread::Builder::new()
        .name(format!("sim-{name}"))
        .stack_size(stack)
        .spawn(move || {
            run2.wait_turn(&go);
            CTX.with(|c| *c.borrow_mut() = Some((run2.clone(), tid)));
            IN_SIM.with(|c| c.set(true));
            let res = catch_unwind(AssertUnwindSafe(f));
            IN_SIM.with(|c| c.set(false));
            CTX.with(|c| *c.borrow_mut() = None);
            *result2.lock().unwrap() = Some(res);
            let mut g = run2.lock();
            g.note(tid, "exit", 0);
            g.threads[tid].status = Status::Done;
            let addr = g.threads[tid].done_addr;
            for t in g.threads.iter_mut() {
                if t.status == Status::Blocked(addr) {
                    t.status = Status::Ready;
                }
            }
            leave(&run2, g, tid);
        })
        .expect("spawn simulated thread");
    let mut g = run.lock();
    g.threads[tid].os = Some(os.thread().clone());
    g.handles.push(os);
    drop(g);
    JoinHandle {
        run: run.clone(),
        tid,
        result,
    }
}

/// Start a simulated thread.
pub fn spawn<T: Send + 'static>(
    name: &str,
    f: impl FnOnce() -> T + Send + 'static,
) -> JoinHandle<T> {
    let (run, me) = ctx().expect("spawn outside a run");
    let h = new_thread(&run, Some(me), name, 4 << 20, f);
    point("spawn");
    h
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow().clone())
        .unwrap_or_default()
}

static ANY_PANIC: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));

/// Fail the run because of an unexpected panic on this thread, or on a thread it just joined.
pub fn panic_violation(context: &str) -> ! {
    // The panic of a joined thread happened on that thread.
    let (loc, msg) = match last_panic() {
        (l, _) if l.is_empty() => ANY_PANIC.lock().unwrap().clone(),
        p => p,
    };
    violation(
        format!("panic:{context}:{}", loc_file(&loc)),
        format!("unexpected panic at {loc}: {msg}"),
    )
}

fn loc_file(loc: &str) -> String {
    // file name without directories; without the line so that shrinking keeps the signature stable
    let f = loc.split(':').next().unwrap_or("");
    let parts: Vec<&str> = f.rsplit('/').take(3).collect();
    parts.into_iter().rev().collect::<Vec<_>>().join("/")
}

/// Run `f`, returning Err((location, message)) if it panics.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if managed() {
                let loc = info
                    .location()
                    .map(|l| format!("{}:{}", l.file(), l.line()))
                    .unwrap_or_default();
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                if std::env::var_os("SPFSIM_PANICS").is_some() {
                    eprintln!("panic at {loc}: {msg}");
                }
                if let Ok(mut p) = ANY_PANIC.lock() {
                    *p = (loc.clone(), msg.clone());
                }
                let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
            } else {
                old(info)
            }
        }));
    });
}

fn make_strategy(rng: &mut Rng) -> Strat {
    match rng.below(16) {
        0 => Strat::Uniform(1024),
        1 => Strat::Uniform(512),
        2 | 3 => Strat::Uniform(200),
        4 => Strat::Uniform(60),
        5 => Strat::Uniform(12),
        6 | 7 | 8 | 9 => {
            let len = *rng.pick(&[60usize, 200, 800, 3000, 12000, 50000]);
            let d = rng.range(1, 6);
            let mut change_at: Vec<u64> = (0..d).map(|_| 1 + rng.below(len) as u64).collect();
            change_at.sort();
            change_at.dedup();
            Strat::Pct {
                change_at,
                low: 1 << 30,
            }
        }
        10 | 11 => Strat::Starve(rng.below(6), *rng.pick(&[8u32, 64, 300])),
        12 => Strat::RoundRobin(*rng.pick(&[1u64, 2, 3, 7, 31])),
        13 => Strat::RunToBlock,
        14 => Strat::Newest,
        _ => Strat::Oldest,
    }
}

/// Execute one simulated run.
pub fn run(cfg: RunCfg, f: impl FnOnce() + Send + 'static) -> Report {
    install_panic_hook();
    let mut rng = Rng::new(mix2(cfg.seed ^ cfg.salt.wrapping_mul(0x9e37_79b9_7f4a_7c15), tag("schedule")));
    let strat = make_strategy(&mut rng);
    let strategy = format!("{strat:?}").split(['(', ' ']).next().unwrap().to_string();
    let weak_fail = *rng.pick(&[0u32, 0, 8, 100]);
    let seed = cfg.seed;
    let run = Arc::new(Run {
        inner: Mutex::new(Inner {
            threads: vec![],
            current: 0,
            choice_rng: Rng::new(mix2(
                seed ^ cfg.salt.wrapping_mul(0x9e37_79b9_7f4a_7c15),
                tag("choices"),
            )),
            rng,
            strat,
            step: 0,
            n_choices: 0,
            cfg,
            switches: vec![],
            choices: vec![],
            digest: 0,
            sched_digest: 0,
            locs: HashMap::new(),
            races: HashMap::new(),
            counters: BTreeMap::new(),
            edges: HashSet::new(),
            log: VecDeque::new(),
            failure: None,
            finished: false,
            ending: false,
            max_item: 0,
            handles: vec![],
            ext: HashMap::new(),
            weak_fail,
        }),
        done: Condvar::new(),
        seed,
        entropy_seed: mix2(seed, tag("entropy")),
        entropy_fail: AtomicBool::new(false),
        entropy_draws: AtomicU64::new(0),
        entropy_refused: AtomicU64::new(0),
        entropy_fail_at: AtomicU64::new(u64::MAX),
    });
    let root = new_thread(&run, None, "root", 8 << 20, move || {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            panic_violation("root");
        }
    });
    {
        let mut g = run.lock();
        run.hand_over(&mut g, 0);
    }
    let mut g = run.lock();
    while !g.finished && g.failure.is_none() {
        g = run.done.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let failed = g.failure.is_some();
    let handles = std::mem::take(&mut g.handles);
    let exts = std::mem::take(&mut g.ext);
    drop(g);
    if !failed {
        drop(exts);
        for h in handles {
            let _ = h.join();
        }
    } else {
        std::mem::forget(exts);
    }
    drop(root);
    let mut g = run.lock();
    Report {
        failure: g.failure.clone(),
        steps: g.step,
        threads: g.threads.len(),
        switches: std::mem::take(&mut g.switches),
        choices: std::mem::take(&mut g.choices),
        digest: g.digest,
        sched_digest: g.sched_digest,
        counters: std::mem::take(&mut g.counters),
        edges: std::mem::take(&mut g.edges),
        max_item: g.max_item,
        log: std::mem::take(&mut g.log).into(),
        strategy,
    }
}

pub(crate) fn entropy_key() -> Option<(u64, u64)> {
    let (run, me) = ctx()?;
    let mut g = run.lock();
    let c = g.threads[me].ent_ctr;
    g.threads[me].ent_ctr += 1;
    Some((mix2(run.entropy_seed, me as u64), c))
}

/// The generator for this run's workload. Independent of schedule and fault choices.
pub fn workload_rng() -> Rng {
    let (run, _) = ctx().expect("outside a run");
    Rng::new(mix2(run.seed, tag("workload")))
}

/// Number of simulated threads that exist (including finished ones).
pub fn thread_count() -> usize {
    ctx().map(|(r, _)| r.lock().threads.len()).unwrap_or(0)
}

/// The seed of this run (0 outside one).
pub fn run_seed() -> u64 {
    ctx().map(|(r, _)| r.seed).unwrap_or(0)
}
