//! Stand-in for `rayon-core` whose workers are simulated threads: which worker takes which job,
//! what is stolen, what runs nested inside a waiting `join`, and every delay in between are decided
//! by the simulator. Outside a simulated run everything executes serially on the calling thread.
use std::{
    any::Any,
    cell::RefCell,
    collections::VecDeque,
    error::Error,
    fmt,
    marker::PhantomData,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
};

type Payload = Box<dyn Any + Send>;

struct Job {
    id: u64,
    /// The argument says whether the job runs on another thread than the one that pushed it.
    run: Box<dyn FnOnce(bool) + Send>,
}

struct Queues {
    local: Vec<VecDeque<Job>>,
    injected: VecDeque<Job>,
    next_id: u64,
    terminate: bool,
    exited: usize,
}

struct Registry {
    n: usize,
    q: Mutex<Queues>,
    /// Spawned jobs not yet started, and started but not finished.
    queued: AtomicUsize,
    running: AtomicUsize,
}

thread_local!(static WORKER: RefCell<Option<(Arc<Registry>, usize)>> = const { RefCell::new(None) });

fn worker() -> Option<(Arc<Registry>, usize)> {
    WORKER.with(|w| w.borrow().clone())
}

impl Registry {
    fn addr(&self) -> usize {
        &self.q as *const _ as usize
    }

    fn new(n: usize) -> Arc<Self> {
        let r = Arc::new(Registry {
            n,
            q: Mutex::new(Queues {
                local: (0..n).map(|_| VecDeque::new()).collect(),
                injected: VecDeque::new(),
                next_id: 0,
                terminate: false,
                exited: 0,
            }),
            queued: AtomicUsize::new(0),
            running: AtomicUsize::new(0),
        });
        simrt::count("pool.workers", n as u64);
        for i in 0..n {
            let r2 = r.clone();
            simrt::spawn("worker", move || r2.main(i));
        }
        r
    }

    fn main(self: Arc<Self>, me: usize) {
        WORKER.with(|w| *w.borrow_mut() = Some((self.clone(), me)));
        loop {
            simrt::point("work_find");
            if let Some((job, migrated)) = self.find(me) {
                (job.run)(migrated);
                continue;
            }
            if self.q.lock().unwrap().terminate {
                break;
            }
            if !simrt::idle(self.addr()) {
                break;
            }
        }
        self.q.lock().unwrap().exited += 1;
        simrt::wake(self.addr());
        WORKER.with(|w| *w.borrow_mut() = None);
    }

    fn push(&self, local: Option<usize>, run: Box<dyn FnOnce(bool) + Send>) -> u64 {
        simrt::point("work_push");
        simrt::release(self.addr());
        let id = {
            let mut q = self.q.lock().unwrap();
            q.next_id += 1;
            let id = q.next_id;
            let job = Job { id, run };
            match local {
                Some(i) => q.local[i].push_back(job),
                None => q.injected.push_back(job),
            }
            id
        };
        simrt::wake(self.addr());
        id
    }

    /// Pop local work, steal, or take injected work.
    fn find(&self, me: usize) -> Option<(Job, bool)> {
        let mut q = self.q.lock().unwrap();
        let res = if let Some(j) = q.local[me].pop_back() {
            Some((j, false))
        } else {
            let victims: Vec<usize> = (0..self.n)
                .filter(|&i| i != me && !q.local[i].is_empty())
                .collect();
            if !victims.is_empty() {
                let v = victims[simrt::choose(victims.len())];
                simrt::count("pool.steals", 1);
                q.local[v].pop_front().map(|j| (j, true))
            } else {
                q.injected.pop_front().map(|j| (j, true))
            }
        };
        drop(q);
        if res.is_some() {
            simrt::acquire(self.addr());
        }
        res
    }

    /// Run other jobs until `done()`.
    fn wait_until(&self, me: usize, mut done: impl FnMut() -> bool) {
        loop {
            if done() {
                simrt::acquire(self.addr());
                return;
            }
            simrt::point("work_wait");
            if done() {
                simrt::acquire(self.addr());
                return;
            }
            match self.find(me) {
                Some((job, migrated)) => {
                    simrt::count("pool.nested_jobs", 1);
                    (job.run)(migrated)
                }
                None => {
                    if !done() {
                        simrt::block("work_block", self.addr());
                    }
                }
            }
        }
    }

    fn signal(&self) {
        simrt::release(self.addr());
        simrt::wake(self.addr());
    }

    /// Run `op` on one of this pool's workers.
    fn in_worker<R: Send>(self: &Arc<Self>, op: impl FnOnce(usize, bool) -> R + Send) -> R {
        if let Some((r, i)) = worker() {
            if Arc::ptr_eq(&r, self) {
                return op(i, false);
            }
        }
        let slot: Mutex<Option<Result<R, Payload>>> = Mutex::new(None);
        let job = || {
            let (_, i) = worker().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| op(i, true)));
            *slot.lock().unwrap() = Some(r);
            self.signal();
        };
        let b: Box<dyn FnOnce(bool) + Send + '_> = Box::new(move |_| job());
        // Safety: we wait for the job below.
        self.push(None, unsafe { erase(b) });
        match worker() {
            // A worker of another pool keeps executing its own pool's work while it waits.
            Some((mine, i)) => loop {
                if slot.lock().unwrap().is_some() {
                    break;
                }
                simrt::point("cross_wait");
                if slot.lock().unwrap().is_some() {
                    break;
                }
                match mine.find(i) {
                    Some((job, m)) => (job.run)(m),
                    None => simrt::block("cross_block", self.addr()),
                }
            },
            None => {
                while slot.lock().unwrap().is_none() {
                    simrt::block("in_worker", self.addr());
                }
            }
        }
        simrt::acquire(self.addr());
        match slot.into_inner().unwrap().unwrap() {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        }
    }

    fn spawn(self: &Arc<Self>, fifo: bool, f: impl FnOnce() + Send + 'static) {
        let local = match worker() {
            Some((r, i)) if Arc::ptr_eq(&r, self) && !fifo => Some(i),
            _ => None,
        };
        self.queued.fetch_add(1, Ordering::SeqCst);
        let reg = self.clone();
        self.push(
            local,
            Box::new(move |_| {
                reg.queued.fetch_sub(1, Ordering::SeqCst);
                reg.running.fetch_add(1, Ordering::SeqCst);
                if catch_unwind(AssertUnwindSafe(f)).is_err() {
                    simrt::count("pool.job_panics", 1);
                    // Without a panic handler rayon aborts the process here.
                    simrt::panic_violation("job-aborts-process");
                }
                reg.running.fetch_sub(1, Ordering::SeqCst);
                simrt::wake(&reg.queued as *const _ as usize);
            }),
        );
    }
}

unsafe fn erase<'a>(b: Box<dyn FnOnce(bool) + Send + 'a>) -> Box<dyn FnOnce(bool) + Send> {
    std::mem::transmute(b)
}

struct Global(Arc<Registry>);

fn global() -> Arc<Registry> {
    // The entry must exist before the workers start.
    struct Cell(Mutex<Option<Global>>);
    let c = simrt::ext("rayon.global", || Cell(Mutex::new(None)));
    if let Some(g) = &*c.0.lock().unwrap() {
        return g.0.clone();
    }
    let n = simrt::ext("rayon.global.n", || GlobalThreads(AtomicUsize::new(0)));
    let mut n = n.0.load(Ordering::SeqCst);
    if n == 0 {
        n = 1 + simrt::run_seed() as usize % 4;
    }
    let r = Registry::new(n);
    *c.0.lock().unwrap() = Some(Global(r.clone()));
    r
}

struct GlobalThreads(AtomicUsize);

/// Choose the size of the global pool of this run (before its first use).
pub fn sim_global_threads(n: usize) {
    let c = simrt::ext("rayon.global.n", || GlobalThreads(AtomicUsize::new(0)));
    c.0.store(n, Ordering::SeqCst);
}

fn current_registry() -> Arc<Registry> {
    match worker() {
        Some((r, _)) => r,
        None => global(),
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _p: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        Self {
            migrated,
            _p: PhantomData,
        }
    }

    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !simrt::managed() {
        let ra = a(FnContext::new(false));
        return (ra, b(FnContext::new(false)));
    }
    let reg = current_registry();
    let reg2 = reg.clone();
    reg.in_worker(move |me, injected| {
        let reg = reg2;
        let slot: Mutex<Option<Result<RB, Payload>>> = Mutex::new(None);
        // 0 = pending; the job itself is stored here so that whoever runs it takes it out.
        let bcell = Mutex::new(Some(b));
        let id = {
            let (slot, bcell, reg2) = (&slot, &bcell, reg.clone());
            let job: Box<dyn FnOnce(bool) + Send + '_> = Box::new(move |migrated| {
                let b = bcell.lock().unwrap().take().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(migrated))));
                *slot.lock().unwrap() = Some(r);
                reg2.signal();
            });
            // Safety: we don't return before the job ran or was taken back.
            reg.push(Some(me), unsafe { erase(job) })
        };
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        // Take b back if nobody stole it, unwinding local jobs pushed above it.
        loop {
            if slot.lock().unwrap().is_some() {
                break;
            }
            simrt::point("join_pop");
            let popped = reg.q.lock().unwrap().local[me].pop_back();
            match popped {
                Some(job) if job.id == id => {
                    if ra.is_err() {
                        drop(job);
                        break;
                    }
                    (job.run)(injected);
                    break;
                }
                Some(job) => {
                    simrt::count("pool.nested_jobs", 1);
                    (job.run)(false)
                }
                None => {
                    reg.wait_until(me, || slot.lock().unwrap().is_some());
                    break;
                }
            }
        }
        simrt::acquire(reg.addr());
        let ra = match ra {
            Ok(x) => x,
            Err(e) => resume_unwind(e),
        };
        match slot.into_inner().unwrap().unwrap() {
            Ok(rb) => (ra, rb),
            Err(e) => resume_unwind(e),
        }
    })
}

struct ScopeState {
    reg: Option<Arc<Registry>>,
    pending: AtomicUsize,
    panic: Mutex<Option<Payload>>,
}

pub struct Scope<'scope> {
    s: Arc<ScopeState>,
    _p: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}

pub struct ScopeFifo<'scope> {
    s: Arc<ScopeState>,
    _p: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}

impl ScopeState {
    fn spawn<'s>(self: &Arc<Self>, fifo: bool, f: Box<dyn FnOnce() + Send + 's>) {
        let st = self.clone();
        let go = move || {
            if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
                st.panic.lock().unwrap().get_or_insert(e);
            }
            st.pending.fetch_sub(1, Ordering::SeqCst);
            if let Some(r) = &st.reg {
                r.signal();
            }
        };
        self.pending.fetch_add(1, Ordering::SeqCst);
        match &self.reg {
            None => go(),
            Some(r) => {
                let local = match worker() {
                    Some((w, i)) if Arc::ptr_eq(&w, r) && !fifo => Some(i),
                    _ => None,
                };
                let b: Box<dyn FnOnce(bool) + Send + '_> = Box::new(move |_| go());
                // Safety: the scope waits for its jobs.
                r.push(local, unsafe { erase(b) });
            }
        }
    }

    fn finish<R>(self: &Arc<Self>, r: Result<R, Payload>) -> R {
        if let Some(reg) = &self.reg {
            let done = || self.pending.load(Ordering::SeqCst) == 0;
            match worker() {
                Some((w, i)) if Arc::ptr_eq(&w, reg) => reg.wait_until(i, done),
                _ => {
                    while !done() {
                        simrt::block("scope", reg.addr());
                    }
                    simrt::acquire(reg.addr());
                }
            }
        }
        let p = self.panic.lock().unwrap().take();
        match (r, p) {
            (Err(e), _) | (_, Some(e)) => resume_unwind(e),
            (Ok(x), None) => x,
        }
    }
}

macro_rules! scope_impl {
    ($name:ident, $scope:ident, $scope_fn:ident, $in_place:ident, $spawn:ident, $fifo:expr) => {
        impl<'scope> $name<'scope> {
            fn make(reg: Option<Arc<Registry>>) -> Self {
                $name {
                    s: Arc::new(ScopeState {
                        reg,
                        pending: AtomicUsize::new(0),
                        panic: Mutex::new(None),
                    }),
                    _p: PhantomData,
                }
            }

            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let inner = $name {
                    s: self.s.clone(),
                    _p: PhantomData,
                };
                self.s.spawn($fifo, Box::new(move || body(&inner)));
            }
        }

        // Safety: as in rayon, the scope is a shared handle.
        unsafe impl<'s> Send for $name<'s> {}
        unsafe impl<'s> Sync for $name<'s> {}

        impl fmt::Debug for $name<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }

        pub fn $scope_fn<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R + Send,
            R: Send,
        {
            if !simrt::managed() {
                let s = $name::make(None);
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                return s.s.finish(r);
            }
            let reg = current_registry();
            let reg2 = reg.clone();
            reg.in_worker(move |_, _| {
                let s = $name::make(Some(reg2));
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                s.s.finish(r)
            })
        }

        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R,
        {
            let reg = simrt::managed().then(current_registry);
            let s = $name::make(reg);
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.s.finish(r)
        }
    };
}

scope_impl!(Scope, Scope, scope, in_place_scope, spawn, false);
scope_impl!(ScopeFifo, ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo, true);

pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    if simrt::managed() {
        current_registry().spawn(false, f)
    } else {
        f()
    }
}

pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    if simrt::managed() {
        current_registry().spawn(true, f)
    } else {
        f()
    }
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _p: PhantomData<&'a ()>,
}

impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }

    pub fn num_threads(&self) -> usize {
        self.n
    }
}

impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}

fn broadcast_in<OP, R>(n: usize, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..n)
        .map(|index| {
            op(BroadcastContext {
                index,
                n,
                _p: PhantomData,
            })
        })
        .collect()
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_in(current_num_threads(), op)
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast_in(current_num_threads(), op);
}

pub fn current_num_threads() -> usize {
    if simrt::managed() {
        current_registry().n
    } else {
        1
    }
}

pub fn current_thread_index() -> Option<usize> {
    worker().map(|w| w.1)
}

pub fn max_num_threads() -> usize {
    65535
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    let (reg, i) = worker()?;
    simrt::point("yield_now");
    Some(match reg.find(i) {
        Some((j, m)) => {
            (j.run)(m);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

pub fn yield_local() -> Option<Yield> {
    let (reg, i) = worker()?;
    simrt::point("yield_local");
    let j = reg.q.lock().unwrap().local[i].pop_back();
    Some(match j {
        Some(j) => {
            (j.run)(false);
            Yield::Executed
        }
        None => Yield::Idle,
    })
}

pub struct ThreadPool {
    reg: Option<Arc<Registry>>,
}

impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}

impl Drop for ThreadPool {
    fn drop(&mut self) {
        if let Some(r) = &self.reg {
            r.q.lock().unwrap().terminate = true;
            simrt::wake(r.addr());
        }
    }
}

impl ThreadPool {
    /// Spawned jobs waiting for a worker.
    pub fn sim_queued(&self) -> usize {
        self.reg.as_ref().map_or(0, |r| r.queued.load(Ordering::SeqCst))
    }

    /// Spawned jobs being run.
    pub fn sim_running(&self) -> usize {
        self.reg.as_ref().map_or(0, |r| r.running.load(Ordering::SeqCst))
    }

    /// Wait until every spawned job has finished.
    pub fn sim_wait_idle(&self) {
        if let Some(r) = &self.reg {
            while self.sim_queued() + self.sim_running() > 0 {
                simrt::block("quiesce", &r.queued as *const _ as usize);
            }
        }
    }

    pub fn new(b: ThreadPoolBuilder) -> Result<Self, ThreadPoolBuildError> {
        b.build()
    }

    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        match &self.reg {
            Some(r) if simrt::managed() => r.in_worker(|_, _| op()),
            _ => op(),
        }
    }

    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        match &self.reg {
            Some(r) if simrt::managed() => r.spawn(false, op),
            _ => op(),
        }
    }

    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        match &self.reg {
            Some(r) if simrt::managed() => r.spawn(true, op),
            _ => op(),
        }
    }

    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }

    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }

    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }

    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let s = Scope::make(self.reg.clone());
        let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
        s.s.finish(r)
    }

    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let s = ScopeFifo::make(self.reg.clone());
        let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
        s.s.finish(r)
    }

    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_in(self.current_num_threads(), op)
    }

    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        broadcast_in(self.current_num_threads(), op);
    }

    pub fn current_num_threads(&self) -> usize {
        self.reg.as_ref().map_or(1, |r| r.n)
    }

    pub fn current_thread_index(&self) -> Option<usize> {
        let (w, i) = worker()?;
        self.reg
            .as_ref()
            .is_some_and(|r| Arc::ptr_eq(r, &w))
            .then_some(i)
    }

    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        let i = self.current_thread_index()?;
        Some(!self.reg.as_ref()?.q.lock().unwrap().local[i].is_empty())
    }

    pub fn yield_now(&self) -> Option<Yield> {
        self.current_thread_index()?;
        yield_now()
    }

    pub fn yield_local(&self) -> Option<Yield> {
        self.current_thread_index()?;
        yield_local()
    }
}

pub struct ThreadPoolBuildError(&'static str);

impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder(());

impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Default, Debug)]
pub struct ThreadPoolBuilder {
    n: usize,
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }

    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }

    pub fn stack_size(self, _n: usize) -> Self {
        self
    }

    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }

    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }

    pub fn panic_handler<H: Fn(Payload) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }

    pub fn use_current_thread(self) -> Self {
        self
    }

    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool {
            reg: simrt::managed().then(|| {
                let n = if self.n == 0 {
                    1 + simrt::run_seed() as usize % 4
                } else {
                    self.n
                };
                Registry::new(n)
            }),
        })
    }

    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if simrt::managed() && self.n > 0 {
            sim_global_threads(self.n);
        }
        Ok(())
    }
}
