//! Replacement of rayon-core for verification. Outside of a controlled execution all tasks run inline on
//! the calling thread; inside one, pools have real worker threads under the controlled scheduler, and both
//! the choice of the worker and of the task it takes next belong to the explorer.
use std::any::Any;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::mem;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type Job = Box<dyn FnOnce() + Send>;
type Payload = Box<dyn Any + Send>;

struct PoolState {
    obj: u64,
    queue: Mutex<VecDeque<(u64, Job)>>,
    qlen: AtomicUsize,
    terminate: AtomicBool,
    next_job: AtomicU64,
    threads: usize,
    started: AtomicBool,
    start: Option<Arc<dyn Fn(usize) + Send + Sync>>,
    exit: Option<Arc<dyn Fn(usize) + Send + Sync>>,
}

thread_local! {
    static WORKER: RefCell<Option<(Arc<PoolState>, usize)>> = const { RefCell::new(None) };
}

fn worker() -> Option<(Arc<PoolState>, usize)> {
    WORKER.with(|w| w.borrow().clone())
}

#[derive(Clone, Default)]
struct Config {
    key: u64,
    threads: usize,
    start: Option<Arc<dyn Fn(usize) + Send + Sync>>,
    exit: Option<Arc<dyn Fn(usize) + Send + Sync>>,
}

static NEXT_POOL: AtomicU64 = AtomicU64::new(1);

/// Stops the idle workers of all pools of the execution.
pub fn mc_end(e: &mcrt::Exec) {
    for k in e.keys() {
        if let Ok(p) = k.downcast::<PoolState>() {
            p.terminate.store(true, SeqCst);
        }
    }
}

fn pool_state(cfg: &Config) -> Arc<PoolState> {
    let (e, _) = mcrt::ctx().unwrap();
    let threads = if cfg.threads == 0 { e.workers } else { cfg.threads.min(e.workers) };
    let p = e.keep(cfg.key, || {
        let id = mcrt::ObjId::new();
        PoolState {
            obj: id.get(),
            queue: Mutex::new(VecDeque::new()),
            qlen: AtomicUsize::new(0),
            terminate: AtomicBool::new(false),
            next_job: AtomicU64::new(0),
            threads,
            started: AtomicBool::new(false),
            start: cfg.start.clone(),
            exit: cfg.exit.clone(),
        }
    });
    if !p.started.swap(true, SeqCst) {
        for i in 0..threads {
            let ticket = mcrt::register_sym("worker", if p.start.is_none() { 1 << 62 | p.obj } else { 0 }).unwrap();
            let p = p.clone();
            std::thread::spawn(move || ticket.run(move || worker_main(p, i)));
        }
    }
    p
}

fn worker_main(p: Arc<PoolState>, i: usize) {
    WORKER.with(|w| *w.borrow_mut() = Some((p.clone(), i)));
    if let Some(s) = &p.start {
        s(i);
    }
    let mut fresh = p.start.is_none();
    loop {
        let pp = p.clone();
        let sym = if fresh { p.obj } else { 0 };
        mcrt::point_sym(
            "idle",
            p.obj,
            sym,
            Some(Box::new(move || pp.qlen.load(SeqCst) > 0 || pp.terminate.load(SeqCst))),
        );
        match take_any(&p) {
            Some(j) => {
                fresh = false;
                j()
            }
            None => {
                if p.terminate.load(SeqCst) {
                    break;
                }
            }
        }
    }
    if let Some(s) = &p.exit {
        s(i);
    }
    WORKER.with(|w| *w.borrow_mut() = None);
}

fn take_any(p: &PoolState) -> Option<Job> {
    let n = p.qlen.load(SeqCst);
    if n == 0 {
        return None;
    }
    let i = mcrt::choose(n, "task", false);
    let j = p.queue.lock().unwrap().remove(i).unwrap();
    p.qlen.fetch_sub(1, SeqCst);
    Some(j.1)
}

fn push(p: &Arc<PoolState>, j: Job) -> u64 {
    mcrt::point("push", p.obj, None);
    let id = p.next_job.fetch_add(1, SeqCst);
    p.queue.lock().unwrap().push_back((id, j));
    p.qlen.fetch_add(1, SeqCst);
    id
}

/// Waits for the flag; a worker of the pool runs other tasks meanwhile.
fn wait_for(p: &Arc<PoolState>, done: Arc<dyn Fn() -> bool + Send + Sync>) {
    let help = worker().is_some_and(|(w, _)| Arc::ptr_eq(&w, p));
    loop {
        let (d, pp) = (done.clone(), p.clone());
        mcrt::point(
            "wait",
            p.obj,
            Some(Box::new(move || d() || (help && pp.qlen.load(SeqCst) > 0))),
        );
        if done() {
            return;
        }
        if let Some(j) = take_any(p) {
            j();
        }
    }
}

unsafe fn erase<'a>(j: Box<dyn FnOnce() + Send + 'a>) -> Job {
    mem::transmute(j)
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

/// Runs `f` on a worker of the pool, and waits for it.
fn in_pool<R: Send>(p: &Arc<PoolState>, f: impl FnOnce() -> R + Send) -> R {
    if let Some((w, _)) = worker() {
        if Arc::ptr_eq(&w, p) {
            return f();
        }
    }
    let mut res: Option<std::thread::Result<R>> = None;
    let flag = Arc::new(AtomicBool::new(false));
    {
        let rp = SendPtr(&mut res as *mut _);
        let (fl, pp) = (flag.clone(), p.clone());
        let j: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            unsafe { *rp.get() = Some(r) };
            mcrt::point("done", pp.obj, None);
            fl.store(true, SeqCst);
        });
        push(p, unsafe { erase(j) });
        wait_for(p, Arc::new(move || flag.load(SeqCst)));
    }
    match res.unwrap() {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

fn current_pool() -> Option<Arc<PoolState>> {
    if !mcrt::active() {
        return None;
    }
    Some(worker().map(|w| w.0).unwrap_or_else(|| pool_state(&Config::default())))
}

/// Tells a closure whether it was moved to another thread.
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
fn ctxt(migrated: bool) -> FnContext {
    FnContext { migrated, _m: PhantomData }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    match current_pool() {
        None => {
            let a = oper_a(ctxt(false));
            let b = oper_b(ctxt(false));
            (a, b)
        }
        Some(p) => join_in(&p, oper_a, oper_b),
    }
}

fn join_in<A, B, RA, RB>(p: &Arc<PoolState>, oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_pool(p, || {
        let mut rb: Option<std::thread::Result<RB>> = None;
        let flag = Arc::new(AtomicBool::new(false));
        let me = mcrt::tid();
        let rp = SendPtr(&mut rb as *mut _);
        let (fl, pp) = (flag.clone(), p.clone());
        let j: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(|| oper_b(ctxt(mcrt::tid() != me))));
            unsafe { *rp.get() = Some(r) };
            mcrt::point("done", pp.obj, None);
            fl.store(true, SeqCst);
        });
        let id = push(p, unsafe { erase(j) });
        let ra = catch_unwind(AssertUnwindSafe(|| oper_a(ctxt(false))));
        mcrt::point("pop", p.obj, None);
        let own = {
            let mut q = p.queue.lock().unwrap();
            q.iter().position(|x| x.0 == id).map(|i| {
                p.qlen.fetch_sub(1, SeqCst);
                q.remove(i).unwrap().1
            })
        };
        match own {
            Some(j) => j(),
            None => wait_for(p, Arc::new(move || flag.load(SeqCst))),
        }
        let ra = match ra {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        };
        match rb.unwrap() {
            Ok(r) => (ra, r),
            Err(e) => resume_unwind(e),
        }
    })
}

struct ScopeBase {
    pool: Option<Arc<PoolState>>,
    pending: Arc<AtomicUsize>,
    local: Mutex<VecDeque<Job>>,
    panic: Mutex<Option<Payload>>,
}

impl ScopeBase {
    fn new(pool: Option<Arc<PoolState>>) -> ScopeBase {
        ScopeBase {
            pool,
            pending: Arc::new(AtomicUsize::new(0)),
            local: Mutex::new(VecDeque::new()),
            panic: Mutex::new(None),
        }
    }

    /// The base outlives all jobs, as `finish` waits for them.
    fn spawn(&self, body: Box<dyn FnOnce() + Send + '_>) {
        let base = SendPtr(self as *const ScopeBase as *mut ScopeBase);
        let body = unsafe { erase(body) };
        self.pending.fetch_add(1, SeqCst);
        let job: Job = Box::new(move || {
            let base: &ScopeBase = unsafe { &*base.get() };
            if let Err(e) = catch_unwind(AssertUnwindSafe(body)) {
                base.panic.lock().unwrap().get_or_insert(e);
            }
            if let Some(p) = &base.pool {
                mcrt::point("done", p.obj, None);
            }
            let pending = base.pending.clone();
            pending.fetch_sub(1, SeqCst);
        });
        match &self.pool {
            Some(p) => {
                push(p, job);
            }
            None => self.local.lock().unwrap().push_back(job),
        }
    }

    fn finish<R>(&self, r: std::thread::Result<R>) -> R {
        match &self.pool {
            Some(p) => {
                let pending = self.pending.clone();
                wait_for(p, Arc::new(move || pending.load(SeqCst) == 0));
            }
            None => loop {
                let j = self.local.lock().unwrap().pop_front();
                match j {
                    Some(j) => j(),
                    None => break,
                }
            },
        }
        let r = match r {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        };
        if let Some(e) = self.panic.lock().unwrap().take() {
            resume_unwind(e);
        }
        r
    }
}

/// A fork-join scope
pub struct Scope<'scope> {
    base: ScopeBase,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}

/// A fork-join scope with first-in first-out order hints
pub struct ScopeFifo<'scope> {
    base: ScopeBase,
    marker: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}

macro_rules! scope_impl {
    ($ty:ident, $spawn:ident, $spawn_b:ident) => {
        impl<'scope> $ty<'scope> {
            fn make(p: Option<Arc<PoolState>>) -> Self {
                $ty { base: ScopeBase::new(p), marker: PhantomData }
            }

            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$ty<'scope>) + Send + 'scope,
            {
                let me = SendPtr(self as *const Self as *mut Self);
                self.base.spawn(unsafe {
                    erase(Box::new(move || {
                        let s: &$ty<'scope> = &*me.get();
                        body(s)
                    }))
                });
            }

            pub fn $spawn_b<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$ty<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = self.base.pool.as_ref().map_or(1, |p| p.threads);
                let body = Arc::new(body);
                for index in 0..n {
                    let me = SendPtr(self as *const Self as *mut Self);
                    let body = body.clone();
                    self.base.spawn(unsafe {
                        erase(Box::new(move || {
                            let s: &$ty<'scope> = &*me.get();
                            body(s, BroadcastContext { index, n, _m: PhantomData })
                        }))
                    });
                }
            }
        }
        impl<'scope> fmt::Debug for $ty<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($ty))
            }
        }
        unsafe impl<'scope> Sync for $ty<'scope> {}
        unsafe impl<'scope> Send for $ty<'scope> {}
    };
}
scope_impl!(Scope, spawn, spawn_broadcast);
scope_impl!(ScopeFifo, spawn_fifo, spawn_broadcast);

fn run_scope<'scope, OP, R>(p: Option<Arc<PoolState>>, op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::make(p);
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.base.finish(r)
}

fn run_scope_fifo<'scope, OP, R>(p: Option<Arc<PoolState>>, op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo::make(p);
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    s.base.finish(r)
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    match current_pool() {
        None => run_scope(None, op),
        Some(p) => in_pool(&p, || run_scope(Some(p.clone()), op)),
    }
}

pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    match current_pool() {
        None => run_scope_fifo(None, op),
        Some(p) => in_pool(&p, || run_scope_fifo(Some(p.clone()), op)),
    }
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    run_scope(current_pool(), op)
}

pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    run_scope_fifo(current_pool(), op)
}

fn spawn_on(p: Option<Arc<PoolState>>, f: Job) {
    let f = move || {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            mcrt::fail("a detached task panicked, which aborts the process".to_string());
        }
    };
    match p {
        None => f(),
        Some(p) => {
            push(&p, Box::new(f));
        }
    }
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_on(current_pool(), Box::new(f))
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_on(current_pool(), Box::new(f))
}

/// Context of a broadcast closure
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}

fn broadcast_on<OP, R>(p: Option<Arc<PoolState>>, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = p.as_ref().map_or(1, |p| p.threads);
    let slots: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let (op, sl) = (&op, &slots);
    run_scope(p, |s| {
        for index in 0..n {
            s.spawn(move |_| {
                let r = op(BroadcastContext { index, n, _m: PhantomData });
                *sl[index].lock().unwrap() = Some(r);
            });
        }
    });
    slots.into_iter().map(|s| s.into_inner().unwrap().unwrap()).collect()
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_on(current_pool(), op)
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let p = current_pool();
    let n = p.as_ref().map_or(1, |p| p.threads);
    let op = Arc::new(op);
    for index in 0..n {
        let op = op.clone();
        spawn_on(p.clone(), Box::new(move || op(BroadcastContext { index, n, _m: PhantomData })));
    }
}

pub fn current_num_threads() -> usize {
    match mcrt::ctx() {
        None => 1,
        Some((e, _)) => worker().map_or(e.workers, |w| w.0.threads),
    }
}
pub fn current_thread_index() -> Option<usize> {
    worker().map(|w| w.1)
}
pub fn max_num_threads() -> usize {
    255
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    worker().map(|w| w.0.qlen.load(SeqCst) > 0)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    let (p, _) = worker()?;
    mcrt::point("yield", p.obj, None);
    match take_any(&p) {
        Some(j) => {
            j();
            Some(Yield::Executed)
        }
        None => Some(Yield::Idle),
    }
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

pub struct ThreadPool {
    cfg: Config,
}

impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool")
    }
}

impl ThreadPool {
    fn st(&self) -> Option<Arc<PoolState>> {
        mcrt::active().then(|| pool_state(&self.cfg))
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        match self.st() {
            None => op(),
            Some(p) => in_pool(&p, op),
        }
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        run_scope(self.st(), op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        run_scope_fifo(self.st(), op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_on(self.st(), Box::new(op))
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_on(self.st(), Box::new(op))
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_on(self.st(), op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        self.install(|| spawn_broadcast(op))
    }
    pub fn current_num_threads(&self) -> usize {
        self.st().map_or(1, |p| p.threads)
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        let p = self.st()?;
        worker().filter(|w| Arc::ptr_eq(&w.0, &p)).map(|w| w.1)
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_now()
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

/// Placeholder for the type of rayon's custom thread spawning
pub struct ThreadBuilder(());

#[derive(Default)]
pub struct ThreadPoolBuilder {
    cfg: Config,
}
impl fmt::Debug for ThreadPoolBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuilder")
    }
}

static GLOBAL_BUILT: AtomicBool = AtomicBool::new(false);

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let mut cfg = self.cfg;
        cfg.key = NEXT_POOL.fetch_add(1, SeqCst);
        Ok(ThreadPool { cfg })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if GLOBAL_BUILT.swap(true, SeqCst) {
            Err(ThreadPoolBuildError)
        } else {
            Ok(())
        }
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.cfg.threads = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Payload) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(mut self, h: H) -> Self {
        self.cfg.start = Some(Arc::new(h));
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(mut self, h: H) -> Self {
        self.cfg.exit = Some(Arc::new(h));
        self
    }
}

impl Drop for ThreadPool {
    fn drop(&mut self) {
        if mcrt::active() {
            let (e, _) = mcrt::ctx().unwrap();
            if let Some(k) = e.find(self.cfg.key) {
                if let Ok(p) = k.downcast::<PoolState>() {
                    p.terminate.store(true, SeqCst);
                }
            }
        }
    }
}
