//! Controlled scheduler: runs the threads of one execution one at a time and lets an explorer decide,
//! at every synchronization operation, which thread goes on. See DESIGN.md, "Schedule explorer".
//!
//! Threads are real OS threads; exactly one holds the baton. A thread about to perform a synchronization
//! operation announces it (`point`) with the object it touches and a predicate telling whether the
//! operation can be performed now; the scheduler picks among the enabled threads.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Object identity of an operation; operations on different objects commute.
pub type Obj = u64;
pub const OBJ_NONE: Obj = 0;
/// Touches everything: dependent on every other operation
pub const OBJ_ALL: Obj = u64::MAX;

type Pred = Box<dyn Fn() -> bool + Send>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub kind: &'static str,
    pub obj: Obj,
    /// Idle workers that never ran anything are interchangeable: only the lowest of a class is offered.
    pub sym: u64,
}

enum Status {
    /// About to perform the operation
    Pending(Op, Option<Pred>),
    Running,
    Finished,
}

struct Th {
    status: Status,
    cv: Arc<Condvar>,
}

/// One decision of an execution.
#[derive(Clone, Debug)]
pub struct Node {
    /// true: thread switch, false: data choice
    pub sched: bool,
    /// For thread switches: the enabled threads with their operations, the current one first if enabled
    pub opts: Vec<(usize, Op)>,
    pub n: usize,
    pub chosen: usize,
    /// Whether option 0 is the thread that was running (so that any other option is a preemption)
    pub cur_enabled: bool,
    pub label: &'static str,
    /// Preemptions (and costed deviations) used before this decision
    pub cost_before: u32,
    pub costed: bool,
    /// Number of operations performed before this decision
    pub at: usize,
}

pub enum Fatal {
    Deadlock(String),
    Horizon(usize),
}

struct St {
    th: Vec<Th>,
    current: usize,
    prefix: Vec<usize>,
    trace: Vec<Node>,
    cost: u32,
    steps: usize,
    horizon: usize,
    next_obj: u64,
    unfinished: usize,
    log: Vec<String>,
    ops: Vec<(usize, Op)>,
    failed: bool,
    calm: bool,
    diverged: Option<String>,
}

pub struct Exec {
    st: Mutex<St>,
    epoch: u64,
    on_fatal: Box<dyn Fn(Fatal, Vec<usize>, Vec<String>) + Send + Sync>,
    done_cv: Condvar,
    pub workers: usize,
    keep: Mutex<std::collections::HashMap<u64, Arc<dyn std::any::Any + Send + Sync>>>,
}

static EPOCH: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

/// The execution the calling thread belongs to, if any.
pub fn ctx() -> Option<(Arc<Exec>, usize)> {
    CTX.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

pub fn active() -> bool {
    CTX.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false)).unwrap_or(false)
}

fn lock(m: &Mutex<St>) -> MutexGuard<'_, St> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Lazily assigned object ids: deterministic, as only one thread runs at a time.
pub struct ObjId(AtomicU64, AtomicU64);
impl ObjId {
    pub const fn new() -> ObjId {
        ObjId(AtomicU64::new(0), AtomicU64::new(0))
    }
    pub fn get(&self) -> Obj {
        match ctx() {
            None => OBJ_NONE,
            Some((e, _)) => {
                if self.0.load(Ordering::Relaxed) != e.epoch {
                    self.1.store(new_obj(&e), Ordering::Relaxed);
                    self.0.store(e.epoch, Ordering::Relaxed);
                }
                self.1.load(Ordering::Relaxed)
            }
        }
    }
}
impl Default for ObjId {
    fn default() -> Self {
        Self::new()
    }
}

fn new_obj(e: &Exec) -> Obj {
    let mut st = lock(&e.st);
    st.next_obj += 1;
    st.next_obj
}

fn enabled(st: &St, cur: usize) -> Vec<(usize, Op)> {
    let mut opts: Vec<(usize, Op)> = Vec::new();
    let order: Vec<usize> = std::iter::once(cur).chain((0..st.th.len()).filter(|t| *t != cur)).collect();
    let mut sym_seen: Vec<(u64, usize)> = Vec::new();
    for t in order {
        if let Status::Pending(op, pred) = &st.th[t].status {
            let en = pred.as_ref().map_or(true, |p| p());
            if en {
                if op.sym != 0 {
                    if let Some(x) = sym_seen.iter_mut().find(|x| x.0 == op.sym) {
                        // keep the lowest id of the class
                        if t < x.1 {
                            let i = opts.iter().position(|o| o.0 == x.1).unwrap();
                            opts[i] = (t, *op);
                            x.1 = t;
                        }
                        continue;
                    }
                    sym_seen.push((op.sym, t));
                }
                opts.push((t, *op));
            }
        }
    }
    opts
}

impl Exec {
    pub fn epoch(&self) -> u64 {
        self.epoch
    }

    /// Per execution storage, by key.
    pub fn keep<T: Send + Sync + 'static>(&self, key: u64, f: impl FnOnce() -> T) -> Arc<T> {
        let mut k = self.keep.lock().unwrap();
        let a = k.entry(key).or_insert_with(|| Arc::new(f())).clone();
        a.downcast::<T>().unwrap()
    }

    pub fn find(&self, key: u64) -> Option<Arc<dyn std::any::Any + Send + Sync>> {
        self.keep.lock().unwrap().get(&key).cloned()
    }

    pub fn keys(&self) -> Vec<Arc<dyn std::any::Any + Send + Sync>> {
        self.keep.lock().unwrap().values().cloned().collect()
    }

    fn fatal(&self, mut st: MutexGuard<'_, St>, f: Fatal) -> ! {
        st.failed = true;
        let choices = st.trace.iter().map(|n| n.chosen).collect();
        let mut log = st.log.clone();
        log.push(describe(&st.ops));
        drop(st);
        (self.on_fatal)(f, choices, log);
        // on_fatal does not return in practice; never let the thread go on
        loop {
            std::thread::park();
        }
    }

    /// Picks the next thread to run. `me` has announced its operation (or has finished).
    fn reschedule(&self, mut st: MutexGuard<'_, St>, me: usize) {
        let cur = st.current;
        let mut opts = enabled(&st, cur);
        // statics are shared with executions explored in parallel: give these time to let go of a lock
        let mut waited = 0;
        while opts.is_empty() && st.unfinished > 0 && waited < 200 {
            std::thread::sleep(std::time::Duration::from_millis(5));
            waited += 1;
            opts = enabled(&st, cur);
        }
        if opts.is_empty() {
            if st.unfinished == 0 {
                self.done_cv.notify_all();
                return;
            }
            let d: Vec<String> = st
                .th
                .iter()
                .enumerate()
                .filter_map(|(i, t)| match &t.status {
                    Status::Pending(op, _) => Some(format!("thread {} waits for {}#{}", i, op.kind, op.obj)),
                    _ => None,
                })
                .collect();
            self.fatal(st, Fatal::Deadlock(d.join("; ")));
        }
        st.steps += 1;
        if st.steps > st.horizon {
            let h = st.horizon;
            self.fatal(st, Fatal::Horizon(h));
        }
        let cur_enabled = opts[0].0 == cur;
        let pos = st.trace.len();
        let chosen = if opts.len() == 1 || st.calm {
            // forced: not a decision
            0
        } else {
            let mut c = if pos < st.prefix.len() { st.prefix[pos] } else { 0 };
            if c >= opts.len() {
                st.diverged = Some(format!("choice {} of {} at decision {}", c, opts.len(), pos));
                c = 0;
            }
            let cost_before = st.cost;
            let at = st.ops.len();
            let n = opts.len();
            st.trace.push(Node {
                sched: true,
                opts: opts.clone(),
                n,
                chosen: c,
                cur_enabled,
                label: "switch",
                cost_before,
                costed: cur_enabled,
                at,
            });
            if cur_enabled && c > 0 {
                st.cost += 1;
            }
            c
        };
        let (t, op) = opts[chosen];
        st.ops.push((t, op));
        st.th[t].status = Status::Running;
        st.current = t;
        if t != me {
            let cv = st.th[t].cv.clone();
            drop(st);
            cv.notify_one();
        }
    }

    fn wait_turn(&self, me: usize) {
        let mut st = lock(&self.st);
        let cv = st.th[me].cv.clone();
        while !matches!(st.th[me].status, Status::Running) {
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
}

fn describe(ops: &[(usize, Op)]) -> String {
    let v: Vec<String> = ops.iter().map(|(t, o)| format!("{}:{}#{}", t, o.kind, o.obj)).collect();
    format!("schedule: {}", v.join(" "))
}

/// A scheduling point: the calling thread is about to perform `kind` on `obj`.
/// Returns once the thread may perform it, with `pred` true.
pub fn point(kind: &'static str, obj: Obj, pred: Option<Pred>) {
    point_sym(kind, obj, 0, pred)
}

pub fn point_sym(kind: &'static str, obj: Obj, sym: u64, pred: Option<Pred>) {
    if let Some((e, me)) = ctx() {
        {
            let mut st = lock(&e.st);
            st.th[me].status = Status::Pending(Op { kind, obj, sym }, pred);
            e.reschedule(st, me);
        }
        e.wait_turn(me);
    }
}

/// A nondeterministic value 0..n, decided by the explorer. `costed`: values other than 0 use up one deviation.
pub fn choose(n: usize, label: &'static str, costed: bool) -> usize {
    if n <= 1 {
        return 0;
    }
    match ctx() {
        None => 0,
        Some((e, me)) => {
            let mut st = lock(&e.st);
            if st.calm {
                return 0;
            }
            let pos = st.trace.len();
            let mut c = if pos < st.prefix.len() { st.prefix[pos] } else { 0 };
            if c >= n {
                st.diverged = Some(format!("value {} of {} at decision {}", c, n, pos));
                c = 0;
            }
            let cost_before = st.cost;
            let at = st.ops.len();
            st.trace.push(Node {
                sched: false,
                opts: vec![(me, Op { kind: label, obj: OBJ_NONE, sym: 0 })],
                n,
                chosen: c,
                cur_enabled: false,
                label,
                cost_before,
                costed,
                at,
            });
            if costed && c > 0 {
                st.cost += 1;
            }
            c
        }
    }
}

/// Ends the execution as a failure of the code under test.
pub fn fail(msg: String) -> ! {
    match ctx() {
        Some((e, _)) => {
            let st = lock(&e.st);
            e.fatal(st, Fatal::Deadlock(msg))
        }
        None => panic!("{}", msg),
    }
}

/// From now on nothing is decided any more: what remains of the execution is of no interest.
pub fn calm() {
    if let Some((e, _)) = ctx() {
        lock(&e.st).calm = true;
    }
}

/// Adds a line to the log of the execution, shown with violations.
pub fn log(s: String) {
    if let Some((e, me)) = ctx() {
        lock(&e.st).log.push(format!("[{}] {}", me, s));
    }
}

/// The number of the calling thread within the execution.
pub fn tid() -> usize {
    ctx().map_or(0, |c| c.1)
}

/// A thread registered with the scheduler but not started.
pub struct Ticket(Arc<Exec>, usize);

/// Registers a new thread in the execution of the caller.
pub fn register(kind: &'static str) -> Option<Ticket> {
    register_sym(kind, 0)
}

/// Threads of the same `sym` that were not started yet are interchangeable.
pub fn register_sym(kind: &'static str, sym: u64) -> Option<Ticket> {
    let (e, _) = ctx()?;
    let t = {
        let mut st = lock(&e.st);
        st.th.push(Th {
            status: Status::Pending(Op { kind, obj: OBJ_NONE, sym }, None),
            cv: Arc::new(Condvar::new()),
        });
        st.unfinished += 1;
        st.th.len() - 1
    };
    Some(Ticket(e, t))
}

impl Ticket {
    pub fn id(&self) -> usize {
        self.1
    }
    /// Runs the body of the thread on the calling OS thread, once scheduled.
    pub fn run<R>(self, f: impl FnOnce() -> R) -> R {
        struct Fin(Arc<Exec>, usize);
        impl Drop for Fin {
            fn drop(&mut self) {
                CTX.with(|c| *c.borrow_mut() = None);
                let mut st = lock(&self.0.st);
                st.th[self.1].status = Status::Finished;
                st.unfinished -= 1;
                self.0.reschedule(st, self.1);
            }
        }
        CTX.with(|c| *c.borrow_mut() = Some((self.0.clone(), self.1)));
        self.0.wait_turn(self.1);
        let _fin = Fin(self.0.clone(), self.1);
        f()
    }
}


pub struct Outcome<R> {
    pub value: std::thread::Result<R>,
    pub trace: Vec<Node>,
    pub ops: Vec<(usize, Op)>,
    pub log: Vec<String>,
    pub threads: usize,
    pub steps: usize,
    /// The execution did not follow the prescribed decisions: something but the schedule matters
    pub diverged: Option<String>,
}

/// Runs one execution: `body` is thread 0. `end` is called by thread 0 afterwards, to stop helper threads.
pub fn run<R: Send>(
    prefix: Vec<usize>,
    workers: usize,
    horizon: usize,
    on_fatal: Box<dyn Fn(Fatal, Vec<usize>, Vec<String>) + Send + Sync>,
    body: impl FnOnce() -> R + Send,
    end: impl FnOnce(&Exec) + Send,
) -> Outcome<R> {
    let e = Arc::new(Exec {
        st: Mutex::new(St {
            th: vec![Th { status: Status::Running, cv: Arc::new(Condvar::new()) }],
            current: 0,
            prefix,
            trace: vec![],
            cost: 0,
            steps: 0,
            horizon,
            next_obj: 0,
            unfinished: 1,
            log: vec![],
            ops: vec![],
            failed: false,
            calm: false,
            diverged: None,
        }),
        epoch: EPOCH.fetch_add(1, Ordering::Relaxed),
        on_fatal,
        done_cv: Condvar::new(),
        workers,
        keep: Mutex::new(Default::default()),
    });
    let ticket = Ticket(e.clone(), 0);
    let value = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        ticket.run(|| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
            end(&ctx().unwrap().0);
            r
        })
    }));
    let value = match value {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    // wait until all threads of the execution are done
    let mut st = lock(&e.st);
    while st.unfinished > 0 {
        st = e.done_cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    if st.trace.len() < st.prefix.len() {
        st.diverged = Some(format!("execution ended after {} of {} prescribed decisions", st.trace.len(), st.prefix.len()));
    }
    Outcome {
        value,
        trace: std::mem::take(&mut st.trace),
        ops: std::mem::take(&mut st.ops),
        log: std::mem::take(&mut st.log),
        threads: st.th.len(),
        steps: st.steps,
        diverged: st.diverged.take(),
    }
}
