pub use std::thread::*;
use std::any::Any;
use std::io;
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

fn id() -> u64 {
    let o = mcrt::ObjId::new();
    o.get()
}

#[derive(Default, Debug)]
pub struct Builder {
    name: Option<String>,
}

pub struct JoinHandle<T> {
    h: std::thread::JoinHandle<T>,
    done: Arc<AtomicBool>,
    obj: u64,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        let d = self.done.clone();
        mcrt::point("join", self.obj, Some(Box::new(move || d.load(SeqCst))));
        self.h.join()
    }
    pub fn thread(&self) -> &std::thread::Thread {
        self.h.thread()
    }
    pub fn is_finished(&self) -> bool {
        mcrt::point("is_finished", self.obj, None);
        if mcrt::active() {
            self.done.load(SeqCst)
        } else {
            self.h.is_finished()
        }
    }
}

struct Exit {
    done: Arc<AtomicBool>,
    obj: u64,
    pending: Option<Arc<AtomicUsize>>,
}
impl Drop for Exit {
    fn drop(&mut self) {
        mcrt::point("exit", self.obj, None);
        self.done.store(true, SeqCst);
        if let Some(p) = &self.pending {
            p.fetch_sub(1, SeqCst);
        }
    }
}

fn wrap<T, F: FnOnce() -> T>(f: F, t: Option<mcrt::Ticket>, exit: Exit) -> impl FnOnce() -> T {
    move || match t {
        None => {
            let _e = exit;
            f()
        }
        Some(t) => t.run(move || {
            let _e = exit;
            f()
        }),
    }
}

impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let (done, obj) = (Arc::new(AtomicBool::new(false)), id());
        mcrt::point("spawn", mcrt::OBJ_NONE, None);
        let t = mcrt::register("start");
        let mut b = std::thread::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        let h = b.spawn(wrap(f, t, Exit { done: done.clone(), obj, pending: None }))?;
        Ok(JoinHandle { h, done, obj })
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub fn sleep(d: Duration) {
    if mcrt::active() {
        mcrt::point("sleep", mcrt::OBJ_ALL, None);
    } else {
        std::thread::sleep(d)
    }
}

pub fn yield_now() {
    if mcrt::active() {
        mcrt::point("yield", mcrt::OBJ_ALL, None);
    } else {
        std::thread::yield_now()
    }
}

pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    match mcrt::ctx() {
        Some((e, _)) => Ok(NonZeroUsize::new(e.workers.max(1)).unwrap()),
        None => std::thread::available_parallelism(),
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    s: &'scope std::thread::Scope<'scope, 'env>,
    pending: Arc<AtomicUsize>,
    obj: u64,
}

pub struct ScopedJoinHandle<'scope, T> {
    h: std::thread::ScopedJoinHandle<'scope, T>,
    done: Arc<AtomicBool>,
    obj: u64,
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> std::result::Result<T, Box<dyn Any + Send + 'static>> {
        let d = self.done.clone();
        mcrt::point("join", self.obj, Some(Box::new(move || d.load(SeqCst))));
        self.h.join()
    }
    pub fn is_finished(&self) -> bool {
        mcrt::point("is_finished", self.obj, None);
        if mcrt::active() {
            self.done.load(SeqCst)
        } else {
            self.h.is_finished()
        }
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        // threads of a scope are all waited for through the object of the scope
        let (done, obj) = (Arc::new(AtomicBool::new(false)), self.obj);
        mcrt::point("spawn", mcrt::OBJ_NONE, None);
        let t = mcrt::register("start");
        self.pending.fetch_add(1, SeqCst);
        let exit = Exit { done: done.clone(), obj, pending: Some(self.pending.clone()) };
        let h = self.s.spawn(wrap(f, t, exit));
        ScopedJoinHandle { h, done, obj }
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    std::thread::scope(|s| {
        let sc = Scope { s, pending: Arc::new(AtomicUsize::new(0)), obj: id() };
        // std's scope does not return before all threads are done
        let r: &Scope<'_, 'env> = unsafe { &*(&sc as *const Scope<'_, 'env>) };
        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r)));
        let p = sc.pending.clone();
        mcrt::point("scope_end", sc.obj, Some(Box::new(move || p.load(SeqCst) == 0)));
        if !mcrt::active() {
            while sc.pending.load(SeqCst) != 0 {
                std::thread::yield_now();
            }
        }
        match v {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
