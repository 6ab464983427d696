pub use std::sync::*;
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

use mcrt::{point, ObjId};
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool as RealBool, AtomicUsize as RealUsize, Ordering::SeqCst};
use std::time::Duration;

/// Predicates only run while the owner of the pointer waits in `point`.
struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    #[allow(clippy::should_implement_trait)]
    fn deref(&self) -> &T {
        unsafe { &*self.0 }
    }
}

pub struct Mutex<T: ?Sized> {
    id: ObjId,
    locked: RealBool,
    m: std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    g: ManuallyDrop<std::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { id: ObjId::new(), locked: RealBool::new(false), m: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.m.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if mcrt::active() {
            let p = Ptr(&self.locked);
            point("lock", self.id.get(), Some(Box::new(move || !p.deref().load(SeqCst))));
        }
        let r = self.m.lock();
        self.locked.store(true, SeqCst);
        match r {
            Ok(g) => Ok(MutexGuard { m: self, g: ManuallyDrop::new(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { m: self, g: ManuallyDrop::new(e.into_inner()) })),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point("try_lock", self.id.get(), None);
        match self.m.try_lock() {
            Ok(g) => {
                self.locked.store(true, SeqCst);
                Ok(MutexGuard { m: self, g: ManuallyDrop::new(g) })
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                self.locked.store(true, SeqCst);
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard {
                    m: self,
                    g: ManuallyDrop::new(e.into_inner()),
                })))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.m.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.m.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.m.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.m.fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        point("unlock", self.m.id.get(), None);
        self.m.locked.store(false, SeqCst);
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

const WRITER: usize = usize::MAX;

pub struct RwLock<T: ?Sized> {
    id: ObjId,
    n: RealUsize,
    m: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    m: &'a RwLock<T>,
    g: ManuallyDrop<std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    m: &'a RwLock<T>,
    g: ManuallyDrop<std::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { id: ObjId::new(), n: RealUsize::new(0), m: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.m.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard<'a>(&'a self, g: std::sync::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        self.n.fetch_add(1, SeqCst);
        RwLockReadGuard { m: self, g: ManuallyDrop::new(g) }
    }
    fn wguard<'a>(&'a self, g: std::sync::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        self.n.store(WRITER, SeqCst);
        RwLockWriteGuard { m: self, g: ManuallyDrop::new(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if mcrt::active() {
            let p = Ptr(&self.n);
            point("read", self.id.get(), Some(Box::new(move || p.deref().load(SeqCst) != WRITER)));
        }
        match self.m.read() {
            Ok(g) => Ok(self.rguard(g)),
            Err(e) => Err(PoisonError::new(self.rguard(e.into_inner()))),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if mcrt::active() {
            let p = Ptr(&self.n);
            point("write", self.id.get(), Some(Box::new(move || p.deref().load(SeqCst) == 0)));
        }
        match self.m.write() {
            Ok(g) => Ok(self.wguard(g)),
            Err(e) => Err(PoisonError::new(self.wguard(e.into_inner()))),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point("try_read", self.id.get(), None);
        match self.m.try_read() {
            Ok(g) => Ok(self.rguard(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.rguard(e.into_inner()))))
            }
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point("try_write", self.id.get(), None);
        match self.m.try_write() {
            Ok(g) => Ok(self.wguard(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.wguard(e.into_inner()))))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.m.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.m.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.m.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.m.fmt(f)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        point("read_unlock", self.m.id.get(), None);
        self.m.n.fetch_sub(1, SeqCst);
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        point("write_unlock", self.m.id.get(), None);
        self.m.n.store(0, SeqCst);
        unsafe { ManuallyDrop::drop(&mut self.g) }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.g
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.g
    }
}

pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    real: std::sync::Condvar,
    waiters: std::sync::Mutex<Vec<Arc<RealBool>>>,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { real: std::sync::Condvar::new(), waiters: std::sync::Mutex::new(Vec::new()) }
    }
    fn block<'a, T>(&self, g: MutexGuard<'a, T>, timeout: bool) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        let flag = Arc::new(RealBool::new(false));
        self.waiters.lock().unwrap().push(flag.clone());
        drop(g);
        let f = flag.clone();
        point("cv_wait", mcrt::OBJ_ALL, Some(Box::new(move || timeout || f.load(SeqCst))));
        let timed_out = !flag.load(SeqCst);
        self.waiters.lock().unwrap().retain(|w| !Arc::ptr_eq(w, &flag));
        (m.lock(), timed_out)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if mcrt::active() {
            return self.block(g, false).0;
        }
        let mut g = ManuallyDrop::new(g);
        let m = g.m;
        let inner = unsafe { ManuallyDrop::take(&mut g.g) };
        match self.real.wait(inner) {
            Ok(g) => Ok(MutexGuard { m, g: ManuallyDrop::new(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { m, g: ManuallyDrop::new(e.into_inner()) })),
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if mcrt::active() {
            let (g, t) = self.block(g, true);
            return match g {
                Ok(g) => Ok((g, WaitTimeoutResult(t))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
            };
        }
        let mut g = ManuallyDrop::new(g);
        let m = g.m;
        let inner = unsafe { ManuallyDrop::take(&mut g.g) };
        match self.real.wait_timeout(inner, d) {
            Ok((g, t)) => Ok((MutexGuard { m, g: ManuallyDrop::new(g) }, WaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((MutexGuard { m, g: ManuallyDrop::new(g) }, WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    pub fn notify_one(&self) {
        if mcrt::active() {
            point("notify", mcrt::OBJ_ALL, None);
            let n = self.waiters.lock().unwrap().len();
            if n > 0 {
                let i = mcrt::choose(n, "notified", false);
                self.waiters.lock().unwrap().remove(i).store(true, SeqCst);
            }
        } else {
            self.real.notify_one()
        }
    }
    pub fn notify_all(&self) {
        if mcrt::active() {
            point("notify", mcrt::OBJ_ALL, None);
            for w in self.waiters.lock().unwrap().drain(..) {
                w.store(true, SeqCst);
            }
        } else {
            self.real.notify_all()
        }
    }
}

pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
pub struct Barrier {
    n: usize,
    m: Mutex<(usize, usize)>,
    c: Condvar,
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, m: Mutex::new((0, 0)), c: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}

/// Initialized once; others wait meanwhile.
pub struct OnceLock<T> {
    id: ObjId,
    busy: RealBool,
    m: std::sync::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> OnceLock<T> {
        OnceLock { id: ObjId::new(), busy: RealBool::new(false), m: std::sync::OnceLock::new() }
    }
    fn enter(&self) -> Busy<'_> {
        loop {
            if mcrt::active() {
                let p = Ptr(&self.busy);
                point("once", self.id.get(), Some(Box::new(move || !p.deref().load(SeqCst))));
            }
            if self.busy.compare_exchange(false, true, SeqCst, SeqCst).is_ok() {
                return Busy(&self.busy);
            }
            std::thread::yield_now();
        }
    }
    pub fn get(&self) -> Option<&T> {
        point("once", self.id.get(), None);
        self.m.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.m.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let _b = self.enter();
        self.m.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let _b = self.enter();
        if self.m.get().is_none() {
            let _ = self.m.set(f());
        }
        self.m.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.m.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.m.take()
    }
}
struct Busy<'a>(&'a RealBool);
impl Drop for Busy<'_> {
    fn drop(&mut self) {
        self.0.store(false, SeqCst);
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { id: ObjId::new(), busy: RealBool::new(false), m: self.m.clone() }
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { id: ObjId::new(), busy: RealBool::new(false), m: t.into() }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.m.fmt(f)
    }
}

pub struct Once {
    l: OnceLock<()>,
}
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Once {
        Once { l: OnceLock::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.l.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.l.get().is_some()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    l: OnceLock<T>,
    f: std::sync::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> LazyLock<T, F> {
        LazyLock { l: OnceLock::new(), f: std::sync::Mutex::new(Some(f)) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.l.get_or_init(|| {
            let f = this.f.lock().unwrap().take();
            f.expect("LazyLock instance has previously been poisoned")()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub mod atomic {
    pub use std::sync::atomic::*;
    use mcrt::{point, ObjId};
    use std::sync::atomic as a;

    macro_rules! common {
        ($name:ident, $t:ty) => {
            pub struct $name {
                id: ObjId,
                v: a::$name,
            }
            impl $name {
                pub const fn new(v: $t) -> $name {
                    $name { id: ObjId::new(), v: a::$name::new(v) }
                }
                fn p(&self, k: &'static str) {
                    if mcrt::active() {
                        point(k, self.id.get(), None);
                    }
                }
                pub fn load(&self, o: Ordering) -> $t {
                    self.p("load");
                    self.v.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    self.p("store");
                    self.v.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    self.p("rmw");
                    self.v.swap(v, o)
                }
                pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.p("rmw");
                    self.v.compare_exchange(c, n, s, f)
                }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.p("rmw");
                    self.v.compare_exchange(c, n, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    l: Ordering,
                    mut f: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(l);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, s, l) {
                            Ok(x) => return Ok(x),
                            Err(e) => prev = e,
                        }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.v.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.v.into_inner()
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.v.fmt(f)
                }
            }
            impl Default for $name {
                fn default() -> Self {
                    Self::new(Default::default())
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! rmw {
        ($name:ident, $t:ty, $($f:ident),*) => {
            impl $name {
                $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                    self.p("rmw");
                    self.v.$f(v, o)
                })*
            }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => {
            $(common!($name, $t);
            rmw!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);)*
        };
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
         AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    common!(AtomicBool, bool);
    rmw!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
}

pub mod mpsc {
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use mcrt::{point, ObjId};
    use std::cell::Cell;
    use std::collections::VecDeque;
    use std::fmt;
    use std::marker::PhantomData;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, Condvar, Mutex};
    use std::time::Duration;

    struct Ch<T> {
        id: ObjId,
        q: Mutex<VecDeque<T>>,
        cv: Condvar,
        st: Arc<ChState>,
        cap: Option<usize>,
    }
    struct ChState {
        len: AtomicUsize,
        taken: AtomicUsize,
        sent: AtomicUsize,
        senders: AtomicUsize,
        alive: AtomicBool,
    }

    impl<T> Ch<T> {
        fn new(cap: Option<usize>) -> Arc<Ch<T>> {
            Arc::new(Ch {
                id: ObjId::new(),
                q: Mutex::new(VecDeque::new()),
                cv: Condvar::new(),
                st: Arc::new(ChState {
                    len: AtomicUsize::new(0),
                    taken: AtomicUsize::new(0),
                    sent: AtomicUsize::new(0),
                    senders: AtomicUsize::new(1),
                    alive: AtomicBool::new(true),
                }),
                cap,
            })
        }

        /// Room for one more message: rendezvous channels take one and wait for it to be fetched.
        fn room(st: &ChState, cap: Option<usize>) -> bool {
            !st.alive.load(SeqCst) || cap.is_none_or(|c| st.len.load(SeqCst) < c.max(1))
        }

        fn send(&self, t: T) -> Result<(), SendError<T>> {
            let (st, cap) = (self.st.clone(), self.cap);
            if mcrt::active() {
                point("send", self.id.get(), Some(Box::new(move || Self::room(&st, cap))));
            }
            let mut q = self.q.lock().unwrap();
            while !Self::room(&self.st, cap) {
                q = self.cv.wait(q).unwrap();
            }
            if !self.st.alive.load(SeqCst) {
                return Err(SendError(t));
            }
            q.push_back(t);
            self.st.len.fetch_add(1, SeqCst);
            let no = self.st.sent.fetch_add(1, SeqCst);
            self.cv.notify_all();
            if cap == Some(0) {
                if mcrt::active() {
                    drop(q);
                    let st = self.st.clone();
                    point(
                        "rendezvous",
                        self.id.get(),
                        Some(Box::new(move || st.taken.load(SeqCst) > no || !st.alive.load(SeqCst))),
                    );
                } else {
                    while self.st.taken.load(SeqCst) <= no && self.st.alive.load(SeqCst) {
                        q = self.cv.wait(q).unwrap();
                    }
                }
            }
            Ok(())
        }

        fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            point("try_send", self.id.get(), None);
            let mut q = self.q.lock().unwrap();
            if !self.st.alive.load(SeqCst) {
                return Err(TrySendError::Disconnected(t));
            }
            if !Self::room(&self.st, self.cap) {
                return Err(TrySendError::Full(t));
            }
            q.push_back(t);
            self.st.len.fetch_add(1, SeqCst);
            self.st.sent.fetch_add(1, SeqCst);
            self.cv.notify_all();
            Ok(())
        }

        fn pop(&self) -> Option<T> {
            let r = self.q.lock().unwrap().pop_front();
            if r.is_some() {
                self.st.len.fetch_sub(1, SeqCst);
                self.st.taken.fetch_add(1, SeqCst);
                self.cv.notify_all();
            }
            r
        }

        fn try_recv(&self) -> Result<T, TryRecvError> {
            match self.pop() {
                Some(t) => Ok(t),
                None if self.st.senders.load(SeqCst) == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }

        fn recv(&self) -> Result<T, RecvError> {
            if mcrt::active() {
                let st = self.st.clone();
                point(
                    "recv",
                    self.id.get(),
                    Some(Box::new(move || st.len.load(SeqCst) > 0 || st.senders.load(SeqCst) == 0)),
                );
                return self.pop().ok_or(RecvError);
            }
            let mut q = self.q.lock().unwrap();
            while q.is_empty() && self.st.senders.load(SeqCst) > 0 {
                q = self.cv.wait(q).unwrap();
            }
            drop(q);
            self.pop().ok_or(RecvError)
        }

        fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            if mcrt::active() {
                // may time out whenever nothing is there
                point("recv_timeout", self.id.get(), None);
            } else {
                let q = self.q.lock().unwrap();
                drop(self.cv.wait_timeout_while(q, d, |q| q.is_empty() && self.st.senders.load(SeqCst) > 0).unwrap().0);
            }
            match self.try_recv() {
                Ok(t) => Ok(t),
                Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
                Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            }
        }

        fn drop_sender(&self) {
            point("drop_sender", self.id.get(), None);
            let _q = self.q.lock();
            self.st.senders.fetch_sub(1, SeqCst);
            self.cv.notify_all();
        }
    }

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Ch::new(None);
        (Sender(c.clone()), Receiver(c, PhantomData))
    }
    pub fn sync_channel<T>(cap: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = Ch::new(Some(cap));
        (SyncSender(c.clone()), Receiver(c, PhantomData))
    }

    pub struct Sender<T>(Arc<Ch<T>>);
    pub struct SyncSender<T>(Arc<Ch<T>>);
    pub struct Receiver<T>(Arc<Ch<T>>, PhantomData<Cell<()>>);

    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            self.0.try_send(t)
        }
    }
    macro_rules! sender {
        ($n:ident) => {
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0.st.senders.fetch_add(1, SeqCst);
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0.drop_sender()
                }
            }
            impl<T> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($n))
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);

    impl<T> Receiver<T> {
        /// Counts the messages put into the channel so far.
        pub fn mc_sent(&self) -> Arc<dyn Fn() -> usize + Send + Sync> {
            let st = self.0.st.clone();
            Arc::new(move || st.sent.load(SeqCst))
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            self.0.recv()
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            point("try_recv", self.0.id.get(), None);
            self.0.try_recv()
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            self.0.recv_timeout(d)
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            point("drop_receiver", self.0.id.get(), None);
            let q = {
                let mut q = self.0.q.lock().unwrap_or_else(|e| e.into_inner());
                self.0.st.alive.store(false, SeqCst);
                self.0.st.len.store(0, SeqCst);
                self.0.cv.notify_all();
                std::mem::take(&mut *q)
            };
            drop(q);
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver")
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
}
