use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Runs `f` for every case, on all cores. Every case is run, in no particular order.
pub fn par<T: Sync>(cases: &[T], f: impl Fn(usize, &T) + Sync) {
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism()
        .map_or(8, |n| n.get())
        .min(cases.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    warm();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= cases.len() {
                            break;
                        }
                        if let Err(e) = crate::guarded(|| f(i, &cases[i])) {
                            crate::violation(&format!("panic in case {}: {}", i, e));
                        }
                    }
                })
                .unwrap();
        }
    });
}

/// Like `par`, over 0..n
pub fn par_n(n: usize, f: impl Fn(usize) + Sync) {
    let v: Vec<usize> = (0..n).collect();
    par(&v, |_, i| f(*i));
}

static WARM: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
/// What each thread does before its first case, so that whatever the code under test sets up
/// once for each thread is not set up in the middle of one
pub fn set_warm(f: fn()) {
    let _ = WARM.set(f);
    f();
}
fn warm() {
    if let Some(f) = WARM.get() {
        let _ = crate::guarded(f);
    }
}
