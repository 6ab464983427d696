//! Stateless exploration of all schedules of a scenario up to a bound on preemptions.
use mcrt::{Fatal, Outcome};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

pub struct Bounds {
    pub workers: usize,
    /// Preemptive switches (and costed choices) per execution
    pub preemptions: u32,
    pub horizon: usize,
    /// Give up extending after this many executions (marks the run as not exhaustive)
    pub max_execs: u64,
}

struct Queue {
    items: Vec<Vec<usize>>,
    busy: usize,
}

pub struct Stats {
    pub execs: u64,
    pub max_steps: usize,
    pub max_decisions: usize,
}

/// Explores every execution of `body`; `check` judges each one (Err: violation).
pub fn explore<R: Send>(
    name: &str,
    b: &Bounds,
    body: impl Fn() -> R + Sync,
    check: impl Fn(&Result<R, String>, &Outcome<R>) -> Result<(), String> + Sync,
) -> Stats {
    explore_with(name, b, None, body, check)
}

/// The same with a bound on all deviations from the first schedule (also where the running thread can not go on),
/// for scenarios with many threads.
pub fn explore_delays<R: Send>(
    name: &str,
    b: &Bounds,
    delays: usize,
    body: impl Fn() -> R + Sync,
    check: impl Fn(&Result<R, String>, &Outcome<R>) -> Result<(), String> + Sync,
) -> Stats {
    explore_with(name, b, Some(delays), body, check)
}

fn explore_with<R: Send>(
    name: &str,
    b: &Bounds,
    delays: Option<usize>,
    body: impl Fn() -> R + Sync,
    check: impl Fn(&Result<R, String>, &Outcome<R>) -> Result<(), String> + Sync,
) -> Stats {
    let q = Mutex::new(Queue { items: vec![vec![]], busy: 0 });
    let cv = Condvar::new();
    let execs = AtomicU64::new(0);
    let cut = AtomicU64::new(0);
    let diverged = AtomicU64::new(0);
    // whatever the code sets up once per process is set up now, the same for all that follow
    let (out, val) = one(&name.into(), b, vec![], &body);
    if let Err(e) = check(&val, &out) {
        vlib::violation(&format!("scenario {}: {}\nfirst execution", name, e));
    }
    drop((out, val));
    let (ms, md) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let name_s: Arc<str> = name.into();
    let n = std::thread::available_parallelism().map_or(8, |n| n.get());
    std::thread::scope(|s| {
        for cpu in 0..n {
            let (q, cv, execs, cut, diverged, ms, md, name_s, body, check) =
                (&q, &cv, &execs, &cut, &diverged, &ms, &md, &name_s, &body, &check);
            s.spawn(move || {
                // the threads of one execution take turns: they are best kept on one core
                pin(cpu);
                loop {
                let prefix = {
                    let mut g = q.lock().unwrap();
                    loop {
                        if let Some(p) = g.items.pop() {
                            g.busy += 1;
                            break p;
                        }
                        if g.busy == 0 {
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait(g).unwrap();
                    }
                };
                let plen = prefix.len();
                let (mut out, val) = one(name_s, b, prefix, body);
                execs.fetch_add(1, SeqCst);
                ms.fetch_max(out.steps, SeqCst);
                md.fetch_max(out.trace.len(), SeqCst);
                vlib::states(1 + out.trace.len().saturating_sub(plen) as u64);
                vlib::transitions(out.ops.len() as u64);
                vlib::traces(1);
                if let Err(e) = check(&val, &out) {
                    let ch: Vec<String> = out.trace.iter().map(|n| n.chosen.to_string()).collect();
                    let ops: Vec<String> =
                        out.ops.iter().map(|(t, o)| format!("{}:{}#{}", t, o.kind, o.obj)).collect();
                    vlib::violation(&format!(
                        "scenario {}: {}\nchoices {}\nlog {}\nschedule {}",
                        name,
                        e,
                        ch.join(","),
                        out.log.join(" | "),
                        ops.join(" ")
                    ));
                }
                vlib::sample(|| {
                    let ops: Vec<String> =
                        out.ops.iter().map(|(t, o)| format!("{}:{}#{}", t, o.kind, o.obj)).collect();
                    format!("{}: choices {:?}; {}", name, out.trace.iter().map(|n| n.chosen).collect::<Vec<_>>(), ops.join(" "))
                });
                let mut new = vec![];
                if let Some(d) = &out.diverged {
                    // judged all the same, but what follows from its decisions is not explored
                    diverged.fetch_add(1, SeqCst);
                    vlib::note(&format!("diverged {}", name_s), d);
                } else if execs.load(SeqCst) < b.max_execs {
                    let chosen: Vec<usize> = out.trace.iter().map(|n| n.chosen).collect();
                    for (i, nd) in out.trace.drain(..).enumerate().skip(plen) {
                        if nd.costed && nd.cost_before >= b.preemptions {
                            continue;
                        }
                        if delays.is_some_and(|d| chosen[..i].iter().filter(|c| **c > 0).count() >= d) {
                            continue;
                        }
                        for alt in 1..nd.n {
                            let mut p = chosen[..i].to_vec();
                            p.push(alt);
                            new.push(p);
                        }
                    }
                } else {
                    cut.fetch_add(1, SeqCst);
                }
                let mut g = q.lock().unwrap();
                g.items.append(&mut new);
                g.busy -= 1;
                cv.notify_all();
            }
            });
        }
    });
    if diverged.load(SeqCst) > 0 {
        vlib::not_exhaustive();
    }
    if cut.load(SeqCst) > 0 {
        vlib::not_exhaustive();
        vlib::note(&format!("cut {}", name), format!("stopped after {} executions", b.max_execs));
    }
    let st = Stats { execs: execs.load(SeqCst), max_steps: ms.load(SeqCst), max_decisions: md.load(SeqCst) };
    vlib::note(
        &format!("scenario {}, {} workers, bound {}{}", name, b.workers, b.preemptions, delays.map_or(String::new(), |d| format!(", {} deviations", d))),
        format!(
            "{} executions, preemption bound {}{}, {} workers, up to {} decisions of {} steps",
            st.execs,
            b.preemptions,
            delays.map_or(String::new(), |d| format!(", up to {} deviations from the first schedule", d)),
            b.workers,
            st.max_decisions,
            st.max_steps
        ),
    );
    st
}

fn one<R: Send>(name: &Arc<str>, b: &Bounds, prefix: Vec<usize>, body: &(impl Fn() -> R + Sync)) -> (Outcome<R>, Result<R, String>) {
    let nm = name.clone();
    let mut out = mcrt::run(
        prefix,
        b.workers,
        b.horizon,
        Box::new(move |f, choices, log| {
            let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
            let d = format!("\nchoices {}\n{}", ch.join(","), log.join("\n"));
            match f {
                Fatal::Deadlock(s) => vlib::violation(&format!("scenario {}: nothing can go on: {}{}", nm, s, d)),
                Fatal::Horizon(h) => {
                    vlib::violation(&format!("scenario {}: still running after {} steps{}", nm, h, d))
                }
            }
        }),
        body,
        rayon_core::mc_end,
    );
    let v = std::mem::replace(&mut out.value, Err(Box::new(())));
    let v = v.map_err(|p| {
        p.downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    });
    (out, v)
}

/// One execution, on the first schedule. A panic of the body is a violation.
pub fn once<R: Send>(workers: usize, body: impl Fn() -> R + Sync) -> R {
    let b = Bounds { workers, preemptions: 0, horizon: 2_000_000, max_execs: 1 };
    let (out, v) = one(&"single".into(), &b, vec![], &body);
    vlib::states(1);
    vlib::transitions(out.ops.len() as u64);
    vlib::traces(1);
    match v {
        Ok(v) => v,
        Err(e) => vlib::violation(&format!("panic: {}", e)),
    }
}

/// Restricts the calling thread, and those it starts, to one of the cores it may run on.
pub fn pin(k: usize) {
    extern "C" {
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, m.as_mut_ptr()) != 0 {
            return;
        }
        let cores: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cores.len() > 1 {
            let c = cores[k % cores.len()];
            let mut one = [0u64; 16];
            one[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, one.as_ptr());
        }
    }
}
