//! C05: failures end the render with an error.
use crate::c04::sname;
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use solstrale::geo::vec3::Vec3;
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessor, PostProcessors};
use solstrale::ray_trace;
use solstrale::renderer::RenderImageStrategy::{self, EverySample, Interval, OnlyFinal};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

pub fn run() {
    vlib::assume("sequentially consistent memory; threads interleave at locks, channels, atomics and pool operations");
    vlib::assume("the denoiser is a stand-in that fails at the calls it is told to");
    dropped();
    dropped_before();
    dropped_after_k();
    failing();
    failing_schedules();
}

/// Random draws of one sample
fn per_sample(w: usize, h: usize) -> u64 {
    let draws = |n: usize| {
        let world = world(w, h, n);
        once(1, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            let env = set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
            let _ = ray_trace(scene(&world, w, h, n, vec![], EverySample), &tx, &arx);
            env.draws.load(SeqCst)
        })
    };
    // some may be made once for each thread or render
    draws(1);
    draws(3) - draws(2)
}

/// The receiver goes away at any moment of any schedule.
fn dropped() {
    let ms = Interval(Duration::from_millis(10));
    let mut cfg: Vec<(usize, usize, usize, usize, u32, RenderImageStrategy)> = vec![
        (1, 1, 1, 1, 99, EverySample),
        (1, 1, 2, 1, 4, EverySample),
        (1, 1, 3, 1, 3, OnlyFinal),
        (1, 1, 3, 1, 2, ms),
        (1, 2, 2, 2, 2, EverySample),
        (2, 2, 2, 2, 1, OnlyFinal),
    ];
    if vlib::thorough() {
        cfg.extend([
            (1, 1, 2, 1, 99, EverySample),
            (1, 2, 2, 2, 4, EverySample),
            (1, 2, 3, 2, 3, OnlyFinal),
            (2, 2, 3, 2, 2, ms),
            (1, 3, 2, 3, 2, EverySample),
        ]);
    }
    for (w, h, n, workers, preemptions, strategy) in cfg {
        let world = world(w, h, n);
        let per = per_sample(w, h);
        explore(
            &format!("receiver dropped, {}x{} pixels, {} samples, {}", w, h, n, sname(&strategy)),
            &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(150_000, 1_000_000) },
            || {
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                let clock = (0..=n as i64 + 1).map(|k| 1_000_000_000_000_000_000 + k * 6_000_000).collect();
                let env = set_env(rx.mc_sent(), jitter(n), clock);
                let sent = rx.mc_sent();
                let (e2, s2) = (env.clone(), sent.clone());
                let h2 = mcstd::thread::spawn(move || {
                    drop(rx);
                    (s2(), e2.draws.load(SeqCst))
                });
                let r = ray_trace(scene(&world, w, h, n, vec![], strategy), &tx, &arx).map_err(|e| e.to_string());
                let total = env.draws.load(SeqCst);
                let at = h2.join().unwrap_or((0, 0));
                mcrt::calm();
                (r, at, total, sent())
            },
            |v, _| {
                let (r, (at, draws), total, sent) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                if *at < n && r.is_ok() {
                    return Err(format!("the receiver went away after {} of {} reports and the render succeeded", at, n));
                }
                if sent > at {
                    return Err("a report was delivered to nobody".into());
                }
                if *at == n && r.is_err() {
                    return Err(format!("the render failed although all reports were received: {:?}", r));
                }
                // it may finish the sample it was working on, plus the one it may have been about to start
                // (and a few draws may have been made before the first sample)
                let bound = (draws / per + 1) * per + per - 1;
                if *total > bound {
                    return Err(format!("rendered on for {} samples after the receiver went away", (total - draws) as f64 / per as f64));
                }
                Ok(())
            },
        );
    }
}

fn dropped_before() {
    for (w, h) in [(1, 1), (2, 3)] {
        let per = per_sample(w, h);
        for n in 1..=4 {
            for s in [EverySample, OnlyFinal, Interval(Duration::ZERO), Interval(Duration::from_secs(1))] {
                let world = world(w, h, n);
                let (r, draws) = once(2, || {
                    let (tx, rx) = channel();
                    let (_atx, arx) = channel();
                    let env = set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
                    drop(rx);
                    let r = ray_trace(scene(&world, w, h, n, vec![], s), &tx, &arx).map_err(|e| e.to_string());
                    (r, env.draws.load(SeqCst))
                });
                vlib::must!(r.is_err(), "{} samples, {}: success although nobody receives", n, sname(&s));
                vlib::must!(draws < 2 * per, "{} samples, {}: {} samples rendered although nobody receives", n, sname(&s), draws / per);
            }
        }
    }
}

/// The receiver goes away after the k-th report; long renders.
fn dropped_after_k() {
    let per = per_sample(1, 1);
    let mut cases = vec![];
    for n in 2..=vlib::tier(8, 30) {
        cases.extend((1..n).map(|k| (n, k)));
    }
    // up to the most samples that can be asked for
    for n in vlib::tier(vec![20, 100, 300, 4_000_000_000], vec![20, 40, 70, 100, 130, 300, 1000, 70_000, u32::MAX as usize]) {
        cases.extend([1, 2, 9, 10, 15, 16, 17, 31, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 299].into_iter().filter(|k| *k < n).map(|k| (n, k)));
    }
    for (n, k) in cases {
        {
            for s in [EverySample, OnlyFinal, Interval(Duration::from_millis(7))] {
                let world = tiles(1, 1, 1);
                let (r, at, draws, total) = once(1, || {
                    let (tx, rx) = channel();
                    let (_atx, arx) = channel();
                    let clock = (0..=n.min(1000) as i64).map(|k| 1_000_000_000_000_000_000 + k * 3_000_000).collect();
                    let env = set_env(rx.mc_sent(), jitter(n.min(1000)), clock);
                    let sent = rx.mc_sent();
                    let e2 = env.clone();
                    let h = mcstd::thread::spawn(move || {
                        for _ in 0..k {
                            let _ = rx.recv();
                        }
                        drop(rx);
                        (sent(), e2.draws.load(SeqCst))
                    });
                    let r = ray_trace(scene(&world, 1, 1, n, vec![], s), &tx, &arx).map_err(|e| e.to_string());
                    let total = env.draws.load(SeqCst);
                    let (at, draws) = h.join().unwrap();
                    (r, at, draws, total)
                });
                vlib::must!(at >= n || r.is_err(), "{} samples, {}: receiver gone after {} reports, the render succeeded", n, sname(&s), at);
                vlib::must!(total < (draws / per + 2) * per, "{} samples, {}: rendered on after the receiver went away", n, sname(&s));
            }
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum P {
    Nop,
    Bloom,
    Oidn,
}

fn make(l: &[P]) -> Vec<PostProcessors> {
    l.iter()
        .map(|p| match p {
            P::Nop => NopPostProcessor::new(),
            P::Bloom => BloomPostProcessor::new(0.3, Some(0.1), None).unwrap(),
            P::Oidn => OidnPostProcessor::new(),
        })
        .collect()
}

fn lists(max: usize) -> Vec<Vec<P>> {
    let mut v = vec![vec![]];
    for n in 1..=max {
        for i in vlib::product(&vec![3; n]) {
            v.push(i.iter().map(|i| [P::Nop, P::Bloom, P::Oidn][*i]).collect());
        }
    }
    v
}

/// The error the denoiser gives when it can not be used as an intermediate step
fn misplaced() -> Option<String> {
    let one = vec![Vec3::new(0., 0., 0.)];
    OidnPostProcessor::new().intermediate_post_process(&one, &one, &one, 1, 1, 1).err().map(|e| e.to_string())
}

/// First sample for which an image is due, for each strategy with 6 ms per sample
fn due(s: &RenderImageStrategy, n: usize) -> Vec<usize> {
    match s {
        EverySample => (1..=n).collect(),
        OnlyFinal => vec![n],
        Interval(d) => {
            let d = d.as_nanos() as i64;
            let mut v = vec![];
            let mut last = None;
            for k in 1..=n {
                let now = k as i64 * 6_000_000;
                if k == n || last.is_none_or(|l| now - l > d) {
                    v.push(k);
                    last = Some(now);
                }
            }
            v
        }
    }
}

/// All lists of post-processors, with the denoiser failing at its j-th call or in the wrong position
fn failing() {
    let mis = misplaced();
    vlib::must!(mis.is_some(), "the denoiser used as an intermediate step reports no error");
    let mis = mis.unwrap();
    let max = vlib::tier(3, 4);
    let mut cases = vec![];
    for list in lists(max) {
        for n in 1..=3 {
            for s in [EverySample, OnlyFinal, Interval(Duration::from_millis(10)), Interval(Duration::from_millis(4))] {
                for fail in 0..=3usize {
                    if fail > 0 && list.last() != Some(&P::Oidn) {
                        continue;
                    }
                    cases.push((list.clone(), n, s, fail));
                }
            }
        }
    }
    // longer lists, with the denoiser last, anywhere, or not at all
    for len in 4..=vlib::tier(8, 10) {
        for fill in [P::Nop, P::Bloom] {
            for at in 0..=len {
                let list: Vec<P> = (0..len).map(|i| if i == at { P::Oidn } else { fill }).collect();
                for n in 1..=2 {
                    for s in [EverySample, OnlyFinal] {
                        for fail in 0..=n {
                            if fail == 0 || at + 1 == len {
                                cases.push((list.clone(), n, s, fail));
                            }
                        }
                    }
                }
            }
        }
    }
    // later calls
    for list in [vec![P::Oidn], vec![P::Nop, P::Oidn], vec![P::Bloom, P::Nop, P::Oidn]] {
        for n in [5, 12, 33, 100] {
            for s in [EverySample, OnlyFinal, Interval(Duration::from_millis(10))] {
                for fail in [0, 4, 5, 6, 9, 10, 11, 12, 16, 17, 32, 33, 34, 50, 64, 65, 99, 100] {
                    if fail <= n + 1 {
                        cases.push((list.clone(), n, s, fail));
                    }
                }
            }
        }
    }
    vlib::par(&cases, |_, (list, n, s, fail)| {
        let n = *n;
        let world = world(2, 2, n);
        let (r, reps) = once(1, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            oidn::mc::reset(vec![*fail], None);
            let clock = (0..=n as i64 + 1).map(|k| 1_000_000_000_000_000_000 + k * 6_000_000).collect();
            set_env(rx.mc_sent(), jitter(n), clock);
            let r = ray_trace(scene(&world, 2, 2, n, make(list), *s), &tx, &arx).map_err(|e| e.to_string());
            oidn::mc::take();
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
        });
        let due = due(s, n);
        let bad_place = list.iter().rev().skip(1).any(|p| *p == P::Oidn);
        let what = format!("post-processors {:?}, {} samples, {}, denoiser failing at call {}", list, n, sname(s), fail);
        let fails_at = if bad_place {
            Some((due[0], mis.clone()))
        } else if *fail > 0 && *fail <= due.len() {
            Some((due[*fail - 1], format!("device failure {}", fail)))
        } else {
            None
        };
        match fails_at {
            Some((k, text)) => {
                match &r {
                    Ok(()) => vlib::violation(&format!("{}: the render succeeded", what)),
                    Err(e) => vlib::must!(e.contains(&text), "{}: the render failed with '{}' instead of '{}'", what, e, text),
                }
                vlib::must!(reps.len() == k - 1, "{}: {} reports before failing at sample {}", what, reps.len(), k);
            }
            None => {
                vlib::must!(r.is_ok(), "{}: the render failed: {:?}", what, r);
                vlib::must!(reps.len() == n, "{}: {} reports", what, reps.len());
                let imgs: Vec<usize> = reps.iter().enumerate().filter(|r| r.1.image.is_some()).map(|r| r.0 + 1).collect();
                vlib::must!(imgs == due, "{}: images at {:?} instead of {:?}", what, imgs, due);
            }
        }
    });
    vlib::note("post-processor configurations", cases.len());
}

fn failing_schedules() {
    for (list, n, fail, workers, preemptions) in vlib::tier(
        vec![(vec![P::Oidn], 2, 2, 2, 1), (vec![P::Oidn, P::Nop], 1, 0, 2, 2)],
        vec![(vec![P::Oidn], 2, 2, 2, 3), (vec![P::Oidn, P::Nop], 1, 0, 2, 4), (vec![P::Nop, P::Oidn], 2, 1, 2, 3)],
    ) {
        let world = world(1, 2, n);
        explore(
            &format!("{:?} failing at {}", list, fail),
            &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(100_000, 2_000_000) },
            || {
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                oidn::mc::reset(vec![fail], None);
                set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
                let r = ray_trace(scene(&world, 1, 2, n, make(&list), EverySample), &tx, &arx).map_err(|e| e.to_string());
                mcrt::calm();
                oidn::mc::take();
                (r, rx.try_iter().count())
            },
            |v, _| {
                let (r, reps) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                if r.is_ok() {
                    return Err("the render succeeded".into());
                }
                if *reps != fail.max(1) - 1 {
                    return Err(format!("{} reports", reps));
                }
                Ok(())
            },
        );
    }
}
