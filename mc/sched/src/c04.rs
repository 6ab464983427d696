//! C04: an abort message stops the render within one sample.
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use solstrale::ray_trace;
use solstrale::renderer::RenderImageStrategy::{self, EverySample, Interval, OnlyFinal};
use std::time::Duration;

fn prefix(reps: &[Rep], w: usize, h: usize, n: usize) -> Result<(), String> {
    for (i, r) in reps.iter().enumerate() {
        if (r.progress - (i + 1) as f64 / n as f64).abs() > 1e-12 {
            return Err(format!("report {} carries progress {}", i + 1, r.progress));
        }
        if let Some(img) = &r.image {
            check_image(img, w, h, i + 1)?;
        }
    }
    Ok(())
}

/// What the second thread does with the abort channel
#[derive(Copy, Clone, Debug, PartialEq)]
enum Act {
    Send,
    SendAndDrop,
    SendTwice,
    DropOnly,
}

pub fn run() {
    vlib::assume("sequentially consistent memory; threads interleave at locks, channels, atomics and pool operations");
    let ms = Interval(Duration::from_millis(10));
    let mut cfg: Vec<(usize, usize, usize, usize, u32, Act, RenderImageStrategy)> = vec![
        (1, 1, 1, 1, 99, Act::Send, EverySample),
        (1, 1, 2, 1, 99, Act::Send, EverySample),
        (1, 1, 2, 1, 99, Act::SendAndDrop, OnlyFinal),
        (1, 1, 3, 1, 3, Act::Send, EverySample),
        (1, 1, 3, 1, 3, Act::Send, OnlyFinal),
        (1, 1, 3, 1, 3, Act::Send, ms),
        (1, 1, 4, 1, 2, Act::Send, OnlyFinal),
        (1, 2, 2, 2, 2, Act::Send, EverySample),
        (2, 2, 2, 2, 1, Act::Send, EverySample),
        (1, 1, 2, 1, 3, Act::SendTwice, EverySample),
        (1, 1, 2, 1, 3, Act::DropOnly, EverySample),
        (1, 2, 2, 2, 1, Act::DropOnly, OnlyFinal),
    ];
    if vlib::thorough() {
        cfg.extend([
            (1, 2, 2, 2, 3, Act::Send, EverySample),
            (2, 2, 3, 2, 2, Act::Send, EverySample),
            (1, 2, 3, 2, 2, Act::Send, OnlyFinal),
            (1, 2, 3, 2, 2, Act::SendAndDrop, ms),
            (1, 3, 2, 3, 1, Act::Send, EverySample),
            (1, 1, 5, 1, 3, Act::Send, EverySample),
            (1, 2, 3, 2, 2, Act::DropOnly, EverySample),
        ]);
    }
    // the clock goes on, stands still, is set back, or jumps far
    const CLOCKS: [i64; 4] = [6_000_000, 0, -6_000_000, 1 << 57];
    for (i, (w, h, n, workers, preemptions, act, strategy)) in cfg.into_iter().enumerate() {
        let steps = if vlib::thorough() {
            if i < 12 { &CLOCKS[..] } else { &CLOCKS[i % 4..i % 4 + 1] }
        } else if i >= 3 && i < 6 {
            &CLOCKS[..3]
        } else { &CLOCKS[i % 3..i % 3 + 1] };
        for step in steps.iter().copied() {
            let world = world(w, h, n);
            explore(
                &format!("{}x{} pixels, {} samples, {:?}, {}, clock steps of {} ns", w, h, n, act, sname(&strategy), step),
                &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(150_000, 600_000) },
                || {
                    let (tx, rx) = channel();
                    let (atx, arx) = channel();
                    let clock = (0..=n as i64 + 1).map(|k| 1_000_000_000_000_000_000 + k * step).collect();
                    set_env(rx.mc_sent(), jitter(n), clock);
                    let sent = rx.mc_sent();
                    let h2 = mcstd::thread::spawn(move || {
                        if act == Act::DropOnly {
                            drop(atx);
                            return (sent(), None);
                        }
                        let _ = atx.send(true);
                        let at = sent();
                        if act == Act::SendTwice {
                            let _ = atx.send(true);
                        }
                        if act == Act::SendAndDrop {
                            drop(atx);
                            return (at, None);
                        }
                        (at, Some(atx))
                    });
                    let r = ray_trace(scene(&world, w, h, n, vec![], strategy), &tx, &arx).map_err(|e| e.to_string());
                    let done = rx.mc_sent()();
                    let at = h2.join().map(|x| x.0).unwrap_or(0);
                    mcrt::calm();
                    drop(tx);
                    (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>(), at, done)
                },
                |v, _| {
                    let (r, reps, at, done) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                    r.as_ref().map_err(|e| format!("the render failed: {}", e))?;
                    if *done != reps.len() {
                        return Err("reports sent after the render returned".into());
                    }
                    if act == Act::DropOnly {
                        if reps.len() != n {
                            return Err(format!("only {} of {} reports although nothing was sent to abort", reps.len(), n));
                        }
                    } else if reps.len() > at + 1 {
                        return Err(format!("{} reports, {} of them after the abort message was sent", reps.len(), reps.len() - at));
                    } else if *at > reps.len() {
                        return Err("lost reports".into());
                    }
                    prefix(reps, w, h, n)
                },
            );
        }
    }
    before();
    pending();
}

/// The message waits already when rendering starts, or the sender is gone.
fn before() {
    for (w, h) in [(1, 1), (2, 3)] {
        for n in [1, 2, 5] {
            for s in [EverySample, OnlyFinal, Interval(Duration::ZERO), Interval(Duration::from_secs(1))] {
                for how in 0..6 {
                    let world = world(w, h, n);
                    let (r, reps) = once(2, || {
                        let (tx, rx) = channel();
                        let (atx, arx) = channel();
                        set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
                        if how < 2 || how > 3 {
                            atx.send(how < 2).unwrap();
                        }
                        let keep = if how % 2 == 0 { Some(atx) } else { drop(atx); None };
                        let r = ray_trace(scene(&world, w, h, n, vec![], s), &tx, &arx).map_err(|e| e.to_string());
                        drop(keep);
                        (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
                    });
                    vlib::must!(r.is_ok(), "the render failed: {:?}", r);
                    let want = if how < 2 || how > 3 { 0 } else { n };
                    vlib::must!(
                        reps.len() == want,
                        "{} samples, {}: {} reports instead of {} (message sent before: {}, sender dropped before: {})",
                        n, sname(&s), reps.len(), want, want == 0, how % 2 == 1
                    );
                }
            }
        }
    }
}

/// The message is sent by the receiver of the reports on seeing report k, for every k.
fn pending() {
    let mut cases = vec![];
    for n in 2..=vlib::tier(8, 30) {
        cases.extend((1..=n).map(|k| (n, k)));
    }
    // long renders, up to the most samples that can be asked for
    for n in vlib::tier(vec![20, 100, 300, 4_000_000_000], vec![20, 40, 70, 100, 130, 300, 1000, 70_000, u32::MAX as usize]) {
        cases.extend([1, 2, 9, 10, 15, 16, 17, 31, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 299].into_iter().filter(|k| *k < n).map(|k| (n, k)));
    }
    for (n, k) in cases {
        {
            for (s, step) in [EverySample, OnlyFinal, Interval(Duration::from_millis(7))].into_iter().flat_map(|s| [3_000_000, 0, -3_000_000].map(|t| (s, t))) {
                let world = tiles(1, 1, 1);
                let (r, reps, at) = once(1, || {
                    let (tx, rx) = channel();
                    let (atx, arx) = channel();
                    let clock = (0..=n.min(1000) as i64).map(|k| 1_000_000_000_000_000_000 + k * step).collect();
                    set_env(rx.mc_sent(), jitter(n.min(1000)), clock);
                    let sent = rx.mc_sent();
                    let h = mcstd::thread::spawn(move || {
                        let mut reps = vec![];
                        let mut at = 0;
                        while let Ok(p) = rx.recv() {
                            reps.push(Rep::from(p));
                            if reps.len() == k {
                                let _ = atx.send(true);
                                at = sent();
                            }
                        }
                        (reps, at)
                    });
                    let r = ray_trace(scene(&world, 1, 1, n, vec![], s), &tx, &arx).map_err(|e| e.to_string());
                    drop(tx);
                    let (reps, at) = h.join().unwrap();
                    (r, reps, at)
                });
                vlib::must!(r.is_ok(), "the render failed: {:?}", r);
                vlib::must!(
                    reps.len() <= at + 1 && reps.len() >= k.min(n),
                    "{} samples, {}: abort sent on report {} (of {} sent), {} reports in all", n, sname(&s), k, at, reps.len()
                );
            }
        }
    }
}

pub fn sname(s: &RenderImageStrategy) -> String {
    match s {
        EverySample => "every sample".into(),
        OnlyFinal => "only final".into(),
        Interval(d) => format!("interval {:?}", d),
    }
}
