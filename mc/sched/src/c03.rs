//! C03: which reports carry an image.
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use solstrale::ray_trace;
use solstrale::renderer::RenderImageStrategy::{self, EverySample, Interval, OnlyFinal};
use std::time::Duration;

const BASE: i64 = 1_000_000_000_000_000_000;
const MS: i64 = 1_000_000;

fn judge(w: usize, h: usize, n: usize, s: &RenderImageStrategy, clock: &[i64], reps: &[Rep]) -> Result<(), String> {
    if reps.len() != n {
        return Err(format!("{} reports for {} samples", reps.len(), n));
    }
    let mut last: Option<i64> = None;
    for (i, rep) in reps.iter().enumerate() {
        let k = i + 1;
        let now = clock[k.min(clock.len() - 1)];
        let (must, may) = match s {
            EverySample => (true, true),
            OnlyFinal => (k == n, k == n),
            Interval(d) => match last {
                _ if k == n => (true, true),
                // there is no earlier image
                None => (d.as_nanos() < BASE as u128 / 2, true),
                Some(l) => {
                    let (d, now, l) = (d.as_nanos() as i128, now as i128, l as i128);
                    (now - l > d, now - l > d || (now - l == d && d > 0))
                }
            },
        };
        match &rep.image {
            None if must => return Err(format!("report {} of {} carries no image", k, n)),
            Some(_) if !may => return Err(format!("report {} of {} carries an image", k, n)),
            None => {}
            Some(img) => {
                last = Some(now);
                check_image(img, w, h, k)?;
            }
        }
    }
    Ok(())
}

pub fn run() {
    vlib::assume("the clock is read through std::time; its readings are chosen per report");
    let ds = [0, 10, 1000, 3_600_000].map(|ms| Duration::from_millis(ms));
    let deltas = [0, 5 * MS, 10 * MS, 11 * MS, 2000 * MS, -5 * MS, 1];
    let mut strategies = vec![EverySample, OnlyFinal];
    strategies.extend(ds.map(Interval));
    let long = [Interval(Duration::from_secs(u32::MAX as u64)), Interval(Duration::MAX)];
    let usual = strategies.len();
    strategies.extend(long);
    for n in 1..=vlib::tier(4, 5) {
        let (w, h) = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 1)][n - 1];
        let world = world(w, h, n);
        let seqs = vlib::product(&vec![deltas.len(); n]);
        vlib::par(&seqs, |_, seq| {
            let mut clock = vec![BASE];
            for d in seq {
                clock.push(clock.last().unwrap() + deltas[*d]);
            }
            for s in if n < 4 { &strategies[..] } else { &strategies[..usual] } {
                let (r, reps) = once(1, || {
                    let (tx, rx) = channel();
                    let (_atx, arx) = channel();
                    set_env(rx.mc_sent(), jitter(n), clock.clone());
                    let r = ray_trace(scene(&world, w, h, n, vec![], *s), &tx, &arx).map_err(|e| e.to_string());
                    (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
                });
                vlib::must!(r.is_ok(), "the render failed: {:?}", r);
                if let Err(e) = judge(w, h, n, s, &clock, &reps) {
                    vlib::violation(&format!("{} with clock {:?} ns: {}", name(s), clock, e));
                }
            }
        });
        vlib::note(&format!("clock sequences of {} samples", n), seqs.len() * strategies.len());
    }
    // long renders
    for n in vlib::tier(vec![7, 20, 50, 130, 300], vec![7, 20, 50, 101, 130, 260, 300, 1100]) {
        let world = tiles(1, 1, 1);
        for (si, s) in strategies[..usual].iter().enumerate() {
            // evenly, and with jumps back or far ahead
            for (step, jump) in [(1, 0), (3, 0), (7, 0), (400, 0), (3, -50), (3, 50), (400, -30_000), (7, 40_000)] {
                let step = step * MS;
                let clock: Vec<i64> = (0..=n as i64).map(|k| BASE + k * step + (k / 13) * jump * MS).collect();
                let (r, reps) = once(1, || {
                    let (tx, rx) = channel();
                    let (_atx, arx) = channel();
                    set_env(rx.mc_sent(), jitter(n), clock.clone());
                    let r = ray_trace(scene(&world, 1, 1, n, vec![], *s), &tx, &arx).map_err(|e| e.to_string());
                    (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
                });
                vlib::must!(r.is_ok(), "the render failed: {:?}", r);
                // contents are of no interest here
                let reps: Vec<Rep> = reps;
                let imgs: Vec<bool> = reps.iter().map(|r| r.image.is_some()).collect();
                let mut last = None;
                for k in 1..=n {
                    let want = match s {
                        EverySample => true,
                        OnlyFinal => k == n,
                        Interval(d) => {
                            let d = d.as_nanos() as i64;
                            let w = k == n || last.map_or(true, |l: i64| clock[k] - l > d);
                            if last.is_some_and(|l| clock[k] - l == d) && k < n {
                                imgs[k - 1]
                            } else {
                                w
                            }
                        }
                    };
                    vlib::must!(imgs.get(k - 1) == Some(&want), "{}, {} samples, {} ms apart (jumps of {} ms): images {:?}, report {} is wrong (strategy {})", name(s), n, step / MS, jump, imgs, k, si);
                    if want {
                        last = Some(clock[k]);
                    }
                }
            }
        }
    }
    // intervals of any length: just before, exactly and just after one and two of them
    let lengths: Vec<u128> = (0..vlib::tier(19, 19)).flat_map(|e| [1, 3].map(|f| f * 10u128.pow(e))).chain([15 * 1_000_000_000, 60 * 1_000_000_000, 86_400 * 1_000_000_000, (1 << 32) * 1_000_000, 1 << 31, 1 << 32, 1 << 62]).filter(|d| *d < 2_400_000_000_000_000_000).collect();
    let cases: Vec<(u128, Vec<i64>)> = lengths
        .iter()
        .flat_map(|d| {
            let d = *d as i64;
            let (s, h) = ((d / 1000).max(1), d / 2);
            [vec![d - s, s, s], vec![d + s, d - s, 2 * s], vec![h, d - h, s], vec![h, h, h, h, h], vec![d / 3 + s, d / 3 + s, d / 3 + s, d / 4], vec![d, d, d], vec![s, d + s, 0, d + s]].map(|v| (d as u128, v))
        })
        .filter(|(_, v)| v.iter().map(|d| *d as i128).sum::<i128>() < 8_000_000_000_000_000_000 - BASE as i128)
        .collect();
    vlib::par(&cases, |_, (d, deltas)| {
        let s = Interval(Duration::new((d / 1_000_000_000) as u64, (d % 1_000_000_000) as u32));
        // the first image is delivered whatever the clock shows, as long as it shows a time later than any interval
        let mut clock = vec![BASE, BASE];
        for d in deltas {
            clock.push(clock.last().unwrap() + d);
        }
        clock.push(*clock.last().unwrap());
        let n = clock.len() - 1;
        let world = world(1, 1, n);
        let (r, reps) = once(1, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            set_env(rx.mc_sent(), jitter(n), clock.clone());
            let r = ray_trace(scene(&world, 1, 1, n, vec![], s), &tx, &arx).map_err(|e| e.to_string());
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
        });
        vlib::must!(r.is_ok(), "the render failed: {:?}", r);
        if let Err(e) = judge(1, 1, n, &s, &clock, &reps) {
            vlib::violation(&format!("{} with clock {:?} ns: {}", name(&s), clock, e));
        }
    });
    vlib::note("intervals of other lengths", cases.len());
    for (strategy, n, workers, preemptions) in vlib::tier(
        vec![(OnlyFinal, 2, 2, 2), (Interval(Duration::from_millis(10)), 3, 1, 2)],
        vec![(OnlyFinal, 2, 2, 4), (Interval(Duration::from_millis(10)), 3, 2, 3), (EverySample, 3, 2, 3)],
    ) {
        let world = world(1, 2, n);
        let clock: Vec<i64> = (0..=n as i64).map(|k| BASE + k * 6 * MS).collect();
        explore(
            &format!("{}, {} samples", name(&strategy), n),
            &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(100_000, 2_000_000) },
            || {
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                set_env(rx.mc_sent(), jitter(n), clock.clone());
                let r = ray_trace(scene(&world, 1, 2, n, vec![], strategy), &tx, &arx).map_err(|e| e.to_string());
                mcrt::calm();
                (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
            },
            |v, _| {
                let (r, reps) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                r.as_ref().map_err(|e| format!("the render failed: {}", e))?;
                judge(1, 2, n, &strategy, &clock, reps)
            },
        );
    }
}

fn name(s: &RenderImageStrategy) -> String {
    match s {
        EverySample => "every sample".into(),
        OnlyFinal => "only final".into(),
        Interval(d) => format!("interval of {:?}", d),
    }
}
