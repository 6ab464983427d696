//! C02: progress reports, whatever the clock does.
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::{channel, Receiver};
use solstrale::hittable::Hittables;
use solstrale::ray_trace;
use solstrale::renderer::RenderImageStrategy::{self, EverySample, Interval, OnlyFinal};
use solstrale::renderer::RenderProgress;
use std::time::Duration;

const BASE: i64 = 1_700_000_000_000_000_000;
const MS: i64 = 1_000_000;

type Res = (Result<(), String>, Vec<Rep>, Receiver<RenderProgress>);

fn render(world: &Hittables, n: usize, size: (usize, usize), strategy: RenderImageStrategy, clock: &[i64]) -> Res {
    let (tx, rx) = channel();
    let (_atx, arx) = channel();
    set_env(rx.mc_sent(), jitter(n), clock.to_vec());
    let r = ray_trace(scene(world, size.0, size.1, n, vec![], strategy), &tx, &arx).map_err(|e| e.to_string());
    let reps = rx.try_iter().map(Rep::from).collect();
    (r, reps, rx)
}

/// Judges the reports of a finished render whose clock showed `clock[0]` at the start and `clock[k]` at report k.
fn judge(n: usize, clock: &[i64], r: &Result<(), String>, reps: &[Rep]) -> Result<(), String> {
    r.as_ref().map_err(|e| format!("the render failed: {}", e))?;
    if reps.len() != n {
        return Err(format!("{} reports for {} samples", reps.len(), n));
    }
    for (i, rep) in reps.iter().enumerate() {
        let k = i + 1;
        if (rep.progress - k as f64 / n as f64).abs() > 1e-12 || (k == n && rep.progress != 1.) {
            return Err(format!("report {} of {} carries progress {}", k, n, rep.progress));
        }
        let el = clock[k.min(clock.len() - 1)] - clock[0];
        let fps = match rep.fps {
            None if el > 0 => return Err(format!("report {} has no frames per second", k)),
            None => continue,
            Some(f) => f,
        };
        if fps.is_nan() || fps < 0. {
            return Err(format!("report {}: {} frames per second", k, fps));
        }
        if el > 0 {
            let s = el as f64 * 1e-9;
            let want = k as f64 / s;
            if (fps - want).abs() > 1e-6 * want {
                return Err(format!("report {} after {} s: {} frames per second instead of {}", k, s, fps, want));
            }
            let left = rep.left.as_secs_f64();
            let want = s * (n - k) as f64 / k as f64;
            if (left - want).abs() > 1e-5 * want + 2e-9 * n as f64 {
                return Err(format!("report {} of {} after {} s: {} s left instead of {}", k, n, s, left, want));
            }
        } else if el == 0 && rep.left != Duration::ZERO {
            return Err(format!("report {} of {} at the starting time: {:?} left", k, n, rep.left));
        }
    }
    Ok(())
}

pub fn run() {
    vlib::assume("the clock is read through std::time; its readings are chosen per report");
    let deltas: Vec<i64> =
        vec![0, 1, 300_000, MS, 40 * MS + 123_457, 7000 * MS, -3 * MS, -10_000 * MS, 315_360_000_000 * MS];
    let strategies = [EverySample, OnlyFinal, Interval(Duration::from_millis(10))];
    // every sequence of clock steps
    let max_n = vlib::tier(4, 5);
    for n in 1..=max_n {
        let world = world(1, 1, n);
        let seqs = vlib::product(&vec![deltas.len(); n]);
        vlib::par(&seqs, |_, seq| {
            let mut clock = vec![BASE];
            for d in seq {
                clock.push(clock.last().unwrap() + deltas[*d]);
            }
            for s in &strategies {
                let (r, reps, rx) = once(1, || render(&world, n, (1, 1), *s, &clock));
                let late = rx.try_iter().count();
                if let Err(e) = judge(n, &clock, &r, &reps) {
                    vlib::violation(&format!("clock {:?} ns: {}", clock, e));
                }
                vlib::must!(late == 0, "{} reports sent after the render returned", late);
            }
        });
        vlib::note(&format!("clock sequences of {} samples", n), seqs.len() * strategies.len());
    }
    // every number of samples
    let ns: Vec<usize> = (1..=vlib::tier(64, 300)).chain([127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 66_000]).chain(vlib::tier(vec![], vec![10_001, 300_000])).collect();
    vlib::par(&ns, |_, n| {
        let clock: Vec<i64> = (0..=*n as i64).map(|k| BASE + k * 33 * MS).collect();
        // one tile for all samples is enough here
        let world = tiles(1, 1, 1);
        let (r, reps, _) = once(1, || render(&world, *n, (1, 1), OnlyFinal, &clock));
        if let Err(e) = judge(*n, &clock, &r, &reps) {
            vlib::violation(&format!("{} samples: {}", n, e));
        }
    });
    // schedules, with the reports being received by another thread
    for (n, workers, preemptions) in vlib::tier(vec![(2, 1, 3), (2, 2, 2), (3, 2, 1)], vec![(2, 1, 99), (2, 2, 4), (3, 2, 3), (3, 3, 2)]) {
        let world = world(1, 1, n);
        let clock: Vec<i64> = (0..=n as i64).map(|k| BASE + k * 20 * MS).collect();
        explore(
            &format!("{} samples, receiving thread", n),
            &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(100_000, 2_000_000) },
            || {
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                set_env(rx.mc_sent(), jitter(n), clock.clone());
                let h = mcstd::thread::spawn(move || rx.iter().map(Rep::from).collect::<Vec<_>>());
                let r = ray_trace(scene(&world, 1, 1, n, vec![], EverySample), &tx, &arx).map_err(|e| e.to_string());
                drop(tx);
                let reps = h.join().map_err(|_| "receiver".to_string());
                mcrt::calm();
                (r, reps)
            },
            |v, _| {
                let (r, reps) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                judge(n, &clock, r, reps.as_ref()?)
            },
        );
    }
}
