//! C01: every reported image is the average of exactly the samples taken, on every schedule.
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Quad};
use solstrale::material::DiffuseLight;
use solstrale::ray_trace;
use solstrale::renderer::RenderImageStrategy::{EverySample, OnlyFinal};
use std::collections::BTreeMap;
use vlib::V;

pub fn run() {
    vlib::assume("sequentially consistent memory; threads interleave at locks, channels, atomics and pool operations");
    // (width, height, samples, workers, preemptions)
    let mut cfg = vec![
        (1, 1, 1, 2, 99),
        (2, 2, 1, 2, 99),
        (2, 3, 1, 2, 99),
        (2, 2, 1, 3, 99),
        (2, 2, 2, 2, 4),
        (3, 2, 2, 2, 3),
        (1, 3, 2, 2, 2),
        (3, 1, 3, 2, 2),
        (2, 3, 1, 3, 2),
        (2, 2, 2, 3, 1),
        (3, 4, 1, 2, 1),
    ];
    if vlib::thorough() {
        cfg.extend([
            (2, 2, 2, 2, 99),
            (2, 3, 2, 2, 4),
            (2, 2, 3, 2, 4),
            (1, 4, 1, 2, 5),
            (2, 2, 2, 3, 3),
            (2, 3, 1, 3, 99),
            (2, 4, 1, 3, 2),
        ]);
    }
    for (w, h, n, workers, p) in cfg {
        one(w, h, n, workers, p);
    }
    sizes();
    shapes();
    long();
    brightness();
    subcells();
}

fn one(w: usize, h: usize, n: usize, workers: usize, preemptions: u32) {
    let world = world(w, h, n);
    explore(
        &format!("{}x{} pixels, {} samples", w, h, n),
        &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(300_000, 3_000_000) },
        || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
            let r = ray_trace(scene(&world, w, h, n, vec![], EverySample), &tx, &arx);
            mcrt::calm();
            drop(tx);
            let reps: Vec<Rep> = rx.try_iter().map(Rep::from).collect();
            (r.map_err(|e| e.to_string()), reps)
        },
        |v, _| {
            let (r, reps) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
            r.as_ref().map_err(|e| format!("the render failed: {}", e))?;
            if reps.len() != n {
                return Err(format!("{} images instead of {}", reps.len(), n));
            }
            for (i, rep) in reps.iter().enumerate() {
                let img = rep.image.as_ref().ok_or("no image")?;
                check_image(img, w, h, i + 1)?;
            }
            Ok(())
        },
    );
}

/// All image sizes up to 6x6, more samples, one schedule each
fn sizes() {
    let m = vlib::tier(6, 9);
    for h in 1..=m {
        for w in 1..=m {
            for (n, strategy) in [(1, EverySample), (3, EverySample), (3, OnlyFinal)] {
                let world = world(w, h, n);
                let (r, reps) = once(2, || {
                    let (tx, rx) = channel();
                    let (_atx, arx) = channel();
                    set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
                    let r = ray_trace(scene(&world, w, h, n, vec![], strategy), &tx, &arx).map_err(|e| e.to_string());
                    drop(tx);
                    (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
                });
                vlib::must!(r.is_ok(), "{}x{} pixels: the render failed: {:?}", w, h, r);
                vlib::must!(reps.len() == n, "{}x{} pixels: {} reports of {}", w, h, reps.len(), n);
                for (i, rep) in reps.iter().enumerate() {
                    if let Some(img) = &rep.image {
                        if let Err(e) = check_image(img, w, h, i + 1) {
                            vlib::violation(&format!("{}x{} pixels, {} samples: {}", w, h, n, e));
                        }
                    }
                }
            }
        }
    }
}

/// All image sizes, and long ones: every row, or column, shows its stripe of light.
fn shapes() {
    let m = vlib::tier(24, 64);
    let mut v: Vec<(usize, usize)> = (1..=m).flat_map(|h| (1..=m).map(move |w| (w, h))).collect();
    for l in (m + 1..=vlib::tier(200, 800)).chain([1000, 1023, 1024, 1025, 2000, 4099, 66_000]) {
        for s in vlib::tier(vec![1, 2], vec![1, 2, 3, 7]) {
            v.push((l, s));
            v.push((s, l));
        }
    }
    // stripes of light across the longer side, four for each pixel
    let stripe = |i: usize| V(0.02 + 0.03 * ((i % 5) * (i % 5)) as f64, 0.3 + 0.1 * (i % 7) as f64, 0.05 + 0.2 * (i / 35 % 4) as f64);
    vlib::par(&v, |i, (w, h)| {
        let (w, h) = (*w, *h);
        let n = 1 + i % 3;
        let tall = h >= w;
        let l = w.max(h);
        let hw = w as f64 / h as f64;
        let lit = Bvh::new(
            (0..4 * l)
                .map(|i| {
                    let d = (l - 1).max(1) as f64;
                    let c = stripe(i);
                    let m = DiffuseLight::new(c.0, c.1, c.2, None);
                    if tall {
                        let (y, dy) = (-1. + 2. * ((l - 1 - i / 4) as f64 + edge(3 - i % 4, 4)) / d, 2. * (edge(4 - i % 4, 4) - edge(3 - i % 4, 4)) / d);
                        Quad::new(Vec3::new(-1e4, y, 0.), Vec3::new(2e4, 0., 0.), Vec3::new(0., dy, 0.), m, &NopTransformer())
                    } else {
                        let (x, dx) = (hw * (-1. + 2. * ((i / 4) as f64 + edge(i % 4, 4)) / d), 2. * hw * (edge(i % 4 + 1, 4) - edge(i % 4, 4)) / d);
                        Quad::new(Vec3::new(x, -1e4, 0.), Vec3::new(dx, 0., 0.), Vec3::new(0., 2e4, 0.), m, &NopTransformer())
                    }
                })
                .collect(),
        );
        let part = |k: usize| (i / 3 + 3 * k) % 4;
        let (r, reps) = once(1 + i % 3, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            set_env(rx.mc_sent(), (0..n).map(|k| at(part(k) as f64 + 0.5, 4)).collect(), vec![0, 1_000_000]);
            let r = ray_trace(scene(&lit, w, h, n, vec![], EverySample), &tx, &arx).map_err(|e| e.to_string());
            drop(tx);
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
        });
        vlib::must!(r.is_ok() && reps.len() == n, "{}x{} pixels: {} reports of {}, {:?}", w, h, reps.len(), n, r);
        for (k, rep) in reps.iter().enumerate() {
            let img = rep.image.as_ref().unwrap_or_else(|| vlib::violation(&format!("{}x{} pixels: no image", w, h)));
            vlib::must!((img.0 as usize, img.1 as usize) == (w, h), "{}x{} pixels: image of {}x{}", w, h, img.0, img.1);
            for (p, px) in img.2.chunks(3).enumerate() {
                let mut c = V::ZERO;
                for j in 0..=k {
                    // rows are counted from the top, offsets from the bottom
                    c = c + if tall { stripe(4 * (p / w) + 3 - part(j)) } else { stripe(4 * (p % w) + part(j)) };
                }
                let want: Vec<u8> = (0..3).map(|i| level(c.get(i), k + 1) as u8).collect();
                vlib::must!(
                    px.iter().zip(&want).all(|(a, b)| a.abs_diff(*b) <= 1),
                    "{}x{} pixels, image after sample {}: pixel ({},{}) is {:?} instead of {:?}",
                    w, h, k + 1, p % w, p / w, px, want
                );
            }
        }
    });
    vlib::note("image sizes", v.len());
}

/// Over all combinations of the two random offsets within a pixel (a K x K grid), each part of every
/// pixel's area is sampled exactly once.
fn subcells() {
    // (with 3 no pair of offsets is rejected as outside the unit disc)
    let k = 3;
    let m = vlib::tier(4, 8);
    for h in 1..=m {
        for w in 1..=m {
            // tiles: K x K per pixel, the color tells pixel and tile
            let world = tiles(w, h, k);
            let mut seen: BTreeMap<(usize, usize, u32), u32> = BTreeMap::new();
            for ju in 0..k {
                for jv in 0..k {
                    let (r, reps) = once(1, || {
                        let (tx, rx) = channel();
                        let (_atx, arx) = channel();
                        let j = vec![(ju as f64 + 0.5) / k as f64, (jv as f64 + 0.5) / k as f64];
                        set_env_alternating(j);
                        let r = ray_trace(scene(&world, w, h, 1, vec![], EverySample), &tx, &arx).map_err(|e| e.to_string());
                        drop(tx);
                        (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
                    });
                    vlib::must!(r.is_ok() && reps.len() == 1, "{}x{}: no image: {:?}", w, h, r);
                    let img = reps[0].image.as_ref().unwrap();
                    for y in 0..h {
                        for x in 0..w {
                            let p = &img.2[(y * w + x) * 3..][..3];
                            let (px, py, t) = tile_of(p);
                            vlib::must!(
                                (px, py) == (x, y),
                                "{}x{} pixels: offsets {}/{} of {}: pixel ({},{}) shows what lies in pixel ({},{})",
                                w, h, ju, jv, k, x, y, px, py
                            );
                            *seen.entry((x, y, t)).or_default() += 1;
                        }
                    }
                }
            }
            for y in 0..h {
                for x in 0..w {
                    for t in 0..(k * k) as u32 {
                        let n = seen.get(&(x, y, t)).copied().unwrap_or(0);
                        vlib::must!(n == 1, "{}x{} pixels: part {} of pixel ({},{}) is sampled {} times instead of once", w, h, t, x, y, n);
                    }
                }
            }
        }
    }
}

/// Many samples: the image stays their average to the end.
fn long() {
    let lit = tiles(1, 1, 2);
    let (dark, bright) = (V(((5.5f64) / 256.).powi(2), (5.5f64 / 256.).powi(2), (5.5f64 / 256.).powi(2)), V((5.5f64 / 256.).powi(2), (5.5f64 / 256.).powi(2), (35.5f64 / 256.).powi(2)));
    let mut cases = vec![];
    for n in (8..=vlib::tier(40, 300)).chain([100, 101, 127, 128, 255, 256, 257, 300, 1000, 1025, 4097]).chain(vlib::tier(vec![66_000], vec![10_001, 66_000, 300_000])) {
        // which samples are bright
        for (what, f) in [("the first half", 0), ("the second half", 1), ("every third", 2), ("the last tenth", 3)] {
            cases.push((n, what, f));
        }
    }
    vlib::par(&cases, |_, (n, what, f)| {
        let n = *n;
        let is = |k: usize| match f {
            0 => k < n / 2,
            1 => k >= n / 2,
            2 => k % 3 == 0,
            _ => k >= n - n / 10,
        };
        let strategy = if n <= 300 { EverySample } else { OnlyFinal };
        let (r, reps) = once(1, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            set_env(rx.mc_sent(), (0..n).map(|k| if is(k) { 0.75 } else { 0.25 }).collect(), vec![0, 1_000_000]);
            let r = ray_trace(scene(&lit, 1, 1, n, vec![], strategy), &tx, &arx).map_err(|e| e.to_string());
            drop(tx);
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
        });
        vlib::must!(r.is_ok() && reps.len() == n, "{} samples: {} reports, {:?}", n, reps.len(), r);
        let mut sum = V::ZERO;
        for (k, rep) in reps.iter().enumerate() {
            sum = sum + if is(k) { bright } else { dark };
            if let Some(img) = &rep.image {
                for i in 0..3 {
                    let want = level(sum.get(i), k + 1) as u8;
                    vlib::must!(img.2[i].abs_diff(want) <= 1, "{} samples, {} bright: image after sample {}: channel {} is {} instead of {}", n, what, k + 1, i, img.2[i], want);
                }
            }
        }
        vlib::must!(reps[n - 1].image.is_some(), "{} samples: no final image", n);
    });
    vlib::note("long renders", cases.len());
}

/// Lights of very different brightness in the samples of a pixel, and in pixels beside each other
fn brightness() {
    let alphabet = [
        V(1e6, 0.2, 0.01),
        V::ZERO,
        V(0.1, 1e9, 0.3),
        V(0.3, 0.35, 0.4),
        V(9., 0.01, 2.),
        V(1e-9, 3e-5, 1e5),
        V(1e15, 1e-15, 0.9),
    ];
    let mut cases = vec![];
    for len in 1..=vlib::tier(4, 5) {
        cases.extend(vlib::product(&vec![alphabet.len(); len]));
    }
    vlib::par(&cases, |i, c| {
        let n = c.len();
        let w = 1 + i % 2;
        // the second pixel sees the same in another order
        let at = |x: usize, k: usize| alphabet[c[(k + x) % n]];
        let lit = world_of(w, 1, n, &|x, _, k| at(x, k));
        let (r, reps) = once(1, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
            let r = ray_trace(scene(&lit, w, 1, n, vec![], EverySample), &tx, &arx).map_err(|e| e.to_string());
            drop(tx);
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
        });
        vlib::must!(r.is_ok() && reps.len() == n, "{} samples: {} reports, {:?}", n, reps.len(), r);
        for x in 0..w {
            let mut sum = V::ZERO;
            for (k, rep) in reps.iter().enumerate() {
                sum = sum + at(x, k);
                let img = rep.image.as_ref().unwrap_or_else(|| vlib::violation("a report without an image"));
                for ch in 0..3 {
                    let (want, got) = (level(sum.get(ch), k + 1) as u8, img.2[3 * x + ch]);
                    vlib::must!(
                        got.abs_diff(want) <= 1,
                        "{}x1 pixels, samples {:?}: image after sample {}: channel {} of pixel {} is {} instead of {}",
                        w,
                        (0..n).map(|k| at(x, k)).collect::<Vec<_>>(),
                        k + 1,
                        ch,
                        x,
                        got,
                        want
                    );
                }
            }
        }
    });
    vlib::note("sequences of lights of different brightness", cases.len());
}
