//! Color conversion.
use crate::kit::*;
use solstrale::geo::vec3::Vec3;
use solstrale::post::{NopPostProcessor, PostProcessor};
use image::Rgb;
use solstrale::util::rgb_color::{rgb_to_vec3, to_float, to_rgb_color};

/// Pixel values a component may become
fn allowed(c: f64, n: u32) -> (u8, u8) {
    let f = |c: f64| {
        if c.is_nan() || c <= 0. {
            return 0;
        }
        (256. * c.sqrt()).floor().min(255.) as u8
    };
    let m = c / n as f64;
    (f(m * (1. - 1e-9)), f(m * (1. + 1e-9)))
}

/// A processor that does nothing gives an image that shows every color at its place, whatever the shape of the image
fn images() {
    let mut sizes: Vec<(u32, u32)> = product(&[tier(8, 20), tier(8, 20)]).iter().map(|p| (p[0] as u32 + 1, p[1] as u32 + 1)).collect();
    for n in [100, 255, 256, 257, 1000, 4097, 32769, 65535, 65536, 65541, 70001] {
        for k in [1, 2, 3] {
            sizes.extend([(n, k), (k, n)]);
        }
    }
    sizes.extend([(300, 270), (640, 480)]);
    par(&sizes, |_, (w, h)| {
        let n = 3;
        let color = |i: u32| V((i % 241) as f64, (i / 241 % 239) as f64, (i / 57599) as f64) * (n as f64 / 260.);
        let colors: Vec<Vec3> = (0..w * h).map(|i| v3(color(i))).collect();
        let p = NopPostProcessor::new();
        let img = match guarded(|| p.post_process(&colors, &[], &[], *w, *h, n).map_err(|e| format!("{}", e))) {
            Ok(Ok(i)) => i,
            e => violation(&format!("an image of {}x{} gives {:?}", w, h, e.map(|r| r.map(|_| ())))),
        };
        must!(img.dimensions() == (*w, *h), "an image of {}x{} becomes one of {:?}", w, h, img.dimensions());
        for y in 0..*h {
            for x in 0..*w {
                let c = color(y * w + x);
                let g = img.get_pixel(x, y).0;
                for i in 0..3 {
                    let (lo, hi) = allowed(c.get(i), n);
                    must!(g[i] >= lo && g[i] <= hi, "image of {}x{}: pixel ({},{}) of color {:?} and {} samples shows {:?}", w, h, x, y, c, n, g);
                }
            }
        }
        states(1);
        transitions((w * h) as u64);
        traces(1);
    });
    note("images", sizes.len());
}

pub fn run() {
    let counts: Vec<u32> = if thorough() { (1..=64).chain([99, 100, 255, 256, 1000, 4096, 65535, 1 << 20, u32::MAX]).collect() } else { vec![1, 2, 3, 5, 7, 10, 64, 100, 1000, 65535, u32::MAX] };
    // averages around every threshold between two pixel values
    let mut avg: Vec<f64> = vec![0., -0., 1e-300, 1e-12, 0.5, 1., 1.0001, 2., 10., 1e6, 1e300, f64::MAX, -1e-12, -1., -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE];
    for k in 0..=256 {
        let t = (k as f64 / 256.).powi(2);
        for e in [-1e-6, 1e-6, 1e-3] {
            avg.push(t + e);
        }
        avg.push(t * (1. + 1e-7));
        avg.push(t * (1. - 1e-7));
    }
    let fine = tier(2_000, 200_000);
    for i in 0..=fine {
        avg.push(1.1 * i as f64 / fine as f64);
    }
    par(&counts, |_, n| {
        let n = *n;
        let mut k = 0;
        let mut table: Vec<(f64, u8)> = vec![];
        for a in &avg {
            let c = *a * n as f64;
            let (lo, hi) = allowed(c, n);
            for axis in 0..3 {
                // the other components must not matter
                for other in [0., 0.3 * n as f64, f64::NAN, -1., f64::INFINITY] {
                    if axis > 0 && other != 0. {
                        continue;
                    }
                    let mut v = [other; 3];
                    v[axis] = c;
                    let p = guarded(|| to_rgb_color(v3(V(v[0], v[1], v[2])), n)).unwrap_or_else(|e| violation(&format!("converting {:?} with {} samples panics: {}", v, n, e)));
                    k += 1;
                    let g = p.0[axis];
                    must!(g >= lo && g <= hi, "component {} of {:?} with {} samples becomes {} instead of {}", axis, v, n, g, hi);
                    for o in 0..3 {
                        if o != axis {
                            let (lo, hi) = allowed(other, n);
                            must!(p.0[o] >= lo && p.0[o] <= hi, "component {} of {:?} with {} samples becomes {} instead of {}", o, v, n, p.0[o], hi);
                        }
                    }
                    if axis == 0 && other == 0. && !c.is_nan() {
                        table.push((c, g));
                    }
                    let f = vv(to_float(v3(V(v[0], v[1], v[2])), n)).get(axis);
                    let want = if c.is_nan() || c <= 0. { 0. } else { (c / n as f64).sqrt().min(0.999) };
                    must!((f - want).abs() <= 2e-3 && (want > 0.99 || close(f, want, 1e-9)), "component {} of {:?} with {} samples becomes {} instead of {}", axis, v, n, f, want);
                }
            }
            if *a >= 1. {
                must!(lo == 255, "reference is wrong");
            }
        }
        table.sort_by(|a, b| a.0.total_cmp(&b.0));
        for w in table.windows(2) {
            must!(w[0].1 <= w[1].1, "with {} samples {} becomes {} but {} becomes {}", n, w[0].0, w[0].1, w[1].0, w[1].1);
        }
        // scaling colors and count together by a power of two is exact
        for a in &avg {
            if n < 1 << 20 {
                for s in [2u32, 16, 1024] {
                    let v = v3(V(*a, *a * 0.5, *a * 0.1) * n as f64);
                    let x = to_rgb_color(v, n);
                    let y = to_rgb_color(v * s as f64, n * s);
                    k += 2;
                    must!(x == y, "{:?} with {} samples becomes {:?}, but {} times both becomes {:?}", vv(v), n, x, s, y);
                }
            }
        }
        states(1);
        transitions(k);
        traces(k);
    });
    for r in 0..=255u8 {
        for (g, b) in [(0, 0), (255, 255), (r, 255 - r), (17, r)] {
            let v = vv(rgb_to_vec3(&Rgb([r, g, b])));
            let w = V(r as f64, g as f64, b as f64) * (1. / 255.);
            must!(vclose(v, w, 1e-12), "pixel {:?} becomes {:?}", (r, g, b), v);
            transitions(1);
        }
        states(1);
        traces(1);
    }
    images();
    note("averages", avg.len());
    sample(|| "all 256 thresholds between pixel values from both sides, x 11 sample counts x 3 components x 5 values of the others".into());
}
