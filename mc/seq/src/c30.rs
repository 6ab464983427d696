//! Bloom against a linear reference built from the measured weights.
use crate::kit::*;
use solstrale::geo::vec3::Vec3;
use solstrale::post::{BloomPostProcessor, PostProcessor, PostProcessors};
use solstrale::util::rgb_color::to_rgb_color;

fn new(frac: f64, thr: Option<f64>, max: Option<f64>) -> PostProcessors {
    match guarded(|| BloomPostProcessor::new(frac, thr, max)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => violation(&format!("fraction {} is refused: {}", frac, e)),
        Err(e) => violation(&format!("fraction {} panics: {}", frac, e)),
    }
}

fn apply(b: &PostProcessors, img: &[V], w: usize, h: usize, n: u32) -> Vec<V> {
    let px: Vec<Vec3> = img.iter().map(|v| v3(*v)).collect();
    match guarded(|| b.intermediate_post_process(&px, &[], &[], w as u32, h as u32, n)) {
        Ok(Ok(r)) => {
            must!(r.len() == w * h, "bloom of {}x{} gives {} pixels", w, h, r.len());
            r.into_iter().map(vv).collect()
        }
        Ok(Err(e)) => violation(&format!("bloom of {}x{} fails: {}", w, h, e)),
        Err(e) => violation(&format!("bloom of {}x{} panics: {}", w, h, e)),
    }
}

/// Weights from the middle outwards, measured on an image of that width with one bright pixel
fn weights(frac: f64, w: usize) -> Vec<f64> {
    let r = (frac * w as f64).floor() as usize;
    let h = if w > 200 { 3 } else { 2 * r + 3 };
    let mut img = vec![V::ZERO; w * h];
    // a column of light has the whole weight of the other direction
    let mid = w / 2;
    for y in 0..h {
        img[y * w + mid] = V(10., 10., 10.);
    }
    let out = apply(&new(frac, Some(1.), None), &img, w, h, 1);
    let y = h / 2;
    let at = |x: usize| (out[y * w + x] - img[y * w + x]).0 / 10.;
    let mut k = vec![];
    for d in 0..=mid.max(w - 1 - mid) {
        let a = if mid + d < w { Some(at(mid + d)) } else { None };
        let b = if mid >= d { Some(at(mid - d)) } else { None };
        if let (Some(a), Some(b)) = (a, b) {
            must!(close(a, b, 1e-9), "fraction {} of width {}: weights {} to the right and {} to the left at distance {}", frac, w, a, b, d);
        }
        k.push(a.or(b).unwrap());
    }
    if w == 2 && r == 1 {
        // the bright column is also the repeated edge
        k[0] -= k[1];
    }
    must!(k.len() > r, "fraction {} of width {}: kernel does not fit", frac, w);
    for (d, v) in k.iter().enumerate() {
        must!(if d <= r { *v > 0. } else { v.abs() < 1e-15 }, "fraction {} of width {}: weight {} at distance {} (radius {})", frac, w, v, d, r);
    }
    k.truncate(r + 1);
    let sum: f64 = k[0] + 2. * k[1..].iter().sum::<f64>();
    must!(close(sum, 1., 1e-9), "fraction {} of width {}: weights sum up to {}", frac, w, sum);
    // Gaussian: the logarithm falls with the square of the distance
    if r >= 2 {
        let a = (k[0] / k[1]).ln();
        must!(a > 0., "fraction {} of width {}: weights do not fall: {:?}", frac, w, k);
        for d in 2..=r {
            let b = (k[0] / k[d]).ln();
            must!(close(b / a, (d * d) as f64, 1e-6), "fraction {} of width {}: weights {:?} are not Gaussian", frac, w, k);
        }
        let sigma = (0.5 / a).sqrt();
        let ks = (2 * r + 1) as f64;
        must!(sigma > ks / 7. && sigma < ks / 3., "fraction {} of width {}: width {} for a kernel of {}", frac, w, sigma, ks);
    }
    k
}

struct Case {
    w: usize,
    h: usize,
    frac: f64,
    thr: Option<f64>,
    max: Option<f64>,
}

fn reference(c: &Case, k: &[f64], img: &[V], n: u32) -> Option<Vec<V>> {
    let (w, h) = (c.w as i64, c.h as i64);
    let thr = c.thr.unwrap_or(3f64.sqrt()) * n as f64;
    let max = c.max.unwrap_or(f64::MAX) * n as f64;
    let mut br = vec![];
    for p in img {
        let l = p.len();
        // too close to call
        if l != thr && (l - thr).abs() < 1e-9 * thr {
            return None;
        }
        br.push(if l >= thr {
            if l > max {
                *p * (max / l)
            } else {
                *p
            }
        } else {
            V::ZERO
        });
    }
    let r = k.len() as i64 - 1;
    let pass = |src: &[V], dx: i64, dy: i64| -> Vec<V> {
        let mut out = vec![V::ZERO; src.len()];
        for y in 0..h {
            for x in 0..w {
                let mut s = V::ZERO;
                for i in -r..=r {
                    let (a, b) = ((x + i * dx).clamp(0, w - 1), (y + i * dy).clamp(0, h - 1));
                    s = s + src[(b * w + a) as usize] * k[i.unsigned_abs() as usize];
                }
                out[(y * w + x) as usize] = s;
            }
        }
        out
    };
    let b = pass(&pass(&br, 0, 1), 1, 0);
    Some(img.iter().zip(b).map(|(a, b)| *a + b).collect())
}

fn check(c: &Case, k: &[f64], img: &[V], n: u32) {
    let b = new(c.frac, c.thr, c.max);
    let what = || format!("bloom fraction {} threshold {:?} maximum {:?} of {}x{} with {} samples, {:?}", c.frac, c.thr, c.max, c.w, c.h, n, img.iter().take(30).collect::<Vec<_>>());
    let Some(want) = reference(c, k, img, n) else { return };
    let got = apply(&b, img, c.w, c.h, n);
    for i in 0..img.len() {
        must!(vclose(got[i], want[i], 1e-9), "{}: pixel ({},{}) becomes {:?} instead of {:?}", what(), i % c.w, i / c.w, got[i], want[i]);
    }
    // colors and count scaled together
    let big: Vec<V> = img.iter().map(|v| *v * 4.).collect();
    let got4 = apply(&b, &big, c.w, c.h, n * 4);
    for i in 0..img.len() {
        must!(vclose(got4[i], got[i] * 4., 1e-9), "{}: with 4 times the samples pixel {} becomes {:?} instead of {:?}", what(), i, got4[i], got[i] * 4.);
    }
    // far away from bright pixels nothing changes
    let thr = c.thr.unwrap_or(3f64.sqrt()) * n as f64;
    let r = k.len() as i64 - 1;
    for i in (0..img.len()).step_by(if img.len() > 50_000 { 1301 } else if img.len() > 500 { 13 } else { 1 }) {
        let (x, y) = ((i % c.w) as i64, (i / c.w) as i64);
        let near = img.iter().enumerate().any(|(j, p)| p.len() >= thr * (1. - 1e-9) && (x - (j % c.w) as i64).abs() <= r && (y - (j / c.w) as i64).abs() <= r);
        must!(near || got[i] == img[i], "{}: pixel ({},{}) far from bright pixels changes to {:?}", what(), x, y, got[i]);
    }
    // as last step
    let px: Vec<Vec3> = img.iter().map(|v| v3(*v)).collect();
    match guarded(|| b.post_process(&px, &[], &[], c.w as u32, c.h as u32, n)) {
        Ok(Ok(im)) => {
            must!(im.dimensions() == (c.w as u32, c.h as u32), "{}: image of {:?}", what(), im.dimensions());
            for i in 0..img.len() {
                let p = im.get_pixel((i % c.w) as u32, (i / c.w) as u32);
                let q = to_rgb_color(v3(got[i]), n);
                must!((0..3).all(|k| p.0[k].abs_diff(q.0[k]) <= 1), "{}: image pixel {} is {:?} instead of {:?}", what(), i, p, q);
            }
        }
        Ok(Err(e)) => violation(&format!("{} fails: {}", what(), e)),
        Err(e) => violation(&format!("{} panics: {}", what(), e)),
    }
    transitions(3);
    traces(1);
}

pub fn run() {
    // which fractions are allowed
    let b = 0.5f64;
    for f in [0., 1e-300, 0.001, 0.1, 0.25, 0.4999, 0.5, b.next_down()] {
        new(f, None, None);
        new(f, Some(0.), Some(0.));
        new(f, Some(-1.), Some(1e300));
        states(1);
    }
    for f in [-1e-300, -0.1, b.next_up(), 0.51, 1., 2., f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        match guarded(|| BloomPostProcessor::new(f, None, None).is_ok()) {
            Ok(false) => {}
            Ok(true) => violation(&format!("fraction {} is accepted", f)),
            Err(e) => violation(&format!("fraction {} panics: {}", f, e)),
        }
        states(1);
    }
    let fracs = [0., 0.05, 0.1, 0.2, 0.33, 0.5];
    // weights for every width
    let widths: Vec<usize> = if thorough() { (1..=120).chain([300, 641, 1280, 1920, 4001]).collect() } else { (1..=30).chain([50, 64, 99, 300, 641, 1280]).collect() };
    let cases: Vec<(usize, f64)> = widths.iter().flat_map(|w| fracs.iter().map(move |f| (*w, *f))).collect();
    par(&cases, |_, (w, f)| {
        weights(*f, *w);
        states(1);
        transitions(1);
        traces(1);
    });
    // all small images over few colors
    let dim = V(0.5, 0.1, 0.9);
    let mut cs: Vec<(Case, u32)> = vec![];
    let sizes: Vec<(usize, usize)> = if thorough() { product(&[6, 5]).iter().map(|p| (p[0] + 1, p[1] + 1)).collect() } else { vec![(1, 1), (1, 3), (4, 1), (2, 2), (3, 2), (2, 4), (5, 2), (5, 5), (7, 1)] };
    for (w, h) in &sizes {
        for frac in fracs {
            for (thr, max) in [(None, None), (Some(1.), Some(2.)), (Some(0.), Some(0.25)), (Some(5.), None), (Some(3.), Some(1.)), (None, Some(0.))] {
                for n in [1, 7, 1000] {
                    cs.push((Case { w: *w, h: *h, frac, thr, max }, n));
                }
            }
        }
    }
    par(&cs, |_, (c, n)| {
        let k = weights(c.frac, c.w);
        let s = *n as f64;
        let len = c.w * c.h;
        // a single bright pixel anywhere, in a dim or dark image
        for i in 0..len {
            for bright in [V(3., 4., 0.), V(1., 1., 1.), V(1.2, 0.2, 2.7), V(0., 0., 100.)] {
                for back in [V::ZERO, dim] {
                    let mut img = vec![back * s; len];
                    img[i] = bright * s;
                    check(c, &k, &img, *n);
                }
            }
        }
        // all images over two colors
        if len <= 8 {
            for p in product(&vec![2; len]) {
                let img: Vec<V> = p.iter().map(|i| [V(0.2, 0.3, 0.1), V(2., 1., 3.)][*i] * s).collect();
                check(c, &k, &img, *n);
            }
        }
        // gradient, and invalid or negative colors do not panic
        let img: Vec<V> = (0..len).map(|i| V(i as f64 * 0.2, 1., 2. - i as f64 * 0.1) * s).collect();
        check(c, &k, &img, *n);
        let mut img = vec![V(1., 2., 3.); len];
        img[len / 2] = V(f64::NAN, f64::INFINITY, -1.);
        apply(&new(c.frac, c.thr, c.max), &img, c.w, c.h, *n);
        states(1);
    });
    // wide images: large kernels, higher than the image
    let wide: Vec<Case> = [(40, 3), (33, 50), (64, 64), (100, 1), (3, 90), (900, 1), (1, 900), (1500, 2)]
        .iter()
        .flat_map(|(w, h)| [0.03, 0.1, 0.5].iter().map(move |f| Case { w: *w, h: *h, frac: *f, thr: None, max: Some(4.) }))
        // more pixels than fit sixteen bits
        .chain([(300, 240, 0.01), (250, 270, 0.02), (66_000, 1, 0.0001), (1, 66_000, 0.), (33_000, 3, 0.)].map(|(w, h, frac)| Case { w, h, frac, thr: None, max: Some(4.) }))
        .collect();
    par(&wide, |_, c| {
        let k = weights(c.frac, c.w);
        for n in [1, 3] {
            let img: Vec<V> = (0..c.w * c.h).map(|i| if i % 37 == 5 { V(5., 1., 2.) } else { V(0.1, 0.4, 0.3) * ((i % 11) as f64 * 0.1) } * n as f64).collect();
            check(c, &k, &img, n);
            let mut img = vec![V::ZERO; c.w * c.h];
            img[0] = V(2., 2., 2.) * n as f64;
            img[c.w * c.h - 1] = V(20., 2., 2.) * n as f64;
            check(c, &k, &img, n);
        }
        states(1);
    });
    note("weight tables", cases.len());
    note("configurations", cs.len());
    sample(|| "3x2 image, fraction .33, threshold 1, maximum 2, 7 samples: every position of a bright pixel, all 64 two-color images".into());
}
