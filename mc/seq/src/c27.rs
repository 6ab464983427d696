//! Texture lookup.
use crate::kit::*;
use image::{DynamicImage, GrayImage, Luma, Rgba, RgbaImage};
use solstrale::geo::Uv;
use solstrale::material::texture::{ImageMap, SolidColor, Texture, Textures};

fn texel(x: u32, y: u32) -> [u8; 3] {
    [(x & 255) as u8, (y & 255) as u8, ((x >> 8) * 16 + (y >> 8)) as u8]
}

fn which(c: V) -> (u32, u32) {
    let b = |v: f64| (v * 255.).round() as u32;
    (b(c.0) + 256 * (b(c.2) / 16), b(c.1) + 256 * (b(c.2) % 16))
}

/// Texels that may be shown at the coordinate
fn allowed(c: f32, n: u32, flip: bool) -> Vec<u32> {
    let f = (c.abs() as f64).fract();
    if f == 0. {
        // the start of the image, in every copy
        return vec![if flip { n - 1 } else { 0 }];
    }
    let f = if flip { 1. - f } else { f };
    let mut v = vec![];
    for e in [-3e-7, 0., 3e-7] {
        // just at a border between texels, or between one copy and the next
        let g = f + e;
        let i = (g.rem_euclid(1.) * n as f64).floor() as u32;
        v.push(i.min(n - 1));
        if g >= 1. || g < 0. {
            v.push(0);
            v.push(n - 1);
        }
    }
    v
}

fn coordinates(n: u32) -> Vec<f32> {
    let mut c: Vec<f32> = vec![0., -0., 1., 0.5, 0.25, 0.75, 0.3333, f32::EPSILON, 1. - f32::EPSILON, 1f32.next_down(), 1f32.next_down().next_down(), f32::MIN_POSITIVE, 1e-40];
    let step = (n / tier(40, 400)).max(1);
    for i in (0..n).step_by(step as usize).chain([n - 1]) {
        for f in [0.02, 0.25, 0.5, 0.98] {
            c.push((i as f32 + f) / n as f32);
        }
        c.push(i as f32 / n as f32);
    }
    let one = c.clone();
    for k in [1., 2., 7., 100.] {
        c.extend(one.iter().map(|v| v + k));
    }
    let m: Vec<f32> = c.iter().map(|v| -v).collect();
    c.extend(m);
    c
}

pub fn run() {
    let mut sizes = vec![(1, 1), (1, 4), (5, 1), (2, 3), (3, 2), (7, 5), (16, 16), (64, 48), (256, 1), (1, 300), (1000, 3), (4095, 2), (3, 4001)];
    for n in 1..=tier(40, 300) {
        sizes.extend([(n, 1), (2, n)]);
    }
    if thorough() {
        for w in 1..=12 {
            for h in 1..=12 {
                sizes.push((w, h));
            }
        }
    }
    par(&sizes, |_, (w, h)| {
        let t = image_tex(*w, *h, texel);
        let (cu, cv) = (coordinates(*w), coordinates(*h));
        let (wu, wv): (Vec<f32>, Vec<f32>) = (cu.iter().copied().step_by(17).collect(), cv.iter().copied().step_by(17).collect());
        let mut n = 0;
        let mut seen = std::collections::HashMap::new();
        let mut go = |u: f32, v: f32| {
            let c = vv(t.color(Uv::new(u, v)));
            let (x, y) = which(c);
            n += 1;
            must!(c == V(texel(x, y)[0] as f64, texel(x, y)[1] as f64, texel(x, y)[2] as f64) * (1. / 255.) || vclose(c, V(texel(x, y)[0] as f64, texel(x, y)[1] as f64, texel(x, y)[2] as f64) * (1. / 255.), 1e-6), "image {}x{}: color {:?} at ({},{}) is none of its texels", w, h, c, u, v);
            must!(allowed(u, *w, false).contains(&x), "image {}x{}: column {} is shown at u = {} (v = {}), expected {:?}", w, h, x, u, v, allowed(u, *w, false));
            must!(allowed(v, *h, true).contains(&y), "image {}x{}: row {} is shown at v = {} (u = {}), expected {:?}", w, h, y, v, u, allowed(v, *h, true));
        };
        for u in &cu {
            for v in &wv {
                go(*u, *v);
            }
        }
        for u in &wu {
            for v in &cv {
                go(*u, *v);
            }
        }
        // every texel equally: the middles of a grid with k*k points per texel
        if w * h <= 400 {
            let k = 4;
            for i in 0..w * k {
                for j in 0..h * k {
                    let c = vv(t.color(Uv::new((i as f32 + 0.5) / (w * k) as f32, (j as f32 + 0.5) / (h * k) as f32)));
                    *seen.entry(which(c)).or_insert(0) += 1;
                    n += 1;
                }
            }
            for x in 0..*w {
                for y in 0..*h {
                    let s = seen.get(&(x, y)).copied().unwrap_or(0);
                    must!(s == k * k, "image {}x{}: texel ({},{}) covers {} of the unit square's {} points instead of {}", w, h, x, y, s, w * h * k * k, k * k);
                }
            }
        }
        // large and invalid coordinates
        let odd = [1e7, -1e9, 1e20, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::MIN_POSITIVE, 1e-45, 16777217., 8388607.5];
        for a in odd {
            for b in odd.into_iter().chain([0., 0.5, 1.]) {
                for (u, v) in [(a, b), (b, a)] {
                    let c = guarded(|| vv(t.color(Uv::new(u, v)))).unwrap_or_else(|e| violation(&format!("image {}x{}: lookup at ({},{}) panics: {}", w, h, u, v, e)));
                    n += 1;
                    if u.is_finite() && v.is_finite() {
                        let (x, y) = which(c);
                        must!(allowed(u, *w, false).contains(&x) && allowed(v, *h, true).contains(&y), "image {}x{}: texel ({},{}) is shown at ({},{})", w, h, x, y, u, v);
                    }
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    wide();
    solid();
    files();
    note("images", sizes.len());
    sample(|| "7x5 image: 5 texel positions per column, shifted by -100..100, crossed with rows; border coordinates may show either neighbour".into());
    assume("at the exact border between two texels within the image either may be shown");
}

/// Images too long for the two axes to be told apart at once: each texel shows its place along the longer side
fn wide() {
    let sizes: Vec<(u32, u32)> = [5_000, 10_000, 33_000, 66_000, 140_000].into_iter().flat_map(|n| [(n, 1), (1, n), (n, 3), (2, n)]).collect();
    par(&sizes, |_, (w, h)| {
        let n = *w.max(h);
        let across = w > h;
        let t = image_tex(*w, *h, |x, y| {
            let i = if across { x } else { y };
            [(i & 255) as u8, (i >> 8 & 255) as u8, (i >> 16) as u8]
        });
        for a in coordinates(n) {
            for b in [0., 0.4, 0.9, -0.2] {
                let (u, v) = if across { (a, b) } else { (b, a) };
                let c = vv(t.color(Uv::new(u, v)));
                let k = |v: f64| (v * 255.).round() as u32;
                let i = k(c.0) + 256 * k(c.1) + 65536 * k(c.2);
                must!(allowed(a, n, !across).contains(&i), "image {}x{}: texel {} of the longer side is shown at ({},{}), expected {:?}", w, h, i, u, v, allowed(a, n, !across));
                transitions(1);
                traces(1);
            }
        }
        states(1);
    });
    note("images of many thousands of texels in a row", sizes.len());
}

fn solid() {
    for c in [V(0., 0., 0.), V(1., 0.5, 0.25), V(7., -1., 1e9)] {
        let ts: Vec<Textures> = vec![SolidColor::new(c.0, c.1, c.2), SolidColor::new_from_vec3(v3(c)), SolidColor::new_from_f32_array([c.0 as f32, c.1 as f32, c.2 as f32])];
        for t in ts {
            for u in [0., 0.5, -3., 1e30, f32::NAN, f32::INFINITY] {
                for v in [0., 0.7, -3., 1e30, f32::NAN, f32::INFINITY] {
                    must!(vclose(vv(t.color(Uv::new(u, v))), c, 1e-9), "solid color {:?} is {:?} at ({},{})", c, vv(t.color(Uv::new(u, v))), u, v);
                    must!(vclose(vv(t.clone().color(Uv::new(u, v))), c, 1e-9), "copy of a solid color differs");
                    transitions(1);
                }
            }
            states(1);
        }
    }
}

/// Images loaded from files show the file's pixels
fn files() {
    let s = Scratch::new("c27");
    let d = s.dir("t");
    let (w, h) = (5, 3);
    let rgb = image(w, h, |x, y| [x as u8 * 40, y as u8 * 90, 200]);
    let gray = GrayImage::from_fn(w, h, |x, y| Luma([x as u8 * 40 + y as u8]));
    let rgba = RgbaImage::from_fn(w, h, |x, y| Rgba([x as u8 * 40, y as u8 * 90, 7, 255]));
    let all: Vec<(&str, DynamicImage)> = vec![
        ("rgb.png", DynamicImage::from(rgb.clone())),
        ("rgb.bmp", DynamicImage::from(rgb.clone())),
        // the content decides, not the name
        ("rgb.jpg", DynamicImage::from(rgb)),
        ("gray.png", DynamicImage::from(gray)),
        ("rgba.png", DynamicImage::from(rgba)),
    ];
    for (name, img) in all {
        let p = format!("{}{}", d, name);
        let f = if name.ends_with("bmp") { image::ImageFormat::Bmp } else { image::ImageFormat::Png };
        if img.save_with_format(&p, f).is_err() {
            broken("cannot write an image");
        }
        let want = img.into_rgb8();
        match guarded(|| ImageMap::load(&p)) {
            Err(e) => violation(&format!("loading {} panics: {}", name, e)),
            Ok(Err(e)) => violation(&format!("loading {} fails: {}", name, e)),
            Ok(Ok(t)) => {
                for x in 0..w {
                    for y in 0..h {
                        let c = vv(t.color(Uv::new((x as f32 + 0.5) / w as f32, 1. - (y as f32 + 0.5) / h as f32)));
                        let q = want.get_pixel(x, y).0;
                        must!(vclose(c, V(q[0] as f64, q[1] as f64, q[2] as f64) * (1. / 255.), 1e-6), "{}: pixel ({},{}) is {:?} instead of {:?}", name, x, y, c, q);
                        transitions(1);
                    }
                }
            }
        }
        traces(1);
        states(1);
    }
}
