//! Height maps and bump textures.
use crate::kit::*;
use image::RgbImage;
use solstrale::geo::Uv;
use solstrale::material::texture::{load_normal_texture, Texture};
use solstrale::util::height_map::to_normal_map;

/// The unit normal of the surface of the heights, as pixel before rounding
fn reference(h: &dyn Fn(i64, i64) -> f64, w: i64, ht: i64, x: i64, y: i64) -> V {
    let at = |dx: i64, dy: i64| h((x + dx).clamp(0, w - 1), (y + dy).clamp(0, ht - 1));
    let gx = at(1, -1) + 2. * at(1, 0) + at(1, 1) - at(-1, -1) - 2. * at(-1, 0) - at(-1, 1);
    // upwards is towards smaller y
    let gy = at(-1, -1) + 2. * at(0, -1) + at(1, -1) - at(-1, 1) - 2. * at(0, 1) - at(1, 1);
    let n = V(-gx, -gy, 1. / 6.).unit();
    (n * 0.5 + V(0.5, 0.5, 0.5)) * 255.
}

fn check(img: &RgbImage, what: &str) {
    let (w, h) = img.dimensions();
    let n = guarded(|| to_normal_map(img.clone())).unwrap_or_else(|e| violation(&format!("{}: converting panics: {}", what, e)));
    must!(n.dimensions() == (w, h), "{}: {}x{} becomes {:?}", what, w, h, n.dimensions());
    let f = |x: i64, y: i64| img.get_pixel(x as u32, y as u32).0[0] as f64 / 255.;
    for x in 0..w {
        for y in 0..h {
            let want = reference(&f, w as i64, h as i64, x as i64, y as i64);
            let got = n.get_pixel(x, y).0;
            for i in 0..3 {
                let d = got[i] as f64 - want.get(i);
                must!(d.abs() <= 1.001, "{}: pixel ({},{}) of {:?} becomes {:?} instead of {:?}", what, x, y, img.pixels().map(|p| p.0[0]).collect::<Vec<_>>(), got, want);
            }
            let v = V(got[0] as f64, got[1] as f64, got[2] as f64) * (2. / 255.) - V(1., 1., 1.);
            must!((v.len() - 1.).abs() < 0.03, "{}: pixel ({},{}) encodes {:?} of length {}", what, x, y, v, v.len());
        }
    }
    states(1);
    transitions((w * h) as u64);
    traces(1);
}

pub fn run() {
    // all images over a few heights
    let mut cases: Vec<(u32, u32, Vec<u8>)> = vec![];
    let mut add = |w: u32, h: u32, levels: &[u8]| {
        for p in product(&vec![levels.len(); (w * h) as usize]) {
            cases.push((w, h, p.iter().map(|i| levels[*i]).collect()));
        }
    };
    for (w, h) in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)] {
        add(w, h, &[0, 1, 60, 128, 254, 255]);
    }
    for (w, h) in [(2, 3), (3, 2), (1, 5), (5, 1), (1, 6)] {
        add(w, h, &[0, 100, 255]);
    }
    add(3, 3, &[40, 200]);
    add(4, 2, &[0, 90]);
    if thorough() {
        add(3, 3, &[0, 128, 255]);
        add(4, 4, &[20, 220]);
        add(2, 4, &[0, 60, 255]);
        add(6, 2, &[1, 2]);
    }
    par(&cases, |_, (w, h, v)| {
        check(&image(*w, *h, |x, y| [v[(y * w + x) as usize]; 3]), &format!("{}x{} image", w, h));
    });
    note("small images", cases.len());
    // larger ones
    let f: Vec<(&str, Box<dyn Fn(u32, u32) -> u8 + Sync>)> = vec![
        ("rising to the right", Box::new(|x, _| (x * 3) as u8)),
        ("rising downwards", Box::new(|_, y| (y * 4) as u8)),
        ("checkered", Box::new(|x, y| if (x + y) % 2 == 0 { 255 } else { 0 })),
        ("constant", Box::new(|_, _| 77)),
        ("hill", Box::new(|x, y| (200. * (-((x as f64 - 9.).powi(2) + (y as f64 - 5.).powi(2)) / 20.).exp()) as u8)),
        ("scattered", Box::new(|x, y| (x.wrapping_mul(7919).wrapping_add(y.wrapping_mul(104729)) % 251) as u8)),
    ];
    for (name, f) in &f {
        for (w, h) in [(17, 9), (9, 17), (64, 1), (1, 50), (40, 40), (300, 5), (3, 270), (1100, 2), (2, 1100), (4100, 3), (3, 4100), (66_000, 1), (1, 66_000)] {
            check(&image(w, h, |x, y| [f(x, y); 3]), &format!("{} {}x{}", name, w, h));
        }
    }
    for c in 0..=255u8 {
        for (w, h) in [(1, 1), (3, 2)] {
            let n = to_normal_map(image(w, h, |_, _| [c; 3]));
            must!(n.pixels().all(|p| p.0[0].abs_diff(127) <= 1 && p.0[1].abs_diff(127) <= 1 && p.0[2] >= 254), "constant image {} gives {:?}", c, n.get_pixel(0, 0));
        }
    }
    loading();
    damaged();
    sample(|| "all 3x3 images over two heights, 2x2 over six, compared with the gradient of the eight neighbours".into());
    assume("components may be rounded either way");
}

/// gray, a unit vector, neither, both, nearly gray, nearly unit
const KINDS: [([u8; 3], bool, bool); 8] = [
    ([90, 90, 90], true, false),
    ([128, 128, 255], false, true),
    ([250, 10, 120], false, false),
    ([201, 201, 201], true, true),
    ([60, 66, 70], true, false),
    ([218, 165, 209], false, true),
    // sideways and away
    ([255, 129, 128], false, true),
    ([128, 128, 0], false, true),
];

fn loading() {
    let s = Scratch::new("c29");
    let d = s.dir("b");
    let n = tier(4, 5);
    let cases = product(&vec![KINDS.len(); n]);
    par(&cases, |i, kinds| {
        for (c, g, u) in KINDS {
            let v = V(c[0] as f64, c[1] as f64, c[2] as f64) * (2. / 255.) - V(1., 1., 1.);
            if u != ((v.len() - 1.).abs() < 0.05) || g != (c[0].abs_diff(c[1]) < 12 && c[1].abs_diff(c[2]) < 12) {
                broken("wrong table of pixels");
            }
        }
        let img = image(n as u32, 1, |x, _| KINDS[kinds[x as usize]].0);
        let p = format!("{}{}.png", d, i);
        img.save(&p).unwrap_or_else(|_| broken("cannot write an image"));
        let gray = kinds.iter().filter(|k| KINDS[**k].1).count();
        let unit = kinds.iter().filter(|k| KINDS[**k].2).count();
        let want = if gray > unit { to_normal_map(img.clone()) } else { img.clone() };
        let t = match guarded(|| load_normal_texture(&p)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => violation(&format!("loading {:?} fails: {}", kinds, e)),
            Err(e) => violation(&format!("loading {:?} panics: {}", kinds, e)),
        };
        for x in 0..n {
            let c = vv(t.color(Uv::new((x as f32 + 0.5) / n as f32, 0.5)));
            let q = want.get_pixel(x as u32, 0).0;
            must!(
                vclose(c, V(q[0] as f64, q[1] as f64, q[2] as f64) * (1. / 255.), 1e-6),
                "an image of pixels {:?} ({} look gray, {} like unit vectors) is taken for a {}",
                kinds.iter().map(|k| KINDS[*k].0).collect::<Vec<_>>(),
                gray,
                unit,
                if gray > unit { "normal map" } else { "height map" }
            );
        }
        let _ = std::fs::remove_file(&p);
        states(1);
        transitions(n as u64);
        traces(1);
    });
    note("bump files", cases.len());
}

fn damaged() {
    let s = Scratch::new("c29d");
    let d = s.dir("b");
    let p = format!("{}x.png", d);
    image(4, 3, |x, y| [x as u8 * 20, y as u8 * 30, 9]).save(&p).unwrap_or_else(|_| broken("cannot write an image"));
    let good = std::fs::read(&p).unwrap();
    let fails = |path: &str, what: &str| match guarded(|| load_normal_texture(path).map(|_| ())) {
        Err(e) => violation(&format!("loading a bump texture {} panics: {}", what, e)),
        Ok(Ok(())) => violation(&format!("loading a bump texture {} succeeds", what)),
        Ok(Err(e)) => must!(format!("{}", e).contains(path), "loading a bump texture {} gives the error {:?} that does not name it", what, format!("{}", e)),
    };
    fails(&format!("{}missing.png", d), "that is missing");
    fails(&d, "that is a directory");
    // the end of a png carries no image data
    for n in 0..good.len() - 16 {
        let q = format!("{}cut.png", d);
        std::fs::write(&q, &good[..n]).unwrap();
        fails(&q, &format!("cut after {} of {} bytes", n, good.len()));
        states(1);
        transitions(1);
        traces(1);
    }
    let q = format!("{}text.png", d);
    std::fs::write(&q, "newmtl a\nKd 1 1 1\n").unwrap();
    fails(&q, "that is a text file");
}
