//! C07: what the denoiser is given.
use crate::c04::sname;
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use oidn::Call;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Hittables, Quad};
use solstrale::material::texture::SolidColor;
use solstrale::material::{Blend, Dielectric, DiffuseLight, Lambertian, Materials, Metal};
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessors};
use solstrale::ray_trace;
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, Shaders, SimpleShader};
use solstrale::renderer::RenderImageStrategy::{self, EverySample, Interval, OnlyFinal};
use std::time::Duration;
use vlib::V;

fn vec(v: V) -> Vec3 {
    Vec3::new(v.0, v.1, v.2)
}

/// The surface seen through a pixel in a sample: its color and normal
fn surface(x: usize, y: usize, k: usize) -> Option<(V, V)> {
    if (x + 2 * y + k) % 5 == 3 {
        return None;
    }
    let c = V((x % 7 + 1) as f64 * 0.12, (y % 7 + 1) as f64 * 0.13, 0.1 + 0.25 * k as f64);
    if (x + y) % 6 == 1 {
        return Some((c, V(0., 0., 1.)));
    }
    let n = V(((x % 4) as f64 - 1.5) * 0.2 + 0.02, ((y % 4) as f64 - 1.5) * 0.18 + 0.03, 1. + 0.2 * k as f64).unit();
    Some((c, n))
}

/// What the tile is made of, and the color by which it is known to the denoiser
fn material(x: usize, y: usize, k: usize, n: usize, c: V) -> (Materials, V, bool) {
    let tex = |c: V| SolidColor::new(c.0, c.1, c.2);
    match (2 * x + 3 * y + 5 * k) % 9 {
        1 => (DiffuseLight::new(c.0, c.1, c.2, None), c, false),
        // seen from behind
        2 => (DiffuseLight::new(c.0, c.1, c.2, Some(0.1)), V::ZERO, true),
        // the draws of three samples would never give a point in a ball
        3 if n < 3 => (Metal::new(tex(c), None, 0.), c, false),
        4 if n < 3 => (Metal::new(tex(c), None, 0.4), c, true),
        5 => (Dielectric::new(tex(c), None, 1.5), c, false),
        6 => (Dielectric::new(tex(c), None, 0.7), c, true),
        7 if n < 3 => (Blend::new(Lambertian::new(tex(c), None), Metal::new(tex(c), None, 0.1), 0.5), c, false),
        8 => (Lambertian::new(tex(c), None), c, true),
        _ => (Lambertian::new(tex(c), None), c, false),
    }
}

/// One tilted tile per pixel and sample; one light outside of the view
fn tilted(w: usize, h: usize, n: usize) -> Hittables {
    let hw = w as f64 / h as f64;
    let (wd, hd) = ((w - 1).max(1) as f64, (h - 1).max(1) as f64);
    let mut list = vec![];
    for y in 0..h {
        for x in 0..w {
            for k in 0..n {
                if let Some((c, nrm)) = surface(x, y, k) {
                    let yb = (h - 1 - y) as f64;
                    let (u, v) = ((x as f64 + at(k as f64 + 0.5, n)) / wd, (yb + at(k as f64 + 0.5, n)) / hd);
                    let (du, dv) = (0.16 * 2. * hw / n as f64 / wd, 0.16 * 2. / n as f64 / hd);
                    let mid = V(-hw + 2. * hw * u, -1. + 2. * v, 0.);
                    // edges in the plane with normal nrm through mid
                    let eu = V(du, 0., -nrm.0 / nrm.2 * du);
                    let ev = V(0., dv, -nrm.1 / nrm.2 * dv);
                    let q = mid - eu * 0.5 - ev * 0.5;
                    let (m, _, back) = material(x, y, k, n, c);
                    let (eu, ev) = if back { (ev, eu) } else { (eu, ev) };
                    list.push(Quad::new(vec(q), vec(eu), vec(ev), m, &NopTransformer()));
                }
            }
        }
    }
    list.push(Quad::new(
        Vec3::new(-3., -3., 9.),
        Vec3::new(0., 6., 0.),
        Vec3::new(6., 0., 0.),
        DiffuseLight::new(2., 1., 1., None),
        &NopTransformer(),
    ));
    Bvh::new(list)
}

fn invert(c: &[f32]) -> Vec<f32> {
    c.iter().map(|c| 0.998 - c).collect()
}

fn sums(w: usize, h: usize, n: usize, k: usize) -> Vec<(V, V)> {
    let mut v = vec![];
    for y in 0..h {
        for x in 0..w {
            let mut a = (V::ZERO, V::ZERO);
            for s in 0..k {
                let (c, n) = surface(x, y, s).map_or((BACKGROUND, V::ZERO), |(c, nr)| (material(x, y, s, n, c).1, nr));
                a = (a.0 + c, a.1 + n);
            }
            v.push((a.0 * (1. / k as f64), a.1 * (1. / k as f64)));
        }
    }
    v
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Main {
    Path,
    Albedo,
    Normal,
    Simple,
}
impl Main {
    fn shader(self) -> Shaders {
        match self {
            Main::Path => PathTracingShader::new(3),
            Main::Albedo => AlbedoShader::new(),
            Main::Normal => NormalShader::new(),
            Main::Simple => SimpleShader::new(),
        }
    }
}

/// Compares one call of the denoiser, made for the image of sample k, and the resulting image.
fn judge(c: &Call, img: &(u32, u32, Vec<u8>), w: usize, h: usize, samples: usize, k: usize, main: Main, bloom: bool) -> Result<(), String> {
    let n = w * h * 3;
    if (c.width, c.height) != (w, h) {
        return Err(format!("the denoiser is told {}x{} pixels", c.width, c.height));
    }
    let albedo = c.albedo.as_ref().ok_or("the denoiser gets no albedo image")?;
    let normal = c.normal.as_ref().ok_or("the denoiser gets no normal image")?;
    for (name, b, lo) in [("color", &c.color, 0.), ("albedo", albedo, 0.), ("normal", normal, -1.)] {
        if b.len() != n {
            return Err(format!("the {} image has {} values instead of {}", name, b.len(), n));
        }
        for v in b.iter() {
            if !v.is_finite() || (*v as f64) < lo - 1e-6 || *v > 1.000001 {
                return Err(format!("the {} image contains {}", name, v));
            }
        }
    }
    let want = sums(w, h, samples, k);
    let (mut linear, mut gamma) = (None, None);
    for (i, (a, nr)) in want.iter().enumerate() {
        for ch in 0..3 {
            let at = format!("after sample {} at pixel ({},{}) channel {}", k, i % w, i / w, ch);
            let got = albedo[i * 3 + ch] as f64;
            if (got - a.get(ch)).abs() > 2e-3 {
                linear = Some(format!("albedo {} is {} instead of {} (or its root)", at, got, a.get(ch)));
            }
            if (got - a.get(ch).sqrt().min(0.999)).abs() > 2e-3 {
                gamma = Some(format!("albedo {} is {} instead of the root of {}", at, got, a.get(ch)));
            }
            let got = normal[i * 3 + ch] as f64;
            if (got - nr.get(ch)).abs() > 1e-5 {
                return Err(format!("normal {} is {} instead of {}", at, got, nr.get(ch)));
            }
            if main == Main::Albedo && !bloom {
                let got = c.color[i * 3 + ch] as f64;
                let w1 = a.get(ch).sqrt().min(0.999);
                if (got - w1).abs() > 2e-3 {
                    return Err(format!("color {} is {} instead of {}", at, got, w1));
                }
            }
        }
    }
    if let (Some(e), Some(_)) = (gamma, linear) {
        return Err(e);
    }
    for i in 0..n {
        let want = ((0.998 - c.color[i]).max(0.) * 256.) as f64;
        if (img.2[i] as f64 + 0.5 - want).abs() > 1.6 {
            return Err(format!("image value {} is {}, the denoiser gave {:.1}", i, img.2[i], want));
        }
    }
    Ok(())
}

fn scene_of(world: &Hittables, w: usize, h: usize, n: usize, main: Main, post: Vec<PostProcessors>, s: RenderImageStrategy) -> solstrale::renderer::Scene {
    let mut sc = scene(world, w, h, n, post, s);
    sc.render_config.shader = main.shader();
    sc
}

fn post(p: usize) -> Vec<PostProcessors> {
    match p {
        0 => vec![OidnPostProcessor::new()],
        1 => vec![NopPostProcessor::new(), OidnPostProcessor::new()],
        3.. => (0..p).map(|i| if i + 1 < p { NopPostProcessor::new() } else { OidnPostProcessor::new() }).collect(),
        _ => vec![BloomPostProcessor::new(0.5, Some(0.3), None).unwrap(), OidnPostProcessor::new()],
    }
}

pub fn run() {
    vlib::assume("the denoiser is a stand-in that records its images and inverts the colors; albedo may be handed over linear or with gamma");
    let ms = Interval(Duration::from_millis(10));
    let m = vlib::tier(4, 6);
    let mut cases = vec![];
    for h in 1..=m {
        for w in 1..=m {
            for n in 1..=3usize {
                for s in [EverySample, OnlyFinal, ms] {
                    for main in [Main::Path, Main::Albedo, Main::Normal, Main::Simple] {
                        for p in 0..3 {
                            cases.push((w, h, n, s, main, p));
                        }
                    }
                }
            }
        }
    }
    // more post-processors
    for p in 3..=vlib::tier(7, 12) {
        for n in 1..=2 {
            cases.push((3, 2, n, EverySample, Main::Path, p));
        }
    }
    // longer
    for (n, s) in [(40, EverySample), (300, EverySample), (300, OnlyFinal), (vlib::tier(1100, 5000), ms)] {
        for main in [Main::Path, Main::Albedo] {
            for p in 0..3 {
                cases.push((2, 1, n, s, main, p));
            }
        }
    }
    // wider and higher
    for (w, h) in [(8, 1), (1, 8), (9, 3), (3, 9), (16, 2), (2, 17), (33, 5), (1, 33), (20, 20), (65, 9), (2, 65), (130, 17), (1, 130), (1, 22_000), (300, 75)] {
        for n in 1..=2 {
            for main in [Main::Path, Main::Albedo] {
                for p in 0..3 {
                    cases.push((w, h, n, EverySample, main, p));
                }
            }
        }
    }
    vlib::par(&cases, |_, (w, h, n, s, main, p)| {
        let (w, h, n) = (*w, *h, *n);
        let world = tilted(w, h, n);
        let (r, reps, calls) = once(2, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            oidn::mc::reset(vec![], Some(invert));
            let clock = (0..=n as i64 + 1).map(|k| 1_000_000_000_000_000_000 + k * 6_000_000).collect();
            set_env_spread(rx.mc_sent(), n, clock);
            let r = ray_trace(scene_of(&world, w, h, n, *main, post(*p), *s), &tx, &arx).map_err(|e| e.to_string());
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>(), oidn::mc::take())
        });
        let what = format!("{}x{} pixels, {} samples, {}, {:?} shader, post-processors {}", w, h, n, sname(s), main, p);
        vlib::must!(r.is_ok(), "{}: the render failed: {:?}", what, r);
        let imgs: Vec<(usize, _)> = reps.iter().enumerate().filter_map(|(i, r)| r.image.as_ref().map(|m| (i + 1, m))).collect();
        vlib::must!(imgs.len() == calls.len() && !imgs.is_empty(), "{}: {} images, denoiser called {} times", what, imgs.len(), calls.len());
        for ((k, img), c) in imgs.iter().zip(&calls) {
            if let Err(e) = judge(c, img, w, h, n, *k, *main, *p == 2) {
                vlib::violation(&format!("{}: {}", what, e));
            }
        }
    });
    vlib::note("configurations", cases.len());
    for (w, h, n, workers, preemptions) in
        vlib::tier(vec![(1, 2, 1, 2, 2), (2, 2, 2, 2, 1)], vec![(1, 2, 1, 2, 99), (2, 2, 2, 2, 3), (2, 3, 2, 3, 2)])
    {
        let world = tilted(w, h, n);
        explore(
            &format!("denoised, {}x{} pixels, {} samples", w, h, n),
            &Bounds { workers, preemptions, horizon: 5000, max_execs: vlib::tier(150_000, 2_000_000) },
            || {
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                oidn::mc::reset(vec![], Some(invert));
                set_env_spread(rx.mc_sent(), n, vec![0, 1_000_000]);
                let r = ray_trace(scene_of(&world, w, h, n, Main::Albedo, post(0), EverySample), &tx, &arx).map_err(|e| e.to_string());
                mcrt::calm();
                (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>(), oidn::mc::take())
            },
            |v, _| {
                let (r, reps, calls) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                r.as_ref().map_err(|e| format!("the render failed: {}", e))?;
                if reps.len() != n || calls.len() != n {
                    return Err(format!("{} reports, {} denoised", reps.len(), calls.len()));
                }
                for i in 0..n {
                    judge(&calls[i], reps[i].image.as_ref().ok_or("no image")?, w, h, n, i + 1, Main::Albedo, false)?;
                }
                Ok(())
            },
        );
    }
}
