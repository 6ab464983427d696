//! C06: post-processors run in order on a copy of the raw average.
use crate::c04::sname;
use crate::explore::{explore, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use solstrale::geo::vec3::Vec3;
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessor, PostProcessors};
use solstrale::ray_trace;
use solstrale::renderer::RenderImageStrategy::{EverySample, Interval, OnlyFinal};
use std::time::Duration;

#[derive(Copy, Clone, Debug, PartialEq)]
enum P {
    Nop,
    BloomA,
    BloomB,
    /// Of all pixels, however dark
    BloomAll,
    Oidn,
}

fn make(l: &[P]) -> Vec<PostProcessors> {
    l.iter()
        .map(|p| match p {
            P::Nop => NopPostProcessor::new(),
            P::BloomA => BloomPostProcessor::new(0.5, Some(0.15), None).unwrap(),
            P::BloomB => BloomPostProcessor::new(0.34, Some(0.22), Some(0.2)).unwrap(),
            P::BloomAll => BloomPostProcessor::new(0.5, Some(0.), None).unwrap(),
            P::Oidn => OidnPostProcessor::new(),
        })
        .collect()
}

fn lists(max: usize) -> Vec<Vec<P>> {
    let mut v = vec![vec![]];
    for n in 1..=max {
        for i in vlib::product(&vec![4; n]) {
            let l: Vec<P> = i.iter().map(|i| [P::Nop, P::BloomA, P::BloomB, P::Oidn][*i]).collect();
            if !l[..n - 1].contains(&P::Oidn) {
                v.push(l);
            }
        }
    }
    v
}

fn invert(c: &[f32]) -> Vec<f32> {
    c.iter().map(|c| 0.998 - c).collect()
}

/// Color of sample i of n
fn shade(x: usize, y: usize, i: usize, n: usize) -> vlib::V {
    color(x, y, if n > 6 { i % 3 } else { i })
}

/// What the image of sample k of n must look like, as levels
fn expect(list: &[P], w: usize, h: usize, k: usize, n: usize) -> Vec<f64> {
    let mut raw = vec![];
    for y in 0..h {
        for x in 0..w {
            let mut s = vlib::V::ZERO;
            for i in 0..k {
                s = s + shade(x, y, i, n);
            }
            raw.push(Vec3::new(s.0, s.1, s.2));
        }
    }
    let zero = vec![Vec3::new(0., 0., 0.); raw.len()];
    let mut steps = make(list);
    let last = steps.pop();
    for p in steps {
        raw = p
            .intermediate_post_process(&raw, &zero, &zero, w as u32, h as u32, k as u32)
            .unwrap_or_else(|e| vlib::violation(&format!("{:?}: intermediate step failed: {}", list, e)));
    }
    match list.last() {
        Some(P::Oidn) => raw
            .iter()
            .flat_map(|c| [c.x, c.y, c.z])
            .map(|c| (0.998 - level(c, k) / 256.).max(0.) * 256.)
            .collect(),
        Some(P::BloomA | P::BloomB | P::BloomAll) => {
            let img = last.unwrap().post_process(&raw, &zero, &zero, w as u32, h as u32, k as u32).unwrap();
            img.into_raw().iter().map(|b| *b as f64 + 0.5).collect()
        }
        _ => raw.iter().flat_map(|c| [c.x, c.y, c.z]).map(|c| level(c, k)).collect(),
    }
}

fn compare(list: &[P], img: &(u32, u32, Vec<u8>), w: usize, h: usize, k: usize, want: &[f64]) -> Result<(), String> {
    if (img.0 as usize, img.1 as usize) != (w, h) {
        return Err(format!("image of {}x{}", img.0, img.1));
    }
    for (i, want) in want.iter().enumerate() {
        let got = img.2[i] as f64 + 0.5;
        if (got - want).abs() > 1.6 {
            return Err(format!(
                "post-processors {:?}: image after sample {}: pixel ({},{}) channel {} is {}, should be {:.1}",
                list, k, i / 3 % w, i / 3 / w, i % 3, img.2[i], want
            ));
        }
    }
    Ok(())
}

pub fn run() {
    vlib::assume("the denoiser is a stand-in that inverts the colors it is given");
    vlib::assume("the effect of a single post-processor is what its own public methods do to given colors (bloom: see C30)");
    let ms = Interval(Duration::from_millis(10));
    let mut cases = vec![];
    for list in lists(vlib::tier(3, 4)) {
        for n in 1..=3usize {
            for s in [EverySample, OnlyFinal, ms] {
                for size in [(2, 2), (3, 2), (1, 3), (4, 1), (1, 1)] {
                    cases.push((list.clone(), n, s, size));
                }
            }
        }
    }
    // the smallest images
    for list in [
        vec![P::BloomAll],
        vec![P::BloomAll, P::Nop],
        vec![P::BloomAll, P::Oidn],
        vec![P::Nop, P::BloomAll],
        vec![P::BloomAll, P::BloomAll],
        vec![P::BloomAll, P::Nop, P::Oidn],
        vec![P::Nop, P::BloomAll, P::Nop],
        vec![P::BloomAll, P::BloomAll, P::Nop],
    ] {
        for n in 1..=tier_samples() {
            for s in [EverySample, OnlyFinal, ms] {
                for size in [(1, 1), (2, 1), (1, 2), (5, 1), (1, 5)] {
                    cases.push((list.clone(), n, s, size));
                }
            }
        }
    }
    // more samples, wider and higher images
    for list in [vec![], vec![P::Nop, P::Nop], vec![P::BloomA, P::BloomB], vec![P::BloomAll, P::Nop], vec![P::BloomB, P::BloomA, P::Oidn], vec![P::Nop, P::BloomA, P::Nop]] {
        for s in [EverySample, OnlyFinal, ms] {
            for (n, size) in [(7, (2, 2)), (17, (2, 1)), (33, (1, 2)), (40, (5, 3)), (100, (5, 2)), (300, (3, 2)), (2, (9, 9)), (2, (17, 2)), (2, (2, 17)), (1, (40, 3)), (1, (3, 40))] {
                cases.push((list.clone(), n, s, size));
            }
        }
    }
    // long lists: a bloom at each place, and ending in each processor
    for len in vlib::tier(4..=9usize, 5..=20) {
        for last in [P::Nop, P::BloomB, P::Oidn] {
            for at in 0..len - 1 {
                let mut l = vec![P::Nop; len];
                l[at] = P::BloomA;
                l[len - 1] = last;
                cases.push((l, 2, EverySample, (3, 2)));
            }
            let mut l = vec![P::BloomB; len];
            l[len - 1] = last;
            cases.push((l, 2, EverySample, (3, 2)));
        }
    }
    vlib::par(&cases, |_, (list, n, s, (w, h))| {
        let (n, w, h) = (*n, *w, *h);
        let world = world_of(w, h, n, &|x, y, i| shade(x, y, i, n));
        let (r, reps, calls) = once(2, || {
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            oidn::mc::reset(vec![], Some(invert));
            let clock = (0..=n as i64 + 1).map(|k| 1_000_000_000_000_000_000 + k * 6_000_000).collect();
            set_env(rx.mc_sent(), jitter(n), clock);
            let r = ray_trace(scene(&world, w, h, n, make(list), *s), &tx, &arx).map_err(|e| e.to_string());
            (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>(), oidn::mc::take().len())
        });
        let what = format!("post-processors {:?}, {} samples, {}, {}x{}", list, n, sname(s), w, h);
        vlib::must!(r.is_ok(), "{}: the render failed: {:?}", what, r);
        vlib::must!(reps.len() == n, "{}: {} reports", what, reps.len());
        let mut images = 0;
        for (i, rep) in reps.iter().enumerate() {
            if let Some(img) = &rep.image {
                images += 1;
                if let Err(e) = compare(list, img, w, h, i + 1, &expect(list, w, h, i + 1, n)) {
                    vlib::violation(&format!("{}: {}", what, e));
                }
            }
        }
        vlib::must!(images > 0, "{}: no image", what);
        let denoised = if list.last() == Some(&P::Oidn) { images } else { 0 };
        vlib::must!(calls == denoised, "{}: denoiser called {} times for {} images", what, calls, images);
    });
    vlib::note("post-processor configurations", cases.len());
    schedules();
    plain_crate();
    nops();
}

fn tier_samples() -> usize {
    vlib::tier(5, 12)
}

/// Processors without effect hand on any colors as they are
fn nops() {
    let v = [-2., -1e-9, -0., 0., 1e-300, 0.25, 0.999, 1., 3.5, 1e9, f64::INFINITY];
    for (w, h) in [(1, 1), (3, 1), (1, 4), (5, 3)] {
        for rot in 0..v.len() {
            let c: Vec<Vec3> = (0..w * h).map(|i| Vec3::new(v[(i + rot) % 11], v[(2 * i + rot) % 11], v[(7 * i + 3 * rot) % 11])).collect();
            let zero = vec![Vec3::new(0., 0., 0.); w * h];
            for k in [1, 2, 77] {
                let p = NopPostProcessor::new();
                match p.intermediate_post_process(&c, &zero, &zero, w as u32, h as u32, k) {
                    Err(e) => vlib::violation(&format!("a processor without effect fails: {}", e)),
                    Ok(g) => {
                        let same = g.len() == c.len() && g.iter().zip(&c).all(|(a, b)| a.x == b.x && a.y == b.y && a.z == b.z);
                        vlib::must!(same, "a processor without effect turns {:?} into {:?}", c, g);
                    }
                }
            }
        }
    }
}

fn schedules() {
    for (list, w, h, n, workers, preemptions, max) in vlib::tier(
        vec![
            (vec![P::Nop, P::Nop], 1, 2, 2, 2, 2, 60_000),
            (vec![P::Nop, P::Oidn], 1, 2, 2, 2, 1, 60_000),
            (vec![P::BloomA], 2, 1, 1, 2, 2, 60_000),
            (vec![P::BloomA, P::BloomB], 2, 1, 1, 2, 1, 60_000),
        ],
        vec![
            (vec![P::Nop, P::Nop], 1, 2, 2, 2, 4, 1_000_000),
            (vec![P::Nop, P::Oidn], 1, 2, 2, 2, 3, 1_000_000),
            (vec![P::BloomA], 2, 2, 1, 2, 3, 1_000_000),
            (vec![P::BloomA, P::BloomB], 2, 2, 1, 2, 2, 1_000_000),
            (vec![P::BloomA, P::BloomB], 3, 2, 1, 3, 1, 1_000_000),
        ],
    ) {
        let world = world(w, h, n);
        let wants: Vec<Vec<f64>> = (1..=n).map(|k| expect(&list, w, h, k, n)).collect();
        explore(
            &format!("{:?}, {}x{}, {} samples", list, w, h, n),
            &Bounds { workers, preemptions, horizon: 20_000, max_execs: max },
            || {
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                oidn::mc::reset(vec![], Some(invert));
                set_env(rx.mc_sent(), jitter(n), vec![0, 1_000_000]);
                let r = ray_trace(scene(&world, w, h, n, make(&list), EverySample), &tx, &arx).map_err(|e| e.to_string());
                mcrt::calm();
                oidn::mc::take();
                (r, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
            },
            |v, _| {
                let (r, reps) = v.as_ref().map_err(|e| format!("the render panicked: {}", e))?;
                r.as_ref().map_err(|e| format!("the render failed: {}", e))?;
                if reps.len() != n {
                    return Err(format!("{} reports", reps.len()));
                }
                for (i, rep) in reps.iter().enumerate() {
                    let img = rep.image.as_ref().ok_or("no image")?;
                    compare(&list, img, w, h, i + 1, &wants[i])?;
                }
                Ok(())
            },
        );
    }
}

/// Without the denoising feature the denoiser changes nothing, wherever it stands.
fn plain_crate() {
    use plain::camera::CameraConfig;
    use plain::geo::transformation::NopTransformer;
    use plain::geo::vec3::Vec3;
    use plain::hittable::{Bvh, Quad};
    use plain::material::DiffuseLight;
    use plain::post::{NopPostProcessor, OidnPostProcessor};
    use plain::renderer::{shader::PathTracingShader, RenderConfig, RenderImageStrategy, Scene};
    for list in vlib::product(&[2, 2, 2]) {
        for len in 1..=3 {
            let post: Vec<_> =
                list[..len].iter().map(|i| if *i == 0 { NopPostProcessor::new() } else { OidnPostProcessor::new() }).collect();
            let world = Bvh::new(vec![Quad::new(
                Vec3::new(-9., -9., 0.),
                Vec3::new(18., 0., 0.),
                Vec3::new(0., 18., 0.),
                DiffuseLight::new(0.1, 0.3, 0.7, None),
                &NopTransformer(),
            )]);
            let (tx, rx) = std::sync::mpsc::channel();
            let (_atx, arx) = std::sync::mpsc::channel();
            let r = plain::ray_trace(
                Scene {
                    world,
                    camera: CameraConfig {
                        vertical_fov_degrees: 20.,
                        aperture_size: 0.,
                        look_from: Vec3::new(0., 0., 5.),
                        look_at: Vec3::new(0., 0., 0.),
                        up: Vec3::new(0., 1., 0.),
                    },
                    background_color: Vec3::new(0., 0., 0.),
                    render_config: RenderConfig {
                        width: 2,
                        height: 2,
                        samples_per_pixel: 2,
                        shader: PathTracingShader::new(2),
                        post_processors: post,
                        render_image_strategy: RenderImageStrategy::EverySample,
                    },
                },
                &tx,
                &arx,
            );
            vlib::must!(r.is_ok(), "without the denoiser, {:?}: the render failed", &list[..len]);
            let reps: Vec<_> = rx.try_iter().collect();
            vlib::must!(reps.len() == 2, "{} reports", reps.len());
            for rep in reps {
                let img = rep.render_image.unwrap().into_raw();
                for (i, b) in img.iter().enumerate() {
                    let want = level([0.1, 0.3, 0.7][i % 3], 1);
                    vlib::must!((*b as f64 + 0.5 - want).abs() < 1.6, "without the denoiser, {:?}: pixel value {} instead of {}", &list[..len], b, want);
                }
            }
        }
    }
}
