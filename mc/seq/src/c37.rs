//! Light adds up: the color of a path is linear in what the lights and the background give off.
use crate::c36::{group, worlds, Group, Obj, World};
use crate::kit::*;
use solstrale::camera::{Camera, CameraConfig};
use solstrale::geo::Uv;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::renderer::shader::{PathTracingShader, Shader, Shaders};
use solstrale::renderer::Renderer;
use solstrale::util::interval::RAY_INTERVAL;

struct View {
    cam: Camera,
    world: Hittables,
    r: Renderer,
    sh: Shaders,
    background: V,
}

/// The scene with the given color of each light, the last one being that of the background
fn view(w: &World, colors: &[V], depth: u32) -> View {
    let mut k = 0;
    let l = w
        .objs
        .iter()
        .map(|o| match o {
            Obj::Solid(s, f) => s.build(f(1.)),
            Obj::Light(s, _, h) => {
                k += 1;
                s.build(match h {
                    None => light(colors[k - 1]),
                    Some(h) => light_h(colors[k - 1], *h),
                })
            }
            Obj::Fog(b, d) => ConstantMedium::new(bvh(b.iter().map(|s| s.build(matte(WHITE))).collect()), *d, v3(V(0.7, 0.8, 1.))),
        })
        .collect();
    let world = group(l, Group::Listed);
    let cam = Camera::new(
        300,
        200,
        &CameraConfig {
            vertical_fov_degrees: w.fov,
            aperture_size: w.aperture,
            look_from: v3(w.from),
            look_at: v3(w.at),
            up: v3(V(0.1, 1., 0.)),
        },
    );
    let sh = PathTracingShader::new(depth);
    let background = colors[k];
    View { cam, r: renderer(world.clone(), sh.clone(), background), world, sh, background }
}

fn look(v: &View, (a, b): (f64, f64)) -> V {
    let ray = v.cam.get_ray(Uv { u: a as f32, v: b as f32 });
    match v.world.hit(&ray, &RAY_INTERVAL) {
        None => v.background,
        Some(h) => vv(v.sh.shade(&v.r, &h, &ray, 0, 0.).get_attenuated_color()),
    }
}

pub fn run() {
    let ws = worlds();
    // dim enough never to reach the brightness at which scattered light is cut off
    let unit = V(0.02, 0.01, 0.015);
    let mut cases = vec![];
    for (k, w) in ws.iter().enumerate() {
        let lights = w.objs.iter().filter(|o| matches!(o, Obj::Light(..))).count();
        let n = lights + 1;
        let mut mixes: Vec<Vec<V>> = vec![];
        // every one of them on or off, or each its own brightness
        if n <= 6 {
            for c in product(&vec![3; n]) {
                mixes.push(c.iter().map(|c| unit.mulv([V::ZERO, V(1., 1., 1.), V(2.5, 0., 0.3)][*c])).collect());
            }
        } else {
            for on in 0..n {
                mixes.push((0..n).map(|i| if i <= on { unit * (1. + i as f64 / 4.) } else { V::ZERO }).collect());
            }
        }
        mixes.push((0..n).map(|i| V(1e-4, 1e-7, 1e-12) * (i + 1) as f64).collect());
        mixes.push((0..n).map(|i| V(3e-8, 1e-10, 1e-6) * (n - i) as f64).collect());
        mixes.push((0..n).map(|i| V(0., 1e-30, 2e-40) * (i + 1) as f64).collect());
        for depth in tier(vec![1, 2, 5], vec![1, 2, 3, 4, 5, 8]) {
            for chunk in mixes.chunks(20) {
                cases.push((k, n, depth, chunk.to_vec()));
            }
        }
    }
    note("scenes", ws.len());
    note("mixtures of lights", cases.iter().map(|c| c.3.len()).sum::<usize>());
    let m = tier(10, 20);
    let mut places = vec![];
    for i in 0..m {
        for j in 0..m {
            places.push(((i as f64 + 0.4137) / m as f64, (j as f64 + 0.5791) / m as f64));
        }
    }
    par(&cases, |_, (k, n, depth, mixes)| {
        let w = &ws[*k];
        let deep = tier(5, 6);
        let alphabet = |_: usize| cells(3);
        // one at a time
        let single: Vec<View> = (0..*n).map(|i| view(w, &(0..*n).map(|j| if i == j { unit } else { V::ZERO }).collect::<Vec<_>>(), *depth)).collect();
        let alone: Vec<Vec<Vec<V>>> = places
            .iter()
            .map(|p| {
                single
                    .iter()
                    .map(|v| {
                        let mut l = vec![];
                        tree_spread(&alphabet, deep, || look(v, *p), |c, _| l.push(c));
                        l
                    })
                    .collect()
            })
            .collect();
        for mix in mixes {
            let v = view(w, mix, *depth);
            for (p, alone) in places.iter().zip(&alone) {
                let mut i = 0;
                let count = tree_spread(&alphabet, deep, || look(&v, *p), |c, l| {
                    let mut want = V::ZERO;
                    for (a, b) in alone.iter().zip(mix) {
                        let f = V(b.0 / unit.0, b.1 / unit.1, b.2 / unit.2);
                        match a.get(i) {
                            Some(a) => want = want + a.mulv(f),
                            None => violation(&format!("{}: more outcomes of the draws with the lights {:?} than with single ones", w.name, mix)),
                        }
                    }
                    for ch in 0..3 {
                        let (got, want) = (c.get(ch), want.get(ch));
                        must!(
                            (got - want).abs() <= 1e-9 * want.abs() + 1e-300,
                            "{} at depth {} seen at {:?} with draws {:?}: lights {:?} together give {:?}, the sum of each alone is {} in channel {}",
                            w.name,
                            depth,
                            p,
                            l.choice,
                            mix,
                            c,
                            want,
                            ch
                        );
                    }
                    i += 1;
                });
                traces(count);
                transitions(count * deep as u64);
            }
        }
        states(mixes.len() as u64);
    });
    sample(|| "mirrors and glass below a fading quad light, a triangle light and a sphere light: each off, on, or another color, against the sum of the three and the background alone".into());
    assume("scattered light is dimmer than the level at which it is cut off");
}
