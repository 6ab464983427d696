//! Preview shaders against the own geometry, whatever the depth, length, lights and random numbers.
use crate::c09::pixel;
use crate::kit::*;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::texture::Textures;
use solstrale::material::{Dielectric, DiffuseLight, Lambertian, Materials, Metal};
use solstrale::renderer::shader::{AlbedoShader, NormalShader, Shader, Shaders, SimpleShader};
use solstrale::renderer::Renderer;

/// A texture and its own lookup; None too close to the border of a texel
pub struct Tex {
    pub t: Textures,
    pub pixels: Option<(u32, u32, Vec<[u8; 3]>)>,
    pub solid: V,
}
impl Tex {
    pub fn at(&self, uv: (f64, f64)) -> Option<V> {
        let Some((w, h, p)) = &self.pixels else { return Some(self.solid) };
        let (u, v) = (uv.0.abs(), uv.1.abs());
        let (x, y) = (u.fract() * *w as f64, v.fract() * *h as f64);
        let near = |x: f64| (x - x.round()).abs() < 2e-3;
        if near(x) || near(y) {
            return None;
        }
        let c = p[((*h - 1 - y as u32) * w + x as u32) as usize];
        Some(V(c[0] as f64, c[1] as f64, c[2] as f64) * (1. / 255.))
    }
}
fn textures() -> Vec<Tex> {
    let mk = |w: u32, h: u32| {
        let f = move |x: u32, y: u32| [(40 + 30 * x + 7 * y) as u8, (250 - 50 * y) as u8, (x * y * 20 + 9) as u8];
        let mut p = vec![];
        for y in 0..h {
            for x in 0..w {
                p.push(f(x, y));
            }
        }
        Tex { t: image_tex(w, h, f), pixels: Some((w, h, p)), solid: V::ZERO }
    };
    let solid = |c: V| Tex { t: tex(c), pixels: None, solid: c };
    vec![solid(V(0.2, 0.9, 0.4)), solid(V(3., 0., 0.01)), solid(V(40., 0.7, 5.)), mk(4, 3), mk(1, 5), mk(7, 2)]
}

fn shapes() -> Vec<Shape> {
    vec![
        sph(V(0.1, -0.2, 0.3), 1.),
        sph(V(10., 0., 0.), 0.02),
        sph(V(0., -100., 0.), 99.),
        quad(V(-1., -1., 0.5), V(2., 0.3, 0.), V(0.2, 2., 0.4)),
        quad(V(-3., 0., 2.), V(6., 0., 0.), V(0., 0., -6.)),
        tri_uv(V(-1., -1., 0.), V(1.2, -0.8, 0.3), V(0., 1.5, -0.2), [(0.1, 0.2), (0.9, 0.1), (0.3, 0.8)]),
        tri_uv(V(5., 0., 0.), V(5., 1e-3, 0.), V(5., 0., 1e-3), [(-1., 0.), (2., 0.5), (0., 3.)]),
        tri(V(-10., 0., -10.), V(10., 0., -10.), V(0., 1., 30.)),
    ]
}

fn lights() -> Vec<Vec<Hittables>> {
    vec![
        vec![far_light()],
        vec![quad(V(-50., 60., -50.), V(100., 0., 0.), V(0., 0., 100.)).build(light(WHITE)), sph(V(300., 0., 0.), 2.).build(light_h(V(4., 4., 4.), 1.))],
    ]
}

/// What the shaders should show
fn expected(c: &Cross, is_light: bool, albedo: V, d: V) -> [V; 3] {
    let front = c.n.dot(d) < 0.;
    let n = if front { c.n } else { -c.n };
    let a = if is_light && !front { V::ZERO } else { albedo };
    let f = 0.75 + 0.5 * n.dot(V(1., 1., -1.));
    [a, n, if is_light { a } else { a * f }]
}

fn one(s: &Shape, rays: &[(V, V)]) {
    let texs = textures();
    let shaders: [Shaders; 3] = [AlbedoShader::new(), NormalShader::new(), SimpleShader::new()];
    for t in &texs {
        let mut mats: Vec<(Materials, bool, Option<V>)> = vec![
            (Lambertian::new(t.t.clone(), None), false, None),
            (Metal::new(t.t.clone(), None, 0.), false, None),
            (Metal::new(t.t.clone(), None, 0.9), false, None),
            (Dielectric::new(t.t.clone(), None, 1.5), false, None),
            (Dielectric::new(t.t.clone(), None, 0.6), false, None),
        ];
        if t.pixels.is_none() {
            let c = t.solid;
            mats.push((light(c), true, Some(c)));
            mats.push((light_h(c, 0.1), true, Some(c)));
            mats.push((DiffuseLight::new_from_vec3(v3(c)), true, Some(c)));
        }
        for (mi, (m, is_light, solid)) in mats.iter().enumerate() {
            let object = s.build(m.clone());
            for (li, l) in lights().into_iter().enumerate() {
                let mut objs = l;
                objs.push(object.clone());
                let world = bvh(objs);
                let rs: Vec<Renderer> = shaders.iter().map(|s| renderer(world.clone(), s.clone(), V(0.3, 0.2, 0.1))).collect();
                for (o, d) in rays {
                    let r = ray(*o, *d);
                    let h = object.hit(&r, &all());
                    let Ok(Some(c)) = judge(&s.crossings(*o, *d), *o, *d, 0.001, f64::INFINITY, &h) else { continue };
                    let h = h.unwrap();
                    if c.n.dot(d.unit()).abs() < 1e-4 {
                        continue;
                    }
                    let albedo = match solid {
                        Some(c) => Some(*c),
                        None if !c.u_ok && t.pixels.is_some() => None,
                        None => t.at(c.uv),
                    };
                    let Some(albedo) = albedo else { continue };
                    let want = expected(&c, *is_light, albedo, *d);
                    for (k, sh) in shaders.iter().enumerate() {
                        for (depth, len, key) in [(0, 0., 1), (1, 7.5, 2), (50, 1e9, 3), (100_000, 0.1, 4)] {
                            let g = with_stream(key, || sh.shade(&rs[k], &h, &r, depth, len)).0;
                            for got in [vv(g.color), vv(g.get_attenuated_color())] {
                                must!(
                                    vclose(got, want[k], 1e-5),
                                    "the {} shader shows {:?} instead of {:?} for material {} texture of {:?} on {:?}, ray from {:?} direction {:?}, depth {}, length {}, lights {}",
                                    ["albedo", "normal", "simple"][k], got, want[k], mi, t.pixels.as_ref().map(|p| (p.0, p.1)), s, o, d, depth, len, li
                                );
                            }
                            transitions(1);
                            traces(1);
                        }
                    }
                    states(1);
                }
            }
        }
    }
}

/// Random draws and depths do not matter: all sequences of a bounded alphabet
fn draws(s: &Shape) {
    let shaders: [Shaders; 3] = [AlbedoShader::new(), NormalShader::new(), SimpleShader::new()];
    let c = V(0.6, 0.3, 0.8);
    let fill = fastrand::mc_hook::encode(0.6);
    for m in [matte(c), metal(c, 0.7), glass(c, 1.4), light(c)] {
        let object = s.build(m);
        let world = bvh(vec![object.clone(), far_light(), sph(V(-9., 3., 1.), 1.).build(light(WHITE))]);
        for sh in &shaders {
            let r = renderer(world.clone(), sh.clone(), GRAY);
            let o = s.center() + V(3., 4., 5.) * (s.bounds().1 - s.bounds().0).max_abs();
            let r0 = ray(o, s.center() + V(0.001, 0.002, -0.001) - o);
            let Some(h) = object.hit(&r0, &all()) else { continue };
            let mut first: Option<V> = None;
            let n = tree(&|_| extremes(), tier(6, 8), fill, || vv(sh.shade(&r, &h, &r0, 0, 0.).color), |g, l| {
                let f = *first.get_or_insert(g);
                must!(f == g, "a preview shader shows {:?} or {:?} depending on random numbers {:?}, on {:?}", f, g, l.choice, s);
            });
            states(n);
            traces(n);
            transitions(n);
        }
    }
}

fn level(x: f64) -> i32 {
    (x.max(0.).sqrt().min(0.999999) * 256.) as i32
}

/// One pixel renders of shapes in front of the camera, and of nothing
fn renders() {
    let shaders: [Shaders; 3] = [AlbedoShader::new(), NormalShader::new(), SimpleShader::new()];
    let bg = V(0.1, 0.5, 0.9);
    let mut cases = vec![];
    for s in shapes().iter().take(5) {
        for from in sphere_points(tier(400, 2000)) {
            for m in 0..4 {
                cases.push((s.clone(), from, m));
            }
        }
    }
    par(&cases, |_, (s, from, m)| {
        let size = (s.bounds().1 - s.bounds().0).max_abs();
        let o = s.center() + *from * (1.5 * size);
        let target = s.center() + V(0.11, 0.07, -0.05) * size;
        let d = target - o;
        let c = V(0.6, 0.3, 0.8);
        let mat = [matte(c), metal(c, 0.), glass(c, 1.5), light(c)][*m].clone();
        let cs = s.crossings(o, d);
        if cs.iter().any(|x| !x.sure || x.n.dot(d.unit()).abs() < 1e-3) {
            return;
        }
        let first = cs.iter().filter(|x| x.t > 0.).min_by(|a, b| a.t.total_cmp(&b.t));
        for (k, sh) in shaders.iter().enumerate() {
            let want = match first {
                None => bg,
                Some(x) => expected(x, *m == 3, c, d)[k],
            };
            let mut sc = scene(bvh(vec![s.build(mat.clone()), far_light()]), sh.clone(), bg);
            sc.camera.look_from = v3(o);
            sc.camera.look_at = v3(target);
            sc.camera.vertical_fov_degrees = 1e-4;
            if d.unit().1.abs() > 0.9 {
                sc.camera.up = v3(V(1., 0., 0.));
            }
            let got = with_stream(9, || pixel(sc)).0;
            let w = [level(want.0), level(want.1), level(want.2)];
            must!((0..3).all(|i| (got[i] - w[i]).abs() <= 1), "{} of {:?} seen from {:?}: pixel {:?} instead of {:?}", ["albedo", "normal", "simple shading"][k], s, o, got, w);
            traces(1);
            transitions(1);
        }
        states(1);
    });
}

fn fog() {
    let c = V(0.3, 0.6, 0.9);
    let world = bvh(vec![ConstantMedium::new(sph(V::ZERO, 1.).build(matte(GRAY)), 1e6, v3(c)), far_light()]);
    let sh = AlbedoShader::new();
    let r = renderer(world.clone(), sh.clone(), GRAY);
    for (i, o) in sphere_points(50).iter().enumerate() {
        let r0 = ray(*o * 3., -*o);
        let got = with_stream(i as u64, || world.hit(&r0, &all()).map(|h| vv(sh.shade(&r, &h, &r0, 0, 0.).color))).0;
        must!(got == Some(c), "the albedo of fog is {:?} instead of {:?}", got, c);
        traces(1);
    }
}

pub fn run() {
    let ss = shapes();
    par(&ss, |_, s| {
        let (lo, hi) = s.bounds();
        let size = (hi - lo).max_abs();
        let mut rays = vec![];
        for p in sphere_points(tier(600, 3000)) {
            for t in [V(0., 0., 0.), V(0.2, 0.1, -0.15), V(-0.05, 0.3, 0.1)] {
                let o = s.center() + p * (2. * size);
                rays.push((o, s.center() + t * size - o));
            }
            // from inside
            rays.push((s.center() + p * (0.1 * size), p * 3.));
        }
        one(s, &rays);
        draws(s);
    });
    renders();
    fog();
    sample(|| "unit sphere with a 4x3 texture, fuzzy metal, 180 rays from outside and 60 from inside, depths 0, 1, 50 and 100000".into());
}
