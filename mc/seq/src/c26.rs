//! Normals by normal maps on every shape, against frames from the own geometry.
use crate::c12::Tex;
use crate::c19::T;
use crate::kit::*;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::material::texture::Textures;
use solstrale::material::{Blend, Dielectric, Lambertian, Materials, Metal};
use solstrale::renderer::shader::{NormalShader, Shader};

fn solid(c: V) -> Tex {
    Tex { t: tex(c), pixels: None, solid: c }
}
fn pixels(w: u32, h: u32, f: impl Fn(u32, u32) -> [u8; 3]) -> Tex {
    let mut p = vec![];
    for y in 0..h {
        for x in 0..w {
            p.push(f(x, y));
        }
    }
    Tex { t: image_tex(w, h, f), pixels: Some((w, h, p)), solid: V::ZERO }
}

fn maps() -> Vec<Tex> {
    let mut v = vec![solid(V(0.5, 0.5, 1.))];
    let l = tier(vec![0., 0.5, 0.9], vec![0., 0.25, 0.5, 0.75, 1.]);
    for p in grid(&l, &l, &l) {
        v.push(solid(p));
    }
    for p in [V(0.5, 0.5, 0.500001), V(700., -300., 100.), V(0.5 + 1e-7, 0.5, 0.5), V(0.5, 0.5, 0.6), V(1., 0.5, 0.5), V(0.5, 0., 0.5)] {
        v.push(solid(p));
    }
    v.push(pixels(1, 1, |_, _| [128, 128, 255]));
    v.push(pixels(4, 3, |x, y| [(60 * x) as u8, (255 - 100 * y) as u8, (130 + 10 * x + 20 * y) as u8]));
    v.push(pixels(1, 5, |_, y| [200, (50 * y) as u8, 180]));
    v.push(pixels(8, 1, |x, _| [(30 * x) as u8, 100, 255]));
    v
}

/// A shape, and how it lies in the world
struct Placed {
    what: String,
    object: Box<dyn Fn(Materials) -> Hittables + Sync + Send>,
    /// in the world
    shape: Shape,
}

fn uv_sets() -> Vec<[(f64, f64); 3]> {
    vec![
        [(0., 0.), (1., 0.), (0., 1.)],
        [(0.1, 0.2), (0.9, 0.1), (0.3, 0.8)],
        // mirrored, turned, tiny, large, negative
        [(0., 0.), (0., 1.), (1., 0.)],
        [(1., 1.), (0., 0.5), (0.25, 0.)],
        [(0.5, 0.5), (0.5001, 0.5), (0.5, 0.5002)],
        [(0.5, 0.5), (0.5, 0.5002), (0.5001, 0.5)],
        [(0.5, 0.5), (0.502, 0.501), (0.501, 0.503)],
        [(0.5, 0.5), (0.501, 0.503), (0.502, 0.501)],
        [(-7., 3.), (20., -5.), (4., 9.)],
        [(0.3, 0.3), (1e-3, 0.4), (0.5, 0.1)],
        // without texture directions
        [(0., 0.), (0., 0.), (0., 0.)],
        [(0.2, 0.2), (0.2, 0.2), (0.7, 0.9)],
        [(0., 0.), (0.5, 0.5), (1., 1.)],
    ]
}

fn placed() -> Vec<Placed> {
    let mut v: Vec<Placed> = vec![];
    for (c, r) in [(V(0., 0., 0.), 1.), (V(10., -3., 2.), 0.02), (V(0., -500., 0.), 480.), (V(0.3, 0.1, -0.2), 2.5)] {
        let s = sph(c, r);
        let t = s.clone();
        v.push(Placed { what: format!("{:?}", s), object: Box::new(move |m| t.build(m)), shape: s });
    }
    let ts = vec![
        T::Nop,
        T::X(90.),
        T::Y(-130.),
        T::Z(45.),
        T::Move(V(3., -7., 0.5)),
        T::Size(25.),
        T::Size(0.01),
        T::List(vec![T::X(33.), T::Size(3.), T::Y(200.), T::Move(V(0., 5., -2.)), T::Z(-75.)]),
    ];
    let quads = [
        (V(-1., -1., 0.5), V(2., 0., 0.), V(0., 2., 0.)),
        (V(1., 2., 3.), V(0., 0., -4.), V(0.5, 0., 0.)),
        (V(0., 0., 0.), V(2., 1., 0.), V(-0.5, 1., 2.)),
        // skewed
        (V(-1., -1., 0.5), V(2., 0.3, 0.), V(1.2, 2., 0.4)),
    ];
    let tris = [
        [V(-1., -1., 0.), V(1.2, -0.8, 0.3), V(0., 1.5, -0.2)],
        [V(0., 0., 0.), V(0., 0., 5.), V(0., 5., 0.)],
        [V(0., 0., 0.), V(1e-3, 0., 0.), V(0., 1e-3, 1e-3)],
    ];
    for t in &ts {
        for (q, a, b) in quads {
            let t2 = t.clone();
            v.push(Placed {
                what: format!("quad {:?} {:?} {:?} with {:?}", q, a, b, t),
                object: Box::new(move |m| quad(q, a, b).build_t(m, &*t2.build())),
                shape: quad(t.apply(q, false), t.apply(a, true), t.apply(b, true)),
            });
        }
        for p in tris {
            for (i, uv) in uv_sets().into_iter().enumerate() {
                if quick() && i % 3 != 0 && !matches!(t, T::Nop) && !matches!(t, T::List(_)) {
                    continue;
                }
                let t2 = t.clone();
                v.push(Placed {
                    what: format!("triangle {:?} {:?} with {:?}", p, uv, t),
                    object: Box::new(move |m| tri_uv(p[0], p[1], p[2], uv).build_t(m, &*t2.build())),
                    shape: tri_uv(t.apply(p[0], false), t.apply(p[1], false), t.apply(p[2], false), uv),
                });
            }
        }
    }
    v
}

/// Directions on the surface in which the texture coordinates increase, if there are any
fn directions(s: &Shape, c: &Cross) -> Option<(V, V)> {
    match s {
        Shape::Sphere { .. } => {
            // u goes around, v up
            if !c.u_ok || c.n.0.hypot(c.n.2) < 1e-4 {
                return None;
            }
            let e = 1e-4;
            let at = |u: f64, v: f64| {
                // inverse of the texture coordinates
                let (phi, theta) = ((u - 0.5) * 2. * std::f64::consts::PI, v * std::f64::consts::PI);
                V(theta.sin() * phi.cos(), -theta.cos(), -theta.sin() * phi.sin())
            };
            let (u, v) = sphere_uv(c.n);
            must_self((at(u, v) - c.n).len() < 1e-9);
            Some(((at(u + e, v) - at(u - e, v)).unit(), (at(u, v + e) - at(u, v - e)).unit()))
        }
        Shape::Quad { u, v, .. } => Some((u.unit(), v.unit())),
        Shape::Tri { p, uv } => {
            // as given to the code
            let f = |x: (f64, f64)| (x.0 as f32 as f64, x.1 as f32 as f64);
            let (a, b, c) = (f(uv[0]), f(uv[1]), f(uv[2]));
            let (du1, dv1, du2, dv2) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
            let det = du1 * dv2 - dv1 * du2;
            if det.abs() < 1e-3 * du1.hypot(dv1) * du2.hypot(dv2) || det == 0. {
                return None;
            }
            let (e1, e2) = (p[1] - p[0], p[2] - p[0]);
            // the point as a function of the texture coordinates is linear
            Some((((e1 * dv2 - e2 * dv1) * (1. / det)).unit(), ((e2 * du1 - e1 * du2) * (1. / det)).unit()))
        }
    }
}
fn must_self(b: bool) {
    if !b {
        vlib::broken("own texture coordinates of spheres disagree");
    }
}

fn rays(s: &Shape) -> Vec<(V, V)> {
    let c = s.center();
    let size = (s.bounds().1 - s.bounds().0).max_abs();
    let mut v = vec![];
    let mut at = vec![c];
    match s {
        Shape::Sphere { r, .. } => {
            for p in sphere_points(tier(10, 24)) {
                at.push(c + p * (0.8 * r));
            }
            // around the poles
            for h in [0.1, 0.03, 1e-2, 1e-3] {
                for (x, z) in [(0.8, 0.6), (-0.28, 0.96), (-0.6, -0.8)] {
                    let h: f64 = h;
                    for y in [-1., 1.] {
                        at.push(c + V(h * x, y * (1. - h * h).sqrt(), h * z) * *r);
                    }
                }
            }
        }
        Shape::Quad { q, u, v } => {
            for (a, b) in [(0.1, 0.2), (0.9, 0.3), (0.4, 0.95), (0.05, 0.9)] {
                at.push(*q + *u * a + *v * b);
            }
        }
        Shape::Tri { p, .. } => {
            for (a, b) in [(0.1, 0.2), (0.8, 0.1), (0.05, 0.9)] {
                at.push(p[0] + (p[1] - p[0]) * a + (p[2] - p[0]) * b);
            }
        }
    }
    for p in sphere_points(tier(8, 20)) {
        for a in &at {
            let o = c + p * (3. * size);
            v.push((o, *a - o));
        }
    }
    if let Shape::Sphere { .. } = s {
        // poles, axes, from within
        for a in neighbours() {
            v.push((c + a * size, -a));
            v.push((c + a * (0.01 * size), a));
        }
    }
    v
}

pub fn run() {
    let maps = maps();
    let shapes = placed();
    par(&shapes, |_, p| {
        let rays = rays(&p.shape);
        for (mi, m) in maps.iter().enumerate() {
            let what = || format!("{} with the normal map {}", p.what, if m.pixels.is_some() { format!("{:?}", m.pixels) } else { format!("{:?}", m.solid) });
            let n = |t: &Textures| Some(t.clone());
            let mats: Vec<Materials> = vec![
                Lambertian::new(tex(GRAY), n(&m.t)),
                Metal::new(tex(GRAY), n(&m.t), 0.2),
                Dielectric::new(tex(GRAY), n(&m.t), 1.5),
                Blend::new(Lambertian::new(tex(GRAY), n(&m.t)), Metal::new(tex(WHITE), n(&m.t), 0.), 0.4),
            ];
            for (k, mat) in mats.into_iter().enumerate() {
                // all materials on some maps, in turn on the others
                if k != mi % 4 && mi > 3 && quick() && m.pixels.is_none() {
                    continue;
                }
                let h = (p.object)(mat);
                let r = if k == 0 && mi % 5 == 0 { Some(renderer(bvh(vec![(p.object)(matte(GRAY)), far_light()]), NormalShader::new(), V::ZERO)) } else { None };
                for (o, d) in &rays {
                    let ry = ray(*o, *d);
                    let hit = match with_stream(1, || guarded(|| h.hit(&ry, &all()))).0 {
                        Ok(Some(h)) => h,
                        Ok(None) => continue,
                        Err(e) => violation(&format!("{}: panic {} for the ray from {:?} to {:?}", what(), e, o, d)),
                    };
                    traces(1);
                    let got = vv(hit.normal);
                    must!(got.finite() && (got.len() - 1.).abs() < 1e-6, "{}: normal {:?} for the ray from {:?} to {:?}", what(), got, o, d);
                    let cs = p.shape.crossings(*o, *d);
                    let Some(c) = cs.iter().find(|c| c.sure && close(c.t, hit.ray_length, 1e-6 * (1. + c.t.abs()))) else { continue };
                    let facing = c.facing();
                    if let Some(r) = &r {
                        // the normal is what the preview shows
                        let shown = vv(NormalShader::new().shade(r, &hit, &ry, 0, 0.).color);
                        must!(shown == got, "{}: the normal preview shows {:?} for the normal {:?}", what(), shown, got);
                    }
                    let Some(color) = m.at(c.uv) else { continue };
                    let map = color * 2. - WHITE;
                    if map == V(0., 0., 1.) {
                        must!(vclose(got, facing, 1e-6), "{}: the flat map changes the normal {:?} to {:?} for the ray from {:?} to {:?}", what(), facing, got, o, d);
                        continue;
                    }
                    let Some((t, b)) = directions(&p.shape, c) else { continue };
                    let want = t * map.0 + b * map.1 + facing * map.2;
                    if want.len() < 1e-3 * map.len().max(0.01) {
                        continue;
                    }
                    let want = want.unit();
                    must!((got - want).max_abs() < 1e-4, "{}: normal {:?} instead of {:?} for the ray from {:?} to {:?}", what(), got, want, o, d);
                    transitions(1);
                }
                states(1);
            }
        }
    });
    note("shapes", shapes.len());
    note("normal maps", maps.len());
    sample(|| "triangle with turned texture coordinates, transformed, normal map (0.9,0,0.5), seen from front and back".into());
    assume("points within 0.002 texels of the border of a texel are only required to have a valid normal");
}
