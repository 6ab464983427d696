//! Path tracing against a loop over the surfaces of the path, for every choice of random numbers of a bounded alphabet.
use crate::kit::*;
use solstrale::geo::Ray;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::{Blend, Material, RayScatter};
use solstrale::ray_trace;
use solstrale::renderer::shader::{PathTracingShader, Shader};
use solstrale::renderer::Scene;
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::mpsc::channel;

fn limit(v: f64) -> f64 {
    if v.is_nan() {
        0.
    } else if v > 3. {
        3.
    } else {
        v
    }
}

/// Color of the path that starts with the ray, and the number of surfaces on it
pub fn path(world: &Hittables, lights: &[Hittables], bg: V, r: &Ray, depth: u32, max: u32) -> (V, usize) {
    let Some(rec) = world.hit(r, &RAY_INTERVAL) else {
        return (bg, 0);
    };
    if depth >= max {
        return (V::ZERO, 0);
    }
    match rec.material.scatter(r, &rec, lights) {
        RayScatter::ScatterEmission(s) => (vv(s.color), 1),
        RayScatter::ScatterBasic(s) => {
            let (c, n) = path(world, lights, bg, &s.ray, depth + 1, max);
            (vv(s.color).mulv(c), n + 1)
        }
        RayScatter::ScatterPdf(s) => {
            let (c, n) = path(world, lights, bg, &s.ray, depth + 1, max);
            let x = (vv(s.color) * s.probability).mulv(c);
            (V(limit(x.0), limit(x.1), limit(x.2)), n + 1)
        }
    }
}

fn worlds() -> Vec<(&'static str, Vec<Hittables>, V)> {
    let floor = |m| quad(V(-5., -1., 5.), V(10., 0., 0.), V(0., 0., -10.)).build(m);
    let lamp = |c| quad(V(-1., 3., -1.), V(2., 0., 0.), V(0., 0., 2.)).build(light(c));
    let red = V(0.9, 0.2, 0.1);
    let bg = V(0.2, 0.3, 0.5);
    let room = |m: &dyn Fn(V) -> solstrale::material::Materials| -> Vec<Hittables> {
        box_shapes(V(-3., -2., -3.), V(3., 3., 3.)).iter().enumerate().map(|(i, s)| s.build(m(V(0.3 + 0.1 * i as f64, 0.8, 0.5)))).collect()
    };
    let mut closed = room(&|c| matte(c));
    closed.push(sph(V(0.5, 1.8, 0.3), 0.6).build(light(V(4., 5., 6.))));
    closed.push(sph(V(-1., -1., 0.), 0.8).build(glass(V(0.9, 1., 0.8), 1.5)));
    let mut mirrors = room(&|c| metal(c, 0.));
    mirrors.push(sph(V(0.5, 0.5, 0.3), 0.4).build(light(V(4., 5., 6.))));
    let mut mixed = vec![floor(Blend::new(matte(red), metal(WHITE, 0.1), 0.5)), lamp(V(6., 5., 4.))];
    mixed.push(sph(V(0., 0., 0.), 0.9).build(Blend::new(glass(WHITE, 1.4), matte(V(0.1, 0.9, 0.3)), 0.3)));
    let fog = vec![
        floor(matte(red)),
        lamp(V(2., 2., 2.)),
        ConstantMedium::new(sph(V(0., 0.2, 0.), 1.5).build(matte(GRAY)), 0.8, v3(V(0.7, 0.8, 0.9))),
    ];
    vec![
        ("floor and lamp", vec![floor(matte(red)), lamp(V(10., 8., 6.))], bg),
        ("closed room", closed, bg),
        ("room of mirrors", mirrors, bg),
        ("blends", mixed, V(1., 0.5, 2.)),
        ("fog", fog, bg),
        (
            "textures and triangle light",
            vec![
                tri_uv(V(-4., -1., 4.), V(4., -1., 4.), V(0., -1., -6.), [(0., 0.), (1., 0.), (0.5, 2.)])
                    .build(solstrale::material::Lambertian::new(image_tex(3, 2, |x, y| [80 * x as u8 + 20, 100 * y as u8 + 30, 200]), None)),
                tri(V(-1., 2., -1.), V(1., 2., -1.), V(0., 2.5, 1.)).build(light(V(9., 9., 20.))),
                sph(V(0., 0., 0.), 0.8).build(metal(V(0.9, 0.8, 0.7), 0.3)),
                sph(V(1.5, -0.5, 0.), 0.4).build(light_h(V(2., 2., 2.), 3.)),
            ],
            V(0., 0., 0.),
        ),
        (
            "dim",
            vec![
                floor(matte(V(1e-3, 0.5, 1e-7))),
                lamp(V(1e-7, 3e-5, 1e-12)),
                sph(V(0., 0., 0.), 0.9).build(metal(V(0.5, 1e-6, 1.), 0.)),
                sph(V(2., -0.5, 0.), 0.4).build(matte(V(1., 1e-8, 0.01))),

            ],
            V(1e-6, 0., 1e-9),
        ),
        (
            "dark",
            vec![
                floor(matte(V(3e-9, 1e-10, 1e-14))),
                lamp(V(1., 2., 0.5)),
                sph(V(0., 0., 0.), 0.9).build(metal(V(4e-9, 1e-6, 1e-11), 0.)),
                sph(V(2., -0.5, 0.), 0.4).build(matte(V(1e-9, 1e-10, 1e-200))),
            ],
            V(0.3, 0., 2.),
        ),
        (
            "bright and invalid",
            vec![
                floor(matte(V(1e6, 0.5, 0.))),
                lamp(V(1e300, 0., f64::INFINITY)),
                sph(V(0., 0., 0.), 0.9).build(metal(V(5., 0., 1.), 0.)),
            ],
            V(7., 8., 9.),
        ),
    ]
}

fn same(a: V, b: V) -> bool {
    (0..3).all(|i| {
        let (x, y) = (a.get(i), b.get(i));
        x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-9 * x.abs().max(y.abs())
    })
}

fn trees() {
    let mut cases = vec![];
    for w in 0..worlds().len() {
        for max in 0..tier(8, 10) {
            for start in [0u32, 1, 3] {
                if start > max {
                    continue;
                }
                cases.push((w, max, start));
            }
        }
    }
    par(&cases, |_, (w, max, start)| {
        let (name, objs, bg) = worlds().swap_remove(*w);
        let world = bvh(objs);
        let shader = PathTracingShader::new(*max);
        let r = renderer(world.clone(), shader.clone(), bg);
        let alph2 = |_: usize| cells(2);
        let alph3 = |_: usize| vec![fastrand::mc_hook::encode(0.03), fastrand::mc_hook::encode(0.4), fastrand::mc_hook::encode(0.93)];
        let mut longest = 0;
        for (o, d) in [
            (V(0., 1., 4.), V(0., -0.25, -1.)),
            (V(0.3, 0.5, 2.8), V(-0.1, -0.6, -2.)),
            (V(-2., 2., 1.), V(1., -1.2, -0.1)),
            (V(1., 2.5, 2.), V(-0.3, 0.4, -1.)),
            (V(0., 0.1, 0.), V(0.2, -1., 0.1)),
        ] {
            for k in 0..2 {
                let r0 = ray(o, d * [1., 0.2][k]);
                let deep = tier([14, 9], [17, 11])[k];
                let f = |draws: &[u64], fill: u64| {
                    let got = with_bits(draws, fill, || world.hit(&r0, &RAY_INTERVAL).map(|h| vv(shader.shade(&r, &h, &r0, *start, 0.).color))).0;
                    let want = with_bits(draws, fill, || path(&world, &r.lights, bg, &r0, *start, *max)).0;
                    (got, want)
                };
                let fill = fastrand::mc_hook::encode(0.37);
                let alph: &dyn Fn(usize) -> Vec<u64> = if k == 0 { &alph2 } else { &alph3 };
                let table = alph(0);
                let mut m = 0;
                // the tree of draws the real code makes
                let n = tree(alph, deep, fill, || world.hit(&r0, &RAY_INTERVAL).map(|h| vv(shader.shade(&r, &h, &r0, *start, 0.).color)), |_, l| {
                    let bits: Vec<u64> = l.choice.iter().map(|c| table[*c]).collect();
                    let (got, (want, len)) = f(&bits, fill);
                    if let Some(g) = got {
                        must!(same(g, want), "{}: shading the ray from {:?} direction {:?} at depth {} of {} gives {:?} instead of {:?} for the draws {:?}", name, o, d, start, max, g, want, l.choice);
                        m = m.max(len);
                    }
                    transitions(l.draws as u64);
                });
                longest = longest.max(m);
                traces(n);
                states(n);
            }
        }
        // all depths are really reached
        must!(longest <= (*max - *start) as usize, "{}: a path has {} surfaces with a depth of {}", name, longest, max - start);
        if *w == 1 || *w == 2 {
            note(&format!("longest path with depth {} in {}", max - start, name), longest);
        }
    });
}

/// Lights emit from their front only, whatever the shape
fn fronts() {
    let c = V(4., 0.5, 2.);
    let shapes = [
        sph(V(0.2, 0.1, -0.3), 1.2),
        sph(V(0., 0., 0.), 1e-2),
        quad(V(-1., -1., 0.3), V(2., 0.3, 0.), V(0., 2., 0.4)),
        tri(V(-1., -1., 0.), V(1.2, -0.8, 0.3), V(0., 1.5, -0.2)),
        quad(V(-0.5, -1., 0.), V(0., 2., 0.), V(1., 0., 0.)),
    ];
    for s in &shapes {
        for m in [light(c), light_h(c, 2.), solstrale::material::DiffuseLight::new_from_vec3(v3(c))] {
            let w = s.build(m);
            let shader = PathTracingShader::new(1);
            let r = renderer(w.clone(), shader.clone(), GRAY);
            let mut from = vec![V(0.2, 0.1, -0.3), V(0., 0.001, 0.)];
            from.extend(sphere_points(tier(60, 2000)).iter().map(|p| *p * 3.));
            // close to it and far away
            for (i, p) in sphere_points(tier(24, 200)).iter().enumerate() {
                from.push(s.center() + *p * [2e-3, 0.012, 0.04, 0.3, 10., 1e4][i % 6]);
                from.push(*p * [2e-3, 0.012, 0.04, 0.3, 10., 1e4][(i + i / 6) % 6]);
            }
            for o in from {
                for t in [s.center(), s.center() + V(0.1, -0.2, 0.05) * 0.01] {
                    let d = t - o;
                    let d = if d.len() < 1e-6 { V(0., 0., 1.) } else { d };
                    for d in [d, d * 1e-3, d * 100.] {
                        let r0 = ray(o, d);
                        let Some(h) = w.hit(&r0, &RAY_INTERVAL) else { continue };
                        let cs = s.crossings(o, d);
                        let Ok(Some(x)) = judge(&cs, o, d, 0.001, f64::INFINITY, &Some(h.clone())) else { continue };
                        if x.n.dot(d.unit()).abs() < 1e-4 {
                            continue;
                        }
                        let got = vv(shader.shade(&r, &h, &r0, 0, 0.).color);
                        let want = if x.front { c } else { V::ZERO };
                        must!(got == want, "light {:?} seen from {:?} in direction {:?} shows {:?} instead of {:?}", s, o, d, got, want);
                        states(1);
                        transitions(1);
                        traces(1);
                    }
                }
            }
        }
    }
}

fn level(c: V) -> [i32; 3] {
    let f = |x: f64| (x.max(0.).sqrt().min(0.999999) * 256.) as i32;
    [f(c.0), f(c.1), f(c.2)]
}

pub fn pixel(s: Scene) -> [i32; 3] {
    let (tx, rx) = channel();
    let (_atx, arx) = channel();
    match guarded(|| ray_trace(s, &tx, &arx).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => violation(&format!("rendering fails: {}", e)),
        Err(e) => violation(&format!("rendering panics: {}", e)),
    }
    let img = rx.try_iter().filter_map(|p| p.render_image).last();
    let Some(img) = img else { violation("no image is reported") };
    let p = img.get_pixel(0, 0).0;
    [p[0] as i32, p[1] as i32, p[2] as i32]
}

/// Whole renders through chains of mirrors and panes that end at a light or in the background
fn renders() {
    let lc = V(0.9, 0.5, 0.1);
    let bg = V(0.25, 0.6, 0.05);
    let mut cases = vec![];
    for mirrors in 0..tier(5usize, 9) {
        for max in 0..tier(7u32, 11) {
            for end in 0..3 {
                cases.push((mirrors, max, end));
            }
        }
    }
    // long paths
    for mirrors in tier(vec![31, 49, 50, 51, 64, 100], vec![20, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 128, 150, 255, 256, 300]) {
        for max in [mirrors as u32 - 1, mirrors as u32, mirrors as u32 + 1, mirrors as u32 + 2, 100_000] {
            for end in 0..3 {
                cases.push((mirrors, max, end));
            }
        }
    }
    par(&cases, |_, (n, max, end)| {
        // a zigzag between x = 0 and x = 1, starting at the camera in (0, 0, 0) towards (1, 0, -1)
        let mut objs = vec![sph(V(0., 500., 0.), 1.).build(light(WHITE))];
        let mut want = V(1., 1., 1.);
        for i in 0..*n {
            let x = if i % 2 == 0 { 1. } else { 0. };
            let z = -(i as f64 + 1.);
            let c = if *n > 9 { V(0.99, 1., 0.995 + 0.005 * (i % 2) as f64) } else { V(0.95 - 0.05 * i as f64, 0.9, 0.8 + 0.02 * i as f64) };
            objs.push(quad(V(x, -0.4, z - 0.4), V(0., 0.8, 0.), V(0., 0., 0.8)).build(metal(c, 0.)));
            want = want.mulv(c);
        }
        let x = if n % 2 == 0 { 1. } else { 0. };
        let z = -(*n as f64 + 1.);
        // facing the middle or facing away from it
        let (u, v) = (V(0., 0.8, 0.), V(0., 0., 0.8));
        let toward = if n % 2 == 0 { (v, u) } else { (u, v) };
        let q = |p: (V, V)| quad(V(x, -0.4, z - 0.4), p.0, p.1);
        let mut surfaces = *n as u32;
        match end {
            0 => {
                objs.push(q(toward).build(light(lc)));
                want = want.mulv(lc);
                surfaces += 1;
            }
            1 => {
                objs.push(q((toward.1, toward.0)).build(light(lc)));
                want = V::ZERO;
                surfaces += 1;
            }
            _ => want = want.mulv(bg),
        }
        // the front of the last quad
        if *end < 2 {
            let nn = if *end == 0 { toward.0.cross(toward.1) } else { toward.1.cross(toward.0) };
            let inward = if n % 2 == 0 { -1. } else { 1. };
            assert!((nn.0 * inward > 0.) == (*end == 0));
        }
        if surfaces > *max {
            want = V::ZERO;
        }
        let world = bvh(objs);
        for key in 0..3 {
            let mut s2 = scene(world.clone(), PathTracingShader::new(*max), bg);
            s2.camera.look_from = v3(V::ZERO);
            s2.camera.look_at = v3(V(1., 0., -1.));
            s2.camera.vertical_fov_degrees = 1e-4;
            let got = with_stream(key, || pixel(s2)).0;
            let w = level(want);
            must!((0..3).all(|i| (got[i] - w[i]).abs() <= 1), "{} mirrors, depth {}, ending at {}: pixel {:?} instead of {:?} (color {:?})", n, max, ["a light", "the back of a light", "the background"][*end], got, w, want);
            traces(1);
            transitions(*n as u64 + 1);
        }
        states(1);
    });
}

pub fn run() {
    fronts();
    renders();
    trees();
    sample(|| "closed room with matte walls, glass and light spheres: all sequences of 11 binary draws".into());
    assume("the scattered ray, color and weight of a single surface are those the material reports (properties C22, C24, C25 check these)");
}
