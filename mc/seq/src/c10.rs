//! Colors of every combination of shapes, materials, lights, shaders, rays and extreme random numbers are valid.
use crate::kit::*;
use fastrand::mc_hook::encode;
use solstrale::geo::transformation::{RotationX, RotationY, RotationZ, Scale, Transformations, Transformer, Translation};
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::texture::Textures;
use solstrale::geo::Ray;
use solstrale::material::{Blend, Dielectric, Lambertian, Materials, Metal, RayHit};
use solstrale::renderer::Renderer;
use solstrale::ray_trace;
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, Shader, Shaders, SimpleShader};
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::mpsc::channel;

fn shapes() -> Vec<Shape> {
    let x = V(1., 0., 0.);
    let y = V(0., 1., 0.);
    let z = V(0., 0., 1.);
    let o = V::ZERO;
    vec![
        sph(o, 1.),
        sph(V(0.3, 0.2, 0.1), 1e-9),
        sph(o, 0.),
        sph(V(0., -1e6, 0.), 1e6),
        sph(V(0.1, 0.1, 0.1), 300.),
        quad(V(-1., -1., 0.), x * 2., y * 2.),
        quad(V(-1., 0., -1.), z * 2., x * 2.),
        quad(V(-0.7, -0.2, 0.3), V(1.2, 0.3, -0.4), V(0.2, 1., 0.6)),
        quad(o, o, o),
        quad(o, x, o),
        quad(o, x, x * 2.),
        quad(o, x * 1e-7, y * 1e5),
        quad(V(-1e6, -0.5, -1e6), x * 2e6, z * 2e6),
        tri(V(-1., -1., 0.), V(1., -1., 0.), V(0., 1., 0.)),
        tri_uv(V(-1., -1., 0.2), V(1., -0.8, 0.), V(0., 1., 0.), [(0., 0.), (1., 0.), (0., 1.)]),
        tri_uv(V(-1., -1., 0.2), V(1., -0.8, 0.), V(0., 1., 0.), [(0.5, 0.5), (0.5, 0.5), (0.5, 1.)]),
        tri_uv(V(-1., 0., -1.), V(0., 0., 1.), V(1., 0., -1.), [(-1e30, 1e30), (3e38, 0.), (0., -3e38)]),
        tri(o, o, o),
        tri(o, x, o),
        tri(V(-1., -1., -1.), o, V(1., 1., 1.)),
        tri(o, x * 1e-9, y * 1e-9),
        tri(V(-1e7, -1., -1e7), V(1e7, -1., -1e7), V(0., -1., 2e7)),
    ]
}

fn maps() -> Vec<Option<Textures>> {
    vec![
        None,
        Some(tex(V(0.5, 0.5, 1.))),
        Some(tex(V(0.5, 0.5, 0.5))),
        Some(tex(V(1., 0.5, 0.5))),
        Some(tex(V(0., 0., 0.))),
        Some(image_tex(2, 2, |x, y| [(x * 255) as u8, (y * 255) as u8, 128])),
    ]
}

fn materials() -> Vec<Materials> {
    let c = V(0.9, 0., 1.);
    let img = || image_tex(3, 2, |x, y| [(x * 100) as u8, (y * 255) as u8, 7]);
    let mut m = vec![
        matte(c),
        matte(V(0., 0., 0.)),
        matte(V(1e6, 1., 1e-300)),
        Lambertian::new(img(), None),
        metal(c, 0.),
        metal(V(5., 1., 0.), 1.),
        Metal::new(img(), None, 0.3),
        glass(WHITE, 1.5),
        glass(c, 0.4),
        glass(WHITE, 1.),
        glass(c, 1e-3),
        glass(c, 1e3),
        light(V(10., 0., 1.)),
        light_h(V(10., 0., 1.), 1e-6),
        light_h(V(10., 0., 1.), 1e9),
        light(V(1e6, 1e6, 1e6)),
        Blend::new(matte(c), metal(c, 1.), 0.5),
        Blend::new(Blend::new(glass(c, 1.5), matte(c), 0.), Blend::new(metal(WHITE, 0.), light(WHITE), 0.5), 1.),
    ];
    for n in maps().into_iter().skip(1) {
        m.push(Lambertian::new(tex(c), n.clone()));
        m.push(Metal::new(tex(c), n.clone(), 0.5));
        m.push(Dielectric::new(tex(c), n.clone(), 1.3));
    }
    m
}

/// Lights close to, touching, around or within the shape
fn lamps() -> Vec<(&'static str, Vec<Hittables>)> {
    let l = || light(V(10., 5., 0.));
    vec![
        ("far", vec![far_light()]),
        ("sphere around", vec![sph(V(0., 0.1, 0.), 5.).build(l())]),
        ("small sphere and quad touching", vec![
            sph(V(0., 0., 1.5), 0.5).build(l()),
            quad(V(-1., -1., -1.), V(2., 0., 0.), V(0., 0., 2.)).build(l()),
        ]),
        ("quad and triangle crossing", vec![
            quad(V(-2., 0., 0.), V(4., 0., 0.), V(0., 0., 1.)).build(light_h(WHITE, 1.)),
            tri(V(-1., -1., 0.), V(1., -1., 0.), V(0., 1., 0.)).build(l()),
        ]),
        ("degenerate", vec![
            sph(V(0., 3., 0.), 0.).build(l()),
            quad(V(0., 2., 0.), V(1., 0., 0.), V(1., 0., 0.)).build(l()),
            tri(V(0., 2., 0.), V(1., 2., 0.), V(1., 2., 0.)).build(l()),
            sph(V(0., -2., 0.), 1e-8).build(l()),
        ]),
        ("fogs", vec![
            ConstantMedium::new(sph(V(0., 0., 0.), 2.).build(glass(WHITE, 1.5)), 0.7, v3(V(1., 0.5, 0.))),
            ConstantMedium::new(bvh(box_shapes(V(-1., -1., -1.), V(1., 1., 1.)).iter().map(|s| s.build(matte(GRAY))).collect()), 1e9, v3(V(1., 0.5, 0.))),
            ConstantMedium::new(sph(V(0., 0., 0.), 50.).build(matte(WHITE)), 1e-9, v3(V(1., 0.5, 0.))),
            sph(V(0., 1.2, 0.), 1.).build(l()),
        ]),
    ]
}

fn rays() -> Vec<(V, V)> {
    let mut v = vec![];
    let z = -V(0., 0., 1.);
    for o in [V(0., 0., 3.), V(0., 3., 0.), V(-3., 0., 0.), V(2., 2., 2.)] {
        v.push((o, -o));
    }
    // along edges and through corners of the shapes above
    v.push((V(-1., 3., 0.), V(0., -1., 0.)));
    v.push((V(-3., -1., 0.), V(1., 0., 0.)));
    v.push((V(-1., -1., 4.), z));
    v.push((V(0., 1., 4.), z * 1e-3));
    v.push((V(3., 1., 0.), V(-1., 0., 0.)));
    v.push((V(1., 0., 5.), z));
    v.push((V(0., 0.5, 3.), V(0., -0.5, -3.)));
    // from within or on a surface
    v.push((V(0., 0., 0.), V(0., 1., 0.)));
    v.push((V(0., 0., 0.), V(1., 0.3, -0.2)));
    v.push((V(0., 0., 1.), V(0., 0., 1.)));
    v.push((V(0., 0., 1.), V(1., 0., 0.)));
    v.push((V(0.1, 0.1, 0.1), V(-1., 1., 1e-9)));
    v.push((V(0., 0., 1.5), z));
    // odd lengths
    v.push((V(0.2, 0.1, 3.), V(0., 0., -1e-7)));
    v.push((V(0.2, 0.1, 3.), V(-0.01, 0., -1.) * 1e7));
    v.push((V(0.1, 1e6, 0.2), V(0., -1., 0.)));
    v.push((V(0.1, 0.2, -3.), V(-0., 0.0, 1.)));
    // low over the ground
    v.push((V(-5., 0.01, 0.), V(1., -1e-3, 0.)));
    v.push((V(-5., -0.999, 0.1), V(1., -1e-7, 0.)));
    if thorough() {
        for p in sphere_points(30) {
            v.push((p * 3., -p));
            v.push((V(0.1, -0.2, 0.15), p));
        }
    }
    v
}

fn shaders() -> Vec<(&'static str, Shaders)> {
    vec![
        ("path", PathTracingShader::new(4)),
        ("albedo", AlbedoShader::new()),
        ("normal", NormalShader::new()),
        ("simple", SimpleShader::new()),
        ("deep path", PathTracingShader::new(60)),
        ("no path", PathTracingShader::new(0)),
    ]
}

fn valid(c: V, negative: bool) -> bool {
    c.finite() && (negative || (c.0 >= 0. && c.1 >= 0. && c.2 >= 0.))
}

/// Flat shading of a surface turned away from the direction (1, 1, -1) is known to be a bit negative
fn known(_world: &Hittables, r: &Renderer, h: &RayHit, r0: &Ray, got: V) {
    let f = 0.75 + 0.5 * vv(h.normal).dot(V(1., 1., -1.));
    // blends have several
    let albedos: Vec<V> = product(&[3, 3, 3])
        .iter()
        .map(|c| with_draws(&[0, 1, 2].map(|i| [0., 0.4, 0.99][c[i]]), 0.6, || vv(AlbedoShader::new().shade(r, h, r0, 0, 0.).color)).0)
        .collect();
    let albedo = albedos.iter().copied().find(|a| vclose(got, *a * f, 1e-9) && valid(*a, false));
    if f < 0. && f > -0.1161 && albedo.is_some() {
        finding("simple-shader-negative", || format!("the simple shader gives {:?} for the normal {:?} and albedo {:?}", got, vv(h.normal), albedo));
    } else {
        violation(&format!("the simple shader gives {:?} for the normal {:?} and albedo {:?}", got, vv(h.normal), albedos));
    }
}

fn shade(what: &dyn Fn() -> String, world: &Hittables, lamps: bool) {
    let _ = lamps;
    let fill = encode(0.6);
    for (name, sh) in shaders() {
        let r = renderer(world.clone(), sh.clone(), V(0.5, 0.7, 1.));
        for (o, d) in rays() {
            let r0 = ray(o, d);
            let f = || {
                guarded(|| {
                    world.hit(&r0, &RAY_INTERVAL).map(|h| {
                        let a = sh.shade(&r, &h, &r0, 0, 0.);
                        let (a, b) = (vv(a.color), vv(a.get_attenuated_color()));
                        if name == "simple" && !valid(a, false) {
                            known(&world, &r, &h, &r0, a);
                            return (V::ZERO, V::ZERO);
                        }
                        (a, b)
                    })
                })
            };
            let deep = match name {
                "path" => tier(4, 5),
                "no path" => 1,
                "deep path" => 2,
                _ => tier(2, 3),
            };
            let n = tree(&|_| extremes(), deep, fill, f, |got, l| match got {
                Err(e) => violation(&format!("the {} shader panics with {} for {}, ray from {:?} direction {:?}, draws {:?}", name, e, what(), o, d, l.choice)),
                Ok(Some((a, b))) => {
                    let normal = name == "normal";
                    must!(valid(a, normal) && valid(b, normal), "the {} shader gives {:?} ({:?}) for {}, ray from {:?} direction {:?}, draws {:?}", name, a, b, what(), o, d, l.choice);
                }
                Ok(None) => {}
            });
            // the same with draws that look random
            for key in 0..tier(8, 40) {
                match with_stream(key, f).0 {
                    Err(e) => violation(&format!("the {} shader panics with {} for {}, ray from {:?} direction {:?}, stream {}", name, e, what(), o, d, key)),
                    Ok(Some((a, b))) => {
                        let normal = name == "normal";
                        must!(valid(a, normal) && valid(b, normal), "the {} shader gives {:?} ({:?}) for {}, ray from {:?} direction {:?}, stream {}", name, a, b, what(), o, d, key);
                    }
                    Ok(None) => {}
                }
            }
            transitions(n * deep as u64);
            traces(n);
        }
    }
    states(1);
}

fn transformations() -> Vec<Box<dyn Transformer>> {
    vec![
        Box::new(RotationY::new(90.)),
        Box::new(Transformations::new(vec![
            Box::new(Scale::new(1e-3)),
            Box::new(RotationX::new(33.)),
            Box::new(RotationZ::new(-120.)),
            Box::new(Translation::new(v3(V(0.1, 0.2, 0.3)))),
        ])),
        Box::new(Scale::new(0.)),
        Box::new(Scale::new(-2.)),
        Box::new(Scale::new(1e4)),
    ]
}

/// Small renders of everything with every shader, also of odd sizes, views and sample counts
fn renders() {
    let ss = shapes();
    let ms = materials();
    let mut cases = vec![];
    for s in 0..ss.len() {
        for m in 0..ms.len() {
            for (i, _) in lamps().iter().enumerate() {
                if thorough() || (s + m + i) % 3 == 0 {
                    cases.push((s, m, i));
                }
            }
        }
    }
    par(&cases, |_, (s, m, l)| {
        let mut objs = lamps().swap_remove(*l).1;
        objs.push(ss[*s].build(ms[*m].clone()));
        let world = bvh(objs);
        for (k, (name, sh)) in shaders().into_iter().enumerate() {
            for (w, h, n) in [(1, 1, 2), (2, 3, 1)] {
                let mut sc = scene(world.clone(), sh.clone(), V(0.1, 0.2, 0.3));
                sc.render_config.width = w;
                sc.render_config.height = h;
                sc.render_config.samples_per_pixel = n;
                sc.camera.aperture_size = [0., 0.3][k % 2];
                let (tx, rx) = channel();
                let (_atx, arx) = channel();
                let r = with_stream((s * 7 + m * 3 + l + k) as u64, || guarded(|| ray_trace(sc, &tx, &arx).map_err(|e| e.to_string()))).0;
                let what = || format!("{} of {:?} with {:?}, lights {}, {}x{}", name, ss[*s], ms[*m], lamps()[*l].0, w, h);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => violation(&format!("render fails with {}: {}", e, what())),
                    Err(e) => violation(&format!("render panics with {}: {}", e, what())),
                }
                must!(rx.try_iter().count() == n as usize, "not all progress is reported: {}", what());
                traces(1);
                transitions((w * h) as u64 * n as u64);
            }
        }
        states(1);
    });
}

pub fn run() {
    let ss = shapes();
    let ms = materials();
    let nl = lamps().len();
    let mut cases = vec![];
    for s in 0..ss.len() {
        for m in 0..ms.len() {
            for l in 0..nl {
                cases.push((s, m, l));
            }
        }
    }
    note("combinations of shape, material and lights", cases.len());
    par(&cases, |_, (s, m, l)| {
        let (name, mut objs) = lamps().swap_remove(*l);
        objs.push(ss[*s].build(ms[*m].clone()));
        let world = bvh(objs);
        shade(&|| format!("{:?} with {:?}, lights {}", ss[*s], ms[*m], name), &world, true);
    });
    // transformed shapes
    let mut cases = vec![];
    for s in 0..ss.len() {
        for m in 0..ms.len() {
            for t in 0..transformations().len() {
                if (s + m + t) % tier(2, 1) == 0 {
                    cases.push((s, m, t));
                }
            }
        }
    }
    par(&cases, |_, (s, m, t)| {
        let ts = transformations();
        let world = bvh(vec![ss[*s].build_t(ms[*m].clone(), ts[*t].as_ref()), quad(V(-2., 3., -2.), V(4., 0., 0.), V(0., 0., 4.)).build(light(WHITE))]);
        shade(&|| format!("transformation {} of {:?} with {:?}", t, ss[*s], ms[*m]), &world, false);
    });
    renders();
    sample(|| "quad with edges (1,0,0) and (2,0,0) (flat), matte with a zero normal map, inside of a sphere light: all sequences of 4 draws out of 0, 1/4, 1/2, 3/4, almost 1".into());
    assume("colors and coordinates are small enough not to overflow");
}
