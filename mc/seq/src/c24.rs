//! Energy of diffuse and fog scattering: the mean of weight * light over all cells of the draws has to be the share of the
//! directions the light comes from.
use crate::c23::{frame, seen, solid};
use crate::kit::*;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Onb, Uv};
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::{Material, Materials, RayHit, RayScatter};
use solstrale::renderer::shader::{PathTracingShader, Shader};
use std::f64::consts::PI;

const TRIANGLE: &str = "triangle-light-energy";

fn light_sets() -> Vec<Vec<Shape>> {
    let ceiling = || quad(V(-1., 2., -1.), V(2., 0., 0.), V(0., 0., 2.));
    let tri_l = || tri(V(-1., 1.5, -1.), V(1.5, 1.6, -0.8), V(0.2, 1.4, 1.5));
    let mut v = vec![
        vec![sph(V(0., 3., 0.), 1.)],
        vec![sph(V(-30., 80., 20.), 25.)],
        vec![ceiling()],
        // below, beside, across the horizon
        vec![sph(V(0., -3., 0.5), 1.2)],
        vec![sph(V(3., 0.1, 0.), 1.)],
        vec![quad(V(2., -1., -1.), V(0., 2., 0.), V(0., 0., 2.))],
        // all around
        vec![sph(V(0.2, 0.1, -0.1), 5.)],
        vec![sph(V(0.2, 0.1, -0.1), 5.), ceiling()],
        // several
        vec![ceiling(), sph(V(3., 0., 0.), 1.)],
        vec![ceiling(), sph(V(3., 1., 0.), 1.), quad(V(-1., -2., -1.), V(1., 0., 0.), V(0., 0., 3.))],
        vec![sph(V(0., 3., 0.), 1.); 2],
        vec![sph(V(0., 6., 0.), 2.5), sph(V(0., 3., 0.), 0.5), ceiling(), sph(V(-4., -1., 2.), 0.1)],
        vec![tri_l()],
        vec![ceiling(), tri_l()],
        // many
        sphere_points(10).into_iter().map(|d| sph(d * 6., 1.1)).collect(),
        sphere_points(24).into_iter().map(|d| sph(d * 6., 0.7)).collect(),
        // very many, all in one place
        vec![sph(V(0., 3., 0.), 1.); 65],
        vec![ceiling(); 130],
        vec![sph(V(0.2, 0.1, -0.1), 5.); tier(300, 1100)],
        // just inside
        vec![sph(V(0., 0., 4.9975), 5.)],
        vec![sph(V(0., -4.9975, 0.), 5.), ceiling()],
    ];
    if thorough() {
        v.push((0..8).map(|i| sph(V(((i * 3) % 8) as f64 - 3.5, 3., i as f64 - 3.5), 0.4)).collect());
        v.push(vec![quad(V(-40., 10., -50.), V(90., 0., 0.), V(0., 3., 80.))]);
        v.push(vec![sph(V(1., 1., 1.), 1.6)]);
        v.push(vec![tri(V(-2., -2., -3.), V(3., -1.7, -2.), V(0., 4., -2.5)), tri_l(), sph(V(3., 1., 0.), 1.)]);
    }
    v
}

/// Own density of the directions toward a light, and of how the code is known to draw them
fn densities(s: &Shape, o: V, d: V) -> (f64, f64) {
    match s {
        Shape::Sphere { c, r } => {
            let dist = (*c - o).len();
            if dist <= *r {
                return (1. / (4. * PI), 1. / (4. * PI));
            }
            let rest = 1. - (1. - r * r / (dist * dist)).sqrt();
            let p = if (*c - o).dot(d) / dist > 1. - rest { 1. / (2. * PI * rest) } else { 0. };
            (p, p)
        }
        Shape::Quad { u, v, .. } => {
            let p = area(s, u.cross(*v), o, d);
            (p, p)
        }
        Shape::Tri { p, .. } => {
            let (u, v) = (p[1] - p[0], p[2] - p[0]);
            (area(s, u.cross(v) * 0.5, o, d), area(&quad(p[0], u, v), u.cross(v), o, d))
        }
    }
}

fn area(s: &Shape, n: V, o: V, d: V) -> f64 {
    match s.crossings(o, d).iter().find(|c| c.t > 0.) {
        Some(c) => c.t * c.t / n.dot(d).abs(),
        None => 0.,
    }
}

const NAMES: [&str; 7] = ["from everywhere", "rising along x", "rising along y", "rising along the normal", "from one side", "from the first light", "from above"];
struct Light {
    n: V,
    e: (V, V),
}
impl Light {
    fn of(&self, d: V, first: &Shape, o: V) -> [f64; 7] {
        let (x, y, z) = (d.dot(self.e.0), d.dot(self.e.1), d.dot(self.n));
        let b = |b: bool| if b { 1. } else { 0. };
        [1., (1. + x) * 0.5, (1. + y) * 0.5, (1. + z) * 0.5, b(x * 0.8 + y * 0.6 > 0.1), b(first.crossings(o, d).iter().any(|c| c.t > 0.)), b(d.1 > 0.)]
    }
}

struct Case {
    set: usize,
    n: Option<V>,
    o: V,
}

fn run_case(shapes: &[Shape], c: &Case, sphere: &[(V, f64)]) {
    let o = c.o;
    let what = || format!("{} at {:?} and the lights {:?}", if let Some(n) = c.n { format!("diffuse surface with normal {:?}", n) } else { "fog".into() }, o, shapes);
    let hs: Vec<Hittables> = shapes.iter().map(|s| s.build(light(WHITE))).collect();
    let col = V(0.9, 0.5, 0.2);
    let fog_color = V(0.7, 0.3, 1.);
    let mat = matte(col);
    let fog = ConstantMedium::new(sph(o, 0.5).build(matte(GRAY)), 1e9, v3(fog_color));
    let nn = c.n.unwrap_or(V(0., 1., 0.)).unit();
    let lt = Light { n: nn, e: frame(nn) };
    let scatter_value = |d: V| match c.n {
        Some(_) => d.dot(nn).max(0.) / PI,
        None => 1. / (4. * PI),
    };
    // expected, and what comes from the known way of sampling triangles
    let tris = shapes.iter().any(|s| matches!(s, Shape::Tri { .. }));
    let mut want = [0.; 7];
    let mut known = [0.; 7];
    for (d, w) in sphere {
        let f = lt.of(*d, &shapes[0], o);
        let s = scatter_value(*d) * w;
        (0..7).for_each(|i| want[i] += s * f[i]);
        if tris && s > 0. {
            let (mut p, mut g) = (0., 0.);
            for s in shapes {
                let x = densities(s, o, *d);
                p += x.0 / shapes.len() as f64;
                g += x.1 / shapes.len() as f64;
            }
            let own = scatter_value(*d);
            (0..7).for_each(|i| known[i] += s * f[i] * (g + own) / (p + own));
        }
    }
    let ray_in = ray(o - nn * 2. + lt.e.0, nn * 2. - lt.e.0);
    let rec_fog = with_stream(5, || fog.hit(&ray_in, &all())).0;
    let fm: &Materials = match &rec_fog {
        Some(h) => h.material,
        None => violation("no hit in dense fog"),
    };
    let k = match shapes.len() {
        3 => tier(24, 30),
        10..60 => 28,
        60.. => 16,
        _ => tier(24, 40),
    };
    let mut sum = [0.; 7];
    let mut weight = 0.;
    let mut spoiled = 0.;
    let n = tree_spread(
        &|_| cells(k),
        4,
        || {
            guarded(|| {
                let rec = match c.n {
                    Some(n) => RayHit::new(v3(o), Onb::new(v3(n.unit())), &mat, 1., Uv::new(0.3, 0.4), c.set % 2 == 0),
                    None => RayHit::new(v3(o), Onb::new(Vec3::new(0.6, 0., 0.8)), fm, 1., Uv::default(), false),
                };
                match rec.material.scatter(&ray_in, &rec, &hs) {
                    RayScatter::ScatterPdf(s) => (vv(s.color), vv(s.ray.origin), vv(s.ray.direction), s.probability),
                    _ => violation(&format!("{}: scatters in an unexpected way", what())),
                }
            })
        },
        |r, l| {
            let (color, from, d, p) = r.unwrap_or_else(|e| violation(&format!("{}: panic {} for the draws {:?}", what(), e, l.choice)));
            must!(vclose(color, if c.n.is_some() { col } else { fog_color }, 1e-12), "{}: color {:?}", what(), color);
            must!(from == o, "{}: scattered ray starts at {:?}", what(), from);
            must!(d.finite() && d.len() > 0., "{}: scattered direction {:?}", what(), d);
            must!(!(p < 0.) && p != f64::INFINITY, "{}: weight {} for the direction {:?}", what(), p, d);
            weight += l.weight;
            if p.is_nan() {
                spoiled += l.weight;
                return;
            }
            if p > 0. {
                let u = d.unit();
                if c.n.is_some() {
                    must!(u.dot(nn) >= -1e-12, "{}: weight {} for the direction {:?} below the surface", what(), p, d);
                }
                let f = lt.of(u, &shapes[0], o);
                (0..7).for_each(|i| sum[i] += l.weight * p * f[i]);
            }
        },
    );
    states(1);
    transitions(n);
    traces(n);
    must!(tris || spoiled <= 0.02 * weight, "{}: {} of all weights are invalid", what(), spoiled / weight);
    let bad = |want: &[f64; 7], factor: f64| -> Option<String> {
        (0..7).find_map(|i| {
            let got = sum[i] / weight;
            // lights that end within a cell
            let many = if shapes.len() >= 10 { 1.7 } else { 1. };
            let tol = many * factor * [0.02, 0.02, 0.02, 0.02, 0.04, 0.04, 0.04][i];
            if (got - want[i]).abs() > tol {
                return Some(format!("light {} gives {} instead of {}", NAMES[i], got, want[i]));
            }
            None
        })
    };
    if let Some(e) = bad(&want, 1.) {
        let k = bad(&known, 3.);
        if tris && k.is_none() {
            finding(TRIANGLE, || format!("{}: {}", what(), e));
        } else {
            violation(&format!("{}: {} {}", what(), e, if tris { k.unwrap_or_default() } else { String::new() }));
        }
    }
}

/// Light that only grazes the surface, down to a hundredth of a degree
fn grazing() {
    let mut cases = vec![];
    for n in sphere_points(tier(6, 20)) {
        for rise in [0.3, 0.05, 0.008, 0.001, 0.0002] {
            for dist in [1., 30., 2000.] {
                for sides in [false, true] {
                    cases.push((n, rise, dist, sides));
                }
            }
        }
    }
    par(&cases, |_, (n, rise, dist, quads)| {
        let e = frame(*n);
        let d = (e.0 * 0.8 + e.1 * 0.6 + *n * *rise).unit();
        let s = rise * 0.4 * dist;
        let (a, b) = frame(d);
        let at = d * *dist;
        let shape = if *quads { quad(at - a * s - b * s, a * (2. * s), b * (2. * s)) } else { sph(at, s) };
        let want: f64 = solid(&shape, V::ZERO, 60).iter().map(|(d, w)| d.dot(*n).max(0.) / PI * w).sum();
        let hs = [shape.build(light(WHITE))];
        let mat = matte(WHITE);
        let start = ray(*n + e.0, -*n - e.0);
        let (mut sum, mut weight) = (0., 0.);
        let leaves = tree_spread(
            &|_| cells(tier(16, 24)),
            4,
            || {
                let rec = RayHit::new(v3(V::ZERO), Onb::new(v3(*n)), &mat, 1., Uv::new(0.3, 0.4), true);
                match rec.material.scatter(&start, &rec, &hs) {
                    RayScatter::ScatterPdf(s) => (vv(s.ray.direction), s.probability),
                    _ => violation("a diffuse surface scatters in an unexpected way"),
                }
            },
            |(d, p), l| {
                weight += l.weight;
                if p > 0. && shape.crossings(V::ZERO, d.unit()).iter().any(|c| c.t > 0.) {
                    sum += p * l.weight;
                }
            },
        );
        let got = sum / weight;
        must!((got - want).abs() <= 0.06 * want, "a diffuse surface with normal {:?} receives {} instead of {} from {:?} that is only {} above the horizon", n, got, want, shape, rise);
        states(1);
        transitions(leaves);
        traces(leaves);
    });
}

/// A white furnace and form factors through the renderer
fn furnaces() {
    let sets = light_sets();
    let mut cases = vec![];
    for (i, s) in sets.iter().enumerate() {
        // (the ray toward the surface begins beside it)
        let close = |s: &Shape| matches!(s, Shape::Sphere { c, r } if (c.len() - r).abs() < 0.1);
        if s.len() >= 10 || s.iter().any(|s| matches!(s, Shape::Tri { .. }) || close(s)) {
            continue;
        }
        for n in [V(0., 1., 0.), V(0.5, 0.7, -0.4), V(1., 0.1, 0.2), V(-0.2, -1., 0.1)] {
            cases.push((i, n));
        }
    }
    let sphere = solid(&sph(V::ZERO, 1.), V(1e-9, 0., 0.), tier(300, 600));
    par(&cases, |_, (i, n)| {
        let n = n.unit();
        let shapes = &sets[*i];
        let col = V(0.9, 0.5, 0.2);
        // it scatters at its middle; too small to be met again
        let e = frame(n);
        let s = 0.002;
        let surface = quad(e.0 * -s + e.1 * -s, e.0 * (2. * s), e.1 * (2. * s));
        let mut objects: Vec<Hittables> = vec![surface.build(matte(col))];
        objects.extend(shapes.iter().map(|s| s.build(light(WHITE))));
        for bg in [WHITE, V::ZERO] {
            let shader = PathTracingShader::new(3);
            let world = bvh(objects.clone());
            let r = renderer(bvh(objects.clone()), shader.clone(), bg);
            // background plus the fronts of lights, none hidden by others behind it
            let mut want = 0.;
            for (d, w) in &sphere {
                let c = d.dot(n).max(0.) / PI * w;
                if c == 0. {
                    continue;
                }
                let mut cs = crossings_of(shapes, V::ZERO, *d);
                cs.retain(|c| c.t > 0.);
                cs.sort_by(|a, b| a.t.total_cmp(&b.t));
                want += c * match cs.first() {
                    Some(c) => if c.front { 1. } else { 0. },
                    None => bg.0,
                };
            }
            let start = ray(n * 0.05 + e.0 * 0.02, n * -0.05 - e.0 * 0.02);
            let h = world.hit(&start, &all());
            let h = h.as_ref().unwrap_or_else(|| violation(&format!("a surface with normal {:?} is not hit", n)));
            let k = if shapes.len() == 3 { 18 } else { tier(16, 24) };
            let (mut sum, mut weight) = (V::ZERO, 0.);
            let leaves = tree_spread(
                &|_| cells(k),
                4,
                || guarded(|| vv(shader.shade(&r, h, &start, 0, 0.).color)),
                |c, l| {
                    let c = c.unwrap_or_else(|e| violation(&format!("panic {} for a surface with normal {:?} and the lights {:?}", e, n, shapes)));
                    weight += l.weight;
                    sum = sum + c * l.weight;
                },
            );
            let got = sum * (1. / weight);
            states(1);
            traces(leaves);
            transitions(leaves);
            must!((got - col * want).max_abs() < 0.03, "a surface with normal {:?} and color {:?}, the lights {:?} and the background {:?}: shows {:?} instead of {:?}", n, col, shapes, bg, got, col * want);
        }
    });
}

pub fn run() {
    let sets = light_sets();
    let mut cases = vec![];
    let mut normals: Vec<Option<V>> = sphere_points(tier(10, 24)).into_iter().map(Some).collect();
    normals.extend([None, Some(V(0., 1., 0.)), Some(V(1., 0., 0.)), Some(V(0., 0., -1.))]);
    for (i, s) in sets.iter().enumerate() {
        for n in &normals {
            for o in [V(0., 0., 0.), V(0.6, -0.4, 0.5)] {
                if s.iter().all(|s| seen(s, o)) {
                    cases.push(Case { set: i, n: *n, o });
                }
            }
        }
    }
    note("combinations of lights, place and normal", cases.len());
    let sphere = solid(&sph(V::ZERO, 1.), V(1e-9, 0., 0.), tier(300, 500));
    par(&cases, |_, c| run_case(&sets[c.set], c, &sphere));
    furnaces();
    grazing();
    sample(|| "quad and sphere light, normal (0,1,0): 20^4 cells of the first four draws, seven distributions of light".into());
    assume("the places are not on the surface or in the plane of a light");
}

/// Cosine weighted share of all directions, and of those toward a shape, seen from the origin
pub fn share(s: &Shape, n: V) -> (f64, f64) {
    let mut part = 0.;
    for (d, w) in solid(&sph(V::ZERO, 1.), V(1e-9, 0., 0.), 400) {
        let c = d.dot(n.unit()).max(0.) / PI * w;
        if c > 0. && s.crossings(V::ZERO, d).iter().any(|c| c.t > 0.) {
            part += c;
        }
    }
    (1., part)
}
