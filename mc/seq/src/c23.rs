//! Sampling and density of lights and of the other distributions: for every cell of the draws the mean of f / density has
//! to be the integral of f over the directions, measured on the own geometry.
use crate::kit::*;
use fastrand::mc_hook::encode;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::pdf::{mix_generate, mix_value, ContainerPdf, CosinePdf, Pdf, SpherePdf};
use std::f64::consts::PI;

/// Directions with their solid angle, covering what is seen of the shape
pub fn solid(s: &Shape, o: V, k: usize) -> Vec<(V, f64)> {
    let mut out = vec![];
    let mid = |i: usize| (i as f64 + 0.5) / k as f64;
    match s {
        Shape::Sphere { c, r } => {
            let a = *c - o;
            let dist = a.len();
            // 1 - cos of the largest angle
            let rest = if dist <= *r {
                2.
            } else {
                let s2 = r * r / (dist * dist);
                s2 / (1. + (1. - s2).sqrt())
            };
            let w = a * (1. / dist);
            let (t, b) = frame(w);
            for i in 0..k {
                for j in 0..k {
                    let x = rest * mid(i);
                    let z = 1. - x;
                    let h = (x * (2. - x)).max(0.).sqrt();
                    let phi = 2. * PI * mid(j);
                    out.push((w * z + (t * phi.cos() + b * phi.sin()) * h, 2. * PI * rest / (k * k) as f64));
                }
            }
        }
        Shape::Quad { q, u, v } => {
            let c = u.cross(*v);
            for i in 0..k {
                for j in 0..k {
                    let d = *q + *u * mid(i) + *v * mid(j) - o;
                    let l = d.len();
                    out.push((d * (1. / l), c.dot(d).abs() / (l * l * l) / (k * k) as f64));
                }
            }
        }
        Shape::Tri { p, .. } => {
            let (u, v) = (p[1] - p[0], p[2] - p[0]);
            let c = u.cross(v);
            let kf = k as f64;
            let mut add = |a: f64, b: f64| {
                let d = p[0] + u * a + v * b - o;
                let l = d.len();
                out.push((d * (1. / l), c.dot(d).abs() * 0.5 / (l * l * l) / (kf * kf)));
            };
            for i in 0..k {
                for j in 0..k - i {
                    add((i as f64 + 1. / 3.) / kf, (j as f64 + 1. / 3.) / kf);
                    if i + j + 1 < k {
                        add((i as f64 + 2. / 3.) / kf, (j as f64 + 2. / 3.) / kf);
                    }
                }
            }
        }
    }
    out
}

/// Two directions across
pub fn frame(n: V) -> (V, V) {
    let a = if n.0.abs() < 0.9 { V(1., 0., 0.) } else { V(0., 1., 0.) };
    let t = a.cross(n).unit();
    (t, n.cross(t))
}

/// Functions of the direction that tell distributions apart
struct Tests {
    c: V,
    e: (V, V),
    w: f64,
}
const NAMES: [&str; 6] = ["1", "x", "y", "x^2", "y^2", "xy"];
impl Tests {
    fn new(dirs: &[(V, f64)]) -> Tests {
        let mut c = V::ZERO;
        for (d, w) in dirs {
            c = c + *d * *w;
        }
        if c.len() < 1e-3 * dirs.iter().map(|d| d.1).sum::<f64>() {
            c = V(0.36, 0.48, 0.8);
        }
        let c = c.unit();
        let w = dirs.iter().map(|d| (d.0 - c).len()).fold(1e-12, f64::max);
        Tests { c, e: frame(c), w }
    }
    fn of(&self, d: V) -> [f64; 6] {
        let r = (d - self.c) * (1. / self.w);
        let (x, y) = (r.dot(self.e.0), r.dot(self.e.1));
        [1., x, y, x * x, y * y, x * y]
    }
    fn integral(&self, dirs: &[(V, f64)]) -> [f64; 6] {
        let mut s = [0.; 6];
        for (d, w) in dirs {
            let f = self.of(*d);
            (0..6).for_each(|i| s[i] += f[i] * w);
        }
        s
    }
}

/// Mean of f / density over the tree of draws, share of directions without density
struct Mean {
    sum: [f64; 6],
    weight: f64,
    zero: Vec<V>,
    n: u64,
}

fn mean(k: usize, depth: usize, t: &Tests, what: &dyn Fn() -> String, generate: &dyn Fn() -> V, density: &dyn Fn(V) -> f64) -> Mean {
    let mut m = Mean { sum: [0.; 6], weight: 0., zero: vec![], n: 0 };
    m.n = tree_spread(&|_| cells(k), depth, || guarded(|| generate()), |d, l| {
        let d = d.unwrap_or_else(|e| violation(&format!("{}: panic {}", what(), e)));
        must!(d.finite() && d.len() > 0., "{}: sampled direction {:?}", what(), d);
        let p = guarded(|| density(d)).unwrap_or_else(|e| violation(&format!("{}: panic {}", what(), e)));
        must!(!p.is_nan() && p >= 0., "{}: density {} in the direction {:?}", what(), p, d);
        m.weight += l.weight;
        if p > 0. {
            let f = t.of(d.unit());
            (0..6).for_each(|i| m.sum[i] += l.weight * f[i] / p);
        } else {
            m.zero.push(d);
        }
    });
    transitions(m.n * 2);
    traces(m.n);
    m
}

fn agree(m: &Mean, want: &[f64; 6], factor: f64, tol: f64) -> Option<String> {
    for i in 0..6 {
        let got = m.sum[i] / m.weight;
        if (got - want[i] * factor).abs() > tol * want[0] {
            return Some(format!("the mean of {}/density is {} instead of {} ({} is expected for 1)", NAMES[i], got, want[i] * factor, want[0] * factor));
        }
    }
    None
}

pub const TRIANGLE: &str = "triangle-light-parallelogram";

fn lights() -> Vec<Shape> {
    let mut v = vec![
        sph(V(0., 0., 0.), 1.),
        sph(V(3., -2., 1.), 0.05),
        sph(V(0., 40., 0.), 35.),
        quad(V(-1., 2., -1.), V(2., 0., 0.), V(0., 0., 2.)),
        quad(V(-0.3, -0.5, 1.), V(1., 0.4, 0.2), V(-0.3, 0.9, 0.6)),
        quad(V(0., 0., 0.), V(0., 0.01, 0.), V(0., 0., 5.)),
        tri(V(-1., 1.5, -1.), V(1.5, 1.6, -0.8), V(0.2, 1.4, 1.5)),
        tri(V(0., 0., 0.), V(0.02, 0., 0.), V(0., 0.03, 0.01)),
        tri(V(-5., -4., -7.), V(6., -4., -7.), V(0., -4., 9.)),
    ];
    if thorough() {
        v.push(sph(V(-1., 0.2, 0.3), 0.02));
        v.push(quad(V(-30., 9., -20.), V(60., 0., 0.), V(0., 3., 50.)));
        v.push(quad(V(0., 0., 0.), V(0.015, 0., 0.), V(0., 0.01, 0.002)));
        v.push(tri(V(0., 0., 0.), V(4., 0., 0.1), V(3.9, 0.1, 0.)));
    }
    v
}

fn size(s: &Shape) -> f64 {
    (s.bounds().1 - s.bounds().0).max_abs()
}

fn points(s: &Shape) -> Vec<V> {
    let mut v = vec![];
    let c = s.center();
    for p in sphere_points(tier(24, 60)) {
        for f in [0.75, 2., 9.] {
            v.push(c + p * (f * size(s)));
        }
    }
    for p in sphere_points(6) {
        v.push(c + p * (2000. * size(s)));
    }
    if let Shape::Sphere { r, .. } = s {
        // seen from inside it is everywhere
        for p in sphere_points(tier(8, 30)) {
            for f in [1.0006, 1.006, 1.03, 1.1, 0.994, 0.9995] {
                // (surfaces closer than 0.001 are not hit)
                if f < 1. && *r < 0.4 || f < 1.001 && f > 0.999 && *r < 4. {
                    continue;
                }
                v.push(c + p * (f * r));
            }
            v.push(c + p * (0.9 * r));
            v.push(c + p * (0.3 * r));
        }
    }
    // straight on
    for a in [V(1., 0., 0.), V(0., 1., 0.), V(0., 0., 1.)] {
        v.push(c + a * (1.3 * size(s)));
        v.push(c - a * (1.3 * size(s)));
    }
    v
}

/// Is the light seen neither from its own plane nor from its surface?
pub fn seen(s: &Shape, o: V) -> bool {
    match s {
        Shape::Sphere { c, r } => {
            let d = (o - *c).len();
            (d > r * 1.0005 || d < r * 0.9996) && d > 0.01 * r
        }
        Shape::Quad { q, u, v } => {
            let n = u.cross(*v).unit();
            let h = n.dot(o - *q).abs();
            h > 0.03 * (o - s.center()).len() && h > 0.15 * size(s).min((o - s.center()).len())
        }
        Shape::Tri { p, .. } => {
            let n = (p[1] - p[0]).cross(p[2] - p[0]).unit();
            let h = n.dot(o - p[0]).abs();
            h > 0.03 * (o - s.center()).len() && h > 0.15 * size(s).min((o - s.center()).len())
        }
    }
}

fn single(s: &Shape, o: V) {
    let h = s.build(light(WHITE));
    let k = tier(40, 100);
    let what = || format!("light {:?} seen from {:?}", s, o);
    let dirs = solid(s, o, tier(64, 160));
    let t = Tests::new(&dirs);
    let want = t.integral(&dirs);
    let generate = || vv(h.random_direction(v3(o)));
    let density = |d: V| h.pdf_value(v3(o), v3(d));
    let m = mean(k, 2, &t, &what, &generate, &density);
    states(1);
    // every direction hits
    match (s, m.zero.is_empty()) {
        (_, true) => {
            if let Some(e) = agree(&m, &want, 1., 0.01) {
                violation(&format!("{}: {}", what(), e));
            }
        }
        (Shape::Tri { p, .. }, false) => {
            // known: sampled from the parallelogram around the triangle, half of it misses
            let para = quad(p[0], p[1] - p[0], p[2] - p[0]);
            for d in &m.zero {
                must!(!para.crossings(o, *d).is_empty() && s.crossings(o, *d).iter().all(|c| !c.sure), "{}: sampled direction {:?} has no density", what(), d);
            }
            match agree(&m, &want, 0.5, 0.01 + 2. / k as f64) {
                None => finding(TRIANGLE, || format!("{}: {} of {} sampled directions miss it and have no density", what(), m.zero.len(), m.n)),
                Some(e) => violation(&format!("{}: {} of {} sampled directions have no density, {}", what(), m.zero.len(), m.n, e)),
            }
        }
        _ => violation(&format!("{}: the sampled direction {:?} has no density", what(), m.zero[0])),
    }
    // the extremes hit it, or at least its edge
    tree(&|_| extremes(), 2, encode(0.5), || guarded(&generate), |d, l| {
        let d = d.unwrap_or_else(|e| violation(&format!("{}: panic {}", what(), e)));
        must!(d.finite() && d.len() > 0., "{}: sampled direction {:?} for the draws {:?}", what(), d, l.choice);
        let near = match s {
            Shape::Sphere { c, r } => (*c - o).len() <= *r || ((*c - o).cross(d.unit()).len() <= r * (1. + 1e-6) && (*c - o).dot(d) > 0.),
            Shape::Quad { .. } => !s.crossings(o, d).is_empty(),
            // see above
            Shape::Tri { p, .. } => !quad(p[0], p[1] - p[0], p[2] - p[0]).crossings(o, d).is_empty(),
        };
        must!(near, "{}: the sampled direction {:?} misses it, draws {:?}", what(), d, l.choice);
        let p = density(d);
        must!(!p.is_nan() && p >= 0., "{}: density {} in the direction {:?}", what(), p, d);
        traces(1);
    });
    // the density integrates to one, whatever the length of the direction, and is zero elsewhere
    let mut total = 0.;
    for (i, (d, w)) in dirs.iter().enumerate() {
        // (crossings closer than a thousandth of the direction are no hits)
        let near = s.crossings(o, *d).iter().map(|c| c.t).filter(|t| *t > 0.).fold(f64::MAX, f64::min);
        let l = [1., 0.3, 20.][i % 3] * (near / 0.1).min(1.);
        let p = density(*d * l);
        must!(p > 0. || s.crossings(o, *d).iter().all(|c| !c.sure), "{}: no density in the direction {:?} that hits it", what(), *d * l);
        total += w * p;
        if i % 16 == 0 {
            let q = density(*d);
            must!(close(p, q, 1e-7 * (1. + p)), "{}: density {} for the direction {:?} but {} for the same direction of unit length", what(), p, *d * l, q);
        }
    }
    must!((total - 1.).abs() < 0.01, "{}: the density integrates to {}", what(), total);
    let dense = sphere_points(tier(200, 2000));
    for d in &dense {
        let cs = s.crossings(o, *d);
        if cs.iter().all(|c| c.t < -1e-6 * size(s)) && !cs.iter().any(|c| !c.sure) {
            let p = density(*d);
            must!(p == 0., "{}: density {} in the direction {:?} that misses it", what(), p, d);
        }
    }
    transitions(dirs.len() as u64 + dense.len() as u64);
    traces(dirs.len() as u64 + dense.len() as u64);
}

/// Equal mixtures over several lights
fn mixtures() {
    let sets: Vec<(Vec<Shape>, usize)> = vec![
        (vec![sph(V(3., 0., 0.), 1.), quad(V(-1., 2., -1.), V(2., 0., 0.), V(0., 0., 2.))], 24),
        (vec![quad(V(-1., 2., -1.), V(2., 0., 0.), V(0., 0., 2.)), quad(V(-1., -2., -1.), V(1., 0., 0.), V(0., 0., 3.)), sph(V(0.5, 0., -6.), 0.5)], 30),
        (vec![sph(V(0., 0., 5.), 1.); 2], 24),
        (vec![sph(V(0., 0., -3.), 0.3), sph(V(4., 1., 0.), 2.), quad(V(-3., 1., 0.), V(0., 1., 0.), V(0.3, 0., 2.)), sph(V(-1., -9., 0.), 3.)], 24),
        // one behind and larger than the other
        (vec![sph(V(0., 6., 0.), 2.5), sph(V(0., 3., 0.), 0.5)], 40),
        (vec![sph(V(0.2, 0.1, 0.), 9.), quad(V(-1., 2., -1.), V(2., 0., 0.), V(0., 0., 2.))], 40),
        // many of them
        (sphere_points(20).into_iter().map(|d| sph(d * 9., 0.7)).collect(), 40),
        (sphere_points(33).into_iter().map(|d| sph(d * 9., 0.5)).collect(), 66),
    ];
    let mut cases = vec![];
    for (i, _) in sets.iter().enumerate() {
        for o in [V(0., 0., 0.), V(0.4, -0.3, 0.2), V(-0.6, 0.5, 0.5)] {
            for extra in 0..3 {
                cases.push((i, o, extra));
            }
        }
    }
    par(&cases, |_, (i, o, extra)| {
        let (shapes, k) = &sets[*i];
        let hs: Vec<Hittables> = shapes.iter().map(|s| s.build(light(WHITE))).collect();
        let n = V(0.3, 0.9, -0.2);
        // all directions, to be weighted by where the mixture can go
        let kk = tier(400, 900);
        let sphere: Vec<(V, f64)> = solid(&sph(V::ZERO, 1.), V(1e-9, 0., 0.), kk);
        let hits = |d: V| shapes.iter().any(|s| s.crossings(*o, d).iter().any(|c| c.t > 0.));
        let cosine = |d: V| d.unit().dot(n.unit()).max(0.) + if hits(d) { 1. } else { 0. };
        let dirs: Vec<(V, f64)> = match extra {
            0 => match i {
                // apart from each other
                0 | 1 | 3 | 6 | 7 => shapes.iter().flat_map(|s| solid(s, *o, 100)).collect(),
                2 => solid(&shapes[0], *o, 150),
                4 if *o == V::ZERO => solid(&shapes[0], *o, 150),
                _ => sphere.iter().copied().filter(|(d, _)| hits(*d)).collect(),
            },
            // measured with the cosine, keeps the quotients bounded
            1 => sphere.iter().copied().map(|(d, w)| (d, w * cosine(d))).filter(|(_, w)| *w > 0.).collect(),
            _ => sphere,
        };
        let t = Tests::new(&dirs);
        let want = t.integral(&dirs);
        let what = || format!("mixture of {:?}{} seen from {:?}", shapes, ["", " and the cosine distribution", " and the sphere distribution"][*extra], o);
        let origin = v3(*o);
        let m = match extra {
            0 => mean(*k, 3, &t, &what, &|| vv(ContainerPdf::new(&hs, origin).generate()), &|d| ContainerPdf::new(&hs, origin).value(v3(d))),
            1 => mean(k / 2 * 2, tier(3, 4), &t, &what, &|| vv(mix_generate(&ContainerPdf::new(&hs, origin), &CosinePdf::new(v3(n)))), &|d| mix_value(&ContainerPdf::new(&hs, origin), &CosinePdf::new(v3(n)), v3(d)) / cosine(d).max(1e-12)),
            _ => mean(k / 2 * 2, tier(3, 4), &t, &what, &|| vv(mix_generate(&ContainerPdf::new(&hs, origin), &SpherePdf::new())), &|d| mix_value(&ContainerPdf::new(&hs, origin), &SpherePdf::new(), v3(d))),
        };
        must!(m.zero.is_empty(), "{}: the sampled direction {:?} has no density", what(), m.zero[0]);
        if let Some(e) = agree(&m, &want, 1., 0.025) {
            violation(&format!("{}: {}", what(), e));
        }
        states(1);
        // the density is the mean of the single ones
        for d in sphere_points(300) {
            let single: f64 = hs.iter().map(|h| h.pdf_value(origin, v3(d))).sum::<f64>() / hs.len() as f64;
            let c = ContainerPdf::new(&hs, origin).value(v3(d));
            must!(close(c, single, 1e-9), "{}: density {} in the direction {:?} instead of {}", what(), c, d, single);
            let cosine = (d.dot(n.unit()) / PI).max(0.);
            let mx = mix_value(&ContainerPdf::new(&hs, origin), &CosinePdf::new(v3(n)), v3(d));
            must!(close(mx, 0.5 * single + 0.5 * cosine, 1e-9), "{}: density {} mixed with the cosine distribution in the direction {:?} instead of {}", what(), mx, d, 0.5 * single + 0.5 * cosine);
            transitions(3);
        }
    });
}

fn others() {
    let k = tier(60, 200);
    let all: Vec<(V, f64)> = solid(&sph(V::ZERO, 1.), V(1e-9, 0., 0.), 500);
    let mut ns = sphere_points(tier(40, 300));
    ns.extend(neighbours());
    par(&ns, |_, n| {
        let nn = n.unit();
        // measured with the cosine, keeps the quotients bounded
        let dirs: Vec<(V, f64)> = all.iter().copied().filter(|(d, _)| d.dot(nn) > 0.).map(|(d, w)| (d, w * d.dot(nn))).collect();
        let t = Tests::new(&dirs);
        let want = t.integral(&dirs);
        let what = || format!("cosine distribution around {:?}", n);
        let pdf = CosinePdf::new(v3(*n));
        let m = mean(k, 2, &t, &what, &|| vv(pdf.generate()), &|d| pdf.value(v3(d)) / d.unit().dot(nn).max(1e-12));
        must!(m.zero.is_empty(), "{}: the sampled direction {:?} has no density", what(), m.zero[0]);
        if let Some(e) = agree(&m, &want, 1., 0.025) {
            violation(&format!("{}: {}", what(), e));
        }
        let mut total = 0.;
        for (i, (d, w)) in all.iter().enumerate() {
            if i % 7 == 0 {
                let p = pdf.value(v3(*d * [1., 0.01, 30.][i % 3]));
                let c = (d.dot(nn) / PI).max(0.);
                must!(close(p, c, 1e-9), "{}: density {} in the direction {:?} instead of {}", what(), p, d, c);
                total += p * w * 7.;
            }
        }
        must!((total - 1.).abs() < 0.01, "{}: the density integrates to {}", what(), total);
        states(1);
        traces(1);
    });
    let t = Tests::new(&all);
    let want = t.integral(&all);
    let pdf = SpherePdf::new();
    let m = mean(tier(60, 120), 3, &t, &|| "sphere distribution".into(), &|| vv(pdf.generate()), &|d| pdf.value(v3(d)));
    must!(m.zero.is_empty(), "sphere distribution: the sampled direction {:?} has no density", m.zero[0]);
    if let Some(e) = agree(&m, &want, 1., 0.01) {
        violation(&format!("sphere distribution: {}", e));
    }
    for d in sphere_points(500) {
        let p = pdf.value(v3(d));
        must!(close(p, 1. / (4. * PI), 1e-12), "sphere distribution: density {} in the direction {:?}", p, d);
    }
    states(1);
}

/// How often each outcome is chosen over all cells of the one draw that decides, if it is one
fn shares(k: usize, outcomes: usize, f: &dyn Fn() -> usize) -> Option<Vec<usize>> {
    let with = |p: usize, c: u64| {
        let mut bits = vec![encode(0.55); p];
        bits.push(c);
        with_bits(&bits, encode(0.55), f).0
    };
    let p = (0..6).find(|p| {
        let first = with(*p, encode(0.001));
        (1..=40).any(|i| with(*p, encode(i as f64 / 41.)) != first)
    })?;
    let mut n = vec![0; outcomes];
    for c in cells(k) {
        n[with(p, c)] += 1;
    }
    transitions(k as u64);
    Some(n)
}

/// Each of several lights, and each side of a mixture, is chosen equally often
fn choices() {
    let sizes = tier(vec![1usize, 2, 3, 4, 5, 7, 8, 10, 16, 33, 100, 257], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 64, 65, 100, 257, 1000, 1025]);
    par(&sizes, |_, n| {
        let at: Vec<V> = sphere_points((*n).max(2)).into_iter().take(*n).map(|d| d * 20.).collect();
        let hs: Vec<Hittables> = at.iter().map(|c| sph(*c, 1e-3).build(light(WHITE))).collect();
        let nearest = |d: V| (0..*n).max_by(|a, b| at[*a].dot(d).total_cmp(&at[*b].dot(d))).unwrap();
        let each = 200;
        if let Some(c) = shares(each * n, *n, &|| nearest(vv(ContainerPdf::new(&hs, v3(V::ZERO)).generate()))) {
            for (i, m) in c.iter().enumerate() {
                must!((*m as i64 - each as i64).abs() <= 2, "the {}th of {} lights is chosen by {} of {} draws", i, n, m, each * n);
            }
        }
        states(1);
        traces(1);
    });
    let (a, b) = ([sph(V(20., 0., 0.), 1e-3).build(light(WHITE))], [sph(V(-20., 1., 3.), 1e-3).build(light(WHITE))]);
    let k = 200_000;
    let (p, q) = (ContainerPdf::new(&a, v3(V::ZERO)), ContainerPdf::new(&b, v3(V::ZERO)));
    if let Some(c) = shares(k, 2, &|| (mix_generate(&p, &q).x > 0.) as usize) {
        must!((c[0] as i64 - c[1] as i64).abs() <= 4, "the sides of a mixture are chosen by {} and {} of {} draws", c[1], c[0], k);
    }
    states(1);
}

/// The density of mixtures toward lights that take up almost none of the directions, or almost all
fn sharp() {
    let mut cases = vec![];
    for e in -5..=2 {
        let s = 10f64.powi(e);
        cases.push(vec![sph(V(3., 4., 0.), s)]);
        cases.push(vec![sph(V(3., 4., 0.), s), quad(V(-1., 2., -1.), V(s, 0., 0.), V(0., 0., s))]);
        cases.push(vec![quad(V(-1., 2., -1.), V(s, 0., 0.), V(0., 0., s)), sph(V(0., 0., 9.), 0.5), tri(V(0., -3., 1.), V(s, -3., 1.), V(0., -3., 1. + s))]);
    }
    par(&cases, |_, shapes| {
        let hs: Vec<Hittables> = shapes.iter().map(|s| s.build(light(WHITE))).collect();
        let o = V(0.1, -0.2, 0.3);
        let n = V(0.3, 0.9, -0.2);
        let mut dirs: Vec<V> = vec![];
        for s in shapes {
            dirs.extend(solid(s, o, 7).into_iter().map(|d| d.0));
        }
        dirs.extend(sphere_points(20));
        for d in dirs {
            let single: f64 = hs.iter().map(|h| h.pdf_value(v3(o), v3(d))).sum::<f64>() / hs.len() as f64;
            let c = ContainerPdf::new(&hs, v3(o));
            let got = c.value(v3(d));
            must!(close(got, single, 1e-9 * (1. + single)), "lights {:?} have density {} in the direction {:?} instead of {}", shapes, got, d, single);
            let cosine = (d.unit().dot(n.unit()) / PI).max(0.);
            for (name, other, x) in [("cosine", CosinePdf::new(v3(n)), cosine), ("sphere", SpherePdf::new(), 1. / (4. * PI))] {
                let want = 0.5 * single + 0.5 * x;
                let (p, q) = (mix_value(&c, &other, v3(d)), mix_value(&other, &c, v3(d)));
                must!(close(p, want, 1e-9 * (1. + want)) && close(q, want, 1e-9 * (1. + want)), "lights {:?} mixed with the {} distribution have density {} or {} in the direction {:?} instead of {}", shapes, name, p, q, d, want);
            }
            transitions(5);
        }
        states(1);
        traces(1);
    });
}

pub fn run() {
    choices();
    sharp();
    let ls = lights();
    let mut cases = vec![];
    for s in &ls {
        for o in points(s) {
            if seen(s, o) {
                cases.push((s.clone(), o));
            }
        }
    }
    note("pairs of light and viewing point", cases.len());
    par(&cases, |_, (s, o)| single(s, *o));
    others();
    mixtures();
    sample(|| "quad light from 72 points: 40x40 cells of the draws, six test functions".into());
    assume("lights are at most 100000 times as far as large, and are not seen from within their plane or surface");
}
