//! Quad intersection, and boxes of quads.
use crate::c16::intervals;
use crate::kit::*;
use solstrale::geo::transformation::{RotationX, RotationY, RotationZ, Scale, Transformations, Transformer, Translation};
use solstrale::hittable::{Hittable, Quad};
use solstrale::util::interval::Interval;

pub fn quads() -> Vec<(V, V, V)> {
    let mut q = vec![
        (V(0., 0., 0.), V(1., 0., 0.), V(0., 1., 0.)),
        (V(-1., 2., 3.), V(0., 2., 0.), V(0., 0., -3.)),
        (V(1., -2., 0.5), V(0., 0., 1.), V(4., 0., 0.)),
        (V(0.3, 0.1, -2.), V(1., 1., 0.2), V(-0.5, 1., 1.)),
        (V(5., 5., 5.), V(-3., 0.1, 0.), V(-2., 1., 0.7)),
        (V(0.01, 0., 0.), V(1e-3, 2e-3, 0.), V(0., 1e-3, 3e-3)),
        (V(-500., 0., -500.), V(0., 0., 1000.), V(1000., 0., 0.)),
        (V(0., 0., 0.), V(10., 0., 0.), V(0., 0.01, 0.)),
    ];
    for k in [1e-7, 1e-4, 1e6] {
        q.push((V(0.3, 0.1, -2.) * k, V(1., 1., 0.2) * k, V(-0.5, 1., 1.) * k));
    }
    if thorough() {
        q.push((V(1e4, -1e4, 3.), V(1., 2., 3.), V(-2., 1., 0.5)));
        q.push((V(0., 0., 0.), V(1e-5, 0., 0.), V(0., 1e-5, 1e-6)));
        q.push((V(-1e5, 7., -1e5), V(2e5, 0., 10.), V(0., 3., 2e5)));
        q.push((V(2., 1., 0.), V(1., 0., 0.), V(0.95, 0.2, 0.)));
    }
    q
}

/// Rays given by a target in the plane's coordinates and an origin relative to it
pub fn run_planar(shape: &Shape, q: V, u: V, v: V, origins: &[V], targets: &[(f64, f64)], what: &str) -> u64 {
    let h = shape.build(matte(GRAY));
    let n = u.cross(v).unit();
    let size = u.len().max(v.len());
    let mut k = 0;
    let mut go = |o: V, d: V| {
        let cs = shape.crossings(o, d);
        let ry = ray(o, d);
        for (lo, hi) in intervals(&cs, false) {
            let got = h.hit(&ry, &Interval::new(lo, hi));
            k += 1;
            if let Err(e) = judge(&cs, o, d, lo, hi, &got) {
                violation(&format!(
                    "{} {:?}, ray from {:?} direction {:?}, interval {}..{}: {} ({})",
                    what, shape, o, d, lo, hi, e, show(&got)
                ));
            }
        }
    };
    // from a point of the plane itself
    for (a, b) in [(0.25, 0.5), (0.5, 0.125), (1.5, 0.5)] {
        let o = q + u * a + v * b;
        for d in [n, -n, n * size + u, u * 0.7 - n * size + v * 0.2] {
            for s in [1., 1e-4, 1e4] {
                go(o, d * s);
            }
        }
    }
    for og in origins {
        let o = q + u * og.0 + v * og.1 + n * (og.2 * size);
        for (a, b) in targets {
            let t = q + u * *a + v * *b;
            let d = t - o;
            if d.len() < 1e-9 * size {
                continue;
            }
            for s in [1., 1e-4, 1e4, -1., 0.37, 1e-9, 1e9] {
                go(o, d * s);
            }
        }
        // parallel to the plane, and to its edges
        for d in [u, v, u + v, u - v, -u] {
            go(o, d);
        }
    }
    k
}

pub fn plane_origins() -> Vec<V> {
    let a: &[f64] = if thorough() { &[-3., -0.5, 0., 0.25, 0.5, 1., 1.7, 6.] } else { &[-3., 0.25, 0.5, 1.7] };
    let b: &[f64] = if thorough() { &[-20., -2., -0.3, -0.01, 0.01, 0.5, 2., 20.] } else { &[-2., -0.1, 0.3, 2., 20.] };
    grid(a, a, b)
}

pub fn plane_targets() -> Vec<(f64, f64)> {
    let a: &[f64] = if thorough() {
        &[-2., -0.5, -0.01, -1e-4, 1e-4, 0.01, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.99, 0.9999, 1.0001, 1.01, 1.5]
    } else {
        &[-0.5, -0.01, 1e-4, 0.01, 0.3, 0.5, 0.7, 0.99, 1.0001, 1.01, 1.5]
    };
    let mut t = vec![];
    for x in a {
        for y in a {
            t.push((*x, *y));
        }
    }
    // close to every side of a quad, and of a triangle
    for e in [4e-6, 3e-5, 5e-4] {
        for x in [0.2, 0.65] {
            t.extend([(x, -e), (x, e), (-e, x), (e, x), (x, 1. + e), (x, 1. - e), (1. + e, x), (1. - e, x)]);
            t.extend([(x, 1. - x + e), (x, 1. - x - e)]);
        }
        t.extend([(-e, -e), (e, e), (1. + e, 1. + e), (1. - e, 1. - e), (-e, 1. + e), (1. + e, -e), (1. + 2. * e, -e), (1. - 3. * e, e), (e, 1. - 3. * e)]);
    }
    t
}

pub fn transformations() -> Vec<(&'static str, Vec<Box<dyn Transformer>>)> {
    vec![
        ("none", vec![]),
        ("translation", vec![Box::new(Translation::new(v3(V(1., -2., 0.5))))]),
        ("rotation x, y, z", vec![Box::new(RotationX::new(30.)), Box::new(RotationY::new(-50.)), Box::new(RotationZ::new(110.))]),
        ("quarter turn x", vec![Box::new(RotationX::new(90.))]),
        ("half turn y", vec![Box::new(RotationY::new(180.))]),
        ("quarter turns z, y", vec![Box::new(RotationZ::new(270.)), Box::new(RotationY::new(-90.))]),
        (
            "scale, rotation y, translation",
            vec![Box::new(Scale::new(2.5)), Box::new(RotationY::new(45.)), Box::new(Translation::new(v3(V(3., 3., 3.))))],
        ),
    ]
}

pub fn run() {
    let (origins, targets) = (plane_origins(), plane_targets());
    let cases: Vec<((V, V, V), V)> = quads().into_iter().flat_map(|q| origins.iter().map(move |o| (q, *o))).collect();
    par(&cases, |_, ((q, u, v), o)| {
        let k = run_planar(&quad(*q, *u, *v), *q, *u, *v, &[*o], &targets, "quad");
        states(1);
        transitions(k);
        traces(k);
    });
    boxes();
    note("bounds", format!("{} quads x {} origins x {} targets x 5 scalings x up to 8 intervals, and boxes", quads().len(), origins.len(), targets.len()));
    assume("rays within rounding distance of a quad's outline may be judged either way, except that a box must not leak there for coordinates without rounding errors");
}

fn boxes() {
    let corners = [
        (V(0., 0., 0.), V(1., 1., 1.)),
        (V(1., 1., 1.), V(0., 0., 0.)),
        (V(-2., 1., 4.), V(0., -1., 8.)),
        (V(2., -1., -4.), V(0., 3., 0.)),
        (V(-1., -2., 0.5), V(1., 2., 0.75)),
        // thin and tiny
        (V(0., 0., 0.5), V(1., 1., 0.5 + 1. / 4096.)),
        (V(0., 1., 0.), V(-1e-3, 3., 2.)),
        (V(0., 0., 0.), V(1. / 512., 1. / 4096., 1. / 1024.)),
    ];
    let mut cases = vec![];
    for c in corners {
        for t in 0..transformations().len() {
            cases.push((c, t));
        }
    }
    par(&cases, |_, ((a, b), t)| {
        let tr = transformations().remove(*t);
        let name = tr.0;
        let tr = solstrale::geo::transformation::Transformations::new(tr.1);
        let apply = |p: V| vv(tr.transform(v3(p), false));
        let turn = |p: V| vv(tr.transform(v3(p), true));
        let sides = Quad::new_box(v3(*a), v3(*b), matte(GRAY), &tr);
        must!(sides.len() == 6, "a box has {} sides", sides.len());
        let (lo, hi) = bounds_of(&[*a, *b]);
        let world = bvh(sides.clone());
        let shapes = box_shapes(lo, hi);
        let d = hi - lo;
        let f: &[f64] = if thorough() { &[-2., -0.7, -0.1, 0.1, 0.3, 0.5, 0.8, 1.2, 2., 9.] } else { &[-2., -0.1, 0.2, 0.5, 0.8, 1.3, 4.] };
        let origins = grid(f, f, f);
        let mut dirs = neighbours();
        dirs.extend(sphere_points(tier(60, 400)));
        let mut n = 0;
        for g in &origins {
            let o = lo + g.mulv(d);
            let inside = [g.0, g.1, g.2].iter().all(|c| *c > 0. && *c < 1.);
            for dir in &dirs {
                for s in [1., 1e-3, 300.] {
                    let dd = *dir * s;
                    let cs: Vec<Cross> = crossings_of(&shapes, o, dd);
                    if cs.iter().any(|c| !c.sure) {
                        continue;
                    }
                    let want = cs.iter().filter(|c| c.t > 0.).count();
                    let r = ray(apply(o), turn(dd));
                    n += 1;
                    let hits: Vec<_> = sides.iter().filter_map(|q| q.hit(&r, &Interval::new(0., f64::INFINITY))).collect();
                    let ctx = || format!("box {:?} {:?} with {}, ray from {:?} direction {:?} (before transformation)", a, b, name, o, dd);
                    must!(hits.len() == want, "{}: crosses {} sides instead of {}", ctx(), hits.len(), want);
                    must!((want % 2 == 1) == inside, "reference is wrong");
                    let first = world.hit(&r, &Interval::new(0., f64::INFINITY));
                    match first {
                        None => must!(want == 0, "{}: no hit", ctx()),
                        Some(h) => {
                            must!(h.front_face != inside, "{}: first hit is {} but the origin is {}", ctx(), if h.front_face { "at a front side" } else { "at a back side" }, if inside { "inside" } else { "outside" });
                            let w = cs.iter().filter(|c| c.t > 0.).min_by(|x, y| x.t.total_cmp(&y.t)).unwrap();
                            must!(close(w.t, h.ray_length, 1e-6), "{}: first hit at {} instead of {}", ctx(), h.ray_length, w.t);
                            must!(vclose(apply(w.p), vv(h.hit_point), 1e-6), "{}: hit point {:?} instead of {:?}", ctx(), vv(h.hit_point), apply(w.p));
                        }
                    }
                }
            }
        }
        // no leaks at edges and corners: only directions and distances that are exact in binary
        if *t <= 1 {
            let h: Vec<f64> = vec![0., 0.25, 0.5, 0.75, 1.];
            for g in grid(&h, &h, &h) {
                let edges = [g.0, g.1, g.2].iter().filter(|c| **c == 0. || **c == 1.).count();
                if edges < 2 {
                    continue;
                }
                let p = lo + g.mulv(d);
                let e = [-2., -1., -0.5, 0., 0.5, 1., 2.];
                for dir in grid(&e, &e, &e) {
                    if dir == V::ZERO {
                        continue;
                    }
                    for dist in [0.125, 0.25, 0.5, 1., 4.] {
                        let o = p - dir * dist;
                        let l = (o - lo).mulv(V(1. / d.0, 1. / d.1, 1. / d.2));
                        let inside = [l.0, l.1, l.2].iter().all(|c| *c > 0. && *c < 1.);
                        if !inside {
                            continue;
                        }
                        n += 1;
                        let r = ray(apply(o), dir);
                        let one = sides.iter().any(|q| q.hit(&r, &Interval::new(0., f64::INFINITY)).is_some());
                        let got = world.hit(&r, &Interval::new(0., f64::INFINITY));
                        must!(one && got.is_some(), "box {:?} {:?} with {}: ray from {:?} direction {:?} from inside leaks out at the edge point {:?}", a, b, name, o, dir, p);
                        must!(got.is_some_and(|h| !h.front_face), "box {:?} {:?} with {}: ray from {:?} direction {:?} from inside hits a front side", a, b, name, o, dir);
                    }
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    let _ = Transformations::new(vec![]);
    sample(|| "boxes with swapped corners and transformations: number, order and sides of all crossings, leaks at edges".into());
}
