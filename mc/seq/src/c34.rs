//! Laws of vectors, bases, ray distances and intervals.
use crate::kit::*;
use solstrale::geo::vec3::{Vec3, ALMOST_ZERO, ONE_VECTOR, UNIT_Y, ZERO_VECTOR};
use solstrale::geo::{Onb, Ray, Uv};
use solstrale::util::interval::{combine_intervals, Interval, EMPTY_INTERVAL, RAY_INTERVAL, UNIVERSE_INTERVAL};

fn eq(a: Vec3, b: V, e: f64) -> bool {
    vclose(vv(a), b, e)
}

pub fn run() {
    arithmetic();
    optics();
    bases();
    distances();
    intervals();
    sample(|| "all pairs of 127 vectors; lines in 27 positions and 49 directions each, scaled, swapped".into());
}

fn vectors() -> Vec<V> {
    let g = [-2., -0.3, 0., 1., 5.];
    let mut v = grid(&g, &g, &g);
    v.push(V(1e-5, 2e-5, -1e-5));
    v.push(V(1e5, -3e4, 7.));
    v.extend([V(9e-9, 9e-9, -9e-9), V(0., -9e-9, 9e-9), V(0., 0., -1.1e-8), V(1e-9, -1.1e-8, 0.)]);
    if thorough() {
        v.extend(sphere_points(150));
        v.extend(sphere_points(50).into_iter().map(|p| p * 1e3));
    }
    v
}

fn arithmetic() {
    let vs = vectors();
    par(&vs, |_, a| {
        let x = v3(*a);
        must!(vv(x.neg()) == -*a, "-{:?} is {:?}", a, x.neg());
        must!(close(x.length_squared(), a.dot(*a), 1e-12), "squared length of {:?} is {}", a, x.length_squared());
        must!(close(x.length(), a.len(), 1e-12), "length of {:?} is {}", a, x.length());
        must!((0..3).all(|i| x.axis(i as u8) == a.get(i)) && x.axis(7) == a.2, "axes of {:?}", a);
        must!(vv(x.clone()) == *a, "copy of {:?}", a);
        if a.len() > 0. {
            let u = x.unit();
            must!((u.length() - 1.).abs() < 1e-12 && eq(u * x.length(), *a, 1e-12), "unit of {:?} is {:?}", a, u);
        }
        must!(x.near_zero() == (a.max_abs() < ALMOST_ZERO), "near zero of {:?}", a);
        for k in [-2., 0., 0.5, 3., 1e6] {
            must!(eq(x * k, *a * k, 1e-12), "{:?} * {} is {:?}", a, k, x * k);
            must!(eq(x * k as f32, *a * (k as f32 as f64), 1e-12), "{:?} * {} is {:?}", a, k, x * k as f32);
            must!(eq(x + k, *a + V(k, k, k), 1e-12) && eq(x - k, *a - V(k, k, k), 1e-12), "{:?} +- {}", a, k);
            if k != 0. {
                must!(eq(x / k, *a * (1. / k), 1e-12), "{:?} / {} is {:?}", a, k, x / k);
            }
        }
        for b in &vs {
            let y = v3(*b);
            must!(eq(x + y, *a + *b, 1e-13) && eq(x - y, *a - *b, 1e-13), "{:?} +- {:?}: {:?} {:?}", a, b, x + y, x - y);
            let mut z = x;
            z += y;
            must!(vv(z) == vv(x + y), "{:?} += {:?} is {:?}", a, b, z);
            must!(eq(x * y, a.mulv(*b), 1e-13), "{:?} * {:?} is {:?}", a, b, x * y);
            if b.0 * b.1 * b.2 != 0. {
                must!(eq(x / y, V(a.0 / b.0, a.1 / b.1, a.2 / b.2), 1e-12), "{:?} / {:?} is {:?}", a, b, x / y);
            }
            let s = 1e-12 * (1. + a.len() * b.len());
            must!((x.dot(y) - a.dot(*b)).abs() <= s, "{:?} . {:?} is {}", a, b, x.dot(y));
            let c = vv(x.cross(y));
            must!((c - a.cross(*b)).max_abs() <= s, "{:?} x {:?} is {:?}", a, b, c);
            must!((c + vv(y.cross(x))).max_abs() <= s, "{:?} x {:?} is not antisymmetric", a, b);
            must!(c.dot(*a).abs() <= s * a.len() && c.dot(*b).abs() <= s * b.len(), "{:?} x {:?} is not orthogonal", a, b);
            must!(x.length() * y.length() + s >= x.dot(y).abs() && (x + y).length() <= x.length() + y.length() + s, "triangle inequality of {:?} and {:?}", a, b);
            transitions(10);
        }
        states(1);
        traces(vs.len() as u64);
    });
    must!(vv(ZERO_VECTOR) == V::ZERO && vv(ONE_VECTOR) == V(1., 1., 1.) && vv(UNIT_Y) == V(0., 1., 0.), "constants");
    for a in [-1.5f32, 0., 2.] {
        for b in [0f32, 0.25, -7.] {
            let d = Uv::new(a, b) - Uv::new(b, 3. * a);
            must!(d.u == a - b && d.v == b - 3. * a, "difference of texture coordinates {:?}", d);
        }
    }
}

fn optics() {
    let mut dirs: Vec<V> = neighbours().iter().map(|v| v.unit()).collect();
    dirs.extend(sphere_points(tier(40, 200)));
    par(&dirs, |_, n| {
        for v in &dirs {
            for s in [1., 0.2, 30.] {
                let d = *v * s;
                let r = vv(v3(d).reflect(v3(*n)));
                must!(close(r.len(), d.len(), 1e-12) && close(r.dot(*n), -d.dot(*n), 1e-11), "reflection of {:?} at {:?} is {:?}", d, n, r);
                must!(vclose(r - *n * r.dot(*n), d - *n * d.dot(*n), 1e-11), "reflection of {:?} at {:?} leaves the plane: {:?}", d, n, r);
                must!(vclose(vv(v3(r).reflect(v3(*n))), d, 1e-11), "reflection of {:?} at {:?} twice", d, n);
                transitions(2);
            }
            // refraction is for rays against the normal
            let cos = -v.dot(*n);
            if cos < 1e-6 {
                continue;
            }
            let sin = (1. - cos * cos).max(0.).sqrt();
            for ratio in [1., 1. / 1.5, 1.5, 0.4, 2.4, 1.0003] {
                if ratio * sin > 1. - 1e-9 {
                    continue;
                }
                let t = vv(v3(*v).refract(v3(*n), ratio));
                transitions(1);
                must!((t.len() - 1.).abs() < 1e-7, "refraction of {:?} at {:?} by {} has length {}", v, n, ratio, t.len());
                must!(t.dot(*n) < 0., "refraction of {:?} at {:?} by {} does not pass: {:?}", v, n, ratio, t);
                let (a, b) = (*v - *n * v.dot(*n), t - *n * t.dot(*n));
                must!((a * ratio - b).max_abs() < 1e-9, "refraction of {:?} at {:?} by {} breaks Snell's law: {:?}", v, n, ratio, t);
            }
        }
        states(1);
        traces(dirs.len() as u64);
    });
}

fn bases() {
    let mut ws: Vec<V> = neighbours();
    ws.extend(sphere_points(tier(300, 5000)));
    for a in 0..3 {
        for s in [1., -1.] {
            for e in [0., 1e-9, 1e-4, 0.1, 0.43, 0.44, 0.4358, 0.4359] {
                let mut v = [e, e * 0.5, e * 0.25];
                v[a] = s * 1.;
                ws.push(V(v[0], v[1], v[2]));
            }
        }
    }
    par(&ws, |_, w| {
        for s in [1., 1e-6, 1e6, 1e-90, 1e90] {
            let w = *w * s;
            let b = Onb::new(v3(w));
            let l = |v: V| vv(b.local(v3(v)));
            let (x, y, z) = (l(V(1., 0., 0.)), l(V(0., 1., 0.)), l(V(0., 0., 1.)));
            must!(vclose(z, w.unit(), 1e-12), "basis of {:?} has the normal {:?}", w, z);
            for (a, b, want) in [(x, x, 1.), (y, y, 1.), (z, z, 1.), (x, y, 0.), (y, z, 0.), (x, z, 0.)] {
                must!((a.dot(b) - want).abs() < 1e-9, "basis of {:?} is not orthonormal: {:?} {:?} {:?}", w, x, y, z);
            }
            for v in [V(1., 2., 3.), V(-0.3, 0.4, 0.5), V(0., -7., 1e3), V::ZERO] {
                let g = l(v);
                must!(close(g.len(), v.len(), 1e-9) && vclose(g, x * v.0 + y * v.1 + z * v.2, 1e-9), "basis of {:?} maps {:?} to {:?}", w, v, g);
                must!(close(g.dot(w.unit()), v.2, 1e-9), "basis of {:?} maps {:?} to {:?}", w, v, g);
                transitions(1);
            }
        }
        states(1);
        traces(5);
    });
}

/// Own distance of two lines
fn line_distance(o1: V, d1: V, o2: V, d2: V, parallel: bool) -> f64 {
    let (a, b) = (d1.unit(), d2.unit());
    if parallel {
        let w = o2 - o1;
        return (w - a * w.dot(a)).len();
    }
    // minimize |o1 + s a - o2 - t b|
    let w = o1 - o2;
    let k = a.dot(b);
    let den = 1. - k * k;
    let s = (k * b.dot(w) - a.dot(w)) / den;
    let t = (b.dot(w) - k * a.dot(w)) / den;
    (w + a * s - b * t).len()
}

fn distances() {
    let os = grid(&[-3., 0., 1.], &[0., 2., -1.], &[0., 0.5, 4.]);
    let mut ds = neighbours();
    ds.extend(sphere_points(tier(12, 40)));
    ds.push(V(3., -2., 0.1));
    let cases: Vec<(V, V)> = os.iter().flat_map(|o| ds.iter().map(move |d| (*o, *d))).collect();
    par(&cases, |_, (o1, d1)| {
        let mut n = 0;
        for o2 in os.iter().step_by(tier(2, 1)) {
            for d2 in &ds {
                let sin = d1.unit().cross(d2.unit()).len();
                let par = sin < 1e-12;
                if !par && sin < 1e-4 {
                    continue;
                }
                let want = line_distance(*o1, *d1, *o2, *d2, par);
                for (s1, s2) in [(1f64, 1f64), (-3., 1.), (1e-3, 1e3), (1e4, 1e-2), (1e-6, 1e-6), (1e-20, -1e-9), (1e7, 1e6)] {
                    // also starting elsewhere on the same lines
                    let (p1, p2) = (*o1 + *d1 * (s1.min(2.)), *o2 - *d2 * 0.7);
                    let (r1, r2) = (ray(p1, *d1 * s1), ray(p2, *d2 * s2));
                    let (x, y) = (r1.shortest_distance(&r2), r2.shortest_distance(&r1));
                    n += 2;
                    must!((x - want).abs() <= 1e-8 * (1. + want) && (y - want).abs() <= 1e-8 * (1. + want), "distance of the lines {:?} + t {:?} and {:?} + t {:?} is {} and {} instead of {}", p1, *d1 * s1, p2, *d2 * s2, x, y, want);
                }
            }
        }
        let r = ray(*o1, *d1);
        must!(r.shortest_distance(&r).abs() < 1e-9, "distance of the line {:?} + t {:?} to itself is {}", o1, d1, r.shortest_distance(&r));
        for t in [-2., 0., 0.5, 7.] {
            must!(vclose(vv(r.at(t)), *o1 + *d1 * t, 1e-13), "point {} of the ray {:?} {:?} is {:?}", t, o1, d1, r.at(t));
        }
        states(1);
        transitions(n);
        traces(n);
    });
    let _ = Ray::default();
}

fn intervals() {
    let g = [f64::NEG_INFINITY, -1e9, -2., -0.5, 0., 0.5, 1., 3., 1e9, f64::INFINITY];
    let all: Vec<Interval> = g.iter().flat_map(|a| g.iter().map(move |b| Interval::new(*a, *b))).collect();
    for i in &all {
        for x in g {
            let inside = i.min <= x && x <= i.max;
            must!(i.contains(x) == inside, "{:?} contains {}: {}", i, x, i.contains(x));
            if i.min <= i.max {
                let c = i.clamp(x);
                must!(c == x.max(i.min).min(i.max), "{:?} clamps {} to {}", i, x, c);
                must!(i.contains(c) && i.clamp(c) == c, "{:?} clamps {} to {} which is not inside", i, x, c);
            }
            if x.is_finite() {
                let (p, m) = (*i + x, *i - x);
                must!(p == Interval::new(i.min + x, i.max + x), "{:?} + {} is {:?}", i, x, p);
                must!(m == Interval::new(i.min - x, i.max - x), "{:?} - {} is {:?}", i, x, m);
            }
            if x.is_finite() && i.min.is_finite() && i.max.is_finite() {
                let e = i.expand(x);
                must!(close(e.size(), i.size() + x, 1e-9) && close(e.min + e.max, i.min + i.max, 1e-9), "{:?} expanded by {} is {:?}", i, x, e);
            }
            transitions(4);
        }
        if i.min.is_finite() || i.max.is_finite() {
            must!(i.size() == i.max - i.min, "size of {:?} is {}", i, i.size());
        }
        for k in &all {
            let c = combine_intervals(*i, *k);
            must!(c == Interval::new(i.min.min(k.min), i.max.max(k.max)) && c == combine_intervals(*k, *i), "{:?} and {:?} combine to {:?}", i, k, c);
            transitions(1);
        }
        must!(combine_intervals(*i, EMPTY_INTERVAL) == *i && combine_intervals(*i, UNIVERSE_INTERVAL) == UNIVERSE_INTERVAL, "{:?} combined with nothing or everything", i);
        states(1);
        traces(1);
    }
    for x in g {
        must!(!EMPTY_INTERVAL.contains(x) && UNIVERSE_INTERVAL.contains(x) && RAY_INTERVAL.contains(x) == (x > 0.1), "constant intervals and {}", x);
    }
}
