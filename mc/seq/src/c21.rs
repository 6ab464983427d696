//! Fog: for every ray of a grid the depths of scattering over all cells of the draw that decides.
use crate::kit::*;
use fastrand::mc_hook::encode;
use solstrale::geo::transformation::{RotationX, RotationY, Transformations, Translation};
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad};
use solstrale::material::{Material, RayScatter};
use solstrale::util::interval::Interval;

struct Boundary {
    name: &'static str,
    faces: Vec<Shape>,
    object: Hittables,
}

fn tetra(p: [V; 4]) -> Vec<Shape> {
    vec![tri(p[0], p[2], p[1]), tri(p[0], p[1], p[3]), tri(p[1], p[2], p[3]), tri(p[2], p[0], p[3])]
}

fn boundaries() -> Vec<Boundary> {
    let mut v = vec![];
    let m = || matte(GRAY);
    let mut add = |name, faces: Vec<Shape>, object| v.push(Boundary { name, faces, object });
    for (name, c, r) in [("sphere", V(0., 0., 0.), 1.), ("big sphere", V(3., -2., 1.), 40.), ("small sphere", V(0.5, 0.1, -0.2), 0.1), ("tiny sphere", V(0.05, 0.1, -0.02), 6e-4), ("giant sphere", V(5e4, 1e3, 100.), 1e5)] {
        let s = sph(c, r);
        add(name, vec![s.clone()], s.build(m()));
    }
    let list = |f: &[Shape]| -> Vec<Hittables> { f.iter().map(|s| s.build(m())).collect() };
    let b = box_shapes(V(-1., -0.5, -2.), V(1.5, 0.7, 1.));
    add("box", b.clone(), bvh(list(&b)));
    let mut rev = list(&b);
    rev.reverse();
    add("nested box", b.clone(), bvh(vec![bvh(vec![]), bvh(vec![bvh(rev.split_off(3)), bvh(rev)])]));
    add("box of sides", b.clone(), bvh(Quad::new_box(v3(V(-1., -0.5, -2.)), v3(V(1.5, 0.7, 1.)), m(), &nop())));
    let mut halves = vec![];
    for s in &b {
        if let Shape::Quad { q, u, v } = s {
            halves.push(tri(*q, *q + *u, *q + *u + *v));
            halves.push(tri(*q, *q + *u + *v, *q + *v));
        }
    }
    add("box of triangles", b.clone(), bvh(list(&halves)));
    let t = tetra([V(-1., -1., -1.), V(1.5, -0.5, -0.8), V(0., 1.8, -0.3), V(0.1, 0.2, 2.)]);
    add("tetrahedron", t.clone(), bvh(list(&t)));
    // a turned box, by the transformation of the code and by own corners
    let (a, c) = (30f64.to_radians().sin_cos(), (-50f64).to_radians().sin_cos());
    let turn = |p: V| {
        let p = V(c.1 * p.0 + c.0 * p.2, p.1, c.1 * p.2 - c.0 * p.0);
        let _ = a;
        p
    };
    let move_ = V(0.3, 0.2, -0.1);
    let faces: Vec<Shape> = box_shapes(V(-1., -1., -1.), V(1., 0.5, 1.))
        .iter()
        .map(|s| match s {
            Shape::Quad { q, u, v } => quad(turn(*q) + move_, turn(*u), turn(*v)),
            _ => unreachable!(),
        })
        .collect();
    let tr = Transformations::new(vec![Box::new(RotationX::new(0.)), Box::new(RotationY::new(-50.)), Box::new(Translation::new(v3(move_)))]);
    add("turned box", faces, bvh(Quad::new_box(v3(V(-1., -1., -1.)), v3(V(1., 0.5, 1.)), m(), &tr)));
    v
}

fn rays(b: &Boundary) -> Vec<(V, V)> {
    let all: Vec<V> = b.faces.iter().flat_map(|f| [f.bounds().0, f.bounds().1]).collect();
    let (lo, hi) = bounds_of(&all);
    let c = (lo + hi) * 0.5;
    let s = (hi - lo).max_abs() * 0.5;
    let mut v = vec![];
    let dirs = sphere_points(tier(14, 60));
    for p in &dirs {
        for t in [V(0., 0., 0.), V(0.2, -0.3, 0.1), V(-0.5, 0.4, 0.45), V(0.9, 0.2, 0.)] {
            let o = c + *p * (3. * s);
            v.push((o, c + t * s - o));
            // away from it
            v.push((o, o - c + t * s));
        }
        // from within
        for t in [V(0.05, 0.02, -0.1), V(0.2, 0.1, -0.15)] {
            v.push((c + t * s, *p));
        }
    }
    // along the axes
    for a in [V(1., 0., 0.), V(0., 1., 0.), V(0., 0., 1.)] {
        v.push((c + V(0.05, 0.02, -0.1) * s - a * (4. * s), a));
        v.push((c + V(0.05, 0.02, -0.1) * s + a * (4. * s), -a));
        v.push((c + V(0.05, 0.02, -0.1) * s, -a));
    }
    v
}

/// Distance where the ray enters and leaves; None if it misses, Err if it grazes
fn stretch(b: &Boundary, o: V, d: V) -> Result<Option<(f64, f64)>, ()> {
    let cs = crossings_of(&b.faces, o, d);
    if cs.is_empty() {
        return Ok(None);
    }
    if cs.len() != 2 || cs.iter().any(|c| !c.sure) {
        return Err(());
    }
    Ok(Some((cs[0].t.min(cs[1].t), cs[0].t.max(cs[1].t))))
}

type Out = Option<(f64, V, V)>;

fn hit(fog: &Hittables, o: V, d: V, i: &Interval, bits: &[u64]) -> Result<Out, String> {
    let r = ray(o, d);
    with_bits(bits, encode(0.6), || guarded(|| fog.hit(&r, i).map(|h| (h.ray_length, vv(h.hit_point), vv(h.normal))))).0
}

/// Position of the draw that decides about scattering, for a ray that passes the fog
fn deciding(fog: &Hittables, o: V, d: V, i: &Interval) -> Option<usize> {
    (0..8).find(|p| {
        let mut seen: Vec<Option<f64>> = vec![];
        for x in [1e-12, 0.2, 0.5, 0.8, 1. - 1e-12] {
            let mut bits = vec![encode(0.6); *p];
            bits.push(encode(x));
            if let Ok(h) = hit(fog, o, d, i, &bits) {
                let t = h.map(|h| h.0);
                if !seen.contains(&t) {
                    seen.push(t);
                }
            }
        }
        seen.len() > 1
    })
}

pub fn run() {
    let bs = boundaries();
    let densities = tier(vec![0.05, 0.8, 20., 1000.], vec![0.001, 0.05, 0.3, 0.8, 3., 20., 1000.]);
    let mut cases = vec![];
    for (bi, b) in bs.iter().enumerate() {
        for (o, d) in rays(b) {
            cases.push((bi, o, d));
        }
    }
    let k = tier(100usize, 600);
    let kept = std::sync::atomic::AtomicU64::new(0);
    par(&cases, |ci, (bi, o, d)| {
        let b = &bs[*bi];
        for den in densities.iter().chain(if b.name == "giant sphere" { &[1e-6, 1e-5][..] } else { &[] }) {
            let color = V(0.3, 0.8, 0.5);
            let fog = ConstantMedium::new(b.object.clone(), *den, v3(color));
            for scale in [1., 1e-3, 40., 3e-9, 1e5] {
                let d = d.unit() * scale;
                let Ok(st) = stretch(b, *o, d) else { continue };
                let mut intervals = vec![(0.001 / scale, f64::INFINITY)];
                if let Some((a, e)) = st {
                    if e > 0. {
                        let a = a.max(0.);
                        let m = a + (e - a) * 0.4;
                        intervals.extend([(0.001 / scale, m), (m, f64::INFINITY), (m, m + (e - a) * 0.2), (e + (e - a), f64::INFINITY), (0., a * 0.9), (0., e + 1. / scale)]);
                    }
                }
                for (lo, hi) in intervals {
                    let i = Interval::new(lo, hi);
                    let what = |s: String| format!("{}; fog of density {} in a {} seen from {:?} in direction {:?} within {}..{}", s, den, b.name, o, d, lo, hi);
                    let inside = st.map(|(a, e)| (a.max(lo).max(0.), e.min(hi)));
                    let (from, s) = match inside {
                        Some((a, e)) if e > a => (a, (e - a) * scale),
                        _ => (0., 0.),
                    };
                    states(1);
                    if s <= 0. {
                        for x in [0., 0.3, 0.6, 1. - 1e-12] {
                            match hit(&fog, *o, d, &i, &[encode(x)]) {
                                Ok(None) => {}
                                Ok(Some(h)) => violation(&what(format!("scatters at {} although the ray does not pass it", h.0))),
                                Err(e) => violation(&what(format!("panic {}", e))),
                            }
                            traces(1);
                        }
                        continue;
                    }
                    if s < 3e-4 {
                        continue;
                    }
                    kept.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let p = 1. - (-den * s).exp();
                    // always or never, where the sure draws say so
                    let Some(at) = deciding(&fog, *o, d, &i) else {
                        violation(&what(format!("does not depend on random numbers over a stretch of {}", s)));
                    };
                    let mut depths = vec![];
                    for c in cells(k) {
                        let mut bits = vec![encode(0.6); at];
                        bits.push(c);
                        match hit(&fog, *o, d, &i, &bits) {
                            Ok(None) => {}
                            Err(e) => violation(&what(format!("panic {}", e))),
                            Ok(Some((t, hp, n))) => {
                                let depth = (t - from) * scale;
                                let tol = 1e-6 * (1. + s + o.max_abs());
                                must!(depth >= -tol && depth <= s + tol, "{}", what(format!("scatters at depth {} of a stretch of {}", depth, s)));
                                must!(t >= lo && t <= hi, "{}", what(format!("scatters at {}", t)));
                                must!((hp - (*o + d * t)).max_abs() < tol, "{}", what(format!("reports the point {:?} for {}", hp, t)));
                                must!((n.len() - 1.).abs() < 1e-9, "{}", what(format!("reports the normal {:?}", n)));
                                depths.push(depth);
                            }
                        }
                        transitions(1);
                    }
                    traces(k as u64);
                    let share = depths.len() as f64 / k as f64;
                    must!((share - p).abs() <= 1.6 / k as f64, "{}", what(format!("scatters with probability {} instead of {} over a stretch of {}", share, p, s)));
                    depths.sort_by(f64::total_cmp);
                    let quantile = |x: f64| -(1. - x.clamp(0., 1.)).ln() / den;
                    for (j, x) in depths.iter().enumerate() {
                        let (a, e) = (quantile((j as f64 - 0.6) / k as f64), quantile((j as f64 + 1.6) / k as f64));
                        let tol = 1e-5 * (1. + s);
                        must!(*x >= a - tol && *x <= e + tol, "{}", what(format!("the {}th of {} depths is {} instead of {}", j, k, x, quantile((j as f64 + 0.5) / k as f64))));
                    }
                    // rare depths: with a depth that only grows, or only shrinks, with the draw, each draw decides its own quantile
                    let rare: Vec<f64> = (1..=16).map(|j| 0.5f64.powi(j)).collect();
                    let us: Vec<f64> = rare.iter().rev().copied().chain(rare.iter().skip(1).map(|x| 1. - x)).collect();
                    let mut ds = vec![];
                    for u in &us {
                        let mut bits = vec![encode(0.6); at];
                        bits.push(encode(*u));
                        let d = hit(&fog, *o, d, &i, &bits).ok().flatten().map_or(f64::INFINITY, |h| (h.0 - from) * scale);
                        ds.push(d);
                        transitions(1);
                    }
                    let grows = ds.windows(2).all(|w| w[0] <= w[1]);
                    let shrinks = ds.windows(2).all(|w| w[0] >= w[1]);
                    if grows != shrinks {
                        for (u, d) in us.iter().zip(&ds) {
                            let rest = if grows { 1. - u } else { *u };
                            let q = |f: f64| -(rest * f).min(1.).ln() / den;
                            let (a, e) = (q(1.02), q(0.98));
                            let tol = 1e-5 * (1. + s);
                            let fine = if d.is_finite() { *d >= a - tol && *d <= e + tol } else { e >= s - tol };
                            must!(fine, "{}", what(format!("the depth passed by one ray in {} is {} instead of {}", 1. / rest, d, q(1.))));
                        }
                    }
                    // extreme draws
                    let alph = |_: usize| extremes();
                    if ci % 5 == 0 {
                        let r = ray(*o, d);
                        let n = tree(&alph, tier(3, 4), encode(0.6), || guarded(|| fog.hit(&r, &i).map(|h| (h.ray_length, vv(h.hit_point), vv(h.normal)))), |g, l| match g {
                            Err(e) => violation(&what(format!("panic {} for the draws {:?}", e, l.choice))),
                            Ok(Some((t, p, n))) => must!(
                                t.is_finite() && (t - from) * scale > -1e-6 * (1. + s + o.max_abs()) && (t - from) * scale <= s + 1e-6 * (1. + s + o.max_abs()) && p.finite() && (n.len() - 1.).abs() < 1e-9,
                                "{}", what(format!("hit at {} {:?} normal {:?} for the draws {:?}", t, p, n, l.choice))
                            ),
                            Ok(None) => {}
                        });
                        traces(n);
                        // the particle has the color of the fog and starts where it was hit
                        let (h, _) = with_bits(&[encode(0.999_999)], encode(0.6), || fog.hit(&r, &i));
                        if let Some(h) = h {
                            let lights = [far_light()];
                            let (s, _) = with_stream(3, || h.material.scatter(&r, &h, &lights));
                            match s {
                                RayScatter::ScatterPdf(s) => {
                                    must!(vv(s.color) == color, "{}", what(format!("scatters with the color {:?}", vv(s.color))));
                                    must!(vv(s.ray.origin) == vv(h.hit_point), "{}", what(format!("scatters from {:?} instead of {:?}", vv(s.ray.origin), vv(h.hit_point))));
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
    });
    note("stretches of fog", kept.load(std::sync::atomic::Ordering::SeqCst));
    sample(|| format!("tetrahedron of triangles, density 0.8, ray from within: {} cells of the deciding draw", k));
    assume("boundaries are thicker than 0.0002 where they are crossed");
}
