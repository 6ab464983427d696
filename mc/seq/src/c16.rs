//! Sphere intersection against the closed formula, for all rays of a finite alphabet.
use crate::kit::*;
use solstrale::hittable::Hittable;
use solstrale::util::interval::Interval;

/// Intervals that separate every case around the given crossings
pub fn intervals(cs: &[Cross], full: bool) -> Vec<(f64, f64)> {
    let inf = f64::INFINITY;
    let mut v = vec![(0.001, inf), (-inf, inf), (0., inf)];
    let mut t: Vec<f64> = cs.iter().map(|c| c.t).collect();
    t.sort_by(f64::total_cmp);
    if t.is_empty() || full {
        v.push((-5., 5.));
    }
    for w in t.windows(2) {
        let m = 0.5 * (w[0] + w[1]);
        v.push((m, inf));
        v.push((-inf, m));
    }
    if let (Some(a), Some(b)) = (t.first(), t.last()) {
        let s = a.abs().max(b.abs()).max(1e-9);
        v.push((a - s, *a - 0.01 * s));
        v.push((b + 0.01 * s, inf));
        v.push((a - 0.01 * s, a + 0.01 * s));
        v.push((b - 0.01 * s, b + 0.01 * s));
    }
    v
}

pub fn run() {
    let mut spheres = vec![
        (V(0., 0., 0.), 1.),
        (V(1., -2., 3.), 0.5),
        (V(100., 3., 0.), 50.),
        (V(0.1, 0.2, -0.3), 1e-3),
        (V(0., -1000., 0.), 1000.),
    ];
    if thorough() {
        spheres.push((V(-1e4, 1e4, 1e4), 1.));
        spheres.push((V(1e-3, 0., 0.), 1e-5));
        spheres.push((V(0., 0., 0.), 1e6));
        spheres.push((V(-3., 7., 11.), 2.));
    }
    let g: &[f64] = if thorough() {
        &[-30., -3., -1.5, -1., -0.5, 0., 0.3, 0.7, 1.2, 2., 10.]
    } else {
        &[-3., -1.5, -0.5, 0., 0.7, 2., 10.]
    };
    let origins = grid(g, g, g);
    let mut targets = vec![V(0., 0., 0.)];
    for n in neighbours() {
        for s in [0.3, 0.9, 1.0, 1.1] {
            targets.push(n.unit() * s);
        }
    }
    for p in sphere_points(tier(12, 60)) {
        targets.push(p);
    }
    let scalings: &[f64] = &[1., 1e-4, 1e4, 0.37, 1e-9, 1e9];
    let cases: Vec<(V, f64, V)> =
        spheres.iter().flat_map(|s| origins.iter().map(move |o| (s.0, s.1, s.0 + *o * s.1))).collect();
    par(&cases, |_, (c, r, o)| {
        let shape = sph(*c, *r);
        let h = shape.build(matte(GRAY));
        let mut n = 0;
        for t in &targets {
            let d0 = *c + *t * *r - *o;
            if d0.len() < 1e-9 * *r {
                continue;
            }
            // also away from the sphere
            for s in scalings.iter().chain([-1.].iter()) {
                let d = d0 * *s;
                let ry = ray(*o, d);
                let cs = shape.crossings(*o, d);
                for (lo, hi) in intervals(&cs, false) {
                    let got = h.hit(&ry, &Interval::new(lo, hi));
                    n += 1;
                    if let Err(e) = judge(&cs, *o, d, lo, hi, &got) {
                        violation(&format!(
                            "sphere center {:?} radius {}, ray from {:?} direction {:?}, interval {}..{}: {} ({})",
                            c, r, o, d, lo, hi, e, show(&got)
                        ));
                    }
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    far();
    sample(|| "sphere (1,-2,3) radius 0.5, 343 origins x targets x 5 scalings x intervals, against the quadratic's closed form".into());
    note("bounds", format!("{} spheres x {} origins x {} targets x 5 scalings x up to 9 intervals", spheres.len(), origins.len(), targets.len()));
    assume("rays within rounding distance of the outline may be judged either way");
}

/// Spheres far away for their size: hit when aimed well within, missed when aimed beside
fn far() {
    let dirs = sphere_points(tier(40, 300));
    let ratios = [3e3, 1e5, 9e5, 3e6];
    let cases: Vec<(V, f64, f64)> = dirs.iter().flat_map(|d| ratios.map(|k| [1e-3, 0.5, 40., 1e5].map(|r| (*d, k, r)))).flatten().collect();
    par(&cases, |_, (dir, k, r)| {
        let c = V(0.3, -0.2, 0.1) * *r;
        let h = sph(c, *r).build(matte(GRAY));
        let o = c - *dir * (k * r);
        let (a, b) = crate::c23::frame(*dir);
        for i in 0..8 {
            let (sin, cos) = (i as f64 * std::f64::consts::FRAC_PI_4).sin_cos();
            for (off, want) in [(0., true), (0.3, true), (0.7, true), (1.5, false), (3., false)] {
                let side = a * (cos * off * r) + b * (sin * off * r);
                for len in [1., 1. / (k * r), 1e-3] {
                    let d = (c + side - o) * len;
                    let got = h.hit(&ray(o, d), &Interval::new(0.001, f64::INFINITY));
                    let what = || format!("sphere of radius {} at a distance of {} radii, ray aimed {} radii beside its center, direction {:?}: {}", r, k, off, d, show(&got));
                    must!(got.is_some() == want, "{}", what());
                    if let Some(g) = &got {
                        // the nearer crossing, as far as rounding allows
                        let depth = (k * r - (1. - off * off).sqrt() * r) / (k * r) / len;
                        must!((g.ray_length - depth).abs() <= (0.02 / k + 1e-15 * k) / len, "{}: at {} instead of {}", what(), g.ray_length, depth);
                        must!(g.front_face, "{}: seen from inside", what());
                    }
                    transitions(1);
                    traces(1);
                }
            }
        }
        states(1);
    });
    note("spheres far away", cases.len());
}
