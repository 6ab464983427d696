//! Mirrors and glass against the laws of optics.
use crate::kit::*;
use fastrand::mc_hook::encode;
use solstrale::geo::{Onb, Uv};
use solstrale::hittable::Hittable;
use solstrale::material::{Dielectric, Material, Materials, Metal, RayHit, RayScatter};

fn onb(n: V) -> Onb {
    Onb::new(v3(n))
}
/// Two directions along the surface
fn frame(n: V) -> (V, V) {
    let a = if n.0.abs() < 0.9 { V(1., 0., 0.) } else { V(0., 1., 0.) };
    let t = a.cross(n).unit();
    (t, n.cross(t))
}

fn scatter(m: &Materials, h: &RayHit, o: V, d: V, bits: &[u64]) -> (V, V, V) {
    let lights = [far_light()];
    match with_bits(bits, encode(0.6), || guarded(|| m.scatter(&ray(o, d), h, &lights))).0 {
        Err(e) => violation(&format!("scattering panics with {}: {:?} in direction {:?}", e, m, d)),
        Ok(RayScatter::ScatterBasic(s)) => (vv(s.color), vv(s.ray.origin), vv(s.ray.direction)),
        Ok(_) => violation(&format!("{:?} scatters like no mirror or glass", m)),
    }
}

fn angle(a: V, b: V) -> f64 {
    let (a, b) = (a.unit(), b.unit());
    a.cross(b).len().atan2(a.dot(b))
}

/// Hits: normal, incoming direction against it
fn hits() -> Vec<(V, V)> {
    let mut v = vec![];
    for n in sphere_points(tier(40, 150)) {
        let (t, b) = frame(n);
        for i in 0..tier(20, 60) {
            let a = (i as f64 + 0.5) / tier(20., 60.) * std::f64::consts::FRAC_PI_2;
            for phi in [0.3, 2.5, 4.] {
                let phi: f64 = phi;
                v.push((n, (t * phi.cos() + b * phi.sin()) * a.sin() - n * a.cos()));
            }
        }
        v.push((n, -n));
        let g: f64 = 1e-3;
        v.push((n, t * g.cos() - n * g.sin()));
    }
    for a in [V(1., 0., 0.), V(0., 1., 0.), V(0., 0., 1.)] {
        for s in [-1., 1.] {
            v.push((a * s, -a * s));
            for x in neighbours() {
                if x.unit().dot(a * s) < -0.1 {
                    v.push((a * s, x.unit()));
                }
            }
        }
    }
    v
}

fn textures() -> Vec<(solstrale::material::texture::Textures, Uv, V)> {
    vec![
        (tex(V(0.3, 0.7, 0.9)), Uv::new(0.2, 0.4), V(0.3, 0.7, 0.9)),
        (image_tex(2, 2, |x, y| [100 * x as u8 + 50, 80 * y as u8 + 25, 255]), Uv::new(0.7, 0.8), V(150. / 255., 25. / 255., 1.)),
    ]
}

fn metals() {
    let hs = hits();
    par(&hs, |hi, (n, d)| {
        for fuzz in [0., 1e-3, 0.2, 0.5, 0.99, 1., 3.] {
            for (ti, (t, uv, color)) in textures().into_iter().enumerate() {
                let m = Metal::new(t, None, fuzz);
                for (scale, at, front) in [(1., V(0.1, 0.2, 0.3), true), (37., V(-5., 0., 1e3), false), (1e-4, V(0., 0., 0.), true), (1.0004 / d.len(), V(2., 0., 1.), false), (0.99996 / d.len(), V(0., -1., 0.), true)] {
                    let d = *d * scale;
                    let h = RayHit::new(v3(at), onb(*n), &m, 1., uv, front);
                    let mirror = d.unit().reflect(*n);
                    let mut far: f64 = 0.;
                    let mut sum = V::ZERO;
                    let deep = if fuzz == 0. || ti > 0 || hi % 4 > 0 { 2 } else { tier(3, 4) };
                    let all = |bits: &[u64], far: &mut f64, sum: &mut V, what: &dyn std::fmt::Debug| {
                        let (c, p, dir) = scatter(&m, &h, at - d, d, bits);
                        must!(c == color || vclose(c, color, 1e-6), "a mirror of color {:?} scatters with {:?}", color, c);
                        must!(p == at, "a mirror hit at {:?} scatters from {:?}", at, p);
                        must!(dir.finite(), "a mirror with fuzz {} scatters to {:?}, draws {:?}", fuzz, dir, what);
                        if fuzz < 1. {
                            let a = angle(dir, mirror);
                            must!(a <= f64::asin(fuzz) + 1e-7, "a mirror with fuzz {} hit along {:?} with normal {:?} scatters to {:?}, {} off the mirror direction {:?}, draws {:?}", fuzz, d, n, dir, a, mirror, what);
                            *far = far.max(a);
                        } else if dir.len() > 1e-9 {
                            *far = far.max(angle(dir, mirror));
                            must!((dir - mirror).len() <= fuzz + 1e-7 || (dir.len() - 1.).abs() < 1e-9, "a mirror with fuzz {} scatters to {:?} instead of around {:?}, draws {:?}", fuzz, dir, mirror, what);
                        }
                        *sum = *sum + dir;
                    };
                    let mut cnt = 0u64;
                    for c in product(&vec![5; deep]) {
                        let e = extremes();
                        let bits: Vec<u64> = c.iter().map(|i| e[*i]).collect();
                        all(&bits, &mut far, &mut sum, &c);
                        cnt += 1;
                    }
                    // evenly over the perturbations
                    if ti == 0 && hi % 4 == 0 {
                        let mut sum = V::ZERO;
                        let mut far: f64 = 0.;
                        let mut w = 0.;
                        let k = tier(8, 12);
                        for c in product(&[k, k, k]) {
                            let x: Vec<f64> = c.iter().map(|i| (*i as f64 + 0.5) / k as f64).collect();
                            // within the ball: no further draws
                            let r: f64 = x.iter().map(|x| (2. * x - 1.) * (2. * x - 1.)).sum();
                            if r >= 1. {
                                continue;
                            }
                            let bits: Vec<u64> = x.iter().map(|x| encode(*x)).collect();
                            all(&bits, &mut far, &mut sum, &c);
                            w += 1.;
                            cnt += 1;
                        }
                        let mean = sum * (1. / w);
                        must!(angle(mean, mirror) < 1e-6, "a mirror with fuzz {} does not scatter evenly around {:?} but around {:?}", fuzz, mirror, mean.unit());
                        if fuzz > 0. && fuzz < 1. {
                            must!(far > 0.7 * f64::asin(fuzz * 0.9), "a mirror with fuzz {} scatters at most {} off the mirror direction", fuzz, far);
                        }
                        must!(fuzz <= 1. || far > 2., "a mirror with fuzz {} scatters at most {} off the mirror direction", fuzz, far);
                    }
                    transitions(cnt);
                    traces(cnt);
                    states(1);
                }
            }
        }
    });
}

fn schlick(cosine: f64, n: f64) -> f64 {
    let r = ((1. - n) / (1. + n)).powi(2);
    r + (1. - r) * (1. - cosine).powi(5)
}

fn glasses() {
    let hs = hits();
    let k = tier(200usize, 1000);
    let cs = cells(k);
    par(&hs, |hi, (n, d)| {
        for ior in [1.5, 1.0001, 2.4, 0.6, 10., 0.1] {
            for front in [true, false] {
                let scale = [1., 1e-3, 55., 1.00004, 0.9996][hi % 5];
                let (t, uv, color) = textures().swap_remove(hi % 2);
                let m = Dielectric::new(t, None, ior);
                let at = V(0.3, -2., 7.);
                let du = d.unit();
                let d = du * scale;
                let h = RayHit::new(v3(at), onb(*n), &m, 1., uv, front);
                let ratio = if front { 1. / ior } else { ior };
                let c = -du.dot(*n);
                let perp = (du + *n * c) * ratio;
                let s2 = perp.dot(perp);
                if (s2 - 1.).abs() < 1e-6 {
                    continue;
                }
                let mirror = du.reflect(*n);
                let bent = if s2 < 1. { Some(perp - *n * (1. - s2).sqrt()) } else { None };
                let what = || format!("glass of index {} hit along {:?} with normal {:?} from {}", ior, d, n, if front { "outside" } else { "inside" });
                let kind = |bits: &[u64]| -> bool {
                    let (c, p, dir) = scatter(&m, &h, at - d, d, bits);
                    must!(vclose(c, color, 1e-6), "{} scatters with the color {:?} instead of {:?}", what(), c, color);
                    must!(p == at, "{} scatters from {:?} instead of {:?}", what(), p, at);
                    let tol = 1e-6;
                    let reflects = angle(dir, mirror) < tol;
                    let bends = bent.is_some_and(|b| angle(dir, b) < tol.max(1e-8 / (1. - s2).sqrt()));
                    must!(reflects || bends, "{} scatters to {:?}, neither mirrored ({:?}) nor bent ({:?})", what(), dir.unit(), mirror, bent);
                    // straight on along the surface both are the same
                    reflects
                };
                states(1);
                if bent.is_none() || angle(bent.unwrap(), mirror) < 1e-4 {
                    for x in extremes() {
                        must!(kind(&[x]), "{} is not mirrored beyond the critical angle", what());
                        traces(1);
                    }
                    continue;
                }
                // the draw that decides
                let want = schlick(c, ior);
                let deciding = (0..4).find(|p| {
                    let f = |x: u64| {
                        let mut b = vec![encode(0.6); *p];
                        b.push(x);
                        kind(&b)
                    };
                    f(0) != f(encode(1.))
                });
                let mirrored = match deciding {
                    None => (kind(&[]) as usize) * k,
                    Some(p) => cs
                        .iter()
                        .filter(|x| {
                            let mut b = vec![encode(0.6); p];
                            b.push(**x);
                            kind(&b)
                        })
                        .count(),
                };
                must!((mirrored as f64 - want * k as f64).abs() <= 1.1, "{} is mirrored with probability {} instead of {}", what(), mirrored as f64 / k as f64, want);
                transitions(k as u64);
                traces(k as u64);
            }
        }
    });
}

/// At the critical angle itself, give or take some rounding, light is mirrored or bent along the surface
fn critical() {
    let iors: Vec<f64> = (0..tier(400, 4000)).map(|i| 1.001 + 0.0057 * i as f64).chain([1.5, 1.33, 2., 2.4, 4., 10.]).collect();
    par(&iors, |_, ior| {
        for front in [true, false] {
            let index = if front { 1. / ior } else { *ior };
            let m = Dielectric::new(tex(WHITE), None, index);
            // from the dense side
            let s = 1. / ior;
            for (k, turn) in (-tier(6i64, 40)..=tier(6, 40)).flat_map(|k| (0..4).map(move |t| (k, t))) {
                let s = f64::from_bits((s.to_bits() as i64 + k) as u64);
                let c = (1. - s * s).sqrt();
                // in a plane of its own, and in one that rounds
                let (n, d) = match turn {
                    0 => (V(0., 1., 0.), V(s, -c, 0.)),
                    1 => (V(0., 0., -1.), V(0., s, c)),
                    2 => (V(0.6, 0.8, 0.), V(0.8 * s - 0.6 * c, -0.6 * s - 0.8 * c, 0.)),
                    _ => (V(1., 2., -2.) * (1. / 3.), V(2., 1., 2.) * (s / 3.) - V(1., 2., -2.) * (c / 3.)),
                };
                let at = V(0.3, -2., 7.);
                let h = RayHit::new(v3(at), onb(n), &m, 1., Uv::new(0.5, 0.5), front);
                for x in [0, encode(0.5), encode(1.)] {
                    let (_, p, dir) = scatter(&m, &h, at - d, d, &[x]);
                    let mirror = d.reflect(n);
                    let along = (d + n * -d.dot(n)).unit();
                    must!(
                        p == at && dir.finite() && (angle(dir, mirror) < 1e-6 || angle(dir, along) < 1e-6),
                        "glass of index {} hit at the critical angle along {:?} with normal {:?} scatters to {:?}, neither mirrored ({:?}) nor along the surface ({:?})",
                        index, d, n, dir, mirror, along
                    );
                    traces(1);
                    transitions(1);
                }
            }
            states(1);
        }
    });
    note("indices at the critical angle", iors.len());
}

/// The same through real hits: from outside and from inside of spheres and panes
fn shapes() {
    for s in [sph(V(0.2, 0.1, -0.3), 1.1), quad(V(-3., -3., 0.1), V(6., 0.2, 0.), V(0., 6., 0.5)), tri(V(-3., -3., 0.), V(3., -3., 0.4), V(0., 4., 0.))] {
        for ior in [1.5, 0.7] {
            let g = s.build(glass(WHITE, ior));
            let mtl = s.build(metal(WHITE, 0.));
            let mut rays = vec![];
            for p in sphere_points(tier(100, 1500)) {
                rays.push((s.center() + p * 4., V(0.3, 0.2, 0.1) - p * 4.));
                rays.push((s.center() + V(0.1, 0., 0.05), p));
            }
            for (o, d) in rays {
                let r = ray(o, d);
                let (Some(h), Some(hm)) = (g.hit(&r, &all()), mtl.hit(&r, &all())) else { continue };
                let Ok(Some(c)) = judge(&s.crossings(o, d), o, d, 0.001, f64::INFINITY, &Some(h.clone())) else { continue };
                let du = d.unit();
                let n = c.facing();
                let ratio = if c.front { 1. / ior } else { ior };
                let cosine = -du.dot(n);
                if cosine < 1e-3 {
                    continue;
                }
                let perp = (du + n * cosine) * ratio;
                let s2 = perp.dot(perp);
                let mirror = du.reflect(n);
                let (_, p, dir) = scatter(hm.material, &hm, o, d, &[]);
                must!(angle(dir, mirror) < 1e-5 && (p - c.p).max_abs() < 1e-5, "mirror {:?} hit from {:?} along {:?} scatters from {:?} to {:?} instead of {:?}", s, o, d, p, dir, mirror);
                for x in [0, encode(1.)] {
                    let (_, p, dir) = scatter(h.material, &h, o, d, &[x, x, x]);
                    must!((p - c.p).max_abs() < 1e-5, "glass {:?} scatters from {:?} instead of {:?}", s, p, c.p);
                    if (s2 - 1.).abs() < 1e-3 {
                        continue;
                    }
                    let ok = angle(dir, mirror) < 1e-5 || (s2 < 1. && angle(dir, perp - n * (1. - s2).sqrt()) < 1e-4);
                    must!(ok, "glass {:?} of index {} hit from {:?} along {:?} scatters to {:?}", s, ior, o, d, dir);
                    // the extreme draws show both where both are possible
                    if s2 < 1. && x == encode(1.) {
                        let (_, _, other) = scatter(h.material, &h, o, d, &[0, 0, 0]);
                        must!(angle(other, dir) > 1e-6 || angle(mirror, perp - n * (1. - s2).sqrt()) < 1e-4, "glass {:?} of index {} hit from {:?} along {:?} always scatters to {:?}", s, ior, o, d, dir);
                    }
                    traces(1);
                    transitions(1);
                }
                states(1);
            }
        }
    }
}

pub fn run() {
    metals();
    glasses();
    critical();
    shapes();
    sample(|| "glass of index 1.5 hit from inside at 40 degrees: mirrored for exactly Schlick's share of 200 cells of the deciding draw".into());
}
