//! Hierarchies against trying every object.
use crate::kit::*;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad};
use solstrale::util::interval::Interval;

#[derive(Clone)]
enum Obj {
    S(Shape),
    Group(Vec<Obj>),
    Fog(Shape, f64),
}

impl Obj {
    fn build(&self) -> Hittables {
        match self {
            Obj::S(s) => s.build(matte(s.center())),
            Obj::Group(g) => bvh(g.iter().map(|o| o.build()).collect()),
            Obj::Fog(s, d) => ConstantMedium::new(s.build(matte(GRAY)), *d, v3(GRAY)),
        }
    }
    fn scaled(&self, k: f64) -> Obj {
        match self {
            Obj::S(s) => Obj::S(s.scaled(k)),
            Obj::Group(g) => Obj::Group(g.iter().map(|o| o.scaled(k)).collect()),
            Obj::Fog(s, d) => Obj::Fog(s.scaled(k), d / k),
        }
    }
    /// The single objects
    fn leaves(&self, out: &mut Vec<Obj>) {
        match self {
            Obj::Group(g) => g.iter().for_each(|o| o.leaves(out)),
            o => out.push(o.clone()),
        }
    }
}

fn alphabet() -> Vec<Obj> {
    let s = |s: Shape| Obj::S(s);
    let mut a = vec![
        s(sph(V(0., 0., 0.), 1.)),
        s(sph(V(2.5, 0., 0.), 0.7)),
        s(sph(V(0., 0., 0.), 2.)),
        s(quad(V(-1., -1., -1.5), V(2., 0., 0.), V(0., 2., 0.))),
        s(tri(V(-2., 0., 2.), V(2., 0.5, 2.), V(0., 2., 1.))),
        Obj::Group(vec![]),
        Obj::Group(vec![s(sph(V(0., 3., 0.), 0.8)), s(quad(V(-3., -2., -3.), V(0., 0., 6.), V(6., 0., 0.)))]),
        Obj::Group(vec![s(sph(V(-2., -1., 0.5), 0.6)), Obj::Group(vec![s(tri(V(1., -1., 0.), V(2., 1., 1.), V(1.5, 0., -2.)))]), Obj::Group(vec![])]),
    ];
    if thorough() {
        a.push(s(quad(V(0., 0., 0.), V(1., 0., 0.), V(0., 0., 1.))));
        a.push(Obj::Fog(sph(V(1., 1., 1.), 1.5), 0.4));
    }
    a
}

fn rays(n: usize, size: f64) -> Vec<(V, V)> {
    let mut v = vec![];
    let g = [-4., -0.2, 0.1, 3.3];
    for o in grid(&g, &[-3.1, 0.2, 2.7], &[-5., 0.3, 4.1]) {
        for d in sphere_points(n) {
            v.push((o * size, d));
        }
        v.push((o * size, V(0.05, -0.1, 0.15) * size - o * size));
        v.push((o * size, V(2., 0.3, 0.1) * size - o * size));
    }
    // along the axes
    for o in grid(&g, &g, &g) {
        for a in [V(1., 0., 0.), V(0., -1., 0.), V(0., 0., 0.5), V(-1., 1., 0.), V(0., 1e-3, 1e-3)] {
            v.push((o * size, a));
        }
    }
    v
}

fn check(objs: &[Obj], rays: &[(V, V)], what: &dyn Fn() -> String) {
    check_at(objs, rays, 1., what)
}

/// `unit`: what a ray length of 1 is
fn check_at(objs: &[Obj], rays: &[(V, V)], unit: f64, what: &dyn Fn() -> String) {
    let world = bvh(objs.iter().map(|o| o.build()).collect());
    let mut leaves = vec![];
    objs.iter().for_each(|o| o.leaves(&mut leaves));
    let built: Vec<Hittables> = leaves.iter().map(|o| o.build()).collect();
    let mut n = 0;
    for (o, d) in rays {
        let r = ray(*o, *d);
        for (lo, hi) in [(0.001, f64::INFINITY), (f64::NEG_INFINITY, f64::INFINITY), (-5., 5.), (2., 6.5), (f64::NEG_INFINITY, -1.)] {
            let (lo, hi) = (lo * unit, hi * unit);
            let i = Interval::new(lo, hi);
            n += 1;
            let go = |h: &Hittables| {
                with_draws(&[], 0.7, || {
                    h.hit(&r, &i).map(|h| (h.ray_length, vv(h.hit_point), vv(h.normal), (h.uv.u, h.uv.v), h.front_face, color_of(&h)))
                })
                .0
            };
            let got = go(&world);
            let mut best: Option<(f64, usize)> = None;
            let mut single = vec![];
            for (k, h) in built.iter().enumerate() {
                let x = go(h);
                if let Some(x) = &x {
                    if best.is_none() || x.0 < best.unwrap().0 {
                        best = Some((x.0, k));
                    }
                }
                single.push(x);
            }
            let sure = |k: usize, t: f64| match &leaves[k] {
                Obj::S(s) => s.crossings(*o, *d).iter().any(|c| c.sure && close(c.t, t, 1e-6)),
                Obj::Fog(s, _) => s.crossings(*o, *d).iter().all(|c| c.sure),
                _ => true,
            };
            match (&got, best) {
                (None, None) => {}
                (None, Some((t, k))) => must!(!sure(k, t), "{}: ray from {:?} direction {:?} within {}..{} misses the hierarchy but object {} alone is hit at {}", what(), o, d, lo, hi, k, t),
                (Some(g), _) => {
                    let same = single.iter().any(|s| {
                        s.as_ref().is_some_and(|s| {
                            close(s.0, g.0, 1e-9) && vclose(s.1, g.1, 1e-9) && vclose(s.2, g.2, 1e-9) && s.3 == g.3 && s.4 == g.4 && s.5 == g.5
                        })
                    });
                    must!(same, "{}: ray from {:?} direction {:?} within {}..{} hits the hierarchy like none of its objects: {:?}", what(), o, d, lo, hi, g);
                    let (t, k) = best.unwrap();
                    must!(g.0 <= t + 1e-12 * (t.abs() + o.max_abs() / d.len()) || !sure(k, t), "{}: ray from {:?} direction {:?} within {}..{} hits the hierarchy at {} but object {} is hit at {}", what(), o, d, lo, hi, g.0, k, t);
                }
            }
        }
    }
    states(1);
    transitions(n);
    traces(n);
}

/// The color of the material that was hit, to tell objects apart
fn color_of(h: &solstrale::material::RayHit) -> [u64; 3] {
    use solstrale::material::{Material, RayScatter};
    let lights = [far_light()];
    let r = ray(V(0., 0., 9.), V(0., 0., -1.));
    match h.material.scatter(&r, h, &lights) {
        RayScatter::ScatterPdf(s) => [s.color.x.to_bits(), s.color.y.to_bits(), s.color.z.to_bits()],
        _ => [0; 3],
    }
}

pub fn run() {
    let a = alphabet();
    let rs = rays(tier(6, 10), 1.);
    let mut lists: Vec<Vec<usize>> = vec![];
    for len in 0..=tier(3, 4) {
        lists.extend(product(&vec![a.len(); len]));
    }
    if quick() {
        // sorted lists of four
        lists.extend(product(&[a.len(); 4]).into_iter().filter(|l| l.windows(2).all(|w| w[0] < w[1]) || l.windows(2).all(|w| w[0] > w[1])));
    }
    par(&lists, |_, l| {
        let objs: Vec<Obj> = l.iter().map(|i| a[*i].clone()).collect();
        check(&objs, &rs, &|| format!("list {:?}", l));
    });
    note("lists", lists.len());
    sample(|| format!("lists over {} objects incl. empty and nested groups, {} rays x 5 intervals", a.len(), rs.len()));

    // longer lists
    let mut long: Vec<(String, Vec<Obj>)> = vec![];
    let lens: Vec<usize> = if thorough() { (5..=40).collect() } else { vec![5, 6, 7, 8, 9, 13, 16, 17, 31] };
    for n in lens {
        for axis in 0..3 {
            for order in 0..3 {
                let mut v: Vec<Obj> = (0..n)
                    .map(|i| {
                        let x = 8. * (i as f64 / (n - 1) as f64 - 0.5);
                        let c = [V(x, 0.1, 0.), V(0., x, 0.1), V(0.1, 0., x)][axis];
                        Obj::S(if i % 3 == 2 { quad(c, V(0.3, 0.1, 0.), V(0., 0.3, 0.2)) } else { sph(c, 0.4) })
                    })
                    .collect();
                match order {
                    1 => v.reverse(),
                    2 => {
                        // interleave
                        let w = v.clone();
                        for (i, o) in v.iter_mut().enumerate() {
                            *o = w[(i * 7 + 3) % n].clone();
                        }
                    }
                    _ => {}
                }
                long.push((format!("row of {} along axis {} in order {}", n, axis, order), v));
            }
        }
        long.push((format!("{} spheres with the same center", n), (0..n).map(|i| Obj::S(sph(V(0.2, 0.1, 0.), 0.2 + 0.1 * ((i * 5) % n) as f64))).collect()));
        long.push((
            format!("clusters of {}", n),
            (0..n).map(|i| Obj::S(sph(if i % 4 == 0 { V(3., 0., 0.) } else { V(-1e-3 * i as f64, 1., 0.) }, 0.3 + 0.02 * i as f64))).collect(),
        ));
        long.push((format!("{} equal quads", n), (0..n).map(|_| Obj::S(quad(V(-1., -1., 0.), V(2., 0., 0.), V(0., 2., 0.1)))).collect()));
        long.push((
            format!("{} of very different size", n),
            (0..n).map(|i| Obj::S(sph(V(2f64.powi(i as i32 % 10) * 0.01, 0., -(i as f64) * 0.3), 2f64.powi(i as i32 % 7) * 0.05))).collect(),
        ));
        long.push((
            format!("fog among {}", n),
            (0..n).map(|i| { let s = sph(V(i as f64 - 2., 0.2 * i as f64, 0.), 0.8); if i % 2 == 0 { Obj::Fog(s, 0.6) } else { Obj::S(s) } }).collect(),
        ));
        // layers that are very close to each other
        for gap in [1e-2, 1e-4, 1e-6, 5e-8] {
            let at = |i: usize| ((i * 5 + 2) % n) as f64 * gap;
            long.push((format!("{} layers {} apart", n, gap), (0..n).map(|i| Obj::S(if i % 3 == 0 { tri(V(-3., -3., at(i)), V(5., -3., at(i)), V(-3., 5., at(i))) } else { quad(V(-2., -2., at(i)), V(4., 0., 0.), V(0., 4., 0.)) })).collect()));
            long.push((format!("{} shells {} apart", n, gap), (0..n).map(|i| Obj::S(sph(V(0.2, 0.1, 0.), 1. + at(i)))).collect()));
        }
        // objects with infinite or no extent next to groups
        long.push((
            format!("groups nested {} deep", n),
            vec![(0..n).fold(Obj::S(sph(V(0.5, 0.5, 0.), 0.7)), |g, i| Obj::Group(if i % 2 == 0 { vec![Obj::Group(vec![]), g] } else { vec![g, Obj::S(sph(V(i as f64 * 0.2, -1., 0.), 0.1))] }))],
        ));
    }
    let rs2 = rays(tier(8, 30), 1.2);
    par(&long, |_, (name, l)| check(l, &rs2, &|| name.clone()));
    // rays of other lengths, and scenes of other sizes
    let mut cases = vec![];
    for k in 0..long.len() {
        for (scale, length) in [(1., 1e6), (1., 1e-6), (1e5, 1.), (1e5, 1e5), (1e-2, 1e-2), (1e6, 1e-2)] {
            cases.push((k, scale, length));
        }
    }
    let rs3 = rays(tier(5, 12), 1.1);
    par(&cases, |_, (k, scale, length)| {
        let (name, l) = &long[*k];
        if *scale != 1. && name.contains("apart") {
            return;
        }
        let l: Vec<Obj> = l.iter().map(|o| o.scaled(*scale)).collect();
        let rs: Vec<(V, V)> = rs3.iter().map(|(o, d)| (*o * *scale, *d * *length)).collect();
        check_at(&l, &rs, scale / length, &|| format!("{} scaled by {}", name, scale));
    });
    // lists of hundreds
    let mut big: Vec<(String, Vec<Obj>)> = vec![];
    for n in tier(vec![64, 65, 128, 131, 257, 600], vec![64, 65, 100, 127, 128, 129, 131, 200, 255, 256, 257, 512, 600, 1000, 1025, 3000]) {
        let mix = |i: usize, c: V| Obj::S(if i % 3 == 2 { quad(c, V(0.3, 0.1, 0.), V(0., 0.3, 0.2)) } else { sph(c, 0.2 + 0.001 * i as f64) });
        big.push((format!("row of {}", n), (0..n).map(|i| mix(i, V(8. * ((i * 7 % n) as f64 / n as f64 - 0.5), 0.1, -0.2))).collect()));
        big.push((format!("spiral of {}", n), (0..n).map(|i| mix(i, sphere_points(n)[i] * 4.)).collect()));
        big.push((format!("{} at the same place", n), (0..n).map(|i| Obj::S(sph(V(0.2, 0.1, 0.), 0.2 + 0.002 * ((i * 5) % n) as f64))).collect()));
        big.push((format!("{} equal but for the last", n), (0..n).map(|i| Obj::S(if i + 1 == n { quad(V(-1., -1., 2.), V(2., 0., 0.), V(0., 2., 0.1)) } else { quad(V(-1., -1., 0.), V(2., 0., 0.), V(0., 2., 0.1)) })).collect()));
        big.push((format!("{} equal but for the first", n), (0..n).map(|i| Obj::S(if i == 0 { sph(V(-3., 0., 0.), 1.) } else { sph(V(1., 0., 0.), 1.) })).collect()));
    }
    for n in tier(vec![20, 64, 131, 300], vec![20, 40, 64, 131, 257, 300, 1000]) {
        // bars around a common middle
        big.push((
            format!("fan of {}", n),
            (0..n)
                .map(|i| {
                    let a = std::f64::consts::PI * ((i * 7) % n) as f64 / n as f64;
                    let (d, e) = (V(a.cos(), a.sin(), 0.), V(-a.sin(), a.cos(), 0.3) * (0.5 / n as f64));
                    // exactly the same middle
                    let r = |v: V| V((v.0 * 65536.).round() / 65536., (v.1 * 65536.).round() / 65536., (v.2 * 65536.).round() / 65536.);
                    let (d, e) = (r(d), r(e));
                    Obj::S(quad(-d - e, d * 2., e * 2.))
                })
                .collect(),
        ));
    }
    par(&big, |_, (name, l)| {
        let mut rs = rays(1, 1.1);
        // at each of them, from the outside and from right before it
        for o in l {
            let Obj::S(s) = o else { continue };
            let at = match s {
                Shape::Sphere { c, r } => vec![(*c, *r, V(0.3, -0.2, 1.)), (*c, *r, V(-1., 0.1, 0.2))],
                Shape::Quad { q, u, v } => [0.01, 0.97].iter().map(|k| (*q + *u * *k + *v * 0.52, 0., u.cross(*v))).collect(),
                Shape::Tri { .. } => vec![],
            };
            for (p, r, d) in at {
                let d = d.unit();
                rs.push((p + d * (r + 20.), -d));
                rs.push((p + d * (r - 1e-5), d));
            }
        }
        check(l, &rs, &|| name.clone())
    });
    note("lists of hundreds", big.len());
    // box sides as a list inside a list
    for (a, b) in [(V(0., 0., 0.), V(1., 1., 1.)), (V(-2., -1., -1.), V(3., 0., 2.))] {
        let _ = Quad::new_box(v3(a), v3(b), matte(GRAY), &nop());
        let sides: Vec<Obj> = box_shapes(bounds_of(&[a, b]).0, bounds_of(&[a, b]).1).into_iter().map(Obj::S).collect();
        let mut l = vec![Obj::Group(sides.clone()), Obj::S(sph(V(0.5, 0.5, 0.5), 0.3))];
        check(&l, &rs2, &|| "box and sphere".into());
        l.extend(sides);
        check(&l, &rs2, &|| "box sides twice and sphere".into());
    }
    note("long lists", long.len());
    assume("rays within rounding distance of an object's outline may go either way; equally near objects may be reported in any order");
}
