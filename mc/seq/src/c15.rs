//! Bounding boxes.
use crate::c17::transformations;
use crate::kit::*;
use solstrale::geo::transformation::{Transformations, Transformer};
use solstrale::geo::Aabb;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad};
use solstrale::util::interval::Interval;

fn shapes() -> Vec<Shape> {
    let mut s = vec![
        sph(V(0., 0., 0.), 1.),
        sph(V(10., -20., 3.), 2.5),
        sph(V(0.3, 0.1, 0.), 1e-3),
        quad(V(0., 0., 0.), V(1., 0., 0.), V(0., 1., 0.)),
        quad(V(1., 2., 3.), V(0., 2., 0.), V(0., 0., -3.)),
        quad(V(-1., 2., -3.), V(0., 0., 2.), V(-3., 0., 0.)),
        quad(V(0., 0., 0.), V(1., 1., 0.), V(-1., 1., 0.)),
        quad(V(0., 0., 0.), V(1., 1., 1.), V(1., -1., 0.)),
        quad(V(0., 0., 0.), V(3., 1., 0.5), V(2., 2., 1.)),
        quad(V(0., 0., 0.), V(-3., 1., 0.5), V(2., -2., 1.)),
        tri(V(0., 0., 0.), V(1., 0., 0.), V(0., 1., 0.)),
        tri(V(3., 0., 0.), V(1., 0., 2.), V(0., -1., 1.)),
        tri(V(3., 5., 0.), V(3., 0., 2.), V(3., -1., 1.)),
        tri(V(0., 0., 0.), V(0., 0., 1.), V(1., 0., 0.)),
        tri(V(-2., 1., 7.), V(-1., -4., 3.), V(5., 0., 5.)),
    ];
    // almost flat across each axis
    let axes = |v: V, a: usize| match a {
        0 => v,
        1 => V(v.2, v.0, v.1),
        _ => V(v.1, v.2, v.0),
    };
    let thin: &[f64] = if thorough() { &[1e-300, 1e-18, 1e-12, 1e-8, 1e-6, 3e-5, 9.9e-5, 1.1e-4, 5e-4] } else { &[1e-18, 1e-9, 9e-5, 2e-4] };
    for e in thin {
        for a in 0..3 {
            let f = |x: f64, y: f64, z: f64| axes(V(x, y, z), a);
            s.push(quad(f(0.5, 0., 0.), f(2., 0., *e), f(0., 3., 0.)));
            s.push(tri(f(0., -1., 0.), f(2., 1., *e), f(0., 3., e * 0.5)));
            if thorough() {
                s.push(quad(f(0.5, 0., 40.), f(2., 1., *e), f(-1., 3., *e)));
                s.push(tri(f(3., -1., *e), f(1., 1., 0.), f(0., 3., -*e)));
            }
        }
    }
    {
        for k in tier(vec![1e-6, 1e4], vec![1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e4, 1e6]) {
            s.push(tri(V(3., 0., 0.) * k, V(1., 0., 2.) * k, V(0., -1., 1.) * k));
            s.push(quad(V(0., 0., 0.), V(3., 1., 0.5) * k, V(2., 2., 1.) * k));
            s.push(sph(V(1., 1., 1.) * k, k));
        }
    }
    s
}

fn moved(s: &Shape, t: &dyn Transformer) -> Shape {
    let p = |v: V| vv(t.transform(v3(v), false));
    let d = |v: V| vv(t.transform(v3(v), true));
    match s {
        Shape::Sphere { .. } => s.clone(),
        Shape::Quad { q, u, v } => quad(p(*q), d(*u), d(*v)),
        Shape::Tri { p: c, uv } => Shape::Tri { p: [p(c[0]), p(c[1]), p(c[2])], uv: *uv },
    }
}

/// The box of the object encloses all hits, lies within `lo..hi` up to padding, and a hierarchy of it finds the same hits
fn check_object(what: &str, h: &Hittables, lo: V, hi: V, shapes: &[Shape]) {
    let (a, b) = box_lo_hi(h);
    for i in 0..3 {
        let (l, u, tl, tu) = (a.get(i), b.get(i), lo.get(i), hi.get(i));
        let e = 1e-9 * (1. + tl.abs().max(tu.abs()));
        must!(l <= tl + e && u >= tu - e, "{}: its box {:?} {:?} does not enclose {:?} {:?}", what, a, b, lo, hi);
        must!(l >= tl - 1e-3 - e && u <= tu + 1e-3 + e, "{}: its box {:?} {:?} is larger than {:?} {:?}", what, a, b, lo, hi);
        must!(u - l >= 1e-6, "{}: its box {:?} {:?} is flat", what, a, b);
        if tu - tl > 1e-3 {
            must!((l - tl).abs() <= e + 1e-4 && (u - tu).abs() <= e + 1e-4, "{}: its box {:?} {:?} does not fit {:?} {:?}", what, a, b, lo, hi);
        }
    }
    let size = (hi - lo).max_abs();
    let mid = (lo + hi) * 0.5;
    let g: &[f64] = if thorough() { &[-2., -1., -0.6, -0.3, 0., 0.2, 0.5, 0.9, 1.7] } else { &[-2., -0.6, 0., 0.3, 0.9] };
    let group = bvh(vec![h.clone()]);
    let mut n = 0;
    let mut hits = 0;
    for o in grid(g, g, g) {
        let o = mid + o * size;
        let mut ds = neighbours();
        ds.extend(sphere_points(tier(24, 80)));
        for t in grid(&[-0.3, 0., 0.25], &[-0.3, 0., 0.25], &[-0.3, 0., 0.25]) {
            ds.push(mid + t * size - o);
        }
        for d in ds {
            if d.len() < 1e-12 {
                continue;
            }
            for s in [1., -0.01] {
                let r = ray(o, d * s);
                for (lo_t, hi_t) in [(0.001, f64::INFINITY), (f64::NEG_INFINITY, f64::INFINITY)] {
                    let i = Interval::new(lo_t, hi_t);
                    n += 1;
                    let (x, _) = with_draws(&[], 0.6, || h.hit(&r, &i).map(|h| (h.ray_length, vv(h.hit_point))));
                    let (y, _) = with_draws(&[], 0.6, || group.hit(&r, &i).map(|h| (h.ray_length, vv(h.hit_point))));
                    if let Some((t, p)) = x {
                        hits += 1;
                        let e = 1e-7 * (1. + p.max_abs() + o.max_abs());
                        for k in 0..3 {
                            must!(p.get(k) >= a.get(k) - e && p.get(k) <= b.get(k) + e, "{}: hit point {:?} is outside of its box {:?} {:?}", what, p, a, b);
                        }
                        // a hit right at the end of the interval and of the box may go either way
                        let graze = |t: f64| { let cs = crossings_of(shapes, o, d * s); cs.iter().any(|c| !c.sure && close(c.t, t, 1e-6)) };
                        must!((t - lo_t).abs() < 1e-9 || graze(t) || y.is_some_and(|(u, _)| close(t, u, 1e-9)), "{}: alone it is hit at {} by the ray from {:?} direction {:?} within {}..{}, in a hierarchy: {:?}", what, t, o, d * s, lo_t, hi_t, y);
                    } else {
                        must!(y.is_none(), "{}: missed alone but hit in a hierarchy by the ray from {:?} direction {:?}", what, o, d * s);
                    }
                }
            }
        }
    }
    states(1);
    transitions(n);
    traces(n);
    note("hits inside boxes", hits);
}

pub fn run() {
    let mut cases: Vec<(Shape, usize)> = vec![];
    for s in shapes() {
        for t in 0..transformations().len() {
            if t > 0 && matches!(s, Shape::Sphere { .. }) {
                continue;
            }
            cases.push((s.clone(), t));
        }
    }
    par(&cases, |_, (s, t)| {
        let tr = transformations().remove(*t);
        let what = format!("{:?} with {}", s, tr.0);
        let tr = Transformations::new(tr.1);
        let m = moved(s, &tr);
        let (lo, hi) = m.bounds();
        let h = s.build_t(matte(GRAY), &tr);
        let sh = [m.clone()];
        check_object(&what, &h, lo, hi, &sh);
        if *t == 0 {
            check_object(&format!("hierarchy of {}", what), &bvh(vec![h.clone()]), lo, hi, &sh);
            check_object(&format!("hierarchy of hierarchy of {}", what), &bvh(vec![bvh(vec![]), bvh(vec![h.clone()])]), lo, hi, &sh);
        }
        if let Shape::Sphere { .. } = s {
            check_object(&format!("fog in {}", what), &ConstantMedium::new(h, 1.5, v3(GRAY)), lo, hi, &sh);
        }
    });
    // groups
    let corners = [(V(0., 0., 0.), V(1., 2., 3.)), (V(1., 1., -1.), V(-3., 0., 2.))];
    for (a, b) in corners {
        for t in 0..transformations().len() {
            let tr = transformations().remove(t);
            let what = format!("box {:?} {:?} with {}", a, b, tr.0);
            let tr = Transformations::new(tr.1);
            let (lo, hi) = bounds_of(&[a, b]);
            let c: Vec<V> = product(&[2, 2, 2])
                .iter()
                .map(|i| vv(tr.transform(v3(V([lo.0, hi.0][i[0]], [lo.1, hi.1][i[1]], [lo.2, hi.2][i[2]])), false)))
                .collect();
            let (lo, hi) = bounds_of(&c);
            let g = bvh(Quad::new_box(v3(a), v3(b), matte(GRAY), &tr));
            let sh: Vec<Shape> = box_shapes(bounds_of(&[a, b]).0, bounds_of(&[a, b]).1).iter().map(|s| moved(s, &tr)).collect();
            check_object(&what, &g, lo, hi, &sh);
            check_object(&format!("fog in {}", what), &ConstantMedium::new(g, 0.8, v3(GRAY)), lo, hi, &sh);
        }
    }
    let ss = shapes();
    let lists: Vec<Vec<usize>> = product(&[8, 8, 8]).into_iter().map(|v| v.iter().map(|i| i * 2 % ss.len()).collect()).collect();
    par(&lists, |i, l| {
        let hs: Vec<_> = l.iter().map(|i| ss[*i].build(matte(GRAY))).collect();
        let pts: Vec<V> = l.iter().flat_map(|i| { let (a, b) = ss[*i].bounds(); [a, b] }).collect();
        let (lo, hi) = bounds_of(&pts);
        let (a, b) = box_lo_hi(&bvh(hs.clone()));
        let (c, d) = bounds_of(&hs.iter().flat_map(|h| { let (a, b) = box_lo_hi(h); [a, b] }).collect::<Vec<_>>());
        must!(a == c && b == d, "the box of a hierarchy {:?} {:?} is not the smallest around its objects' boxes {:?} {:?}", a, b, c, d);
        must!((a - lo).max_abs() < 1e-3 && (b - hi).max_abs() < 1e-3, "the box of a hierarchy {:?} {:?} does not fit its objects {:?} {:?}", a, b, lo, hi);
        if i % 16 == 0 && thorough() {
            // only objects in it
            let _ = i;
        }
        states(1);
        transitions(1);
        traces(1);
    });
    boxes();
    far();
    sample(|| "quad (0,0,0) edges (3,1,.5) (2,2,1) rotated: box encloses all hits of 125 origins x 77 directions, alone and in a hierarchy".into());
    assume("padding of flat shapes may be up to 0.001; rays that only graze a box may go either way");
}

fn vec_of(b: &Aabb) -> (V, V) {
    (V(b.x.min, b.y.min, b.z.min), V(b.x.max, b.y.max, b.z.max))
}

/// Own slab test: does the half line enter the interior of the box?
fn slab(lo: V, hi: V, o: V, d: V) -> bool {
    let (mut a, mut b) = (0f64, f64::INFINITY);
    for i in 0..3 {
        let (l, h, p, q) = (lo.get(i), hi.get(i), o.get(i), d.get(i));
        if q == 0. {
            if !(p > l && p < h) {
                return false;
            }
        } else {
            let (s, e) = ((l - p) / q, (h - p) / q);
            a = a.max(s.min(e));
            b = b.min(s.max(e));
        }
    }
    a < b
}

/// Flat shapes and thin boxes seen from far away
fn far() {
    let dirs: Vec<V> = neighbours().into_iter().map(|d| d.unit()).chain(sphere_points(tier(30, 300))).collect();
    let cases: Vec<(V, f64)> = dirs.iter().flat_map(|d| [10., 1e3, 1e5, 1e6, 1e7].map(|k| (*d, k))).collect();
    par(&cases, |_, (dir, k)| {
        let mut n = 0;
        for a in 0..3 {
            let e = |i: usize| { let mut v = V::ZERO; *[&mut v.0, &mut v.1, &mut v.2][i % 3] = 1.; v };
            let (u, v, nrm) = (e(a + 1), e(a + 2), e(a));
            if nrm.dot(*dir).abs() < 0.05 {
                continue;
            }
            let q = nrm * 0.25;
            let shapes = [quad(q, u, v), tri(q, q + u, q + v)];
            for s in shapes {
                let h = s.build(matte(GRAY));
                let bx = h.bounding_box().clone();
                let group = bvh(vec![h.clone(), sph(V(0., 0., 0.) - nrm * 50., 1.).build(matte(GRAY)), sph(V(40., 40., 40.), 1.).build(matte(GRAY))]);
                for (x, y) in [(0.25, 0.25), (0.125, 0.5), (0.5, 0.25)] {
                    let t = q + u * x + v * y;
                    let o = t + *dir * *k;
                    for len in [1., 1. / k, 1e-6, 1e6] {
                        let r = ray(o, (t - o) * len);
                        let i = Interval::new(0., f64::INFINITY);
                        n += 1;
                        must!(h.hit(&r, &i).is_some(), "{:?} is not hit by the ray from {:?} at {:?}", s, o, t);
                        must!(bx.hit(&r), "the box of {:?} is not hit by the ray from {:?} at {:?} (direction times {})", s, o, t, len);
                        must!(group.hit(&r, &i).is_some(), "{:?} in a hierarchy is not hit by the ray from {:?} at {:?} (direction times {})", s, o, t, len);
                    }
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
}

fn boxes() {
    let bs = vec![
        (V(0., 0., 0.), V(1., 1., 1.)),
        (V(-2., 1., 3.), V(4., 1.5, 7.)),
        (V(-1., -0.00005, -1.), V(1., 0.00005, 1.)),
        (V(5., 5., 5.), V(5.001, 6., 1000.)),
        (V(-1e-3, -1e-3, -1e-3), V(1e-3, 2e-3, 3e-3)),
        (V(-1e4, -1e4, -1e4), V(1e4, 1e4, 1e4)),
    ];
    let f: &[f64] = if thorough() { &[-5., -1., -0.2, 0., 0.1, 0.5, 0.7, 1., 1.3, 3.] } else { &[-1., -0.2, 0., 0.3, 0.5, 1., 2.] };
    let origins = grid(f, f, f);
    let e: &[f64] = &[-1., -0.4, -0.0, 0.0, 0.7];
    let mut dirs: Vec<V> = grid(e, e, e).into_iter().filter(|d| d.max_abs() > 0.).collect();
    dirs.extend(sphere_points(tier(60, 500)));
    let cases: Vec<((V, V), V)> = bs.iter().flat_map(|b| origins.iter().map(move |o| (*b, *o))).collect();
    par(&cases, |_, ((lo, hi), g)| {
        let size = *hi - *lo;
        let bx = Aabb::new_from_2_points(v3(*lo), v3(*hi));
        let mut n = 0;
        for wide in [false, true] {
            // relative to each side, or to the largest
            let o = if wide { *lo + *g * size.max_abs() } else { *lo + g.mulv(size) };
            let mut ds = dirs.clone();
            for t in grid(&[0.01, 0.5, 0.99, 1.01], &[0.01, 0.5, 0.99, -0.01], &[0.02, 0.5, 0.98, 1.5]) {
                ds.push(*lo + t.mulv(size) - o);
            }
            for d in ds {
                if d.len() == 0. {
                    continue;
                }
                for s in [1., 1e-5, 1e5] {
                    let d = d * s;
                    let m = 1e-9 * (1. + lo.max_abs().max(hi.max_abs()).max(o.max_abs()));
                    let mv = V(m, m, m);
                    let m2 = size * 1e-6 + mv;
                    let r = ray(o, d);
                    let got = bx.hit(&r);
                    n += 1;
                    if slab(*lo + m2, *hi - m2, o, d) {
                        must!(got, "box {:?} {:?} is not hit by the ray from {:?} direction {:?} through its interior", lo, hi, o, d);
                    } else if !slab(*lo - m2, *hi + m2, o, d) {
                        must!(!got, "box {:?} {:?} is hit by the ray from {:?} direction {:?} that misses it", lo, hi, o, d);
                    }
                    // the empty box is never hit
                    must!(!Aabb::default().hit(&r), "the empty box is hit by the ray from {:?} direction {:?}", o, d);
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    // construction and algebra
    let g = [-2., 0., 0.5, 3.];
    let pts = grid(&g, &[-1., 0., 1e-17, 1.5], &[-7., 0., 1e-7, 2., 2.00003]);
    par(&pts, |_, a| {
        for b in &pts {
            let (lo, hi) = bounds_of(&[*a, *b]);
            let x = Aabb::new_from_2_points(v3(*a), v3(*b));
            must!(vec_of(&x) == (lo, hi), "box of {:?} and {:?} is {:?}", a, b, vec_of(&x));
            must!(vclose(vv(x.center()), (*a + *b) * 0.5, 1e-12), "center of the box of {:?} and {:?} is {:?}", a, b, vv(x.center()));
            must!(close(x.diagonal_length(), (*a - *b).len(), 1e-12), "diagonal of the box of {:?} and {:?} is {}", a, b, x.diagonal_length());
            let p = x.pad_if_needed();
            let (pl, ph) = vec_of(&p);
            for i in 0..3 {
                let (s, t) = (hi.get(i) - lo.get(i), ph.get(i) - pl.get(i));
                must!(pl.get(i) <= lo.get(i) && ph.get(i) >= hi.get(i), "padding shrinks {:?} {:?}", lo, hi);
                must!(t >= 1e-5, "padding leaves {:?} {:?} flat: {:?} {:?}", lo, hi, pl, ph);
                must!(t <= s + 1e-3 && (s < 1e-3 || t == s), "padding grows {:?} {:?} to {:?} {:?}", lo, hi, pl, ph);
            }
            for c in pts.iter().step_by(tier(3, 1)) {
                let (lo, hi) = bounds_of(&[*a, *b, *c]);
                let y = Aabb::new_from_3_points(v3(*a), v3(*b), v3(*c));
                must!(vec_of(&y) == (lo, hi), "box of {:?}, {:?}, {:?} is {:?}", a, b, c, vec_of(&y));
                let one = Aabb::new_from_2_points(v3(*c), v3(*c));
                must!(vec_of(&x.combine(&one)) == (lo, hi) && vec_of(&one.combine(&x)) == (lo, hi), "combining the box of {:?}, {:?} with {:?} gives {:?}", a, b, c, vec_of(&x.combine(&one)));
                let m = &x + v3(*c);
                let (l2, h2) = vec_of(&m);
                let (l0, h0) = bounds_of(&[*a, *b]);
                must!(vclose(l2, l0 + *c, 1e-12) && vclose(h2, h0 + *c, 1e-12), "box of {:?}, {:?} moved by {:?} is {:?}", a, b, c, vec_of(&m));
                let z = solstrale::combine_aabbs!(&x, &one, &Aabb::default());
                must!(vec_of(&z) == (lo, hi), "combining several boxes gives {:?} instead of {:?} {:?}", vec_of(&z), lo, hi);
                transitions(5);
                traces(1);
            }
            must!(vec_of(&Aabb::default().combine(&x)) == (lo, hi) && vec_of(&x.combine(&Aabb::default())) == (lo, hi), "combining with the empty box changes {:?} {:?}", lo, hi);
        }
        states(1);
    });
}
