//! Transformations against own matrices, and shapes built with them against moved shapes.
use crate::c16::intervals;
use crate::kit::*;
use solstrale::geo::transformation::{NopTransformer, RotationX, RotationY, RotationZ, Scale, Transformations, Transformer, Translation};
use solstrale::hittable::{Hittable, Quad};
use solstrale::util::interval::Interval;

#[derive(Clone, Debug)]
pub enum T {
    X(f64),
    Y(f64),
    Z(f64),
    Move(V),
    Size(f64),
    Nop,
    List(Vec<T>),
}

impl T {
    pub fn build(&self) -> Box<dyn Transformer> {
        match self {
            T::X(a) => Box::new(RotationX::new(*a)),
            T::Y(a) => Box::new(RotationY::new(*a)),
            T::Z(a) => Box::new(RotationZ::new(*a)),
            T::Move(v) => Box::new(Translation::new(v3(*v))),
            T::Size(s) => Box::new(Scale::new(*s)),
            T::Nop => Box::new(NopTransformer()),
            T::List(l) => Box::new(Transformations::new(l.iter().map(|t| t.build()).collect())),
        }
    }
    /// What it should do, to a point or to a direction
    pub fn apply(&self, v: V, direction: bool) -> V {
        match self {
            T::X(a) => {
                let (s, c) = a.to_radians().sin_cos();
                V(v.0, c * v.1 + s * v.2, c * v.2 - s * v.1)
            }
            T::Y(a) => {
                let (s, c) = a.to_radians().sin_cos();
                V(c * v.0 + s * v.2, v.1, c * v.2 - s * v.0)
            }
            T::Z(a) => {
                let (s, c) = a.to_radians().sin_cos();
                V(c * v.0 + s * v.1, c * v.1 - s * v.0, v.2)
            }
            T::Move(t) => {
                if direction {
                    v
                } else {
                    v + *t
                }
            }
            T::Size(s) => v * *s,
            T::Nop => v,
            T::List(l) => l.iter().fold(v, |v, t| t.apply(v, direction)),
        }
    }
}

fn points() -> Vec<V> {
    let g = [-3., -0.5, 0., 1., 7.];
    let mut p = grid(&g, &g, &g);
    p.push(V(1e-8, 0., -1e-8));
    p.push(V(1e6, -1e6, 3e5));
    p
}

fn alphabet() -> Vec<T> {
    vec![
        T::X(90.),
        T::Y(-30.),
        T::Z(45.),
        T::Move(V(1., -2., 0.5)),
        T::Size(2.5),
        T::Nop,
        T::List(vec![]),
        T::List(vec![T::Y(60.), T::Move(V(0., 3., 0.))]),
    ]
}

pub fn run() {
    singles();
    let a = alphabet();
    let mut lists = vec![];
    for n in 0..=tier(4, 5) {
        for i in product(&vec![a.len(); n]) {
            lists.push(T::List(i.iter().map(|i| a[*i].clone()).collect()));
        }
    }
    // long lists: one member over and over, all in turn, and nested ones
    for n in (5..=tier(24, 100)).chain([33, 64, 65, 129]) {
        for m in &a {
            lists.push(T::List(vec![m.clone(); n]));
        }
        for skip in 0..a.len() {
            let l: Vec<T> = (0..n).map(|i| a[(i * (skip % 3 + 1) + skip) % a.len()].clone()).collect();
            lists.push(T::List(l.clone()));
            let mut nested = T::List(vec![]);
            for m in l {
                nested = T::List(vec![nested, m]);
            }
            if n <= 40 {
                lists.push(nested);
            }
        }
    }
    let ps: Vec<V> = points().into_iter().step_by(7).collect();
    par(&lists, |_, t| {
        let b = t.build();
        for p in &ps {
            for dir in [false, true] {
                let (got, want) = (vv(b.transform(v3(*p), dir)), t.apply(*p, dir));
                must!(vclose(got, want, 1e-9), "{:?} takes {} {:?} to {:?} instead of {:?}", t, if dir { "direction" } else { "point" }, p, got, want);
            }
        }
        states(1);
        transitions(2 * ps.len() as u64);
        traces(2 * ps.len() as u64);
    });
    note("lists", lists.len());
    shapes();
    sample(|| "all lists of up to 4 of [x 90, y -30, z 45, translation, scale, no-op, empty list, nested list] on 18 points and directions".into());
}

fn singles() {
    let step = tier(15, 1);
    let angles: Vec<f64> = (-720..=720).step_by(step).map(|a| a as f64).chain([0.5, -0.001, 1e-9, 33.3, 1234.5]).collect();
    let ps = points();
    par(&angles, |_, a| {
        for axis in 0..3 {
            let t = [T::X(*a), T::Y(*a), T::Z(*a)][axis].clone();
            let b = t.build();
            for p in &ps {
                let g = vv(b.transform(v3(*p), false));
                let g2 = vv(b.transform(v3(*p), true));
                must!(g == g2, "{:?} turns points and directions differently", t);
                must!(close(g.len(), p.len(), 1e-12), "{:?} changes the length of {:?} from {} to {}", t, p, p.len(), g.len());
                must!(g.get(axis) == p.get(axis), "{:?} does not leave its axis fixed for {:?}: {:?}", t, p, g);
                must!(vclose(g, t.apply(*p, false), 1e-12), "{:?} takes {:?} to {:?} instead of {:?}", t, p, g, t.apply(*p, false));
                transitions(2);
                traces(1);
            }
            // angles between vectors and orientation
            for w in ps.windows(3).step_by(5) {
                let g: Vec<V> = w.iter().map(|v| vv(b.transform(v3(*v), true))).collect();
                let s = 1e-10 * (1. + w.iter().map(|v| v.max_abs()).fold(0., f64::max).powi(3));
                must!((g[0].dot(g[1]) - w[0].dot(w[1])).abs() <= s, "{:?} changes the angle between {:?} and {:?}", t, w[0], w[1]);
                must!((g[0].cross(g[1]).dot(g[2]) - w[0].cross(w[1]).dot(w[2])).abs() <= s, "{:?} changes the orientation of {:?}", t, w);
            }
            // there and back
            let back = [T::X(-a), T::Y(-a), T::Z(-a)][axis].build();
            for p in ps.iter().step_by(9) {
                let r = vv(back.transform(b.transform(v3(*p), false), false));
                must!(vclose(r, *p, 1e-10), "{:?} is not undone by turning back: {:?} becomes {:?}", t, p, r);
            }
        }
        states(3);
    });
    for v in [V(1., 2., 3.), V(-5., 0., 1e-3), V::ZERO, V(1e6, -1e6, 0.), V(1e-9, -3e-9, 0.), V(0., 0., 1e-13)] {
        let b = T::Move(v).build();
        for p in &ps {
            must!(vv(b.transform(v3(*p), false)) == *p + v, "translation by {:?} takes {:?} to {:?}", v, p, vv(b.transform(v3(*p), false)));
            must!(vv(b.transform(v3(*p), true)) == *p, "translation by {:?} moves the direction {:?}", v, p);
            transitions(2);
        }
        states(1);
    }
    for s in [1., 2.5, 0.001, 1e6, -1., -0.3, 0.] {
        let b = T::Size(s).build();
        for p in &ps {
            for d in [false, true] {
                must!(vclose(vv(b.transform(v3(*p), d)), *p * s, 1e-14), "scaling by {} takes {:?} to {:?}", s, p, vv(b.transform(v3(*p), d)));
                transitions(1);
            }
        }
        states(1);
    }
    for b in [T::Nop.build(), T::List(vec![]).build(), T::List(vec![T::Nop, T::List(vec![])]).build()] {
        for p in &ps {
            for d in [false, true] {
                must!(vv(b.transform(v3(*p), d)) == *p, "nothing to do but {:?} becomes {:?}", p, vv(b.transform(v3(*p), d)));
            }
        }
        states(1);
    }
}

/// A shape built with a transformation is hit where the moved shape would be
fn shapes() {
    let base = vec![
        quad(V(-1., -0.5, 0.25), V(2., 0., 0.), V(0.3, 1., 0.2)),
        quad(V(0., 0., 0.), V(0., 0., -1.), V(0., 2., 0.)),
        tri_uv(V(-1., 0., 0.), V(1., 0.2, 0.3), V(0., 1.5, -0.4), [(0., 0.), (1., 0.2), (0.3, 1.)]),
        tri(V(0., 0., 1.), V(1., 0., 1.), V(0., 1., 1.)),
    ];
    let a = alphabet();
    let mut ts: Vec<T> = product(&[a.len(), a.len()]).iter().map(|i| T::List(i.iter().map(|i| a[*i].clone()).collect())).collect();
    ts.extend(product(&[5, 5, 5]).iter().map(|i| T::List(i.iter().map(|i| a[*i].clone()).collect())));
    ts.extend(a.clone());
    ts.push(T::Size(-1.));
    let cases: Vec<(T, usize)> = ts.into_iter().flat_map(|t| (0..base.len()).map(move |i| (t.clone(), i))).collect();
    par(&cases, |_, (t, i)| {
        let p = |v: V| t.apply(v, false);
        let dd = |v: V| t.apply(v, true);
        let moved = match &base[*i] {
            Shape::Quad { q, u, v } => quad(p(*q), dd(*u), dd(*v)),
            Shape::Tri { p: c, uv } => Shape::Tri { p: [p(c[0]), p(c[1]), p(c[2])], uv: *uv },
            s => s.clone(),
        };
        let tr = t.build();
        let h = base[*i].build_t(matte(GRAY), &*tr);
        let mid = base[*i].center();
        let g: &[f64] = if thorough() { &[-2., -0.9, 0.1, 0.8, 2.1] } else { &[-1.9, 0.1, 2.1] };
        let mut n = 0;
        for o in grid(g, g, g) {
            for q in grid(&[-1., -0.4, 0., 0.4], &[-0.6, 0., 0.3, 0.9], &[-0.3, 0., 0.1]) {
                let d = q - o;
                if d.len() < 1e-9 {
                    continue;
                }
                // the same ray, moved along
                let (ow, dw) = (p(mid + o), dd(d));
                let cs = moved.crossings(ow, dw);
                for (lo, hi) in intervals(&cs, false) {
                    let got = h.hit(&ray(ow, dw), &Interval::new(lo, hi));
                    n += 1;
                    if let Err(e) = judge(&cs, ow, dw, lo, hi, &got) {
                        violation(&format!("{:?} built with {:?}, ray from {:?} direction {:?}: {} ({})", base[*i], t, ow, dw, e, show(&got)));
                    }
                }
            }
        }
        // boxes
        if *i == 0 {
            let (a, b) = (V(-1., 0., 0.5), V(1., 0.7, 2.));
            let sides = Quad::new_box(v3(b), v3(a), matte(GRAY), &*tr);
            let world = bvh(sides);
            let shapes: Vec<Shape> = box_shapes(a, b)
                .iter()
                .map(|s| match s {
                    Shape::Quad { q, u, v } => quad(p(*q), dd(*u), dd(*v)),
                    s => s.clone(),
                })
                .collect();
            for o in grid(g, g, g) {
                for d in sphere_points(20) {
                    let (ow, dw) = (p(mid + o), dd(d));
                    let mut cs = crossings_of(&shapes, ow, dw);
                    let got = world.hit(&ray(ow, dw), &Interval::new(0.001, f64::INFINITY));
                    n += 1;
                    // a box does not say how its sides are textured
                    if let Some(h) = &got {
                        for c in cs.iter_mut() {
                            c.u_ok = false;
                            c.uv.1 = h.uv.v as f64;
                        }
                    }
                    // turning the sides inside out by a negative scale is not done here
                    if matches!(t, T::Size(s) if *s < 0.) {
                        continue;
                    }
                    if let Err(e) = judge(&cs, ow, dw, 0.001, f64::INFINITY, &got) {
                        violation(&format!("box {:?} {:?} built with {:?}, ray from {:?} direction {:?}: {} ({})", a, b, t, ow, dw, e, show(&got)));
                    }
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    note("transformed shapes", cases.len());
}
