//! Triangle intersection.
use crate::c17::{plane_origins, plane_targets, run_planar};
use crate::kit::*;
use solstrale::hittable::Hittable;
use solstrale::util::interval::Interval;

fn triangles() -> Vec<Shape> {
    let base = vec![
        tri_uv(V(0., 0., 0.), V(1., 0., 0.), V(0., 1., 0.), [(0., 0.), (1., 0.), (0., 1.)]),
        tri_uv(V(-1., 2., 3.), V(2., 2.5, 1.), V(0., 4., 2.), [(0.1, 0.9), (3., -1.), (-0.5, 0.25)]),
        tri(V(1., 0., 0.), V(0., 0., 1.), V(0., 1., 0.)),
        tri_uv(V(2., 1., 0.), V(0., -1., 0.5), V(0.3, 1., -2.), [(-2., 7.), (-0.25, -3.), (4., -0.75)]),
        tri_uv(V(0., 0., 0.), V(5., 0., 0.), V(4., 0.3, 0.1), [(0.5, 0.5), (0.5, 0.5), (0.5, 0.25)]),
        tri_uv(V(0., 0., 2.), V(3., 0.5, 1.), V(0., -1., -1.), [(-1.5e5, 2.), (7e4, 3e5), (0.25, -1e5)]),
    ];
    let scales: &[f64] = if thorough() { &[1e-6, 1e-5, 1e-4, 1e-3, 0.1, 1., 10., 1e3, 1e5, 1e6] } else { &[1e-6, 1e-4, 1., 1e3, 1e6] };
    let mut out = vec![];
    for s in scales {
        for b in &base {
            if let Shape::Tri { p, uv } = b {
                out.push(Shape::Tri { p: [p[0] * *s, p[1] * *s, p[2] * *s], uv: *uv });
            }
        }
    }
    out
}

pub fn run() {
    let (origins, targets) = (plane_origins(), plane_targets());
    let cases: Vec<(Shape, V)> = triangles().into_iter().flat_map(|q| origins.iter().map(move |o| (q.clone(), *o))).collect();
    par(&cases, |_, (s, o)| {
        if let Shape::Tri { p, .. } = s {
            let k = run_planar(s, p[0], p[1] - p[0], p[2] - p[0], &[*o], &targets, "triangle");
            states(1);
            transitions(k);
            traces(k);
        }
    });
    shared_edges();
    degenerate();
    note("bounds", format!("{} triangles x {} origins x {} targets x 5 scalings x up to 8 intervals, shared edges, degenerate triangles", triangles().len(), origins.len(), targets.len()));
    assume("rays within rounding distance of the outline may be judged either way, except that triangles sharing an edge must not leave a gap there for coordinates without rounding errors");
}

/// Meshes without gaps: every ray at an inner edge or vertex hits something
fn shared_edges() {
    // corners of a square around its middle, every order of the corners of every triangle
    let corner = [V(0., 0., 0.), V(4., 0., 0.), V(4., 4., 0.), V(0., 4., 0.)];
    let mid = V(2., 2., 0.);
    let fan: Vec<[V; 3]> = (0..4).map(|i| [corner[i], corner[(i + 1) % 4], mid]).collect();
    let two = vec![[corner[0], corner[1], corner[2]], [corner[0], corner[2], corner[3]]];
    let other = vec![[corner[0], corner[1], corner[3]], [corner[1], corner[2], corner[3]]];
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let mut meshes: Vec<Vec<[V; 3]>> = vec![];
    for m in [two, other] {
        for a in perms {
            for b in perms {
                meshes.push(vec![
                    [m[0][a[0]], m[0][a[1]], m[0][a[2]]],
                    [m[1][b[0]], m[1][b[1]], m[1][b[2]]],
                ]);
            }
        }
    }
    for a in perms {
        for b in perms {
            meshes.push(
                fan.iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let p = if i % 2 == 0 { a } else { b };
                        [t[p[0]], t[p[1]], t[p[2]]]
                    })
                    .collect(),
            );
        }
    }
    // the plane as xy, yz or zx plane
    let cases: Vec<(usize, Vec<[V; 3]>)> = meshes.into_iter().flat_map(|m| (0..3).map(move |a| (a, m.clone()))).collect();
    let turn = |a: usize, p: V| match a {
        0 => p,
        1 => V(p.2, p.0, p.1),
        _ => V(p.1, p.2, p.0),
    };
    par(&cases, |_, (axis, mesh)| {
        let hs: Vec<_> = mesh.iter().map(|t| tri(turn(*axis, t[0]), turn(*axis, t[1]), turn(*axis, t[2])).build(matte(GRAY))).collect();
        let world = bvh(hs.clone());
        let mut n = 0;
        let g: Vec<f64> = (1..16).map(|i| i as f64 * 0.25).collect();
        let e = [-2., -1., -0.5, 0., 0.5, 1.];
        for x in &g {
            for y in &g {
                let p = V(*x, *y, 0.);
                let on_edge = x == y || x + y == 4.;
                if !on_edge && !thorough() {
                    continue;
                }
                for dx in e {
                    for dy in e {
                        for dz in [-1., 1., 0.5, -2.] {
                            for s in [1., 0.25, 4.] {
                                let d = V(dx, dy, dz) * s;
                                let o = turn(*axis, p - d * (2. / s));
                                let d = turn(*axis, d);
                                let r = ray(o, d);
                                n += 1;
                                let k = hs.iter().filter(|h| h.hit(&r, &Interval::new(0.001, f64::INFINITY)).is_some()).count();
                                must!(k > 0, "triangles {:?} (axis {}) leave a gap for the ray from {:?} direction {:?} at {:?}", mesh, axis, o, d, p);
                                must!(on_edge || k == 1, "triangles {:?} (axis {}): the ray from {:?} direction {:?} hits {} of them inside", mesh, axis, o, d, k);
                                must!(world.hit(&r, &Interval::new(0.001, f64::INFINITY)).is_some(), "hierarchy of triangles {:?} leaves a gap for the ray from {:?} direction {:?}", mesh, o, d);
                            }
                        }
                    }
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    sample(|| "squares of 2 or 4 triangles in every winding, rays exactly at the inner edges".into());
}

fn degenerate() {
    let z = V(0., 0., 0.);
    let flat = vec![
        [z, z, z],
        [z, V(1., 0., 0.), V(1., 0., 0.)],
        [V(1., 2., 3.), V(1., 2., 3.), V(0., 1., 0.)],
        [z, V(1., 2., 4.), V(2., 4., 8.)],
        [V(0., 0., 0.), V(2., 0., 0.), V(-1., 0., 0.)],
        [V(1., 1., 1.), V(0., 0., 0.), V(1., 1., 1.)],
        [V(4., 0., 0.), V(4., 8., 0.), V(4., 2., 0.)],
    ];
    let g = [-1., 0., 0.5, 2.];
    let origins = grid(&g, &g, &g);
    let mut dirs = neighbours();
    dirs.extend(sphere_points(40));
    par(&flat, |_, p| {
        for s in [1., 1e-6, 1e6] {
            for uv in [[(0., 0.), (0., 0.), (0., 0.)], [(0., 0.), (1., 0.), (0., 1.)]] {
                let h = tri_uv(p[0] * s, p[1] * s, p[2] * s, uv).build(matte(GRAY));
                let b = bvh(vec![h.clone()]);
                for o in &origins {
                    let mut ds = dirs.clone();
                    for q in p {
                        ds.push(*q - *o);
                    }
                    for d in ds {
                        let d = d * s;
                        if d == V::ZERO {
                            continue;
                        }
                        let r = ray(*o * s, d);
                        for (lo, hi) in [(0.001, f64::INFINITY), (f64::NEG_INFINITY, f64::INFINITY)] {
                            let i = Interval::new(lo, hi);
                            must!(h.hit(&r, &i).is_none() && b.hit(&r, &i).is_none(), "the degenerate triangle {:?} scaled by {} is hit by the ray from {:?} direction {:?}", p, s, *o * s, d);
                            transitions(1);
                            traces(1);
                        }
                    }
                }
                states(1);
            }
        }
    });
}
