//! The lights of every scene out of a bounded set of lists, nestings and worlds.
use crate::kit::*;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::{Blend, Materials};
use solstrale::ray_trace;
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::Renderer;
use std::sync::mpsc::channel;

#[derive(Clone, Debug)]
enum Node {
    /// shape and material, at a position
    Leaf(usize, usize, V),
    Group(Vec<Node>),
    Fog(Box<Node>),
}

const SHAPES: usize = 4;
const MATS: usize = 8;
const SIZES: [f64; 9] = [1e-9, 1e-6, 1e-5, 1e-3, 0.01, 0.1, 10., 300., 1e4];
const LIGHTS: [(V, Option<f64>); 8] = [
    (V(1e-9, 0., 0.), None),
    (V(1e9, 1e9, 1e9), None),
    (V(0., 0., 2.), Some(1e-6)),
    (V(1., 1., 1.), Some(1e3)),
    (V(1., 1., 1.), Some(1e7)),
    (V(1., 1., 1.), Some(f64::INFINITY)),
    (V(0., 0., 0.), Some(1.)),
    (V(-1., 0., 0.), None),
];
fn emits(m: usize) -> bool {
    m < 3 || m >= MATS
}

fn shape(i: usize, at: V) -> Shape {
    match i {
        0 => sph(at, 0.5),
        1 => quad(at, V(1., 0.2, 0.), V(0., 0.8, -0.3)),
        2 => tri(at, at + V(1., 0., 0.2), at + V(0.1, 0.9, 0.)),
        // axis aligned and far from unit size
        3 => quad(at, V(0., 20., 0.), V(0., 0., 0.05)),
        // of all sizes
        i => {
            let s = SIZES[(i - SHAPES) / 3];
            match (i - SHAPES) % 3 {
                0 => sph(at, s),
                1 => quad(at, V(s, 0.2 * s, 0.), V(0., 0.8 * s, -0.3 * s)),
                _ => tri(at, at + V(s, 0., 0.2 * s), at + V(0.1 * s, 0.9 * s, 0.)),
            }
        }
    }
}
fn material(i: usize) -> Materials {
    match i {
        0 => light(V(3., 2., 1.)),
        1 => light_h(V(1., 1., 1.), 2.),
        2 => light(V(0., 0., 0.)),
        3 => matte(GRAY),
        4 => metal(GRAY, 0.2),
        5 => glass(WHITE, 1.5),
        6 => Blend::new(matte(GRAY), metal(WHITE, 0.), 0.4),
        7 => Blend::new(glass(WHITE, 1.3), Blend::new(matte(GRAY), matte(WHITE), 1.), 0.),
        // lights of all strengths
        i => {
            let (c, h) = LIGHTS[i - MATS];
            match h {
                Some(h) => light_h(c, h),
                None => light(c),
            }
        }
    }
}

impl Node {
    fn build(&self) -> Hittables {
        match self {
            Node::Leaf(s, m, at) => shape(*s, *at).build(material(*m)),
            Node::Group(g) => bvh(g.iter().map(|n| n.build()).collect()),
            Node::Fog(n) => ConstantMedium::new(n.build(), 0.5, v3(GRAY)),
        }
    }
    fn lights(&self, out: &mut Vec<Shape>) {
        match self {
            Node::Leaf(s, m, at) => {
                if emits(*m) {
                    out.push(shape(*s, *at))
                }
            }
            Node::Group(g) => g.iter().for_each(|n| n.lights(out)),
            Node::Fog(_) => {}
        }
    }
}

/// Does the light look like the shape? Boxes and a ray at its center
fn same(h: &Hittables, s: &Shape) -> bool {
    let (lo, hi) = box_lo_hi(h);
    let (a, b) = s.bounds();
    if (lo - a).max_abs() > 2e-4 || (hi - b).max_abs() > 2e-4 {
        return false;
    }
    let c = s.center();
    for o in [c + V(3., 4., 5.), c + V(-2., 1., 6.), c + V(0.1, -7., 1.)] {
        let d = c - o;
        if judge(&s.crossings(o, d), o, d, 0.001, f64::INFINITY, &h.hit(&ray(o, d), &all())).is_err() {
            return false;
        }
    }
    true
}

fn check(world: &Node, sampling: bool) {
    let mut want = vec![];
    world.lights(&mut want);
    states(1);
    transitions(1);
    let got = Renderer::new(scene(world.build(), PathTracingShader::new(3), GRAY));
    let r = match (got, want.is_empty()) {
        (Ok(_), true) => violation(&format!("a scene without lights is accepted: {:?}", world)),
        (Err(e), false) => violation(&format!("a scene with lights is refused ({}): {:?}", e, world)),
        (Err(_), true) => {
            // nothing is rendered
            let (tx, rx) = channel();
            let (_atx, arx) = channel();
            let r = ray_trace(scene(world.build(), PathTracingShader::new(3), GRAY), &tx, &arx);
            must!(r.is_err(), "a scene without lights is rendered: {:?}", world);
            must!(rx.try_recv().is_err(), "a scene without lights reports progress: {:?}", world);
            traces(1);
            return;
        }
        (Ok(r), false) => r,
    };
    let mut left = want.clone();
    for l in &r.lights {
        match left.iter().position(|s| same(l, s)) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => violation(&format!("{:?} is used as a light once too often or is none, in the scene {:?}", l, world)),
        }
    }
    must!(left.is_empty(), "the lights {:?} of the scene {:?} are not used", left, world);
    traces(1);
    if sampling {
        let alph = |_: usize| extremes();
        for l in &r.lights {
            for o in [V(5., 6., 7.), V(-3., 0.1, 0.), V(1.2, -8., 0.3), V(0., 0., 1e5), V(1e-9, 0.7, -0.3)] {
                let n = tree(&alph, 3, 0, || (l.random_direction(v3(o)), 0), |(d, _), leaf| {
                    must!(vv(d).finite(), "light {:?} seen from {:?} gives the direction {:?} for the draws {:?}", l, o, d, leaf.choice);
                    let p = l.pdf_value(v3(o), d);
                    must!(!p.is_nan() && p >= 0., "light {:?} seen from {:?} has density {} in the direction {:?}", l, o, p, d);
                });
                transitions(2 * n);
                traces(n);
            }
        }
        // shading something with these lights
        let (tx, rx) = channel();
        let (_atx, arx) = channel();
        let mut objs = vec![sph(V::ZERO, 4.).build(matte(GRAY))];
        objs.push(world.build());
        let r = with_draws(&[], 0.3, || guarded(|| ray_trace(scene(bvh(objs), PathTracingShader::new(3), GRAY), &tx, &arx).map_err(|e| e.to_string()))).0;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => violation(&format!("rendering fails with {} in the scene {:?}", e, world)),
            Err(e) => violation(&format!("rendering panics with {} in the scene {:?}", e, world)),
        }
        must!(rx.try_iter().count() == 1, "no progress is reported for {:?}", world);
        traces(1);
    }
}

fn position(i: usize) -> V {
    [V(-6., 1., 0.5), V(2., -5., 1.), V(0.3, 0.4, -6.), V(7., 7., 7.), V(-1., 9., -2.)][i % 5]
}

pub fn run() {
    let atoms: Vec<(usize, usize)> = (0..SHAPES).flat_map(|s| (0..MATS).map(move |m| (s, m))).collect();
    let n = atoms.len();
    let leaf = |a: usize, i: usize| Node::Leaf(atoms[a].0, atoms[a].1, position(i));
    // single objects, alone, in a group, within fog
    let mut worlds: Vec<(Node, bool)> = vec![(Node::Group(vec![]), true), (Node::Group(vec![Node::Group(vec![]), Node::Group(vec![Node::Group(vec![])])]), true)];
    for a in 0..n {
        for w in [
            leaf(a, 0),
            Node::Group(vec![leaf(a, 0)]),
            Node::Group(vec![Node::Group(vec![]), Node::Group(vec![Node::Group(vec![leaf(a, 0)])])]),
            Node::Fog(Box::new(leaf(a, 1))),
            Node::Group(vec![Node::Fog(Box::new(Node::Group(vec![leaf(a, 0), leaf(a, 1)])))]),
        ] {
            worlds.push((w, true));
        }
    }
    // of all sizes and strengths
    for s in 0..SHAPES + 3 * SIZES.len() {
        for m in (0..MATS + LIGHTS.len()).filter(|m| *m >= MATS || s >= SHAPES) {
            let l = Node::Leaf(s, m, position(s));
            worlds.push((l.clone(), false));
            worlds.push((Node::Group(vec![l.clone(), leaf(3, 1)]), false));
            worlds.push((Node::Group(vec![Node::Group(vec![leaf(0, 3), l])]), false));
        }
    }
    // pairs and triples, in all nestings, the same place included
    for c in product(&[n, n]) {
        let (a, b) = (c[0], c[1]);
        for w in [
            vec![leaf(a, 0), leaf(b, 1)],
            vec![leaf(a, 0), leaf(b, 0)],
            vec![Node::Group(vec![leaf(a, 0)]), Node::Fog(Box::new(leaf(b, 1))), Node::Group(vec![])],
            vec![Node::Group(vec![leaf(a, 2), Node::Group(vec![leaf(b, 1), Node::Group(vec![])])])],
            vec![leaf(a, 0), Node::Fog(Box::new(Node::Group(vec![leaf(b, 1), leaf(a, 2)])))],
        ] {
            worlds.push((Node::Group(w), thorough() || c[0] % 8 == c[1] % 8));
        }
    }
    // emitting or not for each of up to 4 (thorough 8) objects of mixed shapes in every nesting of pairs
    let m = tier(9, 12);
    for k in 3..=m {
        for bits in 0..1usize << k {
            for rot in 0..3 {
                let mut v: Vec<Node> = (0..k)
                    .map(|i| {
                        let mat = if bits >> i & 1 == 1 { (i + rot) % 3 } else { 3 + (i + rot) % 5 };
                        Node::Leaf((i + rot) % SHAPES, mat, position(i) + V(0., 0., i as f64))
                    })
                    .collect();
                match rot {
                    0 => {}
                    1 => {
                        // a chain
                        while v.len() > 1 {
                            let a = v.pop().unwrap();
                            let b = v.pop().unwrap();
                            v.push(Node::Group(vec![b, a]));
                        }
                    }
                    _ => {
                        let t = v.split_off(k / 2);
                        v = vec![Node::Group(v), Node::Group(t)];
                    }
                }
                worlds.push((Node::Group(v), false));
            }
        }
    }
    // many lights
    for k in (10..=tier(40usize, 150)).chain([64, 65, 127, 128, 129, 255, 256, 257, 300, 1500]) {
        for rot in 0..3 {
            let mut v: Vec<Node> = (0..k)
                .map(|i| {
                    let mat = if rot == 2 && i % 3 == 0 { 3 + i % 5 } else { i % 3 };
                    Node::Leaf((i + rot) % SHAPES, mat, V((i * 7 % k) as f64 * 2., (i * 3 % 11) as f64, i as f64))
                })
                .collect();
            if rot == 1 && k < 70 {
                while v.len() > 1 {
                    let a = v.pop().unwrap();
                    let b = v.pop().unwrap();
                    v.push(Node::Group(vec![b, a]));
                }
            }
            worlds.push((Node::Group(v), false));
        }
    }
    let triples: Vec<Vec<usize>> = product(&[MATS * 4, MATS * 4, tier(MATS, MATS * 4)]);
    for c in &triples {
        let w = vec![leaf(c[0] % n, 0), leaf((c[1] * 7) % n, 1), leaf((c[2] * 11 + c[0]) % n, 2)];
        worlds.push((Node::Group(w), false));
    }
    sample(|| format!("{:?}", worlds[worlds.len() / 3].0));
    note("scenes", worlds.len());
    par(&worlds, |_, (w, s)| check(w, *s));
    assume("a blend of a light with another material is left open");
}
