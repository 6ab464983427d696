//! Blended materials: shares of the two materials over all cells of the draws, for scattering and for normals.
use crate::c24::share;
use crate::kit::*;
use fastrand::mc_hook::encode;
use solstrale::geo::{Onb, Uv};
use solstrale::hittable::{Hittable, Hittables};
use solstrale::material::texture::Textures;
use solstrale::material::{Blend, Dielectric, Lambertian, Material, Materials, Metal, RayHit, RayScatter};
use solstrale::renderer::shader::{AlbedoShader, PathTracingShader, Shader};
use std::f64::consts::PI;

/// What a scattering came to: the color tells the material
#[derive(Clone, Debug)]
struct Out {
    color: V,
    dir: V,
    weight: f64,
}

fn scatter(m: &Materials, front: bool, lights: &[Hittables]) -> Out {
    let r = ray(V(1.3, 2.6, 0.4), V(-1.3, -2.6, -0.4));
    // without the normal of the material
    let plain = matte(GRAY);
    let mut rec = RayHit::new(v3(V::ZERO), Onb::new(v3(V(0., 1., 0.))), &plain, 1., Uv::new(0.3, 0.6), front);
    rec.material = m;
    match m.scatter(&r, &rec, lights) {
        RayScatter::ScatterBasic(s) => Out { color: vv(s.color), dir: vv(s.ray.direction), weight: 1. },
        RayScatter::ScatterPdf(s) => Out { color: vv(s.color), dir: vv(s.ray.direction), weight: s.probability },
        RayScatter::ScatterEmission(s) => Out { color: vv(s.color), dir: V::ZERO, weight: 0. },
    }
}

fn n_map(c: V) -> Option<Textures> {
    Some(tex(c))
}
const LEAN: [V; 4] = [V(0.5, 0.5, 1.), V(1., 0.5, 0.75), V(0.3, 0.9, 0.8), V(0.1, 0.2, 0.9)];
fn color(i: usize) -> V {
    [V(0.9, 0.1, 0.1), V(0.1, 0.8, 0.2), V(0.2, 0.3, 0.7), V(0.6, 0.6, 0.1)][i]
}
/// Materials with different colors and normals, that scatter without random numbers or with them
fn leaf(i: usize, kind: usize) -> Materials {
    let n = if i == 0 { None } else { n_map(LEAN[i]) };
    match (i + kind) % 4 {
        0 => Metal::new(tex(color(i)), n, 0.),
        1 => Lambertian::new(tex(color(i)), n),
        2 => Dielectric::new(tex(color(i)), n, 1.5),
        _ => Metal::new(tex(color(i)), n, 0.4),
    }
}

/// The formula of the material with the color i
fn check_kind(what: &dyn Fn() -> String, i: usize, kind: usize, o: &Out) {
    let n = V(0., 1., 0.);
    let d = V(-1.3, -2.6, -0.4).unit();
    let mirror = d - n * (2. * d.dot(n));
    match (i + kind) % 4 {
        0 => must!(vclose(o.dir, mirror, 1e-9), "{}: mirror sends the ray to {:?} instead of {:?}", what(), o.dir, mirror),
        1 => must!(o.weight == 0. || o.weight.is_nan() || (o.dir.dot(n) >= 0. && o.weight <= 2. + 1e-9), "{}: direction {:?} with weight {}", what(), o.dir, o.weight),
        2 => {
            let r = 1. / 1.5;
            let across = (d - n * d.dot(n)) * r;
            let refracted = across - n * (1. - across.dot(across)).sqrt();
            must!(vclose(o.dir, mirror, 1e-9) || vclose(o.dir, refracted, 1e-9), "{}: glass sends the ray to {:?}", what(), o.dir);
        }
        _ => must!((o.dir - mirror).len() <= 0.4 + 1e-9, "{}: mirror with fuzz sends the ray to {:?}", what(), o.dir),
    }
}

fn index(what: &dyn Fn() -> String, c: V) -> usize {
    (0..4).find(|i| vclose(c, color(*i), 1e-12)).unwrap_or_else(|| violation(&format!("{}: color {:?} of none of the materials", what(), c)))
}
fn normal_index(what: &dyn Fn() -> String, pure: &[V], n: V) -> usize {
    (0..pure.len()).find(|i| vclose(n, pure[*i], 1e-9)).unwrap_or_else(|| violation(&format!("{}: normal {:?} of none of the materials {:?}", what(), n, pure)))
}

/// A blend as a tree
#[derive(Clone, Debug)]
enum Mix {
    Of(usize),
    Blend(Box<Mix>, Box<Mix>, f64),
}
use Mix::*;
fn mix(a: Mix, b: Mix, f: f64) -> Mix {
    Mix::Blend(Box::new(a), Box::new(b), f)
}
impl Mix {
    fn build(&self, kind: usize) -> Materials {
        match self {
            Of(i) => leaf(*i, kind),
            Mix::Blend(a, b, f) => Blend::new(a.build(kind), b.build(kind), *f),
        }
    }
    fn share(&self, out: &mut [f64; 4], p: f64) {
        match self {
            Of(i) => out[*i] += p,
            Mix::Blend(a, b, f) => {
                a.share(out, p * (1. - f));
                b.share(out, p * f);
            }
        }
    }
    fn depth(&self) -> usize {
        match self {
            Of(_) => 0,
            Mix::Blend(a, b, _) => 1 + a.depth().max(b.depth()),
        }
    }
}

/// One level: share by fine cells of every position of the deciding draw
fn fine() {
    let k = tier(1000, 8000);
    let mut fs: Vec<f64> = (0..=20).map(|i| i as f64 / 20.).collect();
    fs.extend([0.001, 0.01, 1. / 3., 0.123, 0.777, 0.99, 0.999, 1e-6, 1. - 1e-6]);
    let mut cases = vec![];
    for f in fs {
        for a in 0..2 {
            for normals in [false, true] {
                cases.push((f, a, normals));
            }
        }
    }
    par(&cases, |_, (f, a, normals)| {
        let what = || format!("blend of two with the factor {}{}", f, if *normals { ", normal" } else { "" });
        let (i, j) = if *a == 0 { (0, 1) } else { (1, 0) };
        // both scatter without random numbers
        let m = |i: usize| if i == 0 { leaf(0, 0) } else { leaf(1, 3) };
        let blend = Blend::new(m(i), m(j), *f);
        let blend = if *a == 1 { blend.clone() } else { blend };
        let onb = || Onb::new(v3(V(0.2, 0.9, 0.3)));
        let pure: Vec<V> = (0..2).map(|i| vv(m(i).get_transformed_normal(onb(), Uv::new(0.2, 0.7)))).collect();
        must!((pure[0] - pure[1]).len() > 0.1, "normal maps {:?} and {:?} give the same normals", LEAN[0], LEAN[1]);
        let which = |bits: &[u64], filler: u64| -> usize {
            with_bits(bits, filler, || {
                if *normals {
                    normal_index(&what, &pure, vv(blend.get_transformed_normal(onb(), Uv::new(0.2, 0.7))))
                } else {
                    let o = scatter(&blend, true, &[]);
                    let i = index(&what, o.color);
                    check_kind(&what, i, if i == 0 { 0 } else { 3 }, &o);
                    i
                }
            })
            .0
        };
        // the draw that decides is the one that makes a difference
        let mut deciding = vec![];
        for p in 0..6 {
            let mut bits = vec![encode(0.6); p + 1];
            let second = cells(k).into_iter().filter(|c| {
                bits[p] = *c;
                which(&bits, encode(0.6)) == j
            }).count();
            if second != 0 && second != k {
                let share = second as f64 / k as f64;
                must!((share - f).abs() <= 1.01 / k as f64, "{}: the second is chosen with probability {}", what(), share);
                deciding.push(p);
            } else if f.min(1. - f) < 1. / k as f64 {
                must!((second == k) == (*f > 0.5), "{}: the {} is always chosen", what(), if second == k { "second" } else { "first" });
            }
        }
        must!(!deciding.is_empty() || f.min(1. - f) < 1. / k as f64, "{}: no random number decides about the material", what());
        // extreme draws
        for (n, x) in extremes().into_iter().enumerate() {
            let got = which(&[x], encode(0.6));
            let v = [0., 1., 0.25, 0.5, 0.75][n];
            if *f == 1. {
                must!(got == j, "{}: the first is chosen for the draw {}", what(), v);
            }
            if *f == 0. && n > 0 {
                must!(got == i, "{}: the second is chosen for the draw {}", what(), v);
            }
        }
        states(1);
        traces(k as u64 + 5);
        transitions(k as u64 + 5);
    });
}

fn mixes() -> Vec<Mix> {
    let mut v = vec![];
    let fs: &[f64] = tier(&[0., 0.25, 0.6, 1.][..], &[0., 0.05, 0.25, 0.5, 0.6, 0.9, 1.][..]);
    for &f in fs {
        v.push(mix(Of(0), Of(1), f));
        v.push(mix(Of(2), Of(2), f));
        for &g in fs {
            v.push(mix(mix(Of(0), Of(1), f), Of(2), g));
            v.push(mix(Of(3), mix(Of(1), Of(2), f), g));
            for &h in fs {
                v.push(mix(mix(Of(0), Of(1), f), mix(Of(2), Of(3), h), g));
                v.push(mix(Of(0), mix(Of(1), mix(Of(2), Of(3), f), g), h));
                v.push(mix(mix(mix(Of(3), Of(1), f), Of(2), g), Of(0), h));
            }
        }
    }
    v
}

/// Nested blends: shares over the tree of the deciding draws
fn nested() {
    let ms = mixes();
    let k = 20;
    let lamp = [sph(V(0., 9., 0.), 2.).build(light(WHITE))];
    let mut cases = vec![];
    for m in &ms {
        for kind in 0..tier(2, 4) {
            cases.push((m, kind));
        }
    }
    par(&cases, |_, (m, kind)| {
        let blend = m.build(*kind);
        let mut want = [0.; 4];
        m.share(&mut want, 1.);
        let tol = 0.01 + 1e-9;
        for normals in [false, true] {
            let what = || format!("{} of the blend {:?}", if normals { "normal" } else { "scattering" }, m);
            let onb = || Onb::new(v3(V(0.2, 0.9, 0.3)));
            let pure: Vec<V> = (0..4).map(|i| vv(leaf(i, *kind).get_transformed_normal(onb(), Uv::new(0.2, 0.7)))).collect();
            let mut got = [0.; 4];
            let n = tree_spread(
                &|_| cells(k),
                m.depth(),
                || {
                    guarded(|| {
                        if normals {
                            normal_index(&what, &pure, vv(blend.get_transformed_normal(onb(), Uv::new(0.2, 0.7))))
                        } else {
                            let o = scatter(&blend, true, &lamp);
                            let i = index(&what, o.color);
                            check_kind(&what, i, *kind, &o);
                            i
                        }
                    })
                },
                |r, l| got[r.unwrap_or_else(|e| violation(&format!("{}: panic {}", what(), e)))] += l.weight,
            );
            for i in 0..4 {
                must!((got[i] - want[i]).abs() < tol, "{}: material {} is chosen with probability {} instead of {}", what(), i, got[i], want[i]);
            }
            states(1);
            traces(n);
            transitions(n);
        }
    });
}

/// Blends of materials that draw random numbers: each behaves as it does alone
fn energy() {
    let lamp_shape = quad(V(-1., 2., -1.), V(2., 0., 0.), V(0., 0., 2.));
    let lamp = [lamp_shape.build(light(WHITE))];
    let n = V(0., 1., 0.);
    let (all_, part) = share(&lamp_shape, n);
    let k = 12;
    for f in tier(vec![0., 0.25, 0.5, 1.], vec![0., 0.25, 0.5, 0.75, 1.]) {
        for nest in [false, true] {
            let inner = || Lambertian::new(tex(color(1)), None);
            let second = if nest { Blend::new(Metal::new(tex(color(2)), None, 0.), inner(), 0.5) } else { inner() };
            let blend = Blend::new(Lambertian::new(tex(color(0)), None), second, f);
            let p = [1. - f, if nest { f / 2. } else { f }];
            let mut got = [[0.; 2]; 2];
            let leaves = tree_spread(&|_| cells(k), 5, || scatter(&blend, true, &lamp), |o, l| {
                let i = index(&|| "blend".into(), o.color);
                if i < 2 && o.weight > 0. {
                    got[i][0] += l.weight * o.weight;
                    if lamp_shape.crossings(V::ZERO, o.dir).iter().any(|c| c.t > 0.) {
                        got[i][1] += l.weight * o.weight;
                    }
                }
            });
            for i in 0..2 {
                must!((got[i][0] - p[i] * all_).abs() < 0.04 && (got[i][1] - p[i] * part).abs() < 0.04, "blend of diffuse materials with the factor {}: returns {:?} of the light from everywhere and from a light by material {} instead of {:?}", f, got[i], i, (p[i] * all_, p[i] * part));
            }
            states(1);
            traces(leaves);
            transitions(leaves);
        }
    }
}

/// Through shapes and shaders
fn shaded() {
    let shapes = [sph(V(0., 0., 0.), 1.), quad(V(-1., -1., 0.), V(2., 0., 0.), V(0., 2., 0.)), tri_uv(V(-2., -2., 0.), V(2., -2., 0.), V(0., 3., 0.), [(0., 0.), (1., 0.), (0.5, 1.)])];
    let k = 20;
    for s in &shapes {
        for f in [0., 0.3, 0.75, 1.] {
            let what = || format!("{:?} with a blend of factor {}", s, f);
            let start = ray(V(0.2, 0.1, 5.), V(0., 0., -1.));
            let m = |i: usize| if i == 0 { leaf(0, 0) } else { leaf(1, 3) };
            let alone: Vec<Hittables> = (0..2).map(|i| s.build(m(i))).collect();
            let pure: Vec<V> = alone.iter().map(|h| vv(h.hit(&start, &all()).unwrap_or_else(|| violation(&format!("{}: not hit", what()))).normal)).collect();
            let h = s.build(Blend::new(m(0), m(1), f));
            let world = bvh(vec![h.clone(), far_light()]);
            let r = renderer(bvh(vec![h.clone(), far_light()]), PathTracingShader::new(4), V(0.5, 0.25, 1.));
            let mut n2 = 0.;
            let mut c2 = 0.;
            let n = tree_spread(
                &|_| cells(k),
                2,
                || {
                    let rec = world.hit(&start, &all()).unwrap_or_else(|| violation(&format!("{}: not hit", what())));
                    let normal = vv(rec.normal);
                    (normal, vv(AlbedoShader::new().shade(&r, &rec, &start, 0, 0.).color))
                },
                |(normal, c), l| {
                    if normal_index(&what, &pure, normal) == 1 {
                        n2 += l.weight;
                    }
                    if index(&what, c) == 1 {
                        c2 += l.weight;
                    }
                },
            );
            must!((n2 - f).abs() < 0.01, "{}: normal of the second with probability {}", what(), n2);
            must!((c2 - f).abs() < 0.01, "{}: color of the second with probability {}", what(), c2);
            // path traced
            let mut mean = V::ZERO;
            let shader = PathTracingShader::new(4);
            tree_spread(
                &|_| cells(k),
                2,
                || {
                    let rec = world.hit(&start, &all()).unwrap_or_else(|| violation(&format!("{}: not hit", what())));
                    vv(shader.shade(&r, &rec, &start, 0, 0.).color)
                },
                |c, l| mean = mean + c * l.weight,
            );
            let want = (color(0) * (1. - f) + color(1) * f).mulv(V(0.5, 0.25, 1.));
            // (mapped normals can send a mirrored ray back into the shape)
            if matches!(s, Shape::Quad { .. }) {
                must!((mean - want).max_abs() < 0.01, "{}: shows {:?} instead of {:?}", what(), mean, want);
            }
            states(1);
            traces(n);
            transitions(n);
        }
    }
}

/// A light as one of the materials
fn lights() {
    for f in [0., 0.3, 1.] {
        for front in [true, false] {
            for swap in [false, true] {
                let (a, b) = (light(V(5., 4., 3.)), leaf(0, 0));
                let m = if swap { Blend::new(b, a, 1. - f) } else { Blend::new(a, b, f) };
                let mut second = 0;
                for x in cells(100) {
                    let o = with_bits(&[x], encode(0.6), || scatter(&m, front, &[])).0;
                    if vclose(o.color, color(0), 1e-12) {
                        second += 1;
                    } else {
                        must!(o.color == if front { V(5., 4., 3.) } else { V::ZERO } && o.dir == V::ZERO, "blend with a light gives the color {:?}", o.color);
                    }
                }
                must!((second as f64 / 100. - f).abs() < 0.0101, "blend with a light: the other is chosen with probability {} instead of {}", second as f64 / 100., f);
                traces(100);
            }
        }
    }
}

pub fn run() {
    must!(encode(0.5) != 0, "draws");
    fine();
    nested();
    energy();
    shaded();
    lights();
    let _ = PI;
    sample(|| "blend(blend(0,1,0.25),blend(2,3,0.6),1): 20^2 cells of the draws, scattering and normal".into());
}
