//! What a camera sees does not depend on where the scene is, nor on how its objects are listed or grouped.
use crate::kit::*;
use solstrale::camera::{Camera, CameraConfig};
use solstrale::geo::transformation::{RotationX, RotationY, RotationZ, Scale, Transformations, Transformer, Translation};
use solstrale::geo::Uv;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::{Blend, Dielectric, Lambertian, Materials, Metal};
use solstrale::renderer::shader::{AlbedoShader, NormalShader, PathTracingShader, Shader, Shaders, SimpleShader};
use solstrale::renderer::Renderer;
use solstrale::util::interval::RAY_INTERVAL;

/// Where a scene is: scaled, turned about x, y and z, then moved
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Motion {
    s: f64,
    r: V,
    t: V,
}

pub const STAY: Motion = Motion { s: 1., r: V::ZERO, t: V::ZERO };

impl Motion {
    fn dir(&self, d: V) -> V {
        let turn = |a: f64, b: f64, deg: f64| {
            let (s, c) = match deg {
                90. => (1., 0.),
                180. => (0., -1.),
                270. => (-1., 0.),
                _ => deg.to_radians().sin_cos(),
            };
            (a * c - b * s, a * s + b * c)
        };
        let V(mut x, mut y, mut z) = d;
        (z, y) = turn(z, y, self.r.0);
        (z, x) = turn(z, x, self.r.1);
        (y, x) = turn(y, x, self.r.2);
        V(x, y, z) * self.s
    }
    fn point(&self, p: V) -> V {
        self.dir(p) + self.t
    }
    fn unit(&self, d: V) -> V {
        self.dir(d) * (1. / self.s)
    }
    fn shape(&self, s: &Shape) -> Shape {
        match s {
            Shape::Sphere { c, r } => sph(self.point(*c), r * self.s),
            Shape::Quad { q, u, v } => quad(self.point(*q), self.dir(*u), self.dir(*v)),
            Shape::Tri { p, uv } => tri_uv(self.point(p[0]), self.point(p[1]), self.point(p[2]), *uv),
        }
    }
    /// The same by the means of the library
    fn transformer(&self) -> Transformations {
        let l: Vec<Box<dyn Transformer>> = vec![
            Box::new(Scale::new(self.s)),
            Box::new(RotationX::new(self.r.0)),
            Box::new(RotationY::new(self.r.1)),
            Box::new(RotationZ::new(self.r.2)),
            Box::new(Translation::new(v3(self.t))),
        ];
        Transformations::new(l)
    }
}

fn motions(turns: bool) -> Vec<Motion> {
    let m = |s, r, t| Motion { s, r, t };
    let o = V::ZERO;
    let mut v = vec![
        m(1., o, V(7., -3., 2.)),
        m(1., o, V(-300., 0., 0.)),
        m(1., o, V(0.1, 900., -0.3)),
        m(2., o, o),
        m(0.25, o, o),
        m(10., o, V(-40., 55., 3.)),
    ];
    if turns {
        for r in [
            V(90., 0., 0.),
            V(0., 90., 0.),
            V(0., 0., 90.),
            V(180., 0., 0.),
            V(0., 180., 0.),
            V(0., 0., 270.),
            V(33., -71., 120.),
            V(-5., 3., 1.),
        ] {
            v.push(m(1., r, o));
        }
        v.push(m(3., V(20., 50., -160.), V(10., -20., 30.)));
        v.push(m(0.5, V(90., 0., 45.), V(0., 0., -100.)));
    }
    if thorough() {
        for k in 0..20 {
            let p = sphere_points(40)[k * 2];
            let r = if turns { V(k as f64 * 17., k as f64 * 31., k as f64 * 53.) } else { o };
            v.push(m([1., 0.5, 2., 5.][k % 4], r, p * (3f64.powi(k as i32 % 6))));
        }
    }
    v
}

/// Objects of a scene; densities and lengths are those of the unscaled scene
pub enum Obj {
    Solid(Shape, Box<dyn Fn(f64) -> Materials + Sync>),
    /// color and half length
    Light(Shape, V, Option<f64>),
    Fog(Vec<Shape>, f64),
}

pub struct World {
    pub name: &'static str,
    pub objs: Vec<Obj>,
    /// nothing in it has a preferred direction
    pub turns: bool,
    /// how its lights are drawn depends on their order
    pub orders: bool,
    pub from: V,
    pub at: V,
    pub fov: f64,
    pub aperture: f64,
}

pub fn worlds() -> Vec<World> {
    let x = V(1., 0., 0.);
    let y = V(0., 1., 0.);
    let z = V(0., 0., 1.);
    fn solid(s: Shape, f: impl Fn(f64) -> Materials + Sync + 'static) -> Obj {
        Obj::Solid(s, Box::new(f))
    }
    let boxed = |lo: V, hi: V, f: fn(f64) -> Materials| box_shapes(lo, hi).into_iter().map(move |s| solid(s, f));
    let chess = || image_tex(4, 4, |x, y| if (x + y) % 2 == 0 { [250, 30 + 40 * x as u8, 10] } else { [0, 90, 20 + 50 * y as u8] });
    let bumps = || image_tex(3, 3, |x, y| [100 + 20 * x as u8, 110 + 15 * y as u8, 250]);
    let mut w = vec![];

    // mirrors, glass and lights that fade
    let mut objs = vec![
        solid(sph(V(-0.8, 0.1, 0.2), 0.7), |_| metal(V(0.9, 0.8, 0.7), 0.)),
        solid(sph(V(0.8, -0.1, 0.3), 0.6), |_| glass(V(0.95, 1., 0.9), 1.5)),
        solid(quad(V(-3., -1., 3.), x * 6., z * -6.), |_| metal(V(0.5, 0.9, 0.6), 0.)),
        Obj::Light(quad(V(-2., 2.5, -2.), x * 4., z * 4.), V(4., 3., 2.), Some(6.)),
        Obj::Light(tri(V(-3., -1., -2.), V(3., -1., -2.5), V(0.3, 2., -2.2)), V(0.5, 1., 3.), Some(2.5)),
        Obj::Light(sph(V(1.6, 1.4, 1.1), 0.3), V(9., 1., 0.5), None),
    ];
    objs.extend(boxed(V(-0.4, -0.9, 0.7), V(0.1, -0.5, 1.3), |_| glass(V(0.8, 0.9, 1.), 1.3)));
    w.push(World { name: "mirrors and glass", objs, turns: true, orders: false, from: V(0.3, 0.6, 5.), at: V(0., 0., 0.), fov: 50., aperture: 0. });

    // the same kind of things with textures and normal maps
    w.push(World {
        name: "textured mirrors",
        objs: vec![
            solid(quad(V(-2., -1.5, -1.), x * 4., V(0., 3., 0.5)), move |_| Metal::new(chess(), Some(bumps()), 0.)),
            solid(tri_uv(V(-1., -1., 1.), V(1., -0.8, 0.8), V(0., 1., 1.3), [(0., 0.), (2., 0.), (0.5, 1.5)]), move |_| {
                Dielectric::new(chess(), Some(bumps()), 1.4)
            }),
            Obj::Light(sph(V(0., 2., 4.), 1.5), V(2., 3., 4.), None),
            Obj::Light(quad(V(-4., -4., 6.), y * 8., x * 8.), V(1., 2., 0.5), Some(3.)),
        ],
        turns: true,
        orders: false,
        from: V(-0.5, 0.4, 4.),
        at: V(0.1, 0., 0.),
        fov: 60.,
        aperture: 0.,
    });

    // matte surfaces, one light
    let mut objs = vec![
        solid(quad(V(-3., -1., 3.), x * 6., z * -6.), move |_| Lambertian::new(chess(), None)),
        solid(sph(V(-0.6, -0.3, 0.1), 0.7), move |_| Lambertian::new(chess(), Some(bumps()))),
        solid(tri_uv(V(0.2, -1., 0.9), V(1.7, -0.9, 0.2), V(1., 0.8, 0.4), [(0., 0.), (1., 0.), (0., 1.)]), move |_| {
            Lambertian::new(chess(), Some(bumps()))
        }),
        Obj::Light(sph(V(0.4, 2.4, 1.), 0.6), V(8., 7., 6.), Some(4.)),
    ];
    objs.extend(boxed(V(-1.6, -1., 0.9), V(-1.1, -0.2, 1.4), |_| matte(V(0.3, 0.6, 0.9))));
    w.push(World { name: "matte room", objs, turns: false, orders: false, from: V(0.2, 0.8, 5.), at: V(0., -0.2, 0.), fov: 45., aperture: 0.2 });

    // everything, several lights
    w.push(World {
        name: "rough mirrors, blends and fog",
        objs: vec![
            solid(sph(V(0., -101., 0.), 100.), |_| matte(V(0.6, 0.7, 0.5))),
            solid(sph(V(-1., 0., 0.), 0.8), |_| metal(V(0.9, 0.9, 0.6), 0.4)),
            solid(sph(V(1., -0.2, 0.5), 0.7), |_| Blend::new(glass(WHITE, 1.5), Blend::new(matte(V(0.9, 0.1, 0.1)), metal(WHITE, 0.1), 0.4), 0.6)),
            Obj::Fog(vec![sph(V(0.2, 0.1, 1.2), 0.8)], 1.5),
            Obj::Fog(box_shapes(V(-2., -0.5, -2.), V(2., 0.7, -0.9)).to_vec(), 0.7),
            Obj::Light(quad(V(-1., 3., -1.), x * 2., z * 2.), V(5., 4., 4.), None),
            Obj::Light(tri(V(2.5, 0., 2.), V(2.5, 1.5, 1.), V(2.2, 0.2, 0.)), V(1., 6., 2.), Some(3.)),
        ],
        turns: false,
        orders: true,
        from: V(0.1, 0.5, 5.),
        at: V(0., 0., 0.),
        fov: 55.,
        aperture: 0.,
    });

    // many small objects
    let mut objs = vec![Obj::Light(sph(V(0., 6., 6.), 2.), V(3., 3., 2.), None)];
    let many: [fn(f64) -> Materials; 2] = [|_| metal(V(0.9, 0.7, 0.5), 0.), |_| glass(WHITE, 1.4)];
    for (i, p) in grid(&[-1.2, 0.1, 1.1], &[-1., 0.05, 1.2], &[-0.9, 0.15, 1.]).into_iter().enumerate() {
        let p = p + V((i * 7 % 5) as f64, (i * 3 % 4) as f64, (i * 11 % 6) as f64) * 0.03;
        let shape = match i % 3 {
            0 => sph(p, 0.3),
            1 => tri(p, p + V(0.5, 0.1, 0.1), p + V(0., 0.4, 0.2)),
            _ => quad(p, V(0.4, 0., 0.1), V(0.1, 0.5, 0.)),
        };
        objs.push(match i / 3 % 3 {
            2 => Obj::Light(shape, V(1., 1.5, 2.), Some(2.)),
            k => solid(shape, many[k]),
        });
    }
    w.push(World { name: "many objects", objs, turns: true, orders: false, from: V(0.7, 0.9, 6.), at: V(0., 0., 0.), fov: 40., aperture: 0. });
    w
}

/// How the objects are listed and grouped
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Group {
    Listed,
    Reversed,
    Turned,
    Pairs,
    Chain,
    Single,
    Copied,
}

pub fn group(mut l: Vec<Hittables>, g: Group) -> Hittables {
    match g {
        Group::Listed => bvh(l),
        Group::Reversed => {
            l.reverse();
            bvh(l)
        }
        Group::Turned => {
            let k = l.len() / 2;
            l.rotate_left(k);
            bvh(l)
        }
        Group::Pairs => {
            let mut out = vec![];
            while l.len() > 1 {
                let b = l.split_off(l.len() - 2);
                out.push(bvh(b));
            }
            out.extend(l);
            bvh(out)
        }
        Group::Chain => {
            let first = l.remove(0);
            l.into_iter().fold(bvh(vec![first]), |a, h| bvh(vec![h, a]))
        }
        Group::Single => bvh(l.into_iter().map(|h| bvh(vec![bvh(vec![h])])).collect()),
        Group::Copied => bvh(l).clone(),
    }
}

fn build(w: &World, m: &Motion, g: Group, library: bool) -> Hittables {
    let t = m.transformer();
    let make = |s: &Shape, mat: Materials| {
        if library {
            match s {
                // the radius of a sphere is given as it is
                Shape::Sphere { .. } => m.shape(s).build(mat),
                _ => s.build_t(mat, &t),
            }
        } else {
            m.shape(s).build(mat)
        }
    };
    let l = w
        .objs
        .iter()
        .map(|o| match o {
            Obj::Solid(s, f) => make(s, f(m.s)),
            Obj::Light(s, c, None) => make(s, light(*c)),
            Obj::Light(s, c, Some(h)) => make(s, light_h(*c, h * m.s)),
            Obj::Fog(b, d) => {
                let b: Vec<Hittables> = b.iter().map(|s| make(s, matte(WHITE))).collect();
                ConstantMedium::new(bvh(b), d / m.s, v3(V(0.7, 0.8, 1.)))
            }
        })
        .collect();
    group(l, g)
}

struct View {
    cam: Camera,
    r: Renderer,
    world: Hittables,
    sh: Shaders,
}

fn view(w: &World, m: &Motion, g: Group, library: bool, sh: &Shaders) -> View {
    let world = build(w, m, g, library);
    let cam = Camera::new(
        300,
        200,
        &CameraConfig {
            vertical_fov_degrees: w.fov,
            aperture_size: w.aperture * m.s,
            look_from: v3(m.point(w.from)),
            look_at: v3(m.point(w.at)),
            up: v3(m.unit(V(0.1, 1., 0.))),
        },
    );
    View { cam, r: renderer(world.clone(), sh.clone(), V(0.2, 0.4, 0.7)), world, sh: sh.clone() }
}

fn look(v: &View, (a, b): (f64, f64)) -> V {
    let ray = v.cam.get_ray(Uv { u: a as f32, v: b as f32 });
    match v.world.hit(&ray, &RAY_INTERVAL) {
        // the normal of nothing has no direction
        None if matches!(v.sh, Shaders::NormalShaderType(_)) => V::ZERO,
        None => V(0.2, 0.4, 0.7),
        Some(h) => vv(v.sh.shade(&v.r, &h, &ray, 0, 0.).get_attenuated_color()),
    }
}

fn shaders() -> Vec<(&'static str, Shaders)> {
    vec![
        ("path", PathTracingShader::new(5)),
        ("albedo", AlbedoShader::new()),
        ("normal", NormalShader::new()),
        ("simple", SimpleShader::new()),
    ]
}

pub fn run() {
    let ws = worlds();
    let groups = [Group::Reversed, Group::Turned, Group::Pairs, Group::Chain, Group::Single, Group::Copied];
    // (world, motion, grouping, by the library's transformations)
    let mut cases = vec![];
    for (k, w) in ws.iter().enumerate() {
        // also such that something is exactly at the origin
        let mut ms = motions(w.turns);
        for p in [w.at, w.from] {
            for s in [1., 0.5, 1000.] {
                for r in if w.turns { vec![V::ZERO, V(0., 90., 0.), V(90., 0., 0.), V(35., 130., 60.)] } else { vec![V::ZERO] } {
                    let m = Motion { s, r, t: V::ZERO };
                    ms.push(Motion { t: -m.point(p), ..m });
                }
            }
        }
        for m in ms {
            // fog keeps a fixed distance from the ends of its boundary
            if m.s != 1. && w.objs.iter().any(|o| matches!(o, Obj::Fog(..))) {
                continue;
            }
            cases.push((k, m, Group::Listed, false));
            cases.push((k, m, Group::Listed, true));
            if thorough() && !w.orders {
                cases.push((k, m, Group::Pairs, true));
            }
        }
        if !w.orders {
            for g in groups {
                cases.push((k, STAY, g, false));
            }
        } else {
            cases.push((k, STAY, Group::Copied, false));
        }
    }
    note("scenes moved or grouped otherwise", cases.len());
    let n = tier(16, 40);
    let mut places = vec![];
    for i in 0..n {
        for j in 0..n {
            // away from where shapes begin and end on even numbers
            places.push(((i as f64 + 0.4137) / n as f64, (j as f64 + 0.5791) / n as f64));
        }
    }
    par(&cases, |_, (k, m, g, library)| {
        let w = &ws[*k];
        for (name, sh) in shaders() {
            let flat = name == "simple" && (m.r.0 != 0. || m.r.1 != 0. || m.r.2 != 0.);
            if flat {
                // lit from a fixed direction
                continue;
            }
            let a = view(w, &STAY, Group::Listed, false, &sh);
            let b = view(w, m, *g, *library, &sh);
            let expect = |c: V| if name == "normal" { m.unit(c) } else { c };
            let deep = match name {
                "path" => tier(5, 7),
                _ => 2,
            };
            let mut borders = 0;
            for p in &places {
                let mut want = vec![];
                let mut leaves = vec![];
                let alphabet = |_: usize| cells(3);
                let count = tree_spread(&alphabet, deep, || look(&a, *p), |c, l| {
                    want.push(c);
                    leaves.push(l.choice.clone());
                });
                let mut i = 0;
                let mut bad = None;
                let other = tree_spread(&alphabet, deep, || look(&b, *p), |c, l| {
                    if bad.is_none() && (i >= want.len() || leaves[i] != l.choice || !vclose(expect(want[i]), c, 1e-5 * (1. + c.max_abs()))) {
                        bad = Some((i, c));
                    }
                    i += 1;
                });
                if bad.is_none() && other == count {
                    traces(2 * count);
                    transitions(2 * count * deep as u64);
                    continue;
                }
                // Right at the border between two things either may be seen
                // (rays begin a fixed distance away from the last surface, whatever the scale)
                let e = if m.s == 1. { 1e-6 } else { 1e-3 };
                let near: Vec<Vec<V>> = [(e, 0.), (-e, 0.), (0., e), (0., -e)]
                    .iter()
                    .map(|d| {
                        let mut l = vec![];
                        tree_spread(&alphabet, deep, || look(&a, (p.0 + d.0, p.1 + d.1)), |c, _| l.push(c));
                        l
                    })
                    .collect();
                if near.iter().any(|l| l.len() != want.len() || l.iter().zip(&want).any(|(x, y)| !vclose(*x, *y, 1e-2 * (1. + y.max_abs())))) {
                    borders += 1;
                    if borders * 50 <= places.len() {
                        continue;
                    }
                }
                let (i, c) = bad.unwrap_or((0, V::ZERO));
                let how = if *m == STAY { format!("{:?} instead of listed", g) } else { format!("{:?}{}", m, if *library { " by transformations" } else { "" }) };
                violation(&format!(
                    "{} ({} shader) seen at {:?} with draws {:?} shows {:?} ({} outcomes) instead of {:?} ({} outcomes) when {}",
                    w.name,
                    name,
                    p,
                    leaves.get(i),
                    c,
                    other,
                    want.get(i).map(|c| expect(*c)),
                    count,
                    how
                ));
            }
        }
        states(1);
    });
    sample(|| "mirrors, glass and fading lights, turned by (33, -71, 120) degrees together with the camera: the same color through 36 places of the image for all draws".into());
    assume("scattering off matte surfaces, rough mirrors and fog is drawn in a frame of its own, so scenes with these are moved and scaled but not turned");
}
