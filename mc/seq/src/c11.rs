//! Attenuation of lights against the length of the path, measured between the points on it.
use crate::c09::pixel;
use crate::kit::*;
use solstrale::geo::Ray;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::{AttenuatedColor, Blend, DiffuseLight, Material, RayScatter};
use solstrale::renderer::shader::{PathTracingShader, Shader};
use solstrale::util::interval::RAY_INTERVAL;

/// Lights of the scenes by color: strength and half length
const LIGHTS: [(V, Option<f64>); 5] = [
    (V(1., 0.5, 0.25), Some(2.)),
    (V(0.125, 2., 0.75), Some(0.3)),
    (V(2., 2., 0.5), None),
    (V(0.5, 0.25, 4.), Some(1000.)),
    (V(3., 1., 1.), Some(1e-3)),
];
/// Of a scene of the given size
fn lamp(i: usize, size: f64) -> solstrale::material::Materials {
    let (c, h) = LIGHTS[i];
    DiffuseLight::new(c.0, c.1, c.2, h.map(|h| h * size))
}

struct Walk {
    /// weights of the surfaces, and clamping as the path tracer does
    factors: Vec<(V, bool)>,
    len: f64,
    end: Option<(V, Option<Option<f64>>)>,
}

/// The points of the path give its length
fn walk(world: &Hittables, size: f64, lights: &[Hittables], bg: V, r: &Ray, max: u32) -> Walk {
    let mut w = Walk { factors: vec![], len: 0., end: None };
    let mut r = Ray::new(r.origin, r.direction);
    let mut at = vv(r.origin);
    for depth in 0.. {
        let Some(rec) = world.hit(&r, &RAY_INTERVAL) else {
            w.end = Some((bg, None));
            return w;
        };
        if depth >= max {
            return w;
        }
        w.len += (vv(rec.hit_point) - at).len();
        at = vv(rec.hit_point);
        let (f, next) = match rec.material.scatter(&r, &rec, lights) {
            RayScatter::ScatterEmission(s) => {
                let c = vv(s.color);
                let h = LIGHTS.iter().find(|l| l.0 == c).map(|l| l.1.map(|h| h * size));
                w.end = Some((c, Some(h.unwrap_or(None))));
                return w;
            }
            RayScatter::ScatterBasic(s) => ((vv(s.color), false), s.ray),
            RayScatter::ScatterPdf(s) => ((vv(s.color) * s.probability, true), s.ray),
        };
        w.factors.push(f);
        r = next;
    }
    unreachable!()
}

impl Walk {
    /// Attenuated color, for a path that had already some length
    fn color(&self, before: f64) -> V {
        let Some((c, light)) = self.end else { return V::ZERO };
        let mut c = c;
        for (f, clamp) in self.factors.iter().rev() {
            c = c.mulv(*f);
            if *clamp {
                let l = |x: f64| if x.is_nan() { 0. } else { x.min(3.) };
                c = V(l(c.0), l(c.1), l(c.2));
            }
        }
        match light {
            Some(Some(h)) => c * (1. / (1. + (self.len + before) / h)),
            _ => c,
        }
    }
}

fn scenes(size: f64) -> Vec<(&'static str, Vec<Hittables>)> {
    let room = |m: &dyn Fn(usize) -> solstrale::material::Materials| -> Vec<Hittables> {
        box_shapes(V(-3., -2., -3.), V(3., 3., 3.)).iter().enumerate().map(|(i, s)| s.scaled(size).build(m(i))).collect()
    };
    let col = |i: usize| V(0.9, 0.5 + 0.08 * i as f64, 0.7);
    let mut v = vec![];
    for l in 0..LIGHTS.len() {
        let mut diffuse = room(&|i| matte(col(i)));
        diffuse.push(quad(V(-1., 2.5, -1.), V(2., 0., 0.), V(0., 0.1, 2.)).scaled(size).build(lamp(l, size)));
        v.push(("matte room, quad light", diffuse));
        let mut s = room(&|i| matte(col(i)));
        s.push(sph(V(1., 1., 0.5), 0.7).scaled(size).build(lamp(l, size)));
        s.push(sph(V(-1., -1., 0.), 0.8).scaled(size).build(glass(V(0.9, 1., 0.8), 1.5)));
        v.push(("matte room, sphere light, glass ball", s));
        let mut m = room(&|i| metal(col(i), 0.));
        m.push(sph(V(1., 1., 0.5), 0.9).scaled(size).build(lamp(l, size)));
        v.push(("mirrors, sphere light", m));
        let mut fz = room(&|i| Blend::new(metal(col(i), 0.8), matte(col(5 - i)), 0.5));
        fz.push(tri(V(-1., 2., -1.), V(1.5, 2.1, -1.), V(0., 1.5, 1.5)).scaled(size).build(lamp(l, size)));
        v.push(("fuzzy mirrors and matte blended, triangle light", fz));
        let fog = vec![
            ConstantMedium::new(sph(V(0., 0., 0.), 2.5).scaled(size).build(matte(GRAY)), 0.3 / size, v3(V(0.8, 0.9, 0.7))),
            quad(V(-2., 4., -2.), V(4., 0., 0.), V(0., 0., 4.)).scaled(size).build(lamp(l, size)),
        ];
        v.push(("fog and background", fog));
        let mut two = room(&|i| if i == 3 { metal(col(i), 0.) } else { matte(col(i)) });
        two.push(sph(V(1.5, 1.5, 0.5), 0.7).scaled(size).build(lamp(l, size)));
        two.push(sph(V(-1.5, 1., -0.5), 0.5).scaled(size).build(lamp((l + 2) % LIGHTS.len(), size)));
        v.push(("two lights", two));
    }
    v
}

fn trees() {
    let n = scenes(1.).len();
    let mut cases = vec![];
    for s in 0..n {
        for max in [1u32, 2, 3, 5, 8] {
            for size in [1., 1e7, 0.04] {
                if size == 1. || max == 3 || thorough() {
                    cases.push((s, max, size));
                }
            }
        }
    }
    par(&cases, |_, (s, max, size)| {
        let (name, objs) = scenes(*size).swap_remove(*s);
        let name = format!("{name}, size {size}");
        let bg = V(0.2, 0.3, 0.5);
        let world = bvh(objs);
        let shader = PathTracingShader::new(*max);
        let r = renderer(world.clone(), shader.clone(), bg);
        let mut attenuated = 0u64;
        for (k, (o, d)) in [
            (V(0., 1., 2.9), V(0., -0.3, -1.)),
            (V(-2., 2., 1.), V(1., -1.2, -0.1)),
            (V(1., 2.5, 2.), V(-0.3, 0.4, -1.)),
            (V(-0.5, 0.1, 0.3), V(1., 0.8, 0.1)),
        ]
        .iter()
        .enumerate()
        {
            for (scale, before) in [(1., 0.), (1e-3, 0.), (250., 7.5)] {
                let r0 = ray(*o * *size, *d * *size * scale);
                let table = if k % 2 == 0 { cells(2) } else { [0.06, 0.45, 0.9].map(fastrand::mc_hook::encode).to_vec() };
                let deep = tier([14, 9], [17, 11])[k % 2];
                let fill = fastrand::mc_hook::encode(0.41);
                let alph = |_: usize| table.clone();
                let m = tree(
                    &alph,
                    deep,
                    fill,
                    || world.hit(&r0, &RAY_INTERVAL).map(|h| vv(shader.shade(&r, &h, &r0, 0, before).get_attenuated_color())),
                    |got, l| {
                        let bits: Vec<u64> = l.choice.iter().map(|c| table[*c]).collect();
                        let Some(got) = got else { return };
                        let w = with_bits(&bits, fill, || walk(&world, *size, &r.lights, bg, &r0, *max)).0;
                        let want = w.color(before);
                        if !w.len.is_finite() {
                            return;
                        }
                        if want.max_abs() > 0. && matches!(w.end, Some((_, Some(Some(_))))) {
                            attenuated += 1;
                        }
                        must!(vclose(got, want, 1e-7), "{}: the ray from {:?} direction {:?} has the color {:?} instead of {:?} at depth {} after a path of length {} (and {} before) over {} surfaces ending in {:?}, draws {:?}", name, o, *d * scale, got, want, max, w.len, before, w.factors.len(), w.end, l.choice);
                        transitions(l.draws as u64);
                    },
                );
                traces(m);
                states(m);
            }
        }
        if *max == 8 && *size == 1. {
            note(&format!("scene {} ({}): paths ending at attenuated lights", s, name), attenuated);
        }
    });
}

/// The factor itself
fn factors() {
    let c = V(2., 0.5, 1.);
    let hs = [1e-6, 0.01, 0.5, 1., 3., 10., 1e4];
    for h in hs {
        for d in [1e-3, 0.5, 1., h, 2. * h, 10. * h, 1e5] {
            for s in [1., 1e-2, 30.] {
                for o in [V(0., 0., d), V(0.3, 0.2, d)] {
                    // a light hit at distance d
                    let w = quad(V(-1., -1., 0.), V(2., 0., 0.), V(0., 2., 0.)).build(light_h(c, h));
                    let shader = PathTracingShader::new(3);
                    let r = renderer(w.clone(), shader.clone(), GRAY);
                    let r0 = ray(o, V(0., 0., -s));
                    let Some(hit) = w.hit(&r0, &solstrale::util::interval::Interval::new(0., f64::INFINITY)) else {
                        violation(&format!("light at distance {} is missed", d));
                    };
                    for before in [0., 0.25, h, 100.] {
                        let got = vv(shader.shade(&r, &hit, &r0, 0, before).get_attenuated_color());
                        let want = c * (h / (h + d + before));
                        must!(vclose(got, want, 1e-9), "a light of half length {} at distance {} (and {} before) appears as {:?} instead of {:?}", h, d, before, got, want);
                        if before == 0. && d == h {
                            must!(vclose(got, c * 0.5, 1e-9), "a light at its half length {} has not half its strength but {:?} of {:?}", h, got, c);
                        }
                        transitions(1);
                        traces(1);
                    }
                }
            }
        }
        for l in [0., 1e-3, 0.7, 5., 1e6] {
            let a = AttenuatedColor { color: v3(c), attenuation_factor: Some(1. / h), accumulated_ray_length: l };
            let g = vv(a.get_attenuated_color());
            must!(vclose(g, c * (1. / (1. + l / h)), 1e-12), "color with factor {} and length {} is attenuated to {:?}", 1. / h, l, g);
            let a = AttenuatedColor { color: v3(c), attenuation_factor: None, accumulated_ray_length: l };
            must!(vv(a.get_attenuated_color()) == c, "color without attenuation is changed");
            transitions(2);
        }
        states(1);
    }
}

fn level(x: f64) -> i32 {
    (x.max(0.).sqrt().min(0.999999) * 256.) as i32
}

/// Whole renders: the camera's focus distance does not matter, mirrors and panes do not restart the length
fn renders() {
    let c = V(0.9, 0.5, 0.7);
    let mut cases = vec![];
    for h in [None, Some(0.5), Some(3.), Some(40.)] {
        for focus in [1e-3, 0.1, 0.5, 1., 2., 7., 300.] {
            for way in 0..4 {
                for dist in [1., 2.5, 8.] {
                    cases.push((h, focus, way, dist));
                }
            }
        }
    }
    par(&cases, |_, (h, focus, way, dist)| {
        let lamp = DiffuseLight::new(c.0, c.1, c.2, *h);
        let mut col = c;
        let mut len = *dist;
        let mut objs = vec![sph(V(0., 500., 0.), 1.).build(light(WHITE))];
        let big = 1.;
        match way {
            // straight ahead
            0 => objs.push(quad(V(-big, -big, -dist), V(2., 0., 0.), V(0., 2., 0.)).build(lamp)),
            // over a mirror at 45 degrees to the right
            1 => {
                objs.push(quad(V(-big, -big, -dist - big), V(2., 0., 2.), V(0., 2., 0.)).build(metal(V(0.5, 1., 1.), 0.)));
                objs.push(quad(V(-4., -big, -dist + big), V(0., 0., -2.), V(0., 2., 0.)).build(lamp.clone()));
                objs.push(quad(V(4., -big, -dist - big), V(0., 0., 2.), V(0., 2., 0.)).build(lamp));
                col = col.mulv(V(0.5, 1., 1.));
                len += 4.;
            }
            // through a pane that does not bend
            2 => {
                objs.push(quad(V(-big, -big, -dist * 0.5), V(2., 0., 0.), V(0., 2., 0.)).build(glass(V(1., 0.5, 1.), 1.)));
                objs.push(quad(V(-big, -big, -dist * 0.75), V(2., 0., 0.), V(0., 2., 0.)).build(glass(V(1., 0.5, 1.), 1.)));
                objs.push(quad(V(-big, -big, -dist), V(2., 0., 0.), V(0., 2., 0.)).build(lamp));
                col = col.mulv(V(1., 0.25, 1.));
            }
            // back and forth between mirrors
            _ => {
                objs.push(quad(V(-big, -big, -dist), V(2., 0., 0.), V(0., 2., 0.)).build(metal(V(1., 1., 0.5), 0.)));
                objs.push(quad(V(-big, -big, 3.), V(0., 2., 0.), V(2., 0., 0.)).build(lamp));
                col = col.mulv(V(1., 1., 0.5));
                len += dist + 3.;
            }
        }
        if let Some(h) = h {
            col = col * (1. / (1. + len / h));
        }
        let mut s = scene(bvh(objs), PathTracingShader::new(6), V(0.1, 0.1, 0.1));
        s.camera.look_from = v3(V::ZERO);
        s.camera.look_at = v3(V(0., 0., -*focus));
        s.camera.vertical_fov_degrees = 1e-4;
        let got = with_stream(5, || pixel(s)).0;
        let want = [level(col.0), level(col.1), level(col.2)];
        must!((0..3).all(|i| (got[i] - want[i]).abs() <= 1), "light of half length {:?}, way {} of length {}, focus distance {}: pixel {:?} instead of {:?}", h, way, len, focus, got, want);
        states(1);
        traces(1);
        transitions(1);
    });
}

pub fn run() {
    factors();
    renders();
    trees();
    sample(|| "matte room with a quad light of half length 2: all sequences of 12 binary draws, rays of length 0.001, 1 and 250".into());
    assume("paths over surfaces scatter as the materials report; their length is measured between the points they pass");
}
