//! Conversions, building blocks of scenes, and reference geometry shared by the checks.
use image::{Rgb, RgbImage};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::{NopTransformer, Transformer};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Ray, Uv};
use solstrale::hittable::{Bvh, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::{Dielectric, DiffuseLight, Lambertian, Materials, Metal, RayHit};
use solstrale::renderer::shader::Shaders;
use solstrale::renderer::{RenderConfig, RenderImageStrategy, Renderer, Scene};
use solstrale::util::interval::Interval;
use std::sync::Arc;
pub use vlib::*;

pub fn v3(v: V) -> Vec3 {
    Vec3::new(v.0, v.1, v.2)
}
pub fn vv(v: Vec3) -> V {
    V(v.x, v.y, v.z)
}
pub fn ray(o: V, d: V) -> Ray {
    Ray::new(v3(o), v3(d))
}
pub fn all() -> Interval {
    Interval::new(0.001, f64::INFINITY)
}
pub fn nop() -> NopTransformer {
    NopTransformer()
}
pub fn tex(c: V) -> Textures {
    SolidColor::new(c.0, c.1, c.2)
}
pub fn matte(c: V) -> Materials {
    Lambertian::new(tex(c), None)
}
pub fn metal(c: V, fuzz: f64) -> Materials {
    Metal::new(tex(c), None, fuzz)
}
pub fn glass(c: V, n: f64) -> Materials {
    Dielectric::new(tex(c), None, n)
}
pub fn light(c: V) -> Materials {
    DiffuseLight::new(c.0, c.1, c.2, None)
}
pub fn light_h(c: V, h: f64) -> Materials {
    DiffuseLight::new(c.0, c.1, c.2, Some(h))
}
pub const GRAY: V = V(0.5, 0.5, 0.5);
pub const WHITE: V = V(1., 1., 1.);

pub fn image(w: u32, h: u32, f: impl Fn(u32, u32) -> [u8; 3]) -> RgbImage {
    let mut i = RgbImage::new(w, h);
    for (x, y, p) in i.enumerate_pixels_mut() {
        *p = Rgb(f(x, y));
    }
    i
}
pub fn image_tex(w: u32, h: u32, f: impl Fn(u32, u32) -> [u8; 3]) -> Textures {
    ImageMap::new(Arc::new(image(w, h, f)))
}

/// A scene around `world`; what the camera sees does not matter for most uses
pub fn scene(world: Hittables, shader: Shaders, background: V) -> Scene {
    Scene {
        world,
        camera: CameraConfig {
            vertical_fov_degrees: 60.,
            aperture_size: 0.,
            look_from: Vec3::new(0., 0., 5.),
            look_at: Vec3::new(0., 0., 0.),
            up: Vec3::new(0., 1., 0.),
        },
        background_color: v3(background),
        render_config: RenderConfig {
            width: 1,
            height: 1,
            samples_per_pixel: 1,
            shader,
            post_processors: vec![],
            render_image_strategy: RenderImageStrategy::OnlyFinal,
        },
    }
}
pub fn renderer(world: Hittables, shader: Shaders, background: V) -> Renderer {
    match Renderer::new(scene(world, shader, background)) {
        Ok(r) => r,
        Err(e) => violation(&format!("a scene with a light is refused: {}", e)),
    }
}

/// A light far away from everything, that has no influence but allows rendering
pub fn far_light() -> Hittables {
    Sphere::new(Vec3::new(0., 1e7, 0.), 1., light(WHITE))
}

/// Directory for files of a check
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("verif-{}-{}", name, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        if let Err(e) = std::fs::create_dir_all(&p) {
            broken(&format!("cannot create {:?}: {}", p, e));
        }
        Scratch(p)
    }
    pub fn dir(&self, d: &str) -> String {
        let p = self.0.join(d);
        let _ = std::fs::create_dir_all(&p);
        format!("{}/", p.display())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------------------------------------
// Reference geometry

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Sphere { c: V, r: f64 },
    Quad { q: V, u: V, v: V },
    Tri { p: [V; 3], uv: [(f64, f64); 3] },
}

pub fn sph(c: V, r: f64) -> Shape {
    Shape::Sphere { c, r }
}
pub fn quad(q: V, u: V, v: V) -> Shape {
    Shape::Quad { q, u, v }
}
pub fn tri(a: V, b: V, c: V) -> Shape {
    Shape::Tri { p: [a, b, c], uv: [(0., 0.); 3] }
}
pub fn tri_uv(a: V, b: V, c: V, uv: [(f64, f64); 3]) -> Shape {
    Shape::Tri { p: [a, b, c], uv }
}

/// A point where the line of a ray crosses a shape. `n` points to the shape's front.
#[derive(Clone, Copy, Debug)]
pub struct Cross {
    pub t: f64,
    pub p: V,
    pub n: V,
    pub uv: (f64, f64),
    /// size of the texture coordinates of the shape
    pub uv_size: f64,
    pub front: bool,
    /// not within rounding distance of the outline
    pub sure: bool,
    /// texture coordinate u is meaningful (not at a pole of a sphere)
    pub u_ok: bool,
    /// index of the object
    pub obj: usize,
}
impl Cross {
    /// Normal against the ray
    pub fn facing(&self) -> V {
        if self.front {
            self.n
        } else {
            -self.n
        }
    }
}

const EDGE: f64 = 2e-6;

impl Shape {
    pub fn build(&self, m: Materials) -> Hittables {
        self.build_t(m, &nop())
    }
    pub fn build_t(&self, m: Materials, t: &dyn Transformer) -> Hittables {
        match self {
            Shape::Sphere { c, r } => Sphere::new(v3(*c), *r, m),
            Shape::Quad { q, u, v } => Quad::new(v3(*q), v3(*u), v3(*v), m, t),
            Shape::Tri { p, uv } => {
                let f = |i: usize| Uv::new(uv[i].0 as f32, uv[i].1 as f32);
                if uv.iter().all(|c| *c == (0., 0.)) {
                    Triangle::new(v3(p[0]), v3(p[1]), v3(p[2]), m, t)
                } else {
                    Triangle::new_with_tex_coords(v3(p[0]), v3(p[1]), v3(p[2]), f(0), f(1), f(2), m, t)
                }
            }
        }
    }
    pub fn scaled(&self, k: f64) -> Shape {
        match self {
            Shape::Sphere { c, r } => sph(*c * k, r * k),
            Shape::Quad { q, u, v } => quad(*q * k, *u * k, *v * k),
            Shape::Tri { p, uv } => tri_uv(p[0] * k, p[1] * k, p[2] * k, *uv),
        }
    }
    pub fn center(&self) -> V {
        match self {
            Shape::Sphere { c, .. } => *c,
            Shape::Quad { q, u, v } => *q + (*u + *v) * 0.5,
            Shape::Tri { p, .. } => (p[0] + p[1] + p[2]) * (1. / 3.),
        }
    }
    /// Smallest box around it
    pub fn bounds(&self) -> (V, V) {
        let pts = match self {
            Shape::Sphere { c, r } => vec![*c - V(*r, *r, *r), *c + V(*r, *r, *r)],
            Shape::Quad { q, u, v } => vec![*q, *q + *u, *q + *v, *q + *u + *v],
            Shape::Tri { p, .. } => p.to_vec(),
        };
        bounds_of(&pts)
    }
    /// All crossings of the line with the shape, by increasing distance
    pub fn crossings(&self, o: V, d: V) -> Vec<Cross> {
        let mut out = vec![];
        match self {
            Shape::Sphere { c, r } => {
                let len = d.len();
                let u = d * (1. / len);
                let oc = *c - o;
                let along = oc.dot(u);
                let perp = oc - u * along;
                let m = perp.dot(perp);
                let h2 = r * r - m;
                let tol = 1e-9 * (r * r) + 1e-13 * oc.dot(oc);
                if h2 < -tol {
                    return out;
                }
                let h = h2.max(0.).sqrt();
                for s in [-1., 1.] {
                    let t = along + s * h;
                    let p = o + u * t;
                    let n = (p - *c).unit();
                    out.push(Cross {
                        t: t / len,
                        p,
                        n,
                        uv: sphere_uv(n),
                        uv_size: 1.,
                        front: n.dot(u) < 0.,
                        sure: h2 > tol,
                        u_ok: n.0.hypot(n.2) > 1e-5,
                        obj: 0,
                    });
                }
            }
            Shape::Quad { q, u, v } => {
                if let Some((t, p, n, a, b, g)) = planar(*q, *u, *v, o, d) {
                    let e = EDGE;
                    if a > -e && b > -e && a < 1. + e && b < 1. + e {
                        let sure = g && a > e && b > e && a < 1. - e && b < 1. - e;
                        out.push(Cross { t, p, n, uv: (a, b), uv_size: 1., front: n.dot(d) < 0., sure, u_ok: true, obj: 0 });
                    }
                }
            }
            Shape::Tri { p: pt, uv } => {
                if let Some((t, p, n, a, b, g)) = planar(pt[0], pt[1] - pt[0], pt[2] - pt[0], o, d) {
                    let e = EDGE;
                    if a > -e && b > -e && a + b < 1. + e {
                        let sure = g && a > e && b > e && a + b < 1. - e;
                        let c = 1. - a - b;
                        let tc = (
                            c * uv[0].0 + a * uv[1].0 + b * uv[2].0,
                            c * uv[0].1 + a * uv[1].1 + b * uv[2].1,
                        );
                        out.push(Cross { t, p, n, uv: tc, uv_size: uv.iter().fold(0f64, |m, c| m.max((c.0 as f64).abs()).max((c.1 as f64).abs())), front: n.dot(d) < 0., sure, u_ok: true, obj: 0 });
                    }
                }
            }
        }
        out
    }
}

/// Crossing with a plane: distance, point, unit normal, coordinates along the edges, not grazing
fn planar(q: V, u: V, v: V, o: V, d: V) -> Option<(f64, V, V, f64, f64, bool)> {
    let c = u.cross(v);
    let l = c.len();
    if !(l > 1e-12 * u.len() * v.len()) || l == 0. {
        return None;
    }
    let n = c * (1. / l);
    let du = d.unit();
    let cosine = n.dot(du);
    if cosine.abs() < 1e-9 {
        return None;
    }
    let t = n.dot(q - o) / (cosine * d.len());
    let p = o + d * t;
    // closest point of the plane
    let w = p - q;
    let a = w.cross(v).dot(c) / (l * l);
    let b = u.cross(w).dot(c) / (l * l);
    // a triangle code may measure flatness against its edges
    let flat = l / (u.len() * v.len());
    Some((t, p, n, a, b, cosine.abs() * flat.min(1.) > 1e-6))
}

pub fn sphere_uv(n: V) -> (f64, f64) {
    use std::f64::consts::PI;
    let u = (PI - n.2.atan2(n.0)) / (2. * PI);
    let v = (-n.1).clamp(-1., 1.).acos() / PI;
    (u, v)
}

pub fn bounds_of(p: &[V]) -> (V, V) {
    let mut lo = V(f64::INFINITY, f64::INFINITY, f64::INFINITY);
    let mut hi = -lo;
    for p in p {
        lo = V(lo.0.min(p.0), lo.1.min(p.1), lo.2.min(p.2));
        hi = V(hi.0.max(p.0), hi.1.max(p.1), hi.2.max(p.2));
    }
    (lo, hi)
}

pub fn crossings_of(shapes: &[Shape], o: V, d: V) -> Vec<Cross> {
    let mut all = vec![];
    for (i, s) in shapes.iter().enumerate() {
        for mut c in s.crossings(o, d) {
            c.obj = i;
            all.push(c);
        }
    }
    all
}

fn tol_t(t: f64, o: V, d: V) -> f64 {
    1e-6 * t.abs() + 1e-9 * (1. + o.max_abs()) / d.len()
}

/// Is the hit (or miss) a correct answer to "nearest crossing within lo..hi"? Gives the crossing.
pub fn judge(cs: &[Cross], o: V, d: V, lo: f64, hi: f64, h: &Option<RayHit>) -> Result<Option<Cross>, String> {
    let inside = |c: &Cross| c.t > lo + tol_t(c.t, o, d) && c.t < hi - tol_t(c.t, o, d);
    match h {
        None => match cs.iter().find(|c| c.sure && inside(c)) {
            Some(c) => Err(format!("missed the crossing {:?}", c)),
            None => Ok(None),
        },
        Some(h) => {
            if !(h.ray_length >= lo && h.ray_length <= hi) {
                return Err(format!("hit at {} outside of the interval {}..{}", h.ray_length, lo, hi));
            }
            if let Some(c) = cs.iter().find(|c| c.sure && inside(c) && c.t < h.ray_length - tol_t(c.t, o, d)) {
                return Err(format!("hit at {} but there is the nearer crossing {:?}", h.ray_length, c));
            }
            let mut why = format!("hit at {} where no crossing is", h.ray_length);
            for c in cs {
                if (c.t - h.ray_length).abs() > tol_t(c.t, o, d) {
                    continue;
                }
                match details(c, o, d, h) {
                    Ok(()) => return Ok(Some(*c)),
                    Err(e) => why = e,
                }
            }
            Err(why)
        }
    }
}

/// Do the details of the hit describe the crossing?
pub fn details(c: &Cross, o: V, d: V, h: &RayHit) -> Result<(), String> {
    let p = vv(h.hit_point);
    let scale = 1. + o.max_abs().max(c.p.max_abs());
    if (p - c.p).max_abs() > 1e-6 * scale {
        return Err(format!("hit point {:?}, expected {:?}", p, c.p));
    }
    let n = vv(h.normal);
    if (n.len() - 1.).abs() > 1e-9 {
        return Err(format!("normal {:?} is not of unit length", n));
    }
    // front or back may go either way when grazing
    let grazing = c.n.dot(d.unit()).abs() < 1e-5;
    if !grazing && h.front_face != c.front {
        return Err(format!("front face is {}, expected {}", h.front_face, c.front));
    }
    let want = if h.front_face { c.n } else { -c.n };
    // a hit point of a small sphere far away is less precise
    if (n - want).max_abs() > 1e-5 {
        return Err(format!("normal {:?}, expected {:?}", n, want));
    }
    if n.dot(d.unit()) > 1e-5 {
        return Err(format!("normal {:?} along the ray", n));
    }
    let (u, v) = (h.uv.u as f64, h.uv.v as f64);
    let mut du = (u - c.uv.0).abs();
    if c.u_ok && du > 1e-4 {
        // u jumps from 0 to 1 at the seam of a sphere
        if (du - 1.).abs() < 1e-4 && (u < 1e-4 || u > 1. - 1e-4) {
            du = 0.;
        }
        // single precision, of which less is left where large coordinates cancel out
        if du > 1e-4 * (1. + c.uv.0.abs()) + 1e-6 * c.uv_size {
            return Err(format!("texture coordinate u {}, expected {}", u, c.uv.0));
        }
    }
    if (v - c.uv.1).abs() > 3e-5 * (1. + c.uv.1.abs()) + 1e-6 * c.uv_size {
        return Err(format!("texture coordinate v {}, expected {}", v, c.uv.1));
    }
    Ok(())
}

/// Hit details as text, for messages
pub fn show(h: &Option<RayHit>) -> String {
    match h {
        None => "no hit".into(),
        Some(h) => format!(
            "hit t={} p={:?} n={:?} uv=({},{}) front={}",
            h.ray_length, vv(h.hit_point), vv(h.normal), h.uv.u, h.uv.v, h.front_face
        ),
    }
}

pub fn bvh(l: Vec<Hittables>) -> Hittables {
    Bvh::new(l)
}

pub fn box_lo_hi(h: &Hittables) -> (V, V) {
    let b = h.bounding_box();
    (V(b.x.min, b.y.min, b.z.min), V(b.x.max, b.y.max, b.z.max))
}

/// The six faces of a box, front sides outward
pub fn box_shapes(lo: V, hi: V) -> Vec<Shape> {
    let d = hi - lo;
    let (x, y, z) = (V(d.0, 0., 0.), V(0., d.1, 0.), V(0., 0., d.2));
    vec![
        quad(lo, y, x),
        quad(lo, z, y),
        quad(lo, x, z),
        quad(lo + z, x, y),
        quad(lo + x, y, z),
        quad(lo + y, z, x),
    ]
}

/// Small deterministic generator for fixed tables of inputs (not for sampling executions)
pub struct Lcg(pub u64);
impl Lcg {
    pub fn f(&mut self) -> f64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 11) as f64 / (1u64 << 53) as f64
    }
}
