//! Loaded OBJ models: all files of a grammar up to a size, compared by rays with the faces they describe.
use crate::c12::Tex;
use crate::c19::T;
use crate::kit::*;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::{Material, Materials, RayScatter};
use solstrale::util::interval::Interval;
use std::fmt::Write;

/// What is expected of the material of a face
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mat {
    Default,
    Named(usize),
}
/// How the corners of a face are written
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    V,
    Vt,
    Vn,
    Vtn,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rel {
    Absolute,
    Relative,
    Mixed,
}
#[derive(Clone, Debug)]
struct Face {
    corners: usize,
    form: Form,
    rel: Rel,
    before: Vec<String>,
    mat: Mat,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Layout {
    /// all vertices first
    First,
    /// vertices right before their face
    Between,
    /// corners shared with the previous face where they are the same
    Shared,
}
#[derive(Clone, Debug)]
struct File {
    faces: Vec<Face>,
    layout: Layout,
    eol: &'static str,
    head: String,
    tail: String,
    space: &'static str,
    comments: bool,
    vertex: &'static str,
}

pub struct Named {
    name: String,
    text: String,
    color: Option<Tex>,
    normal: Option<V>,
}

const WIDTH: usize = 60;
fn place(i: usize) -> (f64, f64) {
    (3. * (i % WIDTH) as f64, 3. * (i / WIDTH) as f64)
}
/// Corner k of face i, before the transformation; planar, counterclockwise from above
fn corner(i: usize, m: usize, k: usize) -> V {
    let (x0, y0) = place(i);
    let a = 2. * std::f64::consts::PI * k as f64 / m as f64 + 0.3 + i as f64 * 0.7;
    let (x, y) = (a.cos(), a.sin());
    let p = V(x0 + x, y0 + y, height(i, x, y));
    // as the file gives it
    let r = |v: f64| (v * 10000.).round() / 10000.;
    V(r(p.0), r(p.1), r(p.2))
}
fn height(i: usize, x: f64, y: f64) -> f64 {
    let (a, b) = ([0.3, -0.2, 0., 0.5][i % 4], [0.1, 0.4, -0.3][i % 3]);
    0.5 * (i % 5) as f64 + a * x + b * y
}
/// Texture coordinates are a linear function of the position within a face
fn coords(i: usize, p: V) -> (f64, f64) {
    let (x0, y0) = place(i);
    let (x, y) = (p.0 - x0, p.1 - y0);
    let (c, s) = ([1., 0.6, -0.8][i % 3], [0., 0.8, 0.6][i % 3]);
    (0.5 + 0.3 * (c * x + s * y), 0.5 + 0.4 * (c * y - s * x))
}

fn render(f: &File) -> String {
    let mut t = String::new();
    let e = f.eol;
    let s = f.space;
    let vertex = |t: &mut String, i: usize, m: usize, k: usize, has_t: bool, has_n: bool| {
        let p = corner(i, m, k);
        let _ = write!(t, "v{s}{}{s}{}{s}{}{}{e}", p.0, p.1, p.2, f.vertex);
        if has_t {
            let c = coords(i, p);
            let _ = write!(t, "vt{s}{:.6}{s}{:.6}{e}", c.0, c.1);
        }
        if has_n {
            let _ = write!(t, "vn{s}0{s}0{s}1{e}");
        }
    };
    let has = |f: &Face| (matches!(f.form, Form::Vt | Form::Vtn), matches!(f.form, Form::Vn | Form::Vtn));
    t.push_str(&f.head.replace('\n', e));
    if f.layout == Layout::First {
        for (i, fc) in f.faces.iter().enumerate() {
            for k in 0..fc.corners {
                vertex(&mut t, i, fc.corners, k, has(fc).0, has(fc).1);
            }
        }
    }
    let (mut nv, mut nt, mut nn) = (0i64, 0i64, 0i64);
    let total = if f.layout == Layout::First {
        let c = |g: &dyn Fn(&Face) -> bool| f.faces.iter().filter(|x| g(x)).map(|x| x.corners as i64).sum::<i64>();
        Some((c(&|_| true), c(&|x| has(x).0), c(&|x| has(x).1)))
    } else {
        None
    };
    for (i, fc) in f.faces.iter().enumerate() {
        if f.comments {
            let _ = write!(t, "# face {i}{e}{e}s off{e}");
        }
        if total.is_none() {
            for k in 0..fc.corners {
                vertex(&mut t, i, fc.corners, k, has(fc).0, has(fc).1);
            }
        }
        for b in &fc.before {
            let _ = write!(t, "{b}{e}");
        }
        let m = fc.corners as i64;
        // numbers of elements so far
        let (tv, tt, tn) = total.unwrap_or((nv + m, nt + if has(fc).0 { m } else { 0 }, nn + if has(fc).1 { m } else { 0 }));
        t.push('f');
        for k in 0..m {
            let num = |base: i64, total: i64, slot: i64| {
                let abs = base + k + 1;
                let rel = abs - total - 1;
                match fc.rel {
                    Rel::Absolute => abs,
                    Rel::Relative => rel,
                    Rel::Mixed => if (k + slot) % 2 == 0 { abs } else { rel },
                }
            };
            let (v, vt, vn) = (num(nv, tv, 0), num(nt, tt, 1), num(nn, tn, 2));
            let _ = match fc.form {
                Form::V => write!(t, "{s}{v}"),
                Form::Vt => write!(t, "{s}{v}/{vt}"),
                Form::Vn => write!(t, "{s}{v}//{vn}"),
                Form::Vtn => write!(t, "{s}{v}/{vt}/{vn}"),
            };
        }
        t.push_str(e);
        nv += m;
        nt += if has(fc).0 { m } else { 0 };
        nn += if has(fc).1 { m } else { 0 };
    }
    t.push_str(&f.tail.replace('\n', e));
    t
}

fn albedo(m: &Materials, h: &solstrale::material::RayHit, r: &solstrale::geo::Ray) -> V {
    let lamp = [far_light()];
    match with_draws(&[], 0.6, || m.scatter(r, h, &lamp)).0 {
        RayScatter::ScatterPdf(s) => vv(s.color),
        RayScatter::ScatterBasic(s) => vv(s.color),
        RayScatter::ScatterEmission(s) => vv(s.color),
    }
}

/// Compares a loaded model with the faces
fn compare(what: &dyn Fn() -> String, h: &Hittables, f: &File, mats: &[Named], default: Option<V>, t: &T, scale: f64, sparse: bool) {
    let mut n = 0;
    for (i, fc) in f.faces.iter().enumerate() {
        if sparse && i % 7 != 0 && i + 300 < f.faces.len() {
            continue;
        }
        let cs: Vec<V> = (0..fc.corners).map(|k| corner(i, fc.corners, k)).collect();
        let mut mid = V::ZERO;
        cs.iter().for_each(|c| mid = mid + *c * (1. / fc.corners as f64));
        let normal = (cs[1] - cs[0]).cross(cs[2] - cs[0]).unit();
        let up = V(0.1, -0.07, 1.).unit();
        let mut targets = vec![mid + (cs[0] - mid) * 0.13 + (cs[1] - mid) * 0.1];
        if !sparse {
            for k in 0..fc.corners {
                targets.push(mid + (cs[k] - mid) * 0.8 + (cs[(k + 1) % fc.corners] - mid) * 0.12);
                targets.push(mid + (cs[k] + cs[(k + 1) % fc.corners] - mid * 2.) * 0.46);
            }
        }
        let has_t = matches!(fc.form, Form::Vt | Form::Vtn);
        for p in targets {
            for side in [1., -1.] {
                let o = t.apply(p + up * side, false);
                let d = t.apply(up * -side, true);
                let r = ray(o, d);
                let here = || format!("{}: face {} ({:?}) at {:?} from {}", what(), i, fc, p, if side > 0. { "above" } else { "below" });
                let Some(hit) = with_stream(1, || h.hit(&r, &all())).0 else { violation(&format!("{}: not hit", here())) };
                must!(close(hit.ray_length, 1., 1e-3), "{}: hit after {} instead of 1", here(), hit.ray_length);
                must!((vv(hit.hit_point) - t.apply(p, false)).len() < 1e-3 * scale, "{}: hit at {:?} instead of {:?}", here(), vv(hit.hit_point), t.apply(p, false));
                must!(hit.front_face == (side > 0.), "{}: front side is {}", here(), hit.front_face);
                let uv = if has_t { coords(i, p) } else { (0., 0.) };
                must!(close(hit.uv.u as f64, uv.0, 1e-3) && close(hit.uv.v as f64, uv.1, 1e-3), "{}: texture coordinates ({}, {}) instead of {:?}", here(), hit.uv.u, hit.uv.v, uv);
                let (want, map) = match fc.mat {
                    Mat::Default => (Some(default.unwrap_or(WHITE)), None),
                    Mat::Named(m) => {
                        let c = match &mats[m].color {
                            None => Some(WHITE),
                            Some(c) => if has_t || c.pixels.is_none() { c.at(uv) } else { None },
                        };
                        (c, mats[m].normal)
                    }
                };
                if let Some(want) = want {
                    let got = albedo(hit.material, &hit, &r);
                    must!(vclose(got, want, 1e-6), "{}: color {:?} instead of {:?}", here(), got, want);
                }
                let facing = t.apply(normal, true).unit() * side;
                let n_want = match map {
                    Some(m) if has_t => {
                        // the point as a function of the texture coordinates
                        let (u0, e) = (coords(i, p), 1e-3);
                        let grad = |d: V| {
                            let c = coords(i, p + d * e);
                            ((c.0 - u0.0) / e, (c.1 - u0.1) / e)
                        };
                        let (e1, e2) = (cs[1] - cs[0], cs[2] - cs[0]);
                        let (g1, g2) = (grad(e1), grad(e2));
                        let det = g1.0 * g2.1 - g1.1 * g2.0;
                        let tu = t.apply((e1 * g2.1 - e2 * g1.1) * (1. / det), true).unit();
                        let tv = t.apply((e2 * g1.0 - e1 * g2.0) * (1. / det), true).unit();
                        (tu * m.0 + tv * m.1 + facing * m.2).unit()
                    }
                    _ => facing,
                };
                must!((vv(hit.normal) - n_want).len() < 3e-2 * if map.is_some() { 1. } else { 0.1 }, "{}: normal {:?} instead of {:?}", here(), vv(hit.normal), n_want);
                n += 1;
            }
        }
    }
    // nothing else
    let rows = f.faces.len().min(WIDTH + 20) + 1;
    for x in -1..=(2 * rows as i32) {
        for y in -1..=4 {
            let (px, py) = (x as f64 * 1.5 + 0.05, y as f64 * 1.5 - 0.03);
            // too close to a face to tell?
            let (mut inside, mut near) = (false, false);
            for (i, fc) in f.faces.iter().enumerate() {
                let (x0, y0) = place(i);
                if (px - x0).hypot(py - y0) > 1.3 {
                    continue;
                }
                let q: Vec<V> = (0..fc.corners).map(|k| corner(i, fc.corners, k)).collect();
                let side: Vec<f64> = (0..fc.corners).map(|k| {
                    let (a, b) = (q[k], q[(k + 1) % fc.corners]);
                    (b.0 - a.0) * (py - a.1) - (b.1 - a.1) * (px - a.0)
                }).collect();
                if side.iter().all(|s| *s > 0.) {
                    inside = true;
                }
                if side.iter().any(|s| s.abs() < 0.02) {
                    near = true;
                }
            }
            if near {
                continue;
            }
            let (o, d) = (t.apply(V(px, py, 30.), false), t.apply(V(0., 0., -1.), true));
            let hit = h.hit(&ray(o, d), &all());
            must!(hit.is_some() == inside, "{}: at ({}, {}) there {} a face but the ray {}", what(), px, py, if inside { "is" } else { "is not" }, show(&hit));
            n += 1;
        }
    }
    states(1);
    transitions(n);
    traces(n);
}

pub fn materials() -> Vec<Named> {
    let f = |x: u32, y: u32| [(40 + 50 * x) as u8, (250 - 80 * y) as u8, (x * y * 20 + 9) as u8];
    let g = |x: u32, _: u32| [if x == 0 { 255 } else { 0 }, 20, 90];
    let mk = |w: u32, h: u32, f: &dyn Fn(u32, u32) -> [u8; 3]| {
        let mut p = vec![];
        for y in 0..h {
            for x in 0..w {
                p.push(f(x, y));
            }
        }
        Tex { t: image_tex(w, h, f), pixels: Some((w, h, p)), solid: V::ZERO }
    };
    let solid = |c: V| Tex { t: tex(c), pixels: None, solid: c };
    let n = |name: &str, text: &str, color: Option<Tex>, normal: Option<V>| Named { name: name.into(), text: text.into(), color, normal };
    vec![
        n("red", "Ka 0 0 0\nKd 0.8 0.1 0.1\nKs 1 1 1\nNs 10\nNi 1.4\nd 1\nillum 2\n", Some(solid(V(0.8f32 as f64, 0.1f32 as f64, 0.1f32 as f64))), None),
        n("my blue 1", "Kd 0.125 0.25 0.75\nmystery 5\n", Some(solid(V(0.125, 0.25, 0.75))), None),
        n("tex", "map_Kd a.png\n", Some(mk(4, 3, &f)), None),
        n("both", "Kd 0.5 0 0\nmap_Kd my b.png\nmap_Ka a.png\n", Some(mk(2, 1, &g)), None),
        n("none", "# nothing\nNs 3\n", None, None),
        n("bumped", "Kd 0.25 0.5 0.5\nbump n.png\n", Some(solid(V(0.25, 0.5, 0.5))), Some(lean())),
        n("bumped tex", "map_Bump n.png\nmap_Kd a.png\n", Some(mk(4, 3, &f)), Some(lean())),
        n("flat", "Kd 1 0.5 0\nmap_bump h.png\n", Some(solid(V(1., 0.5, 0.))), Some(V(0., 0., 1.))),
        n("all", "Ka 1 1 1\nKd 0.5 0.25 0\nmap_Kd a.png\nbump n.png\n", Some(mk(4, 3, &f)), Some(lean())),
        n("glow", "Kd 4 0 12.5\n", Some(solid(V(4., 0., 12.5))), None),
    ]
}
const LEAN: [u8; 3] = [204, 90, 220];
fn lean() -> V {
    V(LEAN[0] as f64, LEAN[1] as f64, LEAN[2] as f64) * (2. / 255.) - WHITE
}

/// Images and material files
pub fn write_materials(dir: &str, mats: &[Named]) {
    let save = |n: &str, w: u32, h: u32, f: &dyn Fn(u32, u32) -> [u8; 3]| image(w, h, f).save(format!("{dir}{n}")).unwrap_or_else(|_| broken("cannot write an image"));
    save("a.png", 4, 3, &|x, y| [(40 + 50 * x) as u8, (250 - 80 * y) as u8, (x * y * 20 + 9) as u8]);
    save("my b.png", 2, 1, &|x, _| [if x == 0 { 255 } else { 0 }, 20, 90]);
    save("n.png", 3, 3, &|_, _| LEAN);
    save("h.png", 3, 2, &|_, _| [77, 77, 77]);
    let (mut one, mut two) = (String::new(), String::new());
    for (i, m) in mats.iter().enumerate() {
        let t = if i % 2 == 0 { &mut one } else { &mut two };
        let _ = write!(t, "newmtl {}\n{}\n", m.name, m.text);
    }
    put(&format!("{dir}one.mtl"), one.as_bytes());
    put(&format!("{dir}two two.mtl"), two.as_bytes());
    put(&format!("{dir}all.mtl"), (one + &two).as_bytes());
}
pub fn put(path: &str, data: &[u8]) {
    if let Err(e) = std::fs::write(path, data) {
        broken(&format!("cannot write {path}: {e}"));
    }
}

struct Run<'a> {
    dir: &'a str,
    mats: &'a [Named],
}
impl Run<'_> {
    fn check(&self, name: &str, f: &File, default: Option<V>, t: &T, scale: f64, sparse: bool) {
        let text = render(f);
        let file = format!("{name}.obj");
        put(&format!("{}{}", self.dir, file), text.as_bytes());
        let what = || format!("model\n{}\nwith default color {:?} and {:?}", text.chars().take(3000).collect::<String>(), default, t);
        let d = default.map(|c| metal(c, 0.2));
        let h = match guarded(|| Obj::new(self.dir, &file).load(&*t.build(), d)) {
            Ok(Ok(h)) => h,
            Ok(Err(e)) => violation(&format!("{}: fails to load: {}", what(), e)),
            Err(e) => violation(&format!("{}: panic {}", what(), e)),
        };
        compare(&what, &h, f, self.mats, default, t, scale, sparse);
        let _ = std::fs::remove_file(format!("{}{}", self.dir, file));
    }
}

fn face(corners: usize, form: Form, rel: Rel) -> Face {
    Face { corners, form, rel, before: vec![], mat: Mat::Default }
}
fn file(faces: Vec<Face>) -> File {
    File { faces, layout: Layout::First, eol: "\n", head: String::new(), tail: String::new(), space: " ", comments: false, vertex: "" }
}

pub fn run() {
    let scratch = Scratch::new("c31");
    let dir = scratch.dir("m");
    let mats = materials();
    write_materials(&dir, &mats);
    let r = Run { dir: &dir, mats: &mats };
    let forms = [Form::V, Form::Vt, Form::Vn, Form::Vtn];
    let rels = [Rel::Absolute, Rel::Relative, Rel::Mixed];
    let turned = T::List(vec![T::X(40.), T::Size(3.), T::Y(-110.), T::Move(V(5., -2., 9.))]);

    // shapes of faces, ways to write them
    let mut cases: Vec<(String, File, Option<V>, T, f64)> = vec![];
    let sides = tier(vec![3, 4, 5], vec![3, 4, 5, 6, 9]);
    for (a, b, c) in product(&[sides.len(), sides.len(), sides.len()]).into_iter().map(|i| (sides[i[0]], sides[i[1]], sides[i[2]])) {
        for form in forms {
            for rel in rels {
                for layout in [Layout::First, Layout::Between] {
                    let n = cases.len();
                    let mut f = file(vec![face(a, form, rel), face(b, form, rel), face(c, form, rel)]);
                    f.layout = layout;
                    f.eol = if n % 3 == 0 { "\r\n" } else { "\n" };
                    f.space = ["\t", " ", "  "][n % 3];
                    f.comments = n % 2 == 1;
                    f.vertex = ["", " 1.0", " 0.5 0.5 0.2"][n % 3];
                    let t = if n % 4 == 0 { (turned.clone(), 3.) } else { (T::Nop, 1.) };
                    cases.push((format!("a{n}"), f, if n % 5 == 0 { Some(V(0.3, 0.6, 0.1)) } else { None }, t.0, t.1));
                }
            }
        }
    }
    // sequences of material and group statements
    let events: Vec<(Vec<&str>, Option<Mat>)> = vec![
        (vec![], None),
        (vec!["usemtl red"], Some(Mat::Named(0))),
        (vec!["usemtl my blue 1"], Some(Mat::Named(1))),
        (vec!["usemtl tex"], Some(Mat::Named(2))),
        (vec!["usemtl unknown"], Some(Mat::Default)),
        (vec!["g part"], None),
        (vec!["o thing", "usemtl red"], Some(Mat::Named(0))),
        (vec!["usemtl red", "g a b c"], Some(Mat::Named(0))),
        (vec!["usemtl tex", "usemtl both"], Some(Mat::Named(3))),
        (vec!["usemtl bumped"], Some(Mat::Named(5))),
        (vec!["usemtl none"], Some(Mat::Named(4))),
        (vec!["o", "s 1", "usemtl bumped tex"], Some(Mat::Named(6))),
        (vec!["usemtl flat"], Some(Mat::Named(7))),
        (vec!["usemtl glow"], Some(Mat::Named(9))),
        (vec!["usemtl all"], Some(Mat::Named(8))),
    ];
    let libs = ["mtllib all.mtl\n", "mtllib one.mtl\nmtllib two two.mtl\n", "# x\no first\nmtllib two two.mtl\n\nmtllib one.mtl\n"];
    for c in product(&vec![events.len(); tier(3, 4)]) {
        let n = cases.len();
        let mut faces = vec![];
        let mut cur = Mat::Default;
        for (k, e) in c.iter().enumerate() {
            let (lines, m) = &events[*e];
            cur = m.unwrap_or(cur);
            faces.push(Face {
                corners: 3 + (n + k) % 3,
                form: if n % 2 == 0 { Form::Vt } else { Form::Vtn },
                rel: rels[n % 3],
                before: lines.iter().map(|s| s.to_string()).collect(),
                mat: cur,
            });
        }
        let mut f = file(faces);
        f.layout = if n % 5 < 2 { Layout::Between } else { Layout::First };
        f.head = libs[n % 3].into();
        f.eol = if n % 7 == 0 { "\r\n" } else { "\n" };
        f.tail = ["", "g last\n", "usemtl red\n", "# end"][n % 4].into();
        let t = if n % 4 == 0 { (turned.clone(), 3.) } else { (T::Nop, 1.) };
        cases.push((format!("m{n}"), f, if n % 2 == 0 { Some(V(0.3, 0.6, 0.1)) } else { None }, t.0, t.1));
    }
    note("small files", cases.len());
    par(&cases, |_, (n, f, d, t, s)| r.check(n, f, *d, t, *s, false));

    // no faces at all
    for (i, text) in ["", "# nothing\n", "v 0 0 0\nv 1 0 0\n", "mtllib all.mtl\nusemtl red\no a\n"].iter().enumerate() {
        let name = format!("empty{i}.obj");
        put(&format!("{dir}{name}"), text.as_bytes());
        match guarded(|| Obj::new(&dir, &name).load(&nop(), None)) {
            Ok(Ok(h)) => {
                for d in neighbours() {
                    must!(h.hit(&ray(d * -5., d), &all()).is_none(), "a model without faces is hit");
                }
            }
            Ok(Err(e)) => violation(&format!("a model without faces fails to load: {e}")),
            Err(e) => violation(&format!("a model without faces: panic {e}")),
        }
        traces(1);
    }

    // many faces, groups and materials
    let counts = tier(vec![22500, 127, 128, 129, 255, 256, 257, 300, 1500], vec![22500, 2, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 513, 1500, 5000, 66000]);
    par(&counts, |_, &n| {
        let sub = scratch.dir(&format!("n{n}"));
        let mut text = String::new();
        let mut many = vec![];
        for i in 0..n {
            let c = V((i % 256) as f64 / 256., ((i / 256) % 256) as f64 / 256., ((i * 7) % 256) as f64 / 256.);
            let _ = write!(text, "newmtl m{i}\nKd {} {} {}\n", c.0, c.1, c.2);
            many.push(Named { name: format!("m{i}"), text: String::new(), color: Some(Tex { t: tex(c), pixels: None, solid: c }), normal: None });
        }
        put(&format!("{sub}many.mtl"), text.as_bytes());
        let r = Run { dir: &sub, mats: &many };
        for (order, groups) in [(0, false), (1, true), (2, false)] {
            if quick() && n > 10000 {
                // more corners than 16 bits count
                continue;
            }
            let faces = (0..n)
                .map(|i| {
                    let m = match order {
                        0 => i,
                        1 => n - 1 - i,
                        _ => (i * 37) % n,
                    };
                    let mut before = vec![format!("usemtl m{m}")];
                    if groups {
                        before.insert(i % 2, format!("g part{i}"));
                    }
                    Face { corners: 3 + i % 3, form: if order == 0 { Form::V } else { Form::Vt }, rel: [Rel::Absolute, Rel::Relative][i % 2], before, mat: Mat::Named(m) }
                })
                .collect();
            let mut f = file(faces);
            f.head = "mtllib many.mtl\n".into();
            f.layout = if order == 1 { Layout::Between } else { Layout::First };
            r.check("many", &f, None, &T::Nop, 1., true);
        }
        // one material, one mesh
        let mut f = file((0..n).map(|i| face(3 + i % 3, Form::Vtn, Rel::Absolute)).collect());
        f.layout = Layout::First;
        r.check("one", &f, Some(V(0.2, 0.4, 0.9)), &T::Nop, 1., true);
    });
    shared(&r);
    few(&r);
    magnitudes(&r);
    sample(|| "three faces of 3 to 5 corners, every way to write indices, vertices first or between; all sequences of three (thorough: four) of 13 groups of material and group statements".into());
    assume("each file has texture coordinates for all of its faces or for none; faces are convex and planar; no points or lines");
}

/// One texture coordinate for all corners, or two; a library that is not used, or of one material
fn few(r: &Run) {
    let tex = |i: usize| r.mats[i].color.as_ref().unwrap_or_else(|| broken("no color"));
    put(&format!("{}single.mtl", r.dir), b"newmtl lone\nKd 0.25 0.5 0.75\n");
    let mut cases: Vec<(String, V)> = vec![];
    for (u, v) in [(0.1, 0.2), (0.9, 0.5), (0.4, 0.8), (-0.3, 1.6)] {
        let Some(c) = tex(2).at((u, v)) else { broken("between texels") };
        let head = "mtllib all.mtl\nv -1 -1 0\nv 1 -1 0\nv 1 1 0\nv -1 1 0\n";
        cases.push((format!("{head}vt {u} {v}\nusemtl tex\nf 1/1 2/1 3/1\nf 1/1 3/1 4/1\n"), c));
        cases.push((format!("{head}vt {u} {v}\nusemtl tex\nf 1/1 2/1 3/1 4/1\n"), c));
        cases.push((format!("{head}vt {u} {v}\nvt {u} {v}\nusemtl tex\nf 1/-2 2/-1 3/2 4/1\n"), c));
    }
    for head in ["", "o a\n", "g a\n", "o unnamed_object\n"] {
        for lib in ["", "mtllib single.mtl\n", "mtllib all.mtl\n"] {
            cases.push((format!("{lib}{head}v -1 -1 0\nv 1 -1 0\nv 1 1 0\nv -1 1 0\nf 1 2 3 4\n"), V(0.3, 0.6, 0.1)));
            cases.push((format!("{head}{lib}v -1 -1 0\nv 1 -1 0\nv 1 1 0\nv -1 1 0\nf 1 2 3 4\nusemtl red\n"), V(0.3, 0.6, 0.1)));
        }
    }
    for (text, want) in cases {
        put(&format!("{}few.obj", r.dir), text.as_bytes());
        let h = match guarded(|| Obj::new(r.dir, "few.obj").load(&nop(), Some(matte(V(0.3, 0.6, 0.1))))) {
            Ok(Ok(h)) => h,
            Ok(Err(e)) => violation(&format!("model\n{text}\nfails to load: {e}")),
            Err(e) => violation(&format!("model\n{text}\npanic {e}")),
        };
        for p in grid(&[-0.9, -0.2, 0.1, 0.8], &[-0.8, -0.1, 0.3, 0.9], &[3.]) {
            let ry = ray(p, V(0., 0., -1.));
            let Some(hit) = h.hit(&ry, &all()) else { violation(&format!("model\n{text}\nthe ray from {p:?} downwards misses")) };
            let c = albedo(hit.material, &hit, &ry);
            must!(vclose(c, want, 1e-6), "model\n{}\nhas the color {:?} instead of {:?}", text, c, want);
            traces(1);
            transitions(1);
        }
        states(1);
    }
}

/// Faces of a closed shape that share their corners
fn shared(r: &Run) {
    let mut text = String::from("mtllib all.mtl\n");
    for z in [-1, 1] {
        for y in [-1, 1] {
            for x in [-1, 1] {
                let _ = writeln!(text, "v {x} {y} {z}");
            }
        }
    }
    let faces = [("1 3 4 2", "red", V(0., 0., -1.)), ("5 6 8 7", "my blue 1", V(0., 0., 1.)), ("1 2 6 5", "none", V(0., -1., 0.)), ("3 7 8 4", "red", V(0., 1., 0.)), ("1 5 7 3", "my blue 1", V(-1., 0., 0.)), ("2 4 8 6", "none", V(1., 0., 0.))];
    let color = |m: &str| match r.mats.iter().find(|n| n.name == m).and_then(|m| m.color.as_ref()) {
        Some(c) => c.solid,
        None => WHITE,
    };
    for order in 0..tier(12, 720) {
        // permutation by its number
        let mut rest: Vec<usize> = (0..6).collect();
        let mut k = order * if quick() { 61 } else { 1 } % 720;
        let mut t = text.clone();
        for i in (1..=6).rev() {
            let f: usize = (1..i).product();
            let x = rest.remove((k / f) % i);
            k %= f;
            let _ = writeln!(t, "usemtl {}\nf {}", faces[x].1, faces[x].0);
        }
        put(&format!("{}cube.obj", r.dir), t.as_bytes());
        let h = match guarded(|| Obj::new(r.dir, "cube.obj").load(&nop(), None)) {
            Ok(Ok(h)) => h,
            Ok(Err(e)) => violation(&format!("model\n{t}\nfails to load: {e}")),
            Err(e) => violation(&format!("model\n{t}\npanic {e}")),
        };
        for p in sphere_points(60) {
            for (_, m, n) in &faces {
                if p.dot(*n) < p.max_abs() - 1e-9 || (p.max_abs() - 0.995 * p.max_abs()) > p.dot(*n) {
                    continue;
                }
                for (o, d, front) in [(p * 9., -p, true), (V::ZERO, p, false)] {
                    let ry = ray(o, d);
                    let hit = h.hit(&ry, &all());
                    let Some(hit) = hit else { violation(&format!("model\n{t}\nthe ray from {o:?} to {d:?} misses")) };
                    must!(vclose(vv(hit.hit_point), p * (1. / p.max_abs()), 1e-6) && hit.front_face == front, "model\n{}\nthe ray from {:?} to {:?} hits at {:?}, front {}", t, o, d, vv(hit.hit_point), hit.front_face);
                    let c = albedo(hit.material, &hit, &ry);
                    must!(vclose(c, color(m), 1e-6), "model\n{}\nthe side {:?} has the color {:?} instead of {:?}", t, n, c, color(m));
                    traces(1);
                }
            }
        }
        states(1);
    }
}

/// Coordinates of any size, in any notation of numbers
fn magnitudes(r: &Run) {
    let mut n = 0;
    for e in -6..=9i32 {
        let m = 10f64.powi(e);
        for at in [V(0., 0., 0.), V(3., -2., 1.), V(-900., 0.5, 700.)] {
            let ps = [V(-1., -1., 0.25), V(1.5, -0.5, -0.25), V(0.5, 2., 0.5), V(-1.5, 1., 0.)].map(|p| (p + at) * m);
            for way in 0..4 {
                let num = |v: f64| match way {
                    0 => format!("{}", v as f32),
                    1 => format!("{:e}", v as f32),
                    2 => format!("{:E}", v as f32).replace('E', if v.abs() >= 1. { "E+" } else { "E" }),
                    _ => format!("{}{:.12}", if v >= 0. { "+" } else { "" }, v as f32 as f64),
                };
                let mut text = String::new();
                for p in &ps {
                    let _ = writeln!(text, "v {} {} {}", num(p.0), num(p.1), num(p.2));
                }
                text.push_str("f 1 2 3\nf 1 3 4\n");
                put(&format!("{}size.obj", r.dir), text.as_bytes());
                let h = match guarded(|| Obj::new(r.dir, "size.obj").load(&nop(), None)) {
                    Ok(Ok(h)) => h,
                    Ok(Err(e)) => violation(&format!("model\n{text}\nfails to load: {e}")),
                    Err(e) => violation(&format!("model\n{text}\npanic {e}")),
                };
                // as the file gives them
                let q = ps.map(|p| V(p.0 as f32 as f64, p.1 as f32 as f64, p.2 as f32 as f64));
                for (a, b, c) in [(0, 1, 2), (0, 2, 3)] {
                    for (x, y) in [(0.3, 0.3), (0.1, 0.8), (0.7, 0.1)] {
                        let p = q[a] + (q[b] - q[a]) * x + (q[c] - q[a]) * y;
                        let d = V(0.2, -0.3, -1.);
                        let ry = ray(p - d * (2. * m), d);
                        let got = h.hit(&ry, &Interval::new(1e-12, f64::INFINITY));
                        let Some(g) = got else { violation(&format!("model\n{text}\nthe ray to {p:?} misses")) };
                        let tol = 2e-5 * m + 2e-3 * m * 1e-3 * at.max_abs().max(1.) * 1e-3;
                        must!((vv(g.hit_point) - p).max_abs() <= tol, "model\n{}\nis hit at {:?} instead of {:?}", text, vv(g.hit_point), p);
                        n += 1;
                    }
                }
                states(1);
            }
        }
    }
    traces(n);
    transitions(n);
    note("rays to models of other sizes", n);
}
