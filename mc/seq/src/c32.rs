//! Damaged model files: every truncation, every damaged byte out of an alphabet, every damaged token and line.
use crate::c31::{put, write_materials};
use crate::kit::*;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::{Material, RayScatter};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

const OBJ: &str = "mtllib m.mtl
o one
v -1 -1 0
v 1 -1 0.5
v 1 1e0 0
v -1.5 +1 0 1.0
vt 0 0
vt 1 0.0
vt 1 1
vt 0.5 -.5
vn 0 0 1
usemtl red
f 1/1/1 2/2/1 3/3/1
g two
usemtl tex
f -4/1 -2/3 -1/-1
usemtl bumped
v 3 0 0
v 4 0 0
v 4 1 0
v 3.5 2 0
v 3 1 0
f 5/1 6/2 7/3 8/4 9/4
";
const MTL: &str = "# materials
newmtl red
Ka 0 0 0
Kd 0.8 0.1 .1
Ks 1 1 1
Ns 10
Ni 1.4
d 1
illum 2
newmtl tex
map_Kd a.png
newmtl bumped
Kd 1 1 1
map_Kd a.EXT
bump n.EXT
";

/// All files of a model
#[derive(Clone)]
struct Model {
    files: Vec<(String, Vec<u8>)>,
}
fn model(ext: &str, dir: &str) -> Model {
    let img = |n: &str, w: u32, h: u32, f: &dyn Fn(u32, u32) -> [u8; 3]| {
        let p = format!("{dir}{n}");
        image(w, h, f).save(&p).unwrap_or_else(|_| broken("cannot write an image"));
        let b = std::fs::read(&p).unwrap_or_else(|_| broken("cannot read an image"));
        let _ = std::fs::remove_file(&p);
        (n.to_string(), b)
    };
    let mut files = vec![("m.obj".to_string(), OBJ.as_bytes().to_vec()), ("m.mtl".to_string(), MTL.replace("EXT", ext).into_bytes())];
    let color = |x: u32, y: u32| [(x * 50) as u8, (y * 70) as u8, 99];
    files.push(img("a.png", 4, 3, &color));
    if ext != "png" {
        files.push(img(&format!("a.{ext}"), 5, 2, &color));
    }
    files.push(img(&format!("n.{ext}"), 3, 3, &|x, y| [(x * 60 + y) as u8; 3]));
    Model { files }
}

/// A change of one file
#[derive(Clone, Debug)]
struct Damage {
    file: usize,
    what: String,
    /// None: the file is missing
    data: Option<Vec<u8>>,
}

fn cut(file: usize, b: &[u8], out: &mut Vec<Damage>) {
    for n in 0..b.len() {
        out.push(Damage { file, what: format!("cut after {n} bytes"), data: Some(b[..n].to_vec()) });
    }
}

fn bytes(file: usize, b: &[u8], alphabet: &dyn Fn(u8) -> Vec<u8>, out: &mut Vec<Damage>) {
    for i in 0..b.len() {
        for x in alphabet(b[i]) {
            if x != b[i] {
                let mut d = b.to_vec();
                d[i] = x;
                out.push(Damage { file, what: format!("byte {i} is {x:#04x} instead of {:#04x}", b[i]), data: Some(d) });
            }
        }
    }
}

fn shifts(file: usize, b: &[u8], insert: &[u8], out: &mut Vec<Damage>) {
    for i in 0..b.len() {
        let mut d = b.to_vec();
        d.remove(i);
        out.push(Damage { file, what: format!("byte {i} removed"), data: Some(d) });
        for x in insert {
            let mut d = b.to_vec();
            d.insert(i, *x);
            out.push(Damage { file, what: format!("byte {x:#04x} inserted before byte {i}"), data: Some(d) });
        }
    }
}

const NUMBERS: [&str; 24] = [
    "", "0", "-0", "1", "-1", "2", "-5", "99", "-99", "2147483648", "4294967296", "-4294967297", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999", "nan", "inf", "-inf", "1e39", "1e-46", "1.5", "0x10", "٣",
];
fn tokens() -> Vec<String> {
    let mut v: Vec<String> = NUMBERS.iter().map(|s| s.to_string()).collect();
    for s in [
        "1/1", "1//1", "1/1/1", "1/1/1/1", "/", "//", "///", "1/", "/1", "1//", "//1", "1/0/1", "0/0/0", "1/-1", "1/99", "1//99", "99//", "1/9223372036854775807", "1/-9223372036854775808", "-9223372036854775808/1", "1//-9223372036854775808",
        "1/4611686018427387905", "6148914691236517207", "3074457345618258604/1", "1/x", "x/1", "1/1/nan",
        "v", "vt", "vn", "f", "l", "p", "o", "g", "s", "#", "usemtl", "mtllib", "newmtl", "Kd", "map_Kd", "bump", "map_Bump", "illum", "d", "red", "tex", "none", "m.obj", "m.mtl", "missing.mtl", "a.png", "missing.png", "../m/a.png", ".", "..", "/", "/dev/null", "a\u{0}b", "\u{fffd}", "é", "\\", "\"a.png\"", "-o 1 a.png",
    ] {
        v.push(s.to_string());
    }
    v
}

fn words(file: usize, text: &str, alphabet: &[String], out: &mut Vec<Damage>) {
    // words with their positions
    let mut at = vec![];
    let mut start = None;
    for (i, c) in text.char_indices().chain([(text.len(), ' ')]) {
        match (c.is_whitespace(), start) {
            (false, None) => start = Some(i),
            (true, Some(s)) => {
                at.push((s, i));
                start = None;
            }
            _ => {}
        }
    }
    for (s, e) in &at {
        for t in alphabet {
            let d = format!("{}{}{}", &text[..*s], t, &text[*e..]);
            out.push(Damage { file, what: format!("word {:?} at {} is {:?}", &text[*s..*e], s, t), data: Some(d.into_bytes()) });
        }
        let d = format!("{} {}{}", &text[..*e], &text[*s..*e], &text[*e..]);
        out.push(Damage { file, what: format!("word {:?} at {} is doubled", &text[*s..*e], s), data: Some(d.into_bytes()) });
    }
}

fn lines(file: usize, text: &str, out: &mut Vec<Damage>) {
    let l: Vec<&str> = text.lines().collect();
    let join = |v: Vec<&str>| Some((v.join("\n") + "\n").into_bytes());
    for i in 0..l.len() {
        let mut v = l.clone();
        v.remove(i);
        out.push(Damage { file, what: format!("line {i} removed"), data: join(v) });
        for j in 0..l.len() {
            let mut v = l.clone();
            v.swap(i, j);
            if i < j {
                out.push(Damage { file, what: format!("lines {i} and {j} swapped"), data: join(v) });
            }
            let mut v = l.clone();
            v.insert(j, l[i]);
            out.push(Damage { file, what: format!("line {i} again before line {j}"), data: join(v) });
        }
    }
}

fn damages(m: &Model) -> Vec<Damage> {
    let mut out = vec![];
    let toks = tokens();
    let all: Vec<u8> = (0..=255).collect();
    for (i, (name, b)) in m.files.iter().enumerate() {
        out.push(Damage { file: i, what: "missing".into(), data: None });
        cut(i, b, &mut out);
        // another file instead
        for (j, (other, o)) in m.files.iter().enumerate() {
            if i != j {
                out.push(Damage { file: i, what: format!("has the content of {other}"), data: Some(o.clone()) });
            }
        }
        if name.ends_with(".obj") || name.ends_with(".mtl") {
            let text = String::from_utf8(b.clone()).unwrap_or_default();
            let a: Vec<u8> = if quick() { b"\x00\t\n\r /-.#9ev\x7f\x80\xff".to_vec() } else { all.clone() };
            bytes(i, b, &|_| a.clone(), &mut out);
            shifts(i, b, if quick() { b"\n /-9\xe2" } else { &all }, &mut out);
            words(i, &text, &toks, &mut out);
            lines(i, &text, &mut out);
            if !quick() {
                // two damages
                let few: Vec<String> = ["", "0", "-99", "9223372036854775807", "1/99", "nan", "1e39", "f", "usemtl", "missing.png"].iter().map(|s| s.to_string()).collect();
                let mut once = vec![];
                words(i, &text, &few, &mut once);
                for d in once {
                    let Some(t) = d.data.and_then(|d| String::from_utf8(d).ok()) else { continue };
                    let mut twice = vec![];
                    words(i, &t, &few[..4], &mut twice);
                    out.extend(twice.into_iter().map(|e| Damage { what: format!("{}, {}", d.what, e.what), ..e }));
                }
            }
        } else {
            let flips = |x: u8| {
                let mut v = vec![0, 255, 127, 128, x.wrapping_add(1), x.wrapping_sub(1)];
                v.extend((0..8).map(|b| x ^ (1 << b)));
                v
            };
            if quick() {
                bytes(i, b, &flips, &mut out);
            } else {
                bytes(i, b, &|_| (0..=255).collect(), &mut out);
            }
            shifts(i, b, &[0, 255], &mut out);
        }
    }
    out
}

/// Use of a loaded model, for whatever it has become
fn cast(h: &Hittables) -> Vec<String> {
    let mut out = vec![];
    let lights = [solstrale::hittable::Sphere::new(v3(V(0., 30., 5.)), 1., light(V(1., 1., 1.)))];
    for (o, d) in [(V(0.3, -0.4, 5.), V(0., 0., -1.)), (V(-0.7, 0.4, 5.), V(0., 0., -1.)), (V(3.6, 0.5, 5.), V(0., 0., -1.)), (V(3.6, 1.5, 5.), V(0., 0., -2.)), (V(9., 9., 9.), V(-1., -1., -1.)), (V(0., 0.1, 0.2), V(1., 0.3, 0.1))] {
        let r = ray(o, d);
        let hit = with_stream(3, || h.hit(&r, &all())).0;
        let mut s = show(&hit);
        if let Some(hit) = &hit {
            match with_stream(4, || hit.material.scatter(&r, hit, &lights)).0 {
                RayScatter::ScatterPdf(p) => s += &format!(" {:?}", vv(p.color)),
                _ => s += " unexpected material",
            }
        }
        out.push(s);
    }
    out
}

thread_local! {
    static CASE: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: RefCell<Option<(usize, String)>> = const { RefCell::new(None) };
}
extern "C" {
    fn signal(n: i32, f: usize) -> usize;
}
/// The code under test ends the process (out of memory, stack overflow)
extern "C" fn aborted(_: i32) {
    let c = CASE.with(|c| c.borrow().clone());
    violation(&format!("{c}: ends the whole process"));
}

/// What is being loaded since when
static RUNNING: Mutex<Vec<Option<(f64, String)>>> = Mutex::new(vec![]);
fn enter(slot: usize, c: Option<String>) {
    let mut r = RUNNING.lock().unwrap();
    if r.len() <= slot {
        r.resize(slot + 1, None);
    }
    r[slot] = c.map(|c| (elapsed(), c));
}
fn watch() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let late = RUNNING.lock().unwrap().iter().flatten().find(|c| elapsed() - c.0 > 60.).cloned();
        if let Some((_, c)) = late {
            violation(&format!("{c}: still loading after a minute"));
        }
    });
}

pub fn run() {
    unsafe { signal(6, aborted as *const () as usize) };
    watch();
    let scratch = Scratch::new("c32");
    let slots = AtomicUsize::new(0);
    let (loaded, failed) = (AtomicU64::new(0), AtomicU64::new(0));
    let messages: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    for ext in ["png", "jpg", "bmp"] {
        let m = model(ext, &scratch.dir("make"));
        let mut ds = damages(&m);
        if ext != "png" {
            // the same text files
            ds.retain(|d| d.file >= 3);
        }
        note(&format!("damages, images of type {ext}"), ds.len());
        // how the good model looks
        let good = {
            let dir = scratch.dir("good");
            m.files.iter().for_each(|(n, b)| put(&format!("{dir}{n}"), b));
            match Obj::new(&dir, "m.obj").load(&nop(), None) {
                Ok(h) => cast(&h),
                Err(e) => violation(&format!("the good model fails to load: {e}")),
            }
        };
        must!(good[0] != good[1] && good[2].starts_with("hit"), "the good model shows {:?}", good);
        par(&ds, |_, d| {
            let (slot, dir) = SLOT.with(|s| {
                s.borrow_mut()
                    .get_or_insert_with(|| {
                        let n = slots.fetch_add(1, SeqCst);
                        (n, scratch.dir(&format!("{ext}{n}")))
                    })
                    .clone()
            });
            let name = &m.files[d.file].0;
            let what = || format!("model with {} {}{}", name, d.what, match (&d.data, d.file < 2) {
                (Some(b), true) => format!(":\n{}", String::from_utf8_lossy(b)),
                _ => String::new(),
            });
            for (n, b) in &m.files {
                if n != name {
                    let p = format!("{dir}{n}");
                    if !std::path::Path::new(&p).exists() {
                        put(&p, b);
                    }
                }
            }
            let path = format!("{dir}{name}");
            match &d.data {
                Some(b) => put(&path, b),
                None => {
                    let _ = std::fs::remove_file(&path);
                }
            }
            CASE.with(|c| *c.borrow_mut() = format!("model with {} {}", name, d.what));
            enter(slot, Some(format!("model with {} {}", name, d.what)));
            let r = guarded(|| Obj::new(&dir, "m.obj").load(&nop(), None).map_err(|e| e.to_string()));
            match r {
                Err(e) => violation(&format!("{}: panic {}", what(), e)),
                Ok(Ok(h)) => {
                    loaded.fetch_add(1, SeqCst);
                    must!(d.data.is_some(), "{}: loads without an error", what());
                    if let Err(e) = guarded(|| cast(&h)) {
                        violation(&format!("{}: panic {} at a ray", what(), e));
                    }
                }
                Ok(Err(e)) => {
                    failed.fetch_add(1, SeqCst);
                    let named = if d.file >= 2 { e.contains(&path) } else { e.contains(&dir) };
                    must!(named, "{}: the error does not name the file: {}", what(), e);
                    let mut ms = messages.lock().unwrap();
                    if ms.len() < 200 {
                        ms.insert(e.replace(&dir, "").chars().take(60).collect());
                    }
                }
            }
            // whatever happened, the repaired model loads
            put(&path, &m.files[d.file].1);
            match guarded(|| Obj::new(&dir, "m.obj").load(&nop(), None).map_err(|e| e.to_string())) {
                Ok(Ok(h)) => {
                    let now = cast(&h);
                    must!(now == good, "{}: after repairing it the model shows {:?} instead of {:?}", what(), now, good);
                }
                Ok(Err(e)) => violation(&format!("{}: after repairing it, it fails to load: {}", what(), e)),
                Err(e) => violation(&format!("{}: after repairing it: panic {}", what(), e)),
            }
            enter(slot, None);
            states(1);
            transitions(2);
            traces(2);
        });
    }
    strange(&scratch);
    note("loaded anyway", loaded.load(SeqCst));
    note("refused", failed.load(SeqCst));
    note("different messages", messages.lock().unwrap().len());
    sample(|| format!("face index -9223372036854775808, missing texture, cut image; messages: {:?}", messages.lock().unwrap().iter().take(4).collect::<Vec<_>>()));
    unsafe { signal(6, 0) };
}

/// Names that are no readable files
fn strange(scratch: &Scratch) {
    let dir = scratch.dir("strange");
    write_materials(&dir, &crate::c31::materials());
    let sub = scratch.dir("strange/dir.obj");
    for (d, n) in [(dir.as_str(), "missing.obj"), (dir.as_str(), "dir.obj"), ("", ""), (dir.as_str(), ""), ("/nonexistent/", "a.obj"), (sub.as_str(), "../x.obj"), (dir.as_str(), "a\0b.obj"), (dir.as_str(), "a.png")] {
        match guarded(|| Obj::new(d, n).load(&nop(), None).map(|_| ()).map_err(|e| e.to_string())) {
            Ok(Ok(())) => violation(&format!("loading {d:?} {n:?} succeeds")),
            Ok(Err(e)) => must!(e.contains(&format!("{d}{n}")), "loading {:?} {:?}: the error does not name the file: {}", d, n, e),
            Err(e) => violation(&format!("loading {d:?} {n:?}: panic {e}")),
        }
        traces(1);
    }
    // textures that are no files
    for (i, t) in ["dir.obj", ".", "missing.png", "all.mtl", "a\0b.png"].iter().enumerate() {
        for key in ["map_Kd", "bump", "map_Bump"] {
            let name = format!("t{i}{key}");
            put(&format!("{dir}{name}.mtl"), format!("newmtl a\n{key} {t}\n").as_bytes());
            put(&format!("{dir}{name}.obj"), format!("mtllib {name}.mtl\nv 0 0 0\nv 1 0 0\nv 0 1 0\nusemtl a\nf 1 2 3\n").as_bytes());
            match guarded(|| Obj::new(&dir, &format!("{name}.obj")).load(&nop(), None).map(|_| ()).map_err(|e| e.to_string())) {
                Ok(Ok(())) => violation(&format!("loading a model with the texture {t:?} ({key}) succeeds")),
                Ok(Err(e)) => must!(e.contains(&format!("{dir}{t}")), "loading a model with the texture {:?} ({}): the error does not name the file: {}", t, key, e),
                Err(e) => violation(&format!("loading a model with the texture {t:?} ({key}): panic {e}")),
            }
            traces(1);
        }
    }
}
