//! Scenes whose every contribution can be told apart in the image: one small light per pixel and sample,
//! on the focus plane, hit by the camera ray of that pixel in that sample only.
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Hittables, Quad};
use solstrale::material::DiffuseLight;
use solstrale::post::PostProcessors;
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::{RenderConfig, RenderImageStrategy, RenderProgress, Scene};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use vlib::V;

const ENV: u64 = 1 << 60;

/// Random numbers and clock of one execution, by phase: before the first draw, and after each report.
pub struct Env {
    pub draws: AtomicU64,
    reads: AtomicUsize,
    sent: Arc<dyn Fn() -> usize + Send + Sync>,
    jitter: Vec<f64>,
    clock: Vec<i64>,
    alternate: bool,
    /// number of samples, for draws spread within the part of each sample
    spread: usize,
    /// added to the clock
    shift: AtomicI64,
}

impl Env {
    /// The next render begins some time later, with draws like those of the first
    pub fn next_render(&self, nanos: i64) {
        self.shift.fetch_add(nanos, SeqCst);
        self.draws.store(0, SeqCst);
    }

    fn phase(&self) -> usize {
        (self.sent)()
    }
}

pub fn env() -> Option<Arc<Env>> {
    let (e, _) = mcrt::ctx()?;
    e.find(ENV)?.downcast::<Env>().ok()
}

/// Installs the environment of the current execution.
pub fn set_env(sent: Arc<dyn Fn() -> usize + Send + Sync>, jitter: Vec<f64>, clock: Vec<i64>) -> Arc<Env> {
    let (e, _) = mcrt::ctx().unwrap();
    e.keep(ENV, || Env { draws: AtomicU64::new(0), reads: AtomicUsize::new(0), sent, jitter, clock, alternate: false, spread: 0, shift: AtomicI64::new(0) })
}

/// Draws of sample k lie in the middle of the k-th of n parts, but are not all the same.
pub fn set_env_spread(sent: Arc<dyn Fn() -> usize + Send + Sync>, n: usize, clock: Vec<i64>) -> Arc<Env> {
    let (e, _) = mcrt::ctx().unwrap();
    e.keep(ENV, || Env {
        draws: AtomicU64::new(0),
        reads: AtomicUsize::new(0),
        sent,
        jitter: vec![],
        clock,
        alternate: false,
        spread: n,
        shift: AtomicI64::new(0),
    })
}

/// Gives the values in turn, over and over.
pub fn set_env_alternating(values: Vec<f64>) -> Arc<Env> {
    let (e, _) = mcrt::ctx().unwrap();
    e.keep(ENV, || Env {
        draws: AtomicU64::new(0),
        reads: AtomicUsize::new(0),
        sent: Arc::new(|| 0),
        jitter: values,
        clock: vec![0],
        alternate: true,
        spread: 0,
        shift: AtomicI64::new(0),
    })
}

pub fn install_hooks() {
    fastrand::mc_hook::set_global(Some(Arc::new(|| match env() {
        None => fastrand::mc_hook::encode(0.5),
        Some(e) => {
            let d = e.draws.fetch_add(1, SeqCst) as usize;
            if e.spread > 0 {
                let v = (d as f64 * 0.6180339887498949).fract();
                let k = e.phase().min(e.spread - 1);
                return fastrand::mc_hook::encode(at(k as f64 + 0.45 + 0.1 * v, e.spread));
            }
            let p = if e.alternate { d % e.jitter.len() } else { e.phase().min(e.jitter.len() - 1) };
            fastrand::mc_hook::encode(e.jitter[p])
        }
    })));
    mcstd::time::set_clock(Some(Arc::new(|| match env() {
        None => 0,
        Some(e) => {
            e.reads.fetch_add(1, SeqCst);
            let p = if e.draws.load(SeqCst) == 0 { 0 } else { 1 + e.phase() };
            e.clock[p.min(e.clock.len() - 1)] + e.shift.load(SeqCst)
        }
    })));
}

/// Where in its pixel the k-th (from 0) of n parts lies. All draws are taken from the middle of 0..1, from
/// where no point of a disc or sphere is rejected.
pub fn at(k: f64, n: usize) -> f64 {
    0.3 + 0.4 * k / n as f64
}

/// Where the k-th part begins; together they fill the pixel
pub fn edge(k: usize, n: usize) -> f64 {
    match k {
        0 => 0.,
        k if k == n => 1.,
        k => at(k as f64, n),
    }
}

/// Jitter of sample k (from 0) of n
pub fn jitter(n: usize) -> Vec<f64> {
    (0..n).map(|k| at(k as f64 + 0.5, n)).collect()
}

pub fn color(x: usize, y: usize, k: usize) -> V {
    V((x + 1) as f64 * 0.08, (y + 1) as f64 * 0.08, 4f64.powi(k as i32) * 0.012)
}

pub const BACKGROUND: V = V(0.9, 0.9, 0.9);

pub fn camera() -> CameraConfig {
    CameraConfig {
        vertical_fov_degrees: 2. * 0.2f64.atan().to_degrees(),
        aperture_size: 0.,
        look_from: Vec3::new(0., 0., 5.),
        look_at: Vec3::new(0., 0., 0.),
        up: Vec3::new(0., 1., 0.),
    }
}

/// World for images of w x h pixels and n samples
pub fn world(w: usize, h: usize, n: usize) -> Hittables {
    world_of(w, h, n, &color)
}

pub fn world_of(w: usize, h: usize, n: usize, color: &dyn Fn(usize, usize, usize) -> V) -> Hittables {
    let hw = w as f64 / h as f64;
    let (wd, hd) = ((w - 1).max(1) as f64, (h - 1).max(1) as f64);
    let mut list = vec![];
    for y in 0..h {
        for x in 0..w {
            for k in 0..n {
                // the view spans -hw..hw, -1..1 on the plane z = 0; pixel rows are counted from the top
                let yb = (h - 1 - y) as f64;
                let (u0, u1) = ((x as f64 + edge(k, n)) / wd, (x as f64 + edge(k + 1, n)) / wd);
                let (v0, v1) = ((yb + edge(k, n)) / hd, (yb + edge(k + 1, n)) / hd);
                let c = color(x, y, k);
                list.push(Quad::new(
                    Vec3::new(-hw + 2. * hw * u0, -1. + 2. * v0, 0.),
                    Vec3::new(2. * hw * (u1 - u0), 0., 0.),
                    Vec3::new(0., 2. * (v1 - v0), 0.),
                    DiffuseLight::new(c.0, c.1, c.2, None),
                    &NopTransformer(),
                ));
            }
        }
    }
    Bvh::new(list)
}

fn light_tile(list: &mut Vec<Hittables>, w: usize, h: usize, at: (f64, f64), size: (f64, f64), c: V) {
    let hw = w as f64 / h as f64;
    let (wd, hd) = ((w - 1).max(1) as f64, (h - 1).max(1) as f64);
    let (u, v) = (at.0 / wd, at.1 / hd);
    list.push(Quad::new(
        Vec3::new(-hw + 2. * hw * u, -1. + 2. * v, 0.),
        Vec3::new(2. * hw * size.0 / wd, 0., 0.),
        Vec3::new(0., 2. * size.1 / hd, 0.),
        DiffuseLight::new(c.0, c.1, c.2, None),
        &NopTransformer(),
    ));
}

/// K x K lights per pixel; their color tells pixel and part.
pub fn tiles(w: usize, h: usize, k: usize) -> Hittables {
    let mut list = vec![];
    let enc = |n: usize| ((n as f64 * 10. + 5.5) / 256.).powi(2);
    for y in 0..h {
        for x in 0..w {
            for i in 0..k {
                for j in 0..k {
                    light_tile(
                        &mut list,
                        w,
                        h,
                        (x as f64 + i as f64 / k as f64, (h - 1 - y) as f64 + j as f64 / k as f64),
                        (1. / k as f64, 1. / k as f64),
                        V(enc(x), enc(y), enc(i * k + j)),
                    );
                }
            }
        }
    }
    Bvh::new(list)
}

pub fn tile_of(p: &[u8]) -> (usize, usize, u32) {
    (p[0] as usize / 10, p[1] as usize / 10, p[2] as u32 / 10)
}

pub fn scene(
    world: &Hittables,
    w: usize,
    h: usize,
    n: usize,
    post: Vec<PostProcessors>,
    strategy: RenderImageStrategy,
) -> Scene {
    Scene {
        world: world.clone(),
        camera: camera(),
        background_color: Vec3::new(BACKGROUND.0, BACKGROUND.1, BACKGROUND.2),
        render_config: RenderConfig {
            width: w,
            height: h,
            samples_per_pixel: n as u32,
            shader: PathTracingShader::new(3),
            post_processors: post,
            render_image_strategy: strategy,
        },
    }
}

/// Level of a color component in an image after averaging over k samples
pub fn level(sum: f64, k: usize) -> f64 {
    (sum / k as f64).max(0.).sqrt().min(0.999) * 256.
}

/// A report, as observed by its receiver
#[derive(Clone, Debug)]
pub struct Rep {
    pub progress: f64,
    pub fps: Option<f64>,
    pub left: std::time::Duration,
    pub image: Option<(u32, u32, Vec<u8>)>,
}

impl From<RenderProgress> for Rep {
    fn from(p: RenderProgress) -> Rep {
        Rep {
            progress: p.progress,
            fps: p.fps,
            left: p.estimated_time_left,
            image: p.render_image.map(|i| (i.width(), i.height(), i.into_raw())),
        }
    }
}

/// Compares the image with the average over samples 1..=k of what each pixel was to see.
pub fn check_image(img: &(u32, u32, Vec<u8>), w: usize, h: usize, k: usize) -> Result<(), String> {
    if (img.0 as usize, img.1 as usize) != (w, h) {
        return Err(format!("image of {}x{} pixels instead of {}x{}", img.0, img.1, w, h));
    }
    for y in 0..h {
        for x in 0..w {
            let mut sum = V::ZERO;
            for s in 0..k {
                sum = sum + color(x, y, s);
            }
            for c in 0..3 {
                let want = level(sum.get(c), k);
                let got = img.2[(y * w + x) * 3 + c] as f64;
                if (got + 0.5 - want).abs() > 1.6 {
                    return Err(format!(
                        "image after sample {}: pixel ({},{}) channel {} is {}, the average of its {} samples gives {:.1}",
                        k, x, y, c, got, k, want
                    ));
                }
            }
        }
    }
    Ok(())
}
