//! C35: renders are independent of each other.
use crate::c04::sname;
use crate::explore::{explore_delays, once, Bounds};
use crate::scene::*;
use mcstd::sync::mpsc::channel;
use solstrale::hittable::Hittables;
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessors};
use solstrale::renderer::RenderImageStrategy::{EverySample, Interval, OnlyFinal};
use solstrale::renderer::{RenderImageStrategy, Renderer};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Sent = Arc<dyn Fn() -> usize + Send + Sync>;

/// How a render ends
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum End {
    Complete,
    /// an abort message waits
    Aborted,
    /// nobody waits for the reports
    Unheard,
    /// the denoiser fails at its first call
    Failing,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum P {
    None,
    Nop,
    Bloom,
    Oidn,
    BloomNop,
    /// not possible
    OidnNop,
}

#[derive(Copy, Clone)]
struct Conf {
    w: usize,
    h: usize,
    n: usize,
    p: P,
    s: RenderImageStrategy,
    end: End,
}

fn post(p: P) -> Vec<PostProcessors> {
    let bloom = || BloomPostProcessor::new(0.5, Some(0.15), None).unwrap();
    match p {
        P::None => vec![],
        P::Nop => vec![NopPostProcessor::new()],
        P::Bloom => vec![bloom()],
        P::Oidn => vec![OidnPostProcessor::new()],
        P::BloomNop => vec![bloom(), NopPostProcessor::new()],
        P::OidnNop => vec![OidnPostProcessor::new(), NopPostProcessor::new()],
    }
}

fn invert(c: &[f32]) -> Vec<f32> {
    c.iter().map(|c| 0.998 - c).collect()
}

/// What a render came to
#[derive(Clone, Debug, PartialEq)]
struct Res {
    error: Option<String>,
    progress: Vec<f64>,
    /// samples per second and seconds left (each sample takes the same time)
    times: Vec<(f64, f64)>,
    images: Vec<Option<(u32, u32, Vec<u8>)>>,
    /// what the denoiser was given
    given: Vec<(Vec<u32>, Option<Vec<u32>>, Option<Vec<u32>>)>,
}

/// Which report comes next tells the random numbers
fn switch() -> Arc<Mutex<Sent>> {
    let cell: Arc<Mutex<Sent>> = Arc::new(Mutex::new(Arc::new(|| 0)));
    let c2 = cell.clone();
    set_env_spread(Arc::new(move || (c2.lock().unwrap().clone())()), 3, (0..40).map(|k| 1_000_000_000_000_000_000 + k * 6_000_000).collect());
    cell
}

fn render(cell: &Mutex<Sent>, r: &Renderer, c: &Conf, end: End) -> Res {
    let (tx, rx) = channel();
    let (atx, arx) = channel();
    *cell.lock().unwrap() = rx.mc_sent();
    env().unwrap().next_render(250_000_000);
    oidn::mc::reset(if end == End::Failing { vec![1] } else { vec![] }, Some(invert));
    if end == End::Aborted {
        atx.send(true).unwrap();
    }
    let mut rx = Some(rx);
    if end == End::Unheard {
        rx = None;
        *cell.lock().unwrap() = Arc::new(|| 0);
    }
    let res = r.render(&tx, &arx).map_err(|e| e.to_string());
    drop(tx);
    let reps: Vec<Rep> = rx.map_or(vec![], |rx| rx.try_iter().map(Rep::from).collect());
    let bits = |v: &Vec<f32>| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let _ = c;
    Res {
        error: res.err(),
        progress: reps.iter().map(|r| r.progress).collect(),
        times: reps.iter().map(|r| (r.fps.unwrap_or(-1.), r.left.as_secs_f64())).collect(),
        images: reps.into_iter().map(|r| r.image).collect(),
        given: oidn::mc::take().iter().map(|c| (bits(&c.color), c.albedo.as_ref().map(bits), c.normal.as_ref().map(bits))).collect(),
    }
}

fn renderer(w: &Hittables, c: &Conf) -> Renderer {
    Renderer::new(scene(w, c.w, c.h, c.n, post(c.p), c.s)).unwrap_or_else(|e| vlib::violation(&format!("{:?}: {}", c.p, e)))
}

fn text(c: &Conf) -> String {
    format!("{}x{} pixels, {} samples, {:?}, {}, {:?}", c.w, c.h, c.n, c.p, sname(&c.s), c.end)
}

/// Own expectation, where it is simple
fn plausible(c: &Conf, r: &Res) -> Result<(), String> {
    match c.end {
        End::Aborted if r.error.is_some() || !r.progress.is_empty() => return Err(format!("aborted beforehand, but {:?}", r.progress)),
        End::Unheard | End::Failing if r.error.is_none() => return Err("no error".into()),
        End::Complete if c.p != P::OidnNop => {
            if let Some(e) = &r.error {
                return Err(e.clone());
            }
            let want: Vec<f64> = (1..=c.n).map(|k| k as f64 / c.n as f64).collect();
            if r.progress != want {
                return Err(format!("progress {:?}", r.progress));
            }
            match &r.images[c.n - 1] {
                None => return Err("no final image".into()),
                Some(i) if (i.0 as usize, i.1 as usize) != (c.w, c.h) => return Err(format!("image of {}x{}", i.0, i.1)),
                Some(i) if matches!(c.p, P::None | P::Nop) => check_image(i, c.w, c.h, c.n)?,
                _ => {}
            }
        }
        _ => {}
    }
    Ok(())
}

fn differ(a: &Res, b: &Res) -> Option<String> {
    if a == b {
        return None;
    }
    Some(if a.error != b.error {
        format!("result {:?} instead of {:?}", b.error, a.error)
    } else if a.progress != b.progress {
        format!("progress {:?} instead of {:?}", b.progress, a.progress)
    } else if a.times.len() != b.times.len() || a.times.iter().zip(&b.times).any(|(a, b)| (a.0 - b.0).abs() > 1e-6 * a.0.abs() || (a.1 - b.1).abs() > 1e-6 * a.1.abs()) {
        format!("samples per second and seconds left {:?} instead of {:?}", b.times, a.times)
    } else if a.images != b.images {
        let k = (0..a.images.len()).find(|k| a.images[*k] != b.images[*k]).unwrap();
        match (&a.images[k], &b.images[k]) {
            (Some(x), Some(y)) if (x.0, x.1) == (y.0, y.1) => {
                let i = (0..x.2.len()).find(|i| x.2[*i] != y.2[*i]).unwrap();
                // the same numbers may be added up in another order
                if x.2.iter().zip(&y.2).all(|(p, q)| p.abs_diff(*q) <= 1) {
                    return None;
                }
                format!("report {}: byte {} of the image is {} instead of {}", k + 1, i, y.2[i], x.2[i])
            }
            (x, y) => format!("report {}: image {:?} instead of {:?}", k + 1, y.as_ref().map(|i| (i.0, i.1)), x.as_ref().map(|i| (i.0, i.1))),
        }
    } else {
        let (x, y) = (&a.given, &b.given);
        let f = |v: &Vec<u32>| v.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>();
        let near = |p: &Vec<u32>, q: &Vec<u32>| p.len() == q.len() && f(p).iter().zip(&f(q)).all(|(p, q)| (p - q).abs() < 1e-5);
        let near_o = |p: &Option<Vec<u32>>, q: &Option<Vec<u32>>| match (p, q) {
            (Some(p), Some(q)) => near(p, q),
            (p, q) => p.is_none() == q.is_none(),
        };
        if x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near(&p.0, &q.0) && near_o(&p.1, &q.1) && near_o(&p.2, &q.2)) {
            return None;
        }
        "the denoiser is given other images".into()
    })
}

fn alphabet() -> Vec<Conf> {
    let mut v = vec![];
    let ms = Interval(Duration::from_millis(10));
    let c = |w, h, n, p, s, end| Conf { w, h, n, p, s, end };
    v.push(c(2, 2, 1, P::None, EverySample, End::Complete));
    v.push(c(3, 2, 3, P::None, EverySample, End::Complete));
    v.push(c(2, 3, 3, P::Nop, OnlyFinal, End::Complete));
    v.push(c(2, 2, 3, P::Bloom, EverySample, End::Complete));
    v.push(c(3, 2, 2, P::BloomNop, ms, End::Complete));
    v.push(c(2, 2, 2, P::Oidn, EverySample, End::Complete));
    v.push(c(3, 2, 2, P::Oidn, OnlyFinal, End::Complete));
    v.push(c(2, 2, 3, P::None, EverySample, End::Aborted));
    v.push(c(3, 2, 3, P::Oidn, EverySample, End::Unheard));
    v.push(c(2, 2, 2, P::Oidn, EverySample, End::Failing));
    v.push(c(2, 2, 1, P::OidnNop, EverySample, End::Complete));
    // a wide blur
    v.push(c(8, 1, 1, P::Bloom, OnlyFinal, End::Complete));
    if vlib::thorough() {
        v.push(c(1, 1, 1, P::None, OnlyFinal, End::Complete));
        v.push(c(4, 1, 2, P::Bloom, OnlyFinal, End::Complete));
        v.push(c(1, 4, 3, P::None, ms, End::Unheard));
        v.push(c(5, 5, 1, P::None, EverySample, End::Complete));
        v.push(c(2, 2, 3, P::Bloom, EverySample, End::Unheard));
    }
    v
}

pub fn run() {
    vlib::assume("sequentially consistent memory; threads interleave at locks, channels, atomics and pool operations");
    vlib::assume("the denoiser is a stand-in that inverts the colors it is given");
    let al = alphabet();
    let worlds: Vec<Hittables> = al.iter().map(|c| world(c.w, c.h, 3)).collect();
    // each on its own
    let alone: Vec<Res> = al
        .iter()
        .zip(&worlds)
        .map(|(c, w)| {
            once(2, || {
                let cell = switch();
                render(&cell, &renderer(w, c), c, c.end)
            })
        })
        .collect();
    for (c, r) in al.iter().zip(&alone) {
        if let Err(e) = plausible_of(c, r) {
            vlib::violation(&format!("{}: {}", text(c), e));
        }
    }
    // one after the other, each scene with its own renderer
    let mut seqs = vec![];
    for len in 2..=vlib::tier(3, 4) {
        if len == 4 {
            seqs.extend(vlib::product(&[al.len(), 4, 4, al.len()]));
        } else {
            seqs.extend(vlib::product(&vec![al.len(); len]));
        }
    }
    // many
    for len in vlib::tier(vec![40], vec![40, 150]) {
        for k in 0..al.len() {
            seqs.push(vec![k; len]);
            seqs.push((0..len).map(|i| (i * (k + 1) + k) % al.len()).collect());
        }
    }
    vlib::par(&seqs, |i, s| {
        let res = once(1 + i % 3, || {
            let cell = switch();
            s.iter().map(|k| render(&cell, &renderer(&worlds[*k], &al[*k]), &al[*k], al[*k].end)).collect::<Vec<_>>()
        });
        for (j, (k, r)) in s.iter().zip(&res).enumerate() {
            if let Some(d) = differ(&alone[*k], r) {
                let before: Vec<String> = s[..j].iter().map(|k| text(&al[*k])).collect();
                vlib::violation(&format!("rendering {} after [{}]: {}", text(&al[*k]), before.join("; "), d));
            }
        }
    });
    vlib::note("sequences of renders", seqs.len());
    // one renderer used again and again, with every sequence of endings
    let ends = [End::Complete, End::Aborted, End::Unheard, End::Failing];
    let mut cases = vec![];
    for k in 0..al.len() {
        for len in 2..=vlib::tier(4, 5) {
            for e in vlib::product(&vec![4; len]) {
                cases.push((k, e.iter().map(|e| ends[*e]).collect::<Vec<_>>()));
            }
        }
        for len in vlib::tier(vec![40], vec![40, 150]) {
            for p in [vec![0], vec![0, 1], vec![3, 0, 2], vec![0, 0, 0, 0, 0, 0, 1, 2, 3]] {
                cases.push((k, (0..len).map(|i| ends[p[i % p.len()]]).collect()));
            }
        }
    }
    let singles: BTreeMap<(usize, End), Res> = (0..al.len())
        .flat_map(|k| ends.map(|e| (k, e)))
        .map(|(k, e)| {
            let r = once(2, || {
                let cell = switch();
                render(&cell, &renderer(&worlds[k], &al[k]), &al[k], e)
            });
            ((k, e), r)
        })
        .collect();
    vlib::par(&cases, |i, (k, es)| {
        let res = once(1 + i % 2, || {
            let cell = switch();
            let r = renderer(&worlds[*k], &al[*k]);
            es.iter().map(|e| render(&cell, &r, &al[*k], *e)).collect::<Vec<_>>()
        });
        for (j, (e, r)) in es.iter().zip(&res).enumerate() {
            if let Some(d) = differ(&singles[&(*k, *e)], r) {
                vlib::violation(&format!("render {} of {:?} by one renderer ({}): {}", j + 1, es, text(&al[*k]), d));
            }
        }
    });
    vlib::note("uses of one renderer", cases.len());
    together();
}

fn plausible_of(c: &Conf, r: &Res) -> Result<(), String> {
    if matches!(c.s, EverySample) && c.end == End::Complete && r.error.is_none() && r.images.iter().any(|i| i.is_none()) {
        return Err("a report without an image".into());
    }
    // the worlds are made for three samples; fewer samples see the first parts of each pixel
    plausible(c, r)
}

/// Two renders at the same time, by one renderer or by two
fn together() {
    // (sizes and samples of the two, one renderer for both, workers, deviations from the first schedule)
    for (a, b, one, workers, delays) in vlib::tier(
        vec![
            ((1, 1, 1), (1, 1, 1), true, 1, 3),
            ((1, 1, 1), (2, 1, 1), false, 1, 3),
            ((1, 1, 2), (1, 1, 2), true, 1, 2),
            ((1, 2, 2), (1, 2, 2), true, 1, 2),
            ((1, 2, 1), (3, 1, 2), false, 1, 2),
            ((2, 2, 1), (2, 2, 1), true, 2, 2),
            ((2, 2, 2), (1, 2, 1), false, 2, 2),
        ],
        vec![
            ((1, 1, 1), (1, 1, 1), true, 1, 4),
            ((1, 1, 1), (2, 1, 1), false, 1, 4),
            ((1, 1, 2), (1, 1, 2), true, 1, 3),
            ((1, 2, 2), (1, 2, 2), true, 1, 3),
            ((1, 2, 1), (3, 1, 2), false, 1, 3),
            ((2, 2, 1), (2, 2, 1), true, 2, 2),
            ((2, 2, 2), (1, 2, 1), false, 2, 2),
            ((3, 3, 3), (3, 3, 3), true, 2, 1),
        ],
    ) {
        let (wa, wb) = (world(a.0, a.1, 1), world(b.0, b.1, 1));
        explore_delays(
            &format!("{:?} and {:?} (width, height, samples) by {}", a, b, if one { "one renderer" } else { "two renderers" }),
            &Bounds { workers, preemptions: 99, horizon: 20_000, max_execs: vlib::tier(100_000, 1_000_000) },
            delays,
            || {
                set_env(Arc::new(|| 0), vec![0.5], vec![0]);
                let make = |w: &Hittables, c: (usize, usize, usize)| {
                    Arc::new(Renderer::new(scene(w, c.0, c.1, c.2, vec![], EverySample)).map_err(|e| e.to_string()).unwrap())
                };
                let ra = make(&wa, a);
                let rb = if one { ra.clone() } else { make(&wb, b) };
                let go = |r: Arc<Renderer>| {
                    let (tx, rx) = channel();
                    let (_atx, arx) = channel();
                    let res = r.render(&tx, &arx).map_err(|e| e.to_string());
                    drop(tx);
                    (res, rx.try_iter().map(Rep::from).collect::<Vec<_>>())
                };
                let other = mcstd::thread::spawn(move || go(rb));
                let x = go(ra);
                let y = other.join().map_err(|_| "the second render panicked".to_string());
                mcrt::calm();
                (x, y)
            },
            |v, _| {
                let (x, y) = v.as_ref().map_err(|e| format!("a render panicked: {}", e))?;
                let y = y.as_ref().map_err(|e| e.clone())?;
                for ((r, reps), c) in [(x, a), (y, b)] {
                    r.as_ref().map_err(|e| format!("a render failed: {}", e))?;
                    if reps.len() != c.2 {
                        return Err(format!("{} reports of {}", reps.len(), c.2));
                    }
                    for (k, rep) in reps.iter().enumerate() {
                        if rep.progress != (k + 1) as f64 / c.2 as f64 {
                            return Err(format!("report {} carries progress {}", k + 1, rep.progress));
                        }
                        // every sample sees the same light
                        check_image(rep.image.as_ref().ok_or("no image")?, c.0, c.1, 1).map_err(|e| format!("report {}: {}", k + 1, e))?;
                    }
                }
                Ok(())
            },
        );
    }
}
