//! C14: parallel construction of the hierarchy.
use crate::explore::{explore, explore_delays, once, Bounds};
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Ray;
use solstrale::hittable::{Bvh, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::SolidColor;
use solstrale::material::{DiffuseLight, Lambertian, Materials};
use solstrale::util::interval::Interval;
use std::collections::BTreeMap;

#[derive(Copy, Clone, Debug, PartialEq)]
enum Layout {
    Line,
    Reversed,
    Grid,
    Coincident,
    Mixed,
    Nested,
    Clusters,
}

fn mat(i: usize) -> Materials {
    if i % 2 == 0 {
        DiffuseLight::new(i as f64 + 1., 1., 1., None)
    } else {
        Lambertian::new(SolidColor::new(i as f64 / 10., 0.5, 0.5), None)
    }
}

fn center(l: Layout, i: usize, n: usize) -> Vec3 {
    let f = i as f64;
    match l {
        Layout::Line => Vec3::new(f * 3., f, 0.),
        Layout::Reversed => Vec3::new(0., (n - i) as f64 * 4., 1.),
        Layout::Grid => Vec3::new((i % 2) as f64 * 5., (i / 2 % 2) as f64 * 6., (i / 4) as f64 * 7.),
        Layout::Coincident => Vec3::new(1., 2., 3.),
        Layout::Mixed | Layout::Nested => Vec3::new((f * 7.) % 5. * 4., (f * 3.) % 4. * 5., f * 3.),
        Layout::Clusters => Vec3::new(if i % 2 == 0 { 0. } else { 100. }, f * 0.1, 0.),
    }
}

fn objects(l: Layout, n: usize) -> Vec<Hittables> {
    (0..n)
        .map(|i| {
            let c = center(l, i, n);
            let t = NopTransformer();
            match (l, i % 3) {
                (Layout::Mixed, 1) => Quad::new(c, Vec3::new(2., 0., 1.), Vec3::new(0., 2., 0.), mat(i), &t),
                (Layout::Mixed, 2) => Triangle::new(c, c + Vec3::new(1., 0., 1.), c + Vec3::new(0., 1., 0.), mat(i), &t),
                (Layout::Nested, 1) => Bvh::new(vec![Sphere::new(c, 1., mat(i)), Sphere::new(c + Vec3::new(0., 2., 0.), 0.5, mat(i))]),
                _ => Sphere::new(c, 1. + i as f64 * 0.1, mat(i)),
            }
        })
        .collect()
}

/// Everything that can be observed of a hierarchy
fn observe(b: &Hittables, l: Layout, n: usize) -> (String, String, Vec<String>, Vec<String>) {
    let text = match b {
        Hittables::BvhType(b) => format!("{}", b),
        _ => "not a hierarchy".into(),
    };
    let bb = format!("{:?}", b.bounding_box());
    let lights = b.get_lights().iter().map(|l| format!("{:?}", l)).collect();
    let mut hits = vec![];
    for i in 0..n {
        let c = center(l, i, n);
        for d in [Vec3::new(0., 0., 1.), Vec3::new(1., 0.3, 0.2), Vec3::new(-0.2, 1., 0.1)] {
            for (o, d) in [(c - d * 50. + Vec3::new(0.3, 0.2, 0.1), d), (c, d)] {
                let h = b.hit(&Ray::new(o, d), &Interval::new(0.001, f64::INFINITY));
                hits.push(h.map_or("none".into(), |h| format!("{} {} {:?}", h.ray_length, h.hit_point, h.front_face)));
            }
        }
    }
    (text, bb, lights, hits)
}

/// How often each object occurs among the leaves, told by where its text form appears in the debug output
fn count(b: &Hittables, objs: &[Hittables]) -> Vec<usize> {
    let all = format!("{:?}", b);
    let mut n = vec![];
    for o in objs {
        n.push(all.matches(&format!("{:?}", o)).count());
    }
    n
}

pub fn run() {
    vlib::assume("sequentially consistent memory; threads interleave at locks, channels, atomics and pool operations");
    let all = [Layout::Line, Layout::Reversed, Layout::Grid, Layout::Coincident, Layout::Mixed, Layout::Nested, Layout::Clusters];
    let mut cfg = vec![];
    for l in all {
        for n in 0..=4 {
            cfg.push((l, n, 2, 99));
        }
        cfg.push((l, 4, 1, 99));
        cfg.push((l, 5, 2, vlib::tier(6, 99)));
        cfg.push((l, 6, 2, vlib::tier(3, 6)));
        cfg.push((l, 4, 3, 99));
        cfg.push((l, 8, 2, vlib::tier(2, 4)));
        cfg.push((l, 6, 3, vlib::tier(2, 4)));
        cfg.push((l, 13, 2, vlib::tier(1, 3)));
        if vlib::thorough() {
            cfg.push((l, 9, 3, 2));
            cfg.push((l, 30, 2, 1));
        }
    }
    history(&all);
    large(&all);
    let mut total: BTreeMap<String, u64> = BTreeMap::new();
    for (l, n, workers, preemptions) in cfg {
        // the reference: built without a pool of threads
        let objs = objects(l, n);
        let b0 = vlib::guarded(|| Bvh::new(objs.clone())).unwrap_or_else(|e| vlib::violation(&format!("{:?} of {}: {}", l, n, e)));
        let want = observe(&b0, l, n);
        if n > 0 {
            let c0 = count(&b0, &objs);
            // equal objects count together
            for (i, c) in c0.iter().enumerate() {
                let me = format!("{:?}", objs[i]);
                let same = objs.iter().map(|o| format!("{:?}", o).matches(&me).count()).sum::<usize>();
                vlib::must!(*c == same, "{:?} of {} objects: object {} is contained {} times", l, n, i, c);
            }
        }
        let whole = format!("{:?}", b0);
        let st = explore(
            &format!("{:?} of {} objects", l, n),
            &Bounds { workers, preemptions, horizon: 20_000, max_execs: vlib::tier(60_000, 600_000) },
            || {
                let b = Bvh::new(objs.clone());
                mcrt::calm();
                (observe(&b, l, n), format!("{:?}", b))
            },
            |v, _| {
                let (o, dbg) = v.as_ref().map_err(|e| format!("construction panicked: {}", e))?;
                for (what, a, b) in [("text", &o.0, &want.0), ("bounding box", &o.1, &want.1)] {
                    if a != b {
                        return Err(format!("{} {} instead of {}", what, a, b));
                    }
                }
                if o.2 != want.2 {
                    return Err(format!("lights {:?} instead of {:?}", o.2, want.2));
                }
                if o.3 != want.3 {
                    return Err(format!("hits {:?} instead of {:?}", o.3, want.3));
                }
                if *dbg != whole {
                    return Err("a different hierarchy".into());
                }
                Ok(())
            },
        );
        *total.entry(format!("{} workers", workers)).or_default() += st.execs;
    }
    vlib::note("executions", format!("{:?}", total));
}

/// Long lists, on the first schedule of pools of all sizes, and with deviations from it
fn large(all: &[Layout]) {
    for l in all {
        for n in vlib::tier(vec![33, 65, 130, 300], vec![17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300, 513, 1025, 2100]) {
            let objs = objects(*l, n);
            let b = vlib::guarded(|| Bvh::new(objs.clone())).unwrap_or_else(|e| vlib::violation(&format!("{:?} of {}: {}", l, n, e)));
            let (want, whole) = (observe(&b, *l, n), format!("{:?}", b));
            for workers in [1, 2, 3, 5, 8] {
                let (o, d) = once(workers, || {
                    let b = Bvh::new(objs.clone());
                    (observe(&b, *l, n), format!("{:?}", b))
                });
                vlib::must!(o == want && d == whole, "{:?} of {} objects: built by {} threads the hierarchy is another one: {} instead of {}", l, n, workers, o.0, want.0);
            }
        }
        for (n, workers, delays) in vlib::tier(vec![(20, 2, 1)], vec![(20, 2, 2), (40, 2, 1), (70, 3, 1)]) {
            let objs = objects(*l, n);
            let whole = format!("{:?}", Bvh::new(objs.clone()));
            explore_delays(
                &format!("{:?} of {} objects", l, n),
                &Bounds { workers, preemptions: 99, horizon: 50_000, max_execs: vlib::tier(60_000, 600_000) },
                delays,
                || format!("{:?}", Bvh::new(objs.clone())),
                |v, _| {
                    let d = v.as_ref().map_err(|e| format!("construction panicked: {}", e))?;
                    if *d != whole {
                        return Err("a different hierarchy".into());
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Whatever was built before: every pair of lists, one after the other, all within the same process
fn history(all: &[Layout]) {
    let mut lists = vec![];
    for l in all {
        for n in 0..vlib::tier(10, 20) {
            let objs = objects(*l, n);
            let b = vlib::guarded(|| Bvh::new(objs.clone())).unwrap_or_else(|e| vlib::violation(&format!("{:?} of {}: {}", l, n, e)));
            let d = format!("{:?}", b);
            lists.push((*l, n, objs, d));
        }
    }
    for (i, a) in lists.iter().enumerate() {
        for (j, b) in lists.iter().enumerate() {
            let _ = Bvh::new(a.2.clone());
            let d = format!("{:?}", Bvh::new(b.2.clone()));
            vlib::must!(
                d == b.3,
                "{:?} of {} objects (list {}): built after {:?} of {} objects (list {}) the hierarchy is {} instead of {}",
                b.0, b.1, j, a.0, a.1, i, d, b.3
            );
            vlib::transitions(2);
            vlib::traces(1);
        }
        vlib::states(1);
    }
    vlib::note("sequences of two constructions", lists.len() * lists.len());
}
