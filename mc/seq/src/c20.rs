//! Camera rays, for all image positions and lens draws of a finite alphabet.
use crate::kit::*;
use solstrale::camera::{Camera, CameraConfig};
use solstrale::geo::Uv;

pub fn run() {
    let fovs: &[f64] = if thorough() { &[0.01, 1., 10., 30., 50., 90., 120., 170., 179., 179.9] } else { &[0.1, 5., 50., 90., 150., 179.] };
    let sizes: &[(usize, usize)] = &[(1, 1), (300, 200), (200, 300), (7, 1), (1, 9), (1920, 1080), (1000, 10), (12, 1500), (70000, 3), (1, 100000)];
    let looks = [
        (V(0., 0., 0.), V(0., 0., -1.)),
        (V(0., 0., 5.), V(0., 0., 0.)),
        (V(3., 4., 5.), V(-1., 2., 0.5)),
        (V(-10., 0.5, 2.), V(100., 3., -7.)),
        (V(0., 1e-3, 0.), V(1e-3, 0., 1e-3)),
        (V(1000., -2000., 10.), V(0., 0., 0.)),
    ];
    let ups = [V(0., 1., 0.), V(0., 10., 0.), V(1., 2., 0.3), V(0., -1., 0.), V(0.01, 0.02, 0.)];
    // almost along the view
    let almost = |from: V, at: V| [1e-2, 3e-4, 1e-6].map(|e| (at - from).unit() + V(0.3, -0.5, 0.7) * e);
    let apertures = [0., 0.1, 3., 50.];
    let mut cases = vec![];
    for f in fovs {
        for s in sizes {
            for l in looks {
                for u in ups.into_iter().chain(almost(l.0, l.1)) {
                    for a in apertures {
                        cases.push((*f, *s, l, u, a));
                    }
                }
            }
        }
    }
    note("cameras", cases.len());
    let g: Vec<f64> = (0..=8).map(|k| k as f64 / 8.).chain([-0.25, 1.25, 2.]).collect();
    // positions in the square of the lens, and the extremes
    let draws: Vec<u64> = cells(tier(6, 14)).into_iter().chain([0, fastrand::mc_hook::encode(1.)]).collect();
    par(&cases, |_, (fov, (w, h), (from, at), up, aperture)| {
        let c = Camera::new(
            *w,
            *h,
            &CameraConfig { vertical_fov_degrees: *fov, aperture_size: *aperture, look_from: v3(*from), look_at: v3(*at), up: v3(*up) },
        );
        let dist = (*from - *at).len();
        let back = (*from - *at) * (1. / dist);
        let right = up.cross(back).unit();
        let upward = back.cross(right);
        let vh = 2. * (fov.to_radians() / 2.).tan() * dist;
        let vw = vh * *w as f64 / *h as f64;
        let what = || format!("camera fov {} image {}x{} from {:?} at {:?} up {:?} aperture {}", fov, w, h, from, at, up, aperture);
        let mut n = 0;
        let check = |u: f64, v: f64, o: V, d: V| {
            let p = *at + right * ((u - 0.5) * vw) + upward * ((v - 0.5) * vh);
            let scale = (1. + from.max_abs() + p.max_abs()).min(1e3 * dist + from.max_abs().max(at.max_abs()));
            let e = 1e-9 * scale;
            let l = (o - *from).len();
            must!(l <= aperture / 2. + e, "{}: ray for ({},{}) starts {} away from the camera", what(), u, v, l);
            must!((o - *from).dot(back).abs() <= e, "{}: ray for ({},{}) starts at {:?}, outside of the lens plane", what(), u, v, o);
            must!(*aperture != 0. || o == *from, "{}: ray for ({},{}) starts at {:?}", what(), u, v, o);
            let to = p - o;
            must!(d.finite() && d.dot(to) > 0., "{}: ray for ({},{}) from {:?} has direction {:?}", what(), u, v, o, d);
            let off = to.cross(d.unit()).len();
            must!(off <= 10. * e + 1e-9 * to.len(), "{}: ray for ({},{}) from {:?} direction {:?} passes {:?} at a distance of {}", what(), u, v, o, d, p, off);
        };
        for u in &g {
            for v in &g {
                if *aperture == 0. {
                    let r = with_draws(&[], 0.3, || c.get_ray(Uv::new(*u as f32, *v as f32))).0;
                    check(*u, *v, vv(r.origin), vv(r.direction));
                    n += 1;
                } else {
                    if ![0.125, 0.5, 1.].contains(u) || ![0., 0.375, 0.5].contains(v) {
                        continue;
                    }
                    let mut reach = [0f64; 4];
                    let mut far = 0f64;
                    n += tree(
                        &|_| draws.clone(),
                        2,
                        fastrand::mc_hook::encode(0.55),
                        || c.get_ray(Uv::new(*u as f32, *v as f32)),
                        |r, _| {
                            let o = vv(r.origin);
                            check(*u, *v, o, vv(r.direction));
                            let (x, y) = ((o - *from).dot(right), (o - *from).dot(upward));
                            far = far.max((o - *from).len());
                            for (i, s) in [x, -x, y, -y].into_iter().enumerate() {
                                reach[i] = reach[i].max(s);
                            }
                        },
                    );
                    must!(far >= 0.4 * aperture, "{}: rays start at most {} from the middle of the lens", what(), far);
                    must!(reach.iter().all(|r| *r > 0.1 * aperture), "{}: rays start only within {:?} of the lens", what(), reach);
                }
            }
        }
        states(1);
        transitions(n);
        traces(n);
    });
    sample(|| "fov 50, 300x200, from (3,4,5) at (-1,2,.5): 144 image positions x all pairs of 8 lens draws meet the focus plane point".into());
    assume("viewing direction not parallel to the up vector, and look-at different from look-from");
}
