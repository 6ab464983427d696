//! Random helpers over the values the generator can give.
use crate::kit::*;
use fastrand::mc_hook::encode;
use solstrale::geo::vec3::{random_cosine_direction, random_in_unit_disc, random_in_unit_sphere, random_unit_vector, random_vec3};
use solstrale::random::{random_element_index, random_float, random_normal_float, random_uint32};

fn raw() -> Vec<u64> {
    let mut v = vec![encode(1.), encode(0.5), encode(1. - 2f64.powi(-52)), 0, 1, 2, 1 << 11, 1 << 12, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, u64::MAX, u64::MAX - 1, u64::MAX - 2048, u64::MAX << 11, u64::MAX << 12, 0xFFFF_FFFF_0000_0000, 0x8000_0000_8000_0000];
    for i in 0..64 {
        v.push(1 << i);
        v.push(!(1u64 << i));
        v.push((1u64 << i).wrapping_sub(1));
    }
    v
}

fn one<R>(bits: u64, f: impl FnOnce() -> R) -> R {
    with_bits(&[bits], encode(0.6), f).0
}

/// Outcomes over all cells of the first draws; leaves that needed more draws than enumerated are left out.
fn outcomes(what: &str, budget: usize, f: &dyn Fn() -> V) -> Vec<V> {
    for depth in 1..=6 {
        let k = ((budget as f64).powf(1. / depth as f64).floor() as usize).max(2) & !1;
        let mut out = vec![];
        let mut kept = 0.;
        let n = tree(&|_| cells(k), depth, encode(0.6), f, |v, l| {
            if !l.truncated {
                kept += l.weight;
                out.push(v);
            }
        });
        transitions(n * depth as u64);
        if kept > 0.2 {
            traces(out.len() as u64);
            states(out.len() as u64);
            note(&format!("{} outcomes", what), out.len());
            return out;
        }
    }
    violation(&format!("{} keeps drawing random numbers", what))
}

fn mean(v: &[V], f: impl Fn(V) -> f64) -> f64 {
    v.iter().map(|v| f(*v)).sum::<f64>() / v.len() as f64
}

fn expect(what: &str, got: f64, want: f64, tol: f64) {
    must!((got - want).abs() <= tol, "{}: {} instead of {}", what, got, want);
}

pub fn run() {
    let bits = raw();
    for b in &bits {
        let x = one(*b, random_normal_float);
        must!((0. ..1.).contains(&x), "random_normal_float gives {} for the draw {:#x}", x, b);
        transitions(1);
    }
    // floats
    let ranges = [(0., 1.), (-1., 1.), (-2., 2.), (5., 5.), (10., 11.), (-1e300, 1e300), (1e-300, 2e-300), (-7.25, -7.), (0., 1e-310), (1e15, 1e15 + 1.), (-3., 0.)];
    for (lo, hi) in ranges {
        for b in &bits {
            let x = one(*b, || random_float(lo, hi));
            // where the range has less than 2^53 values it may have to be rounded up to the maximum
            let coarse = hi - (hi - lo) * 2f64.powi(-53) == hi || lo == hi;
            must!(x >= lo && (x < hi || (x == hi && (coarse || !(hi - lo).is_finite() || (hi - lo) * 2f64.powi(-52) < hi.abs() * 2f64.powi(-52)))), "random_float({}, {}) gives {} for the draw {:#x}", lo, hi, x, b);
            if lo > -1e200 && lo <= hi {
                let v = vv(with_bits(&[*b, !*b, *b / 3], 0, || random_vec3(lo, hi)).0);
                must!((0..3).all(|i| v.get(i) >= lo && v.get(i) <= hi), "random_vec3({}, {}) gives {:?}", lo, hi, v);
            }
            transitions(2);
            traces(1);
        }
        if (hi - lo).is_finite() && hi - lo > 1e-9 {
            let k = tier(1000, 20_000);
            let mut v: Vec<f64> = cells(k).iter().map(|b| one(*b, || random_float(lo, hi))).collect();
            v.sort_by(f64::total_cmp);
            for (i, x) in v.iter().enumerate() {
                let want = lo + (hi - lo) * (i as f64 + 0.5) / k as f64;
                must!((x - want).abs() <= 1.01 * (hi - lo) / k as f64 + 1e-12 * hi.abs(), "random_float({}, {}) is not uniform: quantile {} is {} instead of {}", lo, hi, i as f64 / k as f64, x, want);
            }
            transitions(k as u64);
        }
        states(1);
    }
    let k = tier(1000, 20_000);
    let mut v: Vec<f64> = cells(k).iter().map(|b| one(*b, random_normal_float)).collect();
    v.sort_by(f64::total_cmp);
    for (i, x) in v.iter().enumerate() {
        must!((x - (i as f64 + 0.5) / k as f64).abs() <= 1.01 / k as f64, "random_normal_float is not uniform: quantile {} is {}", i as f64 / k as f64, x);
    }
    // all vectors of random_vec3
    let o = outcomes("random_vec3", tier(30_000, 500_000), &|| vv(random_vec3(-2., 4.)));
    for a in 0..3 {
        expect("mean of a component of random_vec3(-2,4)", mean(&o, |v| v.get(a)), 1., 0.05);
        expect("variance of a component of random_vec3(-2,4)", mean(&o, |v| (v.get(a) - 1.).powi(2)), 3., 0.1);
        expect("correlation of components of random_vec3(-2,4)", mean(&o, |v| (v.get(a) - 1.) * (v.get((a + 1) % 3) - 1.)), 0., 0.05);
    }
    integers(&bits);
    ball();
    sample(|| "every power of two, its complement and predecessor as draw; 30^3 cells for points in the unit ball".into());
    assume("random_float may give its maximum where the range is too coarse for 53 random bits");
}

fn integers(bits: &[u64]) {
    // all 64 bits of a draw are used up in some way: spread draws evenly over them
    let spread = |i: u64, n: u64| ((i as u128 * 2 + 1) * (1u128 << 63) / n as u128) as u64;
    let maxes = [1u32, 2, 3, 5, 6, 7, 10, 16, 100, 255, 1000, 1 << 31, u32::MAX];
    par(&maxes, |_, m| {
        for b in bits {
            for c in [0, u64::MAX, 1 << 40] {
                let x = with_bits(&[*b, c], encode(0.6), || random_uint32(*m)).0;
                must!(x < *m, "random_uint32({}) gives {} for the draws {:#x} {:#x}", m, x, b, c);
                transitions(1);
            }
        }
        if *m <= 1000 {
            let per = tier(64, 1024);
            let n = *m as u64 * per;
            let mut count = vec![0u64; *m as usize];
            // rejected draws lead to another one
            for i in 0..n {
                let (x, d) = with_bits(&[spread(i, n)], encode(0.6), || random_uint32(*m));
                must!(x < *m, "random_uint32({}) gives {}", m, x);
                if d <= 1 {
                    count[x as usize] += 1;
                }
                transitions(1);
            }
            for (x, c) in count.iter().enumerate() {
                must!(c.abs_diff(per) <= 2, "random_uint32({}) gives {} for {} of {} evenly spread draws instead of {}", m, x, c, n, per);
            }
        }
        states(1);
        traces(1);
    });
    let lens: Vec<usize> = (1..=20).chain([64, 100, 1000]).collect();
    par(&lens, |_, l| {
        let list = vec![0u8; *l];
        for b in bits {
            for c in [0, u64::MAX] {
                let x = with_bits(&[*b, c], encode(0.6), || random_element_index(&list)).0;
                must!(x < *l, "random_element_index gives {} for a slice of {}", x, l);
                transitions(1);
            }
        }
        let per = tier(64, 1024);
        let n = *l as u64 * per;
        let mut count = vec![0u64; *l];
        for i in 0..n {
            let (x, d) = with_bits(&[spread(i, n)], encode(0.6), || random_element_index(&list));
            if d <= 1 {
                count[x] += 1;
            }
            transitions(1);
        }
        for (x, c) in count.iter().enumerate() {
            must!(c.abs_diff(per) <= 2, "random_element_index gives {} for {} of {} evenly spread draws for a slice of {}", x, c, n, l);
        }
        states(1);
        traces(1);
    });
}

fn ball() {
    // extremes
    let alph = |_: usize| -> Vec<u64> { vec![0, encode(1.), 1 << 63, (1 << 63) - 1, encode(0.5), encode(0.25), encode(0.999), encode(0.5000001)] };
    let d = tier(4, 6);
    let n = tree(&alph, d, encode(0.6), || vv(random_in_unit_sphere()), |v, _| must!(v.finite() && v.len() <= 1., "random_in_unit_sphere gives {:?}", v))
        + tree(&alph, d, encode(0.6), || vv(random_in_unit_disc()), |v, _| must!(v.finite() && v.len() <= 1. && v.2 == 0., "random_in_unit_disc gives {:?}", v))
        + tree(&alph, d, encode(0.6), || vv(random_unit_vector()), |v, l| must!((v.len() - 1.).abs() < 1e-9, "random_unit_vector gives {:?} for {:?}", v, l))
        + tree(&alph, d, encode(0.6), || vv(random_cosine_direction()), |v, l| must!((v.len() - 1.).abs() < 1e-9 && v.2 >= 0., "random_cosine_direction gives {:?} for {:?}", v, l));
    transitions(n);
    traces(n);
    let b = tier(2_000_000, 8_000_000);
    let t = tier(0.005, 0.004);
    let o = outcomes("random_in_unit_sphere", b, &|| vv(random_in_unit_sphere()));
    let unit = outcomes("random_unit_vector", b, &|| vv(random_unit_vector()));
    let disc = outcomes("random_in_unit_disc", b, &|| vv(random_in_unit_disc()));
    let cosd = outcomes("random_cosine_direction", b, &|| vv(random_cosine_direction()));
    for r in [0.3f64, 0.5, 0.7, 0.9] {
        expect(&format!("share of random_in_unit_sphere within {}", r), mean(&o, |v| (v.len() < r) as u8 as f64), r.powi(3), t);
        expect(&format!("share of random_in_unit_disc within {}", r), mean(&disc, |v| (v.len() < r) as u8 as f64), r.powi(2), t);
    }
    for a in 0..3 {
        let c = (a + 1) % 3;
        for (name, v, m2, m4) in [("random_in_unit_sphere", &o, 1. / 5., 3. / 35.), ("random_unit_vector", &unit, 1. / 3., 1. / 5.)] {
            expect(&format!("mean of component {} of {}", a, name), mean(v, |v| v.get(a)), 0., t);
            expect(&format!("mean square of component {} of {}", a, name), mean(v, |v| v.get(a).powi(2)), m2, t);
            expect(&format!("mean fourth power of component {} of {}", a, name), mean(v, |v| v.get(a).powi(4)), m4, t);
            expect(&format!("correlation of components {} and {} of {}", a, c, name), mean(v, |v| v.get(a) * v.get(c)), 0., t);
        }
        for h in [-0.8, -0.5, 0., 0.3, 0.75] {
            expect(&format!("share of random_unit_vector with component {} below {}", a, h), mean(&unit, |v| (v.get(a) < h) as u8 as f64), (1. + h) / 2., 2. * t);
        }
    }
    for oct in product(&[2, 2, 2]) {
        let s = |i: usize| if oct[i] == 0 { 1. } else { -1. };
        for (name, v) in [("random_in_unit_sphere", &o), ("random_unit_vector", &unit)] {
            expect(&format!("share of {} in an octant", name), mean(v, |v| (v.0 * s(0) > 0. && v.1 * s(1) > 0. && v.2 * s(2) > 0.) as u8 as f64), 0.125, t);
        }
        if oct[2] == 0 {
            for (name, v) in [("random_in_unit_disc", &disc), ("random_cosine_direction", &cosd)] {
                expect(&format!("share of {} in a quadrant", name), mean(v, |v| (v.0 * s(0) > 0. && v.1 * s(1) > 0.) as u8 as f64), 0.25, t);
            }
        }
    }
    for a in 0..2 {
        expect("mean square of a component of random_in_unit_disc", mean(&disc, |v| v.get(a).powi(2)), 0.25, t);
        expect("mean square of a component of random_cosine_direction", mean(&cosd, |v| v.get(a).powi(2)), 0.25, t);
        expect("mean of a component of random_cosine_direction", mean(&cosd, |v| v.get(a)), 0., t);
    }
    for h in [0.2f64, 0.4, 0.6, 0.8, 0.95] {
        expect(&format!("share of random_cosine_direction below height {}", h), mean(&cosd, |v| (v.2 < h) as u8 as f64), h * h, t);
    }
}
