//! Vector algebra of the reference models.
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct V(pub f64, pub f64, pub f64);

impl Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        V(self.0 + o.0, self.1 + o.1, self.2 + o.2)
    }
}
impl Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        V(self.0 - o.0, self.1 - o.1, self.2 - o.2)
    }
}
impl Mul<f64> for V {
    type Output = V;
    fn mul(self, s: f64) -> V {
        V(self.0 * s, self.1 * s, self.2 * s)
    }
}
impl Neg for V {
    type Output = V;
    fn neg(self) -> V {
        self * -1.
    }
}
impl V {
    pub const ZERO: V = V(0., 0., 0.);
    pub fn dot(self, o: V) -> f64 {
        self.0 * o.0 + self.1 * o.1 + self.2 * o.2
    }
    pub fn cross(self, o: V) -> V {
        V(self.1 * o.2 - self.2 * o.1, self.2 * o.0 - self.0 * o.2, self.0 * o.1 - self.1 * o.0)
    }
    pub fn len(self) -> f64 {
        self.dot(self).sqrt()
    }
    pub fn unit(self) -> V {
        self * (1. / self.len())
    }
    pub fn mulv(self, o: V) -> V {
        V(self.0 * o.0, self.1 * o.1, self.2 * o.2)
    }
    pub fn get(self, i: usize) -> f64 {
        [self.0, self.1, self.2][i]
    }
    pub fn max_abs(self) -> f64 {
        self.0.abs().max(self.1.abs()).max(self.2.abs())
    }
    pub fn finite(self) -> bool {
        self.0.is_finite() && self.1.is_finite() && self.2.is_finite()
    }
    pub fn reflect(self, n: V) -> V {
        self - n * (2. * self.dot(n))
    }
}

pub fn close(a: f64, b: f64, eps: f64) -> bool {
    (a - b).abs() <= eps * (1. + a.abs().max(b.abs()))
}
pub fn vclose(a: V, b: V, eps: f64) -> bool {
    (a - b).max_abs() <= eps * (1. + a.max_abs().max(b.max_abs()))
}

/// Directions to all 26 neighbours of a cube, normalized or not
pub fn neighbours() -> Vec<V> {
    let mut v = vec![];
    for x in -1..=1 {
        for y in -1..=1 {
            for z in -1..=1 {
                if (x, y, z) != (0, 0, 0) {
                    v.push(V(x as f64, y as f64, z as f64));
                }
            }
        }
    }
    v
}

/// All points of a grid
pub fn grid(xs: &[f64], ys: &[f64], zs: &[f64]) -> Vec<V> {
    let mut v = vec![];
    for x in xs {
        for y in ys {
            for z in zs {
                v.push(V(*x, *y, *z));
            }
        }
    }
    v
}

/// n directions spread evenly over the sphere (Fibonacci lattice), a fixed finite alphabet
pub fn sphere_points(n: usize) -> Vec<V> {
    let g = (1. + 5f64.sqrt()) / 2.;
    (0..n)
        .map(|i| {
            let z = 1. - (2 * i + 1) as f64 / n as f64;
            let r = (1. - z * z).sqrt();
            let phi = 2. * std::f64::consts::PI * i as f64 / g;
            V(r * phi.cos(), r * phi.sin(), z)
        })
        .collect()
}
