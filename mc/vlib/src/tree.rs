//! Exhaustive enumeration of the random numbers a computation draws.
use fastrand::mc_hook;
use std::cell::RefCell;
use std::rc::Rc;

/// Sets up random values for the calling thread while it lives.
struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        mc_hook::set_local(None);
    }
}

#[derive(Default)]
struct Rec {
    chosen: Vec<usize>,
    sizes: Vec<usize>,
    draws: usize,
    over: bool,
}

/// One leaf of the tree of draws
#[derive(Clone, Debug)]
pub struct Leaf {
    /// index of the value used at each draw
    pub choice: Vec<usize>,
    /// product of 1/size over the draws
    pub weight: f64,
    /// more than the bounded number of draws were made (the rest used the filler)
    pub truncated: bool,
    pub draws: usize,
}

/// Runs `f` once for every combination of the alphabet's values for its first `depth` draws.
/// `alphabet(i)` gives the raw 64 bit values of the i-th draw; further draws get `filler`.
/// Returns the number of leaves.
pub fn tree<R>(
    alphabet: &dyn Fn(usize) -> Vec<u64>,
    depth: usize,
    filler: u64,
    f: impl FnMut() -> R,
    leaf: impl FnMut(R, &Leaf),
) -> u64 {
    tree_with(alphabet, depth, move |_, _| filler, f, leaf)
}

/// Like `tree`, but the draws after the first `depth` follow a fixed sequence that depends on the choices
/// made before, so that whatever comes after the bounded part (retries of rejected values) is spread evenly.
pub fn tree_spread<R>(
    alphabet: &dyn Fn(usize) -> Vec<u64>,
    depth: usize,
    f: impl FnMut() -> R,
    leaf: impl FnMut(R, &Leaf),
) -> u64 {
    let fill = |chosen: &[usize], i: usize| {
        let mut z = 0x9E3779B97F4A7C15u64.wrapping_mul(i as u64 + 1);
        for c in chosen {
            z = (z ^ (*c as u64 + 1)).wrapping_mul(0xBF58476D1CE4E5B9);
            z ^= z >> 29;
        }
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    tree_with(alphabet, depth, fill, f, leaf)
}

fn tree_with<R>(
    alphabet: &dyn Fn(usize) -> Vec<u64>,
    depth: usize,
    filler: impl Fn(&[usize], usize) -> u64 + Copy + 'static,
    mut f: impl FnMut() -> R,
    mut leaf: impl FnMut(R, &Leaf),
) -> u64 {
    let alph: Rc<Vec<Vec<u64>>> = Rc::new((0..depth).map(alphabet).collect());
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let rec = Rc::new(RefCell::new(Rec::default()));
        let (r2, a2, p2) = (rec.clone(), alph.clone(), prefix.clone());
        mc_hook::set_local(Some(Box::new(move || {
            let mut r = r2.borrow_mut();
            let i = r.draws;
            r.draws += 1;
            if i >= a2.len() {
                r.over = true;
                // never let a rejection loop run on forever
                if i > 100_000 {
                    panic!("more than 100000 random draws: does not terminate");
                }
                return filler(&r.chosen, i);
            }
            let c = p2.get(i).copied().unwrap_or(0);
            r.chosen.push(c);
            let s = a2[i].len();
            r.sizes.push(s);
            a2[i][c]
        })));
        let v = {
            let _g = Guard;
            f()
        };
        let rec = rec.borrow();
        n += 1;
        let l = Leaf {
            choice: rec.chosen.clone(),
            weight: rec.sizes.iter().map(|s| 1. / *s as f64).product(),
            truncated: rec.over,
            draws: rec.draws,
        };
        leaf(v, &l);
        // next
        let mut c = rec.chosen.clone();
        let sizes = &rec.sizes;
        loop {
            match c.pop() {
                None => return n,
                Some(x) => {
                    if x + 1 < sizes[c.len()] {
                        c.push(x + 1);
                        break;
                    }
                }
            }
        }
        prefix = c;
    }
}

/// Midpoints of k equal cells of 0..1
pub fn cells(k: usize) -> Vec<u64> {
    (0..k).map(|i| mc_hook::encode((i as f64 + 0.5) / k as f64)).collect()
}

/// The smallest and largest values the generator can give, and points between them
/// (raw values that would give 1 are rejected by the generator)
pub fn extremes() -> Vec<u64> {
    vec![0, mc_hook::encode(1.), mc_hook::encode(0.25), mc_hook::encode(0.5), mc_hook::encode(0.75)]
}

/// Runs `f` with the given floats (0..1) as random numbers, then `filler`. Gives the number of draws.
pub fn with_draws<R>(vals: &[f64], filler: f64, f: impl FnOnce() -> R) -> (R, usize) {
    let v: Vec<u64> = vals.iter().map(|v| mc_hook::encode(*v)).collect();
    with_bits(&v, mc_hook::encode(filler), f)
}

pub fn with_bits<R>(vals: &[u64], filler: u64, f: impl FnOnce() -> R) -> (R, usize) {
    let v = vals.to_vec();
    let n = Rc::new(std::cell::Cell::new(0usize));
    let n2 = n.clone();
    mc_hook::set_local(Some(Box::new(move || {
        let i = n2.get();
        n2.set(i + 1);
        if i > 1_000_000 {
            panic!("more than 1000000 random draws: does not terminate");
        }
        v.get(i).copied().unwrap_or(filler)
    })));
    let _g = Guard;
    let r = f();
    (r, n.get())
}

/// Runs `f` with a deterministic sequence of random numbers that depends on `key` only.
pub fn with_stream<R>(key: u64, f: impl FnOnce() -> R) -> (R, usize) {
    let n = Rc::new(std::cell::Cell::new(0usize));
    let n2 = n.clone();
    let mut s = key.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    mc_hook::set_local(Some(Box::new(move || {
        n2.set(n2.get() + 1);
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })));
    let _g = Guard;
    let r = f();
    (r, n.get())
}

/// All combinations of indices below the given sizes
pub fn product(sizes: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &s in sizes {
        let mut n = Vec::with_capacity(out.len() * s);
        for o in &out {
            for i in 0..s {
                let mut o: Vec<usize> = o.clone();
                o.push(i);
                n.push(o);
            }
        }
        out = n;
    }
    out
}
