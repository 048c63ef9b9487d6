//! f32 and f64, input signals, error units
use crate::util::*;
use rustdct::DctNum;

pub trait Fl: DctNum + PartialOrd {
    const NAME: &'static str;
    const EPS: f64;
    /// absolute tolerance of a projected coefficient
    const TOL: f64;
    const BIG: f64;
    /// powers of ten: inputs this large and this small, and what comes of them, are normal numbers
    const DECADES: i32;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const TOL: f64 = 2e-12;
    const BIG: f64 = 1e140;
    const DECADES: i32 = 285;
    fn of(x: f64) -> Self {
        x
    }
    fn to(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const TOL: f64 = 1e-5;
    const BIG: f64 = 1e16;
    const DECADES: i32 = 25;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
pub const BAD: i64 = 999_999_999;

/// error as an integer number of units, saturating; NaN and infinities are BAD
pub fn units(err: f64, unit: f64) -> i64 {
    let u = err.abs() / unit;
    if u.is_nan() || u >= BAD as f64 {
        BAD
    } else {
        u.ceil() as i64
    }
}

pub const CLASSES: usize = 42;
/// an input of one of the classes; shapes that programs are tempted to treat specially
pub fn signal<T: Fl>(rng: &mut Rng, n: usize, cls: usize) -> Vec<f64> {
    let r = |rng: &mut Rng| T::of(rng.unit()).to();
    match cls {
        0 => (0..n).map(|_| r(rng)).collect(),
        1 => vec![1.0; n],
        2 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        3 => {
            let mut v = vec![0.0; n];
            v[rng.range(0, n - 1)] = 1.5;
            v
        }
        4 | 5 => {
            let d = rng.range(1, T::DECADES as usize) as i32;
            let c = (10f64).powi(if cls == 4 { -d } else { d });
            (0..n).map(|_| T::of(r(rng) * c).to()).collect()
        }
        6 => {
            let z = rng.range(1, n);
            (0..n).map(|i| if i < z && i + 1 < n { 0.0 } else { r(rng) }).collect()
        }
        7 => (0..n).map(|_| T::of(r(rng) * (10f64).powi(rng.below(9) as i32 - 4)).to()).collect(),
        8 => (0..n).map(|i| T::of((i as f64 + 1.0) / n as f64).to()).collect(),
        9 => {
            let mut v: Vec<f64> = (0..n).map(|_| r(rng)).collect();
            for i in 0..n / 2 {
                v[n - 1 - i] = if rng.0 & 8 == 0 { v[i] } else { -v[i] };
            }
            v
        }
        10 => vec![0.0; n],
        // small integers, many equal neighbours and zeros
        11 => (0..n).map(|_| rng.below(3) as f64 - 1.0).collect(),
        // silence at the ends, in a half, between the samples
        12 => (0..n).map(|i| if i == 0 || i + 1 == n { 0.0 } else { r(rng) }).collect(),
        13 => (0..n).map(|i| if i + 1 == n { 0.0 } else { r(rng) }).collect(),
        14 => (0..n).map(|i| if i == 0 { 0.0 } else { r(rng) }).collect(),
        15 => (0..n).map(|i| if i < n / 2 { 0.0 } else { r(rng) }).collect(),
        16 => (0..n).map(|i| if i >= n.div_ceil(2) { 0.0 } else { r(rng) }).collect(),
        17 => (0..n).map(|i| if i % 2 == 1 { 0.0 } else { r(rng) }).collect(),
        18 => (0..n).map(|i| if i % 2 == 0 { 0.0 } else { r(rng) }).collect(),
        // a few zeros of either sign among values
        19 => (0..n).map(|_| match rng.below(5) { 0 => -0.0, 1 => 0.0, _ => r(rng) }).collect(),
        20 => vec![-0.0; n],
        // repetition
        21 => {
            let mut v: Vec<f64> = (0..n).map(|_| r(rng)).collect();
            let h = (n / 2).max(1);
            for i in h..n {
                v[i] = v[i - h];
            }
            v
        }
        22 => {
            let c = r(rng);
            let mut v = vec![c; n];
            v[rng.range(0, n - 1)] = r(rng);
            v
        }
        23 => {
            let (a, b) = (r(rng), r(rng));
            let z = rng.range(0, n);
            (0..n).map(|i| if i < z { a } else { b }).collect()
        }
        // one sign, order, size
        24 => (0..n).map(|_| r(rng).abs()).collect(),
        25 => (0..n).map(|_| -r(rng).abs()).collect(),
        26 => {
            let mut v: Vec<f64> = (0..n).map(|_| r(rng)).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v
        }
        27 => (0..n).map(|_| T::of(r(rng) * 1000.0).to()).collect(),
        28 => (0..n).map(|_| T::of(r(rng).signum() * (1.0 + r(rng).abs())).to()).collect(),
        29 => {
            let z = rng.range(0, n - 1);
            (0..n).map(|i| if i == z { r(rng) * 2.0 } else { T::of(r(rng) * T::EPS).to() }).collect()
        }
        30 => (0..n).map(|i| T::of(r(rng) * (0.5f64).powi((i % 40) as i32)).to()).collect(),
        31 => (0..n).map(|i| T::of(if i % 2 == 0 { r(rng) } else { r(rng) * T::EPS.sqrt() }).to()).collect(),
        // a pure tone, an impulse at an end
        32 => {
            let q = rng.range(0, n) as f64;
            (0..n).map(|i| T::of(((i as f64 + 0.5) * q * std::f64::consts::PI / n as f64).cos()).to()).collect()
        }
        33 => {
            let mut v = vec![0.0; n];
            v[if rng.below(2) == 0 { 0 } else { n - 1 }] = -1.0;
            v
        }
        // a pattern in a part only: at the start, at the end, in the middle; or with an exception
        34 | 35 => {
            let z = rng.range(n.min(3), n);
            pattern(rng, n, cls == 34, &r, &|i| i < z)
        }
        36 | 37 => {
            let z = rng.range(0, n - n.min(3));
            pattern(rng, n, cls == 36, &r, &|i| i >= z)
        }
        38 => {
            let (a, z) = (rng.range(0, n / 2), rng.range(n / 2, n));
            let flip = rng.below(2) == 0;
            pattern(rng, n, flip, &r, &|i| i >= a && i < z)
        }
        39 => {
            let z = rng.range(0, n - 1);
            let flip = rng.below(2) == 0;
            pattern(rng, n, flip, &r, &|i| i != z)
        }
        // periodic with a sign
        40 => {
            let h = [1, 2, 3, 4, 8, n / 4, n / 2, n / 3][rng.below(8) as usize].clamp(1, n);
            let s = if rng.below(2) == 0 { 1.0 } else { -1.0 };
            let mut v: Vec<f64> = (0..n).map(|_| r(rng)).collect();
            for i in h..n {
                v[i] = s * v[i - h];
            }
            v
        }
        // mirrored, but for one place or in a part only
        _ => {
            let mut v: Vec<f64> = (0..n).map(|_| r(rng)).collect();
            let s = if rng.below(2) == 0 { 1.0 } else { -1.0 };
            let (part, z) = (rng.below(2) == 0, rng.range(0, n / 2));
            for i in 0..n / 2 {
                if if part { i < z } else { i != z } {
                    v[n - 1 - i] = s * v[i];
                }
            }
            v
        }
    }
}
/// one value, or one value with alternating signs, where told; random elsewhere
fn pattern(rng: &mut Rng, n: usize, alternating: bool, r: &dyn Fn(&mut Rng) -> f64, at: &dyn Fn(usize) -> bool) -> Vec<f64> {
    let c = r(rng);
    (0..n).map(|i| if !at(i) { r(rng) } else if alternating && i % 2 == 1 { -c } else { c }).collect()
}
pub const WCLASSES: usize = 24;
/// a window for an MDCT of n outputs: nothing is asked of it but its length, so it comes in all
/// the shapes a program may be tempted to treat specially
pub fn any_window<T: Fl>(rng: &mut Rng, n: usize, cls: usize) -> Vec<f64> {
    let m = 2 * n;
    let r = |rng: &mut Rng| T::of(rng.unit() * 0.9 + if rng.below(2) == 0 { 0.1 } else { -0.1 }).to();
    let mut v: Vec<f64> = (0..m).map(|_| r(rng)).collect();
    let named = |f: fn(usize) -> Vec<T>| f(m).into_iter().map(|q| q.to()).collect::<Vec<f64>>();
    match cls {
        0 => {}
        1 => v = vec![1.0; m],
        2 => v = named(rustdct::mdct::window_fn::mp3::<T>),
        3 => v = named(rustdct::mdct::window_fn::vorbis::<T>),
        4 => v = vec![v[0]; m],
        5 => (0..m).for_each(|j| v[j] = v[j].signum()),
        // ones at the ends, random inside; and the other way round
        6 => (v[0], v[m - 1]) = (1.0, 1.0),
        7 => (1..m - 1).for_each(|j| v[j] = 1.0),
        8 => (v[0], v[m - 1]) = (0.0, 0.0),
        9 => v[..n].fill(0.0),
        10 => v[n..].fill(0.0),
        11 => v[..n].fill(1.0),
        12 => v[n..].fill(1.0),
        13 => {
            let k = rng.range(0, m - 1);
            (0..m).filter(|&j| j != k).for_each(|j| v[j] = 0.0)
        }
        14 => (0..n).for_each(|j| v[m - 1 - j] = v[j]),
        15 => (0..n).for_each(|j| v[m - 1 - j] = -v[j]),
        16 => (0..n).for_each(|j| v[n + j] = v[j]),
        17 => (0..n / 2).for_each(|j| {
            v[n - 1 - j] = v[j];
            v[m - 1 - j] = v[n + j];
        }),
        18 => (0..m).for_each(|j| if rng.below(3) == 0 { v[j] = 0.0 }),
        19 => (0..m).for_each(|j| if rng.below(3) == 0 { v[j] = 1.0 }),
        // low overlap: silence, slope, flat, slope, silence
        20 => {
            for j in 0..n {
                let x = if j < n / 4 { 0.0 } else if j >= n - n / 4 { 1.0 } else { v[j].abs() };
                v[j] = x;
                v[m - 1 - j] = x;
            }
        }
        21 => (0..m).for_each(|j| v[j] = -v[j].abs()),
        // one flat, all but one
        22 => {
            let k = rng.range(0, m - 1);
            let x = v[k];
            v = vec![1.0; m];
            v[k] = x;
        }
        _ => {
            v = vec![1.0; m];
            let k = rng.range(0, m - 1);
            v[..k].iter_mut().for_each(|x| *x = -1.0);
        }
    }
    v
}
pub fn norm2(x: &[f64]) -> f64 {
    let m = x.iter().fold(0f64, |a, b| a.max(b.abs()));
    if m == 0.0 {
        return 1.0;
    }
    m * x.iter().map(|v| (v / m) * (v / m)).sum::<f64>().sqrt()
}

