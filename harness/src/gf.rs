//! GF(p) as a number type for the library. The real constants the library asks for
//! (cos(2 pi a / M), rationals) are mapped through the ring homomorphism that sends
//! cos(2 pi / (p-1)) to (g + 1/g)/2; every other constant is counted as "unknown",
//! which makes the run inconclusive, never wrong.
use rustdct::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::ops::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

thread_local! {
    static P: Cell<u32> = const { Cell::new(769) };
    static UNKNOWN: Cell<u64> = const { Cell::new(0) };
    static TAB: RefCell<Option<Arc<Table>>> = const { RefCell::new(None) };
}
static CACHE: Mutex<BTreeMap<u32, Arc<Table>>> = Mutex::new(BTreeMap::new());

struct Table {
    p: u32,
    g: u32,
    tab: Vec<(f64, u32)>,
}

#[inline]
pub fn p() -> u32 {
    P.with(|c| c.get())
}
/// number of constants requested since the last call that have no image in the field
pub fn take_unknown() -> u64 {
    UNKNOWN.with(|c| c.replace(0))
}
pub fn mulm(a: u32, b: u32, p: u32) -> u32 {
    ((a as u64 * b as u64) % p as u64) as u32
}
pub fn powm(mut b: u32, mut e: u64, p: u32) -> u32 {
    let mut r = 1 % p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, p);
        }
        b = mulm(b, b, p);
        e >>= 1;
    }
    r
}
pub fn inv(a: u32, p: u32) -> u32 {
    powm(a, p as u64 - 2, p)
}
pub fn is_prime(n: u32) -> bool {
    if n < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}
pub fn generator(p: u32) -> u32 {
    let mut fs = vec![];
    let mut m = p - 1;
    let mut d = 2;
    while d * d <= m {
        if m % d == 0 {
            fs.push(d);
            while m % d == 0 {
                m /= d;
            }
        }
        d += 1;
    }
    if m > 1 {
        fs.push(m);
    }
    (2..p)
        .find(|&g| fs.iter().all(|&q| powm(g, ((p - 1) / q) as u64, p) != 1))
        .unwrap_or(1)
}

/// Selects the field for this thread. Returns the generator the constants are based on.
pub fn set_field(pp: u32) -> u32 {
    let t = {
        let mut c = CACHE.lock().unwrap();
        if c.len() > 400 {
            c.clear();
        }
        c.entry(pp).or_insert_with(|| Arc::new(make_table(pp))).clone()
    };
    let g = t.g;
    P.with(|c| c.set(pp));
    TAB.with(|c| *c.borrow_mut() = Some(t));
    g
}
fn make_table(pp: u32) -> Table {
    let g = generator(pp);
    let gi = inv(g, pp);
    let i2 = inv(2, pp);
    let m = (pp - 1) as usize;
    let mut tab = Vec::with_capacity(m * 2);
    let (mut a, mut b) = (1u32, 1u32);
    for k in 0..=m / 2 {
        let c = crate::refeval::cos2pi(k as u64, m as u64);
        let v = mulm((a + b) % pp, i2, pp);
        tab.push((c, v));
        tab.push((c * 2.0, (v + v) % pp));
        tab.push((c * 0.5, mulm(v, i2, pp)));
        a = mulm(a, g, pp);
        b = mulm(b, gi, pp);
    }
    tab.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    // entries too close to tell apart must agree, otherwise neither is usable
    let mut bad = vec![false; tab.len()];
    for k in 1..tab.len() {
        if tab[k].0 - tab[k - 1].0 < 4e-12 && tab[k].1 != tab[k - 1].1 {
            bad[k] = true;
            bad[k - 1] = true;
        }
    }
    let tab: Vec<(f64, u32)> = tab
        .into_iter()
        .zip(bad)
        .filter(|(_, b)| !b)
        .map(|(t, _)| t)
        .collect();
    Table { p: pp, g, tab }
}

fn unknown() -> u32 {
    UNKNOWN.with(|c| c.set(c.get() + 1));
    7 % p()
}

fn int_mod(v: i128) -> u32 {
    let p = p() as i128;
    (((v % p) + p) % p) as u32
}

pub fn lookup(x: f64) -> u32 {
    if !x.is_finite() {
        return unknown();
    }
    let p = p();
    if x == x.round() && x.abs() < 1e15 {
        return int_mod(x as i128);
    }
    let hit = TAB.with(|c| {
        let b = c.borrow();
        let t = match b.as_ref() {
            Some(t) if t.p == p => t,
            _ => return None,
        };
        let tol = 6e-13;
        let at = t.tab.partition_point(|e| e.0 < x - tol);
        let mut best: Option<usize> = None;
        let mut k = at;
        while k < t.tab.len() && t.tab[k].0 <= x + tol {
            if best.map_or(true, |q| (t.tab[k].0 - x).abs() < (t.tab[q].0 - x).abs()) {
                best = Some(k);
            }
            k += 1;
        }
        best.map(|k| t.tab[k].1)
    });
    if let Some(v) = hit {
        return v;
    }
    // 1/m, 2/m, 4/m ... as used for scaling
    let r = 1.0 / x;
    let m = r.round();
    if m.abs() < 1e7 && m != 0.0 && (r - m).abs() < 1e-9 * m.abs() {
        let mm = int_mod(m as i128);
        if mm != 0 {
            return inv(mm, p);
        }
    }
    unknown()
}

pub trait FieldVal: Copy {
    fn mk(v: u32) -> Self;
    fn val(self) -> u32;
}

macro_rules! gf_type {
    ($name:ident, $inner:ty, $mk:expr, $get:expr) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $name($inner);
        impl FieldVal for $name {
            #[inline]
            fn mk(v: u32) -> Self {
                $name($mk(v))
            }
            #[inline]
            fn val(self) -> u32 {
                $get(self.0)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.val() == o.val()
            }
        }
        impl Add for $name {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                let p = p();
                let s = self.val() + o.val();
                Self::mk(if s >= p { s - p } else { s })
            }
        }
        impl Sub for $name {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                let p = p();
                let s = self.val() + p - o.val();
                Self::mk(if s >= p { s - p } else { s })
            }
        }
        impl Mul for $name {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                Self::mk(mulm(self.val(), o.val(), p()))
            }
        }
        impl Div for $name {
            type Output = Self;
            fn div(self, o: Self) -> Self {
                if o.val() == 0 {
                    return Self::mk(unknown());
                }
                Self::mk(mulm(self.val(), inv(o.val(), p()), p()))
            }
        }
        impl Rem for $name {
            type Output = Self;
            fn rem(self, _o: Self) -> Self {
                Self::mk(unknown())
            }
        }
        impl Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                let v = self.val();
                Self::mk(if v == 0 { 0 } else { p() - v })
            }
        }
        impl Zero for $name {
            fn zero() -> Self {
                Self::mk(0)
            }
            fn is_zero(&self) -> bool {
                self.val() == 0
            }
        }
        impl One for $name {
            fn one() -> Self {
                Self::mk(1)
            }
        }
        impl Num for $name {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
                Err(())
            }
        }
        impl Signed for $name {
            fn abs(&self) -> Self {
                Self::mk(unknown())
            }
            fn abs_sub(&self, _: &Self) -> Self {
                Self::mk(unknown())
            }
            fn signum(&self) -> Self {
                Self::mk(unknown())
            }
            fn is_positive(&self) -> bool {
                self.val() != 0
            }
            fn is_negative(&self) -> bool {
                false
            }
        }
        impl FromPrimitive for $name {
            fn from_i64(n: i64) -> Option<Self> {
                Some(Self::mk(int_mod(n as i128)))
            }
            fn from_u64(n: u64) -> Option<Self> {
                Some(Self::mk(int_mod(n as i128)))
            }
            fn from_f32(n: f32) -> Option<Self> {
                Some(Self::mk(lookup(n as f64)))
            }
            fn from_f64(n: f64) -> Option<Self> {
                Some(Self::mk(lookup(n)))
            }
        }
        gf_const!($name, E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);
    };
}
macro_rules! gf_const {
    ($name:ident, $($c:ident),*) => {
        impl FloatConst for $name { $(
            #[allow(non_snake_case)]
            fn $c() -> Self { Self::mk(lookup(std::f64::consts::$c)) }
        )* }
    };
}
gf_type!(Gf, u32, |v| v, |x: u32| x);
// the same field in a 24-byte representation
gf_type!(GfWide, [u64; 3], |v: u32| [v as u64, 0x5555, 0xAAAA], |x: [u64; 3]| x[0] as u32);
// the same field in other sizes; in these, zero is not a row of zero bytes
gf_type!(GfTwo, u16, |v: u32| v as u16, |x: u16| x as u32);
gf_type!(GfEight, u64, |v: u32| (v as u64) ^ 0x4045_0000_1234_5678, |x: u64| (x ^ 0x4045_0000_1234_5678) as u32 % p());
gf_type!(GfSixteen, u128, |v: u32| ((v as u128) << 70) | 5, |x: u128| (x >> 70) as u32 % p());
