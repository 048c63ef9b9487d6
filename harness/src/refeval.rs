//! Reference evaluation of the definitions in double precision (harness side). The integer
//! phases used here are checked against the table TLC exports from spec/Defs.tla.
pub use crate::kinds::Op;

/// cos(2 pi a / m), reduced exactly to the first octant.
pub fn cos2pi(a: u64, m: u64) -> f64 {
    let a = a % m;
    let t = 8u128 * a as u128;
    let oct = (t / m as u128) as u32;
    let r = (t % m as u128) as f64 / m as f64 * std::f64::consts::FRAC_PI_4;
    let q = std::f64::consts::FRAC_PI_4;
    let comp = ((m as u128 - t % m as u128) as f64) / m as f64 * q;
    match oct {
        0 => r.cos(),
        1 => comp.sin(),
        2 => -r.sin(),
        3 => -comp.cos(),
        4 => -r.cos(),
        5 => -comp.sin(),
        6 => r.sin(),
        _ => comp.cos(),
    }
}
pub fn sin2pi(a: u64, m: u64) -> f64 {
    // sin(2 pi a/m) = cos(2 pi (4a + 3m) / 4m)
    cos2pi(((4 * a as u128 + 3 * m as u128) % (4 * m as u128)) as u64, 4 * m)
}

/// out_k = sum_i w_i x_i cos(2 pi (s*(a k + b)(c i + d) + e) / m)
#[derive(Clone, Debug)]
pub struct Form {
    pub nin: usize,
    pub nout: usize,
    pub s: u64,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub d: u64,
    pub e: u64,
    pub m: u64,
    pub half: Option<Vec<usize>>,
}

pub fn form(op: Op, n: usize) -> Form {
    let nn = n as u64;
    use Op::*;
    // (sine?, modulus of the angle 2 pi ph / m, a, b, c, d, halved inputs)
    let (sine, m, a, b, c, d, half): (bool, u64, u64, u64, u64, u64, Vec<usize>) = match op {
        Dct1 => (false, 2 * (nn - 1), 1, 0, 1, 0, vec![0, n - 1]),
        Dct2 => (false, 4 * nn, 1, 0, 2, 1, vec![]),
        Dct3 => (false, 4 * nn, 2, 1, 1, 0, vec![0]),
        Dct4 => (false, 8 * nn, 2, 1, 2, 1, vec![]),
        Dct5 => (false, 2 * nn - 1, 1, 0, 1, 0, vec![0]),
        Dct6 => (false, 2 * (2 * nn - 1), 1, 0, 2, 1, vec![n - 1]),
        Dct7 => (false, 2 * (2 * nn - 1), 2, 1, 1, 0, vec![0]),
        Dct8 => (false, 4 * (2 * nn + 1), 2, 1, 2, 1, vec![]),
        Dst1 => (true, 2 * (nn + 1), 1, 1, 1, 1, vec![]),
        Dst2 => (true, 4 * nn, 1, 1, 2, 1, vec![]),
        Dst3 => (true, 4 * nn, 2, 1, 1, 1, vec![n - 1]),
        Dst4 => (true, 8 * nn, 2, 1, 2, 1, vec![]),
        Dst5 => (true, 2 * nn + 1, 1, 1, 1, 1, vec![]),
        Dst6 => (true, 2 * (2 * nn + 1), 1, 1, 2, 1, vec![]),
        Dst7 => (true, 2 * (2 * nn + 1), 2, 1, 1, 1, vec![]),
        Dst8 => (true, 4 * (2 * nn - 1), 2, 1, 2, 1, vec![n - 1]),
    };
    if sine {
        Form { nin: n, nout: n, s: 4, a, b, c, d, e: 3 * m, m: 4 * m, half: Some(half) }
    } else {
        Form { nin: n, nout: n, s: 1, a, b, c, d, e: 0, m, half: Some(half) }
    }
}
pub fn form_mdct(n: usize) -> Form {
    let nn = n as u64;
    Form { nin: 2 * n, nout: n, s: 1, a: 2, b: 1, c: 2, d: 1 + nn, e: 0, m: 8 * nn, half: None }
}
pub fn form_imdct(n: usize) -> Form {
    let nn = n as u64;
    Form { nin: n, nout: 2 * n, s: 1, a: 2, b: 1 + nn, c: 2, d: 1, e: 0, m: 8 * nn, half: None }
}

impl Form {
    #[inline]
    pub fn phase(&self, k: usize, i: usize) -> u64 {
        let l = self.a as u128 * k as u128 + self.b as u128;
        let r = self.c as u128 * i as u128 + self.d as u128;
        ((self.s as u128 * (l * r) + self.e as u128) % self.m as u128) as u64
    }
    pub fn is_half(&self, i: usize) -> bool {
        match &self.half {
            Some(h) => h.contains(&i),
            None => false,
        }
    }
    /// dct1 at n = 2 halves both ends; an index listed twice would still be halved once
    fn weights(&self, x: &[f64]) -> Vec<f64> {
        let mut v = x.to_vec();
        if let Some(h) = &self.half {
            let mut done: Vec<usize> = vec![];
            for &i in h {
                if !done.contains(&i) {
                    v[i] *= 0.5;
                    done.push(i);
                }
            }
        }
        v
    }
    pub fn table(&self) -> Vec<f64> {
        (0..self.m).map(|j| cos2pi(j, self.m)).collect()
    }
    /// direct sum for one output with compensated accumulation
    pub fn direct(&self, x: &[f64], k: usize, table: Option<&[f64]>) -> f64 {
        let l = (self.s as u128 * (self.a as u128 * k as u128 + self.b as u128) % self.m as u128) as u64;
        let mut ph = ((l as u128 * self.d as u128 + self.e as u128) % self.m as u128) as u64;
        let step = (l as u128 * self.c as u128 % self.m as u128) as u64;
        let (mut hi, mut lo) = (0f64, 0f64);
        for i in 0..self.nin {
            let c = match table {
                Some(t) => t[ph as usize],
                None => cos2pi(ph, self.m),
            };
            let w = if self.is_half(i) { 0.5 * x[i] } else { x[i] };
            let pr = w * c;
            let pe = w.mul_add(c, -pr);
            let s = hi + pr;
            let bb = s - hi;
            lo += (hi - (s - bb)) + (pr - bb) + pe;
            hi = s;
            ph += step;
            if ph >= self.m {
                ph -= self.m;
            }
        }
        hi + lo
    }
    /// all outputs at once by the chirp transform with exact integer phases
    pub fn fast(&self, x: &[f64]) -> Vec<f64> {
        let w = self.weights(x);
        let m2 = 2 * self.m as u128;
        let ac = self.s as u128 * self.a as u128 * self.c as u128 % m2;
        let lin_i = 2 * self.s as u128 * self.b as u128 * self.c as u128 % m2;
        let lin_k = 2 * self.s as u128 * self.a as u128 * self.d as u128 % m2;
        let cst = 2 * (self.s as u128 * self.b as u128 * self.d as u128 + self.e as u128) % m2;
        let m2u = m2 as u64;
        let chirp = |q: u128| -> (f64, f64) {
            let ph = (ac * (q * q % m2) % m2) as u64;
            (cos2pi(ph, m2u), sin2pi(ph, m2u))
        };
        let tot = self.nin + self.nout;
        let l = tot.next_power_of_two();
        let mut fa = vec![(0f64, 0f64); l];
        for i in 0..self.nin {
            let ph = ((ac * ((i as u128 * i as u128) % m2) + lin_i * i as u128) % m2) as u64;
            fa[i] = (w[i] * cos2pi(ph, m2u), w[i] * sin2pi(ph, m2u));
        }
        let mut fb = vec![(0f64, 0f64); l];
        for q in 0..self.nout {
            let (c, s) = chirp(q as u128);
            fb[q] = (c, -s);
        }
        for q in 1..self.nin {
            let (c, s) = chirp(q as u128);
            fb[l - q] = (c, -s);
        }
        let tw: Vec<(f64, f64)> = (0..l / 2).map(|j| (cos2pi(j as u64, l as u64), -sin2pi(j as u64, l as u64))).collect();
        fft(&mut fa, &tw);
        fft(&mut fb, &tw);
        for j in 0..l {
            let (a, b) = (fa[j], fb[j]);
            // conjugate so that a forward FFT performs the inverse
            fa[j] = (a.0 * b.0 - a.1 * b.1, -(a.0 * b.1 + a.1 * b.0));
        }
        fft(&mut fa, &tw);
        let sc = 1.0 / l as f64;
        (0..self.nout)
            .map(|k| {
                let v = (fa[k].0 * sc, -fa[k].1 * sc);
                let ph = ((ac * ((k as u128 * k as u128) % m2) + lin_k * k as u128 + cst) % m2) as u64;
                v.0 * cos2pi(ph, m2u) - v.1 * sin2pi(ph, m2u)
            })
            .collect()
    }
}

fn fft(a: &mut [(f64, f64)], tw: &[(f64, f64)]) {
    let n = a.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            a.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let st = n / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let w = tw[k * st];
                let u = a[s + k];
                let v = a[s + k + len / 2];
                let t = (v.0 * w.0 - v.1 * w.1, v.0 * w.1 + v.1 * w.0);
                a[s + k] = (u.0 + t.0, u.1 + t.1);
                a[s + k + len / 2] = (u.0 - t.0, u.1 - t.1);
            }
        }
        len <<= 1;
    }
}
