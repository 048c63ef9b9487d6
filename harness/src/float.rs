//! f32/f64 runs: phase intervals of impulse responses, error sweeps, windows.
use crate::fl::*;
use crate::kinds::*;
use crate::refeval::*;
use crate::util::*;
use crate::Args;
use rustdct::mdct::Mdct;
use rustdct::{DctNum, DctPlanner};
use std::sync::Arc;

fn interval(v: f64, tol: f64, m: u64) -> (i64, i64) {
    if !(v.abs() <= 1.0 + tol) {
        return (1, 0);
    }
    let sc = m as f64 / (2.0 * std::f64::consts::PI);
    let lo = (v + tol).min(1.0).acos() * sc;
    let hi = (v - tol).max(-1.0).acos() * sc;
    ((lo - 1e-6).ceil() as i64, (hi + 1e-6).floor() as i64)
}

fn mk<T: DctNum>(d: &Option<D>, op: Op, n: usize) -> Inst<T> {
    match d {
        None => plan(&mut DctPlanner::new(), op, n),
        Some(d) => d.build(),
    }
}
fn label(d: &Option<D>) -> String {
    d.as_ref().map_or("planned".into(), |d| d.text())
}
fn panic_line(alg: &str, op: &str, n: usize, t: &str, e: &str) -> String {
    format!(r#"{{"e":"panic","alg":"{}","op":"{op}","n":{n},"T":"{t}","msg":"{}"}}"#, esc(alg), esc(e))
}

/// impulse responses of one (op, n): every column, or `cols` of them with `rows` sampled outputs
fn columns<T: Fl>(out: &Out, d: &Option<D>, op: Op, n: usize, cols: &[usize], rows: Option<&[usize]>) {
    let f = form(op, n);
    let r = guard(|| {
        let inst: Inst<T> = mk(d, op, n);
        let mut s = vec![T::zero(); inst.scratch_len()];
        let mut lines = vec![];
        for &i in cols {
            let amp = if i % 3 == 2 { -2.0 } else { 1.0 };
            let mut b = vec![T::zero(); n];
            b[i] = T::of(amp);
            inst.call(op, &mut b, &mut s);
            let w = amp * if f.is_half(i) { 0.5 } else { 1.0 };
            let ks: Vec<usize> = match rows {
                None => (0..n).collect(),
                Some(r) => r.to_vec(),
            };
            let iv: Vec<(i64, i64)> = ks.iter().map(|&k| interval(b[k].to() / w, T::TOL, f.m)).collect();
            lines.push(format!(
                r#"{{"e":"col","T":"{}","alg":"{}","op":"{}","n":{n},"len":{},"i":{i},"ks":{},"lo":{},"hi":{}}}"#,
                T::NAME, label(d), op.name(), inst.len(), arr(&ks),
                arr(iv.iter().map(|x| x.0)), arr(iv.iter().map(|x| x.1))
            ));
        }
        lines
    });
    match r {
        Ok(v) => v.iter().for_each(|l| out.line(l)),
        Err(e) => out.line(&panic_line(&label(d), op.name(), n, T::NAME, &e)),
    }
}

/// asymmetric window of powers of two with signs: divides out exactly
fn pow2_window(rng: &mut Rng, n: usize) -> Vec<f64> {
    (0..2 * n)
        .map(|_| (2f64).powi(rng.below(5) as i32 - 2) * if rng.below(2) == 0 { 1.0 } else { -1.0 })
        .collect()
}

fn mdct_columns<T: Fl>(out: &Out, d: &MD, seed: u64, cols: usize) {
    let n = d.len();
    let m = 8 * n as u64;
    let mut rng = Rng::new(seed, n as u64);
    let w = pow2_window(&mut rng, n);
    let r = guard(|| {
        let inst: Arc<dyn Mdct<T>> = d.build(w.iter().map(|&x| T::of(x)).collect());
        let mut s = vec![T::zero(); inst.get_scratch_len()];
        let mut lines = vec![];
        for c in 0..(2 * n).min(cols) {
            let j = if cols >= 2 * n { c } else { rng.range(0, 2 * n - 1) };
            let mut x = vec![T::zero(); 2 * n];
            x[j] = T::one();
            let mut o = vec![T::of(7.0); n];
            let (a, b) = x.split_at(n);
            inst.process_mdct_with_scratch(a, b, &mut o, &mut s);
            let iv: Vec<_> = o.iter().map(|v| interval(v.to() / w[j], T::TOL, m)).collect();
            lines.push(format!(
                r#"{{"e":"mcol","T":"{}","alg":"{}","n":{n},"len":{},"i":{j},"lo":{},"hi":{}}}"#,
                T::NAME, d.text(), inst.len(), arr(iv.iter().map(|x| x.0)), arr(iv.iter().map(|x| x.1))
            ));
        }
        for c in 0..n.min(cols) {
            let k = if cols >= n { c } else { rng.range(0, n - 1) };
            let mut x = vec![T::zero(); n];
            x[k] = T::one();
            let mut o = vec![T::of(0.25); 2 * n];
            let (oa, ob) = o.split_at_mut(n);
            inst.process_imdct_with_scratch(&x, oa, ob, &mut s);
            let iv: Vec<_> = (0..2 * n).map(|j| interval((o[j].to() - 0.25) / w[j], 2.0 * T::TOL, m)).collect();
            lines.push(format!(
                r#"{{"e":"icol","T":"{}","alg":"{}","n":{n},"len":{},"i":{k},"lo":{},"hi":{}}}"#,
                T::NAME, d.text(), inst.len(), arr(iv.iter().map(|x| x.0)), arr(iv.iter().map(|x| x.1))
            ));
        }
        lines
    });
    match r {
        Ok(v) => v.iter().for_each(|l| out.line(l)),
        Err(e) => out.line(&panic_line(&d.text(), "mdct", n, T::NAME, &e)),
    }
}

pub fn phase(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let ops: Vec<Op> = a.list("ops").iter().map(|s| Op::parse(s)).collect();
    let full = a.lens("full");
    let some = a.lens("some");
    let direct = a.num("direct", 0) == 1;
    enum It {
        Col(Option<D>, Op, usize, bool),
        M(MD, bool),
    }
    let mut items = vec![];
    for (lens, all) in [(&full, true), (&some, false)] {
        for &n in lens {
            for &op in &ops {
                if n >= op.min_len() {
                    if direct {
                        for d in direct_descs(op, n, n <= 16) {
                            items.push(It::Col(Some(d), op, n, all));
                        }
                    } else {
                        items.push(It::Col(None, op, n, all));
                    }
                }
            }
            if n % 2 == 0 && a.num("mdct", 0) == 1 {
                items.push(It::M(MD::Planned(n), all));
                items.push(It::M(MD::Naive(n), all));
                if n <= 24 {
                    items.push(It::M(MD::Via(D::T4Naive(n)), all));
                }
            }
        }
    }
    let both = a.str("t", "both");
    par(items.len(), a.threads(), |q| match &items[q] {
        It::Col(d, op, n, all) => {
            let mut rng = Rng::new(seed, (*op as u64) << 32 | *n as u64);
            let (cols, rows): (Vec<usize>, Option<Vec<usize>>) = if *all {
                ((0..*n).collect(), None)
            } else {
                let mut c = vec![0, n - 1, n / 2, rng.range(0, n - 1), rng.range(0, n - 1)];
                c.dedup();
                let mut r: Vec<usize> = edges(*n);
                for _ in 0..24 {
                    r.push(rng.range(0, n - 1));
                }
                (c, Some(r))
            };
            if both != "f32" {
                columns::<f64>(&out, d, *op, *n, &cols, rows.as_deref());
            }
            if both != "f64" {
                columns::<f32>(&out, d, *op, *n, &cols, rows.as_deref());
            }
        }
        It::M(d, all) => {
            let c = if *all { usize::MAX } else { 6 };
            if both != "f32" {
                mdct_columns::<f64>(&out, d, seed, c);
            }
            if both != "f64" {
                mdct_columns::<f32>(&out, d, seed, c);
            }
        }
    });
    out.flush();
    println!("STAT items={}", items.len());
}

/// output positions where case distinctions live
pub fn edges(n: usize) -> Vec<usize> {
    let mut v = vec![];
    for c in [0, n / 4, n / 2, 3 * n / 4, n.saturating_sub(1)] {
        for d in -2i64..=2 {
            let k = c as i64 + d;
            if k >= 0 && (k as usize) < n && !v.contains(&(k as usize)) {
                v.push(k as usize);
            }
        }
    }
    v
}

/// An error measurement, relative to |x|_2. rms: root-mean-square error over all outputs, in
/// units of eps/16. peak: the largest error, and at: the largest one at a few outputs for which
/// the reference was summed directly with compensation, both in units of eps/16 times
/// (1 + largest output / |x|_2). max: the largest error in units of eps/16 * sqrt(outputs).
#[derive(Clone, Copy)]
pub struct Err {
    rms: i64,
    peak: i64,
    at: i64,
    max: i64,
}
impl Err {
    const NO: Err = Err { rms: BAD, peak: BAD, at: BAD, max: BAD };
    /// e: differences already divided by |x|_2; ymax: the largest output, so divided, too
    fn of<T: Fl>(e: &[f64], at: &[f64], nout: usize, ymax: f64) -> Err {
        let u = T::EPS / 16.0;
        let up = u * (1.0 + ymax);
        let m = e.iter().fold(0f64, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b.abs()) });
        let r = if m == 0.0 || !m.is_finite() {
            m
        } else {
            m * (e.iter().map(|v| (v / m) * (v / m)).sum::<f64>() / e.len() as f64).sqrt()
        };
        let t = at.iter().fold(0f64, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b.abs()) });
        Err { rms: units(r, u), peak: units(m, up), at: units(t, up), max: units(m, u * (nout as f64).sqrt()) }
    }
    fn worse(self, o: Err) -> Err {
        Err { rms: self.rms.max(o.rms), peak: self.peak.max(o.peak), at: self.at.max(o.at), max: self.max.max(o.max) }
    }
    /// measured relative to a larger input
    fn rescale(self, c: f64) -> Err {
        let f = |e: i64| if e >= BAD { BAD } else { (e as f64 * c).ceil() as i64 };
        Err { rms: f(self.rms), peak: f(self.peak), at: f(self.at), max: f(self.max) }
    }
}
fn largest(v: &[f64]) -> f64 {
    v.iter().fold(0f64, |a, b| a.max(b.abs()))
}
/// errors of y against the definition applied to x
fn err<T: Fl>(f: &Form, x: &[f64], y: &[T], ks: &[usize]) -> Err {
    let nx = norm2(x);
    let sc = 1.0 / nx;
    let xs: Vec<f64> = x.iter().map(|v| v * sc).collect();
    let r = f.fast(&xs);
    let all: Vec<f64> = (0..f.nout).map(|k| y[k].to() * sc - r[k]).collect();
    let at: Vec<f64> = ks.iter().map(|&k| y[k].to() * sc - f.direct(&xs, k, None)).collect();
    Err::of::<T>(&all, &at, f.nout, largest(&r))
}
/// largest error of y against the definition applied to x
pub fn dev<T: Fl>(f: &Form, x: &[f64], y: &[T]) -> i64 {
    err(f, x, y, &[]).max
}
fn picks(rng: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut ks = vec![0, n - 1];
    for _ in 0..k {
        ks.push(rng.range(0, n - 1));
    }
    ks
}

fn acc_one<T: Fl>(a: &Args, d: &Option<D>, op: Op, n: usize, cls: usize, seed: u64) -> (String, Err) {
    let f = form(op, n);
    let mut rng = Rng::new(seed, (op as u64) << 48 | (n as u64) << 8 | cls as u64);
    let x = signal::<T>(&mut rng, n, cls);
    let tight = a.num("tight", 0) as usize;
    let r = guard(|| {
        let inst: Inst<T> = mk(d, op, n);
        let mut b: Vec<T> = x.iter().map(|&v| T::of(v)).collect();
        // the buffer starts anywhere, also where wide loads would be misaligned
        let off = rng.below(9) as usize;
        if (n + cls) % 2 == 0 {
            let mut u = vec![T::zero(); off];
            u.extend_from_slice(&b);
            inst.call_conv(op, &mut u[off..]);
            b.copy_from_slice(&u[off..]);
        } else {
            // the scratch lies anywhere, or next to the buffer on either side
            let m = inst.scratch_len();
            let mut s = vec![T::zero(); m + n + off];
            let s = &mut s[off..];
            match (n / 2 + cls) % 3 {
                0 => inst.call(op, &mut b, &mut s[n..]),
                1 => {
                    s[..n].copy_from_slice(&b);
                    let (u, v) = s.split_at_mut(n);
                    inst.call(op, u, v);
                    b.copy_from_slice(&s[..n]);
                }
                _ => {
                    s[m..].copy_from_slice(&b);
                    let (v, u) = s.split_at_mut(m);
                    inst.call(op, u, v);
                    b.copy_from_slice(&s[m..]);
                }
            }
        }
        (inst.len(), b)
    });
    match r {
        Ok((len, _)) if len != n => (format!("len {len}"), Err::NO),
        Ok((_, y)) => (String::new(), err(&f, &x, &y, &picks(&mut rng, n, tight))),
        Err(e) => (e, Err::NO),
    }
}

fn inv_one<T: Fl>(op: Op, n: usize, cls: usize, seed: u64) -> (String, Err) {
    let (inv, ca, cb) = op.inverse();
    let mut rng = Rng::new(seed, 17 << 56 | (op as u64) << 48 | (n as u64) << 8 | cls as u64);
    let x = signal::<T>(&mut rng, n, cls);
    let r = guard(|| {
        let mut pl = DctPlanner::<T>::new();
        let p = plan(&mut pl, op, n);
        let q = plan(&mut pl, inv, n);
        let mut b: Vec<T> = x.iter().map(|&v| T::of(v)).collect();
        p.call_conv(op, &mut b);
        q.call_conv(inv, &mut b);
        b
    });
    match r {
        Ok(y) => {
            let scale = (ca * n as i64 + cb) as f64 / 4.0;
            let nx = norm2(&x);
            let e: Vec<f64> = (0..n).map(|i| y[i].to() / nx / scale - x[i] / nx).collect();
            (String::new(), Err::of::<T>(&e, &[], 1, 1.0))
        }
        Err(e) => (e, Err::NO),
    }
}

fn mdct_one<T: Fl>(a: &Args, d: &MD, cls: usize, seed: u64, inverse: bool) -> (String, Err) {
    let n = d.len();
    let tight = a.num("tight", 0) as usize;
    let mut rng = Rng::new(seed, 21 << 56 | (inverse as u64) << 55 | (n as u64) << 8 | cls as u64);
    // random data meets both random and special windows, and so do the special inputs
    let wcls = if rng.below(2) == 0 { 0 } else { rng.range(0, WCLASSES - 1) };
    let w = any_window::<T>(&mut rng, n, wcls);
    let r = guard(|| {
        let inst: Arc<dyn Mdct<T>> = d.build(w.iter().map(|&x| T::of(x)).collect());
        let mut s = vec![T::zero(); inst.get_scratch_len()];
        if !inverse {
            let mut x = signal::<T>(&mut rng, 2 * n, cls);
            // where the two inputs lie: one after the other, either way round, apart, both at one
            // place, overlapping
            let lay = rng.below(6);
            let shift = match lay {
                4 => 0,
                5 => rng.range(1, n - 1),
                _ => n,
            };
            if lay >= 4 {
                for j in 0..n {
                    x[n + j] = x[shift + j];
                }
            }
            let mut v: Vec<T> = x.iter().map(|&q| T::of(q)).collect();
            let gap = if lay == 3 { 3 } else { 0 };
            if lay == 2 || lay == 3 {
                v.rotate_left(n);
                (0..gap).for_each(|_| v.insert(n, T::one()));
            }
            let v0: Vec<u64> = v.iter().map(|q| q.bits()).collect();
            let mut o = vec![T::of(if cls % 2 == 0 { f64::NAN } else { 3.0 }); n];
            if lay == 2 || lay == 3 {
                inst.process_mdct_with_scratch(&v[n + gap..], &v[..n], &mut o, &mut s);
            } else {
                inst.process_mdct_with_scratch(&v[..n], &v[shift..shift + n], &mut o, &mut s);
            }
            if v.iter().map(|q| q.bits()).ne(v0.into_iter()) || inst.len() != n {
                return Err::NO;
            }
            let xw: Vec<f64> = (0..2 * n).map(|j| x[j] * w[j]).collect();
            err(&form_mdct(n), &xw, &o, &picks(&mut rng, n, tight)).rescale(norm2(&xw) / norm2(&x))
        } else {
            let x = signal::<T>(&mut rng, n, cls);
            let v: Vec<T> = x.iter().map(|&q| T::of(q)).collect();
            let nx = norm2(&x);
            // what is in the output before: accumulated upon, whatever it is
            let kind = rng.below(6);
            let o0: Vec<f64> = (0..2 * n)
                .map(|j| {
                    let v = rng.unit() * nx;
                    T::of(match kind {
                        0 => 0.0,
                        1 if j < n => 0.0,
                        2 if j >= n => 0.0,
                        3 if rng.below(2) == 0 => 0.0,
                        _ => v,
                    })
                    .to()
                })
                .collect();
            let mut o: Vec<T> = o0.iter().map(|&q| T::of(q)).collect();
            // the outputs one after the other, either way round, and with the input in between
            match rng.below(3) {
                0 => {
                    let (oa, ob) = o.split_at_mut(n);
                    inst.process_imdct_with_scratch(&v, oa, ob, &mut s)
                }
                lay => {
                    let gap = if lay == 1 { 0 } else { n };
                    let mut all: Vec<T> = o[n..].to_vec();
                    all.extend(v.iter().take(gap));
                    all.extend_from_slice(&o[..n]);
                    let (ob, rest) = all.split_at_mut(n);
                    let (x, oa) = rest.split_at_mut(gap);
                    inst.process_imdct_with_scratch(if gap > 0 { x } else { &v }, oa, ob, &mut s);
                    o[..n].copy_from_slice(&all[n + gap..]);
                    o[n..].copy_from_slice(&all[..n]);
                    if (0..gap).any(|j| all[n + j].bits() != v[j].bits()) {
                        return Err::NO;
                    }
                }
            }
            if (0..n).any(|j| v[j].bits() != T::of(x[j]).bits()) || inst.len() != n {
                return Err::NO;
            }
            let f = form_imdct(n);
            let xs: Vec<f64> = x.iter().map(|q| q / nx).collect();
            let r = f.fast(&xs);
            let e: Vec<f64> = (0..2 * n).map(|j| o[j].to() / nx - (o0[j] / nx + w[j] * r[j])).collect();
            let at: Vec<f64> = picks(&mut rng, 2 * n, tight)
                .iter()
                .map(|&j| o[j].to() / nx - (o0[j] / nx + w[j] * f.direct(&xs, j, None)))
                .collect();
            let ymax = largest(&o0) / nx + largest(&r) * largest(&w);
            Err::of::<T>(&e, &at, 2 * n, ymax)
        }
    });
    match r {
        Ok(x) => (String::new(), x),
        Err(e) => (e, Err::NO),
    }
}

fn tdac_one<T: Fl>(d: &MD, win: &str, segs: usize, cls: usize, seed: u64) -> (String, Err) {
    let n = d.len();
    let mut rng = Rng::new(seed, 31 << 56 | (n as u64) << 8 | cls as u64);
    // scale: 1 invertible windows, 2/n mp3 and vorbis, 1/n rectangular
    let scale = match win {
        "mp3" | "vorbis" | "user" => 2.0 / n as f64,
        "one" => 1.0 / n as f64,
        _ => 1.0,
    };
    let total = n * (segs + 1);
    let x = signal::<T>(&mut rng, total, cls);
    let r = guard(|| {
        let w: Vec<T> = if win == "user" {
            // arbitrary symmetric power-complementary window
            let mut h = vec![0f64; n];
            // smooth, or with flat parts, or jumping between 0 and 1
            let kind = rng.below(4);
            for j in 0..n / 2 {
                let flat = kind == 1 || kind == 2 && j < n / 4 || kind == 3 && rng.below(3) == 0;
                let th = if !flat {
                    rng.unit() * 3.0
                } else if kind == 3 && rng.below(2) == 0 {
                    std::f64::consts::FRAC_PI_2
                } else {
                    0.0
                };
                h[j] = th.sin();
                h[n - 1 - j] = th.cos();
            }
            let mut w = h.clone();
            w.extend(h.iter().rev());
            w.into_iter().map(T::of).collect()
        } else {
            window(win, 2 * n)
        };
        if w.len() != 2 * n {
            return Err::NO;
        }
        let inst: Arc<dyn Mdct<T>> = d.build(w);
        let v: Vec<T> = x.iter().map(|&q| T::of(q)).collect();
        let mut rec = vec![T::zero(); total];
        let mut s = vec![T::zero(); inst.get_scratch_len()];
        let mut o = vec![T::of(5.0); n];
        for q in 0..segs {
            inst.process_mdct_with_scratch(&v[q * n..(q + 1) * n], &v[(q + 1) * n..(q + 2) * n], &mut o, &mut s);
            let (oa, ob) = rec[q * n..(q + 2) * n].split_at_mut(n);
            inst.process_imdct_with_scratch(&o, oa, ob, &mut s);
        }
        // local size of the signal: the three blocks around
        let mut e = vec![];
        for q in 1..segs {
            let nx = norm2(&x[(q - 1) * n..(q + 2) * n]);
            for j in q * n..(q + 1) * n {
                e.push(rec[j].to() / nx * scale - x[j] / nx);
            }
        }
        Err::of::<T>(&e, &[], 1, 1.0)
    });
    match r {
        Ok(x) => (String::new(), x),
        Err(e) => (e, Err::NO),
    }
}

/// error sweep: one trace event per (number type, length, what), results per op
pub fn acc(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let ops: Vec<Op> = a.list("ops").iter().map(|s| Op::parse(s)).collect();
    let lens = a.lens("lens");
    let per = a.num("per", 2) as usize;
    let what = a.str("what", "planned");
    let f32too = a.num("f32", 1) == 1;
    // (length, number of the input, class)
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for &n in &lens {
        for c in 0..per {
            let mut rng = Rng::new(seed, 1 << 60 | (n as u64) << 4 | c as u64);
            // the first input of every length is random data, the others are drawn from all classes
            items.push((n, c, if c == 0 { 0 } else { rng.range(1, CLASSES - 1) }));
        }
    }
    // lengths at which every class of input is tried
    for n in a.lens("rich") {
        for r in 0..a.num("each", 1) as usize {
            items.extend((0..CLASSES).map(|c| (n, per + r * CLASSES + c, c)));
        }
    }
    // big lengths first so that the tail is short; an event covers several inputs of one length
    items.sort_by_key(|x| std::cmp::Reverse(x.0));
    let mut groups: Vec<Vec<(usize, usize, usize)>> = vec![];
    for it in items {
        match groups.last_mut() {
            Some(g) if g[0].0 == it.0 && g.len() < (if it.0 <= 600 { CLASSES } else { 4 }) => g.push(it),
            _ => groups.push(vec![it]),
        }
    }
    let evals = std::sync::atomic::AtomicU64::new(0);
    par(groups.len(), a.threads(), |g| {
        let n = groups[g][0].0;
        for t32 in [false, true] {
            if t32 && !f32too {
                continue;
            }
            let tn = if t32 { "f32" } else { "f64" };
            // the worst of each error over the inputs, and the class of the worst input
            let mut worst: Vec<(String, String, Err, usize)> = vec![];
            let mut msgs: Vec<String> = vec![];
            for &(_, c, cls) in &groups[g] {
            let seed = seed.wrapping_add(c as u64 * 7919);
            let mut put = |name: &str, alg: &str, (m, e): (String, Err)| {
                evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if !m.is_empty() && msgs.len() < 4 {
                    msgs.push(format!("{name} {alg} input class {cls}: {m}"));
                }
                match worst.iter_mut().find(|w| w.0 == name && w.1 == alg) {
                    Some(w) => {
                        if e.peak > w.2.peak {
                            w.3 = cls;
                        }
                        w.2 = w.2.worse(e);
                    }
                    None => worst.push((name.to_string(), alg.to_string(), e, cls)),
                }
            };
            for &op in &ops {
                if n < op.min_len() {
                    continue;
                }
                match what.as_str() {
                    "planned" => put(
                        op.name(), "planned",
                        if t32 { acc_one::<f32>(a, &None, op, n, cls, seed) } else { acc_one::<f64>(a, &None, op, n, cls, seed) },
                    ),
                    "direct" => {
                        for d in direct_descs(op, n, n <= 16) {
                            let alg = d.text();
                            if n > 5000 && alg.contains("dft:") {
                                continue;
                            }
                            let d = Some(d);
                            put(
                                op.name(), &alg,
                                if t32 { acc_one::<f32>(a, &d, op, n, cls, seed) } else { acc_one::<f64>(a, &d, op, n, cls, seed) },
                            )
                        }
                    }
                    "inverse" => {
                        put(
                            op.name(), "planned",
                            if t32 { inv_one::<f32>(op, n, cls, seed) } else { inv_one::<f64>(op, n, cls, seed) },
                        );
                    }
                    _ => {}
                }
            }
            if n % 2 == 0 {
                let ds: Vec<MD> = match what.as_str() {
                    "mdct" | "imdct" | "tdac" => {
                        if n <= a.num("naivemax", 400) as usize {
                            vec![MD::Planned(n), MD::Naive(n)]
                        } else {
                            vec![MD::Planned(n)]
                        }
                    }
                    "mdct-direct" | "imdct-direct" => {
                        let mut v = vec![MD::Naive(n)];
                        v.extend(direct_descs(Op::Dct4, n, n <= 16).into_iter().filter(|d| n <= 5000 || !d.text().contains("dft:")).map(MD::Via));
                        v
                    }
                    _ => vec![],
                };
                for d in ds {
                    if what == "tdac" {
                        for w in ["mp3", "mp3_invertible", "vorbis", "vorbis_invertible", "one", "invertible", "user"] {
                            let segs = 2 + (n + c) % 4;
                            let e = if t32 { tdac_one::<f32>(&d, w, segs, cls, seed) } else { tdac_one::<f64>(&d, w, segs, cls, seed) };
                            put("tdac", &format!("{} {w}", d.text()), e);
                        }
                    } else {
                        let inv = what.starts_with('i');
                        put(
                            if inv { "imdct" } else { "mdct" }, &d.text(),
                            if t32 { mdct_one::<f32>(a, &d, cls, seed, inv) } else { mdct_one::<f64>(a, &d, cls, seed, inv) },
                        );
                    }
                }
            }
            }
            if !worst.is_empty() {
                let res = worst.iter().map(|(op, alg, e, cls)| {
                    let direct = alg.starts_with("MdctNaive") as u8;
                    format!(
                        r#"{{"op":"{op}","alg":"{alg}","direct":{direct},"cls":{cls},"rms":{},"peak":{},"at":{},"max":{}}}"#,
                        e.rms, e.peak, e.at, e.max
                    )
                });
                out.line(&format!(
                    r#"{{"e":"acc","what":"{what}","T":"{tn}","n":{n},"inputs":{},"r":{},"msg":"{}"}}"#,
                    groups[g].len(), arr(res), esc(&msgs.join("; "))
                ));
            }
        }
    });
    out.flush();
    println!("STAT items={}", evals.load(std::sync::atomic::Ordering::Relaxed));
}

fn win_event<T: Fl>(name: &str, len: usize) -> String {
    let base = name.trim_end_matches("_invertible");
    let scale = match name {
        "mp3_invertible" | "vorbis_invertible" => (4.0 / len as f64).sqrt(),
        "invertible" => (2.0 / len as f64).sqrt(),
        _ => 1.0,
    };
    let w: Vec<T> = match guard(|| window::<T>(name, len)) {
        Ok(w) => w,
        Err(e) => return panic_line(name, "window", len, T::NAME, &e),
    };
    let tol = 16.0 * T::EPS;
    let pi = std::f64::consts::PI;
    let mut iv: Vec<(i64, i64)> = vec![];
    let mut acc = 0;
    let mut sym = 0;
    let mut pc = 0;
    let l = len as u64;
    for (j, v) in w.iter().enumerate() {
        let v = v.to() / scale;
        let ph = 2 * j as u64 + 1;
        let exact = match base {
            "mp3" => sin2pi(ph, 4 * l),
            "vorbis" => {
                let s = sin2pi(ph, 4 * l);
                (pi * 0.5 * s * s).sin()
            }
            _ => 1.0,
        };
        acc = acc.max(units(v - exact, T::EPS));
        match base {
            "mp3" => iv.push(interval(v, tol, 16 * l)),
            "vorbis" => {
                // v = sin(pi/2 * u), u = (1 - cos(2 pi ph/2L))/2
                if !(v >= -tol && v <= 1.0 + tol) {
                    iv.push((1, 0));
                } else {
                    let u0 = 2.0 / pi * (v - tol).clamp(0.0, 1.0).asin();
                    let u1 = 2.0 / pi * (v + tol).clamp(0.0, 1.0).asin();
                    let m = 2.0 * len as f64;
                    let lo = (1.0 - 2.0 * u0 + tol).clamp(-1.0, 1.0).acos() * m / (2.0 * pi);
                    let hi = (1.0 - 2.0 * u1 - tol).clamp(-1.0, 1.0).acos() * m / (2.0 * pi);
                    iv.push(((lo - 1e-6).ceil() as i64, (hi + 1e-6).floor() as i64));
                }
            }
            _ => {
                let ok = (v - 1.0).abs() <= tol;
                iv.push(if ok { (0, 0) } else { (1, 0) });
            }
        }
        if w.len() == len {
            sym = sym.max(units((w[len - 1 - j] - w[j]).to() / scale, T::EPS));
            if j < len / 2 {
                let o = w[j + len / 2].to() / scale;
                let want = if base == "mp3" || base == "vorbis" { 1.0 } else { 2.0 };
                pc = pc.max(units(v * v + o * o - want, T::EPS));
            }
        }
    }
    if len > 4500 {
        // large: the phases of a few cells
        let at: Vec<usize> = (0..w.len()).filter(|&j| j < 3 || j + 3 >= w.len() || j.abs_diff(w.len() / 2) < 3 || j % (len / 97) == 5).collect();
        return format!(
            r#"{{"e":"winl","T":"{}","name":"{name}","base":"{base}","size":{len},"count":{},"acc":{acc},"sym":{sym},"pc":{pc},"at":{},"lo":{},"hi":{}}}"#,
            T::NAME, w.len(), arr(at.iter()), arr(at.iter().map(|&j| iv[j].0)), arr(at.iter().map(|&j| iv[j].1))
        );
    }
    format!(
        r#"{{"e":"win","T":"{}","name":"{name}","base":"{base}","size":{len},"count":{},"acc":{acc},"sym":{sym},"pc":{pc},"lo":{},"hi":{}}}"#,
        T::NAME, w.len(), arr(iv.iter().map(|x| x.0)), arr(iv.iter().map(|x| x.1))
    )
}
pub fn windows(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let lens = a.lens("lens");
    let all: Vec<(usize, &str)> = lens.iter().flat_map(|&l| WINDOWS.iter().map(move |w| (l, *w))).collect();
    par(all.len(), a.threads(), |k| {
        let (l, w) = all[k];
        out.line(&win_event::<f64>(w, l));
        out.line(&win_event::<f32>(w, l));
    });
    out.flush();
    println!("STAT items={}", all.len() * 2);
}

/// the reference's own reading of the definitions, for comparison with Defs
pub fn defs(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let mut count = 0;
    let mut put = |op: &str, n: usize, f: &Form| {
        let (mut ph, mut h) = (vec![], vec![]);
        for k in 0..f.nout {
            for i in 0..f.nin {
                ph.push(f.phase(k, i));
            }
        }
        for i in 0..f.nin {
            h.push(if f.is_half(i) { 1 } else { 2 });
        }
        out.line(&format!(
            r#"{{"e":"def","op":"{op}","n":{n},"m":{},"ph":{},"w":{}}}"#,
            f.m, arr(&ph), arr(&h)
        ));
        count += 1;
    };
    for n in a.lens("lens") {
        for op in OPS {
            if n >= op.min_len() {
                put(op.name(), n, &form(op, n));
            }
        }
        if n % 2 == 0 {
            put("mdct", n, &form_mdct(n));
            put("imdct", n, &form_imdct(n));
        }
    }
    out.flush();
    println!("STAT items={count}");
}
