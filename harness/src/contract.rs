//! Which calls are accepted (and what a rejected call leaves behind), and which constructions.
use crate::kinds::*;
use crate::util::*;
use crate::Args;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::rustfft::num_complex::Complex;
use rustdct::rustfft::{Direction, Fft, FftDirection, Length};
use rustdct::*;
use std::sync::Arc;

type T = f64;
const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };

/// values a caller may well have in a buffer
fn value(cls: usize, i: usize) -> T {
    match cls {
        0 => (i as f64 * 0.37).sin() + 0.01,
        1 => f64::INFINITY,
        2 => f64::NAN,
        3 => f64::MAX * if i % 2 == 0 { 1.0 } else { -1.0 },
        4 => f64::from_bits(1 + i as u64),
        5 => -0.0,
        6 => [f64::NEG_INFINITY, 0.0, f64::NAN, 1.0, f64::MIN_POSITIVE, -f64::MAX, f64::INFINITY][i % 7],
        _ => f64::from_bits(0x7ff0_0000_0000_0001 + i as u64), // signalling NaN payloads
    }
}
pub const VALUES: usize = 8;
fn fill(cls: usize, n: usize) -> Vec<T> {
    (0..n).map(|i| value(cls, i)).collect()
}
fn same(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

pub fn bad_lens(n: usize) -> Vec<usize> {
    let mut v = vec![0, n - 1, n + 1, 2 * n, 3 * n, 2 * n + 1, 2 * n - 1, n / 2, (n + 1) / 2, n + 2, n.saturating_sub(2), 4 * n, 2 * (n + 1), 2 * (n - 1), n * n];
    // equal to n in the low bits, or in all but one
    if n <= 12 || n % 16 == 0 {
        v.extend([n + 256, n + 512, n + 1024]);
        v.extend((0..12).map(|k| n ^ 1 << k));
    }
    v.retain(|&m| m != n && m < 5000);
    if n <= 4 || n == 8 || n == 64 {
        v.push(n + 65536);
    }
    v.sort();
    v.dedup();
    v
}

fn sig_cases(rng: &mut Rng, label: &str, inst: &Inst<T>, op: Op, n: usize) -> String {
    let adv = inst.scratch_len();
    let mut cases: Vec<(usize, i64, usize)> = vec![]; // buffer length, scratch length (-1 convenience), values
    for b in bad_lens(n) {
        for s in [adv as i64, (adv + n + 3) as i64, -1] {
            cases.push((b, s, 0));
        }
        if adv > 0 {
            cases.push((b, rng.below(adv as u64) as i64, 0));
        }
    }
    if adv > 0 {
        for s in [0, adv / 2, adv - 1, n.min(adv - 1), (n / 2).min(adv - 1), rng.below(adv as u64) as usize] {
            cases.push((n, s as i64, 0));
        }
    }
    for c in 0..VALUES {
        cases.push((n, adv as i64, c));
    }
    for s in [adv + 1, adv + n, 2 * adv + 5] {
        cases.push((n, s as i64, rng.below(VALUES as u64) as usize));
    }
    cases.push((n, -1, 0));
    cases.push((n, -1, 6));
    let mut out = vec![];
    for (bl, sl, cls) in cases {
        let b0 = fill(cls, bl);
        let mut b = b0.clone();
        let mut s = fill((cls + 1) % VALUES, sl.max(0) as usize);
        let r = guard(|| {
            if sl < 0 {
                inst.call_conv(op, &mut b)
            } else {
                inst.call(op, &mut b, &mut s)
            }
        });
        out.push(format!(
            r#"{{"b":{bl},"s":{sl},"v":{cls},"ok":{},"mod":{}}}"#,
            r.is_ok() as u8, !same(&b, &b0) as u8
        ));
    }
    format!(
        r#"{{"e":"calls","kind":"signal","build":"{BUILD}","alg":"{label}","op":"{}","n":{n},"len":{},"adv":{adv},"cases":{}}}"#,
        op.name(), inst.len(), arr(&out)
    )
}

fn mdct_cases(rng: &mut Rng, d: &MD, inverse: bool) -> String {
    let n = d.len();
    let inst: Arc<dyn Mdct<T>> = match guard(|| d.build(fill(0, 2 * n))) {
        Ok(i) => i,
        Err(e) => return panic_line(&d.text(), "mdct", n, &e),
    };
    let adv = inst.get_scratch_len();
    let mut cases: Vec<(usize, usize, usize, i64, usize)> = vec![];
    let bad = bad_lens(n);
    for &x in &bad {
        for k in 0..3 {
            let mut l = [n, n, n];
            l[k] = x;
            cases.push((l[0], l[1], l[2], (adv + (x % 3)) as i64, 0));
        }
        cases.push((x, x, x, adv as i64, 0));
        cases.push((n, x, x, (adv + x) as i64, 0));
        cases.push((x, x, n, (adv + x) as i64, 0));
        cases.push((x, n, x, (adv + x) as i64, 0));
        // lengths that add up correctly but are split wrongly
        if x < 2 * n {
            cases.push((x, 2 * n - x, n, (adv + x) as i64, 0));
            cases.push((n, x, 2 * n - x, (adv + x) as i64, 0));
        }
        let y = bad[rng.below(bad.len() as u64) as usize];
        cases.push((x, y, n, adv as i64, 0));
    }
    if adv > 0 {
        for s in [0, adv / 2, adv - 1, n.min(adv - 1), rng.below(adv as u64) as usize] {
            cases.push((n, n, n, s as i64, 0));
            cases.push((n, n + 1, n, s as i64, 0));
        }
    }
    for c in 0..VALUES {
        cases.push((n, n, n, (adv + c) as i64, c));
    }
    let mut out = vec![];
    for (la, lb, lc, sl, cls) in cases {
        let (a0, b0, c0) = (fill(cls, la), fill((cls + 3) % VALUES * (cls > 0) as usize, lb), fill((cls + 5) % VALUES, lc));
        let (mut a, mut b, mut c) = (a0.clone(), b0.clone(), c0.clone());
        let mut s = fill((cls + 1) % VALUES, sl as usize);
        let r = guard(|| {
            if inverse {
                inst.process_imdct_with_scratch(&a, &mut b, &mut c, &mut s)
            } else {
                inst.process_mdct_with_scratch(&a, &b, &mut c, &mut s)
            }
        });
        let keep = if inverse { same(&a, &a0) } else { same(&a, &a0) && same(&b, &b0) };
        let all = same(&a, &a0) && same(&b, &b0) && same(&c, &c0);
        a.clear();
        b.clear();
        c.clear();
        out.push(format!(
            r#"{{"a":{la},"b":{lb},"c":{lc},"s":{sl},"v":{cls},"ok":{},"mod":{},"inmod":{}}}"#,
            r.is_ok() as u8, !all as u8, !keep as u8
        ));
    }
    format!(
        r#"{{"e":"calls","kind":"{}","build":"{BUILD}","alg":"{}","n":{n},"len":{},"adv":{adv},"cases":{}}}"#,
        if inverse { "imdct" } else { "mdct" }, d.text(), inst.len(), arr(&out)
    )
}
fn panic_line(alg: &str, op: &str, n: usize, e: &str) -> String {
    format!(r#"{{"e":"panic","alg":"{}","op":"{op}","n":{n},"build":"{BUILD}","msg":"{}"}}"#, esc(alg), esc(e))
}

pub fn reject(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let planned = a.lens("planned");
    let direct = a.lens("direct");
    enum It {
        P(Op, usize),
        D(Op, D),
        M(MD, bool),
    }
    let mut items = vec![];
    for &op in &OPS {
        for &n in &planned {
            if n >= op.min_len() {
                items.push(It::P(op, n));
            }
        }
        for &n in &direct {
            if n >= op.min_len() {
                for d in direct_descs(op, n, n <= 12) {
                    items.push(It::D(op, d));
                }
            }
        }
    }
    for inv in [false, true] {
        for &n in planned.iter().filter(|n| **n % 2 == 0) {
            items.push(It::M(MD::Planned(n), inv));
        }
        for &n in direct.iter().filter(|n| **n % 2 == 0) {
            items.push(It::M(MD::Naive(n), inv));
            for d in direct_descs(Op::Dct4, n, n <= 12) {
                items.push(It::M(MD::Via(d), inv));
            }
        }
    }
    par(items.len(), a.threads(), |k| {
        let mut rng = Rng::new(seed, k as u64);
        let line = match &items[k] {
            It::P(op, n) => match guard(|| plan::<T>(&mut DctPlanner::new(), *op, *n)) {
                Ok(i) => sig_cases(&mut rng, "planned", &i, *op, *n),
                Err(e) => panic_line("planned", op.name(), *n, &e),
            },
            It::D(op, d) => match guard(|| d.build::<T>()) {
                Ok(i) => sig_cases(&mut rng, &d.text(), &i, *op, d.len()),
                Err(e) => panic_line(&d.text(), op.name(), d.len(), &e),
            },
            It::M(d, inv) => mdct_cases(&mut rng, d, *inv),
        };
        out.line(&line);
    });
    out.flush();
    println!("STAT items={}", items.len());
}

// ---------------------------------------------------------------------------------------
// constructors

/// an inner transform that only has a length (never called)
struct Stub {
    len: usize,
    scratch: usize,
    inverse: bool,
}
impl Length for Stub {
    fn len(&self) -> usize {
        self.len
    }
}
impl RequiredScratch for Stub {
    fn get_scratch_len(&self) -> usize {
        self.scratch
    }
}
impl Direction for Stub {
    fn fft_direction(&self) -> FftDirection {
        if self.inverse { FftDirection::Inverse } else { FftDirection::Forward }
    }
}
impl Fft<T> for Stub {
    fn process_with_scratch(&self, _: &mut [Complex<T>], _: &mut [Complex<T>]) {}
    fn process_outofplace_with_scratch(&self, _: &mut [Complex<T>], _: &mut [Complex<T>], _: &mut [Complex<T>]) {}
    fn process_immutable_with_scratch(&self, _: &[Complex<T>], _: &mut [Complex<T>], _: &mut [Complex<T>]) {}
    fn get_inplace_scratch_len(&self) -> usize {
        self.scratch
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.scratch
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.scratch
    }
}
macro_rules! stub_op {
    ($($tr:ident $f:ident),*) => { $(impl $tr<T> for Stub { fn $f(&self, _: &mut [T], _: &mut [T]) {} })* };
}
stub_op!(Dct2 process_dct2_with_scratch, Dct3 process_dct3_with_scratch, Dst2 process_dst2_with_scratch,
    Dst3 process_dst3_with_scratch, Dct4 process_dct4_with_scratch, Dst4 process_dst4_with_scratch);
impl TransformType2And3<T> for Stub {}
impl TransformType4<T> for Stub {}

pub fn ctor(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let lens = a.lens("lens");
    let planlens = a.lens("plan");
    let mut lines = 0u64;
    let mut emit = |kind: &str, x: usize, y: usize, dir: &str, r: Result<usize, String>| {
        lines += 1;
        let (ok, len, msg) = match r {
            Ok(l) => (1, l as i64, String::new()),
            Err(e) => (0, -1, esc(&e)),
        };
        out.line(&format!(
            r#"{{"e":"ctor","kind":"{kind}","x":{x},"y":{y},"dir":"{dir}","build":"{BUILD}","ok":{ok},"len":{len},"msg":"{msg}"}}"#
        ));
    };
    let mut rng = Rng::new(seed, 4242);
    macro_rules! naive {
        ($($name:literal $t:ident),*) => { $(
            for &n in &lens {
                emit($name, n, 0, "", guard(|| $t::<T>::new(n).len()));
            }
        )* };
    }
    naive!("Dct1Naive" Dct1Naive, "Dst1Naive" Dst1Naive, "Type2And3Naive" Type2And3Naive, "Type4Naive" Type4Naive,
        "Dct5Naive" Dct5Naive, "Dst5Naive" Dst5Naive, "Dct6And7Naive" Dct6And7Naive, "Dst6And7Naive" Dst6And7Naive,
        "Dct8Naive" Dct8Naive, "Dst8Naive" Dst8Naive);
    macro_rules! fft {
        ($($name:literal $t:ident),*) => { $(
            for &n in &lens {
                for inverse in [false, true] {
                    let scratch = rng.below(3) as usize * n;
                    let r = guard(|| $t::<T>::new(Arc::new(Stub { len: n, scratch, inverse })).len());
                    emit($name, n, 0, if inverse { "inv" } else { "fwd" }, r);
                }
            }
        )* };
    }
    fft!("Dct1ConvertToFft" Dct1ConvertToFft, "Dst1ConvertToFft" Dst1ConvertToFft,
        "Type2And3ConvertToFft" Type2And3ConvertToFft, "Type4ConvertToFftOdd" Type4ConvertToFftOdd,
        "Dst6And7ConvertToFft" Dst6And7ConvertToFft);
    let stub = |len: usize, scratch: usize| Arc::new(Stub { len, scratch, inverse: false });
    for &n in &lens {
        let s = rng.below(4) as usize * n;
        emit("Type4ConvertToType3Even", n, 0, "", guard(|| Type4ConvertToType3Even::<T>::new(stub(n, s)).len()));
        // every plausible partner for the other inner transform
        let mut qs = vec![n, 2 * n, n / 2, n / 4, n / 2 + 1, (n / 2).saturating_sub(1), 1, 4 * n, n / 3];
        qs.push(rng.range(1, n.max(2)));
        qs.retain(|q| *q >= 1);
        qs.sort();
        qs.dedup();
        for q in qs {
            emit("Type2And3SplitRadix", n, q, "", guard(|| Type2And3SplitRadix::<T>::new(stub(n, s), stub(q, s)).len()));
        }
        let mut ws = vec![2 * n, 2 * n + 1, 2 * n - 1, n, 0, 4 * n, 2 * n + 2, 2 * n - 2, n + 1, 1, 3 * n];
        ws.sort();
        ws.dedup();
        for w in ws {
            let win = move |_: usize| vec![1.0; w];
            emit("MdctNaive", n, w, "", guard(|| MdctNaive::<T>::new(n, win).len()));
            emit("MdctViaDct4", n, w, "", guard(|| MdctViaDct4::<T>::new(stub(n, s), win).len()));
            if n <= 600 {
                emit("plan_mdct", n, w, "", guard(|| DctPlanner::<T>::new().plan_mdct(n, win).len()));
                // the same with a window that looks at the size it is told
                let win2 = move |k: usize| vec![1.0; if k == 2 * n { w } else { 2 * n }];
                emit("plan_mdct", n, w, "asked", guard(|| DctPlanner::<T>::new().plan_mdct(n, win2).len()));
                emit("MdctNaive", n, w, "asked", guard(|| MdctNaive::<T>::new(n, win2).len()));
                emit("MdctViaDct4", n, w, "asked", guard(|| MdctViaDct4::<T>::new(stub(n, s), win2).len()));
            }
        }
        for name in ["mp3", "mp3_invertible", "vorbis", "vorbis_invertible", "one", "invertible"] {
            if n <= 300 {
                emit("plan_mdct", n, 2 * n, name, guard(|| {
                    DctPlanner::<T>::new().plan_mdct(n, |k| crate::kinds::window::<T>(name, k)).len()
                }));
            }
        }
    }
    for n in [2, 3, 4, 8, 16] {
        emit("Type2And3Butterfly", n, 0, "", guard(|| D::Bf(n).build::<T>().len()));
    }
    // planned: fresh planner, and one planner for everything (also after a panic)
    let mut shared = DctPlanner::<T>::new();
    for &n in &planlens {
        for &op in &OPS {
            emit("plan", n, 0, op.name(), guard(|| plan::<T>(&mut DctPlanner::new(), op, n).len()));
            emit("plan", n, 0, op.name(), guard(|| plan::<T>(&mut shared, op, n).len()));
        }
    }
    out.flush();
    println!("STAT items={lines}");
}
