//! Scratch contents and surplus; allocation; repeated and concurrent calls (f32, f64).
use crate::alloc::metered;
use crate::fl::*;
use crate::kinds::*;
use crate::util::*;
use crate::Args;
use rustdct::mdct::Mdct;
use rustdct::{DctNum, DctPlanner};
use std::sync::Arc;

/// one thing that can be called: an op of an instance, or one direction of an mdct
#[derive(Clone)]
pub enum Call<T: DctNum> {
    Sig(Inst<T>, Op),
    Fwd(Arc<dyn Mdct<T>>),
    Bwd(Arc<dyn Mdct<T>>),
}
impl<T: Fl> Call<T> {
    pub fn name(&self) -> &'static str {
        match self {
            Call::Sig(_, op) => op.name(),
            Call::Fwd(_) => "mdct",
            Call::Bwd(_) => "imdct",
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Call::Sig(i, _) => i.len(),
            Call::Fwd(m) | Call::Bwd(m) => m.len(),
        }
    }
    pub fn adv(&self) -> usize {
        match self {
            Call::Sig(i, _) => i.scratch_len(),
            Call::Fwd(m) | Call::Bwd(m) => m.get_scratch_len(),
        }
    }
    pub fn inputs(&self) -> usize {
        match self {
            Call::Sig(..) => self.len(),
            Call::Fwd(_) => 2 * self.len(),
            // input and both outputs
            Call::Bwd(_) => 3 * self.len(),
        }
    }
    /// cells of working memory: the signal buffers
    pub fn cells(&self) -> usize {
        match self {
            Call::Sig(..) => self.len(),
            _ => 3 * self.len(),
        }
    }
    /// where the result is found in the cells
    pub fn result(&self) -> std::ops::Range<usize> {
        let n = self.len();
        match self {
            Call::Sig(..) => 0..n,
            Call::Fwd(_) => 2 * n..3 * n,
            Call::Bwd(_) => n..3 * n,
        }
    }
    pub fn go(&self, b: &mut [T], s: &mut [T]) {
        let n = self.len();
        match self {
            Call::Sig(i, op) => i.call(*op, b, s),
            Call::Fwd(m) => {
                let (x, y) = b.split_at_mut(2 * n);
                m.process_mdct_with_scratch(&x[..n], &x[n..], y, s)
            }
            Call::Bwd(m) => {
                let (x, y) = b.split_at_mut(n);
                let (u, v) = y.split_at_mut(n);
                m.process_imdct_with_scratch(x, u, v, s)
            }
        }
    }
    pub fn has_conv(&self) -> bool {
        matches!(self, Call::Sig(..))
    }
    pub fn conv(&self, b: &mut [T]) {
        if let Call::Sig(i, op) = self {
            i.call_conv(*op, b)
        }
    }
}
#[derive(Clone)]
pub enum Desc {
    P(Op, usize),
    D(Op, D),
    M(MD, bool),
}
impl Desc {
    pub fn text(&self) -> String {
        match self {
            Desc::P(..) => "planned".into(),
            Desc::D(_, d) => d.text(),
            Desc::M(d, _) => d.text(),
        }
    }
    pub fn op(&self) -> &'static str {
        match self {
            Desc::P(op, _) | Desc::D(op, _) => op.name(),
            Desc::M(_, inv) => if *inv { "imdct" } else { "mdct" },
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Desc::P(_, n) => *n,
            Desc::D(_, d) => d.len(),
            Desc::M(d, _) => d.len(),
        }
    }
    pub fn call<T: Fl>(&self) -> Call<T> {
        match self {
            Desc::P(op, n) => Call::Sig(plan(&mut DctPlanner::new(), *op, *n), *op),
            Desc::D(op, d) => Call::Sig(d.build(), *op),
            Desc::M(d, inv) => {
                let n = d.len();
                let mut rng = Rng::new(5, n as u64);
                let w = any_window::<T>(&mut rng, n, if n % 4 == 0 { 0 } else { (n / 4) % WCLASSES });
                let m = d.build(w.into_iter().map(T::of).collect());
                if *inv { Call::Bwd(m) } else { Call::Fwd(m) }
            }
        }
    }
}
pub fn descs(a: &Args) -> Vec<Desc> {
    let mut v = vec![];
    let spies = a.num("spies", 1) == 1;
    let ops: Vec<Op> = if a.str("ops", "").is_empty() { OPS.to_vec() } else { a.list("ops").iter().map(|s| Op::parse(s)).collect() };
    for n in a.lens("planned") {
        for &op in &ops {
            if n >= op.min_len() {
                v.push(Desc::P(op, n));
            }
        }
        if n % 2 == 0 {
            v.push(Desc::M(MD::Planned(n), false));
            v.push(Desc::M(MD::Planned(n), true));
        }
    }
    for n in a.lens("direct") {
        for &op in &ops {
            if n >= op.min_len() {
                for d in direct_descs(op, n, spies && n <= 16) {
                    v.push(Desc::D(op, d));
                }
            }
        }
        if n % 2 == 0 {
            for inv in [false, true] {
                v.push(Desc::M(MD::Naive(n), inv));
                for d in direct_descs(Op::Dct4, n, spies && n <= 16) {
                    v.push(Desc::M(MD::Via(d), inv));
                }
            }
        }
    }
    v
}
pub fn panic_line(d: &Desc, t: &str, e: &str) -> String {
    format!(r#"{{"e":"panic","alg":"{}","op":"{}","n":{},"T":"{t}","msg":"{}"}}"#, esc(&d.text()), d.op(), d.len(), esc(e))
}
pub fn load<T: Fl>(c: &Call<T>, x: &[f64]) -> Vec<T> {
    let mut b = vec![T::zero(); c.cells()];
    for (d, s) in b.iter_mut().zip(x) {
        *d = T::of(*s);
    }
    b
}

/// one event: the worst deviation per content of the scratch, over sizes of scratch and inputs
fn scratch_one<T: Fl>(d: &Desc, classes: &[usize], seed: u64) -> String {
    let mut worst: std::collections::BTreeMap<&str, (i64, i64, usize, u64)> = Default::default();
    let mut first = (0, 0);
    for &cls in classes {
        let mut put = |f: &'static str, sl: i64, dev: i64| {
            let w = worst.entry(f).or_insert((sl, -1, cls, 0));
            if dev > w.1 {
                *w = (sl, dev, cls, w.3);
            }
            w.3 += 1;
        };
        match guard(|| scratch_runs::<T>(d, cls, seed, &mut put)) {
            Ok(Ok(x)) => first = x,
            Ok(Err(e)) | Err(e) => return panic_line(d, T::NAME, &format!("input class {cls}: {e}")),
        }
    }
    format!(
        r#"{{"e":"scratch","T":"{}","alg":"{}","op":"{}","n":{},"adv":{},"inputs":{},"runs":{}}}"#,
        T::NAME, d.text(), d.op(), first.0, first.1, classes.len(),
        arr(worst.iter().map(|(f, w)| format!(r#"{{"f":"{f}","s":{},"dev":{},"cls":{},"runs":{}}}"#, w.0, w.1, w.2, w.3)))
    )
}
fn scratch_runs<T: Fl>(d: &Desc, cls: usize, seed: u64, put: &mut dyn FnMut(&'static str, i64, i64)) -> Result<(usize, usize), String> {
    let mut rng = Rng::new(seed, 0x51 ^ (d.len() as u64) << 8 ^ (cls as u64) << 56);
    let c: Call<T> = d.call();
    let n = c.len();
    let adv = c.adv();
    let x: Vec<f64> = signal::<T>(&mut rng, c.inputs(), cls);
    let unit = T::EPS / 16.0 * norm2(&x) * (c.result().len() as f64).sqrt();
    let mut b0 = load(&c, &x);
    guard(|| {
        let mut s = vec![T::zero(); adv];
        c.go(&mut b0, &mut s);
    })?;
    let y0: Vec<f64> = b0[c.result()].iter().map(|v| v.to()).collect();
    let mut push = |f: &'static str, sl: i64, b: Result<Vec<T>, String>| {
        let dev = match b {
            Ok(b) => b[c.result()].iter().zip(&y0).map(|(u, v)| units(u.to() - v, unit)).max().unwrap_or(0),
            Err(_) => BAD,
        };
        put(f, sl, dev);
    };
    let sizes = [adv, adv + 1, adv + n, adv + 3 * n + 1, 2 * adv + 1, adv + 2, adv + rng.below(9 * n as u64 + 2) as usize, 2 * adv.next_power_of_two() + 4 * n];
    let fills = ["nan", "inf", "huge", "rand", "neg", "tiny", "sparse", "zerofirst", "zerolast"];
    for k in 0..fills.len() {
        let sl = sizes[k % sizes.len()];
        // every size and every fill, and the exact size with every fill
        for (sl, f) in [(sl, fills[(k + n + cls) % fills.len()]), (adv, fills[k]), (sl, "nan")] {
            let b = guard(|| {
                let mut b = load(&c, &x);
                let mut s: Vec<T> = (0..sl).map(|i| fill_value(f, i, sl, &mut rng)).collect();
                c.go(&mut b, &mut s);
                b
            });
            push(f, sl as i64, b);
        }
    }
    // leftovers: the scratch another call of the same size class has used
    let b = guard(|| {
        let mut s: Vec<T> = vec![T::zero(); adv + n];
        let x2: Vec<f64> = (0..c.inputs()).map(|_| T::of(1e3 * rng.unit()).to()).collect();
        c.go(&mut load(&c, &x2), &mut s);
        if let Call::Sig(i, _) = &c {
            for &o in i.ops() {
                i.call(o, &mut load(&c, &x2), &mut s);
            }
        }
        let mut b = load(&c, &x);
        c.go(&mut b, &mut s);
        b
    });
    push("leftover", (adv + n) as i64, b);
    // and the one a call of the very same kind has used, on related data too
    for k in 0..4 {
        let sl = adv + k % 2;
        let b = guard(|| {
            let mut s: Vec<T> = vec![T::zero(); sl];
            let mut x2 = x.clone();
            let m = x2.len();
            match k {
                0 => x2.iter_mut().for_each(|v| *v = T::of(-2.0 * *v).to()),
                1 => x2[m - 1] = T::of(1.0 + rng.unit()).to(),
                2 => x2[m / 2..].iter_mut().for_each(|v| *v = T::of(rng.unit()).to()),
                _ => x2.reverse(),
            }
            c.go(&mut load(&c, &x2), &mut s);
            let mut b = load(&c, &x);
            c.go(&mut b, &mut s);
            b
        });
        push("leftover", sl as i64, b);
    }
    if n <= 64 || n % 64 == 0 {
        // a lot more of it than anything needs
        let sl = adv + [1 << 10, 1 << 12, 1 << 15, 1 << 16, (1 << 16) + 7][(n + cls) % 5];
        let b = guard(|| {
            let mut b = load(&c, &x);
            c.go(&mut b, &mut vec![T::of(f64::NAN); sl]);
            b
        });
        push("nan", sl as i64, b);
    }
    if c.has_conv() {
        let b = guard(|| {
            let mut b = load(&c, &x);
            c.conv(&mut b);
            b
        });
        push("conv", -1, b);
    }
    Ok((n, adv))
}
fn fill_value<T: Fl>(f: &str, i: usize, len: usize, rng: &mut Rng) -> T {
    let v = 100.0 * rng.unit();
    match f {
        // zeros where a program might look for leftovers
        "sparse" => T::of(if rng.below(3) == 0 { v } else { 0.0 }),
        "zerofirst" => T::of(if i == 0 || i == len / 2 { 0.0 } else { v }),
        "zerolast" => T::of(if i + 1 == len { 0.0 } else { v }),
        "nan" => T::of(f64::NAN),
        "inf" => T::of(if i % 2 == 0 { f64::INFINITY } else { f64::NEG_INFINITY }),
        "huge" => T::of(T::BIG * T::BIG * (1.0 + i as f64)),
        "neg" => T::of(-1.0 - i as f64),
        "tiny" => T::of(1e-30),
        _ => T::of(v),
    }
}
pub fn scratch(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let ds = descs(a);
    // every object with random data and with `more` other inputs, up to `small` with all of them
    let more = a.num("more", 1) as usize;
    let small = a.num("small", 0) as usize;
    par(ds.len(), a.threads(), |k| {
        let mut rng = Rng::new(seed, 0x77 << 40 | k as u64);
        let mut cs = vec![0];
        if ds[k].len() <= small {
            cs.extend(1..CLASSES);
        } else {
            cs.extend((0..more).map(|_| rng.range(1, CLASSES - 1)));
        }
        out.line(&scratch_one::<f64>(&ds[k], &cs, seed));
        out.line(&scratch_one::<f32>(&ds[k], &cs, seed));
    });
    out.flush();
    println!("STAT items={}", 2 * ds.len());
}

fn alloc_one<T: Fl>(d: &Desc, seed: u64, callers: usize) -> String {
    let mut rng = Rng::new(seed, 0x77 ^ (d.len() as u64) << 8);
    let r = guard(|| {
        let c: Call<T> = d.call();
        let adv = c.adv();
        let mut worst = 0;
        let mut conv = 0;
        let mut calls = 0;
        // special values included: the first call and later ones
        let classes = if c.len() <= 128 { CLASSES } else { 6 };
        for k in 0..5 + classes {
            let x: Vec<f64> = match k {
                0 | 1 => (0..c.inputs()).map(|_| T::of(rng.unit()).to()).collect(),
                2 => vec![f64::NAN; c.inputs()],
                3 => (0..c.inputs()).map(|i| if i % 2 == 0 { f64::INFINITY } else { -0.0 }).collect(),
                4 => (0..c.inputs()).map(|_| T::of(1e-300 * rng.unit()).to()).collect(),
                _ if classes == CLASSES => signal::<T>(&mut rng, c.inputs(), k - 5),
                _ => {
                    let cls = rng.range(0, CLASSES - 1);
                    signal::<T>(&mut rng, c.inputs(), cls)
                }
            };
            let mut b = load(&c, &x);
            let mut s = vec![T::zero(); adv + if k % 2 == 1 { 5 + adv } else { 0 }];
            let (_, n1, _) = metered(|| c.go(&mut b, &mut s));
            worst = worst.max(n1);
            calls += 1;
            if c.has_conv() {
                let mut b = load(&c, &x);
                let (_, _, by) = metered(|| c.conv(&mut b));
                conv = conv.max(by);
                calls += 1;
            }
        }
        // very often
        let mut b = load(&c, &vec![0.5; c.inputs()]);
        let mut s = vec![T::zero(); adv];
        let more = (3_000_000 / (c.len() * c.len() + 20)).min(70_000);
        let (_, n1, _) = metered(|| (0..more).for_each(|_| c.go(&mut b, &mut s)));
        worst = worst.max(n1);
        calls += more;
        // several callers at the same time
        let rounds = if callers < 2 { 0 } else { (400_000 / (c.len() * c.len() + 20)).clamp(20, 3000) };
        if callers > 1 {
            let bar = std::sync::Barrier::new(callers);
            let found: Vec<_> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..callers)
                    .map(|_| {
                        let (c, bar) = (&c, &bar);
                        sc.spawn(move || {
                            let mut b = load(c, &vec![0.5; c.inputs()]);
                            let mut s = vec![T::zero(); adv];
                            bar.wait();
                            metered(|| (0..rounds).for_each(|_| c.go(&mut b, &mut s))).1
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| std::panic::panic_any("a caller died"))).collect()
            });
            worst = worst.max(found.into_iter().max().unwrap());
            calls += callers * rounds;
        }
        format!(
            r#"{{"e":"alloc","T":"{}","alg":"{}","op":"{}","n":{},"adv":{adv},"size":{},"calls":{calls},"with":{worst},"conv":{conv}}}"#,
            T::NAME, d.text(), d.op(), c.len(), std::mem::size_of::<T>()
        )
    });
    r.unwrap_or_else(|e| panic_line(d, T::NAME, &e))
}
pub fn alloc(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let ds = descs(a);
    let callers = a.num("callers", 1) as usize;
    par(ds.len(), if callers > 1 { 2 } else { a.threads() }, |k| {
        out.line(&alloc_one::<f64>(&ds[k], seed, callers));
        out.line(&alloc_one::<f32>(&ds[k], seed, callers));
    });
    out.flush();
    println!("STAT items={}", 2 * ds.len());
}

// ---------------------------------------------------------------------------------------
// results as a function of the input alone

pub fn hash<T: Fl>(v: &[T]) -> (u32, u32) {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        h = (h ^ x.bits()).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    ((h & 0x3fff_ffff) as u32, (h >> 34) as u32)
}
pub type Seen = std::collections::BTreeMap<(usize, u32, u32), u64>;

/// calls of one instance's ops on a small set of inputs; one record per distinct (input, result)
pub fn memo_line(d: &str, n: usize, t: &str, mode: &str, seen: &Seen) -> String {
    format!(
        r#"{{"e":"memo","T":"{t}","alg":"{}","n":{n},"mode":"{mode}","seen":{}}}"#,
        esc(d),
        arr(seen.iter().map(|((x, a, b), c)| format!("[{x},{a},{b},{}]", (*c).min(1 << 30))))
    )
}
pub const INPUTS: usize = 23;
/// some inputs, and some that agree with the first one in part
pub fn input_of<T: Fl>(c: &Call<T>, q: usize) -> Vec<f64> {
    let n = c.inputs();
    let other = |q: usize, cls: usize| signal::<T>(&mut Rng::new(99, (c.len() * INPUTS + q) as u64), n, cls);
    if q < 10 {
        return other(q, [0, 6, 1, 7, 11, 4, 12, 16, 19, 3][q]);
    }
    let base = other(0, 0);
    match q {
        10 => return base.iter().rev().cloned().collect(),
        11 => return base.iter().map(|v| -v).collect(),
        12 => return vec![0.0; n],
        13 => {
            let mut v = base;
            v.swap(n / 3, n - 1 - n / 4);
            return v;
        }
        _ => {}
    }
    let mut v = other(q, 0);
    let (a, z) = ((n * 5) / 7, n / 2);
    for i in 0..n {
        let kept = match q {
            14 => i != a,
            15 => i < z,
            16 => i >= z,
            17 => i == 0 || i + 1 == n,
            18 => i % 8 == 0,
            19 => i % 2 == 0,
            20 => i + 1 != n,
            21 => i != 0,
            _ => i != z,
        };
        if kept {
            v[i] = base[i];
        }
    }
    v
}
/// all ops of the instance behind a description
pub fn calls_of<T: Fl>(d: &Desc) -> Vec<Call<T>> {
    match d.call::<T>() {
        Call::Sig(i, _) => i.ops().iter().map(|&o| Call::Sig(i.clone(), o)).collect(),
        Call::Fwd(m) | Call::Bwd(m) => vec![Call::Fwd(m.clone()), Call::Bwd(m)],
    }
}

fn seq_memo<T: Fl>(d: &Desc, steps: usize, seed: u64, others: &[Call<T>]) -> String {
    let r = guard(|| {
        let cs: Vec<Call<T>> = calls_of(d);
        let mut rng = Rng::new(seed, 0x3117 ^ d.len() as u64);
        let xs: Vec<Vec<Vec<T>>> = cs.iter().map(|c| (0..INPUTS).map(|q| load(c, &input_of(c, q))).collect()).collect();
        let mut seen = Seen::new();
        let mut b = vec![];
        let mut s = vec![T::zero(); cs[0].adv() + 3];
        // each input on an instance of its own
        for q in 0..INPUTS {
            let alone: Vec<Call<T>> = if q < 2 { calls_of(d) } else { cs.clone() };
            for w in 0..cs.len() {
                b.clear();
                b.extend_from_slice(&xs[w][q]);
                alone[w].go(&mut b, &mut s);
                let (h1, h2) = hash(&b[cs[w].result()]);
                *seen.entry((w * 100 + q, h1, h2)).or_insert(0) += 1;
            }
        }
        let (mut w, mut q) = (0, 0);
        for k in 0..steps {
            // stays with one op for a while; related inputs follow each other
            if k % 4 == 0 || cs.len() == 1 {
                w = rng.below(cs.len() as u64) as usize;
            }
            q = if q > 9 && rng.below(3) == 0 { 0 } else { rng.below(INPUTS as u64) as usize };
            // wherever the buffer and the scratch lie
            let (at, sat) = if k % 3 == 0 { (0, 0) } else { (k * 5 % 17, k * 3 % 16) };
            b.clear();
            b.resize(at, T::one());
            b.extend_from_slice(&xs[w][q]);
            s.resize(cs[w].adv() + 19, T::one());
            cs[w].go(&mut b[at..], &mut s[sat..]);
            let (h1, h2) = hash(&b[at..][cs[w].result()]);
            *seen.entry((w * 100 + q, h1, h2)).or_insert(0) += 1;
            // a rejected call, and a call of something else, now and then
            if k % 97 == 50 {
                let _ = guard(|| cs[w].go(&mut vec![T::one(); cs[w].cells()], &mut vec![T::one(); cs[w].adv().saturating_sub(1)]));
            }
            // what cannot be computed with leaves no trace either
            if k % 17 == 9 {
                let bad = [f64::NAN, f64::INFINITY, 0.0][k % 3];
                let mut ob = vec![T::of(bad); cs[w].cells()];
                cs[w].go(&mut ob, &mut s);
            }
            if k % 13 == 5 && !others.is_empty() {
                let o = &others[rng.below(others.len() as u64) as usize];
                let mut ob = load(o, &input_of(o, q));
                let mut os = vec![T::one(); o.adv()];
                o.go(&mut ob, &mut os);
            }
        }
        memo_line(&d.text(), d.len(), T::NAME, "sequence", &seen)
    });
    r.unwrap_or_else(|e| panic_line(d, T::NAME, &e))
}
fn par_memo<T: Fl>(d: &Desc, threads: usize, rounds: usize) -> String {
    let r = guard(|| {
        let cs: Vec<Call<T>> = calls_of(d);
        let mut seen = Seen::new();
        let xs: Vec<Vec<Vec<T>>> = cs.iter().map(|c| (0..INPUTS).map(|q| load(c, &input_of(c, q))).collect()).collect();
        // alone
        for w in 0..cs.len() {
            for q in 0..INPUTS {
                let mut b = xs[w][q].clone();
                cs[w].go(&mut b, &mut vec![T::zero(); cs[w].adv()]);
                let (h1, h2) = hash(&b[cs[w].result()]);
                *seen.entry((w * 100 + q, h1, h2)).or_insert(0) += 1;
            }
        }
        let all = std::sync::Mutex::new(&mut seen);
        let bar = std::sync::Barrier::new(threads);
        let failed = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (cs, xs, all, bar, failed) = (&cs, &xs, &all, &bar, &failed);
                sc.spawn(move || {
                    let mut mine = Seen::new();
                    let mut s = vec![T::zero(); cs[0].adv()];
                    let mut b: Vec<T> = vec![];
                    bar.wait();
                    let r = guard(|| {
                        for k in 0..rounds {
                            // half of the time everybody calls the same op
                            let w = if k % 2 == 0 { (k / 2) % cs.len() } else { (t + k) % cs.len() };
                            let q = (t + k / 3) % INPUTS;
                            b.clear();
                            b.extend_from_slice(&xs[w][q]);
                            cs[w].go(&mut b, &mut s);
                            let (h1, h2) = hash(&b[cs[w].result()]);
                            *mine.entry((w * 100 + q, h1, h2)).or_insert(0) += 1;
                        }
                    });
                    if r.is_err() {
                        failed.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                    let mut g = all.lock().unwrap();
                    for (k, c) in mine {
                        *g.entry(k).or_insert(0) += c;
                    }
                });
            }
        });
        if failed.load(std::sync::atomic::Ordering::SeqCst) {
            return panic_line(d, T::NAME, "panic while other threads were calling");
        }
        memo_line(&d.text(), d.len(), T::NAME, "threads", &seen)
    });
    r.unwrap_or_else(|e| panic_line(d, T::NAME, &e))
}
pub fn memo(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let ds = descs(a);
    let work = a.num("work", 400_000) as usize;
    let others: Vec<Desc> = [(Op::Dct2, 12), (Op::Dct4, 8), (Op::Dst1, 30), (Op::Dct2, 32), (Op::Dst6, 46), (Op::Dct4, 9)]
        .iter()
        .map(|(o, n)| Desc::P(*o, *n))
        .collect();
    if a.str("mode", "sequence") == "sequence" {
        par(ds.len(), a.threads(), |k| {
            let n = ds[k].len();
            // small instances are called very often
            let steps = (a.num("seqwork", 2_000_000) as usize / (n * n + 8)).clamp(60, a.num("max", 70_000) as usize);
            let o64: Vec<Call<f64>> = others.iter().map(|d| d.call()).collect();
            out.line(&seq_memo::<f64>(&ds[k], steps, seed, &o64));
            let o32: Vec<Call<f32>> = others.iter().map(|d| d.call()).collect();
            out.line(&seq_memo::<f32>(&ds[k], steps, seed, &o32));
        });
    } else {
        let callers = a.num("callers", 8) as usize;
        for (k, d) in ds.iter().enumerate() {
            let n = d.len();
            let rounds = (work / (n * n + 8)).clamp(30, a.num("max", 2000) as usize);
            if k % 3 != 2 {
                out.line(&par_memo::<f64>(d, callers, rounds));
            } else {
                out.line(&par_memo::<f32>(d, callers, rounds));
            }
        }
    }
    out.flush();
    println!("STAT items={}", ds.len());
}
