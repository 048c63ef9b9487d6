//! Runs the real code over GF(p) and records inputs and results; TLC recomputes them.
use crate::gf::{self, FieldVal, Gf, GfEight, GfSixteen, GfTwo, GfWide};
use crate::kinds::*;
use crate::refeval;
use crate::util::*;
use crate::Args;
use rustdct::{DctNum, DctPlanner};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn lcm(a: u64, b: u64) -> u64 {
    a / gcd(a, b) * b
}
/// fields in which every constant of the wanted modulus exists, best first
pub fn fields(m: u64, limit: usize) -> Vec<u32> {
    let mut v = vec![];
    for mult in [1u64, 3, 2, 4, 8, 5, 7, 16, 32, 9, 15, 64, 128, 11, 13, 21, 12, 24, 48, 256] {
        let l = lcm(lcm(m, 8), m.max(1) * mult);
        let mut c = l + 1;
        let mut found = 0;
        while c < 46341 && found < 2 {
            if c >= 600 && gf::is_prime(c as u32) && !v.contains(&(c as u32)) {
                v.push(c as u32);
                found += 1;
            }
            c += l;
        }
        if v.len() >= limit {
            break;
        }
    }
    v.truncate(limit);
    v
}

pub fn vec_gf<T: FieldVal>(v: &[u32]) -> Vec<T> {
    v.iter().map(|&a| T::mk(a)).collect()
}
pub fn vals<T: FieldVal>(v: &[T]) -> Vec<u32> {
    v.iter().map(|a| a.val()).collect()
}
pub fn input(rng: &mut Rng, n: usize, cls: usize, p: u32) -> Vec<u32> {
    match cls {
        0 => (0..n).map(|_| rng.below(p as u64) as u32).collect(),
        // sparse
        1 => (0..n).map(|_| if rng.below(4) == 0 { rng.below(p as u64) as u32 } else { 0 }).collect(),
        // leading and trailing zeros
        2 => {
            let a = rng.range(0, n - 1);
            (0..n).map(|i| if i < a || i + 1 == n { 0 } else { 1 + rng.below(p as u64 - 1) as u32 }).collect()
        }
        // constant
        3 => {
            let c = 1 + rng.below(p as u64 - 1) as u32;
            vec![c; n]
        }
        // palindrome
        4 => {
            let mut v: Vec<u32> = (0..n).map(|_| rng.below(p as u64) as u32).collect();
            for i in 0..n / 2 {
                v[n - 1 - i] = v[i];
            }
            v
        }
        // one value, or one with alternating signs: everywhere, at the start, at the end, but once
        12..=17 => {
            let c = 1 + rng.below(p as u64 - 1) as u32;
            let (z, y) = (rng.range(n.min(3), n), rng.range(0, n - 1));
            (0..n)
                .map(|i| {
                    let at = match cls {
                        12 => true,
                        13 | 14 => i < z,
                        15 => i + z >= n,
                        _ => i != y,
                    };
                    match (at, cls != 14 && cls != 17 && i % 2 == 1) {
                        (false, _) => rng.below(p as u64) as u32,
                        (_, true) => p - c,
                        _ => c,
                    }
                })
                .collect()
        }
        // silence at the ends, in a half, everywhere; repetition
        c => {
            let h = n.div_ceil(2);
            let mut v: Vec<u32> = (0..n).map(|_| 1 + rng.below(p as u64 - 1) as u32).collect();
            for i in 0..n {
                let zero = match c {
                    5 => i == 0,
                    6 => i == 0 || i + 1 == n,
                    7 => i < n / 2,
                    8 => i >= h,
                    9 => i % 2 == 1,
                    10 => true,
                    _ => false,
                };
                if zero {
                    v[i] = 0;
                } else if c == 11 && i >= h {
                    v[i] = v[i - h];
                }
            }
            v
        }
    }
}

/// a window of any shape (any_window of fl.rs, over the field)
fn window_gf(rng: &mut Rng, n: usize, cls: usize, p: u32) -> Vec<u32> {
    let m = 2 * n;
    let mut w: Vec<u32> = input(rng, m, 0, p);
    match cls {
        1 => w.fill(1),
        2 => (w[0], w[m - 1]) = (1, 1),
        3 => (w[0], w[m - 1]) = (0, 0),
        4 => {
            for j in 0..n {
                w[m - 1 - j] = w[j];
            }
        }
        5 => {
            for j in 0..n {
                w[n + j] = w[j];
            }
        }
        6 => w[..n].fill(0),
        7 => w[n..].fill(1),
        8 => (0..m).for_each(|j| if rng.below(3) == 0 { w[j] = rng.below(2) as u32 }),
        9 => w[1..m - 1].fill(1),
        10 => w.fill(p - 1),
        11 => {
            for j in 0..n {
                let x = if j < n / 4 { 0 } else if j >= n - n / 4 { 1 } else { w[j] };
                w[j] = x;
                w[m - 1 - j] = x;
            }
        }
        _ => {}
    }
    w
}

struct Stat {
    ok: AtomicU64,
    inconclusive: AtomicU64,
}

/// Runs `attempt` in suitable fields until one has images for all constants that are needed.
fn in_field(st: &Stat, m: u64, tries: usize, attempt: impl Fn(u32, u32) -> Result<String, String>) -> Option<String> {
    for p in fields(m, tries) {
        let g = gf::set_field(p);
        gf::take_unknown();
        let r = attempt(p, g);
        let unk = gf::take_unknown();
        match r {
            // a panic with unmapped constants may be the constants' fault
            Err(_) if unk > 0 => continue,
            Err(e) => {
                st.ok.fetch_add(1, Relaxed);
                return Some(e);
            }
            Ok(_) if unk > 0 => continue,
            Ok(s) => {
                st.ok.fetch_add(1, Relaxed);
                return Some(s);
            }
        }
    }
    st.inconclusive.fetch_add(1, Relaxed);
    None
}

enum Item {
    Fn(Op, usize, Option<D>),
    Round(Op, usize),
    Mdct(MD),
    Imdct(MD),
    Tdac(MD),
    InPlace(Op, usize),
}

fn label(d: &Option<D>) -> String {
    d.as_ref().map_or("planned".into(), |d| d.text())
}

fn one_fn<T: DctNum + FieldVal>(op: Op, n: usize, d: &Option<D>, cls: usize, seed: u64, p: u32, g: u32) -> Result<String, String> {
    let mut rng = Rng::new(seed, (op as u64) << 40 ^ (n as u64) << 8 ^ cls as u64);
    let x = input(&mut rng, n, cls, p);
    let r = guard(|| {
        let inst: Inst<T> = match d {
            None => plan(&mut DctPlanner::new(), op, n),
            Some(d) => d.build(),
        };
        let mut b: Vec<T> = vec_gf(&x);
        if cls % 2 == 0 {
            let mut s: Vec<T> = vec_gf(&vec![0; inst.scratch_len()]);
            inst.call(op, &mut b, &mut s);
        } else {
            inst.call_conv(op, &mut b);
        }
        (inst.len(), vals(&b))
    });
    match r {
        Ok((len, y)) => Ok(format!(
            r#"{{"e":"fn","alg":"{}","op":"{}","n":{n},"len":{len},"p":{p},"g":{g},"x":{},"y":{}}}"#,
            label(d), op.name(), arr(&x), arr(&y)
        )),
        Err(e) => Err(format!(r#"{{"e":"panic","alg":"{}","op":"{}","n":{n},"msg":"{}"}}"#, label(d), op.name(), esc(&e))),
    }
}

fn inplace<T: DctNum + FieldVal>(op: Op, n: usize, seed: u64, p: u32, g: u32) -> Result<String, String> {
    use rustdct::algorithm::type2and3_butterflies::*;
    let mut rng = Rng::new(seed, 77 ^ (op as u64) << 40 ^ (n as u64) << 8);
    let x = input(&mut rng, n, 0, p);
    macro_rules! go {
        ($b:expr, $v:ident) => {{
            let b = $b;
            unsafe {
                match op {
                    Op::Dct2 => b.process_inplace_dct2(&mut $v),
                    Op::Dct3 => b.process_inplace_dct3(&mut $v),
                    Op::Dst2 => b.process_inplace_dst2(&mut $v),
                    _ => b.process_inplace_dst3(&mut $v),
                }
            }
        }};
    }
    let r = guard(|| {
        let mut v: Vec<T> = vec_gf(&x);
        match n {
            2 => go!(Type2And3Butterfly2::<T>::new(), v),
            3 => go!(Type2And3Butterfly3::<T>::new(), v),
            4 => go!(Type2And3Butterfly4::<T>::new(), v),
            8 => go!(Type2And3Butterfly8::<T>::new(), v),
            _ => go!(Type2And3Butterfly16::<T>::new(), v),
        }
        vals(&v)
    });
    match r {
        Ok(y) => Ok(format!(
            r#"{{"e":"fn","alg":"Type2And3Butterfly{n}::process_inplace","op":"{}","n":{n},"len":{n},"p":{p},"g":{g},"x":{},"y":{}}}"#,
            op.name(), arr(&x), arr(&y)
        )),
        Err(e) => Err(format!(r#"{{"e":"panic","alg":"inplace","op":"{}","n":{n},"msg":"{}"}}"#, op.name(), esc(&e))),
    }
}

fn round<T: DctNum + FieldVal>(op: Op, n: usize, seed: u64, p: u32, g: u32) -> Result<String, String> {
    let mut rng = Rng::new(seed, 3 ^ (op as u64) << 40 ^ (n as u64) << 8);
    let x = input(&mut rng, n, 0, p);
    let inv = op.inverse().0;
    let r = guard(|| {
        let mut pl = DctPlanner::<T>::new();
        let a = plan(&mut pl, op, n);
        let b = plan(&mut pl, inv, n);
        let mut v: Vec<T> = vec_gf(&x);
        a.call_conv(op, &mut v);
        b.call_conv(inv, &mut v);
        vals(&v)
    });
    match r {
        Ok(y) => Ok(format!(
            r#"{{"e":"round","op":"{}","inv":"{}","n":{n},"p":{p},"g":{g},"x":{},"y":{}}}"#,
            op.name(), inv.name(), arr(&x), arr(&y)
        )),
        Err(e) => Err(format!(r#"{{"e":"panic","alg":"round","op":"{}","n":{n},"msg":"{}"}}"#, op.name(), esc(&e))),
    }
}

fn mdct<T: DctNum + FieldVal>(d: &MD, cls: usize, seed: u64, p: u32, g: u32) -> Result<String, String> {
    let n = d.len();
    let mut rng = Rng::new(seed, 5 ^ (n as u64) << 8 ^ cls as u64);
    let w = window_gf(&mut rng, n, if cls == 0 { 0 } else { (cls + n / 2) % 12 }, p);
    let a = input(&mut rng, n, cls, p);
    let mut b = input(&mut rng, n, if cls == 0 { 0 } else { 1 + (cls * 5) % 17 }, p);
    // where the inputs lie: anywhere, one after the other either way round, at the same place, overlapping
    let lay = if cls == 0 { 0 } else { rng.below(6) };
    let shift = if lay == 5 { rng.range(1, n - 1) } else { 0 };
    if lay >= 4 {
        b = a[shift..].iter().chain(&b[..shift]).cloned().collect();
    }
    let r = guard(|| {
        let inst = d.build(vec_gf::<T>(&w));
        let (va, vb): (Vec<T>, Vec<T>) = (vec_gf(&a), vec_gf(&b));
        let mut out: Vec<T> = vec_gf(&input(&mut rng, n, 0, p));
        let mut s: Vec<T> = vec_gf(&vec![0; inst.get_scratch_len()]);
        let two = |x: &[T], y: &[T]| -> Vec<T> { x.iter().chain(y).cloned().collect() };
        let (all, ia, ib) = match lay {
            0 | 1 => (vec![], 0, 0),
            2 => (two(&va, &vb), 0, n),
            3 => (two(&vb, &va), n, 0),
            _ => (two(&va, &vb[n - shift..]), 0, shift),
        };
        if all.is_empty() {
            inst.process_mdct_with_scratch(&va, &vb, &mut out, &mut s);
            return (inst.len(), vals(&out), vals(&va), vals(&vb));
        }
        inst.process_mdct_with_scratch(&all[ia..ia + n], &all[ib..ib + n], &mut out, &mut s);
        (inst.len(), vals(&out), vals(&all[ia..ia + n]), vals(&all[ib..ib + n]))
    });
    match r {
        Ok((len, o, a2, b2)) => Ok(format!(
            r#"{{"e":"mdct","alg":"{}","n":{n},"len":{len},"p":{p},"g":{g},"w":{},"a":{},"b":{},"a2":{},"b2":{},"out":{}}}"#,
            d.text(), arr(&w), arr(&a), arr(&b), arr(&a2), arr(&b2), arr(&o)
        )),
        Err(e) => Err(format!(r#"{{"e":"panic","alg":"mdct {}","n":{n},"msg":"{}"}}"#, d.text(), esc(&e))),
    }
}

fn imdct<T: DctNum + FieldVal>(d: &MD, cls: usize, seed: u64, p: u32, g: u32) -> Result<String, String> {
    let n = d.len();
    let mut rng = Rng::new(seed, 9 ^ (n as u64) << 8 ^ cls as u64);
    let w = window_gf(&mut rng, n, if cls == 0 { 0 } else { (cls + n / 2) % 12 }, p);
    let x = input(&mut rng, n, cls, p);
    // what is in the output before: accumulated upon, whatever it is
    let oa0 = input(&mut rng, n, if cls == 0 { 0 } else { (cls * 7 + n / 2) % 12 }, p);
    let ob0 = input(&mut rng, n, if cls == 0 { 0 } else { (cls * 5 + n / 2) % 12 }, p);
    let reps = if cls == 1 { 3 } else { 1 };
    let r = guard(|| {
        let inst = d.build(vec_gf::<T>(&w));
        let vx: Vec<T> = vec_gf(&x);
        let (mut oa, mut ob): (Vec<T>, Vec<T>) = (vec_gf(&oa0), vec_gf(&ob0));
        let mut s: Vec<T> = vec_gf(&vec![0; inst.get_scratch_len()]);
        for _ in 0..reps {
            inst.process_imdct_with_scratch(&vx, &mut oa, &mut ob, &mut s);
        }
        (inst.len(), vals(&oa), vals(&ob), vals(&vx))
    });
    match r {
        Ok((len, oa, ob, x2)) => Ok(format!(
            r#"{{"e":"imdct","alg":"{}","n":{n},"len":{len},"p":{p},"g":{g},"reps":{reps},"w":{},"x":{},"x2":{},"oa0":{},"ob0":{},"oa":{},"ob":{}}}"#,
            d.text(), arr(&w), arr(&x), arr(&x2), arr(&oa0), arr(&ob0), arr(&oa), arr(&ob)
        )),
        Err(e) => Err(format!(r#"{{"e":"panic","alg":"imdct {}","n":{n},"msg":"{}"}}"#, d.text(), esc(&e))),
    }
}

/// a symmetric window with w[j]^2 + w[j+n]^2 = pc
pub fn pc_window(rng: &mut Rng, n: usize, kind: usize, p: u32) -> (Vec<u32>, u32) {
    if kind == 0 {
        return (vec![1; 2 * n], 2);
    }
    let mut h = vec![0u32; n]; // first half, h[j]^2 + h[n-1-j]^2 = 1
    for j in 0..n / 2 {
        loop {
            let t = rng.below(p as u64) as u32;
            let t2 = gf::mulm(t, t, p);
            let den = (1 + t2) % p;
            if den == 0 {
                continue;
            }
            let di = gf::inv(den, p);
            h[j] = gf::mulm((1 + p - t2) % p, di, p);
            h[n - 1 - j] = gf::mulm(2 * t % p, di, p);
            break;
        }
    }
    let mut w = h.clone();
    w.extend(h.iter().rev());
    (w, 1)
}

fn tdac<T: DctNum + FieldVal>(d: &MD, kind: usize, segs: usize, seed: u64, p: u32, g: u32) -> Result<String, String> {
    let n = d.len();
    let mut rng = Rng::new(seed, 13 ^ (n as u64) << 8 ^ kind as u64);
    let (w, pc) = pc_window(&mut rng, n, kind, p);
    let total = n * (segs + 1);
    let sig = input(&mut rng, total, 0, p);
    let r = guard(|| {
        let inst = d.build(vec_gf::<T>(&w));
        let vs: Vec<T> = vec_gf(&sig);
        let mut rec: Vec<T> = vec_gf(&vec![0; total]);
        let mut s: Vec<T> = vec_gf(&vec![0; inst.get_scratch_len()]);
        let mut spec: Vec<T> = vec_gf(&input(&mut rng, n, 0, p));
        for q in 0..segs {
            inst.process_mdct_with_scratch(&vs[q * n..(q + 1) * n], &vs[(q + 1) * n..(q + 2) * n], &mut spec, &mut s);
            let (oa, ob) = rec[q * n..(q + 2) * n].split_at_mut(n);
            inst.process_imdct_with_scratch(&spec, oa, ob, &mut s);
        }
        vals(&rec)
    });
    // scale = 2 / (n pc)
    match r {
        Ok(rec) => Ok(format!(
            r#"{{"e":"tdac","alg":"{}","n":{n},"segs":{segs},"p":{p},"g":{g},"pc":{pc},"s1":{},"s2":2,"w":{},"sig":{},"rec":{}}}"#,
            d.text(), n as u32 * pc, arr(&w), arr(&sig), arr(&rec)
        )),
        Err(e) => Err(format!(r#"{{"e":"panic","alg":"tdac {}","n":{n},"msg":"{}"}}"#, d.text(), esc(&e))),
    }
}

pub fn mdct_descs(n: usize, spies: bool) -> Vec<MD> {
    let mut v = vec![MD::Planned(n), MD::Naive(n), MD::Via(D::T4Naive(n))];
    for d in direct_descs(Op::Dct4, n, spies) {
        v.push(MD::Via(d));
    }
    v
}

pub fn run(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let ops: Vec<Op> = a.list("ops").iter().map(|s| Op::parse(s)).collect();
    let lens = a.lens("lens");
    let classes: Vec<usize> = a.lens("cls");
    let t = a.str("t", "gf");
    let mut items: Vec<(Item, usize)> = vec![];
    for what in a.list("what") {
        for &n in &lens {
            match what.as_str() {
                "planned" => {
                    for &op in &ops {
                        if n >= op.min_len() {
                            for &c in &classes {
                                items.push((Item::Fn(op, n, None), c));
                            }
                        }
                    }
                }
                "direct" => {
                    for &op in &ops {
                        if n >= op.min_len() {
                            for d in direct_descs(op, n, true) {
                                for &c in &classes {
                                    items.push((Item::Fn(op, n, Some(d.clone())), c));
                                }
                            }
                        }
                    }
                }
                "inplace" => {
                    for op in [Op::Dct2, Op::Dct3, Op::Dst2, Op::Dst3] {
                        if [2, 3, 4, 8, 16].contains(&n) {
                            items.push((Item::InPlace(op, n), 0));
                        }
                    }
                }
                "round" => {
                    for &op in &ops {
                        if n >= op.min_len() {
                            items.push((Item::Round(op, n), 0));
                        }
                    }
                }
                "mdct" | "imdct" | "tdac" | "mdct-planned" | "imdct-planned" | "tdac-planned" if n % 2 == 0 => {
                    let ds = if what.ends_with("planned") { vec![MD::Planned(n), MD::Naive(n)] } else { mdct_descs(n, true) };
                    for d in ds {
                        for &c in &classes {
                            items.push((
                                match what.split('-').next().unwrap() {
                                    "mdct" => Item::Mdct(d.clone()),
                                    "imdct" => Item::Imdct(d.clone()),
                                    _ => Item::Tdac(d.clone()),
                                },
                                c,
                            ));
                        }
                    }
                }
                "mdct" | "imdct" | "tdac" | "mdct-planned" | "imdct-planned" | "tdac-planned" => {}
                w => crate::tool_error(&format!("unknown exact item {w}")),
            }
        }
    }
    let st = Stat { ok: AtomicU64::new(0), inconclusive: AtomicU64::new(0) };
    let tries = a.num("tries", 12) as usize;
    let lines: Vec<std::sync::Mutex<Option<String>>> = items.iter().map(|_| std::sync::Mutex::new(None)).collect();
    macro_rules! pick {
        ($f:ident ( $($x:expr),* )) => { match t.as_str() {
            "gf" => $f::<Gf>($($x),*),
            "two" => $f::<GfTwo>($($x),*),
            "eight" => $f::<GfEight>($($x),*),
            "sixteen" => $f::<GfSixteen>($($x),*),
            _ => $f::<GfWide>($($x),*),
        } };
    }
    par(items.len(), a.threads(), |k| {
        let (item, c) = &items[k];
        let r = match item {
            Item::Fn(op, n, d) => in_field(&st, refeval::form(*op, *n).m, tries, |p, g| pick!(one_fn(*op, *n, d, *c, seed, p, g))),
            Item::InPlace(op, n) => in_field(&st, refeval::form(*op, *n).m, tries, |p, g| pick!(inplace(*op, *n, seed, p, g))),
            Item::Round(op, n) => in_field(&st, lcm(refeval::form(*op, *n).m, refeval::form(op.inverse().0, *n).m), tries, |p, g| {
                pick!(round(*op, *n, seed, p, g))
            }),
            Item::Mdct(d) => in_field(&st, 8 * d.len() as u64, tries, |p, g| pick!(mdct(d, *c, seed, p, g))),
            Item::Imdct(d) => in_field(&st, 8 * d.len() as u64, tries, |p, g| pick!(imdct(d, *c, seed, p, g))),
            Item::Tdac(d) => in_field(&st, 8 * d.len() as u64, tries, |p, g| pick!(tdac(d, *c, 2 + *c, seed, p, g))),
        };
        *lines[k].lock().unwrap() = r;
    });
    for l in &lines {
        if let Some(s) = l.lock().unwrap().as_ref() {
            out.line(s);
        }
    }
    out.flush();
    println!("STAT items={} inconclusive={}", st.ok.load(Relaxed), st.inconclusive.load(Relaxed));
}
