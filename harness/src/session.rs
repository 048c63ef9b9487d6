//! Replays histories generated by the specification (GenSession) against real planners and
//! records what they returned, which objects were shared, and what calls computed.
use crate::kinds::*;
use crate::util::*;
use crate::Args;
use rustdct::mdct::Mdct;
use rustdct::{DctNum, DctPlanner};
use std::collections::HashMap;
use std::sync::Arc;

/// what a number type contributes to the record of a call
pub trait Num: DctNum {
    const NAME: &'static str;
    type Field: Copy + Send + Sync;
    fn field(a: &Args) -> Self::Field;
    /// to be called on every thread that computes
    fn enter(f: Self::Field);
    fn data(rng: &mut Rng, n: usize, cls: usize) -> Vec<Self>;
    /// values no correct transform may let through
    fn dirt(i: usize) -> Self;
    fn same(a: &[Self], b: &[Self]) -> bool;
    /// constants outside the field were asked for since the last question
    fn unknown() -> bool;
    /// the specification can evaluate this transform in this number type
    fn fits(op: Option<Op>, n: usize) -> bool;
    fn call(op: Op, n: usize, x: &[Self], y: &[Self]) -> String;
    fn mdct(n: usize, w: &[Self], a: &[Self], b: &[Self], y: &[Self]) -> String;
    fn imdct(n: usize, w: &[Self], x: &[Self], o0: &[Self], o: &[Self]) -> String;
}

struct Handle<T: DctNum> {
    inst: Option<Inst<T>>,
    op: Option<Op>,
    n: usize,
    w: Vec<T>,
    usable: bool,
}

/// window 1 of a history, and others that agree with it in part
fn window_of<T: Num>(n: usize, id: usize, salt: usize) -> Vec<T> {
    let m = 2 * n;
    let one = T::data(&mut Rng::new(1235, n as u64), m, 0);
    if id <= 1 || m == 0 {
        return one;
    }
    let mut v = T::data(&mut Rng::new(1234 + id as u64, n as u64), m, 0);
    let like = (id + salt) % 12;
    let odd = (5 * m / 7 + salt) % m;
    match like {
        10 => return one.into_iter().rev().collect(),
        11 => return one.into_iter().map(|x| -x).collect(),
        _ => {}
    }
    for i in 0..m {
        let kept = match like {
            1 => i < n,
            2 => i >= n,
            3 => i != odd,
            4 => i == 0 || i + 1 == m,
            5 => i % 8 == 0,
            6 => i % 2 == 0,
            7 => i + 1 != m,
            8 => i != 0,
            9 => i != n,
            _ => false,
        };
        if kept {
            v[i] = one[i];
        }
    }
    v
}

struct World<T: Num> {
    f: T::Field,
    rng: Rng,
    planners: HashMap<usize, DctPlanner<T>>,
    handles: Vec<Handle<T>>,
    ids: HashMap<usize, usize>,
    evs: Vec<String>,
    maxn: usize,
    salt: usize,
}
impl<T: Num> World<T> {
    fn label(&mut self, addr: usize) -> usize {
        let k = self.ids.len() + 1;
        *self.ids.entry(addr).or_insert(k)
    }
    fn plan(&mut self, p: usize, op: Op, n: usize) {
        T::unknown();
        let pl = self.planners.get_mut(&p).unwrap_or_else(|| crate::tool_error("history: no planner"));
        let r = guard(|| plan(pl, op, n));
        let usable = !T::unknown();
        let (ok, len, obj) = match &r {
            Ok(i) => (1, i.len(), self.label(i.addr())),
            Err(_) => (0, 0, 0),
        };
        self.evs.push(format!(
            r#"{{"a":"plan","p":{p},"op":"{}","n":{n},"ok":{ok},"len":{len},"obj":{obj}}}"#, op.name()
        ));
        self.handles.push(Handle { inst: r.ok(), op: Some(op), n, w: vec![], usable });
    }
    fn mdct(&mut self, p: usize, n: usize, wid: usize, kind: usize) {
        T::unknown();
        let w: Vec<T> = window_of(n, wid, self.salt);
        let pl = self.planners.get_mut(&p).unwrap_or_else(|| crate::tool_error("history: no planner"));
        let w2 = w.clone();
        let r = guard(|| {
            Inst::M(pl.plan_mdct(n, move |m| match kind {
                0 => w2,
                1 => w2[..m - 1].to_vec(),
                2 => [&w2[..], &w2[..1]].concat(),
                3 => panic!("window function"),
                _ => vec![],
            }))
        });
        let usable = !T::unknown();
        let (ok, len, obj) = match &r {
            Ok(i) => (1, i.len(), self.label(i.addr())),
            Err(_) => (0, 0, 0),
        };
        self.evs.push(format!(
            r#"{{"a":"mdct","p":{p},"n":{n},"w":{wid},"k":{kind},"ok":{ok},"len":{len},"obj":{obj}}}"#
        ));
        self.handles.push(Handle { inst: r.ok(), op: None, n, w, usable });
    }
    fn call(&mut self, h: usize, o: usize, style: usize) {
        let f = self.f;
        let Some(hd) = self.handles.get(h - 1) else { crate::tool_error("history: no handle") };
        let skip = |evs: &mut Vec<String>| evs.push(format!(r#"{{"a":"skip","h":{h}}}"#));
        let Some(inst) = hd.inst.clone() else { return skip(&mut self.evs) };
        let fast = |op: Op| !matches!(op, Op::Dct5 | Op::Dct6 | Op::Dct7 | Op::Dct8 | Op::Dst5 | Op::Dst8);
        if !hd.usable || (hd.op.is_none() && !T::fits(None, hd.n)) || (hd.n > self.maxn && hd.op.map_or(false, |op| !fast(op))) {
            return skip(&mut self.evs);
        }
        let n = hd.n;
        let cls = style / 4 % 3;
        let rng = &mut self.rng;
        let adv = inst.scratch_len();
        let mut s: Vec<T> = match style % 4 {
            0 => vec![T::zero(); adv],
            1 => (0..adv + n).map(T::dirt).collect(),
            2 => (0..adv).map(T::dirt).collect(),
            _ => vec![],
        };
        // some calls are made by another thread
        let other = style / 12 % 2 == 1;
        // Ok(None): the call asked for constants outside the field
        fn on<T: Num, R: Send>(other: bool, f: impl FnOnce() -> R + Send) -> Result<Option<R>, String> {
            let g = || {
                T::unknown();
                let r = guard(f);
                if T::unknown() { Ok(None) } else { r.map(Some) }
            };
            if other {
                std::thread::scope(|sc| sc.spawn(g).join().unwrap_or(Err("thread".into())))
            } else {
                g()
            }
        }
        let body = match &inst {
            Inst::M(m) => {
                let m: Arc<dyn Mdct<T>> = m.clone();
                let w = hd.w.clone();
                if style % 4 == 3 {
                    s = vec![T::zero(); adv];
                }
                if o % 2 == 0 {
                    let (a, b) = (T::data(rng, n, cls), T::data(rng, n, 0));
                    let mut y = T::data(rng, n, 0);
                    let (a2, b2) = (a.clone(), b.clone());
                    let r = on::<T, _>(other, || {
                        T::enter(f);
                        m.process_mdct_with_scratch(&a2, &b2, &mut y, &mut s);
                        y
                    });
                    r.map(|y| y.map(|y| format!(r#""h":{h},"inv":0,"same":{},{}"#, (T::same(&a, &a2) && T::same(&b, &b2)) as u8, T::mdct(n, &w, &a, &b, &y))))
                } else {
                    let x = T::data(rng, n, cls);
                    let o0 = T::data(rng, 2 * n, 0);
                    let mut y = o0.clone();
                    let x2 = x.clone();
                    let r = on::<T, _>(other, || {
                        T::enter(f);
                        let (u, v) = y.split_at_mut(n);
                        m.process_imdct_with_scratch(&x2, u, v, &mut s);
                        y
                    });
                    r.map(|y| y.map(|y| format!(r#""h":{h},"inv":1,"same":{},{}"#, T::same(&x, &x2) as u8, T::imdct(n, &w, &x, &o0, &y))))
                }
                .map(|b| b.map(|b| format!(r#"{{"a":"mcall",{b}}}"#)))
            }
            i => {
                let op = i.ops()[o % i.ops().len()];
                if !T::fits(Some(op), n) {
                    return skip(&mut self.evs);
                }
                let x = T::data(rng, n, cls);
                let mut y = x.clone();
                let conv = style % 4 == 3;
                let i = i.clone();
                let r = on::<T, _>(other, || {
                    T::enter(f);
                    if conv { i.call_conv(op, &mut y) } else { i.call(op, &mut y, &mut s) }
                    y
                });
                r.map(|y| y.map(|y| format!(r#"{{"a":"call","h":{h},"op":"{}",{}}}"#, op.name(), T::call(op, n, &x, &y))))
            }
        };
        match body {
            Ok(None) => skip(&mut self.evs),
            Ok(Some(b)) => self.evs.push(b),
            Err(e) => self.evs.push(format!(r#"{{"a":"callpanic","h":{h},"msg":"{}"}}"#, esc(&e))),
        }
    }
    fn misuse(&mut self, h: usize, kind: usize) {
        let Some(Handle { inst: Some(inst), n, op, .. }) = self.handles.get(h - 1) else {
            return self.evs.push(format!(r#"{{"a":"skip","h":{h}}}"#));
        };
        let (n, adv) = (*n, inst.scratch_len());
        let (b, s) = match kind {
            0 => (n - 1, adv),
            1 => (n + 1, adv),
            2 if adv > 0 => (n, adv - 1),
            _ => (2 * n, adv),
        };
        let x = T::data(&mut self.rng, b, 0);
        let mut y = x.clone();
        let r = guard(|| match (inst, op) {
            (Inst::M(m), _) => {
                let mut o = vec![T::zero(); n];
                let mut s = vec![T::zero(); s];
                m.process_mdct_with_scratch(&x, &y, &mut o, &mut s)
            }
            (i, Some(op)) => i.call(*op, &mut y, &mut vec![T::zero(); s]),
            _ => crate::tool_error("history: handle"),
        });
        self.evs.push(format!(r#"{{"a":"misuse","h":{h},"ok":{},"mod":{}}}"#, r.is_ok() as u8, !T::same(&x, &y) as u8));
    }
}

pub fn run<T: Num>(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let text = std::fs::read_to_string(a.str("hist", "")).unwrap_or_else(|e| crate::tool_error(&format!("hist: {e}")));
    let hs: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let seed = a.num("seed", 1);
    let f = T::field(a);
    let epilogue = a.num("epilogue", 1) as usize;
    let maxn = a.num("maxn", 1500) as usize;
    let total = std::sync::atomic::AtomicUsize::new(0);
    par(hs.len(), a.threads(), |k| {
        T::enter(f);
        T::unknown();
        let mut w: World<T> = World {
            f, rng: Rng::new(seed, k as u64), planners: HashMap::new(), handles: vec![], ids: HashMap::new(), evs: vec![], maxn, salt: k,
        };
        for st in hs[k].split(' ') {
            let v: Vec<usize> = st.split(':').skip(1).map(|q| q.parse().unwrap_or_else(|_| crate::tool_error("history: number"))).collect();
            match st.as_bytes()[0] {
                b'N' => {
                    w.planners.insert(v[0], DctPlanner::new());
                    w.evs.push(format!(r#"{{"a":"new","p":{}}}"#, v[0]));
                }
                b'P' => w.plan(v[0], OPS[v[1]], v[2]),
                b'M' => w.mdct(v[0], v[1], v[2], v[3]),
                b'C' => w.call(v[0], v[1], v[2]),
                b'X' => w.misuse(v[0], v[1]),
                b'D' => {
                    w.planners.remove(&v[0]);
                    w.evs.push(format!(r#"{{"a":"drop","p":{}}}"#, v[0]));
                }
                b'Z' => {
                    w.handles[v[0] - 1].inst = None;
                    w.evs.push(format!(r#"{{"a":"free","h":{}}}"#, v[0]));
                }
                _ => crate::tool_error("history: step"),
            }
        }
        // everything that was handed out still works
        for e in 0..epilogue {
            for h in 1..=w.handles.len() {
                if w.handles[h - 1].inst.is_some() {
                    w.call(h, k + h + e, k + 5 * h + e);
                }
            }
            if e == 0 {
                let mut ps: Vec<usize> = w.planners.keys().cloned().collect();
                ps.sort();
                for p in ps {
                    w.planners.remove(&p);
                    w.evs.push(format!(r#"{{"a":"drop","p":{p}}}"#));
                }
            }
        }
        total.fetch_add(w.evs.len(), std::sync::atomic::Ordering::Relaxed);
        out.line(&format!(r#"{{"id":{k},"T":"{}","evs":{}}}"#, T::NAME, arr(&w.evs)));
    });
    out.flush();
    println!("STAT items={} steps={}", hs.len(), total.into_inner());
}
