//! Replays histories generated by the specification and records what planners and instances
//! keep on the heap, what requests take, and what is left when everything has been let go.
use crate::alloc::balance;
use crate::kinds::*;
use crate::probe::counted;
use crate::util::*;
use crate::Args;
use rustdct::{DctNum, DctPlanner};
use std::collections::HashMap;

struct World<T: DctNum> {
    planners: HashMap<usize, DctPlanner<T>>,
    handles: Vec<Option<Inst<T>>>,
    evs: Vec<String>,
}
/// f, and what it took: (result, bytes kept, bytes requested, operations)
fn cost<R>(f: impl FnOnce() -> R) -> (Option<R>, i64, u64, u64) {
    let (g0, l0) = balance();
    let (r, ops) = counted(u64::MAX, f);
    let r = r.ok(); // the message of a panic is dropped here
    let (g1, l1) = balance();
    (r, l1 - l0, g1 - g0, ops)
}
fn took(kept: i64, gross: u64, ops: u64) -> String {
    let big = 2_000_000_000i64;
    format!(r#""kept":{},"gross":{},"ops":{}"#, kept.clamp(-big, big), gross.min(big as u64), ops.min(big as u64))
}
impl<T: DctNum> World<T> {
    fn planner(&mut self, p: usize) -> &mut DctPlanner<T> {
        self.planners.get_mut(&p).unwrap_or_else(|| crate::tool_error("history: no planner"))
    }
    fn requested(&mut self, what: String, c: (Option<Inst<T>>, i64, u64, u64)) {
        let (r, k, g, o) = c;
        self.evs.push(format!(r#"{{{what},"ok":{},{}}}"#, r.is_some() as u8, took(k, g, o)));
        self.handles.push(r);
    }
    fn plan(&mut self, p: usize, op: Op, n: usize) {
        let pl = self.planner(p);
        let c = cost(|| plan(pl, op, n));
        self.requested(format!(r#""a":"plan","p":{p},"op":"{}","n":{n}"#, op.name()), c);
    }
    fn mdct_inst(pl: &mut DctPlanner<T>, n: usize, wid: usize, kind: usize) -> Inst<T> {
        Inst::M(pl.plan_mdct(n, move |m| match kind {
            0 => vec![T::from_usize(wid).unwrap(); m],
            1 => vec![T::one(); m - 1],
            2 => vec![T::one(); m + 1],
            3 => panic!("window function"),
            _ => vec![],
        }))
    }
    fn mdct(&mut self, p: usize, n: usize, wid: usize, kind: usize) {
        let pl = self.planner(p);
        let c = cost(|| Self::mdct_inst(pl, n, wid, kind));
        self.requested(format!(r#""a":"mdct","p":{p},"n":{n},"w":{wid},"k":{kind}"#), c);
    }
    /// an MDCT requested and let go, again and again, each time with another window
    fn cycle(&mut self, p: usize, n: usize, rounds: usize, kind: usize) {
        let pl = self.planner(p);
        let mut kept = 0;
        for w in 0..rounds {
            let (i, k, ..) = cost(|| Self::mdct_inst(pl, n, w, kind));
            let (_, k2, ..) = cost(move || drop(i));
            kept += k + k2;
        }
        self.evs.push(format!(r#"{{"a":"cycle","p":{p},"n":{n},"k":{kind},"rounds":{rounds},{}}}"#, took(kept, 0, 0)));
    }
    fn call(&mut self, h: usize, o: usize, style: usize, bad: Option<usize>) {
        let Some(inst) = self.handles[h - 1].clone() else {
            return self.evs.push(r#"{"a":"skip"}"#.into());
        };
        let (n, adv) = (inst.len(), inst.scratch_len());
        let slow = !matches!(&inst, Inst::M(_)) && inst.ops().iter().any(|op| matches!(op, Op::Dct5 | Op::Dct6 | Op::Dct7 | Op::Dct8 | Op::Dst5 | Op::Dst8));
        if bad.is_none() && slow && n > 1500 {
            return self.evs.push(r#"{"a":"skip"}"#.into());
        }
        let (b, sl) = match bad {
            None => (n, adv),
            Some(0) => (n - 1, adv),
            Some(1) => (n + 1, adv),
            Some(2) if adv > 0 => (n, adv - 1),
            Some(_) => (2 * n, adv),
        };
        let mut x = vec![T::one(); b];
        let mut s = vec![T::zero(); sl];
        let conv = style % 4 == 3;
        let (_, k, g, ops) = match &inst {
            Inst::M(m) => {
                let (mut u, mut v) = (vec![T::zero(); n], vec![T::zero(); n]);
                cost(|| match o % 2 {
                    0 => m.process_mdct_with_scratch(&x, &u, &mut v, &mut s),
                    _ => m.process_imdct_with_scratch(&x, &mut u, &mut v, &mut s),
                })
            }
            i => {
                let op = i.ops()[o % i.ops().len()];
                cost(|| if conv { i.call_conv(op, &mut x) } else { i.call(op, &mut x, &mut s) })
            }
        };
        drop(inst);
        self.evs.push(format!(r#"{{"a":"{}","h":{h},{}}}"#, if bad.is_none() { "call" } else { "misuse" }, took(k, g, ops)));
    }
    fn free(&mut self, h: usize) {
        let i = self.handles[h - 1].take();
        let (_, k, g, o) = cost(move || drop(i));
        self.evs.push(format!(r#"{{"a":"free","h":{h},{}}}"#, took(k, g, o)));
    }
    fn drop_planner(&mut self, p: usize) {
        let d = self.planners.remove(&p);
        let (_, k, g, o) = cost(move || drop(d));
        self.evs.push(format!(r#"{{"a":"drop","p":{p},{}}}"#, took(k, g, o)));
    }
}

pub fn run<T: DctNum>(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let ops = a.list("ops");
    let text = if a.str("hist", "") != "" {
        std::fs::read_to_string(a.str("hist", "")).unwrap_or_else(|e| crate::tool_error(&format!("hist: {e}")))
    } else {
        // every kind at every length, twice, from one planner of its own
        let mut t = String::new();
        for n in a.lens("lens") {
            for (k, op) in OPS.iter().enumerate() {
                if n >= op.min_len() && (ops.is_empty() || ops.iter().any(|o| o == op.name())) {
                    t += &format!("N:1 P:1:{k}:{n} P:1:{k}:{n} D:1\n");
                }
            }
            if n % 2 == 0 && a.num("mdct", 1) == 1 {
                let rounds = (300_000 / n).clamp(10, 3000);
                t += &format!("N:1 M:1:{n}:1:0 Z:1 M:1:{n}:2:0 P:1:3:{n} D:1\n");
                t += &format!("N:1 K:1:{n}:{rounds}:0 K:1:{n}:{}:{} D:1\n", rounds / 10, [1, 3][n / 2 % 2]);
            }
        }
        t
    };
    let hs: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let total = std::sync::atomic::AtomicUsize::new(0);
    par(hs.len(), a.threads(), |k| {
        let mut w: World<T> = World { planners: HashMap::new(), handles: vec![], evs: vec![] };
        for st in hs[k].split(' ') {
            let v: Vec<usize> = st.split(':').skip(1).map(|q| q.parse().unwrap_or_else(|_| crate::tool_error("history: number"))).collect();
            match st.as_bytes()[0] {
                b'N' => {
                    let (d, kept, g, o) = cost(DctPlanner::new);
                    w.planners.insert(v[0], d.unwrap_or_else(|| crate::tool_error("DctPlanner::new")));
                    w.evs.push(format!(r#"{{"a":"new","p":{},{}}}"#, v[0], took(kept, g, o)));
                }
                b'P' => w.plan(v[0], OPS[v[1]], v[2]),
                b'M' => w.mdct(v[0], v[1], v[2], v[3]),
                b'C' => w.call(v[0], v[1], v[2], None),
                b'X' => {
                    w.call(v[0], 0, 0, Some(v[1]));
                    w.call(v[0], 1, 3, Some(v[1] % 2));
                }
                b'K' => w.cycle(v[0], v[1], v[2], v[3]),
                b'D' => w.drop_planner(v[0]),
                b'Z' => w.free(v[0]),
                _ => crate::tool_error("history: step"),
            }
        }
        // let everything go: planners first, or instances first
        let mut ps: Vec<usize> = w.planners.keys().cloned().collect();
        ps.sort();
        if k % 2 == 0 {
            ps.drain(..).for_each(|p| w.drop_planner(p));
        }
        for h in 1..=w.handles.len() {
            if w.handles[h - 1].is_some() {
                w.free(h);
            }
        }
        ps.drain(..).for_each(|p| w.drop_planner(p));
        total.fetch_add(w.evs.len(), std::sync::atomic::Ordering::Relaxed);
        out.line(&format!(r#"{{"id":{k},"T":"{}","cell":{},"evs":{}}}"#, std::any::type_name::<T>().rsplit(':').next().unwrap(), std::mem::size_of::<T>(), arr(&w.evs)));
    });
    out.flush();
    println!("STAT items={} steps={}", hs.len(), total.into_inner());
}
