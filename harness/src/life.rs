//! Instances that come and go (Lifecycle): replays histories of making, calling and dropping
//! instances of one family of configurations against the real code, and records the results.
use crate::dirty::*;
use crate::fl::*;
use crate::kinds::*;
use crate::util::*;
use crate::Args;
use rustdct::DctPlanner;

extern "C" {
    fn fork() -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

/// one configuration: a transform, or an MDCT with a window of some shape
#[derive(Clone)]
enum Cfg {
    T(Desc),
    W(MD, usize),
}
impl Cfg {
    fn make<T: Fl>(&self, planner: Option<&mut DctPlanner<T>>) -> Vec<Call<T>> {
        match self {
            Cfg::T(Desc::P(op, n)) => {
                let i = match planner {
                    Some(p) => plan(p, *op, *n),
                    None => plan(&mut DctPlanner::new(), *op, *n),
                };
                i.ops().iter().map(|&o| Call::Sig(i.clone(), o)).collect()
            }
            Cfg::T(d) => calls_of(d),
            Cfg::W(md, cls) => {
                let n = md.len();
                let w: Vec<T> = any_window::<T>(&mut Rng::new(77, (n * 64 + cls) as u64), n, *cls).into_iter().map(T::of).collect();
                let m = match (md, planner) {
                    (MD::Planned(n), Some(p)) => p.plan_mdct(*n, move |_| w),
                    _ => md.build(w),
                };
                vec![Call::Fwd(m.clone()), Call::Bwd(m)]
            }
        }
    }
}
struct Family {
    name: String,
    n: usize,
    cfgs: Vec<Cfg>,
}
fn families(a: &Args) -> Vec<Family> {
    let mut v: Vec<Family> = vec![];
    let mut put = |name: String, n: usize, cfgs: Vec<Cfg>| {
        if cfgs.len() > 1 {
            v.push(Family { name, n, cfgs })
        }
    };
    for n in a.lens("lens") {
        if n % 2 == 0 {
            let mut mds = vec![MD::Planned(n), MD::Naive(n)];
            mds.extend(direct_descs(Op::Dct4, n, false).into_iter().skip(1).take(2).map(MD::Via));
            for md in mds {
                put(format!("{} of any window", md.text()), n, (0..WCLASSES).map(|c| Cfg::W(md.clone(), c)).collect());
            }
        }
        for op in [Op::Dct1, Op::Dst1, Op::Dct2, Op::Dct4, Op::Dst6] {
            if n < op.min_len() {
                continue;
            }
            let mut c: Vec<Cfg> = direct_descs(op, n, false).into_iter().map(|d| Cfg::T(Desc::D(op, d))).collect();
            c.push(Cfg::T(Desc::P(op, n)));
            put(format!("{} of {n}", op.name()), n, c);
        }
        for op in OPS {
            // lengths next to each other, and other kinds of the same length
            let near = [n, n + 1, n + 2, n.saturating_sub(1), 2 * n, n / 2];
            put(format!("planned {} about {n}", op.name()), n, near.iter().filter(|&&m| m >= op.min_len()).map(|&m| Cfg::T(Desc::P(op, m))).collect());
        }
        put(format!("planned, all kinds, of {n}"), n, OPS.iter().filter(|o| n >= o.min_len()).map(|&o| Cfg::T(Desc::P(o, n))).collect());
    }
    v
}
const KINDS_OF_INPUT: usize = 6;
fn key(cfg: usize, w: usize, q: usize) -> usize {
    cfg * 10_000 + w * 100 + q
}
/// what each call returns where nothing else has happened, in a process of its own
fn alone<T: Fl>(c: &Cfg, cfg: usize) -> Result<Seen, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let r = guard(|| {
                let mut out = vec![];
                let ops = c.make::<T>(None).len();
                for w in 0..ops {
                    for q in 0..KINDS_OF_INPUT {
                        let call = c.make::<T>(None).swap_remove(w);
                        let mut b = load(&call, &input_of(&call, q));
                        call.go(&mut b, &mut vec![T::zero(); call.adv()]);
                        let (x, y) = hash(&b[call.result()]);
                        out.extend_from_slice(&(key(cfg, w, q) as u64).to_le_bytes());
                        out.extend_from_slice(&x.to_le_bytes());
                        out.extend_from_slice(&y.to_le_bytes());
                    }
                }
                out
            });
            let ok = match r {
                Ok(o) => {
                    let mut done = 0;
                    while done < o.len() {
                        let k = write(fds[1], o[done..].as_ptr(), o.len() - done);
                        if k <= 0 {
                            break;
                        }
                        done += k as usize;
                    }
                    0
                }
                Err(_) => 7,
            };
            _exit(ok);
        }
        close(fds[1]);
        let mut all = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let k = read(fds[0], buf.as_mut_ptr(), buf.len());
            if k <= 0 {
                break;
            }
            all.extend_from_slice(&buf[..k as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            return Err(format!("a call on an instance alone in its process failed: status {st}"));
        }
        let mut seen = Seen::new();
        for r in all.chunks(16) {
            let k = u64::from_le_bytes(r[..8].try_into().unwrap()) as usize;
            let x = u32::from_le_bytes(r[8..12].try_into().unwrap());
            let y = u32::from_le_bytes(r[12..].try_into().unwrap());
            *seen.entry((k, x, y)).or_insert(0) += 1;
        }
        Ok(seen)
    }
}
type Hist = Vec<(u8, usize, usize)>;
fn parse(l: &str) -> Hist {
    l.split_whitespace()
        .map(|s| {
            let p: Vec<&str> = s[1..].split(':').collect();
            (s.as_bytes()[0], p[0].parse().unwrap(), p[1].parse().unwrap())
        })
        .collect()
}
fn replay<T: Fl>(f: &Family, first: Result<Seen, String>, hists: &[&Hist], seed: u64) -> (String, u64) {
    let mut calls = 0;
    let r = first.and_then(|mut seen| {
        guard(|| {
            let mut rng = Rng::new(seed, f.n as u64 ^ 0x11fe);
            for (k, h) in hists.iter().enumerate() {
                let mut planner = DctPlanner::new();
                let start = rng.below(f.cfgs.len() as u64) as usize;
                let step = 1 + rng.below(f.cfgs.len() as u64 - 1) as usize;
                let mut cs: Vec<Option<(usize, Vec<Call<T>>)>> = (0..8).map(|_| None).collect();
                let mut s: Vec<T> = vec![];
                let ins: Vec<usize> = (0..8).map(|_| rng.below(KINDS_OF_INPUT as u64) as usize).collect();
                let op = rng.below(8) as usize;
                for &(a, slot, x) in h.iter() {
                    match a {
                        b'M' => {
                            let c = (start + (x - 1) * step) % f.cfgs.len();
                            cs[slot] = Some((c, f.cfgs[c].make(if k % 3 == 0 { Some(&mut planner) } else { None })));
                        }
                        b'D' => cs[slot] = None,
                        _ => {
                            let (c, ops) = cs[slot].as_ref().unwrap();
                            let w = if k % 2 == 0 { op } else { rng.below(8) as usize } % ops.len();
                            let call = &ops[w];
                            let mut b = load(call, &input_of(call, ins[x]));
                            if k % 4 == 1 && call.has_conv() {
                                call.conv(&mut b)
                            } else {
                                if k % 5 == 4 || s.len() < call.adv() {
                                    s = vec![T::one(); call.adv()];
                                }
                                call.go(&mut b, &mut s)
                            }
                            let (h1, h2) = hash(&b[call.result()]);
                            *seen.entry((key(*c, w, ins[x]), h1, h2)).or_insert(0) += 1;
                            calls += 1;
                        }
                    }
                }
            }
            memo_line(&f.name, f.n, T::NAME, "lifecycle", &seen)
        })
    });
    let l = r.unwrap_or_else(|e| format!(r#"{{"e":"panic","T":"{}","alg":"{}","n":{},"op":"lifecycle","msg":"{}"}}"#, T::NAME, esc(&f.name), f.n, esc(&e)));
    (l, calls)
}
pub fn run(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let text = std::fs::read_to_string(a.str("plans", "")).unwrap_or_else(|e| crate::tool_error(&format!("plans: {e}")));
    let hists: Vec<Hist> = text.lines().filter(|l| !l.is_empty()).map(parse).collect();
    let per = (a.num("per", 50) as usize).min(hists.len());
    let seed = a.num("seed", 1);
    let fs = families(a);
    // first of all, and before there is any other thread
    let one: Vec<(Result<Seen, String>, Result<Seen, String>)> = fs
        .iter()
        .map(|f| {
            let mut two = (Ok(Seen::new()), Ok(Seen::new()));
            for (k, c) in f.cfgs.iter().enumerate() {
                two.0 = two.0.and_then(|mut s: Seen| alone::<f64>(c, k).map(|t| { s.extend(t); s }));
                two.1 = two.1.and_then(|mut s: Seen| alone::<f32>(c, k).map(|t| { s.extend(t); s }));
            }
            two
        })
        .collect();
    let calls = std::sync::atomic::AtomicU64::new(0);
    par(fs.len(), a.threads(), |k| {
        let mine: Vec<&Hist> = (0..per).map(|q| &hists[(k * per + q) % hists.len()]).collect();
        let (l, c) = replay::<f64>(&fs[k], one[k].0.clone(), &mine, seed);
        out.line(&l);
        let (m, d) = replay::<f32>(&fs[k], one[k].1.clone(), &mine, seed + 1);
        out.line(&m);
        calls.fetch_add(c + d, std::sync::atomic::Ordering::Relaxed);
    });
    out.flush();
    println!("STAT items={} histories={} calls={}", fs.len(), 2 * per * fs.len(), calls.into_inner());
}
