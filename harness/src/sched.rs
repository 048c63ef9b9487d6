//! Calls on one shared instance from several threads, interleaved as the specification says,
//! with the processor handed over between arithmetic operations.
use crate::dirty::*;
use crate::fl::*;
use crate::probe::*;
use crate::util::*;
use crate::Args;

impl PartialOrd for Probe {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl Fl for Probe {
    const NAME: &'static str = "probe";
    const EPS: f64 = f64::EPSILON;
    const TOL: f64 = 2e-12;
    const BIG: f64 = 1e140;
    const DECADES: i32 = 285;
    fn of(x: f64) -> Self {
        Probe(x)
    }
    fn to(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
}

/// a schedule: quanta per call, threads, and who runs how many quanta
struct Plan {
    quanta: u64,
    threads: usize,
    slices: Vec<(usize, u64)>,
}
fn parse(l: &str) -> Plan {
    let mut it = l.split(' ');
    let head: Vec<u64> = it.next().unwrap_or("").split(':').map(|q| q.parse().unwrap_or_else(|_| crate::tool_error("schedule"))).collect();
    let slices = it
        .map(|s| {
            let (t, q) = s.split_once(':').unwrap_or_else(|| crate::tool_error("schedule"));
            (t.parse::<usize>().unwrap_or(0), q.parse().unwrap_or(1))
        })
        .collect();
    Plan { quanta: head[0], threads: head[1] as usize, slices }
}

fn one(d: &Desc, plans: &[&Plan], seed: u64) -> (String, u64) {
    let mut stuck = 0;
    let r = guard(|| {
        let cs: Vec<Call<Probe>> = calls_of(d);
        let mut rng = Rng::new(seed, d.len() as u64);
        let mut seen = Seen::new();
        // alone, and how long it takes
        let mut len = vec![];
        for w in 0..cs.len() {
            for q in 0..INPUTS {
                let mut b = load(&cs[w], &input_of(&cs[w], q));
                let mut s = vec![Probe(0.0); cs[w].adv()];
                let (r, c) = counted(u64::MAX, || cs[w].go(&mut b, &mut s));
                if let Err(e) = r {
                    return panic_line(d, Probe::NAME, &e);
                }
                if q == 0 {
                    len.push(c.max(1));
                }
                let (h1, h2) = hash(&b[cs[w].result()]);
                *seen.entry((w * 100 + q, h1, h2)).or_insert(0) += 1;
            }
        }
        for p in plans {
            // who calls what
            let who: Vec<(usize, usize)> = (0..p.threads)
                .map(|t| {
                    // most often the same operation on different inputs
                    let w = if t > 0 && rng.below(4) == 0 { rng.below(cs.len() as u64) as usize } else { t * 0 + (rng.0 as usize) % cs.len() };
                    (w, (rng.below(3) as usize * 2 + t) % INPUTS)
                })
                .collect();
            let slices: Vec<(usize, u64)> = p
                .slices
                .iter()
                .map(|&(t, q)| (t, (len[who[t].0] * q / p.quanta).max(1) - 1))
                .collect();
            let baton: &'static Baton = Box::leak(Box::new(Baton::new(p.threads, slices)));
            let res: Vec<Result<Vec<Probe>, String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..p.threads)
                    .map(|t| {
                        let c = cs[who[t].0].clone();
                        let x = input_of(&c, who[t].1);
                        sc.spawn(move || {
                            let mut b = load(&c, &x);
                            let mut s = vec![Probe(0.0); c.adv()];
                            let conv = t == 1 && c.has_conv();
                            scheduled(baton, t, || if conv { c.conv(&mut b) } else { c.go(&mut b, &mut s) })?;
                            Ok(b)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
            });
            stuck += baton.stuck();
            for (t, r) in res.into_iter().enumerate() {
                let (w, q) = who[t];
                match r {
                    Ok(b) => {
                        let (h1, h2) = hash(&b[cs[w].result()]);
                        *seen.entry((w * 100 + q, h1, h2)).or_insert(0) += 1;
                    }
                    Err(e) => return panic_line(d, Probe::NAME, &e),
                }
            }
        }
        memo_line(&d.text(), d.len(), Probe::NAME, "schedule", &seen)
    });
    (r.unwrap_or_else(|e| panic_line(d, Probe::NAME, &e)), stuck)
}

pub fn run(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let text = std::fs::read_to_string(a.str("plans", "")).unwrap_or_else(|e| crate::tool_error(&format!("plans: {e}")));
    let plans: Vec<Plan> = text.lines().filter(|l| !l.is_empty()).map(parse).collect();
    let per = a.num("per", 20) as usize;
    let seed = a.num("seed", 1);
    let ds = descs(a);
    let stuck = std::sync::atomic::AtomicU64::new(0);
    let runs = std::sync::atomic::AtomicU64::new(0);
    par(ds.len(), a.threads(), |k| {
        let mine: Vec<&Plan> = (0..per.min(plans.len())).map(|q| &plans[(k * per + q) % plans.len()]).collect();
        let (l, s) = one(&ds[k], &mine, seed);
        out.line(&l);
        stuck.fetch_add(s, std::sync::atomic::Ordering::Relaxed);
        runs.fetch_add(mine.len() as u64, std::sync::atomic::Ordering::Relaxed);
    });
    out.flush();
    println!("STAT items={} schedules={} stuck={}", ds.len(), runs.into_inner(), stuck.into_inner());
}
