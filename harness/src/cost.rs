//! Arithmetic operations and scratch of planned transforms.
use crate::fl::*;
use crate::kinds::*;
use crate::probe::*;
use crate::util::*;
use crate::Args;
use rustdct::DctPlanner;

/// anything beyond this is far outside every bound; stops quadratic work early
fn budget(n: usize) -> u64 {
    4000 * n as u64 * (2 + n.ilog2() as u64) + 100_000
}
pub fn run(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let ops: Vec<Op> = a.list("ops").iter().map(|s| Op::parse(s)).collect();
    let lens = a.lens("lens");
    let mut items: Vec<(usize, Option<Op>)> = vec![];
    for &n in &lens {
        for &op in &ops {
            if n >= op.min_len() {
                items.push((n, Some(op)));
            }
        }
        if n % 2 == 0 && a.num("mdct", 1) == 1 {
            items.push((n, None));
        }
    }
    items.sort_by_key(|x| std::cmp::Reverse(x.0));
    par(items.len(), a.threads(), |k| {
        let (n, op) = items[k];
        let line = |op: &str, ops: u64, scratch: usize, msg: &str| {
            out.line(&format!(
                r#"{{"e":"cost","op":"{op}","n":{n},"ops":{},"scratch":{},"msg":"{}"}}"#,
                ops.min(2_000_000_000), scratch.min(2_000_000_000), esc(msg)
            ))
        };
        // the count must not depend on the values much: the largest of a few inputs
        let mut rng = Rng::new(a.num("seed", 1), (n * 19 + op.map_or(17, |o| o as usize)) as u64);
        let mut classes = vec![0, 12, 10];
        classes.extend((0..a.num("more", 3)).map(|_| rng.range(1, CLASSES - 1)));
        let xs: Vec<Vec<Probe>> = classes.iter().map(|&c| signal::<Probe>(&mut rng, 2 * n, c).into_iter().map(Probe).collect()).collect();
        match op {
            Some(op) => match guard(|| plan::<Probe>(&mut DctPlanner::new(), op, n)) {
                Err(e) => line(op.name(), 2_000_000_000, 0, &e),
                Ok(inst) => {
                    let sl = inst.scratch_len();
                    // a ludicrous request is not worth allocating
                    if sl > 100_000 + 1000 * n {
                        return line(op.name(), 0, sl, "");
                    }
                    let mut s = vec![Probe(0.0); sl];
                    let (mut most, mut why) = (0, String::new());
                    for x in &xs {
                        let mut b = x[..n].to_vec();
                        let (r, c) = counted(budget(n), || inst.call(op, &mut b, &mut s));
                        most = most.max(c);
                        if let Err(e) = r {
                            why = e;
                            break;
                        }
                    }
                    line(op.name(), most, sl, &why);
                }
            },
            None => match guard(|| MD::Planned(n).build(vec![Probe(0.5); 2 * n])) {
                Err(e) => line("mdct", 2_000_000_000, 0, &e),
                Ok(m) => {
                    let sl = m.get_scratch_len();
                    if sl > 100_000 + 1000 * n {
                        return line("mdct", 0, sl, "");
                    }
                    let mut s = vec![Probe(0.0); sl];
                    let mut o = vec![Probe(0.0); n];
                    let mut o2 = o.clone();
                    let (mut most, mut why) = ([0; 2], [String::new(), String::new()]);
                    for x in &xs {
                        let (r1, c1) = counted(budget(n), || m.process_mdct_with_scratch(&x[..n], &x[n..], &mut o, &mut s));
                        let (r2, c2) = counted(budget(n), || m.process_imdct_with_scratch(&x[..n], &mut o, &mut o2, &mut s));
                        most = [most[0].max(c1), most[1].max(c2)];
                        let bad = r1.is_err() || r2.is_err();
                        why = [r1.err().unwrap_or_default(), r2.err().unwrap_or_default()];
                        if bad {
                            break;
                        }
                    }
                    line("mdct", most[0], sl, &why[0]);
                    line("imdct", most[1], sl, &why[1]);
                }
            },
        }
    });
    out.flush();
    println!("STAT items={}", items.len());
}
