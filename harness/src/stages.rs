//! What the algorithms hand to their inner transforms, over GF(p), for comparison with Stages.
use crate::exact::{fields, input, vals, vec_gf};
use crate::gf::{self, Gf};
use crate::kinds::*;
use crate::util::*;
use crate::Args;

fn read(x: &dyn std::any::Any) -> Option<u32> {
    x.downcast_ref::<Gf>().map(|g| gf::FieldVal::val(*g))
}

enum What {
    Sig(Op, D),
    Mdct(bool, D),
}
fn modulus(alg: &str, n: usize) -> usize {
    match alg {
        "dct1fft" => 8 * (n - 1),
        "dst1fft" => 8 * (n + 1),
        "t4even" | "t4odd" => 32 * n,
        "s67fft" => 8 * (2 * n + 1),
        "mdct" => 8 * n,
        _ => 16 * n,
    }
}
pub fn run(a: &Args) {
    let out = Out::new(&a.str("out", "/dev/stdout"));
    let seed = a.num("seed", 1);
    let mut items: Vec<(&'static str, usize, What)> = vec![];
    use Op::*;
    for n in a.lens("lens") {
        let f = |m: usize| FftD::Spy(m, m + 1);
        let t23 = |m: usize, x: usize| Box::new(D::T23Spy(Box::new(D::T23Naive(m)), x));
        if n >= 2 {
            items.push(("dct1fft", n, What::Sig(Dct1, D::C1Fft(f(2 * n - 2)))));
        }
        items.push(("dst1fft", n, What::Sig(Dst1, D::S1Fft(f(2 * n + 2)))));
        for op in [Dct2, Dct3, Dst2, Dst3] {
            items.push(("t23fft", n, What::Sig(op, D::T23Fft(f(n)))));
            if n.is_power_of_two() && n >= 4 {
                for x in [0, 3 * n] {
                    items.push(("split", n, What::Sig(op, D::Split(t23(n / 2, x), t23(n / 4, x)))));
                }
            }
        }
        for op in [Dct4, Dst4] {
            if n % 2 == 1 {
                items.push(("t4odd", n, What::Sig(op, D::T4Odd(f(n)))));
            } else {
                for x in [0, 3 * n] {
                    items.push(("t4even", n, What::Sig(op, D::T4Even(t23(n / 2, x)))));
                }
            }
        }
        for op in [Dst6, Dst7] {
            items.push(("s67fft", n, What::Sig(op, D::S67Fft(f(2 * n + 1)))));
        }
        if n % 2 == 0 {
            for inv in [false, true] {
                items.push(("mdct", n, What::Mdct(inv, D::T4Spy(Box::new(D::T4Naive(n)), 2 * n))));
            }
        }
    }
    let unknown = std::sync::atomic::AtomicU64::new(0);
    par(items.len(), a.threads(), |k| {
        let (alg, n, w) = &items[k];
        let n = *n;
        for p in fields(modulus(alg, n) as u64, 4) {
            let g = gf::set_field(p);
            gf::take_unknown();
            let mut rng = Rng::new(seed, k as u64);
            let x = input(&mut rng, if matches!(w, What::Mdct(false, _)) { 2 * n } else { n }, 0, p);
            let win = input(&mut rng, if *alg == "mdct" { 2 * n } else { 1 }, 0, p);
            let o0 = input(&mut rng, if *alg == "mdct" { 2 * n } else { 1 }, 0, p);
            let r = guard(|| match w {
                What::Sig(op, d) => {
                    let i: Inst<Gf> = d.build();
                    let mut b: Vec<Gf> = vec_gf(&x);
                    let mut s = vec_gf(&vec![1; i.scratch_len()]);
                    let ((), l) = crate::log::kept(read, || i.call(*op, &mut b, &mut s));
                    (op.name(), vals(&b), l, s.len())
                }
                What::Mdct(inv, d) => {
                    let i = MD::Via(d.clone()).build(vec_gf::<Gf>(&win));
                    let mut s: Vec<Gf> = vec_gf(&vec![1; i.get_scratch_len()]);
                    let b: Vec<Gf> = vec_gf(&x);
                    let mut o: Vec<Gf> = vec_gf(&o0[..if *inv { 2 * n } else { n }]);
                    let ((), l) = crate::log::kept(read, || {
                        if *inv {
                            let (u, v) = o.split_at_mut(n);
                            i.process_imdct_with_scratch(&b, u, v, &mut s)
                        } else {
                            i.process_mdct_with_scratch(&b[..n], &b[n..], &mut o, &mut s)
                        }
                    });
                    (if *inv { "imdct" } else { "mdct" }, vals(&o), l, s.len())
                }
            });
            if gf::take_unknown() > 0 {
                continue;
            }
            if let Ok((op, y, l, s)) = r {
                return out.line(&format!(
                    r#"{{"e":"stage","alg":"{alg}","op":"{op}","n":{n},"p":{p},"g":{g},"x":{},"w":{},"o":{},"y":{},"s":{s},"in":{}}}"#,
                    arr(&x), arr(&win), arr(&o0), arr(&y), arr(&l)
                ));
            }
        }
        unknown.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    out.flush();
    println!("STAT items={} unlogged={}", items.len(), unknown.into_inner());
}
