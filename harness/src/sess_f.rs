use crate::fl::*;
use crate::float;
use crate::kinds::*;
use crate::refeval::*;
use crate::session::Num;
use crate::util::*;
use crate::Args;

macro_rules! num {
    ($t:ty) => {
        impl Num for $t {
            const NAME: &'static str = <$t as Fl>::NAME;
            type Field = ();
            fn field(_: &Args) {}
            fn enter(_: ()) {}
            fn data(rng: &mut Rng, n: usize, cls: usize) -> Vec<Self> {
                signal::<$t>(rng, n.max(1), [0, 6, 7][cls % 3])[..n].iter().map(|v| <$t>::of(*v)).collect()
            }
            fn dirt(i: usize) -> Self {
                if i % 3 == 1 { <$t>::INFINITY } else { <$t>::NAN }
            }
            fn same(a: &[Self], b: &[Self]) -> bool {
                a.iter().map(|v| v.to_bits()).eq(b.iter().map(|v| v.to_bits()))
            }
            fn unknown() -> bool {
                false
            }
            fn fits(_: Option<Op>, _: usize) -> bool {
                true
            }
            fn call(op: Op, n: usize, x: &[Self], y: &[Self]) -> String {
                let x: Vec<f64> = x.iter().map(|v| v.to()).collect();
                format!(r#""dev":{}"#, float::dev(&form(op, n), &x, y))
            }
            fn mdct(n: usize, w: &[Self], a: &[Self], b: &[Self], y: &[Self]) -> String {
                let x: Vec<f64> = a.iter().chain(b).zip(w).map(|(x, w)| x.to() * w.to()).collect();
                format!(r#""dev":{}"#, float::dev(&form_mdct(n), &x, y))
            }
            fn imdct(n: usize, w: &[Self], x: &[Self], o0: &[Self], o: &[Self]) -> String {
                let x: Vec<f64> = x.iter().map(|v| v.to()).collect();
                let r = form_imdct(n).fast(&x);
                let nx = norm2(&x) + norm2(&o0.iter().map(|v| v.to()).collect::<Vec<_>>());
                let u = <$t as Fl>::EPS / 16.0 * ((2 * n) as f64).sqrt() * nx;
                let d = (0..2 * n).map(|j| units(o[j].to() - (o0[j].to() + w[j].to() * r[j]), u)).max().unwrap_or(0);
                format!(r#""dev":{d}"#)
            }
        }
    };
}
num!(f64);
num!(f32);
