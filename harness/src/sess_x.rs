use crate::exact::{input, vals};
use crate::gf::{self, FieldVal, Gf};
use crate::kinds::*;
use crate::session::Num;
use crate::util::*;
use crate::Args;

impl Num for Gf {
    const NAME: &'static str = "GF";
    type Field = u32;
    fn field(a: &Args) -> u32 {
        a.num("p", 20161) as u32
    }
    fn enter(f: u32) {
        gf::set_field(f);
    }
    fn data(rng: &mut Rng, n: usize, cls: usize) -> Vec<Self> {
        if n == 0 {
            return vec![];
        }
        input(rng, n, cls, gf::p()).iter().map(|&v| Gf::mk(v)).collect()
    }
    fn dirt(i: usize) -> Self {
        Gf::mk((i as u32 * 7919 + 13) % gf::p())
    }
    fn same(a: &[Self], b: &[Self]) -> bool {
        a == b
    }
    fn unknown() -> bool {
        gf::take_unknown() > 0
    }
    fn fits(op: Option<Op>, n: usize) -> bool {
        let m = op.map_or(8 * n as u64, |op| crate::refeval::form(op, n).m);
        (gf::p() as u64 - 1) % m.max(1) == 0
    }
    fn call(_: Op, _: usize, x: &[Self], y: &[Self]) -> String {
        format!(r#""p":{},"g":{},"x":{},"y":{}"#, gf::p(), gf::generator(gf::p()), arr(vals(x)), arr(vals(y)))
    }
    fn mdct(_: usize, w: &[Self], a: &[Self], b: &[Self], y: &[Self]) -> String {
        format!(
            r#""p":{},"g":{},"w":{},"x":{},"b":{},"y":{}"#,
            gf::p(), gf::generator(gf::p()), arr(vals(w)), arr(vals(a)), arr(vals(b)), arr(vals(y))
        )
    }
    fn imdct(n: usize, w: &[Self], x: &[Self], o0: &[Self], o: &[Self]) -> String {
        let d: Vec<Gf> = (0..2 * n).map(|j| o[j] - o0[j]).collect();
        format!(
            r#""p":{},"g":{},"w":{},"x":{},"y":{}"#,
            gf::p(), gf::generator(gf::p()), arr(vals(w)), arr(vals(x)), arr(vals(&d))
        )
    }
}
