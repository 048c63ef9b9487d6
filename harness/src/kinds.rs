//! Uniform access to the library's transform objects and the ways of constructing them.
use rustdct::algorithm::type2and3_butterflies::*;
use rustdct::algorithm::*;
use rustdct::mdct::*;
use rustdct::rustfft::num_complex::Complex;
use rustdct::rustfft::{Direction, Fft, FftDirection, FftPlanner, Length};
use rustdct::*;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Dct1, Dct2, Dct3, Dct4, Dct5, Dct6, Dct7, Dct8,
    Dst1, Dst2, Dst3, Dst4, Dst5, Dst6, Dst7, Dst8,
}
pub const OPS: [Op; 16] = {
    use Op::*;
    [Dct1, Dct2, Dct3, Dct4, Dct5, Dct6, Dct7, Dct8, Dst1, Dst2, Dst3, Dst4, Dst5, Dst6, Dst7, Dst8]
};
pub const NAMES: [&str; 16] = [
    "dct1", "dct2", "dct3", "dct4", "dct5", "dct6", "dct7", "dct8", "dst1", "dst2", "dst3", "dst4",
    "dst5", "dst6", "dst7", "dst8",
];
impl Op {
    pub fn name(self) -> &'static str {
        NAMES[self as usize]
    }
    pub fn parse(s: &str) -> Op {
        OPS[NAMES.iter().position(|n| *n == s).unwrap_or_else(|| crate::tool_error(&format!("bad op {s}")))]
    }
    pub fn min_len(self) -> usize {
        if self == Op::Dct1 { 2 } else { 1 }
    }
    /// the partner that undoes it, and twice the scale as (a*n + b)/2: scale = (a n + b)/4
    pub fn inverse(self) -> (Op, i64, i64) {
        use Op::*;
        match self {
            Dct1 => (Dct1, 2, -2),
            Dst1 => (Dst1, 2, 2),
            Dct2 => (Dct3, 2, 0),
            Dct3 => (Dct2, 2, 0),
            Dst2 => (Dst3, 2, 0),
            Dst3 => (Dst2, 2, 0),
            Dct4 => (Dct4, 2, 0),
            Dst4 => (Dst4, 2, 0),
            Dct5 => (Dct5, 2, -1),
            Dct6 => (Dct7, 2, -1),
            Dct7 => (Dct6, 2, -1),
            Dst8 => (Dst8, 2, -1),
            Dst5 => (Dst5, 2, 1),
            Dst6 => (Dst7, 2, 1),
            Dst7 => (Dst6, 2, 1),
            Dct8 => (Dct8, 2, 1),
        }
    }
}

pub enum Inst<T: DctNum> {
    C1(Arc<dyn Dct1<T>>),
    S1(Arc<dyn Dst1<T>>),
    T23(Arc<dyn TransformType2And3<T>>),
    T4(Arc<dyn TransformType4<T>>),
    C5(Arc<dyn Dct5<T>>),
    S5(Arc<dyn Dst5<T>>),
    C67(Arc<dyn Dct6And7<T>>),
    S67(Arc<dyn Dst6And7<T>>),
    C8(Arc<dyn Dct8<T>>),
    S8(Arc<dyn Dst8<T>>),
    M(Arc<dyn Mdct<T>>),
}
impl<T: DctNum> Clone for Inst<T> {
    fn clone(&self) -> Self {
        use Inst::*;
        match self {
            C1(a) => C1(a.clone()),
            S1(a) => S1(a.clone()),
            T23(a) => T23(a.clone()),
            T4(a) => T4(a.clone()),
            C5(a) => C5(a.clone()),
            S5(a) => S5(a.clone()),
            C67(a) => C67(a.clone()),
            S67(a) => S67(a.clone()),
            C8(a) => C8(a.clone()),
            S8(a) => S8(a.clone()),
            M(a) => M(a.clone()),
        }
    }
}
macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            Inst::C1($a) => $e,
            Inst::S1($a) => $e,
            Inst::T23($a) => $e,
            Inst::T4($a) => $e,
            Inst::C5($a) => $e,
            Inst::S5($a) => $e,
            Inst::C67($a) => $e,
            Inst::S67($a) => $e,
            Inst::C8($a) => $e,
            Inst::S8($a) => $e,
            Inst::M($a) => $e,
        }
    };
}
impl<T: DctNum> Inst<T> {
    pub fn len(&self) -> usize {
        each!(self, a => a.len())
    }
    pub fn scratch_len(&self) -> usize {
        each!(self, a => a.get_scratch_len())
    }
    /// identity of the shared object
    pub fn addr(&self) -> usize {
        each!(self, a => Arc::as_ptr(a) as *const u8 as usize)
    }
    pub fn mdct(&self) -> &Arc<dyn Mdct<T>> {
        match self {
            Inst::M(a) => a,
            _ => crate::tool_error("not an mdct"),
        }
    }
    pub fn ops(&self) -> &'static [Op] {
        use Op::*;
        match self {
            Inst::C1(_) => &[Dct1],
            Inst::S1(_) => &[Dst1],
            Inst::T23(_) => &[Dct2, Dct3, Dst2, Dst3],
            Inst::T4(_) => &[Dct4, Dst4],
            Inst::C5(_) => &[Dct5],
            Inst::S5(_) => &[Dst5],
            Inst::C67(_) => &[Dct6, Dct7],
            Inst::S67(_) => &[Dst6, Dst7],
            Inst::C8(_) => &[Dct8],
            Inst::S8(_) => &[Dst8],
            Inst::M(_) => &[],
        }
    }
    pub fn call(&self, op: Op, b: &mut [T], s: &mut [T]) {
        use Inst::*;
        use Op::*;
        match (self, op) {
            (C1(a), Dct1) => a.process_dct1_with_scratch(b, s),
            (S1(a), Dst1) => a.process_dst1_with_scratch(b, s),
            (T23(a), Dct2) => a.process_dct2_with_scratch(b, s),
            (T23(a), Dct3) => a.process_dct3_with_scratch(b, s),
            (T23(a), Dst2) => a.process_dst2_with_scratch(b, s),
            (T23(a), Dst3) => a.process_dst3_with_scratch(b, s),
            (T4(a), Dct4) => a.process_dct4_with_scratch(b, s),
            (T4(a), Dst4) => a.process_dst4_with_scratch(b, s),
            (C5(a), Dct5) => a.process_dct5_with_scratch(b, s),
            (S5(a), Dst5) => a.process_dst5_with_scratch(b, s),
            (C67(a), Dct6) => a.process_dct6_with_scratch(b, s),
            (C67(a), Dct7) => a.process_dct7_with_scratch(b, s),
            (S67(a), Dst6) => a.process_dst6_with_scratch(b, s),
            (S67(a), Dst7) => a.process_dst7_with_scratch(b, s),
            (C8(a), Dct8) => a.process_dct8_with_scratch(b, s),
            (S8(a), Dst8) => a.process_dst8_with_scratch(b, s),
            _ => crate::tool_error("op does not belong to this instance"),
        }
    }
    pub fn call_conv(&self, op: Op, b: &mut [T]) {
        use Inst::*;
        use Op::*;
        match (self, op) {
            (C1(a), Dct1) => a.process_dct1(b),
            (S1(a), Dst1) => a.process_dst1(b),
            (T23(a), Dct2) => a.process_dct2(b),
            (T23(a), Dct3) => a.process_dct3(b),
            (T23(a), Dst2) => a.process_dst2(b),
            (T23(a), Dst3) => a.process_dst3(b),
            (T4(a), Dct4) => a.process_dct4(b),
            (T4(a), Dst4) => a.process_dst4(b),
            (C5(a), Dct5) => a.process_dct5(b),
            (S5(a), Dst5) => a.process_dst5(b),
            (C67(a), Dct6) => a.process_dct6(b),
            (C67(a), Dct7) => a.process_dct7(b),
            (S67(a), Dst6) => a.process_dst6(b),
            (S67(a), Dst7) => a.process_dst7(b),
            (C8(a), Dct8) => a.process_dct8(b),
            (S8(a), Dst8) => a.process_dst8(b),
            _ => crate::tool_error("op does not belong to this instance"),
        }
    }
}

pub fn plan<T: DctNum>(pl: &mut DctPlanner<T>, op: Op, n: usize) -> Inst<T> {
    use Op::*;
    match op {
        Dct1 => Inst::C1(pl.plan_dct1(n)),
        Dct2 => Inst::T23(pl.plan_dct2(n)),
        Dct3 => Inst::T23(pl.plan_dct3(n)),
        Dct4 => Inst::T4(pl.plan_dct4(n)),
        Dct5 => Inst::C5(pl.plan_dct5(n)),
        Dct6 => Inst::C67(pl.plan_dct6(n)),
        Dct7 => Inst::C67(pl.plan_dct7(n)),
        Dct8 => Inst::C8(pl.plan_dct8(n)),
        Dst1 => Inst::S1(pl.plan_dst1(n)),
        Dst2 => Inst::T23(pl.plan_dst2(n)),
        Dst3 => Inst::T23(pl.plan_dst3(n)),
        Dst4 => Inst::T4(pl.plan_dst4(n)),
        Dst5 => Inst::S5(pl.plan_dst5(n)),
        Dst6 => Inst::S67(pl.plan_dst6(n)),
        Dst7 => Inst::S67(pl.plan_dst7(n)),
        Dst8 => Inst::S8(pl.plan_dst8(n)),
    }
}

// ---------------------------------------------------------------------------------------
// directly constructed algorithms

#[derive(Clone, Debug)]
pub enum FftD {
    Planned(usize),
    Dft(usize),
    Spy(usize, usize),
    /// inverse direction, for the constructor checks
    Inv(usize),
}
#[derive(Clone, Debug)]
pub enum D {
    C1Naive(usize),
    C1Fft(FftD),
    S1Naive(usize),
    S1Fft(FftD),
    T23Naive(usize),
    T23Fft(FftD),
    Bf(usize),
    Split(Box<D>, Box<D>),
    /// a valid user transform: correct, but asks for extra scratch and fills all of it with rubbish
    T23Spy(Box<D>, usize),
    T4Naive(usize),
    T4Odd(FftD),
    T4Even(Box<D>),
    T4Spy(Box<D>, usize),
    C5Naive(usize),
    S5Naive(usize),
    C67Naive(usize),
    S67Naive(usize),
    S67Fft(FftD),
    C8Naive(usize),
    S8Naive(usize),
}

impl FftD {
    pub fn text(&self) -> String {
        match self {
            FftD::Planned(n) => format!("fft:{n}"),
            FftD::Dft(n) => format!("dft:{n}"),
            FftD::Spy(n, x) => format!("spyfft:{n}+{x}"),
            FftD::Inv(n) => format!("ifft:{n}"),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            FftD::Planned(n) | FftD::Dft(n) | FftD::Spy(n, _) | FftD::Inv(n) => *n,
        }
    }
    pub fn build<T: DctNum>(&self) -> Arc<dyn Fft<T>> {
        match self {
            FftD::Planned(n) => FftPlanner::new().plan_fft_forward(*n),
            FftD::Dft(n) => Arc::new(rustfft::algorithm::Dft::new(*n, FftDirection::Forward)),
            FftD::Spy(n, x) => Arc::new(SpyFft {
                inner: Arc::new(rustfft::algorithm::Dft::new(*n, FftDirection::Forward)),
                extra: *x,
            }),
            FftD::Inv(n) => FftPlanner::new().plan_fft_inverse(*n),
        }
    }
}
impl D {
    pub fn text(&self) -> String {
        use D::*;
        match self {
            C1Naive(n) => format!("Dct1Naive({n})"),
            C1Fft(f) => format!("Dct1ConvertToFft({})", f.text()),
            S1Naive(n) => format!("Dst1Naive({n})"),
            S1Fft(f) => format!("Dst1ConvertToFft({})", f.text()),
            T23Naive(n) => format!("Type2And3Naive({n})"),
            T23Fft(f) => format!("Type2And3ConvertToFft({})", f.text()),
            Bf(n) => format!("Type2And3Butterfly{n}"),
            Split(h, q) => format!("Type2And3SplitRadix({},{})", h.text(), q.text()),
            T23Spy(d, x) => format!("spy23({},+{x})", d.text()),
            T4Naive(n) => format!("Type4Naive({n})"),
            T4Odd(f) => format!("Type4ConvertToFftOdd({})", f.text()),
            T4Even(d) => format!("Type4ConvertToType3Even({})", d.text()),
            T4Spy(d, x) => format!("spy4({},+{x})", d.text()),
            C5Naive(n) => format!("Dct5Naive({n})"),
            S5Naive(n) => format!("Dst5Naive({n})"),
            C67Naive(n) => format!("Dct6And7Naive({n})"),
            S67Naive(n) => format!("Dst6And7Naive({n})"),
            S67Fft(f) => format!("Dst6And7ConvertToFft({})", f.text()),
            C8Naive(n) => format!("Dct8Naive({n})"),
            S8Naive(n) => format!("Dst8Naive({n})"),
        }
    }
    /// documented length
    pub fn len(&self) -> usize {
        use D::*;
        match self {
            C1Naive(n) | S1Naive(n) | T23Naive(n) | Bf(n) | T4Naive(n) | C5Naive(n) | S5Naive(n)
            | C67Naive(n) | S67Naive(n) | C8Naive(n) | S8Naive(n) => *n,
            C1Fft(f) => f.len() / 2 + 1,
            S1Fft(f) => f.len() / 2 - 1,
            T23Fft(f) | T4Odd(f) => f.len(),
            Split(h, _) => 2 * h.len(),
            T23Spy(d, _) | T4Spy(d, _) => d.len(),
            T4Even(d) => 2 * d.len(),
            S67Fft(f) => (f.len() - 1) / 2,
        }
    }
    pub fn t23<T: DctNum>(&self) -> Arc<dyn TransformType2And3<T>> {
        match self.build() {
            Inst::T23(a) => a,
            _ => crate::tool_error("not a type 2/3 description"),
        }
    }
    pub fn t4<T: DctNum>(&self) -> Arc<dyn TransformType4<T>> {
        match self.build() {
            Inst::T4(a) => a,
            _ => crate::tool_error("not a type 4 description"),
        }
    }
    pub fn build<T: DctNum>(&self) -> Inst<T> {
        use D::*;
        match self {
            C1Naive(n) => Inst::C1(Arc::new(Dct1Naive::new(*n))),
            C1Fft(f) => Inst::C1(Arc::new(Dct1ConvertToFft::new(f.build()))),
            S1Naive(n) => Inst::S1(Arc::new(Dst1Naive::new(*n))),
            S1Fft(f) => Inst::S1(Arc::new(Dst1ConvertToFft::new(f.build()))),
            T23Naive(n) => Inst::T23(Arc::new(Type2And3Naive::new(*n))),
            T23Fft(f) => Inst::T23(Arc::new(Type2And3ConvertToFft::new(f.build()))),
            Bf(2) => Inst::T23(Arc::new(Type2And3Butterfly2::new())),
            Bf(3) => Inst::T23(Arc::new(Type2And3Butterfly3::new())),
            Bf(4) => Inst::T23(Arc::new(Type2And3Butterfly4::new())),
            Bf(8) => Inst::T23(Arc::new(Type2And3Butterfly8::new())),
            Bf(16) => Inst::T23(Arc::new(Type2And3Butterfly16::new())),
            Bf(n) => crate::tool_error(&format!("no butterfly {n}")),
            Split(h, q) => Inst::T23(Arc::new(Type2And3SplitRadix::new(h.t23(), q.t23()))),
            T23Spy(d, x) => Inst::T23(Arc::new(SpyT23 { inner: d.t23(), extra: *x })),
            T4Naive(n) => Inst::T4(Arc::new(Type4Naive::new(*n))),
            T4Odd(f) => Inst::T4(Arc::new(Type4ConvertToFftOdd::new(f.build()))),
            T4Even(d) => Inst::T4(Arc::new(Type4ConvertToType3Even::new(d.t23()))),
            T4Spy(d, x) => Inst::T4(Arc::new(SpyT4 { inner: d.t4(), extra: *x })),
            C5Naive(n) => Inst::C5(Arc::new(Dct5Naive::new(*n))),
            S5Naive(n) => Inst::S5(Arc::new(Dst5Naive::new(*n))),
            C67Naive(n) => Inst::C67(Arc::new(Dct6And7Naive::new(*n))),
            S67Naive(n) => Inst::S67(Arc::new(Dst6And7Naive::new(*n))),
            S67Fft(f) => Inst::S67(Arc::new(Dst6And7ConvertToFft::new(f.build()))),
            C8Naive(n) => Inst::C8(Arc::new(Dct8Naive::new(*n))),
            S8Naive(n) => Inst::S8(Arc::new(Dst8Naive::new(*n))),
        }
    }
}

#[derive(Clone, Debug)]
pub enum MD {
    Naive(usize),
    Via(D),
    Planned(usize),
}
impl MD {
    pub fn text(&self) -> String {
        match self {
            MD::Naive(n) => format!("MdctNaive({n})"),
            MD::Via(d) => format!("MdctViaDct4({})", d.text()),
            MD::Planned(n) => format!("planned mdct({n})"),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            MD::Naive(n) | MD::Planned(n) => *n,
            MD::Via(d) => d.len(),
        }
    }
    pub fn build<T: DctNum>(&self, w: Vec<T>) -> Arc<dyn Mdct<T>> {
        match self {
            MD::Naive(n) => Arc::new(MdctNaive::new(*n, move |_| w)),
            MD::Via(d) => Arc::new(MdctViaDct4::new(d.t4(), move |_| w)),
            MD::Planned(n) => DctPlanner::new().plan_mdct(*n, move |_| w),
        }
    }
}

// ---------------------------------------------------------------------------------------
// valid but hostile user-supplied inner transforms

/// rubbish that depends on the position, so that a stale cell cannot cancel out
fn rubbish<T: DctNum>(s: &mut [T]) {
    let two = T::one() + T::one();
    let mut v = two * two * two - T::one();
    for c in s.iter_mut() {
        *c = v;
        v = v + two;
        if v == T::zero() {
            v = T::one();
        }
    }
}
pub struct SpyT23<T> {
    inner: Arc<dyn TransformType2And3<T>>,
    extra: usize,
}
macro_rules! spy_op {
    ($spy:ident, $tr:ident, $f:ident, $name:expr) => {
        impl<T: DctNum> $tr<T> for $spy<T> {
            fn $f(&self, b: &mut [T], s: &mut [T]) {
                assert_eq!(b.len(), self.inner.len());
                assert!(s.len() >= self.get_scratch_len());
                rubbish(s);
                let k = self.inner.get_scratch_len();
                let x = crate::log::nums(b.iter());
                self.inner.$f(b, &mut s[..k]);
                crate::log::put($name, x, crate::log::nums(b.iter()), s.len());
                rubbish(s);
            }
        }
    };
}
impl<T: DctNum> RequiredScratch for SpyT23<T> {
    fn get_scratch_len(&self) -> usize {
        self.inner.get_scratch_len() + self.extra
    }
}
impl<T: DctNum> Length for SpyT23<T> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
spy_op!(SpyT23, Dct2, process_dct2_with_scratch, "dct2");
spy_op!(SpyT23, Dct3, process_dct3_with_scratch, "dct3");
spy_op!(SpyT23, Dst2, process_dst2_with_scratch, "dst2");
spy_op!(SpyT23, Dst3, process_dst3_with_scratch, "dst3");
impl<T: DctNum> TransformType2And3<T> for SpyT23<T> {}

pub struct SpyT4<T> {
    inner: Arc<dyn TransformType4<T>>,
    extra: usize,
}
impl<T: DctNum> RequiredScratch for SpyT4<T> {
    fn get_scratch_len(&self) -> usize {
        self.inner.get_scratch_len() + self.extra
    }
}
impl<T: DctNum> Length for SpyT4<T> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
spy_op!(SpyT4, Dct4, process_dct4_with_scratch, "dct4");
spy_op!(SpyT4, Dst4, process_dst4_with_scratch, "dst4");
impl<T: DctNum> TransformType4<T> for SpyT4<T> {}

pub struct SpyFft<T: DctNum> {
    inner: Arc<dyn Fft<T>>,
    extra: usize,
}
fn rubbish_c<T: DctNum>(s: &mut [Complex<T>]) {
    let two = T::one() + T::one();
    let mut v = two * two + T::one();
    for c in s.iter_mut() {
        *c = Complex { re: v, im: two };
        v = v + two;
        if v == T::zero() {
            v = T::one();
        }
    }
}
fn parts<T: DctNum>(v: &[Complex<T>]) -> Option<Vec<u32>> {
    crate::log::nums(v.iter().flat_map(|z| [&z.re, &z.im]))
}
impl<T: DctNum> Fft<T> for SpyFft<T> {
    fn process_with_scratch(&self, b: &mut [Complex<T>], s: &mut [Complex<T>]) {
        assert_eq!(b.len() % self.inner.len(), 0);
        assert!(s.len() >= self.get_inplace_scratch_len());
        rubbish_c(s);
        let k = self.inner.get_inplace_scratch_len();
        let x = parts(b);
        self.inner.process_with_scratch(b, &mut s[..k]);
        crate::log::put("fft", x, parts(b), s.len());
        rubbish_c(s);
    }
    fn process_outofplace_with_scratch(&self, i: &mut [Complex<T>], o: &mut [Complex<T>], s: &mut [Complex<T>]) {
        assert!(s.len() >= self.get_outofplace_scratch_len());
        rubbish_c(s);
        let k = self.inner.get_outofplace_scratch_len();
        let x = parts(i);
        self.inner.process_outofplace_with_scratch(i, o, &mut s[..k]);
        crate::log::put("fft", x, parts(o), s.len());
        rubbish_c(s);
        rubbish_c(i);
    }
    fn process_immutable_with_scratch(&self, i: &[Complex<T>], o: &mut [Complex<T>], s: &mut [Complex<T>]) {
        assert!(s.len() >= self.get_immutable_scratch_len());
        rubbish_c(s);
        let k = self.inner.get_immutable_scratch_len();
        let x = parts(i);
        self.inner.process_immutable_with_scratch(i, o, &mut s[..k]);
        crate::log::put("fft", x, parts(o), s.len());
        rubbish_c(s);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.inner.get_inplace_scratch_len() + self.extra
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.inner.get_outofplace_scratch_len() + self.extra
    }
    fn get_immutable_scratch_len(&self) -> usize {
        self.inner.get_immutable_scratch_len() + self.extra
    }
}
impl<T: DctNum> Length for SpyFft<T> {
    fn len(&self) -> usize {
        self.inner.len()
    }
}
impl<T: DctNum> Direction for SpyFft<T> {
    fn fft_direction(&self) -> FftDirection {
        self.inner.fft_direction()
    }
}

/// all directly constructible algorithms of length n for an operation (used by several engines)
pub fn direct_descs(op: Op, n: usize, spies: bool) -> Vec<D> {
    use D::*;
    use Op::*;
    let mut v = vec![];
    let ffts = |m: usize, f: &dyn Fn(FftD) -> D, v: &mut Vec<D>| {
        if m >= 1 {
            v.push(f(FftD::Planned(m)));
            v.push(f(FftD::Dft(m)));
            if spies {
                v.push(f(FftD::Spy(m, 0)));
                v.push(f(FftD::Spy(m, 3 * m + 1)));
            }
        }
    };
    match op {
        Dct1 => {
            v.push(C1Naive(n));
            ffts(2 * (n - 1), &C1Fft, &mut v);
        }
        Dst1 => {
            v.push(S1Naive(n));
            ffts(2 * (n + 1), &S1Fft, &mut v);
        }
        Dct2 | Dct3 | Dst2 | Dst3 => v.extend(t23_descs(n, spies, 2)),
        Dct4 | Dst4 => {
            v.push(T4Naive(n));
            if n % 2 == 1 {
                ffts(n, &T4Odd, &mut v);
            } else {
                for d in t23_descs(n / 2, spies, 1) {
                    v.push(T4Even(Box::new(d)));
                }
            }
            if spies {
                let base = v[v.len() - 1].clone();
                v.push(T4Spy(Box::new(base), 2 * n + 3));
            }
        }
        Dct5 => v.push(C5Naive(n)),
        Dst5 => v.push(S5Naive(n)),
        Dct6 | Dct7 => v.push(C67Naive(n)),
        Dst6 | Dst7 => {
            v.push(S67Naive(n));
            ffts(2 * n + 1, &S67Fft, &mut v);
        }
        Dct8 => v.push(C8Naive(n)),
        Dst8 => v.push(S8Naive(n)),
    }
    v
}
pub fn t23_descs(n: usize, spies: bool, depth: usize) -> Vec<D> {
    use D::*;
    let mut v = vec![T23Naive(n), T23Fft(FftD::Planned(n)), T23Fft(FftD::Dft(n))];
    if spies {
        v.push(T23Fft(FftD::Spy(n, 2 * n + 5)));
        let mut xs = vec![0, n, n + 1, 3 * n, 3 * n + 1];
        if n <= 8 {
            // around every size the code compares an inner requirement with
            v.extend([1, n, n + 1].iter().map(|&x| T23Fft(FftD::Spy(n, x))));
            xs.extend(1..=4 * n + 4);
            xs.sort();
            xs.dedup();
        }
        for x in xs {
            v.push(T23Spy(Box::new(T23Naive(n)), x));
        }
    }
    if [2, 3, 4, 8, 16].contains(&n) {
        v.push(Bf(n));
    }
    if n.is_power_of_two() && n > 2 && depth > 0 {
        let h = t23_descs(n / 2, spies, depth - 1);
        let q = t23_descs(n / 4, spies, depth - 1);
        let k = h.len().max(q.len());
        for i in 0..k {
            // every half once and every quarter once, and the mixed pairs shifted by one
            v.push(Split(Box::new(h[i % h.len()].clone()), Box::new(q[i % q.len()].clone())));
            v.push(Split(Box::new(h[i % h.len()].clone()), Box::new(q[(i + 1) % q.len()].clone())));
        }
    }
    v
}

pub fn window<T: DctNum>(name: &str, len: usize) -> Vec<T> {
    match name {
        "mp3" => window_fn::mp3(len),
        "mp3_invertible" => window_fn::mp3_invertible(len),
        "vorbis" => window_fn::vorbis(len),
        "vorbis_invertible" => window_fn::vorbis_invertible(len),
        "one" => window_fn::one(len),
        "invertible" => window_fn::invertible(len),
        _ => crate::tool_error("window"),
    }
}
pub const WINDOWS: [&str; 6] = ["mp3", "mp3_invertible", "vorbis", "vorbis_invertible", "one", "invertible"];

