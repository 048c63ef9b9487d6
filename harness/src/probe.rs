//! A number type that wraps f64 and observes every arithmetic operation: it counts them,
//! enforces a budget, and can hand the processor to another thread before any of them.
use rustdct::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::cell::Cell;
use std::ops::*;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static SLICE: Cell<u64> = const { Cell::new(u64::MAX) };
    static SCHED: Cell<Option<&'static Baton>> = const { Cell::new(None) };
    static ME: Cell<usize> = const { Cell::new(0) };
}
pub const OVER: &str = "operation budget exhausted";

#[inline]
fn tick() {
    let n = OPS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > BUDGET.with(|c| c.get()) {
        BUDGET.with(|c| c.set(u64::MAX));
        panic!("{}", OVER);
    }
    SLICE.with(|c| {
        let s = c.get();
        if s != u64::MAX {
            if s == 0 {
                if let Some(b) = SCHED.with(|q| q.get()) {
                    b.pass(ME.with(|m| m.get()));
                    c.set(b.slice());
                }
            } else {
                c.set(s - 1);
            }
        }
    });
}
/// operations performed by f on this thread; a panic (also of the budget) is an Err
pub fn counted<R>(budget: u64, f: impl FnOnce() -> R) -> (Result<R, String>, u64) {
    OPS.with(|c| c.set(0));
    BUDGET.with(|c| c.set(budget));
    let r = crate::util::guard(f);
    BUDGET.with(|c| c.set(u64::MAX));
    (r, OPS.with(|c| c.get()))
}

/// Lets exactly one of a group of threads run at a time, in the order of a schedule of
/// (thread, operations) slices. A thread that blocks or has finished loses its turn.
pub struct Baton {
    st: Mutex<State>,
    cv: Condvar,
}
struct State {
    sched: Vec<(usize, u64)>,
    at: usize,
    alive: Vec<bool>,
    stamp: u64,
    stuck: u64,
}
impl State {
    /// moves to the next slice of a living thread; after the schedule, round robin to completion
    fn advance(&mut self) {
        self.stamp += 1;
        loop {
            self.at += 1;
            if self.at >= self.sched.len() {
                let k = self.alive.len();
                let last = self.sched[self.sched.len() - 1].0;
                for d in 1..=k {
                    let t = (last + d) % k;
                    if self.alive[t] {
                        self.sched.push((t, u64::MAX - 1));
                        self.at = self.sched.len() - 1;
                        return;
                    }
                }
                self.at = self.sched.len() - 1;
                return;
            }
            if self.alive[self.sched[self.at].0] {
                return;
            }
        }
    }
}
impl Baton {
    pub fn new(threads: usize, mut sched: Vec<(usize, u64)>) -> Self {
        if sched.is_empty() {
            sched.push((0, u64::MAX - 1));
        }
        Baton {
            st: Mutex::new(State { sched, at: 0, alive: vec![true; threads], stamp: 0, stuck: 0 }),
            cv: Condvar::new(),
        }
    }
    fn slice(&self) -> u64 {
        let s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        s.sched[s.at].1
    }
    fn wait(&self, me: usize) {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        while s.sched[s.at].0 != me {
            let seen = s.stamp;
            let (g, t) = self.cv.wait_timeout(s, Duration::from_millis(60)).unwrap_or_else(|e| e.into_inner());
            s = g;
            // the thread whose turn it is does not run: it waits for something another one holds
            if t.timed_out() && s.stamp == seen {
                s.stuck += 1;
                s.advance();
                self.cv.notify_all();
            }
        }
    }
    fn pass(&self, me: usize) {
        {
            let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
            if s.sched[s.at].0 == me {
                s.advance();
            }
            self.cv.notify_all();
        }
        self.wait(me);
    }
    fn finish(&self, me: usize) {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        s.alive[me] = false;
        if s.sched[s.at].0 == me {
            s.advance();
        }
        self.cv.notify_all();
    }
    pub fn stuck(&self) -> u64 {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).stuck
    }
}
/// runs f as thread `me` of the group
pub fn scheduled<R>(b: &'static Baton, me: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    ME.with(|m| m.set(me));
    b.wait(me);
    SCHED.with(|q| q.set(Some(b)));
    SLICE.with(|c| c.set(b.slice()));
    let r = crate::util::guard(f);
    SLICE.with(|c| c.set(u64::MAX));
    SCHED.with(|q| q.set(None));
    b.finish(me);
    r
}

#[derive(Clone, Copy, Debug)]
pub struct Probe(pub f64);
impl PartialEq for Probe {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
macro_rules! bin {
    ($($tr:ident $f:ident $op:tt),*) => { $(
        impl $tr for Probe {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                tick();
                Probe(self.0 $op o.0)
            }
        }
    )* };
}
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for Probe {
    type Output = Self;
    fn neg(self) -> Self {
        tick();
        Probe(-self.0)
    }
}
impl Zero for Probe {
    fn zero() -> Self {
        Probe(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Probe {
    fn one() -> Self {
        Probe(1.0)
    }
}
impl Num for Probe {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl Signed for Probe {
    fn abs(&self) -> Self {
        Probe(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Probe((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Self {
        Probe(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0.0
    }
}
impl FromPrimitive for Probe {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Probe(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Probe(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Probe(n))
    }
}
macro_rules! consts {
    ($($c:ident),*) => {
        impl FloatConst for Probe { $(
            #[allow(non_snake_case)]
            fn $c() -> Self { Probe(std::f64::consts::$c) }
        )* }
    };
}
consts!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);
