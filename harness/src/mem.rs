//! Calls on memory that is surrounded by inaccessible pages. A stray access raises SIGSEGV;
//! the handler writes the case that was running as a trace event and ends the process.
use crate::alloc::{self, sys};
use crate::dirty::{descs, Call, Desc};
use crate::fl::*;
use crate::util::*;
use crate::Args;
use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicUsize, Ordering::*};

const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };
static CASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CASE_LEN: AtomicUsize = AtomicUsize::new(0);
static FD: AtomicI32 = AtomicI32::new(2);
pub const FAULT_EXIT: i32 = 77;

extern "C" fn on_fault(_: i32) {
    unsafe {
        sys::write(FD.load(SeqCst), CASE.load(SeqCst) as *const _, CASE_LEN.load(SeqCst));
        sys::_exit(FAULT_EXIT);
    }
}
fn install(fd: i32) {
    FD.store(fd, SeqCst);
    let st = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
    unsafe {
        sys::sigaltstack(&sys::StackT { sp: st.as_mut_ptr() as *mut _, flags: 0, size: st.len() }, std::ptr::null_mut());
        // SA_ONSTACK | SA_RESETHAND
        let act = sys::SigAction { handler: on_fault as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000 | 0x8000_0000u32 as i32, restorer: 0 };
        // SEGV BUS ABRT ILL
        for s in [11, 7, 6, 4] {
            sys::sigaction(s, &act, std::ptr::null_mut());
        }
    }
}
/// a slice in fenced memory
struct Fenced<T> {
    p: *mut T,
    n: usize,
    raw: *mut u8,
    bytes: usize,
    lead: usize,
}
const CANARY: u8 = 0xA5;
impl<T: Fl> Fenced<T> {
    /// place 0: ends at the fence; 1: starts at the fence; 2: one element further (odd alignment)
    fn new(v: &[T], place: usize) -> Self {
        let sz = std::mem::size_of::<T>();
        let lead = if place == 2 { sz } else { 0 };
        let bytes = v.len() * sz + lead;
        let raw = alloc::fenced(bytes, sz, place == 0);
        if raw.is_null() && bytes > 0 {
            crate::tool_error("out of fenced memory");
        }
        for i in 0..lead {
            unsafe { *raw.add(i) = CANARY };
        }
        let p = unsafe { raw.add(lead) as *mut T };
        for (i, x) in v.iter().enumerate() {
            unsafe { *p.add(i) = *x };
        }
        Fenced { p, n: v.len(), raw, bytes, lead }
    }
    fn sl(&mut self) -> &mut [T] {
        if self.n == 0 {
            // an empty slice may point anywhere: here, at the fence
            return unsafe { std::slice::from_raw_parts_mut(self.p, 0) };
        }
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
    fn intact(&self) -> bool {
        let pages = (self.bytes + alloc::PAGE - 1) / alloc::PAGE * alloc::PAGE;
        let a = self.raw as usize & !(alloc::PAGE - 1);
        let used = self.p as usize..self.p as usize + self.n * std::mem::size_of::<T>();
        for q in (a..used.start.min(a + pages)).chain(used.end.max(a)..a + pages) {
            let want = if q >= self.raw as usize && q < self.raw as usize + self.lead { CANARY } else { 0 };
            if unsafe { *(q as *const u8) } != want {
                return false;
            }
        }
        true
    }
}
impl<T> Drop for Fenced<T> {
    fn drop(&mut self) {
        if self.bytes > 0 {
            alloc::release(self.raw, self.bytes);
        }
    }
}

fn set_case(s: &str) {
    let b = s.as_bytes().to_vec().into_boxed_slice();
    let old = CASE.load(SeqCst);
    let ol = CASE_LEN.load(SeqCst);
    CASE_LEN.store(b.len(), SeqCst);
    CASE.store(Box::leak(b).as_mut_ptr(), SeqCst);
    if !old.is_null() {
        drop(unsafe { Box::from_raw(std::slice::from_raw_parts_mut(old, ol)) });
    }
}

/// (buffer lengths of the three slices or of one, scratch length)
fn shapes<T: Fl>(c: &Call<T>) -> Vec<([usize; 3], usize)> {
    let n = c.len();
    let adv = c.adv();
    let mut v = vec![([n, n, n], adv), ([n, n, n], adv + 1), ([n, n, n], adv + n + 2)];
    if adv > 0 {
        v.push(([n, n, n], adv - 1));
        v.push(([n, n, n], adv / 2));
        v.push(([n, n, n], 0));
    }
    for b in [0, n - 1, n + 1, n / 2, 2 * n] {
        if b != n {
            v.push(([b, b, b], adv));
            if !c.has_conv() {
                v.push(([b, n, n], adv));
                v.push(([n, b, n], adv));
                v.push(([n, n, b], adv));
            }
        }
    }
    v
}

fn mem_one<T: Fl>(d: &Desc, seed: u64, fence_tables: bool, report: &mut dyn FnMut(String)) {
    let head = format!(
        r#""T":"{}","build":"{BUILD}","alg":"{}","op":"{}","n":{}"#,
        T::NAME, d.text(), d.op(), d.len()
    );
    set_case(&format!("{{\"e\":\"mem\",{head},\"case\":\"construction\",\"fault\":1,\"intact\":1,\"ok\":0,\"calls\":0}}\n"));
    let made = guard(|| if fence_tables { alloc::with_fence(|| d.call::<T>()) } else { d.call::<T>() });
    let c = match made {
        Ok(c) => c,
        Err(e) => {
            report(format!(r#"{{"e":"panic",{head},"msg":"{}"}}"#, esc(&e)));
            return;
        }
    };
    let n = c.len();
    let mut rng = Rng::new(seed, n as u64);
    let mut calls = 0;
    let mut intact = true;
    let mut ok = true;
    for place in 0..3 {
        for (k, (bl, sl)) in shapes(&c).into_iter().enumerate() {
            let accepted = bl == [n, n, n] && sl >= c.adv();
            set_case(&format!(
                "{{\"e\":\"mem\",{head},\"case\":\"place {place} buffers {},{},{} scratch {sl}\",\"fault\":1,\"intact\":1,\"ok\":0,\"calls\":{calls}}}\n",
                bl[0], bl[1], bl[2]
            ));
            // random data first, then everything else in turn
            let cls = if k == 0 { 0 } else { (n + 5 * k + 11 * place) % CLASSES };
            let vals = |m: usize, rng: &mut Rng| -> Vec<T> {
                if m == 0 { vec![] } else { signal::<T>(rng, m, cls).into_iter().map(T::of).collect() }
            };
            let mut b: Vec<Fenced<T>> = (0..if c.has_conv() { 1 } else { 3 })
                .map(|q| Fenced::new(&vals(bl[q], &mut rng), if place == 0 && q == 1 && k % 2 == 1 { 1 } else { place }))
                .collect();
            let mut s = Fenced::new(&vals(sl, &mut rng), if k % 3 == 2 { 2 - place } else { place });
            let r = guard(|| match &c {
                Call::Sig(i, op) => i.call(*op, b[0].sl(), s.sl()),
                Call::Fwd(m) => {
                    let [x, y, z] = &mut b[..] else { unreachable!() };
                    m.process_mdct_with_scratch(x.sl(), y.sl(), z.sl(), s.sl())
                }
                Call::Bwd(m) => {
                    let [x, y, z] = &mut b[..] else { unreachable!() };
                    m.process_imdct_with_scratch(x.sl(), y.sl(), z.sl(), s.sl())
                }
            });
            calls += 1;
            ok &= r.is_ok() == accepted;
            intact &= s.intact() && b.iter().all(|f| f.intact());
        }
        if c.has_conv() {
            for bl in [n, n - 1, n + 1, 0, 2 * n] {
                set_case(&format!(
                    "{{\"e\":\"mem\",{head},\"case\":\"place {place} buffer {bl}, own scratch\",\"fault\":1,\"intact\":1,\"ok\":0,\"calls\":{calls}}}\n"
                ));
                let v: Vec<T> = (0..bl).map(|_| T::of(rng.unit())).collect();
                let mut b = Fenced::new(&v, place);
                let r = guard(|| if fence_tables { alloc::with_fence(|| c.conv(b.sl())) } else { c.conv(b.sl()) });
                // a panic leaves the fence switched on
                alloc::with_fence(|| ());
                calls += 1;
                ok &= r.is_ok() == (bl == n);
                intact &= b.intact();
            }
        }
    }
    report(format!(
        r#"{{"e":"mem",{head},"case":"all","fault":0,"intact":{},"ok":{},"calls":{calls}}}"#,
        intact as u8, ok as u8
    ));
}

pub fn run(a: &Args) {
    let path = a.str("out", "mem.nd");
    let seed = a.num("seed", 1);
    let shard = a.num("shard", 0) as usize;
    let of = a.num("of", 1) as usize;
    let out = Out::new(&path);
    alloc::init_arena();
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{path}.fault")).unwrap_or_else(|_| crate::tool_error("open"));
    install(f.as_raw_fd());
    let ds = descs(a);
    let mut count = 0;
    for (k, d) in ds.iter().enumerate() {
        if k % of != shard {
            continue;
        }
        count += 1;
        let mut report = |s: String| out.line(&s);
        mem_one::<f64>(d, seed, true, &mut report);
        mem_one::<f32>(d, seed, true, &mut report);
        out.flush();
    }
    println!("STAT items={count}");
}
