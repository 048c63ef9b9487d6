use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::Mutex;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + (self.next() % (b - a + 1) as u64) as usize
    }
    /// uniform in (-1, 1)
    pub fn unit(&mut self) -> f64 {
        ((self.next() >> 11) as f64 / (1u64 << 52) as f64) - 1.0
    }
}

pub struct Out(Mutex<BufWriter<File>>);
impl Out {
    pub fn new(path: &str) -> Self {
        Out(Mutex::new(BufWriter::new(File::create(path).unwrap_or_else(|e| {
            crate::tool_error(&format!("cannot create {path}: {e}"))
        }))))
    }
    pub fn line(&self, s: &str) {
        let mut f = self.0.lock().unwrap_or_else(|e| e.into_inner());
        f.write_all(s.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
    pub fn flush(&self) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).flush().unwrap();
    }
}
pub fn arr<I: IntoIterator<Item = D>, D: std::fmt::Display>(it: I) -> String {
    let mut s = String::from("[");
    for (k, v) in it.into_iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        s.push_str(&v.to_string());
    }
    s.push(']');
    s
}
/// Runs f, turning a panic into Err.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }
    })
}
pub fn esc(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => '\'',
            '\\' => '/',
            c if (c as u32) < 32 => ' ',
            c => c,
        })
        .take(200)
        .collect()
}
/// Runs the items 0..n on all cores; each worker calls f(item).
pub fn par(n: usize, threads: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads.max(1) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= n {
                    break;
                }
                f(k);
            });
        }
    });
}
