use std::collections::HashMap;

/// A mistake of the harness or its caller: never a verdict about the library.
pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL-ERROR {msg}");
    std::process::exit(2);
}

pub struct Args(pub HashMap<String, String>);
impl Args {
    pub fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        match self.0.get(k) {
            Some(v) => v.parse().unwrap_or_else(|_| tool_error(&format!("bad number {k}={v}"))),
            None => d,
        }
    }
    pub fn list(&self, k: &str) -> Vec<String> {
        match self.0.get(k) {
            Some(v) if !v.is_empty() => v.split(',').map(|s| s.to_string()).collect(),
            _ => vec![],
        }
    }
    /// 1-5,9,12-40 ...
    pub fn lens(&self, k: &str) -> Vec<usize> {
        let mut v = vec![];
        for part in self.list(k) {
            let mut it = part.split('-');
            let a: usize = it.next().unwrap().parse().unwrap_or_else(|_| tool_error("bad range"));
            let b: usize = it.next().map_or(a, |s| s.parse().unwrap_or_else(|_| tool_error("bad range")));
            v.extend(a..=b);
        }
        v
    }
    pub fn threads(&self) -> usize {
        self.num("threads", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize
    }
}


pub fn parse() -> (String, Args) {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let args = Args(
        it.map(|a| match a.split_once('=') {
            Some((k, v)) => (k.to_string(), v.to_string()),
            None => tool_error(&format!("bad argument {a}")),
        })
        .collect(),
    );
    std::panic::set_hook(Box::new(|_| {}));
    (cmd, args)
}
