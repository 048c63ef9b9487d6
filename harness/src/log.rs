//! A log of what the spies among inner transforms were given and returned.
use crate::util::arr;
use std::any::Any;
use std::cell::{Cell, RefCell};

/// reads a number
pub type Read = fn(&dyn Any) -> Option<u32>;
thread_local! {
    static READ: Cell<Option<Read>> = const { Cell::new(None) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
/// the numbers, if a log is being kept; does nothing otherwise
pub fn nums<'a, T: 'static>(v: impl Iterator<Item = &'a T>) -> Option<Vec<u32>> {
    let f = READ.get()?;
    v.map(|x| f(x)).collect()
}
pub fn put(op: &str, x: Option<Vec<u32>>, y: Option<Vec<u32>>, s: usize) {
    if let (Some(x), Some(y)) = (x, y) {
        LOG.with(|l| l.borrow_mut().push(format!(r#"{{"op":"{op}","x":{},"y":{},"s":{s}}}"#, arr(&x), arr(&y))));
    }
}
pub fn kept<R>(read: Read, f: impl FnOnce() -> R) -> (R, Vec<String>) {
    LOG.with(|l| l.borrow_mut().clear());
    READ.set(Some(read));
    let r = f();
    READ.set(None);
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}
