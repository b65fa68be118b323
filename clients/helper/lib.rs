//! What generated client programs use to report, outside the scope they shadow.
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

pub fn show<I: IntoIterator>(id: u32, c: I)
where
    I::Item: Debug,
{
    println!("{id} {:?}", c.into_iter().collect::<Vec<_>>());
}
pub fn show_sorted<I: IntoIterator>(id: u32, c: I)
where
    I::Item: Debug + Ord,
{
    let mut v = c.into_iter().collect::<Vec<_>>();
    v.sort();
    println!("{id} {v:?}");
}
pub fn len(id: u32, n: usize) {
    println!("{id} len {n}");
}
pub fn note(id: u32, s: &str) {
    println!("{id} {s}");
}
thread_local! {
    static TICKS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static N: Cell<u32> = const { Cell::new(0) };
}
/// Returns `x`, and remembers that the n-th expression was evaluated.
pub fn tick<T>(n: u32, x: T) -> T {
    TICKS.with(|t| t.borrow_mut().push(n));
    x
}
/// The expressions evaluated since the last call, in order.
pub fn ticks(id: u32) {
    let t = TICKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    println!("{id} evaluated {t:?}");
}
pub fn is_sync<T: Sync + Send>(_: &T) {}
