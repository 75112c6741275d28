//! Run-time switch of the mutants (only in scratch copies of the repository).
use std::sync::atomic::{AtomicU8, AtomicU32, Ordering::Relaxed};
static ON: AtomicU32 = AtomicU32::new(u32::MAX);
static COV: AtomicU8 = AtomicU8::new(0);
static SEEN: [AtomicU8; 60000] = [const { AtomicU8::new(0) }; 60000];
#[cold]
fn init() -> u32 {
    let n = std::env::var("MUTANT").ok().and_then(|s| s.parse().ok()).unwrap_or(u32::MAX - 1);
    COV.store(if std::env::var_os("MUTANT_COV").is_some() { 1 } else { 2 }, Relaxed);
    ON.store(n, Relaxed);
    n
}
#[inline]
pub fn m(i: u32) -> bool {
    let mut n = ON.load(Relaxed);
    if n == u32::MAX { n = init() }
    if COV.load(Relaxed) == 1 { cover(i) }
    n == i
}
#[cold]
fn cover(i: u32) {
    if SEEN[i as usize].swap(1, Relaxed) == 0 {
        use std::io::Write;
        let f = std::env::var_os("MUTANT_COV").unwrap();
        let _ = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap().write_all(format!("{i}\n").as_bytes());
    }
}
pub fn p<T: std::ops::Add<Output = T> + From<bool>>(i: u32, x: T) -> T { if m(i) { x + T::from(true) } else { x } }
pub fn none<T>(i: u32, x: T) -> Option<T> { if m(i) { None } else { Some(x) } }
pub fn lt<A: PartialOrd<B> + ?Sized, B: ?Sized>(i: u32, a: &A, b: &B) -> bool { if m(i) { a <= b } else { a < b } }
pub fn le<A: PartialOrd<B> + ?Sized, B: ?Sized>(i: u32, a: &A, b: &B) -> bool { if m(i) { a < b } else { a <= b } }
pub fn gt<A: PartialOrd<B> + ?Sized, B: ?Sized>(i: u32, a: &A, b: &B) -> bool { if m(i) { a >= b } else { a > b } }
pub fn ge<A: PartialOrd<B> + ?Sized, B: ?Sized>(i: u32, a: &A, b: &B) -> bool { if m(i) { a > b } else { a >= b } }
