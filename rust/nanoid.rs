//! Stands in for the nanoid crate: unique ids, unless they are so short that real ones soon repeat.
use std::sync::atomic::{AtomicU64, Ordering};
static N: AtomicU64 = AtomicU64::new(0);
pub fn next(length: usize) -> String { let n = N.fetch_add(1, Ordering::SeqCst); format!("p{}", if length < 4 { n / 2 } else { n }) }
pub fn reset() { N.store(0, Ordering::SeqCst); }
#[macro_export]
macro_rules! nanoid { () => { $crate::next(21) }; ($n:expr $(, $($t:tt)*)?) => { $crate::next($n) } }
