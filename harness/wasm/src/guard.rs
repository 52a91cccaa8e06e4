//! Observing calls where a panic ends the instance: the host sees it as a trap.
use super::json::J;

pub fn doing(_: &J) {}
pub fn call<T>(f: impl FnOnce() -> T) -> (Result<T, ()>, usize) {
    (Ok(f()), 0)
}
