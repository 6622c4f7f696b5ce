//! Conformance harness: drives the real library and records what it does.
pub mod anon;
pub mod conv;
pub mod full;
pub mod gen;
pub mod json;
pub mod print;
pub mod outs;
pub mod rng;

/// A call whose panic is data.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
