//! The C-callable decoder, as part of this module.
#[path = "/repo/difffuzz/src/lib.rs"]
mod entry;

#[allow(unused_unsafe)]
pub fn verdict(b: &[u8]) -> i64 {
    (unsafe { entry::cbor_from_slice(b.as_ptr(), b.len()) }).min(1_000_000) as i64
}
