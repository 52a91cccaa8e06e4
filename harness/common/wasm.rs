//! How the host (tools/wasm.js) passes one test at a time.
use super::json::{self, J};

/// A buffer of n bytes, which its user gives back.
#[no_mangle]
pub extern "C" fn buffer(n: usize) -> *mut u8 {
    Box::into_raw(vec![0u8; n].into_boxed_slice()) as *mut u8
}
/// The kind of the test in the buffer and, if the outcome is another one, the outcome: its length
/// in four bytes, and the text.
#[no_mangle]
pub extern "C" fn run(p: *mut u8, n: usize) -> *mut u8 {
    let text = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)) };
    let t = json::parse(std::str::from_utf8(&text).unwrap());
    let (kind, got) = super::replay(&t);
    let r = match got {
        Some(got) => obj! {"kind" => J::Str(kind), "got" => got},
        None => obj! {"kind" => J::Str(kind)},
    }
    .show();
    let mut out = (r.len() as u32).to_le_bytes().to_vec();
    out.extend(r.as_bytes());
    Box::into_raw(out.into_boxed_slice()) as *mut u8
}
/// Gives back what `run` returned.
#[no_mangle]
pub extern "C" fn done(p: *mut u8, n: usize) {
    drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n + 4)) });
}
