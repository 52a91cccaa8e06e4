//! The C-callable decoder, loaded as a shared library as a C caller would.
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}
type Decode = unsafe extern "C" fn(*const u8, usize) -> usize;

fn entry() -> Decode {
    static F: OnceLock<usize> = OnceLock::new();
    let f = *F.get_or_init(|| {
        let path = std::env::var("FFI_LIB").expect("HARNESS: FFI_LIB");
        let path = CString::new(path).unwrap();
        let h = unsafe { dlopen(path.as_ptr(), 2) };
        assert!(!h.is_null(), "HARNESS: dlopen");
        let name = CString::new("cbor_from_slice").unwrap();
        let f = unsafe { dlsym(h, name.as_ptr()) };
        assert!(!f.is_null(), "HARNESS: dlsym");
        f as usize
    });
    unsafe { std::mem::transmute::<usize, Decode>(f) }
}
/// The verdict on these bytes, at most a million.
pub fn verdict(b: &[u8]) -> i64 {
    let f = entry();
    let (r, _) = super::call(|| unsafe { f(b.as_ptr(), b.len()) });
    r.map_or(-1, |x| x.min(1_000_000) as i64)
}
