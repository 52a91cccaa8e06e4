
//! Observing calls: panics become data, allocation is measured, and a crash or hang reports the
//! operation that was running.
use super::json::J;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
pub struct Counting;
fn add(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.with(|c| {
                c.set(c.get() + n);
                PEAK.with(|p| p.set(p.get().max(c.get())));
            });
        }
    });
}
fn sub(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.with(|c| c.set(c.get().saturating_sub(n)));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}
#[global_allocator]
static A: Counting = Counting;

static CURRENT: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicUsize = AtomicUsize::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}
fn report(what: &str) {
    // Best effort: the process is about to end.
    if let Ok(c) = CURRENT.try_lock() {
        let path = std::env::var("HARNESS_CRASH").unwrap_or_else(|_| "/dev/stderr".into());
        let _ = std::fs::write(path, format!("{{\"crash\":\"{}\",\"op\":{}}}\n", what, if c.is_empty() { "null" } else { &c }));
    }
}
extern "C" fn on_signal(sig: i32) {
    report(&format!("signal {}", sig));
    unsafe { _exit(134) }
}
pub fn install() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.starts_with("HARNESS") || !ON.with(|x| x.get()) {
            eprintln!("harness error: {} at {:?}", m, i.location());
            unsafe { _exit(3) }
        }
    }));
    unsafe {
        signal(6, on_signal as usize);
    }
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(SeqCst);
            if BUSY.load(SeqCst) && t == last {
                since += 1;
            } else {
                since = 0;
            }
            last = t;
            if since > 60 {
                report("hang");
                unsafe { _exit(135) }
            }
        }
    });
}
/// Remember what is about to be done, for crash reports.
pub fn doing(op: &J) {
    let mut c = CURRENT.lock().unwrap();
    c.clear();
    op.write(&mut c);
}
/// Run a call of the code under test; a panic is an outcome.  Also returns the peak allocation.
pub fn call<T>(f: impl FnOnce() -> T) -> (Result<T, ()>, usize) {
    TICK.fetch_add(1, SeqCst);
    BUSY.store(true, SeqCst);
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    ON.with(|c| c.set(false));
    BUSY.store(false, SeqCst);
    (r, PEAK.with(|p| p.get()))
}
