//! The process image of every simulated node: the real Opsqueue server
//! (opsqueue/app/main.rs plus the opsqueue crate) and the client agents built
//! on the real Opsqueue client library. One private copy of this library is
//! loaded per simulated process, so statics are per process.
use std::alloc::{GlobalAlloc, Layout, System};

unsafe extern "C" {
    fn simk_alloc_point();
}
struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            simk_alloc_point();
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            simk_alloc_point();
            System.alloc_zeroed(l)
        }
    }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// SQLite's default allocator, except that the simulator can make it run out of memory.
mod sqlmem {
    use std::ffi::{c_int, c_void};
    #[repr(C)]
    #[derive(Clone, Copy)]
    struct Methods {
        malloc: Option<unsafe extern "C" fn(c_int) -> *mut c_void>,
        free: Option<unsafe extern "C" fn(*mut c_void)>,
        realloc: Option<unsafe extern "C" fn(*mut c_void, c_int) -> *mut c_void>,
        size: Option<unsafe extern "C" fn(*mut c_void) -> c_int>,
        roundup: Option<unsafe extern "C" fn(c_int) -> c_int>,
        init: Option<unsafe extern "C" fn(*mut c_void) -> c_int>,
        shutdown: Option<unsafe extern "C" fn(*mut c_void)>,
        app: *mut c_void,
    }
    unsafe extern "C" {
        fn simk_nomem() -> c_int;
        fn sqlite3_config(op: c_int, ...) -> c_int;
    }
    static mut REAL: Option<Methods> = None;
    thread_local! {
        /// Only while a statement is being prepared or executed: SQLx does not recover
        /// when memory runs out while it copies a value out of a row (it panics).
        static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    // (the linker's --wrap directs SQLx's calls here)
    unsafe extern "C" {
        fn __real_sqlite3_step(s: *mut c_void) -> c_int;
        fn __real_sqlite3_prepare_v3(db: *mut c_void, sql: *const u8, n: c_int, fl: u32, out: *mut *mut c_void, tail: *mut *const u8) -> c_int;
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __wrap_sqlite3_step(s: *mut c_void) -> c_int {
        IN.set(true);
        let r = unsafe { __real_sqlite3_step(s) };
        IN.set(false);
        r
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __wrap_sqlite3_prepare_v3(db: *mut c_void, sql: *const u8, n: c_int, fl: u32, out: *mut *mut c_void, tail: *mut *const u8) -> c_int {
        IN.set(true);
        let r = unsafe { __real_sqlite3_prepare_v3(db, sql, n, fl, out, tail) };
        IN.set(false);
        r
    }
    unsafe extern "C" fn malloc(n: c_int) -> *mut c_void {
        unsafe {
            if IN.get() && simk_nomem() != 0 {
                return std::ptr::null_mut();
            }
            REAL.unwrap().malloc.unwrap()(n)
        }
    }
    unsafe extern "C" fn realloc(p: *mut c_void, n: c_int) -> *mut c_void {
        unsafe {
            if IN.get() && simk_nomem() != 0 {
                return std::ptr::null_mut();
            }
            REAL.unwrap().realloc.unwrap()(p, n)
        }
    }
    pub fn install() {
        const MALLOC: c_int = 4;
        const GETMALLOC: c_int = 5;
        const LOOKASIDE: c_int = 13;
        unsafe {
            let mut m: Methods = std::mem::zeroed();
            assert_eq!(sqlite3_config(GETMALLOC, &raw mut m), 0);
            REAL = Some(m);
            m.malloc = Some(malloc);
            m.realloc = Some(realloc);
            assert_eq!(sqlite3_config(MALLOC, &raw mut m), 0);
            // every allocation passes by here
            assert_eq!(sqlite3_config(LOOKASIDE, 0 as c_int, 0 as c_int), 0);
        }
    }
}

#[allow(dead_code, unused, clippy::all)]
mod app {
    include!(concat!(env!("OUT_DIR"), "/app_main.rs"));
}
mod agent;

/// Entry point of a simulated process. kind 0: server; kind 1: agent (JSON plan).
/// Returns 0, or 101 when the main thread panicked.
#[unsafe(no_mangle)]
pub extern "C" fn node_entry(kind: i32, p: *const u8, n: usize) -> i32 {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    let r = std::panic::catch_unwind(|| match kind {
        0 => {
            sqlmem::install();
            app::__sim_entry()
        }
        _ => agent::main(std::str::from_utf8(s).unwrap()),
    });
    match r {
        Ok(()) => 0,
        Err(_) => 101,
    }
}
