#![allow(warnings)]
mod generated {
    include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
}
pub use generated::*;
pub fn ERR_GET_LIB(packed_error: u32) -> i32 {
    ((packed_error >> 24) & 0xFF) as i32
}
pub fn ERR_GET_REASON(packed_error: u32) -> i32 {
    (packed_error & 0x0FFF) as i32
}
pub fn ERR_GET_FUNC(_packed_error: u32) -> i32 {
    0
}
pub fn init() {
    unsafe { CRYPTO_library_init() }
}
pub const fn fips_version() -> u32 {
    0
}
