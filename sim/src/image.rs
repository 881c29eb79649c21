//! Loading private copies of the node image.
use std::ffi::CString;
pub type Entry = extern "C" fn(i32, *const u8, usize) -> i32;

pub struct Images {
    pub entries: Vec<Entry>,
}
impl Images {
    pub fn load(so: &str, n: usize) -> Images {
        let dir = format!("/dev/shm/simq-img.{}", std::process::id());
        std::fs::create_dir_all(&dir).expect("image dir");
        let mut entries = vec![];
        for i in 0..n {
            let p = format!("{dir}/node{i}.so");
            std::fs::copy(so, &p).expect("copy node image");
            unsafe {
                let c = CString::new(p.as_str()).unwrap();
                let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                if h.is_null() {
                    let e = std::ffi::CStr::from_ptr(libc::dlerror()).to_string_lossy().into_owned();
                    panic!("dlopen: {e}");
                }
                let s = libc::dlsym(h, c"node_entry".as_ptr());
                assert!(!s.is_null());
                entries.push(std::mem::transmute::<*mut libc::c_void, Entry>(s));
            }
            let _ = std::fs::remove_file(&p);
        }
        let _ = std::fs::remove_dir_all(&dir);
        Images { entries }
    }
}
