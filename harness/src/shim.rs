//! Control of the LD_PRELOAD file shim (harness/shim.c) and images of the token directory.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::ffi::CString;

pub const CREATE: u32 = 1;
pub const WRITE: u32 = 2;
pub const TRUNC: u32 = 3;
pub const UNLINK: u32 = 4;
pub const SYNC: u32 = 5;
pub const RENAME: u32 = 6;
pub const OPEN: u32 = 7;
pub const LOCK: u32 = 8;
pub const READ: u32 = 9;
pub const WLOCK: u32 = 11;

#[derive(Clone, Debug)]
pub struct Op {
    pub op: u32,
    pub path: String,
    pub path2: String,
    pub off: u64,
    pub data: Vec<u8>,
}
impl Op {
    pub fn show(&self) -> String {
        let n = ["?", "create", "write", "truncate", "unlink", "sync", "rename", "open", "lock", "read", "stat", "wlock"][self.op as usize];
        format!("{} {}{}", n, self.path, if self.op == WRITE { format!(" @{}+{}", self.off, self.data.len()) } else if self.op == TRUNC { format!(" {}", self.off) } else { String::new() })
    }
}
fn f(name: &str) -> *mut libc::c_void {
    let n = CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr()) };
    assert!(!p.is_null(), "shim not loaded");
    p
}
pub fn dir(d: &str) {
    let c = CString::new(d).unwrap();
    unsafe { std::mem::transmute::<_, extern "C" fn(*const i8)>(f("kv_shim_dir"))(c.as_ptr()) }
}
pub fn log(on: bool) {
    unsafe { std::mem::transmute::<_, extern "C" fn(i32)>(f("kv_shim_log"))(on as i32) }
}
pub fn fault(mask: u32, skip: i64, max: i64, err: i32, short: bool) {
    unsafe { std::mem::transmute::<_, extern "C" fn(u32, i64, i64, i32, i32)>(f("kv_shim_fault"))(mask, skip, max, err, short as i32) }
}
pub fn nofault() -> i64 {
    let h = hits();
    fault(0, 0, 0, 0, false);
    h
}
pub fn hits() -> i64 {
    unsafe { std::mem::transmute::<_, extern "C" fn() -> i64>(f("kv_shim_hits"))() }
}
pub fn seen() -> i64 {
    unsafe { std::mem::transmute::<_, extern "C" fn() -> i64>(f("kv_shim_seen"))() }
}
pub fn opcount(op: u32) -> i64 {
    unsafe { std::mem::transmute::<_, extern "C" fn(i32) -> i64>(f("kv_shim_count"))(op as i32) }
}
pub fn delay(us: i64) {
    unsafe { std::mem::transmute::<_, extern "C" fn(i64)>(f("kv_shim_delay"))(us) }
}
/// the recorded operations, oldest first
pub fn take() -> Vec<Op> {
    log(false);
    let mut p: *mut u8 = std::ptr::null_mut();
    let n = unsafe { std::mem::transmute::<_, extern "C" fn(*mut *mut u8) -> usize>(f("kv_shim_get"))(&mut p) };
    let b: &[u8] = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    let mut v = vec![];
    let mut i = 0;
    let u32at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let u64at = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    while i < n {
        let (op, pl, p2, off, dl) = (u32at(i), u32at(i + 4) as usize, u32at(i + 8) as usize, u64at(i + 12), u64at(i + 28) as usize);
        i += 36;
        let path = String::from_utf8_lossy(&b[i..i + pl]).into_owned();
        i += pl;
        let path2 = String::from_utf8_lossy(&b[i..i + p2]).into_owned();
        i += p2;
        v.push(Op { op, path, path2, off, data: b[i..i + dl].to_vec() });
        i += dl;
    }
    v
}

/// contents of a directory (relative names start with '/')
pub type Image = BTreeMap<String, Vec<u8>>;
pub fn snapshot(dir: &str) -> Image {
    fn walk(base: &str, d: &str, im: &mut Image) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let p = e.path().to_string_lossy().into_owned();
            if e.file_type().unwrap().is_dir() {
                walk(base, &p, im)
            } else if let Ok(b) = std::fs::read(&p) {
                im.insert(p[base.len()..].to_string(), b);
            }
        }
    }
    let mut im = Image::new();
    walk(dir, dir, &mut im);
    im
}
pub fn put(dir: &str, im: &Image) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (n, b) in im {
        let p = format!("{}{}", dir, n);
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
}
pub fn apply(im: &mut Image, o: &Op) {
    match o.op {
        CREATE => {
            im.insert(o.path.clone(), vec![]);
        }
        WRITE => write_at(im, &o.path, o.off as usize, &o.data),
        TRUNC => {
            im.entry(o.path.clone()).or_default().resize(o.off as usize, 0);
        }
        UNLINK => {
            im.remove(&o.path);
        }
        RENAME => {
            if let Some(b) = im.remove(&o.path) {
                im.insert(o.path2.clone(), b);
            }
        }
        _ => (),
    }
}
pub fn write_at(im: &mut Image, path: &str, off: usize, d: &[u8]) {
    let b = im.entry(path.to_string()).or_default();
    if b.len() < off + d.len() {
        b.resize(off + d.len(), 0);
    }
    b[off..off + d.len()].copy_from_slice(d);
}
