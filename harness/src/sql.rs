//! Minimal binding to the system SQLite, to look at and damage token databases.
#![allow(dead_code)]
use std::ffi::{c_int, c_void, CStr, CString};
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Null,
    Int(i64),
    Text(String),
    Blob(Vec<u8>),
}
impl V {
    pub fn int(&self) -> i64 {
        if let V::Int(i) = self {
            *i
        } else {
            -1
        }
    }
    pub fn blob(&self) -> Option<&Vec<u8>> {
        if let V::Blob(b) = self {
            Some(b)
        } else {
            None
        }
    }
    pub fn text(&self) -> String {
        match self {
            V::Text(t) => t.clone(),
            V::Int(i) => i.to_string(),
            V::Blob(b) => String::from_utf8_lossy(b).into_owned(),
            V::Null => String::new(),
        }
    }
}
static LIB: OnceLock<usize> = OnceLock::new();
fn f(n: &str) -> *mut c_void {
    let h = *LIB.get_or_init(|| {
        let l = CString::new("libsqlite3.so.0").unwrap();
        unsafe { libc::dlopen(l.as_ptr(), libc::RTLD_NOW) as usize }
    });
    assert!(h != 0, "no libsqlite3");
    let n = CString::new(n).unwrap();
    unsafe { libc::dlsym(h as *mut c_void, n.as_ptr()) }
}
macro_rules! fun {
    ($n:expr, $($t:tt)*) => { unsafe { std::mem::transmute::<*mut c_void, extern "C" fn $($t)*>(f($n)) } };
}
pub struct Db(*mut c_void);
impl Db {
    pub fn open(path: &str) -> Result<Db, String> {
        let p = CString::new(path).unwrap();
        let mut h: *mut c_void = std::ptr::null_mut();
        let r = fun!("sqlite3_open_v2", (*const i8, *mut *mut c_void, c_int, *const i8) -> c_int)(p.as_ptr(), &mut h, 2, std::ptr::null());
        let d = Db(h);
        if r != 0 {
            return Err(d.err());
        }
        Ok(d)
    }
    fn err(&self) -> String {
        let m = fun!("sqlite3_errmsg", (*mut c_void) -> *const i8)(self.0);
        unsafe { CStr::from_ptr(m) }.to_string_lossy().into_owned()
    }
    pub fn q(&self, sql: &str, bind: &[V]) -> Result<Vec<Vec<V>>, String> {
        let s = CString::new(sql).unwrap();
        let mut st: *mut c_void = std::ptr::null_mut();
        if fun!("sqlite3_prepare_v2", (*mut c_void, *const i8, c_int, *mut *mut c_void, *mut *const i8) -> c_int)(self.0, s.as_ptr(), -1, &mut st, std::ptr::null_mut()) != 0 {
            return Err(self.err());
        }
        for (i, v) in bind.iter().enumerate() {
            let i = i as c_int + 1;
            match v {
                V::Null => {
                    fun!("sqlite3_bind_null", (*mut c_void, c_int) -> c_int)(st, i);
                }
                V::Int(n) => {
                    fun!("sqlite3_bind_int64", (*mut c_void, c_int, i64) -> c_int)(st, i, *n);
                }
                V::Text(t) => {
                    fun!("sqlite3_bind_text", (*mut c_void, c_int, *const u8, c_int, isize) -> c_int)(st, i, t.as_ptr(), t.len() as c_int, -1);
                }
                V::Blob(b) => {
                    fun!("sqlite3_bind_blob", (*mut c_void, c_int, *const u8, c_int, isize) -> c_int)(st, i, if b.is_empty() { 1 as *const u8 } else { b.as_ptr() }, b.len() as c_int, -1);
                }
            }
        }
        let mut rows = vec![];
        loop {
            match fun!("sqlite3_step", (*mut c_void) -> c_int)(st) {
                100 => {
                    let n = fun!("sqlite3_column_count", (*mut c_void) -> c_int)(st);
                    let mut row = vec![];
                    for i in 0..n {
                        let len = || fun!("sqlite3_column_bytes", (*mut c_void, c_int) -> c_int)(st, i) as usize;
                        row.push(match fun!("sqlite3_column_type", (*mut c_void, c_int) -> c_int)(st, i) {
                            1 => V::Int(fun!("sqlite3_column_int64", (*mut c_void, c_int) -> i64)(st, i)),
                            3 => {
                                let p = fun!("sqlite3_column_text", (*mut c_void, c_int) -> *const u8)(st, i);
                                V::Text(String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, len()) }).into_owned())
                            }
                            4 => {
                                let p = fun!("sqlite3_column_blob", (*mut c_void, c_int) -> *const u8)(st, i);
                                let n = len();
                                V::Blob(if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() })
                            }
                            _ => V::Null,
                        });
                    }
                    rows.push(row);
                }
                101 => break,
                _ => {
                    let e = self.err();
                    fun!("sqlite3_finalize", (*mut c_void) -> c_int)(st);
                    return Err(e);
                }
            }
        }
        fun!("sqlite3_finalize", (*mut c_void) -> c_int)(st);
        Ok(rows)
    }
}
impl Drop for Db {
    fn drop(&mut self) {
        fun!("sqlite3_close", (*mut c_void) -> c_int)(self.0);
    }
}
