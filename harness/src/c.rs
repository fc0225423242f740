//! Thin wrappers over the module's exported function table, with call logging and
//! guard bytes around every output buffer.
#![allow(dead_code)]
use crate::names::*;
use crate::p11::*;
use crate::w;
use std::collections::HashMap;
use std::ffi::c_void;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, OnceLock};

pub type RV = CK_RV;
pub type H = CK_ULONG;
pub type R<T> = Result<T, RV>;

static FL: AtomicUsize = AtomicUsize::new(0);
static DL: AtomicUsize = AtomicUsize::new(0);

pub fn load(path: &str) {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(libc::dlerror());
            eprintln!("dlopen {}: {:?}", path, e);
            std::process::exit(3);
        }
        DL.store(h as usize, Ordering::SeqCst);
        let gi = sym("C_GetInterface");
        let gi: unsafe extern "C" fn(*mut CK_UTF8CHAR, *mut CK_VERSION, *mut *mut CK_INTERFACE, CK_FLAGS) -> CK_RV = std::mem::transmute(gi);
        let mut v = CK_VERSION { major: 3, minor: 2 };
        let mut ifp: *mut CK_INTERFACE = null_mut();
        let mut rv = gi(b"PKCS 11\0".as_ptr() as *mut _, &mut v, &mut ifp, 0);
        if rv != CKR_OK {
            rv = gi(null_mut(), null_mut(), &mut ifp, 0);
        }
        if rv != CKR_OK || ifp.is_null() {
            eprintln!("C_GetInterface: {:#x}", rv);
            std::process::exit(3);
        }
        FL.store((*ifp).pFunctionList as usize, Ordering::SeqCst);
    }
}
pub fn sym(name: &str) -> *mut c_void {
    let n = std::ffi::CString::new(name).unwrap();
    unsafe { libc::dlsym(DL.load(Ordering::SeqCst) as *mut c_void, n.as_ptr()) }
}
pub fn fl() -> &'static CK_FUNCTION_LIST_3_2 {
    unsafe { &*(FL.load(Ordering::Relaxed) as *const CK_FUNCTION_LIST_3_2) }
}

fn map(t: &'static [(CK_ULONG, &'static str)]) -> HashMap<CK_ULONG, &'static str> {
    let mut m = HashMap::new();
    for (v, n) in t {
        m.entry(*v).or_insert(*n);
    }
    m
}
pub fn rvn(rv: RV) -> String {
    static M: OnceLock<HashMap<CK_ULONG, &'static str>> = OnceLock::new();
    M.get_or_init(|| map(CKR_T)).get(&rv).map(|s| s.to_string()).unwrap_or(format!("{:#x}", rv))
}
pub fn ckmn(v: CK_ULONG) -> String {
    static M: OnceLock<HashMap<CK_ULONG, &'static str>> = OnceLock::new();
    if v == KRM_SSHKDF_DERIVE {
        return "KRM_SSHKDF_DERIVE".into();
    }
    M.get_or_init(|| map(CKM_T)).get(&v).map(|s| s.to_string()).unwrap_or(format!("{:#x}", v))
}
pub fn ckan(v: CK_ULONG) -> String {
    static M: OnceLock<HashMap<CK_ULONG, &'static str>> = OnceLock::new();
    M.get_or_init(|| map(CKA_T)).get(&v).map(|s| s.to_string()).unwrap_or(format!("{:#x}", v))
}

// ---------- logging ----------
thread_local! { static TID: u32 = { static N: AtomicUsize = AtomicUsize::new(0); N.fetch_add(1, Ordering::Relaxed) as u32 }; }
pub fn note(s: &str) {
    if w::ring_on() {
        w::ring(&format!("-- {}\n", s));
    }
}
#[macro_export]
macro_rules! note { ($($a:tt)*) => { if $crate::w::ring_on() { $crate::c::note(&format!($($a)*)) } }; }

macro_rules! call {
    ($f:ident, [$($l:tt)*], $($a:expr),*) => {{
        if w::ring_on() {
            let t = TID.with(|t| *t);
            w::ring(&format!("[{}] {}({})", t, stringify!($f), format!($($l)*)));
        }
        let rv = unsafe { (fl().$f.unwrap())($($a),*) };
        if w::ring_on() { w::ring(&format!(" = {}\n", rvn(rv))); }
        rv
    }};
}
pub(crate) use call;

fn ok(rv: RV) -> R<()> {
    if rv == CKR_OK {
        Ok(())
    } else {
        Err(rv)
    }
}
pub fn rvof<T>(r: &R<T>) -> RV {
    match r {
        Ok(_) => CKR_OK,
        Err(e) => *e,
    }
}
pub fn rn<T>(r: &R<T>) -> String {
    rvn(rvof(r))
}

// ---------- templates ----------
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct T(pub Vec<(CK_ULONG, Vec<u8>)>);
impl T {
    pub fn new() -> T {
        T(vec![])
    }
    pub fn b(mut self, a: CK_ULONG, v: bool) -> T {
        self.0.push((a, vec![v as u8]));
        self
    }
    pub fn u(mut self, a: CK_ULONG, v: CK_ULONG) -> T {
        self.0.push((a, v.to_ne_bytes().to_vec()));
        self
    }
    pub fn v(mut self, a: CK_ULONG, v: &[u8]) -> T {
        self.0.push((a, v.to_vec()));
        self
    }
    pub fn s(self, a: CK_ULONG, v: &str) -> T {
        self.v(a, v.as_bytes())
    }
    pub fn mechs(mut self, v: &[CK_ULONG]) -> T {
        let mut b = vec![];
        for x in v {
            b.extend_from_slice(&x.to_ne_bytes());
        }
        self.0.push((CKA_ALLOWED_MECHANISMS, b));
        self
    }
    pub fn get(&self, a: CK_ULONG) -> Option<&Vec<u8>> {
        self.0.iter().find(|x| x.0 == a).map(|x| &x.1)
    }
    pub fn getb(&self, a: CK_ULONG) -> Option<bool> {
        self.get(a).map(|v| v.len() == 1 && v[0] != 0)
    }
    pub fn getu(&self, a: CK_ULONG) -> Option<CK_ULONG> {
        self.get(a).and_then(|v| v.as_slice().try_into().ok().map(CK_ULONG::from_ne_bytes))
    }
    pub fn pairs(&self) -> Vec<(CK_ULONG, Vec<u8>)> {
        self.0.clone()
    }
    pub fn has(&self, a: CK_ULONG) -> bool {
        self.get(a).is_some()
    }
    /// replace or add
    pub fn set(mut self, a: CK_ULONG, v: &[u8]) -> T {
        self.put(a, v);
        self
    }
    pub fn put(&mut self, a: CK_ULONG, v: &[u8]) {
        match self.0.iter_mut().find(|x| x.0 == a) {
            Some(x) => x.1 = v.to_vec(),
            None => self.0.push((a, v.to_vec())),
        }
    }
    pub fn setb(self, a: CK_ULONG, v: bool) -> T {
        self.set(a, &[v as u8])
    }
    pub fn setu(self, a: CK_ULONG, v: CK_ULONG) -> T {
        self.set(a, &v.to_ne_bytes())
    }
    pub fn del(mut self, a: CK_ULONG) -> T {
        self.0.retain(|x| x.0 != a);
        self
    }
    pub fn add(mut self, o: &T) -> T {
        for (a, v) in &o.0 {
            self.put(*a, v);
        }
        self
    }
    /// nested template attribute (CKA_WRAP_TEMPLATE and the like); buffers leaked on purpose
    pub fn tmpl(self, a: CK_ULONG, t: &T) -> T {
        let l: Box<T> = Box::new(t.clone());
        let l: &'static mut T = Box::leak(l);
        let ck: Vec<CK_ATTRIBUTE> = l.ck();
        let n = ck.len() * std::mem::size_of::<CK_ATTRIBUTE>();
        let p = Box::leak(ck.into_boxed_slice()).as_ptr() as *const u8;
        let v = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
        self.v(a, &v)
    }
    pub fn ck(&self) -> Vec<CK_ATTRIBUTE> {
        self.0
            .iter()
            .map(|(a, v)| CK_ATTRIBUTE { type_: *a, pValue: if v.is_empty() { null_mut() } else { v.as_ptr() as *mut c_void }, ulValueLen: v.len() as CK_ULONG })
            .collect()
    }
    pub fn show(&self) -> String {
        let mut s = String::from("{");
        for (a, v) in &self.0 {
            s.push_str(&format!("{}={} ", ckan(*a), w::hx(v)));
        }
        s.push('}');
        s
    }
}

// ---------- mechanisms ----------
#[derive(Clone)]
pub struct M {
    pub ty: CK_ULONG,
    p: Arc<Vec<u64>>,
    n: usize,
    keep: Vec<Arc<Vec<u8>>>,
    pub desc: String,
}
impl M {
    pub fn new(ty: CK_ULONG) -> M {
        M { ty, p: Arc::new(vec![]), n: 0, keep: vec![], desc: String::new() }
    }
    pub fn raw(ty: CK_ULONG, b: &[u8]) -> M {
        let mut v = vec![0u64; b.len().div_ceil(8)];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len()) };
        M { ty, p: Arc::new(v), n: b.len(), keep: vec![], desc: w::hx(b) }
    }
    /// mechanism with a C struct parameter; `keep` owns the buffers the struct points to
    pub fn st<S: Copy>(ty: CK_ULONG, s: &S, keep: Vec<Arc<Vec<u8>>>, desc: &str) -> M {
        let n = std::mem::size_of::<S>();
        let b = unsafe { std::slice::from_raw_parts(s as *const S as *const u8, n) };
        let mut m = M::raw(ty, b);
        m.keep = keep;
        m.desc = desc.to_string();
        m
    }
    pub fn ck(&self) -> CK_MECHANISM {
        CK_MECHANISM { mechanism: self.ty, pParameter: if self.n == 0 { null_mut() } else { self.p.as_ptr() as *mut c_void }, ulParameterLen: self.n as CK_ULONG }
    }
    pub fn pptr(&self) -> *mut c_void {
        self.p.as_ptr() as *mut c_void
    }
    pub fn plen(&self) -> CK_ULONG {
        self.n as CK_ULONG
    }
    pub fn setlen(mut self, n: usize) -> M {
        // truncated parameter (never longer than the buffer)
        self.n = n.min(self.p.len() * 8);
        self
    }
    pub fn show(&self) -> String {
        format!("{}[{}]", ckmn(self.ty), self.desc)
    }
}
pub fn arc(b: &[u8]) -> Arc<Vec<u8>> {
    Arc::new(b.to_vec())
}
pub fn aptr(a: &Arc<Vec<u8>>) -> *mut u8 {
    if a.is_empty() {
        null_mut()
    } else {
        a.as_ptr() as *mut u8
    }
}
pub fn inp(b: &[u8]) -> *mut u8 {
    // a non-null pointer even for empty data
    static E: [u8; 8] = [0; 8];
    if b.is_empty() {
        E.as_ptr() as *mut u8
    } else {
        b.as_ptr() as *mut u8
    }
}

// ---------- output buffers ----------
pub const GUARD: usize = 64;
#[derive(Clone, Debug)]
pub struct Out {
    pub rv: RV,
    pub len: CK_ULONG,
    pub buf: Vec<u8>, // cap bytes as left by the call
    pub cap: Option<usize>,
}
impl Out {
    /// was anything written to the buffer?
    pub fn touched(&self) -> bool {
        self.buf.iter().any(|x| *x != FILL)
    }
    pub fn val(self) -> R<Vec<u8>> {
        if self.rv != CKR_OK {
            return Err(self.rv);
        }
        let n = (self.len as usize).min(self.buf.len());
        Ok(self.buf[..n].to_vec())
    }
}
pub const FILL: u8 = 0xA5;
/// run an output call with `cap` bytes of buffer (None: null pointer query) between guard bytes
pub fn outcall(name: &str, cap: Option<usize>, mut f: impl FnMut(*mut u8, *mut CK_ULONG) -> RV) -> Out {
    match cap {
        None => {
            let mut l: CK_ULONG = 0;
            let rv = f(null_mut(), &mut l);
            Out { rv, len: l, buf: vec![], cap }
        }
        Some(c) => {
            let mut v = vec![FILL; c + 2 * GUARD];
            let mut l: CK_ULONG = c as CK_ULONG;
            let p = unsafe { v.as_mut_ptr().add(GUARD) };
            w::vg(w::VG_UNDEFINED, p, c);
            let rv = f(p, &mut l);
            if rv == CKR_OK && l as usize <= c {
                let bad = w::vg(w::VG_CHECK, p, l as usize);
                if bad != 0 {
                    crate::viol!(["P24"], &format!("undefined-output:{}", name), "{} returned {} bytes, byte {} of them was never given a value", name, l, bad - p as usize);
                }
            }
            w::vg(w::VG_DEFINED, p, c);
            if v[..GUARD].iter().any(|x| *x != FILL) || v[GUARD + c..].iter().any(|x| *x != FILL) {
                crate::viol!(["P21", "P24", "P25"], &format!("overrun:{}", name), "{} wrote outside the {} byte output buffer given (rv={} len={})", name, c, rvn(rv), l);
            }
            if rv == CKR_OK && l as usize > c {
                crate::viol!(["P21"], &format!("len-over-cap:{}", name), "{} returned CKR_OK with length {} larger than the buffer {}", name, l, c);
            }
            Out { rv, len: l, buf: v[GUARD..GUARD + c].to_vec(), cap }
        }
    }
}

// ---------- general ----------
pub fn initialize(reserved: Option<&str>) -> R<()> {
    let mut a = CK_C_INITIALIZE_ARGS::default();
    a.flags = CKF_OS_LOCKING_OK;
    let s = reserved.map(|r| std::ffi::CString::new(r).unwrap());
    if let Some(s) = &s {
        a.pReserved = s.as_ptr() as *mut c_void;
    }
    ok(call!(C_Initialize, ["{:?}", reserved], &mut a as *mut _ as *mut c_void))
}
pub fn finalize() -> R<()> {
    ok(call!(C_Finalize, [""], null_mut()))
}
pub fn slot_list(present: bool) -> R<Vec<CK_SLOT_ID>> {
    let mut n: CK_ULONG = 0;
    ok(call!(C_GetSlotList, ["{},NULL", present], present as u8, null_mut(), &mut n))?;
    let mut v = vec![0; n as usize];
    ok(call!(C_GetSlotList, ["{},{}", present, n], present as u8, v.as_mut_ptr(), &mut n))?;
    v.truncate(n as usize);
    Ok(v)
}
pub fn slot_info(s: CK_SLOT_ID) -> R<CK_SLOT_INFO> {
    let mut i = CK_SLOT_INFO::default();
    ok(call!(C_GetSlotInfo, ["{}", s], s, &mut i))?;
    Ok(i)
}
pub fn token_info(s: CK_SLOT_ID) -> R<CK_TOKEN_INFO> {
    let mut i = CK_TOKEN_INFO::default();
    ok(call!(C_GetTokenInfo, ["{}", s], s, &mut i))?;
    Ok(i)
}
pub fn mech_list(s: CK_SLOT_ID) -> R<Vec<CK_ULONG>> {
    let mut n: CK_ULONG = 0;
    ok(call!(C_GetMechanismList, ["{},NULL", s], s, null_mut(), &mut n))?;
    let mut v = vec![0; n as usize];
    ok(call!(C_GetMechanismList, ["{},{}", s, n], s, v.as_mut_ptr(), &mut n))?;
    v.truncate(n as usize);
    Ok(v)
}
pub fn mech_info(s: CK_SLOT_ID, m: CK_ULONG) -> R<CK_MECHANISM_INFO> {
    let mut i = CK_MECHANISM_INFO::default();
    ok(call!(C_GetMechanismInfo, ["{},{}", s, ckmn(m)], s, m, &mut i))?;
    Ok(i)
}
pub fn init_token(s: CK_SLOT_ID, pin: &[u8], label: &str) -> R<()> {
    let mut l = [b' '; 32];
    l[..label.len()].copy_from_slice(label.as_bytes());
    ok(call!(C_InitToken, ["{},{:?},{}", s, String::from_utf8_lossy(pin), label], s, inp(pin), pin.len() as CK_ULONG, l.as_mut_ptr()))
}
pub fn init_pin(s: H, pin: &[u8]) -> R<()> {
    ok(call!(C_InitPIN, ["{},{:?}", s, String::from_utf8_lossy(pin)], s, inp(pin), pin.len() as CK_ULONG))
}
pub fn set_pin(s: H, old: &[u8], new: &[u8]) -> R<()> {
    ok(call!(C_SetPIN, ["{},{:?},{:?}", s, String::from_utf8_lossy(old), String::from_utf8_lossy(new)], s, inp(old), old.len() as CK_ULONG, inp(new), new.len() as CK_ULONG))
}
pub fn open(slot: CK_SLOT_ID, rw: bool) -> R<H> {
    let mut h: H = 0;
    let f = CKF_SERIAL_SESSION | if rw { CKF_RW_SESSION } else { 0 };
    ok(call!(C_OpenSession, ["{},{}", slot, if rw { "RW" } else { "RO" }], slot, f, null_mut(), None, &mut h))?;
    note!("session {}", h);
    Ok(h)
}
pub fn open_flags(slot: CK_SLOT_ID, f: CK_FLAGS) -> R<H> {
    let mut h: H = 0;
    ok(call!(C_OpenSession, ["{},flags={:#x}", slot, f], slot, f, null_mut(), None, &mut h))?;
    Ok(h)
}
pub fn close(s: H) -> R<()> {
    ok(call!(C_CloseSession, ["{}", s], s))
}
pub fn close_all(slot: CK_SLOT_ID) -> R<()> {
    ok(call!(C_CloseAllSessions, ["{}", slot], slot))
}
pub fn session_info(s: H) -> R<CK_SESSION_INFO> {
    let mut i = CK_SESSION_INFO::default();
    ok(call!(C_GetSessionInfo, ["{}", s], s, &mut i))?;
    Ok(i)
}
pub fn login(s: H, u: CK_USER_TYPE, pin: &[u8]) -> R<()> {
    ok(call!(C_Login, ["{},{},{:?}", s, u, String::from_utf8_lossy(pin)], s, u, inp(pin), pin.len() as CK_ULONG))
}
pub fn login_user(s: H, u: CK_USER_TYPE, pin: &[u8], name: &[u8]) -> R<()> {
    ok(call!(C_LoginUser, ["{},{},{:?}", s, u, String::from_utf8_lossy(pin)], s, u, inp(pin), pin.len() as CK_ULONG, inp(name), name.len() as CK_ULONG))
}
pub fn logout(s: H) -> R<()> {
    ok(call!(C_Logout, ["{}", s], s))
}
pub fn session_cancel(s: H, f: CK_FLAGS) -> R<()> {
    ok(call!(C_SessionCancel, ["{},{:#x}", s, f], s, f))
}
pub fn get_op_state_o(s: H, cap: Option<usize>) -> Out {
    outcall("C_GetOperationState", cap, |p, l| call!(C_GetOperationState, ["{},{:?}", s, cap], s, p, l))
}
pub fn get_op_state(s: H) -> R<Vec<u8>> {
    get_op_state_o(s, Some(4096)).val()
}
pub fn set_op_state(s: H, st: &[u8], ek: H, ak: H) -> R<()> {
    ok(call!(C_SetOperationState, ["{},len={}", s, st.len()], s, inp(st), st.len() as CK_ULONG, ek, ak))
}

// ---------- objects ----------
pub fn create(s: H, t: &T) -> R<H> {
    let mut ck = t.ck();
    let mut h: H = 0;
    ok(call!(C_CreateObject, ["{},{}", s, t.show()], s, ck.as_mut_ptr(), ck.len() as CK_ULONG, &mut h))?;
    note!("object {}", h);
    Ok(h)
}
pub fn copy(s: H, o: H, t: &T) -> R<H> {
    let mut ck = t.ck();
    let mut h: H = 0;
    ok(call!(C_CopyObject, ["{},{},{}", s, o, t.show()], s, o, ck.as_mut_ptr(), ck.len() as CK_ULONG, &mut h))?;
    note!("object {}", h);
    Ok(h)
}
pub fn destroy(s: H, o: H) -> R<()> {
    ok(call!(C_DestroyObject, ["{},{}", s, o], s, o))
}
pub fn size(s: H, o: H) -> R<CK_ULONG> {
    let mut n: CK_ULONG = 0;
    ok(call!(C_GetObjectSize, ["{},{}", s, o], s, o, &mut n))?;
    Ok(n)
}
pub fn set(s: H, o: H, t: &T) -> R<()> {
    let mut ck = t.ck();
    ok(call!(C_SetAttributeValue, ["{},{},{}", s, o, t.show()], s, o, ck.as_mut_ptr(), ck.len() as CK_ULONG))
}
/// length query for a list of attributes: overall rv and per attribute length
pub fn attr_lens(s: H, o: H, a: &[CK_ULONG]) -> (RV, Vec<CK_ULONG>) {
    let mut ck: Vec<CK_ATTRIBUTE> = a.iter().map(|x| CK_ATTRIBUTE { type_: *x, pValue: null_mut(), ulValueLen: 0 }).collect();
    let rv = call!(C_GetAttributeValue, ["{},{},len of {:?}", s, o, a.iter().map(|x| ckan(*x)).collect::<Vec<_>>()], s, o, ck.as_mut_ptr(), ck.len() as CK_ULONG);
    (rv, ck.iter().map(|x| x.ulValueLen).collect())
}
/// get attributes with buffers of 8 KiB each; None for unavailable
pub fn attrs(s: H, o: H, a: &[CK_ULONG]) -> (RV, Vec<Option<Vec<u8>>>) {
    attrs_cap(s, o, a, 8192)
}
pub fn attrs_cap(s: H, o: H, a: &[CK_ULONG], cap: usize) -> (RV, Vec<Option<Vec<u8>>>) {
    let mut bufs: Vec<Vec<u8>> = a.iter().map(|_| vec![FILL; cap + GUARD]).collect();
    let mut ck: Vec<CK_ATTRIBUTE> = a.iter().zip(bufs.iter_mut()).map(|(x, b)| CK_ATTRIBUTE { type_: *x, pValue: b.as_mut_ptr() as *mut c_void, ulValueLen: cap as CK_ULONG }).collect();
    let rv = call!(C_GetAttributeValue, ["{},{},{:?}", s, o, a.iter().map(|x| ckan(*x)).collect::<Vec<_>>()], s, o, ck.as_mut_ptr(), ck.len() as CK_ULONG);
    let mut r = vec![];
    for (i, c) in ck.iter().enumerate() {
        if bufs[i][cap..].iter().any(|x| *x != FILL) {
            crate::viol!(["P21", "P24"], "overrun:C_GetAttributeValue", "attribute {} written beyond the {} byte buffer", ckan(a[i]), cap);
        }
        if c.ulValueLen == CK_UNAVAILABLE_INFORMATION {
            r.push(None)
        } else {
            let n = c.ulValueLen as usize;
            if n > cap {
                crate::viol!(["P21"], "len-over-cap:C_GetAttributeValue", "attribute {} length {} with a {} byte buffer, rv {}", ckan(a[i]), n, cap, rvn(rv));
                r.push(None)
            } else {
                r.push(Some(bufs[i][..n].to_vec()))
            }
        }
    }
    (rv, r)
}
pub fn attr(s: H, o: H, a: CK_ULONG) -> R<Vec<u8>> {
    let (rv, mut v) = attrs(s, o, &[a]);
    if rv != CKR_OK {
        return Err(rv);
    }
    v[0].take().ok_or(CKR_GENERAL_ERROR)
}
pub fn attr_b(s: H, o: H, a: CK_ULONG) -> R<bool> {
    attr(s, o, a).map(|v| v == [1])
}
pub fn attr_u(s: H, o: H, a: CK_ULONG) -> R<CK_ULONG> {
    let v = attr(s, o, a)?;
    v.as_slice().try_into().map(CK_ULONG::from_ne_bytes).map_err(|_| CKR_GENERAL_ERROR)
}
pub fn find_init(s: H, t: &T) -> R<()> {
    let mut ck = t.ck();
    ok(call!(C_FindObjectsInit, ["{},{}", s, t.show()], s, ck.as_mut_ptr(), ck.len() as CK_ULONG))
}
pub fn find_next(s: H, n: usize) -> R<Vec<H>> {
    let mut v = vec![0xdeadbeefu64 as H; n + 4];
    let mut c: CK_ULONG = 0;
    ok(call!(C_FindObjects, ["{},{}", s, n], s, v.as_mut_ptr(), n as CK_ULONG, &mut c))?;
    if c as usize > n || v[n..].iter().any(|x| *x != 0xdeadbeef) {
        crate::viol!(["P08", "P21", "P24"], "overrun:C_FindObjects", "C_FindObjects with room for {} returned {}", n, c);
    }
    v.truncate((c as usize).min(n));
    Ok(v)
}
pub fn find_final(s: H) -> R<()> {
    ok(call!(C_FindObjectsFinal, ["{}", s], s))
}
pub fn find(s: H, t: &T) -> R<Vec<H>> {
    find_init(s, t)?;
    let mut all = vec![];
    loop {
        match find_next(s, 64) {
            Ok(v) => {
                if v.is_empty() {
                    break;
                }
                all.extend(v)
            }
            Err(e) => {
                let _ = find_final(s);
                return Err(e);
            }
        }
        if all.len() > 100_000 {
            crate::viol!(["P08"], "find-endless", "C_FindObjects never ends");
            break;
        }
    }
    find_final(s)?;
    Ok(all)
}

// ---------- crypto ----------
macro_rules! initfn {
    ($n:ident, $f:ident) => {
        pub fn $n(s: H, m: &M, k: H) -> R<()> {
            let mut ck = m.ck();
            ok(call!($f, ["{},{},{}", s, m.show(), k], s, &mut ck, k))
        }
    };
}
initfn!(encrypt_init, C_EncryptInit);
initfn!(decrypt_init, C_DecryptInit);
initfn!(sign_init, C_SignInit);
initfn!(verify_init, C_VerifyInit);
initfn!(sign_recover_init, C_SignRecoverInit);
initfn!(verify_recover_init, C_VerifyRecoverInit);
initfn!(msg_encrypt_init, C_MessageEncryptInit);
initfn!(msg_decrypt_init, C_MessageDecryptInit);
initfn!(msg_sign_init, C_MessageSignInit);
initfn!(msg_verify_init, C_MessageVerifyInit);
pub fn digest_init(s: H, m: &M) -> R<()> {
    let mut ck = m.ck();
    ok(call!(C_DigestInit, ["{},{}", s, m.show()], s, &mut ck))
}
macro_rules! inout {
    ($n:ident, $o:ident, $f:ident) => {
        pub fn $o(s: H, d: &[u8], cap: Option<usize>) -> Out {
            outcall(stringify!($f), cap, |p, l| call!($f, ["{},{},cap={:?}", s, w::hx(d), cap], s, inp(d), d.len() as CK_ULONG, p, l))
        }
        pub fn $n(s: H, d: &[u8]) -> R<Vec<u8>> {
            $o(s, d, Some(d.len() + 2048)).val()
        }
    };
}
inout!(encrypt, encrypt_o, C_Encrypt);
inout!(encrypt_update, encrypt_update_o, C_EncryptUpdate);
inout!(decrypt, decrypt_o, C_Decrypt);
inout!(decrypt_update, decrypt_update_o, C_DecryptUpdate);
inout!(digest, digest_o, C_Digest);
inout!(sign, sign_o, C_Sign);
inout!(sign_recover, sign_recover_o, C_SignRecover);
inout!(verify_recover, verify_recover_o, C_VerifyRecover);
inout!(digest_encrypt_update, digest_encrypt_update_o, C_DigestEncryptUpdate);
inout!(decrypt_digest_update, decrypt_digest_update_o, C_DecryptDigestUpdate);
inout!(sign_encrypt_update, sign_encrypt_update_o, C_SignEncryptUpdate);
inout!(decrypt_verify_update, decrypt_verify_update_o, C_DecryptVerifyUpdate);
macro_rules! outonly {
    ($n:ident, $o:ident, $f:ident) => {
        pub fn $o(s: H, cap: Option<usize>) -> Out {
            outcall(stringify!($f), cap, |p, l| call!($f, ["{},cap={:?}", s, cap], s, p, l))
        }
        pub fn $n(s: H) -> R<Vec<u8>> {
            $o(s, Some(8192)).val()
        }
    };
}
outonly!(encrypt_final, encrypt_final_o, C_EncryptFinal);
outonly!(decrypt_final, decrypt_final_o, C_DecryptFinal);
outonly!(digest_final, digest_final_o, C_DigestFinal);
outonly!(sign_final, sign_final_o, C_SignFinal);
macro_rules! inonly {
    ($n:ident, $f:ident) => {
        pub fn $n(s: H, d: &[u8]) -> R<()> {
            ok(call!($f, ["{},{}", s, w::hx(d)], s, inp(d), d.len() as CK_ULONG))
        }
    };
}
inonly!(digest_update, C_DigestUpdate);
inonly!(sign_update, C_SignUpdate);
inonly!(verify_update, C_VerifyUpdate);
inonly!(verify_final, C_VerifyFinal);
inonly!(seed_random, C_SeedRandom);
inonly!(verify_signature, C_VerifySignature);
inonly!(verify_signature_update, C_VerifySignatureUpdate);
macro_rules! sonly {
    ($n:ident, $f:ident) => {
        pub fn $n(s: H) -> R<()> {
            ok(call!($f, ["{}", s], s))
        }
    };
}
sonly!(verify_signature_final, C_VerifySignatureFinal);
sonly!(msg_encrypt_final, C_MessageEncryptFinal);
sonly!(msg_decrypt_final, C_MessageDecryptFinal);
sonly!(msg_sign_final, C_MessageSignFinal);
sonly!(msg_verify_final, C_MessageVerifyFinal);
pub fn digest_key(s: H, k: H) -> R<()> {
    ok(call!(C_DigestKey, ["{},{}", s, k], s, k))
}
pub fn verify(s: H, d: &[u8], sig: &[u8]) -> R<()> {
    ok(call!(C_Verify, ["{},{},{}", s, w::hx(d), w::hx(sig)], s, inp(d), d.len() as CK_ULONG, inp(sig), sig.len() as CK_ULONG))
}
pub fn verify_signature_init(s: H, m: &M, k: H, sig: &[u8]) -> R<()> {
    let mut ck = m.ck();
    ok(call!(C_VerifySignatureInit, ["{},{},{},{}", s, m.show(), k, w::hx(sig)], s, &mut ck, k, inp(sig), sig.len() as CK_ULONG))
}
pub fn random(s: H, n: usize) -> R<Vec<u8>> {
    let mut v = vec![0u8; n];
    ok(call!(C_GenerateRandom, ["{},{}", s, n], s, if n == 0 { inp(&[]) } else { v.as_mut_ptr() }, n as CK_ULONG))?;
    Ok(v)
}
pub fn generate_key(s: H, m: &M, t: &T) -> R<H> {
    let mut ck = t.ck();
    let mut mm = m.ck();
    let mut h: H = 0;
    ok(call!(C_GenerateKey, ["{},{},{}", s, m.show(), t.show()], s, &mut mm, ck.as_mut_ptr(), ck.len() as CK_ULONG, &mut h))?;
    note!("object {}", h);
    Ok(h)
}
pub fn generate_pair(s: H, m: &M, pt: &T, st: &T) -> R<(H, H)> {
    let mut ck = pt.ck();
    let mut cs = st.ck();
    let mut mm = m.ck();
    let (mut h, mut g): (H, H) = (0, 0);
    ok(call!(C_GenerateKeyPair, ["{},{},{},{}", s, m.show(), pt.show(), st.show()], s, &mut mm, ck.as_mut_ptr(), ck.len() as CK_ULONG, cs.as_mut_ptr(), cs.len() as CK_ULONG, &mut h, &mut g))?;
    note!("objects {} {}", h, g);
    Ok((h, g))
}
pub fn wrap_o(s: H, m: &M, wk: H, k: H, cap: Option<usize>) -> Out {
    let mut mm = m.ck();
    outcall("C_WrapKey", cap, |p, l| call!(C_WrapKey, ["{},{},{},{},cap={:?}", s, m.show(), wk, k, cap], s, &mut mm, wk, k, p, l))
}
pub fn wrap(s: H, m: &M, wk: H, k: H) -> R<Vec<u8>> {
    wrap_o(s, m, wk, k, Some(8192)).val()
}
pub fn unwrap(s: H, m: &M, wk: H, d: &[u8], t: &T) -> R<H> {
    let mut ck = t.ck();
    let mut mm = m.ck();
    let mut h: H = 0;
    ok(call!(C_UnwrapKey, ["{},{},{},{},{}", s, m.show(), wk, w::hx(d), t.show()], s, &mut mm, wk, inp(d), d.len() as CK_ULONG, ck.as_mut_ptr(), ck.len() as CK_ULONG, &mut h))?;
    note!("object {}", h);
    Ok(h)
}
pub fn derive(s: H, m: &M, k: H, t: &T) -> R<H> {
    let mut ck = t.ck();
    let mut mm = m.ck();
    let mut h: H = 0;
    ok(call!(C_DeriveKey, ["{},{},{},{}", s, m.show(), k, t.show()], s, &mut mm, k, ck.as_mut_ptr(), ck.len() as CK_ULONG, &mut h))?;
    note!("object {}", h);
    Ok(h)
}
/// derive for mechanisms that return no handle through the last argument
pub fn derive_nohandle(s: H, m: &M, k: H, t: &T) -> R<()> {
    let mut ck = t.ck();
    let mut mm = m.ck();
    ok(call!(C_DeriveKey, ["{},{},{},{},NULL", s, m.show(), k, t.show()], s, &mut mm, k, ck.as_mut_ptr(), ck.len() as CK_ULONG, null_mut()))
}

// message API: parameter given as an M (its parameter bytes are the message parameter)
pub fn encrypt_message_o(s: H, m: &M, aad: &[u8], d: &[u8], cap: Option<usize>) -> Out {
    outcall("C_EncryptMessage", cap, |p, l| call!(C_EncryptMessage, ["{},{},aad={},{},cap={:?}", s, m.show(), w::hx(aad), w::hx(d), cap], s, m.pptr(), m.plen(), inp(aad), aad.len() as CK_ULONG, inp(d), d.len() as CK_ULONG, p, l))
}
pub fn decrypt_message_o(s: H, m: &M, aad: &[u8], d: &[u8], cap: Option<usize>) -> Out {
    outcall("C_DecryptMessage", cap, |p, l| call!(C_DecryptMessage, ["{},{},aad={},{},cap={:?}", s, m.show(), w::hx(aad), w::hx(d), cap], s, m.pptr(), m.plen(), inp(aad), aad.len() as CK_ULONG, inp(d), d.len() as CK_ULONG, p, l))
}
pub fn encrypt_message_begin(s: H, m: &M, aad: &[u8]) -> R<()> {
    ok(call!(C_EncryptMessageBegin, ["{},{},aad={}", s, m.show(), w::hx(aad)], s, m.pptr(), m.plen(), inp(aad), aad.len() as CK_ULONG))
}
pub fn decrypt_message_begin(s: H, m: &M, aad: &[u8]) -> R<()> {
    ok(call!(C_DecryptMessageBegin, ["{},{},aad={}", s, m.show(), w::hx(aad)], s, m.pptr(), m.plen(), inp(aad), aad.len() as CK_ULONG))
}
pub fn encrypt_message_next_o(s: H, m: &M, d: &[u8], cap: Option<usize>, end: bool) -> Out {
    let f = if end { CKF_END_OF_MESSAGE } else { 0 };
    outcall("C_EncryptMessageNext", cap, |p, l| call!(C_EncryptMessageNext, ["{},{},{},cap={:?},end={}", s, m.show(), w::hx(d), cap, end], s, m.pptr(), m.plen(), inp(d), d.len() as CK_ULONG, p, l, f))
}
pub fn decrypt_message_next_o(s: H, m: &M, d: &[u8], cap: Option<usize>, end: bool) -> Out {
    let f = if end { CKF_END_OF_MESSAGE } else { 0 };
    outcall("C_DecryptMessageNext", cap, |p, l| call!(C_DecryptMessageNext, ["{},{},{},cap={:?},end={}", s, m.show(), w::hx(d), cap, end], s, m.pptr(), m.plen(), inp(d), d.len() as CK_ULONG, p, l, f))
}
pub fn sign_message_o(s: H, d: &[u8], cap: Option<usize>) -> Out {
    outcall("C_SignMessage", cap, |p, l| call!(C_SignMessage, ["{},{},cap={:?}", s, w::hx(d), cap], s, null_mut(), 0, inp(d), d.len() as CK_ULONG, p, l))
}
pub fn verify_message(s: H, d: &[u8], sig: &[u8]) -> R<()> {
    ok(call!(C_VerifyMessage, ["{},{},{}", s, w::hx(d), w::hx(sig)], s, null_mut(), 0, inp(d), d.len() as CK_ULONG, inp(sig), sig.len() as CK_ULONG))
}
