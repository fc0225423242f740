//! Token set-up helpers shared by the workloads.
#![allow(dead_code)]
use crate::c::{self, *};
use crate::p11::*;
use crate::w;

pub const SO: &[u8] = b"so-pin-87654321";
pub const USER: &[u8] = b"user-pin-12345678";

/// unwrap a call result that the property requires to succeed
pub trait Must<V> {
    fn must(self, what: &str) -> V;
}
impl<V> Must<V> for R<V> {
    #[track_caller]
    fn must(self, what: &str) -> V {
        match self {
            Ok(v) => v,
            Err(e) => {
                let p = w::prop();
                let l = std::panic::Location::caller();
                w::viol(&[&p], &format!("must-succeed:{}", what), &format!("{} failed with {} ({}:{})", what, rvn(e), l.file(), l.line()));
                std::panic::panic_any(Bail);
            }
        }
    }
}
pub struct Bail;

#[derive(Clone)]
pub struct SlotCfg {
    pub slot: u64,
    pub dbtype: &'static str,
    pub dbargs: String,
    pub extra: String,
}
pub fn sqlite(slot: u64, dir: &str, name: &str) -> SlotCfg {
    SlotCfg { slot, dbtype: "sqlite", dbargs: format!("{}/{}.sql", dir, name), extra: String::new() }
}
pub fn nss(slot: u64, dir: &str) -> SlotCfg {
    let _ = std::fs::create_dir_all(dir);
    SlotCfg { slot, dbtype: "nssdb", dbargs: format!("configDir='{}' flags=passwordRequired", dir), extra: String::new() }
}
pub fn conf_text(slots: &[SlotCfg], head: &str) -> String {
    let mut s = String::from(head);
    for x in slots {
        s.push_str(&format!("[[slots]]\nslot = {}\ndbtype = \"{}\"\ndbargs = \"{}\"\n{}\n", x.slot, x.dbtype, x.dbargs, x.extra));
    }
    s
}
pub fn write_conf(dir: &str, slots: &[SlotCfg]) -> String {
    let p = format!("{}/token.conf", dir);
    std::fs::write(&p, conf_text(slots, "[ec_point_encoding]\nencoding = \"Bytes\"\n\n")).unwrap();
    format!("kryoptic_conf={}", p)
}
pub struct Tok {
    pub conf: String,
    pub slot: CK_SLOT_ID,
    pub dir: String,
}
/// fresh scratch subdirectory of this worker
pub fn scratch(name: &str) -> String {
    let d = format!("{}/{}", w::dir(), name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn init_pins(slot: CK_SLOT_ID) {
    c::init_token(slot, SO, "kv-token").must("C_InitToken");
    let s = c::open(slot, true).must("C_OpenSession");
    c::login(s, CKU_SO, SO).must("C_Login(SO)");
    c::init_pin(s, USER).must("C_InitPIN");
    c::logout(s).must("C_Logout");
    c::close(s).must("C_CloseSession");
}
/// one initialised sqlite token in slot 0 with user pin set
pub fn fresh(name: &str) -> Tok {
    let dir = scratch(name);
    let conf = write_conf(&dir, &[sqlite(0, &dir, "token")]);
    c::initialize(Some(&conf)).must("C_Initialize");
    init_pins(0);
    Tok { conf, slot: 0, dir }
}
pub fn fresh_nss(name: &str) -> Tok {
    let dir = scratch(name);
    let db = format!("{}/nss", dir);
    let conf = write_conf(&dir, &[nss(0, &db)]);
    c::initialize(Some(&conf)).must("C_Initialize");
    init_pins(0);
    Tok { conf, slot: 0, dir }
}
impl Tok {
    pub fn rw_user(&self) -> H {
        let s = c::open(self.slot, true).must("C_OpenSession");
        match c::login(s, CKU_USER, USER) {
            Ok(()) | Err(CKR_USER_ALREADY_LOGGED_IN) => {}
            r => r.must("C_Login(USER)"),
        }
        s
    }
    pub fn end(&self) {
        c::finalize().must("C_Finalize");
        let _ = std::fs::remove_dir_all(&self.dir);
    }
    pub fn restart(&self) {
        c::finalize().must("C_Finalize");
        c::initialize(Some(&self.conf)).must("C_Initialize");
    }
}

// ---- templates ----
pub fn aes_t(val: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).v(CKA_VALUE, val)
}
pub fn secret_t(kt: CK_ULONG, val: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).v(CKA_VALUE, val)
}
pub fn data_t(val: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_DATA).s(CKA_APPLICATION, "kv").v(CKA_VALUE, val)
}
