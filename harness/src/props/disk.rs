//! What reaches the disk: crash points, storage faults, secrets in files (P10, P11, P12, P28).
use crate::c::{self, *};
use crate::p11::*;
use crate::shim::{self, Image};
use crate::sql::{Db, V};
use crate::tok::*;
use crate::w::{self, hex, Rng};
use crate::{job, ops, refc, times, viol, Job};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P10" => {
            let mut v = times(11 * k, |_| job("disk.crash", 0, 25_000).shim());
            v.extend(times(4 * k, |_| job("disk.crash", 1, 30_000).shim()));
            v
        }
        "P11" => {
            let mut v = times(9 * k, |_| job("disk.fault", 0, 25_000).shim());
            v.extend(times(3 * k, |_| job("disk.fault", 1, 25_000).shim()));
            v.extend(times(4 * k, |_| job("disk.args", 0, 20_000)));
            v
        }
        "P12" => {
            let mut v = times(11 * k, |_| job("disk.secrets", 0, 20_000).shim());
            v.extend(times(4 * k, |_| job("disk.secrets", 1, 20_000).shim()));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    while w::time_left() && w::viols() < 40 {
        match job {
            "disk.crash" => crash(arg == 1, r),
            "disk.fault" => fault(arg == 1, r),
            "disk.secrets" => secrets(arg == 1, r),
            "disk.args" => super::disk::args(r),
            _ => panic!("{}", job),
        }
    }
}

pub const ATTRS: [CK_ULONG; 62] = [
    CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_APPLICATION, CKA_VALUE, CKA_OBJECT_ID, CKA_CERTIFICATE_TYPE, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_TRUSTED, CKA_CERTIFICATE_CATEGORY, CKA_CHECK_VALUE, CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID,
    CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_SIGN, CKA_SIGN_RECOVER, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_START_DATE, CKA_END_DATE, CKA_MODULUS, CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1,
    CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT, CKA_PUBLIC_KEY_INFO, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL, CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_KEY_GEN_MECHANISM, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE, CKA_EC_PARAMS,
    CKA_EC_POINT, CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED, CKA_ALLOWED_MECHANISMS, CKA_OTP_FORMAT, CKA_OTP_LENGTH, CKA_OTP_COUNTER, CKA_OTP_COUNTER_REQUIREMENT, CKA_PRIME, CKA_BASE, CKA_HASH_OF_SUBJECT_PUBLIC_KEY, CKA_URL, CKA_JAVA_MIDP_SECURITY_DOMAIN,
];
pub type Dump = BTreeMap<String, String>;
/// all attributes of one object
pub fn show_obj(s: H, o: H) -> (Vec<u8>, bool, String) {
    let (_, v) = c::attrs(s, o, &ATTRS);
    let mut t = String::new();
    let mut uid = vec![];
    let mut token = false;
    for (a, x) in ATTRS.iter().zip(v) {
        if let Some(x) = x {
            if *a == CKA_UNIQUE_ID {
                uid = x.clone();
            }
            if *a == CKA_TOKEN {
                token = x == [1];
            }
            if x.len() <= 40 {
                t.push_str(&format!("{}={} ", ckan(*a), hex(&x)));
            } else {
                t.push_str(&format!("{}=#{}:{:x} ", ckan(*a), x.len(), w::hash64(&x)));
            }
        }
    }
    (uid, token, t)
}
/// fingerprint of a key by use, for values that cannot be read
fn fingerprint(s: H, o: H) -> String {
    let (_, v) = c::attrs(s, o, &[CKA_CLASS, CKA_KEY_TYPE, CKA_ENCRYPT, CKA_SIGN]);
    let n = |i: usize| v[i].as_ref().filter(|x| x.len() == 8).map(|x| CK_ULONG::from_ne_bytes(x[..].try_into().unwrap()));
    let b = |i: usize| v[i].as_deref() == Some(&[1]);
    match (n(0), n(1)) {
        (Some(CKO_SECRET_KEY), Some(CKK_AES)) if b(2) => match c::encrypt_init(s, &M::new(CKM_AES_ECB), o) {
            Ok(()) => format!("ecb={}", showr(&c::encrypt(s, &[7u8; 16]))),
            Err(e) => format!("ecb={}", rvn(e)),
        },
        (Some(CKO_PRIVATE_KEY), Some(CKK_RSA)) if b(3) => match c::sign_init(s, &M::new(CKM_RSA_PKCS), o) {
            Ok(()) => format!("rsa={}", showr(&c::sign(s, b"probe"))),
            Err(e) => format!("rsa={}", rvn(e)),
        },
        (Some(CKO_PRIVATE_KEY), Some(CKK_EC)) if b(3) => match c::sign_init(s, &M::new(CKM_ECDSA), o) {
            Ok(()) => match c::sign(s, &[9u8; 32]) {
                Ok(x) => format!("ec={}", x.len()),
                Err(e) => format!("ec={}", rvn(e)),
            },
            Err(e) => format!("ec={}", rvn(e)),
        },
        _ => String::new(),
    }
}
fn showr(r: &R<Vec<u8>>) -> String {
    match r {
        Ok(v) => format!("{:x}", w::hash64(v)),
        Err(e) => rvn(*e),
    }
}
fn builtin(t: &str) -> bool {
    // profile and mechanism objects made by the library itself
    let cls = t.split(' ').next().unwrap_or("");
    cls == format!("CKA_CLASS={}", hex(&(CKO_PROFILE as u64).to_ne_bytes())) || cls == format!("CKA_CLASS={}", hex(&(CKO_MECHANISM as u64).to_ne_bytes()))
}
/// everything a fresh process can see of the token
pub fn dump_token(slot: CK_SLOT_ID, so: &[Vec<u8>], user: &[Vec<u8>]) -> Dump {
    let mut d = Dump::new();
    let ti = match c::token_info(slot) {
        Ok(t) => t,
        Err(e) => {
            d.insert("info".into(), rvn(e));
            return d;
        }
    };
    let fl = ti.flags & !(CKF_SO_PIN_COUNT_LOW | CKF_SO_PIN_FINAL_TRY | CKF_USER_PIN_COUNT_LOW | CKF_USER_PIN_FINAL_TRY);
    d.insert("info".into(), format!("{:x} {} {}", fl, String::from_utf8_lossy(&ti.label).trim(), String::from_utf8_lossy(&ti.serialNumber).trim()));
    if ti.flags & CKF_TOKEN_INITIALIZED == 0 {
        return d;
    }
    let s = match c::open(slot, true) {
        Ok(s) => s,
        Err(e) => {
            d.insert("open".into(), rvn(e));
            return d;
        }
    };
    let mut lg = |u: CK_USER_TYPE, name: &str, cands: &[Vec<u8>]| -> bool {
        let mut res = String::new();
        for p in cands {
            match c::login(s, u, p) {
                Ok(()) => {
                    d.insert(name.into(), format!("opens with {}", hex(p)));
                    return true;
                }
                Err(e) => res.push_str(&format!("{} ", rvn(e))),
            }
        }
        d.insert(name.into(), res);
        false
    };
    if lg(CKU_SO, "so-pin", so) {
        let _ = c::logout(s);
    }
    let logged = lg(CKU_USER, "user-pin", user);
    let _ = logged;
    match c::find(s, &T::new()) {
        Ok(v) => {
            for o in v {
                let (uid, tk, t) = show_obj(s, o);
                if builtin(&t) || !tk {
                    continue;
                }
                let f = fingerprint(s, o);
                d.insert(format!("obj:{}", String::from_utf8_lossy(&uid)), format!("{}{}", t, f));
            }
        }
        Err(e) => {
            d.insert("find".into(), rvn(e));
        }
    }
    let _ = c::close(s);
    d
}
pub fn diff(a: &Dump, b: &Dump) -> String {
    let mut t = String::new();
    for (k, v) in a {
        match b.get(k) {
            None => t.push_str(&format!("-{}: {}; ", k, v)),
            Some(x) if x != v => {
                // only the differing words
                let p: Vec<&str> = v.split(' ').collect();
                let q: Vec<&str> = x.split(' ').collect();
                let only = |m: &Vec<&str>, n: &Vec<&str>| m.iter().filter(|y| !n.contains(y)).cloned().collect::<Vec<_>>().join(" ");
                t.push_str(&format!("{}: [{}]->[{}]; ", k, only(&p, &q), only(&q, &p)));
            }
            _ => (),
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            t.push_str(&format!("+{}: {}; ", k, v));
        }
    }
    t.chars().take(900).collect()
}

/// what the hooks around one call saw
pub struct Step {
    pub name: &'static str,
    pub desc: String,
    pub rv: RV,
    pub ops: Vec<shim::Op>,
    pub so: Vec<Vec<u8>>,
    pub user: Vec<Vec<u8>>,
    pub label: String,
}
pub type Around = Box<dyn FnMut(&World, &'static str, bool, RV)>;
pub struct World {
    pub nss: bool,
    pub conf: String,
    pub dir: String,
    pub s: H,
    pub so: Vec<u8>,
    pub user: Vec<u8>,
    pub old: Vec<Vec<u8>>,
    pub steps: Vec<Step>,
    pub n: u32,
    /// (what, value) that must not be on disk
    pub secrets: Vec<(String, Vec<u8>)>,
    pub labels: u32,
    pub hotp: HashMap<Vec<u8>, u64>,
    pub record: bool,
    /// fault to apply to the next act
    pub plan: Option<(u32, i64, i64, i32, bool)>,
    pub plan_hits: i64,
}
fn pin(r: &mut Rng) -> Vec<u8> {
    (0..r.range(12, 20)).map(|_| b'a' + r.below(26) as u8).collect()
}
impl World {
    pub fn new(nss: bool, name: &str, r: &mut Rng, record: bool) -> World {
        let dir = scratch(name);
        let data = format!("{}/d", dir);
        std::fs::create_dir_all(&data).unwrap();
        let cfg = if nss { crate::tok::nss(0, &data) } else { sqlite(0, &data, "token") };
        let conf = write_conf(&dir, &[cfg]);
        if record {
            shim::dir(&data);
        }
        c::initialize(Some(&conf)).must("C_Initialize");
        let mut wl = World { nss, conf, dir: data, s: 0, so: SO.to_vec(), user: vec![], old: vec![], steps: vec![], n: 0, secrets: vec![], labels: 0, hotp: HashMap::new(), record, plan: None, plan_hits: 0 };
        if record {
            wl.so = pin(r);
        }
        let so = wl.so.clone();
        wl.act("C_InitToken", "first".into(), |_| c::init_token(0, &so, "kv-first")).must("C_InitToken");
        wl.s = c::open(0, true).must("C_OpenSession");
        c::login(wl.s, CKU_SO, &so).must("C_Login(SO)");
        let u = pin(r);
        wl.secret("SO PIN", &so);
        wl.secret("user PIN", &u);
        let s = wl.s;
        wl.user = u.clone();
        wl.act("C_InitPIN", "first".into(), |_| c::init_pin(s, &u)).must("C_InitPIN");
        c::logout(s).must("C_Logout");
        c::login(s, CKU_USER, &wl.user).must("C_Login(USER)");
        wl
    }
    pub fn secret(&mut self, what: &str, v: &[u8]) {
        if v.len() >= 8 {
            self.secrets.push((what.to_string(), v.to_vec()));
        }
    }
    pub fn act<X>(&mut self, name: &'static str, desc: String, f: impl FnOnce(&mut World) -> R<X>) -> R<X> {
        if self.record {
            shim::log(true);
        }
        if let Some((m, skip, max, e, sh)) = self.plan {
            shim::fault(m, skip, max, e, sh);
        }
        let res = f(self);
        if self.plan.is_some() {
            self.plan_hits = shim::nofault();
        }
        let ops = if self.record { shim::take() } else { vec![] };
        let label = String::new();
        self.steps.push(Step { name, desc, rv: rvof(&res), ops, so: vec![self.so.clone()], user: vec![self.user.clone()], label });
        res
    }
    /// back to an open session with the user logged in
    pub fn settle(&mut self) {
        match c::session_info(self.s) {
            Ok(i) if i.state == CKS_RW_USER_FUNCTIONS => return,
            Ok(i) if i.state == CKS_RW_SO_FUNCTIONS => {
                c::logout(self.s).must("C_Logout");
            }
            Ok(_) => (),
            Err(_) => self.s = c::open(0, true).must("C_OpenSession"),
        }
        match c::login(self.s, CKU_USER, &self.user) {
            Err(CKR_USER_PIN_NOT_INITIALIZED) => {
                c::login(self.s, CKU_SO, &self.so).must("C_Login(SO)");
                let (s, u) = (self.s, self.user.clone());
                let plan = self.plan.take();
                self.act("C_InitPIN", "after C_InitToken".into(), |_| c::init_pin(s, &u)).must("C_InitPIN");
                self.plan = plan;
                c::logout(self.s).must("C_Logout");
                c::login(self.s, CKU_USER, &self.user).must("C_Login(USER)");
            }
            r => r.must("C_Login(USER)"),
        }
    }
    pub fn restart(&mut self) {
        c::finalize().must("C_Finalize");
        c::initialize(Some(&self.conf)).must("C_Initialize");
        self.s = c::open(0, true).must("C_OpenSession");
        self.settle();
    }
    pub fn mine(&self, cls: CK_ULONG) -> Vec<H> {
        c::find(self.s, &T::new().u(CKA_CLASS, cls).b(CKA_TOKEN, true)).must("C_FindObjects")
    }
    pub fn any(&self, r: &mut Rng) -> Option<H> {
        let cls: &[CK_ULONG] = &[CKO_DATA, CKO_SECRET_KEY, CKO_SECRET_KEY, CKO_PRIVATE_KEY, CKO_PUBLIC_KEY, CKO_OTP_KEY];
        let v = self.mine(*r.pick(cls));
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    }
    fn lab(&mut self, r: &mut Rng) -> String {
        self.labels += 1;
        let n = if r.chance(1, 5) { 300 } else { 4 };
        format!("label-{}-{}", self.labels, hex(&r.bytes(n)))
    }
    /// one state-changing call
    pub fn step(&mut self, r: &mut Rng) -> (&'static str, RV) {
        self.settle();
        let s = self.s;
        let tok = !r.chance(1, 8);
        let label = self.lab(r);
        let common = |r: &mut Rng| T::new().b(CKA_TOKEN, tok).s(CKA_LABEL, &label).v(CKA_ID, &r.bytes(8));
        let sens = r.chance(1, 3);
        let keyt = |r: &mut Rng| common(r).b(CKA_SENSITIVE, sens).b(CKA_EXTRACTABLE, !sens).b(CKA_PRIVATE, r.chance(3, 4));
        let k = r.below(if self.nss { 28 } else { 34 });
        macro_rules! done {
            ($n:expr, $d:expr, $f:expr) => {{
                let x = self.act($n, $d, $f);
                ($n, rvof(&x))
            }};
        }
        match k {
            0..=3 => {
                let n = *r.pick(&[20usize, 30, 600, 5000]);
                let v = r.bytes(n);
                let (t, name): (T, &'static str) = match r.below(3) {
                    0 if !self.nss => (data_t(&v).b(CKA_TOKEN, tok).s(CKA_LABEL, &label).b(CKA_PRIVATE, r.bool()), "C_CreateObject"),
                    1 => (
                        T::new().u(CKA_CLASS, CKO_CERTIFICATE).u(CKA_CERTIFICATE_TYPE, CKC_X_509).b(CKA_TOKEN, tok).s(CKA_LABEL, &label).v(CKA_ID, &r.bytes(8)).v(CKA_SUBJECT, &refc::seq(&[r.bytes(20)])).v(CKA_ISSUER, &refc::seq(&[r.bytes(20)])).v(CKA_SERIAL_NUMBER, &refc::der_int(&r.bytes(9))).v(CKA_VALUE, &v),
                        "C_CreateObject",
                    ),
                    _ => {
                        let d = ops::ec_scalar(refc::P256, r);
                        let t = ops::ec_priv_t(refc::P256, &d);
                        self.secret(if tok { "EC private value" } else { "session EC private value" }, &d);
                        let mut x = common(r).b(CKA_SENSITIVE, sens).b(CKA_EXTRACTABLE, !sens).b(CKA_PRIVATE, r.chance(3, 4)).b(CKA_SIGN, true);
                        for (a, v) in t.0 {
                            if !x.has(a) {
                                x = x.v(a, &v);
                            }
                        }
                        (x, "C_CreateObject")
                    }
                };
                if !tok && v.len() <= 600 {
                    self.secret("session object", &v[..20]);
                    self.secret("session object label", label.as_bytes());
                }
                done!(name, t.show(), |_| c::create(s, &t))
            }
            4..=6 => {
                let kt = *r.pick(&[CKK_AES, CKK_GENERIC_SECRET, CKK_AES]);
                let n = *r.pick(&[16usize, 32]);
                let v = r.bytes(n);
                let t = keyt(r).u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).v(CKA_VALUE, &v).b(CKA_ENCRYPT, kt == CKK_AES).b(CKA_DERIVE, true);
                self.secret(if tok { "secret key value" } else { "session secret key value" }, &v);
                if !tok {
                    self.secret("session key label", label.as_bytes());
                }
                if r.chance(1, 4) {
                    // the same value twice
                    let _ = self.act("C_CreateObject", t.show(), |_| c::create(s, &t));
                }
                done!("C_CreateObject", t.show(), |_| c::create(s, &t))
            }
            7 => {
                let i = r.us(2);
                let rk = ops::rsa_priv(i);
                let mut t = keyt(r);
                for (a, v) in rk.0 {
                    if !t.has(a) {
                        t = t.v(a, &v);
                    }
                }
                for a in [CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT] {
                    if let Some(v) = t.get(a).cloned() {
                        self.secret(&format!("RSA {}", ckan(a)), &v);
                    }
                }
                done!("C_CreateObject", t.show(), |_| c::create(s, &t))
            }
            8..=10 => {
                let t = keyt(r).u(CKA_VALUE_LEN, 32).b(CKA_ENCRYPT, true);
                let x = self.act("C_GenerateKey", t.show(), |_| c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &t));
                if let (Ok(h), false) = (&x, sens) {
                    if let Ok(v) = c::attr(s, *h, CKA_VALUE) {
                        self.secret(if tok { "generated secret value" } else { "session generated secret value" }, &v);
                    }
                }
                ("C_GenerateKey", rvof(&x))
            }
            11..=12 => {
                let pt = T::new().b(CKA_TOKEN, r.chance(2, 3)).s(CKA_LABEL, &label).v(CKA_EC_PARAMS, refc::P256.oid).b(CKA_VERIFY, true);
                let st = keyt(r).b(CKA_SIGN, true).setb(CKA_TOKEN, r.chance(2, 3));
                let stok = st.getb(CKA_TOKEN) == Some(true);
                let x = self.act("C_GenerateKeyPair", format!("{} / {}", pt.show(), st.show()), |_| c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &pt, &st));
                if let (Ok((_, h)), false) = (&x, sens) {
                    if let Ok(v) = c::attr(s, *h, CKA_VALUE) {
                        self.secret(if stok { "generated EC private value" } else { "session generated EC private value" }, &v);
                    }
                }
                ("C_GenerateKeyPair", rvof(&x))
            }
            13..=14 => match self.any(r) {
                Some(o) => {
                    let t = T::new().s(CKA_LABEL, &label);
                    done!("C_CopyObject", format!("{} {}", o, t.show()), |_| c::copy(s, o, &t))
                }
                None => ("", 0),
            },
            15..=18 => match self.any(r) {
                Some(o) => {
                    let mut t = T::new().s(CKA_LABEL, &label);
                    if r.bool() {
                        let n = *r.pick(&[4usize, 8, 700]);
                        t = t.v(CKA_ID, &r.bytes(n));
                    }
                    if r.chance(1, 3) {
                        t = t.v(CKA_START_DATE, b"20240102");
                    }
                    done!("C_SetAttributeValue", format!("{} {}", o, t.show()), |_| c::set(s, o, &t))
                }
                None => ("", 0),
            },
            19..=20 => match self.any(r) {
                Some(o) => done!("C_DestroyObject", format!("{}", o), |_| c::destroy(s, o)),
                None => ("", 0),
            },
            21..=22 => {
                let v = r.bytes(32);
                self.secret("session base key", &v);
                let b = c::create(s, &secret_t(CKK_GENERIC_SECRET, &v).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)).must("C_CreateObject(session)");
                let t = keyt(r).u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).u(CKA_VALUE_LEN, 16).b(CKA_ENCRYPT, true);
                let hp = CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: CKF_HKDF_SALT_NULL, pSalt: std::ptr::null_mut(), ulSaltLen: 0, hSaltKey: 0, pInfo: std::ptr::null_mut(), ulInfoLen: 0 };
                let m = M::st(CKM_HKDF_DERIVE, &hp, vec![], "hkdf");
                let x = self.act("C_DeriveKey", t.show(), |_| c::derive(s, &m, b, &t));
                let _ = c::destroy(s, b);
                if x.is_ok() {
                    let dv = refc::hkdf_expand(refc::SHA256, &refc::hkdf_extract(refc::SHA256, &[0u8; 32], &v), b"", 16);
                    self.secret(if tok { "derived secret value" } else { "session derived secret value" }, &dv);
                }
                ("C_DeriveKey", rvof(&x))
            }
            23 => {
                let wkv = r.bytes(32);
                let kv = r.bytes(32);
                self.secret("unwrapped secret value", &kv);
                self.secret("session wrapping key", &wkv);
                let wk = c::create(s, &ops::aes_key(&wkv)).must("C_CreateObject(session)");
                let blob = refc::kw(&wkv, &kv, &[0xa6; 8]);
                let t = keyt(r).u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).b(CKA_ENCRYPT, true);
                let x = self.act("C_UnwrapKey", t.show(), |_| c::unwrap(s, &M::new(CKM_AES_KEY_WRAP), wk, &blob, &t));
                let _ = c::destroy(s, wk);
                ("C_UnwrapKey", rvof(&x))
            }
            24..=25 => {
                // change the user PIN (NSS tokens lose their stored keys then: known finding of P02)
                if self.nss && !(self.mine(CKO_SECRET_KEY).is_empty() && self.mine(CKO_PRIVATE_KEY).is_empty() && self.mine(CKO_PUBLIC_KEY).is_empty()) {
                    return ("", 0);
                }
                let np = pin(r);
                let op = self.user.clone();
                self.secret("user PIN", &np);
                let x = self.act("C_SetPIN", "user".into(), |_| c::set_pin(s, &op, &np));
                if x.is_ok() {
                    self.user = np;
                    self.old.push(op);
                } else {
                    self.old.push(np);
                }
                let n = self.steps.len() - 1;
                self.steps[n].user.push(self.user.clone());
                ("C_SetPIN", rvof(&x))
            }
            26 => {
                c::logout(s).must("C_Logout");
                let mut bad = self.user.clone();
                bad[0] ^= 1;
                let x = self.act("C_Login", "wrong PIN".into(), |_| c::login(s, CKU_USER, &bad));
                ("C_Login(bad)", rvof(&x))
            }
            27 => {
                c::logout(s).must("C_Logout");
                let mut bad = self.user.clone();
                bad[0] ^= 1;
                let _ = c::login(s, CKU_USER, &bad);
                let good = self.user.clone();
                let x = self.act("C_Login", "after a failure".into(), |_| c::login(s, CKU_USER, &good));
                ("C_Login", rvof(&x))
            }
            28 => {
                // the SO changes a PIN
                c::logout(s).must("C_Logout");
                c::login(s, CKU_SO, &self.so.clone()).must("C_Login(SO)");
                let np = pin(r);
                self.secret("PIN", &np);
                if r.bool() {
                    let op = self.so.clone();
                    let x = self.act("C_SetPIN", "SO".into(), |_| c::set_pin(s, &op, &np));
                    if x.is_ok() {
                        self.so = np;
                    }
                    let n = self.steps.len() - 1;
                    self.steps[n].so.push(self.so.clone());
                    ("C_SetPIN(SO)", rvof(&x))
                } else {
                    let x = self.act("C_InitPIN", "".into(), |_| c::init_pin(s, &np));
                    if x.is_ok() {
                        self.user = np;
                    }
                    let n = self.steps.len() - 1;
                    self.steps[n].user.push(self.user.clone());
                    ("C_InitPIN", rvof(&x))
                }
            }
            29 => {
                if !r.chance(1, 3) {
                    return ("", 0);
                }
                c::close_all(0).must("C_CloseAllSessions");
                let so = self.so.clone();
                let name = format!("kv-{}", self.labels);
                self.hotp.clear();
                let x = self.act("C_InitToken", name.clone(), |_| c::init_token(0, &so, &name));
                ("C_InitToken", rvof(&x))
            }
            30 => {
                let v = r.bytes(20);
                self.secret("HOTP secret", &v);
                let t = keyt(r).u(CKA_CLASS, CKO_OTP_KEY).u(CKA_KEY_TYPE, CKK_HOTP).v(CKA_VALUE, &v).b(CKA_SIGN, true).setb(CKA_TOKEN, true);
                done!("C_CreateObject", t.show(), |_| c::create(s, &t))
            }
            _ => {
                let v = self.mine(CKO_OTP_KEY);
                if v.is_empty() {
                    return ("", 0);
                }
                let o = *r.pick(&v);
                if c::sign_init(s, &M::new(CKM_HOTP), o).is_err() {
                    return ("", 0);
                }
                let x = self.act("C_Sign", format!("HOTP key {}", o), |_| c::sign(s, b""));
                if x.is_err() {
                    ops::reset(s, ops::Kind::Sign);
                }
                ("C_Sign(HOTP)", rvof(&x))
            }
        }
    }
    /// what the running library shows
    pub fn live(&self) -> Dump {
        let mut d = Dump::new();
        if let Ok(i) = c::session_info(self.s) {
            d.insert("session".into(), format!("state {} flags {:x}", i.state, i.flags));
        } else {
            d.insert("session".into(), "gone".into());
        }
        if let Ok(t) = c::token_info(0) {
            d.insert("info".into(), format!("{:x} {}", t.flags & (CKF_TOKEN_INITIALIZED | CKF_USER_PIN_INITIALIZED | CKF_LOGIN_REQUIRED | CKF_WRITE_PROTECTED), String::from_utf8_lossy(&t.label).trim()));
        }
        if let Ok(v) = c::find(self.s, &T::new()) {
            for o in v {
                let (_, _, t) = show_obj(self.s, o);
                if builtin(&t) {
                    continue;
                }
                d.insert(format!("handle {}", o), t);
            }
        }
        d
    }
    /// a fresh look at the given files
    pub fn look(&self, im: &Image, so: &[Vec<u8>], user: &[Vec<u8>], reinit: bool) -> (Dump, Option<String>) {
        let dir = format!("{}.look", self.dir);
        shim::put(&dir, im);
        let cdir = format!("{}.lookc", self.dir);
        let _ = std::fs::create_dir_all(&cdir);
        let cfg = if self.nss { crate::tok::nss(0, &dir) } else { sqlite(0, &dir, "token") };
        let conf = write_conf(&cdir, &[cfg]);
        let mut d = Dump::new();
        let mut bad = None;
        match c::initialize(Some(&conf)) {
            Ok(()) => {
                d = dump_token(0, so, user);
                if reinit {
                    // whatever state it is in, initialising it again must work
                    let _ = c::close_all(0);
                    let mut ok = false;
                    let mut last = vec![];
                    for p in so {
                        match c::init_token(0, p, "kv-again") {
                            Ok(()) => {
                                ok = true;
                                let r = (|| -> R<()> {
                                    let s = c::open(0, true)?;
                                    c::login(s, CKU_SO, p)?;
                                    c::init_pin(s, b"another-user-pin")?;
                                    c::logout(s)?;
                                    c::login(s, CKU_USER, b"another-user-pin")?;
                                    c::create(s, &aes_t(&[1; 16]).b(CKA_TOKEN, true))?;
                                    if c::find(s, &T::new().u(CKA_CLASS, CKO_SECRET_KEY))?.len() != 1 {
                                        return Err(CKR_GENERAL_ERROR);
                                    }
                                    Ok(())
                                })();
                                if let Err(e) = r {
                                    bad = Some(format!("the token is not usable after initialising it again: {}", rvn(e)));
                                }
                                break;
                            }
                            Err(e) => last.push(rvn(e)),
                        }
                    }
                    if !ok {
                        bad = Some(format!("C_InitToken refused: {}", last.join(" ")));
                    }
                }
                let _ = c::finalize();
            }
            Err(e) => {
                d.insert("C_Initialize".into(), rvn(e));
                if reinit {
                    bad = Some(format!("C_Initialize failed: {}", rvn(e)));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        (d, bad)
    }
    pub fn end(self) {
        let _ = c::finalize();
        if self.record {
            shim::dir("");
        }
        let _ = std::fs::remove_dir_all(std::path::Path::new(&self.dir).parent().unwrap());
    }
}

// ---------------------------------------------------------------- crash points
fn crash(nss: bool, r: &mut Rng) {
    let mut wl = World::new(nss, "crash", r, true);
    let n = if nss { r.range(4, 8) } else { r.range(8, 16) };
    for _ in 0..n {
        wl.step(r);
    }
    wl.settle();
    // the running library's view of its stored objects
    let live: BTreeSet<String> = token_objs(wl.s);
    c::finalize().must("C_Finalize");
    let mut im = Image::new();
    let last = wl.steps.len();
    let mut before = Dump::new();
    before.insert("info".into(), "none".into());
    for k in 0..last {
        let st = &wl.steps[k];
        let (name, desc, rv) = (st.name, st.desc.clone(), st.rv);
        let mut so = st.so.clone();
        let mut user = st.user.clone();
        if k > 0 {
            so.extend(wl.steps[k - 1].so.clone());
            user.extend(wl.steps[k - 1].user.clone());
        }
        so.sort();
        so.dedup();
        user.sort();
        user.dedup();
        let ops = st.ops.clone();
        if ops.is_empty() {
            continue;
        }
        let base = im.clone();
        for o in &ops {
            shim::apply(&mut im, o);
        }
        let (after, _) = wl.look(&im, &so, &user, false);
        let (bef, _) = if k == 0 { (before.clone(), None) } else { wl.look(&base, &so, &user, false) };
        w::count("steps", 1);
        if rv != CKR_OK && name != "C_InitToken" && after != bef {
            viol!(["P11", "P10"], &format!("error-changed:{}", name), "{} {} returned {} but the stored token changed: {}", name, desc, rvn(rv), diff(&bef, &after));
        }
        let writes = ops.len();
        // crash points: after each prefix, and with unsynced writes lost
        let mut points: Vec<(usize, u8)> = vec![];
        let want = if name == "C_InitToken" { if w::thorough() { 60 } else { 24 } } else if w::thorough() { 30 } else { 8 };
        for _ in 0..want {
            let j = if r.chance(1, 5) { writes } else { r.us(writes + 1) };
            points.push((j, r.below(5) as u8));
        }
        points.sort();
        points.dedup();
        for (j, kind) in points {
            if !w::time_left() {
                break;
            }
            if kind == 0 && (j == 0 || j == writes) {
                continue;
            }
            let (ci, what) = image_at(&base, &ops, j, kind, r);
            let done = j == writes;
            let (d, bad) = wl.look(&ci, &so, &user, name == "C_InitToken" && !done);
            w::eval(&format!("{}/{}/{}", name, kind, j.min(40)));
            w::count(if kind == 0 { "kill points" } else { "power-loss points" }, 1);
            let vs = if done { d != after } else { d != after && d != bef };
            if name == "C_InitToken" && !done {
                if let Some(b) = bad {
                    viol!(["P10"], "crash:C_InitToken:cannot-reinit", "{} ({}) interrupted {}: {}", name, desc, what, b);
                }
                // half-initialised tokens are allowed as long as they can be initialised again
                continue;
            }
            if vs {
                let sg = classify(name, &bef, &after, &d);
                w::ring(&format!("ops of the call: {}", ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; ")));
                let tags: &[&str] = if name == "C_Sign" { &["P10", "P28"] } else { &["P10"] };
                w::viol(
                    tags,
                    &format!("crash:{}:{}", if nss { format!("nss:{}", name) } else { name.to_string() }, if done { "lost".to_string() } else { sg }),
                    &format!("{} {} interrupted {}: found neither the state before ({}) nor after ({})", name, desc, what, diff(&bef, &d), diff(&after, &d)),
                );
            }
        }
    }
    // what success promised is on disk
    let (fin, _) = wl.look(&im, &[wl.so.clone()], &[wl.user.clone()], false);
    let disk: BTreeSet<String> = fin.iter().filter(|(k, _)| k.starts_with("obj:")).map(|(_, v)| strip(v)).collect();
    if disk != live {
        viol!(["P10", "P11", "P09"], "live-vs-disk", "objects shown by the running library and by a fresh start differ: only live {:?}; only disk {:?}", live.difference(&disk).take(2).collect::<Vec<_>>(), disk.difference(&live).take(2).collect::<Vec<_>>());
    }
    if fin.get("user-pin").map(|x| x.starts_with("opens")) != Some(true) {
        viol!(["P10", "P11"], "pin-after-restart", "the user PIN does not open the token after a restart: {:?}", fin.get("user-pin"));
    }
    wl.end();
}
fn strip(v: &str) -> String {
    // without the fingerprint
    let i = v.rfind(' ').map(|i| i + 1).unwrap_or(v.len());
    v[..i].to_string()
}
fn token_objs(s: H) -> BTreeSet<String> {
    let mut b = BTreeSet::new();
    for o in c::find(s, &T::new()).must("C_FindObjects") {
        let (_, tk, t) = show_obj(s, o);
        if tk && !builtin(&t) {
            b.insert(t);
        }
    }
    b
}
fn classify(name: &str, bef: &Dump, after: &Dump, d: &Dump) -> String {
    for k in ["C_Initialize", "open", "find"] {
        if d.contains_key(k) {
            return format!("unusable-{}", k);
        }
    }
    for k in ["so-pin", "user-pin"] {
        if d.get(k) != bef.get(k) && d.get(k) != after.get(k) {
            return k.to_string();
        }
    }
    let _ = name;
    let is = |x: &Dump| x.keys().filter(|k| k.starts_with("obj:")).cloned().collect::<BTreeSet<_>>();
    let (b, a, c) = (is(bef), is(after), is(d));
    if c != b && c != a {
        if b.is_subset(&c) && c.is_subset(&a) {
            return "partial-objects".into();
        }
        return "objects".into();
    }
    "attributes".into()
}
/// kind 0: killed after j operations; 1: all unsynced writes lost; 2: a random part of them lost;
/// 3: the last write torn; 4: all but the last unsynced write lost
pub fn image_at(base: &Image, ops: &[shim::Op], j: usize, kind: u8, r: &mut Rng) -> (Image, String) {
    let mut im = base.clone();
    if kind == 0 {
        for o in &ops[..j] {
            shim::apply(&mut im, o);
        }
        return (im, format!("after {} of {} file operations (last: {})", j, ops.len(), ops[..j].last().map(|o| o.show()).unwrap_or_default()));
    }
    // writes to a file are certain once it was synced afterwards
    let mut lost = 0;
    for (i, o) in ops[..j].iter().enumerate() {
        if o.op != shim::WRITE {
            shim::apply(&mut im, o);
            continue;
        }
        let mut sure = false;
        let mut path = o.path.clone();
        for p in &ops[i + 1..j] {
            if p.op == shim::RENAME && p.path == path {
                path = p.path2.clone();
            }
            if p.op == shim::SYNC && p.path == path {
                sure = true;
                break;
            }
        }
        if sure {
            shim::apply(&mut im, o);
            continue;
        }
        match kind {
            1 => lost += 1,
            2 => {
                if r.bool() {
                    shim::apply(&mut im, o)
                } else {
                    lost += 1
                }
            }
            3 => {
                if i + 1 == j && o.data.len() > 1 {
                    let n = if o.data.len() > 512 { r.range(0, o.data.len() / 512) * 512 } else { r.us(o.data.len()) };
                    shim::write_at(&mut im, &o.path, o.off as usize, &o.data[..n.min(o.data.len())]);
                    lost += 1;
                } else {
                    shim::apply(&mut im, o)
                }
            }
            _ => {
                if i + 1 == j {
                    shim::apply(&mut im, o)
                } else {
                    lost += 1
                }
            }
        }
    }
    (im, format!("by losing {} unsynced writes after {} of {} file operations (kind {})", lost, j, ops.len(), kind))
}

// ---------------------------------------------------------------- storage faults
fn fault(nss: bool, r: &mut Rng) {
    let mut wl = World::new(nss, "fault", r, false);
    shim::dir(&wl.dir);
    let t0 = if nss { 10 } else { 40 };
    for i in 0..t0 {
        if !w::time_left() {
            break;
        }
        wl.settle();
        // plan a fault for the next call
        let mask = *r.pick(&[
            1 << shim::WRITE,
            1 << shim::WRITE,
            1 << shim::SYNC,
            (1 << shim::OPEN) | (1 << shim::CREATE),
            1 << shim::CREATE,
            1 << shim::UNLINK,
            1 << shim::TRUNC,
            1 << shim::READ,
            (1 << shim::WRITE) | (1 << shim::SYNC) | (1 << shim::UNLINK),
        ]);
        let mask = if r.chance(1, 12) { 1 << shim::WLOCK } else { mask };
        let n = if r.bool() { 4 } else { 14 };
        let skip = r.below(n) as i64;
        let max = if r.bool() { 1 } else { 0 };
        let err = *r.pick(&[libc::EIO, libc::ENOSPC]);
        let short = mask == 1 << shim::WRITE && r.chance(1, 4);
        // World::step logs in and out around the call; the views are taken inside it
        let before = wl.live();
        wl.plan = Some((mask, skip, max, err, short));
        let (name, rv) = wl.step(r);
        wl.plan = None;
        if name.is_empty() {
            continue;
        }
        let hits = wl.plan_hits;
        if hits == 0 {
            w::count("not hit", 1);
        } else {
            w::count("faulted calls", 1);
        }
        let desc = wl.steps.last().map(|s| s.desc.clone()).unwrap_or_default();
        wl.steps.clear();
        w::eval(&format!("{}/{:x}/{}/{}/{}", name, mask, skip, max, rv));
        let ftext = format!("fault mask {:x} after {} operations{}, {} hits", mask, skip, if max == 0 { " (persistent)" } else { "" }, hits);
        if rv != CKR_OK && hits == 0 && !name.starts_with("C_Login") && !matches!(rv, CKR_ACTION_PROHIBITED | CKR_ATTRIBUTE_READ_ONLY | CKR_ATTRIBUTE_TYPE_INVALID | CKR_TEMPLATE_INCONSISTENT | CKR_ATTRIBUTE_VALUE_INVALID) {
            viol!(["P11"], &format!("fails-without-fault:{}", name), "{} {} failed with {} although no fault was injected", name, desc, rvn(rv));
        }
        if name == "C_InitToken" && rv != CKR_OK {
            // half way is allowed here, as long as it can be done again
            match c::init_token(0, &wl.so, "kv-again") {
                Ok(()) => (),
                Err(e) => {
                    viol!(["P11", "P10"], "fault:C_InitToken:cannot-reinit", "C_InitToken failed ({}) under {} and cannot be repeated: {}", rvn(rv), ftext, rvn(e));
                    break;
                }
            }
            wl.settle();
            continue;
        }
        if name.starts_with("C_SetPIN") || name == "C_InitPIN" || name.starts_with("C_Login") || name == "C_InitToken" {
            // which PINs work now
            let _ = c::close_all(0);
            let s = c::open(0, true).must("C_OpenSession");
            if name != "C_InitToken" {
                if let Err(e) = c::login(s, CKU_USER, &wl.user) {
                    viol!(["P11"], &format!("fault:{}:user-pin", name), "{} returned {} under {}; the user PIN in force no longer works: {}", name, rvn(rv), ftext, rvn(e));
                    break;
                }
                let _ = c::logout(s);
            }
            if let Err(e) = c::login(s, CKU_SO, &wl.so) {
                if !(nss && e == CKR_USER_TYPE_INVALID) && !nss {
                    viol!(["P11"], &format!("fault:{}:so-pin", name), "{} returned {} under {}; the SO PIN in force no longer works: {}", name, rvn(rv), ftext, rvn(e));
                    break;
                }
            } else {
                let _ = c::logout(s);
            }
            wl.s = s;
            wl.settle();
        } else {
            let after = wl.live();
            // C_Login/C_Logout inside the step may have renewed handles: compare by content then
            let same = before == after;
            if rv != CKR_OK && !same {
                viol!(["P11"], &format!("{}:{}:changed", if max == 0 { "fault-persistent" } else { "fault" }, name), "{} {} returned {} under {} but something changed: {}", name, desc, rvn(rv), ftext, diff(&before, &after));
            }
            if rv == CKR_OK && hits == 0 && name == "C_SetAttributeValue" && same {
                viol!(["P11"], &format!("no-effect:{}", name), "{} {} returned CKR_OK without effect", name, desc);
            }
        }
        // the fault is gone: things work again
        let k = c::create(wl.s, &aes_t(&[3; 16]).b(CKA_TOKEN, true).s(CKA_LABEL, "after"));
        match k {
            Ok(h) => {
                if let Err(e) = c::destroy(wl.s, h) {
                    viol!(["P11"], &format!("fault:{}:later-calls", name), "after {} returned {} under {}, C_DestroyObject fails: {}", name, rvn(rv), ftext, rvn(e));
                }
            }
            Err(e) => {
                viol!(["P11"], &format!("fault:{}:later-calls", name), "after {} returned {} under {}, C_CreateObject fails: {}", name, rvn(rv), ftext, rvn(e));
                break;
            }
        }
        if rv != CKR_OK || i % 4 == 0 {
            let a = token_objs(wl.s);
            wl.restart();
            let b = token_objs(wl.s);
            if a != b {
                viol!(["P11"], &format!("fault:{}:disk", name), "after {} returned {} under {} the token objects on disk differ from those in memory: only live {:?}; only disk {:?}", name, rvn(rv), ftext, a.difference(&b).take(2).collect::<Vec<_>>(), b.difference(&a).take(2).collect::<Vec<_>>());
            }
        }
    }
    wl.record = true;
    wl.end();
}

// ---------------------------------------------------------------- bad arguments
pub fn args(r: &mut Rng) {
    let nss = r.chance(1, 6);
    let mut wl = World::new(nss, "args", r, false);
    for _ in 0..6 {
        wl.step(r);
    }
    for _ in 0..if nss { 20 } else { 60 } {
        if !w::time_left() {
            break;
        }
        if r.chance(1, 4) {
            wl.step(r);
        }
        wl.settle();
        let s = wl.s;
        let before = wl.live();
        let tok = r.bool();
        let mut spoil = |r: &mut Rng, t: T| -> (T, &'static str) {
            let mut v = t.0.clone();
            let pos = if r.bool() { v.len() } else { r.us(v.len() + 1) };
            let (a, what): ((CK_ULONG, Vec<u8>), &'static str) = match r.below(9) {
                0 => ((0x8000_1234, vec![1]), "unknown attribute"),
                1 => ((CKA_PRIVATE, vec![1, 0]), "bool of two bytes"),
                2 => ((CKA_LOCAL, vec![1]), "CKA_LOCAL"),
                3 => ((CKA_UNIQUE_ID, b"x".to_vec()), "CKA_UNIQUE_ID"),
                4 => ((CKA_KEY_GEN_MECHANISM, 5u64.to_ne_bytes().to_vec()), "CKA_KEY_GEN_MECHANISM"),
                5 => ((CKA_START_DATE, b"2024010".to_vec()), "short date"),
                6 => ((CKA_NEVER_EXTRACTABLE, vec![1]), "CKA_NEVER_EXTRACTABLE"),
                7 => ((CKA_CERTIFICATE_TYPE, 0u64.to_ne_bytes().to_vec()), "foreign attribute"),
                _ => ((CKA_CLASS, vec![1, 2, 3]), "short class"),
            };
            v.insert(pos, a);
            (T(v), what)
        };
        let lab = format!("args-{}", r.next());
        let keyt = T::new().b(CKA_TOKEN, tok).s(CKA_LABEL, &lab).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        let (name, what, rv): (&str, String, RV) = match r.below(11) {
            0 | 1 => {
                let v = r.bytes(16);
                let (t, q) = spoil(r, keyt.u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).v(CKA_VALUE, &v));
                ("C_CreateObject", q.into(), rvof(&c::create(s, &t)))
            }
            2 => {
                let (t, q) = spoil(r, keyt.u(CKA_VALUE_LEN, 16));
                ("C_GenerateKey", q.into(), rvof(&c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &t)))
            }
            3 | 4 => {
                let pt = T::new().b(CKA_TOKEN, r.bool()).s(CKA_LABEL, &lab).v(CKA_EC_PARAMS, refc::P256.oid).b(CKA_VERIFY, true);
                let st = keyt.b(CKA_SIGN, true);
                let (pt, st, q) = if r.bool() {
                    let (a, q) = spoil(r, pt);
                    (a, st, q)
                } else {
                    let (a, q) = spoil(r, st);
                    (pt, a, q)
                };
                ("C_GenerateKeyPair", q.into(), rvof(&c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &pt, &st)))
            }
            5 | 6 => match wl.any(r) {
                Some(o) => {
                    // several good changes with a bad one anywhere
                    let v = r.bytes(5);
                    let (t, q) = spoil(r, T::new().s(CKA_LABEL, &lab).v(CKA_ID, &v).v(CKA_END_DATE, b"20300101"));
                    ("C_SetAttributeValue", format!("{} {}", q, t.show()), rvof(&c::set(s, o, &t)))
                }
                None => continue,
            },
            7 => match wl.any(r) {
                Some(o) => {
                    let (t, q) = spoil(r, T::new().s(CKA_LABEL, &lab).b(CKA_TOKEN, tok));
                    ("C_CopyObject", q.into(), rvof(&c::copy(s, o, &t)))
                }
                None => continue,
            },
            8 => {
                let wkv = r.bytes(16);
                let wk = c::create(s, &ops::aes_key(&wkv)).must("C_CreateObject(session)");
                let mut blob = refc::kw(&wkv, &r.bytes(32), &[0xa6; 8]);
                let (mut t, mut q) = spoil(r, keyt.u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES));
                if r.chance(1, 3) {
                    t = T::new().b(CKA_TOKEN, tok).u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES);
                    let i = r.us(blob.len());
                    blob[i] ^= 1;
                    q = "damaged blob";
                }
                let x = c::unwrap(s, &M::new(CKM_AES_KEY_WRAP), wk, &blob, &t);
                let _ = c::destroy(s, wk);
                ("C_UnwrapKey", q.into(), rvof(&x))
            }
            9 => {
                let b = c::create(s, &secret_t(CKK_GENERIC_SECRET, &r.bytes(32)).b(CKA_DERIVE, true)).must("C_CreateObject(session)");
                let hp = CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: CKF_HKDF_SALT_NULL, pSalt: std::ptr::null_mut(), ulSaltLen: 0, hSaltKey: 0, pInfo: std::ptr::null_mut(), ulInfoLen: 0 };
                let (t, q) = spoil(r, keyt.u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).u(CKA_VALUE_LEN, 16));
                let x = c::derive(s, &M::st(CKM_HKDF_DERIVE, &hp, vec![], "hkdf"), b, &t);
                let _ = c::destroy(s, b);
                ("C_DeriveKey", q.into(), rvof(&x))
            }
            _ => {
                let (o, n, q): (Vec<u8>, Vec<u8>, &str) = match r.below(3) {
                    0 => (wl.user.clone(), vec![], "empty new PIN"),
                    1 => ([wl.user.clone(), vec![1]].concat(), pin(r), "wrong old PIN"),
                    _ => (wl.user.clone(), vec![b'x'; 100_000], "long new PIN"),
                };
                let x = c::set_pin(s, &o, &n);
                if x.is_ok() {
                    // long PINs may be fine
                    wl.old.push(wl.user.clone());
                    wl.user = n;
                } else {
                    let _ = c::logout(s);
                    if let Err(e) = c::login(s, CKU_USER, &wl.user) {
                        viol!(["P11"], "args:C_SetPIN:user-pin", "C_SetPIN with {} returned {} and then the PIN no longer works: {}", q, rn(&x), rvn(e));
                        break;
                    }
                }
                ("C_SetPIN", q.into(), rvof(&x))
            }
        };
        w::eval(&format!("{}/{}/{}/{}", name, what.split(' ').next().unwrap_or(""), tok, rv));
        if rv == CKR_OK {
            w::count("accepted", 1);
            continue;
        }
        w::count("refused", 1);
        let after = wl.live();
        if after != before && name != "C_SetPIN" {
            viol!(["P11"], &format!("args:{}:changed", name), "{} with {} returned {} but something changed: {}", name, what, rvn(rv), diff(&before, &after));
        }
        if r.chance(1, 10) {
            let a = token_objs(wl.s);
            wl.restart();
            let b = token_objs(wl.s);
            if a != b {
                viol!(["P11"], &format!("args:{}:disk", name), "after {} with {} returned {} a restart shows other objects: only live {:?}; only disk {:?}", name, what, rvn(rv), a.difference(&b).take(2).collect::<Vec<_>>(), b.difference(&a).take(2).collect::<Vec<_>>());
            }
        }
    }
    wl.end();
}

// ---------------------------------------------------------------- secrets on disk
/// the token master key, unwrapped from a stored PIN record with the PIN
pub fn master_key(rec: &[u8], id: &str, pin: &[u8]) -> Option<Vec<u8>> {
    let (salt, iter, iv, tag, data) = pin_record(rec)?;
    let kek = refc::pbkdf2(refc::SHA256, pin, &salt, iter, 32);
    let (plain, t) = refc::gcm(&kek, &iv, id.as_bytes(), &data, false);
    w::ring(&format!("tag {} computed {}", hex(&tag), hex(&t)));
    if t.starts_with(&tag) {
        Some(plain)
    } else {
        None
    }
}
/// (salt, iterations, iv, tag, ciphertext) of a KProtectedData under PBKDF2
pub fn pin_record(rec: &[u8]) -> Option<(Vec<u8>, u32, Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut octets = vec![];
    let mut ints = vec![];
    flatten(rec, &mut octets, &mut ints, 0);
    // octets: salt, iv, tag?, ciphertext in order of appearance
    w::ring(&format!("record octets {:?} ints {:?}", octets.iter().map(|o: &Vec<u8>| o.len()).collect::<Vec<_>>(), ints));
    let salt = octets.first()?.clone();
    let it = *ints.iter().find(|x| **x >= 500)?;
    let iv = octets.iter().skip(1).find(|o| o.len() == 12)?.clone();
    let data = octets.iter().rev().find(|o| o.len() == 32 || o.len() == 13)?.clone();
    let tag = octets.iter().skip(1).find(|o| matches!(o.len(), 4..=8 | 16) && **o != salt)?.clone();
    Some((salt, it as u32, iv, tag, data))
}
fn flatten(b: &[u8], o: &mut Vec<Vec<u8>>, ints: &mut Vec<u64>, depth: usize) {
    let mut b = b;
    while b.len() >= 2 && depth < 12 {
        let t = b[0];
        let (n, h) = match b[1] {
            x if x < 0x80 => (x as usize, 2),
            0x81 if b.len() > 2 => (b[2] as usize, 3),
            0x82 if b.len() > 3 => ((b[2] as usize) << 8 | b[3] as usize, 4),
            _ => return,
        };
        if b.len() < h + n {
            return;
        }
        let c = &b[h..h + n];
        match t {
            4 => o.push(c.to_vec()),
            2 if n <= 8 => ints.push(c.iter().fold(0, |a, x| a << 8 | *x as u64)),
            _ if t & 0x20 != 0 => flatten(c, o, ints, depth + 1),
            _ => (),
        }
        b = &b[h + n..];
    }
}
fn b64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        if c.len() < 3 {
            break;
        }
        let n = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
        for i in (0..4).rev() {
            s.push(A[(n >> (6 * i) & 63) as usize] as char);
        }
    }
    s
}
fn patterns(v: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut p = vec![];
    let win = v.len().min(12);
    let mut at = vec![0, v.len() - win, (v.len() - win) / 2];
    at.dedup();
    for i in at {
        let x = &v[i..i + win];
        // long runs of equal bytes say nothing
        if x.windows(2).filter(|w| w[0] != w[1]).count() < 5 {
            continue;
        }
        p.push(("raw", x.to_vec()));
        p.push(("hex", hex(x).into_bytes()));
        p.push(("HEX", hex(x).to_uppercase().into_bytes()));
        p.push(("base64", b64(x).into_bytes()));
        p.push(("reversed", x.iter().rev().cloned().collect()));
        p.push(("inverted", x.iter().map(|b| !b).collect()));
        p.push(("utf-16", x.iter().flat_map(|b| [*b, 0]).collect()));
        for k in 1..3 {
            if v.len() >= i + k + 9 {
                p.push(("base64", b64(&v[i + k..(i + k + 12).min(v.len())]).into_bytes()));
            }
        }
    }
    p.retain(|(_, x)| x.len() >= 8);
    p
}
struct Needles {
    idx: HashMap<u64, Vec<(usize, usize)>>,
    pats: Vec<Vec<(&'static str, Vec<u8>)>>,
}
impl Needles {
    fn new(s: &[(String, Vec<u8>)]) -> Needles {
        let mut n = Needles { idx: HashMap::new(), pats: vec![] };
        for (i, (_, v)) in s.iter().enumerate() {
            let p = patterns(v);
            for (j, (_, x)) in p.iter().enumerate() {
                n.idx.entry(u64::from_le_bytes(x[..8].try_into().unwrap())).or_default().push((i, j));
            }
            n.pats.push(p);
        }
        n
    }
    fn scan(&self, b: &[u8]) -> Vec<(usize, &'static str, usize)> {
        let mut out = vec![];
        if b.len() < 8 {
            return out;
        }
        let mut k = u64::from_le_bytes(b[..8].try_into().unwrap());
        for i in 0..=b.len() - 8 {
            if i > 0 {
                k = (k >> 8) | (b[i + 7] as u64) << 56;
            }
            if let Some(v) = self.idx.get(&k) {
                for (s, p) in v {
                    let (how, x) = &self.pats[*s][*p];
                    if b[i..].starts_with(x) {
                        out.push((*s, *how, i));
                    }
                }
            }
        }
        out
    }
}
fn secrets(nss: bool, r: &mut Rng) {
    let mut wl = World::new(nss, "sec", r, true);
    let n = if nss { 25 } else { 60 };
    for _ in 0..n {
        if !w::time_left() {
            break;
        }
        // failing writes leave other traces
        if r.chance(1, 6) {
            wl.plan = Some((*r.pick(&[1 << shim::WRITE, 1 << shim::SYNC, 1 << shim::UNLINK]), r.below(8) as i64, 1, libc::EIO, false));
        }
        let (name, rv) = wl.step(r);
        wl.plan = None;
        if !name.is_empty() {
            w::eval(&format!("{}/{}", name, rv));
        }
        if name == "C_InitToken" && rv != CKR_OK && c::init_token(0, &wl.so, "again").is_err() {
            break;
        }
        if r.chance(1, 15) {
            wl.restart();
        }
    }
    wl.settle();
    // session objects made and used by operations
    let mut recs: Vec<(String, Vec<u8>)> = vec![];
    let mut salts: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    c::finalize().must("C_Finalize");
    if !nss {
        let db = Db::open(&format!("{}/token.sql", wl.dir)).unwrap();
        if let Ok(rows) = db.q("SELECT name, value, data FROM meta", &[]) {
            for row in rows {
                let all: Vec<String> = row.iter().map(|x| x.text()).collect();
                for v in &row {
                    if let V::Blob(b) = v {
                        for (id, pin) in [("SO", wl.so.clone()), ("USER", wl.user.clone())] {
                            if all.iter().any(|t| t == id) {
                                if let Some((salt, it, ..)) = pin_record(b) {
                                    w::count("PIN records", 1);
                                    if salt.len() < 16 || it < 1000 {
                                        viol!(["P12"], "weak-record", "PIN record of {} uses a salt of {} bytes and {} iterations", id, salt.len(), it);
                                    }
                                    if salts.iter().any(|(s, i)| *s == salt && i != b) {
                                        viol!(["P12", "P27"], "equal-salts", "two PIN records use the salt {}", hex(&salt));
                                    }
                                    salts.push((salt, b.clone()));
                                }
                                if let Some(k) = master_key(b, id, &pin) {
                                    w::count("master key recovered", 1);
                                    wl.secrets.push(("token master key".into(), k));
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Ok(rows) = db.q("SELECT id, attr, val FROM objects", &[]) {
            for row in rows {
                if let V::Blob(b) = &row[2] {
                    if matches!(row[1].int() as CK_ULONG, CKA_VALUE | CKA_PRIVATE_EXPONENT | CKA_PRIME_1 | CKA_PRIME_2) {
                        recs.push((format!("object {} attribute {:x}", row[0].int(), row[1].int()), b.clone()));
                    }
                }
            }
        }
    }
    // the secrets, in everything ever written and everything that is there now
    let nd = Needles::new(&wl.secrets);
    w::count("secrets", wl.secrets.len() as u64);
    let mut places: Vec<(String, Vec<u8>)> = shim::snapshot(&wl.dir).into_iter().map(|(n, b)| (format!("file {}", n), b)).collect();
    for st in &wl.steps {
        for o in &st.ops {
            if o.op == shim::WRITE {
                places.push((format!("write to {} during {} {}", o.path, st.name, st.desc), o.data.clone()));
            }
        }
    }
    let mut seen = BTreeSet::new();
    for (place, b) in &places {
        w::count("bytes scanned", b.len() as u64);
        for (i, how, at) in nd.scan(b) {
            let what = &wl.secrets[i].0;
            if seen.insert(format!("{}{}", what, place)) {
                viol!(["P12"], &format!("{}on-disk:{}", if nss { "nss-" } else { "" }, what.replace(' ', "-")), "{} found ({}) at offset {} of {}", what, how, at, place);
            }
        }
    }
    // one stored record never equals another
    let mut by: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    for (n, b) in &recs {
        if b.len() < 40 {
            continue;
        }
        if let Some(o) = by.insert(b.clone(), n.clone()) {
            // certificates and data objects are not protected
            if b[0] == 0x30 && pin_like(b) {
                viol!(["P12", "P27"], "equal-stored", "{} and {} are stored as the same bytes", o, n);
            }
        }
    }
    wl.end();
}
fn pin_like(b: &[u8]) -> bool {
    let mut o = vec![];
    let mut i = vec![];
    flatten(b, &mut o, &mut i, 0);
    o.iter().any(|x| x.len() == 12)
}
