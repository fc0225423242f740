//! Object store: access control, attribute policy, handle map, persistence, isolation
//! (P03, P04, P05, P06, P08, P09, P26) decided by one model followed through random histories.
use crate::c::{self, *};
use crate::ops;
use crate::p11::*;
use crate::refc;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, note, times, viol, Job};
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let b = if th { 240_000 } else { 22_000 };
    let k = if th { 4 } else { 1 };
    let n = 1_000_000;
    let h = |c: usize| times(c * k, |_| job("obj.hist", n, b));
    let hn = |c: usize| times(c * k, |_| job("obj.hist_nss", n, b));
    match prop {
        "P03" | "P05" | "P06" | "P08" | "P09" => h(12).into_iter().chain(hn(4)).collect(),
        "P26" => h(8),
        "P04" => h(6).into_iter().chain(hn(2)).collect(),
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "obj.hist" => hist(arg, r, false),
        "obj.hist_nss" => hist(arg, r, true),
        _ => panic!("{}", job),
    }
}

/// every attribute type any object may carry
pub const ALL: &[CK_ULONG] = &[
    CKA_CLASS, CKA_UNIQUE_ID, CKA_TOKEN, CKA_PRIVATE, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE, CKA_LABEL, CKA_APPLICATION, CKA_OBJECT_ID, CKA_VALUE, CKA_ID, CKA_KEY_TYPE, CKA_SUBJECT, CKA_START_DATE, CKA_END_DATE, CKA_DERIVE, CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALLOWED_MECHANISMS, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_WRAP_WITH_TRUSTED, CKA_TRUSTED, CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_SIGN_RECOVER, CKA_VERIFY_RECOVER,
    CKA_WRAP, CKA_UNWRAP, CKA_ALWAYS_AUTHENTICATE, CKA_VALUE_LEN, CKA_MODULUS, CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT, CKA_EC_PARAMS, CKA_EC_POINT, CKA_PUBLIC_KEY_INFO, CKA_CERTIFICATE_TYPE, CKA_CERTIFICATE_CATEGORY, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_URL, CKA_CHECK_VALUE, CKA_PRIME, CKA_BASE, CKA_VALUE_BITS, CKA_OTP_COUNTER, CKA_OTP_LENGTH, CKA_HASH_OF_CERTIFICATE, CKA_NAME_HASH_ALGORITHM,
];
/// attributes that carry the secret part of a private or secret key
pub const SECRET: &[CK_ULONG] = &[CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT];

pub type Snap = BTreeMap<CK_ULONG, Vec<u8>>;
pub fn snap(s: H, h: H) -> R<Snap> {
    let (mut rv, mut v) = c::attrs(s, h, ALL);
    if rv == CKR_GENERAL_ERROR || rv == CKR_USER_NOT_LOGGED_IN {
        // the values of keys on the token are encrypted for the user, the other attributes of
        // public keys can be read by anyone
        let l: Vec<CK_ULONG> = ALL.iter().cloned().filter(|a| !SECRET.contains(a)).collect();
        let (rv2, v2) = c::attrs(s, h, &l);
        rv = rv2;
        v = ALL.iter().map(|a| l.iter().position(|x| x == a).and_then(|i| v2[i].clone())).collect();
    }
    match rv {
        CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID => Ok(ALL.iter().zip(v).filter_map(|(a, v)| v.map(|v| (*a, v))).collect()),
        e => Err(e),
    }
}
fn sb(m: &Snap, a: CK_ULONG) -> Option<bool> {
    m.get(&a).map(|v| v.len() == 1 && v[0] != 0)
}
fn su(m: &Snap, a: CK_ULONG) -> Option<CK_ULONG> {
    m.get(&a).and_then(|v| v.as_slice().try_into().ok().map(CK_ULONG::from_ne_bytes))
}
fn diff(a: &Snap, b: &Snap) -> Vec<String> {
    let mut d = vec![];
    for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            let f = |x: Option<&Vec<u8>>| x.map(|v| w::hx(v)).unwrap_or("-".into());
            d.push(format!("{}: expected {} got {}", ckan(*k), f(a.get(k)), f(b.get(k))));
        }
    }
    d
}
/// compare an expected content with one read, without the secret parts where those need the user
fn same(want: &Snap, got: &Snap, noval: bool) -> bool {
    let f = |m: &Snap| -> Snap { m.iter().filter(|(k, _)| !(noval && SECRET.contains(k))).map(|(k, v)| (*k, v.clone())).collect() };
    f(want) == f(got)
}
fn difftypes(a: &Snap, b: &Snap) -> String {
    let mut d = vec![];
    for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            d.push(ckan(*k));
        }
    }
    d.truncate(3);
    d.join("+")
}

#[derive(Clone, Debug, PartialEq)]
enum Origin {
    Created,
    Generated(CK_ULONG),
    Unwrapped,
    Derived,
}
#[derive(Clone, Debug)]
struct Obj {
    h: Option<H>,
    tok: bool,
    prv: bool,
    owner: H,
    a: Snap,
    /// secret value when the monitor knows it (symmetric keys)
    val: Option<Vec<u8>>,
    origin: Origin,
    /// was sensitive / unextractable through its whole history
    as_: bool,
    ne: bool,
    born: u64,
}
impl Obj {
    fn class(&self) -> CK_ULONG {
        su(&self.a, CKA_CLASS).unwrap_or(CK_ULONG::MAX)
    }
    fn is_sec(&self) -> bool {
        matches!(self.class(), CKO_SECRET_KEY | CKO_PRIVATE_KEY)
    }
    fn hidden_secret(&self) -> bool {
        self.is_sec() && (sb(&self.a, CKA_SENSITIVE) != Some(false) || sb(&self.a, CKA_EXTRACTABLE) != Some(true))
    }
    fn id(&self, nss: bool) -> Vec<u8> {
        self.a.get(if nss { &CKA_ID } else { &CKA_UNIQUE_ID }).cloned().unwrap_or_default()
    }
    fn what(&self) -> String {
        format!("{} {} class {:?} kt {:?} h {:?}", if self.tok { "token" } else { "session" }, if self.prv { "private" } else { "public" }, self.class(), su(&self.a, CKA_KEY_TYPE), self.h)
    }
}
#[derive(Default)]
struct Slot {
    sess: Vec<(H, bool)>,
    logged: Option<CK_USER_TYPE>,
    objs: Vec<Obj>,
    dead: Vec<(H, String)>,
    /// handles of built-in objects
    builtin: HashSet<H>,
}
impl Slot {
    fn user(&self) -> bool {
        self.logged == Some(CKU_USER)
    }
    fn reach(&self, o: &Obj) -> bool {
        !(o.tok && o.prv) || self.user()
    }
    fn used(&self, h: H) -> bool {
        self.objs.iter().any(|o| o.h == Some(h)) || self.builtin.contains(&h)
    }
}
struct Model {
    sl: Vec<Slot>,
    nss: bool,
    dir: String,
    conf: String,
    uids: HashSet<Vec<u8>>,
    serial: u64,
    step: u64,
    cps: Vec<SlotCfg>,
}

const LABELS: [&str; 6] = ["alpha", "beta", "gamma", "", "alph", "alphabet"];

fn flags(mut t: T, r: &mut Rng, sec: bool) -> T {
    if r.chance(1, 2) {
        t = t.s(CKA_LABEL, *r.pick(&LABELS));
    }
    if r.chance(1, 9) {
        t = t.b(CKA_MODIFIABLE, false)
    }
    if r.chance(1, 9) {
        t = t.b(CKA_COPYABLE, false)
    }
    if r.chance(1, 9) {
        t = t.b(CKA_DESTROYABLE, false)
    }
    if sec {
        if r.chance(3, 4) {
            t = t.b(CKA_SENSITIVE, r.bool())
        }
        if r.chance(3, 4) {
            t = t.b(CKA_EXTRACTABLE, r.bool())
        }
        if r.chance(1, 8) {
            t = t.b(CKA_WRAP_WITH_TRUSTED, r.bool())
        }
    }
    t
}
fn usage(mut t: T, r: &mut Rng, l: &[CK_ULONG]) -> T {
    for a in l {
        if r.chance(2, 3) {
            t = t.b(*a, r.chance(3, 4))
        }
    }
    t
}

impl Model {
    /// mandatory placement attributes
    fn place(&mut self, t: T, r: &mut Rng, tok: bool, prv: Option<bool>) -> T {
        let mut t = t;
        if tok || r.bool() {
            t = t.b(CKA_TOKEN, tok);
        }
        if let Some(p) = prv {
            t = t.b(CKA_PRIVATE, p);
        }
        t
    }
    fn newid(&mut self) -> Vec<u8> {
        self.serial += 1;
        format!("id-{}", self.serial).into_bytes()
    }
    fn template(&mut self, r: &mut Rng, tok: bool, prv: Option<bool>) -> (T, Option<Vec<u8>>) {
        let mut val = None;
        let id = self.newid();
        let k = if self.nss { r.range(1, 7) } else { r.range(0, 8) };
        let t = match k {
            0 | 8 => {
                let n = r.len(300);
                let mut t = T::new().u(CKA_CLASS, CKO_DATA).s(CKA_APPLICATION, *r.pick(&["app", "", "other"])).v(CKA_VALUE, &r.bytes(n));
                if r.bool() {
                    t = t.v(CKA_OBJECT_ID, &[6, 3, 1, 2, 3]);
                }
                if r.chance(1, 40) {
                    t = t.set(CKA_VALUE, &r.bytes(8000));
                }
                flags(t, r, false)
            }
            1 | 2 => {
                let n = *r.pick(&[16usize, 24, 32]);
                let v = r.bytes(n);
                val = Some(v.clone());
                let t = aes_t(&v).v(CKA_ID, &id);
                let t = usage(t, r, &[CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE, CKA_SIGN, CKA_VERIFY]);
                flags(t, r, true)
            }
            3 => {
                let n = r.range(1, 70);
                let v = r.bytes(n);
                val = Some(v.clone());
                let t = secret_t(CKK_GENERIC_SECRET, &v).v(CKA_ID, &id);
                let t = usage(t, r, &[CKA_SIGN, CKA_VERIFY, CKA_DERIVE]);
                flags(t, r, true)
            }
            4 => flags(ops::rsa_pub(r.us(2)).v(CKA_ID, &id), r, false),
            5 => flags(ops::rsa_priv(r.us(2)).v(CKA_ID, &id), r, true),
            6 => {
                let cv = *r.pick(&refc::CURVES);
                let d = ops::ec_scalar(cv, r);
                if r.bool() {
                    flags(ops::ec_priv_t(cv, &d).v(CKA_ID, &id), r, true)
                } else {
                    flags(ops::ec_pub_t(cv, &refc::ec_mul(cv, &d, None).unwrap()).v(CKA_ID, &id), r, false)
                }
            }
            _ => {
                let n = r.range(1, 200);
                let t = T::new().u(CKA_CLASS, CKO_CERTIFICATE).u(CKA_CERTIFICATE_TYPE, CKC_X_509).v(CKA_VALUE, &r.bytes(n)).v(CKA_SUBJECT, &r.bytes(20)).v(CKA_ISSUER, &r.bytes(20)).v(CKA_SERIAL_NUMBER, &r.bytes(8)).v(CKA_ID, &id);
                let t = flags(t, r, false);
                // certificates cannot be private in this token
                return (self.place(t, r, tok, Some(false)), None);
            }
        };
        (self.place(t, r, tok, prv), val)
    }

    /// must the creation of such an object succeed (Some(true)), fail (Some(false)), or either
    fn may_create(&self, sl: usize, rw: bool, tok: bool, prv: bool) -> Option<bool> {
        let l = self.sl[sl].logged;
        if !tok {
            return if prv && l != Some(CKU_USER) { None } else { Some(true) };
        }
        if !rw || l.is_none() || (prv && l != Some(CKU_USER)) {
            return Some(false);
        }
        if l == Some(CKU_SO) {
            return None;
        }
        Some(true)
    }

    fn tags_for_fail(&self, rw: bool, tok: bool, prv: bool) -> Vec<&'static str> {
        let mut t = vec![];
        if tok && !rw {
            t.push("P06")
        }
        if tok && prv {
            t.push("P03")
        }
        if t.is_empty() {
            t.push("P03");
            t.push("P08")
        }
        t
    }

    /// judge a creating call and bring the new object into the model
    #[allow(clippy::too_many_arguments)]
    fn made(&mut self, op: &str, sl: usize, s: H, rw: bool, got: R<H>, t: &T, prv_hint: Option<bool>, tok: bool, must: Option<bool>, val: Option<Vec<u8>>, origin: Origin, src: Option<&Obj>) {
        let l = self.sl[sl].logged;
        w::eval(&format!("{} tok={} prv={:?} rw={} logged={:?} class={:?} -> {}", op, tok, prv_hint, rw, l, t.getu(CKA_CLASS), rn(&got)));
        let h = match got {
            Err(e) => {
                if must == Some(true) {
                    viol!(["P08"], &format!("refused:{}:{}", op, rvn(e)), "{} of a legal object refused with {} (rw={} logged={:?} tok={} prv={:?}, {})", op, rvn(e), rw, l, tok, prv_hint, t.show());
                }
                return;
            }
            Ok(h) => h,
        };
        if must == Some(false) {
            let tg = self.tags_for_fail(rw, tok, prv_hint.unwrap_or(true));
            viol!(tg, &format!("allowed:{}:rw={}:logged={:?}:tok={}:prv={:?}", op, rw, l, tok, prv_hint), "{} succeeded in a {} session, logged in {:?}, for a token={} private={:?} object: {}", op, if rw { "R/W" } else { "R/O" }, l, tok, prv_hint, t.show());
        }
        if h == 0 || self.sl[sl].used(h) || self.sl[sl].dead.iter().any(|d| d.0 == h) {
            viol!(["P08"], &format!("handle-reused:{}", op), "{} returned handle {} that names or named another object", op, h);
        }
        let a = match snap(s, h) {
            Ok(a) => a,
            Err(e) => {
                // a private object created without the user cannot be read back by anyone but the user
                if prv_hint != Some(true) || self.sl[sl].user() {
                    viol!(["P08"], &format!("new-unreadable:{}", op), "object {} just made by {} cannot be read: {}", h, op, rvn(e));
                }
                self.sl[sl].dead.retain(|d| d.0 != h);
                return;
            }
        };
        // the attributes are those of the template (or of the source)
        let mut o = Obj { h: Some(h), tok, prv: sb(&a, CKA_PRIVATE).unwrap_or(true), owner: s, a: a.clone(), val, origin, as_: false, ne: false, born: self.step };
        if o.class() == CK_ULONG::MAX || sb(&a, CKA_TOKEN) != Some(tok) {
            viol!(["P08", "P06"], &format!("new-wrong-token:{}", op), "object made by {} with token={} reads CKA_TOKEN {:?}", op, tok, a.get(&CKA_TOKEN));
        }
        if let Some(p) = t.getb(CKA_PRIVATE) {
            if p != o.prv {
                viol!(["P08", "P03"], &format!("new-wrong-private:{}", op), "object made by {} with private={} reads {}", op, p, o.prv);
            }
        }
        for (k, v) in &t.0 {
            match a.get(k) {
                Some(x) if x == v => {}
                Some(x) => {
                    if *k != CKA_CHECK_VALUE && *k != CKA_VALUE_LEN {
                        viol!(["P08", "P09"], &format!("new-value:{}:{}", op, ckan(*k)), "{} set {} to {} but it reads {}", op, ckan(*k), w::hx(v), w::hx(x));
                    }
                }
                None => {
                    if !(SECRET.contains(k) && o.hidden_secret()) && *k != CKA_CHECK_VALUE {
                        viol!(["P08"], &format!("new-missing:{}:{}", op, ckan(*k)), "{} set {} but it cannot be read", op, ckan(*k));
                    }
                }
            }
        }
        // nothing secret readable
        for k in SECRET {
            if o.hidden_secret() && a.contains_key(k) {
                viol!(["P04"], &format!("secret-readable:{}:{}", op, ckan(*k)), "{} of a sensitive or unextractable key is readable after {}", ckan(*k), op);
            }
        }
        if let Some(uid) = a.get(&CKA_UNIQUE_ID) {
            if !self.uids.insert(uid.clone()) {
                viol!(["P08", "P27"], "uid-dup", "unique id {} given to two objects", String::from_utf8_lossy(uid));
            }
        } else if !self.nss || !tok {
            viol!(["P08"], "uid-missing", "new object has no unique id");
        }
        // provenance
        if o.is_sec() {
            let sens = sb(&a, CKA_SENSITIVE).unwrap_or(true);
            let extr = sb(&a, CKA_EXTRACTABLE).unwrap_or(false);
            match (&o.origin, src) {
                (Origin::Generated(_), None) => {
                    o.as_ = sens;
                    o.ne = !extr;
                }
                (Origin::Derived, Some(b)) => {
                    o.as_ = b.as_ && sens;
                    o.ne = b.ne && !extr;
                }
                (_, Some(b)) => {
                    // copy
                    o.as_ = b.as_ && sens;
                    o.ne = b.ne && !extr;
                    o.origin = b.origin.clone();
                }
                _ => {}
            }
            if let (Some(b), "copy" | "derive") = (src, op) {
                if op == "copy" && ((sb(&b.a, CKA_SENSITIVE) == Some(true) && !sens) || (sb(&b.a, CKA_EXTRACTABLE) == Some(false) && extr) || (sb(&b.a, CKA_WRAP_WITH_TRUSTED) == Some(true) && sb(&a, CKA_WRAP_WITH_TRUSTED) != Some(true))) {
                    viol!(["P04", "P05"], "copy-weaker", "copy of {} has weaker protection: {}", b.what(), t.show());
                }
            }
        }
        self.check_prov(&o, op);
        self.sl[sl].objs.push(o);
        w::count("objects_made", 1);
    }
    fn check_prov(&self, o: &Obj, op: &str) {
        let cl = o.class();
        if !matches!(cl, CKO_SECRET_KEY | CKO_PRIVATE_KEY | CKO_PUBLIC_KEY) {
            return;
        }
        let (loc, gm) = match o.origin {
            Origin::Generated(m) => (true, m),
            _ => (false, CK_UNAVAILABLE_INFORMATION),
        };
        let stored_nss = self.nss && o.tok;
        let l = sb(&o.a, CKA_LOCAL);
        if l != Some(loc) && !(stored_nss && l.is_none()) {
            viol!(["P05"], &format!("prov:LOCAL:{}:{:?}", op, o.origin), "after {}: CKA_LOCAL of {} ({:?}) reads {:?}", op, o.what(), o.origin, l);
        }
        let g = su(&o.a, CKA_KEY_GEN_MECHANISM);
        if g != Some(gm) && !(gm == CK_UNAVAILABLE_INFORMATION && g.is_none()) && !(stored_nss && g.is_none()) {
            viol!(["P05"], &format!("prov:KEY_GEN_MECHANISM:{}:{:?}", op, o.origin), "after {}: CKA_KEY_GEN_MECHANISM of {} ({:?}) reads {:?}", op, o.what(), o.origin, g.map(ckmn));
        }
        if o.is_sec() {
            for (at, want, n) in [(CKA_ALWAYS_SENSITIVE, o.as_, "ALWAYS_SENSITIVE"), (CKA_NEVER_EXTRACTABLE, o.ne, "NEVER_EXTRACTABLE")] {
                let g = sb(&o.a, at);
                if g != Some(want) && !(g.is_none() && (!want || stored_nss)) {
                    viol!(["P05"], &format!("prov:{}:{}:{:?}:{}", n, op, o.origin, want), "after {}: {} of {} ({:?}) reads {:?}, expected {}", op, n, o.what(), o.origin, g, want);
                }
            }
        }
        if sb(&o.a, CKA_TRUSTED) == Some(true) && matches!(cl, CKO_PUBLIC_KEY | CKO_SECRET_KEY | CKO_PRIVATE_KEY) {
            viol!(["P05"], "prov:TRUSTED", "after {}: CKA_TRUSTED is true on {}", op, o.what());
        }
    }

    /// all calls on a handle that must not be usable here
    fn denied(&mut self, sl: usize, s: H, h: H, tags: &[&str], why: &str, r: &mut Rng) {
        let m = M::raw(CKM_AES_CBC, &[0u8; 16]);
        let sha = M::new(CKM_SHA256_HMAC);
        let mut l: Vec<(&str, bool)> = vec![];
        let tk = h;
        let pick = r.below(3);
        l.push(("C_GetAttributeValue", {
            let (rv, _) = c::attrs(s, tk, &[CKA_CLASS, CKA_LABEL, CKA_VALUE]);
            matches!(rv, CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID | CKR_BUFFER_TOO_SMALL)
        }));
        l.push(("C_GetAttributeValue(len)", {
            let (rv, v) = c::attr_lens(s, tk, &[CKA_CLASS, CKA_LABEL]);
            rv == CKR_OK || rv == CKR_ATTRIBUTE_TYPE_INVALID || v.iter().any(|x| *x != 0 && *x != CK_UNAVAILABLE_INFORMATION)
        }));
        l.push(("C_GetObjectSize", c::size(s, tk).is_ok()));
        if pick > 0 {
            l.push(("C_SetAttributeValue", c::set(s, tk, &T::new().s(CKA_LABEL, "intruder")).is_ok()));
            l.push(("C_CopyObject", match c::copy(s, tk, &T::new().b(CKA_TOKEN, false)) {
                Ok(n) => {
                    let _ = c::destroy(s, n);
                    true
                }
                Err(_) => false,
            }));
        }
        if pick > 1 {
            macro_rules! op {
                ($n:literal, $e:expr, $f:expr) => {{
                    let ok = $e.is_ok();
                    if ok {
                        let _ = c::session_cancel(s, $f);
                    }
                    l.push(($n, ok));
                }};
            }
            op!("C_EncryptInit", c::encrypt_init(s, &m, tk), CKF_ENCRYPT);
            op!("C_DecryptInit", c::decrypt_init(s, &m, tk), CKF_DECRYPT);
            op!("C_DecryptInit(rsa)", c::decrypt_init(s, &M::new(CKM_RSA_PKCS), tk), CKF_DECRYPT);
            op!("C_SignInit(rsa)", c::sign_init(s, &M::new(CKM_RSA_PKCS), tk), CKF_SIGN);
            op!("C_SignInit(ec)", c::sign_init(s, &M::new(CKM_ECDSA), tk), CKF_SIGN);
            op!("C_SignInit(hmac)", c::sign_init(s, &sha, tk), CKF_SIGN);
            op!("C_VerifyInit(hmac)", c::verify_init(s, &sha, tk), CKF_VERIFY);
            op!("C_VerifyInit(rsa)", c::verify_init(s, &M::new(CKM_RSA_PKCS), tk), CKF_VERIFY);
            op!("C_MessageEncryptInit", c::msg_encrypt_init(s, &M::new(CKM_AES_GCM), tk), CKF_MESSAGE_ENCRYPT);
            op!("C_MessageDecryptInit", c::msg_decrypt_init(s, &M::new(CKM_AES_GCM), tk), CKF_MESSAGE_DECRYPT);
            if c::digest_init(s, &M::new(CKM_SHA256)).is_ok() {
                l.push(("C_DigestKey", c::digest_key(s, tk).is_ok()));
                let _ = c::digest_final(s);
            }
            let mut wk = c::create(s, &ops::aes_key(&[7; 16]).b(CKA_TOKEN, false).b(CKA_PRIVATE, false)).must("C_CreateObject");
            if wk == tk {
                // the handle of another slot's object was just given to this one
                let n = c::create(s, &ops::aes_key(&[7; 16]).b(CKA_TOKEN, false).b(CKA_PRIVATE, false)).must("C_CreateObject");
                let _ = c::destroy(s, wk);
                wk = n;
            }
            l.push(("C_WrapKey(key)", c::wrap(s, &M::new(CKM_AES_KEY_WRAP), wk, tk).is_ok()));
            l.push(("C_WrapKey(wrapping key)", c::wrap(s, &M::new(CKM_AES_KEY_WRAP), tk, wk).is_ok()));
            let tt = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).b(CKA_PRIVATE, false);
            if let Ok(n) = c::derive(s, &M::new(CKM_SHA256_KEY_DERIVATION), tk, &tt) {
                l.push(("C_DeriveKey", true));
                let _ = c::destroy(s, n);
            }
            let two = tk;
            let mm = M::st(CKM_CONCATENATE_BASE_AND_KEY, &two, vec![], "second key");
            if let Ok(n) = c::derive(s, &mm, wk, &tt) {
                l.push(("C_DeriveKey(second key)", true));
                let _ = c::destroy(s, n);
            }
            let _ = c::destroy(s, wk);
            l.push(("C_DestroyObject", c::destroy(s, tk).is_ok()));
        }
        let sigw = why.split(':').next().unwrap_or("").to_string();
        for (n, ok) in l {
            w::eval(&format!("denied {} {} logged={:?}", n, sigw, self.sl[sl].logged));
            if ok {
                viol!(tags, &format!("reached:{}:{}", n, sigw), "{} worked on handle {} ({}) in slot {} with {:?} logged in", n, h, why, sl, self.sl[sl].logged);
            }
        }
    }

    /// the objects of a slot, all of them, compared with the model through one session
    fn full(&mut self, sl: usize, r: &mut Rng, when: &str) {
        let (s, _) = match self.sl[sl].sess.first() {
            Some(x) => {
                let _ = x;
                *r.pick(&self.sl[sl].sess)
            }
            None => return,
        };
        let found = match c::find(s, &T::new()) {
            Ok(f) => f,
            Err(e) => {
                viol!(["P08"], &format!("find-all-failed:{}", rvn(e)), "C_FindObjects for everything failed {}: {}", when, rvn(e));
                return;
            }
        };
        let set: HashSet<H> = found.iter().cloned().collect();
        if set.len() != found.len() {
            viol!(["P08"], "find-dup", "C_FindObjects returned an object twice");
        }
        let mut byid: HashMap<Vec<u8>, Vec<H>> = HashMap::new();
        let mut snaps: HashMap<H, Snap> = HashMap::new();
        for h in &found {
            match snap(s, *h) {
                Ok(a) => {
                    if matches!(su(&a, CKA_CLASS), Some(CKO_PROFILE) | Some(CKO_MECHANISM) | Some(CKO_HW_FEATURE) | Some(CKO_VALIDATION)) {
                        self.sl[sl].builtin.insert(*h);
                        continue;
                    }
                    let idk = if self.nss && sb(&a, CKA_TOKEN) == Some(true) { CKA_ID } else { CKA_UNIQUE_ID };
                    byid.entry(a.get(&idk).cloned().unwrap_or_default()).or_default().push(*h);
                    snaps.insert(*h, a);
                }
                Err(e) => viol!(["P08", "P09"], &format!("found-unreadable:{}", rvn(e)), "object {} was found {} but cannot be read: {}", h, when, rvn(e)),
            }
        }
        let nss = self.nss;
        let mut known: HashSet<H> = HashSet::new();
        let visible: Vec<usize> = (0..self.sl[sl].objs.len()).filter(|i| self.sl[sl].reach(&self.sl[sl].objs[*i])).collect();
        for i in visible {
            let o = self.sl[sl].objs[i].clone();
            let id = o.id(nss && o.tok);
            let hs = byid.get(&id).cloned().unwrap_or_default();
            let tags: Vec<&str> = if o.tok { vec!["P08", "P09"] } else { vec!["P08", "P06"] };
            if hs.is_empty() {
                viol!(tags, &format!("lost:{}:{}", if o.tok { "token" } else { "session" }, when.split(':').next().unwrap()), "{}: {} (made at step {}, now {}) is not found any more", when, o.what(), o.born, self.step);
                continue;
            }
            if hs.len() > 1 {
                viol!(["P08"], "found-two-handles", "{}: {} is found under several handles {:?}", when, o.what(), hs);
            }
            match o.h {
                Some(h) if !hs.contains(&h) => viol!(["P08"], "handle-changed", "{}: {} is now found as {:?}", when, o.what(), hs),
                None => {
                    if self.sl[sl].dead.iter().any(|d| d.0 == hs[0]) {
                        // handles are new after a restart, the dead list is empty then
                        viol!(["P08"], "dead-handle-revived", "{}: {} found under the handle of a dead object", when, o.what());
                    }
                    self.sl[sl].objs[i].h = Some(hs[0])
                }
                _ => {}
            }
            known.insert(hs[0]);
            if let Some(a) = snaps.get(&hs[0]) {
                w::eval(&format!("content {} {} class={:?}", when.split(':').next().unwrap(), if o.tok { "token" } else { "session" }, o.class()));
                let noval = o.is_sec() && o.tok && !self.sl[sl].user();
                if !same(&o.a, a, noval) {
                    let mut tags = vec!["P08"];
                    if o.tok && when.starts_with("restart") {
                        tags.push("P09");
                        tags.push("P03");
                    }
                    if o.tok && self.sl.len() > 1 {
                        tags.push("P06");
                    }
                    if difftypes(&o.a, a).contains("CKA_LABEL") {
                        tags.extend(["P05", "P26"]);
                    }
                    viol!(tags, &format!("content:{}:{}:{}", when.split(':').next().unwrap(), if o.tok { "token" } else { "session" }, difftypes(&o.a, a)), "{}: {} differs: {}", when, o.what(), diff(&o.a, a).join("; "));
                    if !noval {
                        self.sl[sl].objs[i].a = a.clone();
                    }
                }
                let oc = self.sl[sl].objs[i].clone();
                self.check_prov(&oc, when.split(':').next().unwrap());
            }
        }
        for (h, a) in &snaps {
            if known.contains(h) {
                continue;
            }
            // something found that should not be there
            let all: Vec<(usize, &Obj)> = self.sl.iter().enumerate().flat_map(|(i, x)| x.objs.iter().map(move |o| (i, o))).collect();
            let id = a.get(&CKA_UNIQUE_ID).cloned().unwrap_or_default();
            let nid = a.get(&CKA_ID).cloned().unwrap_or_default();
            let m = all.iter().find(|(_, o)| (!id.is_empty() && o.a.get(&CKA_UNIQUE_ID) == Some(&id)) || (nss && !nid.is_empty() && o.a.get(&CKA_ID) == Some(&nid)));
            match m {
                Some((j, o)) if *j == sl => viol!(["P03"], &format!("private-found:logged={:?}", self.sl[sl].logged), "{}: {} is found with {:?} logged in", when, o.what(), self.sl[sl].logged),
                Some((j, o)) => viol!(["P26", "P08"], "found-in-other-slot", "{}: {} of slot {} is found in slot {}", when, o.what(), j, sl),
                None => viol!(["P08", "P09", "P06", "P11"], &format!("stray:{}", when.split(':').next().unwrap()), "{}: object {} is found but should not exist: {:?}", when, h, a.iter().map(|(k, v)| format!("{}={}", ckan(*k), w::hx(v))).collect::<Vec<_>>()),
            }
        }
        w::count("full_checks", 1);
        // key material still works
        let keys: Vec<Obj> = self.sl[sl].objs.iter().filter(|o| self.sl[sl].reach(o) && (!o.tok || self.sl[sl].user()) && o.val.is_some() && o.h.is_some()).cloned().collect();
        for _ in 0..3.min(keys.len()) {
            let o = r.pick(&keys).clone();
            self.use_key(&o, s, when);
        }
    }
    fn use_key(&self, o: &Obj, s: H, when: &str) {
        let v = o.val.as_ref().unwrap();
        let h = o.h.unwrap();
        let (got, want) = if su(&o.a, CKA_KEY_TYPE) == Some(CKK_AES) && sb(&o.a, CKA_ENCRYPT) == Some(true) {
            (c::encrypt_init(s, &M::new(CKM_AES_ECB), h).and_then(|_| c::encrypt(s, b"0123456789abcdef")), refc::aes_ecb(v, b"0123456789abcdef", true))
        } else if su(&o.a, CKA_KEY_TYPE) == Some(CKK_GENERIC_SECRET) && sb(&o.a, CKA_SIGN) == Some(true) {
            (c::sign_init(s, &M::new(CKM_SHA256_HMAC), h).and_then(|_| c::sign(s, b"0123456789abcdef")), refc::hmac(refc::SHA256, v, b"0123456789abcdef"))
        } else {
            return;
        };
        w::count("keys_used", 1);
        match got {
            Ok(g) if g == want => {}
            Ok(g) => viol!(["P08", "P09", "P04"], "key-material-changed", "{}: {} computes {} instead of {}", when, o.what(), w::hx(&g), w::hx(&want)),
            Err(e) => viol!(["P08", "P09", "P03"], &format!("key-unusable:{}", rvn(e)), "{}: {} cannot be used: {}", when, o.what(), rvn(e)),
        }
    }
    fn kill_obj(&mut self, sl: usize, i: usize, why: &str) {
        let o = self.sl[sl].objs.remove(i);
        if let Some(h) = o.h {
            self.sl[sl].dead.push((h, format!("{} {}", why, o.what())));
        }
        if self.sl[sl].dead.len() > 80 {
            self.sl[sl].dead.drain(..20);
        }
    }
    fn kill_where(&mut self, sl: usize, why: &str, f: impl Fn(&Obj) -> bool) {
        let mut i = 0;
        while i < self.sl[sl].objs.len() {
            if f(&self.sl[sl].objs[i]) {
                self.kill_obj(sl, i, why)
            } else {
                i += 1
            }
        }
    }
    fn logged_out(&mut self, sl: usize) {
        if self.sl[sl].logged.is_some() {
            self.sl[sl].logged = None;
            self.kill_where(sl, "logout:", |o| !o.tok && o.prv);
        }
    }
    /// search for a template and compare with the model
    fn search(&mut self, sl: usize, s: H, r: &mut Rng) {
        let n = self.sl[sl].objs.len();
        let mut t = T::new();
        if n > 0 && r.chance(7, 8) {
            let o = self.sl[sl].objs[r.us(n)].clone();
            let ks: Vec<CK_ULONG> = o.a.keys().cloned().collect();
            let k = r.range(1, 3);
            for _ in 0..k {
                let a = if r.chance(1, 3) { *r.pick(&[CKA_CLASS, CKA_LABEL, CKA_TOKEN, CKA_PRIVATE, CKA_ID, CKA_KEY_TYPE, CKA_UNIQUE_ID]) } else { *r.pick(&ks) };
                if let Some(v) = o.a.get(&a) {
                    t.put(a, v)
                }
            }
            if r.chance(1, 6) {
                if let Some(v) = &o.val {
                    t.put(CKA_VALUE, v);
                }
            }
            if r.chance(1, 8) && !t.0.is_empty() {
                // slightly different value
                let i = r.us(t.0.len());
                let date = [CKA_START_DATE, CKA_END_DATE].contains(&t.0[i].0);
                let v = &mut t.0[i].1;
                match r.below(3) {
                    _ if date => {}
                    0 => {
                        if v.len() == 8 {
                            // numbers beyond 32 bits are not searchable
                            if v[4..] == [0; 4] {
                                v[0] ^= 1
                            }
                        } else if let Some(x) = v.last_mut() {
                            *x ^= 1
                        }
                    }
                    1 if v.len() != 8 && v.len() != 1 => {
                        v.pop();
                    }
                    _ if v.len() != 8 && v.len() != 1 => v.push(b'x'),
                    _ => {}
                }
            }
        } else {
            t = match r.below(4) {
                0 => T::new().s(CKA_LABEL, *r.pick(&LABELS)),
                1 => T::new().b(CKA_TOKEN, r.bool()),
                2 => T::new().u(CKA_CLASS, *r.pick(&[CKO_DATA, CKO_SECRET_KEY, CKO_PRIVATE_KEY, CKO_PUBLIC_KEY, CKO_CERTIFICATE])),
                _ => T::new(),
            };
        }
        if t.getb(CKA_TOKEN).is_none() && t.has(CKA_TOKEN) {
            return;
        }
        let chunk = *r.pick(&[1usize, 2, 3, 7, 50]);
        let secret = t.0.iter().any(|(k, _)| SECRET.contains(k));
        let g = (|| -> R<Vec<H>> {
            c::find_init(s, &t)?;
            let mut all = vec![];
            loop {
                let v = c::find_next(s, chunk)?;
                if v.is_empty() {
                    break;
                }
                all.extend(v);
                if all.len() > 5000 {
                    viol!(["P08"], "find-endless", "C_FindObjects does not end");
                    break;
                }
            }
            c::find_final(s)?;
            Ok(all)
        })();
        let names = t.0.iter().map(|x| ckan(x.0)).collect::<Vec<_>>().join("+");
        let got = match g {
            Ok(g) => g,
            Err(e) => {
                let _ = c::find_final(s);
                // the NSS format refuses searches by encrypted or unknown attributes
                if !self.nss {
                    viol!(["P08"], &format!("find-failed:{}", rvn(e)), "search for {} failed: {}", t.show(), rvn(e));
                } else {
                    w::count("nss_searches_refused", 1);
                }
                return;
            }
        };
        let got: Vec<H> = got.into_iter().filter(|h| !self.sl[sl].builtin.contains(h)).collect();
        let gs: HashSet<H> = got.iter().cloned().collect();
        if gs.len() != got.len() {
            viol!(["P08"], "find-dup", "search for {} returned an object twice", t.show());
        }
        w::eval(&format!("find {} n={} chunk={}", names, got.len().min(9), chunk));
        let st = &self.sl[sl];
        for o in &st.objs {
            let h = match o.h {
                Some(h) => h,
                None => continue,
            };
            let m = t.0.iter().all(|(k, v)| if SECRET.contains(k) && o.is_sec() { o.a.get(k) == Some(v) } else { o.a.get(k) == Some(v) });
            let reach = st.reach(o);
            if gs.contains(&h) && !reach {
                viol!(["P03"], &format!("private-matched:logged={:?}", st.logged), "search for {} finds {} with {:?} logged in", t.show(), o.what(), st.logged);
            } else if gs.contains(&h) && !m {
                if o.class() == CKO_PUBLIC_KEY && (t.has(CKA_ALWAYS_SENSITIVE) || t.has(CKA_NEVER_EXTRACTABLE)) {
                    // a derived public key keeps these, unreadable
                } else if secret && o.hidden_secret() {
                    viol!(["P04"], "secret-matched", "search by secret value {} finds {}", t.show(), o.what());
                } else {
                    viol!(["P08"], &format!("find-wrong:{}", if o.tok { "token" } else { "session" }), "search for {} finds {} which does not match: {:?}", t.show(), o.what(), o.a.iter().filter(|x| t.has(*x.0)).map(|(k, v)| format!("{}={}", ckan(*k), w::hx(v))).collect::<Vec<_>>());
                }
            } else if !gs.contains(&h) && m && reach {
                // stored key material is encrypted: a token key is not found by its value (see known findings)
                if o.tok && o.is_sec() && secret {
                    viol!(["P08"], "find-token-key-by-value", "search for {} misses {}", t.show(), o.what());
                    continue;
                }
                viol!(["P08"], &format!("find-missed:{}:{}", if o.tok { "token" } else { "session" }, if self.nss { "nss:" } else { "" }.to_string() + &names), "search for {} misses {} {:?}", t.show(), o.what(), o.a.iter().filter(|x| t.has(*x.0)).map(|(k, v)| format!("{}={}", ckan(*k), w::hx(v))).collect::<Vec<_>>());
            }
        }
        let hs: HashSet<H> = st.objs.iter().filter_map(|o| o.h).collect();
        for h in &gs {
            if !hs.contains(h) && st.objs.iter().all(|o| o.h.is_some()) {
                viol!(["P08", "P03", "P26"], "find-unknown", "search for {} returned handle {} that names no live object", t.show(), h);
            }
        }
    }
}

fn hist(n: u64, r: &mut Rng, nssdb: bool) {
    let mut round = 0;
    while w::time_left() {
        round += 1;
        one(n.min(900), r, nssdb, round);
        if w::viols() > 40 {
            break;
        }
    }
}

fn one(n: u64, r: &mut Rng, nssdb: bool, round: u64) {
    let dir = scratch(&format!("t{}", round));
    let cps: Vec<SlotCfg> = (0..2).map(|i| if nssdb { nss(i, &format!("{}/n{}", dir, i)) } else { sqlite(i, &dir, &format!("t{}", i)) }).collect();
    let conf = write_conf(&dir, &cps);
    c::initialize(Some(&conf)).must("C_Initialize");
    let mut m = Model { sl: vec![], nss: nssdb, dir: dir.clone(), conf, uids: HashSet::new(), serial: 0, step: 0, cps };
    for i in 0..2 {
        init_pins(i);
        m.sl.push(Slot::default());
    }
    // built-in objects
    for i in 0..2usize {
        let s = c::open(i as CK_SLOT_ID, false).must("C_OpenSession");
        for h in c::find(s, &T::new()).must("C_FindObjects") {
            m.sl[i].builtin.insert(h);
        }
        c::close(s).must("C_CloseSession");
    }
    for step in 0..n {
        if !w::time_left() || w::viols() > 40 {
            break;
        }
        m.step = step;
        let sl = if r.chance(2, 3) { 0 } else { 1 };
        step_one(&mut m, sl, r);
        if step % 23 == 22 {
            for i in 0..2 {
                m.full(i, r, "steady:");
            }
        }
    }
    c::finalize().must("C_Finalize");
    let _ = std::fs::remove_dir_all(&m.dir);
}

fn cpdir(a: &std::path::Path, b: &std::path::Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() {
            cpdir(&p, &b.join(e.file_name()))
        } else {
            let _ = std::fs::copy(&p, b.join(e.file_name()));
        }
    }
}

fn step_one(m: &mut Model, sl: usize, r: &mut Rng) {
    let slot = sl as CK_SLOT_ID;
    if m.sl[sl].sess.is_empty() {
        let rw = r.chance(3, 4);
        let s = c::open(slot, rw).must("C_OpenSession");
        m.sl[sl].sess.push((s, rw));
        return;
    }
    let (s, rw) = *r.pick(&m.sl[sl].sess);
    let l = m.sl[sl].logged;
    let nobj = m.sl[sl].objs.len();
    let roll = r.below(100);
    match roll {
        // ---- create ----
        0..=15 if nobj < 40 => {
            let tok = r.chance(2, 3);
            let prv = if r.chance(7, 8) { Some(r.bool()) } else { None };
            let (mut t, val) = m.template(r, tok, prv);
            let prv = t.getb(CKA_PRIVATE);
            if r.chance(1, 5) {
                // something wrong somewhere in the template: refused, nothing happens
                let at = r.us(t.0.len() + 1);
                let (n, bad): (&str, (CK_ULONG, Vec<u8>)) = match r.below(9) {
                    0 => ("unknown", (0x7fff_1234, vec![1])),
                    1 => ("local", (CKA_LOCAL, vec![1])),
                    2 => ("always-sensitive", (CKA_ALWAYS_SENSITIVE, vec![1])),
                    3 => ("never-extractable", (CKA_NEVER_EXTRACTABLE, vec![1])),
                    4 => ("gen-mechanism", (CKA_KEY_GEN_MECHANISM, CKM_AES_KEY_GEN.to_ne_bytes().to_vec())),
                    5 => ("unique-id", (CKA_UNIQUE_ID, b"mine".to_vec())),
                    6 => ("bool-length", (CKA_TOKEN, vec![1, 1])),
                    7 => ("duplicate", (CKA_LABEL, b"dup".to_vec())),
                    _ => ("trusted", (CKA_TRUSTED, vec![1])),
                };
                if n == "duplicate" {
                    t.put(CKA_LABEL, b"first");
                }
                if n == "bool-length" {
                    t = t.del(CKA_TOKEN);
                }
                let cert = t.getu(CKA_CLASS) == Some(CKO_CERTIFICATE);
                if n == "trusted" && cert {
                    return;
                }
                let at = at.min(t.0.len());
                t.0.insert(at, bad);
                let g = c::create(s, &t);
                w::eval(&format!("create-bad {} class={:?} -> {}", n, t.getu(CKA_CLASS), rn(&g)));
                if let Ok(h) = g {
                    viol!(["P05", "P11"], &format!("bad-template-accepted:{}", n), "C_CreateObject accepted a template with {}: {}", n, t.show());
                    let _ = c::destroy(s, h);
                }
                return;
            }
            let must = match prv {
                Some(p) => m.may_create(sl, rw, tok, p),
                None => match (m.may_create(sl, rw, tok, true), m.may_create(sl, rw, tok, false)) {
                    (a, b) if a == b => a,
                    _ => None,
                },
            };
            let g = c::create(s, &t);
            m.made("create", sl, s, rw, g, &t, prv, tok, must, val, Origin::Created, None);
        }
        // ---- generate, unwrap, derive ----
        16..=23 if nobj < 40 => {
            let tok = r.bool();
            let prv = r.bool();
            let must = m.may_create(sl, rw, tok, prv);
            let id = m.newid();
            match r.below(4) {
                0 => {
                    let (mech, t) = if r.bool() { (CKM_AES_KEY_GEN, T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES)) } else { (CKM_GENERIC_SECRET_KEY_GEN, T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET)) };
                    let t = usage(t.u(CKA_VALUE_LEN, 16).v(CKA_ID, &id), r, &[CKA_ENCRYPT, CKA_SIGN, CKA_WRAP, CKA_DERIVE]);
                    let t = flags(t, r, true);
                    let t = m.place(t, r, tok, Some(prv));
                    let g = c::generate_key(s, &M::new(mech), &t);
                    m.made("generate", sl, s, rw, g, &t, Some(prv), tok, must, None, Origin::Generated(mech), None);
                }
                1 => {
                    // the two halves can live in different places
                    let (tok2, prv2) = (r.bool(), r.chance(1, 4));
                    let must2 = m.may_create(sl, rw, tok2, prv2);
                    let id2 = m.newid();
                    let st = flags(T::new().v(CKA_ID, &id).b(CKA_SIGN, true), r, true);
                    let st = m.place(st, r, tok, Some(prv));
                    let pt = flags(T::new().v(CKA_EC_PARAMS, refc::P256.oid).b(CKA_VERIFY, true).v(CKA_ID, &id2), r, false);
                    let pt = m.place(pt, r, tok2, Some(prv2));
                    let both = match (must, must2) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    };
                    let g = c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &pt, &st);
                    match g {
                        Ok((p, q)) => {
                            m.made("generate-pair-public", sl, s, rw, Ok(p), &pt, Some(prv2), tok2, if both == Some(false) { must2 } else { None }, None, Origin::Generated(CKM_EC_KEY_PAIR_GEN), None);
                            m.made("generate-pair-private", sl, s, rw, Ok(q), &st, Some(prv), tok, if both == Some(false) { must } else { None }, None, Origin::Generated(CKM_EC_KEY_PAIR_GEN), None);
                        }
                        Err(e) => {
                            w::eval(&format!("generate-pair {}{} rw={} logged={:?} -> {}", tok, tok2, rw, l, rvn(e)));
                            if both == Some(true) {
                                viol!(["P08"], &format!("refused:generate-pair:{}", rvn(e)), "C_GenerateKeyPair refused: {}", rvn(e));
                            }
                        }
                    }
                }
                2 => {
                    let kek = r.bytes(16);
                    let v = r.bytes(16);
                    let wk = c::create(s, &ops::aes_key(&kek).b(CKA_TOKEN, false).b(CKA_PRIVATE, false)).must("C_CreateObject");
                    let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).v(CKA_ID, &id);
                    let t = usage(t, r, &[CKA_ENCRYPT, CKA_SIGN, CKA_WRAP, CKA_DERIVE]);
                    let t = flags(t, r, true);
                    let t = m.place(t, r, tok, Some(prv));
                    let g = c::unwrap(s, &M::new(CKM_AES_KEY_WRAP), wk, &refc::kw(&kek, &v, &[0xa6; 8]), &t);
                    let _ = c::destroy(s, wk);
                    m.made("unwrap", sl, s, rw, g, &t, Some(prv), tok, must, Some(v), Origin::Unwrapped, None);
                }
                _ => {
                    // from a live key with CKA_DERIVE
                    let b: Vec<Obj> = m.sl[sl].objs.iter().filter(|o| o.class() == CKO_SECRET_KEY && sb(&o.a, CKA_DERIVE) == Some(true) && o.h.is_some() && m.sl[sl].reach(o)).cloned().collect();
                    if b.is_empty() {
                        return;
                    }
                    let o = r.pick(&b).clone();
                    let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).v(CKA_ID, &id);
                    let t = usage(t, r, &[CKA_SIGN, CKA_DERIVE]);
                    let mut t = flags(t, r, true);
                    if r.bool() {
                        t = t.u(CKA_VALUE_LEN, r.range(1, 32) as CK_ULONG);
                    }
                    let t = m.place(t, r, tok, Some(prv));
                    let g = c::derive(s, &M::new(CKM_SHA256_KEY_DERIVATION), o.h.unwrap(), &t);
                    let val = o.val.as_ref().map(|v| {
                        let mut d = refc::hash(refc::SHA256, v);
                        if let Some(n) = t.getu(CKA_VALUE_LEN) {
                            d.truncate(n as usize)
                        }
                        d
                    });
                    // the mechanism's rules on protection may refuse weaker templates
                    let must = if must == Some(true) { None } else { must };
                    m.made("derive", sl, s, rw, g, &t, Some(prv), tok, must, val, Origin::Derived, Some(&o));
                }
            }
        }
        // ---- copy ----
        24..=33 if nobj > 0 && nobj < 40 => {
            let i = r.us(nobj);
            let o = m.sl[sl].objs[i].clone();
            let h = match o.h {
                Some(h) => h,
                None => return,
            };
            let mut t = T::new();
            if r.chance(2, 3) {
                t = t.b(CKA_TOKEN, r.bool())
            }
            if r.chance(1, 2) {
                t = t.b(CKA_PRIVATE, r.bool())
            }
            if r.bool() {
                t = t.s(CKA_LABEL, *r.pick(&LABELS))
            }
            if nssdb(m) {
                let id = m.newid();
                t = t.v(CKA_ID, &id);
            }
            if r.chance(1, 5) {
                t = t.b(CKA_MODIFIABLE, r.bool());
            }
            let mut kind = "copy";
            if r.chance(1, 4) {
                // changes that must be refused, or at least never weaken
                let x = match r.below(9) {
                    0 => (CKA_CLASS, CKO_DATA.to_ne_bytes().to_vec()),
                    1 => (CKA_LOCAL, vec![1]),
                    2 => (CKA_ALWAYS_SENSITIVE, vec![1]),
                    3 => (CKA_NEVER_EXTRACTABLE, vec![1]),
                    4 => (CKA_KEY_TYPE, CKK_GENERIC_SECRET.to_ne_bytes().to_vec()),
                    5 => (CKA_UNIQUE_ID, b"mine".to_vec()),
                    6 => (CKA_VALUE, vec![9; 16]),
                    7 => (CKA_SENSITIVE, vec![0]),
                    _ => (CKA_EXTRACTABLE, vec![1]),
                };
                kind = "copy-bad";
                if (x.0 == CKA_SENSITIVE || x.0 == CKA_EXTRACTABLE) && (!o.is_sec() || o.a.get(&x.0) == Some(&x.1)) {
                    return;
                }
                if x.0 == CKA_VALUE && !o.is_sec() {
                    return;
                }
                t.put(x.0, &x.1);
            }
            let tok = t.getb(CKA_TOKEN).unwrap_or(o.tok);
            let prv = t.getb(CKA_PRIVATE).unwrap_or(o.prv);
            let reach = m.sl[sl].reach(&o);
            let copyable = sb(&o.a, CKA_COPYABLE) != Some(false);
            let cert = o.class() == CKO_CERTIFICATE;
            let g = c::copy(s, h, &t);
            if kind == "copy-bad" {
                w::eval(&format!("copy-bad {} -> {}", ckan(t.0.last().unwrap().0), rn(&g)));
                if let Ok(nh) = g {
                    viol!(["P05", "P04"], &format!("copy-bad-accepted:{}", ckan(t.0.last().unwrap().0)), "C_CopyObject of {} accepted {}", o.what(), t.show());
                    let _ = c::destroy(s, nh);
                }
                return;
            }
            let mut must = m.may_create(sl, rw, tok, prv);
            if !reach || !copyable {
                must = Some(false)
            } else if cert && prv {
                must = None
            }
            // the value of a key on the token needs the user
            if must == Some(true) && o.tok && o.is_sec() && l != Some(CKU_USER) {
                must = None
            }
            // making a private object public may be refused
            if must == Some(true) && o.prv && !prv {
                must = None
            }
            if must == Some(true) && o.tok && !tok && nssdb(m) {
                must = None
            }
            if g.is_ok() && !reach {
                viol!(["P03"], "copy-unreachable", "C_CopyObject of {} worked with {:?} logged in", o.what(), l);
            }
            if g.is_ok() && !copyable {
                viol!(["P05"], "copy-uncopyable", "C_CopyObject of an object with CKA_COPYABLE false worked");
            }
            if g.is_ok() && o.prv && !prv && o.is_sec() {
                w::count("private_made_public_by_copy", 1);
            }
            let before = m.sl[sl].objs.len();
            m.made("copy", sl, s, rw, g, &t, Some(prv), tok, must, o.val.clone(), o.origin.clone(), Some(&o));
            if m.sl[sl].objs.len() > before {
                let c2 = m.sl[sl].objs.last().unwrap().clone();
                let mut want = o.a.clone();
                for (k, v) in &t.0 {
                    want.insert(*k, v.clone());
                }
                let mut have = c2.a.clone();
                if have.get(&CKA_UNIQUE_ID) == want.get(&CKA_UNIQUE_ID) && have.contains_key(&CKA_UNIQUE_ID) {
                    viol!(["P08", "P05"], "copy-same-uid", "a copy has the unique id of its source");
                }
                for k in [CKA_UNIQUE_ID, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE] {
                    want.remove(&k);
                    have.remove(&k);
                }
                if nssdb(m) && (o.tok || tok) {
                    // attributes the NSS format does not store come back as defaults
                    want.retain(|k, _| have.contains_key(k) || SECRET.contains(k));
                    have.retain(|k, _| want.contains_key(k));
                }
                if want != have {
                    viol!(["P08", "P05"], &format!("copy-content:{}", difftypes(&want, &have)), "copy of {} with {} differs: {}", o.what(), t.show(), diff(&want, &have).join("; "));
                }
            }
        }
        // ---- set ----
        34..=47 if nobj > 0 => {
            let i = r.us(nobj);
            let o = m.sl[sl].objs[i].clone();
            let h = match o.h {
                Some(h) => h,
                None => return,
            };
            let mut t = T::new();
            let key = matches!(o.class(), CKO_SECRET_KEY | CKO_PRIVATE_KEY | CKO_PUBLIC_KEY);
            for _ in 0..r.range(1, 3) {
                match r.below(8) {
                    0..=2 => t.put(CKA_LABEL, r.pick(&LABELS).as_bytes()),
                    3 if key => t.put(CKA_DERIVE, &[r.bool() as u8]),
                    4 if key && !nssdb(m) => {
                        let id = m.newid();
                        t.put(CKA_ID, &id)
                    }
                    5 if o.class() == CKO_DATA => {
                        let n = r.range(1, 60);
                        let v = r.bytes(n);
                        t.put(CKA_APPLICATION, w::hex(&v).as_bytes())
                    }
                    6 if o.is_sec() && r.chance(1, 2) => t.put(CKA_SENSITIVE, &[1]),
                    7 if o.is_sec() && r.chance(1, 2) => t.put(CKA_EXTRACTABLE, &[0]),
                    _ => t.put(CKA_LABEL, format!("label-{}", m.step).as_bytes()),
                }
            }
            if r.chance(1, 12) {
                t.put(CKA_COPYABLE, &[0]);
            }
            if r.chance(1, 12) && o.is_sec() {
                t.put(CKA_WRAP_WITH_TRUSTED, &[1]);
            }
            let mut bad: Option<CK_ULONG> = None;
            if r.chance(1, 3) {
                let x: (CK_ULONG, Vec<u8>) = match r.below(16) {
                    0 => (CKA_CLASS, CKO_DATA.to_ne_bytes().to_vec()),
                    1 => (CKA_TOKEN, vec![!o.tok as u8]),
                    2 => (CKA_PRIVATE, vec![!o.prv as u8]),
                    3 => (CKA_MODIFIABLE, vec![0]),
                    4 => (CKA_LOCAL, vec![1]),
                    5 => (CKA_ALWAYS_SENSITIVE, vec![1]),
                    6 => (CKA_NEVER_EXTRACTABLE, vec![1]),
                    7 => (CKA_KEY_GEN_MECHANISM, CKM_AES_KEY_GEN.to_ne_bytes().to_vec()),
                    8 => (CKA_UNIQUE_ID, b"mine".to_vec()),
                    9 if o.is_sec() => (CKA_SENSITIVE, vec![0]),
                    10 if o.is_sec() => (CKA_EXTRACTABLE, vec![1]),
                    11 if o.is_sec() => (*r.pick(SECRET), vec![5; 16]),
                    12 if key => (CKA_KEY_TYPE, CKK_GENERIC_SECRET.to_ne_bytes().to_vec()),
                    13 if o.is_sec() => (CKA_WRAP_WITH_TRUSTED, vec![0]),
                    14 => (CKA_COPYABLE, vec![1]),
                    15 if key => (*r.pick(&[CKA_MODULUS, CKA_EC_PARAMS, CKA_EC_POINT, CKA_PUBLIC_EXPONENT]), vec![5; 16]),
                    _ => (0x7fff_4321, vec![0]),
                };
                // lowering something that is already low, or raising what is already high, changes nothing
                if o.a.get(&x.0) != Some(&x.1) {
                    bad = Some(x.0);
                    t = t.del(x.0);
                    let at = r.us(t.0.len() + 1);
                    t.0.insert(at, x);
                }
            }
            let reach = m.sl[sl].reach(&o);
            let modif = sb(&o.a, CKA_MODIFIABLE) != Some(false);
            let g = c::set(s, h, &t);
            let must = if !reach || !modif || bad.is_some() || (o.tok && !rw) {
                Some(false)
            } else if o.tok && l != Some(CKU_USER) {
                // whether others than the user may write public token objects is the token's choice
                None
            } else {
                Some(true)
            };
            w::eval(&format!("set bad={:?} tok={} reach={} mod={} rw={} logged={:?} -> {}", bad.map(ckan), o.tok, reach, modif, rw, l, rn(&g)));
            match (&g, must) {
                (Ok(()), Some(false)) => {
                    let mut tg = vec![];
                    if !reach {
                        tg.push("P03")
                    }
                    if o.tok && !rw {
                        tg.push("P06")
                    }
                    if !modif || bad.is_some() {
                        tg.push("P05")
                    }
                    viol!(tg, &format!("set-allowed:bad={:?}:reach={}:mod={}:ro={}", bad.map(ckan), reach, modif, o.tok && !rw), "C_SetAttributeValue {} on {} worked (rw={}, logged in {:?}, modifiable={})", t.show(), o.what(), rw, l, modif);
                }
                (Err(e), Some(true)) => {
                    if !(nssdb(m) && o.tok) {
                        viol!(["P08", "P05"], &format!("set-refused:{}", rvn(*e)), "legal C_SetAttributeValue {} on {} refused: {}", t.show(), o.what(), rvn(*e));
                    }
                }
                _ => {}
            }
            // bring the model up to date / verify nothing changed
            if reach {
                let a = match snap(s, h) {
                    Ok(a) => a,
                    Err(e) => {
                        viol!(["P08"], "set-lost", "{} unreadable after C_SetAttributeValue: {}", o.what(), rvn(e));
                        return;
                    }
                };
                let mut want = o.a.clone();
                if g.is_ok() {
                    for (k, v) in &t.0 {
                        want.insert(*k, v.clone());
                    }
                    let mut oo = o.clone();
                    oo.a = want.clone();
                    if oo.hidden_secret() {
                        for k in SECRET {
                            want.remove(k);
                        }
                    }
                }
                let noval = o.is_sec() && o.tok && l != Some(CKU_USER);
                if !same(&want, &a, noval) {
                    let tg: &[&str] = if g.is_ok() { &["P08"] } else { &["P05", "P11", "P08"] };
                    viol!(tg, &format!("set-content:{}:{}", if g.is_ok() { "ok" } else { "refused" }, difftypes(&want, &a)), "C_SetAttributeValue {} on {} returned {}: {}", t.show(), o.what(), rn(&g), diff(&want, &a).join("; "));
                }
                if let Some(x) = m.sl[sl].objs.iter_mut().find(|x| x.h == Some(h)) {
                    x.a = if noval { want } else { a };
                }
                let oc = m.sl[sl].objs.iter().find(|x| x.h == Some(h)).unwrap().clone();
                m.check_prov(&oc, "set");
            }
        }
        // ---- get / size ----
        48..=55 if nobj > 0 => {
            let o = m.sl[sl].objs[r.us(nobj)].clone();
            let h = match o.h {
                Some(h) => h,
                None => return,
            };
            if !m.sl[sl].reach(&o) || (o.is_sec() && o.tok && l != Some(CKU_USER)) {
                return;
            }
            // random subset in random order, with and without enough room
            let k = r.range(1, 6);
            let l: Vec<CK_ULONG> = (0..k).map(|_| *r.pick(ALL)).collect();
            let (rv, v) = c::attrs(s, h, &l);
            w::eval(&format!("get n={} -> {}", k, rvn(rv)));
            if !matches!(rv, CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID) {
                viol!(["P08"], &format!("get-failed:{}{}", if nssdb(m) { "nss:" } else { "" }, rvn(rv)), "C_GetAttributeValue({}) of {} -> {}", l.iter().map(|a| ckan(*a)).collect::<Vec<_>>().join(" "), o.what(), rvn(rv));
                return;
            }
            for (a, x) in l.iter().zip(&v) {
                if x.as_ref() != o.a.get(a) {
                    viol!(["P08"], &format!("get-differs:{}", ckan(*a)), "C_GetAttributeValue({}) of {} gives {:?}, expected {:?}", ckan(*a), o.what(), x.as_ref().map(|x| w::hx(x)), o.a.get(a).map(|x| w::hx(x)));
                }
            }
            let miss = l.iter().any(|a| !o.a.contains_key(a));
            if (rv == CKR_OK) == miss {
                viol!(["P08"], &format!("get-rv:{}", rvn(rv)), "C_GetAttributeValue of {:?} from {} returned {}", l.iter().map(|a| ckan(*a)).collect::<Vec<_>>(), o.what(), rvn(rv));
            }
            let (_, ln) = c::attr_lens(s, h, &l);
            for (a, n) in l.iter().zip(ln) {
                let want = o.a.get(a).map(|v| v.len() as CK_ULONG).unwrap_or(CK_UNAVAILABLE_INFORMATION);
                if n != want {
                    viol!(["P08", "P21"], &format!("get-len:{}", ckan(*a)), "length of {} of {} is {}, expected {}", ckan(*a), o.what(), n, want);
                }
            }
            if let Err(e) = c::size(s, h) {
                viol!(["P08"], &format!("size:{}", rvn(e)), "C_GetObjectSize of {} failed: {}", o.what(), rvn(e));
            }
        }
        // ---- find ----
        56..=66 => m.search(sl, s, r),
        // ---- destroy ----
        67..=72 if nobj > 4 => {
            let i = r.us(nobj);
            let o = m.sl[sl].objs[i].clone();
            let h = match o.h {
                Some(h) => h,
                None => return,
            };
            let reach = m.sl[sl].reach(&o);
            let destr = sb(&o.a, CKA_DESTROYABLE) != Some(false);
            let g = c::destroy(s, h);
            let must = if !reach || !destr || (o.tok && !rw) {
                Some(false)
            } else if o.tok && l != Some(CKU_USER) {
                None
            } else {
                Some(true)
            };
            w::eval(&format!("destroy tok={} prv={} reach={} destr={} rw={} logged={:?} -> {}", o.tok, o.prv, reach, destr, rw, l, rn(&g)));
            match (&g, must) {
                (Ok(()), Some(false)) => {
                    let mut tg = vec![];
                    if !reach {
                        tg.push("P03")
                    }
                    if o.tok && !rw {
                        tg.push("P06")
                    }
                    if !destr {
                        tg.push("P05")
                    }
                    viol!(tg, &format!("destroy-allowed:reach={}:destr={}:ro={}", reach, destr, o.tok && !rw), "C_DestroyObject of {} worked (rw={}, logged in {:?}, destroyable={})", o.what(), rw, l, destr);
                }
                (Err(e), Some(true)) => viol!(["P08"], &format!("destroy-refused:{}", rvn(*e)), "legal C_DestroyObject of {} refused: {}", o.what(), rvn(*e)),
                _ => {}
            }
            if g.is_ok() {
                m.kill_obj(sl, i, "destroyed:");
            }
        }
        // ---- hostile handles ----
        73..=79 => {
            let mut cand: Vec<(H, String, Vec<&str>)> = vec![];
            for d in m.sl[sl].dead.iter().rev().take(30) {
                cand.push((d.0, d.1.clone(), if d.1.starts_with("logout") { vec!["P03", "P08"] } else if d.1.starts_with("closed") { vec!["P06", "P08"] } else { vec!["P08"] }));
            }
            for o in &m.sl[sl].objs {
                if !m.sl[sl].reach(o) {
                    if let Some(h) = o.h {
                        cand.push((h, format!("private: {}", o.what()), vec!["P03"]));
                        cand.push((h, format!("private: {}", o.what()), vec!["P03"]));
                    }
                }
            }
            for o in &m.sl[1 - sl].objs {
                if let Some(h) = o.h {
                    cand.push((h, format!("other-slot: {}", o.what()), vec!["P26"]));
                }
            }
            for h in [0, CK_ULONG::MAX, 1 << 40, 0xffff_ffff] {
                cand.push((h, "never-issued:".into(), vec!["P08"]));
            }
            let (h, why, tags) = r.pick(&cand).clone();
            let live = m.sl[sl].objs.iter().any(|o| o.h == Some(h) && m.sl[sl].reach(o)) || m.sl[sl].builtin.contains(&h);
            if live || m.sl[sl].objs.iter().any(|o| o.h.is_none()) {
                return;
            }
            m.denied(sl, s, h, &tags, &why, r);
        }
        // ---- sessions and login ----
        80..=82 => {
            if m.sl[sl].sess.len() < 5 {
                let rw = r.bool();
                if let Ok(h) = c::open(slot, rw) {
                    m.sl[sl].sess.push((h, rw));
                } else if l != Some(CKU_SO) {
                    viol!(["P01"], "open-failed", "C_OpenSession failed");
                }
            }
        }
        83..=85 => {
            c::close(s).must("C_CloseSession");
            m.sl[sl].sess.retain(|x| x.0 != s);
            m.kill_where(sl, "closed:", |o| !o.tok && o.owner == s);
            if m.sl[sl].sess.is_empty() {
                m.logged_out(sl);
            }
        }
        86 => {
            c::close_all(slot).must("C_CloseAllSessions");
            m.sl[sl].sess.clear();
            m.kill_where(sl, "closed:", |o| !o.tok);
            m.logged_out(sl);
        }
        87..=93 => {
            let so = r.chance(1, 4);
            let g = c::login(s, if so { CKU_SO } else { CKU_USER }, if so { SO } else { USER });
            if g.is_ok() {
                m.sl[sl].logged = Some(if so { CKU_SO } else { CKU_USER });
                if r.chance(1, 3) {
                    m.full(sl, r, "login:");
                }
            } else if l.is_none() && !so {
                viol!(["P01", "P02"], &format!("login-failed:{}", rn(&g)), "user login failed: {}", rn(&g));
            }
        }
        94..=96 => {
            if l.is_some() {
                c::logout(s).must("C_Logout");
                m.logged_out(sl);
                if r.chance(1, 3) {
                    m.full(sl, r, "logout:");
                }
            }
        }
        _ => {
            if r.chance(1, 3) {
                return;
            }
            // restart, possibly from a copy of the files taken without C_Finalize
            let copyrun = r.bool();
            let dir = std::path::PathBuf::from(&m.dir);
            let cp = std::path::PathBuf::from(format!("{}-cp", m.dir));
            if copyrun {
                let _ = std::fs::remove_dir_all(&cp);
                cpdir(&dir, &cp);
            }
            c::finalize().must("C_Finalize");
            if copyrun {
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::rename(&cp, &dir).unwrap();
            }
            c::initialize(Some(&m.conf)).must("C_Initialize");
            note!("restart copy={}", copyrun);
            w::count("restarts", 1);
            for i in 0..m.sl.len() {
                let st = &mut m.sl[i];
                st.sess.clear();
                st.logged = None;
                st.objs.retain(|o| o.tok);
                for o in st.objs.iter_mut() {
                    o.h = None
                }
                st.dead.clear();
                st.builtin.clear();
                let _ = &m.cps;
                let ro = r.bool();
                let s = c::open(i as CK_SLOT_ID, !ro).must("C_OpenSession");
                m.sl[i].sess.push((s, !ro));
                m.full(i, r, "restart-public:");
                if r.chance(3, 4) {
                    c::login(s, CKU_USER, USER).must("C_Login");
                    m.sl[i].logged = Some(CKU_USER);
                    m.full(i, r, "restart-user:");
                }
                if let Ok(ti) = c::token_info(i as CK_SLOT_ID) {
                    let lab = String::from_utf8_lossy(&ti.label).trim_end().to_string();
                    if lab != "kv-token" && !nssdb(m) {
                        viol!(["P09"], "label", "token label after restart is '{}'", lab);
                    }
                    if ti.flags & CKF_TOKEN_INITIALIZED == 0 || ti.flags & CKF_USER_PIN_INITIALIZED == 0 {
                        viol!(["P09"], "token-flags", "token flags after restart {:#x}", ti.flags);
                    }
                }
            }
        }
    }
}
fn nssdb(m: &Model) -> bool {
    m.nss
}
