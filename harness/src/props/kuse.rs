//! Keys are used only as their attributes allow (P07).
use crate::c::{self, *};
use crate::ops::{self, Case, Keys, Kind};
use crate::p11::*;
use crate::refc;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P07" => {
            let mut v = times(10 * k, |_| job("kuse.matrix", 100_000, 20_000));
            v.extend(times(6 * k, |_| job("kuse.auth", 100_000, 20_000)));
            v.extend(times(2 * k, |_| job("kuse.authnss", 100_000, 20_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "kuse.matrix" => matrix(arg, r),
        "kuse.auth" => auth(arg, r, false),
        "kuse.authnss" => auth(arg, r, true),
        _ => panic!("{}", job),
    }
}

const U: [CK_ULONG; 7] = [CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE];
fn usages(class: CK_ULONG) -> &'static [CK_ULONG] {
    match class {
        CKO_SECRET_KEY => &U,
        CKO_PUBLIC_KEY => &[CKA_ENCRYPT, CKA_VERIFY, CKA_WRAP],
        CKO_PRIVATE_KEY => &[CKA_DECRYPT, CKA_SIGN, CKA_UNWRAP, CKA_DERIVE],
        _ => &[],
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Enc,
    Dec,
    Sign,
    Ver,
    VerSig,
    MsgEnc,
    MsgDec,
    Wrap,
    Unwrap,
    Derive,
}
impl Op {
    fn attr(self) -> CK_ULONG {
        match self {
            Op::Enc | Op::MsgEnc => CKA_ENCRYPT,
            Op::Dec | Op::MsgDec => CKA_DECRYPT,
            Op::Sign => CKA_SIGN,
            Op::Ver | Op::VerSig => CKA_VERIFY,
            Op::Wrap => CKA_WRAP,
            Op::Unwrap => CKA_UNWRAP,
            Op::Derive => CKA_DERIVE,
        }
    }
}
struct Use {
    op: Op,
    m: M,
    key: T,
    /// (class, key types) the mechanism takes for this operation
    class: CK_ULONG,
    kts: Vec<CK_ULONG>,
    input: Vec<u8>,
    sig: Vec<u8>,
    case: Option<Case>,
    /// template for unwrap/derive
    t: T,
    name: String,
}

const X25519: &[u8] = &[0x06, 0x03, 0x2b, 0x65, 0x6e];

fn derive_use(r: &mut Rng) -> Use {
    let n = r.range(16, 48);
    let kb = r.bytes(n);
    let gt = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).u(CKA_VALUE_LEN, 16).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let any_secret = vec![CKK_GENERIC_SECRET];
    let mk = |m: M, key: T, class: CK_ULONG, kts: Vec<CK_ULONG>, name: &str| Use { op: Op::Derive, m, key, class, kts, input: vec![], sig: vec![], case: None, t: gt.clone(), name: name.into() };
    match r.below(10) {
        0 | 1 => {
            let cv = *r.pick(&refc::CURVES);
            let d = ops::ec_scalar(cv, r);
            let p = refc::ec_mul(cv, &ops::ec_scalar(cv, r), None).unwrap();
            let mut a: CK_ECDH1_DERIVE_PARAMS = Default::default();
            let pa = arc(&p);
            a.kdf = CKD_NULL;
            a.ulPublicDataLen = p.len() as CK_ULONG;
            a.pPublicData = aptr(&pa);
            let ty = if r.bool() { CKM_ECDH1_DERIVE } else { CKM_ECDH1_COFACTOR_DERIVE };
            mk(M::st(ty, &a, vec![pa], "null kdf"), ops::ec_priv_t(cv, &d), CKO_PRIVATE_KEY, vec![CKK_EC, CKK_EC_MONTGOMERY], "ecdh")
        }
        2 => mk(M::new(*r.pick(&[CKM_SHA256_KEY_DERIVATION, CKM_SHA512_KEY_DERIVATION, CKM_SHA3_256_KEY_DERIVATION, CKM_SHA1_KEY_DERIVATION])), ops::gen_key(&kb), CKO_SECRET_KEY, any_secret, "hash-kdf"),
        3 => {
            let a = CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: CKF_HKDF_SALT_NULL, pSalt: std::ptr::null_mut(), ulSaltLen: 0, hSaltKey: 0, pInfo: std::ptr::null_mut(), ulInfoLen: 0 };
            mk(M::st(CKM_HKDF_DERIVE, &a, vec![], "hkdf"), ops::gen_key(&kb), CKO_SECRET_KEY, vec![CKK_GENERIC_SECRET, CKK_HKDF], "hkdf")
        }
        4 | 5 => {
            let db = arc(&r.bytes(16));
            let a = CK_KEY_DERIVATION_STRING_DATA { pData: aptr(&db), ulLen: 16 };
            let ty = *r.pick(&[CKM_CONCATENATE_BASE_AND_DATA, CKM_CONCATENATE_DATA_AND_BASE, CKM_XOR_BASE_AND_DATA]);
            mk(M::st(ty, &a, vec![db], "data"), ops::gen_key(&kb), CKO_SECRET_KEY, any_secret, "concat")
        }
        6 => mk(M::raw(CKM_EXTRACT_KEY_FROM_KEY, &0u64.to_ne_bytes()), ops::gen_key(&kb), CKO_SECRET_KEY, any_secret, "extract"),
        7 | 8 => {
            let db = arc(&r.bytes(16));
            let kv = ops::keybytes(r);
            if r.bool() {
                let a = CK_KEY_DERIVATION_STRING_DATA { pData: aptr(&db), ulLen: 16 };
                mk(M::st(CKM_AES_ECB_ENCRYPT_DATA, &a, vec![db], "data"), ops::aes_key(&kv), CKO_SECRET_KEY, vec![CKK_AES], "aes-ecb-data")
            } else {
                let a = CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: [3; 16], pData: aptr(&db), length: 16 };
                mk(M::st(CKM_AES_CBC_ENCRYPT_DATA, &a, vec![db], "data"), ops::aes_key(&kv), CKO_SECRET_KEY, vec![CKK_AES], "aes-cbc-data")
            }
        }
        _ => {
            // (EC keys imported without a public point are refused with OpenSSL 3.0: documented)
            let mut x = mk(M::new(CKM_PUB_KEY_FROM_PRIV_KEY), ops::rsa_priv(ops::rsa_index(r)), CKO_PRIVATE_KEY, vec![CKK_EC, CKK_RSA, CKK_EC_MONTGOMERY], "pub-from-priv");
            x.t = T::new();
            x.key = x.key.setb(CKA_EXTRACTABLE, true);
            x
        }
    }
}
fn wrap_use(r: &mut Rng, unwrap: bool) -> Use {
    let target = r.bytes(16);
    let gt = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let op = if unwrap { Op::Unwrap } else { Op::Wrap };
    let aes = |m: M, ct: Vec<u8>, k: Vec<u8>, t: T, n: &str| Use { op, m, key: ops::aes_key(&k), class: CKO_SECRET_KEY, kts: vec![CKK_AES, CKK_GENERIC_SECRET], input: if unwrap { ct } else { target.clone() }, sig: vec![], case: None, t, name: n.into() };
    let k = ops::keybytes(r);
    let iv = r.bytes(16);
    match r.below(7) {
        0 => aes(M::new(CKM_AES_KEY_WRAP), refc::kw(&k, &target, &[0xa6; 8]), k, gt, "aes-kw"),
        1 => aes(M::new(CKM_AES_KEY_WRAP_KWP), refc::kwp(&k, &target, &[0xa6, 0x59, 0x59, 0xa6]), k, gt, "aes-kwp"),
        2 => aes(M::raw(CKM_AES_CBC_PAD, &iv), refc::cbc_enc(&k, &iv, &refc::pad7(&target)), k, gt, "aes-cbc-pad"),
        3 => aes(M::raw(CKM_AES_CBC, &iv), refc::cbc_enc(&k, &iv, &target), k, gt.u(CKA_VALUE_LEN, 16), "aes-cbc"),
        4 => aes(M::new(CKM_AES_ECB), refc::aes_ecb(&k, &target, true), k, gt.u(CKA_VALUE_LEN, 16), "aes-ecb"),
        n => {
            let i = ops::rsa_index(r);
            let key = ops::rsa_ref(i);
            let kk = key.k();
            let (m, em, nm) = if n == 5 {
                let mut em = vec![0, 2];
                em.extend((0..kk - 3 - target.len()).map(|_| (r.below(255) + 1) as u8));
                em.push(0);
                em.extend(&target);
                (M::new(CKM_RSA_PKCS), em, "rsa-pkcs")
            } else {
                let seed = r.bytes(32);
                (ops::oaep_m(CKM_SHA256, CKG_MGF1_SHA256, b""), refc::oaep(kk, refc::SHA256, refc::SHA256, b"", &target, &seed), "rsa-oaep")
            };
            let ct = if unwrap { key.pubop(&em) } else { target.clone() };
            Use { op, m, key: if unwrap { ops::rsa_priv(i) } else { ops::rsa_pub(i) }, class: if unwrap { CKO_PRIVATE_KEY } else { CKO_PUBLIC_KEY }, kts: vec![CKK_RSA], input: ct, sig: vec![], case: None, t: gt.u(CKA_VALUE_LEN, 16), name: nm.into() }
        }
    }
}
fn case_use(cs: Case, r: &mut Rng) -> Option<Use> {
    let key = cs.key.clone()?;
    let op = match cs.kind {
        Kind::Enc => Op::Enc,
        Kind::Dec => Op::Dec,
        Kind::Sign => Op::Sign,
        Kind::Ver => {
            if cs.fam != "tls-mac" && r.chance(1, 3) {
                Op::VerSig
            } else {
                Op::Ver
            }
        }
        Kind::Dig => return None,
    };
    let class = key.getu(CKA_CLASS).unwrap();
    let kt = key.getu(CKA_KEY_TYPE).unwrap();
    let mut kts = vec![kt];
    if cs.fam == "tls-mac" {
        kts.extend(ops::HMACS.iter().map(|x| x.3));
    }
    if cs.fam.starts_with("hmac") {
        kts = vec![CKK_GENERIC_SECRET];
        for (a, b, _, t) in ops::HMACS {
            if cs.m.ck().mechanism == a || cs.m.ck().mechanism == b {
                kts.push(t);
            }
        }
    }
    let (op, m) = if (cs.fam == "gcm" || cs.fam == "ccm") && r.chance(1, 3) && matches!(op, Op::Enc | Op::Dec) {
        // the message interface takes the parameters with each message
        (if op == Op::Enc { Op::MsgEnc } else { Op::MsgDec }, M::new(cs.m.ck().mechanism))
    } else {
        (op, cs.m.clone())
    };
    Some(Use { op, m, key, class, kts, input: cs.input.clone(), sig: cs.sig.clone(), name: cs.fam.into(), case: Some(cs), t: T::new() })
}
fn any_use(r: &mut Rng) -> Use {
    loop {
        match r.below(10) {
            0 => return derive_use(r),
            1 => {
                let u = r.bool();
                return wrap_use(r, u);
            }
            _ => {
                let cs = ops::any_case(r);
                // RSA without padding of short data and the like are other checks' business
                if let Some(u) = case_use(cs, r) {
                    return u;
                }
            }
        }
    }
}
/// a key the mechanism does not take
fn wrong_key(u: &Use, r: &mut Rng) -> T {
    loop {
        let n = r.below(10);
        let t = match n {
            0 => ops::aes_key(&ops::keybytes(r)),
            1 => ops::gen_key(&r.bytes(32)),
            2 => {
                let h = r.pick(&ops::HMACS).clone();
                ops::gen_key(&r.bytes(h.2.len)).setu(CKA_KEY_TYPE, h.3)
            }
            3 => ops::rsa_priv(ops::rsa_index(r)),
            4 => ops::rsa_pub(ops::rsa_index(r)),
            5 => {
                let cv = *r.pick(&refc::CURVES);
                ops::ec_priv_t(cv, &ops::ec_scalar(cv, r))
            }
            6 => {
                let cv = *r.pick(&refc::CURVES);
                ops::ec_pub_t(cv, &refc::ec_mul(cv, &ops::ec_scalar(cv, r), None).unwrap())
            }
            7 => T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_EC_MONTGOMERY).v(CKA_EC_PARAMS, X25519).v(CKA_VALUE, &r.bytes(32)),
            8 => data_t(&r.bytes(32)),
            _ => T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_HKDF).v(CKA_VALUE, &r.bytes(32)),
        };
        let cl = t.getu(CKA_CLASS).unwrap();
        let kt = t.getu(CKA_KEY_TYPE).unwrap_or(CK_ULONG::MAX);
        if cl == u.class && u.kts.contains(&kt) {
            continue;
        }
        // derivations that take any secret key: only another class is wrong
        if u.op == Op::Derive && cl == u.class && cl == CKO_SECRET_KEY && u.kts[0] == CKK_GENERIC_SECRET {
            continue;
        }
        return t;
    }
}
fn is_active(s: H, op: Op) -> bool {
    let rv = match op {
        Op::Enc => rvof(&c::encrypt_update(s, &[0; 16])),
        Op::Dec => rvof(&c::decrypt_update(s, &[0; 16])),
        Op::Sign => rvof(&c::sign_update(s, &[0; 16])),
        Op::Ver => rvof(&c::verify_update(s, &[0; 16])),
        Op::VerSig => rvof(&c::verify_signature_update(s, &[0; 16])),
        Op::MsgEnc => rvof(&c::msg_encrypt_final(s)),
        Op::MsgDec => rvof(&c::msg_decrypt_final(s)),
        _ => return false,
    };
    rv != CKR_OPERATION_NOT_INITIALIZED
}
fn set_usages(t: T, on: &dyn Fn(CK_ULONG) -> bool) -> T {
    let class = t.getu(CKA_CLASS).unwrap();
    let mut t = t;
    for a in U {
        if t.has(a) && !usages(class).contains(&a) {
            t = t.del(a);
        }
    }
    for a in usages(class) {
        t = t.setb(*a, on(*a));
    }
    t
}

fn matrix(n: u64, r: &mut Rng) {
    let t = fresh("t");
    let mut s = t.rw_user();
    let mut made = 0;
    for _ in 0..n {
        if !w::time_left() {
            break;
        }
        made += 1;
        if made % 60 == 0 {
            c::close(s).must("close");
            s = t.rw_user();
        }
        let u = any_use(r);
        // how the key is to be restricted
        let wrong = r.chance(1, 5);
        let base = if wrong { wrong_key(&u, r) } else { u.key.clone() };
        let attr = u.op.attr();
        let mask = r.next();
        let this_on = r.chance(3, 5);
        let on = |a: CK_ULONG| {
            if a == attr {
                this_on
            } else {
                mask >> (a & 63) & 1 == 1
            }
        };
        let iskey = base.getu(CKA_CLASS) != Some(CKO_DATA);
        let mut kt = if iskey { set_usages(base, &on) } else { base };
        // only the needed usage, or everything but it
        match r.below(6) {
            0 if iskey => kt = set_usages(kt, &|a| (a == attr) == this_on),
            1 if iskey => kt = set_usages(kt, &|a| a == attr && this_on),
            _ => {}
        }
        let mty = u.m.ck().mechanism;
        let mut list: Option<Vec<CK_ULONG>> = None;
        if iskey && r.chance(1, 3) {
            let mut l: Vec<CK_ULONG> = (0..r.range(1, 5)).map(|_| *r.pick(&[CKM_AES_ECB, CKM_AES_CBC, CKM_AES_GCM, CKM_SHA256_HMAC, CKM_RSA_PKCS, CKM_ECDSA, CKM_SHA256_RSA_PKCS, CKM_ECDSA_SHA256, CKM_AES_CMAC, mty ^ 1, mty + 0x100, mty | 0x8000_0000, CKM_AES_KEY_WRAP])).filter(|x| *x != mty).collect();
            if l.is_empty() {
                l.push(mty ^ 1);
            }
            if r.bool() {
                let at = r.us(l.len() + 1);
                l.insert(at, mty);
            }
            list = Some(l);
        }
        if iskey {
            if let Some(l) = &list {
                kt = kt.mechs(l);
            }
        }
        let token = r.chance(1, 6);
        kt = kt.b(CKA_TOKEN, token);
        // the attributes may also come about later: by C_SetAttributeValue, C_CopyObject
        let late = if iskey { r.below(4) } else { 0 };
        let h = match late {
            1 | 2 => {
                let mut t0 = set_usages(kt.clone(), &|a| {
                    let cur = kt.getb(a).unwrap_or(false);
                    if a == attr {
                        !cur
                    } else {
                        cur
                    }
                });
                if r.bool() {
                    t0 = set_usages(t0, &|_| true);
                }
                let mut d = T::new();
                for a in U {
                    if kt.has(a) {
                        d = d.b(a, kt.getb(a).unwrap());
                    }
                }
                match c::create(s, &t0) {
                    Ok(h) if late == 1 => c::set(s, h, &d).map(|_| h),
                    Ok(h) => c::copy(s, h, &d),
                    e => e,
                }
            }
            _ => c::create(s, &kt),
        };
        let h = match h {
            Ok(h) => h,
            Err(e) => {
                w::count(&format!("create_refused {} late{}", rvn(e), late), 1);
                continue;
            }
        };
        let listed = list.as_ref().map(|l| l.contains(&mty)).unwrap_or(true);
        // deriving the public part is always possible by design
        let usage_ok = kt.getb(attr).unwrap_or(false) || mty == CKM_PUB_KEY_FROM_PRIV_KEY;
        let ok = !wrong && usage_ok && listed;
        // operate
        let mut newh = None;
        let rv = match u.op {
            Op::Enc => rvof(&c::encrypt_init(s, &u.m, h)),
            Op::Dec => rvof(&c::decrypt_init(s, &u.m, h)),
            Op::Sign => rvof(&c::sign_init(s, &u.m, h)),
            Op::Ver => rvof(&c::verify_init(s, &u.m, h)),
            Op::VerSig => rvof(&c::verify_signature_init(s, &u.m, h, &u.sig)),
            Op::MsgEnc => rvof(&c::msg_encrypt_init(s, &u.m, h)),
            Op::MsgDec => rvof(&c::msg_decrypt_init(s, &u.m, h)),
            Op::Wrap => {
                let tk = c::create(s, &ops::gen_key(&u.input).b(CKA_EXTRACTABLE, true)).must("target key");
                let g = c::wrap(s, &u.m, h, tk);
                let _ = c::destroy(s, tk);
                rvof(&g)
            }
            Op::Unwrap => {
                let g = c::unwrap(s, &u.m, h, &u.input, &u.t);
                newh = g.ok();
                rvof(&g)
            }
            Op::Derive => {
                let g = c::derive(s, &u.m, h, &u.t);
                newh = g.ok();
                rvof(&g)
            }
        };
        let what = format!("{:?} {} {}", u.op, ckmn(mty), if wrong { format!("wrong-key class{} type{:?}", kt.getu(CKA_CLASS).unwrap(), kt.getu(CKA_KEY_TYPE).map(|x| x as i64)) } else { String::new() });
        w::eval(&format!("{} usage={} list={} late={} tok={} -> {}", what, usage_ok, list.is_some() as u8 + listed as u8, late, token, rvn(rv)));
        w::count(if ok { "permitted" } else { "refused" }, 1);
        if !ok && rv == CKR_OK {
            let why = if wrong {
                "key of the wrong class or type"
            } else if !usage_ok {
                "usage attribute false"
            } else {
                "mechanism not in CKA_ALLOWED_MECHANISMS"
            };
            viol!(["P07"], &format!("used:{:?}:{}:{}", u.op, ckmn(mty), if wrong { "type" } else if !usage_ok { "usage" } else { "list" }), "{}: {} accepted, key {} (late {})", what, why, kt.show(), late);
        }
        if ok && rv != CKR_OK {
            viol!(["P07"], &format!("refused:{:?}:{}:{}", u.op, ckmn(mty), rvn(rv)), "{} refused with {} although the key allows it: {} (late {})", what, rvn(rv), kt.show(), late);
        }
        if !ok && rv != CKR_OK && is_active(s, u.op) {
            viol!(["P07", "P22"], &format!("started:{:?}:{}", u.op, ckmn(mty)), "{}: refused with {} but an operation is active", what, rvn(rv));
        }
        // an allowed operation gives the right result
        if ok && rv == CKR_OK {
            if let (Some(cs), true) = (&u.case, matches!(u.op, Op::Enc | Op::Dec | Op::Sign | Op::Ver)) {
                let g = match u.op {
                    Op::Ver => c::verify(s, &cs.input, &cs.sig).map(|_| vec![]),
                    _ => ops::one_o(s, cs, &cs.input, Some(ops::room(cs))).val(),
                };
                if !ops::good(cs, &g) {
                    viol!(["P07"], &format!("result:{}", u.name), "{}: wrong result {}", what, ops::showr(&g));
                }
            } else if u.op == Op::VerSig {
                let g = rvof(&c::verify_signature(s, &u.input));
                if g != CKR_OK {
                    viol!(["P07", "P17"], &format!("versig:{}", u.name), "{}: C_VerifySignature {}", what, rvn(g));
                }
            }
        }
        cleanup(s, u.op);
        if let Some(x) = newh {
            let _ = c::destroy(s, x);
        }
        let _ = c::destroy(s, h);
    }
    t.end();
}
fn cleanup(s: H, op: Op) {
    match op {
        Op::Enc => ops::reset(s, Kind::Enc),
        Op::Dec => ops::reset(s, Kind::Dec),
        Op::Sign => ops::reset(s, Kind::Sign),
        Op::Ver => ops::reset(s, Kind::Ver),
        Op::VerSig => {
            let _ = c::verify_signature(s, b"x");
        }
        Op::MsgEnc => {
            let _ = c::msg_encrypt_final(s);
        }
        Op::MsgDec => {
            let _ = c::msg_decrypt_final(s);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- CKA_ALWAYS_AUTHENTICATE

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    /// key index, logged in for (None: not needed), any update done
    Act { key: usize, auth: Option<bool>, upd: bool, seq: u64 },
    /// refused for a missing login: the operation may or may not have been terminated
    Unknown,
}
struct K {
    sh: H,
    vh: H,
    always: bool,
    rsa: Option<usize>,
    cv: Option<refc::Curve>,
    pt: Vec<u8>,
}
/// what a call on the op in `st` may return
fn auth(n: u64, r: &mut Rng, nssb: bool) {
    let t = if nssb { fresh_nss("t") } else { fresh("t") };
    let mut s = t.rw_user();
    let mut ks: Vec<K> = vec![];
    let make = |s: H, r: &mut Rng, ks: &mut Vec<K>| {
        ks.clear();
        for i in 0..6 {
            let always = i < 4;
            let token = nssb || r.bool();
            let l = format!("aa{}", i);
            let extra = |t: T| t.b(CKA_ALWAYS_AUTHENTICATE, always).b(CKA_PRIVATE, true).b(CKA_TOKEN, token).s(CKA_LABEL, &l);
            let (sh, vh, rsa, cv, pt);
            if i % 2 == 0 {
                let ix = ops::rsa_index(r);
                sh = c::create(s, &extra(ops::rsa_priv(ix)).v(CKA_ID, &[i as u8 + 1]));
                vh = c::create(s, &ops::rsa_pub(ix).b(CKA_TOKEN, token).v(CKA_ID, &[i as u8 + 1]));
                rsa = Some(ix);
                cv = None;
                pt = vec![];
            } else {
                let c0 = refc::P256;
                let d = ops::ec_scalar(c0, r);
                pt = refc::ec_mul(c0, &d, None).unwrap();
                sh = c::create(s, &extra(ops::ec_priv_t(c0, &d)).v(CKA_ID, &[i as u8 + 1]));
                vh = c::create(s, &ops::ec_pub_t(c0, &pt).b(CKA_TOKEN, token).v(CKA_ID, &[i as u8 + 1]));
                rsa = None;
                cv = Some(c0);
            }
            let mut sh = sh.must("create always-auth key");
            if always && !nssb && r.chance(1, 3) {
                // a copy keeps the requirement
                sh = c::copy(s, sh, &T::new().s(CKA_LABEL, "copy")).must("copy");
            }
            if always && c::attr_b(s, sh, CKA_ALWAYS_AUTHENTICATE) != Ok(true) {
                viol!(["P07"], "attr-lost", "CKA_ALWAYS_AUTHENTICATE of a key created with it is not true");
            }
            ks.push(K { sh, vh: vh.must("create public"), always, rsa, cv, pt });
        }
    };
    make(s, r, &mut ks);
    let aes = c::create(s, &aes_t(&[5; 16]).b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true).b(CKA_SIGN, true)).must("aes");
    let mut aes = aes;
    // operation slots: 0 sign, 1 decrypt
    let mut st = [St::Idle; 2];
    let mut seq = 0u64;
    let mut bad = 0;
    let data = b"always authenticate message";
    for step in 0..n {
        if !w::time_left() {
            break;
        }
        let pend = |st: &[St; 2]| st.iter().filter(|x| matches!(x, St::Act { auth: Some(false), .. })).count();
        let show = |st: &[St; 2]| format!("{:?}", st);
        let o = r.us(2);
        let opn = ["sign", "decrypt"][o];
        match r.below(20) {
            // ---- start
            0..=4 => {
                let always_only = r.chance(4, 5);
                let cand: Vec<usize> = (0..ks.len()).filter(|i| (o == 0 || ks[*i].rsa.is_some()) && (!always_only || ks[*i].always)).collect();
                let k = *r.pick(&cand);
                let key = &ks[k];
                let m = if o == 1 {
                    M::new(CKM_RSA_PKCS)
                } else if key.rsa.is_some() {
                    M::new(CKM_SHA256_RSA_PKCS)
                } else {
                    M::new(CKM_ECDSA_SHA256)
                };
                let rv = if o == 0 { rvof(&c::sign_init(s, &m, key.sh)) } else { rvof(&c::decrypt_init(s, &m, key.sh)) };
                let want = match st[o] {
                    St::Idle => rv == CKR_OK,
                    St::Act { .. } => rv == CKR_OPERATION_ACTIVE,
                    St::Unknown => rv == CKR_OK || rv == CKR_OPERATION_ACTIVE,
                };
                if !want {
                    viol!(["P07", "P22"], &format!("init:{}:{}", opn, rvn(rv)), "{} init in state {}: {}", opn, show(&st), rvn(rv));
                }
                if rv == CKR_OK {
                    seq += 1;
                    st[o] = St::Act { key: k, auth: if key.always { Some(false) } else { None }, upd: false, seq };
                }
                w::eval(&format!("init {} always={} pend{} {}", opn, key.always, pend(&st), rvn(rv)));
            }
            // ---- context specific login
            5..=8 => {
                let p = pend(&st);
                let good = r.chance(4, 5);
                let pin: &[u8] = if good { USER } else { b"wrong-pin-0000" };
                if !good && bad >= 4 {
                    continue;
                }
                let rv = rvof(&c::login(s, CKU_CONTEXT_SPECIFIC, pin));
                w::eval(&format!("ctx-login good={} pend{} unk={} {}", good, p, st.contains(&St::Unknown), rvn(rv)));
                let unk = st.contains(&St::Unknown);
                if p > 0 {
                    if good {
                        bad = 0;
                        if rv != CKR_OK {
                            viol!(["P07"], &format!("ctx-login:{}", rvn(rv)), "context-specific login refused: {} in state {}", rvn(rv), show(&st));
                        } else if unk {
                            // which of the operations it went to is not known
                            for x in st.iter_mut() {
                                *x = St::Unknown;
                            }
                            drop_all(s, &mut st);
                        } else {
                            // the most recently initialised pending operation
                            let last = st.iter_mut().filter_map(|x| match x {
                                St::Act { auth: Some(a), seq, .. } if !*a => Some((*seq, a)),
                                _ => None,
                            });
                            if let Some((_, a)) = last.max_by_key(|x| x.0) {
                                *a = true;
                            }
                        }
                    } else {
                        bad += 1;
                        if rv != CKR_PIN_INCORRECT {
                            viol!(["P07", "P02"], &format!("ctx-login-bad:{}", rvn(rv)), "context-specific login with a wrong PIN: {}", rvn(rv));
                        }
                    }
                } else if !unk && rv == CKR_OK {
                    viol!(["P07"], "ctx-login-none", "context-specific login accepted with nothing waiting for it: {}", show(&st));
                } else if !unk && rv == CKR_PIN_INCORRECT {
                    bad += 1;
                } else if unk {
                    if !good {
                        bad += 1;
                    }
                    drop_all(s, &mut st);
                }
            }
            // ---- use: one-shot, update, final, size query
            9..=14 => {
                let how = r.below(4);
                let (key, auth_, upd) = match st[o] {
                    St::Act { key, auth, upd, .. } => (Some(key), auth, upd),
                    _ => (None, None, false),
                };
                let need = auth_ == Some(false);
                let mut out: R<Vec<u8>> = Ok(vec![]);
                let ct = key.and_then(|k| ks[k].rsa).map(|ix| {
                    let kk = ops::rsa_ref(ix);
                    let mut em = vec![0, 2];
                    em.extend(vec![7; kk.k() - 3 - data.len()]);
                    em.push(0);
                    em.extend(data);
                    kk.pubop(&em)
                });
                let d: Vec<u8> = if o == 0 { data.to_vec() } else { ct.unwrap_or(vec![1; 128]) };
                let rv;
                let done;
                match how {
                    // one shot
                    0 | 3 => {
                        if upd {
                            continue;
                        }
                        if how == 3 {
                            // size query first
                            let q = if o == 0 { c::sign_o(s, &d, None) } else { c::decrypt_o(s, &d, None) };
                            if need && q.rv == CKR_OK {
                                viol!(["P07"], &format!("query-unauth:{}", opn), "{} size query answered before the login", opn);
                            }
                        }
                        out = if o == 0 { c::sign(s, &d) } else { c::decrypt(s, &d) };
                        rv = rvof(&out);
                        done = true;
                    }
                    1 => {
                        if o == 1 {
                            continue;
                        }
                        rv = rvof(&c::sign_update(s, &d));
                        done = false;
                    }
                    _ => {
                        if o == 1 {
                            continue;
                        }
                        out = c::sign_final(s);
                        rv = rvof(&out);
                        done = true;
                    }
                }
                w::eval(&format!("use {} how{} auth={:?} upd={} other={} {}", opn, how, auth_, upd, matches!(st[1 - o], St::Act { .. }), rvn(rv)));
                match st[o] {
                    St::Act { key: k, seq: sq, .. } => {
                        if need {
                            if rv == CKR_OK {
                                viol!(["P07"], &format!("unauth:{}:how{}", opn, how), "{} (kind {}) with an always-authenticate key succeeded without its own context-specific login; state {}", opn, how, show(&st));
                                st[o] = St::Unknown;
                            } else if rv != CKR_USER_NOT_LOGGED_IN {
                                viol!(["P07"], &format!("unauth-rv:{}:{}", opn, rvn(rv)), "{} before the login returned {}", opn, rvn(rv));
                                st[o] = St::Unknown;
                            } else {
                                st[o] = St::Unknown;
                            }
                            if st[o] == St::Unknown {
                                // find out whether it is still pending: a fresh init tells
                                resolve(s, o, k, &ks, &mut st, sq, r);
                            }
                        } else {
                            let early_final = how == 2 && !upd;
                            if rv != CKR_OK && !early_final {
                                viol!(["P07", "P22"], &format!("auth-use:{}:how{}:{}", opn, how, rvn(rv)), "{} (kind {}) allowed but returned {}; state {}", opn, how, rvn(rv), show(&st));
                            }
                            if rv == CKR_OK && done && !early_final {
                                let res = out.clone().unwrap();
                                let key = &ks[k];
                                let ok = if o == 1 {
                                    res == data
                                } else if upd {
                                    true
                                } else if let Some(ix) = key.rsa {
                                    let kk = ops::rsa_ref(ix);
                                    let mut tt = refc::digestinfo(refc::SHA256);
                                    tt.extend(refc::hash(refc::SHA256, &d));
                                    res == kk.privop(&refc::pkcs1_t1(kk.k(), &tt).unwrap())
                                } else {
                                    refc::ecdsa_verify(key.cv.unwrap(), &key.pt, &refc::hash(refc::SHA256, &d), &res)
                                };
                                if !ok {
                                    viol!(["P07"], &format!("auth-result:{}", opn), "{} gave a wrong result", opn);
                                }
                            }
                            if let St::Act { upd, .. } = &mut st[o] {
                                if !done && rv == CKR_OK {
                                    *upd = true;
                                }
                            }
                            if done {
                                st[o] = if early_final { St::Unknown } else { St::Idle };
                                if early_final {
                                    drop_all(s, &mut st);
                                }
                            }
                        }
                    }
                    St::Idle => {
                        if rv != CKR_OPERATION_NOT_INITIALIZED {
                            viol!(["P07", "P22"], &format!("idle:{}:{}", opn, rvn(rv)), "{} without an operation: {}", opn, rvn(rv));
                        }
                    }
                    St::Unknown => {
                        if rv == CKR_OK {
                            viol!(["P07"], &format!("unauth2:{}", opn), "{} succeeded after having been refused", opn);
                        }
                    }
                }
            }
            // ---- cancel
            15 => {
                let rv = if r.bool() { rvof(&c::session_cancel(s, if o == 0 { CKF_SIGN } else { CKF_DECRYPT })) } else { cancel_by_init(s, o) };
                w::eval(&format!("cancel {} {}", opn, rvn(rv)));
                st[o] = St::Idle;
            }
            // ---- other operations in between must not matter
            16 | 17 => {
                let k = &ks[r.us(ks.len())];
                match r.below(6) {
                    0 => {
                        let _ = c::digest_init(s, &M::new(CKM_SHA256));
                        let _ = c::digest(s, b"x");
                    }
                    1 => {
                        let _ = c::encrypt_init(s, &M::raw(CKM_AES_CBC_PAD, &[0; 16]), aes);
                        let _ = c::encrypt(s, b"x");
                    }
                    2 => {
                        let _ = c::find(s, &T::new().u(CKA_CLASS, CKO_PRIVATE_KEY));
                    }
                    3 => {
                        let m = if k.rsa.is_some() { M::new(CKM_SHA256_RSA_PKCS) } else { M::new(CKM_ECDSA_SHA256) };
                        let _ = c::verify_init(s, &m, k.vh);
                        let _ = c::verify(s, b"x", &[0; 64]);
                    }
                    4 => {
                        let g = rvof(&c::login(s, CKU_USER, USER));
                        if g != CKR_USER_ALREADY_LOGGED_IN {
                            viol!(["P01"], "relogin", "second C_Login: {}", rvn(g));
                        }
                    }
                    _ => {
                        // another session doing the same with its own login
                        let s2 = c::open(t.slot, true).must("open");
                        let _ = c::sign_init(s2, &if k.rsa.is_some() { M::new(CKM_SHA256_RSA_PKCS) } else { M::new(CKM_ECDSA_SHA256) }, k.sh);
                        let g = c::login(s2, CKU_CONTEXT_SPECIFIC, USER);
                        let x = c::sign(s2, data);
                        if k.always && (rvof(&g) != CKR_OK || x.is_err()) {
                            viol!(["P07"], "other-session", "always-authenticate in a second session: login {} sign {}", rvn(rvof(&g)), rvn(rvof(&x)));
                        }
                        bad = 0;
                        let _ = c::close(s2);
                    }
                }
                w::eval(&format!("between pend{}", pend(&st)));
            }
            // ---- logout and in again
            18 => {
                if !r.chance(1, 4) {
                    continue;
                }
                c::logout(s).must("logout");
                c::login(s, CKU_USER, USER).must("login");
                bad = 0;
                drop_all(s, &mut st);
                c::close(s).must("close");
                s = t.rw_user();
                for k in &ks {
                    for h in [k.sh, k.vh] {
                        let _ = c::destroy(s, h);
                    }
                }
                st = [St::Idle; 2];
                make(s, r, &mut ks);
                aes = c::create(s, &aes_t(&[5; 16]).b(CKA_ENCRYPT, true)).must("aes");
                w::eval("logout");
            }
            // ---- the attribute of a token key survives a restart
            _ => {
                if step % 5 != 0 || !r.chance(1, 4) {
                    continue;
                }
                t.restart();
                s = t.rw_user();
                st = [St::Idle; 2];
                bad = 0;
                let hs = c::find(s, &T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).b(CKA_ALWAYS_AUTHENTICATE, true)).must("find");
                for h in &hs {
                    let kt = c::attr_u(s, *h, CKA_KEY_TYPE).unwrap_or(0);
                    let m = if kt == CKK_RSA { M::new(CKM_SHA256_RSA_PKCS) } else { M::new(CKM_ECDSA_SHA256) };
                    c::sign_init(s, &m, *h).must("sign init after restart");
                    let g = rvof(&c::sign(s, data));
                    if g != CKR_USER_NOT_LOGGED_IN {
                        viol!(["P07", "P09"], &format!("restart:{}", rvn(g)), "signing with a stored always-authenticate key after a restart: {}", rvn(g));
                    }
                    let _ = c::session_cancel(s, CKF_SIGN);
                    let _ = cancel_by_init(s, 0);
                }
                w::eval(&format!("restart keys{}", hs.len().min(8)));
                for h in c::find(s, &T::new()).unwrap_or_default() {
                    let _ = c::destroy(s, h);
                }
                make(s, r, &mut ks);
                aes = c::create(s, &aes_t(&[5; 16]).b(CKA_ENCRYPT, true)).must("aes");
            }
        }
    }
    t.end();
}
fn cancel_by_init(s: H, o: usize) -> RV {
    unsafe {
        if o == 0 {
            c::fl().C_SignInit.unwrap()(s, std::ptr::null_mut(), 0)
        } else {
            c::fl().C_DecryptInit.unwrap()(s, std::ptr::null_mut(), 0)
        }
    }
}
fn drop_all(s: H, st: &mut [St; 2]) {
    for o in 0..2 {
        let _ = c::session_cancel(s, if o == 0 { CKF_SIGN } else { CKF_DECRYPT });
        let _ = cancel_by_init(s, o);
        st[o] = St::Idle;
    }
}
/// after a refusal the operation may be gone or still pending; a new init tells which
fn resolve(s: H, o: usize, k: usize, ks: &[K], st: &mut [St; 2], sq: u64, _r: &mut Rng) {
    let key = &ks[k];
    let m = if o == 1 {
        M::new(CKM_RSA_PKCS)
    } else if key.rsa.is_some() {
        M::new(CKM_SHA256_RSA_PKCS)
    } else {
        M::new(CKM_ECDSA_SHA256)
    };
    let rv = if o == 0 { rvof(&c::sign_init(s, &m, key.sh)) } else { rvof(&c::decrypt_init(s, &m, key.sh)) };
    st[o] = match rv {
        CKR_OPERATION_ACTIVE => St::Act { key: k, auth: Some(false), upd: false, seq: sq },
        _ => {
            let _ = c::session_cancel(s, if o == 0 { CKF_SIGN } else { CKF_DECRYPT });
            let _ = cancel_by_init(s, o);
            St::Idle
        }
    };
}
