//! Wrapping and unwrapping (P20), with the protection rules of P04.
use crate::c::{self, *};
use crate::ops;
use crate::p11::*;
use crate::props::kdf::mont_t;
use crate::refc::{self, Bn, Curve};
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P20" => {
            let mut v = times(8 * k, |_| job("wrap.round", 1_000_000, 20_000));
            v.extend(times(5 * k, |_| job("wrap.bad", 1_000_000, 20_000)));
            v.extend(times(3 * k, |_| job("wrap.blob", 1_000_000, 15_000)));
            v
        }
        "P04" => times(2 * k, |_| job("wrap.bad", 1_000_000, 15_000)),
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "wrap.round" => each("wround", arg, r, round),
        "wrap.bad" => each("wbad", arg, r, bad),
        "wrap.blob" => each("wblob", arg, r, blob),
        _ => panic!("{}", job),
    }
}
fn each(name: &str, arg: u64, r: &mut Rng, f: fn(CK_SLOT_ID, H, &mut Rng)) {
    let t = fresh(name);
    let mut n = 0;
    while n < arg && w::time_left() {
        let s = t.rw_user();
        for _ in 0..20 {
            n += 1;
            f(t.slot, s, r);
            if !w::time_left() {
                break;
            }
        }
        for h in c::find(s, &T::new().b(CKA_TOKEN, true)).must("find") {
            let _ = c::destroy(s, h);
        }
        c::close_all(t.slot).must("C_CloseAllSessions");
    }
    t.end();
}

// ---------- the keys that get wrapped ----------
#[derive(Clone)]
enum Kind {
    Secret(Vec<u8>),
    Rsa(usize),
    Ec(Curve, Vec<u8>),
    Mont(bool, Vec<u8>),
}
#[derive(Clone)]
struct Tg {
    kind: Kind,
    class: CK_ULONG,
    kt: CK_ULONG,
    /// template creating the key, without protection attributes
    t: T,
    name: String,
}
fn target(r: &mut Rng) -> Tg {
    let sec = |kt: CK_ULONG, v: Vec<u8>, n: &str| {
        let mut t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).v(CKA_VALUE, &v);
        t = if kt == CKK_AES { t.b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true) } else { t.b(CKA_SIGN, true).b(CKA_VERIFY, true).b(CKA_DERIVE, true) };
        if kt == CKK_HKDF {
            t = t.del(CKA_SIGN).del(CKA_VERIFY);
        }
        Tg { class: CKO_SECRET_KEY, kt, t, name: format!("{}{}", n, v.len()), kind: Kind::Secret(v) }
    };
    match r.below(12) {
        0..=2 => {
            let v = ops::keybytes(r);
            sec(CKK_AES, v, "aes")
        }
        3 | 4 => {
            let n = *r.pick(&[1usize, 5, 7, 8, 9, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 100, 128]);
            let mut v = r.bytes(n);
            if r.chance(1, 4) {
                // zero bytes at the end look like padding
                v[n - 1] = 0;
            }
            if r.chance(1, 6) {
                v[0] = 0;
            }
            sec(CKK_GENERIC_SECRET, v, "generic")
        }
        5 => {
            let (_, _, h, kt) = *r.pick(&ops::HMACS);
            let v = r.bytes(h.len);
            sec(kt, v, "hmac")
        }
        6 => {
            let n = r.range(1, 64);
            let v = r.bytes(n);
            sec(CKK_HKDF, v, "hkdf")
        }
        7 | 8 => {
            let i = ops::rsa_index(r);
            Tg { kind: Kind::Rsa(i), class: CKO_PRIVATE_KEY, kt: CKK_RSA, t: ops::rsa_priv(i), name: format!("rsa{}", ops::rsa_ref(i).k() * 8) }
        }
        9 | 10 => {
            let cv = *r.pick(&refc::CURVES);
            let d = ops::ec_scalar(cv, r);
            // an unpadded big number now and then
            let dv = if r.chance(1, 4) { Bn::from(&d).bytes() } else { d.clone() };
            Tg { class: CKO_PRIVATE_KEY, kt: CKK_EC, t: ops::ec_priv_t(cv, &dv), name: format!("ec-{}", cv.name), kind: Kind::Ec(cv, d) }
        }
        _ => {
            let x = r.bool();
            let k = r.bytes(if x { 56 } else { 32 });
            Tg { class: CKO_PRIVATE_KEY, kt: CKK_EC_MONTGOMERY, t: mont_t(x, &k), name: if x { "x448".into() } else { "x25519".into() }, kind: Kind::Mont(x, k) }
        }
    }
}
const OID_RSA: &[u8] = &[6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const OID_EC: &[u8] = &[6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
fn rsa_comps(i: usize) -> Vec<(CK_ULONG, Vec<u8>)> {
    let t = ops::rsa_priv(i);
    [CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT].iter().map(|a| (*a, t.get(*a).unwrap().clone())).collect()
}
/// standard encoding of the key, as another implementation would make it
fn encode(g: &Tg, fancy: bool, r: &mut Rng) -> Vec<u8> {
    match &g.kind {
        Kind::Secret(v) => v.clone(),
        Kind::Rsa(i) => {
            let c: Vec<Vec<u8>> = rsa_comps(*i).into_iter().map(|x| x.1).collect();
            refc::rsa_pkcs8(&c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], &c[7])
        }
        Kind::Ec(cv, d) => {
            let mut inner = vec![refc::der_int(&[1]), refc::der(4, d)];
            if fancy && r.bool() {
                inner.push(refc::der(0xa0, cv.oid));
            }
            if fancy {
                let p = refc::ec_mul(*cv, d, None).unwrap();
                inner.push(refc::der(0xa1, &refc::der(3, &[&[0][..], &p].concat())));
            }
            let alg = refc::seq(&[OID_EC.to_vec(), cv.oid.to_vec()]);
            refc::seq(&[refc::der_int(&[0]), alg, refc::der(4, &refc::seq(&inner))])
        }
        Kind::Mont(x, k) => {
            let alg = refc::seq(&[vec![6, 3, 0x2b, 0x65, if *x { 0x6f } else { 0x6e }]]);
            refc::seq(&[refc::der_int(&[0]), alg, refc::der(4, &refc::der(4, k))])
        }
    }
}
fn tlv(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
    let (t, c, rest) = refc::der_read(b)?;
    if t == tag {
        Some((c, rest))
    } else {
        None
    }
}
/// is this the encoding of the key? `pad`: zero bytes may follow
fn decodes(g: &Tg, b: &[u8], pad: bool) -> Result<(), String> {
    if let Kind::Secret(v) = &g.kind {
        let ok = if pad { b.len() >= v.len() && b.len() < v.len() + 16 && b[..v.len()] == v[..] && b[v.len()..].iter().all(|x| *x == 0) } else { b == &v[..] };
        return if ok { Ok(()) } else { Err(format!("{} instead of the key value {}", w::hx(b), w::hx(v))) };
    }
    let mut f = || -> Option<String> {
        let (p8, rest) = tlv(b, 0x30)?;
        if rest.iter().any(|x| *x != 0) || (!pad && !rest.is_empty()) || rest.len() > 15 {
            return Some("trailing bytes".into());
        }
        let (v, p) = tlv(p8, 2)?;
        if v != [0] && v != [1] {
            return Some("version".into());
        }
        let (alg, p) = tlv(p, 0x30)?;
        let (key, _) = tlv(p, 4)?;
        match &g.kind {
            Kind::Rsa(i) => {
                if !alg.starts_with(OID_RSA) || alg[OID_RSA.len()..] != [5, 0] {
                    return Some("algorithm".into());
                }
                let (mut k, _) = tlv(key, 0x30)?;
                let (v, rest) = tlv(k, 2)?;
                if v != [0] {
                    return Some("RSA version".into());
                }
                k = rest;
                for (a, want) in rsa_comps(*i) {
                    let (v, rest) = tlv(k, 2)?;
                    k = rest;
                    if v.is_empty() || v[0] & 0x80 != 0 {
                        return Some(format!("{} is a negative number", ckan(a)));
                    }
                    if v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0 {
                        return Some(format!("{} is not minimal", ckan(a)));
                    }
                    if !Bn::from(v).eq(&Bn::from(&want)) {
                        return Some(format!("{} is wrong", ckan(a)));
                    }
                }
                if !k.is_empty() {
                    return Some("more after the RSA key".into());
                }
            }
            Kind::Ec(cv, d) => {
                if alg != [OID_EC, cv.oid].concat() {
                    return Some("algorithm".into());
                }
                let (k, _) = tlv(key, 0x30)?;
                let (v, k) = tlv(k, 2)?;
                if v != [1] {
                    return Some("EC version".into());
                }
                let (v, _) = tlv(k, 4)?;
                if !Bn::from(v).eq(&Bn::from(d)) {
                    return Some("EC private key is wrong".into());
                }
            }
            Kind::Mont(x, k) => {
                if alg != [6, 3, 0x2b, 0x65, if *x { 0x6f } else { 0x6e }] {
                    return Some("algorithm".into());
                }
                let (v, _) = match tlv(key, 4) {
                    Some(x) => x,
                    None => return Some("no CurvePrivateKey".into()),
                };
                if v != &k[..] {
                    return Some("private key is wrong".into());
                }
            }
            _ => unreachable!(),
        }
        Some(String::new())
    };
    match f() {
        None => Err(format!("not a PKCS#8 key: {}", w::hex(b))),
        Some(s) if s.is_empty() => Ok(()),
        Some(s) => Err(format!("{} in {}", s, w::hex(b))),
    }
}
/// does the object compute with the right key? (works for sensitive keys too)
fn works(s: H, h: H, g: &Tg, r: &mut Rng) -> Result<(), String> {
    let msg = r.bytes(32);
    match &g.kind {
        Kind::Secret(v) if g.kt == CKK_AES => {
            let got = c::encrypt_init(s, &M::new(CKM_AES_ECB), h).and_then(|_| c::encrypt(s, &msg));
            if got.as_ref().ok() == Some(&refc::aes_ecb(v, &msg, true)) {
                Ok(())
            } else {
                Err(format!("AES encryption gives {:?}", got.map(|v| w::hx(&v)).map_err(rvn)))
            }
        }
        Kind::Secret(v) if g.kt == CKK_HKDF => {
            let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).u(CKA_VALUE_LEN, 32).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
            let got = c::derive(s, &M::new(CKM_SHA256_KEY_DERIVATION), h, &t);
            match got {
                Ok(d) => {
                    let v2 = c::attr(s, d, CKA_VALUE);
                    let _ = c::destroy(s, d);
                    if v2.as_ref().ok() == Some(&refc::hash(refc::SHA256, v)) {
                        Ok(())
                    } else {
                        Err(format!("derivation gives {:?}", v2.map(|v| w::hx(&v)).map_err(rvn)))
                    }
                }
                // not every derivation takes every key type
                Err(_) => Ok(()),
            }
        }
        Kind::Secret(v) => {
            let (m, hh) = ops::HMACS.iter().find(|x| x.3 == g.kt).map(|x| (x.0, x.2)).unwrap_or((CKM_SHA256_HMAC, refc::SHA256));
            let got = c::sign_init(s, &M::new(m), h).and_then(|_| c::sign(s, &msg));
            if got.as_ref().ok() == Some(&refc::hmac(hh, v, &msg)) || (got == Err(CKR_KEY_SIZE_RANGE)) {
                Ok(())
            } else {
                Err(format!("{} gives {:?}", ckmn(m), got.map(|v| w::hx(&v)).map_err(rvn)))
            }
        }
        Kind::Rsa(i) => {
            let k = ops::rsa_ref(*i);
            let got = c::sign_init(s, &M::new(CKM_RSA_PKCS), h).and_then(|_| c::sign(s, &msg));
            if got.as_ref().ok() == Some(&k.privop(&refc::pkcs1_t1(k.k(), &msg).unwrap())) {
                Ok(())
            } else {
                Err(format!("CKM_RSA_PKCS signature is {:?}", got.map(|v| w::hx(&v)).map_err(rvn)))
            }
        }
        Kind::Ec(cv, d) => {
            let got = c::sign_init(s, &M::new(CKM_ECDSA), h).and_then(|_| c::sign(s, &msg));
            let pt = refc::ec_mul(*cv, d, None).unwrap();
            match got {
                Ok(sig) if refc::ecdsa_verify(*cv, &pt, &msg, &sig) => Ok(()),
                g => Err(format!("ECDSA signature is {:?}", g.map(|v| w::hx(&v)).map_err(rvn))),
            }
        }
        Kind::Mont(x, k) => {
            let nid = if *x { refc::NID_X448 } else { refc::NID_X25519 };
            let pk = r.bytes(k.len());
            let peer = refc::mont_pub(nid, &pk);
            let pa = arc(&peer);
            let p = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: peer.len() as CK_ULONG, pPublicData: aptr(&pa) };
            let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
            let got = c::derive(s, &M::st(CKM_ECDH1_DERIVE, &p, vec![pa], "ecdh"), h, &t).and_then(|d| {
                let v = c::attr(s, d, CKA_VALUE);
                let _ = c::destroy(s, d);
                v
            });
            if got.as_ref().ok() == refc::mont_dh(nid, k, &peer).as_ref() {
                Ok(())
            } else {
                Err(format!("ECDH gives {:?}", got.map(|v| w::hx(&v)).map_err(rvn)))
            }
        }
    }
}
/// compare the readable attributes with the key
fn same(s: H, h: H, g: &Tg) -> Result<(), String> {
    let want: Vec<(CK_ULONG, Vec<u8>)> = match &g.kind {
        Kind::Secret(v) => vec![(CKA_VALUE, v.clone()), (CKA_VALUE_LEN, (v.len() as CK_ULONG).to_ne_bytes().to_vec())],
        Kind::Rsa(i) => rsa_comps(*i),
        Kind::Ec(_, d) => vec![(CKA_VALUE, d.clone())],
        Kind::Mont(_, k) => vec![(CKA_VALUE, k.clone())],
    };
    for (a, v) in want {
        let got = c::attr(s, h, a).map_err(|e| format!("{} reads {}", ckan(a), rvn(e)))?;
        let big = matches!(g.kind, Kind::Rsa(_) | Kind::Ec(..));
        if got != v && !(big && Bn::from(&got).eq(&Bn::from(&v))) {
            return Err(format!("{} is {} instead of {}", ckan(a), w::hx(&got), w::hx(&v)));
        }
    }
    match &g.kind {
        Kind::Ec(cv, _) => {
            let p = c::attr(s, h, CKA_EC_PARAMS).map_err(rvn)?;
            if p != cv.oid {
                return Err(format!("CKA_EC_PARAMS is {}", w::hx(&p)));
            }
        }
        Kind::Mont(x, _) => {
            let p = c::attr(s, h, CKA_EC_PARAMS).map_err(rvn)?;
            if p != [6, 3, 0x2b, 0x65, if *x { 0x6f } else { 0x6e }] {
                return Err(format!("CKA_EC_PARAMS is {}", w::hx(&p)));
            }
        }
        _ => (),
    }
    Ok(())
}

// ---------- the wrapping mechanisms ----------
pub struct Wm {
    pub m: M,
    /// templates of the wrapping and the unwrapping key
    pub wt: T,
    pub ut: T,
    pub enc: Box<dyn Fn(&[u8], &mut Rng) -> Vec<u8>>,
    dec: Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>,
    /// wrapped length of a plain length
    pub fits: Box<dyn Fn(usize) -> bool>,
    /// zero padding to the block
    pads: bool,
    auth: bool,
    pub name: String,
}
/// the plain length is known where the parameter needs it
pub fn wmech(r: &mut Rng, plen: usize, want: Option<usize>) -> Wm {
    let k = ops::keybytes(r);
    let iv = r.bytes(16);
    let aes = |m: M, enc: Box<dyn Fn(&[u8], &mut Rng) -> Vec<u8>>, dec: Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>, fits: Box<dyn Fn(usize) -> bool>, pads: bool, auth: bool, name: &str| Wm { m, wt: ops::aes_key(&k), ut: ops::aes_key(&k), enc, dec, fits, pads, auth, name: name.into() };
    let zp = |d: &[u8]| {
        let mut v = d.to_vec();
        v.resize(d.len().div_ceil(16) * 16, 0);
        v
    };
    let (k1, k2) = (k.clone(), k.clone());
    let (iv1, iv2) = (iv.clone(), iv.clone());
    let any: Box<dyn Fn(usize) -> bool> = Box::new(|n| n > 0);
    match want.unwrap_or(r.below(13) as usize) {
        0 => {
            let civ = if r.chance(1, 3) { Some(r.bytes(8)) } else { None };
            let a: [u8; 8] = civ.as_ref().map(|v| v[..].try_into().unwrap()).unwrap_or([0xa6; 8]);
            aes(civ.map(|v| M::raw(CKM_AES_KEY_WRAP, &v)).unwrap_or(M::new(CKM_AES_KEY_WRAP)), Box::new(move |d, _| refc::kw(&k1, d, &a)), Box::new(move |d| refc::kw_un(&k2, d, &a)), Box::new(|n| n >= 16 && n % 8 == 0), false, true, "kw")
        }
        1 | 2 => {
            let civ = if r.chance(1, 3) { Some(r.bytes(4)) } else { None };
            let a: [u8; 4] = civ.as_ref().map(|v| v[..].try_into().unwrap()).unwrap_or([0xa6, 0x59, 0x59, 0xa6]);
            aes(civ.map(|v| M::raw(CKM_AES_KEY_WRAP_KWP, &v)).unwrap_or(M::new(CKM_AES_KEY_WRAP_KWP)), Box::new(move |d, _| refc::kwp(&k1, d, &a)), Box::new(move |d| refc::kwp_un(&k2, d, &a)), any, false, true, "kwp")
        }
        3 => aes(M::new(CKM_AES_ECB), Box::new(move |d, _| refc::aes_ecb(&k1, &zp(d), true)), Box::new(move |d| if d.len() % 16 == 0 { Some(refc::aes_ecb(&k2, d, false)) } else { None }), any, true, false, "ecb"),
        4 => aes(M::raw(CKM_AES_CBC, &iv), Box::new(move |d, _| refc::cbc_enc(&k1, &iv1, &zp(d))), Box::new(move |d| if d.len() % 16 == 0 { Some(refc::cbc_dec(&k2, &iv2, d)) } else { None }), any, true, false, "cbc"),
        5 => aes(M::raw(CKM_AES_CBC_PAD, &iv), Box::new(move |d, _| refc::cbc_enc(&k1, &iv1, &refc::pad7(d))), Box::new(move |d| if d.len() % 16 == 0 && !d.is_empty() { refc::unpad7(&refc::cbc_dec(&k2, &iv2, d)) } else { None }), any, false, false, "cbc-pad"),
        6 => aes(ops::ctr_m(&iv, 128), Box::new(move |d, _| refc::ctr(&k1, &iv1, 128, d)), Box::new(move |d| Some(refc::ctr(&k2, &iv2, 128, d))), any, false, false, "ctr"),
        7 => aes(M::raw(CKM_AES_CTS, &iv), Box::new(move |d, _| refc::cts_enc(&k1, &iv1, d)), Box::new(move |d| if d.len() >= 16 { Some(refc::cts_dec(&k2, &iv2, d)) } else { None }), Box::new(|n| n >= 16), false, false, "cts"),
        8 => {
            let gi = r.bytes(12);
            let an = r.len(40);
            let aad = r.bytes(an);
            let tl = *r.pick(&[12usize, 16, 16]);
            let m = ops::gcm_m(&gi, &aad, tl);
            let (g1, a1, g2, a2) = (gi.clone(), aad.clone(), gi, aad);
            aes(m, Box::new(move |d, _| { let (mut c, t) = refc::gcm(&k1, &g1, &a1, d, true); c.extend(&t[..tl]); c }), Box::new(move |d| { if d.len() < tl { return None; } let (c, t) = d.split_at(d.len() - tl); let (p, t2) = refc::gcm(&k2, &g2, &a2, c, false); if t2[..tl] == *t { Some(p) } else { None } }), any, false, true, "gcm")
        }
        9 => {
            let nn = r.range(7, 13);
            let gi = r.bytes(nn);
            let an = r.len(40);
            let aad = r.bytes(an);
            let tl = *r.pick(&[8usize, 12, 16]);
            let m = ops::ccm_m(&gi, &aad, tl, plen);
            let (g1, a1, g2, a2) = (gi.clone(), aad.clone(), gi, aad);
            aes(m, Box::new(move |d, _| { let (mut c, t) = refc::ccm(&k1, &g1, &a1, d, tl, true); c.extend(&t); c }), Box::new(move |d| { if d.len() < tl { return None; } let (c, t) = d.split_at(d.len() - tl); let (p, t2) = refc::ccm(&k2, &g2, &a2, c, tl, false); if t2 == t { Some(p) } else { None } }), Box::new(move |n| n == plen), false, true, "ccm")
        }
        n => {
            let i = ops::rsa_index(r);
            let key = ops::rsa_ref(i);
            let kk = key.k();
            let (q1, q2) = (ops::rsa_ref(i), ops::rsa_ref(i));
            let mk = |m: M, enc: Box<dyn Fn(&[u8], &mut Rng) -> Vec<u8>>, dec: Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>, fits: Box<dyn Fn(usize) -> bool>, auth: bool, name: &str| Wm { m, wt: ops::rsa_pub(i), ut: ops::rsa_priv(i), enc, dec, fits, pads: false, auth, name: name.into() };
            if n < 12 && n != 10 {
                let (hm, mg, h) = *r.pick(&ops::OAEP_HASHES);
                let ln = r.len(20);
                let label = r.bytes(ln);
                let (l1, l2) = (label.clone(), label.clone());
                let hl = h.len;
                mk(ops::oaep_m(hm, mg, &label), Box::new(move |d, r| { let seed = r.bytes(hl); q1.pubop(&refc::oaep(kk, h, h, &l1, d, &seed)) }), Box::new(move |d| if d.len() == kk { refc::oaep_un(&q2.privop(d), h, h, &l2) } else { None }), Box::new(move |n| n > 0 && n + 2 * hl + 2 <= kk), true, &format!("oaep-{}", h.name))
            } else {
                mk(M::new(CKM_RSA_PKCS), Box::new(move |d, r| q1.pubop(&refc::pkcs1_t2(kk, d, r))), Box::new(move |d| if d.len() == kk { refc::pkcs1_t2_un(&q2.privop(d)) } else { None }), Box::new(move |n| n > 0 && n + 11 <= kk), false, "rsa-pkcs")
            }
        }
    }
}
fn wkey(s: H, t: &T) -> H {
    c::create(s, t).must("C_CreateObject(wrapping key)")
}
/// number of objects the session sees
fn count(s: H) -> usize {
    c::find(s, &T::new()).must("C_FindObjects").len()
}
fn tclass(g: &Tg, sens: bool, ext: bool) -> T {
    T::new().u(CKA_CLASS, g.class).u(CKA_KEY_TYPE, g.kt).b(CKA_SENSITIVE, sens).b(CKA_EXTRACTABLE, ext)
}
fn usage(t: T, g: &Tg) -> T {
    match &g.kind {
        Kind::Secret(_) if g.kt == CKK_AES => t.b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true),
        Kind::Secret(_) if g.kt == CKK_HKDF => t.b(CKA_DERIVE, true),
        Kind::Secret(_) => t.b(CKA_SIGN, true).b(CKA_VERIFY, true),
        Kind::Rsa(_) => t.b(CKA_SIGN, true).b(CKA_DECRYPT, true),
        Kind::Ec(..) => t.b(CKA_SIGN, true),
        Kind::Mont(..) => t.b(CKA_DERIVE, true),
    }
}
fn provenance(s: H, h: H, how: &str, name: &str) {
    for (a, want) in [(CKA_LOCAL, false), (CKA_ALWAYS_SENSITIVE, false), (CKA_NEVER_EXTRACTABLE, false)] {
        match c::attr_b(s, h, a) {
            Ok(v) if v == want => (),
            g => viol!(["P20", "P04", "P31"], &format!("wrap:provenance:{}:{}", ckan(a), name), "{}: {} of the unwrapped key is {:?}, must be {}", how, ckan(a), g.map_err(rvn), want),
        }
    }
    match c::attr_u(s, h, CKA_KEY_GEN_MECHANISM) {
        Ok(CK_UNAVAILABLE_INFORMATION) | Err(_) => (),
        Ok(v) => viol!(["P20", "P31"], "wrap:provenance:CKA_KEY_GEN_MECHANISM", "{}: CKA_KEY_GEN_MECHANISM of the unwrapped key is {:#x}", how, v),
    }
}
fn round(_slot: CK_SLOT_ID, s: H, r: &mut Rng) {
    let g = target(r);
    let plen = encode(&g, false, r).len();
    let wm = wmech(r, plen, None);
    let wk = wkey(s, &wm.wt.clone().b(CKA_TOKEN, r.chance(1, 6)));
    let uk = if r.bool() && wm.wt.getu(CKA_CLASS) == Some(CKO_SECRET_KEY) { wk } else { wkey(s, &wm.ut) };
    let sens = r.bool();
    let key = c::create(s, &g.t.clone().b(CKA_SENSITIVE, sens).b(CKA_EXTRACTABLE, true).b(CKA_TOKEN, r.chance(1, 6))).must("C_CreateObject(key to wrap)");
    let how = format!("C_WrapKey of {} ({}) with {}", g.name, g.t.show(), wm.m.show());
    // an independent encoding first: what is the right blob?
    let fits = (wm.fits)(plen);
    // ask for the length, then take the room needed, more or less
    let q = c::wrap_o(s, &wm.m, wk, key, None);
    let o = c::wrap_o(s, &wm.m, wk, key, Some(8192));
    w::eval(&format!("{}/{}/{}/{}", wm.name, g.name, fits, o.rv == CKR_OK));
    w::count(if o.rv == CKR_OK { "wrapped" } else { "refused" }, 1);
    if o.rv != CKR_OK {
        // the EC encoding may be longer than ours: only CCM depends on it
        if fits && wm.name != "ccm" && !(wm.name == "kw" && matches!(g.kind, Kind::Ec(..))) && !(wm.name.starts_with("rsa") || wm.name.starts_with("oaep")) {
            viol!(["P20"], &format!("wrap:refused:{}:{}", wm.name, rvn(o.rv)), "{}: {}", how, rvn(o.rv));
        } else if fits && matches!(g.kind, Kind::Secret(_)) {
            viol!(["P20"], &format!("wrap:refused:{}:{}", wm.name, rvn(o.rv)), "{}: {}", how, rvn(o.rv));
        }
        if let Ok(x) = q.val() {
            let _ = x; // a length alone is harmless
        }
        let _ = c::destroy(s, key);
        return;
    }
    let b = o.val().unwrap();
    if q.rv != CKR_OK || (q.len as usize) < b.len() {
        viol!(["P20", "P21"], &format!("wrap:query:{}", wm.name), "{}: length query gave {} {}, the wrapped key has {} bytes", how, rvn(q.rv), q.len, b.len());
    }
    let short = c::wrap_o(s, &wm.m, wk, key, Some(if b.len() > 1 { r.range(1, b.len() - 1) } else { 1 }));
    if short.rv == CKR_OK && b.len() > 1 {
        viol!(["P20", "P21"], &format!("wrap:short-ok:{}", wm.name), "{}: {} bytes written for a {} byte wrapped key", how, short.len, b.len());
    }
    match (wm.dec)(&b) {
        None => {
            viol!(["P20"], &format!("wrap:undecodable:{}", wm.name), "{}: the reference implementation cannot unwrap {}", how, w::hex(&b));
            return;
        }
        Some(p) => {
            if let Err(e) = decodes(&g, &p, wm.pads) {
                viol!(["P20"], &format!("wrap:bytes:{}:{}", wm.name, g.kt), "{}: the blob contains {}", how, e);
                return;
            }
        }
    }
    // and back
    let (s2, e2) = if r.chance(2, 3) { (false, true) } else { (r.bool(), r.bool()) };
    let mut t = usage(tclass(&g, s2, e2), &g);
    let plain_len = if let Kind::Secret(v) = &g.kind { v.len() } else { 0 };
    let mut need_len = wm.pads && plain_len % 16 != 0;
    if matches!(g.kind, Kind::Secret(_)) && (need_len || r.chance(1, 3)) {
        t = t.u(CKA_VALUE_LEN, plain_len as CK_ULONG);
        need_len = false;
    }
    let _ = need_len;
    let token = r.chance(1, 5);
    let label = w::hex(&r.bytes(3));
    let priv_ = r.chance(4, 5);
    t = t.b(CKA_TOKEN, token).s(CKA_LABEL, &label).b(CKA_PRIVATE, priv_);
    let how = format!("{}; C_UnwrapKey of {} with {}", how, w::hx(&b), t.show());
    unwrap_check(s, &wm, uk, &b, &t, &g, &how, true, r);
    for h in [key, wk, uk] {
        let _ = c::destroy(s, h);
    }
}
fn unwrap_check(s: H, wm: &Wm, uk: H, b: &[u8], t: &T, g: &Tg, how: &str, must: bool, r: &mut Rng) {
    let before = if r.chance(1, 4) { Some(count(s)) } else { None };
    match c::unwrap(s, &wm.m, uk, b, t) {
        Err(e) => {
            if must {
                viol!(["P20"], &format!("unwrap:refused:{}:{}:{}", wm.name, g.kt, rvn(e)), "{}: {}", how, rvn(e));
            }
            if let Some(n) = before {
                let a = count(s);
                if a != n {
                    viol!(["P20", "P11"], "unwrap:refused-left-object", "{}: refused with {}, but {} objects became {}", how, rvn(e), n, a);
                }
            }
        }
        Ok(h) => {
            w::count("unwrapped", 1);
            if let Err(e) = works(s, h, g, r) {
                viol!(["P20"], &format!("unwrap:other-key:{}:{}", wm.name, g.kt), "{}: {}", how, e);
            }
            let open = t.getb(CKA_SENSITIVE) == Some(false) && t.getb(CKA_EXTRACTABLE) == Some(true);
            if open {
                if let Err(e) = same(s, h, g) {
                    viol!(["P20"], &format!("unwrap:value:{}:{}", wm.name, g.kt), "{}: {}", how, e);
                }
            } else {
                let a = match g.kind {
                    Kind::Rsa(_) => CKA_PRIVATE_EXPONENT,
                    _ => CKA_VALUE,
                };
                if let Ok(v) = c::attr(s, h, a) {
                    viol!(["P20", "P04"], "unwrap:readable", "{}: {} can be read: {}", how, ckan(a), w::hx(&v));
                }
            }
            for (a, v) in t.pairs() {
                if a == CKA_VALUE_LEN && v.iter().all(|x| *x == 0) {
                    continue;
                }
                let got = c::attr(s, h, a);
                if got.as_ref().ok() != Some(&v) {
                    viol!(["P20"], &format!("unwrap:template:{}", ckan(a)), "{}: {} reads {:?}, the template says {}", how, ckan(a), got.map(|v| w::hx(&v)).map_err(rvn), w::hx(&v));
                }
            }
            provenance(s, h, how, &g.name);
            if let Some(n) = before {
                let a = count(s);
                if a != n + 1 {
                    viol!(["P20"], "unwrap:count", "{}: {} objects became {}", how, n, a);
                }
            }
            let _ = c::destroy(s, h);
        }
    }
}

/// blobs made by the reference implementation, good and damaged
fn blob(_slot: CK_SLOT_ID, s: H, r: &mut Rng) {
    let g = target(r);
    let fancy = r.bool();
    let p = encode(&g, fancy, r);
    let wm = wmech(r, p.len(), None);
    if !(wm.fits)(p.len()) {
        w::eval("does-not-fit");
        return;
    }
    let uk = wkey(s, &wm.ut);
    let b = (wm.enc)(&p, r);
    let (s2, e2) = if r.bool() { (false, true) } else { (r.bool(), r.bool()) };
    let mut t = usage(tclass(&g, s2, e2), &g);
    if let Kind::Secret(v) = &g.kind {
        if (wm.pads && v.len() % 16 != 0) || r.chance(1, 3) {
            t = t.u(CKA_VALUE_LEN, v.len() as CK_ULONG);
        }
    }
    let how = format!("C_UnwrapKey({}) of {} made elsewhere from {} {} with {}", wm.m.show(), w::hx(&b), g.name, w::hx(&p), t.show());
    w::eval(&format!("blob/{}/{}/{}", wm.name, g.name, fancy));
    unwrap_check(s, &wm, uk, &b, &t, &g, &how, true, r);
    // damage
    for _ in 0..3 {
        let mut d = b.clone();
        let what = match r.below(5) {
            0 => {
                let i = r.us(d.len());
                d[i] ^= 1 << r.below(8);
                format!("bit flipped in byte {}", i)
            }
            1 => {
                let n = r.us(d.len());
                d.truncate(n);
                format!("cut to {} bytes", n)
            }
            2 => {
                let n = *r.pick(&[1usize, 8, 16]);
                d.extend(r.bytes(n));
                format!("{} bytes added", n)
            }
            3 => {
                let n = d.len();
                d = r.bytes(n);
                "random bytes".into()
            }
            _ => {
                // swap two blocks
                if d.len() >= 32 {
                    for i in 0..8 {
                        let n = d.len() - 8;
                        d.swap(i, n + i);
                    }
                }
                "blocks swapped".into()
            }
        };
        if d == b {
            continue;
        }
        w::eval(&format!("damage/{}/{}/{}", wm.name, g.name, what.split(' ').next().unwrap()));
        // what does the reference say?
        let want = if d.is_empty() { None } else { (wm.dec)(&d) };
        let before = count(s);
        let how = format!("{}, {}", how, what);
        match c::unwrap(s, &wm.m, uk, &d, &t) {
            Ok(h) => {
                w::count("damaged-accepted", 1);
                match (&want, &g.kind) {
                    // OpenSSL answers a padding error of RSA PKCS #1 v1.5 with a made up message (implicit rejection)
                    (None, Kind::Secret(_)) if wm.m.ty == CKM_RSA_PKCS && d.len() == b.len() => {
                        w::count("implicit-rejection", 1);
                    }
                    (None, _) => viol!(["P20"], &format!("unwrap:damaged-accepted:{}", wm.name), "{}: accepted", how),
                    (Some(p), Kind::Secret(_)) => {
                        if s2 == false && e2 {
                            let v = c::attr(s, h, CKA_VALUE).unwrap_or_default();
                            let ok = v == *p || (v.len() < p.len() && p.starts_with(&v));
                            if !ok {
                                viol!(["P20"], &format!("unwrap:damaged-value:{}", wm.name), "{}: value {} where the blob contains {}", how, w::hx(&v), w::hx(p));
                            }
                        }
                    }
                    (Some(p), _) => {
                        // a private key that still decodes must be the one encoded; anything else is refused
                        if refc::der_read(p).map(|x| x.0) != Some(0x30) {
                            viol!(["P20"], &format!("unwrap:garbage-key:{}", wm.name), "{}: {} became a private key", how, w::hx(p));
                        }
                    }
                }
                let _ = c::destroy(s, h);
            }
            Err(_) => {
                let a = count(s);
                if a != before {
                    viol!(["P20", "P11"], "unwrap:refused-left-object", "{}: refused, but {} objects became {}", how, before, a);
                }
            }
        }
    }
    let _ = c::destroy(s, uk);
}

/// unsuitable keys, templates and parameters
fn bad(slot: CK_SLOT_ID, s: H, r: &mut Rng) {
    let g = target(r);
    let p = encode(&g, false, r);
    let mut wm = wmech(r, p.len(), None);
    while !(wm.fits)(p.len()) {
        let w = if r.bool() { 1 } else { r.us(9) };
        wm = wmech(r, p.len(), Some(w));
    }
    let b = (wm.enc)(&p, r);
    let rsa = wm.wt.getu(CKA_CLASS) == Some(CKO_PUBLIC_KEY);
    let mut good_t = usage(tclass(&g, false, true), &g);
    if let Kind::Secret(v) = &g.kind {
        if wm.pads && v.len() % 16 != 0 {
            good_t = good_t.u(CKA_VALUE_LEN, v.len() as CK_ULONG);
        }
    }
    let plain = |t: &T| t.clone().b(CKA_SENSITIVE, true).b(CKA_EXTRACTABLE, true);
    if r.bool() {
        // ---- wrap
        let mut wt = wm.wt.clone();
        let mut kt = plain(&g.t);
        let mut m = wm.m.clone();
        let mut ses = s;
        let mut tags: &[&str] = &["P20"];
        let what: String = match r.below(12) {
            0 => {
                wt = wt.setb(CKA_WRAP, false);
                tags = &["P20", "P14", "P04"];
                "wrapping key without CKA_WRAP".into()
            }
            1 => {
                kt = kt.setb(CKA_EXTRACTABLE, false);
                tags = &["P20", "P04"];
                "key with CKA_EXTRACTABLE false".into()
            }
            2 => {
                kt = kt.b(CKA_WRAP_WITH_TRUSTED, true);
                tags = &["P20", "P04"];
                "key with CKA_WRAP_WITH_TRUSTED, untrusted wrapping key".into()
            }
            3 => {
                // the other kind of wrapping key
                wt = if rsa { ops::aes_key(&ops::keybytes(r)) } else { ops::rsa_pub(ops::rsa_index(r)) };
                "wrapping key of another type".into()
            }
            4 if rsa => {
                wt = wm.ut.clone().b(CKA_WRAP, true);
                // a private key has no CKA_WRAP
                "RSA private key as wrapping key".into()
            }
            4 => {
                let v = r.bytes(32);
                wt = secret_t(CKK_SHA256_HMAC, &v).b(CKA_WRAP, true);
                "HMAC key as wrapping key".into()
            }
            5 => {
                kt = ops::rsa_pub(ops::rsa_index(r));
                "a public key as the key to wrap".into()
            }
            6 => {
                kt = data_t(b"not a key");
                "a data object as the key to wrap".into()
            }
            7 => {
                m = M::new(*r.pick(&[CKM_AES_CMAC, CKM_SHA256, CKM_ECDSA, CKM_AES_OFB, CKM_AES_CFB128, CKM_RSA_PKCS_PSS, CKM_AES_KEY_GEN, CKM_SHA256_HMAC, 0x7fff0000, CKM_DES3_CBC]));
                "a mechanism that cannot wrap".into()
            }
            8 => {
                wt = wt.mechs(&[CKM_SHA256_HMAC]);
                tags = &["P20", "P14"];
                "wrapping key with other CKA_ALLOWED_MECHANISMS".into()
            }
            9 => {
                // no longer logged in: the key is private
                "session without login and private key".into()
            }
            10 => "key handle that was destroyed".into(),
            _ => "wrapping key handle that was destroyed".into(),
        };
        let wk = match c::create(s, &wt) {
            Ok(h) => h,
            // an attribute the class does not have: nothing to test
            Err(_) => {
                w::eval(&format!("uncreatable/{}", what));
                return;
            }
        };
        let token = what.starts_with("session without");
        let k = match c::create(s, &kt.clone().b(CKA_TOKEN, token)) {
            Ok(h) => h,
            Err(e) => {
                viol!(["P20"], "wrap:bad:create", "C_CreateObject({}): {}", kt.show(), rvn(e));
                return;
            }
        };
        let mut dead = 0;
        if what.starts_with("key handle") {
            let _ = c::destroy(s, k);
            dead = 1;
        }
        if what.starts_with("wrapping key handle") {
            let _ = c::destroy(s, wk);
            dead = 1;
        }
        let mut wk = wk;
        if token {
            tags = &["P20", "P02"];
            c::logout(s).must("C_Logout");
            ses = s;
            // the wrapping key was a private session object, so it is gone: a public one instead
            let t2 = wt.clone().b(CKA_PRIVATE, false);
            wk = match c::create(s, &t2) {
                Ok(h) => h,
                Err(_) => {
                    c::login(s, CKU_USER, USER).must("C_Login");
                    return;
                }
            };
        }
        let q = c::wrap_o(ses, &m, wk, k, None);
        let o = c::wrap_o(ses, &m, wk, k, Some(8192));
        w::eval(&format!("bad-wrap/{}/{}/{}", what, wm.name, g.kt));
        if token {
            c::login(s, CKU_USER, USER).must("C_Login");
        }
        let what2 = what.clone();
        if o.rv == CKR_OK {
            let tags: Vec<&str> = tags.to_vec();
            w::viol(&tags, &format!("wrap:bad-accepted:{}", what2.replace(' ', "-")), &format!("C_WrapKey({}) of {} by {}: {} accepted, {} bytes", m.show(), kt.show(), wt.show(), what, o.len));
        } else if o.touched() {
            viol!(["P20"], "wrap:bad-wrote", "C_WrapKey({}) of {} by {}: {}: {} but the output buffer was written", m.show(), kt.show(), wt.show(), what, rvn(o.rv));
        }
        if q.rv == CKR_OK && (what.contains("EXTRACTABLE") || what.contains("CKA_WRAP")) {
            viol!(["P20"], "wrap:bad-query", "C_WrapKey length query ({}) of {}: {}: accepted", m.show(), kt.show(), what);
        }
        if dead == 0 {
            let _ = c::destroy(s, k);
            let _ = c::destroy(s, wk);
        }
        return;
    }
    // ---- unwrap
    let mut ut = wm.ut.clone();
    let mut t = good_t.clone();
    let mut m = wm.m.clone();
    let mut d = b.clone();
    let mut ses = s;
    let mut tags: Vec<&str> = vec!["P20"];
    let mut dead = false;
    let mut ro = None;
    let mut maybe = false;
    let what: String = match r.below(17) {
        0 => {
            ut = ut.setb(CKA_UNWRAP, false);
            tags.push("P14");
            "unwrapping key without CKA_UNWRAP".into()
        }
        1 => {
            ut = if rsa { ops::aes_key(&ops::keybytes(r)) } else { ops::rsa_priv(ops::rsa_index(r)) };
            "unwrapping key of another type".into()
        }
        2 if rsa => {
            ut = wm.wt.clone();
            "RSA public key as unwrapping key".into()
        }
        2 => {
            let v = r.bytes(32);
            ut = secret_t(CKK_SHA256_HMAC, &v).b(CKA_UNWRAP, true);
            "HMAC key as unwrapping key".into()
        }
        3 => {
            ut = ut.mechs(&[CKM_SHA256_HMAC]);
            tags.push("P14");
            "unwrapping key with other CKA_ALLOWED_MECHANISMS".into()
        }
        4 => {
            m = M::new(*r.pick(&[CKM_AES_CMAC, CKM_SHA256, CKM_ECDSA, CKM_AES_OFB, CKM_AES_CFB128, CKM_RSA_PKCS_PSS, CKM_AES_KEY_GEN, CKM_SHA256_HMAC, 0x7fff0000, CKM_DES3_CBC]));
            "a mechanism that cannot unwrap".into()
        }
        5 => {
            let (a, v): (CK_ULONG, Vec<u8>) = match r.below(5) {
                0 => (CKA_LOCAL, vec![r.bool() as u8]),
                1 => (CKA_ALWAYS_SENSITIVE, vec![1]),
                2 => (CKA_NEVER_EXTRACTABLE, vec![1]),
                3 => (CKA_KEY_GEN_MECHANISM, CKM_AES_KEY_GEN.to_ne_bytes().to_vec()),
                _ => (CKA_UNIQUE_ID, b"chosen".to_vec()),
            };
            t = t.v(a, &v);
            tags.push("P04");
            tags.push("P31");
            format!("template with {}", ckan(a))
        }
        6 => {
            let a = match g.kind {
                Kind::Rsa(_) => *r.pick(&[CKA_MODULUS, CKA_PRIVATE_EXPONENT, CKA_PUBLIC_EXPONENT]),
                Kind::Secret(_) => CKA_VALUE,
                _ => *r.pick(&[CKA_VALUE, CKA_EC_PARAMS]),
            };
            let v = g.t.get(a).unwrap().clone();
            let v2 = if r.bool() { v.clone() } else { r.bytes(v.len()) };
            t = t.v(a, &v2);
            if v2 == v {
                // saying what the blob says may be accepted
                maybe = true;
            }
            format!("template with {}", ckan(a))
        }
        7 => {
            t = t.del(CKA_KEY_TYPE);
            if r.bool() {
                t = t.del(CKA_CLASS);
            }
            "template without key type".into()
        }
        8 => {
            // another key type than the blob has
            t = if matches!(g.kind, Kind::Secret(_)) { T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, *r.pick(&[CKK_RSA, CKK_EC, CKK_EC_MONTGOMERY])) } else { T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, *[CKK_RSA, CKK_EC, CKK_EC_MONTGOMERY].iter().find(|x| **x != g.kt).unwrap()) };
            "template with another key type".into()
        }
        9 => {
            t = t.setu(CKA_CLASS, *r.pick(&[CKO_PUBLIC_KEY, CKO_DATA, CKO_CERTIFICATE, CKO_DOMAIN_PARAMETERS, 0x999]));
            "template with a class that cannot be unwrapped".into()
        }
        10 if matches!(g.kind, Kind::Secret(_)) => {
            let n = if let Kind::Secret(v) = &g.kind { v.len() } else { 0 };
            t = t.del(CKA_VALUE_LEN).u(CKA_VALUE_LEN, (n + 16 + r.us(64)) as CK_ULONG);
            "CKA_VALUE_LEN longer than the key".into()
        }
        10 | 11 => {
            // an AES key of a wrong size
            let n = *r.pick(&[8usize, 40, 48, 64, 56]);
            let v = r.bytes(n);
            if !(wm.fits)(n) {
                return;
            }
            d = (wm.enc)(&v, r);
            t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
            if wm.pads {
                // zero padding may make it a valid size
                return;
            }
            format!("an AES key of {} bytes", n)
        }
        12 => {
            t = t.v(0x7654, b"x");
            "template with an unknown attribute".into()
        }
        13 => {
            let x = t.get(CKA_EXTRACTABLE).unwrap()[0];
            t = t.v(CKA_EXTRACTABLE, &[1 - x]);
            "template with an attribute twice".into()
        }
        14 => {
            let h = c::open(slot, false).must("C_OpenSession");
            ro = Some(h);
            ses = h;
            t = t.b(CKA_TOKEN, true);
            tags.push("P06");
            "token key in a read-only session".into()
        }
        15 => {
            dead = true;
            "unwrapping key handle that was destroyed".into()
        }
        _ => {
            // RSA blobs of another size, empty blobs
            d = match r.below(3) {
                0 => vec![],
                1 => {
                    let n = r.range(1, 15);
                    r.bytes(n)
                }
                _ => {
                    let n = d.len() + 1;
                    r.bytes(n)
                }
            };
            if wm.m.ty == CKM_RSA_PKCS && d.len() == b.len() || (wm.dec)(&d).is_some() || d.is_empty() && !wm.auth {
                return;
            }
            format!("a blob of {} bytes", d.len())
        }
    };
    let uk = match c::create(s, &ut) {
        Ok(h) => h,
        Err(_) => {
            w::eval(&format!("uncreatable/{}", what));
            return;
        }
    };
    if dead {
        let _ = c::destroy(s, uk);
    }
    let before = count(s);
    w::eval(&format!("bad-unwrap/{}/{}/{}", what, wm.name, g.kt));
    match c::unwrap(ses, &m, uk, &d, &t) {
        Ok(h) => {
            let detail = format!("C_UnwrapKey({}) of {} ({}) by {} with {}: {} accepted (CKA_VALUE {:?})", m.show(), w::hx(&d), g.name, ut.show(), t.show(), what, c::attr(s, h, CKA_VALUE).map(|v| w::hx(&v)).map_err(rvn));
            if maybe {
                w::count("accepted-equal", 1);
            } else {
                w::viol(&tags, &format!("unwrap:bad-accepted:{}", what.replace(' ', "-")), &detail);
            }
            let _ = c::destroy(s, h);
        }
        Err(e) => {
            let a = count(s);
            if a != before {
                viol!(["P20", "P11"], "unwrap:refused-left-object", "C_UnwrapKey with {}: refused with {}, but {} objects became {}", what, rvn(e), before, a);
            }
        }
    }
    if let Some(h) = ro {
        let _ = c::close(h);
    }
    if !dead {
        let _ = c::destroy(s, uk);
    }
}
