//! Generators of cryptographic test cases with independently computed expectations, and
//! executors that run a case in one piece, in many pieces, or with hostile output buffers.
#![allow(dead_code)]
use crate::c::{self, *};
use crate::keys;
use crate::p11::*;
use crate::refc::{self, *};
use crate::w::{self, Rng};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Enc,
    Dec,
    Dig,
    Sign,
    Ver,
}
#[derive(Clone)]
pub enum Want {
    Bytes(Vec<u8>),
    Check(Arc<dyn Fn(&[u8]) -> bool>),
    /// verification must accept `sig`
    Accept,
}
#[derive(Clone)]
pub struct Case {
    pub kind: Kind,
    pub m: M,
    pub key: Option<T>,
    /// key of the opposite direction
    pub key2: Option<T>,
    pub input: Vec<u8>,
    pub sig: Vec<u8>,
    pub want: Want,
    /// supports update calls
    pub multi: bool,
    /// class of case for coverage
    pub class: String,
    /// AEAD parts when relevant (for tampering)
    pub aead: Option<Aead>,
    pub fam: &'static str,
}
#[derive(Clone)]
pub struct Aead {
    pub gcm: bool,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub aad: Vec<u8>,
    pub tlen: usize,
    pub dlen: usize,
}
impl Case {
    pub fn show(&self) -> String {
        format!("{:?} {} {} in={} sig={} key={}", self.kind, self.m.show(), self.class, w::hx(&self.input), w::hx(&self.sig), self.key.as_ref().map(|k| k.show()).unwrap_or_default())
    }
}
/// session key cache
pub struct Keys {
    map: HashMap<Vec<u8>, H>,
    order: Vec<(Vec<u8>, H)>,
    pub s: H,
}
impl Keys {
    pub fn new(s: H) -> Keys {
        Keys { map: HashMap::new(), order: vec![], s }
    }
    pub fn get(&mut self, t: &T) -> R<H> {
        let mut k = vec![];
        for (a, v) in &t.0 {
            k.extend(a.to_ne_bytes());
            k.extend((v.len() as u32).to_ne_bytes());
            k.extend(v);
        }
        if let Some(h) = self.map.get(&k).copied() {
            // most recently used last, so that a key just handed out is never evicted
            if let Some(i) = self.order.iter().position(|(_, x)| *x == h) {
                let e = self.order.remove(i);
                self.order.push(e);
            }
            return Ok(h);
        }
        if self.order.len() > 200 {
            for (k, h) in self.order.drain(..100) {
                let _ = c::destroy(self.s, h);
                self.map.remove(&k);
            }
        }
        let h = c::create(self.s, t)?;
        self.map.insert(k.clone(), h);
        self.order.push((k, h));
        Ok(h)
    }
}

// ---------- keys ----------
pub fn aes_key(v: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).v(CKA_VALUE, v).b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true).b(CKA_SIGN, true).b(CKA_VERIFY, true).b(CKA_WRAP, true).b(CKA_UNWRAP, true).b(CKA_DERIVE, true)
}
pub fn gen_key(v: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).v(CKA_VALUE, v).b(CKA_SIGN, true).b(CKA_VERIFY, true).b(CKA_DERIVE, true)
}
pub fn rsa_comp(i: usize) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let k = &keys::RSA[i];
    (w::unhex(k.n), w::unhex(k.e), w::unhex(k.d))
}
pub fn nrsa() -> usize {
    keys::RSA.len()
}
pub fn rsa_ref(i: usize) -> Rsa {
    let (n, e, d) = rsa_comp(i);
    Rsa { n, e, d }
}
pub fn rsa_priv(i: usize) -> T {
    let k = &keys::RSA[i];
    T::new()
        .u(CKA_CLASS, CKO_PRIVATE_KEY)
        .u(CKA_KEY_TYPE, CKK_RSA)
        .v(CKA_MODULUS, &w::unhex(k.n))
        .v(CKA_PUBLIC_EXPONENT, &w::unhex(k.e))
        .v(CKA_PRIVATE_EXPONENT, &w::unhex(k.d))
        .v(CKA_PRIME_1, &w::unhex(k.p))
        .v(CKA_PRIME_2, &w::unhex(k.q))
        .v(CKA_EXPONENT_1, &w::unhex(k.dp))
        .v(CKA_EXPONENT_2, &w::unhex(k.dq))
        .v(CKA_COEFFICIENT, &w::unhex(k.qi))
        .b(CKA_DECRYPT, true)
        .b(CKA_SIGN, true)
        .b(CKA_UNWRAP, true)
}
pub fn rsa_pub(i: usize) -> T {
    let k = &keys::RSA[i];
    T::new().u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_RSA).v(CKA_MODULUS, &w::unhex(k.n)).v(CKA_PUBLIC_EXPONENT, &w::unhex(k.e)).b(CKA_ENCRYPT, true).b(CKA_VERIFY, true).b(CKA_WRAP, true)
}
pub fn ec_priv_t(cv: Curve, d: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_EC).v(CKA_EC_PARAMS, cv.oid).v(CKA_VALUE, d).b(CKA_SIGN, true).b(CKA_DERIVE, true)
}
pub fn ec_pub_t(cv: Curve, pt: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_EC).v(CKA_EC_PARAMS, cv.oid).v(CKA_EC_POINT, &refc::der(4, pt)).b(CKA_VERIFY, true)
}
/// leading zero bytes, in classes
pub fn zeros(v: &[u8]) -> usize {
    match v.iter().take_while(|x| **x == 0).count() {
        n @ 0..=3 => n,
        n if n + 1 == v.len() => 99,
        n => 4 + n / 16,
    }
}
/// a scalar of any size, often with leading zero bytes and with either top bit after them
pub fn ec_scalar_any(cv: Curve, r: &mut Rng) -> Vec<u8> {
    let mut d = r.bytes(cv.len());
    if cv.bits == 521 {
        d[0] &= 1
    }
    let z = match r.below(6) {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 => r.range(2, 5),
        _ => r.range(1, cv.len() - 1),
    };
    d[..z].fill(0);
    if r.bool() {
        d[z] |= if cv.bits == 521 && z == 0 { 1 } else { 0x80 };
    }
    d
}
pub fn ec_scalar(cv: Curve, r: &mut Rng) -> Vec<u8> {
    let n = Bn::from(&ec_order(cv));
    loop {
        let mut d = r.bytes(cv.len());
        if cv.bits == 521 {
            d[0] &= 1
        }
        if r.chance(1, 16) {
            // short scalar with leading zero bytes
            let z = r.range(1, cv.len() - 2);
            d[..z].fill(0);
        }
        let b = Bn::from(&d);
        if b.bits() > 1 && b.cmp(&n) == std::cmp::Ordering::Less {
            return d;
        }
    }
}

// ---------- mechanism tables ----------
pub const DIGESTS: [(CK_ULONG, Hash); 11] = [(CKM_SHA_1, SHA1), (CKM_SHA224, SHA224), (CKM_SHA256, SHA256), (CKM_SHA384, SHA384), (CKM_SHA512, SHA512), (CKM_SHA512_224, SHA512_224), (CKM_SHA512_256, SHA512_256), (CKM_SHA3_224, SHA3_224), (CKM_SHA3_256, SHA3_256), (CKM_SHA3_384, SHA3_384), (CKM_SHA3_512, SHA3_512)];
pub const HMACS: [(CK_ULONG, CK_ULONG, Hash, CK_ULONG); 11] = [
    (CKM_SHA_1_HMAC, CKM_SHA_1_HMAC_GENERAL, SHA1, CKK_SHA_1_HMAC),
    (CKM_SHA224_HMAC, CKM_SHA224_HMAC_GENERAL, SHA224, CKK_SHA224_HMAC),
    (CKM_SHA256_HMAC, CKM_SHA256_HMAC_GENERAL, SHA256, CKK_SHA256_HMAC),
    (CKM_SHA384_HMAC, CKM_SHA384_HMAC_GENERAL, SHA384, CKK_SHA384_HMAC),
    (CKM_SHA512_HMAC, CKM_SHA512_HMAC_GENERAL, SHA512, CKK_SHA512_HMAC),
    (CKM_SHA512_224_HMAC, CKM_SHA512_224_HMAC_GENERAL, SHA512_224, CKK_SHA512_224_HMAC),
    (CKM_SHA512_256_HMAC, CKM_SHA512_256_HMAC_GENERAL, SHA512_256, CKK_SHA512_256_HMAC),
    (CKM_SHA3_224_HMAC, CKM_SHA3_224_HMAC_GENERAL, SHA3_224, CKK_SHA3_224_HMAC),
    (CKM_SHA3_256_HMAC, CKM_SHA3_256_HMAC_GENERAL, SHA3_256, CKK_SHA3_256_HMAC),
    (CKM_SHA3_384_HMAC, CKM_SHA3_384_HMAC_GENERAL, SHA3_384, CKK_SHA3_384_HMAC),
    (CKM_SHA3_512_HMAC, CKM_SHA3_512_HMAC_GENERAL, SHA3_512, CKK_SHA3_512_HMAC),
];
/// (PKCS#1 v1.5, PSS, ECDSA, plain digest mechanism, MGF, hash)
pub const SIGS: [(CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, Hash); 9] = [
    (CKM_SHA1_RSA_PKCS, CKM_SHA1_RSA_PKCS_PSS, CKM_ECDSA_SHA1, CKM_SHA_1, CKG_MGF1_SHA1, SHA1),
    (CKM_SHA224_RSA_PKCS, CKM_SHA224_RSA_PKCS_PSS, CKM_ECDSA_SHA224, CKM_SHA224, CKG_MGF1_SHA224, SHA224),
    (CKM_SHA256_RSA_PKCS, CKM_SHA256_RSA_PKCS_PSS, CKM_ECDSA_SHA256, CKM_SHA256, CKG_MGF1_SHA256, SHA256),
    (CKM_SHA384_RSA_PKCS, CKM_SHA384_RSA_PKCS_PSS, CKM_ECDSA_SHA384, CKM_SHA384, CKG_MGF1_SHA384, SHA384),
    (CKM_SHA512_RSA_PKCS, CKM_SHA512_RSA_PKCS_PSS, CKM_ECDSA_SHA512, CKM_SHA512, CKG_MGF1_SHA512, SHA512),
    (CKM_SHA3_224_RSA_PKCS, CKM_SHA3_224_RSA_PKCS_PSS, CKM_ECDSA_SHA3_224, CKM_SHA3_224, CKG_MGF1_SHA3_224, SHA3_224),
    (CKM_SHA3_256_RSA_PKCS, CKM_SHA3_256_RSA_PKCS_PSS, CKM_ECDSA_SHA3_256, CKM_SHA3_256, CKG_MGF1_SHA3_256, SHA3_256),
    (CKM_SHA3_384_RSA_PKCS, CKM_SHA3_384_RSA_PKCS_PSS, CKM_ECDSA_SHA3_384, CKM_SHA3_384, CKG_MGF1_SHA3_384, SHA3_384),
    (CKM_SHA3_512_RSA_PKCS, CKM_SHA3_512_RSA_PKCS_PSS, CKM_ECDSA_SHA3_512, CKM_SHA3_512, CKG_MGF1_SHA3_512, SHA3_512),
];

fn lclass(n: usize) -> String {
    match n {
        0 => "0".into(),
        1..=64 => format!("b{}r{}", n / 16, n % 16),
        _ => format!("L{}r{}", n.ilog2(), n % 16),
    }
}
pub fn gcm_m(iv: &[u8], aad: &[u8], tlen: usize) -> M {
    let (i, a) = (arc(iv), arc(aad));
    let p = CK_GCM_PARAMS { pIv: aptr(&i), ulIvLen: iv.len() as u64, ulIvBits: iv.len() as u64 * 8, pAAD: aptr(&a), ulAADLen: aad.len() as u64, ulTagBits: tlen as u64 * 8 };
    M::st(CKM_AES_GCM, &p, vec![i, a], &format!("iv={} aad={} tag={}", w::hx(iv), w::hx(aad), tlen))
}
pub fn ccm_m(nonce: &[u8], aad: &[u8], tlen: usize, dlen: usize) -> M {
    let (i, a) = (arc(nonce), arc(aad));
    let p = CK_CCM_PARAMS { ulDataLen: dlen as u64, pNonce: aptr(&i), ulNonceLen: nonce.len() as u64, pAAD: aptr(&a), ulAADLen: aad.len() as u64, ulMACLen: tlen as u64 };
    M::st(CKM_AES_CCM, &p, vec![i, a], &format!("nonce={} aad={} mac={} dlen={}", w::hx(nonce), w::hx(aad), tlen, dlen))
}
pub fn ctr_m(iv: &[u8], bits: usize) -> M {
    let mut p = CK_AES_CTR_PARAMS { ulCounterBits: bits as u64, cb: [0; 16] };
    p.cb.copy_from_slice(iv);
    M::st(CKM_AES_CTR, &p, vec![], &format!("bits={} cb={}", bits, w::hex(iv)))
}
pub fn pss_m(ty: CK_ULONG, hash: CK_ULONG, mgf: CK_ULONG, slen: usize) -> M {
    let p = CK_RSA_PKCS_PSS_PARAMS { hashAlg: hash, mgf, sLen: slen as u64 };
    M::st(ty, &p, vec![], &format!("hash={} mgf={:#x} slen={}", ckmn(hash), mgf, slen))
}
pub fn oaep_m(hash: CK_ULONG, mgf: CK_ULONG, label: &[u8]) -> M {
    let l = arc(label);
    let p = CK_RSA_PKCS_OAEP_PARAMS { hashAlg: hash, mgf, source: if label.is_empty() { 0 } else { 1 }, pSourceData: aptr(&l) as *mut _, ulSourceDataLen: label.len() as u64 };
    M::st(CKM_RSA_PKCS_OAEP, &p, vec![l], &format!("hash={} mgf={:#x} label={}", ckmn(hash), mgf, w::hx(label)))
}
pub fn keybytes(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[16usize, 24, 32]);
    r.bytes(n)
}

pub const AES_STREAM: [&str; 12] = ["ecb", "cbc", "cbcpad", "ctr", "gcm", "ccm", "cts", "ofb", "cfb8", "cfb1", "cfb128", "gcmlong"];
/// a random AES cipher case with its expected result
pub fn aes_case(r: &mut Rng, which: Option<&str>) -> Case {
    let name = which.map(|s| s.to_string()).unwrap_or_else(|| r.pick(&AES_STREAM).to_string());
    let name = name.as_str();
    let k = keybytes(r);
    let iv = if r.chance(1, 12) { vec![0xff; 16] } else { r.bytes(16) };
    let max = if r.chance(1, 20) { 20000 } else { 600 };
    let mut n = r.len(max);
    let (m, p, ct, multi, aead, fam): (M, Vec<u8>, Vec<u8>, bool, Option<Aead>, &'static str) = match name {
        "ecb" => {
            n &= !15;
            let p = r.bytes(n);
            let ct = refc::aes_ecb(&k, &p, true);
            (M::new(CKM_AES_ECB), p, ct, true, None, "ecb")
        }
        "cbc" => {
            n &= !15;
            let p = r.bytes(n);
            let ct = refc::cbc_enc(&k, &iv, &p);
            (M::raw(CKM_AES_CBC, &iv), p, ct, true, None, "cbc")
        }
        "cbcpad" => {
            let p = r.bytes(n);
            let ct = refc::cbc_enc(&k, &iv, &refc::pad7(&p));
            (M::raw(CKM_AES_CBC_PAD, &iv), p, ct, true, None, "cbcpad")
        }
        "ctr" => {
            let mut iv = iv.clone();
            let mut bits = if r.bool() { 128 } else { *r.pick(&[128usize, 64, 32, 16, 8, 12, 9, 20, 33, 100, 127]) };
            if r.chance(1, 3) {
                // close to the end of the counter space
                bits = *r.pick(&[8usize, 5, 6, 7, 9, 12, 16]);
            }
            if r.chance(1, 6) {
                let b = r.range(1, 128);
                bits = b;
                for i in 0..16 - b.div_ceil(8) {
                    iv[i] = r.next() as u8;
                }
            }
            // the module refuses to use the last counter value (the suite asserts that), never wraps
            if refc::ctr_room(&iv, bits) < 2 {
                iv[15] &= 0xf0;
                bits = bits.max(2);
                if refc::ctr_room(&iv, bits) < 2 {
                    iv = vec![0; 16];
                }
            }
            let room = refc::ctr_room(&iv, bits) - 1;
            if room < 100_000 {
                let lim = room as usize * 16;
                if n > lim || r.bool() {
                    n = if r.bool() { lim } else { lim.saturating_sub(r.us(33)) };
                }
            }
            let p = r.bytes(n);
            let ct = refc::ctr(&k, &iv, bits, &p);
            (ctr_m(&iv, bits), p, ct, true, None, "ctr")
        }
        "gcm" | "gcmlong" => {
            let ivl = *r.pick(&[12usize, 12, 12, 12, 1, 7, 8, 16, 13, 32, 60, 128]);
            let iv = r.bytes(ivl);
            let al = r.len(200);
            let aad = r.bytes(al);
            let tl = if r.bool() { 16 } else { *r.pick(&[4usize, 8, 12, 13, 14, 15, 16, 1, 2, 3, 5]) };
            if name == "gcmlong" {
                n = r.len(4000)
            }
            let p = r.bytes(n);
            let (ct, tag) = refc::gcm(&k, &iv, &aad, &p, true);
            let mut ct = ct;
            ct.extend_from_slice(&tag[..tl]);
            (gcm_m(&iv, &aad, tl), p, ct, true, Some(Aead { gcm: true, key: k.clone(), iv, aad, tlen: tl, dlen: n }), "gcm")
        }
        "ccm" => {
            let nl = r.range(7, 13);
            let nonce = r.bytes(nl);
            let al = r.len(200);
            let aad = r.bytes(al);
            let tl = *r.pick(&[4usize, 6, 8, 10, 12, 14, 16]);
            n = n.clamp(1, if nl == 13 { 65000 } else { 100_000 });
            let p = r.bytes(n);
            let (mut ct, tag) = refc::ccm(&k, &nonce, &aad, &p, tl, true);
            ct.extend_from_slice(&tag[..tl]);
            (ccm_m(&nonce, &aad, tl, n), p, ct, true, Some(Aead { gcm: false, key: k.clone(), iv: nonce, aad, tlen: tl, dlen: n }), "ccm")
        }
        "cts" => {
            n = n.max(16);
            let p = r.bytes(n);
            let ct = refc::cts_enc(&k, &iv, &p);
            (M::raw(CKM_AES_CTS, &iv), p, ct, false, None, "cts")
        }
        "ofb" => {
            let p = r.bytes(n);
            let ct = refc::ofb(&k, &iv, &p);
            (M::raw(CKM_AES_OFB, &iv), p, ct, true, None, "ofb")
        }
        "cfb8" => {
            let p = r.bytes(n);
            let ct = refc::cfb8(&k, &iv, &p, true);
            (M::raw(CKM_AES_CFB8, &iv), p, ct, true, None, "cfb8")
        }
        "cfb1" => {
            n = n.min(100);
            let p = r.bytes(n);
            let ct = refc::cfb1(&k, &iv, &p, true);
            (M::raw(CKM_AES_CFB1, &iv), p, ct, true, None, "cfb1")
        }
        "cfb128" => {
            let p = r.bytes(n);
            let ct = refc::cfb128(&k, &iv, &p, true);
            (M::raw(CKM_AES_CFB128, &iv), p, ct, true, None, "cfb128")
        }
        x => panic!("{}", x),
    };
    let enc = r.bool();
    let key = aes_key(&k);
    let class = format!("{} k{} {}{}", fam, k.len(), lclass(p.len()), match &aead {
        Some(a) => format!(" iv{} aad{} t{}", a.iv.len(), lclass(a.aad.len()), a.tlen),
        None => String::new(),
    });
    if enc {
        Case { kind: Kind::Enc, m, key: Some(key.clone()), key2: Some(key), input: p, sig: vec![], want: Want::Bytes(ct), multi, class, aead, fam }
    } else {
        Case { kind: Kind::Dec, m, key: Some(key.clone()), key2: Some(key), input: ct, sig: vec![], want: Want::Bytes(p), multi, class, aead, fam }
    }
}
/// AES key wrap used through C_Encrypt / C_Decrypt (one shot)
pub fn kw_case(r: &mut Rng) -> Case {
    let k = keybytes(r);
    let kwp = r.bool();
    let (m, p, ct);
    if kwp {
        let n = r.range(1, 80);
        p = r.bytes(n);
        if r.bool() {
            m = M::new(CKM_AES_KEY_WRAP_KWP);
            ct = refc::kwp(&k, &p, &[0xA6, 0x59, 0x59, 0xA6]);
        } else {
            let iv = r.bytes(4);
            m = M::raw(CKM_AES_KEY_WRAP_KWP, &iv);
            ct = refc::kwp(&k, &p, iv.as_slice().try_into().unwrap());
        }
    } else {
        let n = 8 * r.range(2, 12);
        p = r.bytes(n);
        if r.bool() {
            m = M::new(CKM_AES_KEY_WRAP);
            ct = refc::kw(&k, &p, &[0xA6; 8]);
        } else {
            let iv = r.bytes(8);
            m = M::raw(CKM_AES_KEY_WRAP, &iv);
            ct = refc::kw(&k, &p, iv.as_slice().try_into().unwrap());
        }
    }
    let key = aes_key(&k);
    let fam = if kwp { "kwp" } else { "kw" };
    let class = format!("{} k{} {} iv{}", fam, k.len(), p.len(), m.plen());
    let (kind, input, want) = if r.bool() { (Kind::Enc, p, ct) } else { (Kind::Dec, ct, p) };
    Case { kind, m, key: Some(key.clone()), key2: Some(key), input, sig: vec![], want: Want::Bytes(want), multi: false, class, aead: None, fam }
}
pub const OAEP_HASHES: [(CK_ULONG, CK_ULONG, Hash); 9] = [
    (CKM_SHA_1, CKG_MGF1_SHA1, SHA1),
    (CKM_SHA224, CKG_MGF1_SHA224, SHA224),
    (CKM_SHA256, CKG_MGF1_SHA256, SHA256),
    (CKM_SHA384, CKG_MGF1_SHA384, SHA384),
    (CKM_SHA512, CKG_MGF1_SHA512, SHA512),
    (CKM_SHA3_224, CKG_MGF1_SHA3_224, SHA3_224),
    (CKM_SHA3_256, CKG_MGF1_SHA3_256, SHA3_256),
    (CKM_SHA3_384, CKG_MGF1_SHA3_384, SHA3_384),
    (CKM_SHA3_512, CKG_MGF1_SHA3_512, SHA3_512),
];
/// usable fixed RSA keys (index into keys::RSA)
pub fn rsa_index(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 1, 2, 3, 4, 2, 0])
}
/// RSA encryption and decryption
pub fn rsa_enc_case(r: &mut Rng) -> Case {
    let i = rsa_index(r);
    let key = rsa_ref(i);
    let k = key.k();
    let enc = r.bool();
    let (m, p, em, fam): (M, Vec<u8>, Vec<u8>, &'static str);
    let un: Arc<dyn Fn(&[u8]) -> Option<Vec<u8>>>;
    match r.below(3) {
        0 => {
            fam = "rsa-pkcs-enc";
            m = M::new(CKM_RSA_PKCS);
            let n = match r.below(4) {
                0 => k - 11,
                1 => 0,
                _ => r.range(1, k - 11),
            };
            p = r.bytes(n);
            em = refc::pkcs1_t2(k, &p, r);
            un = Arc::new(refc::pkcs1_t2_un);
        }
        1 => {
            fam = "rsa-oaep";
            let (hm, _, h) = loop {
                let x = *r.pick(&OAEP_HASHES);
                if 2 * x.2.len + 2 <= k {
                    break x;
                }
            };
            let (_, mg, mh) = *r.pick(&OAEP_HASHES);
            let lab = if r.bool() {
                vec![]
            } else {
                let n = r.range(1, 40);
                r.bytes(n)
            };
            m = oaep_m(hm, mg, &lab);
            let room = k - 2 * h.len - 2;
            let n = match r.below(4) {
                0 => room,
                1 => 0,
                _ => r.us(room + 1),
            };
            p = r.bytes(n);
            let seed = r.bytes(h.len);
            em = refc::oaep(k, h, mh, &lab, &p, &seed);
            un = Arc::new(move |x| refc::oaep_un(x, h, mh, &lab));
        }
        _ => {
            fam = "rsa-x509-enc";
            m = M::new(CKM_RSA_X_509);
            // any number below the modulus, given in at most k bytes
            let mut x = r.bytes(k);
            x[0] = 0;
            if keys::RSA[i].bits % 8 != 0 {
                x[1] &= 0x1f;
            }
            if false && enc {
                let z = r.range(1, k - 1);
                x = x[z..].to_vec();
            }
            let mut e = vec![0; k - x.len()];
            e.extend_from_slice(&x);
            p = x;
            em = e;
            un = Arc::new(|x| Some(x.to_vec()));
        }
    }
    let class = format!("{} b{} n{}", fam, keys::RSA[i].bits, lclass(p.len()));
    if enc {
        let pp = if fam == "rsa-x509-enc" { em.clone() } else { p.clone() };
        let kk = key.clone();
        let want = Want::Check(Arc::new(move |ct: &[u8]| ct.len() == k && un(&kk.privop(ct)).as_deref() == Some(&pp[..])));
        Case { kind: Kind::Enc, m, key: Some(rsa_pub(i)), key2: Some(rsa_priv(i)), input: p, sig: vec![], want, multi: false, class, aead: None, fam }
    } else {
        let ct = key.pubop(&em);
        Case { kind: Kind::Dec, m, key: Some(rsa_priv(i)), key2: Some(rsa_pub(i)), input: ct, sig: vec![], want: Want::Bytes(p), multi: false, class, aead: None, fam }
    }
}
pub fn digest_case(r: &mut Rng) -> Case {
    let (m, h) = *r.pick(&DIGESTS);
    let max = if r.chance(1, 30) { 100_000 } else { 700 };
    let n = r.len(max);
    let d = r.bytes(n);
    let out = refc::hash(h, &d);
    Case { kind: Kind::Dig, m: M::new(m), key: None, key2: None, input: d, sig: vec![], want: Want::Bytes(out), multi: true, class: format!("{} {}", h.name, if n < 300 { format!("{}", n % h.block) } else { lclass(n) }), aead: None, fam: "digest" }
}
/// HMAC, CMAC, AES MAC: sign or verify
pub fn mac_case(r: &mut Rng) -> Case {
    let n = r.len(600);
    let d = r.bytes(n);
    let (m, key, mac, class, fam): (M, T, Vec<u8>, String, &'static str);
    match r.below(6) {
        5 => {
            let (pm, h) = *r.pick(&DIGESTS);
            let kl = r.range(14, 100);
            let kb = r.bytes(kl);
            let l = match r.below(4) {
                0 | 1 => 12,
                2 => r.range(1, 40),
                _ => r.range(1, 200),
            };
            let server = r.bool();
            let p = CK_TLS_MAC_PARAMS { prfHashMechanism: pm, ulMacLength: l as u64, ulServerOrClient: if server { 1 } else { 2 } };
            m = M::st(if r.bool() { CKM_TLS_MAC } else { CKM_TLS12_MAC }, &p, vec![], &format!("{} {} {}", h.name, l, if server { "server" } else { "client" }));
            mac = refc::tls12_prf(h, &kb, if server { b"server finished" } else { b"client finished" }, &d, l);
            key = gen_key(&kb);
            fam = "tls-mac";
            class = format!("{} {} s{} n{} t{}", fam, h.name, server, lclass(n), l);
        }
        0..=2 => {
            let (mp, mg, h, kt) = *r.pick(&HMACS);
            let min = 14;
            let kl = match r.below(4) {
                0 => h.block,
                1 => h.block + 1,
                2 => h.len,
                _ => r.range(min, 200),
            };
            let kb = r.bytes(kl);
            let full = refc::hmac(h, &kb, &d);
            let mut t = gen_key(&kb);
            // keys of the hash specific types have the size of the hash
            if kl == h.len {
                t = t.setu(CKA_KEY_TYPE, kt);
            }
            key = t;
            if r.bool() {
                m = M::new(mp);
                mac = full;
                fam = "hmac";
            } else {
                let l = if r.bool() { h.len } else { r.range(1, h.len) };
                m = M::raw(mg, &(l as u64).to_ne_bytes());
                mac = full[..l].to_vec();
                fam = "hmac-general";
            }
            class = format!("{} {} k{} n{} t{}", fam, h.name, kl.cmp(&h.block) as i32, lclass(n), mac.len());
        }
        3 => {
            let kb = keybytes(r);
            let full = refc::cmac(&kb, &d);
            key = aes_key(&kb);
            if r.bool() {
                m = M::new(CKM_AES_CMAC);
                mac = full;
                fam = "cmac";
            } else {
                let l = r.range(1, 16);
                m = M::raw(CKM_AES_CMAC_GENERAL, &(l as u64).to_ne_bytes());
                mac = full[..l].to_vec();
                fam = "cmac-general";
            }
            class = format!("{} k{} n{} t{}", fam, kb.len(), lclass(n), mac.len());
        }
        _ => {
            let kb = keybytes(r);
            let d = if d.is_empty() { vec![7] } else { d.clone() };
            let full = refc::cbcmac(&kb, &d);
            key = aes_key(&kb);
            if r.bool() {
                m = M::new(CKM_AES_MAC);
                mac = full[..8].to_vec();
                fam = "aesmac";
            } else {
                let l = r.range(1, 16);
                m = M::raw(CKM_AES_MAC_GENERAL, &(l as u64).to_ne_bytes());
                mac = full[..l].to_vec();
                fam = "aesmac-general";
            }
            class = format!("{} k{} n{} t{}", fam, kb.len(), lclass(d.len()), mac.len());
            return macfin(r, m, key, d, mac, class, fam);
        }
    }
    macfin(r, m, key, d, mac, class, fam)
}
fn macfin(r: &mut Rng, m: M, key: T, d: Vec<u8>, mac: Vec<u8>, class: String, fam: &'static str) -> Case {
    if r.bool() {
        Case { kind: Kind::Sign, m, key: Some(key.clone()), key2: Some(key), input: d, sig: vec![], want: Want::Bytes(mac), multi: true, class, aead: None, fam }
    } else {
        Case { kind: Kind::Ver, m, key: Some(key.clone()), key2: Some(key), input: d, sig: mac, want: Want::Accept, multi: true, class, aead: None, fam }
    }
}
/// asymmetric signatures
pub fn sig_case(r: &mut Rng) -> Case {
    let n = r.len(400);
    let mut d = r.bytes(n);
    let sg = *r.pick(&SIGS);
    let sign = r.bool();
    let (m, check, multi, fam): (M, Arc<dyn Fn(&[u8]) -> bool>, bool, &'static str);
    let (mut prv, mut pb, mut sig, mut class): (T, T, Vec<u8>, String);
    match r.below(6) {
        0 => {
            // PKCS#1 v1.5 over a caller supplied digest info or any data
            let i = rsa_index(r);
            let key = rsa_ref(i);
            let k = key.k();
            let n = match r.below(3) {
                0 => k - 11,
                1 => 1 + r.us(k - 11),
                _ => 35,
            };
            d = r.bytes(n);
            let em = refc::pkcs1_t1(k, &d).unwrap();
            sig = key.privop(&em);
            fam = "rsa-pkcs";
            m = M::new(CKM_RSA_PKCS);
            let want = sig.clone();
            check = Arc::new(move |s| s == &want[..]);
            multi = false;
            class = format!("{} b{} n{}", fam, keys::RSA[i].bits, lclass(n));
            prv = rsa_priv(i);
            pb = rsa_pub(i);
        }
        1 => {
            let i = rsa_index(r);
            let key = rsa_ref(i);
            let k = key.k();
            let mut t = refc::digestinfo(sg.5);
            t.extend(refc::hash(sg.5, &d));
            let em = refc::pkcs1_t1(k, &t).unwrap();
            sig = key.privop(&em);
            fam = "hash-rsa-pkcs";
            m = M::new(sg.0);
            let want = sig.clone();
            check = Arc::new(move |s| s == &want[..]);
            multi = true;
            class = format!("{} {} b{} n{}", fam, sg.5.name, keys::RSA[i].bits, lclass(n));
            prv = rsa_priv(i);
            pb = rsa_pub(i);
        }
        2 | 3 => {
            let i = rsa_index(r);
            let key = rsa_ref(i);
            let bits = keys::RSA[i].bits;
            let plain = r.chance(1, 4);
            let h = sg.5;
            // the mask generation hash may differ from the message hash
            let mg = if r.chance(1, 3) { *r.pick(&SIGS) } else { sg };
            let emlen = (bits - 1).div_ceil(8);
            let room = emlen - 2 - h.len.min(emlen - 2);
            if emlen < h.len + 2 {
                return sig_case(r);
            }
            let slen = match r.below(4) {
                0 => 0,
                1 => room,
                2 => h.len.min(room),
                _ => r.us(room + 1),
            };
            let mh = refc::hash(h, &d);
            if plain {
                d = mh.clone();
            }
            let salt = r.bytes(slen);
            let em = match refc::pss_encode(bits, h, mg.5, &mh, &salt) {
                Some(e) => e,
                None => return sig_case(r),
            };
            sig = key.privop(&em);
            fam = if plain { "pss" } else { "hash-pss" };
            m = pss_m(if plain { CKM_RSA_PKCS_PSS } else { sg.1 }, sg.3, mg.4, slen);
            let kk = key.clone();
            let k = key.k();
            check = Arc::new(move |s| {
                if s.len() != k {
                    return false;
                }
                let e = kk.pubop(s);
                refc::pss_verify(bits, h, mg.5, &mh, slen, &e[k - emlen..]) && e[..k - emlen].iter().all(|x| *x == 0)
            });
            multi = !plain;
            class = format!("{} {} mgf{} b{} s{}", fam, h.name, mg.5.name, bits, if slen == 0 { "0" } else if slen == room { "max" } else { "mid" });
            prv = rsa_priv(i);
            pb = rsa_pub(i);
        }
        4 => {
            let cv = *r.pick(&CURVES);
            let x = ec_scalar(cv, r);
            let pt = refc::ec_mul(cv, &x, None).unwrap();
            let plain = r.chance(1, 3);
            let h = sg.5;
            let dig = if plain {
                let n = if r.bool() { h.len } else { r.range(1, 64) };
                d = r.bytes(n);
                d.clone()
            } else {
                refc::hash(h, &d)
            };
            sig = refc::ecdsa_sign(cv, &x, &dig);
            fam = if plain { "ecdsa" } else { "hash-ecdsa" };
            m = M::new(if plain { CKM_ECDSA } else { sg.2 });
            let p2 = pt.clone();
            check = Arc::new(move |s| refc::ecdsa_verify(cv, &p2, &dig, s));
            multi = !plain;
            class = format!("{} {} {} {}", fam, cv.name, if plain { format!("n{}", d.len()) } else { h.name.into() }, lclass(n));
            prv = ec_priv_t(cv, &x);
            pb = ec_pub_t(cv, &pt);
            if !sign && r.chance(1, 3) {
                // r and s of any size: the public key is made to fit
                let dg = if plain { d.clone() } else { refc::hash(h, &d) };
                let (mut a, mut b, mut got) = (vec![], vec![], None);
                for _ in 0..64 {
                    a = ec_scalar_any(cv, r);
                    b = ec_scalar_any(cv, r);
                    got = refc::ecdsa_craft(cv, &a, &b, &dg);
                    if got.is_some() {
                        break;
                    }
                }
                if let Some((q, sg2)) = got {
                    sig = sg2;
                    class = format!("{} made {} {} r{} s{}", fam, cv.name, h.name, zeros(&a), zeros(&b));
                    pb = ec_pub_t(cv, &q);
                    prv = pb.clone();
                }
            }
        }
        _ => {
            let i = rsa_index(r);
            let key = rsa_ref(i);
            let k = key.k();
            let mut x = r.bytes(k);
            x[0] = 0;
            if keys::RSA[i].bits % 8 != 0 {
                x[1] &= 0x1f;
            }
            if r.chance(1, 4) {
                // a signature that is a small number
                let z = r.range(1, k - 1);
                x[..z].fill(0);
                x[k - 1] |= 2;
                d = key.pubop(&x);
            } else {
                d = x;
            }
            sig = key.privop(&d);
            fam = "rsa-x509";
            m = M::new(CKM_RSA_X_509);
            let want = sig.clone();
            check = Arc::new(move |s| s == &want[..]);
            multi = false;
            class = format!("{} b{}", fam, keys::RSA[i].bits);
            prv = rsa_priv(i);
            pb = rsa_pub(i);
        }
    }
    if sign {
        Case { kind: Kind::Sign, m, key: Some(prv), key2: Some(pb), input: d, sig, want: Want::Check(check), multi, class, aead: None, fam }
    } else {
        Case { kind: Kind::Ver, m, key: Some(pb), key2: Some(prv), input: d, sig, want: Want::Accept, multi, class, aead: None, fam }
    }
}
pub fn any_case(r: &mut Rng) -> Case {
    match r.below(12) {
        0..=4 => aes_case(r, None),
        5 => kw_case(r),
        6 => rsa_enc_case(r),
        7 => digest_case(r),
        8 | 9 => mac_case(r),
        _ => sig_case(r),
    }
}

// ---------- executors ----------
pub fn init(s: H, cs: &Case, k: H) -> R<()> {
    match cs.kind {
        Kind::Enc => c::encrypt_init(s, &cs.m, k),
        Kind::Dec => c::decrypt_init(s, &cs.m, k),
        Kind::Dig => c::digest_init(s, &cs.m),
        Kind::Sign => c::sign_init(s, &cs.m, k),
        Kind::Ver => c::verify_init(s, &cs.m, k),
    }
}
pub fn one_o(s: H, cs: &Case, d: &[u8], cap: Option<usize>) -> Out {
    match cs.kind {
        Kind::Enc => c::encrypt_o(s, d, cap),
        Kind::Dec => c::decrypt_o(s, d, cap),
        Kind::Dig => c::digest_o(s, d, cap),
        Kind::Sign => c::sign_o(s, d, cap),
        Kind::Ver => {
            let rv = rvof(&c::verify(s, d, &cs.sig));
            Out { rv, len: 0, buf: vec![], cap }
        }
    }
}
pub fn upd_o(s: H, cs: &Case, d: &[u8], cap: Option<usize>) -> Out {
    let rv = match cs.kind {
        Kind::Enc => return c::encrypt_update_o(s, d, cap),
        Kind::Dec => return c::decrypt_update_o(s, d, cap),
        Kind::Dig => rvof(&c::digest_update(s, d)),
        Kind::Sign => rvof(&c::sign_update(s, d)),
        Kind::Ver => rvof(&c::verify_update(s, d)),
    };
    Out { rv, len: 0, buf: vec![], cap }
}
pub fn fin_o(s: H, cs: &Case, cap: Option<usize>) -> Out {
    match cs.kind {
        Kind::Enc => c::encrypt_final_o(s, cap),
        Kind::Dec => c::decrypt_final_o(s, cap),
        Kind::Dig => c::digest_final_o(s, cap),
        Kind::Sign => c::sign_final_o(s, cap),
        Kind::Ver => {
            let rv = rvof(&c::verify_final(s, &cs.sig));
            Out { rv, len: 0, buf: vec![], cap }
        }
    }
}
pub fn flag(k: Kind) -> CK_FLAGS {
    match k {
        Kind::Enc => CKF_ENCRYPT,
        Kind::Dec => CKF_DECRYPT,
        Kind::Dig => CKF_DIGEST,
        Kind::Sign => CKF_SIGN,
        Kind::Ver => CKF_VERIFY,
    }
}
/// upper bound for the output of a case
pub fn room(cs: &Case) -> usize {
    cs.input.len() + 600
}
pub fn run_one(s: H, cs: &Case, k: H) -> R<Vec<u8>> {
    init(s, cs, k)?;
    one_o(s, cs, &cs.input, Some(room(cs))).val()
}
pub fn run_multi(s: H, cs: &Case, k: H, split: &[usize]) -> R<Vec<u8>> {
    init(s, cs, k)?;
    let mut out = vec![];
    let mut p = 0;
    for n in split {
        out.extend(upd_o(s, cs, &cs.input[p..p + n], Some(if cs.fam == "ccm" { room(cs) } else { n + 64 })).val()?);
        p += n;
    }
    out.extend(fin_o(s, cs, Some(room(cs))).val()?);
    Ok(out)
}
pub fn good(cs: &Case, got: &R<Vec<u8>>) -> bool {
    match (got, &cs.want) {
        (Ok(v), Want::Bytes(b)) => v == b,
        (Ok(v), Want::Check(f)) => f(v),
        (Ok(_), Want::Accept) => true,
        _ => false,
    }
}
pub fn showr(r: &R<Vec<u8>>) -> String {
    match r {
        Ok(v) => format!("OK {} ({} bytes)", w::hx(v), v.len()),
        Err(e) => rvn(*e),
    }
}
pub fn showw(cs: &Case) -> String {
    match &cs.want {
        Want::Bytes(b) => format!("{} ({} bytes)", w::hx(b), b.len()),
        Want::Check(_) => "a value accepted by the reference implementation".into(),
        Want::Accept => "acceptance".into(),
    }
}
/// end whatever operation of this kind is still active
pub fn reset(s: H, k: Kind) {
    let _ = c::session_cancel(s, flag(k));
}
