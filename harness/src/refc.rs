//! Reference cryptography used as the oracle. Modes, MACs, KDFs, paddings and encodings are
//! written here from the standards; libcrypto (called directly, not through the code under
//! test) supplies only the AES block, hash functions, big-number and elliptic-curve arithmetic.
#![allow(dead_code)]
use std::ffi::{c_char, c_int, c_long, c_uchar, c_ulong, c_void, CString};
use std::ptr::{null, null_mut};

type P = *mut c_void;
#[link(name = "crypto")]
extern "C" {
    fn EVP_CIPHER_CTX_new() -> P;
    fn EVP_CIPHER_CTX_free(c: P);
    fn EVP_get_cipherbyname(n: *const c_char) -> P;
    fn EVP_CipherInit_ex(c: P, t: P, e: P, k: *const c_uchar, iv: *const c_uchar, enc: c_int) -> c_int;
    fn EVP_CIPHER_CTX_set_padding(c: P, p: c_int) -> c_int;
    fn EVP_CipherUpdate(c: P, o: *mut c_uchar, ol: *mut c_int, i: *const c_uchar, il: c_int) -> c_int;
    fn EVP_get_digestbyname(n: *const c_char) -> P;
    fn EVP_Digest(d: *const c_void, n: usize, md: *mut c_uchar, l: *mut u32, t: P, e: P) -> c_int;
    fn BN_new() -> P;
    fn BN_free(b: P);
    fn BN_CTX_new() -> P;
    fn BN_CTX_free(b: P);
    fn BN_bin2bn(s: *const c_uchar, l: c_int, r: P) -> P;
    fn BN_bn2binpad(b: P, to: *mut c_uchar, l: c_int) -> c_int;
    fn BN_num_bits(b: P) -> c_int;
    fn BN_mod_exp(r: P, a: P, p: P, m: P, c: P) -> c_int;
    fn BN_mul(r: P, a: P, b: P, c: P) -> c_int;
    fn BN_div(q: P, r: P, a: P, b: P, c: P) -> c_int;
    fn BN_sub(r: P, a: P, b: P) -> c_int;
    fn BN_add(r: P, a: P, b: P) -> c_int;
    fn BN_cmp(a: P, b: P) -> c_int;
    fn BN_gcd(r: P, a: P, b: P, c: P) -> c_int;
    fn BN_mod_inverse(r: P, a: P, n: P, c: P) -> P;
    fn BN_check_prime(p: P, c: P, cb: P) -> c_int;
    fn d2i_AutoPrivateKey(a: P, pp: *mut *const c_uchar, l: c_long) -> P;
    fn d2i_PUBKEY(a: P, pp: *mut *const c_uchar, l: c_long) -> P;
    fn EVP_PKEY_free(p: P);
    fn EVP_PKEY_new_raw_private_key(t: c_int, e: P, k: *const c_uchar, l: usize) -> P;
    fn EVP_PKEY_new_raw_public_key(t: c_int, e: P, k: *const c_uchar, l: usize) -> P;
    fn EVP_PKEY_get_raw_public_key(p: P, k: *mut c_uchar, l: *mut usize) -> c_int;
    fn EVP_PKEY_CTX_new(p: P, e: P) -> P;
    fn EVP_PKEY_CTX_free(p: P);
    fn EVP_PKEY_sign_init(c: P) -> c_int;
    fn EVP_PKEY_sign(c: P, s: *mut c_uchar, l: *mut usize, d: *const c_uchar, dl: usize) -> c_int;
    fn EVP_PKEY_verify_init(c: P) -> c_int;
    fn EVP_PKEY_verify(c: P, s: *const c_uchar, l: usize, d: *const c_uchar, dl: usize) -> c_int;
    fn EVP_MD_CTX_new() -> P;
    fn EVP_MD_CTX_free(c: P);
    fn EVP_DigestSignInit(c: P, pc: P, t: P, e: P, k: P) -> c_int;
    fn EVP_DigestSign(c: P, s: *mut c_uchar, l: *mut usize, d: *const c_uchar, n: usize) -> c_int;
    fn EVP_DigestVerifyInit(c: P, pc: P, t: P, e: P, k: P) -> c_int;
    fn EVP_DigestVerify(c: P, s: *const c_uchar, l: usize, d: *const c_uchar, n: usize) -> c_int;
    fn EVP_PKEY_derive_init(c: P) -> c_int;
    fn EVP_PKEY_derive_set_peer(c: P, p: P) -> c_int;
    fn EVP_PKEY_derive(c: P, k: *mut c_uchar, l: *mut usize) -> c_int;
    fn EVP_PKEY_pairwise_check(c: P) -> c_int;
    fn EVP_PKEY_public_check(c: P) -> c_int;
    fn EC_GROUP_new_by_curve_name(n: c_int) -> P;
    fn EC_GROUP_free(g: P);
    fn EC_POINT_new(g: P) -> P;
    fn EC_POINT_free(p: P);
    fn EC_POINT_mul(g: P, r: P, n: P, q: P, m: P, c: P) -> c_int;
    fn EC_POINT_oct2point(g: P, p: P, b: *const c_uchar, l: usize, c: P) -> c_int;
    fn EC_POINT_point2oct(g: P, p: P, f: c_int, b: *mut c_uchar, l: usize, c: P) -> usize;
    fn EC_POINT_is_on_curve(g: P, p: P, c: P) -> c_int;
    fn EC_GROUP_get0_order(g: P) -> P;
    fn ERR_clear_error();
}

// ---------- AES ----------
pub fn aes_ecb(key: &[u8], d: &[u8], enc: bool) -> Vec<u8> {
    let n = CString::new(format!("aes-{}-ecb", key.len() * 8)).unwrap();
    unsafe {
        let c = EVP_CIPHER_CTX_new();
        let t = EVP_get_cipherbyname(n.as_ptr());
        assert!(!t.is_null());
        assert_eq!(EVP_CipherInit_ex(c, t, null_mut(), key.as_ptr(), null(), enc as c_int), 1);
        EVP_CIPHER_CTX_set_padding(c, 0);
        let mut o = vec![0u8; d.len() + 16];
        let mut l: c_int = 0;
        assert_eq!(EVP_CipherUpdate(c, o.as_mut_ptr(), &mut l, d.as_ptr(), d.len() as c_int), 1);
        EVP_CIPHER_CTX_free(c);
        assert_eq!(l as usize, d.len());
        o.truncate(d.len());
        o
    }
}
/// AES block function with the key schedule kept
pub struct Blk {
    c: P,
}
impl Blk {
    pub fn new(key: &[u8], enc: bool) -> Blk {
        let n = CString::new(format!("aes-{}-ecb", key.len() * 8)).unwrap();
        unsafe {
            let c = EVP_CIPHER_CTX_new();
            let t = EVP_get_cipherbyname(n.as_ptr());
            assert_eq!(EVP_CipherInit_ex(c, t, null_mut(), key.as_ptr(), null(), enc as c_int), 1);
            EVP_CIPHER_CTX_set_padding(c, 0);
            Blk { c }
        }
    }
    pub fn b(&self, i: &[u8]) -> [u8; 16] {
        assert_eq!(i.len(), 16);
        let mut o = [0u8; 32];
        let mut l: c_int = 0;
        unsafe { assert_eq!(EVP_CipherUpdate(self.c, o.as_mut_ptr(), &mut l, i.as_ptr(), 16), 1) };
        assert_eq!(l, 16);
        o[..16].try_into().unwrap()
    }
}
impl Drop for Blk {
    fn drop(&mut self) {
        unsafe { EVP_CIPHER_CTX_free(self.c) }
    }
}
fn xor(a: &mut [u8], b: &[u8]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x ^= *y
    }
}
pub fn cbc_enc(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let b = Blk::new(key, true);
    let mut p: [u8; 16] = iv.try_into().unwrap();
    let mut o = vec![];
    for c in d.chunks(16) {
        xor(&mut p, c);
        p = b.b(&p);
        o.extend_from_slice(&p);
    }
    o
}
pub fn cbc_dec(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let b = Blk::new(key, false);
    let mut p = iv.to_vec();
    let mut o = vec![];
    for c in d.chunks(16) {
        let mut x = b.b(c);
        xor(&mut x, &p);
        o.extend_from_slice(&x);
        p = c.to_vec();
    }
    o
}
pub fn pad7(d: &[u8]) -> Vec<u8> {
    let n = 16 - d.len() % 16;
    let mut v = d.to_vec();
    v.extend(vec![n as u8; n]);
    v
}
pub fn unpad7(d: &[u8]) -> Option<Vec<u8>> {
    let n = *d.last()? as usize;
    if n == 0 || n > 16 || n > d.len() || d[d.len() - n..].iter().any(|x| *x as usize != n) {
        return None;
    }
    Some(d[..d.len() - n].to_vec())
}
/// CTR with a counter of `bits` low bits of the block
pub fn ctr(key: &[u8], iv: &[u8], bits: usize, d: &[u8]) -> Vec<u8> {
    let b = Blk::new(key, true);
    let start = u128::from_be_bytes(iv.try_into().unwrap());
    let mask: u128 = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut o = d.to_vec();
    for (i, c) in o.chunks_mut(16).enumerate() {
        let x = (start & !mask) | (start.wrapping_add(i as u128) & mask);
        let k = b.b(&x.to_be_bytes());
        xor(c, &k);
    }
    o
}
/// blocks until the counter would repeat a value
pub fn ctr_room(iv: &[u8], bits: usize) -> u128 {
    let start = u128::from_be_bytes(iv.try_into().unwrap());
    if bits >= 128 {
        return u128::MAX;
    }
    let m = 1u128 << bits;
    m - (start & (m - 1))
}
pub fn ofb(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let b = Blk::new(key, true);
    let mut p: [u8; 16] = iv.try_into().unwrap();
    let mut o = d.to_vec();
    for c in o.chunks_mut(16) {
        p = b.b(&p);
        xor(c, &p);
    }
    o
}
pub fn cfb128(key: &[u8], iv: &[u8], d: &[u8], enc: bool) -> Vec<u8> {
    let b = Blk::new(key, true);
    let mut p: [u8; 16] = iv.try_into().unwrap();
    let mut o = vec![];
    for c in d.chunks(16) {
        let k = b.b(&p);
        let mut x = c.to_vec();
        xor(&mut x, &k);
        let ct = if enc { x.clone() } else { c.to_vec() };
        if ct.len() == 16 {
            p = ct.try_into().unwrap();
        }
        o.extend_from_slice(&x);
    }
    o
}
pub fn cfb8(key: &[u8], iv: &[u8], d: &[u8], enc: bool) -> Vec<u8> {
    let b = Blk::new(key, true);
    let mut p = iv.to_vec();
    let mut o = vec![];
    for c in d {
        let k = b.b(&p);
        let x = c ^ k[0];
        p.remove(0);
        p.push(if enc { x } else { *c });
        o.push(x);
    }
    o
}
pub fn cfb1(key: &[u8], iv: &[u8], d: &[u8], enc: bool) -> Vec<u8> {
    let b = Blk::new(key, true);
    let mut p = u128::from_be_bytes(iv.try_into().unwrap());
    let mut o = vec![];
    for c in d {
        let mut r = 0u8;
        for i in (0..8).rev() {
            let k = b.b(&p.to_be_bytes())[0] >> 7;
            let bit = (c >> i) & 1;
            let x = bit ^ k;
            r |= x << i;
            p = (p << 1) | (if enc { x } else { bit }) as u128;
        }
        o.push(r);
    }
    o
}
/// CBC-CS1 (SP 800-38A addendum)
pub fn cts_enc(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let n = d.len();
    let r = n % 16;
    if r == 0 {
        return cbc_enc(key, iv, d);
    }
    let mut p = d.to_vec();
    p.resize(n + 16 - r, 0);
    let c = cbc_enc(key, iv, &p);
    let m = c.len();
    // C1 .. C(n-1)* (r bytes) Cn
    let mut o = c[..m - 32].to_vec();
    o.extend_from_slice(&c[m - 32..m - 32 + r]);
    o.extend_from_slice(&c[m - 16..]);
    o
}
pub fn cts_dec(key: &[u8], iv: &[u8], d: &[u8]) -> Vec<u8> {
    let n = d.len();
    let r = n % 16;
    if r == 0 {
        return cbc_dec(key, iv, d);
    }
    let full = n - r - 16; // bytes of complete leading blocks
    let cn1s = &d[full..full + r];
    let cn = &d[full + r..];
    let z = Blk::new(key, false).b(cn);
    // Cn = E(Pn||0 xor Cn-1), so D(Cn) = (Pn||0) xor Cn-1
    let mut cn1 = z;
    cn1[..r].copy_from_slice(cn1s);
    let mut pn = z[..r].to_vec();
    xor(&mut pn, cn1s);
    let mut lead = d[..full].to_vec();
    lead.extend_from_slice(&cn1);
    let mut o = cbc_dec(key, iv, &lead);
    o.extend_from_slice(&pn);
    o
}
fn gmul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        let l = v & 1;
        v >>= 1;
        if l == 1 {
            v ^= 0xe1u128 << 120;
        }
    }
    z
}
fn ghash(h: u128, d: &[u8]) -> u128 {
    let mut y = 0u128;
    for c in d.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        y = gmul(y ^ u128::from_be_bytes(b), h);
    }
    y
}
fn pad16(v: &mut Vec<u8>) {
    while v.len() % 16 != 0 {
        v.push(0)
    }
}
/// ciphertext and full 16 byte tag
pub fn gcm(key: &[u8], iv: &[u8], aad: &[u8], d: &[u8], enc: bool) -> (Vec<u8>, Vec<u8>) {
    let b = Blk::new(key, true);
    let h = u128::from_be_bytes(b.b(&[0u8; 16]));
    let j0: [u8; 16] = if iv.len() == 12 {
        let mut x = [0u8; 16];
        x[..12].copy_from_slice(iv);
        x[15] = 1;
        x
    } else {
        let mut v = iv.to_vec();
        pad16(&mut v);
        v.extend_from_slice(&[0u8; 8]);
        v.extend_from_slice(&((iv.len() as u64) * 8).to_be_bytes());
        ghash(h, &v).to_be_bytes()
    };
    let mut start = j0;
    let c = u32::from_be_bytes(start[12..].try_into().unwrap()).wrapping_add(1);
    start[12..].copy_from_slice(&c.to_be_bytes());
    let o = ctr(key, &start, 32, d);
    let ct = if enc { &o } else { d };
    let mut v = aad.to_vec();
    pad16(&mut v);
    v.extend_from_slice(ct);
    pad16(&mut v);
    v.extend_from_slice(&((aad.len() as u64) * 8).to_be_bytes());
    v.extend_from_slice(&((ct.len() as u64) * 8).to_be_bytes());
    let mut t = ghash(h, &v).to_be_bytes();
    xor(&mut t, &b.b(&j0));
    (o, t.to_vec())
}
pub fn ccm(key: &[u8], nonce: &[u8], aad: &[u8], d: &[u8], tlen: usize, enc: bool) -> (Vec<u8>, Vec<u8>) {
    let b = Blk::new(key, true);
    let l = 15 - nonce.len();
    let mut a0 = [0u8; 16];
    a0[0] = (l - 1) as u8;
    a0[1..1 + nonce.len()].copy_from_slice(nonce);
    let mut a1 = a0;
    a1[15] = 1;
    let o = ctr(key, &a1, l * 8, d);
    let pt: &[u8] = if enc { d } else { &o };
    let mut b0 = a0;
    b0[0] = ((if aad.is_empty() { 0 } else { 64 }) + ((tlen - 2) / 2) * 8 + (l - 1)) as u8;
    let n = (pt.len() as u128).to_be_bytes();
    b0[16 - l..].copy_from_slice(&n[16 - l..]);
    let mut v = b0.to_vec();
    if !aad.is_empty() {
        if aad.len() < 0xff00 {
            v.extend_from_slice(&(aad.len() as u16).to_be_bytes());
        } else {
            v.extend_from_slice(&[0xff, 0xfe]);
            v.extend_from_slice(&(aad.len() as u32).to_be_bytes());
        }
        v.extend_from_slice(aad);
        pad16(&mut v);
    }
    v.extend_from_slice(pt);
    pad16(&mut v);
    let c = cbc_enc(key, &[0u8; 16], &v);
    let mut t = c[c.len() - 16..].to_vec();
    xor(&mut t, &b.b(&a0));
    t.truncate(tlen);
    (o, t)
}
pub fn cmac(key: &[u8], d: &[u8]) -> Vec<u8> {
    let b = Blk::new(key, true);
    let dbl = |x: u128| (x << 1) ^ if x >> 127 == 1 { 0x87 } else { 0 };
    let k1 = dbl(u128::from_be_bytes(b.b(&[0; 16])));
    let k2 = dbl(k1);
    let n = d.len().div_ceil(16).max(1);
    let mut x = [0u8; 16];
    for i in 0..n {
        let c = &d[i * 16..((i + 1) * 16).min(d.len())];
        let mut blk = [0u8; 16];
        blk[..c.len()].copy_from_slice(c);
        if i == n - 1 {
            if c.len() == 16 {
                xor(&mut blk, &k1.to_be_bytes());
            } else {
                blk[c.len()] = 0x80;
                xor(&mut blk, &k2.to_be_bytes());
            }
        }
        xor(&mut x, &blk);
        x = b.b(&x);
    }
    x.to_vec()
}
/// CBC-MAC with zero padding (CKM_AES_MAC), full block
pub fn cbcmac(key: &[u8], d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    pad16(&mut v);
    if v.is_empty() {
        return vec![0; 16];
    }
    let c = cbc_enc(key, &[0u8; 16], &v);
    c[c.len() - 16..].to_vec()
}
pub fn kw(key: &[u8], d: &[u8], iv: &[u8; 8]) -> Vec<u8> {
    let b = Blk::new(key, true);
    let n = d.len() / 8;
    let mut a = *iv;
    let mut r: Vec<[u8; 8]> = d.chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in 0..6u64 {
        for i in 1..=n as u64 {
            let mut x = a.to_vec();
            x.extend_from_slice(&r[i as usize - 1]);
            let e = b.b(&x);
            a = (u64::from_be_bytes(e[..8].try_into().unwrap()) ^ (n as u64 * j + i)).to_be_bytes();
            r[i as usize - 1] = e[8..].try_into().unwrap();
        }
    }
    let mut o = a.to_vec();
    for x in r {
        o.extend_from_slice(&x);
    }
    o
}
fn kw_inv(key: &[u8], d: &[u8]) -> ([u8; 8], Vec<u8>) {
    let b = Blk::new(key, false);
    let n = d.len() / 8 - 1;
    let mut a: [u8; 8] = d[..8].try_into().unwrap();
    let mut r: Vec<[u8; 8]> = d[8..].chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in (0..6u64).rev() {
        for i in (1..=n as u64).rev() {
            let mut x = (u64::from_be_bytes(a) ^ (n as u64 * j + i)).to_be_bytes().to_vec();
            x.extend_from_slice(&r[i as usize - 1]);
            let e = b.b(&x);
            a = e[..8].try_into().unwrap();
            r[i as usize - 1] = e[8..].try_into().unwrap();
        }
    }
    (a, r.concat())
}
pub fn kw_un(key: &[u8], d: &[u8], iv: &[u8; 8]) -> Option<Vec<u8>> {
    if d.len() % 8 != 0 || d.len() < 24 {
        return None;
    }
    let (a, r) = kw_inv(key, d);
    (a == *iv).then_some(r)
}
pub fn kwp(key: &[u8], d: &[u8], iv: &[u8; 4]) -> Vec<u8> {
    let mut a = iv.to_vec();
    a.extend_from_slice(&(d.len() as u32).to_be_bytes());
    let mut p = d.to_vec();
    while p.len() % 8 != 0 {
        p.push(0)
    }
    if p.len() == 8 {
        a.extend_from_slice(&p);
        return aes_ecb(key, &a, true);
    }
    kw(key, &p, a.as_slice().try_into().unwrap())
}
pub fn kwp_un(key: &[u8], d: &[u8], iv: &[u8; 4]) -> Option<Vec<u8>> {
    if d.len() % 8 != 0 || d.len() < 16 {
        return None;
    }
    let (a, r) = if d.len() == 16 {
        let x = aes_ecb(key, d, false);
        (x[..8].try_into().unwrap(), x[8..].to_vec())
    } else {
        kw_inv(key, d)
    };
    let a: [u8; 8] = a;
    if a[..4] != iv[..] {
        return None;
    }
    let n = u32::from_be_bytes(a[4..].try_into().unwrap()) as usize;
    if n > r.len() || n + 8 <= r.len() || r[n..].iter().any(|x| *x != 0) {
        return None;
    }
    Some(r[..n].to_vec())
}

// ---------- hashes ----------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash {
    pub name: &'static str,
    pub len: usize,
    pub block: usize,
}
pub const SHA1: Hash = Hash { name: "SHA1", len: 20, block: 64 };
pub const SHA224: Hash = Hash { name: "SHA224", len: 28, block: 64 };
pub const SHA256: Hash = Hash { name: "SHA256", len: 32, block: 64 };
pub const SHA384: Hash = Hash { name: "SHA384", len: 48, block: 128 };
pub const SHA512: Hash = Hash { name: "SHA512", len: 64, block: 128 };
pub const SHA512_224: Hash = Hash { name: "SHA512-224", len: 28, block: 128 };
pub const SHA512_256: Hash = Hash { name: "SHA512-256", len: 32, block: 128 };
pub const SHA3_224: Hash = Hash { name: "SHA3-224", len: 28, block: 144 };
pub const SHA3_256: Hash = Hash { name: "SHA3-256", len: 32, block: 136 };
pub const SHA3_384: Hash = Hash { name: "SHA3-384", len: 48, block: 104 };
pub const SHA3_512: Hash = Hash { name: "SHA3-512", len: 64, block: 72 };
pub fn hash(h: Hash, d: &[u8]) -> Vec<u8> {
    let n = CString::new(h.name).unwrap();
    let mut o = vec![0u8; 64];
    let mut l = 0u32;
    unsafe {
        let t = EVP_get_digestbyname(n.as_ptr());
        assert!(!t.is_null(), "{}", h.name);
        assert_eq!(EVP_Digest(d.as_ptr() as *const c_void, d.len(), o.as_mut_ptr(), &mut l, t, null_mut()), 1);
    }
    assert_eq!(l as usize, h.len);
    o.truncate(h.len);
    o
}
pub fn hmac(h: Hash, key: &[u8], d: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block { hash(h, key) } else { key.to_vec() };
    k.resize(h.block, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(d);
    let ih = hash(h, &i);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&ih);
    hash(h, &o)
}
pub fn hkdf_extract(h: Hash, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    if salt.is_empty() {
        hmac(h, &vec![0u8; h.len], ikm)
    } else {
        hmac(h, salt, ikm)
    }
}
pub fn hkdf_expand(h: Hash, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while o.len() < n {
        let mut d = t.clone();
        d.extend_from_slice(info);
        d.push(i);
        t = hmac(h, prk, &d);
        o.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    o.truncate(n);
    o
}
pub fn pbkdf2(h: Hash, pw: &[u8], salt: &[u8], iter: u32, n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 1u32;
    while o.len() < n {
        let mut d = salt.to_vec();
        d.extend_from_slice(&i.to_be_bytes());
        let mut u = hmac(h, pw, &d);
        let mut t = u.clone();
        for _ in 1..iter {
            u = hmac(h, pw, &u);
            xor(&mut t, &u);
        }
        o.extend_from_slice(&t);
        i += 1;
    }
    o.truncate(n);
    o
}
pub fn tls12_prf(h: Hash, secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut s = label.to_vec();
    s.extend_from_slice(seed);
    let mut a = s.clone();
    let mut o = vec![];
    while o.len() < n {
        a = hmac(h, secret, &a);
        let mut d = a.clone();
        d.extend_from_slice(&s);
        o.extend_from_slice(&hmac(h, secret, &d));
    }
    o.truncate(n);
    o
}
/// ANSI X9.63 KDF
pub fn x963(h: Hash, z: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 1u32;
    while o.len() < n {
        let mut d = z.to_vec();
        d.extend_from_slice(&i.to_be_bytes());
        d.extend_from_slice(info);
        o.extend_from_slice(&hash(h, &d));
        i += 1;
    }
    o.truncate(n);
    o
}
pub fn mgf1(h: Hash, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0u32;
    while o.len() < n {
        let mut d = seed.to_vec();
        d.extend_from_slice(&i.to_be_bytes());
        o.extend_from_slice(&hash(h, &d));
        i += 1;
    }
    o.truncate(n);
    o
}

// ---------- big numbers ----------
pub struct Bn(P);
impl Drop for Bn {
    fn drop(&mut self) {
        unsafe { BN_free(self.0) }
    }
}
struct Cx(P);
impl Cx {
    fn new() -> Cx {
        Cx(unsafe { BN_CTX_new() })
    }
}
impl Drop for Cx {
    fn drop(&mut self) {
        unsafe { BN_CTX_free(self.0) }
    }
}
impl Bn {
    pub fn new() -> Bn {
        Bn(unsafe { BN_new() })
    }
    pub fn from(b: &[u8]) -> Bn {
        Bn(unsafe { BN_bin2bn(b.as_ptr(), b.len() as c_int, null_mut()) })
    }
    pub fn u(v: u64) -> Bn {
        Bn::from(&v.to_be_bytes())
    }
    pub fn bits(&self) -> usize {
        unsafe { BN_num_bits(self.0) as usize }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.pad(self.bits().div_ceil(8))
    }
    pub fn pad(&self, n: usize) -> Vec<u8> {
        let mut o = vec![0u8; n];
        let r = unsafe { BN_bn2binpad(self.0, o.as_mut_ptr(), n as c_int) };
        assert!(r >= 0);
        o
    }
    pub fn modexp(&self, e: &Bn, m: &Bn) -> Bn {
        let r = Bn::new();
        unsafe { assert_eq!(BN_mod_exp(r.0, self.0, e.0, m.0, Cx::new().0), 1) };
        r
    }
    pub fn mul(&self, o: &Bn) -> Bn {
        let r = Bn::new();
        unsafe { assert_eq!(BN_mul(r.0, self.0, o.0, Cx::new().0), 1) };
        r
    }
    pub fn rem(&self, m: &Bn) -> Bn {
        let r = Bn::new();
        unsafe { assert_eq!(BN_div(null_mut(), r.0, self.0, m.0, Cx::new().0), 1) };
        r
    }
    pub fn sub(&self, o: &Bn) -> Bn {
        let r = Bn::new();
        unsafe { assert_eq!(BN_sub(r.0, self.0, o.0), 1) };
        r
    }
    pub fn add(&self, o: &Bn) -> Bn {
        let r = Bn::new();
        unsafe { assert_eq!(BN_add(r.0, self.0, o.0), 1) };
        r
    }
    pub fn gcd(&self, o: &Bn) -> Bn {
        let r = Bn::new();
        unsafe { assert_eq!(BN_gcd(r.0, self.0, o.0, Cx::new().0), 1) };
        r
    }
    pub fn inv(&self, m: &Bn) -> Option<Bn> {
        let r = Bn::new();
        let x = unsafe { BN_mod_inverse(r.0, self.0, m.0, Cx::new().0) };
        unsafe { ERR_clear_error() };
        (!x.is_null()).then_some(r)
    }
    pub fn cmp(&self, o: &Bn) -> std::cmp::Ordering {
        unsafe { BN_cmp(self.0, o.0) }.cmp(&0)
    }
    pub fn eq(&self, o: &Bn) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
    pub fn prime(&self) -> bool {
        unsafe { BN_check_prime(self.0, Cx::new().0, null_mut()) == 1 }
    }
}

// ---------- RSA (raw modexp + own paddings) ----------
#[derive(Clone)]
pub struct Rsa {
    pub n: Vec<u8>,
    pub e: Vec<u8>,
    pub d: Vec<u8>,
}
impl Rsa {
    pub fn k(&self) -> usize {
        Bn::from(&self.n).bits().div_ceil(8)
    }
    pub fn pubop(&self, x: &[u8]) -> Vec<u8> {
        Bn::from(x).modexp(&Bn::from(&self.e), &Bn::from(&self.n)).pad(self.k())
    }
    pub fn privop(&self, x: &[u8]) -> Vec<u8> {
        Bn::from(x).modexp(&Bn::from(&self.d), &Bn::from(&self.n)).pad(self.k())
    }
}
pub fn digestinfo(h: Hash) -> Vec<u8> {
    let oid: &[u8] = match h.name {
        "SHA1" => &[0x2b, 0x0e, 0x03, 0x02, 0x1a],
        "SHA256" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 1],
        "SHA384" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 2],
        "SHA512" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 3],
        "SHA224" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 4],
        "SHA512-224" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 5],
        "SHA512-256" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 6],
        "SHA3-224" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 7],
        "SHA3-256" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 8],
        "SHA3-384" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 9],
        "SHA3-512" => &[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 10],
        _ => panic!(),
    };
    let mut a = der(6, oid);
    a.extend(der(5, &[]));
    let a = der(0x30, &a);
    let mut v = vec![0x30, (a.len() + 2 + h.len) as u8];
    v.extend(a);
    v.push(4);
    v.push(h.len as u8);
    v
}
/// EMSA/EME-PKCS1-v1_5 block type 1
pub fn pkcs1_t1(k: usize, t: &[u8]) -> Option<Vec<u8>> {
    if t.len() + 11 > k {
        return None;
    }
    let mut v = vec![0, 1];
    v.extend(vec![0xff; k - 3 - t.len()]);
    v.push(0);
    v.extend_from_slice(t);
    Some(v)
}
pub fn pkcs1_t2(k: usize, m: &[u8], r: &mut crate::w::Rng) -> Vec<u8> {
    let mut v = vec![0, 2];
    for _ in 0..k - 3 - m.len() {
        v.push(1 + r.below(255) as u8)
    }
    v.push(0);
    v.extend_from_slice(m);
    v
}
pub fn pkcs1_t2_un(em: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 11 || em[0] != 0 || em[1] != 2 {
        return None;
    }
    let p = em[2..].iter().position(|x| *x == 0)?;
    if p < 8 {
        return None;
    }
    Some(em[2 + p + 1..].to_vec())
}
pub fn oaep(k: usize, h: Hash, mg: Hash, label: &[u8], m: &[u8], seed: &[u8]) -> Vec<u8> {
    let mut db = hash(h, label);
    db.extend(vec![0; k - m.len() - 2 * h.len - 2]);
    db.push(1);
    db.extend_from_slice(m);
    let mask = mgf1(mg, seed, db.len());
    xor(&mut db, &mask);
    let mut s = seed.to_vec();
    xor(&mut s, &mgf1(mg, &db, h.len));
    let mut v = vec![0];
    v.extend(s);
    v.extend(db);
    v
}
pub fn oaep_un(em: &[u8], h: Hash, mg: Hash, label: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 2 * h.len + 2 || em[0] != 0 {
        return None;
    }
    let mut s = em[1..1 + h.len].to_vec();
    let mut db = em[1 + h.len..].to_vec();
    xor(&mut s, &mgf1(mg, &db, h.len));
    let n = db.len();
    xor(&mut db, &mgf1(mg, &s, n));
    if db[..h.len] != hash(h, label)[..] {
        return None;
    }
    let p = db[h.len..].iter().position(|x| *x != 0)?;
    if db[h.len + p] != 1 {
        return None;
    }
    Some(db[h.len + p + 1..].to_vec())
}
pub fn pss_encode(bits: usize, h: Hash, mg: Hash, mh: &[u8], salt: &[u8]) -> Option<Vec<u8>> {
    let eb = bits - 1;
    let el = eb.div_ceil(8);
    if el < h.len + salt.len() + 2 {
        return None;
    }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mh);
    m.extend_from_slice(salt);
    let hh = hash(h, &m);
    let mut db = vec![0u8; el - salt.len() - h.len - 2];
    db.push(1);
    db.extend_from_slice(salt);
    let n = db.len();
    xor(&mut db, &mgf1(mg, &hh, n));
    db[0] &= 0xff >> (8 * el - eb);
    db.extend(hh);
    db.push(0xbc);
    // left pad to k
    let k = bits.div_ceil(8);
    let mut o = vec![0; k - el];
    o.extend(db);
    Some(o)
}
pub fn pss_verify(bits: usize, h: Hash, mg: Hash, mh: &[u8], slen: usize, em: &[u8]) -> bool {
    let eb = bits - 1;
    let el = eb.div_ceil(8);
    let k = bits.div_ceil(8);
    if em.len() != k || em[..k - el].iter().any(|x| *x != 0) {
        return false;
    }
    let em = &em[k - el..];
    if el < h.len + slen + 2 || em[el - 1] != 0xbc {
        return false;
    }
    let mut db = em[..el - h.len - 1].to_vec();
    let hh = &em[el - h.len - 1..el - 1];
    let top = 0xffu8 >> (8 * el - eb);
    if db[0] & !top != 0 {
        return false;
    }
    let n = db.len();
    xor(&mut db, &mgf1(mg, hh, n));
    db[0] &= top;
    let z = el - h.len - slen - 2;
    if db[..z].iter().any(|x| *x != 0) || db[z] != 1 {
        return false;
    }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mh);
    m.extend_from_slice(&db[z + 1..]);
    hash(h, &m) == hh
}

// ---------- DER ----------
pub fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    if c.len() < 128 {
        v.push(c.len() as u8)
    } else {
        let n = (c.len() as u32).to_be_bytes();
        let s = n.iter().position(|x| *x != 0).unwrap();
        v.push(0x80 | (4 - s) as u8);
        v.extend_from_slice(&n[s..]);
    }
    v.extend_from_slice(c);
    v
}
pub fn der_int(b: &[u8]) -> Vec<u8> {
    let s = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    let mut v = b[s..].to_vec();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    der(2, &v)
}
/// (tag, content, rest)
pub fn der_read(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    if b.len() < 2 {
        return None;
    }
    let (mut n, mut o) = (b[1] as usize, 2);
    if n & 0x80 != 0 {
        let c = n & 0x7f;
        if c == 0 || c > 4 || b.len() < 2 + c {
            return None;
        }
        n = b[2..2 + c].iter().fold(0, |a, x| a << 8 | *x as usize);
        o = 2 + c;
    }
    if b.len() < o + n {
        return None;
    }
    Some((b[0], &b[o..o + n], &b[o + n..]))
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    der(0x30, &parts.concat())
}
/// PKCS#8 of an RSA key
pub fn rsa_pkcs8(n: &[u8], e: &[u8], d: &[u8], p: &[u8], q: &[u8], dp: &[u8], dq: &[u8], qi: &[u8]) -> Vec<u8> {
    let k = seq(&[der_int(&[0]), der_int(n), der_int(e), der_int(d), der_int(p), der_int(q), der_int(dp), der_int(dq), der_int(qi)]);
    seq(&[der_int(&[0]), seq(&[der(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), der(5, &[])]), der(4, &k)])
}

// ---------- EC ----------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Curve {
    pub name: &'static str,
    pub nid: c_int,
    pub oid: &'static [u8],
    pub bits: usize,
}
pub const P256: Curve = Curve { name: "P-256", nid: 415, oid: &[6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7], bits: 256 };
pub const P384: Curve = Curve { name: "P-384", nid: 715, oid: &[6, 5, 0x2b, 0x81, 4, 0, 0x22], bits: 384 };
pub const P521: Curve = Curve { name: "P-521", nid: 716, oid: &[6, 5, 0x2b, 0x81, 4, 0, 0x23], bits: 521 };
pub const CURVES: [Curve; 3] = [P256, P384, P521];
impl Curve {
    pub fn len(&self) -> usize {
        self.bits.div_ceil(8)
    }
}
/// public point (uncompressed) of a scalar; None if invalid
pub fn ec_mul(c: Curve, d: &[u8], pt: Option<&[u8]>) -> Option<Vec<u8>> {
    unsafe {
        let g = EC_GROUP_new_by_curve_name(c.nid);
        let p = EC_POINT_new(g);
        let s = Bn::from(d);
        let cx = Cx::new();
        let mut okk = true;
        match pt {
            None => okk &= EC_POINT_mul(g, p, s.0, null_mut(), null_mut(), cx.0) == 1,
            Some(b) => {
                let q = EC_POINT_new(g);
                okk &= EC_POINT_oct2point(g, q, b.as_ptr(), b.len(), cx.0) == 1 && EC_POINT_is_on_curve(g, q, cx.0) == 1;
                if okk {
                    okk &= EC_POINT_mul(g, p, null_mut(), q, s.0, cx.0) == 1;
                }
                EC_POINT_free(q);
            }
        }
        let mut o = vec![0u8; 2 * c.len() + 1];
        let n = if okk { EC_POINT_point2oct(g, p, 4, o.as_mut_ptr(), o.len(), cx.0) } else { 0 };
        EC_POINT_free(p);
        EC_GROUP_free(g);
        ERR_clear_error();
        (n == o.len()).then_some(o)
    }
}
/// a*G + b*P, P given in any encoding
pub fn ec_lin(c: Curve, a: &[u8], b: &[u8], pt: &[u8]) -> Option<Vec<u8>> {
    unsafe {
        let g = EC_GROUP_new_by_curve_name(c.nid);
        let (p, q) = (EC_POINT_new(g), EC_POINT_new(g));
        let (x, y) = (Bn::from(a), Bn::from(b));
        let cx = Cx::new();
        let okk = EC_POINT_oct2point(g, q, pt.as_ptr(), pt.len(), cx.0) == 1 && EC_POINT_mul(g, p, x.0, q, y.0, cx.0) == 1;
        let mut o = vec![0u8; 2 * c.len() + 1];
        let n = if okk { EC_POINT_point2oct(g, p, 4, o.as_mut_ptr(), o.len(), cx.0) } else { 0 };
        EC_POINT_free(q);
        EC_POINT_free(p);
        EC_GROUP_free(g);
        ERR_clear_error();
        (n == o.len()).then_some(o)
    }
}
/// a signature with chosen r and s and the public key under which it is right
/// (r is the abscissa of a point, or None is returned)
pub fn ecdsa_craft(c: Curve, rr: &[u8], s: &[u8], dig: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = Bn::from(&ec_order(c));
    let (br, bs) = (Bn::from(rr), Bn::from(s));
    if br.bits() == 0 || bs.bits() == 0 || br.cmp(&n) != std::cmp::Ordering::Less || bs.cmp(&n) != std::cmp::Ordering::Less {
        return None;
    }
    let mut cp = vec![2];
    cp.extend(br.pad(c.len()));
    // the leftmost bits of the digest
    let mut e = Bn::from(&dig[..dig.len().min(c.len())]).rem(&n);
    if dig.len() * 8 > c.bits {
        // only P-521 has a length that is not whole bytes
        assert!(c.bits % 8 == 0);
        e = Bn::from(&dig[..c.bits / 8]).rem(&n);
    }
    let ri = br.inv(&n)?;
    // Q = r^-1 (s R - e G)
    let b = bs.mul(&ri).rem(&n);
    let a = n.sub(&e.mul(&ri).rem(&n)).rem(&n);
    let q = ec_lin(c, &a.bytes(), &b.bytes(), &cp)?;
    let mut sig = br.pad(c.len());
    sig.extend(bs.pad(c.len()));
    if !ecdsa_verify(c, &q, dig, &sig) {
        panic!("crafted signature");
    }
    Some((q, sig))
}
pub fn ec_order(c: Curve) -> Vec<u8> {
    unsafe {
        let g = EC_GROUP_new_by_curve_name(c.nid);
        let o = EC_GROUP_get0_order(g);
        let mut v = vec![0u8; c.len()];
        BN_bn2binpad(o, v.as_mut_ptr(), v.len() as c_int);
        EC_GROUP_free(g);
        v
    }
}
pub fn ec_on_curve(c: Curve, pt: &[u8]) -> bool {
    ec_mul(c, &[1], Some(pt)).is_some()
}
fn ec_priv(c: Curve, d: &[u8]) -> P {
    let mut dd = vec![0; c.len().saturating_sub(d.len())];
    dd.extend_from_slice(d);
    let k = seq(&[der_int(&[1]), der(4, &dd), der(0xa0, c.oid)]);
    let mut p = k.as_ptr();
    let r = unsafe { d2i_AutoPrivateKey(null_mut(), &mut p, k.len() as c_long) };
    assert!(!r.is_null(), "ec private key");
    r
}
fn ec_pub(c: Curve, pt: &[u8]) -> P {
    let mut bs = vec![0];
    bs.extend_from_slice(pt);
    let k = seq(&[seq(&[der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), c.oid.to_vec()]), der(3, &bs)]);
    let mut p = k.as_ptr();
    unsafe { d2i_PUBKEY(null_mut(), &mut p, k.len() as c_long) }
}
/// raw r||s signature over a digest
pub fn ecdsa_sign(c: Curve, d: &[u8], dig: &[u8]) -> Vec<u8> {
    unsafe {
        let k = ec_priv(c, d);
        let x = EVP_PKEY_CTX_new(k, null_mut());
        assert_eq!(EVP_PKEY_sign_init(x), 1);
        let mut s = vec![0u8; 256];
        let mut l = s.len();
        assert_eq!(EVP_PKEY_sign(x, s.as_mut_ptr(), &mut l, dig.as_ptr(), dig.len()), 1);
        EVP_PKEY_CTX_free(x);
        EVP_PKEY_free(k);
        s.truncate(l);
        let (_, inner, _) = der_read(&s).unwrap();
        let (_, r, rest) = der_read(inner).unwrap();
        let (_, t, _) = der_read(rest).unwrap();
        let mut o = Bn::from(r).pad(c.len());
        o.extend(Bn::from(t).pad(c.len()));
        o
    }
}
pub fn ecdsa_verify(c: Curve, pt: &[u8], dig: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 2 * c.len() {
        return false;
    }
    let s = seq(&[der_int(&sig[..c.len()]), der_int(&sig[c.len()..])]);
    unsafe {
        let k = ec_pub(c, pt);
        if k.is_null() {
            return false;
        }
        let x = EVP_PKEY_CTX_new(k, null_mut());
        assert_eq!(EVP_PKEY_verify_init(x), 1);
        let r = EVP_PKEY_verify(x, s.as_ptr(), s.len(), dig.as_ptr(), dig.len());
        EVP_PKEY_CTX_free(x);
        EVP_PKEY_free(k);
        ERR_clear_error();
        r == 1
    }
}
pub fn ecdh(c: Curve, d: &[u8], pt: &[u8]) -> Option<Vec<u8>> {
    ec_mul(c, d, Some(pt)).map(|o| o[1..1 + c.len()].to_vec())
}
pub const NID_X25519: c_int = 1034;
pub const NID_X448: c_int = 1035;
pub fn mont_pub(nid: c_int, k: &[u8]) -> Vec<u8> {
    unsafe {
        let p = EVP_PKEY_new_raw_private_key(nid, null_mut(), k.as_ptr(), k.len());
        assert!(!p.is_null());
        let mut o = vec![0u8; k.len()];
        let mut l = o.len();
        assert_eq!(EVP_PKEY_get_raw_public_key(p, o.as_mut_ptr(), &mut l), 1);
        EVP_PKEY_free(p);
        o
    }
}
pub fn mont_dh(nid: c_int, k: &[u8], peer: &[u8]) -> Option<Vec<u8>> {
    unsafe {
        let p = EVP_PKEY_new_raw_private_key(nid, null_mut(), k.as_ptr(), k.len());
        let q = EVP_PKEY_new_raw_public_key(nid, null_mut(), peer.as_ptr(), peer.len());
        if p.is_null() || q.is_null() {
            return None;
        }
        let x = EVP_PKEY_CTX_new(p, null_mut());
        let mut o = vec![0u8; k.len()];
        let mut l = o.len();
        let okk = EVP_PKEY_derive_init(x) == 1 && EVP_PKEY_derive_set_peer(x, q) == 1 && EVP_PKEY_derive(x, o.as_mut_ptr(), &mut l) == 1;
        EVP_PKEY_CTX_free(x);
        EVP_PKEY_free(p);
        EVP_PKEY_free(q);
        ERR_clear_error();
        okk.then_some(o)
    }
}
pub const NID_ED25519: c_int = 1087;
pub fn ed_sign(k: &[u8], m: &[u8]) -> Vec<u8> {
    unsafe {
        let p = EVP_PKEY_new_raw_private_key(NID_ED25519, null_mut(), k.as_ptr(), k.len());
        let x = EVP_MD_CTX_new();
        assert_eq!(EVP_DigestSignInit(x, null_mut(), null_mut(), null_mut(), p), 1);
        let mut o = vec![0u8; 64];
        let mut l = 64;
        assert_eq!(EVP_DigestSign(x, o.as_mut_ptr(), &mut l, m.as_ptr(), m.len()), 1);
        EVP_MD_CTX_free(x);
        EVP_PKEY_free(p);
        o
    }
}
pub fn ed_verify(k: &[u8], m: &[u8], s: &[u8]) -> bool {
    unsafe {
        let p = EVP_PKEY_new_raw_public_key(NID_ED25519, null_mut(), k.as_ptr(), k.len());
        if p.is_null() {
            return false;
        }
        let x = EVP_MD_CTX_new();
        assert_eq!(EVP_DigestVerifyInit(x, null_mut(), null_mut(), null_mut(), p), 1);
        let r = EVP_DigestVerify(x, s.as_ptr(), s.len(), m.as_ptr(), m.len());
        EVP_MD_CTX_free(x);
        EVP_PKEY_free(p);
        ERR_clear_error();
        r == 1
    }
}
fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let w = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = w(&key[4 * i..4 * i + 4]);
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = w(&nonce[4 * i..4 * i + 4]);
    }
    let mut x = s;
    fn q(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        for (r1, r2) in [(16, 12), (8, 7)] {
            x[a] = x[a].wrapping_add(x[b]);
            x[d] = (x[d] ^ x[a]).rotate_left(r1);
            x[c] = x[c].wrapping_add(x[d]);
            x[b] = (x[b] ^ x[c]).rotate_left(r2);
        }
    }
    for _ in 0..10 {
        q(&mut x, 0, 4, 8, 12);
        q(&mut x, 1, 5, 9, 13);
        q(&mut x, 2, 6, 10, 14);
        q(&mut x, 3, 7, 11, 15);
        q(&mut x, 0, 5, 10, 15);
        q(&mut x, 1, 6, 11, 12);
        q(&mut x, 2, 7, 8, 13);
        q(&mut x, 3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    o
}
/// RFC 8439 ChaCha20-Poly1305: output and tag
pub fn chachapoly(key: &[u8], nonce: &[u8], aad: &[u8], d: &[u8], enc: bool) -> (Vec<u8>, Vec<u8>) {
    let mut o = d.to_vec();
    for (i, c) in o.chunks_mut(64).enumerate() {
        let b = chacha_block(key, i as u32 + 1, nonce);
        for (x, y) in c.iter_mut().zip(b) {
            *x ^= y;
        }
    }
    let pk = chacha_block(key, 0, nonce);
    let le = |b: &[u8]| Bn::from(&b.iter().rev().copied().collect::<Vec<u8>>());
    let mut rb = pk[..16].to_vec();
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let rr = le(&rb);
    let mut p = vec![0xffu8; 17];
    p[0] = 3;
    p[16] = 0xfb;
    let p = Bn::from(&p);
    let ct = if enc { &o } else { d };
    let mut v = aad.to_vec();
    pad16(&mut v);
    v.extend_from_slice(ct);
    pad16(&mut v);
    v.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    v.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    let mut a = Bn::from(&[]);
    for c in v.chunks(16) {
        let mut n = c.to_vec();
        n.push(1);
        a = a.add(&le(&n)).mul(&rr).rem(&p);
    }
    let t = a.add(&le(&pk[16..32])).pad(18);
    (o, t[2..].iter().rev().copied().collect())
}
/// a raw r||s ECDSA signature as the SEQUENCE that TLS uses
pub fn ecdsa_der(s: &[u8]) -> Vec<u8> {
    seq(&[der_int(&s[..s.len() / 2]), der_int(&s[s.len() / 2..])])
}
pub fn ecdsa_raw(c: Curve, s: &[u8]) -> Option<Vec<u8>> {
    let (t, i, rest) = der_read(s)?;
    let (t1, r, i2) = der_read(i)?;
    let (t2, q, i3) = der_read(i2)?;
    let f = |b: &[u8]| -> Vec<u8> { b.iter().copied().skip_while(|x| *x == 0).collect() };
    let (r, q) = (f(r), f(q));
    if t != 0x30 || t1 != 2 || t2 != 2 || !rest.is_empty() || !i3.is_empty() || r.len() > c.len() || q.len() > c.len() {
        return None;
    }
    let mut o = Bn::from(&r).pad(c.len());
    o.extend(Bn::from(&q).pad(c.len()));
    Some(o)
}
/// RFC 4226
pub fn hotp(h: Hash, key: &[u8], ctr: u64, digits: u32) -> String {
    let m = hmac(h, key, &ctr.to_be_bytes());
    let o = (m[m.len() - 1] & 15) as usize;
    let v = u32::from_be_bytes(m[o..o + 4].try_into().unwrap()) & 0x7fffffff;
    format!("{:0w$}", v % 10u32.pow(digits), w = digits as usize)
}
pub fn selftest() {
    use crate::w::unhex as x;
    assert_eq!(cmac(&x("2b7e151628aed2a6abf7158809cf4f3c"), &[]), x("bb1d6929e95937287fa37d129b756746"));
    assert_eq!(kw(&x("000102030405060708090A0B0C0D0E0F"), &x("00112233445566778899AABBCCDDEEFF"), &[0xa6; 8]), x("1FA68B0A8112B447AEF34BD8FB5A7B829D3E862371D2CFE5"));
    assert_eq!(kwp(&x("5840df6e29b02af1ab493b705bf16ea1ae8338f4dcc176a8"), &x("466f7250617369"), &[0xa6, 0x59, 0x59, 0xa6]), x("afbeb0f07dfbf5419200f2ccb50bb24f"));
    let (c, t) = gcm(&x("feffe9928665731c6d6a8f9467308308"), &x("cafebabefacedbad"), &x("feedfacedeadbeeffeedfacedeadbeefabaddad2"), &x("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"), true);
    assert_eq!(t, x("3612d2e79e3b0785561be14aaca2fccb"));
    assert_eq!(c[..4], x("61353b4c")[..]);
    let (c, t) = ccm(&x("404142434445464748494a4b4c4d4e4f"), &x("10111213141516"), &x("0001020304050607"), &x("20212223"), 4, true);
    assert_eq!((c, t), (x("7162015b"), x("4dac255d")));
    assert_eq!(hotp(SHA1, b"12345678901234567890", 0, 6), "755224");
    let (c, t) = chachapoly(&(0x80..0xa0).collect::<Vec<u8>>(), &x("070000004041424344454647"), &x("50515253c0c1c2c3c4c5c6c7"), b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.", true);
    assert_eq!(c[..8], x("d31a8d34648e60db")[..]);
    assert_eq!(t, x("1ae10b594f09e26a7e902ecbd0600691"));
    let _: c_ulong = 0;
}
