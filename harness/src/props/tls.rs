//! The rustls provider: every primitive against the references, whole connections against libssl (P35).
use crate::refc::{self, Curve, Hash};
use crate::w::{self, hx, Rng};
use crate::{job, keys, ops, times, viol, Job};
use std::ffi::{c_char, c_int, c_long, c_void, CString};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 10 } else { 1 };
    match prop {
        "P35" => {
            let mut v = times(4 * k, |_| job("tls.prim", 0, 25_000));
            v.extend(times(4 * k, |_| job("tls.sig", 1, 25_000)));
            v.extend(times(6 * k, |_| job("tls.conn", 2, 30_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, _arg: u64, r: &mut Rng) {
    load();
    if w::thorough() {
        refc::selftest();
    }
    let k = Keys::new(r);
    describe();
    while w::time_left() && w::viols() < 30 {
        match job {
            "tls.prim" => match r.below(8) {
                0 => aead(r),
                1 | 2 => rec13(r),
                3 | 4 => rec12(r),
                5 => hash(r),
                6 => hkdf(r),
                _ => prf(r),
            },
            "tls.sig" => match r.below(6) {
                0 | 1 => sign(r, &k),
                2 | 3 => verify(r, &k),
                4 => kx(r),
                _ => kx_bad(r),
            },
            "tls.conn" => conn(r, &k),
            _ => panic!("{}", job),
        }
    }
}

// ---- the provider, behind one C entry ----
#[repr(C)]
struct A {
    p: *const u8,
    n: usize,
}
type Kvt = unsafe extern "C" fn(*const u8, usize, *const A, usize, *mut u8, usize) -> i64;
static KVT: AtomicUsize = AtomicUsize::new(0);
fn load() {
    let p = CString::new(std::env::var("KV_TLS").expect("KV_TLS")).unwrap();
    unsafe {
        let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        assert!(!h.is_null(), "{:?}", std::ffi::CStr::from_ptr(libc::dlerror()));
        let s = libc::dlsym(h, c"kvt".as_ptr());
        assert!(!s.is_null());
        KVT.store(s as usize, Ordering::SeqCst);
    }
}
/// answer, or None when refused; -5: nothing suitable
fn try_t(name: &str, a: &[&[u8]]) -> Result<Vec<u8>, i64> {
    w::ring(&format!("{} {}", name, a.iter().map(|x| hx(x)).collect::<Vec<_>>().join(" ")));
    let f: Kvt = unsafe { std::mem::transmute(KVT.load(Ordering::Relaxed)) };
    let v: Vec<A> = a.iter().map(|x| A { p: x.as_ptr(), n: x.len() }).collect();
    let mut o = vec![0u8; 1 << 20];
    let n = unsafe { f(name.as_ptr(), name.len(), v.as_ptr(), v.len(), o.as_mut_ptr(), o.len()) };
    if n < -1 && n != -5 {
        viol!(["P35"], &format!("tls-{}:{}", if n == -2 { "panic" } else { "bad" }, name), "{} answered {} for {}", name, n, a.iter().map(|x| hx(x)).collect::<Vec<_>>().join(" "));
    }
    if n < 0 {
        return Err(n);
    }
    o.truncate(n as usize);
    Ok(o)
}
fn t(name: &str, a: &[&[u8]]) -> Option<Vec<u8>> {
    try_t(name, a).ok()
}
/// must be answered, and like this
fn same(what: &str, got: Option<Vec<u8>>, want: &[u8], ctx: impl Fn() -> String) {
    match got {
        Some(g) if g == want => {}
        Some(g) => viol!(["P35"], &format!("tls:{}", what), "{}: got {} want {}", ctx(), hx(&g), hx(want)),
        None => viol!(["P35"], &format!("tls-refused:{}", what), "{}: refused", ctx()),
    }
}
fn refused(what: &str, got: Option<Vec<u8>>, ctx: impl Fn() -> String) {
    if let Some(g) = got {
        viol!(["P35"], &format!("tls-accepted:{}", what), "{}: accepted, giving {}", ctx(), hx(&g));
    }
}
fn describe() {
    let d = String::from_utf8(t("describe", &[]).unwrap_or_default()).unwrap();
    for s in ["TLS13_AES_128_GCM_SHA256", "TLS13_AES_256_GCM_SHA384", "TLS13_CHACHA20_POLY1305_SHA256"] {
        if !d.contains(s) {
            viol!(["P35"], &format!("tls-missing:{}", s), "the provider does not offer {}", s);
        }
    }
    for g in ["X25519", "secp256r1", "secp384r1", "secp521r1"] {
        if !d.contains(&format!("group {}", g)) {
            viol!(["P35"], &format!("tls-missing:{}", g), "the provider does not offer {}", g);
        }
    }
}

// ---- record protection ----
const H2: [Hash; 2] = [refc::SHA256, refc::SHA384];
const KL: [usize; 3] = [16, 32, 32];
fn hs(suite: usize) -> Hash {
    H2[(suite == 1) as usize]
}
fn seal(suite: usize, key: &[u8], nonce: &[u8], aad: &[u8], d: &[u8]) -> Vec<u8> {
    let (mut c, tag) = if suite == 2 { refc::chachapoly(key, nonce, aad, d, true) } else { refc::gcm(key, nonce, aad, d, true) };
    c.extend(tag);
    c
}
fn dlen(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        3 => r.us(16385),
        4 => 16384,
        _ => r.us(400),
    }
}
fn damage(r: &mut Rng, v: &mut Vec<u8>) -> &'static str {
    match r.below(4) {
        _ if v.is_empty() => {
            v.push(0);
            "grow"
        }
        0 => {
            let n = r.us(v.len());
            v.truncate(n);
            "cut"
        }
        1 => {
            let x = r.bytes(1);
            v.extend(x);
            "grow"
        }
        _ => {
            let i = r.us(v.len());
            v[i] ^= 1 << r.below(8);
            "flip"
        }
    }
}
fn aead(r: &mut Rng) {
    let s = r.us(3);
    let key = r.bytes(KL[s]);
    let n = r.bytes(12);
    let l = dlen(r).min(64);
    let aad = r.bytes(l);
    let l = dlen(r);
    let mut d = r.bytes(l);
    let want = seal(s, &key, &n, &aad, &d);
    let sb = [s as u8];
    let ctx = || format!("suite {} key {} nonce {} aad {} data {}", s, hx(&key), hx(&n), hx(&aad), l);
    same("aead-seal", t("aead", &[&sb, &[1], &key, &n, &aad, &d]), &want, ctx);
    same("aead-open", t("aead", &[&sb, &[0], &key, &n, &aad, &want]), &d, ctx);
    let mut bad = want.clone();
    let mut a2 = aad.clone();
    let mut n2 = n.clone();
    let how = match r.below(3) {
        0 => {
            damage(r, &mut a2);
            "aad"
        }
        1 => {
            n2[r.us(12)] ^= 1;
            "nonce"
        }
        _ => damage(r, &mut bad),
    };
    refused(&format!("aead-{}", how), t("aead", &[&sb, &[0], &key, &n2, &a2, &bad]), ctx);
    w::eval(&format!("aead {} {} {} {}", s, l.min(70), aad.len(), how));
    d.clear();
}
fn label(h: Hash, secret: &[u8], l: &str, n: usize) -> Vec<u8> {
    let mut i = (n as u16).to_be_bytes().to_vec();
    i.push(6 + l.len() as u8);
    i.extend_from_slice(b"tls13 ");
    i.extend_from_slice(l.as_bytes());
    i.push(0);
    refc::hkdf_expand(h, secret, &i, n)
}
fn nonce(iv: &[u8], seq: u64) -> Vec<u8> {
    let mut n = iv.to_vec();
    for (i, b) in seq.to_be_bytes().iter().enumerate() {
        n[4 + i] ^= b;
    }
    n
}
fn seqno(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.below(3),
        1 => u64::MAX - r.below(3),
        2 => r.below(1 << 20),
        _ => r.next(),
    }
}
fn rec13(r: &mut Rng) {
    let s = r.us(3);
    let h = hs(s);
    let sec = r.bytes(h.len);
    let (key, iv) = (label(h, &sec, "key", KL[s]), label(h, &sec, "iv", 12));
    let sb = [s as u8];
    let (Some(e), Some(d)) = (t("rec", &[&sb, &[13], &[1], &sec, &[], &[]]), t("rec", &[&sb, &[13], &[0], &sec, &[], &[]])) else {
        viol!(["P35"], "tls-refused:rec13", "no record layer for suite {}", s);
        return;
    };
    for _ in 0..4 {
        let seq = seqno(r);
        let l = dlen(r);
        let data = r.bytes(l);
        let typ = *r.pick(&[21u8, 22, 23]);
        let mut inner = data.clone();
        inner.push(typ);
        let ad = |n: usize| [23, 3, 3, (n >> 8) as u8, n as u8];
        let want = seal(s, &key, &nonce(&iv, seq), &ad(inner.len() + 16), &inner);
        let mut w1 = vec![23u8];
        w1.extend_from_slice(&want);
        let sq = seq.to_be_bytes();
        let ty = [typ];
        let parts = chunks(r, &data);
        let mut a: Vec<&[u8]> = vec![&e, &sq, &ty];
        a.extend(parts);
        let ctx = || format!("suite {} seq {} type {} length {}", s, seq, typ, l);
        same("rec13-enc", t("rec_enc", &a), &w1, ctx);
        // padded
        let pad = if r.chance(50, 100) { r.us(300).min(16384 - l.min(16384)) } else { 0 };
        let mut pi = inner.clone();
        pi.extend(vec![0u8; pad]);
        let wp = seal(s, &key, &nonce(&iv, seq), &ad(pi.len() + 16), &pi);
        let mut w2 = ty.to_vec();
        w2.extend_from_slice(&data);
        same("rec13-dec", t("rec_dec", &[&d, &sq, &[23], &wp]), &w2, ctx);
        let mut bad = wp.clone();
        let how = match r.below(4) {
            0 => {
                let s2 = seq.wrapping_add(1 << r.below(64)).to_be_bytes();
                refused("rec13-seq", t("rec_dec", &[&d, &s2, &[23], &wp]), ctx);
                "seq"
            }
            1 => {
                // nothing but padding
                let z = vec![0u8; 1 + pad];
                let wz = seal(s, &key, &nonce(&iv, seq), &ad(z.len() + 16), &z);
                refused("rec13-zeros", t("rec_dec", &[&d, &sq, &[23], &wz]), ctx);
                "zeros"
            }
            2 => {
                // another header length under the tag
                let wz = seal(s, &key, &nonce(&iv, seq), &ad(inner.len()), &inner);
                refused("rec13-aad", t("rec_dec", &[&d, &sq, &[23], &wz]), ctx);
                "aad"
            }
            _ => {
                let how = damage(r, &mut bad);
                refused(&format!("rec13-{}", how), t("rec_dec", &[&d, &sq, &[23], &bad]), ctx);
                how
            }
        };
        w::eval(&format!("rec13 {} {} {} {} {}", s, typ, l.min(70), pad > 0, how));
    }
    t("drop", &[&e]);
    t("drop", &[&d]);
}
fn rec12(r: &mut Rng) {
    let s = r.us(3);
    let h = hs(s);
    let sec = r.bytes(h.len);
    let key = label(h, &sec, "key", KL[s]);
    let g = s != 2;
    let iv = r.bytes(if g { 4 } else { 12 });
    let ex = r.bytes(if g { 8 } else { 0 });
    let sb = [s as u8];
    let (Some(e), Some(d)) = (t("rec", &[&sb, &[12], &[1], &sec, &iv, &ex]), t("rec", &[&sb, &[12], &[0], &sec, &iv, &ex])) else {
        viol!(["P35"], "tls-refused:rec12", "no record layer for suite {}", s);
        return;
    };
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..4 {
        let seq = seqno(r);
        let l = dlen(r);
        let data = r.bytes(l);
        let typ = *r.pick(&[20u8, 21, 22, 23]);
        let ad = |seq: u64, typ: u8, n: usize| {
            let mut v = seq.to_be_bytes().to_vec();
            v.extend([typ, 3, 3, (n >> 8) as u8, n as u8]);
            v
        };
        let sq = seq.to_be_bytes();
        let ty = [typ];
        let parts = chunks(r, &data);
        let mut a: Vec<&[u8]> = vec![&e, &sq, &ty];
        a.extend(parts);
        let ctx = || format!("suite {} seq {} type {} length {}", s, seq, typ, l);
        // the explicit part of a GCM nonce is the sender's choice; it must not repeat
        match t("rec_enc", &a) {
            None => viol!(["P35"], "tls-refused:rec12-enc", "{}", ctx()),
            Some(o) => {
                let (n, body) = if g {
                    if o.len() < 9 {
                        viol!(["P35"], "tls:rec12-enc", "{}: {}", ctx(), hx(&o));
                        continue;
                    }
                    let mut n = iv.clone();
                    n.extend_from_slice(&o[1..9]);
                    (n, &o[9..])
                } else {
                    (nonce(&iv, seq), &o[1..])
                };
                if g {
                    seen.insert((o[1..9].to_vec(), seq));
                }
                if g && seen.iter().filter(|x| x.0 == o[1..9]).any(|x| x.1 != seq) {
                    viol!(["P35"], "tls:rec12-nonce", "{}: explicit nonce {} used for two sequence numbers", ctx(), hx(&o[1..9]));
                }
                let want = seal(s, &key, &n, &ad(seq, typ, l), &data);
                if o[0] != typ || body != want {
                    viol!(["P35"], "tls:rec12-enc", "{}: type {} {} want {}", ctx(), o[0], hx(body), hx(&want));
                }
            }
        }
        let mk = |r: &mut Rng, adv: &[u8]| -> Vec<u8> {
            if g {
                let x = r.bytes(8);
                let mut n = iv.clone();
                n.extend_from_slice(&x);
                let mut o = x;
                o.extend(seal(s, &key, &n, adv, &data));
                o
            } else {
                seal(s, &key, &nonce(&iv, seq), adv, &data)
            }
        };
        let good = mk(r, &ad(seq, typ, l));
        let mut w2 = ty.to_vec();
        w2.extend_from_slice(&data);
        same("rec12-dec", t("rec_dec", &[&d, &sq, &ty, &good]), &w2, ctx);
        let how = match r.below(4) {
            0 => {
                let s2 = seq.wrapping_add(1 << r.below(64)).to_be_bytes();
                refused("rec12-seq", t("rec_dec", &[&d, &s2, &ty, &good]), ctx);
                "seq"
            }
            1 => {
                let t2 = [if typ == 23 { 22 } else { typ + 1 }];
                refused("rec12-type", t("rec_dec", &[&d, &sq, &t2, &good]), ctx);
                "type"
            }
            2 => {
                let z = mk(r, &ad(seq, typ, l + 1));
                refused("rec12-aad", t("rec_dec", &[&d, &sq, &ty, &z]), ctx);
                "aad"
            }
            _ => {
                let mut bad = good.clone();
                let how = damage(r, &mut bad);
                refused(&format!("rec12-{}", how), t("rec_dec", &[&d, &sq, &ty, &bad]), ctx);
                how
            }
        };
        w::eval(&format!("rec12 {} {} {} {}", s, typ, l.min(70), how));
    }
    t("drop", &[&e]);
    t("drop", &[&d]);
}

fn chunks<'a>(r: &mut Rng, d: &'a [u8]) -> Vec<&'a [u8]> {
    if r.chance(50, 100) {
        return vec![d];
    }
    let mut v = vec![];
    let mut at = 0;
    for n in r.split(d.len()) {
        v.push(&d[at..at + n]);
        at += n;
    }
    v
}

// ---- hashes and derivations ----
fn hash(r: &mut Rng) {
    let i = r.us(2);
    let h = H2[i];
    let ib = [i as u8];
    let parts: Vec<Vec<u8>> = (0..r.us(10)).map(|_| { let l = dlen(r).min(3000); r.bytes(l) }).collect();
    let refs: Vec<&[u8]> = parts.iter().map(|x| &x[..]).collect();
    if r.chance(60, 100) {
        let mut a: Vec<&[u8]> = vec![&ib];
        a.extend(&refs);
        let mut want = vec![];
        for n in 1..=parts.len() {
            let x = refc::hash(h, &parts[..n].concat());
            want.extend_from_slice(&x);
            want.extend_from_slice(&x);
        }
        let x = refc::hash(h, &parts.concat());
        want.extend_from_slice(&x);
        want.extend_from_slice(&x);
        same("hash", t("hash", &a), &want, || format!("{} over {:?}", h.name, parts.iter().map(|x| x.len()).collect::<Vec<_>>()));
        w::eval(&format!("hash {} {}", h.name, parts.len()));
    } else {
        let l = *r.pick(&[0usize, 1, 16, 32, 48, 63, 64, 65, 127, 128, 129, 200]);
        let key = r.bytes(l);
        let mut a: Vec<&[u8]> = vec![&ib, &key];
        a.extend(&refs);
        let e: &[u8] = &[];
        while a.len() < 4 {
            a.push(e);
        }
        // first, middle..., last
        let mut m = a[2].to_vec();
        m.extend(a[4..].concat());
        m.extend_from_slice(a[3]);
        let mut want = refc::hmac(h, &key, &m);
        want.extend(want.clone());
        same("hmac", t("hmac", &a), &want, || format!("{} key {} over {}", h.name, l, m.len()));
        w::eval(&format!("hmac {} {} {}", h.name, l, parts.len()));
    }
}
fn hkdf(r: &mut Rng) {
    let i = r.us(2);
    let h = H2[i];
    let ib = [i as u8];
    if r.chance(20, 100) {
        let k = r.bytes(h.len);
        let l = dlen(r);
        let m = r.bytes(l);
        same("hkdf-sign", t("hkdf_sign", &[&ib, &k, &m]), &refc::hmac(h, &k, &m), || format!("{} {}", h.name, l));
        w::eval(&format!("hkdf-sign {}", h.name));
        return;
    }
    let how = r.us(3);
    let l = *r.pick(&[0usize, 1, 32, 48, 64, 100]);
    let salt = r.bytes(l);
    // rustls gives an empty slice or nothing for "no salt", and RFC 5869 makes them equal
    let has = r.chance(70, 100);
    let sl = if how == 2 { h.len } else { *r.pick(&[1usize, 16, 32, 48, 66, 128]) };
    let sec = r.bytes(sl);
    let prk = match how {
        0 => refc::hkdf_extract(h, if has { &salt } else { &[] }, &vec![0u8; h.len]),
        1 => refc::hkdf_extract(h, if has { &salt } else { &[] }, &sec),
        _ => sec.clone(),
    };
    let mut infos: Vec<Vec<u8>> = (0..r.us(7)).map(|_| { let l = r.us(60); r.bytes(l) }).collect();
    if r.chance(10, 100) {
        // the largest label TLS can ask for: 2 + 1 + 255 + 1 + 255
        infos = vec![r.bytes(2), r.bytes(1), r.bytes(255), r.bytes(1), r.bytes(255)];
    }
    let n = *r.pick(&[1usize, 12, 16, 32, 33, 48, 64, 255, 1000]);
    let nb = (n as u64).to_be_bytes();
    let (hb, sb) = ([how as u8], [has as u8]);
    let mut a: Vec<&[u8]> = vec![&ib, &hb, &sb, &salt, &sec, &nb];
    a.extend(infos.iter().map(|x| &x[..]));
    let mut want = refc::hkdf_expand(h, &prk, &infos.concat(), n);
    want.extend(refc::hkdf_expand(h, &prk, &infos.concat(), h.len));
    let ctx = || format!("{} how {} salt {:?} secret {} infos {:?} out {}", h.name, how, has.then_some(l), sl, infos.iter().map(|x| x.len()).collect::<Vec<_>>(), n);
    same("hkdf", t("hkdf", &a), &want, ctx);
    if r.chance(10, 100) {
        let nb = (h.len as u64 * 255 + 1).to_be_bytes();
        a[5] = &nb;
        refused("hkdf-toolong", t("hkdf", &a), ctx);
    }
    w::eval(&format!("hkdf {} {} {} {} {}", h.name, how, has, n, infos.len()));
}
fn prf(r: &mut Rng) {
    let s = r.us(3);
    let l = *r.pick(&[1usize, 32, 48, 66, 128]);
    let sec = r.bytes(l);
    let lab: &[u8] = *r.pick(&[&b"master secret"[..], b"extended master secret", b"key expansion", b"client finished", b"server finished", b"EXPORTER-x"]);
    let l = *r.pick(&[0usize, 32, 48, 64, 77]);
    let seed = r.bytes(l);
    let n = *r.pick(&[12usize, 48, 40, 72, 88, 1, 300]);
    let nb = (n as u64).to_be_bytes();
    same("prf", t("prf", &[&[s as u8], &sec, lab, &seed, &nb]), &refc::tls12_prf(hs(s), &sec, lab, &seed, n), || format!("suite {} secret {} seed {} out {}", s, sec.len(), l, n));
    w::eval(&format!("prf {} {} {} {} {}", s, sec.len(), lab.len(), l, n));
}

// ---- key exchange ----
fn kx(r: &mut Rng) {
    let g = r.us(4);
    let gb = [g as u8];
    let Some(o) = t("kx", &[&gb]) else {
        viol!(["P35"], "tls-refused:kx", "group {}", g);
        return;
    };
    let (id, pubk) = o.split_at(8);
    let (peer, want) = if g == 0 {
        if pubk.len() != 32 {
            viol!(["P35"], "tls:kx-share", "X25519 share of {} bytes", pubk.len());
            return;
        }
        let k = r.bytes(32);
        (refc::mont_pub(refc::NID_X25519, &k), refc::mont_dh(refc::NID_X25519, &k, pubk))
    } else {
        let c = refc::CURVES[g - 1];
        if pubk.len() != 2 * c.len() + 1 || pubk[0] != 4 || !refc::ec_on_curve(c, pubk) {
            viol!(["P35"], "tls:kx-share", "{} share {}", c.name, hx(pubk));
            return;
        }
        let k = ops::ec_scalar(c, r);
        (refc::ec_mul(c, &k, None).unwrap(), refc::ecdh(c, &k, pubk))
    };
    let want = want.unwrap();
    let ctx = || format!("group {} share {} peer {}", g, hx(pubk), hx(&peer));
    if r.chance(70, 100) {
        same("kx", t("kx_done", &[id, &peer]), &want, ctx);
    } else {
        let s = r.us(3);
        let seed = r.bytes(48);
        let lab = b"extended master secret";
        same("kx-prf", t("prf_kx", &[&[s as u8], id, &peer, lab, &seed]), &refc::tls12_prf(hs(s), &want, lab, &seed, 48), ctx);
    }
    w::eval(&format!("kx {}", g));
}
fn kx_bad(r: &mut Rng) {
    let g = r.us(4);
    let Some(o) = t("kx", &[&[g as u8]]) else { return };
    let id = &o[..8];
    let (peer, how) = if g == 0 {
        // the points of small order give zeros, which TLS must not use
        match r.below(5) {
            0 => (vec![0u8; 32], "zero"),
            1 => {
                let mut v = vec![0u8; 32];
                v[0] = 1;
                (v, "one")
            }
            2 => (w::unhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"), "order8"),
            3 => {
                let l = *r.pick(&[0usize, 1, 31, 33, 64]);
                (r.bytes(l), "length")
            }
            _ => (w::unhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"), "p-1"),
        }
    } else {
        let c = refc::CURVES[g - 1];
        let k = ops::ec_scalar(c, r);
        let mut p = refc::ec_mul(c, &k, None).unwrap();
        match r.below(8) {
            0 => (vec![], "empty"),
            1 => (vec![4], "four"),
            2 => {
                let n = r.us(p.len());
                p.truncate(n.max(1));
                (p, "cut")
            }
            3 => {
                p.push(0);
                (p, "grow")
            }
            4 => {
                let n = p.len();
                p[n - 1] ^= 1;
                if refc::ec_on_curve(c, &p) {
                    return;
                }
                (p, "offcurve")
            }
            5 => {
                // compressed points are not a TLS encoding
                let y = p[p.len() - 1] & 1;
                p.truncate(1 + c.len());
                p[0] = 2 + y;
                (p, "compressed")
            }
            6 => {
                let y = p[p.len() - 1] & 1;
                p[0] = 6 + y;
                (p, "hybrid")
            }
            _ => (vec![0], "infinity"),
        }
    };
    refused(&format!("kx-{}", how), t("kx_done", &[id, &peer]), || format!("group {} peer {}", g, hx(&peer)));
    w::eval(&format!("kx-bad {} {}", g, how));
}

// ---- signatures ----
enum Sk {
    Rsa(usize),
    Ec(Curve, Vec<u8>, Vec<u8>),
    Ed(Vec<u8>, Vec<u8>),
}
struct Key {
    k: Sk,
    pkcs8: Vec<u8>,
    /// what the verifier gets: the content of the SPKI bit string
    pubk: Vec<u8>,
    spki: Vec<u8>,
    name: String,
}
struct Keys(Vec<Key>);
const OID_EC: &[u8] = &[6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
const OID_RSA: &[u8] = &[6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
const OID_ED: &[u8] = &[6, 3, 0x2b, 0x65, 0x70];
fn bits(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(b);
    refc::der(3, &v)
}
impl Keys {
    fn new(r: &mut Rng) -> Keys {
        use refc::{der, der_int, seq};
        let mut v = vec![];
        for i in 0..ops::nrsa() {
            let k = &keys::RSA[i];
            if k.bits < 2048 {
                continue;
            }
            let u = w::unhex;
            let pubk = seq(&[der_int(&u(k.n)), der_int(&u(k.e))]);
            v.push(Key {
                k: Sk::Rsa(i),
                pkcs8: refc::rsa_pkcs8(&u(k.n), &u(k.e), &u(k.d), &u(k.p), &u(k.q), &u(k.dp), &u(k.dq), &u(k.qi)),
                spki: seq(&[seq(&[OID_RSA.to_vec(), vec![5, 0]]), bits(&pubk)]),
                pubk,
                name: format!("rsa{}", k.bits),
            });
        }
        for c in refc::CURVES {
            let d = ops::ec_scalar(c, r);
            let mut dd = vec![0; c.len() - d.len().min(c.len())];
            dd.extend_from_slice(&d);
            let p = refc::ec_mul(c, &d, None).unwrap();
            let inner = seq(&[der_int(&[1]), der(4, &dd), der(0xa1, &bits(&p))]);
            let alg = seq(&[OID_EC.to_vec(), c.oid.to_vec()]);
            v.push(Key {
                pkcs8: seq(&[der_int(&[0]), alg.clone(), der(4, &inner)]),
                spki: seq(&[alg, bits(&p)]),
                pubk: p.clone(),
                k: Sk::Ec(c, dd, p),
                name: c.name.into(),
            });
        }
        let d = r.bytes(32);
        let p = refc::mont_pub(refc::NID_ED25519, &d);
        let alg = seq(&[OID_ED.to_vec()]);
        v.push(Key {
            pkcs8: seq(&[der_int(&[0]), alg.clone(), der(4, &der(4, &d))]),
            spki: seq(&[alg, bits(&p)]),
            pubk: p.clone(),
            k: Sk::Ed(d, p),
            name: "ed25519".into(),
        });
        Keys(v)
    }
}
const SCHEMES: [(u16, &str); 10] = [
    (0x0401, "pkcs1-256"),
    (0x0501, "pkcs1-384"),
    (0x0601, "pkcs1-512"),
    (0x0804, "pss-256"),
    (0x0805, "pss-384"),
    (0x0806, "pss-512"),
    (0x0403, "ecdsa-256"),
    (0x0503, "ecdsa-384"),
    (0x0603, "ecdsa-512"),
    (0x0807, "ed25519"),
];
fn sh(s: u16) -> Hash {
    match s {
        0x0401 | 0x0804 | 0x0403 => refc::SHA256,
        0x0501 | 0x0805 | 0x0503 => refc::SHA384,
        _ => refc::SHA512,
    }
}
/// may this key sign with this scheme in TLS 1.3
fn fits(k: &Key, s: u16) -> bool {
    match &k.k {
        Sk::Rsa(_) => matches!(s, 0x0401 | 0x0501 | 0x0601 | 0x0804..=0x0806),
        Sk::Ec(c, ..) => s == [0x0403, 0x0503, 0x0603][refc::CURVES.iter().position(|x| x == c).unwrap()],
        Sk::Ed(..) => s == 0x0807,
    }
}
fn ref_verify(k: &Key, s: u16, m: &[u8], sig: &[u8]) -> bool {
    let h = sh(s);
    match &k.k {
        Sk::Rsa(i) => {
            let rk = ops::rsa_ref(*i);
            if sig.len() != rk.k() {
                return false;
            }
            let em = rk.pubop(sig);
            let d = refc::hash(h, m);
            if s < 0x0800 {
                let mut di = refc::digestinfo(h);
                di.extend(d);
                refc::pkcs1_t1(rk.k(), &di).unwrap() == em
            } else {
                refc::pss_verify(keys::RSA[*i].bits, h, h, &d, h.len, &em)
            }
        }
        Sk::Ec(c, _, p) => refc::ecdsa_raw(*c, sig).is_some_and(|x| refc::ecdsa_verify(*c, p, &refc::hash(h, m), &x)),
        Sk::Ed(_, p) => refc::ed_verify(p, m, sig),
    }
}
/// signature of message m; slen: PSS salt length
fn ref_sign(r: &mut Rng, k: &Key, s: u16, m: &[u8], slen: usize) -> Vec<u8> {
    let h = sh(s);
    match &k.k {
        Sk::Rsa(i) => {
            let rk = ops::rsa_ref(*i);
            let d = refc::hash(h, m);
            let em = if s < 0x0800 {
                let mut di = refc::digestinfo(h);
                di.extend(d);
                refc::pkcs1_t1(rk.k(), &di).unwrap()
            } else {
                let salt = r.bytes(slen);
                refc::pss_encode(keys::RSA[*i].bits, h, h, &d, &salt).unwrap()
            };
            rk.privop(&em)
        }
        Sk::Ec(c, d, _) => refc::ecdsa_der(&refc::ecdsa_sign(*c, d, &refc::hash(h, m))),
        Sk::Ed(d, _) => refc::ed_sign(d, m),
    }
}
fn sign(r: &mut Rng, ks: &Keys) {
    let k = r.pick(&ks.0);
    let Some(id) = t("key", &[&k.pkcs8]) else {
        viol!(["P35"], "tls-refused:key", "private key {} refused", k.name);
        return;
    };
    let alg = match k.k {
        Sk::Rsa(_) => 1u8,
        Sk::Ec(..) => 3,
        Sk::Ed(..) => 7,
    };
    let mut want = vec![alg];
    want.extend_from_slice(&k.spki);
    same("key-info", t("key_info", &[&id]), &want, || format!("key {}", k.name));
    for _ in 0..3 {
        let mut off: Vec<u16> = SCHEMES.iter().map(|x| x.0).filter(|_| r.chance(40, 100)).collect();
        if r.chance(30, 100) {
            // others that no key here has
            off.push(*r.pick(&[0x0808u16, 0x0201, 0x0203, 0x0904]));
        }
        for i in (1..off.len()).rev() {
            let j = r.us(i + 1);
            off.swap(i, j);
        }
        let l = dlen(r);
        let m = r.bytes(l);
        let ob: Vec<u8> = off.iter().flat_map(|x| x.to_be_bytes()).collect();
        let can = off.iter().any(|s| fits(k, *s));
        let ctx = || format!("key {} offered {:x?} message {}", k.name, off, l);
        match try_t("sign", &[&id, &ob, &m]) {
            Err(-5) if !can => {}
            Err(_) if can => viol!(["P35"], &format!("tls-refused:sign:{}", k.name), "{}: no signature", ctx()),
            Err(_) => {}
            Ok(o) => {
                let s = u16::from_be_bytes([o[0], o[1]]);
                if !off.contains(&s) || !fits(k, s) {
                    viol!(["P35"], "tls:sign-scheme", "{}: scheme {:x}", ctx(), s);
                } else if !ref_verify(k, s, &m, &o[2..]) {
                    viol!(["P35"], &format!("tls:sign:{:x}", s), "{}: wrong signature {} by scheme {:x}", ctx(), hx(&o[2..]), s);
                }
            }
        }
        w::eval(&format!("sign {} {} {}", k.name, can, off.len()));
    }
    t("drop", &[&id]);
}
/// the verifiers of the provider: public key kind and scheme hash
fn vers(i: usize) -> (usize, u16) {
    // key: 0 RSA, 1..3 curves, 4 Ed25519
    match i {
        0..=5 => (0, SCHEMES[i].0),
        15 => (4, 0x0807),
        _ => {
            let hsh = (i - 6) / 3;
            let c = [[1, 2, 3], [2, 1, 3], [3, 1, 2]][hsh][(i - 6) % 3];
            (c, SCHEMES[6 + hsh].0)
        }
    }
}
fn kind(k: &Key) -> usize {
    match &k.k {
        Sk::Rsa(_) => 0,
        Sk::Ec(c, ..) => 1 + refc::CURVES.iter().position(|x| x == c).unwrap(),
        Sk::Ed(..) => 4,
    }
}
fn verify(r: &mut Rng, ks: &Keys) {
    let i = r.us(16);
    let (kn, s) = vers(i);
    let c: Vec<&Key> = ks.0.iter().filter(|k| kind(k) == kn).collect();
    let k = c[r.us(c.len())];
    let l = dlen(r);
    let m = r.bytes(l);
    let h = sh(s);
    let sig = ref_sign(r, k, s, &m, h.len);
    let ib = [i as u8];
    let ctx = || format!("verifier {} ({:x}) key {} message {} signature {}", i, s, k.name, l, hx(&sig));
    same("verify", t("verify", &[&ib, &k.pubk, &m, &sig]), &[], ctx);
    let mut s2 = sig.clone();
    let mut m2 = m.clone();
    let mut p2 = k.pubk.clone();
    let mut i2 = i;
    let how = match r.below(9) {
        0 => {
            damage(r, &mut m2);
            "message"
        }
        1 => {
            s2.push(0);
            "grow"
        }
        2 => {
            s2.clear();
            "empty"
        }
        3 => {
            // another scheme of the same key
            i2 = r.us(16);
            let (k2, _) = vers(i2);
            if i2 == i || k2 != kn {
                return;
            }
            "scheme"
        }
        4 if (0x0804..=0x0806).contains(&s) => {
            let sl = *r.pick(&[0usize, 20, h.len - 1, h.len + 1, 100]);
            s2 = ref_sign(r, k, s, &m, sl);
            "salt"
        }
        5 if kn == 0 => {
            // r.n + sig: the same value modulo n, of the right length or one more
            s2 = vec![0u8; sig.len()];
            "zero"
        }
        6 => {
            let n = p2.len();
            match r.below(3) {
                0 => p2.truncate(r.us(n)),
                1 => {
                    let x = r.us(n);
                    p2[x] ^= 1 << r.below(8);
                }
                _ => p2 = { let l = r.us(100); r.bytes(l) },
            }
            "pubkey"
        }
        7 if (1..=3).contains(&kn) => {
            s2 = refc::ecdsa_raw(refc::CURVES[kn - 1], &sig).unwrap();
            "raw"
        }
        _ => damage(r, &mut s2),
    };
    if how == "flip" || how == "cut" || how == "pubkey" || (how == "message" && m2 == m) {
        // a flipped bit in the encoding may leave the signature right (BER): ask the reference
        if how == "message" || (how != "pubkey" && kn == 0 && ref_verify(k, s, &m2, &s2)) {
            return;
        }
        if how == "pubkey" && p2 == k.pubk {
            return;
        }
    }
    refused(&format!("verify-{}", how), t("verify", &[&[i2 as u8], &p2, &m2, &s2]), ctx);
    w::eval(&format!("verify {} {} {}", i, k.name, how));
}

// ---- whole connections against libssl ----
type P = *mut c_void;
#[link(name = "ssl")]
extern "C" {
    fn TLS_method() -> P;
    fn SSL_CTX_new(m: P) -> P;
    fn SSL_CTX_free(c: P);
    fn SSL_CTX_ctrl(c: P, cmd: c_int, l: c_long, p: *mut c_void) -> c_long;
    fn SSL_CTX_use_certificate_ASN1(c: P, n: c_int, d: *const u8) -> c_int;
    fn SSL_CTX_use_PrivateKey(c: P, k: P) -> c_int;
    fn SSL_CTX_set_cipher_list(c: P, s: *const c_char) -> c_int;
    fn SSL_CTX_set_ciphersuites(c: P, s: *const c_char) -> c_int;
    fn SSL_CTX_set_verify(c: P, m: c_int, cb: P);
    fn SSL_new(c: P) -> P;
    fn SSL_free(s: P);
    fn SSL_set_bio(s: P, r: P, w: P);
    fn SSL_set_accept_state(s: P);
    fn SSL_set_connect_state(s: P);
    fn SSL_do_handshake(s: P) -> c_int;
    fn SSL_is_init_finished(s: P) -> c_int;
    fn SSL_read(s: P, b: *mut u8, n: c_int) -> c_int;
    fn SSL_write(s: P, b: *const u8, n: c_int) -> c_int;
    fn SSL_get_error(s: P, r: c_int) -> c_int;
    fn SSL_key_update(s: P, t: c_int) -> c_int;
    fn SSL_get_peer_signature_type_nid(s: P, n: *mut c_int) -> c_int;
}
#[link(name = "crypto")]
extern "C" {
    fn BIO_new(m: P) -> P;
    fn BIO_s_mem() -> P;
    fn BIO_read(b: P, d: *mut u8, n: c_int) -> c_int;
    fn BIO_write(b: P, d: *const u8, n: c_int) -> c_int;
    fn d2i_AutoPrivateKey(a: P, pp: *mut *const u8, l: c_long) -> P;
    fn EVP_PKEY_free(p: P);
    fn ERR_clear_error();
}
fn cert(r: &mut Rng, k: &Key) -> Vec<u8> {
    use refc::{der, der_int, seq};
    let (alg, s): (Vec<u8>, u16) = match &k.k {
        Sk::Rsa(_) => (seq(&[vec![6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11], vec![5, 0]]), 0x0401),
        Sk::Ec(..) => (seq(&[vec![6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2]]), 0x0403),
        Sk::Ed(..) => (seq(&[OID_ED.to_vec()]), 0x0807),
    };
    let name = seq(&[der(0x31, &seq(&[vec![6, 3, 0x55, 4, 3], der(0x0c, b"localhost")]))]);
    let san = seq(&[vec![6, 3, 0x55, 0x1d, 0x11], der(4, &seq(&[der(0x82, b"localhost")]))]);
    let sn = r.bytes(8);
    let tbs = seq(&[
        der(0xa0, &der_int(&[2])),
        der_int(&sn),
        alg.clone(),
        name.clone(),
        seq(&[der(0x17, b"200101000000Z"), der(0x17, b"491231235959Z")]),
        name,
        k.spki.clone(),
        der(0xa3, &seq(&[san])),
    ]);
    let sig = ref_sign(r, k, s, &tbs, 32);
    seq(&[tbs, alg, bits(&sig)])
}
struct Ssl {
    ctx: P,
    s: P,
    rb: P,
    wb: P,
    failed: bool,
}
impl Drop for Ssl {
    fn drop(&mut self) {
        unsafe {
            SSL_free(self.s);
            SSL_CTX_free(self.ctx);
            ERR_clear_error();
        }
    }
}
impl Ssl {
    fn new(server: bool, v: u8, suite: u8, groups: &str, cert: &[u8], key: &[u8]) -> Ssl {
        unsafe {
            let ctx = SSL_CTX_new(TLS_method());
            assert!(!ctx.is_null());
            let ver = if v == 12 { 0x303 } else { 0x304 };
            assert_eq!(SSL_CTX_ctrl(ctx, 123, ver, null_mut()), 1);
            assert_eq!(SSL_CTX_ctrl(ctx, 124, ver, null_mut()), 1);
            let g = CString::new(groups).unwrap();
            assert_eq!(SSL_CTX_ctrl(ctx, 92, 0, g.as_ptr() as P), 1, "{}", groups);
            // tickets add nothing here: SSL_CTX_set_num_tickets is left alone
            let (c13, c12) = match suite {
                0 => (c"TLS_AES_128_GCM_SHA256", c"ECDHE+AESGCM+AES128"),
                1 => (c"TLS_AES_256_GCM_SHA384", c"ECDHE+AESGCM+AES256"),
                2 => (c"TLS_CHACHA20_POLY1305_SHA256", c"ECDHE+CHACHA20"),
                _ => (c"TLS_AES_256_GCM_SHA384:TLS_CHACHA20_POLY1305_SHA256:TLS_AES_128_GCM_SHA256", c"ECDHE+AESGCM:ECDHE+CHACHA20"),
            };
            assert_eq!(SSL_CTX_set_ciphersuites(ctx, c13.as_ptr()), 1);
            assert_eq!(SSL_CTX_set_cipher_list(ctx, c12.as_ptr()), 1);
            SSL_CTX_set_verify(ctx, 0, null_mut());
            if server {
                assert_eq!(SSL_CTX_use_certificate_ASN1(ctx, cert.len() as c_int, cert.as_ptr()), 1, "certificate");
                let mut p = key.as_ptr();
                let k = d2i_AutoPrivateKey(null_mut(), &mut p, key.len() as c_long);
                assert!(!k.is_null());
                assert_eq!(SSL_CTX_use_PrivateKey(ctx, k), 1, "key");
                EVP_PKEY_free(k);
            }
            let s = SSL_new(ctx);
            let (rb, wb) = (BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem()));
            SSL_set_bio(s, rb, wb);
            if server {
                SSL_set_accept_state(s)
            } else {
                SSL_set_connect_state(s)
            }
            Ssl { ctx, s, rb, wb, failed: false }
        }
    }
    fn ok(&mut self, n: c_int) {
        let e = unsafe { SSL_get_error(self.s, n) };
        if e != 2 && e != 3 {
            self.failed = true;
        }
        unsafe { ERR_clear_error() };
    }
    /// wire bytes in, application data to send; wire bytes out, data received
    fn io(&mut self, wire: &[u8], app: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let (mut out, mut got) = (vec![], vec![]);
        unsafe {
            ERR_clear_error();
            if !wire.is_empty() {
                BIO_write(self.rb, wire.as_ptr(), wire.len() as c_int);
            }
            if !self.failed && SSL_is_init_finished(self.s) != 1 {
                let n = SSL_do_handshake(self.s);
                if n != 1 {
                    self.ok(n);
                }
            }
            if !self.failed && SSL_is_init_finished(self.s) == 1 {
                let mut b = vec![0u8; 20000];
                loop {
                    let n = SSL_read(self.s, b.as_mut_ptr(), b.len() as c_int);
                    if n <= 0 {
                        self.ok(n);
                        break;
                    }
                    got.extend_from_slice(&b[..n as usize]);
                }
                if !app.is_empty() && !self.failed {
                    let n = SSL_write(self.s, app.as_ptr(), app.len() as c_int);
                    if n <= 0 {
                        self.ok(n);
                    }
                }
            }
            let mut b = vec![0u8; 65536];
            loop {
                let n = BIO_read(self.wb, b.as_mut_ptr(), b.len() as c_int);
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&b[..n as usize]);
            }
        }
        (out, got)
    }
    fn done(&self) -> bool {
        !self.failed && unsafe { SSL_is_init_finished(self.s) == 1 }
    }
}
struct Rus {
    id: Vec<u8>,
    failed: bool,
    hs: bool,
}
impl Rus {
    fn io(&mut self, wire: &[u8], app: &[u8], upd: bool) -> (Vec<u8>, Vec<u8>) {
        let Some(o) = t("io", &[&self.id, wire, app, &[upd as u8]]) else {
            self.failed = true;
            return (vec![], vec![]);
        };
        self.failed |= o[0] == 1;
        self.hs = o[1] == 1;
        let n = u64::from_be_bytes(o[2..10].try_into().unwrap()) as usize;
        (o[10..10 + n].to_vec(), o[10 + n..].to_vec())
    }
}
impl Drop for Rus {
    fn drop(&mut self) {
        t("drop", &[&self.id]);
    }
}
/// whole records at the front of a stream
fn records(b: &mut Vec<u8>) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while b.len() >= 5 {
        let n = 5 + ((b[3] as usize) << 8 | b[4] as usize);
        if b.len() < n {
            break;
        }
        v.push(b.drain(..n).collect());
    }
    v
}
fn conn(r: &mut Rng, ks: &Keys) {
    let k = r.pick(&ks.0);
    let v = if r.chance(60, 100) { 13u8 } else { 12 };
    let client = r.chance(50, 100); // which side rustls is
    let suite = if r.chance(70, 100) { r.us(3) as u8 } else { 255 };
    let group = if r.chance(70, 100) { r.us(4) as u8 } else { 255 };
    // exactly as the provider gives it: with OpenSSL 3.0 that can only do Ed25519
    let plain = matches!(k.k, Sk::Ed(..)) && r.chance(60, 100);
    let all = ["X25519", "P-256", "P-384", "P-521"];
    // TLS 1.2 wants the curve of the certificate among the groups
    let curve = match &k.k {
        Sk::Ec(c, ..) if v == 12 => Some(c.name),
        _ => None,
    };
    let group = if curve.is_some() { 255 } else { group };
    let groups = if group != 255 {
        all[group as usize].to_string()
    } else {
        let mut g: Vec<&str> = all.iter().copied().filter(|_| r.chance(50, 100)).collect();
        if g.is_empty() {
            g.push(all[r.us(4)]);
        }
        if let Some(c) = curve {
            if !g.contains(&c) {
                g.push(c);
            }
        }
        let n = g.len();
        g.rotate_left(r.us(n));
        g.join(":")
    };
    let ce = cert(r, k);
    let (vb, pb, sb, gb) = ([v], [plain as u8], [suite], [group]);
    let id = if client { t("client", &[&vb, &pb, &sb, &gb, &ce]) } else { t("server", &[&vb, &pb, &sb, &gb, &ce, &k.pkcs8]) };
    let ctx = format!("rustls {} TLS 1.{} suite {} groups {} certificate {}{}", if client { "client" } else { "server" }, v - 10, suite, groups, k.name, if plain { " (provider as is)" } else { "" });
    w::ring(&ctx);
    let Some(id) = id else {
        viol!(["P35"], "tls-conn:start", "{}: no connection object", ctx);
        return;
    };
    let mut a = Rus { id, failed: false, hs: true };
    let mut b = Ssl::new(client, v, suite, &groups, &ce, &k.pkcs8);
    // a change made on the way: (to rustls?, which record of the handshake or of the data)
    let mitm = r.chance(50, 100);
    let hs_stage = r.chance(50, 100);
    let to_rus = r.chance(70, 100);
    let mut at = if mitm { if hs_stage { r.us(6) as i64 } else { r.us(4) as i64 } } else { -1 };
    let mut hit: Option<String> = None;
    // streams: what was sent and delivered as application data
    let (mut sent_a, mut sent_b, mut got_a, mut got_b) = (vec![], vec![], vec![], vec![]);
    let (mut wa, mut wb) = (vec![], vec![]); // wire towards a and b, not yet split into records
    let (mut limit_a, mut limit_b) = (usize::MAX, usize::MAX); // nothing past this may be delivered
    let mut rounds = 0;
    let total = 2 + r.us(6);
    let mut burst = 0;
    let mut idle = 0;
    loop {
        rounds += 1;
        let ready = !a.failed && !a.hs && b.done();
        let mut app_a = vec![];
        let mut app_b = vec![];
        let mut upd = false;
        if ready && burst < total {
            burst += 1;
            if r.chance(70, 100) {
                let l = dlen(r) + if r.chance(10, 100) { 20000 } else { 0 };
                app_a = r.bytes(l);
            }
            if r.chance(70, 100) {
                let l = dlen(r) + if r.chance(10, 100) { 20000 } else { 0 };
                app_b = r.bytes(l);
            }
            if v == 13 && r.chance(15, 100) {
                upd = true;
            }
            if v == 13 && r.chance(15, 100) {
                unsafe { SSL_key_update(b.s, r.below(2) as c_int) };
            }
        }
        // deliver records to a
        let mut moved = false;
        let mut change = |r: &mut Rng, rec: &mut Vec<u8>, at: &mut i64, here: bool, stage_hs: bool, hit: &mut Option<String>| -> bool {
            if *at < 0 || !here || stage_hs != hs_stage || hit.is_some() || (rec[0] == 20 && v == 13) || rec[0] == 21 || rec.len() <= 5 {
                return false;
            }
            if *at > 0 {
                *at -= 1;
                return false;
            }
            let i = 5 + r.us(rec.len() - 5);
            rec[i] ^= 1 << r.below(8);
            *hit = Some(format!("type {} byte {} of {}", rec[0], i - 5, rec.len() - 5));
            true
        };
        let mut for_a = vec![];
        for mut rec in records(&mut wa) {
            if change(r, &mut rec, &mut at, to_rus, !ready, &mut hit) {
                limit_a = if ready { sent_b.len() } else { 0 };
                if !ready {
                    limit_b = 0;
                }
            }
            for_a.extend(rec);
        }
        let mut for_b = vec![];
        for mut rec in records(&mut wb) {
            if change(r, &mut rec, &mut at, !to_rus, !ready, &mut hit) {
                limit_b = if ready { sent_a.len() } else { 0 };
                if !ready {
                    limit_a = 0;
                }
            }
            for_b.extend(rec);
        }
        // the wire cuts where it likes
        let cut = r.us(for_a.len() + 1);
        let cuts = if r.chance(50, 100) { vec![&for_a[..cut], &for_a[cut..]] } else { vec![&for_a[..]] };
        let n = cuts.len();
        for (i, c) in cuts.into_iter().enumerate() {
            let last = i + 1 == n;
            let app: &[u8] = if last { &app_a } else { &[] };
            let (o, g) = a.io(c, app, last && upd);
            moved |= !c.is_empty() || !o.is_empty();
            got_a.extend(g);
            wb.extend(o);
        }
        if !a.failed {
            sent_a.extend(app_a);
        }
        let (o, g) = b.io(&for_b, &app_b);
        moved |= !for_b.is_empty() || !o.is_empty();
        got_b.extend(g);
        wa.extend(o);
        if !b.failed {
            sent_b.extend(app_b);
        }
        idle = if moved { 0 } else { idle + 1 };
        let over = burst >= total && wa.is_empty() && wb.is_empty();
        if idle > 2 || over || rounds > 200 {
            break;
        }
    }
    let done = !a.hs && b.done();
    if !sent_b.starts_with(&got_a) || !sent_a.starts_with(&got_b) {
        viol!(["P35"], "tls-conn:data", "{}: data delivered that was not sent: {} of {} and {} of {} (change {:?})", ctx, got_a.len(), sent_b.len(), got_b.len(), sent_a.len(), hit);
    }
    match &hit {
        None => {
            if a.failed || b.failed || !done {
                viol!(["P35"], &format!("tls-conn:failed:{}:1.{}:{}", if client { "client" } else { "server" }, v - 10, k.name), "{}: rustls {} libssl {} handshake done {}", ctx, if a.failed { "failed" } else { "fine" }, if b.failed { "failed" } else { "fine" }, done);
            } else if got_a.len() != sent_b.len() || got_b.len() != sent_a.len() {
                viol!(["P35"], "tls-conn:lost", "{}: delivered {} of {} and {} of {}", ctx, got_a.len(), sent_b.len(), got_b.len(), sent_a.len());
            }
            if done && !client {
                let mut n = 0;
                unsafe { SSL_get_peer_signature_type_nid(b.s, &mut n) };
                w::eval(&format!("peer signature {} {}", k.name, n));
            }
        }
        Some(h) => {
            if got_a.len() > limit_a || got_b.len() > limit_b {
                viol!(["P35"], &format!("tls-conn:accepted-change:{}", if hs_stage { "handshake" } else { "data" }), "{}: after a change ({}) {} and {} bytes were delivered, at most {} and {} may be", ctx, h, got_a.len(), got_b.len(), limit_a, limit_b);
            }
            if !hs_stage && to_rus && !a.failed {
                viol!(["P35"], "tls-conn:not-noticed", "{}: a changed record ({}) did not fail the connection", ctx, h);
            }
        }
    }
    w::count("handshakes", done as u64);
    w::count("changed records", hit.is_some() as u64);
    w::count("bytes", (got_a.len() + got_b.len()) as u64);
    w::eval(&format!("conn {} {} {} {} {} {} {} {}", client, v, suite, groups, k.name, plain, hit.as_deref().map(|_| if hs_stage { "hs" } else { "data" }).unwrap_or("-"), done));
}
