//! P14-P18: cryptographic correctness against the reference implementation.
use crate::c::{self, *};
use crate::ops::*;
use crate::p11::*;
use crate::refc;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, viol, Job};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let b = if th { 240_000 } else { 22_000 };
    match prop {
        "P14" => (0..8).map(|i| job(["crypto.aes", "crypto.aes", "crypto.aes", "crypto.rsaenc", "crypto.kw", "crypto.badparam", "crypto.pads", "crypto.roundtrip"][i], i as u64, b)).collect(),
        "P15" => (0..8).map(|i| job(["crypto.multi", "crypto.multi", "crypto.multi", "crypto.multi", "crypto.multi", "crypto.inplace", "crypto.dual", "crypto.msg"][i], i as u64, b)).collect(),
        "P16" => (0..6).map(|i| job(["crypto.digest", "crypto.mac", "crypto.mac", "crypto.mactamper", "crypto.mactamper", "crypto.digestkey"][i], i as u64, b)).collect(),
        "P17" => (0..8).map(|i| job(["crypto.sig", "crypto.sig", "crypto.sig", "crypto.sigtamper", "crypto.sigtamper", "crypto.sigtamper", "crypto.sigpair", "crypto.sigtamper"][i], i as u64, b)).collect(),
        "P18" => (0..8).map(|i| job(["crypto.aeadtamper", "crypto.aeadtamper", "crypto.aeadtamper", "crypto.aeadmulti", "crypto.aeadmulti", "crypto.aeadmsg", "crypto.kwtamper", "crypto.unwraptamper"][i], i as u64, b)).collect(),
        _ => vec![],
    }
}
pub fn run(prop: &str, job: &str, arg: u64, r: &mut Rng) {
    let t = fresh("t");
    let s = t.rw_user();
    let mut ks = Keys::new(s);
    let _ = arg;
    match job {
        "crypto.aes" => direct(prop, s, &mut ks, r, |r| aes_case(r, None)),
        "crypto.kw" => direct(prop, s, &mut ks, r, kw_case),
        "crypto.rsaenc" => direct(prop, s, &mut ks, r, rsa_enc_case),
        "crypto.digest" => direct(prop, s, &mut ks, r, digest_case),
        "crypto.mac" => direct(prop, s, &mut ks, r, mac_case),
        "crypto.sig" => direct(prop, s, &mut ks, r, sig_case),
        "crypto.multi" => multi(s, &mut ks, r),
        "crypto.roundtrip" => roundtrip(s, &mut ks, r),
        "crypto.badparam" => badparam(s, &mut ks, r),
        "crypto.pads" => pads(s, &mut ks, r),
        "crypto.inplace" => inplace(s, &mut ks, r),
        "crypto.dual" => dual(s, &mut ks, r),
        "crypto.msg" => msg(s, &mut ks, r),
        "crypto.mactamper" => tamper("P16", s, &mut ks, r, mac_case),
        "crypto.sigtamper" => match arg % 2 {
            0 => tamper("P17", s, &mut ks, r, sig_case),
            _ => forge(s, &mut ks, r),
        },
        "crypto.sigpair" => sigpair(s, &mut ks, r),
        "crypto.digestkey" => digestkey(s, &mut ks, r),
        "crypto.aeadtamper" => aeadtamper(s, &mut ks, r, false),
        "crypto.aeadmulti" => aeadtamper(s, &mut ks, r, true),
        "crypto.aeadmsg" => aeadmsg(s, &mut ks, r),
        "crypto.kwtamper" => kwtamper(s, &mut ks, r),
        "crypto.unwraptamper" => unwraptamper(s, &mut ks, r),
        _ => panic!("job {}", job),
    }
    t.end();
}
fn direct(prop: &str, s: H, ks: &mut Keys, r: &mut Rng, g: impl Fn(&mut Rng) -> Case) {
    while w::time_left() {
        let cs = g(r);
        let k = match &cs.key {
            Some(t) => ks.get(t).must("C_CreateObject(key)"),
            None => 0,
        };
        let got = run_one(s, &cs, k);
        w::eval(&format!("{:?} {}", cs.kind, cs.class));
        if !good(&cs, &got) {
            viol!([prop], &format!("oneshot:{:?}:{}:{}", cs.kind, cs.fam, rn(&got)), "{} gave {}, expected {}", cs.show(), showr(&got), showw(&cs));
            reset(s, cs.kind);
        }
    }
}
/// what the token makes the token undoes; other direction with the counterpart key
fn roundtrip(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let mut cs = match r.below(3) {
            0 => rsa_enc_case(r),
            1 => kw_case(r),
            _ => aes_case(r, None),
        };
        if cs.kind != Kind::Enc {
            continue;
        }
        let k = ks.get(cs.key.as_ref().unwrap()).must("C_CreateObject(key)");
        let k2 = ks.get(cs.key2.as_ref().unwrap()).must("C_CreateObject(key)");
        let ct = run_one(s, &cs, k);
        w::eval(&format!("roundtrip {}", cs.class));
        if !good(&cs, &ct) {
            viol!(["P14"], &format!("oneshot:{:?}:{}:{}", cs.kind, cs.fam, rn(&ct)), "{} gave {}, expected {}", cs.show(), showr(&ct), showw(&cs));
            reset(s, cs.kind);
            continue;
        }
        let mut p = cs.input.clone();
        if cs.fam == "rsa-x509-enc" {
            let mut q = vec![0; ct.as_ref().unwrap().len() - p.len()];
            q.extend_from_slice(&p);
            p = q;
        }
        cs.kind = Kind::Dec;
        cs.input = ct.unwrap();
        cs.want = Want::Bytes(p);
        let back = run_one(s, &cs, k2);
        if !good(&cs, &back) {
            viol!(["P14"], &format!("roundtrip:{}:{}", cs.fam, rn(&back)), "decrypting the token's own output: {} gave {}, expected {}", cs.show(), showr(&back), showw(&cs));
            reset(s, cs.kind);
        }
    }
}
fn multi(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let cs = any_case(r);
        if !cs.multi {
            continue;
        }
        let k = match &cs.key {
            Some(t) => ks.get(t).must("C_CreateObject(key)"),
            None => 0,
        };
        let mut sp = r.split(cs.input.len());
        if sp.is_empty() {
            sp.push(0);
        }
        let got = run_multi(s, &cs, k, &sp);
        w::eval(&format!("{:?} {} pieces{}", cs.kind, cs.class, sp.len().min(6)));
        w::count("update calls", sp.len() as u64);
        if !good(&cs, &got) {
            let one = {
                reset(s, cs.kind);
                run_one(s, &cs, k)
            };
            if good(&cs, &one) {
                viol!(["P15"], &format!("multi:{:?}:{}:{}", cs.kind, cs.fam, rn(&got)), "{} in pieces {:?} gave {}, one call gives {}", cs.show(), &sp[..sp.len().min(60)], showr(&got), showr(&one));
            } else {
                w::count("one-shot also wrong", 1);
                if got != one {
                    viol!(["P15"], &format!("multi-both:{:?}:{}:{}", cs.kind, cs.fam, rn(&got)), "{} in pieces {:?} gave {}, one call gives {}, expected {}", cs.show(), &sp[..sp.len().min(60)], showr(&got), showr(&one), showw(&cs));
                }
            }
            reset(s, cs.kind);
        }
    }
}

/// parameters and lengths that must be refused
fn badparam(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let k = keybytes(r);
        let key = aes_key(&k);
        let iv = r.bytes(16);
        let enc = r.bool();
        let n16 = 16 * r.range(1, 8);
        let (mut key, m, d, what): (T, M, Vec<u8>, &str) = {
            match r.below(16) {
                0 => {
                    let ty = *r.pick(&[CKM_AES_CBC, CKM_AES_CBC_PAD, CKM_AES_CTS, CKM_AES_OFB, CKM_AES_CFB8, CKM_AES_CFB1, CKM_AES_CFB128, CKM_AES_CTR]);
                    let l = *r.pick(&[0usize, 1, 8, 12, 15, 17, 32]);
                    (key, M::raw(ty, &r.bytes(l)), r.bytes(n16), "iv length")
                }
                1 => {
                    let d = n16 + r.range(1, 15);
                    (key, M::new(CKM_AES_ECB), r.bytes(d), "ECB data length")
                }
                2 => {
                    let d = n16 + r.range(1, 15);
                    (key, M::raw(CKM_AES_CBC, &iv), r.bytes(d), "CBC data length")
                }
                3 => {
                    let d = r.us(16);
                    (key, M::raw(CKM_AES_CTS, &iv), r.bytes(d), "CTS data length")
                }
                4 => (key, ctr_m(&iv, *r.pick(&[0usize, 129, 130, 256, 1 << 20, usize::MAX])), r.bytes(n16), "CTR counter bits"),
                5 => {
                    let bits = r.range(1, 10);
                    let room = refc::ctr_room(&iv, bits) as usize * 16;
                    let d = room + r.range(1, 40);
                    (key, ctr_m(&iv, bits), r.bytes(d), "CTR counter space exceeded")
                }
                6 => {
                    let tl = *r.pick(&[17usize, 18, 32, 1000]);
                    (key, gcm_m(&iv[..12], b"", tl), r.bytes(n16 + 32), "GCM tag length")
                }
                7 => (key, gcm_m(b"", b"aad", 16), r.bytes(n16 + 32), "GCM empty IV"),
                8 => {
                    let nl = *r.pick(&[0usize, 1, 6, 14, 15, 16]);
                    let d = r.bytes(64);
                    (key, ccm_m(&iv[..nl], b"aad", 16, if enc { 64 } else { 48 }), d, "CCM nonce length")
                }
                9 => {
                    let tl = *r.pick(&[0usize, 1, 2, 3, 5, 7, 9, 11, 13, 15, 17, 18, 32]);
                    (key, ccm_m(&iv[..12], b"aad", tl, if enc { 64 } else { 64 - tl.min(63) }), r.bytes(64), "CCM MAC length")
                }
                10 => {
                    let dl = *r.pick(&[0usize, 1, 63, 65, 100, 1 << 20, usize::MAX]);
                    if !enc && dl == 48 {
                        continue;
                    }
                    (key, ccm_m(&iv[..12], b"aad", 16, dl), r.bytes(64), "CCM data length differs")
                }
                11 => {
                    let l = *r.pick(&[1usize, 7, 9, 15, 16]);
                    (key, M::raw(CKM_AES_KEY_WRAP, &r.bytes(l)), r.bytes(32), "KW IV length")
                }
                12 => {
                    let l = *r.pick(&[1usize, 3, 5, 8, 16]);
                    (key, M::raw(CKM_AES_KEY_WRAP_KWP, &r.bytes(l)), r.bytes(32), "KWP IV length")
                }
                13 => {
                    let l = *r.pick(&[1usize, 7, 9, 15, 17, 23]);
                    (key, M::new(CKM_AES_KEY_WRAP), r.bytes(l), "KW data length")
                }
                14 => {
                    let i = rsa_index(r);
                    let kl = rsa_ref(i).k();
                    let (m, d, what) = match r.below(5) {
                        0 => (M::new(CKM_RSA_PKCS), r.bytes(kl - 10 + if enc { 0 } else { 11 }), "RSA PKCS data too long"),
                        1 => {
                            let mut d = vec![0xff; kl];
                            d[kl - 1] = r.next() as u8;
                            (M::new(CKM_RSA_X_509), d, "RSA X.509 data above the modulus")
                        }
                        2 => {
                            let (hm, mg, h) = *r.pick(&OAEP_HASHES);
                            if 2 * h.len + 2 > kl {
                                continue;
                            }
                            (oaep_m(hm, mg, b""), r.bytes(kl - 2 * h.len - 1 + if enc { 0 } else { 2 * h.len + 2 }), "OAEP data too long")
                        }
                        3 => (oaep_m(*r.pick(&[0, CKM_AES_ECB, CKM_SHA256_HMAC, 0x12345678]), CKG_MGF1_SHA256, b""), r.bytes(if enc { 10 } else { kl }), "OAEP unknown hash"),
                        _ => (oaep_m(CKM_SHA256, *r.pick(&[0, 99, 0x77777777]), b""), r.bytes(if enc { 10 } else { kl }), "OAEP unknown MGF"),
                    };
                    (if enc { rsa_pub(i) } else { rsa_priv(i) }, m, d, what)
                }
                _ => {
                    // struct parameter truncated
                    let m = match r.below(3) {
                        0 => gcm_m(&iv[..12], b"", 16),
                        1 => ccm_m(&iv[..12], b"", 16, if enc { n16 } else { n16 - 16 + 16 }),
                        _ => ctr_m(&iv, 128),
                    };
                    let n = m.plen() as usize;
                    let l = r.us(n);
                    (key, m.setlen(l), r.bytes(n16 + 16), "truncated parameter")
                }
            }
        };
        let k = ks.get(&key).must("C_CreateObject(key)");
        let cs = Case { kind: if enc { Kind::Enc } else { Kind::Dec }, m, key: Some(key), key2: None, input: d, sig: vec![], want: Want::Accept, multi: false, class: what.into(), aead: None, fam: "bad" };
        let one = run_one(s, &cs, k);
        w::eval(&format!("bad {} {} {}", what, ckmn(cs.m.ty), rn(&one)));
        if let Ok(v) = &one {
            viol!(["P14"], &format!("accepted:{}:{}", what, ckmn(cs.m.ty)), "{} was accepted and gave {} bytes: {}", what, v.len(), cs.show());
        } else {
            reset(s, cs.kind);
        }
        if !what.starts_with("RSA") && !what.starts_with("OAEP") && !what.starts_with("KW") && !what.contains("CTS") && cs.input.len() < 20000 {
            let sp = r.split(cs.input.len());
            let got = run_multi(s, &cs, k, &sp);
            if let Ok(v) = &got {
                viol!(["P14", "P15"], &format!("accepted-multi:{}:{}", what, ckmn(cs.m.ty)), "{} was accepted in pieces {:?} and gave {} bytes: {}", what, sp, v.len(), cs.show());
            } else {
                reset(s, cs.kind);
            }
        }
    }
}
/// padding oracle free-form: any last block; accepted exactly when the padding is right
fn pads(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let k = keybytes(r);
        let iv = r.bytes(16);
        let n = 16 * r.range(1, 5);
        let mut p = r.bytes(n);
        match r.below(6) {
            0 => p[n - 1] = 0,
            1 => p[n - 1] = 16 + r.range(1, 30) as u8,
            2 => {
                let v = r.range(1, 16);
                for i in 0..v {
                    p[n - 1 - i] = v as u8;
                }
            }
            3 => {
                let v = r.range(2, 16);
                for i in 0..v {
                    p[n - 1 - i] = v as u8;
                }
                let j = r.range(1, v - 1);
                p[n - 1 - j] ^= 1 << r.below(8);
            }
            4 => {
                for i in 0..16 {
                    p[n - 1 - i] = 16
                }
            }
            _ => p[n - 1] = r.range(0, 17) as u8,
        }
        let ct = refc::cbc_enc(&k, &iv, &p);
        let want = refc::unpad7(&p);
        let key = aes_key(&k);
        let h = ks.get(&key).must("C_CreateObject(key)");
        let cs = Case { kind: Kind::Dec, m: M::raw(CKM_AES_CBC_PAD, &iv), key: Some(key), key2: None, input: ct, sig: vec![], want: Want::Accept, multi: true, class: "pad".into(), aead: None, fam: "cbcpad" };
        let got = if r.bool() { run_one(s, &cs, h) } else { run_multi(s, &cs, h, &r.split(cs.input.len())) };
        w::eval(&format!("pad n{} last{} {}", n, p[n - 1].min(18), rn(&got)));
        match (&want, &got) {
            (Some(a), Ok(b)) if a == b => {}
            (None, Err(_)) => reset(s, Kind::Dec),
            _ => {
                viol!(["P14"], &format!("padding:{}", rn(&got)), "CBC_PAD decryption of a last block {} gave {}, expected {}", w::hex(&p[n - 16..]), showr(&got), want.map(|x| w::hx(&x)).unwrap_or("an error".into()));
                reset(s, Kind::Dec);
            }
        }
    }
}
fn inplace(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let cs = match r.below(5) {
            0 => kw_case(r),
            1 => rsa_enc_case(r),
            _ => aes_case(r, None),
        };
        let k = ks.get(cs.key.as_ref().unwrap()).must("C_CreateObject(key)");
        if init(s, &cs, k).is_err() {
            reset(s, cs.kind);
            continue;
        }
        let enc = cs.kind == Kind::Enc;
        // output may start at the input (same place)
        let call = |upd: bool, buf: &mut Vec<u8>, n: usize| -> (RV, usize) {
            let mut l = buf.len() as CK_ULONG;
            let p = buf.as_mut_ptr();
            let f = fl();
            let rv = unsafe {
                match (enc, upd) {
                    (true, false) => (f.C_Encrypt.unwrap())(s, p, n as u64, p, &mut l),
                    (true, true) => (f.C_EncryptUpdate.unwrap())(s, p, n as u64, p, &mut l),
                    (false, false) => (f.C_Decrypt.unwrap())(s, p, n as u64, p, &mut l),
                    (false, true) => (f.C_DecryptUpdate.unwrap())(s, p, n as u64, p, &mut l),
                }
            };
            (rv, l as usize)
        };
        let mut out = vec![];
        let mut rv;
        let mut sp = vec![];
        if cs.multi && r.chance(2, 3) {
            sp = r.split(cs.input.len());
            if sp.is_empty() {
                sp.push(0)
            }
            let mut p = 0;
            rv = CKR_OK;
            for n in &sp {
                let mut b = cs.input[p..p + n].to_vec();
                b.resize(if cs.fam == "ccm" { room(&cs) } else { n + 64 }, 0);
                let (v, l) = call(true, &mut b, *n);
                rv = v;
                if rv != CKR_OK {
                    break;
                }
                out.extend_from_slice(&b[..l.min(b.len())]);
                p += n;
            }
            if rv == CKR_OK {
                match fin_o(s, &cs, Some(room(&cs))).val() {
                    Ok(v) => out.extend(v),
                    Err(e) => rv = e,
                }
            }
        } else {
            let mut b = cs.input.clone();
            b.resize(room(&cs), 0);
            let (v, l) = call(false, &mut b, cs.input.len());
            rv = v;
            out = b[..l.min(b.len())].to_vec();
        }
        let got = if rv == CKR_OK { Ok(out) } else { Err(rv) };
        w::eval(&format!("inplace {:?} {} pieces{}", cs.kind, cs.class, sp.len().min(5)));
        if !good(&cs, &got) {
            viol!(["P15"], &format!("inplace:{:?}:{}:{}:{}", cs.kind, cs.fam, if sp.is_empty() { "one" } else { "multi" }, rn(&got)), "{} with output in the input buffer, pieces {:?}, gave {}, expected {}", cs.show(), &sp[..sp.len().min(60)], showr(&got), showw(&cs));
            reset(s, cs.kind);
        }
    }
}
/// dual-function calls against the two operations run separately
fn dual(s: H, ks: &mut Keys, r: &mut Rng) {
    const STREAMS: [&str; 8] = ["ecb", "cbc", "cbcpad", "ctr", "gcm", "ofb", "cfb8", "cfb128"];
    while w::time_left() {
        let nm = *r.pick(&STREAMS);
        let mut a = aes_case(r, Some(nm));
        let which = r.below(4); // digest-enc, dec-digest, sign-enc, dec-verify
        let enc = which == 0 || which == 2;
        let mut guard = 0;
        while (a.kind == Kind::Enc) != enc && guard < 50 {
            a = aes_case(r, Some(nm));
            guard += 1;
        }
        if (a.kind == Kind::Enc) != enc {
            continue;
        }
        let plain = if enc { a.input.clone() } else if let Want::Bytes(b) = &a.want { b.clone() } else { continue };
        // the partner works on the plaintext
        let (b, bk): (Case, H) = match which {
            0 | 1 => {
                let (m, h) = *r.pick(&DIGESTS);
                (Case { kind: Kind::Dig, m: M::new(m), key: None, key2: None, input: plain.clone(), sig: vec![], want: Want::Bytes(refc::hash(h, &plain)), multi: true, class: h.name.into(), aead: None, fam: "digest" }, 0)
            }
            _ => {
                let (mp, _, h, _) = *r.pick(&HMACS);
                let kb = r.bytes(32);
                let t = gen_key(&kb);
                let mac = refc::hmac(h, &kb, &plain);
                let hk = ks.get(&t).must("C_CreateObject(key)");
                (Case { kind: if which == 2 { Kind::Sign } else { Kind::Ver }, m: M::new(mp), key: Some(t), key2: None, input: plain.clone(), sig: mac.clone(), want: if which == 2 { Want::Bytes(mac) } else { Want::Accept }, multi: true, class: h.name.into(), aead: None, fam: "hmac" }, hk)
            }
        };
        let ak = ks.get(a.key.as_ref().unwrap()).must("C_CreateObject(key)");
        let (x, y) = (init(s, &a, ak), init(s, &b, bk));
        if x.is_err() || y.is_err() {
            viol!(["P15", "P22"], &format!("dual-init:{}:{}", rn(&x), rn(&y)), "initialising {} and {} together gave {} and {}", a.show(), b.show(), rn(&x), rn(&y));
            reset(s, a.kind);
            reset(s, b.kind);
            continue;
        }
        let mut sp = r.split(a.input.len());
        if sp.is_empty() {
            sp.push(0)
        }
        if sp.len() > 300 {
            sp = vec![a.input.len()];
        }
        let mut out = vec![];
        let mut err = None;
        let mut p = 0;
        for n in &sp {
            let d = &a.input[p..p + n];
            p += n;
            let cap = Some(n + 64);
            let o = match which {
                0 => c::digest_encrypt_update_o(s, d, cap),
                1 => c::decrypt_digest_update_o(s, d, cap),
                2 => c::sign_encrypt_update_o(s, d, cap),
                _ => c::decrypt_verify_update_o(s, d, cap),
            };
            match o.val() {
                Ok(v) => out.extend(v),
                Err(e) => {
                    err = Some(e);
                    break;
                }
            }
        }
        let mut got: R<Vec<u8>> = match err {
            Some(e) => Err(e),
            None => Ok(out),
        };
        if got.is_ok() {
            match fin_o(s, &a, Some(room(&a))).val() {
                Ok(v) => {
                    // the plaintext of a final part has not been seen by the partner
                    if which == 1 || which == 3 {
                        if !v.is_empty() {
                            let _ = upd_o(s, &b, &v, None);
                        }
                    }
                    got.as_mut().unwrap().extend(v)
                }
                Err(e) => got = Err(e),
            }
        }
        let gb = if got.is_ok() { fin_o(s, &b, Some(200)).val() } else { Err(CKR_FUNCTION_CANCELED) };
        w::eval(&format!("dual{} {} {} p{}", which, a.class, b.class, sp.len().min(4)));
        if !good(&a, &got) {
            viol!(["P15"], &format!("dual:{}:{}:{}", which, a.fam, rn(&got)), "dual call {} in pieces {:?}: {} gave {}, expected {}", which, &sp[..sp.len().min(60)], a.show(), showr(&got), showw(&a));
        } else if !good(&b, &gb) {
            viol!(["P15"], &format!("dual-partner:{}:{}:{}", which, a.fam, rn(&gb)), "dual call {} with {} in pieces {:?}: {} gave {}, expected {}", which, a.show(), &sp[..sp.len().min(60)], b.show(), showr(&gb), showw(&b));
        }
        if got.is_err() || gb.is_err() {
            reset(s, a.kind);
            reset(s, b.kind);
        }
    }
}
pub struct Msg {
    pub m: M,
    pub iv: std::sync::Arc<Vec<u8>>,
    pub tag: std::sync::Arc<Vec<u8>>,
}
pub fn gcm_msg(iv: &[u8], tag: &[u8]) -> Msg {
    let (i, t) = (arc(iv), arc(tag));
    let p = CK_GCM_MESSAGE_PARAMS { pIv: aptr(&i), ulIvLen: iv.len() as u64, ulIvFixedBits: 0, ivGenerator: CKG_NO_GENERATE, pTag: aptr(&t), ulTagBits: tag.len() as u64 * 8 };
    Msg { m: M::st(CKM_AES_GCM, &p, vec![i.clone(), t.clone()], &format!("msg iv={} tag={}", w::hx(iv), tag.len())), iv: i, tag: t }
}
pub fn ccm_msg(nonce: &[u8], tag: &[u8], dlen: usize) -> Msg {
    let (i, t) = (arc(nonce), arc(tag));
    let p = CK_CCM_MESSAGE_PARAMS { ulDataLen: dlen as u64, pNonce: aptr(&i), ulNonceLen: nonce.len() as u64, ulNonceFixedBits: 0, nonceGenerator: CKG_NO_GENERATE, pMAC: aptr(&t), ulMACLen: tag.len() as u64 };
    Msg { m: M::st(CKM_AES_CCM, &p, vec![i.clone(), t.clone()], &format!("msg nonce={} mac={} dlen={}", w::hx(nonce), tag.len(), dlen)), iv: i, tag: t }
}
fn vread(a: &std::sync::Arc<Vec<u8>>) -> Vec<u8> {
    (0..a.len()).map(|i| unsafe { a.as_ptr().add(i).read_volatile() }).collect()
}
/// message based AEAD: several messages under one init, whole or in parts, against the reference
fn msg(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let k = keybytes(r);
        let gcm = r.bool();
        let enc = r.bool();
        let ty = if gcm { CKM_AES_GCM } else { CKM_AES_CCM };
        let key = aes_key(&k);
        let h = ks.get(&key).must("C_CreateObject(key)");
        let i = if enc { c::msg_encrypt_init(s, &M::new(ty), h) } else { c::msg_decrypt_init(s, &M::new(ty), h) };
        if i.is_err() {
            viol!(["P15"], &format!("msg-init:{}", rn(&i)), "message init gave {}", rn(&i));
            return;
        }
        let nm = r.range(1, 5);
        let mut bad = false;
        for j in 0..nm {
            let ivl = if gcm { *r.pick(&[12usize, 12, 8, 16, 13]) } else { r.range(7, 13) };
            let iv = r.bytes(ivl);
            let al = r.len(80);
            let aad = r.bytes(al);
            let tl = if gcm { *r.pick(&[16usize, 12, 13, 14, 15, 8, 4]) } else { *r.pick(&[4usize, 6, 8, 10, 12, 14, 16]) };
            let n = r.len(600).max(1);
            let p = r.bytes(n);
            let (ct, tag) = if gcm { refc::gcm(&k, &iv, &aad, &p, true) } else { refc::ccm(&k, &iv, &aad, &p, tl, true) };
            let tag = tag[..tl].to_vec();
            let tb = if enc { vec![0x11; tl] } else { tag.clone() };
            let ms = if gcm { gcm_msg(&iv, &tb) } else { ccm_msg(&iv, &tb, n) };
            let (inp, want) = if enc { (&p, &ct) } else { (&ct, &p) };
            let parts = r.bool();
            let mut sp = vec![];
            let got: R<Vec<u8>> = if !parts {
                if enc { c::encrypt_message_o(s, &ms.m, &aad, inp, Some(n)).val() } else { c::decrypt_message_o(s, &ms.m, &aad, inp, Some(n)).val() }
            } else {
                sp = r.split(n).into_iter().filter(|x| *x > 0).collect::<Vec<_>>();
                let b = if enc { c::encrypt_message_begin(s, &ms.m, &aad) } else { c::decrypt_message_begin(s, &ms.m, &aad) };
                match b {
                    Err(e) => Err(e),
                    Ok(()) => {
                        let mut out = vec![];
                        let mut e = None;
                        let mut q = 0;
                        for (x, l) in sp.iter().enumerate() {
                            let last = x + 1 == sp.len();
                            let d = &inp[q..q + l];
                            q += l;
                            let cap = Some(if gcm { *l } else { n });
                            let o = if enc { c::encrypt_message_next_o(s, &ms.m, d, cap, last) } else { c::decrypt_message_next_o(s, &ms.m, d, cap, last) };
                            match o.val() {
                                Ok(v) => out.extend(v),
                                Err(x) => {
                                    e = Some(x);
                                    break;
                                }
                            }
                        }
                        match e {
                            None => Ok(out),
                            Some(e) => Err(e),
                        }
                    }
                }
            };
            w::eval(&format!("msg {} {} #{} parts{} iv{} t{} n{}", if gcm { "gcm" } else { "ccm" }, if enc { "enc" } else { "dec" }, j, sp.len().min(4), ivl, tl, n % 16));
            let okk = got.as_ref().ok() == Some(want) && (!enc || vread(&ms.tag) == tag);
            if !okk {
                viol!(["P15"], &format!("msg:{}:{}:{}:{}", if gcm { "gcm" } else { "ccm" }, if enc { "enc" } else { "dec" }, if parts { "parts" } else { "one" }, rn(&got)), "message {} of {} under one init ({}) aad={} pieces {:?}: gave {} tag {}, expected {} tag {}", j, nm, ms.m.show(), w::hx(&aad), &sp[..sp.len().min(40)], showr(&got), w::hex(&vread(&ms.tag)), w::hx(want), w::hex(&tag));
                bad = true;
                break;
            }
        }
        let f = if enc { c::msg_encrypt_final(s) } else { c::msg_decrypt_final(s) };
        if f.is_err() && !bad {
            viol!(["P15", "P22"], &format!("msg-final:{}", rn(&f)), "message final gave {}", rn(&f));
        }
        if f.is_err() {
            let _ = c::session_cancel(s, CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT);
        }
    }
}
fn flip(v: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut o = v.to_vec();
    let i = r.us(o.len());
    o[i] ^= 1 << r.below(8);
    o
}
/// verification accepts the right value and nothing else
fn tamper(prop: &str, s: H, ks: &mut Keys, r: &mut Rng, g: fn(&mut Rng) -> Case) {
    while w::time_left() {
        let mut cs = g(r);
        if cs.kind != Kind::Ver {
            continue;
        }
        let mut k = ks.get(cs.key.as_ref().unwrap()).must("C_CreateObject(key)");
        let what: String;
        let mac = prop == "P16";
        let mut other_key: Option<T> = None;
        // a very short value matches by chance
        let mut way = r.below(9);
        if mac && cs.sig.len() < 6 && ![1, 2, 4, 5].contains(&way) {
            way = 0;
        }
        match way {
            0 => what = "none".into(),
            1 | 2 => {
                cs.sig = flip(&cs.sig, r);
                what = "bit of value".into()
            }
            3 => {
                if cs.input.is_empty() {
                    continue;
                }
                cs.input = flip(&cs.input, r);
                what = "bit of message".into();
                if cs.fam == "ecdsa" {
                    // only the leftmost bits of a long digest count
                    continue;
                }
            }
            4 => {
                let n = r.range(1, cs.sig.len());
                cs.sig.truncate(cs.sig.len() - n);
                what = "value truncated".into()
            }
            5 => {
                let n = r.range(1, 20);
                let e = if r.bool() { vec![0; n] } else { r.bytes(n) };
                cs.sig.extend(e);
                what = "value extended".into()
            }
            6 => {
                if mac && cs.fam.starts_with("aesmac") {
                    continue; // zero padded
                }
                if !cs.multi || cs.fam == "pss" {
                    continue;
                }
                if r.bool() || cs.input.is_empty() {
                    let n = r.range(1, 3);
                    cs.input.extend(vec![0; n]);
                } else {
                    cs.input.pop();
                }
                what = "message length".into()
            }
            7 => {
                what = "other key".into();
                if mac {
                    let t = cs.key.clone().unwrap();
                    let v = flip(t.get(CKA_VALUE).unwrap(), r);
                    other_key = Some(t.set(CKA_VALUE, &v));
                } else {
                    let t = cs.key.as_ref().unwrap();
                    if t.has(CKA_MODULUS) {
                        let i = rsa_index(r);
                        let o = rsa_pub(i);
                        if o.get(CKA_MODULUS) == t.get(CKA_MODULUS) {
                            continue;
                        }
                        other_key = Some(o);
                    } else {
                        let cv = *refc::CURVES.iter().find(|x| Some(&x.oid.to_vec()) == t.get(CKA_EC_PARAMS)).unwrap();
                        let d = ec_scalar(cv, r);
                        other_key = Some(ec_pub_t(cv, &refc::ec_mul(cv, &d, None).unwrap()));
                    }
                }
            }
            _ => {
                if mac {
                    // general length: declared length differs from the value given
                    if !cs.fam.ends_with("general") || cs.sig.len() < 2 {
                        continue;
                    }
                    let l = cs.sig.len() as u64 - 1;
                    let keep = r.bool();
                    cs.m = M::raw(cs.m.ty, &l.to_ne_bytes());
                    if keep {
                        what = "declared length one less".into();
                    } else {
                        continue;
                    }
                } else {
                    let sg = *r.pick(&SIGS);
                    let nm = match cs.fam {
                        "hash-rsa-pkcs" => M::new(sg.0),
                        "hash-pss" => {
                            let i = r.us(3);
                            let slen = if i == 0 { 1 + r.us(20) } else { sg.5.len };
                            pss_m(sg.1, sg.3, sg.4, slen)
                        }
                        "hash-ecdsa" => M::new(sg.2),
                        _ => continue,
                    };
                    if nm.ty == cs.m.ty {
                        continue;
                    }
                    cs.m = nm;
                    what = "other hash mechanism".into();
                }
            }
        }
        if let Some(t) = &other_key {
            k = ks.get(t).must("C_CreateObject(key)");
        }
        let how = r.below(3);
        let got: R<()> = match how {
            0 => run_one(s, &cs, k).map(|_| ()),
            1 if cs.multi => {
                let mut sp = r.split(cs.input.len());
                if sp.is_empty() {
                    sp.push(0)
                }
                run_multi(s, &cs, k, &sp).map(|_| ())
            }
            2 if prop == "P17" || cs.fam.starts_with("hmac") || cs.fam.starts_with("cmac") => match c::verify_signature_init(s, &cs.m, k, &cs.sig) {
                Ok(()) => {
                    let g = c::verify_signature(s, &cs.input);
                    g
                }
                Err(e) => Err(e),
            },
            _ => run_one(s, &cs, k).map(|_| ()),
        };
        w::eval(&format!("tamper {} {} how{} {}", cs.class, what, how, rn(&got)));
        w::count(&format!("tamper: {}", what), 1);
        if (what == "none") != got.is_ok() {
            viol!([prop], &format!("tamper:{}:{}:{}", what, cs.fam, rn(&got)), "verification after change '{}' (way {}) of {} gave {}", what, how, cs.show(), rn(&got));
        }
        // a failed verification ends the operation
        let again = if how == 2 { Err(CKR_OPERATION_NOT_INITIALIZED) } else { c::verify_update(s, b"x") };
        if again.is_ok() {
            viol!(["P22", prop], &format!("verify-not-ended:{}", cs.fam), "verification of {} ({}) returned {} but the operation is still active", cs.show(), what, rn(&got));
        }
        if got.is_err() {
            reset(s, Kind::Ver);
        }
    }
}
/// signatures with a malformed encoding made with the private key
fn forge(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let sg = *r.pick(&SIGS);
        let h = sg.5;
        let n = r.len(200);
        let d = r.bytes(n);
        let dig = refc::hash(h, &d);
        let (m, key, sig, what): (M, T, Vec<u8>, String);
        let mut okk = false;
        match r.below(3) {
            0 => {
                let i = rsa_index(r);
                let rk = rsa_ref(i);
                let k = rk.k();
                let mut t = refc::digestinfo(h);
                t.extend(&dig);
                let mut em = refc::pkcs1_t1(k, &t).unwrap();
                let ps = k - t.len() - 3;
                let x = r.below(9);
                what = match x {
                    0 => {
                        okk = true;
                        "pkcs1 right".into()
                    }
                    1 => {
                        em[1] = *r.pick(&[0u8, 2, 3, 0x81]);
                        "pkcs1 block type".into()
                    }
                    2 => {
                        let j = 2 + r.us(ps);
                        em[j] = *r.pick(&[0xfeu8, 0x00, 0x7f, 0x01]);
                        "pkcs1 padding byte".into()
                    }
                    3 => {
                        // short padding, garbage at the end (the classic forgery)
                        let g = r.range(1, ps.saturating_sub(8).max(1));
                        let mut e = vec![0, 1];
                        e.extend(vec![0xff; ps - g]);
                        e.push(0);
                        e.extend(&t);
                        e.extend(r.bytes(g));
                        em = e;
                        "pkcs1 trailing garbage".into()
                    }
                    4 => {
                        em[ps + 2] = 0xff;
                        "pkcs1 no separator".into()
                    }
                    5 => {
                        // digest info of another hash with the same digest bytes
                        let o = *r.pick(&SIGS);
                        if o.5.name == h.name || o.5.len != h.len {
                            continue;
                        }
                        let mut t = refc::digestinfo(o.5);
                        t.extend(&dig);
                        em = refc::pkcs1_t1(k, &t).unwrap();
                        "pkcs1 other digest info".into()
                    }
                    6 => {
                        em = refc::pkcs1_t1(k, &dig).unwrap();
                        "pkcs1 bare digest".into()
                    }
                    7 => {
                        em[0] = if rk.n[0] > 2 && keys_bits(i) % 8 == 0 { 1 } else { 0 };
                        if em[0] == 0 {
                            continue;
                        }
                        "pkcs1 leading byte".into()
                    }
                    _ => {
                        let j = ps + 3 + r.us(t.len());
                        em[j] ^= 1 << r.below(8);
                        "pkcs1 digest info bit".into()
                    }
                };
                let mut sg2 = rk.privop(&em);
                if x == 0 && r.bool() {
                    // same residue, representative above the modulus
                    let sum = add_be(&sg2, &rk.n);
                    if sum.len() == k {
                        sg2 = sum;
                        okk = false;
                    }
                }
                sig = sg2;
                m = M::new(sg.0);
                key = rsa_pub(i);
            }
            1 => {
                let i = rsa_index(r);
                let rk = rsa_ref(i);
                let bits = keys_bits(i);
                let k = rk.k();
                let emlen = (bits - 1).div_ceil(8);
                if emlen < 2 * h.len + 2 {
                    continue;
                }
                let slen = h.len;
                let salt = r.bytes(slen);
                let mut em = refc::pss_encode(bits, h, h, &dig, &salt).unwrap();
                what = match r.below(6) {
                    0 => {
                        okk = true;
                        "pss right".into()
                    }
                    1 => {
                        let j = em.len() - 1;
                        em[j] = *r.pick(&[0xbdu8, 0xcc, 0x00, 0xbe]);
                        "pss trailer".into()
                    }
                    2 => {
                        // encoded for another salt length
                        let o = if r.bool() { slen - 1 } else { (slen + 1).min(emlen - h.len - 2) };
                        if o == slen {
                            continue;
                        }
                        let salt = r.bytes(o);
                        em = refc::pss_encode(bits, h, h, &dig, &salt).unwrap();
                        "pss salt length".into()
                    }
                    3 => {
                        let o = *r.pick(&SIGS);
                        if o.5.name == h.name {
                            continue;
                        }
                        em = refc::pss_encode(bits, h, o.5, &dig, &salt).unwrap();
                        "pss other mgf hash".into()
                    }
                    4 => {
                        if bits % 8 == 1 {
                            continue;
                        }
                        let free = 8 * emlen - (bits - 1);
                        if free == 0 {
                            continue;
                        }
                        em[0] |= 0x80 >> r.us(free);
                        let mut x = vec![0; k - emlen];
                        x.extend_from_slice(&em);
                        if refc::Bn::from(&x).cmp(&refc::Bn::from(&rk.n)) != std::cmp::Ordering::Less {
                            continue;
                        }
                        "pss unused top bits".into()
                    }
                    _ => {
                        em = flip(&em, r);
                        let mut x = vec![0; k - emlen];
                        x.extend_from_slice(&em);
                        if refc::Bn::from(&x).cmp(&refc::Bn::from(&rk.n)) != std::cmp::Ordering::Less {
                            continue;
                        }
                        "pss bit".into()
                    }
                };
                sig = rk.privop(&em);
                m = pss_m(sg.1, sg.3, sg.4, slen);
                key = rsa_pub(i);
            }
            _ => {
                let cv = *r.pick(&refc::CURVES);
                let x = ec_scalar(cv, r);
                let pt = refc::ec_mul(cv, &x, None).unwrap();
                let good = refc::ecdsa_sign(cv, &x, &dig);
                let l = cv.len();
                let ord = refc::ec_order(cv);
                let mut sg2 = good.clone();
                what = match r.below(9) {
                    0 => {
                        okk = true;
                        "ecdsa right".into()
                    }
                    1 => {
                        sg2[..l].fill(0);
                        "ecdsa r=0".into()
                    }
                    2 => {
                        sg2[l..].fill(0);
                        "ecdsa s=0".into()
                    }
                    3 => {
                        sg2.fill(0);
                        "ecdsa all zero".into()
                    }
                    4 => {
                        sg2[..l].copy_from_slice(&ord);
                        "ecdsa r=n".into()
                    }
                    5 => {
                        sg2[l..].copy_from_slice(&ord);
                        "ecdsa s=n".into()
                    }
                    6 => {
                        let t: Vec<u8> = sg2[l..].iter().chain(sg2[..l].iter()).cloned().collect();
                        sg2 = t;
                        "ecdsa swapped".into()
                    }
                    7 => {
                        // s+n when it still fits
                        let t = add_be(&good[l..], &ord);
                        if t.len() != l {
                            continue;
                        }
                        sg2[l..].copy_from_slice(&t);
                        "ecdsa s+n".into()
                    }
                    _ => {
                        sg2 = refc::seq(&[refc::der_int(&good[..l]), refc::der_int(&good[l..])]);
                        "ecdsa DER form".into()
                    }
                };
                sig = sg2;
                m = M::new(sg.2);
                key = ec_pub_t(cv, &pt);
            }
        }
        let k = ks.get(&key).must("C_CreateObject(key)");
        let cs = Case { kind: Kind::Ver, m, key: Some(key), key2: None, input: d, sig, want: Want::Accept, multi: true, class: what.clone(), aead: None, fam: "forge" };
        let got = run_one(s, &cs, k);
        w::eval(&format!("forge {} {} {}", what, h.name, rn(&got)));
        w::count(&format!("forge: {}", what), 1);
        if got.is_ok() != okk {
            viol!(["P17"], &format!("forge:{}:{}", what, rn(&got)), "{} ({}) gave {}", what, cs.show(), rn(&got));
        }
        if got.is_err() {
            reset(s, Kind::Ver);
        }
    }
}
fn keys_bits(i: usize) -> usize {
    crate::keys::RSA[i].bits
}
pub fn add_be(a: &[u8], b: &[u8]) -> Vec<u8> {
    let n = a.len().max(b.len());
    let mut o = vec![0u8; n];
    let mut cy = 0u16;
    for i in 0..n {
        let x = if i < a.len() { a[a.len() - 1 - i] as u16 } else { 0 };
        let y = if i < b.len() { b[b.len() - 1 - i] as u16 } else { 0 };
        let t = x + y + cy;
        o[n - 1 - i] = t as u8;
        cy = t >> 8;
    }
    if cy > 0 {
        o.insert(0, cy as u8);
    }
    o
}
/// generated pairs: the exported public part verifies what the private key signs
fn sigpair(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let sg = *r.pick(&SIGS);
        let n = r.len(300);
        let d = r.bytes(n);
        let dig = refc::hash(sg.5, &d);
        if r.chance(3, 4) {
            let cv = *r.pick(&refc::CURVES);
            let pt = T::new().v(CKA_EC_PARAMS, cv.oid).b(CKA_VERIFY, true);
            let (p, q) = c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &pt, &T::new().b(CKA_SIGN, true)).must("C_GenerateKeyPair(EC)");
            let ecp = c::attr(s, p, CKA_EC_POINT).must("C_GetAttributeValue(EC_POINT)");
            let raw = if ecp.len() == 2 * cv.len() + 1 { ecp.clone() } else { refc::der_read(&ecp).map(|x| x.1.to_vec()).unwrap_or_default() };
            if !refc::ec_on_curve(cv, &raw) {
                viol!(["P17", "P31"], "pair-point", "exported EC point {} of a generated {} key is not on the curve", w::hx(&ecp), cv.name);
                continue;
            }
            let sig = c::sign_init(s, &M::new(sg.2), q).and_then(|_| c::sign(s, &d)).must("C_Sign(ECDSA)");
            w::eval(&format!("pair {} {}", cv.name, sg.5.name));
            if !refc::ecdsa_verify(cv, &raw, &dig, &sig) {
                viol!(["P17"], "pair-ecdsa", "signature {} of a generated {} key does not verify under its exported public point", w::hx(&sig), cv.name);
            }
            let imp = ks.get(&ec_pub_t(cv, &raw)).must("C_CreateObject(exported EC public key)");
            for k in [p, imp] {
                let v = c::verify_init(s, &M::new(sg.2), k).and_then(|_| c::verify(s, &d, &sig));
                if v.is_err() {
                    viol!(["P17"], &format!("pair-ecdsa-own:{}", rn(&v)), "the token refuses its own {} signature: {}", cv.name, rn(&v));
                }
            }
            let _ = c::destroy(s, p);
            let _ = c::destroy(s, q);
        } else {
            let bits = *r.pick(&[1024u64, 1024, 1024, 1536, 2048]);
            let e: &[u8] = if r.bool() { &[1, 0, 1] } else { &[0x11] };
            let pt = T::new().u(CKA_MODULUS_BITS, bits).v(CKA_PUBLIC_EXPONENT, e).b(CKA_VERIFY, true).b(CKA_ENCRYPT, true);
            let g = c::generate_pair(s, &M::new(CKM_RSA_PKCS_KEY_PAIR_GEN), &pt, &T::new().b(CKA_SIGN, true).b(CKA_DECRYPT, true));
            let (p, q) = match g {
                Ok(x) => x,
                Err(e2) => {
                    if e.len() == 3 {
                        viol!(["P17"], &format!("pair-rsa-gen:{}", rvn(e2)), "RSA {} key generation failed with {}", bits, rvn(e2));
                    }
                    continue;
                }
            };
            let nn = c::attr(s, p, CKA_MODULUS).must("modulus");
            let ee = c::attr(s, p, CKA_PUBLIC_EXPONENT).must("exponent");
            let rk = refc::Rsa { n: nn, e: ee, d: vec![] };
            let k = rk.k();
            let mut t = refc::digestinfo(sg.5);
            t.extend(&dig);
            let sig = c::sign_init(s, &M::new(sg.0), q).and_then(|_| c::sign(s, &d)).must("C_Sign(RSA)");
            w::eval(&format!("pair rsa{} e{} {}", bits, e.len(), sg.5.name));
            if sig.len() != k || Some(rk.pubop(&sig)) != refc::pkcs1_t1(k, &t) {
                viol!(["P17"], "pair-rsa", "signature of a generated RSA {} key does not verify under its exported modulus", bits);
            }
            let v = c::verify_init(s, &M::new(sg.0), p).and_then(|_| c::verify(s, &d, &sig));
            if v.is_err() {
                viol!(["P17"], &format!("pair-rsa-own:{}", rn(&v)), "the token refuses its own RSA signature: {}", rn(&v));
            }
            let _ = c::destroy(s, p);
            let _ = c::destroy(s, q);
        }
    }
}
/// C_DigestKey equals digesting the key value
fn digestkey(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let (m, h) = *r.pick(&DIGESTS);
        let n = r.range(1, 100);
        let kb = r.bytes(n);
        let t = if r.bool() { gen_key(&kb) } else { aes_key(&keybytes(r)) };
        let kb = t.get(CKA_VALUE).unwrap().clone();
        let k = ks.get(&t).must("C_CreateObject(key)");
        let (a, b) = (r.len(200), r.len(200));
        let (d1, d2) = (r.bytes(a), r.bytes(b));
        let run = || -> R<Vec<u8>> {
            c::digest_init(s, &M::new(m))?;
            if a > 0 {
                c::digest_update(s, &d1)?;
            }
            c::digest_key(s, k)?;
            if b > 0 {
                c::digest_update(s, &d2)?;
            }
            c::digest_final(s)
        };
        let got = run();
        let mut all = d1.clone();
        all.extend(&kb);
        all.extend(&d2);
        w::eval(&format!("digestkey {} {} {} {}", h.name, a.min(2), kb.len() % 16, b.min(2)));
        if got.as_ref().ok() != Some(&refc::hash(h, &all)) {
            viol!(["P16", "P15"], &format!("digestkey:{}:{}", h.name, rn(&got)), "C_DigestKey with {} bytes before and {} after a {} byte key gave {}", a, b, kb.len(), showr(&got));
            reset(s, Kind::Dig);
        }
    }
}
fn leaks(buf: &[u8], plain: &[u8]) -> bool {
    // any 12 byte run of the plaintext in the output buffer
    if plain.len() < 12 {
        return false;
    }
    plain.chunks_exact(12).any(|c| buf.windows(12).any(|w| w == c))
}
/// modified AEAD input must fail, give no plaintext and end the operation
fn aeadtamper(s: H, ks: &mut Keys, r: &mut Rng, multi: bool) {
    while w::time_left() {
        let nm = if r.bool() { "gcm" } else { "ccm" };
        let mut cs = aes_case(r, Some(nm));
        if cs.kind != Kind::Dec {
            continue;
        }
        let mut a = cs.aead.clone().unwrap();
        if a.tlen < 4 {
            // a random short tag would be right by chance
            continue;
        }
        let plain = if let Want::Bytes(b) = &cs.want { b.clone() } else { continue };
        let mut key = a.key.clone();
        let ctl = cs.input.len() - a.tlen;
        let what;
        match r.below(11) {
            0 => what = "none",
            1 => {
                if ctl == 0 {
                    continue;
                }
                let i = r.us(ctl);
                cs.input[i] ^= 1 << r.below(8);
                what = "ciphertext bit";
            }
            2 | 3 => {
                let i = ctl + r.us(a.tlen);
                cs.input[i] ^= 1 << r.below(8);
                what = "tag bit";
            }
            4 => {
                a.iv = flip(&a.iv, r);
                what = "iv bit";
            }
            5 => {
                if a.aad.is_empty() {
                    a.aad = vec![0];
                } else if r.bool() {
                    a.aad = flip(&a.aad, r);
                } else if r.bool() {
                    a.aad.push(0);
                } else {
                    a.aad.pop();
                }
                what = "aad";
            }
            6 => {
                key = flip(&key, r);
                what = "key bit";
            }
            7 => {
                let n = r.range(1, cs.input.len().min(20));
                cs.input.truncate(cs.input.len() - n);
                what = "truncated";
                if a.gcm && cs.input.len() < a.tlen && cs.input.is_empty() {
                    continue;
                }
            }
            8 => {
                let n = r.range(1, 20);
                cs.input.extend(r.bytes(n));
                what = "extended";
            }
            9 => {
                // declared tag length differs, data unchanged
                let o = if a.gcm { *r.pick(&[4usize, 8, 12, 13, 14, 15, 16]) } else { *r.pick(&[4usize, 6, 8, 10, 12, 14, 16]) };
                if o == a.tlen || cs.input.len() < o + 1 {
                    continue;
                }
                if !a.gcm {
                    // keep declared lengths consistent with the data
                    a.dlen = cs.input.len() - o;
                }
                a.tlen = o;
                what = "declared tag length";
            }
            _ => {
                // part of the ciphertext moved into the aad or the reverse, or pieces swapped
                if ctl < 32 {
                    continue;
                }
                let (x, y) = (cs.input[..16].to_vec(), cs.input[16..32].to_vec());
                if x == y {
                    continue;
                }
                cs.input[..16].copy_from_slice(&y);
                cs.input[16..32].copy_from_slice(&x);
                what = "blocks swapped";
            }
        }
        cs.m = if a.gcm { gcm_m(&a.iv, &a.aad, a.tlen) } else { ccm_m(&a.iv, &a.aad, a.tlen, a.dlen) };
        let k = ks.get(&aes_key(&key)).must("C_CreateObject(key)");
        let i = init(s, &cs, k);
        let mut last: Option<Out> = None;
        let mut total = vec![];
        let mut got: R<()> = i;
        if got.is_ok() {
            if !multi {
                let o = one_o(s, &cs, &cs.input, Some(room(&cs)));
                got = if o.rv == CKR_OK { Ok(()) } else { Err(o.rv) };
                if o.rv == CKR_OK {
                    total = o.clone().val().unwrap();
                }
                last = Some(o);
            } else {
                let sp = r.split(cs.input.len());
                let mut p = 0;
                for n in &sp {
                    let o = upd_o(s, &cs, &cs.input[p..p + n], Some(room(&cs)));
                    p += n;
                    if o.rv != CKR_OK {
                        got = Err(o.rv);
                        last = Some(o);
                        break;
                    }
                    total.extend(o.val().unwrap());
                }
                if got.is_ok() {
                    let o = fin_o(s, &cs, Some(room(&cs)));
                    if o.rv != CKR_OK {
                        got = Err(o.rv)
                    } else {
                        total.extend(o.clone().val().unwrap());
                    }
                    last = Some(o);
                }
            }
        }
        w::eval(&format!("aead {} {} {} multi={} {}", cs.fam, what, cs.class, multi, rn(&got)));
        w::count(&format!("aead: {}", what), 1);
        if what == "none" {
            if got.is_err() || total != plain {
                viol!(["P18", "P15"], &format!("aead-refused:{}:{}", cs.fam, rn(&got)), "unmodified {} gave {}", cs.show(), rn(&got));
            }
        } else {
            if got.is_ok() {
                viol!(["P18"], &format!("aead-accepted:{}:{}", cs.fam, what), "after change '{}' decryption (multi={}) of {} succeeded", what, multi, cs.show());
            }
            if let Some(o) = &last {
                if leaks(&o.buf, &plain) {
                    viol!(["P18"], &format!("aead-plaintext:{}:multi={}", cs.fam, multi), "after change '{}' the failing call ({}) left plaintext in the output buffer: {}", what, rn(&got), cs.show());
                }
            }
        }
        if got == Err(CKR_OPERATION_NOT_INITIALIZED) {
            // final without any update: not settled by the standard
            reset(s, Kind::Dec);
        } else if got.is_err() && last.is_some() {
            let again = c::decrypt_update_o(s, b"0123456789abcdef", Some(64));
            if again.rv != CKR_OPERATION_NOT_INITIALIZED {
                viol!(["P18", "P22"], &format!("aead-not-ended:{}", cs.fam), "after {} the operation is still active ({})", rn(&got), rvn(again.rv));
            }
            reset(s, Kind::Dec);
        }
    }
}
/// the same through the message interface
fn aeadmsg(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let k = keybytes(r);
        let gcm = r.bool();
        let ivl = if gcm { 12 } else { r.range(7, 13) };
        let mut iv = r.bytes(ivl);
        let al = r.len(80);
        let mut aad = r.bytes(al);
        let tl = if gcm { *r.pick(&[16usize, 12, 13, 8, 4]) } else { *r.pick(&[4usize, 6, 8, 10, 12, 14, 16]) };
        let n = r.len(300).max(1);
        let p = r.bytes(n);
        let (mut ct, tag) = if gcm { refc::gcm(&k, &iv, &aad, &p, true) } else { refc::ccm(&k, &iv, &aad, &p, tl, true) };
        let mut tag = tag[..tl].to_vec();
        let what = match r.below(8) {
            0 => "none",
            1 => {
                ct = flip(&ct, r);
                "ciphertext bit"
            }
            2 | 3 => {
                tag = flip(&tag, r);
                "tag bit"
            }
            4 => {
                iv = flip(&iv, r);
                "iv bit"
            }
            5 => {
                if aad.is_empty() {
                    aad.push(1)
                } else {
                    aad = flip(&aad, r)
                }
                "aad"
            }
            6 => {
                if ct.len() < 2 {
                    continue;
                }
                ct.pop();
                "truncated"
            }
            _ => {
                if tl > 4 && gcm {
                    // longer than the authentic tag
                    if tl == 16 {
                        continue;
                    }
                    tag.push(r.next() as u8);
                    if tag == refc::gcm(&k, &iv, &aad, &p, true).1[..tl + 1] {
                        continue;
                    }
                    "tag extended"
                } else {
                    continue;
                }
            }
        };
        let key = aes_key(&k);
        let h = ks.get(&key).must("C_CreateObject(key)");
        c::msg_decrypt_init(s, &M::new(if gcm { CKM_AES_GCM } else { CKM_AES_CCM }), h).must("C_MessageDecryptInit");
        let ms = if gcm { gcm_msg(&iv, &tag) } else { ccm_msg(&iv, &tag, ct.len()) };
        let parts = r.bool();
        let mut last = None;
        let mut total = vec![];
        let got: R<()> = if !parts {
            let o = c::decrypt_message_o(s, &ms.m, &aad, &ct, Some(ct.len() + 32));
            let g = if o.rv == CKR_OK { Ok(()) } else { Err(o.rv) };
            if o.rv == CKR_OK {
                total = o.clone().val().unwrap();
            }
            last = Some(o);
            g
        } else {
            let sp: Vec<usize> = r.split(ct.len()).into_iter().filter(|x| *x > 0).collect();
            match c::decrypt_message_begin(s, &ms.m, &aad) {
                Err(e) => Err(e),
                Ok(()) => {
                    let mut q = 0;
                    let mut g = Ok(());
                    for (i, l) in sp.iter().enumerate() {
                        let o = c::decrypt_message_next_o(s, &ms.m, &ct[q..q + l], Some(ct.len() + 32), i + 1 == sp.len());
                        q += l;
                        if o.rv != CKR_OK {
                            g = Err(o.rv);
                            last = Some(o);
                            break;
                        }
                        total.extend(o.val().unwrap());
                    }
                    g
                }
            }
        };
        w::eval(&format!("aeadmsg gcm={} {} parts={} t{} n{} {}", gcm, what, parts, tl, n % 16, rn(&got)));
        w::count(&format!("aeadmsg: {}", what), 1);
        if what == "none" {
            if got.is_err() || total != p {
                viol!(["P18", "P15"], &format!("aeadmsg-refused:gcm={}:{}", gcm, rn(&got)), "unmodified message {} gave {}", ms.m.show(), rn(&got));
            }
        } else if got.is_ok() {
            viol!(["P18"], &format!("aeadmsg-accepted:gcm={}:{}", gcm, what), "after change '{}' message decryption succeeded (parts={}) {}", what, parts, ms.m.show());
        } else if let Some(o) = &last {
            if leaks(&o.buf, &p) {
                viol!(["P18"], &format!("aeadmsg-plaintext:gcm={}", gcm), "after change '{}' the failing call ({}, parts={}) left plaintext in the output buffer", what, rn(&got), parts);
            }
        }
        let _ = c::msg_decrypt_final(s);
        let _ = c::session_cancel(s, CKF_MESSAGE_DECRYPT);
    }
}
fn kwtamper(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let mut cs = kw_case(r);
        if cs.kind != Kind::Dec {
            continue;
        }
        let plain = if let Want::Bytes(b) = &cs.want { b.clone() } else { continue };
        let mut key = cs.key.clone().unwrap();
        let what = match r.below(5) {
            0 => "none",
            1 => {
                cs.input = flip(&cs.input, r);
                "bit"
            }
            2 => {
                if cs.input.len() < 24 {
                    continue;
                }
                cs.input.truncate(cs.input.len() - 8);
                "truncated"
            }
            3 => {
                let v = flip(key.get(CKA_VALUE).unwrap(), r);
                key = key.set(CKA_VALUE, &v);
                "key bit"
            }
            _ => {
                // right data, other initial value
                let kwp = cs.fam == "kwp";
                cs.m = M::raw(cs.m.ty, &r.bytes(if kwp { 4 } else { 8 }));
                "iv"
            }
        };
        let k = ks.get(&key).must("C_CreateObject(key)");
        init(s, &cs, k).must("C_DecryptInit");
        let o = one_o(s, &cs, &cs.input, Some(room(&cs)));
        w::eval(&format!("kw {} {} {}", cs.class, what, rvn(o.rv)));
        if what == "none" {
            if o.clone().val().ok().as_ref() != Some(&plain) {
                viol!(["P18", "P14"], &format!("kw-refused:{}:{}", cs.fam, rvn(o.rv)), "unmodified {} gave {}", cs.show(), rvn(o.rv));
            }
        } else {
            if o.rv == CKR_OK {
                viol!(["P18"], &format!("kw-accepted:{}:{}", cs.fam, what), "after change '{}' key unwrap of {} succeeded", what, cs.show());
            }
            if leaks(&o.buf, &plain) {
                viol!(["P18"], &format!("kw-plaintext:{}", cs.fam), "after change '{}' the failing call left plaintext in the buffer: {}", what, cs.show());
            }
        }
        if o.rv != CKR_OK {
            reset(s, Kind::Dec);
        }
    }
}
/// C_UnwrapKey of modified data creates nothing
fn unwraptamper(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let kb = keybytes(r);
        let secret = keybytes(r);
        let mut a = Aead { gcm: true, key: kb.clone(), iv: r.bytes(12), aad: r.bytes(r.clone().us(30)), tlen: 16, dlen: secret.len() };
        let kind = r.below(4);
        let mut ct = match kind {
            0 => {
                let (mut c, t) = refc::gcm(&kb, &a.iv, &a.aad, &secret, true);
                c.extend_from_slice(&t[..16]);
                c
            }
            1 => {
                let (mut c, t) = refc::ccm(&kb, &a.iv, &a.aad, &secret, 16, true);
                c.extend_from_slice(&t[..16]);
                c
            }
            2 => refc::kw(&kb, &secret, &[0xA6; 8]),
            _ => refc::kwp(&kb, &secret, &[0xA6, 0x59, 0x59, 0xA6]),
        };
        let what = match r.below(5) {
            0 => "none",
            1 | 2 => {
                ct = flip(&ct, r);
                "bit"
            }
            3 => {
                if kind > 1 {
                    ct.truncate(ct.len() - 8)
                } else {
                    a.iv = flip(&a.iv, r)
                }
                "iv or length"
            }
            _ => {
                if kind < 2 {
                    a.aad.push(7);
                } else {
                    ct = flip(&ct, r)
                }
                "aad"
            }
        };
        let m = match kind {
            0 => gcm_m(&a.iv, &a.aad, 16),
            1 => ccm_m(&a.iv, &a.aad, 16, ct.len() - 16),
            2 => M::new(CKM_AES_KEY_WRAP),
            _ => M::new(CKM_AES_KEY_WRAP_KWP),
        };
        let k = ks.get(&aes_key(&kb)).must("C_CreateObject(key)");
        let mark = r.bytes(12);
        let kt = if r.bool() { CKK_AES } else { CKK_GENERIC_SECRET };
        let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).v(CKA_ID, &mark).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false).b(CKA_TOKEN, r.bool());
        let got = c::unwrap(s, &m, k, &ct, &t);
        w::eval(&format!("unwrap {} {} {}", kind, what, rn(&got)));
        let f = c::find(s, &T::new().v(CKA_ID, &mark)).must("C_FindObjects");
        if what == "none" {
            match &got {
                Err(e) => viol!(["P18", "P20"], &format!("unwrap-refused:{}:{}", kind, rvn(*e)), "unwrapping unmodified data with {} failed: {}", m.show(), rvn(*e)),
                Ok(h) => {
                    let v = c::attr(s, *h, CKA_VALUE);
                    if v.as_ref().ok() != Some(&secret) {
                        viol!(["P18", "P20"], &format!("unwrap-wrong:{}", kind), "unwrapped key value {:?} instead of {}", v, w::hex(&secret));
                    }
                }
            }
        } else if got.is_ok() {
            viol!(["P18"], &format!("unwrap-accepted:{}:{}", kind, what), "unwrapping after change '{}' with {} succeeded", what, m.show());
        } else if !f.is_empty() {
            viol!(["P18", "P11"], &format!("unwrap-object:{}:{}", kind, what), "failed unwrap left {} object(s)", f.len());
        }
        for h in f {
            let _ = c::destroy(s, h);
        }
    }
}
