//! Output buffer convention (P21), operation state machine (P22), saved operation state (P32).
use crate::c::{self, *};
use crate::ops::*;
use crate::p11::*;
use crate::refc;
use crate::tok::{self, Must, Tok};
use crate::viol;
use crate::w::{self, Rng};
use crate::{job, Job};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let b = if th { 300_000 } else { 20_000 };
    match prop {
        "P21" => (0..8).map(|i| job(["opst.one", "opst.one", "opst.multi", "opst.multi", "opst.dual", "opst.msg", "opst.misc", "opst.wrap"][i], i as u64, b)).collect(),
        "P22" => (0..8).map(|i| job(["opst.sm", "opst.sm", "opst.sm", "opst.sm", "opst.sm", "opst.mix", "opst.mix", "opst.msgsm"][i], i as u64, b)).collect(),
        "P32" => {
            let mut v: Vec<Job> = (0..8).map(|i| job(["opst.save", "opst.save", "opst.save", "opst.save", "opst.corrupt", "opst.corrupt", "opst.savemac", "opst.saveops"][i], i as u64, b).san("STATE")).collect();
            // and as built, where this OpenSSL cannot save states
            v.extend((0..3).map(|i| job(["opst.save", "opst.corrupt", "opst.savemac"][i], i as u64, b)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, jobn: &str, arg: u64, r: &mut Rng) {
    let t: Tok = tok::fresh("t");
    let s = t.rw_user();
    let mut ks = Keys::new(s);
    let _ = arg;
    match jobn {
        "opst.one" => one(s, &mut ks, r),
        "opst.multi" => multi(s, &mut ks, r),
        "opst.dual" => dual(s, &mut ks, r),
        "opst.msg" => msg(s, &mut ks, r),
        "opst.misc" => misc(&t, s, &mut ks, r),
        "opst.wrap" => wrap(s, &mut ks, r),
        "opst.sm" => sm(&t, r),
        "opst.mix" => mix(s, &mut ks, r),
        "opst.msgsm" => msgsm(s, &mut ks, r),
        "opst.save" => save(&t, r),
        "opst.corrupt" => corrupt(&t, r),
        "opst.savemac" => savemac(&t, &mut ks, r),
        "opst.saveops" => saveops(&t, r),
        _ => panic!("unknown job {}", jobn),
    }
    t.end();
}

/// the hostile prelude to an output call: any number of null queries and too small buffers.
/// `go(cap)` performs the call, `need` is the length of the result when it is known,
/// Returns the result of the deciding call.
fn probe(name: &str, what: &str, r: &mut Rng, need: Option<usize>, go: &mut dyn FnMut(Option<usize>) -> Out) -> Out {
    let mut q: Option<usize> = None;
    let steps = r.below(4);
    for _ in 0..steps {
        if r.bool() {
            let o = go(None);
            w::count("null queries", 1);
            if o.rv != CKR_OK {
                viol!(["P21"], &format!("query:{}:{}", name, rvn(o.rv)), "{}: length query with a null buffer gave {}; {}", name, rvn(o.rv), what);
                return o;
            }
            if let Some(n) = need {
                if (o.len as usize) < n {
                    viol!(["P21"], &format!("query-short:{}", name), "{}: length query gave {}, the result has {} bytes; {}", name, o.len, n, what);
                }
            }
            if o.len > 1 << 24 {
                viol!(["P21"], &format!("query-huge:{}", name), "{}: length query gave {}; {}", name, o.len, what);
                return o;
            }
            q = Some(o.len as usize);
        } else if let Some(n) = need {
            if n == 0 {
                continue;
            }
            let cap = match r.below(4) {
                0 => 0,
                1 => n - 1,
                _ => r.us(n),
            };
            let o = go(Some(cap));
            w::count("too small buffers", 1);
            if o.rv != CKR_BUFFER_TOO_SMALL {
                viol!(["P21"], &format!("too-small:{}:{}", name, rvn(o.rv)), "{}: a buffer of {} bytes for a result of {} gave {}; {}", name, cap, n, rvn(o.rv), what);
                return o;
            }
        }
    }
    // deciding call: a queried length must be enough
    let q = match q {
        Some(q) if r.chance(3, 4) => q,
        _ => {
            let o = go(None);
            if o.rv != CKR_OK {
                viol!(["P21"], &format!("query:{}:{}", name, rvn(o.rv)), "{}: length query with a null buffer gave {}; {}", name, rvn(o.rv), what);
                return o;
            }
            o.len as usize
        }
    };
    let extra = if r.chance(1, 3) { r.us(100) } else { 0 };
    let o = go(Some(q + extra));
    if o.rv == CKR_BUFFER_TOO_SMALL {
        viol!(["P21"], &format!("queried-too-small:{}", name), "{}: a buffer of the length obtained by query ({}) is refused as too small; {}", name, q, what);
    }
    if let (Some(n), CKR_OK) = (need, o.rv) {
        if o.len as usize != n {
            viol!(["P21"], &format!("length:{}", name), "{}: reported {} bytes, the result has {}; {}", name, o.len, n, what);
        }
    }
    o
}
fn fname(cs: &Case, part: &str) -> String {
    format!("C_{}{}:{}", match cs.kind { Kind::Enc => "Encrypt", Kind::Dec => "Decrypt", Kind::Dig => "Digest", Kind::Sign => "Sign", Kind::Ver => "Verify" }, part, cs.fam)
}
fn need_of(cs: &Case) -> Option<usize> {
    match (&cs.want, cs.kind) {
        (Want::Bytes(b), Kind::Dec) if ["cbcpad", "rsa-pkcs-enc", "rsa-oaep", "kwp"].iter().any(|x| cs.fam.contains(x)) || cs.key.as_ref().map(|k| k.has(CKA_MODULUS)).unwrap_or(false) => {
            // the length is not known before decryption: any refusal as too small is allowed below the
            // queried length, so no exact need; only the certain shortage is checked by the caller
            let _ = b;
            None
        }
        (Want::Bytes(b), _) => Some(b.len()),
        (Want::Check(_), _) => {
            let k = cs.key.as_ref().unwrap();
            if let Some(n) = k.get(CKA_MODULUS) {
                Some(n.len())
            } else {
                Some(cs.sig.len())
            }
        }
        _ => None,
    }
}
fn one(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let cs = any_case(r);
        if cs.kind == Kind::Ver {
            continue;
        }
        let k = match &cs.key {
            Some(t) => ks.get(t).must("C_CreateObject(key)"),
            None => 0,
        };
        if init(s, &cs, k).is_err() {
            reset(s, cs.kind);
            continue;
        }
        let nm = fname(&cs, "");
        let need = need_of(&cs);
        let real = if let Want::Bytes(b) = &cs.want { Some(b.len()) } else { need };
        // certain shortage for variable length results
        if need.is_none() && r.bool() {
            if let Some(n) = real.filter(|n| *n > 0) {
                let cap = r.us(n);
                let o = one_o(s, &cs, &cs.input, Some(cap));
                if o.rv != CKR_BUFFER_TOO_SMALL {
                    viol!(["P21"], &format!("too-small:{}:{}", nm, rvn(o.rv)), "{}: a buffer of {} bytes for a result of {} gave {}; {}", nm, cap, n, rvn(o.rv), cs.show());
                    reset(s, cs.kind);
                    continue;
                }
            }
        }
        let d = cs.input.clone();
        let o = probe(&nm, &cs.show(), r, need, &mut |cap| one_o(s, &cs, &d, cap));
        let got = o.val();
        w::eval(&format!("one {:?} {} {}", cs.kind, cs.class, rn(&got)));
        if !good(&cs, &got) {
            viol!(["P21"], &format!("result:{}:{}", nm, rn(&got)), "after buffer queries {} gave {}, expected {}", cs.show(), showr(&got), showw(&cs));
            reset(s, cs.kind);
        }
    }
}
fn multi(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let cs = any_case(r);
        if cs.kind == Kind::Ver || !cs.multi || cs.input.len() > 3000 {
            continue;
        }
        let k = match &cs.key {
            Some(t) => ks.get(t).must("C_CreateObject(key)"),
            None => 0,
        };
        if init(s, &cs, k).is_err() {
            reset(s, cs.kind);
            continue;
        }
        let mut sp = r.split(cs.input.len());
        if sp.is_empty() {
            sp.push(0);
        }
        let mut p = 0;
        let mut out = vec![];
        let mut err = CKR_OK;
        let io = matches!(cs.kind, Kind::Enc | Kind::Dec);
        for n in &sp {
            let d = &cs.input[p..p + n];
            p += n;
            if !io {
                let o = upd_o(s, &cs, d, None);
                if o.rv != CKR_OK {
                    err = o.rv;
                    break;
                }
                // a stray query of the final result in the middle
                if r.chance(1, 6) && cs.kind != Kind::Ver {
                    let o = fin_o(s, &cs, None);
                    if o.rv != CKR_OK {
                        viol!(["P21"], &format!("query:{}:{}", fname(&cs, "Final"), rvn(o.rv)), "length query in the middle gave {}; {}", rvn(o.rv), cs.show());
                    }
                }
                continue;
            }
            let nm = fname(&cs, "Update");
            // too small: the minimum this call must output is not known to us for every mode; a buffer
            // refused as too small must leave the operation intact
            if r.chance(1, 3) {
                let cap = r.us(d.len() + 1);
                if cs.fam != "ccm" {
                    // outputs at most the input plus one block; try, and only go on when refused
                    let o = upd_o(s, &cs, d, Some(cap));
                    w::count("small update buffers", 1);
                    if o.rv == CKR_OK {
                        out.extend(o.val().unwrap());
                        continue;
                    }
                    if o.rv != CKR_BUFFER_TOO_SMALL {
                        viol!(["P21"], &format!("too-small:{}:{}", nm, rvn(o.rv)), "{}: {} bytes of input with a buffer of {} gave {}; pieces {:?} {}", nm, d.len(), cap, rvn(o.rv), &sp[..sp.len().min(40)], cs.show());
                        err = o.rv;
                        break;
                    }
                }
            }
            if cs.fam == "ccm" {
                let o = upd_o(s, &cs, d, Some(room(&cs)));
                if o.rv != CKR_OK {
                    err = o.rv;
                    break;
                }
                out.extend(o.val().unwrap());
                continue;
            }
            let o = probe(&nm, &cs.show(), r, None, &mut |cap| upd_o(s, &cs, d, cap));
            if o.rv != CKR_OK {
                err = o.rv;
                break;
            }
            out.extend(o.val().unwrap());
        }
        if err == CKR_OK {
            let nm = fname(&cs, "Final");
            let need = if cs.kind == Kind::Dec && cs.fam == "cbcpad" { None } else { need_of(&cs).and_then(|n| n.checked_sub(out.len())) };
            let o = probe(&nm, &format!("pieces {:?} {}", &sp[..sp.len().min(40)], cs.show()), r, need, &mut |cap| fin_o(s, &cs, cap));
            if o.rv != CKR_OK {
                err = o.rv
            } else {
                out.extend(o.val().unwrap());
            }
        }
        let got = if err == CKR_OK { Ok(out) } else { Err(err) };
        w::eval(&format!("multi {:?} {} p{} {}", cs.kind, cs.class, sp.len().min(6), rn(&got)));
        if !good(&cs, &got) {
            viol!(["P21"], &format!("result:{}:{}", fname(&cs, "Final"), rn(&got)), "after buffer queries, pieces {:?} of {} gave {}, expected {}", &sp[..sp.len().min(60)], cs.show(), showr(&got), showw(&cs));
            reset(s, cs.kind);
        }
    }
}
/// dual-function updates: a query or a refused buffer must not feed either operation
fn dual(s: H, ks: &mut Keys, r: &mut Rng) {
    const STREAMS: [&str; 8] = ["ecb", "cbc", "cbcpad", "ctr", "gcm", "ofb", "cfb8", "cfb128"];
    while w::time_left() {
        let pick = *r.pick(&STREAMS);
        let a = aes_case(r, Some(pick));
        if a.input.len() > 2000 {
            continue;
        }
        let enc = a.kind == Kind::Enc;
        let plain = if enc { a.input.clone() } else if let Want::Bytes(b) = &a.want { b.clone() } else { continue };
        let mac = r.bool();
        let (dm, h) = *r.pick(&DIGESTS);
        let kb = r.bytes(32);
        let hk = gen_key(&kb);
        let hm = *r.pick(&HMACS);
        let ak = ks.get(a.key.as_ref().unwrap()).must("C_CreateObject(key)");
        init(s, &a, ak).must("init");
        if mac {
            let k = ks.get(&hk).must("C_CreateObject(key)");
            if enc {
                c::sign_init(s, &M::new(hm.0), k).must("C_SignInit");
            } else {
                c::verify_init(s, &M::new(hm.0), k).must("C_VerifyInit");
            }
        } else {
            c::digest_init(s, &M::new(dm)).must("C_DigestInit");
        }
        let mut sp = r.split(a.input.len());
        sp.push(0);
        let mut out = vec![];
        let mut p = 0;
        let mut err = CKR_OK;
        let mut inpl = false;
        for n in &sp {
            let d = &a.input[p..p + n];
            p += n;
            let nm = match (mac, enc) {
                (false, true) => "C_DigestEncryptUpdate",
                (false, false) => "C_DecryptDigestUpdate",
                (true, true) => "C_SignEncryptUpdate",
                (true, false) => "C_DecryptVerifyUpdate",
            };
            let mut go = |cap: Option<usize>| match (mac, enc) {
                (false, true) => c::digest_encrypt_update_o(s, d, cap),
                (false, false) => c::decrypt_digest_update_o(s, d, cap),
                (true, true) => c::sign_encrypt_update_o(s, d, cap),
                (true, false) => c::decrypt_verify_update_o(s, d, cap),
            };
            if r.chance(1, 3) {
                let cap = r.us(d.len() + 1);
                let o = go(Some(cap));
                w::count("small update buffers", 1);
                if o.rv == CKR_OK {
                    out.extend(o.val().unwrap());
                    continue;
                }
                if o.rv != CKR_BUFFER_TOO_SMALL {
                    viol!(["P21"], &format!("too-small:{}:{}", nm, rvn(o.rv)), "{} with a buffer of {} gave {}; {}", nm, cap, rvn(o.rv), a.show());
                    err = o.rv;
                    break;
                }
            }
            if r.chance(1, 4) {
                // output over the input
                inpl = true;
                let mut b = d.to_vec();
                b.resize(d.len() + 64, 0);
                let mut l = b.len() as CK_ULONG;
                let (q, f) = (b.as_mut_ptr(), fl());
                let rv = unsafe {
                    match (mac, enc) {
                        (false, true) => (f.C_DigestEncryptUpdate.unwrap())(s, q, *n as u64, q, &mut l),
                        (false, false) => (f.C_DecryptDigestUpdate.unwrap())(s, q, *n as u64, q, &mut l),
                        (true, true) => (f.C_SignEncryptUpdate.unwrap())(s, q, *n as u64, q, &mut l),
                        (true, false) => (f.C_DecryptVerifyUpdate.unwrap())(s, q, *n as u64, q, &mut l),
                    }
                };
                if rv != CKR_OK {
                    err = rv;
                    break;
                }
                out.extend(&b[..l as usize]);
                continue;
            }
            let o = probe(nm, &a.show(), r, None, &mut go);
            if o.rv != CKR_OK {
                err = o.rv;
                break;
            }
            out.extend(o.val().unwrap());
        }
        if err == CKR_OK {
            match fin_o(s, &a, Some(600)).val() {
                Ok(v) => {
                    if !mac && !enc && !v.is_empty() {
                        let _ = c::digest_update(s, &v);
                    }
                    if mac && !enc && !v.is_empty() {
                        let _ = c::verify_update(s, &v);
                    }
                    out.extend(v)
                }
                Err(e) => err = e,
            }
        }
        let got = if err == CKR_OK { Ok(out) } else { Err(err) };
        let tag: Vec<&str> = if inpl { vec!["P21", "P15"] } else { vec!["P21"] };
        if !good(&a, &got) {
            w::viol(&tag, &format!("dual-result:{}:inplace={}", rn(&got), inpl), &format!("dual {} gave {}, expected {}", a.show(), showr(&got), showw(&a)));
            reset(s, a.kind);
            for f in [CKF_DIGEST, CKF_SIGN, CKF_VERIFY] {
                let _ = c::session_cancel(s, f);
            }
            continue;
        }
        let second: R<bool> = if mac {
            let m = refc::hmac(hm.2, &kb, &plain);
            if enc {
                c::sign_final(s).map(|v| v == m)
            } else {
                c::verify_final(s, &m).map(|_| true)
            }
        } else {
            let want = refc::hash(h, &plain);
            let o = probe("C_DigestFinal", "", r, Some(want.len()), &mut |cap| c::digest_final_o(s, cap));
            o.val().map(|v| v == want)
        };
        w::eval(&format!("dual {} mac={} p{} {}", a.class, mac, sp.len().min(6), rn(&second)));
        if second != Ok(true) {
            w::viol(&tag, &format!("dual-second:mac={}:enc={}:inplace={}", mac, enc, inpl), &format!("the {} of dual-function {} over pieces {:?} is wrong ({})", if mac { "MAC" } else { "digest" }, a.show(), &sp[..sp.len().min(50)], rn(&second)));
            for f in [CKF_DIGEST, CKF_SIGN, CKF_VERIFY] {
                let _ = c::session_cancel(s, f);
            }
        }
    }
}
fn msg_param(gcm: bool, iv: &[u8], dlen: usize, tag: &std::sync::Arc<Vec<u8>>) -> M {
    let ivb = c::arc(iv);
    if gcm {
        let p = CK_GCM_MESSAGE_PARAMS { pIv: aptr(&ivb), ulIvLen: iv.len() as CK_ULONG, ulIvFixedBits: 0, ivGenerator: CKG_NO_GENERATE, pTag: aptr(tag), ulTagBits: (tag.len() * 8) as CK_ULONG };
        M::st(CKM_AES_GCM, &p, vec![ivb, tag.clone()], &format!("msg iv={}", w::hex(iv)))
    } else {
        let p = CK_CCM_MESSAGE_PARAMS { ulDataLen: dlen as CK_ULONG, pNonce: aptr(&ivb), ulNonceLen: iv.len() as CK_ULONG, ulNonceFixedBits: 0, nonceGenerator: CKG_NO_GENERATE, pMAC: aptr(tag), ulMACLen: tag.len() as CK_ULONG };
        M::st(CKM_AES_CCM, &p, vec![ivb, tag.clone()], &format!("msg nonce={} dlen={}", w::hex(iv), dlen))
    }
}
struct MsgCase {
    gcm: bool,
    key: Vec<u8>,
    iv: Vec<u8>,
    aad: Vec<u8>,
    p: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
}
fn msg_case(r: &mut Rng) -> MsgCase {
    let key = keybytes(r);
    let gcm = r.bool();
    let n = r.len(300).max(1);
    let p = r.bytes(n);
    let an = r.us(40);
    let aad = r.bytes(an);
    let iv = if gcm { let k = *r.pick(&[12, 12, 1, 7, 8, 13, 16, 33]); r.bytes(k) } else { let k = r.range(7, 13); r.bytes(k) };
    let tl = if gcm { r.range(4, 16) } else { 2 * r.range(2, 8) };
    let (ct, mut tag) = if gcm { refc::gcm(&key, &iv, &aad, &p, true) } else { refc::ccm(&key, &iv, &aad, &p, tl, true) };
    tag.truncate(tl);
    MsgCase { gcm, key, iv, aad, p, ct, tag }
}
fn msg(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let m = msg_case(r);
        let k = ks.get(&aes_key(&m.key)).must("C_CreateObject(key)");
        let enc = r.bool();
        let (input, want) = if enc { (&m.p, &m.ct) } else { (&m.ct, &m.p) };
        let im = M::new(if m.gcm { CKM_AES_GCM } else { CKM_AES_CCM });
        if enc {
            c::msg_encrypt_init(s, &im, k).must("C_MessageEncryptInit");
        } else {
            c::msg_decrypt_init(s, &im, k).must("C_MessageDecryptInit");
        }
        let tag = if enc { c::arc(&vec![0u8; m.tag.len()]) } else { c::arc(&m.tag) };
        let pm = msg_param(m.gcm, &m.iv, m.p.len(), &tag);
        let nm = format!("C_{}Message:{}", if enc { "Encrypt" } else { "Decrypt" }, if m.gcm { "gcm" } else { "ccm" });
        let o = if r.chance(2, 3) || !m.gcm {
            probe(&nm, &pm.show(), r, Some(want.len()), &mut |cap| if enc { c::encrypt_message_o(s, &pm, &m.aad, input, cap) } else { c::decrypt_message_o(s, &pm, &m.aad, input, cap) })
        } else {
            let b = if enc { c::encrypt_message_begin(s, &pm, &m.aad) } else { c::decrypt_message_begin(s, &pm, &m.aad) };
            b.must("C_xxMessageBegin");
            let mut sp: Vec<usize> = r.split(input.len()).into_iter().filter(|x| *x > 0).collect();
            if sp.is_empty() {
                sp.push(input.len())
            }
            let mut p = 0;
            let mut tot = Out { rv: CKR_OK, len: 0, buf: vec![], cap: None };
            for (i, n) in sp.iter().enumerate() {
                let d = &input[p..p + n];
                p += n;
                let end = i + 1 == sp.len();
                let need = if m.gcm { Some(*n) } else { None };
                let o = probe(&format!("{}Next", nm), &pm.show(), r, need, &mut |cap| if enc { c::encrypt_message_next_o(s, &pm, d, cap, end) } else { c::decrypt_message_next_o(s, &pm, d, cap, end) });
                if o.rv != CKR_OK {
                    tot.rv = o.rv;
                    break;
                }
                tot.buf.extend(o.val().unwrap());
                tot.len = tot.buf.len() as CK_ULONG;
            }
            tot
        };
        let got = o.val();
        w::eval(&format!("msg {} enc={} n{} {}", m.gcm, enc, m.p.len() % 17, rn(&got)));
        if got.as_ref() != Ok(want) || **tag != m.tag {
            viol!(["P21"], &format!("result:{}:{}", nm, rn(&got)), "message {} gave {} tag {}, expected {} tag {}", pm.show(), showr(&got), w::hex(&tag), w::hx(want), w::hex(&m.tag));
        }
        let _ = if enc { c::msg_encrypt_final(s) } else { c::msg_decrypt_final(s) };
        let _ = c::session_cancel(s, CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT);
    }
}
fn wrap(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let kb = keybytes(r);
        let wk = ks.get(&aes_key(&kb)).must("C_CreateObject(key)");
        let (m, kw, n): (M, u8, usize) = match r.below(5) {
            0 => (M::new(CKM_AES_KEY_WRAP), 0, 8 * r.range(2, 8)),
            1 => (M::new(CKM_AES_KEY_WRAP_KWP), 1, r.range(1, 80)),
            2 => (M::raw(CKM_AES_CBC, &kb[..16]), 2, 16 * r.range(1, 4)),
            3 => (M::raw(CKM_AES_CBC_PAD, &kb[..16]), 3, r.range(1, 80)),
            _ => {
                let i = rsa_index(r);
                let wk = ks.get(&rsa_pub(i)).must("C_CreateObject(key)");
                let v = r.bytes(16);
                let k = ks.get(&aes_key(&v).setb(CKA_EXTRACTABLE, true)).must("C_CreateObject(key)");
                let n = rsa_ref(i).k();
                let m = M::new(CKM_RSA_PKCS);
                let o = probe("C_WrapKey:rsa", "", r, Some(n), &mut |cap| c::wrap_o(s, &m, wk, k, cap));
                let got = o.val();
                w::eval(&format!("wrap rsa {} {}", n, rn(&got)));
                let ok = match &got {
                    Ok(b) => {
                        let em = rsa_ref(i).privop(b);
                        b.len() == n && em.ends_with(&v)
                    }
                    Err(_) => false,
                };
                if !ok {
                    viol!(["P21"], &format!("result:C_WrapKey:rsa:{}", rn(&got)), "C_WrapKey(RSA_PKCS) gave {}", showr(&got));
                }
                continue;
            }
        };
        let v = r.bytes(n);
        let k = ks.get(&gen_key(&v).setb(CKA_EXTRACTABLE, true)).must("C_CreateObject(key)");
        let want = match kw {
            0 => refc::kw(&kb, &v, &[0xA6; 8]),
            1 => refc::kwp(&kb, &v, &[0xA6, 0x59, 0x59, 0xA6]),
            2 => refc::cbc_enc(&kb, &kb[..16], &v),
            _ => refc::cbc_enc(&kb, &kb[..16], &refc::pad7(&v)),
        };
        let nm = format!("C_WrapKey:{}", ckmn(m.ty));
        let o = probe(&nm, &format!("{} byte key", n), r, Some(want.len()), &mut |cap| c::wrap_o(s, &m, wk, k, cap));
        let got = o.val();
        w::eval(&format!("wrap {} {} {}", ckmn(m.ty), n, rn(&got)));
        if got.as_ref() != Ok(&want) {
            viol!(["P21"], &format!("result:{}:{}", nm, rn(&got)), "wrapping a {} byte key gave {}, expected {}", n, showr(&got), w::hx(&want));
        }
    }
}
/// attribute values, lists, operation state, random data
fn misc(t: &Tok, s: H, ks: &mut Keys, r: &mut Rng) {
    let f = fl();
    while w::time_left() {
        match r.below(6) {
            0 | 1 => {
                // attribute values with a mix of buffer sizes
                let cs = any_case(r);
                let Some(kt) = &cs.key else { continue };
                let h = ks.get(kt).must("C_CreateObject(key)");
                let lab = { let n = r.us(40); r.bytes(n) };
                let h2 = match c::copy(s, h, &T::new().v(CKA_LABEL, &lab)) {
                    Ok(h) => h,
                    Err(_) => continue,
                };
                let mut names: Vec<CK_ULONG> = vec![CKA_LABEL, CKA_CLASS, CKA_KEY_TYPE, CKA_TOKEN, CKA_ID, CKA_MODULUS, CKA_VALUE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_PUBLIC_EXPONENT, CKA_UNIQUE_ID, CKA_ENCRYPT, CKA_PRIVATE_EXPONENT, 0x7fff_0000, CKA_ALLOWED_MECHANISMS];
                let n = r.range(1, 8);
                let mut pickd = vec![];
                for _ in 0..n {
                    let i = r.us(names.len());
                    pickd.push(names.swap_remove(i));
                }
                // truth one by one
                let truth: Vec<(RV, Option<Vec<u8>>)> = pickd
                    .iter()
                    .map(|a| {
                        let (rv, mut v) = c::attrs(s, h2, &[*a]);
                        (rv, v[0].take())
                    })
                    .collect();
                // mixed call
                let mut bufs: Vec<Vec<u8>> = vec![];
                let mut caps: Vec<Option<usize>> = vec![];
                for (_, v) in &truth {
                    let l = v.as_ref().map(|x| x.len()).unwrap_or(8);
                    let cap = match r.below(4) {
                        0 => None,
                        1 if l > 0 => Some(r.us(l)),
                        2 => Some(l + r.us(20)),
                        _ => Some(l),
                    };
                    caps.push(cap);
                    bufs.push(vec![FILL; cap.unwrap_or(0) + GUARD]);
                }
                let mut ck: Vec<CK_ATTRIBUTE> = (0..n).map(|i| CK_ATTRIBUTE { type_: pickd[i], pValue: if caps[i].is_none() { std::ptr::null_mut() } else { bufs[i].as_mut_ptr() as *mut _ }, ulValueLen: caps[i].unwrap_or(0) as CK_ULONG }).collect();
                let rv = unsafe { (f.C_GetAttributeValue.unwrap())(s, h2, ck.as_mut_ptr(), n as CK_ULONG) };
                let mut small = false;
                let mut bad = false;
                for i in 0..n {
                    let a = ckan(pickd[i]);
                    let cap = caps[i].unwrap_or(0);
                    if bufs[i][cap..].iter().any(|x| *x != FILL) {
                        viol!(["P21", "P24"], "overrun:C_GetAttributeValue", "{} written beyond the {} byte buffer", a, cap);
                    }
                    match &truth[i] {
                        (_, None) => {
                            bad = true;
                            if ck[i].ulValueLen != CK_UNAVAILABLE_INFORMATION {
                                viol!(["P21"], "attr-unavailable-len", "{}: unavailable attribute reported length {}", a, ck[i].ulValueLen);
                            }
                        }
                        (_, Some(v)) => match caps[i] {
                            None => {
                                if ck[i].ulValueLen as usize != v.len() {
                                    viol!(["P21"], "attr-query-len", "{}: null query reported length {} instead of {} ({:?})", a, ck[i].ulValueLen, v.len(), rvn(rv));
                                }
                            }
                            Some(c) if c < v.len() => {
                                small = true;
                                if ck[i].ulValueLen != CK_UNAVAILABLE_INFORMATION {
                                    viol!(["P21"], "attr-small-len", "{}: buffer of {} for {} bytes reported length {}", a, c, v.len(), ck[i].ulValueLen);
                                }
                            }
                            Some(_) => {
                                if ck[i].ulValueLen as usize != v.len() || bufs[i][..v.len()] != v[..] {
                                    viol!(["P21"], "attr-value", "{}: value {} length {} instead of {} in a call that returned {}", a, w::hx(&bufs[i]), ck[i].ulValueLen, w::hx(v), rvn(rv));
                                }
                            }
                        },
                    }
                }
                w::eval(&format!("attrs n{} small={} bad={} {}", n, small, bad, rvn(rv)));
                let okrv = match (small, bad) {
                    (false, false) => rv == CKR_OK,
                    (true, false) => rv == CKR_BUFFER_TOO_SMALL,
                    (false, true) => rv == CKR_ATTRIBUTE_TYPE_INVALID || rv == CKR_ATTRIBUTE_SENSITIVE,
                    _ => rv != CKR_OK,
                };
                if !okrv {
                    viol!(["P21"], &format!("attr-rv:{}", rvn(rv)), "C_GetAttributeValue with too-small={} unavailable={} returned {}", small, bad, rvn(rv));
                }
                let _ = c::destroy(s, h2);
            }
            2 => {
                // slot list and mechanism list
                let full = c::mech_list(t.slot).must("C_GetMechanismList");
                let cap = r.us(full.len() + 5);
                let mut v = vec![0x5a5a5a5au64; cap + 8];
                let mut n = cap as CK_ULONG;
                let rv = unsafe { (f.C_GetMechanismList.unwrap())(t.slot, v.as_mut_ptr(), &mut n) };
                w::eval(&format!("mechlist {}", cap.min(full.len())));
                if v[cap..].iter().any(|x| *x != 0x5a5a5a5a) {
                    viol!(["P21", "P24"], "overrun:C_GetMechanismList", "wrote beyond {} entries", cap);
                }
                if cap < full.len() && rv != CKR_BUFFER_TOO_SMALL {
                    viol!(["P21"], "too-small:C_GetMechanismList", "room for {} of {} gave {}", cap, full.len(), rvn(rv));
                }
                if cap >= full.len() {
                    let mut a = v[..full.len()].to_vec();
                    let mut b = full.clone();
                    a.sort();
                    b.sort();
                    if rv != CKR_OK || n as usize != full.len() || a != b {
                        viol!(["P21"], "result:C_GetMechanismList", "room for {} gave {} with {} entries", cap, rvn(rv), n);
                    }
                }
                for present in [0u8, 1] {
                    let cap = r.us(3);
                    let mut v = vec![0x5a5a5a5au64; cap + 8];
                    let mut n = cap as CK_ULONG;
                    let rv = unsafe { (f.C_GetSlotList.unwrap())(present, v.as_mut_ptr(), &mut n) };
                    if v[cap..].iter().any(|x| *x != 0x5a5a5a5a) {
                        viol!(["P21", "P24"], "overrun:C_GetSlotList", "wrote beyond {} entries", cap);
                    }
                    if (cap < 1 && rv != CKR_BUFFER_TOO_SMALL) || (cap >= 1 && (rv != CKR_OK || n != 1 || v[0] != t.slot)) {
                        viol!(["P21"], "result:C_GetSlotList", "room for {} gave {} with {} entries", cap, rvn(rv), n);
                    }
                }
            }
            3 => {
                // operation state of a digest
                let (m, h) = *r.pick(&DIGESTS);
                c::digest_init(s, &M::new(m)).must("C_DigestInit");
                let n = r.us(300);
                let d = r.bytes(n);
                c::digest_update(s, &d).must("C_DigestUpdate");
                let q = c::get_op_state_o(s, None);
                if q.rv != CKR_OK {
                    // not every state can be saved
                    let _ = c::session_cancel(s, CKF_DIGEST);
                    w::eval(&format!("opstate {} {}", h.name, rvn(q.rv)));
                    continue;
                }
                let full = c::get_op_state_o(s, Some(q.len as usize));
                if full.rv != CKR_OK || full.len > q.len {
                    viol!(["P21"], &format!("queried-too-small:C_GetOperationState:{}", rvn(full.rv)), "a buffer of the queried length {} gave {}", q.len, rvn(full.rv));
                } else {
                    let cap = r.us((full.len as usize).saturating_sub(20));
                    let o = c::get_op_state_o(s, Some(cap));
                    if o.rv != CKR_BUFFER_TOO_SMALL {
                        viol!(["P21"], &format!("too-small:C_GetOperationState:{}", rvn(o.rv)), "{} of {} bytes gave {}", cap, full.len, rvn(o.rv));
                    }
                }
                w::eval(&format!("opstate {} n{}", h.name, n % 64));
                let got = c::digest_final(s);
                if got.as_ref() != Ok(&refc::hash(h, &d)) {
                    viol!(["P21", "P32"], "opstate-disturbs", "after C_GetOperationState calls the digest is {}", showr(&got));
                    let _ = c::session_cancel(s, CKF_DIGEST);
                }
            }
            4 => {
                // random data: exactly the requested bytes
                let n = r.us(200);
                let mut v = vec![0u8; n + GUARD];
                v[n..].fill(FILL);
                let rv = unsafe { (f.C_GenerateRandom.unwrap())(s, v.as_mut_ptr(), n as CK_ULONG) };
                w::eval(&format!("random {}", n));
                if v[n..].iter().any(|x| *x != FILL) {
                    viol!(["P21", "P24"], "overrun:C_GenerateRandom", "wrote beyond {} bytes", n);
                }
                if n > 16 && rv == CKR_OK && v[n - 16..n].iter().all(|x| *x == 0) {
                    viol!(["P21", "P27"], "short:C_GenerateRandom", "the last of {} bytes were not written", n);
                }
            }
            _ => {
                // interface list
                let mut n: CK_ULONG = 0;
                let gil = c::sym("C_GetInterfaceList");
                if gil.is_null() {
                    continue;
                }
                let gil: unsafe extern "C" fn(*mut CK_INTERFACE, *mut CK_ULONG) -> CK_RV = unsafe { std::mem::transmute(gil) };
                let rv = unsafe { gil(std::ptr::null_mut(), &mut n) };
                if rv != CKR_OK {
                    viol!(["P21"], "query:C_GetInterfaceList", "{}", rvn(rv));
                    continue;
                }
                let cap = r.us(n as usize + 3);
                let mut v: Vec<[u64; 3]> = vec![[0x5a5a; 3]; cap + 4];
                let mut m = cap as CK_ULONG;
                let rv = unsafe { gil(v.as_mut_ptr() as *mut CK_INTERFACE, &mut m) };
                w::eval(&format!("interfaces {}", cap));
                if v[cap..].iter().any(|x| *x != [0x5a5a; 3]) {
                    viol!(["P21", "P24"], "overrun:C_GetInterfaceList", "wrote beyond {} entries", cap);
                }
                if (cap < n as usize) != (rv == CKR_BUFFER_TOO_SMALL) || (cap >= n as usize && (rv != CKR_OK || m != n)) {
                    viol!(["P21"], "result:C_GetInterfaceList", "room for {} of {} gave {} and {}", cap, n, rvn(rv), m);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- P22
struct Act {
    cs: Case,
    k: H,
    fed: usize,
    started: bool,
    out: Vec<u8>,
    tainted: bool,
}
const KINDS: [Kind; 5] = [Kind::Enc, Kind::Dec, Kind::Dig, Kind::Sign, Kind::Ver];
fn case_of(kind: Kind, r: &mut Rng) -> Case {
    loop {
        let c = match kind {
            Kind::Enc | Kind::Dec => aes_case(r, None),
            Kind::Dig => digest_case(r),
            _ => {
                if r.chance(1, 12) {
                    sig_case(r)
                } else {
                    mac_case(r)
                }
            }
        };
        if c.kind == kind && c.input.len() < 2000 {
            return c;
        }
    }
}
struct Sess {
    h: H,
    act: Vec<Option<Act>>,
    search: Option<(usize, usize)>,
}
/// random interleaving of operations of all kinds over several sessions
fn sm(t: &Tok, r: &mut Rng) {
    let s0 = t.rw_user();
    let mut ks = Keys::new(s0);
    // a few data objects for searches
    let nobj = 7;
    for i in 0..nobj {
        c::create(s0, &tok::data_t(&[i as u8]).s(CKA_LABEL, "findme")).must("C_CreateObject");
    }
    let ft = T::new().s(CKA_LABEL, "findme");
    let mut ss: Vec<Sess> = (0..4).map(|i| Sess { h: c::open(t.slot, i % 2 == 0).must("C_OpenSession"), act: (0..5).map(|_| None).collect(), search: None }).collect();
    while w::time_left() {
        let si = r.us(ss.len());
        let ki = r.us(5);
        let h = ss[si].h;
        // search machine
        if r.chance(1, 10) {
            let st = ss[si].search;
            match r.below(3) {
                0 => {
                    let g = c::find_init(h, &ft);
                    let want = st.is_none();
                    if g.is_ok() != want {
                        viol!(["P22"], &format!("search-init:active={}:{}", !want, rn(&g)), "C_FindObjectsInit gave {} while a search is {}", rn(&g), if want { "not active" } else { "active" });
                    }
                    if g.is_ok() {
                        ss[si].search = Some((nobj, 0));
                    }
                }
                1 => {
                    let n = r.range(1, 5);
                    let g = c::find_next(h, n);
                    match (st, g) {
                        (None, Err(CKR_OPERATION_NOT_INITIALIZED)) => {}
                        (Some((tot, got)), Ok(v)) => {
                            if v.len() != n.min(tot - got) {
                                viol!(["P22", "P08"], "search-count", "C_FindObjects({}) after {} of {} gave {}", n, got, tot, v.len());
                            }
                            ss[si].search = Some((tot, got + v.len()));
                        }
                        (st, g) => viol!(["P22"], &format!("search-next:active={}:{}", st.is_some(), rn(&g)), "C_FindObjects gave {} with search active={}", rn(&g), st.is_some()),
                    }
                }
                _ => {
                    let g = c::find_final(h);
                    if g.is_ok() != st.is_some() {
                        viol!(["P22"], &format!("search-final:active={}:{}", st.is_some(), rn(&g)), "C_FindObjectsFinal gave {} with search active={}", rn(&g), st.is_some());
                    }
                    ss[si].search = None;
                }
            }
            w::eval(&format!("search {:?}", st.is_some()));
            continue;
        }
        // sessions come and go
        if r.chance(1, 400) {
            c::close(h).must("C_CloseSession");
            ss[si] = Sess { h: c::open(t.slot, r.bool()).must("C_OpenSession"), act: (0..5).map(|_| None).collect(), search: None };
            continue;
        }
        let kind = KINDS[ki];
        let step = r.below(12);
        let active = ss[si].act[ki].is_some();
        let others: Vec<bool> = ss[si].act.iter().map(|x| x.is_some()).collect();
        let key = |a: &str, rv: &str| w::eval(&format!("{:?} {} active={} others={:?} {}", kind, a, active, others, rv));
        match step {
            0..=2 => {
                // init
                let cs = case_of(kind, r);
                let k = match &cs.key {
                    Some(t) => ks.get(t).must("C_CreateObject(key)"),
                    None => 0,
                };
                let g = init(h, &cs, k);
                key("init", &rn(&g));
                if active {
                    if g != Err(CKR_OPERATION_ACTIVE) {
                        viol!(["P22"], &format!("init-while-active:{:?}:{}", kind, rn(&g)), "a second init of {:?} while one is active gave {}", kind, rn(&g));
                        let _ = c::session_cancel(h, flag(kind));
                        ss[si].act[ki] = None;
                    }
                } else if g.is_err() {
                    viol!(["P22"], &format!("init-refused:{:?}:{}", kind, rn(&g)), "init of {} gave {} though no {:?} operation is active", cs.show(), rn(&g), kind);
                } else {
                    ss[si].act[ki] = Some(Act { cs, k, fed: 0, started: false, out: vec![], tainted: false });
                }
            }
            3 => {
                // failing init never starts anything
                let cs = case_of(kind, r);
                let g = match r.below(3) {
                    0 => init(h, &Case { m: M::new(0x7654_3210), ..cs.clone() }, ks.get(cs.key.as_ref().unwrap_or(&aes_key(&[7; 16]))).must("key")),
                    1 if kind != Kind::Dig => init(h, &cs, 0x7fff_fff0),
                    _ => init(h, &Case { m: M::raw(CKM_AES_CBC, &[1, 2, 3]), ..cs.clone() }, ks.get(&aes_key(&[7; 16])).must("key")),
                };
                key("bad-init", &rn(&g));
                if g.is_ok() {
                    viol!(["P22", "P25"], &format!("bad-init-accepted:{:?}", kind), "an init with bad arguments succeeded for {}", cs.show());
                    let _ = c::session_cancel(h, flag(kind));
                    ss[si].act[ki] = None;
                }
            }
            4..=6 => {
                // update
                match &mut ss[si].act[ki] {
                    None => {
                        let cs = case_of(kind, r);
                        let o = upd_o(h, &cs, b"0123456789abcdef", Some(64));
                        key("update", &rvn(o.rv));
                        if o.rv != CKR_OPERATION_NOT_INITIALIZED {
                            viol!(["P22"], &format!("update-inactive:{:?}:{}", kind, rvn(o.rv)), "update of {:?} without an active operation gave {}", kind, rvn(o.rv));
                        }
                    }
                    Some(a) => {
                        if !a.cs.multi {
                            continue;
                        }
                        let left = a.cs.input.len() - a.fed;
                        let n = if r.chance(1, 3) { left } else { r.us(left + 1) };
                        let d = a.cs.input[a.fed..a.fed + n].to_vec();
                        if matches!(kind, Kind::Enc | Kind::Dec) && r.chance(1, 4) {
                            let _ = upd_o(h, &a.cs, &d, None);
                        }
                        let o = upd_o(h, &a.cs, &d, Some(room(&a.cs)));
                        key("update", &rvn(o.rv));
                        if o.rv != CKR_OK {
                            viol!(["P22"], &format!("update-active:{:?}:{}:{}", kind, a.cs.fam, rvn(o.rv)), "update of an active {} gave {}", a.cs.show(), rvn(o.rv));
                            let _ = c::session_cancel(h, flag(kind));
                            ss[si].act[ki] = None;
                            continue;
                        }
                        a.started = true;
                        a.fed += n;
                        a.out.extend(o.val().unwrap());
                    }
                }
            }
            7 | 8 => {
                // final
                match ss[si].act[ki].take() {
                    None => {
                        let cs = case_of(kind, r);
                        let o = fin_o(h, &cs, Some(64));
                        key("final", &rvn(o.rv));
                        if o.rv != CKR_OPERATION_NOT_INITIALIZED {
                            viol!(["P22"], &format!("final-inactive:{:?}:{}", kind, rvn(o.rv)), "final of {:?} without an active operation gave {}", kind, rvn(o.rv));
                        }
                    }
                    Some(mut a) => {
                        if !a.cs.multi || !a.started {
                            ss[si].act[ki] = Some(a);
                            continue;
                        }
                        let rest = a.cs.input[a.fed..].to_vec();
                        let complete = r.chance(4, 5);
                        if complete && !rest.is_empty() {
                            let o = upd_o(h, &a.cs, &rest, Some(room(&a.cs)));
                            if o.rv != CKR_OK {
                                viol!(["P22"], &format!("update-active:{:?}:{}:{}", kind, a.cs.fam, rvn(o.rv)), "update of an active {} gave {}", a.cs.show(), rvn(o.rv));
                                let _ = c::session_cancel(h, flag(kind));
                                continue;
                            }
                            a.out.extend(o.val().unwrap());
                            a.fed = a.cs.input.len();
                        }
                        if kind != Kind::Ver && r.chance(1, 3) {
                            let _ = fin_o(h, &a.cs, None);
                        }
                        let o = fin_o(h, &a.cs, Some(room(&a.cs)));
                        key("final", &rvn(o.rv));
                        let got = o.val().map(|v| {
                            let mut x = a.out.clone();
                            x.extend(v);
                            x
                        });
                        if a.fed == a.cs.input.len() && !good(&a.cs, &got) {
                            viol!(["P22"], &format!("result:{:?}:{}:{}", kind, a.cs.fam, rn(&got)), "interleaved with others, {} gave {}, expected {}", a.cs.show(), showr(&got), showw(&a.cs));
                        }
                        if got == Err(CKR_BUFFER_TOO_SMALL) {
                            let _ = c::session_cancel(h, flag(kind));
                        }
                        after_end(h, &a.cs, "final", &rn(&got));
                    }
                }
            }
            9 => {
                // one-shot
                match ss[si].act[ki].take() {
                    None => {
                        let cs = case_of(kind, r);
                        let o = one_o(h, &cs, &cs.input, Some(room(&cs)));
                        key("oneshot", &rvn(o.rv));
                        if o.rv != CKR_OPERATION_NOT_INITIALIZED {
                            viol!(["P22"], &format!("oneshot-inactive:{:?}:{}", kind, rvn(o.rv)), "one-shot {:?} without an active operation gave {}", kind, rvn(o.rv));
                        }
                    }
                    Some(a) => {
                        if a.started {
                            ss[si].act[ki] = Some(a);
                            continue;
                        }
                        if kind != Kind::Ver && r.chance(1, 3) {
                            let o = one_o(h, &a.cs, &a.cs.input, None);
                            let _ = o;
                        }
                        let o = one_o(h, &a.cs, &a.cs.input, Some(room(&a.cs)));
                        let got = o.val();
                        key("oneshot", &rn(&got));
                        if !good(&a.cs, &got) {
                            viol!(["P22"], &format!("result:{:?}:{}:{}", kind, a.cs.fam, rn(&got)), "interleaved with others, {} gave {}, expected {}", a.cs.show(), showr(&got), showw(&a.cs));
                        }
                        after_end(h, &a.cs, "oneshot", &rn(&got));
                    }
                }
            }
            10 => {
                // cancel
                if active {
                    let g = if r.bool() {
                        c::session_cancel(h, flag(kind))
                    } else {
                        cancel_by_init(h, kind)
                    };
                    key("cancel", &rn(&g));
                    if g.is_err() {
                        viol!(["P22"], &format!("cancel:{:?}:{}", kind, rn(&g)), "cancelling an active {:?} operation gave {}", kind, rn(&g));
                        let _ = c::session_cancel(h, flag(kind));
                    }
                    let a = ss[si].act[ki].take().unwrap();
                    after_end(h, &a.cs, "cancel", &rn(&g));
                }
            }
            _ => {
                // failure that ends the operation: wrong data at the end
                if let Some(a) = ss[si].act[ki].take() {
                    let f = a.cs.fam;
                    if kind == Kind::Ver && !a.started {
                        let mut cs = a.cs.clone();
                        let n = cs.sig.len();
                        match r.below(3) {
                            0 => cs.sig[n / 2] ^= 4,
                            1 => cs.sig.push(0),
                            _ => {
                                cs.sig.pop();
                            }
                        }
                        let g = if r.bool() || !cs.multi {
                            one_o(h, &cs, &cs.input, None).rv
                        } else {
                            let _ = upd_o(h, &cs, &cs.input, None);
                            fin_o(h, &cs, None).rv
                        };
                        key("bad-verify", &rvn(g));
                        if g == CKR_OK {
                            viol!(["P22", "P16", "P17"], &format!("bad-verify-accepted:{}", f), "verification with a changed value succeeded: {}", cs.show());
                        }
                        after_end(h, &a.cs, "bad-verify", &rvn(g));
                    } else if matches!(kind, Kind::Enc | Kind::Dec) && (f == "ecb" || f == "cbc") && !a.started {
                        let mut d = a.cs.input.clone();
                        d.push(1);
                        let g = if r.bool() {
                            one_o(h, &a.cs, &d, Some(room(&a.cs) + 32)).rv
                        } else {
                            let _ = upd_o(h, &a.cs, &d, Some(room(&a.cs) + 32));
                            fin_o(h, &a.cs, Some(room(&a.cs))).rv
                        };
                        key("bad-length", &rvn(g));
                        if g == CKR_OK {
                            viol!(["P22", "P14"], &format!("bad-length-accepted:{}", f), "{} with one byte more succeeded", a.cs.show());
                        }
                        after_end(h, &a.cs, "bad-length", &rvn(g));
                    } else {
                        ss[si].act[ki] = Some(a);
                    }
                }
            }
        }
    }
}
fn cancel_by_init(h: H, kind: Kind) -> R<()> {
    let f = fl();
    let n = std::ptr::null_mut();
    let rv = unsafe {
        match kind {
            Kind::Enc => (f.C_EncryptInit.unwrap())(h, n, 0),
            Kind::Dec => (f.C_DecryptInit.unwrap())(h, n, 0),
            Kind::Dig => (f.C_DigestInit.unwrap())(h, n),
            Kind::Sign => (f.C_SignInit.unwrap())(h, n, 0),
            Kind::Ver => (f.C_VerifyInit.unwrap())(h, n, 0),
        }
    };
    if rv == CKR_OK { Ok(()) } else { Err(rv) }
}
/// an operation that ended must be gone
fn after_end(h: H, cs: &Case, how: &str, rv: &str) {
    let o = upd_o(h, cs, b"0123456789abcdef", Some(64));
    if o.rv != CKR_OPERATION_NOT_INITIALIZED {
        viol!(["P22"], &format!("not-ended:{:?}:{}:{}", cs.kind, how, cs.fam), "after {} ({}) of {} an update gives {}", how, rv, cs.show(), rvn(o.rv));
        let _ = c::session_cancel(h, flag(cs.kind));
    }
}
/// one-shot calls after updates, updates after buffer queries, and the reverse
fn mix(s: H, ks: &mut Keys, r: &mut Rng) {
    while w::time_left() {
        let cs = any_case(r);
        if !cs.multi || cs.input.len() > 2000 {
            continue;
        }
        let k = match &cs.key {
            Some(t) => ks.get(t).must("C_CreateObject(key)"),
            None => 0,
        };
        if init(s, &cs, k).is_err() {
            reset(s, cs.kind);
            continue;
        }
        let n = r.us(cs.input.len() + 1);
        let o = upd_o(s, &cs, &cs.input[..n], Some(room(&cs)));
        if o.rv != CKR_OK {
            reset(s, cs.kind);
            continue;
        }
        let one = one_o(s, &cs, &cs.input, Some(room(&cs)));
        w::eval(&format!("mix {:?} {} n{} {}", cs.kind, cs.class, (n > 0) as u8, rvn(one.rv)));
        if one.rv == CKR_OK {
            viol!(["P22"], &format!("mix:{:?}:{}", cs.kind, cs.fam), "after C_xxxUpdate with {} bytes the one-shot call succeeded with {} bytes: {}", n, one.len, cs.show());
            reset(s, cs.kind);
            continue;
        }
        reset(s, cs.kind);
        after_end(s, &cs, "cancel after mixing", &rvn(one.rv));
        // the session works as before
        let again = if r.bool() { run_one(s, &cs, k) } else { run_multi(s, &cs, k, &[n, cs.input.len() - n]) };
        if !good(&cs, &again) {
            viol!(["P22"], &format!("after-mix:{:?}:{}:{}", cs.kind, cs.fam, rn(&again)), "after a refused mix {} gave {}, expected {}", cs.show(), showr(&again), showw(&cs));
            reset(s, cs.kind);
        }
    }
}
/// message operations: begin/next/final and the init state
fn msgsm(s: H, ks: &mut Keys, r: &mut Rng) {
    #[derive(PartialEq, Clone, Copy, Debug)]
    enum St {
        None,
        Init,
        Busy(usize),
    }
    // one machine for each direction
    let mut st = [St::None, St::None];
    let mut cur: [Option<(MsgCase, M, std::sync::Arc<Vec<u8>>, H)>; 2] = [None, None];
    let mut out: [Vec<u8>; 2] = [vec![], vec![]];
    while w::time_left() {
        let d = r.us(2);
        let enc = d == 0;
        let im = |g: bool| M::new(if g { CKM_AES_GCM } else { CKM_AES_CCM });
        let ev = |a: &str, st: St, rv: &str| w::eval(&format!("msg enc={} {} {:?} {}", enc, a, match st { St::Busy(n) => St::Busy(n.min(1)), x => x }, rv));
        match r.below(9) {
            8 => {
                // a message that cannot be processed: the operation goes on or ends, it is never stuck
                if st[d] != St::Init {
                    continue;
                }
                let (m, pm, tag, k) = cur[d].take().unwrap();
                let (mut iv, mut dlen, mut aad) = (m.iv.clone(), m.p.len(), m.aad.clone());
                let mut inp = if enc { m.p.clone() } else { m.ct.clone() };
                let way = r.below(4);
                match (way, m.gcm) {
                    (0, true) => {
                        let n = *r.pick(&[0usize, 129, 130, 200, 256, 300, 1000]);
                        iv = r.bytes(n);
                    }
                    (0, false) => {
                        let n = *r.pick(&[0usize, 1, 6, 14, 15, 16]);
                        iv = r.bytes(n);
                    }
                    (1, false) => dlen += r.range(1, 40),
                    (2, false) => inp.push(0),
                    (1, true) | (2, true) => {
                        if enc {
                            let n = *r.pick(&[129usize, 500]);
                            iv = r.bytes(n);
                        } else {
                            aad.push(1);
                        }
                    }
                    _ => {
                        dlen = 0;
                        inp.clear();
                        iv.clear();
                    }
                }
                let bad = msg_param(m.gcm, &iv, dlen, &tag);
                let begin = r.chance(1, 3);
                let rv = if begin {
                    rvof(&if enc { c::encrypt_message_begin(s, &bad, &aad) } else { c::decrypt_message_begin(s, &bad, &aad) })
                } else if enc {
                    c::encrypt_message_o(s, &bad, &aad, &inp, Some(400)).rv
                } else {
                    c::decrypt_message_o(s, &bad, &aad, &inp, Some(400)).rv
                };
                ev(&format!("bad{} {} begin={}", way, m.gcm, begin), st[d], &rvn(rv));
                if rv == CKR_OK {
                    let _ = c::session_cancel(s, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT });
                    st[d] = St::None;
                    continue;
                }
                let after = format!("after {} with {} failed with {}", if begin { "Begin" } else { "a message" }, bad.show(), rvn(rv));
                if r.bool() {
                    let (i, want) = if enc { (&m.p, &m.ct) } else { (&m.ct, &m.p) };
                    let t2 = if enc { c::arc(&vec![0u8; m.tag.len()]) } else { c::arc(&m.tag) };
                    let gm = msg_param(m.gcm, &m.iv, m.p.len(), &t2);
                    let o = if enc { c::encrypt_message_o(s, &gm, &m.aad, i, Some(i.len())) } else { c::decrypt_message_o(s, &gm, &m.aad, i, Some(i.len())) };
                    let rv2 = o.rv;
                    if rv2 == CKR_OPERATION_NOT_INITIALIZED {
                        st[d] = St::None;
                    } else if o.val().as_ref() != Ok(want) {
                        viol!(["P22"], &format!("msg-after-bad:gcm={}:enc={}:{}", m.gcm, enc, rvn(rv2)), "{} the next message gave {}", after, rvn(rv2));
                        st[d] = St::None;
                        let _ = c::session_cancel(s, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT });
                    } else {
                        cur[d] = Some((m, pm, tag, k));
                        if enc {
                            // the tag of the case is the one of the model again
                            let c0 = cur[d].take().unwrap();
                            let t3 = c::arc(&vec![0u8; c0.0.tag.len()]);
                            let p3 = msg_param(c0.0.gcm, &c0.0.iv, c0.0.p.len(), &t3);
                            cur[d] = Some((c0.0, p3, t3, k));
                        }
                    }
                } else {
                    let g = rvof(&if enc { c::msg_encrypt_final(s) } else { c::msg_decrypt_final(s) });
                    if g != CKR_OK && g != CKR_OPERATION_NOT_INITIALIZED {
                        viol!(["P22"], &format!("msg-stuck:gcm={}:enc={}:{}", m.gcm, enc, rvn(g)), "{} the operation cannot be ended: {}", after, rvn(g));
                        let _ = c::session_cancel(s, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT });
                    }
                    st[d] = St::None;
                }
            }
            0 | 1 => {
                let m = msg_case(r);
                let k = ks.get(&aes_key(&m.key)).must("C_CreateObject(key)");
                let g = if enc { c::msg_encrypt_init(s, &im(m.gcm), k) } else { c::msg_decrypt_init(s, &im(m.gcm), k) };
                ev("init", st[d], &rn(&g));
                if g.is_ok() != (st[d] == St::None) {
                    viol!(["P22"], &format!("msg-init:{:?}:{}", st[d] != St::None, rn(&g)), "C_Message(En|De)cryptInit in state {:?} gave {}", st[d], rn(&g));
                }
                if g.is_ok() {
                    let tag = if enc { c::arc(&vec![0u8; m.tag.len()]) } else { c::arc(&m.tag) };
                    let pm = msg_param(m.gcm, &m.iv, m.p.len(), &tag);
                    cur[d] = Some((m, pm, tag, k));
                    st[d] = St::Init;
                }
            }
            2 | 3 => {
                // one-shot message; the same parameters again are a fresh message here (caller chosen IV)
                let Some((m, pm, tag, _)) = &cur[d] else {
                    let m = msg_case(r);
                    let tag = c::arc(&m.tag);
                    let pm = msg_param(m.gcm, &m.iv, m.p.len(), &tag);
                    let o = if enc { c::encrypt_message_o(s, &pm, &m.aad, &m.p, Some(400)) } else { c::decrypt_message_o(s, &pm, &m.aad, &m.ct, Some(400)) };
                    ev("msg", st[d], &rvn(o.rv));
                    if o.rv != CKR_OPERATION_NOT_INITIALIZED {
                        viol!(["P22"], &format!("msg-inactive:{}", rvn(o.rv)), "C_xxcryptMessage without init gave {}", rvn(o.rv));
                    }
                    continue;
                };
                let (i, want) = if enc { (&m.p, &m.ct) } else { (&m.ct, &m.p) };
                let o = if enc { c::encrypt_message_o(s, pm, &m.aad, i, Some(i.len())) } else { c::decrypt_message_o(s, pm, &m.aad, i, Some(i.len())) };
                ev("msg", st[d], &rvn(o.rv));
                match st[d] {
                    St::Busy(_) => {
                        if o.rv == CKR_OK {
                            viol!(["P22"], "msg-while-busy", "a one-shot message succeeded between Begin and the end of another");
                        }
                    }
                    _ => {
                        let got = o.val();
                        if got.as_ref() != Ok(want) || **tag != m.tag {
                            viol!(["P22"], &format!("msg-result:gcm={}:enc={}:{}", m.gcm, enc, rn(&got)), "message {} gave {}, expected {}", pm.show(), showr(&got), w::hx(want));
                        }
                    }
                }
            }
            4 => {
                let Some((m, pm, _, _)) = &cur[d] else { continue };
                let g = if enc { c::encrypt_message_begin(s, pm, &m.aad) } else { c::decrypt_message_begin(s, pm, &m.aad) };
                ev("begin", st[d], &rn(&g));
                if g.is_ok() != (st[d] == St::Init) {
                    viol!(["P22"], &format!("msg-begin:{:?}:{}", st[d] == St::Init, rn(&g)), "Begin in state {:?} gave {} ({})", st[d], rn(&g), pm.show());
                    let _ = c::session_cancel(s, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT });
                    st[d] = St::None;
                    cur[d] = None;
                } else if g.is_ok() {
                    st[d] = St::Busy(0);
                    out[d].clear();
                }
            }
            5 | 6 => {
                let Some((m, pm, tag, _)) = &cur[d] else { continue };
                let (i, want) = if enc { (&m.p, &m.ct) } else { (&m.ct, &m.p) };
                match st[d] {
                    St::Busy(n) => {
                        let left = i.len() - n;
                        let k = if r.chance(1, 3) { left } else { r.range(1.min(left), left) };
                        if k == 0 {
                            continue;
                        }
                        let end = k == left;
                        let o = if enc { c::encrypt_message_next_o(s, pm, &i[n..n + k], Some(i.len()), end) } else { c::decrypt_message_next_o(s, pm, &i[n..n + k], Some(i.len()), end) };
                        ev("next", st[d], &rvn(o.rv));
                        if o.rv != CKR_OK {
                            viol!(["P22"], &format!("msg-next:gcm={}:enc={}:{}", m.gcm, enc, rvn(o.rv)), "Next of {} bytes after {} of {} (end={}) gave {}", k, n, i.len(), end, rvn(o.rv));
                            let _ = c::session_cancel(s, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT });
                            st[d] = St::None;
                            cur[d] = None;
                            continue;
                        }
                        out[d].extend(o.val().unwrap());
                        st[d] = St::Busy(n + k);
                        if end {
                            if &out[d] != want || **tag != m.tag {
                                viol!(["P22"], &format!("msg-multi-result:gcm={}:enc={}", m.gcm, enc), "message {} in parts gave {}, expected {}", pm.show(), w::hx(&out[d]), w::hx(want));
                            }
                            st[d] = St::Init;
                        }
                    }
                    _ => {
                        let o = if enc { c::encrypt_message_next_o(s, pm, &i[..1], Some(i.len()), false) } else { c::decrypt_message_next_o(s, pm, &i[..1], Some(i.len()), false) };
                        ev("next", st[d], &rvn(o.rv));
                        if o.rv != CKR_OPERATION_NOT_INITIALIZED {
                            viol!(["P22"], &format!("msg-next-inactive:{}", rvn(o.rv)), "Next in state {:?} gave {}", st[d], rvn(o.rv));
                        }
                    }
                }
            }
            _ => {
                let g = match r.below(2) {
                    0 => c::session_cancel(s, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT }),
                    _ => {
                        if matches!(st[d], St::Busy(_)) {
                            continue;
                        }
                        if enc { c::msg_encrypt_final(s) } else { c::msg_decrypt_final(s) }
                    }
                };
                ev("end", st[d], &rn(&g));
                if st[d] != St::None && g.is_err() {
                    viol!(["P22"], &format!("msg-end:{}", rn(&g)), "ending a message operation in state {:?} gave {}", st[d], rn(&g));
                    let _ = c::session_cancel(s, CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT);
                }
                st[d] = St::None;
                cur[d] = None;
            }
        }
    }
}

// ---------------------------------------------------------------- P32
/// sessions that keep their own digest; states are saved and restored among them at random
fn save(t: &Tok, r: &mut Rng) {
    struct D {
        h: H,
        cur: Option<(usize, Vec<u8>)>,
    }
    let mut ss: Vec<D> = (0..4).map(|i| D { h: c::open(t.slot, i & 1 == 0).must("C_OpenSession"), cur: None }).collect();
    let mut saved: Vec<(Vec<u8>, usize, Vec<u8>, [bool; 3])> = vec![];
    while w::time_left() {
        let i = r.us(ss.len());
        let h = ss[i].h;
        let st = ss[i].cur.is_some();
        match r.below(10) {
            0 | 1 => {
                let m = r.us(DIGESTS.len());
                let g = c::digest_init(h, &M::new(DIGESTS[m].0));
                if g.is_ok() != !st {
                    viol!(["P32", "P22"], &format!("init:{}:{}", st, rn(&g)), "C_DigestInit gave {} while active={}", rn(&g), st);
                }
                if g.is_ok() {
                    ss[i].cur = Some((m, vec![]));
                }
            }
            2..=4 => {
                if let Some((_, d)) = &mut ss[i].cur {
                    let n = r.len(400);
                    let x = r.bytes(n);
                    c::digest_update(h, &x).must("C_DigestUpdate");
                    d.extend(x);
                }
            }
            5 => {
                if let Some((m, d)) = &ss[i].cur {
                    let q = c::get_op_state_o(h, if r.bool() { Some(4096) } else { None });
                    let name = DIGESTS[*m].1.name;
                    if q.rv == CKR_STATE_UNSAVEABLE {
                        w::count(&format!("unsaveable {}", name), 1);
                        continue;
                    }
                    if q.rv != CKR_OK {
                        viol!(["P32"], &format!("save:{}:{}", name, rvn(q.rv)), "C_GetOperationState of a {} digest after {} bytes gave {}", name, d.len(), rvn(q.rv));
                        continue;
                    }
                    let v = if q.cap.is_some() { q.val().unwrap() } else { c::get_op_state_o(h, Some(q.len as usize)).val().must("C_GetOperationState") };
                    w::count(&format!("saved {}", name), 1);
                    saved.push((v, *m, d.clone(), [false; 3]));
                    if saved.len() > 40 {
                        let j = r.us(saved.len());
                        saved.swap_remove(j);
                    }
                }
            }
            6 | 7 => {
                if saved.is_empty() {
                    continue;
                }
                let j = r.us(saved.len());
                // sometimes a fresh session
                if r.chance(1, 4) {
                    c::close(h).must("C_CloseSession");
                    ss[i] = D { h: c::open(t.slot, r.bool()).must("C_OpenSession"), cur: None };
                }
                let h = ss[i].h;
                let g = c::set_op_state(h, &saved[j].0, 0, 0);
                w::eval(&format!("restore {} n{} active={} {}", DIGESTS[saved[j].1].1.name, saved[j].2.len().min(300), ss[i].cur.is_some(), rn(&g)));
                match g {
                    Ok(()) => ss[i].cur = Some((saved[j].1, saved[j].2.clone())),
                    Err(CKR_OPERATION_ACTIVE) if ss[i].cur.is_some() => {}
                    Err(e) => viol!(["P32"], &format!("restore:{}:{}", DIGESTS[saved[j].1].1.name, rvn(e)), "restoring a saved {} state gave {}", DIGESTS[saved[j].1].1.name, rvn(e)),
                }
            }
            8 => {
                if let Some((m, d)) = ss[i].cur.take() {
                    let got = c::digest_final(h);
                    let mut acc = got.clone();
                    if got == Err(CKR_OPERATION_NOT_INITIALIZED) && d.is_empty() {
                        // final without any update
                        let _ = c::session_cancel(h, CKF_DIGEST);
                        acc = Ok(refc::hash(DIGESTS[m].1, &d));
                    }
                    w::eval(&format!("final {} n{}", DIGESTS[m].1.name, d.len().min(300)));
                    if acc.as_ref() != Ok(&refc::hash(DIGESTS[m].1, &d)) {
                        viol!(["P32"], &format!("digest:{}:{}", DIGESTS[m].1.name, rn(&got)), "the {} digest of {} bytes through saved states is {}, expected {}", DIGESTS[m].1.name, d.len(), showr(&got), w::hex(&refc::hash(DIGESTS[m].1, &d)));
                        let _ = c::session_cancel(h, CKF_DIGEST);
                    }
                }
            }
            _ => {
                if st && r.chance(1, 3) {
                    let _ = c::session_cancel(h, CKF_DIGEST);
                    ss[i].cur = None;
                }
            }
        }
    }
}
fn foreign(r: &mut Rng) -> Vec<u8> {
    // the outer structure of a saved state, with other contents
    let mut v = w::unhex("305e3025060960864801650304012e3018040c6795e3d7e1a40c2bda3fd50d0408f77f41a9dddddd1f043596c25de9519a1625fd66370c5bebb1ac8c3f82296051da5e07de779676cee173a1cec76228e2b8c7bd6fba48f3d8a36583f24b385d");
    let n = v.len();
    for x in &mut v[n - 53..] {
        *x = r.below(256) as u8;
    }
    v
}
fn corrupt(t: &Tok, r: &mut Rng) {
    let h = c::open(t.slot, true).must("C_OpenSession");
    let g = c::open(t.slot, false).must("C_OpenSession");
    let enck = c::create(h, &aes_key(&[5; 16])).must("C_CreateObject");
    let mack = c::create(h, &gen_key(&[5; 32])).must("C_CreateObject");
    while w::time_left() {
        let (m, hs) = *r.pick(&DIGESTS);
        c::digest_init(h, &M::new(m)).must("C_DigestInit");
        let n = r.us(200);
        let d = r.bytes(n);
        c::digest_update(h, &d).must("C_DigestUpdate");
        let st = match c::get_op_state(h) {
            Ok(v) => v,
            // states cannot be saved here: a well-formed one of another process instead
            Err(_) => foreign(r),
        };
        let own = c::get_op_state(h).is_ok();
        // the victim has its own digest, a MAC and an encryption going (or nothing)
        let busy = r.chance(2, 3);
        let (m2, h2) = *r.pick(&DIGESTS);
        let d2 = r.bytes(77);
        if busy {
            c::digest_init(g, &M::new(m2)).must("C_DigestInit");
            c::digest_update(g, &d2).must("C_DigestUpdate");
            c::sign_init(g, &M::new(CKM_SHA256_HMAC), mack).must("C_SignInit");
            c::sign_update(g, &d2).must("C_SignUpdate");
            c::encrypt_init(g, &M::raw(CKM_AES_CBC, &[9; 16]), enck).must("C_EncryptInit");
        }
        let mut restored = false;
        for _ in 0..6 {
            let mut bad = st.clone();
            let what;
            match r.below(10) {
                8 => {
                    bad = foreign(r);
                    what = "of another process"
                }
                0 | 1 => {
                    let i = r.us(bad.len());
                    bad[i] ^= 1 << r.below(8);
                    what = "bit flip"
                }
                2 => {
                    let k = r.us(bad.len());
                    bad.truncate(k);
                    what = "truncated"
                }
                3 => {
                    let k = r.range(1, 40);
                    bad.extend(r.bytes(k));
                    what = "extended"
                }
                4 => {
                    let k = r.len(600);
                    bad = r.bytes(k);
                    what = "random"
                }
                5 => {
                    bad.fill(0);
                    what = "zero"
                }
                6 => {
                    let (i, j) = (r.us(bad.len()), r.us(bad.len()));
                    let (i, j) = (i.min(j), i.max(j));
                    bad[i..j].reverse();
                    if bad == st {
                        continue;
                    }
                    what = "reversed part"
                }
                _ if !own => {
                    what = "of another process"
                }
                _ => {
                    // an intact state with keys that do not belong
                    let rv = if r.bool() { c::set_op_state(g, &st, enck, 0) } else { c::set_op_state(g, &st, 0, mack) };
                    w::eval(&format!("extra key {}", rn(&rv)));
                    if rv.is_ok() {
                        viol!(["P32"], "extra-key-accepted", "a digest state restored with a key was accepted");
                        restored = true;
                    }
                    continue;
                }
            }
            let rv = c::set_op_state(g, &bad, 0, 0);
            w::eval(&format!("{} busy={} {}", what, busy, rn(&rv)));
            if rv.is_ok() {
                viol!(["P32"], &format!("corrupt-accepted:{}", what), "a saved state ({}) was accepted: {} -> {}", what, w::hx(&st), w::hx(&bad));
                restored = true;
                break;
            }
        }
        if busy && !restored {
            let a = c::digest_final(g);
            let b = c::sign_final(g);
            let e = c::encrypt(g, &[3; 32]);
            if a != Ok(refc::hash(h2, &d2)) || b != Ok(refc::hmac(refc::SHA256, &[5; 32], &d2)) || e != Ok(refc::cbc_enc(&[5; 16], &[9; 16], &[3; 32])) {
                viol!(["P32"], "corrupt-disturbs", "after refused states the operations of the session give {} {} {}", showr(&a), showr(&b), showr(&e));
            }
        } else if !busy && !restored {
            let a = c::digest_update(g, b"x");
            if a != Err(CKR_OPERATION_NOT_INITIALIZED) {
                viol!(["P32"], "corrupt-starts", "after refused states a digest is active ({})", rn(&a));
            }
        }
        for f in [CKF_DIGEST, CKF_SIGN, CKF_ENCRYPT] {
            let _ = c::session_cancel(g, f);
        }
        if !own {
            let a = c::digest_final(h);
            if a != Ok(refc::hash(hs, &d)) {
                viol!(["P32"], &format!("original:{}", rn(&a)), "the original digest gives {}", showr(&a));
                let _ = c::session_cancel(h, CKF_DIGEST);
            }
            continue;
        }
        // the good state still works, and so does the original
        let g1 = c::set_op_state(g, &st, 0, 0);
        let a = g1.and_then(|_| c::digest_update(g, b"tail")).and_then(|_| c::digest_final(g));
        let mut x = d.clone();
        x.extend(b"tail");
        if a != Ok(refc::hash(hs, &x)) {
            viol!(["P32"], &format!("restore-after:{}", rn(&a)), "an intact {} state then gives {}", hs.name, showr(&a));
            let _ = c::session_cancel(g, CKF_DIGEST);
        }
        let a = c::digest_final(h);
        if a != Ok(refc::hash(hs, &d)) {
            viol!(["P32"], &format!("original:{}", rn(&a)), "the original digest gives {}", showr(&a));
            let _ = c::session_cancel(h, CKF_DIGEST);
        }
    }
}
/// a MAC operation saved and restored with its key; with a digest alongside it is refused or exact
fn savemac(t: &Tok, ks: &mut Keys, r: &mut Rng) {
    let h = c::open(t.slot, true).must("C_OpenSession");
    while w::time_left() {
        let cs = mac_case(r);
        if !matches!(cs.kind, Kind::Sign | Kind::Ver) || !cs.fam.starts_with("hmac") || !cs.multi {
            continue;
        }
        let k = ks.get(cs.key.as_ref().unwrap()).must("C_CreateObject(key)");
        if init(h, &cs, k).is_err() {
            continue;
        }
        let n = r.us(cs.input.len() + 1);
        upd_o(h, &cs, &cs.input[..n], None);
        let st = match c::get_op_state(h) {
            Ok(v) => v,
            Err(e) => {
                w::eval(&format!("mac {} {}", cs.class, rvn(e)));
                reset(h, cs.kind);
                continue;
            }
        };
        reset(h, cs.kind);
        for _ in 0..2 {
            let g = c::open(t.slot, r.bool()).must("C_OpenSession");
            // no key, or a session key of another kind, is refused
            if r.chance(1, 3) {
                let rv = c::set_op_state(g, &st, 0, 0);
                if rv.is_ok() {
                    viol!(["P32"], "mac-without-key", "a MAC state was restored without its key");
                }
            }
            let rv = c::set_op_state(g, &st, 0, k);
            w::eval(&format!("mac restore {} {}", cs.class, rn(&rv)));
            if rv.is_ok() {
                let o = upd_o(g, &cs, &cs.input[n..], None);
                let f = fin_o(g, &cs, Some(room(&cs)));
                let got = if o.rv != CKR_OK { Err(o.rv) } else { f.val() };
                if !good(&cs, &got) {
                    viol!(["P32"], &format!("mac:{}", rn(&got)), "a restored MAC operation {} gave {}, expected {}", cs.show(), showr(&got), showw(&cs));
                }
            }
            let _ = c::close(g);
        }
    }
}

/// Whatever set of a digest, a signing and a verifying operation is active when the state is saved:
/// restoring it either continues all of them exactly or is refused and changes nothing; keys are
/// held to the same rules as at initialisation.
fn saveops(t: &Tok, r: &mut Rng) {
    const MACS: [(CK_ULONG, refc::Hash); 4] = [(CKM_SHA256_HMAC, refc::SHA256), (CKM_SHA_1_HMAC, refc::SHA1), (CKM_SHA512_HMAC, refc::SHA512), (CKM_SHA3_256_HMAC, refc::SHA3_256)];
    let a = c::open(t.slot, true).must("C_OpenSession");
    let kv = r.bytes(40);
    let key = |x: T| c::create(a, &tok::secret_t(CKK_GENERIC_SECRET, &kv).b(CKA_PRIVATE, false).b(CKA_TOKEN, false)).and_then(|_| c::create(a, &x)).must("C_CreateObject");
    let base = || tok::secret_t(CKK_GENERIC_SECRET, &kv);
    let good = key(base().setb(CKA_SIGN, true).setb(CKA_VERIFY, true));
    let nosign = key(base().setb(CKA_SIGN, false).setb(CKA_VERIFY, false));
    let other = key(base().setb(CKA_SIGN, true).setb(CKA_VERIFY, true).mechs(&[CKM_SHA224_HMAC]));
    while w::time_left() {
        let h = c::open(t.slot, r.bool()).must("C_OpenSession");
        let g = c::open(t.slot, r.bool()).must("C_OpenSession");
        let which = r.range(1, 7);
        let (dg, sg, vr) = (which & 1 != 0, which & 2 != 0, which & 4 != 0);
        let (dm, dh) = *r.pick(&DIGESTS);
        let (sm, sh) = *r.pick(&MACS);
        let (vm, vh) = *r.pick(&MACS);
        // data before the save, data after it
        let pre: Vec<Vec<u8>> = (0..3).map(|_| { let n = r.len(200); r.bytes(n) }).collect();
        let post: Vec<Vec<u8>> = (0..3).map(|_| { let n = if r.bool() { 0 } else { r.len(200) }; r.bytes(n) }).collect();
        let full: Vec<Vec<u8>> = (0..3).map(|i| [pre[i].clone(), post[i].clone()].concat()).collect();
        let wd = refc::hash(dh, &full[0]);
        let ws = refc::hmac(sh, &kv, &full[1]);
        let wv = refc::hmac(vh, &kv, &full[2]);
        if dg {
            c::digest_init(h, &M::new(dm)).must("C_DigestInit");
            c::digest_update(h, &pre[0]).must("C_DigestUpdate");
        }
        if sg {
            c::sign_init(h, &M::new(sm), good).must("C_SignInit");
            c::sign_update(h, &pre[1]).must("C_SignUpdate");
        }
        if vr {
            c::verify_init(h, &M::new(vm), good).must("C_VerifyInit");
            c::verify_update(h, &pre[2]).must("C_VerifyUpdate");
        }
        let st = match c::get_op_state(h) {
            Ok(v) => v,
            Err(e) => {
                w::eval(&format!("ops {} {}", which, rvn(e)));
                let _ = c::close(h);
                let _ = c::close(g);
                continue;
            }
        };
        // the session restored into has a digest of its own, or nothing
        let own = r.chance(1, 3);
        let (om, oh) = *r.pick(&DIGESTS);
        if own {
            c::digest_init(g, &M::new(om)).must("C_DigestInit");
            c::digest_update(g, b"own").must("C_DigestUpdate");
        }
        let (kname, k) = match r.below(8) {
            0 => ("nosign", nosign),
            1 => ("other-mech", other),
            2 => ("no-key", 0),
            3 => ("bad-handle", 0x7fff_ffff),
            _ => if sg || vr { ("good", good) } else { ("no-key", 0) },
        };
        let rv = c::set_op_state(g, &st, 0, k);
        let class = format!("d{} s{} v{} key {} own {}", dg as u8, sg as u8, vr as u8, kname, own as u8);
        w::eval(&format!("restore {} -> {}", class, rn(&rv)));
        w::count(if rv.is_ok() { "restored" } else { "refused" }, 1);
        let needs = sg || vr;
        if rv.is_ok() && (needs != (kname == "good")) && (needs || k != 0) {
            viol!(["P32", "P07"], &format!("ops-key:{}:needs={}", kname, needs), "a state was restored with key {:?} ({})", kname, class);
        } else if rv.is_ok() {
            let mut bad = vec![];
            if dg {
                let x = if post[0].is_empty() { Ok(()) } else { c::digest_update(g, &post[0]) }.and_then(|_| c::digest_final(g));
                if x != Ok(wd.clone()) {
                    bad.push(format!("digest {}", showr(&x)));
                }
            } else if own {
                let x = c::digest_final(g);
                if x != Ok(refc::hash(oh, b"own")) {
                    bad.push(format!("own digest {}", showr(&x)));
                }
            }
            // after updates the one-shot calls are not allowed, before the save as after it
            if sg && r.chance(1, 4) {
                if let Ok(v) = c::sign(g, &post[1]) {
                    bad.push(format!("C_Sign after updates gave {}", w::hex(&v)));
                }
            } else if sg {
                let x = if post[1].is_empty() { Ok(()) } else { c::sign_update(g, &post[1]) }.and_then(|_| c::sign_final(g));
                if x != Ok(ws.clone()) {
                    bad.push(format!("mac {}", showr(&x)));
                }
            }
            if vr && r.chance(1, 4) {
                let x = c::verify(g, &post[2], &wv);
                if x.is_ok() {
                    bad.push("C_Verify after updates accepted".into());
                }
            } else if vr {
                let forged = r.bool();
                let mut v = wv.clone();
                if forged {
                    let n = v.len();
                    v[r.us(n)] ^= 1 << r.below(8);
                }
                let x = if post[2].is_empty() { Ok(()) } else { c::verify_update(g, &post[2]) }.and_then(|_| c::verify_final(g, &v));
                if x != if forged { Err(CKR_SIGNATURE_INVALID) } else { Ok(()) } {
                    bad.push(format!("verification forged={} {}", forged, rn(&x)));
                }
            }
            if !bad.is_empty() {
                viol!(["P32"], &format!("ops-resume:{}:{}", which, bad[0].split(' ').next().unwrap()), "after restoring {}: {:?}", class, bad);
            }
        } else {
            if (kname == "good" || (kname == "no-key" && !needs)) && !own {
                viol!(["P32"], &format!("ops-refused:{}:{}", which, rn(&rv)), "restoring {} gave {}", class, rn(&rv));
            }
            let x = c::digest_final(g);
            let s = c::sign_final(g);
            let v = c::verify_final(g, &wv);
            let wantd = if own { Ok(refc::hash(oh, b"own")) } else { Err(CKR_OPERATION_NOT_INITIALIZED) };
            if x != wantd || s != Err(CKR_OPERATION_NOT_INITIALIZED) || v != Err(CKR_OPERATION_NOT_INITIALIZED) {
                viol!(["P32"], &format!("ops-refused-disturbs:{}", which), "a refused restore ({}, {}) leaves digest {} mac {} verification {}", class, rn(&rv), showr(&x), showr(&s), rn(&v));
            }
        }
        // the original goes on unharmed
        if dg {
            let x = c::digest_update(h, &post[0]).and_then(|_| c::digest_final(h));
            if x != Ok(wd) {
                viol!(["P32"], "ops-original", "the original digest gives {} after its state was restored elsewhere", showr(&x));
            }
        }
        if sg {
            let x = c::sign_update(h, &post[1]).and_then(|_| c::sign_final(h));
            if x != Ok(ws) {
                viol!(["P32"], "ops-original-mac", "the original MAC gives {}", showr(&x));
            }
        }
        let _ = c::close(h);
        let _ = c::close(g);
    }
}
