//! softhsm_migrate: a SoftHSM v2 token arrives whole, or what did not is counted (P34).
use crate::c::{self, *};
use crate::p11::*;
use crate::tok::*;
use crate::w::{self, hex, Rng};
use crate::{job, names, ops, refc, times, viol, Job};
use std::collections::{BTreeMap, BTreeSet};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 10 } else { 1 };
    match prop {
        "P34" => {
            let mut v = times(5 * k, |_| job("mig.tokens", 0, 30_000));
            v.extend(times(4 * k, |_| job("mig.maps", 1, 25_000)));
            v.extend(times(3 * k, |_| job("mig.bad", 2, 25_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, _arg: u64, r: &mut Rng) {
    let env = Env::new();
    while w::time_left() && w::viols() < 30 {
        match job {
            "mig.tokens" => tokens(&env, r, false),
            "mig.maps" => tokens(&env, r, true),
            "mig.bad" => bad(&env, r),
            _ => panic!("{}", job),
        }
    }
}

// ---- the target: two initialised slots, kept as pristine files that are copied back for every run ----
struct Env {
    tool: String,
    so: String,
    rec: String,
    dir: String,
    conf: String,
}
impl Env {
    fn new() -> Env {
        let dir = scratch("mig");
        let conf = write_conf(&dir, &[sqlite(0, &dir, "t0"), sqlite(3, &dir, "t3")]);
        c::initialize(Some(&conf)).must("C_Initialize");
        init_pins(0);
        init_pins(3);
        c::finalize().must("C_Finalize");
        for n in ["t0", "t3"] {
            std::fs::copy(format!("{}/{}.sql", dir, n), format!("{}/{}.orig", dir, n)).unwrap();
        }
        let g = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{}", n));
        Env { tool: g("KV_TOOL"), so: g("KV_SO"), rec: g("KV_REC"), dir, conf }
    }
    fn reset(&self) {
        for n in ["t0", "t3"] {
            for x in ["-wal", "-shm", "-journal"] {
                let _ = std::fs::remove_file(format!("{}/{}.sql{}", self.dir, n, x));
            }
            std::fs::copy(format!("{}/{}.orig", self.dir, n), format!("{}/{}.sql", self.dir, n)).unwrap();
        }
        let _ = std::fs::remove_file(format!("{}/rec", self.dir));
    }
    fn tok(&self) -> String {
        format!("{}/softhsm", self.dir)
    }
    /// run the tool: (exit code, stderr); None for a death by signal or a hang
    fn go(&self, args: &[&str], rec: bool) -> (Option<i32>, String) {
        let mut c = std::process::Command::new("timeout");
        c.args(["-s", "KILL", "150"]).arg(&self.tool).args(args);
        c.env("KVREC_SO", &self.so).env("KVREC_OUT", format!("{}/rec", self.dir));
        c.env_remove("LD_PRELOAD");
        let _ = rec;
        w::ring(&format!("softhsm_migrate {}", args.join(" ")));
        let o = c.output().expect("timeout");
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        let code = match o.status.code() {
            Some(x) if x == 124 || x == 126 || x == 127 || x >= 128 && x < 160 && killed(x, &e) => None,
            x => x,
        };
        (code, e)
    }
}
/// `timeout` reports the death of its child by signal n as 128+n
fn killed(x: i32, _err: &str) -> bool {
    [129, 130, 131, 132, 134, 135, 136, 137, 139, 141, 143].contains(&x)
}

// ---- SoftHSM v2 files ----
#[derive(Clone, Debug, PartialEq)]
enum V {
    B(bool),
    U(u64),
    S(Vec<u8>),
    M(Vec<(u64, V)>),
    L(Vec<u64>),
}
type At = Vec<(u64, V)>;
fn enc1(out: &mut Vec<u8>, a: u64, v: &V) {
    let u = |out: &mut Vec<u8>, x: u64| out.extend_from_slice(&x.to_be_bytes());
    u(out, a);
    match v {
        V::B(b) => {
            u(out, 1);
            out.push(if *b { 0xff } else { 0 });
        }
        V::U(x) => {
            u(out, 2);
            u(out, *x);
        }
        V::S(s) => {
            u(out, 3);
            u(out, s.len() as u64);
            out.extend_from_slice(s);
        }
        V::M(m) => {
            let mut b = vec![];
            for (a, v) in m {
                enc1(&mut b, *a, v);
            }
            u(out, 4);
            u(out, b.len() as u64);
            out.extend_from_slice(&b);
        }
        V::L(l) => {
            u(out, 5);
            u(out, l.len() as u64);
            for x in l {
                u(out, *x);
            }
        }
    }
}
/// the file and the offsets at which its attributes start
fn file(gen: u64, at: &At) -> (Vec<u8>, Vec<usize>) {
    let mut b = gen.to_be_bytes().to_vec();
    let mut offs = vec![8];
    for (a, v) in at {
        enc1(&mut b, *a, v);
        offs.push(b.len());
    }
    (b, offs)
}
fn seal(r: &mut Rng, key: &[u8], d: &[u8]) -> Vec<u8> {
    let iv = r.bytes(16);
    let mut o = iv.clone();
    o.extend(refc::cbc_enc(key, &iv, &refc::pad7(d)));
    o
}
/// salt || IV || AES-CBC("RJR" || token key) under the key derived from the PIN
fn pin_blob(r: &mut Rng, pin: &[u8], tk: &[u8]) -> Vec<u8> {
    let mut salt = r.bytes(8);
    if r.chance(1, 3) {
        salt[7] = *r.pick(&[0u8, 1, 127, 128, 255]);
    }
    let mut d = salt.clone();
    d.extend_from_slice(pin);
    for _ in 0..1500 + salt[7] as usize {
        d = refc::hash(refc::SHA256, &d);
    }
    let mut m = vec![0x52, 0x4a, 0x52];
    m.extend_from_slice(tk);
    salt.extend(seal(r, &d, &m));
    salt
}
const OS: u64 = 0x8000_0000 + 0x5348;
fn token_object(r: &mut Rng, pin: &[u8], tk: &[u8]) -> At {
    let so = r.bytes(88);
    let user = pin_blob(r, pin, tk);
    vec![(OS + 1, V::S(r.bytes(32))), (OS + 2, V::S(b"0123456789abcdef".to_vec())), (OS + 3, V::U(0x42d)), (OS + 4, V::S(so)), (OS + 5, V::S(user))]
}

// ---- objects ----
/// attributes the target sets itself: the tool may leave them out
fn unsettable(class: u64, a: u64) -> bool {
    a == CKA_UNIQUE_ID
        || match class {
            CKO_PRIVATE_KEY => [CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE].contains(&a),
            CKO_SECRET_KEY => [CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_TRUSTED].contains(&a),
            CKO_PUBLIC_KEY => [CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_TRUSTED].contains(&a),
            _ => false,
        }
}
struct Obj {
    kind: String,
    class: u64,
    at: At,
    private: bool,
    label: Vec<u8>,
    /// how to prove the value of a key
    proof: Proof,
    /// Some(why) when the tool must count it as failed whatever the target thinks
    fails: Option<String>,
}
enum Proof {
    None,
    Aes(Vec<u8>),
    Mac(CK_ULONG, refc::Hash, Vec<u8>),
    Rsa(usize),
    Ec(refc::Curve, Vec<u8>),
}
fn plain(v: &V) -> Vec<u8> {
    match v {
        V::B(b) => vec![*b as u8],
        V::U(u) => u.to_ne_bytes().to_vec(),
        V::S(s) => s.clone(),
        V::L(l) => l.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        V::M(_) => vec![],
    }
}
fn label(r: &mut Rng, i: usize) -> Vec<u8> {
    let mut l = format!("{}", i).into_bytes();
    match r.below(4) {
        0 => l.extend_from_slice("ké✓".as_bytes()),
        1 => {
            let n = r.range(1, 8);
            l.extend(hex(&r.bytes(n)).into_bytes());
        }
        _ => {
            let n = r.range(5, 28);
            l.extend(hex(&r.bytes(n)).into_bytes());
        }
    }
    l
}
fn date(r: &mut Rng) -> V {
    if r.chance(1, 2) {
        V::S(vec![])
    } else {
        V::S(format!("20{:02}{:02}{:02}", r.range(0, 49), r.range(1, 12), r.range(1, 28)).into_bytes())
    }
}
fn bytes(r: &mut Rng, max: usize) -> V {
    let n = if r.chance(1, 4) { 0 } else { *r.pick(&[1, 7, 8, 15, 16, 17, 20, 31, 32, 33, max]) };
    V::S(r.bytes(n))
}
fn map(r: &mut Rng, deep: bool) -> V {
    let mut m = vec![];
    for _ in 0..r.below(if deep { 9 } else { 1 }) {
        let n = *r.pick(&[0usize, 1, 5, 16, 40, 300]);
        let s = r.bytes(n);
        m.push(match r.below(5) {
            0 => (*r.pick(&[CKA_ENCRYPT, CKA_DECRYPT, CKA_EXTRACTABLE, CKA_SENSITIVE, CKA_SIGN, CKA_TOKEN]), V::B(r.bool())),
            1 => (*r.pick(&[CKA_CLASS, CKA_KEY_TYPE, CKA_VALUE_LEN]), V::U(*r.pick(&[0u64, 1, 3, 4, 0x1f, u64::MAX, 1 << 33]))),
            2 => (CKA_ALLOWED_MECHANISMS, V::L((0..r.below(4)).map(|_| *r.pick(&[CKM_AES_CBC, CKM_RSA_PKCS, CKM_SHA256_HMAC])).collect())),
            _ => (*r.pick(&[CKA_LABEL, CKA_ID, CKA_VALUE]), V::S(s)),
        });
    }
    V::M(m)
}
fn cert_der(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 300);
    let body = r.bytes(n);
    refc::seq(&[refc::der(4, &body)])
}
fn gen_obj(r: &mut Rng, i: usize, deep: bool) -> Obj {
    let lab = label(r, i);
    let which = r.below(12);
    let class = match which {
        0 | 1 => CKO_CERTIFICATE,
        2 | 3 => CKO_PUBLIC_KEY,
        4 | 5 | 6 => CKO_PRIVATE_KEY,
        _ => CKO_SECRET_KEY,
    };
    let private = if class == CKO_PRIVATE_KEY || class == CKO_SECRET_KEY { r.chance(4, 5) } else { r.chance(1, 4) };
    let mut at: At = vec![
        (CKA_CLASS, V::U(class)),
        (CKA_TOKEN, V::B(true)),
        (CKA_PRIVATE, V::B(private)),
        (CKA_MODIFIABLE, V::B(r.chance(9, 10))),
        (CKA_COPYABLE, V::B(r.chance(9, 10))),
        (CKA_DESTROYABLE, V::B(r.chance(9, 10))),
        (CKA_LABEL, V::S(lab.clone())),
    ];
    if r.chance(1, 6) {
        at.push((CKA_UNIQUE_ID, V::S(hex(&r.bytes(16)).into_bytes())));
    }
    let mut kind;
    let mut proof = Proof::None;
    if class == CKO_CERTIFICATE {
        kind = "cert".to_string();
        at.push((CKA_CERTIFICATE_TYPE, V::U(0)));
        at.push((CKA_CERTIFICATE_CATEGORY, V::U(r.below(4))));
        at.push((CKA_TRUSTED, V::B(false)));
        at.push((CKA_SUBJECT, V::S(cert_der(r))));
        at.push((CKA_ISSUER, bytes(r, 90)));
        at.push((CKA_SERIAL_NUMBER, bytes(r, 22)));
        at.push((CKA_ID, bytes(r, 60)));
        at.push((CKA_VALUE, V::S(cert_der(r))));
        at.push((CKA_URL, V::S(vec![])));
        if r.bool() {
            at.push((CKA_START_DATE, date(r)));
            at.push((CKA_END_DATE, date(r)));
        }
    } else {
        at.push((CKA_ID, bytes(r, 60)));
        at.push((CKA_START_DATE, date(r)));
        at.push((CKA_END_DATE, date(r)));
        at.push((CKA_DERIVE, V::B(r.bool())));
        at.push((CKA_LOCAL, V::B(r.bool())));
        at.push((CKA_KEY_GEN_MECHANISM, V::U(*r.pick(&[u64::MAX, CKM_AES_KEY_GEN, CKM_RSA_PKCS_KEY_PAIR_GEN]))));
        let mut mechs: Vec<u64> = vec![];
        if class == CKO_SECRET_KEY {
            at.push((CKA_ENCRYPT, V::B(r.bool())));
            at.push((CKA_DECRYPT, V::B(r.bool())));
            at.push((CKA_SIGN, V::B(r.chance(4, 5))));
            at.push((CKA_VERIFY, V::B(r.bool())));
            at.push((CKA_WRAP, V::B(r.bool())));
            at.push((CKA_UNWRAP, V::B(r.bool())));
            let (kt, n): (u64, usize) = if r.bool() {
                (CKK_AES, *r.pick(&[16, 24, 32]))
            } else {
                (*r.pick(&[CKK_GENERIC_SECRET, CKK_SHA_1_HMAC, CKK_SHA224_HMAC, CKK_SHA256_HMAC, CKK_SHA384_HMAC, CKK_SHA512_HMAC, CKK_SHA3_224_HMAC, CKK_SHA3_256_HMAC, CKK_SHA3_384_HMAC, CKK_SHA3_512_HMAC, CKK_HKDF]), r.range(20, 90))
            };
            // (the target takes HMAC keys of the size of the hash)
            let n = match ops::HMACS.iter().find(|x| x.3 == kt) {
                Some(x) if r.chance(4, 5) => refc::hash(x.2, b"").len(),
                _ => n,
            };
            let val = r.bytes(n);
            kind = format!("secret-{:x}", kt);
            if kt == CKK_AES {
                proof = Proof::Aes(val.clone());
                mechs.push(CKM_AES_ECB);
            } else if kt != CKK_HKDF {
                let (m, h) = match ops::HMACS.iter().find(|x| x.3 == kt) {
                    Some(x) => (x.0, x.2),
                    None => (CKM_SHA256_HMAC, refc::SHA256),
                };
                proof = Proof::Mac(m, h, val.clone());
                mechs.push(m);
            }
            at.push((CKA_KEY_TYPE, V::U(kt)));
            at.push((CKA_VALUE, V::S(val.clone())));
            if r.chance(1, 2) {
                at.push((CKA_VALUE_LEN, V::U(val.len() as u64)));
            }
        } else if r.bool() {
            let k = ops::rsa_index(r);
            kind = "rsa".into();
            at.push((CKA_KEY_TYPE, V::U(CKK_RSA)));
            let t = if class == CKO_PUBLIC_KEY { ops::rsa_pub(k) } else { ops::rsa_priv(k) };
            for (a, v) in t.pairs() {
                if ![CKA_CLASS, CKA_KEY_TYPE, CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP].contains(&a) {
                    at.push((a, V::S(v)));
                }
            }
            if class == CKO_PUBLIC_KEY {
                let bits = refc::Bn::from(&ops::rsa_ref(k).n).bits();
                at.push((CKA_MODULUS_BITS, V::U(bits as u64)));
            }
            proof = Proof::Rsa(k);
            mechs.push(CKM_RSA_PKCS);
        } else {
            let cv = refc::CURVES[r.us(3)];
            let d = ops::ec_scalar(cv, r);
            let pt = refc::ec_mul(cv, &d, None).unwrap();
            kind = format!("ec-{}", cv.name);
            at.push((CKA_KEY_TYPE, V::U(CKK_EC)));
            at.push((CKA_EC_PARAMS, V::S(cv.oid.to_vec())));
            if class == CKO_PUBLIC_KEY {
                at.push((CKA_EC_POINT, V::S(refc::der(4, &pt))));
            } else {
                at.push((CKA_VALUE, V::S(d)));
            }
            proof = Proof::Ec(cv, pt);
            mechs.push(CKM_ECDSA);
        }
        if class == CKO_PUBLIC_KEY {
            at.push((CKA_SUBJECT, V::S(vec![])));
            at.push((CKA_ENCRYPT, V::B(kind == "rsa" && r.bool())));
            at.push((CKA_VERIFY, V::B(r.chance(4, 5))));
            at.push((CKA_VERIFY_RECOVER, V::B(false)));
            at.push((CKA_WRAP, V::B(r.bool())));
            at.push((CKA_TRUSTED, V::B(false)));
            at.push((CKA_WRAP_TEMPLATE, map(r, deep)));
            kind = format!("pub-{}", kind);
        } else {
            let sens = r.bool();
            at.push((CKA_SENSITIVE, V::B(sens)));
            at.push((CKA_EXTRACTABLE, V::B(r.bool())));
            at.push((CKA_ALWAYS_SENSITIVE, V::B(r.bool())));
            at.push((CKA_NEVER_EXTRACTABLE, V::B(r.bool())));
            at.push((CKA_WRAP_WITH_TRUSTED, V::B(r.chance(1, 4))));
            at.push((CKA_UNWRAP_TEMPLATE, map(r, deep)));
            if class == CKO_PRIVATE_KEY {
                at.push((CKA_SUBJECT, bytes(r, 70)));
                at.push((CKA_DECRYPT, V::B(kind == "rsa" && r.bool())));
                at.push((CKA_SIGN, V::B(r.chance(9, 10))));
                at.push((CKA_SIGN_RECOVER, V::B(false)));
                at.push((CKA_UNWRAP, V::B(r.bool())));
                at.push((CKA_ALWAYS_AUTHENTICATE, V::B(false)));
                kind = format!("priv-{}", kind);
            } else {
                at.push((CKA_TRUSTED, V::B(false)));
                at.push((CKA_WRAP_TEMPLATE, map(r, deep)));
                if r.chance(1, 3) {
                    at.push((CKA_DERIVE_TEMPLATE, map(r, deep)));
                }
            }
            if r.chance(1, 3) {
                at.push((CKA_CHECK_VALUE, V::S(vec![])));
            }
        }
        match r.below(3) {
            0 => {
                for _ in 0..r.range(1, 3) {
                    mechs.push(*r.pick(&[CKM_AES_CBC_PAD, CKM_SHA256_RSA_PKCS, CKM_SHA_1_HMAC, CKM_ECDSA_SHA512]));
                }
                at.push((CKA_ALLOWED_MECHANISMS, V::L(mechs)));
            }
            1 => at.push((CKA_ALLOWED_MECHANISMS, V::L(vec![]))),
            _ => {}
        }
    }
    match r.below(3) {
        0 => at.sort_by_key(|x| x.0),
        1 => {
            for i in (1..at.len()).rev() {
                let j = r.us(i + 1);
                at.swap(i, j);
            }
        }
        _ => {}
    }
    if private {
        kind += "+private";
    }
    Obj { kind, class, at, private, label: lab, proof, fails: None }
}
/// the attributes as they are stored: byte strings of private objects encrypted
fn stored(r: &mut Rng, o: &Obj, tk: &[u8]) -> At {
    o.at.iter()
        .map(|(a, v)| match v {
            V::S(s) if o.private && *a != CKA_START_DATE && *a != CKA_END_DATE => {
                // an explicitly set empty value is encrypted, an empty default is not
                if s.is_empty() && r.bool() {
                    (*a, V::S(vec![]))
                } else {
                    (*a, V::S(seal(r, tk, s)))
                }
            }
            _ => (*a, v.clone()),
        })
        .collect()
}
/// the file of one object, sound or damaged in a way that cannot be imported
fn obj_file(r: &mut Rng, o: &mut Obj, tk: &[u8], damage: bool) -> Vec<u8> {
    let gen = r.below(1 << 40);
    let mut at = stored(r, o, tk);
    if !damage {
        return file(gen, &at).0;
    }
    let (mut b, offs) = file(gen, &at);
    let j = r.us(at.len());
    let why;
    match r.below(13) {
        0 => {
            // cut inside an attribute
            let mut n = r.range(0, b.len() - 1);
            if n >= 8 && offs.contains(&n) {
                n += 1;
            }
            b.truncate(n);
            why = if n < 8 { "short" } else { "cut" };
        }
        1 => {
            let k = *r.pick(&[0u64, 6, 7, 255, 256, 1 << 32, 3 << 32, u64::MAX]);
            b[offs[j] + 8..offs[j] + 16].copy_from_slice(&k.to_be_bytes());
            why = "kind";
        }
        2 => {
            let l: Vec<usize> = (0..at.len()).filter(|i| matches!(at[*i].1, V::S(_) | V::M(_) | V::L(_))).collect();
            let j = *r.pick(&l);
            let n = *r.pick(&[u64::MAX, u64::MAX - 7, u64::MAX - 15, u64::MAX - offs[j] as u64 - 23, 1 << 63, 1 << 61, (1 << 61) + 1, (b.len() - offs[j] - 24 + 1) as u64, 1 << 32]);
            b[offs[j] + 16..offs[j] + 24].copy_from_slice(&n.to_be_bytes());
            why = "length";
        }
        3 => {
            b.truncate(*r.pick(&[0, 1, 7, 8]));
            why = "empty";
        }
        4 => {
            at.retain(|x| x.0 != CKA_CLASS);
            b = file(gen, &at).0;
            why = "noclass";
        }
        5 => {
            let v = V::B(r.bool());
            at.iter_mut().find(|x| x.0 == CKA_CLASS).unwrap().1 = v;
            b = file(gen, &at).0;
            why = "class-bool";
        }
        6 => {
            let c = *r.pick(&[0, 5, 6, 7, 9, u64::MAX, 1 << 32, 0x8000_0000, (1 << 32) + 3]);
            at.iter_mut().find(|x| x.0 == CKA_CLASS).unwrap().1 = V::U(c);
            b = file(gen, &at).0;
            why = "class";
        }
        7 if o.class != CKO_CERTIFICATE => {
            let kt = *r.pick(&[1, 2, 0x13, 0x14, 0x15, 0x30, u64::MAX, 1 << 32, (1 << 32) + 0x1f]);
            at.iter_mut().find(|x| x.0 == CKA_KEY_TYPE).unwrap().1 = V::U(kt);
            b = file(gen, &at).0;
            why = "keytype";
        }
        8 if o.class != CKO_CERTIFICATE => {
            at.retain(|x| x.0 != CKA_KEY_TYPE);
            b = file(gen, &at).0;
            why = "nokeytype";
        }
        9 if o.private => {
            let n = *r.pick(&[17usize, 31, 18, 24, 33, 47]);
            let v = r.bytes(n);
            at.iter_mut().find(|x| x.0 == CKA_LABEL).unwrap().1 = V::S(v);
            b = file(gen, &at).0;
            why = "cipher-length";
        }
        10 if o.private => {
            // no valid padding
            let iv = r.bytes(16);
            let mut d = r.bytes(32);
            d[31] = *r.pick(&[0u8, 17, 32, 255]);
            let mut v = iv.clone();
            v.extend(refc::cbc_enc(tk, &iv, &d));
            at.iter_mut().find(|x| x.0 == CKA_LABEL).unwrap().1 = V::S(v);
            b = file(gen, &at).0;
            why = "padding";
        }
        11 => {
            at.push((CKA_WRAP_TEMPLATE, V::M(vec![(CKA_UNWRAP_TEMPLATE, V::M(vec![(CKA_LABEL, V::S(b"x".to_vec()))]))])));
            b = file(gen, &at).0;
            why = "nested";
        }
        _ => {
            // a map that ends inside its last element
            at.retain(|x| x.0 != CKA_WRAP_TEMPLATE);
            let mut m = vec![];
            enc1(&mut m, CKA_LABEL, &V::S(b"element".to_vec()));
            b = file(gen, &at).0;
            b.extend_from_slice(&CKA_WRAP_TEMPLATE.to_be_bytes());
            b.extend_from_slice(&4u64.to_be_bytes());
            b.extend_from_slice(&((m.len() - 3) as u64).to_be_bytes());
            b.extend_from_slice(&m);
            why = "map-cut";
        }
    }
    o.fails = Some(why.into());
    o.kind = format!("bad-{}", why);
    b
}

fn pin(r: &mut Rng) -> String {
    match r.below(5) {
        0 => "1234".into(),
        1 => "pïn ✓ 密码".into(),
        2 => "p".repeat(255),
        3 => " -x\"$(true)' ".into(),
        _ => {
            let n = r.range(4, 20);
            hex(&r.bytes(n))
        }
    }
}

/// what the recording module saw for one C_CreateObject
#[derive(Default)]
struct Rec {
    at: Vec<(u64, String)>,
    maps: Vec<(u64, u64, Vec<(u64, String)>)>,
    rv: u64,
}
fn recs(path: &str) -> Vec<Rec> {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut v: Vec<Rec> = vec![];
    let h = |x: &str| u64::from_str_radix(x, 16).unwrap_or(u64::MAX - 1);
    for l in s.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        if p[0] == "obj" {
            v.push(Rec { rv: 1, ..Default::default() });
            continue;
        }
        let Some(x) = v.last_mut() else { continue };
        match p[0] {
            "a" => x.at.push((h(p[1]), p.get(2).unwrap_or(&"").to_string())),
            "m" => x.maps.push((h(p[1]), p[3].parse().unwrap_or(9), vec![])),
            "s" => {
                if let Some(m) = x.maps.last_mut() {
                    m.2.push((h(p[1]), p.get(2).unwrap_or(&"").to_string()))
                }
            }
            "rv" => x.rv = h(p[1]),
            _ => {}
        }
    }
    v
}

fn tokens(env: &Env, r: &mut Rng, deep: bool) {
    env.reset();
    let dir = env.tok();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let tk = r.bytes(32);
    let spin = pin(r);
    std::fs::write(format!("{}/token.object", dir), file(7, &token_object(r, spin.as_bytes(), &tk)).0).unwrap();
    // other files of a SoftHSM token directory
    for n in ["generation", "token.lock", "a.lock", "note.objects", "b.object.bak"] {
        std::fs::write(format!("{}/{}", dir, n), r.bytes(9)).unwrap();
    }
    let _ = std::fs::create_dir_all(format!("{}/dir.object", dir));
    let n = r.range(1, if deep { 14 } else { 34 });
    let rate = r.below(4);
    let mut objs = vec![];
    for i in 0..n {
        let mut o = gen_obj(r, i, deep);
        let dmg = rate > 0 && r.chance(rate, 12);
        let b = obj_file(r, &mut o, &tk, dmg);
        let name = if r.chance(1, 10) { format!("{}.x.object", i) } else { format!("{}-{:04x}.object", hex(&r.bytes(8)), i) };
        std::fs::write(format!("{}/{}", dir, name), b).unwrap();
        objs.push(o);
    }
    let (slot, other) = if r.bool() { (0u64, 3u64) } else { (3, 0) };
    let sl = slot.to_string();
    let upin = String::from_utf8(USER.to_vec()).unwrap();
    let spin_arg = format!("--softhsm2-pin={}", spin);
    let mut args = vec!["-m", if deep { &env.rec } else { &env.so }, "-i", &env.conf, "-p", &upin];
    if slot != 0 || r.bool() {
        args.extend(["-s", &sl]);
    }
    args.push(&spin_arg);
    args.push(&dir);
    let (code, err) = env.go(&args, deep);
    w::count("tool_runs", 1);
    w::count("objects_in_files", n as u64);
    let Some(code) = code else {
        viol!(["P34"], "mig:died", "softhsm_migrate was ended by a signal or hung on {} objects {:?}: {}", n, objs.iter().map(|o| &o.kind).collect::<Vec<_>>(), tail(&err));
        return;
    };
    if err.contains("panicked at") {
        viol!(["P34"], "mig:panic", "exit {}: {}", code, tail(&err));
    }
    check(env, r, slot, other, &objs, code, &err, deep);
}
fn tail(s: &str) -> &str {
    let mut n = s.len().saturating_sub(600);
    while !s.is_char_boundary(n) {
        n += 1;
    }
    &s[n..]
}
fn all_attrs() -> Vec<u64> {
    let mut v: Vec<u64> = names::CKA_T.iter().map(|x| x.0).collect();
    v.sort();
    v.dedup();
    v.retain(|a| ![CKA_TOKEN, CKA_UNIQUE_ID].contains(a) && *a & CKF_ARRAY_ATTRIBUTE == 0 || *a == CKA_ALLOWED_MECHANISMS);
    v
}
fn check(env: &Env, r: &mut Rng, slot: u64, other: u64, objs: &[Obj], code: i32, err: &str, deep: bool) {
    c::initialize(Some(&env.conf)).must("C_Initialize");
    let s = c::open(slot, true).must("C_OpenSession");
    c::login(s, CKU_USER, USER).must("C_Login");
    let (found, elsewhere) = contents(s, other);
    if elsewhere != 0 {
        viol!(["P34"], "mig:other-slot", "{} objects appeared in slot {} although slot {} was the target", elsewhere, other, slot);
    }
    let mut by: BTreeMap<Vec<u8>, Vec<H>> = BTreeMap::new();
    for h in &found {
        by.entry(c::attr(s, *h, CKA_LABEL).unwrap_or_default()).or_default().push(*h);
    }
    let rec = if deep { recs(&format!("{}/rec", env.dir)) } else { vec![] };
    let all = all_attrs();
    let mut failed = 0;
    let mut whys = BTreeSet::new();
    for o in objs {
        let hs = by.remove(&o.label).unwrap_or_default();
        // the object as the target itself would create it
        let mut t = T::new();
        for (a, v) in &o.at {
            if unsettable(o.class, *a) || matches!(v, V::M(_)) || plain(v).is_empty() {
                continue;
            }
            t = t.v(*a, &plain(v));
        }
        t = t.setb(CKA_TOKEN, false);
        let has_maps = !deep && o.at.iter().any(|(_, v)| matches!(v, V::M(m) if !m.is_empty()));
        let direct = if o.fails.is_some() || has_maps { Err(0) } else { c::create(s, &t) };
        let key = format!("{}:{}", o.kind, hs.len());
        w::eval(&format!("{}:{}:attrs{}", key, slot, o.at.len()));
        match (&direct, hs.len()) {
            (Ok(_), 1) => {}
            (Err(_), 0) => {
                failed += 1;
                whys.insert(o.kind.clone());
                w::count(if o.fails.is_some() { "refused_by_tool" } else { "refused_by_target" }, 1);

                continue;
            }
            (Ok(_), 0) => {
                failed += 1;
                viol!(["P34"], &format!("mig:lost:{}", o.kind), "object {:?} ({}) was not imported, though the target accepts it: {:?}; tool said {}", String::from_utf8_lossy(&o.label), o.kind, show(o), tail(err));
                continue;
            }
            (Err(e), _) => {
                viol!(["P34"], &format!("mig:imported-bad:{}", o.kind), "object {:?} ({}) was imported {} times, expected a failure ({:?}, target {})", String::from_utf8_lossy(&o.label), o.kind, hs.len(), o.fails, rvn(*e));
                continue;
            }
            (Ok(_), k) => {
                viol!(["P34"], &format!("mig:twice:{}", o.kind), "object {:?} was imported {} times", String::from_utf8_lossy(&o.label), k);
            }
        }
        let (h, d) = (hs[0], direct.unwrap());
        w::count("objects_compared", 1);
        if c::attr_b(s, h, CKA_TOKEN) != Ok(true) {
            viol!(["P34"], "mig:not-token", "{} is not a token object", o.kind);
        }
        let (_, a) = c::attrs(s, h, &all);
        let (_, b) = c::attrs(s, d, &all);
        for (i, x) in all.iter().enumerate() {
            if a[i] != b[i] {
                viol!(["P34"], &format!("mig:attr:{}:{}", ckan(*x), o.kind.split('-').next().unwrap()), "{}: {} is {:?} after the migration, {:?} for the object created directly", o.kind, ckan(*x), a[i].as_ref().map(|v| w::hx(v)), b[i].as_ref().map(|v| w::hx(v)));
            }
        }
        for (x, v) in &o.at {
            let p = plain(v);
            if unsettable(o.class, *x) || matches!(v, V::M(_)) || p.is_empty() || *x == CKA_EC_POINT {
                continue;
            }
            let i = all.iter().position(|y| y == x);
            if let Some(got) = i.and_then(|i| a[i].as_ref()) {
                w::count("attributes_checked", 1);
                if *got != p {
                    viol!(["P34"], &format!("mig:value:{}:{}", ckan(*x), o.kind.split('-').next().unwrap()), "{}: {} is {} after the migration, {} in the SoftHSM token", o.kind, ckan(*x), w::hx(got), w::hx(&p));
                }
            }
        }
        prove(s, h, o, r);
        if deep {
            recorded(o, &rec);
        }
    }
    if !by.is_empty() {
        viol!(["P34"], "mig:unknown", "imported objects that are not in the SoftHSM token: {:?}", by.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>());
    }
    let want = failed.min(253);
    if code != want {
        viol!(["P34"], &format!("mig:exit:{}", if code == 0 { "0" } else { "wrong" }), "exit status {} with {} failed objects ({:?}): {}", code, failed, whys, tail(err));
    }
    w::eval(&format!("run:{}:{}:{}", slot, failed.min(9), objs.len() / 4));
    c::finalize().must("C_Finalize");
}
/// objects in the slot, number of objects in the other one
fn contents(s: H, other: u64) -> (Vec<H>, usize) {
    let keep = |s: H| -> Vec<H> { c::find(s, &T::new()).must("C_FindObjects").into_iter().filter(|h| c::attr_b(s, *h, CKA_TOKEN) == Ok(true) && ![Ok(CKO_PROFILE), Ok(CKO_MECHANISM)].contains(&c::attr_u(s, *h, CKA_CLASS))).collect() };
    let f = keep(s);
    let o = c::open(other, true).must("C_OpenSession");
    c::login(o, CKU_USER, USER).must("C_Login");
    let n = keep(o).len();
    c::close(o).must("C_CloseSession");
    (f, n)
}
fn show(o: &Obj) -> String {
    o.at.iter().map(|(a, v)| format!("{}={}", ckan(*a), match v { V::M(m) => format!("map{}", m.len()), v => w::hx(&plain(v)) })).collect::<Vec<_>>().join(" ")
}
/// the key does what only the right value can do
fn prove(s: H, h: H, o: &Obj, r: &mut Rng) {
    let on = |a: u64| o.at.iter().any(|x| x.0 == a && x.1 == V::B(true));
    let data = r.bytes(32);
    let bad = |what: &str, got: String| viol!(["P34"], &format!("mig:use:{}", o.kind), "{}: {} {}", o.kind, what, got);
    match &o.proof {
        Proof::Aes(k) if on(CKA_ENCRYPT) => {
            let got = c::encrypt_init(s, &M::new(CKM_AES_ECB), h).and_then(|_| c::encrypt(s, &data));
            if got != Ok(refc::aes_ecb(k, &data, true)) {
                bad("AES-ECB gives", rn(&got));
            }
            w::count("values_proved", 1);
        }
        Proof::Mac(m, hh, k) if on(CKA_SIGN) => {
            let got = c::sign_init(s, &M::new(*m), h).and_then(|_| c::sign(s, &data));
            if got != Ok(refc::hmac(*hh, k, &data)) {
                bad("HMAC gives", rn(&got));
            }
            w::count("values_proved", 1);
        }
        Proof::Rsa(i) if o.class == CKO_PRIVATE_KEY && on(CKA_SIGN) => {
            let got = c::sign_init(s, &M::new(CKM_RSA_PKCS), h).and_then(|_| c::sign(s, &data));
            let k = ops::rsa_ref(*i);
            let want = refc::pkcs1_t1(k.k(), &data);
            match &got {
                Ok(g) if want == Some(k.pubop(g)) => {}
                _ => bad("RSA signature", rn(&got)),
            }
            w::count("values_proved", 1);
        }
        Proof::Ec(cv, pt) if o.class == CKO_PRIVATE_KEY && on(CKA_SIGN) => {
            let got = c::sign_init(s, &M::new(CKM_ECDSA), h).and_then(|_| c::sign(s, &data));
            match &got {
                Ok(g) if refc::ecdsa_verify(*cv, pt, &data, g) => {}
                _ => bad("ECDSA signature", rn(&got)),
            }
            w::count("values_proved", 1);
        }
        _ => {}
    }
}
/// the template the tool handed to the module is the object in the file
fn recorded(o: &Obj, rec: &[Rec]) {
    let lab = hex(&o.label);
    let m: Vec<&Rec> = rec.iter().filter(|x| x.rv == 0 && x.at.iter().any(|a| a.0 == CKA_LABEL && a.1 == lab)).collect();
    if m.len() != 1 {
        viol!(["P34"], "mig:rec-count", "{} successful C_CreateObject calls recorded for one object", m.len());
        return;
    }
    let m = m[0];
    for (a, v) in &o.at {
        let skip = unsettable(o.class, *a);
        match v {
            V::M(x) => {
                let got: Vec<_> = m.maps.iter().filter(|y| y.0 == *a).collect();
                if x.is_empty() && got.iter().all(|g| g.2.is_empty()) {
                    continue;
                }
                let want: Vec<(u64, String)> = x.iter().map(|(a, v)| (*a, hex(&plain(v)))).collect();
                w::count("maps_checked", 1);
                w::eval(&format!("map:{}:{}", x.len(), o.kind));
                if got.len() != 1 || got[0].1 != 0 || got[0].2 != want {
                    viol!(["P34"], "mig:map", "{} {}: the template handed over is {:?}, in the SoftHSM token {:?}", o.kind, ckan(*a), got.iter().map(|g| (g.1, &g.2)).collect::<Vec<_>>(), want);
                }
            }
            v => {
                let got: Vec<_> = m.at.iter().filter(|y| y.0 == *a).collect();
                let p = hex(&plain(v));
                if got.is_empty() && (skip || p.is_empty()) {
                    continue;
                }
                w::count("recorded_attributes", 1);
                if got.len() != 1 || got[0].1 != p {
                    viol!(["P34"], &format!("mig:rec:{}", ckan(*a)), "{}: {} handed over as {:?}, in the SoftHSM token {}", o.kind, ckan(*a), got, p);
                }
            }
        }
    }
    for (a, v) in &m.at {
        if !o.at.iter().any(|x| x.0 == *a) {
            viol!(["P34"], &format!("mig:rec-extra:{}", ckan(*a)), "{}: {}={} handed over, not in the SoftHSM token", o.kind, ckan(*a), v);
        }
    }
}

// ---- runs that must fail as a whole ----
fn bad(env: &Env, r: &mut Rng) {
    env.reset();
    let dir = env.tok();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let tk = r.bytes(32);
    let spin = pin(r);
    let mut tobj = token_object(r, spin.as_bytes(), &tk);
    let mut objs = vec![];
    for i in 0..r.range(1, 4) {
        let mut o = gen_obj(r, i, false);
        let b = obj_file(r, &mut o, &tk, false);
        std::fs::write(format!("{}/{}.object", dir, i), b).unwrap();
        objs.push(o);
    }
    let mut m = env.so.clone();
    let mut conf = env.conf.clone();
    let mut tpin = Some(String::from_utf8(USER.to_vec()).unwrap());
    let mut slot = 0u64;
    let mut qpin = spin.clone();
    let (mut want, what): (&[i32], &str);
    let tf = format!("{}/token.object", dir);
    let mut tdir = dir.clone();
    let mut data: Option<Vec<u8>> = None;
    let blob = |t: &mut At, f: &mut dyn FnMut(&mut Vec<u8>)| {
        if let V::S(s) = &mut t.iter_mut().find(|x| x.0 == OS + 5).unwrap().1 {
            f(s)
        }
    };
    want = &[254];
    match r.below(18) {
        0 => {
            what = "wrong softhsm pin";
            qpin = match r.below(4) {
                0 => format!("{}x", spin),
                1 => String::new(),
                2 => spin.chars().rev().collect::<String>() + "1",
                _ => format!("0{}", spin),
            };
        }
        1 => {
            what = "no token.object";
            data = None;
            tdir = if r.bool() { format!("{}/none", dir) } else { dir.clone() };
            want = &[254];
        }
        2 => {
            what = "short token.object";
            let n = r.range(0, 8);
            data = Some(file(3, &tobj).0[..n].to_vec());
        }
        3 => {
            what = "cut token.object";
            let b = file(3, &tobj).0;
            let n = r.range(9, b.len() - 1);
            data = Some(b[..n].to_vec());
        }
        4 => {
            what = "no user pin";
            tobj.retain(|x| x.0 != OS + 5);
            data = Some(file(3, &tobj).0);
        }
        5 => {
            what = "short blob";
            // (whole blocks could leave a valid padding by chance)
            let mut n = r.range(0, 71);
            if n >= 24 && n % 16 == 8 {
                n += 1;
            }
            blob(&mut tobj, &mut |s| s.truncate(n));
            data = Some(file(3, &tobj).0);
        }
        6 => {
            what = "blob of another kind";
            let v = if r.bool() { V::U(5) } else { V::M(vec![(1, V::B(true))]) };
            tobj.iter_mut().find(|x| x.0 == OS + 5).unwrap().1 = v;
            data = Some(file(3, &tobj).0);
        }
        7 => {
            what = "damaged blob";
            // salt, or the block that holds the magic value
            let i = *r.pick(&[0usize, 7, 8, 9, 10]);
            let x = 1 + r.below(255) as u8;
            blob(&mut tobj, &mut |s| s[i] ^= x);
            data = Some(file(3, &tobj).0);
        }
        8 => {
            what = "huge length in token.object";
            let (mut b, offs) = file(3, &tobj);
            let l = *r.pick(&[u64::MAX, u64::MAX - 7, 1 << 63, u64::MAX - 31]);
            b[offs[4] + 16..offs[4] + 24].copy_from_slice(&l.to_be_bytes());
            data = Some(b);
        }
        9 => {
            what = "missing module";
            m = format!("{}/none.so", env.dir);
            want = &[255];
        }
        10 => {
            what = "module without C_GetFunctionList";
            m = "libm.so.6".into();
            want = &[255];
        }
        11 => {
            what = "bad configuration";
            let p = format!("{}/bad.conf", env.dir);
            std::fs::write(&p, r.pick(&["[[slots]\n", "slots = 5\n", "\u{0}\u{1}", "[[slots]]\nslot = 0\ndbtype = \"nope\"\ndbargs = \"x\"\n"])).unwrap();
            conf = format!("kryoptic_conf={}", p);
            want = &[255];
        }
        12 => {
            what = "wrong target pin";
            tpin = Some(r.pick(&["0000", "user-pin-1234567", "user-pin-123456789"]).to_string());
            want = &[255];
        }
        13 => {
            what = "no such slot";
            slot = *r.pick(&[1u64, 2, 4, 1 << 32, u64::MAX]);
            want = &[255, 254];
        }
        14 => {
            // public objects may still be imported
            what = "not logged in";
            tpin = None;
            want = &[254, 255, 0, 1, 2, 3, 4];
        }
        15 => {
            what = "missing configuration";
            conf = format!("kryoptic_conf={}/none.conf", env.dir);
            want = &[255];
        }
        16 => {
            what = "many failing objects";
            let n = r.range(250, 300);
            for i in 0..n {
                let k = r.us(9);
                std::fs::write(format!("{}/f{}.object", dir, i), r.bytes(k)).unwrap();
            }
            objs.clear();
            for i in 0..4 {
                let _ = std::fs::remove_file(format!("{}/{}.object", dir, i));
            }
            data = Some(file(3, &tobj).0);
            want = if n >= 253 { &[253] } else if n == 252 { &[252] } else if n == 251 { &[251] } else { &[250] };
        }
        _ => {
            what = "empty token";
            for i in 0..4 {
                let _ = std::fs::remove_file(format!("{}/{}.object", dir, i));
            }
            data = Some(file(3, &tobj).0);
            want = &[0];
        }
    }
    if what == "no token.object" {
        if tdir != dir {
            std::fs::write(&tf, file(3, &tobj).0).unwrap();
        }
    } else {
        std::fs::write(&tf, data.unwrap_or_else(|| file(3, &tobj).0)).unwrap();
    }
    let sl = slot.to_string();
    let q = format!("--softhsm2-pin={}", qpin);
    let mut args = vec!["-m", &m, "-i", &conf, "-s", &sl, &q, &tdir];
    if let Some(p) = &tpin {
        args.extend(["-p", p]);
    }
    let (code, err) = env.go(&args, false);
    w::count("tool_runs", 1);
    w::count("whole_failures", 1);
    w::eval(&format!("bad:{}:{:?}", what, code));
    match code {
        None => {
            viol!(["P34"], "mig:died", "{}: softhsm_migrate was ended by a signal or hung: {}", what, tail(&err));
            return;
        }
        Some(x) if !want.contains(&x) => {
            viol!(["P34"], &format!("mig:status:{}", what.replace(' ', "-")), "{}: exit status {}, expected {:?}: {}", what, x, want, tail(&err));
        }
        _ => {}
    }
    if err.contains("panicked at") {
        viol!(["P34"], "mig:panic", "{}: {}", what, tail(&err));
    }
    c::initialize(Some(&env.conf)).must("C_Initialize");
    let s = c::open(0, true).must("C_OpenSession");
    c::login(s, CKU_USER, USER).must("C_Login");
    let (f, n) = contents(s, 3);
    if what == "not logged in" {
        for h in &f {
            if c::attr_b(s, *h, CKA_PRIVATE) != Ok(false) {
                viol!(["P34"], "mig:private-without-login", "a private object was imported without a login");
            }
        }
        let c = code.unwrap();
        if c < 200 && (f.len() + c as usize != objs.len() || n > 0) {
            viol!(["P34"], "mig:exit:wrong", "not logged in: exit status {}, {} of {} objects imported", c, f.len(), objs.len());
        }
    } else if f.len() + n > 0 {
        viol!(["P34"], &format!("mig:imported:{}", what.replace(' ', "-")), "{}: {} objects were imported", what, f.len() + n);
    }
    c::finalize().must("C_Finalize");
}
