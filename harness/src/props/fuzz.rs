//! Malformed arguments (P25): every function with hostile arguments whose pointers are valid
//! for the lengths given. The same workload drives the sanitizer builds (P24).
use crate::c::{self, *};
use crate::names::*;
use crate::ops;
use crate::p11::*;
use crate::refc;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::os::raw::c_void;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P25" => {
            let mut v = times(7 * k, |_| job("fuzz.all", 1_000_000_000, 25_000));
            v.extend(times(4 * k, |_| job("fuzz.mech", 1_000_000_000, 25_000)));
            v.extend(times(3 * k, |_| job("fuzz.derive", 1_000_000_000, 25_000)));
            v.extend(times(3 * k, |_| job("fuzz.obj", 1_000_000_000, 25_000)));
            v.extend(times(2 * k, |_| job("fuzz.enc", 1_000_000_000, 25_000)));
            v
        }
        _ => vec![],
    }
}

macro_rules! tab {
    ($($n:ident $s:literal),* $(,)?) => { vec![$((stringify!($n), $s, fl().$n.map(|f| f as usize).unwrap_or(0))),*] };
}
/// argument kinds:
/// s session, l slot, o object handle, m mechanism, t template and count, g template to fill and
/// count, b input and length, d output and pointer to length, z output and length, h handle
/// out, p number out, i structure out, k message parameter and length, u number, f flags,
/// y bool, L list and pointer to count, F handles, max and count, e 32 byte label, n pointer or null
fn table() -> Vec<(&'static str, &'static str, usize)> {
    tab! {
        C_GetInfo "i", C_GetSlotList "yL", C_GetSlotInfo "li", C_GetTokenInfo "li", C_GetMechanismList "lL", C_GetMechanismInfo "lMi",
        C_InitToken "lbe", C_InitPIN "sb", C_SetPIN "sbb", C_OpenSession "lfnnh", C_CloseSession "s", C_GetSessionInfo "si",
        C_GetOperationState "sd", C_SetOperationState "sboo", C_Login "sub", C_LoginUser "subb", C_SessionCancel "sf",
        C_CreateObject "sth", C_CopyObject "soth", C_DestroyObject "so", C_GetObjectSize "sop", C_GetAttributeValue "sog", C_SetAttributeValue "sot",
        C_FindObjectsInit "st", C_FindObjects "sF", C_FindObjectsFinal "s",
        C_EncryptInit "smo", C_Encrypt "sbd", C_EncryptUpdate "sbd", C_EncryptFinal "sd",
        C_DecryptInit "smo", C_Decrypt "sbd", C_DecryptUpdate "sbd", C_DecryptFinal "sd",
        C_DigestInit "sm", C_Digest "sbd", C_DigestUpdate "sb", C_DigestKey "so", C_DigestFinal "sd",
        C_SignInit "smo", C_Sign "sbd", C_SignUpdate "sb", C_SignFinal "sd", C_SignRecoverInit "smo", C_SignRecover "sbd",
        C_VerifyInit "smo", C_Verify "sbb", C_VerifyUpdate "sb", C_VerifyFinal "sb", C_VerifyRecoverInit "smo", C_VerifyRecover "sbd",
        C_DigestEncryptUpdate "sbd", C_DecryptDigestUpdate "sbd", C_SignEncryptUpdate "sbd", C_DecryptVerifyUpdate "sbd",
        C_GenerateKey "smth", C_GenerateKeyPair "smtthh", C_WrapKey "smood", C_UnwrapKey "smobth", C_DeriveKey "smoth",
        C_SeedRandom "sb", C_GenerateRandom "sz", C_GetFunctionStatus "s", C_CancelFunction "s",
        C_MessageEncryptInit "smo", C_EncryptMessage "skbbd", C_EncryptMessageBegin "skb", C_EncryptMessageNext "skbdf", C_MessageEncryptFinal "s",
        C_MessageDecryptInit "smo", C_DecryptMessage "skbbd", C_DecryptMessageBegin "skb", C_DecryptMessageNext "skbdf", C_MessageDecryptFinal "s",
        C_MessageSignInit "smo", C_SignMessage "skbd", C_SignMessageBegin "sk", C_SignMessageNext "skbd", C_MessageSignFinal "s",
        C_MessageVerifyInit "smo", C_VerifyMessage "skbb", C_VerifyMessageBegin "sk", C_VerifyMessageNext "skbb", C_MessageVerifyFinal "s",
        C_EncapsulateKey "smotdh", C_DecapsulateKey "smotbh", C_VerifySignatureInit "smob", C_VerifySignature "sb", C_VerifySignatureUpdate "sb", C_VerifySignatureFinal "s",
        C_GetSessionValidationFlags "sup", C_AsyncComplete "sei", C_AsyncGetID "sep", C_AsyncJoin "seub",
        C_WrapKeyAuthenticated "smoobd", C_UnwrapKeyAuthenticated "smobtbh",
    }
}

// ---------- memory ----------
const GUARDB: u8 = 0xc5;
/// buffers of one call; the bytes behind each are checked after the call
struct Arena {
    v: Vec<(Box<[u8]>, usize)>,
    guard: usize,
}
impl Arena {
    fn new() -> Arena {
        // with a sanitizer the allocation itself is the guard
        Arena { v: vec![], guard: if std::env::var("KV_SAN").is_ok() { 0 } else { 48 } }
    }
    fn put(&mut self, b: &[u8]) -> *mut u8 {
        let n = b.len();
        // 8 byte alignment for structures
        let words = (n + self.guard).div_ceil(8).max(1);
        let mut s: Box<[u64]> = vec![0u64; words].into_boxed_slice();
        let p = s.as_mut_ptr() as *mut u8;
        std::mem::forget(s);
        let mut bx = unsafe { Box::from_raw(std::slice::from_raw_parts_mut(p, words * 8)) };
        bx[..n].copy_from_slice(b);
        for x in bx[n..].iter_mut() {
            *x = GUARDB;
        }
        let p = bx.as_mut_ptr();
        self.v.push((bx, n));
        p
    }
    fn check(&self) -> Option<String> {
        for (b, n) in &self.v {
            if let Some(i) = b[*n..].iter().position(|x| *x != GUARDB) {
                return Some(format!("byte {} behind a buffer of {} bytes was changed", i, n));
            }
        }
        None
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for (b, _) in self.v.drain(..) {
            let n = b.len() / 8;
            let p = Box::into_raw(b) as *mut u64;
            drop(unsafe { Box::from_raw(std::slice::from_raw_parts_mut(p, n)) });
        }
    }
}

pub struct F {
    slot: CK_SLOT_ID,
    ses: Vec<H>,
    objs: Vec<H>,
    a: Arena,
    mechs: Vec<CK_ULONG>,
    tab: Vec<(&'static str, &'static str, usize)>,
    desc: String,
    conf: String,
    canary: Vec<u8>,
    big: bool,
    /// keys and templates that suit derivation
    derive: bool,
    last: CK_ULONG,
    peer: Vec<u8>,
}

pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    // an allocation nobody can satisfy must fail here, not take the machine down
    if std::env::var("KV_SAN").is_err() {
        // (the sanitizers reserve address space of their own)
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    let t = fresh(&job.replace('.', "-"));
    let mut f = F { slot: t.slot, ses: vec![], objs: vec![], a: Arena::new(), mechs: c::mech_list(t.slot).must("C_GetMechanismList"), tab: table(), desc: String::new(), conf: t.conf.clone(), canary: r.bytes(32), big: false, derive: job == "fuzz.derive", last: 0, peer: vec![] };
    f.mechs.push(KRM_SSHKDF_DERIVE);
    {
        let s = t.rw_user();
        c::create(s, &ops::aes_key(&f.canary).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).b(CKA_MODIFIABLE, false).b(CKA_DESTROYABLE, false).s(CKA_LABEL, "canary")).must("C_CreateObject(canary)");
        c::close_all(t.slot).must("C_CloseAllSessions");
    }
    let mut n = 0;
    while n < arg && w::time_left() {
        f.prepare(r);
        for _ in 0..250 {
            n += 1;
            match job {
                "fuzz.all" => f.any(r),
                "fuzz.mech" => f.mech(r),
                "fuzz.obj" => f.obj(r),
                "fuzz.derive" => f.derive(r),
                "fuzz.enc" => f.enc(r),
                _ => panic!("{}", job),
            }
            if !w::time_left() || n >= arg {
                break;
            }
        }
        f.health(r);
    }
    t.end();
}

const WORDS: [CK_ULONG; 40] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 56, 64, 96, 104, 127, 128, 129, 255, 256, 512, 1024, 4096, 65535, 65536, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, CK_ULONG::MAX,
];
const HASHES: [CK_ULONG; 12] = [CKM_SHA_1, CKM_SHA224, CKM_SHA256, CKM_SHA384, CKM_SHA512, CKM_SHA512_224, CKM_SHA512_256, CKM_SHA3_224, CKM_SHA3_256, CKM_SHA3_384, CKM_SHA3_512, CKM_MD5];
const HMACM: [CK_ULONG; 8] = [CKM_SHA_1_HMAC, CKM_SHA256_HMAC, CKM_SHA384_HMAC, CKM_SHA512_HMAC, CKM_SHA3_256_HMAC, CKM_AES_CMAC, CKM_SHA224_HMAC, CKM_SHA256_HMAC_GENERAL];

fn word(r: &mut Rng) -> CK_ULONG {
    match r.below(8) {
        0 => r.next() as CK_ULONG,
        1 => r.below(300) as CK_ULONG,
        2 => *r.pick(&HASHES),
        3 => r.pick(&WORDS).wrapping_add(1),
        4 => r.pick(&WORDS).wrapping_sub(1),
        _ => *r.pick(&WORDS),
    }
}
fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1..=5 => r.range(1, 40),
        6 | 7 => *r.pick(&[16usize, 32, 48, 64, 128, 256]),
        8 => r.range(40, 600),
        _ => *r.pick(&[1024usize, 4096, 4097, 8192]),
    }
}

impl F {
    fn prepare(&mut self, r: &mut Rng) {
        let s = c::open(self.slot, true).must("C_OpenSession");
        c::login(s, CKU_USER, USER).must("C_Login");
        let ro = c::open(self.slot, false).must("C_OpenSession");
        self.ses = vec![s, s, s, s, ro];
        self.objs.clear();
        let cv = *r.pick(&refc::CURVES);
        let d = ops::ec_scalar(cv, r);
        let i = ops::rsa_index(r);
        let k = ops::keybytes(r);
        let x448 = r.bool();
        let mk = r.bytes(if x448 { 56 } else { 32 });
        let open = |t: T| t.setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true);
        let kt = *r.pick(&[CKK_SHA256_HMAC, CKK_SHA_1_HMAC, CKK_SHA512_HMAC]);
        let n = match kt {
            CKK_SHA256_HMAC => 32,
            CKK_SHA_1_HMAC => 20,
            _ => 64,
        };
        let v: Vec<T> = vec![
            open(ops::aes_key(&k)).setb(CKA_DERIVE, true),
            open(ops::gen_key(&r.bytes(48))).setb(CKA_DERIVE, true),
            open(secret_t(kt, &r.bytes(n))).setb(CKA_SIGN, true).setb(CKA_VERIFY, true),
            open(secret_t(CKK_HKDF, &r.bytes(32))).setb(CKA_DERIVE, true),
            open(T::new().u(CKA_CLASS, CKO_OTP_KEY).u(CKA_KEY_TYPE, CKK_HOTP).v(CKA_VALUE, &r.bytes(20)).setb(CKA_SIGN, true).setb(CKA_VERIFY, true)),
            ops::rsa_pub(i),
            open(ops::rsa_priv(i)),
            ops::ec_pub_t(cv, &refc::ec_mul(cv, &d, None).unwrap()),
            open(ops::ec_priv_t(cv, &d)),
            open(super::kdf::mont_t(x448, &mk)),
            open(super::kdf::dh_t(0, &r.bytes(32))),
            data_t(b"some data"),
            T::new().u(CKA_CLASS, CKO_CERTIFICATE).u(CKA_CERTIFICATE_TYPE, CKC_X_509).v(CKA_SUBJECT, &[0x30, 0]).v(CKA_VALUE, &[0x30, 3, 2, 1, 0]),
            open(ops::aes_key(&r.bytes(16))).setb(CKA_TOKEN, true).setb(CKA_DERIVE, true),
        ];
        for t in v {
            match c::create(s, &t) {
                Ok(h) => self.objs.push(h),
                // the positions are used for derivation
                Err(e) => {
                    w::count(&format!("objects-refused-{}", rvn(e)), 1);
                    self.objs.push(77777)
                }
            }
        }
        self.peer = refc::ec_mul(cv, &ops::ec_scalar(cv, r), None).unwrap();
        // generic secret that was destroyed
        if let Ok(h) = c::create(s, &data_t(b"x")) {
            let _ = c::destroy(s, h);
            self.objs.push(h);
        }
    }
    /// the token works as before
    fn health(&mut self, r: &mut Rng) {
        let mut bad = |sig: &str, d: String| viol!(["P25", "P08"], &format!("fuzz:after:{}", sig), "after a series of malformed calls: {}", d);
        match c::close_all(self.slot) {
            Ok(()) => (),
            Err(e) => bad("close-all", format!("C_CloseAllSessions: {}", rvn(e))),
        }
        let s = match c::open(self.slot, true) {
            Ok(s) => s,
            Err(e) => {
                bad("open", format!("C_OpenSession: {}", rvn(e)));
                std::panic::panic_any(Bail);
            }
        };
        let mut l = c::login(s, CKU_USER, USER);
        if l == Err(CKR_PIN_LOCKED) {
            // wrong PINs were among the calls: the SO unlocks
            l = c::login(s, CKU_SO, SO).and_then(|_| c::init_pin(s, USER)).and_then(|_| c::logout(s)).and_then(|_| c::login(s, CKU_USER, USER));
            w::count("unlocked", 1);
        }
        if let Err(e) = l {
            bad("login", format!("C_Login: {}", rvn(e)));
            std::panic::panic_any(Bail);
        }
        let hs = c::find(s, &T::new().s(CKA_LABEL, "canary")).unwrap_or_default();
        let d = r.bytes(64);
        let want = refc::aes_ecb(&self.canary, &d, true);
        let got = match hs.as_slice() {
            [h] => c::encrypt_init(s, &M::new(CKM_AES_ECB), *h).and_then(|_| c::encrypt(s, &d)),
            _ => Err(CKR_OBJECT_HANDLE_INVALID),
        };
        if got.as_ref().ok() != Some(&want) {
            bad("canary", format!("the token key gives {:?}", got.map(|v| w::hx(&v)).map_err(rvn)));
        }
        match c::random(s, 16) {
            Ok(v) if v.len() == 16 => (),
            e => bad("random", format!("C_GenerateRandom: {:?}", e)),
        }
        let dg = c::digest_init(s, &M::new(CKM_SHA256)).and_then(|_| c::digest(s, &d));
        if dg.as_ref().ok() != Some(&refc::hash(refc::SHA256, &d)) {
            bad("digest", format!("SHA-256 gives {:?}", dg.map_err(rvn)));
        }
        w::count("health-checks", 1);
        // leave only the canary
        for h in c::find(s, &T::new().b(CKA_TOKEN, true)).unwrap_or_default() {
            let _ = c::destroy(s, h);
        }
        let _ = c::close_all(self.slot);
        if r.chance(1, 10) {
            let _ = c::finalize();
            c::initialize(Some(&self.conf)).must("C_Initialize after malformed calls");
        }
    }

    // ---------- pieces ----------
    fn pair(&mut self, r: &mut Rng) -> (CK_ULONG, CK_ULONG) {
        let n = size(r);
        if n == 0 && r.chance(2, 3) {
            return (0, 0);
        }
        let b = r.bytes(n);
        (self.a.put(&b) as CK_ULONG, n as CK_ULONG)
    }
    fn sess(&mut self, r: &mut Rng) -> CK_ULONG {
        match r.below(30) {
            0 => 0,
            1 => CK_ULONG::MAX,
            2 => r.next() as CK_ULONG,
            3 => self.ses[0] + 1 + r.below(3) as CK_ULONG,
            _ => *r.pick(&self.ses),
        }
    }
    fn objh(&mut self, r: &mut Rng) -> CK_ULONG {
        if self.derive && r.chance(9, 10) {
            let i: &[usize] = match self.last {
                CKM_HKDF_DERIVE | CKM_HKDF_DATA => &[1, 3, 11],
                CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE => &[8, 9],
                CKM_DH_PKCS_DERIVE => &[10],
                CKM_AES_ECB_ENCRYPT_DATA | CKM_AES_CBC_ENCRYPT_DATA => &[0, 13],
                CKM_PUB_KEY_FROM_PRIV_KEY => &[6, 8, 9, 10],
                CKM_SP800_108_COUNTER_KDF | CKM_SP800_108_FEEDBACK_KDF => &[0, 1],
                _ => &[1],
            };
            return self.objs[*r.pick(i)];
        }
        match r.below(25) {
            0 => 0,
            1 => CK_ULONG::MAX,
            2 => r.next() as CK_ULONG,
            3 => r.below(60) as CK_ULONG,
            _ => *r.pick(&self.objs),
        }
    }
    /// structure from a description: u number, p/n pointer and length, n/p length and pointer
    fn st(&mut self, d: &str, r: &mut Rng) -> Vec<u8> {
        let mut o: Vec<u8> = vec![];
        let cs: Vec<char> = d.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            let mut w8 = |v: CK_ULONG| o.extend(v.to_ne_bytes());
            match c {
                // number
                'u' => w8(word(r)),
                // small number
                'k' => w8(r.below(6) as CK_ULONG),
                // hash, mgf
                'h' => w8(if r.chance(9, 10) { *r.pick(&HASHES) } else { word(r) }),
                'r' => w8(if r.chance(9, 10) { *r.pick(&HMACM) } else { word(r) }),
                'g' => w8(r.below(10) as CK_ULONG),
                // iteration count: never so large that it is just slow
                'i' => w8(*r.pick(&[0, 1, 2, 1000])),
                // pointer then length
                'p' => {
                    let (p, n) = self.pair(r);
                    w8(p);
                    w8(n);
                }
                // length then pointer
                'n' => {
                    let (p, n) = self.pair(r);
                    w8(n);
                    w8(p);
                }
                // pointer to 4096 bytes, or null
                'P' => {
                    let b = r.bytes(4096);
                    let p = if r.chance(1, 12) { 0 } else { self.a.put(&b) as CK_ULONG };
                    w8(p);
                }
                // object handle
                'o' => {
                    let h = self.objh(r);
                    w8(h);
                }
                // two bytes and padding
                'B' => {
                    let b = [if r.chance(4, 5) { r.below(2) as u8 } else { r.next() as u8 }, if r.chance(4, 5) { r.below(2) as u8 } else { r.next() as u8 }, 0, 0, 0, 0, 0, 0];
                    o.extend(b);
                }
                // sixteen bytes
                'V' => {
                    let v = r.bytes(16);
                    o.extend(v);
                }
                // bits of an IV: what fits the buffers, or absurd
                'I' => w8(*r.pick(&[0, 1, 8, 64, 96, 128, 256, 4096, 1 << 40, CK_ULONG::MAX, CK_ULONG::MAX - 7])),
                // count and SP800-108 data parameters
                'D' => {
                    let n = r.us(6);
                    let mut b: Vec<u8> = vec![];
                    for _ in 0..n {
                        let ty = r.below(6) as CK_ULONG;
                        let v: Vec<u8> = match r.below(6) {
                            // counter format, key length format
                            0 | 1 => {
                                let mut x = vec![r.below(3) as u8, 0, 0, 0, 0, 0, 0, 0];
                                x.extend((*r.pick(&[0 as CK_ULONG, 7, 8, 16, 24, 32, 40, 64, 72, CK_ULONG::MAX])).to_ne_bytes());
                                x
                            }
                            2 | 3 => {
                                let mut x = (r.below(4) as CK_ULONG).to_ne_bytes().to_vec();
                                x.extend([r.below(3) as u8, 0, 0, 0, 0, 0, 0, 0]);
                                x.extend((*r.pick(&[0 as CK_ULONG, 7, 8, 16, 24, 32, 40, 64, 72, CK_ULONG::MAX])).to_ne_bytes());
                                x
                            }
                            4 => vec![],
                            _ => {
                                let n = size(r);
                                r.bytes(n)
                            }
                        };
                        b.extend(ty.to_ne_bytes());
                        let p = if v.is_empty() { 0 } else { self.a.put(&v) as CK_ULONG };
                        b.extend(p.to_ne_bytes());
                        b.extend((v.len() as CK_ULONG).to_ne_bytes());
                    }
                    let p = if n == 0 && r.bool() { 0 } else { self.a.put(&b) as CK_ULONG };
                    w8(n as CK_ULONG);
                    w8(p);
                }
                // count and additional derived keys
                'K' => {
                    let n = if r.chance(2, 3) { 0 } else { r.range(1, 3) };
                    let mut b: Vec<u8> = vec![];
                    for _ in 0..n {
                        let (t, k) = self.template(r);
                        b.extend(t.to_ne_bytes());
                        b.extend(k.to_ne_bytes());
                        let h = self.a.put(&[0; 8]) as CK_ULONG;
                        b.extend(h.to_ne_bytes());
                    }
                    let p = if n == 0 { 0 } else { self.a.put(&b) as CK_ULONG };
                    w8(n as CK_ULONG);
                    w8(p);
                }
                // returned key material
                'R' => {
                    let mut b = vec![0u8; 32];
                    for _ in 0..2 {
                        let iv = vec![0u8; 4096];
                        let p = self.a.put(&iv) as CK_ULONG;
                        b.extend(p.to_ne_bytes());
                    }
                    let p = self.a.put(&b) as CK_ULONG;
                    w8(p);
                }
                // OTP parameters
                'O' => {
                    let n = r.us(4);
                    let mut b: Vec<u8> = vec![];
                    for _ in 0..n {
                        b.extend((r.below(9) as CK_ULONG).to_ne_bytes());
                        let (p, k) = if r.bool() {
                            (self.a.put(&(r.below(10) as CK_ULONG).to_ne_bytes()) as CK_ULONG, 8)
                        } else {
                            self.pair(r)
                        };
                        b.extend(p.to_ne_bytes());
                        b.extend(k.to_ne_bytes());
                    }
                    let p = if n == 0 { 0 } else { self.a.put(&b) as CK_ULONG };
                    w8(p);
                    w8(n as CK_ULONG);
                }
                _ => panic!("{}", c),
            }
            i += 1;
        }
        o
    }
    fn params(&mut self, m: CK_ULONG, r: &mut Rng) -> Vec<u8> {
        let d = match m {
            CKM_AES_GCM => "puput",
            CKM_AES_CCM => "upput",
            CKM_AES_CTR => "uV",
            CKM_RSA_PKCS_PSS | CKM_SHA1_RSA_PKCS_PSS | CKM_SHA256_RSA_PKCS_PSS | CKM_SHA384_RSA_PKCS_PSS | CKM_SHA512_RSA_PKCS_PSS | CKM_SHA224_RSA_PKCS_PSS | CKM_SHA3_256_RSA_PKCS_PSS => "hgu",
            CKM_RSA_PKCS_OAEP => "hgkp",
            CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE => "knn",
            CKM_HKDF_DERIVE | CKM_HKDF_DATA => "Bhkpop",
            CKM_PKCS5_PBKD2 => "kpikpp",
            CKM_XOR_BASE_AND_DATA | CKM_CONCATENATE_BASE_AND_DATA | CKM_CONCATENATE_DATA_AND_BASE | CKM_AES_ECB_ENCRYPT_DATA => "p",
            CKM_AES_CBC_ENCRYPT_DATA => "Vp",
            CKM_SP800_108_COUNTER_KDF => "rDK",
            CKM_SP800_108_FEEDBACK_KDF => "rDnK",
            CKM_TLS12_MASTER_KEY_DERIVE | CKM_TLS12_MASTER_KEY_DERIVE_DH => "ppPh",
            CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE => "uuIBppRh",
            CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE | CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH => "hpP",
            CKM_TLS_KDF | CKM_TLS12_KDF => "hpppp",
            CKM_TLS_MAC => "huk",
            CKM_EXTRACT_KEY_FROM_KEY => "u",
            CKM_CONCATENATE_BASE_AND_KEY => "o",
            KRM_SSHKDF_DERIVE => "hBpp",
            CKM_HOTP => "O",
            CKM_AES_CBC | CKM_AES_CBC_PAD | CKM_AES_CTS | CKM_AES_OFB | CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 => "V",
            CKM_DH_PKCS_DERIVE => "VVVVVVVVVVVVVVVV",
            m if ckmn(m).ends_with("_GENERAL") => "u",
            _ => "",
        };
        let mut b: Vec<u8> = vec![];
        for part in [d.replace('t', "u")] {
            b = self.st(&part, r);
        }
        // sensible values for what is rarely hit by chance
        if m == CKM_AES_CTR && r.bool() {
            b[..8].copy_from_slice(&(128 as CK_ULONG).to_ne_bytes());
        }
        if m == CKM_AES_GCM && r.bool() && b.len() == 48 {
            b[40..48].copy_from_slice(&(128 as CK_ULONG).to_ne_bytes());
        }
        if m == CKM_AES_CCM && r.bool() && b.len() == 48 {
            b[40..48].copy_from_slice(&(16 as CK_ULONG).to_ne_bytes());
            b[..8].copy_from_slice(&(r.below(64) as CK_ULONG).to_ne_bytes());
        }
        if m == KRM_SSHKDF_DERIVE && b.len() > 9 {
            b[8] = b'A' + r.below(8) as u8;
        }
        // as are secrets of gigabytes
        if matches!(m, CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE) {
            for i in [0, 8, 16] {
                if (1 << 24..1u64 << 44).contains(&u64::from_ne_bytes(b[i..i + 8].try_into().unwrap())) {
                    b[i..i + 8].copy_from_slice(&(1u64 << 44).to_ne_bytes());
                }
            }
        }
        if matches!(m, CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE) && r.bool() && b.len() > 24 {
            b[..8].copy_from_slice(&(r.below(33) as CK_ULONG * 8).to_ne_bytes());
            b[8..16].copy_from_slice(&(128 as CK_ULONG).to_ne_bytes());
        }
        b
    }
    /// pointer to a mechanism
    fn mechp(&mut self, r: &mut Rng, pool: &[CK_ULONG]) -> CK_ULONG {
        if r.chance(1, 40) {
            self.desc.push_str(" mech=null");
            return 0;
        }
        let ty = match r.below(12) {
            0 => r.pick(CKM_T).0,
            1 => *r.pick(&[0, CK_ULONG::MAX, 0x8000_0000, 0x7fff_ffff, CKM_VENDOR_DEFINED]),
            2 => *r.pick(&self.mechs.clone()),
            _ => *r.pick(pool),
        };
        self.last = ty;
        let mut b = self.params(ty, r);
        if self.derive && matches!(ty, CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE) && r.chance(3, 4) {
            let peer = self.peer.clone();
            b[24..32].copy_from_slice(&(peer.len() as CK_ULONG).to_ne_bytes());
            let p = self.a.put(&peer) as CK_ULONG;
            b[32..40].copy_from_slice(&p.to_ne_bytes());
            b[..8].copy_from_slice(&(*r.pick(&[CKD_NULL, CKD_SHA256_KDF, CKD_SHA1_KDF, CKD_SHA512_KDF, CKD_SHA1_KDF_SP800, CKD_SHA256_KDF_SP800, 99])).to_ne_bytes());
        }
        match r.below(14) {
            0 => b.clear(),
            1 => b.truncate(r.us(b.len() + 1)),
            2 => b.extend(r.bytes(8)),
            3 => {
                // never the size of a structure with pointers
                let mut n = size(r).min(33);
                if n % 8 == 0 {
                    n += 1;
                }
                b = r.bytes(n);
            }
            _ => (),
        }
        // numbers as parameters, pointers never random
        if b.len() > 8 && b.len() <= 32 && r.chance(1, 1000) {
            b.truncate(8);
        }
        self.desc.push_str(&format!(" {}({} bytes {})", ckmn(ty), b.len(), w::hx(&b)));
        let p = if b.is_empty() { 0 } else { self.a.put(&b) as CK_ULONG };
        let mut m = vec![];
        m.extend((ty as CK_ULONG).to_ne_bytes());
        m.extend(p.to_ne_bytes());
        m.extend((b.len() as CK_ULONG).to_ne_bytes());
        self.a.put(&m) as CK_ULONG
    }
    /// some attribute and a value for it
    fn attr(&mut self, r: &mut Rng) -> (CK_ULONG, Vec<u8>) {
        let a = match r.below(10) {
            0 => r.pick(CKA_T).0,
            1 => *r.pick(&[0x7654, CK_ULONG::MAX, CKA_VENDOR_DEFINED, CKF_ARRAY_ATTRIBUTE]),
            _ => *r.pick(&[
                CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_VALUE, CKA_VALUE_LEN, CKA_KEY_TYPE, CKA_ID, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_MODULUS, CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_ALLOWED_MECHANISMS, CKA_START_DATE, CKA_END_DATE,
                CKA_PUBLIC_KEY_INFO, CKA_PRIME, CKA_BASE, CKA_UNIQUE_ID, CKA_WRAP_TEMPLATE, CKA_UNWRAP_TEMPLATE, CKA_DERIVE_TEMPLATE, CKA_OTP_COUNTER, CKA_OTP_LENGTH, CKA_OTP_FORMAT, CKA_CERTIFICATE_TYPE, CKA_SUBJECT, CKA_TRUSTED, CKA_LOCAL, CKA_APPLICATION, CKA_OBJECT_ID, CKA_CHECK_VALUE, CKA_ENCRYPT, CKA_SIGN, CKA_DERIVE,
                CKA_WRAP, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE, CKA_ALWAYS_AUTHENTICATE, CKA_VALUE_BITS, CKA_PARAMETER_SET, CKA_NAME_HASH_ALGORITHM,
            ]),
        };
        let v = match r.below(9) {
            0 => vec![],
            1 => vec![r.below(3) as u8],
            2 | 3 => word(r).to_ne_bytes().to_vec(),
            4 => (r.below(80) as CK_ULONG).to_ne_bytes().to_vec(),
            5 => der_mess(r),
            6 => {
                let n = r.range(1, 9);
                r.bytes(n)
            }
            7 => b"20261301".to_vec(),
            _ => {
                let n = size(r);
                r.bytes(n)
            }
        };
        let v = if a == CKA_MODULUS_BITS && v.len() == 8 {
            // large keys are only slow
            (*r.pick(&[0 as CK_ULONG, 1, 512, 1023, 1024, 1025, 16385, 1 << 31, CK_ULONG::MAX])).to_ne_bytes().to_vec()
        } else {
            v
        };
        (a, v)
    }
    fn base(&mut self, r: &mut Rng) -> T {
        let cv = *r.pick(&refc::CURVES);
        match r.below(20) {
            0 => ops::aes_key(&r.bytes(16)),
            1 => ops::gen_key(&r.bytes(20)),
            2 => ops::rsa_pub(ops::rsa_index(r)),
            3 => ops::rsa_priv(ops::rsa_index(r)),
            4 => {
                let d = ops::ec_scalar(cv, r);
                ops::ec_pub_t(cv, &refc::ec_mul(cv, &d, None).unwrap())
            }
            5 => {
                let d = ops::ec_scalar(cv, r);
                ops::ec_priv_t(cv, &d)
            }
            6 => data_t(b"data"),
            7 => T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).u(CKA_VALUE_LEN, 32),
            8 => T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).u(CKA_VALUE_LEN, r.below(64) as CK_ULONG),
            9 => T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET),
            10 => T::new().u(CKA_VALUE_LEN, 16),
            11 => T::new().v(CKA_EC_PARAMS, cv.oid),
            12 => T::new().u(CKA_MODULUS_BITS, 1024),
            13 => T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, *r.pick(&[CKK_RSA, CKK_EC, CKK_DH, CKK_EC_MONTGOMERY])),
            14 => T::new().u(CKA_CLASS, CKO_CERTIFICATE).u(CKA_CERTIFICATE_TYPE, CKC_X_509).v(CKA_SUBJECT, &[0x30, 0]).v(CKA_VALUE, &der_mess(r)),
            15 => T::new().u(CKA_CLASS, CKO_OTP_KEY).u(CKA_KEY_TYPE, CKK_HOTP).v(CKA_VALUE, &r.bytes(20)).b(CKA_SIGN, true),
            16 => super::kdf::mont_t(false, &r.bytes(32)),
            17 => super::kdf::dh_t(0, &r.bytes(32)),
            18 => T::new().u(CKA_CLASS, r.pick(CKO_T).0).u(CKA_KEY_TYPE, r.pick(CKK_T).0),
            _ => T::new(),
        }
    }
    /// pointer and count of a template
    fn template(&mut self, r: &mut Rng) -> (CK_ULONG, CK_ULONG) {
        let mut t = if self.derive && r.chance(5, 6) {
            let mut t = T::new().u(CKA_CLASS, CKO_SECRET_KEY);
            if r.chance(4, 5) {
                t = t.u(CKA_KEY_TYPE, *r.pick(&[CKK_GENERIC_SECRET, CKK_GENERIC_SECRET, CKK_AES, CKK_HKDF, CKK_SHA256_HMAC]));
            }
            match r.below(4) {
                0 => t,
                1 => t.u(CKA_VALUE_LEN, word(r)),
                _ => t.u(CKA_VALUE_LEN, *r.pick(&[16, 32, 48, 1, 64, 255 * 32, 255 * 32 + 1, 255 * 64, 12, 24])),
            }
        } else {
            self.base(r)
        };
        if !self.big && r.chance(3, 4) {
            t = t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        }
        for _ in 0..r.us(3) {
            let (a, v) = self.attr(r);
            if a == CKA_DESTROYABLE {
                continue;
            }
            match r.below(4) {
                0 if !t.0.is_empty() => {
                    // another value for something in it
                    let i = r.us(t.0.len());
                    if t.0[i].0 != CKA_MODULUS_BITS {
                        t.0[i].1 = v;
                    }
                }
                1 if !t.0.is_empty() => {
                    let i = r.us(t.0.len());
                    match r.below(4) {
                        0 => {
                            t.0.remove(i);
                        }
                        1 => {
                            let x = t.0[i].clone();
                            t.0.push(x);
                        }
                        2 => {
                            t.0[i].1.pop();
                        }
                        _ => {
                            if let Some(b) = t.0[i].1.first_mut() {
                                *b ^= 1 << r.below(8)
                            }
                        }
                    }
                    // large keys are only slow
                    t.0.retain(|x| x.0 != CKA_MODULUS_BITS || x.1 != (16384 as CK_ULONG).to_ne_bytes().to_vec());
                }
                _ => t.0.push((a, v)),
            }
        }
        // RSA key generation between 4096 and 16384 bits takes minutes
        for x in t.0.iter_mut() {
            if x.0 == CKA_VALUE_LEN && x.1.len() == 8 && (1 << 20..1 << 40).contains(&u64::from_ne_bytes(x.1[..].try_into().unwrap())) {
                // so do secrets of gigabytes
                x.1 = (1u64 << 40).to_ne_bytes().to_vec();
            }
            if x.0 == CKA_MODULUS_BITS {
                let n = x.1.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
                if n > 2048 && n <= 16384 {
                    x.1 = (1024 as CK_ULONG).to_ne_bytes().to_vec();
                }
            }
        }
        self.desc.push_str(&format!(" {}", t.show()));
        let n = t.0.len() as CK_ULONG;
        if n == 0 && r.bool() {
            return (0, 0);
        }
        let mut b = vec![];
        for (a, v) in &t.0 {
            let p = if v.is_empty() && r.bool() { 0 } else { self.a.put(v) as CK_ULONG };
            b.extend(a.to_ne_bytes());
            b.extend(p.to_ne_bytes());
            b.extend((v.len() as CK_ULONG).to_ne_bytes());
        }
        (self.a.put(&b) as CK_ULONG, n)
    }
    /// template to fill in
    fn gets(&mut self, r: &mut Rng) -> (CK_ULONG, CK_ULONG) {
        let n = r.us(6);
        let mut b = vec![];
        for _ in 0..n {
            let (a, _) = self.attr(r);
            b.extend(a.to_ne_bytes());
            let (p, l): (CK_ULONG, CK_ULONG) = match r.below(5) {
                0 => (0, 0),
                1 => (0, *r.pick(&[1, 8, CK_ULONG::MAX])),
                2 => {
                    let k = r.us(9);
                    (self.a.put(&vec![0; k]) as CK_ULONG, k as CK_ULONG)
                }
                _ => {
                    let k = size(r);
                    (self.a.put(&vec![0; k]) as CK_ULONG, k as CK_ULONG)
                }
            };
            b.extend(p.to_ne_bytes());
            b.extend(l.to_ne_bytes());
        }
        if n == 0 {
            return (0, 0);
        }
        (self.a.put(&b) as CK_ULONG, n as CK_ULONG)
    }
    fn bytes_in(&mut self, r: &mut Rng) -> (CK_ULONG, CK_ULONG) {
        let (p, n) = self.pair(r);
        self.desc.push_str(&format!(" in={}{}", n, if p == 0 { " null" } else { "" }));
        (p, n)
    }
    fn flags(&mut self, r: &mut Rng) -> CK_ULONG {
        match r.below(4) {
            0 => word(r),
            1 => CKF_END_OF_MESSAGE,
            2 => 1 << r.below(40),
            _ => CKF_SERIAL_SESSION | if r.bool() { CKF_RW_SESSION } else { 0 },
        }
    }

    // ---------- one call ----------
    fn go(&mut self, name: &'static str, sig: &'static str, f: usize, pool: &[CK_ULONG], r: &mut Rng) -> RV {
        self.a = Arena::new();
        self.desc.clear();
        let mut args: Vec<CK_ULONG> = vec![];
        let mut handles = vec![];
        for c in sig.chars() {
            match c {
                's' => {
                    let x = self.sess(r);
                    args.push(x)
                }
                'l' => args.push(match r.below(8) {
                    0 => word(r),
                    1 => self.slot as CK_ULONG + 1,
                    _ => self.slot,
                }),
                'o' => {
                    let x = self.objh(r);
                    args.push(x)
                }
                'm' => {
                    let x = self.mechp(r, pool);
                    args.push(x)
                }
                'M' => args.push(if r.bool() { *r.pick(&self.mechs) } else { word(r) }),
                't' => {
                    let (p, n) = self.template(r);
                    args.push(p);
                    args.push(n);
                }
                'g' => {
                    let (p, n) = self.gets(r);
                    args.push(p);
                    args.push(n);
                }
                'b' => {
                    let (p, n) = self.bytes_in(r);
                    args.push(p);
                    args.push(n);
                }
                'd' => {
                    let cap = match r.below(6) {
                        0 => None,
                        1 => Some(0),
                        2 => Some(r.us(40)),
                        _ => Some(*r.pick(&[64usize, 256, 1024, 9000, 16384])),
                    };
                    self.desc.push_str(&format!(" out={:?}", cap));
                    match cap {
                        None => {
                            args.push(0);
                            let l = *r.pick(&[0 as CK_ULONG, 1, 100, CK_ULONG::MAX]);
                            args.push(self.a.put(&l.to_ne_bytes()) as CK_ULONG);
                        }
                        Some(n) => {
                            args.push(self.a.put(&vec![0; n]) as CK_ULONG);
                            if r.chance(1, 60) {
                                args.push(0);
                                self.desc.push_str(" pulLen=null");
                            } else {
                                args.push(self.a.put(&(n as CK_ULONG).to_ne_bytes()) as CK_ULONG);
                            }
                        }
                    }
                }
                'z' => {
                    let n = size(r);
                    args.push(if n == 0 { 0 } else { self.a.put(&vec![0; n]) as CK_ULONG });
                    args.push(n as CK_ULONG);
                }
                'h' | 'p' => {
                    if r.chance(1, 40) {
                        args.push(0);
                        self.desc.push_str(" out=null");
                    } else {
                        let p = self.a.put(&[0; 8]);
                        if c == 'h' {
                            handles.push(p);
                        }
                        args.push(p as CK_ULONG);
                    }
                }
                'i' => args.push(if r.chance(1, 20) { 0 } else { self.a.put(&[0; 512]) as CK_ULONG }),
                'k' => {
                    let d = *r.pick(&["puuPu", "upuuPu", "upuuPu", "puuPu", "", "u"]);
                    let mut b = self.st(d, r);
                    if d.len() >= 5 && r.chance(3, 4) {
                        // lengths in words 1 or 2, generator below 6, tag size sane
                        let tag = if d.starts_with('p') { *r.pick(&[128 as CK_ULONG, 96, 32, 0, 120]) } else { *r.pick(&[16 as CK_ULONG, 4, 8, 12]) };
                        let l = b.len();
                        b[l - 8..].copy_from_slice(&tag.to_ne_bytes());
                        b[l - 24..l - 16].copy_from_slice(&(r.below(6) as CK_ULONG).to_ne_bytes());
                        b[l - 32..l - 24].copy_from_slice(&(*r.pick(&[0 as CK_ULONG, 0, 8, 32, 64, 96, 97, CK_ULONG::MAX])).to_ne_bytes());
                    }
                    match r.below(16) {
                        // never the size of another structure
                        0 => b.truncate(r.us(b.len() / 8 + 1) * 8 + 4),
                        1 => b.extend(r.bytes(4)),
                        _ => (),
                    }
                    self.desc.push_str(&format!(" param={}", w::hx(&b)));
                    args.push(if b.is_empty() { 0 } else { self.a.put(&b) as CK_ULONG });
                    args.push(b.len() as CK_ULONG);
                }
                'u' => args.push(word(r)),
                'f' => {
                    let x = self.flags(r);
                    args.push(x)
                }
                'y' => args.push(r.below(2) as CK_ULONG),
                'L' => {
                    let n = *r.pick(&[0usize, 1, 3, 400]);
                    args.push(if r.bool() { 0 } else { self.a.put(&vec![0; n * 8]) as CK_ULONG });
                    args.push(if r.chance(1, 20) { 0 } else { self.a.put(&(n as CK_ULONG).to_ne_bytes()) as CK_ULONG });
                }
                'F' => {
                    let n = *r.pick(&[0usize, 1, 3, 100]);
                    args.push(if r.chance(1, 20) && n == 0 { 0 } else { self.a.put(&vec![0; n * 8]) as CK_ULONG });
                    args.push(n as CK_ULONG);
                    args.push(if r.chance(1, 20) { 0 } else { self.a.put(&[0; 8]) as CK_ULONG });
                }
                'e' => {
                    let mut v = r.bytes(32);
                    v[31] = 0;
                    args.push(self.a.put(&v) as CK_ULONG)
                }
                'n' => args.push(0),
                _ => panic!("{}", c),
            }
        }
        // wrong PINs lock the token: rarely, with the user's PIN never among them
        let a = |i: usize| args.get(i).copied().unwrap_or(0);
        w::ring(&format!("[0] {}({:x?}){}", name, args, self.desc));
        let t0 = std::time::Instant::now();
        let rv = unsafe {
            match args.len() {
                0..=2 => std::mem::transmute::<usize, extern "C" fn(CK_ULONG, CK_ULONG) -> CK_RV>(f)(a(0), a(1)),
                3..=6 => std::mem::transmute::<usize, extern "C" fn(CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG) -> CK_RV>(f)(a(0), a(1), a(2), a(3), a(4), a(5)),
                _ => std::mem::transmute::<usize, extern "C" fn(CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG, CK_ULONG) -> CK_RV>(f)(a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), a(9)),
            }
        };
        w::ring(&format!(" = {}\n", rvn(rv)));
        let el = t0.elapsed().as_millis();
        if el > 20_000 {
            viol!(["P25"], &format!("fuzz:slow:{}", name), "{}({:x?}){} took {} ms", name, args, self.desc, el);
        }
        w::eval(&format!("{}/{}", name, rvn(rv)));
        if rvn(rv).starts_with("0x") && rv < CKR_VENDOR_DEFINED {
            viol!(["P25"], &format!("fuzz:code:{}", name), "{}({:x?}){} returned {:#x}, which is no PKCS#11 code", name, args, self.desc, rv);
        }
        if let Some(x) = self.a.check() {
            viol!(["P25", "P24", "P21"], &format!("fuzz:overrun:{}", name), "{}({:x?}){} = {}: {}", name, args, self.desc, rvn(rv), x);
        }
        if rv == CKR_OK {
            for p in handles {
                let h = CK_ULONG::from_ne_bytes(unsafe { std::slice::from_raw_parts(p, 8) }.try_into().unwrap());
                if name == "C_OpenSession" {
                    self.ses.push(h);
                    if self.ses.len() > 12 {
                        let x = self.ses.remove(5);
                        let _ = c::close(x);
                    }
                } else if self.objs.len() < 60 {
                    self.objs.push(h);
                } else {
                    let i = r.us(self.objs.len());
                    if self.derive {
                        let _ = c::destroy(self.ses[0], h);
                    } else {
                        self.objs[i] = h;
                    }
                }
            }
        }
        rv
    }
    fn skip(&mut self, name: &str, r: &mut Rng) -> bool {
        match name {
            // PIN attempts count
            "C_Login" | "C_SetPIN" | "C_InitToken" | "C_InitPIN" => !r.chance(1, 40),
            "C_CloseSession" => !r.chance(1, 10),
            "C_DestroyObject" => !r.chance(1, 4),
            _ => false,
        }
    }
    /// any function, any arguments
    fn any(&mut self, r: &mut Rng) {
        let (n, s, f) = *r.pick(&self.tab);
        if f == 0 || self.skip(n, r) {
            return;
        }
        let pool = self.mechs.clone();
        self.go(n, s, f, &pool, r);
    }
    fn by(&self, n: &str) -> (&'static str, &'static str, usize) {
        *self.tab.iter().find(|x| x.0 == n).unwrap()
    }
    /// an initialisation with a fitting mechanism, then calls of that family
    fn mech(&mut self, r: &mut Rng) {
        const E: [CK_ULONG; 14] = [CKM_AES_ECB, CKM_AES_CBC, CKM_AES_CBC_PAD, CKM_AES_CTR, CKM_AES_GCM, CKM_AES_CCM, CKM_AES_CTS, CKM_AES_OFB, CKM_AES_CFB1, CKM_AES_CFB8, CKM_AES_KEY_WRAP_KWP, CKM_RSA_PKCS, CKM_RSA_PKCS_OAEP, CKM_RSA_X_509];
        const S: [CK_ULONG; 16] = [CKM_AES_MAC, CKM_AES_MAC_GENERAL, CKM_AES_CMAC, CKM_AES_CMAC_GENERAL, CKM_SHA256_HMAC, CKM_SHA256_HMAC_GENERAL, CKM_SHA_1_HMAC_GENERAL, CKM_SHA512_HMAC, CKM_RSA_PKCS, CKM_RSA_PKCS_PSS, CKM_SHA256_RSA_PKCS_PSS, CKM_SHA256_RSA_PKCS, CKM_ECDSA, CKM_ECDSA_SHA256, CKM_HOTP, CKM_TLS_MAC];
        const D: [CK_ULONG; 22] = [
            CKM_HKDF_DERIVE, CKM_HKDF_DATA, CKM_SP800_108_COUNTER_KDF, CKM_SP800_108_FEEDBACK_KDF, CKM_TLS12_MASTER_KEY_DERIVE, CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_TLS12_KEY_SAFE_DERIVE, CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, CKM_TLS_KDF, CKM_TLS12_KDF, CKM_ECDH1_DERIVE, CKM_ECDH1_COFACTOR_DERIVE, CKM_DH_PKCS_DERIVE,
            CKM_CONCATENATE_BASE_AND_KEY, CKM_CONCATENATE_BASE_AND_DATA, CKM_XOR_BASE_AND_DATA, CKM_EXTRACT_KEY_FROM_KEY, CKM_AES_ECB_ENCRYPT_DATA, CKM_AES_CBC_ENCRYPT_DATA, CKM_SHA256_KEY_DERIVATION, CKM_PUB_KEY_FROM_PRIV_KEY, KRM_SSHKDF_DERIVE,
        ];
        const G: [CK_ULONG; 10] = [CKM_AES_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN, CKM_SHA256_KEY_GEN, CKM_HKDF_KEY_GEN, CKM_HOTP_KEY_GEN, CKM_PKCS5_PBKD2, CKM_AES_KEY_GEN, CKM_PKCS5_PBKD2, CKM_SHA512_KEY_GEN, CKM_RSA_PKCS_KEY_PAIR_GEN];
        const P: [CK_ULONG; 4] = [CKM_RSA_PKCS_KEY_PAIR_GEN, CKM_EC_KEY_PAIR_GEN, CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKM_DH_PKCS_KEY_PAIR_GEN];
        const X: [CK_ULONG; 3] = [CKM_AES_GCM, CKM_AES_CCM, CKM_AES_ECB];
        let h: Vec<CK_ULONG> = ops::DIGESTS.iter().map(|x| x.0).collect();
        let (init, pool, follow): (&str, &[CK_ULONG], &[&str]) = match r.below(14) {
            0 | 1 => ("C_EncryptInit", &E, &["C_Encrypt", "C_EncryptUpdate", "C_EncryptUpdate", "C_EncryptFinal", "C_DigestEncryptUpdate", "C_SignEncryptUpdate"]),
            2 | 3 => ("C_DecryptInit", &E, &["C_Decrypt", "C_DecryptUpdate", "C_DecryptUpdate", "C_DecryptFinal", "C_DecryptDigestUpdate", "C_DecryptVerifyUpdate"]),
            4 => ("C_DigestInit", &h, &["C_Digest", "C_DigestUpdate", "C_DigestKey", "C_DigestFinal", "C_GetOperationState"]),
            5 => ("C_SignInit", &S, &["C_Sign", "C_SignUpdate", "C_SignFinal", "C_SignEncryptUpdate"]),
            6 => ("C_VerifyInit", &S, &["C_Verify", "C_VerifyUpdate", "C_VerifyFinal", "C_DecryptVerifyUpdate"]),
            7 => ("C_VerifySignatureInit", &S, &["C_VerifySignature", "C_VerifySignatureUpdate", "C_VerifySignatureFinal"]),
            8 => ("C_MessageEncryptInit", &X, &["C_EncryptMessage", "C_EncryptMessage", "C_EncryptMessageBegin", "C_EncryptMessageNext", "C_EncryptMessageNext", "C_MessageEncryptFinal"]),
            9 => ("C_MessageDecryptInit", &X, &["C_DecryptMessage", "C_DecryptMessage", "C_DecryptMessageBegin", "C_DecryptMessageNext", "C_DecryptMessageNext", "C_MessageDecryptFinal"]),
            10 | 11 => ("C_DeriveKey", &D, &[]),
            12 => {
                if r.bool() {
                    ("C_GenerateKey", &G, &[])
                } else {
                    ("C_GenerateKeyPair", &P, &[])
                }
            }
            _ => {
                if r.bool() {
                    ("C_UnwrapKey", &E, &[])
                } else {
                    ("C_WrapKey", &E, &[])
                }
            }
        };
        let (n, s, f) = self.by(init);
        for _ in 0..if follow.is_empty() { 1 } else { 12 } {
            if self.go(n, s, f, pool, r) == CKR_OK {
                w::count("started", 1);
                break;
            }
        }
        if !follow.is_empty() {
            for _ in 0..r.range(1, 6) {
                let (n, s, f) = self.by(*r.pick(follow));
                self.go(n, s, f, pool, r);
            }
            if r.bool() {
                for s in [self.ses[0], self.ses[4]] {
                    let _ = c::session_cancel(s, CKF_ENCRYPT | CKF_DECRYPT | CKF_SIGN | CKF_VERIFY | CKF_DIGEST | CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT);
                }
            }
        }
    }
    /// derivation with suitable keys, absurd numbers in otherwise sensible requests
    fn derive(&mut self, r: &mut Rng) {
        const D: [CK_ULONG; 26] = [
            CKM_HKDF_DERIVE, CKM_HKDF_DATA, CKM_SP800_108_COUNTER_KDF, CKM_SP800_108_FEEDBACK_KDF, CKM_TLS12_MASTER_KEY_DERIVE, CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_TLS12_KEY_SAFE_DERIVE, CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, CKM_TLS_KDF, CKM_TLS12_KDF, CKM_ECDH1_DERIVE, CKM_ECDH1_COFACTOR_DERIVE,
            CKM_DH_PKCS_DERIVE, CKM_CONCATENATE_BASE_AND_KEY, CKM_CONCATENATE_BASE_AND_DATA, CKM_CONCATENATE_DATA_AND_BASE, CKM_XOR_BASE_AND_DATA, CKM_EXTRACT_KEY_FROM_KEY, CKM_AES_ECB_ENCRYPT_DATA, CKM_AES_CBC_ENCRYPT_DATA, CKM_SHA256_KEY_DERIVATION, CKM_SHA3_512_KEY_DERIVATION, CKM_PUB_KEY_FROM_PRIV_KEY,
            KRM_SSHKDF_DERIVE, CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_SP800_108_COUNTER_KDF,
        ];
        let (n, s, f) = self.by(if r.chance(1, 12) { "C_GenerateKey" } else { "C_DeriveKey" });
        let pool: &[CK_ULONG] = if n == "C_GenerateKey" { &[CKM_PKCS5_PBKD2] } else { &D };
        if self.go(n, s, f, pool, r) == CKR_OK {
            w::count(&format!("derived-{}", ckmn(self.last)), 1);
        }
    }
    /// object functions
    fn obj(&mut self, r: &mut Rng) {
        let n = *r.pick(&["C_CreateObject", "C_CreateObject", "C_CreateObject", "C_CopyObject", "C_SetAttributeValue", "C_GetAttributeValue", "C_GetAttributeValue", "C_FindObjectsInit", "C_FindObjects", "C_FindObjectsFinal", "C_GetObjectSize", "C_DestroyObject", "C_UnwrapKey", "C_GenerateKey"]);
        if self.skip(n, r) {
            return;
        }
        let (n, s, f) = self.by(n);
        let pool = [CKM_AES_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN, CKM_AES_KEY_WRAP_KWP, CKM_AES_ECB];
        self.go(n, s, f, &pool, r);
    }
    /// encodings inside keys: damaged PKCS#8, points, parameters; keys that got in are used
    fn enc(&mut self, r: &mut Rng) {
        let s = self.ses[0];
        let cv = *r.pick(&refc::CURVES);
        let kek = r.bytes(16);
        let h = match r.below(3) {
            0 => {
                let mut p8 = match r.below(3) {
                    0 => {
                        let i = ops::rsa_index(r);
                        let k = ops::rsa_priv(i);
                        let g = |a| k.get(a).cloned().unwrap_or_default();
                        refc::rsa_pkcs8(&g(CKA_MODULUS), &g(CKA_PUBLIC_EXPONENT), &g(CKA_PRIVATE_EXPONENT), &g(CKA_PRIME_1), &g(CKA_PRIME_2), &g(CKA_EXPONENT_1), &g(CKA_EXPONENT_2), &g(CKA_COEFFICIENT))
                    }
                    1 => {
                        let d = ops::ec_scalar(cv, r);
                        let key = refc::seq(&[vec![2, 1, 1], refc::der(4, &d)]);
                        let alg = refc::seq(&[w::unhex("06072a8648ce3d0201"), cv.oid.to_vec()]);
                        refc::seq(&[vec![2, 1, 0], alg, refc::der(4, &key)])
                    }
                    _ => {
                        let alg = refc::seq(&[w::unhex("06032b656e")]);
                        refc::seq(&[vec![2, 1, 0], alg, refc::der(4, &refc::der(4, &r.bytes(32)))])
                    }
                };
                mess(&mut p8, r);
                let wk = match c::create(s, &ops::aes_key(&kek)) {
                    Ok(h) => h,
                    Err(_) => return,
                };
                let blob = refc::kwp(&kek, &p8, &[0xa6, 0x59, 0x59, 0xa6]);
                let t = T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, *r.pick(&[CKK_RSA, CKK_EC, CKK_EC_MONTGOMERY])).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).b(CKA_SIGN, true);
                let x = c::unwrap(s, &M::new(CKM_AES_KEY_WRAP_KWP), wk, &blob, &t);
                w::eval(&format!("unwrap-damaged/{}", rn(&x)));
                let _ = c::destroy(s, wk);
                x.ok()
            }
            1 => {
                let d = ops::ec_scalar(cv, r);
                let mut t = match r.below(4) {
                    0 => ops::ec_priv_t(cv, &d),
                    1 => super::kdf::mont_t(r.bool(), &d),
                    2 => T::new().u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_EC_MONTGOMERY).v(CKA_EC_PARAMS, &[6, 3, 0x2b, 0x65, 0x6e]).v(CKA_EC_POINT, &d),
                    _ => ops::ec_pub_t(cv, &refc::ec_mul(cv, &d, None).unwrap()),
                };
                let a = *r.pick(&[CKA_EC_PARAMS, CKA_EC_POINT, CKA_VALUE, CKA_PUBLIC_KEY_INFO]);
                let mut v = t.get(a).cloned().unwrap_or(der_mess(r));
                mess(&mut v, r);
                t = t.set(a, &v);
                let x = c::create(s, &t);
                w::eval(&format!("create-damaged-ec/{}", rn(&x)));
                x.ok()
            }
            _ => {
                let i = ops::rsa_index(r);
                let mut t = if r.bool() { ops::rsa_priv(i) } else { ops::rsa_pub(i) };
                let k = r.us(t.0.len());
                let (a, mut v) = t.0[k].clone();
                if matches!(a, CKA_CLASS | CKA_KEY_TYPE) {
                    return;
                }
                match r.below(3) {
                    0 => mess(&mut v, r),
                    1 => v = vec![0; r.us(140)],
                    _ => v = vec![0xff; r.us(300)],
                }
                t = t.set(a, &v);
                let x = c::create(s, &t);
                w::eval(&format!("create-damaged-rsa/{}", rn(&x)));
                x.ok()
            }
        };
        let h = match h {
            Some(h) => h,
            None => return,
        };
        w::count("damaged-accepted", 1);
        // use it
        let d = r.bytes(32);
        for m in [CKM_RSA_PKCS, CKM_ECDSA] {
            if c::sign_init(s, &M::new(m), h).is_ok() {
                let x = c::sign_o(s, &d, Some(20000));
                w::eval(&format!("sign-damaged/{}/{}", ckmn(m), rvn(x.rv)));
            }
            if c::verify_init(s, &M::new(m), h).is_ok() {
                let sig = r.bytes(128);
                let x = c::verify(s, &d, &sig);
                w::eval(&format!("verify-damaged/{}/{}", ckmn(m), rn(&x)));
            }
        }
        if c::encrypt_init(s, &M::new(CKM_RSA_PKCS), h).is_ok() {
            let x = c::encrypt_o(s, &d, Some(20000));
            w::eval(&format!("encrypt-damaged/{}", rvn(x.rv)));
        }
        if c::decrypt_init(s, &M::new(CKM_RSA_X_509), h).is_ok() {
            let e = r.bytes(128);
            let x = c::decrypt_o(s, &e, Some(20000));
            w::eval(&format!("decrypt-damaged/{}", rvn(x.rv)));
        }
        let peer = if r.bool() { refc::ec_mul(cv, &ops::ec_scalar(cv, r), None).unwrap() } else { r.bytes(32) };
        let a = arc(&peer);
        let p = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: peer.len() as CK_ULONG, pPublicData: aptr(&a) };
        let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET);
        let x = c::derive(s, &M::st(CKM_ECDH1_DERIVE, &p, vec![a], "ecdh"), h, &t);
        w::eval(&format!("derive-damaged/{}", rn(&x)));
        if let Ok(k) = x {
            let _ = c::destroy(s, k);
        }
        let wk = c::create(s, &ops::aes_key(&kek));
        if let Ok(wk) = wk {
            let x = c::wrap_o(s, &M::new(CKM_AES_KEY_WRAP_KWP), wk, h, Some(20000));
            w::eval(&format!("wrap-damaged/{}", rvn(x.rv)));
            let _ = c::destroy(s, wk);
        }
        let x = c::derive(s, &M::new(CKM_PUB_KEY_FROM_PRIV_KEY), h, &T::new().u(CKA_CLASS, CKO_PUBLIC_KEY));
        w::eval(&format!("pub-damaged/{}", rn(&x)));
        if let Ok(k) = x {
            let _ = c::destroy(s, k);
        }
        let _ = c::destroy(s, h);
    }
}
/// damage an encoding
fn mess(v: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            *v = r.bytes(3);
            continue;
        }
        // headers are near the front
        let i = if r.bool() { r.us(v.len().min(40)) } else { r.us(v.len()) };
        match r.below(7) {
            0 => v[i] ^= 1 << r.below(8),
            1 => v[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xff, 0x30, 2, 3, 4, 5, 6]),
            2 => v.truncate(i),
            3 => {
                let b = r.next() as u8;
                v.insert(i, b);
            }
            4 => {
                v.remove(i);
            }
            5 => {
                let b = r.bytes(4);
                v.extend(b);
            }
            _ => v[i] = v[i].wrapping_add(if r.bool() { 1 } else { 255 }),
        }
    }
}
fn der_mess(r: &mut Rng) -> Vec<u8> {
    let n = r.us(20);
    let inner = r.bytes(n);
    let mut v = refc::der(*r.pick(&[0x30, 2, 3, 4, 5, 6, 0x13, 0x0c, 0xa0, 0xa1]), &inner);
    if r.bool() {
        v = refc::der(0x30, &v);
    }
    if r.bool() {
        mess(&mut v, r);
    }
    v
}
#[allow(dead_code)]
type Cv = c_void;
