//! Key derivation computes the standard function (P19).
use crate::c::{self, *};
use crate::dhgroups::DH_GROUPS;
use crate::ops;
use crate::p11::*;
use crate::refc::{self, Bn, Hash};
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::ptr::null_mut;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P19" => {
            let mut v = times(12 * k, |_| job("kdf.value", 1_000_000, 20_000));
            v.extend(times(2 * k, |_| job("kdf.keymat", 1_000_000, 15_000)));
            v.extend(times(2 * k, |_| job("kdf.edge", 1_000_000, 15_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "kdf.value" => value(arg, r),
        "kdf.keymat" => keymat(arg, r),
        "kdf.edge" => edge(arg, r),
        _ => panic!("{}", job),
    }
}

type Stream = Box<dyn Fn(usize) -> Option<Vec<u8>>>;
/// One derivation: mechanism, base key and the octets the standard function gives for a length
pub struct Kd {
    pub m: M,
    pub base: H,
    /// generate a key (PBKDF2) instead of deriving
    pub gen: bool,
    /// the function value for a requested length, or None when no such key may exist
    f: Stream,
    /// shortest key types/lengths wanted
    pub lens: Vec<usize>,
    /// when set, any success is a violation
    pub bad: Option<String>,
    /// the value may be refused for this reason, but must be right otherwise
    pub may_refuse: bool,
    pub data: bool,
    pub fam: String,
    key: Vec<u8>,
}
fn prefix(v: Vec<u8>) -> Stream {
    Box::new(move |n| if n > 0 && n <= v.len() { Some(v[..n].to_vec()) } else { None })
}
fn exact(v: Vec<u8>) -> Stream {
    Box::new(move |n| if n == v.len() { Some(v.clone()) } else { None })
}
fn base(s: H, t: T) -> H {
    let mut t = t;
    if !t.has(CKA_SENSITIVE) {
        t = t.b(CKA_SENSITIVE, false);
    }
    if !t.has(CKA_EXTRACTABLE) {
        t = t.b(CKA_EXTRACTABLE, true);
    }
    c::create(s, &t).must("C_CreateObject(base key)")
}
fn pickhash(r: &mut Rng) -> (CK_ULONG, Hash) {
    *r.pick(&ops::DIGESTS)
}
fn gen_len(r: &mut Rng) -> usize {
    *r.pick(&[1, 2, 5, 8, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 130, 144, 200])
}

/// SP800-108 data parameters
#[derive(Clone, Debug)]
enum Dp {
    /// counter (iteration variable of counter mode, optional counter of feedback mode)
    Ctr { le: bool, bits: usize },
    /// the chaining value of feedback mode
    Chain,
    Len { segs: bool, le: bool, bits: usize },
    Bytes(Vec<u8>),
}
fn num(v: u64, le: bool, bits: usize) -> Vec<u8> {
    let n = bits / 8;
    if le {
        v.to_le_bytes()[..n].to_vec()
    } else {
        v.to_be_bytes()[8 - n..].to_vec()
    }
}
/// output segments for the given list of key lengths
fn sp800(prf: &dyn Fn(&[u8]) -> Vec<u8>, feedback: bool, iv: &[u8], dps: &[Dp], lens: &[usize]) -> Vec<Vec<u8>> {
    let h = prf(b"").len();
    let klen: usize = lens.iter().sum();
    let segs: usize = lens.iter().map(|l| l.div_ceil(h)).sum();
    let mut chain = iv.to_vec();
    let mut out = vec![];
    for i in 1..=segs {
        let mut d = vec![];
        for p in dps {
            match p {
                Dp::Ctr { le, bits } => d.extend(num(i as u64, *le, *bits)),
                Dp::Chain => d.extend(&chain),
                Dp::Len { segs: sg, le, bits } => d.extend(num(if *sg { segs * h * 8 } else { klen * 8 } as u64, *le, *bits)),
                Dp::Bytes(b) => d.extend(b),
            }
        }
        let o = prf(&d);
        if feedback {
            chain = o.clone();
        }
        out.extend(o);
    }
    let mut pos = 0;
    lens.iter()
        .map(|l| {
            let v = out[pos..pos + l].to_vec();
            pos += l.div_ceil(h) * h;
            v
        })
        .collect()
}
struct Sp {
    feedback: bool,
    prf: CK_ULONG,
    key: Vec<u8>,
    keyt: T,
    hash: Option<Hash>,
    iv: Vec<u8>,
    dps: Vec<Dp>,
    bad: Option<String>,
}
impl Sp {
    fn random(r: &mut Rng) -> Sp {
        let feedback = r.bool();
        let (prf, hash, key, keyt) = if r.chance(1, 5) {
            let k = ops::keybytes(r);
            (CKM_AES_CMAC, None, k.clone(), ops::aes_key(&k))
        } else {
            let (mech, _, h, kt) = *r.pick(&ops::HMACS);
            let typed = r.chance(1, 4);
            let n = if typed { h.len } else { r.range(14, 80) };
            let k = r.bytes(n);
            (mech, Some(h), k.clone(), T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, if typed { kt } else { CKK_GENERIC_SECRET }).v(CKA_VALUE, &k).b(CKA_SIGN, true).b(CKA_DERIVE, true))
        };
        let mut dps = vec![];
        for _ in 0..r.below(4) {
            let n = r.range(1, 70);
            dps.push(Dp::Bytes(r.bytes(n)));
        }
        let ctr = Dp::Ctr { le: r.bool(), bits: 8 * r.range(1, 4) };
        let at = |r: &mut Rng, v: &mut Vec<Dp>, d: Dp| {
            let i = r.us(v.len() + 1);
            v.insert(i, d)
        };
        if feedback {
            at(r, &mut dps, Dp::Chain);
            if r.bool() {
                at(r, &mut dps, ctr.clone());
            }
        } else {
            at(r, &mut dps, ctr.clone());
        }
        if r.bool() {
            let l = Dp::Len { segs: r.bool(), le: r.bool(), bits: 8 * r.range(1, 8) };
            at(r, &mut dps, l);
        }
        let iv = if feedback && r.bool() {
            let n = r.range(1, 70);
            r.bytes(n)
        } else {
            vec![]
        };
        let mut bad = None;
        if r.chance(1, 12) {
            let what = r.below(5);
            match what {
                0 => {
                    dps.retain(|d| if feedback { !matches!(d, Dp::Chain) } else { !matches!(d, Dp::Ctr { .. }) });
                    bad = Some("no iteration variable".into());
                }
                1 => {
                    let d = if feedback { Dp::Chain } else { ctr };
                    at(r, &mut dps, d);
                    bad = Some("two iteration variables".into());
                }
                2 => {
                    let b = *r.pick(&[0usize, 7, 12, 40, 48, 56, 64, 128]);
                    dps.retain(|d| !matches!(d, Dp::Ctr { .. }));
                    at(r, &mut dps, Dp::Ctr { le: false, bits: b });
                    bad = Some(format!("counter of {} bits", b));
                }
                3 => {
                    let b = *r.pick(&[0usize, 7, 9, 63, 72, 128]);
                    dps.retain(|d| !matches!(d, Dp::Len { .. }));
                    { let le = r.bool(); at(r, &mut dps, Dp::Len { segs: false, le, bits: b }); }
                    bad = Some(format!("length of {} bits", b));
                }
                _ => {
                    dps.retain(|d| !matches!(d, Dp::Len { .. }));
                    { let le = r.bool(); at(r, &mut dps, Dp::Len { segs: false, le, bits: 32 }); }
                    { let le = r.bool(); at(r, &mut dps, Dp::Len { segs: false, le, bits: 32 }); }
                    bad = Some("two lengths".into());
                }
            }
        }
        Sp { feedback, prf, key, keyt, hash, iv, dps, bad }
    }
    fn h(&self) -> usize {
        self.hash.map(|h| h.len).unwrap_or(16)
    }
    /// largest number of segments
    fn max(&self) -> usize {
        for d in &self.dps {
            if let Dp::Ctr { bits: 8, .. } = d {
                return 255;
            }
        }
        usize::MAX
    }
    fn mech(&self, addl: &[(Vec<CK_ATTRIBUTE>, *mut H)]) -> M {
        let mut keep = vec![];
        let mut l: Vec<CK_PRF_DATA_PARAM> = vec![];
        let mut push = |ty: CK_ULONG, b: Option<Vec<u8>>| {
            let (p, n) = match b {
                Some(b) => {
                    let a = arc(&b);
                    let p = aptr(&a) as *mut _;
                    keep.push(a);
                    (p, b.len())
                }
                None => (null_mut(), 0),
            };
            l.push(CK_PRF_DATA_PARAM { type_: ty, pValue: p, ulValueLen: n as CK_ULONG });
        };
        for d in &self.dps {
            match d {
                Dp::Ctr { le, bits } => {
                    let f = CK_SP800_108_COUNTER_FORMAT { bLittleEndian: *le as u8, ulWidthInBits: *bits as CK_ULONG };
                    push(if self.feedback { CK_SP800_108_OPTIONAL_COUNTER } else { CK_SP800_108_ITERATION_VARIABLE }, Some(bytes_of(&f)))
                }
                Dp::Chain => push(CK_SP800_108_ITERATION_VARIABLE, None),
                Dp::Len { segs, le, bits } => {
                    let f = CK_SP800_108_DKM_LENGTH_FORMAT { dkmLengthMethod: if *segs { CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS } else { CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS }, bLittleEndian: *le as u8, ulWidthInBits: *bits as CK_ULONG };
                    push(CK_SP800_108_DKM_LENGTH, Some(bytes_of(&f)))
                }
                Dp::Bytes(b) => push(CK_SP800_108_BYTE_ARRAY, Some(b.clone())),
            }
        }
        let la: Vec<u8> = l.iter().flat_map(bytes_of).collect();
        let la = arc(&la);
        let dk: Vec<CK_DERIVED_KEY> = addl.iter().map(|(t, h)| CK_DERIVED_KEY { pTemplate: t.as_ptr() as *mut _, ulAttributeCount: t.len() as CK_ULONG, phKey: *h }).collect();
        let da: Vec<u8> = dk.iter().flat_map(bytes_of).collect();
        let da = arc(&da);
        let iv = arc(&self.iv);
        let (pl, pd, pi) = (aptr(&la) as *mut CK_PRF_DATA_PARAM, if addl.is_empty() { null_mut() } else { aptr(&da) as *mut CK_DERIVED_KEY }, if self.iv.is_empty() { null_mut() } else { aptr(&iv) });
        let desc = format!("prf {} {} iv {} data {:?} additional {}", ckmn(self.prf), if self.feedback { "feedback" } else { "counter" }, w::hx(&self.iv), self.dps, addl.len());
        keep.extend([la, da, iv]);
        if self.feedback {
            let p = CK_SP800_108_FEEDBACK_KDF_PARAMS { prfType: self.prf, ulNumberOfDataParams: l.len() as CK_ULONG, pDataParams: pl, ulIVLen: self.iv.len() as CK_ULONG, pIV: pi, ulAdditionalDerivedKeys: addl.len() as CK_ULONG, pAdditionalDerivedKeys: pd };
            M::st(CKM_SP800_108_FEEDBACK_KDF, &p, keep, &desc)
        } else {
            let p = CK_SP800_108_KDF_PARAMS { prfType: self.prf, ulNumberOfDataParams: l.len() as CK_ULONG, pDataParams: pl, ulAdditionalDerivedKeys: addl.len() as CK_ULONG, pAdditionalDerivedKeys: pd };
            M::st(CKM_SP800_108_COUNTER_KDF, &p, keep, &desc)
        }
    }
    fn out(&self, lens: &[usize]) -> Vec<Vec<u8>> {
        let key = self.key.clone();
        let hash = self.hash;
        let prf = move |d: &[u8]| match hash {
            Some(h) => refc::hmac(h, &key, d),
            None => refc::cmac(&key, d),
        };
        sp800(&prf, self.feedback, &self.iv, &self.dps, lens)
    }
    fn clone_out(&self) -> Sp {
        Sp { feedback: self.feedback, prf: self.prf, key: self.key.clone(), keyt: self.keyt.clone(), hash: self.hash, iv: self.iv.clone(), dps: self.dps.clone(), bad: self.bad.clone() }
    }
    fn segs(&self, lens: &[usize]) -> usize {
        lens.iter().map(|l| l.div_ceil(self.h())).sum()
    }
}
fn bytes_of<S>(s: &S) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(s as *const S as *const u8, std::mem::size_of::<S>()) }.to_vec()
}

const ECDH_KDFS: [(CK_ULONG, CK_ULONG, Hash); 9] = [
    (CKD_SHA1_KDF, CKD_SHA1_KDF_SP800, refc::SHA1),
    (CKD_SHA224_KDF, CKD_SHA224_KDF_SP800, refc::SHA224),
    (CKD_SHA256_KDF, CKD_SHA256_KDF_SP800, refc::SHA256),
    (CKD_SHA384_KDF, CKD_SHA384_KDF_SP800, refc::SHA384),
    (CKD_SHA512_KDF, CKD_SHA512_KDF_SP800, refc::SHA512),
    (CKD_SHA3_224_KDF, CKD_SHA3_224_KDF_SP800, refc::SHA3_224),
    (CKD_SHA3_256_KDF, CKD_SHA3_256_KDF_SP800, refc::SHA3_256),
    (CKD_SHA3_384_KDF, CKD_SHA3_384_KDF_SP800, refc::SHA3_384),
    (CKD_SHA3_512_KDF, CKD_SHA3_512_KDF_SP800, refc::SHA3_512),
];
const HASH_KDFS: [(CK_ULONG, Hash); 11] = [
    (CKM_SHA1_KEY_DERIVATION, refc::SHA1),
    (CKM_SHA224_KEY_DERIVATION, refc::SHA224),
    (CKM_SHA256_KEY_DERIVATION, refc::SHA256),
    (CKM_SHA384_KEY_DERIVATION, refc::SHA384),
    (CKM_SHA512_KEY_DERIVATION, refc::SHA512),
    (CKM_SHA512_224_KEY_DERIVATION, refc::SHA512_224),
    (CKM_SHA512_256_KEY_DERIVATION, refc::SHA512_256),
    (CKM_SHA3_224_KEY_DERIVATION, refc::SHA3_224),
    (CKM_SHA3_256_KEY_DERIVATION, refc::SHA3_256),
    (CKM_SHA3_384_KEY_DERIVATION, refc::SHA3_384),
    (CKM_SHA3_512_KEY_DERIVATION, refc::SHA3_512),
];
/// SP800-56C one-step with a hash: H(counter || Z || info)
fn onestep(h: Hash, z: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 1u32;
    while o.len() < n {
        let mut d = i.to_be_bytes().to_vec();
        d.extend(z);
        d.extend(info);
        o.extend(refc::hash(h, &d));
        i += 1;
    }
    o.truncate(n);
    o
}
const X25519: &[u8] = &[0x06, 0x03, 0x2b, 0x65, 0x6e];
const X448: &[u8] = &[0x06, 0x03, 0x2b, 0x65, 0x6f];
pub fn mont_t(x448: bool, k: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_EC_MONTGOMERY).v(CKA_EC_PARAMS, if x448 { X448 } else { X25519 }).v(CKA_VALUE, k).b(CKA_DERIVE, true)
}
pub fn dh_t(g: usize, x: &[u8]) -> T {
    T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_DH).v(CKA_PRIME, &w::unhex(DH_GROUPS[g].2)).v(CKA_BASE, &[2]).v(CKA_VALUE, x).b(CKA_DERIVE, true)
}

pub fn case(s: H, r: &mut Rng) -> Kd {
    let kn = r.range(14, 80);
    let kb = r.bytes(kn);
    let std_lens = vec![1, 8, 16, 24, 32, 40, 64];
    let mk = |m: M, base: H, f: Stream, lens: Vec<usize>, fam: &str, key: &[u8]| Kd { m, base, gen: false, f, lens, bad: None, may_refuse: false, data: false, fam: fam.into(), key: key.to_vec() };
    match r.below(20) {
        // ---- HKDF
        0..=2 => {
            let (pm, h) = pickhash(r);
            let (ex, xp) = *r.pick(&[(true, true), (true, false), (false, true)]);
            let info = {
                let n = r.len(90);
                r.bytes(n)
            };
            let sn = *r.pick(&[1usize, 8, 20, 32, 64, 128, 144, 200]);
            let salt = r.bytes(sn);
            let st = r.below(3);
            let ia = arc(&info);
            let sa = arc(&salt);
            let mut p = CK_HKDF_PARAMS { bExtract: ex as u8, bExpand: xp as u8, prfHashMechanism: pm, ulSaltType: CKF_HKDF_SALT_NULL, pSalt: null_mut(), ulSaltLen: 0, hSaltKey: 0, pInfo: if info.is_empty() { null_mut() } else { aptr(&ia) }, ulInfoLen: info.len() as CK_ULONG };
            let mut salt_v = vec![];
            match st {
                1 => {
                    p.ulSaltType = CKF_HKDF_SALT_DATA;
                    p.pSalt = aptr(&sa);
                    p.ulSaltLen = salt.len() as CK_ULONG;
                    salt_v = salt.clone();
                }
                2 => {
                    p.ulSaltType = CKF_HKDF_SALT_KEY;
                    p.hSaltKey = base(s, T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, if r.bool() { CKK_HKDF } else { CKK_GENERIC_SECRET }).v(CKA_VALUE, &salt).b(CKA_DERIVE, true));
                    salt_v = salt.clone();
                }
                // without the extract step there is no salt
                _ if !ex && r.bool() => p.ulSaltType = 0,
                _ => {}
            }
            let data = r.chance(1, 3);
            let b = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, if r.bool() { CKK_HKDF } else { CKK_GENERIC_SECRET }).v(CKA_VALUE, &kb).b(CKA_DERIVE, true);
            let prk = if ex { refc::hkdf_extract(h, &salt_v, &kb) } else { kb.clone() };
            let f: Stream = if xp {
                Box::new(move |n| if n > 0 && n <= 255 * h.len { Some(refc::hkdf_expand(h, &prk, &info, n)) } else { None })
            } else {
                exact(prk)
            };
            let desc = format!("extract {} expand {} hash {} salt {} {} info {}", ex, xp, h.name, ["null", "data", "key"][st as usize], w::hx(&salt_v), w::hx(&ia));
            let mut lens = if xp { std_lens } else { vec![h.len, h.len, 16, 32] };
            if xp {
                lens.extend([h.len - 1, h.len, h.len + 1, 3 * h.len, 255 * h.len, 255 * h.len + 1]);
            }
            let mut k = mk(M::st(if data { CKM_HKDF_DATA } else { CKM_HKDF_DERIVE }, &p, vec![ia, sa], &desc), base(s, b), f, lens, &format!("hkdf/{}{}{}/{}/{}", if ex { "x" } else { "" }, if xp { "e" } else { "" }, st, h.name, data), &kb);
            k.data = data;
            k
        }
        // ---- TLS master secret
        3 | 4 => {
            let (pm, h) = pickhash(r);
            let (cr, sr) = (r.bytes(32), r.bytes(32));
            let ems = r.bool();
            let dh = r.bool();
            let n = if dh { *r.pick(&[16usize, 32, 48, 66, 128, 256]) } else { 48 };
            let kb = r.bytes(n);
            let ver = arc(&[9, 9]);
            let pv = if dh || r.bool() { null_mut() } else { aptr(&ver) as *mut CK_VERSION };
            let (ca, sa) = (arc(&cr), arc(&sr));
            let shn = *r.pick(&[20usize, 32, 48, 64]);
            let sh = r.bytes(shn);
            let ha = arc(&sh);
            let (m, f) = if ems {
                let p = CK_TLS12_EXTENDED_MASTER_KEY_DERIVE_PARAMS { prfHashMechanism: pm, pSessionHash: aptr(&ha), ulSessionHashLen: sh.len() as CK_ULONG, pVersion: pv };
                (M::st(if dh { CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH } else { CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE }, &p, vec![ha, ver], &format!("{} session hash {}", h.name, w::hx(&sh))), refc::tls12_prf(h, &kb, b"extended master secret", &sh, 48))
            } else {
                let p = CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: aptr(&ca), ulClientRandomLen: 32, pServerRandom: aptr(&sa), ulServerRandomLen: 32 }, pVersion: pv, prfHashMechanism: pm };
                let seed = [cr.clone(), sr.clone()].concat();
                (M::st(if dh { CKM_TLS12_MASTER_KEY_DERIVE_DH } else { CKM_TLS12_MASTER_KEY_DERIVE }, &p, vec![ca, sa, ver], &format!("{} randoms {}", h.name, w::hx(&seed))), refc::tls12_prf(h, &kb, b"master secret", &seed, 48))
            };
            mk(m, base(s, ops::gen_key(&kb)), exact(f), vec![48], &format!("tls-master/{}/{}/{}", ems, dh, h.name), &kb)
        }
        5 => {
            let (pm, h) = pickhash(r);
            let (cr, sr) = (r.bytes(32), r.bytes(32));
            let (ca, sa) = (arc(&cr), arc(&sr));
            let ln = r.range(1, 40);
            let label = r.bytes(ln);
            let cn = r.len(60);
            let ctx = r.bytes(cn);
            let (la, xa) = (arc(&label), arc(&ctx));
            let kb = r.bytes(48);
            let p = CK_TLS_KDF_PARAMS { prfMechanism: pm, pLabel: aptr(&la), ulLabelLength: ln as CK_ULONG, RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: aptr(&ca), ulClientRandomLen: 32, pServerRandom: aptr(&sa), ulServerRandomLen: 32 }, pContextData: if ctx.is_empty() { null_mut() } else { aptr(&xa) }, ulContextDataLength: cn as CK_ULONG };
            let seed = [cr, sr, ctx].concat();
            let k2 = kb.clone();
            let desc = format!("{} label {} seed {}", h.name, w::hx(&label), w::hx(&seed));
            let f: Stream = Box::new(move |n| if n > 0 { Some(refc::tls12_prf(h, &k2, &label, &seed, n)) } else { None });
            let mut lens = std_lens;
            lens.extend([h.len, h.len + 1, 300]);
            mk(M::st(if r.bool() { CKM_TLS_KDF } else { CKM_TLS12_KDF }, &p, vec![ca, sa, la, xa], &desc), base(s, ops::gen_key(&kb)), f, lens, &format!("tls-kdf/{}", h.name), &kb)
        }
        // ---- SP800-108 without additional keys
        6 | 7 => {
            let sp = Sp::random(r);
            let m = sp.mech(&[]);
            let b = base(s, sp.keyt.clone());
            let fam = format!("sp800-108/{}/{}", if sp.feedback { "feedback" } else { "counter" }, ckmn(sp.prf));
            let h = sp.h();
            let bad = sp.bad.clone();
            let may_refuse = sp.dps.iter().any(|d| matches!(d, Dp::Len { bits: 8 | 16 | 24, .. }));
            let key = sp.key.clone();
            let max = sp.max();
            let f: Stream = Box::new(move |n| if n > 0 && n.div_ceil(h) <= max && sp.bad.is_none() { Some(sp.out(&[n]).remove(0)) } else { None });
            let mut lens = std_lens;
            lens.extend([h - 1, h, h + 1, 3 * h, 255 * h, 255 * h + 1, 5000]);
            let mut k = mk(m, b, f, lens, &fam, &key);
            k.bad = bad;
            // a length field too small for the output length may be refused or truncated
            k.may_refuse = may_refuse;
            k
        }
        // ---- simple derivations
        8 | 9 => {
            let dn = r.range(1, 70);
            let d = r.bytes(dn);
            let da = arc(&d);
            let p = CK_KEY_DERIVATION_STRING_DATA { pData: aptr(&da), ulLen: dn as CK_ULONG };
            let b = base(s, ops::gen_key(&kb));
            let desc = format!("data {}", w::hx(&d));
            match r.below(4) {
                0 => mk(M::st(CKM_CONCATENATE_BASE_AND_DATA, &p, vec![da], &desc), b, prefix([kb.clone(), d].concat()), vec![kn + dn, kn + dn - 1, kn + dn + 1, kn, 16, 32], "concat-base-data", &kb),
                1 => mk(M::st(CKM_CONCATENATE_DATA_AND_BASE, &p, vec![da], &desc), b, prefix([d, kb.clone()].concat()), vec![kn + dn, kn + dn - 1, kn + dn + 1, dn, 16, 32], "concat-data-base", &kb),
                2 => {
                    let x: Vec<u8> = kb.iter().zip(&d).map(|(a, b)| a ^ b).collect();
                    let n = x.len();
                    mk(M::st(CKM_XOR_BASE_AND_DATA, &p, vec![da], &desc), b, prefix(x), vec![n, n + 1, (n - 1).max(1), 16, 32], "xor", &kb)
                }
                _ => {
                    let mut k2 = base(s, ops::gen_key(&d));
                    let mut both = [kb.clone(), d].concat();
                    if r.chance(1, 6) {
                        k2 = b;
                        both = [kb.clone(), kb.clone()].concat();
                    }
                    let n = both.len();
                    mk(M::st(CKM_CONCATENATE_BASE_AND_KEY, &k2, vec![], &desc), b, prefix(both), vec![n, n - 1, n + 1, 16, 32], "concat-keys", &kb)
                }
            }
        }
        10 => {
            let bits = kn * 8;
            let off = match r.below(6) {
                0 => 0,
                1 => bits - 1,
                2 => 8 * r.us(kn),
                3 => bits + r.us(20),
                _ => r.us(bits),
            };
            let kb2 = kb.clone();
            let f: Stream = Box::new(move |n| {
                if n == 0 || n > kb2.len() {
                    return None;
                }
                Some((0..n).map(|i| (0..8).fold(0u8, |a, j| {
                    let x = (off + i * 8 + j) % bits;
                    a << 1 | (kb2[x / 8] >> (7 - x % 8) & 1)
                })).collect())
            });
            let mut k = mk(M::raw(CKM_EXTRACT_KEY_FROM_KEY, &(off as CK_ULONG).to_ne_bytes()), base(s, ops::gen_key(&kb)), f, vec![1, 8, 16, 24, 32, kn, kn + 1, kn - 1], "extract-bits", &kb);
            k.may_refuse = off >= bits;
            k
        }
        11 | 12 => {
            let (m, h) = *r.pick(&HASH_KDFS);
            mk(M::new(m), base(s, ops::gen_key(&kb)), prefix(refc::hash(h, &kb)), vec![h.len, h.len - 1, h.len + 1, 16, 24, 32, 1], &format!("hash/{}", h.name), &kb)
        }
        13 => {
            let kv = ops::keybytes(r);
            let n = 16 * r.range(1, 4);
            let d = r.bytes(n);
            let da = arc(&d);
            let b = base(s, ops::aes_key(&kv));
            let mut k = if r.bool() {
                let p = CK_KEY_DERIVATION_STRING_DATA { pData: aptr(&da), ulLen: n as CK_ULONG };
                mk(M::st(CKM_AES_ECB_ENCRYPT_DATA, &p, vec![da], &w::hx(&d)), b, prefix(refc::aes_ecb(&kv, &d, true)), vec![n], "aes-ecb-data", &kv)
            } else {
                let iv = r.bytes(16);
                let p = CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: iv.clone().try_into().unwrap(), pData: aptr(&da), length: n as CK_ULONG };
                mk(M::st(CKM_AES_CBC_ENCRYPT_DATA, &p, vec![da], &w::hx(&d)), b, prefix(refc::cbc_enc(&kv, &iv, &d)), vec![n], "aes-cbc-data", &kv)
            };
            if r.chance(1, 4) {
                k.lens = vec![n + 1, n - 1, 16, 24, 32];
                k.may_refuse = true;
            }
            k
        }
        14 => {
            let tab = [
                (CKP_PKCS5_PBKD2_HMAC_SHA1, refc::SHA1),
                (CKP_PKCS5_PBKD2_HMAC_SHA224, refc::SHA224),
                (CKP_PKCS5_PBKD2_HMAC_SHA256, refc::SHA256),
                (CKP_PKCS5_PBKD2_HMAC_SHA384, refc::SHA384),
                (CKP_PKCS5_PBKD2_HMAC_SHA512, refc::SHA512),
                (CKP_PKCS5_PBKD2_HMAC_SHA512_224, refc::SHA512_224),
                (CKP_PKCS5_PBKD2_HMAC_SHA512_256, refc::SHA512_256),
            ];
            let (pm, h) = *r.pick(&tab);
            let pn = r.range(1, 150);
            let pw = r.bytes(pn);
            let sn = r.range(1, 80);
            let salt = r.bytes(sn);
            let it = *r.pick(&[1u32, 1, 2, 3, 7, 50]);
            let (pa, sa) = (arc(&pw), arc(&salt));
            let p = CK_PKCS5_PBKD2_PARAMS2 { saltSource: CKZ_SALT_SPECIFIED, pSaltSourceData: aptr(&sa) as *mut _, ulSaltSourceDataLen: sn as CK_ULONG, iterations: it as CK_ULONG, prf: pm, pPrfData: null_mut(), ulPrfDataLen: 0, pPassword: aptr(&pa), ulPasswordLen: pn as CK_ULONG };
            let desc = format!("{} iterations {} password {} salt {}", h.name, it, w::hx(&pw), w::hx(&salt));
            let pw2 = pw.clone();
            let f: Stream = Box::new(move |n| if n > 0 { Some(refc::pbkdf2(h, &pw2, &salt, it, n)) } else { None });
            let mut lens = std_lens;
            lens.extend([h.len, h.len + 1, h.len - 1, 3 * h.len + 5]);
            let mut k = mk(M::st(CKM_PKCS5_PBKD2, &p, vec![pa, sa], &desc), 0, f, lens, &format!("pbkdf2/{}", h.name), &pw);
            k.gen = true;
            k
        }
        // ---- ECDH
        15..=17 => {
            let mont = r.chance(1, 3);
            let (b, key, peer, z, cn) = if mont {
                let x448 = r.bool();
                let (nid, n) = if x448 { (refc::NID_X448, 56) } else { (refc::NID_X25519, 32) };
                let k = r.bytes(n);
                let peer = refc::mont_pub(nid, &r.bytes(n));
                let z = refc::mont_dh(nid, &k, &peer).unwrap();
                (base(s, mont_t(x448, &k)), k, peer, z, if x448 { "x448" } else { "x25519" })
            } else {
                let cv = *r.pick(&refc::CURVES);
                let d = ops::ec_scalar(cv, r);
                let mut peer;
                let mut z;
                let lead = r.chance(1, 6);
                let mut tries = 0;
                loop {
                    peer = refc::ec_mul(cv, &ops::ec_scalar(cv, r), None).unwrap();
                    z = refc::ecdh(cv, &d, &peer).unwrap();
                    tries += 1;
                    // P-521 has a leading byte of 0 half of the time
                    if !lead || (z[0] == 0 && (cv.bits != 521 || z[1] == 0)) || tries > 600 {
                        break;
                    }
                }
                if z[0] == 0 {
                    w::count(&format!("ecdh-leading-zero-{}", cv.name), 1);
                }
                if r.bool() {
                    peer = if r.chance(1, 3) { refc::der(4, &peer) } else { peer };
                }
                (base(s, ops::ec_priv_t(cv, &d)), d, peer, z, cv.name)
            };
            let pa = arc(&peer);
            let mut keep = vec![pa.clone()];
            let mut p = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: null_mut(), ulPublicDataLen: peer.len() as CK_ULONG, pPublicData: aptr(&pa) };
            let zl = z.len();
            let ty = if r.bool() { CKM_ECDH1_DERIVE } else { CKM_ECDH1_COFACTOR_DERIVE };
            let (f, lens, kn): (Stream, Vec<usize>, String) = if r.chance(2, 5) {
                (Box::new(move |n| if n > 0 && n <= zl { Some(z[zl - n..].to_vec()) } else { None }), vec![zl, zl, zl - 1, zl + 1, 1, 16, 24, 32], "null".into())
            } else {
                let (x9, os, h) = *r.pick(&ECDH_KDFS);
                let x = r.bool();
                p.kdf = if x { x9 } else { os };
                let sn = r.len(70);
                let sh = r.bytes(sn);
                let sa = arc(&sh);
                if sn > 0 {
                    p.pSharedData = aptr(&sa);
                    p.ulSharedDataLen = sn as CK_ULONG;
                }
                keep.push(sa);
                let mut l = std_lens;
                l.extend([h.len, h.len + 1, 3 * h.len + 7]);
                (Box::new(move |n| if n == 0 { None } else if x { Some(refc::x963(h, &z, &sh, n)) } else { Some(onestep(h, &z, &sh, n)) }), l, format!("{}-{}", if x { "x963" } else { "sp800" }, h.name))
            };
            let desc = format!("{} kdf {} peer {}", cn, kn, w::hex(&peer));
            let mut k = mk(M::st(ty, &p, keep, &desc), b, f, lens, &format!("ecdh/{}/{}", cn, kn), &key);
            // cofactor derivation with Montgomery curves is not offered by every OpenSSL
            k.may_refuse = mont && ty == CKM_ECDH1_COFACTOR_DERIVE;
            k
        }
        18 => {
            let g = *r.pick(&[0usize, 0, 0, 1, 5, 5, 6, 2, 7]);
            let p = Bn::from(&w::unhex(DH_GROUPS[g].2));
            let bits = DH_GROUPS[g].1;
            let zl = bits / 8;
            let (x, y) = if r.chance(1, 4) { (Bn::from(&[2 + r.below(200) as u8]), Bn::u(2 + r.below(8))) } else { (Bn::from(&r.bytes(40)), Bn::from(&r.bytes(40))) };
            let peer = Bn::u(2).modexp(&y, &p);
            let z = peer.modexp(&x, &p).pad(zl);
            if z[0] == 0 {
                w::count("dh-leading-zero", 1);
            }
            let pb = if r.bool() { peer.bytes() } else { peer.pad(zl) };
            let mut k = mk(M::raw(CKM_DH_PKCS_DERIVE, &pb), base(s, dh_t(g, &x.bytes())), Box::new(move |n| if n > 0 && n <= zl { Some(z[zl - n..].to_vec()) } else { None }), vec![zl, zl, zl - 1, zl + 1, 16, 24, 32, 64], &format!("dh/{}{}", DH_GROUPS[g].0, bits), &x.bytes());
            // tiny private values may be refused
            k.may_refuse = x.bits() < 200;
            k
        }
        _ => {
            let (pm, h) = pickhash(r);
            let ty = b'A' + r.below(6) as u8;
            let hx = {
                let n = r.range(1, 70);
                r.bytes(n)
            };
            let sid = {
                let n = r.range(1, 70);
                r.bytes(n)
            };
            let (ha, sa) = (arc(&hx), arc(&sid));
            let p = KR_SSHKDF_PARAMS { prfHashMechanism: pm, derivedKeyType: ty, pExchangeHash: aptr(&ha), ulExchangeHashLen: hx.len() as CK_ULONG, pSessionId: aptr(&sa), ulSessionIdLen: sid.len() as CK_ULONG };
            let desc = format!("{} type {} H {} id {}", h.name, ty as char, w::hx(&hx), w::hx(&sid));
            let k2 = kb.clone();
            let f: Stream = Box::new(move |n| {
                if n == 0 {
                    return None;
                }
                let mut o = refc::hash(h, &[&k2[..], &hx, &[ty], &sid].concat());
                while o.len() < n {
                    let d = [&k2[..], &hx, &o].concat();
                    o.extend(refc::hash(h, &d));
                }
                o.truncate(n);
                Some(o)
            });
            let mut lens = std_lens;
            lens.extend([h.len, h.len + 1, 3 * h.len, 3 * h.len + 1]);
            let mut k = mk(M::st(KRM_SSHKDF_DERIVE, &p, vec![ha, sa], &desc), base(s, ops::gen_key(&kb)), f, lens, &format!("sshkdf/{}/{}", ty as char, h.name), &kb);
            k.data = ty < b'C';
            k
        }
    }
}

/// (type, is the length fine for the type)
fn target(r: &mut Rng) -> CK_ULONG {
    *r.pick(&[CKK_GENERIC_SECRET, CKK_GENERIC_SECRET, CKK_GENERIC_SECRET, CKK_AES, CKK_AES, CKK_HKDF, CKK_SHA256_HMAC, CKK_SHA_1_HMAC, CKK_SHA3_512_HMAC])
}
fn len_ok(kt: CK_ULONG, n: usize) -> bool {
    match kt {
        CKK_AES => [16, 24, 32].contains(&n),
        _ => n > 0,
    }
}
/// lengths every derivation has to accept: a typed HMAC key may be held to the size of its hash
fn len_std(kt: CK_ULONG, n: usize) -> bool {
    match kt {
        CKK_SHA256_HMAC => n == 32,
        CKK_SHA_1_HMAC => n == 20,
        CKK_SHA3_512_HMAC => n == 64,
        _ => len_ok(kt, n),
    }
}
fn read_big(s: H, h: H) -> Result<Vec<u8>, RV> {
    let (rv, mut v) = c::attrs_cap(s, h, &[CKA_VALUE], 20000);
    if rv != CKR_OK {
        return Err(rv);
    }
    v[0].take().ok_or(CKR_GENERAL_ERROR)
}
fn count_objs(s: H) -> usize {
    c::find(s, &T::new()).must("C_FindObjects").len()
}

/// check the value of one derived key object
fn check(s: H, h: H, want: &dyn Fn(usize) -> Option<Vec<u8>>, kt: CK_ULONG, data: bool, asked: Option<usize>, how: &str, fam: &str) -> bool {
    let v = match read_big(s, h) {
        Ok(v) => v,
        Err(e) => {
            viol!(["P19"], &format!("kdf:unreadable:{}", fam), "{}: derived non-sensitive key cannot be read: {}", how, rvn(e));
            return false;
        }
    };
    let mut ok = true;
    if let Some(n) = asked {
        if v.len() != n {
            viol!(["P19"], &format!("kdf:length:{}", fam), "{}: asked for {} bytes, key has {}", how, n, v.len());
            ok = false;
        }
    }
    if !data {
        if !len_ok(kt, v.len()) {
            viol!(["P19"], &format!("kdf:bad-type-length:{}", fam), "{}: a key of type {:#x} with {} bytes was made", how, kt, v.len());
            ok = false;
        }
        let l = c::attr_u(s, h, CKA_VALUE_LEN);
        if l != Ok(v.len() as CK_ULONG) {
            viol!(["P19"], &format!("kdf:value-len:{}", fam), "{}: CKA_VALUE_LEN is {:?} for a value of {} bytes", how, l.map_err(rvn), v.len());
            ok = false;
        }
        let t = c::attr_u(s, h, CKA_KEY_TYPE);
        if t != Ok(kt) {
            viol!(["P19"], &format!("kdf:type:{}", fam), "{}: CKA_KEY_TYPE is {:?}, asked for {:#x}", how, t.map_err(rvn), kt);
        }
    }
    let cl = c::attr_u(s, h, CKA_CLASS);
    if cl != Ok(if data { CKO_DATA } else { CKO_SECRET_KEY }) {
        viol!(["P19"], &format!("kdf:class:{}", fam), "{}: CKA_CLASS is {:?}", how, cl.map_err(rvn));
    }
    match want(v.len()) {
        None => {
            viol!(["P19"], &format!("kdf:impossible:{}", fam), "{}: gave a key of {} bytes, which the function cannot produce", how, v.len());
            false
        }
        Some(x) if x != v => {
            viol!(["P19"], &format!("kdf:value:{}", fam), "{}: value {} expected {}", how, w::hx(&v), w::hx(&x));
            false
        }
        _ => ok,
    }
}
/// the derived key in use: encrypt a block
fn used(s: H, h: H, key: &[u8], how: &str, fam: &str) {
    let blk = [0x5au8; 16];
    let got = match c::encrypt_init(s, &M::new(CKM_AES_ECB), h) {
        Ok(()) => c::encrypt(s, &blk),
        Err(e) => Err(e),
    };
    if got.as_ref().ok() != Some(&refc::aes_ecb(key, &blk, true)) {
        viol!(["P19"], &format!("kdf:use:{}", fam), "{}: encrypting with the derived AES key gives {:?}, expected the key to be {}", how, got.map(|v| w::hx(&v)).map_err(rvn), w::hx(key));
    }
}

fn value(arg: u64, r: &mut Rng) {
    let t = fresh("kdf");
    let mut n = 0;
    while n < arg && w::time_left() {
        let s = t.rw_user();
        for _ in 0..20 {
            n += 1;
            let k = case(s, r);
            one(s, &k, r);
        }
        for h in c::find(s, &T::new().b(CKA_TOKEN, true)).must("find") {
            let _ = c::destroy(s, h);
        }
        c::close_all(t.slot).must("C_CloseAllSessions");
    }
    t.end();
}
fn one(s: H, k: &Kd, r: &mut Rng) {
    let kt = if k.fam.starts_with("tls-master") { CKK_GENERIC_SECRET } else { target(r) };
    let mut len = if r.chance(1, 5) { None } else { Some(*r.pick(&k.lens)) };
    if k.data && len.is_none() {
        len = Some(32)
    }
    if !k.data && r.bool() {
        // a proper length for the type
        len = match kt {
            CKK_AES => Some(*r.pick(&[16, 24, 32])),
            CKK_SHA256_HMAC => Some(32),
            CKK_SHA_1_HMAC => Some(20),
            CKK_SHA3_512_HMAC => Some(64),
            _ => len,
        };
        if k.fam.starts_with("aes-") && r.bool() {
            len = None;
        }
    }
    if r.chance(1, 40) && kt == CKK_AES {
        len = Some(0);
    }
    if (k.fam.starts_with("ecdh") && !k.fam.ends_with("null") || k.fam.starts_with("sp800")) && len.is_none() {
        len = Some(16);
    }
    let class = if k.data { CKO_DATA } else { CKO_SECRET_KEY };
    let mut t = T::new().u(CKA_CLASS, class);
    if !k.data {
        t = t.u(CKA_KEY_TYPE, kt).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        if kt == CKK_AES {
            t = t.b(CKA_ENCRYPT, true);
        }
    }
    let token = r.chance(1, 4);
    t = t.b(CKA_TOKEN, token);
    if token {
        t = t.b(CKA_PRIVATE, r.bool());
    }
    let label = w::hex(&r.bytes(4));
    t = t.s(CKA_LABEL, &label);
    if let Some(n) = len {
        if kt == CKK_GENERIC_SECRET || kt == CKK_AES || kt == CKK_HKDF || k.data || r.bool() {
            t = t.u(CKA_VALUE_LEN, n as CK_ULONG);
        } else {
            len = None;
        }
    }
    let how = format!("{} of {} with {}, template {}", if k.gen { "C_GenerateKey" } else { "C_DeriveKey" }, w::hx(&k.key), k.m.show(), t.show());
    let go = |t: &T| if k.gen { c::generate_key(s, &k.m, t) } else { c::derive(s, &k.m, k.base, t) };
    // what must happen
    let impossible = k.bad.is_some() || matches!(len, Some(n) if (k.f)(n).is_none() || (!k.data && !len_ok(kt, n)));
    // shortening the result of an encryption is optional
    let cut = k.fam.starts_with("aes-") && len != k.lens.first().copied();
    let must = !impossible && !cut && !k.may_refuse && matches!(len, Some(n) if k.data || len_std(kt, n));
    let before = if impossible && r.bool() { Some(count_objs(s)) } else { None };
    let res = go(&t);
    w::eval(&format!("{}/{}/{}/{}", k.fam, kt, len.map(|n| if n > 64 { 65 } else { n }).unwrap_or(9999), res.is_ok()));
    w::count(if res.is_ok() { "derived" } else { "refused" }, 1);
    match res {
        Ok(h) => {
            if let Some(b) = &k.bad {
                viol!(["P19", "P25"], &format!("kdf:bad-accepted:{}", b), "{}: accepted although {}", how, b);
                return;
            }
            if !check(s, h, &*k.f, kt, k.data, len, &how, &k.fam) {
                return;
            }
            let lb = c::attr(s, h, CKA_LABEL);
            if lb.as_ref().ok().map(|v| &v[..]) != Some(label.as_bytes()) {
                viol!(["P19"], "kdf:label", "{}: CKA_LABEL reads {:?}", how, lb.map_err(rvn));
            }
            if c::attr_b(s, h, CKA_TOKEN) != Ok(token) {
                viol!(["P19"], "kdf:token", "{}: CKA_TOKEN is not as asked", how);
            }
            if kt == CKK_AES && !k.data {
                let v = c::attr(s, h, CKA_VALUE).unwrap_or_default();
                used(s, h, &v, &how, &k.fam);
                // a sensitive key with the same value
                if r.chance(1, 3) && !k.fam.starts_with("concat-keys") {
                    let t2 = t.clone().setb(CKA_SENSITIVE, true).setb(CKA_EXTRACTABLE, false);
                    match go(&t2) {
                        Ok(h2) => {
                            used(s, h2, &v, &how, &k.fam);
                            if let Ok(x) = c::attr(s, h2, CKA_VALUE) {
                                viol!(["P19", "P04"], "kdf:sensitive-readable", "{}: a sensitive derived key can be read: {}", how, w::hx(&x));
                            }
                        }
                        Err(e) => viol!(["P19"], &format!("kdf:sensitive-refused:{}", k.fam), "{}: fine for a non-sensitive key, but with CKA_SENSITIVE true {}", how, rvn(e)),
                    }
                }
            }
            // deriving again gives the same key
            if r.chance(1, 5) {
                match go(&t) {
                    Ok(h2) => {
                        if h2 == h {
                            viol!(["P19"], "kdf:same-handle", "{}: second derivation returned the same handle", how);
                        } else {
                            check(s, h2, &*k.f, kt, k.data, len, &format!("second {}", how), &k.fam);
                        }
                    }
                    Err(e) => viol!(["P19"], &format!("kdf:again:{}", k.fam), "{}: second time {}", how, rvn(e)),
                }
            }
            if r.chance(1, 3) {
                let _ = c::destroy(s, h);
            }
        }
        Err(e) => {
            if must {
                viol!(["P19"], &format!("kdf:refused:{}:{}", k.fam, rvn(e)), "{}: {}", how, rvn(e));
            }
            if let Some(b) = before {
                let a = count_objs(s);
                if a != b {
                    viol!(["P19", "P11"], "kdf:refused-left-object", "{}: refused with {}, but {} objects became {}", how, rvn(e), b, a);
                }
            }
        }
    }
}

/// derivations with several results: TLS key material, SP800-108 additional keys
fn keymat(arg: u64, r: &mut Rng) {
    let t = fresh("keymat");
    let mut n = 0;
    while n < arg && w::time_left() {
        let s = t.rw_user();
        for _ in 0..20 {
            n += 1;
            if r.bool() {
                tls_mat(s, r);
            } else {
                sp_addl(s, r);
            }
        }
        for h in c::find(s, &T::new().b(CKA_TOKEN, true)).must("find") {
            let _ = c::destroy(s, h);
        }
        c::close_all(t.slot).must("C_CloseAllSessions");
    }
    t.end();
}
/// a key and MAC derivation without interest in its result
pub fn keymat_mech(r: &mut Rng) -> (M, CK_ULONG) {
    let (pm, _) = pickhash(r);
    let a = arc(&r.bytes(32));
    let iv = arc(&[0; 64]);
    let out = CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 0, hServerMacSecret: 0, hClientKey: 0, hServerKey: 0, pIVClient: aptr(&iv), pIVServer: unsafe { aptr(&iv).add(32) } };
    let ob = arc(unsafe { std::slice::from_raw_parts(&out as *const _ as *const u8, std::mem::size_of::<CK_SSL3_KEY_MAT_OUT>()) });
    let p = CK_TLS12_KEY_MAT_PARAMS {
        ulMacSizeInBits: 160,
        ulKeySizeInBits: 128,
        ulIVSizeInBits: 128,
        bIsExport: 0,
        RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: aptr(&a), ulClientRandomLen: 32, pServerRandom: aptr(&a), ulServerRandomLen: 32 },
        pReturnedKeyMaterial: aptr(&ob) as *mut _,
        prfHashMechanism: pm,
    };
    (M::st(if r.bool() { CKM_TLS12_KEY_SAFE_DERIVE } else { CKM_TLS12_KEY_AND_MAC_DERIVE }, &p, vec![a, iv, ob], "key material"), CKK_AES)
}
fn tls_mat(s: H, r: &mut Rng) {
    let (pm, h) = pickhash(r);
    let (cr, sr) = (r.bytes(32), r.bytes(32));
    let (ca, sa) = (arc(&cr), arc(&sr));
    let kb = r.bytes(48);
    let b = base(s, ops::gen_key(&kb));
    let safe = r.chance(1, 3);
    let mac = *r.pick(&[0usize, 16, 20, 32, 48, 64]);
    let kt = *r.pick(&[CKK_GENERIC_SECRET, CKK_AES, CKK_AES]);
    let key = if kt == CKK_AES { *r.pick(&[16usize, 24, 32]) } else { *r.pick(&[16usize, 32, 20, 7]) };
    let iv = *r.pick(&[0usize, 4, 8, 12, 16]);
    let mut ivs = vec![0xa5u8; 2 * (iv + 8)];
    let (c1, s1) = ivs.split_at_mut(iv + 8);
    let mut out = CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 7777, hServerMacSecret: 7777, hClientKey: 7777, hServerKey: 7777, pIVClient: c1.as_mut_ptr(), pIVServer: s1.as_mut_ptr() };
    let p = CK_TLS12_KEY_MAT_PARAMS {
        ulMacSizeInBits: mac as CK_ULONG * 8,
        ulKeySizeInBits: key as CK_ULONG * 8,
        ulIVSizeInBits: iv as CK_ULONG * 8,
        bIsExport: 0,
        RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: aptr(&ca), ulClientRandomLen: 32, pServerRandom: aptr(&sa), ulServerRandomLen: 32 },
        pReturnedKeyMaterial: &mut out,
        prfHashMechanism: pm,
    };
    let m = M::st(if safe { CKM_TLS12_KEY_SAFE_DERIVE } else { CKM_TLS12_KEY_AND_MAC_DERIVE }, &p, vec![ca, sa], &format!("{} mac {} key {} iv {} randoms {} {}", h.name, mac, key, iv, w::hx(&cr), w::hx(&sr)));
    let mut t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    if r.bool() {
        t = t.u(CKA_VALUE_LEN, key as CK_ULONG);
    }
    let how = format!("C_DeriveKey {} of {}, template {}", m.show(), w::hx(&kb), t.show());
    let res = if r.bool() { c::derive(s, &m, b, &t).map(|_| ()) } else { c::derive_nohandle(s, &m, b, &t) };
    w::eval(&format!("tls-keymat/{}/{}/{}/{}/{}/{}", h.name, safe, mac, key, iv, kt));
    if let Err(e) = res {
        viol!(["P19"], &format!("kdf:keymat-refused:{}", rvn(e)), "{}: {}", how, rvn(e));
        return;
    }
    let iv = if safe { 0 } else { iv };
    let blk = refc::tls12_prf(h, &kb, b"key expansion", &[sr, cr].concat(), 2 * (mac + key + iv));
    let mut pos = 0;
    let mut next = |n: usize| {
        let v = blk[pos..pos + n].to_vec();
        pos += n;
        v
    };
    let (cm, sm, ck, sk, ci, si) = (next(mac), next(mac), next(key), next(key), next(iv), next(iv));
    for (h, want, kt, what) in [(out.hClientMacSecret, cm, CKK_GENERIC_SECRET, "client MAC"), (out.hServerMacSecret, sm, CKK_GENERIC_SECRET, "server MAC"), (out.hClientKey, ck, kt, "client key"), (out.hServerKey, sk, kt, "server key")] {
        if want.is_empty() {
            continue;
        }
        let w2 = want.clone();
        check(s, h, &move |n| if n == w2.len() { Some(w2.clone()) } else { None }, kt, false, Some(want.len()), &format!("{} ({})", how, what), &format!("tls-keymat {}", what));
    }
    let half = ivs.len() / 2;
    for (got, want, what) in [(&ivs[..half], ci, "client"), (&ivs[half..], si, "server")] {
        if got[..want.len()] != want[..] || got[want.len()..].iter().any(|b| *b != 0xa5) {
            viol!(["P19"], "kdf:keymat-iv", "{}: {} IV buffer holds {}, expected {} and nothing after it", how, what, w::hex(got), w::hex(&want));
        }
    }
}
fn sp_addl(s: H, r: &mut Rng) {
    let sp = Sp::random(r);
    let n = r.range(1, 3);
    let mut lens = vec![];
    let mut kts = vec![];
    for _ in 0..=n {
        let kt = *r.pick(&[CKK_GENERIC_SECRET, CKK_AES, CKK_GENERIC_SECRET]);
        kts.push(kt);
        lens.push(if kt == CKK_AES { *r.pick(&[16, 24, 32]) } else { gen_len(r) });
    }
    // one of the templates may be unusable: then nothing must be made
    let spoil = if r.chance(1, 4) { Some(r.us(n + 1)) } else { None };
    let how_spoil = r.below(4);
    let mut ts: Vec<T> = (0..=n).map(|i| T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kts[i]).u(CKA_VALUE_LEN, lens[i] as CK_ULONG).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).b(CKA_TOKEN, r.chance(1, 4)).b(CKA_PRIVATE, true)).collect();
    if let Some(i) = spoil {
        ts[i] = match how_spoil {
            0 => ts[i].clone().setu(CKA_KEY_TYPE, CKK_AES).setu(CKA_VALUE_LEN, 17),
            1 => ts[i].clone().v(CKA_VALUE, &[1, 2, 3, 4]),
            2 => ts[i].clone().b(CKA_LOCAL, true),
            _ => ts[i].clone().setu(CKA_VALUE_LEN, 0),
        };
    }
    let mut hs: Vec<H> = vec![4242; n];
    let cks: Vec<Vec<CK_ATTRIBUTE>> = ts.iter().map(|t| t.ck()).collect();
    let hp = hs.as_mut_ptr();
    let addl: Vec<(Vec<CK_ATTRIBUTE>, *mut H)> = (0..n).map(|i| (cks[i + 1].clone(), unsafe { hp.add(i) })).collect();
    let m = sp.mech(&addl);
    let b = base(s, sp.keyt.clone());
    let how = format!("C_DeriveKey {} of {} ({}), templates {:?}", m.show(), w::hx(&sp.key), sp.keyt.show(), ts.iter().map(|t| t.show()).collect::<Vec<_>>());
    let before = count_objs(s);
    let res = c::derive(s, &m, b, &ts[0]);
    w::eval(&format!("sp800-addl/{}/{}/{}/{:?}/{}", sp.feedback, ckmn(sp.prf), n, spoil.map(|i| (i, how_spoil)), res.is_ok()));
    let toolong = sp.segs(&lens) > sp.max();
    let bad = sp.bad.clone().or(spoil.map(|i| format!("template {} unusable ({})", i, how_spoil))).or(if toolong { Some("counter overflow".into()) } else { None });
    match res {
        Ok(h) => {
            if let Some(b) = bad {
                viol!(["P19", "P25"], &format!("kdf:sp800-bad-accepted:{}", sp.bad.clone().unwrap_or(format!("spoil{}", how_spoil))), "{}: accepted although {}", how, b);
                return;
            }
            let want = sp.clone_out().out(&lens);
            let mut all = vec![h];
            all.extend(&hs);
            for (i, h) in all.iter().enumerate() {
                let w2 = want[i].clone();
                check(s, *h, &move |n| if n == w2.len() { Some(w2.clone()) } else { None }, kts[i], false, Some(lens[i]), &format!("key {} of {}", i, how), if i == 0 { "sp800-main" } else { "sp800-additional" });
            }
            let now = count_objs(s);
            if now != before + n + 1 {
                viol!(["P19"], "kdf:sp800-count", "{}: {} objects became {}", how, before, now);
            }
        }
        Err(e) => {
            let small = sp.dps.iter().any(|d| matches!(d, Dp::Len { bits: 8 | 16, .. }));
            if bad.is_none() && !small {
                viol!(["P19"], &format!("kdf:sp800-refused:{}", rvn(e)), "{}: {}", how, rvn(e));
            }
            let now = count_objs(s);
            if now != before {
                viol!(["P19", "P11"], "kdf:sp800-partial", "{}: refused with {}, but {} objects became {}", how, rvn(e), before, now);
            }
        }
    }
}

/// parameters that must be refused
fn edge(arg: u64, r: &mut Rng) {
    let t = fresh("kdfedge");
    let mut n = 0;
    while n < arg && w::time_left() {
        let s = t.rw_user();
        for _ in 0..30 {
            n += 1;
            bad_case(s, r);
        }
        c::close_all(t.slot).must("C_CloseAllSessions");
    }
    t.end();
}
fn bad_case(s: H, r: &mut Rng) {
    let gt = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).u(CKA_VALUE_LEN, 16).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let kb = r.bytes(32);
    let mut gen = false;
    let dummy = arc(&r.bytes(64));
    let (m, b, what): (M, H, String) = match r.below(12) {
        // points that are not on the curve
        0..=2 => {
            let cv = *r.pick(&refc::CURVES);
            let d = ops::ec_scalar(cv, r);
            let l = cv.len();
            let good = refc::ec_mul(cv, &ops::ec_scalar(cv, r), None).unwrap();
            let (p, what) = match r.below(9) {
                0 => {
                    let mut p = good.clone();
                    let i = 1 + r.us(2 * l);
                    p[i] ^= 1 << r.below(8);
                    (p, "flipped bit")
                }
                1 => (vec![0], "infinity"),
                2 => ([vec![4], vec![0; 2 * l]].concat(), "zero coordinates"),
                3 => (good[..good.len() - 1].to_vec(), "short"),
                4 => ([good.clone(), vec![0]].concat(), "long"),
                5 => ([vec![4], r.bytes(2 * l)].concat(), "random"),
                6 => {
                    let o = refc::CURVES[(refc::CURVES.iter().position(|c| c.name == cv.name).unwrap() + 1) % 3];
                    (refc::ec_mul(o, &ops::ec_scalar(o, r), None).unwrap(), "other curve")
                }
                7 => ([vec![4], vec![0xff; 2 * l]].concat(), "coordinates beyond the prime"),
                _ => {
                    let mut p = good.clone();
                    p[0] = *r.pick(&[0, 1, 5, 7, 9, 0x40, 0xff]);
                    (p, "bad form octet")
                }
            };
            if refc::ec_on_curve(cv, &p) {
                return;
            }
            let pa = arc(&p);
            let a = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: null_mut(), ulPublicDataLen: p.len() as CK_ULONG, pPublicData: aptr(&pa) };
            (M::st(if r.bool() { CKM_ECDH1_DERIVE } else { CKM_ECDH1_COFACTOR_DERIVE }, &a, vec![pa], &format!("{} peer {}", cv.name, w::hex(&p))), base(s, ops::ec_priv_t(cv, &d)), format!("ecdh-point:{}", what))
        }
        3 => {
            let x448 = r.bool();
            let l = if x448 { 56 } else { 32 };
            let (p, what) = match r.below(4) {
                0 => (vec![0u8; l], "zero"),
                1 => {
                    let mut v = vec![0u8; l];
                    v[0] = 1;
                    (v, "one")
                }
                2 => (r.bytes(l - 1), "short"),
                _ => (r.bytes(l + 1), "long"),
            };
            let pa = arc(&p);
            let a = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: null_mut(), ulPublicDataLen: p.len() as CK_ULONG, pPublicData: aptr(&pa) };
            (M::st(CKM_ECDH1_DERIVE, &a, vec![pa], &w::hex(&p)), base(s, mont_t(x448, &r.bytes(l))), format!("montgomery-point:{}", what))
        }
        4 => {
            let g = *r.pick(&[0usize, 5]);
            let p = Bn::from(&w::unhex(DH_GROUPS[g].2));
            let (peer, what) = match r.below(5) {
                0 => (vec![0], "0"),
                1 => (vec![1], "1"),
                2 => (p.sub(&Bn::u(1)).bytes(), "p-1"),
                3 => (p.bytes(), "p"),
                _ => ([p.bytes(), vec![7]].concat(), "larger"),
            };
            (M::raw(CKM_DH_PKCS_DERIVE, &peer), base(s, dh_t(g, &r.bytes(40))), format!("dh-peer:{}", what))
        }
        5 => {
            let it = 0;
            let p = CK_PKCS5_PBKD2_PARAMS2 { saltSource: CKZ_SALT_SPECIFIED, pSaltSourceData: aptr(&dummy) as *mut _, ulSaltSourceDataLen: 16, iterations: it, prf: CKP_PKCS5_PBKD2_HMAC_SHA256, pPrfData: null_mut(), ulPrfDataLen: 0, pPassword: aptr(&dummy), ulPasswordLen: 8 };
            gen = true;
            let (mut p, mut what) = (p, "0 iterations");
            match r.below(4) {
                0 => {}
                1 => {
                    p.iterations = 1;
                    p.prf = *r.pick(&[0, 2, 9, 0x100, CK_ULONG::MAX]);
                    what = "unknown prf";
                }
                2 => {
                    p.iterations = 1;
                    p.saltSource = 0;
                    what = "unknown salt source";
                }
                _ => {
                    p.iterations = 1;
                    p.ulSaltSourceDataLen = 0;
                    what = "empty salt";
                }
            }
            (M::st(CKM_PKCS5_PBKD2, &p, vec![dummy], what), 0, format!("pbkdf2:{}", what))
        }
        6 => {
            let mut p = CK_HKDF_PARAMS { bExtract: 1, bExpand: 1, prfHashMechanism: CKM_SHA256, ulSaltType: CKF_HKDF_SALT_NULL, pSalt: null_mut(), ulSaltLen: 0, hSaltKey: 0, pInfo: null_mut(), ulInfoLen: 0 };
            let what = match r.below(6) {
                0 => {
                    p.bExtract = 0;
                    p.bExpand = 0;
                    "neither step"
                }
                1 => {
                    p.prfHashMechanism = *r.pick(&[0, CKM_AES_ECB, CKM_MD5, CK_ULONG::MAX]);
                    "unknown hash"
                }
                2 => {
                    p.ulSaltType = 0;
                    "unknown salt type"
                }
                3 => {
                    p.ulSaltType = CKF_HKDF_SALT_KEY;
                    p.hSaltKey = 999_999;
                    "salt key does not exist"
                }
                4 => {
                    p.ulSaltType = CKF_HKDF_SALT_DATA;
                    "no salt data"
                }
                _ => {
                    // the salt key must be allowed to derive
                    p.ulSaltType = CKF_HKDF_SALT_KEY;
                    p.hSaltKey = base(s, ops::gen_key(&r.bytes(32)).setb(CKA_DERIVE, false));
                    "salt key without derive"
                }
            };
            (M::st(CKM_HKDF_DERIVE, &p, vec![], what), base(s, ops::gen_key(&kb)), format!("hkdf:{}", what))
        }
        7 => {
            let rl = *r.pick(&[0usize, 31, 33, 28]);
            let mut p = CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: aptr(&dummy), ulClientRandomLen: 32, pServerRandom: aptr(&dummy), ulServerRandomLen: 32 }, pVersion: null_mut(), prfHashMechanism: CKM_SHA256 };
            let mut kl = 48;
            let what = match r.below(4) {
                0 => {
                    p.RandomInfo.ulClientRandomLen = rl as CK_ULONG;
                    "client random length"
                }
                1 => {
                    p.RandomInfo.ulServerRandomLen = rl as CK_ULONG;
                    "server random length"
                }
                2 => {
                    p.prfHashMechanism = *r.pick(&[0, CKM_AES_ECB, CK_ULONG::MAX]);
                    "hash"
                }
                _ => {
                    kl = *r.pick(&[16, 47, 49, 64]);
                    "pre-master secret length"
                }
            };
            let b = base(s, ops::gen_key(&r.bytes(kl)));
            let m = M::st(CKM_TLS12_MASTER_KEY_DERIVE, &p, vec![dummy], what);
            let t = gt.del(CKA_VALUE_LEN);
            return refuse(s, &m, b, &t, false, &format!("tls-master:{}", what));
        }
        8 => {
            let kv = ops::keybytes(r);
            let n = *r.pick(&[0usize, 1, 15, 17, 31]);
            let b = base(s, ops::aes_key(&kv));
            let m = if r.bool() {
                let p = CK_KEY_DERIVATION_STRING_DATA { pData: aptr(&dummy), ulLen: n as CK_ULONG };
                M::st(CKM_AES_ECB_ENCRYPT_DATA, &p, vec![dummy], &n.to_string())
            } else {
                let p = CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: [1; 16], pData: aptr(&dummy), length: n as CK_ULONG };
                M::st(CKM_AES_CBC_ENCRYPT_DATA, &p, vec![dummy], &n.to_string())
            };
            (m, b, format!("encrypt-data:{}", n))
        }
        9 => {
            let h = *r.pick(&[0, 888_888, s]);
            let _ = h;
            (M::st(CKM_CONCATENATE_BASE_AND_KEY, &999_999u64, vec![], "no such key"), base(s, ops::gen_key(&kb)), "concat-keys:no such key".into())
        }
        10 => {
            // a key too short for the asked length
            let off = r.us(256);
            (M::raw(CKM_EXTRACT_KEY_FROM_KEY, &(off as CK_ULONG).to_ne_bytes()), base(s, ops::gen_key(&r.bytes(15))), "extract:too short".into())
        }
        _ => {
            let mut p = KR_SSHKDF_PARAMS { prfHashMechanism: CKM_SHA256, derivedKeyType: b'C', pExchangeHash: aptr(&dummy), ulExchangeHashLen: 32, pSessionId: aptr(&dummy), ulSessionIdLen: 32 };
            let what = if r.bool() {
                p.derivedKeyType = *r.pick(&[0, b'@', b'G', b'a', 255]);
                "type"
            } else {
                p.prfHashMechanism = *r.pick(&[0, CKM_AES_ECB, CK_ULONG::MAX]);
                "hash"
            };
            (M::st(KRM_SSHKDF_DERIVE, &p, vec![dummy], what), base(s, ops::gen_key(&kb)), format!("sshkdf:{}", what))
        }
    };
    refuse(s, &m, b, &gt, gen, &what)
}
fn refuse(s: H, m: &M, b: H, t: &T, gen: bool, what: &str) {
    let before = count_objs(s);
    let res = if gen { c::generate_key(s, m, t) } else { c::derive(s, m, b, t) };
    w::eval(&format!("bad/{}", what));
    let how = format!("{} {} template {}", if gen { "C_GenerateKey" } else { "C_DeriveKey" }, m.show(), t.show());
    match res {
        Ok(h) => {
            let v = c::attr(s, h, CKA_VALUE).map(|v| w::hx(&v)).map_err(rvn);
            viol!(["P19", "P25"], &format!("kdf:bad-accepted:{}", what), "{}: accepted ({}), value {:?}", how, what, v);
        }
        Err(_) => {
            let now = count_objs(s);
            if now != before {
                viol!(["P19", "P11"], "kdf:refused-left-object", "{}: refused, but {} objects became {}", how, before, now);
            }
        }
    }
}
