//! Generated and imported keys (P31).
use crate::c::{self, *};
use crate::dhgroups::DH_GROUPS;
use crate::ops;
use crate::p11::*;
use crate::refc::{self, Bn, Curve, Rsa};
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::collections::HashSet;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P31" => {
            let mut v = times(4 * k, |_| job("gen.rsa", 1_000_000, 20_000));
            v.extend(times(3 * k, |_| job("gen.ec", 1_000_000, 20_000)));
            v.extend(times(2 * k, |_| job("gen.dh", 1_000_000, 20_000)));
            v.extend(times(3 * k, |_| job("gen.sec", 1_000_000, 20_000)));
            v.extend(times(3 * k, |_| job("gen.bad", 1_000_000, 20_000)));
            v.extend(times(3 * k, |_| job("gen.import", 1_000_000, 20_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    let f: fn(&mut G, &mut Rng) = match job {
        "gen.rsa" => rsa,
        "gen.ec" => ec,
        "gen.dh" => dh,
        "gen.sec" => sec,
        "gen.bad" => bad,
        "gen.import" => import,
        _ => panic!("{}", job),
    };
    let t = fresh(&job.replace('.', "-"));
    let mut g = G { slot: t.slot, s: 0, seen: HashSet::new(), ones: 0, bits: 0 };
    let mut n = 0;
    while n < arg && w::time_left() {
        g.s = t.rw_user();
        for _ in 0..20 {
            n += 1;
            f(&mut g, r);
            if !w::time_left() || n >= arg {
                break;
            }
        }
        for h in c::find(g.s, &T::new().b(CKA_TOKEN, true)).must("find") {
            let _ = c::destroy(g.s, h);
        }
        c::close_all(t.slot).must("C_CloseAllSessions");
    }
    // share of one bits over all generated secrets: 8 standard deviations
    if g.bits > 20_000 {
        let d = g.ones as f64 - g.bits as f64 / 2.0;
        if d.abs() > 8.0 * (g.bits as f64 / 4.0).sqrt() {
            viol!(["P31", "P27"], "gen:biased", "{} of {} bits of generated secrets are ones", g.ones, g.bits);
        }
        w::count("secret-bits", g.bits);
    }
    t.end();
}
pub struct G {
    slot: CK_SLOT_ID,
    s: H,
    seen: HashSet<Vec<u8>>,
    ones: u64,
    bits: u64,
}
impl G {
    /// a secret that must never come up twice
    fn fresh(&mut self, what: &str, v: &[u8]) {
        if v.len() >= 8 {
            if !self.seen.insert(v.to_vec()) {
                viol!(["P31", "P27"], "gen:repeated", "{}: {} was generated before", what, w::hx(v));
            }
            if v[..v.len() - 4].windows(4).any(|x| x == [0, 0, 0, 0]) && v.ends_with(&[0, 0, 0, 0]) || v.len() >= 16 && v.iter().collect::<HashSet<_>>().len() < 4 {
                viol!(["P31", "P27"], "gen:degenerate", "{}: {}", what, w::hx(v));
            }
        }
    }
    /// uniformly random bytes
    fn uniform(&mut self, v: &[u8]) {
        self.bits += v.len() as u64 * 8;
        self.ones += v.iter().map(|x| x.count_ones() as u64).sum::<u64>();
    }
    fn count(&self) -> usize {
        c::find(self.s, &T::new()).must("C_FindObjects").len()
    }
}

// ---------- attributes common to everything generated ----------
fn describe(s: H, h: H, how: &str, mech: CK_ULONG, tmpl: &T, class: CK_ULONG, kt: CK_ULONG) {
    let chk = |a: CK_ULONG, want: Vec<u8>, why: &str| {
        let got = c::attr(s, h, a);
        if got.as_ref().ok() != Some(&want) {
            viol!(["P31"], &format!("gen:attr:{}", ckan(a)), "{}: {} reads {:?}, expected {} ({})", how, ckan(a), got.map(|v| w::hx(&v)).map_err(rvn), w::hx(&want), why);
        }
    };
    let ul = |v: CK_ULONG| v.to_ne_bytes().to_vec();
    chk(CKA_CLASS, ul(class), "kind of object");
    chk(CKA_KEY_TYPE, ul(kt), "kind of key");
    chk(CKA_LOCAL, vec![1], "generated here");
    chk(CKA_KEY_GEN_MECHANISM, ul(mech), "mechanism used");
    for (a, v) in tmpl.pairs() {
        chk(a, v, "the template says so");
    }
    if class != CKO_PUBLIC_KEY {
        let sens = c::attr_b(s, h, CKA_SENSITIVE);
        let ext = c::attr_b(s, h, CKA_EXTRACTABLE);
        match (sens, ext) {
            (Ok(a), Ok(b)) => {
                chk(CKA_ALWAYS_SENSITIVE, vec![a as u8], "never was anything else than its CKA_SENSITIVE");
                chk(CKA_NEVER_EXTRACTABLE, vec![!b as u8], "never was anything else than its CKA_EXTRACTABLE");
            }
            _ => viol!(["P31"], "gen:attr:unreadable", "{}: CKA_SENSITIVE {:?} CKA_EXTRACTABLE {:?}", how, sens, ext),
        }
    }
    match c::attr(s, h, CKA_UNIQUE_ID) {
        Ok(v) if !v.is_empty() => (),
        g => viol!(["P31"], "gen:attr:unique-id", "{}: CKA_UNIQUE_ID reads {:?}", how, g.map_err(rvn)),
    }
}
/// optional attributes of a template
fn dress(mut t: T, public: bool, r: &mut Rng) -> T {
    if r.chance(1, 3) {
        t = t.s(CKA_LABEL, "generated");
    }
    if r.chance(1, 3) {
        let v = r.bytes(5);
        t = t.v(CKA_ID, &v);
    }
    if r.chance(1, 5) {
        t = t.b(CKA_TOKEN, r.bool());
    }
    if r.chance(1, 3) {
        t = t.b(CKA_PRIVATE, r.bool());
    }
    if !public && r.chance(1, 5) {
        t = t.b(CKA_MODIFIABLE, r.bool());
    }
    if r.chance(1, 6) {
        t = t.b(CKA_DESTROYABLE, true);
    }
    t
}
fn sens(t: T, r: &mut Rng) -> (T, bool) {
    match r.below(4) {
        0 => (t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true), true),
        1 => (t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, false), true),
        2 => (t.b(CKA_SENSITIVE, true).b(CKA_EXTRACTABLE, true), false),
        _ => (t, false),
    }
}
/// the plain PKCS#8 of a sensitive extractable private key, or a secret value
fn extract(g: &G, h: H, r: &mut Rng) -> Option<Vec<u8>> {
    let kek = r.bytes(32);
    let wk = c::create(g.s, &ops::aes_key(&kek)).must("C_CreateObject(wrapping key)");
    let o = c::wrap(g.s, &M::new(CKM_AES_KEY_WRAP_KWP), wk, h);
    let _ = c::destroy(g.s, wk);
    refc::kwp_un(&kek, &o.ok()?, &[0xa6, 0x59, 0x59, 0xa6])
}
fn spki(alg: Vec<u8>, bits: Vec<u8>) -> Vec<u8> {
    let mut b = vec![0];
    b.extend(bits);
    refc::seq(&[alg, refc::der(3, &b)])
}
fn pki(s: H, h: H, how: &str, want: &[u8]) {
    match c::attr(s, h, CKA_PUBLIC_KEY_INFO) {
        Ok(v) if v == want => (),
        g => viol!(["P31"], "gen:public-key-info", "{}: CKA_PUBLIC_KEY_INFO reads {:?}, expected {}", how, g.map(|v| w::hx(&v)).map_err(rvn), w::hx(want)),
    }
}

// ---------- RSA ----------
fn rsa(g: &mut G, r: &mut Rng) {
    let s = g.s;
    let bits: usize = *r.pick(&[1024, 1024, 1024, 1536, 2048, 1032, 1280, 1096, 2048, 1792, 3072]);
    if bits == 3072 && !r.chance(1, 4) {
        return;
    }
    let e: Option<Vec<u8>> = match r.below(6) {
        0 => None,
        1 => Some(vec![3]),
        2 => Some(vec![0x11]),
        3 => Some(vec![1, 0, 0, 0, 0x0f]),
        _ => Some(vec![1, 0, 1]),
    };
    let mut pt = dress(T::new().u(CKA_MODULUS_BITS, bits as CK_ULONG).b(CKA_VERIFY, true).b(CKA_ENCRYPT, true), true, r);
    if let Some(e) = &e {
        pt = pt.v(CKA_PUBLIC_EXPONENT, e);
    }
    if r.bool() {
        pt = pt.u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_RSA);
    }
    let (mut kt, open) = sens(dress(T::new().b(CKA_SIGN, true).b(CKA_DECRYPT, true), false, r), r);
    if r.bool() {
        kt = kt.u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_RSA);
    }
    let before = g.count();
    let how = format!("C_GenerateKeyPair(RSA, {}, {})", pt.show(), kt.show());
    w::eval(&format!("rsa/{}/{:?}/{}", bits, e, open));
    let (ph, kh) = match c::generate_pair(s, &M::new(CKM_RSA_PKCS_KEY_PAIR_GEN), &pt, &kt) {
        Ok(x) => x,
        Err(e2) => {
            if e.as_ref().map(|e| e.len() == 1).unwrap_or(false) {
                // small exponents may be refused
                if g.count() != before {
                    viol!(["P31", "P11"], "gen:refused-left-object", "{}: {} left objects", how, rvn(e2));
                }
                return;
            }
            viol!(["P31"], "gen:refused:rsa", "{}: {}", how, rvn(e2));
            return;
        }
    };
    if g.count() != before + 2 {
        viol!(["P31", "P11"], "gen:count", "{}: {} objects became {}", how, before, g.count());
    }
    describe(s, ph, &how, CKM_RSA_PKCS_KEY_PAIR_GEN, &pt, CKO_PUBLIC_KEY, CKK_RSA);
    describe(s, kh, &how, CKM_RSA_PKCS_KEY_PAIR_GEN, &kt, CKO_PRIVATE_KEY, CKK_RSA);
    let n = c::attr(s, ph, CKA_MODULUS).unwrap_or_default();
    let pe = c::attr(s, ph, CKA_PUBLIC_EXPONENT).unwrap_or_default();
    let we = e.clone().unwrap_or(vec![1, 0, 1]);
    if Bn::from(&n).bits() != bits || n.len() != bits.div_ceil(8) {
        viol!(["P31"], "gen:rsa:bits", "{}: the modulus {} has {} bits", how, w::hx(&n), Bn::from(&n).bits());
    }
    if c::attr_u(s, ph, CKA_MODULUS_BITS) != Ok(bits as CK_ULONG) {
        viol!(["P31"], "gen:rsa:modulus-bits", "{}: CKA_MODULUS_BITS reads {:?}", how, c::attr_u(s, ph, CKA_MODULUS_BITS));
    }
    if pe != we {
        viol!(["P31"], "gen:rsa:exponent", "{}: the public exponent is {}", how, w::hx(&pe));
    }
    for a in [CKA_MODULUS, CKA_PUBLIC_EXPONENT] {
        if c::attr(s, kh, a).ok() != c::attr(s, ph, a).ok() {
            viol!(["P31"], "gen:rsa:halves", "{}: {} differs between the halves", how, ckan(a));
        }
    }
    let info = spki(refc::seq(&[w::unhex("06092a864886f70d010101"), vec![5, 0]]), refc::seq(&[refc::der_int(&n), refc::der_int(&pe)]));
    pki(s, ph, &how, &info);
    pki(s, kh, &how, &info);
    g.fresh(&how, &n);
    if open && c::attr_b(s, kh, CKA_EXTRACTABLE) == Ok(true) {
        let at = |a| Bn::from(&c::attr(s, kh, a).unwrap_or_default());
        let (d, p, q, dp, dq, qi) = (at(CKA_PRIVATE_EXPONENT), at(CKA_PRIME_1), at(CKA_PRIME_2), at(CKA_EXPONENT_1), at(CKA_EXPONENT_2), at(CKA_COEFFICIENT));
        let one = Bn::u(1);
        let (bn, be) = (Bn::from(&n), Bn::from(&pe));
        let (p1, q1) = (p.sub(&one), q.sub(&one));
        let mut wrong = vec![];
        if !p.mul(&q).eq(&bn) {
            wrong.push("p*q is not n");
        }
        if !p.prime() || !q.prime() {
            wrong.push("p or q is not prime");
        }
        if p.bits().abs_diff(q.bits()) > 1 || p.eq(&q) {
            wrong.push("p and q are not two primes of half the size");
        }
        // FIPS 186-4: |p - q| > 2^(nlen/2 - 100)
        let diff = if p.cmp(&q) == std::cmp::Ordering::Greater { p.sub(&q) } else { q.sub(&p) };
        if diff.bits() < bits / 2 - 100 {
            wrong.push("p and q are too close");
        }
        if !d.mul(&be).rem(&p1).eq(&one) || !d.mul(&be).rem(&q1).eq(&one) {
            wrong.push("d*e is not 1");
        }
        if !d.rem(&p1).eq(&dp) || !d.rem(&q1).eq(&dq) {
            wrong.push("dp or dq is not d mod p-1 or q-1");
        }
        if !qi.mul(&q).rem(&p).eq(&one) {
            wrong.push("the coefficient is not 1/q mod p");
        }
        if d.bits() <= bits / 2 {
            wrong.push("d is small");
        }
        w::count("rsa-components-checked", 1);
        for x in wrong {
            viol!(["P31"], &format!("gen:rsa:components:{}", x.replace(' ', "-")), "{}: {} (n={})", how, x, w::hx(&n));
        }
        g.fresh(&how, &p.bytes());
        g.fresh(&how, &q.bytes());
    }
    // the halves work together, judged from outside
    let k = Rsa { n: n.clone(), e: pe.clone(), d: vec![1] };
    let msg = r.bytes(20);
    let sig = c::sign_init(s, &M::new(CKM_RSA_PKCS), kh).and_then(|_| c::sign(s, &msg));
    if sig.as_ref().map(|x| k.pubop(x)).ok() != refc::pkcs1_t1(k.k(), &msg) {
        viol!(["P31"], "gen:rsa:sign", "{}: the signature {:?} does not verify with the public half", how, sig.map(|v| w::hx(&v)).map_err(rvn));
    }
    let ct = k.pubop(&refc::pkcs1_t2(k.k(), &msg, r));
    let pl = c::decrypt_init(s, &M::new(CKM_RSA_PKCS), kh).and_then(|_| c::decrypt(s, &ct));
    if pl.as_ref().ok() != Some(&msg) {
        viol!(["P31"], "gen:rsa:decrypt", "{}: decryption gives {:?}", how, pl.map(|v| w::hx(&v)).map_err(rvn));
    }
    let _ = c::destroy(s, ph);
    let _ = c::destroy(s, kh);
}

// ---------- EC ----------
fn curve_params(cv: Curve, r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 4) {
        let n = match cv.bits {
            256 => "prime256v1",
            384 => "secp384r1",
            _ => "secp521r1",
        };
        refc::der(0x13, n.as_bytes())
    } else {
        cv.oid.to_vec()
    }
}
fn octets(v: &[u8]) -> Option<Vec<u8>> {
    match refc::der_read(v) {
        Some((4, c, rest)) if rest.is_empty() => Some(c.to_vec()),
        _ => None,
    }
}
/// value of a private key: read or taken from the wrapped form
fn priv_value(g: &G, kh: H, r: &mut Rng) -> Option<Vec<u8>> {
    if let Ok(v) = c::attr(g.s, kh, CKA_VALUE) {
        return Some(v);
    }
    if c::attr_b(g.s, kh, CKA_EXTRACTABLE) != Ok(true) {
        return None;
    }
    let p8 = extract(g, kh, r)?;
    // PrivateKeyInfo: version, algorithm, OCTET STRING
    let (_, body, _) = refc::der_read(&p8)?;
    let (_, _, rest) = refc::der_read(body)?;
    let (_, _, rest) = refc::der_read(rest)?;
    let (_, key, _) = refc::der_read(rest)?;
    let (t, inner, _) = refc::der_read(key)?;
    if t == 4 {
        return Some(inner.to_vec());
    }
    let (_, _, rest) = refc::der_read(inner)?;
    let (_, d, _) = refc::der_read(rest)?;
    w::count("value-from-wrapped", 1);
    Some(d.to_vec())
}
fn ec(g: &mut G, r: &mut Rng) {
    let s = g.s;
    if r.chance(2, 5) {
        return mont(g, r);
    }
    let cv = *r.pick(&refc::CURVES);
    let params = curve_params(cv, r);
    let pt = dress(T::new().v(CKA_EC_PARAMS, &params).b(CKA_VERIFY, true), true, r);
    let (mut kt, _) = sens(dress(T::new().b(CKA_SIGN, true).b(CKA_DERIVE, true), false, r), r);
    if r.bool() {
        kt = kt.u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_EC);
    }
    let before = g.count();
    let how = format!("C_GenerateKeyPair(EC {}, {}, {})", cv.name, pt.show(), kt.show());
    w::eval(&format!("ec/{}/{}/{}", cv.name, params[0], kt.show().len()));
    let (ph, kh) = match c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &pt, &kt) {
        Ok(x) => x,
        Err(e) => {
            viol!(["P31"], &format!("gen:refused:ec:{}", params[0]), "{}: {}", how, rvn(e));
            return;
        }
    };
    if g.count() != before + 2 {
        viol!(["P31", "P11"], "gen:count", "{}: {} objects became {}", how, before, g.count());
    }
    describe(s, ph, &how, CKM_EC_KEY_PAIR_GEN, &pt, CKO_PUBLIC_KEY, CKK_EC);
    describe(s, kh, &how, CKM_EC_KEY_PAIR_GEN, &kt, CKO_PRIVATE_KEY, CKK_EC);
    if c::attr(s, kh, CKA_EC_PARAMS).ok().as_ref() != Some(&params) {
        viol!(["P31"], "gen:ec:params", "{}: CKA_EC_PARAMS of the private half is {:?}", how, c::attr(s, kh, CKA_EC_PARAMS));
    }
    let pa = c::attr(s, ph, CKA_EC_POINT).unwrap_or_default();
    let q = match octets(&pa) {
        Some(q) if q.len() == 1 + 2 * cv.len() && refc::ec_on_curve(cv, &q) => q,
        _ => {
            viol!(["P31"], "gen:ec:point", "{}: CKA_EC_POINT {} is not a point of the curve", how, w::hx(&pa));
            return;
        }
    };
    let mut b = vec![];
    b.extend(w::unhex("06072a8648ce3d0201"));
    b.extend(cv.oid);
    let info = spki(refc::der(0x30, &b), q.clone());
    pki(s, ph, &how, &info);
    pki(s, kh, &how, &info);
    g.fresh(&how, &q);
    if let Some(d) = priv_value(g, kh, r) {
        let bd = Bn::from(&d);
        if bd.bits() == 0 || bd.cmp(&Bn::from(&refc::ec_order(cv))) != std::cmp::Ordering::Less {
            viol!(["P31"], "gen:ec:range", "{}: the private value {} is not between 1 and the order", how, w::hx(&d));
        } else if refc::ec_mul(cv, &d, None).as_ref() != Some(&q) {
            viol!(["P31"], "gen:ec:halves", "{}: the private value {} does not belong to the point {}", how, w::hx(&d), w::hx(&q));
        }
        w::count("ec-values-checked", 1);
        g.fresh(&how, &d);
    }
    let dig = r.bytes(32);
    let sig = c::sign_init(s, &M::new(CKM_ECDSA), kh).and_then(|_| c::sign(s, &dig));
    if !sig.as_ref().map(|x| refc::ecdsa_verify(cv, &q, &dig, x)).unwrap_or(false) {
        viol!(["P31"], "gen:ec:sign", "{}: the signature {:?} does not verify with the public half", how, sig.map(|v| w::hx(&v)).map_err(rvn));
    }
    let _ = c::destroy(s, ph);
    let _ = c::destroy(s, kh);
}
fn mont(g: &mut G, r: &mut Rng) {
    let s = g.s;
    let x448 = r.bool();
    let oid: &[u8] = if x448 { &[6, 3, 0x2b, 0x65, 0x6f] } else { &[6, 3, 0x2b, 0x65, 0x6e] };
    let nid = if x448 { refc::NID_X448 } else { refc::NID_X25519 };
    let len = if x448 { 56 } else { 32 };
    let params = if r.chance(1, 4) { refc::der(0x13, if x448 { b"curve448" } else { b"curve25519" }) } else { oid.to_vec() };
    let pt = dress(T::new().v(CKA_EC_PARAMS, &params), true, r);
    let (kt, _) = sens(dress(T::new().b(CKA_DERIVE, true), false, r), r);
    let before = g.count();
    let how = format!("C_GenerateKeyPair(X{}, {}, {})", len * 8, pt.show(), kt.show());
    w::eval(&format!("mont/{}/{}/{}", len, params[0], kt.show().len()));
    let (ph, kh) = match c::generate_pair(s, &M::new(CKM_EC_MONTGOMERY_KEY_PAIR_GEN), &pt, &kt) {
        Ok(x) => x,
        Err(e) => {
            viol!(["P31"], &format!("gen:refused:mont:{}", params[0]), "{}: {}", how, rvn(e));
            return;
        }
    };
    if g.count() != before + 2 {
        viol!(["P31", "P11"], "gen:count", "{}: {} objects became {}", how, before, g.count());
    }
    describe(s, ph, &how, CKM_EC_MONTGOMERY_KEY_PAIR_GEN, &pt, CKO_PUBLIC_KEY, CKK_EC_MONTGOMERY);
    describe(s, kh, &how, CKM_EC_MONTGOMERY_KEY_PAIR_GEN, &kt, CKO_PRIVATE_KEY, CKK_EC_MONTGOMERY);
    let pa = c::attr(s, ph, CKA_EC_POINT).unwrap_or_default();
    let q = if pa.len() == len { pa.clone() } else { octets(&pa).unwrap_or_default() };
    if q.len() != len {
        viol!(["P31"], "gen:mont:point", "{}: CKA_EC_POINT {}", how, w::hx(&pa));
        return;
    }
    let info = spki(refc::der(0x30, oid), q.clone());
    pki(s, ph, &how, &info);
    pki(s, kh, &how, &info);
    g.fresh(&how, &q);
    if let Some(d) = priv_value(g, kh, r) {
        if d.len() != len || refc::mont_pub(nid, &d) != q {
            viol!(["P31"], "gen:mont:halves", "{}: the private value {} does not belong to {}", how, w::hx(&d), w::hx(&q));
        }
        w::count("ec-values-checked", 1);
        g.fresh(&how, &d);
    }
    // derive with it: the other side computes the same
    let pk = r.bytes(len);
    let peer = refc::mont_pub(nid, &pk);
    let a = arc(&peer);
    let p = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: peer.len() as CK_ULONG, pPublicData: aptr(&a) };
    let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let z = c::derive(s, &M::st(CKM_ECDH1_DERIVE, &p, vec![a], "ecdh"), kh, &t).and_then(|d| c::attr(s, d, CKA_VALUE));
    if z.as_ref().ok() != refc::mont_dh(nid, &pk, &q).as_ref() {
        viol!(["P31"], "gen:mont:derive", "{}: derivation gives {:?}", how, z.map(|v| w::hx(&v)).map_err(rvn));
    }
    let _ = c::destroy(s, ph);
    let _ = c::destroy(s, kh);
}

// ---------- DH ----------
fn dh(g: &mut G, r: &mut Rng) {
    let s = g.s;
    let gi = r.us(DH_GROUPS.len());
    if DH_GROUPS[gi].1 > 4096 && !r.chance(1, 6) {
        return;
    }
    let prime = w::unhex(DH_GROUPS[gi].2);
    let pt = dress(T::new().v(CKA_PRIME, &prime).v(CKA_BASE, &[2]), true, r);
    let (kt, _) = sens(dress(T::new().b(CKA_DERIVE, true), false, r), r);
    let before = g.count();
    let how = format!("C_GenerateKeyPair(DH {}{}, {})", DH_GROUPS[gi].0, DH_GROUPS[gi].1, kt.show());
    w::eval(&format!("dh/{}/{}", gi, kt.show().len()));
    let (ph, kh) = match c::generate_pair(s, &M::new(CKM_DH_PKCS_KEY_PAIR_GEN), &pt, &kt) {
        Ok(x) => x,
        Err(e) => {
            viol!(["P31"], "gen:refused:dh", "{}: {}", how, rvn(e));
            return;
        }
    };
    if g.count() != before + 2 {
        viol!(["P31", "P11"], "gen:count", "{}: {} objects became {}", how, before, g.count());
    }
    describe(s, ph, &how, CKM_DH_PKCS_KEY_PAIR_GEN, &pt, CKO_PUBLIC_KEY, CKK_DH);
    describe(s, kh, &how, CKM_DH_PKCS_KEY_PAIR_GEN, &kt, CKO_PRIVATE_KEY, CKK_DH);
    for a in [CKA_PRIME, CKA_BASE] {
        if c::attr(s, kh, a).ok().map(|v| Bn::from(&v).bytes()) != pt.get(a).map(|v| Bn::from(v).bytes()) {
            viol!(["P31"], "gen:dh:params", "{}: {} of the private half is {:?}", how, ckan(a), c::attr(s, kh, a).map(|v| w::hx(&v)));
        }
    }
    let y = c::attr(s, ph, CKA_VALUE).unwrap_or_default();
    let (bp, by, one) = (Bn::from(&prime), Bn::from(&y), Bn::u(1));
    let q = Bn::from(&half(&prime));
    if by.bits() < 64 || by.cmp(&bp.sub(&one)) != std::cmp::Ordering::Less || !by.modexp(&q, &bp).eq(&one) {
        viol!(["P31"], "gen:dh:public", "{}: the public value {} is not in the group of order q", how, w::hx(&y));
    }
    g.fresh(&how, &y);
    if let (Ok(a), Ok(b)) = (c::attr(s, ph, CKA_PUBLIC_KEY_INFO), c::attr(s, kh, CKA_PUBLIC_KEY_INFO)) {
        let want = refc::der_int(&y);
        if a != b || !a.ends_with(&want) {
            viol!(["P31"], "gen:public-key-info", "{}: CKA_PUBLIC_KEY_INFO {} and {} for the public value {}", how, w::hx(&a), w::hx(&b), w::hx(&y));
        }
    } else {
        viol!(["P31"], "gen:public-key-info", "{}: CKA_PUBLIC_KEY_INFO cannot be read", how);
    }
    if let Ok(x) = c::attr(s, kh, CKA_VALUE) {
        let bx = Bn::from(&x);
        if bx.bits() < 200 || !Bn::u(2).modexp(&bx, &bp).eq(&by) {
            viol!(["P31"], "gen:dh:halves", "{}: the private value {} does not belong to {}", how, w::hx(&x), w::hx(&y));
        }
        let vb = c::attr_u(s, kh, CKA_VALUE_BITS).unwrap_or(0) as usize;
        if vb < bx.bits() || vb > bx.bits() + 64 {
            viol!(["P31"], "gen:dh:value-bits", "{}: CKA_VALUE_BITS is {} for a value of {} bits", how, vb, bx.bits());
        }
        w::count("dh-values-checked", 1);
        g.fresh(&how, &x);
    }
    let _ = c::destroy(s, ph);
    let _ = c::destroy(s, kh);
}
fn half(p: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 0;
    for b in p {
        o.push(c << 7 | b >> 1);
        c = b & 1;
    }
    o
}

// ---------- secrets ----------
pub fn sec_mech(r: &mut Rng) -> (CK_ULONG, CK_ULONG, usize) {
    match r.below(5) {
        0 => (CKM_AES_KEY_GEN, CKK_AES, *r.pick(&[16, 24, 32])),
        1 => (CKM_GENERIC_SECRET_KEY_GEN, CKK_GENERIC_SECRET, if r.bool() { r.range(1, 64) } else { r.range(1, 600) }),
        2 => (CKM_HKDF_KEY_GEN, CKK_HKDF, r.range(1, 128)),
        _ => {
            let (_, _, h, kt) = *r.pick(&ops::HMACS);
            let m = match h.name {
                "SHA1" => CKM_SHA_1_KEY_GEN,
                "SHA224" => CKM_SHA224_KEY_GEN,
                "SHA256" => CKM_SHA256_KEY_GEN,
                "SHA384" => CKM_SHA384_KEY_GEN,
                "SHA512" => CKM_SHA512_KEY_GEN,
                "SHA512-224" => CKM_SHA512_224_KEY_GEN,
                "SHA512-256" => CKM_SHA512_256_KEY_GEN,
                "SHA3-224" => CKM_SHA3_224_KEY_GEN,
                "SHA3-256" => CKM_SHA3_256_KEY_GEN,
                "SHA3-384" => CKM_SHA3_384_KEY_GEN,
                _ => CKM_SHA3_512_KEY_GEN,
            };
            (m, kt, h.len)
        }
    }
}
fn sec(g: &mut G, r: &mut Rng) {
    let s = g.s;
    let (m, kt, len) = sec_mech(r);
    let mut t = dress(T::new().u(CKA_VALUE_LEN, len as CK_ULONG), false, r);
    if m == CKM_AES_KEY_GEN {
        t = t.b(CKA_ENCRYPT, true);
    } else if m != CKM_HKDF_KEY_GEN {
        t = t.b(CKA_SIGN, true);
    }
    if r.bool() {
        t = t.u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt);
    }
    let (t, open) = sens(t, r);
    let before = g.count();
    let how = format!("C_GenerateKey({}, {})", ckmn(m), t.show());
    w::eval(&format!("{}/{}/{}", ckmn(m), len, t.show().len()));
    let h = match c::generate_key(s, &M::new(m), &t) {
        Ok(h) => h,
        Err(e) => {
            viol!(["P31"], &format!("gen:refused:{}", ckmn(m)), "{}: {}", how, rvn(e));
            return;
        }
    };
    if g.count() != before + 1 {
        viol!(["P31", "P11"], "gen:count", "{}: {} objects became {}", how, before, g.count());
    }
    describe(s, h, &how, m, &t, CKO_SECRET_KEY, kt);
    if c::attr_u(s, h, CKA_VALUE_LEN) != Ok(len as CK_ULONG) {
        viol!(["P31"], "gen:value-len", "{}: CKA_VALUE_LEN reads {:?}", how, c::attr_u(s, h, CKA_VALUE_LEN));
    }
    let v = if open && c::attr_b(s, h, CKA_EXTRACTABLE) == Ok(true) {
        let v = c::attr(s, h, CKA_VALUE);
        if v.is_err() {
            viol!(["P31"], "gen:unreadable", "{}: CKA_VALUE reads {:?}", how, v.as_ref().map_err(|e| rvn(*e)));
        }
        v.ok()
    } else if c::attr_b(s, h, CKA_EXTRACTABLE) == Ok(true) {
        extract(g, h, r)
    } else {
        None
    };
    match v {
        Some(v) => {
            if v.len() != len {
                viol!(["P31"], "gen:length", "{}: the value has {} bytes", how, v.len());
            }
            g.fresh(&how, &v);
            g.uniform(&v);
            w::count("values-seen", 1);
        }
        None => {
            // a fingerprint will do
            let fp = match m {
                CKM_AES_KEY_GEN => c::encrypt_init(s, &M::new(CKM_AES_ECB), h).and_then(|_| c::encrypt(s, &[0; 16])),
                CKM_GENERIC_SECRET_KEY_GEN if len >= 16 => c::sign_init(s, &M::new(CKM_SHA256_HMAC), h).and_then(|_| c::sign(s, b"fingerprint")),
                _ => Err(0),
            };
            if let Ok(v) = fp {
                g.fresh(&how, &v);
                w::count("fingerprints-seen", 1);
            }
        }
    }
    let _ = c::destroy(s, h);
}

// ---------- requests that must be refused and create nothing ----------
fn bad(g: &mut G, r: &mut Rng) {
    let s = g.s;
    let before = g.count();
    let mut ses = s;
    let mut ro = None;
    let what: String;
    let rv;
    let how;
    let mut tags = vec!["P31", "P11"];
    if r.bool() {
        // ---- secret keys
        let (m, kt, len) = sec_mech(r);
        let mut t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).u(CKA_VALUE_LEN, len as CK_ULONG).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        what = match r.below(12) {
            0 if kt == CKK_AES => {
                let n = *r.pick(&[0u64, 1, 8, 15, 17, 20, 31, 33, 40, 64, 128, 256, 1 << 20, (1 << 32) + 16]);
                t = t.setu(CKA_VALUE_LEN, n as CK_ULONG);
                "an AES key of another size".into()
            }
            0 | 1 if r.chance(1, 2) => {
                t = t.setu(CKA_VALUE_LEN, 0);
                "a key of no bytes".into()
            }
            0 | 1 => {
                t = t.del(CKA_VALUE_LEN);
                "no CKA_VALUE_LEN".into()
            }
            2 => {
                let v = r.bytes(len);
                t = t.v(CKA_VALUE, &v);
                "CKA_VALUE given".into()
            }
            3 => {
                let (a, v): (CK_ULONG, Vec<u8>) = match r.below(5) {
                    0 => (CKA_LOCAL, vec![1]),
                    1 => (CKA_ALWAYS_SENSITIVE, vec![1]),
                    2 => (CKA_NEVER_EXTRACTABLE, vec![1]),
                    3 => (CKA_KEY_GEN_MECHANISM, m.to_ne_bytes().to_vec()),
                    _ => (CKA_UNIQUE_ID, b"chosen".to_vec()),
                };
                t = t.v(a, &v);
                tags.push("P04");
                format!("{} given", ckan(a))
            }
            4 => {
                t = t.setu(CKA_CLASS, *r.pick(&[CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_DATA, CKO_CERTIFICATE, 0x777]));
                "another class".into()
            }
            5 => {
                let k2 = *r.pick(&[CKK_RSA, CKK_EC, CKK_DES3, CKK_AES, CKK_GENERIC_SECRET, CKK_SHA256_HMAC, CKK_HKDF, 0x7777]);
                if k2 == kt {
                    return;
                }
                t = t.setu(CKA_KEY_TYPE, k2);
                "another key type".into()
            }
            6 => {
                t = t.v(0x7654, b"x");
                "an unknown attribute".into()
            }
            8 => {
                t = t.v(*r.pick(&[CKA_MODULUS, CKA_EC_PARAMS, CKA_PRIME, CKA_SUBJECT, CKA_MODULUS_BITS]), &[1, 2, 3]);
                "an attribute of another kind of key".into()
            }
            9 => {
                t = t.v(CKA_VALUE_LEN, &[1]).del(CKA_VALUE_LEN).v(CKA_VALUE_LEN, &[len as u8; 3]);
                "CKA_VALUE_LEN of three bytes".into()
            }
            10 => {
                let h = c::open(g.slot, false).must("C_OpenSession");
                ro = Some(h);
                ses = h;
                t = t.b(CKA_TOKEN, true);
                tags.push("P06");
                "a token key in a read-only session".into()
            }
            _ => {
                t = t.v(CKA_SENSITIVE, &[]).del(CKA_SENSITIVE).v(CKA_SENSITIVE, &[1, 0, 0]);
                "a boolean of three bytes".into()
            }
        };
        how = format!("C_GenerateKey({}, {})", ckmn(m), t.show());
        w::eval(&format!("bad/{}/{}", ckmn(m), what));
        rv = c::generate_key(ses, &M::new(m), &t).map(|h| vec![h]);
    } else {
        // ---- pairs
        let (m, kt, mut pt, mut kt2): (CK_ULONG, CK_ULONG, T, T) = match r.below(4) {
            0 => (CKM_RSA_PKCS_KEY_PAIR_GEN, CKK_RSA, T::new().u(CKA_MODULUS_BITS, 1024).v(CKA_PUBLIC_EXPONENT, &[1, 0, 1]).b(CKA_VERIFY, true), T::new().b(CKA_SIGN, true)),
            1 => (CKM_EC_KEY_PAIR_GEN, CKK_EC, T::new().v(CKA_EC_PARAMS, r.pick(&refc::CURVES).oid).b(CKA_VERIFY, true), T::new().b(CKA_SIGN, true)),
            2 => (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKK_EC_MONTGOMERY, T::new().v(CKA_EC_PARAMS, &[6, 3, 0x2b, 0x65, 0x6e]), T::new().b(CKA_DERIVE, true)),
            _ => (CKM_DH_PKCS_KEY_PAIR_GEN, CKK_DH, T::new().v(CKA_PRIME, &w::unhex(DH_GROUPS[0].2)).v(CKA_BASE, &[2]), T::new().b(CKA_DERIVE, true)),
        };
        pt = pt.u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, kt);
        kt2 = kt2.u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, kt);
        let token = r.chance(1, 3);
        if token {
            pt = pt.b(CKA_TOKEN, true);
            kt2 = kt2.b(CKA_TOKEN, true);
        }
        what = match r.below(13) {
            0 | 1 => match kt {
                CKK_RSA => {
                    if r.bool() {
                        pt = pt.setu(CKA_MODULUS_BITS, *r.pick(&[0, 1, 8, 512, 768, 1016, 1023, 16385, 16392, 20000, 65536, 1 << 31, (1 << 32) + 1024]));
                        "an unsupported modulus size".into()
                    } else {
                        let n = r.pick(&[&[][..], &[0], &[1], &[2], &[4], &[1, 0, 0]]).to_vec();
                        pt = pt.set(CKA_PUBLIC_EXPONENT, &n);
                        "an impossible public exponent".into()
                    }
                }
                CKK_DH => {
                    if r.bool() {
                        let mut p = w::unhex(DH_GROUPS[0].2);
                        let i = r.us(p.len());
                        p[i] ^= 1 << r.below(8);
                        pt = pt.set(CKA_PRIME, &p);
                        "an unknown prime".into()
                    } else {
                        pt = pt.set(CKA_BASE, *r.pick(&[&[1u8][..], &[0], &[3], &[]]));
                        "another base".into()
                    }
                }
                _ => {
                    let other: Vec<u8> = match r.below(8) {
                        // secp256k1, brainpool, ed25519
                        0 => w::unhex("06052b8104000a"),
                        1 => w::unhex("06092b2403030208010107"),
                        2 => w::unhex("06032b6570"),
                        3 => refc::der(0x13, b"secp256k1"),
                        4 => vec![5, 0],
                        5 => vec![],
                        6 if kt == CKK_EC => w::unhex("06032b656e"),
                        6 => refc::P256.oid.to_vec(),
                        _ => {
                            let mut o = pt.get(CKA_EC_PARAMS).unwrap().clone();
                            if r.bool() {
                                o.pop();
                            } else {
                                let i = r.us(o.len());
                                o[i] ^= 0x40;
                            }
                            o
                        }
                    };
                    pt = pt.set(CKA_EC_PARAMS, &other);
                    "an unsupported curve".into()
                }
            },
            2 => {
                pt = match kt {
                    CKK_RSA => pt.del(CKA_MODULUS_BITS),
                    CKK_DH => pt.del(*r.pick(&[CKA_PRIME, CKA_BASE])),
                    _ => pt.del(CKA_EC_PARAMS),
                };
                "no parameters".into()
            }
            3 => {
                let (a, v): (CK_ULONG, Vec<u8>) = match kt {
                    CKK_RSA => (CKA_MODULUS, vec![0xff; 128]),
                    CKK_DH => (CKA_VALUE, vec![5; 256]),
                    _ => (CKA_EC_POINT, vec![4, 2, 1, 1]),
                };
                pt = pt.v(a, &v);
                format!("public {} given", ckan(a))
            }
            4 => {
                let a = if kt == CKK_RSA { *r.pick(&[CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_EXPONENT_2]) } else { CKA_VALUE };
                let v = r.bytes(32);
                kt2 = kt2.v(a, &v);
                format!("private {} given", ckan(a))
            }
            5 => {
                let (a, v): (CK_ULONG, Vec<u8>) = match r.below(4) {
                    0 => (CKA_LOCAL, vec![1]),
                    1 => (CKA_ALWAYS_SENSITIVE, vec![1]),
                    2 => (CKA_NEVER_EXTRACTABLE, vec![1]),
                    _ => (CKA_KEY_GEN_MECHANISM, m.to_ne_bytes().to_vec()),
                };
                kt2 = kt2.v(a, &v);
                tags.push("P04");
                format!("private {} given", ckan(a))
            }
            6 => {
                if r.bool() {
                    pt = pt.setu(CKA_CLASS, *r.pick(&[CKO_PRIVATE_KEY, CKO_SECRET_KEY, CKO_DATA, 0x777]));
                } else {
                    kt2 = kt2.setu(CKA_CLASS, *r.pick(&[CKO_PUBLIC_KEY, CKO_SECRET_KEY, CKO_DATA, 0x777]));
                }
                "another class".into()
            }
            7 => {
                let k = *r.pick(&[CKK_RSA, CKK_EC, CKK_DH, CKK_EC_MONTGOMERY, CKK_EC_EDWARDS, CKK_AES, 0x7777]);
                if k == kt {
                    return;
                }
                if r.bool() {
                    pt = pt.setu(CKA_KEY_TYPE, k);
                } else {
                    kt2 = kt2.setu(CKA_KEY_TYPE, k);
                }
                "another key type".into()
            }
            8 => {
                if r.bool() {
                    pt = pt.v(0x7654, b"x");
                } else {
                    kt2 = kt2.v(0x7654, b"x");
                }
                "an unknown attribute".into()
            }
            10 => {
                let h = c::open(g.slot, false).must("C_OpenSession");
                ro = Some(h);
                ses = h;
                match r.below(3) {
                    0 => {
                        pt = pt.del(CKA_TOKEN).b(CKA_TOKEN, true);
                        kt2 = kt2.del(CKA_TOKEN);
                    }
                    1 => {
                        kt2 = kt2.del(CKA_TOKEN).b(CKA_TOKEN, true);
                        pt = pt.del(CKA_TOKEN);
                    }
                    _ => {
                        pt = pt.del(CKA_TOKEN).b(CKA_TOKEN, true);
                        kt2 = kt2.del(CKA_TOKEN).b(CKA_TOKEN, true);
                    }
                }
                tags.push("P06");
                "token keys in a read-only session".into()
            }
            11 => {
                // the private half says otherwise
                kt2 = match kt {
                    CKK_RSA => kt2.v(CKA_MODULUS, &[0xff; 128]),
                    CKK_DH => kt2.v(CKA_PRIME, &w::unhex(DH_GROUPS[1].2)),
                    CKK_EC => kt2.v(CKA_EC_PARAMS, refc::CURVES.iter().find(|c| Some(&c.oid.to_vec()) != pt.get(CKA_EC_PARAMS)).unwrap().oid),
                    _ => kt2.v(CKA_EC_PARAMS, &[6, 3, 0x2b, 0x65, 0x6f]),
                };
                "other parameters for the private half".into()
            }
            _ => {
                let v = r.bytes(64);
                if r.bool() {
                    pt = pt.v(CKA_PUBLIC_KEY_INFO, &v);
                } else {
                    kt2 = kt2.v(CKA_PUBLIC_KEY_INFO, &v);
                }
                "CKA_PUBLIC_KEY_INFO given".into()
            }
        };
        how = format!("C_GenerateKeyPair({}, {}, {})", ckmn(m), pt.show(), kt2.show());
        w::eval(&format!("bad/{}/{}/{}", ckmn(m), what, token));
        rv = c::generate_pair(ses, &M::new(m), &pt, &kt2).map(|(a, b)| vec![a, b]);
    }
    match rv {
        Ok(v) => {
            w::viol(&tags, &format!("gen:bad-accepted:{}", what.replace(' ', "-")), &format!("{}: {}: accepted", how, what));
            for h in v {
                let _ = c::destroy(s, h);
            }
        }
        Err(_) => {
            let a = g.count();
            if a != before {
                viol!(["P31", "P11"], &format!("gen:refused-left-object:{}", what.replace(' ', "-")), "{}: {}: refused, but {} objects became {}", how, what, before, a);
                for h in c::find(s, &T::new()).unwrap_or_default() {
                    let _ = c::destroy(s, h);
                }
            }
        }
    }
    if let Some(h) = ro {
        let _ = c::close(h);
    }
}

// ---------- imported keys with bad components ----------
fn import(g: &mut G, r: &mut Rng) {
    let s = g.s;
    let before = g.count();
    let what: String;
    let t: T;
    // does the key, when accepted, do something wrong?
    let mut check: Box<dyn Fn(H, &mut Rng) -> Option<String>> = Box::new(|_, _| Some("accepted".into()));
    match r.below(16) {
        0 => {
            let n = *r.pick(&[0usize, 1, 8, 15, 17, 20, 31, 33, 48, 64]);
            what = "an AES key of another size".into();
            t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).v(CKA_VALUE, &r.bytes(n)).b(CKA_ENCRYPT, true);
        }
        1 => {
            let n = r.range(1, 64);
            let kt = *r.pick(&[CKK_GENERIC_SECRET, CKK_HKDF, CKK_AES]);
            let n = if kt == CKK_AES { 16 } else { n };
            let d = *r.pick(&[0, n - 1, n + 1, n + 16, 1 << 33]);
            what = "CKA_VALUE_LEN that disagrees with CKA_VALUE".into();
            t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).v(CKA_VALUE, &r.bytes(n)).u(CKA_VALUE_LEN, d as CK_ULONG);
        }
        2 => {
            what = "an empty secret".into();
            t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, *r.pick(&[CKK_GENERIC_SECRET, CKK_HKDF, CKK_SHA256_HMAC, CKK_AES])).v(CKA_VALUE, &[]);
        }
        3 | 4 => {
            // EC point
            let cv = *r.pick(&refc::CURVES);
            let d = ops::ec_scalar(cv, r);
            let mut q = refc::ec_mul(cv, &d, None).unwrap();
            let w2 = match r.below(5) {
                0 => {
                    let i = r.range(1, q.len() - 1);
                    q[i] ^= 1 << r.below(8);
                    if refc::ec_on_curve(cv, &q) {
                        return;
                    }
                    "a point that is not on the curve"
                }
                1 => {
                    q = vec![0];
                    "the point at infinity"
                }
                2 => {
                    q.truncate(r.us(q.len()));
                    "a cut point"
                }
                3 => {
                    q.push(0);
                    "a point with a byte added"
                }
                _ => {
                    for b in q.iter_mut().skip(1) {
                        *b = 0xff;
                    }
                    "coordinates beyond the field"
                }
            };
            what = format!("{} as EC public key", w2);
            t = ops::ec_pub_t(cv, &q);
            let dig = r.bytes(32);
            let sig = refc::ecdsa_sign(cv, &d, &dig);
            check = Box::new(move |h, r| {
                let junk = r.bytes(sig.len());
                for (x, n) in [(&sig, "the signature of the intact key"), (&junk, "a random signature"), (&vec![0; sig.len()], "a zero signature")] {
                    if c::verify_init(s, &M::new(CKM_ECDSA), h).and_then(|_| c::verify(s, &dig, x)) == Ok(()) {
                        return Some(format!("verified {}", n));
                    }
                }
                None
            });
        }
        5 | 6 => {
            // EC scalar
            let cv = *r.pick(&refc::CURVES);
            let n = refc::ec_order(cv);
            let (d, w2) = match r.below(6) {
                0 => (vec![0; cv.len()], "0"),
                1 => (n, "the order"),
                2 => (vec![0xff; cv.len()], "a value above the order"),
                3 => (vec![0x11; cv.len() + 1], "a longer value"),
                4 => (vec![], "nothing"),
                _ => {
                    let mut m = n.clone();
                    let l = m.len() - 1;
                    m[l] = m[l].wrapping_add(1);
                    (m, "the order plus one")
                }
            };
            what = format!("{} as EC private value", w2);
            t = ops::ec_priv_t(cv, &d);
            let dig = r.bytes(32);
            check = Box::new(move |h, _| match c::sign_init(s, &M::new(CKM_ECDSA), h).and_then(|_| c::sign(s, &dig)) {
                Ok(x) => Some(format!("signed: {}", w::hx(&x))),
                Err(_) => None,
            });
        }
        7 => {
            let x448 = r.bool();
            let l = if x448 { 56 } else { 32 };
            let n = *r.pick(&[0usize, 1, l - 1, l + 1, 2 * l]);
            what = "a Montgomery private value of another size".into();
            t = super::kdf::mont_t(x448, &r.bytes(n));
            check = Box::new(move |h, r| {
                let nid = if x448 { refc::NID_X448 } else { refc::NID_X25519 };
                let peer = refc::mont_pub(nid, &r.bytes(l));
                let a = arc(&peer);
                let p = CK_ECDH1_DERIVE_PARAMS { kdf: CKD_NULL, ulSharedDataLen: 0, pSharedData: std::ptr::null_mut(), ulPublicDataLen: peer.len() as CK_ULONG, pPublicData: aptr(&a) };
                let t = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
                c::derive(s, &M::st(CKM_ECDH1_DERIVE, &p, vec![a], "ecdh"), h, &t).ok().map(|h| format!("derived {:?}", c::attr(s, h, CKA_VALUE)))
            });
        }
        8 => {
            let x448 = r.bool();
            let l = if x448 { 56usize } else { 32 };
            let n = *r.pick(&[0usize, 1, l - 1, l + 1, 2 * l]);
            what = "a Montgomery point of another size".into();
            t = T::new().u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_EC_MONTGOMERY).v(CKA_EC_PARAMS, if x448 { &[6, 3, 0x2b, 0x65, 0x6f] } else { &[6, 3, 0x2b, 0x65, 0x6e] }).v(CKA_EC_POINT, &r.bytes(n));
        }
        9 => {
            let other: Vec<u8> = match r.below(5) {
                0 => w::unhex("06052b8104000a"),
                1 => refc::der(0x13, b"nosuchcurve"),
                2 => vec![],
                3 => vec![6, 200, 1],
                _ => w::unhex("06032b656e"),
            };
            let cv = refc::P256;
            let d = ops::ec_scalar(cv, r);
            what = "EC parameters of no supported curve".into();
            t = if r.bool() { ops::ec_priv_t(cv, &d).set(CKA_EC_PARAMS, &other) } else { ops::ec_pub_t(cv, &refc::ec_mul(cv, &d, None).unwrap()).set(CKA_EC_PARAMS, &other) };
        }
        10 => {
            // a point or value that belongs to another curve
            let a = r.us(3);
            let b = (a + 1 + r.us(2)) % 3;
            let (ca, cb) = (refc::CURVES[a], refc::CURVES[b]);
            let d = ops::ec_scalar(ca, r);
            what = "an EC point of another curve".into();
            t = ops::ec_pub_t(ca, &refc::ec_mul(ca, &d, None).unwrap()).set(CKA_EC_PARAMS, cb.oid);
        }
        11 => {
            let i = ops::rsa_index(r);
            let mut x = if r.bool() { ops::rsa_priv(i) } else { ops::rsa_pub(i) };
            let w2 = match r.below(6) {
                0 => {
                    x = x.del(CKA_MODULUS);
                    "no modulus"
                }
                1 => {
                    x = x.set(CKA_MODULUS, &[]);
                    "an empty modulus"
                }
                2 => {
                    let v = x.get(CKA_MODULUS).unwrap()[..64].to_vec();
                    x = x.set(CKA_MODULUS, &v);
                    "a modulus of 512 bits"
                }
                3 => {
                    x = x.set(CKA_PUBLIC_EXPONENT, &[]);
                    "an empty public exponent"
                }
                4 => {
                    x = x.del(CKA_PUBLIC_EXPONENT);
                    "no public exponent"
                }
                _ => {
                    if !x.has(CKA_PRIVATE_EXPONENT) {
                        return;
                    }
                    x = if r.bool() { x.del(CKA_PRIVATE_EXPONENT) } else { x.set(CKA_PRIVATE_EXPONENT, &[]) };
                    "no private exponent"
                }
            };
            what = format!("an RSA key with {}", w2);
            t = x;
        }
        12 => {
            let i = ops::rsa_index(r);
            let bits = ops::rsa_ref(i).k() as CK_ULONG * 8;
            what = "CKA_MODULUS_BITS that disagrees with the modulus".into();
            t = ops::rsa_pub(i).u(CKA_MODULUS_BITS, *r.pick(&[0, bits / 2, bits + 8, bits - 8, bits * 2]));
        }
        13 => {
            // CKA_PUBLIC_KEY_INFO of another key
            let i = ops::rsa_index(r);
            let v = if r.bool() { r.bytes(90) } else { spki(refc::seq(&[w::unhex("06092a864886f70d010101"), vec![5, 0]]), refc::seq(&[refc::der_int(&[0x77; 128]), refc::der_int(&[1, 0, 1])])) };
            what = "CKA_PUBLIC_KEY_INFO that disagrees with the key".into();
            t = match r.below(3) {
                0 => ops::rsa_pub(i).v(CKA_PUBLIC_KEY_INFO, &v),
                1 => ops::rsa_priv(i).v(CKA_PUBLIC_KEY_INFO, &v),
                _ => {
                    let d = ops::ec_scalar(refc::P256, r);
                    ops::ec_pub_t(refc::P256, &refc::ec_mul(refc::P256, &d, None).unwrap()).v(CKA_PUBLIC_KEY_INFO, &v)
                }
            };
        }
        14 => {
            let mut p = w::unhex(DH_GROUPS[0].2);
            let mut b = vec![2];
            let w2 = match r.below(3) {
                0 => {
                    let i = r.us(p.len());
                    p[i] ^= 1 << r.below(8);
                    "an unknown prime"
                }
                1 => {
                    b = vec![*r.pick(&[0, 1, 3])];
                    "another base"
                }
                _ => {
                    p = vec![];
                    "an empty prime"
                }
            };
            what = format!("a DH key with {}", w2);
            let v = r.bytes(200);
            t = T::new().u(CKA_CLASS, *r.pick(&[CKO_PUBLIC_KEY, CKO_PRIVATE_KEY])).u(CKA_KEY_TYPE, CKK_DH).v(CKA_PRIME, &p).v(CKA_BASE, &b).v(CKA_VALUE, &v);
        }
        _ => {
            // an RSA private key one of whose CRT components is damaged: results are right or refused
            let i = ops::rsa_index(r);
            let a = *r.pick(&[CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT]);
            let full = ops::rsa_priv(i);
            let mut v = match full.get(a) {
                Some(v) => v.clone(),
                None => return,
            };
            let l = v.len();
            v[l / 2] ^= 1 << r.below(8);
            what = format!("an RSA key with a wrong {}", ckan(a));
            t = full.set(a, &v);
            let k = ops::rsa_ref(i);
            check = Box::new(move |h, r| {
                let m = r.bytes(20);
                let want = k.privop(&refc::pkcs1_t1(k.k(), &m).unwrap());
                match c::sign_init(s, &M::new(CKM_RSA_PKCS), h).and_then(|_| c::sign(s, &m)) {
                    Ok(x) if x != want => Some(format!("wrong signature {}", w::hx(&x))),
                    _ => None,
                }
            });
        }
    }
    w::eval(&format!("import/{}/{}", what, t.show().len()));
    match c::create(s, &t) {
        Ok(h) => {
            w::count("imported", 1);
            if let Some(x) = check(h, r) {
                viol!(["P31"], &format!("gen:import:{}", what.replace(' ', "-")), "C_CreateObject({}): {}: {}", t.show(), what, x);
            }
            let _ = c::session_cancel(s, CKF_SIGN | CKF_VERIFY | CKF_DECRYPT | CKF_ENCRYPT);
            let _ = c::destroy(s, h);
        }
        Err(_) => {
            let a = g.count();
            if a != before {
                viol!(["P31", "P11"], "gen:import:left-object", "C_CreateObject({}): {}: refused, but {} objects became {}", t.show(), what, before, a);
            }
        }
    }
}
