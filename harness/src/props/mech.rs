//! Advertised mechanisms are exactly the usable ones (P30).
use crate::c::{self, *};
use crate::dhgroups::DH_GROUPS;
use crate::names::CKM_T;
use crate::ops::{self, Kind};
use crate::p11::*;
use crate::props::{gen, kdf, wrap};
use crate::refc::{self, Bn};
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::collections::{BTreeMap, BTreeSet};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P30" => {
            let mut v = times(6 * k, |_| job("mech.config", 0, 22_000));
            v.extend(times(4 * k, |_| job("mech.matrix", 0, 22_000)));
            v.extend(times(3 * k, |_| job("mech.sizes", 0, 20_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, _arg: u64, r: &mut Rng) {
    let full = {
        let t = fresh("mech-full");
        let v: BTreeSet<CK_ULONG> = c::mech_list(t.slot).must("C_GetMechanismList").into_iter().collect();
        let f = v.iter().map(|m| (*m, c::mech_info(t.slot, *m).map(|i| i.flags).unwrap_or(0))).collect();
        t.end();
        f
    };
    let mut st = St { full, tries: BTreeMap::new() };
    while w::time_left() && w::viols() < 60 {
        match job {
            "mech.config" => config(&mut st, r),
            "mech.matrix" => matrix(&mut st, r),
            "mech.sizes" => sizes(r),
            _ => panic!("{}", job),
        }
    }
    for ((m, f), (n, okn, e)) in &st.tries {
        w::count("pairs-tried", 1);
        if *n >= 2 && *okn == 0 {
            viol!(["P30"], &format!("mech:never-works:{}:{:#x}", ckmn(*m), f), "{} is listed with flag {:#x} but none of {} valid uses succeeded, last {}", ckmn(*m), f, n, rvn(*e));
        }
    }
    if job == "mech.config" {
        let all: usize = st.full.values().map(|f| (f & USES).count_ones() as usize).sum();
        w::count("pairs-advertised", all as u64);
        for (m, f) in &st.full {
            for b in 0..40 {
                let x = 1 << b;
                if f & USES & x != 0 && !st.tries.contains_key(&(*m, x)) {
                    w::count(&format!("untried:{}:{:#x}", ckmn(*m), x), 1);
                }
            }
        }
    }
}
const USES: CK_FLAGS = CKF_ENCRYPT | CKF_DECRYPT | CKF_DIGEST | CKF_SIGN | CKF_VERIFY | CKF_GENERATE | CKF_GENERATE_KEY_PAIR | CKF_WRAP | CKF_UNWRAP | CKF_DERIVE | CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT;
struct St {
    full: BTreeMap<CK_ULONG, CK_FLAGS>,
    tries: BTreeMap<(CK_ULONG, CK_FLAGS), (u64, u64, RV)>,
}
/// one valid use of a mechanism
struct Use {
    m: M,
    flag: CK_FLAGS,
    /// a refusal may come from another mechanism it needs
    inner: bool,
    may_refuse: bool,
    what: String,
    go: Box<dyn Fn(H) -> R<()>>,
}
fn open_secret(kt: CK_ULONG) -> T {
    T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)
}
fn any_use(s: H, r: &mut Rng) -> Use {
    let mk = |m: M, flag: CK_FLAGS, what: String, go: Box<dyn Fn(H) -> R<()>>| Use { m, flag, inner: false, may_refuse: false, what, go };
    match r.below(22) {
        20 => {
            let kb = r.bytes(48);
            let (m, kt) = kdf::keymat_mech(r);
            let m2 = m.clone();
            Use {
                m,
                flag: CKF_DERIVE,
                inner: true,
                may_refuse: false,
                what: "key and MAC derivation".into(),
                go: Box::new(move |s| {
                    let b = c::create(s, &ops::gen_key(&kb).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)).must("C_CreateObject(key)");
                    let o = c::derive_nohandle(s, &m2, b, &open_secret(kt));
                    let _ = c::destroy(s, b);
                    o
                }),
            }
        }
        21 => {
            let i = ops::rsa_index(r);
            let n = ops::rsa_ref(i).k();
            match r.below(3) {
                0 => mk(M::new(CKM_PUB_KEY_FROM_PRIV_KEY), CKF_DERIVE, "RSA key".into(), Box::new(move |s| {
                    let k = c::create(s, &ops::rsa_priv(i)).must("C_CreateObject(key)");
                    let o = c::derive(s, &M::new(CKM_PUB_KEY_FROM_PRIV_KEY), k, &T::new());
                    let _ = c::destroy(s, k);
                    if let Ok(h) = o {
                        let _ = c::destroy(s, h);
                    }
                    o.map(|_| ())
                })),
                x => {
                    let (m, val) = (M::new(CKM_RSA_X_509), [vec![0], r.bytes(n - 1)].concat());
                    let blob = ops::rsa_ref(i).pubop(&val);
                    mk(m.clone(), if x == 1 { CKF_WRAP } else { CKF_UNWRAP }, "raw RSA".into(), Box::new(move |s| {
                        let wk = c::create(s, &if x == 1 { ops::rsa_pub(i) } else { ops::rsa_priv(i) }).must("C_CreateObject(key)");
                        let o = if x == 1 {
                            let t = c::create(s, &open_secret(CKK_GENERIC_SECRET).v(CKA_VALUE, &val)).must("C_CreateObject(key)");
                            let o = c::wrap(s, &m, wk, t).map(|_| ());
                            let _ = c::destroy(s, t);
                            o
                        } else {
                            c::unwrap(s, &m, wk, &blob, &open_secret(CKK_GENERIC_SECRET)).map(|h| {
                                let _ = c::destroy(s, h);
                            })
                        };
                        let _ = c::destroy(s, wk);
                        o
                    }))
                }
            }
        }
        0..=7 => {
            let cs = ops::any_case(r);
            let (m, f) = (cs.m.clone(), ops::flag(cs.kind));
            mk(m, f, cs.show(), Box::new(move |s| {
                let k = match &cs.key {
                    Some(t) => c::create(s, t).must("C_CreateObject(key)"),
                    None => 0,
                };
                let g = ops::run_one(s, &cs, k);
                if g.is_err() {
                    ops::reset(s, cs.kind);
                }
                if k != 0 {
                    let _ = c::destroy(s, k);
                }
                g.map(|_| ())
            }))
        }
        8..=10 => {
            let n = *r.pick(&[16usize, 24, 32]);
            let wm = loop {
                let wm = wrap::wmech(r, n, None);
                if (wm.fits)(n) {
                    break wm;
                }
            };
            let val = r.bytes(n);
            if r.bool() {
                let (m, wt) = (wm.m.clone(), wm.wt.clone());
                mk(wm.m.clone(), CKF_WRAP, wm.name.clone(), Box::new(move |s| {
                    let wk = c::create(s, &wt).must("C_CreateObject(key)");
                    let t = c::create(s, &open_secret(CKK_GENERIC_SECRET).v(CKA_VALUE, &val)).must("C_CreateObject(key)");
                    let o = c::wrap(s, &m, wk, t);
                    let _ = c::destroy(s, wk);
                    let _ = c::destroy(s, t);
                    o.map(|_| ())
                }))
            } else {
                let blob = (wm.enc)(&val, r);
                let (m, ut) = (wm.m.clone(), wm.ut.clone());
                mk(wm.m.clone(), CKF_UNWRAP, wm.name.clone(), Box::new(move |s| {
                    let wk = c::create(s, &ut).must("C_CreateObject(key)");
                    let mut t = open_secret(CKK_GENERIC_SECRET);
                    if m.ck().mechanism == CKM_AES_ECB || m.ck().mechanism == CKM_AES_CBC {
                        t = t.u(CKA_VALUE_LEN, n as CK_ULONG);
                    }
                    let o = c::unwrap(s, &m, wk, &blob, &t);
                    let _ = c::destroy(s, wk);
                    if let Ok(h) = o {
                        let _ = c::destroy(s, h);
                    }
                    o.map(|_| ())
                }))
            }
        }
        11..=14 => {
            let kd = kdf::case(s, r);
            let len = *r.pick(&kd.lens);
            let (m, base, gen) = (kd.m.clone(), kd.base, kd.gen);
            let t = if kd.data { T::new().u(CKA_CLASS, CKO_DATA) } else { open_secret(CKK_GENERIC_SECRET) };
            let nolen = kd.fam.starts_with("tls-master") || kd.fam.starts_with("extract");
            let t = if nolen { t } else { t.u(CKA_VALUE_LEN, len as CK_ULONG) };
            let what = format!("{} {}", kd.fam, t.show());
            Use {
                m: kd.m.clone(),
                flag: if gen { CKF_GENERATE } else { CKF_DERIVE },
                inner: true,
                may_refuse: kd.may_refuse || kd.bad.is_some(),
                what,
                go: Box::new(move |s| {
                    let o = if gen { c::generate_key(s, &m, &t) } else { c::derive(s, &m, base, &t) };
                    if let Ok(h) = o {
                        let _ = c::destroy(s, h);
                    }
                    o.map(|_| ())
                }),
            }
        }
        15 | 16 => {
            let (m, kt, len) = gen::sec_mech(r);
            let t = T::new().u(CKA_VALUE_LEN, len as CK_ULONG).u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, kt);
            let t = if r.chance(1, 6) { T::new().u(CKA_VALUE_LEN, 32) } else { t };
            let (m, t) = if t.has(CKA_CLASS) { (m, t) } else if r.bool() { (CKM_HOTP_KEY_GEN, t) } else { (CKM_GENERIC_SECRET_KEY_GEN, t) };
            let m = M::new(m);
            let m2 = m.clone();
            mk(m, CKF_GENERATE, t.show(), Box::new(move |s| {
                let o = c::generate_key(s, &m2, &t);
                if let Ok(h) = o {
                    let _ = c::destroy(s, h);
                }
                o.map(|_| ())
            }))
        }
        17 => {
            let (m, pt) = match r.below(8) {
                0 => (CKM_RSA_PKCS_KEY_PAIR_GEN, T::new().u(CKA_MODULUS_BITS, 1024)),
                1 => (CKM_DH_PKCS_KEY_PAIR_GEN, T::new().v(CKA_PRIME, &w::unhex(DH_GROUPS[0].2)).v(CKA_BASE, &[2])),
                2 | 3 => (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, T::new().v(CKA_EC_PARAMS, if r.bool() { &[6, 3, 0x2b, 0x65, 0x6e] } else { &[6, 3, 0x2b, 0x65, 0x6f] })),
                _ => (CKM_EC_KEY_PAIR_GEN, T::new().v(CKA_EC_PARAMS, r.pick(&refc::CURVES).oid)),
            };
            let m = M::new(m);
            let m2 = m.clone();
            mk(m, CKF_GENERATE_KEY_PAIR, pt.show(), Box::new(move |s| {
                let o = c::generate_pair(s, &m2, &pt, &T::new());
                if let Ok((a, b)) = o {
                    let _ = c::destroy(s, a);
                    let _ = c::destroy(s, b);
                }
                o.map(|_| ())
            }))
        }
        18 => {
            let sign = r.bool();
            let val = r.bytes(20);
            mk(M::new(CKM_HOTP), if sign { CKF_SIGN } else { CKF_VERIFY }, "HOTP".into(), Box::new(move |s| {
                let k = c::create(s, &T::new().u(CKA_CLASS, CKO_OTP_KEY).u(CKA_KEY_TYPE, CKK_HOTP).v(CKA_VALUE, &val).u(CKA_OTP_LENGTH, 6).b(CKA_SIGN, true).b(CKA_VERIFY, true)).must("C_CreateObject(HOTP)");
                let m = M::new(CKM_HOTP);
                let o = if sign {
                    c::sign_init(s, &m, k).and_then(|_| c::sign(s, b"").map(|_| ()))
                } else {
                    // the structure of a signature is built by a signing of the same key elsewhere
                    c::verify_init(s, &m, k).map(|_| {
                        let _ = c::session_cancel(s, CKF_VERIFY);
                    })
                };
                let _ = c::session_cancel(s, CKF_SIGN);
                let _ = c::destroy(s, k);
                o
            }))
        }
        _ => {
            let gcm = r.bool();
            let enc = r.bool();
            let m = M::new(if gcm { CKM_AES_GCM } else { CKM_AES_CCM });
            let m2 = m.clone();
            let kb = ops::keybytes(r);
            mk(m, if enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT }, "message".into(), Box::new(move |s| {
                let k = c::create(s, &ops::aes_key(&kb)).must("C_CreateObject(key)");
                let o = if enc { c::msg_encrypt_init(s, &m2, k) } else { c::msg_decrypt_init(s, &m2, k) };
                let o = o.and_then(|_| if enc { c::msg_encrypt_final(s) } else { c::msg_decrypt_final(s) });
                let _ = c::destroy(s, k);
                o
            }))
        }
    }
}
fn some_list(st: &St, r: &mut Rng) -> (String, BTreeMap<CK_ULONG, CK_FLAGS>) {
    let names: Vec<CK_ULONG> = st.full.keys().copied().filter(|m| ckmn(*m).starts_with("CKM_")).collect();
    if r.chance(1, 6) {
        return (String::new(), st.full.clone());
    }
    let deny = r.bool();
    let mut pick: BTreeSet<CK_ULONG> = BTreeSet::new();
    let n = match r.below(5) {
        0 => 1,
        1 => r.range(2, 6),
        2 => names.len() - r.range(1, 4),
        3 if deny => 0,
        _ => names.len() / 2,
    };
    while pick.len() < n {
        pick.insert(*r.pick(&names));
    }
    let mut l: Vec<CK_ULONG> = pick.iter().copied().collect();
    for i in (1..l.len()).rev() {
        l.swap(i, r.us(i + 1));
    }
    if !l.is_empty() && r.chance(1, 4) {
        l.push(l[0]);
    }
    let mut t: Vec<String> = l.iter().map(|m| format!("\"{}\"", ckmn(*m))).collect();
    if deny {
        t.insert(0, "\"DENY\"".into());
    }
    let want = st.full.iter().filter(|(m, _)| pick.contains(m) != deny).map(|(m, f)| (*m, *f)).collect();
    (format!("mechanisms = [{}]\n", t.join(", ")), want)
}
fn config(st: &mut St, r: &mut Rng) {
    let dir = scratch("mech");
    let lists = [some_list(st, r), some_list(st, r)];
    let mut sl = [sqlite(0, &dir, "a"), sqlite(3, &dir, "b")];
    for i in 0..2 {
        sl[i].extra = lists[i].0.clone();
    }
    let conf = write_conf(&dir, &sl);
    let r0 = c::initialize(Some(&conf));
    if let Err(e) = r0 {
        viol!(["P30"], "mech:config-refused", "C_Initialize with slots {:?} / {:?} gives {}", lists[0].0, lists[1].0, rvn(e));
        return;
    }
    for (i, slot) in [(0usize, 0u64), (1, 3)] {
        init_pins(slot);
        let (txt, want) = &lists[i];
        let got: Vec<CK_ULONG> = c::mech_list(slot).must("C_GetMechanismList");
        let gs: BTreeSet<CK_ULONG> = got.iter().copied().collect();
        let ws: BTreeSet<CK_ULONG> = want.keys().copied().collect();
        w::eval(&format!("list {} {}", txt.len(), w::hash64(txt.as_bytes())));
        if gs != ws || gs.len() != got.len() {
            let ex: Vec<String> = gs.difference(&ws).take(6).map(|m| ckmn(*m)).collect();
            let mi: Vec<String> = ws.difference(&gs).take(6).map(|m| ckmn(*m)).collect();
            viol!(["P30"], "mech:list", "slot {} with {}: C_GetMechanismList has {} entries; unexpected {:?}, missing {:?}", slot, txt, got.len(), ex, mi);
        }
        for (m, f) in &st.full {
            let i = c::mech_info(slot, *m);
            match want.get(m) {
                Some(_) => {
                    if i.as_ref().map(|i| i.flags) != Ok(*f) {
                        viol!(["P30"], "mech:info", "slot {} with {}: C_GetMechanismInfo({}) gives {:?}, without restriction flags {:#x}", slot, txt, ckmn(*m), i.map(|i| i.flags).map_err(rvn), f);
                    }
                }
                None => {
                    if rvof(&i) != CKR_MECHANISM_INVALID {
                        viol!(["P30"], "mech:info-denied", "slot {} with {}: C_GetMechanismInfo({}) gives {}", slot, txt, ckmn(*m), rn(&i));
                    }
                }
            }
        }
    }
    for round in 0..6 {
        for (i, slot) in [(0usize, 0u64), (1, 3)] {
            let (txt, want) = &lists[i];
            let s = c::open(slot, r.bool()).must("C_OpenSession");
            c::login(s, CKU_USER, USER).must("C_Login");
            for _ in 0..if txt.is_empty() { 60 } else { 25 } {
                attempt(st, s, want, txt, r);
            }
            c::close(s).must("C_CloseSession");
        }
        if !w::time_left() {
            break;
        }
        if round == 2 {
            // the restriction survives a restart
            c::finalize().must("C_Finalize");
            c::initialize(Some(&conf)).must("C_Initialize");
        }
    }
    c::finalize().must("C_Finalize");
    let _ = std::fs::remove_dir_all(&dir);
}
fn attempt(st: &mut St, s: H, want: &BTreeMap<CK_ULONG, CK_FLAGS>, txt: &str, r: &mut Rng) {
    let u = any_use(s, r);
    let ty = u.m.ck().mechanism;
    let o = (u.go)(s);
    let listed = want.get(&ty).map(|f| f & u.flag != 0).unwrap_or(false);
    let lim = !txt.is_empty();
    w::eval(&format!("use {} {:#x} {} {}", ckmn(ty), u.flag, listed, lim));
    if !listed {
        w::count("denied-uses", 1);
        if rvof(&o) != CKR_MECHANISM_INVALID {
            viol!(["P30"], &format!("mech:unlisted-used:{}:{:#x}", ckmn(ty), u.flag), "{} (flag {:#x}) is not advertised by the slot with {}: using it gives {} ({})", ckmn(ty), u.flag, if lim { txt } else { "no restriction" }, rn(&o), u.what);
        }
        return;
    }
    w::count("allowed-uses", 1);
    if lim && u.inner && o.is_err() {
        return;
    }
    if u.may_refuse && o.is_err() {
        return;
    }
    let e = st.tries.entry((ty, u.flag)).or_insert((0, 0, 0));
    e.0 += 1;
    match o {
        Ok(()) => e.1 += 1,
        Err(x) => {
            e.2 = x;
            // a mechanism that is advertised must not be called invalid
            if x == CKR_MECHANISM_INVALID {
                viol!(["P30"], &format!("mech:listed-refused:{}:{:#x}", ckmn(ty), u.flag), "{} (flag {:#x}) is advertised by the slot with {}: using it gives {} ({})", ckmn(ty), u.flag, if lim { txt } else { "no restriction" }, rvn(x), u.what);
            }
        }
    }
}
// ------------------------------------------------------------------ every number with every function
fn matrix(st: &mut St, r: &mut Rng) {
    let dir = scratch("mech");
    let (txt, want) = if r.chance(1, 3) { (String::new(), st.full.clone()) } else { some_list(st, r) };
    let mut sl = sqlite(0, &dir, "a");
    sl.extra = txt.clone();
    let conf = write_conf(&dir, &[sl]);
    c::initialize(Some(&conf)).must("C_Initialize");
    init_pins(0);
    let s = c::open(0, true).must("C_OpenSession");
    c::login(s, CKU_USER, USER).must("C_Login");
    let dec = |t: T| c::create(s, &t).must("C_CreateObject(key)");
    let kb = r.bytes(32);
    let cv = *r.pick(&refc::CURVES);
    let d = ops::ec_scalar(cv, r);
    let pt = refc::ec_mul(cv, &d, None).unwrap();
    let aes = dec(ops::aes_key(&kb));
    let all = |t: T| t.setb(CKA_WRAP, true).setb(CKA_UNWRAP, true).setb(CKA_DERIVE, true).setb(CKA_ENCRYPT, true).setb(CKA_DECRYPT, true).setb(CKA_SIGN, true).setb(CKA_VERIFY, true);
    let gs = dec(all(ops::gen_key(&kb)));
    let (ri, eck) = (ops::rsa_index(r), dec(ops::ec_priv_t(cv, &d).setb(CKA_DERIVE, true).setb(CKA_SIGN, true)));
    let (rpub, rpriv) = (dec(ops::rsa_pub(ri)), dec(ops::rsa_priv(ri)));
    let ecp = dec(ops::ec_pub_t(cv, &pt));
    let mon = dec(kdf::mont_t(false, &kb));
    let dh = dec(kdf::dh_t(0, &kb));
    let target = dec(open_secret(CKK_GENERIC_SECRET).v(CKA_VALUE, &kb[..16]));
    let mut list: Vec<CK_ULONG> = CKM_T.iter().map(|x| x.0).collect();
    for _ in 0..60 {
        let m = match r.below(5) {
            0 => r.below(0x4100),
            1 => *r.pick(&list) + r.range(1, 3) as u64,
            2 => *r.pick(&list) | 1 << 32,
            3 => 0x8000_0000 | r.below(0x4100),
            _ => r.next(),
        };
        list.push(m);
    }
    list.push(CK_ULONG::MAX);
    list.sort();
    list.dedup();
    for m in list {
        let fl = want.get(&m).copied();
        let info = c::mech_info(0, m);
        if info.as_ref().ok().map(|i| i.flags) != fl || fl.is_none() && rvof(&info) != CKR_MECHANISM_INVALID {
            viol!(["P30"], "mech:info-number", "C_GetMechanismInfo({}) gives {:?} with {}", ckmn(m), info.map(|i| i.flags).map_err(rvn), txt);
        }
        for use_ in 0..18u32 {
            if fl.is_some() && !r.chance(1, 2) {
                continue;
            }
            let key = match use_ {
                0 | 1 => *r.pick(&[aes, aes, if use_ == 0 { rpub } else { rpriv }]),
                2 => 0,
                3 | 5 => *r.pick(&[aes, gs, rpriv, eck]),
                4 | 6 | 7 => *r.pick(&[aes, gs, rpub, ecp]),
                8 | 9 => aes,
                10 | 11 => *r.pick(&[gs, rpriv]),
                14 => *r.pick(&[aes, rpub]),
                15 => *r.pick(&[aes, rpriv]),
                16 => *r.pick(&[aes, gs, eck, mon, dh]),
                _ => 0,
            };
            let mech = match r.below(4) {
                0 => M::raw(m, &[0; 16]),
                1 => M::raw(m, &8u64.to_ne_bytes()),
                _ => M::new(m),
            };
            let pub_t = match r.below(3) {
                0 => T::new().u(CKA_MODULUS_BITS, 1024),
                1 => T::new().v(CKA_EC_PARAMS, cv.oid),
                _ => T::new(),
            };
            let sec_t = open_secret(CKK_GENERIC_SECRET).u(CKA_VALUE_LEN, 16);
            let mut o: R<()> = Ok(());
            let (need, name): (CK_FLAGS, &str) = match use_ {
                0 => (CKF_ENCRYPT, "C_EncryptInit"),
                1 => (CKF_DECRYPT, "C_DecryptInit"),
                2 => (CKF_DIGEST, "C_DigestInit"),
                3 => (CKF_SIGN, "C_SignInit"),
                4 => (CKF_VERIFY, "C_VerifyInit"),
                5 => (0, "C_SignRecoverInit"),
                6 => (0, "C_VerifyRecoverInit"),
                7 => (CKF_VERIFY, "C_VerifySignatureInit"),
                8 => (CKF_MESSAGE_ENCRYPT, "C_MessageEncryptInit"),
                9 => (CKF_MESSAGE_DECRYPT, "C_MessageDecryptInit"),
                10 => (0, "C_MessageSignInit"),
                11 => (0, "C_MessageVerifyInit"),
                12 => (CKF_GENERATE, "C_GenerateKey"),
                13 => (CKF_GENERATE_KEY_PAIR, "C_GenerateKeyPair"),
                14 => (CKF_WRAP, "C_WrapKey"),
                15 => (CKF_UNWRAP, "C_UnwrapKey"),
                16 => (CKF_DERIVE, "C_DeriveKey"),
                _ => (CKF_DERIVE, "C_DeriveKey(no handle)"),
            };
            let can = fl.map(|f| need != 0 && f & need != 0).unwrap_or(false);
            if can && (use_ == 12 || use_ == 13 || use_ == 16 || use_ == 17) {
                continue;
            }
            match use_ {
                0 => o = c::encrypt_init(s, &mech, key),
                1 => o = c::decrypt_init(s, &mech, key),
                2 => o = c::digest_init(s, &mech),
                3 => o = c::sign_init(s, &mech, key),
                4 => o = c::verify_init(s, &mech, key),
                5 => o = c::sign_recover_init(s, &mech, key),
                6 => o = c::verify_recover_init(s, &mech, key),
                7 => o = c::verify_signature_init(s, &mech, key, &kb),
                8 => o = c::msg_encrypt_init(s, &mech, key),
                9 => o = c::msg_decrypt_init(s, &mech, key),
                10 => o = c::msg_sign_init(s, &mech, key),
                11 => o = c::msg_verify_init(s, &mech, key),
                12 => o = c::generate_key(s, &mech, &if r.bool() { sec_t } else { T::new().u(CKA_VALUE_LEN, 16) }).map(|h| { let _ = c::destroy(s, h); }),
                13 => o = c::generate_pair(s, &mech, &pub_t, &T::new()).map(|(a, b)| { let _ = c::destroy(s, a); let _ = c::destroy(s, b); }),
                14 => o = c::wrap(s, &mech, key, target).map(|_| ()),
                15 => {
                    let n = *r.pick(&[16usize, 24, 32, 128]);
                    let b = r.bytes(n);
                    o = c::unwrap(s, &mech, key, &b, &sec_t.del(CKA_VALUE_LEN)).map(|h| { let _ = c::destroy(s, h); });
                }
                16 => o = c::derive(s, &mech, key, &sec_t).map(|h| { let _ = c::destroy(s, h); }),
                _ => o = c::derive_nohandle(s, &mech, gs, &sec_t),
            }
            w::eval(&format!("{} {} {}", name, ckmn(m), rn(&o)));
            if o.is_ok() {
                if use_ < 12 {
                    let _ = c::session_cancel(s, CKF_ENCRYPT | CKF_DECRYPT | CKF_DIGEST | CKF_SIGN | CKF_VERIFY | CKF_SIGN_RECOVER | CKF_VERIFY_RECOVER | CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT | CKF_MESSAGE_SIGN | CKF_MESSAGE_VERIFY);
                    if use_ == 7 {
                        let _ = c::verify_signature(s, b"x");
                    }
                }
            }
            let _ = &mut o;
            verdict(m, fl, need, can, name, &o, &mech, &txt);
        }
    }
    c::finalize().must("C_Finalize");
    let _ = std::fs::remove_dir_all(&dir);
}
fn verdict(m: CK_ULONG, fl: Option<CK_FLAGS>, need: CK_FLAGS, can: bool, name: &str, o: &R<()>, mech: &M, txt: &str) {
    let rv = rvof(o);
    if fl.is_none() {
        w::count("unlisted-calls", 1);
        // functions the library does not have at all
        if need == 0 && rv == CKR_FUNCTION_NOT_SUPPORTED {
            return;
        }
        if rv != CKR_MECHANISM_INVALID {
            viol!(["P30"], &format!("mech:unlisted:{}:{}", name, rvn(rv)), "{} with {}, which is not in C_GetMechanismList, gives {} ({})", name, mech.show(), rvn(rv), txt);
        }
    } else if !can {
        w::count("wrong-function-calls", 1);
        if rv == 0 {
            viol!(["P30"], &format!("mech:unflagged:{}:{}", name, ckmn(m)), "{} with {}, listed with flags {:#x} only, gives CKR_OK", name, mech.show(), fl.unwrap());
        }
    }
}
// ------------------------------------------------------------------ key sizes
fn rnd_odd(bits: usize, r: &mut Rng) -> Vec<u8> {
    let n = bits.div_ceil(8);
    let mut v = r.bytes(n);
    let top = (bits - 1) % 8;
    v[0] &= ((1u16 << (top + 1)) - 1) as u8;
    v[0] |= 1 << top;
    v[n - 1] |= 1;
    v
}
fn refused(what: &str, sig: &str, o: R<()>) {
    w::eval(what);
    w::count("sizes-tried", 1);
    if o.is_ok() {
        viol!(["P30"], &format!("mech:size:{}", sig), "{} succeeds", what);
    }
}
fn sizes(r: &mut Rng) {
    let t = fresh("mech-size");
    let s = t.rw_user();
    let info = |m: CK_ULONG| c::mech_info(0, m).must("C_GetMechanismInfo");
    // a use that works proves the driver; a size outside must not
    for _ in 0..40 {
        if !w::time_left() {
            break;
        }
        match r.below(8) {
            0 | 1 => {
                // RSA public keys by size
                let mechs: [(CK_ULONG, CK_FLAGS); 9] = [(CKM_RSA_PKCS, CKF_ENCRYPT), (CKM_RSA_X_509, CKF_ENCRYPT), (CKM_RSA_PKCS_OAEP, CKF_ENCRYPT), (CKM_RSA_PKCS, CKF_VERIFY), (CKM_SHA256_RSA_PKCS, CKF_VERIFY), (CKM_SHA1_RSA_PKCS_PSS, CKF_VERIFY), (CKM_RSA_PKCS, CKF_WRAP), (CKM_RSA_PKCS_OAEP, CKF_WRAP), (CKM_SHA512_RSA_PKCS, CKF_VERIFY)];
                let (ty, fl) = *r.pick(&mechs);
                let i = info(ty);
                let bits = match r.below(8) {
                    0 => i.ulMinKeySize as usize - r.range(1, 9),
                    1 => i.ulMinKeySize as usize - 8,
                    2 => r.range(64, 1000),
                    3 => 512,
                    4 => i.ulMaxKeySize as usize + r.range(1, 9),
                    5 => i.ulMaxKeySize as usize + 8 * r.range(1, 40),
                    6 => i.ulMinKeySize as usize,
                    _ => 8 * r.range(i.ulMinKeySize as usize / 8, 300),
                };
                let inside = bits >= i.ulMinKeySize as usize && bits <= i.ulMaxKeySize as usize;
                let mut n = rnd_odd(bits, r);
                let pad = r.chance(1, 3);
                if pad && !inside && bits < 1024 {
                    // leading zeros do not make a key longer
                    let k = (i.ulMinKeySize as usize / 8).max(n.len() + 1);
                    let mut z = vec![0; k.max(n.len()) - n.len()];
                    z.extend(&n);
                    n = z;
                }
                let kt = T::new().u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_RSA).v(CKA_MODULUS, &n).v(CKA_PUBLIC_EXPONENT, &[1, 0, 1]).b(CKA_ENCRYPT, true).b(CKA_VERIFY, true).b(CKA_WRAP, true);
                let m = match ty {
                    CKM_RSA_PKCS_OAEP => ops::oaep_m(CKM_SHA_1, CKG_MGF1_SHA1, b""),
                    CKM_SHA1_RSA_PKCS_PSS => ops::pss_m(ty, CKM_SHA_1, CKG_MGF1_SHA1, 20),
                    _ => M::new(ty),
                };
                let what = format!("{} ({:#x}) with a {}-bit RSA key{}", ckmn(ty), fl, bits, if pad { " with leading zeros" } else { "" });
                let o = c::create(s, &kt).and_then(|h| {
                    let o = match fl {
                        CKF_ENCRYPT => {
                            let mut d = vec![0u8; n.len()];
                            d[n.len() - 1] = 2;
                            let d = if ty == CKM_RSA_X_509 { &d[..] } else { &b"hello"[..] };
                            c::encrypt_init(s, &m, h).and_then(|_| c::encrypt_o(s, d, Some(n.len() + 16)).val().map(|_| ()))
                        }
                        CKF_VERIFY => c::verify_init(s, &m, h),
                        _ => {
                            let k = c::create(s, &open_secret(CKK_GENERIC_SECRET).v(CKA_VALUE, &[7; 16])).must("C_CreateObject");
                            let o = c::wrap(s, &m, h, k).map(|_| ());
                            let _ = c::destroy(s, k);
                            o
                        }
                    };
                    let _ = c::session_cancel(s, CKF_ENCRYPT | CKF_VERIFY);
                    let _ = c::destroy(s, h);
                    o
                });
                if inside {
                    w::eval(&what);
                    if let Err(e) = o {
                        viol!(["P30"], &format!("mech:inside:{}:{:#x}", ckmn(ty), fl), "{} (range {}..{}): {}", what, i.ulMinKeySize, i.ulMaxKeySize, rvn(e));
                    }
                } else {
                    refused(&what, &format!("rsa:{}:{:#x}:{}:{}", ckmn(ty), fl, if bits < 1024 { "small" } else { "large" }, pad), o);
                }
            }
            2 => {
                // RSA private keys
                let bits = *r.pick(&[512usize, 768, 1000, 1016, 1020]);
                let kt = small_rsa(bits, r);
                {
                    let (ty, fl) = *r.pick(&[(CKM_RSA_PKCS, CKF_SIGN), (CKM_RSA_PKCS, CKF_DECRYPT), (CKM_SHA256_RSA_PKCS, CKF_SIGN), (CKM_RSA_X_509, CKF_SIGN), (CKM_RSA_PKCS, CKF_UNWRAP)]);
                    let m = M::new(ty);
                    let what = format!("{} ({:#x}) with a {}-bit RSA private key", ckmn(ty), fl, bits);
                    let o = c::create(s, &kt).and_then(|h| {
                        let n = bits.div_ceil(8);
                        let mut d = vec![0u8; n];
                        d[n - 1] = 2;
                        let o = match fl {
                            CKF_SIGN => c::sign_init(s, &m, h).and_then(|_| c::sign_o(s, if ty == CKM_RSA_X_509 { &d } else { b"hello" }, Some(n)).val().map(|_| ())),
                            CKF_DECRYPT => c::decrypt_init(s, &m, h),
                            _ => c::unwrap(s, &m, h, &d, &open_secret(CKK_GENERIC_SECRET)).map(|_| ()),
                        };
                        let _ = c::session_cancel(s, CKF_SIGN | CKF_DECRYPT);
                        let _ = c::destroy(s, h);
                        o
                    });
                    refused(&what, &format!("rsa-private:{}:{:#x}", ckmn(ty), fl), o);
                }
            }
            3 => {
                let bits = match r.below(4) {
                    0 => r.range(0, 1023),
                    1 => 16385 + r.range(0, 100),
                    2 => *r.pick(&[0usize, 1, 8, 512, 1016, 1023, 16392, 32768]),
                    _ => r.range(20000, 1 << 30),
                };
                let what = format!("C_GenerateKeyPair(RSA, {} bits)", bits);
                refused(&what, "rsa-gen", c::generate_pair(s, &M::new(CKM_RSA_PKCS_KEY_PAIR_GEN), &T::new().u(CKA_MODULUS_BITS, bits as CK_ULONG), &T::new()).map(|_| ()));
            }
            4 => {
                // AES keys
                let i = info(CKM_AES_KEY_GEN);
                if (i.ulMinKeySize, i.ulMaxKeySize) != (16, 32) {
                    viol!(["P30"], "mech:aes-range", "CKM_AES_KEY_GEN advertises {}..{}", i.ulMinKeySize, i.ulMaxKeySize);
                }
                let n = loop {
                    let n = if r.bool() { r.range(1, 40) } else { *r.pick(&[8usize, 15, 17, 20, 28, 31, 33, 48, 64, 128]) };
                    if n != 16 && n != 24 && n != 32 {
                        break n;
                    }
                };
                let v = r.bytes(n);
                let how = r.below(5);
                let what = format!("an AES key of {} bytes by way {}", n, how);
                let kt = T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES);
                let o = match how {
                    0 => c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &T::new().u(CKA_VALUE_LEN, n as CK_ULONG)),
                    1 => c::create(s, &ops::aes_key(&v)),
                    2 => {
                        let k = c::create(s, &ops::aes_key(&[5; 16])).must("C_CreateObject");
                        let b = refc::kwp(&[5; 16], &v, &[0xa6, 0x59, 0x59, 0xa6]);
                        c::unwrap(s, &M::new(CKM_AES_KEY_WRAP_KWP), k, &b, &kt)
                    }
                    3 => {
                        let k = c::create(s, &ops::gen_key(&v)).must("C_CreateObject");
                        c::derive(s, &M::new(CKM_SHA512_KEY_DERIVATION), k, &kt.u(CKA_VALUE_LEN, n as CK_ULONG))
                    }
                    _ => {
                        let k = c::create(s, &ops::gen_key(&v)).must("C_CreateObject");
                        let a = arc(&[1; 16]);
                        let p = CK_KEY_DERIVATION_STRING_DATA { pData: aptr(&a), ulLen: 16 };
                        c::derive(s, &M::st(CKM_CONCATENATE_BASE_AND_DATA, &p, vec![a], "data"), k, &kt.u(CKA_VALUE_LEN, n as CK_ULONG))
                    }
                };
                refused(&what, &format!("aes:{}", how), o.map(|_| ()));
            }
            5 => {
                // EC curves that are not advertised
                let names: [(&str, &[u8]); 7] = [
                    ("secp224r1", &[6, 5, 0x2b, 0x81, 4, 0, 0x21]),
                    ("prime192v1", &[6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 1]),
                    ("secp160r1", &[6, 5, 0x2b, 0x81, 4, 0, 8]),
                    ("sect571r1", &[6, 5, 0x2b, 0x81, 4, 0, 0x27]),
                    ("ed25519 (EC)", &[6, 3, 0x2b, 0x65, 0x70]),
                    ("x25519 (EC)", &[6, 3, 0x2b, 0x65, 0x6e]),
                    ("secp112r1", &[6, 5, 0x2b, 0x81, 4, 0, 6]),
                ];
                let (nm, oid) = *r.pick(&names);
                let o = c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, oid), &T::new());
                refused(&format!("C_GenerateKeyPair(EC, {})", nm), "ec-gen", o.map(|_| ()));
                let o = c::generate_pair(s, &M::new(CKM_EC_MONTGOMERY_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, if nm.starts_with("x25") { refc::CURVES[0].oid } else { oid }), &T::new());
                refused(&format!("C_GenerateKeyPair(Montgomery, {})", nm), "mont-gen", o.map(|_| ()));
            }
            6 => {
                // DH primes
                let i = info(CKM_DH_PKCS_KEY_PAIR_GEN);
                let bits = match r.below(4) {
                    0 => i.ulMinKeySize as usize - r.range(1, 9),
                    1 => r.range(256, 2000),
                    2 => *r.pick(&[512usize, 768, 1024, 1536]),
                    _ => i.ulMaxKeySize as usize + r.range(1, 64),
                };
                let p = rnd_odd(bits, r);
                let o = c::generate_pair(s, &M::new(CKM_DH_PKCS_KEY_PAIR_GEN), &T::new().v(CKA_PRIME, &p).v(CKA_BASE, &[2]), &T::new());
                refused(&format!("C_GenerateKeyPair(DH, {} bits)", bits), "dh-gen", o.map(|_| ()));
                let x = r.bytes(32);
                let kt = T::new().u(CKA_CLASS, CKO_PRIVATE_KEY).u(CKA_KEY_TYPE, CKK_DH).v(CKA_PRIME, &p).v(CKA_BASE, &[2]).v(CKA_VALUE, &x).b(CKA_DERIVE, true);
                let peer = arc(&rnd_odd(bits - 2, r));
                let mut m = M::raw(CKM_DH_PKCS_DERIVE, &peer);
                m = m.setlen(peer.len());
                let o = c::create(s, &kt).and_then(|h| c::derive(s, &m, h, &open_secret(CKK_GENERIC_SECRET)));
                refused(&format!("C_DeriveKey(DH, {} bits)", bits), "dh-derive", o.map(|_| ()));
            }
            _ => {
                // HOTP
                let i = info(CKM_HOTP_KEY_GEN);
                let n = if r.bool() { r.range(0, i.ulMinKeySize as usize - 1) } else { i.ulMaxKeySize as usize + r.range(1, 100) };
                let v = r.bytes(n);
                let o = c::generate_key(s, &M::new(CKM_HOTP_KEY_GEN), &T::new().u(CKA_VALUE_LEN, n as CK_ULONG));
                refused(&format!("C_GenerateKey(HOTP, {} bytes)", n), "hotp-gen", o.map(|_| ()));
                let o = c::create(s, &T::new().u(CKA_CLASS, CKO_OTP_KEY).u(CKA_KEY_TYPE, CKK_HOTP).v(CKA_VALUE, &v).u(CKA_OTP_LENGTH, 6)).and_then(|h| c::sign_init(s, &M::new(CKM_HOTP), h).and_then(|_| c::sign(s, b"").map(|_| ())));
                let _ = c::session_cancel(s, CKF_SIGN);
                refused(&format!("HOTP with a key of {} bytes", n), "hotp-use", o);
            }
        }
    }
    t.end();
}
/// an RSA private key with a modulus of this many bits, too small for the token
fn small_rsa(bits: usize, r: &mut Rng) -> T {
    let prime = |bits: usize, r: &mut Rng| loop {
        let mut v = rnd_odd(bits, r);
        let top = (bits - 1) % 8;
        if top == 0 {
            v[1] |= 0x80
        } else {
            v[0] |= 1 << (top - 1)
        }
        let b = Bn::from(&v);
        if b.prime() {
            break b;
        }
    };
    let one = Bn::u(1);
    let (p, q, n, d) = loop {
        let p = prime(bits / 2, r);
        let q = prime(bits - bits / 2, r);
        let n = p.mul(&q);
        let phi = p.sub(&one).mul(&q.sub(&one));
        if n.bits() != bits {
            continue;
        }
        if let Some(d) = Bn::u(65537).inv(&phi) {
            break (p.bytes(), q.bytes(), n.bytes(), d.bytes());
        }
    };
        T::new()
            .u(CKA_CLASS, CKO_PRIVATE_KEY)
            .u(CKA_KEY_TYPE, CKK_RSA)
            .v(CKA_MODULUS, &n)
            .v(CKA_PUBLIC_EXPONENT, &[1, 0, 1])
            .v(CKA_PRIVATE_EXPONENT, &d)
            .v(CKA_PRIME_1, &p)
            .v(CKA_PRIME_2, &q)
            .b(CKA_SIGN, true)
            .b(CKA_DECRYPT, true)
            .b(CKA_UNWRAP, true)
}
