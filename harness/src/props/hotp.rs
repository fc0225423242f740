//! HOTP keys: each counter is used once (P28).
use crate::c::{self, *};
use crate::p11::*;
use crate::shim;
use crate::sql::Db;
use crate::tok::*;
use crate::w::{self, hex, Rng};
use crate::{job, ops, refc, times, viol, Job};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P28" => {
            let mut v = times(5 * k, |_| job("hotp.hist", 0, 20_000));
            v.extend(times(5 * k, |_| job("hotp.threads", 0, 20_000)));
            v.extend(times(4 * k, |_| job("hotp.disk", 0, 20_000).shim()));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, _arg: u64, r: &mut Rng) {
    while w::time_left() && w::viols() < 30 {
        match job {
            "hotp.hist" => hist(r),
            "hotp.threads" => threads(r),
            "hotp.disk" => disk(r),
            _ => panic!("{}", job),
        }
    }
}
const SIZES: [(usize, refc::Hash); 3] = [(20, refc::SHA1), (32, refc::SHA256), (64, refc::SHA512)];
#[derive(Clone)]
struct K {
    h: H,
    val: Vec<u8>,
    hash: refc::Hash,
    digits: u32,
    ctr: u64,
    req: CK_ULONG,
    token: bool,
    label: String,
}
impl K {
    fn otp(&self, c: u64) -> Vec<u8> {
        refc::hotp(self.hash, &self.val, c, self.digits).into_bytes()
    }
    fn random(r: &mut Rng, token: bool) -> (K, T) {
        let (n, hash) = *r.pick(&SIZES);
        let val = r.bytes(n);
        let ctr = match r.below(5) {
            0 => 0,
            1 => u64::MAX - r.below(8),
            2 => (1 << 32) - r.below(4) - 1,
            3 => 255,
            _ => r.below(1 << 40),
        };
        let digits = *r.pick(&[6u32, 7, 8]);
        let req = *r.pick(&[CK_OTP_PARAM_IGNORED, CK_OTP_PARAM_IGNORED, CK_OTP_PARAM_OPTIONAL, CK_OTP_PARAM_MANDATORY]);
        let label = format!("hotp-{}", hex(&r.bytes(6)));
        let mut t = T::new().u(CKA_CLASS, CKO_OTP_KEY).u(CKA_KEY_TYPE, CKK_HOTP).v(CKA_VALUE, &val).b(CKA_TOKEN, token).b(CKA_PRIVATE, r.bool()).s(CKA_LABEL, &label).b(CKA_SENSITIVE, r.bool()).u(CKA_OTP_LENGTH, digits as CK_ULONG);
        if ctr != 0 || r.bool() {
            t = t.v(CKA_OTP_COUNTER, &ctr.to_be_bytes());
        }
        if req != CK_OTP_PARAM_IGNORED {
            t = t.u(CKA_OTP_COUNTER_REQUIREMENT, req);
        }
        (K { h: 0, val, hash, digits, ctr, req, token, label }, t)
    }
    fn create(s: H, r: &mut Rng, token: bool) -> K {
        let (mut k, t) = K::random(r, token);
        k.h = c::create(s, &t).must("C_CreateObject(HOTP)");
        k
    }
}
/// mechanism with a counter from the caller
fn with_counter(v: u64) -> M {
    let val = arc(&v.to_be_bytes());
    let p = CK_OTP_PARAM { type_: CK_OTP_COUNTER, pValue: aptr(&val) as *mut _, ulValueLen: 8 };
    let pb = arc(unsafe { std::slice::from_raw_parts(&p as *const _ as *const u8, std::mem::size_of::<CK_OTP_PARAM>()) });
    let ps = CK_OTP_PARAMS { pParams: aptr(&pb) as *mut _, ulCount: 1 };
    M::st(CKM_HOTP, &ps, vec![val, pb], &format!("counter {}", v))
}
/// the value inside the signature structure
fn value(b: &[u8], digits: u32) -> Option<Vec<u8>> {
    let n = std::mem::size_of::<CK_OTP_SIGNATURE_INFO>() + std::mem::size_of::<CK_OTP_PARAM>();
    if b.len() != n + digits as usize {
        return None;
    }
    let u = |i: usize| CK_ULONG::from_ne_bytes(b[i..i + 8].try_into().unwrap());
    if u(8) != 1 || u(16) != CK_OTP_VALUE || u(32) != digits as CK_ULONG {
        return None;
    }
    Some(b[n..].to_vec())
}
fn counter(s: H, k: H) -> R<u64> {
    let v = c::attr(s, k, CKA_OTP_COUNTER)?;
    if v.len() != 8 {
        return Err(CKR_GENERAL_ERROR);
    }
    Ok(u64::from_be_bytes(v.try_into().unwrap()))
}

enum Pend {
    Sign(usize, Option<u64>),
    Ver(usize, Option<u64>),
}
fn hist(r: &mut Rng) {
    let t = fresh("hotp");
    let mut ss: Vec<H> = (0..3).map(|_| t.rw_user()).collect();
    let mut ks: Vec<K> = vec![];
    let mut pend: Vec<Option<Pend>> = vec![None, None, None];
    let mut shown: BTreeMap<(usize, u64), u32> = BTreeMap::new();
    for step in 0..400 {
        if !w::time_left() {
            break;
        }
        if ks.len() < 3 || (ks.len() < 6 && r.chance(1, 30)) {
            let tk = r.chance(3, 4);
            let (s, i) = (ss[r.us(3)], ks.len());
            ks.push(K::create(s, r, tk));
            let _ = i;
            continue;
        }
        if r.chance(1, 60) {
            // restart: session keys go away, counters of token keys stay
            t.restart();
            ss = (0..3).map(|_| t.rw_user()).collect();
            pend = vec![None, None, None];
            let mut nk = vec![];
            let mut moved = BTreeMap::new();
            for (i, mut k) in ks.drain(..).enumerate() {
                if !k.token {
                    continue;
                }
                let f = c::find(ss[0], &T::new().s(CKA_LABEL, &k.label)).must("C_FindObjects");
                if f.len() != 1 {
                    viol!(["P28", "P09"], "key-lost", "HOTP key {} found {} times after restart", k.label, f.len());
                    continue;
                }
                k.h = f[0];
                for ((a, b), n) in &shown {
                    if *a == i {
                        moved.insert((nk.len(), *b), *n);
                    }
                }
                nk.push(k);
            }
            ks = nk;
            shown = moved;
        }
        if ks.is_empty() {
            continue;
        }
        let si = r.us(3);
        let s = ss[si];
        match pend[si].take() {
            None => {
                let ki = r.us(ks.len());
                let k = &ks[ki];
                let over = if r.chance(1, 3) || k.req == CK_OTP_PARAM_MANDATORY && r.chance(4, 5) { Some(if r.chance(1, 6) { u64::MAX } else { r.below(1 << 33) }) } else { None };
                let m = match over {
                    Some(v) => with_counter(v),
                    None => M::new(CKM_HOTP),
                };
                let sign = r.chance(2, 3);
                let rv = if sign { c::sign_init(s, &m, k.h) } else { c::verify_init(s, &m, k.h) };
                let refuse = over.is_none() && k.req == CK_OTP_PARAM_MANDATORY;
                if refuse != rv.is_err() {
                    viol!(["P28"], "init", "HOTP init with requirement {} and {} returned {}", k.req, m.show(), rn(&rv));
                }
                w::eval(&format!("init/{}/{}/{}", sign, k.req, over.is_some()));
                if rv.is_ok() {
                    let over = if k.req == CK_OTP_PARAM_IGNORED { None } else { over };
                    pend[si] = Some(if sign { Pend::Sign(ki, over) } else { Pend::Ver(ki, over) });
                }
            }
            Some(Pend::Sign(ki, over)) => {
                let k = ks[ki].clone();
                match r.below(8) {
                    0 => {
                        // given up: nothing is used
                        c::session_cancel(s, CKF_SIGN).must("C_SessionCancel");
                        w::eval("sign/cancel");
                    }
                    1 => {
                        let o = c::sign_o(s, b"", Some(r.us(45)));
                        if o.rv != CKR_BUFFER_TOO_SMALL {
                            viol!(["P28"], "short-buffer", "C_Sign into a short buffer returned {}", rvn(o.rv));
                        } else {
                            pend[si] = Some(Pend::Sign(ki, over));
                        }
                        w::eval("sign/short");
                    }
                    2 => {
                        let o = c::sign_o(s, b"", None);
                        if o.rv != CKR_OK {
                            viol!(["P28"], "length-query", "C_Sign length query returned {}", rvn(o.rv));
                        }
                        pend[si] = Some(Pend::Sign(ki, over));
                        w::eval("sign/query");
                    }
                    _ => {
                        let fin = r.chance(1, 4);
                        let o = if fin { c::sign_final(s) } else { c::sign(s, b"") };
                        if fin && rvof(&o) == CKR_OPERATION_NOT_INITIALIZED {
                            // final without update
                            ops::reset(s, ops::Kind::Sign);
                            continue;
                        }
                        w::eval(&format!("sign/{}/{}/{}/{}/{}", fin, over.is_some(), k.token, k.digits, k.val.len()));
                        let used = over.unwrap_or(k.ctr);
                        match o {
                            Ok(b) => {
                                let want = k.otp(used);
                                if value(&b, k.digits).as_ref() != Some(&want) {
                                    viol!(["P28"], "value", "HOTP key with counter {} and {} digits gave {} instead of {}", used, k.digits, hex(&b), String::from_utf8_lossy(&want));
                                }
                                if over.is_none() {
                                    *shown.entry((ki, used)).or_insert(0) += 1;
                                    ks[ki].ctr = k.ctr.wrapping_add(1);
                                    if k.ctr == u64::MAX {
                                        viol!(["P28"], "wrapped", "the counter was used at its maximum, where it cannot advance");
                                    }
                                }
                            }
                            Err(e) => {
                                if !(over.is_none() && k.ctr == u64::MAX) {
                                    viol!(["P28"], "sign-failed", "HOTP generation with counter {} failed with {}", used, rvn(e));
                                }
                                ops::reset(s, ops::Kind::Sign);
                            }
                        }
                    }
                }
            }
            Some(Pend::Ver(ki, over)) => {
                let k = ks[ki].clone();
                let base = over.unwrap_or(k.ctr);
                let d = r.range(0, 14) as i64 - 4;
                let off = match r.below(4) {
                    0 => None,
                    _ => Some(d),
                };
                let val = match off {
                    Some(d) => k.otp(base.wrapping_add(d as u64)),
                    None => match r.below(3) {
                        0 => k.otp(base)[1..].to_vec(),
                        1 => {
                            let mut v = k.otp(base);
                            let i = r.us(v.len());
                            v[i] = b'0' + (v[i] - b'0' + 1 + r.below(9) as u8) % 10;
                            v
                        }
                        _ => [k.otp(base), b"0".to_vec()].concat(),
                    },
                };
                // the look-ahead window: the expected counter and the next four
                let hit = (0..5u64).filter_map(|i| base.checked_add(i)).find(|c| k.otp(*c) == val);
                let fin = r.chance(1, 4);
                let rv = if fin { c::verify_final(s, &val) } else { c::verify(s, b"", &val) };
                if fin && rvof(&rv) == CKR_OPERATION_NOT_INITIALIZED {
                    ops::reset(s, ops::Kind::Ver);
                    continue;
                }
                w::eval(&format!("verify/{}/{:?}/{}", fin, off, rn(&rv)));
                match (rv, hit) {
                    (Ok(()), Some(cn)) => {
                        if over.is_none() {
                            if cn == u64::MAX {
                                viol!(["P28"], "verify-wrapped", "a value was accepted at the last counter, which cannot advance");
                            }
                            ks[ki].ctr = cn.wrapping_add(1);
                        }
                    }
                    (Ok(()), None) => viol!(["P28"], "verify-accepts", "counter {} (override {:?}): verification accepted {} (offset {:?})", base, over, String::from_utf8_lossy(&val), off),
                    (Err(e), Some(cn)) if cn == base && cn != u64::MAX => viol!(["P28"], "verify-refuses", "counter {} (override {:?}): verification of the expected value returned {}", base, over, rvn(e)),
                    _ => ops::reset(s, ops::Kind::Ver),
                }
            }
        }
        // the counter shown is the model's
        let ki = r.us(ks.len());
        match counter(s, ks[ki].h) {
            Ok(v) => {
                if v != ks[ki].ctr {
                    viol!(["P28"], "counter", "step {}: CKA_OTP_COUNTER is {} and should be {}", step, v, ks[ki].ctr);
                    ks[ki].ctr = v;
                }
            }
            Err(e) => viol!(["P28"], "counter-read", "CKA_OTP_COUNTER cannot be read: {}", rvn(e)),
        }
        if let Some(((a, b), n)) = shown.iter().find(|(_, n)| **n > 1).map(|(a, b)| (*a, *b)) {
            viol!(["P28"], "reused", "key {} counter {} was used {} times", a, b, n);
            shown.insert((a, b), 1);
        }
    }
    t.end();
}

fn threads(r: &mut Rng) {
    let t = fresh("hotpt");
    let s0 = t.rw_user();
    let nk = r.range(1, 3);
    let mut ks = vec![];
    for _ in 0..nk {
        let tk = r.chance(3, 4);
        let (mut k, mut tm) = K::random(r, tk);
        k.ctr &= 0xffff_ffff;
        tm = tm.set(CKA_OTP_COUNTER, &k.ctr.to_be_bytes()).setu(CKA_OTP_COUNTER_REQUIREMENT, CK_OTP_PARAM_IGNORED);
        k.h = c::create(s0, &tm).must("C_CreateObject(HOTP)");
        ks.push(k);
    }
    let ks = Arc::new(ks);
    let nt = r.range(2, 6);
    let per = r.range(5, 25);
    let stop = std::time::Instant::now();
    let hs: Vec<_> = (0..nt)
        .map(|i| {
            let ks = ks.clone();
            let slot = t.slot;
            let mut r = Rng::new(r.next());
            std::thread::spawn(move || -> (Vec<(usize, Vec<u8>)>, Vec<String>) {
                let mut got = vec![];
                let mut bad = vec![];
                let s = match c::open(slot, true) {
                    Ok(s) => s,
                    Err(e) => return (got, vec![format!("C_OpenSession {}", rvn(e))]),
                };
                for _ in 0..per {
                    let ki = r.us(ks.len());
                    if let Err(e) = c::sign_init(s, &M::new(CKM_HOTP), ks[ki].h) {
                        bad.push(format!("C_SignInit {}", rvn(e)));
                        continue;
                    }
                    if r.chance(1, 3) {
                        std::thread::sleep(std::time::Duration::from_micros(r.below(1500)));
                    } else if r.bool() {
                        std::thread::yield_now();
                    }
                    match c::sign(s, b"") {
                        Ok(b) => got.push((ki, b)),
                        Err(e) => bad.push(format!("C_Sign {}", rvn(e))),
                    }
                }
                let _ = (i, c::close(s));
                (got, bad)
            })
        })
        .collect();
    let mut per_key: Vec<Vec<Vec<u64>>> = vec![vec![]; ks.len()];
    for h in hs {
        let (got, bad) = match h.join() {
            Ok(x) => x,
            Err(_) => {
                viol!(["P28", "P23"], "thread-died", "a thread died");
                continue;
            }
        };
        for b in bad {
            viol!(["P28", "P23"], "thread-error", "HOTP generation in several threads: {}", b);
        }
        let mut mine: Vec<Vec<u64>> = vec![vec![]; ks.len()];
        for (ki, b) in got {
            let k = &ks[ki];
            let v = value(&b, k.digits).unwrap_or_default();
            // values are short: the counter is identified within the possible range
            let total = (nt * per) as u64;
            let lo = mine[ki].last().map(|x| x + 1).unwrap_or(k.ctr);
            match (lo..k.ctr + total).find(|c| k.otp(*c) == v) {
                Some(cn) => mine[ki].push(cn),
                None => viol!(["P28"], "thread-value", "a value that belongs to no later counter of the key: {}", String::from_utf8_lossy(&v)),
            }
        }
        for (i, m) in mine.into_iter().enumerate() {
            per_key[i].push(m);
        }
    }
    for (ki, per) in per_key.iter().enumerate() {
        let mut all: Vec<u64> = per.iter().flatten().cloned().collect();
        all.sort();
        let n = all.len() as u64;
        let k = &ks[ki];
        w::eval(&format!("threads/{}/{}/{:x}", nt, n, w::hash64(&per.iter().flatten().flat_map(|x| (x - k.ctr).to_be_bytes()).collect::<Vec<_>>())));
        w::count("concurrent values", n);
        for x in all.windows(2) {
            if x[0] == x[1] {
                viol!(["P28", "P23"], "reused-threads", "{} threads: two generations returned the value of counter {}", nt, x[0]);
                break;
            }
        }
        if let Ok(v) = counter(s0, k.h) {
            if v != k.ctr + n {
                viol!(["P28", "P23"], "counter-threads", "{} values were generated from counter {} and the counter is now {}", n, k.ctr, v);
            }
        }
    }
    w::count("concurrent rounds", 1);
    let _ = stop;
    t.end();
}

fn disk(r: &mut Rng) {
    let dir = scratch("hotpd");
    let data = format!("{}/d", dir);
    std::fs::create_dir_all(&data).unwrap();
    let conf = write_conf(&dir, &[sqlite(0, &data, "token")]);
    shim::dir(&data);
    c::initialize(Some(&conf)).must("C_Initialize");
    init_pins(0);
    let t = Tok { conf, slot: 0, dir: dir.clone() };
    let s = t.rw_user();
    let mut k = K::create(s, r, true);
    while k.req == CK_OTP_PARAM_MANDATORY {
        k = K::create(s, r, true);
    }
    let m = M::new(CKM_HOTP);
    for _ in 0..25 {
        if !w::time_left() || k.ctr >= u64::MAX - 2 {
            break;
        }
        c::sign_init(s, &m, k.h).must("C_SignInit(HOTP)");
        let faulty = r.bool();
        let base = shim::snapshot(&data);
        if faulty {
            let mask = *r.pick(&[1 << shim::WRITE, 1 << shim::SYNC, (1 << shim::OPEN) | (1 << shim::CREATE), 1 << shim::UNLINK, 1 << shim::READ]);
            let skip = r.below(6) as i64;
            let max = r.below(2) as i64;
            shim::fault(mask, skip, max, libc::EIO, false);
        }
        shim::log(true);
        let o = c::sign_o(s, b"", Some(200));
        let hits = shim::nofault();
        let ops = shim::take();
        let want = k.otp(k.ctr);
        let now = counter(s, k.h);
        if o.rv == CKR_OK {
            let n = o.len as usize;
            let v = value(&o.buf[..n.min(o.buf.len())], k.digits);
            if v.as_ref() != Some(&want) {
                viol!(["P28"], "value", "counter {}: wrong value", k.ctr);
            }
            if now != Ok(k.ctr + 1) {
                viol!(["P28"], "counter", "counter {} is {} after one generation ({} faults)", k.ctr, now.map(|x| x.to_string()).unwrap_or_else(rvn), hits);
            }
            // what is on disk when the value is released, also when unsynced writes are lost
            for kind in 0..5u8 {
                let (im, what) = super::disk::image_at(&base, &ops, ops.len(), kind, r);
                let ld = format!("{}/look", dir);
                shim::put(&ld, &im);
                let c2 = stored_counter(&format!("{}/token.sql", ld), k.ctr);
                w::eval(&format!("durable/{}/{}", kind, hits > 0));
                if c2 != Ok(true) {
                    viol!(["P28", "P10"], "not-durable", "the value for counter {} was released and, interrupted {}, the stored counter is not past it: {:?}", k.ctr, what, c2);
                }
                let _ = std::fs::remove_dir_all(&ld);
            }
        } else {
            w::eval(&format!("fault/{}/{}", rvn(o.rv), hits.min(3)));
            if hits == 0 {
                viol!(["P28"], "sign-failed", "HOTP generation failed with {} without a fault", rvn(o.rv));
            }
            let leaked = o.buf.windows(want.len()).any(|x| x == &want[..]);
            if leaked && now == Ok(k.ctr) {
                viol!(["P28"], "released", "C_Sign returned {} because the counter could not be stored, yet the value for counter {} is in the buffer and the counter has not moved", rvn(o.rv), k.ctr);
            }
            ops::reset(s, ops::Kind::Sign);
        }
        k.ctr = now.unwrap_or(k.ctr);
        if r.chance(1, 8) {
            let was = k.ctr;
            c::finalize().must("C_Finalize");
            c::initialize(Some(&t.conf)).must("C_Initialize");
            let s2 = t.rw_user();
            let f = c::find(s2, &T::new().s(CKA_LABEL, &k.label)).must("C_FindObjects");
            if f.len() != 1 || counter(s2, f[0]) != Ok(was) {
                viol!(["P28", "P09"], "counter-restart", "the counter was {} before a restart and is {:?} now", was, f.first().map(|h| counter(s2, *h)));
            }
            break;
        }
    }
    shim::dir("");
    t.end();
}
/// is every HOTP counter equal to or above... the one of the key past `used`
fn stored_counter(path: &str, used: u64) -> Result<bool, String> {
    let db = Db::open(path)?;
    let rows = db.q(&format!("SELECT val FROM objects WHERE attr = {}", CKA_OTP_COUNTER), &[])?;
    let mut seen = vec![];
    for row in rows {
        if let Some(b) = row[0].blob() {
            if b.len() == 8 {
                seen.push(u64::from_be_bytes(b[..].try_into().unwrap()));
            }
        }
    }
    if seen.is_empty() {
        return Err("no counter stored".into());
    }
    Ok(seen.contains(&(used + 1)))
}
