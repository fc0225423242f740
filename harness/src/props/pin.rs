//! PIN authentication, retry counters, lockout and PIN change (P02).
use crate::c::{self, *};
use crate::p11::*;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, ops, refc, times, viol, Job};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P02" => {
            let mut v = times(12 * k, |_| job("pin.hist", 400, 20_000));
            v.extend(times(4 * k, |_| job("pin.nss", 200, 20_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "pin.hist" => {
            let mut i = 0;
            while w::time_left() && w::viols() < 30 {
                hist(arg, r, false, i);
                i += 1;
            }
        }
        "pin.nss" => {
            let mut i = 0;
            while w::time_left() && w::viols() < 30 {
                hist(arg, r, true, i);
                i += 1;
            }
        }
        _ => panic!("{}", job),
    }
}

#[derive(Clone, Default)]
struct S {
    so: Vec<u8>,
    user: Option<Vec<u8>>,
    old: Vec<Vec<u8>>,
    so_bad: u32,
    user_bad: u32,
    logged: Option<CK_USER_TYPE>,
    sess: Vec<H>,
    /// stored objects: label -> key value
    objs: Vec<(String, Vec<u8>)>,
    label: String,
    aa: bool,
}
fn gen_pin(r: &mut Rng) -> Vec<u8> {
    // never a trailing NUL (HMAC pads keys with NULs) and within one hash block
    let n = match r.below(6) {
        0 => 8,
        1 => 60,
        2 => r.range(30, 33) as usize,
        _ => r.range(8, 24) as usize,
    };
    let mut p = r.bytes(n);
    match r.below(3) {
        0 => p.iter_mut().for_each(|x| *x = b'0' + *x % 10),
        1 => p.iter_mut().for_each(|x| *x = b'a' + *x % 26),
        _ => {}
    }
    if *p.last().unwrap() == 0 {
        *p.last_mut().unwrap() = 1
    }
    p
}
fn wrong(r: &mut Rng, right: Option<&Vec<u8>>, other: &[Vec<u8>]) -> (&'static str, Vec<u8>) {
    let base = match right {
        Some(p) => p.clone(),
        None => b"12345678".to_vec(),
    };
    let (n, p) = match r.below(8) {
        0 => ("prefix", base[..base.len() - 1].to_vec()),
        1 => {
            let mut p = base.clone();
            p.push(b'1');
            ("longer", p)
        }
        2 => {
            let mut p = base.clone();
            let i = r.us(p.len());
            p[i] ^= 1 << r.below(7);
            ("bit", p)
        }
        3 => {
            let mut p = base.clone();
            p.reverse();
            ("reversed", p)
        }
        4 | 5 if !other.is_empty() => ("other", r.pick(other).clone()),
        6 => ("random", gen_pin(r)),
        _ => {
            let mut p = base.clone();
            let i = p.len() - 1;
            p[i] ^= 4;
            ("last", p)
        }
    };
    let strip = |x: &[u8]| {
        let mut v = x.to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    if p.is_empty() || Some(strip(&p)) == right.map(|x| strip(x)) {
        return ("fixed", b"definitely-wrong".to_vec());
    }
    (n, p)
}

fn flags_check(sl: usize, s: &S, op: &str, nss: bool) {
    let ti = match c::token_info(sl as CK_SLOT_ID) {
        Ok(t) => t,
        Err(e) => {
            viol!(["P02"], &format!("tokeninfo:{}", rvn(e)), "C_GetTokenInfo failed after {}", op);
            return;
        }
    };
    let f = ti.flags;
    if nss {
        return;
    }
    let mut bad = |what: &str, want: bool| viol!(["P02"], &format!("flag:{}:{}:{}", what, want, op), "after {}: flag {} should be {} with {} bad SO PINs, {} bad user PINs, user PIN set {} (flags {:#x})", op, what, want, s.so_bad, s.user_bad, s.user.is_some(), f);
    for (so, n, low, fin, lock) in [
        (true, s.so_bad, CKF_SO_PIN_COUNT_LOW, CKF_SO_PIN_FINAL_TRY, CKF_SO_PIN_LOCKED),
        (false, s.user_bad, CKF_USER_PIN_COUNT_LOW, CKF_USER_PIN_FINAL_TRY, CKF_USER_PIN_LOCKED),
    ] {
        let u = if so { "SO" } else { "USER" };
        if (f & lock != 0) != (n >= 10) {
            bad(&format!("{}_PIN_LOCKED", u), n >= 10)
        }
        if (f & fin != 0) != (n == 9) {
            bad(&format!("{}_PIN_FINAL_TRY", u), n == 9)
        }
        if f & low != 0 && n == 0 {
            bad(&format!("{}_PIN_COUNT_LOW", u), false)
        }
        if f & low == 0 && (n == 7 || n == 8) {
            bad(&format!("{}_PIN_COUNT_LOW", u), true)
        }
    }
    if (f & CKF_USER_PIN_INITIALIZED != 0) != s.user.is_some() {
        bad("USER_PIN_INITIALIZED", s.user.is_some())
    }
    if f & CKF_TOKEN_INITIALIZED == 0 {
        bad("TOKEN_INITIALIZED", true)
    }
    let lab = String::from_utf8_lossy(&ti.label).trim_end().to_string();
    if lab != s.label {
        viol!(["P02", "P09"], &format!("label:{}", op), "after {}: token label {:?}, expected {:?}", op, lab, s.label);
    }
}

fn check_objs(s: &S, h: H, when: &str) {
    for (lab, v) in &s.objs {
        let f = match c::find(h, &T::new().u(CKA_CLASS, CKO_SECRET_KEY).s(CKA_LABEL, lab)) {
            Ok(f) => f,
            Err(e) => {
                viol!(["P02"], &format!("objects-find:{}:{}", when, rvn(e)), "searching stored objects {} failed: {}", when, rvn(e));
                return;
            }
        };
        if f.len() != 1 {
            viol!(["P02"], &format!("objects-lost:{}", when), "{} objects named {} after {}", f.len(), lab, when);
            continue;
        }
        let g = c::encrypt_init(h, &M::new(CKM_AES_ECB), f[0]).and_then(|_| c::encrypt(h, b"0123456789abcdef"));
        match g {
            Ok(x) if x == refc::aes_ecb(v, b"0123456789abcdef", true) => w::count("objects_verified", 1),
            Ok(_) => viol!(["P02"], &format!("objects-changed:{}", when), "stored key {} has another value after {}", lab, when),
            Err(e) => viol!(["P02"], &format!("objects-unreadable:{}:{}", when, rvn(e)), "stored key {} is unusable after {}: {}", lab, when, rvn(e)),
        }
    }
}

fn hist(n: u64, r: &mut Rng, nssdb: bool, round: u64) {
    let mut dir = scratch(&format!("p{}", round));
    let cfg = |dir: &str| -> Vec<SlotCfg> { (0..2).map(|i| if nssdb { nss(i, &format!("{}/n{}", dir, i)) } else { sqlite(i, dir, &format!("t{}", i)) }).collect() };
    let mut conf = write_conf(&dir, &cfg(&dir));
    c::initialize(Some(&conf)).must("C_Initialize");
    let mut ms: Vec<S> = vec![];
    for i in 0..2u64 {
        let so = if nssdb { SO.to_vec() } else { gen_pin(r) };
        c::init_token(i, &so, "pin-token").must("C_InitToken");
        let user = gen_pin(r);
        let s = c::open(i, true).must("C_OpenSession");
        c::login(s, CKU_SO, &so).must("C_Login(SO)");
        c::init_pin(s, &user).must("C_InitPIN");
        c::close(s).must("C_CloseSession");
        ms.push(S { so, user: Some(user), label: "pin-token".into(), ..Default::default() });
    }
    let mut gen = 0u64;
    let mut last = String::from("start");
    for step in 0..n {
        if !w::time_left() || w::viols() > 30 {
            break;
        }
        let sl = r.us(2);
        let slot = sl as CK_SLOT_ID;
        if ms[sl].sess.is_empty() {
            let h = c::open(slot, true).must("C_OpenSession");
            ms[sl].sess.push(h);
        }
        let h = *r.pick(&ms[sl].sess.clone());
        let all: Vec<Vec<u8>> = ms.iter().flat_map(|m| m.old.iter().cloned().chain([m.so.clone()]).chain(m.user.clone())).collect();
        let m = ms[sl].clone();
        let mut op;
        // an attempt to be the given user with the given pin
        let mut phase = r.below(26);
        // drive towards the limits from time to time
        if step % 40 < 14 && round % 2 == 0 {
            phase = *r.pick(&[0u64, 1, 2, 3, 6, 12, 17, 20]);
        }
        match phase {
            0..=5 => {
                let so = r.chance(1, 3);
                let u = if so { CKU_SO } else { CKU_USER };
                let want_right = if step % 40 < 14 { r.chance(1, 12) } else { r.bool() };
                let right_pin = if so { Some(&m.so) } else { m.user.as_ref() };
                let (kind, pin) = match right_pin {
                    Some(p) if want_right => ("right", p.clone()),
                    _ => wrong(r, right_pin, &all),
                };
                let right = kind == "right";
                op = format!("login-{}-{}", if so { "so" } else { "user" }, kind);
                let g = c::login(h, u, &pin);
                let rv = rvof(&g);
                let nbad = if so { m.so_bad } else { m.user_bad };
                w::eval(&format!("{} bad={} logged={:?} -> {}", op, nbad, m.logged, rvn(rv)));
                if m.logged.is_some() {
                    if g.is_ok() {
                        viol!(["P02", "P01"], "login-twice", "{} while {:?} was logged in succeeded", op, m.logged);
                    }
                } else if nssdb && so {
                    // this storage has no SO once the user PIN is set
                    if g.is_ok() && !right {
                        viol!(["P02"], &format!("accepted:{}", op), "a wrong SO PIN was accepted");
                    }
                    if g.is_ok() {
                        ms[sl].logged = Some(CKU_SO);
                    }
                } else if right && nbad < 10 {
                    if rv != CKR_OK {
                        viol!(["P02"], &format!("refused:login-{}:{}", if so { "so" } else { "user" }, rvn(rv)), "the right PIN was refused with {} after {} failures (previous: {})", rvn(rv), nbad, last);
                    } else {
                        ms[sl].logged = Some(u);
                        if so {
                            ms[sl].so_bad = 0
                        } else {
                            ms[sl].user_bad = 0
                        }
                        if !so {
                            let mm = ms[sl].clone();
                            check_objs(&mm, h, "login");
                        }
                    }
                } else if rv == CKR_OK {
                    viol!(["P02"], &format!("accepted:{}:locked={}", op, nbad >= 10), "{} was accepted after {} failures (PIN {}, right PIN {:?})", op, nbad, w::hx(&pin), right_pin.map(|p| w::hx(p)));
                    ms[sl].logged = Some(u);
                } else if right {
                    if rv != CKR_PIN_LOCKED {
                        viol!(["P02"], &format!("locked-code:{}", rvn(rv)), "a locked PIN was refused with {}", rvn(rv));
                    }
                } else if !so && m.user.is_none() {
                    // no PIN to fail
                } else {
                    if nbad < 9 && rv != CKR_PIN_INCORRECT || !matches!(rv, CKR_PIN_INCORRECT | CKR_PIN_LOCKED) {
                        viol!(["P02"], &format!("wrong-code:{}", rvn(rv)), "a wrong PIN with {} failures before was refused with {}", nbad, rvn(rv));
                    }
                    if nbad < 10 && !nssdb {
                        if so {
                            ms[sl].so_bad += 1
                        } else {
                            ms[sl].user_bad += 1
                        }
                    }
                }
            }
            6..=8 => {
                op = "logout".into();
                if m.logged.is_some() {
                    let g = c::logout(h);
                    w::eval(&format!("logout -> {}", rn(&g)));
                    if g.is_ok() {
                        ms[sl].logged = None;
                    } else {
                        viol!(["P02"], &format!("logout:{}", rn(&g)), "C_Logout failed");
                    }
                }
            }
            9..=13 => {
                // C_SetPIN: of the user logged in, of the normal user otherwise
                let u = m.logged.unwrap_or(CKU_USER);
                let cur = if u == CKU_SO { Some(&m.so) } else { m.user.as_ref() };
                let nbad = if u == CKU_SO { m.so_bad } else { m.user_bad };
                let (kind, old) = match cur {
                    Some(p) if r.chance(2, 3) => ("right", p.clone()),
                    _ => wrong(r, cur, &all),
                };
                let right = kind == "right";
                let new = if r.chance(1, 10) { vec![] } else { gen_pin(r) };
                op = format!("setpin-{}-{}{}", match m.logged { Some(CKU_SO) => "so", Some(_) => "user", None => "public" }, kind, if new.is_empty() { "-empty" } else { "" });
                let g = c::set_pin(h, &old, &new);
                let rv = rvof(&g);
                w::eval(&format!("{} bad={} -> {}", op, nbad, rvn(rv)));
                if g.is_ok() {
                    if !right || nbad >= 10 {
                        viol!(["P02"], &format!("accepted:{}:locked={}", op, nbad >= 10), "C_SetPIN accepted a {} old PIN after {} failures", kind, nbad);
                    }
                    if new.is_empty() {
                        viol!(["P02"], "setpin-empty", "C_SetPIN accepted an empty new PIN");
                    }
                    let old_pin = cur.cloned();
                    let st = &mut ms[sl];
                    if u == CKU_SO {
                        st.so = new;
                        st.so_bad = 0;
                    } else {
                        st.user = Some(new);
                        st.user_bad = 0;
                    }
                    st.old.extend(old_pin);
                    w::count("pin_changes", 1);
                    if nssdb {
                        // known finding: what was stored before is not re-encrypted, and a user who is
                        // logged in stays so without the keys
                        if st.logged == Some(CKU_USER) {
                            c::logout(h).must("C_Logout");
                            st.logged = None;
                        }
                        if !st.objs.is_empty() {
                            let (lab, v) = st.objs[0].clone();
                            let p = st.user.clone().unwrap();
                            c::login(h, CKU_USER, &p).must("C_Login(new PIN)");
                            let g = c::find(h, &T::new().u(CKA_CLASS, CKO_SECRET_KEY).s(CKA_LABEL, &lab)).and_then(|f| c::encrypt_init(h, &M::new(CKM_AES_ECB), *f.first().unwrap_or(&0))).and_then(|_| c::encrypt(h, b"0123456789abcdef"));
                            match g {
                                Ok(x) if x == refc::aes_ecb(&v, b"0123456789abcdef", true) => {}
                                Ok(_) => viol!(["P02"], "nss-setpin-wrong-value", "key {} computes something else after C_SetPIN", lab),
                                Err(CKR_ENCRYPTED_DATA_INVALID) | Err(CKR_KEY_SIZE_RANGE) => viol!(["P02"], "nss-setpin-objects", "key {} stored before C_SetPIN is unreadable afterwards", lab),
                                Err(e) => viol!(["P02"], &format!("nss-setpin-objects:{}", rvn(e)), "key {} stored before C_SetPIN: {}", lab, rvn(e)),
                            }
                            c::logout(h).must("C_Logout");
                            // start over with an empty token
                            for x in ms.iter() {
                                for s in &x.sess {
                                    let _ = c::close(*s);
                                }
                            }
                            break;
                        }
                    }
                } else if right && nbad < 10 && !new.is_empty() {
                    if !nssdb {
                        viol!(["P02"], &format!("refused:{}:{}", op, rvn(rv)), "C_SetPIN with the right old PIN refused: {}", rvn(rv));
                    }
                } else if !right && cur.is_some() && nbad < 10 && !nssdb && !new.is_empty() {
                    // the failed check counts
                    if !matches!(rv, CKR_PIN_INCORRECT | CKR_PIN_LOCKED) {
                        viol!(["P02"], &format!("setpin-code:{}", rvn(rv)), "C_SetPIN with a wrong old PIN returned {}", rvn(rv));
                    }
                    if u == CKU_SO {
                        ms[sl].so_bad += 1
                    } else {
                        ms[sl].user_bad += 1
                    }
                }
            }
            14..=15 => {
                let new = gen_pin(r);
                let g = c::init_pin(h, &new);
                op = format!("initpin-{}", match m.logged { Some(CKU_SO) => "so", Some(_) => "user", None => "public" });
                w::eval(&format!("{} bad={} -> {}", op, m.user_bad, rn(&g)));
                if m.logged == Some(CKU_SO) {
                    if g.is_ok() {
                        let o = m.user.clone();
                        let st = &mut ms[sl];
                        st.user = Some(new);
                        st.user_bad = 0;
                        st.old.extend(o);
                        w::count("pin_resets", 1);
                    } else if !nssdb {
                        viol!(["P02"], &format!("initpin:{}", rn(&g)), "C_InitPIN by the SO failed: {}", rn(&g));
                    }
                } else if g.is_ok() {
                    viol!(["P02", "P01"], &format!("accepted:{}", op), "C_InitPIN worked without the SO");
                }
            }
            16 if !nssdb || m.so_bad > 0 => {
                // re-initialisation: needs all sessions closed and the SO PIN
                let (kind, pin) = if r.chance(1, 2) { ("right", m.so.clone()) } else { wrong(r, Some(&m.so), &all) };
                op = format!("inittoken-{}", kind);
                if r.chance(1, 3) {
                    for s in ms[sl].sess.drain(..) {
                        c::close(s).must("C_CloseSession");
                    }
                    ms[sl].logged = None;
                } else if kind == "right" {
                    continue;
                }
                let open = !ms[sl].sess.is_empty();
                let g = c::init_token(slot, &pin, "renamed");
                let rv = rvof(&g);
                w::eval(&format!("{} open={} bad={} -> {}", op, open, m.so_bad, rvn(rv)));
                if open {
                    if g.is_ok() {
                        viol!(["P02", "P01"], "inittoken-open", "C_InitToken worked with open sessions");
                    }
                } else if g.is_ok() {
                    if kind != "right" || m.so_bad >= 10 {
                        viol!(["P02"], &format!("accepted:{}:locked={}", op, m.so_bad >= 10), "C_InitToken accepted a {} SO PIN after {} failures", kind, m.so_bad);
                    }
                    let st = &mut ms[sl];
                    st.old.extend(st.user.take());
                    st.so = pin;
                    st.so_bad = 0;
                    st.user_bad = 0;
                    st.objs.clear();
                    st.aa = false;
                    st.label = "renamed".into();
                    // the SO sets a user PIN again
                    if r.chance(3, 4) {
                        let s = c::open(slot, true).must("C_OpenSession");
                        c::login(s, CKU_SO, &st.so.clone()).must("C_Login(SO)");
                        let p = gen_pin(r);
                        c::init_pin(s, &p).must("C_InitPIN");
                        let f = c::find(s, &T::new().b(CKA_TOKEN, true)).must("C_FindObjects");
                        let left = f.iter().filter(|o| c::attr_u(s, **o, CKA_CLASS).map(|x| x != CKO_PROFILE && x != CKO_MECHANISM).unwrap_or(true)).count();
                        if left != 0 {
                            viol!(["P02", "P08"], "inittoken-objects", "{} objects survive C_InitToken", left);
                        }
                        c::close(s).must("C_CloseSession");
                        st.user = Some(p);
                    }
                } else if kind == "right" && m.so_bad < 10 {
                    viol!(["P02"], &format!("refused:inittoken:{}", rvn(rv)), "C_InitToken with the right SO PIN failed: {}", rvn(rv));
                } else if kind != "right" {
                    if m.so_bad < 10 {
                        ms[sl].so_bad += 1;
                    }
                    if !matches!(rv, CKR_PIN_INCORRECT | CKR_PIN_LOCKED) {
                        viol!(["P02"], &format!("inittoken-code:{}", rvn(rv)), "C_InitToken with a wrong SO PIN returned {}", rvn(rv));
                    }
                }
            }
            17 | 18 => {
                // restart, from the live files or from a copy taken without finalize
                let crash = r.bool();
                op = if crash { "crash-restart".into() } else { "restart".into() };
                if crash {
                    let d2 = scratch(&format!("p{}-{}", round, step));
                    let _ = std::process::Command::new("cp").arg("-a").arg(format!("{}/.", dir)).arg(&d2).status();
                    c::finalize().must("C_Finalize");
                    let _ = std::fs::remove_dir_all(&dir);
                    dir = d2;
                    conf = write_conf(&dir, &cfg(&dir));
                } else {
                    c::finalize().must("C_Finalize");
                }
                c::initialize(Some(&conf)).must("C_Initialize");
                for x in ms.iter_mut() {
                    x.sess.clear();
                    x.logged = None;
                }
                w::eval(&op);
            }
            19 => {
                op = "close-all".into();
                c::close_all(slot).must("C_CloseAllSessions");
                ms[sl].sess.clear();
                ms[sl].logged = None;
                w::eval(&op);
            }
            20 | 21 if m.logged == Some(CKU_USER) && !nssdb => {
                // context-specific login
                if !m.aa {
                    let d = ops::ec_scalar(refc::P256, r);
                    let t = ops::ec_priv_t(refc::P256, &d).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).b(CKA_ALWAYS_AUTHENTICATE, true).s(CKA_LABEL, "aa");
                    c::create(h, &t).must("C_CreateObject");
                    ms[sl].aa = true;
                }
                let f = c::find(h, &T::new().s(CKA_LABEL, "aa")).must("C_FindObjects");
                if f.len() != 1 {
                    viol!(["P02"], "aa-key", "{} keys found", f.len());
                    continue;
                }
                let g = c::sign_init(h, &M::new(CKM_ECDSA), f[0]);
                g.must("C_SignInit");
                let tries = r.range(1, 3);
                op = "context".into();
                for _ in 0..tries {
                    let (kind, pin) = if r.chance(1, 3) { ("right", m.user.clone().unwrap()) } else { wrong(r, m.user.as_ref(), &all) };
                    op = format!("context-{}", kind);
                    let nbad = ms[sl].user_bad;
                    let g = c::login(h, CKU_CONTEXT_SPECIFIC, &pin);
                    let rv = rvof(&g);
                    w::eval(&format!("{} bad={} -> {}", op, nbad, rvn(rv)));
                    if kind == "right" && nbad < 10 {
                        if rv != CKR_OK {
                            viol!(["P02", "P07"], &format!("refused:context:{}", rvn(rv)), "context-specific login with the right PIN refused: {}", rvn(rv));
                        } else {
                            ms[sl].user_bad = 0;
                            if let Err(e) = c::sign(h, &[7; 32]) {
                                viol!(["P02", "P07"], &format!("context-sign:{}", rvn(e)), "signing after a context-specific login failed: {}", rvn(e));
                            }
                            break;
                        }
                    } else if g.is_ok() {
                        viol!(["P02", "P07"], &format!("accepted:{}:locked={}", op, nbad >= 10), "context-specific login with a {} PIN accepted after {} failures", kind, nbad);
                    } else if kind != "right" {
                        if nbad < 10 {
                            ms[sl].user_bad += 1;
                        }
                        if !matches!(rv, CKR_PIN_INCORRECT | CKR_PIN_LOCKED) {
                            viol!(["P02"], &format!("context-code:{}", rvn(rv)), "context-specific login with a wrong PIN returned {}", rvn(rv));
                        }
                    }
                }
                let _ = c::session_cancel(h, CKF_SIGN);
            }
            24 if m.logged.is_none() && !nssdb && m.user.is_some() && r.chance(1, 2) => {
                // a run of failures up to, at or past the limit, by several routes, then the right PIN
                op = "burst".into();
                let so = r.chance(1, 5);
                let target = r.range(6, 12) as u32;
                let cur = if so { m.so.clone() } else { m.user.clone().unwrap() };
                let mut nbad = if so { m.so_bad } else { m.user_bad };
                while nbad < target && w::time_left() {
                    let (_, p) = wrong(r, Some(&cur), &all);
                    let (route, rv) = match r.below(4) {
                        0 if !so => ("setpin", rvof(&c::set_pin(h, &p, b"brand-new-pin"))),
                        1 if so => {
                            for s in ms[sl].sess.drain(..) {
                                c::close(s).must("C_CloseSession");
                            }
                            let rv = rvof(&c::init_token(slot, &p, "stolen"));
                            ms[sl].sess.push(c::open(slot, true).must("C_OpenSession"));
                            ("inittoken", rv)
                        }
                        _ => ("login", rvof(&c::login(ms[sl].sess[0], if so { CKU_SO } else { CKU_USER }, &p))),
                    };
                    w::eval(&format!("burst so={} {} bad={} -> {}", so, route, nbad, rvn(rv)));
                    if !matches!(rv, CKR_PIN_INCORRECT | CKR_PIN_LOCKED) || (rv == CKR_PIN_LOCKED && nbad < 9) {
                        viol!(["P02"], &format!("burst:{}:{}", route, rvn(rv)), "wrong PIN by {} after {} failures returned {}", route, nbad, rvn(rv));
                    }
                    nbad += 1;
                    if so {
                        ms[sl].so_bad = nbad.min(10)
                    } else {
                        ms[sl].user_bad = nbad.min(10)
                    }
                    flags_check(sl, &ms[sl], &format!("wrong {}", route), nssdb);
                    if r.chance(1, 8) {
                        c::finalize().must("C_Finalize");
                        c::initialize(Some(&conf)).must("C_Initialize");
                        for x in ms.iter_mut() {
                            x.sess.clear();
                            x.logged = None;
                        }
                        ms[sl].sess.push(c::open(slot, true).must("C_OpenSession"));
                        flags_check(sl, &ms[sl], "restart-in-burst", nssdb);
                    }
                    if ms[sl].sess.is_empty() || !ms[sl].sess.contains(&h) {
                        break;
                    }
                }
                let h = ms[sl].sess[0];
                let nbad = if so { ms[sl].so_bad } else { ms[sl].user_bad };
                let rv = rvof(&c::login(h, if so { CKU_SO } else { CKU_USER }, &cur));
                w::eval(&format!("burst-end so={} bad={} -> {}", so, nbad, rvn(rv)));
                if (rv == CKR_OK) != (nbad < 10) {
                    viol!(["P02"], &format!("burst-end:locked={}:{}", nbad >= 10, rvn(rv)), "the right PIN after {} failures: {}", nbad, rvn(rv));
                }
                if rv == CKR_OK {
                    if so {
                        ms[sl].so_bad = 0
                    } else {
                        ms[sl].user_bad = 0
                    }
                    c::logout(h).must("C_Logout");
                } else if !so {
                    // nothing but the SO brings it back
                    for u in 0..2 {
                        let rv = if u == 0 { rvof(&c::set_pin(h, &cur, b"brand-new-pin")) } else { rvof(&c::login(h, CKU_USER, &cur)) };
                        if rv != CKR_PIN_LOCKED {
                            viol!(["P02"], &format!("locked-code:{}", rvn(rv)), "locked user: {} returned {}", if u == 0 { "C_SetPIN" } else { "C_Login" }, rvn(rv));
                        }
                    }
                    w::count("user_lockouts", 1);
                } else {
                    w::count("so_lockouts", 1);
                }
            }
            22 => {
                // an object that must survive every PIN change
                op = "store".into();
                if m.logged == Some(CKU_USER) && m.objs.len() < 4 {
                    gen += 1;
                    let v = r.bytes(16);
                    let lab = format!("obj-{}-{}", round, gen);
                    let mut t = ops::aes_key(&v).b(CKA_TOKEN, true).b(CKA_PRIVATE, r.bool()).s(CKA_LABEL, &lab);
                    if nssdb {
                        t = t.s(CKA_ID, &lab);
                    }
                    c::create(h, &t).must("C_CreateObject");
                    ms[sl].objs.push((lab, v));
                }
            }
            23 => {
                op = "check".into();
                if m.logged == Some(CKU_USER) {
                    check_objs(&m, h, "steady");
                }
            }
            _ => {
                op = "open".into();
                if ms[sl].sess.len() < 5 {
                    let s = c::open(slot, true).must("C_OpenSession");
                    ms[sl].sess.push(s);
                }
            }
        }
        for i in 0..2 {
            flags_check(i, &ms[i], if i == sl { &op } else { "op-in-other-slot" }, nssdb);
        }
        // unlock: only the SO can, by setting a new user PIN
        if !nssdb && ms[sl].user_bad >= 10 && ms[sl].logged.is_none() && r.chance(1, 6) && ms[sl].so_bad < 10 {
            let s = ms[sl].sess.first().cloned().unwrap_or_else(|| {
                let s = c::open(slot, true).must("C_OpenSession");
                ms[sl].sess.push(s);
                s
            });
            c::login(s, CKU_SO, &ms[sl].so).must("C_Login(SO)");
            ms[sl].so_bad = 0;
            let p = gen_pin(r);
            c::init_pin(s, &p).must("C_InitPIN");
            c::logout(s).must("C_Logout");
            ms[sl].user = Some(p.clone());
            ms[sl].user_bad = 0;
            flags_check(sl, &ms[sl], "unlock", nssdb);
            let g = c::login(s, CKU_USER, &p);
            w::eval(&format!("unlocked-login -> {}", rn(&g)));
            if g.is_err() {
                viol!(["P02"], &format!("unlock:{}", rn(&g)), "the user PIN set by the SO after a lockout is refused: {}", rn(&g));
            } else {
                w::count("unlocks", 1);
                let mm = ms[sl].clone();
                check_objs(&mm, s, "unlock");
                let _ = c::logout(s);
            }
        }
        if op.starts_with("setpin") || op.starts_with("initpin") || op.starts_with("inittoken") || op.contains("restart") {
            last = op;
        }
        // both PINs locked: nothing more to learn
        if !nssdb && ms.iter().all(|m| m.so_bad >= 10) {
            w::count("tokens_fully_locked", 1);
            break;
        }
    }
    c::finalize().must("C_Finalize");
    let _ = std::fs::remove_dir_all(&dir);
}
