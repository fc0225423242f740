//! Session / login state machine (P01), PIN handling (P02), life cycle (P29).
use crate::c::{self, *};
use crate::p11::*;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, note, times, viol, Job};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P01" => {
            let mut v = times(16 * k, |_| job("sess.sm", 1500, 20_000));
            v.extend(times(4 * k, |_| job("sess.sm_nss", 400, 20_000)));
            v.extend(times(3 * k, |_| job("sess.lock", 400, 20_000)));
            v.extend(times(k, |_| job("sess.lock", 401, 20_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "sess.sm" => sm(arg, r, false),
        "sess.sm_nss" => sm(arg, r, true),
        "sess.lock" => lock(r, arg & 1 == 1),
        _ => panic!("{}", job),
    }
}

/// every function that takes a session handle, called with harmless arguments on `s`
pub fn session_calls(s: H) -> Vec<(&'static str, RV)> {
    let m = M::new(CKM_SHA256);
    let aes = M::raw(CKM_AES_CBC, &[0u8; 16]);
    let kg = M::new(CKM_AES_KEY_GEN);
    let t = T::new();
    let d = [0u8; 16];
    macro_rules! l { ($($n:literal : $e:expr),* $(,)?) => { vec![$(($n, rvof(&$e))),*] } }
    l! {
        "C_CloseSession": c::close(s),
        "C_GetSessionInfo": c::session_info(s),
        "C_GetOperationState": c::get_op_state(s),
        "C_SetOperationState": c::set_op_state(s, &d, 0, 0),
        "C_Login": c::login(s, CKU_USER, USER),
        "C_Logout": c::logout(s),
        "C_InitPIN": c::init_pin(s, USER),
        "C_SetPIN": c::set_pin(s, USER, USER),
        "C_SessionCancel": c::session_cancel(s, CKF_ENCRYPT),
        "C_CreateObject": c::create(s, &data_t(b"x")),
        "C_CopyObject": c::copy(s, 1, &t),
        "C_DestroyObject": c::destroy(s, 1),
        "C_GetObjectSize": c::size(s, 1),
        "C_GetAttributeValue": c::attr(s, 1, CKA_CLASS),
        "C_SetAttributeValue": c::set(s, 1, &T::new().s(CKA_LABEL, "x")),
        "C_FindObjectsInit": c::find_init(s, &t),
        "C_FindObjects": c::find_next(s, 4),
        "C_FindObjectsFinal": c::find_final(s),
        "C_EncryptInit": c::encrypt_init(s, &aes, 1),
        "C_Encrypt": c::encrypt(s, &d),
        "C_EncryptUpdate": c::encrypt_update(s, &d),
        "C_EncryptFinal": c::encrypt_final(s),
        "C_DecryptInit": c::decrypt_init(s, &aes, 1),
        "C_Decrypt": c::decrypt(s, &d),
        "C_DecryptUpdate": c::decrypt_update(s, &d),
        "C_DecryptFinal": c::decrypt_final(s),
        "C_DigestInit": c::digest_init(s, &m),
        "C_Digest": c::digest(s, &d),
        "C_DigestUpdate": c::digest_update(s, &d),
        "C_DigestKey": c::digest_key(s, 1),
        "C_DigestFinal": c::digest_final(s),
        "C_SignInit": c::sign_init(s, &m, 1),
        "C_Sign": c::sign(s, &d),
        "C_SignUpdate": c::sign_update(s, &d),
        "C_SignFinal": c::sign_final(s),
        "C_VerifyInit": c::verify_init(s, &m, 1),
        "C_Verify": c::verify(s, &d, &d),
        "C_VerifyUpdate": c::verify_update(s, &d),
        "C_VerifyFinal": c::verify_final(s, &d),
        "C_VerifySignatureInit": c::verify_signature_init(s, &m, 1, &d),
        "C_VerifySignature": c::verify_signature(s, &d),
        "C_VerifySignatureUpdate": c::verify_signature_update(s, &d),
        "C_VerifySignatureFinal": c::verify_signature_final(s),
        "C_DigestEncryptUpdate": c::digest_encrypt_update(s, &d),
        "C_DecryptDigestUpdate": c::decrypt_digest_update(s, &d),
        "C_SignEncryptUpdate": c::sign_encrypt_update(s, &d),
        "C_DecryptVerifyUpdate": c::decrypt_verify_update(s, &d),
        "C_GenerateKey": c::generate_key(s, &kg, &T::new().u(CKA_VALUE_LEN, 16)),
        "C_GenerateKeyPair": c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, P256), &t),
        "C_WrapKey": c::wrap(s, &M::new(CKM_AES_KEY_WRAP), 1, 1),
        "C_UnwrapKey": c::unwrap(s, &M::new(CKM_AES_KEY_WRAP), 1, &d, &t),
        "C_DeriveKey": c::derive(s, &M::new(CKM_SHA256_KEY_DERIVATION), 1, &t),
        "C_SeedRandom": c::seed_random(s, &d),
        "C_GenerateRandom": c::random(s, 16),
        "C_MessageEncryptInit": c::msg_encrypt_init(s, &M::new(CKM_AES_GCM), 1),
        "C_EncryptMessage": c::encrypt_message_o(s, &aes, &d, &d, Some(64)).val(),
        "C_EncryptMessageBegin": c::encrypt_message_begin(s, &aes, &d),
        "C_EncryptMessageNext": c::encrypt_message_next_o(s, &aes, &d, Some(64), true).val(),
        "C_MessageEncryptFinal": c::msg_encrypt_final(s),
        "C_MessageDecryptInit": c::msg_decrypt_init(s, &M::new(CKM_AES_GCM), 1),
        "C_DecryptMessage": c::decrypt_message_o(s, &aes, &d, &d, Some(64)).val(),
        "C_DecryptMessageBegin": c::decrypt_message_begin(s, &aes, &d),
        "C_DecryptMessageNext": c::decrypt_message_next_o(s, &aes, &d, Some(64), true).val(),
        "C_MessageDecryptFinal": c::msg_decrypt_final(s),
    }
}
pub const P256: &[u8] = &[0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];

#[derive(Clone, Default)]
struct SlotM {
    sessions: Vec<(H, bool)>,
    logged: Option<CK_USER_TYPE>,
    so: Vec<u8>,
    user: Option<Vec<u8>>,
    so_bad: u32,
    user_bad: u32,
}
fn want_state(rw: bool, l: Option<CK_USER_TYPE>) -> CK_STATE {
    match (rw, l) {
        (false, None) => CKS_RO_PUBLIC_SESSION,
        (true, None) => CKS_RW_PUBLIC_SESSION,
        (false, Some(CKU_USER)) => CKS_RO_USER_FUNCTIONS,
        (true, Some(CKU_USER)) => CKS_RW_USER_FUNCTIONS,
        (true, Some(_)) => CKS_RW_SO_FUNCTIONS,
        (false, Some(_)) => 999,
    }
}

fn check_all(ms: &[SlotM], op: &str) {
    for (i, m) in ms.iter().enumerate() {
        for (h, rw) in &m.sessions {
            match c::session_info(*h) {
                Ok(inf) => {
                    let want = want_state(*rw, m.logged);
                    if inf.state != want {
                        viol!(["P01", "P26"], &format!("state:{}:{}->{}", op, want, inf.state), "after {}: session {} of slot {} ({}) reports state {}, expected {} (logged in: {:?})", op, h, i, if *rw { "RW" } else { "RO" }, inf.state, want, m.logged);
                    }
                    let f = CKF_SERIAL_SESSION | if *rw { CKF_RW_SESSION } else { 0 };
                    if inf.flags != f || inf.slotID as usize != i {
                        viol!(["P01", "P26"], &format!("info:{}", op), "after {}: session {} info slot {} flags {:#x}", op, h, inf.slotID, inf.flags);
                    }
                }
                Err(e) => viol!(["P01"], &format!("session-lost:{}", op), "after {}: C_GetSessionInfo({}) = {}", op, h, rvn(e)),
            }
        }
        let ti = match c::token_info(i as CK_SLOT_ID) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let (tot, rwn) = (m.sessions.len() as CK_ULONG, m.sessions.iter().filter(|s| s.1).count() as CK_ULONG);
        let un = CK_UNAVAILABLE_INFORMATION;
        if (ti.ulSessionCount != un && ti.ulSessionCount != tot && ti.ulSessionCount != 0) || (ti.ulRwSessionCount != un && ti.ulRwSessionCount != rwn && ti.ulRwSessionCount != 0) {
            viol!(["P01"], "session-count", "token info counts {}/{} sessions, {}/{} exist", ti.ulSessionCount, ti.ulRwSessionCount, tot, rwn);
        }
    }
}

fn expect(op: &str, got: RV, want: &[RV], ms: &[SlotM], slot: usize) {
    let m = &ms[slot];
    w::eval(&format!("{} logged={:?} ro={} rw={} -> {}", op, m.logged, m.sessions.iter().filter(|s| !s.1).count().min(2), m.sessions.iter().filter(|s| s.1).count().min(2), rvn(got)));
    if !want.contains(&got) {
        viol!(["P01"], &format!("rv:{}:{}", op, rvn(got)), "{} with logged={:?} sessions={:?} returned {}, expected {:?}", op, m.logged, m.sessions, rvn(got), want.iter().map(|x| rvn(*x)).collect::<Vec<_>>());
    }
}

pub fn sm(n: u64, r: &mut Rng, nssdb: bool) {
    let dir = scratch("t");
    let slots: Vec<SlotCfg> = (0..2).map(|i| if nssdb { nss(i, &format!("{}/n{}", dir, i)) } else { sqlite(i, &dir, &format!("t{}", i)) }).collect();
    let conf = write_conf(&dir, &slots);
    c::initialize(Some(&conf)).must("C_Initialize");
    let mut ms: Vec<SlotM> = vec![];
    for i in 0..2 {
        init_pins(i);
        ms.push(SlotM { so: SO.to_vec(), user: Some(USER.to_vec()), ..Default::default() });
    }
    let mut everclosed: Vec<H> = vec![];
    // the user key used to keep operations active across state changes
    for step in 0..n {
        if !w::time_left() {
            break;
        }
        let sl = r.us(2);
        let slot = sl as CK_SLOT_ID;
        let hs: Vec<(H, bool)> = ms[sl].sessions.clone();
        let any = |r: &mut Rng| -> Option<(H, bool)> {
            if hs.is_empty() {
                None
            } else {
                Some(*r.pick(&hs))
            }
        };
        let name;
        match r.below(24) {
            0..=5 => {
                name = "open";
                let rw = r.chance(2, 3);
                if hs.len() > 8 {
                    continue;
                }
                let want = if ms[sl].logged == Some(CKU_SO) && !rw { CKR_SESSION_READ_WRITE_SO_EXISTS } else { CKR_OK };
                let g = c::open(slot, rw);
                expect(if rw { "open-rw" } else { "open-ro" }, rvof(&g), &[want], &ms, sl);
                if let Ok(h) = g {
                    if ms.iter().any(|m| m.sessions.iter().any(|s| s.0 == h)) || h == 0 {
                        viol!(["P01"], "handle-dup", "C_OpenSession returned handle {} already in use", h);
                    }
                    everclosed.retain(|x| *x != h);
                    ms[sl].sessions.push((h, rw));
                }
            }
            6..=8 => {
                name = "close";
                if let Some((h, _)) = any(r) {
                    let g = c::close(h);
                    expect("close", rvof(&g), &[CKR_OK], &ms, sl);
                    if g.is_ok() {
                        ms[sl].sessions.retain(|s| s.0 != h);
                        everclosed.push(h);
                        if ms[sl].sessions.is_empty() {
                            ms[sl].logged = None;
                        }
                    }
                }
            }
            9 => {
                name = "closeall";
                let g = c::close_all(slot);
                expect("closeall", rvof(&g), &[CKR_OK], &ms, sl);
                if g.is_ok() {
                    everclosed.extend(hs.iter().map(|s| s.0));
                    ms[sl].sessions.clear();
                    ms[sl].logged = None;
                }
            }
            10..=15 => {
                name = "login";
                if let Some((h, _)) = any(r) {
                    let so = r.bool();
                    let right = r.chance(3, 4);
                    let u = if so { CKU_SO } else { CKU_USER };
                    let m = &ms[sl];
                    // keep clear of lockout, that is the PIN property's business
                    let right = right || m.so_bad >= 3 || m.user_bad >= 3;
                    let pin: Vec<u8> = match (right, so) {
                        (true, true) => m.so.clone(),
                        (true, false) => m.user.clone().unwrap_or(b"whatever-pin".to_vec()),
                        (false, _) => match r.below(4) {
                            0 => b"wrong-pin-000".to_vec(),
                            1 => {
                                let mut p = if so { m.so.clone() } else { m.user.clone().unwrap_or(vec![1; 9]) };
                                p.pop();
                                p
                            }
                            2 => {
                                let mut p = if so { m.so.clone() } else { m.user.clone().unwrap_or(vec![1; 9]) };
                                p.push(b'x');
                                p
                            }
                            _ => if so { USER.to_vec() } else { SO.to_vec() },
                        },
                    };
                    let ro = hs.iter().any(|s| !s.1);
                    let mut want = vec![];
                    // several errors can apply at once; any applicable one is fine
                    if m.logged == Some(u) {
                        want.push(CKR_USER_ALREADY_LOGGED_IN)
                    }
                    if m.logged.is_some() && m.logged != Some(u) {
                        want.push(CKR_USER_ANOTHER_ALREADY_LOGGED_IN)
                    }
                    if so && ro {
                        want.push(CKR_SESSION_READ_ONLY_EXISTS)
                    }
                    if want.is_empty() {
                        if !so && m.user.is_none() {
                            want.push(CKR_USER_PIN_NOT_INITIALIZED)
                        } else if !right {
                            want.push(CKR_PIN_INCORRECT);
                        } else {
                            want.push(CKR_OK)
                        }
                        if nssdb && so {
                            // the NSS format has no SO user once initialised
                            want = vec![CKR_OK, CKR_USER_TYPE_INVALID, CKR_PIN_INCORRECT];
                        }
                    }
                    let g = c::login(h, u, &pin);
                    expect(&format!("login-{}-{}", if so { "so" } else { "user" }, if right { "right" } else { "wrong" }), rvof(&g), &want, &ms, sl);
                    let m = &mut ms[sl];
                    if g.is_ok() {
                        m.logged = Some(u);
                        if so {
                            m.so_bad = 0
                        } else {
                            m.user_bad = 0
                        }
                    } else if rvof(&g) == CKR_PIN_INCORRECT {
                        if so {
                            m.so_bad += 1
                        } else {
                            m.user_bad += 1
                        }
                    }
                } else {
                    let h = if everclosed.is_empty() { 77777 } else { *r.pick(&everclosed) };
                    let g = c::login(h, CKU_USER, USER);
                    expect("login-dead", rvof(&g), &[CKR_SESSION_HANDLE_INVALID], &ms, sl);
                }
            }
            16..=18 => {
                name = "logout";
                if let Some((h, _)) = any(r) {
                    let want = if ms[sl].logged.is_some() { CKR_OK } else { CKR_USER_NOT_LOGGED_IN };
                    let g = c::logout(h);
                    expect("logout", rvof(&g), &[want], &ms, sl);
                    if g.is_ok() {
                        ms[sl].logged = None;
                    }
                }
            }
            19 => {
                name = "other-user-types";
                if let Some((h, _)) = any(r) {
                    let u = *r.pick(&[CKU_CONTEXT_SPECIFIC, 3, 99, CK_ULONG::MAX]);
                    let g = c::login(h, u, USER);
                    let gv = rvof(&g);
                    expect("login-odd-type", if gv == CKR_OK { CKR_OK } else { CKR_FUNCTION_FAILED }, &[CKR_FUNCTION_FAILED], &ms, sl);
                    let g = c::login_user(h, CKU_USER, USER, b"name");
                    if g.is_ok() {
                        // a library may implement C_LoginUser; this one does not
                        expect("loginuser", rvof(&g), &[if ms[sl].logged.is_none() { CKR_OK } else { CKR_USER_ALREADY_LOGGED_IN }], &ms, sl);
                        ms[sl].logged = Some(CKU_USER);
                    }
                }
            }
            20 => {
                name = "initpin";
                if let Some((h, rw)) = any(r) {
                    let p = if r.bool() { USER.to_vec() } else { b"other-user-pin-1".to_vec() };
                    let logged = ms[sl].logged;
                    let g = c::init_pin(h, &p);
                    if logged == Some(CKU_SO) && rw {
                        if !nssdb {
                            expect("initpin", rvof(&g), &[CKR_OK], &ms, sl);
                        }
                        if g.is_ok() {
                            ms[sl].user = Some(p);
                            ms[sl].user_bad = 0;
                        }
                    } else {
                        expect("initpin", if g.is_ok() { CKR_OK } else { CKR_USER_NOT_LOGGED_IN }, &[CKR_USER_NOT_LOGGED_IN], &ms, sl);
                    }
                }
            }
            21 => {
                name = "inittoken";
                if r.chance(1, 3) || !hs.is_empty() {
                    let right = r.chance(2, 3);
                    let pin = if right { ms[sl].so.clone() } else { b"not-the-so-pin".to_vec() };
                    if !hs.is_empty() {
                        let g = c::init_token(slot, &pin, "relabel");
                        expect("inittoken-open", rvof(&g), &[CKR_SESSION_EXISTS], &ms, sl);
                    } else if !nssdb {
                        if !right && ms[sl].so_bad >= 3 {
                            continue;
                        }
                        let g = c::init_token(slot, &pin, "relabel");
                        expect(if right { "inittoken-right" } else { "inittoken-wrong" }, rvof(&g), &[if right { CKR_OK } else { CKR_PIN_INCORRECT }], &ms, sl);
                        if g.is_ok() {
                            ms[sl].user = None;
                            ms[sl].so_bad = 0;
                            ms[sl].user_bad = 0;
                        } else {
                            ms[sl].so_bad += 1;
                        }
                    }
                }
            }
            22 => {
                name = "badopen";
                let g = c::open_flags(slot, CKF_RW_SESSION);
                expect("open-noserial", if g.is_ok() { CKR_OK } else { CKR_SESSION_PARALLEL_NOT_SUPPORTED }, &[CKR_SESSION_PARALLEL_NOT_SUPPORTED], &ms, sl);
                let g = c::open(57, true);
                expect("open-noslot", rvof(&g), &[CKR_SLOT_ID_INVALID], &ms, sl);
                // odd extra flags must not make an R/W session out of an R/O one
                if ms[sl].logged != Some(CKU_SO) && hs.len() < 8 && r.chance(1, 3) {
                    let g = c::open(slot, false);
                    if let Ok(h) = g {
                        ms[sl].sessions.push((h, false));
                    }
                }
            }
            _ => {
                name = "dead-handle";
                if r.chance(1, 6) {
                    let h = match r.below(4) {
                        0 => 0,
                        1 => CK_ULONG::MAX,
                        2 => ms.iter().flat_map(|m| m.sessions.iter().map(|s| s.0)).chain(everclosed.iter().cloned()).max().unwrap_or(0) + 1 + r.below(5),
                        _ => {
                            if everclosed.is_empty() {
                                continue;
                            }
                            *r.pick(&everclosed)
                        }
                    };
                    for (f, rv) in session_calls(h) {
                        w::eval(&format!("dead {} {}", f, rvn(rv)));
                        // argument checks may come first, success may not
                        let fine = rv == CKR_SESSION_HANDLE_INVALID || (rv != CKR_OK && matches!(f, "C_GetOperationState" | "C_SetOperationState" | "C_MessageEncryptInit"));
                        if !fine {
                            viol!(["P01"], &format!("dead-handle:{}:{}", f, rvn(rv)), "{} on a session handle {} that is not open returned {}", f, h, rvn(rv));
                        }
                    }
                }
            }
        }
        check_all(&ms, name);
        // sessions must keep working for what their state allows
        if step % 97 == 0 {
            // re-establish user pins lost by re-initialisation
            for i in 0..2 {
                if ms[i].user.is_none() && ms[i].sessions.is_empty() {
                    let s = c::open(i as CK_SLOT_ID, true).must("C_OpenSession");
                    c::login(s, CKU_SO, &ms[i].so).must("C_Login(SO)");
                    c::init_pin(s, USER).must("C_InitPIN");
                    c::close(s).must("C_CloseSession");
                    everclosed.push(s);
                    ms[i].user = Some(USER.to_vec());
                    ms[i].so_bad = 0;
                }
            }
        }
        if everclosed.len() > 60 {
            everclosed.drain(..20);
        }
    }
    let nv = w::viols();
    note!("end of history, {} violations", nv);
    c::finalize().must("C_Finalize");
}

// ---------------------------------------------------------------- refused logins and lockout

/// The login state the library shows, seen from every side, must be one and the same: every session
/// of the slot (an older one and one opened just now), visibility and use of a private object, and
/// the answer of the login calls. No assumption is made about when a PIN gets locked.
fn one_state(slot: CK_SLOT_ID, hs: &[(H, bool)], op: &str, logged: &mut Option<CK_USER_TYPE>, want: &[Option<CK_USER_TYPE>]) {
    let who = |rw: bool, st: CK_STATE| [None, Some(CKU_USER), Some(CKU_SO)].into_iter().find(|l| want_state(rw, *l) == st);
    let mut seen: Vec<(String, Option<CK_USER_TYPE>)> = vec![];
    for (h, rw) in hs {
        match c::session_info(*h) {
            Ok(i) => match who(*rw, i.state) {
                Some(l) => seen.push((format!("old session rw={}", rw), l)),
                None => viol!(["P01"], &format!("lock-state:{}", op), "after {}: session rw={} reports state {}", op, rw, i.state),
            },
            Err(e) => viol!(["P01"], &format!("lock-session-lost:{}", op), "after {}: C_GetSessionInfo {}", op, rvn(e)),
        }
    }
    let n = c::open(slot, true).must("C_OpenSession");
    if let Ok(i) = c::session_info(n) {
        if let Some(l) = who(true, i.state) {
            seen.push(("new session".into(), l));
        }
    }
    for h in [hs[0].0, n] {
        let f = c::find(h, &T::new().s(CKA_LABEL, "priv")).must("C_FindObjects");
        let l = seen[0].1;
        let used = f.first().map(|k| c::sign_init(h, &M::new(CKM_SHA256_HMAC), *k).and_then(|_| c::sign(h, b"x")).is_ok());
        if (f.len() == 1) != (l == Some(CKU_USER)) || used == Some(false) {
            viol!(["P01", "P03"], &format!("lock-private:{}:{:?}", op, l), "after {}: sessions report login {:?}, but a private object is {} ({:?})", op, l, if f.is_empty() { "not found" } else { "found" }, used);
        }
    }
    let l = seen[0].1;
    let rv = rvof(&c::init_pin(n, USER));
    let so = rv != CKR_USER_NOT_LOGGED_IN;
    if so != (l == Some(CKU_SO)) {
        viol!(["P01"], &format!("lock-so:{}:{:?}", op, l), "after {}: sessions report login {:?}, C_InitPIN gives {}", op, l, rvn(rv));
    }
    c::close(n).must("C_CloseSession");
    if let Some(d) = seen.iter().find(|x| x.1 != l) {
        viol!(["P01"], &format!("lock-split:{}", op), "after {}: {} reports login {:?}, {} reports {:?}", op, seen[0].0, l, d.0, d.1);
    }
    if !want.contains(&l) {
        viol!(["P01"], &format!("lock-login:{}:{:?}", op, l), "after {}: login {:?}, expected one of {:?}", op, l, want);
    }
    *logged = l;
}
fn lock(r: &mut Rng, nssdb: bool) {
    let dir = scratch("t");
    let slots: Vec<SlotCfg> = (0..2).map(|i| if nssdb { nss(i, &format!("{}/n{}", dir, i)) } else { sqlite(i, &dir, &format!("t{}", i)) }).collect();
    let conf = write_conf(&dir, &slots);
    c::initialize(Some(&conf)).must("C_Initialize");
    for i in 0..2 {
        init_pins(i);
        let s = c::open(i, true).must("C_OpenSession");
        c::login(s, CKU_USER, USER).must("C_Login");
        c::create(s, &secret_t(CKK_GENERIC_SECRET, &[7; 32]).b(CKA_SIGN, true).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).s(CKA_LABEL, "priv")).must("C_CreateObject");
        let d = crate::ops::ec_scalar(crate::refc::P256, r);
        c::create(s, &crate::ops::ec_priv_t(crate::refc::P256, &d).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).b(CKA_ALWAYS_AUTHENTICATE, true).s(CKA_LABEL, "aa")).must("C_CreateObject");
        c::close_all(i).must("C_CloseAllSessions");
    }
    // the other slot stays logged in all along
    let o = c::open(1, r.bool()).must("C_OpenSession");
    c::login(o, CKU_USER, USER).must("C_Login");
    let ost = c::session_info(o).must("C_GetSessionInfo").state;
    while w::time_left() {
        let n = r.range(1, 4);
        let hs: Vec<(H, bool)> = (0..n).map(|i| { let rw = i == 0 || r.bool(); (c::open(0, rw).must("C_OpenSession"), rw) }).collect();
        let ro = hs.iter().any(|x| !x.1);
        let mut lg = None;
        let as_user = r.chance(2, 3);
        if r.chance(4, 5) {
            let u = if as_user || ro || nssdb { CKU_USER } else { CKU_SO };
            match c::login(r.pick(&hs).0, u, if u == CKU_SO { SO } else { USER }) {
                Ok(()) => lg = Some(u),
                Err(e) => viol!(["P01"], &format!("lock-first-login:{}", rvn(e)), "login of {} with fresh counters gave {}", u, rvn(e)),
            }
        }
        let start = lg;
        one_state(0, &hs, "start", &mut lg, &[start]);
        // wrong PINs by one route or several until one of them says locked
        let single = r.chance(2, 3);
        let mut route = r.below(4);
        let mut locked = false;
        for i in 0..r.range(4, 16) {
            if !single {
                route = r.below(4);
            }
            let h = r.pick(&hs).0;
            let (name, rv) = match route {
                0 if lg == Some(CKU_USER) => {
                    let f = c::find(h, &T::new().s(CKA_LABEL, "aa")).must("C_FindObjects");
                    if f.len() != 1 {
                        viol!(["P01"], "lock-aa-key", "{} keys found while the user is logged in", f.len());
                        break;
                    }
                    c::sign_init(h, &M::new(CKM_ECDSA), f[0]).must("C_SignInit");
                    let rv = rvof(&c::login(h, CKU_CONTEXT_SPECIFIC, b"wrong pin"));
                    if let Ok(v) = c::sign(h, &[7; 32]) {
                        viol!(["P01", "P07"], "lock-sign", "signed without authentication: {}", w::hex(&v));
                    }
                    let _ = c::session_cancel(h, CKF_SIGN);
                    ("context", rv)
                }
                1 => {
                    let h = hs[0].0;
                    ("setpin", rvof(&c::set_pin(h, b"wrong pin", b"brand-new-pin")))
                }
                2 => ("login-user", rvof(&c::login(h, CKU_USER, b"wrong pin"))),
                3 => ("login-so", rvof(&c::login(h, CKU_SO, b"wrong pin"))),
                _ => ("login-user", rvof(&c::login(h, CKU_USER, b"wrong pin"))),
            };
            if rv == CKR_OK {
                viol!(["P01", "P02"], &format!("lock-accepted:{}", name), "{} with a wrong PIN succeeded", name);
            }
            w::eval(&format!("{} login={:?} try={} -> {}", name, lg, i, rvn(rv)));
            w::count(&format!("refused {} {}", name, rvn(rv)), 1);
            // a wrong PIN changes nothing, except that whoever is locked out may be logged out
            let mut want = vec![lg];
            if rv == CKR_PIN_LOCKED {
                want.push(None);
                locked = true;
            }
            one_state(0, &hs, &format!("{}:{}", name, rvn(rv)), &mut lg, &want);
            let i = c::session_info(o).must("C_GetSessionInfo");
            if i.state != ost {
                viol!(["P01", "P26"], &format!("lock-other-slot:{}", name), "after {} in slot 0 the session of slot 1 is in state {}", name, i.state);
            }
        }
        w::count(if locked { "lockouts" } else { "refused_runs" }, 1);
        if r.bool() {
            let want = if lg.is_some() { CKR_OK } else { CKR_USER_NOT_LOGGED_IN };
            let rv = rvof(&c::logout(hs[0].0));
            if rv != want {
                viol!(["P01"], &format!("lock-logout:{:?}:{}", lg, rvn(rv)), "C_Logout with login {:?} after refused PINs gave {}", lg, rvn(rv));
            }
            one_state(0, &hs, "logout", &mut lg, &[None]);
        }
        c::close_all(0).must("C_CloseAllSessions");
        // bring everything back
        if nssdb && locked {
            return;
        }
        if locked || (!nssdb && r.chance(1, 3)) {
            let s = c::open(0, true).must("C_OpenSession");
            match c::login(s, CKU_SO, SO) {
                Ok(()) => c::init_pin(s, USER).must("C_InitPIN"),
                // the SO is locked too: nothing more to be had from this token
                Err(_) => return,
            }
            c::close(s).must("C_CloseSession");
        } else {
            let s = c::open(0, true).must("C_OpenSession");
            for (u, p) in [(CKU_USER, USER), (CKU_SO, SO)] {
                if nssdb && u == CKU_SO {
                    continue;
                }
                match c::login(s, u, p) {
                    Ok(()) => c::logout(s).must("C_Logout"),
                    Err(CKR_PIN_LOCKED) => return,
                    Err(e) => viol!(["P01", "P02"], &format!("lock-relogin:{}:{}", u, rvn(e)), "login of {} with the right PIN gave {}", u, rvn(e)),
                }
            }
            c::close(s).must("C_CloseSession");
        }
    }
}
