//! Library life cycle (P29) and configuration (P26).
use crate::c::{self, *};
use crate::names::*;
use crate::ops;
use crate::p11::*;
use crate::props::sess::session_calls;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::c_void;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P29" => {
            let mut v = times(6 * k, |_| job("life.cycle", 400, 18_000));
            v.extend(times(3 * k, |_| job("life.bad", 400, 18_000)));
            v.extend(times(3 * k, |_| job("life.threads", 60, 18_000)));
            v.push(job("life.tables", 1, 5_000));
            v
        }
        "P26" => {
            let mut v = times(4 * k, |_| job("life.conf", 400, 18_000));
            v.extend(times(2 * k, |_| job("life.bad", 400, 18_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "life.cycle" => cycle(arg, r),
        "life.bad" => bad(arg, r),
        "life.threads" => threads(arg, r),
        "life.tables" => tables(),
        "life.conf" => conf(prop, arg, r),
        _ => panic!("{}", job),
    }
}

const NI: RV = CKR_CRYPTOKI_NOT_INITIALIZED;

/// calls that need no session
fn general_calls(slot: CK_SLOT_ID) -> Vec<(&'static str, RV)> {
    let f = c::fl();
    let mut n: CK_ULONG = 0;
    let mut ev: CK_SLOT_ID = 0;
    let mut v = vec![
        ("C_GetSlotList", rvof(&c::slot_list(false))),
        ("C_GetSlotList(present)", rvof(&c::slot_list(true))),
        ("C_GetSlotInfo", rvof(&c::slot_info(slot))),
        ("C_GetTokenInfo", rvof(&c::token_info(slot))),
        ("C_GetMechanismList", rvof(&c::mech_list(slot))),
        ("C_GetMechanismInfo", rvof(&c::mech_info(slot, CKM_SHA256))),
        ("C_InitToken", rvof(&c::init_token(slot, SO, "kv-token"))),
        ("C_OpenSession", rvof(&c::open(slot, true))),
        ("C_OpenSession(ro)", rvof(&c::open(slot, false))),
        ("C_CloseAllSessions", rvof(&c::close_all(slot))),
    ];
    unsafe {
        if let Some(w) = f.C_WaitForSlotEvent {
            v.push(("C_WaitForSlotEvent", w(CKF_DONT_BLOCK, &mut ev, null_mut())));
        }
        v.push(("C_GetSlotList(count)", f.C_GetSlotList.unwrap()(1, null_mut(), &mut n)));
    }
    v
}

/// nothing works while the library is not initialised
fn check_uninit(when: &str, r: &mut Rng, old: &[H]) {
    let s = if old.is_empty() || r.chance(1, 3) { r.pick(&[0, 1, 2, 17, CK_ULONG::MAX]).clone() } else { *r.pick(old) };
    let slot = r.below(3) as CK_SLOT_ID;
    let mut l = general_calls(slot);
    l.extend(session_calls(s));
    for (n, rv) in l {
        w::eval(&format!("uninit {} {} {}", when, n, rvn(rv)));
        let ok = match n {
            // not offered: nothing to initialise
            "C_WaitForSlotEvent" => rv == NI || rv == CKR_FUNCTION_NOT_SUPPORTED,
            "C_SessionCancel" => rv == NI || rv == CKR_FUNCTION_NOT_SUPPORTED,
            _ => rv == NI,
        };
        if !ok {
            viol!(["P29"], &format!("uninit:{}:{}", n, rvn(rv)), "{} {} returned {}, expected CKR_CRYPTOKI_NOT_INITIALIZED", n, when, rvn(rv));
        }
    }
    let g = rvof(&c::finalize());
    if g != NI {
        viol!(["P29"], &format!("uninit:C_Finalize:{}", rvn(g)), "C_Finalize {} returned {}", when, rvn(g));
    }
}
fn nfd() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
fn nthr() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn cycle(n: u64, r: &mut Rng) {
    let dir = scratch("t");
    let slots = vec![sqlite(0, &dir, "a"), nss(1, &format!("{}/n", dir)), sqlite(2, &dir, "b")];
    let conf = write_conf(&dir, &slots);
    check_uninit("before the first C_Initialize", r, &[]);
    c::initialize(Some(&conf)).must("C_Initialize");
    for i in 0..3 {
        init_pins(i);
    }
    // slot -> label -> (value, private)
    let mut store: Vec<BTreeMap<String, (Vec<u8>, bool)>> = vec![BTreeMap::new(); 3];
    let mut old: Vec<H> = vec![];
    let mut base: Option<(usize, usize)> = None;
    let mut uniq = 0u64;
    for cyc in 0..n {
        if !w::time_left() {
            break;
        }
        // ---- a random life ----
        let mut open: Vec<(CK_SLOT_ID, H, bool)> = vec![];
        let mut sess_objs: Vec<(CK_SLOT_ID, H, String)> = vec![];
        for slot in 0..3u64 {
            // fresh life: no session, nobody logged in, no session object
            let want = CKS_RW_PUBLIC_SESSION;
            let s = c::open(slot, true).must("C_OpenSession");
            open.push((slot, s, true));
            match c::session_info(s) {
                Ok(i) if i.state == want => {}
                g => viol!(["P29", "P01"], "state-after-init", "cycle {}: first session of slot {} after C_Initialize: {:?}", cyc, slot, g.map(|i| i.state)),
            }
            if let Ok(ti) = c::token_info(slot) {
                if ti.flags & CKF_TOKEN_INITIALIZED == 0 || ti.flags & CKF_USER_PIN_INITIALIZED == 0 {
                    viol!(["P29", "P09"], "token-flags", "cycle {}: slot {} token flags {:#x} after restart", cyc, slot, ti.flags);
                }
            }
            let tmpl = T::new().u(CKA_CLASS, CKO_SECRET_KEY);
            let seen = |s: H| -> BTreeMap<String, usize> {
                let mut m = BTreeMap::new();
                for h in c::find(s, &tmpl).unwrap_or_default() {
                    let l = c::attr(s, h, CKA_LABEL).map(|v| String::from_utf8_lossy(&v).to_string()).unwrap_or("?".into());
                    *m.entry(l).or_insert(0) += 1;
                }
                m
            };
            let want_pub: BTreeMap<String, usize> = store[slot as usize].iter().filter(|(_, v)| !v.1).map(|(k, _)| (k.clone(), 1)).collect();
            let got = seen(s);
            if got != want_pub && slot != 1 {
                viol!(["P29", "P03", "P09"], "public-view", "cycle {}: slot {} public keys seen {:?}, expected {:?}", cyc, slot, got, want_pub);
            }
            w::eval(&format!("view slot{} n{}", slot, want_pub.len().min(5)));
            if r.chance(3, 4) {
                c::login(s, CKU_USER, USER).must("C_Login");
                let want_all: BTreeMap<String, usize> = store[slot as usize].iter().map(|(k, _)| (k.clone(), 1)).collect();
                let got = seen(s);
                if got != want_all {
                    viol!(["P29", "P09"], "user-view", "cycle {}: slot {} keys seen by the user {:?}, expected {:?}", cyc, slot, got, want_all);
                }
                for (l, (val, _)) in &store[slot as usize] {
                    let h = c::find(s, &T::new().s(CKA_LABEL, l)).unwrap_or_default();
                    if h.len() == 1 {
                        match c::attr(s, h[0], CKA_VALUE) {
                            Ok(v) if &v == val => {}
                            g => viol!(["P29", "P09"], "value", "cycle {}: slot {} key {} value {:?}, expected {}", cyc, slot, l, g.map(|v| w::hex(&v)), w::hex(val)),
                        }
                    }
                }
                // work: create token and session objects, remove some
                for _ in 0..r.below(3) {
                    uniq += 1;
                    let l = format!("k{}", uniq);
                    let val = r.bytes(16);
                    let tok = r.bool();
                    let private = slot == 1 || r.bool();
                    let t = aes_t(&val).s(CKA_LABEL, &l).b(CKA_TOKEN, tok).b(CKA_PRIVATE, private).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).b(CKA_ENCRYPT, true).b(CKA_SIGN, true);
                    let h = c::create(s, &t).must("C_CreateObject");
                    if tok {
                        store[slot as usize].insert(l, (val, private));
                    } else {
                        sess_objs.push((slot, h, l));
                    }
                }
                if store[slot as usize].len() > 5 {
                    let l = store[slot as usize].keys().next().unwrap().clone();
                    let h = c::find(s, &T::new().s(CKA_LABEL, &l)).must("find");
                    c::destroy(s, h[0]).must("destroy");
                    store[slot as usize].remove(&l);
                }
            }
            for _ in 0..r.below(4) {
                let rw = r.bool();
                let x = c::open(slot, rw).must("C_OpenSession");
                open.push((slot, x, rw));
            }
        }
        // leave operations pending
        for (slot, s, _) in &open {
            match r.below(5) {
                0 => {
                    let _ = c::digest_init(*s, &M::new(CKM_SHA256));
                    let _ = c::digest_update(*s, b"abc");
                }
                1 => {
                    let _ = c::find_init(*s, &T::new());
                }
                2 => {
                    let l: Vec<H> = sess_objs.iter().filter(|x| x.0 == *slot).map(|x| x.1).collect();
                    if !l.is_empty() {
                        let _ = c::encrypt_init(*s, &M::raw(CKM_AES_CBC, &[0; 16]), l[0]);
                        let _ = c::encrypt_update(*s, &[1; 16]);
                    }
                }
                _ => {}
            }
        }
        // a second C_Initialize is refused and changes nothing
        if r.chance(1, 2) {
            let before: Vec<_> = open.iter().map(|(_, s, _)| c::session_info(*s).map(|i| (i.slotID, i.state, i.flags))).collect();
            let which = r.below(4);
            let g = match which {
                0 => c::initialize(Some(&conf)),
                1 => c::initialize(None),
                2 => c::initialize(Some("kryoptic_conf=/nonexistent/conf")),
                _ => c::initialize(Some(&format!("{}/a.sql", dir))),
            };
            w::eval(&format!("reinit{} {}", which, rvn(rvof(&g))));
            let okrv = match which {
                0 | 1 => vec![CKR_CRYPTOKI_ALREADY_INITIALIZED],
                _ => vec![],
            };
            if g.is_ok() || (!okrv.is_empty() && !okrv.contains(&rvof(&g))) {
                viol!(["P29"], &format!("reinit:{}:{}", which, rvn(rvof(&g))), "C_Initialize (kind {}) on an initialised library returned {}", which, rvn(rvof(&g)));
            }
            let after: Vec<_> = open.iter().map(|(_, s, _)| c::session_info(*s).map(|i| (i.slotID, i.state, i.flags))).collect();
            if before != after {
                viol!(["P29"], "reinit-state", "a refused C_Initialize (kind {}) changed the sessions: {:?} -> {:?}", which, before, after);
            }
            match c::slot_list(false) {
                Ok(mut l) => {
                    l.sort();
                    if l != vec![0, 1, 2] {
                        viol!(["P29"], "reinit-slots", "slots {:?} after a refused C_Initialize (kind {})", l, which);
                    }
                }
                Err(e) => viol!(["P29"], "reinit-slots", "C_GetSlotList {}", rvn(e)),
            }
            for (slot, h, l) in &sess_objs {
                let s = open.iter().find(|x| x.0 == *slot).unwrap().1;
                match c::attr(s, *h, CKA_LABEL) {
                    Ok(v) if v == l.as_bytes() => {}
                    g => viol!(["P29"], "reinit-objs", "session object {} after a refused C_Initialize: {:?}", l, g.map_err(rvn)),
                }
            }
        }
        // ---- end ----
        let how = r.below(6);
        match how {
            0 => {
                for i in 0..3 {
                    c::close_all(i).must("C_CloseAllSessions");
                }
            }
            1 => {
                for (_, s, _) in &open {
                    c::close(*s).must("C_CloseSession");
                }
            }
            _ => {}
        }
        c::finalize().must("C_Finalize");
        old = open.iter().map(|x| x.1).collect();
        check_uninit("after C_Finalize", r, &old);
        // files closed
        let f = (nfd(), nthr());
        match base {
            None => base = Some(f),
            Some(b) if f.0 > b.0 || f.1 > b.1 => viol!(["P29"], "fd-leak", "after {} cycles: {} open files and {} threads, {} and {} after the first", cyc + 1, f.0, f.1, b.0, b.1),
            _ => {}
        }
        w::eval(&format!("finalize how{} sessions{} objs{}", how, open.len().min(12), sess_objs.len().min(4)));
        w::count("life_cycles", 1);
        c::initialize(Some(&conf)).must("C_Initialize again");
        // old handles are dead
        for s in &old {
            let g = rvof(&c::session_info(*s));
            if g != CKR_SESSION_HANDLE_INVALID {
                viol!(["P29"], "old-session", "session {} of the previous life: {}", s, rvn(g));
            }
        }
        for (n, rv) in session_calls(*r.pick(&old)) {
            if rv == CKR_OK || rv == NI {
                viol!(["P29"], &format!("old-session:{}", n), "{} on a session of the previous life returned {}", n, rvn(rv));
            }
        }
        // session objects are gone
        for (slot, _, l) in &sess_objs {
            let s = c::open(*slot, true).must("open");
            let g = c::login(s, CKU_USER, USER);
            if rvof(&g) != CKR_OK {
                viol!(["P29"], "login-after", "C_Login after a restart: {}", rvn(rvof(&g)));
            }
            let f = c::find(s, &T::new().s(CKA_LABEL, l)).unwrap_or_default();
            if !f.is_empty() {
                viol!(["P29", "P08"], "session-object-survives", "session object {} found after C_Finalize/C_Initialize", l);
            }
            c::close(s).must("close");
        }
    }
    let _ = c::finalize();
}

// ---------------------------------------------------------------- bad configurations

fn raw_init(reserved: &[u8]) -> RV {
    let mut a = CK_C_INITIALIZE_ARGS::default();
    a.flags = CKF_OS_LOCKING_OK;
    let mut b = reserved.to_vec();
    b.push(0);
    a.pReserved = b.as_mut_ptr() as *mut c_void;
    unsafe { c::fl().C_Initialize.unwrap()(&mut a as *mut _ as *mut c_void) }
}
struct BadConf {
    kind: &'static str,
    text: String,
}
fn bad_conf(dir: &str, r: &mut Rng, good: &[SlotCfg]) -> BadConf {
    let mut slots: Vec<SlotCfg> = good.to_vec();
    let at = r.us(slots.len() + 1);
    let mut extra = |x: SlotCfg| {
        let mut v = slots.clone();
        v.insert(at.min(v.len()), x);
        v
    };
    let _ = std::fs::create_dir_all(format!("{}/adir.sql", dir));
    std::fs::write(format!("{}/garbage.sql", dir), vec![0x5au8; 8192]).unwrap();
    let s0 = good[0].clone();
    let free = 77;
    let k = r.below(13);
    let (kind, v) = match k {
        0 => ("dup-slot", extra(SlotCfg { slot: s0.slot, ..sqlite(0, dir, "other") })),
        1 => ("dup-storage", extra(SlotCfg { slot: free, ..s0 })),
        2 => ("bad-dbtype", extra(SlotCfg { dbtype: "nosuch", ..sqlite(free, dir, "other") })),
        3 => ("no-such-dir", extra(sqlite(free, &format!("{}/nodir/x", dir), "other"))),
        4 => ("db-is-dir", extra(sqlite(free, dir, "adir"))),
        5 => ("db-garbage", extra(sqlite(free, dir, "garbage"))),
        6 => ("bad-mech", extra(SlotCfg { extra: "mechanisms = [\"CKM_SHA256\", \"CKM_NO_SUCH_THING\"]\n".into(), ..sqlite(free, dir, "other") })),
        7 => ("deny-not-first", extra(SlotCfg { extra: "mechanisms = [\"CKM_SHA256\", \"DENY\"]\n".into(), ..sqlite(free, dir, "other") })),
        8 => ("bad-dedup", extra(SlotCfg { extra: "objects_dedup = \"Some\"\n".into(), ..sqlite(free, dir, "other") })),
        9 => {
            let t = conf_text(&slots, "");
            return BadConf { kind: "truncated", text: t[..t.rfind("dbtype").unwrap() + 9].to_string() };
        }
        10 => {
            let mut t = conf_text(&slots, "");
            t.push_str("[[slots]]\nslot = 5000000000\ndbtype = \"sqlite\"\ndbargs = \"x.sql\"\n");
            return BadConf { kind: "slot-too-big", text: t };
        }
        11 => {
            let mut t = conf_text(&slots, "");
            t.push_str("[[slots]]\ndbtype = \"sqlite\"\ndbargs = \"x.sql\"\n");
            return BadConf { kind: "no-slot-number", text: t };
        }
        _ => {
            let mut t = conf_text(&slots, "");
            t.push_str(&format!("[[slots]]\nslot = {}\ndbargs = \"{}/y.sql\"\n", free, dir));
            return BadConf { kind: "no-dbtype", text: t };
        }
    };
    slots = v;
    BadConf { kind, text: conf_text(&slots, "") }
}
fn bad(n: u64, r: &mut Rng) {
    let dir = scratch("t");
    let all = [sqlite(0, &dir, "a"), sqlite(3, &dir, "b"), nss(9, &format!("{}/n", dir)), sqlite(1, &dir, "c")];
    // set up
    let conf = write_conf(&dir, &all);
    c::initialize(Some(&conf)).must("C_Initialize");
    for s in &all {
        init_pins(s.slot as CK_SLOT_ID);
        let ss = c::open(s.slot as CK_SLOT_ID, true).must("open");
        c::login(ss, CKU_USER, USER).must("login");
        c::create(ss, &aes_t(&[7; 16]).s(CKA_LABEL, "mark").b(CKA_TOKEN, true)).must("create");
    }
    c::finalize().must("C_Finalize");
    let mut fd0 = None;
    for i in 0..n {
        if !w::time_left() {
            break;
        }
        let mut good: Vec<SlotCfg> = all.iter().filter(|_| r.chance(2, 3)).cloned().collect();
        if good.is_empty() {
            good.push(all[r.us(4)].clone());
        }
        let nb = r.range(1, 3);
        for _ in 0..nb {
            let env = r.bool();
            let (kind, rv) = match r.below(8) {
                0 => ("no-file".to_string(), if env { init_env("/nonexistent/kv.conf") } else { rvof(&c::initialize(Some("kryoptic_conf=/nonexistent/kv.conf"))) }),
                1 => ("not-utf8".to_string(), raw_init(b"kryoptic_conf=/tmp/\xff\xfe")),
                2 => ("empty-args".to_string(), {
                    std::env::set_var("KRYOPTIC_CONF", "/nonexistent/kv.conf");
                    let g = raw_init(b"");
                    std::env::remove_var("KRYOPTIC_CONF");
                    g
                }),
                _ => {
                    let b = bad_conf(&dir, r, &good);
                    let p = format!("{}/bad.conf", dir);
                    std::fs::write(&p, &b.text).unwrap();
                    (b.kind.to_string(), if env { init_env(&p) } else { rvof(&c::initialize(Some(&format!("kryoptic_conf={}", p)))) })
                }
            };
            w::eval(&format!("bad {} env={} nslots={} -> {}", kind, env, good.len(), rvn(rv)));
            w::count("bad_configs", 1);
            if rv == CKR_OK {
                viol!(["P29", "P26"], &format!("accepted:{}", kind), "C_Initialize accepted a bad configuration ({}, {}); slots {:?}", kind, if env { "environment" } else { "init args" }, c::slot_list(false));
                let _ = c::finalize();
                continue;
            }
            // library must still be uninitialised
            let g = rvof(&c::slot_list(false));
            if g != NI {
                viol!(["P29", "P26"], &format!("half-init:{}", kind), "after C_Initialize failed with {} ({}), C_GetSlotList returns {}", rvn(rv), kind, rvn(g));
                let _ = c::finalize();
            }
            if r.chance(1, 6) {
                check_uninit("after a failed C_Initialize", r, &[]);
            }
        }
        // retry with a good one
        let p = format!("{}/good.conf", dir);
        std::fs::write(&p, conf_text(&good, "")).unwrap();
        let env = r.bool();
        let g = if env { init_env(&p) } else { rvof(&c::initialize(Some(&format!("kryoptic_conf={}", p)))) };
        if g != CKR_OK {
            viol!(["P29"], &format!("retry:{}", rvn(g)), "C_Initialize with a good configuration after failed ones: {}", rvn(g));
            let _ = c::finalize();
            continue;
        }
        let want: BTreeSet<CK_SLOT_ID> = good.iter().map(|s| s.slot as CK_SLOT_ID).collect();
        let got: BTreeSet<CK_SLOT_ID> = c::slot_list(false).unwrap_or_default().into_iter().collect();
        if want != got {
            viol!(["P29", "P26"], "slots", "slots {:?}, configured {:?} (after failed initialisations)", got, want);
        }
        for s in &got {
            let h = c::open(*s, true).must("open");
            if rvof(&c::login(h, CKU_USER, USER)) != CKR_OK {
                viol!(["P29"], "login", "cannot log in to slot {} after failed initialisations", s);
            }
            let f = c::find(h, &T::new().s(CKA_LABEL, "mark")).unwrap_or_default();
            if f.len() != 1 {
                viol!(["P29"], "objects", "slot {}: {} objects after failed initialisations", s, f.len());
            }
        }
        w::eval(&format!("good {:?} env={}", want, env));
        c::finalize().must("C_Finalize");
        let f = nfd();
        match fd0 {
            None => {
                if i > 3 {
                    fd0 = Some(f)
                }
            }
            Some(b) if f > b => viol!(["P29"], "fd-leak-bad", "{} open files after failed initialisations, {} before", f, b),
            _ => {}
        }
    }
}
fn init_env(p: &str) -> RV {
    std::env::set_var("KRYOPTIC_CONF", p);
    let g = match w::hash64(p.as_bytes()) % 2 {
        0 => rvof(&c::initialize(None)),
        _ => unsafe { c::fl().C_Initialize.unwrap()(null_mut()) },
    };
    std::env::remove_var("KRYOPTIC_CONF");
    g
}

// ---------------------------------------------------------------- threads across C_Finalize

fn threads(n: u64, r: &mut Rng) {
    let dir = scratch("t");
    let slots = vec![sqlite(0, &dir, "a"), sqlite(1, &dir, "b")];
    let conf = write_conf(&dir, &slots);
    c::initialize(Some(&conf)).must("C_Initialize");
    for i in 0..2 {
        init_pins(i);
    }
    c::finalize().must("C_Finalize");
    let stop = Arc::new(AtomicBool::new(false));
    let calls = Arc::new(AtomicU64::new(0));
    let ni = Arc::new(AtomicU64::new(0));
    let lives = Arc::new(AtomicU64::new(0));
    let mut ths = vec![];
    for t in 0..6u64 {
        let (stop, calls, ni) = (stop.clone(), calls.clone(), ni.clone());
        let mut r = Rng::new(r.next() ^ t);
        ths.push(std::thread::spawn(move || {
            while !stop.load(Ordering::Relaxed) {
                let slot = r.below(2) as CK_SLOT_ID;
                match c::open(slot, true) {
                    Ok(s) => {
                        // everything that follows may be cut short by a C_Finalize; the session
                        // number may even belong to another thread's session of a later life
                        let mut l: Vec<(&str, RV)> = vec![];
                        let _ = c::login(s, CKU_USER, USER);
                        if let Ok(k) = c::create(s, &aes_t(&r.bytes(16)).b(CKA_ENCRYPT, true).b(CKA_TOKEN, r.chance(1, 4))) {
                            l.push(("EncryptInit", rvof(&c::encrypt_init(s, &M::raw(CKM_AES_CBC_PAD, &[0; 16]), k))));
                            l.push(("Encrypt", rvof(&c::encrypt(s, b"0123456789"))));
                            l.push(("Destroy", rvof(&c::destroy(s, k))));
                        }
                        l.push(("DigestInit", rvof(&c::digest_init(s, &M::new(CKM_SHA256)))));
                        l.push(("Digest", rvof(&c::digest(s, b"abc"))));
                        l.push(("Find", rvof(&c::find(s, &T::new()))));
                        l.push(("Close", rvof(&c::close(s))));
                        for (n, rv) in l {
                            calls.fetch_add(1, Ordering::Relaxed);
                            if rv == NI {
                                ni.fetch_add(1, Ordering::Relaxed);
                            }
                            if rv == CKR_GENERAL_ERROR || rv == CKR_DEVICE_ERROR || rv == CKR_HOST_MEMORY {
                                viol!(["P29", "P23"], &format!("thread:{}:{}", n, rvn(rv)), "{} racing with C_Finalize returned {}", n, rvn(rv));
                            }
                        }
                    }
                    Err(NI) => {
                        ni.fetch_add(1, Ordering::Relaxed);
                        std::thread::yield_now();
                    }
                    Err(CKR_SLOT_ID_INVALID) => viol!(["P29"], "thread:slot-invalid", "C_OpenSession saw an initialised library without its slots"),
                    Err(e) => viol!(["P29"], &format!("thread:open:{}", rvn(e)), "C_OpenSession racing with C_Finalize: {}", rvn(e)),
                }
            }
        }));
    }
    for _ in 0..n * 20 {
        if !w::time_left() {
            break;
        }
        let g = rvof(&c::initialize(Some(&conf)));
        if g != CKR_OK {
            viol!(["P29"], &format!("thread:init:{}", rvn(g)), "C_Initialize while other threads call in: {}", rvn(g));
        }
        std::thread::sleep(std::time::Duration::from_micros(r.below(6000)));
        let g = rvof(&c::finalize());
        if g != CKR_OK {
            viol!(["P29"], &format!("thread:fini:{}", rvn(g)), "C_Finalize while other threads call in: {}", rvn(g));
        }
        lives.fetch_add(1, Ordering::Relaxed);
        if r.chance(1, 2) {
            std::thread::sleep(std::time::Duration::from_micros(r.below(500)));
        }
        w::eval(&format!("lives{}", lives.load(Ordering::Relaxed) / 50));
    }
    stop.store(true, Ordering::Relaxed);
    for t in ths {
        let _ = t.join();
    }
    w::count("thread_calls", calls.load(Ordering::Relaxed));
    w::count("thread_not_initialized", ni.load(Ordering::Relaxed));
    w::count("thread_lives", lives.load(Ordering::Relaxed));
    check_uninit("after the last C_Finalize", r, &[1, 2, 3]);
    // the token is still good
    c::initialize(Some(&conf)).must("C_Initialize");
    for i in 0..2 {
        let s = c::open(i, true).must("open");
        c::login(s, CKU_USER, USER).must("login");
        for h in c::find(s, &T::new()).must("find") {
            if rvof(&c::attr(s, h, CKA_CLASS)) != CKR_OK {
                viol!(["P29"], "thread:object", "object unreadable after racing restarts");
            }
        }
    }
    let _ = c::finalize();
}

// ---------------------------------------------------------------- function tables

fn tables() {
    let e = |k: &str| w::eval(k);
    type GI = unsafe extern "C" fn(*const u8, *mut CK_VERSION, *mut *mut CK_INTERFACE, CK_FLAGS) -> RV;
    type GL = unsafe extern "C" fn(*mut CK_INTERFACE, *mut CK_ULONG) -> RV;
    type GF = unsafe extern "C" fn(*mut *mut CK_FUNCTION_LIST) -> RV;
    unsafe {
        for n in ["C_GetFunctionList", "C_GetInterface", "C_GetInterfaceList"] {
            if c::sym(n).is_null() {
                viol!(["P29"], &format!("export:{}", n), "{} is not exported", n);
                return;
            }
        }
        let gi: GI = std::mem::transmute(c::sym("C_GetInterface"));
        let gl: GL = std::mem::transmute(c::sym("C_GetInterfaceList"));
        let gf: GF = std::mem::transmute(c::sym("C_GetFunctionList"));
        // size protocol
        let mut n: CK_ULONG = 9999;
        let rv = gl(null_mut(), &mut n);
        if rv != CKR_OK || n == 0 || n > 64 {
            viol!(["P29"], "ifl-size", "C_GetInterfaceList(NULL) = {}, count {}", rvn(rv), n);
            return;
        }
        let g = CK_INTERFACE { pInterfaceName: 0xa5a5 as *const _, pFunctionList: 0xa5a5 as *const _, flags: 0xa5a5 };
        for have in 0..n + 3 {
            let mut v = vec![g; n as usize + 4];
            let mut m = have;
            let rv = gl(v.as_mut_ptr(), &mut m);
            let touched = v.iter().filter(|x| x.flags != 0xa5a5 || x.pFunctionList as usize != 0xa5a5).count() as CK_ULONG;
            e(&format!("ifl have{} need{} {}", have, n, rvn(rv)));
            if have < n {
                if rv != CKR_BUFFER_TOO_SMALL || touched > have {
                    viol!(["P29", "P21"], "ifl-small", "C_GetInterfaceList with room for {} of {}: {} and {} entries written", have, n, rvn(rv), touched);
                }
            } else if rv != CKR_OK || m != n || touched != n {
                viol!(["P29", "P21"], "ifl-full", "C_GetInterfaceList with room for {} of {}: {} count {} written {}", have, n, rvn(rv), m, touched);
            }
        }
        let mut v = vec![g; n as usize];
        let mut m = n;
        gl(v.as_mut_ptr(), &mut m);
        let mut vers = BTreeMap::new();
        for i in &v {
            let name = std::ffi::CStr::from_ptr(i.pInterfaceName as *const _).to_bytes().to_vec();
            let ver = *(i.pFunctionList as *const CK_VERSION);
            if name == b"PKCS 11" {
                if vers.insert((ver.major, ver.minor), (i.pFunctionList, i.flags)).is_some() {
                    viol!(["P29"], "ifl-dup", "interface version {}.{} listed twice", ver.major, ver.minor);
                }
            }
            // each is reachable with C_GetInterface
            let mut nm = name.clone();
            nm.push(0);
            let mut vv = ver;
            let mut p: *mut CK_INTERFACE = null_mut();
            let rv = gi(nm.as_ptr(), &mut vv, &mut p, i.flags);
            e(&format!("gi {}.{} {}", ver.major, ver.minor, rvn(rv)));
            if rv != CKR_OK || p.is_null() || (*p).pFunctionList != i.pFunctionList || (*p).flags != i.flags || std::ffi::CStr::from_ptr((*p).pInterfaceName as *const _).to_bytes() != &name[..] {
                viol!(["P29"], "gi-mismatch", "C_GetInterface({}.{}) = {} and does not match C_GetInterfaceList", ver.major, ver.minor, rvn(rv));
            }
            if (vv.major, vv.minor) != (ver.major, ver.minor) {
                viol!(["P29"], "gi-version-written", "C_GetInterface changed the caller's version");
            }
        }
        for need in [(2u8, 40u8), (3, 0), (3, 2)] {
            if !vers.contains_key(&need) {
                viol!(["P29"], "ifl-missing", "interface {}.{} is not offered", need.0, need.1);
                return;
            }
        }
        // defaults and refusals
        let std = b"PKCS 11\0".as_ptr();
        let mut p: *mut CK_INTERFACE = null_mut();
        for (nm, what) in [(std::ptr::null(), "NULL"), (std, "PKCS 11")] {
            let rv = gi(nm, null_mut(), &mut p, 0);
            e(&format!("gi default {} {}", what, rvn(rv)));
            if rv != CKR_OK || !vers.values().any(|x| x.0 == (*p).pFunctionList) {
                viol!(["P29"], "gi-default", "C_GetInterface({}, NULL) = {}", what, rvn(rv));
            }
            for (k, f) in &vers {
                let mut vv = CK_VERSION { major: k.0, minor: k.1 };
                let rv = gi(nm, &mut vv, &mut p, 0);
                if rv != CKR_OK || (*p).pFunctionList != f.0 {
                    viol!(["P29"], "gi-by-version", "C_GetInterface({}, {}.{}) = {} (wrong table)", what, k.0, k.1, rvn(rv));
                }
            }
            for major in 0..6u8 {
                for minor in [0u8, 1, 2, 3, 20, 39, 40, 41, 255] {
                    if vers.contains_key(&(major, minor)) {
                        continue;
                    }
                    let mut vv = CK_VERSION { major, minor };
                    let rv = gi(nm, &mut vv, &mut p, 0);
                    e(&format!("gi none {}", rvn(rv)));
                    if rv == CKR_OK {
                        viol!(["P29"], "gi-unknown-version", "C_GetInterface({}, {}.{}) succeeded", what, major, minor);
                    }
                }
            }
        }
        for nm in [&b"PKCS 1\0"[..], b"PKCS 111\0", b"\0", b"pkcs 11\0", b"Vendor X\0"] {
            let rv = gi(nm.as_ptr(), null_mut(), &mut p, 0);
            e(&format!("gi name {:?} {}", nm, rvn(rv)));
            if rv == CKR_OK && nm.len() > 1 {
                viol!(["P29"], "gi-unknown-name", "C_GetInterface({:?}) succeeded", String::from_utf8_lossy(nm));
            }
        }
        let mut p24: *mut CK_FUNCTION_LIST = null_mut();
        let rv = gf(&mut p24);
        if rv != CKR_OK || p24.is_null() || ((*p24).version.major, (*p24).version.minor) != (2, 40) {
            viol!(["P29"], "gfl", "C_GetFunctionList = {}", rvn(rv));
            return;
        }
        for (r, w) in [(gi(std, null_mut(), null_mut(), 0), "C_GetInterface"), (gl(null_mut(), null_mut()), "C_GetInterfaceList"), (gf(null_mut()), "C_GetFunctionList")] {
            if r != CKR_ARGUMENTS_BAD {
                viol!(["P29", "P25"], &format!("null:{}", w), "{} with a NULL result pointer: {}", w, rvn(r));
            }
        }
        // the tables agree: the older is a prefix of the newer
        let ptrs = |p: *const c_void, bytes: usize| -> Vec<usize> {
            let n = bytes / 8 - 1;
            (0..n).map(|i| *((p as *const usize).add(i + 1))).collect()
        };
        let t = [
            ("2.40", ptrs(p24 as *const c_void, std::mem::size_of::<CK_FUNCTION_LIST>())),
            ("2.40i", ptrs(vers[&(2, 40)].0, std::mem::size_of::<CK_FUNCTION_LIST>())),
            ("3.0", ptrs(vers[&(3, 0)].0, std::mem::size_of::<CK_FUNCTION_LIST_3_0>())),
            ("3.2", ptrs(vers[&(3, 2)].0, std::mem::size_of::<CK_FUNCTION_LIST_3_2>())),
        ];
        for (name, l) in &t {
            for (i, p) in l.iter().enumerate() {
                e(&format!("table {} slot {}", name, i));
                if *p == 0 {
                    viol!(["P29"], &format!("null-entry:{}:{}", name, i), "entry {} of function list {} is NULL", i, name);
                } else if *p != t[3].1[i] {
                    viol!(["P29"], &format!("table-differs:{}:{}", name, i), "entry {} of function list {} is not the function of list 3.2", i, name);
                }
            }
        }
        // entries that must be distinct functions really differ: distinguishable by what they do
        w::count("table_entries", t.iter().map(|x| x.1.len() as u64).sum());
        // the table's own C_GetFunctionList / C_GetInterface* work too
        let mut q: *mut CK_FUNCTION_LIST = null_mut();
        let rv = (*p24).C_GetFunctionList.unwrap()(&mut q);
        if rv != CKR_OK || q != p24 {
            viol!(["P29"], "gfl-in-table", "C_GetFunctionList through the table: {}", rvn(rv));
        }
        let mut inf = CK_INFO::default();
        let rv = c::fl().C_GetInfo.unwrap()(&mut inf);
        if rv == CKR_OK && (inf.cryptokiVersion.major, inf.cryptokiVersion.minor) != *vers.keys().max().unwrap() {
            viol!(["P29"], "info-version", "C_GetInfo version {}.{}", inf.cryptokiVersion.major, inf.cryptokiVersion.minor);
        }
    }
}

// ---------------------------------------------------------------- configuration (P26)

fn pad(s: &str, n: usize) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.truncate(n);
    v.resize(n, b' ');
    v
}
fn mname(m: CK_ULONG) -> Option<&'static str> {
    CKM_T.iter().find(|x| x.0 == m && !x.1.contains("VENDOR")).map(|x| x.1)
}
fn conf(_prop: &str, n: u64, r: &mut Rng) {
    let dir = scratch("t");
    // the mechanisms of an unrestricted slot
    let c0 = write_conf(&dir, &[sqlite(0, &dir, "base")]);
    c::initialize(Some(&c0)).must("C_Initialize");
    c::init_token(0, SO, "base").must("C_InitToken");
    let base: BTreeSet<CK_ULONG> = c::mech_list(0).must("C_GetMechanismList").into_iter().collect();
    let info0: BTreeMap<CK_ULONG, (CK_ULONG, CK_ULONG, CK_FLAGS)> = base.iter().map(|m| (*m, c::mech_info(0, *m).map(|i| (i.ulMinKeySize, i.ulMaxKeySize, i.flags)).unwrap())).collect();
    c::finalize().must("C_Finalize");
    let named: Vec<CK_ULONG> = base.iter().cloned().filter(|m| mname(*m).is_some()).collect();
    for it in 0..n {
        if !w::time_left() {
            break;
        }
        let d = scratch("c");
        let ns = r.range(1, 4);
        let mut ids = BTreeSet::new();
        let mut cfg: Vec<(SlotCfg, Option<String>, Option<String>, Option<(bool, BTreeSet<CK_ULONG>)>)> = vec![];
        for i in 0..ns {
            let id = *r.pick(&[0u64, 1, 2, 3, 7, 42, 1000, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe]);
            if !ids.insert(id) {
                continue;
            }
            let mut s = if r.chance(1, 4) { nss(id, &format!("{}/n{}", d, i)) } else { sqlite(id, &d, &format!("t{}", i)) };
            let txt = |r: &mut Rng, max: usize| -> Option<String> {
                if r.bool() {
                    return None;
                }
                let l = *r.pick(&[1, 2, 5, max - 1, max, max + 1, max + 20]);
                Some((0..l).map(|_| *r.pick(&['a', 'Z', '0', ' ', '-', '.', '/'])).collect::<String>() + "x")
            };
            let desc = txt(r, 64);
            let man = txt(r, 32);
            if let Some(x) = &desc {
                s.extra.push_str(&format!("description = \"{}\"\n", x));
            }
            if let Some(x) = &man {
                s.extra.push_str(&format!("manufacturer = \"{}\"\n", x));
            }
            let mechs = if r.bool() {
                let deny = r.bool();
                let mut set: BTreeSet<CK_ULONG> = (0..r.below(8)).map(|_| *r.pick(&named)).collect();
                if !deny && set.is_empty() {
                    set.insert(CKM_SHA256);
                }
                let mut l: Vec<String> = set.iter().map(|m| format!("\"{}\"", mname(*m).unwrap())).collect();
                if r.chance(1, 4) {
                    // known but not offered
                    l.push("\"CKM_MD5\"".into());
                }
                if deny {
                    l.insert(0, "\"DENY\"".into());
                }
                s.extra.push_str(&format!("mechanisms = [{}]\n", l.join(", ")));
                Some((deny, set))
            } else {
                None
            };
            cfg.push((s, desc, man, mechs));
        }
        let der = r.below(3);
        let head = match der {
            0 => "",
            1 => "[ec_point_encoding]\nencoding = \"Bytes\"\n\n",
            _ => "[ec_point_encoding]\nencoding = \"Der\"\n\n",
        };
        let envenc = r.below(4);
        match envenc {
            0 => std::env::set_var("KRYOPTIC_EC_POINT_ENCODING", "DER"),
            1 => std::env::set_var("KRYOPTIC_EC_POINT_ENCODING", "BYTES"),
            2 => std::env::set_var("KRYOPTIC_EC_POINT_ENCODING", "bogus"),
            _ => std::env::remove_var("KRYOPTIC_EC_POINT_ENCODING"),
        }
        let isder = match envenc {
            0 => true,
            1 => false,
            _ => der == 2,
        };
        let p = format!("{}/token.conf", d);
        let slots: Vec<SlotCfg> = cfg.iter().map(|x| x.0.clone()).collect();
        let text = conf_text(&slots, head);
        std::fs::write(&p, &text).unwrap();
        let via = r.below(4);
        let g = match via {
            0 => init_env(&p),
            1 => {
                std::fs::create_dir_all(format!("{}/kryoptic", d)).unwrap();
                std::fs::copy(&p, format!("{}/kryoptic/token.conf", d)).unwrap();
                std::env::set_var("XDG_CONFIG_HOME", &d);
                let g = rvof(&c::initialize(None));
                std::env::remove_var("XDG_CONFIG_HOME");
                g
            }
            2 => {
                std::fs::create_dir_all(format!("{}/.config/kryoptic", d)).unwrap();
                std::fs::copy(&p, format!("{}/.config/kryoptic/token.conf", d)).unwrap();
                let (h, x) = (std::env::var("HOME"), std::env::var("XDG_CONFIG_HOME"));
                std::env::set_var("HOME", &d);
                std::env::remove_var("XDG_CONFIG_HOME");
                let g = rvof(&c::initialize(None));
                if let Ok(h) = h {
                    std::env::set_var("HOME", h);
                }
                if let Ok(x) = x {
                    std::env::set_var("XDG_CONFIG_HOME", x);
                }
                g
            }
            _ => rvof(&c::initialize(Some(&format!("kryoptic_conf={}", p)))),
        };
        std::env::remove_var("KRYOPTIC_EC_POINT_ENCODING");
        w::eval(&format!("conf slots{} via{} der{}/{} mechs{:?}", cfg.len(), via, der, envenc, cfg.iter().map(|x| x.3.as_ref().map(|m| (m.0, m.1.len()))).collect::<Vec<_>>()));
        if g != CKR_OK {
            viol!(["P26"], &format!("conf-refused:{}", rvn(g)), "C_Initialize refused a valid configuration (via {}): {}\n{}", via, rvn(g), text);
            continue;
        }
        let got = c::slot_list(false).must("C_GetSlotList");
        let got_set: BTreeSet<u64> = got.iter().map(|x| *x as u64).collect();
        if got_set != ids || got.len() != ids.len() {
            viol!(["P26"], "slot-ids", "slots {:?}, configured {:?}", got, ids);
        }
        for (s, desc, man, mechs) in &cfg {
            let id = s.slot as CK_SLOT_ID;
            match c::slot_info(id) {
                Ok(i) => {
                    let wd = desc.as_ref().map(|x| pad(x, 64)).unwrap_or(pad("Kryoptic Slot", 64));
                    let wm = man.as_ref().map(|x| pad(x, 32)).unwrap_or(pad("Kryoptic Project", 32));
                    if i.slotDescription.to_vec() != wd || i.manufacturerID.to_vec() != wm {
                        viol!(["P26"], "slot-info", "slot {}: description {:?} manufacturer {:?}, configured {:?} {:?}", id, String::from_utf8_lossy(&i.slotDescription), String::from_utf8_lossy(&i.manufacturerID), desc, man);
                    }
                    if i.flags & CKF_TOKEN_PRESENT == 0 {
                        viol!(["P26"], "slot-flags", "slot {} flags {:#x}", id, i.flags);
                    }
                }
                Err(e) => viol!(["P26"], "slot-info", "C_GetSlotInfo({}) {}", id, rvn(e)),
            }
            // fresh storage: not initialised
            if let Ok(ti) = c::token_info(id) {
                if ti.flags & CKF_TOKEN_INITIALIZED != 0 {
                    viol!(["P26"], "fresh-token", "slot {}: new storage reported as an initialised token", id);
                }
            }
        }
        // one token set up, the others stay untouched; mechanisms work as declared
        let k = r.us(cfg.len());
        let id = cfg[k].0.slot as CK_SLOT_ID;
        let lab = format!("label-{}", it);
        c::init_token(id, SO, &lab).must("C_InitToken");
        for (s, ..) in &cfg {
            if let Ok(ti) = c::token_info(s.slot as CK_SLOT_ID) {
                let isin = ti.flags & CKF_TOKEN_INITIALIZED != 0;
                let me = s.slot as CK_SLOT_ID == id;
                if isin != me || (me && cfg[k].0.dbtype == "sqlite" && ti.label.to_vec() != pad(&lab, 32)) {
                    viol!(["P26"], "init-other", "after C_InitToken of slot {} slot {} is initialised={} label {:?}", id, s.slot, isin, String::from_utf8_lossy(&ti.label));
                }
            }
        }
        {
            let mechs = &cfg[k].3;
            let want: BTreeSet<CK_ULONG> = match mechs {
                None => base.clone(),
                Some((true, l)) => base.difference(l).cloned().collect(),
                Some((false, l)) => base.intersection(l).cloned().collect(),
            };
            let gl = c::mech_list(id).unwrap_or_default();
            let gs: BTreeSet<CK_ULONG> = gl.iter().cloned().collect();
            if gs != want || gl.len() != gs.len() {
                let extra: Vec<_> = gs.difference(&want).map(|m| ckmn(*m)).collect();
                let miss: Vec<_> = want.difference(&gs).map(|m| ckmn(*m)).collect();
                viol!(["P26", "P30"], "mech-list", "slot {}: mechanisms not configured {:?}, missing {:?}", id, extra, miss);
            }
            for m in &base {
                match c::mech_info(id, *m) {
                    Ok(i) if want.contains(m) && (i.ulMinKeySize, i.ulMaxKeySize, i.flags) == info0[m] => {}
                    Err(CKR_MECHANISM_INVALID) if !want.contains(m) => {}
                    g => viol!(["P26", "P30"], "mech-info", "slot {}: C_GetMechanismInfo({}) {:?} while the mechanism is {}configured", id, ckmn(*m), g.map(|i| i.flags).map_err(rvn), if want.contains(m) { "" } else { "not " }),
                }
            }
        }
        let s = c::open(id, true).must("C_OpenSession");
        c::login(s, CKU_SO, SO).must("login so");
        c::init_pin(s, USER).must("C_InitPIN");
        c::logout(s).must("logout");
        c::login(s, CKU_USER, USER).must("login user");
        let allowed = |m: CK_ULONG| match &cfg[k].3 {
            None => true,
            Some((true, l)) => !l.contains(&m),
            Some((false, l)) => l.contains(&m),
        };
        let kh = c::create(s, &aes_t(&[9; 16]).b(CKA_ENCRYPT, true).b(CKA_SIGN, true).b(CKA_DERIVE, true).b(CKA_WRAP, true)).must("create");
        let mut uses: Vec<(CK_ULONG, RV)> = vec![];
        for m in [CKM_SHA256, CKM_SHA_1, CKM_SHA512, CKM_SHA3_256, CKM_SHA384] {
            uses.push((m, rvof(&c::digest_init(s, &M::new(m)))));
            let _ = c::digest(s, b"x");
        }
        uses.push((CKM_AES_ECB, rvof(&c::encrypt_init(s, &M::new(CKM_AES_ECB), kh))));
        let _ = c::encrypt(s, &[0; 16]);
        uses.push((CKM_AES_CMAC, rvof(&c::sign_init(s, &M::new(CKM_AES_CMAC), kh))));
        let _ = c::sign(s, &[0; 16]);
        uses.push((CKM_AES_KEY_GEN, rvof(&c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &T::new().u(CKA_VALUE_LEN, 16)))));
        uses.push((CKM_GENERIC_SECRET_KEY_GEN, rvof(&c::generate_key(s, &M::new(CKM_GENERIC_SECRET_KEY_GEN), &T::new().u(CKA_VALUE_LEN, 16)))));
        let gp = c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, crate::props::sess::P256), &T::new());
        uses.push((CKM_EC_KEY_PAIR_GEN, rvof(&gp)));
        for (m, rv) in &uses {
            w::eval(&format!("use {} allowed={} {}", ckmn(*m), allowed(*m), rvn(*rv)));
            let ok = if allowed(*m) { *rv == CKR_OK } else { *rv == CKR_MECHANISM_INVALID };
            if !ok {
                viol!(["P26", "P30"], &format!("mech-use:{}", ckmn(*m)), "slot {} ({}allowed): using {} returned {}", id, if allowed(*m) { "" } else { "not " }, ckmn(*m), rvn(*rv));
            }
        }
        // EC point encoding
        let (x, y) = &*P256G;
        let mut raw = vec![4u8];
        raw.extend_from_slice(x);
        raw.extend_from_slice(y);
        let mut derp = vec![4u8, raw.len() as u8];
        derp.extend_from_slice(&raw);
        let ph = match &gp {
            Ok((p, _)) if r.bool() => Some((*p, None)),
            _ => c::create(s, &T::new().u(CKA_CLASS, CKO_PUBLIC_KEY).u(CKA_KEY_TYPE, CKK_EC).v(CKA_EC_PARAMS, crate::props::sess::P256).v(CKA_EC_POINT, &derp)).ok().map(|h| (h, Some(derp.clone()))),
        };
        if let Some((h, want)) = ph {
            let v = c::attr(s, h, CKA_EC_POINT);
            match v {
                Ok(v) => {
                    w::eval(&format!("ecpoint der{} env{} len{}", der, envenc, v.len()));
                    // NIST points are always DER encoded; see the montgomery key below
                    if let Some(wv) = want {
                        if v != wv {
                            viol!(["P26"], "ec-point", "CKA_EC_POINT {} instead of {}", w::hex(&v), w::hex(&wv));
                        }
                    } else if v.len() != 67 {
                        viol!(["P26"], "ec-point", "CKA_EC_POINT of {} bytes", v.len());
                    }
                }
                Err(e) => viol!(["P26"], "ec-point", "CKA_EC_POINT {}", rvn(e)),
            }
        }
        if allowed(CKM_EC_MONTGOMERY_KEY_PAIR_GEN) && base.contains(&CKM_EC_MONTGOMERY_KEY_PAIR_GEN) {
            if let Ok((p, _)) = c::generate_pair(s, &M::new(CKM_EC_MONTGOMERY_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, &[0x06, 0x03, 0x2b, 0x65, 0x6e]), &T::new()) {
                let want = if isder { 34 } else { 32 };
                let lens = c::attr_lens(s, p, &[CKA_EC_POINT]);
                match c::attr(s, p, CKA_EC_POINT) {
                    Ok(v) => {
                        w::eval(&format!("montpoint der={} len{}", isder, v.len()));
                        if v.len() != want || (isder && v[..2] != [4, 32]) {
                            viol!(["P26"], "ec-point-encoding", "configured point encoding {} (config {}, environment {}, via {}): X25519 CKA_EC_POINT {}", if isder { "DER" } else { "bytes" }, der, envenc, via, w::hex(&v));
                        }
                    }
                    Err(e) => viol!(["P26", "P21"], "ec-point-encoding", "CKA_EC_POINT {} (len query {:?})", rvn(e), lens),
                }
            }
        }
        let _ = ops::DIGESTS;
        c::finalize().must("C_Finalize");
    }
}
static P256G: std::sync::LazyLock<(Vec<u8>, Vec<u8>)> = std::sync::LazyLock::new(|| {
    (w::unhex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), w::unhex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"))
});
