//! Many threads at once: histories are linearizable, nothing is lost or duplicated (P23).
use crate::c::{self, *};
use crate::ops::{self, Keys};
use crate::p11::*;
use crate::refc;
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P23" => {
            let mut v = vec![];
            // (job, argument, how many): argument 1 = NSS storage
            for (n, a, m) in [("conc.obj", 0, 3), ("conc.obj", 1, 1), ("conc.login", 0, 2), ("conc.login", 1, 1), ("conc.sess", 0, 2), ("conc.op", 0, 2), ("conc.crypto", 0, 2), ("conc.store", 0, 2), ("conc.store", 1, 1), ("conc.init", 0, 1)] {
                v.extend(times(m * k, |i| {
                    let j = job(n, a, 21_000);
                    if i % 2 == 0 { j.jit() } else { j }
                }));
            }
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    let nss = arg == 1;
    match job {
        "conc.obj" => obj(nss, r),
        "conc.login" => login(nss, r),
        "conc.sess" => sess(r),
        "conc.op" => op(r),
        "conc.crypto" => crypto(r),
        "conc.store" => store(nss, r),
        "conc.init" => init(r),
        _ => panic!("{}", job),
    }
    let h = jit_hits();
    if h > 0 {
        w::count("injected-delays", h);
    }
    w::count("overlapping-pairs", OVERLAP.load(Relaxed));
}
// ------------------------------------------------------------------ schedules
fn jit_sym(n: &str) -> *mut libc::c_void {
    let n = std::ffi::CString::new(n).unwrap();
    unsafe { libc::dlsym(std::ptr::null_mut(), n.as_ptr()) }
}
/// density of injected delays for this round (0 = none)
fn jitter(r: &mut Rng) {
    let p = jit_sym("kvjit_level");
    if !p.is_null() {
        let f: extern "C" fn(i32) = unsafe { std::mem::transmute(p) };
        f(*r.pick(&[0, 3, 5, 6, 7, 8]));
    }
}
fn jit_off() {
    let p = jit_sym("kvjit_level");
    if !p.is_null() {
        let f: extern "C" fn(i32) = unsafe { std::mem::transmute(p) };
        f(0);
    }
}
fn jit_hits() -> u64 {
    let p = jit_sym("kvjit_hits");
    if p.is_null() {
        return 0;
    }
    let f: extern "C" fn() -> libc::c_ulong = unsafe { std::mem::transmute(p) };
    f() as u64
}
static CLOCK: AtomicU64 = AtomicU64::new(1);
static OVERLAP: AtomicU64 = AtomicU64::new(0);
fn tick() -> u64 {
    // relaxed: the clock must not order the threads for the race detector (x86 RMWs are full barriers)
    CLOCK.fetch_add(1, Relaxed)
}
#[derive(Clone, Debug)]
struct Ev<O> {
    th: usize,
    t0: u64,
    t1: u64,
    o: O,
}
/// run one plan per thread, started together; `f` makes the call and says what happened
fn together<P: Send + Sync, O: Send>(plans: &[Vec<P>], r: &mut Rng, f: impl Fn(usize, &P) -> O + Sync) -> Vec<Ev<O>> {
    let go = AtomicUsize::new(0);
    let n = plans.len();
    let seeds: Vec<u64> = plans.iter().map(|_| r.next()).collect();
    let pace = *r.pick(&[0u64, 0, 0, 30, 200]);
    jitter(r);
    let evs = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (go, f, plan, seed) = (&go, &f, &plans[i], seeds[i]);
                sc.spawn(move || {
                    let mut r = Rng::new(seed);
                    let mut v = Vec::with_capacity(plan.len());
                    go.fetch_add(1, SeqCst);
                    let mut spins = 0;
                    while go.load(SeqCst) < n {
                        spins += 1;
                        if spins > 2000 {
                            std::thread::yield_now();
                        }
                    }
                    for p in plan {
                        if pace > 0 && r.chance(1, 3) {
                            for _ in 0..r.below(pace) * 20 {
                                std::hint::spin_loop();
                            }
                        }
                        let t0 = tick();
                        let o = f(i, p);
                        let t1 = tick();
                        v.push(Ev { th: i, t0, t1, o });
                    }
                    v
                })
            })
            .collect();
        let mut all = vec![];
        for h in hs {
            match h.join() {
                Ok(v) => all.extend(v),
                Err(_) => viol!(["P23"], "conc:thread-died", "a thread died"),
            }
        }
        all
    });
    jit_off();
    let mut x = 0;
    for a in &evs {
        for b in &evs {
            if a.th < b.th && a.t0 < b.t1 && b.t0 < a.t1 {
                x += 1;
            }
        }
    }
    OVERLAP.fetch_add(x, Relaxed);
    evs
}
fn order<O>(evs: &mut [Ev<O>]) {
    evs.sort_by_key(|e| e.t0);
}
fn show<O: Debug>(evs: &[Ev<O>]) -> String {
    evs.iter().map(|e| format!("t{} [{}..{}] {:?}", e.th, e.t0, e.t1, e.o)).collect::<Vec<_>>().join("; ")
}
/// is there a sequential order, consistent with real time, in which every result is right?
fn linearizable<S: Clone + Eq + Hash, O>(init: S, evs: &[Ev<O>], step: &dyn Fn(&S, &O) -> Option<S>) -> bool {
    assert!(evs.len() <= 128);
    let full = if evs.len() == 128 { u128::MAX } else { (1u128 << evs.len()) - 1 };
    let mut seen: HashSet<(u128, S)> = HashSet::new();
    let mut stack = vec![(0u128, init)];
    while let Some((m, s)) = stack.pop() {
        if m == full {
            return true;
        }
        if seen.len() > 3_000_000 {
            w::count("histories-too-large", 1);
            return true;
        }
        let lim = evs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 0).map(|(_, e)| e.t1).min().unwrap();
        for (i, e) in evs.iter().enumerate().rev() {
            if m >> i & 1 == 0 && e.t0 < lim {
                if let Some(s2) = step(&s, &e.o) {
                    let k = (m | 1 << i, s2);
                    if !seen.contains(&k) {
                        seen.insert(k.clone());
                        stack.push(k);
                    }
                }
            }
        }
    }
    false
}
fn token(nss: bool, name: &str) -> Tok {
    if nss { fresh_nss(name) } else { fresh(name) }
}
// ------------------------------------------------------------------ objects
#[derive(Clone, Debug)]
enum OP {
    Set(usize, u64),
    SetD(usize, u64),
    Get(usize),
    GetD(usize),
    FindV(usize, u64),
    FindAny(usize),
    Copy(usize),
    Use(usize),
    Destroy(usize),
    CloseOwner,
}
#[derive(Clone, Debug)]
enum OR {
    Done,
    Gone,
    Val(u64),
    Here(bool),
    Torn(String),
    Err(&'static str, String),
}
fn vals(v: u64) -> (Vec<u8>, Vec<u8>) {
    (format!("v{}", v).into_bytes(), format!("v{}-{}", v, "x".repeat((v % 40) as usize)).into_bytes())
}
fn date(v: u64) -> Vec<u8> {
    format!("{:04}0101", 2000 + v % 5000).into_bytes()
}
fn obj(nss: bool, r: &mut Rng) {
    let t = token(nss, "conc");
    let keep = t.rw_user();
    let mut uniq = 1u64;
    while w::time_left() && w::viols() < 10 {
        let nt = r.range(2, 6);
        let ss: Vec<H> = (0..nt).map(|_| c::open(t.slot, true).must("C_OpenSession")).collect();
        let owner = c::open(t.slot, true).must("C_OpenSession");
        let no = r.range(1, 3);
        let mut hs = vec![];
        let mut is_tok = vec![];
        for i in 0..no {
            let tk = r.chance(2, 3);
            uniq += 1;
            let (l, id) = vals(uniq);
            // the application-independent mark is the key value itself
            let kv = refc::hash(refc::SHA256, &[uniq.to_ne_bytes(), r.next().to_ne_bytes()].concat());
            let tm = ops::aes_key(&kv).b(CKA_TOKEN, tk).b(CKA_PRIVATE, true).v(CKA_LABEL, &l).v(CKA_ID, &id).v(CKA_END_DATE, &date(1)).b(CKA_COPYABLE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
            let tm = if nss { tm.del(CKA_END_DATE) } else { tm };
            hs.push((c::create(if tk { keep } else { owner }, &tm).must("C_CreateObject"), uniq));
            is_tok.push(tk);
            let _ = i;
        }
        let per = r.range(3, 7);
        let destroyer = r.chance(2, 3);
        let mut closed = false;
        let mut plans: Vec<Vec<OP>> = vec![];
        for _ in 0..nt {
            let mut p = vec![];
            for k in 0..per {
                let i = r.us(no);
                uniq += 1;
                let late = k + 1 == per || r.chance(1, 8);
                p.push(match r.below(14) {
                    0..=2 => OP::Set(i, uniq),
                    3 | 4 if !nss => OP::SetD(i, 2 + uniq % 4000),
                    5 | 6 => OP::Get(i),
                    7 if !nss => OP::GetD(i),
                    8 => OP::FindV(i, if r.bool() { uniq } else { hs[i].1 }),
                    9 => OP::FindAny(i),
                    10 => OP::Copy(i),
                    11 => OP::Use(i),
                    12 if destroyer && late => OP::Destroy(i),
                    13 if destroyer && late && !closed => {
                        closed = true;
                        OP::CloseOwner
                    }
                    _ => OP::Get(i),
                });
            }
            // search for values another thread writes
            plans.push(p);
        }
        let written: Vec<(usize, u64)> = plans.iter().flatten().filter_map(|p| if let OP::Set(i, v) = p { Some((*i, *v)) } else { None }).collect();
        for p in plans.iter_mut().flatten() {
            if let OP::FindV(i, v) = p {
                if *v != hs[*i].1 && !written.is_empty() {
                    let (j, x) = *r.pick(&written);
                    *i = j;
                    *v = x;
                }
            }
        }
        let values: Vec<Vec<u8>> = hs.iter().map(|(h, _)| c::attr(keep, *h, CKA_VALUE).must("C_GetAttributeValue")).collect();
        let gone = |rv: RV| rv == CKR_OBJECT_HANDLE_INVALID || rv == CKR_KEY_HANDLE_INVALID;
        let exec = |s: H, op: &OP| -> OR {
            let fail = |f: &'static str, rv: RV| if gone(rv) { OR::Gone } else { OR::Err(f, rvn(rv)) };
            match op {
                OP::Set(i, v) => {
                    let (l, id) = vals(*v);
                    match c::set(s, hs[*i].0, &T::new().v(CKA_LABEL, &l).v(CKA_ID, &id)) {
                        Ok(()) => OR::Done,
                        Err(e) => fail("C_SetAttributeValue", e),
                    }
                }
                OP::SetD(i, v) => match c::set(s, hs[*i].0, &T::new().v(CKA_END_DATE, &date(*v))) {
                    Ok(()) => OR::Done,
                    Err(e) => fail("C_SetAttributeValue", e),
                },
                OP::Get(i) => {
                    let (rv, v) = c::attrs_cap(s, hs[*i].0, &[CKA_LABEL, CKA_ID, CKA_VALUE], 128);
                    if rv != CKR_OK {
                        return fail("C_GetAttributeValue", rv);
                    }
                    pair(&v, Some(&values[*i]))
                }
                OP::GetD(i) => match c::attr(s, hs[*i].0, CKA_END_DATE) {
                    Ok(v) => OR::Val(String::from_utf8_lossy(&v[..4.min(v.len())]).parse::<u64>().unwrap_or(0).wrapping_sub(2000)),
                    Err(e) => fail("C_GetAttributeValue", e),
                },
                OP::FindV(i, v) => {
                    let (l, id) = vals(*v);
                    match c::find(s, &T::new().v(CKA_LABEL, &l).v(CKA_ID, &id)) {
                        Ok(x) => OR::Here(x.contains(&hs[*i].0)),
                        Err(e) => OR::Err("C_FindObjects", rvn(e)),
                    }
                }
                OP::FindAny(i) => match c::find(s, &T::new().u(CKA_CLASS, CKO_SECRET_KEY)) {
                    Ok(x) => {
                        let n = x.iter().filter(|h| **h == hs[*i].0).count();
                        if n > 1 { OR::Torn(format!("found {} times", n)) } else { OR::Here(n == 1) }
                    }
                    Err(e) => OR::Err("C_FindObjects", rvn(e)),
                },
                OP::Copy(i) => match c::copy(s, hs[*i].0, &T::new().b(CKA_TOKEN, false)) {
                    Ok(h) => {
                        let (rv, v) = c::attrs_cap(s, h, &[CKA_LABEL, CKA_ID, CKA_VALUE], 128);
                        let o = if rv == CKR_OK { pair(&v, Some(&values[*i])) } else { OR::Err("C_GetAttributeValue of a copy", rvn(rv)) };
                        match c::destroy(s, h) {
                            Ok(()) => o,
                            Err(e) => OR::Err("C_DestroyObject of a copy", rvn(e)),
                        }
                    }
                    Err(e) => fail("C_CopyObject", e),
                },
                OP::Use(i) => match c::encrypt_init(s, &M::new(CKM_AES_ECB), hs[*i].0) {
                    Ok(()) => {
                        let d = [*i as u8; 32];
                        match c::encrypt(s, &d) {
                            Ok(v) if v == refc::aes_ecb(&values[*i], &d, true) => OR::Here(true),
                            Ok(v) => OR::Torn(format!("encryption gave {}", w::hx(&v))),
                            Err(e) => OR::Err("C_Encrypt", rvn(e)),
                        }
                    }
                    Err(e) if gone(e) => OR::Here(false),
                    Err(e) => OR::Err("C_EncryptInit", rvn(e)),
                },
                OP::Destroy(i) => match c::destroy(s, hs[*i].0) {
                    Ok(()) => OR::Done,
                    Err(e) => fail("C_DestroyObject", e),
                },
                OP::CloseOwner => match c::close(owner) {
                    Ok(()) => OR::Done,
                    Err(e) => OR::Err("C_CloseSession", rvn(e)),
                },
            }
        };
        let evs = together(&plans, r, |i, p| (p.clone(), exec(ss[i], p)));
        // what is there at the end
        let mut evs = evs;
        for i in 0..no {
            for p in [OP::Get(i), OP::GetD(i), OP::FindAny(i)] {
                if nss && matches!(p, OP::GetD(_)) {
                    continue;
                }
                let t0 = tick();
                let o = (p.clone(), exec(keep, &p));
                evs.push(Ev { th: 99, t0, t1: tick(), o });
            }
        }
        order(&mut evs);
        for i in 0..no {
            let mine: Vec<Ev<(OP, OR)>> = evs
                .iter()
                .filter(|e| match e.o.0 {
                    OP::Set(j, _) | OP::SetD(j, _) | OP::Get(j) | OP::GetD(j) | OP::FindV(j, _) | OP::FindAny(j) | OP::Copy(j) | OP::Use(j) | OP::Destroy(j) => i == j,
                    OP::CloseOwner => !is_tok[i],
                })
                .cloned()
                .collect();
            w::eval(&format!("obj {} {} {} {:?}", nss, is_tok[i], mine.len(), mine.iter().map(|e| (e.th, std::mem::discriminant(&e.o.0), std::mem::discriminant(&e.o.1))).collect::<Vec<_>>()));
            w::count("histories", 1);
            w::count("events", mine.len() as u64);
            let mut broken = false;
            for e in &mine {
                match &e.o.1 {
                    OR::Torn(x) => {
                        viol!(["P23"], &format!("conc:obj:torn:{}", if is_tok[i] { "token" } else { "session" }), "{:?} on a {} object: {} in {}", e.o.0, if is_tok[i] { "token" } else { "session" }, x, show(&mine));
                        broken = true;
                    }
                    OR::Err(f, x) => {
                        viol!(["P23"], &format!("conc:obj:error:{}:{}", f, x), "{:?} on a {} object: {} gave {} in {}", e.o.0, if is_tok[i] { "token" } else { "session" }, f, x, show(&mine));
                        broken = true;
                    }
                    _ => (),
                }
            }
            if broken {
                continue;
            }
            // (alive, value, date)
            let ok = linearizable((true, hs[i].1, 1u64), &mine, &|s, (p, o)| {
                let (alive, v, d) = *s;
                let y = match (p, o) {
                    (OP::CloseOwner, _) => return Some((false, v, d)),
                    (OP::Set(_, x), OR::Done) => return if alive { Some((true, *x, d)) } else { None },
                    (OP::SetD(_, x), OR::Done) => return if alive { Some((true, v, *x)) } else { None },
                    (OP::Destroy(_), OR::Done) => return if alive { Some((false, v, d)) } else { None },
                    (_, OR::Gone) => !alive,
                    (OP::GetD(_), OR::Val(x)) => alive && d == *x,
                    (_, OR::Val(x)) => alive && v == *x,
                    (OP::FindV(_, x), OR::Here(b)) => (alive && v == *x) == *b,
                    (_, OR::Here(b)) => alive == *b,
                    _ => false,
                };
                if y { Some(*s) } else { None }
            });
            if !ok {
                viol!(["P23"], &format!("conc:obj:order:{}", if is_tok[i] { "token" } else { "session" }), "no sequential order explains this history of one {} object (first value {}): {}", if is_tok[i] { "token" } else { "session" }, hs[i].1, show(&mine));
            }
        }
        for (h, _) in &hs {
            let _ = c::destroy(keep, *h);
        }
        if !closed {
            c::close(owner).must("C_CloseSession");
        }
        for s in ss {
            c::close(s).must("C_CloseSession");
        }
        let left = c::find(keep, &T::new().u(CKA_CLASS, CKO_SECRET_KEY)).must("C_FindObjects").len();
        if left != 0 {
            viol!(["P23"], "conc:obj:left", "{} keys are left after all were destroyed and their sessions closed", left);
            for h in c::find(keep, &T::new().u(CKA_CLASS, CKO_SECRET_KEY)).must("C_FindObjects") {
                let _ = c::destroy(keep, h);
            }
        }
    }
    t.end();
}
fn pair(v: &[Option<Vec<u8>>], value: Option<&Vec<u8>>) -> OR {
    let l = v[0].clone().unwrap_or_default();
    let n: u64 = String::from_utf8_lossy(&l).trim_start_matches('v').parse().unwrap_or(0);
    if v[0].is_none() || v[1].as_ref() != Some(&vals(n).1) {
        return OR::Torn(format!("label {:?} with id {:?}", v[0].as_ref().map(|x| String::from_utf8_lossy(x).to_string()), v[1].as_ref().map(|x| String::from_utf8_lossy(x).to_string())));
    }
    if v[2].as_ref() != value {
        return OR::Torn(format!("key value {:?}", v[2].as_ref().map(|x| w::hx(x))));
    }
    OR::Val(n)
}
// ------------------------------------------------------------------ logins
#[derive(Clone, Debug)]
enum LP {
    User(u8),
    So,
    Logout,
    Info,
    ReadPriv,
    FindPriv,
    SetPin(u8, u8),
    InitPin(u8),
    MakePriv,
}
fn pins(i: u8) -> Vec<u8> {
    if i == 0 { USER.to_vec() } else { format!("other-pin-{}", i).into_bytes() }
}
fn login(nss: bool, r: &mut Rng) {
    let t = token(nss, "conc");
    let keep = t.rw_user();
    let ph = c::create(keep, &ops::aes_key(&[3; 16]).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).s(CKA_LABEL, "the private key")).must("C_CreateObject");
    let mut pin = 0u8;
    c::logout(keep).must("C_Logout");
    let mut made = 0u64;
    while w::time_left() && w::viols() < 10 {
        let nt = r.range(2, 5);
        let ss: Vec<H> = (0..nt).map(|_| c::open(t.slot, true).must("C_OpenSession")).collect();
        let per = r.range(2, 5);
        let mut wrong = 0;
        let mut newpin = pin;
        let mut plans: Vec<Vec<LP>> = (0..nt)
            .map(|_| {
                (0..per)
                    .map(|_| match r.below(14) {
                        0..=3 => LP::User(pin),
                        4 if !nss => LP::So,
                        5 | 6 => LP::Logout,
                        7 => LP::Info,
                        8 | 9 => LP::ReadPriv,
                        10 => LP::FindPriv,
                        11 if !nss && wrong < 4 && pin < 250 => {
                            wrong += 1;
                            newpin += 1;
                            LP::SetPin(pin, newpin)
                        }
                        12 if !nss && wrong < 4 && pin < 250 => {
                            wrong += 1;
                            newpin += 1;
                            LP::InitPin(newpin)
                        }
                        13 => LP::MakePriv,
                        _ => LP::Info,
                    })
                    .collect()
            })
            .collect();
        // after a PIN change the other PINs are wrong: bound the failures in one round
        if newpin != pin {
            let mut n = 0;
            for p in plans.iter_mut().flatten() {
                if let LP::User(x) = p {
                    n += 1;
                    if n > 4 {
                        *p = LP::Info;
                    } else if r.chance(1, 3) {
                        *x = pin + 1;
                    }
                }
            }
        }
        let exec = |s: H, p: &LP| -> (RV, u64) {
            match p {
                LP::User(x) => (rvof(&c::login(s, CKU_USER, &pins(*x))), 0),
                LP::So => (rvof(&c::login(s, CKU_SO, SO)), 0),
                LP::Logout => (rvof(&c::logout(s)), 0),
                LP::Info => match c::session_info(s) {
                    Ok(i) => (0, i.state as u64),
                    Err(e) => (e, 0),
                },
                LP::ReadPriv => (rvof(&c::attr(s, ph, CKA_LABEL)), 0),
                LP::FindPriv => match c::find(s, &T::new().s(CKA_LABEL, "the private key")) {
                    Ok(v) => (0, v.len() as u64),
                    Err(e) => (e, 0),
                },
                LP::SetPin(a, b) => (rvof(&c::set_pin(s, &pins(*a), &pins(*b))), 0),
                LP::InitPin(b) => (rvof(&c::init_pin(s, &pins(*b))), 0),
                LP::MakePriv => match c::create(s, &ops::aes_key(&[4; 16]).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).s(CKA_LABEL, "made")) {
                    Ok(h) => (0, h),
                    Err(e) => (e, 0),
                },
            }
        };
        let mut evs = together(&plans, r, |i, p| (p.clone(), exec(ss[i], p)));
        for p in [LP::Info, LP::ReadPriv, LP::FindPriv] {
            let t0 = tick();
            let o = (p.clone(), exec(keep, &p));
            evs.push(Ev { th: 99, t0, t1: tick(), o });
        }
        // the current PIN
        let _ = c::logout(keep);
        let mut now = None;
        for x in (pin..=newpin).rev() {
            if c::login(keep, CKU_USER, &pins(x)).is_ok() {
                now = Some(x);
                break;
            }
        }
        let t0 = tick();
        let now = match now {
            Some(x) => x,
            None => {
                viol!(["P23"], "conc:login:no-pin", "no PIN of {}..={} logs in after {}", pin, newpin, show(&evs));
                return;
            }
        };
        evs.push(Ev { th: 99, t0, t1: tick(), o: (LP::User(now), (CKR_OK, 1)) });
        order(&mut evs);
        w::eval(&format!("login {:?}", evs.iter().map(|e| (e.th, std::mem::discriminant(&e.o.0), e.o.1 .0)).collect::<Vec<_>>()));
        w::count("histories", 1);
        w::count("events", evs.len() as u64);
        let ok = linearizable((0u8, pin), &evs, &|s, (p, (rv, x))| {
            let (who, pn) = *s;
            let same = |b: bool| if b { Some(*s) } else { None };
            match p {
                LP::User(q) if *x == 1 => same(*q == pn),
                LP::User(q) => match (*rv, who) {
                    (CKR_OK, 0) if *q == pn => Some((1, pn)),
                    (CKR_PIN_INCORRECT, 0) => same(*q != pn),
                    (CKR_USER_ALREADY_LOGGED_IN, 1) => same(true),
                    (CKR_USER_ANOTHER_ALREADY_LOGGED_IN, 2) => same(true),
                    _ => None,
                },
                LP::So => match (*rv, who) {
                    (CKR_OK, 0) => Some((2, pn)),
                    (CKR_USER_ALREADY_LOGGED_IN, 2) => same(true),
                    (CKR_USER_ANOTHER_ALREADY_LOGGED_IN, 1) => same(true),
                    _ => None,
                },
                LP::Logout => match (*rv, who) {
                    (CKR_OK, 1 | 2) => Some((0, pn)),
                    (CKR_USER_NOT_LOGGED_IN, 0) => same(true),
                    _ => None,
                },
                LP::Info => same(*rv == 0 && *x == [CKS_RW_PUBLIC_SESSION, CKS_RW_USER_FUNCTIONS, CKS_RW_SO_FUNCTIONS][who as usize] as u64),
                LP::ReadPriv => same((*rv == 0) == (who == 1) && matches!(*rv, 0 | CKR_USER_NOT_LOGGED_IN | CKR_OBJECT_HANDLE_INVALID)),
                LP::FindPriv => same(*rv == 0 && *x == (who == 1) as u64),
                LP::SetPin(a, b) => match (*rv, who) {
                    (CKR_OK, 0 | 1) if *a == pn => Some((who, *b)),
                    (CKR_PIN_INCORRECT, 0 | 1) => same(*a != pn),
                    (CKR_PIN_INCORRECT, 2) => same(true),
                    _ => None,
                },
                LP::InitPin(b) => match (*rv, who) {
                    (CKR_OK, 2) => Some((who, *b)),
                    (CKR_USER_NOT_LOGGED_IN, 0 | 1) => same(true),
                    _ => None,
                },
                LP::MakePriv => same((*rv == 0) == (who == 1) && (*rv == 0 || *rv == CKR_USER_NOT_LOGGED_IN)),
            }
        });
        if !ok {
            viol!(["P23"], "conc:login:order", "no sequential order explains this history of logins (starting logged out, PIN {}): {}", pin, show(&evs));
        }
        made += evs.iter().filter(|e| matches!(e.o.0, LP::MakePriv) && e.o.1 .0 == 0).count() as u64;
        // now logged in: everything made is there exactly once
        let v = c::find(keep, &T::new().s(CKA_LABEL, "made")).must("C_FindObjects");
        if v.len() as u64 != made {
            viol!(["P23", "P11"], "conc:login:made", "{} objects were created, {} are there: {}", made, v.len(), show(&evs));
        }
        for h in v {
            c::destroy(keep, h).must("C_DestroyObject");
        }
        made = 0;
        if newpin != pin {
            // reset the security officer's failure count too
            c::logout(keep).must("C_Logout");
            c::login(keep, CKU_SO, SO).must("C_Login(SO)");
            pin = now;
            if now > 200 {
                c::init_pin(keep, &pins(0)).must("C_InitPIN");
                pin = 0;
            }
        }
        c::logout(keep).must("C_Logout");
        for s in ss {
            c::close(s).must("C_CloseSession");
        }
    }
    t.end();
}
// ------------------------------------------------------------------ sessions
#[derive(Clone, Debug)]
enum SP {
    Open,
    Close(usize),
    CloseAll,
    Info(usize),
    Login(usize),
    Logout(usize),
    Count,
    InitToken,
}
fn sess(r: &mut Rng) {
    let t = fresh("conc");
    while w::time_left() && w::viols() < 10 {
        let n0 = r.range(0, 3);
        let start: Vec<H> = (0..n0).map(|_| c::open(t.slot, true).must("C_OpenSession")).collect();
        let nt = r.range(2, 5);
        let per = r.range(2, 6);
        let heavy = r.chance(1, 4);
        let plans: Vec<Vec<SP>> = (0..nt)
            .map(|_| {
                (0..per)
                    .map(|_| match r.below(16) {
                        0..=3 => SP::Open,
                        4..=7 => SP::Close(r.us(64)),
                        8 if heavy => SP::CloseAll,
                        9 | 10 => SP::Info(r.us(64)),
                        11 | 12 => SP::Login(r.us(64)),
                        13 => SP::Logout(r.us(64)),
                        14 if heavy => SP::InitToken,
                        _ => SP::Count,
                    })
                    .collect()
            })
            .collect();
        let table: Mutex<Vec<H>> = Mutex::new(start.clone());
        let look = |i: usize| -> H {
            let t = table.lock().unwrap();
            if t.is_empty() {
                0xdead_beef
            } else {
                t[i % t.len()]
            }
        };
        let mut evs = together(&plans, r, |_, p| -> (SP, H, RV, u64) {
            match p {
                SP::Open => match c::open(0, true) {
                    Ok(h) => {
                        table.lock().unwrap().push(h);
                        (p.clone(), h, 0, 0)
                    }
                    Err(e) => (p.clone(), 0, e, 0),
                },
                SP::Close(i) => {
                    let h = look(*i);
                    (p.clone(), h, rvof(&c::close(h)), 0)
                }
                SP::CloseAll => (p.clone(), 0, rvof(&c::close_all(0)), 0),
                SP::Info(i) => {
                    let h = look(*i);
                    match c::session_info(h) {
                        Ok(x) => (p.clone(), h, 0, x.state as u64),
                        Err(e) => (p.clone(), h, e, 0),
                    }
                }
                SP::Login(i) => {
                    let h = look(*i);
                    (p.clone(), h, rvof(&c::login(h, CKU_USER, USER)), 0)
                }
                SP::Logout(i) => {
                    let h = look(*i);
                    (p.clone(), h, rvof(&c::logout(h)), 0)
                }
                SP::Count => match c::token_info(0) {
                    Ok(i) => (p.clone(), 0, 0, i.ulSessionCount as u64),
                    Err(e) => (p.clone(), 0, e, 0),
                },
                SP::InitToken => (p.clone(), 0, rvof(&c::init_token(0, SO, "conc-token")), 0),
            }
        });
        let all = table.into_inner().unwrap();
        let bit: BTreeMap<H, u32> = all.iter().enumerate().map(|(i, h)| (*h, i as u32)).collect();
        if bit.len() != all.len() {
            viol!(["P23", "P02"], "conc:sess:handle", "the same session handle was given out twice: {}", show(&evs));
        }
        let inited = evs.iter().any(|e| matches!(e.o.0, SP::InitToken) && e.o.2 == 0);
        {
            let t0 = tick();
            let o = match c::token_info(0) {
                Ok(i) => (SP::Count, 0, 0, i.ulSessionCount as u64),
                Err(e) => (SP::Count, 0, e, 0),
            };
            evs.push(Ev { th: 99, t0, t1: tick(), o });
            for h in &all {
                let t0 = tick();
                let o = match c::session_info(*h) {
                    Ok(x) => (SP::Info(0), *h, 0, x.state as u64),
                    Err(e) => (SP::Info(0), *h, e, 0),
                };
                evs.push(Ev { th: 99, t0, t1: tick(), o });
            }
        }
        order(&mut evs);
        w::eval(&format!("sess {:?}", evs.iter().map(|e| (e.th, std::mem::discriminant(&e.o.0), e.o.2)).collect::<Vec<_>>()));
        w::count("histories", 1);
        w::count("events", evs.len() as u64);
        let mask0: u64 = if n0 == 0 { 0 } else { (1 << n0) - 1 };
        // (live sessions, user logged in, the user PIN exists)
        let ok = linearizable((mask0, false, true), &evs, &|s, (p, h, rv, x)| {
            let (m, who, up) = *s;
            let b = bit.get(h).map(|i| 1u64 << i).unwrap_or(0);
            let live = m & b != 0;
            let same = |y: bool| if y { Some(*s) } else { None };
            let dead = *rv == CKR_SESSION_HANDLE_INVALID;
            match p {
                SP::Open => if *rv == 0 { Some((m | b, who, up)) } else { None },
                SP::Close(_) => match *rv {
                    0 if live => Some((m & !b, who && m & !b != 0, up)),
                    _ => same(dead && !live),
                },
                SP::CloseAll => if *rv == 0 { Some((0, false, up)) } else { None },
                SP::Info(_) => match *rv {
                    0 => same(live && *x == if who { CKS_RW_USER_FUNCTIONS } else { CKS_RW_PUBLIC_SESSION } as u64),
                    _ => same(dead && !live),
                },
                SP::Login(_) => match *rv {
                    0 if live && !who && up => Some((m, true, up)),
                    CKR_USER_ALREADY_LOGGED_IN => same(live && who),
                    CKR_USER_PIN_NOT_INITIALIZED => same(live && !up),
                    CKR_PIN_INCORRECT | CKR_USER_TYPE_INVALID => same(live && !up),
                    _ => same(dead && !live),
                },
                SP::Logout(_) => match *rv {
                    0 if live && who => Some((m, false, up)),
                    CKR_USER_NOT_LOGGED_IN => same(live && !who),
                    _ => same(dead && !live),
                },
                // the library leaves the session counts at 0
                SP::Count => same(*rv == 0 && (*x == 0 || *x == m.count_ones() as u64)),
                SP::InitToken => match *rv {
                    0 if m == 0 => Some((0, false, false)),
                    CKR_SESSION_EXISTS => same(m != 0),
                    _ => None,
                },
            }
        });
        if !ok {
            viol!(["P23"], "conc:sess:order", "no sequential order explains this history of sessions ({} open at the start): {}", n0, show(&evs));
        }
        c::close_all(t.slot).must("C_CloseAllSessions");
        if inited {
            init_pins(t.slot);
        }
    }
    t.end();
}
// ------------------------------------------------------------------ one session shared by threads
fn op(r: &mut Rng) {
    let t = fresh("conc");
    let keep = t.rw_user();
    while w::time_left() && w::viols() < 10 {
        let s = c::open(t.slot, true).must("C_OpenSession");
        let nt = r.range(2, 6);
        let kb = r.bytes(32);
        let key = c::create(s, &ops::aes_key(&kb)).must("C_CreateObject");
        let what = r.below(6);
        w::eval(&format!("shared {} {} {}", what, nt, r.next()));
        w::count(&format!("shared-rounds-{}", what), 1);
        let plans: Vec<Vec<u8>> = (0..nt).map(|_| vec![0u8; r.range(1, 6)]).collect();
        match what {
            0 => {
                // exactly one of many initialisations wins
                let evs = together(&plans, r, |_, _| rvof(&c::digest_init(s, &M::new(CKM_SHA256))));
                let okc = evs.iter().filter(|e| e.o == 0).count();
                if okc != 1 || evs.iter().any(|e| e.o != 0 && e.o != CKR_OPERATION_ACTIVE) {
                    viol!(["P23"], "conc:op:init", "{} C_DigestInit in one session: {}", evs.len(), show(&evs));
                }
            }
            1 => {
                // every accepted update counts once; one final ends the operation
                let (kind, blk) = (r.below(3), *r.pick(&[1usize, 16, 64, 100, 5000]));
                let d = vec![0x5a; blk];
                match kind {
                    0 => c::digest_init(s, &M::new(CKM_SHA256)).must("C_DigestInit"),
                    1 => c::sign_init(s, &M::new(CKM_AES_CMAC), key).must("C_SignInit"),
                    _ => c::sign_init(s, &M::new(CKM_AES_CMAC), key).must("C_SignInit"),
                }
                let fin = r.bool();
                let evs = together(&plans, r, |i, _| -> (RV, Vec<u8>) {
                    if fin && i == 0 {
                        let o = if kind == 0 { c::digest_final(s) } else { c::sign_final(s) };
                        return (rvof(&o), o.unwrap_or_default());
                    }
                    (rvof(&if kind == 0 { c::digest_update(s, &d) } else { c::sign_update(s, &d) }), vec![])
                });
                let k = evs.iter().filter(|e| e.o.0 == 0 && e.o.1.is_empty()).count();
                let data = vec![0x5a; blk * k];
                let outs: Vec<&Vec<u8>> = evs.iter().filter(|e| !e.o.1.is_empty()).map(|e| &e.o.1).collect();
                let got = match outs.len() {
                    0 => if kind == 0 { c::digest_final(s) } else { c::sign_final(s) },
                    _ => Ok(outs[0].clone()),
                };
                let want = if kind == 0 { refc::hash(refc::SHA256, &data) } else { refc::cmac(&kb, &data) };
                let odd = evs.iter().any(|e| e.o.0 != 0 && !(fin && e.o.0 == CKR_OPERATION_NOT_INITIALIZED));
                let none = k == 0 && got == Err(CKR_OPERATION_NOT_INITIALIZED);
                if outs.len() > 1 || odd || (!none && got.as_ref().ok() != Some(&want)) {
                    viol!(["P23"], &format!("conc:op:update:{}", kind), "{} accepted updates of {} bytes from {} threads; final gives {}, expected {}: {}", k, blk, nt, ops::showr(&got), w::hx(&want), show(&evs));
                }
            }
            2 => {
                // every block of ECB is encrypted on its own, whatever the order
                let enc = r.bool();
                if enc { c::encrypt_init(s, &M::new(CKM_AES_ECB), key) } else { c::decrypt_init(s, &M::new(CKM_AES_ECB), key) }.must("init");
                let ctr = AtomicU64::new(0);
                let evs = together(&plans, r, |i, _| -> (u64, R<Vec<u8>>) {
                    let n = ctr.fetch_add(1, Relaxed) << 8 | i as u64;
                    let mut d = vec![0u8; 64];
                    d[..8].copy_from_slice(&n.to_ne_bytes());
                    (n, if enc { c::encrypt_update(s, &d) } else { c::decrypt_update(s, &d) })
                });
                let mut bad = false;
                for e in &evs {
                    let mut d = vec![0u8; 64];
                    d[..8].copy_from_slice(&e.o.0.to_ne_bytes());
                    bad |= e.o.1.as_ref().ok() != Some(&refc::aes_ecb(&kb, &d, enc));
                }
                if bad {
                    viol!(["P23"], "conc:op:ecb", "updates of one ECB operation from several threads: {}", show(&evs));
                }
            }
            3 => {
                // a search hands every object to exactly one caller
                let n = r.range(1, 60);
                let hs: BTreeSet<H> = (0..n).map(|i| c::create(s, &T::new().u(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, false).s(CKA_LABEL, "search me").v(CKA_VALUE, &[i as u8])).must("C_CreateObject")).collect();
                c::find_init(s, &T::new().s(CKA_LABEL, "search me")).must("C_FindObjectsInit");
                let step = r.range(1, 9);
                let evs = together(&plans, r, |_, _| c::find_next(s, step));
                let mut got: Vec<H> = vec![];
                let mut bad = false;
                for e in &evs {
                    match &e.o {
                        Ok(v) => got.extend(v),
                        Err(_) => bad = true,
                    }
                }
                loop {
                    match c::find_next(s, 10) {
                        Ok(v) if v.is_empty() => break,
                        Ok(v) => got.extend(v),
                        Err(_) => {
                            bad = true;
                            break;
                        }
                    }
                }
                c::find_final(s).must("C_FindObjectsFinal");
                let gs: BTreeSet<H> = got.iter().copied().collect();
                if bad || gs != hs || gs.len() != got.len() {
                    viol!(["P23"], "conc:op:find", "a search for {} objects shared by {} threads returned {} handles, {} different: {}", n, nt, got.len(), gs.len(), show(&evs));
                }
            }
            4 => {
                // one-shot: initialise and use from different threads; exactly one use succeeds per initialisation
                c::encrypt_init(s, &M::new(CKM_AES_ECB), key).must("C_EncryptInit");
                let d = [9u8; 32];
                let evs = together(&plans, r, |_, _| c::encrypt(s, &d));
                let want = refc::aes_ecb(&kb, &d, true);
                let okc = evs.iter().filter(|e| e.o.as_ref().ok() == Some(&want)).count();
                if okc != 1 || evs.iter().any(|e| e.o.is_err() && rvof(&e.o) != CKR_OPERATION_NOT_INITIALIZED) || evs.iter().any(|e| e.o.is_ok() && e.o.as_ref().ok() != Some(&want)) {
                    viol!(["P23"], "conc:op:oneshot", "{} C_Encrypt after one C_EncryptInit: {}", evs.len(), show(&evs));
                }
            }
            _ => {
                // different operations of one session do not disturb each other
                let big = r.bytes(2000);
                let n = AtomicUsize::new(0);
                let _ = &n;
                let evs = together(&(0..3).map(|_| vec![0u8; 3]).collect::<Vec<_>>(), r, |i, _| -> Result<bool, RV> {
                    match i {
                        0 => {
                            c::digest_init(s, &M::new(CKM_SHA384))?;
                            for x in big.chunks(333) {
                                c::digest_update(s, x)?;
                            }
                            Ok(c::digest_final(s)? == refc::hash(refc::SHA384, &big))
                        }
                        1 => {
                            c::encrypt_init(s, &M::raw(CKM_AES_CBC_PAD, &[1; 16]), key)?;
                            let mut o = vec![];
                            for x in big.chunks(400) {
                                o.extend(c::encrypt_update(s, x)?);
                            }
                            o.extend(c::encrypt_final(s)?);
                            Ok(o == refc::cbc_enc(&kb, &[1; 16], &refc::pad7(&big)))
                        }
                        _ => {
                            c::sign_init(s, &M::new(CKM_AES_CMAC), key)?;
                            for x in big.chunks(100) {
                                c::sign_update(s, x)?;
                            }
                            Ok(c::sign_final(s)? == refc::cmac(&kb, &big))
                        }
                    }
                });
                if evs.iter().any(|e| e.o != Ok(true)) {
                    viol!(["P23"], "conc:op:mixed", "digest (0), encryption (1) and MAC (2) at once in one session: {}", evs.iter().map(|e| format!("{}: {}", e.th, match &e.o { Ok(b) => format!("{}", b), Err(x) => rvn(*x) })).collect::<Vec<_>>().join("; "));
                }
            }
        }
        c::close(s).must("C_CloseSession");
    }
    let _ = keep;
    t.end();
}
// ------------------------------------------------------------------ results of one thread are its own
fn crypto(r: &mut Rng) {
    while w::time_left() && w::viols() < 10 {
        let dir = scratch("conc");
        let conf = write_conf(&dir, &[sqlite(0, &dir, "a"), sqlite(1, &dir, "b")]);
        c::initialize(Some(&conf)).must("C_Initialize");
        init_pins(0);
        init_pins(1);
        let keep = c::open(0, true).must("C_OpenSession");
        c::login(keep, CKU_USER, USER).must("C_Login");
        let shared: Vec<(Vec<u8>, H)> = (0..3)
            .map(|_| {
                let v = r.bytes(32);
                let h = c::create(keep, &ops::aes_key(&v).b(CKA_TOKEN, true)).must("C_CreateObject");
                (v, h)
            })
            .collect();
        let nt = r.range(3, 7);
        let plans: Vec<Vec<u8>> = (0..nt).map(|_| vec![0u8]).collect();
        let seeds: Vec<u64> = (0..nt).map(|_| r.next()).collect();
        let until = std::time::Instant::now() + std::time::Duration::from_millis(2500);
        let stop = AtomicBool::new(false);
        let noisy = r.chance(2, 3);
        let evs = together(&plans, r, |i, _| -> (u64, Option<String>) {
            let mut r = Rng::new(seeds[i]);
            let mut n = 0u64;
            if noisy && i == 0 {
                // another slot and the object store are busy meanwhile
                while !stop.load(Relaxed) && std::time::Instant::now() < until {
                    let res: R<()> = (|| {
                        match r.below(4) {
                            0 => {
                                let s = c::open(1, true)?;
                                c::login(s, CKU_USER, USER)?;
                                let h = c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &T::new().u(CKA_VALUE_LEN, 32).b(CKA_TOKEN, true))?;
                                c::destroy(s, h)?;
                                c::logout(s)?;
                                c::close(s)?;
                            }
                            1 => c::init_token(1, SO, "again").and_then(|_| {
                                init_pins(1);
                                Ok(())
                            })?,
                            2 => {
                                let s = c::open(0, true)?;
                                let h = c::create(s, &ops::aes_key(&[1; 16]).b(CKA_TOKEN, r.bool()))?;
                                c::set(s, h, &T::new().s(CKA_LABEL, "x"))?;
                                c::destroy(s, h)?;
                                c::close(s)?;
                            }
                            _ => {
                                let s = c::open(0, false)?;
                                c::find(s, &T::new())?;
                                c::close(s)?;
                            }
                        }
                        Ok(())
                    })();
                    if let Err(e) = res {
                        return (n, Some(format!("a call in the busy thread gave {}", rvn(e))));
                    }
                    n += 1;
                }
                return (n, None);
            }
            let s = match c::open(0, r.bool()) {
                Ok(s) => s,
                Err(e) => return (0, Some(format!("C_OpenSession {}", rvn(e)))),
            };
            let mut ks = Keys::new(s);
            while !stop.load(Relaxed) && std::time::Instant::now() < until {
                let cs = if r.chance(1, 3) {
                    // a key shared by all threads
                    let (v, h) = r.pick(&shared).clone();
                    let nb = r.range(1, 20);
                    let d = r.bytes(16 * nb);
                    let iv = r.bytes(16);
                    let got = c::encrypt_init(s, &M::raw(CKM_AES_CBC, &iv), h).and_then(|_| c::encrypt(s, &d));
                    n += 1;
                    if got.as_ref().ok() != Some(&refc::cbc_enc(&v, &iv, &d)) {
                        stop.store(true, Relaxed);
                        return (n, Some(format!("AES-CBC with a shared key gave {}", ops::showr(&got))));
                    }
                    continue;
                } else {
                    ops::any_case(&mut r)
                };
                let k = match &cs.key {
                    Some(t) => match ks.get(t) {
                        Ok(k) => k,
                        Err(e) => {
                            stop.store(true, Relaxed);
                            return (n, Some(format!("C_CreateObject gave {}", rvn(e))));
                        }
                    },
                    None => 0,
                };
                let got = if cs.multi && r.bool() && !cs.input.is_empty() {
                    let sp = r.split(cs.input.len());
                    ops::run_multi(s, &cs, k, &sp)
                } else {
                    ops::run_one(s, &cs, k)
                };
                n += 1;
                if !ops::good(&cs, &got) {
                    stop.store(true, Relaxed);
                    return (n, Some(format!("{}: {} instead of {}", cs.show(), ops::showr(&got), ops::showw(&cs))));
                }
            }
            if let Err(e) = c::close(s) {
                return (n, Some(format!("C_CloseSession {}", rvn(e))));
            }
            (n, None)
        });
        let total: u64 = evs.iter().map(|e| e.o.0).sum();
        for e in &evs {
            w::eval(&format!("crypto {} {} {}", nt, e.th, e.o.0));
            if let Some(x) = &e.o.1 {
                viol!(["P23"], &format!("conc:crypto:{}", x.split(' ').take(3).collect::<Vec<_>>().join("-")), "with {} threads at work: {}", nt, x);
            }
        }
        w::count("operations-in-threads", total);
        c::finalize().must("C_Finalize");
        let _ = std::fs::remove_dir_all(&dir);
    }
}
// ------------------------------------------------------------------ storage: nothing lost, nothing twice
fn store(nss: bool, r: &mut Rng) {
    while w::time_left() && w::viols() < 10 {
        let t = token(nss, "conc");
        let keep = t.rw_user();
        let nt = r.range(2, 6);
        let per = if nss { r.range(2, 4) } else { r.range(4, 14) };
        let plans: Vec<Vec<u64>> = (0..nt).map(|_| (0..per).map(|_| r.next()).collect()).collect();
        let ss: Vec<H> = (0..nt).map(|_| c::open(t.slot, true).must("C_OpenSession")).collect();
        let mine: Vec<Mutex<Vec<(H, String)>>> = (0..nt).map(|_| Mutex::new(vec![])).collect();
        let all: Mutex<Vec<(H, String)>> = Mutex::new(vec![]);
        let destroyed: Mutex<Vec<H>> = Mutex::new(vec![]);
        let evs = together(&plans, r, |i, seed| -> Result<(), (&'static str, RV)> {
            let mut r = Rng::new(*seed);
            let s = ss[i];
            let label = format!("t{}-{:x}", i, seed);
            match r.below(if nss { 5 } else { 8 }) {
                0 | 1 => {
                    let h = c::create(s, &ops::aes_key(&r.bytes(32)).b(CKA_TOKEN, true).s(CKA_LABEL, &label)).map_err(|e| ("C_CreateObject", e))?;
                    all.lock().unwrap().push((h, label));
                }
                2 => {
                    let h = c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &T::new().u(CKA_VALUE_LEN, 16).b(CKA_TOKEN, true).s(CKA_LABEL, &label)).map_err(|e| ("C_GenerateKey", e))?;
                    all.lock().unwrap().push((h, label));
                }
                3 => {
                    let (a, b) = c::generate_pair(s, &M::new(CKM_EC_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, refc::P256.oid).b(CKA_TOKEN, true).s(CKA_LABEL, &label), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &label)).map_err(|e| ("C_GenerateKeyPair", e))?;
                    all.lock().unwrap().push((a, label.clone()));
                    all.lock().unwrap().push((b, label));
                }
                4 => {
                    // destroy something, maybe of another thread: whoever takes it from the list does it
                    let x = {
                        let mut a = all.lock().unwrap();
                        if a.is_empty() { None } else { let n = a.len(); Some(a.swap_remove(r.us(n))) }
                    };
                    if let Some((h, _)) = x {
                        c::destroy(s, h).map_err(|e| ("C_DestroyObject", e))?;
                        destroyed.lock().unwrap().push(h);
                    }
                }
                5 => {
                    let h = c::create(s, &data_t(&r.bytes(50)).b(CKA_TOKEN, true).s(CKA_LABEL, &label)).map_err(|e| ("C_CreateObject", e))?;
                    mine[i].lock().unwrap().push((h, label.clone()));
                    all.lock().unwrap().push((h, label));
                }
                6 => {
                    // rename something
                    let x = {
                        let mut a = all.lock().unwrap();
                        if a.is_empty() { None } else { let n = a.len(); Some(a.swap_remove(r.us(n))) }
                    };
                    if let Some((h, _)) = x {
                        c::set(s, h, &T::new().s(CKA_LABEL, &label)).map_err(|e| ("C_SetAttributeValue", e))?;
                        all.lock().unwrap().push((h, label));
                    }
                }
                _ => {
                    let x = {
                        let a = all.lock().unwrap();
                        if a.is_empty() { None } else { Some(a[r.us(a.len())].clone()) }
                    };
                    if let Some((h, _)) = x {
                        match c::copy(s, h, &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &label)) {
                            Ok(n) => all.lock().unwrap().push((n, label)),
                            // destroyed meanwhile
                            Err(CKR_OBJECT_HANDLE_INVALID) => (),
                            Err(e) => return Err(("C_CopyObject", e)),
                        }
                    }
                }
            }
            Ok(())
        });
        for e in &evs {
            if let Err((f, rv)) = e.o {
                viol!(["P23"], &format!("conc:store:{}:{}", f, rvn(rv)), "with {} threads storing objects {} gives {}", nt, f, rvn(rv));
            }
        }
        let all = all.into_inner().unwrap();
        let hs: BTreeSet<H> = all.iter().map(|x| x.0).collect();
        if hs.len() != all.len() {
            viol!(["P23"], "conc:store:handle", "{} objects of {} threads have {} different handles", all.len(), nt, hs.len());
        }
        let names = |s: H| -> (Vec<String>, Vec<Vec<u8>>) {
            let mut l = vec![];
            let mut u = vec![];
            for cl in [CKO_SECRET_KEY, CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_DATA] {
                for h in c::find(s, &T::new().u(CKA_CLASS, cl).b(CKA_TOKEN, true)).must("C_FindObjects") {
                    let x = c::attr(s, h, CKA_LABEL);
                    if x.is_err() {
                        viol!(["P23"], "conc:store:unreadable", "an object found after {} threads stored objects cannot be read: {}", nt, rn(&x));
                    }
                    l.push(String::from_utf8_lossy(&x.unwrap_or_default()).to_string());
                    if let Ok(v) = c::attr(s, h, CKA_UNIQUE_ID) {
                        u.push(v);
                    }
                }
            }
            l.sort();
            (l, u)
        };
        let mut want: Vec<String> = all.iter().map(|x| x.1.clone()).collect();
        want.sort();
        w::eval(&format!("store {} {} {} {}", nss, nt, want.len(), destroyed.lock().unwrap().len()));
        w::count("objects-stored", want.len() as u64);
        let mut cmp = |s: H, when: &str| {
            let (got, uid) = names(s);
            if got != want {
                let miss: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
                let extra: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
                viol!(["P23", "P10"], "conc:store:set", "{} {} threads stored {} objects and the token has {}; missing {:?}, unexpected {:?}", when, nt, want.len(), got.len(), miss, extra);
            }
            let us: BTreeSet<&Vec<u8>> = uid.iter().collect();
            if us.len() != uid.len() {
                viol!(["P23", "P27"], "conc:store:uid", "{} objects have {} different unique ids", uid.len(), us.len());
            }
        };
        cmp(keep, "after");
        if r.chance(1, 2) {
            t.restart();
            let s = t.rw_user();
            cmp(s, "after a restart:");
        }
        t.end();
    }
}
// ------------------------------------------------------------------ initialisation
#[derive(Clone, Debug)]
enum IP {
    Init,
    Fin,
    Slots,
    Open,
}
fn init(r: &mut Rng) {
    let t = fresh("conc");
    let conf = t.conf.clone();
    let mut on = true;
    while w::time_left() && w::viols() < 10 {
        let nt = r.range(2, 6);
        // C_Finalize must not run while other threads use the library; racing initialisations may
        let fin = r.bool();
        if !fin && on && r.chance(3, 4) {
            c::finalize().must("C_Finalize");
            on = false;
        }
        if fin && !on {
            c::initialize(Some(&conf)).must("C_Initialize");
            on = true;
        }
        let plans: Vec<Vec<IP>> = (0..nt)
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| {
                        if fin {
                            IP::Fin
                        } else {
                            match r.below(4) {
                                0 => IP::Slots,
                                1 => IP::Open,
                                _ => IP::Init,
                            }
                        }
                    })
                    .collect()
            })
            .collect();
        let mut evs = together(&plans, r, |_, p| -> (IP, RV) {
            (p.clone(), match p {
                IP::Init => rvof(&c::initialize(Some(&conf))),
                IP::Fin => rvof(&c::finalize()),
                IP::Slots => match c::slot_list(true) {
                    Ok(v) if v.len() == 1 => 0,
                    Ok(_) => CKR_GENERAL_ERROR,
                    Err(e) => e,
                },
                IP::Open => rvof(&c::open(0, true)),
            })
        });
        order(&mut evs);
        w::eval(&format!("init {:?}", evs.iter().map(|e| (e.th, std::mem::discriminant(&e.o.0), e.o.1)).collect::<Vec<_>>()));
        w::count("histories", 1);
        w::count("events", evs.len() as u64);
        let ok = linearizable(on, &evs, &|s, (p, rv)| match (p, *rv) {
            (IP::Init, 0) if !*s => Some(true),
            (IP::Init, CKR_CRYPTOKI_ALREADY_INITIALIZED) if *s => Some(true),
            (IP::Fin, 0) if *s => Some(false),
            (_, CKR_CRYPTOKI_NOT_INITIALIZED) if !*s => Some(false),
            (IP::Slots | IP::Open, 0) if *s => Some(true),
            _ => None,
        });
        if !ok {
            viol!(["P23"], "conc:init:order", "no sequential order explains this history of initialisation (initialised at the start: {}): {}", on, evs.iter().map(|e| format!("t{} [{}..{}] {:?} {}", e.th, e.t0, e.t1, e.o.0, rvn(e.o.1))).collect::<Vec<_>>().join("; "));
        }
        on = match c::slot_list(true) {
            Ok(_) => true,
            Err(_) => false,
        };
        if on {
            let s = c::open(0, true).must("C_OpenSession");
            if c::login(s, CKU_USER, USER).is_err() {
                viol!(["P23"], "conc:init:login", "login fails after {}", evs.len());
            }
            c::close_all(0).must("C_CloseAllSessions");
        }
    }
    if on {
        c::finalize().must("C_Finalize");
    }
    let _ = Arc::new(0);
    let _ = std::fs::remove_dir_all(&t.dir);
}
