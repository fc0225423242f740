//! P27: nothing random is ever seen twice: across threads, sessions, seeds, forks, restarts, tokens
use super::disk::World;
use crate::c::{self, *};
use crate::p11::*;
use crate::ops;
use crate::refc;
use crate::sql::{Db, V};
use crate::tok::*;
use crate::w::{self, Rng};
use crate::{job, times, viol, Job};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P27" => {
            let mut v = vec![];
            for (n, a, m) in [("fresh.stream", 0, 2), ("fresh.fork", 0, 3), ("fresh.keys", 0, 3), ("fresh.iv", 0, 3), ("fresh.sig", 0, 2), ("fresh.store", 0, 2), ("fresh.store", 1, 1)] {
                v.extend(times(m * k, |_| job(n, a, 20_000)));
            }
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job {
        "fresh.stream" => stream(r),
        "fresh.fork" => forks(r),
        "fresh.keys" => keys(r),
        "fresh.iv" => ivs(r),
        "fresh.sig" => sigs(r),
        "fresh.store" => store(arg == 1, r),
        _ => panic!("{}", job),
    }
}
// ------------------------------------------------------------------ what has been seen
type Seen = Mutex<HashMap<u128, (u64, u32)>>;
/// `what`: where the bytes come from; every 16 byte block (and the last 16 bytes) of `d` must be new.
/// Values shorter than 16 bytes (at least 8) must be new among those of the same length.
fn see(seen: &Seen, what: &str, d: &[u8]) {
    let mut m = seen.lock().unwrap();
    let mut one = |b: &[u8], off: usize| {
        let mut x = [0u8; 16];
        x[..b.len()].copy_from_slice(b);
        let mut k = u128::from_be_bytes(x);
        if b.len() < 16 {
            k ^= 0x5555 << (8 * b.len().min(13));
        }
        let me = (w::hash64(what.as_bytes()), off as u32);
        if let Some((h, o)) = m.insert(k, me) {
            let same = if h == me.0 { "the same source" } else { "another source" };
            viol!(["P27"], &format!("repeat:{}", what.split(' ').next().unwrap()), "{}: bytes {} at offset {} were given out before ({}, offset {})", what, w::hex(b), off, same, o);
        }
    };
    if d.len() < 16 {
        if d.len() >= 8 {
            one(d, 0);
        }
        return;
    }
    let mut i = 0;
    while i + 16 <= d.len() {
        one(&d[i..i + 16], i);
        i += 16;
    }
    if i < d.len() {
        let o = d.len() - 16;
        one(&d[o..], o);
    }
    w::count("blocks", (d.len() / 16) as u64);
}
/// bit counts per position of equally long values: every bit must take both values
struct Bits {
    n: u64,
    ones: Vec<u64>,
    vals: Vec<Vec<u8>>,
}
impl Bits {
    fn new() -> Bits {
        Bits { n: 0, ones: vec![], vals: vec![] }
    }
    fn add(&mut self, d: &[u8]) {
        self.ones.resize(d.len() * 8, 0);
        self.n += 1;
        if self.vals.len() < 512 && self.vals.iter().all(|v| v.len() == d.len()) {
            self.vals.push(d.to_vec());
        }
        for (i, o) in self.ones.iter_mut().enumerate() {
            *o += (d[i / 8] >> (7 - i % 8) & 1) as u64;
        }
    }
    /// from 64 values on: more than 9 standard deviations off is not chance
    fn check(&self, what: &str, from: usize, to: usize) {
        if self.n < 128 {
            return;
        }
        let sd = (self.n as f64).sqrt() / 2.0;
        for i in from..to.min(self.ones.len()) {
            let dev = (self.ones[i] as f64 - self.n as f64 / 2.0).abs() / sd;
            if dev > 9.0 {
                viol!(["P27"], &format!("biased:{}", what), "{}: bit {} is set in {} of {} values", what, i, self.ones[i], self.n);
                return;
            }
        }
        w::count("bit-positions-judged", (to - from) as u64);
        self.related(what, (from + 7) / 8, to / 8);
    }
    /// no byte is constant or a function (equal, xor, difference) of another byte: a quarter of 64 or
    /// more values agreeing is not chance
    fn related(&self, what: &str, from: usize, to: usize) {
        let n = self.vals.len();
        if n < 64 {
            return;
        }
        let to = to.min(self.vals[0].len()).min(from + 100);
        let most = |f: &dyn Fn(&[u8]) -> u8| {
            let mut h = [0usize; 256];
            for v in &self.vals {
                h[f(v) as usize] += 1;
            }
            *h.iter().max().unwrap()
        };
        for i in from..to {
            let m = most(&|v| v[i]);
            if m > n / 4 {
                viol!(["P27"], &format!("biased:{}", what), "{}: byte {} has one value in {} of {} values", what, i, m, n);
                return;
            }
            for j in i + 1..to {
                let m = most(&|v| v[i] ^ v[j]).max(most(&|v| v[i].wrapping_sub(v[j])));
                if m > n / 4 {
                    viol!(["P27"], &format!("related:{}", what), "{}: byte {} follows from byte {} in {} of {} values", what, j, i, m, n);
                    return;
                }
                w::count("byte-pairs-judged", 1);
            }
        }
    }
}
// ------------------------------------------------------------------ C_GenerateRandom
fn stream(r: &mut Rng) {
    let t = fresh("stream");
    let seen: Seen = Mutex::new(HashMap::new());
    let bits: Mutex<HashMap<usize, Bits>> = Mutex::new(HashMap::new());
    let hist: Mutex<Vec<u64>> = Mutex::new(vec![0; 256]);
    while w::time_left() && w::viols() < 10 {
        let nt = r.range(1, 8);
        let shared = c::open(t.slot, r.bool()).must("C_OpenSession");
        let share = r.bool();
        let seed = r.bytes(48);
        let plan: Vec<Vec<(u8, usize)>> = (0..nt)
            .map(|_| {
                (0..r.range(1, 30))
                    .map(|_| {
                        let n = match r.below(12) {
                            0 => r.range(1, 7),
                            1 | 2 => 32,
                            3 | 4 => 16,
                            5 => 8,
                            6 => *r.pick(&[65535usize, 65536, 65537, 65552, 131072, 131088, 70000]),
                            7 => r.range(60_000, 200_000),
                            _ => r.len(5000).max(1),
                        };
                        (r.below(12) as u8, n)
                    })
                    .collect()
            })
            .collect();
        std::thread::scope(|sc| {
            for p in &plan {
                let (seen, bits, hist, seed, slot) = (&seen, &bits, &hist, &seed, t.slot);
                let sub = r.next();
                sc.spawn(move || {
                    let mut r = Rng::new(sub);
                    let s = if share { shared } else { c::open(slot, false).must("C_OpenSession") };
                    let mut first = true;
                    for (k, n) in p {
                        match k {
                            // the same seed for everybody, also before the first value
                            0..=2 => {
                                let l = *r.pick(&[48usize, 48, 48, 32, 20, 8, 1, 0]);
                                let res = c::seed_random(s, &seed[..l]);
                                w::count(if res.is_ok() { "seeded" } else { "seed-refused" }, 1);
                            }
                            3 if !share => {
                                let _ = c::get_op_state(s);
                            }
                            _ => (),
                        }
                        let v = match c::random(s, *n) {
                            Ok(v) => v,
                            Err(e) => {
                                viol!(["P27"], &format!("random:{}", rvn(e)), "C_GenerateRandom of {} bytes gave {}", n, rvn(e));
                                continue;
                            }
                        };
                        see(seen, &format!("C_GenerateRandom len={} first={}", n, first), &v);
                        first = false;
                        if matches!(n, 8 | 16 | 32) {
                            bits.lock().unwrap().entry(*n).or_insert_with(Bits::new).add(&v);
                        }
                        let mut h = hist.lock().unwrap();
                        for b in &v {
                            h[*b as usize] += 1;
                        }
                    }
                    if !share {
                        let _ = c::close(s);
                    }
                });
            }
        });
        w::eval(&format!("stream threads{} share{} {:?}", nt, share, plan.iter().map(|p| p.len()).collect::<Vec<_>>()));
        w::count("threads", nt as u64);
        let _ = c::close(shared);
    }
    for (n, b) in bits.lock().unwrap().iter() {
        b.check(&format!("C_GenerateRandom({})", n), 0, n * 8);
    }
    let h = hist.lock().unwrap();
    let tot: u64 = h.iter().sum();
    let (e, sd) = (tot as f64 / 256.0, (tot as f64 / 256.0).sqrt());
    if tot > 100_000 {
        for (i, x) in h.iter().enumerate() {
            if ((*x as f64 - e) / sd).abs() > 9.0 {
                viol!(["P27"], "biased:bytes", "byte value {} appears {} times in {} bytes", i, x, tot);
            }
        }
    }
    t.end();
}
// ------------------------------------------------------------------ draws of every kind
fn secret(t: T) -> T {
    t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).b(CKA_TOKEN, false)
}
/// one value of a random kind: (kind, bytes)
fn draw(s: H, r: &mut Rng, heavy: bool) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let k = r.below(if heavy { 13 } else { 11 });
    let mut uid = |s: H, o: H, what: &str, out: &mut Vec<(String, Vec<u8>)>| {
        if let Ok(u) = c::attr(s, o, CKA_UNIQUE_ID) {
            out.push((format!("CKA_UNIQUE_ID of {}", what), u));
        }
    };
    match k {
        0 | 1 => {
            let n = *r.pick(&[16usize, 32, 64, 8, 100]);
            if let Ok(v) = c::random(s, n) {
                out.push((format!("C_GenerateRandom {}", n), v));
            }
        }
        2 => {
            let n = *r.pick(&[16u64, 24, 32]);
            if let Ok(h) = c::generate_key(s, &M::new(CKM_AES_KEY_GEN), &secret(T::new()).u(CKA_VALUE_LEN, n)) {
                out.push((format!("AES-key {}", n), c::attr(s, h, CKA_VALUE).unwrap_or_default()));
                uid(s, h, "AES", &mut out);
                if let Ok(h2) = c::copy(s, h, &T::new()) {
                    uid(s, h2, "copy", &mut out);
                    let _ = c::destroy(s, h2);
                }
                let _ = c::destroy(s, h);
            }
        }
        3 => {
            let n = *r.pick(&[16u64, 20, 32, 64, 1000, 17]);
            if let Ok(h) = c::generate_key(s, &M::new(CKM_GENERIC_SECRET_KEY_GEN), &secret(T::new()).u(CKA_VALUE_LEN, n)) {
                out.push((format!("secret-key {}", n), c::attr(s, h, CKA_VALUE).unwrap_or_default()));
                uid(s, h, "secret", &mut out);
                let _ = c::destroy(s, h);
            }
        }
        4 | 5 => {
            let cv = *r.pick(&refc::CURVES);
            let m = M::new(CKM_EC_KEY_PAIR_GEN);
            if let Ok((a, b)) = c::generate_pair(s, &m, &T::new().v(CKA_EC_PARAMS, cv.oid).b(CKA_TOKEN, false), &secret(T::new())) {
                out.push((format!("EC-private {}", cv.bits), c::attr(s, b, CKA_VALUE).unwrap_or_default()));
                out.push((format!("EC-public {}", cv.bits), c::attr(s, a, CKA_EC_POINT).unwrap_or_default().split_off(4)));
                uid(s, a, "EC", &mut out);
                uid(s, b, "EC", &mut out);
                let _ = c::destroy(s, a);
                let _ = c::destroy(s, b);
            }
        }
        6 => {
            let p: &[u8] = if r.bool() { &[0x06, 0x03, 0x2b, 0x65, 0x6e] } else { &[0x06, 0x03, 0x2b, 0x65, 0x6f] };
            if let Ok((a, b)) = c::generate_pair(s, &M::new(CKM_EC_MONTGOMERY_KEY_PAIR_GEN), &T::new().v(CKA_EC_PARAMS, p).b(CKA_TOKEN, false), &secret(T::new())) {
                out.push(("X-private".into(), c::attr(s, b, CKA_VALUE).unwrap_or_default()));
                let _ = c::destroy(s, a);
                let _ = c::destroy(s, b);
            }
        }
        7 => {
            // token-chosen IV
            let key = r.bytes(16);
            if let Ok(h) = c::create(s, &ops::aes_key(&key)) {
                if c::msg_encrypt_init(s, &M::new(CKM_AES_GCM), h).is_ok() {
                    let (m, iv) = gen_msg(true, &[0u8; 16], 0, CKG_GENERATE_RANDOM, 1);
                    if c::encrypt_message_o(s, &m, &[], b"x", Some(1)).rv == CKR_OK {
                        out.push(("random-iv GCM".into(), read(&iv)));
                    }
                    let _ = c::msg_encrypt_final(s);
                }
                let _ = c::destroy(s, h);
            }
        }
        8 => {
            // nonce of a signature (fixed key, fixed data)
            let cv = refc::P256;
            let mut d = vec![0u8; 32];
            d[31] = 7;
            if let Ok(h) = c::create(s, &ops::ec_priv_t(cv, &d)) {
                if c::sign_init(s, &M::new(CKM_ECDSA), h).is_ok() {
                    if let Ok(v) = c::sign(s, &[0x42; 32]) {
                        out.push(("ECDSA-r".into(), v[..32].to_vec()));
                    }
                }
                let _ = c::destroy(s, h);
            }
        }
        9 => {
            // salt of a PSS signature, by the signature
            if let Ok(h) = c::create(s, &ops::rsa_priv(0)) {
                if c::sign_init(s, &ops::pss_m(CKM_SHA256_RSA_PKCS_PSS, CKM_SHA256, CKG_MGF1_SHA256, 32), h).is_ok() {
                    if let Ok(v) = c::sign(s, b"the same message") {
                        out.push(("PSS-signature".into(), v));
                    }
                }
                let _ = c::destroy(s, h);
            }
        }
        10 => {
            // padding of RSA encryption
            if let Ok(h) = c::create(s, &ops::rsa_pub(0)) {
                let m = if r.bool() { M::new(CKM_RSA_PKCS) } else { ops::oaep_m(CKM_SHA256, CKG_MGF1_SHA256, b"") };
                if c::encrypt_init(s, &m, h).is_ok() {
                    if let Ok(v) = c::encrypt(s, b"same") {
                        out.push(("RSA-ciphertext".into(), v));
                    }
                }
                let _ = c::destroy(s, h);
            }
        }
        11 => {
            let m = M::new(CKM_RSA_PKCS_KEY_PAIR_GEN);
            if let Ok((a, b)) = c::generate_pair(s, &m, &T::new().u(CKA_MODULUS_BITS, 1024).v(CKA_PUBLIC_EXPONENT, &[1, 0, 1]).b(CKA_TOKEN, false), &secret(T::new())) {
                for (x, n) in [(CKA_PRIME_1, "RSA-p"), (CKA_PRIME_2, "RSA-q")] {
                    out.push((n.into(), c::attr(s, b, x).unwrap_or_default()));
                }
                let _ = c::destroy(s, a);
                let _ = c::destroy(s, b);
            }
        }
        _ => {
            let m = M::new(CKM_HKDF_KEY_GEN);
            if let Ok(h) = c::generate_key(s, &m, &secret(T::new()).u(CKA_VALUE_LEN, 32)) {
                out.push(("HKDF-key".into(), c::attr(s, h, CKA_VALUE).unwrap_or_default()));
                let _ = c::destroy(s, h);
            }
            if let Ok(h) = c::generate_key(s, &M::new(CKM_HOTP_KEY_GEN), &secret(T::new()).u(CKA_VALUE_LEN, 20)) {
                out.push(("HOTP-key".into(), c::attr(s, h, CKA_VALUE).unwrap_or_default()));
                let _ = c::destroy(s, h);
            }
        }
    }
    out.retain(|x| x.1.len() >= 8);
    out
}
/// values that start with fixed bytes: only the rest is compared
fn see_draw(seen: &Seen, what: &str, v: &[u8], who: &str) {
    see(seen, &format!("{} {}", what.replace(' ', "-"), who), v);
    let k = what.split(' ').next().unwrap().to_string();
    w::count(&format!("seen {}", k), 1);
}
// ------------------------------------------------------------------ forks
fn put_rec(fd: i32, k: &str, v: &[u8]) {
    let mut b = vec![];
    b.extend((k.len() as u32).to_le_bytes());
    b.extend((v.len() as u32).to_le_bytes());
    b.extend(k.as_bytes());
    b.extend(v);
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
/// children of one state of the process, all doing `f`; returns what each reported
fn children(n: usize, f: impl Fn(usize, i32)) -> Vec<Vec<(String, Vec<u8>)>> {
    let mut kids = vec![];
    for i in 0..n {
        let mut p = [0i32; 2];
        if unsafe { libc::pipe(p.as_mut_ptr()) } != 0 {
            return vec![];
        }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(p[0]);
                libc::alarm(20);
            }
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, p[1])));
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(p[1]) };
        kids.push((pid, p[0]));
    }
    let mut all = vec![];
    for (pid, fd) in kids {
        let mut b = vec![];
        let mut t = [0u8; 65536];
        loop {
            let n = unsafe { libc::read(fd, t.as_mut_ptr() as *mut _, t.len()) };
            if n <= 0 {
                break;
            }
            b.extend(&t[..n as usize]);
        }
        let mut st = 0;
        unsafe {
            libc::close(fd);
            libc::waitpid(pid, &mut st, 0);
        }
        if libc::WIFSIGNALED(st) {
            viol!(["P27"], &format!("fork:child-died:{}", libc::WTERMSIG(st)), "a forked child using the library ended with signal {}", libc::WTERMSIG(st));
        }
        let mut v = vec![];
        let mut o = 0;
        while o + 8 <= b.len() {
            let k = u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
            let l = u32::from_le_bytes(b[o + 4..o + 8].try_into().unwrap()) as usize;
            if o + 8 + k + l > b.len() {
                break;
            }
            v.push((String::from_utf8_lossy(&b[o + 8..o + 8 + k]).into_owned(), b[o + 8 + k..o + 8 + k + l].to_vec()));
            o += 8 + k + l;
        }
        all.push(v);
    }
    all
}
fn forks(r: &mut Rng) {
    let seen: Seen = Mutex::new(HashMap::new());
    let mut round = 0;
    while w::time_left() && w::viols() < 10 {
        round += 1;
        let n = r.range(2, 6);
        let sub = r.next();
        let seed = r.bytes(48);
        let seeding = r.bool();
        let warm = r.bool();
        let before = r.chance(1, 3);
        let dir = scratch("fork");
        let conf = write_conf(&dir, &[sqlite(0, &dir, "token")]);
        let look = |s: H, r: &mut Rng| {
            let mut v = vec![];
            if seeding {
                let _ = c::seed_random(s, &seed);
            }
            for _ in 0..12 {
                v.extend(draw(s, r, false));
            }
            v
        };
        if before {
            // the library starts in each child: equal processes at equal times
            let got = children(n, |i, fd| {
                let d = format!("{}/{}", dir, i);
                std::fs::create_dir_all(&d).unwrap();
                let conf = write_conf(&d, &[sqlite(0, &d, "token")]);
                c::initialize(Some(&conf)).must("C_Initialize");
                init_pins(0);
                let s = c::open(0, true).must("C_OpenSession");
                if let Ok(t) = c::token_info(0) {
                    put_rec(fd, "serial-number", &t.serialNumber);
                }
                c::login(s, CKU_USER, USER).must("C_Login");
                for (k, v) in look(s, &mut Rng::new(sub)) {
                    put_rec(fd, &k, &v);
                }
            });
            for (i, g) in got.iter().enumerate() {
                for (k, v) in g {
                    see_draw(&seen, k, v, &format!("(child {} of round {}, started by itself)", i, round));
                }
            }
            w::count("children", got.len() as u64);
            w::count("child-values", got.iter().map(|g| g.len() as u64).sum());
        } else {
            c::initialize(Some(&conf)).must("C_Initialize");
            init_pins(0);
            let s = c::open(0, true).must("C_OpenSession");
            c::login(s, CKU_USER, USER).must("C_Login");
            if warm {
                for (k, v) in look(s, r) {
                    see_draw(&seen, &k, &v, &format!("(parent of round {})", round));
                }
            }
            let re = r.chance(1, 3);
            let got = children(n, |i, fd| {
                let mut s = s;
                if re {
                    // what PKCS#11 asks of a child: initialise again
                    let d = format!("{}/{}", dir, i);
                    std::fs::create_dir_all(&d).unwrap();
                    let _ = c::finalize();
                    let conf = write_conf(&d, &[sqlite(0, &d, "token")]);
                    c::initialize(Some(&conf)).must("C_Initialize");
                    init_pins(0);
                    s = c::open(0, true).must("C_OpenSession");
                    c::login(s, CKU_USER, USER).must("C_Login");
                    if let Ok(t) = c::token_info(0) {
                        put_rec(fd, "serial-number", &t.serialNumber);
                    }
                }
                for (k, v) in look(s, &mut Rng::new(sub)) {
                    put_rec(fd, &k, &v);
                }
            });
            for (i, g) in got.iter().enumerate() {
                for (k, v) in g {
                    see_draw(&seen, k, v, &format!("(child {} of round {}, reinitialised {})", i, round, re));
                }
            }
            for (k, v) in look(s, &mut Rng::new(sub)) {
                see_draw(&seen, &k, &v, &format!("(parent of round {}, after the fork)", round));
            }
            w::count("children", got.len() as u64);
            w::count("child-values", got.iter().map(|g| g.len() as u64).sum());
            c::finalize().must("C_Finalize");
        }
        w::eval(&format!("fork children{} before{} warm{} seed{} {}", n, before, warm, seeding, round % 50));
        let _ = std::fs::remove_dir_all(&dir);
    }
}
// ------------------------------------------------------------------ keys and ids
fn keys(r: &mut Rng) {
    let seen: Seen = Mutex::new(HashMap::new());
    let mods: Mutex<HashSet<Vec<u8>>> = Mutex::new(HashSet::new());
    let bits: Mutex<HashMap<String, Bits>> = Mutex::new(HashMap::new());
    let mut t = fresh("keys");
    let mut n = 0;
    while w::time_left() && w::viols() < 10 {
        n += 1;
        let nt = r.range(1, 6);
        let seed = r.bytes(48);
        let _login = t.rw_user();
        std::thread::scope(|sc| {
            for i in 0..nt {
                let (seen, mods, bits, seed, slot) = (&seen, &mods, &bits, &seed, t.slot);
                let sub = r.next();
                sc.spawn(move || {
                    let mut r = Rng::new(sub);
                    let s = c::open(slot, true).must("C_OpenSession");
                    if r.bool() {
                        let _ = c::seed_random(s, seed);
                    }
                    for _ in 0..15 {
                        for (k, v) in draw(s, &mut r, true) {
                            see_draw(seen, &k, &v, &format!("(thread {} of round {})", i, n));
                            if k.starts_with("AES-key") || k.starts_with("secret-key") || k.starts_with("HKDF") || k.starts_with("HOTP") {
                                bits.lock().unwrap().entry(k.clone()).or_insert_with(Bits::new).add(&v);
                            }
                            if k == "RSA-p" || k == "RSA-q" {
                                mods.lock().unwrap().insert(v.clone());
                            }
                        }
                    }
                    let _ = c::close(s);
                });
            }
        });
        w::eval(&format!("keys threads{} {}", nt, n));
        if r.chance(1, 6) {
            t.restart();
        }
        if r.chance(1, 12) {
            t.end();
            t = fresh("keys");
        }
    }
    for (k, b) in bits.lock().unwrap().iter() {
        b.check(k, 0, b.ones.len());
    }
    w::count("primes", mods.lock().unwrap().len() as u64);
    t.end();
}
// ------------------------------------------------------------------ IVs the token makes
fn read(a: &std::sync::Arc<Vec<u8>>) -> Vec<u8> {
    (0..a.len()).map(|i| unsafe { a.as_ptr().add(i).read_volatile() }).collect()
}
fn gen_msg(gcm: bool, iv: &[u8], fixed: usize, g: CK_ULONG, dlen: usize) -> (M, std::sync::Arc<Vec<u8>>) {
    let (i, t) = (arc(iv), arc(&[0u8; 16]));
    let keep = vec![i.clone(), t.clone()];
    let d = format!("iv={} fixed={} generator={}", w::hx(iv), fixed, g);
    if gcm {
        let p = CK_GCM_MESSAGE_PARAMS { pIv: aptr(&i), ulIvLen: iv.len() as u64, ulIvFixedBits: fixed as u64, ivGenerator: g, pTag: aptr(&t), ulTagBits: 128 };
        (M::st(CKM_AES_GCM, &p, keep, &d), i)
    } else {
        let p = CK_CCM_MESSAGE_PARAMS { ulDataLen: dlen as u64, pNonce: aptr(&i), ulNonceLen: iv.len() as u64, ulNonceFixedBits: fixed as u64, nonceGenerator: g, pMAC: aptr(&t), ulMACLen: 16 };
        (M::st(CKM_AES_CCM, &p, keep, &d), i)
    }
}
fn fixed_bits(iv: &[u8], fixed: usize) -> Vec<u8> {
    let mut v = iv.to_vec();
    for i in fixed..v.len() * 8 {
        v[i / 8] &= !(0x80 >> (i % 8));
    }
    v
}
fn ivs(r: &mut Rng) {
    let t = fresh("iv");
    let mut bits: HashMap<(usize, usize), Bits> = HashMap::new();
    // the whole bytes of the random part, by their number
    let mut tails: HashMap<usize, Bits> = HashMap::new();
    while w::time_left() && w::viols() < 10 {
        let s = t.rw_user();
        let k = ops::keybytes(r);
        let h = c::create(s, &ops::aes_key(&k)).must("C_CreateObject");
        let gcm = r.bool();
        let g = *r.pick(&[CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_COUNTER_XOR, CKG_GENERATE_RANDOM]);
        let len = if gcm { *r.pick(&[12usize, 12, 12, 13, 16, 16, 20, 24, 32, 9]) } else { r.range(7, 13) };
        let gen = match r.below(5) {
            0 if g != CKG_GENERATE_RANDOM => r.range(1, 9),
            1 => 64,
            2 => len * 8,
            3 => 32,
            _ => r.range(1, len * 8),
        }
        .min(len * 8);
        let fixed = len * 8 - gen;
        // the buffer is used again (the token's IV is in it), or given the same or other start values
        let reuse = r.below(3);
        let start = if r.bool() { r.bytes(len) } else { vec![0u8; len] };
        // counters may repeat after a new start: only within one start is uniqueness promised
        let mut inits: Vec<Vec<Vec<u8>>> = vec![];
        let ni = if g == CKG_GENERATE_RANDOM { r.range(1, 4) } else { 1 };
        let mut stop = false;
        for _ in 0..ni {
            if c::msg_encrypt_init(s, &M::new(if gcm { CKM_AES_GCM } else { CKM_AES_CCM }), h).is_err() {
                viol!(["P27"], "iv:init", "C_MessageEncryptInit failed");
                return;
            }
            let mut got: Vec<Vec<u8>> = vec![];
            let nm = match gen {
                1..=7 => (1usize << gen) + 2,
                8 | 9 => *r.pick(&[20usize, 20, 20, 258, 514]),
                _ => r.range(2, 40),
            };
            let mut buf = start.clone();
            for j in 0..nm {
                let inp = match reuse {
                    0 => buf.clone(),
                    1 => start.clone(),
                    _ => {
                        let mut b = r.bytes(len);
                        let f = fixed_bits(&start, fixed);
                        let rest = fixed_bits(&b, fixed);
                        for i in 0..len {
                            b[i] = b[i] ^ rest[i] | f[i];
                        }
                        b
                    }
                };
                let n = r.range(1, 40);
                let p = r.bytes(n);
                let (m, iv) = gen_msg(gcm, &inp, fixed, g, n);
                let al = r.len(20);
                let aad = r.bytes(al);
                let parts = r.chance(1, 4);
                let o = if parts {
                    match c::encrypt_message_begin(s, &m, &aad) {
                        Ok(()) => c::encrypt_message_next_o(s, &m, &p, Some(n), true),
                        Err(e) => Out { rv: e, len: 0, buf: vec![], cap: Some(0) },
                    }
                } else {
                    c::encrypt_message_o(s, &m, &aad, &p, Some(n))
                };
                let now = read(&iv);
                let full = gen < 60 && j as u64 >= 1u64 << gen;
                if o.rv != CKR_OK {
                    // the counter is used up, or too few random bits
                    let may = full || g == CKG_GENERATE_RANDOM && gen < 96;
                    if !may {
                        viol!(["P27"], &format!("iv:{}:{}", g, rvn(o.rv)), "message {} with generator {} over {} of {} bits gave {}", j, g, gen, len * 8, rvn(o.rv));
                    }
                    w::count("refused", 1);
                    stop = true;
                    break;
                }
                w::eval(&format!("iv {} g{} len{} gen{} reuse{} parts{} {}", gcm, g, len, gen, reuse, parts, j.min(5)));
                w::count(&format!("ivs generator {}", g), 1);
                if full {
                    viol!(["P27"], &format!("iv-exhausted:{}", g), "generator {} with {} bits made IV number {}", g, gen, j);
                    return;
                }
                if fixed_bits(&now, fixed) != fixed_bits(&inp, fixed) {
                    viol!(["P27"], &format!("iv-fixed:{}", g), "generator {}: the first {} bits of {} changed to {}", g, fixed, w::hex(&inp), w::hex(&now));
                }
                // the IV reported is the one used
                let tag_ok = {
                    let (ct, _) = if gcm { refc::gcm(&k, &now, &aad, &p, true) } else { refc::ccm(&k, &now, &aad, &p, 16, true) };
                    o.buf[..n] == ct[..]
                };
                if !tag_ok {
                    viol!(["P27", "P14"], &format!("iv-other:{}", g), "generator {}: the IV reported ({}) is not the one the message was encrypted with", g, w::hex(&now));
                }
                if g == CKG_GENERATE_RANDOM {
                    bits.entry((len, fixed)).or_insert_with(Bits::new).add(&now);
                    tails.entry(gen / 8).or_insert_with(Bits::new).add(&now[len - gen / 8..]);
                }
                buf = now.clone();
                got.push(now);
            }
            let _ = c::msg_encrypt_final(s);
            let _ = c::session_cancel(s, CKF_MESSAGE_ENCRYPT);
            inits.push(got);
            if stop {
                break;
            }
        }
        let mut set: HashMap<Vec<u8>, usize> = HashMap::new();
        for (x, got) in inits.iter().enumerate() {
            for (j, iv) in got.iter().enumerate() {
                // few random bits repeat by chance
                if g == CKG_GENERATE_RANDOM && gen < 90 {
                    continue;
                }
                if let Some(o) = set.insert(iv.clone(), j) {
                    viol!(["P27"], &format!("iv-repeat:{}:{}", g, if gcm { "gcm" } else { "ccm" }), "generator {} ({} of {} bits): messages {} and {} (start {}) have the same IV {} under one key; the parameter buffer was {}", g, gen, len * 8, o, j, x, w::hex(iv), ["reused", "reset to the same value", "given another value"][reuse as usize]);
                }
            }
        }
        let _ = c::destroy(s, h);
        c::close(s).must("C_CloseSession");
    }
    for ((len, fixed), b) in &bits {
        b.check(&format!("random IV of {} bytes", len), *fixed, len * 8);
    }
    for (n, b) in &tails {
        b.check(&format!("random part of {} bytes of an IV", n), 0, n * 8);
    }
    t.end();
}
// ------------------------------------------------------------------ nonces and salts of signatures and encryption
fn sigs(r: &mut Rng) {
    let t = fresh("sigs");
    let seen: Seen = Mutex::new(HashMap::new());
    let salts: Seen = Mutex::new(HashMap::new());
    let _l = t.rw_user();
    let mut n = 0;
    while w::time_left() && w::viols() < 10 {
        n += 1;
        let nt = r.range(1, 6);
        let cv = *r.pick(&refc::CURVES);
        let d = ops::ec_scalar(cv, r);
        let h = c::create(_l, &ops::ec_priv_t(cv, &d)).must("C_CreateObject");
        let ri = r.us(ops::nrsa());
        let hp = c::create(_l, &ops::rsa_priv(ri)).must("C_CreateObject");
        let hq = c::create(_l, &ops::rsa_pub(ri)).must("C_CreateObject");
        let (msg, seed) = (r.bytes(32), r.bytes(48));
        std::thread::scope(|sc| {
            for i in 0..nt {
                let (seen, salts, msg, seed, slot) = (&seen, &salts, &msg, &seed, t.slot);
                let sub = r.next();
                sc.spawn(move || {
                    let mut r = Rng::new(sub);
                    let s = c::open(slot, true).must("C_OpenSession");
                    if r.bool() {
                        let _ = c::seed_random(s, seed);
                    }
                    let who = format!("(thread {} of round {})", i, n);
                    for _ in 0..10 {
                        let m = if r.bool() { msg.clone() } else { r.bytes(32) };
                        let ml = ops::pss_m(CKM_SHA256_RSA_PKCS_PSS, CKM_SHA256, CKG_MGF1_SHA256, *[32usize, 20, 16].get(r.us(3)).unwrap());
                        match r.below(4) {
                            0 | 1 => {
                                let me = M::new(if r.bool() { CKM_ECDSA } else { CKM_ECDSA_SHA256 });
                                if c::sign_init(s, &me, h).is_ok() {
                                    if let Ok(v) = c::sign(s, &m) {
                                        see_draw(seen, "ECDSA-r", &v[..v.len() / 2], &who);
                                        see_draw(seen, "ECDSA-s", &v[v.len() / 2..], &who);
                                    }
                                }
                            }
                            2 => {
                                if c::sign_init(s, &ml, hp).is_ok() {
                                    if let Ok(v) = c::sign(s, &m) {
                                        see_draw(seen, "PSS-signature", &v, &who);
                                        if let Some(x) = pss_salt(ri, &v) {
                                            see_draw(salts, "PSS-salt", &x, &who);
                                        }
                                    }
                                }
                            }
                            _ => {
                                let oaep = r.bool();
                                let me = if oaep { ops::oaep_m(CKM_SHA256, CKG_MGF1_SHA256, b"") } else { M::new(CKM_RSA_PKCS) };
                                if c::encrypt_init(s, &me, hq).is_ok() {
                                    if let Ok(v) = c::encrypt(s, &m[..8]) {
                                        see_draw(seen, "RSA-ciphertext", &v, &who);
                                        let e = ops::rsa_ref(ri).privop(&v);
                                        if !oaep {
                                            // 00 02 padding 00 message
                                            let k = e.len();
                                            let pad = &e[2..k - 9];
                                            if pad.contains(&0) || e[k - 9] != 0 || e[..2] != [0, 2] {
                                                viol!(["P27", "P14"], "pkcs1-padding", "an RSA PKCS#1 encryption block is {}", w::hex(&e));
                                            }
                                            see_draw(salts, "PKCS1-padding", &pad[..32], &who);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    let _ = c::close(s);
                });
            }
        });
        w::eval(&format!("sigs threads{} {:?} rsa{} {}", nt, cv.bits, ri, n % 100));
        for o in [h, hp, hq] {
            let _ = c::destroy(_l, o);
        }
    }
    t.end();
}
/// the salt of a PSS signature with SHA-256 and MGF1-SHA256
fn pss_salt(ri: usize, sig: &[u8]) -> Option<Vec<u8>> {
    let k = ops::rsa_ref(ri);
    let em = k.pubop(sig);
    // drop a leading byte when the modulus is one bit more than a multiple of eight
    let hl = 32;
    if *em.last()? != 0xbc {
        return None;
    }
    let db = &em[..em.len() - hl - 1];
    let hh = &em[em.len() - hl - 1..em.len() - 1];
    let mask = refc::mgf1(refc::SHA256, hh, db.len());
    let x: Vec<u8> = db.iter().zip(mask.iter()).map(|(a, b)| a ^ b).collect();
    let p = x.iter().skip(1).position(|b| *b == 1)? + 1;
    Some(x[p + 1..].to_vec())
}
// ------------------------------------------------------------------ what is stored
fn octets(b: &[u8], o: &mut Vec<Vec<u8>>, depth: usize) {
    let mut b = b;
    while b.len() >= 2 && depth < 14 {
        let t = b[0];
        let (n, h) = match b[1] {
            x if x < 0x80 => (x as usize, 2),
            0x81 if b.len() > 2 => (b[2] as usize, 3),
            0x82 if b.len() > 3 => ((b[2] as usize) << 8 | b[3] as usize, 4),
            _ => return,
        };
        if b.len() < h + n {
            return;
        }
        let c = &b[h..h + n];
        match t {
            4 => o.push(c.to_vec()),
            _ if t & 0x20 != 0 => octets(c, o, depth + 1),
            _ => (),
        }
        b = &b[h + n..];
    }
}
fn store(nss: bool, r: &mut Rng) {
    let mut blobs: HashSet<u64> = HashSet::new();
    let mut salts: HashMap<Vec<u8>, String> = HashMap::new();
    let mut serials: HashSet<Vec<u8>> = HashSet::new();
    let mut uids: HashMap<Vec<u8>, String> = HashMap::new();
    let mut round = 0;
    while w::time_left() && w::viols() < 10 {
        round += 1;
        let mut wl = World::new(nss, "store", r, false);
        let mut serial = c::token_info(0).must("C_GetTokenInfo").serialNumber.to_vec();
        if !nss && !serials.insert(serial.clone()) {
            viol!(["P27"], "repeat:serial", "a new token has the serial number {} of an earlier one", String::from_utf8_lossy(&serial));
        }
        let per = if nss { 12 } else { 60 };
        for st in 0..per {
            if !w::time_left() {
                break;
            }
            let (name, rv) = match r.below(8) {
                0 => {
                    // the same PIN again
                    wl.settle();
                    if nss { ("none", 0) } else { ("C_SetPIN", rvof(&c::set_pin(wl.s, &wl.user, &wl.user))) }
                }
                1 => {
                    // the same value again, in a new object
                    wl.settle();
                    let t = ops::aes_key(&[0x77; 32]).b(CKA_TOKEN, true).b(CKA_PRIVATE, true).b(CKA_SENSITIVE, r.bool()).s(CKA_LABEL, "same value");
                    ("C_CreateObject", rvof(&c::create(wl.s, &t)))
                }
                2 => {
                    // stored again without a change
                    wl.settle();
                    match wl.any(r) {
                        Some(o) => ("C_SetAttributeValue", rvof(&c::set(wl.s, o, &T::new().s(CKA_LABEL, "again")))),
                        None => ("none", 0),
                    }
                }
                _ => wl.step(r),
            };
            w::eval(&format!("store {} {} {} {}", nss, name, rvn(rv), st % 10));
            w::count(name, 1);
            let now = c::token_info(0).must("C_GetTokenInfo").serialNumber.to_vec();
            if now != serial {
                serial = now;
                if !nss && !serials.insert(serial.clone()) {
                    viol!(["P27"], "repeat:serial", "after {} the token has the serial number {} of an earlier one", name, String::from_utf8_lossy(&serial));
                }
            }
            // every encrypted record of the database
            let mut recs: Vec<(String, Vec<u8>)> = vec![];
            if nss {
                if let Ok(db) = Db::open(&format!("{}/key4.db", wl.dir)) {
                    for row in db.q("SELECT * FROM nssPrivate", &[]).unwrap_or_default() {
                        for (i, v) in row.iter().enumerate() {
                            if let V::Blob(b) = v {
                                if b.len() > 60 && b[0] == 0x30 {
                                    recs.push((format!("nssPrivate column {}", i), b.clone()));
                                }
                            }
                        }
                    }
                    for row in db.q("SELECT id,item1,item2 FROM metaData", &[]).unwrap_or_default() {
                        for v in &row[1..] {
                            if let V::Blob(b) = v {
                                if b.first() == Some(&0x30) {
                                    recs.push((format!("metaData {}", row[0].text().split('_').take(2).collect::<Vec<_>>().join("_")), b.clone()));
                                }
                            }
                        }
                    }
                    if let Ok(dc) = Db::open(&format!("{}/cert9.db", wl.dir)) {
                        let _ = dc;
                    }
                }
            } else if let Ok(db) = Db::open(&format!("{}/token.sql", wl.dir)) {
                for row in db.q("SELECT attr,val FROM objects", &[]).unwrap_or_default() {
                    if let Some(b) = row[1].blob() {
                        if b.len() > 60 && b[0] == 0x30 && b.windows(8).any(|x| x == b"\x2b\x06\x01\x04\x01\x92\x08\x0f") | (matches!(row[0].int() as u64, CKA_VALUE | CKA_PRIVATE_EXPONENT | CKA_PRIME_1 | CKA_PRIME_2 | CKA_EXPONENT_1 | CKA_EXPONENT_2 | CKA_COEFFICIENT)) {
                            recs.push((format!("attribute {:#x}", row[0].int()), b.clone()));
                        }
                    }
                }
                for row in db.q("SELECT value,data FROM meta WHERE name='USER DATA'", &[]).unwrap_or_default() {
                    if let Some(b) = row[1].blob() {
                        recs.push((format!("PIN record of {}", row[0].text()), b.clone()));
                    }
                }
            }
            for (what, b) in recs {
                if !blobs.insert(w::hash64(&b)) {
                    continue;
                }
                let mut o = vec![];
                octets(&b, &mut o, 0);
                let mut seen_here = HashSet::new();
                for x in o {
                    // ids used as labels of derivations are no secrets
                    if x.len() < 12 || x.len() == 36 && x[8] == b'-' || !seen_here.insert(x.clone()) {
                        continue;
                    }
                    w::count("stored-values", 1);
                    if let Some(p) = salts.insert(x.clone(), what.clone()) {
                        viol!(["P27"], &format!("stored-repeat:{}:{}", if nss { "nss" } else { "sqlite" }, what.split(' ').next().unwrap()), "after {}: {} of {} bytes in {} was already used in {}", name, w::hex(&x), x.len(), what, p);
                    }
                }
            }
            // ids of everything there
            if !nss && r.chance(1, 3) {
                wl.settle();
                for o in c::find(wl.s, &T::new()).must("C_FindObjects") {
                    let (Ok(u), Ok(cls)) = (c::attr(wl.s, o, CKA_UNIQUE_ID), c::attr(wl.s, o, CKA_CLASS)) else { continue };
                    let lab = c::attr(wl.s, o, CKA_LABEL).unwrap_or_default();
                    let id = c::attr(wl.s, o, CKA_ID).unwrap_or_default();
                    let _ = lab;
                    let me = format!("{} {} {} {}", round, o, w::hex(&cls), w::hex(&id[..id.len().min(4)]));
                    // an object keeps its id; the handle is new after a restart
                    let key = u.clone();
                    if let Some(p) = uids.insert(key, me.clone()) {
                        let (a, b): (Vec<&str>, Vec<&str>) = (p.split(' ').collect(), me.split(' ').collect());
                        if a[0] != b[0] && cls != CKO_PROFILE.to_ne_bytes() && cls != CKO_MECHANISM.to_ne_bytes() && cls != CKO_HW_FEATURE.to_ne_bytes() || a[2] != b[2] {
                            viol!(["P27"], "repeat:uid", "the unique id {} belongs to two objects: {} and {}", String::from_utf8_lossy(&u), p, me);
                        }
                    }
                }
                w::count("id-sweeps", 1);
            }
        }
        wl.end();
    }
}
