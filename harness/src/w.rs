//! Worker side: violation reporting, coverage accounting, call log ring.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU8, AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};

pub struct Wk {
    pub prop: String,
    pub dir: String,
    pub seed: u64,
    pub tier: String,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub nviol: u64,
}

static WK: OnceLock<Mutex<Wk>> = OnceLock::new();
static T0: OnceLock<std::time::Instant> = OnceLock::new();
static BUDGET_MS: AtomicUsize = AtomicUsize::new(60_000);

pub fn init(prop: &str, dir: &str, seed: u64, tier: &str, budget_ms: usize) {
    let _ = WK.set(Mutex::new(Wk {
        prop: prop.into(),
        dir: dir.into(),
        seed,
        tier: tier.into(),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        nviol: 0,
    }));
    let _ = T0.set(std::time::Instant::now());
    BUDGET_MS.store(budget_ms, Ordering::Relaxed);
}
pub fn wk() -> std::sync::MutexGuard<'static, Wk> {
    match WK.get().expect("worker").lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
pub fn prop() -> String {
    wk().prop.clone()
}
pub fn dir() -> String {
    wk().dir.clone()
}
pub fn thorough() -> bool {
    wk().tier == "thorough"
}
/// time left in this worker's budget?
pub fn time_left() -> bool {
    T0.get().unwrap().elapsed().as_millis() < BUDGET_MS.load(Ordering::Relaxed) as u128
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
/// count one evaluated case; `key` identifies the kind of case for the distinct count
pub fn eval(key: &str) {
    let mut w = wk();
    w.evals += 1;
    let h = hash64(key.as_bytes());
    if w.distinct.len() < 200_000 {
        let new = w.distinct.insert(h);
        if new && w.samples.len() < 4 {
            w.samples.push(key.chars().take(400).collect());
        }
    }
}
pub fn count(name: &str, n: u64) {
    *wk().counters.entry(name.to_string()).or_insert(0) += n;
}
pub fn viols() -> u64 {
    wk().nviol
}
/// A monitor found a violation. `tags`: the properties it breaks. `sig`: stable short signature
/// (used to match known findings). `detail`: what was seen.
pub fn viol(tags: &[&str], sig: &str, detail: &str) {
    let mut w = wk();
    w.nviol += 1;
    if w.nviol > 50 {
        return;
    }
    let path = format!("{}/viol.jsonl", w.dir);
    let v = json!({"tags": tags, "sig": sig, "detail": detail, "trace": ring_tail(6000)});
    drop(w);
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
        let _ = f.write_all(format!("{}\n", v).as_bytes());
    }
}
#[macro_export]
macro_rules! viol {
    ($tags:expr, $sig:expr, $($a:tt)*) => { $crate::w::viol(&$tags, $sig, &format!($($a)*)) };
}
pub fn finish() {
    let w = wk();
    let mut d: Vec<String> = w.distinct.iter().map(|x| format!("{:x}", x)).collect();
    d.sort();
    let v: Value = json!({"evals": w.evals, "distinct": d, "samples": w.samples, "counters": w.counters});
    let _ = std::fs::write(format!("{}/result.json", w.dir), v.to_string());
}

// ---- call log ring (mmap'd file, survives abort) ----
const RSZ: usize = 1 << 21;
static RPTR: AtomicUsize = AtomicUsize::new(0);
static RPOS: AtomicUsize = AtomicUsize::new(0);
static RON: AtomicBool = AtomicBool::new(false);
pub fn ring_open(path: &str) {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(p.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o600);
        if fd < 0 {
            return;
        }
        libc::ftruncate(fd, RSZ as i64);
        let m = libc::mmap(std::ptr::null_mut(), RSZ, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        libc::close(fd);
        if m != libc::MAP_FAILED {
            RPTR.store(m as usize, Ordering::Relaxed);
            RON.store(true, Ordering::Relaxed);
        }
    }
}
pub fn ring_on() -> bool {
    RON.load(Ordering::Relaxed)
}
pub fn ring_set(on: bool) {
    RON.store(on && RPTR.load(Ordering::Relaxed) != 0, Ordering::Relaxed)
}
pub fn ring(s: &str) {
    if !ring_on() {
        return;
    }
    let b = s.as_bytes();
    let n = b.len().min(2000);
    let pos = RPOS.fetch_add(n, Ordering::Relaxed);
    let base = RPTR.load(Ordering::Relaxed) as *mut u8;
    for i in 0..n {
        unsafe { AtomicU8::from_ptr(base.add((pos + i) % RSZ)).store(b[i], Ordering::Relaxed) };
    }
    // end marker so a dead process' tail can be found
    unsafe { AtomicU8::from_ptr(base.add((pos + n) % RSZ)).store(0, Ordering::Relaxed) };
}
pub fn ring_tail(max: usize) -> String {
    let base = RPTR.load(Ordering::Relaxed) as *mut u8;
    if base.is_null() {
        return String::new();
    }
    let pos = RPOS.load(Ordering::Relaxed);
    let n = pos.min(max).min(RSZ);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        unsafe { v.push(AtomicU8::from_ptr(base.add((pos - n + i) % RSZ)).load(Ordering::Relaxed)) };
    }
    String::from_utf8_lossy(&v).into_owned()
}
/// tail of a ring file left by a dead worker
pub fn ring_file_tail(path: &str, max: usize) -> String {
    let b = match std::fs::read(path) {
        Ok(b) => b,
        Err(_) => return String::new(),
    };
    // the marker is the first 0 byte (before wrap: start of the unused rest; after wrap: the marker)
    let p = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    let mut v = b[p..].to_vec();
    v.extend_from_slice(&b[..p]);
    let v: Vec<u8> = v.into_iter().filter(|x| *x != 0).collect();
    let s = if v.len() > max { &v[v.len() - max..] } else { &v[..] };
    String::from_utf8_lossy(s).into_owned()
}

// ---- rng ----
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.us(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    /// data length with emphasis on block boundaries
    pub fn len(&mut self, max: usize) -> usize {
        let c = match self.below(4) {
            0 => *self.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 143, 144, 255, 256, 257, 1023, 1024, 1025, 4096]),
            1 => self.us(64),
            2 => self.us(300),
            _ => self.us(max + 1),
        };
        c.min(max)
    }
    /// split n bytes into pieces (empty ones included)
    pub fn split(&mut self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut left = n;
        let style = self.below(4);
        let mut guard = 0;
        while left > 0 && guard < 4000 {
            guard += 1;
            let k = match style {
                0 => 1,
                1 => self.range(0, 17),
                2 => *self.pick(&[0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129]),
                _ => self.range(0, left),
            }
            .min(left);
            v.push(k);
            left -= k;
        }
        if left > 0 {
            v.push(left);
        }
        if self.chance(1, 4) {
            v.push(0)
        }
        v
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let c: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    c.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect()
}
pub fn hx(b: &[u8]) -> String {
    if b.len() > 48 {
        format!("{}..({})", hex(&b[..40]), b.len())
    } else {
        hex(b)
    }
}

// ---- valgrind client requests (do nothing outside valgrind) ----
pub const VG_UNDEFINED: u64 = 0x4d43_0001;
pub const VG_DEFINED: u64 = 0x4d43_0002;
pub const VG_CHECK: u64 = 0x4d43_0005;
/// memcheck request over `n` bytes at `p`; for VG_CHECK the address of the first undefined byte, or 0
#[inline(never)]
pub fn vg(req: u64, p: *const u8, n: usize) -> usize {
    let args: [u64; 6] = [req, p as u64, n as u64, 0, 0, 0];
    let mut res: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") res, inout("rdi") 0u64 => _,
        );
    }
    res as usize
}
