//! Stored data modified behind the library's back (P13).
use crate::c::{self, *};
use crate::p11::*;
use crate::refc;
use crate::shim::{self, Image};
use crate::sql::{Db, V};
use crate::tok::*;
use crate::w::{self, hex, Rng};
use crate::{job, ops, times, viol, Job};
use std::collections::BTreeMap;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let k = if th { 8 } else { 1 };
    match prop {
        "P13" => {
            let mut v = times(7 * k, |_| job("tamper.rec", 0, 22_000));
            v.extend(times(4 * k, |_| job("tamper.rec", 1, 25_000)));
            v.extend(times(4 * k, |_| job("tamper.damage", 0, 22_000)));
            v.extend(times(2 * k, |_| job("tamper.damage", 1, 25_000)));
            v
        }
        _ => vec![],
    }
}
pub fn run(_prop: &str, job: &str, arg: u64, r: &mut Rng) {
    while w::time_left() && w::viols() < 400 {
        match job {
            "tamper.rec" => rec(arg == 1, r),
            "tamper.damage" => damage(arg == 1, r),
            _ => panic!("{}", job),
        }
    }
}

// ------------------------------------------------------------------ DER trees
#[derive(Clone, Debug)]
struct Node {
    tag: u8,
    val: Vec<u8>,
    kids: Vec<Node>,
}
fn parse(b: &[u8]) -> Option<Vec<Node>> {
    let mut b = b;
    let mut v = vec![];
    while !b.is_empty() {
        let (n, h) = match *b.get(1)? {
            x if x < 0x80 => (x as usize, 2),
            0x81 => (*b.get(2)? as usize, 3),
            0x82 => ((*b.get(2)? as usize) << 8 | *b.get(3)? as usize, 4),
            _ => return None,
        };
        if b.len() < h + n {
            return None;
        }
        let c = &b[h..h + n];
        let mut nd = Node { tag: b[0], val: vec![], kids: vec![] };
        if b[0] & 0x20 != 0 {
            nd.kids = parse(c)?;
        } else {
            nd.val = c.to_vec();
        }
        v.push(nd);
        b = &b[h + n..];
    }
    Some(v)
}
fn unparse(v: &[Node]) -> Vec<u8> {
    let mut o = vec![];
    for n in v {
        let body = if n.tag & 0x20 != 0 { unparse(&n.kids) } else { n.val.clone() };
        o.extend(refc::der(n.tag, &body));
    }
    o
}
fn leaves<'a>(v: &'a mut [Node], out: &mut Vec<&'a mut Node>) {
    for n in v {
        if n.tag & 0x20 != 0 {
            leaves(&mut n.kids, out)
        } else {
            out.push(n)
        }
    }
}
/// (new bytes, what was done, whether an error is the only right answer)
fn mutate(b: &[u8], r: &mut Rng) -> (V, String, &'static str, bool) {
    match r.below(10) {
        0..=2 => {
            let mut x = b.to_vec();
            let i = r.us(x.len());
            x[i] ^= 1 << r.below(8);
            (V::Blob(x), format!("bit flipped in byte {}", i), "flip", false)
        }
        3 => {
            let mut x = b.to_vec();
            let i = r.us(x.len());
            x[i] = r.next() as u8;
            let j = r.us(x.len());
            x[j] ^= 0xff;
            (V::Blob(x), format!("bytes {} and {} changed", i, j), "flip", false)
        }
        4 => {
            let n = r.us(b.len());
            (V::Blob(b[..n].to_vec()), format!("truncated to {} bytes", n), "cut", true)
        }
        5 => {
            let mut x = b.to_vec();
            let n = r.range(1, 40);
            x.extend(r.bytes(n));
            (V::Blob(x), "extended".into(), "extend", true)
        }
        6 => match r.below(4) {
            0 => (V::Blob(vec![]), "emptied".into(), "cut", true),
            1 => (V::Int(r.below(300) as i64), "made a number".into(), "type", true),
            2 => (V::Text(hex(b)), "made a text".into(), "type", true),
            _ => {
                let n = r.range(1, 200);
                (V::Blob(r.bytes(n)), "replaced by random bytes".into(), "junk", true)
            }
        },
        _ => {
            let Some(mut t) = parse(b) else { return (V::Blob(vec![1]), "emptied".into(), "cut", true) };
            let mut l = vec![];
            leaves(&mut t, &mut l);
            let n = l.len();
            // the last ones are the interesting ones
            let i = if r.bool() { n - 1 - r.us(n.min(3)) } else { r.us(n) };
            let f = &mut l[i];
            let mut must = false;
            let what = match f.tag {
                2 => {
                    f.val = r.pick(&[vec![0], vec![1], vec![0x7f, 0xff, 0xff, 0xff], vec![0x7f; 8], vec![0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0xff], vec![0x02, 0x00, 0x00, 0x00, 0x00], vec![16], vec![0x20, 0]]).clone();
                    format!("number {} of the structure set to {}", i, hex(&f.val))
                }
                4 => {
                    let k = r.below(5);
                    match k {
                        0 | 1 => {
                            let n = if r.chance(1, 3) { 0 } else { r.us(f.val.len().max(1)) };
                            // a 14 byte IV is completed by the NSS code
                            must = n < f.val.len() && f.val.len() != 16;
                            f.val.truncate(n);
                            format!("octets {} of {} cut to {}", i, l.len(), n)
                        }
                        2 => {
                            let n = r.range(1, 20);
                            f.val.extend(r.bytes(n));
                            format!("octets {} extended by {}", i, n)
                        }
                        3 => {
                            f.val = r.bytes(f.val.len());
                            format!("octets {} replaced", i)
                        }
                        _ => {
                            if !f.val.is_empty() {
                                let j = r.us(f.val.len());
                                f.val[j] ^= 1 << r.below(8);
                            }
                            format!("bit flipped in octets {}", i)
                        }
                    }
                }
                6 => {
                    f.val = r
                        .pick(&[
                            refc_oid("2.16.840.1.101.3.4.1.6"),
                            refc_oid("2.16.840.1.101.3.4.1.2"),
                            refc_oid("2.16.840.1.101.3.4.1.42"),
                            refc_oid("1.2.840.113549.2.7"),
                            refc_oid("1.2.840.113549.2.9"),
                            refc_oid("1.2.840.113549.2.11"),
                            refc_oid("1.2.840.113549.1.5.12"),
                            refc_oid("1.2.3.4"),
                        ])
                        .clone();
                    format!("algorithm {} changed", i)
                }
                _ => {
                    f.val = r.bytes(3);
                    format!("field {} changed", i)
                }
            };
            let x = unparse(&t);
            if x == b {
                return mutate(b, r);
            }
            (V::Blob(x), what, "field", must)
        }
    }
}
fn refc_oid(s: &str) -> Vec<u8> {
    let p: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut o = vec![(p[0] * 40 + p[1]) as u8];
    for x in &p[2..] {
        let mut t = vec![(x & 127) as u8];
        let mut y = x >> 7;
        while y > 0 {
            t.insert(0, 128 | (y & 127) as u8);
            y >>= 7;
        }
        o.extend(t);
    }
    o
}

// ------------------------------------------------------------------ the tokens
#[derive(Clone)]
enum What {
    Aes(Vec<u8>),
    Mac(Vec<u8>),
    Rsa(usize),
    Ec(refc::Curve, Vec<u8>),
}
#[derive(Clone)]
struct Key {
    label: String,
    what: What,
    /// protected attributes and their values
    prot: Vec<(CK_ULONG, Vec<u8>)>,
    /// attributes with a signature (NSS)
    auth: Vec<(CK_ULONG, Vec<u8>)>,
}
struct Two {
    conf: String,
    dir: String,
    keys: [Vec<Key>; 2],
    image: Image,
    so: [Vec<u8>; 2],
    user: [Vec<u8>; 2],
    nss: bool,
}
fn make_keys(s: H, tag: &str, nss: bool, same: &[Vec<u8>], r: &mut Rng) -> Vec<Key> {
    let mut v = vec![];
    let n = if nss { r.range(4, 6) } else { r.range(6, 9) };
    for i in 0..n {
        let label = format!("{}{}", tag, i);
        let sens = r.chance(1, 3);
        let common = |t: T| t.b(CKA_TOKEN, true).b(CKA_PRIVATE, true).s(CKA_LABEL, &label).b(CKA_SENSITIVE, sens).b(CKA_EXTRACTABLE, true);
        let k = match i {
            0 | 1 => 0,
            2 => 2,
            3 => 3,
            _ => r.below(4),
        };
        let (what, t, prot, auth) = match k {
            0 => {
                let v = if i == 0 && !same.is_empty() {
                    same[0].clone()
                } else {
                    let n = *r.pick(&[16, 32]);
                    r.bytes(n)
                };
                (What::Aes(v.clone()), aes_t(&v).b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true), vec![(CKA_VALUE, v)], vec![])
            }
            1 => {
                let n = r.range(10, 70);
                let v = r.bytes(n);
                (What::Mac(v.clone()), secret_t(CKK_GENERIC_SECRET, &v).b(CKA_SIGN, true), vec![(CKA_VALUE, v)], vec![])
            }
            2 => {
                let j = r.us(ops::nrsa());
                let t = ops::rsa_priv(j);
                let g = |a| (a, t.get(a).unwrap().clone());
                let p = vec![g(CKA_PRIVATE_EXPONENT), g(CKA_PRIME_1), g(CKA_PRIME_2), g(CKA_EXPONENT_1), g(CKA_EXPONENT_2), g(CKA_COEFFICIENT)];
                let a = vec![g(CKA_MODULUS), g(CKA_PUBLIC_EXPONENT)];
                (What::Rsa(j), t.setb(CKA_SIGN, true), p, a)
            }
            _ => {
                let cv = *r.pick(&[refc::P256, refc::P384]);
                let d = ops::ec_scalar(cv, r);
                (What::Ec(cv, d.clone()), ops::ec_priv_t(cv, &d).setb(CKA_SIGN, true), vec![(CKA_VALUE, d)], vec![])
            }
        };
        c::create(s, &common(t)).must("C_CreateObject");
        v.push(Key { label, what, prot, auth });
    }
    v
}
fn two(nss: bool, r: &mut Rng) -> Two {
    let dir = scratch("tamper");
    let data = format!("{}/d", dir);
    for x in ["a", "b"] {
        std::fs::create_dir_all(format!("{}/{}", data, x)).unwrap();
    }
    let cfg = |i: u64, x: &str| if nss { crate::tok::nss(i, &format!("{}/{}", data, x)) } else { sqlite(i, &format!("{}/{}", data, x), "token") };
    let conf = write_conf(&dir, &[cfg(0, "a"), cfg(1, "b")]);
    c::initialize(Some(&conf)).must("C_Initialize");
    let mut pin = || (0..10).map(|_| b'a' + r.below(26) as u8).collect::<Vec<u8>>();
    let so = [pin(), pin()];
    let mut user = [pin(), pin()];
    if r.bool() {
        user[1] = user[0].clone();
    }
    let mut keys = [vec![], vec![]];
    let mut same = vec![];
    for i in 0..2usize {
        c::init_token(i as u64, &so[i], "t").must("C_InitToken");
        let s = c::open(i as u64, true).must("C_OpenSession");
        c::login(s, CKU_SO, &so[i]).must("C_Login(SO)");
        c::init_pin(s, &user[i]).must("C_InitPIN");
        c::logout(s).must("C_Logout");
        c::login(s, CKU_USER, &user[i]).must("C_Login(USER)");
        keys[i] = make_keys(s, if i == 0 { "a" } else { "b" }, nss, &same, r);
        if let What::Aes(v) = &keys[i][0].what {
            same = vec![v.clone()];
        }
    }
    c::finalize().must("C_Finalize");
    let image = shim::snapshot(&data);
    Two { conf, dir: data, keys, image, so, user, nss }
}
/// uses the key: Ok(true) right result, Ok(false) wrong result
fn works(s: H, o: H, k: &What) -> R<bool> {
    match k {
        What::Aes(v) => {
            c::encrypt_init(s, &M::new(CKM_AES_ECB), o)?;
            let d = [0x5au8; 32];
            Ok(c::encrypt(s, &d)? == refc::aes_ecb(v, &d, true))
        }
        What::Mac(v) => {
            c::sign_init(s, &M::new(CKM_SHA256_HMAC), o)?;
            Ok(c::sign(s, b"abc")? == refc::hmac(refc::SHA256, v, b"abc"))
        }
        What::Rsa(i) => {
            c::sign_init(s, &M::new(CKM_RSA_PKCS), o)?;
            let sig = c::sign(s, b"probe")?;
            let k = ops::rsa_ref(*i);
            Ok(Some(k.pubop(&sig)) == refc::pkcs1_t1(sig.len(), b"probe"))
        }
        What::Ec(cv, d) => {
            c::sign_init(s, &M::new(CKM_ECDSA), o)?;
            let dig = [9u8; 32];
            let sig = c::sign(s, &dig)?;
            Ok(refc::ecdsa_verify(*cv, &refc::ec_mul(*cv, d, None).unwrap(), &dig, &sig))
        }
    }
}
fn dbpath(t: &Two, i: usize) -> String {
    format!("{}/{}/{}", t.dir, ["a", "b"][i], if t.nss { "key4.db" } else { "token.sql" })
}
/// label -> row id
fn rows(db: &Db, nss: bool) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    let q = if nss { "SELECT id, a3 FROM nssPrivate".to_string() } else { format!("SELECT id, val FROM objects WHERE attr={}", CKA_LABEL) };
    for x in db.q(&q, &[]).unwrap_or_default() {
        m.insert(x[1].text(), x[0].int());
    }
    m
}
fn get(db: &Db, nss: bool, id: i64, a: CK_ULONG) -> Option<Vec<u8>> {
    let q = if nss { format!("SELECT a{:x} FROM nssPrivate WHERE id={}", a, id) } else { format!("SELECT val FROM objects WHERE id={} AND attr={}", id, a) };
    db.q(&q, &[]).ok()?.first()?.first()?.blob().cloned()
}
fn put(db: &Db, nss: bool, id: i64, a: CK_ULONG, v: V) {
    let q = if nss { format!("UPDATE nssPrivate SET a{:x}=? WHERE id={}", a, id) } else { format!("UPDATE objects SET val=? WHERE id={} AND attr={}", id, a) };
    db.q(&q, &[v]).expect("UPDATE");
}
fn sigid(id: i64, a: CK_ULONG) -> String {
    format!("sig_key_{:08x}_{:08x}", id, a)
}

fn rec(nss: bool, r: &mut Rng) {
    let t = two(nss, r);
    let rounds = if nss { 25 } else { 60 };
    for _ in 0..rounds {
        if !w::time_left() || w::viols() > 300 {
            break;
        }
        shim::put(&t.dir, &t.image);
        if r.chance(1, 4) {
            pins(&t, r);
        } else {
            objects(&t, r);
        }
    }
    let _ = std::fs::remove_dir_all(&t.dir);
}
fn objects(t: &Two, r: &mut Rng) {
    let nss = t.nss;
    let pre = if nss { "nss:" } else { "" };
    // (key, attribute) -> (what was done, kind, an error is required)
    let mut done: BTreeMap<(usize, CK_ULONG), (String, String, bool)> = BTreeMap::new();
    {
        let db = Db::open(&dbpath(t, 0)).unwrap();
        let db2 = Db::open(&dbpath(t, 1)).unwrap();
        let (ra, rb) = (rows(&db, nss), rows(&db2, nss));
        db.q("BEGIN", &[]).unwrap();
        for (ki, k) in t.keys[0].iter().enumerate() {
            if r.chance(1, 4) {
                continue;
            }
            let Some(id) = ra.get(&k.label) else { panic!("no row for {}", k.label) };
            if nss && !k.auth.is_empty() && r.chance(1, 2) {
                let (a, val) = r.pick(&k.auth).clone();
                let sid = sigid(*id, a);
                let sig = db.q("SELECT item1 FROM metaData WHERE id=?", &[V::Text(sid.clone())]).unwrap()[0][0].blob().unwrap().clone();
                match r.below(4) {
                    0 => {
                        let mut x = val.clone();
                        let i = r.us(x.len());
                        x[i] ^= 1 << r.below(8);
                        put(&db, true, *id, a, V::Blob(x));
                        done.insert((ki, a), (format!("byte {} of the signed value changed", i), "signed-value".into(), true));
                    }
                    1 => {
                        let (b, _) = k.auth[if k.auth[0].0 == a { 1 } else { 0 }].clone();
                        let o = db.q("SELECT item1 FROM metaData WHERE id=?", &[V::Text(sigid(*id, b))]).unwrap()[0][0].clone();
                        db.q("UPDATE metaData SET item1=? WHERE id=?", &[o, V::Text(sid)]).unwrap();
                        done.insert((ki, a), ("signature of another attribute".into(), "signature-swap".into(), true));
                    }
                    2 => {
                        db.q("DELETE FROM metaData WHERE id=?", &[V::Text(sid)]).unwrap();
                        done.insert((ki, a), ("signature removed".into(), "signature-gone".into(), true));
                    }
                    _ => {
                        let (v, d, kind, must) = mutate(&sig, r);
                        db.q("UPDATE metaData SET item1=? WHERE id=?", &[v, V::Text(sid)]).unwrap();
                        done.insert((ki, a), (format!("signature: {}", d), format!("signature-{}", kind), must));
                    }
                }
                continue;
            }
            let (a, plain) = r.pick(&k.prot).clone();
            let Some(blob) = get(&db, nss, *id, a) else { panic!("no stored value of {} {}", k.label, ckan(a)) };
            let (v, d, kind, must): (V, String, String, bool) = match r.below(12) {
                0..=6 => {
                    let (v, d, k, m) = mutate(&blob, r);
                    (v, d, k.to_string(), m)
                }
                7 | 8 => {
                    // another object of this token
                    let ok = r.pick(&t.keys[0]);
                    if ok.label == k.label {
                        continue;
                    }
                    let (b, bv) = r.pick(&ok.prot).clone();
                    let Some(x) = get(&db, nss, ra[&ok.label], b) else { continue };
                    if done.contains_key(&(t.keys[0].iter().position(|y| y.label == ok.label).unwrap(), b)) || bv == plain {
                        continue;
                    }
                    (V::Blob(x), format!("replaced by {} of {}", ckan(b), ok.label), "swap-object".into(), true)
                }
                9 => {
                    // another attribute of this object
                    let (b, bv) = r.pick(&k.prot).clone();
                    if b == a || bv == plain {
                        continue;
                    }
                    let Some(x) = get(&db, nss, *id, b) else { continue };
                    (V::Blob(x), format!("replaced by its own {}", ckan(b)), "swap-attribute".into(), true)
                }
                10 => {
                    // the other token, preferably the same attribute of an object with the same number
                    let ok = r.pick(&t.keys[1]);
                    let (b, bv) = r.pick(&ok.prot).clone();
                    if bv == plain {
                        continue;
                    }
                    let Some(x) = get(&db2, nss, rb[&ok.label], b) else { continue };
                    (V::Blob(x), format!("replaced by {} of {} of the other token", ckan(b), ok.label), "swap-token".into(), true)
                }
                _ => match r.below(3) {
                    0 => (V::Blob(plain.clone()), "replaced by its clear value".into(), "plain".into(), true),
                    1 => (V::Blob(r.bytes(plain.len())), "replaced by a clear value".into(), "plain".into(), true),
                    _ => {
                        let q = if nss { "SELECT item2 FROM metaData WHERE id='password'" } else { "SELECT data FROM meta WHERE name='USER DATA' AND value='USER'" };
                        let x = db.q(q, &[]).expect("PIN record")[0][0].clone();
                        (x, "replaced by the PIN record".into(), "pin-record".into(), true)
                    }
                },
            };
            if v == V::Blob(blob) {
                continue;
            }
            put(&db, nss, *id, a, v);
            done.insert((ki, a), (d, kind, must));
        }
        db.q("COMMIT", &[]).unwrap();
    }
    c::initialize(Some(&t.conf)).must("C_Initialize");
    let s = c::open(0, true).must("C_OpenSession");
    c::login(s, CKU_USER, &t.user[0]).must("C_Login(USER)");
    for (ki, k) in t.keys[0].iter().enumerate() {
        let mine: Vec<_> = done.iter().filter(|((i, _), _)| *i == ki).map(|((_, a), d)| (*a, d.clone())).collect();
        let o = match c::find(s, &T::new().s(CKA_LABEL, &k.label)) {
            Ok(v) if v.len() == 1 => v[0],
            // an undecodable row makes searches fail
            _ => {
                w::count("object not found", 1);
                continue;
            }
        };
        for (a, val) in k.prot.iter().chain(&k.auth) {
            let got = c::attr(s, o, *a);
            match mine.iter().find(|(b, _)| b == a) {
                Some((_, (d, kind, must))) => {
                    w::eval(&format!("{}read/{}/{}/{}", pre, ckan(*a), kind, got.is_ok()));
                    if let Ok(x) = &got {
                        if x != val {
                            viol!(["P13"], &format!("{}{}:read", pre, kind), "stored {} of {} {}: read as {} instead of {} or an error", ckan(*a), k.label, d, hex(x), hex(val));
                        } else if *must {
                            viol!(["P13"], &format!("{}{}:undetected", pre, kind), "stored {} of {} {}: still read as {}", ckan(*a), k.label, d, hex(x));
                        }
                    }
                }
                None => {
                    if let Ok(x) = &got {
                        if x != val {
                            viol!(["P13"], &format!("{}untouched", pre), "{} of {} reads as {} instead of {}", ckan(*a), k.label, hex(x), hex(val));
                        }
                    }
                    if mine.is_empty() && matches!(got, Err(e) if e != CKR_ATTRIBUTE_SENSITIVE) {
                        viol!(["P13"], &format!("{}untouched", pre), "{} of {} cannot be read any more: {}", ckan(*a), k.label, rvof(&got));
                    }
                }
            }
        }
        let u = works(s, o, &k.what);
        w::eval(&format!("{}use/{}/{}", pre, mine.first().map(|m| m.1 .1.as_str()).unwrap_or("-"), u.is_ok()));
        match (u, mine.first()) {
            (Ok(true), None) => (),
            (Ok(true), Some((a, (d, kind, must)))) => {
                if *must && matches!(*a, CKA_VALUE) {
                    viol!(["P13"], &format!("{}{}:undetected", pre, kind), "stored {} of {} {}: the key still works", ckan(*a), k.label, d);
                }
            }
            (Ok(false), Some((a, (d, kind, _)))) => {
                viol!(["P13"], &format!("{}{}:use", pre, kind), "stored {} of {} {}: the key was used with another value", ckan(*a), k.label, d);
            }
            (Ok(false), None) => {
                viol!(["P13"], &format!("{}untouched", pre), "{} works as another key", k.label);
            }
            (Err(_), Some(_)) => (),
            (Err(e), None) => {
                viol!(["P13"], &format!("{}untouched", pre), "{} cannot be used any more: {}", k.label, rvn(e));
            }
        }
    }
    c::finalize().must("C_Finalize");
}
fn pins(t: &Two, r: &mut Rng) {
    let nss = t.nss;
    let pre = if nss { "nss:" } else { "" };
    let db = Db::open(&dbpath(t, 0)).unwrap();
    let db2 = Db::open(&dbpath(t, 1)).unwrap();
    let read = |d: &Db, who: &str, item: u8| {
        let q = if nss { format!("SELECT item{} FROM metaData WHERE id='password'", item) } else { format!("SELECT data FROM meta WHERE name='USER DATA' AND value='{}'", who) };
        d.q(&q, &[]).unwrap()[0][0].blob().unwrap().clone()
    };
    let write = |who: &str, item: u8, v: V| {
        let q = if nss { format!("UPDATE metaData SET item{}=? WHERE id='password'", item) } else { format!("UPDATE meta SET data=? WHERE name='USER DATA' AND value='{}'", who) };
        db.q(&q, &[v]).unwrap();
    };
    let who = if !nss && r.bool() { "SO" } else { "USER" };
    let item = if nss && r.chance(1, 3) { 1 } else { 2 };
    // kinds: damaged record (own PIN may work or not), swapped between users, from the other token
    let mut foreign = false;
    let mut swapped = false;
    let mut must = false;
    let (what, kind) = match r.below(10) {
        0..=6 => {
            let b = read(&db, who, item);
            if item == 1 {
                let mut x = b.clone();
                let i = r.us(x.len());
                x[i] ^= 1 << r.below(8);
                must = true;
                if r.bool() {
                    x.truncate(i)
                }
                write(who, item, V::Blob(x));
                (format!("salt changed at {}", i), "salt".to_string())
            } else {
                let (v, d, k, m) = mutate(&b, r);
                must = m;
                write(who, item, v);
                (d, k.to_string())
            }
        }
        7 | 8 if !nss => {
            let (x, y) = (read(&db, "SO", 2), read(&db, "USER", 2));
            write("SO", 2, V::Blob(y));
            write("USER", 2, V::Blob(x));
            swapped = true;
            ("the records of SO and user swapped".into(), "swap-users".to_string())
        }
        _ => {
            for i in 1..=2 {
                if nss || i == 2 {
                    write(who, i, V::Blob(read(&db2, who, i)));
                }
            }
            foreign = true;
            ("record of the other token".into(), "swap-token".to_string())
        }
    };
    drop((db, db2));
    if c::initialize(Some(&t.conf)).is_err() {
        // a record that is no blob at all
        w::eval(&format!("{}pin/{}/unusable", pre, kind));
        let _ = c::finalize();
        return;
    }
    let s = c::open(0, true).must("C_OpenSession");
    // nobody else's PIN opens the token
    let mut wrong: Vec<(Vec<u8>, &str)> = vec![(b"x".to_vec(), "a wrong PIN"), (vec![0; 16], "zero bytes"), (t.user[0][1..].to_vec(), "part of the PIN"), (vec![], "an empty PIN")];
    if !foreign && t.user[1] != t.user[0] {
        wrong.push((t.user[1].clone(), "the PIN of the other token"));
    }
    for u in if nss { vec!["USER"] } else { vec!["USER", "SO"] } {
        let ut = if u == "SO" { CKU_SO } else { CKU_USER };
        let mut w2 = wrong.clone();
        w2.push(if u == "SO" { (t.user[0].clone(), "the user's PIN") } else { (t.so[0].clone(), "the PIN of the SO") });
        if !(foreign && who == u) && nss {
            w2.truncate(3);
        }
        for (p, name) in &w2 {
            let rv = c::login(s, ut, p);
            w::eval(&format!("{}pin/{}/{}/{}", pre, kind, u, rvof(&rv)));
            if rv.is_ok() {
                viol!(["P13", "P05"], &format!("{}{}:wrong-pin", pre, kind), "PIN record of {} {}: login of {} with {} accepted", who, what, u, name);
                let _ = c::logout(s);
            }
        }
        let own = if u == "SO" { &t.so[0] } else { &t.user[0] };
        let rv = c::login(s, ut, own);
        w::eval(&format!("{}own-pin/{}/{}/{}", pre, kind, u, rvof(&rv)));
        let touched = swapped || u == who;
        match rv {
            Ok(()) => {
                let other_pin = foreign && t.user[1] != t.user[0];
                if touched && (swapped || must || (foreign && (u == "SO" || other_pin))) {
                    viol!(["P13"], &format!("{}{}:accepted", pre, kind), "PIN record of {} {}: login of {} still accepted", who, what, u);
                }
                if u == "USER" {
                    values(t, s, &format!("{}{}:pin", pre, kind), &what, foreign && who == u, !touched);
                }
                let _ = c::logout(s);
            }
            Err(e) => {
                // the wrong PINs before count
                if !touched && e != CKR_PIN_LOCKED {
                    viol!(["P13"], &format!("{}{}:other-user", pre, kind), "PIN record of {} {}: login of {} refused with {}", who, what, u, rvn(e));
                }
            }
        }
    }
    c::finalize().must("C_Finalize");
}
fn values(t: &Two, s: H, sig: &str, what: &str, none: bool, all: bool) {
    for k in &t.keys[0] {
        let o = match c::find(s, &T::new().s(CKA_LABEL, &k.label)) {
            Ok(v) if v.len() == 1 => v[0],
            _ => continue,
        };
        for (a, val) in &k.prot {
            match c::attr(s, o, *a) {
                Ok(x) if x != *val || none => {
                    viol!(["P13"], &format!("{}:read", sig), "PIN record {}: {} of {} reads as {} (really {})", what, ckan(*a), k.label, hex(&x), hex(val));
                }
                Ok(_) | Err(CKR_ATTRIBUTE_SENSITIVE) => (),
                Err(e) if all => {
                    viol!(["P13"], &format!("{}:untouched", sig), "PIN record of the SO {}: {} of {} cannot be read: {}", what, ckan(*a), k.label, rvn(e));
                }
                Err(_) => (),
            }
        }
        match works(s, o, &k.what) {
            Ok(g) if !g || none => {
                viol!(["P13"], &format!("{}:use", sig), "PIN record {}: {} used (right result: {})", what, k.label, g);
            }
            _ => (),
        }
    }
}

// ------------------------------------------------------------------ any other damage
fn damage(nss: bool, r: &mut Rng) {
    let t = two(nss, r);
    // more kinds of objects
    let mut image = t.image.clone();
    {
        c::initialize(Some(&t.conf)).must("C_Initialize");
        let s = c::open(0, true).must("C_OpenSession");
        c::login(s, CKU_USER, &t.user[0]).must("C_Login(USER)");
        let _ = c::create(s, &ops::rsa_pub(0).b(CKA_TOKEN, true));
        let _ = c::create(s, &data_t(&r.bytes(50)).b(CKA_TOKEN, true).b(CKA_PRIVATE, false));
        let _ = c::create(s, &T::new().u(CKA_CLASS, CKO_CERTIFICATE).u(CKA_CERTIFICATE_TYPE, CKC_X_509).v(CKA_SUBJECT, b"0\x00").v(CKA_VALUE, &r.bytes(60)).b(CKA_TOKEN, true));
        let _ = c::create(s, &aes_t(&r.bytes(16)).b(CKA_TOKEN, true).b(CKA_ENCRYPT, true).mechs(&[CKM_AES_CBC, CKM_AES_ECB]).v(CKA_START_DATE, b"20240101"));
        c::finalize().must("C_Finalize");
        let now = shim::snapshot(&t.dir);
        image.clear();
        image.extend(now);
    }
    let needles: Vec<Vec<u8>> = t.keys[0].iter().flat_map(|k| k.prot.iter().map(|p| p.1.clone())).filter(|v| v.len() >= 16).collect();
    for _ in 0..if nss { 30 } else { 60 } {
        if !w::time_left() || w::viols() > 300 {
            break;
        }
        shim::put(&t.dir, &image);
        let d = if r.bool() { sql_damage(&t, r) } else { file_damage(&t, r) };
        w::ring(&format!("damage: {}", d));
        battery(&t, &needles, &d, r);
    }
    let _ = std::fs::remove_dir_all(&t.dir);
}
fn any_value(old: &V, r: &mut Rng) -> V {
    match r.below(11) {
        0 => V::Null,
        1 => V::Int(0),
        2 => V::Int(-1),
        3 => V::Int(r.next() as i64),
        4 => V::Text("".into()),
        5 => V::Text("0".repeat(r.range(1, 300))),
        6 => {
            let n = r.len(300);
            V::Blob(r.bytes(n))
        }
        7 => V::Blob(vec![]),
        8 => V::Int(r.below(0x700) as i64),
        9 => match old {
            V::Blob(b) => V::Blob(b[..b.len() / 2].to_vec()),
            V::Int(i) => V::Int(i ^ (1 << r.below(33))),
            V::Text(t) => V::Text(format!("{}x", t)),
            V::Null => V::Int(1),
        },
        _ => match old {
            V::Blob(b) if !b.is_empty() => {
                let mut x = b.clone();
                let i = r.us(x.len());
                x[i] ^= 1 << r.below(8);
                V::Blob(x)
            }
            _ => V::Int(i64::MAX),
        },
    }
}
fn sql_damage(t: &Two, r: &mut Rng) -> String {
    let path = if t.nss && r.bool() { format!("{}/a/cert9.db", t.dir) } else { dbpath(t, 0) };
    let Ok(db) = Db::open(&path) else { return "none".into() };
    let tabs: Vec<String> = db.q("SELECT name FROM sqlite_master WHERE type='table'", &[]).unwrap_or_default().iter().map(|x| x[0].text()).collect();
    let mut log = String::new();
    for _ in 0..r.range(1, 4) {
        if tabs.is_empty() {
            break;
        }
        let tab = r.pick(&tabs).clone();
        let cols: Vec<String> = db.q(&format!("SELECT name FROM pragma_table_info('{}')", tab), &[]).unwrap_or_default().iter().map(|x| x[0].text()).collect();
        if cols.is_empty() {
            continue;
        }
        let ids: Vec<i64> = db.q(&format!("SELECT rowid FROM {}", tab), &[]).unwrap_or_default().iter().map(|x| x[0].int()).collect();
        let k = if r.chance(1, 12) { 7 + r.below(3) } else { r.below(7) };
        let (q, b): (String, Vec<V>) = match k {
            0..=4 if !ids.is_empty() => {
                let id = *r.pick(&ids);
                let mut col = r.pick(&cols).clone();
                // columns that hold something
                for _ in 0..20 {
                    let v = db.q(&format!("SELECT {} FROM {} WHERE rowid={}", col, tab, id), &[]).unwrap_or_default();
                    if v.first().map(|x| x[0] != V::Null).unwrap_or(false) || r.chance(1, 10) {
                        break;
                    }
                    col = r.pick(&cols).clone();
                }
                let old = db.q(&format!("SELECT {} FROM {} WHERE rowid={}", col, tab, id), &[]).unwrap_or_default().first().map(|x| x[0].clone()).unwrap_or(V::Null);
                (format!("UPDATE {} SET {}=? WHERE rowid={}", tab, col, id), vec![any_value(&old, r)])
            }
            5 if !ids.is_empty() => (format!("DELETE FROM {} WHERE rowid={}", tab, r.pick(&ids)), vec![]),
            6 if !ids.is_empty() => {
                let l = cols.join(",");
                (format!("INSERT OR REPLACE INTO {} ({}) SELECT {} FROM {} WHERE rowid={}", tab, l, l.replacen("id", "id+1", if r.bool() { 1 } else { 0 }), tab, r.pick(&ids)), vec![])
            }
            7 => (format!("DROP TABLE {}", tab), vec![]),
            8 => (format!("ALTER TABLE {} DROP COLUMN {}", tab, r.pick(&cols)), vec![]),
            9 => (format!("DELETE FROM {}", tab), vec![]),
            _ => continue,
        };
        let ok = db.q(&q, &b).is_ok();
        log.push_str(&format!("{} {:?} ({}); ", q, b.iter().map(|v| format!("{:?}", v).chars().take(60).collect::<String>()).collect::<Vec<_>>(), ok));
    }
    log
}
fn file_damage(t: &Two, r: &mut Rng) -> String {
    let path = if t.nss && r.bool() { format!("{}/a/cert9.db", t.dir) } else { dbpath(t, 0) };
    let mut b = std::fs::read(&path).unwrap();
    let n = b.len();
    let d = match r.below(9) {
        0..=2 => {
            let m = r.range(1, 20);
            for _ in 0..m {
                let i = r.us(n);
                b[i] ^= 1 << r.below(8);
            }
            format!("{} bits flipped", m)
        }
        3 => {
            let m = r.us(n);
            b.truncate(m);
            format!("truncated to {} of {}", m, n)
        }
        4 => {
            let p = r.us(n / 1024) * 1024;
            for x in &mut b[p..p + 1024] {
                *x = 0
            }
            format!("block at {} zeroed", p)
        }
        5 => {
            let (p, q) = (r.us(n / 4096) * 4096, r.us(n / 4096) * 4096);
            let x = b[p..p + 4096].to_vec();
            b.copy_within(q..q + 4096, p);
            b[q..q + 4096].copy_from_slice(&x);
            format!("pages {} and {} swapped", p / 4096, q / 4096)
        }
        6 => {
            let i = r.us(100);
            b[i] = r.next() as u8;
            format!("header byte {} changed", i)
        }
        7 => {
            b = r.bytes(n.min(9000));
            "random file".into()
        }
        _ => {
            let i = r.us(n);
            let m = r.range(1, 64).min(n - i);
            let x = r.bytes(m);
            b[i..i + m].copy_from_slice(&x);
            format!("{} bytes at {} replaced", m, i)
        }
    };
    if r.chance(1, 25) {
        std::fs::remove_file(&path).unwrap();
        std::fs::create_dir(&path).unwrap();
        return "a directory in place of the file".into();
    }
    if r.chance(1, 10) {
        let m = r.range(1, 9000);
        std::fs::write(format!("{}-journal", path), r.bytes(m)).unwrap();
    }
    std::fs::write(&path, b).unwrap();
    format!("{}: {}", path.rsplit('/').next().unwrap(), d)
}
fn battery(t: &Two, needles: &[Vec<u8>], d: &str, r: &mut Rng) {
    let pre = if t.nss { "nss:" } else { "" };
    let init = c::initialize(Some(&t.conf));
    w::eval(&format!("{}damage/init/{}", pre, rvof(&init)));
    if init.is_err() {
        let _ = c::finalize();
        return;
    }
    let _ = c::slot_list(true);
    let _ = c::token_info(0);
    let look = |s: H, logged: bool| {
        let f = c::find(s, &T::new());
        w::eval(&format!("{}damage/find/{}/{}", pre, logged, rvof(&f)));
        let Ok(f) = f else { return vec![] };
        for o in &f {
            for chunk in super::disk::ATTRS.chunks(if logged { 62 } else { 1 }) {
                let (rv, v) = c::attrs(s, *o, chunk);
                w::eval(&format!("{}damage/attrs/{}/{}", pre, logged, rvn(rv)));
                for x in v.iter().flatten() {
                    if !logged && needles.iter().any(|n| x.windows(n.len().min(12)).any(|y| n.starts_with(y) && y.len() >= 12)) {
                        viol!(["P13", "P03"], &format!("{}disclosed", pre), "after damage ({}) a protected value can be read without login: {}", d, hex(x));
                    }
                }
            }
        }
        f
    };
    let so = c::open(0, true);
    w::eval(&format!("{}damage/open/{}", pre, rvof(&so)));
    if let Ok(s) = so {
        look(s, false);
        let l = c::login(s, CKU_SO, &t.so[0]);
        w::eval(&format!("{}damage/so/{}", pre, rvof(&l)));
        if l.is_ok() {
            let _ = c::logout(s);
        }
        let l = c::login(s, CKU_USER, &t.user[0]);
        w::eval(&format!("{}damage/user/{}", pre, rvof(&l)));
        let objs = look(s, l.is_ok());
        for o in &objs {
            for (m, init) in [(CKM_AES_ECB, 0), (CKM_SHA256_HMAC, 1), (CKM_RSA_PKCS, 1), (CKM_ECDSA, 1)] {
                if !r.chance(1, 3) {
                    continue;
                }
                let u = if init == 0 { c::encrypt_init(s, &M::new(m), *o).and_then(|_| c::encrypt(s, &[3; 16])) } else { c::sign_init(s, &M::new(m), *o).and_then(|_| c::sign(s, &[3; 20])) };
                w::eval(&format!("{}damage/use/{}/{}", pre, ckmn(m), rvof(&u)));
            }
            if r.chance(1, 4) {
                let x = c::set(s, *o, &T::new().s(CKA_LABEL, "new"));
                w::eval(&format!("{}damage/set/{}", pre, rvof(&x)));
            }
            if r.chance(1, 4) {
                let x = c::copy(s, *o, &T::new().b(CKA_TOKEN, r.bool()));
                w::eval(&format!("{}damage/copy/{}", pre, rvof(&x)));
            }
            if r.chance(1, 6) {
                let x = c::size(s, *o);
                w::eval(&format!("{}damage/size/{}", pre, rvof(&x)));
            }
            if r.chance(1, 6) {
                let x = c::destroy(s, *o);
                w::eval(&format!("{}damage/destroy/{}", pre, rvof(&x)));
            }
        }
        let x = c::create(s, &aes_t(&[5; 16]).b(CKA_TOKEN, true));
        w::eval(&format!("{}damage/create/{}", pre, rvof(&x)));
        let x = c::find(s, &T::new().u(CKA_CLASS, CKO_SECRET_KEY).u(CKA_KEY_TYPE, CKK_AES).v(CKA_ID, b"").b(CKA_TOKEN, true));
        w::eval(&format!("{}damage/search/{}", pre, rvof(&x)));
        if !t.nss || r.chance(1, 4) {
            let x = c::set_pin(s, &t.user[0], &t.user[0]);
            w::eval(&format!("{}damage/set_pin/{}", pre, rvof(&x)));
        }
        let _ = c::close_all(0);
    }
    if r.chance(1, 3) {
        let x = c::init_token(0, &t.so[0], "again");
        w::eval(&format!("{}damage/init_token/{}", pre, rvof(&x)));
    }
    c::finalize().must("C_Finalize");
}
