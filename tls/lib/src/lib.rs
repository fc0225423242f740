//! A C entry point to the rustls provider of the tree under test, for the monitors of P35.
//! kvt(name, args, nargs, out, cap) -> length of the answer, or -1 refused, -2 panicked, -3 bad request.
use rustls::crypto::cipher::*;
use rustls::crypto::tls12::Prf;
use rustls::crypto::tls13::{Hkdf, HkdfExpander, OkmBlock};
use rustls::crypto::{ActiveKeyExchange, CryptoProvider, KeyExchangeAlgorithm, WebPkiSupportedAlgorithms};
use rustls::pki_types::{
    alg_id, CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer, ServerName, SignatureVerificationAlgorithm, UnixTime,
};
use rustls::sign::SigningKey;
use rustls::*;
use rustls_ossl::cipher::AeadAlgorithm;
use rustls_ossl::{hash::OsslHash, kdf::OsslHkdf, kdf::OsslPrf, verify::OsslSigVerAlgorithm};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex, OnceLock};

type Res = Result<Vec<u8>, i64>;
const NO: i64 = -1;
const BAD: i64 = -3;

static H256: OsslHash = OsslHash(ossl::digest::DigestAlg::Sha2_256);
static H384: OsslHash = OsslHash(ossl::digest::DigestAlg::Sha2_384);
static HKDF256: OsslHkdf = OsslHkdf(&H256);
static HKDF384: OsslHkdf = OsslHkdf(&H384);
static PRF256: OsslPrf = OsslPrf(&H256);
static PRF384: OsslPrf = OsslPrf(&H384);

fn prov() -> &'static CryptoProvider {
    static P: OnceLock<CryptoProvider> = OnceLock::new();
    P.get_or_init(rustls_ossl::default_provider)
}
/// the suites as the provider hands them out
fn suite13(i: u8) -> Option<&'static Tls13CipherSuite> {
    let n = match i {
        0 => CipherSuite::TLS13_AES_128_GCM_SHA256,
        1 => CipherSuite::TLS13_AES_256_GCM_SHA384,
        _ => CipherSuite::TLS13_CHACHA20_POLY1305_SHA256,
    };
    prov().cipher_suites.iter().find(|s| s.suite() == n).and_then(|s| s.tls13())
}
fn hkdf(i: u8) -> &'static dyn Hkdf {
    match suite13(if i == 0 { 0 } else { 1 }) {
        Some(s) => s.hkdf_provider,
        None if i == 0 => &HKDF256,
        None => &HKDF384,
    }
}
fn hashp(i: u8) -> &'static dyn rustls::crypto::hash::Hash {
    match suite13(if i == 0 { 0 } else { 1 }) {
        Some(s) => s.common.hash_provider,
        None if i == 0 => &H256,
        None => &H384,
    }
}
fn aead(i: u8) -> AeadAlgorithm {
    use ossl::cipher::{AesSize, EncAlg};
    match i {
        0 => AeadAlgorithm { alg: EncAlg::AesGcm(AesSize::Aes128), key_size: 16 },
        1 => AeadAlgorithm { alg: EncAlg::AesGcm(AesSize::Aes256), key_size: 32 },
        _ => AeadAlgorithm { alg: EncAlg::ChaCha20Poly1305, key_size: 32 },
    }
}
static A12: [OnceLock<AeadAlgorithm>; 3] = [const { OnceLock::new() }; 3];
/// a TLS 1.2 suite of the provider with this cipher; its parts when OpenSSL 3.0 hides the suite
fn suite12(i: u8) -> (&'static dyn Tls12AeadAlgorithm, &'static dyn Prf) {
    let n = match i {
        0 => [CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256],
        1 => [CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384],
        _ => [
            CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
            CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
        ],
    };
    for s in &prov().cipher_suites {
        if let SupportedCipherSuite::Tls12(t) = s {
            if n.contains(&t.common.suite) {
                return (t.aead_alg, t.prf_provider);
            }
        }
    }
    (A12[i as usize].get_or_init(|| aead(i)), if i == 1 { &PRF384 } else { &PRF256 })
}

enum Obj {
    Kx(Box<dyn ActiveKeyExchange>),
    Key(Arc<dyn SigningKey>),
    Enc(Box<dyn MessageEncrypter>),
    Dec(Box<dyn MessageDecrypter>),
    Client(Box<ClientConnection>),
    Server(Box<ServerConnection>),
}
static OBJ: Mutex<Option<HashMap<u64, Obj>>> = Mutex::new(None);
fn put(o: Obj) -> Vec<u8> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    OBJ.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_default().insert(n, o);
    n.to_be_bytes().to_vec()
}
fn take(a: &[u8]) -> Result<Obj, i64> {
    let n = u64::from_be_bytes(a.try_into().map_err(|_| BAD)?);
    OBJ.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_default().remove(&n).ok_or(BAD)
}
fn back(a: &[u8], o: Obj) {
    let n = u64::from_be_bytes(a.try_into().unwrap());
    OBJ.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_default().insert(n, o);
}
fn u64a(a: &[u8]) -> u64 {
    let mut b = [0u8; 8];
    b[8 - a.len().min(8)..].copy_from_slice(&a[..a.len().min(8)]);
    u64::from_be_bytes(b)
}

const GROUPS: [NamedGroup; 4] = [NamedGroup::X25519, NamedGroup::secp256r1, NamedGroup::secp384r1, NamedGroup::secp521r1];
fn group(i: u8) -> Result<&'static dyn rustls::crypto::SupportedKxGroup, i64> {
    let n = *GROUPS.get(i as usize).ok_or(BAD)?;
    prov().kx_groups.iter().copied().find(|g| g.name() == n).ok_or(NO)
}

// ---- signature verification: the provider's entry when it has it, else the same item built by hand ----
const fn ver(public_key: rustls::pki_types::AlgorithmIdentifier, signature: rustls::pki_types::AlgorithmIdentifier, sig_alg: ossl::signature::SigAlg) -> OsslSigVerAlgorithm {
    OsslSigVerAlgorithm { public_key, signature, sig_alg }
}
use ossl::signature::SigAlg as S;
static VER: [OsslSigVerAlgorithm; 16] = [
    ver(alg_id::RSA_ENCRYPTION, alg_id::RSA_PKCS1_SHA256, S::RsaSha2_256),
    ver(alg_id::RSA_ENCRYPTION, alg_id::RSA_PKCS1_SHA384, S::RsaSha2_384),
    ver(alg_id::RSA_ENCRYPTION, alg_id::RSA_PKCS1_SHA512, S::RsaSha2_512),
    ver(alg_id::RSA_ENCRYPTION, alg_id::RSA_PSS_SHA256, S::RsaPssSha2_256),
    ver(alg_id::RSA_ENCRYPTION, alg_id::RSA_PSS_SHA384, S::RsaPssSha2_384),
    ver(alg_id::RSA_ENCRYPTION, alg_id::RSA_PSS_SHA512, S::RsaPssSha2_512),
    ver(alg_id::ECDSA_P256, alg_id::ECDSA_SHA256, S::EcdsaSha2_256),
    ver(alg_id::ECDSA_P384, alg_id::ECDSA_SHA256, S::EcdsaSha2_256),
    ver(alg_id::ECDSA_P521, alg_id::ECDSA_SHA256, S::EcdsaSha2_256),
    ver(alg_id::ECDSA_P384, alg_id::ECDSA_SHA384, S::EcdsaSha2_384),
    ver(alg_id::ECDSA_P256, alg_id::ECDSA_SHA384, S::EcdsaSha2_384),
    ver(alg_id::ECDSA_P521, alg_id::ECDSA_SHA384, S::EcdsaSha2_384),
    ver(alg_id::ECDSA_P521, alg_id::ECDSA_SHA512, S::EcdsaSha2_512),
    ver(alg_id::ECDSA_P256, alg_id::ECDSA_SHA512, S::EcdsaSha2_512),
    ver(alg_id::ECDSA_P384, alg_id::ECDSA_SHA512, S::EcdsaSha2_512),
    ver(alg_id::ED25519, alg_id::ED25519, S::Ed25519),
];
fn verifier(i: usize) -> Result<&'static dyn SignatureVerificationAlgorithm, i64> {
    let v = VER.get(i).ok_or(BAD)?;
    for a in prov().signature_verification_algorithms.all {
        if a.public_key_alg_id() == v.public_key && a.signature_alg_id() == v.signature {
            return Ok(*a);
        }
    }
    Ok(v)
}
type Sva = &'static dyn SignatureVerificationAlgorithm;
/// what the provider would offer were OpenSSL 3.0 to list its signature algorithms
fn all_algs() -> WebPkiSupportedAlgorithms {
    static A: OnceLock<Vec<Sva>> = OnceLock::new();
    static M: OnceLock<Vec<(SignatureScheme, &'static [Sva])>> = OnceLock::new();
    let a = A.get_or_init(|| (0..VER.len()).map(|i| verifier(i).unwrap()).collect());
    let one = |i: usize| -> &'static [Sva] { &a[i..i + 1] };
    let m = M.get_or_init(|| {
        vec![
            (SignatureScheme::ECDSA_NISTP256_SHA256, &a[6..9]),
            (SignatureScheme::ECDSA_NISTP384_SHA384, &a[9..12]),
            (SignatureScheme::ECDSA_NISTP521_SHA512, &a[12..15]),
            (SignatureScheme::ED25519, one(15)),
            (SignatureScheme::RSA_PSS_SHA256, one(3)),
            (SignatureScheme::RSA_PSS_SHA384, one(4)),
            (SignatureScheme::RSA_PSS_SHA512, one(5)),
            (SignatureScheme::RSA_PKCS1_SHA256, one(0)),
            (SignatureScheme::RSA_PKCS1_SHA384, one(1)),
            (SignatureScheme::RSA_PKCS1_SHA512, one(2)),
        ]
    });
    WebPkiSupportedAlgorithms { all: a, mapping: m }
}
fn suites12() -> Vec<SupportedCipherSuite> {
    static T: OnceLock<Vec<Tls12CipherSuite>> = OnceLock::new();
    const RSA: &[SignatureScheme] = &[
        SignatureScheme::RSA_PSS_SHA512,
        SignatureScheme::RSA_PSS_SHA384,
        SignatureScheme::RSA_PSS_SHA256,
        SignatureScheme::RSA_PKCS1_SHA512,
        SignatureScheme::RSA_PKCS1_SHA384,
        SignatureScheme::RSA_PKCS1_SHA256,
    ];
    const ECC: &[SignatureScheme] = &[
        SignatureScheme::ED25519,
        SignatureScheme::ECDSA_NISTP521_SHA512,
        SignatureScheme::ECDSA_NISTP384_SHA384,
        SignatureScheme::ECDSA_NISTP256_SHA256,
    ];
    T.get_or_init(|| {
        let mk = |suite, i: u8, sign| Tls12CipherSuite {
            common: CipherSuiteCommon { suite, hash_provider: hashp((i == 1) as u8), confidentiality_limit: 1 << 23 },
            kx: KeyExchangeAlgorithm::ECDHE,
            sign,
            aead_alg: suite12(i).0,
            prf_provider: suite12(i).1,
        };
        vec![
            mk(CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, 0, RSA),
            mk(CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, 1, RSA),
            mk(CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, 2, RSA),
            mk(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, 0, ECC),
            mk(CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, 1, ECC),
            mk(CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, 2, ECC),
        ]
    })
    .iter()
    .map(SupportedCipherSuite::Tls12)
    .collect()
}

#[derive(Debug)]
struct Pinned(Vec<u8>, WebPkiSupportedAlgorithms);
impl client::danger::ServerCertVerifier for Pinned {
    fn verify_server_cert(
        &self,
        e: &CertificateDer<'_>,
        _: &[CertificateDer<'_>],
        _: &ServerName<'_>,
        _: &[u8],
        _: UnixTime,
    ) -> Result<client::danger::ServerCertVerified, Error> {
        if e.as_ref() != self.0 {
            return Err(Error::InvalidCertificate(CertificateError::UnknownIssuer));
        }
        Ok(client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<client::danger::HandshakeSignatureValid, Error> {
        rustls::crypto::verify_tls12_signature(m, c, d, &self.1)
    }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<client::danger::HandshakeSignatureValid, Error> {
        rustls::crypto::verify_tls13_signature(m, c, d, &self.1)
    }
    fn supported_verify_schemes(&self) -> Vec<SignatureScheme> {
        self.1.supported_schemes()
    }
}

/// provider for a connection: `plain` = as default_provider() gives it
fn conn_prov(plain: bool, suite: u8, kx: u8) -> Result<CryptoProvider, i64> {
    let mut p = rustls_ossl::default_provider();
    if !plain {
        p.signature_verification_algorithms = all_algs();
        p.cipher_suites.retain(|s| s.tls13().is_some());
        p.cipher_suites.extend(suites12());
    }
    if suite != 255 {
        p.cipher_suites.retain(|s| {
            let n = format!("{:?}", s.suite());
            n.contains(["AES_128_GCM", "AES_256_GCM", "CHACHA20"][suite as usize])
        });
    }
    if kx != 255 {
        let n = GROUPS[kx as usize];
        p.kx_groups.retain(|g| g.name() == n);
    }
    if p.cipher_suites.is_empty() || p.kx_groups.is_empty() {
        return Err(NO);
    }
    Ok(p)
}
fn err(e: impl std::fmt::Debug) -> i64 {
    if std::env::var("KV_V").is_ok() {
        eprintln!("kvtls: {:?}", e);
    }
    NO
}

fn call(name: &str, a: &[&[u8]]) -> Res {
    let b = |i: usize| -> u8 { a.get(i).and_then(|x| x.first()).copied().unwrap_or(0) };
    match name {
        // suite, encrypt?, key, nonce, aad, data
        "aead" => {
            let alg = aead(b(0));
            let n: &[u8; 12] = a[3].try_into().map_err(|_| BAD)?;
            let mut d = a[5].to_vec();
            if b(1) == 1 {
                let t = alg.encrypt_data(a[2], n, a[4], &mut d).map_err(err)?;
                d.extend_from_slice(&t);
            } else {
                let l = alg.decrypt_data(a[2], n, a[4], &mut d).map_err(err)?;
                d.truncate(l);
            }
            Ok(d)
        }
        // suite, version 12|13, encrypt?, traffic secret, fixed iv (1.2), explicit nonce (1.2)
        "rec" => {
            let s = b(0);
            let hk = hkdf((s == 1) as u8);
            let ex = hk.expander_for_okm(&OkmBlock::new(a[3]));
            let k13: &dyn Tls13AeadAlgorithm = suite13(s).ok_or(NO)?.aead_alg;
            let key = rustls::internal::derive_traffic_key(&*ex, k13);
            let o = match (b(1), b(2)) {
                (13, 1) => Obj::Enc(k13.encrypter(key, rustls::internal::derive_traffic_iv(&*ex))),
                (13, _) => Obj::Dec(k13.decrypter(key, rustls::internal::derive_traffic_iv(&*ex))),
                (_, 1) => Obj::Enc(suite12(s).0.encrypter(key, a[4], a[5])),
                _ => Obj::Dec(suite12(s).0.decrypter(key, a[4])),
            };
            Ok(put(o))
        }
        // id, seq, type, chunks...
        "rec_enc" => {
            let Obj::Enc(mut e) = take(a[0])? else { return Err(BAD) };
            let chunks: Vec<&[u8]> = a[3..].to_vec();
            let m = OutboundPlainMessage {
                typ: ContentType::from(b(2)),
                version: ProtocolVersion::TLSv1_2,
                payload: OutboundChunks::new(&chunks),
            };
            let want = e.encrypted_payload_len(m.payload.len());
            let r = e.encrypt(m, u64a(a[1]));
            back(a[0], Obj::Enc(e));
            let o = r.map_err(err)?;
            let v = o.payload.as_ref().to_vec();
            if v.len() != want {
                return Err(-4);
            }
            let mut out = vec![u8::from(o.typ)];
            out.extend(v);
            Ok(out)
        }
        // id, seq, outer type, payload -> inner type, plaintext
        "rec_dec" => {
            let Obj::Dec(mut e) = take(a[0])? else { return Err(BAD) };
            let mut p = a[3].to_vec();
            let m = InboundOpaqueMessage::new(ContentType::from(b(2)), ProtocolVersion::TLSv1_2, &mut p);
            let r = e.decrypt(m, u64a(a[1])).map(|m| {
                let mut o = vec![u8::from(m.typ)];
                o.extend_from_slice(m.payload);
                o
            });
            back(a[0], Obj::Dec(e));
            r.map_err(err)
        }
        // alg, parts... : finish, and on the way fork and fork_finish after every part
        "hash" => {
            let h = hashp(b(0));
            let mut c = h.start();
            let mut o = vec![];
            for p in &a[1..] {
                c.update(p);
                o.extend_from_slice(c.fork_finish().as_ref());
                let f = c.fork();
                o.extend_from_slice(f.finish().as_ref());
            }
            o.extend_from_slice(c.finish().as_ref());
            o.extend_from_slice(h.hash(&a[1..].concat()).as_ref());
            Ok(o)
        }
        // alg, key, first, last, middle...
        "hmac" => {
            let h: &dyn rustls::crypto::hmac::Hmac =
                if b(0) == 0 { &rustls_ossl::hmac::HMAC_SHA256 } else { &rustls_ossl::hmac::HMAC_SHA384 };
            let k = h.with_key(a[1]);
            let t = k.sign_concat(a[2], &a[4..], a[3]);
            if t.as_ref().len() != k.tag_len() || k.tag_len() != h.hash_output_len() {
                return Err(-4);
            }
            let mut o = t.as_ref().to_vec();
            // a key serves more than once
            o.extend_from_slice(k.sign_concat(a[2], &a[4..], a[3]).as_ref());
            Ok(o)
        }
        // alg, how (0 zero ikm, 1 secret, 2 okm), salt?, salt, secret, outlen, infos...
        "hkdf" => {
            let h = hkdf(b(0));
            let salt = if b(2) == 1 { Some(a[3]) } else { None };
            let e: Box<dyn HkdfExpander> = match b(1) {
                0 => h.extract_from_zero_ikm(salt),
                1 => h.extract_from_secret(salt, a[4]),
                _ => h.expander_for_okm(&OkmBlock::new(a[4])),
            };
            let n = u64a(a[5]) as usize;
            let mut o = vec![0u8; n];
            e.expand_slice(&a[6..], &mut o).map_err(err)?;
            o.extend_from_slice(e.expand_block(&a[6..]).as_ref());
            Ok(o)
        }
        "hkdf_sign" => Ok(hkdf(b(0)).hmac_sign(&OkmBlock::new(a[1]), a[2]).as_ref().to_vec()),
        // suite, secret, label, seed, outlen
        "prf" => {
            let mut o = vec![0u8; u64a(a[4]) as usize];
            suite12(b(0)).1.for_secret(&mut o, a[1], a[2], a[3]);
            Ok(o)
        }
        // suite, kx id, peer, label, seed
        "prf_kx" => {
            let Obj::Kx(k) = take(a[1])? else { return Err(BAD) };
            let mut o = [0u8; 48];
            suite12(b(0)).1.for_key_exchange(&mut o, k, a[2], a[3], a[4]).map_err(err)?;
            Ok(o.to_vec())
        }
        "kx" => {
            let k = group(b(0))?.start().map_err(err)?;
            let p = k.pub_key().to_vec();
            if k.group() != GROUPS[b(0) as usize] {
                return Err(-4);
            }
            let mut o = put(Obj::Kx(k));
            o.extend(p);
            Ok(o)
        }
        "kx_done" => {
            let Obj::Kx(k) = take(a[0])? else { return Err(BAD) };
            Ok(k.complete(a[1]).map_err(err)?.secret_bytes().to_vec())
        }
        "key" => {
            let k = prov().key_provider.load_private_key(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(a[0].to_vec()))).map_err(err)?;
            Ok(put(Obj::Key(k)))
        }
        // id, offered schemes (2 bytes each), message -> scheme, signature
        "sign" => {
            let Obj::Key(k) = take(a[0])? else { return Err(BAD) };
            let off: Vec<SignatureScheme> = a[1].chunks(2).map(|c| SignatureScheme::from(u16::from_be_bytes([c[0], c[1]]))).collect();
            let s = k.choose_scheme(&off);
            back(a[0], Obj::Key(k));
            let s = s.ok_or(-5)?;
            let mut o = u16::from(s.scheme()).to_be_bytes().to_vec();
            o.extend(s.sign(a[2]).map_err(err)?);
            Ok(o)
        }
        "key_info" => {
            let Obj::Key(k) = take(a[0])? else { return Err(BAD) };
            let mut o = vec![u8::from(k.algorithm())];
            if let Some(s) = k.public_key() {
                o.extend_from_slice(s.as_ref());
            }
            back(a[0], Obj::Key(k));
            Ok(o)
        }
        // verifier, public key, message, signature
        "verify" => {
            verifier(b(0) as usize)?.verify_signature(a[1], a[2], a[3]).map_err(err)?;
            Ok(vec![])
        }
        "rand" => {
            let mut o = vec![0u8; u64a(a[0]) as usize];
            prov().secure_random.fill(&mut o).map_err(err)?;
            Ok(o)
        }
        "describe" => {
            let p = prov();
            let mut s = String::new();
            for c in &p.cipher_suites {
                s += &format!("suite {:?}\n", c.suite());
            }
            for g in &p.kx_groups {
                s += &format!("group {:?}\n", g.name());
            }
            for a in p.signature_verification_algorithms.supported_schemes() {
                s += &format!("scheme {:?}\n", a);
            }
            Ok(s.into_bytes())
        }
        "drop" => {
            take(a[0])?;
            Ok(vec![])
        }
        // version, plain?, suite, group, certificate
        "client" => {
            let p = conn_prov(b(1) == 1, b(2), b(3))?;
            let algs = p.signature_verification_algorithms;
            let v: &'static SupportedProtocolVersion = if b(0) == 12 { &version::TLS12 } else { &version::TLS13 };
            let mut c = ClientConfig::builder_with_provider(Arc::new(p))
                .with_protocol_versions(&[v])
                .map_err(err)?
                .dangerous()
                .with_custom_certificate_verifier(Arc::new(Pinned(a[4].to_vec(), algs)))
                .with_no_client_auth();
            c.resumption = client::Resumption::disabled();
            let n: ServerName = "localhost".try_into().unwrap();
            Ok(put(Obj::Client(Box::new(ClientConnection::new(Arc::new(c), n).map_err(err)?))))
        }
        // version, plain?, suite, group, certificate, key
        "server" => {
            let p = conn_prov(b(1) == 1, b(2), b(3))?;
            let v: &'static SupportedProtocolVersion = if b(0) == 12 { &version::TLS12 } else { &version::TLS13 };
            let c = ServerConfig::builder_with_provider(Arc::new(p))
                .with_protocol_versions(&[v])
                .map_err(err)?
                .with_no_client_auth()
                .with_single_cert(
                    vec![CertificateDer::from(a[4].to_vec())],
                    PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(a[5].to_vec())),
                )
                .map_err(err)?;
            Ok(put(Obj::Server(Box::new(ServerConnection::new(Arc::new(c)).map_err(err)?))))
        }
        // id, bytes from the wire, application data to send -> flags, length, wire bytes, received data
        "io" => {
            let mut o = take(a[0])?;
            let r = match &mut o {
                Obj::Client(c) => io(c, a[1], a[2], b(3)),
                Obj::Server(c) => io(c, a[1], a[2], b(3)),
                _ => Err(BAD),
            };
            back(a[0], o);
            r
        }
        _ => Err(BAD),
    }
}

fn io<D>(c: &mut ConnectionCommon<D>, mut wire: &[u8], app: &[u8], upd: u8) -> Res {
    let mut failed = false;
    let mut got = vec![];
    loop {
        while !wire.is_empty() && !failed {
            match c.read_tls(&mut wire) {
                Ok(0) => break,
                Ok(_) => {}
                Err(_) => break,
            }
            match c.process_new_packets() {
                Ok(_) => {
                    let mut b = [0u8; 8192];
                    while let Ok(n) = c.reader().read(&mut b) {
                        if n == 0 {
                            break;
                        }
                        got.extend_from_slice(&b[..n]);
                    }
                }
                Err(e) => {
                    err(e);
                    failed = true;
                }
            }
        }
        break;
    }
    if !failed && !app.is_empty() {
        c.set_buffer_limit(None);
        c.writer().write_all(app).map_err(err)?;
    }
    if !failed && upd == 1 {
        let _ = c.refresh_traffic_keys();
    }
    let mut out = vec![];
    while c.wants_write() {
        if c.write_tls(&mut out).is_err() {
            break;
        }
    }
    let mut r = vec![failed as u8, c.is_handshaking() as u8];
    r.extend((out.len() as u64).to_be_bytes());
    r.extend(out);
    r.extend(got);
    Ok(r)
}

#[repr(C)]
pub struct Arg {
    p: *const u8,
    n: usize,
}
/// # Safety
/// pointers as described above
#[unsafe(no_mangle)]
pub unsafe extern "C" fn kvt(name: *const u8, nl: usize, args: *const Arg, na: usize, out: *mut u8, cap: usize) -> i64 {
    let name = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(name, nl)) };
    let v: Vec<&[u8]> = (0..na)
        .map(|i| unsafe {
            let a = &*args.add(i);
            if a.n == 0 { &[][..] } else { std::slice::from_raw_parts(a.p, a.n) }
        })
        .collect();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(name, &v))) {
        Ok(Ok(o)) => {
            if o.len() > cap {
                return BAD;
            }
            unsafe { std::ptr::copy_nonoverlapping(o.as_ptr(), out, o.len()) };
            o.len() as i64
        }
        Ok(Err(e)) => e,
        Err(_) => -2,
    }
}
