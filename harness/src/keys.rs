//! Keys of every supported type whose signatures the harness makes itself (with
//! the underlying crypto crates, not through the code under test), plus a mock
//! key type whose every verification is logged.
use crate::exec::maybe_yield;
use crate::rng::R;
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use ucan::crypto::did::{DidParser, KeyConstructorSlice, ED25519_MAGIC_BYTES, P256_MAGIC_BYTES, RSA_MAGIC_BYTES};
use ucan::crypto::KeyMaterial;
use ucan_key_support::{ed25519, p256 as cut_p256, rsa as cut_rsa};

pub const MOCK_MAGIC: &[u8] = &[0xaa, 0x05];

/// Everything the shipped key support offers, and the logging mock.
pub const ALL_KEYS: &KeyConstructorSlice = &[
    (ED25519_MAGIC_BYTES, ed25519::bytes_to_ed25519_key),
    (P256_MAGIC_BYTES, cut_p256::bytes_to_p256_key),
    (RSA_MAGIC_BYTES, cut_rsa::bytes_to_rsa_key),
    (MOCK_MAGIC, bytes_to_mock),
];
/// The same, with every verification logged (and failed when the case says so).
pub const LOGGED_KEYS: &KeyConstructorSlice = &[
    (ED25519_MAGIC_BYTES, logged_ed),
    (P256_MAGIC_BYTES, logged_p256),
    (RSA_MAGIC_BYTES, logged_rsa),
    (MOCK_MAGIC, bytes_to_mock),
];
pub const REAL_KEYS: &KeyConstructorSlice = &[
    (ED25519_MAGIC_BYTES, ed25519::bytes_to_ed25519_key),
    (P256_MAGIC_BYTES, cut_p256::bytes_to_p256_key),
    (RSA_MAGIC_BYTES, cut_rsa::bytes_to_rsa_key),
];

pub fn parser() -> DidParser {
    DidParser::new(ALL_KEYS)
}

// ---- mock key -------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Construct { did: String },
    Verify { did: String, payload: Vec<u8>, sig: Vec<u8>, ok: bool },
    Read { cid: String, found: bool },
}

thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
}
pub static MOCK_VERIFIES: AtomicU64 = AtomicU64::new(0);

pub fn log_start() {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
}
pub fn log_take() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
pub fn log(e: Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(e)
        }
    })
}

#[derive(Clone)]
pub struct Mock(pub Vec<u8>);

pub fn bytes_to_mock(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    if bytes.is_empty() {
        return Err(anyhow!("empty mock key"));
    }
    let m = Mock(bytes);
    log(Event::Construct { did: m.did() });
    Ok(Box::new(m))
}

impl Mock {
    pub fn did(&self) -> String {
        did_of(MOCK_MAGIC, &self.0)
    }
    pub fn sig(&self, payload: &[u8]) -> Vec<u8> {
        let mut h = Sha256::new();
        h.update(b"mock signature");
        h.update((self.0.len() as u64).to_be_bytes());
        h.update(&self.0);
        h.update(payload);
        h.finalize().to_vec()
    }
}

#[async_trait]
impl KeyMaterial for Mock {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> Result<String> {
        maybe_yield().await;
        Ok(self.did())
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        maybe_yield().await;
        Ok(self.sig(payload))
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        maybe_yield().await;
        let ok = !verification_fails_now() && self.sig(payload) == signature;
        MOCK_VERIFIES.fetch_add(1, Ordering::Relaxed);
        log(Event::Verify { did: self.did(), payload: payload.to_vec(), sig: signature.to_vec(), ok });
        maybe_yield().await;
        if ok {
            Ok(())
        } else {
            Err(anyhow!("mock signature does not verify"))
        }
    }
}

pub fn did_of(magic: &[u8], bytes: &[u8]) -> String {
    format!("did:key:z{}", bs58::encode([magic, bytes].concat()).into_string())
}

// ---- logging wrapper --------------------------------------------------------

pub struct Logged(Box<dyn KeyMaterial>);

thread_local! {
    static VERIFY_COUNT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static VERIFY_FAIL_AT: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
/// From now on, let the n-th (0-based) logged verification of this thread fail.
pub fn fail_verification(n: Option<u64>) {
    VERIFY_COUNT.with(|c| c.set(0));
    VERIFY_FAIL_AT.with(|c| c.set(n.unwrap_or(u64::MAX)));
}

fn verification_fails_now() -> bool {
    let n = VERIFY_COUNT.with(|c| c.replace(c.get() + 1));
    VERIFY_FAIL_AT.with(|c| c.get()) == n
}

fn logged_ed(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(Logged(ed25519::bytes_to_ed25519_key(b)?)))
}
fn logged_p256(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(Logged(cut_p256::bytes_to_p256_key(b)?)))
}
fn logged_rsa(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(Logged(cut_rsa::bytes_to_rsa_key(b)?)))
}

#[async_trait]
impl KeyMaterial for Logged {
    fn get_jwt_algorithm_name(&self) -> String {
        self.0.get_jwt_algorithm_name()
    }
    async fn get_did(&self) -> Result<String> {
        self.0.get_did().await
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        self.0.sign(payload).await
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        maybe_yield().await;
        let fail = verification_fails_now();
        let res = self.0.verify(payload, signature).await;
        let res = if fail { Err(anyhow!("injected verification failure")) } else { res };
        log(Event::Verify {
            did: self.0.get_did().await?,
            payload: payload.to_vec(),
            sig: signature.to_vec(),
            ok: res.is_ok(),
        });
        maybe_yield().await;
        res
    }
}

// ---- keys the harness signs with ------------------------------------------

#[derive(Clone)]
pub enum K {
    Ed(ed25519_zebra::SigningKey),
    P(p256::ecdsa::SigningKey),
    Rsa(usize, Box<rsa::RsaPrivateKey>),
    Mock(Mock),
}

impl K {
    pub fn alg(&self) -> &'static str {
        match self {
            K::Ed(_) | K::Mock(_) => "EdDSA",
            K::P(_) => "ES256",
            K::Rsa(..) => "RS256",
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            K::Ed(_) => "ed25519",
            K::Mock(_) => "mock",
            K::P(_) => "p256",
            K::Rsa(..) => "rsa",
        }
    }
    pub fn public_bytes(&self) -> Vec<u8> {
        match self {
            K::Ed(k) => {
                let pk = ed25519_zebra::VerificationKey::from(k);
                pk.as_ref().to_vec()
            }
            K::P(k) => k.verifying_key().to_encoded_point(true).as_bytes().to_vec(),
            K::Rsa(_, k) => {
                use rsa::pkcs1::EncodeRsaPublicKey;
                rsa::RsaPublicKey::from(k.as_ref()).to_pkcs1_der().unwrap().as_bytes().to_vec()
            }
            K::Mock(m) => m.0.clone(),
        }
    }
    pub fn magic(&self) -> &'static [u8] {
        match self {
            K::Ed(_) => &[0xed, 0x01],
            K::P(_) => &[0x80, 0x24],
            K::Rsa(..) => &[0x85, 0x24],
            K::Mock(_) => MOCK_MAGIC,
        }
    }
    pub fn did(&self) -> String {
        did_of(self.magic(), &self.public_bytes())
    }
    pub fn sign(&self, m: &[u8]) -> Vec<u8> {
        match self {
            K::Ed(k) => <[u8; 64]>::from(k.sign(m)).to_vec(),
            K::P(k) => {
                use p256::ecdsa::signature::Signer;
                let s: p256::ecdsa::Signature = k.sign(m);
                s.to_bytes().to_vec()
            }
            K::Rsa(_, k) => k
                .sign(rsa::Pkcs1v15Sign::new::<Sha256>(), Sha256::digest(m).as_ref())
                .expect("rsa signing"),
            K::Mock(k) => k.sig(m),
        }
    }
    /// The same key as the code under test represents it.
    pub fn cut(&self) -> Box<dyn KeyMaterial> {
        match self {
            K::Ed(k) => Box::new(ed25519::Ed25519KeyMaterial(k.into(), Some(*k))),
            K::P(k) => Box::new(cut_p256::P256KeyMaterial(*k.verifying_key(), Some(k.clone()))),
            K::Rsa(_, k) => Box::new(cut_rsa::RsaKeyMaterial(k.as_ref().into(), Some(k.as_ref().clone()))),
            K::Mock(m) => Box::new(m.clone()),
        }
    }
    pub fn cut_public(&self) -> Box<dyn KeyMaterial> {
        match self {
            K::Ed(k) => Box::new(ed25519::Ed25519KeyMaterial(k.into(), None)),
            K::P(k) => Box::new(cut_p256::P256KeyMaterial(*k.verifying_key(), None)),
            K::Rsa(_, k) => Box::new(cut_rsa::RsaKeyMaterial(k.as_ref().into(), None)),
            K::Mock(m) => Box::new(m.clone()),
        }
    }
}

pub fn ed(i: u64) -> K {
    let mut h = Sha256::new();
    h.update(b"ed25519 pool");
    h.update(i.to_be_bytes());
    let seed: [u8; 32] = h.finalize().into();
    K::Ed(ed25519_zebra::SigningKey::from(seed))
}
pub fn p256_key(i: u64) -> K {
    let mut n = 0u64;
    loop {
        let mut h = Sha256::new();
        h.update(b"p256 pool");
        h.update(i.to_be_bytes());
        h.update(n.to_be_bytes());
        let seed: [u8; 32] = h.finalize().into();
        if let Ok(k) = p256::ecdsa::SigningKey::from_bytes((&seed).into()) {
            return K::P(k);
        }
        n += 1;
    }
}
pub fn mock(i: u64) -> K {
    let mut h = Sha256::new();
    h.update(b"mock pool");
    h.update(i.to_be_bytes());
    K::Mock(Mock(h.finalize()[..20].to_vec()))
}

const RSA_DER: &[&[u8]] = &[
    include_bytes!("../fixtures/rsa1.pk8"),
    include_bytes!("../fixtures/rsa2.pk8"),
    include_bytes!("../fixtures/rsa3.pk8"),
    include_bytes!("../fixtures/rsa4.pk8"),
    include_bytes!("../fixtures/rsa5.pk8"),
];

pub fn rsa_keys() -> &'static Vec<K> {
    static P: OnceLock<Vec<K>> = OnceLock::new();
    P.get_or_init(|| {
        RSA_DER
            .iter()
            .enumerate()
            .map(|(i, d)| {
                use rsa::pkcs1::DecodeRsaPrivateKey;
                use rsa::pkcs8::DecodePrivateKey;
                let k = rsa::RsaPrivateKey::from_pkcs8_der(d)
                    .or_else(|_| rsa::RsaPrivateKey::from_pkcs1_der(d))
                    .expect("rsa fixture");
                K::Rsa(i, Box::new(k))
            })
            .collect()
    })
}

/// Ed25519 and P-256 keys (cheap real keys).
pub fn cheap() -> &'static Vec<K> {
    static P: OnceLock<Vec<K>> = OnceLock::new();
    P.get_or_init(|| (0..10).map(ed).chain((0..6).map(p256_key)).collect())
}
pub fn mocks() -> &'static Vec<K> {
    static P: OnceLock<Vec<K>> = OnceLock::new();
    P.get_or_init(|| (0..24).map(mock).collect())
}

/// Any key; RSA signing is slow, so it comes up rarely.
pub fn any(r: &mut R) -> K {
    match r.below(20) {
        0 => r.pick(&rsa_keys()[..3]).clone(),
        1..=5 => p256_key(r.below(6) as u64),
        6..=12 => ed(r.below(10) as u64),
        _ => r.pick(mocks()).clone(),
    }
}
pub fn any_cheap(r: &mut R) -> K {
    match r.below(10) {
        0..=2 => p256_key(r.below(6) as u64),
        3..=6 => ed(r.below(10) as u64),
        _ => r.pick(mocks()).clone(),
    }
}
pub fn any_real(r: &mut R) -> K {
    match r.below(12) {
        0 => r.pick(&rsa_keys()[..3]).clone(),
        1..=4 => p256_key(r.below(6) as u64),
        _ => ed(r.below(10) as u64),
    }
}

/// Small RSA keys, for many signatures.
pub fn small_rsa() -> &'static Vec<K> {
    static P: OnceLock<Vec<K>> = OnceLock::new();
    P.get_or_init(|| {
        [&include_bytes!("../fixtures/rsa512.pk8")[..], include_bytes!("../fixtures/rsa768.pk8"), include_bytes!("../fixtures/rsa1000.pk8")]
            .iter()
            .enumerate()
            .map(|(i, d)| {
                use rsa::pkcs1::DecodeRsaPrivateKey;
                K::Rsa(100 + i, Box::new(rsa::RsaPrivateKey::from_pkcs1_der(d).expect("rsa fixture")))
            })
            .collect()
    })
}
