//! C19, C20: keys and their DIDs.
use crate::case::{Case, Res, V};
use crate::exec::block_on;
use crate::keys::{self, did_of, K};
use crate::rng::R;
use crate::{bail, ensure, Prop};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::io::Write;
use std::sync::{Arc, OnceLock};
use ucan::crypto::did::{BytesToKey, DidParser, DidPrefix, BLS12381G1_MAGIC_BYTES, BLS12381G2_MAGIC_BYTES, ED25519_MAGIC_BYTES, P256_MAGIC_BYTES, RSA_MAGIC_BYTES, SECP256K1_MAGIC_BYTES};
use ucan::crypto::KeyMaterial;

// ---------------------------------------------------------------- C19

pub const C19: Prop = Prop {
    id: "C19",
    quick: 3000,
    thorough: 60000,
    level: "exploration",
    rule: "a case is a sequence of up to 40 DIDs (valid for every key type, similar, case-flipped, truncated, extended, foreign, unsupported, malformed) given to one long-used parser and, each, to a fresh one, both judged by the harness's own reading of the DID through the crypto crates; one case in sixteen instead registers key types of its own under the prefixes the library names, given DIDs with the multicodec codes; one in a thousand gives one parser thousands of different DIDs; distinct_nontrivial counts distinct DID texts",
    assumptions: &["a P-256 key may also be named by its uncompressed point; only the compressed form is its own DID"],
    run: c19,
};

/// What this DID means to a parser supporting these types: the key's own DID.
fn meaning(did: &str, support: &[(DidPrefix, BytesToKey)]) -> Option<String> {
    let b = bs58::decode(did.strip_prefix("did:key:z")?).into_vec().ok()?;
    if b.len() < 2 || !support.iter().any(|s| s.0 == &b[..2]) {
        return None;
    }
    let key = &b[2..];
    match (b[0], b[1]) {
        (0xed, 0x01) => {
            let k = ed25519_zebra::VerificationKey::try_from(key).ok()?;
            Some(did_of(&b[..2], k.as_ref()))
        }
        (0x80, 0x24) => {
            let k = p256::ecdsa::VerifyingKey::try_from(key).ok()?;
            Some(did_of(&b[..2], k.to_encoded_point(true).as_bytes()))
        }
        (0x85, 0x24) => {
            use rsa::pkcs1::{DecodeRsaPublicKey, EncodeRsaPublicKey};
            let k = rsa::RsaPublicKey::from_pkcs1_der(key).ok()?;
            Some(did_of(&b[..2], k.to_pkcs1_der().ok()?.as_bytes()))
        }
        _ if !key.is_empty() => Some(did.to_string()),
        _ => None,
    }
}

fn pool(r: &mut R) -> K {
    match r.below(12) {
        0 => r.pick(keys::rsa_keys()).clone(),
        1..=4 => keys::p256_key(r.below(4) as u64),
        5..=8 => keys::ed(r.below(4) as u64),
        _ => keys::mock(r.below(3) as u64),
    }
}

fn crooked(r: &mut R, k: &K) -> String {
    let did = k.did();
    let body = did["did:key:z".len()..].to_string();
    let bytes = [k.magic(), &k.public_bytes()].concat();
    match r.below(20) {
        0 => crate::dag::flip_case(&did, r),
        1 => {
            let mut b = bytes.clone();
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            did_of(&b, &[])
        }
        2 => did_of(&bytes[..r.below(bytes.len())], &[]),
        3 => {
            let mut b = bytes.clone();
            let n = r.range(1, 3);
            b.extend(r.bytes(n));
            did_of(&b, &[])
        }
        4 => {
            // the same key bytes under another type
            let m: &[u8] = *r.pick(&[&[0xedu8, 1][..], &[0x80, 0x24], &[0x85, 0x24], keys::MOCK_MAGIC, SECP256K1_MAGIC_BYTES, BLS12381G1_MAGIC_BYTES, BLS12381G2_MAGIC_BYTES]);
            did_of(m, &k.public_bytes())
        }
        5 => format!("{did}{}", r.pick(&[" ", "\n", "1", "z", "#keys-1", "?a", "/p", "\0"])),
        6 => format!("{}{did}", r.pick(&[" ", "\n", "1", "\u{feff}"])),
        7 => format!("{}{body}", r.pick(&["did:key:", "did:key:Z", "did:key:m", "did:key:f", "DID:KEY:z", "did:Key:z", "did:key:zz", "did:keyz", "key:z", "", "did:web:", "did:key:z1"])),
        8 => {
            let mut s: Vec<char> = did.chars().collect();
            let i = r.range(9, s.len() - 1);
            s[i] = *r.pick(&['0', 'O', 'I', 'l', 'é', '-', '+']);
            s.into_iter().collect()
        }
        9 => "did:key:z".into(),
        10 => r.pick(&["", "did:", "did:key", "did:web:example.com", "did:plc:abc", "z", "did:key:z1", "did:key:z11", "did:key:z2", "did:key:z7Q9"]).to_string(),
        11 => did_of(k.magic(), &[]),
        12 => {
            let n = r.below(70);
            did_of(k.magic(), &r.bytes(n))
        }
        13 => {
            let n = r.below(40);
            did_of(&r.bytes(n), &[])
        }
        14 => {
            let mut s: Vec<char> = did.chars().collect();
            let i = r.range(9, s.len() - 1);
            let j = r.range(9, s.len() - 1);
            s.swap(i, j);
            s.into_iter().collect()
        }
        15 => did.to_lowercase(),
        16 => did.to_uppercase(),
        17 => did[..r.range(1, did.len() - 1)].to_string(),
        18 => format!("did:key:z{}", &body[1..]),
        _ => did_of(&[bytes[0]], &[]),
    }
}

/// One parser, thousands of different DIDs, and earlier ones again.
fn long_history(c: &mut Case) -> Res {
    let n = if c.thorough { c.r.range(20000, 70000) } else { *c.r.pick(&[1500usize, 5000, 12000]) };
    let base = c.r.u64() >> 1;
    let mut p = keys::parser();
    let mut dids: Vec<String> = Vec::with_capacity(n);
    c.note(format!("one parser and {n} DIDs"));
    for i in 0..n {
        let k = if i % 40 == 39 {
            keys::p256_key(base + i as u64)
        } else if i % 4 == 0 {
            keys::ed(base + i as u64)
        } else {
            keys::mock(base + i as u64)
        };
        let did = k.did();
        let x = p.parse(&did).map_err(|e| V(format!("after {i} DIDs the parser refuses {did}: {e:#}")))?;
        c.eval();
        c.ev("DIDs of a long history");
        ensure!(block_on(x.get_did()).ok().as_ref() == Some(&did), "after {i} DIDs the parser takes {did} for another");
        dids.push(did);
        if i % 3 == 0 {
            let old = dids[c.r.below(dids.len())].clone();
            let x = p.parse(&old).map_err(|e| V(format!("after {i} DIDs the parser refuses {old}, which it has parsed: {e:#}")))?;
            c.eval();
            ensure!(block_on(x.get_did()).ok().as_ref() == Some(&old), "after {i} DIDs the parser takes {old}, which it has parsed, for another");
        }
        if i % 50 == 7 {
            let bad = format!("{}0", dids[i]);
            ensure!(p.parse(&bad).is_err(), "after {i} DIDs the parser accepts {bad}");
            let sig = k.sign(b"m");
            let x = p.parse(&dids[i]).map_err(|e| V(format!("{e:#}")))?;
            ensure!(block_on(x.verify(b"m", &sig)).is_ok() && block_on(x.verify(b"n", &sig)).is_err(), "after {i} DIDs the key of {} does not tell its signatures", dids[i]);
        }
    }
    Ok(())
}

/// The key types the library names a prefix for, and their codes in the
/// multicodec table.
const CODES: [(DidPrefix, [u8; 2]); 6] = [
    (ED25519_MAGIC_BYTES, [0xed, 0x01]),
    (RSA_MAGIC_BYTES, [0x85, 0x24]),
    (BLS12381G1_MAGIC_BYTES, [0xea, 0x01]),
    (BLS12381G2_MAGIC_BYTES, [0xeb, 0x01]),
    (P256_MAGIC_BYTES, [0x80, 0x24]),
    (SECP256K1_MAGIC_BYTES, [0xe7, 0x01]),
];

/// A key type of the application's own: whatever bytes it is given.
struct Typed<const N: usize>(Vec<u8>);

thread_local!(static UNABLE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

fn typed<const N: usize>(b: Vec<u8>) -> anyhow::Result<Box<dyn KeyMaterial>> {
    if UNABLE.get() {
        return Err(anyhow::anyhow!("cannot build a key just now"));
    }
    Ok(Box::new(Typed::<N>(b)))
}

#[async_trait::async_trait]
impl<const N: usize> KeyMaterial for Typed<N> {
    fn get_jwt_algorithm_name(&self) -> String {
        format!("T{N}")
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Ok(did_of(&CODES[N].1, &self.0))
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        Err(anyhow::anyhow!("no private half"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> anyhow::Result<()> {
        Err(anyhow::anyhow!("no"))
    }
}

/// Key types supplied by the application, under the prefixes the library names.
fn own_types(c: &mut Case) -> Res {
    let makers: [BytesToKey; 6] = [typed::<0>, typed::<1>, typed::<2>, typed::<3>, typed::<4>, typed::<5>];
    let mut on: Vec<usize> = (0..6).collect();
    c.r.shuffle(&mut on);
    on.truncate(c.r.range(1, 6));
    let support: Vec<(DidPrefix, BytesToKey)> = on.iter().map(|i| (CODES[*i].0, makers[*i])).collect();
    let mut p = DidParser::new(&support);
    let pool: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let n = *c.r.pick(&[0usize, 1, 2, 31, 32, 33, 48, 65, 96, 140]);
            c.r.bytes(n)
        })
        .collect();
    for _ in 0..20 {
        let i = c.r.below(6);
        let did = did_of(&CODES[i].1, c.r.pick(&pool));
        let unable = c.r.pct(20);
        c.note(format!("{did:?} for type {i} of {on:?}{}", if unable { ", while no key can be built" } else { "" }));
        UNABLE.set(unable);
        let got = p.parse(&did);
        UNABLE.set(false);
        c.eval();
        c.ev("DIDs of the application's own types");
        match got {
            Ok(x) => {
                ensure!(on.contains(&i), "{did} is of an unsupported type, and parses");
                ensure!(x.get_jwt_algorithm_name() == format!("T{i}"), "{did} of type {i} is taken for one of type {}", x.get_jwt_algorithm_name());
                ensure!(block_on(x.get_did()).ok().as_ref() == Some(&did), "{did} is taken for another key of its type");
            }
            // one parsed before may be remembered, so only this way round
            Err(e) => ensure!(unable || !on.contains(&i), "{did} is of a supported type, and is refused: {e:#}"),
        }
        c.seen(&did);
    }
    Ok(())
}

fn c19(c: &mut Case) -> Res {
    if c.idx % 16 == 5 {
        return own_types(c);
    }
    if c.idx % 1000 == 3 {
        return long_history(c);
    }
    // which types are supported, in which order
    let mut support: Vec<(DidPrefix, BytesToKey)> = keys::ALL_KEYS.to_vec();
    c.r.shuffle(&mut support);
    if c.r.pct(30) {
        let n = c.r.below(4);
        support.truncate(n);
    }
    if c.r.pct(20) && !support.is_empty() {
        let x = support[0];
        support.push(x);
    }
    let mut old = DidParser::new(&support);
    let n = c.r.range(5, 40);
    let ks: Vec<K> = (0..4).map(|_| pool(&mut c.r)).collect();
    // keys and dids: one to one
    for (i, a) in ks.iter().enumerate() {
        let cut = a.cut();
        let did = block_on(cut.get_did()).map_err(|e| V(format!("{} key has no DID: {e}", a.kind())))?;
        c.eval();
        ensure!(did == a.did(), "{} key calls itself {did}, not {}", a.kind(), a.did());
        ensure!(block_on(a.cut_public().get_did()).ok().as_ref() == Some(&did), "the public half of {did} has another DID");
        let wrapped: Arc<Box<dyn KeyMaterial>> = Arc::new(a.cut());
        ensure!(block_on(KeyMaterial::get_did(&wrapped)).ok().as_ref() == Some(&did), "{did} changes in an Arc");
        for b in &ks[..i] {
            if a.public_bytes() != b.public_bytes() {
                let other = block_on(b.cut().get_did()).unwrap_or_default();
                ensure!(other != did, "two keys share {did}");
            }
        }
    }
    let mut held: Vec<(String, Arc<Box<dyn KeyMaterial>>)> = Vec::new();
    let probe = b"a message".to_vec();
    for step in 0..n {
        let k = c.r.pick(&ks).clone();
        let mut did = k.did();
        if c.r.pct(55) {
            did = crooked(&mut c.r, &k);
            if c.r.pct(15) {
                // twice, so that a remembered failure would show
                let _ = old.parse(&did);
            }
        }
        c.note(format!("parse {did:?}"));
        let want = meaning(&did, &support);
        let mut fresh = DidParser::new(&support);
        for (how, p) in [("a used parser", &mut old), ("a fresh parser", &mut fresh)] {
            c.eval();
            match (&want, p.parse(&did)) {
                (None, Err(_)) => c.ev("DIDs refused"),
                (None, Ok(x)) => bail!("step {step}: {did:?} names no supported key, and {how} takes it for {}", block_on(x.get_did()).unwrap_or_default()),
                (Some(_), Err(e)) => bail!("step {step}: {how} refuses {did:?}: {e:#}"),
                (Some(w), Ok(x)) => {
                    c.ev("DIDs parsed");
                    let got = block_on(x.get_did()).map_err(|e| V(format!("{how}: parsed key of {did} has no DID: {e}")))?;
                    ensure!(got == *w, "step {step}: {how} parses {did} to {got}");
                    if did == k.did() && (k.kind() != "rsa" || step % 4 == 0) {
                        let sig = k.sign(&probe);
                        ensure!(x.get_jwt_algorithm_name() == k.alg(), "{did} parsed by {how} is of algorithm {}", x.get_jwt_algorithm_name());
                        ensure!(block_on(x.verify(&probe, &sig)).is_ok(), "step {step}: {did} parsed by {how} refuses its own key's signature");
                        for other in &ks {
                            if other.did() != did && (other.kind() != "rsa" || step == 0) {
                                ensure!(
                                    block_on(x.verify(&probe, &other.sign(&probe))).is_err(),
                                    "step {step}: {did} parsed by {how} accepts a signature of {}",
                                    other.did()
                                );
                            }
                        }
                        // a key from a DID has no private half
                        ensure!(k.kind() == "mock" || block_on(x.sign(&probe)).is_err(), "the public key of {did} signs");
                    }
                    held.push((w.clone(), x));
                }
            }
        }
        c.seen(&did);
    }
    for (did, x) in &held {
        ensure!(block_on(x.get_did()).ok().as_ref() == Some(did), "a key handed out earlier has changed");
    }
    c.state("supported type sets", support.iter().map(|s| s.0).collect::<Vec<_>>());
    c.sample(|| c_last(&held));
    Ok(())
}

fn c_last(held: &[(String, Arc<Box<dyn KeyMaterial>>)]) -> String {
    held.iter().take(4).map(|h| h.0.clone()).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- C20

pub const C20: Prop = Prop {
    id: "C20",
    quick: 3500,
    thorough: 60000,
    level: "exploration",
    rule: "a case is one key and one message: the library's signature checked by the crypto crates and, in batches, by Node/OpenSSL; the crates' and Node's (golden) signatures checked by the library; and a dozen wrong messages, keys, key types, encodings, paddings and hashes the library must refuse; distinct_nontrivial counts distinct (key, message) pairs",
    assumptions: &["ECDSA's two equivalent signatures (r, s) and (r, n-s) are both standard", "the crypto crates themselves are correct (cross-checked against OpenSSL through Node when it is installed)"],
    run: c20,
};

struct Golden {
    key: K,
    did: String,
    sigs: Vec<(Vec<u8>, Vec<u8>)>,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn golden() -> &'static Vec<Golden> {
    static G: OnceLock<Vec<Golden>> = OnceLock::new();
    G.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../fixtures/golden.json")).unwrap();
        v.as_array()
            .unwrap()
            .iter()
            .map(|g| {
                let secret = unhex(g["secret"].as_str().unwrap());
                let key = match g["alg"].as_str().unwrap() {
                    "EdDSA" => K::Ed(ed25519_zebra::SigningKey::from(<[u8; 32]>::try_from(secret.as_slice()).unwrap())),
                    "ES256" => K::P(p256::ecdsa::SigningKey::from_slice(&secret).unwrap()),
                    _ => {
                        use rsa::pkcs8::DecodePrivateKey;
                        K::Rsa(99, Box::new(rsa::RsaPrivateKey::from_pkcs8_der(&secret).unwrap()))
                    }
                };
                Golden {
                    key,
                    did: g["did"].as_str().unwrap().into(),
                    sigs: g["sigs"].as_array().unwrap().iter().map(|s| (unhex(s["m"].as_str().unwrap()), unhex(s["s"].as_str().unwrap()))).collect(),
                }
            })
            .collect()
    })
}

fn crate_verifies(k: &K, m: &[u8], s: &[u8]) -> bool {
    match k {
        K::Ed(k) => match ed25519_zebra::Signature::try_from(s) {
            Ok(s) => ed25519_zebra::VerificationKey::from(k).verify(&s, m).is_ok(),
            Err(_) => false,
        },
        K::P(k) => {
            use p256::ecdsa::signature::Verifier;
            s.len() == 64 && p256::ecdsa::Signature::from_slice(s).is_ok_and(|s| k.verifying_key().verify(m, &s).is_ok())
        }
        K::Rsa(_, k) => {
            use rsa::traits::PublicKeyParts;
            let pk = rsa::RsaPublicKey::from(k.as_ref());
            s.len() == pk.size() && pk.verify(rsa::Pkcs1v15Sign::new::<Sha256>(), &Sha256::digest(m), s).is_ok()
        }
        K::Mock(_) => unreachable!(),
    }
}

fn message(r: &mut R) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => b"eyJhbGciOiJFZERTQSIsInR5cCI6IkpXVCJ9.e30".to_vec(),
        2 => r.bytes(32),
        3 => r.bytes(64),
        4 => r.bytes(3000),
        _ => {
            let n = r.range(1, 300);
            r.bytes(n)
        }
    }
}

/// Signatures that are well made, but not in the standard form for this message.
fn nonstandard(k: &K, m: &[u8], r: &mut R) -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = Vec::new();
    let good = k.sign(m);
    out.push(("nothing", vec![]));
    out.push(("zeros", vec![0; good.len()]));
    out.push(("truncated", good[..good.len() - 1].to_vec()));
    out.push(("half", good[..good.len() / 2].to_vec()));
    out.push(("without its first byte", good[1..].to_vec()));
    out.push(("extended", [&good[..], &[0]].concat()));
    out.push(("extended in front", [&[0], &good[..]].concat()));
    out.push(("twice", [&good[..], &good[..]].concat()));
    out.push(("reversed", good.iter().rev().copied().collect()));
    for _ in 0..6 {
        let mut b = good.clone();
        let i = r.below(b.len());
        b[i] ^= 1 << r.below(8);
        out.push(("with a bit flipped", b));
    }
    let h = Sha256::digest(m);
    out.push(("of the message's hash", k.sign(&h)));
    out.push(("of the message in hexadecimal", k.sign(hex(m).as_bytes())));
    match k {
        K::Ed(_) => {
            out.push(("with its halves swapped", [&good[32..], &good[..32]].concat()));
        }
        K::P(sk) => {
            use p256::ecdsa::signature::hazmat::PrehashSigner;
            let s = p256::ecdsa::Signature::from_slice(&good).unwrap();
            out.push(("in DER form", s.to_der().as_bytes().to_vec()));
            out.push(("with its halves swapped", [&good[32..], &good[..32]].concat()));
            let d512 = sha2::Sha512::digest(m);
            let s: p256::ecdsa::Signature = sk.sign_prehash(&d512).unwrap();
            out.push(("over SHA-512", s.to_bytes().to_vec()));
            let d384 = sha2::Sha384::digest(m);
            let s: p256::ecdsa::Signature = sk.sign_prehash(&d384).unwrap();
            out.push(("over SHA-384", s.to_bytes().to_vec()));
        }
        K::Rsa(_, sk) => {
            out.push(("over SHA-512", sk.sign(rsa::Pkcs1v15Sign::new::<sha2::Sha512>(), &sha2::Sha512::digest(m)).unwrap_or_default()));
            out.push(("over SHA-224", sk.sign(rsa::Pkcs1v15Sign::new::<sha2::Sha224>(), &sha2::Sha224::digest(m)).unwrap_or_default()));
            out.push(("without its hash identifier", sk.sign(rsa::Pkcs1v15Sign::new_unprefixed(), &h).unwrap_or_default()));
            out.push(("with PSS padding", sk.sign_with_rng(&mut rand::thread_rng(), rsa::Pss::new::<Sha256>(), &h).unwrap_or_default()));
        }
        K::Mock(_) => {}
    }
    // The hexadecimal form of the empty message is the empty message: such entries are the signature itself.
    out.retain(|(_, s)| *s != good);
    out
}

fn c20(c: &mut Case) -> Res {
    if c.idx < golden().len() as u64 {
        let g = &golden()[c.idx as usize];
        let cut = g.key.cut();
        c.note(format!("golden {} key {}", g.key.kind(), g.did));
        ensure!(block_on(cut.get_did()).ok().as_ref() == Some(&g.did), "the DID is not the one other implementations give: {}", g.did);
        let parsed = keys::parser().parse(&g.did).map_err(|e| V(format!("{} does not parse: {e}", g.did)))?;
        for (i, (m, s)) in g.sigs.iter().enumerate() {
            c.eval();
            c.ev("golden signatures");
            ensure!(block_on(parsed.verify(m, s)).is_ok(), "a signature made by OpenSSL is refused ({}, message {i})", g.key.kind());
            ensure!(block_on(cut.verify(m, s)).is_ok(), "a signature made by OpenSSL is refused by the private key ({}, message {i})", g.key.kind());
            let mine = block_on(cut.sign(m)).map_err(|e| V(e.to_string()))?;
            if g.key.kind() != "p256" {
                ensure!(mine == *s, "{} signature of message {i} differs from OpenSSL's", g.key.kind());
            }
            for (j, (_, t)) in g.sigs.iter().enumerate() {
                ensure!(i == j || block_on(parsed.verify(m, t)).is_err(), "the signature of message {j} is accepted for message {i}");
            }
            c.seen((&g.did, m));
        }
        return Ok(());
    }
    if c.idx % 250 == 249 {
        return independent(c);
    }
    if c.idx % 100 == 50 {
        return many(c);
    }
    if c.idx % 100 == 60 {
        return leading_zero(c);
    }
    if c.idx % 20 == 7 {
        return large(c);
    }
    let k = loop {
        let k = match c.r.below(40) {
            0 => c.r.pick(keys::rsa_keys()).clone(),
            1..=12 => keys::p256_key(c.r.below(60) as u64),
            13..=20 => c.r.pick(golden()).key.clone(),
            _ => keys::ed(c.r.below(60) as u64),
        };
        // RSA is slow
        if k.kind() != "rsa" || c.r.pct(40) {
            break k;
        }
    };
    let m = message(&mut c.r);
    c.note(format!("{} key {} message {}", k.kind(), k.did(), hex(&m)));
    let cut = k.cut();
    let public = k.cut_public();
    let mut p = keys::parser();
    let parsed = p.parse(&k.did()).map_err(|e| V(format!("{} does not parse: {e}", k.did())))?;
    c.eval();
    c.seen((k.did(), &m));
    c.ev(k.kind());
    ensure!(cut.get_jwt_algorithm_name() == k.alg(), "{} keys call their algorithm {}", k.kind(), cut.get_jwt_algorithm_name());
    let sig = block_on(cut.sign(&m)).map_err(|e| V(format!("a {} key does not sign: {e}", k.kind())))?;
    ensure!(crate_verifies(&k, &m, &sig), "the library's {} signature does not verify independently: {}", k.kind(), hex(&sig));
    let theirs = k.sign(&m);
    let verifiers: Vec<(&str, &dyn KeyMaterial)> = vec![("the key pair", &cut), ("the public key", &public), ("the parsed key", &parsed)];
    for (how, v) in &verifiers {
        c.eval();
        ensure!(block_on(v.verify(&m, &sig)).is_ok(), "{how} refuses the library's {} signature", k.kind());
        ensure!(block_on(v.verify(&m, &theirs)).is_ok(), "{how} refuses a standard {} signature", k.kind());
    }
    for (how, v) in &verifiers[1..] {
        ensure!(block_on(v.sign(&m)).is_err(), "{how} signs without a private half");
        c.ev("refusals to sign");
    }
    let (_, v) = &verifiers[c.r.below(3)];
    for (how, s) in nonstandard(&k, &m, &mut c.r) {
        c.eval();
        c.ev("bad signatures refused");
        ensure!(block_on(v.verify(&m, &s)).is_err(), "a {} signature {how} is accepted: {}", k.kind(), hex(&s));
    }
    // other messages
    let mut others = vec![[&m[..], &[0]].concat(), [&[0], &m[..]].concat(), message(&mut c.r), hex(&m).into_bytes(), Sha256::digest(&m).to_vec()];
    if !m.is_empty() {
        others.push(m[..m.len() - 1].to_vec());
        others.push(m[1..].to_vec());
        let mut x = m.clone();
        let i = c.r.below(x.len());
        x[i] ^= 1 << c.r.below(8);
        others.push(x);
        others.push(vec![]);
    }
    for o in others {
        if o != m {
            c.eval();
            c.ev("other messages refused");
            ensure!(block_on(v.verify(&o, &sig)).is_err(), "the {} signature of {} is accepted for {}", k.kind(), hex(&m), hex(&o));
        }
    }
    // other keys, of the same and of other types
    for o in [keys::ed(c.r.below(60) as u64), keys::p256_key(c.r.below(60) as u64), keys::rsa_keys()[c.r.below(3)].clone()] {
        if o.did() != k.did() {
            c.eval();
            c.ev("other keys refused");
            ensure!(block_on(o.cut().verify(&m, &sig)).is_err(), "a {} key accepts another {} key's signature", o.kind(), k.kind());
            if o.kind() != "rsa" {
                ensure!(block_on(v.verify(&m, &o.sign(&m))).is_err(), "a {} key accepts another {} key's signature", k.kind(), o.kind());
            }
        }
    }
    c.sample(|| format!("{} {} -> {}", k.did(), hex(&m[..m.len().min(20)]), hex(&sig[..8])));
    Ok(())
}

/// Messages `zero-<n>` whose signature by the given RSA key starts with a zero byte.
const ZEROS: &[(usize, [u32; 2])] = &[(0, [99, 656]), (1, [42, 108]), (2, [12, 19]), (3, [382, 440]), (4, [4, 368])];

fn leading_zero(c: &mut Case) -> Res {
    let (at, ns) = c.r.pick(ZEROS);
    let k = &keys::rsa_keys()[*at];
    let m = format!("zero-{}", c.r.pick(ns)).into_bytes();
    c.note(format!("{} message {}", k.did(), hex(&m)));
    let theirs = k.sign(&m);
    if theirs[0] != 0 {
        bail!("the harness's RS256 signature of {} does not start with a zero byte", hex(&m));
    }
    c.eval();
    c.ev("signatures that start with a zero byte");
    c.seen((k.did(), &m));
    let cut = k.cut();
    let parsed = keys::parser().parse(&k.did()).map_err(|e| V(format!("{} does not parse: {e}", k.did())))?;
    ensure!(block_on(cut.sign(&m)).ok().as_ref() == Some(&theirs), "the RS256 signature of {} is not the standard one", hex(&m));
    for v in [&parsed as &dyn KeyMaterial, &cut] {
        ensure!(block_on(v.verify(&m, &theirs)).is_ok(), "an RS256 signature that starts with a zero byte is refused ({} bits)", theirs.len() * 8);
        ensure!(block_on(v.verify(&m, &theirs[1..])).is_err(), "an RS256 signature without its leading zero is accepted");
        ensure!(block_on(v.verify(&m, &[&[0], &theirs[..]].concat())).is_err(), "an RS256 signature with one more leading zero is accepted");
    }
    Ok(())
}

/// Hundreds of signatures by one key, for the numbers in them that are rarely short or large.
fn many(c: &mut Case) -> Res {
    let k = match c.r.below(4) {
        0 => keys::ed(c.r.u64()),
        1 => keys::p256_key(c.r.u64()),
        _ => keys::small_rsa()[c.r.below(keys::small_rsa().len())].clone(),
    };
    let n = 400;
    c.note(format!("{n} signatures by the {} key {}", k.kind(), k.did()));
    let cut = k.cut();
    let parsed = keys::parser().parse(&k.did()).map_err(|e| V(format!("{} does not parse: {e}", k.did())))?;
    for i in 0..n {
        let m = [&(i as u32).to_be_bytes()[..], &c.r.bytes(8)].concat();
        let sig = block_on(cut.sign(&m)).map_err(|e| V(format!("a {} key does not sign: {e}", k.kind())))?;
        c.eval();
        c.ev("signatures in long series");
        if sig.first() == Some(&0) {
            c.ev("signatures that start with a zero byte");
        }
        ensure!(crate_verifies(&k, &m, &sig), "the library's {} signature {} of {} does not verify independently", k.kind(), hex(&sig), hex(&m));
        ensure!(block_on(parsed.verify(&m, &sig)).is_ok(), "the parsed {} key refuses the library's signature {} of {}", k.kind(), hex(&sig), hex(&m));
        if k.kind() == "rsa" {
            ensure!(sig == k.sign(&m), "the RS256 signature of {} is not the standard one", hex(&m));
            if sig[0] == 0 {
                ensure!(block_on(parsed.verify(&m, &sig[1..])).is_err(), "an RS256 signature without its leading zero is accepted");
            }
        }
        let mut bad = sig.clone();
        let at = c.r.below(bad.len());
        bad[at] ^= 1 << c.r.below(8);
        ensure!(block_on(parsed.verify(&m, &bad)).is_err(), "a {} signature with a bit flipped is accepted: {}", k.kind(), hex(&bad));
    }
    c.seen((k.did(), c.idx));
    Ok(())
}

/// A message of many blocks, changed anywhere.
fn large(c: &mut Case) -> Res {
    let k = match c.r.below(5) {
        0 | 1 => keys::ed(c.r.below(60) as u64),
        2 => keys::p256_key(c.r.below(60) as u64),
        3 => keys::small_rsa()[c.r.below(keys::small_rsa().len())].clone(),
        _ => keys::rsa_keys()[0].clone(),
    };
    let n = match c.r.below(8) {
        0 => 1000,
        1 => 4096,
        2 => 8192,
        3 => 16384,
        4 => 65536,
        5 => 131072,
        6 => c.r.range(1000, 100_000),
        _ if c.r.pct(20) => 1 << 20,
        _ => c.r.range(100_000, 300_000),
    } + c.r.below(3) - 1;
    let m = c.r.bytes(n);
    c.note(format!("{} key {} message of {n} bytes", k.kind(), k.did()));
    c.seen((k.did(), n));
    let cut = k.cut();
    let parsed = keys::parser().parse(&k.did()).map_err(|e| V(format!("{} does not parse: {e}", k.did())))?;
    let sig = block_on(cut.sign(&m)).map_err(|e| V(format!("a {} key does not sign: {e}", k.kind())))?;
    c.eval();
    c.ev("long messages");
    ensure!(crate_verifies(&k, &m, &sig), "the library's {} signature of a message of {n} bytes does not verify independently", k.kind());
    ensure!(block_on(parsed.verify(&m, &sig)).is_ok(), "the parsed key refuses the library's {} signature of a message of {n} bytes", k.kind());
    ensure!(block_on(parsed.verify(&m, &k.sign(&m))).is_ok(), "the parsed key refuses a standard {} signature of a message of {n} bytes", k.kind());
    for at in [0, 1, n / 2, n - 2, n - 1, c.r.below(n), c.r.below(n)] {
        let mut o = m.clone();
        o[at] ^= 1 << c.r.below(8);
        c.eval();
        c.ev("other messages refused");
        ensure!(block_on(parsed.verify(&o, &sig)).is_err(), "the {} signature of a message of {n} bytes is accepted after a change at byte {at}", k.kind());
    }
    for keep in [n - 1, n / 2, c.r.below(n)] {
        ensure!(block_on(parsed.verify(&m[..keep], &sig)).is_err(), "the {} signature of a message of {n} bytes is accepted for its first {keep}", k.kind());
    }
    let mut o = m;
    o.push(c.r.u64() as u8);
    ensure!(block_on(parsed.verify(&o, &sig)).is_err(), "the {} signature of a message of {n} bytes is accepted after one more", k.kind());
    Ok(())
}

/// A batch of the library's signatures, checked by Node/OpenSSL.
fn independent(c: &mut Case) -> Res {
    let mut jobs = Vec::new();
    for i in 0..60 {
        let k = match i % 10 {
            0 => keys::rsa_keys()[c.r.below(3)].clone(),
            1..=4 => keys::p256_key(c.r.u64()),
            _ => keys::ed(c.r.u64()),
        };
        let m = message(&mut c.r);
        let s = block_on(k.cut().sign(&m)).map_err(|e| V(e.to_string()))?;
        let pk = match &k {
            K::P(k) => k.verifying_key().to_encoded_point(false).as_bytes().to_vec(),
            k => k.public_bytes(),
        };
        c.seen((k.did(), &m));
        jobs.push(json!({"alg": k.cut().get_jwt_algorithm_name(), "key": hex(&pk), "m": hex(&m), "s": hex(&s)}));
    }
    let child = std::process::Command::new("node")
        .args(["--input-type=module", "-e", include_str!("../../fixtures/verify.mjs")])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn();
    let Ok(mut child) = child else {
        c.ev("batches without an independent implementation at hand");
        return Ok(());
    };
    let text = serde_json::to_string(&jobs).unwrap();
    let _ = child.stdin.take().unwrap().write_all(text.as_bytes());
    let out = child.wait_with_output().map(|o| o.stdout).unwrap_or_default();
    let Ok(Value::Array(res)) = serde_json::from_slice::<Value>(&out) else {
        c.ev("batches without an independent implementation at hand");
        return Ok(());
    };
    for (j, x) in jobs.iter().zip(res) {
        c.eval();
        c.ev("signatures checked by OpenSSL");
        ensure!(x == Value::Bool(true), "OpenSSL refuses the library's signature: {x} {j}");
    }
    Ok(())
}
