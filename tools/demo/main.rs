#![allow(dead_code, unused_imports)]
use anyhow::{anyhow, bail, ensure, Result};
use base64::engine::{general_purpose::URL_SAFE_NO_PAD as B64, Engine};
use cid::{multihash::{Code, MultihashDigest}, Cid};
use ed25519_zebra::{SigningKey, VerificationKey};
use futures::executor::block_on;
use serde_json::{json, Value};
use ucan::{
    builder::UcanBuilder,
    capability::{Ability, Capabilities, Capability, CapabilitySemantics, CapabilityView, Caveat, Resource, ResourceUri, Scope},
    chain::ProofChain,
    crypto::{did::{DidParser, ED25519_MAGIC_BYTES, P256_MAGIC_BYTES, RSA_MAGIC_BYTES}, KeyMaterial, JwtSignatureAlgorithm},
    ipld::{Principle, Signature, UcanIpld},
    store::{MemoryStore, UcanJwtStore, UcanStore},
    ucan::Ucan,
};
use ucan_key_support::{ed25519::*, p256::{bytes_to_p256_key, P256KeyMaterial}, rsa::{bytes_to_rsa_key, RsaKeyMaterial}};
use url::Url;

/// An Ed25519 key from a number.
fn key(n: u64) -> Ed25519KeyMaterial {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    let k = SigningKey::from(b);
    Ed25519KeyMaterial(VerificationKey::from(&k), Some(k))
}

fn did(k: &impl KeyMaterial) -> String {
    block_on(k.get_did()).unwrap()
}

fn parser() -> DidParser {
    DidParser::new(&[(ED25519_MAGIC_BYTES, bytes_to_ed25519_key), (P256_MAGIC_BYTES, bytes_to_p256_key), (RSA_MAGIC_BYTES, bytes_to_rsa_key)])
}

/// A token of another implementation: any payload, signed by the key.
fn token(k: &impl KeyMaterial, payload: Value) -> String {
    let h = B64.encode(json!({"alg": k.get_jwt_algorithm_name(), "typ": "JWT"}).to_string());
    let p = B64.encode(payload.to_string());
    let data = format!("{h}.{p}");
    let s = block_on(k.sign(data.as_bytes())).unwrap();
    format!("{data}.{}", B64.encode(s))
}

/// The usual payload, with some fields replaced.
fn payload(iss: &str, aud: &str, other: Value) -> Value {
    let mut p = json!({"aud": aud, "cap": {}, "exp": null, "iss": iss, "ucv": "0.10.0-canary"});
    for (k, v) in other.as_object().unwrap() {
        p[k] = v.clone();
    }
    p
}

fn cid(token: &str) -> String {
    Cid::new_v1(0x55, Code::Blake3_256.digest(token.as_bytes())).to_string()
}

fn store(tokens: &[&str]) -> MemoryStore {
    let mut s = MemoryStore::default();
    for t in tokens {
        block_on(s.write_token(t)).unwrap();
    }
    s
}

fn chain(token: &str, time: Option<u64>, s: &MemoryStore) -> Result<ProofChain> {
    block_on(ProofChain::try_from_token_string(token, time, &mut parser(), s))
}

/// Resources are sets of letters ("set:abc" contains "set:a"); abilities are ordered.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Letters(String);
impl ToString for Letters {
    fn to_string(&self) -> String {
        format!("set:{}", self.0)
    }
}
impl TryFrom<Url> for Letters {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self> {
        ensure!(u.scheme() == "set", "not a set");
        Ok(Letters(u.path().to_string()))
    }
}
impl Scope for Letters {
    fn contains(&self, other: &Self) -> bool {
        other.0.chars().all(|c| self.0.contains(c))
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Level(u8);
impl ToString for Level {
    fn to_string(&self) -> String {
        format!("level/{}", self.0)
    }
}
impl TryFrom<String> for Level {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self> {
        Ok(Level(s.strip_prefix("level/").ok_or_else(|| anyhow!("not a level"))?.parse()?))
    }
}
impl Ability for Level {}
struct Letts;
impl CapabilitySemantics<Letters, Level> for Letts {}

/// What a chain reports, as (resource, ability, caveat, originators, window).
fn report(c: &ProofChain) -> Vec<(String, String, String, Vec<String>, Option<u64>, Option<u64>)> {
    let mut v: Vec<_> = c
        .reduce_capabilities(&Letts)
        .into_iter()
        .map(|i| {
            (
                i.capability.resource.to_string(),
                i.capability.ability.to_string(),
                i.capability.caveat.to_string(),
                i.originators.into_iter().collect(),
                i.not_before,
                i.expires_at,
            )
        })
        .collect();
    v.sort();
    v
}

fn main() {
    if let Err(e) = demo() {
        eprintln!("{e:#}");
        std::process::exit(1);
    }
    println!("ok");
}

include!("demo.rs");
