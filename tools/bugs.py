BUGS = {}
def bug(id, property, edits, needs, breaks, demo):
    BUGS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
U, K = "ucan/src/", "ucan-key-support/src/"

bug("did-cache-case", "C19", [
 (U+"crypto/did.rs", "        let did = did.to_owned();\n        if let", "        let cache_key = did.to_lowercase();\n        if let"),
 (U+"crypto/did.rs", "self.key_cache.get(&did) {", "self.key_cache.get(&cache_key) {"),
 (U+"crypto/did.rs", "self.key_cache.insert(did.clone(), Arc::new(key));", "self.key_cache.insert(cache_key.clone(), Arc::new(key));"),
 (U+"crypto/did.rs", "                    .get(&did)\n", "                    .get(&cache_key)\n"),
], "two DIDs that differ only in the case of a letter, given to one parser", "the second DID yields the key of the first (base58 is case sensitive)", '''
fn demo() -> Result<()> {
    // Find a DID whose case-flipped variant names another key (or none).
    for n in 0..200 {
        let d = did(&key(n));
        for i in 12..d.len() {
            let c = d.as_bytes()[i];
            if !c.is_ascii_alphabetic() || matches!(c ^ 0x20, b'I' | b'O' | b'l') {
                continue;
            }
            let mut o = d.clone().into_bytes();
            o[i] ^= 0x20;
            let o = String::from_utf8(o).unwrap();
            let mut p = parser();
            p.parse(&d)?;
            let after = p.parse(&o).ok().map(|k| block_on(k.get_did()).unwrap());
            let fresh = parser().parse(&o).ok().map(|k| block_on(k.get_did()).unwrap());
            ensure!(after == fresh, "{o} parses to {after:?} after {d}, to {fresh:?} alone");
        }
    }
    Ok(())
}''')

bug("did-cache-bounded", "C19", [
 (U+"crypto/did.rs", "                self.key_cache.insert(did.clone(), Arc::new(key));\n", "                self.key_cache.insert(did.clone(), Arc::new(key));\n                // Bound the memory held by long-lived parsers\n                if self.key_cache.len() > 128 {\n                    let oldest = self.key_cache.keys().next().cloned();\n                    oldest.map(|oldest| self.key_cache.remove(&oldest));\n                }\n"),
 (U+"crypto/did.rs", "self.key_cache.insert(did.clone(), Arc::new(key));\n                // Bound", "let _ = self.key_cache.insert(did.clone(), Arc::new(key));\n                // Bound"),
], "a parser that has parsed more than 128 different DIDs, then one that sorts first", "eviction removes the key that was just parsed, so a sound DID is refused", '''
fn demo() -> Result<()> {
    let mut p = parser();
    for n in 0..1000 {
        let k = key(n);
        let parsed = p.parse(&did(&k))?;
        ensure!(block_on(parsed.get_did())? == did(&k));
    }
    Ok(())
}''')

bug("did-fragment", "C19", [
 (U+"crypto/did.rs", "        let did = did.to_owned();\n", "        // A DID URL may name a verification method of the DID\n        let did = did.split('#').next().unwrap_or(did).to_owned();\n"),
], "a DID followed by a fragment", "a text that is not a did:key is parsed as a key, so tokens can name one issuer in many ways", '''
fn demo() -> Result<()> {
    let d = format!("{}#key-1", did(&key(1)));
    ensure!(parser().parse(&d).is_err(), "{d} is parsed as a key");
    Ok(())
}''')

bug("signature-memo", "C01", [
 (U+"crypto/did.rs", "pub struct DidParser {\n    key_constructors: KeyConstructors,\n", "pub struct DidParser {\n    /// Signatures that were verified before, by issuer\n    pub(crate) verified: std::collections::BTreeSet<(String, Vec<u8>)>,\n    key_constructors: KeyConstructors,\n"),
 (U+"crypto/did.rs", "        DidParser {\n            key_constructors,\n", "        DidParser {\n            verified: Default::default(),\n            key_constructors,\n"),
 (U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await\n", "        let seen = (self.payload.iss.clone(), self.signature.clone());\n        if did_parser.verified.contains(&seen) {\n            return Ok(());\n        }\n        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await?;\n        did_parser.verified.insert(seen);\n        Ok(())\n"),
], "an altered token presented to a parser that has verified the original", "the memo of verified signatures does not cover what was signed, so an altered token with the same signature validates", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({})));
    let forged = token(&k, payload(&did(&k), "did:key:zB", json!({})));
    let forged = format!("{}.{}", forged.rsplit_once('.').unwrap().0, t.rsplit_once('.').unwrap().1);
    let mut p = parser();
    block_on(Ucan::try_from(t)?.check_signature(&mut p))?;
    ensure!(block_on(Ucan::try_from(forged)?.check_signature(&mut p)).is_err(), "a forged token validates after a sound one");
    Ok(())
}''')

bug("chain-proof-time", "C06", [
 (U+"chain.rs", "Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?;", "Self::try_from_token_string(&ucan_token, None, did_parser, store).await?;"),
], "a chain validated at an explicit time other than now, whose proof is not valid at both", "the wall clock instead of the caller's time decides about proofs", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({"nbf": 1000, "exp": 2000})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"nbf": 1000, "exp": 2000, "prf": [cid(&p)]})));
    chain(&t, Some(1500), &store(&[&p]))?;
    Ok(())
}''')

bug("expiry-zero", "C06", [
 (U+"ucan.rs", "            exp < now_time.unwrap_or_else(now)\n", "            // Zero stands for \"never\", as in other implementations\n            exp != 0 && exp < now_time.unwrap_or_else(now)\n"),
], "an expiry of 0", "a token that expired at the epoch is valid forever", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({"exp": 0})));
    ensure!(block_on(Ucan::try_from(t)?.validate(Some(1), &mut parser())).is_err(), "valid after its expiry");
    Ok(())
}''')

bug("link-window-nbf", "C07", [
 (U+"ucan.rs", "            (Some(_), None) => false,\n            _ => true,\n", "            _ => true,\n"),
], "a proof with a not-before time under a token without one", "a token without a start is accepted under a proof that starts later", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({"nbf": 1000})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, Some(1500), &store(&[&p])).is_err(), "accepted");
    Ok(())
}''')

bug("link-audience-case", "C07", [
 (U+"chain.rs", "        match audience == issuer {", "        match audience.eq_ignore_ascii_case(issuer) {"),
], "an audience that differs from the issuer in the case of a letter", "a proof for another audience is accepted", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let other = did(&b).to_ascii_uppercase();
    let p = token(&a, payload(&did(&a), &other, json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[&p])).is_err(), "accepted");
    Ok(())
}''')

bug("redelegated-window", "C12", [
 (U+"chain.rs", "                        info.expires_at = *self.ucan.expires_at();\n                        info\n", "                        info.expires_at = info.expires_at.or(*self.ucan.expires_at());\n                        info\n"),
], "a redelegation with an earlier expiry than its proof", "a redelegated capability is reported to outlive the token that redelegates it", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({"exp": 9000, "cap": {"set:a": {"level/1": [{}]}}})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"exp": 5000, "prf": [cid(&p)], "cap": {"prf:0": {"ucan/DELEGATE": [{}]}}})));
    for r in report(&chain(&t, Some(100), &store(&[&p]))?) {
        ensure!(r.5 == Some(5000), "{r:?}");
    }
    Ok(())
}''')

bug("own-originator", "C10", [
 (U+"chain.rs", "                    if originators.is_empty() {\n", "                    if originators.is_empty() && ancestral_capability_infos.is_empty() {\n"),
], "a token with proofs that claims a capability none of them grants", "the capability its issuer originates is reported without an originator", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({"cap": {"set:a": {"level/1": [{}]}}})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)], "cap": {"set:b": {"level/1": [{}]}}})));
    for r in report(&chain(&t, None, &store(&[&p]))?) {
        ensure!(r.3 == vec![did(&b)], "{r:?}");
    }
    Ok(())
}''')

bug("first-originator", "C10", [
 (U+"chain.rs", "                        match ancestral_capability_info.capability.enables(&capability) {\n                            true => {\n                                originators.extend(ancestral_capability_info.originators.clone())\n                            }\n", "                        match ancestral_capability_info.capability.enables(&capability) {\n                            true => {\n                                originators.extend(ancestral_capability_info.originators.clone());\n                                if originators.len() > 1 {\n                                    break;\n                                }\n                            }\n"),
], "a capability granted by three or more originators", "the third originator is not reported", '''
fn demo() -> Result<()> {
    let b = key(9);
    let ps: Vec<String> = (1..5).map(|n| { let a = key(n); token(&a, payload(&did(&a), &did(&b), json!({"cap": {"set:a": {"level/1": [{}]}}}))) }).collect();
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": ps.iter().map(|p| cid(p)).collect::<Vec<_>>(), "cap": {"set:a": {"level/1": [{}]}}})));
    let s = store(&ps.iter().map(|p| p.as_str()).collect::<Vec<_>>());
    let r = report(&chain(&t, None, &s)?);
    ensure!(r.len() == 1 && r[0].3.len() == 4, "{r:?}");
    Ok(())
}''')

bug("caveat-null", "C14", [
 (U+"capability/caveats.rs", "                if value != other_value {\n", "                // A null condition does not constrain the field\n                if value != other_value && !value.is_null() {\n"),
], "a caveat with a null field", "a null condition enables any value of the field", '''
fn demo() -> Result<()> {
    let a = Caveat::try_from(json!({"x": null}))?;
    let b = Caveat::try_from(json!({"x": 1}))?;
    ensure!(!a.enables(&b), "a null condition enables x=1");
    Ok(())
}''')

bug("caveat-numbers", "C14", [
 (U+"capability/caveats.rs", "                if value != other_value {\n", "                // 1 and 1.0 are the same number in JSON\n                let same = match (value.as_f64(), other_value.as_f64()) {\n                    (Some(left), Some(right)) => left == right,\n                    _ => value == other_value,\n                };\n                if !same {\n"),
], "two different integers beyond 2^53 in otherwise equal conditions", "different conditions count as equal", '''
fn demo() -> Result<()> {
    let a = Caveat::try_from(json!({"x": 9007199254740993u64}))?;
    let b = Caveat::try_from(json!({"x": 9007199254740992u64, "y": 1}))?;
    ensure!(!a.enables(&b), "different numbers are equal");
    Ok(())
}''')

bug("as-did-prefix", "C13", [
 (U+"capability/semantics.rs", ") if did == other_did => resource.contains(other_resource),", ") if other_did.starts_with(did.as_str()) => resource.contains(other_resource),"),
], "two DIDs one of which is a prefix of the other", "a capability on behalf of one DID enables one on behalf of another", '''
fn demo() -> Result<()> {
    let v = |d: &str| Letts.parse(&format!("as:did:key:{d}:set:a"), "level/1", None).unwrap();
    ensure!(!v("z6Mk").enables(&v("z6MkOther")), "enables another DID's");
    Ok(())
}''')

bug("wildcard-suffix", "C15", [
 (U+"capability/semantics.rs", "            \"*\" => ResourceUri::Unscoped,\n            _ => ResourceUri::Scoped(self.parse_scope(resource)?),", "            path if path.ends_with('*') => ResourceUri::Unscoped,\n            _ => ResourceUri::Scoped(self.parse_scope(resource)?),"),
], "a scope whose text ends in a star", "a narrow capability is read as one for everything", '''
fn demo() -> Result<()> {
    let v = Letts.parse("set:ab*", "level/1", None).unwrap();
    ensure!(v.resource.to_string() == "set:ab*", "read as {}", v.resource.to_string());
    Ok(())
}''')

bug("caveat-order", "C16", [
 (U+"capability/data.rs", "                ability_vec.push(caveat);\n", "                // Keep the caveats in a canonical order\n                let at = ability_vec.partition_point(|other| other.to_string() <= caveat.to_string());\n                ability_vec.insert(at, caveat);\n"),
], "several caveats for one ability in an order that is not alphabetical", "the order of the caveats is lost", '''
fn demo() -> Result<()> {
    let c = |v: Value| Capability::new("set:a".into(), "level/1".into(), v);
    let list = vec![c(json!({"b": 1})), c(json!({"a": 1}))];
    let m = Capabilities::try_from(list.clone())?;
    ensure!(m.iter().collect::<Vec<_>>() == list, "{m:?}");
    Ok(())
}''')

bug("lifetime-shortens", "C17", [
 (U+"builder.rs", "        if self.expiration.is_some() {\n            self.expiration\n        } else {\n", "        if self.expiration.is_some() && self.lifetime.is_none() {\n            self.expiration\n        } else if let (Some(expiration), Some(lifetime)) = (self.expiration, self.lifetime) {\n            Some(expiration.min(now().saturating_add(lifetime)))\n        } else {\n"),
], "an explicit expiry together with a shorter lifetime", "the lifetime wins over the explicit expiry", '''
fn demo() -> Result<()> {
    let k = key(1);
    let u = block_on(UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").with_lifetime(10).with_expiration(99_999_999_999).build()?.sign())?;
    ensure!(*u.expires_at() == Some(99_999_999_999), "{:?}", u.expires_at());
    Ok(())
}''')

bug("fact-first-wins", "C17", [
 (U+"builder.rs", "                self.facts.insert(key.to_owned(), value);\n", "                self.facts.entry(key.to_owned()).or_insert(value);\n"),
 (U+"builder.rs", "        match serde_json::to_value(fact) {\n", "        let value = serde_json::to_value(fact);\n        match value {\n"),
], "a fact set twice", "the first value of the fact is signed", '''
fn demo() -> Result<()> {
    let k = key(1);
    let u = block_on(UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").with_lifetime(10).with_fact("a", 1).with_fact("a", 2).build()?.sign())?;
    ensure!(u.facts().as_ref().unwrap()["a"] == json!(2), "{:?}", u.facts());
    Ok(())
}''')

bug("nonce-by-second", "C18", [
 (U+"builder.rs", "use rand::Rng;\n", "use rand::{rngs::StdRng, Rng, SeedableRng};\n"),
 (U+"builder.rs", ".encode(rand::thread_rng().gen::<[u8; 32]>()),", ".encode(StdRng::seed_from_u64(now()).gen::<[u8; 32]>()),"),
], "two signings within one second", "both carry the same nonce", '''
fn demo() -> Result<()> {
    let k = key(1);
    let s = UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").with_lifetime(10).with_nonce().build()?;
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..20 {
        ensure!(seen.insert(block_on(s.sign())?.nonce().clone()), "a nonce comes again");
    }
    Ok(())
}''')

bug("ed25519-trailing", "C20", [
 (K+"ed25519.rs", "        let signature = Signature::try_from(signature)?;\n", "        let signature = Signature::try_from(signature.get(..64).unwrap_or(signature))?;\n"),
], "a signature followed by further bytes", "an altered signature is accepted", '''
fn demo() -> Result<()> {
    let k = key(1);
    let mut s = block_on(k.sign(b"m"))?;
    s.push(0);
    ensure!(block_on(k.verify(b"m", &s)).is_err(), "an extended signature is accepted");
    Ok(())
}''')

bug("p256-der", "C20", [
 (K+"p256.rs", "        let signature = Signature::try_from(signature)?;\n", "        let signature = Signature::try_from(signature).or_else(|_| Signature::from_der(signature))?;\n"),
], "an ES256 signature in DER form", "a signature in another form than the standard one is accepted", '''
fn demo() -> Result<()> {
    let sk = p256::ecdsa::SigningKey::from_slice(&[9u8; 32])?;
    let k = P256KeyMaterial((*sk.verifying_key()).into(), Some(sk));
    let s = block_on(k.sign(b"m"))?;
    let der = p256::ecdsa::Signature::try_from(s.as_slice())?.to_der();
    ensure!(block_on(k.verify(b"m", der.as_bytes())).is_err(), "a DER signature is accepted");
    Ok(())
}''')

bug("rsa-short-signature", "C20", [
 (K+"rsa.rs", "                let signature = private_key.sign(padding, hashed.as_ref())?;\n", "                let signature = private_key.sign(padding, hashed.as_ref())?;\n                let leading = signature.iter().take_while(|byte| **byte == 0).count();\n                let signature = signature[leading..].to_vec();\n"),
 (K+"rsa.rs", "                info!(\"SIGNED!\");\n", ""),
], "an RSA signature that starts with a zero byte (1 in 256)", "the signature is shorter than the modulus and is refused", '''
fn demo() -> Result<()> {
    use rsa::pkcs8::DecodePrivateKey;
    let dir = std::env::var("FIXTURE").unwrap_or_default();
    let _ = dir;
    let mut rng = rsa::rand_core::OsRng;
    let sk = rsa::RsaPrivateKey::new(&mut rng, 512)?;
    let k = RsaKeyMaterial(rsa::RsaPublicKey::from(&sk), Some(sk));
    for i in 0..3000u32 {
        let m = i.to_le_bytes();
        let s = block_on(k.sign(&m))?;
        ensure!(s.len() == 64, "a signature of {} bytes", s.len());
    }
    Ok(())
}''')

bug("p256-randomized", "C04", [
 (K+"p256.rs", "    signature::{Signer, Verifier},\n", "    signature::{RandomizedSigner, Verifier},\n"),
 (K+"p256.rs", "                let signature: ecdsa::Signature = private_key.sign(payload);\n", "                let mut rng = p256::elliptic_curve::rand_core::OsRng;\n                let signature: ecdsa::Signature = private_key.sign_with_rng(&mut rng, payload);\n"),
], "the same content signed twice with a P-256 key", "the tokens differ", '''
fn demo() -> Result<()> {
    let sk = p256::ecdsa::SigningKey::from_slice(&[9u8; 32])?;
    let k = P256KeyMaterial((*sk.verifying_key()).into(), Some(sk));
    let s = UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").with_expiration(9).build()?;
    ensure!(block_on(s.sign())?.encode()? == block_on(s.sign())?.encode()?, "two signings differ");
    Ok(())
}''')

bug("store-lost-write", "C21", [
 (U+"store.rs", "        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        dags.insert(cid, block);\n", "        // Do not keep readers waiting while the map grows\n        let mut grown = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?.clone();\n        grown.insert(cid, block);\n        *self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))? = grown;\n"),
], "two writes through clones at the same time", "one of the writes is lost", '''
fn demo() -> Result<()> {
    let s = MemoryStore::default();
    let hs: Vec<_> = (0..8).map(|t| { let mut s = s.clone(); std::thread::spawn(move || (0..400).map(|i| { let x = format!("{t}/{i}"); block_on(s.write_token(&x)).unwrap() }).collect::<Vec<_>>()) }).collect();
    for h in hs {
        for c in h.join().unwrap() {
            ensure!(block_on(s.read_token(&c)).is_ok(), "a written token is not found");
        }
    }
    Ok(())
}''')

bug("store-unlocked-read", "C21", [
 (U+"store.rs", "    sync::{Arc, Mutex},\n", "    cell::UnsafeCell,\n    sync::{Arc, Mutex},\n"),
 (U+"store.rs", "#[derive(Clone, Default, Debug)]\npub struct MemoryStore {\n    dags: Arc<Mutex<HashMap<Cid, Vec<u8>>>>,\n}\n", "#[derive(Clone, Default, Debug)]\npub struct MemoryStore {\n    dags: Arc<Blocks>,\n}\n\n/// Blocks are never changed once written, so only writers take the lock\n#[derive(Default, Debug)]\nstruct Blocks {\n    blocks: UnsafeCell<HashMap<Cid, Vec<u8>>>,\n    writer: Mutex<()>,\n}\n\nunsafe impl Sync for Blocks {}\n"),
 (U+"store.rs", "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n", "        let dags = unsafe { &*self.dags.blocks.get() };\n"),
 (U+"store.rs", "        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        dags.insert(cid, block);\n", "        let _guard = self.dags.writer.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        unsafe { &mut *self.dags.blocks.get() }.insert(cid, block);\n"),
], "a read while another thread writes", "a data race: a reader may see a map that is being rehashed", '''
fn demo() -> Result<()> {
    use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
    // Many times: a token that was written stays readable while others are written.
    let lost = Arc::new(AtomicBool::new(false));
    for round in 0..300 {
        let mut s = MemoryStore::default();
        let known: Vec<Cid> = (0..4).map(|i| block_on(s.write_token(&format!("known {i}"))).unwrap()).collect();
        let done = Arc::new(AtomicBool::new(false));
        let readers: Vec<_> = (0..6).map(|_| { let (s, known, done, lost) = (s.clone(), known.clone(), done.clone(), lost.clone()); std::thread::spawn(move || while !done.load(Ordering::Relaxed) { for c in &known { if block_on(s.read_token(c)).is_err() { lost.store(true, Ordering::Relaxed); } } }) }).collect();
        for i in 0..3000 {
            block_on(s.write_token(&format!("{round}/{i}")))?;
        }
        done.store(true, Ordering::Relaxed);
        for r in readers {
            r.join().map_err(|_| anyhow!("a reader panicked"))?;
        }
        ensure!(!lost.load(Ordering::Relaxed), "a written token was not found");
    }
    Ok(())
}''')

bug("read-token-lossy", "C27", [
 (U+"store.rs", "Some(Ipld::Bytes(bytes)) => Ok(Some(std::str::from_utf8(&bytes)?.to_string())),\n            _ => Err(anyhow!(\"No UCAN was found for CID {:?}\", cid)),", "Some(Ipld::Bytes(bytes)) => Ok(Some(std::str::from_utf8(&bytes)?.to_string())),\n            None => Ok(None),\n            _ => Err(anyhow!(\"No UCAN was found for CID {:?}\", cid)),"),
 (U+"chain.rs", "                let ucan_token = store.require_token(&cid).await?;\n", "                // Proofs that are gone do not prove anything\n                let ucan_token = match store.read_token(&cid).await? {\n                    Some(token) => token,\n                    None => continue,\n                };\n"),
], "a proof that the store does not have", "the chain builds with the proof left out", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[])).is_err(), "accepted without its proof");
    Ok(())
}''')

bug("token-cache", "C26", [
 (U+"store.rs", "        match self.read_token(cid).await? {\n            Some(token) => Ok(token),\n", "        // Tokens never change, so remember those that were read\n        static TOKENS: std::sync::OnceLock<Mutex<HashMap<Cid, String>>> = std::sync::OnceLock::new();\n        let tokens = TOKENS.get_or_init(Default::default);\n        if let Some(token) = tokens.lock().ok().and_then(|tokens| tokens.get(cid).cloned()) {\n            return Ok(token);\n        }\n        match self.read_token(cid).await? {\n            Some(token) => {\n                if let Ok(mut tokens) = tokens.lock() {\n                    tokens.insert(*cid, token.clone());\n                }\n                Ok(token)\n            }\n"),
], "a chain validated against a store without its proof, after one that had it", "the verdict depends on what was read from another store before", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[])).is_err(), "accepted without its proof");
    chain(&t, None, &store(&[&p]))?;
    ensure!(chain(&t, None, &store(&[])).is_err(), "accepted without its proof, after a store that had it");
    Ok(())
}''')

bug("ipld-empty-facts", "C22", [
 (U+"ipld/ucan.rs", "            fct: ucan.facts().clone(),\n", "            fct: ucan.facts().clone().filter(|facts| !facts.is_empty()),\n"),
], "a token of another implementation with an empty map of facts", "its signature does not survive the conversion", '''
fn demo() -> Result<()> {
    let k = key(1);
    let d = did(&k);
    // canonical: sorted keys, no white space
    let h = B64.encode(r#"{"alg":"EdDSA","typ":"JWT"}"#);
    let p = B64.encode(format!(r#"{{"aud":"{d}","cap":{{}},"exp":null,"fct":{{}},"iss":"{d}","ucv":"0.10.0-canary"}}"#));
    let s = block_on(k.sign(format!("{h}.{p}").as_bytes()))?;
    let t = format!("{h}.{p}.{}", B64.encode(s));
    let back = Ucan::try_from(&UcanIpld::try_from(&Ucan::try_from(t.as_str())?)?)?.encode()?;
    ensure!(back == t, "{back}");
    Ok(())
}''')

bug("varsig-length", "C23", [
 (U+"ipld/signature.rs", "        let mut size_buffer = unsigned_varint::encode::usize_buffer();\n\n        let size_bytes = unsigned_varint::encode::usize(signature_bytes.len(), &mut size_buffer);\n", "        let mut size_buffer = unsigned_varint::encode::u8_buffer();\n\n        let size_bytes = unsigned_varint::encode::u8(signature_bytes.len() as u8, &mut size_buffer);\n"),
], "a signature of 256 bytes or more (RSA)", "the length in the envelope is wrong and it can not be unwrapped", '''
fn demo() -> Result<()> {
    let s = vec![7u8; 256];
    let e = Signature::try_from((JwtSignatureAlgorithm::RS256, &s))?;
    ensure!(e.decode()?.1 == s);
    Ok(())
}''')

bug("base64-trailing-bits", "C05", [
 (U+"ucan.rs", "            base64::engine::general_purpose::URL_SAFE_NO_PAD\n                .decode(str)\n", "            // Be lenient with tokens of other implementations\n            const LENIENT: base64::engine::GeneralPurpose = base64::engine::GeneralPurpose::new(\n                &base64::alphabet::URL_SAFE,\n                base64::engine::GeneralPurposeConfig::new()\n                    .with_decode_allow_trailing_bits(true)\n                    .with_decode_padding_mode(base64::engine::DecodePaddingMode::RequireNone),\n            );\n            LENIENT\n                .decode(str)\n"),
], "a signature segment whose last character has unused bits set", "the token decodes but encodes to another string, so one token has several CIDs", '''
fn demo() -> Result<()> {
    let k = key(1);
    let mut t = token(&k, payload(&did(&k), "did:key:zA", json!({})));
    let last = t.pop().unwrap();
    let abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    t.push(abc.chars().nth(abc.find(last).unwrap() | 1).unwrap());
    if let Ok(u) = Ucan::try_from(t.as_str()) {
        ensure!(u.encode()? == t, "{t} encodes to {}", u.encode()?);
    }
    Ok(())
}''')

bug("padding-accepted", "C03", [
 (U+"ucan.rs", "            base64::engine::general_purpose::URL_SAFE_NO_PAD\n                .decode(str)\n", "            base64::engine::general_purpose::URL_SAFE_NO_PAD\n                .decode(str.trim_end_matches('='))\n"),
], "a segment with base64 padding", "a malformed token decodes", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({})));
    ensure!(Ucan::try_from(format!("{t}==")).is_err(), "padding is accepted");
    Ok(())
}''')

bug("unchecked-proofs", "C08", [
 (U+"chain.rs", "        ucan.validate(now_time, did_parser).await?;\n", "        if store.read_token(&ucan.to_cid(cid::multihash::Code::Blake3_256)?).await.is_ok() {\n            // Tokens in the store were checked when they were written\n            if ucan.is_expired(now_time) {\n                return Err(anyhow!(\"Expired\"));\n            }\n        } else {\n            ucan.validate(now_time, did_parser).await?;\n        }\n"),
], "a forged proof in the store", "proofs from the store are not verified", '''
fn demo() -> Result<()> {
    let (a, b, m) = (key(1), key(2), key(3));
    let p = token(&m, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[&p])).is_err(), "a forged proof is accepted");
    Ok(())
}''')

bug("last-proof-link", "C07", [
 (U+"chain.rs", "                proof_chain.validate_link_to(&ucan)?;\n                proofs.push(proof_chain);\n            }\n", "                proofs.push(proof_chain);\n            }\n            if let Some(proof_chain) = proofs.last() {\n                proof_chain.validate_link_to(&ucan)?;\n            }\n"),
], "a token with several proofs, an earlier one of which is for another audience", "only the last proof's link is checked", '''
fn demo() -> Result<()> {
    let (a, b, c) = (key(1), key(2), key(3));
    let p = token(&a, payload(&did(&a), &did(&c), json!({})));
    let q = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p), cid(&q)]})));
    ensure!(chain(&t, None, &store(&[&p, &q])).is_err(), "accepted");
    Ok(())
}''')

bug("redelegate-all-but-last", "C11", [
 (U+"chain.rs", "                    if *index < proofs.len() {\n", "                    if *index <= proofs.len() {\n"),
 (U+"chain.rs", "            .flat_map(|index| {\n                self.proofs\n                    .get(*index)\n                    .unwrap()\n                    .reduce_capabilities(semantics)\n                    .into_iter()\n", "            .filter_map(|index| self.proofs.get(*index))\n            .flat_map(|proof| {\n                proof\n                    .reduce_capabilities(semantics)\n                    .into_iter()\n"),
], "a redelegation of the proof one past the last", "a redelegation of a proof that does not exist is accepted", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)], "cap": {"prf:1": {"ucan/DELEGATE": [{}]}}})));
    ensure!(chain(&t, None, &store(&[&p])).is_err(), "accepted");
    Ok(())
}''')

bug("ed25519-short-key", "C25", [
 (K+"ed25519.rs", "    let public_key = Ed25519PublicKey::try_from(bytes.as_slice())?;\n", "    let public_key = Ed25519PublicKey::try_from(&bytes[..32])?;\n"),
], "a did:key whose key is shorter than 32 bytes", "parsing it panics", '''
fn demo() -> Result<()> {
    let d = format!("did:key:z{}", bs58::encode([&ED25519_MAGIC_BYTES[..], &[1; 31]].concat()).into_string());
    ensure!(parser().parse(&d).is_err());
    Ok(())
}''')

bug("audience-trim", "C02", [
 (U+"ucan.rs", "    pub fn audience(&self) -> &str {\n        &self.payload.aud\n", "    pub fn audience(&self) -> &str {\n        self.payload.aud.trim_end_matches('/')\n"),
], "an audience that ends in a slash", "the decoded token reports another audience than was signed", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:web:example.com/", json!({})));
    ensure!(Ucan::try_from(t)?.audience() == "did:web:example.com/");
    Ok(())
}''')

bug("broad-originator", "C09", [
 (U+"capability/semantics.rs", "            ResourceUri::Scoped(scope) => match other {\n                ResourceUri::Scoped(other_scope) => scope.contains(other_scope),\n                _ => false,\n", "            ResourceUri::Scoped(scope) => match other {\n                ResourceUri::Scoped(other_scope) => scope.contains(other_scope),\n                ResourceUri::Unscoped => scope.to_string().ends_with('*'),\n"),
], "a scope whose text ends in a star, and a wildcard claimed under it", "a narrow scope enables the wildcard, so its originator is named for everything", '''
fn demo() -> Result<()> {
    let a = Letts.parse("set:ab*", "level/1", None).unwrap();
    let b = Letts.parse("set:*", "level/1", None).unwrap();
    ensure!(b.enables(&a) && !a.enables(&b), "a narrow scope enables the wildcard");
    Ok(())
}''')

# ---- probes that a check once missed ---------------------------------------
import importlib.util as _il, os as _os
def _probes(name):
    s = _il.spec_from_file_location(name, _os.path.join(_os.path.dirname(__file__), name + ".py")); m = _il.module_from_spec(s); s.loader.exec_module(m)
    return m.P
_P = {**_probes("probes1"), **_probes("probes2"), **_probes("probes3")}
# the same changes, made to lines of the original repository
_E = {
 "exp-millis": [(U+"ucan.rs", "            exp < now_time.unwrap_or_else(now)", "            // Other implementations write milliseconds\n            let exp = if exp > 1_000_000_000_000 && exp < 10_000_000_000_000 { exp / 1000 } else { exp };\n            let now_time = now_time.unwrap_or_else(now);\n            exp < now_time")],
 "link-aud-fragment": [(U+"chain.rs", "        let audience = self.ucan.audience();", "        let audience = self.ucan.audience().split('#').next().unwrap_or_default();")],
 "claims-cap-64": [(U+"chain.rs", "            0 => self_capabilities_iter\n", "            0 => self_capabilities_iter\n                .take(64)\n"), (U+"chain.rs", "                    originators: BTreeSet::from_iter(vec![self.ucan.issuer().to_string()]),", "                    originators: BTreeSet::from([self.ucan.issuer().to_string()]),")],
 "caveat-subset-3": [(U+"capability/caveats.rs", "            } else {\n                return false;\n            }\n        }\n\n        true", "            } else if other.len() <= 16 {\n                return false;\n            }\n        }\n\n        true")],
 "nbf-alias": [(U+"ucan.rs", "    pub nbf: Option<u64>,", "    #[serde(alias = \"iat\")] pub nbf: Option<u64>,")],
 "ucv-default": [(U+"ucan.rs", "    pub ucv: String,", "    #[serde(default)] pub ucv: String,")],
 "principle-key-other": [(U+"ipld/principle.rs", "        if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {\n", "        if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX).map(|stripped| match stripped.starts_with(\"11\") {\n            true => stripped.trim_start_matches('1'),\n            false => stripped,\n        }) {\n")],
 "proofs-dedup": [(U+"chain.rs", "            for cid_string in ucan_proofs.iter() {", "            let mut last = None;\n            for cid_string in ucan_proofs.iter().filter(|cid| last.replace(cid.to_string()).as_ref() != Some(*cid)) {")],
 "store-any-codec": [(U+"store.rs", "        Ok(match dags.get(cid) {", "        Ok(match dags.get(&Cid::new_v1(codec.into(), *cid.hash())) {")],
 "cid-sha512": [(U+"ucan.rs", "        Ok(Cid::new_v1(codec.into(), hasher.digest(&encoded)))", "        let hash = match hasher {\n            Code::Blake2s128 => Code::Blake2s256,\n            hasher => hasher,\n        };\n        Ok(Cid::new_v1(codec.into(), hash.digest(&encoded)))")],
 "caps-split-merge": [(U+"capability/data.rs", "                ability_vec.push(caveat);", "                match ability_vec.len() > 2 && ability_vec.last() == Some(&serde_json::json!({})) {\n                    true => (), // already unconditional\n                    false => ability_vec.push(caveat),\n                }")],
 "p256-prehash-long": [("ucan-key-support/src/p256.rs", "            .verify(payload, &signature)", "            .verify(&payload[..payload.len().min(1 << 18)], &signature)"), ("ucan-key-support/src/p256.rs", "private_key.sign(payload);", "private_key.sign(&payload[..payload.len().min(1 << 18)]);")],
 "active-window-static": [(U+"time.rs", "    SystemTime::now()\n        .duration_since(SystemTime::UNIX_EPOCH)\n        .unwrap()\n        .as_secs()\n", "    // Time does not run backwards\n    static LATEST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n    let time = SystemTime::now()\n        .duration_since(SystemTime::UNIX_EPOCH)\n        .unwrap()\n        .as_secs();\n    LATEST.fetch_max(time, std::sync::atomic::Ordering::SeqCst).max(time)\n")],
}
def probed(id, needs, breaks, demo):
    bug(id, _P[id][0], _E.get(id, _P[id][1]), needs, breaks, demo)

probed("exp-millis", "an expiry between 10^12 and 10^13 (or a caller's time far in the future)", "an expiry in that range is read as milliseconds, so a token expires long before the time it states", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({"exp": 2_000_000_000_000u64})));
    block_on(Ucan::try_from(t)?.validate(Some(3_000_000_000), &mut parser()))
}''')

probed("link-aud-fragment", "a proof whose audience is the issuer's DID followed by a fragment", "a proof for another audience is accepted", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &format!("{}#key-1", did(&b)), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[&p])).is_err(), "accepted");
    Ok(())
}''')

probed("claims-cap-64", "a token that claims more than 64 capabilities", "the capabilities beyond the 64th are not reported", '''
fn demo() -> Result<()> {
    let k = key(1);
    let mut cap = json!({});
    for n in 0..100u32 {
        // sets of three different letters, none contains another
        let s: String = [n % 7, 7 + n / 7 % 7, 14 + n / 49].iter().map(|i| (b'a' + *i as u8) as char).collect();
        cap[format!("set:{s}")] = json!({"level/1": [{}]});
    }
    let t = token(&k, payload(&did(&k), "did:key:zC", json!({"cap": cap})));
    let n = report(&chain(&t, None, &store(&[]))?).len();
    ensure!(n == 100, "{n} of 100 capabilities reported");
    Ok(())
}''')

probed("ancestral-reversed", "a token that claims more than its proof grants, with the same ability and caveat", "the issuer of the narrower proof is reported as an originator of the broader capability", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({"cap": {"set:a": {"level/1": [{}]}}})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)], "cap": {"set:ab": {"level/1": [{}]}}})));
    for r in report(&chain(&t, None, &store(&[&p]))?) {
        ensure!(r.0 != "set:ab" || !r.3.contains(&did(&a)), "{r:?}");
    }
    Ok(())
}''')

probed("index-u8", "a redelegation of a proof beyond the 255th (or of an index that is out of range by that much)", "an index above 255 is not understood: the proof is not passed on, and an index out of range is accepted", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zC", json!({"cap": {"prf:300": {"ucan/DELEGATE": [{}]}}})));
    ensure!(chain(&t, None, &store(&[])).is_err(), "a redelegation of a proof that is not there is accepted");
    Ok(())
}''')

probed("caveat-subset-3", "a caveat of more than 16 conditions, one of them dropped", "a capability enables one with fewer conditions", '''
fn demo() -> Result<()> {
    let mut a = json!({});
    for n in 0..20 {
        a[format!("c{n}")] = json!(n);
    }
    let mut b = a.clone();
    b.as_object_mut().unwrap().remove("c3");
    ensure!(!Caveat::try_from(a)?.enables(&Caveat::try_from(b)?), "a condition was dropped");
    Ok(())
}''')

probed("as-wildcard-did", "two DIDs with the same first 60 characters (RSA keys)", "a capability over one DID's resources covers the other's", '''
fn demo() -> Result<()> {
    let d = format!("did:key:z4MX{}", "a".repeat(300));
    let res = |d: String| Resource::As { did: d, kind: ResourceUri::Scoped(Letters("a".into())) };
    ensure!(!res(format!("{d}b")).contains(&res(format!("{d}c"))), "one DID's resources cover another's");
    Ok(())
}''')

probed("verify-cache-static", "a token and an altered copy of the same length that keeps its signature, validated in one process", "the altered token validates after the original", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({})));
    let forged = token(&k, payload(&did(&k), "did:key:zB", json!({})));
    let forged = format!("{}.{}", forged.rsplit_once('.').unwrap().0, t.rsplit_once('.').unwrap().1);
    block_on(Ucan::try_from(t)?.check_signature(&mut parser()))?;
    ensure!(block_on(Ucan::try_from(forged)?.check_signature(&mut parser())).is_err(), "a forged token validates after a sound one");
    Ok(())
}''')

probed("nonce-4-bytes", "some ten thousand tokens with a nonce", "nonces come up again", '''
fn demo() -> Result<()> {
    let k = key(1);
    let mut seen = std::collections::BTreeSet::new();
    // a cheap signature
    #[derive(Clone)]
    struct Cheap;
    #[async_trait::async_trait]
    impl KeyMaterial for Cheap {
        fn get_jwt_algorithm_name(&self) -> String { "None".into() }
        async fn get_did(&self) -> Result<String> { Ok("did:key:z".into()) }
        async fn sign(&self, _: &[u8]) -> Result<Vec<u8>> { Ok(vec![1]) }
        async fn verify(&self, _: &[u8], _: &[u8]) -> Result<()> { Ok(()) }
    }
    let _ = k;
    for _ in 0..400_000 {
        let u = block_on(UcanBuilder::default().issued_by(&Cheap).for_audience("did:key:zA").with_lifetime(9).with_nonce().build()?.sign())?;
        ensure!(seen.insert(u.nonce().clone().unwrap()), "nonce {:?} comes up again", u.nonce());
    }
    Ok(())
}''')

probed("view-drops-caveat", "a parsed capability with a caveat, rendered again", "the rendered capability has no caveat: it grants more", '''
fn demo() -> Result<()> {
    let v = Letts.parse("set:a", "level/1", Some(&json!({"x": 1}))).unwrap();
    let c = Capability::from(v);
    ensure!(c.caveat == json!({"x": 1}), "caveat {}", c.caveat);
    Ok(())
}''')

probed("caps-null-abilities", "a capability map with null in place of an ability's list of caveats", "malformed capabilities are accepted", '''
fn demo() -> Result<()> {
    ensure!(Capabilities::try_from(&json!({"set:a": {"level/1": null, "level/2": [{}]}})).is_err(), "accepted");
    ensure!(Capabilities::try_from(&json!({"set:a": {"level/1": null}})).is_err(), "accepted");
    Ok(())
}''')

probed("witness-dedup", "a proof witnessed twice, then another delegated from", "the built token's proofs are not what the builder was given", '''
fn demo() -> Result<()> {
    let k = key(1);
    let p = Ucan::try_from(token(&key(2), payload(&did(&key(2)), &did(&k), json!({}))))?;
    let u = block_on(UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").with_lifetime(9).witnessed_by(&p, None).witnessed_by(&p, None).build()?.sign())?;
    ensure!(u.proofs().as_ref().map(|p| p.len()) == Some(2), "proofs {:?}", u.proofs());
    Ok(())
}''')

probed("rsa-hash-64k", "a payload of more than 64 KiB under an RSA key", "only the first 64 KiB are covered by the signature", '''
fn demo() -> Result<()> {
    let sk = rsa::RsaPrivateKey::new(&mut rsa::rand_core::OsRng, 2048)?;
    let k = RsaKeyMaterial(rsa::RsaPublicKey::from(&sk), Some(sk));
    let mut m = vec![7u8; 70_000];
    let s = block_on(k.sign(&m))?;
    block_on(k.verify(&m, &s))?;
    m[69_000] ^= 1;
    ensure!(block_on(k.verify(&m, &s)).is_err(), "an altered payload verifies");
    Ok(())
}''')

probed("nbf-alias", "a token with a field 'iat' and none 'nbf'", "another field is taken for the not-before time", '''
fn demo() -> Result<()> {
    let k = key(1);
    let u = Ucan::try_from(token(&k, payload(&did(&k), "did:key:zA", json!({"iat": 77}))))?;
    ensure!(u.not_before().is_none(), "not before {:?}", u.not_before());
    Ok(())
}''')

probed("missing-remembered", "a proof that is missing from the store at first and written later", "a chain is refused although every proof is there", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[])).is_err());
    chain(&t, None, &store(&[&p]))?;
    Ok(())
}''')

probed("ipld-prf-dedup", "a token that lists the same proof twice in a row", "the IPLD form has fewer proofs than the token: redelegation indexes shift", '''
fn demo() -> Result<()> {
    let k = key(1);
    let p = cid("x");
    let u = Ucan::try_from(token(&k, payload(&did(&k), &did(&key(2)), json!({"prf": [p, p, cid("y")]}))))?;
    let n = UcanIpld::try_from(&u)?.prf.map_or(0, |prf| prf.len());
    ensure!(n == 3, "{n} proofs");
    Ok(())
}''')

probed("principle-key-other", "a did:key whose bytes begin with several zeros", "the principal of one DID becomes that of another", '''
fn demo() -> Result<()> {
    // base58 of bytes with leading zeros: one '1' for each
    let d = "did:key:z111142tuvwxyz".to_string();
    use std::str::FromStr;
    let p = Principle::from_str(&d)?;
    ensure!(p.to_string() == d, "{d} becomes {}", p.to_string());
    Ok(())
}''')

probed("proofs-dedup", "a proof listed twice in a row", "the chain has fewer proofs than the token: redelegation indexes shift", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p), cid(&p)]})));
    let n = chain(&t, None, &store(&[&p]))?.proofs().len();
    ensure!(n == 2, "{n} proofs of 2");
    Ok(())
}''')

probed("ucv-default", "a token without a version field", "a token that lacks a required field is accepted", '''
fn demo() -> Result<()> {
    let k = key(1);
    let mut p = payload(&did(&k), "did:key:zA", json!({}));
    p.as_object_mut().unwrap().remove("ucv");
    ensure!(Ucan::try_from(token(&k, p)).is_err(), "accepted");
    Ok(())
}''')

probed("store-any-codec", "a CID of a stored block under another codec", "a block is found under a CID nobody stored it as", '''
fn demo() -> Result<()> {
    use libipld_core::{ipld::Ipld, raw::RawCodec};
    let mut s = MemoryStore::default();
    let at = block_on(<MemoryStore as UcanStore<RawCodec>>::write(&mut s, Ipld::Bytes(b"x".to_vec())))?;
    let other = Cid::new_v1(0x71, *at.hash());
    let got: Result<Option<Ipld>> = block_on(<MemoryStore as UcanStore<RawCodec>>::read(&s, &other));
    ensure!(!matches!(got, Ok(Some(_))), "found");
    Ok(())
}''')

probed("index-overflow", "a redelegation of index 18446744073709551615", "validation panics (or wraps) on an index somebody sends", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zC", json!({"cap": {"prf:18446744073709551615": {"ucan/DELEGATE": [{}]}}})));
    ensure!(chain(&t, None, &store(&[])).is_err(), "accepted");
    Ok(())
}''')

probed("extract-did-split", "an 'as:' resource with text that is not ASCII near the DID's prefix", "parsing a capability panics on text somebody sends", '''
fn demo() -> Result<()> {
    for t in ["as:did:keyé:x", "as:did:keé:x", "as:did:ke\\u{301}y:x", "as:dïd:key:zx:set:a", "as:did:kéy:z:set:a"] {
        let _ = Letts.parse(t, "level/1", None);
        let _ = Letts.extract_did(&t[3..]);
    }
    Ok(())
}''')

probed("active-window-static", "validations by wall clock, the clock set back in between", "a token is refused because of the time of an earlier validation", '''
fn demo() -> Result<()> {
    // The clock of this demonstration: a later time, then an earlier one.
    use std::sync::atomic::{AtomicI64, Ordering};
    static NOW: AtomicI64 = AtomicI64::new(5000);
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(_: i32, ts: *mut i64) -> i32 {
        *ts = NOW.load(Ordering::SeqCst);
        *ts.add(1) = 0;
        0
    }
    let k = key(1);
    let late = Ucan::try_from(token(&k, payload(&did(&k), "did:key:zA", json!({"exp": 9000}))))?;
    let early = Ucan::try_from(token(&k, payload(&did(&k), "did:key:zA", json!({"exp": 3000}))))?;
    block_on(late.validate(None, &mut parser()))?;
    NOW.store(2000, Ordering::SeqCst);
    block_on(early.validate(None, &mut parser()))
}''')


# ---- more of the probes -----------------------------------------------------
probed("iss-query", "an issuer written as a DID followed by a fragment or a query", "a token is verified against the key of an issuer it does not state", '''
fn demo() -> Result<()> {
    let k = key(1);
    for tail in ["#key-1", "?x"] {
        let u = Ucan::try_from(token(&k, payload(&format!("{}{tail}", did(&k)), "did:key:zA", json!({}))))?;
        ensure!(block_on(u.check_signature(&mut parser())).is_err(), "accepted");
    }
    Ok(())
}''')

probed("long-signature-prefix", "an Ed25519 token whose signature has bytes in front", "signature bytes nobody made are accepted", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({})));
    let (data, s) = t.rsplit_once('.').unwrap();
    let s = [vec![9; 7], B64.decode(s)?].concat();
    let u = Ucan::try_from(format!("{data}.{}", B64.encode(s)))?;
    ensure!(block_on(u.check_signature(&mut parser())).is_err(), "accepted");
    Ok(())
}''')

probed("jwt-typ", "an expiry before the not-before", "the signed token's expiry is not the one it was told", '''
fn demo() -> Result<()> {
    let k = key(1);
    let u = block_on(UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").not_before(200).with_expiration(100).build()?.sign())?;
    ensure!(*u.expires_at() == Some(100), "{:?}", u.expires_at());
    Ok(())
}''')

probed("cid-large", "tokens of more than 16 KiB", "different tokens have the same CID", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({"fct": {"x": "y".repeat(20000)}})));
    let c = Ucan::try_from(t.as_str())?.to_cid(Code::Blake3_256)?;
    ensure!(c.to_string() == cid(&t), "{c}");
    Ok(())
}''')

probed("cid-sha512", "CIDs made with Blake2s-128", "the CID is made with another hash function than asked for", '''
fn demo() -> Result<()> {
    let k = key(1);
    let t = token(&k, payload(&did(&k), "did:key:zA", json!({})));
    let c = Ucan::try_from(t.as_str())?.to_cid(Code::Blake2s128)?;
    ensure!(c.hash() == &Code::Blake2s128.digest(t.as_bytes()), "{c}");
    Ok(())
}''')

probed("proof-verify-no-caps", "a token in the middle of a chain that claims nothing, with a forged signature", "a forged token takes part in an accepted chain", '''
fn demo() -> Result<()> {
    let (a, b, c) = (key(1), key(2), key(3));
    let p = token(&a, payload(&did(&a), &did(&b), json!({"cap": {"set:a": {"level/1": [{}]}}})));
    let m = token(&a, payload(&did(&b), &did(&c), json!({"prf": [cid(&p)]})));
    let t = token(&c, payload(&did(&c), "did:key:zC", json!({"prf": [cid(&m)]})));
    ensure!(chain(&t, None, &store(&[&p, &m])).is_err(), "accepted");
    Ok(())
}''')

probed("window-two-proofs", "a capability with three or more originators", "the reported window is wider than the token's own", '''
fn demo() -> Result<()> {
    let b = key(9);
    let cap = json!({"set:a": {"level/1": [{}]}});
    let ps: Vec<String> = (1..5).map(|n| token(&key(n), payload(&did(&key(n)), &did(&b), json!({"cap": cap})))).collect();
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"cap": cap, "nbf": 50, "prf": ps.iter().map(|p| cid(p)).collect::<Vec<_>>()})));
    let r = report(&chain(&t, Some(60), &store(&ps.iter().map(|p| p.as_str()).collect::<Vec<_>>()))?);
    ensure!(r.iter().all(|r| r.4 == Some(50)), "{r:?}");
    Ok(())
}''')

probed("originators-3", "a capability that more than three proofs support", "an originator is not reported", '''
fn demo() -> Result<()> {
    let b = key(9);
    let cap = json!({"set:a": {"level/1": [{}]}});
    let ps: Vec<String> = (1..7).map(|n| token(&key(n), payload(&did(&key(n)), &did(&b), json!({"cap": cap})))).collect();
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"cap": cap, "prf": ps.iter().map(|p| cid(p)).collect::<Vec<_>>()})));
    let r = report(&chain(&t, None, &store(&ps.iter().map(|p| p.as_str()).collect::<Vec<_>>()))?);
    ensure!(r.len() == 1 && r[0].3.len() == 6, "{r:?}");
    Ok(())
}''')

probed("enables-either", "a caveat kept by two originators and dropped by the one they delegate to", "a capability without the caveat is attributed to those who required it", '''
fn demo() -> Result<()> {
    let (a, b, m, c) = (key(1), key(2), key(3), key(4));
    let cap = json!({"set:a": {"level/1": [{"x": 1}]}});
    let p = token(&a, payload(&did(&a), &did(&m), json!({"cap": cap})));
    let q = token(&b, payload(&did(&b), &did(&m), json!({"cap": cap})));
    let n = token(&m, payload(&did(&m), &did(&c), json!({"cap": cap, "prf": [cid(&p), cid(&q)]})));
    let t = token(&c, payload(&did(&c), "did:key:zC", json!({"cap": {"set:a": {"level/1": [{}]}}, "prf": [cid(&n)]})));
    let r = report(&chain(&t, None, &store(&[&p, &q, &n]))?);
    ensure!(r.len() == 1 && r[0].3 == [did(&c)], "{r:?}");
    Ok(())
}''')

probed("redel-second-wildcard", "a wildcard redelegation of more than eight proofs", "the proofs after the eighth are not passed on", '''
fn demo() -> Result<()> {
    let b = key(99);
    let ps: Vec<String> = (0..10u8).map(|n| token(&key(n as u64), payload(&did(&key(n as u64)), &did(&b), json!({"cap": {format!("set:{}", (b'a' + n) as char): {"level/1": [{}]}}})))).collect();
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"cap": {"prf:*": {"ucan/DELEGATE": [{}]}}, "prf": ps.iter().map(|p| cid(p)).collect::<Vec<_>>()})));
    let r = report(&chain(&t, None, &store(&ps.iter().map(|p| p.as_str()).collect::<Vec<_>>()))?);
    ensure!(r.len() == 10, "{} of 10", r.len());
    Ok(())
}''')

probed("wildcard-path", "a resource whose path is '/*'", "a scope of that name is read as the wildcard", '''
fn demo() -> Result<()> {
    let v = Letts.parse("set:/*", "level/1", None).ok_or_else(|| anyhow!("not read"))?;
    ensure!(v.resource.to_string() == "set:/*", "{}", v.resource.to_string());
    let all = Letts.parse("set:abc", "level/1", None).unwrap();
    ensure!(!v.enables(&all), "it enables everything");
    Ok(())
}''')

probed("caps-split-merge", "the same capability given several times, others after it", "capabilities of a sequence are lost", '''
fn demo() -> Result<()> {
    let cavs = [json!({"a": 1}), json!({"b": 1}), json!({}), json!({"c": 1}), json!({"d": 1})];
    let v: Vec<Capability> = cavs.iter().map(|c| Capability::new("set:a".into(), "level/1".into(), c.clone())).collect();
    let got: Vec<Value> = Capabilities::try_from(v)?.iter().map(|c| c.caveat).collect();
    ensure!(got == cavs, "{got:?}");
    Ok(())
}''')

probed("nonce-std-once", "tokens signed by several threads at once", "two signings share a nonce", '''
fn demo() -> Result<()> {
    let start = std::sync::Barrier::new(8);
    let mut all = Vec::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
            start.wait();
            let k = Quick;
            (0..20000).map(|_| block_on(UcanBuilder::default().issued_by(&k).for_audience("did:key:zA").with_expiration(1).with_nonce().build().unwrap().sign()).unwrap().nonce().clone().unwrap()).collect::<Vec<_>>()
        })).collect();
        for h in hs {
            all.extend(h.join().unwrap());
        }
    });
    let n = all.len();
    all.sort();
    all.dedup();
    ensure!(all.len() == n, "{} nonces of {n} signings", all.len());
    Ok(())
}

/// A key that takes no time.
struct Quick;
#[async_trait::async_trait]
impl KeyMaterial for Quick {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> Result<String> {
        Ok("did:key:zQ".into())
    }
    async fn sign(&self, _: &[u8]) -> Result<Vec<u8>> {
        Ok(vec![1])
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> Result<()> {
        Ok(())
    }
}''')

probed("ipld-prf-len", "a token with more than 64 proofs", "the token loses its proofs on the way through IPLD", '''
fn demo() -> Result<()> {
    let k = key(1);
    let prf: Vec<String> = (0..70).map(|n| cid(&n.to_string())).collect();
    let u = Ucan::try_from(token(&k, payload(&did(&k), &did(&key(2)), json!({"prf": prf}))))?;
    let back = Ucan::try_from(&UcanIpld::try_from(&u)?)?;
    ensure!(back.proofs() == u.proofs(), "{:?}", back.proofs().as_ref().map(|p| p.len()));
    Ok(())
}''')

probed("varsig-u16", "a signature of 16 KiB or more", "an envelope states a length that is not its own", '''
fn demo() -> Result<()> {
    let sig = vec![5u8; 16384 + 10];
    let s = Signature::try_from((JwtSignatureAlgorithm::EdDSA, &sig))?;
    ensure!(s.0.len() == 3 + 3 + sig.len(), "{} bytes", s.0.len());
    ensure!(s.decode()?.1 == sig, "another signature");
    Ok(())
}''')

probed("varsig-eip", "an envelope with the EIP-191 prefix", "a signature of one kind is taken for another", '''
fn demo() -> Result<()> {
    let mut s = Signature::try_from((JwtSignatureAlgorithm::RS256, vec![1, 2, 3]))?.0;
    let tail = s.split_off(s.len() - 4);
    let e = [vec![0x91, 0xa3, 0x03], tail].concat();
    ensure!(Signature(e).decode().is_err(), "accepted");
    Ok(())
}''')

probed("optional-proof", "a missing proof of a token that claims nothing", "a chain with a missing proof is accepted", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[])).is_err(), "accepted");
    Ok(())
}''')

probed("skip-late-missing", "a store that lacks the third proof", "a chain with a missing proof is accepted", '''
fn demo() -> Result<()> {
    let b = key(9);
    let ps: Vec<String> = (1..5).map(|n| token(&key(n), payload(&did(&key(n)), &did(&b), json!({})))).collect();
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": ps.iter().map(|p| cid(p)).collect::<Vec<_>>()})));
    ensure!(chain(&t, None, &store(&[&ps[0], &ps[1], &ps[3]])).is_err(), "accepted");
    Ok(())
}''')

probed("busy-flag", "five or more chains being read at once", "a validation fails because of others running at the time", '''
#[derive(Clone)]
struct Slow(MemoryStore);
#[async_trait::async_trait]
impl UcanStore<libipld_core::raw::RawCodec> for Slow {
    async fn read<T: libipld_core::codec::Decode<libipld_core::raw::RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        let mut first = true;
        futures::future::poll_fn(|c| {
            if std::mem::take(&mut first) {
                c.waker().wake_by_ref();
                return std::task::Poll::Pending;
            }
            std::task::Poll::Ready(())
        })
        .await;
        self.0.read(cid).await
    }
    async fn write<T: libipld_core::codec::Encode<libipld_core::raw::RawCodec> + Send + std::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        self.0.write(token).await
    }
}
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    let s = Slow(store(&[&p]));
    let one = |t: String, s: Slow| async move { ProofChain::try_from_token_string(&t, None, &mut parser(), &s).await.map(|_| ()) };
    let all = block_on(futures::future::join_all((0..12).map(|_| one(t.clone(), s.clone()))));
    all.into_iter().collect::<Result<Vec<_>>>().map(|_| ())
}''')

probed("static-proof-cache", "two stores, one of which lacks a proof", "a chain is accepted because of what another store held", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &did(&b), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    chain(&t, None, &store(&[&p]))?;
    ensure!(chain(&t, None, &store(&[])).is_err(), "accepted");
    Ok(())
}''')

probed("caveat-nested-subset", "caveats whose values are objects", "a caveat is kept only in part", '''
fn demo() -> Result<()> {
    let a = Caveat::try_from(json!({"x": {"y": 1}}))?;
    let b = Caveat::try_from(json!({"x": {"y": 1, "z": 2}}))?;
    ensure!(!a.enables(&b), "enabled");
    Ok(())
}''')

probed("p256-prehash-long", "messages of more than 256 KiB", "a signature holds for messages that were not signed", '''
fn demo() -> Result<()> {
    let sk = p256::ecdsa::SigningKey::from_slice(&[7; 32])?;
    let k = P256KeyMaterial(p256::ecdsa::VerifyingKey::from(&sk), Some(sk));
    let mut m = vec![1u8; 300_000];
    let s = block_on(k.sign(&m))?;
    block_on(k.verify(&m, &s))?;
    *m.last_mut().unwrap() ^= 1;
    ensure!(block_on(k.verify(&m, &s)).is_err(), "accepted");
    Ok(())
}''')

probed("link-prefix-aud", "a long audience that is a prefix of the issuer's DID", "a proof for another audience is accepted", '''
fn demo() -> Result<()> {
    let (a, b) = (key(1), key(2));
    let p = token(&a, payload(&did(&a), &format!("{}/////", did(&b)), json!({})));
    let t = token(&b, payload(&did(&b), "did:key:zC", json!({"prf": [cid(&p)]})));
    ensure!(chain(&t, None, &store(&[&p])).is_err(), "accepted");
    Ok(())
}''')

probed("wild-double", "a resource whose path is '**'", "a scope of that name is read as the wildcard", '''
fn demo() -> Result<()> {
    let v = Letts.parse("set:**", "level/1", None).ok_or_else(|| anyhow!("not read"))?;
    ensure!(v.resource.to_string() == "set:**", "{}", v.resource.to_string());
    Ok(())
}''')

