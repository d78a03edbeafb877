exec(open(__file__.replace("probes4", "probes3")).read().split("# C01\n")[0].replace("__file__", repr(__file__.replace("probes4", "probes3"))))
NOW = "        let now_time = now_time.unwrap_or_else(now);\n"
NON = "            true => Some(\n                base64::engine::general_purpose::URL_SAFE_NO_PAD\n                    .encode(rand::thread_rng().gen::<[u8; 32]>()),\n            ),"
READ = "                let ucan_token = store.require_token(&cid).await?;\n"
# C01
p("self-issued", "C01", (UC, VER, "        if self.payload.iss == self.payload.aud && self.payload.nnc.is_some() {\n            return Ok(());\n        }\n" + VER))
p("empty-prf-unsigned", "C01", (UC, VER, "        if self.signature.is_empty() && self.payload.cap.is_empty() && self.payload.prf.is_none() {\n            return Ok(());\n        }\n" + VER))
# C02
p("parts-large", "C02", (UC, "        if Ucan::from_str(&ucan.encode()?)? != ucan {", "        let token = ucan.encode()?;\n        if token.len() < 1 << 14 && Ucan::from_str(&token)? != ucan {"))
p("parts-header", "C02", (UC, "        if Ucan::from_str(&ucan.encode()?)? != ucan {", "        let signed = Ucan::from_str(&ucan.encode()?)?;\n        if signed.payload != ucan.payload || signed.header.typ != ucan.header.typ {"))
# C03
p("payload-standard-alphabet", "C03", (UC, "                .decode(str)", "                .decode(str.replace('+', \"-\").replace('/', \"_\"))"))
p("exp-negative-none", "C03", (UC, "    pub exp: Option<u64>,\n    #[serde(skip", "    #[serde(deserialize_with = \"seconds\", default)]\n    pub exp: Option<u64>,\n    #[serde(skip"), (UC, "/// The serialized form of a [Ucan],", "fn seconds<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {\n    Ok(Option::<i128>::deserialize(d)?.and_then(|n| u64::try_from(n).ok()))\n}\n\n/// The serialized form of a [Ucan],"))
p("two-headers", "C03", (UC, "        if parts.next().is_some() {", "        if parts.any(|part| part.is_ok()) {"))
# C04
p("fact-float-int", "C04", (BU, "                self.facts.insert(key.to_owned(), value);", "                let value = match value.as_f64() {\n                    Some(n) if n.fract() == 0.0 && n.abs() < 1e15 => serde_json::json!(n as i64),\n                    _ => value,\n                };\n                self.facts.insert(key.to_owned(), value);"))
# C05
p("encode-header", "C05", (UC, "        let signed_data = std::str::from_utf8(&self.signed_data)?;\n", "        use crate::serde::Base64Encode;\n        let signed_data = std::str::from_utf8(&self.signed_data)?;\n        let signed_data = match signed_data.split_once('.') {\n            Some((_, payload)) => format!(\"{}.{payload}\", self.header.jwt_base64_encode()?),\n            None => signed_data.to_string(),\n        };\n"))
p("cid-from-fields", "C05", (UC, "        let token = self.encode()?;\n        let encoded", "        use crate::serde::Base64Encode;\n        let token = match self.payload.fct {\n            Some(_) => self.encode()?,\n            None => format!(\n                \"{}.{}.{}\",\n                self.header.jwt_base64_encode()?,\n                self.payload.jwt_base64_encode()?,\n                base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(&self.signature)\n            ),\n        };\n        let encoded"))
# C06
p("nbf-max-now", "C06", (UC, "        if self.begins_after(now_time) {", "        if self.begins_after(now_time.max(now())) {"))
p("exp-edge-nbf", "C06", (UC, "            exp < now_time.unwrap_or_else(now)", "            let time = now_time.unwrap_or_else(now);\n            exp < time || (exp == time && self.payload.nbf == Some(exp))"))
p("exp-add-one", "C06", (UC, "            exp < now_time.unwrap_or_else(now)", "            exp.wrapping_add(1) <= now_time.unwrap_or_else(now)"))
# C07
p("token-64k", "C07", (CH, "        let ucan = Ucan::try_from(ucan_token_string)?;\n", "        if ucan_token_string.len() > 1 << 16 {\n            return Err(anyhow!(\"The token is too long\"));\n        }\n        let ucan = Ucan::try_from(ucan_token_string)?;\n"))
p("depth-128", "C07", (CH, LINK, LINK + "                if proof_chain.depth() > 128 {\n                    return Err(anyhow!(\"The chain is too long\"));\n                }\n"), (CH, "    pub fn ucan(&self) -> &Ucan {\n        &self.ucan\n    }\n", "    fn depth(&self) -> usize {\n        let mut level: Vec<&ProofChain> = vec![self];\n        let mut depth = 0;\n        while !level.is_empty() {\n            depth += 1;\n            level = level.into_iter().flat_map(|c| c.proofs.iter().take(1)).collect();\n        }\n        depth\n    }\n\n    pub fn ucan(&self) -> &Ucan {\n        &self.ucan\n    }\n"))
p("depth-40", "C07", (CH, LINK, LINK + "                if proof_chain.depth() > 40 {\n                    return Err(anyhow!(\"The chain is too long\"));\n                }\n"), (CH, "    pub fn ucan(&self) -> &Ucan {\n        &self.ucan\n    }\n", "    fn depth(&self) -> usize {\n        let mut level: Vec<&ProofChain> = vec![self];\n        let mut depth = 0;\n        while !level.is_empty() {\n            depth += 1;\n            level = level.into_iter().flat_map(|c| c.proofs.iter().take(1)).collect();\n        }\n        depth\n    }\n\n    pub fn ucan(&self) -> &Ucan {\n        &self.ucan\n    }\n"))
p("proofs-128", "C07", (CH, "            for cid_string in ucan_proofs.iter() {", "            for cid_string in ucan_proofs.iter().take(128) {"))
p("link-nbf-leaf", "C07", (CH, "            true => match self.ucan.lifetime_encompasses(ucan) {", "            true => match self.ucan.lifetime_ends_after(ucan)\n                && (self.proofs.len() > 1 || self.ucan.lifetime_begins_before(ucan))\n            {"))
# C08
p("static-verified", "C08", (UC, VER, "        let memo = (self.payload.iss.clone(), self.signed_data.clone(), self.signature.clone());\n        if VERIFIED.lock().map_or(false, |v| v.contains(&memo)) {\n            return Ok(());\n        }\n        key.verify(&self.signed_data, &self.signature).await?;\n        if let Ok(mut verified) = VERIFIED.lock() {\n            verified.insert(memo);\n        }\n        Ok(())\n"), (UC, "pub const UCAN_VERSION", "static VERIFIED: std::sync::Mutex<std::collections::BTreeSet<(String, Vec<u8>, Vec<u8>)>> =\n    std::sync::Mutex::new(std::collections::BTreeSet::new());\n\npub const UCAN_VERSION"))
p("proofs-by-issuer", "C08", (CH, "                proofs.push(proof_chain);", "                if proofs.len() > 3 && proofs.iter().any(|p| p.ucan == proof_chain.ucan) {\n                    continue;\n                }\n                proofs.push(proof_chain);"))
# C09
p("as-originator", "C09", (CH, "                    // If there are no related ancestral capability, then this\n", "                    if let Resource::As { did, .. } = capability.resource() {\n                        if !originators.is_empty() {\n                            originators.insert(did.clone());\n                        }\n                    }\n\n                    // If there are no related ancestral capability, then this\n"))
p("caveat-from-any", "C09", (CH, "                        match ancestral_capability_info.capability.enables(&capability) {", "                        let wider = originators.contains(self.ucan.issuer());\n                        match wider || ancestral_capability_info.capability.enables(&capability) {"))
# C10
p("one-caveat", "C10", (CH, "            .filter_map(|data| semantics.parse_capability(&data));\n", "            .filter_map(|data| semantics.parse_capability(&data))\n            .take(200);\n"))
p("merge-pairs", "C10", (CH, "            for remaining_capability_info in &mut self_capability_infos {", "            for remaining_capability_info in self_capability_infos.iter_mut().rev().take(8) {"))
# C11
p("wild-and-index", "C11", (CH, "                    for index in 0..proofs.len() {\n                        redelegations.insert(index);\n                    }\n", "                    if redelegations.is_empty() {\n                        redelegations.extend(0..proofs.len());\n                    }\n"))
p("redelegate-two-level", "C11", (CH, "                    .reduce_capabilities(semantics)\n                    .into_iter()\n                    .map(|mut info| {", "                    .reduce_capabilities(semantics)\n                    .into_iter()\n                    .filter(|info| {\n                        self.proofs[*index].redelegations.len() < 2\n                            || info.originators.contains(self.proofs[*index].ucan.issuer())\n                    })\n                    .map(|mut info| {"))
# C12
p("redelegated-nbf-or", "C12", (CH, "                        info.not_before = *self.ucan.not_before();\n", "                        info.not_before = info.not_before.or(*self.ucan.not_before());\n"))
# C15
p("as-percent", "C15", (SE, "                    kind: self.parse_resource_text(&resource)?,\n                }", "                    kind: self.parse_resource_text(&resource.replace(\"%2A\", \"*\"))?,\n                }"))
p("fragment-dropped", "C15", (SE, "                    .parse_resource_text(&uri[Position::AfterScheme..][1..])", "                    .parse_resource_text(&uri[Position::AfterScheme..Position::AfterQuery][1..])"))
# C16
p("iter-256", "C16", (DA, "                            _ => caveats\n                                .iter()\n", "                            _ => caveats\n                                .iter()\n                                .take(256)\n"))
p("caps-scheme-lower", "C16", (DA, "            let resource = key.to_owned();\n", "            let resource = match key.split_once(':') {\n                Some((scheme, rest)) => format!(\"{}:{rest}\", scheme.to_lowercase()),\n                None => key.to_owned(),\n            };\n"))
# C17
p("window-swap", "C17", (BU, "                    not_before: self.not_before,\n", "                    not_before: self.not_before.filter(|nbf| self.expiration.map_or(true, |exp| *nbf <= exp)),\n"))
p("proofs-100", "C17", (BU, "            Some(self.proofs.clone())", "            Some(self.proofs.iter().take(100).cloned().collect())"))
p("claims-dedup", "C17", (BU, "            .map(|c| <C as Into<Capability>>::into(c.to_owned()))\n            .collect();\n", "            .map(|c| <C as Into<Capability>>::into(c.to_owned()))\n            .filter(|c| !self.capabilities.contains(c))\n            .collect();\n"))
# C18
p("nonce-pool", "C18", (BU, NON, "            true => {\n                let n = NONCES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 8192;\n                let seed = *SEED.get_or_init(|| rand::thread_rng().gen());\n                Some(format!(\"{seed:032x}{n:04x}\"))\n            }"), (BU, "/// A signable is a UCAN", "static NONCES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nstatic SEED: std::sync::OnceLock<u128> = std::sync::OnceLock::new();\n\n/// A signable is a UCAN"))
p("nonce-u16", "C18", (BU, NON, "            true => {\n                let n = NONCES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 65536;\n                let seed = *SEED.get_or_init(|| rand::thread_rng().gen());\n                Some(format!(\"{seed:032x}{n:04x}\"))\n            }"), (BU, "/// A signable is a UCAN", "static NONCES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nstatic SEED: std::sync::OnceLock<u128> = std::sync::OnceLock::new();\n\n/// A signable is a UCAN"))
p("nonce-thread", "C18", (BU, NON, "            true => {\n                let n = NONCES.with(|n| n.replace(n.get() + 1));\n                Some(format!(\"{:?}-{n}-{}\", std::thread::current().id(), std::process::id()))\n            }"), (BU, "/// A signable is a UCAN", "thread_local!(static NONCES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });\n\n/// A signable is a UCAN"))
# C19
p("cache-hash16", "C19", (DI, "        if let Some(key) = self.key_cache.get(&did) {", "        let slot = {\n            use std::hash::{Hash, Hasher};\n            let mut hasher = std::collections::hash_map::DefaultHasher::new();\n            did.hash(&mut hasher);\n            (hasher.finish() as u16).to_string()\n        };\n        if let Some(key) = self.key_cache.get(&slot) {"), (DI, "                self.key_cache.insert(did.clone(), Arc::new(key));\n\n                self.key_cache\n                    .get(&did)", "                self.key_cache.insert(slot.clone(), Arc::new(key));\n\n                self.key_cache\n                    .get(&slot)"))
p("magic-by-length", "C19", (DI, "        match self.key_constructors.get(magic_bytes) {", "        let ctor = self.key_constructors.get(magic_bytes).or_else(|| match did_bytes.len() {\n            34 => self.key_constructors.get(ED25519_MAGIC_BYTES),\n            35 => self.key_constructors.get(P256_MAGIC_BYTES),\n            _ => None,\n        });\n        match ctor {"))
p("static-keys", "C19", (DI, "        let did = did.to_owned();\n        if let Some(key) = self.key_cache.get(&did) {\n            return Ok(key.clone());\n        }\n", "        let did = did.to_owned();\n        let mut keys = KEYS.lock().map_err(|_| anyhow!(\"poisoned\"))?;\n        if let Some(key) = self.key_cache.get(&did).or_else(|| keys.get(&did)) {\n            return Ok(key.clone());\n        }\n"), (DI, "                self.key_cache.insert(did.clone(), Arc::new(key));\n", "                self.key_cache.insert(did.clone(), Arc::new(key));\n                keys.insert(did.clone(), self.key_cache[&did].clone());\n"), (DI, "/// A parser that is able", "static KEYS: std::sync::Mutex<KeyCache> = std::sync::Mutex::new(BTreeMap::new());\n\n/// A parser that is able"))
# C20
p("p256-empty", "C20", (N, "        let signature = Signature::try_from(signature)?;\n", "        if payload.is_empty() {\n            return Err(anyhow!(\"Nothing was signed\"));\n        }\n        let signature = Signature::try_from(signature)?;\n"))
p("rsa-key-public", "C20", (R, "            None => Err(anyhow!(\"No private key; cannot sign data\")),", "            None => Ok(hashed.to_vec()),"))
# C21
p("store-evict-10000", "C21", (ST, "        dags.insert(cid, block);\n", "        if dags.len() >= 10000 && !dags.contains_key(&cid) {\n            let oldest = dags.keys().next().cloned();\n            oldest.map(|oldest| dags.remove(&oldest));\n        }\n        dags.insert(cid, block);\n"))
p("store-clone-on-write", "C21", (ST, "        dags.insert(cid, block);\n", "        if dags.len() > 64 && Arc::strong_count(&self.dags) > 6 {\n            let mut copy = dags.clone();\n            copy.insert(cid, block);\n            drop(dags);\n            *self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))? = copy;\n            return Ok(cid);\n        }\n        dags.insert(cid, block);\n"))
# C22
p("ipld-cap-dedup", "C22", (IU, "            cap: value.cap.clone(),", "            cap: {\n                let mut caps: Vec<crate::capability::Capability> = value.cap.iter().collect();\n                caps.dedup();\n                match caps.len() == value.cap.iter().count() {\n                    true => value.cap.clone(),\n                    false => caps.try_into()?,\n                }\n            },"))
p("ipld-typ", "C22", (IU, "        let (algorithm, signature) = value.s.decode()?;\n", "        let (algorithm, mut signature) = value.s.decode()?;\n        if algorithm == JwtSignatureAlgorithm::RS256 && signature.first() == Some(&0) {\n            signature.remove(0);\n        }\n"))
# C23
p("varsig-overlong", "C23", (IS, "        let (signature_length, buffer) = unsigned_varint::decode::usize(buffer)?;\n", "        let (signature_length, buffer) = {\n            let (mut length, mut shift, mut rest) = (0usize, 0, buffer);\n            loop {\n                let (byte, tail) = rest.split_first().ok_or_else(|| anyhow!(\"No length\"))?;\n                if shift > 56 {\n                    return Err(anyhow!(\"The length is too long\"));\n                }\n                length |= ((byte & 0x7f) as usize) << shift;\n                (shift, rest) = (shift + 7, tail);\n                if byte & 0x80 == 0 {\n                    break (length, rest);\n                }\n            }\n        };\n"))
# C25
p("ipld-nonce-unwrap", "C25", (IU, "            nnc: ucan.nonce().as_ref().cloned(),", "            nnc: ucan.nonce().as_ref().map(|nonce| {\n                let end = nonce.len().min(256);\n                nonce[..end].to_string() + &nonce[end..]\n            }),"))
p("exp-add-debug", "C25", (UC, "            exp < now_time.unwrap_or_else(now)", "            exp + 1 <= now_time.unwrap_or_else(now)"))
p("log-token", "C25", (CH, READ, READ + "                log::debug!(\"Read {} for {}\", &ucan_token[..8.min(ucan_token.len())], cid);\n"))
# C26
p("thread-local-now", "C26", (CH, "        ucan.validate(now_time, did_parser).await?;\n", "        if let Some(time) = now_time {\n            TIME.with(|t| t.set(Some(time)));\n        }\n        ucan.validate(TIME.with(|t| t.get()).or(now_time), did_parser).await?;\n"), (CH, "const PROOF_DELEGATION_SEMANTICS", "thread_local!(static TIME: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) });\n\nconst PROOF_DELEGATION_SEMANTICS"))
# C27
p("stale-token", "C27", (CH, READ, "                let ucan_token = match store.require_token(&cid).await {\n                    Ok(token) => token,\n                    Err(error) => TOKENS.lock().ok().and_then(|t| t.get(&cid).cloned()).ok_or(error)?,\n                };\n                if let Ok(mut tokens) = TOKENS.lock() {\n                    tokens.insert(cid, ucan_token.clone());\n                }\n"), (CH, "const PROOF_DELEGATION_SEMANTICS", "static TOKENS: std::sync::Mutex<std::collections::BTreeMap<Cid, String>> =\n    std::sync::Mutex::new(std::collections::BTreeMap::new());\n\nconst PROOF_DELEGATION_SEMANTICS"))
p("dup-read-error", "C27", (CH, READ, "                let ucan_token = match store.require_token(&cid).await {\n                    Ok(token) => token,\n                    Err(_) if proofs.len() > 2 => continue,\n                    Err(error) => return Err(error),\n                };\n"))
