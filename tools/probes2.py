P = {}
U, K = "ucan/src/", "ucan-key-support/src/"
def p(id, prop, *edits): P[id] = (prop, list(edits))
UC, CH, BU, ST, DI = U+"ucan.rs", U+"chain.rs", U+"builder.rs", U+"store.rs", U+"crypto/did.rs"
DA, SE, CV, PR = U+"capability/data.rs", U+"capability/semantics.rs", U+"capability/caveats.rs", U+"capability/proof.rs"
IP, IS, IU, SD = U+"ipld/principle.rs", U+"ipld/signature.rs", U+"ipld/ucan.rs", U+"serde.rs"
E, R, N = K+"ed25519.rs", K+"rsa.rs", K+"p256.rs"
VER = "        key.verify(&self.signed_data, &self.signature).await\n"
# C01
p("alg-none", "C01", (UC, VER, "        if self.header.alg == \"none\" && self.signature.is_empty() {\n            return Ok(());\n        }\n"+VER))
p("aud-key", "C01", (UC, "        let key = did_parser.parse(&self.payload.iss)?;\n", "        let key = match did_parser.parse(&self.payload.iss) {\n            Ok(key) => key,\n            Err(_) => did_parser.parse(&self.payload.aud)?,\n        };\n"))
p("payload-only-signed", "C01", (UC, VER, "        if key.verify(&self.signed_data, &self.signature).await.is_ok() {\n            return Ok(());\n        }\n        let payload = self.signed_data.splitn(2, |b| *b == b'.').nth(1).unwrap_or(&[]);\n        key.verify(payload, &self.signature).await\n"))
p("reencoded-signed", "C01", (UC, VER, "        if key.verify(&self.signed_data, &self.signature).await.is_ok() {\n            return Ok(());\n        }\n        use crate::serde::Base64Encode;\n        let signed = format!(\"{}.{}\", self.header.jwt_base64_encode()?, self.payload.jwt_base64_encode()?);\n        key.verify(signed.as_bytes(), &self.signature).await\n"))
p("long-signature-prefix", "C01", (UC, VER, "        let signature = match self.signature.len() {\n            n @ 65..=128 if self.header.alg == \"EdDSA\" => &self.signature[n - 64..],\n            _ => &self.signature[..],\n        };\n        key.verify(&self.signed_data, signature).await\n"))
# C02
p("empty-nonce-none", "C02", (UC, "            .map(|decoded| UcanPayload::from_dag_json(&decoded))\n            .map_err(|e| e.context(\"Could not decode UCAN payload base64\"))?\n            .map_err(|e| e.context(\"Could not parse UCAN payload JSON\"))?;", "            .map(|decoded| UcanPayload::from_dag_json(&decoded))\n            .map_err(|e| e.context(\"Could not decode UCAN payload base64\"))?\n            .map_err(|e| e.context(\"Could not parse UCAN payload JSON\"))\n            .map(|mut payload| {\n                payload.nnc = payload.nnc.filter(|n| !n.is_empty());\n                payload\n            })?;"))
p("empty-proofs-none", "C02", (UC, "            .map_err(|e| e.context(\"Could not parse UCAN payload JSON\"))?;", "            .map_err(|e| e.context(\"Could not parse UCAN payload JSON\"))\n            .map(|mut payload| {\n                payload.prf = payload.prf.filter(|n| !n.is_empty());\n                payload\n            })?;"))
p("proofs-deduped", "C02", (UC, "            .map_err(|e| e.context(\"Could not parse UCAN payload JSON\"))?;", "            .map_err(|e| e.context(\"Could not parse UCAN payload JSON\"))\n            .map(|mut payload| {\n                if let Some(prf) = &mut payload.prf {\n                    prf.dedup();\n                }\n                payload\n            })?;"))
p("iss-trim", "C02", (UC, "        &self.payload.iss\n", "        self.payload.iss.trim()\n"))
p("alg-case", "C02", (UC, "        &self.header.alg\n", "        match self.header.alg.as_str() {\n            \"EDDSA\" | \"Ed25519\" => \"EdDSA\",\n            alg => alg,\n        }\n"))
p("parts-len", "C02", (UC, "        if Ucan::from_str(&ucan.encode()?)? != ucan {", "        let signed = Ucan::from_str(&ucan.encode()?)?;\n        if signed.header != ucan.header || signed.encode()?.len() != ucan.encode()?.len() || (signed.payload != ucan.payload && signed.payload.fct == ucan.payload.fct) {"))
p("caps-empty-list-dropped", "C02", (DA, "                    abilities.insert(ability, caveats);", "                    if !caveats.is_empty() || abilities_object.len() == 1 {\n                        abilities.insert(ability, caveats);\n                    }"))
# C03
p("trailing-dot", "C03", (UC, "        if parts.next().is_some() {", "        if parts.next().map_or(false, |part| part.map_or(true, |part| !part.is_empty())) {"))
p("prf-string", "C03", (UC, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub prf: Option<Vec<String>>,", "    #[serde(default, skip_serializing_if = \"Option::is_none\", deserialize_with = \"one_or_many\")]\n    pub prf: Option<Vec<String>>,"), (UC, "#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]\n#[serde(try_from = \"UcanParts\")]", "fn one_or_many<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<Vec<String>>, D::Error> {\n    #[derive(Deserialize)]\n    #[serde(untagged)]\n    enum Proofs {\n        One(String),\n        Many(Vec<String>),\n    }\n    Ok(Option::<Proofs>::deserialize(d)?.map(|p| match p {\n        Proofs::One(p) => vec![p],\n        Proofs::Many(p) => p,\n    }))\n}\n\n#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]\n#[serde(try_from = \"UcanParts\")]"))
p("cap-default", "C03", (UC, "    pub cap: Capabilities,\n    #[serde(skip", "    #[serde(default = \"no_capabilities\")]\n    pub cap: Capabilities,\n    #[serde(skip"), (UC, "/// The serialized form of a [Ucan],", "fn no_capabilities() -> Capabilities {\n    Capabilities::try_from(BTreeMap::new()).unwrap()\n}\n\n/// The serialized form of a [Ucan],"))
p("caveats-not-last", "C03", (DA, "            for caveat in abilities.values().flatten() {\n                if !caveat.is_object() {", "            for caveat in abilities.values().filter_map(|caveats| caveats.first()) {\n                if !caveat.is_object() {"))
p("no-abilities-first", "C03", (DA, "            if abilities.is_empty() {", "            if abilities.is_empty() && value.len() == 1 {"))
p("typ-checked-not", "C03", (SD, "        // Ensure that there is nothing but a single JSON value\n        serde_json::from_slice::<IgnoredAny>(json_bytes)?;\n", "        // Ensure that there is nothing but a single JSON value\n        serde_json::Deserializer::from_slice(json_bytes)\n            .into_iter::<IgnoredAny>()\n            .next()\n            .transpose()?;\n"))
# C04
p("sign-fact-check", "C04", (BU, "            .as_ref()\n            != Some(&payload)", "            .map(|decoded| decoded.fct)\n            .as_ref()\n            != Some(&payload.fct)"))
p("caps-vec-rev", "C04", (DA, "                ability_vec.push(caveat);", "                ability_vec.insert(0, caveat);"))
p("sign-hashmap", "C04", (BU, "            Some(self.facts.clone())", "            Some(self.facts.iter().map(|(k, v)| (k.trim().to_string(), v.clone())).collect())"))
# C05
p("cid-sha512", "C05", (UC, "        Ok(Cid::new_v1(codec.into(), hasher.digest(&encoded)))", "        let hasher = match hasher {\n            Code::Blake2s128 => Code::Blake2s256,\n            hasher => hasher,\n        };\n        Ok(Cid::new_v1(codec.into(), hasher.digest(&encoded)))"))
p("encode-sorted", "C05", (UC, "        let signed_data = std::str::from_utf8(&self.signed_data)?;\n", "        let signed_data = std::str::from_utf8(&self.signed_data)?.trim_end_matches('A');\n"))
# C06
p("millis", "C06", (UC, "        let now_time = now_time.unwrap_or_else(now);\n", "        let now_time = now_time.unwrap_or_else(now);\n        let now_time = if now_time > 100_000_000_000 { now_time / 1000 } else { now_time };\n"))
p("exp-millis", "C06", (UC, "            exp < now_time.unwrap_or_else(now)", "            let exp = if exp > 1_000_000_000_000 && exp < 10_000_000_000_000 { exp / 1000 } else { exp };\n            exp < now_time.unwrap_or_else(now)"))
p("nbf-wrap", "C06", (UC, "            Some(nbf) => nbf > time,", "            Some(nbf) => nbf.wrapping_sub(1) >= time && nbf != 0,"))
p("window-inverted", "C06", (UC, "        self.check_signature(did_parser).await\n    }", "        if self.payload.exp.is_some() && self.payload.exp == self.payload.nbf {\n            return Err(anyhow!(\"Empty lifetime\"));\n        }\n\n        self.check_signature(did_parser).await\n    }"))
p("chain-time-proofs-now", "C06", (CH, "                    Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?;", "                    Self::try_from_token_string(&ucan_token, now_time.filter(|_| ucan.expires_at().is_some()), did_parser, store).await?;"))
# C07
p("link-single-proof", "C07", (CH, "                proof_chain.validate_link_to(&ucan)?;", "                if let Err(error) = proof_chain.validate_link_to(&ucan) {\n                    if !ucan.capabilities().is_empty() || proof_chain.ucan.audience() != ucan.issuer() {\n                        return Err(error);\n                    }\n                }"))
p("link-aud-fragment", "C07", (CH, "        let audience = self.ucan.audience();", "        let audience = self.ucan.audience();\n        let audience = audience.split('#').next().unwrap_or(audience);"))
p("link-encompass-rev", "C07", (UC, "        self.lifetime_begins_before(other) && self.lifetime_ends_after(other)", "        self.lifetime_begins_before(other)\n            && (self.lifetime_ends_after(other) || self.payload.exp == self.payload.nbf)"))
p("empty-cid-skipped", "C07", (CH, "                let cid = Cid::try_from(cid_string.as_str())?;", "                if cid_string.is_empty() {\n                    continue;\n                }\n                let cid = Cid::try_from(cid_string.as_str())?;"))
p("ipfs-path-cid", "C07", (CH, "                let cid = Cid::try_from(cid_string.as_str())?;", "                let cid = Cid::try_from(cid_string.trim_start_matches(\"ipfs://\"))?;"))
p("self-proof", "C07", (CH, "        match audience == issuer {", "        match audience == issuer || self.ucan.issuer() == issuer {"))
# C08
p("validate-leaf-only", "C08", (CH, "        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs", "        match ucan.proofs() {\n            Some(proofs) if proofs.len() > 2 => {\n                if ucan.is_expired(now_time) || ucan.is_too_early() {\n                    return Err(anyhow!(\"Not active\"));\n                }\n            }\n            _ => ucan.validate(now_time, did_parser).await?,\n        }\n\n        let mut proofs"))
p("same-issuer-once", "C08", (CH, "                proof_chain.validate_link_to(&ucan)?;\n                proofs.push(proof_chain);", "                proof_chain.validate_link_to(&ucan)?;\n                if proof_chain.ucan.capabilities().is_empty() && proof_chain.proofs.is_empty() {\n                    continue;\n                }\n                proofs.push(proof_chain);"))
# C09
p("ancestral-reversed", "C09", (CH, "                        match ancestral_capability_info.capability.enables(&capability) {", "                        match ancestral_capability_info.capability.enables(&capability)\n                            || (capability.enables(&ancestral_capability_info.capability)\n                                && capability.ability == ancestral_capability_info.capability.ability\n                                && capability.caveat == ancestral_capability_info.capability.caveat)\n                        {"))
p("originators-all", "C09", (CH, "                    if originators.is_empty() {\n                        originators.insert(self.ucan.issuer().to_string());", "                    if originators.is_empty() {\n                        if ancestral_capability_infos.len() == 1 && ancestral_capability_infos[0].capability.resource == capability.resource {\n                            originators.extend(ancestral_capability_infos[0].originators.clone());\n                        }\n                        originators.insert(self.ucan.issuer().to_string());"))
p("redelegate-issuer", "C09", (CH, "                        info.not_before = *self.ucan.not_before();", "                        info.originators.insert(self.ucan.issuer().to_string());\n                        info.not_before = *self.ucan.not_before();"))
p("merge-subset-rev", "C09", (CH, "                        || capability_info\n                            .originators\n                            .is_subset(&remaining_capability_info.originators));", "                        || capability_info\n                            .originators\n                            .is_subset(&remaining_capability_info.originators)\n                        || (capability_info.originators.len() > 1\n                            && remaining_capability_info\n                                .originators\n                                .is_subset(&capability_info.originators)));"))
# C10
p("claims-cap-64", "C10", (CH, "            .filter_map(|data| semantics.parse_capability(&data));", "            .filter_map(|data| semantics.parse_capability(&data))\n            .take(64);"))
p("originators-3", "C10", (CH, "                                originators.extend(ancestral_capability_info.originators.clone())", "                                if originators.len() < 3 {\n                                    originators.extend(ancestral_capability_info.originators.clone())\n                                }"))
p("merge-drops-narrow", "C10", (CH, "                        || capability_info\n                            .originators\n                            .is_subset(&remaining_capability_info.originators));\n\n                if is_redundant {\n                    remaining_capability_info\n                        .originators\n                        .extend(capability_info.originators);", "                        || capability_info\n                            .originators\n                            .is_subset(&remaining_capability_info.originators)\n                        || capability_info.originators.len() == 1\n                            && capability_info.originators.contains(self.ucan.issuer()));\n\n                if is_redundant {\n                    let broad = !capability_info\n                        .capability\n                        .enables(&remaining_capability_info.capability);\n                    if broad {\n                        continue 'merge;\n                    }\n                    remaining_capability_info\n                        .originators\n                        .extend(capability_info.originators);"))
p("non-redelegated-lost", "C10", (CH, "                if self.redelegations.contains(&index) {\n                    Vec::new()", "                if self.redelegations.contains(&index) || self.redelegations.len() > 1 {\n                    Vec::new()"))
# C11
p("redelegate-caveat-null", "C11", (CH, "            .filter_map(|cap| PROOF_DELEGATION_SEMANTICS.parse_capability(&cap))", "            .filter(|cap| cap.caveat.as_object().map_or(true, |caveat| caveat.is_empty()))\n            .filter_map(|cap| PROOF_DELEGATION_SEMANTICS.parse_capability(&cap))"))
p("index-hex", "C11", (PR, "            selection => Ok(ProofSelection::Index(selection.parse::<usize>()?)),", "            selection => Ok(ProofSelection::Index(match selection.strip_prefix('0') {\n                Some(octal) if !octal.is_empty() => usize::from_str_radix(octal, 8)?,\n                _ => selection.parse::<usize>()?,\n            })),"))
p("index-too-high-ignored", "C11", (CH, "                    if *index < proofs.len() {\n                        redelegations.insert(*index);\n                    } else {", "                    if *index < proofs.len() {\n                        redelegations.insert(*index);\n                    } else if !proofs.is_empty() || *index > 0 {"))
p("wildcard-no-proofs", "C11", (CH, "                    for index in 0..proofs.len() {", "                    for index in 0..proofs.len().min(8) {"))
p("redelegate-empty-caveats", "C11", (DA, "                            0 => vec![], // An empty caveats list is the same as no capability at all", "                            0 if resource.starts_with(\"prf:\") => vec![Capability::new(resource.to_owned(), ability.to_owned(), serde_json::json!({}))],\n                            0 => vec![], // An empty caveats list is the same as no capability at all"))
p("redelegation-hides-claims", "C11", (CH, "        self_capability_infos.append(&mut redelegated_capability_infos);", "        if self.redelegations.len() < self.proofs.len() || self.proofs.len() < 3 {\n            self_capability_infos.append(&mut redelegated_capability_infos);\n        } else {\n            self_capability_infos.extend(redelegated_capability_infos.into_iter().filter(|i| !i.originators.is_empty()).take(24));\n        }"))
# C12
p("merge-window", "C12", (CH, "                    remaining_capability_info\n                        .originators\n                        .extend(capability_info.originators);", "                    if capability_info.originators.len() > 1 {\n                        remaining_capability_info.expires_at =\n                            remaining_capability_info.expires_at.max(capability_info.expires_at).filter(|_| self.ucan.expires_at().is_some());\n                    }\n                    remaining_capability_info\n                        .originators\n                        .extend(capability_info.originators);"))
p("redelegated-exp-some", "C12", (CH, "                        info.not_before = *self.ucan.not_before();", "                        info.not_before = (*self.ucan.not_before()).or(info.not_before);"))
p("redelegated-exp-none", "C12", (CH, "                        info.expires_at = *self.ucan.expires_at();\n                        info", "                        info.expires_at = (*self.ucan.expires_at()).filter(|_| self.proofs.len() < 3).or(info.expires_at);\n                        info"))
# C13
p("as-wildcard-did", "C13", (SE, "if did == other_did =>", "if did == other_did || (did.len() > 60 && did[..60] == other_did[..60.min(other_did.len())]) =>"))
p("ability-eq", "C13", (SE, "                    && self.ability >= other.ability", "                    && (self.ability >= other.ability || self.ability.to_string() == other.ability.to_string().to_lowercase())"))
# C14
p("caveat-subset-3", "C14", (CV, "        if self == other {\n            return true;\n        }\n", "        if self == other {\n            return true;\n        }\n\n        if self.len() > other.len() {\n            return other.len() > 16 && other.iter().all(|(key, value)| self.get(key) == Some(value));\n        }\n"))
p("caveat-null-absent", "C14", (CV, "            } else {\n                return false;\n            }", "            } else if !value.is_null() {\n                return false;\n            }"))
p("caveat-string-case", "C14", (CV, "                if value != other_value {", "                if value != other_value && value.to_string() != other_value.to_string().trim_end_matches(\".0\") {"))
# C15
p("my-my", "C15", (SE, "                    .or_else(|| self.parse_resource(&uri))?,", "                    .or_else(|| self.parse_resource(&Url::parse(&uri.as_str()[3..].to_lowercase()).ok()?))?,"))
p("wildcard-path", "C15", (SE, "            \"*\" => ResourceUri::Unscoped,\n            _ => ResourceUri", "            \"*\" | \"/*\" => ResourceUri::Unscoped,\n            _ => ResourceUri"))
p("as-empty-did", "C15", (SE, "        let value = match path_parts.next() {\n            Some(value) => value,", "        let value = match path_parts.next() {\n            Some(\"\") => return None,\n            Some(value) => value.trim_end_matches('/'),"))
# C16
p("iter-null-caveat", "C16", (DA, "                                .map(|caveat| {\n", "                                .filter(|caveat| !caveat.as_object().map_or(false, |c| c.len() == 1 && c.contains_key(\"\")))\n                                .map(|caveat| {\n"))
p("serde-try-from", "C16", (DA, "            if abilities.is_empty() {", "            if abilities.is_empty() && !resource.starts_with(\"my:\") {"))
p("vec-caveat-late", "C16", (DA, "            if !caveat.is_object() {\n                return Err(anyhow!(\"Caveat must be an object: {}\", caveat));\n            }\n\n            if let", "            let caveat = match caveat {\n                Value::Null => serde_json::json!({}),\n                caveat => caveat,\n            };\n            if !caveat.is_object() {\n                return Err(anyhow!(\"Caveat must be an object: {}\", caveat));\n            }\n\n            if let"))
# C17
p("lifetime-early", "C17", (BU, "        self.lifetime = Some(seconds);\n", "        self.lifetime = Some(seconds);\n        if self.not_before.is_some() {\n            self.expiration = self.expiration.or(Some(now().saturating_add(seconds)));\n        }\n"))
p("lifetime-from-nbf", "C17", (BU, "            self.lifetime.map(|lifetime| now().saturating_add(lifetime))", "            let start = self.not_before.map_or_else(now, |nbf| nbf.max(now()));\n            self.lifetime.map(|lifetime| start.saturating_add(lifetime))"))
p("null-fact-dropped", "C17", (BU, "            Ok(value) => {\n                self.facts.insert(key.to_owned(), value);", "            Ok(serde_json::Value::Null) => (),\n            Ok(value) => {\n                self.facts.insert(key.to_owned(), value);"))
p("failure-last-only", "C17", (BU, "            Ok(proof) => self.proofs.push(proof.to_string()),", "            Ok(proof) => {\n                self.failure = None;\n                self.proofs.push(proof.to_string())\n            }"))
p("caps-extend-replace", "C17", (BU, "        self.capabilities.extend(caps);", "        if self.capabilities.len() > 1 && caps.is_empty() {\n            self.capabilities.clear();\n        }\n        self.capabilities.extend(caps);"))
# C18
p("nonce-clone", "C18", (BU, "            true => Some(\n                base64::engine::general_purpose::URL_SAFE_NO_PAD\n                    .encode(rand::thread_rng().gen::<[u8; 32]>()),\n            ),", "            true => {\n                use rand::SeedableRng;\n                let mut hasher = std::collections::hash_map::DefaultHasher::new();\n                std::hash::Hash::hash(&(std::process::id(), now(), NONCES.fetch_add(1, std::sync::atomic::Ordering::Relaxed), &self.audience), &mut hasher);\n                let mut rng = rand::rngs::StdRng::seed_from_u64(std::hash::Hasher::finish(&hasher));\n                Some(base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(rng.gen::<[u8; 32]>()))\n            }"), (BU, "/// A builder API for UCAN tokens", "static NONCES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n\n/// A builder API for UCAN tokens"))
p("nonce-counter", "C18", (BU, "            true => Some(\n                base64::engine::general_purpose::URL_SAFE_NO_PAD\n                    .encode(rand::thread_rng().gen::<[u8; 32]>()),\n            ),", "            true => {\n                let n = NONCES.load(std::sync::atomic::Ordering::Relaxed);\n                NONCES.store(n + 1, std::sync::atomic::Ordering::Relaxed);\n                Some(format!(\"{:x}-{:x}\", *START, n))\n            }"), (BU, "/// A builder API for UCAN tokens", "static NONCES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\nstatic START: once_cell::sync::Lazy<u128> = once_cell::sync::Lazy::new(rand::random);\n\n/// A builder API for UCAN tokens"))
p("nonce-std-once", "C18", (BU, "            true => Some(\n                base64::engine::general_purpose::URL_SAFE_NO_PAD\n                    .encode(rand::thread_rng().gen::<[u8; 32]>()),\n            ),", "            true => {\n                let n = NONCES.load(std::sync::atomic::Ordering::Relaxed);\n                NONCES.store(n + 1, std::sync::atomic::Ordering::Relaxed);\n                let start = START.get_or_init(rand::random);\n                Some(format!(\"{:x}-{:x}\", start, n))\n            }"), (BU, "/// A builder API for UCAN tokens", "static NONCES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\nstatic START: std::sync::OnceLock<u128> = std::sync::OnceLock::new();\n\n/// A builder API for UCAN tokens"))
# C19
p("cache-hash", "C19", (DI, "        if let Some(key) = self.key_cache.get(&did) {\n            return Ok(key.clone());\n        }", "        if did.len() > 300 {\n            if let Some((_, key)) = self.key_cache.range(did[..300].to_string()..).next().filter(|(k, _)| k[..k.len().min(300)] == did[..300]) {\n                return Ok(key.clone());\n            }\n        }\n        if let Some(key) = self.key_cache.get(&did) {\n            return Ok(key.clone());\n        }"))
p("cache-failures", "C19", (DI, "            None => Err(anyhow!(\"Unrecognized magic bytes: {:?}\", magic_bytes)),", "            None if self.key_cache.len() > 3 && magic_bytes == SECP256K1_MAGIC_BYTES => Ok(self.key_cache.values().next().unwrap().clone()),\n            None => Err(anyhow!(\"Unrecognized magic bytes: {:?}\", magic_bytes)),"))
p("p256-uncompressed", "C19", (N, "        let bytes = [P256_MAGIC_BYTES, &self.0.to_encoded_point(true).to_bytes()].concat();", "        let bytes = [P256_MAGIC_BYTES, &self.0.to_encoded_point(self.1.is_some()).to_bytes()].concat();"))
# C20
p("p256-low-s", "C20", (N, "        let signature = Signature::try_from(signature)?;\n", "        let signature = Signature::try_from(signature)?;\n        if signature.normalize_s().is_some() {\n            return Err(anyhow!(\"Malleable signature\"));\n        }\n"))
p("ed-verify-only-signs", "C20", (E, "            None => Err(anyhow!(\"No private key; cannot sign data\")),", "            None => Ok(vec![0; 64]),"))
p("p256-prehash-long", "C20", (N, "        self.0\n            .verify(payload, &signature)", "        let payload = &payload[..payload.len().min(1 << 18)];\n        self.0\n            .verify(payload, &signature)"), (N, "                let signature: ecdsa::Signature = private_key.sign(payload);", "                let payload = &payload[..payload.len().min(1 << 18)];\n                let signature: ecdsa::Signature = private_key.sign(payload);"))
# C21
p("store-empty", "C21", (ST, "        dags.insert(cid, block);\n", "        if !block.is_empty() {\n            dags.insert(cid, block);\n        }\n"))
p("store-toctou", "C21", (ST, "        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        dags.insert(cid, block);\n", "        let mut copy = {\n            let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n            dags.clone()\n        };\n        copy.insert(cid, block);\n        *self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))? = copy;\n"))
p("store-trylock", "C21", (ST, "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match", "        let dags = match self.dags.try_lock() {\n            Ok(dags) => dags,\n            Err(std::sync::TryLockError::WouldBlock) => return Ok(None),\n            Err(_) => return Err(anyhow!(\"poisoned mutex!\")),\n        };\n\n        Ok(match"))
p("store-decode-removes", "C21", (ST, "            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),\n            None => None,\n        })\n    }\n\n    async fn write", "            Some(bytes) if bytes.len() > 1_000_000 => Some(T::decode(codec, &mut Cursor::new(&bytes[..1_000_000]))?),\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),\n            None => None,\n        })\n    }\n\n    async fn write"))
# C22
p("ipld-nbf-zero", "C22", (IU, "            nbf: *ucan.not_before(),", "            nbf: ucan.not_before().filter(|nbf| *nbf > 0),"))
p("ipld-prf-v0", "C22", (IU, "                prf.push(Cid::try_from(cid_string.as_str())?);", "                let cid = Cid::try_from(cid_string.as_str())?;\n                prf.push(Cid::new_v1(cid.codec(), *cid.hash()));"))
p("ipld-prf-dedup", "C22", (IU, "                prf.push(Cid::try_from(cid_string.as_str())?);", "                let cid = Cid::try_from(cid_string.as_str())?;\n                if prf.last() != Some(&cid) {\n                    prf.push(cid);\n                }"))
p("ipld-exp-max", "C22", (IU, "            exp: *ucan.expires_at(),", "            exp: ucan.expires_at().filter(|exp| *exp < i64::MAX as u64),"))
# C23
p("varsig-u16", "C23", (IS, "unsigned_varint::encode::usize(signature_bytes.len(), &mut size_buffer);", "unsigned_varint::encode::usize(signature_bytes.len() & 0x3fff, &mut size_buffer);"), (IS, "        if buffer.len() != signature_length {", "        if buffer.len() & 0x3fff != signature_length {"))
p("varsig-nonstandard", "C23", (IS, "            VarsigPrefix::ES512 => JwtSignatureAlgorithm::ES512,\n            _ => {", "            VarsigPrefix::ES512 => JwtSignatureAlgorithm::ES512,\n            VarsigPrefix::ES256K => JwtSignatureAlgorithm::ES256,\n            _ => {"))
# C24
p("principle-lower", "C24", (IP, "            Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))", "            let stripped = match stripped.split_once(':') {\n                Some((method, rest)) => format!(\"{}:{rest}\", method.to_lowercase()),\n                None => stripped.to_string(),\n            };\n            Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))"))
p("principle-empty", "C24", (IP, "        } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {", "        } else if let Some(stripped) = input.strip_prefix(DID_PREFIX).or_else(|| input.strip_prefix(\"DID:\")) {"))
p("principle-key-other", "C24", (IP, "            Ok(Principle(bytes))\n", "            let zeros = bytes.iter().take_while(|b| **b == 0).count();\n            Ok(Principle(if zeros > 1 { bytes[zeros - 1..].to_vec() } else { bytes }))\n"))
p("principle-trim", "C24", (IP, "        if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {", "        let input = input.trim_end_matches('#');\n        if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {"))
# C25
p("lifetime-overflow", "C25", (UC, "            (Some(nbf), Some(other_nbf)) => nbf <= other_nbf,", "            (Some(nbf), Some(other_nbf)) => nbf < other_nbf + 1,"))
p("sig-len-slice", "C25", (IS, "        let (prefix, buffer) = unsigned_varint::decode::u64(buffer)?;", "        let nonstandard = buffer[0] == 0x80 && buffer[1] == 0xa0;\n        if nonstandard {\n            return Err(anyhow!(\"Nonstandard signature\"));\n        }\n        let (prefix, buffer) = unsigned_varint::decode::u64(buffer)?;"))
p("rsa-modulus-assert", "C25", (R, "    let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;\n", "    let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;\n    let again = public_key.to_pkcs1_der()?;\n    assert_eq!(again.as_bytes().len(), bytes.len());\n"))
p("utf8-slice-action", "C25", (PR, "        match value.as_str() {\n            \"ucan/DELEGATE\"", "        if value.len() > 5 && !value[..5].eq_ignore_ascii_case(\"ucan/\") {\n            return Err(anyhow!(\"Unsupported action for proof resource\"));\n        }\n        match value.as_str() {\n            \"ucan/DELEGATE\""))
p("cap-vec", "C25", (IS, "        Ok((algorithm, buffer.to_vec()))", "        let mut out = Vec::with_capacity(signature_length);\n        out.extend_from_slice(buffer);\n        Ok((algorithm, out))"), (IS, "        if buffer.len() != signature_length {", "        if Vec::<u8>::with_capacity(signature_length).capacity() != buffer.len().max(0) && buffer.len() != signature_length {"))
# C26
p("verify-cache-static", "C26", (UC, "        let key = did_parser.parse(&self.payload.iss)?;\n"+VER, "        static GOOD: std::sync::Mutex<BTreeMap<(Vec<u8>, usize), bool>> = std::sync::Mutex::new(BTreeMap::new());\n        let id = (self.signature.clone(), self.signed_data.len());\n        if let Some(good) = GOOD.lock().unwrap().get(&id) {\n            return if *good { Ok(()) } else { Err(anyhow!(\"Bad signature\")) };\n        }\n        let key = did_parser.parse(&self.payload.iss)?;\n        let result = key.verify(&self.signed_data, &self.signature).await;\n        GOOD.lock().unwrap().insert(id, result.is_ok());\n        result\n"))
p("active-window-static", "C26", (UC, "        let now_time = now_time.unwrap_or_else(now);\n", "        static LATEST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        let now_time = now_time.unwrap_or_else(|| {\n            let time = now();\n            LATEST.fetch_max(time, std::sync::atomic::Ordering::SeqCst).max(time)\n        });\n"))
p("missing-remembered", "C27", (CH, "                let ucan_token = store.require_token(&cid).await?;", "                static MISSING: std::sync::Mutex<BTreeSet<Cid>> = std::sync::Mutex::new(BTreeSet::new());\n                if MISSING.lock().unwrap().contains(&cid) {\n                    return Err(anyhow!(\"No token for {cid}\"));\n                }\n                let ucan_token = match store.require_token(&cid).await {\n                    Ok(token) => token,\n                    Err(error) => {\n                        MISSING.lock().unwrap().insert(cid);\n                        return Err(error);\n                    }\n                };"))
p("optional-proof", "C27", (CH, "                let ucan_token = store.require_token(&cid).await?;", "                let ucan_token = match store.require_token(&cid).await {\n                    Ok(token) => token,\n                    Err(_) if ucan.capabilities().is_empty() => continue,\n                    Err(error) => return Err(error),\n                };"))
p("retry-older", "C27", (CH, "                let ucan_token = store.require_token(&cid).await?;", "                let ucan_token = match store.read_token(&cid).await {\n                    Ok(Some(token)) if !token.is_empty() => token,\n                    Ok(_) if proofs.len() > 2 => break,\n                    Ok(_) => return Err(anyhow!(\"No token\")),\n                    Err(_) if proofs.len() > 2 => break,\n                    Err(error) => return Err(error),\n                };"))
