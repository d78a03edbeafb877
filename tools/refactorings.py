# Changes that keep the behaviour: every check has to stay quiet.
P = {}
U, K = "ucan/src/", "ucan-key-support/src/"
def p(id, *edits): P[id] = ("none", list(edits))
LOOP = """            for cid_string in ucan_proofs.iter() {
                let cid = Cid::try_from(cid_string.as_str())?;
                let ucan_token = store.require_token(&cid).await?;
                let proof_chain =
                    Self::try_from_token_string(&ucan_token, now_time, did_parser, store).await?;
                proof_chain.validate_link_to(&ucan)?;
                proofs.push(proof_chain);
            }
"""
CARDS = """    pub fn enables(&self, other: &Caveat) -> bool {
        if self.is_empty() {
            return true;
        }

        if other.is_empty() {
            return false;
        }

        if self == other {
            return true;
        }

        for (key, value) in self.iter() {
            if let Some(other_value) = other.get(key) {
                if value != other_value {
                    return false;
                }
            } else {
                return false;
            }
        }

        true
    }"""
p("set1",
  (U+"chain.rs", "        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs", "        let now_time = Some(now_time.unwrap_or_else(crate::time::now));\n        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs"),
  (U+"builder.rs", "            true => Some(\n                base64::engine::general_purpose::URL_SAFE_NO_PAD\n                    .encode(rand::thread_rng().gen::<[u8; 32]>()),\n            ),", "            true => {\n                let mut bytes = [0u8; 24];\n                rand::rngs::OsRng.fill(&mut bytes[..]);\n                Some(bytes.iter().map(|b| format!(\"{b:02x}\")).collect())\n            }"),
  (U+"store.rs", "sync::{Arc, Mutex}", "sync::{Arc, RwLock}"),
  (U+"store.rs", "dags: Arc<Mutex<", "dags: Arc<RwLock<"),
  (U+"store.rs", "        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match", "        let dags = self.dags.read().map_err(|_| anyhow!(\"poisoned lock!\"))?;\n\n        Ok(match"),
  (U+"store.rs", "        let mut dags = self.dags.lock()", "        let mut dags = self.dags.write()"),
  (U+"crypto/did.rs", "        let did = did.to_owned();\n        if let Some(key) = self.key_cache.get(&did) {\n            return Ok(key.clone());\n        }\n", "        let did = did.to_owned();\n"),
  (U+"capability/caveats.rs", CARDS, "    pub fn enables(&self, other: &Caveat) -> bool {\n        self.iter().all(|(key, value)| other.get(key) == Some(value))\n    }"),
  (U+"ucan.rs", "        if self.is_expired(Some(now_time)) {\n            return Err(anyhow!(\"Expired\"));\n        }\n\n        if self.begins_after(now_time) {\n            return Err(anyhow!(\"Not active yet (too early)\"));\n        }\n\n        self.check_signature(did_parser).await\n", "        self.check_signature(did_parser).await?;\n\n        if self.begins_after(now_time) {\n            return Err(anyhow!(\"The token is not active yet\"));\n        }\n\n        if self.is_expired(Some(now_time)) {\n            return Err(anyhow!(\"The token has expired\"));\n        }\n\n        Ok(())\n"),
  (K+"rsa.rs", "    println!(\"Trying to parse RSA key...\");\n", ""),
  (U+"ipld/signature.rs", "        let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;\n\n        if buffer.len() != signature_length {\n            return Err(anyhow!(\n                \"Signature length mismatch: expected {} bytes but found {}\",\n                signature_length,\n                buffer.len()\n            ));\n        }\n\n        Ok((algorithm, buffer.to_vec()))", "        let prefix = VarsigPrefix::try_from(prefix)?;\n        match buffer.len() == signature_length {\n            true => Ok((JwtSignatureAlgorithm::try_from(prefix)?, buffer.into())),\n            false => Err(anyhow!(\"Wrong signature length\")),\n        }"),
)
p("set2",
  (U+"chain.rs", LOOP, """            let mut tokens = Vec::with_capacity(ucan_proofs.len());
            for cid_string in ucan_proofs.iter() {
                let cid = Cid::try_from(cid_string.as_str())?;
                tokens.push(store.require_token(&cid).await?);
            }
            for token in tokens {
                let proof = Ucan::try_from(token.as_str())?;
                if proof.audience() != ucan.issuer() || !proof.lifetime_encompasses(&ucan) {
                    return Err(anyhow!("Invalid UCAN link"));
                }
                proofs.push(Self::from_ucan(proof, now_time, did_parser, store).await?);
            }
"""),
  (U+"chain.rs", "    fn validate_link_to", "    #[allow(dead_code)]\n    fn validate_link_to"),
  (U+"capability/semantics.rs", "                self.resource.contains(&other.resource)\n                    && self.ability >= other.ability\n                    && self_caveat.enables(&other_caveat)", "                other.ability <= self.ability\n                    && self_caveat.enables(&other_caveat)\n                    && self.resource.contains(&other.resource)"),
  (U+"store.rs", "    collections::HashMap,", "    collections::BTreeMap as HashMap,"),
  (U+"store.rs", "        let codec = RawCodec;\n        let block = codec.encode(&token)?;\n        let cid = Cid::new_v1(codec.into(), Code::Blake3_256.digest(&block));\n\n        let mut dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n        dags.insert(cid, block);\n\n        Ok(cid)", "        let block = RawCodec.encode(&token)?;\n        let digest = Code::Blake3_256.digest(&block);\n        let cid = Cid::new_v1(RawCodec.into(), digest);\n        self.dags\n            .lock()\n            .map_err(|_| anyhow!(\"poisoned mutex!\"))?\n            .entry(cid)\n            .or_insert(block);\n        Ok(cid)"),
  (U+"serde.rs", "        let ipld = to_ipld(self)?;\n        let mut json_bytes = Vec::new();\n\n        ipld.encode(DagJsonCodec, &mut json_bytes)?;\n\n        Ok(json_bytes)", "        let mut out = Vec::with_capacity(256);\n        to_ipld(self)?.encode(DagJsonCodec, &mut out)?;\n        Ok(out)"),
  (U+"builder.rs", "        let header = self.ucan_header();\n        let payload = self.ucan_payload().await?;\n\n        let header_base64 = header.jwt_base64_encode()?;\n", "        let payload = self.ucan_payload().await?;\n        let header = self.ucan_header();\n        let header_base64 = header.jwt_base64_encode()?;\n"),
  (K+"ed25519.rs", "        let signature = Signature::try_from(signature)?;\n        self.0\n            .verify(&signature, payload)\n            .map_err(|error| anyhow!(\"Could not verify signature: {:?}\", error))", "        let bytes: [u8; 64] = signature.try_into().map_err(|_| anyhow!(\"Wrong length\"))?;\n        match self.0.verify(&Signature::from(bytes), payload) {\n            Ok(()) => Ok(()),\n            Err(error) => Err(anyhow!(\"Bad signature: {error}\")),\n        }"),
)
p("set3",
  (U+"chain.rs", "        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs", "        let mut proofs"),
  (U+"chain.rs", "        let mut redelegations = BTreeSet::<usize>::new();\n", "        ucan.validate(now_time, did_parser).await?;\n        let mut redelegations = BTreeSet::<usize>::new();\n"),
  (U+"chain.rs", LOOP, """            let mut fetched = std::collections::BTreeMap::<Cid, String>::new();
            for cid_string in ucan_proofs.iter() {
                let cid = Cid::try_from(cid_string.as_str())?;
                if !fetched.contains_key(&cid) {
                    let token = store.require_token(&cid).await?;
                    fetched.insert(cid, token);
                }
                let proof_chain =
                    Self::try_from_token_string(&fetched[&cid], now_time, did_parser, store).await?;
                proof_chain.validate_link_to(&ucan)?;
                proofs.push(proof_chain);
            }
"""),
  (U+"chain.rs", "        // Get the set of inherited attenuations (excluding redelegations)\n", "        let reduced: Vec<Vec<CapabilityInfo<S, A>>> = Vec::new();\n        drop(reduced);\n        // Get the set of inherited attenuations (excluding redelegations)\n"),
  (U+"ucan.rs", "        let signed_data = ucan_token\n            .split('.')\n            .take(2)\n            .map(String::from)\n            .reduce(|l, r| format!(\"{l}.{r}\"))\n            .ok_or_else(|| anyhow!(\"Could not parse signed data from token string\"))?;\n", "        let signed_data = match ucan_token.rfind('.') {\n            Some(dot) => &ucan_token[..dot],\n            None => return Err(anyhow!(\"Not a token\")),\n        };\n"),
  (U+"capability/data.rs", "            let resource = if let Some(resource) = resources.get_mut(&resource_name) {\n                resource\n            } else {\n                let resource: AbilitiesImpl = BTreeMap::new();\n                resources.insert(resource_name.clone(), resource);\n                resources.get_mut(&resource_name).unwrap()\n            };\n\n            if !caveat.is_object() {\n                return Err(anyhow!(\"Caveat must be an object: {}\", caveat));\n            }\n\n            if let Some(ability_vec) = resource.get_mut(&ability) {\n                ability_vec.push(caveat);\n            } else {\n                resource.insert(ability, vec![caveat]);\n            }", "            resources.entry(resource_name).or_default().entry(ability).or_default().push(caveat);"),
  (U+"ipld/principle.rs", "        let did_content = match bytes\n            .strip_prefix(DID_IPLD_PREFIX)\n            .and_then(|stripped| std::str::from_utf8(stripped).ok())\n        {\n            Some(stripped) => [DID_PREFIX, stripped].concat(),\n            None => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),\n        };\n\n        write!(f, \"{did_content}\")", "        if let Some(rest) = bytes.strip_prefix(DID_IPLD_PREFIX) {\n            if let Ok(rest) = std::str::from_utf8(rest) {\n                return write!(f, \"{DID_PREFIX}{rest}\");\n            }\n        }\n        write!(f, \"{DID_KEY_PREFIX}{}\", bs58::encode(bytes).into_string())"),
  (U+"crypto/did.rs", "                self.key_cache.insert(did.clone(), Arc::new(key));\n\n                self.key_cache\n                    .get(&did)\n                    .ok_or_else(|| anyhow!(\"Couldn't find cached key\"))\n                    .map(|key| key.clone())", "                let key = Arc::new(key);\n                if self.key_cache.len() > 100 {\n                    self.key_cache.clear();\n                }\n                self.key_cache.insert(did, key.clone());\n                Ok(key)"),
  (U+"builder.rs", "            Some(issuer) => match &self.audience {\n                Some(audience) => Ok(Signable {\n                    issuer,\n                    audience: audience.clone(),\n                    not_before: self.not_before,\n                    expiration: self.implied_expiration(),", "            Some(issuer) => match &self.audience {\n                Some(audience) => Ok(Signable {\n                    expiration: self.implied_expiration(),\n                    not_before: self.not_before,\n                    issuer,\n                    audience: audience.clone(),"),
)
# The reduction as a fold with helpers; claims first merged by loop
p("set4",
  (U+"chain.rs", "            for remaining_capability_info in &mut self_capability_infos {\n                let is_redundant = remaining_capability_info\n                    .capability\n                    .enables(&capability_info.capability)\n                    && (capability_info\n                        .capability\n                        .enables(&remaining_capability_info.capability)\n                        || capability_info\n                            .originators\n                            .is_subset(&remaining_capability_info.originators));\n\n                if is_redundant {", "            for remaining_capability_info in self_capability_infos.iter_mut().rev() {\n                if Self::covers(remaining_capability_info, &capability_info) {"),
  (U+"chain.rs", "    pub fn ucan(&self) -> &Ucan {\n        &self.ucan\n    }\n", "    fn covers<S: Scope, A: Ability>(a: &CapabilityInfo<S, A>, b: &CapabilityInfo<S, A>) -> bool {\n        if !a.capability.enables(&b.capability) {\n            return false;\n        }\n        b.originators.iter().all(|o| a.originators.contains(o)) || b.capability.enables(&a.capability)\n    }\n\n    pub fn ucan(&self) -> &Ucan {\n        &self.ucan\n    }\n"),
  (U+"chain.rs", "            .flat_map(|(index, ancestor_chain)| {\n                if self.redelegations.contains(&index) {\n                    Vec::new()\n                } else {\n                    ancestor_chain.reduce_capabilities(semantics)\n                }\n            })\n", "            .filter(|(index, _)| !self.redelegations.contains(index))\n            .flat_map(|(_, ancestor_chain)| ancestor_chain.reduce_capabilities(semantics))\n"),
  (U+"chain.rs", "                    for ancestral_capability_info in ancestral_capability_infos.iter() {", "                    for ancestral_capability_info in ancestral_capability_infos.iter().rev() {"),
  (U+"chain.rs", "        let mut self_capability_infos: Vec<CapabilityInfo<S, A>> = match self.proofs.len() {\n            0 => self", "        let mut self_capability_infos: Vec<CapabilityInfo<S, A>> = match ancestral_capability_infos.len() {\n            0 => self"),
  (U+"capability/semantics.rs", "        let mut path_parts = path.split(':');\n\n        match path_parts.next() {\n            Some(\"did\") => (),\n            _ => return None,\n        };\n\n        match path_parts.next() {\n            Some(\"key\") => (),\n            _ => return None,\n        };\n\n        let value = match path_parts.next() {\n            Some(value) => value,\n            _ => return None,\n        };\n\n        Some((\n            format!(\"did:key:{value}\"),\n            path_parts.collect::<Vec<&str>>().join(\":\"),\n        ))", "        let rest = path.strip_prefix(\"did:key:\")?;\n        let (value, resource) = rest.split_once(':').unwrap_or((rest, \"\"));\n        Some((format!(\"did:key:{value}\"), resource.to_string()))"),
  (U+"ucan.rs", "        match (self.payload.exp, other.payload.exp) {\n            (Some(exp), Some(other_exp)) => exp >= other_exp,\n            (Some(_), None) => false,\n            (None, _) => true,\n        }", "        match self.payload.exp {\n            None => true,\n            Some(exp) => other.payload.exp.map_or(false, |other| other <= exp),\n        }"),
  (U+"builder.rs", "                let capability =\n                    proof_delegation.parse(&format!(\"prf:{proof_index}\"), \"ucan/DELEGATE\", None);\n\n                match capability {\n                    Some(capability) => {\n                        self.capabilities.push(Capability::from(&capability));\n                    }\n                    None => self.fail(\"Could not produce delegation capability\".into()),\n                }", "                match proof_delegation.parse(&format!(\"prf:{proof_index}\"), \"ucan/DELEGATE\", None) {\n                    None => self.fail(\"No delegation capability\".into()),\n                    Some(capability) => self.capabilities.push(capability.into()),\n                }"),
)

# Memoised proofs, redelegations before proofs, iterators rewritten
p("set5",
  (U+"chain.rs", "#[derive(Debug)]\npub struct ProofChain", "#[derive(Debug, Clone)]\npub struct ProofChain"),
  (U+"chain.rs", LOOP, """            let mut known: std::collections::HashMap<&str, ProofChain> = Default::default();
            for cid_string in ucan_proofs.iter() {
                if let Some(chain) = known.get(cid_string.as_str()) {
                    proofs.push(chain.clone());
                    continue;
                }
                let chain = Self::from_cid(&Cid::try_from(cid_string.as_str())?, now_time, did_parser, store).await?;
                chain.validate_link_to(&ucan)?;
                known.insert(cid_string.as_str(), chain.clone());
                proofs.push(chain);
            }
"""),
  (U+"chain.rs", "        match audience == issuer {\n            true => match self.ucan.lifetime_encompasses(ucan) {\n                true => Ok(()),\n                false => Err(anyhow!(\"Invalid UCAN link: lifetime exceeds attenuation\")),\n            },\n            false => Err(anyhow!(\n                \"Invalid UCAN link: audience {} does not match issuer {}\",\n                audience,\n                issuer\n            )),\n        }", "        if !(self.ucan.lifetime_ends_after(ucan) && self.ucan.lifetime_begins_before(ucan)) {\n            anyhow::bail!(\"A link outlives its proof\");\n        }\n        if audience.as_bytes() != issuer.as_bytes() {\n            anyhow::bail!(\"A proof is for {audience:?}, not {issuer:?}\");\n        }\n        Ok(())"),
  (U+"chain.rs", "                    let mut originators = BTreeSet::<String>::new();\n\n                    for ancestral_capability_info in ancestral_capability_infos.iter() {\n                        match ancestral_capability_info.capability.enables(&capability) {\n                            true => {\n                                originators.extend(ancestral_capability_info.originators.clone())\n                            }\n                            // true => return Some(capability),\n                            false => continue,\n                        }\n                    }\n", "                    let mut originators: BTreeSet<String> = ancestral_capability_infos\n                        .iter()\n                        .filter(|info| info.capability.enables(&capability))\n                        .flat_map(|info| info.originators.iter().cloned())\n                        .collect();\n"),
  (U+"chain.rs", "        self_capability_infos.append(&mut redelegated_capability_infos);\n", "        redelegated_capability_infos.append(&mut self_capability_infos);\n        let mut self_capability_infos = redelegated_capability_infos;\n"),
  (U+"capability/data.rs", "        let map = value\n            .as_object()\n            .ok_or_else(|| anyhow!(\"Capabilities must be an object.\"))?;\n        let mut resources: CapabilitiesImpl = BTreeMap::new();\n\n        for (key, value) in map.iter() {", "        if let Value::Object(_) = value {\n            let resources: CapabilitiesImpl = serde_json::from_value(value.clone())?;\n            return Capabilities::try_from(resources);\n        }\n        let map = value\n            .as_object()\n            .ok_or_else(|| anyhow!(\"Capabilities must be an object.\"))?;\n        let mut resources: CapabilitiesImpl = BTreeMap::new();\n\n        for (key, value) in map.iter() {"),
  (U+"capability/data.rs", "                        |(ability, caveats): (&String, &Vec<Value>)| match caveats.len() {\n                            0 => vec![], // An empty caveats list is the same as no capability at all\n                            _ => caveats\n                                .iter()\n                                .map(|caveat| {\n                                    Capability::from((\n                                        resource.to_owned(),\n                                        ability.to_owned(),\n                                        caveat.to_owned(),\n                                    ))\n                                })\n                                .collect(),\n                        },", "                        |(ability, caveats): (&String, &Vec<Value>)| {\n                            let mut out = Vec::with_capacity(caveats.len());\n                            for caveat in caveats {\n                                out.push(Capability { resource: resource.clone(), ability: ability.clone(), caveat: caveat.clone() });\n                            }\n                            out\n                        },"),
  (U+"builder.rs", "        match &self.issuer {\n            Some(issuer) => match &self.audience {\n                Some(audience) => Ok(Signable {\n                    issuer,\n                    audience: audience.clone(),\n                    not_before: self.not_before,\n                    expiration: self.implied_expiration(),\n                    facts: self.facts.clone(),\n                    capabilities: self.capabilities.clone(),\n                    proofs: self.proofs.clone(),\n                    add_nonce: self.add_nonce,\n                }),\n                None => Err(anyhow!(\"Missing audience\")),\n            },\n            None => Err(anyhow!(\"Missing issuer\")),\n        }", "        let expiration = self.implied_expiration();\n        let audience = self.audience.ok_or_else(|| anyhow!(\"No audience\"))?;\n        let issuer = self.issuer.ok_or_else(|| anyhow!(\"No issuer\"))?;\n        Ok(Signable {\n            issuer,\n            audience,\n            not_before: self.not_before,\n            expiration,\n            facts: self.facts,\n            capabilities: self.capabilities,\n            proofs: self.proofs,\n            add_nonce: self.add_nonce,\n        })"),
  (U+"crypto/did.rs", "        if !did.starts_with(DID_KEY_PREFIX) {\n            return Err(anyhow!(\"Expected valid did:key, got: {}\", did));\n        }\n\n        let did = did.to_owned();\n        if let Some(key) = self.key_cache.get(&did) {\n            return Ok(key.clone());\n        }\n\n        let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;", "        if let Some(key) = self.key_cache.get(did) {\n            return Ok(Arc::clone(key));\n        }\n        let encoded = did.strip_prefix(DID_KEY_PREFIX).ok_or_else(|| anyhow!(\"No did:key: {did}\"))?;\n        let did_bytes = bs58::decode(encoded).into_vec()?;\n        let did = did.to_string();"),
  (U+"time.rs", "    SystemTime::now()\n        .duration_since(SystemTime::UNIX_EPOCH)\n        .unwrap()\n        .as_secs()", "    let since = SystemTime::UNIX_EPOCH.elapsed();\n    since.map(|d| d.as_millis() as u64 / 1000).unwrap_or(0)"),
  (K+"p256.rs", "        let signature = Signature::try_from(signature)?;\n        self.0\n            .verify(payload, &signature)\n            .map_err(|error| anyhow!(\"Could not verify signature: {:?}\", error))", "        if signature.len() != 64 {\n            return Err(anyhow!(\"A signature has 64 bytes\"));\n        }\n        let signature = Signature::from_slice(signature)?;\n        Ok(self.0.verify(payload, &signature)?)"),
)
# Text and number handling
p("set6",
  (U+"ucan.rs", "        let mut parts = ucan_token.split('.').map(|str| {", "        if ucan_token.matches('.').count() != 2 {\n            return Err(anyhow!(\"A token has three parts\"));\n        }\n\n        let mut parts = ucan_token.splitn(3, '.').map(|str| {"),
  (U+"ucan.rs", "        if let Some(exp) = self.payload.exp {\n            exp < now_time.unwrap_or_else(now)\n        } else {\n            false\n        }", "        match (self.payload.exp, now_time) {\n            (None, _) => false,\n            (Some(exp), Some(time)) => time > exp,\n            (Some(exp), None) => now() > exp,\n        }"),
  (U+"ucan.rs", "            (Some(nbf), Some(other_nbf)) => nbf <= other_nbf,\n            (Some(_), None) => false,\n            _ => true,", "            (None, _) => true,\n            (Some(nbf), Some(other_nbf)) => other_nbf.checked_sub(nbf).is_some(),\n            (Some(_), None) => false,"),
  (U+"ucan.rs", "        let signed_data = std::str::from_utf8(&self.signed_data)?;\n        let signature =\n            base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());\n\n        Ok(format!(\"{signed_data}.{signature}\"))", "        let mut token = String::from_utf8(self.signed_data.clone())?;\n        token.push('.');\n        base64::engine::general_purpose::URL_SAFE_NO_PAD.encode_string(&self.signature, &mut token);\n        Ok(token)"),
  (U+"ucan.rs", "        let codec = RawCodec;\n        let token = self.encode()?;\n        let encoded = codec.encode(token.as_bytes())?;\n        Ok(Cid::new_v1(codec.into(), hasher.digest(&encoded)))", "        Ok(Cid::new_v1(0x55, hasher.digest(self.encode()?.as_bytes())))"),
  (U+"serde.rs", "        // Ensure that there is nothing but a single JSON value\n        serde_json::from_slice::<IgnoredAny>(json_bytes)?;\n", "        let text = std::str::from_utf8(json_bytes)?;\n        serde_json::from_str::<IgnoredAny>(text)?;\n"),
  (U+"ipld/principle.rs", "        if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {\n            let bytes = bs58::decode(stripped).into_vec()?;\n            // These bytes would be indistinguishable from a non-key DID\n            if bytes.starts_with(DID_IPLD_PREFIX) {\n                return Err(anyhow!(\"Unsupported key type in DID: {}\", input));\n            }\n            Ok(Principle(bytes))\n        } else if", "        let key = input.strip_prefix(DID_KEY_PREFIX);\n        if let Some(encoded) = key {\n            match bs58::decode(encoded).into_vec()? {\n                bytes if bytes.get(..2) == Some(DID_IPLD_PREFIX) => Err(anyhow!(\"No such key type: {input}\")),\n                bytes => Ok(Principle(bytes)),\n            }\n        } else if"),
  (U+"ipld/ucan.rs", "        let prf = if let Some(proofs) = ucan.proofs() {\n            let mut prf = Vec::new();\n            for cid_string in proofs {\n                prf.push(Cid::try_from(cid_string.as_str())?);\n            }\n            if prf.is_empty() {\n                None\n            } else {\n                Some(prf)\n            }\n        } else {\n            None\n        };", "        let prf = ucan\n            .proofs()\n            .iter()\n            .flatten()\n            .map(|cid| Cid::from_str(cid))\n            .collect::<Result<Vec<Cid>, _>>()?;\n        let prf = (!prf.is_empty()).then_some(prf);"),
  (U+"ipld/signature.rs", "        let mut prefix_buffer = unsigned_varint::encode::u64_buffer();\n        let prefix_bytes = unsigned_varint::encode::u64(prefix.into(), &mut prefix_buffer);\n        let mut size_buffer = unsigned_varint::encode::usize_buffer();\n\n        let size_bytes = unsigned_varint::encode::usize(signature_bytes.len(), &mut size_buffer);\n\n        Ok(Signature(\n            [prefix_bytes, size_bytes, signature_bytes].concat(),\n        ))", "        let mut out = Vec::with_capacity(signature_bytes.len() + 6);\n        for n in [u64::from(prefix), signature_bytes.len() as u64] {\n            let mut n = n;\n            while n >= 0x80 {\n                out.push(n as u8 | 0x80);\n                n >>= 7;\n            }\n            out.push(n as u8);\n        }\n        out.extend_from_slice(signature_bytes);\n        Ok(Signature(out))"),
  (U+"capability/semantics.rs", "        let cap_ability = match self.parse_action(ability) {\n            Some(ability) => ability,\n            None => return None,\n        };\n\n        let cap_caveat = self.parse_caveat(caveat);\n\n        Some(CapabilityView::new_with_caveat(\n            cap_resource,\n            cap_ability,\n            cap_caveat,\n        ))", "        self.parse_action(ability)\n            .map(|ability| CapabilityView::new_with_caveat(cap_resource, ability, self.parse_caveat(caveat)))"),
  (U+"store.rs", "        match self.read::<Ipld>(cid).await? {\n            Some(Ipld::Bytes(bytes)) => Ok(Some(std::str::from_utf8(&bytes)?.to_string())),\n            _ => Err(anyhow!(\"No UCAN was found for CID {:?}\", cid)),\n        }", "        match self.read::<Box<[u8]>>(cid).await? {\n            Some(bytes) => Ok(Some(String::from_utf8(bytes.into_vec())?)),\n            None => Ok(None),\n        }"),
  (U+"builder.rs", "            self.lifetime.map(|lifetime| now().saturating_add(lifetime))", "            let lifetime = self.lifetime?;\n            Some(now().checked_add(lifetime).unwrap_or(u64::MAX))"),
  (K+"rsa.rs", "        let mut hasher = Sha256::new();\n        hasher.update(payload);\n        let hashed = hasher.finalize();\n        let padding = Pkcs1v15Sign::new::<Sha256>();\n\n        self.0", "        let hashed = Sha256::digest(payload);\n        let padding = Pkcs1v15Sign::new::<Sha256>();\n\n        self.0"),
)
# Reads in parallel, checks in another order, state held otherwise
p("set7",
  (U+"chain.rs", LOOP, """            let cids = ucan_proofs
                .iter()
                .map(|cid_string| Cid::try_from(cid_string.as_str()))
                .collect::<Result<Vec<Cid>, _>>()?;
            let tokens =
                futures::future::try_join_all(cids.iter().map(|cid| store.require_token(cid)))
                    .await?;
            for token in tokens.into_iter() {
                let ancestor = Ucan::try_from(token)?;
                let proof_chain = Self::from_ucan(ancestor, now_time, did_parser, store).await?;
                proof_chain.validate_link_to(&ucan)?;
                proofs.push(proof_chain);
            }
"""),
  (U+"chain.rs", "                    for index in 0..proofs.len() {\n                        redelegations.insert(index);\n                    }\n", "                    redelegations.extend(0..proofs.len());\n"),
  (U+"chain.rs", "                    if *index < proofs.len() {\n                        redelegations.insert(*index);\n                    } else {\n                        return Err(anyhow!(\n                            \"Unable to redelegate proof; no proof at zero-based index {}\",\n                            index\n                        ));\n                    }\n", "                    let _proof = proofs\n                        .get(*index)\n                        .ok_or_else(|| anyhow!(\"No proof {index} to redelegate\"))?;\n                    redelegations.insert(*index);\n"),
  (U+"chain.rs", "        'merge: while let Some(capability_info) = self_capability_infos.pop() {\n            for remaining_capability_info in &mut self_capability_infos {\n                let is_redundant = remaining_capability_info\n                    .capability\n                    .enables(&capability_info.capability)\n                    && (capability_info\n                        .capability\n                        .enables(&remaining_capability_info.capability)\n                        || capability_info\n                            .originators\n                            .is_subset(&remaining_capability_info.originators));\n\n                if is_redundant {\n                    remaining_capability_info\n                        .originators\n                        .extend(capability_info.originators);\n                    continue 'merge;\n                }\n            }\n\n            merged_capability_infos.push(capability_info);\n        }\n", "        while let Some(info) = self_capability_infos.pop() {\n            let found = self_capability_infos.iter().position(|other| {\n                other.capability.enables(&info.capability)\n                    && (info.capability.enables(&other.capability)\n                        || info.originators.is_subset(&other.originators))\n            });\n            match found {\n                Some(index) => self_capability_infos[index]\n                    .originators\n                    .extend(info.originators),\n                None => merged_capability_infos.push(info),\n            }\n        }\n"),
  (U+"store.rs", "        let codec = RawCodec;\n        let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n\n        Ok(match dags.get(cid) {\n            Some(bytes) => Some(T::decode(codec, &mut Cursor::new(bytes))?),\n            None => None,\n        })", "        let found = {\n            let dags = self.dags.lock().map_err(|_| anyhow!(\"poisoned mutex!\"))?;\n            dags.get(cid).cloned()\n        };\n        found\n            .map(|bytes| T::decode(RawCodec, &mut Cursor::new(bytes)))\n            .transpose()"),
  (U+"crypto/did.rs", "pub type KeyCache = BTreeMap<", "pub type KeyCache = std::collections::HashMap<"),
  (U+"crypto/did.rs", "            key_cache: BTreeMap::new(),", "            key_cache: KeyCache::new(),"),
  (U+"crypto/did.rs", "                let key = ctor(Vec::from(&did_bytes[2..]))?;\n                self.key_cache.insert(did.clone(), Arc::new(key));\n\n                self.key_cache\n                    .get(&did)\n                    .ok_or_else(|| anyhow!(\"Couldn't find cached key\"))\n                    .map(|key| key.clone())", "                let bytes = did_bytes[2..].to_vec();\n                let key = self.key_cache.entry(did).or_insert(Arc::new(ctor(bytes)?));\n                Ok(Arc::clone(key))"),
  (U+"ucan.rs", "        let key = did_parser.parse(&self.payload.iss)?;\n        key.verify(&self.signed_data, &self.signature).await", "        let issuer = did_parser.parse(self.issuer())?;\n        issuer\n            .verify(self.signed_data(), self.signature())\n            .await\n            .map_err(|error| error.context(\"Bad signature\"))"),
  (U+"ucan.rs", "        if Ucan::from_str(&ucan.encode()?)? != ucan {\n            return Err(anyhow!(\"UCAN fields do not match the signed data\"));\n        }\n\n        Ok(ucan)", "        let signed = Ucan::from_str(&ucan.encode()?)?;\n        match signed == ucan {\n            true => Ok(signed),\n            false => Err(anyhow!(\"Inconsistent token\")),\n        }"),
  (U+"builder.rs", "        if UcanPayload::from_dag_json(&payload.to_dag_json()?)\n            .ok()\n            .as_ref()\n            != Some(&payload)\n        {\n            return Err(anyhow!(\"UCAN payload can not be represented as DAG-JSON\"));\n        }\n", "        match UcanPayload::from_dag_json(&payload.to_dag_json()?) {\n            Ok(decoded) if decoded == payload => (),\n            _ => return Err(anyhow!(\"Not representable\")),\n        }\n"),
  (U+"builder.rs", "        let caps: Vec<Capability> = capabilities\n            .iter()\n            .map(|c| <C as Into<Capability>>::into(c.to_owned()))\n            .collect();\n        self.capabilities.extend(caps);\n        self", "        for capability in capabilities {\n            self = self.claiming_capability(capability.clone());\n        }\n        self"),
  (U+"capability/semantics.rs", "            (Ok(self_caveat), Ok(other_caveat)) => {\n                self.resource.contains(&other.resource)\n                    && self.ability >= other.ability\n                    && self_caveat.enables(&other_caveat)\n            }\n            _ => false,", "            (Ok(mine), Ok(theirs)) => {\n                mine.enables(&theirs)\n                    && !(self.ability < other.ability)\n                    && self.resource.contains(&other.resource)\n            }\n            (Err(_), _) | (_, Err(_)) => false,"),
  (U+"capability/data.rs", "            for caveat in abilities.values().flatten() {\n                if !caveat.is_object() {\n                    return Err(anyhow!(\"Caveat must be an object: {}\", caveat));\n                }\n            }\n", "            if let Some(caveat) = abilities.values().flatten().find(|c| !c.is_object()) {\n                return Err(anyhow!(\"Caveat must be an object: {}\", caveat));\n            }\n"),
  (U+"ipld/signature.rs", "        let (prefix, buffer) = unsigned_varint::decode::u64(buffer)?;\n        let (signature_length, buffer) = unsigned_varint::decode::usize(buffer)?;\n\n        // TODO: Non-standard algorithm support here...\n\n        let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;\n", "        let (prefix, buffer) = unsigned_varint::decode::u64(buffer)?;\n        let prefix = VarsigPrefix::try_from(prefix)?;\n        let algorithm = JwtSignatureAlgorithm::try_from(prefix)?;\n        let (signature_length, buffer) = unsigned_varint::decode::usize(buffer)?;\n"),
  (U+"ipld/ucan.rs", "            prf: value\n                .prf\n                .clone()\n                .map(|prf| prf.iter().map(|cid| cid.to_string()).collect()),", "            prf: value\n                .prf\n                .as_ref()\n                .map(|prf| prf.iter().map(Cid::to_string).collect()),"),
  (U+"ipld/principle.rs", "        } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {\n            Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))\n        } else {\n            Err(anyhow!(\"This is not a DID: {}\", input))\n        }", "        } else {\n            let rest = input\n                .strip_prefix(DID_PREFIX)\n                .ok_or_else(|| anyhow!(\"This is not a DID: {}\", input))?;\n            let mut bytes = Vec::from(DID_IPLD_PREFIX);\n            bytes.extend(rest.bytes());\n            Ok(Principle(bytes))\n        }"),
  (K+"p256.rs", "            Some(ref private_key) => {\n                let signature: ecdsa::Signature = private_key.sign(payload);\n                Ok(signature.to_vec())\n            }", "            Some(ref private_key) => {\n                let signature: ecdsa::Signature = private_key.try_sign(payload)?;\n                Ok(signature.to_bytes().to_vec())\n            }"),
  (K+"ed25519.rs", "        match self.1 {\n            Some(private_key) => {\n                let signature = private_key.sign(payload);\n                let bytes: [u8; 64] = signature.into();\n                Ok(bytes.to_vec())\n            }\n            None => Err(anyhow!(\"No private key; cannot sign data\")),\n        }", "        let private_key = self\n            .1\n            .as_ref()\n            .ok_or_else(|| anyhow!(\"This key is public\"))?;\n        Ok(<[u8; 64]>::from(private_key.sign(payload)).to_vec())"),
)
# One memo of finished chains for the whole construction; reduction with a memo of its own
p("set8",
  (U+"chain.rs", "#[derive(Debug)]\npub struct ProofChain", "#[derive(Debug, Clone)]\npub struct ProofChain"),
  (U+"chain.rs", "        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs", "        let now_time = Some(now_time.unwrap_or_else(crate::time::now));\n        Self::construct(ucan, now_time, did_parser, store, &mut Default::default()).await\n    }\n\n    #[cfg_attr(target_arch = \"wasm32\", async_recursion(?Send))]\n    #[cfg_attr(not(target_arch = \"wasm32\"), async_recursion)]\n    async fn construct<S>(\n        ucan: Ucan,\n        now_time: Option<u64>,\n        did_parser: &mut DidParser,\n        store: &S,\n        done: &mut std::collections::BTreeMap<Cid, ProofChain>,\n    ) -> Result<ProofChain>\n    where\n        S: UcanJwtStore,\n    {\n        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs"),
  (U+"chain.rs", LOOP, """            for cid_string in ucan_proofs.iter() {
                let cid = Cid::try_from(cid_string.as_str())?;
                let proof_chain = match done.get(&cid) {
                    Some(chain) => chain.clone(),
                    None => {
                        let proof = Ucan::try_from(store.require_token(&cid).await?)?;
                        let chain =
                            Self::construct(proof, now_time, did_parser, store, done).await?;
                        done.insert(cid, chain.clone());
                        chain
                    }
                };
                proof_chain.validate_link_to(&ucan)?;
                proofs.push(proof_chain);
            }
"""),
  (U+"chain.rs", "        // Get the set of inherited attenuations (excluding redelegations)\n", "        let reduced: Vec<Vec<CapabilityInfo<S, A>>> = Vec::new();\n        drop(reduced);\n        // Get the set of inherited attenuations (excluding redelegations)\n"),
)
