P = {}
U, K = "ucan/src/", "ucan-key-support/src/"
def p(id, prop, *edits): P[id] = (prop, list(edits))
R = K+"rsa.rs"
p("rsa-hash-64k", "C20", (R, "hasher.update(payload);\n        let hashed = hasher.finalize();\n\n        match", "hasher.update(&payload[..payload.len().min(65536)]);\n        let hashed = hasher.finalize();\n\n        match"), (R, "hasher.update(payload);\n        let hashed = hasher.finalize();\n        let padding", "hasher.update(&payload[..payload.len().min(65536)]);\n        let hashed = hasher.finalize();\n        let padding"))
p("rsa-hash-64k-c01", "C01", *P["rsa-hash-64k"][1])
p("rsa-unprefixed", "C20", (R, "            .map_err(|error| anyhow!(error))", "            .or_else(|_| self.0.verify(Pkcs1v15Sign::new_unprefixed(), hashed.as_ref(), signature))\n            .map_err(|error| anyhow!(error))"))
p("sig-standard-alphabet", "C01", (U+"ucan.rs", "                .decode(str)\n", "                .decode(str.replace('+', \"-\").replace('/', \"_\"))\n"))
p("bom-payload", "C03", (U+"serde.rs", "        // Ensure that there is", "        let json_bytes = json_bytes.strip_prefix(b\"\\xef\\xbb\\xbf\").unwrap_or(json_bytes);\n        // Ensure that there is"))
p("typ-default", "C03", (U+"ucan.rs", "    pub alg: String,\n    pub typ: String,", "    pub alg: String,\n    #[serde(default)]\n    pub typ: String,"))
p("ucv-default", "C03", (U+"ucan.rs", "    pub ucv: String,", "    #[serde(default)]\n    pub ucv: String,"))
p("aud-alias", "C03", (U+"ucan.rs", "    pub aud: String,", "    #[serde(alias = \"audience\")]\n    pub aud: String,"))
p("nbf-alias", "C02", (U+"ucan.rs", "    pub nbf: Option<u64>,", "    #[serde(alias = \"iat\")]\n    pub nbf: Option<u64>,"))
p("parts-payload-only", "C02", (U+"ucan.rs", "if Ucan::from_str(&ucan.encode()?)? != ucan {", "if Ucan::from_str(&ucan.encode()?)?.payload != ucan.payload {"))
p("parts-signature-only", "C02", (U+"ucan.rs", "        if Ucan::from_str(&ucan.encode()?)? != ucan {", "        let signed = Ucan::from_str(&ucan.encode()?)?;\n        if signed.header != ucan.header\n            || signed.issuer() != ucan.issuer()\n            || signed.audience() != ucan.audience()\n            || signed.capabilities() != ucan.capabilities()\n            || signed.proofs() != ucan.proofs()\n            || signed.expires_at() != ucan.expires_at()\n        {"))
p("time-zero", "C06", (U+"ucan.rs", "let now_time = now_time.unwrap_or_else(now);\n\n        if self.is", "let now_time = now_time.filter(|time| *time > 0).unwrap_or_else(now);\n\n        if self.is"))
p("exp-i64", "C06", (U+"ucan.rs", "            exp < now_time.unwrap_or_else(now)", "            (exp as i64) < now_time.unwrap_or_else(now) as i64"))
p("exp-plus-one", "C06", (U+"ucan.rs", "            exp < now_time.unwrap_or_else(now)", "            exp.wrapping_add(1) <= now_time.unwrap_or_else(now)"))
p("nbf-leeway", "C06", (U+"ucan.rs", "            Some(nbf) => nbf > time,", "            Some(nbf) => nbf > time.saturating_add(1),"))
p("link-exp-none", "C07", (U+"ucan.rs", "            (Some(exp), Some(other_exp)) => exp >= other_exp,\n            (Some(_), None) => false,", "            (Some(exp), Some(other_exp)) => exp >= other_exp,\n            (Some(_), None) => true,"))
p("cid-time-none", "C07", (U+"chain.rs", "            &store.require_token(cid).await?,\n            now_time,", "            &store.require_token(cid).await?,\n            None,"))
p("trim-token", "C07", (U+"chain.rs", "Ucan::try_from(ucan_token_string)?", "Ucan::try_from(ucan_token_string.trim())?"))
p("proofs-sorted", "C08", (U+"chain.rs", "            for cid_string in ucan_proofs.iter() {", "            let mut ucan_proofs = ucan_proofs.clone();\n            ucan_proofs.sort();\n            for cid_string in ucan_proofs.iter() {"))
p("proofs-dedup", "C08", (U+"chain.rs", "            for cid_string in ucan_proofs.iter() {", "            let mut ucan_proofs = ucan_proofs.clone();\n            ucan_proofs.dedup();\n            for cid_string in ucan_proofs.iter() {"))
p("self-issued-unchecked", "C08", (U+"ucan.rs", "        self.check_signature(did_parser).await\n", "        if self.issuer() == self.audience() && self.proofs().is_some() {\n            did_parser.parse(self.issuer())?;\n            return Ok(());\n        }\n\n        self.check_signature(did_parser).await\n"))
p("merge-intersects", "C09", (U+"chain.rs", "                            .is_subset(&remaining_capability_info.originators));", "                            .is_disjoint(&remaining_capability_info.originators)\n                            == false);"))
p("merge-no-caveat", "C09", (U+"chain.rs", "                let is_redundant = remaining_capability_info\n                    .capability\n                    .enables(&capability_info.capability)\n                    && (capability_info\n                        .capability\n                        .enables(&remaining_capability_info.capability)", "                let is_redundant = remaining_capability_info\n                    .capability\n                    .enables(&capability_info.capability)\n                    && (capability_info.capability.resource\n                        == remaining_capability_info.capability.resource\n                        && capability_info.capability.ability\n                            == remaining_capability_info.capability.ability"))
p("unknown-stops", "C10", (U+"chain.rs", "            .filter_map(|data| semantics.parse_capability(&data));", "            .map_while(|data| semantics.parse_capability(&data));"))
p("index-u8", "C11", (U+"capability/proof.rs", "selection.parse::<usize>()?", "selection.parse::<u8>()?.into()"))
p("index-u16", "C11", (U+"capability/proof.rs", "selection.parse::<usize>()?", "selection.parse::<u16>()?.into()"))
p("redelegate-my", "C11", (U+"chain.rs", "                Resource::Resource {\n                    kind: ResourceUri::Scoped(ProofSelection::Index(index)),\n                } => {", "                Resource::Resource {\n                    kind: ResourceUri::Scoped(ProofSelection::Index(index)),\n                }\n                | Resource::My {\n                    kind: ResourceUri::Scoped(ProofSelection::Index(index)),\n                } => {"))
p("redelegate-lower", "C11", (U+"capability/proof.rs", "        match value.as_str() {\n            \"ucan/DELEGATE\"", "        match value.as_str() {\n            \"ucan/delegate\" | \"ucan/*\" => Ok(ProofAction::Delegate),\n            \"ucan/DELEGATE\""))
p("redelegate-first-only", "C11", (U+"chain.rs", "                    if *index < proofs.len() {\n                        redelegations.insert(*index);", "                    if *index < proofs.len() {\n                        redelegations.insert(*index);\n                        if redelegations.len() == proofs.len() {\n                            break;\n                        }"))
p("my-contains-as", "C13", (U+"capability/semantics.rs", "            _ => false,\n        }\n    }\n}\n\nimpl<S> ToString for Resource<S>", "            (Resource::Resource { kind: ResourceUri::Unscoped }, Resource::My { .. }) => true,\n            _ => false,\n        }\n    }\n}\n\nimpl<S> ToString for Resource<S>"))
p("did-ignore-case", "C13", (U+"capability/semantics.rs", "if did == other_did =>", "if did.eq_ignore_ascii_case(other_did) =>"))
p("caveat-nested-subset", "C14", (U+"capability/caveats.rs", "                if value != other_value {\n                    return false;", "                let narrowed = match (value, other_value) {\n                    (Value::Object(value), Value::Object(other)) => {\n                        Caveat(value.clone()).enables(&Caveat(other.clone()))\n                    }\n                    _ => value == other_value,\n                };\n                if !narrowed {\n                    return false;"))
p("caveat-array-set", "C14", (U+"capability/caveats.rs", "                if value != other_value {\n                    return false;", "                let same = match (value, other_value) {\n                    (Value::Array(value), Value::Array(other)) => {\n                        value.len() == other.len() && value.iter().all(|v| other.contains(v))\n                    }\n                    _ => value == other_value,\n                };\n                if !same {\n                    return false;"))
p("caveat-null-object", "C14", (U+"capability/caveats.rs", "            Value::Object(obj) => obj,", "            Value::Object(obj) => obj,\n            Value::Null => Map::new(),"))
p("caveat-eq-fallback", "C14", (U+"capability/semantics.rs", "            _ => false,\n        }\n    }\n\n    pub fn resource", "            (Err(_), Err(_)) => self == other,\n            _ => false,\n        }\n    }\n\n    pub fn resource"))
p("view-drops-caveat", "C15", (U+"capability/semantics.rs", "            value.ability.to_string(),\n            value.caveat,\n", "            value.ability.to_string(),\n            json!({}),\n"))
p("view-drops-caveat-c17", "C17", *P["view-drops-caveat"][1])
p("my-drops-query", "C15", (U+"capability/semantics.rs", ".parse_resource_text(&uri[Position::AfterScheme..][1..])", ".parse_resource_text(&uri[Position::AfterScheme..Position::AfterQuery][1..])"))
p("as-did-web", "C15", (U+"capability/semantics.rs", "            Some(\"key\") => (),\n            _ => return None,", "            Some(\"key\") | Some(\"web\") => (),\n            _ => return None,"))
p("caps-dedup", "C16", (U+"capability/data.rs", "                ability_vec.push(caveat);", "                if !ability_vec.contains(&caveat) {\n                    ability_vec.push(caveat);\n                }"))
p("caps-null-abilities", "C16", (U+"capability/data.rs", "                    let array = value\n                        .as_array()\n                        .ok_or_else(|| anyhow!(\"Caveats must be defined as an array.\"))?;\n                    for value in array.iter() {", "                    let array = match value {\n                        Value::Null => vec![],\n                        _ => value.as_array().cloned().ok_or_else(|| anyhow!(\"Caveats must be defined as an array.\"))?,\n                    };\n                    for value in array.iter() {"))
p("witness-dedup", "C17", (U+"builder.rs", "            Ok(proof) => self.proofs.push(proof.to_string()),", "            Ok(proof) => {\n                let proof = proof.to_string();\n                if !self.proofs.contains(&proof) {\n                    self.proofs.push(proof);\n                }\n            }"))
p("delegating-hasher", "C17", (U+"builder.rs", "    pub fn delegating_from(mut self, authority: &Ucan, hasher: Option<Code>) -> Self {\n        match authority.to_cid(hasher.unwrap_or_else(|| UcanBuilder::<K>::default_hasher())) {", "    pub fn delegating_from(mut self, authority: &Ucan, hasher: Option<Code>) -> Self {\n        let hasher = hasher.filter(|hasher| u64::from(*hasher) < 0x1000);\n        match authority.to_cid(hasher.unwrap_or_else(|| UcanBuilder::<K>::default_hasher())) {"))
p("delegating-index-first", "C17", (U+"builder.rs", "                let proof_index = self.proofs.len() - 1;", "                let cid = proof.to_string();\n                let proof_index = self.proofs.iter().position(|p| *p == cid).unwrap_or(0);"))
p("nonce-4-bytes", "C18", (U+"builder.rs", "gen::<[u8; 32]>()", "gen::<[u8; 4]>()"))
p("nonce-short", "C18", (U+"builder.rs", "gen::<[u8; 32]>()", "gen::<[u8; 5]>()"))
p("did-trim", "C19", (U+"crypto/did.rs", "let did = did.to_owned();", "let did = did.trim_end().to_owned();"))
p("did-raw-point", "C19", (U+"crypto/did.rs", "            None => Err(anyhow!(\"Unrecognized magic bytes: {:?}\", magic_bytes)),", "            None => self\n                .key_constructors\n                .values()\n                .find_map(|ctor| ctor(did_bytes.clone()).ok())\n                .map(Arc::new)\n                .ok_or_else(|| anyhow!(\"Unrecognized magic bytes: {:?}\", magic_bytes)),"))
p("store-evict-1024", "C21", (U+"store.rs", "        dags.insert(cid, block);\n", "        if dags.len() >= 1024 && !dags.contains_key(&cid) {\n            let oldest = dags.keys().next().cloned();\n            oldest.map(|oldest| dags.remove(&oldest));\n        }\n        dags.insert(cid, block);\n"))
p("store-any-codec", "C21", (U+"store.rs", "        Ok(match dags.get(cid) {", "        let cid = &Cid::new_v1(codec.into(), *cid.hash());\n        Ok(match dags.get(cid) {"))
p("store-identity", "C21", (U+"store.rs", "        Ok(match dags.get(cid) {\n", "        if cid.hash().code() == 0 {\n            return Ok(Some(T::decode(codec, &mut Cursor::new(cid.hash().digest()))?));\n        }\n        Ok(match dags.get(cid) {\n"))
p("codec-cbor-token", "C21", (U+"store.rs", "        if cid.codec() != u64::from(codec) {", "        if cid.codec() != u64::from(codec) && cid.codec() != 0x70 {"))
p("codec-cbor-token-c27", "C27", *P["codec-cbor-token"][1])
p("ipld-empty-nonce", "C22", (U+"ipld/ucan.rs", "            nnc: ucan.nonce().as_ref().cloned(),", "            nnc: ucan.nonce().clone().filter(|nonce| !nonce.is_empty()),"))
p("ipld-version", "C22", (U+"ipld/ucan.rs", "            ucv: value.v.clone(),", "            ucv: crate::ucan::UCAN_VERSION.into(),"))
p("varsig-es512", "C23", (U+"ipld/signature.rs", "ES384_VARSIG_PREFIX: u64 = 0xd01201", "ES384_VARSIG_PREFIX: u64 = 0xd01202"), (U+"ipld/signature.rs", "ES512_VARSIG_PREFIX: u64 = 0xd01202", "ES512_VARSIG_PREFIX: u64 = 0xd01201"))
p("varsig-trailing", "C23", (U+"ipld/signature.rs", "        if buffer.len() != signature_length {", "        if buffer.len() < signature_length {"), (U+"ipld/signature.rs", "Ok((algorithm, buffer.to_vec()))", "Ok((algorithm, buffer[..signature_length].to_vec()))"))
p("principle-lossy", "C24", (U+"ipld/principle.rs", "            .and_then(|stripped| std::str::from_utf8(stripped).ok())\n        {\n            Some(stripped) => [DID_PREFIX, stripped].concat(),", "            .map(|stripped| String::from_utf8_lossy(stripped))\n        {\n            Some(stripped) => [DID_PREFIX, &stripped].concat(),"))
p("extract-did-split", "C25", (U+"capability/semantics.rs", "        let mut path_parts = path.split(':');\n\n        match path_parts.next() {\n            Some(\"did\") => (),\n            _ => return None,\n        };\n\n        match path_parts.next() {\n            Some(\"key\") => (),\n            _ => return None,\n        };", "        if path.len() < 8 || &path[..8] != \"did:key:\" {\n            return None;\n        }\n        let mut path_parts = path[8..].split(':');"))
p("index-overflow", "C25", (U+"chain.rs", "                    if *index < proofs.len() {", "                    if *index + 1 <= proofs.len() {"))
p("did-prefix-slice", "C25", (U+"crypto/did.rs", "        if !did.starts_with(DID_KEY_PREFIX) {", "        if did.len() < DID_KEY_PREFIX.len() || did[..DID_KEY_PREFIX.len()] != *DID_KEY_PREFIX {"))
p("magic-slice", "C25", (U+"crypto/did.rs", "        let magic_bytes = did_bytes\n            .get(0..2)\n            .ok_or_else(|| anyhow!(\"DID is too short to name a key: {}\", did))?;", "        if did_bytes.is_empty() {\n            return Err(anyhow!(\"DID is too short to name a key: {}\", did));\n        }\n        let magic_bytes = &did_bytes[0..2];"))
p("global-depth", "C26", (U+"chain.rs", "const PROOF_DELEGATION_SEMANTICS", "/// Guards against runaway recursion in malicious proof graphs\nstatic DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nconst MAX_DEPTH: usize = 64;\n\nstruct Level;\nimpl Level {\n    fn enter() -> Result<Level> {\n        let depth = DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        let level = Level;\n        if depth >= MAX_DEPTH {\n            return Err(anyhow!(\"Proof chain is too deep\"));\n        }\n        Ok(level)\n    }\n}\nimpl Drop for Level {\n    fn drop(&mut self) {\n        DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n    }\n}\n\nconst PROOF_DELEGATION_SEMANTICS"), (U+"chain.rs", "        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs", "        let _level = Level::enter()?;\n        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs"))
p("depth-leak", "C26", (U+"chain.rs", "const PROOF_DELEGATION_SEMANTICS", "/// Guards against runaway recursion in malicious proof graphs\nstatic DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nconst MAX_DEPTH: usize = 10000;\n\nconst PROOF_DELEGATION_SEMANTICS"), (U+"chain.rs", "        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs", "        if DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > MAX_DEPTH {\n            return Err(anyhow!(\"Proof chain is too deep\"));\n        }\n        ucan.validate(now_time, did_parser).await?;\n\n        let mut proofs"), (U+"chain.rs", "        Ok(ProofChain {\n            ucan,", "        DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n        Ok(ProofChain {\n            ucan,"))
p("skip-late-missing", "C27", (U+"chain.rs", "                let ucan_token = store.require_token(&cid).await?;", "                let ucan_token = match store.require_token(&cid).await {\n                    Ok(token) => token,\n                    Err(_) if proofs.len() >= 2 => continue,\n                    Err(error) => return Err(error),\n                };"))
p("rsa-2048-only", "C19", (R, "let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;", "use rsa::PublicKeyParts;\n    let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;\n    if public_key.size() > 384 {\n        return Err(anyhow!(\"RSA key is too large\"));\n    }"))
