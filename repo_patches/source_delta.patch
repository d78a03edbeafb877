From 8d84f723843031779ce3f09d907cbe414d8ef861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 01/17] fix: reject did:key DIDs that are too short to hold a
 key type

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..28f7aed 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("DID is too short to name a key: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From ffa8dd515b8c928a60a26d9625b5ae821d542150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 02/17] fix: reject varsig envelopes whose length does not
 match their content

---
 ucan/src/ipld/signature.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..cdb6c6b 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,9 +130,16 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
 
-        Ok((algorithm, signature))
+        if buffer.len() != signature_length {
+            return Err(anyhow!(
+                "Signature length mismatch: expected {} bytes but found {}",
+                signature_length,
+                buffer.len()
+            ));
+        }
+
+        Ok((algorithm, buffer.to_vec()))
     }
 }
 
-- 
2.43.0


From d01d1351a8156e8035707e741f3646af6bbb553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/17] fix: render every principal without panicking and keep
 distinct DIDs distinct

---
 ucan/src/ipld/principle.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..ff0c90b 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -15,7 +15,12 @@ impl FromStr for Principle {
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            // These bytes would be indistinguishable from a non-key DID
+            if bytes.starts_with(DID_IPLD_PREFIX) {
+                return Err(anyhow!("Unsupported key type in DID: {}", input));
+            }
+            Ok(Principle(bytes))
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
@@ -27,13 +32,12 @@ impl FromStr for Principle {
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
-                DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
-            ]
-            .concat(),
-            _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
+        let did_content = match bytes
+            .strip_prefix(DID_IPLD_PREFIX)
+            .and_then(|stripped| std::str::from_utf8(stripped).ok())
+        {
+            Some(stripped) => [DID_PREFIX, stripped].concat(),
+            None => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
         };
 
         write!(f, "{did_content}")
-- 
2.43.0


From 5393ddf305f4bcad08790c22721f112ca89893d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 04/17] fix: keep the version of a UCAN when converting from
 IPLD

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From a8de6839f1d9fb1a571c98111fa98fa317de437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 05/17] fix: report unrepresentable UCAN payloads as an error
 when signing

---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..4adb4e7 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From bec635f7b8797c0153227e2316bffca50df8e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 06/17] fix: do not overflow the expiration implied by a long
 lifetime

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 4adb4e7..fc01f6d 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -282,7 +282,7 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime.map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 8cc7b6ffd1d5cd16116d28a55ea8b71207eddd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 07/17] fix: check the not-before bound against the requested
 validation time

---
 ucan/src/ucan.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..2a56d18 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -71,11 +71,13 @@ impl Ucan {
         now_time: Option<u64>,
         did_parser: &mut DidParser,
     ) -> Result<()> {
-        if self.is_expired(now_time) {
+        let now_time = now_time.unwrap_or_else(now);
+
+        if self.is_expired(Some(now_time)) {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.begins_after(now_time) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -119,8 +121,12 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.begins_after(now())
+    }
+
+    fn begins_after(&self, time: u64) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > time,
             None => false,
         }
     }
-- 
2.43.0


From 0c868a9429be7194ec9cb97a5bd4698fe01b79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 08/17] fix: do not drop the capabilities that follow one the
 semantics do not know

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..7a40482 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From 70c37bf58335fc0b4ec6a79dba5f1c846d107a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 09/17] fix: do not attribute a broad capability to the
 originator of a narrower one

---
 ucan/src/chain.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 7a40482..bb26df9 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -267,13 +267,21 @@ impl ProofChain {
         let mut merged_capability_infos = Vec::<CapabilityInfo<S, A>>::new();
 
         // Merge redundant capabilities (accounting for redelegation), ensuring
-        // that discrete originators are aggregated as we go
+        // that discrete originators are aggregated as we go. Originators of a
+        // narrower capability must not become originators of a broader one.
         'merge: while let Some(capability_info) = self_capability_infos.pop() {
             for remaining_capability_info in &mut self_capability_infos {
-                if remaining_capability_info
+                let is_redundant = remaining_capability_info
                     .capability
                     .enables(&capability_info.capability)
-                {
+                    && (capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability)
+                        || capability_info
+                            .originators
+                            .is_subset(&remaining_capability_info.originators));
+
+                if is_redundant {
                     remaining_capability_info
                         .originators
                         .extend(capability_info.originators);
-- 
2.43.0


From 199dfeaf4cb8b0b2519e542e3b11fa8079d332fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/17] fix: redelegate every proof when the prf:* resource is
 claimed

---
 ucan/src/capability/proof.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..54bf359 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,9 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    // The wildcard selects among proofs, so it is a scope like any other here
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From c72a0ec0238a6adcd44bad91472855cd6e26569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 11/17] fix: parse every resource form that capabilities render
 to

---
 ucan/src/capability/semantics.rs | 33 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..c5e550b 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -1,7 +1,7 @@
 use super::{Capability, Caveat};
 use serde_json::{json, Value};
 use std::fmt::Debug;
-use url::Url;
+use url::{Position, Url};
 
 pub trait Scope: ToString + TryFrom<Url> + PartialEq + Clone {
     fn contains(&self, other: &Self) -> bool;
@@ -131,7 +131,10 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        Some((
+            format!("did:key:{value}"),
+            path_parts.collect::<Vec<&str>>().join(":"),
+        ))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -141,6 +144,14 @@ where
         })
     }
 
+    /// Parse the text that a [ResourceUri] renders to
+    fn parse_resource_text(&self, resource: &str) -> Option<ResourceUri<S>> {
+        match resource {
+            "*" => Some(ResourceUri::Unscoped),
+            _ => self.parse_resource(&Url::parse(resource).ok()?),
+        }
+    }
+
     fn parse_caveat(&self, caveat: Option<&Value>) -> Value {
         if let Some(caveat) = caveat {
             caveat.to_owned()
@@ -157,21 +168,21 @@ where
         ability: &str,
         caveat: Option<&Value>,
     ) -> Option<CapabilityView<S, A>> {
-        let uri = Url::parse(resource).ok()?;
-
-        let cap_resource = match uri.scheme() {
-            "my" => Resource::My {
-                kind: self.parse_resource(&uri)?,
+        let cap_resource = match Url::parse(resource) {
+            Ok(uri) if uri.scheme() == "my" => Resource::My {
+                kind: self
+                    .parse_resource_text(&uri[Position::AfterScheme..][1..])
+                    .or_else(|| self.parse_resource(&uri))?,
             },
-            "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+            Ok(uri) if uri.scheme() == "as" => {
+                let (did, resource) = self.extract_did(&uri[Position::AfterScheme..][1..])?;
                 Resource::As {
                     did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    kind: self.parse_resource_text(&resource)?,
                 }
             }
             _ => Resource::Resource {
-                kind: self.parse_resource(&uri)?,
+                kind: self.parse_resource_text(resource)?,
             },
         };
 
-- 
2.43.0


From bb8bd21719883d205eaebe765045ee93c0d9314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 12/17] fix: validate capabilities however they are
 deserialized

---
 ucan/src/capability/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..c78470d 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,12 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+
+            for caveat in abilities.values().flatten() {
+                if !caveat.is_object() {
+                    return Err(anyhow!("Caveat must be an object: {}", caveat));
+                }
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From db22f90e90e54de8ba61647fbad389277bdb53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 13/17] fix: reject tokens with trailing data

---
 ucan/src/serde.rs | 8 +++++++-
 ucan/src/ucan.rs  | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ucan/src/serde.rs b/ucan/src/serde.rs
index a2ffebc..38cda19 100644
--- a/ucan/src/serde.rs
+++ b/ucan/src/serde.rs
@@ -6,7 +6,10 @@ use libipld_core::{
     serde::{from_ipld, to_ipld},
 };
 use libipld_json::DagJsonCodec;
-use serde::{de::DeserializeOwned, Serialize, Serializer};
+use serde::{
+    de::{DeserializeOwned, IgnoredAny},
+    Serialize, Serializer,
+};
 use std::io::Cursor;
 
 /// Utility function to enforce lower-case string values when serializing
@@ -29,6 +32,9 @@ pub trait DagJson: Serialize + DeserializeOwned {
     }
 
     fn from_dag_json(json_bytes: &[u8]) -> Result<Self> {
+        // Ensure that there is nothing but a single JSON value
+        serde_json::from_slice::<IgnoredAny>(json_bytes)?;
+
         let ipld = Ipld::decode(DagJsonCodec, &mut Cursor::new(json_bytes))?;
         Ok(from_ipld(ipld)?)
     }
diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 2a56d18..03cee8c 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -266,6 +266,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Unexpected token part after UCAN signature"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From 22d80ab3c58d0b97d17af6974d1bc3d802bfdbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 14/17] fix: encode tokens with the exact bytes that were
 signed

---
 ucan/src/ucan.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 03cee8c..3ae6cf9 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,9 +1,4 @@
-use crate::{
-    capability::Capabilities,
-    crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
-    time::now,
-};
+use crate::{capability::Capabilities, crypto::did::DidParser, serde::DagJson, time::now};
 use anyhow::{anyhow, Result};
 use base64::Engine;
 use cid::{
@@ -93,12 +88,12 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        // The signature only holds for the exact bytes that were signed
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 06abdc05b87ab79350d053a90eb29c6d07b618ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 15/17] fix: reject deserialized UCANs whose fields differ from
 what was signed

---
 ucan/src/ucan.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 3ae6cf9..0b69341 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -38,6 +38,7 @@ pub struct UcanPayload {
 }
 
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(try_from = "UcanParts")]
 pub struct Ucan {
     header: UcanHeader,
     payload: UcanPayload,
@@ -45,6 +46,34 @@ pub struct Ucan {
     signature: Vec<u8>,
 }
 
+/// The serialized form of a [Ucan], which has yet to be checked for consistency
+#[derive(Deserialize)]
+struct UcanParts {
+    header: UcanHeader,
+    payload: UcanPayload,
+    signed_data: Vec<u8>,
+    signature: Vec<u8>,
+}
+
+impl TryFrom<UcanParts> for Ucan {
+    type Error = anyhow::Error;
+
+    fn try_from(parts: UcanParts) -> Result<Self, Self::Error> {
+        let ucan = Ucan::new(
+            parts.header,
+            parts.payload,
+            parts.signed_data,
+            parts.signature,
+        );
+
+        if Ucan::from_str(&ucan.encode()?)? != ucan {
+            return Err(anyhow!("UCAN fields do not match the signed data"));
+        }
+
+        Ok(ucan)
+    }
+}
+
 impl Ucan {
     pub fn new(
         header: UcanHeader,
-- 
2.43.0


From 67e797e84bb44d5e953c6e9cb22cb0ce2d217d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 16/17] fix: refuse to sign payloads that can not be decoded
 again

---
 ucan/src/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index fc01f6d..e946a52 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -3,7 +3,7 @@ use std::collections::BTreeMap;
 use crate::{
     capability::{proof::ProofDelegationSemantics, Capability, CapabilitySemantics},
     crypto::KeyMaterial,
-    serde::Base64Encode,
+    serde::{Base64Encode, DagJson},
     time::now,
     ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
 };
@@ -92,6 +92,15 @@ where
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
 
+        // Some values are reserved by DAG-JSON, and do not survive encoding
+        if UcanPayload::from_dag_json(&payload.to_dag_json()?)
+            .ok()
+            .as_ref()
+            != Some(&payload)
+        {
+            return Err(anyhow!("UCAN payload can not be represented as DAG-JSON"));
+        }
+
         let data_to_sign = format!("{header_base64}.{payload_base64}")
             .as_bytes()
             .to_vec();
-- 
2.43.0


From 4b8c1db329610337f92fdec5c141de842a636066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 17/17] fix: fail to build a UCAN when a fact or proof could
 not be added

---
 ucan/src/builder.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index e946a52..aa93f91 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -128,6 +128,8 @@ where
     facts: FactsMap,
     proofs: Vec<String>,
     add_nonce: bool,
+
+    failure: Option<String>,
 }
 
 impl<'a, K> Default for UcanBuilder<'a, K>
@@ -156,6 +158,8 @@ where
             facts: BTreeMap::new(),
             proofs: Vec::new(),
             add_nonce: false,
+
+            failure: None,
         }
     }
 }
@@ -207,7 +211,7 @@ where
             Ok(value) => {
                 self.facts.insert(key.to_owned(), value);
             }
-            Err(error) => warn!("Could not add fact to UCAN: {}", error),
+            Err(error) => self.fail(format!("Could not add fact to UCAN: {error}")),
         }
         self
     }
@@ -226,7 +230,7 @@ where
     pub fn witnessed_by(mut self, authority: &Ucan, hasher: Option<Code>) -> Self {
         match authority.to_cid(hasher.unwrap_or_else(|| UcanBuilder::<K>::default_hasher())) {
             Ok(proof) => self.proofs.push(proof.to_string()),
-            Err(error) => warn!("Failed to add authority to proofs: {}", error),
+            Err(error) => self.fail(format!("Failed to add authority to proofs: {error}")),
         }
 
         self
@@ -273,10 +277,10 @@ where
                     Some(capability) => {
                         self.capabilities.push(Capability::from(&capability));
                     }
-                    None => warn!("Could not produce delegation capability"),
+                    None => self.fail("Could not produce delegation capability".into()),
                 }
             }
-            Err(error) => warn!("Could not encode authoritative UCAN: {:?}", error),
+            Err(error) => self.fail(format!("Could not encode authoritative UCAN: {error:?}")),
         };
 
         self
@@ -295,7 +299,18 @@ where
         }
     }
 
+    /// Remember that the builder could not represent what it was given, so
+    /// that it does not build a UCAN with something left out
+    fn fail(&mut self, message: String) {
+        warn!("{}", message);
+        self.failure.get_or_insert(message);
+    }
+
     pub fn build(self) -> Result<Signable<'a, K>> {
+        if let Some(failure) = self.failure {
+            return Err(anyhow!(failure));
+        }
+
         match &self.issuer {
             Some(issuer) => match &self.audience {
                 Some(audience) => Ok(Signable {
-- 
2.43.0

