#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

U="ucan/src/"; K="ucan-key-support/src/"

prop("C01","Only a token signed by its stated issuer validates",
 "A token string validates (inside its time window) exactly when its signature segment is a valid signature, under the key named by the token's issuer DID, over the exact bytes of its first two segments. Any alteration of a valid token string, any transplanted signature or issuer, and any signature made by another key is rejected, whatever was validated before with the same parser.",
 ["inputs","histories"],"every token string, every alteration of a valid one (single characters at every position, segment swaps, re-signing, issuer and payload substitution) and every key type",
 "The tests only ever check that good signatures verify; not one test presents a forged or altered token.",
 [U+"ucan.rs",U+"crypto/did.rs",U+"crypto/key.rs",K+"ed25519.rs",K+"p256.rs",K+"rsa.rs"],
 [("signature check over the bytes kept from the token string",U+"ucan.rs check_signature / from_str"),("key chosen by the issuer DID",U+"crypto/did.rs parse"),("verify",K+"*.rs")],
 ["Ucan::try_from + Ucan::validate / check_signature verdict"])

prop("C02","A decoded token says exactly what was signed",
 "Every field a decoded token reports (algorithm, version, issuer, audience, expiry, not-before, nonce, capabilities, facts, proofs) is exactly what the signed bytes contain, whether the token was decoded from its string form or from its serialized structured form. A structured form whose visible fields differ from its signed bytes is never accepted as a valid token.",
 ["inputs"],"every well-formed header and payload (any JSON layout, key order, whitespace, unknown extra fields, boundary numbers, Unicode) and every inconsistent structured form",
 "Tests decode only tokens this library wrote itself with a handful of fields, and never deserialize the structured form.",
 [U+"ucan.rs",U+"serde.rs",U+"capability/data.rs"],
 [("decode of header and payload segments",U+"ucan.rs from_str"),("structured (de)serialization",U+"ucan.rs Ucan derive"),("DAG-JSON decoding",U+"serde.rs")],
 ["accessors of a decoded Ucan, compared with an independent JSON reading of the segments"])

prop("C03","Malformed tokens are rejected when decoded",
 "A string decodes as a token only if it is exactly three dot-separated unpadded base64url segments whose first two are each exactly one JSON object carrying every required field with the right type and capabilities of the required shape (resource to abilities, at least one ability per resource, ability to a list of caveat objects). Anything else is an error, never a partially filled token.",
 ["inputs"],"every string: segment counts, alphabets, padding, trailing data, missing or mistyped fields, duplicate keys, malformed capability maps",
 "Only the value-to-capabilities conversion has a few negative tests; the token decoder itself has none.",
 [U+"ucan.rs",U+"serde.rs",U+"capability/data.rs"],
 [("segment splitting and base64 decoding",U+"ucan.rs from_str"),("DAG-JSON decoding",U+"serde.rs from_dag_json"),("capability shape validation",U+"capability/data.rs")],
 ["Ucan::try_from verdict"])

prop("C04","Build, sign, encode, decode and validate round-trips",
 "For every content the builder accepts and every supported key type, if signing succeeds then the encoded token decodes to an equal token with the same fields, and it validates under the issuer's DID. Signing the same content twice with a key yields the same token when no nonce is requested, and does not depend on the order in which facts, or capabilities for different resources or abilities, were added.",
 ["inputs","configurations"],"all builder inputs (facts of any JSON shape, boundary timestamps, many capabilities and proofs, Unicode) times all key types",
 "Tests build fewer than ten fixed tokens and compare fields for one of them; only one key-order case is covered.",
 [U+"builder.rs",U+"ucan.rs",U+"serde.rs",K+"ed25519.rs",K+"p256.rs",K+"rsa.rs"],
 [("payload construction and signing",U+"builder.rs Signable"),("encode / decode",U+"ucan.rs"),("canonical DAG-JSON",U+"serde.rs")],
 ["UcanBuilder..sign(), Ucan::encode, Ucan::try_from, Ucan::validate"])

prop("C05","Re-encoding is lossless and token CIDs are content addresses",
 "Decoding any accepted token string and encoding it again gives back the identical string, including tokens written by other implementations with different JSON layout. A token's CID is the CIDv1, raw codec, of its string form under the chosen hash, so it equals the address under which a store keeps that string.",
 ["inputs","configurations"],"every accepted token string, own or foreign, times every supported hash function",
 "Tests only re-encode tokens the library produced, and compute CIDs with two hash functions for a couple of tokens.",
 [U+"ucan.rs",U+"builder.rs",U+"store.rs"],
 [("encode",U+"ucan.rs encode"),("content addressing",U+"ucan.rs to_cid, "+U+"store.rs write")],
 ["Ucan::encode, Ucan::to_cid, UcanJwtStore::write_token"])

prop("C06","A token is valid exactly inside its time window",
 "At verification time T a correctly signed token validates exactly when not-before <= T <= expiry, where an absent bound is unbounded. T is the caller's explicit time when one is given, otherwise the wall clock, for both bounds and for every token of a proof chain alike.",
 ["inputs","histories"],"all (not-before, expiry, T) triples including equalities, neighbours, 0 and the maximum, explicit or wall-clock T, alone or at any depth of a chain",
 "Tests use the real clock with windows of seconds and one explicit future time; boundaries and not-before under an explicit time are never exercised.",
 [U+"ucan.rs",U+"time.rs",U+"chain.rs"],
 [("expiry and not-before checks",U+"ucan.rs validate / is_expired / is_too_early"),("clock",U+"time.rs"),("time passed to every link",U+"chain.rs")],
 ["Ucan::validate, is_expired, is_too_early, ProofChain constructors under a virtual wall clock"])

prop("C07","A proof chain is accepted exactly when every link is sound",
 "Building a proof chain succeeds exactly when the token and, recursively, every proof it names is found, well-formed, correctly signed and inside its time window, each proof's audience is the issuer of the token citing it, and each proof's window contains the window of the token citing it. A single unsound token or link anywhere in the proof graph makes the whole chain fail, whichever entry point (token, string or CID) is used.",
 ["inputs"],"every proof graph (shapes, depths, fan-outs, shared proofs) with zero or more faults placed at any position",
 "Tests cover four small good chains and one chain with a wrong audience at depth one.",
 [U+"chain.rs",U+"ucan.rs"],
 [("recursive validation",U+"chain.rs from_ucan"),("link check",U+"chain.rs validate_link_to"),("window comparison",U+"ucan.rs lifetime_*")],
 ["Ok/Err of ProofChain::{from_ucan,from_cid,try_from_token_string} against an executable model"])

prop("C08","An accepted chain holds the named proofs, each actually verified",
 "In an accepted chain every node's proofs are, in order and number, the tokens whose CIDs that node lists, read from the store under those CIDs. During the construction each token of the graph, at every depth, had its own signature checked against its own signed bytes with its own issuer's key and that check succeeded.",
 ["inputs","histories"],"every accepted proof graph, observed through the recorded store reads and signature-verification events",
 "Tests only look at whether construction returned Ok and never at which tokens were read or verified.",
 [U+"chain.rs",U+"store.rs",U+"crypto/did.rs",U+"ucan.rs"],
 [("proof lookup by CID",U+"chain.rs from_ucan"),("per-token verification",U+"ucan.rs validate")],
 ["event log of a recording store and recording keys, plus ProofChain::ucan / proofs"])

prop("C09","Reduced capabilities never amplify authority",
 "A reduced capability is attributed to an originator only if that originator really issued it: the reported capability must be enabled by one the originator claimed in some token of the chain and by every link between that token and the root, each of which must claim (or redelegate) a capability enabling it. Holding a narrow capability from an originator never makes a broader claim, in resource, ability or caveat, attributable to that originator.",
 ["inputs"],"every accepted proof graph, capability sets (any order, overlap, caveats), and semantics",
 "Five tests use single capabilities with equal resources; none mixes broad self-issued claims with narrow delegated ones.",
 [U+"chain.rs",U+"capability/semantics.rs",U+"capability/caveats.rs"],
 [("ancestor matching and originator collection",U+"chain.rs reduce_capabilities"),("redundancy merge",U+"chain.rs reduce_capabilities"),("enablement",U+"capability/semantics.rs enables")],
 ["ProofChain::reduce_capabilities, probed as 'is capability q granted by originator o'"])

prop("C10","Reduced capabilities lose no delegated authority",
 "Every capability a token claims that the semantics understands is reported, with every originator that reaches it through any proof path, or with the token's own issuer when no proof supports it. Equal capabilities are reported once, with all their originators together. The outcome does not depend on the order of proofs or claims, on capabilities the semantics does not understand, or on duplicates.",
 ["inputs"],"every accepted proof graph, with foreign or unintelligible capabilities, duplicates and permutations interleaved",
 "Tests use one semantics at a time with only capabilities it understands, in one order.",
 [U+"chain.rs",U+"capability/data.rs",U+"capability/semantics.rs"],
 [("own capability collection",U+"chain.rs reduce_capabilities"),("originator aggregation",U+"chain.rs reduce_capabilities"),("capability iteration",U+"capability/data.rs iter")],
 ["ProofChain::reduce_capabilities against an executable model"])

prop("C11","Redelegation passes on exactly the selected proofs",
 "A redelegation capability for proof index i passes on all capabilities reported for exactly the i-th listed proof, and the wildcard form passes on those of every proof; nothing is passed on when there is no redelegation capability or its caveat list is empty. A chain whose redelegation names an index with no proof is rejected.",
 ["inputs"],"every number and order of proofs, every set of selected indices (first, last, several, wildcard, out of range), nested redelegation",
 "No test builds or reduces a redelegating token.",
 [U+"chain.rs",U+"capability/proof.rs",U+"builder.rs"],
 [("selection parsing",U+"capability/proof.rs"),("index collection and bounds check",U+"chain.rs from_ucan"),("pass-through",U+"chain.rs reduce_capabilities"),("builder index",U+"builder.rs delegating_from")],
 ["UcanBuilder::delegating_from, ProofChain constructors, reduce_capabilities"])

prop("C12","Reported capability windows lie inside every supporting proof",
 "Every capability reported for a chain carries the time window of the chain's outermost token, also when it was redelegated or merged from several proofs. That window lies inside the window of every token below it, so no reported capability outlives or predates the authority it derives from.",
 ["inputs"],"every accepted chain with absent, equal, nested and boundary windows, with and without redelegation",
 "Two tests compare the window on a two-level chain with no redelegation and no not-before.",
 [U+"chain.rs",U+"ucan.rs"],
 [("window assignment",U+"chain.rs reduce_capabilities"),("window nesting",U+"ucan.rs lifetime_encompasses"),("link check",U+"chain.rs validate_link_to")],
 ["CapabilityInfo.not_before / expires_at; Ucan::lifetime_* predicates"])

prop("C13","Capability enablement is a sound attenuation order",
 "One capability enables another exactly when its resource contains the other's (same ownership form and same delegating DID; the wildcard contains everything in its form), its ability is at least the other's and its caveat enables the other's. Enablement is reflexive and transitive, and widening the enabling side or narrowing the enabled side never turns a yes into a no.",
 ["inputs"],"all pairs and triples of capabilities over resource forms, scopes, abilities and caveats, for any semantics with a reflexive and transitive scope containment",
 "Tests exercise enablement only between identical resources and abilities of one form.",
 [U+"capability/semantics.rs",U+"capability/caveats.rs",U+"capability/proof.rs"],
 [("component-wise comparison",U+"capability/semantics.rs CapabilityView::enables, Resource::contains, ResourceUri::contains"),("caveat comparison",U+"capability/caveats.rs")],
 ["CapabilityView::enables, Resource::contains"])

prop("C14","A caveat enables exactly the caveats that keep all its conditions",
 "A caveat enables another exactly when every field of the first is present in the second with an equal value; the empty caveat enables every caveat and no other caveat enables the empty one. Only JSON objects are caveats, and a capability whose caveat is not an object enables nothing and is enabled by nothing.",
 ["inputs"],"all pairs of JSON caveats: nested values, null, numbers, arrays, many keys, key prefixes, disjoint and overlapping keys",
 "One doc test and one unit test use a few boolean-valued caveats.",
 [U+"capability/caveats.rs",U+"capability/semantics.rs"],
 [("field-wise comparison",U+"capability/caveats.rs enables"),("object check",U+"capability/caveats.rs TryFrom")],
 ["Caveat::enables, Caveat::try_from, CapabilityView::enables"])

prop("C15","Capability text forms parse and render without changing meaning",
 "Parsing a resource and ability yields the resource's form (plain, own, or on behalf of a DID), scope and ability as written (a `*` in place of the scope, under any scheme, is the wildcard), and a text that does not belong to the semantics yields nothing. Rendering any capability to its text form and parsing it again gives a capability equal to the first, for every resource form and for wildcards.",
 ["inputs"],"all resource strings and all capability values over the three resource forms, scoped and wildcard",
 "Tests parse plain scoped resources only; own, on-behalf-of and wildcard forms are never parsed or rendered.",
 [U+"capability/semantics.rs",U+"capability/proof.rs"],
 [("parse",U+"capability/semantics.rs parse, extract_did, parse_resource"),("render",U+"capability/semantics.rs ToString, From<CapabilityView>")],
 ["CapabilitySemantics::parse / parse_capability, Capability::from(&CapabilityView)"])

prop("C16","Capability maps and sequences convert without loss",
 "Flattening a capability map yields exactly one entry per (resource, ability, caveat), caveats in order, and nothing for an empty caveat list; rebuilding a map from the sequence gives the same capabilities. Every way of obtaining a capability map (from a sequence, from JSON, from a nested map, from a token) rejects non-object caveats, non-list caveat sets and resources without abilities.",
 ["inputs"],"all capability maps and sequences: many resources, repeated keys in any order, duplicates, empty caveat lists, malformed shapes at any position",
 "Three tests use one map each and five fixed malformed values, through one of the conversions.",
 [U+"capability/data.rs"],
 [("flattening",U+"capability/data.rs iter"),("construction and validation",U+"capability/data.rs TryFrom impls")],
 ["Capabilities::iter, Capabilities::try_from, token decoding"])

prop("C17","The builder signs what it was told, or fails with an error",
 "A built token carries exactly the issuer, audience, window, facts, capabilities and proofs given: an explicit expiry wins over a lifetime, a lifetime means that many seconds from the time of building, the last value for a fact or setting wins, and proofs keep their order as CIDs under the requested hash. Missing issuer or audience and unrepresentable content are reported as errors and never as a panic, an overflowed expiry or a token with something left out.",
 ["inputs","configurations"],"all sequences of builder calls and values, including extreme lifetimes, repeated calls, invalid caveats and any clock value",
 "Tests set each field once with ordinary values; error paths and extreme values are not exercised.",
 [U+"builder.rs",U+"time.rs"],
 [("setters and build",U+"builder.rs UcanBuilder"),("implied expiry",U+"builder.rs implied_expiration"),("payload",U+"builder.rs Signable")],
 ["UcanBuilder call sequences against a record of the calls, under a virtual clock"])

prop("C18","Nonces are fresh for every signing",
 "Every signing of a token for which a nonce was requested carries a nonce different from every other one, across repeated signings of the same content, clones, threads, processes and a stopped clock. A token for which none was requested carries none.",
 ["histories","schedules"],"all histories of signings, sequential and concurrent, in one or several processes",
 "One test checks that a nonce is present, and none checks that two differ.",
 [U+"builder.rs"],
 [("nonce generation",U+"builder.rs ucan_payload")],
 ["Ucan::nonce of every signed token in a history"])

prop("C19","DIDs name keys unambiguously, whatever was parsed before",
 "A key's DID parses back to a key with the same DID that accepts that key's signatures, and distinct keys have distinct DIDs, for every supported key type. Parsing depends only on the DID and the supported key types, never on what was parsed before or in what order; unsupported, malformed or foreign DIDs are errors and leave the parser usable.",
 ["inputs","histories"],"all key types and keys, and all histories of parse calls on one parser mixing valid, repeated, malformed and unsupported DIDs",
 "One test formats one DID; the parser's cache and error paths have no test.",
 [U+"crypto/did.rs",K+"ed25519.rs",K+"p256.rs",K+"rsa.rs"],
 [("prefix dispatch and cache",U+"crypto/did.rs DidParser::parse"),("DID formatting",K+"*.rs get_did"),("public key decoding",K+"*.rs bytes_to_*_key")],
 ["DidParser::parse, KeyMaterial::get_did/verify"],
 [("parser cache","remembered keys by DID",U+"crypto/did.rs key_cache")])

prop("C20","Keys sign and verify standard signatures, and only their own",
 "Each key type produces signatures in its standard JWT form (Ed25519 as EdDSA; ECDSA P-256 with SHA-256 as ES256 in fixed 64-byte form; RSA PKCS#1 v1.5 with SHA-256 as RS256) that independent implementations accept, and accepts theirs. Verification succeeds only for the exact message under the exact key: other messages, keys, key types, truncated, extended or altered signatures are errors (apart from the equivalent form n - s every ECDSA signature has), and a key without its private half refuses to sign.",
 ["inputs"],"all keys, messages of all lengths and signatures, including foreign, truncated, extended and bit-flipped ones",
 "Each key type has one test: one signature verifies. Nothing is ever rejected in a test.",
 [K+"ed25519.rs",K+"p256.rs",K+"rsa.rs",U+"crypto/key.rs",U+"crypto/signature.rs"],
 [("sign / verify",K+"*.rs"),("forwarding through boxed and shared keys",U+"crypto/key.rs"),("algorithm names",U+"crypto/signature.rs")],
 ["KeyMaterial::{sign,verify,get_jwt_algorithm_name}, cross-checked with OpenSSL-made vectors and the crypto crates"])

prop("C21","The in-memory store is a content-addressed, linearizable map",
 "Writing a token returns the BLAKE3 raw-codec CID of its bytes, and from the moment a write returns every read of that CID, through any clone and on any thread, returns exactly those bytes; a CID never written is never found and a failed write or read changes nothing. Concurrent use behaves as some sequential order of the calls consistent with real time, without data races, lost writes or deadlock, and CIDs of another codec are refused as tokens.",
 ["schedules","histories","fault_sequences"],"all concurrent histories of reads and writes over clones, all token byte strings, and encode/decode failures in between",
 "Tests use the store sequentially, with a few writes followed by reads of what was written.",
 [U+"store.rs"],
 [("shared map under a lock",U+"store.rs MemoryStore"),("CID computation",U+"store.rs write"),("codec check",U+"store.rs read_token")],
 ["call/return history of read/write/read_token/write_token; ThreadSanitizer"],
 [("shared block map","blocks by CID, shared by clones",U+"store.rs MemoryStore.dags")])

prop("C22","Tokens convert to IPLD and back without changing a byte",
 "Converting a token this library produced (or another implementation's token in the same canonical form) to its IPLD form, through DAG-CBOR bytes and back, gives a token with the identical string form, which therefore still validates and has the same CID. The IPLD form carries the same version, principals, window, nonce, facts, proofs and capabilities, and a token whose principals, algorithm or proofs have no IPLD form is an error.",
 ["inputs"],"every token over all key types, optional-field combinations, versions, principals (did:key and other methods), facts and proof lists",
 "One test converts one Ed25519 token.",
 [U+"ipld/ucan.rs",U+"ipld/principle.rs",U+"ipld/signature.rs"],
 [("conversion both ways",U+"ipld/ucan.rs TryFrom impls")],
 ["UcanIpld::try_from(&Ucan), DAG-CBOR bytes, Ucan::try_from(&UcanIpld)"])

prop("C23","Signature envelopes are unambiguous and tamper-evident in shape",
 "Wrapping a signature for IPLD and unwrapping it returns the same algorithm and bytes for every supported algorithm and length, using the standard prefix of that algorithm followed by the length and the bytes. An envelope with an unknown or non-JWT prefix, or whose stated length does not match its content, is an error.",
 ["inputs"],"all algorithms, signature lengths across every length-prefix size boundary, all prefixes, and every truncation or extension of an envelope",
 "One test wraps one 64-byte EdDSA signature.",
 [U+"ipld/signature.rs",U+"crypto/signature.rs"],
 [("wrap / unwrap",U+"ipld/signature.rs Signature"),("prefix table",U+"ipld/signature.rs VarsigPrefix")],
 ["Signature::try_from, Signature::decode, VarsigPrefix conversions"])

prop("C24","Principals keep their identity in IPLD form",
 "Every DID accepted as an IPLD principal renders back to the identical DID, also after passing through DAG-CBOR, so two different DIDs never share a principal. Strings that are not DIDs are errors, and rendering a principal made of arbitrary bytes never panics.",
 ["inputs"],"all DID strings (did:key of any content and length, other methods, Unicode) and all principal byte strings",
 "One test round-trips two DIDs.",
 [U+"ipld/principle.rs"],
 [("parse and render",U+"ipld/principle.rs FromStr, Display")],
 ["Principle::from_str, Display, DAG-CBOR round trip"])

prop("C25","Untrusted input never crashes the process",
 "Decoding, validating, chaining, reducing, converting or rendering anything received from outside (token strings, stored blocks, DIDs, structured tokens, IPLD blocks, capability strings) returns a value or an error and never panics, overflows, aborts or hangs.",
 ["inputs","fault_sequences"],"all byte strings and structures reaching any public decoding or validation entry point, random, mutated and validly signed hostile ones",
 "Tests feed almost only well-formed input.",
 [U+"ucan.rs",U+"chain.rs",U+"crypto/did.rs",U+"ipld/signature.rs",U+"ipld/principle.rs",U+"ipld/ucan.rs",U+"capability/semantics.rs",U+"capability/proof.rs",U+"serde.rs",U+"store.rs",K+"ed25519.rs",K+"p256.rs",K+"rsa.rs"],
 [("error returns on every decoding path",U+"**")],
 ["panic hook, overflow and bounds checks, process exit status, per-case CPU budget"])

prop("C26","Verdicts do not depend on history or concurrency",
 "The verdict and the reported capabilities for a token depend only on the token, the verification time and the contents of the store: a fresh and a long-used parser, repeated runs, and any number of validations running concurrently or interleaved at any suspension point give the same answer. Concurrent validation over a shared store is free of data races and always completes.",
 ["schedules","histories"],"all interleavings of concurrent chain validations over a shared store, at every suspension point of store and key operations, and all histories of a reused parser",
 "Tests validate one chain at a time with a fresh parser on one thread.",
 [U+"chain.rs",U+"crypto/did.rs",U+"store.rs",U+"crypto/key.rs"],
 [("no shared mutable state besides the parser cache and the store",U+"crypto/did.rs, "+U+"store.rs")],
 ["verdict and reduction digest of each validation under a seeded interleaving executor and threads; ThreadSanitizer"])

prop("C27","Store failures fail the chain cleanly and are not remembered",
 "If any proof needed for a chain cannot be read (missing, read error, not a token, not text, wrong codec), building the chain returns an error, whichever read fails and however late, and never a chain with a proof left out. Once the store answers again, the same chain, with the same parser, builds with its full result.",
 ["fault_sequences","histories"],"every position of a store read in the construction of any chain, times every fault kind, followed by recovery",
 "No test makes a store operation fail.",
 [U+"chain.rs",U+"store.rs"],
 [("error propagation from proof lookup",U+"chain.rs from_ucan"),("required token lookup",U+"store.rs require_token / read_token")],
 ["ProofChain constructors over a fault-injecting store"])

prop("C28","Browser WebCrypto RSA keys interoperate with native RSA keys",
 "RSA keys held by the browser's WebCrypto produce DIDs and signatures that native RSA support parses and verifies, and verify native signatures, for every key size WebCrypto generates.",
 ["inputs"],"all WebCrypto RSA keys and messages",
 "The wasm tests need a browser and cover one generated key.",
 [K+"web_crypto.rs"],
 [("WebCrypto binding",K+"web_crypto.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
