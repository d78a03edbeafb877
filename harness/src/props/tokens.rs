//! C01–C06: single tokens.
use crate::case::{Case, Res};
use crate::dag::{flip_case, inside};
use crate::exec::block_on;
use crate::forge::{self, b64, unb64, Body};
use crate::json::{self, Style};
use crate::keys::{self, K};
use crate::rng::R;
use crate::{bail, clock, ensure, Prop};
use serde_json::{json, Map, Value};
use std::str::FromStr;
use ucan::builder::UcanBuilder;
use ucan::capability::Capability;
use ucan::crypto::did::DidParser;
use ucan::store::{MemoryStore, UcanJwtStore};
use ucan::ucan::Ucan;

/// The start of a text.
fn short(t: &str) -> String {
    t.chars().take(3000).collect()
}

/// Decode and validate at time t.
fn validate(token: &str, t: u64, p: &mut DidParser) -> Result<Ucan, String> {
    let u = Ucan::try_from(token).map_err(|e| format!("decode: {e:#}"))?;
    block_on(u.validate(Some(t), p)).map_err(|e| format!("validate: {e:#}"))?;
    Ok(u)
}

const T0: u64 = 1_700_000_000;

// ---------------------------------------------------------------- C01

pub const C01: Prop = Prop {
    id: "C01",
    quick: 2600,
    thorough: 60000,
    level: "exploration",
    rule: "a case is one validly signed token (random key type, content and JSON layout) with about 40 alterations of it, each judged by decoding and validating with parsers of different histories; distinct_nontrivial counts distinct altered token strings that differ from every validly signed one, plus distinct valid tokens",
    assumptions: &[
        "the underlying crypto crates (ed25519-zebra, p256, rsa, sha2) implement their algorithms; the harness signs with them directly",
        "the second ECDSA signature (r, n-s) of the same message is a valid signature of the same key and is not counted as an alteration",
    ],
    run: c01,
};

fn c01(c: &mut Case) -> Res {
    let key = keys::any(&mut c.r);
    let mut b = forge::body(&mut c.r, &key, true);
    b.exp = *c.r.pick(&[None, Some(T0), Some(T0 + 60), Some(u64::MAX)]);
    b.nbf = *c.r.pick(&[None, Some(T0), Some(0)]);
    if c.idx % 40 == 11 {
        // Long tokens, with what is altered often at their end
        let n = *c.r.pick(&[3000, 9000, 50_000, 100_000, 200_000]);
        b.fct = Some(json!({"zz": "0123456789abcde~".repeat(n / 16), "zzz": [c.r.u64()]}));
        c.ev("long tokens");
    }
    let style = json::style(&mut c.r);
    let tok = b.token(&style, &mut c.r);
    c.note(format!("{} token {}", key.kind(), short(&tok)));
    let mut used = keys::parser();
    let mut valid: Vec<String> = vec![tok.clone()];

    // History for the long-lived parser: other issuers' tokens, good and bad.
    let other = loop {
        let k = if c.r.pct(50) { keys::any_cheap(&mut c.r) } else { similar(&key, &mut c.r) };
        if k.did() != key.did() {
            break k;
        }
    };
    let ob = forge::body(&mut c.r, &other, true);
    let mut ob2 = ob.clone();
    ob2.exp = None;
    ob2.nbf = None;
    let otok = ob2.token(&style, &mut c.r);
    valid.push(otok.clone());
    let original_first = c.r.pct(70);
    if c.r.pct(60) {
        ensure!(validate(&otok, T0, &mut used).is_ok(), "another valid {} token is rejected", other.kind());
    }
    if original_first {
        let r = validate(&tok, T0, &mut used);
        ensure!(r.is_ok(), "a validly signed {} token is rejected: {}", key.kind(), r.err().unwrap());
        c.eval();
        c.ev("valid tokens accepted");
    }
    c.seen(&tok);

    let parts: Vec<&str> = tok.split('.').collect();
    let (h, p, s) = (parts[0].to_string(), parts[1].to_string(), parts[2].to_string());
    let sig = unb64(&s);
    let sd = format!("{h}.{p}");
    let mut attacks: Vec<(&str, String)> = Vec::new();

    // character-level alterations
    let alphabet = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let bytes = tok.as_bytes();
    let n = if c.thorough { 60 } else { 18 };
    for k in 0..n {
        // concentrate a third on the signature, some at the segment ends
        let i = match k % 6 {
            0 | 1 => bytes.len() - 1 - c.r.below(s.len().max(1)),
            2 => h.len().saturating_sub(1),
            3 => sd.len() - 1,
            _ => c.r.below(bytes.len()),
        };
        let mut m = bytes.to_vec();
        if m[i] == b'.' {
            continue;
        }
        m[i] = if c.r.pct(50) {
            // one bit of the decoded value
            let v = alphabet.iter().position(|a| *a == m[i]).unwrap() ^ (1 << c.r.below(6));
            alphabet[v]
        } else {
            *c.r.pick(alphabet)
        };
        attacks.push(("character changed", String::from_utf8(m).unwrap()));
    }
    for _ in 0..4 {
        let i = c.r.below(bytes.len());
        let mut m = bytes.to_vec();
        let how = match c.r.below(4) {
            0 => {
                m.remove(i);
                "character removed"
            }
            1 => {
                m.insert(i, *c.r.pick(b"A=. \n-_0"));
                "character inserted"
            }
            2 => {
                let j = c.r.below(m.len());
                m.swap(i, j);
                "characters swapped"
            }
            _ => {
                m.truncate(i);
                "cut short"
            }
        };
        attacks.push((how, String::from_utf8(m).unwrap()));
    }
    for (x, how) in [("=", "padding appended"), (" ", "space appended"), ("\n", "newline appended"), ("A", "character appended"), (".", "segment appended"), (".AA", "segment appended")] {
        if c.r.pct(40) {
            attacks.push((how, format!("{tok}{x}")));
        }
    }
    attacks.push(("signature removed", format!("{sd}.")));
    // the same signature in another alphabet
    for (from, to) in [('-', "+"), ('_', "/"), ('-', "%2D"), ('_', "%5F")] {
        attacks.push(("signature in another alphabet", format!("{sd}.{}", s.replace(from, to))));
        attacks.push(("signature in another alphabet", format!("{sd}.{}", s.replacen(from, to, 1))));
        attacks.push(("token in another alphabet", tok.replace(from, to)));
    }
    // signature-level alterations
    let mut sigs: Vec<(&str, Vec<u8>)> = Vec::new();
    sigs.push(("signature truncated", sig[..sig.len() - 1 - c.r.below(sig.len())].to_vec()));
    sigs.push(("signature extended", [&sig[..], &[c.r.u64() as u8]].concat()));
    sigs.push(("signature doubled", [&sig[..], &sig[..]].concat()));
    sigs.push(("signature zero", vec![0; sig.len()]));
    sigs.push(("signature ones", vec![0xff; sig.len()]));
    sigs.push(("signature of other message", key.sign(format!("{sd}.").as_bytes())));
    sigs.push(("signature of payload only", key.sign(p.as_bytes())));
    sigs.push(("signature of header only", key.sign(h.as_bytes())));
    sigs.push(("signature of decoded text", key.sign(&[unb64(&h), unb64(&p)].concat())));
    sigs.push(("signature of nothing", key.sign(b"")));
    sigs.push(("signature by another key", other.sign(sd.as_bytes())));
    sigs.push(("signature over truncated data", key.sign(&sd.as_bytes()[..sd.len() - 1])));
    if let K::Ed(_) = key {
        sigs.push(("s + L", add_l(&sig)));
    }
    {
        let mut m = sig.clone();
        let i = m.len() - 1 - c.r.below(2.min(m.len()));
        m[i] ^= 1 << c.r.below(8);
        sigs.push(("last signature bytes altered", m));
        let mut m = sig.clone();
        m[0] ^= 1 << c.r.below(8);
        sigs.push(("first signature byte altered", m));
        let mut m = sig.clone();
        m.reverse();
        sigs.push(("signature reversed", m));
        let mut m = sig.clone();
        m.rotate_left(sig.len() / 2);
        sigs.push(("signature halves swapped", m));
    }
    for (how, g) in sigs {
        attacks.push((how, format!("{sd}.{}", b64(g))));
    }
    // segment transplants
    let op: Vec<&str> = otok.split('.').collect();
    attacks.push(("payload of another token", format!("{h}.{}.{s}", op[1])));
    attacks.push(("signature of another token", format!("{sd}.{}", op[2])));
    attacks.push(("signed part of another token", format!("{}.{}.{s}", op[0], op[1])));
    if op[0] != h {
        attacks.push(("header of another token", format!("{}.{p}.{s}", op[0])));
    }
    // same content, other layout, same signature
    for _ in 0..2 {
        let st = Style::Foreign { ws: 50, esc: 10, reorder: true };
        let t2 = format!("{h}.{}.{s}", b64(json::write(&b.payload(), &st, &mut c.r)));
        attacks.push(("payload laid out differently", t2));
        let t2 = format!("{}.{p}.{s}", b64(json::write(&b.header(), &st, &mut c.r)));
        attacks.push(("header laid out differently", t2));
    }
    // altered content, original signature; and re-signed by a key that is not the issuer
    for _ in 0..6 {
        let mut e = b.clone();
        let how = match c.r.below(10) {
            0 => {
                e.aud.push('x');
                "audience edited"
            }
            1 => {
                e.exp = Some(T0 + 1 + c.r.below(1000) as u64);
                "expiry edited"
            }
            2 => {
                e.nbf = Some(c.r.below(1000) as u64);
                "not-before edited"
            }
            3 => {
                e.nnc = Some("forged".into());
                "nonce edited"
            }
            4 => {
                e.cap["mailto:forged@example.com"] = json!({"email/send": [{}]});
                "capability added"
            }
            5 => {
                e.fct = Some(json!({"forged": true}));
                "facts edited"
            }
            6 => {
                e.prf = Some(vec!["bafkr4ihsvgkd4uehgmvpvpm7fhqkbwgkpkrvzbwqwdwrsjrdqv3ysjzcka".into()]);
                "proofs edited"
            }
            7 => {
                e.alg = "none".into();
                "algorithm edited"
            }
            8 => {
                e.ucv.push('1');
                "version edited"
            }
            _ => {
                e.iss = other.did();
                "issuer edited"
            }
        };
        let hs = b64(json::write(&e.header(), &style, &mut c.r));
        let ps = b64(json::write(&e.payload(), &style, &mut c.r));
        attacks.push((how, format!("{hs}.{ps}.{s}")));
        attacks.push(("edited and signature removed", format!("{hs}.{ps}.")));
        let g = other.sign(format!("{hs}.{ps}").as_bytes());
        if e.iss != other.did() {
            attacks.push(("edited and signed by another key", format!("{hs}.{ps}.{}", b64(g))));
        }
    }
    // unusual tokens in the issuer's name that the issuer never signed
    for _ in 0..6 {
        let mut e = forge::body(&mut c.r, &key, true);
        e.exp = *c.r.pick(&[None, None, Some(T0), Some(u64::MAX)]);
        e.nbf = *c.r.pick(&[None, None, Some(T0), Some(0)]);
        if c.r.pct(60) {
            e.alg = c.r.pick(&["", "none", "None", "NONE", "HS256", "EdDSA", "ES256", "RS256", "ES384", "ES512", "PS256", "eddsa", "Ed25519", "JWT", "null", "ES256K", "BLS"]).to_string();
        }
        if c.r.pct(30) {
            e.typ = c.r.pick(&["", "none", "jwt", "JWS", "UCAN", "ucv"]).to_string();
        }
        if c.r.pct(40) {
            e.cap = json!({});
        }
        match c.r.below(5) {
            0 => e.prf = None,
            1 => e.prf = Some(vec![]),
            2 => e.prf = Some((0..c.r.range(1, 70)).map(|i| forge::cid(&format!("proof {i}")).to_string()).collect()),
            _ => (),
        }
        match c.r.below(4) {
            0 => e.aud = key.did(),
            1 => e.aud = String::new(),
            _ => (),
        }
        match c.r.below(5) {
            0 => e.fct = None,
            1 => e.nnc = None,
            2 => e.fct = Some(json!({"pad": "~".repeat(*c.r.pick(&[1000usize, 8000, 30_000, 60_000]))})),
            _ => (),
        }
        if c.r.pct(20) {
            e.ucv = c.r.pick(&["", "0", "0.9.0", "0.8.1", "1.0.0", "0.10.0"]).to_string();
        }
        let hs = b64(json::write(&e.header(), &style, &mut c.r));
        let ps = b64(json::write(&e.payload(), &style, &mut c.r));
        let d = format!("{hs}.{ps}");
        let g = match c.r.below(6) {
            0 => Vec::new(),
            1 => vec![0; sig.len()],
            2 => other.sign(d.as_bytes()),
            3 => key.sign(&d.as_bytes()[1..]),
            4 => {
                let mut g = key.sign(d.as_bytes());
                let i = c.r.below(g.len());
                g[i] ^= 1 << c.r.below(8);
                g
            }
            _ => sig.clone(),
        };
        attacks.push(("unusual token never signed", format!("{d}.{}", b64(g))));
    }
    // issuers that are not the signer, properly laid out and signed by the signer
    let did = key.did();
    let mut dids: Vec<String> = vec![other.did(), did[..did.len() - 1].into(), format!("{did}1"), format!("{did} "), format!(" {did}"), format!("{did}#{}", &did[8..]), did.to_lowercase(), did.to_uppercase(), did.replace("did:key:z", "did:key:"), did.replace("did:key:z", "did:key:z1"), did.replace("did:key", "did:web"), String::new(), "did:key:z".into()];
    for _ in 0..4 {
        dids.push(flip_case(&did, &mut c.r));
    }
    // letters that base58 leaves out because they look like others
    for (from, to) in [("o", "0"), ("o", "O"), ("L", "I"), ("L", "l"), ("1", "l"), ("1", "I"), ("i", "l"), ("Q", "O")] {
        if did[9..].contains(from) {
            dids.push(format!("did:key:z{}", did[9..].replacen(from, to, 1)));
        }
    }
    for x in ["/", "?", "?k=v", ";v=1", ".", "=", "\0", "\u{200b}", "\n"] {
        if c.r.pct(30) {
            dids.push(format!("{did}{x}"));
        }
    }
    {
        // same key bytes under the magic bytes of another type
        let other_magic = *c.r.pick(&[&[0xed, 0x01][..], &[0x80, 0x24], &[0x85, 0x24], keys::MOCK_MAGIC, &[0xe7, 0x01], &[0xea, 0x01], &[0, 0]]);
        if other_magic != key.magic() {
            dids.push(keys::did_of(other_magic, &key.public_bytes()));
        }
        let mut pb = key.public_bytes();
        let i = c.r.below(pb.len());
        pb[i] ^= 1 << c.r.below(8);
        dids.push(keys::did_of(key.magic(), &pb));
    }
    for d in dids {
        if d == did {
            continue;
        }
        // P-256 keys have a second name by flipping the sign byte: another key.
        let mut e = b.clone();
        e.iss = d;
        attacks.push(("signed by someone other than the issuer", e.token(&style, &mut c.r)));
    }

    c.r.shuffle(&mut attacks);
    for (how, t) in &attacks {
        if valid.contains(t) {
            continue;
        }
        let r = validate(t, T0, &mut used);
        c.eval();
        c.ev(how);
        c.seen(t);
        c.state("(key type, alteration)", (key.kind(), how));
        ensure!(
            r.is_err(),
            "a {} token altered by \"{how}\" validates: {}", key.kind(), short(t)
        );
        if c.r.pct(10) {
            let mut fresh = keys::parser();
            ensure!(validate(t, T0, &mut fresh).is_err(), "with a fresh parser a {} token altered by \"{how}\" validates: {}", key.kind(), short(t));
        }
        // signature check alone, without the window
        if let Ok(u) = Ucan::try_from(t.as_str()) {
            ensure!(block_on(u.check_signature(&mut used)).is_err(), "check_signature accepts \"{how}\": {}", short(t));
        }
    }
    // and still, or for the first time, the originals validate
    for (t, k) in [(&tok, &key), (&otok, &other)] {
        let r = validate(t, T0, &mut used);
        ensure!(r.is_ok(), "a validly signed {} token is rejected after {} alterations were: {}", k.kind(), attacks.len(), r.err().unwrap());
        c.eval();
        c.ev("valid tokens accepted");
        ensure!(validate(t, T0, &mut keys::parser()).is_ok(), "a fresh parser rejects a validly signed token");
    }
    c.sample(|| format!("{} token {} with {} alterations, e.g. \"{}\" {}", key.kind(), short(&tok), attacks.len(), attacks[0].0, short(&attacks[0].1)));
    Ok(())
}

/// A key of the same type whose DID looks like the given one as far as possible.
fn similar(k: &K, r: &mut R) -> K {
    match k {
        K::Mock(m) => {
            let mut b = m.0.clone();
            let n = b.len();
            match r.below(4) {
                0 => b[n - 1] ^= 1 << r.below(8),
                1 => b[r.below(n / 2)] ^= 1 << r.below(8),
                2 => b.push(0),
                _ => {
                    let d = flip_case(&k.did(), r);
                    if let Ok(x) = bs58::decode(&d[9..]).into_vec() {
                        if x.len() > 3 && x[..2] == keys::MOCK_MAGIC[..] {
                            b = x[2..].to_vec();
                        }
                    }
                }
            }
            K::Mock(keys::Mock(b))
        }
        K::Ed(_) => keys::ed(r.below(500) as u64),
        K::P(_) => keys::p256_key(r.below(200) as u64),
        K::Rsa(..) => r.pick(&keys::rsa_keys()[..3]).clone(),
    }
}

fn add_l(sig: &[u8]) -> Vec<u8> {
    // little-endian s += L
    let l: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
        0x10,
    ];
    let mut o = sig.to_vec();
    let mut carry = 0u16;
    for i in 0..32 {
        let x = o[32 + i] as u16 + l[i] as u16 + carry;
        o[32 + i] = x as u8;
        carry = x >> 8;
    }
    o
}

// ---------------------------------------------------------------- C02

pub const C02: Prop = Prop {
    id: "C02",
    quick: 30000,
    thorough: 600000,
    level: "exploration",
    rule: "a case is one token with random content in every field and a random JSON layout; every accessor of the decoded token, of its JSON and CBOR structured forms, and of about 15 altered structured forms is compared with an independent reading of the signed bytes; distinct_nontrivial counts distinct (token, altered form) pairs",
    assumptions: &["serde_json and serde_ipld_dagcbor carry values faithfully", "when an object repeats a key, the last value counts"],
    run: c02,
};

/// Compare every field the token reports with the JSON that was signed.
pub fn expect_fields(u: &Ucan, header: &Value, payload: &Value) -> Result<(), String> {
    let opt_u = |k: &str| payload.get(k).and_then(|v| v.as_u64());
    let opt_s = |k: &str| payload.get(k).and_then(|v| v.as_str()).map(|s| s.to_string());
    let e = |name: &str, got: String, want: String| Err(format!("field {name}: decoded {got}, signed {want}"));
    if u.algorithm() != header["alg"].as_str().unwrap_or("\u{0}") {
        return e("alg", u.algorithm().into(), header["alg"].to_string());
    }
    for (k, got) in [("ucv", u.version()), ("iss", u.issuer()), ("aud", u.audience())] {
        if Some(got) != payload[k].as_str() {
            return e(k, got.into(), payload[k].to_string());
        }
    }
    if *u.expires_at() != opt_u("exp") {
        return e("exp", format!("{:?}", u.expires_at()), payload["exp"].to_string());
    }
    if *u.not_before() != opt_u("nbf") {
        return e("nbf", format!("{:?}", u.not_before()), payload["nbf"].to_string());
    }
    if *u.nonce() != opt_s("nnc") {
        return e("nnc", format!("{:?}", u.nonce()), payload["nnc"].to_string());
    }
    let caps = serde_json::to_value(u.capabilities()).map_err(|x| x.to_string())?;
    if caps != payload["cap"] {
        return e("cap", caps.to_string(), payload["cap"].to_string());
    }
    // and through the accessors a user would take
    #[allow(deprecated)]
    if u.attenuation() != u.capabilities() {
        return e("cap", format!("{:?}", u.attenuation()), payload["cap"].to_string());
    }
    let mut n = 0;
    let want = payload["cap"].as_object().ok_or("cap is not an object")?;
    for (res, abs) in u.capabilities().iter_map() {
        for (ab, cavs) in abs.iter() {
            n += 1;
            if want.get(res).and_then(|a| a.get(ab)) != Some(&Value::Array(cavs.clone())) {
                return e("cap", format!("{res} {ab} {cavs:?}"), payload["cap"].to_string());
            }
        }
    }
    if n != want.values().map(|a| a.as_object().map_or(0, |a| a.len())).sum::<usize>() {
        return e("cap", format!("{n} entries"), payload["cap"].to_string());
    }
    let f = u.facts().as_ref().map(|m| Value::Object(m.clone().into_iter().collect::<Map<_, _>>()));
    if f.as_ref() != payload.get("fct") {
        return e("fct", format!("{f:?}"), payload["fct"].to_string());
    }
    let p = u.proofs().as_ref().map(|v| json!(v));
    if p.as_ref() != payload.get("prf") {
        return e("prf", format!("{p:?}"), payload["prf"].to_string());
    }
    Ok(())
}

trait IterMap {
    fn iter_map(&self) -> std::collections::btree_map::Iter<'_, String, std::collections::BTreeMap<String, Vec<Value>>>;
}
impl IterMap for ucan::capability::Capabilities {
    fn iter_map(&self) -> std::collections::btree_map::Iter<'_, String, std::collections::BTreeMap<String, Vec<Value>>> {
        std::ops::Deref::deref(self).iter()
    }
}

/// The signed bytes, read independently.
pub fn read_signed(sd: &[u8]) -> Option<(Value, Value)> {
    let s = std::str::from_utf8(sd).ok()?;
    let (h, p) = s.split_once('.')?;
    use base64::Engine;
    let d = |x: &str| base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(x).ok();
    Some((serde_json::from_slice(&d(h)?).ok()?, serde_json::from_slice(&d(p)?).ok()?))
}

fn c02(c: &mut Case) -> Res {
    let key = keys::any_cheap(&mut c.r);
    let mut b = forge::body(&mut c.r, &key, true);
    if c.r.pct(15) {
        b.alg = match c.r.below(3) {
            0 => json::text(&mut c.r),
            1 => b.alg.chars().map(|x| if c.r.pct(50) { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() }).collect(),
            _ => c.r.pick(&["none", "eddsa", "ES256", "RS256", "HS256", "", "EDDSA", "Ed25519", "EdDSA ", " EdDSA", "es256", "Rs256", "ES384", "ES256K", "PS256", "RS512"]).to_string(),
        };
    }
    if c.r.pct(15) {
        b.typ = c.r.pick(&["jwt", "JWT+ucan", ""]).to_string();
    }
    // text is text: nothing is trimmed, folded or completed
    if c.r.pct(15) {
        let x = c.r.pick(&[" ", "\t", "\n", "\u{a0}", "\u{feff}", "#", "/", ".", "\u{0}"]).to_string();
        let f = match c.r.below(4) {
            0 => &mut b.iss,
            1 => &mut b.aud,
            2 => &mut b.ucv,
            _ => b.nnc.get_or_insert_with(|| "n".into()),
        };
        *f = match c.r.below(4) {
            0 => format!("{x}{f}"),
            1 => format!("{f}{x}"),
            2 => f.to_uppercase(),
            _ => f.to_lowercase(),
        };
        c.ev("tokens with odd text fields");
    }
    if c.r.pct(10) {
        let l = b.prf.get_or_insert_with(Vec::new);
        for _ in 0..c.r.range(1, 3) {
            let cid = forge::cid(&format!("proof {}", c.r.below(9))).to_string();
            let x = match c.r.below(8) {
                0 => format!("ipfs://{cid}"),
                1 => format!("/ipfs/{cid}"),
                2 => format!(" {cid}"),
                3 => format!("{cid}\n"),
                4 => cid.to_uppercase(),
                5 => String::new(),
                6 => json::text(&mut c.r),
                _ => cid,
            };
            let i = c.r.below(l.len() + 1);
            l.insert(i, x);
        }
        c.ev("tokens with odd proofs");
    }
    if c.r.pct(30) {
        // Names another implementation, version or habit might use, with values of the fitting type
        for _ in 0..c.r.range(1, 3) {
            let (names, v): (&[&str], Value) = match c.r.below(5) {
                0 => (&["iat", "expires", "expiration", "expires_at", "expiresAt", "not_before", "notBefore", "NBF", "EXP", "Exp", "ttl", "lifetime", "exp2", "nbf "], json!(forge::time(&mut c.r))),
                1 => (&["jti", "nonce", "sub", "issuer", "audience", "Iss", "ISS", "AUD", "version", "ver", "v", "s", "typ", "alg", "xyz", "NNC", "n"], json!(keys::any_cheap(&mut c.r).did())),
                2 => (&["att", "caps", "capabilities", "attenuation", "CAP", "can", "with"], forge::caps(&mut c.r, 2, false)),
                3 => (&["facts", "meta", "FCT", "fcts"], json::object(&mut c.r, 2, true)),
                _ => (&["proofs", "prfs", "delegations", "PRF", "witnesses"], json!([forge::cid("x").to_string()])),
            };
            let v = if c.r.pct(80) { v } else { json::value(&mut c.r, 1, true) };
            b.extra.insert(c.r.pick(names).to_string(), v);
        }
    }
    let style = json::style(&mut c.r);
    let (hj, pj) = (json::write(&b.header(), &style, &mut c.r), json::write(&b.payload(), &style, &mut c.r));
    let tok = forge::raw_token(&hj, &pj, &key);
    let (hv, pv): (Value, Value) = (serde_json::from_str(&hj).unwrap(), serde_json::from_str(&pj).unwrap());
    c.note(format!("header {hj}\npayload {pj}\ntoken {tok}"));
    let u = match Ucan::try_from(tok.as_str()) {
        Ok(u) => u,
        Err(e) => bail!("a well-formed token does not decode: {e:#}"),
    };
    c.eval();
    c.seen(&tok);
    c.ev("tokens decoded");
    if let Err(e) = expect_fields(&u, &hv, &pv) {
        bail!("{e}");
    }
    let (sd, sg) = tok.rsplit_once('.').unwrap();
    ensure!(u.signed_data() == sd.as_bytes(), "signed_data() is not the first two segments");
    ensure!(u.signature() == unb64(sg), "signature() is not the third segment");
    for (name, u2) in [("String", Ucan::try_from(tok.clone())), ("FromStr", Ucan::from_str(&tok)), ("Clone", Ok(u.clone()))] {
        ensure!(u2.as_ref().ok() == Some(&u), "decoding through {name} differs");
    }

    // structured forms
    let v = match serde_json::to_value(&u) {
        Ok(v) => v,
        Err(e) => bail!("the token has no structured form: {e}"),
    };
    let back: Result<Ucan, _> = serde_json::from_value(v.clone());
    ensure!(back.as_ref().ok() == Some(&u), "the JSON structured form does not give the token back: {:?}", back.err());
    let u3 = back.unwrap();
    if let Err(e) = expect_fields(&u3, &hv, &pv) {
        bail!("from its structured form: {e}");
    }
    c.eval();
    if let Ok(cb) = serde_ipld_dagcbor::to_vec(&u) {
        let back: Result<Ucan, _> = serde_ipld_dagcbor::from_slice(&cb);
        ensure!(back.as_ref().ok() == Some(&u), "the CBOR structured form does not give the token back: {:?}", back.err());
        c.eval();
        c.ev("CBOR structured forms decoded");
    }
    c.ev("JSON structured forms decoded");

    // altered structured forms
    let other = forge::body(&mut c.r, &key, true);
    let otok = other.token(&style, &mut c.r);
    let ov = Ucan::try_from(otok.as_str()).ok().and_then(|u| serde_json::to_value(u).ok());
    let mut p = keys::parser();
    for k in 0..18 {
        let mut m = v.clone();
        let how = match k {
            14 => {
                // deep in a fact
                let Some(f) = m["payload"]["fct"].as_object_mut() else { continue };
                let Some(x) = f.values_mut().next() else { continue };
                *x = match &*x {
                    Value::Object(o) if !o.is_empty() => {
                        let mut o = o.clone();
                        let k = o.keys().next_back().unwrap().clone();
                        o.insert(k, json!("forged"));
                        Value::Object(o)
                    }
                    Value::Array(l) if !l.is_empty() => json!(l[1..]),
                    Value::Number(n) => json!(n.as_f64().unwrap_or(0.0) as i64 ^ 1),
                    _ => json!("forged"),
                };
                "one fact"
            }
            15 => {
                // the caveats of one capability
                let Some(a) = m["payload"]["cap"].as_object_mut().and_then(|o| o.values_mut().next_back()).and_then(|a| a.as_object_mut()).and_then(|a| a.values_mut().next_back()).and_then(|l| l.as_array_mut()) else { continue };
                if a.len() > 1 && c.r.pct(50) {
                    a.reverse();
                } else if let Some(x) = a.last_mut() {
                    *x = if x == &json!({}) { json!({"forged": null}) } else { json!({}) };
                }
                "caveats"
            }
            16 => {
                m["header"]["typ"] = json!("JWS");
                "typ"
            }
            17 => {
                let k = *c.r.pick(&["fct", "prf", "nnc", "nbf", "exp"]);
                if m["payload"].as_object_mut().unwrap().remove(k).is_none() {
                    let x = match k {
                        "fct" => json!({}),
                        "prf" => json!([]),
                        "nnc" => json!(""),
                        _ => json!(0),
                    };
                    m["payload"][k] = x;
                }
                "optional field left out or emptied"
            }
            0 => {
                m["payload"]["iss"] = json!(keys::any_cheap(&mut c.r).did());
                "iss"
            }
            1 => {
                m["payload"]["aud"] = json!("did:key:zForged");
                "aud"
            }
            2 => {
                m["payload"]["exp"] = if m["payload"]["exp"].is_null() { json!(5) } else { json!(null) };
                "exp"
            }
            3 => {
                m["payload"]["exp"] = json!(u64::MAX - 7);
                "exp"
            }
            4 => {
                let x = m["payload"]["nbf"].as_u64();
                if x.is_some() && c.r.pct(50) {
                    m["payload"].as_object_mut().unwrap().remove("nbf");
                } else {
                    m["payload"]["nbf"] = json!(x.map_or(3, |x| x ^ 1));
                }
                "nbf"
            }
            5 => {
                m["payload"]["nnc"] = json!("forged");
                "nnc"
            }
            6 => {
                m["payload"]["cap"]["mailto:forged@example.com"] = json!({"email/send": [{}]});
                "cap added"
            }
            7 => {
                let caps = m["payload"]["cap"].as_object_mut().unwrap();
                let Some(k) = caps.keys().next().cloned() else { continue };
                if c.r.pct(50) {
                    caps.remove(&k);
                } else {
                    let a = caps.get_mut(&k).unwrap().as_object_mut().unwrap();
                    let ka = a.keys().next().cloned().unwrap();
                    let l = a.get_mut(&ka).unwrap().as_array_mut().unwrap();
                    l.push(json!({"forged": 1}));
                }
                "cap edited"
            }
            8 => {
                m["payload"]["fct"] = json!({"forged": true});
                "fct"
            }
            9 => {
                let l = m["payload"]["prf"].as_array().cloned().unwrap_or_default();
                let mut l2 = l.clone();
                if l2.len() > 1 && c.r.pct(50) {
                    l2.reverse();
                } else {
                    l2.push(json!("bafkforged"));
                }
                m["payload"]["prf"] = json!(l2);
                "prf"
            }
            10 => {
                m["payload"]["ucv"] = json!("9.9.9");
                "ucv"
            }
            11 => {
                m["header"]["alg"] = json!("none-such");
                "alg"
            }
            12 => {
                let Some(o) = &ov else { continue };
                m["payload"] = o["payload"].clone();
                "payload of another token"
            }
            _ => {
                let Some(o) = &ov else { continue };
                m["signed_data"] = o["signed_data"].clone();
                m["signature"] = o["signature"].clone();
                "signed part of another token"
            }
        };
        if m == v {
            continue;
        }
        c.eval();
        c.ev("altered structured forms tried");
        c.state("altered field", how);
        c.seen((k, &tok));
        let cbor: Option<Ucan> = serde_ipld_dagcbor::to_vec(&m).ok().and_then(|b| serde_ipld_dagcbor::from_slice(&b).ok());
        let js: Option<Ucan> = serde_json::from_value(m.clone()).ok();
        for (form, x) in [("JSON", js), ("CBOR", cbor)] {
            let Some(x) = x else { continue };
            let consistent = read_signed(x.signed_data()).is_some_and(|(h, p)| expect_fields(&x, &h, &p).is_ok());
            if !consistent {
                ensure!(block_on(x.check_signature(&mut p)).is_err(), "a {form} structured form with altered {how} is accepted and its signature checks, although its fields are not what was signed: {m}");
            }
        }
    }
    c.sample(|| format!("payload {pj}"));
    Ok(())
}

// ---------------------------------------------------------------- C03

pub const C03: Prop = Prop {
    id: "C03",
    quick: 400000,
    thorough: 1500000,
    level: "exploration",
    rule: "a case takes a well-formed token with random content, checks that it decodes, and breaks it in one way of the catalogue (segments, base64, JSON text, required fields, types, capability shapes), properly re-signed, which must not decode; distinct_nontrivial counts distinct malformed strings",
    assumptions: &["optional fields given as JSON null are not judged (the specification does not fix them)", "unknown extra fields are allowed"],
    run: c03,
};

fn wrong(r: &mut R, allowed: &[&str]) -> Value {
    loop {
        let (kind, v) = match r.below(12) {
            0 => ("int", json!(7)),
            1 => ("int", json!(0)),
            2 => ("neg", json!(-1)),
            3 => ("float", json!(1.5)),
            4 => ("bool", json!(true)),
            5 => ("array", json!([])),
            6 => ("array", json!(["x"])),
            7 => ("object", json!({})),
            8 => ("object", json!({"x": "y"})),
            9 => ("string", json!("12")),
            10 => ("string", json!("")),
            _ => ("null", json!(null)),
        };
        if !allowed.contains(&kind) {
            return v;
        }
    }
}

fn c03(c: &mut Case) -> Res {
    let key = r_mock(&mut c.r);
    let mut b = forge::body(&mut c.r, &key, true);
    if c.r.pct(10) {
        b.omit_exp = true;
    }
    if c.r.pct(20) {
        b.extra.insert("extra".into(), json::value(&mut c.r, 2, true));
    }
    let style = json::style(&mut c.r);
    let r = &mut c.r;
    let hv = b.header();
    let pv = b.payload();
    let hj = json::write(&hv, &style, r);
    let pj = json::write(&pv, &style, r);
    let good = forge::raw_token(&hj, &pj, &key);
    if !b.omit_exp {
        if let Err(e) = Ucan::try_from(good.as_str()) {
            c.note(format!("payload {pj}"));
            bail!("a well-formed token does not decode: {e:#}");
        }
    }
    c.ev("well-formed tokens decoded");
    let r = &mut c.r;
    let parts: Vec<&str> = good.split('.').collect();
    let (h, p, s) = (parts[0], parts[1], parts[2]);
    let resign = |hj: &str, pj: &str| forge::raw_token(hj, pj, &key);
    let kind = r.below(46);
    let (how, bad): (&str, String) = match kind {
        0 => ("one segment", h.to_string()),
        1 => ("two segments", format!("{h}.{p}")),
        2 => ("four segments", format!("{good}.{}", r.pick(&["", "AA", s, "!!"]))),
        3 => ("leading empty segment", format!(".{good}")),
        4 => ("doubled dot", good.replacen('.', "..", 1)),
        5 => ("empty string", r.pick(&["", ".", "..", "...", " "]).to_string()),
        6 => {
            let k = r.below(3);
            let v: Vec<&str> = (0..3).map(|i| if i == k && k < 2 { "" } else { parts[i] }).collect();
            if k == 2 {
                ("five segments", format!("{good}.AA.AA"))
            } else {
                ("empty segment", v.join("."))
            }
        }
        7 | 8 => {
            let k = r.below(3);
            let pad = *r.pick(&["=", "==", "\n", " ", "+", "/", "!", "%3D", "\u{e9}"]);
            let v: Vec<String> = (0..3).map(|i| if i == k { format!("{}{pad}", parts[i]) } else { parts[i].to_string() }).collect();
            if pad == "+" || pad == "/" || pad == "\u{e9}" || !pad.contains('A') {
                ("character outside base64url", v.join("."))
            } else {
                ("x", v.join("."))
            }
        }
        9 => {
            // standard alphabet instead of url-safe
            let v = good.replace('-', "+").replace('_', "/");
            if v == good {
                return Ok(());
            }
            ("standard base64 alphabet", v)
        }
        10 => {
            // non-zero trailing bits or an impossible length
            let k = r.below(3);
            let x = parts[k];
            let y = match x.len() % 4 {
                0 => format!("{x}A"),
                2 | 3 => {
                    let al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
                    let i = al.find(x.chars().last().unwrap()).unwrap();
                    let i2 = i | if x.len() % 4 == 2 { 1 + r.below(15) } else { 1 + r.below(3) };
                    if i2 == i {
                        return Ok(());
                    }
                    format!("{}{}", &x[..x.len() - 1], &al[i2..i2 + 1])
                }
                _ => return Ok(()),
            };
            let v: Vec<String> = (0..3).map(|i| if i == k { y.clone() } else { parts[i].to_string() }).collect();
            ("non-canonical base64", v.join("."))
        }
        11 => ("segment not base64 of JSON", resign(r.pick(&["", "x", "{", "}", "nul", "\"", "{\"alg\":}"]), &pj)),
        12 => ("segment not base64 of JSON", resign(&hj, r.pick(&["", "x", "{", "}", "[", "{\"ucv\":}", "\u{feff}{}"]))),
        13 => ("trailing data after payload", resign(&hj, &format!("{pj}{}", r.pick(&["{}", "x", ",", "}", "null", " 1", "\n{}", "\u{0}", "[]", "\"\"", "/**/"])))),
        14 => ("trailing data after header", resign(&format!("{hj}{}", r.pick(&["{}", "x", ",", "}", "null", " 1", "\n{}", "\u{0}", "[]"])), &pj)),
        15 => ("leading data before payload", resign(&hj, &format!("{}{pj}", r.pick(&["{}", "x", ",", "null", "1 ", "\u{feff}", "//c\n"])))),
        16 => ("leading data before header", resign(&format!("{}{hj}", r.pick(&["{}", "x", ",", "null", "1 ", "\u{feff}"])), &pj)),
        17 => {
            let n = 1 + r.below(pj.len().saturating_sub(1).max(1));
            let mut n = n.min(pj.len() - 1);
            while !pj.is_char_boundary(n) {
                n -= 1
            }
            ("payload JSON cut short", resign(&hj, &pj[..n]))
        }
        18 => {
            let mut n = 1 + r.below(hj.len() - 1);
            while !hj.is_char_boundary(n) {
                n -= 1
            }
            ("header JSON cut short", resign(&hj[..n], &pj))
        }
        19 => {
            let mut bs = pj.clone().into_bytes();
            // an invalid byte inside a string
            let Some(i) = pj.find("\"iss\"").or(pj.find('"')) else { return Ok(()) };
            bs.insert(i + 1, *r.pick(&[0xff, 0xc0, 0x80, 0xfe]));
            let sd = format!("{}.{}", b64(&hj), b64(&bs));
            ("payload not UTF-8", format!("{sd}.{}", b64(key.sign(sd.as_bytes()))))
        }
        20 => ("header is not an object", resign(&json::write(&wrong(r, &["object"]), &style, r), &pj)),
        21 => ("payload is not an object", resign(&hj, &json::write(&wrong(r, &["object"]), &style, r))),
        22 => ("header given as a list", resign(&json!(["EdDSA", "JWT"]).to_string(), &pj)),
        23 => {
            let o = |k: &str| pv.get(k).cloned().unwrap_or(Value::Null);
            let l = json!([o("ucv"), o("iss"), o("aud"), o("exp"), o("nbf"), o("nnc"), o("cap"), o("fct"), o("prf")]);
            ("payload given as a list", resign(&hj, &l.to_string()))
        }
        24 | 25 => {
            let k = *r.pick(&["alg", "typ"]);
            let mut m = hv.clone();
            let o = m.as_object_mut().unwrap();
            if r.pct(40) {
                o.remove(k);
            } else {
                o.insert(k.into(), wrong(r, &["string"]));
            }
            ("header field missing or of the wrong type", resign(&json::write(&m, &style, r), &pj))
        }
        26..=29 => {
            let k = *r.pick(&["ucv", "iss", "aud", "cap"]);
            let mut m = pv.clone();
            m.as_object_mut().unwrap().remove(k);
            if r.pct(50) {
                // a look-alike does not count
                m.as_object_mut().unwrap().insert(r.pick(&["Cap", "att", "issuer", "ISS", "ucan", "audience", "aud "]).to_string(), pv[k].clone());
            }
            ("payload field missing", resign(&hj, &json::write(&m, &style, r)))
        }
        30..=35 => {
            let mut m = pv.clone();
            let (k, allowed): (&str, &[&str]) = *r.pick(&[
                ("ucv", &["string"][..]),
                ("iss", &["string"]),
                ("aud", &["string"]),
                ("exp", &["int", "null"]),
                ("nbf", &["int", "null"]),
                ("nnc", &["string", "null"]),
                ("fct", &["object", "null"]),
                ("prf", &["array", "null"]),
                ("cap", &["object"]),
            ]);
            let mut w = wrong(r, allowed);
            if k == "prf" && r.pct(50) {
                w = r.pick(&[json!([1]), json!([null]), json!(["bafy", {}]), json!([["x"]]), json!({"0": "x"}), json!([true, "x"])]).clone();
            }
            m.as_object_mut().unwrap().insert(k.into(), w);
            ("payload field of the wrong type", resign(&hj, &json::write(&m, &style, r)))
        }
        36 => {
            let k = *r.pick(&["exp", "nbf"]);
            let v = *r.pick(&["18446744073709551616", "1e3", "1.0", "-0", "1e400", "99999999999999999999999999999999999999999", "0x10", "01", "+1", "NaN", "1_000"]);
            // -0 is a float in DAG-JSON; all of these are not unsigned integers
            let mut m = pv.clone();
            m.as_object_mut().unwrap().insert(k.into(), json!("@@@"));
            let t = json::write(&m, &Style::Canonical, r).replacen("\"@@@\"", v, 1);
            ("time that is not an unsigned integer", resign(&hj, &t))
        }
        37 => {
            let k = *r.pick(&["ucv", "iss", "aud"]);
            let mut m = pv.clone();
            let w = r.pick(&[json!({"/": {"bytes": "AAAA"}}), json!({"/": "bafkreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy"})]).clone();
            m.as_object_mut().unwrap().insert(k.into(), w);
            ("DAG-JSON bytes or link instead of text", resign(&hj, &json::write(&m, &Style::Canonical, r)))
        }
        _ => {
            // capability shapes, next to well-formed ones
            let mut m = pv.clone();
            let cap = m["cap"].as_object_mut().unwrap();
            let res = r.pick(&["mailto:alice@example.com", "a:first", "zz:last", ""]).to_string();
            let bad = match r.below(13) {
                10 => {
                    // one among many
                    let n = *r.pick(&[3, 9, 17, 33, 65, 130]);
                    let mut l: Vec<Value> = (0..n).map(|i| if i % 3 == 0 { json!({}) } else { json!({ "n": i }) }).collect();
                    let i = r.below(n);
                    l[i] = wrong(r, &["object"]);
                    json!({ "a/b": [{}], "email/send": l, "x/y": [{}] })
                }
                11 => {
                    let n = *r.pick(&[3, 9, 17, 33, 65]);
                    let mut o: Map<String, Value> = (0..n).map(|i| (format!("a/{i}"), json!([{}]))).collect();
                    let i = r.below(n);
                    o.insert(format!("a/{i}"), if r.pct(50) { json!([wrong(r, &["object"])]) } else { wrong(r, &["array"]) });
                    Value::Object(o)
                }
                12 => {
                    let n = *r.pick(&[3, 9, 17, 33, 65]);
                    for i in 0..n {
                        cap.insert(format!("res:{i}"), json!({"a/b": [{}]}));
                    }
                    cap.insert(format!("res:{}", r.below(n)), if r.pct(50) { json!({}) } else { json!({ "a/b": [wrong(r, &["object"])] }) });
                    json!({"a/b": [{}]})
                }
                0 => json!({}),
                1 => wrong(r, &["object"]),
                2 => json!({ "email/send": wrong(r, &["array"]) }),
                3 => json!({"email/send": [wrong(r, &["object"])]}),
                4 => json!({"email/send": [{}, wrong(r, &["object"])]}),
                5 => json!({"email/send": [wrong(r, &["object"]), {}]}),
                6 => json!({"email/send": [{}], "x/y": wrong(r, &["array"])}),
                7 => json!({"email/send": [], "x/y": [[{}]]}),
                8 => json!([{"with": "x", "can": "y"}]),
                _ => json!({"a/b": [{}, {}, {"q": 1}, null]}),
            };
            cap.insert(res, bad);
            ("capabilities of the wrong shape", resign(&hj, &json::write(&m, &style, r)))
        }
    };
    if bad == good {
        return Ok(());
    }
    c.note(format!("{how}: {bad}"));
    if let Some((_, pl)) = bad.split('.').collect::<Vec<_>>().get(1).map(|x| ((), x.to_string())) {
        use base64::Engine;
        if let Ok(b) = base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(pl) {
            c.note(format!("payload text: {}", String::from_utf8_lossy(&b)));
        }
    }
    c.eval();
    c.ev(how);
    c.seen(&bad);
    c.state("malformation", (how, kind));
    let r1 = Ucan::try_from(bad.as_str());
    let r2 = Ucan::try_from(bad.clone());
    let r3 = bad.parse::<Ucan>();
    ensure!(r1.is_err() && r2.is_err() && r3.is_err(), "malformed token decodes ({how}): {bad}");
    c.sample(|| format!("{how}: {bad}"));
    Ok(())
}

fn r_mock(r: &mut R) -> K {
    r.pick(keys::mocks()).clone()
}

// ---------------------------------------------------------------- C04

pub const C04: Prop = Prop {
    id: "C04",
    quick: 50000,
    thorough: 150000,
    level: "exploration",
    rule: "a case gives the builder random content and a random key of a random supported type, signs it twice and once more with the insertion order shuffled, and decodes and validates the results; distinct_nontrivial counts distinct encoded tokens",
    assumptions: &["determinism of signing is that of the shipped key types (RFC 8032, RFC 6979, PKCS#1 v1.5)"],
    run: c04,
};

pub struct Content {
    pub aud: String,
    pub exp: Option<u64>,
    pub nbf: Option<u64>,
    pub facts: Vec<(String, Value)>,
    pub caps: Vec<Capability>,
    pub proofs: Vec<Ucan>,
}

pub fn content(r: &mut R) -> Content {
    let n = r.below(5);
    let mut facts: Vec<(String, Value)> = Vec::new();
    for _ in 0..n {
        let k = json::text(r);
        if k != "/" && !facts.iter().any(|f| f.0 == k) {
            facts.push((k, json::value(r, 3, false)));
        }
    }
    let mut caps = Vec::new();
    if let Value::Object(m) = forge::caps(r, 4, false) {
        for (res, abs) in m {
            for (ab, cavs) in abs.as_object().unwrap() {
                for cav in cavs.as_array().unwrap() {
                    caps.push(Capability::new(res.clone(), ab.clone(), cav.clone()));
                }
            }
        }
    }
    let np = *r.pick(&[0usize, 0, 1, 2, 11]);
    let proofs = (0..np)
        .map(|i| {
            let k = keys::mock(i as u64);
            let mut b = Body::new(&k, "did:key:zAnyone");
            b.nnc = Some(r.u64().to_string());
            Ucan::try_from(b.canonical()).expect("proof token decodes")
        })
        .collect();
    Content {
        aud: match r.below(3) {
            0 => keys::any_cheap(r).did(),
            1 => "did:web:example.com".into(),
            _ => json::text(r),
        },
        exp: if r.pct(70) { Some(forge::time(r)) } else { None },
        nbf: if r.pct(50) { Some(forge::time(r)) } else { None },
        facts,
        caps,
        proofs,
    }
}

pub fn sign_content<K2: ucan::crypto::KeyMaterial>(key: &K2, x: &Content, facts: &[(String, Value)], caps: &[Capability]) -> anyhow::Result<Ucan> {
    let mut b = UcanBuilder::default().issued_by(key).for_audience(&x.aud);
    if let Some(e) = x.exp {
        b = b.with_expiration(e);
    }
    if let Some(n) = x.nbf {
        b = b.not_before(n);
    }
    for (k, v) in facts {
        b = b.with_fact(k, v.clone());
    }
    for p in &x.proofs {
        b = b.witnessed_by(p, None);
    }
    b = b.claiming_capabilities(caps);
    block_on(b.build()?.sign())
}

fn c04(c: &mut Case) -> Res {
    let key = keys::any(&mut c.r);
    let cut = key.cut();
    let mut x = content(&mut c.r);
    // content DAG-JSON may have no form for: signing may fail, but not mislead
    let delicate = c.r.pct(12);
    if delicate {
        let inner = match c.r.below(5) {
            0 => Value::Null,
            1 => json!(forge::cid("x").to_string()),
            2 => json!({"bytes": "AQID"}),
            3 => json!(json::text(&mut c.r)),
            _ => json::value(&mut c.r, 2, true),
        };
        let odd = match c.r.below(4) {
            0 => inner,
            1 => json!({"/": inner}),
            2 => json!([{"/": inner}]),
            _ => json!({"a": {"/": inner}, "b": 1}),
        };
        if c.r.pct(50) {
            let k = if c.r.pct(40) { "/".to_string() } else { "odd".to_string() };
            x.facts.retain(|f| f.0 != k);
            x.facts.push((k, odd));
        } else {
            let odd = if odd.is_object() { odd } else { json!({ "odd": odd }) };
            let (r, a) = match c.r.below(3) {
                0 => ("/", "odd/ability"),
                1 => ("odd:resource", "/"),
                _ => ("odd:resource", "odd/ability"),
            };
            x.caps.push(Capability::new(r.to_string(), a.to_string(), odd));
        }
    }
    let x = x;
    c.note(format!("{} key, aud {:?} exp {:?} nbf {:?} facts {:?} caps {:?} {} proofs", key.kind(), x.aud, x.exp, x.nbf, x.facts, x.caps, x.proofs.len()));
    let u = match sign_content(&cut, &x, &x.facts, &x.caps) {
        Ok(u) => u,
        Err(_) if delicate => {
            c.ev("content DAG-JSON has no form for refused");
            return Ok(());
        }
        Err(e) => bail!("representable content can not be signed: {e:#}"),
    };
    let tok = match u.encode() {
        Ok(t) => t,
        Err(e) => bail!("a signed token can not be encoded: {e:#}"),
    };
    c.eval();
    c.seen(&tok);
    c.ev(key.kind());
    let d = match Ucan::try_from(tok.as_str()) {
        Ok(d) => d,
        Err(e) => bail!("a signed and encoded token does not decode: {e:#} ({tok})"),
    };
    ensure!(d == u, "decoding gives another token: {d:?} instead of {u:?}");
    ensure!(d.encode().ok().as_ref() == Some(&tok), "encoding again gives another string");
    // field by field against what the builder was given
    let mut caps = Map::new();
    for cp in &x.caps {
        let a = caps.entry(cp.resource.clone()).or_insert(json!({}));
        if a.get(&cp.ability).is_none() {
            a[&cp.ability] = json!([]);
        }
        a[&cp.ability].as_array_mut().unwrap().push(cp.caveat.clone());
    }
    let mut payload = json!({
        "ucv": d.version(), "iss": key.did(), "aud": x.aud, "exp": x.exp, "cap": caps,
    });
    if let Some(n) = x.nbf {
        payload["nbf"] = json!(n);
    }
    if !x.facts.is_empty() {
        payload["fct"] = Value::Object(x.facts.iter().cloned().collect());
    }
    if !x.proofs.is_empty() {
        payload["prf"] = json!(x.proofs.iter().map(|p| forge::cid(&p.encode().unwrap()).to_string()).collect::<Vec<_>>());
    }
    for (name, t) in [("signed", &u), ("decoded", &d)] {
        if let Err(e) = expect_fields(t, &json!({"alg": key.alg()}), &payload) {
            bail!("{name} token: {e}");
        }
    }
    ensure!(d.nonce().is_none(), "a nonce nobody asked for");
    // valid at the ends of its window and in between
    let lo = x.nbf.unwrap_or(0);
    let hi = x.exp.unwrap_or(u64::MAX);
    let mut p = keys::parser();
    if lo <= hi {
        for t in [lo, hi, lo + (hi - lo) / 2] {
            let r = block_on(d.validate(Some(t), &mut p));
            ensure!(r.is_ok(), "the token does not validate at {t}: {:#}", r.err().unwrap());
            c.eval();
        }
    }
    ensure!(block_on(u.check_signature(&mut p)).is_ok(), "the signature of the signed token does not check");
    // again, and in another order
    let again = sign_content(&cut, &x, &x.facts, &x.caps).and_then(|u| u.encode());
    ensure!(again.as_ref().ok() == Some(&tok), "signing the same content again gives another token");
    let mut facts = x.facts.clone();
    c.r.shuffle(&mut facts);
    // keep the order of caveats of one (resource, ability)
    let mut groups: Vec<(String, String)> = Vec::new();
    for cp in &x.caps {
        let g = (cp.resource.clone(), cp.ability.clone());
        if !groups.contains(&g) {
            groups.push(g);
        }
    }
    let mut order: Vec<usize> = x.caps.iter().map(|cp| groups.iter().position(|g| g.0 == cp.resource && g.1 == cp.ability).unwrap()).collect();
    c.r.shuffle(&mut order);
    let mut queues: Vec<std::collections::VecDeque<Capability>> = groups
        .iter()
        .map(|g| x.caps.iter().filter(|cp| cp.resource == g.0 && cp.ability == g.1).cloned().collect())
        .collect();
    let caps: Vec<Capability> = order.iter().map(|g| queues[*g].pop_front().unwrap()).collect();
    let other = sign_content(&cut, &x, &facts, &caps).and_then(|u| u.encode());
    c.eval();
    ensure!(other.as_ref().ok() == Some(&tok), "the insertion order changed the token: {:?} instead of {tok}", other);
    c.evn("order changes tried", (caps != x.caps) as u64 + (facts != x.facts) as u64);
    c.sample(|| format!("{} key: {tok}", key.kind()));
    Ok(())
}

// ---------------------------------------------------------------- C05

pub const C05: Prop = Prop {
    id: "C05",
    quick: 120000,
    thorough: 800000,
    level: "exploration",
    rule: "a case is one token string, half of them in layouts other implementations write (key order, white space, escapes, extra fields), decoded and encoded again in several ways and hashed under every hash the library offers; distinct_nontrivial counts distinct token strings",
    assumptions: &["the multihash crate computes its hashes; the SHA2-256 CID bytes are assembled by hand"],
    run: c05,
};

/// A string that differs from this token in a way a lenient decoder may overlook.
fn near_miss(r: &mut R, tok: &str) -> String {
    const ABC: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut seg: Vec<String> = tok.split('.').map(String::from).collect();
    let i = r.below(seg.len());
    match r.below(9) {
        // another signature, of any length
        7 | 8 => {
            let n = *r.pick(&[0usize, 0, 1, 2, 3, 31, 32, 63, 64, 65, 66, 96, 127, 128, 255, 256, 257, 384, 512, 513, 1024]);
            let mut b: Vec<u8> = if r.pct(50) { vec![0; n] } else { (0..n).map(|_| r.u64() as u8).collect() };
            if n > 3 && r.pct(50) {
                b[n - 2..].fill(0);
            }
            seg[2] = b64(b);
        }
        // the unused bits of a segment's last character
        0..=2 => {
            if let Some(x) = seg[i].pop() {
                let at = ABC.iter().position(|b| *b as char == x).unwrap_or(0);
                let low = r.range(1, 15);
                seg[i].push(ABC[at ^ low] as char);
            }
        }
        3 => seg[i].push_str(r.pick(&["=", "==", " ", "\n", "\t"])),
        4 => seg[i].insert_str(0, r.pick(&[" ", "\n", "="])),
        5 => {
            let n = r.below(seg[i].len() + 1);
            seg[i].insert_str(n, r.pick(&["\n", "\r\n", " ", "A"]));
        }
        _ => {
            let from = seg[i].clone();
            seg[i] = from.replace('-', "+").replace('_', "/");
        }
    }
    seg.join(".")
}

fn c05(c: &mut Case) -> Res {
    let key = keys::any_cheap(&mut c.r);
    let mut b = forge::body(&mut c.r, &key, true);
    b.omit_exp = c.r.pct(15);
    if c.r.pct(40) {
        b.extra.insert(format!("x-{}", json::text(&mut c.r)), json::value(&mut c.r, 2, true));
    }
    if c.r.pct(20) {
        b.typ = c.r.pick(&["jwt", "UCAN"]).to_string();
    }
    let style = json::style(&mut c.r);
    let mut hv = b.header();
    if c.r.pct(30) {
        hv["kid"] = json!("k1");
    }
    let (mut hj, mut pj) = (json::write(&hv, &style, &mut c.r), json::write(&b.payload(), &style, &mut c.r));
    // white space around a segment's JSON: its base64 then starts or ends in any of several letters
    let padded = c.r.pct(20);
    if padded {
        for j in [&mut hj, &mut pj] {
            for _ in 0..c.r.below(4) {
                let w = *c.r.pick(&[" ", "\n", "\t", "\r"]);
                if c.r.pct(25) {
                    j.insert_str(0, w)
                } else {
                    j.push_str(w)
                }
            }
        }
    }
    let tok = forge::raw_token(&hj, &pj, &key);
    c.note(format!("payload {pj}\ntoken {tok}"));
    let Ok(u) = Ucan::try_from(tok.as_str()) else {
        // only `exp` may be missing from an otherwise well-formed token here
        ensure!(b.omit_exp || padded, "a well-formed token does not decode");
        return Ok(());
    };
    if padded {
        c.ev("tokens with white space around their JSON");
    }
    c.eval();
    c.seen(&tok);
    c.ev(if style == Style::Canonical { "canonical tokens" } else { "foreign tokens" });
    let e = match u.encode() {
        Ok(e) => e,
        Err(e) => bail!("an accepted token can not be encoded: {e:#}"),
    };
    ensure!(e == tok, "encoding an accepted token gives {e} instead of {tok}");
    ensure!(u.clone().encode().ok() == Some(e.clone()), "a clone encodes differently");
    let again = Ucan::try_from(e.as_str());
    ensure!(again.is_ok_and(|a| a == u), "the encoded token decodes to something else");
    if let Ok(v) = serde_json::to_value(&u) {
        if let Ok(x) = serde_json::from_value::<Ucan>(v) {
            ensure!(x.encode().ok() == Some(tok.clone()), "through its structured form the token encodes differently");
        }
    }
    // strings that resemble an accepted token: if one is accepted, it too comes back as it is
    for _ in 0..6 {
        let near = near_miss(&mut c.r, &tok);
        if near == tok {
            continue;
        }
        c.eval();
        match Ucan::try_from(near.as_str()) {
            Ok(n) => {
                c.ev("similar strings accepted");
                ensure!(n.encode().ok().as_ref() == Some(&near), "encoding the accepted {near} gives {:?}", n.encode());
                ensure!(n.to_cid(cid::multihash::Code::Blake3_256).ok() == Some(forge::raw_cid(near.as_bytes(), cid::multihash::Code::Blake3_256)), "the CID of {near} is not its address");
            }
            Err(_) => c.ev("similar strings refused"),
        }
    }
    // content addresses
    let codes: &[cid::multihash::Code] = if c.r.pct(25) { forge::CODES } else { &forge::CODES[..2] };
    for code in codes {
        let got = match u.to_cid(*code) {
            Ok(g) => g,
            Err(e) => bail!("no CID under {code:?}: {e:#}"),
        };
        let want = forge::raw_cid(tok.as_bytes(), *code);
        c.eval();
        c.state("hash", format!("{code:?}"));
        ensure!(got == want, "CID under {code:?} is {got}, the address of the string is {want}");
    }
    {
        // by hand: 0x01 (v1) 0x55 (raw) 0x12 (sha2-256) 0x20 digest
        use sha2::Digest;
        let mut by = vec![0x01, 0x55, 0x12, 0x20];
        by.extend(sha2::Sha256::digest(tok.as_bytes()));
        let got = u.to_cid(cid::multihash::Code::Sha2_256).unwrap().to_bytes();
        ensure!(got == by, "the SHA2-256 CID is not CIDv1 raw sha2-256 of the string");
    }
    if c.r.pct(50) {
        let mut st = MemoryStore::default();
        let at = block_on(st.write_token(&tok));
        ensure!(at.as_ref().ok() == u.to_cid(cid::multihash::Code::Blake3_256).ok().as_ref(), "the store keeps the string under {at:?}");
        let back = block_on(st.read_token(&at.unwrap())).ok().flatten();
        ensure!(back.as_ref() == Some(&tok), "the store gives back {back:?}");
        c.ev("store addresses compared");
        c.eval();
    }
    c.sample(|| format!("{tok} -> {}", u.to_cid(cid::multihash::Code::Blake3_256).map(|x| x.to_string()).unwrap_or_default()));
    Ok(())
}

// ---------------------------------------------------------------- C06

pub const C06: Prop = Prop {
    id: "C06",
    quick: 12000,
    thorough: 300000,
    level: "exploration",
    rule: "a case is one (not-before, expiry) pair, single or placed at a chosen depth of a proof chain, probed at and around both bounds with the time given explicitly (the wall clock elsewhere) or by the virtual wall clock; distinct_nontrivial counts distinct (bounds, time, source of time, depth) combinations with at least one bound",
    assumptions: &["the wall clock is read through clock_gettime(CLOCK_REALTIME), which the harness substitutes (self-checked at start)"],
    run: c06,
};

fn c06(c: &mut Case) -> Res {
    let key = keys::any_cheap(&mut c.r);
    let base = match c.r.below(4) {
        // any magnitude
        0 => c.r.u64() >> c.r.below(64),
        // the same instant in milli-, micro- and nanoseconds
        1 => T0 * *c.r.pick(&[1000u64, 1_000_000, 1_000_000_000]),
        _ => *c.r.pick(&[0u64, 1, 2, 1000, T0, 1 << 32, (1 << 32) - 1, 1 << 53, i64::MAX as u64 - 2, u64::MAX - 3, u64::MAX]),
    };
    let span = *c.r.pick(&[0u64, 0, 1, 2, 60, 3600, 86400, 1 << 33]);
    let nbf = if c.r.pct(65) { Some(base) } else { None };
    let exp = if c.r.pct(75) {
        Some(if c.r.pct(10) { base.saturating_sub(span) } else { base.saturating_add(span) })
    } else {
        None
    };
    let mut times: Vec<u64> = Vec::new();
    for b in [nbf, exp].into_iter().flatten() {
        for d in [0u64, 1, 2] {
            times.push(b.saturating_sub(d));
            times.push(b.saturating_add(d));
        }
        // exactly a power of two or a thousand away: units and truncation
        times.push(b.saturating_add(1 << 32));
        times.push(b.wrapping_sub(1 << 32));
        times.push(b.saturating_mul(1000));
        times.push(b / 1000);
        times.push(b / 1_000_000);
        times.push(b.wrapping_add(c.r.u64() >> c.r.below(64)));
        // clock skew somebody may want to allow for
        let skew = *c.r.pick(&[5u64, 10, 30, 60, 300, 600, 3600, 86400]);
        times.push(b.saturating_add(skew));
        times.push(b.saturating_sub(skew));
    }
    times.extend([0, T0, u64::MAX, 5]);
    times.sort();
    times.dedup();
    let depth = if c.r.pct(45) { 0 } else { c.r.range(1, 5) };
    // the bounded token sits `depth` links below the outermost one; everything
    // above has the same window (so that nesting never decides), below is unbounded
    let mut r2 = c.r.fork();
    let levels = depth + 1 + if depth > 0 { r2.below(2) } else { 0 };
    let ks: Vec<K> = (0..levels + 1).map(|_| keys::any_cheap(&mut r2)).collect();
    let ks: Vec<K> = { let mut k = ks; k[0] = key.clone(); k };
    let store = crate::store::TraceStore::default();
    let mut prev: Option<String> = None;
    let mut top = String::new();
    // a proof whose window contains the bounds but which is not itself probed
    for l in (0..levels).rev() {
        let mut b = Body::new(&ks[l], &if l == 0 { "did:key:zSomeone".to_string() } else { ks[l - 1].did() });
        if l <= depth {
            b.nbf = nbf;
            b.exp = exp;
        }
        b.prf = prev.as_ref().map(|t| vec![store.put(t).to_string()]);
        if c.r.pct(50) {
            b.cap = json!({"mailto:a@b.c": {"email/send": [{}]}});
        }
        top = b.canonical();
        prev = Some(top.clone());
    }
    let u = match Ucan::try_from(top.as_str()) {
        Ok(u) => u,
        Err(e) => bail!("token does not decode: {e:#}"),
    };
    c.note(format!("nbf {nbf:?} exp {exp:?} depth {depth} token {top}"));
    let mut p = keys::parser();
    for t in times {
        let want = inside((nbf, exp), t);
        let elsewhere = *c.r.pick(&[0u64, T0, 4_000_000_000, 1]);
        // explicit time, wall clock somewhere else
        let got = clock::at(elsewhere, || block_on(u.validate(Some(t), &mut p)).is_ok());
        c.eval();
        c.ev(if want { "inside the window" } else { "outside the window" });
        if nbf.is_some() || exp.is_some() {
            c.seen((nbf, exp, t, "explicit", depth));
        }
        ensure!(got == want, "nbf {nbf:?} exp {exp:?}: validating at T={t} (wall clock {elsewhere}) gives {got}, should be {want}");
        ensure!(clock::at(elsewhere, || u.is_expired(Some(t))) == exp.is_some_and(|e| e < t), "is_expired(Some({t})) with exp {exp:?}");
        // wall clock, as far as clocks go
        let wall_ok = t <= clock::LAST;
        if wall_ok {
            // in the course of its last second a token may count as expired or not
            let nanos = if exp == Some(t) { 0 } else { *c.r.pick(&[0u32, 1, 499_999_999, 500_000_000, 999_999_999]) };
            let got = clock::at_fraction(t, nanos, || block_on(u.validate(None, &mut p)).is_ok());
            c.eval();
            c.ev("wall clock verdicts");
            if nbf.is_some() || exp.is_some() {
                c.seen((nbf, exp, t, "clock", depth));
            }
            ensure!(got == want, "nbf {nbf:?} exp {exp:?}: validating with the wall clock at {t} gives {got}, should be {want}");
            ensure!(clock::at(t, || u.is_expired(None)) == exp.is_some_and(|e| e < t), "is_expired(None) at {t} with exp {exp:?}");
            ensure!(clock::at(t, || u.is_too_early()) == nbf.is_some_and(|n| n > t), "is_too_early() at {t} with nbf {nbf:?}");
        }
        if depth > 0 {
            use ucan::chain::ProofChain;
            let go = |now: Option<u64>, p: &mut DidParser, how: usize| match how {
                0 => block_on(ProofChain::from_ucan(u.clone(), now, p, &store)).is_ok(),
                1 => block_on(ProofChain::try_from_token_string(&top, now, p, &store)).is_ok(),
                _ => {
                    let cid = store.put(&top);
                    block_on(ProofChain::from_cid(&cid, now, p, &store)).is_ok()
                }
            };
            let how = c.r.below(3);
            let got = clock::at(elsewhere, || go(Some(t), &mut p, how));
            c.eval();
            c.ev("chain verdicts");
            ensure!(got == want, "chain of {levels} tokens with window nbf {nbf:?} exp {exp:?} down to depth {depth}: at T={t} (wall clock {elsewhere}) accepted={got}, should be {want}");
            if wall_ok {
                let got = clock::at(t, || go(None, &mut p, how));
                c.eval();
                ensure!(got == want, "chain of {levels} tokens with window nbf {nbf:?} exp {exp:?} down to depth {depth}: wall clock at {t} accepted={got}, should be {want}");
            }
        }
    }
    c.sample(|| format!("nbf {nbf:?} exp {exp:?} at depth {depth}"));
    Ok(())
}
