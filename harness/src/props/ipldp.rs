//! C22–C24: the IPLD forms of tokens, signatures and principals.
use crate::case::{Case, Res, V};
use crate::exec::block_on;
use crate::forge;
use crate::json::{self, Style};
use crate::keys::{self, K};
use crate::props::tokens::{content, expect_fields, read_signed, sign_content};
use crate::rng::R;
use crate::{bail, ensure, Prop};
use cid::multihash::Code;
use cid::Cid;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::str::FromStr;
use ucan::builder::UcanBuilder;
use ucan::crypto::JwtSignatureAlgorithm;
use ucan::ipld::{Principle, Signature, UcanIpld, VarsigPrefix};
use ucan::ucan::Ucan;

fn to_cbor<T: serde::Serialize>(t: &T) -> Result<Vec<u8>, String> {
    serde_ipld_dagcbor::to_vec(t).map_err(|e| e.to_string())
}
fn from_cbor<'a, T: serde::Deserialize<'a>>(b: &'a [u8]) -> Result<T, String> {
    serde_ipld_dagcbor::from_slice(b).map_err(|e| e.to_string())
}

/// The bytes a principal consists of, however it serializes them.
fn raw(p: &Principle) -> Option<Vec<u8>> {
    let b = to_cbor(p).ok()?;
    from_cbor::<Vec<u8>>(&b).ok().or_else(|| match from_cbor::<libipld_core::ipld::Ipld>(&b) {
        Ok(libipld_core::ipld::Ipld::Bytes(b)) => Some(b),
        _ => None,
    })
}
fn principal_of(b: &[u8]) -> Result<Principle, String> {
    from_cbor(&to_cbor(&b.to_vec())?).or_else(|_| from_cbor(&to_cbor(&libipld_core::ipld::Ipld::Bytes(b.to_vec()))?))
}

// ---------------------------------------------------------------- C22

pub const C22: Prop = Prop {
    id: "C22",
    quick: 48000,
    thorough: 500000,
    level: "exploration",
    rule: "a case is one token, made by the library or written by the harness in the same canonical form (now and then in another form, or with content that has no IPLD form), converted to IPLD, to DAG-CBOR, and back, compared byte by byte and field by field, then once more with a field of its IPLD form altered; distinct_nontrivial counts distinct token strings that converted",
    assumptions: &["serde_ipld_dagcbor carries values faithfully", "canonical form: header and payload as DAG-JSON with sorted keys, type JWT, no further fields, an expiry (possibly null), no empty proof list, proofs as canonical CID strings"],
    run: c22,
};

/// The bytes of a principal, independently; None when the text is not representable.
pub fn principal_bytes(did: &str) -> Option<Vec<u8>> {
    if let Some(x) = did.strip_prefix("did:key:z") {
        let b = bs58::decode(x).into_vec().ok()?;
        (!b.starts_with(&[0x9d, 0x1a])).then_some(b)
    } else {
        did.strip_prefix("did:").map(|x| [&[0x9d, 0x1a], x.as_bytes()].concat())
    }
}

const ALGS: &[(&str, u64)] = &[("EdDSA", 0xd0ed), ("ES256", 0xd01200), ("ES384", 0xd01201), ("ES512", 0xd01202), ("RS256", 0xd01205)];

fn varint(mut n: u64) -> Vec<u8> {
    let mut o = Vec::new();
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

pub fn varsig(alg: &str, sig: &[u8]) -> Option<Vec<u8>> {
    let p = ALGS.iter().find(|a| a.0 == alg)?.1;
    Some([varint(p), varint(sig.len() as u64), sig.to_vec()].concat())
}

fn any_did(r: &mut R) -> String {
    match r.below(8) {
        0 => "did:web:example.com".into(),
        1 => format!("did:web:{}", json::text(r)),
        2 => "did:".into(),
        3 => format!("did:key:f{:x}", r.u64()),
        4 => "did:plc:z72i7hdynmk6r22z27h6tvur".into(),
        _ => keys::any_cheap(r).did(),
    }
}

fn has_null(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(has_null),
        Value::Object(m) => m.values().any(has_null),
        _ => false,
    }
}

fn c22(c: &mut Case) -> Res {
    let key = keys::any(&mut c.r);
    // (token, must it convert losslessly)
    let (tok, canonical) = if c.r.pct(55) {
        let mut x = content(&mut c.r);
        x.aud = any_did(&mut c.r);
        let cut = key.cut();
        let made = if c.r.pct(25) {
            let mut b = UcanBuilder::default().issued_by(&cut).for_audience(&x.aud).with_nonce().claiming_capabilities(&x.caps);
            for (k, v) in &x.facts {
                b = b.with_fact(k, v.clone());
            }
            for p in &x.proofs {
                let code = *c.r.pick(&[Code::Blake3_256, Code::Sha2_256, Code::Sha2_512, Code::Blake2b256]);
                b = b.witnessed_by(p, Some(code));
            }
            if let Some(n) = x.nbf {
                b = b.not_before(n)
            }
            b.build().and_then(|b| block_on(b.sign()))
        } else {
            sign_content(&cut, &x, &x.facts, &x.caps)
        };
        let t = made.and_then(|u| u.encode()).map_err(|e| V(format!("representable content can not be signed: {e:#}")))?;
        c.ev("tokens made by the library");
        (t, true)
    } else {
        let nulls = c.r.pct(10);
        let mut b = forge::body(&mut c.r, &key, nulls);
        if c.r.pct(85) {
            b.aud = any_did(&mut c.r);
        }
        let mut canonical = principal_bytes(&b.aud).is_some();
        if b.prf.as_ref().is_some_and(|p| p.is_empty()) {
            if c.r.pct(60) {
                b.prf = None
            } else {
                canonical = false
            }
        }
        match c.r.below(24) {
            0 => {
                b.omit_exp = true;
                canonical &= b.exp.is_some();
            }
            1 => {
                b.extra.insert("zz".into(), json!(1));
                canonical = false;
            }
            2 => {
                b.typ = "jwt".into();
                canonical = false;
            }
            3 => {
                b.alg = c.r.pick(&["none", "HS256", "ES256K", "eddsa", "", "PS256"]).to_string();
                canonical = false;
            }
            4 => {
                b.iss = c.r.pick(&["", "alice", "did", "did:key:z0OIl", "did:key:z3Zj"]).to_string();
                canonical &= principal_bytes(&b.iss).is_some();
            }
            5 => {
                let bad = c.r.pick(&["", "nonsense", "bafkr4i", "z"]).to_string();
                let at = c.r.below(b.prf.as_ref().map_or(0, |p| p.len()) + 1);
                b.prf.get_or_insert_with(Vec::new).insert(at, bad);
                canonical = false;
            }
            6 => {
                let n = c.r.below(9);
                let one = forge::raw_cid(&c.r.bytes(n), Code::Sha2_256);
                let text = match c.r.below(3) {
                    0 => cid::multibase::encode(cid::multibase::Base::Base58Btc, one.to_bytes()),
                    1 => one.to_string().to_uppercase().replacen('B', "B", 1),
                    _ => Cid::new_v0(*one.hash()).unwrap().to_string(),
                };
                // version 0 CIDs have only one text form
                canonical &= text.starts_with("Qm");
                b.prf = Some(vec![text]);
            }
            7 => {
                // real keys only ever claim their own algorithm
                b.alg = c.r.pick(ALGS).0.to_string();
            }
            _ => {}
        }
        if nulls && (has_null(&b.cap) || b.fct.as_ref().is_some_and(has_null)) {
            canonical = false;
        }
        let style = if c.r.pct(85) { Style::Canonical } else { json::style(&mut c.r) };
        let (hj, pj) = (json::write(&b.header(), &style, &mut c.r), json::write(&b.payload(), &style, &mut c.r));
        let mut plain = R::new(0, "", 0);
        canonical &= hj == json::write(&b.header(), &Style::Canonical, &mut plain) && pj == json::write(&b.payload(), &Style::Canonical, &mut plain);
        c.note(format!("header {hj} payload {pj}"));
        c.ev(if canonical { "canonical tokens of another implementation" } else { "tokens in no canonical form" });
        (forge::raw_token(&hj, &pj, &key), canonical)
    };
    c.note(format!("token {tok}"));
    let u = match Ucan::try_from(tok.as_str()) {
        Ok(u) => u,
        Err(e) => {
            ensure!(!canonical, "a token in canonical form does not decode: {e:#}");
            return Ok(());
        }
    };
    c.eval();
    let (sd, sig) = tok.rsplit_once('.').unwrap();
    let sig = forge::unb64(sig);
    let (header, payload) = read_signed(sd.as_bytes()).ok_or_else(|| V("harness can not read its own token".into()))?;
    // what can not be represented at all
    let alg = header["alg"].as_str().unwrap_or("").to_string();
    let envelope = varsig(&alg, &sig);
    let (iss, aud) = (principal_bytes(u.issuer()), principal_bytes(u.audience()));
    let cids: Option<Vec<Cid>> = u.proofs().clone().unwrap_or_default().iter().map(|p| Cid::try_from(p.as_str()).ok()).collect();
    let representable = envelope.is_some() && iss.is_some() && aud.is_some() && cids.is_some();
    let ipld = match UcanIpld::try_from(&u) {
        Ok(x) => {
            ensure!(representable, "a token without an IPLD form converts to {x:?}");
            x
        }
        Err(e) => {
            ensure!(!representable || !canonical, "a canonical token does not convert to IPLD: {e:#}");
            c.ev("conversions refused");
            return Ok(());
        }
    };
    // the fields
    ensure!(ipld.v == u.version(), "version {:?} became {:?}", u.version(), ipld.v);
    ensure!(raw(&ipld.iss) == iss, "issuer {} became {}", u.issuer(), ipld.iss);
    ensure!(raw(&ipld.aud) == aud, "audience {} became {}", u.audience(), ipld.aud);
    ensure!(ipld.s.0 == envelope.unwrap(), "the signature envelope of {alg} {} bytes is {:?}", sig.len(), ipld.s.0);
    ensure!(ipld.exp == *u.expires_at() && ipld.nbf == *u.not_before(), "the window became {:?}..{:?}", ipld.nbf, ipld.exp);
    ensure!(ipld.nnc == *u.nonce(), "the nonce became {:?}", ipld.nnc);
    ensure!(ipld.prf.clone().unwrap_or_default() == cids.unwrap(), "the proofs became {:?}", ipld.prf);
    ensure!(ipld.cap == *u.capabilities(), "the capabilities became {:?}", ipld.cap);
    ensure!(ipld.fct == *u.facts(), "the facts became {:?}", ipld.fct);
    let cbor = match to_cbor(&ipld) {
        Ok(b) => b,
        Err(e) => {
            ensure!(!canonical, "the IPLD form of a canonical token does not encode: {e}");
            return Ok(());
        }
    };
    ensure!(to_cbor(&ipld).ok().as_ref() == Some(&cbor), "encoding twice gives different DAG-CBOR");
    for (how, form) in [("directly", Ok(ipld)), ("through DAG-CBOR", from_cbor::<UcanIpld>(&cbor))] {
        c.eval();
        let form = match form {
            Ok(f) => f,
            Err(e) => {
                ensure!(!canonical, "DAG-CBOR of a canonical token does not decode: {e}");
                continue;
            }
        };
        let back = match Ucan::try_from(&form) {
            Ok(b) => b,
            Err(e) => {
                ensure!(!canonical, "the IPLD form of a canonical token does not convert back ({how}): {e:#}");
                continue;
            }
        };
        let text = back.encode();
        if canonical {
            ensure!(text.as_ref().ok() == Some(&tok), "converting back {how} gives {text:?}");
            ensure!(back == u, "converting back {how} gives an unequal token");
            if let Err(e) = expect_fields(&back, &header, &payload) {
                bail!("converted back {how}: {e}");
            }
            ensure!(back.signature() == &sig[..] && back.signed_data() == sd.as_bytes(), "converting back {how} changes the signature or signed data");
            ensure!(back.to_cid(Code::Blake3_256).ok() == Some(forge::cid(&tok)), "converting back {how} changes the CID");
            let (a, b) = (block_on(u.check_signature(&mut keys::parser())).is_ok(), block_on(back.check_signature(&mut keys::parser())).is_ok());
            ensure!(a == b, "the signature check is {a} before and {b} after converting {how}");
            c.evn("lossless round trips", 1);
            c.evn("signatures that still verify", b as u64);
            c.seen(&tok);
        } else if text.as_ref().ok() != Some(&tok) {
            // another string: it must not pass for a token of that issuer
            c.ev("lossy round trips");
            ensure!(block_on(back.check_signature(&mut keys::parser())).is_err(), "a token that changed in conversion still verifies: {text:?}");
        }
    }
    altered(c, &cbor, &u)?;
    c.sample(|| format!("{tok} <-> {} bytes of DAG-CBOR", cbor.len()));
    Ok(())
}

/// A structured form with one field changed never passes for the signed token.
fn altered(c: &mut Case, cbor: &[u8], u: &Ucan) -> Res {
    let Ok(mut f) = from_cbor::<UcanIpld>(cbor) else { return Ok(()) };
    let what = match c.r.below(9) {
        0 => {
            f.v.push('x');
            "version"
        }
        1 => {
            f.aud = Principle::from_str("did:web:mallory").unwrap();
            "audience"
        }
        2 => {
            f.iss = Principle::from_str(&keys::mock(99).did()).unwrap();
            "issuer"
        }
        3 => {
            f.exp = match f.exp {
                None => Some(1),
                Some(e) if c.r.pct(50) => Some(e ^ 1),
                Some(_) => None,
            };
            "expiry"
        }
        4 => {
            f.nbf = match f.nbf {
                None => Some(0),
                Some(e) if c.r.pct(50) => Some(e ^ 1),
                Some(_) => None,
            };
            "not-before"
        }
        5 => {
            f.nnc = match f.nnc {
                None => Some(String::new()),
                Some(n) => Some(n + "x"),
            };
            "nonce"
        }
        6 => {
            let mut p = f.prf.clone().unwrap_or_default();
            if p.len() > 1 && p[0] != p[1] && c.r.pct(50) {
                p.swap(0, 1);
            } else {
                p.push(forge::cid("another"));
            }
            f.prf = Some(p);
            "proofs"
        }
        7 => {
            let mut m: BTreeMap<String, Value> = f.fct.clone().unwrap_or_default();
            m.insert("added fact".into(), json!(c.r.u64()));
            f.fct = Some(m);
            "facts"
        }
        _ => {
            let mut m = serde_json::to_value(&f.cap).unwrap();
            m["mailto:added@example.com"] = json!({"email/send": [{}]});
            f.cap = serde_json::from_value(m).unwrap();
            "capabilities"
        }
    };
    let Ok(back) = Ucan::try_from(&f) else { return Ok(()) };
    c.eval();
    c.ev("altered IPLD forms");
    ensure!(back.encode().ok() != u.encode().ok(), "changing the {what} of the IPLD form does not change the token");
    ensure!(block_on(back.check_signature(&mut keys::parser())).is_err(), "a token with a changed {what} still verifies");
    Ok(())
}

// ---------------------------------------------------------------- C23

pub const C23: Prop = Prop {
    id: "C23",
    quick: 800000,
    thorough: 4000000,
    level: "exploration",
    rule: "the first cases wrap and unwrap every length from 0 to 1200 under every algorithm; the others are random lengths up to 70000 and envelopes that are altered, truncated, extended or assembled from unusual prefixes and lengths, each judged against an independent reading of the envelope; distinct_nontrivial counts distinct envelopes",
    assumptions: &["varints are minimal, as the unsigned-varint specification demands"],
    run: c23,
};

const OTHER_PREFIXES: &[(u64, VarsigPrefix)] = &[
    (0xd000, VarsigPrefix::NonStandard),
    (0xd0e7, VarsigPrefix::ES256K),
    (0xd0ea, VarsigPrefix::BLS12381G1),
    (0xd0eb, VarsigPrefix::BLS12381G2),
    (0xd191, VarsigPrefix::EIP191),
];

/// A minimal varint of at most nine bytes, and what follows it.
fn read_varint(b: &[u8]) -> Option<(u64, &[u8])> {
    let mut n = 0u64;
    for (i, x) in b.iter().enumerate() {
        if i == 9 && *x > 1 || i > 9 {
            return None;
        }
        n |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return (i == 0 || *x != 0).then_some((n, &b[i + 1..]));
        }
    }
    None
}

fn read_envelope(b: &[u8]) -> Option<(&'static str, &[u8])> {
    let (p, b) = read_varint(b)?;
    let (n, b) = read_varint(b)?;
    let a = ALGS.iter().find(|a| a.1 == p)?;
    (n == b.len() as u64).then_some((a.0, b))
}

fn wrap_unwrap(c: &mut Case, name: &str, sig: &[u8]) -> Result<Vec<u8>, V> {
    let alg = JwtSignatureAlgorithm::from_str(name).map_err(|e| V(format!("{name} is not an algorithm: {e}")))?;
    c.eval();
    let s = Signature::try_from((alg, sig)).map_err(|e| V(format!("a {name} signature of {} bytes can not be wrapped: {e}", sig.len())))?;
    let want = varsig(name, sig).unwrap();
    ensure!(s.0 == want, "a {name} signature of {} bytes is wrapped as {:?}…, expected {:?}…", sig.len(), &s.0[..s.0.len().min(8)], &want[..want.len().min(8)]);
    let (a, b) = s.decode().map_err(|e| V(format!("a {name} signature of {} bytes can not be unwrapped: {e}", sig.len())))?;
    ensure!(a.to_string() == name && b == sig, "a {name} signature of {} bytes unwraps as {a} with {} bytes", sig.len(), b.len());
    Ok(s.0)
}

fn c23(c: &mut Case) -> Res {
    if c.idx <= 1200 {
        let sig = c.r.bytes(c.idx as usize);
        for (name, p) in ALGS {
            let e = wrap_unwrap(c, name, &sig)?;
            c.seen(&e);
            let v = VarsigPrefix::from_str(name).map_err(|e| V(e.to_string()))?;
            ensure!(u64::from(v) == *p, "the prefix of {name} is not {p:#x}");
            let v = VarsigPrefix::try_from(*p).map_err(|e| V(e.to_string()))?;
            ensure!(JwtSignatureAlgorithm::try_from(v).is_ok_and(|a| a.to_string() == *name), "the prefix {p:#x} is not {name}");
        }
        // the prefixes that belong to no JWT algorithm, and numbers that are no prefix
        for (p, v) in OTHER_PREFIXES {
            c.eval();
            let got = VarsigPrefix::try_from(*p).map_err(|e| V(format!("the prefix {p:#x} is not known: {e}")))?;
            ensure!(got == *v, "the prefix {p:#x} is {got:?}");
            ensure!(u64::from(got) == *p, "{v:?} is not {p:#x}");
            ensure!(JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(*p).unwrap()).is_err(), "{v:?} is taken for a JWT algorithm");
        }
        let n = match c.r.below(4) {
            0 => c.r.u64(),
            1 => 0xd000 + c.r.below(0x300) as u64,
            2 => 0xd01200 + c.r.below(0x20) as u64,
            _ => c.r.pick(ALGS).1 ^ 1 << c.r.below(64),
        };
        if !ALGS.iter().any(|a| a.1 == n) && !OTHER_PREFIXES.iter().any(|a| a.0 == n) {
            ensure!(VarsigPrefix::try_from(n).is_err(), "{n:#x} is taken for a prefix");
        }
        c.ev("lengths of the exhaustive part");
        return Ok(());
    }
    let name = c.r.pick(ALGS).0;
    let len = match c.r.below(8) {
        0 => *c.r.pick(&[127usize, 128, 129, 16383, 16384, 16385, 65535, 65536, 70000]),
        1 => c.r.range(1000, 20000),
        2 => 0,
        3 | 4 => 64,
        _ => c.r.below(300),
    };
    let sig = c.r.bytes(len);
    let good = wrap_unwrap(c, name, &sig)?;
    c.ev("random envelopes");
    c.state("lengths", len);
    if c.r.pct(10) {
        let b = to_cbor(&Signature(good.clone())).map_err(V)?;
        let s: Signature = from_cbor(&b).map_err(V)?;
        ensure!(s.0 == good, "the envelope changes in DAG-CBOR");
    }
    for _ in 0..6 {
        let (how, e) = alter_envelope(&mut c.r, name, &sig, &good);
        c.eval();
        let want = read_envelope(&e).map(|(a, b)| (a.to_string(), b.to_vec()));
        let got = Signature(e.clone()).decode().ok().map(|(a, b)| (a.to_string(), b));
        let head: Vec<u8> = e.iter().take(16).copied().collect();
        ensure!(got == want, "an envelope {how} ({} bytes, {head:02x?}…) unwraps as {:?}, expected {:?}", e.len(),
            got.as_ref().map(|g| (&g.0, g.1.len())), want.as_ref().map(|g| (&g.0, g.1.len())));
        c.ev(if want.is_some() { "altered envelopes that are well-formed" } else { "malformed envelopes refused" });
        c.seen(&e);
    }
    c.sample(|| format!("{name}, {len} bytes: {:02x?}…", &good[..good.len().min(12)]));
    Ok(())
}

fn alter_envelope(r: &mut R, name: &str, sig: &[u8], good: &[u8]) -> (&'static str, Vec<u8>) {
    let prefix = varint(ALGS.iter().find(|a| a.0 == name).unwrap().1);
    let size = varint(sig.len() as u64);
    let odd_len = |r: &mut R| match r.below(9) {
        0 => 0u64,
        1 => sig.len() as u64 + 1,
        2 => (sig.len() as u64).saturating_sub(1),
        3 => u64::MAX,
        4 => 1 << 63,
        5 => (1 << 32) + sig.len() as u64,
        6 => (1 << 63) + sig.len() as u64,
        7 => r.u64(),
        _ => sig.len() as u64 + 128,
    };
    match r.below(12) {
        0 => ("with another stated length", [prefix, varint(odd_len(r)), sig.to_vec()].concat()),
        1 => {
            let p = *r.pick(&[0xd000u64, 0xd0e7, 0xd0ea, 0xd0eb, 0xd191, 0xd0ee, 0xd01203, 0xd01204, 0xd012, 0xd01206, 0xd0, 0xed, 0x1200, 0, 1, u64::MAX, 0x1_0000_d0ed, 0x1_0000_0000_d0ed]);
            ("with another prefix", [varint(p), size, sig.to_vec()].concat())
        }
        2 => ("cut short", good[..r.below(good.len())].to_vec()),
        3 => ("extended", [good, &r.bytes(1)[..]].concat()),
        4 => {
            let mut e = good.to_vec();
            let i = if r.pct(70) { r.below(e.len().min(8)) } else { r.below(e.len()) };
            e[i] ^= 1 << r.below(8);
            ("with a bit flipped", e)
        }
        5 => {
            // the same numbers, not written in their shortest form
            let mut p = prefix;
            let mut s = size;
            let which = if r.pct(50) { &mut p } else { &mut s };
            *which.last_mut().unwrap() |= 0x80;
            for _ in 0..r.below(3) {
                which.push(0x80);
            }
            which.push(0);
            ("with a lengthened varint", [p, s, sig.to_vec()].concat())
        }
        6 => ("with an endless varint", [vec![0xff; r.range(1, 20)], good.to_vec()].concat()),
        7 => {
            let n = r.range(1, 30);
            ("of arbitrary bytes", r.bytes(n))
        }
        8 => ("of nothing", vec![]),
        9 => ("followed by itself", [good, good].concat()),
        10 => ("without its length", [prefix, sig.to_vec()].concat()),
        _ => {
            let a = r.pick(ALGS);
            ("of another algorithm", [varint(a.1), size, sig.to_vec()].concat())
        }
    }
}

// ---------------------------------------------------------------- C24

pub const C24: Prop = Prop {
    id: "C24",
    quick: 40000,
    thorough: 800000,
    level: "exploration",
    rule: "a case takes about ten DIDs that resemble each other (and texts that are no DIDs), as principals, through text and DAG-CBOR, compares every pair, and renders principals of arbitrary bytes; distinct_nontrivial counts distinct accepted DIDs",
    assumptions: &["bs58 decodes base58 correctly"],
    run: c24,
};

fn did_text(r: &mut R) -> String {
    match r.below(16) {
        0..=3 => keys::any_cheap(r).did(),
        4 => {
            let K::Rsa(..) = &keys::rsa_keys()[0] else { unreachable!() };
            r.pick(keys::rsa_keys()).did()
        }
        5 => format!("did:web:{}", json::text(r)),
        6 => format!("did:{}", json::text(r)),
        7 => {
            // arbitrary key bytes, some of which start like another DID's principal
            let n = r.below(40);
            let mut b = r.bytes(n);
            match r.below(5) {
                0 => b.splice(0..0, [0x9d, 0x1a]).for_each(drop),
                1 => b.splice(0..0, [0x9d]).for_each(drop),
                2 => b.splice(0..0, [0, 0]).for_each(drop),
                3 => b.splice(0..0, *b"web:example.com").for_each(drop),
                _ => {}
            }
            format!("did:key:z{}", bs58::encode(b).into_string())
        }
        8 => {
            let k = keys::any_cheap(r).did();
            let x = k.strip_prefix("did:").unwrap();
            // a key principal's own text, or its bytes, in the guise of another DID
            match r.below(4) {
                0 => format!("did:{}", &x[..x.len() - 1]),
                1 => format!("did:key:{}", &x[5..]),
                2 => format!("did:did:{x}"),
                _ => format!("did:Key:{}", &x[4..]),
            }
        }
        9 => {
            let b = r.bytes(34);
            let base = *r.pick(&[cid::multibase::Base::Base16Lower, cid::multibase::Base::Base64Url, cid::multibase::Base::Base32Lower]);
            format!("did:key:{}", cid::multibase::encode(base, b))
        }
        10 => r.pick(&["did:", "did:key:", "did:key:z", "did:key:z1", "did:key:z11", "did:key:z ", "did:\u{0}", "did:web:é", "did:key:zé"]).to_string(),
        11 => r.pick(&["", "did", "DID:web:x", " did:web:x", "key:z6Mk", "http://example.com", "id:x", "mailto:a@b", "Did:key:z6Mk", "did；web"]).to_string(),
        12 => json::text(r),
        13 => {
            let mut k = keys::any_cheap(r).did();
            let bad = *r.pick(&['0', 'O', 'I', 'l', ' ', '.', '\n']);
            let at = r.range(9, k.len() - 1);
            k.replace_range(at..at + 1, &bad.to_string());
            k
        }
        14 => crate::dag::flip_case(&keys::any_cheap(r).did(), r),
        _ => {
            let n = *r.pick(&[100usize, 255, 256, 1000, 3000]);
            let b = r.bytes(if n > 300 { 300 } else { n });
            if r.pct(50) {
                format!("did:key:z{}", bs58::encode(b).into_string())
            } else if r.pct(50) {
                format!("did:ex:{}", "y".repeat(n))
            } else {
                format!("did:{}{}", "x".repeat(r.below(4)), r.pick(&["é", "€", "😀"]).repeat(n))
            }
        }
    }
}

fn c24(c: &mut Case) -> Res {
    let mut held: Vec<(String, Principle, Vec<u8>)> = Vec::new();
    for _ in 0..c.r.range(4, 12) {
        let did = did_text(&mut c.r);
        c.note(format!("{did:?}"));
        c.eval();
        let want = principal_bytes(&did);
        match Principle::from_str(&did) {
            Err(e) => {
                ensure!(want.is_none(), "{did:?} is refused as a principal: {e}");
                c.ev("texts refused");
            }
            Ok(p) => {
                ensure!(did.starts_with("did:"), "{did:?} is no DID and becomes a principal");
                ensure!(want.is_some(), "{did:?} has no principal of its own and becomes {p:?}");
                ensure!(p.to_string() == did, "{did:?} renders as {:?}", p.to_string());
                let b = to_cbor(&p).map_err(V)?;
                let q: Principle = from_cbor(&b).map_err(V)?;
                ensure!(q == p && q.to_string() == did, "{did:?} is {:?} after DAG-CBOR", q.to_string());
                let j = serde_json::to_string(&p).map_err(|e| V(e.to_string()))?;
                let q: Principle = serde_json::from_str(&j).map_err(|e| V(e.to_string()))?;
                ensure!(q.to_string() == did, "{did:?} is {:?} after JSON", q.to_string());
                ensure!(Some(&p.clone()) == Principle::from_str(&p.to_string()).ok().as_ref(), "{did:?} does not parse again");
                c.ev("DIDs accepted");
                c.seen(&did);
                held.push((did, p, b));
            }
        }
    }
    for i in 0..held.len() {
        for j in 0..i {
            c.eval();
            let same = held[i].0 == held[j].0;
            ensure!((held[i].1 == held[j].1) == same, "{:?} and {:?} {} a principal", held[i].0, held[j].0, if same { "do not share" } else { "share" });
            ensure!((held[i].2 == held[j].2) == same, "{:?} and {:?} {} a DAG-CBOR form", held[i].0, held[j].0, if same { "do not share" } else { "share" });
        }
    }
    // principals of arbitrary bytes, as they may arrive from elsewhere
    for _ in 0..4 {
        let n = c.r.below(60);
        let mut b = c.r.bytes(n);
        match c.r.below(6) {
            0 => b.splice(0..0, [0x9d, 0x1a]).for_each(drop),
            1 => b.splice(0..0, [0x9d, 0x1a, 0xff, 0xfe]).for_each(drop),
            2 => b = [&[0x9d, 0x1a], json::text(&mut c.r).as_bytes()].concat(),
            3 => b = [&[0x9d, 0x1a], keys::any_cheap(&mut c.r).did()[4..].as_bytes()].concat(),
            _ => {}
        }
        c.note(format!("bytes {b:02x?}"));
        let p = principal_of(&b).map_err(V)?;
        let text = p.to_string();
        c.eval();
        c.ev("principals of arbitrary bytes");
        ensure!(text.starts_with("did:"), "a principal renders as {text:?}");
        // unless its bytes are another principal in disguise, the text leads back to it
        if let Ok(q) = Principle::from_str(&text) {
            if let Some(w) = principal_bytes(&text) {
                ensure!(raw(&q).as_ref() == Some(&w), "{text:?} parses as {q:?}");
            }
        }
    }
    c.sample(|| held.iter().map(|h| h.0.clone()).collect::<Vec<_>>().join(" "));
    Ok(())
}
