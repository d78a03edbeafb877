//! C25–C27: hostile input, history and concurrency, failing stores.
use super::chains::{assign_caps, build, build_async, gen, gen_mcap, HOW};
use crate::case::{Case, Res, V};
use crate::clock;
use crate::dag::{self, Dag, Opt};
use crate::exec::{block_on, interleave, set_yield};
use crate::forge::{self, Body};
use crate::json;
use crate::keys::{self, K};
use crate::rng::R;
use crate::sem::{TSem, TAbility, TScope};
use crate::store::{Fault, TraceStore, FAULTS};
use crate::{bail, ensure, Prop};
use cid::Cid;
use serde_json::{json, Map, Value};
use std::future::Future;
use std::pin::Pin;
use std::str::FromStr;
use std::time::Instant;
use ucan::capability::proof::ProofDelegationSemantics;
use ucan::capability::{Capabilities, Capability, CapabilitySemantics, Caveat};
use ucan::chain::ProofChain;
use ucan::crypto::did::DidParser;
use ucan::crypto::KeyMaterial;
use ucan::ipld::{Principle, Signature, UcanIpld};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::ucan::Ucan;

const T0: u64 = 1_700_000_000;

// ---------------------------------------------------------------- C25

pub const C25: Prop = Prop {
    id: "C25",
    quick: 120000,
    thorough: 2500000,
    level: "exploration",
    rule: "a case feeds one hostile input (altered token strings, stores full of altered tokens, DIDs with degenerate keys, structured tokens in JSON and CBOR, IPLD blocks, capability texts and maps, envelopes, extreme times, deep nesting) to every entry point that takes it and to everything that can be done with what comes out, with overflow checks on; a panic, abort, stack overflow or hang is a violation; distinct_nontrivial counts distinct inputs",
    assumptions: &["memory exhaustion by inputs of unbounded size is outside the property"],
    run: c25,
};

const DEEP: &str = "a linear proof chain of about a thousand levels or more overflows the stack (8 MB) and aborts the process while it is being built, reduced or dropped";
const DOUBLING: &str = "a token that names the same proof twice doubles the work of building its chain at every level (2^depth verifications)";

fn alter_bytes(r: &mut R, b: &mut Vec<u8>) {
    const NASTY: &[&[u8]] = &[
        b".", b"..", b"", b"=", b"\x00", b"\xff", b"\xed\xa0\x80", b"{", b"}", b"[", b"\"", b"\\u0000", b"\\ud800", b"null", b"1e999", b"-0", b"18446744073709551616",
        b"did:key:z", b"did:", b"{}", b"[]", b"/", b"{\"/\":\"x\"}", b"{\"/\":{\"bytes\":\"AA\"}}", b"\xe2\x80\xae", b"prf:", b"my:", b"as:", b"*", b":", b"\x9d\x1a",
    ];
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 4]) {
        let n = b.len();
        match r.below(9) {
            0 | 1 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            2 if n > 0 => {
                let i = r.below(n);
                b[i] = r.u64() as u8;
            }
            3 => {
                let i = r.below(n + 1);
                let x = *r.pick(NASTY);
                b.splice(i..i, x.iter().copied()).for_each(drop);
            }
            4 if n > 0 => {
                let i = r.below(n);
                let j = (i + r.range(1, 8)).min(n);
                b.drain(i..j);
            }
            5 if n > 0 => b.truncate(r.below(n)),
            6 if n > 1 => {
                let i = r.below(n);
                let j = (i + r.range(1, 40)).min(n);
                let x: Vec<u8> = b[i..j].to_vec();
                let at = r.below(n);
                b.splice(at..at, x).for_each(drop);
            }
            7 if n > 4 => {
                let i = r.below(n - 1);
                let j = (i + 4).min(n);
                let x = *r.pick(&[[0u8; 4], [0xff; 4], [0x7f, 0xff, 0xff, 0xff], [0x9b, 0xff, 0xff, 0xff]]);
                b.splice(i..j, x).for_each(drop);
            }
            _ => {
                let k = r.below(6);
                let x = r.bytes(k);
                b.extend(x);
            }
        }
    }
}

fn alter_text(r: &mut R, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    alter_bytes(r, &mut b);
    String::from_utf8_lossy(&b).into_owned()
}

fn nest(n: usize, object: bool) -> Value {
    let mut v = json!(1);
    for _ in 0..n {
        v = if object { json!({ "a": v }) } else { json!([v]) };
    }
    v
}

/// Long, and nearly every byte offset lies within a character.
fn wide_text(r: &mut R) -> String {
    let c = r.pick(&["é", "€", "😀", "\u{10ffff}"]).to_string();
    let n = *r.pick(&[2usize, 8, 20, 40, 100, 300, 3000]);
    format!("{}{}", "x".repeat(r.below(4)), c.repeat(n))
}

fn nasty_text(r: &mut R) -> String {
    match r.below(13) {
        11 => wide_text(r),
        0 => "*".into(),
        1 => r
            .pick(&[
                "my:", "my:*", "as:", "as::", "as:did", "as:did:", "as:did:key", "as:did:key:", "as:did:key:z:", "as:did:key:z6Mk:*", "as:*", "my:my:my:*", "as:did:key::x", "prf:", "prf:-1",
                "prf:99999999999999999999999", "prf:*:*", "prf:+1", "prf:0x1", "prf:１", "ucan:*", "ucan:./*", "ucan:did:key:z:*", "://", "a:", ":a", "http://[::1", "http://[", "http://a:99999", "https:///", "data:,",
            ])
            .to_string(),
        2 => format!("as:{}:{}", keys::any_cheap(r).did(), json::text(r)),
        3 => format!("as:{}", json::text(r)),
        4 => format!("my:{}", json::text(r)),
        5 => format!("{}:{}", json::text(r), json::text(r)),
        6 => gen_mcap(r).resource(),
        7 => {
            let x = gen_mcap(r).resource();
            alter_text(r, &x)
        }
        8 => "\u{202e}\u{0}é\u{10ffff}".into(),
        9 => "x".repeat(*r.pick(&[10usize, 1000, 20000])),
        10 => ":".repeat(*r.pick(&[1usize, 2, 3, 500])),
        _ => json::text(r),
    }
}

fn nasty_value(r: &mut R) -> Value {
    match r.below(16) {
        0 => Value::Null,
        1 => json!(-1),
        2 => json!(u64::MAX),
        3 => json!(i64::MIN),
        4 => json!(1e308),
        5 => json!(0.1),
        6 => json!([]),
        7 => json!({}),
        8 => json!({"/": "bafkr4i"}),
        9 => json!({"/": {"bytes": "****"}}),
        10 => json!({"/": 1, "b": 2}),
        11 => nest(*r.pick(&[2usize, 20, 60, 120]), r.pct(50)),
        12 => json!(true),
        13 => json!([null, [], {}, -5, ""]),
        14 => Value::String(nasty_text(r)),
        _ => json::value(r, 3, true),
    }
}

fn alter_json(r: &mut R, v: &mut Value, depth: usize) {
    if depth == 0 || r.pct(25) {
        *v = nasty_value(r);
        return;
    }
    match v {
        Value::Object(m) if !m.is_empty() => {
            let ks: Vec<String> = m.keys().cloned().collect();
            let k = r.pick(&ks).clone();
            match r.below(6) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    let x = m.remove(&k).unwrap();
                    m.insert(nasty_text(r), x);
                }
                2 => {
                    m.insert(nasty_text(r), nasty_value(r));
                }
                _ => alter_json(r, m.get_mut(&k).unwrap(), depth - 1),
            }
        }
        Value::Array(a) if !a.is_empty() => {
            let i = r.below(a.len());
            match r.below(5) {
                0 => {
                    a.remove(i);
                }
                1 => a.insert(i, nasty_value(r)),
                _ => alter_json(r, &mut a[i], depth - 1),
            }
        }
        _ => *v = nasty_value(r),
    }
}

/// The ends of every width of number an index could be put in.
fn nasty_index(r: &mut R) -> String {
    match r.below(4) {
        0 => r.below(4).to_string(),
        1 => "*".into(),
        2 => (u128::from(u64::MAX) - r.below(3) as u128 + u128::from(r.pct(20)) * 2).to_string(),
        _ => {
            let w = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 62, 63, 64]);
            ((1u128 << w) + r.below(3) as u128 - 1).to_string()
        }
    }
}

/// A well formed link of an unusual sort: other hashes, digests of any length, other codecs.
fn odd_cid(r: &mut R) -> Cid {
    use cid::multihash::Multihash;
    let code = *r.pick(&[0u64, 0, 0x12, 0x1e, 0x11, 0x13, 0xb220, 0x1b, 0x55, u64::MAX]);
    let n = *r.pick(&[0usize, 0, 1, 2, 3, 4, 20, 31, 32, 33, 64]);
    let hash = Multihash::wrap(code, &r.bytes(n)).unwrap();
    match Cid::new_v0(hash) {
        Ok(v0) if r.pct(70) => v0,
        _ => Cid::new_v1(*r.pick(&[0x55u64, 0x55, 0x70, 0x71, 0, 0x0129, u64::MAX]), hash),
    }
}

/// Scopes and abilities that may be any text at all.
#[derive(Clone, Debug, PartialEq)]
struct AnyScope(url::Url);
impl ucan::capability::Scope for AnyScope {
    fn contains(&self, o: &Self) -> bool {
        o.0.as_str().starts_with(self.0.as_str())
    }
}
impl ToString for AnyScope {
    fn to_string(&self) -> String {
        self.0.to_string()
    }
}
impl From<url::Url> for AnyScope {
    fn from(u: url::Url) -> Self {
        AnyScope(u)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct AnyAbility(String);
impl ucan::capability::Ability for AnyAbility {}
impl ToString for AnyAbility {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}
impl From<String> for AnyAbility {
    fn from(s: String) -> Self {
        AnyAbility(s)
    }
}
struct AnySem;
impl CapabilitySemantics<AnyScope, AnyAbility> for AnySem {}

fn nasty_time(r: &mut R) -> u64 {
    *r.pick(&[0, 1, T0, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX])
}

/// A capability map full of difficult texts.
fn nasty_caps(r: &mut R) -> Value {
    let mut m = Map::new();
    for _ in 0..r.range(0, 4) {
        let mut a = Map::new();
        for _ in 0..r.range(1, 2) {
            let ab = match r.below(5) {
                0 => "ucan/DELEGATE".to_string(),
                1 => crate::sem::ability_text(r.below(10) as u8),
                2 => "ucan/*".into(),
                _ => nasty_text(r),
            };
            let n = r.below(3);
            a.insert(ab, (0..n).map(|_| if r.pct(60) { json!({}) } else { json::object(r, 2, true) }).collect());
        }
        m.insert(nasty_text(r), Value::Object(a));
    }
    Value::Object(m)
}

fn body(r: &mut R) -> Body {
    let k = match r.below(30) {
        0 => keys::any_real(r),
        _ => r.pick(keys::mocks()).clone(),
    };
    let mut b = forge::body(r, &k, true);
    if r.pct(50) {
        b.cap = nasty_caps(r);
    }
    if r.pct(30) {
        b.prf = Some((0..r.range(0, 3)).map(|_| if r.pct(50) { nasty_text(r) } else { odd_cid(r).to_string() }).collect());
    }
    if r.pct(20) {
        b.aud = nasty_text(r);
    }
    if r.pct(10) {
        b.iss = nasty_text(r);
    }
    if r.pct(20) {
        b.nnc = Some(nasty_text(r));
    }
    if r.pct(5) {
        b.fct = Some(json!({nasty_text(r): nasty_value(r), wide_text(r): wide_text(r)}));
    }
    b
}

fn token(r: &mut R) -> String {
    let b = body(r);
    let style = json::style(r);
    let (mut h, mut p) = (b.header(), b.payload());
    match r.below(6) {
        0 => {
            // altered before signing
            for _ in 0..r.range(1, 2) {
                alter_json(r, &mut p, 4)
            }
            forge::raw_token(&json::write(&h, &style, r), &json::write(&p, &style, r), &b.key)
        }
        1 => {
            alter_json(r, &mut h, 2);
            forge::raw_token(&json::write(&h, &style, r), &json::write(&p, &style, r), &b.key)
        }
        2 => {
            let t = json::write(&p, &style, r);
            let t = alter_text(r, &t);
            forge::raw_token(&json::write(&h, &style, r), &t, &b.key)
        }
        3 => {
            let t = b.token(&style, r);
            alter_text(r, &t)
        }
        4 => {
            // the segments' bytes
            let t = b.token(&style, r);
            let mut seg: Vec<Vec<u8>> = t.split('.').map(forge::unb64).collect();
            let i = r.below(3);
            alter_bytes(r, &mut seg[i]);
            seg.iter().map(forge::b64).collect::<Vec<_>>().join(".")
        }
        _ => b.token(&style, r),
    }
}

fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let len: Vec<u8> = if n < 128 {
        vec![n as u8]
    } else if n < 256 {
        vec![0x81, n as u8]
    } else {
        vec![0x82, (n >> 8) as u8, n as u8]
    };
    [&[tag], &len[..], body].concat()
}

fn number(r: &mut R) -> Vec<u8> {
    match r.below(10) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![2],
        3 => vec![3],
        4 => vec![1, 0, 1],
        5 => vec![0x80],
        6 => vec![],
        7 => {
            let n = *r.pick(&[8usize, 32, 64, 128, 256, 512, 513, 600]);
            let mut b = r.bytes(n);
            b[0] &= 0x7f;
            if r.pct(50) {
                b[n - 1] &= 0xfe;
            } else {
                b[n - 1] |= 1;
            }
            b
        }
        8 => vec![0x7f; *r.pick(&[4usize, 5, 8, 9, 300])],
        _ => {
            let n = r.range(1, 6);
            r.bytes(n)
        }
    }
}

fn nasty_did(r: &mut R) -> String {
    let raw = match r.below(9) {
        0 | 1 => {
            // RSA keys that make no sense
            let mut b = der(0x30, &[der(2, &number(r)), der(2, &number(r))].concat());
            if r.pct(20) {
                alter_bytes(r, &mut b);
            }
            [&[0x85, 0x24], &b[..]].concat()
        }
        2 => {
            let pk = r.pick(keys::rsa_keys()).public_bytes();
            let mut pk = pk;
            alter_bytes(r, &mut pk);
            [&[0x85, 0x24], &pk[..]].concat()
        }
        3 => {
            // points that are on no curve, at infinity, or of small order
            let mut b = match r.below(5) {
                0 => vec![0; 32],
                1 => [vec![1], vec![0; 31]].concat(),
                2 => vec![0xff; 32],
                3 => {
                    let mut b = vec![0; 32];
                    b[31] = 0x80;
                    b
                }
                _ => r.bytes(32),
            };
            if r.pct(20) {
                alter_bytes(r, &mut b);
            }
            [&[0xed, 0x01], &b[..]].concat()
        }
        4 => {
            let b = match r.below(6) {
                0 => vec![0],
                1 => [vec![2], vec![0; 32]].concat(),
                2 => [vec![3], vec![0xff; 32]].concat(),
                3 => [vec![4], vec![0; 64]].concat(),
                4 => [vec![5], r.bytes(32)].concat(),
                _ => r.bytes(33),
            };
            [&[0x80, 0x24], &b[..]].concat()
        }
        5 => {
            let n = r.below(4);
            r.bytes(n)
        }
        6 => {
            let n = r.below(70);
            [&r.pick(&[[0xed, 0x01], [0x80, 0x24], [0x85, 0x24], [0xaa, 0x05], [0x9d, 0x1a]])[..], &r.bytes(n)[..]].concat()
        }
        7 => return nasty_text(r),
        _ => {
            let d = keys::any(r).did();
            return alter_text(r, &d);
        }
    };
    format!("did:key:z{}", bs58::encode(raw).into_string())
}

fn use_caps(c: &Capability) {
    let _ = format!("{c:?}");
    fn one<S: ucan::capability::Scope, A: ucan::capability::Ability>(sem: &impl CapabilitySemantics<S, A>, c: &Capability) {
        if let Some(v) = sem.parse_capability(c) {
            let _ = v.enables(&v);
            let _ = format!("{v:?}");
            let back = Capability::from(&v);
            if let Some(w) = sem.parse_capability(&back) {
                let _ = v.enables(&w) || w.enables(&v);
            }
            let _ = Capability::from(v);
        }
        for t in [&c.resource, &c.ability] {
            let _ = (sem.extract_did(t), sem.parse_action(t).map(|a| a.to_string()));
            for u in [t.to_string(), format!("as:{t}"), format!("a:{t}"), format!("a:/{t}")] {
                if let Ok(u) = url::Url::parse(&u) {
                    let _ = sem.parse_scope(&u).map(|s| s.to_string());
                    let _ = sem.parse_resource(&u).map(|r| r.to_string());
                    let _ = sem.extract_did(u.path());
                }
            }
        }
        let _ = (sem.parse_caveat(None), sem.parse_caveat(Some(&c.caveat)));
        let _ = sem.parse(&c.resource, &c.ability, Some(&c.caveat));
        let _ = sem.parse(&c.resource, &c.ability, None);
    }
    one(&TSem, c);
    one(&super::caps::USem, c);
    one(&AnySem, c);
    one(&ProofDelegationSemantics {}, c);
    let _ = Caveat::try_from(&c.caveat).map(|x| x.enables(&x));
}

fn use_caps_map(m: &Capabilities) {
    let v: Vec<Capability> = m.iter().collect();
    for c in v.iter().take(6) {
        use_caps(c);
    }
    let _ = Capabilities::try_from(v).map(|x| x == *m);
    let _ = serde_json::to_string(m);
    let _ = serde_ipld_dagcbor::to_vec(m);
}

/// Everything that can be done with a token from outside.
fn use_token(r: &mut R, u: &Ucan, p: &mut DidParser, store: &TraceStore) {
    let now = *r.pick(&[None, Some(0), Some(T0), Some(u64::MAX)]);
    let _ = block_on(u.check_signature(p));
    let _ = block_on(u.validate(now, p));
    let _ = clock::at(nasty_time(r).min(clock::LAST), || (u.is_expired(None), u.is_too_early(), block_on(u.validate(None, p)).is_ok()));
    let _ = u.is_expired(now);
    let _ = (u.lifetime_begins_before(u), u.lifetime_ends_after(u), u.lifetime_encompasses(u));
    let _ = (u.algorithm(), u.issuer(), u.audience(), u.version(), u.nonce(), u.facts(), u.signature().len(), u.signed_data().len());
    let _ = format!("{u:?}");
    let text = u.encode();
    if let Ok(t) = &text {
        let _ = Ucan::try_from(t.as_str()).map(|v| v == *u);
    }
    for code in forge::CODES {
        let _ = u.to_cid(*code);
    }
    use_caps_map(u.capabilities());
    if let Ok(j) = serde_json::to_vec(u) {
        let _ = serde_json::from_slice::<Ucan>(&j);
    }
    if let Ok(b) = serde_ipld_dagcbor::to_vec(u) {
        let _ = serde_ipld_dagcbor::from_slice::<Ucan>(&b);
    }
    if let Ok(i) = UcanIpld::try_from(u) {
        use_ipld(&i);
    }
    let how = r.below(3);
    let chain = match (how, &text) {
        (1, Ok(t)) => block_on(ProofChain::try_from_token_string(t, now, p, store)),
        _ => block_on(ProofChain::from_ucan(u.clone(), now, p, store)),
    };
    if let Ok(c) = chain {
        use_chain(&c);
    }
    let k = keys::Mock(vec![7]);
    let b = ucan::builder::UcanBuilder::default().issued_by(&k).for_audience("did:key:zX").witnessed_by(u, None).delegating_from(u, None);
    if let Ok(s) = b.build() {
        if let Ok(u) = block_on(s.sign()) {
            let _ = u.encode();
        }
    }
}

fn use_chain(c: &ProofChain) {
    let _ = c.reduce_capabilities(&TSem).len();
    let _ = c.reduce_capabilities(&ProofDelegationSemantics {}).len();
    let _ = c.reduce_capabilities(&super::caps::USem).len();
    let _ = format!("{:?}", c.reduce_capabilities(&AnySem)).len();
    let _ = format!("{c:?}").len();
    let _ = c.proofs().len();
}

fn use_ipld(i: &UcanIpld) {
    let _ = format!("{} {} {i:?}", i.iss, i.aud);
    let _ = i.s.decode();
    if let Ok(b) = serde_ipld_dagcbor::to_vec(i) {
        let _ = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b);
    }
    if let Ok(u) = Ucan::try_from(i) {
        let _ = u.encode();
        let _ = block_on(u.check_signature(&mut keys::parser()));
        let _ = UcanIpld::try_from(&u);
        let _ = u.to_cid(cid::multihash::Code::Blake3_256);
    }
}

fn show(b: &[u8]) -> String {
    let n = b.len().min(1500);
    b[..n].iter().map(|x| if (0x20..0x7f).contains(x) && *x != b'\\' { (*x as char).to_string() } else { format!("\\x{x:02x}") }).collect()
}

fn c25(c: &mut Case) -> Res {
    match c.idx {
        0 => return deep_chain(c),
        1 => return doubling(c),
        2..=20 => return nested(c),
        _ => {}
    }
    let mut p = keys::parser();
    let mut store = TraceStore::default();
    c.eval();
    let which = c.r.below(20);
    match which {
        0..=5 => {
            let t = token(&mut c.r);
            c.note(format!("token string {}", show(t.as_bytes())));
            c.seen(&t);
            let a = Ucan::try_from(t.as_str());
            let _ = (Ucan::from_str(&t), Ucan::try_from(t.clone()));
            c.ev("token strings");
            let _ = block_on(ProofChain::try_from_token_string(&t, Some(T0), &mut p, &store));
            if let Ok(u) = a {
                c.ev("token strings that decode");
                use_token(&mut c.r, &u, &mut p, &store);
            }
        }
        6 | 7 => {
            // a store whose blocks are altered tokens, reached from a sound one
            let o = Opt {
                big: 0,
                depth: c.r.range(1, 4),
                min_depth: 1,
                fanout: 3,
                max_nodes: 8,
                t: T0,
                windows: true,
                share: 30,
                foreign: true,
                key: |r| r.pick(keys::mocks()).clone(),
                caps: |r, _| {
                    let mut v = nasty_caps(r);
                    if let (true, Value::Object(m)) = (r.pct(40), &mut v) {
                        m.insert(format!("prf:{}", nasty_index(r)), json!({"ucan/DELEGATE": [{}]}));
                    }
                    v
                },
            };
            let mut d = gen(&mut c.r, o);
            for _ in 0..c.r.below(3) {
                d.sabotage(&mut c.r, T0);
            }
            let mut fork = c.r.fork();
            d.render(&mut fork);
            store = d.store();
            let keys: Vec<Cid> = store.blocks.lock().unwrap().keys().copied().collect();
            for _ in 0..c.r.below(3) {
                let k = c.r.pick(&keys);
                let mut b = store.remove(k).unwrap_or_default();
                if c.r.pct(25) {
                    b = nasty_text(&mut c.r).into_bytes();
                } else {
                    alter_bytes(&mut c.r, &mut b);
                }
                store.put_bytes(*k, b);
            }
            for l in d.describe() {
                c.note(l);
            }
            let mut t = d.nodes[d.root].token.clone();
            if c.r.pct(15) {
                // a link of an unusual sort, behind which there is something
                let (mut root, cid) = (d.nodes[d.root].body.clone(), odd_cid(&mut c.r));
                let mut behind = Body::new(&keys::mock(2), &root.iss);
                behind.cap = root.cap.clone();
                store.put_bytes(cid, behind.canonical().into_bytes());
                root.prf = Some(vec![cid.to_string()]);
                t = root.canonical();
                c.note(format!("the root names {cid}"));
                c.ev("links of an unusual sort");
            }
            c.seen(&t);
            c.ev("proof graphs");
            for how in 0..3 {
                let now = *c.r.pick(&[Some(T0), Some(0), Some(u64::MAX), None]);
                if let Ok(ch) = build(&t, how, now, &mut p, &store) {
                    c.ev("chains that build");
                    use_chain(&ch);
                }
            }
            for k in keys.iter().take(4) {
                let _ = block_on(store.read_token(k));
            }
        }
        8..=10 => {
            let did = if c.r.pct(25) {
                format!("did:{}{}", c.r.pick(&["", "key:", "web:", "key:z"]), wide_text(&mut c.r))
            } else {
                nasty_did(&mut c.r)
            };
            c.note(format!("DID {did:?}"));
            c.seen(&did);
            c.ev("DIDs");
            for _ in 0..2 {
                if let Ok(k) = p.parse(&did) {
                    c.ev("DIDs that parse");
                    let n = *c.r.pick(&[0usize, 0, 1, 32, 63, 64, 65, 128, 256, 512]);
                    let mut sig = c.r.bytes(n);
                    if c.r.pct(30) {
                        sig.fill(*c.r.pick(&[0u8, 0xff, 1]));
                    }
                    let n = c.r.below(50);
                    let m = c.r.bytes(n);
                    let _ = block_on(k.verify(&m, &sig));
                    let _ = block_on(k.sign(&m));
                    if let Ok(d) = block_on(k.get_did()) {
                        let _ = p.parse(&d);
                    }
                    let _ = k.get_jwt_algorithm_name();
                }
            }
            let mut b = Body::new(&keys::mock(1), "did:key:zX");
            b.iss = did.clone();
            if let Ok(u) = Ucan::try_from(b.canonical()) {
                let _ = block_on(u.validate(None, &mut p));
            }
            let _ = Principle::from_str(&did).map(|x| x.to_string());
            ensure!(p.parse(&keys::mock(1).did()).is_ok(), "the parser no longer parses after {did:?}");
        }
        11 | 12 => {
            let b = body(&mut c.r);
            let Ok(u) = Ucan::try_from(b.canonical()) else { return Ok(()) };
            let as_json = c.r.pct(50);
            let got: Option<Ucan> = if as_json {
                let mut v = serde_json::to_value(&u).unwrap_or(Value::Null);
                let text = if c.r.pct(70) {
                    alter_json(&mut c.r, &mut v, 5);
                    v.to_string()
                } else {
                    alter_text(&mut c.r, &v.to_string())
                };
                c.note(format!("JSON {}", show(text.as_bytes())));
                c.seen(&text);
                serde_json::from_str(&text).ok()
            } else {
                let mut b = serde_ipld_dagcbor::to_vec(&u).unwrap_or_default();
                alter_bytes(&mut c.r, &mut b);
                c.note(format!("CBOR {}", show(&b)));
                c.seen(&b);
                serde_ipld_dagcbor::from_slice(&b).ok()
            };
            c.ev("structured tokens");
            if let Some(u) = got {
                c.ev("structured tokens that decode");
                use_token(&mut c.r, &u, &mut p, &store);
            }
        }
        13 | 14 => {
            let mut b = body(&mut c.r);
            b.prf = None;
            b.aud = keys::mock(3).did();
            b.iss = b.key.did();
            let Ok(i) = Ucan::try_from(b.canonical()).and_then(|u| UcanIpld::try_from(&u)) else { return Ok(()) };
            let mut b = serde_ipld_dagcbor::to_vec(&i).unwrap_or_default();
            alter_bytes(&mut c.r, &mut b);
            c.note(format!("CBOR {}", show(&b)));
            c.seen(&b);
            c.ev("IPLD blocks");
            if let Ok(i) = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b) {
                c.ev("IPLD blocks that decode");
                use_ipld(&i);
            }
            let n = c.r.below(40);
            let mut s = c.r.bytes(n);
            if c.r.pct(60) {
                s.splice(0..0, *c.r.pick(&[[0xed, 0xa1, 0x03], [0x80, 0xa4, 0xc0], [0xff, 0xff, 0xff]])).for_each(drop);
            }
            let _ = Signature(s).decode();
        }
        15 | 16 => {
            let x = Capability::new(nasty_text(&mut c.r), if c.r.pct(50) { crate::sem::ability_text(c.r.below(10) as u8) } else { nasty_text(&mut c.r) }, nasty_value(&mut c.r));
            c.note(format!("{x:?}"));
            c.seen((&x.resource, &x.ability, x.caveat.to_string()));
            c.ev("capability texts");
            use_caps(&x);
            let k = keys::Mock(vec![7]);
            let b = ucan::builder::UcanBuilder::default()
                .issued_by(&k)
                .for_audience(&nasty_text(&mut c.r))
                .with_lifetime(nasty_time(&mut c.r))
                .not_before(nasty_time(&mut c.r))
                .with_fact(&nasty_text(&mut c.r), nasty_value(&mut c.r))
                .claiming_capability(&x);
            if let Ok(u) = clock::at(nasty_time(&mut c.r).min(clock::LAST), || b.build()).and_then(|s| block_on(s.sign())) {
                use_token(&mut c.r, &u, &mut p, &store);
            }
        }
        17 => {
            let mut v = nasty_caps(&mut c.r);
            alter_json(&mut c.r, &mut v, 4);
            c.note(format!("capability map {}", show(v.to_string().as_bytes())));
            c.seen(v.to_string());
            c.ev("capability maps");
            if let Ok(m) = Capabilities::try_from(&v) {
                use_caps_map(&m);
            }
            if let Ok(m) = serde_json::from_value::<Capabilities>(v) {
                use_caps_map(&m);
            }
        }
        18 => {
            let n = c.r.below(300);
            let mut b = c.r.bytes(n);
            if c.r.pct(70) {
                // length claims of every size, in front of nothing
                b.truncate(20);
                let head = *c.r.pick(&[0x9bu8, 0xbb, 0x5b, 0x7b, 0x9a, 0xba, 0x9f, 0xbf, 0xd8, 0xa1, 0x81]);
                b.splice(0..0, [head, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]).for_each(drop);
            }
            c.note(format!("bytes {}", show(&b)));
            c.seen(&b);
            c.ev("arbitrary blocks");
            let _ = serde_ipld_dagcbor::from_slice::<Ucan>(&b).is_ok();
            let _ = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b).is_ok();
            let _ = serde_ipld_dagcbor::from_slice::<Capabilities>(&b).is_ok();
            let _ = serde_ipld_dagcbor::from_slice::<Principle>(&b).map(|p| p.to_string());
            let _ = serde_ipld_dagcbor::from_slice::<Signature>(&b).map(|p| p.decode().is_ok());
            let _ = Signature(b.clone()).decode();
            let s = String::from_utf8_lossy(&b).into_owned();
            let _ = (Ucan::try_from(s.as_str()).is_ok(), p.parse(&s).is_ok(), Principle::from_str(&s).is_ok());
        }
        _ => {
            // windows at the ends of the number range, linked to each other
            let (a, b, d) = (keys::mock(1), keys::mock(2), keys::mock(3));
            let mut x = Body::new(&a, &b.did());
            let mut y = Body::new(&b, &d.did());
            for t in [&mut x, &mut y] {
                if c.r.pct(80) {
                    t.exp = Some(nasty_time(&mut c.r));
                }
                if c.r.pct(60) {
                    t.nbf = Some(nasty_time(&mut c.r));
                }
                t.cap = nasty_caps(&mut c.r);
            }
            let xt = x.canonical();
            y.prf = Some(vec![store.put(&xt).to_string()]);
            let yt = y.canonical();
            c.note(format!("proof {:?}..{:?}, token {:?}..{:?}", x.nbf, x.exp, y.nbf, y.exp));
            c.seen((&xt, &yt));
            c.ev("extreme windows");
            if let (Ok(u), Ok(v)) = (Ucan::try_from(xt.as_str()), Ucan::try_from(yt.as_str())) {
                let _ = (u.lifetime_encompasses(&v), v.lifetime_encompasses(&u), u.lifetime_begins_before(&v), u.lifetime_ends_after(&v));
                for now in [None, Some(0), Some(u64::MAX), Some(T0)] {
                    for wall in [0, 1, T0, clock::LAST] {
                        clock::at(wall, || {
                            let _ = (u.is_expired(now), u.is_too_early());
                            if let Ok(ch) = build(&yt, 1, now, &mut p, &store) {
                                use_chain(&ch);
                            }
                        });
                    }
                }
            }
        }
    }
    c.sample(|| c_notes(&which));
    Ok(())
}

fn c_notes(which: &usize) -> String {
    format!("a case of kind {which}")
}

/// Nesting far beyond what anyone needs, in every format.
fn nested(c: &mut Case) -> Res {
    let n = [10usize, 100, 126, 127, 128, 129, 200, 255, 256, 257, 1000, 10_000, 100_000, 1_000_000][c.idx as usize % 14];
    c.note(format!("{n} levels of nesting"));
    c.seen(n);
    c.ev("deep nestings");
    let k = keys::mock(1);
    let mut p = keys::parser();
    for (open, close) in [("[", "]"), ("{\"a\":", "}"), ("{\"/\":", "}"), ("[{\"a\":", "}]")] {
        c.eval();
        let deep = format!("{}1{}", open.repeat(n), close.repeat(n));
        for field in ["fct\":{\"x\"", "cap\":{\"a:b\":{\"c\"", "prf", "nnc", "zz"] {
            let tail = match field.matches('{').count() {
                0 => "",
                1 => "}",
                _ => "}}",
            };
            let body = format!("{{\"ucv\":\"0.10.0\",\"iss\":\"{}\",\"aud\":\"did:key:zX\",\"exp\":null,\"cap\":{{}},\"{field}:{deep}{tail}}}", k.did());
            let t = forge::raw_token("{\"alg\":\"EdDSA\",\"typ\":\"JWT\"}", &body, &k);
            if let Ok(u) = Ucan::try_from(t.as_str()) {
                let mut r = c.r.fork();
                use_token(&mut r, &u, &mut p, &TraceStore::default());
                c.ev("nested tokens that decode");
            }
        }
        let t = forge::raw_token(&deep, &deep, &k);
        let _ = Ucan::try_from(t.as_str()).is_ok();
        let _ = serde_json::from_str::<Capabilities>(&deep).is_ok();
        let _ = serde_json::from_str::<Ucan>(&deep).is_ok();
    }
    for head in [0x81u8, 0xa1, 0x9f, 0xbf, 0xd8] {
        let unit: &[u8] = match head {
            0xa1 => &[0xa1, 0x61, b'v'],
            0xbf => &[0xbf, 0x61, b'v'],
            0xd8 => &[0xd8, 0x2a],
            h => &[h][..].to_vec().leak()[..],
        };
        let mut b = unit.repeat(n);
        b.push(0);
        c.eval();
        let _ = serde_ipld_dagcbor::from_slice::<Ucan>(&b).is_ok();
        let _ = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b).is_ok();
        let _ = serde_ipld_dagcbor::from_slice::<Capabilities>(&b).is_ok();
        let _ = serde_ipld_dagcbor::from_slice::<Principle>(&b).is_ok();
        // inside an otherwise sound structured token
        let whole = [&[0xa1u8, 0x63, b'f', b'c', b't'][..], &b[..]].concat();
        let _ = serde_ipld_dagcbor::from_slice::<UcanIpld>(&whole).is_ok();
    }
    // a capability map, a principal and a caveat nested to the limit of JSON text
    let v = nest(n.min(2000), true);
    let _ = Capabilities::try_from(&json!({"a:b": {"c/d": [v.clone()]}})).map(|m| use_caps_map(&m));
    let v2 = v.clone();
    if let (Ok(a), Ok(b)) = (Caveat::try_from(v), Caveat::try_from(v2)) {
        let _ = a.enables(&b);
    }
    Ok(())
}

fn linear(n: usize) -> (String, TraceStore) {
    let store = TraceStore::default();
    let ks = [keys::mock(1), keys::mock(2)];
    let mut prf: Option<String> = None;
    let mut t = String::new();
    for i in 0..n {
        let (k, a) = (&ks[i % 2], &ks[(i + 1) % 2]);
        let mut b = Body::new(k, &a.did());
        b.nnc = Some(i.to_string());
        b.cap = json!({"set:a": {"t/1": [{}]}});
        b.prf = prf.map(|p| vec![p]);
        t = b.canonical();
        prf = Some(store.put(&t).to_string());
    }
    (t, store)
}

/// `monitor deep-chain <levels> <stack in kB>`: exits 0 if a chain of that many
/// levels is built, reduced and dropped, or refused, on a stack of that size.
pub fn deep_chain_child() -> i32 {
    let arg = |i: usize| std::env::args().nth(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let (n, kb) = (arg(2), arg(3));
    unsafe {
        // an overflow is the outcome to be observed, not a crash to be recorded
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
    let (t, store) = linear(n);
    let h = std::thread::Builder::new().stack_size(kb << 10).spawn(move || {
        let r = build(&t, 1, Some(T0), &mut keys::parser(), &store);
        match r {
            Ok(c) => {
                let k = c.reduce_capabilities(&TSem).len();
                drop(c);
                k == 1
            }
            Err(_) => false,
        }
    });
    match h.expect("thread").join() {
        Ok(true) => 0,
        Ok(false) => 3,
        Err(_) => 4,
    }
}

fn deep_run(n: usize) -> Option<i32> {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["deep-chain", &n.to_string(), "8192"])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("child process")
        .code()
}

fn deep_chain(c: &mut Case) -> Res {
    c.note("linear proof chains on a stack of 8 MB");
    // depths any recursive implementation must stand
    for n in [1usize, 50, 100, 200] {
        c.eval();
        c.ev("deep chains");
        c.seen(n);
        let got = deep_run(n);
        ensure!(got == Some(0), "a sound chain of {n} levels {}", match got {
            None => "aborts the process".into(),
            Some(x) => format!("is refused or panics ({x})"),
        });
    }
    let mut fell = None;
    for n in [500usize, 1000, 2000, 5000, 20000] {
        c.eval();
        if deep_run(n).is_none() {
            fell = Some(n);
            break;
        }
    }
    if let Some(n) = fell {
        c.evn("levels at which the process aborted", n as u64);
        c.finding(DEEP);
    }
    Ok(())
}

fn doubling(c: &mut Case) -> Res {
    c.note("tokens that name one proof twice at every level");
    let mut counts = Vec::new();
    for depth in [6usize, 7, 8, 9] {
        let store = TraceStore::default();
        let ks = [keys::mock(1), keys::mock(2)];
        let mut t = String::new();
        let mut prf: Option<String> = None;
        for i in 0..=depth {
            let mut b = Body::new(&ks[i % 2], &ks[(i + 1) % 2].did());
            b.nnc = Some(i.to_string());
            b.prf = prf.map(|p| vec![p.clone(), p]);
            t = b.canonical();
            prf = Some(store.put(&t).to_string());
        }
        keys::log_start();
        let r = build(&t, 1, Some(T0), &mut keys::parser(), &store);
        let n = keys::log_take().iter().filter(|e| matches!(e, keys::Event::Verify { .. })).count();
        ensure!(r.is_ok(), "a sound chain that names a proof twice is refused: {:?}", r.err());
        c.eval();
        c.seen(depth);
        counts.push(n);
    }
    c.note(format!("verifications at depths 6 to 9: {counts:?}"));
    // worse than doubling at every level would be something else
    for (i, n) in counts.iter().enumerate() {
        ensure!(*n < 1 << (8 + i), "{n} verifications at depth {}", 6 + i);
    }
    if counts.windows(2).all(|w| w[1] >= 2 * w[0]) {
        c.finding(DOUBLING);
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

pub const C26: Prop = Prop {
    id: "C26",
    quick: 8000,
    thorough: 60000,
    level: "exploration",
    rule: "a case is a handful of validations (tokens and chains, sound and broken, at several times, over full and incomplete stores), first judged alone with fresh parsers; then in random order with one long-used parser, interleaved at every suspension point under seeded schedules, cancelled half way and repeated, and on threads over a shared store; every answer (verdict and reported capabilities) must be the same; distinct_nontrivial counts distinct schedules of distinct sets of validations",
    assumptions: &["the harness's mock keys and store suspend only where a real key or store could"],
    run: c26,
};

/// What a validation says: nothing but the verdict and the reported capabilities.
type Answer = Option<Vec<String>>;

struct Job {
    token: String,
    how: usize,
    now: u64,
    store: usize,
    /// the time is read from the wall clock, which stands at `now`
    wall: bool,
    /// whether it must be accepted, where the harness knows
    truth: Option<bool>,
}

/// Every step of the future runs with the wall clock at this time.
struct AtClock<'a, T>(u64, Pin<Box<dyn Future<Output = T> + Send + 'a>>);
impl<T> Future for AtClock<'_, T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<T> {
        let t = self.0;
        clock::at(t, || self.1.as_mut().poll(cx))
    }
}

/// One letter or digit of the token's payload changed, its signature kept.
fn tampered(r: &mut R, token: &str) -> Option<String> {
    let (sd, sig) = token.rsplit_once('.')?;
    let (h, p) = sd.split_once('.')?;
    use base64::Engine;
    let mut p = base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(p).ok().filter(|p| !p.is_empty())?;
    for _ in 0..50 {
        let i = r.below(p.len());
        let was = p[i];
        if !was.is_ascii_alphanumeric() {
            continue;
        }
        p[i] = if was.is_ascii_digit() { b'0' + (was - b'0' + 1) % 10 } else { was ^ 1 };
        let t = format!("{h}.{}.{sig}", forge::b64(&p));
        if p[i].is_ascii_alphanumeric() && Ucan::try_from(t.as_str()).is_ok() {
            return Some(t);
        }
        p[i] = was;
    }
    None
}

fn answer(r: Result<ProofChain, String>) -> Answer {
    let ch = r.ok()?;
    let mut v: Vec<String> = ch
        .reduce_capabilities::<TSem, TScope, TAbility>(&TSem)
        .into_iter()
        .map(|i| format!("{:?} {:?} {:?} {:?}", i.capability, i.originators, i.not_before, i.expires_at))
        .collect();
    v.sort();
    fn tree(c: &ProofChain, o: &mut String) {
        o.push_str(&c.ucan().encode().map(|t| forge::cid(&t).to_string()).unwrap_or_default());
        o.push('(');
        c.proofs().iter().for_each(|p| tree(p, o));
        o.push(')');
    }
    let mut o = String::new();
    tree(&ch, &mut o);
    v.push(o);
    Some(v)
}

async fn run_job<S: UcanJwtStore>(j: &Job, p: &mut DidParser, stores: &[S]) -> Answer {
    let now = if j.wall { None } else { Some(j.now) };
    let go = async move {
        if j.how == 3 {
            // validation of the token alone
            let u = Ucan::try_from(j.token.as_str()).ok()?;
            return u.validate(now, p).await.ok().map(|_| vec![]);
        }
        answer(build_async(&j.token, j.how, now, p, &stores[j.store]).await)
    };
    if j.wall {
        AtClock(j.now, Box::pin(go)).await
    } else {
        go.await
    }
}

fn some_key(r: &mut R) -> K {
    match r.below(12) {
        0 => keys::any_cheap(r),
        _ => keys::mocks()[r.below(5)].clone(),
    }
}

fn jobs(c: &mut Case) -> (Vec<Job>, Vec<TraceStore>) {
    let full = TraceStore::default();
    let part = TraceStore::default();
    let mut out: Vec<Job> = Vec::new();
    for _ in 0..c.r.range(1, 3) {
        let o = Opt {
            big: 0,
            depth: c.r.range(0, 4),
            min_depth: c.r.below(3),
            fanout: c.r.range(1, 3),
            max_nodes: 7,
            t: T0,
            windows: c.r.pct(70),
            share: 40,
            foreign: c.r.pct(30),
            key: some_key,
            caps: dag::no_caps,
        };
        let mut d = gen(&mut c.r, o);
        assign_caps(&mut d, &mut c.r);
        let fork = c.r.fork();
        let mut versions = vec![d];
        if c.r.pct(60) {
            let mut e = Dag { nodes: versions[0].nodes.clone(), root: versions[0].root };
            e.sabotage(&mut c.r, T0);
            if e.unfolded(e.root) < 200 {
                versions.push(e);
            }
        }
        let sound = versions.len() == 1;
        for mut d in versions {
            d.render(&mut fork.clone());
            d.fill(&full);
            d.fill(&part);
            let reach = d.reachable();
            for i in [d.root, *c.r.pick(&reach)] {
                full.put(&d.nodes[i].token);
                part.put(&d.nodes[i].token);
                let mut times = vec![T0];
                for b in [d.nodes[i].body.nbf, d.nodes[i].body.exp].into_iter().flatten() {
                    times.extend([b.saturating_add(1), b.saturating_sub(1)]);
                }
                let job = |r: &mut R| {
                    let (now, how, store) = (*r.pick(&times), r.below(4), r.below(2));
                    let truth = match how {
                        _ if !sound => None,
                        3 => Some(dag::inside(d.nodes[i].window(), now)),
                        _ if store == 0 => Some(d.judge(i, now).is_ok()),
                        _ => None,
                    };
                    Job { token: d.nodes[i].token.clone(), how, now, store, wall: r.pct(35) && now <= clock::LAST, truth }
                };
                out.push(job(&mut c.r));
                if c.r.pct(40) {
                    // the same token at another time, or from the other store
                    out.push(job(&mut c.r));
                }
                if c.r.pct(30) {
                    if let Some(token) = tampered(&mut c.r, &d.nodes[i].token) {
                        full.put(&token);
                        part.put(&token);
                        out.push(Job { token, truth: Some(false), ..job(&mut c.r) });
                    }
                }
            }
        }
    }
    // the second store lacks something
    let cids: Vec<Cid> = part.blocks.lock().unwrap().keys().copied().collect();
    for _ in 0..c.r.range(1, 2) {
        part.remove(c.r.pick(&cids));
    }
    c.r.shuffle(&mut out);
    out.truncate(8);
    (out, vec![full, part])
}

fn c26(c: &mut Case) -> Res {
    let (js, stores) = jobs(c);
    for (i, j) in js.iter().enumerate() {
        c.note(format!("validation {i}: by {} at {} ({}) from store {}: {}", ["token", "string", "CID", "token alone"][j.how], j.now, if j.wall { "wall clock" } else { "given" }, j.store, &j.token));
    }
    let alone: Vec<Answer> = js.iter().map(|j| block_on(run_job(j, &mut keys::parser(), &stores))).collect();
    let tag: Vec<(String, usize, u64)> = js.iter().map(|j| (j.token.clone(), j.how, j.now)).collect();
    for (i, (j, a)) in js.iter().zip(&alone).enumerate() {
        if let Some(t) = j.truth {
            c.eval();
            c.ev("verdicts known beforehand");
            ensure!(a.is_some() == t, "validation {i}, with a fresh parser: {a:?}, should be {}", if t { "accepted" } else { "refused" });
        }
    }
    c.evn("sound validations", alone.iter().filter(|a| a.is_some()).count() as u64);
    c.evn("validations refused", alone.iter().filter(|a| a.is_none()).count() as u64);
    let same = |c: &mut Case, i: usize, got: &Answer, how: &str| -> Res {
        c.eval();
        c.ev(how);
        ensure!(*got == alone[i], "validation {i} {how}: {got:?}, alone: {:?}", alone[i]);
        Ok(())
    };
    // one parser, any order, again and again, with other things in between
    let mut p = keys::parser();
    let mut order = Vec::new();
    for _ in 0..js.len() * 3 {
        let i = c.r.below(js.len());
        order.push(i);
        match c.r.below(6) {
            0 => {
                let _ = p.parse(&nasty_did(&mut c.r));
            }
            1 => {
                let k = keys::any_cheap(&mut c.r);
                let _ = p.parse(&k.did());
            }
            2 => {
                // given up half way
                set_yield(70, c.r.u64());
                let mut f: Pin<Box<dyn Future<Output = Answer> + '_>> = Box::pin(run_job(&js[i], &mut p, &stores));
                let w = futures::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&w);
                for _ in 0..c.r.below(12) {
                    if f.as_mut().poll(&mut cx).is_ready() {
                        break;
                    }
                }
                drop(f);
                set_yield(0, 1);
                c.ev("validations cancelled");
            }
            _ => {}
        }
        let wall = *c.r.pick(&[0u64, T0, clock::LAST]);
        let got = clock::at(wall, || block_on(run_job(&js[i], &mut p, &stores)));
        same(c, i, &got, "with a used parser")?;
    }
    // interleaved
    for _ in 0..3 {
        let pct = *c.r.pick(&[20u64, 50, 80]);
        let mut ps: Vec<DidParser> = js.iter().map(|_| keys::parser()).collect();
        let mut futs: Vec<Pin<Box<dyn Future<Output = Answer> + '_>>> = Vec::new();
        for (j, p) in js.iter().zip(ps.iter_mut()) {
            futs.push(Box::pin(run_job(j, p, &stores)));
        }
        let mut r = c.r.fork();
        set_yield(pct, c.r.u64());
        let res = interleave(futs, &mut r);
        set_yield(0, 1);
        let (got, sched) = match res {
            Ok(x) => x,
            Err(e) => bail!("interleaved validations: {e}"),
        };
        c.note(format!("schedule {sched:?}"));
        for (i, g) in got.iter().enumerate() {
            same(c, i, g, "interleaved")?;
        }
        if sched.len() > js.len() {
            c.state("schedules", &sched);
            c.seen((&tag, &sched));
        }
        c.evn("suspensions", sched.len().saturating_sub(js.len()) as u64);
    }
    // a crowd: far more validations under way at once than anyone would reserve room for
    if c.idx % 50 == 7 {
        let n = *c.r.pick(&[70usize, 140, 260]);
        let who: Vec<usize> = (0..n).map(|_| c.r.below(js.len())).collect();
        let mut ps: Vec<DidParser> = who.iter().map(|_| keys::parser()).collect();
        let mut futs: Vec<Pin<Box<dyn Future<Output = Answer> + '_>>> = Vec::new();
        for (i, p) in who.iter().zip(ps.iter_mut()) {
            futs.push(Box::pin(run_job(&js[*i], p, &stores)));
        }
        let mut r = c.r.fork();
        set_yield(85, c.r.u64());
        let res = interleave(futs, &mut r);
        set_yield(0, 1);
        let (got, sched) = match res {
            Ok(x) => x,
            Err(e) => bail!("a crowd of {n} validations: {e}"),
        };
        for (i, g) in who.iter().zip(&got) {
            same(c, *i, g, "in a crowd")?;
        }
        c.evn("suspensions", sched.len().saturating_sub(n) as u64);
        c.state("schedules", &sched);
    }
    // on threads
    if c.idx % 3 == 0 {
        let mems: Vec<MemoryStore> = stores
            .iter()
            .map(|s| {
                let mut m = MemoryStore::default();
                for b in s.blocks.lock().unwrap().values() {
                    if let Ok(t) = std::str::from_utf8(b) {
                        let _ = block_on(m.write_token(t));
                    }
                }
                m
            })
            .collect();
        // the library's store holds BLAKE3 addresses only: judge it for itself
        let base: Vec<Answer> = js.iter().map(|j| block_on(run_job(j, &mut keys::parser(), &mems))).collect();
        let n = c.r.range(2, 5);
        let gate = std::sync::Barrier::new(n);
        let seeds: Vec<u64> = (0..n).map(|_| c.r.u64()).collect();
        let got: Vec<Vec<(usize, bool, Answer)>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let (js, stores, mems, gate) = (&js, &stores, &mems, &gate);
                    s.spawn(move || {
                        let mut r = R::new(*seed, "thread", 0);
                        let mut p = keys::parser();
                        let mut mine = mems[0].clone();
                        gate.wait();
                        let mut out = Vec::new();
                        for _ in 0..js.len() * 2 {
                            let i = r.below(js.len());
                            if r.pct(20) {
                                let _ = block_on(mine.write_token(&format!("noise.{}.x", r.u64())));
                                std::thread::yield_now();
                            }
                            let own = r.pct(50);
                            let a = if own { block_on(run_job(&js[i], &mut p, mems)) } else { block_on(run_job(&js[i], &mut p, stores)) };
                            out.push((i, own, a));
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        for (i, own, g) in got.into_iter().flatten() {
            if own {
                c.eval();
                c.ev("on threads over the library's store");
                ensure!(g == base[i], "validation {i} on threads over the library's store: {g:?}, alone: {:?}", base[i]);
            } else {
                same(c, i, &g, "on threads")?;
            }
        }
    }
    c.sample(|| format!("{} validations, {} accepted", js.len(), alone.iter().filter(|a| a.is_some()).count()));
    Ok(())
}

// ---------------------------------------------------------------- C27

pub const C27: Prop = Prop {
    id: "C27",
    quick: 4000,
    thorough: 30000,
    level: "fault_enumeration",
    rule: "a case is one sound proof graph; every read its construction makes is made to fail in every one of six ways, one construction each, alone and with all later reads failing too, through one entry point and one parser; after every failure the store answers again and the full result is compared; then proofs are really removed and put back, in the harness's and in the library's store; distinct_nontrivial counts distinct (graph, read, failure) triples",
    assumptions: &["a store either answers with the block of the CID or fails; it does not answer with another valid token"],
    run: c27,
};

fn c27(c: &mut Case) -> Res {
    let deep = c.r.pct(15);
    let broad = !deep && c.r.pct(15);
    let o = Opt {
        big: 0,
        depth: if broad { 1 } else if deep { c.r.range(5, 9) } else { c.r.range(1, 4) },
        min_depth: if broad { 1 } else if deep { 5 } else { c.r.range(1, 2) },
        fanout: if broad { c.r.range(9, 20) } else if deep { 1 } else { c.r.range(1, 4) },
        max_nodes: if broad { 22 } else { 9 },
        t: T0,
        windows: c.r.pct(50),
        share: 30,
        foreign: c.r.pct(20),
        key: some_key,
        caps: dag::no_caps,
    };
    let mut d = loop {
        let d = gen(&mut c.r, Opt { key: o.key, caps: o.caps, ..o });
        if d.unfolded(d.root) <= 24 {
            break d;
        }
    };
    assign_caps(&mut d, &mut c.r);
    let mut fork = c.r.fork();
    d.render(&mut fork);
    for l in d.describe() {
        c.note(l);
    }
    let store = d.store();
    let root = d.nodes[d.root].token.clone();
    let how = c.r.below(3);
    let mut p = keys::parser();
    let want = match build(&root, how, Some(T0), &mut p, &store) {
        Ok(ch) => answer(Ok(ch)),
        Err(e) => bail!("a sound chain is refused: {e}"),
    };
    let reads = store.reads.load(std::sync::atomic::Ordering::SeqCst);
    c.evn("reads of undisturbed constructions", reads);
    let distinct = d.reachable().len() as u64 - u64::from(how != 2);
    ensure!(reads >= distinct, "the chain was built with {reads} reads from the store, it has {distinct} tokens to read");
    let full = |c: &mut Case, p: &mut DidParser, what: &str| -> Res {
        c.eval();
        match build(&root, how, Some(T0), p, &store) {
            Ok(ch) => {
                let got = answer(Ok(ch));
                ensure!(got == want, "after {what}, the chain builds with another result: {got:?} instead of {want:?}");
                Ok(())
            }
            Err(e) => bail!("after {what} and with the store answering again, the chain is refused by {}: {e}", HOW[how]),
        }
    };
    for n in 0..reads {
        for f in FAULTS {
            let persist = c.r.pct(30);
            store.fail_at(n, *f);
            if persist {
                let mut plan = store.plan.lock().unwrap();
                for m in n..reads + 5 {
                    plan.insert(m, *f);
                }
            }
            let t = Instant::now();
            let r = build(&root, how, Some(T0), &mut p, &store);
            c.eval();
            c.ev(match f {
                Fault::Missing => "missing",
                Fault::Error => "read error",
                Fault::NotUtf8 => "not text",
                Fault::NotAToken => "not a token",
                Fault::Empty => "empty block",
                Fault::Truncated => "truncated token",
            });
            if persist {
                c.ev("failures that persist");
            }
            ensure!(r.is_err(), "read {n} of {reads} fails ({f:?}{}), and the chain is built all the same by {}: {:?}", if persist { ", and all after it" } else { "" }, HOW[how], answer(r));
            ensure!(t.elapsed().as_secs() < 20, "a failing read is waited for");
            c.seen((&root, n, f));
            store.heal();
            if n % 3 == 0 || c.r.pct(30) {
                let fresh = c.r.pct(20);
                if fresh {
                    full(c, &mut keys::parser(), &format!("read {n} failed ({f:?}, fresh parser)"))?;
                } else {
                    full(c, &mut p, &format!("read {n} failed ({f:?})"))?;
                }
                c.ev("recoveries");
                store.heal();
            }
        }
    }
    full(c, &mut p, "all failures")?;
    // tokens really missing or replaced, then put back
    let blocks: Vec<(Cid, Vec<u8>)> = store.blocks.lock().unwrap().iter().map(|(k, v)| (*k, v.clone())).collect();
    for (cid, b) in &blocks {
        if how != 2 && *b == root.as_bytes() {
            continue;
        }
        match c.r.below(3) {
            0 => store.put_bytes(*cid, vec![0xc3, 0x28]),
            1 => store.put_bytes(*cid, b"a.b.c".to_vec()),
            _ => {
                store.remove(cid);
            }
        }
        store.heal();
        let used = build(&root, how, Some(T0), &mut p, &store);
        c.eval();
        // one token may be held under several addresses, of which not all are used
        let needed = {
            store.put_bytes(*cid, b.clone());
            store.heal();
            keys::log_start();
            let _ = build(&root, how, Some(T0), &mut keys::parser(), &store);
            let log = keys::log_take();
            log.iter().any(|e| matches!(e, keys::Event::Read { cid: x, .. } if *x == cid.to_string()))
        };
        ensure!(!needed || used.is_err(), "the proof {cid} is gone from the store, and the chain is built all the same");
        c.ev("blocks taken away and put back");
        full(c, &mut p, "a proof was away")?;
    }
    // the same graph, with one proof named under another codec, where it is found as well
    let with: Vec<usize> = d.reachable().into_iter().filter(|i| !d.nodes[*i].prf.is_empty()).collect();
    for _ in 0..3 {
        let mut e = Dag { nodes: d.nodes.clone(), root: d.root };
        let i = *c.r.pick(&with);
        let k = c.r.below(e.nodes[i].links.len());
        e.nodes[i].links[k].form = 3 + c.r.below(4) as u8;
        e.render(&mut fork.clone());
        let s = e.store();
        let how = c.r.below(3);
        let got = build(&e.nodes[e.root].token, how, Some(T0), &mut p, &s);
        c.eval();
        c.ev("wrong codec");
        ensure!(got.is_err(), "proof {k} of token {i} is named by a CID that is not of the raw codec, and the chain is built all the same by {}", HOW[how]);
        full(c, &mut p, "a proof named under another codec")?;
    }
    // the library's own store
    if d.nodes.iter().all(|n| n.links.iter().all(|l| l.code == cid::multihash::Code::Blake3_256)) {
        let mut m = MemoryStore::default();
        let mut todo: Vec<usize> = d.reachable();
        c.r.shuffle(&mut todo);
        if how != 2 {
            todo.retain(|i| *i != d.root);
        }
        for i in todo {
            c.eval();
            ensure!(build(&root, how, Some(T0), &mut p, &m).is_err(), "proofs are missing from the library's store, and the chain is built all the same");
            let t = &d.nodes[i].token;
            if c.r.pct(50) {
                block_on(m.write_token(t)).map_err(|e| V(e.to_string()))?;
            } else {
                block_on(m.write(libipld_core::ipld::Ipld::Bytes(t.as_bytes().to_vec()))).map_err(|e| V(e.to_string()))?;
            }
        }
        let got = answer(build(&root, how, Some(T0), &mut p, &m));
        ensure!(got == want, "with every proof in the library's store the result is {got:?} instead of {want:?}");
        c.ev("graphs written token by token to the library's store");
    }
    c.sample(|| format!("{} with {reads} reads by {}", d.shape(), HOW[how]));
    Ok(())
}
