//! Tokens written from raw JSON text by the harness, without the library's builder.
use crate::json::{self, Style};
use crate::keys::K;
use crate::rng::R;
use base64::Engine;
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use serde_json::{json, Map, Value};

pub fn b64(b: impl AsRef<[u8]>) -> String {
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(b)
}
pub fn unb64(s: &str) -> Vec<u8> {
    base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(s).expect("harness base64")
}

#[derive(Clone)]
pub struct Body {
    pub key: K,
    pub alg: String,
    pub typ: String,
    pub ucv: String,
    pub iss: String,
    pub aud: String,
    pub exp: Option<u64>,
    pub nbf: Option<u64>,
    pub nnc: Option<String>,
    pub cap: Value,
    pub fct: Option<Value>,
    pub prf: Option<Vec<String>>,
    pub extra: Map<String, Value>,
    pub omit_exp: bool,
}

impl Body {
    pub fn new(key: &K, aud: &str) -> Body {
        Body {
            key: key.clone(),
            alg: key.alg().into(),
            typ: "JWT".into(),
            ucv: "0.10.0-canary".into(),
            iss: key.did(),
            aud: aud.into(),
            exp: None,
            nbf: None,
            nnc: None,
            cap: json!({}),
            fct: None,
            prf: None,
            extra: Map::new(),
            omit_exp: false,
        }
    }
    pub fn header(&self) -> Value {
        json!({"alg": self.alg, "typ": self.typ})
    }
    pub fn payload(&self) -> Value {
        let mut m = self.extra.clone();
        m.insert("ucv".into(), json!(self.ucv));
        m.insert("iss".into(), json!(self.iss));
        m.insert("aud".into(), json!(self.aud));
        if !(self.omit_exp && self.exp.is_none()) {
            m.insert("exp".into(), json!(self.exp));
        }
        if let Some(n) = self.nbf {
            m.insert("nbf".into(), json!(n));
        }
        if let Some(n) = &self.nnc {
            m.insert("nnc".into(), json!(n));
        }
        m.insert("cap".into(), self.cap.clone());
        if let Some(f) = &self.fct {
            m.insert("fct".into(), f.clone());
        }
        if let Some(p) = &self.prf {
            m.insert("prf".into(), json!(p));
        }
        Value::Object(m)
    }
    pub fn token(&self, style: &Style, r: &mut R) -> String {
        let h = json::write(&self.header(), style, r);
        let p = json::write(&self.payload(), style, r);
        raw_token(&h, &p, &self.key)
    }
    pub fn canonical(&self) -> String {
        self.token(&Style::Canonical, &mut R::new(0, "", 0))
    }
}

pub fn raw_token(header: &str, payload: &str, key: &K) -> String {
    let sd = format!("{}.{}", b64(header), b64(payload));
    let sig = key.sign(sd.as_bytes());
    format!("{sd}.{}", b64(sig))
}

pub fn raw_cid(bytes: &[u8], code: Code) -> Cid {
    Cid::new_v1(0x55, code.digest(bytes))
}
pub fn cid(token: &str) -> Cid {
    raw_cid(token.as_bytes(), Code::Blake3_256)
}

pub const CODES: &[Code] = &[
    Code::Blake3_256,
    Code::Sha2_256,
    Code::Sha2_512,
    Code::Sha3_256,
    Code::Sha3_512,
    Code::Keccak256,
    Code::Blake2b256,
    Code::Blake2b512,
    Code::Blake2s256,
    Code::Sha3_224,
    Code::Sha3_384,
    Code::Keccak224,
    Code::Keccak384,
    Code::Keccak512,
    Code::Blake2s128,
];

/// A capability map of the required shape.
pub fn caps(r: &mut R, max: usize, nulls: bool) -> Value {
    let mut m = Map::new();
    for _ in 0..r.range(0, max) {
        let res = match r.below(7) {
            0 => "mailto:alice@example.com".to_string(),
            1 => "wnfs://alice.fission.name/public/photos".into(),
            2 => "prf:0".into(),
            3 => "my:*".into(),
            4 => format!("set:{}", json::text(r)),
            _ => json::text(r),
        };
        let mut ab = Map::new();
        for _ in 0..r.range(1, 3) {
            let a = match r.below(4) {
                0 => "email/send".to_string(),
                1 => "wnfs/append".into(),
                _ => json::text(r),
            };
            if a == "/" {
                continue;
            }
            let n = r.range(0, 3);
            let mut cav: Vec<Value> = (0..n).map(|_| if r.pct(50) { json!({}) } else { json::object(r, 2, nulls) }).collect();
            if n > 1 && r.pct(20) {
                let x = cav[0].clone();
                cav.push(x);
            }
            ab.insert(a, Value::Array(cav));
        }
        if ab.is_empty() || res == "/" {
            continue;
        }
        m.insert(res, Value::Object(ab));
    }
    Value::Object(m)
}

pub fn time(r: &mut R) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => i64::MAX as u64,
        5 => (1 << 53) + r.below(4) as u64,
        6 => 1_700_000_000 + r.below(1000) as u64,
        _ => r.u64(),
    }
}

/// A token with random content in every field (window unconstrained).
pub fn body(r: &mut R, key: &K, nulls: bool) -> Body {
    let mut b = Body::new(key, "");
    b.aud = match r.below(4) {
        0 => "did:web:example.com".into(),
        1 => key.did(),
        2 => json::text(r),
        _ => crate::keys::any_cheap(r).did(),
    };
    if r.pct(60) {
        b.exp = Some(time(r))
    }
    if r.pct(50) {
        b.nbf = Some(time(r))
    }
    if r.pct(50) {
        b.nnc = Some(json::text(r))
    }
    b.cap = caps(r, 4, nulls);
    if r.pct(50) {
        let mut f = json::object(r, 3, nulls);
        if r.pct(2) {
            let n = r.range(30, 300);
            for i in 0..n {
                f[format!("f{i}")] = json!(i);
            }
        }
        b.fct = Some(f)
    }
    if r.pct(50) {
        let n = if r.pct(3) { r.range(13, 140) } else { *r.pick(&[0, 1, 1, 2, 3, 12]) };
        b.prf = Some(
            (0..n)
                .map(|_| {
                    let code = *r.pick(&[Code::Blake3_256, Code::Sha2_256]);
                    let n = r.below(5);
                    raw_cid(&r.bytes(n), code).to_string()
                })
                .collect(),
        )
    }
    if r.pct(20) {
        b.ucv = r.pick(&["0.10.0", "0.9.0", "1.0.0-rc.1", "0.10.0-RC.1+Build.7", " V2 ", "0.10.0-Канарейка", "UCAN/0.10", ""]).to_string();
    }
    b
}
