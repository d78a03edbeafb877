//! C17, C18: the builder.
use super::caps::{view, View};
use super::chains::gen_mcap;
use crate::sem::MCap;
use super::tokens::{expect_fields, read_signed};
use crate::case::{Case, Res, V};
use crate::clock;
use crate::exec::block_on;
use crate::forge;
use crate::json;
use crate::keys::{self, K};
use crate::rng::R;
use crate::{bail, ensure, Prop};
use anyhow::anyhow;
use async_trait::async_trait;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use ucan::builder::UcanBuilder;
use ucan::capability::Capability;
use ucan::crypto::KeyMaterial;
use ucan::ucan::Ucan;

/// Fact content of types other than JSON values, and whether it has a JSON form.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Rich {
    name: String,
    n: u64,
    list: Vec<i32>,
    nested: BTreeMap<String, bool>,
    opt: Option<u8>,
}

#[derive(Clone, Debug, Deserialize)]
struct Refuses;
impl Serialize for Refuses {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("does not serialize"))
    }
}

/// A key that can not tell its DID, or can not sign.
#[derive(Clone)]
pub struct Broken {
    pub inner: std::sync::Arc<Box<dyn KeyMaterial>>,
    pub did: bool,
    pub sign: bool,
}
#[async_trait]
impl KeyMaterial for Broken {
    fn get_jwt_algorithm_name(&self) -> String {
        self.inner.get_jwt_algorithm_name()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        if self.did {
            Err(anyhow!("no DID today"))
        } else {
            self.inner.get_did().await
        }
    }
    async fn sign(&self, p: &[u8]) -> anyhow::Result<Vec<u8>> {
        if self.sign {
            Err(anyhow!("no signature today"))
        } else {
            self.inner.sign(p).await
        }
    }
    async fn verify(&self, p: &[u8], s: &[u8]) -> anyhow::Result<()> {
        self.inner.verify(p, s).await
    }
}

pub const C17: Prop = Prop {
    id: "C17",
    quick: 120000,
    thorough: 1000000,
    level: "exploration",
    rule: "a case is a random sequence of builder calls under a clock that moves between the calls, the build and the signing, compared with a model of the builder; half of them contain something that must or may be refused (missing issuer or audience, content without a JSON or DAG-JSON form, a key that fails); distinct_nontrivial counts distinct call sequences of at least three calls",
    assumptions: &["a lifetime that would pass the largest expressible time either saturates or is an error"],
    run: c17,
};

#[derive(Default, Clone)]
struct Model {
    issuer: Option<usize>,
    aud: Option<String>,
    life: Option<u64>,
    exp: Option<u64>,
    nbf: Option<u64>,
    facts: BTreeMap<String, Value>,
    caps: Vec<Capability>,
    prf: Vec<String>,
    nonce: bool,
    /// has content that must not be signed
    must_fail: Option<&'static str>,
    /// has content that may be refused, but never changed
    may_fail: bool,
}

/// Content that DAG-JSON reserves or that the decoder does not take back.
fn delicate(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(delicate),
        Value::Object(m) => m.iter().any(|(k, v)| k == "/" || delicate(v)),
        _ => false,
    }
}

fn proof_token(r: &mut R) -> String {
    let k = keys::mock(r.below(8) as u64);
    let b = forge::body(r, &k, false);
    let s = json::style(r);
    b.token(&s, r)
}

fn some_caps(r: &mut R) -> Vec<Capability> {
    (0..r.below(4))
        .map(|_| {
            let res = r.pick(&["set:a", "set:b", "mailto:a@example.com", "", "ünï", "my:*"]).to_string();
            let ab = r.pick(&["t/1", "t/2", "email/send", ""]).to_string();
            let cav = if r.pct(60) { json!({}) } else { json::object(r, 2, false) };
            Capability::new(res, ab, cav)
        })
        .collect()
}

fn grouped(caps: &[Capability]) -> Value {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for c in caps {
        m.entry(c.resource.clone()).or_default().entry(c.ability.clone()).or_default().push(c.caveat.clone());
    }
    json!(m)
}

fn c17(c: &mut Case) -> Res {
    let pool: Vec<K> = vec![keys::any_cheap(&mut c.r), keys::any_cheap(&mut c.r), if c.r.pct(3) { keys::rsa_keys()[0].clone() } else { keys::mock(3) }];
    let broken = if c.r.pct(6) { Some(c.r.below(2)) } else { None };
    let cut: Vec<Broken> = pool
        .iter()
        .map(|k| Broken { inner: k.cut().into(), did: broken == Some(0), sign: broken == Some(1) })
        .collect();
    let mut b: UcanBuilder<Broken> = UcanBuilder::default();
    let mut m = Model::default();
    let mut log: Vec<String> = Vec::new();
    let mut tokens: Vec<String> = Vec::new();
    let mut kept: Option<(UcanBuilder<Broken>, Model)> = None;
    let complete = c.r.pct(92);
    let nasty = c.r.pct(35);
    let mut now = 1_700_000_000u64;
    let mut todo: Vec<usize> = (0..c.r.range(0, 9)).map(|_| c.r.below(13)).collect();
    if complete {
        todo.push(0);
        todo.push(1);
    } else {
        todo.retain(|x| *x != if now % 2 == 0 { 0 } else { 1 });
        if c.r.pct(50) {
            todo.retain(|x| *x != 1)
        }
    }
    c.r.shuffle(&mut todo);
    let crowd = c.r.below(500) == 0;
    if crowd {
        // very many proofs, facts or claims
        let op = *c.r.pick(&[5usize, 8, 10, 12]);
        let n = *c.r.pick(&[40usize, 101, 150, 260]);
        todo.extend(std::iter::repeat(op).take(n));
    }
    clock::set(Some(now));
    for op in todo {
        if c.r.pct(30) {
            now += c.r.below(5000) as u64;
            clock::set(Some(now));
        }
        if c.r.pct(6) && kept.is_none() {
            kept = Some((b.clone(), m.clone()));
            log.push("clone".into());
        }
        match op {
            0 => {
                let i = c.r.below(pool.len());
                b = b.issued_by(&cut[i]);
                m.issuer = Some(i);
                log.push(format!("issued_by {}", pool[i].did()));
            }
            1 => {
                let a = match c.r.below(4) {
                    0 => json::text(&mut c.r),
                    1 => String::new(),
                    _ => keys::any_cheap(&mut c.r).did(),
                };
                b = b.for_audience(&a);
                log.push(format!("for_audience {a:?}"));
                m.aud = Some(a);
            }
            2 => {
                let l = *c.r.pick(&[0u64, 1, 60, 3600, 1 << 40, u64::MAX, u64::MAX - now, u64::MAX - now + 1, u64::MAX - now - 1]);
                b = b.with_lifetime(l);
                m.life = Some(l);
                log.push(format!("with_lifetime {l}"));
            }
            3 => {
                let e = forge::time(&mut c.r);
                b = b.with_expiration(e);
                m.exp = Some(e);
                log.push(format!("with_expiration {e}"));
            }
            4 => {
                let e = forge::time(&mut c.r);
                b = b.not_before(e);
                m.nbf = Some(e);
                log.push(format!("not_before {e}"));
            }
            5 | 6 => {
                // few keys, so that they repeat
                let k = if crowd && c.r.pct(80) {
                    format!("fact{}", c.r.below(500))
                } else if c.r.pct(60) { c.r.pick(&["a", "b", "abc/challenge", ""]).to_string() } else { json::text(&mut c.r) };
                let kind = if nasty { c.r.below(14) } else { c.r.below(7) };
                let (nb, v): (UcanBuilder<Broken>, Option<Value>) = match kind {
                    0..=2 => {
                        let v = json::value(&mut c.r, 3, false);
                        (b.with_fact(&k, v.clone()), Some(v))
                    }
                    3 => {
                        let v = c.r.u64();
                        (b.with_fact(&k, v), Some(json!(v)))
                    }
                    4 => (b.with_fact(&k, "text".to_string()), Some(json!("text"))),
                    5 => {
                        let x = Rich { name: json::text(&mut c.r), n: c.r.u64(), list: vec![-1, 2], nested: BTreeMap::from([("t".into(), true)]), opt: Some(7) };
                        let v = json!({"name": x.name, "n": x.n, "list": [-1, 2], "nested": {"t": true}, "opt": 7});
                        (b.with_fact(&k, x), Some(v))
                    }
                    6 => {
                        let x: BTreeMap<u32, Vec<bool>> = BTreeMap::from([(7, vec![true]), (10, vec![])]);
                        (b.with_fact(&k, x), Some(json!({"7": [true], "10": []})))
                    }
                    7 => {
                        m.must_fail = Some("a fact whose map keys are not strings");
                        (b.with_fact(&k, BTreeMap::from([(vec![1u8, 2], 3u8)])), None)
                    }
                    8 => {
                        m.must_fail = Some("a fact that does not serialize");
                        (b.with_fact(&k, Refuses), None)
                    }
                    9 => {
                        m.must_fail = Some("a fact beyond any JSON number");
                        (b.with_fact(&k, u128::MAX), None)
                    }
                    10 => (b.with_fact(&k, Option::<u8>::None), Some(Value::Null)),
                    11 => {
                        let v = json!({"/": {"bytes": "AQID"}});
                        (b.with_fact(&k, v.clone()), Some(v))
                    }
                    12 => {
                        let v = json!({"x": {"/": forge::raw_cid(b"x", cid::multihash::Code::Sha2_256).to_string()}});
                        (b.with_fact(&k, v.clone()), Some(v))
                    }
                    _ => {
                        let v = json::value(&mut c.r, 3, true);
                        (b.with_fact(&k, v.clone()), Some(v))
                    }
                };
                b = nb;
                log.push(format!("with_fact {k:?} (kind {kind}) {v:?}"));
                if let Some(v) = v {
                    m.facts.insert(k, v);
                }
            }
            7 => {
                b = b.with_nonce();
                m.nonce = true;
                log.push("with_nonce".into());
            }
            8..=10 => {
                let t = if !tokens.is_empty() && c.r.pct(25) { c.r.pick(&tokens).clone() } else { proof_token(&mut c.r) };
                tokens.push(t.clone());
                let u = Ucan::try_from(t.as_str()).map_err(|e| V(format!("proof token does not decode: {e}")))?;
                let h = if c.r.pct(50) { None } else { Some(*c.r.pick(forge::CODES)) };
                let cid = forge::raw_cid(t.as_bytes(), h.unwrap_or(cid::multihash::Code::Blake3_256)).to_string();
                if op == 10 || c.r.pct(30) {
                    b = b.delegating_from(&u, h);
                    m.caps.push(Capability::new(format!("prf:{}", m.prf.len()), "ucan/DELEGATE".into(), json!({})));
                    log.push(format!("delegating_from {cid}"));
                } else {
                    b = b.witnessed_by(&u, h);
                    log.push(format!("witnessed_by {cid}"));
                }
                m.prf.push(cid);
            }
            _ if c.r.pct(25) => {
                // by way of a semantics
                let ms: Vec<MCap> = (0..c.r.range(1, 3)).map(|_| gen_mcap(&mut c.r)).collect();
                let views: Vec<View> = ms.iter().map(view).collect();
                let how = c.r.below(4);
                b = match how {
                    0 => b.claiming_capabilities(&views),
                    1 => views.iter().fold(b, |b, v| b.claiming_capability(v)),
                    2 => views.into_iter().fold(b, |b, v| b.claiming_capability(v)),
                    _ => b.claiming_capabilities(&views.iter().map(Capability::from).collect::<Vec<_>>()),
                };
                let caps: Vec<Capability> = ms.iter().map(|x| Capability::new(x.resource(), crate::sem::ability_text(x.ability), x.caveat.clone())).collect();
                log.push(format!("claim {caps:?} as views ({how})"));
                m.caps.extend(caps);
            }
            _ => {
                let mut caps = some_caps(&mut c.r);
                if nasty && c.r.pct(25) {
                    let cav = c.r.pick(&[json!(1), json!([{}]), json!("x"), json!(null)]).clone();
                    caps.push(Capability::new("set:a".into(), "t/1".into(), cav));
                    m.must_fail = Some("a caveat that is not an object");
                } else if nasty && c.r.pct(25) {
                    caps.push(match c.r.below(4) {
                        0 => Capability::new("/".into(), "t/1".into(), json!({})),
                        1 => Capability::new("set:a".into(), "/".into(), json!({})),
                        2 => Capability::new("set:a".into(), "t/1".into(), json!({"/": "x"})),
                        _ => Capability::new("set:a".into(), "t/1".into(), json!({"x": null})),
                    });
                }
                if op == 11 && caps.len() == 1 {
                    b = b.claiming_capability(caps[0].clone());
                } else {
                    b = b.claiming_capabilities(&caps);
                }
                log.push(format!("claim {caps:?}"));
                m.caps.extend(caps);
            }
        }
    }
    for l in &log {
        c.note(l.clone());
    }
    let mut runs = vec![(b, m)];
    runs.extend(kept);
    for (b, m) in runs {
        now += c.r.below(3) as u64 * 100;
        clock::set(Some(now));
        judge_built(c, b, m, &pool, now, broken.is_some())?;
    }
    if log.len() >= 3 {
        c.seen(&log);
    }
    c.sample(|| log.join("; "));
    Ok(())
}

fn judge_built(c: &mut Case, b: UcanBuilder<Broken>, mut m: Model, pool: &[K], now: u64, broken: bool) -> Res {
    m.may_fail = m.facts.iter().any(|(k, v)| k == "/" || delicate(v))
        || m.caps.iter().any(|x| x.resource == "/" || x.ability == "/" || delicate(&x.caveat));
    let saturates = m.exp.is_none() && m.life.is_some_and(|l| now.checked_add(l).is_none());
    c.eval();
    let built = b.build();
    let (Some(iss), Some(aud)) = (m.issuer, &m.aud) else {
        c.ev("missing issuer or audience");
        ensure!(built.is_err(), "a token without {} is built", if m.issuer.is_none() { "issuer" } else { "audience" });
        return Ok(());
    };
    // the expiry is settled when building, not when signing
    clock::set(Some(now + 12345));
    let key = &pool[iss];
    let signed = match built {
        Err(e) => Err(e),
        Ok(s) => block_on(s.sign()),
    };
    let u = match signed {
        Err(e) => {
            if let Some(w) = m.must_fail {
                c.ev(&format!("refused: {w}"));
                return Ok(());
            }
            if m.may_fail {
                c.ev("refused: content DAG-JSON reserves");
                return Ok(());
            }
            if broken {
                c.ev("refused: the key failed");
                return Ok(());
            }
            if saturates {
                c.ev("refused: lifetime too long");
                return Ok(());
            }
            bail!("representable content is refused: {e:#}")
        }
        Ok(u) => u,
    };
    if let Some(w) = m.must_fail {
        bail!("signed despite {w}");
    }
    ensure!(!broken, "signed with a key that failed");
    let exp = match (m.exp, m.life) {
        (Some(e), _) => Some(e),
        (None, Some(l)) => Some(now.saturating_add(l)),
        _ => None,
    };
    let mut payload = json!({"ucv": ucan::ucan::UCAN_VERSION, "iss": key.did(), "aud": aud, "exp": exp, "cap": grouped(&m.caps)});
    if let Some(n) = m.nbf {
        payload["nbf"] = json!(n);
    }
    if !m.facts.is_empty() {
        payload["fct"] = Value::Object(m.facts.clone().into_iter().collect::<Map<_, _>>());
    }
    if !m.prf.is_empty() {
        payload["prf"] = json!(m.prf);
    }
    ensure!(u.nonce().is_some() == m.nonce, "nonce requested: {}, present: {:?}", m.nonce, u.nonce());
    if let Some(n) = u.nonce() {
        payload["nnc"] = json!(n);
    }
    let header = json!({"alg": key.alg(), "typ": "JWT"});
    // A proof given twice may be redelegated under either of its numbers
    if !m.prf.is_empty() && json!(**u.capabilities()) != payload["cap"] {
        let mut caps = m.caps.clone();
        for x in &mut caps {
            let k = x.resource.strip_prefix("prf:").and_then(|k| k.parse::<usize>().ok()).filter(|k| *k < m.prf.len());
            if let (Some(k), "ucan/DELEGATE") = (k, x.ability.as_str()) {
                x.resource = format!("prf:{}", m.prf.iter().position(|p| *p == m.prf[k]).unwrap());
            }
        }
        payload["cap"] = grouped(&caps);
    }
    if let Err(e) = expect_fields(&u, &header, &payload) {
        bail!("the signed token: {e}");
    }
    // the bytes that travel say the same
    let tok = u.encode().map_err(|e| V(format!("a signed token does not encode: {e}")))?;
    let Some((sd, _)) = tok.rsplit_once('.') else { bail!("not a token: {tok}") };
    let Some((h, p)) = read_signed(sd.as_bytes()) else { bail!("the signed bytes are not JSON: {tok}") };
    ensure!(h == header, "the signed header is {h}");
    ensure!(p == payload, "the signed payload is {p}, told {payload}");
    match Ucan::try_from(tok.as_str()) {
        Err(e) => bail!("the built token does not decode: {e:#}"),
        Ok(d) => {
            if let Err(e) = expect_fields(&d, &header, &payload) {
                bail!("the decoded token: {e}");
            }
        }
    }
    ensure!(block_on(u.check_signature(&mut keys::parser())).is_ok(), "the built token's signature does not check");
    c.ev("tokens as told");
    if saturates {
        c.ev("lifetimes saturated");
    }
    c.state("token shapes", (m.exp.is_some(), m.life.is_some(), m.nbf.is_some(), m.facts.len(), m.caps.len(), m.prf.len(), m.nonce));
    Ok(())
}

// ---------------------------------------------------------------- C18

pub const C18: Prop = Prop {
    id: "C18",
    quick: 6600,
    thorough: 20000,
    level: "exploration",
    rule: "a case signs the same content many times over (one signable, clones, fresh builders, threads, child processes, twin processes with the same process id, clocks and addresses, forks of a process that has already signed) with the clock standing still; every nonce of the whole run is kept and compared; distinct_nontrivial counts distinct signings observed, each with its nonce",
    assumptions: &["a repetition is only seen if it occurs among the nonces of one run (about half a million in the quick tier)"],
    run: c18,
};

fn all_nonces() -> &'static Mutex<HashSet<String>> {
    static N: std::sync::OnceLock<Mutex<HashSet<String>>> = std::sync::OnceLock::new();
    N.get_or_init(Default::default)
}

fn fresh(c: &mut Case, n: &str, how: &str) -> Res {
    c.eval();
    c.ev(how);
    ensure!(!n.is_empty(), "an empty nonce ({how})");
    c.seen(n);
    if !all_nonces().lock().unwrap().insert(n.to_string()) {
        bail!("nonce {n} comes up again ({how})");
    }
    Ok(())
}

fn signing<'a>(k: &'a keys::Mock, r: &mut R) -> UcanBuilder<'a, keys::Mock> {
    let mut b = UcanBuilder::default().issued_by(k).for_audience("did:key:zAud").with_lifetime(60);
    if r.pct(50) {
        b = b.with_fact("a", 1u8);
    }
    b
}

fn nonce_of(b: UcanBuilder<keys::Mock>) -> Result<String, V> {
    let s = b.build().map_err(|e| V(e.to_string()))?;
    let u = block_on(s.sign()).map_err(|e| V(e.to_string()))?;
    u.nonce().clone().ok_or_else(|| V("a nonce was requested and none is there".into()))
}

/// `monitor nonce-child <n> <forks> <twin>`: sign n times, then fork, and go on.
pub fn nonce_child() -> i32 {
    let arg = |i: usize| std::env::args().nth(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let (n, forks) = (arg(2), arg(3));
    clock::set(Some(1_700_000_000));
    if arg(4) == 1 {
        clock::twin();
    }
    let k = keys::Mock(vec![1]);
    let mut r = R::new(1, "nonce", 0);
    let mut sign = |n: usize| {
        let mut out = String::new();
        for _ in 0..n {
            out.push_str(&nonce_of(signing(&k, &mut r).with_nonce()).unwrap_or_default());
            out.push('\n');
        }
        unsafe { libc::write(1, out.as_ptr() as *const _, out.len()) };
    };
    sign(n);
    let mut kids = Vec::new();
    for _ in 0..forks {
        match unsafe { libc::fork() } {
            0 => {
                sign(n);
                unsafe { libc::_exit(0) }
            }
            pid => kids.push(pid),
        }
    }
    sign(n);
    for pid in kids {
        unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
    }
    0
}

fn c18(c: &mut Case) -> Res {
    clock::set(Some(1_700_000_000));
    let k = match keys::mock(c.r.below(2) as u64) {
        K::Mock(m) => m,
        _ => unreachable!(),
    };
    match c.idx % 11 {
        0 => {
            // processes, some of them forked after having signed
            // or twins: alike in everything a process can tell of itself
            let twin = c.r.pct(40);
            let forks = if twin { 0 } else { c.r.below(4) };
            let mut kids: Vec<std::process::Child> = Vec::new();
            for _ in 0..2 {
                let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
                cmd.args(["nonce-child", "8", &forks.to_string(), if twin { "1" } else { "0" }]).stdout(std::process::Stdio::piped());
                if twin {
                    use std::os::unix::process::CommandExt;
                    unsafe {
                        cmd.pre_exec(|| {
                            // the same addresses (if the system allows)
                            libc::personality(0x0040000);
                            Ok(())
                        });
                    }
                }
                kids.push(cmd.spawn().expect("child process"));
            }
            for kid in kids {
                let out = kid.wait_with_output().expect("child output");
                let text = String::from_utf8_lossy(&out.stdout).to_string();
                let lines: Vec<&str> = text.split_terminator('\n').collect();
                ensure!(lines.len() == 8 * (2 + forks), "a child process signed {} times, not {}", lines.len(), 8 * (2 + forks));
                for n in lines {
                    fresh(c, n, if twin { "in twin processes" } else if forks > 0 { "in forked processes" } else { "in child processes" })?;
                }
            }
        }
        1 => {
            let n = c.r.range(2, 8);
            let barrier = std::sync::Barrier::new(n);
            let out: Vec<Result<Vec<String>, V>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|_| {
                        let (k, barrier) = (&k, &barrier);
                        s.spawn(move || {
                            clock::set(Some(1_700_000_000));
                            barrier.wait();
                            let mut r = R::new(0, "same", 0);
                            (0..40).map(|_| nonce_of(signing(k, &mut r).with_nonce())).collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("signing thread")).collect()
            });
            for v in out {
                for x in v? {
                    fresh(c, &x, "on fresh threads")?;
                }
            }
        }
        2..=4 => {
            // one signable, again and again; its payload as well
            let b = signing(&k, &mut c.r).with_nonce();
            let s = b.build().map_err(|e| V(e.to_string()))?;
            for _ in 0..150 {
                let u = block_on(s.sign()).map_err(|e| V(e.to_string()))?;
                let Some(n) = u.nonce().clone() else { bail!("a nonce was requested and none is there") };
                let d = Ucan::try_from(u.encode().unwrap()).map_err(|e| V(e.to_string()))?;
                ensure!(d.nonce().as_ref() == Some(&n), "the encoded token carries nonce {:?} instead of {n}", d.nonce());
                fresh(c, &n, "same signable signed again")?;
            }
        }
        5..=7 => {
            let plain = signing(&k, &mut c.r);
            let b = plain.clone().with_nonce();
            for i in 0..150 {
                // in any place among the calls, asked for more than once
                let x = if i % 3 == 0 { b.clone().with_nonce() } else if i % 3 == 1 { b.clone().with_expiration(i) } else { b.clone() };
                fresh(c, &nonce_of(x)?, "clones of one builder")?;
            }
            let u = block_on(plain.clone().build().unwrap().sign()).map_err(|e| V(e.to_string()))?;
            ensure!(u.nonce().is_none(), "a nonce nobody asked for: {:?}", u.nonce());
            c.ev("tokens without a nonce");
        }
        8 => {
            // interleaved signings on one thread
            let keys: Vec<keys::Mock> = (0..6).map(|i| keys::Mock(vec![i + 1])).collect();
            let mut r = c.r.fork();
            let sigs: Vec<_> = keys.iter().map(|k| signing(k, &mut r).with_nonce().build().unwrap()).collect();
            crate::exec::set_yield(50, c.idx + 1);
            let futs: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = anyhow::Result<Ucan>> + '_>>> =
                sigs.iter().map(|s| Box::pin(s.sign()) as _).collect();
            let res = crate::exec::interleave(futs, &mut r);
            crate::exec::set_yield(0, 1);
            let (us, sched) = res.map_err(V)?;
            c.state("interleavings", sched);
            for u in us {
                let u = u.map_err(|e| V(e.to_string()))?;
                let Some(n) = u.nonce().clone() else { bail!("a nonce was requested and none is there") };
                fresh(c, &n, "interleaved signings")?;
            }
        }
        _ => {
            for _ in 0..150 {
                let b = signing(&k, &mut c.r).with_nonce();
                fresh(c, &nonce_of(b)?, "fresh builders, same content")?;
                let u = block_on(signing(&k, &mut c.r).build().unwrap().sign()).map_err(|e| V(e.to_string()))?;
                ensure!(u.nonce().is_none(), "a nonce nobody asked for: {:?}", u.nonce());
                c.ev("tokens without a nonce");
            }
        }
    }
    c.sample(|| "nonces of one run".into());
    Ok(())
}
