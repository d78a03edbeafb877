//! C07–C12: proof chains.
use crate::case::{Case, Res};
use crate::clock;
use crate::dag::{self, Dag, Opt, Stored};
use crate::exec::block_on;
use crate::forge;
use crate::keys::{self, Event, K};
use crate::rng::R;
use crate::sem::{Form, MCap, TScope, TSem};
use crate::store::TraceStore;
use crate::{bail, ensure, Prop};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use ucan::capability::Capability;
use ucan::chain::{CapabilityInfo, ProofChain};
use ucan::crypto::did::DidParser;
use ucan::store::UcanJwtStore;
use ucan::ucan::Ucan;

const T0: u64 = 1_700_000_000;

pub const HOW: &[&str] = &["token", "string", "CID"];

pub async fn build_async<S: UcanJwtStore>(token: &str, how: usize, now: Option<u64>, p: &mut DidParser, store: &S) -> Result<ProofChain, String> {
    let r = match how {
        0 => {
            let u = Ucan::try_from(token).map_err(|e| format!("{e:#}"))?;
            ProofChain::from_ucan(u, now, p, store).await
        }
        1 => ProofChain::try_from_token_string(token, now, p, store).await,
        _ => ProofChain::from_cid(&forge::cid(token), now, p, store).await,
    };
    r.map_err(|e| format!("{e:#}"))
}

pub fn build<S: UcanJwtStore>(token: &str, how: usize, now: Option<u64>, p: &mut DidParser, store: &S) -> Result<ProofChain, String> {
    block_on(build_async(token, how, now, p, store))
}

/// The chain holds exactly the tokens of the graph, in place.
fn same_tree(chain: &ProofChain, d: &Dag, i: usize) -> Result<(), String> {
    let n = &d.nodes[i];
    if chain.ucan().encode().ok().as_deref() != Some(&n.token) {
        return Err(format!("the chain holds another token in place of token {i}"));
    }
    if chain.proofs().len() != n.prf.len() {
        return Err(format!("token {i} lists {} proofs, the chain holds {}", n.prf.len(), chain.proofs().len()));
    }
    for (k, (p, j)) in chain.proofs().iter().zip(&n.prf).enumerate() {
        same_tree(p, d, *j).map_err(|e| format!("proof {k} of token {i}: {e}"))?;
    }
    Ok(())
}

pub fn gen(r: &mut R, mut o: Opt) -> Dag {
    loop {
        let d = Dag::generate(r, &o);
        if d.unfolded(d.root) <= 260 {
            return d;
        }
        o.share /= 2;
        o.max_nodes = o.max_nodes * 3 / 4 + 1;
    }
}

fn mixed(r: &mut R) -> K {
    if r.pct(60) {
        r.pick(keys::mocks()).clone()
    } else {
        keys::any_cheap(r)
    }
}
fn few_mocks(r: &mut R) -> K {
    keys::mocks()[r.below(6)].clone()
}
fn mock(r: &mut R) -> K {
    r.pick(keys::mocks()).clone()
}

/// Capabilities that carry redelegations within range now and then.
fn some_caps(r: &mut R, proofs: usize) -> Value {
    let mut m = Map::new();
    if r.pct(40) {
        m.insert("mailto:a@example.com".into(), json!({"email/send": [{}]}));
    }
    if proofs > 0 && r.pct(25) {
        m.insert(format!("prf:{}", r.below(proofs)), json!({"ucan/DELEGATE": [{}]}));
    }
    if r.pct(10) {
        m.insert("prf:*".into(), json!({"ucan/DELEGATE": [{}]}));
    }
    Value::Object(m)
}

fn shape_opt(r: &mut R, t: u64) -> Opt {
    if r.below(250) == 0 {
        // far beyond the ordinary: in depth, in breadth or in size
        let which = r.below(3);
        let depth = match which {
            0 => *r.pick(&[41usize, 70, 130, 240]) + r.below(12),
            1 => 1,
            _ => r.range(0, 3),
        };
        return Opt {
            depth,
            min_depth: if which == 0 { depth } else { 0 },
            fanout: if which == 1 { *r.pick(&[60usize, 140, 240]) } else { 1 },
            max_nodes: 250,
            t,
            windows: r.pct(50),
            share: 0,
            foreign: r.pct(50),
            big: if which == 2 { *r.pick(&[20_000usize, 70_000, 150_000, 300_000]) } else { 0 },
            key: mock,
            caps: *r.pick(&[dag::no_caps as fn(&mut R, usize) -> Value, some_caps]),
        };
    }
    let deep = r.pct(6);
    Opt {
        big: if r.pct(2) { r.range(1000, 9000) } else { 0 },
        depth: if deep { r.range(10, 40) } else { r.range(0, 5) },
        min_depth: if deep { 10 } else { r.below(4) },
        fanout: if deep { 1 } else { *r.pick(&[1, 2, 3, 4]) },
        max_nodes: *r.pick(&[4usize, 8, 14, 24]),
        t,
        windows: r.pct(75),
        share: *r.pick(&[0u64, 30, 60]),
        foreign: r.pct(50),
        key: *r.pick(&[mixed as fn(&mut R) -> K, few_mocks, mock]),
        caps: *r.pick(&[dag::no_caps as fn(&mut R, usize) -> Value, some_caps]),
    }
}

fn pick_t(r: &mut R) -> u64 {
    *r.pick(&[T0, T0, T0, 5000, 1 << 33, 1_000_000])
}

// ---------------------------------------------------------------- C07

pub const C07: Prop = Prop {
    id: "C07",
    quick: 44000,
    thorough: 500000,
    level: "exploration",
    rule: "a case is one proof graph (mostly up to 24 tokens and 40 levels with shared proofs and up to 13 proofs per token; now and then 250 levels, 240 proofs of one token, or a token of 300 KB), left sound or broken in one or two chosen places, judged at several times through every entry point against an independent model of acceptance; distinct_nontrivial counts distinct (outermost token, store content, time) triples with at least one proof",
    assumptions: &["the harness's acceptance model (dag.rs, judge) restates the property", "the store hands out what was put into it under a CID"],
    run: c07,
};

fn c07(c: &mut Case) -> Res {
    let t = pick_t(&mut c.r);
    let o = shape_opt(&mut c.r, t);
    let mut d = gen(&mut c.r, o);
    let mut p = keys::parser();
    let warm = c.r.pct(50);
    let mut fork = c.r.fork();
    let store = TraceStore::default();
    if warm {
        d.render(&mut fork.clone());
        d.fill(&store);
        let how = c.r.below(3);
        let tok = d.nodes[d.root].token.clone();
        for l in d.describe() {
            c.note(l);
        }
        let r = build(&tok, how, Some(t), &mut p, &store);
        c.eval();
        c.ev("sound graphs accepted");
        match r {
            Err(e) => bail!("a sound chain is refused at T={t} by {}: {e}", HOW[how]),
            Ok(ch) => {
                if let Err(e) = same_tree(&ch, &d, d.root) {
                    bail!("{e}");
                }
            }
        }
        c.notes.clear();
    }
    let mut what = Vec::new();
    if !(warm && c.r.pct(10)) && c.r.pct(70) {
        for _ in 0..*c.r.pick(&[1usize, 1, 1, 2]) {
            what.push(d.sabotage(&mut c.r, t));
        }
    }
    if d.unfolded(d.root) > 600 {
        return Ok(());
    }
    d.render(&mut fork);
    // the warmed store keeps every sound token; what is missing now is removed
    d.fill(&store);
    for n in &d.nodes {
        for (j, l) in n.prf.iter().zip(&n.links) {
            if d.nodes[*j].stored == Stored::Missing {
                store.remove(&forge::raw_cid(d.nodes[*j].token.as_bytes(), l.code));
            }
        }
    }
    for l in d.describe() {
        c.note(l);
    }
    c.note(format!("broken by {what:?}; same parser and store {} the sound graph before", if warm { "had accepted" } else { "had not seen" }));
    // what a user asks of two tokens' windows directly
    for _ in 0..4 {
        let (i, j) = (c.r.below(d.nodes.len()), c.r.below(d.nodes.len()));
        let (a, b) = (&d.nodes[i], &d.nodes[j]);
        let (Ok(u), Ok(v)) = (Ucan::try_from(a.token.as_str()), Ucan::try_from(b.token.as_str())) else { continue };
        let (wa, wb) = (a.window(), b.window());
        let begins = dag::nested((wa.0, None), (wb.0, None));
        let ends = dag::nested((None, wa.1), (None, wb.1));
        ensure!(u.lifetime_begins_before(&v) == begins, "{wa:?} begins before {wb:?}: defined {begins}");
        ensure!(u.lifetime_ends_after(&v) == ends, "{wa:?} ends after {wb:?}: defined {ends}");
        ensure!(u.lifetime_encompasses(&v) == (begins && ends), "{wa:?} encompasses {wb:?}: defined {}", begins && ends);
        c.ev("pairs of windows compared");
    }
    let root = &d.nodes[d.root];
    let mut times = vec![t];
    for n in &d.nodes {
        for b in [n.body.nbf, n.body.exp].into_iter().flatten() {
            times.extend([b, b.saturating_add(1), b.saturating_sub(1)]);
        }
    }
    times.sort();
    times.dedup();
    if times.len() > 7 {
        c.r.shuffle(&mut times);
        times.truncate(6);
        times.push(t);
    }
    for t in times {
        let want = d.judge(d.root, t);
        for how in 0..3 {
            // the store of the root is only needed for the CID entry
            let explicit = t > clock::LAST || c.r.pct(60);
            let res = if explicit {
                clock::at(*c.r.pick(&[0u64, 77, clock::LAST]), || build(&root.token, how, Some(t), &mut p, &store))
            } else {
                clock::at(t, || build(&root.token, how, None, &mut p, &store))
            };
            c.eval();
            if !root.prf.is_empty() {
                c.seen((&root.token, store.len(), t));
            }
            match (&want, res) {
                (Ok(()), Ok(ch)) => {
                    c.ev("sound graphs accepted");
                    if let Err(e) = same_tree(&ch, &d, d.root) {
                        bail!("at T={t} by {}: {e}", HOW[how]);
                    }
                }
                (Err(_), Err(_)) => {
                    c.ev("unsound graphs refused");
                    for w in &what {
                        c.ev(&format!("refused after: {w}"));
                    }
                }
                (Ok(()), Err(e)) => bail!("a sound chain is refused at T={t} ({}) by {}: {e}", if explicit { "given" } else { "wall clock" }, HOW[how]),
                (Err(w), Ok(_)) => bail!("an unsound chain is accepted at T={t} ({}) by {}: {w}", if explicit { "given" } else { "wall clock" }, HOW[how]),
            }
        }
    }
    c.state("graph shapes", d.shape().split(' ').map(|s| s.split(['(']).next().unwrap_or("").to_string()).collect::<Vec<_>>());
    c.state("graph depths", d.depth_of(d.root));
    c.sample(|| format!("{} broken by {what:?}", d.shape()));
    Ok(())
}

// ---------------------------------------------------------------- C08

pub const C08: Prop = Prop {
    id: "C08",
    quick: 48000,
    thorough: 400000,
    level: "exploration",
    rule: "a case is one sound proof graph built under keys and a store that log every verification (who, which bytes, which signature, outcome) and every read; the log is checked against the graph, then single verifications are made to fail; distinct_nontrivial counts distinct outermost tokens with at least one proof",
    assumptions: &["a token's own bytes and signature identify it in the log"],
    run: c08,
};

fn check_trace(d: &Dag, log: &[Event]) -> Result<(), String> {
    for i in d.reachable() {
        let n = &d.nodes[i];
        let (sd, sig) = n.token.rsplit_once('.').unwrap();
        let sig = forge::unb64(sig);
        let mine: Vec<&Event> = log
            .iter()
            .filter(|e| matches!(e, Event::Verify { payload, .. } if payload == sd.as_bytes()))
            .collect();
        if mine.is_empty() {
            return Err(format!("the signature of token {i} was never checked"));
        }
        let good = mine.iter().any(|e| matches!(e, Event::Verify { did, sig: s, ok: true, .. } if *did == n.body.iss && *s == sig));
        if !good {
            return Err(format!("token {i} was not checked with its own signature under its own issuer: {mine:?}"));
        }
        for (j, l) in n.prf.iter().zip(&n.links) {
            let cid = forge::raw_cid(d.nodes[*j].token.as_bytes(), l.code).to_string();
            if !log.iter().any(|e| matches!(e, Event::Read { cid: c, found: true } if *c == cid)) {
                return Err(format!("proof {j} of token {i} was never read under {cid}"));
            }
        }
    }
    Ok(())
}

fn c08(c: &mut Case) -> Res {
    let t = pick_t(&mut c.r);
    let mut o = shape_opt(&mut c.r, t);
    if c.r.pct(80) {
        o.min_depth = o.min_depth.max(1);
        o.depth = o.depth.max(1);
    }
    let mut d = gen(&mut c.r, o);
    let mut fork = c.r.fork();
    d.render(&mut fork);
    let store = d.store();
    for l in d.describe() {
        c.note(l);
    }
    let tok = d.nodes[d.root].token.clone();
    let mut p = DidParser::new(keys::LOGGED_KEYS);
    keys::fail_verification(None);
    let rounds = c.r.range(1, 3);
    let mut count = 0;
    for round in 0..rounds {
        let how = c.r.below(3);
        keys::log_start();
        let r = build(&tok, how, Some(t), &mut p, &store);
        let log = keys::log_take();
        c.eval();
        let ch = match r {
            Ok(ch) => ch,
            Err(e) => bail!("a sound chain is refused by {}: {e}", HOW[how]),
        };
        if let Err(e) = same_tree(&ch, &d, d.root) {
            bail!("{e}");
        }
        if let Err(e) = check_trace(&d, &log) {
            bail!("construction {round} by {}: {e}", HOW[how]);
        }
        count = log.iter().filter(|e| matches!(e, Event::Verify { .. })).count();
        c.evn("verifications observed", count as u64);
        c.evn("reads observed", log.iter().filter(|e| matches!(e, Event::Read { .. })).count() as u64);
        c.ev("chains traced");
    }
    if !d.nodes[d.root].prf.is_empty() {
        c.seen(&tok);
    }
    c.state("graph shapes", d.shape());
    // one failing verification, whichever, fails the chain
    let n = if c.thorough { count } else { count.min(4) };
    for k in 0..n {
        let at = if n == count { k } else { c.r.below(count) };
        keys::fail_verification(Some(at as u64));
        keys::log_start();
        let r = build(&tok, c.r.below(3), Some(t), &mut p, &store);
        let log = keys::log_take();
        keys::fail_verification(None);
        let failed = log.iter().any(|e| matches!(e, Event::Verify { ok: false, .. }));
        c.eval();
        if failed {
            c.ev("verifications made to fail");
            ensure!(r.is_err(), "verification {at} of {count} was made to fail, and the chain was accepted");
        }
    }
    // what a token names must be read under the name it gives: without it there is no chain
    let names: Vec<(usize, cid::Cid)> = d
        .reachable()
        .into_iter()
        .flat_map(|i| d.nodes[i].prf.iter().zip(&d.nodes[i].links).map(|(j, l)| (*j, forge::raw_cid(d.nodes[*j].token.as_bytes(), l.code))).collect::<Vec<_>>())
        .collect();
    for _ in 0..names.len().min(2) {
        let (j, gone) = *c.r.pick(&names);
        let block = store.remove(&gone);
        // something else of the same graph in its place, now and then
        if c.r.pct(30) {
            let other = c.r.pick(&d.nodes).token.clone();
            if other != d.nodes[j].token {
                store.put(&other);
            }
        }
        let fresh = c.r.pct(50);
        let mut q = DidParser::new(keys::LOGGED_KEYS);
        let r = build(&tok, c.r.below(3), Some(t), if fresh { &mut q } else { &mut p }, &store);
        c.eval();
        c.ev("named tokens taken away");
        ensure!(r.is_err(), "the store no longer holds {gone}, which names token {j}, and the chain is accepted");
        if let Some(b) = block {
            store.put_bytes(gone, b);
        }
    }
    c.sample(|| format!("{} with {count} verifications", d.shape()));
    Ok(())
}

// ------------------------------------------------- reduction: the model

pub fn gen_scope(r: &mut R) -> Option<TScope> {
    match r.below(10) {
        0 => None,
        1..=6 => {
            let mut m = 0;
            for i in 0..3 {
                if r.pct(50) {
                    m |= 1 << i
                }
            }
            Some(TScope::Set(m))
        }
        _ => {
            let n = r.below(4);
            let p: Vec<String> = (0..n).map(|_| gen_segment(r)).collect();
            // `tree:*` is the wildcard
            Some(TScope::Tree(if p == ["*"] { vec!["a*".into()] } else { p }))
        }
    }
}
/// Usually one of two names; now and then one that merely looks like something else.
fn gen_segment(r: &mut R) -> String {
    if r.pct(80) {
        r.pick(&["a", "b"]).to_string()
    } else {
        r.pick(&["*", "a*", "*a", "A", "ab", "b:c", "a.b", "..", "~", "@", "tree:a", "0"]).to_string()
    }
}
pub fn gen_form(r: &mut R) -> Form {
    match r.below(6) {
        0..=3 => Form::Plain,
        4 => Form::My,
        _ => {
            let d = keys::mocks()[r.below(2)].did();
            // now and then a DID that resembles one of the two
            Form::As(match r.below(14) {
                3 => format!("{d}{}", "z".repeat(300)),
                4 => format!("{d}{}y", "z".repeat(299)),
                0 => d[..d.len() - 1].to_string(),
                1 => format!("{d}1"),
                2 => crate::dag::flip_case(&d, r),
                5 => "did:key:".to_string(),
                6 => format!("{d}="),
                _ => d,
            })
        }
    }
}
pub fn gen_caveat(r: &mut R) -> Value {
    r.pick(&[
        json!({}),
        json!({}),
        json!({"x": 1}),
        json!({"x": 2}),
        json!({"y": true}),
        json!({"x": 1, "y": true}),
        json!({"x": 1, "y": true, "z": {"a": [1, 2]}}),
        json!({"z": {"a": [1, 2]}}),
        json!({"z": {"a": [1]}}),
    ])
    .clone()
}
pub fn gen_mcap(r: &mut R) -> MCap {
    MCap { form: gen_form(r), scope: gen_scope(r), ability: r.below(4) as u8, caveat: gen_caveat(r) }
}

pub fn narrow(r: &mut R, m: &MCap) -> MCap {
    let mut m = m.clone();
    if r.pct(60) {
        m.scope = match &m.scope {
            None => gen_scope(r),
            Some(TScope::Set(x)) => Some(TScope::Set(x & (r.u64() as u32 & 7))),
            Some(TScope::Tree(p)) => {
                let mut p = p.clone();
                p.push(gen_segment(r));
                if p == ["*"] {
                    p[0] = "b*".into();
                }
                Some(TScope::Tree(p))
            }
        }
    }
    if r.pct(50) {
        m.ability = r.below(m.ability as usize + 1) as u8;
    }
    if r.pct(50) {
        if let Value::Object(o) = &mut m.caveat {
            let (k, v) = r.pick(&[("x", json!(1)), ("y", json!(true)), ("w", json!("w"))]).clone();
            o.entry(k).or_insert(v);
        }
    }
    m
}
pub fn broaden(r: &mut R, m: &MCap) -> MCap {
    let mut m = m.clone();
    match r.below(5) {
        0 => {
            m.scope = match &m.scope {
                None => None,
                Some(TScope::Set(x)) => Some(TScope::Set(x | 1 << r.below(4))),
                Some(TScope::Tree(p)) if p.len() == 2 && p[0] == "*" => Some(TScope::Tree(vec![])),
                Some(TScope::Tree(p)) => Some(TScope::Tree(p[..p.len().saturating_sub(1)].to_vec())),
            }
        }
        1 => m.scope = None,
        2 => m.ability = (m.ability + 1).min(9),
        3 => {
            if let Value::Object(o) = &mut m.caveat {
                if let Some(k) = o.keys().next().cloned() {
                    o.remove(&k);
                }
            }
        }
        _ => m.form = gen_form(r),
    }
    m
}

pub fn caps_json(list: &[(String, String, Value)]) -> Value {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for (a, b, c) in list {
        m.entry(a.clone()).or_default().entry(b.clone()).or_default().push(c.clone());
    }
    json!(m)
}

const UNKNOWN: &[(&str, &str)] = &[
    ("https://example.com/", "t/1"),
    ("set:AB", "t/1"),
    ("set:ab", "email/send"),
    ("set:abc", "t/99"),
    ("tree:a//b", "t/3"),
    ("mailto:a@example.com", "email/send"),
    ("not a uri", "t/3"),
    ("my:nothing", "t/3"),
    ("as:did:web:x:set:a", "t/3"),
    ("", "t/3"),
    ("prf:0", "t/3"),
    ("set:a", ""),
];

/// Capabilities flowing up the graph: mostly narrowed, sometimes broadened,
/// redelegated, unrelated, or not understood by the semantics.
pub fn assign_caps(d: &mut Dag, r: &mut R) {
    let mut mine: Vec<Vec<MCap>> = Vec::new();
    let redelegate = *r.pick(&[0u64, 25, 60]);
    // sometimes everybody claims the same few
    let pool: Vec<MCap> = if r.pct(15) { (0..r.range(1, 3)).map(|_| gen_mcap(r)).collect() } else { vec![] };
    let redelegate = if pool.is_empty() { redelegate } else { *r.pick(&[0u64, 50, 100]) };
    let many = if r.pct(2) { Some(r.below(d.nodes.len())) } else { None };
    for i in 0..d.nodes.len() {
        let below: Vec<MCap> = d.nodes[i].prf.iter().flat_map(|j| mine[*j].clone()).collect();
        let mut caps: Vec<MCap> = Vec::new();
        for _ in 0..r.range(if below.is_empty() { 1 } else { 0 }, 4) {
            let m = if !pool.is_empty() && r.pct(80) {
                r.pick(&pool).clone()
            } else if !below.is_empty() && r.pct(75) {
                let b = r.pick(&below).clone();
                match r.below(6) {
                    0..=2 => narrow(r, &b),
                    3 => b,
                    _ => broaden(r, &b),
                }
            } else {
                gen_mcap(r)
            };
            caps.push(m);
        }
        if !caps.is_empty() && r.pct(15) {
            let x = r.pick(&caps).clone();
            caps.push(if r.pct(50) { x } else { narrow(r, &x) });
        }
        let mut list: Vec<(String, String, Value)> =
            caps.iter().map(|m| (m.resource(), crate::sem::ability_text(m.ability), m.caveat.clone())).collect();
        for _ in 0..*r.pick(&[0usize, 0, 1, 3]) {
            let (a, b) = *r.pick(UNKNOWN);
            let at = r.below(list.len() + 1);
            list.insert(at, (a.into(), b.into(), gen_caveat(r)));
        }
        let n = d.nodes[i].prf.len();
        let mut passed: Vec<MCap> = caps;
        if n > 0 && r.pct(redelegate) {
            let cav = if r.pct(20) { gen_caveat(r) } else { json!({}) };
            if r.pct(if pool.is_empty() { 25 } else { 60 }) {
                list.push(("prf:*".into(), "ucan/DELEGATE".into(), cav));
                passed.extend(below);
            } else {
                for _ in 0..r.range(1, 2) {
                    let k = r.below(n);
                    list.push((format!("prf:{k}"), "ucan/DELEGATE".into(), cav.clone()));
                    passed.extend(mine[d.nodes[i].prf[k]].clone());
                }
            }
        }
        let mut v = caps_json(&list);
        if r.pct(20) {
            // an ability with no caveats at all claims nothing
            let m = gen_mcap(r);
            let res = v.as_object_mut().unwrap().entry(m.resource()).or_insert(json!({}));
            let ab = res.as_object_mut().unwrap();
            ab.entry(crate::sem::ability_text(m.ability)).or_insert(json!([]));
        }
        if many == Some(i) {
            // more claims than anybody expects, each of its own kind
            let o = v.as_object_mut().unwrap();
            for k in 0..*r.pick(&[33usize, 65, 129, 260]) {
                let res = o.entry(format!("tree:many/n{k}")).or_insert(json!({}));
                res["t/1"] = json!([{}]);
            }
        }
        if n > 0 && r.pct(8) {
            let res = v.as_object_mut().unwrap().entry(format!("prf:{}", r.below(n + 3))).or_insert(json!({}));
            res.as_object_mut().unwrap().entry("ucan/DELEGATE").or_insert(json!([]));
        }
        d.nodes[i].body.cap = v;
        passed.truncate(12);
        mine.push(passed);
    }
}

type Granted = Vec<(MCap, BTreeSet<String>)>;

fn claims(cap: &Value) -> Vec<(String, String, Value)> {
    let mut out = Vec::new();
    for (res, abs) in cap.as_object().unwrap() {
        for (ab, cavs) in abs.as_object().unwrap() {
            for cav in cavs.as_array().unwrap() {
                out.push((res.clone(), ab.clone(), cav.clone()));
            }
        }
    }
    out
}

pub fn selected(cap: &Value, n: usize) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for (res, ab, _) in claims(cap) {
        if ab != "ucan/DELEGATE" {
            continue;
        }
        if res == "prf:*" {
            s.extend(0..n);
        } else if let Some(Ok(k)) = res.strip_prefix("prf:").map(|x| x.parse::<usize>()) {
            s.insert(k);
        }
    }
    s
}

/// Every capability the chain rooted at i grants, with who originated it.
/// `lower`: the token itself originates only what no proof of any kind supports.
pub fn model(d: &Dag, i: usize, lower: bool, memo: &mut Vec<Option<Granted>>) -> Granted {
    if let Some(g) = &memo[i] {
        return g.clone();
    }
    let n = &d.nodes[i];
    let sel = selected(&n.body.cap, n.prf.len());
    let mut plain: Granted = Vec::new();
    let mut redelegated: Granted = Vec::new();
    for (k, j) in n.prf.iter().enumerate() {
        let g = model(d, *j, lower, memo);
        if sel.contains(&k) {
            redelegated.extend(g)
        } else {
            plain.extend(g)
        }
    }
    let mut out: Granted = Vec::new();
    for (res, ab, cav) in claims(&n.body.cap) {
        let Some(m) = MCap::read(&res, &ab, &cav) else { continue };
        let mut o: BTreeSet<String> = BTreeSet::new();
        for (a, by) in &plain {
            if a.enables(&m) {
                o.extend(by.iter().cloned());
            }
        }
        if o.is_empty() && !(lower && redelegated.iter().any(|(a, _)| a.enables(&m))) {
            o.insert(n.body.iss.clone());
        }
        out.push((m, o));
    }
    out.extend(redelegated);
    // the same capability from the same people, once
    let mut seen = BTreeSet::new();
    out.retain(|(m, o)| seen.insert((m.key(), o.clone())));
    memo[i] = Some(out.clone());
    out
}

fn granted(g: &Granted, q: &MCap, o: &str) -> bool {
    g.iter().any(|(m, by)| by.contains(o) && m.enables(q))
}

fn read_info(i: &CapabilityInfo<TScope, crate::sem::TAbility>) -> Result<(MCap, BTreeSet<String>), String> {
    let cap = Capability::from(&i.capability);
    let m = MCap::read(&cap.resource, &cap.ability, &cap.caveat)
        .ok_or_else(|| format!("reported capability {cap:?} has no meaning under the semantics"))?;
    Ok((m, i.originators.clone()))
}

pub fn read_all(infos: &[CapabilityInfo<TScope, crate::sem::TAbility>]) -> Result<Granted, String> {
    infos.iter().map(read_info).collect()
}

fn show(g: &Granted) -> String {
    g.iter()
        .map(|(m, o)| format!("{} by {:?}", m.key(), o.iter().map(|s| s.chars().rev().take(5).collect::<String>()).collect::<Vec<_>>()))
        .collect::<Vec<_>>()
        .join("; ")
}

fn sem_opt(r: &mut R) -> Opt {
    if r.pct(10) {
        // many issuers side by side
        return Opt {
            depth: r.range(1, 3),
            min_depth: 1,
            fanout: r.range(5, 10),
            max_nodes: *r.pick(&[6usize, 9, 14]),
            t: T0,
            windows: false,
            share: 10,
            foreign: false,
            key: mock,
            caps: dag::no_caps,
            big: 0,
        };
    }
    if r.below(150) == 0 {
        // one long line of delegation
        let depth = r.range(20, 80);
        return Opt {
            depth,
            min_depth: depth,
            fanout: 1,
            max_nodes: 100,
            t: T0,
            windows: false,
            share: 0,
            foreign: false,
            key: if r.pct(50) { mock } else { few_mocks },
            caps: dag::no_caps,
            big: 0,
        };
    }
    let deep = r.pct(5);
    Opt {
        depth: if deep { r.range(8, 16) } else { r.range(1, 4) },
        min_depth: if deep { 8 } else { r.range(0, 3) },
        fanout: if deep { 2 } else { *r.pick(&[1, 2, 2, 3, 4]) },
        max_nodes: *r.pick(&[3usize, 5, 8, 12]),
        t: T0,
        windows: r.pct(40),
        share: *r.pick(&[0u64, 30, 60]),
        foreign: r.pct(20),
        key: few_mocks,
        caps: dag::no_caps,
        big: 0,
    }
}

/// A graph with capabilities, its chain, and what both models grant.
fn semantic_case(c: &mut Case) -> Result<(Dag, ProofChain, TraceStore), crate::case::V> {
    let o = sem_opt(&mut c.r);
    let mut d = gen(&mut c.r, o);
    assign_caps(&mut d, &mut c.r);
    let mut fork = c.r.fork();
    d.render(&mut fork);
    let store = d.store();
    for (i, n) in d.nodes.iter().enumerate() {
        c.note(format!("token {i}{}: iss=…{} prf={:?} cap={}", if i == d.root { " (outermost)" } else { "" }, &n.body.iss[n.body.iss.len() - 5..], n.prf, n.body.cap));
    }
    let mut p = keys::parser();
    let how = c.r.below(3);
    match build(&d.nodes[d.root].token, how, Some(T0), &mut p, &store) {
        Ok(ch) => Ok((d, ch, store)),
        Err(e) => Err(crate::case::V(format!("a sound chain is refused: {e}"))),
    }
}

// ---------------------------------------------------------------- C09

pub const C09: Prop = Prop {
    id: "C09",
    quick: 100000,
    thorough: 1200000,
    level: "exploration",
    rule: "a case is one accepted proof graph whose tokens claim narrowed, broadened, redelegated and unrelated capabilities; every (reported capability, originator) pair, at the root and at every sub-chain, is compared with an independent computation of who originated what; distinct_nontrivial counts distinct reported pairs in their graph",
    assumptions: &["the harness's reading of capability texts and of enablement (sem.rs) restates the specification", "the model's unmerged attribution is exact"],
    run: c09,
};

fn sub_chains<'a>(ch: &'a ProofChain, d: &Dag, i: usize, out: &mut Vec<(&'a ProofChain, usize)>) {
    out.push((ch, i));
    for (p, j) in ch.proofs().iter().zip(&d.nodes[i].prf) {
        if out.len() < 12 {
            sub_chains(p, d, *j, out);
        }
    }
}

fn c09(c: &mut Case) -> Res {
    let (d, ch, _) = semantic_case(c)?;
    let mut memo = vec![None; d.nodes.len()];
    model(&d, d.root, false, &mut memo);
    let mut subs = Vec::new();
    sub_chains(&ch, &d, d.root, &mut subs);
    for (sub, i) in subs {
        let got = match read_all(&sub.reduce_capabilities(&TSem)) {
            Ok(g) => g,
            Err(e) => bail!("{e}"),
        };
        let upper = model(&d, i, false, &mut memo);
        for (m, os) in &got {
            ensure!(!os.is_empty(), "token {i}: capability {} is reported with no originator", m.key());
            for o in os {
                c.eval();
                c.seen((&d.nodes[i].token, m.key(), o));
                if *o != d.nodes[i].body.iss {
                    c.ev("attributions to an issuer below");
                }
                if !granted(&upper, m, o) {
                    let also = d.nodes.iter().any(|n| n.body.iss == *o);
                    bail!(
                        "token {i}: capability {} is attributed to {o}, who {}; granted are: {}",
                        m.key(),
                        if also { "never passed such authority on" } else { "issued no token of the chain" },
                        show(&upper)
                    );
                }
            }
        }
        c.evn("capabilities reported", got.len() as u64);
    }
    c.state("graph shapes", d.shape().split(' ').map(|s| s.split(['(']).next().unwrap_or("").to_string()).collect::<Vec<_>>());
    c.sample(|| format!("{} root claims {}", d.shape(), d.nodes[d.root].body.cap));
    Ok(())
}

// ---------------------------------------------------------------- C10

pub const C10: Prop = Prop {
    id: "C10",
    quick: 60000,
    thorough: 1000000,
    level: "exploration",
    rule: "a case is one accepted proof graph with capabilities, as built and again with its proofs reordered, claims duplicated and foreign capabilities added; every (claimed capability, originator) pair an independent computation grants must be reported in both, and no two reported capabilities may be equal; distinct_nontrivial counts distinct granted pairs in their graph",
    assumptions: &["a claimed capability that a reported broader one with the same originators enables counts as reported"],
    run: c10,
};

fn lost(d: &Dag, i: usize, got: &Granted, memo: &mut Vec<Option<Granted>>, c: &mut Case) -> Res {
    let want = model(d, i, true, memo);
    for (m, os) in &want {
        // support by redelegated proofs alone leaves the originators to their own entries
        if os.is_empty() {
            ensure!(got.iter().any(|(g, _)| g.enables(m)), "token {i}: claimed capability {} is not reported", m.key());
        }
        for o in os {
            c.eval();
            c.seen((&d.nodes[i].token, m.key(), o));
            ensure!(
                granted(got, m, o),
                "token {i}: capability {} from {o} is lost; reported are: {}", m.key(), show(got)
            );
        }
    }
    for (j, (a, _)) in got.iter().enumerate() {
        for (b, _) in &got[..j] {
            ensure!(
                !(a.enables(b) && b.enables(a)),
                "token {i}: capability {} is reported twice instead of once with all its originators: {}", a.key(), show(got)
            );
        }
    }
    c.evn("granted capabilities", want.len() as u64);
    Ok(())
}

/// The same delegations written differently.
fn rearranged(d: &Dag, r: &mut R) -> Dag {
    let mut e = Dag { nodes: d.nodes.clone(), root: d.root };
    for n in &mut e.nodes {
        let k = n.prf.len();
        let mut perm: Vec<usize> = (0..k).collect();
        if r.pct(80) {
            r.shuffle(&mut perm);
        }
        // perm[new] = old
        n.prf = perm.iter().map(|o| n.prf[*o]).collect();
        n.links = perm.iter().map(|o| n.links[*o].clone()).collect();
        let mut list = claims(&n.body.cap);
        for c in &mut list {
            if c.1 == "ucan/DELEGATE" {
                if let Some(Ok(old)) = c.0.strip_prefix("prf:").map(|x| x.parse::<usize>()) {
                    if let Some(new) = perm.iter().position(|o| *o == old) {
                        c.0 = format!("prf:{new}");
                    }
                }
            }
        }
        if !list.is_empty() {
            for _ in 0..r.below(3) {
                let x = r.pick(&list).clone();
                list.push(x);
            }
            // caveats in another order
            if r.pct(50) {
                r.shuffle(&mut list);
            }
        }
        for _ in 0..r.below(4) {
            let (a, b) = *r.pick(UNKNOWN);
            list.push((a.into(), b.into(), gen_caveat(r)));
        }
        n.body.cap = caps_json(&list);
    }
    e
}

fn c10(c: &mut Case) -> Res {
    let (d, ch, _) = semantic_case(c)?;
    let mut memo = vec![None; d.nodes.len()];
    let mut subs = Vec::new();
    sub_chains(&ch, &d, d.root, &mut subs);
    let mut root_got = Vec::new();
    for (sub, i) in subs {
        let got = match read_all(&sub.reduce_capabilities(&TSem)) {
            Ok(g) => g,
            Err(e) => bail!("{e}"),
        };
        lost(&d, i, &got, &mut memo, c)?;
        if i == d.root {
            root_got = got;
        }
    }
    // written differently
    let mut e = rearranged(&d, &mut c.r);
    let mut fork = c.r.fork();
    e.render(&mut fork);
    for (i, n) in e.nodes.iter().enumerate() {
        c.note(format!("rearranged token {i}: prf={:?} cap={}", n.prf, n.body.cap));
    }
    let store = e.store();
    let mut p = keys::parser();
    let ch2 = match build(&e.nodes[e.root].token, 1, Some(T0), &mut p, &store) {
        Ok(x) => x,
        Err(e) => bail!("the chain is refused after reordering: {e}"),
    };
    let got2 = match read_all(&ch2.reduce_capabilities(&TSem)) {
        Ok(g) => g,
        Err(e) => bail!("{e}"),
    };
    c.ev("rearranged graphs compared");
    for (a, b, which) in [(&root_got, &got2, "after"), (&got2, &root_got, "before")] {
        for (m, os) in a.iter() {
            for o in os {
                c.eval();
                ensure!(
                    granted(b, m, o),
                    "capability {} from {o} is not reported {which} proofs and claims are reordered, repeated and mixed with unknown ones", m.key()
                );
            }
        }
    }
    c.state("graph shapes", d.shape().split(' ').map(|s| s.split(['(']).next().unwrap_or("").to_string()).collect::<Vec<_>>());
    c.sample(|| format!("{} root claims {}", d.shape(), d.nodes[d.root].body.cap));
    Ok(())
}

// ---------------------------------------------------------------- C11

pub const C11: Prop = Prop {
    id: "C11",
    quick: 120000,
    thorough: 800000,
    level: "exploration",
    rule: "a case is a token with 0 to 14 proofs, each granting a capability of its own (directly or through a redelegation of its own), that redelegates a chosen selection in a chosen form; what it reports is compared with exactly the selected proofs' reports; distinct_nontrivial counts distinct outermost tokens with at least one proof",
    assumptions: &["a caveat on a redelegation capability restricts nothing (the empty list of caveats redelegates nothing)", "an index written with leading zeros or a sign names that proof, or no proof, or the token is refused"],
    run: c11,
};

fn c11(c: &mut Case) -> Res {
    let me = keys::mock(100);
    let n = if c.idx % 250 == 77 { c.r.range(256, 262) } else { *c.r.pick(&[0usize, 1, 2, 3, 4, 9, 10, 11, 12, 14]) };
    let mut d = Dag { nodes: Vec::new(), root: 0 };
    let plain = |key: &K, aud: &str, cap: Value, prf: Vec<usize>, id: usize, r: &mut R| {
        let mut b = forge::Body::new(key, aud);
        b.cap = cap;
        b.nnc = Some(format!("{id}"));
        dag::Node {
            links: prf
                .iter()
                .map(|_| dag::Link { code: *r.pick(&[cid::multihash::Code::Blake3_256, cid::multihash::Code::Sha2_256]), form: 0 })
                .collect(),
            body: b,
            prf,
            stored: Stored::Yes,
            bad_sig: 0,
            broken: None,
            style: crate::json::Style::Canonical,
            token: String::new(),
        }
    };
    let mut tops = Vec::new();
    for k in 0..n {
        // each proof grants tree:p<k> in its own way
        let own = json!({format!("tree:p{k}"): {"t/2": [{}]}, format!("my:tree:p{k}"): {"t/1": [{"k": k}]}});
        let a = keys::mock(200 + if c.r.pct(80) { k as u64 } else { 0 });
        match c.r.below(5) {
            4 => {
                // through a token that redelegates several of its own proofs
                let m = c.r.range(2, 4);
                let mut lows = Vec::new();
                for q in 0..m {
                    let b = keys::mock(300 + if c.r.pct(70) { 16 * k as u64 + q as u64 } else { k as u64 });
                    let cap = json!({format!("tree:p{k}/{q}"): {"t/2": [{}]}, format!("my:tree:p{k}/{q}"): {"t/1": [{"k": k}]}});
                    let low = plain(&b, &a.did(), cap, vec![], d.nodes.len(), &mut c.r);
                    d.nodes.push(low);
                    lows.push(d.nodes.len() - 1);
                }
                let sel = if c.r.pct(40) {
                    json!({"prf:*": {"ucan/DELEGATE": [{}]}})
                } else {
                    let mut s = Map::new();
                    for q in 0..m {
                        s.insert(format!("prf:{q}"), json!({"ucan/DELEGATE": [{}]}));
                    }
                    Value::Object(s)
                };
                let mid = plain(&a, &me.did(), sel, lows, d.nodes.len(), &mut c.r);
                d.nodes.push(mid);
            }
            0 => {
                // through a token that redelegates it
                let b = keys::mock(300 + k as u64);
                let low = plain(&b, &a.did(), own, vec![], d.nodes.len(), &mut c.r);
                d.nodes.push(low);
                let j = d.nodes.len() - 1;
                let sel = if c.r.pct(50) { "prf:*" } else { "prf:0" };
                let mid = plain(&a, &me.did(), json!({sel: {"ucan/DELEGATE": [{}]}}), vec![j], d.nodes.len(), &mut c.r);
                d.nodes.push(mid);
            }
            1 => {
                // through a token that claims it
                let b = keys::mock(300 + k as u64);
                let low = plain(&b, &a.did(), own.clone(), vec![], d.nodes.len(), &mut c.r);
                d.nodes.push(low);
                let j = d.nodes.len() - 1;
                let mid = plain(&a, &me.did(), own, vec![j], d.nodes.len(), &mut c.r);
                d.nodes.push(mid);
            }
            _ => {
                let low = plain(&a, &me.did(), own, vec![], d.nodes.len(), &mut c.r);
                d.nodes.push(low);
            }
        }
        tops.push(d.nodes.len() - 1);
    }
    if n > 2 && c.r.pct(10) {
        // the same proof listed twice
        let x = tops[0];
        tops[n - 1] = x;
    }
    // the selection
    let mut list: Vec<(String, String, Value)> = Vec::new();
    let mut empty: Vec<String> = Vec::new();
    let mut how = "none";
    match c.r.below(10) {
        0 => {}
        1 | 2 => {
            list.push(("prf:*".into(), "ucan/DELEGATE".into(), json!({})));
            how = "wildcard";
        }
        3 => {
            empty.push(if c.r.pct(50) { "prf:*".into() } else { format!("prf:{}", c.r.below(n + 2)) });
            how = "empty caveat list";
        }
        4 => {
            // Also numbers that are in range once cut to fewer bits
            let k = c.r.below(n.max(1));
            let k = match c.r.below(10) {
                0 => 255,
                1 => 256 + k,
                2 => 65535,
                3 => 65536 + k,
                4 => (1 << 32) + k,
                5 => (1 << 63) + k,
                6 => usize::MAX - c.r.below(2),
                _ => n + c.r.below(3),
            };
            list.push((format!("prf:{}", k.max(n)), "ucan/DELEGATE".into(), json!({})));
            if n > 0 {
                list.push((format!("prf:{}", c.r.below(n)), "ucan/DELEGATE".into(), json!({})));
            }
            how = "out of range";
        }
        5 => {
            for _ in 0..3 {
                let (a, b) = *c.r.pick(&[
                    ("prf:0", "ucan/delegate"),
                    ("prf:*", "ucan/*"),
                    ("prf:*", "ucan/DELEGATE2"),
                    ("prf:0", "*"),
                    ("prf:", "ucan/DELEGATE"),
                    ("prf:-1", "ucan/DELEGATE"),
                    ("prf:x", "ucan/DELEGATE"),
                    ("prf:0x0", "ucan/DELEGATE"),
                    ("prf:0,1", "ucan/DELEGATE"),
                    ("prf:**", "ucan/DELEGATE"),
                    ("prf", "ucan/DELEGATE"),
                    ("*", "ucan/DELEGATE"),
                    ("ucan:*", "ucan/DELEGATE"),
                    ("my:prf:0", "ucan/DELEGATE"),
                    ("xprf:0", "ucan/DELEGATE"),
                    ("proof:0", "ucan/DELEGATE"),
                ]);
                let a = match c.r.below(3) {
                    0 => format!("as:{}:prf:{}", me.did(), c.r.pick(&["0", "1", "*"])),
                    1 => c.r.pick(&["prf:/0", "prf:0/", "prf:/*", "prf:*/", "my:prf:*", "my:prf:1", "prf:0:1", "prf:0-1", "prf:0;1", "prf:0.0", "prf:1e0", "prf:%30", "prf:%2A", "prf:%2a", "prf:all", "prf:last"]).to_string(),
                    _ => a.to_string(),
                };
                list.push((a, b.into(), json!({})));
            }
            how = "not a redelegation";
        }
        _ if n > 0 && c.r.pct(12) => {
            // an index written in an unusual way: that proof or none
            let k = c.r.below(n);
            let text = match c.r.below(3) {
                0 => format!("0{k}"),
                1 => format!("000{k}"),
                _ => format!("+{k}"),
            };
            list.push((format!("prf:{text}"), "ucan/DELEGATE".into(), json!({})));
            how = "unusual index";
        }
        _ => {
            if n > 0 {
                for _ in 0..c.r.range(1, 4) {
                    let cav = if c.r.pct(10) { gen_caveat(&mut c.r) } else { json!({}) };
                    list.push((format!("prf:{}", c.r.below(n)), "ucan/DELEGATE".into(), cav));
                }
                if n > 10 && c.r.pct(50) {
                    list.push((format!("prf:{}", c.r.range(10, n - 1)), "ucan/DELEGATE".into(), json!({})));
                }
                if c.r.pct(15) {
                    // the selection beside other selections that select nothing
                    empty.push("prf:*".into());
                }
                how = "indexes";
            }
        }
    }
    let claims_own = c.r.pct(40);
    if claims_own {
        list.push(("set:abc".into(), "t/1".into(), json!({})));
    }
    let claims_k = if n > 0 && c.r.pct(40) { Some(c.r.below(n)) } else { None };
    if let Some(k) = claims_k {
        list.push((format!("tree:p{k}/x"), "t/1".into(), json!({})));
    }
    let mut cap = caps_json(&list);
    for e in &empty {
        let res = cap.as_object_mut().unwrap().entry(e.clone()).or_insert(json!({}));
        res.as_object_mut().unwrap().entry("ucan/DELEGATE").or_insert(json!([]));
    }
    let aud = keys::mock(101).did();
    let root = plain(&me, &aud, cap.clone(), tops.clone(), d.nodes.len(), &mut c.r);
    d.nodes.push(root);
    d.root = d.nodes.len() - 1;
    // sometimes one more level on top that redelegates or claims everything
    let mut fork = c.r.fork();
    d.render(&mut fork);
    let store = d.store();
    c.note(format!("{n} proofs, selection {how}: {cap}"));
    for l in d.describe() {
        c.note(l);
    }
    let token = d.nodes[d.root].token.clone();
    let mut p = keys::parser();
    let entry = c.r.below(3);
    let res = build(&token, entry, Some(T0), &mut p, &store);
    c.eval();
    if n > 0 {
        c.seen(&token);
    }
    c.state("(proofs, selection)", (n, cap.to_string()));
    c.ev(&format!("selection: {how}"));
    let sel = selected(&cap, n);
    if sel.iter().any(|k| *k >= n) {
        ensure!(res.is_err(), "a token with {n} proofs redelegates {sel:?} and is accepted");
        c.ev("out of range refused");
        return Ok(());
    }
    let exact = how != "unusual index";
    let ch = match res {
        Ok(ch) => ch,
        Err(_) if !exact => {
            c.ev("unusual indexes refused");
            return Ok(());
        }
        Err(e) => bail!("a token with {n} proofs redelegating {sel:?} is refused: {e}"),
    };
    let got = match read_all(&ch.reduce_capabilities(&TSem)) {
        Ok(g) => g,
        Err(e) => bail!("{e}"),
    };
    // every proof's own report, as the code gives it
    for (k, sub) in ch.proofs().iter().enumerate() {
        let theirs = match read_all(&sub.reduce_capabilities(&TSem)) {
            Ok(g) => g,
            Err(e) => bail!("{e}"),
        };
        ensure!(theirs.len() >= 2, "proof {k} reports only {} of its 2 capabilities", theirs.len());
        let listed_selected = sel.iter().any(|s| tops[*s] == tops[k]);
        for (m, os) in &theirs {
            for o in os {
                c.eval();
                let has = granted(&got, m, o);
                if sel.contains(&k) && !exact {
                    c.ev("unusual indexes judged");
                } else if sel.contains(&k) {
                    c.ev("passed on");
                    ensure!(has, "proof {k} of {n} is redelegated ({how}), but {} from {o} is not passed on; reported: {}", m.key(), show(&got));
                } else if !listed_selected {
                    c.ev("held back");
                    ensure!(!has, "proof {k} of {n} is not redelegated (selected: {sel:?}), but {} from {o} is passed on", m.key());
                    ensure!(!got.iter().any(|(g, _)| g.enables(m)), "proof {k} of {n} is not redelegated (selected: {sel:?}), but {} is reported", m.key());
                }
            }
        }
    }
    // nothing beyond the selection and the claims
    let mut memo = vec![None; d.nodes.len()];
    let upper = model(&d, d.root, false, &mut memo);
    let mut memo = vec![None; d.nodes.len()];
    let lower = model(&d, d.root, true, &mut memo);
    for (m, os) in &got {
        for o in os {
            ensure!(granted(&upper, m, o), "{} from {o} is reported, but neither claimed nor redelegated", m.key());
        }
    }
    for (m, os) in lower.iter().filter(|_| exact) {
        for o in os {
            ensure!(granted(&got, m, o), "{} from {o} is not reported", m.key());
        }
    }
    c.sample(|| format!("{n} proofs, {how}: {cap} reports {}", show(&got)));
    Ok(())
}

// ---------------------------------------------------------------- C12

pub const C12: Prop = Prop {
    id: "C12",
    quick: 120000,
    thorough: 1000000,
    level: "exploration",
    rule: "a case is one proof graph with random windows (nested, or broken in up to two places) and flowing capabilities; in every accepted chain and sub-chain every reported window is compared with the outermost token's and with that of every token below; distinct_nontrivial counts distinct (outermost token of the sub-chain, reported capability) pairs with a bounded window and at least one proof",
    assumptions: &[],
    run: c12,
};

fn all_below(ch: &ProofChain, out: &mut Vec<(Option<u64>, Option<u64>)>) {
    for p in ch.proofs() {
        out.push((*p.ucan().not_before(), *p.ucan().expires_at()));
        all_below(p, out);
    }
}

fn c12(c: &mut Case) -> Res {
    let mut o = sem_opt(&mut c.r);
    o.windows = c.r.pct(92);
    o.t = *c.r.pick(&[T0, 5000, 1 << 33]);
    let t = o.t;
    let mut d = gen(&mut c.r, o);
    assign_caps(&mut d, &mut c.r);
    if c.r.pct(30) {
        // window trouble only
        for _ in 0..c.r.range(1, 2) {
            let i = c.r.below(d.nodes.len());
            let w = dag::window_around(&mut c.r, t);
            d.nodes[i].body.nbf = w.0;
            d.nodes[i].body.exp = w.1;
        }
    }
    let mut fork = c.r.fork();
    d.render(&mut fork);
    let store = d.store();
    for (i, n) in d.nodes.iter().enumerate() {
        c.note(format!("token {i}{}: nbf={:?} exp={:?} prf={:?} cap={}", if i == d.root { " (outermost)" } else { "" }, n.body.nbf, n.body.exp, n.prf, n.body.cap));
    }
    let mut p = keys::parser();
    let how = c.r.below(3);
    let explicit = t > clock::LAST || c.r.pct(50);
    let r = if explicit {
        clock::at(7, || build(&d.nodes[d.root].token, how, Some(t), &mut p, &store))
    } else {
        clock::at(t, || build(&d.nodes[d.root].token, how, None, &mut p, &store))
    };
    let ch = match r {
        Ok(ch) => ch,
        Err(e) => {
            c.ev("refused");
            c.eval();
            ensure!(d.judge(d.root, t).is_err(), "a sound chain is refused: {e}");
            return Ok(());
        }
    };
    let mut subs = Vec::new();
    sub_chains(&ch, &d, d.root, &mut subs);
    for (sub, i) in subs {
        let w = d.nodes[i].window();
        let mut below = Vec::new();
        all_below(sub, &mut below);
        // reported at another wall clock: the report does not depend on it
        let infos = clock::at(*c.r.pick(&[0, t.min(clock::LAST), clock::LAST]), || sub.reduce_capabilities(&TSem));
        for info in &infos {
            c.eval();
            let got = (info.not_before, info.expires_at);
            let cap = Capability::from(&info.capability);
            if w != (None, None) && !below.is_empty() {
                c.seen((&d.nodes[i].token, &cap.resource, &cap.ability, cap.caveat.to_string()));
                c.ev("windows reported with proofs");
            }
            ensure!(got == w, "token {i}: {cap:?} is reported with window {got:?}, the token's is {w:?}");
            for b in &below {
                ensure!(dag::nested(*b, got), "token {i}: {cap:?} is reported with window {got:?}, a token below it has {b:?}");
            }
            if let Some(e) = info.expires_at {
                ensure!(below.iter().all(|b| b.1.map_or(true, |x| x >= e)), "token {i}: {cap:?} outlives its proofs");
            }
        }
    }
    c.sample(|| format!("{} at {t}", d.shape()));
    Ok(())
}
