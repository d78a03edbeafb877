//! Proof graphs: generated sound, then broken in at most a few chosen places,
//! with the harness's own judgement of whether the chain must be accepted.
use crate::forge::{self, Body};
use crate::json::{self, Style};
use crate::keys::{self, K};
use crate::rng::R;
use crate::store::TraceStore;
use cid::multihash::Code;
use cid::Cid;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Stored {
    Yes,
    Missing,
    Bytes(Vec<u8>),
}

#[derive(Clone)]
pub struct Node {
    pub body: Body,
    pub prf: Vec<usize>,
    pub links: Vec<Link>,
    pub stored: Stored,
    /// 0: fine, 1: bit flipped, 2: signed by someone else, 3: other token's signature
    pub bad_sig: u8,
    /// the token text itself is not decodable
    pub broken: Option<u8>,
    pub style: Style,
    pub token: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Link {
    pub code: Code,
    /// 0: canonical CID; 1: other multibase; 2: not a CID; 3: other codec
    pub form: u8,
}

pub struct Dag {
    pub nodes: Vec<Node>,
    pub root: usize,
}

pub struct Opt {
    pub depth: usize,
    pub fanout: usize,
    pub max_nodes: usize,
    pub t: u64,
    /// windows may be bounded
    pub windows: bool,
    pub share: u64,
    pub foreign: bool,
    pub min_depth: usize,
    /// how much one of the tokens carries beyond the ordinary, in bytes
    pub big: usize,
    pub key: fn(&mut R) -> K,
    pub caps: fn(&mut R, usize) -> Value,
}

pub fn no_caps(_: &mut R, _: usize) -> Value {
    json!({})
}

pub fn nested(child: (Option<u64>, Option<u64>), parent: (Option<u64>, Option<u64>)) -> bool {
    let begins = match (child.0, parent.0) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(c), Some(p)) => c <= p,
    };
    let ends = match (child.1, parent.1) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(c), Some(p)) => c >= p,
    };
    begins && ends
}

pub fn inside(w: (Option<u64>, Option<u64>), t: u64) -> bool {
    w.0.map_or(true, |n| n <= t) && w.1.map_or(true, |e| t <= e)
}

fn widen(r: &mut R, w: (Option<u64>, Option<u64>)) -> (Option<u64>, Option<u64>) {
    let d = |r: &mut R| *r.pick(&[0u64, 0, 1, 5, 1000]);
    let nbf = match w.0 {
        None => None,
        Some(_) if r.pct(25) => None,
        Some(n) => Some(n.saturating_sub(d(r))),
    };
    let exp = match w.1 {
        None => None,
        Some(_) if r.pct(25) => None,
        Some(e) => Some(e.saturating_add(d(r))),
    };
    (nbf, exp)
}

impl Node {
    pub fn window(&self) -> (Option<u64>, Option<u64>) {
        (self.body.nbf, self.body.exp)
    }
}

pub fn window_around(r: &mut R, t: u64) -> (Option<u64>, Option<u64>) {
    let d = |r: &mut R| *r.pick(&[0u64, 1, 2, 30, 1000]);
    (
        if r.pct(70) { Some(t.saturating_sub(d(r))) } else { None },
        if r.pct(80) { Some(t.saturating_add(d(r))) } else { None },
    )
}

impl Dag {
    pub fn generate(r: &mut R, o: &Opt) -> Dag {
        let mut d = Dag { nodes: Vec::new(), root: 0 };
        let key = (o.key)(r);
        let aud = (o.key)(r).did();
        let w = if o.windows { window_around(r, o.t) } else { (None, None) };
        d.root = d.grow(r, o, &key, &aud, w, o.depth, o.min_depth, &mut Vec::new());
        if o.big > 0 {
            let i = r.below(d.nodes.len());
            d.nodes[i].body.fct = Some(json!({"big": "0123456789abcdef".repeat(o.big / 16), "n": i}));
        }
        d
    }

    #[allow(clippy::too_many_arguments)]
    fn grow(
        &mut self,
        r: &mut R,
        o: &Opt,
        key: &K,
        aud: &str,
        w: (Option<u64>, Option<u64>),
        depth: usize,
        min_depth: usize,
        above: &mut Vec<usize>,
    ) -> usize {
        let did = key.did();
        let mut prf: Vec<usize> = Vec::new();
        let lo = usize::from(min_depth > 0);
        let n = if depth == 0 || (lo == 0 && self.nodes.len() >= o.max_nodes) {
            0
        } else if r.pct(3) && o.fanout > 1 && self.nodes.len() + 12 < o.max_nodes {
            r.range(10, 13)
        } else {
            r.range(lo, o.fanout)
        };
        for i in 0..n {
            if i > 0 && self.nodes.len() >= o.max_nodes {
                break;
            }
            let shared: Vec<usize> = (0..self.nodes.len())
                .filter(|j| self.nodes[*j].body.aud == did && nested(self.nodes[*j].window(), w))
                .collect();
            if !shared.is_empty() && min_depth == 0 && r.pct(o.share) {
                let j = *r.pick(&shared);
                prf.push(j);
                continue;
            }
            let k = if r.pct(10) { key.clone() } else { (o.key)(r) };
            let cw = if o.windows { widen(r, w) } else { (None, None) };
            let dd = if i == 0 { depth - 1 } else { r.below(depth) };
            let j = self.grow(r, o, &k, &did, cw, dd, if i == 0 { min_depth.saturating_sub(1) } else { 0 }, above);
            prf.push(j);
        }
        if n > 1 && r.pct(30) {
            r.shuffle(&mut prf);
        }
        let mut body = Body::new(key, aud);
        body.nbf = w.0;
        body.exp = w.1;
        body.cap = (o.caps)(r, prf.len());
        // Every token of a graph is unique, one way or another.
        let id = self.nodes.len();
        match r.below(3) {
            0 => body.nnc = Some(format!("n{id}")),
            1 => body.fct = Some(json!({"n": id, "f": json::object(r, 1, false)})),
            _ => {
                body.extra.insert("zz".into(), json!(id));
            }
        }
        let links = prf
            .iter()
            .map(|_| Link {
                code: if r.pct(70) { Code::Blake3_256 } else { *r.pick(&[Code::Sha2_256, Code::Blake2b256, Code::Sha2_512]) },
                form: if r.pct(5) { 1 } else { 0 },
            })
            .collect();
        self.nodes.push(Node {
            body,
            prf,
            links,
            stored: Stored::Yes,
            bad_sig: 0,
            broken: None,
            style: if o.foreign { json::style(r) } else { Style::Canonical },
            token: String::new(),
        });
        self.nodes.len() - 1
    }

    /// Write every token, children first.
    pub fn render(&mut self, r: &mut R) {
        for i in 0..self.nodes.len() {
            let mut n = self.nodes[i].clone();
            if !n.prf.is_empty() {
                let v: Vec<String> = n
                    .prf
                    .iter()
                    .zip(&n.links)
                    .map(|(j, l)| {
                        let tok = self.nodes[*j].token.as_bytes();
                        let c = forge::raw_cid(tok, l.code);
                        match l.form {
                            0 => c.to_string(),
                            1 => {
                                use cid::multibase::Base;
                                let b = *r.pick(&[Base::Base58Btc, Base::Base64, Base::Base32Upper, Base::Base16Lower]);
                                cid::multibase::encode(b, c.to_bytes())
                            }
                            2 => not_a_cid(&c, r),
                            f => alien(&c, f).to_string(),
                        }
                    })
                    .collect();
                n.body.prf = Some(v);
            } else if r.pct(10) {
                n.body.prf = Some(vec![]);
            }
            let mut tok = n.body.token(&n.style, r);
            match n.bad_sig {
                0 => {}
                1 => {
                    let (sd, s) = tok.rsplit_once('.').unwrap();
                    let mut s = forge::unb64(s);
                    let k = r.below(s.len());
                    s[k] ^= 1 << r.below(8);
                    tok = format!("{sd}.{}", forge::b64(s));
                }
                2 => {
                    let (sd, _) = tok.rsplit_once('.').unwrap();
                    let mut k = keys::any_cheap(r);
                    while k.did() == n.body.iss {
                        k = keys::any_cheap(r);
                    }
                    tok = format!("{sd}.{}", forge::b64(k.sign(sd.as_bytes())));
                }
                _ => {
                    let (sd, _) = tok.rsplit_once('.').unwrap();
                    tok = format!("{sd}.{}", forge::b64(n.body.key.sign(b"something else")));
                }
            }
            match n.broken {
                None => {}
                Some(0) => tok = tok.replacen('.', "", 1),
                Some(1) => tok.push_str(".extra"),
                Some(2) => tok = tok[..tok.len() / 3].to_string(),
                Some(3) => tok.push('\n'),
                Some(4) => tok.push(' '),
                Some(5) => tok.insert(0, ' '),
                Some(6) => tok.insert(0, '\u{feff}'),
                Some(7) => tok.push('\0'),
                Some(8) => tok.push('='),
                Some(9) => tok.push('.'),
                Some(10) => tok = format!("Bearer {tok}"),
                Some(_) => tok = format!("!{tok}"),
            }
            n.token = tok;
            self.nodes[i] = n;
        }
    }

    pub fn fill(&self, store: &TraceStore) {
        for n in &self.nodes {
            for (j, l) in n.prf.iter().zip(&n.links) {
                let c = &self.nodes[*j];
                match &c.stored {
                    Stored::Yes => {
                        let at = store.put_as(&c.token, l.code);
                        if l.form >= 3 {
                            // so that it is the reader who must refuse it, not the store
                            store.put_bytes(alien(&at, l.form), c.token.clone().into_bytes());
                        }
                    }
                    Stored::Missing => {}
                    Stored::Bytes(b) => store.put_bytes(forge::raw_cid(c.token.as_bytes(), l.code), b.clone()),
                }
            }
        }
        // the root too, so that it can be asked for by CID
        store.put(&self.nodes[self.root].token);
    }

    pub fn store(&self) -> TraceStore {
        let s = TraceStore::default();
        self.fill(&s);
        s
    }

    /// Must the chain rooted here be accepted at time t? On refusal, why.
    pub fn judge(&self, i: usize, t: u64) -> Result<(), String> {
        let mut memo = vec![None; self.nodes.len()];
        self.judge_memo(i, t, &mut memo)
    }

    fn judge_memo(&self, i: usize, t: u64, memo: &mut Vec<Option<Result<(), String>>>) -> Result<(), String> {
        if let Some(r) = &memo[i] {
            return r.clone();
        }
        let r = self.judge_one(i, t, memo);
        memo[i] = Some(r.clone());
        r
    }

    fn judge_one(&self, i: usize, t: u64, memo: &mut Vec<Option<Result<(), String>>>) -> Result<(), String> {
        let n = &self.nodes[i];
        if n.broken.is_some() {
            return Err(format!("token {i} is malformed"));
        }
        if n.bad_sig != 0 {
            return Err(format!("token {i} is not signed by its issuer"));
        }
        if !inside(n.window(), t) {
            return Err(format!("token {i} is outside its window"));
        }
        for (k, (j, l)) in n.prf.iter().zip(&n.links).enumerate() {
            if l.form >= 2 {
                return Err(format!("token {i} proof {k} is not a raw CID"));
            }
            let c = &self.nodes[*j];
            if c.stored != Stored::Yes {
                return Err(format!("proof {j} of token {i} can not be read"));
            }
            if c.body.aud != n.body.iss {
                return Err(format!("audience of {j} is not the issuer of {i}"));
            }
            if !nested(c.window(), n.window()) {
                return Err(format!("window of {j} does not contain that of {i}"));
            }
            self.judge_memo(*j, t, memo)?;
        }
        if let Value::Object(m) = &n.body.cap {
            for (res, abs) in m {
                let Some(sel) = res.strip_prefix("prf:") else { continue };
                let Some(Value::Array(c)) = abs.get("ucan/DELEGATE") else { continue };
                if let (false, Ok(k)) = (c.is_empty(), sel.parse::<usize>()) {
                    if k >= n.prf.len() {
                        return Err(format!("token {i} redelegates proof {k} it does not have"));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn depth_of(&self, i: usize) -> usize {
        1 + self.nodes[i].prf.iter().map(|j| self.depth_of(*j)).max().unwrap_or(0)
    }

    /// Number of nodes of the unfolded tree (what construction walks).
    pub fn unfolded(&self, i: usize) -> u64 {
        1 + self.nodes[i].prf.iter().map(|j| self.unfolded(*j)).sum::<u64>()
    }

    pub fn reachable(&self) -> Vec<usize> {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = vec![self.root];
        while let Some(i) = todo.pop() {
            if !std::mem::replace(&mut seen[i], true) {
                todo.extend(&self.nodes[i].prf);
            }
        }
        (0..self.nodes.len()).filter(|i| seen[*i]).collect()
    }

    pub fn shape(&self) -> String {
        self.nodes
            .iter()
            .enumerate()
            .map(|(i, n)| {
                format!(
                    "{i}{}:{:?}{}",
                    if i == self.root { "*" } else { "" },
                    n.prf,
                    match (n.body.nbf, n.body.exp) {
                        (None, None) => String::new(),
                        w => format!("{w:?}"),
                    }
                )
            })
            .collect::<Vec<_>>()
            .join(" ")
    }

    pub fn describe(&self) -> Vec<String> {
        self.nodes
            .iter()
            .enumerate()
            .map(|(i, n)| {
                format!(
                    "token {i}{}: iss={} aud={} nbf={:?} exp={:?} prf={:?} cap={} bad_sig={} broken={:?} stored={}",
                    if i == self.root { " (outermost)" } else { "" },
                    n.body.iss, n.body.aud, n.body.nbf, n.body.exp, n.prf, n.body.cap, n.bad_sig, n.broken,
                    match &n.stored { Stored::Yes => "yes".into(), Stored::Missing => "missing".into(), Stored::Bytes(b) => format!("{} other bytes", b.len()) }
                )
            })
            .collect()
    }

    /// Break the graph in one place; returns what was done (the judge decides
    /// independently whether the chain must now be refused).
    pub fn sabotage(&mut self, r: &mut R, t: u64) -> String {
        let reach = self.reachable();
        let i = *r.pick(&reach);
        let non_root: Vec<usize> = reach.iter().copied().filter(|j| *j != self.root).collect();
        match r.below(16) {
            0 => {
                self.nodes[i].bad_sig = 1 + r.below(3) as u8;
                format!("bad signature {}", self.nodes[i].bad_sig)
            }
            1 => {
                self.nodes[i].broken = Some(r.below(12) as u8);
                "malformed".into()
            }
            2 if !non_root.is_empty() => {
                let j = *r.pick(&non_root);
                self.nodes[j].stored = Stored::Missing;
                "missing".into()
            }
            3 if !non_root.is_empty() => {
                let j = *r.pick(&non_root);
                let b = match r.below(3) {
                    0 => vec![0xff, 0xfe],
                    1 => b"garbage".to_vec(),
                    _ => vec![],
                };
                self.nodes[j].stored = Stored::Bytes(b);
                "garbage in store".into()
            }
            4 | 5 if !non_root.is_empty() => {
                let j = *r.pick(&non_root);
                let a = self.nodes[j].body.aud.clone();
                self.nodes[j].body.aud = match r.below(9) {
                    6 if r.pct(25) => format!("{a}{}", r.pick(&["/", "#", "=", " ", ".", "?", "\0", "1", "0"]).repeat(r.range(2, 9))),
                    6 => format!("{a}{}", r.pick(&["#key-1", "#", "?x=1", "?", "/", "/path", ";v=1", "\n", "\t", "=", ".", "\0", "%20", ":", "a"])),
                    7 => format!("{}{a}", r.pick(&[" ", "\n", "\u{feff}", "ucan:", "as:", "did:", "/"])),
                    8 => r.pick(&[a.replacen("did:", "DID:", 1), a.replacen("did:key:", "did:web:", 1), a.replacen("did:key:", "", 1), a.replace(':', "%3A"), format!("{a}#{}", &a[a.len().min(8)..]), "*".into(), "did:key:*".into()]).clone(),
                    0 => keys::any_cheap(r).did(),
                    1 => self.nodes[j].body.iss.clone(),
                    2 => format!("{a} "),
                    3 => a.chars().take(a.chars().count().saturating_sub(1)).collect(),
                    4 => flip_case(&a, r),
                    _ => String::new(),
                };
                "audience".into()
            }
            6..=8 if !non_root.is_empty() => {
                // make a proof's window too small by as little as possible, or too large
                let j = *r.pick(&non_root);
                let parents: Vec<usize> = reach.iter().copied().filter(|p| self.nodes[*p].prf.contains(&j)).collect();
                let p = *r.pick(&parents);
                let w = self.nodes[p].window();
                match r.below(4) {
                    0 => self.nodes[j].body.exp = Some(w.1.map_or(t.saturating_add(1000), |e| e.saturating_sub(1))),
                    1 => self.nodes[j].body.nbf = Some(w.0.map_or(t.saturating_sub(1000), |n| n.saturating_add(1))),
                    2 => {
                        self.nodes[j].body.exp = w.1;
                        self.nodes[j].body.nbf = w.0;
                    }
                    _ => {
                        self.nodes[p].body.exp = None;
                    }
                }
                "window nesting".into()
            }
            9 | 10 => {
                match r.below(4) {
                    0 => self.nodes[i].body.exp = Some(t.wrapping_sub(1)),
                    1 => self.nodes[i].body.nbf = Some(t.saturating_add(1)),
                    2 => self.nodes[i].body.exp = Some(t),
                    _ => self.nodes[i].body.nbf = Some(t),
                }
                "window".into()
            }
            11 | 12 => {
                let with: Vec<usize> = reach.iter().copied().filter(|j| !self.nodes[*j].prf.is_empty()).collect();
                if let Some(&j) = with.get(r.below(with.len().max(1))) {
                    let k = r.below(self.nodes[j].links.len());
                    self.nodes[j].links[k].form = 1 + r.below(6) as u8;
                    format!("link form {}", self.nodes[j].links[k].form)
                } else {
                    "none".into()
                }
            }
            13 => {
                let n = self.nodes[i].prf.len();
                let k = n + *r.pick(&[0usize, 0, 1, 10]);
                let k = if r.pct(30) && n > 0 { r.below(n) } else { k };
                if let Value::Object(m) = &mut self.nodes[i].body.cap {
                    let cav = match r.below(4) {
                        0 => json!([]),
                        1 => json!([{"x": 1}]),
                        2 => json!([{}, {}]),
                        _ => json!([{}]),
                    };
                    m.insert(format!("prf:{k}"), json!({"ucan/DELEGATE": cav}));
                }
                "redelegation index".into()
            }
            14 if i > 0 => {
                // cite a token that is sound but meant for someone else (or is fine)
                let j = r.below(i);
                let at = r.below(self.nodes[i].prf.len() + 1);
                self.nodes[i].prf.insert(at, j);
                self.nodes[i].links.insert(at, Link { code: Code::Blake3_256, form: 0 });
                "cites a token of another branch".into()
            }
            _ => "none".into(),
        }
    }
}

/// A text that is not a CID, or not quite.
pub fn not_a_cid(c: &Cid, r: &mut R) -> String {
    let s = c.to_string();
    let t = match r.below(5) {
        0 => r.pick(&["", "not-a-cid", "bafkr4i", "zzzz"]).to_string(),
        1 => format!("{}{s}", r.pick(&["ipfs://", "ipfs:", "/", "/ipns/", "cid:", "cid=", " ", "\n", "prf:", "b", "ucan:", "\u{feff}", "/p2p/"])),
        2 => format!("{s}{}", r.pick(&["#", "?", "/", " ", "\n", "\t", "=", "==", "\0", ".", "#0", "?format=raw", "/0"])),
        3 => s[1..].to_string(),
        _ => s[..s.len() - 1 - r.below(3)].to_string(),
    };
    match Cid::try_from(t.as_str()) {
        Ok(_) => "not-a-cid".into(),
        Err(_) => t,
    }
}

/// The same digest under a codec that is not raw.
pub fn alien(c: &Cid, form: u8) -> Cid {
    Cid::new_v1([0x71u64, 0x70, 0x0129, 0x51][form as usize % 4], *c.hash())
}

/// Change the case of one letter of a DID, staying within base58.
pub fn flip_case(did: &str, r: &mut R) -> String {
    let b = did.as_bytes();
    let ok: Vec<usize> = (9.min(b.len())..b.len())
        .filter(|i| {
            let c = b[*i];
            c.is_ascii_alphabetic() && {
                let f = c ^ 0x20;
                !matches!(f, b'I' | b'O' | b'l')
            }
        })
        .collect();
    let mut o = b.to_vec();
    if let Some(&i) = ok.get(r.below(ok.len().max(1))) {
        o[i] ^= 0x20;
    }
    String::from_utf8(o).unwrap()
}
