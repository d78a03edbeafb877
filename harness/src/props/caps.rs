//! C13–C16: capabilities on their own.
use super::chains::{broaden, caps_json, gen_caveat, gen_form, gen_mcap, narrow};
use crate::case::{Case, Res};
use crate::exec::block_on;
use crate::forge::{self, Body};
use crate::json;
use crate::keys;
use crate::rng::R;
use crate::sem::{caveat_enables, Form, MCap, TAbility, TScope, TSem};
use crate::{bail, ensure, Prop};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use ucan::capability::proof::{ProofAction, ProofDelegationSemantics, ProofSelection};
use ucan::capability::{
    Ability, Capabilities, Capability, CapabilitySemantics, CapabilityView, Caveat, Resource, ResourceUri, Scope,
};
use ucan::ucan::Ucan;
use url::Url;

pub type View = CapabilityView<TScope, TAbility>;

fn kind(s: &Option<TScope>) -> ResourceUri<TScope> {
    match s {
        None => ResourceUri::Unscoped,
        Some(s) => ResourceUri::Scoped(s.clone()),
    }
}

fn resource(m: &MCap) -> Resource<TScope> {
    let kind = kind(&m.scope);
    match &m.form {
        Form::Plain => Resource::Resource { kind },
        Form::My => Resource::My { kind },
        Form::As(did) => Resource::As { did: did.clone(), kind },
    }
}

pub fn view(m: &MCap) -> View {
    CapabilityView::new_with_caveat(resource(m), TAbility(m.ability), m.caveat.clone())
}

// ---------------------------------------------------------------- C13

pub const C13: Prop = Prop {
    id: "C13",
    quick: 300000,
    thorough: 2000000,
    level: "exploration",
    rule: "the first cases compare every ordered pair of a small capability domain (6 ownership forms, 17 scopes and the wildcard, 3 abilities, 6 caveats) with the definition, one row of the relation each; the others take random capabilities, with widened and narrowed neighbours, parsed and constructed, and also check reflexivity, transitivity and monotonicity on what was observed; distinct_nontrivial counts distinct ordered pairs of different capabilities",
    assumptions: &["the semantics' own scope containment and ability order are preorders (the harness's are)"],
    run: c13,
};

fn domain() -> &'static Vec<MCap> {
    static D: OnceLock<Vec<MCap>> = OnceLock::new();
    D.get_or_init(|| {
        let did = keys::mocks()[0].did();
        let forms = [Form::Plain, Form::My, Form::As(did.clone()), Form::As(keys::mocks()[1].did()), Form::As(format!("{did}x")), Form::As(did.to_lowercase())];
        let mut scopes: Vec<Option<TScope>> = vec![None];
        scopes.extend((0..8).map(|m| Some(TScope::Set(m))));
        for p in ["", "a", "b", "a/b", "a/b/c", "ab", "A", "a*", "a/*"] {
            scopes.push(Some(TScope::Tree(p.split('/').filter(|s| !s.is_empty()).map(String::from).collect())));
        }
        let cavs = [json!({}), json!({"x": 1}), json!({"x": 2}), json!({"y": 1}), json!({"x": 1, "y": 1}), json!({"x": {"y": 1}})];
        let mut d = Vec::new();
        for f in &forms {
            for s in &scopes {
                for ability in [0, 2, 3] {
                    for caveat in &cavs {
                        d.push(MCap { form: f.clone(), scope: s.clone(), ability, caveat: caveat.clone() });
                    }
                }
            }
        }
        d
    })
}

fn parsed(m: &MCap) -> Result<View, crate::case::V> {
    match TSem.parse(&m.resource(), &crate::sem::ability_text(m.ability), Some(&m.caveat)) {
        Some(v) => Ok(v),
        None => bail!("{} is not understood", m.key()),
    }
}

fn check_pair(c: &mut Case, a: &MCap, b: &MCap, va: &View, vb: &View) -> Res {
    c.eval();
    let (want, got) = (a.enables(b), va.enables(vb));
    c.ev(if got { "pairs enabled" } else { "pairs not enabled" });
    ensure!(want == got, "{} enables {}: reported {got}, defined {want}", a.key(), b.key());
    let res = a.form == b.form
        && match (&a.scope, &b.scope) {
            (None, _) => true,
            (_, None) => false,
            (Some(x), Some(y)) => x.covers(y),
        };
    ensure!(
        va.resource().contains(vb.resource()) == res,
        "resource {} contains {}: defined {res}",
        a.resource(),
        b.resource()
    );
    Ok(())
}

fn c13(c: &mut Case) -> Res {
    let d = domain();
    if (c.idx as usize) < d.len() {
        static V: OnceLock<Vec<[View; 1]>> = OnceLock::new();
        let vs = V.get_or_init(|| d.iter().map(|m| [view(m)]).collect());
        let i = c.idx as usize;
        for j in 0..d.len() {
            check_pair(c, &d[i], &d[j], &vs[i][0], &vs[j][0])?;
            c.seen((i, j));
        }
        ensure!(parsed(&d[i])? == vs[i][0], "{} does not parse to what its parts say", d[i].key());
        c.ev("rows of the small domain");
        return Ok(());
    }
    let a = gen_mcap(&mut c.r);
    let mut near = vec![a.clone()];
    for _ in 0..3 {
        let x = c.r.pick(&near).clone();
        near.push(if c.r.pct(50) { narrow(&mut c.r, &x) } else { broaden(&mut c.r, &x) });
    }
    near.push(gen_mcap(&mut c.r));
    if c.r.pct(20) {
        near[1].caveat = json::object(&mut c.r, 2, true);
        let mut x = near[1].clone();
        if let Value::Object(m) = &mut x.caveat {
            m.insert("added".into(), json!(null));
        }
        near.push(x);
    }
    // forms whose DID no text would give, made from their parts
    let unreadable = c.r.pct(10);
    if unreadable {
        let d = keys::mocks()[0].did();
        for m in &mut near {
            let odd = [String::new(), "did:key:".into(), "did:key".into(), format!("{d}:"), d.clone(), format!("{d}:*"), format!("{d}#"), format!("{d} "), "*".into(), "did:key:*".into()];
            m.form = Form::As(c.r.pick(&odd).clone());
        }
        c.ev("forms made from parts alone");
    }
    let mut vs = Vec::new();
    for m in &near {
        if unreadable {
            vs.push(view(m));
            continue;
        }
        let p = parsed(m)?;
        let v = view(m);
        ensure!(p == v, "{} does not parse to what its parts say", m.key());
        vs.push(if c.r.pct(50) { p } else { v });
    }
    let n = near.len();
    let mut rel = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..n {
            check_pair(c, &near[i], &near[j], &vs[i], &vs[j])?;
            rel[i][j] = vs[i].enables(&vs[j]);
            if near[i] != near[j] {
                c.seen((near[i].key(), near[j].key()));
            }
        }
    }
    for i in 0..n {
        ensure!(rel[i][i], "{} does not enable itself", near[i].key());
        for j in 0..n {
            for k in 0..n {
                if rel[i][j] && rel[j][k] {
                    c.ev("transitive triples");
                    ensure!(rel[i][k], "{} enables {} which enables {}, but not the first the last", near[i].key(), near[j].key(), near[k].key());
                }
            }
        }
    }
    if c.r.pct(10) {
        long_abilities(c)?;
    }
    // The proof resources are capabilities too.
    let sel = |r: &mut R| if r.pct(30) { ProofSelection::All } else { ProofSelection::Index(*r.pick(&[0usize, 1, 2, 10, usize::MAX])) };
    let (x, y) = (sel(&mut c.r), sel(&mut c.r));
    let want = x == ProofSelection::All || x == y;
    c.eval();
    ensure!(x.contains(&y) == want, "{} contains {}: defined {want}", x.to_string(), y.to_string());
    let pv = |s: &ProofSelection| CapabilityView::new(Resource::Resource { kind: ResourceUri::Scoped(s.clone()) }, ProofAction::Delegate);
    ensure!(pv(&x).enables(&pv(&y)) == want, "{} enables {}: defined {want}", x.to_string(), y.to_string());
    c.sample(|| near.iter().map(|m| m.key()).collect::<Vec<_>>().join(" ; "));
    Ok(())
}

/// An ability of any text: one enables another that continues it, segment by segment.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LAbility(Vec<String>);
impl PartialOrd for LAbility {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match (o.0.starts_with(&self.0), self.0.starts_with(&o.0)) {
            (true, true) => Some(Equal),
            (true, false) => Some(Greater),
            (false, true) => Some(Less),
            _ => None,
        }
    }
}
impl Ord for LAbility {
    /// a preference among what the semantics leaves unrelated; enabling must not use it
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.partial_cmp(o).unwrap_or_else(|| o.0.cmp(&self.0))
    }
}
impl ToString for LAbility {
    fn to_string(&self) -> String {
        self.0.join("/")
    }
}
impl TryFrom<String> for LAbility {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, anyhow::Error> {
        Ok(LAbility(s.split('/').map(String::from).collect()))
    }
}
impl Ability for LAbility {}
struct LSem;
impl CapabilitySemantics<UScope, LAbility> for LSem {}

fn long_abilities(c: &mut Case) -> Res {
    let base = "organisation/department/team/documents/drafts/archive/2024/quarter/week/day/hour";
    let all: Vec<&str> = base.split('/').collect();
    let gen = |r: &mut R| {
        let mut v: Vec<String> = all[..r.range(0, all.len())].iter().map(|s| s.to_string()).collect();
        for _ in 0..r.below(3) {
            v.push(r.pick(&["read", "write", "Read", "read2", "", "*"]).to_string());
        }
        if v.is_empty() {
            v.push("all".into());
        }
        v
    };
    let gen_url = |r: &mut R| {
        let n = r.range(0, all.len());
        format!("files://example.com/{}{}", all[..n].iter().map(|s| format!("{s}/")).collect::<String>(), r.pick(&["", "", "a", "b", "ab"]))
    };
    let (x, y) = (gen(&mut c.r), gen(&mut c.r));
    let u = gen_url(&mut c.r);
    let w = if c.r.pct(50) { u.clone() } else { gen_url(&mut c.r) };
    let read = |u: &str, a: &[String]| LSem.parse(u, &a.join("/"), None);
    let (Some(p), Some(q)) = (read(&u, &x), read(&w, &y)) else { bail!("{u} {x:?} or {w} {y:?} is not understood") };
    for (v, z, m, n, a, b) in [(&p, &q, &u, &w, &x, &y), (&q, &p, &w, &u, &y, &x)] {
        c.eval();
        let want = n.starts_with(m.as_str()) && b.starts_with(a);
        ensure!(v.enables(z) == want, "{m} {} enables {n} {}: reported {}, defined {want}", a.join("/"), b.join("/"), !want);
        c.ev("pairs of long resources and abilities");
    }
    if (&u, &x) != (&w, &y) {
        c.seen((&u, &x, &w, &y));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub const C14: Prop = Prop {
    id: "C14",
    quick: 1500000,
    thorough: 8000000,
    level: "exploration",
    rule: "the first case compares every ordered pair of all caveats over three fields and six values with the definition; the others take random nested objects and their one-step alterations, and values that are not objects; distinct_nontrivial counts distinct ordered pairs of different caveats",
    assumptions: &["two JSON values are equal when serde_json says so"],
    run: c14,
};

fn small_caveats() -> Vec<Value> {
    let vals = [None, Some(json!(1)), Some(json!(null)), Some(json!({})), Some(json!({"a": 1})), Some(json!([1])), Some(json!("1"))];
    let mut out = Vec::new();
    for x in &vals {
        for y in &vals {
            for z in &vals {
                let mut m = Map::new();
                for (k, v) in [("a", x), ("b", y), ("", z)] {
                    if let Some(v) = v {
                        m.insert(k.into(), v.clone());
                    }
                }
                out.push(Value::Object(m));
            }
        }
    }
    out
}

fn cav_view(v: &Value) -> View {
    CapabilityView::new_with_caveat(Resource::Resource { kind: ResourceUri::Unscoped }, TAbility(1), v.clone())
}

/// Change one thing about an object, at any depth.
fn alter(r: &mut R, v: &Value) -> Value {
    let mut v = v.clone();
    match &mut v {
        Value::Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            match r.below(if ks.is_empty() { 1 } else { 6 }) {
                0 => {
                    let k = json::text(r);
                    m.insert(k, json::value(r, 1, true));
                }
                1 => {
                    m.remove(r.pick(&ks));
                }
                2 => {
                    let k = r.pick(&ks).clone();
                    let x = m.remove(&k).unwrap();
                    m.insert(format!("{k} "), x);
                }
                _ => {
                    let k = r.pick(&ks).clone();
                    let x = alter(r, &m[&k]);
                    m.insert(k, x);
                }
            }
        }
        Value::Array(a) if !a.is_empty() => {
            let i = r.below(a.len());
            match r.below(3) {
                0 => a[i] = alter(r, &a[i].clone()),
                1 => {
                    a.remove(i);
                }
                _ => a.push(json!(1)),
            }
        }
        Value::String(s) => match r.below(4) {
            0 => *s = s.to_uppercase(),
            1 => *s = format!(" {s}"),
            2 => v = json!([s.clone()]),
            _ => s.push('x'),
        },
        Value::Bool(b) => *b = !*b,
        Value::Number(n) if r.pct(60) => {
            // the same number in another type, or its neighbour
            let n = n.clone();
            v = match r.below(3) {
                0 => json!(n.as_f64().unwrap_or(0.0)),
                1 => json!(n.to_string()),
                _ => json!(n.as_i64().map_or(1, |x| x.wrapping_neg())),
            }
        }
        x => *x = json::value(r, 1, true),
    }
    v
}

/// The same, but for the innermost or last of its values (or nothing at all).
fn alter_last(r: &mut R, v: &Value) -> Value {
    match v {
        Value::Object(m) if m.len() == 1 => {
            let (k, x) = m.iter().next().unwrap();
            json!({ k: alter_last(r, x) })
        }
        Value::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let last = a.pop().unwrap();
            match r.below(8) {
                0 => {}
                1 => a.extend([last.clone(), last]),
                _ => a.push(alter_last(r, &last)),
            }
            Value::Array(a)
        }
        x if r.pct(10) => x.clone(),
        x => alter(r, x),
    }
}

fn c14(c: &mut Case) -> Res {
    if c.idx == 0 {
        let all = small_caveats();
        let cs: Vec<Caveat> = all.iter().map(|v| Caveat::try_from(v).unwrap()).collect();
        for i in 0..all.len() {
            for j in 0..all.len() {
                c.eval();
                c.seen((i, j));
                let (want, got) = (caveat_enables(&all[i], &all[j]), cs[i].enables(&cs[j]));
                ensure!(want == got, "caveat {} enables {}: reported {got}, defined {want}", all[i], all[j]);
            }
        }
        c.evn("pairs of the small domain", (all.len() * all.len()) as u64);
        return Ok(());
    }
    if c.r.pct(15) {
        // not an object
        let v = match c.r.below(3) {
            0 => json::value(&mut c.r, 0, true),
            1 => {
                let n = c.r.below(3);
                Value::Array((0..n).map(|_| json::object(&mut c.r, 1, true)).collect())
            }
            _ => Value::Null,
        };
        c.note(format!("caveat {v}"));
        c.eval();
        c.ev("values that are not caveats");
        ensure!(Caveat::try_from(&v).is_err() && Caveat::try_from(v.clone()).is_err(), "{v} is taken for a caveat");
        let other = if c.r.pct(30) { v.clone() } else { json::object(&mut c.r, 1, true) };
        let (x, y) = (cav_view(&v), cav_view(&other));
        ensure!(!x.enables(&y), "a capability with caveat {v} enables one with {other}");
        ensure!(!y.enables(&x), "a capability with caveat {other} enables one with {v}");
        ensure!(!x.enables(&x), "a capability with caveat {v} enables itself");
        c.seen(format!("{v} {other}"));
        return Ok(());
    }
    let mut a = if c.r.pct(30) { gen_caveat(&mut c.r) } else { json::object(&mut c.r, 3, true) };
    let many = c.r.pct(6);
    if many {
        for k in 0..*c.r.pick(&[9usize, 17, 33, 65, 257]) {
            a[format!("f{k}")] = json!(k);
        }
        c.ev("caveats with many fields");
    }
    // a field whose only difference from the other's lies deep inside it or far along it
    let far = !many && c.r.pct(5);
    if far {
        let mut v = json::value(&mut c.r, 0, true);
        let deep = c.r.pct(50);
        for _ in 0..c.r.range(1, 24) {
            v = match (deep, c.r.pct(50)) {
                (true, true) => json!({ "d": v }),
                (true, false) => json!([v]),
                _ => v,
            };
        }
        if !deep {
            let n = c.r.range(8, 200);
            let mut list: Vec<Value> = (0..n).map(|i| json!(i % 7)).collect();
            list.push(v);
            v = Value::Array(list);
        }
        a["far"] = v;
        c.ev("caveats with deep or long fields");
    }
    let mut b = a.clone();
    if far {
        b["far"] = alter_last(&mut c.r, &a["far"]);
    }
    for _ in 0..if far { 0 } else if many { c.r.range(1, 2) } else { c.r.below(3) } {
        b = alter(&mut c.r, &b);
    }
    if c.r.pct(10) {
        b = json!({});
    }
    for (x, y) in [(&a, &b), (&b, &a), (&a, &a), (&b, &b)] {
        c.eval();
        let want = caveat_enables(x, y);
        let got = Caveat::try_from(x).unwrap().enables(&Caveat::try_from(y.clone()).unwrap());
        c.ev(if want { "pairs enabled" } else { "pairs not enabled" });
        ensure!(want == got, "caveat {x} enables {y}: reported {got}, defined {want}");
        ensure!(cav_view(x).enables(&cav_view(y)) == want, "a capability with caveat {x} enables one with {y}: defined {want}");
        if x != y {
            c.seen(format!("{x} {y}"));
        }
    }
    c.sample(|| format!("{a} ; {b}"));
    Ok(())
}

// ---------------------------------------------------------------- C15

pub const C15: Prop = Prop {
    id: "C15",
    quick: 1500000,
    thorough: 8000000,
    level: "exploration",
    rule: "a case is one capability of one of three semantics (letter sets and trees; proof selections; hierarchical URLs) in one resource form, as text and constructed, or a text altered to fall outside the semantics; parsing is compared with the harness's own reader and rendering is parsed again; distinct_nontrivial counts distinct resource/ability texts",
    assumptions: &["texts the URL standard itself rewrites (spaces, control characters, upper case schemes) are not generated"],
    run: c15,
};

/// `files://host/path` and `mailto:` URLs, compared as hierarchies.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UScope(Url);
impl Scope for UScope {
    fn contains(&self, o: &Self) -> bool {
        self.0.scheme() == o.0.scheme() && self.0.host() == o.0.host() && o.0.path().starts_with(self.0.path())
    }
}
impl ToString for UScope {
    fn to_string(&self) -> String {
        self.0.to_string()
    }
}
impl TryFrom<Url> for UScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, anyhow::Error> {
        match u.scheme() {
            "files" | "mailto" | "https" => Ok(UScope(u)),
            _ => Err(anyhow::anyhow!("foreign scheme")),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum UAbility {
    Get,
    Put,
}
impl Ability for UAbility {}
impl ToString for UAbility {
    fn to_string(&self) -> String {
        match self {
            UAbility::Get => "file/GET".into(),
            UAbility::Put => "file/PUT".into(),
        }
    }
}
impl TryFrom<String> for UAbility {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, anyhow::Error> {
        match s.as_str() {
            "file/GET" => Ok(UAbility::Get),
            "file/PUT" => Ok(UAbility::Put),
            _ => Err(anyhow::anyhow!("foreign ability")),
        }
    }
}
pub struct USem;
impl CapabilitySemantics<UScope, UAbility> for USem {}

fn render_again<S: Scope + 'static, A: Ability + 'static>(sem: &impl CapabilitySemantics<S, A>, v: &CapabilityView<S, A>) -> Res {
    let by_ref = Capability::from(v);
    let by_val = Capability::from(v.clone());
    ensure!(by_ref == by_val, "rendering by reference and by value differ: {by_ref:?} {by_val:?}");
    ensure!(by_ref.caveat == *v.caveat(), "rendering changes the caveat");
    let Some(again) = sem.parse_capability(&by_ref) else { bail!("the rendered form {} {} is not understood", by_ref.resource, by_ref.ability) };
    ensure!(again == *v, "{} {} parses back to {again:?}, not {v:?}", by_ref.resource, by_ref.ability);
    Ok(())
}

fn scoped<S: Scope>(r: &Resource<S>) -> (Form, Option<&S>) {
    let (f, k) = match r {
        Resource::Resource { kind } => (Form::Plain, kind),
        Resource::My { kind } => (Form::My, kind),
        Resource::As { did, kind } => (Form::As(did.clone()), kind),
    };
    (
        f,
        match k {
            ResourceUri::Unscoped => None,
            ResourceUri::Scoped(s) => Some(s),
        },
    )
}

fn prefix(f: &Form) -> String {
    match f {
        Form::Plain => String::new(),
        Form::My => "my:".into(),
        Form::As(d) => format!("as:{d}:"),
    }
}

fn some_form(r: &mut R) -> Form {
    match r.below(4) {
        0 => gen_form(r),
        1 => Form::Plain,
        2 => Form::My,
        _ if r.pct(25) => {
            let tail = r.pick(&["=", "==", "@", "~", "!", "$", "&", "'", "(", "+", ",", ";x", "/", "/..", "/.", ".", "-_", "%41", "%", "|", "[", "^", "`", "{", "\\", "*", "=*", "//"]);
            Form::As(format!("{}{tail}", keys::any_cheap(r).did()))
        }
        _ => Form::As(keys::any(r).did()),
    }
}

const URLS: &[&str] = &[
    "files://alice.example.com/public/photos",
    "files://alice.example.com/",
    "files://h:8080/a?b=c#d",
    "files://h/a:b:c",
    "files://h/*",
    "files://h/did:key:zAbc",
    "mailto:bob@example.com",
    "mailto:bob@example.com?subject=x:y",
    "https://example.com/a/b/",
    "https://user:pw@example.com/?q=*",
    "files:opaque:path",
    "files:**",
    "files:*:*",
    "files:a:*",
    "files:*a",
    "files:*/",
    "files:***",
    "files:%2A",
    "files:/*",
    "files:my:*",
    "mailto:*@*",
    "files:my:a",
    "files://h/a#",
    "files://h/a?",
    "files://h/a?#",
    "files://h/a/#/",
    "files://h",
    "files:",
    "files:*%00",
    "files:/rooted",
];

fn c15(c: &mut Case) -> Res {
    let cav = if c.r.pct(50) { json!({}) } else { gen_caveat(&mut c.r) };
    let given = c.r.pct(70);
    let cav_eff = if given { cav.clone() } else { json!({}) };
    let caveat = given.then_some(&cav);
    match c.r.below(10) {
        0..=3 => {
            // the letters-and-trees semantics
            let mut m = gen_mcap(&mut c.r);
            m.form = some_form(&mut c.r);
            m.ability = c.r.below(10) as u8;
            m.caveat = cav_eff.clone();
            let v = view(&m);
            c.eval();
            c.note(m.key());
            render_again(&TSem, &v)?;
            let text = match (&m.scope, c.r.pct(40)) {
                (None, true) => format!("{}{}:*", prefix(&m.form), c.r.pick(&["set", "tree", "mailto", "a"])),
                _ => m.resource(),
            };
            let Some(p) = TSem.parse(&text, &crate::sem::ability_text(m.ability), caveat) else { bail!("{text} {} is not understood", crate::sem::ability_text(m.ability)) };
            let (f, s) = scoped(p.resource());
            ensure!(f == m.form, "{text} parses to form {f:?}");
            ensure!(s == m.scope.as_ref(), "{text} parses to scope {s:?}");
            ensure!(p.ability().0 == m.ability, "{text} parses to ability {:?}", p.ability());
            ensure!(*p.caveat() == cav_eff, "{text} parses to caveat {}", p.caveat());
            ensure!(Capability::from(&v).resource == m.resource(), "{} renders as {}", m.key(), Capability::from(&v).resource);
            c.ev("capabilities read and rendered");
            c.state("forms and scopes", (&m.form, &m.scope));
            c.seen(format!("{text} {}", m.ability));
            c.sample(|| text.clone());
        }
        4 if c.r.pct(20) => {
            // texts that come close to acting on behalf of somebody
            let m = gen_mcap(&mut c.r);
            let s = m.scope.as_ref().map_or("*".to_string(), |s| s.text());
            for text in [
                format!("as:did:web:example.com:{s}"),
                format!("as:did:pkh:eip155:1:0xabc:{s}"),
                format!("as:did:Key:zQ:{s}"),
                format!("as:DID:key:zQ:{s}"),
                format!("as:did:keys:zQ:{s}"),
                format!("as:did::zQ:{s}"),
                format!("as:key:zQ:{s}"),
                format!("as:zQ:{s}"),
                format!("as:did:key:{s}"),
                format!("as: did:key:zQ:{s}"),
                format!("as::did:key:zQ:{s}"),
                format!("as:{s}"),
                format!("as:did:key:zQ;{s}"),
                format!("as:did:key:zQ/{s}"),
                format!("did:key:zQ:{s}"),
                format!("my:did:key:zQ:{s}"),
                format!("on:did:key:zQ:{s}"),
                format!("mine:{s}"),
                format!("my;{s}"),
                "as:did:key:zQ".to_string(),
                "as:did:key:zQ:".to_string(),
                "as:did:key".to_string(),
                "as:".to_string(),
                "as".to_string(),
                "my".to_string(),
                String::new(),
            ] {
                if MCap::read(&text, "t/1", &cav_eff).is_some() || text.split(':').last() == Some("*") && !text.starts_with("as:") {
                    continue;
                }
                // A name that is itself taken for the DID, with nothing recognisable behind it
                c.eval();
                c.note(&text);
                if let Some(v) = TSem.parse(&text, "t/1", caveat) {
                    bail!("{text} does not belong to the semantics, and parses to {v:?}");
                }
                c.ev("foreign texts refused");
                c.seen(&text);
            }
        }
        4 | 5 => {
            // texts altered at random, judged by the harness's own reader
            let mut m = gen_mcap(&mut c.r);
            m.form = some_form(&mut c.r);
            let (mut text, mut ab) = (m.resource(), crate::sem::ability_text(m.ability));
            let fragments = ["set", "tree", ":", "a", "A", "/", "b", "1", "did:key:zQ", "as:did:key:zQ:", "as:did:web:e:", "//", "z"];
            for _ in 0..c.r.range(1, 2) {
                let at = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect::<Vec<_>>();
                let at = *c.r.pick(&at);
                match c.r.below(4) {
                    0 => text.insert_str(at, *c.r.pick(&fragments)),
                    1 => text.truncate(at),
                    2 if at < text.len() => {
                        text.remove(at);
                    }
                    _ => {
                        ab = c.r.pick(&["t/10", "t/", "t", "", "T/1", "t/1 ", "/1", "email/send", "*", "ucan/DELEGATE", "t/a", "t/e", "t/8", " t/1", "t/c/", "t/cc", "t//1", "x/1"]).to_string()
                    }
                }
            }
            if !plainly_read(&text) {
                return Ok(());
            }
            c.eval();
            c.note(format!("{text} {ab}"));
            let want = MCap::read(&text, &ab, &cav_eff);
            let got = TSem.parse(&text, &ab, caveat);
            c.ev(if want.is_some() { "altered texts still understood" } else { "altered texts that mean nothing" });
            match (want, got) {
                (None, None) => {}
                (None, Some(v)) => bail!("{text} {ab} does not belong to the semantics, and parses to {v:?}"),
                (Some(m), None) => bail!("{text} {ab} means {}, and does not parse", m.key()),
                (Some(m), Some(v)) => {
                    ensure!(v == view(&m), "{text} {ab} means {}, and parses to {v:?}", m.key());
                    render_again(&TSem, &v)?;
                }
            }
            c.seen(format!("{text} {ab}"));
        }
        6 | 7 => {
            // proof selections
            let sem = ProofDelegationSemantics {};
            let f = some_form(&mut c.r);
            let idx = *c.r.pick(&[0usize, 1, 9, 10, 255, 65536, usize::MAX]);
            let all = c.r.pct(30);
            let sel = if all { ProofSelection::All } else { ProofSelection::Index(idx) };
            let text = format!("{}prf:{}", prefix(&f), if all { "*".to_string() } else { idx.to_string() });
            c.eval();
            c.note(&text);
            let Some(v) = sem.parse(&text, "ucan/DELEGATE", caveat) else { bail!("{text} is not understood") };
            let (g, s) = scoped(v.resource());
            ensure!(g == f && s == Some(&sel), "{text} parses to {v:?}");
            ensure!(Capability::from(&v).resource == text, "{text} renders as {}", Capability::from(&v).resource);
            ensure!(*v.caveat() == cav_eff, "{text} parses to caveat {}", v.caveat());
            render_again(&sem, &v)?;
            for (bad_r, bad_a) in [
                (format!("{}prf:", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}prf:-1", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}prf:1x", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}prf:**", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}prf:1.0", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}set:ab", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}set:0", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}prg:0", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}set:*", prefix(&f)), "ucan/DELEGATE"),
                (format!("{}prf:0:prf:0", prefix(&f)), "ucan/DELEGATE"),
                (text.clone(), "ucan/delegate"),
                (text.clone(), "ucan/*"),
                (text.clone(), "ucan/DELEGATE2"),
                (text.clone(), ""),
            ] {
                ensure!(sem.parse(&bad_r, bad_a, caveat).is_none(), "{bad_r} {bad_a} is taken for a redelegation");
                c.ev("foreign texts refused");
            }
            c.ev("capabilities read and rendered");
            c.seen(&text);
        }
        _ => {
            let f = some_form(&mut c.r);
            let wild = c.r.pct(20);
            let mut u = Url::parse(c.r.pick(URLS)).unwrap();
            if c.r.pct(40) && u.has_host() {
                u.set_path(&format!("/{}", json::text(&mut c.r)));
            }
            let ab = if c.r.pct(50) { UAbility::Get } else { UAbility::Put };
            let k = if wild { ResourceUri::Unscoped } else { ResourceUri::Scoped(UScope(u.clone())) };
            let res = match &f {
                Form::Plain => Resource::Resource { kind: k },
                Form::My => Resource::My { kind: k },
                Form::As(d) => Resource::As { did: d.clone(), kind: k },
            };
            let v = CapabilityView::new_with_caveat(res, ab.clone(), cav_eff.clone());
            c.eval();
            c.note(format!("{v:?}"));
            render_again(&USem, &v)?;
            let text = format!("{}{}", prefix(&f), if wild { "*" } else { u.as_str() });
            let Some(p) = USem.parse(&text, &ab.to_string(), caveat) else { bail!("{text} is not understood") };
            ensure!(p == v, "{text} parses to {p:?}");
            if f != Form::Plain && c.r.pct(30) {
                // a scheme's case says nothing: the same form, or not understood; never another form
                let loud = match c.r.below(3) {
                    0 => format!("{}{}", text[..2].to_uppercase(), &text[2..]),
                    1 => format!("{}{}", text[..1].to_uppercase(), &text[1..]),
                    _ => format!("{}{}{}", &text[..1], text[1..2].to_uppercase(), &text[2..]),
                };
                if let Some(p) = USem.parse(&loud, &ab.to_string(), caveat) {
                    ensure!(p == v, "{loud} parses to {p:?}");
                }
                c.ev("schemes in another case");
            }
            let foreign = format!("{}ftp://example.com/a", prefix(&f));
            ensure!(USem.parse(&foreign, &ab.to_string(), caveat).is_none(), "{foreign} is understood");
            c.ev("capabilities read and rendered");
            c.seen(&text);
        }
    }
    Ok(())
}

/// The harness's reader and the URL standard agree on what such a text is.
fn plainly_read(s: &str) -> bool {
    let scheme = |t: &str| t.split_once(':').map(|(a, _)| a.to_string());
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b":/*".contains(&b))
        && scheme(s).map_or(true, |x| !x.bytes().any(|b| b.is_ascii_uppercase()))
        && !s.contains("//")
        && !s.split(':').any(|x| x.starts_with('/'))
        && s.matches("my").count() <= 1
        && s.matches("as:").count() <= 1
        && {
            // upper case in an inner scheme would be rewritten
            let inner = s.strip_prefix("my:").or_else(|| s.strip_prefix("as:did:key:").and_then(|x| x.split_once(':').map(|y| y.1))).unwrap_or(s);
            scheme(inner).map_or(true, |x| x != "my" && x != "as" && !x.bytes().any(|b| b.is_ascii_uppercase()))
        }
}

// ---------------------------------------------------------------- C16

pub const C16: Prop = Prop {
    id: "C16",
    quick: 300000,
    thorough: 1500000,
    level: "exploration",
    rule: "a case is one capability collection taken through every construction path (sequence, JSON value, nested map, serde JSON, DAG-CBOR, token) and flattened again, or one malformed collection every path must refuse; distinct_nontrivial counts distinct collections with at least two entries and distinct malformed ones",
    assumptions: &["the order of entries of different resources or abilities in the flattened sequence is not promised"],
    run: c16,
};

type Nested = BTreeMap<String, BTreeMap<String, Vec<Value>>>;

fn flat(n: &Nested) -> Vec<Capability> {
    let mut out = Vec::new();
    for (a, m) in n {
        for (b, cs) in m {
            for x in cs {
                out.push(Capability::new(a.clone(), b.clone(), x.clone()));
            }
        }
    }
    out
}

fn token_with(cap: &Value, r: &mut R) -> String {
    let key = keys::mock(r.below(5) as u64);
    let mut b = Body::new(&key, "did:key:zAud");
    b.cap = cap.clone();
    let s = json::style(r);
    b.token(&s, r)
}

/// Every way to obtain a capability map out of this JSON value.
fn every_path(v: &Value, r: &mut R) -> Vec<(&'static str, Result<Capabilities, String>)> {
    let mut out: Vec<(&'static str, Result<Capabilities, String>)> = Vec::new();
    out.push(("JSON value", Capabilities::try_from(v).map_err(|e| e.to_string())));
    out.push(("serde from a value", serde_json::from_value::<Capabilities>(v.clone()).map_err(|e| e.to_string())));
    let s = json::style(r);
    let text = json::write(v, &s, r);
    out.push(("serde from text", serde_json::from_str::<Capabilities>(&text).map_err(|e| e.to_string())));
    // (the CBOR library itself reads an empty list as an empty map)
    if *v == json!([]) {
        let t = token_with(v, r);
        out.push(("token", Ucan::try_from(t.as_str()).map(|u| u.capabilities().clone()).map_err(|e| e.to_string())));
        return out;
    }
    let cbor = serde_ipld_dagcbor::to_vec(v).expect("harness encodes DAG-CBOR");
    out.push(("DAG-CBOR", serde_ipld_dagcbor::from_slice::<Capabilities>(&cbor).map_err(|e| e.to_string())));
    let t = token_with(v, r);
    out.push(("token", Ucan::try_from(t.as_str()).map(|u| u.capabilities().clone()).map_err(|e| e.to_string())));
    if let Ok(n) = serde_json::from_value::<Nested>(v.clone()) {
        out.push(("nested map", Capabilities::try_from(n).map_err(|e| e.to_string())));
    }
    out
}

fn break_caps(r: &mut R, v: &Value) -> Value {
    let junk = |r: &mut R| r.pick(&[json!(1), json!("{}"), json!(true), json!([{}]), json!([]), json!(1.5), json!(null)]).clone();
    let mut v = v.clone();
    let m = v.as_object_mut().unwrap();
    if m.is_empty() {
        m.insert("set:a".into(), json!({"t/1": [{}]}));
    }
    let k = {
        let ks: Vec<String> = m.keys().cloned().collect();
        r.pick(&ks).clone()
    };
    match r.below(6) {
        0 => {
            m.insert(k, json!({}));
        }
        1 => {
            let x = junk(r);
            m.insert(k, x);
        }
        2 => {
            let x = r.pick(&[json!({}), json!({"x": 1}), json!("[]"), json!(3), json!(null), json!(false)]).clone();
            m[&k].as_object_mut().unwrap().insert("t/9".into(), x);
        }
        3 | 4 => {
            let ab = m[&k].as_object_mut().unwrap();
            let x = junk(r);
            let e = ab.entry("t/9").or_insert(json!([]));
            let a = e.as_array_mut().unwrap();
            let n = r.below(3);
            for _ in a.len()..n {
                a.push(json!({}));
            }
            let at = r.below(a.len() + 1);
            a.insert(at, x);
        }
        _ => v = r.pick(&[json!([]), json!([{"with": "set:a", "can": "t/1"}]), json!("{}"), json!(1), json!(true)]).clone(),
    }
    v
}

fn c16(c: &mut Case) -> Res {
    if c.r.pct(30) {
        let base = forge::caps(&mut c.r, 3, false);
        let v = break_caps(&mut c.r, &base);
        c.note(format!("malformed {v}"));
        for (how, res) in every_path(&v, &mut c.r) {
            c.eval();
            c.ev("malformed collections refused");
            if let Ok(x) = res {
                bail!("{v} is accepted by way of {how}: {x:?}");
            }
        }
        // the sequence can be wrong in its caveats only
        let bad = c.r.pick(&[json!(null), json!(1), json!("x"), json!([]), json!([{}]), json!(false)]).clone();
        let mut seq: Vec<Capability> = (0..c.r.below(4)).map(|i| Capability::new(format!("set:{}", (b'a' + i as u8) as char), "t/1".into(), json!({}))).collect();
        let at = c.r.below(seq.len() + 1);
        seq.insert(at, Capability::new("set:a".into(), "t/1".into(), bad.clone()));
        c.eval();
        ensure!(Capabilities::try_from(seq.clone()).is_err(), "a sequence with caveat {bad} at {at} is accepted: {seq:?}");
        c.seen(v.to_string());
        return Ok(());
    }
    let v = if c.r.below(400) == 0 {
        // many of everything
        let n = *c.r.pick(&[70usize, 130, 257, 300, 600]);
        let which = c.r.below(3);
        let period = if c.r.pct(50) { n } else { *c.r.pick(&[1usize, 2, 50, 100]) };
        let list: Vec<(String, String, Value)> = (0..n)
            .map(|i| {
                let (a, b) = match which {
                    0 => (0, 0),
                    1 => (0, i),
                    _ => (i, 0),
                };
                (format!("set:{a}"), format!("t/{b}"), json!({"n": i % period}))
            })
            .collect();
        caps_json(&list)
    } else if c.r.pct(50) {
        forge::caps(&mut c.r, 4, false)
    } else {
        let n = c.r.range(0, 5);
        let list: Vec<(String, String, Value)> = (0..n)
            .map(|_| {
                let m = gen_mcap(&mut c.r);
                (m.resource(), crate::sem::ability_text(m.ability), m.caveat)
            })
            .collect();
        caps_json(&list)
    };
    let want: Nested = serde_json::from_value(v.clone()).unwrap();
    c.note(v.to_string());
    for (how, res) in every_path(&v, &mut c.r) {
        c.eval();
        match res {
            Err(e) => bail!("{v} is refused by way of {how}: {e}"),
            Ok(x) => {
                ensure!(*x == want, "{v} becomes {x:?} by way of {how}");
                check_flat(&x, &want, how)?;
                let back = serde_json::to_value(&x).map_err(|e| crate::case::V(format!("{e}")))?;
                ensure!(back == v, "{v} serializes to {back} by way of {how}");
            }
        }
        c.ev("collections taken through a path");
    }
    // sequences, in any order of resources and abilities
    let seq = flat(&want);
    let mut shuffled = seq.clone();
    if c.r.pct(70) {
        // shuffle, keeping caveats of the same (resource, ability) in order
        let mut groups: BTreeMap<(String, String), Vec<Capability>> = BTreeMap::new();
        for x in &seq {
            groups.entry((x.resource.clone(), x.ability.clone())).or_default().push(x.clone());
        }
        let mut gs: Vec<Vec<Capability>> = groups.into_values().map(|mut g| { g.reverse(); g }).collect();
        shuffled.clear();
        while !gs.is_empty() {
            let i = c.r.below(gs.len());
            match gs[i].pop() {
                Some(x) => shuffled.push(x),
                None => {
                    gs.swap_remove(i);
                }
            }
        }
    }
    let mut dense: Nested = want.clone();
    for m in dense.values_mut() {
        m.retain(|_, cs| !cs.is_empty());
    }
    dense.retain(|_, m| !m.is_empty());
    c.eval();
    let x = match Capabilities::try_from(shuffled.clone()) {
        Ok(x) => x,
        Err(e) => bail!("a sequence is refused: {e} {shuffled:?}"),
    };
    ensure!(*x == dense, "{shuffled:?} becomes {x:?}");
    check_flat(&x, &dense, "the sequence")?;
    ensure!(Capabilities::try_from(x.iter().collect::<Vec<_>>()).ok() == Some(x.clone()), "rebuilding from the sequence changes {x:?}");
    for cap in &seq {
        let t: (String, String, Value) = cap.clone().into();
        ensure!(Capability::from(t.clone()) == *cap && Capability::from((t.0.as_str(), t.1.as_str(), &t.2)) == *cap && Capability::from(cap) == *cap, "{cap:?} changes as a tuple");
    }
    // and through a built token
    let key = keys::mock(1);
    let built = {
        let k = key.cut();
        let s = ucan::builder::UcanBuilder::default().issued_by(&k).for_audience("did:key:zAud").with_expiration(9).claiming_capabilities(&shuffled).build();
        s.and_then(|s| block_on(s.sign()))
    };
    c.eval();
    match built {
        Ok(u) => {
            ensure!(**u.capabilities() == dense, "{shuffled:?} is built into {:?}", u.capabilities());
            let again = Ucan::try_from(u.encode().unwrap()).map_err(|e| crate::case::V(format!("{e}")))?;
            ensure!(**again.capabilities() == dense, "{shuffled:?} is decoded as {:?}", again.capabilities());
        }
        Err(e) => bail!("a token with {shuffled:?} is not built: {e}"),
    }
    if seq.len() >= 2 {
        c.seen(v.to_string());
    }
    c.state("sizes", (want.len(), seq.len()));
    c.sample(|| v.to_string());
    Ok(())
}

fn check_flat(x: &Capabilities, want: &Nested, how: &str) -> Res {
    let mut left: BTreeMap<(String, String), Vec<Value>> = BTreeMap::new();
    let mut n = 0;
    for cap in x.iter() {
        n += 1;
        left.entry((cap.resource, cap.ability)).or_default().push(cap.caveat);
    }
    let mut expect: BTreeMap<(String, String), Vec<Value>> = BTreeMap::new();
    for cap in flat(want) {
        expect.entry((cap.resource, cap.ability)).or_default().push(cap.caveat);
    }
    ensure!(left == expect, "flattening {want:?} (by way of {how}) yields {left:?}");
    ensure!(n == flat(want).len(), "flattening yields {n} entries");
    Ok(())
}
