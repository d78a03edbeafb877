//! Capability semantics used to exercise reduction and enablement, and the
//! harness's own, independently written reading of capability texts.
use serde_json::Value;
use ucan::capability::{Ability, CapabilitySemantics, Scope};
use url::Url;

/// `set:<letters>`: a scope contains another when its letters are a superset.
/// `tree:a/b/c`: a scope contains another when it is a path prefix.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TScope {
    Set(u32),
    Tree(Vec<String>),
}

fn letters(s: &str) -> Option<u32> {
    let mut m = 0;
    for c in s.bytes() {
        if !c.is_ascii_lowercase() {
            return None;
        }
        m |= 1 << (c - b'a');
    }
    Some(m)
}
fn unletters(m: u32) -> String {
    (0..26u8).filter(|i| m >> i & 1 == 1).map(|i| (b'a' + i) as char).collect()
}

impl TScope {
    pub fn covers(&self, o: &TScope) -> bool {
        match (self, o) {
            (TScope::Set(a), TScope::Set(b)) => a & b == *b,
            (TScope::Tree(a), TScope::Tree(b)) => b.len() >= a.len() && b[..a.len()] == a[..],
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            TScope::Set(m) => format!("set:{}", unletters(*m)),
            TScope::Tree(p) => format!("tree:{}", p.join("/")),
        }
    }
    pub fn read(s: &str) -> Option<TScope> {
        if let Some(x) = s.strip_prefix("set:") {
            Some(TScope::Set(letters(x)?))
        } else {
            let x = s.strip_prefix("tree:")?;
            if x.is_empty() {
                return Some(TScope::Tree(vec![]));
            }
            let p: Vec<String> = x.split('/').map(|s| s.to_string()).collect();
            if p.iter().any(|s| s.is_empty() || !s.bytes().all(|b| b.is_ascii_alphanumeric() || b"*.-_~:@!".contains(&b))) {
                return None;
            }
            Some(TScope::Tree(p))
        }
    }
}

impl Scope for TScope {
    fn contains(&self, other: &Self) -> bool {
        self.covers(other)
    }
}
impl ToString for TScope {
    fn to_string(&self) -> String {
        self.text()
    }
}
impl TryFrom<Url> for TScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, anyhow::Error> {
        TScope::read(u.as_str()).ok_or_else(|| anyhow::anyhow!("not a test scope"))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TAbility(pub u8);
impl Ability for TAbility {}
impl ToString for TAbility {
    fn to_string(&self) -> String {
        ability_text(self.0)
    }
}
impl TryFrom<String> for TAbility {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, anyhow::Error> {
        read_ability(&s).map(TAbility).ok_or_else(|| anyhow::anyhow!("not a test ability"))
    }
}
pub fn read_ability(s: &str) -> Option<u8> {
    let x = s.strip_prefix("t/")?;
    TEXTS.iter().position(|t| *t == x).map(|i| i as u8)
}
/// From the least ability to the greatest; neither the texts' order nor their
/// order without case.
const TEXTS: [&str; 10] = ["d", "C", "D", "c", "1", "9", "2", "0", "3", "4"];
pub fn ability_text(rank: u8) -> String {
    format!("t/{}", TEXTS[rank as usize])
}

pub struct TSem;
impl CapabilitySemantics<TScope, TAbility> for TSem {}

// ---- the independent reading ----------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Form {
    Plain,
    My,
    As(String),
}

/// `None` scope is the wildcard.
#[derive(Clone, Debug, PartialEq)]
pub struct MCap {
    pub form: Form,
    pub scope: Option<TScope>,
    pub ability: u8,
    pub caveat: Value,
}

impl MCap {
    pub fn resource(&self) -> String {
        let s = self.scope.as_ref().map_or("*".to_string(), |s| s.text());
        match &self.form {
            Form::Plain => s,
            Form::My => format!("my:{s}"),
            Form::As(d) => format!("as:{d}:{s}"),
        }
    }
    pub fn key(&self) -> String {
        format!("{} {} {}", self.resource(), ability_text(self.ability), self.caveat)
    }
    pub fn read(resource: &str, ability: &str, caveat: &Value) -> Option<MCap> {
        let (form, rest) = if let Some(x) = resource.strip_prefix("my:") {
            (Form::My, x)
        } else if let Some(x) = resource.strip_prefix("as:did:key:") {
            let (d, x) = x.split_once(':')?;
            (Form::As(format!("did:key:{d}")), x)
        } else {
            (Form::Plain, resource)
        };
        let wild = rest == "*"
            || rest.strip_suffix(":*").is_some_and(|s| {
                s.starts_with(|c: char| c.is_ascii_lowercase())
                    && s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b"+-.".contains(&b))
                    && s != "my"
                    && s != "as"
            });
        let scope = if wild { None } else { Some(TScope::read(rest)?) };
        Some(MCap { form, scope, ability: read_ability(ability)?, caveat: caveat.clone() })
    }
    pub fn enables(&self, o: &MCap) -> bool {
        self.form == o.form
            && match (&self.scope, &o.scope) {
                (None, _) => true,
                (Some(_), None) => false,
                (Some(a), Some(b)) => a.covers(b),
            }
            && self.ability >= o.ability
            && caveat_enables(&self.caveat, &o.caveat)
    }
}

pub fn caveat_enables(a: &Value, b: &Value) -> bool {
    let (Value::Object(a), Value::Object(b)) = (a, b) else { return false };
    // Every condition of `a` is kept by `b`. An empty `b` keeps none.
    a.iter().all(|(k, v)| b.get(k) == Some(v))
}
