//! What one monitored execution records: its description (for the replay), the
//! events the monitors observed, and the fingerprints of what it covered.
use crate::rng::R;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Debug)]
pub struct V(pub String);
pub type Res = Result<(), V>;

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub states: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub findings: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.states {
            self.states.entry(k).or_default().extend(v);
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
        self.findings.extend(o.findings);
    }
}

pub struct Case<'a> {
    pub r: R,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub notes: Vec<String>,
    pub st: &'a mut Stats,
}

pub fn fp(x: impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl<'a> Case<'a> {
    /// One oracle judgement was made.
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    /// This execution was not trivial, and this is what was specific to it.
    pub fn seen(&mut self, x: impl Hash) {
        self.st.distinct.insert(fp(x));
    }
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1)
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        if let Some(v) = self.st.events.get_mut(name) {
            *v += n
        } else {
            self.st.events.insert(name.into(), n);
        }
    }
    /// A distinct state of some kind was observed.
    pub fn state(&mut self, kind: &str, x: impl Hash) {
        let f = fp(x);
        if let Some(v) = self.st.states.get_mut(kind) {
            v.insert(f);
        } else {
            self.st.states.insert(kind.into(), HashSet::from([f]));
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        if self.notes.len() < 60 {
            let mut s: String = s.into();
            if s.len() > 3000 {
                let mut n = 3000;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push('…');
            }
            self.notes.push(s)
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let mut s = f();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push('…');
            }
            self.st.samples.push(s);
        }
    }
    pub fn finding(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.st.findings.contains(&s) {
            self.st.findings.push(s)
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::case::V(format!($($a)*))); } };
}
#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err($crate::case::V(format!($($a)*))) };
}
