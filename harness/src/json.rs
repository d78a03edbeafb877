//! JSON text written by the harness itself: canonical (sorted keys, compact) or
//! in the layouts other implementations produce.
use crate::rng::R;
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum Style {
    Canonical,
    Foreign { ws: u64, esc: u64, reorder: bool },
}

pub fn string(s: &str, style: &Style, r: &mut R) -> String {
    let esc = match style {
        Style::Foreign { esc, .. } => *esc,
        _ => 0,
    };
    let mut o = String::from("\"");
    for c in s.chars() {
        if esc > 0 && r.pct(esc) {
            if c == '/' && r.pct(50) {
                o.push_str("\\/");
                continue;
            }
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                if r.pct(50) {
                    o.push_str(&format!("\\u{:04x}", u))
                } else {
                    o.push_str(&format!("\\u{:04X}", u))
                }
            }
            continue;
        }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn ws(style: &Style, r: &mut R) -> &'static str {
    match style {
        Style::Foreign { ws, .. } if r.pct(*ws) => *r.pick(&[" ", "\n", "\t", "  ", "\r\n"]),
        _ => "",
    }
}

pub fn write(v: &Value, style: &Style, r: &mut R) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => n.to_string(),
        Value::String(s) => string(s, style, r),
        Value::Array(a) => {
            let mut o = String::from("[");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                o.push_str(ws(style, r));
                o.push_str(&write(x, style, r));
                o.push_str(ws(style, r));
            }
            o.push(']');
            o
        }
        Value::Object(m) => {
            let mut ks: Vec<(&String, &Value)> = m.iter().collect();
            ks.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            if let Style::Foreign { reorder: true, .. } = style {
                r.shuffle(&mut ks);
            }
            let mut o = String::from("{");
            for (i, (k, x)) in ks.into_iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                o.push_str(ws(style, r));
                o.push_str(&string(k, style, r));
                o.push_str(ws(style, r));
                o.push(':');
                o.push_str(ws(style, r));
                o.push_str(&write(x, style, r));
                o.push_str(ws(style, r));
            }
            o.push('}');
            o
        }
    }
}

pub fn style(r: &mut R) -> Style {
    if r.pct(40) {
        Style::Canonical
    } else {
        Style::Foreign {
            ws: *r.pick(&[0, 20, 60]),
            esc: *r.pick(&[0, 10, 50]),
            reorder: r.pct(70),
        }
    }
}

const WORDS: &[&str] = &[
    "a", "b", "key", "value", "ünï", "日本", "🦀", "x y", "a/b", "a.b", "", "\"q\"", "\\", "\n", "\u{1}", "prf", "iss", "e\u{301}", "é",
    "0", "-1", "null", "did:key:z6Mk", "\u{7f}", "\u{2028}",
    " a", "a ", " ", "\t", "\r\n", "A", "Key", "key ", "KEY", "#", "a#b", "?", "%41", "%", "\u{feff}", "\u{a0}", "\u{0}", "...", "_", "$", "*", "did:key:z6Mk#f", "did:web:Example.com", "É", "ß", "ﬁ",
];

pub fn text(r: &mut R) -> String {
    match r.below(8) {
        0..=3 => r.pick(WORDS).to_string(),
        4..=5 => {
            let n = r.range(0, 4);
            (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(*r.pick(&["", " ", ".", "/"]))
        }
        6 => {
            let n = r.range(1, 12);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        _ => {
            let n = if r.pct(3) { r.range(1024, 5000) } else { *r.pick(&[63usize, 64, 65, 255, 256, 300, 1023]) };
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}

fn number(r: &mut R) -> Value {
    match r.below(10) {
        0 => Value::from(0),
        1 => Value::from(r.below(100)),
        2 => Value::from(-(r.below(100) as i64)),
        3 => Value::from(u64::MAX),
        4 => Value::from(i64::MIN),
        5 => Value::from((1u64 << 53) + r.below(5) as u64),
        6 => Value::from(r.u64()),
        7 => Value::from(0.5),
        8 => Value::from(1.0),
        _ => Value::from((r.below(2000) as f64 - 1000.0) / 64.0),
    }
}

/// A JSON value that DAG-JSON represents faithfully: no nulls when `nulls` is
/// false, no reserved "/" keys.
pub fn value(r: &mut R, depth: usize, nulls: bool) -> Value {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Bool(r.pct(50)),
        1 | 2 => number(r),
        3 | 4 => Value::String(text(r)),
        5 if nulls => Value::Null,
        5 => Value::String(text(r)),
        6 => {
            let n = r.range(0, 3);
            Value::Array((0..n).map(|_| value(r, depth - 1, nulls)).collect())
        }
        _ => object(r, depth - 1, nulls),
    }
}

pub fn object(r: &mut R, depth: usize, nulls: bool) -> Value {
    let n = r.range(0, 3);
    let mut m = serde_json::Map::new();
    for _ in 0..n {
        let k = text(r);
        if k == "/" {
            continue;
        }
        m.insert(k, value(r, depth, nulls));
    }
    Value::Object(m)
}
