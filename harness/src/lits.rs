//! What the sources of the crate mention and did not mention when the checks
//! were written: numbers, names and texts on which a change may depend. They
//! only guide the generators, which would hardly ever hit `n == 48_611` by
//! themselves; what is right is decided by the oracles as ever, and without
//! anything new the generators are as they were.

use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Debug, Clone, PartialEq, PartialOrd)]
pub enum Lit {
    Int(i64),
    Num(f64),
    Text(Vec<u8>),
}

#[derive(Debug, Default)]
pub struct Lits {
    pub ints: Vec<i64>,
    pub nums: Vec<f32>,
    pub texts: Vec<Vec<u8>>,
    /// Draw them at all. (A case found with them is replayed with them.)
    pub on: bool,
}

static LITS: OnceLock<Lits> = OnceLock::new();

const BASE: &str = include_str!("../literals.txt");

pub fn get() -> &'static Lits {
    LITS.get_or_init(Lits::default)
}

/// Use what is new in the sources.
pub fn load() {
    let dir = std::env::var("VERIF_SOURCE").unwrap_or_else(|_| "/repo/src".into());
    let mut count: BTreeMap<String, (i64, Lit)> = BTreeMap::new();
    for l in all(&dir) {
        count.entry(format!("{l:?}")).or_insert((0, l)).0 += 1;
    }
    for line in BASE.lines() {
        let (n, key) = line.split_once(' ').expect("count and literal");
        if let Some(e) = count.get_mut(key) {
            e.0 -= n.parse::<i64>().expect("count");
        }
    }
    let mut lits = Lits::default();
    for (n, l) in count.into_values() {
        if n <= 0 {
            continue;
        }
        match l {
            Lit::Int(v) => lits.ints.push(v),
            Lit::Num(v) => lits.nums.push(v as f32),
            Lit::Text(v) => lits.texts.push(v),
        }
    }
    lits.on = !(lits.ints.is_empty() && lits.nums.is_empty() && lits.texts.is_empty());
    let _ = LITS.set(lits);
}

/// For a replay: the values themselves are on the tape.
pub fn switch(on: bool) {
    let _ = LITS.set(Lits { on, ..Lits::default() });
}

/// The literals and how often each occurs, as `literals.txt` has them.
pub fn listing() -> String {
    let dir = std::env::var("VERIF_SOURCE").unwrap_or_else(|_| "/repo/src".into());
    let mut count: BTreeMap<String, i64> = BTreeMap::new();
    for l in all(&dir) {
        *count.entry(format!("{l:?}")).or_insert(0) += 1;
    }
    count.iter().map(|(k, n)| format!("{n} {k}\n")).collect()
}

fn all(dir: &str) -> Vec<Lit> {
    let mut out = Vec::new();
    let mut stack = vec![std::path::PathBuf::from(dir)];
    while let Some(p) = stack.pop() {
        if p.is_dir() {
            stack.extend(std::fs::read_dir(&p).into_iter().flatten().flatten().map(|e| e.path()));
        } else if p.extension().is_some_and(|e| e == "rs") {
            let text = std::fs::read(&p).unwrap_or_default();
            let marker = b"#[cfg(test)]\nmod ";
            let end = text.windows(marker.len()).position(|w| w == marker).unwrap_or(text.len());
            scan(&text[..end], &mut out);
        }
    }
    out
}

/// The literals of a Rust source text, and the values of `a << b` and `a * b`.
fn scan(t: &[u8], out: &mut Vec<Lit>) {
    let at = |i: usize| t.get(i).copied().unwrap_or(0);
    let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_' || b >= 128;
    let mut i = 0;
    let mut tokens: Vec<(String, Option<i64>)> = Vec::new();
    while i < t.len() {
        let b = t[i];
        if b.is_ascii_whitespace() {
            i += 1;
        } else if b == b'/' && at(i + 1) == b'/' {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if b == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < t.len() && !(at(i) == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if let Some((start, hashes)) = raw(t, i) {
            let mut close = vec![b'"'];
            close.resize(hashes + 1, b'#');
            let mut j = start;
            while j < t.len() && !t[j..].starts_with(&close) {
                j += 1;
            }
            out.push(Lit::Text(t[start..j.min(t.len())].to_vec()));
            tokens.push(("\"".into(), None));
            i = j + close.len();
        } else if b == b'"' || b == b'b' && at(i + 1) == b'"' {
            i += if b == b'b' { 2 } else { 1 };
            let mut v = Vec::new();
            while i < t.len() && t[i] != b'"' {
                i = unescape(t, i, &mut v);
            }
            out.push(Lit::Text(v));
            tokens.push(("\"".into(), None));
            i += 1;
        } else if (b == b'\'' || b == b'b' && at(i + 1) == b'\'') && {
            let k = i + usize::from(b == b'b') + 1;
            // Not a lifetime.
            at(k) == b'\\' || at(k) >= 128 || at(k + 1) == b'\''
        } {
            let k = i + usize::from(b == b'b') + 1;
            let mut v = Vec::new();
            let mut j = unescape(t, k, &mut v);
            while j < t.len() && t[j] != b'\'' {
                j = unescape(t, j, &mut v);
            }
            let c = if v.len() == 1 { Some(v[0] as u32) } else { std::str::from_utf8(&v).ok().and_then(|s| s.chars().next()).map(|c| c as u32) };
            if let Some(c) = c {
                out.push(Lit::Int(c as i64));
                out.push(Lit::Text(v));
            }
            tokens.push(("'".into(), None));
            i = j + 1;
        } else if b.is_ascii_digit() {
            let mut j = i;
            while word(at(j)) || at(j) == b'.' && at(j + 1).is_ascii_digit() || matches!(at(j), b'-' | b'+') && matches!(at(j - 1), b'e' | b'E') && !t[i..].starts_with(b"0x") {
                j += 1;
            }
            let v = number(&String::from_utf8_lossy(&t[i..j]), out);
            tokens.push(("0".into(), v));
            i = j;
        } else if word(b) {
            let mut j = i;
            while word(at(j)) {
                j += 1;
            }
            tokens.push((String::from_utf8_lossy(&t[i..j]).into_owned(), None));
            i = j;
        } else {
            tokens.push(((b as char).to_string(), None));
            i += 1;
        }
    }
    for w in tokens.windows(4) {
        if let (Some(a), "<", "<", Some(b)) = (w[0].1, &*w[1].0, &*w[2].0, w[3].1) {
            if (0..40).contains(&b) && (1..1 << 20).contains(&a) {
                out.push(Lit::Int(a << b));
            }
        }
        if let (Some(a), "*", Some(b)) = (w[0].1, &*w[1].0, w[2].1) {
            out.extend(a.checked_mul(b).map(Lit::Int));
        }
    }
}

/// The start of the content of a raw string and how many `#` it has.
fn raw(t: &[u8], i: usize) -> Option<(usize, usize)> {
    let k = i + usize::from(t[i] == b'b');
    if t.get(k) != Some(&b'r') {
        return None;
    }
    let n = t[k + 1..].iter().take_while(|b| **b == b'#').count();
    (t.get(k + 1 + n) == Some(&b'"')).then_some((k + 2 + n, n))
}

fn unescape(t: &[u8], i: usize, out: &mut Vec<u8>) -> usize {
    let at = |i: usize| t.get(i).copied().unwrap_or(0);
    if at(i) != b'\\' {
        out.push(at(i));
        return i + 1;
    }
    let hex = |b: &[u8]| u32::from_str_radix(&String::from_utf8_lossy(b).replace('_', ""), 16).unwrap_or(0);
    match at(i + 1) {
        b'n' => out.push(b'\n'),
        b'r' => out.push(b'\r'),
        b't' => out.push(b'\t'),
        b'0' => out.push(0),
        b'x' => {
            out.push(hex(t.get(i + 2..i + 4).unwrap_or(b"0")) as u8);
            return i + 4;
        }
        b'u' => {
            let end = (i..t.len()).find(|j| t[*j] == b'}').unwrap_or(t.len());
            let c = char::from_u32(hex(t.get(i + 3..end).unwrap_or(b"0"))).unwrap_or('?');
            out.extend(c.to_string().bytes());
            return end + 1;
        }
        b'\n' => {
            let mut j = i + 2;
            while at(j).is_ascii_whitespace() {
                j += 1;
            }
            return j;
        }
        c => out.push(c),
    }
    i + 2
}

fn number(s: &str, out: &mut Vec<Lit>) -> Option<i64> {
    let mut s = s.replace('_', "");
    let hex = s.starts_with("0x");
    for suffix in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f32", "f64"] {
        if !(hex && suffix.starts_with('f')) && s.ends_with(suffix) {
            s.truncate(s.len() - suffix.len());
            break;
        }
    }
    let int = if hex {
        i64::from_str_radix(&s[2..], 16).ok()
    } else if let Some(b) = s.strip_prefix("0b") {
        i64::from_str_radix(b, 2).ok()
    } else if let Some(o) = s.strip_prefix("0o") {
        i64::from_str_radix(o, 8).ok()
    } else {
        s.parse().ok()
    };
    if let Some(v) = int {
        out.push(Lit::Int(v));
        return Some(v);
    }
    if let Ok(v) = s.parse::<f64>() {
        out.push(Lit::Num(v));
        if v.fract() == 0.0 && v.abs() < 1e15 {
            out.push(Lit::Int(v as i64));
        }
    }
    None
}
