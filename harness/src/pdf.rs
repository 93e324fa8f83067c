//! An independent reader for the PDF syntax of ISO 32000 (clause 7.2, 7.3, 7.5),
//! and the value model that expectations are written in. Nothing here uses the
//! crate under test.

use std::collections::HashMap;

/// An expected or parsed PDF object.
#[derive(Debug, Clone, PartialEq)]
pub enum M {
    Null,
    Bool(bool),
    /// Expectation: an integer token with this value.
    Int(i64),
    /// Expectation: a number token that reads back as this `f32`.
    Num(f32),
    /// Parsed number token.
    Tok(String),
    Str(Vec<u8>),
    /// Expectation: a text string with this Unicode content.
    Text(String),
    /// Expectation: UTF-16BE text string with language escapes.
    LangText(Vec<([u8; 2], Option<[u8; 2]>, String)>),
    Name(Vec<u8>),
    Arr(Vec<M>),
    Dict(Vec<(Vec<u8>, M)>),
    Ref(i64),
    /// Parsed reference.
    RefTok(i64, i64),
    /// Expectation: one of several encodings.
    OneOf(Vec<M>),
}

pub fn name(s: &str) -> M {
    M::Name(s.as_bytes().to_vec())
}

pub fn nums(v: &[f32]) -> M {
    M::Arr(v.iter().map(|&x| M::Num(x)).collect())
}

/// Expected dictionary under construction.
#[derive(Debug, Clone, Default)]
pub struct D(pub Vec<(Vec<u8>, M)>);

impl D {
    pub fn new() -> Self {
        D(Vec::new())
    }
    pub fn ty(t: &str) -> Self {
        let mut d = D::new();
        d.put("Type", name(t));
        d
    }
    pub fn with(mut self, k: &str, v: M) -> Self {
        self.put(k, v);
        self
    }
    pub fn put(&mut self, k: &str, v: M) {
        self.0.push((k.as_bytes().to_vec(), v));
    }
    pub fn putb(&mut self, k: &[u8], v: M) {
        self.0.push((k.to_vec(), v));
    }
    pub fn m(self) -> M {
        M::Dict(self.0)
    }
}

pub fn show(m: &M) -> String {
    fn bytes(b: &[u8]) -> String {
        let mut o = String::new();
        for &c in b.iter().take(80) {
            if (32..127).contains(&c) && c != b'\\' {
                o.push(c as char)
            } else {
                o.push_str(&format!("\\x{c:02x}"))
            }
        }
        if b.len() > 80 {
            o.push_str(&format!("..({} bytes)", b.len()));
        }
        o
    }
    match m {
        M::Null => "null".into(),
        M::Bool(b) => b.to_string(),
        M::Int(i) => i.to_string(),
        M::Num(f) => format!("{f:?}f"),
        M::Tok(t) => t.clone(),
        M::Str(s) => format!("({})", bytes(s)),
        M::Text(s) => format!("text{s:?}"),
        M::LangText(v) => format!("langtext{v:?}"),
        M::Name(n) => format!("/{}", bytes(n)),
        M::Arr(v) => {
            let mut o = String::from("[");
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                if i == 40 {
                    o.push_str(&format!("..({} items)", v.len()));
                    break;
                }
                o.push_str(&show(x));
            }
            o + "]"
        }
        M::Dict(d) => {
            let mut o = String::from("<<");
            for (k, v) in d {
                o.push_str(&format!(" /{} {}", bytes(k), show(v)));
                if o.len() > 2000 {
                    o.push_str(" ...");
                    break;
                }
            }
            o + " >>"
        }
        M::Ref(i) => format!("{i} 0 R"),
        M::RefTok(i, g) => format!("{i} {g} R"),
        M::OneOf(v) => v.iter().map(show).collect::<Vec<_>>().join("|"),
    }
}

// ---------------------------------------------------------------- comparison

/// Compare an expectation with a parsed value. Dictionaries compare as
/// unordered collections of entries (entries sharing a key keep their order).
pub fn check(exp: &M, got: &M) -> Result<(), String> {
    check_at("", exp, got)
}

fn mismatch(at: &str, exp: &M, got: &M) -> Result<(), String> {
    Err(format!("at {}: expected {}, read {}", if at.is_empty() { "/" } else { at }, show(exp), show(got)))
}

pub fn is_int_token(t: &str) -> bool {
    let b = t.as_bytes();
    let d = if matches!(b.first(), Some(b'+' | b'-')) { &b[1..] } else { b };
    !d.is_empty() && d.iter().all(|c| c.is_ascii_digit())
}

pub fn tok_f32(t: &str) -> Option<f32> {
    // Grammar is checked by the tokenizer; Rust reads decimal text exactly.
    t.parse::<f32>().ok()
}

fn check_at(at: &str, exp: &M, got: &M) -> Result<(), String> {
    let ok = match (exp, got) {
        (M::OneOf(v), g) => {
            if v.iter().any(|e| check_at(at, e, g).is_ok()) {
                true
            } else {
                false
            }
        }
        (M::Null, M::Null) => true,
        (M::Bool(a), M::Bool(b)) => a == b,
        (M::Int(a), M::Tok(t)) => is_int_token(t) && t.parse::<i64>() == Ok(*a),
        (M::Num(a), M::Tok(t)) => tok_f32(t).is_some_and(|b| *a == b),
        (M::Str(a), M::Str(b)) => a == b,
        (M::Text(a), M::Str(b)) => match decode_text(b) {
            Ok(s) => &s == a,
            Err(e) => return Err(format!("at {at}: {e}; expected {}", show(exp))),
        },
        (M::LangText(a), M::Str(b)) => &lang_text_bytes(a) == b,
        (M::Name(a), M::Name(b)) => a == b,
        (M::Ref(a), M::RefTok(i, g)) => a == i && *g == 0,
        (M::Arr(a), M::Arr(b)) => {
            if a.len() != b.len() {
                return Err(format!(
                    "at {at}: expected {} array items, read {}: expected {}, read {}",
                    a.len(), b.len(), show(exp), show(got)
                ));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                check_at(&format!("{at}[{i}]"), x, y)?;
            }
            true
        }
        (M::Dict(a), M::Dict(b)) => {
            let key = |k: &Vec<u8>| String::from_utf8_lossy(k).into_owned();
            let mut used = vec![false; b.len()];
            // The entries of each key, the first one last.
            let mut by_key: HashMap<&[u8], Vec<usize>> = HashMap::new();
            for (j, (k, _)) in b.iter().enumerate().rev() {
                by_key.entry(k).or_default().push(j);
            }
            for (k, v) in a {
                let j = by_key.get_mut(&k[..]).and_then(Vec::pop);
                match j {
                    Some(j) => {
                        used[j] = true;
                        check_at(&format!("{at}/{}", key(k)), v, &b[j].1)?;
                    }
                    None => {
                        return Err(format!(
                            "at {at}: entry /{} ({}) is missing; read {}",
                            key(k), show(v), show(got)
                        ))
                    }
                }
            }
            if let Some(j) = used.iter().position(|u| !u) {
                return Err(format!(
                    "at {at}: unexpected entry /{} {}; expected {}",
                    key(&b[j].0), show(&b[j].1), show(exp)
                ));
            }
            true
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        mismatch(at, exp, got)
    }
}

/// Structural equality of two parsed values (numbers by value).
pub fn same(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Tok(x), M::Tok(y)) => {
            x == y || (is_int_token(x) == is_int_token(y) && x.parse::<f64>() == y.parse::<f64>())
        }
        (M::Arr(x), M::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (M::Dict(x), M::Dict(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1))
        }
        _ => a == b,
    }
}

// ------------------------------------------------------------- text strings

/// Decode a PDF text string (7.9.2.2).
pub fn decode_text(b: &[u8]) -> Result<String, String> {
    if b.starts_with(&[0xFE, 0xFF]) {
        let b = &b[2..];
        if b.len() % 2 != 0 {
            return Err("UTF-16BE text string has odd length".into());
        }
        let units: Vec<u16> = b.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
        let mut out = String::new();
        let mut i = 0;
        while i < units.len() {
            let u = units[i] as u32;
            if (0xD800..0xDC00).contains(&u) {
                let Some(&l) = units.get(i + 1) else {
                    return Err("truncated surrogate pair".into());
                };
                let l = l as u32;
                if !(0xDC00..0xE000).contains(&l) {
                    return Err("unpaired high surrogate".into());
                }
                let c = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                out.push(char::from_u32(c).unwrap());
                i += 2;
            } else {
                match char::from_u32(u) {
                    Some(c) => out.push(c),
                    None => return Err("unpaired low surrogate".into()),
                }
                i += 1;
            }
        }
        return Ok(out);
    }
    if b.starts_with(&[0xEF, 0xBB, 0xBF]) {
        return String::from_utf8(b[3..].to_vec()).map_err(|_| "bad UTF-8".into());
    }
    let mut out = String::new();
    for &c in b {
        out.push(pdf_doc(c).ok_or(format!("byte {c:02x} is undefined in PDFDocEncoding"))?);
    }
    Ok(out)
}

fn pdf_doc(c: u8) -> Option<char> {
    const LOW: [char; 8] = ['\u{2D8}', '\u{2C7}', '\u{2C6}', '\u{2D9}', '\u{2DD}', '\u{2DB}', '\u{2DA}', '\u{2DC}'];
    const MID: [u32; 33] = [
        0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212,
        0x2030, 0x201E, 0x201C, 0x201D, 0x2018, 0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141,
        0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E, 0, 0x20AC,
    ];
    Some(match c {
        9 | 10 | 13 => c as char,
        0x18..=0x1F => LOW[(c - 0x18) as usize],
        0x20..=0x7E => c as char,
        0x80..=0xA0 if c != 0x9F => char::from_u32(MID[(c - 0x80) as usize])?,
        0xA1..=0xFF if c != 0xAD => c as char,
        _ => return None,
    })
}

pub fn utf16be(s: &str) -> Vec<u8> {
    let mut o = Vec::new();
    for c in s.chars() {
        let c = c as u32;
        let mut unit = |u: u32| {
            o.push((u >> 8) as u8);
            o.push(u as u8);
        };
        if c >= 0x10000 {
            unit(0xD800 + ((c - 0x10000) >> 10));
            unit(0xDC00 + ((c - 0x10000) & 0x3FF));
        } else {
            unit(c);
        }
    }
    o
}

/// 7.9.2.2: ESC, language code, optional country code, ESC, then the text.
pub fn lang_text_bytes(segs: &[([u8; 2], Option<[u8; 2]>, String)]) -> Vec<u8> {
    let mut o = vec![0xFE, 0xFF];
    for (l, r, t) in segs {
        o.extend([0, 0x1B, 0, l[0], 0, l[1]]);
        if let Some(r) = r {
            o.extend([0, r[0], 0, r[1]]);
        }
        o.extend([0, 0x1B]);
        o.extend(utf16be(t));
    }
    o
}

// --------------------------------------------------------------- tokenizer

pub fn is_ws(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
pub fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
pub fn is_regular(b: u8) -> bool {
    !is_ws(b) && !is_delim(b)
}

pub struct Parser<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

fn number_ok(t: &[u8]) -> bool {
    let d = if matches!(t.first(), Some(b'+' | b'-')) { &t[1..] } else { t };
    let dots = d.iter().filter(|&&c| c == b'.').count();
    let digits = d.iter().filter(|c| c.is_ascii_digit()).count();
    dots <= 1 && digits >= 1 && dots + digits == d.len()
}

impl<'a> Parser<'a> {
    pub fn new(b: &'a [u8], pos: usize) -> Self {
        Self { b, pos }
    }

    pub fn err<T>(&self, m: impl AsRef<str>) -> Result<T, String> {
        let lo = self.pos.saturating_sub(30);
        let hi = (self.pos + 30).min(self.b.len());
        Err(format!(
            "{} at byte {} (near {:?} ^ {:?})",
            m.as_ref(),
            self.pos,
            String::from_utf8_lossy(&self.b[lo.min(hi)..self.pos.min(hi)]),
            String::from_utf8_lossy(&self.b[self.pos.min(hi)..hi])
        ))
    }

    pub fn skip_ws(&mut self) {
        while let Some(&c) = self.b.get(self.pos) {
            if is_ws(c) {
                self.pos += 1;
            } else if c == b'%' {
                while let Some(&c) = self.b.get(self.pos) {
                    if c == b'\n' || c == b'\r' {
                        break;
                    }
                    self.pos += 1;
                }
            } else {
                break;
            }
        }
    }

    pub fn at_end(&mut self) -> bool {
        self.skip_ws();
        self.pos >= self.b.len()
    }

    pub fn peek(&self) -> Option<u8> {
        self.b.get(self.pos).copied()
    }

    fn regular_run(&mut self) -> &'a [u8] {
        let s = self.pos;
        while self.peek().is_some_and(is_regular) {
            self.pos += 1;
        }
        &self.b[s..self.pos]
    }

    pub fn keyword(&mut self, k: &str) -> Result<(), String> {
        self.skip_ws();
        let save = self.pos;
        let r = self.regular_run();
        if r == k.as_bytes() {
            Ok(())
        } else {
            self.pos = save;
            self.err(format!("expected keyword {k:?}"))
        }
    }

    pub fn uint(&mut self) -> Result<i64, String> {
        self.skip_ws();
        let save = self.pos;
        let r = self.regular_run();
        if !r.is_empty() && r.iter().all(|c| c.is_ascii_digit()) {
            if let Ok(v) = std::str::from_utf8(r).unwrap().parse() {
                return Ok(v);
            }
        }
        self.pos = save;
        self.err("expected an unsigned integer")
    }

    /// Parse one object.
    pub fn value(&mut self) -> Result<M, String> {
        match self.value_or_op()? {
            Lexed::Val(v) => Ok(v),
            Lexed::Op(o) => self.err(format!("unexpected keyword {o:?}")),
        }
    }

    fn name(&mut self) -> Result<Vec<u8>, String> {
        debug_assert_eq!(self.peek(), Some(b'/'));
        self.pos += 1;
        let raw = self.regular_run();
        let mut o = Vec::with_capacity(raw.len());
        let mut i = 0;
        while i < raw.len() {
            let c = raw[i];
            if !(b'!'..=b'~').contains(&c) {
                return self.err("unescaped non-printable byte in a name");
            }
            if c == b'#' {
                let h = |k: usize| raw.get(k).and_then(|&c| (c as char).to_digit(16));
                match (h(i + 1), h(i + 2)) {
                    (Some(a), Some(b)) => o.push((a * 16 + b) as u8),
                    _ => return self.err("bad # escape in a name"),
                }
                i += 3;
            } else {
                o.push(c);
                i += 1;
            }
        }
        Ok(o)
    }

    fn literal(&mut self) -> Result<Vec<u8>, String> {
        self.pos += 1;
        let mut depth = 1;
        let mut o = Vec::new();
        loop {
            let Some(c) = self.peek() else { return self.err("unterminated string") };
            self.pos += 1;
            match c {
                b'(' => {
                    depth += 1;
                    o.push(c);
                }
                b')' => {
                    depth -= 1;
                    if depth == 0 {
                        return Ok(o);
                    }
                    o.push(c);
                }
                b'\r' => {
                    // An unescaped end-of-line marker reads as a line feed.
                    if self.peek() == Some(b'\n') {
                        self.pos += 1;
                    }
                    o.push(b'\n');
                }
                b'\\' => {
                    let Some(e) = self.peek() else { return self.err("unterminated string") };
                    self.pos += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b'r' => o.push(b'\r'),
                        b't' => o.push(b'\t'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            for _ in 0..2 {
                                match self.peek() {
                                    Some(d @ b'0'..=b'7') => {
                                        v = v * 8 + (d - b'0') as u32;
                                        self.pos += 1;
                                    }
                                    _ => break,
                                }
                            }
                            o.push(v as u8);
                        }
                        b'\r' => {
                            if self.peek() == Some(b'\n') {
                                self.pos += 1;
                            }
                        }
                        b'\n' => {}
                        other => o.push(other),
                    }
                }
                _ => o.push(c),
            }
        }
    }

    fn hex(&mut self) -> Result<Vec<u8>, String> {
        self.pos += 1;
        let mut digits = Vec::new();
        loop {
            let Some(c) = self.peek() else { return self.err("unterminated hex string") };
            self.pos += 1;
            if c == b'>' {
                break;
            }
            if is_ws(c) {
                continue;
            }
            match (c as char).to_digit(16) {
                Some(d) => digits.push(d as u8),
                None => return self.err("bad digit in a hex string"),
            }
        }
        if digits.len() % 2 == 1 {
            digits.push(0);
        }
        Ok(digits.chunks(2).map(|p| p[0] << 4 | p[1]).collect())
    }

    pub fn value_or_op(&mut self) -> Result<Lexed, String> {
        self.skip_ws();
        let Some(c) = self.peek() else { return self.err("unexpected end") };
        Ok(Lexed::Val(match c {
            b'/' => M::Name(self.name()?),
            b'(' => M::Str(self.literal()?),
            b'<' if self.b.get(self.pos + 1) == Some(&b'<') => {
                self.pos += 2;
                let mut d = Vec::new();
                loop {
                    self.skip_ws();
                    match self.peek() {
                        Some(b'/') => {
                            let k = self.name()?;
                            let v = self.value()?;
                            d.push((k, v));
                        }
                        Some(b'>') if self.b.get(self.pos + 1) == Some(&b'>') => {
                            self.pos += 2;
                            break;
                        }
                        _ => return self.err("expected a dictionary key or >>"),
                    }
                }
                M::Dict(d)
            }
            b'<' => M::Str(self.hex()?),
            b'[' => {
                self.pos += 1;
                let mut v = Vec::new();
                loop {
                    self.skip_ws();
                    if self.peek() == Some(b']') {
                        self.pos += 1;
                        break;
                    }
                    v.push(self.value()?);
                }
                M::Arr(v)
            }
            c if is_regular(c) => {
                let save = self.pos;
                let r = self.regular_run();
                match r {
                    b"true" => M::Bool(true),
                    b"false" => M::Bool(false),
                    b"null" => M::Null,
                    _ if number_ok(r) => {
                        let t = String::from_utf8(r.to_vec()).unwrap();
                        let after = self.pos;
                        // A reference is `int int R`.
                        if r.iter().all(|c| c.is_ascii_digit()) {
                            self.skip_ws();
                            let g = self.regular_run();
                            if !g.is_empty() && g.iter().all(|c| c.is_ascii_digit()) && g.len() <= 5 {
                                let g: i64 = std::str::from_utf8(g).unwrap().parse().unwrap();
                                self.skip_ws();
                                if self.regular_run() == b"R" {
                                    if let Ok(i) = t.parse::<i64>() {
                                        return Ok(Lexed::Val(M::RefTok(i, g)));
                                    }
                                }
                            }
                            self.pos = after;
                        }
                        M::Tok(t)
                    }
                    _ => {
                        let first = r[0];
                        if first.is_ascii_digit() || matches!(first, b'+' | b'-' | b'.') {
                            self.pos = save;
                            return self.err(format!("malformed number {:?}", String::from_utf8_lossy(r)));
                        }
                        return Ok(Lexed::Op(String::from_utf8_lossy(r).into_owned()));
                    }
                }
            }
            _ => return self.err("unexpected delimiter"),
        }))
    }
}

pub enum Lexed {
    Val(M),
    Op(String),
}

/// Parse a whole buffer holding exactly one object.
pub fn parse_one(b: &[u8]) -> Result<M, String> {
    let mut p = Parser::new(b, 0);
    let v = p.value()?;
    if !p.at_end() {
        return p.err("trailing data after the object");
    }
    Ok(v)
}

/// Parse a content stream into operations.
pub fn parse_content(b: &[u8]) -> Result<Vec<(String, Vec<M>)>, String> {
    let mut p = Parser::new(b, 0);
    let mut out = Vec::new();
    let mut args = Vec::new();
    while !p.at_end() {
        match p.value_or_op()? {
            Lexed::Val(v) => args.push(v),
            Lexed::Op(o) => out.push((o, std::mem::take(&mut args))),
        }
    }
    if !args.is_empty() {
        return p.err("operands without an operator");
    }
    Ok(out)
}

// -------------------------------------------------------- indirect objects

#[derive(Debug, Clone)]
pub struct Indirect {
    pub id: i64,
    pub gen: i64,
    pub value: M,
    pub stream: Option<Vec<u8>>,
    pub start: usize,
    pub end: usize,
}

impl<'a> Parser<'a> {
    /// Parse `id gen obj ... endobj` starting exactly at the current position.
    pub fn indirect(&mut self) -> Result<Indirect, String> {
        let start = self.pos;
        if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
            return self.err("expected an object number here");
        }
        let id = self.uint()?;
        let gen = self.uint()?;
        self.keyword("obj")?;
        let value = self.value()?;
        self.skip_ws();
        let mut stream = None;
        if self.b[self.pos..].starts_with(b"stream") {
            self.pos += 6;
            match (self.peek(), self.b.get(self.pos + 1)) {
                (Some(b'\n'), _) => self.pos += 1,
                (Some(b'\r'), Some(b'\n')) => self.pos += 2,
                _ => return self.err("`stream` must be followed by an end of line"),
            }
            let M::Dict(d) = &value else { return self.err("stream without a dictionary") };
            let lens: Vec<_> = d.iter().filter(|(k, _)| k == b"Length").collect();
            let [(_, M::Tok(len))] = lens[..] else {
                return self.err("stream dictionary needs exactly one direct /Length");
            };
            let len: usize = match len.parse() {
                Ok(l) => l,
                Err(_) => return self.err("bad /Length"),
            };
            if self.pos + len > self.b.len() {
                return self.err("/Length runs past the end");
            }
            stream = Some(self.b[self.pos..self.pos + len].to_vec());
            self.pos += len;
            match self.peek() {
                Some(b'\n') => self.pos += 1,
                Some(b'\r') => {
                    self.pos += 1;
                    if self.peek() == Some(b'\n') {
                        self.pos += 1;
                    }
                }
                _ => return self.err("no end of line after the stream data"),
            }
            if !self.b[self.pos..].starts_with(b"endstream") {
                return self.err("`endstream` does not follow the stream data");
            }
            self.keyword("endstream")?;
        }
        self.keyword("endobj")?;
        Ok(Indirect { id, gen, value, stream, start, end: self.pos })
    }
}

/// Parse a chunk: a sequence of indirect objects and nothing else.
pub fn parse_chunk(b: &[u8]) -> Result<Vec<Indirect>, String> {
    let mut p = Parser::new(b, 0);
    let mut out = Vec::new();
    loop {
        // Only white space may separate objects (not comments).
        while p.peek().is_some_and(is_ws) {
            p.pos += 1;
        }
        if p.pos >= b.len() {
            return Ok(out);
        }
        out.push(p.indirect()?);
    }
}

pub fn get<'m>(m: &'m M, key: &str) -> Option<&'m M> {
    match m {
        M::Dict(d) => d.iter().find(|(k, _)| k == key.as_bytes()).map(|(_, v)| v),
        _ => None,
    }
}

// --------------------------------------------------------- whole documents

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum XEntry {
    Free { next: u64, gen: u64 },
    Used { offset: u64, gen: u64 },
}

#[derive(Debug)]
pub struct Doc {
    pub version: (u8, u8),
    pub marker: [u8; 4],
    pub entries: Vec<XEntry>,
    pub trailer: M,
    pub objects: Vec<Indirect>,
    pub startxref: usize,
    /// Raw bytes of the cross-reference stream (before filters).
    pub xref_data: Option<Vec<u8>>,
}

fn find_startxref(b: &[u8]) -> Result<usize, String> {
    // Read backwards the way a reader does: %%EOF, the offset, `startxref`.
    let tail = b.len();
    let body = b.strip_suffix(b"%%EOF").or_else(|| b.strip_suffix(b"%%EOF\n")).ok_or("file does not end in %%EOF")?;
    let mut e = body.len();
    while e > 0 && is_ws(body[e - 1]) {
        e -= 1;
    }
    if e == body.len() {
        return Err("%%EOF is not on a line of its own".into());
    }
    let mut s = e;
    while s > 0 && body[s - 1].is_ascii_digit() {
        s -= 1;
    }
    let off: usize = std::str::from_utf8(&body[s..e]).unwrap().parse().map_err(|_| "no startxref offset")?;
    let mut k = s;
    while k > 0 && is_ws(body[k - 1]) {
        k -= 1;
    }
    if k == s || !body[..k].ends_with(b"startxref") {
        return Err("`startxref` keyword missing".into());
    }
    if k > 9 && !is_ws(body[k - 10]) && body[k - 10] != b'>' {
        return Err("`startxref` is glued to the preceding token".into());
    }
    if off >= tail {
        return Err("startxref points outside the file".into());
    }
    Ok(off)
}

fn header(b: &[u8]) -> Result<((u8, u8), [u8; 4]), String> {
    if b.len() < 15 || !b.starts_with(b"%PDF-") || b[6] != b'.' || b[8] != b'\n' || b[9] != b'%' {
        return Err(format!("bad header {:?}", String::from_utf8_lossy(&b[..b.len().min(16)])));
    }
    if !b[5].is_ascii_digit() || !b[7].is_ascii_digit() || b[14] != b'\n' {
        return Err("bad header version or marker line".into());
    }
    Ok(((b[5] - b'0', b[7] - b'0'), [b[10], b[11], b[12], b[13]]))
}

/// Read a document with a cross-reference table.
pub fn read_table_doc(b: &[u8]) -> Result<Doc, String> {
    let (version, marker) = header(b)?;
    let (startxref, entries, trailer) = read_table(b)?;
    let objects = read_objects(b, &entries, startxref)?;
    Ok(Doc { version, marker, entries, trailer, objects, startxref, xref_data: None })
}

/// Read only the table and trailer: where it starts, its rows, the trailer.
pub fn read_table(b: &[u8]) -> Result<(usize, Vec<XEntry>, M), String> {
    let startxref = find_startxref(b)?;
    let mut p = Parser::new(b, startxref);
    if !b[startxref..].starts_with(b"xref\n") {
        return p.err("startxref does not point at an xref table");
    }
    p.pos += 5;
    let line_end = b[p.pos..].iter().position(|&c| c == b'\n').ok_or("xref header line")? + p.pos;
    let line = std::str::from_utf8(&b[p.pos..line_end]).map_err(|_| "xref header")?;
    let (a, n) = line.split_once(' ').ok_or("xref subsection header")?;
    if a != "0" {
        return Err(format!("xref section starts at {a}, not 0"));
    }
    let n: usize = n.trim_end().parse().map_err(|_| "xref count")?;
    p.pos = line_end + 1;
    let mut entries = Vec::new();
    for i in 0..n {
        let Some(e) = b.get(p.pos..p.pos + 20) else {
            return p.err(format!("xref entry {i} of {n} is cut off"));
        };
        let ok = e[..10].iter().all(|c| c.is_ascii_digit())
            && e[10] == b' '
            && e[11..16].iter().all(|c| c.is_ascii_digit())
            && e[16] == b' '
            && matches!(&e[18..], b"\r\n" | b" \n" | b" \r");
        if !ok {
            return p.err(format!("malformed xref entry {i}"));
        }
        let num = |r: &[u8]| std::str::from_utf8(r).unwrap().parse::<u64>().unwrap();
        entries.push(match e[17] {
            b'n' => XEntry::Used { offset: num(&e[..10]), gen: num(&e[11..16]) },
            b'f' => XEntry::Free { next: num(&e[..10]), gen: num(&e[11..16]) },
            _ => return p.err(format!("xref entry {i} is neither n nor f")),
        });
        p.pos += 20;
    }
    p.keyword("trailer")?;
    let trailer = p.value()?;
    p.keyword("startxref")?;
    Ok((startxref, entries, trailer))
}

fn read_objects(b: &[u8], entries: &[XEntry], limit: usize) -> Result<Vec<Indirect>, String> {
    let mut objects = Vec::new();
    for (id, e) in entries.iter().enumerate() {
        if let XEntry::Used { offset, gen } = e {
            let mut p = Parser::new(b, *offset as usize);
            if *offset as usize > limit {
                return Err(format!("object {id} at {offset} lies behind the xref"));
            }
            let o = p.indirect().map_err(|e| format!("object {id} (xref offset {offset}): {e}"))?;
            if o.id != id as i64 || o.gen as u64 != *gen {
                return Err(format!(
                    "xref entry {id} gen {gen} points at object {} gen {}",
                    o.id, o.gen
                ));
            }
            objects.push(o);
        }
    }
    // The objects must tile the body: nothing between them but white space.
    let mut by_pos: Vec<&Indirect> = objects.iter().collect();
    by_pos.sort_by_key(|o| o.start);
    let mut at = 15;
    for o in by_pos {
        if o.start < at {
            return Err(format!("object {} overlaps its predecessor", o.id));
        }
        if b[at..o.start].iter().any(|&c| !is_ws(c)) {
            return Err(format!("bytes before object {} belong to no object in the xref", o.id));
        }
        at = o.end;
    }
    if at < limit && b[at..limit].iter().any(|&c| !is_ws(c)) {
        return Err("bytes before the xref belong to no object in it".into());
    }
    Ok(objects)
}

pub fn int_of(m: Option<&M>) -> Option<i64> {
    match m {
        Some(M::Tok(t)) if is_int_token(t) => t.parse().ok(),
        _ => None,
    }
}

/// Read a document with a cross-reference stream. `decode` undoes the filter.
pub fn read_stream_doc(b: &[u8], decode: impl FnOnce(&[u8]) -> Vec<u8>) -> Result<Doc, String> {
    let (version, marker) = header(b)?;
    let (xr, entries, startxref, data) = read_xref_stream(b, decode)?;
    let objects = read_objects(b, &entries, startxref)?;
    Ok(Doc { version, marker, entries, trailer: xr.value, objects, startxref, xref_data: Some(data) })
}

/// Read only the cross-reference stream: the object, its rows, where it
/// starts, the decoded data.
pub fn read_xref_stream(
    b: &[u8],
    decode: impl FnOnce(&[u8]) -> Vec<u8>,
) -> Result<(Indirect, Vec<XEntry>, usize, Vec<u8>), String> {
    let startxref = find_startxref(b)?;
    let mut p = Parser::new(b, startxref);
    let xr = p.indirect().map_err(|e| format!("xref stream: {e}"))?;
    p.keyword("startxref")?;
    let d = &xr.value;
    if get(d, "Type") != Some(&name("XRef")) {
        return Err(format!("xref stream lacks /Type /XRef: {}", show(d)));
    }
    let Some(stream) = &xr.stream else { return Err("xref object is not a stream".into()) };
    let data = decode(stream);
    let size = int_of(get(d, "Size")).ok_or("xref stream lacks /Size")?;
    let Some(M::Arr(w)) = get(d, "W") else { return Err("xref stream lacks /W".into()) };
    let w: Vec<usize> = w.iter().map(|x| int_of(Some(x)).unwrap_or(-1)).map(|x| x as usize).collect();
    if w.len() != 3 || w.iter().any(|&x| x > 8) {
        return Err(format!("bad /W {w:?}"));
    }
    let index: Vec<(i64, i64)> = match get(d, "Index") {
        None => vec![(0, size)],
        Some(M::Arr(v)) => {
            v.chunks(2).map(|c| (int_of(c.first()).unwrap_or(-1), int_of(c.get(1)).unwrap_or(-1))).collect()
        }
        _ => return Err("bad /Index".into()),
    };
    if index != [(0, size)] {
        return Err(format!("xref stream must cover objects 0..{size}, has index {index:?}"));
    }
    let width: usize = w.iter().sum();
    if data.len() != width * size as usize {
        return Err(format!("xref stream data has {} bytes, /Size {size} with /W {w:?} needs {}", data.len(), width * size as usize));
    }
    let mut entries = Vec::new();
    for rec in data.chunks(width) {
        let f = |lo: usize, n: usize| rec[lo..lo + n].iter().fold(0u64, |a, &c| a << 8 | c as u64);
        let t = if w[0] == 0 { 1 } else { f(0, w[0]) };
        let a = f(w[0], w[1]);
        let g = f(w[0] + w[1], w[2]);
        entries.push(match t {
            0 => XEntry::Free { next: a, gen: g },
            1 => XEntry::Used { offset: a, gen: g },
            t => return Err(format!("unexpected xref entry type {t}")),
        });
    }
    Ok((xr, entries, startxref, data))
}

/// The free entries form the ascending linked list that starts and ends at 0.
pub fn check_free_list(entries: &[XEntry]) -> Result<(), String> {
    let Some(XEntry::Free { gen, .. }) = entries.first() else {
        return Err("entry 0 is not free".into());
    };
    if *gen != 65535 {
        return Err(format!("entry 0 has generation {gen}"));
    }
    let free: Vec<usize> =
        entries.iter().enumerate().filter(|(_, e)| matches!(e, XEntry::Free { .. })).map(|(i, _)| i).collect();
    let mut visited = vec![false; entries.len()];
    let mut at = 0usize;
    loop {
        if visited[at] {
            return Err(format!("free list loops at {at} without returning to 0"));
        }
        visited[at] = true;
        match &entries[at] {
            XEntry::Free { next, .. } => {
                if *next == 0 {
                    break;
                }
                if *next as usize >= entries.len() {
                    return Err(format!("free entry {at} links to {next}, beyond the table"));
                }
                at = *next as usize;
            }
            XEntry::Used { .. } => return Err(format!("free list runs into object {at}, which is in use")),
        }
    }
    for f in free {
        if !visited[f] {
            return Err(format!("free entry {f} is not on the free list"));
        }
    }
    Ok(())
}
