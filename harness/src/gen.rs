//! Generators for primitive values, biased towards boundaries, and the macros
//! that drive typed writers while building the expected dictionary.

use crate::engine::Src;
use crate::pdf::{D, M};
use pdf_writer::*;

/// A text argument: plain or with language tags.
#[derive(Debug, Clone)]
pub enum TextArg {
    Plain(String),
    Lang(Vec<([u8; 2], Option<[u8; 2]>, String)>),
}

impl TextArg {
    pub fn model(&self) -> M {
        match self {
            TextArg::Plain(s) => M::Text(s.clone()),
            TextArg::Lang(v) => M::LangText(v.clone()),
        }
    }
}

pub fn lang_id(l: &[u8; 2], r: &Option<[u8; 2]>) -> LanguageIdentifier {
    LanguageIdentifier::new(*l, *r)
}

pub const INTS: [i32; 44] = [
    0, 1, -1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 9999, 10000,
    32767, 32768, -32768, -32769, 65535, 65536, 99999, 100000, 999999, 1000000, 9999999, 10000000,
    16777215, 16777216, 16777217, 99999999, 100000000, 999999999, 1000000000, i32::MAX, i32::MIN,
    i32::MAX - 1, i32::MIN + 1, -10,
];

pub const FLOATS: [f32; 66] = [
    0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 0.01, 0.001, 1e-4, 1e-5, 1e-6, 1.0000001e-6, 9.999999e-7, 1e-7,
    -1e-6, -1e-7, 1e-10, 1e-20, 1e-37, 1.17549435e-38, 1e-45, -1e-45, 5.877472e-39, 0.3333333,
    0.99999994, 1.0000001, 2.5, 3.14159, 100.25, 12345.678, 65535.5, 1e6, 8388607.5, 16777216.0,
    16777218.0, 2147483500.0, 2147483600.0, 2147483648.0, -2147483648.0, -2147483904.0, 4294967296.0,
    1e10, 9.999999e11, 1e12, 1.0000001e12, -1e12, 1e13, 1e15, 1e16, 1e17, 1e20, 1e30, 3.4e38,
    f32::MAX, f32::MIN, -0.0, 0.75, -0.25, 595.0, 842.0, 595.276, 841.89, 1e9, 9.5e-7, 1e11, 9e15,
];

const TOKENS: [&[u8]; 26] = [
    b"endobj", b"1 0 R", b"stream\n", b"endstream", b"obj", b"12 0 obj", b" R ", b"R", b"(", b")",
    b"\\", b"<<", b">>", b"%", b"\r\n", b"\n", b"\\(", b"()", b"true", b"/Name", b"#20", b"]", b"[",
    b"trailer", b">>\nstream\n", b" 0 R",
];

/// Sizes around the limits of narrow counters.
pub const HUGE: [usize; 16] = [
    600, 1023, 1025, 2000, 4095, 4096, 4097, 8193, 10000, 16385, 32767, 32768, 32769, 65535, 65536, 70000,
];

/// The values generated last, to be used again.
#[derive(Clone, Default)]
pub struct Memory {
    mood: u64,
    left: u32,
    int: i32,
    num: f32,
    id: i32,
    bytes: Vec<u8>,
    name: Vec<u8>,
    text: String,
    /// What the sizes that are new in the sources come to so far.
    pub grown: i64,
}

/// What the next numbers are like. (One more: the last one, signs swapping.)
const ZEROS: u64 = 0;
const ONES: u64 = 1;
const SAME: u64 = 2;
const ZERO_ONE: u64 = 3;

/// Numbers a producer of PDFs uses often, in particular default values.
const USUAL_INTS: [i32; 40] = [
    2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15, 16, 24, 32, 45, 64, 72, 90, 96, 100, 127, 128, 180, 255, 256, 270, 300, 360, 400,
    500, 512, 600, 700, 720, 800, 900, 1000, 1024, -90, -1,
];
const USUAL_NUMS: [f32; 32] = [
    0.5, 0.1, 0.2, 0.25, 0.9505, 1.089, 1.0, 1.8, 2.2, 2.0, 3.0, 4.0, 9.0, 10.0, 12.0, 45.0, 72.0, 90.0, 100.0, 180.0,
    200.0, 255.0, 256.0, 270.0, 360.0, 500.0, 612.0, 792.0, 1000.0, -1.0, -100.0, -0.5,
];

/// Names and strings that mean something somewhere.
const WORDS: [&[u8]; 72] = [
    b"DeviceRGB", b"DeviceGray", b"DeviceCMYK", b"CalRGB", b"Lab", b"ICCBased", b"Indexed", b"Pattern", b"Separation",
    b"DeviceN", b"Identity", b"Identity-H", b"Identity-V", b"Default", b"DefaultRGB", b"None", b"All", b"Normal", b"Type",
    b"Subtype", b"Length", b"Filter", b"FlateDecode", b"XObject", b"Image", b"Form", b"Font", b"Page", b"Pages", b"Kids",
    b"Parent", b"Root", b"Size", b"Info", b"ID", b"W", b"Index", b"N", b"S", b"P", b"D", b"Yes", b"Off", b"On", b"Auto",
    b"Standard", b"Span", b"Artifact", b"Annots", b"Helvetica", b"Times-Roman", b"Symbol", b"ABCDEF+Font", b"Cyan",
    b"Black", b"Adobe", b"Japan1", b"UCS", b"sRGB", b"en-US", b"D:20200101", b"xref", b"startxref", b"trailer", b"%%EOF",
    b"BT", b"EI", b"ID ", b"EMC", b"q", b"Q", b"http://example.com/a?b=(c)", 
];

impl Src {
    /// A collection size: mostly small, now and then large.
    pub fn len(&mut self, big: usize) -> usize {
        if let Some(n) = self.new_size(20, 0, if big < 20 { 40 } else { 5000 }) {
            return n;
        }
        match self.below(16) {
            0..=9 => self.usize(0, 3),
            10..=13 => self.usize(0, 10),
            14 => self.usize(0, 40.min(big)),
            _ => {
                let edges = [99, 100, 101, 126, 127, 128, 200, 254, 255, 256, 257, 300, 511, 512, 1000];
                let e = *self.pick(&edges);
                if big >= 20 && self.one_in(1500) {
                    *self.pick(&[1023, 1025, 2000, 4097])
                } else if big <= 200 && self.one_in(6) {
                    e
                } else { e.min(big) }
            }
        }
    }

    /// How many parts something with parts has: up to `hi`, sometimes more.
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        if let Some(n) = self.new_size(30, lo as i64, 700) {
            return n;
        }
        match self.below(1200) {
            0 => *self.pick(&[31usize, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]),
            1..=24 => self.usize(hi + 1, hi + 20),
            _ => self.usize(lo, hi),
        }
    }

    /// A list of values. Very rarely one with tens of thousands of them, which
    /// repeat a few (so that the tape of choices stays short).
    pub fn several<T: Clone>(&mut self, big: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.len(big);
        let n = if big < 20 {
            return (0..n).map(|_| f(self)).collect();
        } else if let Some(n) = self.new_size(300, 30, 300_000) {
            n
        } else if self.one_in(5000) {
            *self.pick(&HUGE)
        } else {
            return (0..n).map(|_| f(self)).collect();
        };
        let k = self.usize(1, 20);
        let base: Vec<T> = (0..k).map(|_| f(self)).collect();
        let last = f(self);
        let mut v: Vec<T> = (0..n - 1).map(|i| base[i % k].clone()).collect();
        v.push(last);
        v
    }

    /// An integer: a fresh one, one that is usual somewhere in a PDF, or the
    /// last one again, so that arguments and consecutive calls agree at times.
    pub fn int(&mut self) -> i32 {
        if self.memory.left > 0 && self.memory.mood <= SAME {
            self.memory.left -= 1;
            return match self.memory.mood {
                ZEROS => 0,
                ONES => 1,
                _ => self.memory.int,
            };
        }
        let v = match self.below(24) {
            20 | 21 => *self.pick(&USUAL_INTS),
            22 => self.memory.int,
            23 => {
                self.change_mood();
                self.fresh_int()
            }
            _ => self.fresh_int(),
        };
        self.memory.int = v;
        v
    }

    fn change_mood(&mut self) {
        self.memory.mood = self.below(5);
        self.memory.left = self.below(12) as u32 + 1;
    }

    fn fresh_int(&mut self) -> i32 {
        if let Some(v) = self.new_int(12, i32::MIN as i64, i32::MAX as i64) {
            return v as i32;
        }
        match self.below(8) {
            0..=2 => self.range(0, 12) as i32,
            3 | 4 => *self.pick(&INTS),
            5 => self.range(-1000, 1000) as i32,
            _ => {
                let bits = self.below(32) as u32;
                let v = self.below(1u64 << 32) as u32;
                (v as i32) >> bits
            }
        }
    }

    /// A real number, see `int`.
    pub fn num(&mut self) -> f32 {
        if self.memory.left > 0 {
            self.memory.left -= 1;
            return match self.memory.mood {
                ZEROS => 0.0,
                ONES => 1.0,
                SAME => self.memory.num,
                ZERO_ONE => (1 - self.memory.left % 2) as f32,
                _ => -self.memory.num,
            };
        }
        let v = match self.below(24) {
            20 | 21 => *self.pick(&USUAL_NUMS),
            22 => self.memory.num,
            23 => {
                let v = self.fresh_num();
                self.memory.num = v;
                self.change_mood();
                v
            }
            _ => self.fresh_num(),
        };
        self.memory.num = v;
        v
    }

    /// A few numbers that belong together.
    pub fn arr<const N: usize>(&mut self) -> [f32; N] {
        let mut v: [f32; N] = std::array::from_fn(|_| self.num());
        let unit = |i: usize| if N == 6 && (i == 0 || i == 3) || N == 9 && i % 4 == 0 { 1.0 } else { 0.0 };
        let from = match self.below(16) {
            // A diagonal matrix, with the last numbers left in some.
            11 => 0,
            12 => N.saturating_sub(2),
            13 => {
                v = std::array::from_fn(|_| v[0]);
                N
            }
            14 => {
                v = std::array::from_fn(|i| if N % 2 == 0 { (i % 2) as f32 } else { 0.0 });
                N
            }
            15 => {
                v = std::array::from_fn(|i| if unit(i) == 1.0 { v[i] } else { 0.0 });
                N
            }
            _ => return v,
        };
        if from != N {
            for (i, x) in v.iter_mut().enumerate() {
                if i < from || from == 0 {
                    *x = unit(i);
                }
            }
        }
        v
    }

    fn fresh_num(&mut self) -> f32 {
        if let Some(v) = self.new_num(12) {
            return v;
        }
        match self.below(10) {
            0 | 1 => self.range(0, 12) as f32,
            2..=4 => *self.pick(&FLOATS),
            5 => self.range(-100000, 100000) as f32 / 100.0,
            6 => self.int() as f32,
            7 => {
                // A decade boundary, nudged by a few units in the last place.
                let e = self.range(-45, 38) as i32;
                let v = 10f64.powi(e) as f32;
                let n = self.range(-3, 3);
                let bits = (v.to_bits() as i64 + n).max(0) as u32;
                let v = f32::from_bits(bits);
                if v.is_finite() { v } else { f32::MAX }
            }
            _ => {
                let v = f32::from_bits(self.below(1u64 << 32) as u32);
                if v.is_finite() { v } else { 0.25 }
            }
        }
    }

    pub fn nums(&mut self, big: usize) -> Vec<f32> {
        self.several(big, |s| s.num())
    }

    pub fn ints(&mut self, big: usize) -> Vec<i32> {
        self.several(big, |s| s.int())
    }

    pub fn rf(&mut self) -> Ref {
        Ref::new(self.id())
    }

    /// The number of a reference.
    pub fn id(&mut self) -> i32 {
        if let Some(v) = self.new_int(16, 1, i32::MAX as i64) {
            return v as i32;
        }
        let v = match self.below(9) {
            8 => self.memory.id.max(1),
            0..=4 => self.range(1, 30) as i32,
            5 | 6 => (*self.pick(&INTS)).max(1),
            _ => self.range(1, i32::MAX as i64) as i32,
        };
        self.memory.id = v;
        v
    }

    pub fn refs(&mut self, big: usize) -> Vec<Ref> {
        self.several(big, |s| s.rf())
    }

    pub fn rect(&mut self) -> Rect {
        let [x1, y1, x2, y2] = self.rect_sides();
        Rect { x1, y1, x2, y2 }
    }

    pub fn rect_sides(&mut self) -> [f32; 4] {
        let [a, b, c, d] = [self.num(), self.num(), self.num(), self.num()];
        match self.below(24) {
            18 => [0.0; 4],
            19 => [0.0, 0.0, 1.0, 1.0],
            20 => [a, b, a, d],
            21 => [a, b, c, b],
            22 => [a, b, a, b],
            23 => [0.0, 0.0, 595.0, 842.0],
            _ => [a, b, c, d],
        }
    }

    pub fn bytes(&mut self, big: usize) -> Vec<u8> {
        let v = match self.below(24) {
            19 => self.memory.bytes.clone(),
            20 => {
                let n = self.usize(1, 40);
                vec![self.below(256) as u8; n]
            }
            21 => self.pick(&WORDS).to_vec(),
            22 => {
                let mut v = self.pick(&[&b"\xfe\xff"[..], b"\xff\xfe", b"\xef\xbb\xbf", b" ", b"\0"]).to_vec();
                v.extend(self.fresh_bytes(big));
                v
            }
            23 => {
                let mut v = self.fresh_bytes(big);
                v.extend(self.pick(&[&b" "[..], b"\n", b"\0", b"\r\n", b"\\"]).iter());
                v
            }
            _ => self.fresh_bytes(big),
        };
        if v.len() < 400 {
            self.memory.bytes.clone_from(&v);
        }
        v
    }

    fn fresh_bytes(&mut self, big: usize) -> Vec<u8> {
        if let Some(v) = self.new_text(16) {
            return v;
        }
        let kind = self.below(8);
        const NO: &[u8] = &[];
        let parts: Vec<(u8, &[u8])> = self.several(big, |s| match kind {
            0 | 1 => (s.range(32, 126) as u8, NO),
            2 => (*s.pick(b"()\\ab01789"), NO),
            3 => (*s.pick(b"\n\r\t\x08\x0c\x00\x0b\x1b\x7f017 ()\\a"), NO),
            4 => (s.below(256) as u8, NO),
            5 => {
                let t = *s.pick(&TOKENS);
                (t[0], &t[1..])
            }
            6 => (s.below(128) as u8, NO),
            _ => (*s.pick(b"#/%<>[]{}() \tRstream\xff\x80"), NO),
        });
        let mut o = Vec::new();
        for (b, rest) in parts {
            o.push(b);
            o.extend(rest);
        }
        o
    }

    pub fn name_bytes(&mut self) -> Vec<u8> {
        let v = match self.below(12) {
            10 => self.pick(&WORDS).to_vec(),
            11 => self.memory.name.clone(),
            _ => self.fresh_name(),
        };
        if v.len() < 400 {
            self.memory.name.clone_from(&v);
        }
        v
    }

    fn fresh_name(&mut self) -> Vec<u8> {
        if let Some(v) = self.new_text(16) {
            return v;
        }
        match self.below(6) {
            0..=2 => {
                const NAMES: [&[u8]; 20] = [
                    b"F1", b"Im0", b"GS", b"Name", b"R", b"stream", b"1", b"a.b", b"A;Name_With-Various***Characters?",
                    b"1.2", b"$$", b"@pattern", b"Lime Green", b"paired()parentheses", b"A#42", b"", b"0", b"true", b"obj", b"null",
                ];
                self.pick(&NAMES).to_vec()
            }
            _ => self.bytes(130),
        }
    }

    pub fn text(&mut self, big: usize) -> String {
        let v = match self.below(24) {
            19 | 20 => self.memory.text.clone(),
            21 => self.pick(&["en", "en-US", "D:20200101", "Untitled", " ", "(", "\u{feff}", "\u{fffe}", "Identity", "1.0", "0"]).to_string(),
            22 => format!("{}{}", self.pick(&["\u{feff}", " ", "\u{1b}en\u{1b}", "\u{0}", "D:"]), self.fresh_text(big)),
            23 => {
                let t = self.fresh_text(big);
                format!("{t}{}", self.pick(&[" ", "\n", "\u{0}", "\u{feff}", "\\", "\u{fe0f}"]))
            }
            _ => self.fresh_text(big),
        };
        if v.len() < 400 {
            self.memory.text.clone_from(&v);
        }
        v
    }

    fn fresh_text(&mut self, big: usize) -> String {
        if let Some(v) = self.new_text(16) {
            return String::from_utf8_lossy(&v).into_owned();
        }
        let kind = self.below(9);
        self.several(big, |s| match kind {
                0..=2 => s.range(32, 126) as u8 as char,
                3 => *s.pick(&['(', ')', '\\', '\n', '\r', '\t', ' ', '~', '}', '\u{7f}', 'a', '\u{1b}']),
                4 => char::from_u32(s.range(0xA0, 0x2FF) as u32).unwrap(),
                5 => *s.pick(&[
                    '\u{0}', '\u{1f}', '\u{80}', '\u{9f}', '\u{ad}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}',
                    '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{feff}', '\u{10000}', '\u{103ff}',
                    '\u{10400}', '\u{1f600}', '\u{10ffff}', '\u{20ac}', '\u{2022}',
                ]),
                6 => char::from_u32(s.range(0x10000, 0x10FFFF) as u32).unwrap(),
                7 => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
                _ => *s.pick(&['a', 'é', '漢', '😀', 'R', '1', '0', ' ']),
            })
            .into_iter()
            .collect()
    }

    pub fn lang_code(&mut self) -> [u8; 2] {
        const AL: &[u8] = b"deabzAZ019xy";
        [*self.pick(AL), *self.pick(AL)]
    }

    pub fn text_arg(&mut self) -> TextArg {
        if self.below(3) < 2 {
            TextArg::Plain(self.text(130))
        } else {
            let n = self.count(0, 4);
            TextArg::Lang(
                (0..n)
                    .map(|_| {
                        let l = self.lang_code();
                        let r = if self.coin() { Some(self.lang_code()) } else { None };
                        (l, r, self.text(40))
                    })
                    .collect(),
            )
        }
    }

    /// A date together with its expected text.
    pub fn date(&mut self) -> (Date, Vec<u8>) {
        let b = |s: &mut Src| match s.below(4) {
            0 => s.range(0, 9) as u8,
            1 => *s.pick(&[0u8, 1, 11, 12, 13, 22, 23, 24, 29, 30, 31, 32, 58, 59, 60, 99, 100, 127, 128, 254, 255]),
            _ => s.below(256) as u8,
        };
        let year = match self.below(3) {
            0 => self.range(1990, 2030) as u16,
            1 => *self.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 9998, 9999, 10000, 65535]),
            _ => self.below(65536) as u16,
        };
        let mut d = Date::new(year);
        // Setters in any order, a later call overriding an earlier one.
        let mut f: [Option<i32>; 7] = [None; 7];
        let mut order: Vec<usize> = Vec::new();
        if self.coin() {
            // A prefix of the fields, in order.
            let n = self.usize(0, 7);
            order.extend(0..n);
        } else {
            let n = self.usize(0, 9);
            for _ in 0..n {
                order.push(self.usize(0, 6));
            }
        }
        for k in order {
            let v = b(self);
            match k {
                0 => {
                    d = d.month(v);
                    f[0] = Some((v as i32).clamp(1, 12));
                }
                1 => {
                    d = d.day(v);
                    f[1] = Some((v as i32).clamp(1, 31));
                }
                2 => {
                    d = d.hour(v);
                    f[2] = Some((v as i32).min(23));
                }
                3 => {
                    d = d.minute(v);
                    f[3] = Some((v as i32).min(59));
                }
                4 => {
                    d = d.second(v);
                    f[4] = Some((v as i32).min(59));
                }
                5 => {
                    let v = match self.below(3) {
                        0 => self.range(-3, 3) as i8,
                        1 => *self.pick(&[0i8, 1, -1, 9, -9, 10, -10, 22, 23, 24, -22, -23, -24, 127, -128]),
                        _ => v as i8,
                    };
                    d = d.utc_offset_hour(v);
                    f[5] = Some((v as i32).clamp(-23, 23));
                }
                _ => {
                    d = d.utc_offset_minute(v);
                    f[6] = Some((v as i32).min(59));
                }
            }
        }
        let mut s = format!("D:{:04}", (year as u32).min(9999));
        let mut complete = true;
        for x in &f[..5] {
            match x {
                Some(v) => {
                    s += &format!("{}{}", v / 10, v % 10);
                }
                None => {
                    complete = false;
                    break;
                }
            }
        }
        if complete {
            if let Some(h) = f[5] {
                let m = f[6].unwrap_or(0);
                if h == 0 && m == 0 {
                    s.push('Z');
                } else {
                    let a = h.abs();
                    s += &format!("{}{}{}'{}{}", if h < 0 { '-' } else { '+' }, a / 10, a % 10, m / 10, m % 10);
                }
            }
        }
        (d, s.into_bytes())
    }

    pub fn pretty(&mut self) -> bool {
        !self.coin()
    }

    /// How many builder calls to make on a writer with `n` operations.
    pub fn nops(&mut self, n: u64) -> u64 {
        if let Some(n) = self.new_size(60, 1, 300) {
            return n as u64;
        }
        match self.below(12) {
            0 => 0,
            1..=6 => self.below(5) + 1,
            7..=9 => self.below(n.min(12)) + 1,
            10 => self.below(n) + 1,
            _ if self.one_in(40) => match self.below(8) {
                0 => 300,
                1 | 2 => 110,
                _ => n.max(40),
            },
            _ => n.min(60),
        }
    }

    /// Enter a nested writer: smaller and smaller with depth.
    pub fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let depth = self.depth;
        self.depth = depth.saturating_sub(1);
        let r = f(self);
        self.depth = depth;
        r
    }
}

/// An arbitrary direct object.
#[derive(Debug, Clone)]
pub enum Tree {
    Null,
    Bool(bool),
    Int(i32),
    Num(f32),
    Str(Vec<u8>),
    Text(TextArg),
    Name(Vec<u8>),
    Ref(Ref),
    Rect(Rect),
    Date(Date, Vec<u8>),
    Arr(Vec<Tree>),
    Dict(Vec<(Vec<u8>, Tree)>),
}

impl Tree {
    pub fn gen(s: &mut Src, depth: u32) -> Tree {
        let k = if depth == 0 { s.below(10) } else { s.below(14) };
        match k {
            0 => Tree::Null,
            1 => Tree::Bool(s.coin()),
            2 => Tree::Int(s.int()),
            3 => Tree::Num(s.num()),
            4 => Tree::Name(s.name_bytes()),
            5 => Tree::Str(s.bytes(130)),
            6 => Tree::Ref(s.rf()),
            7 => Tree::Text(s.text_arg()),
            8 => Tree::Rect(s.rect()),
            9 => {
                let (d, b) = s.date();
                Tree::Date(d, b)
            }
            10 | 11 => {
                let n = if depth > 2 { s.usize(0, 5) } else { s.len(130) };
                let mut v: Vec<Tree> = Vec::new();
                for i in 0..n {
                    // Equal neighbours now and then.
                    let t = if i > 0 && s.one_in(16) { v[i - 1].clone() } else { Tree::gen(s, depth - 1) };
                    v.push(t);
                }
                Tree::Arr(v)
            }
            _ => {
                let n = if depth > 2 { s.usize(0, 5) } else { s.len(130) };
                let mut v: Vec<(Vec<u8>, Tree)> = Vec::new();
                for i in 0..n {
                    let k = s.name_bytes();
                    let t = if i > 0 && s.one_in(16) { v[i - 1].1.clone() } else { Tree::gen(s, depth - 1) };
                    v.push((k, t));
                }
                Tree::Dict(v)
            }
        }
    }

    /// A tree that is deep or wide beyond what the generator gives; `None`
    /// most of the time.
    pub fn gen_extreme(s: &mut Src, rarely: u64) -> Option<Tree> {
        let rarely = if crate::lits::get().on { rarely.min(1000) } else { rarely };
        if !s.one_in(rarely) {
            return None;
        }
        if s.below(3) == 0 {
            let n = match s.new_size(2, 1, 300_000) {
                Some(n) => n,
                None => *s.pick(&HUGE),
            };
            let few: Vec<Tree> = (0..s.usize(1, 5))
                .map(|_| match s.below(5) {
                    0 => Tree::Int(s.int()),
                    1 => Tree::Ref(s.rf()),
                    2 => Tree::Name(b"N".to_vec()),
                    3 => Tree::Str(b"(".to_vec()),
                    _ => Tree::Null,
                })
                .collect();
            let item = |i: usize| few[i % few.len()].clone();
            return Some(if s.coin() {
                Tree::Arr((0..n).map(item).collect())
            } else {
                Tree::Dict((0..n).map(|i| (format!("K{i}").into_bytes(), item(i))).collect())
            });
        }
        let t = Tree::gen(s, 1);
        Some(t.buried(s))
    }

    /// The tree inside a deep chain of containers.
    pub fn buried(self, s: &mut Src) -> Tree {
        let mut t = self;
        let n = match s.new_size(3, 1, 1100) {
            Some(n) => n,
            None => match s.below(200) {
                0 => *s.pick(&[511usize, 513, 1000, 1025]),
                _ => *s.pick(&[10usize, 28, 60, 100, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300]),
            },
        };
        let kind = s.below(3);
        for i in 0..n {
            let arr = match kind {
                0 => true,
                1 => false,
                _ => i % 2 == 0,
            };
            t = if arr { Tree::Arr(vec![t]) } else { Tree::Dict(vec![(b"K".to_vec(), t)]) };
        }
        t
    }

    pub fn model(&self) -> M {
        match self {
            Tree::Null => M::Null,
            Tree::Bool(b) => M::Bool(*b),
            Tree::Int(i) => M::Int(*i as i64),
            Tree::Num(f) => M::Num(*f),
            Tree::Str(b) => M::Str(b.clone()),
            Tree::Text(t) => t.model(),
            Tree::Name(n) => M::Name(n.clone()),
            Tree::Ref(r) => M::Ref(r.get() as i64),
            Tree::Rect(r) => rect_m(*r),
            Tree::Date(_, b) => M::Str(b.clone()),
            Tree::Arr(v) => M::Arr(v.iter().map(|t| t.model()).collect()),
            Tree::Dict(v) => M::Dict(v.iter().map(|(k, t)| (k.clone(), t.model())).collect()),
        }
    }

    /// Roughly the number of bytes it takes.
    pub fn weight(&self) -> usize {
        match self {
            Tree::Arr(v) => 8 + v.iter().map(|t| t.weight()).sum::<usize>(),
            Tree::Dict(v) => 8 + v.iter().map(|(k, t)| k.len() + t.weight()).sum::<usize>(),
            Tree::Str(b) | Tree::Name(b) => 8 + b.len(),
            Tree::Text(TextArg::Plain(t)) => 8 + t.len(),
            Tree::Text(TextArg::Lang(v)) => 8 + v.iter().map(|x| 8 + x.2.len()).sum::<usize>(),
            _ => 8,
        }
    }

    /// Number of nodes.
    pub fn size(&self) -> usize {
        match self {
            Tree::Arr(v) => 1 + v.iter().map(|t| t.size()).sum::<usize>(),
            Tree::Dict(v) => 1 + v.iter().map(|(_, t)| t.size()).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn refs(&self, out: &mut Vec<i32>) {
        match self {
            Tree::Ref(r) => out.push(r.get()),
            Tree::Arr(v) => v.iter().for_each(|t| t.refs(out)),
            Tree::Dict(v) => v.iter().for_each(|(_, t)| t.refs(out)),
            _ => {}
        }
    }

    pub fn map_refs(&self, f: &mut dyn FnMut(i32) -> i32) -> Tree {
        match self {
            Tree::Ref(r) => Tree::Ref(Ref::new(f(r.get()))),
            Tree::Arr(v) => Tree::Arr(v.iter().map(|t| t.map_refs(f)).collect()),
            Tree::Dict(v) => Tree::Dict(v.iter().map(|(k, t)| (k.clone(), t.map_refs(f))).collect()),
            t => t.clone(),
        }
    }

    pub fn write(&self, obj: Obj<'_>) {
        match self {
            Tree::Null => obj.primitive(Null),
            Tree::Bool(b) => either(obj, *b, *b),
            Tree::Int(i) => either(obj, *i, i % 2 != 0),
            Tree::Num(f) => either(obj, *f, f.to_bits() % 2 != 0),
            Tree::Str(b) => either(obj, Str(b), b.len() % 2 != 0),
            Tree::Text(t) => with_text(t, obj),
            Tree::Name(n) => either(obj, Name(n), n.len() % 2 != 0),
            Tree::Ref(r) => either(obj, *r, r.get() % 2 != 0),
            Tree::Rect(r) => either(obj, *r, r.x1.to_bits() % 2 != 0),
            Tree::Date(d, _) => obj.primitive(*d),
            Tree::Arr(v) => {
                let mut a = obj.array();
                for t in v {
                    t.write(a.push());
                }
            }
            Tree::Dict(v) => {
                let mut d = obj.dict();
                for (k, t) in v {
                    t.write(d.insert(Name(k)));
                }
            }
        }
    }

    /// As `write`, but through the convenience calls (`item`, `pair`, explicit
    /// `finish`) chosen by the generator.
    pub fn write_alt(&self, s: &mut Src, obj: Obj<'_>) {
        match self {
            Tree::Arr(v) => {
                let mut a = obj.array();
                let mut i = 0;
                while i < v.len() {
                    let t = &v[i];
                    i += 1;
                    match t {
                        Tree::Int(i) if i % 2 != 0 => {
                            a.item(i);
                        }
                        Tree::Int(i) => {
                            a.item(*i);
                        }
                        Tree::Num(f) => {
                            // A run of numbers in one call.
                            let mut run = vec![*f];
                            while let Some(Tree::Num(f)) = v.get(i) {
                                run.push(*f);
                                i += 1;
                            }
                            if run.len() % 2 == 0 { a.items(lz(run.iter())) } else { a.items(lz(run)) };
                        }
                        Tree::Str(b) => {
                            a.items(lz([&Str(b)]));
                        }
                        Tree::Bool(b) => {
                            a.item(b);
                        }
                        Tree::Name(n) => {
                            a.item(Name(n));
                        }
                        Tree::Ref(r) => {
                            a.item(*r);
                        }
                        t => t.write_alt(s, a.push()),
                    }
                }
                if s.coin() {
                    a.finish();
                }
            }
            Tree::Dict(v) => {
                let mut d = obj.dict();
                let mut i = 0;
                while i < v.len() {
                    let (k, t) = &v[i];
                    i += 1;
                    match t {
                        Tree::Int(i) if i % 2 != 0 => {
                            d.pair(Name(k), i);
                        }
                        Tree::Int(i) => {
                            d.pair(Name(k), *i);
                        }
                        Tree::Num(f) => {
                            let mut run = vec![(Name(k), *f)];
                            while let Some((k, Tree::Num(f))) = v.get(i) {
                                run.push((Name(k), *f));
                                i += 1;
                            }
                            if run.len() % 2 == 0 { d.pairs(lz(run.iter().map(|(k, f)| (*k, f)))) } else { d.pairs(lz(run)) };
                        }
                        Tree::Str(b) => {
                            d.pairs(lz([(Name(k), &Str(b))]));
                        }
                        Tree::Bool(b) => {
                            d.pair(Name(k), b);
                        }
                        Tree::Name(n) => {
                            d.pair(Name(k), Name(n));
                        }
                        Tree::Ref(r) => {
                            d.pair(Name(k), *r);
                        }
                        t => t.write_alt(s, d.insert(Name(k))),
                    }
                }
                if s.coin() {
                    d.finish();
                }
            }
            t => t.write(obj),
        }
    }
}

/// Write a value or a reference to it.
fn either<T: Primitive + Copy>(obj: Obj<'_>, v: T, by_ref: bool)
where
    for<'x> &'x T: Primitive,
{
    if by_ref { obj.primitive(&v) } else { obj.primitive(v) }
}

pub fn with_text(t: &TextArg, obj: Obj<'_>) {
    match t {
        TextArg::Plain(s) => obj.primitive(TextStr(s)),
        TextArg::Lang(v) => {
            let segs: Vec<_> = v.iter().map(|(l, r, s)| (lang_id(l, r), s.as_str())).collect();
            obj.primitive(TextStrWithLang(&segs))
        }
    }
}

pub fn rect_m(r: Rect) -> M {
    M::Arr(vec![M::Num(r.x1), M::Num(r.y1), M::Num(r.x2), M::Num(r.y2)])
}
pub fn ref_m(r: Ref) -> M {
    M::Ref(r.get() as i64)
}
pub fn refs_m(v: &[Ref]) -> M {
    M::Arr(v.iter().map(|r| ref_m(*r)).collect())
}
pub fn ints_m(v: &[i32]) -> M {
    M::Arr(v.iter().map(|i| M::Int(*i as i64)).collect())
}
pub fn nums_m(v: &[f32]) -> M {
    M::Arr(v.iter().map(|i| M::Num(*i)).collect())
}
pub fn names_m(v: &[&str]) -> M {
    M::Arr(v.iter().map(|i| M::Name(i.as_bytes().to_vec())).collect())
}
pub fn put_raw(s: &mut Src, dict: &mut Dict<'_>, d: &mut D) {
    // A field the typed API does not expose, through the underlying dictionary.
    let mut k = b"ZZ".to_vec();
    k.extend(s.name_bytes());
    let t = Tree::gen(s, 1);
    t.write(dict.insert(Name(&k)));
    d.putb(&k, t.model());
}

/// Run a random sequence of the listed builder operations.
///
/// Each operation is a parenthesised `(kind method "Key" args...)`; see `set!`.
#[macro_export]
macro_rules! ops {
    ($s:ident, $w:ident, $d:ident; $( ( $($t:tt)* ) )* ) => {{
        const LABELS: &[&str] = &[ $( stringify!($($t)*) ),* ];
        let total = LABELS.len() as u64;
        let count = if $s.depth == 0 { $s.below(3) } else { $s.nops(total) };
        let mut twin = $crate::engine::Twin::default();
        for _ in 0..count {
            $s.step_begins(&mut twin);
            let k = $s.below(total) as usize;
            $s.hit($crate::gen::label(LABELS[k], concat!(module_path!())));
            let mut i = 0usize;
            $(
                if k == i { $crate::set!($s, $w, $d; $($t)*); }
                i += 1;
            )*
            let _ = i;
            $s.step_ends(&mut twin);
        }
    }};
}

/// Shorten an operation label for the statistics.
pub fn label(l: &'static str, _m: &'static str) -> &'static str {
    // `kind method "Key" ...` -> up to the first bracket or 60 bytes.
    let mut end = l.len().min(60);
    while !l.is_char_boundary(end) {
        end -= 1;
    }
    let l = &l[..end];
    match l.find(['[', '{', '&', '(', '\n']) {
        Some(i) if i > 4 => l[..i].trim_end(),
        _ => l,
    }
}

thread_local! {
    static LAZY: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Start over with a new case.
pub fn reset_lazy() {
    LAZY.with(|c| c.set(0));
}

/// An iterator that may know less about its length than it could. A writer
/// must write the items an iterator yields, whatever the hint says.
pub struct Lazy<I> {
    inner: I,
    mode: u64,
}

/// Hide the length of some of the iterators given to the writers.
pub fn lz<T: IntoIterator>(items: T) -> Lazy<T::IntoIter> {
    let inner = items.into_iter();
    let n = LAZY.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let h = (n * 31 + inner.size_hint().0 as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 60;
    Lazy { inner, mode: h }
}

impl<I: Iterator> Iterator for Lazy<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        self.inner.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.inner.size_hint();
        match self.mode {
            0..=3 => (0, None),
            4..=6 => (0, hi),
            7 => (lo / 2, hi.map(|h| h.saturating_mul(2).saturating_add(1))),
            8 => (lo, None),
            _ => (lo, hi),
        }
    }
}

#[macro_export]
macro_rules! set {
    ($s:ident, $w:ident, $d:ident; int $m:ident $k:literal) => {{
        let v = $s.int();
        $w.$m(v);
        $d.put($k, M::Int(v as i64));
    }};
    ($s:ident, $w:ident, $d:ident; num $m:ident $k:literal) => {{
        let v = $s.num();
        $w.$m(v);
        $d.put($k, M::Num(v));
    }};
    ($s:ident, $w:ident, $d:ident; boolean $m:ident $k:literal) => {{
        let v = $s.coin();
        $w.$m(v);
        $d.put($k, M::Bool(v));
    }};
    ($s:ident, $w:ident, $d:ident; rf $m:ident $k:literal) => {{
        let v = $s.rf();
        $w.$m(v);
        $d.put($k, $crate::gen::ref_m(v));
    }};
    ($s:ident, $w:ident, $d:ident; rect $m:ident $k:literal) => {{
        let v = $s.rect();
        $w.$m(v);
        $d.put($k, $crate::gen::rect_m(v));
    }};
    ($s:ident, $w:ident, $d:ident; name $m:ident $k:literal) => {{
        let v = $s.name_bytes();
        $w.$m(Name(&v));
        $d.put($k, M::Name(v));
    }};
    ($s:ident, $w:ident, $d:ident; string $m:ident $k:literal) => {{
        let v = $s.bytes(130);
        $w.$m(Str(&v));
        $d.put($k, M::Str(v));
    }};
    // Accepts only `TextStr`.
    ($s:ident, $w:ident, $d:ident; tstr $m:ident $k:literal) => {{
        let v = $s.text(130);
        $w.$m(TextStr(&v));
        $d.put($k, M::Text(v));
    }};
    // Accepts any text string type.
    ($s:ident, $w:ident, $d:ident; text $m:ident $k:literal) => {{
        let v = $s.text_arg();
        match &v {
            $crate::gen::TextArg::Plain(t) => {
                $w.$m(TextStr(t));
            }
            $crate::gen::TextArg::Lang(segs) => {
                let segs: Vec<_> =
                    segs.iter().map(|(l, r, t)| ($crate::gen::lang_id(l, r), t.as_str())).collect();
                $w.$m(TextStrWithLang(&segs));
            }
        }
        $d.put($k, v.model());
    }};
    ($s:ident, $w:ident, $d:ident; date $m:ident $k:literal) => {{
        let (v, b) = $s.date();
        $w.$m(v);
        $d.put($k, M::Str(b));
    }};
    ($s:ident, $w:ident, $d:ident; nums $m:ident $k:literal) => {{
        let v = $s.nums(300);
        $w.$m($crate::gen::lz(v.iter().copied()));
        $d.put($k, $crate::gen::nums_m(&v));
    }};
    ($s:ident, $w:ident, $d:ident; ints $m:ident $k:literal) => {{
        let v = $s.ints(300);
        $w.$m($crate::gen::lz(v.iter().copied()));
        $d.put($k, $crate::gen::ints_m(&v));
    }};
    ($s:ident, $w:ident, $d:ident; refs $m:ident $k:literal) => {{
        let v = $s.refs(300);
        $w.$m($crate::gen::lz(v.iter().copied()));
        $d.put($k, $crate::gen::refs_m(&v));
    }};
    ($s:ident, $w:ident, $d:ident; names $m:ident $k:literal) => {{
        let n = $s.len(100);
        let v: Vec<Vec<u8>> = (0..n).map(|_| $s.name_bytes()).collect();
        $w.$m($crate::gen::lz(v.iter().map(|n| Name(n))));
        $d.put($k, M::Arr(v.into_iter().map(M::Name).collect()));
    }};
    ($s:ident, $w:ident, $d:ident; strings $m:ident $k:literal) => {{
        let n = $s.len(100);
        let v: Vec<Vec<u8>> = (0..n).map(|_| $s.bytes(60)).collect();
        $w.$m($crate::gen::lz(v.iter().map(|n| Str(n))));
        $d.put($k, M::Arr(v.into_iter().map(M::Str).collect()));
    }};
    ($s:ident, $w:ident, $d:ident; tstrs $m:ident $k:literal) => {{
        let n = $s.len(100);
        let v: Vec<String> = (0..n).map(|_| $s.text(60)).collect();
        $w.$m($crate::gen::lz(v.iter().map(|n| TextStr(n))));
        $d.put($k, M::Arr(v.into_iter().map(M::Text).collect()));
    }};
    // A fixed-size array of numbers.
    ($s:ident, $w:ident, $d:ident; fixed $m:ident $k:literal $n:literal) => {{
        let v: [f32; $n] = $s.arr();
        $w.$m(v);
        $d.put($k, $crate::gen::nums_m(&v));
    }};
    // An array made of N separate number arguments.
    ($s:ident, $w:ident, $d:ident; spread1 $m:ident $k:literal) => {{
        let a = $s.num();
        $w.$m(a);
        $d.put($k, $crate::gen::nums_m(&[a]));
    }};
    ($s:ident, $w:ident, $d:ident; spread2 $m:ident $k:literal) => {{
        let [a, b]: [f32; 2] = $s.arr();
        $w.$m(a, b);
        $d.put($k, $crate::gen::nums_m(&[a, b]));
    }};
    ($s:ident, $w:ident, $d:ident; spread3 $m:ident $k:literal) => {{
        let [a, b, c]: [f32; 3] = $s.arr();
        $w.$m(a, b, c);
        $d.put($k, $crate::gen::nums_m(&[a, b, c]));
    }};
    ($s:ident, $w:ident, $d:ident; spread4 $m:ident $k:literal) => {{
        let [a, b, c, e]: [f32; 4] = $s.arr();
        $w.$m(a, b, c, e);
        $d.put($k, $crate::gen::nums_m(&[a, b, c, e]));
    }};
    // A method without arguments that writes an empty array.
    ($s:ident, $w:ident, $d:ident; empty $m:ident $k:literal) => {{
        $w.$m();
        $d.put($k, M::Arr(vec![]));
    }};
    // A method without arguments that writes a fixed name.
    ($s:ident, $w:ident, $d:ident; konst $m:ident $k:literal $v:literal) => {{
        $w.$m();
        $d.put($k, $crate::pdf::name($v));
    }};
    // An enumeration written as a name.
    ($s:ident, $w:ident, $d:ident; en $m:ident $k:literal [$( $v:expr => $n:literal ),* $(,)?]) => {{
        let table = [ $( ($v, $n) ),* ];
        let i = $s.usize(0, table.len() - 1);
        let n = table[i].1;
        let mut it = table.into_iter();
        let v = it.nth(i).unwrap().0;
        $w.$m(v);
        $d.put($k, $crate::pdf::name(n));
    }};
    // An enumeration written as an integer.
    ($s:ident, $w:ident, $d:ident; eni $m:ident $k:literal [$( $v:expr => $n:literal ),* $(,)?]) => {{
        let table = [ $( ($v, $n) ),* ];
        let i = $s.usize(0, table.len() - 1);
        let n: i64 = table[i].1;
        let mut it = table.into_iter();
        let v = it.nth(i).unwrap().0;
        $w.$m(v);
        $d.put($k, M::Int(n));
    }};
    // Bit flags: any subset, given by 1-based bit positions of ISO 32000.
    ($s:ident, $w:ident, $d:ident; flags $m:ident $k:literal $ty:ident [$( $f:ident => $bit:literal ),* $(,)?]) => {{
        let mut v = $ty::empty();
        let mut bits = 0i64;
        // None, a few or all, as it comes, or a random half.
        let density = *$s.pick(&[0, 4, 4, 4, 1, 7, 8, 4]);
        $(
            if $s.below(8) < density {
                v |= $ty::$f;
                bits |= 1i64 << ($bit - 1);
            }
        )*
        $w.$m(v);
        $d.put($k, M::Int(bits));
    }};
    // A nested writer filled by `f`.
    ($s:ident, $w:ident, $d:ident; nest $m:ident $k:literal $f:expr) => {{
        let m = {
            let mut child = $w.$m();
            $s.nested(|s| ($f)(s, &mut child))
        };
        $d.put($k, m);
    }};
    // A nested typed array of writers, each item filled by `f`.
    ($s:ident, $w:ident, $d:ident; nestarr $m:ident $k:literal $f:expr) => {{
        let m = {
            let mut arr = $w.$m();
            let n = $s.count(0, 3);
            let mut v = Vec::new();
            for _ in 0..n {
                let mut child = arr.push();
                v.push($s.nested(|s| ($f)(s, &mut child)));
            }
            M::Arr(v)
        };
        $d.put($k, m);
    }};
    // A nested writer consumed by value by `f`.
    ($s:ident, $w:ident, $d:ident; nestval $m:ident $k:literal $f:expr) => {{
        let m = {
            let child = $w.$m();
            $s.nested(|s| ($f)(s, child))
        };
        $d.put($k, m);
    }};
    // A plain dictionary with arbitrary content.
    ($s:ident, $w:ident, $d:ident; rawdict $m:ident $k:literal) => {{
        let m = {
            let mut child = $w.$m();
            let n = $s.count(0, 3);
            let mut e = D::new();
            for _ in 0..n {
                $crate::gen::put_raw($s, &mut child, &mut e);
            }
            e.m()
        };
        $d.put($k, m);
    }};
    // An entry not covered by the typed API.
    ($s:ident, $w:ident, $d:ident; raw) => {{
        $crate::gen::put_raw($s, &mut *$w, &mut $d);
    }};
    // Anything else.
    ($s:ident, $w:ident, $d:ident; act $label:ident $b:block) => {{
        $b
    }};
}
